//! Properties of interactive sessions, decided with the generic driver in `tty`.
use crate::engine::{Prop, Tier, Verdict};
use crate::lm::*;
use crate::pty;
use crate::tty::*;
use proptest::prelude::*;
use proptest::sample::select;

pub fn s(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}

// --------------------------------------------------------------- generators

pub fn text_key() -> BoxedStrategy<Key> {
    prop_oneof![
        8 => solid_char().prop_map(Key::Ch),
        4 => proptest::char::range('a', 'z').prop_map(Key::Ch),
        2 => Just(Key::Ch(' ')),
        // other spaces
        1 => select(vec!['\u{a0}', '\u{3000}', '\u{2003}', '\u{202f}', '\u{1680}']).prop_map(Key::Ch),
        1 => any::<char>().prop_filter("undefined", |c| !c.is_control() && !DEAD.contains(c) && crate::lm::widths_agree(*c)).prop_map(Key::Ch),
        2 => select(vec!['\u{301}', '\u{300}', '\u{200b}', '\u{20dd}']).prop_map(Key::Ch),
    ]
    .boxed()
}
pub fn edit_key() -> BoxedStrategy<Key> {
    select(vec![
        Key::Left,
        Key::Left,
        Key::Left,
        Key::Right,
        Key::Right,
        Key::Home,
        Key::End,
        Key::Delete,
        Key::Delete,
        Key::Del7f,
        Key::Del7f,
        Key::Ctl(1),
        Key::Ctl(2),
        Key::Ctl(5),
        Key::Ctl(6),
        Key::Ctl(8),
        Key::Ctl(11),
        Key::Ctl(21),
        Key::Ctl(23),
        Key::Ctl(23),
        Key::Ctl(25),
        Key::Ctl(25),
    ])
    .boxed()
}
pub fn resp_key() -> BoxedStrategy<Key> {
    prop_oneof![
        4 => Just(Key::Enter),
        1 => Just(Key::Newline),
        2 => select(vec![3u8, 4, 4, 7, 7, 20, 24, 28]).prop_map(Key::Ctl),
        1 => Just(Key::Esc),
        1 => select(vec![0u8, 15, 17, 18, 19, 22, 29, 30, 31]).prop_map(Key::Ctl),
    ]
    .boxed()
}
pub fn hist_key() -> BoxedStrategy<Key> {
    select(vec![Key::Up, Key::Up, Key::Up, Key::Down, Key::Down, Key::Ctl(16), Key::Ctl(16), Key::Ctl(14)]).boxed()
}
pub const UNKNOWN: &[&str] = &["[5~", "[6~", "[2~", "[15~", "[Z", "[1;5P", "[200~", "[I", "c", "b", "d", "=", ">", "[E", "[?1;2c", "[24;80R", "[97;1:3u", "[3;1:3~", "[1;1:3A", "[201~"];
pub const DEAD: &[char] = &['\u{80}', '\u{85}', '\u{9b}', '\u{9f}', '\u{2028}', '\u{2029}'];
/// Did shrinking leave only operations that could have been generated?
pub fn valid_ops(o: &[Op]) -> bool {
    o.iter().all(|o| match o {
        Op::Keys(k) => k.iter().all(|k| match k {
            Key::Unknown(s) => UNKNOWN.contains(&s.as_str()),
            _ => true,
        }),
        Op::Hold(o) => valid_ops(o),
        _ => true,
    })
}
pub fn odd_key() -> BoxedStrategy<Key> {
    prop_oneof![
        2 => select(UNKNOWN.iter().map(|x| x.to_string()).collect::<Vec<_>>()).prop_map(Key::Unknown),
        1 => select(DEAD.to_vec()).prop_map(Key::Dead),
    ]
    .boxed()
}
#[derive(Clone, Copy)]
pub struct KMix {
    pub text: u32,
    pub edit: u32,
    pub resp: u32,
    pub hist: u32,
    pub tab: u32,
    pub clear: u32,
    pub odd: u32,
}
pub fn keys(k: KMix, max: usize) -> BoxedStrategy<Vec<Key>> {
    let mut v: Vec<(u32, BoxedStrategy<Key>)> = vec![];
    for (w, st) in [
        (k.text, text_key()),
        (k.edit, edit_key()),
        (k.resp, resp_key()),
        (k.hist, hist_key()),
        (k.tab, Just(Key::Ctl(9)).boxed()),
        (k.clear, Just(Key::Ctl(12)).boxed()),
        (k.odd, odd_key()),
    ] {
        if w > 0 {
            v.push((w, st));
        }
    }
    proptest::collection::vec(proptest::strategy::Union::new_weighted(v), 1..=max).boxed()
}
pub const TYPING: KMix = KMix { text: 10, edit: 7, resp: 2, hist: 1, tab: 0, clear: 0, odd: 1 };

/// text as a program would print it: mostly visible characters
pub fn out_char() -> BoxedStrategy<char> {
    prop_oneof![30 => vis_char(), 1 => ctl_char()].boxed()
}
pub fn out_line(max_ops: usize, max_text: usize) -> BoxedStrategy<LSpec> {
    prop_oneof![
        1 => Just(vec![]),
        3 => text_of(solid_char(), max_text).prop_map(|t| vec![LOp::Text(t)]),
        8 => lspec(out_char(), max_ops, max_text, true),
    ]
    .boxed()
}
/// a line of exactly or nearly the terminal's width, where things go wrong
pub fn edge_line(w: usize) -> BoxedStrategy<LSpec> {
    (
        proptest::collection::vec(prop_oneof![3 => Just('x'), 1 => Just('世'), 1 => Just(' ')], w.saturating_sub(3)..=w * 2 + 1),
        style_strat(),
        col_strat(),
        proptest::option::of((0..=w, attr_op())),
    )
        .prop_map(|(t, st, bg, split)| {
            let mut v = vec![LOp::Set(st), LOp::Bg(bg)];
            match split {
                Some((at, op)) => {
                    let at = at.min(t.len());
                    v.push(LOp::Text(t[..at].iter().collect()));
                    v.push(op);
                    v.push(LOp::Text(t[at..].iter().collect()));
                }
                None => v.push(LOp::Text(t.iter().collect())),
            }
            v
        })
        .boxed()
}
pub fn live_line(w: usize) -> BoxedStrategy<LSpec> {
    prop_oneof![6 => out_line(4, 7), 2 => edge_line(w), 1 => lspec(out_char(), 3, 5, false)].boxed()
}
#[derive(Clone, Copy)]
pub struct Mix {
    pub print: u32,
    pub wrap: u32,
    pub echo: u32,
    pub status: u32,
    pub prompt: u32,
    pub notice: u32,
    pub bell: u32,
    pub custom: u32,
    pub keys: u32,
    pub suspend: u32,
    pub stop: u32,
    pub resize: u32,
    pub swap: u32,
    pub comp: u32,
    pub hold: u32,
    pub kmix: KMix,
    pub kmax: usize,
}
pub const NOTHING: Mix = Mix {
    print: 0,
    wrap: 0,
    echo: 0,
    status: 0,
    prompt: 0,
    notice: 0,
    bell: 0,
    custom: 0,
    keys: 0,
    suspend: 0,
    stop: 0,
    resize: 0,
    swap: 0,
    comp: 0,
    hold: 0,
    kmix: TYPING,
    kmax: 8,
};
pub fn hist_line() -> BoxedStrategy<String> {
    prop_oneof![
        6 => text_of(solid_char(), 6),
        3 => proptest::sample::select(s(&["a", "b", "foo", "bar", "a b", "世", ""])),
        1 => text_of(out_char(), 5),
    ]
    .boxed()
}
pub fn cact() -> BoxedStrategy<CAct> {
    prop_oneof![
        2 => Just(CAct::Nothing),
        4 => text_of(solid_char(), 4).prop_map(CAct::Insert),
        1 => text_of(out_char(), 4).prop_map(CAct::Insert),
        4 => (text_of(vis_char(), 6), 0usize..8).prop_map(|(a, b)| CAct::Replace(a, b)),
        2 => text_of(solid_char(), 6).prop_map(CAct::Print),
        1 => Just(CAct::Bell),
        1 => text_of(solid_char(), 6).prop_map(CAct::Notice),
    ]
    .boxed()
}
pub fn ops(m: Mix, w: usize, max: usize) -> BoxedStrategy<Vec<Op>> {
    let simple = |m: Mix| -> Vec<(u32, BoxedStrategy<Op>)> {
        let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![];
        let mut add = |w: u32, s: BoxedStrategy<Op>| {
            if w > 0 {
                v.push((w, s))
            }
        };
        add(m.print * 3, out_line(5, 9).prop_map(Op::Println).boxed());
        add(m.print * 2, edge_line(w).prop_map(Op::Println).boxed());
        add(m.print.min(1), proptest::collection::vec(text_of(out_char(), 80), 1..5).prop_map(|t| Op::Println(t.into_iter().enumerate().flat_map(|(i, t)| [LOp::Set(1 << (i % 5)), LOp::Text(t)]).collect())).boxed());
        add(m.print, text_of(out_char(), 12).prop_map(Op::PrintStr).boxed());
        add(m.wrap * 3, lspec(solid_char(), 5, 9, true).prop_map(Op::Wrapln).boxed());
        add(m.echo * 3, out_line(4, 8).prop_map(Op::Echoln).boxed());
        add(m.status * 2, live_line(w).prop_map(|l| Op::Status(Some(l))).boxed());
        add(m.status, prop_oneof![Just(Op::RemoveStatus), Just(Op::Status(None))].boxed());
        add(m.prompt * 3, (live_line(w), prop::bool::weighted(0.8), prop::bool::weighted(0.25)).prop_map(|(l, a, c)| Op::Prompt(l, a, c)).boxed());
        add(m.prompt, (prop_oneof![Just("> "), Just("")], any::<bool>(), prop::bool::weighted(0.3)).prop_map(|(l, a, c)| Op::Prompt(vec![LOp::Text(l.into())], a, c)).boxed());
        add(m.notice * 3, live_line(w).prop_map(Op::Notice).boxed());
        add(m.bell * 3, Just(Op::Bell).boxed());
        add(m.custom * 3, any::<u32>().prop_map(Op::Custom).boxed());
        add(
            m.swap * 3,
            prop_oneof![
                12 => proptest::collection::vec(hist_line(), 0..6),
                1 => (proptest::collection::vec(hist_line(), 0..6), 10usize..130).prop_map(|(v, n)| (0..n).map(|i| format!("h{i}")).chain(v).collect())
            ]
            .prop_map(Op::SwapHistory)
            .boxed(),
        );
        add(
            m.comp * 3,
            prop_oneof![1 => Just(None), 5 => proptest::collection::vec(cact(), 0..6).prop_map(Some)].prop_map(Op::Completor).boxed(),
        );
        add(
            m.suspend * 3,
            proptest::collection::vec(text_of(proptest::char::range('a', 'z').boxed(), 5), 0..4).prop_map(Op::Suspend).boxed(),
        );
        add(m.keys * 3, keys(m.kmix, m.kmax).prop_map(Op::Keys).boxed());
        // the same key again and again
        add((m.keys + 3) / 6, (keys(m.kmix, 3), 20usize..300).prop_map(|(k, n)| Op::Keys(k.iter().cycle().take(n).cloned().collect())).boxed());
        v
    };
    let mut v = simple(m);
    if m.stop > 0 {
        v.push((m.stop * 3, text_of(proptest::char::range('a', 'z').boxed(), 5).prop_map(Op::Stop).boxed()));
    }
    if m.resize > 0 {
        v.push((m.resize * 3, (2usize..=40, out_line(5, 9)).prop_map(|(w, l)| Op::Resize(w, l)).boxed()));
    }
    v.push((v.iter().map(|x| x.0).sum::<u32>().max(6) / 6, Just(Op::Check).boxed()));
    if m.hold > 0 {
        let inner = proptest::strategy::Union::new_weighted(simple(m));
        v.push((m.hold * 3, proptest::collection::vec(inner.clone(), 1..8).prop_map(Op::Hold).boxed()));
        // a lot at once
        v.push(((m.hold + 3) / 4, (proptest::collection::vec(inner, 1..4), 10usize..120).prop_map(|(o, n)| Op::Hold(o.iter().cycle().take(n).cloned().collect())).boxed()));
    }
    proptest::collection::vec(proptest::strategy::Union::new_weighted(v), 1..=max).boxed()
}
pub fn tty_case(m: Mix, max: usize) -> BoxedStrategy<TtyCase> {
    (
        prop_oneof![30 => 4usize..=12, 30 => 13usize..=30, 10 => select(vec![2usize, 3, 40, 80, 0]), 1 => select(vec![100usize, 127, 128, 132, 255, 256, 257, 300, 511])],
        prop_oneof![30 => 8usize..=12, 60 => 13usize..=30, 1 => 31usize..=120],
        any::<bool>(),
        select(s(&["xterm", "xterm-256color", "linux", "screen", "vt100", ""])),
        0u8..3,
        0u8..3,
    )
        .prop_flat_map(move |(w, h, bce, term, via, end)| {
            ops(m, if w == 0 { 80 } else { w }, max).prop_map(move |ops| TtyCase { w, h, bce, term: term.clone(), via, ops, end })
        })
        .boxed()
}

macro_rules! tty_prop {
    ($name:ident, $id:literal, $rule:literal, $mix:expr, $max:expr, $q:expr, $t:expr, $fixed:expr) => {
        pub struct $name;
        impl Prop for $name {
            type Case = TtyCase;
            fn id(&self) -> &'static str {
                $id
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn strategy(&self, _t: Tier) -> BoxedStrategy<TtyCase> {
                tty_case($mix, $max)
            }
            fn cases(&self, t: Tier) -> u64 {
                t.pick($q, $t)
            }
            fn fixed(&self, _t: Tier) -> Vec<TtyCase> {
                $fixed
            }
            fn valid(&self, c: &TtyCase) -> bool {
                valid_ops(&c.ops)
            }
            fn exec(&self, c: &TtyCase) -> Verdict {
                pty::run_child($id, c)
            }
            fn child(&self, c: &TtyCase) -> Result<(bool, Vec<String>), String> {
                run_tty(c).map(|(nt, l)| (nt && ($id != "C19" || l.iter().any(|x| x == "suspend" || x == "control-z")), l))
            }
            fn assumptions(&self) -> Vec<String> {
                tty_assumptions()
            }
        }
    };
}
pub fn tty_assumptions() -> Vec<String> {
    vec![
        "The terminal is an ANSI terminal with deferred wrap disabled by DECAWM (as modelled by the emulator), of constant size, taller than the live area".into(),
        "unicode-width's width of each character is the terminal's".into(),
        "LISO_CROSSTERM_INPUT is unset".into(),
    ]
}

tty_prop!(
    Screen,
    "C08",
    "at least two comparisons of the whole transcript and two kinds of operation",
    Mix { print: 4, wrap: 2, echo: 1, status: 3, prompt: 3, notice: 1, bell: 0, keys: 6, hold: 2, resize: 1, kmix: KMix { clear: 1, ..TYPING }, ..NOTHING },
    14,
    24000,
    384000,
    vec![]
);
tty_prop!(
    Editing,
    "C10",
    "at least two comparisons and two kinds of operation, keys among them",
    Mix { print: 1, prompt: 1, keys: 12, hold: 1, kmix: KMix { text: 10, edit: 12, resp: 4, hist: 0, tab: 0, clear: 0, odd: 1 }, kmax: 24, ..NOTHING },
    8,
    12000,
    192000,
    vec![]
);
tty_prop!(
    Recall,
    "C12",
    "at least two comparisons and two kinds of operation, keys among them",
    Mix { print: 1, prompt: 2, notice: 1, swap: 3, keys: 12, hold: 3, kmix: KMix { text: 6, edit: 4, resp: 4, hist: 12, tab: 0, clear: 0, odd: 0 }, kmax: 14, ..NOTHING },
    10,
    12000,
    192000,
    vec![]
);
tty_prop!(
    Completion,
    "C13",
    "at least two comparisons and two kinds of operation, keys among them",
    Mix { print: 1, prompt: 1, comp: 4, keys: 12, hold: 1, kmix: KMix { text: 6, edit: 4, resp: 2, hist: 1, tab: 10, clear: 0, odd: 1 }, kmax: 12, ..NOTHING },
    10,
    20000,
    320000,
    vec![]
);
tty_prop!(
    PromptStatus,
    "C15",
    "at least two comparisons and two kinds of operation",
    Mix { print: 1, status: 4, prompt: 8, keys: 6, hold: 3, notice: 1, kmax: 6, ..NOTHING },
    14,
    20000,
    320000,
    vec![]
);

tty_prop!(
    Suspending,
    "C19",
    "at least two comparisons and two kinds of operation, and the terminal was handed over at least once",
    Mix { print: 3, status: 3, prompt: 3, keys: 4, hold: 2, notice: 1, bell: 1, suspend: 5, stop: 2, kmax: 6, ..NOTHING },
    12,
    16000,
    256000,
    vec![]
);
