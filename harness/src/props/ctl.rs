//! Control characters in text (C02).
use super::term::*;
use crate::emu::Kind;
use crate::engine::{guarded, Prop, Tier, Verdict};
use crate::lm::*;
use crate::pty::{self, *};
use crate::tty::*;
use liso::{liso, liso_add, InputOutput, Line, Style};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Add {
    pub text: String,
    /// see `add`
    pub how: u8,
    /// changed before
    pub attr: Option<LOp>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    /// 0 println(&str), 1 println(Line), 2 wrapln, 3 the global println, 4 println(String)
    Print(String, u8),
    /// things that aren't shown
    Other(String, u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum KCase {
    Line(Vec<Add>),
    Tty(TtyCase),
    Pipe(Vec<Out>),
}
pub struct Control;

fn is_control(c: char) -> bool {
    let c = c as u32;
    c < 0x20 && c != 10 || (0x7f..0xa0).contains(&c) || c == 0x2028 || c == 0x2029
}
fn visible_form(c: char) -> String {
    let n = c as u32;
    if n < 32 {
        format!("^{}", (n as u8 + 64) as char)
    } else {
        format!("U+{n:04X}")
    }
}
fn expanded(s: &str) -> String {
    s.chars().map(|c| if is_control(c) { visible_form(c) } else { c.to_string() }).collect()
}
fn heavy(c: BoxedStrategy<char>) -> BoxedStrategy<char> {
    prop_oneof![2 => c, 2 => ctl_char()].boxed()
}
fn some() -> BoxedStrategy<char> {
    heavy(vis_char())
}
fn spec(n: usize, nl: bool) -> BoxedStrategy<LSpec> {
    prop_oneof![
        3 => text_of(some(), 8).prop_map(|t| vec![LOp::Text(t)]),
        3 => lspec(some(), n, 6, nl),
    ]
    .boxed()
}
fn comp() -> BoxedStrategy<CAct> {
    prop_oneof![
        4 => text_of(some(), 4).prop_map(CAct::Insert),
        4 => (text_of(some(), 6), 0usize..8).prop_map(|(a, b)| CAct::Replace(a, b)),
        1 => text_of(some(), 6).prop_map(CAct::Print),
        1 => text_of(some(), 6).prop_map(CAct::Notice),
    ]
    .boxed()
}
fn key() -> BoxedStrategy<Key> {
    prop_oneof![
        6 => text_key(),
        2 => select(DEAD.to_vec()).prop_map(Key::Dead),
        4 => edit_key(),
        6 => hist_key(),
        4 => Just(Key::Ctl(9)),
        1 => Just(Key::Enter),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    let simple = || {
        prop_oneof![
            3 => spec(4, true).prop_map(Op::Println),
            2 => text_of(heavy(any_char()), 12).prop_map(Op::PrintStr),
            1 => spec(4, true).prop_map(Op::Wrapln),
            1 => spec(4, true).prop_map(Op::Echoln),
            3 => spec(3, true).prop_map(|s| Op::Status(Some(s))),
            3 => (spec(3, true), prop::bool::weighted(0.85), any::<bool>()).prop_map(|(s, a, c)| Op::Prompt(s, a, c)),
            1 => spec(3, true).prop_map(Op::Notice),
            6 => proptest::collection::vec(key(), 1..8).prop_map(Op::Keys),
            2 => proptest::collection::vec(text_of(some(), 5), 1..5).prop_map(Op::SwapHistory),
            2 => proptest::collection::vec(comp(), 1..5).prop_map(|c| Op::Completor(Some(c))),
        ]
    };
    prop_oneof![
        12 => simple(),
        1 => Just(Op::Check),
        1 => proptest::collection::vec(simple(), 1..6).prop_map(Op::Hold),
    ]
    .boxed()
}
impl Prop for Control {
    type Case = KCase;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "some text given to Liso contained a control character other than newline"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<KCase> {
        let add = (prop_oneof![300 => text_of(heavy(any_char()), 10), 1 => text_of(heavy(any_char()), 400)], 0u8..14, prop_oneof![2 => Just(None), 1 => attr_op().prop_map(Some)]).prop_map(|(text, how, attr)| Add { text, how, attr });
        let out = prop_oneof![
            3 => (text_of(heavy(any_char()), 10), 0u8..5).prop_map(|(a, b)| Out::Print(a, b)),
            1 => (text_of(heavy(any_char()), 10), 0u8..4).prop_map(|(a, b)| Out::Other(a, b)),
        ];
        prop_oneof![
            30 => proptest::collection::vec(add, 1..7).prop_map(KCase::Line),
            7 => (6usize..40, 14usize..30, any::<bool>(), select(s(&["xterm", "xterm-256color", "linux", "", "vt52", "st52-color"])), 0u8..3, 0u8..3).prop_flat_map(|(w, h, bce, term, via, end)| {
                proptest::collection::vec(op(), 1..12).prop_map(move |ops| KCase::Tty(TtyCase { w: if term.contains("52") { w.max(8) } else { w }, h, bce, term: term.clone(), via, ops, end }))
            }),
            1 => proptest::collection::vec(out, 1..10).prop_map(KCase::Pipe),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(90000, 1500000)
    }
    fn valid(&self, c: &KCase) -> bool {
        match c {
            KCase::Tty(c) => valid_ops(&c.ops) && c.w >= 6 && c.h >= 14,
            _ => true,
        }
    }
    /// every control character, in every way; and every two of them next to each other
    fn fixed(&self, _t: Tier) -> Vec<KCase> {
        let mut v = vec![];
        let all: Vec<char> = (0u32..0xa1).chain(0x2026..0x202b).chain([0xad, 0xfeff, 0xfffd]).filter_map(char::from_u32).collect();
        for how in 0..14 {
            for c in &all {
                v.push(KCase::Line(vec![
                    Add { text: c.to_string(), how, attr: None },
                    Add { text: format!("a{c}b"), how, attr: Some(LOp::Set(INVERSE | BOLD)) },
                ]));
            }
        }
        for a in all.iter().filter(|c| is_control(**c)) {
            for b in all.iter().filter(|c| is_control(**c) || matches!(c, '\n' | ' ' | 'a')) {
                v.push(KCase::Line(vec![Add { text: format!("{a}{b}"), how: (*a as u32 % 3) as u8, attr: None }]));
            }
        }
        v
    }
    fn exec(&self, c: &KCase) -> Verdict {
        match c {
            KCase::Line(_) => guarded(c, |c| match c {
                KCase::Line(l) => line(l).map(|b| (b, vec!["line".into()])),
                _ => unreachable!(),
            }),
            c => pty::run_child("C02", c),
        }
    }
    fn child(&self, c: &KCase) -> Result<(bool, Vec<String>), String> {
        match c {
            KCase::Line(_) => Ok((false, vec![])),
            KCase::Tty(c) => tty(c),
            KCase::Pipe(o) => pipe(o),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        tty_assumptions()
    }
}
fn add(l: &mut Line, text: &str, how: u8) {
    let other = |mut o: Line, l: &mut Line| {
        // what a line of its own looks like, in this line's attributes
        if l.is_empty() {
            let (st, (f, b)) = (l.get_style(), l.get_colors());
            if st == Style::PLAIN && f.is_none() && b.is_none() {
                *l = o;
                return;
            }
        }
        o.set_style(Style::PLAIN);
        l.append_line(&o);
    };
    match how {
        0 => {
            l.add_text(text);
        }
        1 => {
            l.add_text(text.to_string());
        }
        2 => {
            l.add_text(Cow::Borrowed(text));
        }
        3 => {
            liso_add!(l, text);
        }
        4 => {
            liso_add!(l, plain, (text.to_string()));
        }
        5 => other(Line::from_str(text), l),
        6 => other(Line::from_string(text.to_string()), l),
        7 => other(Line::from_cow(Cow::Borrowed(text)), l),
        8 => other(Line::from(text), l),
        9 => other(Line::from(text.to_string()), l),
        10 => other(Line::from(Cow::Owned::<str>(text.to_string())), l),
        11 => other(text.parse::<Line>().unwrap(), l),
        12 => other(liso!(text), l),
        _ => {
            l.add_ansi_text(text.replace('\u{1b}', ""));
        }
    }
}
fn line(adds: &[Add]) -> Result<bool, String> {
    let mut l = Line::new();
    let mut want: Vec<(char, Style)> = vec![];
    let mut some = false;
    for (i, a) in adds.iter().enumerate() {
        if let Some(o) = &a.attr {
            apply_real(&mut l, o);
        }
        let separate = (5..=12).contains(&a.how);
        if a.how == 4 {
            l.set_style(Style::PLAIN);
        }
        // (how attributes behave when lines are appended is another property's matter)
        let st = if separate { Style::PLAIN } else { l.get_style() };
        let text = if a.how == 13 { a.text.replace('\u{1b}', "") } else { a.text.clone() };
        for c in text.chars() {
            if is_control(c) {
                some = true;
                for c in visible_form(c).chars() {
                    want.push((c, st ^ Style::INVERSE));
                }
            } else {
                want.push((c, st));
            }
        }
        let colors = l.get_colors();
        add(&mut l, &a.text, a.how);
        let got: Vec<(char, Style)> = l.chars().map(|c| (c.ch, c.style)).collect();
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("after adding {:?} (#{i}, way {}) the line is {:?}; character {at} is {:?}, expected {:?}", a.text, a.how, l.as_str(), got.get(at), want.get(at)));
        }
        let plain: String = want.iter().map(|x| x.0).collect();
        if l.as_str() != plain {
            return Err(format!("after adding {:?} the text is {:?}, but its characters {plain:?}", a.text, l.as_str()));
        }
        if !separate && (l.get_style() != st || l.get_colors() != colors) {
            return Err(format!("adding {:?} changed the current attributes", a.text));
        }
    }
    Ok(some)
}
fn has_control(v: &serde_json::Value) -> bool {
    match v {
        serde_json::Value::String(s) => s.chars().any(is_control),
        serde_json::Value::Array(a) => a.iter().any(has_control),
        serde_json::Value::Object(o) => o.values().any(has_control),
        _ => false,
    }
}
fn tty(c: &TtyCase) -> Result<(bool, Vec<String>), String> {
    let (_, mut labels) = run_tty(c)?;
    labels.push(if c.term.contains("52") { "vt52" } else { "ansi" }.into());
    // (the emulator has complained about control characters if there were any)
    Ok((has_control(&serde_json::to_value(&c.ops).unwrap()), labels))
}
fn pipe(outs: &[Out]) -> Result<(bool, Vec<String>), String> {
    let sess = Session::new(SessCfg { stdin: Fd::Pipe, stdout: Fd::Pipe, kind: Kind::Ansi { bce: false }, ..Default::default() })?;
    let io = InputOutput::new();
    let mut want = String::new();
    let mut some = false;
    for o in outs {
        match o {
            Out::Print(t, how) => {
                some |= t.chars().any(is_control);
                let mut l = Line::new();
                l.add_text(t.as_str());
                match how {
                    0 => io.println(t.as_str()),
                    1 => io.println(l),
                    2 => io.wrapln(l),
                    3 => liso::println!((t.as_str())),
                    _ => io.println(t.clone()),
                }
                want += &(expanded(t) + "\n");
            }
            Out::Other(t, how) => match how {
                0 => io.status(Some(t.as_str())),
                1 => io.prompt(t.as_str(), true, false),
                2 => io.notice(t.as_str(), LONG),
                _ => io.echoln(t.as_str()),
            },
        }
    }
    sess.sync()?;
    drop(io);
    sess.sync_dead()?;
    let out = sess.out();
    if out != want.as_bytes() {
        return Err(format!("the output is {:?}, expected {want:?}", String::from_utf8_lossy(&out)));
    }
    Ok((some, vec!["pipe".into()]))
}
