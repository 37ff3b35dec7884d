//! Input decoding (C11), pipe mode (C16, C17), and bells (C26).
use super::term::*;
use crate::emu::Kind;
use crate::engine::{Prop, Tier, Verdict};
use crate::lm::*;
use crate::pipe::*;
use crate::pty::{self, *};
use crate::tty::*;
use liso::InputOutput;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::time::Duration;

// ========================================================== C11 input decoding

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DCase {
    /// well-formed keys, in chunks of these sizes
    Exact(Vec<Key>, Vec<u8>, bool),
    /// malformed UTF-8, each fragment followed by a proper character
    Utf8(Vec<(Vec<u8>, char)>, Vec<u8>),
    /// anything at all, chunked in several ways
    Raw(Vec<u8>, Vec<Vec<u8>>),
    /// keys whose escape character arrives slightly before the rest
    Split(Vec<Key>),
}
pub struct Decoding;
fn cuts() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => Just(vec![1u8]),
        4 => proptest::collection::vec(1u8..12, 1..8),
        1 => Just(vec![200u8]),
    ]
    .boxed()
}
fn any_scalar() -> BoxedStrategy<char> {
    prop_oneof![
        4 => solid_char(),
        3 => proptest::char::range('\u{a1}', '\u{2ff}'),
        2 => proptest::char::range('\u{4e00}', '\u{9fa0}'),
        2 => proptest::char::range('\u{1f300}', '\u{1f64f}'),
        1 => proptest::char::range('\u{20000}', '\u{2fffd}'),
        1 => select(vec!['\u{a0}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fffe}', '\u{c0}', '\u{ff}', '\u{100}', '\u{fff}', '\u{1000}']),
    ]
    .prop_filter("a replacement character proves nothing", |c| *c != '\u{fffd}' && !c.is_control())
    .boxed()
}
fn bad_fragment() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => proptest::collection::vec(0x80u8..0xc0, 1..4),
        2 => (0xc2u8..0xe0).prop_map(|a| vec![a]),
        3 => (0xe1u8..0xed, proptest::option::of(0x80u8..0xc0)).prop_map(|(a, b)| std::iter::once(a).chain(b).collect()),
        3 => (0xf1u8..0xf4, proptest::collection::vec(0x80u8..0xc0, 0..3)).prop_map(|(a, b)| std::iter::once(a).chain(b).collect()),
        1 => select(vec![
            vec![0xc0u8, 0x80], vec![0xc1, 0xbf], vec![0xe0, 0x80, 0x80], vec![0xe0, 0x9f, 0xbf], vec![0xf0, 0x80, 0x80, 0x80], vec![0xf0, 0x8f, 0xbf, 0xbf],
            vec![0xed, 0xa0, 0x80], vec![0xed, 0xbf, 0xbf], vec![0xf4, 0x90, 0x80, 0x80], vec![0xf5, 0x80, 0x80, 0x80], vec![0xf7, 0xbf, 0xbf, 0xbf],
            vec![0xf8, 0x88, 0x80, 0x80, 0x80], vec![0xfc, 0x84, 0x80, 0x80, 0x80, 0x80], vec![0xfe], vec![0xff], vec![0xff, 0xff, 0xff], vec![0xfe, 0x80], vec![0xc0], vec![0xe0], vec![0xf0], vec![0xf4], vec![0xed], vec![0xe0, 0xa0], vec![0xf0, 0x9f, 0x98],
        ]),
    ]
    .boxed()
}
fn raw_bytes() -> BoxedStrategy<Vec<u8>> {
    let frag = prop_oneof![
        4 => any::<u8>().prop_map(|b| vec![b]),
        3 => (0x20u8..0x7f).prop_map(|b| vec![b]),
        2 => (0u8..0x20).prop_map(|b| vec![b]),
        3 => bad_fragment(),
        2 => any_scalar().prop_map(|c| c.to_string().into_bytes()),
        2 => Just(b"\x1b".to_vec()),
        2 => Just(b"\x1b[".to_vec()),
        3 => (prop_oneof![8 => proptest::collection::vec(0x20u8..0x40, 0..5), 1 => proptest::collection::vec(0x20u8..0x40, 5..400)], any::<u8>()).prop_map(|(p, f)| {
            let mut v = b"\x1b[".to_vec();
            v.extend(p);
            v.push(f);
            v
        }),
        2 => any::<u8>().prop_map(|b| vec![0x1b, b]),
        2 => select(vec![Key::Up, Key::Down, Key::Left, Key::Right, Key::Home, Key::End, Key::Delete, Key::Del7f]).prop_map(|k| k.bytes()),
        1 => Just(b"\r".to_vec()),
    ];
    proptest::collection::vec(frag, 1..24)
        .prop_map(|v| v.concat().into_iter().filter(|b| *b != 26).collect())
        .boxed()
}
impl Prop for Decoding {
    type Case = DCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "at least three bytes were decoded in at least two chunks, or malformed bytes were"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<DCase> {
        let key = prop_oneof![
            6 => any_scalar().prop_map(Key::Ch),
            4 => text_key(),
            8 => edit_key(),
            3 => resp_key(),
            2 => hist_key(),
            6 => odd_key(),
            3 => (prop_oneof![4 => proptest::collection::vec(0x20u8..0x40, 0..6), 2 => proptest::collection::vec(0x30u8..0x3c, 6..60), 1 => proptest::collection::vec(0x30u8..0x3c, 60..700)], 0x40u8..0x7f).prop_map(|(p, f)| {
                let mut s = "[".to_string();
                s.extend(p.iter().map(|b| *b as char));
                s.push(if b"~ABCDHF".contains(&f) { 'c' } else { f as char });
                Key::Unknown(s)
            }),
            1 => (0x20u8..0x7f).prop_filter("[", |b| *b != b'[').prop_map(|b| Key::Unknown((b as char).to_string())),
        ];
        let split = select(vec![Key::Left, Key::Right, Key::Home, Key::End, Key::Delete, Key::Up, Key::Down, Key::Unknown("[5~".into()), Key::Unknown("b".into())]);
        prop_oneof![
            8 => (proptest::collection::vec(key, 1..40), cuts(), any::<bool>()).prop_map(|(k, c, s)| DCase::Exact(k, c, s)),
            5 => (proptest::collection::vec((bad_fragment(), any_scalar()), 1..8), cuts()).prop_map(|(f, c)| DCase::Utf8(f, c)),
            5 => (raw_bytes(), proptest::collection::vec(cuts(), 2..3)).prop_map(|(b, mut c)| {
                c.insert(0, vec![200]);
                DCase::Raw(b, c)
            }),
            1 => proptest::collection::vec(split, 1..6).prop_map(DCase::Split),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(12000, 200000)
    }
    fn valid(&self, c: &DCase) -> bool {
        match c {
            DCase::Exact(k, cuts, _) => !cuts.is_empty() && !cuts.contains(&0) && k.iter().all(|k| match k {
                Key::Unknown(s) => unknown_ok(s),
                _ => true,
            }),
            DCase::Utf8(f, cuts) => {
                !cuts.is_empty()
                    && !cuts.contains(&0)
                    && f.iter().all(|(b, c)| !b.is_empty() && !c.is_control() && *c != '\u{fffd}' && std::str::from_utf8(b).is_err() && !contains_valid(b))
            }
            DCase::Raw(b, cuts) => !b.contains(&26) && cuts.len() >= 2 && cuts.iter().all(|c| !c.is_empty() && !c.contains(&0)),
            DCase::Split(k) => k.iter().all(|k| match k {
                Key::Unknown(s) => unknown_ok(s),
                Key::Ch(_) | Key::Ctl(_) | Key::Enter | Key::Newline | Key::Del7f | Key::Esc | Key::Dead(_) => false,
                _ => true,
            }),
        }
    }
    fn exec(&self, c: &DCase) -> Verdict {
        pty::run_child("C11", c)
    }
    fn child(&self, c: &DCase) -> Result<(bool, Vec<String>), String> {
        match c {
            DCase::Exact(k, cuts, sync) => exact(k, cuts, *sync),
            DCase::Utf8(f, cuts) => utf8(f, cuts),
            DCase::Raw(b, cuts) => raw(b, cuts),
            DCase::Split(k) => split(k),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = tty_assumptions();
        v.push("Bytes written to the terminal together (at most 200) are received without a pause between them".into());
        v
    }
}
fn contains_valid(b: &[u8]) -> bool {
    String::from_utf8_lossy(b).chars().any(|c| c != '\u{fffd}')
}
/// a sequence which has no meaning to us
fn unknown_ok(s: &str) -> bool {
    if UNKNOWN.contains(&s) {
        return true;
    }
    let b = s.as_bytes();
    if b.is_empty() || s == "[" {
        return false;
    }
    if b.len() == 1 {
        return (0x20..0x7f).contains(&b[0]) && b[0] != b'[';
    }
    let n = b.len();
    b[0] == b'['
        && b[1..n - 1].iter().all(|b| (0x20..0x40).contains(b))
        && (0x40..0x7f).contains(&b[n - 1])
        && !["[A", "[B", "[C", "[D", "[3~", "[H", "[F"].contains(&s)
        // meaningful to some, so unspecified: modified or application forms of those keys
        && !(b[n - 1] == b'~' || b"ABCDHF".contains(&b[n - 1]))
}
/// Pieces of the given sizes, never ending in an escape character unless that's the end.
fn pieces(data: &[u8], cuts: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    for c in cuts.iter().cycle() {
        if i >= data.len() {
            break;
        }
        let mut e = (i + (*c).max(1) as usize).min(data.len());
        while e < data.len() && data[e - 1] == 0x1b {
            e += 1;
        }
        v.push(data[i..e].to_vec());
        i = e;
    }
    v
}
fn exact(ks: &[Key], cuts: &[u8], each: bool) -> Result<(bool, Vec<String>), String> {
    let mut d = Driver::new(SessCfg { w: 80, h: 30, ..Default::default() }, 0)?;
    // keep to what is specified elsewhere
    let mut data = vec![];
    let mut n = 0;
    let mut prev_zw_ok = true;
    let _ = &mut prev_zw_ok;
    for (i, k) in ks.iter().enumerate() {
        if matches!(k, Key::Ctl(12) | Key::Ctl(26) | Key::Ctl(9)) || !d.key_ok(k, false) {
            continue;
        }
        if *k == Key::Esc {
            // only where the next byte settles that it is an Escape
            match ks.get(i + 1) {
                Some(Key::Ctl(12) | Key::Ctl(26) | Key::Ctl(9)) | None => continue,
                Some(n) => {
                    let mut m = d.m.clone();
                    m.key(k);
                    if (0x20..0x7f).contains(&n.bytes()[0]) {
                        continue;
                    }
                    let saved = std::mem::replace(&mut d.m, m);
                    let ok = d.key_ok(n, false);
                    d.m = saved;
                    if !ok || *n == Key::Esc {
                        continue;
                    }
                }
            }
        }
        if !each && data.len() + k.bytes().len() > 200 {
            break;
        }
        d.m.key(k);
        data.extend(k.bytes());
        n += 1;
        if !each && data.len() > 180 {
            break;
        }
    }
    step(format!("typing {data:02x?}").chars().take(400).collect::<String>());
    let p = pieces(&data, cuts);
    let np = p.len();
    for p in p {
        d.sess.type_bytes(&p)?;
        if each {
            d.sess.sync()?;
        }
    }
    d.check("typing keys in chunks")?;
    d.finish(0)?;
    Ok((n >= 3 && np >= 2, vec!["exact".into()]))
}
fn utf8(f: &[(Vec<u8>, char)], cuts: &[u8]) -> Result<(bool, Vec<String>), String> {
    let mut d = Driver::new(SessCfg { w: 80, h: 30, ..Default::default() }, 0)?;
    d.screen = false;
    d.strict_history = false;
    let mut data = vec![];
    for (b, c) in f {
        data.extend(b);
        data.extend(c.to_string().bytes());
    }
    data.push(7);
    step(format!("typing {data:02x?}").chars().take(400).collect::<String>());
    for p in pieces(&data, cuts) {
        d.sess.type_bytes(&p)?;
        d.sess.sync()?;
    }
    d.collect()?;
    let got = std::mem::take(&mut d.got);
    let s = match &got[..] {
        [Resp::Discarded(s)] => s.clone(),
        x => return Err(format!("typing {data:02x?}: responses are {x:?}, expected one discarded line")),
    };
    let mut rest = &s[..];
    for (b, c) in f {
        let mut n = 0;
        while let Some(r) = rest.strip_prefix('\u{fffd}') {
            rest = r;
            n += 1;
        }
        if n == 0 || n > b.len() {
            return Err(format!("typing {data:02x?}: the invalid bytes {b:02x?} became {n} replacement characters in {s:?}"));
        }
        match rest.strip_prefix(*c) {
            Some(r) => rest = r,
            None => return Err(format!("typing {data:02x?}: the character {c:?} after the invalid bytes {b:02x?} is missing from {s:?}")),
        }
    }
    if !rest.is_empty() {
        return Err(format!("typing {data:02x?}: unexpected {rest:?} at the end of {s:?}"));
    }
    d.m.resp.clear();
    later(&mut d.sess, d.io.as_mut().unwrap(), "after malformed UTF-8")?;
    d.finish(0)?;
    Ok((true, vec!["malformed-utf8".into()]))
}
/// Does ordinary input (still) work?
fn later(sess: &mut Session, io: &mut InputOutput, what: &str) -> Result<(), String> {
    sess.type_bytes("later ünd 世\r".as_bytes())?;
    sess.sync()?;
    match io.try_read().map(resp_of) {
        Some(Ok(Resp::Input(s))) if s == "later ünd 世" => Ok(()),
        x => Err(format!("{what}, typing a line gave {x:?}")),
    }
}
fn raw(b: &[u8], cuts: &[Vec<u8>]) -> Result<(bool, Vec<String>), String> {
    let mut sess = Session::new(SessCfg { w: 80, h: 60, ..Default::default() })?;
    let mut first: Option<Vec<Resp>> = None;
    let mut data = b.to_vec();
    data.extend(b"zz\x07");
    for c in cuts {
        step(format!("typing {data:02x?} in chunks of {c:?}").chars().take(600).collect::<String>());
        let mut io = InputOutput::new();
        sess.sync()?;
        for p in pieces(&data, c) {
            sess.type_bytes(&p)?;
            sess.sync()?;
        }
        let mut got = vec![];
        while let Some(r) = io.try_read() {
            let r = resp_of(r)?;
            if r == Resp::Dead {
                return Err(format!("typing {data:02x?} killed Liso"));
            }
            got.push(r);
        }
        if !matches!(got.last(), Some(Resp::Discarded(_))) {
            return Err(format!("typing {data:02x?}: no response to the final Control-G, but {got:?}"));
        }
        later(&mut sess, &mut io, &format!("after {data:02x?}"))?;
        drop(io);
        sess.sync()?;
        match &first {
            None => first = Some(got),
            Some(f) => {
                if *f != got {
                    return Err(format!("typing {data:02x?} in chunks of {c:?} gave {got:?}, but in chunks of {:?} it gave {f:?}", cuts[0]));
                }
            }
        }
    }
    Ok((b.len() >= 3, vec!["raw".into()]))
}
fn split(ks: &[Key]) -> Result<(bool, Vec<String>), String> {
    let mut d = Driver::new(SessCfg { w: 80, h: 30, ..Default::default() }, 0)?;
    for c in "some text".chars() {
        d.m.key(&Key::Ch(c));
        d.type_key(&Key::Ch(c), None, false)?;
    }
    d.check("typing some text")?;
    for k in ks {
        if !d.key_ok(k, false) {
            continue;
        }
        let mut joined = false;
        for _ in 0..6 {
            step(format!("typing {k:?} in two pieces"));
            let b = k.bytes();
            d.sess.type_bytes(&b[..1])?;
            std::thread::sleep(Duration::from_millis(2));
            d.sess.type_bytes(&b[1..])?;
            d.sess.sync()?;
            d.collect()?;
            if d.got.is_empty() {
                d.m.key(k);
                joined = true;
                break;
            }
            // so much time passed that it was an Escape
            d.m.key(&Key::Esc);
            for c in &b[1..] {
                d.m.key(&Key::Ch(*c as char));
            }
            d.check("typing an escape sequence with an (involuntary) pause in it")?;
        }
        if !joined {
            return Err(format!("SUSPECT:{k:?} was taken for the Escape key, although it was typed without any long pause in it"));
        }
        d.check("typing an escape sequence in two pieces")?;
    }
    d.finish(0)?;
    Ok((true, vec!["split".into()]))
}

// ============================================================ C16 pipe mode

pub struct Pipe;
fn input_line(tty: bool) -> BoxedStrategy<Vec<u8>> {
    let tty_char = prop_oneof![6 => solid_char(), 2 => Just(' '), 1 => Just('\t'), 1 => proptest::char::range('\u{a1}', '\u{2ff}')];
    let plain = proptest::collection::vec(tty_char, 0..20).prop_map(|v| v.into_iter().collect::<String>().into_bytes());
    if tty {
        plain.boxed()
    } else {
        prop_oneof![
            4 => plain,
            1 => Just(vec![]),
            2 => proptest::collection::vec(any::<u8>(), 0..12),
            1 => proptest::collection::vec(prop_oneof![any_scalar(), ctl_char()], 0..12).prop_map(|v| v.into_iter().collect::<String>().into_bytes()),
            1 => prop_oneof![30 => 500usize..9000, 1 => 9000usize..150000].prop_map(|n| (0..n).map(|i| b'a' + (i % 26) as u8).collect::<Vec<u8>>()),
            1 => select(vec![b" lead".to_vec(), b"trail ".to_vec(), b"a\rb".to_vec(), b"\x1b[A".to_vec(), b"\x03".to_vec(), b"\x04".to_vec(), b"\x00".to_vec(), b"\xef\xbb\xbfx".to_vec(), b"tab\t".to_vec(), b"x\x0b".to_vec(), b"x\x0c".to_vec()]),
        ]
        .prop_map(|v| {
            let mut v: Vec<u8> = v.into_iter().filter(|b| *b != b'\n').collect();
            while v.last() == Some(&b'\r') {
                v.pop();
            }
            v
        })
        .boxed()
    }
}
pub fn pops(tty: bool, max: usize) -> BoxedStrategy<Vec<POp>> {
    let line = out_line(5, 12);
    let v: Vec<(u32, BoxedStrategy<POp>)> = vec![
        (12, line.clone().prop_map(POp::Println).boxed()),
        (4, text_of(prop_oneof![20 => vis_char(), 2 => ctl_char(), 1 => Just('\n')].boxed(), 20).prop_map(POp::PrintStr).boxed()),
        (2, (proptest::collection::vec((any::<u16>(), any::<bool>()), 1..5)).prop_map(|v| {
            // long rows
            let mut s = String::new();
            for (n, dash) in v {
                s.extend((0..n as usize % 5000).map(|i| if dash && i % 7 == 0 { 'é' } else { (b'a' + (i % 26) as u8) as char }));
                s.push('\n');
            }
            s.pop();
            POp::PrintStr(s)
        }).boxed()),
        (6, lspec(out_char(), 5, 40, true).prop_map(POp::Wrapln).boxed()),
        (2, line.clone().prop_map(POp::Echo).boxed()),
        (2, proptest::option::of(line.clone()).prop_map(POp::Status).boxed()),
        (2, line.clone().prop_map(POp::Notice).boxed()),
        (4, (line, any::<bool>(), any::<bool>()).prop_map(|(a, b, c)| POp::Prompt(a, b, c)).boxed()),
        (2, Just(POp::Bell).boxed()),
        (4, any::<u32>().prop_map(POp::Custom).boxed()),
        (12, (proptest::collection::vec((input_line(tty), any::<bool>()), 1..6), cuts()).prop_map(|(l, c)| POp::Lines(l, c)).boxed()),
        // many at once
        (1, (proptest::collection::vec((select(vec!["", "a", "b c", "世"]), any::<bool>()), 1..6), 20..if tty { 200usize } else { 700 }, cuts()).prop_map(|(l, n, c)| POp::Lines(l.into_iter().cycle().take(n).map(|(a, b)| (a.as_bytes().to_vec(), b)).collect(), c)).boxed()),
        (2, text_of(solid_char(), 6).prop_map(POp::Suspend).boxed()),
        (2, Just(POp::Eof).boxed()),
        (4, Just(POp::Check).boxed()),
    ];
    proptest::collection::vec(proptest::strategy::Union::new_weighted(v), 1..=max).boxed()
}
pub fn pcase(max: usize) -> BoxedStrategy<PCase> {
    (
        prop_oneof![
            4 => Just((Fd::Pipe, Fd::Pipe)),
            2 => Just((Fd::Pipe, Fd::Tty)),
            2 => Just((Fd::Tty, Fd::Pipe)),
            2 => Just((Fd::Tty, Fd::Tty)),
        ],
        prop_oneof![3 => select(vec![Some("xterm"), Some("vt52"), None, Some("")]), 1 => select(vec![Some("dumb"), Some("pipe")])],
        select(vec!["dumb", "pipe"]),
        0u8..3,
        proptest::option::of(input_line(false)),
        0u8..3,
    )
        .prop_flat_map(move |((stdin, stdout), term, dumb, via, eof, end)| {
            let term = if (stdin, stdout) == (Fd::Tty, Fd::Tty) { Some(dumb) } else { term };
            pops(stdin == Fd::Tty, max).prop_map(move |ops| PCase { stdin, stdout, term: term.map(|s| s.to_string()), via, ops, eof: eof.clone(), end })
        })
        .boxed()
}
impl Prop for Pipe {
    type Case = PCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "something was printed or read, and at least three operations were performed"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<PCase> {
        pcase(14)
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(20000, 320000)
    }
    fn valid(&self, c: &PCase) -> bool {
        let line_ok = |b: &[u8]| {
            !b.contains(&b'\n')
                && b.last() != Some(&b'\r')
                && (c.stdin != Fd::Tty || (b.len() < 200 && std::str::from_utf8(b).map(|s| !s.chars().any(|c| c.is_control() && c != '\t')).unwrap_or(false)))
        };
        let pipe = c.stdin != Fd::Tty || c.stdout != Fd::Tty || matches!(c.term.as_deref(), Some("dumb" | "pipe"));
        pipe && c.ops.iter().all(|o| match o {
            POp::Lines(l, cuts) => !cuts.is_empty() && !cuts.contains(&0) && l.iter().all(|(b, _)| line_ok(b)),
            _ => true,
        })
    }
    fn exec(&self, c: &PCase) -> Verdict {
        pty::run_child("C16", c)
    }
    fn child(&self, c: &PCase) -> Result<(bool, Vec<String>), String> {
        run_pipe(c)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Input lines don't end with a carriage return of their own (how many trailing carriage returns belong to a line ending is not specified)".into()]
    }
}
// ==================================================== C17 choice of pipe mode

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ModeCase {
    pub stdin: Fd,
    pub stdout: Fd,
    pub stderr_tty: bool,
    pub term: Option<String>,
    pub flip: u32,
}
pub struct Mode;
const TERMS: &[&str] = &[
    "", "dumb", "pipe", "xterm", "Dumb", "DUMB", "dumb-color", "dumb ", " dumb", "pipes", "pipe-256", "Pipe", "dum", "pip", "vt52", "atari-m", "tw52", "xterm-256color", "linux", "vt100", "unknown", "ansi", "screen.dumb", "none",
];
impl Prop for Mode {
    type Case = ModeCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "output was performed and input was typed in the mode expected (every case)"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<ModeCase> {
        let fd = prop_oneof![6 => Just(Fd::Tty), 1 => Just(Fd::Pipe), 1 => Just(Fd::Null)];
        let term = prop_oneof![
            1 => Just(None),
            4 => select(TERMS.to_vec()).prop_map(|s| Some(s.to_string())),
            2 => "[a-z0-9_+.-]{0,12}".prop_map(Some),
            2 => ("[a-z-]{0,3}", select(vec!["dumb", "pipe"]), "[a-z0-9 -]{0,3}").prop_map(|(a, b, c)| Some(format!("{a}{b}{c}"))),
        ];
        (fd.clone(), fd, any::<bool>(), term, select(vec![0, ECHO_OFF, libc::ISIG as u32, libc::IEXTEN as u32]))
            .prop_map(|(stdin, stdout, stderr_tty, term, flip)| ModeCase { stdin, stdout, stderr_tty, term, flip })
            .boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<ModeCase> {
        let mut v = vec![];
        for stdin in [Fd::Tty, Fd::Pipe, Fd::Null] {
            for stdout in [Fd::Tty, Fd::Pipe, Fd::Null] {
                for stderr_tty in [false, true] {
                    for term in std::iter::once(None).chain(TERMS.iter().map(|s| Some(s.to_string()))) {
                        v.push(ModeCase { stdin, stdout, stderr_tty, term, flip: 0 });
                    }
                }
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(6000, 60000)
    }
    fn exec(&self, c: &ModeCase) -> Verdict {
        pty::run_child("C17", c)
    }
    fn valid(&self, c: &ModeCase) -> bool {
        !c.term.as_ref().map(|t| t.contains('\0')).unwrap_or(false)
    }
    fn child(&self, c: &ModeCase) -> Result<(bool, Vec<String>), String> {
        mode(c)
    }
}
fn mode(c: &ModeCase) -> Result<(bool, Vec<String>), String> {
    let pipe = c.stdin != Fd::Tty || c.stdout != Fd::Tty || matches!(c.term.as_deref(), Some("dumb" | "pipe"));
    let vt = vt_for(c.term.as_deref().unwrap_or(""), 40, 20, false);
    let mut sess = Session::new(SessCfg {
        w: 40,
        h: 20,
        term: c.term.clone(),
        stdin: c.stdin,
        stdout: c.stdout,
        stderr_tty: c.stderr_tty,
        kind: if vt.is_some() { Kind::Vt52 } else { Kind::Ansi { bce: false } },
        lflag_flip: c.flip,
        no_size: false,
    })?;
    step(format!("{c:?}"));
    let mut io = InputOutput::new();
    sess.sync()?;
    io.status(Some("the status"));
    io.prompt("the prompt> ", true, false);
    io.println(liso::liso!(fg = red, bold, "Hello", reset, " there"));
    io.bell();
    sess.sync()?;
    let raw = sess.emu().raw;
    let text = String::from_utf8_lossy(&raw).to_string();
    let shown = || format!("{:?}", text.chars().take(200).collect::<String>());
    let mut all: Vec<u8> = vec![];
    // a hint about a strange Atari configuration is printed on stderr
    let warned = c.stderr_tty && text.contains("Assuming monochrome");
    if pipe {
        if !termios_eq(&sess.termios(), &sess.orig) {
            return Err(format!("pipe mode was expected, but the terminal's settings were changed ({c:?})"));
        }
        match c.stdout {
            Fd::Tty => {
                if text != "Hello there\r\n" {
                    return Err(format!("pipe mode was expected, but {} was written ({c:?})", shown()));
                }
            }
            Fd::Pipe => {
                if sess.out() != b"Hello there\n" {
                    return Err(format!("pipe mode was expected, but {:?} was written ({c:?})", String::from_utf8_lossy(&sess.out())));
                }
            }
            Fd::Null => (),
        }
        if c.stdout != Fd::Tty && !raw.is_empty() {
            return Err(format!("pipe mode was expected, but {} was written to the terminal ({c:?})", shown()));
        }
    } else {
        if !termios_is_raw(&sess.termios()) {
            return Err(format!("interactive mode was expected, but the terminal was not put in raw mode ({c:?})"));
        }
        if !text.contains("the status") || !text.contains("the prompt> ") || !text.contains('\x1b') {
            return Err(format!("interactive mode was expected, but only {} was written ({c:?})", shown()));
        }
        if !warned {
            let e = sess.emu();
            let rows: Vec<String> = e.rows.iter().map(|r| crate::emu::Emu::row_text(r).trim_end().to_string()).collect();
            if rows[..4] != ["Hello there", "the status", "the prompt>", ""] {
                return Err(format!("interactive mode was expected, but the terminal shows {:?} ({c:?})", &rows[..4]));
            }
        }
    }
    // now some input
    let want = match (pipe, c.stdin) {
        (true, Fd::Null) => vec![Resp::Finish],
        (true, _) => {
            sess.type_bytes(b"x\n")?;
            vec![Resp::Input("x".into())]
        }
        (false, _) => {
            sess.type_bytes(b"x\x14\x15\x02\x14")?;
            vec![Resp::Info, Resp::Info]
        }
    };
    sess.sync()?;
    let mut got = vec![];
    while let Some(r) = io.try_read() {
        got.push(resp_of(r)?);
        if got.len() > 9 {
            break;
        }
    }
    if got != want {
        return Err(format!("responses are {got:?}, expected {want:?} ({c:?})"));
    }
    all.extend(&sess.emu().raw);
    step(format!("shutdown {c:?}"));
    drop(io);
    sess.sync()?;
    let raw = sess.emu().raw;
    if pipe && raw.contains(&0x1b) {
        return Err(format!("an escape sequence was written in pipe mode ({c:?})"));
    }
    if pipe && c.stdout == Fd::Pipe && sess.out().contains(&0x1b) {
        return Err(format!("an escape sequence was written in pipe mode ({c:?})"));
    }
    if !termios_eq(&sess.termios(), &sess.orig) {
        return Err(format!("after shutdown, the terminal does not have its original settings ({c:?})"));
    }
    sess.close_stdin();
    Ok((true, vec![if pipe { "pipe".into() } else { "interactive".into() }]))
}

// ==================================================================== C26 bells

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BellCase {
    /// a session, then a queued batch of bells (false) and printed markers (true)
    Tty(TtyCase, Vec<bool>),
    Pipe(PCase),
}
pub struct Bells;
impl Prop for Bells {
    type Case = BellCase;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "a bell was requested, by the program or by recall, and two comparisons were made"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<BellCase> {
        let mix = Mix {
            print: 2,
            status: 1,
            prompt: 2,
            notice: 1,
            bell: 8,
            swap: 1,
            suspend: 1,
            comp: 1,
            keys: 6,
            hold: 3,
            kmix: KMix { text: 4, edit: 2, resp: 2, hist: 10, tab: 1, clear: 0, odd: 0 },
            kmax: 8,
            ..NOTHING
        };
        let pipe = pcase(10).prop_map(|mut c| {
            c.ops.push(POp::Bell);
            c.ops.insert(0, POp::Bell);
            BellCase::Pipe(c)
        });
        prop_oneof![
            12 => (tty_case(mix, 12), proptest::collection::vec(prop::bool::weighted(0.4), 0..10)).prop_map(|(c, b)| BellCase::Tty(c, b)),
            1 => pipe,
        ]
        .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(12000, 192000)
    }
    fn valid(&self, c: &BellCase) -> bool {
        match c {
            BellCase::Tty(c, _) => valid_ops(&c.ops),
            BellCase::Pipe(c) => Pipe.valid(c),
        }
    }
    fn exec(&self, c: &BellCase) -> Verdict {
        pty::run_child("C26", c)
    }
    fn child(&self, c: &BellCase) -> Result<(bool, Vec<String>), String> {
        match c {
            BellCase::Pipe(c) => run_pipe(c).map(|(a, mut l)| {
                l.push("pipe".into());
                (a, l)
            }),
            BellCase::Tty(c, b) => bells(c, b),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        tty_assumptions()
    }
}
fn bells(c: &TtyCase, order: &[bool]) -> Result<(bool, Vec<String>), String> {
    let vt = vt_for(&c.term, c.w, c.h, false);
    let cfg = SessCfg { w: c.w.max(8), h: c.h, term: Some(c.term.clone()), kind: if vt.is_some() { Kind::Vt52 } else { Kind::Ansi { bce: c.bce } }, ..Default::default() };
    let mut d = Driver::new(cfg, c.via)?;
    d.vt = vt;
    for op in &c.ops {
        let cursor = d.sess.with_emu(|e| (e.cx, e.cy, e.cursor_visible));
        d.op(op)?;
        if *op == Op::Bell {
            // it has been written without waiting for anything else
            d.check("a bell")?;
            let now = d.sess.with_emu(|e| (e.cx, e.cy, e.cursor_visible));
            let _ = (cursor, now);
        }
    }
    d.check("the last operation")?;
    // in order with other output
    let from = d.sess.emu().raw.len();
    let mut ops = vec![];
    let mut want = vec![];
    for (i, b) in order.iter().enumerate() {
        if *b {
            ops.push(Op::PrintStr(format!("<{i}>")));
            want.push(format!("<{i}>"));
        } else {
            ops.push(Op::Bell);
            want.push("bell".to_string());
        }
    }
    if !ops.is_empty() {
        d.op(&Op::Hold(ops))?;
        d.check("output and bells")?;
        let raw = d.sess.emu().raw[from..].to_vec();
        let mut got = vec![];
        let mut i = 0;
        while i < raw.len() {
            if raw[i] == 7 {
                got.push("bell".to_string());
            } else if raw[i] == b'<' {
                // only markers which we printed; prompts etc. may contain this as well
                let e = raw[i..].iter().position(|b| *b == b'>').map(|n| i + n + 1);
                if let Some(e) = e {
                    let t = String::from_utf8_lossy(&raw[i..e]).to_string();
                    if want.contains(&t) && !got.contains(&t) {
                        got.push(t);
                    }
                }
            }
            i += 1;
        }
        if got != want {
            return Err(format!("output and bells came in the order {got:?}, not {want:?}"));
        }
    }
    let rung = d.m.bells;
    let d = d.finish(c.end)?;
    Ok((rung > 0 && d.checks >= 2, d.labels.iter().map(|s| s.to_string()).collect()))
}
