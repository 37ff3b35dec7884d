//! C29: who reads the keys is up to LISO_CROSSTERM_INPUT: crossterm (as always
//! on Windows), or Liso itself.
use super::life::{life, SCase, Shutdown};
use super::term::*;
use crate::engine::{Prop, Tier, Verdict};
use crate::pty;
use crate::tty::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

const PARTIAL: &[&[u8]] = &[b"", b"\xe4", b"\xe4\xb8", b"\xf0\x9f\x98", b"\x1b[", b"\x1b[1;", b"\xc3"];
const OFF: &[&str] = &["0", "n", "N", "no", "No", "NO", "f", "F", "false", "False", "FALSE", "never"];
const ODD: &[&str] = &["", " 1", "01", "2", "11", "on", "off", "-1", "?", "é", "1 "];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct XCase {
    pub value: Option<String>,
    pub case: TtyCase,
    /// another session afterwards
    pub again: Vec<Op>,
    /// instead, a shutdown or hangup as for C18
    #[serde(default)]
    pub life: Option<SCase>,
    /// the beginning of a character or sequence, typed just before the end
    #[serde(default)]
    pub partial: u8,
    /// instead, this many letters available at once, and Return after a while
    #[serde(default)]
    pub flood: Option<u16>,
}
pub struct CrossInput;

/// crossterm 0.27 takes at most this many bytes for each readiness event, and
/// asks for edge-triggered ones
const CROSSTERM_READ: usize = 1024;
/// As it's in known-findings.txt
const STALL: &str = "known:more than 1024 bytes available at once to the crossterm reader: the rest is not acted upon until another key is typed";

/// Letters that all arrive at once, as when pasting without bracketed paste
fn flood(n: usize, on: bool) -> Result<(bool, Vec<String>), String> {
    let case = TtyCase { w: 80, h: 24, bce: false, term: "xterm-256color".into(), via: 0, ops: vec![], end: 0 };
    let mut d = session(&case)?;
    d.sess.sync()?;
    let keys: Vec<Key> = (0..n).map(|i| Key::Ch(char::from(b'a' + (i % 26) as u8))).collect();
    let bytes: Vec<u8> = keys.iter().flat_map(|k| k.bytes()).collect();
    for k in &keys {
        d.m.key(k);
        d.note_height();
    }
    d.sess.type_burst(&bytes)?;
    let mut labels = vec!["flood".to_string(), if on { "crossterm" } else { "own" }.into()];
    if d.sess.input_left(std::time::Duration::from_millis(1500)) {
        if !on || n <= CROSSTERM_READ {
            return Err(format!("{n} letters arrived at once, and not all of them were read within 1.5 s"));
        }
        labels.push(STALL.into());
    } else {
        d.check("letters that arrived at once")?;
    }
    // the rest is read together with the next key
    d.m.key(&Key::Enter);
    d.sess.type_bytes(&Key::Enter.bytes())?;
    d.check("Return after letters that arrived at once")?;
    d.finish(0)?;
    Ok((true, labels))
}

/// A paste, and what's in it, up to the first key that can't be
const PASTE: &str = "[200~";
/// Sequences which crossterm doesn't report as a key being pressed
const SILENT: &[&str] = &["[I", "[97;1:3u", "[3;1:3~", "[1;1:3A", "[?1;2c"];
fn clear(k: &Key) -> bool {
    match k {
        Key::Unknown(s) => s == PASTE || SILENT.contains(&s.as_str()),
        _ => true,
    }
}
fn pastable(k: &Key) -> bool {
    matches!(k, Key::Ch(_) | Key::Enter | Key::Newline | Key::Ctl(1 | 2 | 5 | 6 | 11 | 21 | 23 | 25))
}
/// What's typed is to have the same effect whoever reads it
fn keys(k: &[Key]) -> Vec<Key> {
    let mut out: Vec<Key> = vec![];
    let mut open = false;
    let end = Key::Unknown("[201~".into());
    for k in k.iter().filter(|k| clear(k)) {
        if open && !pastable(k) {
            out.push(end.clone());
            open = false;
        }
        if *k == Key::Unknown(PASTE.into()) {
            open = true;
        }
        out.push(k.clone());
    }
    if open {
        out.push(end);
    }
    out
}
fn adapt(o: &Op) -> Op {
    match o {
        Op::Keys(k) => Op::Keys(keys(k)),
        Op::Hold(o) => Op::Hold(o.iter().map(adapt).collect()),
        o => o.clone(),
    }
}
fn adapt_life(l: &SCase) -> SCase {
    let mut l = l.clone();
    let fix = |o: &mut Vec<Op>| *o = o.iter().map(adapt).collect();
    match &mut l {
        SCase::Tty { base, .. } => fix(&mut base.ops),
        _ => (),
    }
    l
}
impl Prop for CrossInput {
    type Case = XCase;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "at least two comparisons and two kinds of operation, keys among them"
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<XCase> {
        let mix = Mix {
            print: 2,
            status: 1,
            prompt: 2,
            notice: 2,
            keys: 14,
            suspend: 1,
            stop: 1,
            swap: 1,
            comp: 2,
            hold: 1,
            resize: 1,
            kmix: KMix { text: 10, edit: 8, resp: 5, hist: 5, tab: 3, clear: 1, odd: 1 },
            kmax: 14,
            ..NOTHING
        };
        let again = Mix { print: 3, prompt: 2, keys: 3, ..NOTHING };
        let some = |v: &[&str]| select(s(v)).prop_map(Some);
        (
            prop_oneof![12 => some(CROSSTERM_INPUT_ON), 2 => some(OFF), 2 => some(ODD), 1 => Just(None)],
            tty_case(mix, 8),
            prop_oneof![4 => Just(vec![]), 1 => ops(again, 12, 4)],
            prop_oneof![6 => Just(0u8), 1 => 1u8..PARTIAL.len() as u8],
            prop_oneof![6 => Just(None), 1 => Shutdown.strategy(t).prop_map(Some)],
            prop_oneof![300 => Just(None), 2 => (1u16..1700).prop_map(Some)],
        )
            .prop_map(|(value, case, again, partial, life, flood)| XCase { value, case, again, life, partial, flood })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(5000, 120000)
    }
    fn valid(&self, c: &XCase) -> bool {
        valid_ops(&c.case.ops) && valid_ops(&c.again) && c.life.as_ref().map_or(true, |l| Shutdown.valid(l)) && c.value.as_ref().map_or(true, |v| [CROSSTERM_INPUT_ON, OFF, ODD].concat().contains(&v.as_str()))
    }
    fn fixed(&self, _t: Tier) -> Vec<XCase> {
        let case = TtyCase { w: 80, h: 24, bce: false, term: "xterm".into(), via: 0, ops: vec![], end: 0 };
        let f = |v: &str, n| XCase { value: Some(v.into()), case: case.clone(), again: vec![], life: None, partial: 0, flood: Some(n) };
        vec![f("1", 1600), f("0", 1600), f("1", 900)]
    }
    fn exec(&self, c: &XCase) -> Verdict {
        pty::run_child("C29", c)
    }
    fn child(&self, c: &XCase) -> Result<(bool, Vec<String>), String> {
        match &c.value {
            Some(v) => std::env::set_var("LISO_CROSSTERM_INPUT", v),
            None => std::env::remove_var("LISO_CROSSTERM_INPUT"),
        }
        let v = c.value.as_deref().unwrap_or("0");
        let on = CROSSTERM_INPUT_ON.contains(&v);
        if let Some(n) = c.flood {
            return flood(n.min(1700) as usize, on);
        }
        let list = |o: &[Op]| -> Vec<Op> { o.iter().map(|o| if on { adapt(o) } else { o.clone() }).collect() };
        // (crossterm 0.27 never notices a hangup)
        if let Some(l) = c.life.as_ref().filter(|l| !(on && matches!(l, SCase::Hangup { pipe: false, .. }))) {
            let (nt, mut labels) = life(&if on { adapt_life(l) } else { l.clone() })?;
            labels.push("life".into());
            labels.push(if on { "crossterm" } else { "own" }.into());
            return Ok((nt, labels));
        }
        let mut case = c.case.clone();
        case.ops = list(&case.ops);
        let mut d = session(&case)?;
        if pty::stderr_text().contains("LISO_CROSSTERM_INPUT") != ODD.contains(&v) {
            return Err(format!("LISO_CROSSTERM_INPUT={v:?} was {}reported as unrecognized", if ODD.contains(&v) { "not " } else { "" }));
        }
        let part = PARTIAL.get(c.partial as usize).copied().unwrap_or(b"");
        if !part.is_empty() && c.again.is_empty() {
            d.sess.sync()?;
            d.sess.type_bytes(part)?;
            d.labels.insert("partial");
        }
        let mut d = d.finish(case.end)?;
        if !c.again.is_empty() {
            d.restart()?;
            for op in list(&c.again) {
                d.op(&op)?;
            }
            d.check("the last operation of the second session")?;
            d = d.finish((case.end + 1) % 3)?;
            d.labels.insert("reused");
        }
        d.labels.insert(if on { "crossterm" } else { "own" });
        Ok(summary(d))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Control-@, Control-H, and Control-4 to 7 (which include Control-\\), which crossterm can't tell from other keys or reports as such, and sequences other than the documented keys' aren't typed where it reads the keys; a lone Escape is followed by a pause".into(), "where crossterm reads the keys, no more than about 900 bytes are typed before they have been read, except for the cases that show the known finding".into()]
    }
}
