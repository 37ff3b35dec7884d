//! VT52/Atari terminals (C20).
use super::life::{ending, tail_op, tty_end, Ending, Tail};
use super::term::*;
use crate::engine::{Prop, Tier, Verdict};
use crate::pty;
use crate::tty::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct VCase {
    pub base: TtyCase,
    /// ATARI_WHITE_ON_BLACK
    pub wob: Option<String>,
    pub settle: bool,
    pub tail: Vec<Tail>,
    pub end: Ending,
}
const NAMES: &[&str] = &["st52", "tw52", "tt52", "at", "atari", "atarist", "atari_st", "vt52", "stv52", "stv52pc"];
const SUFFIXES: &[&str] = &["", "-m", "-color", "-40", "-m-old", "-old-m"];
const WOB: &[(&str, bool)] = &[
    ("0", false),
    ("1", true),
    ("n", false),
    ("No", false),
    ("f", false),
    ("False", false),
    ("y", true),
    ("Yes", true),
    ("t", true),
    ("TRUE", true),
    ("", false),
    ("on", false),
    ("2", false),
];
pub struct VtTerm;
const MIX: Mix = Mix {
    print: 5,
    wrap: 2,
    echo: 1,
    status: 3,
    prompt: 3,
    notice: 1,
    bell: 1,
    custom: 1,
    keys: 8,
    suspend: 1,
    resize: 0,
    stop: 1,
    swap: 1,
    comp: 1,
    hold: 1,
    kmix: KMix { text: 10, edit: 6, resp: 3, hist: 2, tab: 1, clear: 1, odd: 2 },
    kmax: 10,
};
impl Prop for VtTerm {
    type Case = VCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "the VT52 engine was in use and at least one operation was performed"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<VCase> {
        (
            prop_oneof![4 => (8usize..=40, 12usize..=30), 1 => Just((80, 25)), 2 => Just((40, 25)), 1 => Just((80, 50)), 1 => Just((0, 25))],
            (select(NAMES.to_vec()), select(SUFFIXES.to_vec())).prop_map(|(a, b)| format!("{a}{b}")),
            0u8..3,
            proptest::option::of(select(WOB.iter().map(|x| x.0.to_string()).collect::<Vec<_>>())),
            prop::bool::weighted(0.8),
            prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(tail_op(), 0..8)],
            ending(),
            any::<bool>(),
        )
            .prop_flat_map(|((w, h), term, via, wob, settle, tail, end, none)| {
                let o = if none && !settle { Just(vec![]).boxed() } else { ops(MIX, if w == 0 { 80 } else { w }, 12) };
                o.prop_map(move |ops| VCase {
                    base: TtyCase { w, h, bce: false, term: term.clone(), via, ops, end: 0 },
                    wob: wob.clone(),
                    settle,
                    tail: tail.clone(),
                    end: end.clone(),
                })
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(14000, 230000)
    }
    fn valid(&self, c: &VCase) -> bool {
        let b = &c.base;
        valid_ops(&b.ops) && NAMES.contains(&b.term.split('-').next().unwrap_or("")) && ((b.w >= 8 || b.w == 0) && b.h >= 12) && c.wob.iter().all(|w| WOB.iter().any(|x| x.0 == w))
    }
    fn exec(&self, c: &VCase) -> Verdict {
        pty::run_child("C20", c)
    }
    fn child(&self, c: &VCase) -> Result<(bool, Vec<String>), String> {
        let wob = match &c.wob {
            None => false,
            Some(w) => {
                std::env::set_var("ATARI_WHITE_ON_BLACK", w);
                WOB.iter().any(|x| x.0 == w && x.1)
            }
        };
        let vt = vt_for(&c.base.term, c.base.w, c.base.h, wob).unwrap();
        let (nt, mut labels) = tty_end(&c.base, c.settle, 0, &c.tail, &c.end, Some(vt))?;
        labels.push(format!("{}-colours", vt.colors));
        labels.push(if wob { "white-on-black" } else { "black-on-white" }.into());
        Ok((nt, labels))
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "The terminal is an Atari VT52 emulator with 16 colour registers (as modelled), of constant size, taller than the live area".into(),
            "Escape sequences (two bytes; three beginning with ESC /) are not part of the ASCII input which works as elsewhere: they have no effect".into(),
            "unicode-width's width of each character is its width".into(),
            "The complaint about an unknown screen size or polarity goes to a stderr which isn't the terminal".into(),
        ]
    }
}
