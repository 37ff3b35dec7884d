//! C28: sessions with some of the optional features switched off, run by
//! binaries built that way.
#[cfg(feature = "full")]
use super::{term::*, term3::pcase};
use crate::engine::{Prop, Tier, Verdict};
use crate::pipe::*;
use crate::pty;
use crate::tty::*;
use liso::InputOutput;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The builds, see tools/build.sh
pub const BUILDS: u8 = 4;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FCase {
    Tty {
        build: u8,
        case: TtyCase,
        /// is a second instance attempted (just before the end)?
        second: bool,
        /// another session afterwards
        again: Vec<Op>,
    },
    Pipe {
        build: u8,
        case: PCase,
    },
}
pub struct Features;
impl Prop for Features {
    type Case = FCase;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "as C08 (in a terminal: at least two comparisons and two kinds of operation) or C16 (in pipe mode: something printed or read, and three operations)"
    }
    #[cfg(not(feature = "full"))]
    fn strategy(&self, _t: Tier) -> BoxedStrategy<FCase> {
        unimplemented!()
    }
    #[cfg(feature = "full")]
    fn strategy(&self, _t: Tier) -> BoxedStrategy<FCase> {
        let mix = Mix {
            print: 3,
            wrap: 1,
            echo: 1,
            status: 2,
            prompt: 3,
            notice: 2,
            bell: 1,
            custom: 1,
            keys: 8,
            suspend: 1,
            stop: 0,
            swap: 1,
            comp: 1,
            hold: 1,
            kmix: KMix { text: 10, edit: 6, resp: 4, hist: 4, tab: 2, clear: 1, odd: 1 },
            ..NOTHING
        };
        let again = Mix { print: 3, status: 1, prompt: 2, keys: 3, ..NOTHING };
        prop_oneof![
            5 => (0..BUILDS, tty_case(mix, 10), any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => ops(again, 12, 4)])
                .prop_map(|(build, case, second, again)| FCase::Tty { build, case, second, again }),
            2 => (0..BUILDS, pcase(10)).prop_map(|(build, case)| FCase::Pipe { build, case }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(14000, 230000)
    }
    fn valid(&self, c: &FCase) -> bool {
        #[cfg(feature = "full")]
        return match c {
            FCase::Tty { build, case, again, .. } => *build < BUILDS && valid_ops(&case.ops) && valid_ops(again),
            FCase::Pipe { build, case } => *build < BUILDS && super::term3::Pipe.valid(case),
        };
        #[cfg(not(feature = "full"))]
        {
            let _ = c;
            true
        }
    }
    fn exec(&self, c: &FCase) -> Verdict {
        let (FCase::Tty { build, .. } | FCase::Pipe { build, .. }) = c;
        let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let exe = std::path::PathBuf::from(format!("{root}/target-feat{build}/release/lisoharness"));
        match pty::run_child_of(&exe, "C28", c, 60) {
            Verdict::Pass(nt, mut l) => {
                l.push(format!("build-{build}"));
                Verdict::Pass(nt, l)
            }
            v => v,
        }
    }
    fn child(&self, c: &FCase) -> Result<(bool, Vec<String>), String> {
        match c {
            FCase::Pipe { case, .. } => run_pipe(case).map(|(nt, mut l)| {
                l.push("pipe-mode".into());
                (nt, l)
            }),
            FCase::Tty { case, second, again, .. } => {
                let mut d = session(case)?;
                // (the panic's message would end up in captured standard error)
                if *second && !cfg!(feature = "capture") {
                    pty::step("a second instance");
                    if std::panic::catch_unwind(InputOutput::new).is_ok() {
                        return Err("a second InputOutput could be created while there is one".into());
                    }
                    pty::take_panics();
                    d.labels.insert("second-instance");
                }
                let mut d = d.finish(case.end)?;
                if !again.is_empty() {
                    d.restart()?;
                    for op in again {
                        d.op(op)?;
                    }
                    d.check("the last operation of the second session")?;
                    d = d.finish((case.end + 1) % 3)?;
                    d.labels.insert("reused");
                }
                Ok(summary(d))
            }
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "Four of the 32 combinations of features, chosen so that each feature is on in one and off in another: none; wrap and history; completion and global; history, completion and capture-stderr".into(),
            "Otherwise as for C08 and C16".into(),
        ]
    }
}
