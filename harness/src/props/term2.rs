//! Properties of interactive sessions involving time, signals, panics and shutdown.
use super::term::*;
use crate::engine::{Prop, Tier, Verdict};
use crate::lm::*;
use crate::pty::{self, *};
use crate::tty::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

// ================================================================ C14 notices

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dur {
    Ms(u64),
    Long,
    Max,
    NearMax,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum NStep {
    Notice(LSpec, Dur),
    /// a notice requested while Liso is being kept busy for some time, either
    /// right away or right before the end
    Busy(u64, bool, LSpec, Dur),
    Wait(u64),
    Observe,
    /// wait for the notice to go away by itself
    Expire,
    Op(Op),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct NCase {
    pub w: usize,
    pub steps: Vec<NStep>,
    pub end: u8,
}
pub struct Notices;
impl Prop for Notices {
    type Case = NCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "a notice was requested and at least two observations were made while its fate was determined"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<NCase> {
        let dur = prop_oneof![
            8 => (5u64..150).prop_map(Dur::Ms),
            1 => Just(Dur::Ms(0)),
            4 => Just(Dur::Long),
            1 => Just(Dur::Max),
            1 => Just(Dur::NearMax),
        ];
        let km = KMix { text: 4, edit: 4, resp: 4, hist: 3, tab: 2, clear: 1, odd: 0 };
        let step = prop_oneof![
            6 => (live_line(14), dur.clone()).prop_map(|(l, d)| NStep::Notice(l, d)),
            3 => (prop_oneof![1u64..30, 30u64..160], any::<bool>(), live_line(14), dur).prop_map(|(ms, late, l, d)| NStep::Busy(ms, late, l, d)),
            4 => (1u64..80).prop_map(NStep::Wait),
            4 => Just(NStep::Observe),
            4 => Just(NStep::Expire),
            3 => keys(km, 1).prop_map(|k| NStep::Op(Op::Keys(k))),
            2 => out_line(3, 8).prop_map(|l| NStep::Op(Op::Println(l))),
            2 => (live_line(14), any::<bool>(), any::<bool>()).prop_map(|(l, a, c)| NStep::Op(Op::Prompt(l, a, c))),
            1 => live_line(14).prop_map(|l| NStep::Op(Op::Status(Some(l)))),
            1 => Just(NStep::Op(Op::Bell)),
            1 => Just(NStep::Op(Op::Suspend(vec!["x".into()]))),
        ];
        (6usize..40, proptest::collection::vec(step, 1..14), 0u8..3).prop_map(|(w, steps, end)| NCase { w, steps, end }).boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(4000, 60000)
    }
    fn workers(&self) -> usize {
        16
    }
    fn exec(&self, c: &NCase) -> Verdict {
        pty::run_child("C14", c)
    }
    fn child(&self, c: &NCase) -> Result<(bool, Vec<String>), String> {
        notices(c)
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = tty_assumptions();
        v.push("A notice may outstay its duration by scheduling delays of up to 4 seconds before that is called a violation; it may not leave even slightly early".into());
        v
    }
}
struct Live {
    /// certainly not before this
    not_before: Option<Instant>,
    /// certainly gone some time after this
    due: Option<Instant>,
}
const SLACK: Duration = Duration::from_secs(4);
fn notices(c: &NCase) -> Result<(bool, Vec<String>), String> {
    let mut d = Driver::new(SessCfg { w: c.w, h: 40, ..Default::default() }, 0)?;
    let mut live: Option<Live> = None;
    let mut obs = 0;
    let mut noticed = false;
    let mut labels = std::collections::BTreeSet::new();
    // observe; Ok(true) if the notice is (still) there
    fn look(d: &mut Driver, live: &mut Option<Live>) -> Result<(), String> {
        let ta = Instant::now();
        let Some(l) = live.as_ref() else { return d.check("an observation without any notice") };
        d.check_events("an observation while a notice may be shown")?;
        let emu = d.sess.emu();
        let tb = Instant::now();
        let must_show = l.not_before.map(|t| tb < t).unwrap_or(true);
        let must_hide = l.due.map(|t| ta > t + SLACK).unwrap_or(false);
        if !must_hide {
            let r = d.check_view_of(&emu, "an observation while a notice should be shown");
            if r.is_ok() || must_show {
                return r;
            }
        }
        d.m.notice = None;
        d.sess.sync()?;
        let emu = d.sess.emu();
        d.check_view_of(&emu, "an observation after a notice's duration has passed")?;
        *live = None;
        Ok(())
    }
    for s in &c.steps {
        match s {
            NStep::Notice(l, dur) | NStep::Busy(_, _, l, dur) => {
                let mut next = d.m.clone();
                next.notice = Some(build_model(l));
                if next.live_height() >= next.h {
                    continue;
                }
                let dd = match dur {
                    Dur::Ms(x) => Duration::from_millis(*x),
                    Dur::Long => LONG,
                    Dur::Max => Duration::MAX,
                    Dur::NearMax => Duration::from_secs(u64::MAX / 3),
                };
                step(format!("notice {dur:?}"));
                d.sess.sync()?;
                let mut t0 = Instant::now();
                match s {
                    NStep::Busy(ms, late, ..) => {
                        let gate = Gate::new();
                        let shut = gate.clone();
                        d.io().suspend_and_run(move || shut.wait());
                        if *late {
                            std::thread::sleep(Duration::from_millis(*ms));
                            t0 = Instant::now();
                        }
                        d.io().notice(build_real(l), dd);
                        if !*late {
                            std::thread::sleep(Duration::from_millis(*ms));
                        }
                        gate.open();
                        labels.insert("busy");
                    }
                    _ => d.io().notice(build_real(l), dd),
                }
                d.sess.sync()?;
                let t1 = Instant::now();
                d.m = next;
                noticed = true;
                if live.is_some() {
                    labels.insert("replaced");
                }
                live = Some(match dur {
                    Dur::Ms(_) => Live { not_before: Some(t0 + dd), due: Some(t1 + dd) },
                    _ => Live { not_before: None, due: None },
                });
            }
            NStep::Wait(ms) => {
                step("wait");
                std::thread::sleep(Duration::from_millis(*ms))
            }
            NStep::Observe => {
                obs += 1;
                look(&mut d, &mut live)?;
            }
            NStep::Expire => {
                let Some(l) = &live else { continue };
                let Some(due) = l.due else { continue };
                obs += 1;
                labels.insert("expired");
                loop {
                    step("waiting for a notice to expire");
                    look(&mut d, &mut live)?;
                    if live.is_none() {
                        break;
                    }
                    let now = Instant::now();
                    std::thread::sleep(if now < due { (due - now).min(Duration::from_millis(7)) } else { Duration::from_millis(3) });
                }
            }
            NStep::Op(o) => {
                if let Op::Keys(k) = o {
                    if k.is_empty() {
                        continue;
                    }
                    // settle whether it is still there only as far as needed: a key removes it
                    if live.is_some() {
                        if !d.m.allowed {
                            continue;
                        }
                        // Control-L compares before it acts
                        if matches!(k[0], Key::Ctl(12)) {
                            look(&mut d, &mut live)?;
                            if live.as_ref().map(|l| l.due.is_some()).unwrap_or(false) {
                                continue;
                            }
                        }
                        live = None;
                        labels.insert("key");
                    }
                    if !matches!(k[0], Key::Ctl(12)) {
                        d.m.notice = None; // if it was there, the key removes it
                    }
                    d.op(o)?;
                } else {
                    d.op(o)?;
                    if matches!(o, Op::Suspend(_)) {
                        d.sess.sync()?;
                    }
                    labels.insert("other-output");
                }
            }
        }
    }
    look(&mut d, &mut live)?;
    d.finish(c.end)?;
    Ok((noticed && obs >= 1, labels.into_iter().map(|s| s.to_string()).collect()))
}
