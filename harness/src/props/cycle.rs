//! Creating and destroying (C22), and panics (C25).
use super::life::{end_it, ending, Ending, LIMIT};
use super::term::*;
use crate::emu::{Emu, Kind};
use crate::engine::{Prop, Tier, Verdict};
use crate::layout::Vt;
use crate::lm::*;
use crate::pty::{self, *};
use crate::tty::*;
use liso::{liso, Completion, Completor, InputOutput, Output, OutputOnly, Response};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// How often the hook which was there before Liso has been called
static HOOKED: AtomicU32 = AtomicU32::new(0);
pub fn our_hook() {
    std::panic::set_hook(Box::new(|_| {
        HOOKED.fetch_add(1, Ordering::SeqCst);
    }));
}
/// (text on the whole terminal, all rows joined)
fn transcript(e: &Emu) -> String {
    let mut s = String::new();
    for r in e.scrollback.iter().chain(e.rows.iter()) {
        s.push_str(&r.iter().map(|c| if c.ch == '\0' { ' ' } else { c.ch }).collect::<String>());
    }
    s
}
fn count(h: &str, n: &str) -> usize {
    h.matches(n).count()
}
/// Panic in a thread of its own
fn panic_in_thread(msg: &str) {
    let m = msg.to_string();
    let t = std::thread::Builder::new()
        .name("victim".into())
        .spawn(move || {
            register_thread();
            let x = catch_unwind(AssertUnwindSafe(|| {
                panic!("{}", m);
            }));
            unregister_thread();
            if let Err(e) = x {
                std::panic::resume_unwind(e);
            }
        })
        .unwrap();
    assert!(t.join().is_err());
}

// =============================================================== C22 life cycle

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Print(u8),
    Type(String),
    Custom,
    /// try to create another one here
    Second,
    /// ... in another thread
    SecondElsewhere,
    Notice,
    Prompt,
    Suspend,
    Stale(u8, u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Between {
    Global,
    Stale(u8, u8),
    StdIo(String),
    Hook,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cycle {
    pub term: String,
    pub settle: bool,
    pub acts: Vec<Act>,
    pub clones: u8,
    pub end: Ending,
    /// another thread creates the next one as soon as possible
    pub race: bool,
    pub between: Vec<Between>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct LCase {
    pub cycles: Vec<Cycle>,
    /// this many threads try to create the first one at once
    pub racers: u8,
}
pub struct Lifecycle;
impl Prop for Lifecycle {
    type Case = LCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "at least two InputOutputs were created one after the other, or creation was attempted while there was one"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<LCase> {
        let word = || text_of(proptest::char::range('a', 'z').boxed(), 6);
        let act = prop_oneof![
            4 => (0u8..4).prop_map(Act::Print),
            3 => word().prop_map(Act::Type),
            1 => Just(Act::Custom),
            2 => Just(Act::Second),
            1 => Just(Act::SecondElsewhere),
            2 => Just(Act::Notice),
            2 => Just(Act::Prompt),
            1 => Just(Act::Suspend),
            2 => (any::<u8>(), 0u8..10).prop_map(|(a, b)| Act::Stale(a, b)),
        ];
        let between = prop_oneof![
            2 => Just(Between::Global),
            3 => (any::<u8>(), 0u8..10).prop_map(|(a, b)| Between::Stale(a, b)),
            2 => word().prop_map(Between::StdIo),
            2 => Just(Between::Hook),
        ];
        let cycle = (
            select(s(&["xterm", "xterm", "xterm", "linux", "dumb", "pipe", "vt52", "atari", "st52-m"])),
            prop::bool::weighted(0.8),
            proptest::collection::vec(act, 0..6),
            0u8..3,
            ending(),
            prop::bool::weighted(0.2),
            proptest::collection::vec(between, 0..4),
        )
            .prop_map(|(term, settle, acts, clones, end, race, between)| Cycle { term, settle, acts, clones, end, race, between });
        (proptest::collection::vec(cycle, 1..6), prop_oneof![4 => Just(0u8), 1 => 2u8..5]).prop_map(|(cycles, racers)| LCase { cycles, racers }).boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(8000, 130000)
    }
    fn valid(&self, c: &LCase) -> bool {
        let ok = |t: &str| t.chars().all(|c| c.is_ascii_lowercase()) && !t.is_empty();
        !c.cycles.is_empty()
            && c.cycles.iter().all(|c| {
                ["xterm", "linux", "dumb", "pipe", "vt52", "atari", "st52-m"].contains(&&c.term[..])
                    && c.acts.iter().all(|a| !matches!(a, Act::Type(t) if !ok(t)))
                    && c.between.iter().all(|a| !matches!(a, Between::StdIo(t) if !ok(t)))
            })
    }
    fn exec(&self, c: &LCase) -> Verdict {
        pty::run_child("C22", c)
    }
    fn child(&self, c: &LCase) -> Result<(bool, Vec<String>), String> {
        lifecycle(c)
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "Threads of Liso's may take up to 3 seconds to end after shutdown".into(),
            "That a panic while Liso is active makes the terminal leave raw mode is no disturbance".into(),
        ]
    }
}
#[derive(PartialEq, Clone)]
struct Belongings {
    fds: Vec<(i32, String)>,
    threads: Vec<String>,
    signals: Vec<(i32, usize, i32)>,
}
fn belongings() -> Belongings {
    let mut fds = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            let n: i32 = e.file_name().to_str().unwrap_or("").parse().unwrap_or(-1);
            let t = std::fs::read_link(e.path()).map(|x| x.display().to_string()).unwrap_or_default();
            if !t.starts_with("/proc/") {
                fds.push((n, t));
            }
        }
    }
    fds.sort();
    let threads = foreign_threads().into_iter().map(|x| x.1).collect();
    let mut signals = vec![];
    for s in 1..65 {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            if libc::sigaction(s, std::ptr::null(), &mut a) == 0 {
                signals.push((s, a.sa_sigaction, a.sa_flags));
            }
        }
    }
    Belongings { fds, threads, signals }
}
fn use_handle(o: &Output, how: u8) {
    match how {
        0 => o.println("STALE"),
        1 => o.wrapln("STALE"),
        2 => o.echoln("STALE"),
        3 => o.status(Some("STALE")),
        4 => o.notice("STALE", Duration::from_secs(1)),
        5 => o.prompt("STALE", true, false),
        6 => o.bell(),
        7 => o.send_custom(7u8),
        8 => o.set_completor(None),
        _ => o.suspend_and_run(|| ()),
    }
}
/// It must panic; the message is taken back
fn must_panic<T>(what: &str, alive: bool, f: impl FnOnce() -> T) -> Result<(), String> {
    let h = HOOKED.load(Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    if !r {
        return Err(format!("{what} did not panic"));
    }
    let n = take_panics().len();
    let h = HOOKED.load(Ordering::SeqCst) - h;
    if n as u32 + h != 1 || (!alive && n != 0) {
        return Err(format!("{what}: {n} panic messages were printed, and the previous hook was called {h} times"));
    }
    Ok(())
}
fn lifecycle(c: &LCase) -> Result<(bool, Vec<String>), String> {
    let cfg = SessCfg { w: 40, h: 30, kind: Kind::Either, ..Default::default() };
    let sess = Session::new(cfg)?;
    our_hook();
    let mut before = belongings();
    before.threads.clear(); // (only the harness's)
    let mut labels = std::collections::BTreeSet::new();
    let mut stale: Vec<OutputOnly> = vec![];
    let mut serial = 0;
    let mut marks: BTreeMap<String, ()> = Default::default();
    let mut attempted = false;
    let mut ready: Option<InputOutput> = None;
    for (ci, cy) in c.cycles.iter().enumerate() {
        let pipe = cy.term == "dumb" || cy.term == "pipe";
        let mut io = match ready.take() {
            Some(x) => x,
            None => {
                step(format!("cycle {ci}: new"));
                std::env::set_var("TERM", &cy.term);
                if ci == 0 && c.racers > 0 {
                    // who will be first?
                    attempted = true;
                    labels.insert("simultaneous");
                    let go = Arc::new(AtomicBool::new(false));
                    let ts: Vec<_> = (0..c.racers)
                        .map(|_| {
                            let go = go.clone();
                            std::thread::spawn(move || {
                                register_thread();
                                while !go.load(Ordering::SeqCst) {
                                    std::hint::spin_loop();
                                }
                                let r = catch_unwind(InputOutput::new).ok();
                                unregister_thread();
                                r
                            })
                        })
                        .collect();
                    go.store(true, Ordering::SeqCst);
                    let mut won: Vec<InputOutput> = ts.into_iter().filter_map(|t| t.join().ok().flatten()).collect();
                    sess.sync_panicky()?;
                    take_panics();
                    // (the panics happened while Liso was active)
                    sess.with_emu(|e| e.errors.clear());
                    if won.len() != 1 {
                        return Err(format!("{} of {} simultaneous attempts to create an InputOutput succeeded", won.len(), c.racers));
                    }
                    won.pop().unwrap()
                } else {
                    match catch_unwind(InputOutput::new) {
                        Ok(x) => x,
                        Err(e) => return Err(format!("cycle {ci}: InputOutput::new panicked: {}", crate::engine::panic_text(&e))),
                    }
                }
            }
        };
        // (somebody else may have used the terminal in other ways when racing)
        let term = std::env::var("TERM").unwrap();
        let pipe = if std::env::var("TERM").as_deref() == Ok(&cy.term) { pipe } else { term == "dumb" || term == "pipe" };
        labels.insert(if pipe { "pipe-mode" } else { "tty" });
        if cy.settle || cy.acts.iter().any(|a| matches!(a, Act::Type(_))) {
            sess.sync()?;
        }
        let first_clone = io.clone_output();
        let mut clones = vec![];
        let mut raw = true; // is the terminal still as Liso wants it?
        if ci == 0 && c.racers > 0 {
            raw = pipe;
        }
        let mut expect_custom = 0u32;
        for a in &cy.acts {
            step(format!("cycle {ci}: {a:?}"));
            serial += 1;
            match a {
                Act::Print(via) => {
                    let m = format!("<m{serial}>");
                    match via {
                        0 => io.println(m.as_str()),
                        1 => first_clone.println(m.as_str()),
                        2 => match catch_unwind(liso::output) {
                            Ok(o) => o.println(m.as_str()),
                            Err(_) => return Err("output() panicked although there is an InputOutput".into()),
                        },
                        _ => liso::println!(m.clone()),
                    }
                    marks.insert(m, ());
                }
                Act::Type(t) => {
                    if !raw {
                        continue;
                    }
                    sess.sync()?;
                    sess.type_bytes(format!("{t}{}", if pipe { "\n" } else { "\r" }).as_bytes())?;
                    match io.read_timeout(LIMIT) {
                        Some(Response::Input(s)) if s == *t => (),
                        Some(x) => return Err(format!("cycle {ci}: typing {t:?} gave {x:?}")),
                        None => return Err(format!("SUSPECT:cycle {ci}: typing {t:?} gave nothing")),
                    }
                }
                Act::Custom => {
                    expect_custom += 1;
                    io.send_custom(serial);
                    match io.read_timeout(LIMIT) {
                        Some(Response::Custom(b)) if b.downcast_ref() == Some(&serial) => (),
                        x => return Err(format!("cycle {ci}: sending a custom message gave {x:?}")),
                    }
                }
                Act::Second => {
                    attempted = true;
                    labels.insert("second");
                    sess.sync()?;
                    must_panic("creating a second InputOutput", true, InputOutput::new)?;
                    raw = pipe;
                }
                Act::SecondElsewhere => {
                    attempted = true;
                    sess.sync()?;
                    must_panic("creating a second InputOutput in another thread", true, || {
                        let t = std::thread::spawn(|| {
                            register_thread();
                            let r = catch_unwind(InputOutput::new);
                            unregister_thread();
                            if let Err(e) = r {
                                std::panic::resume_unwind(e);
                            }
                        });
                        if let Err(e) = t.join() {
                            std::panic::resume_unwind(e);
                        }
                    })?;
                    raw = pipe;
                }
                Act::Notice => io.notice("a notice", Duration::from_secs(100000)),
                Act::Prompt => {
                    io.prompt("a prompt", true, false);
                    io.status(Some("a status"));
                }
                Act::Suspend => {
                    let f = Arc::new(AtomicBool::new(false));
                    let g = f.clone();
                    io.suspend_and_run(move || g.store(true, Ordering::SeqCst));
                    let t = Instant::now();
                    while !f.load(Ordering::SeqCst) {
                        if t.elapsed() > LIMIT {
                            return Err(format!("SUSPECT:cycle {ci}: suspend_and_run doesn't run"));
                        }
                        std::thread::sleep(Duration::from_micros(100));
                    }
                    // (which makes the terminal raw again)
                    sess.sync()?;
                    raw = true;
                }
                Act::Stale(n, how) => {
                    if !stale.is_empty() {
                        labels.insert("stale-while-alive");
                        sess.sync()?;
                        let o = &stale[*n as usize % stale.len()];
                        must_panic(&format!("using a handle from an earlier InputOutput ({how})"), true, || use_handle(o, *how))?;
                        raw = pipe;
                    }
                }
            }
        }
        let _ = expect_custom;
        for _ in 0..cy.clones {
            clones.push(liso::output());
        }
        if raw && cy.settle {
            sess.sync()?;
        }
        step(format!("cycle {ci}: ending ({:?})", cy.end));
        let next_term = c.cycles.get(ci + 1).map(|c| c.term.clone());
        let racing = match (&next_term, cy.race) {
            (Some(t), true) => {
                labels.insert("race-to-be-next");
                let t = t.clone();
                let stop = Arc::new(AtomicBool::new(false));
                let stop2 = stop.clone();
                let h = std::thread::spawn(move || {
                    register_thread();
                    let until = Instant::now() + Duration::from_secs(6);
                    let mut r = None;
                    while Instant::now() < until && !stop2.load(Ordering::SeqCst) {
                        // (a panic while Liso is active would disturb it)
                        if catch_unwind(liso::output).is_ok() {
                            continue;
                        }
                        std::env::set_var("TERM", &t);
                        r = catch_unwind(InputOutput::new).ok();
                        break;
                    }
                    unregister_thread();
                    r
                });
                Some(h)
            }
            _ => None,
        };
        let took = end_it(io, &cy.end);
        if took > LIMIT {
            return Err(format!("SUSPECT:cycle {ci}: shutting down took {took:?}"));
        }
        stale.push(first_clone);
        stale.extend(clones);
        if let Some(h) = racing {
            let Ok(Some(x)) = h.join() else {
                return Err(format!("SUSPECT:cycle {ci}: no new InputOutput could be created as soon as output() said that there was none"));
            };
            take_panics();
            // the old one must be entirely gone by now, so this one's terminal mode must stay
            sess.sync()?;
            let pipe = ["dumb", "pipe"].contains(&&next_term.unwrap()[..]);
            let t = sess.termios();
            if pipe && !termios_eq(&t, &sess.orig) {
                return Err(format!("cycle {ci}: a new InputOutput (in pipe mode) was created right after the old one, and the terminal's settings are not the original ones"));
            }
            if !pipe && !termios_is_raw(&t) {
                return Err(format!("cycle {ci}: a new InputOutput was created right after the old one, and the terminal isn't in raw mode"));
            }
            ready = Some(x);
            continue;
        }
        // ------------------------------------------------ nothing is left of it
        step(format!("cycle {ci}: after the end"));
        let until = Instant::now() + Duration::from_secs(3);
        loop {
            let now = belongings();
            if now == before {
                break;
            }
            if Instant::now() > until {
                let mut what = vec![];
                if now.fds != before.fds {
                    what.push(format!("file descriptors {:?}, before: {:?}", now.fds, before.fds));
                }
                if now.threads != before.threads {
                    what.push(format!("threads {:?}", now.threads));
                }
                if now.signals != before.signals {
                    let d: Vec<_> = now.signals.iter().filter(|x| !before.signals.contains(x)).map(|x| x.0).collect();
                    what.push(format!("handlers of signals {d:?}"));
                }
                return Err(format!("cycle {ci} ({}): left behind: {}", cy.term, what.join("; ")));
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        sess.drain_now();
        if !termios_eq(&sess.termios(), &sess.orig) {
            return Err(format!("cycle {ci}: afterwards the terminal's settings are not the original ones"));
        }
        {
            let e = sess.emu();
            if !e.cursor_visible || !e.autowrap {
                return Err(format!("cycle {ci}: afterwards the cursor is hidden or line wrap is off"));
            }
        }
        for b in &cy.between {
            step(format!("cycle {ci}: {b:?}"));
            match b {
                Between::Global => must_panic("output() without an InputOutput", false, liso::output)?,
                Between::Stale(n, how) => {
                    let o = &stale[*n as usize % stale.len()];
                    sess.drain_now();
                    let len = sess.emu().raw.len();
                    labels.insert("stale");
                    must_panic(&format!("using a handle whose InputOutput is gone ({how})"), false, || use_handle(o, *how))?;
                    sess.drain_now();
                    if sess.emu().raw.len() != len {
                        return Err(format!("using a handle whose InputOutput is gone had output: {:?}", String::from_utf8_lossy(&sess.emu().raw[len..])));
                    }
                }
                Between::StdIo(t) => {
                    labels.insert("standard-io");
                    serial += 1;
                    let m = format!("<p{serial}>");
                    writeln!(std::io::stdout(), "{m}").map_err(|e| format!("standard output doesn't work: {e}"))?;
                    marks.insert(m, ());
                    sess.type_bytes(format!("{t}\n").as_bytes())?;
                    sess.flush_input();
                    let mut l = String::new();
                    std::io::stdin().read_line(&mut l).map_err(|e| format!("standard input doesn't work: {e}"))?;
                    if l != format!("{t}\n") {
                        return Err(format!("between InputOutputs, standard input gave {l:?} where {t:?} was typed"));
                    }
                }
                Between::Hook => {
                    labels.insert("hook");
                    let h = HOOKED.load(Ordering::SeqCst);
                    sess.drain_now();
                    let len = sess.emu().raw.len();
                    panic_in_thread("boo");
                    sess.drain_now();
                    if HOOKED.load(Ordering::SeqCst) != h + 1 {
                        return Err(format!("cycle {ci}: afterwards the previous panic hook is not back in place"));
                    }
                    if let [m, ..] = &take_panics()[..] {
                        return Err(format!("cycle {ci}: afterwards another panic hook ran as well: {m}"));
                    }
                    if sess.emu().raw.len() != len {
                        return Err(format!("cycle {ci}: afterwards a panic still writes to the terminal"));
                    }
                }
            }
        }
    }
    sess.sync_dead()?;
    // everything that was printed is there, once
    let t = transcript(&sess.emu());
    if t.contains("STALE") {
        return Err("something was printed through a handle whose InputOutput is gone".into());
    }
    for m in marks.keys() {
        if count(&t, m) != 1 {
            return Err(format!("{m} is on the terminal {} times", count(&t, m)));
        }
    }
    Ok((c.cycles.len() >= 2 || attempted, labels.into_iter().map(|s| s.to_string()).collect()))
}

// =================================================================== C25 panics

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Who {
    Thread,
    /// the main thread, which survives
    Main,
    /// the main thread, whose InputOutput gets dropped on the way
    Owner,
    Completor,
    /// a function passed to suspend_and_run
    Function,
    /// a thread, while a function passed to suspend_and_run is running
    WhileSuspended,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BoomCase {
    pub w: usize,
    pub term: String,
    pub wob: bool,
    pub stderr_tty: bool,
    pub custom: bool,
    pub base: Vec<Op>,
    pub who: Vec<Who>,
    pub after: Vec<LSpec>,
    pub end: Ending,
}
pub struct Panics;
const BMIX: Mix = Mix { print: 2, status: 3, prompt: 4, keys: 4, notice: 2, suspend: 1, kmax: 6, kmix: KMix { text: 10, edit: 3, resp: 0, hist: 0, tab: 0, clear: 1, odd: 0 }, ..NOTHING };
const BTERMS: &[&str] = &["xterm", "linux", "vt52", "atari", "st52-m", "dumb"];
impl Prop for Panics {
    type Case = BoomCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "Liso was in control of the terminal, and something panicked"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<BoomCase> {
        let who = prop_oneof![4 => Just(Who::Thread), 2 => Just(Who::Main), 3 => Just(Who::Owner), 2 => Just(Who::Completor), 2 => Just(Who::Function), 2 => Just(Who::WhileSuspended)];
        (
            prop_oneof![2 => 10usize..40, 1 => Just(80usize)],
            prop_oneof![5 => Just("xterm"), 1 => Just("linux"), 1 => Just("vt52"), 1 => Just("atari"), 1 => Just("st52-m"), 1 => Just("dumb")],
            any::<bool>(),
            prop::bool::weighted(0.75),
            any::<bool>(),
            proptest::collection::vec(who, 1..4),
            proptest::collection::vec(lspec(out_char(), 3, 7, true), 0..3),
            ending(),
        )
            .prop_flat_map(|(w, term, wob, stderr_tty, custom, who, after, end)| {
                ops(BMIX, w, 6).prop_map(move |base| BoomCase { w, term: term.into(), wob, stderr_tty, custom, base, who: who.clone(), after: after.clone(), end: end.clone() })
            })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(10000, 160000)
    }
    fn valid(&self, c: &BoomCase) -> bool {
        valid_ops(&c.base) && BTERMS.contains(&&c.term[..])
    }
    fn exec(&self, c: &BoomCase) -> Verdict {
        pty::run_child("C25", c)
    }
    fn child(&self, c: &BoomCase) -> Result<(bool, Vec<String>), String> {
        boom(c)
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = tty_assumptions();
        v.push("Which hook prints the message while Liso is active (the one installed before, or Rust's own) is open; the message is printed once in all".into());
        v.push("What Liso shows after a panic, before it's shut down, is open".into());
        v
    }
}
struct Bomb(String);
impl Completor for Bomb {
    fn complete(&mut self, _: &Output, _: &str, _: usize, _: NonZeroU32) -> Option<Completion> {
        panic!("{}", self.0);
    }
}
fn boom(c: &BoomCase) -> Result<(bool, Vec<String>), String> {
    let pipe = c.term == "dumb";
    if c.wob {
        std::env::set_var("ATARI_WHITE_ON_BLACK", "1");
    }
    let h = 30;
    let vt = vt_for(&c.term, c.w, h, c.wob);
    let cfg = SessCfg {
        w: c.w,
        h,
        term: Some(c.term.clone()),
        kind: if vt.is_some() { Kind::Vt52 } else { Kind::Ansi { bce: false } },
        stderr_tty: c.stderr_tty,
        ..Default::default()
    };
    if c.custom {
        our_hook();
    } else {
        let _ = std::panic::take_hook();
    }
    let mut d = Driver::new_vt(cfg, 1, vt)?;
    d.strict_history = false;
    if pipe {
        d.screen = false;
    } else {
        for o in &c.base {
            d.op(o)?;
        }
        d.check("the operations before the panic")?;
        if !d.m.allowed {
            d.issue(&Op::Prompt(vec![LOp::Text(">".into())], true, false), false)?;
        }
        d.check("the operations before the panic")?;
    }
    let mut labels = std::collections::BTreeSet::new();
    labels.insert(if pipe { "pipe-mode".to_string() } else { c.term.clone() });
    labels.insert(if c.stderr_tty { "stderr-terminal" } else { "stderr-elsewhere" }.into());
    let mut shown: Vec<String> = vec![]; // messages on the terminal
    let mut dead = false;
    let mut intact = !pipe; // is the terminal in Liso's mode, nothing having panicked yet?
    for (i, who) in c.who.iter().enumerate() {
        if d.io.is_none() || dead {
            break;
        }
        let msg = format!("BOOM{i}");
        step(format!("panic {i}: {who:?}"));
        labels.insert(format!("{who:?}").to_lowercase());
        d.sess.sync_panicky()?;
        let from = d.sess.emu().raw.len();
        let hooked = HOOKED.load(Ordering::SeqCst);
        let mut suspended = false;
        match who {
            Who::Thread => panic_in_thread(&msg),
            Who::Main => {
                let m = msg.clone();
                let _ = catch_unwind(move || panic!("{}", m));
            }
            Who::Owner => {
                let io = d.io.take().unwrap();
                let m = msg.clone();
                let t = Instant::now();
                let _ = catch_unwind(AssertUnwindSafe(move || {
                    let _io = io;
                    panic!("{}", m)
                }));
                if t.elapsed() > LIMIT {
                    return Err("SUSPECT:unwinding past the InputOutput took more than 4 seconds".into());
                }
            }
            Who::Completor => {
                if !intact {
                    continue;
                }
                d.with_out(|o| o.set_completor(Some(Box::new(Bomb(msg.clone())))));
                d.sess.sync()?;
                d.sess.type_bytes(b"\t")?;
                expect_death(&mut d)?;
                dead = true;
            }
            Who::Function => {
                let m = msg.clone();
                suspended = true;
                d.with_out(|o| o.suspend_and_run(move || panic!("{}", m)));
                expect_death(&mut d)?;
                dead = true;
            }
            Who::WhileSuspended => {
                suspended = true;
                let st = Arc::new((Mutex::new(0), Condvar::new()));
                let st2 = st.clone();
                d.with_out(|o| {
                    o.suspend_and_run(move || {
                        let (m, cv) = &*st2;
                        *m.lock().unwrap() = 1;
                        cv.notify_all();
                        let mut g = m.lock().unwrap();
                        while *g != 2 {
                            g = cv.wait(g).unwrap();
                        }
                    })
                });
                let (m, cv) = &*st;
                let mut g = m.lock().unwrap();
                while *g != 1 {
                    let (x, t) = cv.wait_timeout(g, LIMIT).unwrap();
                    if t.timed_out() {
                        return Err("SUSPECT:the function passed to suspend_and_run isn't run".into());
                    }
                    g = x;
                }
                drop(g);
                panic_in_thread(&msg);
                // (before Liso continues)
                d.sess.drain_now();
                *m.lock().unwrap() = 2;
                cv.notify_all();
            }
        }
        // (no later output of Liso's is waited for)
        d.sess.drain_now();
        // ---- printed once, by the right hook
        let hooked = HOOKED.load(Ordering::SeqCst) - hooked;
        let elsewhere = take_panics();
        let emu = d.sess.emu();
        let text = String::from_utf8_lossy(&emu.raw[from..]).to_string();
        let here = count(&text, &msg);
        let there = elsewhere.iter().filter(|x| x.contains(&msg)).count();
        if hooked as usize + here + there != 1 || count(&text, "panicked at") != here || elsewhere.len() != there {
            return Err(format!("{who:?}: the panic message was printed {here} times on the terminal and {there} times elsewhere, and the previous hook was called {hooked} times"));
        }
        if (here == 1) != (c.stderr_tty && hooked == 0) {
            return Err(format!("{who:?}: the panic message went to the wrong place"));
        }
        if suspended && c.custom && hooked == 0 {
            return Err(format!("{who:?}: the previously installed hook wasn't the one that was called, although Liso is suspended"));
        }
        if here == 1 {
            shown.push(msg.clone());
            if !pipe {
                let at = text.find("thread '").ok_or("HARNESS: no panic message?")?;
                let at = from + text[..at].trim_end_matches(['\r', '\n']).len();
                check_readable(&emu, at, &emu.raw[at..], vt, !suspended).map_err(|e| format!("{who:?}: when the panic message was printed, {e}"))?;
            }
        } else if !pipe && !suspended && !matches!(who, Who::Owner) {
            check_readable(&emu, emu.raw.len(), b"", vt, true).map_err(|e| format!("{who:?}: after the panic, {e}"))?;
        }
        if !pipe && !suspended && !termios_eq(&d.sess.termios(), &d.sess.orig) {
            return Err(format!("{who:?}: after the panic, the terminal doesn't have its original settings"));
        }
        if !suspended {
            intact = false;
        }
        if suspended && !dead {
            d.sess.sync_panicky()?;
            if !pipe && !termios_is_raw(&d.sess.termios()) {
                return Err("after suspend_and_run, the terminal isn't raw".into());
            }
            intact = !pipe;
        }
    }
    if let Some(io) = d.io.take() {
        if !dead {
            for l in &c.after {
                d.with_clone(|o| o.println(build_real(l)));
            }
        }
        step(format!("shutdown ({:?})", c.end));
        let took = end_it(io, &c.end);
        if took > LIMIT {
            return Err(format!("SUSPECT:shutting down after a panic took {took:?}"));
        }
    }
    step("after shutdown");
    d.sess.sync_panicky()?;
    let emu = d.sess.emu();
    if !pipe {
        if !termios_eq(&d.sess.termios(), &d.sess.orig) {
            return Err("after a panic and shutdown, the terminal doesn't have its original settings".into());
        }
        check_state(&emu, vt).map_err(|e| format!("after a panic and shutdown, {e}"))?;
    }
    let t = transcript(&emu);
    for m in &shown {
        if count(&t, m) != 1 {
            return Err(format!("after shutdown, the panic message {m} is no longer on the terminal\n{}", emu.dump()));
        }
    }
    if count(&t, "panicked at") != shown.len() {
        return Err(format!("after shutdown, a panic message is no longer (entirely) on the terminal\n{}", emu.dump()));
    }
    // the previous hook is back
    let h = HOOKED.load(Ordering::SeqCst);
    let len = emu.raw.len();
    panic_in_thread("LAST");
    d.sess.drain_now();
    let h = HOOKED.load(Ordering::SeqCst) - h;
    let there = take_panics().len();
    let emu = d.sess.emu();
    let here = count(&String::from_utf8_lossy(&emu.raw[len..]), "panicked at");
    let want = if c.custom {
        (1, 0, 0)
    } else if c.stderr_tty {
        (0, 1, 0)
    } else {
        (0, 0, 1)
    };
    if (h as usize, here, there) != want {
        return Err(format!("after shutdown, a panic called the previous hook {h} times, and {here} messages were printed on the terminal and {there} elsewhere"));
    }
    if emu.raw[len..].contains(&0x1b) {
        return Err("after shutdown, a panic still sends escape sequences to the terminal".into());
    }
    std::panic::set_hook(Box::new(|_| ()));
    Ok((!pipe, labels.into_iter().collect()))
}
fn expect_death(d: &mut Driver) -> Result<(), String> {
    let io = d.io.as_mut().unwrap();
    let until = Instant::now() + LIMIT;
    loop {
        match io.read_deadline(until) {
            Some(Response::Dead) => return Ok(()),
            Some(_) => (),
            None => return Err("SUSPECT:no Dead within 4 seconds after a panic in the Liso thread".into()),
        }
    }
}
fn check_state(e: &Emu, vt: Option<Vt>) -> Result<(), String> {
    if !e.cursor_visible {
        return Err("the cursor is hidden".into());
    }
    if !e.autowrap {
        return Err("line wrap is off".into());
    }
    if !e.attr_is_default(vt) {
        return Err(format!("attributes are not reset: {:?}", e.attr));
    }
    Ok(())
}
/// The terminal as it was after `at` bytes, just before `msg`
fn check_readable(e: &Emu, at: usize, msg: &[u8], vt: Option<Vt>, cleared: bool) -> Result<(), String> {
    let mut then = Emu::new(e.kind, e.w, e.h);
    if let Some(v) = vt {
        let (f, b) = v.map(Attr::default());
        then.power_on(f, b);
    }
    then.feed(&e.raw[..at]);
    check_state(&then, vt)?;
    if cleared {
        for y in then.cy..then.h {
            for x in (if y == then.cy { then.cx } else { 0 })..then.w {
                let c = &then.rows[y][x];
                if c.ch != ' ' {
                    return Err(format!("the area below the cursor wasn't clear\n{}", then.dump()));
                }
            }
        }
    }
    // output processing was on again
    let bad = msg.iter().enumerate().take_while(|(i, _)| *i < 200).any(|(i, b)| *b == b'\n' && (i == 0 || msg[i - 1] != b'\r'));
    if bad {
        return Err("the terminal did not have its original settings".into());
    }
    Ok(())
}
