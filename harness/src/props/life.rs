//! Shutdown and hangup (C18).
use super::term::*;
use crate::emu::Kind;
use crate::engine::{Prop, Tier, Verdict};
use crate::layout;
use crate::lm::*;
use crate::pty::{self, *};
use crate::tty::*;
use liso::{InputOutput, Response};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub const LIMIT: Duration = Duration::from_secs(4);

// ================================================================ C18 shutdown

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tail {
    Op(Op),
    /// text typed without waiting for its effects
    Type(Vec<Key>),
    /// a suspend_and_run function which takes this many milliseconds
    Slow(u8),
    /// wait this many microseconds
    Wait(u16),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ending {
    Drop,
    BlockingDie,
    Die,
    /// begin die(), and cancel it after polling it once
    DieCancelled,
    /// let the InputOutput be dropped by another thread
    OtherThread,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SCase {
    /// operations with checks; more without; the end
    Tty { base: TtyCase, settle: bool, flip: u32, tail: Vec<Tail>, end: Ending },
    /// pipe mode
    Pipe { tty_in: bool, tty_out: bool, tail: Vec<Tail>, end: Ending },
    /// the terminal hangs up, while...
    Hangup { pipe: bool, ops: Vec<Op>, pending: Vec<u32>, lines: Vec<String>, state: Hung, reads: Vec<u8>, tail: Vec<Tail> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Hung {
    Idle,
    /// a thread is waiting in this method
    Reading(u8),
    Suspended(u8),
    /// other threads keep printing
    Printing,
}
pub struct Shutdown;

fn short_line() -> BoxedStrategy<LSpec> {
    lspec(out_char(), 3, 7, true)
}
pub fn tail_op() -> BoxedStrategy<Tail> {
    let o = |s: BoxedStrategy<Op>| s.prop_map(Tail::Op).boxed();
    let text = proptest::collection::vec(prop_oneof![6 => proptest::char::range('a', 'z').prop_map(Key::Ch), 1 => Just(Key::Ch('世')), 2 => Just(Key::Enter), 2 => select(vec![Key::Left, Key::Right, Key::Home, Key::Ctl(21)])], 1..6);
    let v: Vec<(u32, BoxedStrategy<Tail>)> = vec![
        (8, o(out_line(5, 9).prop_map(Op::Println).boxed())),
        (2, o(text_of(out_char(), 12).prop_map(Op::PrintStr).boxed())),
        (2, o(lspec(solid_char(), 5, 9, true).prop_map(Op::Wrapln).boxed())),
        (1, o(short_line().prop_map(Op::Echoln).boxed())),
        (2, o(proptest::option::of(short_line()).prop_map(Op::Status).boxed())),
        (3, o((short_line(), any::<bool>(), any::<bool>()).prop_map(|(l, a, c)| Op::Prompt(l, a, c)).boxed())),
        (1, o(short_line().prop_map(Op::Notice).boxed())),
        (1, o(Just(Op::Bell).boxed())),
        (1, o(any::<u32>().prop_map(Op::Custom).boxed())),
        (1, o(proptest::collection::vec(text_of(proptest::char::range('a', 'z').boxed(), 5), 0..3).prop_map(Op::Suspend).boxed())),
        (4, text.prop_map(Tail::Type).boxed()),
        (1, (0u8..15).prop_map(Tail::Slow).boxed()),
        (2, (0u16..800).prop_map(Tail::Wait).boxed()),
    ];
    proptest::strategy::Union::new_weighted(v).boxed()
}
pub fn ending() -> BoxedStrategy<Ending> {
    prop_oneof![4 => Just(Ending::Drop), 2 => Just(Ending::BlockingDie), 2 => Just(Ending::Die), 1 => Just(Ending::DieCancelled), 1 => Just(Ending::OtherThread)].boxed()
}
const MIX: Mix = Mix { print: 3, wrap: 1, echo: 1, status: 3, prompt: 3, notice: 2, bell: 0, custom: 1, keys: 5, suspend: 1, hold: 1, kmax: 6, ..NOTHING };

impl Prop for Shutdown {
    type Case = SCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "something was printed, shown or typed before the end, or the terminal hung up"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<SCase> {
        let tail = || proptest::collection::vec(tail_op(), 0..10);
        let small = || {
            (10usize..40, 26usize..34, any::<bool>(), select(s(&["xterm", "xterm-256color", "linux", ""])), 0u8..3)
        };
        prop_oneof![
            4 => (small(), proptest::bool::weighted(0.7), select(vec![0u32, 0, libc::ECHO, libc::ISIG | libc::ECHO, libc::ICANON]), tail(), ending()).prop_flat_map(|((w, h, bce, term, via), settle, flip, tail, end)| {
                ops(MIX, w, 6).prop_map(move |ops| SCase::Tty {
                    base: TtyCase { w, h, bce, term: term.clone(), via, ops, end: 0 },
                    settle, flip, tail: tail.clone(), end: end.clone() })
            }),
            3 => (small(), tail(), ending()).prop_map(|((w, h, bce, term, via), tail, end)| SCase::Tty {
                base: TtyCase { w, h, bce, term, via, ops: vec![], end: 0 }, settle: false, flip: 0, tail, end }),
            1 => (any::<bool>(), any::<bool>(), tail(), ending()).prop_map(|(tty_in, tty_out, tail, end)| SCase::Pipe { tty_in, tty_out, tail, end }),
            2 => (
                prop::bool::weighted(0.2),
                ops(Mix { hold: 0, ..MIX }, 20, 4),
                proptest::collection::vec(any::<u32>(), 0..4),
                proptest::collection::vec(text_of(proptest::char::range('a', 'z').boxed(), 5), 0..3),
                prop_oneof![3 => Just(Hung::Idle), 3 => (0u8..4).prop_map(Hung::Reading), 1 => (0u8..15).prop_map(Hung::Suspended), 1 => Just(Hung::Printing)],
                proptest::collection::vec(0u8..5, 0..12),
                proptest::collection::vec(tail_op(), 0..4),
            ).prop_map(|(pipe, ops, pending, lines, state, reads, tail)| SCase::Hangup { pipe, ops, pending, lines, state, reads, tail }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(14000, 220000)
    }
    fn valid(&self, c: &SCase) -> bool {
        match c {
            SCase::Tty { base, tail, .. } => valid_ops(&base.ops) && tail_valid(tail),
            SCase::Pipe { tail, .. } => tail_valid(tail),
            SCase::Hangup { ops, tail, state, reads, .. } => valid_ops(ops) && tail_valid(tail) && !matches!(state, Hung::Reading(4..)) && reads.iter().all(|r| *r < 5),
        }
    }
    fn exec(&self, c: &SCase) -> Verdict {
        pty::run_child("C18", c)
    }
    fn child(&self, c: &SCase) -> Result<(bool, Vec<String>), String> {
        life(c)
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = tty_assumptions();
        v.push("\"Promptly\" is within 4 seconds, twice in three attempts (not counting the time functions passed to suspend_and_run take)".into());
        v.push("Terminals that hang up do so after Liso has started; SIGHUP is ignored by the program".into());
        v
    }
}
fn tail_valid(t: &[Tail]) -> bool {
    t.iter().all(|t| match t {
        Tail::Op(o) => !matches!(o, Op::Keys(_) | Op::Check | Op::Hold(_) | Op::Stop(_) | Op::SwapHistory(_) | Op::Completor(_)),
        Tail::Type(k) => k.iter().all(|k| matches!(k, Key::Ch(_) | Key::Enter | Key::Left | Key::Right | Key::Home | Key::Ctl(21))),
        _ => true,
    })
}
pub fn slow(o: &liso::Output, ms: u8) {
    BUSY.fetch_add(1, Ordering::SeqCst);
    let mut n = 0;
    o.suspend_and_run(move || {
        std::thread::sleep(Duration::from_millis(ms as u64));
        if n == 0 {
            BUSY.fetch_sub(1, Ordering::SeqCst);
        }
        n += 1;
    });
}
/// End it; how long did that take?
pub fn end_it(io: InputOutput, end: &Ending) -> Duration {
    let t = Instant::now();
    match end {
        Ending::Drop => drop(io),
        Ending::BlockingDie => io.blocking_die(),
        Ending::Die => tokio_rt().block_on(io.die()),
        Ending::DieCancelled => {
            let mut f = Box::pin(io.die());
            let w = std::task::Waker::from(std::sync::Arc::new(Nop));
            let _ = f.as_mut().poll(&mut std::task::Context::from_waker(&w));
            drop(f);
        }
        Ending::OtherThread => {
            let t = std::thread::spawn(move || {
                register_thread();
                drop(io);
                unregister_thread();
            });
            if let Err(e) = t.join() {
                std::panic::resume_unwind(e);
            }
        }
    }
    t.elapsed()
}
struct Nop;
impl std::task::Wake for Nop {
    fn wake(self: std::sync::Arc<Self>) {}
}
use std::future::Future;

/// Operations nobody waits for. Which of the typed keys are processed when (if at all) is open.
fn run_tail(d: &mut Driver, tail: &[Tail]) -> Result<usize, String> {
    // whatever the order, the live area must fit on the screen
    let tallest = |t: &Tail| match t {
        Tail::Op(Op::Status(Some(s)) | Op::Notice(s) | Op::Prompt(s, _, _)) => 1 + layout::live_rows(&build_model(s), d.m.w, None).rows.len(),
        _ => 0,
    };
    let (mut st, mut ot) = (0, 0);
    let mut typed = 0;
    for t in tail {
        match t {
            Tail::Op(Op::Status(_)) => st = st.max(tallest(t)),
            Tail::Type(k) => typed += k.len(),
            _ => ot = ot.max(tallest(t)),
        }
    }
    let most = d.m.live_height() + st + ot + typed * 2 / d.m.w + 4;
    let mut n = 0;
    let mut cooked = false;
    for t in tail {
        cooked |= matches!(t, Tail::Op(Op::Suspend(_)) | Tail::Slow(_));
        match t {
            Tail::Op(o) => {
                if most < d.m.h || !matches!(o, Op::Status(_) | Op::Notice(_) | Op::Prompt(..)) {
                    // (issue doesn't expect typed keys of unknown effects)
                    d.issue(o, true)?;
                    n += 1;
                }
            }
            Tail::Type(k) => {
                // (what is typed into a terminal which has its original settings is echoed)
                if most >= d.m.h || cooked {
                    continue;
                }
                let b: Vec<u8> = k.iter().flat_map(|k| if d.vt.is_some() { k.on_vt52().bytes() } else { k.bytes() }).collect();
                d.sess.type_bytes(&b)?;
                // (so that it isn't echoed once the terminal is in its original mode again)
                d.sess.flush_input();
                n += 1;
            }
            Tail::Slow(ms) => {
                d.with_out(|o| slow(o, *ms));
                n += 1;
            }
            Tail::Wait(us) => std::thread::sleep(Duration::from_micros(*us as u64)),
        }
    }
    Ok(n)
}
pub fn tty_end(base: &TtyCase, settle: bool, flip: u32, tail: &[Tail], end: &Ending, vt: Option<layout::Vt>) -> Result<(bool, Vec<String>), String> {
    // (what's typed without waiting may arrive when the terminal isn't raw anymore)
    let flip = if tail.iter().any(|t| matches!(t, Tail::Type(_))) { flip | libc::ECHO } else { flip };
    let cfg = SessCfg {
        w: if base.w == 0 { 80 } else { base.w },
        no_size: base.w == 0,
        h: base.h,
        term: Some(base.term.clone()),
        kind: if vt.is_some() { Kind::Vt52 } else { Kind::Ansi { bce: base.bce } },
        lflag_flip: flip,
        ..Default::default()
    };
    let unsynced = base.ops.is_empty() && !settle;
    let mut d = Driver::start(cfg, base.via, !unsynced, vt)?;
    d.strict_history = false;
    for o in &base.ops {
        d.op(o)?;
    }
    if settle {
        d.check("the operations before the end")?;
    } else if !base.ops.is_empty() {
        d.sess.sync()?;
    }
    d.collect()?;
    let mut labels = vec!["tty".to_string()];
    if unsynced {
        labels.push("right-after-new".into());
    }
    let n = run_tail(&mut d, tail)?;
    if n > 0 {
        labels.push("unsettled".into());
    }
    labels.push(format!("{end:?}").to_lowercase());
    step(format!("shutdown ({end:?})"));
    let io = d.io.take().unwrap();
    let took = end_it(io, end);
    d.sess.drain_now();
    step("after shutdown");
    if took > LIMIT {
        return Err(format!("SUSPECT:shutting down took {took:?}"));
    }
    if BUSY.load(Ordering::SeqCst) > 0 {
        return Err("a function passed to suspend_and_run was not run before the end".into());
    }
    if let Some(e) = d.inside.lock().unwrap().take() {
        return Err(e);
    }
    d.m.bells = d.sess.emu().bells;
    d.ended("after shutdown")?;
    let len = d.sess.emu().raw.len();
    d.sess.sync_dead()?;
    std::thread::sleep(Duration::from_millis(2));
    d.sess.sync_dead()?;
    let emu = d.sess.emu();
    if emu.raw.len() != len {
        return Err(format!("after shutdown, the terminal still received {:?}", String::from_utf8_lossy(&emu.raw[len..])));
    }
    d.ended("a while after shutdown")?;
    Ok((n > 0 || !base.ops.is_empty(), labels))
}
fn pipe_end(tty_in: bool, tty_out: bool, tail: &[Tail], end: &Ending) -> Result<(bool, Vec<String>), String> {
    let fd = |t| if t { Fd::Tty } else { Fd::Pipe };
    let sess = Session::new(SessCfg { w: 30, h: 30, term: Some(if tty_in && tty_out { "dumb" } else { "xterm" }.into()), stdin: fd(tty_in), stdout: fd(tty_out), lflag_flip: libc::ECHO, ..Default::default() })?;
    step("new");
    let io = InputOutput::new();
    let mut want = String::new();
    for t in tail {
        match t {
            Tail::Op(o) => {
                let mut p = |s: String| {
                    want.push_str(&s);
                    want.push('\n');
                };
                match o {
                    Op::Println(s) => {
                        io.println(build_real(s));
                        p(build_model(s).text())
                    }
                    Op::PrintStr(s) => {
                        io.println(s.as_str());
                        p(ML::from_str(s).text())
                    }
                    Op::Wrapln(s) => {
                        io.wrapln(build_real(s));
                        p(build_model(s).text())
                    }
                    Op::Status(s) => io.status(s.as_ref().map(|s| build_real(s))),
                    Op::Prompt(s, a, b) => io.prompt(build_real(s), *a, *b),
                    Op::Custom(n) => io.send_custom(*n),
                    _ => (),
                }
            }
            Tail::Type(k) => {
                let b: Vec<u8> = k.iter().filter(|k| matches!(k, Key::Ch(_) | Key::Enter)).flat_map(|k| k.bytes()).collect();
                sess.type_bytes(&b)?;
            }
            Tail::Slow(ms) => slow(&io, *ms),
            Tail::Wait(us) => std::thread::sleep(Duration::from_micros(*us as u64)),
        }
    }
    step(format!("shutdown ({end:?})"));
    let took = end_it(io, end);
    sess.drain_now();
    if took > LIMIT {
        return Err(format!("SUSPECT:in pipe mode, shutting down took {took:?}"));
    }
    if BUSY.load(Ordering::SeqCst) > 0 {
        return Err("a function passed to suspend_and_run was not run before the end".into());
    }
    for i in 0..2 {
        let got = if tty_out { sess.emu().raw } else { sess.out() };
        let want = if tty_out { want.replace('\n', "\r\n") } else { want.clone() };
        if got != want.as_bytes() {
            return Err(format!("in pipe mode, the output was {:?} {}, expected {want:?}", String::from_utf8_lossy(&got), ["when it was shut down", "a while after it was shut down"][i]));
        }
        if !termios_eq(&sess.termios(), &sess.orig) {
            return Err("in pipe mode, the terminal's settings were changed".into());
        }
        sess.sync_dead()?;
    }
    Ok((!tail.is_empty(), vec!["pipe-mode".into()]))
}

/// One read of some kind, which is expected to find something within 4 seconds.
fn read_some(io: &mut InputOutput, how: u8) -> Result<Response, String> {
    let t = Instant::now();
    let r = match how {
        0 => Some(io.read_blocking()),
        1 => io.read_timeout(LIMIT),
        2 => io.read_deadline(Instant::now() + LIMIT),
        3 => Some(tokio_rt().block_on(io.read_async())),
        _ => {
            let mut r = io.try_read();
            while r.is_none() && t.elapsed() < LIMIT {
                std::thread::sleep(Duration::from_micros(200));
                r = io.try_read();
            }
            r
        }
    };
    match r {
        Some(r) if t.elapsed() < LIMIT => Ok(r),
        _ => Err(format!("SUSPECT:nothing was received ({}) for 4 seconds after the terminal hung up", ["read_blocking", "read_timeout", "read_deadline", "read_async", "try_read"][how as usize])),
    }
}
pub fn life(c: &SCase) -> Result<(bool, Vec<String>), String> {
    match c {
        SCase::Tty { base, settle, flip, tail, end } => tty_end(base, *settle, *flip, tail, end, None),
        SCase::Pipe { tty_in, tty_out, tail, end } => pipe_end(*tty_in, *tty_out, tail, end),
        SCase::Hangup { pipe, ops, pending, lines, state, reads, tail } => hangup(*pipe, ops, pending, lines, state, reads, tail),
    }
}
fn hangup(pipe: bool, ops: &[Op], pending: &[u32], lines: &[String], state: &Hung, reads: &[u8], tail: &[Tail]) -> Result<(bool, Vec<String>), String> {
    let cfg = SessCfg { w: 20, h: 28, term: Some(if pipe { "dumb" } else { "xterm" }.into()), lflag_flip: if pipe { libc::ECHO } else { 0 }, ..Default::default() };
    let mut want: Vec<Resp> = vec![];
    let mut d = Driver::new(cfg, 1)?;
    d.strict_history = false;
    if pipe {
        d.screen = false;
    } else {
        for o in ops {
            d.op(o)?;
        }
        d.check("operations before hanging up")?;
        if !d.m.allowed || !d.m.input.is_empty() {
            d.issue(&Op::Prompt(vec![], true, true), false)?;
            d.sess.sync()?;
        }
    }
    // responses nobody has read yet
    for l in lines {
        let b = format!("{l}{}", if pipe { "\n" } else { "\r" });
        d.sess.type_bytes(b.as_bytes())?;
        d.sess.sync()?;
        want.push(Resp::Input(l.clone()));
    }
    for n in pending {
        d.io.as_ref().unwrap().send_custom(*n);
        want.push(Resp::Custom(*n));
    }
    d.sess.sync()?;
    let mut labels = vec![if pipe { "hangup-pipe-mode" } else { "hangup" }.to_string()];
    labels.push(format!("hangup-{state:?}").split('(').next().unwrap().to_lowercase());
    // unsettled operations
    for t in tail {
        if let Tail::Op(o @ (Op::Println(_) | Op::Status(_) | Op::Prompt(..) | Op::Notice(_))) = t {
            if !pipe {
                d.issue(o, true)?;
            }
        }
    }
    let mut io = d.io.take().unwrap();
    d.sess.paused.store(true, Ordering::SeqCst);
    std::thread::sleep(Duration::from_millis(2));
    let master = d.sess.master;
    drop(d.sess.side.lock().unwrap());
    step(format!("hanging up, {state:?}"));
    let hang_up = move || unsafe { libc::close(master) };
    let mut got: Vec<Resp> = vec![];
    let mut first = None;
    let mut printers = vec![];
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    match state {
        Hung::Idle => {
            hang_up();
        }
        Hung::Suspended(ms) => {
            slow(&io, ms + 3);
            std::thread::sleep(Duration::from_millis(2));
            hang_up();
        }
        Hung::Reading(how) => {
            while got.len() < want.len() {
                got.push(resp_of(read_some(&mut io, *how)?)?);
            }
            std::thread::spawn(move || {
                register_thread();
                std::thread::sleep(Duration::from_millis(10));
                hang_up();
            });
            first = Some(read_some(&mut io, *how)?);
        }
        Hung::Printing => {
            for _ in 0..2 {
                let o = io.clone_output();
                let stop = stop.clone();
                printers.push(std::thread::spawn(move || {
                    register_thread();
                    // (stops when the output does, by panicking)
                    while !stop.load(Ordering::SeqCst) {
                        if catch_unwind(AssertUnwindSafe(|| o.println("spam"))).is_err() {
                            break;
                        }
                        std::thread::sleep(Duration::from_micros(50));
                    }
                }));
            }
            std::thread::sleep(Duration::from_millis(3));
            hang_up();
        }
    }
    let mut hows = reads.iter().copied().chain([0, 1, 2, 3, 4].into_iter().cycle());
    let mut dead;
    loop {
        let r = match first.take() {
            Some(r) => r,
            None => read_some(&mut io, hows.next().unwrap())?,
        };
        let r = resp_of(r)?;
        if r == Resp::Dead {
            dead = 1;
            break;
        }
        got.push(r);
        if got.len() > want.len() + 3 {
            return Err(format!("after hanging up: responses are {got:?}, expected {want:?} and death"));
        }
    }
    if pipe && got.last() == Some(&Resp::Finish) {
        got.pop(); // the end of the input, too
    }
    if got != want {
        return Err(format!("after hanging up: responses before death are {got:?}, expected {want:?}"));
    }
    // how far do we read on? (the ninth must panic)
    let upto = reads.len().min(9);
    while dead < upto.min(8) {
        step(format!("reading after death ({dead})"));
        let how = hows.next().unwrap();
        match catch_unwind(AssertUnwindSafe(|| read_some(&mut io, how))) {
            Err(_) => return Err(format!("a program was told off after receiving only {dead} Dead responses")),
            Ok(r) => match resp_of(r?)? {
                Resp::Dead => dead += 1,
                r => return Err(format!("after Dead, {r:?} was received")),
            },
        }
    }
    if upto == 9 {
        let how = hows.next().unwrap();
        if let Ok(r) = catch_unwind(AssertUnwindSafe(|| read_some(&mut io, how))) {
            return Err(format!("the ninth read after death didn't panic, it returned {r:?}"));
        }
        labels.push("nine-reads".into());
    }
    step("dropping after death");
    stop.store(true, Ordering::SeqCst);
    let t = Instant::now();
    drop(io);
    if t.elapsed() > LIMIT {
        return Err("SUSPECT:dropping the InputOutput took more than 4 seconds after the terminal hung up".into());
    }
    for p in printers {
        let _ = p.join();
    }
    std::mem::forget(d);
    Ok((true, labels))
}
