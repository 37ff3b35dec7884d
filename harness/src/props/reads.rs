//! Every way of reading responses (C21).
use super::life::LIMIT;
use crate::engine::{Prop, Tier, Verdict};
use crate::lm::*;
use crate::pty::{self, *};
use crate::tty::*;
use liso::{InputOutput, Response};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::collections::VecDeque;
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

/// Custom payloads of several types
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pay {
    U32(u32),
    Str(String),
    Static(u8),
    Bytes(Vec<u8>),
    Pair(u8, String),
    Unit,
    Opt(Option<u16>),
    /// a box within a box
    Boxed(u32),
    Big(u8),
}
#[derive(PartialEq, Debug)]
struct Pair(u8, String);
const STATICS: &[&str] = &["", "static", "世"];
impl Pay {
    fn send(&self, o: &liso::Output, boxed: bool) {
        macro_rules! s {
            ($x:expr) => {
                if boxed {
                    o.send_custom_box(Box::new($x))
                } else {
                    o.send_custom($x)
                }
            };
        }
        match self {
            Pay::U32(x) => s!(*x),
            Pay::Str(x) => s!(x.clone()),
            Pay::Static(x) => s!(STATICS[*x as usize % 3]),
            Pay::Bytes(x) => s!(x.clone()),
            Pay::Pair(a, b) => s!(Pair(*a, b.clone())),
            Pay::Unit => s!(()),
            Pay::Opt(x) => s!(*x),
            Pay::Boxed(x) => {
                let b: Box<dyn Any + Send> = Box::new(*x);
                s!(b)
            }
            Pay::Big(x) => s!([*x; 3000]),
        }
    }
    fn is(&self, r: Box<dyn Any + Send>) -> bool {
        fn eq<T: PartialEq + 'static>(r: Box<dyn Any + Send>, x: T) -> bool {
            r.downcast::<T>().map(|r| *r == x).unwrap_or(false)
        }
        match self {
            Pay::U32(x) => eq(r, *x),
            Pay::Str(x) => eq(r, x.clone()),
            Pay::Static(x) => eq(r, STATICS[*x as usize % 3]),
            Pay::Bytes(x) => eq(r, x.clone()),
            Pay::Pair(a, b) => eq(r, Pair(*a, b.clone())),
            Pay::Unit => eq(r, ()),
            Pay::Opt(x) => eq(r, *x),
            Pay::Boxed(x) => match r.downcast::<Box<dyn Any + Send>>() {
                Ok(b) => eq(*b, *x),
                Err(_) => false,
            },
            Pay::Big(x) => eq(r, [*x; 3000]),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Exp {
    Pay(Pay),
    Resp(Resp),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Blocking,
    Timeout(u16),
    TimeoutLong,
    Deadline(u16),
    /// a deadline which has already passed
    DeadlinePast,
    Async,
    Try,
    /// an asynchronous read, cancelled after polling it once
    Cancelled,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum RStep {
    Send(Vec<(Pay, bool)>, u8),
    Line(String),
    /// a key with a response of its own
    Key(u8),
    Sync,
    Read(How),
    /// something is sent by another thread, after this many microseconds, while we are reading
    During(How, Pay, u16),
    /// an asynchronous read is polled, something is sent, and it's cancelled
    CancelAfter(Vec<Pay>),
    /// some threads send this many each, while we read in these ways
    Burst(u8, u8, Vec<How>),
    Print,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RCase {
    pub pipe: bool,
    pub steps: Vec<RStep>,
    pub end: u8,
}
pub struct Reading;
fn pay() -> BoxedStrategy<Pay> {
    prop_oneof![
        4 => any::<u32>().prop_map(Pay::U32),
        1 => text_of(vis_char(), 8).prop_map(Pay::Str),
        1 => any::<u8>().prop_map(Pay::Static),
        1 => proptest::collection::vec(any::<u8>(), 0..20).prop_map(Pay::Bytes),
        1 => (any::<u8>(), text_of(vis_char(), 4)).prop_map(|(a, b)| Pay::Pair(a, b)),
        1 => Just(Pay::Unit),
        1 => proptest::option::of(any::<u16>()).prop_map(Pay::Opt),
        1 => any::<u32>().prop_map(Pay::Boxed),
        1 => any::<u8>().prop_map(Pay::Big),
    ]
    .boxed()
}
fn how() -> BoxedStrategy<How> {
    prop_oneof![
        2 => Just(How::Blocking),
        2 => (0u16..4000).prop_map(How::Timeout),
        1 => Just(How::Timeout(0)),
        1 => Just(How::TimeoutLong),
        2 => (0u16..4000).prop_map(How::Deadline),
        1 => Just(How::DeadlinePast),
        2 => Just(How::Async),
        3 => Just(How::Try),
        2 => Just(How::Cancelled),
    ]
    .boxed()
}
impl Prop for Reading {
    type Case = RCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "at least two responses were received and at least two ways of reading used"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<RCase> {
        let step = prop_oneof![
            24 => (proptest::collection::vec((pay(), any::<bool>()), 1..5), 0u8..3).prop_map(|(a, b)| RStep::Send(a, b)),
            // many at once
            1 => (proptest::collection::vec((pay(), any::<bool>()), 1..5), 0u8..3, 20usize..600).prop_map(|(a, b, n)| RStep::Send(a.into_iter().cycle().take(n).collect(), b)),
            12 => text_of(solid_char(), 8).prop_map(RStep::Line),
            8 => select(vec![3u8, 4, 7, 20, 24, 28, 0, 15, 31]).prop_map(RStep::Key),
            8 => Just(RStep::Sync),
            48 => how().prop_map(RStep::Read),
            12 => (how(), pay(), 0u16..3000).prop_map(|(a, b, c)| RStep::During(a, b, c)),
            8 => proptest::collection::vec(pay(), 0..3).prop_map(RStep::CancelAfter),
            4 => (1u8..4, prop_oneof![9 => 1u8..40, 1 => 40u8..=255], proptest::collection::vec(how(), 1..6)).prop_map(|(a, b, c)| RStep::Burst(a, b, c)),
            4 => Just(RStep::Print),
        ];
        (prop::bool::weighted(0.25), proptest::collection::vec(step, 1..24), 0u8..3).prop_map(|(pipe, steps, end)| RCase { pipe, steps, end }).boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(10000, 160000)
    }
    fn exec(&self, c: &RCase) -> Verdict {
        pty::run_child("C21", c)
    }
    fn child(&self, c: &RCase) -> Result<(bool, Vec<String>), String> {
        run(c)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["The order of keys and messages sent by threads is only judged where one was complete before the other".into(), "A read counts as overdue after 4 seconds, and try_read as waiting after a quarter of a second, twice in three attempts".into()]
    }
}
struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
struct R {
    sess: Session,
    io: Option<InputOutput>,
    clone: liso::OutputOnly,
    q: VecDeque<Exp>,
    /// how many of those have certainly arrived
    arrived: usize,
    received: usize,
    ways: std::collections::BTreeSet<&'static str>,
}
impl R {
    fn sync(&mut self) -> Result<(), String> {
        self.sess.sync()?;
        self.arrived = self.q.len();
        Ok(())
    }
    /// (what came, how long it took)
    #[allow(deprecated)]
    fn read(&mut self, how: How) -> Result<Option<Response>, String> {
        let io = self.io.as_mut().unwrap();
        let t = Instant::now();
        let us = |x: u16| Duration::from_micros(x as u64);
        let (r, least, name) = match how {
            // (the old names still work)
            How::Blocking if self.received % 5 == 4 => (Some(io.blocking_read()), None, "blocking_read"),
            How::Async if self.received % 5 == 4 => (Some(tokio_rt().block_on(io.read())), None, "read"),
            How::Blocking => (Some(io.read_blocking()), None, "read_blocking"),
            How::Async => (Some(tokio_rt().block_on(io.read_async())), None, "read_async"),
            How::Timeout(x) => (io.read_timeout(us(x)), Some(us(x)), "read_timeout"),
            How::TimeoutLong => (io.read_timeout(Duration::MAX), None, "read_timeout (endless)"),
            How::Deadline(x) => (io.read_deadline(t + us(x)), Some(us(x)), "read_deadline"),
            How::DeadlinePast => (io.read_deadline(t.checked_sub(Duration::from_millis(50)).unwrap_or(t)), Some(Duration::ZERO), "read_deadline (passed)"),
            How::Try => (io.try_read(), Some(Duration::ZERO), "try_read"),
            How::Cancelled => {
                let w = Waker::from(Arc::new(Nop));
                let mut f = Box::pin(io.read_async());
                let r = match f.as_mut().poll(&mut Context::from_waker(&w)) {
                    Poll::Ready(x) => Some(x),
                    Poll::Pending => None,
                };
                (r, Some(Duration::ZERO), "read_async (cancelled)")
            }
        };
        let took = t.elapsed();
        self.ways.insert(name);
        if matches!(how, How::Try) && took > Duration::from_millis(250) {
            return Err(format!("SUSPECT:try_read took {took:?}"));
        }
        match (&r, least) {
            (None, None) => return Err(format!("{name} returned nothing")),
            (None, Some(l)) if took < l => return Err(format!("{name} returned nothing after {took:?}, although its time was {l:?}")),
            (_, l) if took > LIMIT + l.unwrap_or_default() => return Err(format!("SUSPECT:{name} took {took:?}")),
            _ => (),
        }
        Ok(r)
    }
    fn judge(&mut self, r: Option<Response>, how: How) -> Result<(), String> {
        match r {
            None => {
                if self.arrived > 0 {
                    return Err(format!("{how:?} returned nothing although {:?} was available", self.q[0]));
                }
            }
            Some(r) => {
                let Some(want) = self.q.pop_front() else {
                    return Err(format!("{how:?} returned {r:?} although nothing more was sent"));
                };
                self.arrived = self.arrived.saturating_sub(1);
                self.received += 1;
                let text = format!("{r:?}");
                let ok = match (&want, r) {
                    (Exp::Pay(p), Response::Custom(b)) => p.is(b),
                    (Exp::Resp(w), r) if !matches!(r, Response::Custom(_)) => resp_of(r)? == *w,
                    _ => false,
                };
                if !ok {
                    return Err(format!("{how:?} returned {text}, expected {want:?} (still to come: {:?})", self.q.iter().take(4).collect::<Vec<_>>()));
                }
            }
        }
        Ok(())
    }
}
fn run(c: &RCase) -> Result<(bool, Vec<String>), String> {
    let cfg = if c.pipe { SessCfg { stdin: Fd::Pipe, stdout: Fd::Pipe, ..Default::default() } } else { SessCfg::default() };
    let sess = Session::new(cfg)?;
    let io = InputOutput::new();
    let clone = io.clone_output();
    let mut r = R { sess, io: Some(io), clone, q: VecDeque::new(), arrived: 0, received: 0, ways: Default::default() };
    r.sync()?;
    let mut labels = std::collections::BTreeSet::new();
    labels.insert(if c.pipe { "pipe" } else { "tty" });
    for s in &c.steps {
        step(format!("{s:?}").chars().take(200).collect::<String>());
        match s {
            RStep::Send(v, via) => {
                for (p, boxed) in v {
                    match via {
                        0 => p.send(r.io.as_ref().unwrap(), *boxed),
                        1 => p.send(&r.clone, *boxed),
                        _ => p.send(&liso::output(), *boxed),
                    }
                    r.q.push_back(Exp::Pay(p.clone()));
                }
            }
            RStep::Line(l) => {
                r.sync()?;
                r.sess.type_bytes(format!("{l}{}", if c.pipe { "\n" } else { "\r" }).as_bytes())?;
                r.q.push_back(Exp::Resp(Resp::Input(l.clone())));
                r.sync()?;
            }
            RStep::Key(k) => {
                if c.pipe {
                    continue;
                }
                r.sync()?;
                r.sess.type_bytes(&[*k])?;
                r.q.push_back(Exp::Resp(match k {
                    3 => Resp::Quit,
                    4 => Resp::Finish,
                    7 => Resp::Discarded(String::new()),
                    20 => Resp::Info,
                    24 => Resp::Swap,
                    28 => Resp::Break,
                    k => Resp::Unknown(*k),
                }));
                r.sync()?;
            }
            RStep::Sync => r.sync()?,
            RStep::Print => r.clone.println("something else"),
            RStep::Read(h) => {
                if r.q.is_empty() {
                    if matches!(h, How::Blocking | How::Async | How::TimeoutLong) {
                        continue; // would never return
                    }
                    r.sync()?;
                }
                let x = r.read(*h)?;
                r.judge(x, *h)?;
            }
            RStep::During(h, p, us) => {
                r.sync()?;
                let o = r.io.as_ref().unwrap().clone_output();
                let (p2, us) = (p.clone(), *us);
                let t = std::thread::spawn(move || {
                    register_thread();
                    std::thread::sleep(Duration::from_micros(us as u64));
                    p2.send(&o, us % 2 == 0);
                    unregister_thread();
                });
                r.q.push_back(Exp::Pay(p.clone()));
                let x = r.read(*h)?;
                labels.insert(if x.is_some() { "waited" } else { "timed-out" });
                r.judge(x, *h)?;
                t.join().map_err(|_| "sending a custom message panicked")?;
            }
            RStep::CancelAfter(v) => {
                r.sync()?;
                let o = r.clone.clone();
                let fl = Arc::new(Flag(AtomicBool::new(false)));
                let w = Waker::from(fl.clone());
                let io = r.io.as_mut().unwrap();
                let mut f = Box::pin(io.read_async());
                let x = match f.as_mut().poll(&mut Context::from_waker(&w)) {
                    Poll::Ready(x) => Some(x),
                    Poll::Pending => None,
                };
                for p in v {
                    p.send(&o, false);
                }
                if !v.is_empty() && x.is_none() {
                    labels.insert("cancelled-late");
                    // someone must be told
                    let t = Instant::now();
                    while !fl.0.load(Ordering::SeqCst) {
                        if t.elapsed() > LIMIT {
                            return Err("SUSPECT:a waiting read_async was not woken".into());
                        }
                        std::thread::sleep(Duration::from_micros(50));
                    }
                }
                drop(f);
                r.judge(x, How::Async)?;
                r.q.extend(v.iter().cloned().map(Exp::Pay));
            }
            RStep::Burst(threads, each, hows) => {
                // finish what is under way
                r.sync()?;
                while !r.q.is_empty() {
                    let x = r.read(How::Try)?;
                    r.judge(x, How::Try)?;
                }
                labels.insert("burst");
                let mut ts = vec![];
                for t in 0..*threads {
                    let o = r.clone.clone();
                    let each = *each;
                    ts.push(std::thread::spawn(move || {
                        register_thread();
                        for i in 0..each {
                            o.send_custom((t, i));
                            if i % 7 == 3 {
                                std::thread::sleep(Duration::from_micros(40));
                            }
                        }
                        unregister_thread();
                    }));
                }
                let mut next = vec![0u8; *threads as usize];
                let total = *threads as usize * *each as usize;
                let mut n = 0;
                let t0 = Instant::now();
                for h in hows.iter().cycle() {
                    if n == total {
                        break;
                    }
                    if t0.elapsed() > LIMIT {
                        return Err(format!("SUSPECT:only {n} of {total} messages arrived within 4 seconds"));
                    }
                    let h = match h {
                        How::Timeout(x) => How::Timeout(x % 300),
                        How::Deadline(x) => How::Deadline(x % 300),
                        h => *h,
                    };
                    match r.read(h)? {
                        None => (),
                        Some(Response::Custom(b)) => {
                            let Ok(b) = b.downcast::<(u8, u8)>() else { return Err("a custom message changed its type".into()) };
                            let (t, i) = *b;
                            if next.get(t as usize) != Some(&i) {
                                return Err(format!("thread {t}'s message {i} was received where {:?} was due", next.get(t as usize)));
                            }
                            next[t as usize] += 1;
                            n += 1;
                            r.received += 1;
                        }
                        Some(x) => return Err(format!("{x:?} was received during a burst of custom messages")),
                    }
                }
                for t in ts {
                    t.join().map_err(|_| "sending a custom message panicked")?;
                }
            }
        }
    }
    r.sync()?;
    while !r.q.is_empty() {
        let x = r.read(How::Try)?;
        r.judge(x, How::Try)?;
    }
    let x = r.read(How::Try)?;
    r.judge(x, How::Try)?;
    step("shutdown");
    let io = r.io.take().unwrap();
    match c.end {
        0 => drop(io),
        1 => io.blocking_die(),
        _ => tokio_rt().block_on(io.die()),
    }
    let mut l: Vec<String> = labels.into_iter().map(|s| s.to_string()).collect();
    l.extend(r.ways.iter().map(|s| s.to_string()));
    Ok((r.received >= 2 && r.ways.len() >= 2, l))
}
