//! Captured stderr (C23). Needs the harness to be built with the `capture` feature.
use super::conc::{header, item, meanwhile, owner, transcript, Item, Mw};
use super::life::{end_it, ending, slow, Ending, LIMIT};
use super::term::*;
use crate::emu::{Emu, Kind, Row};
use crate::engine::{Prop, Tier, Verdict};
use crate::lm::*;
use crate::pty::{self, *};
use crate::tty::*;
use liso::{InputOutput, OutputOnly};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::os::fd::RawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// A captured line as it is shown
pub fn decorated(text: &str) -> LSpec {
    vec![LOp::Fg(Some(1)), LOp::Set(BOLD), LOp::Text("E: ".into()), LOp::Deactivate(BOLD), LOp::Text(text.into())]
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Piece {
    Text(String),
    Bytes(Vec<u8>),
    /// this many letters
    Run(u16),
    Nl,
    CrLf,
    /// this many short lines (longer ones if there are many)
    Many(u16),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Op(Op),
    /// bytes written to stderr in chunks, which end at these positions (modulo the length).
    /// way: 0 write(2), 1 std::io::stderr(), 2 a child process, 3 another thread, 4 eprint
    Err { pieces: Vec<Piece>, cuts: Vec<u16>, way: u8 },
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Where {
    /// stderr is the terminal
    Tty,
    /// stderr is another terminal
    Other,
    /// stderr is a file
    File,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Session1 {
    pub steps: Vec<Step>,
    /// a complete line is written just before the end
    pub late: Option<u16>,
    /// a child process which inherited stderr is still there at the end
    pub holder: bool,
    /// the last line may remain incomplete
    pub partial: bool,
    pub end: Ending,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ECase {
    /// what's shown is compared after every step
    Exact { w: usize, h: usize, bce: bool, stderr: Where, via: u8, cycles: Vec<Session1> },
    /// threads printing and writing to stderr at the same time
    Threads { w: usize, h: usize, bce: bool, threads: Vec<Vec<Item>>, main: Vec<Mw>, linger: bool, opener: bool, holder: bool, eprint: bool, cycles: u8, end: Ending },
    /// another one is created at the very moment it's possible, while the history's
    /// autosave handler takes a while
    Handover { ms: u8, lines: Vec<u8>, cycles: u8, end: Ending },
    /// pipe mode: stderr is left alone although it's a terminal
    Pipe { tty_in: bool, tty_out: bool, dumb: bool, lines: Vec<(bool, u8)>, end: Ending },
}
pub struct Captured;

fn piece() -> BoxedStrategy<Piece> {
    let c = prop_oneof![
        6 => proptest::char::range(' ', '~'),
        3 => out_char(),
        1 => proptest::char::range('\0', '\x09'),
        1 => proptest::char::range('\x0e', '\x1f'),
        1 => proptest::char::range('\u{7f}', '\u{9f}'),
    ]
    .prop_filter("newlines are apart", |c| *c != '\n' && *c != '\r')
    .boxed();
    prop_oneof![
        8 => text_of(c, 12).prop_map(Piece::Text),
        2 => proptest::collection::vec(any::<u8>().prop_map(|x| if x == 13 { 255 } else { x }), 0..6).prop_map(Piece::Bytes),
        1 => Just(Piece::Bytes(b"\rx".to_vec())),
        1 => prop_oneof![40 => 0u16..300, 1 => 1000u16..20000].prop_map(Piece::Run),
        1 => (0usize..8, 0u16..5).prop_map(|(a, b)| Piece::Run((a as u16 + 1) * 128 - 6 + b * 2)),
        6 => Just(Piece::Nl),
        1 => Just(Piece::CrLf),
        1 => prop_oneof![60 => 0u16..40, 1 => 2200u16..2600].prop_map(Piece::Many),
    ]
    .boxed()
}
fn bytes_of(p: &[Piece]) -> Vec<u8> {
    let mut v = vec![];
    for p in p {
        match p {
            Piece::Text(t) => v.extend_from_slice(t.as_bytes()),
            Piece::Bytes(b) => v.extend_from_slice(b),
            Piece::Run(n) => v.extend((0..*n).map(|i| b'a' + (i % 26) as u8)),
            Piece::Nl => v.push(b'\n'),
            Piece::CrLf => v.extend_from_slice(b"\r\n"),
            Piece::Many(n) => {
                for i in 0..*n {
                    let line = if *n < 1000 { format!("{i}\n") } else { format!("{i:030}\n") };
                    v.extend_from_slice(line.as_bytes());
                }
            }
        }
    }
    v
}
fn estep(w: usize) -> BoxedStrategy<Vec<Step>> {
    const MIX: Mix = Mix { print: 3, wrap: 1, echo: 1, status: 2, prompt: 3, notice: 1, bell: 1, custom: 1, keys: 6, suspend: 1, hold: 1, kmax: 6, ..NOTHING };
    let e = (
        proptest::collection::vec(piece(), 0..10),
        proptest::collection::vec(any::<u16>(), 0..5),
        prop_oneof![20 => 0u8..2, 1 => Just(2u8), 6 => 3u8..5],
    )
        .prop_map(|(pieces, cuts, way)| vec![Step::Err { pieces, cuts, way }]);
    let o = ops(MIX, w, 2).prop_map(|o| o.into_iter().map(Step::Op).collect::<Vec<_>>());
    proptest::collection::vec(prop_oneof![3 => e, 2 => o], 0..8).prop_map(|v| v.concat()).boxed()
}
fn session(w: usize) -> BoxedStrategy<Session1> {
    (
        estep(w),
        proptest::option::weighted(0.4, 0u16..300),
        prop::bool::weighted(0.05),
        prop::bool::weighted(0.1),
        ending(),
    )
        .prop_map(|(steps, late, holder, partial, end)| Session1 { steps, late, holder, partial, end })
        .boxed()
}
fn conc_case(t: Tier) -> BoxedStrategy<ECase> {
    let how = || prop_oneof![6 => Just(8u8), 2 => Just(0u8), 1 => 0u8..8].boxed();
    (
        (12usize..50, 20usize..40, any::<bool>()),
        proptest::collection::vec(proptest::collection::vec(item(how()), 0..t.pick(12, 40) as usize), 0..4),
        proptest::collection::vec(meanwhile(how()), 0..8),
        (prop::bool::weighted(0.3), prop::bool::weighted(0.3), prop::bool::weighted(0.04), any::<bool>(), 1u8..4),
        ending(),
    )
        .prop_map(|((w, h, bce), threads, main, (linger, opener, holder, eprint, cycles), end)| ECase::Threads { w, h, bce, threads, main, linger, opener, holder, eprint, cycles: if linger { 1 } else { cycles }, end })
        .boxed()
}
impl Prop for Captured {
    type Case = ECase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "at least one complete line was written to stderr while Liso was active"
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<ECase> {
        let exact = (8usize..40, 24usize..32, any::<bool>(), prop_oneof![6 => Just(Where::Tty), 1 => Just(Where::Other), 1 => Just(Where::File)], 0u8..3).prop_flat_map(|(w, h, bce, stderr, via)| {
            proptest::collection::vec(session(w), 1..4).prop_map(move |cycles| ECase::Exact { w, h, bce, stderr, via, cycles })
        });
        prop_oneof![
            12 => exact,
            8 => conc_case(t),
            1 => (0u8..6, proptest::collection::vec(0u8..80, 1..4), 2u8..5, ending()).prop_map(|(ms, lines, cycles, end)| ECase::Handover { ms, lines, cycles, end }),
            1 => (any::<bool>(), any::<bool>(), any::<bool>(), proptest::collection::vec((any::<bool>(), 0u8..40), 1..8), ending())
                .prop_map(|(tty_in, tty_out, dumb, lines, end)| ECase::Pipe { tty_in, tty_out, dumb, lines, end }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(14000, 180000)
    }
    fn valid(&self, c: &ECase) -> bool {
        match c {
            ECase::Exact { cycles, .. } => cycles.iter().all(|c| {
                let o: Vec<Op> = c.steps.iter().filter_map(|s| if let Step::Op(o) = s { Some(o.clone()) } else { None }).collect();
                valid_ops(&o)
            }),
            ECase::Threads { linger, cycles, .. } => *cycles == 1 || (!linger && *cycles > 0),
            _ => true,
        }
    }
    fn exec(&self, c: &ECase) -> Verdict {
        if !cfg!(feature = "capture") {
            return Verdict::Error("the harness was built without the capture feature".into());
        }
        pty::run_child("C23", c)
    }
    fn child(&self, c: &ECase) -> Result<(bool, Vec<String>), String> {
        hook();
        match c {
            ECase::Exact { w, h, bce, stderr, via, cycles } => exact(*w, *h, *bce, *stderr, *via, cycles),
            ECase::Threads { .. } => threads(c),
            ECase::Handover { ms, lines, cycles, end } => handover(*ms, lines, *cycles, end),
            ECase::Pipe { tty_in, tty_out, dumb, lines, end } => piped(*tty_in, *tty_out, *dumb, lines, end),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = tty_assumptions();
        v.push("Captured lines are decorated with a bold \"E: \" and red; a carriage return before the newline belongs to the line's ending".into());
        v.push("What happens to an incomplete last line, other than that it's not lost, is open; so are lines written while suspended".into());
        v
    }
}
/// Panics of threads other than ours are noted elsewhere than on stderr
fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if is_registered() {
            return;
        }
        let s = format!("\nthread '?' panicked at {i}\n");
        unsafe { libc::write(ERR_FD.load(Ordering::SeqCst), s.as_ptr() as *const _, s.len()) };
    }));
}
fn write2(mut b: &[u8]) -> Result<(), String> {
    while !b.is_empty() {
        let n = unsafe { libc::write(2, b.as_ptr() as *const _, b.len()) };
        if n < 0 {
            let e = std::io::Error::last_os_error();
            if e.kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return Err(format!("writing to stderr failed: {e}"));
        }
        b = &b[n as usize..];
    }
    Ok(())
}
fn fd_id(fd: RawFd) -> (u64, u64, u64) {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 {
            return (0, 0, 0);
        }
        (st.st_dev as u64, st.st_ino as u64, st.st_rdev as u64)
    }
}
fn open_fds() -> Vec<(RawFd, String)> {
    let mut v: Vec<(RawFd, String)> = vec![];
    for e in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
        if let Some(n) = e.file_name().to_str().and_then(|x| x.parse().ok()) {
            let to = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
            // (the directory itself)
            if !to.starts_with("/proc/") {
                v.push((n, to));
            }
        }
    }
    v.sort();
    v
}
fn holder() -> Result<Child, String> {
    Command::new("/bin/cat").stdin(Stdio::piped()).stdout(Stdio::null()).spawn().map_err(|e| format!("HARNESS: {e}"))
}
fn write_way(way: u8, data: &[u8], cuts: &[u16]) -> Result<(), String> {
    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (data.len() + 1)).collect();
    at.push(data.len());
    at.sort();
    let mut chunks = vec![];
    let mut from = 0;
    for a in at {
        chunks.push(data[from..a].to_vec());
        from = a;
    }
    let io = |e: std::io::Error| format!("writing to stderr failed: {e}");
    match way {
        0 => {
            for c in &chunks {
                write2(c)?;
            }
        }
        1 => {
            let mut e = std::io::stderr();
            for c in &chunks {
                e.write_all(c).map_err(io)?;
            }
            e.flush().map_err(io)?;
        }
        2 => {
            // (a shell would do, but this is simpler)
            let mut c = Command::new("/bin/cat").arg("/dev/fd/0").stdin(Stdio::piped()).stdout(unsafe { <Stdio as std::os::fd::FromRawFd>::from_raw_fd(libc::dup(2)) }).spawn().map_err(|e| format!("HARNESS: {e}"))?;
            let mut si = c.stdin.take().unwrap();
            for x in &chunks {
                si.write_all(x).map_err(|e| format!("HARNESS: {e}"))?;
            }
            drop(si);
            c.wait().map_err(|e| format!("HARNESS: {e}"))?;
        }
        3 => {
            let t = std::thread::spawn(move || {
                register_thread();
                let r = chunks.iter().try_for_each(|c| write2(c));
                unregister_thread();
                r
            });
            t.join().map_err(|_| "HARNESS: thread")??;
        }
        _ => {
            // (text only)
            match std::str::from_utf8(data) {
                Ok(s) => eprint!("{s}"),
                Err(_) => write2(data)?,
            }
        }
    }
    Ok(())
}
struct Sink {
    stderr: Where,
    other: RawFd,
    file: Vec<u8>,
    partial: Vec<u8>,
    lines: usize,
}
impl Sink {
    /// Bytes have been written to stderr while Liso is active
    fn wrote(&mut self, m: &mut Model, b: &[u8]) {
        if self.stderr == Where::File {
            self.file.extend_from_slice(b);
            self.lines += b.iter().filter(|x| **x == b'\n').count();
            return;
        }
        for c in b {
            if *c == b'\n' {
                let mut l = std::mem::take(&mut self.partial);
                if l.last() == Some(&b'\r') {
                    l.pop();
                }
                m.print(&build_model(&decorated(&String::from_utf8_lossy(&l))));
                self.lines += 1;
            } else {
                self.partial.push(*c);
            }
        }
    }
    /// what the other terminal has received, once it's enough (or after a while)
    fn read_other(&self, enough: &dyn Fn(&[u8]) -> bool) -> String {
        let mut v = vec![];
        let t = std::time::Instant::now();
        while self.other >= 0 && !enough(&v) && t.elapsed() < std::time::Duration::from_secs(1) {
            let mut b = [0u8; 4096];
            let n = unsafe { libc::read(self.other, b.as_mut_ptr() as *mut _, b.len()) };
            v.extend_from_slice(&b[..n.max(0) as usize]);
            if n <= 0 {
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
        }
        String::from_utf8_lossy(&v).to_string()
    }
    /// ... what's on the other side
    fn check(&self) -> Result<(), String> {
        match self.stderr {
            Where::Tty => (),
            Where::Other => {
                let mut b = [0u8; 4096];
                let n = unsafe { libc::read(self.other, b.as_mut_ptr() as *mut _, b.len()) };
                if n > 0 {
                    return Err(format!("captured stderr was written to the terminal: {:?}", String::from_utf8_lossy(&b[..n as usize])));
                }
            }
            Where::File => {
                let mut b = vec![0u8; self.file.len() + 100];
                let n = unsafe { libc::pread(ERR_FD.load(Ordering::SeqCst), b.as_mut_ptr() as *mut _, b.len(), 0) };
                if b[..n.max(0) as usize] != self.file[..] {
                    return Err("stderr isn't a terminal, but what was written to it isn't there (or something else is)".into());
                }
            }
        }
        Ok(())
    }
}
fn exact(w: usize, h: usize, bce: bool, stderr: Where, via: u8, cycles: &[Session1]) -> Result<(bool, Vec<String>), String> {
    let cfg = SessCfg { w, h, kind: Kind::Ansi { bce }, stderr_tty: stderr == Where::Tty, ..Default::default() };
    let mut sink = Sink { stderr, other: -1, file: vec![], partial: vec![], lines: 0 };
    if stderr == Where::Other {
        unsafe {
            let (mut m, mut s) = (0, 0);
            if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) != 0 {
                return Err("HARNESS: openpty".into());
            }
            libc::dup2(s, 2);
            let hi = libc::fcntl(m, libc::F_DUPFD_CLOEXEC, 110);
            libc::close(m);
            libc::close(s);
            libc::fcntl(hi, libc::F_SETFL, libc::O_NONBLOCK);
            sink.other = hi;
        }
    }
    let mut labels = std::collections::BTreeSet::new();
    labels.insert(format!("stderr-{stderr:?}").to_lowercase());
    let mut d: Option<Driver> = None;
    let mut fds = vec![];
    let mut id = (0, 0, 0);
    for (n, c) in cycles.iter().enumerate() {
        let mut d = match d.as_mut() {
            Some(x) => {
                x.restart()?;
                x
            }
            None => {
                id = fd_id(2);
                d = Some(Driver::start(cfg.clone(), via, true, None)?);
                if stderr == Where::Tty {
                    id = fd_id(d.as_ref().unwrap().sess.slave);
                }
                d.as_mut().unwrap()
            }
        };
        if n == 1 {
            labels.insert("again".into());
        }
        for s in &c.steps {
            match s {
                Step::Op(o) => d.op(o)?,
                Step::Err { pieces, cuts, way } => {
                    let b = bytes_of(pieces);
                    step(format!("writing {} bytes to stderr", b.len()));
                    // (order is only defined among writes to stderr)
                    d.sync()?;
                    write_way(*way, &b, cuts)?;
                    sink.wrote(&mut d.m, &b);
                    d.check(&format!("writing to stderr: {:?}", String::from_utf8_lossy(&b).chars().take(100).collect::<String>()))?;
                    sink.check()?;
                }
            }
        }
        if !(c.partial && sink.partial.iter().all(|x| (b' '..b'~').contains(x))) && !sink.partial.is_empty() {
            d.sync()?;
            write2(b"\n")?;
            sink.wrote(&mut d.m, b"\n");
        }
        d.check("the last operation")?;
        let mut hold = None;
        if c.holder {
            step("starting a process");
            hold = Some(holder()?);
            labels.insert("child-process-at-the-end".into());
        }
        if let Some(n) = c.late.filter(|_| sink.partial.is_empty()) {
            let mut b = bytes_of(&[Piece::Run(n)]);
            b.push(b'\n');
            step("writing to stderr just before the end");
            write2(&b)?;
            sink.wrote(&mut d.m, &b);
            d.note_height();
            labels.insert("line-just-before-the-end".into());
        }
        step(format!("the end ({:?})", c.end));
        let live = d.m.live_height();
        let took = end_it(d.io.take().unwrap(), &c.end);
        if took > LIMIT {
            return Err(format!("SUSPECT:shutting down took {took:?}"));
        }
        if fd_id(2) != id {
            return Err("after the end, stderr isn't what it was before".into());
        }
        step("after the end");
        let partial = std::mem::take(&mut sink.partial);
        d.sess.sync_panicky()?;
        if let Some(p) = panic_seen().filter(|_| stderr != Where::File || !sink.file.windows(11).any(|w| w == b"panicked at")) {
            return Err(format!("a thread panicked: {p}"));
        }
        if !partial.is_empty() {
            labels.insert("incomplete-line-at-the-end".into());
            let t = String::from_utf8_lossy(&partial).to_string();
            let emu = d.sess.emu();
            let rows: String = emu.scrollback.iter().chain(emu.rows.iter()).skip(d.m.prefix.len() + d.m.printed.len()).map(|r| Emu::row_text(r)).collect();
            let there = |x: &str| x.split_whitespace().collect::<String>().contains(&t.split_whitespace().collect::<String>());
            if !there(&rows) && !there(&sink.read_other(&|b| there(&String::from_utf8_lossy(b)))) {
                return Err(format!("{t:?}, written to stderr without a newline, is lost"));
            }
            // (where exactly is open)
            if emu.cx != 0 {
                unsafe { libc::write(d.sess.slave, b"\n".as_ptr() as *const _, 1) };
            }
            d.sess.sync_panicky()?;
            let emu = d.sess.emu();
            let upto = emu.cy + emu.scrollback.len();
            d.m.prefix = emu.scrollback.iter().chain(emu.rows.iter()).take(upto).cloned().collect();
            d.m.printed.clear();
            // (it may have been printed above what was still shown)
            d.peak = d.peak.max(upto + live);
        }
        d.ended("after shutdown")?;
        sink.check()?;
        // stderr is itself again
        write2(b"(after)\n")?;
        d.sess.sync_panicky()?;
        match stderr {
            Where::Tty => d.m.print(&ML::from_str("(after)")),
            Where::File => sink.file.extend_from_slice(b"(after)\n"),
            Where::Other => {
                let s = sink.read_other(&|b| b.ends_with(b"\n"));
                if s != "(after)\r\n" {
                    return Err(format!("after the end, what was written to stderr didn't reach it (but {s:?})"));
                }
            }
        }
        d.ended("after writing to stderr after shutdown")?;
        sink.check()?;
        if let Some(mut c) = hold {
            let _ = c.kill();
            let _ = c.wait();
        }
        // nothing remains
        let t = std::time::Instant::now();
        loop {
            let threads = foreign_threads();
            let now = open_fds();
            if n == 0 && threads.is_empty() {
                fds = now.clone();
            }
            let same = now.iter().map(|x| x.0).collect::<Vec<_>>() == fds.iter().map(|x: &(i32, String)| x.0).collect::<Vec<_>>();
            if threads.is_empty() && same {
                break;
            }
            if t.elapsed() > Duration::from_secs(3) {
                return Err(format!("after the end, there is still something: threads {threads:?}, file descriptors {now:?} (were {fds:?} after the first time)"));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    Ok((sink.lines > 0, labels.into_iter().collect()))
}

fn threads(c: &ECase) -> Result<(bool, Vec<String>), String> {
    let ECase::Threads { w, h, bce, threads, main, linger, opener, holder: hold, eprint, cycles, end } = c else { unreachable!() };
    let cfg = SessCfg { w: *w, h: *h, kind: Kind::Ansi { bce: *bce }, stderr_tty: true, lflag_flip: libc::ECHO, ..Default::default() };
    let sess = Session::new(cfg)?;
    let id = fd_id(2);
    let eprint = *eprint;
    let failed: Arc<Mutex<Option<String>>> = Default::default();
    // (in linger mode only lines which fit on a row are used)
    let cut = |it: &Item| {
        let mut it = it.clone();
        if *linger {
            it.nl = false;
            it.len = it.len.min((*w - 11) as u8 / 2);
        }
        it
    };
    let put = move |s: &str| {
        if eprint {
            eprintln!("{s}");
            Ok(())
        } else {
            write2(format!("{s}\n").as_bytes())
        }
    };
    // the items of each source: lines printed and lines written, for each thread, in each cycle
    let mut sources: Vec<Vec<Item>> = vec![];
    let mut must: Vec<usize> = vec![];
    let mut written = 0;
    let mut fdn = 0;
    for cycle in 0..*cycles {
        step("InputOutput::new");
        let io = InputOutput::new();
        sess.sync()?;
        if cycle == 0 {
            fdn = open_fds().len();
        } else if open_fds().len() != fdn {
            return Err(format!("file descriptors leak: {:?}", open_fds()));
        }
        let base = sources.len();
        let shared: Arc<OutputOnly> = Arc::new(io.clone_output());
        let clone = io.clone_output();
        let go = Arc::new(AtomicBool::new(false));
        let mut counts: Vec<[Arc<AtomicUsize>; 2]> = vec![];
        let mut handles = vec![];
        for (t, items) in threads.iter().enumerate() {
            let items: Vec<Item> = items.iter().map(cut).collect();
            let done: [Arc<AtomicUsize>; 2] = Default::default();
            counts.push(done.clone());
            for e in [false, true] {
                sources.push(items.iter().filter(|i| (i.how == 8) == e).cloned().collect());
            }
            let (go, shared, clone, failed) = (go.clone(), shared.clone(), io.clone_output(), failed.clone());
            handles.push(std::thread::spawn(move || {
                register_thread();
                while !go.load(Ordering::SeqCst) {
                    std::hint::spin_loop();
                }
                for it in items.iter() {
                    let k = (it.how == 8) as usize;
                    let n = done[k].load(Ordering::SeqCst);
                    let s = base + 2 * t + k;
                    if k == 1 {
                        if let Err(e) = put(&it.text(s, n)) {
                            *failed.lock().unwrap() = Some(e);
                            break;
                        }
                    } else if catch_unwind(AssertUnwindSafe(|| it.print(s, n, &clone, &shared))).is_err() {
                        break;
                    }
                    done[k].store(n + 1, Ordering::SeqCst);
                    if it.pause > 0 {
                        std::thread::sleep(Duration::from_micros(it.pause as u64));
                    }
                }
                unregister_thread();
            }));
        }
        let over = Arc::new(AtomicBool::new(false));
        let mut open = None;
        if *opener {
            let (over, failed) = (over.clone(), failed.clone());
            open = Some(std::thread::spawn(move || {
                register_thread();
                while !over.load(Ordering::SeqCst) {
                    unsafe {
                        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC);
                        if fd == 2 {
                            *failed.lock().unwrap() = Some("a file just opened became stderr, because stderr was closed for a moment".into());
                            break;
                        }
                        libc::close(fd);
                    }
                }
                unregister_thread();
            }));
        }
        go.store(true, Ordering::SeqCst);
        let me = base + 2 * threads.len();
        let main: Vec<Mw> = main
            .iter()
            .map(|m| match m {
                Mw::Print(i) => Mw::Print(cut(i)),
                m => m.clone(),
            })
            .collect();
        let f2 = failed.clone();
        let w2 = move |s: &str| {
            if let Err(e) = put(s) {
                *f2.lock().unwrap() = Some(e);
            }
        };
        let (a, b) = owner(&sess, &io, &clone, &main, false, me, Some((me + 1, &w2)))?;
        let (na, nb) = (a.len(), b.len());
        sources.push(a);
        sources.push(b);
        step("waiting for the writing threads");
        let mut child = None;
        if *hold {
            child = Some(holder()?);
        }
        let mut handles = Some(handles);
        if !*linger {
            for h in handles.take().unwrap() {
                h.join().map_err(|_| "a writing thread panicked")?;
            }
        }
        for c in &counts {
            must.extend(c.iter().map(|x| x.load(Ordering::SeqCst)));
        }
        must.extend([na, nb]);
        written += must[base..].iter().skip(1).step_by(2).sum::<usize>();
        step(format!("shutdown ({end:?})"));
        let took = end_it(io, end);
        if took > LIMIT {
            return Err(format!("SUSPECT:shutting down took {took:?}"));
        }
        if fd_id(2) != id {
            return Err("after the end, stderr isn't what it was before".into());
        }
        over.store(true, Ordering::SeqCst);
        if let Some(o) = open {
            let _ = o.join();
        }
        for h in handles.take().into_iter().flatten() {
            h.join().map_err(|_| "a writing thread panicked")?;
        }
        if let Some(e) = failed.lock().unwrap().take() {
            return Err(e);
        }
        // what's been written to stderr later must be somewhere, too
        for (t, c) in counts.iter().enumerate() {
            must[base + 2 * t + 1] = c[1].load(Ordering::SeqCst);
        }
        if let Some(mut c) = child {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    sess.sync_dead()?;
    let emu = sess.emu();
    if *linger {
        loose(&emu, &sources, &must)?;
    } else {
        let rows: Vec<Row> = emu.scrollback.iter().chain(emu.rows.iter()).cloned().collect();
        let next = transcript(&rows, emu.kind, &|t, n| sources.get(t)?.get(n).map(|i| i.rows(t, n, *w)), &header, sources.len())?;
        for t in 0..sources.len() {
            if next[t] != must[t] {
                return Err(format!("line {} of source {t} ({}) was there before the end, and isn't shown", next[t], if t % 2 == 1 { "stderr" } else { "printed" }));
            }
        }
    }
    let mut labels = vec!["threads".to_string(), format!("{end:?}").to_lowercase()];
    if *linger {
        labels.push("writing-at-the-end".into());
    }
    if *opener {
        labels.push("opening-files".into());
    }
    if *hold {
        labels.push("child-process-at-the-end".into());
    }
    if *cycles > 1 {
        labels.push("again".into());
    }
    Ok((written > 0, labels))
}
/// Each line is somewhere in the output, exactly once (in case lines are also written
/// to the terminal by others while Liso's output is still going on).
fn loose(emu: &Emu, sources: &[Vec<Item>], must: &[usize]) -> Result<(), String> {
    let mut raw = String::from_utf8_lossy(&emu.raw).to_string();
    let mut left: Vec<(usize, usize, String)> = vec![];
    for (s, items) in sources.iter().enumerate() {
        for (n, i) in items.iter().enumerate() {
            left.push((s, n, i.text(s, n)));
        }
    }
    loop {
        let before = left.len();
        left.retain(|(_, _, t)| match raw.find(t.as_str()) {
            None => true,
            Some(at) => {
                let mut end = at + t.len();
                for c in ["\r", "\n"] {
                    if raw[end..].starts_with(c) {
                        end += 1;
                    }
                }
                raw.replace_range(at..end, "");
                false
            }
        });
        if left.len() == before {
            break;
        }
    }
    for (s, n, t) in &left {
        if *n < must[*s] {
            return Err(format!("line {n} of source {s} ({}), {t:?}, is lost\nleft of the output: {:?}", if s % 2 == 1 { "stderr" } else { "printed" }, String::from_utf8_lossy(&emu.raw)));
        }
    }
    for (s, items) in sources.iter().enumerate() {
        for n in 0..items.len() {
            if raw.contains(&format!("<{s}.{n}:")) && !left.iter().any(|x| (x.0, x.1) == (s, n)) {
                return Err(format!("line {n} of source {s} ({}) appears more than once", if s % 2 == 1 { "stderr" } else { "printed" }));
            }
        }
    }
    Ok(())
}
fn handover(ms: u8, lines: &[u8], cycles: u8, end: &Ending) -> Result<(bool, Vec<String>), String> {
    let sess = Session::new(SessCfg { stderr_tty: true, w: 40, h: 30, ..Default::default() })?;
    let id = fd_id(2);
    let mut io = Some(InputOutput::new());
    sess.sync()?;
    let mut want = vec![];
    for cy in 0..cycles {
        for (i, l) in lines.iter().enumerate() {
            let t = format!("<{cy}.{i}:{}>", "x".repeat(*l as usize));
            step(format!("writing {t}"));
            write2(format!("{t}\n").as_bytes())?;
            sess.sync()?;
            want.extend(crate::layout::printed_rows(&build_model(&decorated(&t)), 40));
            crate::layout::compare(&sess.emu(), &[], &want, want.len(), None).map_err(|e| format!("instance {cy}: after writing {t} to stderr: {e}"))?;
        }
        let mut hist = liso::History::new();
        hist.set_autosave_handler(Some(Box::new(move |_| {
            std::thread::sleep(Duration::from_millis(ms as u64));
            Ok(())
        })));
        drop(io.as_ref().unwrap().swap_history(hist));
        sess.sync()?;
        let last = cy + 1 == cycles;
        let next = std::thread::spawn(move || {
            register_thread();
            let until = std::time::Instant::now() + Duration::from_secs(6);
            while !last && std::time::Instant::now() < until {
                // (not until there isn't one; panics would disturb it)
                if catch_unwind(liso::output).is_err() {
                    let r = catch_unwind(InputOutput::new).ok();
                    unregister_thread();
                    return r;
                }
            }
            unregister_thread();
            None
        });
        step(format!("the end ({end:?}) of instance {cy}"));
        let took = end_it(io.take().unwrap(), end);
        if took > LIMIT {
            return Err(format!("SUSPECT:shutting down took {took:?}"));
        }
        io = next.join().map_err(|_| "HARNESS: thread")?;
        if !last {
            if io.is_none() {
                return Err("SUSPECT:no new InputOutput could be created".into());
            }
            sess.sync()?;
        }
    }
    if fd_id(2) != id {
        return Err("after the end, stderr isn't what it was before".into());
    }
    Ok((true, vec!["handover".into()]))
}
fn piped(tty_in: bool, tty_out: bool, dumb: bool, lines: &[(bool, u8)], end: &Ending) -> Result<(bool, Vec<String>), String> {
    let both = tty_in && tty_out;
    let cfg = SessCfg {
        stdin: if tty_in { Fd::Tty } else { Fd::Pipe },
        stdout: if tty_out { Fd::Tty } else { Fd::Pipe },
        stderr_tty: true,
        w: 80,
        term: Some(if dumb || both { "dumb" } else { "xterm" }.into()),
        ..Default::default()
    };
    let sess = Session::new(cfg)?;
    let id = fd_id(2);
    step("InputOutput::new");
    let io = InputOutput::new();
    let clone = io.clone_output();
    sess.sync()?;
    let (mut tty, mut out) = (String::new(), String::new());
    let mut n = 0;
    for (i, (err, len)) in lines.iter().enumerate() {
        let t = format!("{i}{}", "x".repeat(*len as usize));
        if *err {
            n += 1;
            write2(format!("{t}\n").as_bytes())?;
            tty += &format!("{t}\r\n");
        } else {
            io.println(t.as_str());
            if tty_out {
                tty += &format!("{t}\r\n");
            } else {
                out += &format!("{t}\n");
            }
        }
        sess.sync()?;
        let e = sess.emu();
        if e.raw != tty.as_bytes() || sess.out() != out.as_bytes() {
            return Err(format!("in pipe mode, the output is {:?} and the terminal's {:?}, expected {out:?} and {tty:?}", String::from_utf8_lossy(&sess.out()), String::from_utf8_lossy(&e.raw)));
        }
    }
    slow(&clone, 0);
    step("shutdown");
    let took = end_it(io, end);
    if took > LIMIT {
        return Err(format!("SUSPECT:shutting down took {took:?}"));
    }
    if fd_id(2) != id {
        return Err("after the end, stderr isn't what it was before".into());
    }
    Ok((n > 0, vec!["pipe-mode".into()]))
}
