//! Runs inside the child process: a PTY session around the real library, with
//! an emulator on the other side, and a sound notion of "everything settled".
use crate::emu::{Emu, Kind};
use crate::engine::Verdict;
use std::collections::HashSet;
use std::io::Write;
use std::os::fd::{FromRawFd, RawFd};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub static REPORT_FD: AtomicI32 = AtomicI32::new(-1);
pub static ERR_FD: AtomicI32 = AtomicI32::new(-1);
/// functions of ours that the library still has to finish running
pub static BUSY: AtomicI32 = AtomicI32::new(0);
/// the library is being held up on purpose, so those functions can't run yet
pub static HELD: AtomicBool = AtomicBool::new(false);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static HANG_MS: AtomicU64 = AtomicU64::new(10_000);
static STEP: Mutex<String> = Mutex::new(String::new());
static HARNESS_TIDS: Mutex<Option<HashSet<i32>>> = Mutex::new(None);
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}
pub fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}
/// Threads of the harness itself are not waited for by `sync`
pub fn register_thread() {
    HARNESS_TIDS.lock().unwrap().get_or_insert_with(HashSet::new).insert(gettid());
}
pub fn is_registered() -> bool {
    HARNESS_TIDS.lock().unwrap().get_or_insert_with(HashSet::new).contains(&gettid())
}
pub fn unregister_thread() {
    HARNESS_TIDS.lock().unwrap().get_or_insert_with(HashSet::new).remove(&gettid());
}
/// Note what is going on, for hang reports; resets the hang clock.
pub fn step(s: impl Into<String>) {
    *STEP.lock().unwrap() = s.into();
    PROGRESS.store(now_ms(), Ordering::SeqCst);
}
pub fn set_hang_limit(ms: u64) {
    HANG_MS.store(ms, Ordering::SeqCst);
}

fn report(v: &serde_json::Value) {
    let mut s = serde_json::to_vec(v).unwrap();
    s.push(b'\n');
    let fd = REPORT_FD.load(Ordering::SeqCst);
    let mut off = 0;
    while off < s.len() {
        let n = unsafe { libc::write(fd, s[off..].as_ptr() as *const _, s.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}
fn exit_now(code: i32) -> ! {
    unsafe { libc::_exit(code) }
}

pub fn stderr_text() -> String {
    let fd = ERR_FD.load(Ordering::SeqCst);
    if fd < 0 {
        return String::new();
    }
    let mut buf = vec![0u8; 16384];
    let n = unsafe { libc::pread(fd, buf.as_mut_ptr() as *mut _, buf.len(), 0) };
    String::from_utf8_lossy(&buf[..n.max(0) as usize]).to_string()
}
/// A panic message of one of the library's threads (or of any thread), if any was printed.
pub fn panic_seen() -> Option<String> {
    let t = stderr_text();
    if t.contains("panicked at") {
        Some(t.trim().chars().take(600).collect())
    } else {
        None
    }
}

/// The panic messages printed so far, which are then forgotten
pub fn take_panics() -> Vec<String> {
    let t = stderr_text();
    let fd = ERR_FD.load(Ordering::SeqCst);
    unsafe {
        libc::ftruncate(fd, 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
    }
    let mut v: Vec<String> = t.split("\nthread '").map(|x| x.to_string()).collect();
    v.retain(|x| x.contains("panicked at"));
    v
}

fn read_all_fd(fd: RawFd) -> Vec<u8> {
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
            continue;
        }
        if n <= 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
}

pub fn memfd(name: &str) -> RawFd {
    let c = std::ffi::CString::new(name).unwrap();
    unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) }
}

/// Entry point of `lisoharness child`.
pub fn child_main(run: impl FnOnce(&str, &serde_json::Value) -> Result<(bool, Vec<String>), String>) -> ! {
    let input = read_all_fd(0);
    let v: serde_json::Value = match serde_json::from_slice(&input) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("child: bad input: {e}");
            exit_now(3)
        }
    };
    unsafe {
        let r = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
        REPORT_FD.store(r, Ordering::SeqCst);
        // stdin and stdout: /dev/null until a session sets them up
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(n, 0);
        libc::dup2(n, 1);
        libc::close(n);
        let e = memfd("stderr");
        let e2 = libc::fcntl(e, libc::F_DUPFD_CLOEXEC, 101);
        libc::dup2(e, 2);
        libc::close(e);
        ERR_FD.store(e2, Ordering::SeqCst);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        // whatever goes wrong, the machine must survive it
        for (what, n) in [(libc::RLIMIT_DATA, 1536 << 20), (libc::RLIMIT_FSIZE, 256 << 20)] {
            let r = libc::rlimit { rlim_cur: n, rlim_max: n };
            libc::setrlimit(what, &r);
        }
    }
    for k in ["NO_COLOR", "COLUMNS", "LINES", "LISO_CROSSTERM_INPUT", "ATARI_WHITE_ON_BLACK", "RUST_BACKTRACE"] {
        std::env::remove_var(k);
    }
    step("start");
    register_thread();
    std::thread::spawn(|| {
        register_thread();
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let idle = now_ms().saturating_sub(PROGRESS.load(Ordering::SeqCst));
            if idle > HANG_MS.load(Ordering::SeqCst) {
                let st = STEP.lock().map(|x| x.clone()).unwrap_or_default();
                let threads = thread_dump();
                let extra = panic_seen().map(|p| format!("; stderr: {p}")).unwrap_or_default();
                report(&serde_json::json!({"hang": format!("no progress for {idle} ms while: {st}; threads: {threads}{extra}")}));
                exit_now(0);
            }
        }
    });
    let prop = v["prop"].as_str().unwrap_or("").to_string();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&prop, &v["case"])));
    let out = match res {
        Ok(Ok((nt, l))) => serde_json::json!({"ok": nt, "labels": l}),
        Ok(Err(m)) => {
            let m = match m.strip_prefix("SUSPECT:") {
                Some(x) => serde_json::json!({"hang": x}),
                None => serde_json::json!({"fail": m}),
            };
            m
        }
        Err(e) => serde_json::json!({"fail": format!("panic in calling thread: {}; stderr: {}", crate::engine::panic_text(&e), stderr_text())}),
    };
    report(&out);
    exit_now(0)
}

pub fn self_exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

/// Parent side: run one case of a property in a fresh process.
pub fn run_child<C: serde::Serialize>(id: &str, case: &C) -> Verdict {
    run_child_limit(id, case, 60)
}
pub fn run_child_limit<C: serde::Serialize>(id: &str, case: &C, secs: u64) -> Verdict {
    run_child_of(&self_exe(), id, case, secs)
}
pub fn run_child_of<C: serde::Serialize>(exe: &std::path::Path, id: &str, case: &C, secs: u64) -> Verdict {
    use std::process::{Command, Stdio};
    let js = serde_json::to_vec(&serde_json::json!({"prop": id, "case": case})).unwrap();
    let mut ch = match Command::new(exe).arg("child").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return Verdict::Error(format!("spawn: {e}")),
    };
    {
        let mut si = ch.stdin.take().unwrap();
        let _ = si.write_all(&js);
    }
    let so = ch.stdout.take().unwrap();
    use std::os::fd::AsRawFd;
    let fd = so.as_raw_fd();
    let start = Instant::now();
    let mut out = vec![];
    let mut timed_out = false;
    loop {
        if out.contains(&b'\n') {
            break;
        }
        let left = Duration::from_secs(secs).saturating_sub(start.elapsed());
        if left.is_zero() {
            timed_out = true;
            break;
        }
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, left.as_millis().min(1000) as i32) };
        if r > 0 {
            let mut buf = [0u8; 65536];
            let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
    }
    if timed_out {
        let _ = ch.kill();
        let _ = ch.wait();
        return Verdict::Suspect(format!("the case did not finish within {secs} s"));
    }
    // It may be stopped or have spare threads; we have the answer, so end it.
    if out.contains(&b'\n') {
        let _ = ch.kill();
    }
    let st = ch.wait();
    let line = out.split(|b| *b == b'\n').next().unwrap_or(&[]);
    match serde_json::from_slice::<serde_json::Value>(line) {
        Ok(v) => {
            if let Some(nt) = v["ok"].as_bool() {
                let l = v["labels"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
                Verdict::Pass(nt, l)
            } else if let Some(m) = v["fail"].as_str() {
                Verdict::Fail(m.to_string())
            } else if let Some(m) = v["hang"].as_str() {
                Verdict::Suspect(m.to_string())
            } else {
                Verdict::Error(format!("odd child report {v}"))
            }
        }
        Err(_) => Verdict::Suspect(format!("the process ended without a report: {st:?}")),
    }
}

// ------------------------------------------------------------ thread scans

fn read_small(path: &str) -> Option<String> {
    use std::ffi::CString;
    let c = CString::new(path).ok()?;
    let mut buf = [0u8; 1024];
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC);
        if fd < 0 {
            return None;
        }
        let n = libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len());
        libc::close(fd);
        if n < 0 {
            return None;
        }
        Some(String::from_utf8_lossy(&buf[..n as usize]).to_string())
    }
}
pub fn list_tids() -> Vec<i32> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            if let Some(t) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) {
                v.push(t);
            }
        }
    }
    v.sort();
    v
}
fn thread_state(tid: i32) -> Option<(char, String)> {
    let s = read_small(&format!("/proc/self/task/{tid}/stat"))?;
    let close = s.rfind(')')?;
    let open = s.find('(')?;
    Some((s[close + 2..].chars().next()?, s[open + 1..close].to_string()))
}
/// (tid, number of times scheduled) of every thread not ours, or None if any is not asleep
fn scan() -> Option<Vec<(i32, u64)>> {
    let ours = HARNESS_TIDS.lock().unwrap().clone().unwrap_or_default();
    let mut v = vec![];
    for t in list_tids() {
        if ours.contains(&t) {
            continue;
        }
        match thread_state(t) {
            None => return None,
            Some(('S', _)) => (),
            Some(_) => return None,
        }
        let s = read_small(&format!("/proc/self/task/{t}/schedstat"))?;
        v.push((t, s.split_whitespace().nth(2)?.parse().ok()?));
    }
    Some(v)
}
pub fn foreign_threads() -> Vec<(i32, String)> {
    let ours = HARNESS_TIDS.lock().unwrap().clone().unwrap_or_default();
    list_tids()
        .into_iter()
        .filter(|t| !ours.contains(t))
        .filter_map(|t| thread_state(t).map(|(_, n)| (t, n)))
        .collect()
}
pub fn thread_dump() -> String {
    let ours = HARNESS_TIDS.lock().unwrap().clone().unwrap_or_default();
    list_tids()
        .into_iter()
        .filter(|t| !ours.contains(t))
        .filter_map(|t| {
            thread_state(t).map(|(s, n)| {
                let w = read_small(&format!("/proc/self/task/{t}/wchan")).unwrap_or_default();
                format!("{n}:{s}:{w}")
            })
        })
        .collect::<Vec<_>>()
        .join(", ")
}

// ------------------------------------------------------------ the session

#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize, Hash)]
pub enum Fd {
    Tty,
    Pipe,
    Null,
}
#[derive(Clone, Debug)]
pub struct SessCfg {
    pub w: usize,
    pub h: usize,
    pub term: Option<String>,
    pub kind: Kind,
    pub stdin: Fd,
    pub stdout: Fd,
    pub stderr_tty: bool,
    /// flags to flip in the initial termios local flags
    pub lflag_flip: u32,
    /// does the terminal not report its size (as over a serial line)?
    pub no_size: bool,
}
impl Default for SessCfg {
    fn default() -> Self {
        SessCfg {
            w: 20,
            h: 24,
            term: Some("xterm".into()),
            kind: Kind::Ansi { bce: false },
            stdin: Fd::Tty,
            stdout: Fd::Tty,
            stderr_tty: false,
            lflag_flip: 0,
            no_size: false,
        }
    }
}

pub struct Side {
    pub emu: Emu,
    /// bytes received through the stdout pipe
    pub out: Vec<u8>,
}

pub struct Session {
    pub cfg: SessCfg,
    pub master: RawFd,
    pub slave: RawFd,
    pub orig: libc::termios,
    pub side: Arc<Mutex<Side>>,
    stop: Arc<AtomicBool>,
    /// write end of stdin when it is a pipe (-1 if closed)
    pub stdin_w: RawFd,
    stdout_r: RawFd,
    pub paused: Arc<AtomicBool>,
}

fn nonblock(fd: RawFd) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
    }
}
fn high(fd: RawFd) -> RawFd {
    unsafe {
        let n = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 110);
        libc::close(fd);
        n
    }
}
fn read_nb(fd: RawFd, buf: &mut [u8]) -> usize {
    loop {
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n < 0 {
            if std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return 0;
        }
        return n as usize;
    }
}
fn pollin(fd: RawFd, ms: i32) -> bool {
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    unsafe { libc::poll(&mut p, 1, ms) > 0 && p.revents & libc::POLLIN != 0 }
}

pub fn termios_of(fd: RawFd) -> libc::termios {
    unsafe {
        let mut t = std::mem::zeroed();
        libc::tcgetattr(fd, &mut t);
        t
    }
}
pub fn termios_eq(a: &libc::termios, b: &libc::termios) -> bool {
    a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && a.c_cc[..17] == b.c_cc[..17]
}
pub fn termios_is_raw(t: &libc::termios) -> bool {
    t.c_lflag & (libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN) == 0 && t.c_oflag & libc::OPOST == 0
}

impl Session {
    pub fn resize(&mut self, w: usize) {
        let ws = libc::winsize { ws_row: self.cfg.h as u16, ws_col: w as u16, ws_xpixel: 0, ws_ypixel: 0 };
        self.cfg.w = w;
        // what's drawn at once, on SIGWINCH, is for the new width
        let mut side = self.side.lock().unwrap();
        side.emu.resize(w);
        unsafe { libc::ioctl(self.slave, libc::TIOCSWINSZ, &ws) };
    }
    pub fn new(cfg: SessCfg) -> Result<Session, String> {
        unsafe {
            libc::setsid();
            let mut m = 0;
            let mut s = 0;
            let (row, col) = if cfg.no_size { (0, 0) } else { (cfg.h as u16, cfg.w as u16) };
            let ws = libc::winsize { ws_row: row, ws_col: col, ws_xpixel: 0, ws_ypixel: 0 };
            if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) != 0 {
                return Err("HARNESS: openpty failed".into());
            }
            let m = high(m);
            let s = high(s);
            libc::ioctl(s, libc::TIOCSCTTY, 0);
            // an ordinary shell would have ignored SIGHUP no more than we do; a hangup must not kill us
            libc::signal(libc::SIGHUP, libc::SIG_IGN);
            let mut t = termios_of(s);
            t.c_lflag ^= cfg.lflag_flip as libc::tcflag_t;
            libc::tcsetattr(s, libc::TCSANOW, &t);
            let orig = termios_of(s);
            let mut stdin_w = -1;
            let mut stdout_r = -1;
            match cfg.stdin {
                Fd::Tty => {
                    libc::dup2(s, 0);
                }
                Fd::Pipe => {
                    let mut p = [0; 2];
                    libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                    libc::dup2(p[0], 0);
                    libc::close(p[0]);
                    stdin_w = high(p[1]);
                }
                Fd::Null => (),
            }
            match cfg.stdout {
                Fd::Tty => {
                    libc::dup2(s, 1);
                }
                Fd::Pipe => {
                    let mut p = [0; 2];
                    libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                    libc::dup2(p[1], 1);
                    libc::close(p[1]);
                    stdout_r = high(p[0]);
                    nonblock(stdout_r);
                }
                Fd::Null => (),
            }
            if cfg.stderr_tty {
                libc::dup2(s, 2);
            }
            match &cfg.term {
                Some(t) => std::env::set_var("TERM", t),
                None => std::env::remove_var("TERM"),
            }
            nonblock(m);
            let side = Arc::new(Mutex::new(Side { emu: Emu::new(cfg.kind, cfg.w, cfg.h), out: vec![] }));
            let stop = Arc::new(AtomicBool::new(false));
            let paused = Arc::new(AtomicBool::new(false));
            let sess = Session { cfg, master: m, slave: s, orig, side: side.clone(), stop: stop.clone(), stdin_w, stdout_r, paused: paused.clone() };
            let started = Arc::new(AtomicBool::new(false));
            let st2 = started.clone();
            std::thread::spawn(move || {
                register_thread();
                st2.store(true, Ordering::SeqCst);
                while !stop.load(Ordering::SeqCst) {
                    let mut ps = [
                        libc::pollfd { fd: m, events: libc::POLLIN, revents: 0 },
                        libc::pollfd { fd: stdout_r, events: libc::POLLIN, revents: 0 },
                    ];
                    let n = if stdout_r >= 0 { 2 } else { 1 };
                    if paused.load(Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(1));
                        continue;
                    }
                    let r = libc::poll(ps.as_mut_ptr(), n, 100);
                    if r > 0 {
                        let mut sd = side.lock().unwrap();
                        if paused.load(Ordering::SeqCst) {
                            continue;
                        }
                        let got = drain(&mut sd, m, stdout_r);
                        drop(sd);
                        if got == 0 {
                            // hung up
                            std::thread::sleep(Duration::from_millis(2));
                        }
                    }
                }
            });
            while !started.load(Ordering::SeqCst) {
                std::thread::yield_now();
            }
            Ok(sess)
        }
    }
    /// Deliver everything in flight and wait until no thread has anything left to do.
    pub fn sync(&self) -> Result<(), String> {
        self.sync_with(false)
    }
    /// ... even if something has panicked
    pub fn sync_panicky(&self) -> Result<(), String> {
        self.sync_with(true)
    }
    /// Wait until the library's threads are gone, and see what they have output.
    /// (There may be input left which nobody is going to read.)
    pub fn sync_dead(&self) -> Result<(), String> {
        let t = Instant::now();
        while !foreign_threads().is_empty() && t.elapsed() < Duration::from_secs(3) {
            std::thread::sleep(Duration::from_micros(200));
        }
        self.drain_now();
        let e = self.side.lock().unwrap().emu.errors.clone();
        match panic_seen() {
            Some(p) => Err(format!("a thread panicked: {p}")),
            None if !e.is_empty() => Err(format!("bad terminal output: {}", e.join("; "))),
            None => Ok(()),
        }
    }
    fn sync_with(&self, panicky: bool) -> Result<(), String> {
        let mut spins = 0u32;
        loop {
            let idle = || BUSY.load(Ordering::SeqCst) == 0 || HELD.load(Ordering::SeqCst);
            if idle() && self.settled_once() && idle() {
                break;
            }
            spins += 1;
            if spins % 64 == 63 && !panicky {
                if let Some(p) = panic_seen() {
                    return Err(format!("a thread panicked: {p}"));
                }
            }
            if spins > 20 {
                unsafe { libc::usleep(if spins > 200 { 300 } else { 30 }) };
            } else {
                unsafe { libc::sched_yield() };
            }
        }
        if let Some(p) = panic_seen().filter(|_| !panicky) {
            return Err(format!("a thread panicked: {p}"));
        }
        let e = self.side.lock().unwrap().emu.errors.clone();
        if !e.is_empty() {
            return Err(format!("bad terminal output: {}", e.join("; ")));
        }
        Ok(())
    }
    fn settled_once(&self) -> bool {
        // input: flushing the line discipline
        if self.cfg.stdin == Fd::Tty {
            pollin(self.slave, 0);
        }
        let mut n: libc::c_int = 0;
        if self.cfg.stdin != Fd::Null {
            unsafe { libc::ioctl(0, libc::FIONREAD, &mut n) };
        }
        if n != 0 {
            return false;
        }
        let Some(a) = scan() else { return false };
        {
            let mut sd = self.side.lock().unwrap();
            if drain(&mut sd, self.master, self.stdout_r) != 0 {
                return false;
            }
        }
        if self.cfg.stdin == Fd::Tty {
            pollin(self.slave, 0);
            unsafe { libc::ioctl(0, libc::FIONREAD, &mut n) };
            if n != 0 {
                return false;
            }
        }
        let Some(b) = scan() else { return false };
        a == b
    }
    /// Make sure that typed input has passed the line discipline
    pub fn flush_input(&self) {
        pollin(self.slave, 0);
    }
    pub fn drain_now(&self) {
        let mut sd = self.side.lock().unwrap();
        drain(&mut sd, self.master, self.stdout_r);
    }
    pub fn type_bytes(&self, data: &[u8]) -> Result<(), String> {
        let fd = if self.cfg.stdin == Fd::Pipe { self.stdin_w } else { self.master };
        let mut off = 0;
        while off < data.len() {
            let n = unsafe { libc::write(fd, data[off..].as_ptr() as *const _, (data.len() - off).min(512)) };
            if n < 0 {
                match std::io::Error::last_os_error().kind() {
                    std::io::ErrorKind::Interrupted => continue,
                    std::io::ErrorKind::WouldBlock => {
                        unsafe { libc::usleep(200) };
                        continue;
                    }
                    e => return Err(format!("HARNESS: writing input: {e}")),
                }
            }
            off += n as usize;
        }
        Ok(())
    }
    /// All of it at once, if there's room for it
    pub fn type_burst(&self, data: &[u8]) -> Result<(), String> {
        let fd = if self.cfg.stdin == Fd::Pipe { self.stdin_w } else { self.master };
        let n = unsafe { libc::write(fd, data.as_ptr() as *const _, data.len()) };
        self.type_bytes(&data[n.max(0) as usize..])
    }
    /// Is there typed input that nobody has read, and stays so this long?
    pub fn input_left(&self, time: Duration) -> bool {
        let mut t = Instant::now();
        let mut last = -1;
        loop {
            pollin(self.slave, 0);
            let mut n: libc::c_int = 0;
            unsafe { libc::ioctl(0, libc::FIONREAD, &mut n) };
            self.drain_now();
            if n == 0 {
                return false;
            }
            if n != last {
                last = n;
                t = Instant::now();
            }
            if t.elapsed() > time {
                return true;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    pub fn close_stdin(&mut self) {
        if self.stdin_w >= 0 {
            unsafe { libc::close(self.stdin_w) };
            self.stdin_w = -1;
        }
    }
    pub fn termios(&self) -> libc::termios {
        termios_of(self.slave)
    }
    pub fn emu(&self) -> Emu {
        self.side.lock().unwrap().emu.clone()
    }
    pub fn with_emu<T>(&self, f: impl FnOnce(&mut Emu) -> T) -> T {
        f(&mut self.side.lock().unwrap().emu)
    }
    pub fn out(&self) -> Vec<u8> {
        self.side.lock().unwrap().out.clone()
    }
}
fn drain(sd: &mut Side, m: RawFd, stdout_r: RawFd) -> usize {
    let mut buf = [0u8; 8192];
    let mut total = 0;
    loop {
        if !pollin(m, 0) {
            break;
        }
        let n = read_nb(m, &mut buf);
        if n == 0 {
            break;
        }
        sd.emu.feed(&buf[..n]);
        total += n;
    }
    if stdout_r >= 0 {
        loop {
            let n = read_nb(stdout_r, &mut buf);
            if n == 0 {
                break;
            }
            sd.out.extend_from_slice(&buf[..n]);
            total += n;
        }
    }
    total
}
impl Drop for Session {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
    }
}

#[allow(dead_code)]
pub fn file_from(fd: RawFd) -> std::fs::File {
    unsafe { std::fs::File::from_raw_fd(fd) }
}
