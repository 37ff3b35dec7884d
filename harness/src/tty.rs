//! Interpreter for interactive (TTY) histories: runs operations against the
//! real library in a PTY session and against the reference model, comparing
//! screen, cursor, responses and bells at every quiescent point.
use crate::emu::{Kind, Row};
use crate::layout::{self, Vt};
use crate::lm::*;
use crate::pty::{self, *};
#[cfg(feature = "history")]
use liso::History;
#[cfg(feature = "completion")]
use liso::{Completion, Completor};
use liso::{InputOutput, Output, OutputOnly, Response};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
#[cfg(feature = "completion")]
use std::num::NonZeroU32;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Key {
    /// an ordinary character
    Ch(char),
    /// a control character 0..=31 (not ESC)
    Ctl(u8),
    Enter,
    Newline,
    Del7f,
    Esc,
    Up,
    Down,
    Left,
    Right,
    Home,
    End,
    Delete,
    /// a well-formed but meaningless escape sequence (without the ESC)
    Unknown(String),
    /// a C1 control or line/paragraph separator, which is not a key at all
    Dead(char),
    /// a non-ASCII character typed on a VT52, which is discarded
    Meta(char),
}
impl Key {
    /// What to type on a VT52 instead: it has no cursor keys we understand
    pub fn on_vt52(&self) -> Key {
        match self {
            Key::Ch(c) | Key::Dead(c) if !c.is_ascii() => Key::Meta(*c),
            Key::Up => Key::Ctl(16),
            Key::Down => Key::Ctl(14),
            Key::Left => Key::Ctl(2),
            Key::Right => Key::Ctl(6),
            Key::Home => Key::Ctl(1),
            Key::End => Key::Ctl(5),
            Key::Delete => Key::Ctl(4),
            // VT52 escape sequences are two bytes, or three
            Key::Unknown(s) => {
                let b = s.bytes().last().filter(|b| (0x20..0x7f).contains(b)).unwrap_or(b'A') as char;
                Key::Unknown(if s.len() % 2 == 0 { format!("/{b}") } else { b.to_string().replace('/', "Z") })
            }
            k => k.clone(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Meta(c) if (*c as u32) < 0x100 => vec![*c as u32 as u8],
            Key::Ch(c) | Key::Dead(c) | Key::Meta(c) => c.to_string().into_bytes(),
            Key::Ctl(c) => vec![*c],
            Key::Enter => vec![b'\r'],
            Key::Newline => vec![b'\n'],
            Key::Del7f => vec![0x7f],
            Key::Esc => vec![0x1b],
            Key::Up => b"\x1b[A".to_vec(),
            Key::Down => b"\x1b[B".to_vec(),
            Key::Right => b"\x1b[C".to_vec(),
            Key::Left => b"\x1b[D".to_vec(),
            Key::Delete => b"\x1b[3~".to_vec(),
            Key::Home => b"\x1b[H".to_vec(),
            Key::End => b"\x1b[F".to_vec(),
            Key::Unknown(s) => {
                let mut v = vec![0x1b];
                v.extend_from_slice(s.as_bytes());
                v
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Resp {
    Input(String),
    Discarded(String),
    Quit,
    Finish,
    Info,
    Break,
    Escape,
    Swap,
    Custom(u32),
    Unknown(u8),
    Dead,
}
pub fn resp_of(r: Response) -> Result<Resp, String> {
    let code = r.as_unknown();
    let (resp, want) = match r {
        Response::Input(s) => (Resp::Input(s), 10),
        Response::Discarded(s) => (Resp::Discarded(s), 7),
        Response::Quit => (Resp::Quit, 3),
        Response::Finish => (Resp::Finish, 4),
        Response::Info => (Resp::Info, 20),
        Response::Break => (Resp::Break, 28),
        Response::Escape => (Resp::Escape, 27),
        Response::Swap => (Resp::Swap, 24),
        Response::Unknown(x) => (Resp::Unknown(x), x),
        Response::Dead => (Resp::Dead, 28),
        Response::Custom(b) => match b.downcast::<u32>() {
            Ok(x) => (Resp::Custom(*x), 0),
            Err(_) => return Err("a custom response arrived with a different payload type".into()),
        },
        other => return Err(format!("unexpected response {other:?}")),
    };
    if code != want {
        return Err(format!("as_unknown of {resp:?} is {code}, not {want}"));
    }
    Ok(resp)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CAct {
    Nothing,
    Insert(String),
    /// new line; cursor given as character index (clamped)
    Replace(String, usize),
    Print(String),
    Bell,
    Notice(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Println(LSpec),
    /// println with a plain &str/String
    PrintStr(String),
    Wrapln(LSpec),
    Echoln(LSpec),
    Status(Option<LSpec>),
    RemoveStatus,
    Prompt(LSpec, bool, bool),
    Notice(LSpec),
    Bell,
    Custom(u32),
    Keys(Vec<Key>),
    /// suspend_and_run printing these plain rows
    Suspend(Vec<String>),
    SwapHistory(Vec<String>),
    /// install a completor with these actions (then Nothing forever), or remove it
    Completor(Option<Vec<CAct>>),
    /// wait until everything settled, and compare
    Check,
    /// the worker is held up while these are queued
    Hold(Vec<Op>),
    /// Control-Z; while the process is stopped, somebody prints this
    Stop(String),
    /// the terminal gets this wide, and something is printed
    Resize(usize, LSpec),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TtyCase {
    pub w: usize,
    pub h: usize,
    pub bce: bool,
    pub term: String,
    /// each output operation goes through: 0 the InputOutput, 1 a clone, 2 the global output()
    pub via: u8,
    pub ops: Vec<Op>,
    /// ending: 0 drop, 1 blocking_die, 2 die
    pub end: u8,
}

pub const HISTORY: bool = cfg!(feature = "history");
/// Values of LISO_CROSSTERM_INPUT which turn it on.
pub const CROSSTERM_INPUT_ON: &[&str] = &["1", "y", "Y", "yes", "Yes", "YES", "t", "T", "true", "True", "TRUE", "yeah"];
pub const COMPLETION: bool = cfg!(feature = "completion");

// ------------------------------------------------------------------- model

#[derive(Clone)]
pub struct Model {
    pub w: usize,
    pub h: usize,
    /// rows before everything else, exactly as they are on the terminal
    pub prefix: Vec<Row>,
    pub printed: Vec<Row>,
    pub status: Option<ML>,
    pub prompt: Option<ML>,
    pub notice: Option<ML>,
    pub input: Vec<char>,
    pub cur: usize,
    pub clip: Vec<char>,
    pub allowed: bool,
    pub hist: Vec<String>,
    pub hidx: Option<usize>,
    pub orphan: Option<Vec<char>>,
    pub horig: Option<String>,
    pub presses: u32,
    pub comp: Option<VecDeque<CAct>>,
    pub resp: Vec<Resp>,
    pub bells: usize,
    pub comp_calls: Vec<(String, usize, u32)>,
    /// operations the library must perform later, queued by the completor
    pub deferred: Vec<CAct>,
    /// has liso ever shown its live area?
    pub shown: bool,
}
pub fn is_zw(c: char) -> bool {
    cw(c) == 0
}
impl Model {
    pub fn new(w: usize, h: usize) -> Model {
        Model {
            w,
            h,
            prefix: vec![],
            printed: vec![],
            status: None,
            prompt: None,
            notice: None,
            input: vec![],
            cur: 0,
            clip: vec![],
            allowed: true,
            hist: vec![],
            hidx: None,
            orphan: None,
            horig: None,
            presses: 0,
            comp: None,
            resp: vec![],
            bells: 0,
            comp_calls: vec![],
            deferred: vec![],
            shown: false,
        }
    }
    pub fn input_str(&self) -> String {
        self.input.iter().collect()
    }
    /// The live area's contents, and the character index of the cursor in it.
    pub fn live(&self) -> (ML, Option<usize>) {
        let mut m = ML::new();
        if let Some(s) = &self.status {
            m.append(s);
            m.reset_and_break();
        }
        if let Some(n) = &self.notice {
            m.append(n);
            (m, None)
        } else {
            if let Some(p) = &self.prompt {
                m.append(p);
            }
            m.add_text(&self.input[..self.cur].iter().collect::<String>());
            let at = m.chars.len();
            m.add_text(&self.input[self.cur..].iter().collect::<String>());
            (m, Some(at))
        }
    }
    pub fn live_height(&self) -> usize {
        let (m, c) = self.live();
        layout::live_rows(&m, self.w, c).rows.len()
    }
    pub fn print(&mut self, m: &ML) {
        let r = layout::printed_rows(m, self.w);
        self.printed.extend(r);
    }
    fn hist_reset(&mut self) {
        self.hidx = None;
        self.orphan = None;
        self.horig = None;
    }
    fn recall(&mut self, i: usize) {
        let new: Vec<char> = self.hist[i].chars().collect();
        let old = std::mem::replace(&mut self.input, new);
        if self.orphan.is_none() {
            self.orphan = Some(old);
        }
        self.cur = self.input.len();
        self.hidx = Some(i);
        self.horig = Some(self.hist[i].clone());
    }
    pub fn add_history(&mut self, s: &str) {
        self.hist.retain(|x| x != s);
        if self.hist.len() > 99 {
            let n = self.hist.len() - 99;
            self.hist.drain(..n);
        }
        self.hist.push(s.to_string());
    }
    pub fn swap_history(&mut self, lines: Vec<String>) {
        self.hist = lines;
        if self.hidx.is_some() {
            self.hidx = None;
            if let Some(o) = &self.horig {
                self.hidx = self.hist.iter().rposition(|x| x == o);
            }
            if self.hidx.is_none() {
                self.hist_reset();
            }
        }
    }
    pub fn prompt_op(&mut self, line: ML, allowed: bool, clear: bool) {
        self.prompt = if line.is_empty() { None } else { Some(line) };
        self.allowed = allowed;
        if clear {
            self.input.clear();
            self.cur = 0;
            self.hist_reset();
        }
    }
    fn left(&self, from: usize) -> usize {
        let mut i = from - 1;
        while i > 0 && is_zw(self.input[i]) {
            i -= 1;
        }
        i
    }
    fn right(&self, from: usize) -> usize {
        let mut i = from + 1;
        while i < self.input.len() && is_zw(self.input[i]) {
            i += 1;
        }
        i
    }
    /// Returns true if the key rings the bell etc. is all recorded in self.
    pub fn key(&mut self, k: &Key) {
        if !self.allowed {
            return;
        }
        match k {
            Key::Unknown(_) | Key::Meta(_) => return,
            Key::Dead(_) => {
                // not a key press, but whatever precedes it no longer counts as consecutive
                self.presses = 0;
                return;
            }
            _ => (),
        }
        if matches!(k, Key::Ctl(9)) {
            self.presses += 1;
        } else {
            self.presses = 0;
        }
        // "the notice will disappear when the user presses any key"
        self.notice = None;
        match k {
            // what keys do without the features they belong to
            Key::Up | Key::Down if !HISTORY => (),
            Key::Ctl(x @ (14 | 16)) if !HISTORY => self.resp.push(Resp::Unknown(*x)),
            Key::Ctl(9) if !COMPLETION => self.bells += 1,
            Key::Ch(c) => {
                self.input.insert(self.cur, *c);
                self.cur += 1;
            }
            Key::Ctl(1) | Key::Home => self.cur = 0,
            Key::Ctl(5) | Key::End => self.cur = self.input.len(),
            Key::Ctl(2) | Key::Left => {
                if self.cur > 0 {
                    self.cur = self.left(self.cur)
                }
            }
            Key::Ctl(6) | Key::Right => {
                if self.cur < self.input.len() {
                    self.cur = self.right(self.cur)
                }
            }
            Key::Ctl(3) => self.resp.push(Resp::Quit),
            Key::Ctl(4) => {
                if self.input.is_empty() {
                    self.resp.push(Resp::Finish)
                } else {
                    self.input.clear();
                    self.cur = 0;
                    self.hist_reset();
                }
            }
            Key::Ctl(7) => {
                self.resp.push(Resp::Discarded(self.input_str()));
                self.input.clear();
                self.cur = 0;
                self.hist_reset();
            }
            Key::Ctl(8) | Key::Del7f => {
                if self.cur > 0 {
                    let s = self.left(self.cur);
                    self.input.drain(s..self.cur);
                    self.cur = s;
                }
            }
            Key::Delete => {
                if self.cur < self.input.len() {
                    let e = self.right(self.cur);
                    self.input.drain(self.cur..e);
                }
            }
            Key::Ctl(9) => {
                let presses = self.presses;
                let text = self.input_str();
                let byte = self.input[..self.cur].iter().map(|c| c.len_utf8()).sum();
                if let Some(q) = self.comp.as_mut() {
                    let act = q.pop_front().unwrap_or(CAct::Nothing);
                    self.comp_calls.push((text, byte, presses));
                    match act {
                        CAct::Nothing => (),
                        CAct::Insert(s) => {
                            for c in s.chars() {
                                self.input.insert(self.cur, c);
                                self.cur += 1;
                            }
                        }
                        CAct::Replace(s, c) => {
                            self.input = s.chars().collect();
                            self.cur = c.min(self.input.len());
                        }
                        a => self.deferred.push(a),
                    }
                }
            }
            Key::Ctl(10) | Key::Ctl(13) | Key::Enter | Key::Newline => {
                let s = self.input_str();
                self.add_history(&s);
                self.resp.push(Resp::Input(s));
                self.input.clear();
                self.cur = 0;
                self.hist_reset();
            }
            Key::Ctl(11) => {
                if self.cur < self.input.len() {
                    self.clip = self.input.split_off(self.cur);
                }
            }
            Key::Ctl(21) => {
                if self.cur > 0 {
                    self.clip = self.input.drain(..self.cur).collect();
                    self.cur = 0;
                }
            }
            Key::Ctl(12) => (), // the driver resets the transcript
            Key::Ctl(14) | Key::Down => match self.hidx {
                None => self.bells += 1,
                Some(i) if i + 1 >= self.hist.len() => {
                    self.input = self.orphan.take().unwrap_or_default();
                    self.cur = self.input.len();
                    self.hidx = None;
                    self.horig = None;
                }
                Some(i) => self.recall(i + 1),
            },
            Key::Ctl(16) | Key::Up => match self.hidx {
                None if self.hist.is_empty() => self.bells += 1,
                None => self.recall(self.hist.len() - 1),
                Some(0) => self.bells += 1,
                Some(i) => self.recall(i - 1),
            },
            Key::Ctl(20) => self.resp.push(Resp::Info),
            Key::Ctl(23) => {
                if self.cur > 0 {
                    let c = &self.input;
                    let sp = |i: usize| c[i].is_whitespace() || is_zw(c[i]);
                    let ns = |i: usize| !c[i].is_whitespace() || is_zw(c[i]);
                    let mut i = self.cur - 1;
                    while i > 0 && sp(i) {
                        i -= 1;
                    }
                    while i > 0 && ns(i) {
                        i -= 1;
                    }
                    if c[i].is_whitespace() && i > 0 || (i == 0 && c[0].is_whitespace() && (1..self.cur).any(|j| !sp(j))) {
                        i += 1;
                        while i < c.len() && is_zw(c[i]) {
                            i += 1;
                        }
                    }
                    self.input.drain(i..self.cur);
                    self.cur = i;
                }
            }
            Key::Ctl(24) => self.resp.push(Resp::Swap),
            Key::Ctl(25) => {
                let clip = self.clip.clone();
                for c in clip {
                    self.input.insert(self.cur, c);
                    self.cur += 1;
                }
            }
            Key::Ctl(26) => (), // only used where the driver handles it
            Key::Esc | Key::Ctl(27) => self.resp.push(Resp::Escape),
            Key::Ctl(28) => self.resp.push(Resp::Break),
            Key::Ctl(x) => self.resp.push(Resp::Unknown(*x)),
            Key::Unknown(_) | Key::Dead(_) | Key::Meta(_) => (),
        }
    }
}

// ---------------------------------------------------------------- completor

pub struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
}
impl Gate {
    pub fn new() -> Arc<Gate> {
        Arc::new(Gate { open: Mutex::new(false), cv: Condvar::new() })
    }
    pub fn open(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_all();
    }
    pub fn wait(&self) {
        let mut g = self.open.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
    }
}
#[derive(Default)]
pub struct CompLog {
    pub calls: Vec<(String, usize, u32)>,
}
pub struct Scripted {
    pub acts: VecDeque<CAct>,
    pub log: Arc<Mutex<CompLog>>,
    /// while set, the next call blocks until the gate opens (and does nothing else)
    pub hold: Arc<Mutex<Option<Arc<Gate>>>>,
}
#[cfg(feature = "completion")]
impl Completor for Scripted {
    fn complete(&mut self, output: &Output, input: &str, cursor: usize, presses: NonZeroU32) -> Option<Completion> {
        let h = self.hold.lock().unwrap().take();
        if let Some(g) = h {
            self.log.lock().unwrap().calls.push((input.to_string(), cursor, presses.get()));
            g.wait();
            return None;
        }
        self.log.lock().unwrap().calls.push((input.to_string(), cursor, presses.get()));
        match self.acts.pop_front().unwrap_or(CAct::Nothing) {
            CAct::Nothing => None,
            CAct::Insert(t) => Some(Completion::InsertAtCursor { text: t }),
            CAct::Replace(s, c) => {
                let b = s.char_indices().nth(c).map(|x| x.0).unwrap_or(s.len());
                Some(Completion::ReplaceWholeLine { new_line: s, new_cursor: b })
            }
            CAct::Print(s) => {
                output.println(s);
                None
            }
            CAct::Bell => {
                output.bell();
                None
            }
            CAct::Notice(s) => {
                output.notice(s, LONG);
                None
            }
        }
    }
}
pub const LONG: Duration = Duration::from_secs(36000);

pub struct Driver {
    pub sess: Session,
    pub io: Option<InputOutput>,
    pub clone: Option<OutputOnly>,
    pub m: Model,
    pub via: u8,
    pub log: Arc<Mutex<CompLog>>,
    pub hold: Arc<Mutex<Option<Arc<Gate>>>>,
    pub got: Vec<Resp>,
    pub vt: Option<Vt>,
    pub checks: usize,
    pub labels: std::collections::BTreeSet<&'static str>,
    /// failures noticed inside suspended functions
    pub inside: Arc<Mutex<Option<String>>>,
    pub skipped: usize,
    pub keys_typed: usize,
    pub strict_history: bool,
    /// the keys are read by crossterm, which may take a lone Escape for part of what follows
    pub lone_escapes: bool,
    /// bytes typed since it was last known that all of them had been read
    unread: usize,
    /// don't compare the screen (properties only about responses)
    pub screen: bool,
    last_raw: usize,
    /// the most rows that were ever needed
    pub peak: usize,
}
fn tail_raw(emu: &crate::emu::Emu, from: usize) -> String {
    let t = &emu.raw[from.max(emu.raw.len().saturating_sub(600)).min(emu.raw.len())..];
    String::from_utf8_lossy(t).chars().map(|c| if c.is_control() { c.escape_default().to_string() } else { c.to_string() }).collect()
}

impl Driver {
    pub fn new(cfg: SessCfg, via: u8) -> Result<Driver, String> {
        Driver::new_with(cfg, via, true)
    }
    pub fn new_with(cfg: SessCfg, via: u8, settle: bool) -> Result<Driver, String> {
        Driver::start(cfg, via, settle, None)
    }
    /// ... with a VT52 which has had its proper colours from the start
    pub fn new_vt(cfg: SessCfg, via: u8, vt: Option<Vt>) -> Result<Driver, String> {
        Driver::start(cfg, via, true, vt)
    }
    pub fn start(cfg: SessCfg, via: u8, settle: bool, vt: Option<Vt>) -> Result<Driver, String> {
        let (w, h) = (cfg.w, cfg.h);
        let sess = Session::new(cfg)?;
        if let Some(v) = vt {
            let (f, b) = v.map(Default::default());
            sess.with_emu(|e| e.power_on(f, b));
        }
        step("InputOutput::new");
        let io = InputOutput::new();
        #[allow(deprecated)]
        let clone = if w % 2 == 0 { io.clone_output() } else { io.clone_sender() };
        let d = Driver {
            sess,
            io: Some(io),
            clone: Some(clone),
            m: Model::new(w, h),
            via,
            log: Default::default(),
            hold: Default::default(),
            got: vec![],
            vt,
            checks: 0,
            labels: Default::default(),
            inside: Default::default(),
            skipped: 0,
            keys_typed: 0,
            strict_history: true,
            lone_escapes: std::env::var("LISO_CROSSTERM_INPUT").map_or(false, |v| CROSSTERM_INPUT_ON.contains(&v.as_str())),
            unread: 0,
            screen: true,
            last_raw: 0,
            peak: 0,
        };
        step("startup");
        if settle {
            d.sess.sync()?;
        }
        Ok(d)
    }
    /// Begin anew, below what's on the terminal
    pub fn restart(&mut self) -> Result<(), String> {
        let emu = self.sess.emu();
        let (w, h) = (self.m.w, self.m.h);
        let all: Vec<Row> = emu.scrollback.iter().chain(emu.rows.iter()).cloned().collect();
        self.m = Model::new(w, h);
        self.m.bells = emu.bells;
        self.m.prefix = all[..emu.cy + emu.scrollback.len()].to_vec();
        step("InputOutput::new");
        let io = InputOutput::new();
        self.clone = Some(io.clone_output());
        self.io = Some(io);
        step("startup");
        self.sess.sync()
    }
    pub fn io(&mut self) -> &mut InputOutput {
        self.io.as_mut().unwrap()
    }
    pub fn with_out<T>(&self, f: impl FnOnce(&Output) -> T) -> T {
        match self.via {
            0 => f(self.io.as_ref().unwrap()),
            1 => f(self.clone.as_ref().unwrap()),
            #[cfg(feature = "global")]
            _ => f(&liso::output()),
            #[cfg(not(feature = "global"))]
            _ => f(self.clone.as_ref().unwrap()),
        }
    }
    /// (works even when the InputOutput is gone)
    pub fn with_clone<T>(&self, f: impl FnOnce(&Output) -> T) -> T {
        f(self.clone.as_ref().unwrap())
    }
    pub fn collect(&mut self) -> Result<(), String> {
        while let Some(r) = self.io.as_mut().unwrap().try_read() {
            let r = resp_of(r)?;
            if r == Resp::Dead {
                return Err("Response::Dead received although nothing has died".into());
            }
            self.got.push(r);
        }
        Ok(())
    }
    pub fn sync(&mut self) -> Result<(), String> {
        self.sess.sync()
    }
    /// Full comparison at a quiescent point.
    pub fn check(&mut self, what: &str) -> Result<(), String> {
        self.check_events(what)?;
        self.check_view(what)
    }
    /// Everything but the screen
    pub fn check_events(&mut self, what: &str) -> Result<(), String> {
        self.checks += 1;
        self.sess.sync()?;
        if let Some(e) = self.inside.lock().unwrap().take() {
            return Err(e);
        }
        self.collect()?;
        let mut r = self.events_ok(what);
        if r.is_err() {
            self.late()?;
            self.collect()?;
            r = self.events_ok(what);
        }
        self.got.clear();
        self.m.resp.clear();
        self.m.comp_calls.clear();
        self.log.lock().unwrap().calls.clear();
        r
    }
    /// What the kernel tells about sleeping threads can, on a busy machine, be
    /// wrong for a moment; nothing is taken for wrong that a little later is right.
    fn late(&mut self) -> Result<(), String> {
        std::thread::sleep(Duration::from_millis(200));
        self.sess.sync()
    }
    fn events_ok(&mut self, what: &str) -> Result<(), String> {
        let (got, want) = (&self.got, &self.m.resp);
        if got != want {
            return Err(format!("after {what}: responses are {got:?}, expected {want:?}"));
        }
        let lg = self.log.lock().unwrap();
        let (calls, want) = (&lg.calls, &self.m.comp_calls);
        if calls != want {
            return Err(format!("after {what}: completor calls (input, cursor, presses) were {calls:?}, expected {want:?}"));
        }
        drop(lg);
        let emu = self.sess.emu();
        if emu.mid_sequence() {
            return Err(format!("after {what}: the output stops in the middle of an escape sequence"));
        }
        if emu.bells != self.m.bells {
            return Err(format!("after {what}: the bell rang {} times, expected {}", emu.bells, self.m.bells));
        }
        #[cfg(feature = "history")]
        if self.strict_history {
            let h = self.io.as_ref().unwrap().read_history().get_lines().to_vec();
            if h != self.m.hist {
                return Err(format!("after {what}: history is {h:?}, expected {:?}", self.m.hist));
            }
        }
        Ok(())
    }
    pub fn check_view(&mut self, what: &str) -> Result<(), String> {
        let emu = self.sess.emu();
        let vt = self.vt;
        if self.check_view_of(&emu, what).is_ok() {
            return Ok(());
        }
        self.late()?;
        let emu = self.sess.emu();
        self.vt = vt;
        self.check_view_of(&emu, what)
    }
    pub fn check_view_of(&mut self, emu: &crate::emu::Emu, what: &str) -> Result<(), String> {
        if self.screen {
            self.check_screen(emu).map_err(|e| format!("after {what}: {e}\nlast output: {}", tail_raw(emu, self.last_raw)))?;
            self.last_raw = emu.raw.len();
        }
        Ok(())
    }
    pub fn expected_rows(&self) -> (Vec<Row>, usize, Vec<(usize, usize)>) {
        let (l, c) = self.m.live();
        let live = layout::live_rows(&l, self.m.w, c);
        let mut rows = self.m.printed.clone();
        let printed = rows.len();
        rows.extend(live.rows);
        (rows, printed, live.cursor)
    }
    pub fn note_height(&mut self) {
        self.peak = self.peak.max(self.m.prefix.len() + self.m.printed.len() + self.m.live_height());
    }
    fn check_screen(&mut self, emu: &crate::emu::Emu) -> Result<(), String> {
        self.note_height();
        let (rows, printed, cur) = self.expected_rows();
        layout::compare(emu, &self.m.prefix, &rows, printed, self.vt)?;
        let printed = printed + self.m.prefix.len();
        let shown = self.m.notice.is_none() && self.m.allowed;
        if emu.cursor_visible != shown {
            return Err(format!(
                "the cursor is {}, but input is {} and a notice is {}",
                if emu.cursor_visible { "visible" } else { "hidden" },
                if self.m.allowed { "allowed" } else { "not allowed" },
                if self.m.notice.is_some() { "shown" } else { "not shown" }
            ));
        }
        if self.m.notice.is_none() {
            let at = (emu.cx, emu.cy + emu.scrollback.len());
            let want: Vec<(usize, usize)> = cur.iter().map(|(x, y)| ((*x).min(self.m.w - 1), y + printed)).collect();
            if !want.contains(&at) {
                return Err(format!("the cursor is at column {} row {}, expected {want:?}\n{}", at.0, at.1, emu.dump()));
            }
        }
        if emu.scrollback.len() + self.m.h > self.peak.max(self.m.h) {
            return Err(format!("the terminal scrolled {} rows although there were never more than {} to show on its {}\n{}", emu.scrollback.len(), self.peak, self.m.h, emu.dump()));
        }
        Ok(())
    }
    fn fits(m: &Model) -> bool {
        m.live_height() < m.h
    }
    /// Which of several equal lines is "the same line" is unspecified, so a history
    /// swapped in while a line is recalled has no duplicates.
    fn unambiguous(&self, op: &Op, held: bool) -> Op {
        match op {
            Op::SwapHistory(l) if held || self.m.hidx.is_some() => {
                let mut v: Vec<String> = vec![];
                for x in l {
                    if !v.contains(x) {
                        v.push(x.clone());
                    }
                }
                Op::SwapHistory(v)
            }
            o => o.clone(),
        }
    }
    /// Perform one operation on the model and the library, without waiting.
    pub fn issue(&mut self, op: &Op, held: bool) -> Result<(), String> {
        let mut next = self.m.clone();
        macro_rules! commit {
            () => {
                if !Driver::fits(&next) {
                    self.skipped += 1;
                    return Ok(());
                }
                self.m = next;
                self.note_height();
            };
        }
        step(format!("{op:?}").chars().take(200).collect::<String>());
        match op {
            Op::Println(s) => {
                next.print(&build_model(s));
                commit!();
                self.labels.insert("println");
                self.with_out(|o| o.println(build_real(s)));
            }
            Op::PrintStr(s) => {
                next.print(&ML::from_str(s));
                commit!();
                self.with_out(|o| o.println(s.as_str()));
            }
            Op::Echoln(s) => {
                next.print(&build_model(s));
                commit!();
                self.with_out(|o| o.echoln(build_real(s)));
            }
            #[cfg(not(feature = "wrap"))]
            Op::Wrapln(_) => self.skipped += 1,
            #[cfg(feature = "wrap")]
            Op::Wrapln(s) => {
                // what wrapping does to the line is another property; where it goes is ours
                let mut l = build_real(s);
                l.wrap_to_width(next.w);
                let mut ml = ML::from_line(&l);
                ml.touched = true;
                next.print(&ml);
                commit!();
                self.labels.insert("wrapln");
                self.with_out(|o| o.wrapln(build_real(s)));
            }
            Op::Status(s) => {
                next.status = s.as_ref().map(|s| build_model(s));
                commit!();
                self.labels.insert("status");
                self.with_out(|o| o.status(s.as_ref().map(|s| build_real(s))));
            }
            Op::RemoveStatus => {
                next.status = None;
                commit!();
                self.with_out(|o| o.remove_status());
            }
            Op::Prompt(s, a, c) => {
                next.prompt_op(build_model(s), *a, *c);
                commit!();
                self.labels.insert("prompt");
                #[allow(deprecated)]
                if build_model(s).is_empty() && s.len() % 2 == 0 {
                    self.with_out(|o| o.remove_prompt(*a, *c));
                } else {
                    self.with_out(|o| o.prompt(build_real(s), *a, *c));
                }
            }
            Op::Notice(s) => {
                next.notice = Some(build_model(s));
                commit!();
                self.labels.insert("notice");
                self.with_out(|o| o.notice(build_real(s), LONG));
            }
            Op::Bell => {
                next.bells += 1;
                commit!();
                self.labels.insert("bell");
                self.with_out(|o| o.bell());
            }
            Op::Custom(n) => {
                next.resp.push(Resp::Custom(*n));
                commit!();
                let n = *n;
                self.with_out(|o| if n % 2 == 0 { o.send_custom(n) } else { o.send_custom_box(Box::new(n)) });
            }
            #[cfg(not(feature = "history"))]
            Op::SwapHistory(_) => self.skipped += 1,
            #[cfg(feature = "history")]
            Op::SwapHistory(l) => {
                if !held {
                    next.swap_history(l.clone());
                }
                commit!();
                self.labels.insert("swap-history");
                let mut h = History::new();
                h.set_strip_duplicates(false).set_limit(None);
                for x in l {
                    let _ = h.add_line(x.clone());
                }
                h.set_strip_duplicates(true).set_limit(std::num::NonZeroUsize::new(100));
                let before = self.io.as_ref().unwrap().read_history().get_lines().to_vec();
                if !held {
                    self.sess.sync()?;
                }
                let old = self.io.as_ref().unwrap().swap_history(h);
                if !held {
                    self.sess.sync()?;
                }
                if !held && old.get_lines() != before.as_slice() {
                    return Err("swap_history did not return the old history".into());
                }
            }
            #[cfg(not(feature = "completion"))]
            Op::Completor(_) => self.skipped += 1,
            #[cfg(feature = "completion")]
            Op::Completor(a) => {
                next.comp = a.clone().map(|v| v.into());
                commit!();
                match a {
                    None => self.with_out(|o| o.set_completor(None)),
                    Some(v) => {
                        let c = Scripted { acts: v.clone().into(), log: self.log.clone(), hold: self.hold.clone() };
                        self.with_out(|o| o.set_completor(Some(Box::new(c))))
                    }
                }
            }
            Op::Suspend(lines) => {
                let n = next.printed.len();
                for l in lines {
                    next.print(&ML::from_str(l));
                }
                commit!();
                self.labels.insert("suspend");
                // what the screen must show when the function runs: only printed rows
                let prefix = self.m.prefix.clone();
                let rows = self.m.printed[..n].to_vec();
                let side = self.sess.side.clone();
                let orig = self.sess.orig;
                let (slave, master) = (self.sess.slave, self.sess.master);
                let vt = self.vt;
                let inside = self.inside.clone();
                let lines = lines.clone();
                let mut runs = 0;
                let screen = self.screen;
                BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                self.with_out(|o| {
                    o.suspend_and_run(move || {
                        runs += 1;
                        let mut note = |m: String| {
                            inside.lock().unwrap().get_or_insert(format!("inside suspend_and_run: {m}"));
                        };
                        if runs > 1 {
                            note("ran twice".into());
                        }
                        if !termios_eq(&termios_of(slave), &orig) {
                            note("the terminal does not have its original settings".into());
                        }
                        // collect what has been written so far
                        for _ in 0..50 {
                            let mut p = libc::pollfd { fd: master, events: libc::POLLIN, revents: 0 };
                            unsafe { libc::poll(&mut p, 1, 0) };
                            if p.revents & libc::POLLIN == 0 {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(300));
                        }
                        drain_pub(&side, master);
                        let emu = side.lock().unwrap().emu.clone();
                        if screen {
                            if let Err(e) = layout::compare(&emu, &prefix, &rows, rows.len(), vt) {
                                note(e);
                            }
                        }
                        if !emu.cursor_visible {
                            note("the cursor is hidden".into());
                        }
                        if !emu.autowrap {
                            note("line wrap is off".into());
                        }
                        if emu.attr != Attr::default() {
                            note(format!("attributes are not reset: {:?}", emu.attr));
                        }
                        let end = prefix.len() + rows.len();
                        if screen && (emu.cx != 0 || emu.cy + emu.scrollback.len() != end) {
                            note(format!("the cursor is at {},{} instead of the start of row {end}", emu.cx, emu.cy + emu.scrollback.len()));
                        }
                        for l in &lines {
                            let s = format!("{l}\n");
                            unsafe { libc::write(slave, s.as_ptr() as *const _, s.len()) };
                        }
                        BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                    })
                });
            }
            Op::Keys(_) | Op::Check | Op::Hold(_) | Op::Stop(_) | Op::Resize(..) => unreachable!(),
        }
        Ok(())
    }
    /// Effects of a key which the library performs by itself asynchronously
    fn apply_deferred(&mut self) {
        let d = std::mem::take(&mut self.m.deferred);
        for a in d {
            match a {
                CAct::Print(s) => self.m.print(&ML::from_str(&s)),
                CAct::Bell => self.m.bells += 1,
                CAct::Notice(s) => self.m.notice = Some(ML::from_str(&s)),
                _ => (),
            }
            self.note_height();
        }
    }
    pub fn key_ok(&self, k: &Key, held: bool) -> bool {
        let m = &self.m;
        if m.notice.is_some() && (!m.allowed || matches!(k, Key::Unknown(_) | Key::Dead(_))) {
            return false; // whether these dismiss a notice is unspecified
        }
        if held && matches!(k, Key::Ctl(12) | Key::Ctl(26)) {
            return false;
        }
        if matches!(k, Key::Ctl(26)) {
            return false;
        }
        let mut n = m.clone();
        n.key(k);
        if !Driver::fits(&n) {
            return false;
        }
        for a in &n.deferred {
            if let CAct::Notice(s) = a {
                n.notice = Some(ML::from_str(s));
            }
        }
        n.deferred.clear();
        // editing around control characters (only reachable through completion or
        // history) by whole visible characters is not specified further
        if m.input.iter().any(|c| is_ctl(*c) || *c == '\n')
            && !matches!(k, Key::Ch(_) | Key::Enter | Key::Newline | Key::Up | Key::Down | Key::Ctl(1) | Key::Ctl(5) | Key::Ctl(14) | Key::Ctl(16) | Key::Ctl(4) | Key::Ctl(7) | Key::Home | Key::End | Key::Ctl(9) | Key::Ctl(3))
        {
            return false;
        }
        Driver::fits(&n)
    }
    pub fn type_key(&mut self, k: &Key, next: Option<&Key>, held: bool) -> Result<(), String> {
        match k {
            // a reply to an identification request, which may arrive in pieces
            Key::Unknown(s) if self.vt.is_some() && s.len() == 2 && self.keys_typed % 2 == 0 => {
                self.sess.type_bytes(b"\x1b/")?;
                self.sess.sync()?;
                self.sess.type_bytes(&s.as_bytes()[1..])?;
            }
            _ => {
                let b = k.bytes();
                if self.lone_escapes {
                    // crossterm's reader takes at most 1024 bytes at a time (a
                    // known finding, see C29)
                    if self.unread + b.len() > 900 {
                        self.sess.sync()?;
                        self.unread = 0;
                    }
                    self.unread += b.len();
                }
                self.sess.type_bytes(&b)?
            }
        }
        self.keys_typed += 1;
        if *k == Key::Esc {
            // a lone escape: followed by nothing for a while, unless the next byte settles it
            let settles = !self.lone_escapes && match next {
                Some(n) => {
                    let b = n.bytes()[0];
                    !(0x20..0x7f).contains(&b)
                }
                None => false,
            };
            if !settles {
                self.sess.sync()?;
                std::thread::sleep(Duration::from_millis(46));
                if held || !self.m.allowed {
                    // nothing will tell us that it has been noticed
                    std::thread::sleep(Duration::from_millis(60));
                    self.sess.sync()?;
                } else {
                    let want = self.m.resp.iter().filter(|x| **x == Resp::Escape).count();
                    let until = std::time::Instant::now() + Duration::from_secs(5);
                    while self.got.iter().filter(|x| **x == Resp::Escape).count() < want && std::time::Instant::now() < until {
                        std::thread::sleep(Duration::from_millis(1));
                        self.collect()?;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn keys(&mut self, ks: &[Key], held: bool) -> Result<(), String> {
        // keys and API calls come from different threads: order them
        self.sess.sync()?;
        let translated: Vec<Key>;
        let ks = if self.vt.is_some() {
            translated = ks.iter().map(|k| k.on_vt52()).collect();
            &translated[..]
        } else {
            ks
        };
        let mut i = 0;
        while i < ks.len() {
            let k = &ks[i];
            i += 1;
            if !self.key_ok(k, held) {
                self.skipped += 1;
                continue;
            }
            if *k == Key::Esc && self.lone_escapes && (held || !self.m.allowed) {
                self.skipped += 1;
                continue;
            }
            if *k == Key::Esc && (held || !self.m.allowed) {
                // nothing would tell us when it has been noticed, so that it's
                // not taken for the start of a sequence
                match ks.get(i) {
                    Some(n) if !(0x20..0x7f).contains(&n.bytes()[0]) && self.key_ok(n, held) && *n != Key::Esc => (),
                    _ => {
                        self.skipped += 1;
                        continue;
                    }
                }
            }
            step(format!("key {k:?}"));
            if *k == Key::Ctl(12) && self.m.allowed {
                self.check("everything before Control-L")?;
                self.m.notice = None;
                self.m.presses = 0;
                self.m.prefix = self.sess.emu().scrollback;
                self.m.printed.clear();
                self.type_key(k, None, held)?;
                self.check("Control-L")?;
                self.labels.insert("clear-screen");
                continue;
            }
            self.m.key(k);
            self.note_height();
            let next = ks.get(i).filter(|n| self.key_ok(n, held));
            self.type_key(k, next, held)?;
            if !self.m.deferred.is_empty() {
                self.sess.sync()?;
                self.apply_deferred();
            }
        }
        self.sess.sync()
    }
    pub fn op(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Check => self.check("a sequence of operations"),
            Op::Keys(k) => {
                self.keys(k, false)?;
                self.check("typing keys")
            }
            Op::Hold(ops) => {
                if !COMPLETION || !self.m.allowed || self.m.notice.is_some() {
                    for o in ops {
                        self.op(o)?;
                    }
                    return Ok(());
                }
                // a Tab whose completor waits for us
                self.sess.sync()?;
                let saved = self.m.comp.clone();
                let gate = Gate::new();
                *self.hold.lock().unwrap() = Some(gate.clone());
                if saved.is_none() {
                    self.install_holder();
                    self.sess.sync()?;
                }
                self.m.presses += 1;
                let byte = self.m.input[..self.m.cur].iter().map(|c| c.len_utf8()).sum();
                let call = (self.m.input_str(), byte, self.m.presses);
                self.m.comp_calls.push(call);
                self.sess.type_bytes(b"\t")?;
                step("hold");
                HELD.store(true, std::sync::atomic::Ordering::SeqCst);
                self.sess.sync()?;
                self.labels.insert("held-batch");
                // the history the held-up keys will see is the last one installed,
                // even if they were typed before it was
                let ops: Vec<Op> = ops.iter().map(|o| self.unambiguous(o, true)).collect();
                let last = ops.iter().rev().find_map(|o| match o {
                    Op::SwapHistory(l) => Some(l.clone()),
                    _ => None,
                });
                if let Some(l) = last {
                    self.m.swap_history(l);
                }
                let ops = &ops;
                if saved.is_none() {
                    self.remove_holder();
                }
                for o in ops {
                    match o {
                        Op::Check | Op::Hold(_) | Op::Stop(_) | Op::Resize(..) => (),
                        Op::Keys(k) => {
                            let k: Vec<Key> = k.iter().filter(|k| !matches!(k, Key::Ctl(9))).cloned().collect();
                            self.keys(&k, true)?
                        }
                        o => self.issue(o, true)?,
                    }
                }
                HELD.store(false, std::sync::atomic::Ordering::SeqCst);
                gate.open();
                self.check("a batch of operations queued together")
            }
            Op::Stop(t) => self.control_z(t),
            Op::Resize(w, l) => self.resize(*w, l),
            o => {
                let o = self.unambiguous(o, false);
                self.issue(&o, false)
            }
        }
    }
    #[cfg(feature = "completion")]
    fn install_holder(&self) {
        let c = Scripted { acts: VecDeque::new(), log: self.log.clone(), hold: self.hold.clone() };
        self.with_out(|o| o.set_completor(Some(Box::new(c))));
    }
    #[cfg(feature = "completion")]
    fn remove_holder(&self) {
        self.with_out(|o| o.set_completor(None));
    }
    #[cfg(not(feature = "completion"))]
    fn install_holder(&self) {}
    #[cfg(not(feature = "completion"))]
    fn remove_holder(&self) {}
    /// Liso isn't told about the terminal's width; it looks when it outputs something.
    fn resize(&mut self, w: usize, l: &LSpec) -> Result<(), String> {
        let mut next = self.m.clone();
        next.w = w;
        if self.vt.is_some() || !Driver::fits(&next) {
            self.skipped += 1;
            return Ok(());
        }
        self.check("everything before the terminal's width changed")?;
        step(format!("resize to {w}"));
        self.labels.insert("resize");
        self.sess.resize(w);
        let emu = self.sess.emu();
        let upto = self.m.prefix.len() + self.m.printed.len();
        self.m.prefix = emu.scrollback.iter().chain(emu.rows.iter()).take(upto).cloned().collect();
        self.m.printed.clear();
        self.m.w = w;
        self.issue(&Op::Println(l.clone()), false)?;
        self.check("a line was printed after the terminal's width changed")
    }
    fn control_z(&mut self, text: &str) -> Result<(), String> {
        self.check("everything before Control-Z")?;
        if !self.m.allowed {
            return Ok(());
        }
        step("Control-Z");
        self.labels.insert("control-z");
        let marker = format!("{{{}}}", text.chars().take(self.m.w.saturating_sub(2)).collect::<String>());
        let mut then = self.sess.emu();
        let from = then.raw.len();
        let helper = StopHelper::start(self.sess.slave, &format!("{marker}\r\n"));
        self.m.notice = None;
        self.m.presses = 0;
        self.sess.type_bytes(&[26])?;
        let t = helper.wait(Duration::from_secs(8)).map_err(|e| format!("SUSPECT:Control-Z: {e}"))?;
        self.sess.sync()?;
        if !termios_eq(&t, &self.sess.orig) {
            return Err("while stopped by Control-Z, the terminal did not have its original settings".into());
        }
        if !termios_is_raw(&self.sess.termios()) {
            return Err("after being stopped by Control-Z, the terminal was not put in raw mode again".into());
        }
        let emu = self.sess.emu();
        // what it looked like when the marker was printed
        let raw = &emu.raw[from..];
        let at = raw.windows(marker.len()).position(|w| w == marker.as_bytes()).ok_or_else(|| "HARNESS: the marker is not in the output".to_string())?;
        let start_attr = crate::emu::Emu::new(emu.kind, emu.w, emu.h).attr;
        then.feed(&emu.raw[from..from + at]);
        if !then.cursor_visible {
            return Err("while stopped by Control-Z, the cursor was hidden".into());
        }
        if !then.autowrap {
            return Err("while stopped by Control-Z, line wrap was off".into());
        }
        if then.attr != start_attr {
            return Err(format!("while stopped by Control-Z, attributes were not reset: {:?}", then.attr));
        }
        if then.cx != 0 {
            return Err(format!("while stopped by Control-Z, the cursor was in column {}", then.cx));
        }
        for i in then.cy..then.h {
            let x: String = crate::emu::Emu::row_text(&then.rows[i]);
            if x.chars().any(|c| c != ' ') {
                return Err(format!("while stopped by Control-Z, there was still {x:?} below the cursor"));
            }
        }
        // everything printed earlier is still there; what of the live area is left
        // above the marker is not specified
        let then_rows: Vec<Row> = then.scrollback.iter().chain(then.rows.iter()).cloned().collect();
        let conv = |r: &Row| match self.vt {
            Some(v) => v.row(r),
            None => r.clone(),
        };
        let rows = self.m.prefix.iter().cloned().chain(self.m.printed.iter().map(conv));
        for (i, want) in rows.enumerate() {
            for x in 0..emu.w {
                if !layout::same_cell(emu.kind, &want[x], &then_rows[i][x], self.vt.is_none()) {
                    return Err(format!("while stopped by Control-Z, printed row {i} was damaged\n{}", then.dump()));
                }
            }
        }
        let upto = then.cy + then.scrollback.len();
        self.m.prefix = then_rows[..upto].to_vec();
        self.m.printed = layout::printed_rows(&ML::from_str(&marker), emu.w);
        self.check("resuming from Control-Z")
    }
    /// End the session and check the state of the terminal afterwards.
    pub fn finish(mut self, how: u8) -> Result<Driver, String> {
        self.sess.sync()?;
        self.collect()?;
        step(format!("shutdown ({how})"));
        let io = self.io.take().unwrap();
        match how {
            0 => drop(io),
            1 => io.blocking_die(),
            _ => {
                let rt = tokio_rt();
                rt.block_on(io.die());
            }
        }
        step("after shutdown");
        self.after_shutdown()?;
        Ok(self)
    }
    pub fn after_shutdown(&mut self) -> Result<(), String> {
        self.sess.sync()?;
        self.ended("after shutdown")
    }
    /// What must be true once it's over (without waiting for anything)
    pub fn ended(&mut self, what: &str) -> Result<(), String> {
        let emu = self.sess.emu();
        let end = self.m.prefix.len() + self.m.printed.len();
        if self.screen {
            layout::compare(&emu, &self.m.prefix, &self.m.printed, self.m.printed.len(), self.vt).map_err(|e| format!("{what}: {e}"))?;
        }
        if !termios_eq(&self.sess.termios(), &self.sess.orig) {
            return Err(format!("{what}: the terminal settings are not the original ones"));
        }
        if !emu.cursor_visible {
            return Err(format!("{what}: the cursor is hidden"));
        }
        if !emu.autowrap {
            return Err(format!("{what}: line wrap is off"));
        }
        if emu.attr != Attr::default() {
            return Err(format!("{what}: attributes are not reset: {:?}", emu.attr));
        }
        if emu.bells != self.m.bells {
            return Err(format!("{what}: the bell rang {} times, expected {}", emu.bells, self.m.bells));
        }
        if self.screen && (emu.cx != 0 || emu.cy + emu.scrollback.len() != end) {
            return Err(format!("{what}: the cursor is at column {}, row {}, not at the start of row {end}", emu.cx, emu.cy + emu.scrollback.len()));
        }
        Ok(())
    }
}
/// A forked process which waits until we are stopped, notes the terminal's
/// settings, prints something, and lets us continue.
struct StopHelper {
    pid: i32,
    shm: *mut StopShm,
}
#[repr(C)]
struct StopShm {
    state: std::sync::atomic::AtomicI32,
    t: libc::termios,
}
impl StopHelper {
    fn start(slave: i32, text: &str) -> StopHelper {
        let path = std::ffi::CString::new(format!("/proc/{}/stat", std::process::id())).unwrap();
        unsafe {
            let shm = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut StopShm;
            let parent = libc::getpid();
            let pid = libc::fork();
            if pid == 0 {
                // only async-signal-safe things from here on
                libc::setpgid(0, 0);
                libc::signal(libc::SIGTTOU, libc::SIG_IGN);
                let mut stopped = false;
                for _ in 0..8000 {
                    let fd = libc::open(path.as_ptr(), libc::O_RDONLY);
                    let mut buf = [0u8; 512];
                    let n = libc::read(fd, buf.as_mut_ptr() as *mut _, 512);
                    libc::close(fd);
                    if n <= 0 {
                        libc::_exit(0);
                    }
                    let b = &buf[..n as usize];
                    if let Some(i) = b.iter().rposition(|c| *c == b')') {
                        if b.get(i + 2) == Some(&b'T') {
                            stopped = true;
                            break;
                        }
                    }
                    libc::usleep(1000);
                }
                if stopped {
                    libc::tcgetattr(slave, &mut (*shm).t);
                    libc::write(slave, text.as_ptr() as *const _, text.len());
                }
                (*shm).state.store(if stopped { 1 } else { 2 }, std::sync::atomic::Ordering::SeqCst);
                if stopped {
                    libc::kill(parent, libc::SIGCONT);
                }
                libc::_exit(0);
            }
            StopHelper { pid, shm }
        }
    }
    fn wait(self, limit: Duration) -> Result<libc::termios, String> {
        let until = std::time::Instant::now() + limit;
        loop {
            let st = unsafe { (*self.shm).state.load(std::sync::atomic::Ordering::SeqCst) };
            if st == 1 {
                unsafe {
                    let mut x = 0;
                    libc::waitpid(self.pid, &mut x, 0);
                    return Ok((*self.shm).t);
                }
            }
            if st == 2 || std::time::Instant::now() > until {
                unsafe {
                    libc::kill(self.pid, libc::SIGKILL);
                    let mut x = 0;
                    libc::waitpid(self.pid, &mut x, 0);
                }
                return Err("the process was not stopped".into());
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}
pub fn drain_pub(side: &Arc<Mutex<Side>>, master: i32) {
    let mut buf = [0u8; 8192];
    let mut s = side.lock().unwrap();
    loop {
        let mut p = libc::pollfd { fd: master, events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut p, 1, 0) };
        if p.revents & libc::POLLIN == 0 {
            return;
        }
        let n = unsafe { libc::read(master, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            return;
        }
        s.emu.feed(&buf[..n as usize]);
    }
}
/// A minimal executor for the async API.
pub struct Rt;
pub fn tokio_rt() -> Rt {
    Rt
}
impl Rt {
    pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output {
        use std::task::{Context, Poll, Wake, Waker};
        struct W(std::thread::Thread);
        impl Wake for W {
            fn wake(self: Arc<Self>) {
                self.0.unpark();
            }
        }
        let w = Waker::from(Arc::new(W(std::thread::current())));
        let mut cx = Context::from_waker(&w);
        let mut f = std::pin::pin!(f);
        loop {
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(x) => return x,
                Poll::Pending => std::thread::park(),
            }
        }
    }
}

pub fn vt_for(term: &str, w: usize, h: usize, wob: bool) -> Option<Vt> {
    let main = term.split('-').next().unwrap_or("");
    let family = ["st52", "tw52", "tt52", "at", "atari", "atarist", "atari_st", "vt52", "stv52", "stv52pc"];
    if !family.contains(&main) {
        return None;
    }
    let mono = main == "vt52" || term.ends_with("-m");
    let colors = if mono {
        2
    } else if main.contains("st") {
        match (w, h) {
            (80, 25) => 4,
            (40, 25) => 16,
            _ => 2,
        }
    } else {
        16
    };
    Some(Vt { colors, white_on_black: wob })
}

/// The common runner: all operations, then shutdown.
pub fn run_tty(case: &TtyCase) -> Result<(bool, Vec<String>), String> {
    let d = session(case)?.finish(case.end)?;
    Ok(summary(d))
}
/// Everything but the shutdown
pub fn session(case: &TtyCase) -> Result<Driver, String> {
    let vt = vt_for(&case.term, case.w, case.h, false);
    let cfg = SessCfg {
        // a terminal that doesn't report its size has 80 columns
        w: if case.w == 0 { 80 } else { case.w },
        no_size: case.w == 0,
        h: case.h,
        term: Some(case.term.clone()),
        kind: if vt.is_some() { Kind::Vt52 } else { Kind::Ansi { bce: case.bce } },
        ..Default::default()
    };
    let mut d = Driver::new_vt(cfg, case.via, vt)?;
    for op in &case.ops {
        d.op(op)?;
    }
    d.check("the last operation")?;
    Ok(d)
}
pub fn summary(d: Driver) -> (bool, Vec<String>) {
    let nt = d.checks >= 2 && d.labels.len() + d.keys_typed.min(2) >= 2;
    let mut labels: Vec<String> = d.labels.iter().map(|s| s.to_string()).collect();
    if d.keys_typed > 0 {
        labels.push("keys".into());
    }
    if !d.sess.emu().scrollback.is_empty() {
        labels.push("scrolled".into());
    }
    let _ = pty::panic_seen();
    (nt, labels)
}
