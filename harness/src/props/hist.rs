//! Properties of the history: contents, files, autosaving.
use crate::engine::*;
use crate::faults::{self, Plan};
use crate::lm::*;
use crate::pty::{self, SessCfg};
use crate::tty::{Driver, Key, Resp};
use liso::History;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::num::NonZeroUsize;
use std::path::Path;
use std::sync::{Arc, Mutex};

fn hline() -> BoxedStrategy<String> {
    prop_oneof![
        600 => proptest::sample::select(vec!["a", "b", "c", "d", "", "aa", " a", "a ", "é"]).prop_map(|s| s.to_string()),
        200 => text_of(vis_char(), 6),
        100 => text_of(any_char(), 5),
        1 => text_of(any_char(), 300),
    ]
    .boxed()
}
fn fline() -> BoxedStrategy<String> {
    // lines which a file can represent
    prop_oneof![
        6 => proptest::sample::select(vec!["a", "b", "c", "d", "", "aa", " a", "a ", "é", "\u{1}x", "\u{85}", "\u{2028}", "\u{feff}", "\u{feff}b"]).prop_map(|s| s.to_string()),
        3 => text_of(any_char(), 8),
        1 => prop_oneof![15 => text_of(any_char(), 8), 1 => text_of(any_char(), 600)],
    ]
    .prop_map(|s| s.chars().filter(|c| !matches!(c, '\n' | '\r')).collect())
    .boxed()
}

// ------------------------------------------------------------------ C05
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Add(String),
    AddMany(u16),
    Limit(Option<usize>),
    Strip(bool),
}
pub struct C05;
impl C05 {
    fn run(ops: &[HOp]) -> Result<(bool, Vec<String>), String> {
        let mut h = History::new();
        let mut m: Vec<String> = vec![];
        // the documented defaults
        let (mut limit, mut strip) = (Some(100usize), true);
        let (mut dropped, mut stripped) = (0, 0);
        let mut counter = 0;
        for (i, op) in ops.iter().enumerate() {
            let mut adds = vec![];
            match op {
                HOp::Add(s) => adds.push(s.clone()),
                HOp::AddMany(n) => {
                    for _ in 0..*n {
                        adds.push(format!("n{counter}"));
                        counter += 1;
                    }
                }
                HOp::Limit(l) => {
                    limit = *l;
                    h.set_limit(l.and_then(NonZeroUsize::new));
                }
                HOp::Strip(b) => {
                    strip = *b;
                    h.set_strip_duplicates(*b);
                }
            }
            for s in adds {
                if strip {
                    let n = m.len();
                    m.retain(|x| *x != s);
                    stripped += n - m.len();
                }
                m.push(s.clone());
                if let Some(l) = limit {
                    if m.len() > l {
                        dropped += m.len() - l;
                        m.drain(..m.len() - l);
                    }
                }
                h.add_line(s.clone()).map_err(|e| format!("add_line failed without any autosave: {e}"))?;
                if h.get_lines() != m.as_slice() {
                    return Err(format!("after operation {i} (adding {s:?}), the history is {:?}, expected {m:?}", h.get_lines()));
                }
            }
            if h.get_lines() != m.as_slice() {
                return Err(format!("after operation {i} ({op:?}), the history is {:?}, expected {m:?}", h.get_lines()));
            }
        }
        let mut lab = vec![];
        if dropped > 0 {
            lab.push("limit-reached".to_string())
        }
        if stripped > 0 {
            lab.push("duplicate-stripped".into())
        }
        Ok((dropped + stripped > 0, lab))
    }
}
impl Prop for C05 {
    type Case = Vec<HOp>;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "sequences of 0-40 operations (add from a small and a large alphabet, add up to 130 distinct lines, change limit, toggle stripping), compared with a list model after every addition; non-trivial: some line was dropped by the limit or stripped as duplicate"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Vec<HOp>> {
        let op = prop_oneof![
            20 => hline().prop_map(HOp::Add),
            1 => prop_oneof![300 => 1u16..130, 1 => 130u16..3000].prop_map(HOp::AddMany),
            2 => prop_oneof![10 => Just(None), 10 => (1usize..6).prop_map(Some), 10 => (1usize..120).prop_map(Some), 1 => (120usize..3000).prop_map(Some), 1 => Just(Some(usize::MAX))].prop_map(HOp::Limit),
            2 => any::<bool>().prop_map(HOp::Strip),
        ];
        proptest::collection::vec(op, 0..40).boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_500_000, 20_000_000)
    }
    fn exec(&self, c: &Vec<HOp>) -> Verdict {
        guarded(c, |c| C05::run(c))
    }
}

// ------------------------------------------------------------------ C06
/// What is at a path beforehand
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Entry {
    Missing,
    Lines { lines: Vec<String>, bom: bool, crlf: bool, no_final_newline: bool },
    Directory,
    InvalidUtf8,
}
impl Entry {
    fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            Entry::Lines { lines, bom, crlf, no_final_newline } => {
                let mut v = vec![];
                // (a byte-order mark which is part of the first line has to
                // have another one before it)
                if lines.first().map_or(false, |l| *bom || l.starts_with('\u{feff}')) {
                    v.extend_from_slice("\u{feff}".as_bytes());
                }
                for (i, l) in lines.iter().enumerate() {
                    v.extend_from_slice(l.as_bytes());
                    let last = i + 1 == lines.len();
                    if !(last && *no_final_newline && !l.is_empty()) {
                        v.extend_from_slice(if *crlf { b"\r\n" } else { b"\n" });
                    }
                }
                Some(v)
            }
            Entry::InvalidUtf8 => Some(b"abc\n\xff\xfe\n".to_vec()),
            _ => None,
        }
    }
    fn place(&self, p: &Path) {
        let _ = std::fs::remove_file(p);
        let _ = std::fs::remove_dir_all(p);
        match self {
            Entry::Missing => (),
            Entry::Directory => std::fs::create_dir(p).unwrap(),
            e => std::fs::write(p, e.bytes().unwrap()).unwrap(),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Save {
    add: Vec<String>,
    /// what goes wrong during it (None: nothing)
    fault: Option<Fault>,
    /// by the handler set up by from_file: on the interval, or on drop
    on_drop: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    Crash(u32, u32),
    Fail(u32, u8),
    FailAll(u32, u8),
    Short(u32, u32),
}
const ERRNOS: [i32; 4] = [libc::ENOSPC, libc::EIO, libc::EACCES, libc::EROFS];
impl Fault {
    fn plan(&self) -> Plan {
        match *self {
            Fault::Crash(at, torn) => Plan::Crash { at, torn },
            Fault::Fail(at, e) => Plan::Fail { at, errno: ERRNOS[e as usize % 4] },
            Fault::FailAll(at, e) => Plan::FailAll { at, errno: ERRNOS[e as usize % 4] },
            Fault::Short(at, len) => Plan::Short { at, len },
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C06Case {
    /// load under every combination of entries
    Load { history: Entry, backup: Entry },
    /// explicit write_history_to / read_history_from round trip
    Round(Vec<String>),
    /// histories of saves, with every crash point and fault of the last save tried in turn
    Saves { history: Entry, backup: Entry, build: Entry, saves: Vec<Save>, last: Save },
}
pub struct C06;

struct Dir(std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// expected result of loading
fn expect_load(h: &Entry, b: &Entry) -> Result<Vec<String>, ()> {
    let load = |e: &Entry| -> Result<Vec<String>, bool> {
        match e {
            Entry::Missing => Err(true),
            Entry::Lines { lines, .. } => Ok(lines.clone()),
            _ => Err(false),
        }
    };
    match load(h) {
        Ok(v) if v.is_empty() => match load(b) {
            Ok(v) => Ok(v),
            Err(true) => Ok(vec![]),
            Err(false) => Err(()),
        },
        Ok(v) => Ok(v),
        Err(true) => match load(b) {
            Ok(v) => Ok(v),
            Err(true) => Ok(vec![]),
            Err(false) => Err(()),
        },
        Err(false) => Err(()),
    }
}
fn load(p: &Path) -> Result<Vec<String>, String> {
    let mut h = History::from_file(p).map_err(|e| format!("{e}"))?;
    h.set_autosave_handler(None);
    Ok(h.get_lines().to_vec())
}
fn model_add(m: &mut Vec<String>, add: &[String]) {
    for s in add {
        m.retain(|x| x != s);
        m.push(s.clone());
        if m.len() > 100 {
            m.remove(0);
        }
    }
}

impl C06 {
    /// Perform one save with a plan; returns (operations, hit kind, result, old, new contents)
    fn save(p: &Path, s: &Save, plan: Plan) -> Result<(u32, u8, Option<std::io::Result<()>>, Vec<String>, Vec<String>), String> {
        let mut h = History::from_file(p).map_err(|e| format!("loading before the save failed: {e}"))?;
        let old = h.get_lines().to_vec();
        let mut new = old.clone();
        model_add(&mut new, &s.add);
        let (last, rest) = s.add.split_last().unwrap();
        for l in rest {
            h.add_line(l.clone()).map_err(|e| format!("add_line: {e}"))?;
        }
        if s.on_drop {
            h.add_line(last.clone()).map_err(|e| format!("add_line: {e}"))?;
            faults::arm(plan);
            drop(h);
            let (n, k) = faults::disarm();
            Ok((n, k, None, old, new))
        } else {
            h.set_autosave_interval(NonZeroUsize::new(1));
            faults::arm(plan);
            let r = h.add_line(last.clone());
            let (n, k) = faults::disarm();
            h.set_autosave_handler(None);
            Ok((n, k, Some(r), old, new))
        }
    }
    fn judge(p: &Path, s: &Save, plan: Plan, what: &str) -> Result<(u32, u8), String> {
        let (n, k, r, old, new) = C06::save(p, s, plan)?;
        let now = load(p).map_err(|e| format!("{what}: loading afterwards failed: {e} (the save returned {r:?})"))?;
        if now != old && now != new {
            return Err(format!("{what}: afterwards the file holds {now:?}, which is neither the previous history {old:?} nor the new one {new:?} (the save returned {r:?})"));
        }
        let crashed = matches!(plan, Plan::Crash { .. }) && k != 0;
        if let Some(Ok(())) = r {
            if !crashed && now != new {
                return Err(format!("{what}: the save reported success, but afterwards the file holds {now:?} instead of {new:?}"));
            }
        }
        if k == 0 {
            // nothing went wrong
            if let Some(Err(e)) = r {
                return Err(format!("{what}: a save failed although nothing went wrong: {e}"));
            }
            if now != new {
                return Err(format!("{what}: after a normal save the file holds {now:?} instead of {new:?}"));
            }
        }
        Ok((n, k))
    }
    fn run(c: &C06Case) -> Result<(bool, Vec<String>, u64), String> {
        let d = Dir(faults::scratch());
        let p = d.0.join("hist");
        let b = d.0.join("hist~");
        match c {
            C06Case::Load { history, backup } => {
                history.place(&p);
                backup.place(&b);
                let want = expect_load(history, backup);
                let got = load(&p);
                match (&want, &got) {
                    (Ok(w), Ok(g)) if w == g => (),
                    (Err(()), Err(_)) => (),
                    _ => return Err(format!("loading gave {got:?}, expected {want:?}")),
                }
                if let Some(bytes) = history.bytes() {
                    // loading does not alter the file
                    if std::fs::read(&p).ok() != Some(bytes) {
                        return Err("loading altered the history file".into());
                    }
                    if let Ok(w) = expect_load(history, &Entry::Missing) {
                        let mut h = History::new();
                        let _ = h.add_line("zzz".into());
                        let n = h.read_history_from(&p).map_err(|e| format!("read_history_from: {e}"))?;
                        if n != w.len() || h.get_lines() != w.as_slice() {
                            return Err(format!("read_history_from gave {n} lines {:?}, expected {w:?}", h.get_lines()));
                        }
                    }
                }
                Ok((*history != Entry::Missing, vec!["load".into()], 1))
            }
            C06Case::Round(lines) => {
                let mut h = History::new();
                h.set_strip_duplicates(false).set_limit(None);
                for l in lines {
                    let _ = h.add_line(l.clone());
                }
                h.write_history_to(&p).map_err(|e| format!("write_history_to: {e}"))?;
                let mut g = History::new();
                let n = g.read_history_from(&p).map_err(|e| format!("read_history_from: {e}"))?;
                if n != lines.len() || g.get_lines() != lines.as_slice() {
                    return Err(format!("wrote {lines:?}, read back {n} lines: {:?}", g.get_lines()));
                }
                // errors writing are reported
                let mut k = 0;
                loop {
                    faults::arm(Plan::Fail { at: k, errno: libc::ENOSPC });
                    let r = h.write_history_to(&p);
                    let (_, hit) = faults::disarm();
                    if hit == 0 {
                        break;
                    }
                    if r.is_ok() && hit == faults::K_WRITE {
                        return Err(format!("write_history_to reported success although write {k} failed"));
                    }
                    k += 1;
                }
                Ok((lines.len() >= 2, vec!["round-trip".into()], 1 + k as u64))
            }
            C06Case::Saves { history, backup, build, saves, last } => {
                history.place(&p);
                backup.place(&b);
                build.place(&d.0.join("hist^"));
                if expect_load(history, backup).is_err() {
                    return Ok((false, vec!["unloadable".into()], 0));
                }
                let mut evals = 0;
                for (i, s) in saves.iter().enumerate() {
                    let plan = s.fault.map(|f| f.plan()).unwrap_or(Plan::Count);
                    C06::judge(&p, s, plan, &format!("save {i} with {:?}", s.fault))?;
                    evals += 1;
                }
                // now every crash point, torn write and failure of one more save
                let copy = d.0.join("copy");
                std::fs::create_dir(&copy).unwrap();
                let names = ["hist", "hist~", "hist^"];
                for n in names {
                    let _ = std::fs::copy(d.0.join(n), copy.join(n));
                }
                let restore = || {
                    for e in std::fs::read_dir(&d.0).unwrap().flatten() {
                        if e.path() != copy {
                            let _ = std::fs::remove_file(e.path());
                        }
                    }
                    for n in names {
                        let _ = std::fs::copy(copy.join(n), d.0.join(n));
                    }
                };
                let mut hits = 0;
                for mode in 0..9u32 {
                    let mut at = 0;
                    loop {
                        restore();
                        let plan = match mode {
                            0 => Plan::Crash { at, torn: 0 },
                            1 => Plan::Crash { at, torn: 1 },
                            2 => Plan::Crash { at, torn: 5 },
                            3 => Plan::Crash { at, torn: u32::MAX },
                            4 => Plan::Fail { at, errno: libc::ENOSPC },
                            5 => Plan::Fail { at, errno: libc::EACCES },
                            6 => Plan::FailAll { at, errno: libc::EIO },
                            7 => Plan::Short { at, len: 1 },
                            _ => Plan::Fail { at, errno: libc::EINTR },
                        };
                        let what = format!("{plan:?}{}", if last.on_drop { " (on drop)" } else { "" });
                        let (n, k) = C06::judge(&p, last, plan, &what)?;
                        evals += 1;
                        if k != 0 {
                            hits += 1;
                            // it can be retried
                            let again = Save { add: vec!["retry".into()], fault: None, on_drop: false };
                            C06::judge(&p, &again, Plan::Count, &format!("retrying after {what}"))?;
                        }
                        at += 1;
                        if at > n {
                            break;
                        }
                    }
                }
                Ok((hits >= 8, vec!["save-faults".into(), format!("saves-{}", saves.len() + 1)], evals))
            }
        }
    }
}
fn entry(bad: bool) -> BoxedStrategy<Entry> {
    let lines = (proptest::collection::vec(fline(), 0..5), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(lines, bom, crlf, no_final_newline)| Entry::Lines { lines, bom, crlf, no_final_newline });
    let plain = proptest::collection::vec(fline(), 1..5).prop_map(|lines| Entry::Lines { lines, bom: false, crlf: false, no_final_newline: false });
    let empty = Just(Entry::Lines { lines: vec![], bom: false, crlf: false, no_final_newline: false });
    if bad {
        prop_oneof![3 => Just(Entry::Missing), 4 => lines, 2 => empty, 1 => Just(Entry::Directory), 1 => Just(Entry::InvalidUtf8)].boxed()
    } else {
        prop_oneof![2 => Just(Entry::Missing), 4 => plain, 2 => lines, 1 => empty].boxed()
    }
}
fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        4 => (0u32..8, prop_oneof![Just(0u32), 1u32..12, Just(u32::MAX)]).prop_map(|(a, t)| Fault::Crash(a, t)),
        2 => (0u32..8, 0u8..4).prop_map(|(a, e)| Fault::Fail(a, e)),
        1 => (0u32..8, 0u8..4).prop_map(|(a, e)| Fault::FailAll(a, e)),
        1 => (0u32..8, 1u32..6).prop_map(|(a, e)| Fault::Short(a, e)),
    ]
    .boxed()
}
fn save_strat() -> BoxedStrategy<Save> {
    (proptest::collection::vec(fline(), 1..4), proptest::option::weighted(0.7, fault()), any::<bool>()).prop_map(|(add, fault, on_drop)| Save { add, fault, on_drop }).boxed()
}
impl Prop for C06 {
    type Case = C06Case;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "(a) loading every kind of history/backup entry; (b) write/read round trips; (c) histories of saves with random faults, after which EVERY file operation of one more save is in turn made a crash point (with none, part or all of a write done), a failure (3 errors), a persistent failure, a short write and an interruption; each is followed by loading and by a retry. elementary_checks counts the individual saves; non-trivial: an existing file was loaded, or at least 8 faults actually struck"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C06Case> {
        prop_oneof![
            3 => (entry(true), entry(true)).prop_map(|(history, backup)| C06Case::Load { history, backup }),
            2 => proptest::collection::vec(fline(), 0..8).prop_map(C06Case::Round),
            3 => (entry(false), prop_oneof![3 => Just(Entry::Missing), 2 => entry(false)], prop_oneof![3 => Just(Entry::Missing), 1 => entry(false)], proptest::collection::vec(save_strat(), 0..4), save_strat())
                .prop_map(|(history, backup, build, saves, last)| C06Case::Saves { history, backup, build, saves, last }),
        ]
        .boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<C06Case> {
        let l = |v: &[&str]| Entry::Lines { lines: v.iter().map(|s| s.to_string()).collect(), bom: false, crlf: false, no_final_newline: false };
        let mut out = vec![];
        let es = vec![Entry::Missing, l(&[]), l(&["a"]), l(&["", "b"]), Entry::Directory, Entry::InvalidUtf8];
        for history in &es {
            for backup in &es {
                out.push(C06Case::Load { history: history.clone(), backup: backup.clone() });
            }
        }
        for history in &es[..4] {
            for backup in &es[..4] {
                for build in &es[..3] {
                    for on_drop in [false, true] {
                        out.push(C06Case::Saves {
                            history: history.clone(),
                            backup: backup.clone(),
                            build: build.clone(),
                            saves: vec![],
                            last: Save { add: vec!["new".into()], fault: None, on_drop },
                        });
                    }
                }
            }
        }
        // files larger than any buffer
        let big: Vec<String> = (0..90).map(|i| format!("{i} {}", "x".repeat(400))).collect();
        out.push(C06Case::Round(big.clone()));
        out.push(C06Case::Saves {
            history: Entry::Lines { lines: big.clone(), bom: false, crlf: false, no_final_newline: false },
            backup: Entry::Missing,
            build: Entry::Missing,
            saves: vec![],
            last: Save { add: vec!["new".into()], fault: None, on_drop: false },
        });
        out
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(40_000, 600_000)
    }
    fn valid(&self, c: &C06Case) -> bool {
        let ok = |l: &Vec<String>| l.iter().all(|l| !l.contains(['\n', '\r']));
        let entry = |e: &Entry| match e {
            Entry::Lines { lines, .. } => ok(lines),
            _ => true,
        };
        match c {
            C06Case::Load { history, backup } => entry(history) && entry(backup),
            C06Case::Round(l) => ok(l),
            C06Case::Saves { history, backup, build, saves, last } => {
                // (those before a save have to be readable)
                [history, backup, build].into_iter().all(|e| entry(e) && !matches!(e, Entry::Directory | Entry::InvalidUtf8)) && saves.iter().chain([last]).all(|s| !s.add.is_empty() && ok(&s.add))
            }
        }
    }
    fn exec(&self, c: &C06Case) -> Verdict {
        static OK: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        if !*OK.get_or_init(faults::works) {
            return Verdict::Error("fault injection does not take effect in this build".into());
        }
        guarded(c, |c| match std::panic::catch_unwind(|| C06::run(c)) {
            Ok(r) => r.map(|(nt, l, _)| (nt, l)),
            Err(e) => {
                faults::disarm();
                Err(format!("panic: {}", panic_text(&e)))
            }
        })
    }
    fn weight(&self, c: &C06Case) -> u64 {
        // measured again, cheaply: only counts what was run
        match C06::run(c) {
            Ok((_, _, n)) => n.max(1),
            _ => 1,
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a crash is the process dying (the operating system keeps what it was told); it is simulated by making the struck operation and all later ones have no effect".into(),
             "lines containing a line feed or carriage return, or a byte-order mark, are not representable and not generated".into()]
    }
}

// ------------------------------------------------------------------ C07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AOp {
    Add(String),
    /// change the interval (only when no line is pending, else skipped)
    Interval(Option<usize>),
    /// replace the handler by one with a new identity
    Handler,
    Strip(bool),
    Limit(Option<usize>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C07Case {
    Api { ops: Vec<AOp>, fails: Vec<bool> },
    Tty { interval: Option<usize>, lines: Vec<String>, fails: Vec<bool>, end: u8, swap: bool },
}
pub struct C07;

#[derive(Default)]
struct Rec {
    calls: Vec<(u32, Vec<String>, bool)>,
    fails: Vec<bool>,
}
fn handler(id: u32, rec: &Arc<Mutex<Rec>>) -> Box<dyn Fn(&History) -> std::io::Result<()> + Send + Sync> {
    let rec = rec.clone();
    Box::new(move |h: &History| {
        let mut r = rec.lock().unwrap();
        let n = r.calls.len();
        let fail = r.fails.get(n).copied().unwrap_or(false);
        r.calls.push((id, h.get_lines().to_vec(), fail));
        if fail {
            Err(std::io::Error::new(std::io::ErrorKind::Other, format!("planned failure {n}")))
        } else {
            Ok(())
        }
    })
}
fn check_final(rec: &Rec, before: usize, id: u32, last: &[String], what: &str) -> Result<(), String> {
    // whatever was called on the way out saw the final contents
    for c in &rec.calls[before..] {
        if c.0 != id {
            return Err(format!("{what}: the handler called is number {}, but {id} was installed", c.0));
        }
        if c.1 != last {
            return Err(format!("{what}: the handler saw {:?}, but the final contents are {last:?}", c.1));
        }
    }
    if rec.calls.len() > before + 1 {
        return Err(format!("{what}: the handler was called {} times", rec.calls.len() - before));
    }
    if rec.calls.len() == before {
        // only acceptable if there was nothing left to save
        let saved = before > 0 && rec.calls[before - 1].0 == id && rec.calls[before - 1].1 == last && !rec.calls[before - 1].2;
        if !saved && !last.is_empty() {
            return Err(format!("{what}: the handler was not called, and the final contents {last:?} were never saved"));
        }
    }
    Ok(())
}
impl C07 {
    fn api(ops: &[AOp], fails: &[bool]) -> Result<(bool, Vec<String>), String> {
        let rec = Arc::new(Mutex::new(Rec { calls: vec![], fails: fails.to_vec() }));
        let mut h = History::new();
        let mut id = 0;
        h.set_autosave_handler(Some(handler(id, &rec)));
        let mut m: Vec<String> = vec![];
        let (mut limit, mut strip) = (Some(100usize), true);
        let mut interval: Option<usize> = None;
        let mut pending = 0;
        let mut saves = 0;
        let mut errs = 0;
        for op in ops {
            match op {
                AOp::Strip(b) => {
                    strip = *b;
                    h.set_strip_duplicates(*b);
                }
                AOp::Limit(l) => {
                    limit = *l;
                    h.set_limit(l.and_then(NonZeroUsize::new));
                }
                AOp::Interval(n) => {
                    // what lines pending from before count for is not specified
                    if pending == 0 {
                        interval = *n;
                        h.set_autosave_interval(n.and_then(NonZeroUsize::new));
                    }
                }
                AOp::Handler => {
                    if pending == 0 {
                        id += 1;
                        h.set_autosave_handler(Some(handler(id, &rec)));
                    }
                }
                AOp::Add(s) => {
                    if strip {
                        m.retain(|x| x != s);
                    }
                    m.push(s.clone());
                    if let Some(l) = limit {
                        if m.len() > l {
                            m.drain(..m.len() - l);
                        }
                    }
                    pending += 1;
                    let n0 = rec.lock().unwrap().calls.len();
                    let r = h.add_line(s.clone());
                    if h.get_lines() != m.as_slice() {
                        return Err(format!("after adding {s:?} the history is {:?}, expected {m:?}", h.get_lines()));
                    }
                    let due = interval == Some(pending);
                    let rc = rec.lock().unwrap();
                    let made = rc.calls.len() - n0;
                    if made != due as usize {
                        return Err(format!("line {pending} since the last autosave, with interval {interval:?}: the handler was called {made} times"));
                    }
                    if due {
                        pending = 0;
                        saves += 1;
                        let c = rc.calls.last().unwrap();
                        if c.0 != id {
                            return Err(format!("handler {} was called, but {id} is installed", c.0));
                        }
                        if c.1 != m {
                            return Err(format!("the handler saw {:?}, but the history is {m:?}", c.1));
                        }
                        match (&r, c.2) {
                            (Ok(()), false) => (),
                            (Err(e), true) if e.to_string() == format!("planned failure {n0}") => errs += 1,
                            _ => return Err(format!("the handler {}, but add_line returned {r:?}", if c.2 { "failed" } else { "succeeded" })),
                        }
                    } else if r.is_err() {
                        return Err(format!("add_line returned {r:?} without any autosave"));
                    }
                }
            }
        }
        let n0 = rec.lock().unwrap().calls.len();
        drop(h);
        check_final(&rec.lock().unwrap(), n0, id, &m, "dropping the history")?;
        let mut lab = vec!["api".to_string()];
        if errs > 0 {
            lab.push("failing-save".into());
        }
        Ok((saves > 0 || !m.is_empty(), lab))
    }
    fn tty(interval: Option<usize>, lines: &[String], fails: &[bool], end: u8, swap: bool) -> Result<(bool, Vec<String>), String> {
        let rec = Arc::new(Mutex::new(Rec { calls: vec![], fails: fails.to_vec() }));
        let mut d = Driver::new(SessCfg { w: 60, ..Default::default() }, 0)?;
        let mut h = History::new();
        h.set_autosave_handler(Some(handler(7, &rec)));
        h.set_autosave_interval(interval.and_then(NonZeroUsize::new));
        let old = d.io().swap_history(h);
        drop(old);
        d.sync()?;
        let mut pending = 0;
        let mut m: Vec<String> = vec![];
        let mut failed = 0;
        for l in lines {
            let keys: Vec<Key> = l.chars().map(Key::Ch).chain(Some(Key::Enter)).collect();
            // a notice shown for an earlier failure goes away with the first key
            d.keys(&keys, false)?;
            m.retain(|x| x != l);
            m.push(l.clone());
            pending += 1;
            if d.m.resp != vec![Resp::Input(l.clone())] {
                return Err("HARNESS: model".into());
            }
            if Some(pending) == interval {
                pending = 0;
                let rc = rec.lock().unwrap();
                let Some(c) = rc.calls.last() else { return Err(format!("no autosave although {interval:?} lines were entered")) };
                if c.1 != m {
                    return Err(format!("the autosave saw {:?}, but the history is {m:?}", c.1));
                }
                if c.2 {
                    failed += 1;
                    drop(rc);
                    // the notice is in place of the (empty) prompt
                    d.m.notice = Some(ML::from_str("Unable to write history!"));
                    d.sync()?;
                    let emu = d.sess.emu();
                    let row: String = crate::emu::Emu::row_text(&emu.rows[emu.cy]);
                    if !row.to_lowercase().contains("unable to write history") {
                        return Err(format!("autosaving failed, but no notice is shown: {row:?}"));
                    }
                    // the exact wording (beyond that) is free
                    d.m.notice = None;
                    d.screen = false;
                    d.collect()?;
                    if d.got != vec![Resp::Input(l.clone())] {
                        return Err(format!("autosaving failed; the responses are {:?}, expected the line {l:?}", d.got));
                    }
                    d.got.clear();
                    d.m.resp.clear();
                    let hl = d.io().read_history().get_lines().to_vec();
                    if hl != m {
                        return Err(format!("after a failed autosave, the history is {hl:?}, expected {m:?}"));
                    }
                    continue;
                }
            }
            d.screen = true;
            d.check("entering a line")?;
        }
        let n0 = rec.lock().unwrap().calls.len();
        let want_calls = interval.map(|n| lines.len() / n).unwrap_or(0);
        if n0 != want_calls {
            return Err(format!("{} lines entered with interval {interval:?}: the handler was called {n0} times", lines.len()));
        }
        let what;
        if swap {
            what = "dropping the history returned by swap_history";
            let h = d.io().swap_history(History::new());
            d.sync()?;
            if rec.lock().unwrap().calls.len() != n0 {
                return Err("the handler was called when the history was swapped out, not dropped".into());
            }
            drop(h);
        } else {
            what = ["dropping the InputOutput", "blocking_die()", "die()"][end as usize % 3];
            let io = d.io.take().unwrap();
            match end % 3 {
                0 => drop(io),
                1 => io.blocking_die(),
                _ => crate::tty::tokio_rt().block_on(io.die()),
            }
        }
        // not a moment later: the program may exit now
        let r = check_final(&rec.lock().unwrap(), n0, 7, &m, what);
        r?;
        let mut lab = vec!["tty".to_string()];
        if failed > 0 {
            lab.push("failing-save".into());
        }
        let _ = pty::panic_seen();
        Ok((!lines.is_empty(), lab))
    }
}
impl Prop for C07 {
    type Case = C07Case;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "(a) sequences of additions, interval/handler/limit/stripping changes with scripted handler failures, every handler call compared with a model, then drop; (b) the same through a terminal session (typed lines, notices, then drop/blocking_die/die/swap_history); non-trivial: at least one save or line was involved"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C07Case> {
        let op = prop_oneof![
            14 => hline().prop_map(AOp::Add),
            3 => prop_oneof![1 => Just(None), 5 => (1usize..5).prop_map(Some)].prop_map(AOp::Interval),
            1 => Just(AOp::Handler),
            1 => any::<bool>().prop_map(AOp::Strip),
            1 => prop_oneof![Just(None), (1usize..4).prop_map(Some)].prop_map(AOp::Limit),
        ];
        let op = op.boxed();
        // (lines all different, and longer intervals)
        let many = (5usize..200, 50usize..600, proptest::collection::vec(op.clone(), 0..6), 0usize..600).prop_map(|(iv, n, more, at)| {
            let mut v: Vec<AOp> = (0..n).map(|i| AOp::Add(format!("l{i}"))).collect();
            v.insert(0, AOp::Interval(Some(iv)));
            for (k, m) in more.into_iter().enumerate() {
                let i = 1 + (at + k * 37) % n;
                v.insert(i, m);
            }
            v
        });
        let api = (prop_oneof![800 => proptest::collection::vec(op, 0..24), 1 => many], proptest::collection::vec(proptest::bool::weighted(0.3), 0..8)).prop_map(|(ops, fails)| C07Case::Api { ops, fails });
        let word = text_of(proptest::char::range('a', 'd').boxed(), 3);
        let tty = (proptest::option::weighted(0.7, 1usize..4), proptest::collection::vec(word, 0..5), proptest::collection::vec(proptest::bool::weighted(0.4), 0..4), 0u8..3, proptest::bool::weighted(0.2))
            .prop_map(|(interval, lines, fails, end, swap)| C07Case::Tty { interval, lines, fails, end, swap });
        prop_oneof![30 => api, 1 => tty].boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(500_000, 8_000_000)
    }
    fn exec(&self, c: &C07Case) -> Verdict {
        match c {
            C07Case::Tty { .. } => pty::run_child("C07", c),
            C07Case::Api { .. } => guarded(c, |c| match c {
                C07Case::Api { ops, fails } => C07::api(ops, fails),
                _ => unreachable!(),
            }),
        }
    }
    fn child(&self, c: &C07Case) -> Result<(bool, Vec<String>), String> {
        match c {
            C07Case::Tty { interval, lines, fails, end, swap } => C07::tty(*interval, lines, fails, *end, *swap),
            _ => unreachable!(),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["how lines added before an interval or handler change count towards the next autosave is not specified: such changes are only generated with no line pending".into(),
             "a handler need not be called again on drop when the last successful call already saw the final contents".into()]
    }
}
