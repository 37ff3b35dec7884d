//! Printing from many threads (C09).
use super::cycle::our_hook;
use super::life::{end_it, ending, slow, Ending, LIMIT};
use super::term::*;
use crate::emu::{Emu, Kind, Row};
use crate::engine::{Prop, Tier, Verdict};
use crate::layout;
use crate::lm::*;
use crate::pty::{self, *};
use crate::tty::*;
use liso::{liso, History, InputOutput, Line, Output, OutputOnly};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// One line to print
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item {
    /// 0 a clone, 1 output(), 2 println!, 3 wrapln!, 4 a clone's wrapln, 5 a
    /// handle shared by the threads, 6 a clone's echoln, 7 a clone of a clone, made anew;
    /// 8 a write to stderr
    pub how: u8,
    pub len: u8,
    /// with a newline inside
    pub nl: bool,
    pub style: u8,
    pub bg: Option<u8>,
    pub pause: u16,
}
pub fn item(how: BoxedStrategy<u8>) -> BoxedStrategy<Item> {
    (
        how,
        prop_oneof![4 => 0u8..12, 3 => 12u8..60, 1 => 60u8..160],
        prop::bool::weighted(0.15),
        prop_oneof![3 => Just(0u8), 1 => style_strat()],
        prop_oneof![4 => Just(None), 1 => col_strat()],
        prop_oneof![8 => Just(0u16), 1 => 1u16..40, 1 => 40u16..400],
    )
        .prop_map(|(how, len, nl, style, bg, pause)| Item { how, len, nl, style, bg, pause })
        .boxed()
}
impl Item {
    pub fn text(&self, t: usize, n: usize) -> String {
        let mut s = format!("<{t}.{n}:");
        for i in 0..self.len {
            if self.nl && self.how != 8 && i == self.len / 2 {
                s.push('\n');
            }
            s.push((b'a' + ((i as usize * 7 + n + t * 3) % 26) as u8) as char);
        }
        s.push('>');
        s
    }
    fn spec(&self, t: usize, n: usize) -> LSpec {
        let mut v = vec![];
        if self.how == 8 {
            return super::stderr::decorated(&self.text(t, n));
        }
        // (the macros are used without styles)
        if self.style != 0 && !matches!(self.how, 2 | 3) {
            v.push(LOp::Set(self.style));
        }
        if self.bg.is_some() {
            v.push(LOp::Bg(self.bg));
        }
        v.push(LOp::Text(self.text(t, n)));
        v
    }
    fn wraps(&self) -> bool {
        matches!(self.how, 3 | 4)
    }
    pub fn rows(&self, t: usize, n: usize, w: usize) -> Vec<Row> {
        let s = self.spec(t, n);
        if self.wraps() {
            let mut l = build_real(&s);
            l.wrap_to_width(w);
            let mut ml = ML::from_line(&l);
            ml.touched = true;
            layout::printed_rows(&ml, w)
        } else {
            layout::printed_rows(&build_model(&s), w)
        }
    }
    fn piped(&self, t: usize, n: usize) -> Option<String> {
        // (no wrapping takes place, and nothing is echoed)
        if self.how == 6 {
            None
        } else {
            Some(self.text(t, n))
        }
    }
    pub fn print(&self, t: usize, n: usize, clone: &OutputOnly, shared: &Output) {
        let l = || -> Line { build_real(&self.spec(t, n)) };
        match self.how {
            0 => {
                if self.style == 0 && self.bg.is_none() {
                    clone.println(self.text(t, n))
                } else {
                    clone.println(l())
                }
            }
            1 => liso::output().println(l()),
            2 => liso::println!(bg = (self.bg.map(color_of)), (self.text(t, n))),
            3 => liso::wrapln!(bg = (self.bg.map(color_of)), (self.text(t, n))),
            4 => clone.wrapln(l()),
            5 => shared.println(l()),
            6 => clone.echoln(l()),
            _ => clone.clone_output().println(l()),
        }
    }
}
/// What the owner does meanwhile
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mw {
    Status(Option<String>),
    Prompt(String, bool, bool),
    Notice(String),
    Bell,
    Type(Vec<Key>),
    Slow(u8),
    Wait(u16),
    Print(Item),
    Swap,
    Tab,
}
pub fn meanwhile(how: BoxedStrategy<u8>) -> BoxedStrategy<Mw> {
    let short = || text_of(prop_oneof![4 => proptest::char::range('a', 'z'), 1 => Just('世'), 1 => Just(' ')].boxed(), 20);
    let k = prop_oneof![
        8 => proptest::char::range('a', 'z').prop_map(Key::Ch),
        1 => Just(Key::Ch('世')),
        2 => Just(Key::Enter),
        3 => select(vec![Key::Left, Key::Right, Key::Home, Key::End, Key::Del7f, Key::Ctl(21), Key::Ctl(23), Key::Up, Key::Down]),
    ];
    prop_oneof![
        3 => proptest::option::of(short()).prop_map(Mw::Status),
        4 => (short(), prop::bool::weighted(0.8), any::<bool>()).prop_map(|(a, b, c)| Mw::Prompt(a, b, c)),
        1 => short().prop_map(Mw::Notice),
        1 => Just(Mw::Bell),
        5 => proptest::collection::vec(k, 1..6).prop_map(Mw::Type),
        1 => (0u8..4).prop_map(Mw::Slow),
        4 => (0u16..1000).prop_map(Mw::Wait),
        4 => item(how).prop_map(Mw::Print),
        1 => Just(Mw::Swap),
        1 => Just(Mw::Tab),
    ]
    .boxed()
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct NCase {
    pub w: usize,
    pub h: usize,
    pub bce: bool,
    pub pipe: bool,
    pub threads: Vec<Vec<Item>>,
    pub main: Vec<Mw>,
    /// threads are still printing when it ends
    pub linger: bool,
    pub end: Ending,
}
pub struct Concurrent;
impl Prop for Concurrent {
    type Case = NCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "at least two threads printed at least one line each"
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<NCase> {
        let how = || prop_oneof![4 => Just(0u8), 1 => Just(6u8), 5 => 1u8..8].boxed();
        (
            (12usize..50, 20usize..40, any::<bool>(), prop::bool::weighted(0.25)),
            prop_oneof![
                60 => proptest::collection::vec(proptest::collection::vec(item(how()), 0..t.pick(12, 40) as usize), 1..6),
                // many threads, and many lines
                1 => proptest::collection::vec(proptest::collection::vec(item(how()), 0..8), 8..30),
                1 => proptest::collection::vec((proptest::collection::vec(item(how()), 1..6), 50usize..250).prop_map(|(v, n)| v.into_iter().cycle().take(n).collect::<Vec<_>>()), 1..4)
            ],
            proptest::collection::vec(meanwhile(how()), 0..12),
            prop::bool::weighted(0.3),
            ending(),
        )
            .prop_map(|((w, h, bce, pipe), threads, main, linger, end)| NCase { w, h, bce, pipe, threads, main, linger, end })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(14000, 230000)
    }
    fn exec(&self, c: &NCase) -> Verdict {
        pty::run_child("C09", c)
    }
    fn child(&self, c: &NCase) -> Result<(bool, Vec<String>), String> {
        many(c)
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = tty_assumptions();
        v.push("Lines whose printing call hadn't returned when shutdown began may or may not appear, but if so once, whole, and in order".into());
        v
    }
}
/// Read the transcript as a sequence of lines; how many of each source there are
pub fn transcript(rows: &[Row], kind: Kind, expect: &dyn Fn(usize, usize) -> Option<Vec<Row>>, header: &dyn Fn(&str) -> Option<(usize, usize)>, sources: usize) -> Result<Vec<usize>, String> {
    let mut next = vec![0usize; sources];
    let text: Vec<String> = rows.iter().map(Emu::row_text).collect();
    let end = text.iter().rposition(|t| !t.trim().is_empty()).map(|x| x + 1).unwrap_or(0);
    let around = |i: usize| text[i.saturating_sub(4)..(i + 4).min(text.len())].join("|\n  |");
    let mut i = 0;
    while i < end {
        let Some((t, n)) = header(&text[i]) else {
            return Err(format!("row {i} isn't the beginning of a printed line (nor the rest of the one before it)\n  |{}", around(i)));
        };
        if t >= sources {
            return Err(format!("row {i} is garbled\n  |{}", around(i)));
        }
        if n != next[t] {
            return Err(format!("row {i}: line {n} of source {t} is where its line {} was expected\n  |{}", next[t], around(i)));
        }
        let Some(want) = expect(t, n) else {
            return Err(format!("row {i}: source {t} has no line {n}\n  |{}", around(i)));
        };
        for (k, r) in want.iter().enumerate() {
            let bad = match rows.get(i + k) {
                None => true,
                Some(a) => (0..r.len()).any(|x| !layout::same_cell(kind, &a[x], &r[x], true)),
            };
            if bad {
                return Err(format!("row {} isn't row {k} of line {n} of source {t}, {:?}\n  |{}", i + k, Emu::row_text(r), around(i + k)));
            }
        }
        i += want.len();
        next[t] += 1;
    }
    Ok(next)
}
pub fn header(s: &str) -> Option<(usize, usize)> {
    let s = s.strip_prefix("E: ").unwrap_or(s);
    let s = s.strip_prefix('<')?;
    let (a, s) = s.split_once('.')?;
    let (b, _) = s.split_once(':')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}
/// The owner's actions; nothing is waited for.
pub fn owner(sess: &Session, io: &InputOutput, clone: &OutputOnly, main: &[Mw], pipe: bool, me: usize, stderr: Option<(usize, &dyn Fn(&str))>) -> Result<(Vec<Item>, Vec<Item>), String> {
    let mut printed = vec![];
    let mut written = vec![];
    let mut typed = 0;
    for a in main {
        step(format!("meanwhile: {a:?}"));
        match a {
            Mw::Status(s) => io.status(s.clone()),
            Mw::Prompt(s, a, c) => io.prompt(s.as_str(), *a, *c),
            Mw::Notice(s) => io.notice(s.as_str(), Duration::from_secs(1000)),
            Mw::Bell => io.bell(),
            Mw::Type(k) => {
                let k: Vec<Key> = k.iter().filter(|k| !pipe || matches!(k, Key::Ch(_) | Key::Enter)).cloned().collect();
                typed += k.len();
                if typed < 50 {
                    let b: Vec<u8> = k.iter().flat_map(|k| k.bytes()).collect();
                    sess.type_bytes(&b)?;
                }
            }
            Mw::Slow(ms) => slow(clone, *ms),
            Mw::Wait(us) => std::thread::sleep(Duration::from_micros(*us as u64)),
            Mw::Print(it) => {
                if let (8, Some((err, f))) = (it.how, stderr) {
                    f(&it.text(err, written.len()));
                    written.push(it.clone());
                } else {
                    it.print(me, printed.len(), clone, io);
                    printed.push(it.clone());
                }
            }
            Mw::Swap => drop(io.swap_history(History::new())),
            Mw::Tab => {
                if !pipe {
                    sess.type_bytes(b"\t")?;
                }
            }
        }
    }
    Ok((printed, written))
}
fn many(c: &NCase) -> Result<(bool, Vec<String>), String> {
    let fd = if c.pipe { Fd::Pipe } else { Fd::Tty };
    let cfg = SessCfg {
        w: c.w,
        h: c.h,
        kind: Kind::Ansi { bce: c.bce },
        stdin: fd,
        stdout: fd,
        // (what's typed may arrive when the terminal isn't raw)
        lflag_flip: libc::ECHO,
        ..Default::default()
    };
    let sess = Session::new(cfg)?;
    our_hook();
    let io = InputOutput::new();
    let me = c.threads.len();
    // the Output shared by reference must outlive the threads, and not die with the InputOutput
    let shared: Arc<OutputOnly> = Arc::new(io.clone_output());
    let clone = io.clone_output();
    let go = Arc::new(AtomicBool::new(false));
    let mut counts = vec![];
    let mut handles = vec![];
    for (t, items) in c.threads.iter().enumerate() {
        let items = items.clone();
        let done = Arc::new(AtomicUsize::new(0));
        counts.push(done.clone());
        let (go, shared, clone) = (go.clone(), shared.clone(), io.clone_output());
        handles.push(std::thread::spawn(move || {
            register_thread();
            while !go.load(Ordering::SeqCst) {
                std::hint::spin_loop();
            }
            for (n, it) in items.iter().enumerate() {
                if catch_unwind(AssertUnwindSafe(|| it.print(t, n, &clone, &shared))).is_err() {
                    break;
                }
                done.store(n + 1, Ordering::SeqCst);
                if it.pause > 0 {
                    std::thread::sleep(Duration::from_micros(it.pause as u64));
                }
            }
            unregister_thread();
        }));
    }
    go.store(true, Ordering::SeqCst);
    let mine = owner(&sess, &io, &clone, &c.main, c.pipe, me, None)?.0;
    step("waiting for the printing threads");
    let mut handles = Some(handles);
    if !c.linger {
        for h in handles.take().unwrap() {
            h.join().map_err(|_| "a printing thread panicked")?;
        }
    }
    let must: Vec<usize> = counts.iter().map(|x| x.load(Ordering::SeqCst)).collect();
    step(format!("shutdown ({:?})", c.end));
    let took = end_it(io, &c.end);
    if took > LIMIT {
        return Err(format!("SUSPECT:shutting down took {took:?}"));
    }
    // right now
    sess.drain_now();
    let emu = sess.emu();
    let out = sess.out();
    for h in handles.take().into_iter().flatten() {
        h.join().map_err(|_| "a printing thread panicked")?;
    }
    if !emu.errors.is_empty() {
        return Err(format!("bad terminal output: {}", emu.errors.join("; ")));
    }
    let get = |t: usize, n: usize| -> Option<&Item> {
        if t == me {
            mine.get(n)
        } else {
            c.threads.get(t).and_then(|x| x.get(n))
        }
    };
    let next = if c.pipe {
        let s = String::from_utf8(out).map_err(|_| "the output isn't UTF-8")?;
        let mut next = vec![0usize; me + 1];
        let mut rest = &s[..];
        while !rest.is_empty() {
            let bad = || format!("the output is garbled at {:?}", rest.chars().take(80).collect::<String>());
            let (t, mut n) = header(rest).filter(|x| x.0 <= me).ok_or_else(bad)?;
            // (echoed lines are not output)
            while next[t] < n && get(t, next[t]).is_some_and(|x| x.piped(t, n).is_none()) {
                next[t] += 1;
            }
            if next[t] != n {
                return Err(format!("line {n} of source {t} is where its line {} was expected", next[t]));
            }
            let want = get(t, n).and_then(|x| x.piped(t, n)).ok_or_else(bad)? + "\n";
            rest = rest.strip_prefix(&want[..]).ok_or_else(bad)?;
            n += 1;
            next[t] = n;
        }
        for t in 0..=me {
            while get(t, next[t]).is_some_and(|x| x.piped(t, 0).is_none()) {
                next[t] += 1;
            }
        }
        next
    } else {
        let rows: Vec<Row> = emu.scrollback.iter().chain(emu.rows.iter()).cloned().collect();
        transcript(&rows, emu.kind, &|t, n| get(t, n).map(|x| x.rows(t, n, c.w)), &header, me + 1)?
    };
    for t in 0..=me {
        let must = if t == me { mine.len() } else { must[t] };
        if next[t] < must {
            return Err(format!("line {} of source {t} was printed before the end, and isn't there", next[t]));
        }
    }
    // nothing more comes
    sess.sync_dead()?;
    let same = if c.pipe { sess.out().len() == s_len(&next, &get) } else { sess.emu().raw.len() == emu.raw.len() };
    if !same {
        return Err("there was output after the end".into());
    }
    let busy = c.threads.iter().filter(|x| !x.is_empty()).count() + (!mine.is_empty()) as usize;
    let mut labels = vec![if c.pipe { "pipe-mode" } else { "tty" }.to_string(), format!("{:?}", c.end).to_lowercase()];
    if c.linger {
        labels.push("printing-at-the-end".into());
        if (0..me).any(|t| must[t] > 0 && must[t] < c.threads[t].len()) {
            labels.push("interrupted".into());
        }
    }
    Ok((busy >= 2, labels))
}
fn s_len<'a>(next: &[usize], get: &dyn Fn(usize, usize) -> Option<&'a Item>) -> usize {
    let mut l = 0;
    for (t, n) in next.iter().enumerate() {
        for i in 0..*n {
            l += get(t, i).and_then(|x| x.piped(t, i)).map(|x| x.len() + 1).unwrap_or(0);
        }
    }
    l
}
