//! Interpreter for pipe mode sessions.
use crate::emu::Kind;
use crate::lm::*;
use crate::pty::*;
use crate::tty::*;
use liso::InputOutput;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum POp {
    Println(LSpec),
    PrintStr(String),
    Wrapln(LSpec),
    /// these print nothing
    Echo(LSpec),
    Status(Option<LSpec>),
    Notice(LSpec),
    Prompt(LSpec, bool, bool),
    Bell,
    Custom(u32),
    /// lines of input (contents, whether to use CR LF), and how to chunk them
    Lines(Vec<(Vec<u8>, bool)>, Vec<u8>),
    Suspend(String),
    /// control-D, if input is from a terminal
    Eof,
    Check,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PCase {
    pub stdin: Fd,
    pub stdout: Fd,
    pub term: Option<String>,
    pub via: u8,
    pub ops: Vec<POp>,
    /// does the input end (perhaps in the middle of a line)?
    pub eof: Option<Vec<u8>>,
    pub end: u8,
}
pub const ECHO_OFF: u32 = libc::ECHO as u32;

/// What the terminal, if any, received that isn't output of ours: nothing.
pub fn run_pipe(c: &PCase) -> Result<(bool, Vec<String>), String> {
    let mut sess = Session::new(SessCfg {
        w: 30,
        h: 30,
        term: c.term.clone(),
        stdin: c.stdin,
        stdout: c.stdout,
        kind: Kind::Ansi { bce: false },
        lflag_flip: ECHO_OFF,
        ..Default::default()
    })?;
    let mut io = Some(InputOutput::new());
    let clone = io.as_ref().unwrap().clone_output();
    sess.sync()?;
    let mut out: Vec<u8> = vec![];
    let mut want: Vec<Resp> = vec![];
    let mut ended = false;
    let mut stats = (0, 0);
    let mut labels = std::collections::BTreeSet::new();
    labels.insert(format!("stdin-{:?}", c.stdin).to_lowercase());
    labels.insert(format!("stdout-{:?}", c.stdout).to_lowercase());
    fn onlcr(v: &[u8]) -> Vec<u8> {
        let mut r = vec![];
        for b in v {
            if *b == b'\n' {
                r.push(b'\r');
            }
            r.push(*b);
        }
        r
    }
    let check_out = |sess: &Session, out: &[u8], what: &str| -> Result<(), String> {
        let raw = sess.emu().raw;
        let (got, want, other): (Vec<u8>, Vec<u8>, Vec<u8>) = match c.stdout {
            Fd::Pipe => (sess.out(), out.to_vec(), raw),
            _ => (raw, onlcr(out), vec![]),
        };
        if got != want {
            let n = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "{what}: stdout received {:?} where {:?} was expected (after {n} correct bytes)",
                String::from_utf8_lossy(&got[n.saturating_sub(10)..got.len().min(n + 60)]),
                String::from_utf8_lossy(&want[n.saturating_sub(10)..want.len().min(n + 60)])
            ));
        }
        if !other.is_empty() {
            return Err(format!("{what}: the terminal received {:?}", String::from_utf8_lossy(&other)));
        }
        if !termios_eq(&sess.termios(), &sess.orig) {
            return Err(format!("{what}: the terminal's settings were changed"));
        }
        Ok(())
    };
    for op in &c.ops {
        step(format!("{op:?}").chars().take(200).collect::<String>());
        #[cfg(feature = "global")]
        let glob = if c.via == 2 { Some(liso::output()) } else { None };
        #[cfg(not(feature = "global"))]
        let glob = Some(&clone);
        let o: &liso::Output = match c.via {
            0 => io.as_ref().unwrap(),
            1 => &clone,
            _ => glob.as_ref().unwrap(),
        };
        match op {
            POp::Println(s) => {
                o.println(build_real(s));
                out.extend(build_model(s).text().into_bytes());
                out.push(b'\n');
                stats.0 += 1;
            }
            POp::PrintStr(s) => {
                o.println(s.as_str());
                out.extend(ML::from_str(s).text().into_bytes());
                out.push(b'\n');
                stats.0 += 1;
            }
            POp::Wrapln(s) => {
                #[cfg(feature = "wrap")]
                o.wrapln(build_real(s));
                #[cfg(not(feature = "wrap"))]
                o.println(build_real(s));
                out.extend(build_model(s).text().into_bytes());
                out.push(b'\n');
                stats.0 += 1;
            }
            POp::Echo(s) => o.echoln(build_real(s)),
            POp::Status(s) => o.status(s.as_ref().map(|s| build_real(s))),
            POp::Notice(s) => o.notice(build_real(s), Duration::from_millis(1)),
            POp::Prompt(s, a, b) => o.prompt(build_real(s), *a, *b),
            POp::Bell => o.bell(),
            POp::Custom(n) => {
                let n = *n;
                if n % 2 == 0 {
                    o.send_custom(n)
                } else {
                    o.send_custom_box(Box::new(n))
                }
                want.push(Resp::Custom(n));
            }
            POp::Lines(l, cuts) => {
                // inputs and other operations come from different threads
                sess.sync()?;
                let mut data = vec![];
                for (b, crlf) in l {
                    data.extend(b);
                    let cr = *crlf && c.stdin == Fd::Pipe;
                    data.extend(if cr { &b"\r\n"[..] } else { &b"\n"[..] });
                    want.push(Resp::Input(String::from_utf8_lossy(b).to_string()));
                    stats.1 += 1;
                }
                if data.len() > 600 {
                    labels.insert("long-input".into());
                }
                let scale = 1 + data.len() / 300;
                let cuts: Vec<usize> = cuts.iter().map(|c| *c as usize * scale).collect();
                let mut i = 0;
                for n in cuts.iter().cycle() {
                    if i >= data.len() {
                        break;
                    }
                    let e = (i + n).min(data.len());
                    sess.type_bytes(&data[i..e])?;
                    if c.stdin == Fd::Pipe {
                        sess.sync()?;
                    }
                    i = e;
                }
                sess.sync()?;
            }
            POp::Suspend(s) => {
                let s = format!("{s}\n");
                let t = s.clone();
                let n = std::sync::atomic::AtomicU32::new(0);
                BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                o.suspend_and_run(move || {
                    if n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0 {
                        BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                    }
                    unsafe { libc::write(1, t.as_ptr() as *const _, t.len()) };
                });
                out.extend(s.as_bytes());
                labels.insert("suspend".into());
            }
            POp::Eof => {
                if c.stdin == Fd::Tty {
                    sess.sync()?;
                    sess.type_bytes(&[4])?;
                    sess.sync()?;
                    want.push(Resp::Finish);
                    labels.insert("control-d".into());
                }
            }
            POp::Check => (),
        }
        if matches!(op, POp::Check) {
            sess.sync()?;
            check_out(&sess, &out, "at a quiescent point")?;
            pipe_responses(io.as_mut().unwrap(), &mut want)?;
        }
    }
    sess.sync()?;
    if let (Fd::Pipe, Some(tail)) = (c.stdin, &c.eof) {
        step("end of input");
        let tail: Vec<u8> = tail.iter().copied().filter(|b| *b != b'\n').collect();
        sess.type_bytes(&tail)?;
        if !tail.is_empty() {
            let mut t = &tail[..];
            while let Some((b'\r', r)) = t.split_last() {
                t = r;
            }
            want.push(Resp::Input(String::from_utf8_lossy(t).to_string()));
        }
        sess.close_stdin();
        want.push(Resp::Finish);
        ended = true;
        labels.insert("end-of-input".into());
    }
    sess.sync()?;
    std::thread::sleep(Duration::from_millis(if ended { 3 } else { 0 }));
    sess.sync()?;
    check_out(&sess, &out, "at the end")?;
    pipe_responses(io.as_mut().unwrap(), &mut want)?;
    // what is printed just before the end isn't lost
    io.as_ref().unwrap().println("last words");
    out.extend(b"last words\n");
    step("shutdown");
    let t = Instant::now();
    let x = io.take().unwrap();
    match c.end {
        0 => drop(x),
        1 => x.blocking_die(),
        _ => tokio_rt().block_on(x.die()),
    }
    if t.elapsed() > Duration::from_secs(4) {
        return Err("SUSPECT:shutting down took more than 4 seconds".into());
    }
    sess.drain_now();
    check_out(&sess, &out, "after shutdown")?;
    sess.sync()?;
    check_out(&sess, &out, "after shutdown")?;
    Ok((stats.0 + stats.1 >= 1 && c.ops.len() >= 3, labels.into_iter().collect()))
}
fn pipe_responses(io: &mut InputOutput, want: &mut Vec<Resp>) -> Result<(), String> {
    let mut got = vec![];
    while let Some(r) = io.try_read() {
        let r = resp_of(r)?;
        if r == Resp::Dead {
            return Err("Response::Dead received although nothing has died".into());
        }
        got.push(r);
        if got.len() > want.len() + 3 {
            break;
        }
    }
    let want = std::mem::take(want);
    if got != want {
        return Err(format!("in pipe mode, responses are {got:?}, expected {want:?}"));
    }
    Ok(())
}

