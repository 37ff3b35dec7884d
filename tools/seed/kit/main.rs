//! Runs commands from file descriptor 3 against Liso; responses go to fd 4.
use liso::*;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::num::NonZeroU32;
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

struct Comp(Vec<String>, File);
impl Completor for Comp {
    fn complete(&mut self, output: &Output, input: &str, cursor: usize, presses: NonZeroU32) -> Option<Completion> {
        writeln!(self.1, "complete {input:?} {cursor} {presses}").unwrap();
        if self.0.is_empty() {
            return None;
        }
        let act = self.0.remove(0);
        let (what, arg) = act.split_once(':').unwrap_or((&act, ""));
        match what {
            "insert" => Some(Completion::InsertAtCursor { text: arg.into() }),
            "replace" => {
                let (c, s) = arg.split_once(':').unwrap();
                Some(Completion::ReplaceWholeLine { new_line: s.into(), new_cursor: c.parse().unwrap() })
            }
            "print" => {
                output.println(arg);
                None
            }
            "panic" => panic!("completor panic"),
            _ => None,
        }
    }
}
fn line(s: &str) -> Line {
    let mut l = Line::new();
    l.add_ansi_text(s);
    l
}
fn main() {
    let cmds = BufReader::new(unsafe { File::from_raw_fd(3) });
    let mut log = unsafe { File::from_raw_fd(4) };
    let mut io: Option<InputOutput> = None;
    let mut stash: Vec<OutputOnly> = vec![];
    for l in cmds.lines() {
        let l = l.unwrap().replace("\\e", "\x1b").replace("\\n", "\n").replace("\\t", "\t");
        let (c, a) = l.split_once(' ').unwrap_or((&l, ""));
        let show = |log: &mut File, r: Option<Response>| match r {
            Some(Response::Custom(x)) => writeln!(log, "Custom({:?})", x.downcast_ref::<u32>()).unwrap(),
            Some(r) => writeln!(log, "{r:?}").unwrap(),
            None => writeln!(log, "None").unwrap(),
        };
        match c {
            "new" => io = Some(InputOutput::new()),
            "drop" => io = None,
            "die" => io.take().unwrap().blocking_die(),
            "println" => io.as_ref().unwrap().println(line(a)),
            "gprintln" => liso::output().println(line(a)),
            "wrapln" => io.as_ref().unwrap().wrapln(line(a)),
            "echoln" => io.as_ref().unwrap().echoln(line(a)),
            "status" => io.as_ref().unwrap().status(Some(line(a))),
            "nostatus" => io.as_ref().unwrap().remove_status(),
            "prompt" => {
                let mut p = a.splitn(3, ' ');
                let (x, y) = (p.next().unwrap() == "1", p.next().unwrap() == "1");
                io.as_ref().unwrap().prompt(line(p.next().unwrap_or("")), x, y)
            }
            "notice" => {
                let (ms, t) = a.split_once(' ').unwrap();
                io.as_ref().unwrap().notice(line(t), Duration::from_millis(ms.parse().unwrap()))
            }
            "bell" => io.as_ref().unwrap().bell(),
            "custom" => io.as_ref().unwrap().send_custom(a.parse::<u32>().unwrap()),
            "clone" => stash.push(io.as_ref().unwrap().clone_output()),
            "stale" => stash.last().unwrap().println(line(a)),
            "raw" => {
                std::println!("{a}");
            }
            "suspend" => {
                let t = a.to_string();
                io.as_ref().unwrap().suspend_and_run(move || {
                    for x in t.split('|').filter(|x| !x.is_empty()) {
                        if let Some(ms) = x.strip_prefix("sleep:") {
                            std::thread::sleep(Duration::from_millis(ms.parse().unwrap()));
                        } else {
                            std::println!("{x}");
                        }
                    }
                })
            }
            "complete" => io.as_ref().unwrap().set_completor(Some(Box::new(Comp(
                a.split('|').map(|x| x.to_string()).collect(),
                log.try_clone().unwrap(),
            )))),
            "nocomplete" => io.as_ref().unwrap().set_completor(None),
            "history" => {
                let mut h = History::new();
                for x in a.split('|').filter(|x| !x.is_empty()) {
                    h.add_line(x.to_string()).unwrap();
                }
                io.as_ref().unwrap().swap_history(h);
            }
            "lines" => writeln!(log, "{:?}", io.as_ref().unwrap().read_history().get_lines()).unwrap(),
            "sleep" => std::thread::sleep(Duration::from_millis(a.parse().unwrap())),
            "try" => show(&mut log, io.as_mut().unwrap().try_read()),
            "read" => {
                let t = Instant::now();
                let r = io.as_mut().unwrap().read_timeout(Duration::from_millis(a.parse().unwrap()));
                let _ = t;
                show(&mut log, r)
            }
            "deadline" => {
                let r = io.as_mut().unwrap().read_deadline(Instant::now() + Duration::from_millis(a.parse().unwrap()));
                show(&mut log, r)
            }
            "block" => {
                let r = io.as_mut().unwrap().read_blocking();
                show(&mut log, Some(r))
            }
            "panic" => {
                let a = a.to_string();
                let _ = std::thread::spawn(move || panic!("{a}")).join();
            }
            "eprint" => {
                std::io::stderr().write_all(a.as_bytes()).unwrap();
            }
            "hook" => {
                let f = log.try_clone().unwrap();
                std::panic::set_hook(Box::new(move |_| writeln!(&f, "my hook").unwrap()));
            }
            "threads" => writeln!(log, "{}", std::fs::read_dir("/proc/self/task").unwrap().count()).unwrap(),
            "fds" => writeln!(log, "{}", std::fs::read_dir("/proc/self/fd").unwrap().count()).unwrap(),
            "catchnew" => {
                let r = std::panic::catch_unwind(InputOutput::new);
                writeln!(log, "{}", if r.is_ok() { "created" } else { "panicked" }).unwrap();
            }
            "ping" => writeln!(log, "pong {a}").unwrap(),
            "exit" => break,
            _ => panic!("what is {l:?}?"),
        }
    }
}
