//! Link-time interposition of the libc calls that change files, so that a
//! crash or an error can be injected at any of them.  Inactive unless armed on
//! the calling thread.
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Plan {
    Off,
    /// count the operations only
    Count,
    /// the process "dies" at operation k: it, and everything after it, has no
    /// effect (a write may have put this many of its bytes in the file first)
    Crash { at: u32, torn: u32 },
    /// operation k fails with this error
    Fail { at: u32, errno: i32 },
    /// operation k and every later operation of the same kind fail with this error
    FailAll { at: u32, errno: i32 },
    /// write k only writes this many bytes (at least one)
    Short { at: u32, len: u32 },
}
thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(Plan::Off) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static KIND: Cell<u8> = const { Cell::new(0) };
    static HIT: Cell<u8> = const { Cell::new(0) };
}
pub fn arm(p: Plan) {
    COUNT.with(|c| c.set(0));
    KIND.with(|c| c.set(0));
    HIT.with(|c| c.set(0));
    PLAN.with(|c| c.set(p));
}
/// Returns how many operations there were, and the kind of the one hit (0 if none)
pub fn disarm() -> (u32, u8) {
    PLAN.with(|c| c.set(Plan::Off));
    (COUNT.with(|c| c.get()), HIT.with(|c| c.get()))
}
pub const K_OPEN: u8 = 1;
pub const K_WRITE: u8 = 2;
pub const K_RENAME: u8 = 3;
pub const K_UNLINK: u8 = 4;
pub const K_SYNC: u8 = 5;
pub const K_OTHER: u8 = 6;

enum Act {
    Pass,
    Err(i32),
    Torn(usize),
    Short(usize),
}
fn decide(kind: u8) -> Act {
    let plan = PLAN.with(|c| c.get());
    if plan == Plan::Off {
        return Act::Pass;
    }
    let n = COUNT.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    let hit = || HIT.with(|c| c.set(kind));
    match plan {
        Plan::Crash { at, torn } if n == at => {
            hit();
            if kind == K_WRITE {
                Act::Torn(torn as usize)
            } else {
                Act::Err(libc::EIO)
            }
        }
        Plan::Crash { at, .. } if n > at => Act::Err(libc::EIO),
        Plan::Fail { at, errno } if n == at => {
            hit();
            Act::Err(errno)
        }
        Plan::FailAll { at, errno } => {
            if n == at {
                hit();
                KIND.with(|c| c.set(kind));
                Act::Err(errno)
            } else if n > at && KIND.with(|c| c.get()) == kind {
                Act::Err(errno)
            } else {
                Act::Pass
            }
        }
        Plan::Short { at, len } if n == at && kind == K_WRITE => {
            hit();
            Act::Short(len.max(1) as usize)
        }
        _ => Act::Pass,
    }
}
unsafe fn fail(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}
macro_rules! simple {
    ($name:ident ( $($a:ident : $t:ty),* ), $kind:expr, $sys:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            match decide($kind) {
                Act::Pass | Act::Short(_) => libc::syscall($sys, $($a),*) as i32,
                Act::Err(e) => fail(e) as i32,
                Act::Torn(_) => fail(libc::EIO) as i32,
            }
        }
    };
}
type P = *const libc::c_char;
simple!(rename(a: P, b: P), K_RENAME, libc::SYS_rename);
simple!(renameat(d: i32, a: P, e: i32, b: P), K_RENAME, libc::SYS_renameat);
simple!(renameat2(d: i32, a: P, e: i32, b: P, f: u32), K_RENAME, libc::SYS_renameat2);
simple!(unlink(a: P), K_UNLINK, libc::SYS_unlink);
simple!(unlinkat(d: i32, a: P, f: i32), K_UNLINK, libc::SYS_unlinkat);
simple!(rmdir(a: P), K_UNLINK, libc::SYS_rmdir);
simple!(mkdir(a: P, m: u32), K_OTHER, libc::SYS_mkdir);
simple!(link(a: P, b: P), K_OTHER, libc::SYS_link);
simple!(linkat(d: i32, a: P, e: i32, b: P, f: i32), K_OTHER, libc::SYS_linkat);
simple!(symlink(a: P, b: P), K_OTHER, libc::SYS_symlink);
simple!(ftruncate64(d: i32, l: i64), K_OTHER, libc::SYS_ftruncate);
simple!(ftruncate(d: i32, l: i64), K_OTHER, libc::SYS_ftruncate);
simple!(truncate64(a: P, l: i64), K_OTHER, libc::SYS_truncate);
simple!(fchmod(d: i32, m: u32), K_OTHER, libc::SYS_fchmod);
simple!(chmod(a: P, m: u32), K_OTHER, libc::SYS_chmod);
simple!(fsync(d: i32), K_SYNC, libc::SYS_fsync);
simple!(fdatasync(d: i32), K_SYNC, libc::SYS_fdatasync);

fn opens_for_writing(flags: i32) -> bool {
    flags & (libc::O_CREAT | libc::O_TRUNC) != 0 || flags & libc::O_ACCMODE != libc::O_RDONLY
}
macro_rules! opens {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: P, flags: i32, mode: u32) -> i32 {
            match if opens_for_writing(flags) { decide(K_OPEN) } else { Act::Pass } {
                Act::Pass | Act::Short(_) => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as i32,
                Act::Err(e) => fail(e) as i32,
                Act::Torn(_) => fail(libc::EIO) as i32,
            }
        }
    };
}
opens!(open);
opens!(open64);
macro_rules! openats {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(d: i32, p: P, flags: i32, mode: u32) -> i32 {
            match if opens_for_writing(flags) { decide(K_OPEN) } else { Act::Pass } {
                Act::Pass | Act::Short(_) => libc::syscall(libc::SYS_openat, d, p, flags, mode) as i32,
                Act::Err(e) => fail(e) as i32,
                Act::Torn(_) => fail(libc::EIO) as i32,
            }
        }
    };
}
openats!(openat);
openats!(openat64);

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    match decide(K_WRITE) {
        Act::Pass => libc::syscall(libc::SYS_write, fd, b, n) as isize,
        Act::Err(e) => fail(e) as isize,
        Act::Torn(t) => {
            libc::syscall(libc::SYS_write, fd, b, n.min(t));
            fail(libc::EIO) as isize
        }
        Act::Short(t) => libc::syscall(libc::SYS_write, fd, b, n.min(t)) as isize,
    }
}
macro_rules! pwrites {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: i32, b: *const libc::c_void, n: usize, o: i64) -> isize {
            match decide(K_WRITE) {
                Act::Pass => libc::syscall(libc::SYS_pwrite64, fd, b, n, o) as isize,
                Act::Err(e) => fail(e) as isize,
                Act::Torn(t) => {
                    libc::syscall(libc::SYS_pwrite64, fd, b, n.min(t), o);
                    fail(libc::EIO) as isize
                }
                Act::Short(t) => libc::syscall(libc::SYS_pwrite64, fd, b, n.min(t), o) as isize,
            }
        }
    };
}
pwrites!(pwrite);
pwrites!(pwrite64);
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    let first = |t: usize| {
        if n > 0 {
            libc::syscall(libc::SYS_write, fd, (*v).iov_base, (*v).iov_len.min(t)) as isize
        } else {
            0
        }
    };
    match decide(K_WRITE) {
        Act::Pass => libc::syscall(libc::SYS_writev, fd, v, n) as isize,
        Act::Err(e) => fail(e) as isize,
        Act::Torn(t) => {
            first(t);
            fail(libc::EIO) as isize
        }
        Act::Short(t) => first(t),
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: i32, ao: *mut i64, b: i32, bo: *mut i64, n: usize, f: u32) -> isize {
    match decide(K_WRITE) {
        Act::Pass | Act::Short(_) => libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as isize,
        Act::Err(e) => fail(e) as isize,
        Act::Torn(t) => {
            libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n.min(t), f);
            fail(libc::EIO) as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: i32, i: i32, off: *mut i64, n: usize) -> isize {
    match decide(K_WRITE) {
        Act::Pass | Act::Short(_) => libc::syscall(libc::SYS_sendfile, o, i, off, n) as isize,
        Act::Err(e) => fail(e) as isize,
        Act::Torn(t) => {
            libc::syscall(libc::SYS_sendfile, o, i, off, n.min(t));
            fail(libc::EIO) as isize
        }
    }
}

/// Does the interposition take effect in this build?
pub fn works() -> bool {
    let dir = scratch();
    let p = dir.join("probe");
    arm(Plan::Fail { at: 0, errno: libc::ENOSPC });
    let r = std::fs::write(&p, b"x");
    let (_, k) = disarm();
    let a = r.is_err() && k == K_OPEN;
    arm(Plan::Crash { at: 1, torn: 2 });
    let r = std::fs::write(&p, b"abcd");
    let (_, k) = disarm();
    let b = r.is_err() && k == K_WRITE && std::fs::read(&p).ok().as_deref() == Some(b"ab");
    arm(Plan::Fail { at: 0, errno: libc::ENOSPC });
    let r = std::fs::rename(&p, dir.join("q"));
    let (_, k) = disarm();
    let c = r.is_err() && k == K_RENAME;
    arm(Plan::Fail { at: 0, errno: libc::ENOSPC });
    let r = std::fs::remove_file(&p);
    let (_, k) = disarm();
    let d = r.is_err() && k == K_UNLINK;
    let _ = std::fs::remove_dir_all(&dir);
    a && b && c && d
}

/// A fresh scratch directory
pub fn scratch() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = if std::path::Path::new("/dev/shm").is_dir() { std::path::PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let d = base.join(format!("lisoverif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
