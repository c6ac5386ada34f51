//! The seam: this binary defines the C library functions the standard library (and the crates below
//! it) uses for files, time, randomness and blocking. Calls made by code under test on simulated
//! paths and descriptors go to the simulated world; everything else goes to the kernel.

use crate::sched;
use crate::simfs::{raw as name_bytes, Kind};
use crate::world::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::arch::asm;
use std::ffi::CStr;

pub const PREFIX: &str = "/swrs-sim";

pub unsafe fn raw(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn kernel(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    ret(raw(n, a, b, c, d, e, f))
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

macro_rules! next {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        let p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char);
        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

/// Runs harness code on behalf of the system under test
fn harness<T>(f: impl FnOnce(usize) -> T) -> T {
    IN_SUT.set(false);
    if ALLOC_YIELD_SOON.replace(false) {
        ALLOC_YIELD.set(true);
    }
    let e = unsafe { *libc::__errno_location() };
    sched::yield_point();
    let r = f(SIM_ID.get().max(0) as usize);
    unsafe { *libc::__errno_location() = e };
    IN_SUT.set(true);
    r
}

fn active() -> bool {
    IN_SUT.get() && SIM_ID.get() >= 0
}

/// what kind of path this is for the code under test
enum P {
    Sim(String),
    Outside,
}

unsafe fn path_of(p: *const c_char) -> P {
    if p.is_null() {
        return P::Outside;
    }
    let s = match CStr::from_ptr(p).to_str() {
        Ok(s) => s,
        Err(_) => {
            // other bytes are kept apart by characters of their own
            let b = CStr::from_ptr(p).to_bytes();
            let (dir, r) = match b.strip_prefix(PREFIX.as_bytes()) {
                Some(r) if r.first() == Some(&b'/') => ("", r),
                _ if b.first() != Some(&b'/') => ("/cwd/", b),
                _ => return P::Outside,
            };
            IN_SUT.set(false);
            let mut o = dir.to_string();
            for c in r.utf8_chunks() {
                o.push_str(c.valid());
                o.extend(c.invalid().iter().map(|b| char::from_u32(0xf700 + *b as u32).unwrap()));
            }
            IN_SUT.set(true);
            return P::Sim(o);
        }
    };
    match s.strip_prefix(PREFIX) {
        Some(r) if r.is_empty() || r.starts_with('/') => {
            IN_SUT.set(false);
            let r = P::Sim(r.to_string());
            IN_SUT.set(true);
            r
        }
        _ if !s.starts_with('/') && !s.is_empty() => {
            IN_SUT.set(false);
            let r = P::Sim(format!("/cwd/{s}"));
            IN_SUT.set(true);
            r
        }
        _ => P::Outside,
    }
}

fn is_sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE
}

unsafe fn done(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            *libc::__errno_location() = e;
            -1
        }
    }
}

/// the code under test has no business changing anything outside of the simulated tree
unsafe fn deny() -> i64 {
    *libc::__errno_location() = libc::EACCES;
    -1
}

// ---------------------------------------------------------------- open, close

fn lookup_note(w: &mut World, t: usize, path: &str, ok: bool) {
    w.ctx[t].lookups.push((path.to_string(), ok));
}

fn sim_open(path: &str, flags: c_int, mode: u32) -> Result<i64, i32> {
    harness(|t| {
        let w = world();
        let what = format!("open {path} {}{}{}{}{}", ["r", "w", "rw", "?"][(flags & 3) as usize],
            if flags & libc::O_CREAT != 0 { " create" } else { "" },
            if flags & libc::O_EXCL != 0 { " excl" } else { "" },
            if flags & libc::O_TRUNC != 0 { " trunc" } else { "" },
            if flags & libc::O_APPEND != 0 { " append" } else { "" });
        let r = w.enter(t, Call::Open, &norm(&what)).and_then(|_| open_inner(w, path, flags, mode));
        lookup_note(w, t, path, r.is_ok());
        r
    })
}

/// temporary names are random numbers, keep them out of the trace hash
fn norm(s: &str) -> String {
    s.to_string()
}

fn open_inner(w: &mut World, path: &str, flags: c_int, mode: u32) -> Result<i64, i32> {
    let creating = flags & libc::O_CREAT != 0;
    let excl = creating && flags & libc::O_EXCL != 0;
    let (dir, name, ino) = w.fs.lookup(path, !excl && flags & libc::O_NOFOLLOW == 0)?;
    let write = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let ino = match ino {
        Some(_) if excl => return Err(libc::EEXIST),
        Some(i) => i,
        None if !creating => return Err(libc::ENOENT),
        None => {
            let i = w.fs.alloc(Kind::File, mode & 0o777 & !0o022);
            w.fs.meta(vec![(dir, name, Some(i))]);
            w.made.push(path.to_string());
            i
        }
    };
    if w.fs.is_dir(ino) && (write || creating) {
        return Err(libc::EISDIR);
    }
    if flags & libc::O_DIRECTORY != 0 && !w.fs.is_dir(ino) {
        return Err(libc::ENOTDIR);
    }
    let m = w.fs.inodes[ino].mode;
    let m = if w.fs.root { 0o777 } else { m };
    if (write && m & 0o200 == 0) || (flags & libc::O_ACCMODE != libc::O_WRONLY && m & 0o400 == 0) {
        return Err(libc::EACCES);
    }
    if write && flags & libc::O_TRUNC != 0 {
        w.fs.truncate(ino, 0);
    }
    let fd = w.next_fd;
    w.next_fd += 1;
    w.fds.insert(fd, Fd { ino, pos: 0, flags, path: path.to_string() });
    Ok(fd as i64)
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        match path_of(path) {
            P::Sim(p) => return done(sim_open(&p, flags, mode)) as c_int,
            P::Outside => {
                if flags & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC) != 0
                    && !CStr::from_ptr(path).to_bytes().starts_with(b"/dev/")
                {
                    return deny() as c_int;
                }
            }
        }
    }
    kernel(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, (flags | libc::O_LARGEFILE) as i64, mode as i64, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    do_open(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}

/// resolves a path relative to a simulated directory descriptor
unsafe fn at_path(fd: c_int, path: *const c_char) -> Option<P> {
    if !active() {
        return None;
    }
    if is_sim_fd(fd) && !path.is_null() && *path != b'/' as c_char {
        IN_SUT.set(false);
        let rel = CStr::from_ptr(path).to_str().unwrap_or("").to_string();
        let r = world().fds.get(&fd).map(|f| {
            if rel.is_empty() { f.path.clone() } else { format!("{}/{rel}", f.path) }
        });
        IN_SUT.set(true);
        return r.map(P::Sim);
    }
    Some(path_of(path))
}

#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match at_path(fd, path) {
        Some(P::Sim(p)) => done(sim_open(&p, flags, mode)) as c_int,
        Some(P::Outside) if flags & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC) != 0 => deny() as c_int,
        _ => kernel(libc::SYS_openat, fd as i64, path as i64, flags as i64, mode as i64, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(fd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_sim_fd(fd) && SIM_ID.get() >= 0 {
        let f = |t: usize| {
            let w = world();
            let _ = w.enter(t, Call::Close, "close");
            if !w.locks.is_empty() {
                w.unlock_closed(fd);
            }
            w.fds.remove(&fd).map(|_| 0).ok_or(libc::EBADF)
        };
        let r = if IN_SUT.get() { harness(f) } else { f(SIM_ID.get() as usize) };
        return done(r) as c_int;
    }
    kernel(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- data

fn with_fd<T>(fd: c_int, call: Call, what: String, f: impl FnOnce(&mut World, usize) -> Result<T, i32>) -> Result<T, i32> {
    harness(|t| {
        let w = world();
        w.enter(t, call, &what)?;
        if !w.fds.contains_key(&fd) {
            return Err(libc::EBADF);
        }
        f(w, t)
    })
}

unsafe fn sim_read(fd: c_int, buf: *mut u8, len: usize, at: Option<usize>) -> Result<i64, i32> {
    // the length is a buffer size chosen by the implementation, not behaviour
    with_fd(fd, Call::Read, "read".into(), |w, t| {
        let f = w.fds[&fd].clone();
        if f.flags & libc::O_ACCMODE == libc::O_WRONLY {
            return Err(libc::EBADF);
        }
        if w.fs.is_dir(f.ino) {
            return Err(libc::EISDIR);
        }
        let pos = at.unwrap_or(f.pos);
        let size = w.fs.inodes[f.ino].data.len();
        let n = len.min(size.saturating_sub(pos));
        let n = w.read_len(t, n);
        std::ptr::copy_nonoverlapping(w.fs.inodes[f.ino].data.as_ptr().add(pos.min(size)), buf, n);
        if at.is_none() {
            w.fds.get_mut(&fd).unwrap().pos = pos + n;
        }
        Ok(n as i64)
    })
}

unsafe fn sim_write(fd: c_int, bytes: &[u8], at: Option<usize>) -> Result<i64, i32> {
    with_fd(fd, Call::Write, format!("write {}", bytes.len()), |w, t| {
        let f = w.fds[&fd].clone();
        if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
            return Err(libc::EBADF);
        }
        let pos = if f.flags & libc::O_APPEND != 0 { w.fs.inodes[f.ino].data.len() } else { at.unwrap_or(f.pos) };
        if bytes.is_empty() {
            return Ok(0);
        }
        w.torn(f.ino, pos, bytes);
        let n = w.write_len(t, f.ino, pos, bytes.len())?;
        w.fs.write_at(f.ino, pos, &bytes[..n]);
        if at.is_none() {
            w.fds.get_mut(&fd).unwrap().pos = pos + n;
        }
        Ok(n as i64)
    })
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if active() && is_sim_fd(fd) {
        return done(sim_read(fd, buf as *mut u8, n, None)) as ssize_t;
    }
    kernel(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if active() && is_sim_fd(fd) {
        return done(sim_read(fd, buf as *mut u8, n, Some(off as usize))) as ssize_t;
    }
    kernel(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if active() && is_sim_fd(fd) {
        return done(sim_write(fd, std::slice::from_raw_parts(buf as *const u8, n), None)) as ssize_t;
    }
    kernel(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if active() && is_sim_fd(fd) {
        return done(sim_write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as usize))) as ssize_t;
    }
    kernel(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if active() && is_sim_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return done(sim_read(fd, v.iov_base as *mut u8, v.iov_len, None)) as ssize_t;
            }
        }
        return 0;
    }
    kernel(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if active() && is_sim_fd(fd) {
        IN_SUT.set(false);
        let mut all = vec![];
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
        }
        IN_SUT.set(true);
        let r = done(sim_write(fd, &all, None)) as ssize_t;
        IN_SUT.set(false);
        drop(all);
        IN_SUT.set(true);
        return r;
    }
    kernel(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0) as ssize_t
}

fn sim_seek(fd: c_int, off: i64, whence: c_int) -> Result<i64, i32> {
    with_fd(fd, Call::Seek, "seek".into(), |w, _| {
        let f = w.fds[&fd].clone();
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            libc::SEEK_END => w.fs.inodes[f.ino].data.len() as i64,
            _ => return Err(libc::EINVAL),
        };
        if base + off < 0 {
            return Err(libc::EINVAL);
        }
        w.fds.get_mut(&fd).unwrap().pos = (base + off) as usize;
        Ok(base + off)
    })
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if active() && is_sim_fd(fd) {
        return done(sim_seek(fd, off, whence));
    }
    kernel(libc::SYS_lseek, fd as i64, off, whence as i64, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}

fn sim_sync(fd: c_int) -> Result<i64, i32> {
    with_fd(fd, Call::Sync, "sync".into(), |w, _| {
        let ino = w.fds[&fd].ino;
        w.fs.sync(ino);
        Ok(0)
    })
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if active() && is_sim_fd(fd) {
        return done(sim_sync(fd)) as c_int;
    }
    kernel(libc::SYS_fsync, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if active() && is_sim_fd(fd) {
        return done(sim_sync(fd)) as c_int;
    }
    kernel(libc::SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if active() && is_sim_fd(fd) {
        return done(with_fd(fd, Call::Sync, "syncfs".into(), |w, _| {
            w.fs.sync_all();
            Ok(0)
        })) as c_int;
    }
    kernel(libc::SYS_syncfs, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if active() && is_sim_fd(fd) {
        return done(with_fd(fd, Call::Trunc, format!("truncate {len}"), |w, _| {
            let f = w.fds[&fd].clone();
            if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
                return Err(libc::EINVAL);
            }
            w.fs.truncate(f.ino, len as usize);
            Ok(0)
        })) as c_int;
    }
    kernel(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off64_t) -> c_int {
    if active() {
        return match path_of(path) {
            P::Sim(p) => done(harness(|t| {
                let w = world();
                w.enter(t, Call::Trunc, &format!("truncate {p} {len}"))?;
                let i = w.fs.lookup(&p, true)?.2.ok_or(libc::ENOENT)?;
                w.fs.truncate(i, len as usize);
                Ok(0)
            })) as c_int,
            P::Outside => deny() as c_int,
        };
    }
    kernel(libc::SYS_truncate, path as i64, len, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate(path: *const c_char, len: off64_t) -> c_int {
    truncate64(path, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    if active() && is_sim_fd(fd) {
        return libc::EOPNOTSUPP;
    }
    -raw(libc::SYS_fallocate, fd as i64, 0, off, len, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    if active() && is_sim_fd(fd) {
        return 0;
    }
    -raw(libc::SYS_fadvise64, fd as i64, a, b, c as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if active() && (is_sim_fd(a) || is_sim_fd(b)) {
        return done(Err(libc::EXDEV)) as ssize_t;
    }
    kernel(libc::SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if active() && (is_sim_fd(a) || is_sim_fd(b)) {
        return done(Err(libc::EINVAL)) as ssize_t;
    }
    kernel(libc::SYS_sendfile, a as i64, b as i64, o as i64, n as i64, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if active() && (is_sim_fd(a) || is_sim_fd(b)) {
        return done(Err(libc::EINVAL)) as ssize_t;
    }
    kernel(libc::SYS_splice, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64) as ssize_t
}

// ---------------------------------------------------------------- stat

struct Info {
    mode: u32,
    size: u64,
    ino: u64,
    ns: u64,
    nlink: u64,
}

fn info(w: &World, ino: usize) -> Info {
    let n = &w.fs.inodes[ino];
    let (ty, size) = match &n.kind {
        Kind::File => (libc::S_IFREG, n.data.len()),
        Kind::Dir(_) => (libc::S_IFDIR, 4096),
        Kind::Symlink(t) => (libc::S_IFLNK, name_bytes(t).len()),
    };
    let nlink = if n.kind == Kind::File { w.fs.names(ino) } else { 1 };
    Info { mode: ty | n.mode, size: size as u64, ino: ino as u64 + 2, ns: 1_600_000_000_000_000_000, nlink }
}

fn sim_stat(path: &str, follow: bool) -> Result<Info, i32> {
    harness(|t| {
        let w = world();
        let r = w.enter(t, Call::Stat, &format!("stat {path}")).and_then(|_| {
            let i = w.fs.lookup(path, follow)?.2.ok_or(libc::ENOENT)?;
            Ok(info(w, i))
        });
        lookup_note(w, t, path, r.is_ok());
        r
    })
}

fn sim_fstat(fd: c_int) -> Result<Info, i32> {
    with_fd(fd, Call::Stat, "fstat".into(), |w, _| Ok(info(w, w.fds[&fd].ino)))
}

unsafe fn put_stat(r: Result<Info, i32>, st: *mut libc::stat64) -> c_int {
    match r {
        Err(e) => done(Err(e)) as c_int,
        Ok(i) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_mode = i.mode;
            (*st).st_size = i.size as i64;
            (*st).st_ino = i.ino;
            (*st).st_nlink = i.nlink;
            (*st).st_blksize = 4096;
            (*st).st_blocks = (i.size as i64 + 511) / 512;
            (*st).st_mtime = (i.ns / 1_000_000_000) as i64;
            (*st).st_dev = 77;
            0
        }
    }
}

macro_rules! stats {
    ($($name:ident, $follow:expr);*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char, st: *mut libc::stat64) -> c_int {
            if active() {
                if let P::Sim(p) = path_of(path) {
                    return put_stat(sim_stat(&p, $follow), st);
                }
            }
            kernel(if $follow { libc::SYS_stat } else { libc::SYS_lstat }, path as i64, st as i64, 0, 0, 0, 0) as c_int
        }
    )*};
}
stats!(stat, true; stat64, true; lstat, false; lstat64, false);

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if active() && is_sim_fd(fd) {
        return put_stat(sim_fstat(fd), st);
    }
    kernel(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if let Some(P::Sim(p)) = at_path(fd, path) {
        return put_stat(sim_stat(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0), st);
    }
    kernel(libc::SYS_newfstatat, fd as i64, path as i64, st as i64, flags as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(fd: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    fstatat64(fd, path, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if active() {
        let r = if path.is_null() || *path == 0 {
            is_sim_fd(fd).then(|| sim_fstat(fd))
        } else {
            match at_path(fd, path) {
                Some(P::Sim(p)) => Some(sim_stat(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0)),
                _ => None,
            }
        };
        match r {
            Some(Err(e)) => return done(Err(e)) as c_int,
            Some(Ok(i)) => {
                if buf.is_null() {
                    return 0;
                }
                std::ptr::write_bytes(buf, 0, 1);
                (*buf).stx_mask = libc::STATX_BASIC_STATS;
                (*buf).stx_mode = i.mode as u16;
                (*buf).stx_size = i.size;
                (*buf).stx_ino = i.ino;
                (*buf).stx_nlink = i.nlink as u32;
                (*buf).stx_blksize = 4096;
                (*buf).stx_blocks = (i.size + 511) / 512;
                (*buf).stx_mtime.tv_sec = (i.ns / 1_000_000_000) as i64;
                (*buf).stx_dev_minor = 77;
                return 0;
            }
            None => {}
        }
    }
    kernel(libc::SYS_statx, fd as i64, path as i64, flags as i64, mask as i64, buf as i64, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    faccessat(libc::AT_FDCWD, path, mode, 0)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(fd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if let Some(P::Sim(p)) = at_path(fd, path) {
        return done(sim_stat(&p, true).and_then(|i| {
            if !world().fs.root && ((mode & libc::W_OK != 0 && i.mode & 0o200 == 0) || (mode & libc::R_OK != 0 && i.mode & 0o400 == 0)) {
                Err(libc::EACCES)
            } else {
                Ok(0)
            }
        })) as c_int;
    }
    kernel(libc::SYS_faccessat, fd as i64, path as i64, mode as i64, flags as i64, 0, 0) as c_int
}

// ---------------------------------------------------------------- name space

fn sim_rename(a: &str, b: &str, flags: c_uint) -> Result<i64, i32> {
    harness(|t| {
        let w = world();
        w.enter(t, Call::Rename, &format!("rename {a} {b}"))?;
        let (d1, n1, i1) = w.fs.lookup(a, false)?;
        let (d2, n2, i2) = w.fs.lookup(b, false)?;
        let i1 = i1.ok_or(libc::ENOENT)?;
        if n1.is_empty() || n2.is_empty() {
            return Err(libc::EBUSY);
        }
        if flags & 1 != 0 && i2.is_some() {
            return Err(libc::EEXIST);
        }
        if let Some(i2) = i2 {
            if i2 == i1 {
                return Ok(0);
            }
            match (w.fs.is_dir(i1), w.fs.is_dir(i2)) {
                (true, false) => return Err(libc::ENOTDIR),
                (false, true) => return Err(libc::EISDIR),
                (true, true) => {
                    if let Kind::Dir(d) = &w.fs.inodes[i2].kind {
                        if !d.is_empty() {
                            return Err(libc::ENOTEMPTY);
                        }
                    }
                }
                _ => {}
            }
            if flags & 2 != 0 {
                w.fs.meta(vec![(d1, n1, Some(i2)), (d2, n2, Some(i1))]);
                return Ok(0);
            }
        }
        w.fs.meta(vec![(d1, n1, None), (d2, n2, Some(i1))]);
        Ok(0)
    })
}

#[no_mangle]
pub unsafe extern "C" fn renameat2(f1: c_int, a: *const c_char, f2: c_int, b: *const c_char, flags: c_uint) -> c_int {
    match (at_path(f1, a), at_path(f2, b)) {
        (Some(P::Sim(a)), Some(P::Sim(b))) => done(sim_rename(&a, &b, flags)) as c_int,
        (None, None) => kernel(libc::SYS_renameat2, f1 as i64, a as i64, f2 as i64, b as i64, flags as i64, 0) as c_int,
        (Some(P::Outside), Some(P::Outside)) => deny() as c_int,
        _ => done(Err(libc::EXDEV)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(f1: c_int, a: *const c_char, f2: c_int, b: *const c_char) -> c_int {
    renameat2(f1, a, f2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}

fn sim_unlink(p: &str, dir: bool) -> Result<i64, i32> {
    harness(|t| {
        let w = world();
        w.enter(t, Call::Unlink, &format!("unlink {p}"))?;
        let (d, n, i) = w.fs.lookup(p, false)?;
        let i = i.ok_or(libc::ENOENT)?;
        match (&w.fs.inodes[i].kind, dir) {
            (Kind::Dir(e), true) if !e.is_empty() => return Err(libc::ENOTEMPTY),
            (Kind::Dir(_), false) => return Err(libc::EISDIR),
            (Kind::Dir(_), true) => {}
            (_, true) => return Err(libc::ENOTDIR),
            _ => {}
        }
        w.fs.meta(vec![(d, n, None)]);
        Ok(0)
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, path: *const c_char, flags: c_int) -> c_int {
    match at_path(fd, path) {
        Some(P::Sim(p)) => done(sim_unlink(&p, flags & libc::AT_REMOVEDIR != 0)) as c_int,
        Some(P::Outside) => deny() as c_int,
        None => kernel(libc::SYS_unlinkat, fd as i64, path as i64, flags as i64, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(f1: c_int, a: *const c_char, f2: c_int, b: *const c_char, flags: c_int) -> c_int {
    match (at_path(f1, a), at_path(f2, b)) {
        (Some(P::Sim(a)), Some(P::Sim(b))) => done(harness(|t| {
            let w = world();
            w.enter(t, Call::Link, &format!("link {a} {b}"))?;
            let i = w.fs.lookup(&a, flags & libc::AT_SYMLINK_FOLLOW != 0)?.2.ok_or(libc::ENOENT)?;
            if w.fs.is_dir(i) {
                return Err(libc::EPERM);
            }
            let (d, n, j) = w.fs.lookup(&b, false)?;
            if j.is_some() {
                return Err(libc::EEXIST);
            }
            w.fs.meta(vec![(d, n, Some(i))]);
            Ok(0)
        })) as c_int,
        (None, None) => kernel(libc::SYS_linkat, f1 as i64, a as i64, f2 as i64, b as i64, flags as i64, 0) as c_int,
        (Some(P::Outside), Some(P::Outside)) => deny() as c_int,
        _ => done(Err(libc::EXDEV)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        return match path_of(b) {
            P::Sim(p) => done(harness(|t| {
                let w = world();
                w.enter(t, Call::Link, &format!("symlink {p}"))?;
                let (d, n, j) = w.fs.lookup(&p, false)?;
                if j.is_some() {
                    return Err(libc::EEXIST);
                }
                let target = CStr::from_ptr(a).to_string_lossy().to_string();
                let i = w.fs.alloc(Kind::Symlink(target), 0o777);
                w.fs.meta(vec![(d, n, Some(i))]);
                Ok(0)
            })) as c_int,
            P::Outside => deny() as c_int,
        };
    }
    kernel(libc::SYS_symlink, a as i64, b as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if active() {
        return match path_of(path) {
            P::Sim(p) => done(harness(|t| {
                let w = world();
                w.enter(t, Call::Mkdir, &format!("mkdir {p}"))?;
                let (d, n, j) = w.fs.lookup(&p, false)?;
                if j.is_some() {
                    return Err(libc::EEXIST);
                }
                let i = w.fs.alloc(Kind::Dir(Default::default()), mode & 0o755);
                w.fs.meta(vec![(d, n, Some(i))]);
                Ok(0)
            })) as c_int,
            P::Outside => deny() as c_int,
        };
    }
    kernel(libc::SYS_mkdir, path as i64, mode as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if active() {
        if let P::Sim(p) = path_of(path) {
            let r = harness(|t| {
                let w = world();
                w.enter(t, Call::Path, &format!("readlink {p}"))?;
                let i = w.fs.lookup(&p, false)?.2.ok_or(libc::ENOENT)?;
                match &w.fs.inodes[i].kind {
                    Kind::Symlink(t) => {
                        let t = name_bytes(t);
                        let l = t.len().min(n);
                        std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, l);
                        Ok(l as i64)
                    }
                    _ => Err(libc::EINVAL),
                }
            });
            return done(r) as ssize_t;
        }
    }
    kernel(libc::SYS_readlink, path as i64, buf as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() {
        if let P::Sim(p) = path_of(path) {
            let r = harness(|t| {
                let w = world();
                w.enter(t, Call::Path, &format!("realpath {p}"))?;
                w.fs.lookup(&p, true)?.2.ok_or(libc::ENOENT)?;
                w.fs.canonical(&p).map(|s| name_bytes(&format!("{PREFIX}{s}"))).ok_or(libc::ENOENT)
            });
            IN_SUT.set(false);
            let res = match r {
                Err(e) => {
                    *libc::__errno_location() = e;
                    std::ptr::null_mut()
                }
                Ok(s) => {
                    let dst = if out.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { out };
                    std::ptr::copy_nonoverlapping(s.as_ptr(), dst as *mut u8, s.len());
                    *dst.add(s.len()) = 0;
                    dst
                }
            };
            IN_SUT.set(true);
            return res;
        }
    }
    next!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(path, out)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active() && !buf.is_null() {
        let s = "/swrs-sim/cwd\0";
        if n < s.len() {
            *libc::__errno_location() = libc::ERANGE;
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, s.len());
        return buf;
    }
    next!("getcwd", fn(*mut c_char, size_t) -> *mut c_char)(buf, n)
}

fn set_mode(ino: usize, mode: u32) {
    world().fs.inodes[ino].mode = mode & 0o7777;
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if active() {
        return match path_of(path) {
            P::Sim(p) => done(harness(|t| {
                let w = world();
                w.enter(t, Call::Chmod, &format!("chmod {p} {mode:o}"))?;
                let i = w.fs.lookup(&p, true)?.2.ok_or(libc::ENOENT)?;
                set_mode(i, mode);
                Ok(0)
            })) as c_int,
            P::Outside => deny() as c_int,
        };
    }
    kernel(libc::SYS_chmod, path as i64, mode as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if active() && is_sim_fd(fd) {
        return done(with_fd(fd, Call::Chmod, format!("fchmod {mode:o}"), |w, _| {
            let i = w.fds[&fd].ino;
            set_mode(i, mode);
            Ok(0)
        })) as c_int;
    }
    kernel(libc::SYS_fchmod, fd as i64, mode as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, a: c_uint, b: c_uint) -> c_int {
    if active() && is_sim_fd(fd) {
        return done(with_fd(fd, Call::Chmod, "fchown".into(), |_, _| Ok(0))) as c_int;
    }
    kernel(libc::SYS_fchown, fd as i64, a as i64, b as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chown(path: *const c_char, a: c_uint, b: c_uint) -> c_int {
    if active() {
        return match path_of(path) {
            P::Sim(p) => done(sim_stat(&p, true).map(|_| 0)) as c_int,
            P::Outside => deny() as c_int,
        };
    }
    kernel(libc::SYS_chown, path as i64, a as i64, b as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int {
    if active() && is_sim_fd(fd) {
        return done(with_fd(fd, Call::Other, "futimens".into(), |_, _| Ok(0))) as c_int;
    }
    kernel(libc::SYS_utimensat, fd as i64, 0, ts as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(fd: c_int, path: *const c_char, ts: *const libc::timespec, flags: c_int) -> c_int {
    match at_path(fd, path) {
        Some(P::Sim(p)) => done(sim_stat(&p, true).map(|_| 0)) as c_int,
        Some(P::Outside) => deny() as c_int,
        None => kernel(libc::SYS_utimensat, fd as i64, path as i64, ts as i64, flags as i64, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if active() && is_sim_fd(fd) {
        // the lock of a simulated file is tied to its inode; waiting is done with the simulated futex
        loop {
            let r = harness(|t| {
                let w = world();
                w.enter(t, Call::Other, &format!("flock {op}"))?;
                let ino = w.fds.get(&fd).ok_or(libc::EBADF)?.ino;
                Ok(w.flock(ino, fd, op))
            });
            match r {
                Err(e) => return done(Err(e)) as c_int,
                Ok(Ok(())) => return 0,
                Ok(Err(_)) if op & libc::LOCK_NB != 0 => return done(Err(libc::EWOULDBLOCK)) as c_int,
                Ok(Err(ino)) => {
                    harness(|_| sched::futex_wait(FLOCK_BASE + ino, None));
                }
            }
        }
    }
    kernel(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if active() && is_sim_fd(fd) {
        return sim_dup(fd);
    }
    kernel(libc::SYS_dup, fd as i64, 0, 0, 0, 0, 0) as c_int
}
unsafe fn sim_dup(fd: c_int) -> c_int {
    done(with_fd(fd, Call::Other, "dup".into(), |w, _| {
        let n = w.next_fd;
        w.next_fd += 1;
        let f = w.fds[&fd].clone();
        w.fds.insert(n, f);
        Ok(n as i64)
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    do_fcntl(fd, cmd, arg)
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if active() && is_sim_fd(fd) {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => sim_dup(fd),
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => world().fds.get(&fd).map(|f| f.flags).unwrap_or(0),
            _ => 0,
        };
    }
    kernel(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: c_long) -> c_int {
    if active() && is_sim_fd(fd) {
        return done(Err(libc::ENOTTY)) as c_int;
    }
    kernel(libc::SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- directories

const DIR_BASE: usize = 0x7000_0000_0000_0000;

#[repr(C)]
struct DirBuf {
    ent: libc::dirent64,
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if active() {
        if let P::Sim(p) = path_of(path) {
            let r = harness(|t| {
                let w = world();
                w.enter(t, Call::Dir, &format!("opendir {p}"))?;
                let i = w.fs.lookup(&p, true)?.2.ok_or(libc::ENOENT)?;
                match &w.fs.inodes[i].kind {
                    Kind::Dir(d) => {
                        let names = d.keys().cloned().collect();
                        let h = DIR_BASE + w.next_fd as usize;
                        w.next_fd += 1;
                        w.dirs.insert(h, (names, 0));
                        Ok(h)
                    }
                    _ => Err(libc::ENOTDIR),
                }
            });
            return match r {
                Ok(h) => h as *mut libc::DIR,
                Err(e) => {
                    *libc::__errno_location() = e;
                    std::ptr::null_mut()
                }
            };
        }
    }
    next!("opendir", fn(*const c_char) -> *mut libc::DIR)(path)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if (d as usize) >= DIR_BASE && SIM_ID.get() >= 0 {
        static mut BUF: DirBuf = DirBuf { ent: unsafe { std::mem::zeroed() } };
        let was = IN_SUT.get();
        IN_SUT.set(false);
        let w = world();
        let r = match w.dirs.get_mut(&(d as usize)) {
            Some((names, at)) if *at < names.len() => {
                let n = name_bytes(&names[*at]);
                *at += 1;
                #[allow(static_mut_refs)]
                let e = &mut BUF.ent;
                e.d_ino = *at as u64 + 2;
                e.d_type = libc::DT_UNKNOWN;
                e.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
                for (i, b) in n.iter().enumerate() {
                    e.d_name[i] = *b as c_char;
                }
                e.d_name[n.len()] = 0;
                e as *mut libc::dirent64
            }
            _ => std::ptr::null_mut(),
        };
        IN_SUT.set(was);
        return r;
    }
    next!("readdir64", fn(*mut libc::DIR) -> *mut libc::dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if (d as usize) >= DIR_BASE && SIM_ID.get() >= 0 {
        let was = IN_SUT.get();
        IN_SUT.set(false);
        world().dirs.remove(&(d as usize));
        IN_SUT.set(was);
        return 0;
    }
    next!("closedir", fn(*mut libc::DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if (d as usize) >= DIR_BASE {
        return -1;
    }
    next!("dirfd", fn(*mut libc::DIR) -> c_int)(d)
}

// ---------------------------------------------------------------- randomness, time, blocking

unsafe fn fill(buf: *mut u8, n: usize) {
    let was = IN_SUT.get();
    IN_SUT.set(false);
    let out = std::slice::from_raw_parts_mut(buf, n);
    if SIM_ID.get() >= 0 {
        let w = world();
        for b in out {
            *b = (w.ent.next() >> 32) as u8;
        }
    } else {
        // outside of a run nothing may depend on chance either
        static SEQ: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
        for b in out {
            *b = crate::rng::mix(SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst)) as u8;
        }
    }
    IN_SUT.set(was);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, _flags: c_uint) -> ssize_t {
    fill(buf as *mut u8, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    fill(buf as *mut u8, n);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if active() {
        let w = world();
        w.clock += 1_000; // time passes for those who look at it
        let ns = w.clock;
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    kernel(libc::SYS_clock_gettime, c as i64, ts as i64, 0, 0, 0, 0) as c_int
}
unsafe fn sim_sleep(ts: *const libc::timespec, absolute: bool) {
    let ns = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    harness(|_| sched::sleep(if absolute { ns } else { world().clock + ns }));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        sim_sleep(a, false);
        return 0;
    }
    kernel(libc::SYS_nanosleep, a as i64, b as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        sim_sleep(a, f & libc::TIMER_ABSTIME != 0);
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, c as i64, f as i64, a as i64, b as i64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        harness(|_| sched::give_way());
        return 0;
    }
    kernel(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    match n {
        libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long,
        libc::SYS_gettid => return gettid() as c_long,
        libc::SYS_getpid => return getpid() as c_long,
        libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        libc::SYS_futex if active() => {
            let op = (b as i32) & 127;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let word = a as *const u32;
                    if std::ptr::read_volatile(word) != c as u32 {
                        return done(Err(libc::EAGAIN));
                    }
                    let until = (d != 0).then(|| {
                        let ts = &*(d as *const libc::timespec);
                        let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                        if op == libc::FUTEX_WAIT { world().clock + ns } else { ns }
                    });
                    IN_SUT.set(false);
                    let r = sched::futex_wait(word as usize, until);
                    IN_SUT.set(true);
                    return if r == 0 { 0 } else { done(Err(r)) };
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let k = harness(|_| sched::futex_wake(a as usize, c as u32));
                    return k as c_long;
                }
                _ => {}
            }
        }
        _ => {}
    }
    kernel(n, a, b, c, d, e, f)
}

// ---------------------------------------------------------------- threads and identity

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    id: usize,
    client: i32,
    alloc_yield: bool,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    sched::spawned(s.id, s.client, s.alloc_yield, || (s.f)(s.arg))
}

/// threads of the code under test that can still be joined
static mut HANDLES: Vec<(libc::pthread_t, usize)> = vec![];

#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn pthread_create(h: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    let real = next!("pthread_create", fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int);
    if !active() {
        return real(h, a, f, arg);
    }
    harness(|_| {
        let id = match sched::spawn() {
            Some(id) => id,
            None => return libc::EAGAIN,
        };
        let s = Box::into_raw(Box::new(Start { f, arg, id, client: SIM_ID.get(), alloc_yield: ALLOC_YIELD.get() }));
        let r = real(h, a, trampoline, s as *mut c_void);
        assert!(r == 0, "harness: thread");
        HANDLES.push((*h, id));
        0
    })
}

#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn pthread_join(h: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    let real = next!("pthread_join", fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if active() {
        IN_SUT.set(false);
        if let Some(i) = HANDLES.iter().rposition(|x| x.0 == h) {
            let id = HANDLES.remove(i).1;
            sched::join(id);
        }
        let x = real(h, r);
        IN_SUT.set(true);
        return x;
    }
    real(h, r)
}

#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn pthread_detach(h: libc::pthread_t) -> c_int {
    if active() {
        harness(|_| HANDLES.retain(|x| x.0 != h));
    }
    next!("pthread_detach", fn(libc::pthread_t) -> c_int)(h)
}

/// a process number that is as good as any
fn pid() -> c_int {
    harness(|_| 2 + (world().pid % 4_000_000) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if active() {
        return pid();
    }
    kernel(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> c_int {
    if active() {
        return 1;
    }
    kernel(libc::SYS_getppid, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if active() {
        return pid() + TID.get();
    }
    kernel(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, _: *mut c_void) -> c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        (*t).tv_sec = ts.tv_sec;
        (*t).tv_usec = ts.tv_nsec / 1000;
    }
    0
}

// ---------------------------------------------------------------- the rest of the environment

fn differs(what: &[u8]) -> u64 {
    what.iter().fold(world().pid, |h, b| crate::rng::mix(h ^ *b as u64))
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    const VALUES: [&CStr; 8] = [c"1", c"0", c"true", c"", c"de_DE.UTF-8", c"UTC+5", c"/home/user", c"some value"];
    let n = CStr::from_ptr(name).to_bytes();
    // what std and the C library ask for themselves is left alone
    if active() && !["RUST_", "TMPDIR", "LD_", "MALLOC", "GLIBC"].iter().any(|p| n.starts_with(p.as_bytes())) {
        let h = differs(n);
        return match h % 2 {
            0 => std::ptr::null_mut(),
            _ => VALUES[(h >> 8) as usize % 8].as_ptr() as *mut c_char,
        };
    }
    extern "C" {
        static environ: *const *mut c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = CStr::from_ptr(*e).to_bytes();
        if v.len() > n.len() && v.starts_with(n) && v[n.len()] == b'=' {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

/// a machine with another number of processors
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: size_t, mask: *mut libc::cpu_set_t) -> c_int {
    if active() {
        std::ptr::write_bytes(mask as *mut u8, 0, size);
        for i in 0..1 + (differs(b"processors") % 32) as usize {
            *(mask as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = kernel(libc::SYS_sched_getaffinity, pid as i64, size as i64, mask as i64, 0, 0, 0);
    if r > 0 {
        std::ptr::write_bytes((mask as *mut u8).add(r as usize), 0, size - r as usize);
        return 0;
    }
    r as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gethostname(name: *mut c_char, len: size_t) -> c_int {
    let mut u: libc::utsname = std::mem::zeroed();
    kernel(libc::SYS_uname, &mut u as *mut _ as i64, 0, 0, 0, 0, 0);
    let mut h: Vec<u8> = CStr::from_ptr(u.nodename.as_ptr()).to_bytes().to_vec();
    if active() {
        let n = differs(b"host");
        h = vec![b'h', b'a' + (n % 26) as u8, b'a' + (n / 26 % 26) as u8];
    }
    h.push(0);
    if h.len() > len {
        *libc::__errno_location() = libc::ENAMETOOLONG;
        return -1;
    }
    std::ptr::copy_nonoverlapping(h.as_ptr() as *const c_char, name, h.len());
    0
}

// ---------------------------------------------------------------- allocations are scheduling points

pub struct Alloc;

unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_point();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_point();
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        alloc_point();
        std::alloc::System.realloc(p, l, n)
    }
}

#[inline]
fn alloc_point() {
    if IN_SUT.get() && ALLOC_YIELD.get() && SIM_ID.get() >= 0 {
        harness(|_| ());
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;
