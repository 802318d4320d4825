//! The seam: every libc function through which the crate under test (or the standard library
//! on its behalf) can reach something nondeterministic or visible from outside is defined here
//! and, at link time, takes the place of the C library's. Outside a simulated operation each
//! one just forwards to the real function.

#![allow(clippy::missing_safety_doc, clashing_extern_declarations)]
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

use crate::plan::{FKind, IoKind};
use crate::rt::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

pub unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

macro_rules! next {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

unsafe fn path_bytes(p: *const c_char) -> Vec<u8> {
    CStr::from_ptr(p).to_bytes().to_vec()
}

fn show(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}

// ------------------------------------------------------------------ open / close

/// The standard library looks for the process's own CPU limits here when asked for the number
/// of processors (the regex crate does, through its buffer pool); nothing is there
fn runtime_probe(p: &[u8]) -> bool {
    p.starts_with(b"/proc/self/") || p.starts_with(b"/sys/fs/cgroup")
}

unsafe fn sim_open(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    let t = tid();
    let _h = Host::enter();
    let p = norm(&rt().fs.cwd, &path_bytes(path));
    let _ = dir;
    if runtime_probe(&p) && flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) == 0 {
        set_errno(libc::ENOENT);
        return -1;
    }
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
        bad(t, format!("opened {} for writing (flags {:#x})", show(&p), flags));
    }
    let given = rt().thr[t].io.path.clone();
    if given.as_deref() != Some(&p[..]) {
        bad(t, format!("opened {}, which is not the given path", show(&p)));
    }
    let d = io_gate(t, IoKind::Open);
    trace(t, format!("open {}", show(&p)));
    if let IoDec::Err(e) = d {
        set_errno(e);
        return -1;
    }
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 {
        set_errno(libc::EROFS);
        return -1;
    }
    let r = rt();
    match r.fs.names.get(&p) {
        None => {
            set_errno(libc::ENOENT);
            -1
        }
        Some(i) => {
            let ino = *i;
            let op = r.thr[t].op;
            if r.fs.inodes[ino].kind != FKind::Reg {
                r.fired[21] += 1;
            }
            r.fs.handles.push(Some(Handle { ino, pos: 0, tid: t, op }));
            r.thr[t].io.open += 1;
            FD_BASE + r.fs.handles.len() as c_int - 1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if in_sut() {
        return sim_open(libc::AT_FDCWD, path, flags);
    }
    next!("open64", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if in_sut() {
        return sim_open(libc::AT_FDCWD, path, flags);
    }
    next!("open", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if in_sut() {
        return sim_open(d, path, flags);
    }
    next!("openat64", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if in_sut() {
        return sim_open(d, path, flags);
    }
    next!("openat", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(d, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE && tid() != NONE {
        let t = tid();
        let _h = Host::enter();
        let d = io_gate(t, IoKind::Close);
        trace(t, format!("close {}", fd - FD_BASE));
        let i = (fd - FD_BASE) as usize;
        let r = rt();
        if i >= r.fs.handles.len() || r.fs.handles[i].is_none() {
            bad(t, "closed a descriptor that was not open".to_string());
            set_errno(libc::EBADF);
            return -1;
        }
        r.fs.handles[i] = None;
        r.thr[t].io.open = r.thr[t].io.open.saturating_sub(1);
        if let IoDec::Err(e) = d {
            set_errno(e);
            return -1;
        }
        return 0;
    }
    if in_sut() {
        let t = tid();
        let _h = Host::enter();
        bad(t, format!("closed descriptor {} which the call did not open", fd));
        set_errno(libc::EBADF);
        return -1;
    }
    next!("close", fn(c_int) -> c_int)(fd)
}

// ------------------------------------------------------------------ reading

unsafe fn sim_read(fd: c_int, buf: *mut u8, n: usize, at: Option<usize>) -> ssize_t {
    let t = tid();
    let _h = Host::enter();
    if handle(fd).is_none() {
        bad(t, format!("read from descriptor {}", fd));
        set_errno(libc::EBADF);
        return -1;
    }
    let d = io_gate(t, IoKind::Read);
    let r = rt();
    let hd = match handle(fd) {
        Some(h) => h,
        None => {
            set_errno(libc::EBADF);
            return -1;
        }
    };
    let data = r.fs.inodes[hd.ino].data.clone();
    match r.fs.inodes[hd.ino].kind {
        FKind::Dir => {
            trace(t, "read -> EISDIR".into());
            set_errno(libc::EISDIR);
            return -1;
        }
        FKind::Fifo if at.is_some() => {
            set_errno(libc::ESPIPE);
            return -1;
        }
        _ => {}
    }
    let io = &mut r.thr[t].io;
    let k = io.reads as usize;
    io.reads += 1;
    let mut lim = n;
    match d {
        IoDec::Err(e) => {
            set_errno(e);
            drop(data);
            trace(t, format!("read {} -> errno {}", n, e));
            return -1;
        }
        IoDec::Short(s) => lim = lim.min(s.max(1)),
        _ => {
            if !io.chunks.is_empty() {
                lim = lim.min(io.chunks[k % io.chunks.len()].max(1));
            }
        }
    }
    let pos = at.unwrap_or(hd.pos).min(data.len());
    let avail = data.len() - pos;
    let m = avail.min(lim);
    if m < n.min(avail) {
        r.fired[7] += 1;
    }
    std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), buf, m);
    if at.is_none() {
        hd.pos = pos + m;
    }
    io.delivered += m as u64;
    if m == 0 && n > 0 {
        io.eof = true;
    }
    io.last = Some(data);
    trace(t, format!("read {} -> {}", n, m));
    m as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if in_sut() {
        return sim_read(fd, buf as *mut u8, n, None);
    }
    next!("read", fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if in_sut() {
        return sim_read(fd, buf as *mut u8, n, Some(off as usize));
    }
    next!("pread64", fn(c_int, *mut c_void, size_t, i64) -> ssize_t)(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if in_sut() {
        let mut total = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len == 0 {
                continue;
            }
            let m = sim_read(fd, v.iov_base as *mut u8, v.iov_len, None);
            if m < 0 {
                return if total > 0 { total } else { m };
            }
            total += m;
            if (m as usize) < v.iov_len {
                break;
            }
        }
        return total;
    }
    next!("readv", fn(c_int, *const libc::iovec, c_int) -> ssize_t)(fd, iov, n)
}

unsafe fn sim_seek(fd: c_int, off: i64, whence: c_int) -> i64 {
    let t = tid();
    let _h = Host::enter();
    let d = io_gate(t, IoKind::Seek);
    let r = rt();
    match (d, handle(fd)) {
        (_, None) => {
            set_errno(libc::EBADF);
            -1
        }
        (IoDec::Err(e), _) => {
            trace(t, format!("seek -> errno {}", e));
            set_errno(e);
            -1
        }
        (_, Some(h)) if r.fs.inodes[h.ino].kind == FKind::Fifo => {
            trace(t, "seek -> ESPIPE".into());
            set_errno(libc::ESPIPE);
            -1
        }
        (_, Some(h)) => {
            let len = r.fs.inodes[h.ino].data.len() as i64;
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => h.pos as i64,
                libc::SEEK_END => len,
                _ => {
                    set_errno(libc::EINVAL);
                    return -1;
                }
            };
            if base + off < 0 {
                set_errno(libc::EINVAL);
                return -1;
            }
            h.pos = (base + off) as usize;
            trace(t, format!("seek -> {}", h.pos));
            h.pos as i64
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if in_sut() {
        return sim_seek(fd, off, whence);
    }
    next!("lseek64", fn(c_int, i64, c_int) -> i64)(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

// ------------------------------------------------------------------ metadata

struct Meta {
    size: u64,
    ino: u64,
    mtime: u64,
    mode: u32,
}

unsafe fn sim_stat(fd: Option<c_int>, path: Option<*const c_char>, follow: bool) -> Result<Meta, c_int> {
    let t = tid();
    let d = io_gate(t, IoKind::Stat);
    let r = rt();
    let mut dir = false;
    let ino = match (fd, path) {
        (Some(fd), _) => match handle(fd) {
            Some(h) => h.ino,
            None => return Err(libc::EBADF),
        },
        (_, Some(p)) => {
            let p = norm(&r.fs.cwd, &path_bytes(p));
            match r.fs.names.get(&p) {
                Some(i) => *i,
                None => {
                    let mut pre = p.clone();
                    pre.push(b'/');
                    if r.fs.names.keys().any(|k| k.starts_with(&pre)) || p == r.fs.cwd || p == b"/" {
                        dir = true;
                        usize::MAX
                    } else {
                        trace(t, "stat -> ENOENT".into());
                        return Err(libc::ENOENT);
                    }
                }
            }
        }
        _ => return Err(libc::EFAULT),
    };
    if let IoDec::Err(e) = d {
        trace(t, format!("stat -> errno {}", e));
        return Err(e);
    }
    if dir {
        return Ok(Meta { size: 4096, ino: 2, mtime: 1_500_000_000_000_000_000, mode: libc::S_IFDIR | 0o755 });
    }
    let i = &r.fs.inodes[ino];
    let size = match d {
        IoDec::Size(n) => n,
        _ => i.data.len() as u64,
    };
    let (mode, size) = match i.kind {
        FKind::Link if !follow => (libc::S_IFLNK | 0o777, 9),
        FKind::Reg | FKind::Link => (libc::S_IFREG | 0o644, size),
        FKind::Fifo => (libc::S_IFIFO | 0o644, 0),
        FKind::Chr => (libc::S_IFCHR | 0o644, 0),
        FKind::Dir => (libc::S_IFDIR | 0o755, 4096),
    };
    trace(t, format!("stat -> size {}", size));
    Ok(Meta { size, ino: ino as u64 + 100, mtime: i.mtime, mode })
}

unsafe fn fill_stat(m: Meta, st: *mut libc::stat64) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    let s = &mut *st;
    s.st_dev = 77;
    s.st_ino = m.ino;
    s.st_nlink = 1;
    s.st_mode = m.mode;
    s.st_size = m.size as i64;
    s.st_blksize = 4096;
    s.st_blocks = m.size.div_ceil(512).min(1 << 40) as i64;
    s.st_mtime = (m.mtime / 1_000_000_000) as i64;
    s.st_mtime_nsec = (m.mtime % 1_000_000_000) as i64;
    s.st_ctime = s.st_mtime;
    s.st_ctime_nsec = s.st_mtime_nsec;
    s.st_atime = s.st_mtime;
    s.st_atime_nsec = s.st_mtime_nsec;
}

unsafe fn stat_call(fd: Option<c_int>, path: Option<*const c_char>, follow: bool, st: *mut libc::stat64) -> c_int {
    let _h = Host::enter();
    match sim_stat(fd, path, follow) {
        Ok(m) => {
            fill_stat(m, st);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

macro_rules! stat_fns {
    ($($name:ident $sname:literal $kind:ident;)*) => { $( stat_fns!(@ $kind $name $sname); )* };
    (@ fd $name:ident $sname:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, st: *mut libc::stat64) -> c_int {
            if in_sut() { return stat_call(Some(fd), None, true, st); }
            next!($sname, fn(c_int, *mut libc::stat64) -> c_int)(fd, st)
        }
    };
    (@ path $name:ident $sname:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const c_char, st: *mut libc::stat64) -> c_int {
            if in_sut() { return stat_call(None, Some(p), !$sname.starts_with('l'), st); }
            next!($sname, fn(*const c_char, *mut libc::stat64) -> c_int)(p, st)
        }
    };
    (@ at $name:ident $sname:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(d: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
            if in_sut() {
                if *p == 0 { return stat_call(Some(d), None, true, st); }
                return stat_call(None, Some(p), fl & libc::AT_SYMLINK_NOFOLLOW == 0, st);
            }
            next!($sname, fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int)(d, p, st, fl)
        }
    };
}
stat_fns! {
    fstat64 "fstat64" fd;
    fstat "fstat" fd;
    stat64 "stat64" path;
    stat "stat" path;
    lstat64 "lstat64" path;
    lstat "lstat" path;
    fstatat64 "fstatat64" at;
    fstatat "fstatat" at;
}

unsafe fn sim_statx(d: c_int, p: *const c_char, fl: c_int, out: *mut libc::statx) -> c_int {
    let _h = Host::enter();
    if p.is_null() {
        set_errno(libc::EFAULT);
        return -1;
    }
    let follow = fl & libc::AT_SYMLINK_NOFOLLOW == 0;
    let r = if *p == 0 { sim_stat(Some(d), None, true) } else { sim_stat(None, Some(p), follow) };
    match r {
        Err(e) => {
            set_errno(e);
            -1
        }
        Ok(m) => {
            std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
            let s = &mut *out;
            s.stx_mask = libc::STATX_BASIC_STATS;
            s.stx_blksize = 4096;
            s.stx_nlink = 1;
            s.stx_mode = m.mode as u16;
            s.stx_ino = m.ino;
            s.stx_size = m.size;
            s.stx_blocks = m.size.div_ceil(512);
            s.stx_mtime.tv_sec = (m.mtime / 1_000_000_000) as i64;
            s.stx_mtime.tv_nsec = (m.mtime % 1_000_000_000) as u32;
            s.stx_ctime = s.stx_mtime;
            s.stx_atime = s.stx_mtime;
            s.stx_dev_minor = 77;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if in_sut() {
        return sim_statx(d, p, fl, out);
    }
    next!("statx", fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int)(d, p, fl, mask, out)
}

#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if in_sut() {
        let _h = Host::enter();
        return match sim_stat(None, Some(p), true) {
            Ok(_) => 0,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    next!("access", fn(*const c_char, c_int) -> c_int)(p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, mode: c_int, fl: c_int) -> c_int {
    if in_sut() {
        return access(p, mode);
    }
    next!("faccessat", fn(c_int, *const c_char, c_int, c_int) -> c_int)(d, p, mode, fl)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if in_sut() {
        let _h = Host::enter();
        return match sim_stat(None, Some(p), true) {
            Ok(_) => {
                let n = norm(&rt().fs.cwd, &path_bytes(p));
                let o = if out.is_null() { libc::malloc(n.len() + 1) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, o, n.len());
                *o.add(n.len()) = 0;
                o
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    next!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if in_sut() {
        set_errno(libc::EINVAL);
        return -1;
    }
    next!("readlink", fn(*const c_char, *mut c_char, size_t) -> ssize_t)(p, b, n)
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if in_sut() && fd >= FD_BASE {
        let _h = Host::enter();
        return match (cmd, handle(fd)) {
            (_, None) => {
                set_errno(libc::EBADF);
                -1
            }
            (libc::F_DUPFD, Some(h)) | (libc::F_DUPFD_CLOEXEC, Some(h)) => {
                let n = Handle { ino: h.ino, pos: h.pos, tid: h.tid, op: h.op };
                let r = rt();
                r.fs.handles.push(Some(n));
                FD_BASE + r.fs.handles.len() as c_int - 1
            }
            (libc::F_GETFD, _) => libc::FD_CLOEXEC,
            _ => 0,
        };
    }
    next!("fcntl", fn(c_int, c_int, c_long) -> c_int)(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: i64, b: i64, c: c_int) -> c_int {
    if in_sut() {
        return 0;
    }
    next!("posix_fadvise64", fn(c_int, i64, i64, c_int) -> c_int)(fd, a, b, c)
}

unsafe fn sim_mmap(n: size_t, prot: c_int, fd: c_int, off: i64) -> *mut c_void {
    let t = tid();
    let _h = Host::enter();
    if prot & libc::PROT_WRITE != 0 {
        trace(t, "mmap writable".into());
    }
    match io_gate(t, IoKind::Read) {
        IoDec::Err(e) => {
            set_errno(e);
            return libc::MAP_FAILED;
        }
        _ => {}
    }
    let data = match handle(fd) {
        Some(h) => rt().fs.inodes[h.ino].data.clone(),
        None => {
            set_errno(libc::EBADF);
            return libc::MAP_FAILED;
        }
    };
    let p = next!("mmap64", fn(*mut c_void, size_t, c_int, c_int, c_int, i64) -> *mut c_void)(
        std::ptr::null_mut(),
        n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    if p != libc::MAP_FAILED {
        let o = (off as usize).min(data.len());
        let m = (data.len() - o).min(n);
        std::ptr::copy_nonoverlapping(data.as_ptr().add(o), p as *mut u8, m);
    }
    rt().thr[t].io.last = Some(data);
    rt().thr[t].io.eof = true;
    p
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void {
    if fd >= FD_BASE && in_sut() {
        return sim_mmap(n, prot, fd, off);
    }
    next!("mmap64", fn(*mut c_void, size_t, c_int, c_int, c_int, i64) -> *mut c_void)(a, n, prot, fl, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void {
    if fd >= FD_BASE && in_sut() {
        return sim_mmap(n, prot, fd, off);
    }
    next!("mmap", fn(*mut c_void, size_t, c_int, c_int, c_int, i64) -> *mut c_void)(a, n, prot, fl, fd, off)
}

// ------------------------------------------------------------------ writing and other side effects

unsafe fn sim_write(fd: c_int, b: *const u8, n: usize) -> ssize_t {
    let t = tid();
    let _h = Host::enter();
    let head = std::slice::from_raw_parts(b, n.min(60));
    bad(t, format!("wrote {} bytes to descriptor {}: {:?}", n, fd, String::from_utf8_lossy(head)));
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if in_sut() {
        return sim_write(fd, b as *const u8, n);
    }
    next!("write", fn(c_int, *const c_void, size_t) -> ssize_t)(fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: i64) -> ssize_t {
    if in_sut() {
        return sim_write(fd, b as *const u8, n);
    }
    next!("pwrite64", fn(c_int, *const c_void, size_t, i64) -> ssize_t)(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if in_sut() {
        let mut total = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                total += sim_write(fd, v.iov_base as *const u8, v.iov_len);
            }
        }
        return total;
    }
    next!("writev", fn(c_int, *const libc::iovec, c_int) -> ssize_t)(fd, iov, n)
}

/// Functions that change something outside the call: recorded and refused
macro_rules! forbidden {
    ($($name:ident $sname:literal ( $($a:ident : $t:ty),* ) -> $r:ty = $fail:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if in_sut() {
                let t = tid();
                let _h = Host::enter();
                bad(t, format!("called {}", $sname));
                set_errno(libc::EPERM);
                return $fail;
            }
            next!($sname, fn($($t),*) -> $r)($($a),*)
        }
    )* };
}
type CP = *const c_char;
type VP = *mut c_void;
forbidden! {
    unlink "unlink" (a: CP) -> c_int = -1;
    unlinkat "unlinkat" (d: c_int, a: CP, f: c_int) -> c_int = -1;
    rename "rename" (a: CP, b: CP) -> c_int = -1;
    renameat "renameat" (d: c_int, a: CP, e: c_int, b: CP) -> c_int = -1;
    link "link" (a: CP, b: CP) -> c_int = -1;
    linkat "linkat" (d: c_int, a: CP, e: c_int, b: CP, f: c_int) -> c_int = -1;
    symlink "symlink" (a: CP, b: CP) -> c_int = -1;
    mkdir "mkdir" (a: CP, m: c_uint) -> c_int = -1;
    mkdirat "mkdirat" (d: c_int, a: CP, m: c_uint) -> c_int = -1;
    rmdir "rmdir" (a: CP) -> c_int = -1;
    chmod "chmod" (a: CP, m: c_uint) -> c_int = -1;
    fchmod "fchmod" (a: c_int, m: c_uint) -> c_int = -1;
    chown "chown" (a: CP, u: c_uint, g: c_uint) -> c_int = -1;
    truncate64 "truncate64" (a: CP, n: i64) -> c_int = -1;
    ftruncate64 "ftruncate64" (a: c_int, n: i64) -> c_int = -1;
    futimens "futimens" (a: c_int, t: *const libc::timespec) -> c_int = -1;
    utimensat "utimensat" (d: c_int, a: CP, t: *const libc::timespec, f: c_int) -> c_int = -1;
    mkstemp64 "mkstemp64" (a: *mut c_char) -> c_int = -1;
    copy_file_range "copy_file_range" (a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: size_t, f: c_uint) -> ssize_t = -1;
    sendfile64 "sendfile64" (a: c_int, b: c_int, x: *mut i64, n: size_t) -> ssize_t = -1;
    opendir "opendir" (a: CP) -> VP = std::ptr::null_mut();
    fdopendir "fdopendir" (a: c_int) -> VP = std::ptr::null_mut();
    chdir "chdir" (a: CP) -> c_int = -1;
    fchdir "fchdir" (a: c_int) -> c_int = -1;
    chroot "chroot" (a: CP) -> c_int = -1;
    umask "umask" (m: c_uint) -> c_uint = 0o22;
    fork "fork" () -> c_int = -1;
    vfork_ "vfork" () -> c_int = -1;
    execve "execve" (a: CP, b: *const CP, c: *const CP) -> c_int = -1;
    execvp "execvp" (a: CP, b: *const CP) -> c_int = -1;
    posix_spawn "posix_spawn" (p: VP, a: CP, f: VP, g: VP, b: VP, c: VP) -> c_int = 1;
    posix_spawnp "posix_spawnp" (p: VP, a: CP, f: VP, g: VP, b: VP, c: VP) -> c_int = 1;
    socket "socket" (a: c_int, b: c_int, c: c_int) -> c_int = -1;
    socketpair "socketpair" (a: c_int, b: c_int, c: c_int, d: *mut c_int) -> c_int = -1;
    pipe "pipe" (a: *mut c_int) -> c_int = -1;
    pipe2 "pipe2" (a: *mut c_int, f: c_int) -> c_int = -1;
    kill "kill" (p: c_int, s: c_int) -> c_int = -1;
    setrlimit64 "setrlimit64" (r: c_int, p: VP) -> c_int = -1;
    setpriority "setpriority" (w: c_int, i: c_uint, p: c_int) -> c_int = -1;
    sched_setaffinity "sched_setaffinity" (p: c_int, n: size_t, m: VP) -> c_int = -1;
    alarm "alarm" (n: c_uint) -> c_uint = 0;
    setitimer "setitimer" (w: c_int, a: VP, b: VP) -> c_int = -1;
    atexit_ "atexit" (f: VP) -> c_int = -1;
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if in_sut() {
        fatal(&format!("exit({})", code));
    }
    next!("exit", fn(c_int) -> c_int)(code);
    unreachable!()
}
/// A failed allocation which the code has no answer to ends the process: that is allowed
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if in_sut() && alloc_failed() {
        fatal("out of memory");
    }
    next!("abort", fn() -> ())();
    unreachable!()
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if in_sut() {
        fatal(&format!("exit({})", code));
    }
    raw6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    unreachable!()
}

#[no_mangle]
pub unsafe extern "C" fn sigaction(s: c_int, a: *const libc::sigaction, o: *mut libc::sigaction) -> c_int {
    if in_sut() && !a.is_null() {
        let t = tid();
        let _h = Host::enter();
        bad(t, format!("installed a handler for signal {}", s));
        set_errno(libc::EPERM);
        return -1;
    }
    next!("sigaction", fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int)(s, a, o)
}
#[no_mangle]
pub unsafe extern "C" fn signal(s: c_int, h: usize) -> usize {
    if in_sut() {
        let t = tid();
        let _h = Host::enter();
        bad(t, format!("installed a handler for signal {}", s));
        return usize::MAX;
    }
    next!("signal", fn(c_int, usize) -> usize)(s, h)
}

// ------------------------------------------------------------------ environment

extern "C" {
    static mut environ: *mut *mut c_char;
}

/// What a look at all variables finds; for the simulated process only
pub fn set_environ() {
    let names: [&[u8]; 12] = [
        b"HOME", b"PATH", b"LANG", b"LC_ALL", b"TMPDIR", b"RUST_LOG", b"RUST_BACKTRACE", b"DEBUG", b"SCILLA_HOME", b"SCILLA_STDLIB_PATH",
        b"SCILLA_DEBUG", b"SCILLA_PARSER_STRICT",
    ];
    unsafe {
        let mut v: Vec<*mut c_char> = vec![];
        for n in names {
            let p = sim_getenv(n);
            if !p.is_null() {
                let mut e = n.to_vec();
                e.push(b'=');
                e.extend_from_slice(CStr::from_ptr(p).to_bytes_with_nul());
                v.push(e.leak().as_mut_ptr() as *mut c_char);
            }
        }
        v.push(std::ptr::null_mut());
        environ = v.leak().as_mut_ptr();
    }
}

unsafe fn sim_getenv(name: &[u8]) -> *mut c_char {
    let r = rt();
    if let Some((_, v)) = r.env_set.iter().find(|(k, _)| k == name) {
        return v.as_ptr() as *mut c_char;
    }
    // A variable the simulated environment was never told about: absent, "0", "1" or a word,
    // by the run's environment seed
    let h = crate::rng::mix(crate::rng::hash_bytes(name) ^ r.env.0);
    let v: &[u8] = match r.env_mode {
        0 => return std::ptr::null_mut(),
        1 => b"1\0",
        2 => [&b"0\0"[..], b"1\0", b"debug\0", b"\0"][(h % 4) as usize],
        _ => b"/sim/x\0",
    };
    let b: Box<[u8]> = v.to_vec().into_boxed_slice();
    let p = b.as_ptr() as *mut c_char;
    r.env_set.push((name.to_vec(), b));
    p
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: CP) -> *mut c_char {
    if in_sut() {
        let _h = Host::enter();
        return sim_getenv(CStr::from_ptr(name).to_bytes());
    }
    next!("getenv", fn(CP) -> *mut c_char)(name)
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(name: CP) -> *mut c_char {
    if in_sut() {
        return getenv(name);
    }
    next!("secure_getenv", fn(CP) -> *mut c_char)(name)
}
#[no_mangle]
pub unsafe extern "C" fn setenv(k: CP, v: CP, o: c_int) -> c_int {
    if in_sut() {
        let t = tid();
        let _h = Host::enter();
        bad(t, format!("set environment variable {}", show(&path_bytes(k))));
        let val = CStr::from_ptr(v).to_bytes_with_nul().to_vec().into_boxed_slice();
        rt().env_set.insert(0, (path_bytes(k), val));
        return 0;
    }
    next!("setenv", fn(CP, CP, c_int) -> c_int)(k, v, o)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(k: CP) -> c_int {
    if in_sut() {
        let t = tid();
        let _h = Host::enter();
        bad(t, format!("removed environment variable {}", show(&path_bytes(k))));
        return 0;
    }
    next!("unsetenv", fn(CP) -> c_int)(k)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if in_sut() {
        let _h = Host::enter();
        let c = &rt().fs.cwd;
        if n < c.len() + 1 {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, b, c.len());
        *b.add(c.len()) = 0;
        return b;
    }
    next!("getcwd", fn(*mut c_char, size_t) -> *mut c_char)(b, n)
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> c_long {
    if in_sut() && (n == libc::_SC_NPROCESSORS_ONLN || n == libc::_SC_NPROCESSORS_CONF) {
        return rt().cpus;
    }
    next!("sysconf", fn(c_int) -> c_long)(n)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(p: c_int, n: size_t, m: *mut libc::cpu_set_t) -> c_int {
    if in_sut() {
        std::ptr::write_bytes(m as *mut u8, 0, n);
        for i in 0..(rt().cpus as usize).min(n * 8) {
            *(m as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    next!("sched_getaffinity", fn(c_int, size_t, *mut libc::cpu_set_t) -> c_int)(p, n, m)
}

// ------------------------------------------------------------------ randomness and time

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    if in_sut() {
        let _h = Host::enter();
        let r = rt();
        for i in 0..n {
            *(b as *mut u8).add(i) = r.env.next() as u8;
        }
        return n as ssize_t;
    }
    next!("getrandom", fn(*mut c_void, size_t, c_uint) -> ssize_t)(b, n, f)
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    if in_sut() {
        getrandom(b, n, 0);
        return 0;
    }
    next!("getentropy", fn(*mut c_void, size_t) -> c_int)(b, n)
}
fn wall_clock() -> i64 {
    let r = rt();
    r.clock += 100;
    if r.wall_jumps {
        // set back or forward by someone: seconds to a day
        let by = [1, 60, 3600, 86_400][r.env.below(4)] * 1_000_000_000i64;
        r.wall_off += if r.env.below(2) == 0 { by } else { -by };
        r.fired[23] += 1;
    }
    if r.wall_off != 0 {
        r.fired[22] += 1;
    }
    r.clock as i64 + r.wall_off
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, ts: *mut libc::timespec) -> c_int {
    if in_sut() {
        let now = if matches!(c, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI) {
            wall_clock()
        } else {
            let r = rt();
            r.clock += 100;
            r.clock as i64
        };
        (*ts).tv_sec = now.div_euclid(1_000_000_000);
        (*ts).tv_nsec = now.rem_euclid(1_000_000_000);
        return 0;
    }
    next!("clock_gettime", fn(c_int, *mut libc::timespec) -> c_int)(c, ts)
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, z: *mut c_void) -> c_int {
    if in_sut() {
        let now = wall_clock();
        (*tv).tv_sec = now.div_euclid(1_000_000_000);
        (*tv).tv_usec = now.rem_euclid(1_000_000_000) / 1000;
        return 0;
    }
    next!("gettimeofday", fn(*mut libc::timeval, *mut c_void) -> c_int)(tv, z)
}
unsafe fn sim_sleep(ns: u64) {
    let t = tid();
    let until = rt().clock.saturating_add(ns);
    block(t, St::Sleep { until });
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if in_sut() {
        sim_sleep((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
        return 0;
    }
    next!("nanosleep", fn(*const libc::timespec, *mut libc::timespec) -> c_int)(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, fl: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if in_sut() {
        let ns = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        let now = rt().clock;
        sim_sleep(if fl & 1 != 0 { ns.saturating_sub(now) } else { ns });
        return 0;
    }
    next!("clock_nanosleep", fn(c_int, c_int, *const libc::timespec, *mut libc::timespec) -> c_int)(c, fl, a, b)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sut() {
        yield_now(tid());
        return 0;
    }
    next!("sched_yield", fn() -> c_int)()
}

// ------------------------------------------------------------------ futex and other raw calls

unsafe fn sim_futex(addr: *const u32, op: i64, val: i64, ts: *const libc::timespec, val3: i64) -> c_long {
    let t = tid();
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            point(Pt::Sync, 0);
            if *addr != val as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let deadline = if ts.is_null() {
                u64::MAX
            } else {
                let v = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
                if cmd == 9 && op & 256 != 0 {
                    (v as i64).saturating_sub(rt().wall_off).max(0) as u64
                } else if cmd == 9 {
                    v
                } else {
                    rt().clock.saturating_add(v)
                }
            };
            let mask = if cmd == 9 { val3 as u32 } else { u32::MAX };
            rt().thr[t].timed_out = false;
            block(t, St::Futex { addr: addr as usize, mask, deadline });
            if rt().thr[t].timed_out {
                rt().thr[t].timed_out = false;
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        1 | 10 => {
            let n = {
                let _h = Host::enter();
                let mask = if cmd == 10 { val3 as u32 } else { u32::MAX };
                futex_wake_sim(addr as usize, val, mask)
            };
            point(Pt::Sync, 0);
            n as c_long
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if in_sut() {
        match n {
            libc::SYS_futex => return sim_futex(a as *const u32, b, c, d as *const libc::timespec, f),
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long,
            libc::SYS_statx => return sim_statx(a as c_int, b as CP, c as c_int, e as *mut libc::statx) as c_long,
            libc::SYS_gettid => return 1000 + tid() as c_long,
            _ => {
                let t = tid();
                let _h = Host::enter();
                bad(t, format!("made system call {}", n));
                set_errno(libc::ENOSYS);
                return -1;
            }
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

// ------------------------------------------------------------------ threads

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        let (f, arg, t) = (s.f, s.arg, s.tid);
        drop(s);
        let g: *const Gate = &*rt().thr[t].gate;
        (*g).pass();
        become_thread(t);
        let r = f(arg);
        finish_spawned(t);
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
    let _: Option<F> = None;
    let real = next!("pthread_create", fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int);
    if in_sut() {
        let me = tid();
        let rc;
        {
            let _h = Host::enter();
            if rt().thr.len() > 60 {
                bad(me, "started more than 50 threads".into());
                return libc::EAGAIN;
            }
            let t = add_thread(true);
            let r = rt();
            r.thr[t].parent = me;
            r.thr[t].budget = r.thr[me].budget;
            r.thr[t].op = r.thr[me].op;
            r.thr[t].io.path = r.thr[me].io.path.clone();
            r.multi = true;
            let s = Box::into_raw(Box::new(Start { f, arg, tid: t }));
            rc = real(out, attr, trampoline, s as *mut c_void);
            if rc != 0 {
                r.thr[t].st = St::Done;
            } else {
                r.thr[t].pthread = *out as usize;
            }
        }
        point(Pt::Sync, 0);
        return rc;
    }
    real(out, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    if in_sut() {
        let me = tid();
        let t = rt().thr.iter().position(|x| x.spawned && x.pthread == th as usize);
        if let Some(t) = t {
            if rt().thr[t].st != St::Done {
                block(me, St::Join { tid: t });
            }
        }
    }
    next!("pthread_join", fn(libc::pthread_t, *mut *mut c_void) -> c_int)(th, ret)
}

// ------------------------------------------------------------------ compiler callbacks

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            NGUARDS += 1;
            *p = NGUARDS;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    point(Pt::Bb, *g);
}
#[inline(always)]
unsafe fn mem(a: *const u8) {
    if a >= &raw const __data_start && a < &raw const _end {
        point(Pt::Glob, 0);
    }
}
macro_rules! memcb {
    ($($n:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(a: *const u8) { mem(a) } )* };
}
memcb! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
