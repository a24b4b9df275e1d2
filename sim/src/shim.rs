//! libc entry points, replaced for this executable.  Outside a simulated client they pass through
//! to the real libc; inside they are scheduling points of the simulated machine.
#![allow(non_snake_case)]
use crate::fs::*;
use crate::kernel::*;
use libc::*;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

type CP = *const c_char;

unsafe fn real_sym(name: &'static str, cell: &AtomicUsize) -> usize {
    let v = cell.load(Relaxed);
    if v != 0 {
        return v;
    }
    let p = dlsym(RTLD_NEXT, name.as_ptr() as CP) as usize;
    cell.store(p, Relaxed);
    p
}
macro_rules! real {
    ($n:literal, fn($($t:ty),*) -> $r:ty, $($a:expr),*) => {{
        static C: AtomicUsize = AtomicUsize::new(0);
        let p = real_sym(concat!($n, "\0"), &C);
        if p == 0 { set_errno(ENOSYS); return -1i64 as $r; }
        let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(p);
        f($($a),*)
    }};
}
macro_rules! realp {
    ($n:literal, fn($($t:ty),*) -> $r:ty, $($a:expr),*) => {{
        static C: AtomicUsize = AtomicUsize::new(0);
        let p = real_sym(concat!($n, "\0"), &C);
        let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(p);
        f($($a),*)
    }};
}
fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn fail(e: i32) -> c_int {
    set_errno(e);
    -1
}
unsafe fn bytes<'a>(p: CP) -> &'a [u8] {
    std::slice::from_raw_parts(p as *const u8, strlen(p))
}
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}
/// enter the kernel: a scheduling point
macro_rules! enter {
    ($me:ident) => {
        let $me = $me as usize;
        let _off = off();
        w().point($me);
    };
}
macro_rules! me_or {
    ($real:expr) => {{
        let m = me();
        if m < 0 {
            return $real;
        }
        m
    }};
}

fn base_of(dirfd: c_int) -> Result<Ino, i32> {
    if dirfd == AT_FDCWD {
        return Ok(w().fs.cwd);
    }
    match w().fds.get(&dirfd) {
        None => Err(EBADF),
        Some(f) => match w().ofds[f.ofd].of {
            Of::Dir { ino } => Ok(ino),
            Of::File { ino, .. } => Ok(ino),
            _ => Err(ENOTDIR),
        },
    }
}
fn dev_null(p: &[u8]) -> bool {
    p == b"/dev/null"
}

// ------------------------------------------------------------------ open / close
fn sys_open(e: usize, dirfd: c_int, path: &[u8], flags: c_int) -> c_int {
    let wd = w();
    let base = match base_of(dirfd) {
        Ok(b) => b,
        Err(x) => return fail(x),
    };
    if dev_null(path) || path == b"/dev/urandom" || path == b"/dev/random" {
        if dev_null(path) && wd.fault(e, F::Open) {
            return fail(EMFILE);
        }
        let o = wd.new_ofd(if dev_null(path) { Of::Null } else { Of::Rand });
        return wd.new_fd(e, o, flags & O_CLOEXEC != 0, lossy(path));
    }
    let acc = flags & O_ACCMODE;
    let wr = acc != O_RDONLY || flags & (O_TRUNC | O_CREAT) != 0;
    let follow = !(flags & O_NOFOLLOW != 0 || (flags & O_CREAT != 0 && flags & O_EXCL != 0));
    let wk = wd.fs.walk(base, path, follow);
    let kind = if flags & O_DIRECTORY != 0 { EK::List } else if wr { EK::OpenW } else { EK::OpenR };
    let canon = wk.canon.clone();
    let res: Result<i32, i32> = (|| {
        if wd.fault(e, F::EintrOpen) {
            return Err(EINTR);
        }
        if wd.fault(e, F::Open) {
            let c = wd.errno(F::Open, &[EACCES, EMFILE, EIO, ENFILE, ENOMEM]);
            return Err(c);
        }
        let ino = match wk.ino {
            Some(i) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                i
            }
            None => {
                if wk.err != ENOENT || !wk.parent_ok || flags & O_CREAT == 0 {
                    return Err(wk.err);
                }
                if wk.trailing {
                    return Err(EISDIR);
                }
                if wd.fs.quota == Some(0) && wd.fault_on {
                    wd.probe("disk_full_create");
                    return Err(ENOSPC);
                }
                let i = wd.fs.add(Kind::File(vec![]), wk.dir);
                wd.fs.dir_mut(wk.dir).insert(wk.name.clone(), i);
                i
            }
        };
        if wd.fs.n[ino].noaccess {
            return Err(EACCES);
        }
        match &mut wd.fs.n[ino].kind {
            Kind::Dir(_) => {
                if acc != O_RDONLY || flags & O_CREAT != 0 {
                    return Err(EISDIR);
                }
                let o = wd.new_ofd(Of::Dir { ino });
                Ok(wd.new_fd(e, o, flags & O_CLOEXEC != 0, canon.clone()))
            }
            Kind::File(d) => {
                if flags & O_DIRECTORY != 0 {
                    return Err(ENOTDIR);
                }
                if flags & O_TRUNC != 0 && acc != O_RDONLY {
                    d.clear();
                }
                let o = wd.new_ofd(Of::File { ino, pos: 0, append: flags & O_APPEND != 0, r: acc != O_WRONLY, w: acc != O_RDONLY });
                Ok(wd.new_fd(e, o, flags & O_CLOEXEC != 0, canon.clone()))
            }
            Kind::Link(_) => Err(ELOOP),
            Kind::Fifo if flags & (O_NONBLOCK | O_PATH) == 0 => {
                // nobody is at the other end
                loop {
                    wd.block(e, Wait::Never, None);
                }
            }
            Kind::Null | Kind::Fifo => {
                let o = wd.new_ofd(Of::Null);
                Ok(wd.new_fd(e, o, flags & O_CLOEXEC != 0, canon.clone()))
            }
        }
    })();
    wd.ev(100, crate::tape::hash_str(&canon) ^ flags as u64, res.is_ok() as u64, || format!("[{}] open({:?}, {:#o}) = {:?}", e, lossy(path), flags, res));
    if res != Err(EINTR) {
        wd.effect(e, kind, canon, res.is_ok());
    }
    match res {
        Ok(n) => n,
        Err(x) => fail(x),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: CP, flags: c_int, mode: mode_t) -> c_int {
    let m = me_or!(real!("open64", fn(CP, c_int, mode_t) -> c_int, p, flags, mode));
    enter!(m);
    sys_open(m, AT_FDCWD, bytes(p), flags)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: CP, flags: c_int, mode: mode_t) -> c_int {
    let m = me_or!(real!("open", fn(CP, c_int, mode_t) -> c_int, p, flags, mode));
    enter!(m);
    sys_open(m, AT_FDCWD, bytes(p), flags)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: CP, flags: c_int, mode: mode_t) -> c_int {
    let m = me_or!(real!("openat64", fn(c_int, CP, c_int, mode_t) -> c_int, d, p, flags, mode));
    enter!(m);
    sys_open(m, d, bytes(p), flags)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: CP, flags: c_int, mode: mode_t) -> c_int {
    let m = me_or!(real!("openat", fn(c_int, CP, c_int, mode_t) -> c_int, d, p, flags, mode));
    enter!(m);
    sys_open(m, d, bytes(p), flags)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let m = me_or!(real!("close", fn(c_int) -> c_int, fd));
    enter!(m);
    let wd = w();
    let ok = wd.close_fd(fd);
    wd.ev(101, fd as u64, ok as u64, || format!("[{}] close({}) {}", m, fd, if ok { "ok" } else { "EBADF" }));
    if ok {
        0
    } else {
        wd.probe("close_of_closed_fd");
        fail(EBADF)
    }
}

// ------------------------------------------------------------------ read / write
fn rand_fill(buf: &mut [u8]) {
    let wd = w();
    for b in buf.iter_mut() {
        *b = match wd.entropy_mode {
            1 => 0,
            2 => 0xff,
            3 => {
                wd.entropy_ctr += 1;
                wd.entropy_ctr as u8
            }
            _ => (wd.entropy.next() >> 32) as u8,
        };
    }
}
fn sys_read(e: usize, fd: c_int, buf: &mut [u8]) -> isize {
    let wd = w();
    let r = sys_read_in(e, fd, buf, None);
    let h = match r {
        Ok(n) => buf[..n].iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)),
        Err(x) => x as u64,
    };
    wd.ev(102, fd as u64, h, || format!("[{}] read({}, {}) = {:?}", e, fd, buf.len(), r));
    match r {
        Ok(n) => n as isize,
        Err(x) => fail(x) as isize,
    }
}
fn sys_read_in(e: usize, fd: c_int, buf: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
    let wd = w();
    let ofd = match wd.fds.get(&fd) {
        None => return Err(EBADF),
        Some(f) => f.ofd,
    };
    match wd.ofds[ofd].of {
        Of::File { ino, pos, r, .. } => {
            if !r {
                return Err(EBADF);
            }
            if wd.fault(e, F::EintrRead) {
                return Err(EINTR);
            }
            if wd.fault(e, F::Read) {
                return Err(wd.errno(F::Read, &[EIO, EIO, EIO, EIO, ENOMEM, EAGAIN]));
            }
            let p = at.unwrap_or(pos);
            let len = match &wd.fs.n[ino].kind {
                Kind::File(d) => d.len(),
                _ => return Err(EISDIR),
            };
            let have = len.saturating_sub(p);
            let mut n = have.min(buf.len());
            if n > 1 && wd.fault(e, F::ShortRead) {
                n = 1 + wd.f.below(n - 1).min(if wd.f.chance(1, 2) { 3 } else { n });
            }
            if let Kind::File(d) = &wd.fs.n[ino].kind {
                if n > 0 {
                    buf[..n].copy_from_slice(&d[p..p + n]);
                }
            }
            if at.is_none() {
                if let Of::File { pos, .. } = &mut wd.ofds[ofd].of {
                    *pos = p + n;
                }
            }
            Ok(n)
        }
        Of::Dir { .. } => Err(EISDIR),
        Of::Null => Ok(0),
        Of::Rand => {
            rand_fill(buf);
            Ok(buf.len())
        }
        Of::Console(0) => Ok(0),
        Of::Console(_) => Err(EBADF),
        Of::PipeR(p) => {
            if wd.fault(e, F::EintrRead) {
                return Err(EINTR);
            }
            loop {
                let have = wd.pipes[p].buf.len().min(buf.len());
                if have > 0 || buf.is_empty() {
                    let mut n = have;
                    if n > 1 && wd.fault(e, F::ShortRead) {
                        n = 1 + wd.f.below(n - 1);
                    }
                    for b in buf[..n].iter_mut() {
                        *b = wd.pipes[p].buf.pop_front().unwrap();
                    }
                    return Ok(n);
                }
                if !wd.writers(p) {
                    return Ok(0);
                }
                if wd.ofds[ofd].nonblock {
                    return Err(EAGAIN);
                }
                wd.block(e, Wait::PipeR(p), None);
            }
        }
        Of::PipeW(_) => Err(EBADF),
        Of::Free => Err(EBADF),
    }
}
fn sys_write(e: usize, fd: c_int, data: &[u8], at: Option<usize>) -> isize {
    let wd = w();
    let r = sys_write_in(e, fd, data, at);
    let h = match r {
        Ok(n) => data[..n].iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)),
        Err(x) => x as u64,
    };
    wd.ev(103, fd as u64, h, || format!("[{}] write({}, {} bytes) = {:?}", e, fd, data.len(), r));
    match r {
        Ok(n) => n as isize,
        Err(x) => fail(x) as isize,
    }
}
fn sys_write_in(e: usize, fd: c_int, data: &[u8], at: Option<usize>) -> Result<usize, i32> {
    let wd = w();
    let ofd = match wd.fds.get(&fd) {
        None => return Err(EBADF),
        Some(f) => f.ofd,
    };
    match wd.ofds[ofd].of {
        Of::File { ino, pos, append, w: can, .. } => {
            if !can {
                return Err(EBADF);
            }
            if wd.fault(e, F::EintrWrite) {
                return Err(EINTR);
            }
            let mut n = data.len();
            if wd.fault(e, F::Write) {
                // a full or failing disk takes part of the data, or none
                let part = if n > 0 { wd.f.below(n) } else { 0 };
                if part == 0 {
                    return Err(wd.errno(F::Write, &[ENOSPC, EIO, EDQUOT, EFBIG]));
                }
                n = part;
            }
            if n > 1 && wd.fault(e, F::ShortWrite) {
                n = 1 + wd.f.below(n - 1);
            }
            let len = match &wd.fs.n[ino].kind {
                Kind::File(d) => d.len(),
                _ => return Err(EINVAL),
            };
            let p = at.unwrap_or(if append { len } else { pos });
            let grow = (p + n).saturating_sub(len);
            if let Some(q) = wd.fs.quota {
                if grow > q {
                    let can = n - (grow - q);
                    if can == 0 || p > len {
                        wd.probe("disk_full_write");
                        let c = wd.client_of(e);
                        if c >= 0 {
                            wd.op_hard[c as usize] += 1;
                        }
                        return Err(ENOSPC);
                    }
                    n = can;
                    wd.fs.quota = Some(0);
                } else {
                    wd.fs.quota = Some(q - grow);
                }
            }
            if let Kind::File(d) = &mut wd.fs.n[ino].kind {
                if d.len() < p + n {
                    d.resize(p + n, 0);
                }
                d[p..p + n].copy_from_slice(&data[..n]);
            }
            if at.is_none() {
                if let Of::File { pos, .. } = &mut wd.ofds[ofd].of {
                    *pos = p + n;
                }
            }
            Ok(n)
        }
        Of::Null => Ok(data.len()),
        Of::Console(0) | Of::Rand => Err(EBADF),
        Of::Console(c) => {
            let mode = wd.console_mode[c as usize];
            if mode > 0 {
                wd.probe("console_broken_write");
                if mode != 5 {
                    return Err([0, EPIPE, ENOSPC, EIO, EAGAIN][mode as usize]);
                }
                return Err(EBADF);
            }
            if wd.fault(e, F::EintrWrite) {
                return Err(EINTR);
            }
            if wd.fault(e, F::Console) {
                return Err(wd.errno(F::Console, &[EPIPE, ENOSPC, EIO, EAGAIN]));
            }
            let mut n = data.len();
            if n > 1 && wd.fault(e, F::ShortWrite) {
                n = 1 + wd.f.below(n - 1);
            }
            wd.console[c as usize].extend(&data[..n]);
            wd.effect(e, EK::Console, format!("fd{}", c), true);
            Ok(n)
        }
        Of::PipeW(p) => {
            let mut done = 0;
            if wd.fault(e, F::EintrWrite) {
                return Err(EINTR);
            }
            if wd.fault(e, F::Write) {
                return Err([ENOMEM, EIO][wd.f.below(2)]);
            }
            if data.is_empty() {
                return Ok(0);
            }
            loop {
                match wd.pipe_put(p, &data[done..]) {
                    Err(()) => {
                        wd.probe("pipe_write_epipe");
                        if done > 0 {
                            return Ok(done);
                        }
                        return Err(EPIPE);
                    }
                    Ok(n) => done += n,
                }
                if done == data.len() {
                    return Ok(done);
                }
                if wd.ofds[ofd].nonblock {
                    if done > 0 {
                        return Ok(done);
                    }
                    return Err(EAGAIN);
                }
                if done > 0 && wd.fault(e, F::ShortWrite) {
                    return Ok(done);
                }
                wd.probe("pipe_write_blocked");
                wd.block(e, Wait::PipeW(p), None);
            }
        }
        Of::PipeR(_) | Of::Dir { .. } | Of::Free => Err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let m = me_or!(real!("read", fn(c_int, *mut c_void, size_t) -> ssize_t, fd, b, n));
    enter!(m);
    sys_read(m, fd, std::slice::from_raw_parts_mut(b as *mut u8, n))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let m = me_or!(real!("write", fn(c_int, *const c_void, size_t) -> ssize_t, fd, b, n));
    enter!(m);
    sys_write(m, fd, std::slice::from_raw_parts(b as *const u8, n), None)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    let m = me_or!(real!("readv", fn(c_int, *const iovec, c_int) -> ssize_t, fd, v, n));
    enter!(m);
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return sys_read(m, fd, std::slice::from_raw_parts_mut(x.iov_base as *mut u8, x.iov_len));
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    let m = me_or!(real!("writev", fn(c_int, *const iovec, c_int) -> ssize_t, fd, v, n));
    enter!(m);
    let mut d = vec![];
    for i in 0..n as usize {
        let x = &*v.add(i);
        d.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    sys_write(m, fd, &d, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: i64) -> ssize_t {
    let m = me_or!(real!("pread64", fn(c_int, *mut c_void, size_t, i64) -> ssize_t, fd, b, n, o));
    enter!(m);
    match sys_read_in(m, fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(o as usize)) {
        Ok(n) => n as isize,
        Err(x) => fail(x) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: i64) -> ssize_t {
    let m = me_or!(real!("pwrite64", fn(c_int, *const c_void, size_t, i64) -> ssize_t, fd, b, n, o));
    enter!(m);
    sys_write(m, fd, std::slice::from_raw_parts(b as *const u8, n), Some(o as usize))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off_: i64, wh: c_int) -> i64 {
    let m = me_or!(real!("lseek64", fn(c_int, i64, c_int) -> i64, fd, off_, wh));
    enter!(m);
    let wd = w();
    let ofd = match wd.fds.get(&fd) {
        None => return fail(EBADF) as i64,
        Some(f) => f.ofd,
    };
    let len = match wd.ofds[ofd].of {
        Of::File { ino, .. } => match &wd.fs.n[ino].kind {
            Kind::File(d) => d.len() as i64,
            _ => 0,
        },
        Of::Null => 0,
        _ => return fail(ESPIPE) as i64,
    };
    if let Of::File { pos, .. } = &mut wd.ofds[ofd].of {
        let np = match wh {
            SEEK_SET => off_,
            SEEK_CUR => *pos as i64 + off_,
            _ => len + off_,
        };
        if np < 0 {
            return fail(EINVAL) as i64;
        }
        *pos = np as usize;
        return np;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let m = me_or!(real!("ftruncate64", fn(c_int, i64) -> c_int, fd, n));
    enter!(m);
    let wd = w();
    let ofd = match wd.fds.get(&fd) {
        None => return fail(EBADF),
        Some(f) => f.ofd,
    };
    if wd.fault(m, F::Write) {
        return fail(EIO);
    }
    if let Of::File { ino, w: true, .. } = wd.ofds[ofd].of {
        if let Kind::File(d) = &mut wd.fs.n[ino].kind {
            d.resize(n as usize, 0);
            return 0;
        }
    }
    fail(EINVAL)
}
fn sys_sync(e: usize, fd: c_int) -> c_int {
    let wd = w();
    if !wd.fds.contains_key(&fd) {
        return fail(EBADF);
    }
    if wd.fault(e, F::Sync) {
        return fail(EIO);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let m = me_or!(real!("fsync", fn(c_int) -> c_int, fd));
    enter!(m);
    sys_sync(m, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let m = me_or!(real!("fdatasync", fn(c_int) -> c_int, fd));
    enter!(m);
    sys_sync(m, fd)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let m = me_or!(real!("flock", fn(c_int, c_int) -> c_int, fd, op));
    enter!(m);
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: i64, b: i64, c: c_int) -> c_int {
    me_or!(real!("posix_fadvise64", fn(c_int, i64, i64, c_int) -> c_int, fd, a, b, c));
    0
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    me_or!(real!("isatty", fn(c_int) -> c_int, fd));
    set_errno(ENOTTY);
    0
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let m = me_or!(real!("dup", fn(c_int) -> c_int, fd));
    enter!(m);
    sys_dup(m, fd, false)
}
fn sys_dup(e: usize, fd: c_int, ce: bool) -> c_int {
    let wd = w();
    match wd.fds.get(&fd) {
        None => fail(EBADF),
        Some(f) => {
            let (o, what) = (f.ofd, f.what.clone());
            wd.new_fd(e, o, ce, what)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup2(a: c_int, b: c_int) -> c_int {
    let m = me_or!(real!("dup2", fn(c_int, c_int) -> c_int, a, b));
    enter!(m);
    let wd = w();
    match wd.fds.get(&a) {
        None => fail(EBADF),
        Some(f) => {
            let (o, what) = (f.ofd, f.what.clone());
            wd.put_fd(m, b, o, false, what);
            wd.effect(m, EK::Other, format!("dup2 onto {}", b), true);
            b
        }
    }
}
fn sys_fcntl(m: usize, fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let wd = w();
    let ofd = match wd.fds.get(&fd) {
        None => return fail(EBADF),
        Some(f) => f.ofd,
    };
    match cmd {
        F_DUPFD | F_DUPFD_CLOEXEC => sys_dup(m, fd, cmd == F_DUPFD_CLOEXEC),
        F_GETFD => wd.fds[&fd].cloexec as c_int,
        F_SETFD => {
            wd.fds.get_mut(&fd).unwrap().cloexec = arg & 1 != 0;
            0
        }
        F_GETFL => {
            let acc = match wd.ofds[ofd].of {
                Of::File { r: true, w: true, .. } | Of::Null | Of::Console(_) => O_RDWR,
                Of::File { w: true, .. } | Of::PipeW(_) => O_WRONLY,
                _ => O_RDONLY,
            };
            acc | if wd.ofds[ofd].nonblock { O_NONBLOCK } else { 0 }
        }
        F_SETFL => {
            wd.ofds[ofd].nonblock = arg as c_int & O_NONBLOCK != 0;
            0
        }
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let m = me_or!(real!("fcntl", fn(c_int, c_int, usize) -> c_int, fd, cmd, arg));
    enter!(m);
    sys_fcntl(m, fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let m = me_or!(real!("fcntl64", fn(c_int, c_int, usize) -> c_int, fd, cmd, arg));
    enter!(m);
    sys_fcntl(m, fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    let m = me_or!(real!("ioctl", fn(c_int, c_ulong, *mut c_void) -> c_int, fd, req, arg));
    enter!(m);
    let wd = w();
    let ofd = match wd.fds.get(&fd) {
        None => return fail(EBADF),
        Some(f) => f.ofd,
    };
    if req == FIONBIO {
        wd.ofds[ofd].nonblock = *(arg as *const c_int) != 0;
        return 0;
    }
    if req == FIOCLEX {
        wd.fds.get_mut(&fd).unwrap().cloexec = true;
        return 0;
    }
    fail(ENOTTY)
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(v: *mut c_int, flags: c_int) -> c_int {
    let m = me_or!(real!("pipe2", fn(*mut c_int, c_int) -> c_int, v, flags));
    enter!(m);
    let wd = w();
    if wd.fault(m, F::Pipe) {
        return fail(wd.errno(F::Pipe, &[EMFILE, ENFILE]));
    }
    wd.pipes.push(Pipe { buf: Default::default(), cap: wd.pipe_cap });
    let p = wd.pipes.len() - 1;
    let r = wd.new_ofd(Of::PipeR(p));
    let a = wd.new_fd(m, r, flags & O_CLOEXEC != 0, format!("pipe {} (read end)", p));
    let x = wd.new_ofd(Of::PipeW(p));
    let b = wd.new_fd(m, x, flags & O_CLOEXEC != 0, format!("pipe {} (write end)", p));
    if flags & O_NONBLOCK != 0 {
        wd.ofds[r].nonblock = true;
        wd.ofds[x].nonblock = true;
    }
    *v = a;
    *v.add(1) = b;
    wd.ev(104, a as u64, b as u64, || format!("[{}] pipe() = ({}, {})", m, a, b));
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe(v: *mut c_int) -> c_int {
    pipe2(v, 0)
}
#[no_mangle]
pub unsafe extern "C" fn poll(v: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    let m = me_or!(real!("poll", fn(*mut pollfd, nfds_t, c_int) -> c_int, v, n, timeout));
    enter!(m);
    let wd = w();
    if wd.fault(m, F::EintrPoll) {
        return fail(EINTR);
    }
    let fds = std::slice::from_raw_parts_mut(v, n as usize);
    let list: Vec<(i32, i16)> = fds.iter().filter(|f| f.fd >= 0).map(|f| (f.fd, f.events)).collect();
    if timeout != 0 {
        let dl = if timeout > 0 { Some(wd.now + timeout as u64 * 1_000_000) } else { None };
        wd.block(m, Wait::Poll(list), dl);
    }
    let mut k = 0;
    let mut h = 0u64;
    for f in fds.iter_mut() {
        f.revents = if f.fd >= 0 { wd.poll_rev(f.fd, f.events) } else { 0 };
        h = h * 64 + f.revents as u64;
        if f.revents != 0 {
            k += 1;
        }
    }
    wd.ev(105, h, k as u64, || format!("[{}] poll = {}", m, k));
    k
}

// ------------------------------------------------------------------ stat & co
fn node_mode(i: Ino) -> (u32, u64) {
    match &w().fs.n[i].kind {
        Kind::File(d) => (S_IFREG | 0o644, d.len() as u64),
        Kind::Dir(_) => (S_IFDIR | 0o755, 4096),
        Kind::Link(t) => (S_IFLNK | 0o777, t.len() as u64),
        Kind::Null => (S_IFCHR | 0o666, 0),
        Kind::Fifo => (S_IFIFO | 0o644, 0),
    }
}
/// (mode, ino, size)
fn sys_stat(e: usize, dirfd: c_int, path: &[u8], follow: bool, empty: bool) -> Result<(u32, u64, u64), i32> {
    let wd = w();
    if path.is_empty() && empty {
        let ofd = match wd.fds.get(&dirfd) {
            None => return Err(EBADF),
            Some(f) => f.ofd,
        };
        let (mode, ino, mut size) = match wd.ofds[ofd].of {
            Of::File { ino, .. } | Of::Dir { ino } => {
                let (m, s) = node_mode(ino);
                (m, ino as u64 + 2, s)
            }
            Of::PipeR(_) | Of::PipeW(_) => (S_IFIFO | 0o600, 1, 0),
            _ => (S_IFCHR | 0o666, 1, 0),
        };
        if mode & S_IFMT == S_IFREG && wd.fault(e, F::SizeLie) {
            size = [0, size / 2, size * 2 + 7, 1][wd.f.below(4)];
        }
        if wd.fault(e, F::Stat) {
            return Err(EIO);
        }
        wd.ev(106, mode as u64, size, || format!("[{}] fstat({}) = size {}", e, dirfd, size));
        return Ok((mode, ino, size));
    }
    let base = base_of(dirfd)?;
    let wk = wd.fs.walk(base, path, follow);
    let res = if wd.fault(e, F::Stat) {
        Err(wd.errno(F::Stat, &[EACCES, EIO, ENOMEM, ELOOP]))
    } else {
        match wk.ino {
            None => Err(wk.err),
            Some(i) => {
                let (m, s) = node_mode(i);
                Ok((m, i as u64 + 2, s))
            }
        }
    };
    wd.ev(107, crate::tape::hash_str(&wk.canon), res.is_ok() as u64, || format!("[{}] stat({:?}) = {:?}", e, lossy(path), res.map(|r| r.0)));
    if !dev_null(path) {
        wd.effect(e, EK::Stat, wk.canon, res.is_ok());
    }
    res
}
unsafe fn fill_stat(r: Result<(u32, u64, u64), i32>, st: *mut stat64) -> c_int {
    match r {
        Err(x) => fail(x),
        Ok((m, i, s)) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_mode = m;
            (*st).st_ino = i;
            (*st).st_size = s as i64;
            (*st).st_nlink = 1;
            (*st).st_blksize = 4096;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: CP, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let m = me_or!(real!("statx", fn(c_int, CP, c_int, c_uint, *mut libc::statx) -> c_int, d, p, flags, mask, out));
    if p.is_null() || out.is_null() {
        return fail(EFAULT);
    }
    enter!(m);
    match sys_stat(m, d, bytes(p), flags & AT_SYMLINK_NOFOLLOW == 0, flags & AT_EMPTY_PATH != 0) {
        Err(x) => fail(x),
        Ok((mode, ino, size)) => {
            std::ptr::write_bytes(out, 0, 1);
            (*out).stx_mask = STATX_BASIC_STATS;
            (*out).stx_mode = mode as u16;
            (*out).stx_ino = ino;
            (*out).stx_size = size;
            (*out).stx_nlink = 1;
            (*out).stx_blksize = 4096;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: CP, st: *mut stat64) -> c_int {
    let m = me_or!(real!("stat64", fn(CP, *mut stat64) -> c_int, p, st));
    enter!(m);
    fill_stat(sys_stat(m, AT_FDCWD, bytes(p), true, false), st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: CP, st: *mut stat64) -> c_int {
    let m = me_or!(real!("lstat64", fn(CP, *mut stat64) -> c_int, p, st));
    enter!(m);
    fill_stat(sys_stat(m, AT_FDCWD, bytes(p), false, false), st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    let m = me_or!(real!("fstat64", fn(c_int, *mut stat64) -> c_int, fd, st));
    enter!(m);
    fill_stat(sys_stat(m, fd, b"", true, true), st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: CP, st: *mut stat64, flags: c_int) -> c_int {
    let m = me_or!(real!("fstatat64", fn(c_int, CP, *mut stat64, c_int) -> c_int, d, p, st, flags));
    enter!(m);
    fill_stat(sys_stat(m, d, bytes(p), flags & AT_SYMLINK_NOFOLLOW == 0, flags & AT_EMPTY_PATH != 0), st)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: CP, mode: c_int) -> c_int {
    let m = me_or!(real!("access", fn(CP, c_int) -> c_int, p, mode));
    enter!(m);
    match sys_stat(m, AT_FDCWD, bytes(p), true, false) {
        Ok(_) => 0,
        Err(x) => fail(x),
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: CP, mode: c_int, fl: c_int) -> c_int {
    let m = me_or!(real!("faccessat", fn(c_int, CP, c_int, c_int) -> c_int, d, p, mode, fl));
    enter!(m);
    match sys_stat(m, d, bytes(p), true, false) {
        Ok(_) => 0,
        Err(x) => fail(x),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: CP, b: *mut c_char, n: size_t) -> ssize_t {
    let m = me_or!(real!("readlink", fn(CP, *mut c_char, size_t) -> ssize_t, p, b, n));
    enter!(m);
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, bytes(p), false);
    wd.effect(m, EK::Resolve, wk.canon.clone(), wk.ino.is_some());
    match wk.ino {
        None => fail(wk.err) as isize,
        Some(i) => match &wd.fs.n[i].kind {
            Kind::Link(t) => {
                let k = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, k);
                k as isize
            }
            _ => fail(EINVAL) as isize,
        },
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: CP, out: *mut c_char) -> *mut c_char {
    let m = {
        let m = me();
        if m < 0 {
            return realp!("realpath", fn(CP, *mut c_char) -> *mut c_char, p, out);
        }
        m
    };
    enter!(m);
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, bytes(p), true);
    wd.effect(m, EK::Resolve, wk.canon.clone(), wk.ino.is_some());
    if wd.fault(m, F::Stat) {
        set_errno(EIO);
        return std::ptr::null_mut();
    }
    match wk.ino {
        None => {
            set_errno(wk.err);
            std::ptr::null_mut()
        }
        Some(_) => {
            let b = wk.canon.as_bytes();
            let dst = if out.is_null() { malloc(b.len() + 1) as *mut u8 } else { out as *mut u8 };
            std::ptr::copy_nonoverlapping(b.as_ptr(), dst, b.len());
            *dst.add(b.len()) = 0;
            dst as *mut c_char
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    let m = {
        let m = me();
        if m < 0 {
            return realp!("getcwd", fn(*mut c_char, size_t) -> *mut c_char, b, n);
        }
        m
    };
    enter!(m);
    let wd = w();
    let p = wd.fs.path_of(wd.fs.cwd);
    if p.len() + 1 > n {
        set_errno(ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(p.as_ptr(), b as *mut u8, p.len());
    *b.add(p.len()) = 0;
    b
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: CP) -> c_int {
    let m = me_or!(real!("chdir", fn(CP) -> c_int, p));
    enter!(m);
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, bytes(p), true);
    wd.effect(m, EK::Chdir, wk.canon.clone(), wk.ino.is_some());
    match wk.ino {
        None => fail(wk.err),
        Some(i) if wd.fs.is_dir(i) => {
            wd.fs.cwd = i;
            0
        }
        _ => fail(ENOTDIR),
    }
}

// ------------------------------------------------------------------ directories
fn sys_opendir(m: usize, ino: Ino, canon: String, fd: Option<i32>) -> *mut DIR {
    let wd = w();
    let fd = match fd {
        Some(f) => f,
        None => {
            let o = wd.new_ofd(Of::Dir { ino });
            wd.new_fd(m, o, true, format!("directory {}", canon))
        }
    };
    let mut names: Vec<(Vec<u8>, Ino)> = wd.fs.dir(ino).iter().map(|(k, v)| (k.clone(), *v)).collect();
    // the order of a directory is the file system's business
    if names.len() > 1 && !wd.fixed_order && wd.f.chance(1, 2) {
        for i in (1..names.len()).rev() {
            let j = i - wd.f.below(i + 1);
            names.swap(i, j);
        }
    }
    let mut q: std::collections::VecDeque<(Vec<u8>, Ino)> = names.into();
    q.push_front((b"..".to_vec(), wd.fs.n[ino].parent));
    q.push_front((b".".to_vec(), ino));
    wd.dirs.push(DirS { fd, ino, names: q, ent: Box::new(unsafe { std::mem::zeroed() }), open: true, canon });
    (wd.dirs.len() + 0x4000) as *mut DIR
}
fn ds(d: *mut DIR) -> &'static mut DirS {
    &mut w().dirs[d as usize - 0x4001]
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: CP) -> *mut DIR {
    let m = {
        let m = me();
        if m < 0 {
            return realp!("opendir", fn(CP) -> *mut DIR, p);
        }
        m
    };
    enter!(m);
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, bytes(p), true);
    let r = if wd.fault(m, F::OpenDir) {
        Err(wd.errno(F::OpenDir, &[EACCES, EMFILE, EIO, ENOMEM]))
    } else {
        match wk.ino {
            None => Err(wk.err),
            Some(i) if !wd.fs.is_dir(i) => Err(ENOTDIR),
            Some(i) if wd.fs.n[i].noaccess => Err(EACCES),
            Some(i) => Ok(i),
        }
    };
    wd.ev(108, crate::tape::hash_str(&wk.canon), r.is_ok() as u64, || format!("[{}] opendir({:?}) = {:?}", m, lossy(bytes(p)), r));
    wd.effect(m, EK::List, wk.canon.clone(), r.is_ok());
    match r {
        Err(x) => {
            set_errno(x);
            std::ptr::null_mut()
        }
        Ok(i) => sys_opendir(m, i, wk.canon, None),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    let m = {
        let m = me();
        if m < 0 {
            return realp!("fdopendir", fn(c_int) -> *mut DIR, fd);
        }
        m
    };
    enter!(m);
    match base_of(fd) {
        Ok(i) if w().fs.is_dir(i) => {
            let c = w().fs.path_of(i);
            sys_opendir(m, i, c, Some(fd))
        }
        _ => {
            set_errno(ENOTDIR);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    let m = {
        let m = me();
        if m < 0 {
            return realp!("readdir64", fn(*mut DIR) -> *mut dirent64, d);
        }
        m
    };
    enter!(m);
    let wd = w();
    let s = ds(d);
    if wd.fault(m, F::ReadDir) {
        wd.ev(110, d as u64, 0, || format!("[{}] readdir fails with EIO", m));
        // after an error the stream is at its end
        s.names.clear();
        set_errno(EIO);
        return std::ptr::null_mut();
    }
    loop {
        let (n, i) = match s.names.pop_front() {
            None => {
                wd.ev(109, d as u64, 0, || format!("[{}] readdir: end", m));
                return std::ptr::null_mut(); // errno untouched
            }
            Some(x) => x,
        };
        // an entry that vanished meanwhile may or may not still be reported
        if n != b"." && n != b".." && wd.fs.dir(s.ino).get(&n) != Some(&i) {
            wd.probe("readdir_entry_changed_meanwhile");
            if wd.fs.dir(s.ino).get(&n).is_none() && wd.f.chance(1, 2) {
                continue;
            }
        }
        let t = if wd.fault(m, F::DtUnknown) {
            DT_UNKNOWN
        } else {
            match &wd.fs.n[i].kind {
                Kind::File(_) => DT_REG,
                Kind::Dir(_) => DT_DIR,
                Kind::Link(_) => DT_LNK,
                Kind::Null => DT_CHR,
                Kind::Fifo => DT_FIFO,
            }
        };
        s.ent.d_ino = i as u64 + 2;
        s.ent.d_type = t;
        s.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
        for (k, b) in n.iter().enumerate() {
            s.ent.d_name[k] = *b as c_char;
        }
        s.ent.d_name[n.len()] = 0;
        wd.ev(109, d as u64, crate::tape::hash_str(&lossy(&n)), || format!("[{}] readdir = {:?}", m, lossy(&n)));
        return &mut *s.ent;
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    let m = me_or!(real!("closedir", fn(*mut DIR) -> c_int, d));
    enter!(m);
    ds(d).open = false;
    let fd = ds(d).fd;
    w().close_fd(fd);
    w().ev(111, d as u64, 0, || format!("[{}] closedir", m));
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    me_or!(real!("dirfd", fn(*mut DIR) -> c_int, d));
    ds(d).fd
}
fn sys_mkdir(m: usize, p: &[u8]) -> c_int {
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, p, true);
    let r = if wd.fault(m, F::Mkdir) {
        Err(wd.errno(F::Mkdir, &[EACCES, ENOSPC, EIO, EROFS]))
    } else if wk.ino.is_some() {
        Err(EEXIST)
    } else if wk.err != ENOENT || !wk.parent_ok {
        Err(wk.err)
    } else {
        let i = wd.fs.add(Kind::Dir(Default::default()), wk.dir);
        wd.fs.dir_mut(wk.dir).insert(wk.name.clone(), i);
        Ok(())
    };
    wd.ev(112, crate::tape::hash_str(&wk.canon), r.is_ok() as u64, || format!("[{}] mkdir({:?}) = {:?}", m, lossy(p), r));
    wd.effect(m, EK::Mkdir, wk.canon, r.is_ok());
    match r {
        Ok(()) => 0,
        Err(x) => fail(x),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: CP, mode: mode_t) -> c_int {
    let m = me_or!(real!("mkdir", fn(CP, mode_t) -> c_int, p, mode));
    enter!(m);
    sys_mkdir(m, bytes(p))
}
fn sys_unlink(m: usize, dirfd: c_int, p: &[u8], rmdir: bool) -> c_int {
    let wd = w();
    let base = match base_of(dirfd) {
        Ok(b) => b,
        Err(x) => return fail(x),
    };
    let wk = wd.fs.walk(base, p, false);
    let r = match wk.ino {
        None => Err(wk.err),
        Some(_) if wk.name.is_empty() => Err(EINVAL),
        Some(i) => {
            if rmdir != wd.fs.is_dir(i) {
                Err(if rmdir { ENOTDIR } else { EISDIR })
            } else if rmdir && !wd.fs.dir(i).is_empty() {
                Err(ENOTEMPTY)
            } else {
                wd.fs.dir_mut(wk.dir).remove(&wk.name);
                Ok(())
            }
        }
    };
    wd.ev(113, crate::tape::hash_str(&wk.canon), r.is_ok() as u64, || format!("[{}] unlink({:?}) = {:?}", m, lossy(p), r));
    wd.effect(m, EK::Unlink, wk.canon, r.is_ok());
    match r {
        Ok(()) => 0,
        Err(x) => fail(x),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: CP) -> c_int {
    let m = me_or!(real!("unlink", fn(CP) -> c_int, p));
    enter!(m);
    sys_unlink(m, AT_FDCWD, bytes(p), false)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: CP) -> c_int {
    let m = me_or!(real!("rmdir", fn(CP) -> c_int, p));
    enter!(m);
    sys_unlink(m, AT_FDCWD, bytes(p), true)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: CP, fl: c_int) -> c_int {
    let m = me_or!(real!("unlinkat", fn(c_int, CP, c_int) -> c_int, d, p, fl));
    enter!(m);
    sys_unlink(m, d, bytes(p), fl & AT_REMOVEDIR != 0)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: CP, b: CP) -> c_int {
    let m = me_or!(real!("rename", fn(CP, CP) -> c_int, a, b));
    enter!(m);
    let wd = w();
    let x = wd.fs.walk(wd.fs.cwd, bytes(a), false);
    let y = wd.fs.walk(wd.fs.cwd, bytes(b), false);
    let r = match (x.ino, y.ino) {
        (None, _) => Err(x.err),
        (Some(_), None) if y.err != ENOENT || !y.parent_ok => Err(y.err),
        (Some(_), Some(t)) if wd.fs.is_dir(t) => Err(EISDIR),
        (Some(i), _) => {
            if wd.fault(m, F::Write) {
                Err(EIO)
            } else {
                wd.fs.dir_mut(x.dir).remove(&x.name);
                wd.fs.dir_mut(y.dir).insert(y.name.clone(), i);
                wd.fs.n[i].parent = y.dir;
                Ok(())
            }
        }
    };
    wd.ev(114, crate::tape::hash_str(&x.canon), r.is_ok() as u64, || format!("[{}] rename({:?}, {:?}) = {:?}", m, lossy(bytes(a)), lossy(bytes(b)), r));
    wd.effect(m, EK::Rename, x.canon, r.is_ok());
    wd.effect(m, EK::Rename, y.canon, r.is_ok());
    match r {
        Ok(()) => 0,
        Err(x) => fail(x),
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: CP, p: CP) -> c_int {
    let m = me_or!(real!("symlink", fn(CP, CP) -> c_int, t, p));
    enter!(m);
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, bytes(p), false);
    wd.effect(m, EK::Link, wk.canon.clone(), wk.ino.is_none());
    if wk.ino.is_some() {
        return fail(EEXIST);
    }
    if wk.err != ENOENT || !wk.parent_ok {
        return fail(wk.err);
    }
    let i = wd.fs.add(Kind::Link(bytes(t).to_vec()), wk.dir);
    wd.fs.dir_mut(wk.dir).insert(wk.name, i);
    0
}
#[no_mangle]
pub unsafe extern "C" fn linkat(a: c_int, p: CP, b: c_int, q: CP, fl: c_int) -> c_int {
    let m = me_or!(real!("linkat", fn(c_int, CP, c_int, CP, c_int) -> c_int, a, p, b, q, fl));
    enter!(m);
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, bytes(q), false);
    wd.effect(m, EK::Link, wk.canon, false);
    fail(EPERM)
}
#[no_mangle]
pub unsafe extern "C" fn link(p: CP, q: CP) -> c_int {
    let m = me_or!(real!("link", fn(CP, CP) -> c_int, p, q));
    enter!(m);
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, bytes(q), false);
    wd.effect(m, EK::Link, wk.canon, false);
    fail(EPERM)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: CP, mode: mode_t) -> c_int {
    let m = me_or!(real!("chmod", fn(CP, mode_t) -> c_int, p, mode));
    enter!(m);
    let wd = w();
    let wk = wd.fs.walk(wd.fs.cwd, bytes(p), true);
    wd.effect(m, EK::Meta, wk.canon, wk.ino.is_some());
    if wk.ino.is_some() { 0 } else { fail(wk.err) }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    let m = me_or!(real!("fchmod", fn(c_int, mode_t) -> c_int, fd, mode));
    enter!(m);
    w().effect(m, EK::Meta, format!("fd{}", fd), true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: CP, t: *const timespec, fl: c_int) -> c_int {
    let m = me_or!(real!("utimensat", fn(c_int, CP, *const timespec, c_int) -> c_int, d, p, t, fl));
    enter!(m);
    w().effect(m, EK::Meta, lossy(bytes(p)), true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const timespec) -> c_int {
    let m = me_or!(real!("futimens", fn(c_int, *const timespec) -> c_int, fd, t));
    enter!(m);
    w().effect(m, EK::Meta, format!("fd{}", fd), true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn chroot(p: CP) -> c_int {
    let m = me_or!(real!("chroot", fn(CP) -> c_int, p));
    enter!(m);
    w().effect(m, EK::Other, "chroot".into(), false);
    fail(EPERM)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, o: *mut i64, b: c_int, p: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    me_or!(real!("copy_file_range", fn(c_int, *mut i64, c_int, *mut i64, size_t, c_uint) -> ssize_t, a, o, b, p, n, f));
    fail(ENOSYS) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    me_or!(real!("sendfile64", fn(c_int, c_int, *mut i64, size_t) -> ssize_t, a, b, o, n));
    fail(ENOSYS) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, o: *mut i64, b: c_int, p: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    me_or!(real!("splice", fn(c_int, *mut i64, c_int, *mut i64, size_t, c_uint) -> ssize_t, a, o, b, p, n, f));
    fail(ENOSYS) as isize
}

// ------------------------------------------------------------------ environment
#[no_mangle]
pub unsafe extern "C" fn getenv(p: CP) -> *mut c_char {
    let m = {
        let m = me();
        if m < 0 {
            return realp!("getenv", fn(CP) -> *mut c_char, p);
        }
        m
    };
    let k = bytes(p);
    if k.starts_with(b"RUST_") {
        return std::ptr::null_mut();
    }
    enter!(m);
    let wd = w();
    let r = wd.env.get(k).cloned();
    wd.ev(120, crate::tape::hash_str(&lossy(k)), r.is_some() as u64, || format!("[{}] getenv({:?}) = {:?}", m, lossy(k), r.as_ref().map(|v| lossy(v))));
    wd.effect(m, EK::EnvR, lossy(k), r.is_some());
    match r {
        None => std::ptr::null_mut(),
        Some(mut v) => {
            v.push(0);
            Box::leak(v.into_boxed_slice()).as_mut_ptr() as *mut c_char
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn setenv(k: CP, v: CP, o: c_int) -> c_int {
    let m = me_or!(real!("setenv", fn(CP, CP, c_int) -> c_int, k, v, o));
    enter!(m);
    let wd = w();
    wd.effect(m, EK::EnvW, lossy(bytes(k)), true);
    if o != 0 || !wd.env.contains_key(bytes(k)) {
        wd.env.insert(bytes(k).to_vec(), bytes(v).to_vec());
        wd.ev(122, crate::tape::hash_str(&lossy(bytes(k))), crate::tape::hash_str(&lossy(bytes(v))), || format!("[{}] setenv({:?}, {:?})", m, lossy(bytes(k)), short(&lossy(bytes(v)), 60)));
        let s = wd.seq;
        wd.env_log.push((s, bytes(k).to_vec(), Some(bytes(v).to_vec())));
        wd.set_env_block();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(k: CP) -> c_int {
    let m = me_or!(real!("unsetenv", fn(CP) -> c_int, k));
    enter!(m);
    let wd = w();
    wd.effect(m, EK::EnvW, lossy(bytes(k)), true);
    wd.env.remove(bytes(k));
    wd.ev(123, crate::tape::hash_str(&lossy(bytes(k))), 0, || format!("[{}] unsetenv({:?})", m, lossy(bytes(k))));
    let s = wd.seq;
    wd.env_log.push((s, bytes(k).to_vec(), None));
    wd.set_env_block();
    0
}

// ------------------------------------------------------------------ entropy, time, ids
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    let m = me();
    if m < 0 {
        if WORLD.is_null() {
            return real!("getrandom", fn(*mut c_void, size_t, c_uint) -> ssize_t, b, n, f);
        }
        // for the harness: always the same
        static AT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        for i in 0..n {
            *(b as *mut u8).add(i) = (crate::tape::mix(AT.fetch_add(1, std::sync::atomic::Ordering::SeqCst), 5) >> 9) as u8;
        }
        return n as ssize_t;
    }
    let _o = off();
    sys_getrandom(m as usize, b, n)
}
unsafe fn sys_getrandom(m: usize, b: *mut c_void, mut n: usize) -> isize {
    let wd = w();
    if n == 0 || b.is_null() {
        return 0;
    }
    if n > 1 && wd.fault(m, F::EintrRandom) {
        if wd.f.chance(1, 2) {
            return fail(EINTR) as isize;
        }
        n = 1 + wd.f.below(n - 1);
    }
    rand_fill(std::slice::from_raw_parts_mut(b as *mut u8, n));
    wd.ev(121, n as u64, 0, || format!("[{}] getrandom({})", m, n));
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    let m = me_or!(real!("clock_gettime", fn(clockid_t, *mut timespec) -> c_int, c, t));
    let n = w().now + if c == CLOCK_REALTIME { 1_600_000_000_000_000_000 } else { 0 };
    (*t).tv_sec = (n / 1_000_000_000) as i64;
    (*t).tv_nsec = (n % 1_000_000_000) as i64;
    // between two readings any time may pass
    let _off = off();
    let m = m as usize;
    let wd = w();
    wd.now += 1000;
    if wd.fault(m, F::Clock) {
        wd.now += [1_000_000, 50_000_000, 2_000_000_000, 3_600_000_000_000][wd.f.below(4)];
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, r: *mut timespec) -> c_int {
    let m = me_or!(real!("nanosleep", fn(*const timespec, *mut timespec) -> c_int, t, r));
    enter!(m);
    let dl = w().now + (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
    w().block(m, Wait::Never, Some(dl));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, t: *const timespec, r: *mut timespec) -> c_int {
    let m = me_or!(real!("clock_nanosleep", fn(clockid_t, c_int, *const timespec, *mut timespec) -> c_int, c, fl, t, r));
    enter!(m);
    let v = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
    let dl = if fl & TIMER_ABSTIME != 0 { v } else { w().now + v };
    if dl > w().now {
        w().block(m, Wait::Never, Some(dl));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let m = me_or!(real!("sched_yield", fn() -> c_int,));
    enter!(m);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    me_or!(real!("getpid", fn() -> pid_t,));
    4242
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> pid_t {
    me_or!(real!("getppid", fn() -> pid_t,));
    1
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(p: pid_t, n: size_t, s: *mut cpu_set_t) -> c_int {
    me_or!(real!("sched_getaffinity", fn(pid_t, size_t, *mut cpu_set_t) -> c_int, p, n, s));
    std::ptr::write_bytes(s as *mut u8, 0, n);
    *(s as *mut u8) = 0xf;
    0
}

// ------------------------------------------------------------------ processes
// file actions and attributes are kept in a side table keyed by the caller's buffer
static mut ACTIONS: Vec<(usize, Vec<(i32, i32)>, Option<Vec<u8>>)> = vec![];
#[allow(static_mut_refs)]
unsafe fn acts(p: usize) -> &'static mut (usize, Vec<(i32, i32)>, Option<Vec<u8>>) {
    let i = match ACTIONS.iter().position(|a| a.0 == p) {
        Some(i) => i,
        None => {
            ACTIONS.push((p, vec![], None));
            ACTIONS.len() - 1
        }
    };
    &mut ACTIONS[i]
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(p: *mut c_void) -> c_int {
    me_or!(real!("posix_spawn_file_actions_init", fn(*mut c_void) -> c_int, p));
    let _o = off();
    let a = acts(p as usize);
    a.1.clear();
    a.2 = None;
    0
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(p: *mut c_void) -> c_int {
    me_or!(real!("posix_spawn_file_actions_destroy", fn(*mut c_void) -> c_int, p));
    let _o = off();
    ACTIONS.retain(|a| a.0 != p as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(p: *mut c_void, a: c_int, b: c_int) -> c_int {
    me_or!(real!("posix_spawn_file_actions_adddup2", fn(*mut c_void, c_int, c_int) -> c_int, p, a, b));
    let _o = off();
    acts(p as usize).1.push((a, b));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(p: *mut c_void, d: CP) -> c_int {
    me_or!(real!("posix_spawn_file_actions_addchdir_np", fn(*mut c_void, CP) -> c_int, p, d));
    let _o = off();
    acts(p as usize).2 = Some(bytes(d).to_vec());
    0
}
macro_rules! attr_stub {
    ($($n:ident($lit:literal, $($a:ident: $t:ty),*));* $(;)?) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n($($a: $t),*) -> c_int {
            me_or!(real!($lit, fn($($t),*) -> c_int, $($a),*));
            0
        }
    )*};
}
attr_stub! {
    posix_spawnattr_init("posix_spawnattr_init", a: *mut c_void);
    posix_spawnattr_destroy("posix_spawnattr_destroy", a: *mut c_void);
    posix_spawnattr_setflags("posix_spawnattr_setflags", a: *mut c_void, f: c_short);
    posix_spawnattr_setpgroup("posix_spawnattr_setpgroup", a: *mut c_void, f: c_int);
    posix_spawnattr_setsigdefault("posix_spawnattr_setsigdefault", a: *mut c_void, f: *const c_void);
    posix_spawnattr_setsigmask("posix_spawnattr_setsigmask", a: *mut c_void, f: *const c_void);
    posix_spawnattr_setcgroup_np("posix_spawnattr_setcgroup_np", a: *mut c_void, f: c_int);
}
unsafe fn sys_spawn(m: usize, file: CP, fa: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> Result<i32, i32> {
    let wd = w();
    let name = bytes(file).to_vec();
    let mut av = vec![];
    let mut i = 0;
    while !(*argv.add(i)).is_null() {
        av.push(bytes(*argv.add(i)).to_vec());
        i += 1;
    }
    let mut env = vec![];
    let mut i = 0;
    while !envp.is_null() && !(*envp.add(i)).is_null() {
        env.push(bytes(*envp.add(i)).to_vec());
        i += 1;
    }
    let r: Result<i32, i32> = if wd.fault(m, F::Spawn) {
        Err(wd.errno(F::Spawn, &[EAGAIN, ENOMEM, EACCES, E2BIG]))
    } else if name.is_empty() || !wd.programs.contains_key(&name) {
        Err(ENOENT)
    } else {
        let mut fds: std::collections::BTreeMap<i32, usize> = Default::default();
        for (n, f) in &wd.fds {
            if !f.cloexec {
                fds.insert(*n, f.ofd);
            }
        }
        let mut bad = false;
        let mut cwd = wd.fs.path_of(wd.fs.cwd);
        if !fa.is_null() {
            let a = acts(fa as usize);
            for (x, y) in &a.1 {
                match wd.fds.get(x).map(|f| f.ofd).or(fds.get(x).copied()) {
                    Some(o) => {
                        fds.insert(*y, o);
                    }
                    None => bad = true,
                }
            }
            if let Some(d) = &a.2 {
                let wk = wd.fs.walk(wd.fs.cwd, d, true);
                match wk.ino {
                    Some(i) if wd.fs.is_dir(i) => cwd = wd.fs.path_of(i),
                    _ => bad = true,
                }
            }
        }
        if bad {
            Err(EBADF)
        } else {
            for o in fds.values() {
                wd.ofds[*o].rc += 1;
            }
            wd.next_pid += 1;
            let pid = wd.next_pid;
            let script = wd.programs[&name].script.clone().into();
            let client = wd.client_of(m);
            let op = if client >= 0 { wd.op_id[client as usize] } else { 0 };
            wd.procs.push(Proc { pid, fds, argv: av.clone(), script, got: vec![], out_pos: 0, saw_eof: false, status: None, reaped: false, client, op, buf: vec![], cwd, env, out_written: 0 });
            let pi = wd.procs.len() - 1;
            wd.add_ent(Kind2::Proc(pi), client, false, format!("child {}", pid));
            Ok(pid)
        }
    };
    let d = av.iter().map(|a| lossy(a)).collect::<Vec<_>>().join("\u{1f}");
    wd.ev(130, crate::tape::hash_str(&d), r.is_ok() as u64, || format!("[{}] spawn({:?}, {:?}) = {:?}", m, lossy(&name), av.iter().map(|a| short(&lossy(a), 40)).collect::<Vec<_>>(), r));
    wd.effect(m, EK::Spawn, format!("{}\u{1e}{}", lossy(&name), d), r.is_ok());
    r
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut pid_t, file: CP, fa: *const c_void, at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    let m = me_or!(real!("posix_spawnp", fn(*mut pid_t, CP, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int, pid, file, fa, at, argv, envp));
    enter!(m);
    match sys_spawn(m, file, fa, argv, envp) {
        Ok(p) => {
            *pid = p;
            0
        }
        Err(x) => x,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut pid_t, file: CP, fa: *const c_void, at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    posix_spawnp(pid, file, fa, at, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn pidfd_spawnp(pid: *mut pid_t, file: CP, fa: *const c_void, at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    me_or!(realp!("pidfd_spawnp", fn(*mut pid_t, CP, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int, pid, file, fa, at, argv, envp));
    ENOSYS
}
#[no_mangle]
pub unsafe extern "C" fn pidfd_getpid(fd: c_int) -> c_int {
    me_or!(realp!("pidfd_getpid", fn(c_int) -> c_int, fd));
    fail(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    let m = me_or!(real!("fork", fn() -> pid_t,));
    enter!(m);
    w().effect(m, EK::Spawn, "fork".into(), false);
    fail(EAGAIN)
}
unsafe fn sys_wait(m: usize, pid: i32, st: *mut c_int, opts: c_int) -> i32 {
    let wd = w();
    if wd.fault(m, F::EintrWait) {
        return fail(EINTR);
    }
    let known = wd.procs.iter().any(|p| (p.pid == pid || pid == -1) && (!p.reaped || p.status.is_none()));
    if !known {
        if wd.sigchld_ignored && wd.procs.iter().any(|p| p.pid == pid) {
            // the kernel collected it already
            wd.probe("waitpid_echild");
            let c = wd.client_of(m);
            if c >= 0 {
                wd.op_hard[c as usize] += 1;
            }
        }
        wd.ev(131, pid as u64, 0, || format!("[{}] waitpid({}) = ECHILD", m, pid));
        return fail(ECHILD);
    }
    if opts & WNOHANG == 0 {
        wd.block(m, Wait::Child(pid), None);
    }
    for i in 0..wd.procs.len() {
        let p = &mut wd.procs[i];
        if (p.pid == pid || pid == -1) && p.status.is_some() {
            if p.reaped {
                // SIGCHLD is ignored by the host: the kernel collected it
                wd.probe("waitpid_echild");
                let c = wd.client_of(m);
                if c >= 0 {
                    wd.op_hard[c as usize] += 1;
                }
                return fail(ECHILD);
            }
            let bad = wd.fault(m, F::Wait);
            let p = &mut wd.procs[i];
            p.reaped = true;
            if bad {
                return fail(ECHILD);
            }
            let (pp, ss) = (p.pid, p.status.unwrap());
            if !st.is_null() {
                *st = ss;
            }
            wd.ev(132, pp as u64, ss as u64, || format!("[{}] waitpid({}) collects {} status {:#x}", m, pid, pp, ss));
            return pp;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, st: *mut c_int, opts: c_int) -> pid_t {
    let m = me_or!(real!("waitpid", fn(pid_t, *mut c_int, c_int) -> pid_t, pid, st, opts));
    enter!(m);
    sys_wait(m, pid, st, opts)
}
#[no_mangle]
pub unsafe extern "C" fn wait4(pid: pid_t, st: *mut c_int, opts: c_int, ru: *mut c_void) -> pid_t {
    let m = me_or!(real!("wait4", fn(pid_t, *mut c_int, c_int, *mut c_void) -> pid_t, pid, st, opts, ru));
    enter!(m);
    sys_wait(m, pid, st, opts)
}
#[no_mangle]
pub unsafe extern "C" fn waitid(ty: c_uint, id: c_uint, info: *mut siginfo_t, opts: c_int) -> c_int {
    me_or!(real!("waitid", fn(c_uint, c_uint, *mut siginfo_t, c_int) -> c_int, ty, id, info, opts));
    fail(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    let m = me_or!(real!("kill", fn(pid_t, c_int) -> c_int, pid, sig));
    enter!(m);
    let wd = w();
    let mine = wd.procs.iter().any(|p| p.pid == pid && p.client == wd.client_of(m));
    wd.effect(m, EK::Kill, format!("{}", if mine { "own child" } else { "other process" }), mine);
    if wd.kill_proc(pid, sig) {
        0
    } else {
        fail(ESRCH)
    }
}

// ------------------------------------------------------------------ threads and locks
struct Tramp {
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    ent: usize,
    baton: usize,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    thread_park(t.baton);
    set_me(t.ent as i32);
    let r = (t.start)(t.arg);
    set_me(-1);
    w().finish(t.ent);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, start: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    type Fnt = extern "C" fn(*mut c_void) -> *mut c_void;
    let m = me_or!(real!("pthread_create", fn(*mut pthread_t, *const pthread_attr_t, Fnt, *mut c_void) -> c_int, t, attr, start, arg));
    enter!(m);
    let wd = w();
    if wd.fault(m, F::Thread) {
        return EAGAIN;
    }
    let client = wd.client_of(m);
    let n = wd.ents.len();
    let e = wd.add_ent(Kind2::Thread(Box::new(AtomicU32::new(0))), client, true, format!("helper thread {}", n));
    let baton = match &wd.ents[e].kind {
        Kind2::Thread(b) => &**b as *const AtomicU32 as usize,
        _ => unreachable!(),
    };
    let b = Box::into_raw(Box::new(Tramp { start, arg, ent: e, baton }));
    let r = real!("pthread_create", fn(*mut pthread_t, *const pthread_attr_t, Fnt, *mut c_void) -> c_int, t, attr, tramp, b as *mut c_void);
    if r != 0 {
        (wd.fatal.unwrap())("harness", format!("pthread_create failed for real: {}", r));
    }
    wd.ents[e].pt = *t as u64;
    wd.probe("helper_thread");
    wd.ev(140, e as u64, 0, || format!("[{}] creates thread {}", m, e));
    0
}
fn ent_of(t: pthread_t) -> Option<usize> {
    w().ents.iter().rposition(|e| e.pt == t as u64)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    let m = me_or!(real!("pthread_join", fn(pthread_t, *mut *mut c_void) -> c_int, t, r));
    enter!(m);
    if let Some(e) = ent_of(t) {
        w().block(m, Wait::Join(e), None);
    }
    real!("pthread_join", fn(pthread_t, *mut *mut c_void) -> c_int, t, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    let m = me_or!(real!("pthread_detach", fn(pthread_t) -> c_int, t));
    enter!(m);
    if let Some(e) = ent_of(t) {
        w().ents[e].detached = true;
    }
    real!("pthread_detach", fn(pthread_t) -> c_int, t)
}
unsafe fn sys_futex(m: usize, addr: usize, op: i32, val: u32, a4: usize) -> i64 {
    let wd = w();
    let cmd = op & 0x7f;
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            let cur = (*(addr as *const AtomicU32)).load(SeqCst);
            if cur != val {
                return fail(EAGAIN) as i64;
            }
            let dl = if a4 == 0 {
                None
            } else {
                let t = &*(a4 as *const timespec);
                let v = (t.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(t.tv_nsec as u64);
                Some(if cmd == FUTEX_WAIT { wd.now + v } else { v })
            };
            wd.ev(141, 0, 0, || format!("[{}] waits for a lock or condition", m));
            if !wd.block(m, Wait::Futex(addr), dl) {
                return fail(ETIMEDOUT) as i64;
            }
            0
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let mut n = 0;
            loop {
                if n >= val as i64 {
                    break;
                }
                let ws: Vec<usize> = (0..wd.ents.len()).filter(|i| !wd.ents[*i].woken && matches!(wd.ents[*i].st, St::Blocked(Wait::Futex(a)) if a == addr)).collect();
                if ws.is_empty() {
                    break;
                }
                let k = wd.s.below(ws.len());
                wd.ents[ws[k]].woken = true;
                n += 1;
            }
            wd.ev(142, n as u64, 0, || format!("[{}] wakes {}", m, n));
            n
        }
        _ => fail(ENOSYS) as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let m = me();
    if m < 0 {
        let r = raw(n, [a, b, c, d, e, f]);
        if r < 0 && r > -4096 {
            set_errno(-r as i32);
            return -1;
        }
        return r as c_long;
    }
    if n == SYS_getrandom {
        let _o = off();
        return sys_getrandom(m as usize, a as *mut c_void, b) as c_long;
    }
    if n == SYS_gettid {
        return 7000 + m as c_long;
    }
    if n == SYS_getpid {
        return 4242;
    }
    if n == SYS_statx {
        return statx(a as c_int, b as CP, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
    }
    let mm = m;
    enter!(mm);
    let m = m as usize;
    match n {
        SYS_futex => sys_futex(m, a, b as i32, c as u32, d),
        _ => {
            w().ev(150, n as u64, 0, || format!("[{}] unknown system call {}", m, n));
            fail(ENOSYS) as c_long
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    let m = me_or!(raw(SYS_gettid, [0; 6]) as c_int);
    7000 + m
}
#[no_mangle]
pub unsafe extern "C" fn exit(c: c_int) -> ! {
    let m = me();
    if m >= 0 {
        let _o = off();
        (w().fatal.unwrap())("exit", format!("the library called exit({})", c));
    }
    raw(SYS_exit_group, [c as usize, 0, 0, 0, 0, 0]);
    loop {}
}

#[no_mangle]
pub unsafe extern "C" fn socket(a: c_int, b: c_int, c: c_int) -> c_int {
    let m = me_or!(real!("socket", fn(c_int, c_int, c_int) -> c_int, a, b, c));
    enter!(m);
    w().effect(m, EK::Other, "socket".into(), false);
    fail(EACCES)
}
#[no_mangle]
pub unsafe extern "C" fn execvp(f: CP, a: *const CP) -> c_int {
    let m = me_or!(real!("execvp", fn(CP, *const CP) -> c_int, f, a));
    enter!(m);
    w().effect(m, EK::Spawn, "exec".into(), false);
    fail(EACCES)
}

pub fn is_client() -> bool {
    me() >= 0
}
/// The code under test aborts: report it with what it printed last, instead of dying silently.
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    let m = me();
    if m >= 0 && !w().dead {
        set_me(-1);
        let e = &w().console[2];
        let t = String::from_utf8_lossy(&e[e.len().saturating_sub(400)..]).to_string();
        (w().fatal.unwrap())("abort", format!("the library aborted the process; its last error output: {:?}", t));
    }
    raw(SYS_kill, [raw(SYS_getpid, [0; 6]) as usize, 6, 0, 0, 0, 0]);
    exit_now(134)
}
