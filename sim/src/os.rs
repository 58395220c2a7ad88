//! Seams at the operating-system boundary: libc symbols this binary defines itself, so that the
//! standard library's calls (in this process only) arrive here.
use crate::ctx::{self, C};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::ptr::addr_of_mut;
use std::sync::atomic::AtomicU32;

pub unsafe fn sys6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = (-r) as c_int };
        -1
    } else {
        r
    }
}
pub unsafe fn raw_futex_wait(w: &AtomicU32, v: u32) {
    sys6(libc::SYS_futex, w as *const _ as c_long, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, v as c_long, 0, 0, 0);
}
pub unsafe fn raw_futex_wake(w: &AtomicU32) {
    sys6(libc::SYS_futex, w as *const _ as c_long, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long, 1, 0, 0, 0);
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && crate::sched::blocked() {
            return 0;
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- hash seeds

/// Seed of the bytes handed out as "system randomness".
pub static mut ENTROPY: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, _flags: u32) -> isize {
    let mut x = *addr_of_mut!(ENTROPY);
    for i in 0..n {
        *(buf as *mut u8).add(i) = ctx::splitmix(&mut x) as u8;
    }
    *addr_of_mut!(ENTROPY) = x;
    n as isize
}

// ---------------------------------------------------------------- files

pub struct VFile {
    pub path: Vec<u8>,
    pub stream: crate::stream::SimStream,
    /// Open of this path fails with this errno (after `open_eintr` interruptions).
    pub open_errno: Option<c_int>,
    pub open_eintr: u32,
    /// Open descriptors, and what each open of the file reads from (duplicated descriptors share it).
    pub fds: Vec<(c_int, usize)>,
    pub streams: Vec<crate::stream::SimStream>,
    pub opens: u32,
    pub closes: u32,
    /// The path is a symbolic link to this one.
    pub link: Option<Vec<u8>>,
}
/// The one way to write a path of the simulated disk: absolute, without empty, `.` and `..` parts. None if the path is elsewhere.
pub fn norm(path: &[u8]) -> Option<Vec<u8>> {
    let mut parts: Vec<&[u8]> = if path.starts_with(b"/") { vec![] } else { vec![b"simdisk", b"@cwd"] };
    for p in path.split(|&c| c == b'/') {
        if p == b".." { parts.pop(); } else if !p.is_empty() && p != b"." { parts.push(p); }
    }
    if parts.first() != Some(&&b"simdisk"[..]) || (!path.starts_with(b"/") && !path.starts_with(b"simdisk")) { return None; }
    let mut r = Vec::new();
    for p in parts { r.push(b'/'); r.extend_from_slice(p); }
    Some(r)
}
/// The file of this (normal) path, and whether the path is a link to it.
fn by_path<'a>(files: &'a mut Vec<VFile>, path: &[u8]) -> Option<(&'a mut VFile, bool)> {
    let i = files.iter().position(|f| norm(&f.path).as_deref() == Some(path) || f.link.as_deref() == Some(path))?;
    let f = &mut files[i];
    let is_link = f.link.is_some() && f.link.as_deref() != Some(path);
    Some((f, is_link))
}
fn by_fd(fd: c_int) -> Option<(&'static mut VFile, usize)> {
    if fd < 0 { return None; }
    for f in vfs()?.iter_mut() {
        if let Some(&(_, k)) = f.fds.iter().find(|x| x.0 == fd) { return Some((f, k)); }
    }
    None
}
pub static mut VFS: Option<Vec<VFile>> = None;
pub fn vfs() -> Option<&'static mut Vec<VFile>> {
    unsafe { (*addr_of_mut!(VFS)).as_mut() }
}
pub static mut UNKNOWN_OPENS: Vec<String> = Vec::new();

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(files) = vfs() {
        let _g = ctx::harness();
        let given = CStr::from_ptr(p).to_bytes();
        if let Some(path) = norm(given) {
            if let Some((f, _)) = by_path(files, &path) {
                if f.open_eintr > 0 {
                    f.open_eintr -= 1;
                    ctx::cnt(C::f_sys_eintr);
                    ctx::fev("open-eintr", 0, 0);
                    *libc::__errno_location() = libc::EINTR;
                    return -1;
                }
                if let Some(e) = f.open_errno {
                    ctx::cnt(C::f_open_fail);
                    ctx::fev("open-fails", e as u64, 0);
                    *libc::__errno_location() = e;
                    return -1;
                }
                if flags & libc::O_ACCMODE != libc::O_RDONLY {
                    ctx::violate("open-mode", "file opened for writing");
                }
                // A real descriptor with the real content, so that everything else about it is ordinary.
                let fd = sys6(libc::SYS_memfd_create, b"simdisk\0".as_ptr() as c_long, 1, 0, 0, 0, 0) as c_int;
                let d = &f.stream.data;
                sys6(libc::SYS_write, fd as c_long, d.as_ptr() as c_long, d.len() as c_long, 0, 0, 0);
                sys6(libc::SYS_lseek, fd as c_long, 0, 0, 0, 0, 0);
                f.streams.push(f.stream.clone());
                f.fds.push((fd, f.streams.len() - 1));
                f.opens += 1;
                ctx::ev("open", f.opens as u64, 0);
                return fd;
            }
            (*addr_of_mut!(UNKNOWN_OPENS)).push(String::from_utf8_lossy(given).into_owned());
            ctx::ev("open-enoent", 0, 0);
            *libc::__errno_location() = libc::ENOENT;
            return -1;
        }
    }
    ret(sys6(libc::SYS_openat, -100, p as c_long, flags as c_long, mode as c_long, 0, 0)) as c_int
}
fn errno_of(e: &std::io::Error) -> c_int {
    e.raw_os_error().unwrap_or(libc::EIO)
}

fn vread(s: &mut crate::stream::SimStream, b: &mut [u8]) -> isize {
    let _g = ctx::harness();
    match std::io::Read::read(s, b) {
        Ok(k) => {
            if k < b.len() { ctx::cnt(C::f_sys_short); }
            k as isize
        }
        Err(e) => {
            let no = if e.kind() == std::io::ErrorKind::Interrupted { ctx::cnt(C::f_sys_eintr); libc::EINTR } else { ctx::cnt(C::f_sys_eio); errno_of(&e) };
            fail(no) as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if let Some((f, k)) = by_fd(fd) {
        // One read into the first place there is: a short read is always allowed.
        for v in std::slice::from_raw_parts(iov, n.max(0) as usize) {
            if v.iov_len > 0 { return vread(&mut f.streams[k], std::slice::from_raw_parts_mut(v.iov_base as *mut u8, v.iov_len)); }
        }
        return 0;
    }
    ret(sys6(libc::SYS_readv, fd as c_long, iov as c_long, n as c_long, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if let Some((f, k)) = by_fd(fd) {
        let s = &mut f.streams[k];
        let pos = std::mem::replace(&mut s.pos, off.max(0) as usize);
        let r = vread(s, std::slice::from_raw_parts_mut(buf as *mut u8, n));
        s.pos = pos;
        return r;
    }
    ret(sys6(libc::SYS_pread64, fd as c_long, buf as c_long, n as c_long, off as c_long, 0, 0)) as isize
}
/// Duplicating a descriptor goes through here.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let r = ret(sys6(libc::SYS_fcntl, fd as c_long, cmd as c_long, arg, 0, 0, 0)) as c_int;
    if r >= 0 && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) {
        if let Some((f, k)) = by_fd(fd) {
            let _g = ctx::harness();
            f.fds.push((r, k));
            f.opens += 1;
            ctx::ev("dup", f.opens as u64, 0);
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if let Some((f, k)) = by_fd(fd) { return vread(&mut f.streams[k], std::slice::from_raw_parts_mut(buf as *mut u8, n)); }
    ret(sys6(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some((f, _)) = by_fd(fd) {
        let _g = ctx::harness();
        f.fds.retain(|x| x.0 != fd);
        f.closes += 1;
        ctx::ev("close", f.closes as u64, 0);
    }
    ret(sys6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- asking about paths

/// What the simulated disk says about a path: None if the path is not on it.
unsafe fn lookup(p: *const c_char, follow: bool) -> Option<Result<(u32, u64), c_int>> {
    let files = vfs()?;
    let _g = ctx::harness();
    let mut dir = norm(CStr::from_ptr(p).to_bytes())?;
    ctx::ev("stat", 0, 0);
    if let Some((f, is_link)) = by_path(files, &dir) {
        return Some(match f.open_errno {
            _ if is_link && !follow => Ok((libc::S_IFLNK | 0o777, f.link.as_ref().unwrap().len() as u64)),
            Some(e) if e == libc::ENOENT || e == libc::ELOOP || e == libc::EIO || e == libc::ENOMEM => Err(e),
            _ => Ok((libc::S_IFREG | 0o644, f.stream.data.len() as u64)),
        });
    }
    dir.push(b'/');
    Some(if files.iter().any(|f| norm(&f.path).map_or(false, |x| x.starts_with(&dir))) { Ok((libc::S_IFDIR | 0o755, 4096)) } else { Err(libc::ENOENT) })
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: usize) -> isize {
    if let Some(files) = vfs() {
        let _g = ctx::harness();
        if let Some(path) = norm(CStr::from_ptr(p).to_bytes()) {
            ctx::ev("readlink", 0, 0);
            return match by_path(files, &path) {
                Some((f, true)) => {
                    let t = f.link.as_ref().unwrap();
                    let k = t.len().min(n);
                    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                    k as isize
                }
                Some(_) => fail(libc::EINVAL) as isize,
                None => fail(libc::ENOENT) as isize,
            };
        }
    }
    ret(sys6(libc::SYS_readlink, p as c_long, buf as c_long, n as c_long, 0, 0, 0)) as isize
}
/// Only the simulated disk has real paths here: nothing else in this process asks for one.
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let r = match lookup(p, true) {
        None => Err(libc::ENOENT),
        Some(Err(e)) => Err(e),
        Some(Ok(_)) => {
            let _g = ctx::harness();
            let path = norm(CStr::from_ptr(p).to_bytes()).unwrap();
            Ok(match by_path(vfs().unwrap(), &path) { Some((f, true)) => f.link.clone().unwrap(), _ => path })
        }
    };
    match r {
        Err(e) => { fail(e); std::ptr::null_mut() }
        Ok(path) => {
            let out = if out.is_null() { libc::malloc(path.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(path.as_ptr(), out as *mut u8, path.len());
            *out.add(path.len()) = 0;
            out
        }
    }
}
fn fail(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
unsafe fn fill_stat(r: Result<(u32, u64), c_int>, st: *mut libc::stat64) -> c_int {
    match r {
        Err(e) => fail(e),
        Ok((mode, size)) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_mode = mode;
            (*st).st_size = size as i64;
            (*st).st_nlink = 1;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if !p.is_null() && *p != 0 {
        match lookup(p, flags & libc::AT_SYMLINK_NOFOLLOW == 0) {
            Some(Err(e)) => return fail(e),
            Some(Ok((mode, size))) => {
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_mask = 0x7ff;
                (*out).stx_mode = mode as u16;
                (*out).stx_size = size;
                (*out).stx_nlink = 1;
                return 0;
            }
            None => {}
        }
    }
    ret(sys6(libc::SYS_statx, dir as c_long, p as c_long, flags as c_long, mask as c_long, out as c_long, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(r) = lookup(p, true) { return fill_stat(r, st); }
    ret(sys6(libc::SYS_newfstatat, -100, p as c_long, st as c_long, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(r) = lookup(p, false) { return fill_stat(r, st); }
    ret(sys6(libc::SYS_newfstatat, -100, p as c_long, st as c_long, 0x100, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if let Some(r) = lookup(p, true) { return match r { Ok(_) => 0, Err(e) => fail(e) }; }
    ret(sys6(libc::SYS_access, p as c_long, mode as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dir: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if let Some(r) = lookup(p, true) { return match r { Ok(_) => 0, Err(e) => fail(e) }; }
    let _ = flags;
    ret(sys6(libc::SYS_faccessat, dir as c_long, p as c_long, mode as c_long, 0, 0, 0)) as c_int
}
/// Repositioning a simulated file.
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if let Some((f, k)) = by_fd(fd) {
        let _g = ctx::harness();
        let s = &mut f.streams[k];
        let base = match whence { libc::SEEK_SET => 0, libc::SEEK_CUR => s.pos as i64, libc::SEEK_END => s.data.len() as i64, _ => return fail(libc::EINVAL) as i64 };
        if base + off < 0 { return fail(libc::EINVAL) as i64; }
        s.pos = (base + off) as usize;
        ctx::ev("seek", s.pos as u64, 0);
        return base + off;
    }
    ret(sys6(libc::SYS_lseek, fd as c_long, off as c_long, whence as c_long, 0, 0, 0)) as i64
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if crate::sched::blocked() { return 0; }
    ret(sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
