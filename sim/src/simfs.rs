//! An in-memory disk behind the libc file calls, for paths under `/simfs/`.
//! Faults come from a plan drawn by the scenario; every call is a scheduling
//! point.

use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

use libc::{c_char, c_int, c_long, c_void, iovec, mode_t, off64_t, size_t, ssize_t};

use crate::runner::fault;
use crate::simrt::{self, quiet, real_syscall};

pub const ROOT: &str = "/simfs/";
const FD0: c_int = 1 << 20;

/// What goes wrong, and when. `0` / `None` = never.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Opening the n-th file fails with this error.
    pub open_err: Option<(u32, c_int)>,
    /// Bytes the disk still takes.
    pub budget: Option<usize>,
    /// The n-th write fails.
    pub write_err: Option<(u32, c_int)>,
    /// A write fails once a file has been given this many bytes.
    pub write_err_at: Option<(usize, c_int)>,
    /// A read fails once this many bytes of a file have been read.
    pub read_err_at: Option<(usize, c_int)>,
    /// The n-th sync fails.
    pub sync_err: Option<(u32, c_int)>,
    /// The n-th rename fails.
    pub rename_err: Option<(u32, c_int)>,
    /// One in n reads and writes is short / interrupted.
    pub short: u32,
    pub eintr: u32,
    /// Only paths containing this are affected by the fatal faults.
    pub only: Option<String>,
    /// The process dies at its n-th call.
    pub crash_at: Option<u64>,
    /// Printing fails once this many bytes have been printed.
    pub stdout_err_at: Option<(usize, c_int)>,
}

struct Open {
    path: String,
    ino: usize,
    pos: usize,
    append: bool,
    can_write: bool,
    can_read: bool,
    read: usize,
    written: usize,
}

#[derive(Default)]
pub struct Disk {
    names: BTreeMap<String, usize>,
    inodes: Vec<Vec<u8>>,
    open: BTreeMap<c_int, Open>,
    next: c_int,
    pub plan: Plan,
    opens: u32,
    writes: u32,
    syncs: u32,
    renames: u32,
    /// Fatal faults that fired: (kind, path).
    pub fired: Vec<(&'static str, String)>,
    /// Calls made, for the history.
    pub calls: u64,
    pub dirs: Vec<String>,
    /// What was printed.
    pub printed: [Vec<u8>; 2],
    pub on_crash: Option<fn() -> !>,
}

struct G(std::cell::UnsafeCell<Option<Disk>>);
unsafe impl Sync for G {}
static DISK: G = G(std::cell::UnsafeCell::new(None));
static ON: AtomicBool = AtomicBool::new(false);
/// The disk's root is the working directory, and holds the standard streams.
pub static CWD: AtomicBool = AtomicBool::new(false);

#[allow(clippy::mut_from_ref)]
pub fn disk() -> &'static mut Disk {
    unsafe { (*DISK.0.get()).as_mut().unwrap() }
}

/// Starts with an empty disk.
pub fn mount(plan: Plan) {
    quiet(|| unsafe { *DISK.0.get() = Some(Disk { plan, ..Default::default() }) });
    ON.store(true, Relaxed);
}

impl Disk {
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        self.inodes.push(data);
        self.names.insert(path.into(), self.inodes.len() - 1);
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        self.names.get(path).map(|&i| self.inodes[i].clone())
    }
    pub fn remove(&mut self, path: &str) {
        self.names.remove(path);
    }
    pub fn list(&self) -> Vec<String> {
        self.names.keys().cloned().collect()
    }
    /// Forgets open files and arms a new plan.
    pub fn rearm(&mut self, plan: Plan) {
        self.plan = plan;
        self.opens = 0;
        self.writes = 0;
        self.syncs = 0;
        self.renames = 0;
        self.fired.clear();
    }
    fn hit(&self, path: &str) -> bool {
        self.plan.only.as_ref().is_none_or(|o| path.contains(o.as_str()))
    }
    /// Counts a call, perhaps the last one.
    fn call(&mut self) {
        self.calls += 1;
        if self.plan.crash_at == Some(self.calls) {
            if let Some(f) = self.on_crash {
                self.fire("crash", "");
                f()
            }
        }
    }
    fn fire(&mut self, kind: &'static str, path: &str) {
        fault(kind);
        self.fired.push((kind, path.into()));
    }
    fn open(&mut self, path: &str, flags: c_int) -> Result<c_int, c_int> {
        self.call();
        if self.hit(path) {
            self.opens += 1;
            if let Some((n, e)) = self.plan.open_err {
                if self.opens == n {
                    self.fire("open_error", path);
                    return Err(e);
                }
            }
        }
        if CWD.load(Relaxed) {
            if self.is_dir(path) {
                return Err(libc::EISDIR);
            }
            if path[ROOT.len()..].contains('/') && !self.is_dir(path.rsplit_once('/').unwrap().0) {
                return Err(libc::ENOENT);
            }
        }
        let known = self.names.get(path).copied();
        let ino = match known {
            Some(_) if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 => return Err(libc::EEXIST),
            Some(i) => i,
            None if flags & libc::O_CREAT != 0 => {
                if !path[ROOT.len()..].is_empty() && path.ends_with('/') {
                    return Err(libc::EISDIR);
                }
                self.put(path, vec![]);
                self.inodes.len() - 1
            }
            None => return Err(libc::ENOENT),
        };
        let acc = flags & libc::O_ACCMODE;
        if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
            self.inodes[ino].clear();
        }
        let fd = FD0 + self.next;
        self.next += 1;
        self.open.insert(fd, Open {
            path: path.into(),
            ino,
            pos: 0,
            append: flags & libc::O_APPEND != 0,
            can_write: acc != libc::O_RDONLY,
            can_read: acc != libc::O_WRONLY,
            read: 0,
            written: 0,
        });
        Ok(fd)
    }
    fn len_of_io(&mut self, n: usize) -> Result<usize, c_int> {
        if n > 0 && self.plan.eintr > 0 && simrt::fault_one_in(self.plan.eintr) {
            fault("interrupted_io");
            return Err(libc::EINTR);
        }
        if n > 1 && self.plan.short > 0 && simrt::fault_one_in(self.plan.short) {
            fault("short_io");
            return Ok(1 + simrt::fault_draw(n.min(1 << 20) as u32 - 1) as usize);
        }
        Ok(n)
    }
    fn read(&mut self, fd: c_int, n: usize) -> Result<Vec<u8>, c_int> {
        self.call();
        let mut n = self.len_of_io(n)?;
        let Some(o) = self.open.get_mut(&fd) else { return Err(libc::EBADF) };
        if !o.can_read {
            return Err(libc::EBADF);
        }
        let path = o.path.clone();
        if let Some((at, e)) = self.plan.read_err_at {
            let read = self.open[&fd].read;
            if self.hit(&path) {
                if read >= at {
                    self.fire("read_error", &path);
                    return Err(e);
                }
                n = n.min(at - read);
            }
        }
        let o = self.open.get_mut(&fd).unwrap();
        let d = &self.inodes[o.ino];
        let from = o.pos.min(d.len());
        let to = (from + n).min(d.len());
        o.pos = to;
        o.read += to - from;
        Ok(d[from..to].to_vec())
    }
    fn write(&mut self, fd: c_int, b: &[u8]) -> Result<usize, c_int> {
        self.call();
        let mut n = self.len_of_io(b.len())?;
        let Some(o) = self.open.get(&fd) else { return Err(libc::EBADF) };
        if !o.can_write {
            return Err(libc::EBADF);
        }
        let (path, written) = (o.path.clone(), o.written);
        if self.hit(&path) && !b.is_empty() {
            self.writes += 1;
            if let Some((k, e)) = self.plan.write_err {
                if self.writes == k {
                    self.fire("write_error", &path);
                    return Err(e);
                }
            }
            if let Some((at, e)) = self.plan.write_err_at {
                if written >= at {
                    self.fire("write_error", &path);
                    return Err(e);
                }
                n = n.min(at - written);
            }
            if let Some(left) = self.plan.budget {
                if left == 0 {
                    self.fire("disk_full", &path);
                    return Err(libc::ENOSPC);
                }
                n = n.min(left);
                self.plan.budget = Some(left - n);
            }
        }
        let o = self.open.get_mut(&fd).unwrap();
        let d = &mut self.inodes[o.ino];
        if o.append {
            o.pos = d.len();
        }
        if d.len() < o.pos + n {
            d.resize(o.pos + n, 0);
        }
        d[o.pos..o.pos + n].copy_from_slice(&b[..n]);
        o.pos += n;
        o.written += n;
        Ok(n)
    }
    fn is_dir(&self, path: &str) -> bool {
        path == ROOT || path == "/simfs" || self.dirs.iter().any(|d| d == path)
    }
    fn print(&mut self, which: usize, b: &[u8]) -> Result<usize, c_int> {
        self.call();
        let mut n = self.len_of_io(b.len())?;
        if let (0, Some((at, e))) = (which, self.plan.stdout_err_at) {
            let done = self.printed[0].len();
            if done >= at {
                self.fire("stdout_error", "stdout");
                return Err(e);
            }
            n = n.min(at - done);
        }
        self.printed[which].extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn size(&self, fd: c_int) -> Option<usize> {
        self.open.get(&fd).map(|o| self.inodes[o.ino].len())
    }
}

fn ours(fd: c_int) -> bool {
    fd >= FD0 && ON.load(Relaxed)
}
unsafe fn path_of(p: *const c_char) -> Option<String> {
    if p.is_null() || !ON.load(Relaxed) {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b.starts_with(ROOT.as_bytes()) {
        quiet(|| Some(normal(&String::from_utf8_lossy(b))))
    } else if CWD.load(Relaxed) && b.first() != Some(&b'/') && !b.is_empty() {
        quiet(|| Some(normal(&format!("{ROOT}{}", String::from_utf8_lossy(b)))))
    } else {
        None
    }
}
fn normal(p: &str) -> String {
    if !CWD.load(Relaxed) {
        return p.into();
    }
    let parts: Vec<&str> = p[ROOT.len()..].split('/').filter(|x| !x.is_empty() && *x != ".").collect();
    format!("{ROOT}{}", parts.join("/"))
}
fn stream(fd: c_int) -> bool {
    (fd == 1 || fd == 2) && CWD.load(Relaxed) && !simrt::inside()
}
unsafe fn ret<T>(r: Result<T, c_int>, f: impl FnOnce(T) -> ssize_t) -> ssize_t {
    match r {
        Ok(x) => f(x),
        Err(e) => {
            *libc::__errno_location() = e;
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match path_of(p) {
        Some(path) => {
            simrt::yield_point();
            let r = quiet(|| disk().open(&path, flags));
            simrt::event("open", || format!("{path} {flags:#x} {}", r.is_ok()));
            quiet(move || drop(path));
            ret(r, |fd| fd as ssize_t) as c_int
        }
        None => real_syscall(libc::SYS_openat, [libc::AT_FDCWD as c_long, p as c_long, flags as c_long, mode as c_long, 0, 0]) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if ours(fd) {
        simrt::yield_point();
        let r = quiet(|| disk().read(fd, n));
        simrt::event("read", || format!("{}", r.as_ref().map_or(-1, |v| v.len() as i64)));
        quiet(|| ret(r, |v| {
            std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
            v.len() as ssize_t
        }))
    } else {
        real_syscall(libc::SYS_read, [fd as c_long, buf as c_long, n as c_long, 0, 0, 0]) as ssize_t
    }
}
unsafe fn do_write(fd: c_int, b: &[u8]) -> ssize_t {
    simrt::yield_point();
    let r = quiet(|| if fd < FD0 { disk().print(fd as usize - 1, b) } else { disk().write(fd, b) });
    simrt::event("write", || format!("{} {:?}", b.len(), r));
    ret(r, |n| n as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if ours(fd) || stream(fd) {
        do_write(fd, std::slice::from_raw_parts(buf as *const u8, n))
    } else {
        real_syscall(libc::SYS_write, [fd as c_long, buf as c_long, n as c_long, 0, 0, 0]) as ssize_t
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if ours(fd) || stream(fd) {
        let v = std::slice::from_raw_parts(v, n as usize);
        match v.iter().find(|x| x.iov_len > 0) {
            Some(x) => do_write(fd, std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)),
            None => 0,
        }
    } else {
        real_syscall(libc::SYS_writev, [fd as c_long, v as c_long, n as c_long, 0, 0, 0]) as ssize_t
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ours(fd) {
        quiet(|| disk().open.remove(&fd));
        0
    } else {
        real_syscall(libc::SYS_close, [fd as c_long, 0, 0, 0, 0, 0]) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if ours(fd) {
        let r = quiet(|| {
            let d = disk();
            let size = d.size(fd).ok_or(libc::EBADF)? as i64;
            let o = d.open.get_mut(&fd).unwrap();
            let p = match whence {
                libc::SEEK_SET => off,
                libc::SEEK_CUR => o.pos as i64 + off,
                libc::SEEK_END => size + off,
                _ => -1,
            };
            if p < 0 {
                return Err(libc::EINVAL);
            }
            o.pos = p as usize;
            Ok(p)
        });
        ret(r, |p| p as ssize_t) as off64_t
    } else {
        real_syscall(libc::SYS_lseek, [fd as c_long, off as c_long, whence as c_long, 0, 0, 0]) as off64_t
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if ours(fd) {
        let r = quiet(|| {
            let d = disk();
            let o = d.open.get(&fd).ok_or(libc::EBADF)?;
            let i = o.ino;
            d.inodes[i].resize(len as usize, 0);
            Ok(())
        });
        ret(r, |_| 0) as c_int
    } else {
        real_syscall(libc::SYS_ftruncate, [fd as c_long, len as c_long, 0, 0, 0, 0]) as c_int
    }
}
unsafe fn sync(fd: c_int, nr: c_long) -> c_int {
    if ours(fd) {
        let r = quiet(|| {
            let d = disk();
            d.syncs += 1;
            let path = d.open.get(&fd).ok_or(libc::EBADF)?.path.clone();
            if let Some((n, e)) = d.plan.sync_err {
                if d.syncs == n && d.hit(&path) {
                    d.fire("sync_error", &path);
                    return Err(e);
                }
            }
            Ok(())
        });
        ret(r, |_| 0) as c_int
    } else {
        real_syscall(nr, [fd as c_long, 0, 0, 0, 0, 0]) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    let size = if ours(dir) {
        Some(quiet(|| disk().size(dir)).ok_or(libc::EBADF))
    } else {
        path_of(p).map(|path| quiet(move || {
            let d = disk();
            if d.is_dir(&path) {
                return Ok(usize::MAX);
            }
            d.names.get(&path).map(|&i| d.inodes[i].len()).ok_or(libc::ENOENT)
        }))
    };
    match size {
        Some(r) => ret(r, |n| {
            std::ptr::write_bytes(buf, 0, 1);
            (*buf).stx_mask = libc::STATX_BASIC_STATS;
            let dir = n == usize::MAX;
            (*buf).stx_mode = if dir { libc::S_IFDIR as u16 | 0o755 } else { libc::S_IFREG as u16 | 0o644 };
            (*buf).stx_size = if dir { 0 } else { n as u64 };
            (*buf).stx_nlink = 1;
            0
        }) as c_int,
        None => real_syscall(libc::SYS_statx, [dir as c_long, p as c_long, flags as c_long, mask as c_long, buf as c_long, 0]) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (path_of(a), path_of(b)) {
        (Some(x), Some(y)) => {
            simrt::yield_point();
            let r = quiet(|| {
                let d = disk();
                d.call();
                d.renames += 1;
                if let Some((n, e)) = d.plan.rename_err {
                    if d.renames == n {
                        d.fire("rename_error", &x);
                        return Err(e);
                    }
                }
                let i = d.names.remove(&x).ok_or(libc::ENOENT)?;
                d.names.insert(y.clone(), i);
                Ok(())
            });
            quiet(move || drop((x, y)));
            ret(r, |_| 0) as c_int
        }
        _ => real_syscall(libc::SYS_rename, [a as c_long, b as c_long, 0, 0, 0, 0]) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match path_of(p) {
        Some(x) => {
            let r = quiet(move || disk().names.remove(&x).map(|_| ()).ok_or(libc::ENOENT));
            ret(r, |_| 0) as c_int
        }
        None => real_syscall(libc::SYS_unlink, [p as c_long, 0, 0, 0, 0, 0]) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if ours(fd) {
        let r = if quiet(|| disk().open.contains_key(&fd)) { Ok(()) } else { Err(libc::EBADF) };
        ret(r, |_| 0) as c_int
    } else {
        real_syscall(libc::SYS_fcntl, [fd as c_long, cmd as c_long, arg, 0, 0, 0]) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
