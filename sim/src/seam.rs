//! The seams: libc entry points through which the crate under test (and the
//! Rust standard library beneath it) meets files, clocks and randomness.
//! The definitions below take precedence over libc's at link time, so the
//! real `std::fs`, `std::io`, `std::time` and `HashMap` code runs on top of a
//! simulated disk, clock and entropy source whenever a simulation is active.
//!
//! Paths under `/simfs/` live on the simulated disk.  Everything else goes to
//! the kernel unchanged.

use crate::rng::{mix, Digest};
use libc::{c_char, c_int, c_long, c_uint, c_void, off64_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub const ROOT: &str = "/simfs/";
const FD_BASE: c_int = 1 << 24;

// ------------------------------------------------------------------ model

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
#[serde(rename_all = "lowercase")]
pub enum Op {
    Open,
    Read,
    Write,
    Close,
    Stat,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum What {
    /// The call fails with this errno.
    Errno(i32),
    /// At most this many bytes are transferred.
    Short(u64),
    /// A read returns 0 although data is left (file truncated under us).
    Eof,
    /// A write returns 0.
    Zero,
}

/// One injected disk fault: the `nth` operation of kind `op` on a simulated
/// file (counted from 0; all later ones too if `sticky`).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DiskFault {
    pub op: Op,
    pub nth: u64,
    pub what: What,
    #[serde(default)]
    pub sticky: bool,
}

struct Fd {
    path: String,
    pos: u64,
    append: bool,
    readable: bool,
    writable: bool,
}

#[derive(Default)]
pub struct Disk {
    files: BTreeMap<String, Vec<u8>>,
    fds: BTreeMap<c_int, Fd>,
    next: c_int,
    pub faults: Vec<DiskFault>,
    pub capacity: Option<u64>,
    pub max_read: Option<u64>,
    counts: BTreeMap<Op, u64>,
    pub fired: BTreeMap<String, u64>,
    pub digest: Digest,
    pub error_seen: bool,
}

static DISK: Mutex<Option<Disk>> = Mutex::new(None);
static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
static CLOCK_TICK: AtomicU64 = AtomicU64::new(0);
static WALL_OFF: AtomicI64 = AtomicI64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static RAND_ON: AtomicBool = AtomicBool::new(false);
static RAND: AtomicU64 = AtomicU64::new(0);
static RAND_CALLS: AtomicU64 = AtomicU64::new(0);
static MUTE: AtomicBool = AtomicBool::new(false);
static MUTED_BYTES: AtomicU64 = AtomicU64::new(0);
/// What was printed, and how many bytes the console takes at a time.
static CONSOLE: Mutex<Option<(Vec<u8>, u64, u64)>> = Mutex::new(None);

pub fn disk_reset() {
    *DISK.lock().unwrap_or_else(|e| e.into_inner()) = Some(Disk { next: FD_BASE, ..Disk::default() });
}
pub fn disk_off() {
    *DISK.lock().unwrap_or_else(|e| e.into_inner()) = None;
}
pub fn with_disk<R>(f: impl FnOnce(&mut Disk) -> R) -> R {
    let mut g = DISK.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(|| Disk { next: FD_BASE, ..Disk::default() }))
}
impl Disk {
    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.files.insert(path.to_string(), data.to_vec());
    }
    pub fn remove(&mut self, path: &str) {
        self.files.remove(path);
    }
    pub fn get(&self, path: &str) -> Option<&[u8]> {
        self.files.get(path).map(|v| &v[..])
    }
    pub fn names(&self) -> Vec<String> {
        self.files.keys().cloned().collect()
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    pub fn count(&self, op: Op) -> u64 {
        self.counts.get(&op).copied().unwrap_or(0)
    }
    /// Forget operation counters and faults (e.g. after set-up).
    pub fn arm(&mut self, faults: Vec<DiskFault>) {
        self.counts.clear();
        self.faults = faults;
        self.error_seen = false;
    }
    fn used(&self) -> u64 {
        self.files.values().map(|v| v.len() as u64).sum()
    }
    fn fault(&mut self, op: Op) -> Option<What> {
        let n = self.counts.entry(op).or_insert(0);
        let k = *n;
        *n += 1;
        let f = self
            .faults
            .iter()
            .find(|f| f.op == op && (f.nth == k || (f.sticky && f.nth <= k)))
            .copied();
        self.digest.add(op as u64);
        if let Some(f) = f {
            let name = match f.what {
                What::Errno(e) => format!("{:?}-{}", op, errno_name(e)).to_lowercase(),
                What::Short(_) => format!("{:?}-short", op).to_lowercase(),
                What::Eof => "read-eof".into(),
                What::Zero => "write-zero".into(),
            };
            *self.fired.entry(name).or_insert(0) += 1;
            match f.what {
                What::Errno(e) if e == libc::EINTR => {}
                What::Short(_) => {}
                _ => self.error_seen = true,
            }
            self.digest.add(0xFA01);
            return Some(f.what);
        }
        None
    }
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EINTR => "eintr",
        libc::EIO => "eio",
        libc::ENOSPC => "enospc",
        libc::EACCES => "eacces",
        libc::ENOENT => "enoent",
        libc::EMFILE => "emfile",
        libc::EDQUOT => "edquot",
        libc::EROFS => "erofs",
        libc::EAGAIN => "eagain",
        libc::EFBIG => "efbig",
        _ => "errno",
    }
}

// ------------------------------------------------------------------ clock

pub fn clock_start(start_ns: u64, tick_ns: u64) {
    CLOCK_NS.store(start_ns, SeqCst);
    CLOCK_TICK.store(tick_ns, SeqCst);
    WALL_OFF.store(1_700_000_000_000_000_000, SeqCst);
    CLOCK_READS.store(0, SeqCst);
    CLOCK_ON.store(true, SeqCst);
}
pub fn clock_stop() -> u64 {
    CLOCK_ON.store(false, SeqCst);
    CLOCK_NS.load(SeqCst)
}
pub fn clock_now() -> u64 {
    CLOCK_NS.load(SeqCst)
}
pub fn clock_advance(ns: u64) {
    CLOCK_NS.fetch_add(ns, SeqCst);
}
/// The wall clock jumps (forwards or backwards); the monotonic one does not.
pub fn wall_jump(ns: i64) {
    WALL_OFF.fetch_add(ns, SeqCst);
}
pub fn clock_reads() -> u64 {
    CLOCK_READS.load(SeqCst)
}

// ----------------------------------------------------------------- entropy

pub fn entropy_start(seed: u64) {
    RAND.store(mix(seed ^ 0xE17E_0B1E), SeqCst);
    RAND_CALLS.store(0, SeqCst);
    RAND_ON.store(true, SeqCst);
}
pub fn entropy_stop() -> u64 {
    RAND_ON.store(false, SeqCst);
    RAND_CALLS.load(SeqCst)
}

// ------------------------------------------------------------------ stdout

pub fn mute(on: bool) {
    MUTE.store(on && std::env::var_os("DST_LOUD").is_none(), SeqCst);
}
pub fn muted_bytes() -> u64 {
    MUTED_BYTES.load(SeqCst)
}

/// Keep what is printed from now on; the console takes at most `most` bytes
/// at a time (0: all) and is interrupted at every `eintr`-th call (0: never).
pub fn console_start(most: u64, eintr: u64) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    CONSOLE_CALLS.store(0, SeqCst);
    *CONSOLE.lock().unwrap() = Some((vec![], most, eintr));
}
pub fn console_take() -> Vec<u8> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    CONSOLE.lock().unwrap().take().map(|c| c.0).unwrap_or_default()
}
static CONSOLE_CALLS: AtomicU64 = AtomicU64::new(0);
/// Bytes accepted, or an interruption.
fn console(s: &[u8]) -> Result<usize, c_int> {
    let mut c = CONSOLE.lock().unwrap();
    let Some((text, most, eintr)) = c.as_mut() else { return Ok(s.len()) };
    let k = CONSOLE_CALLS.fetch_add(1, SeqCst) + 1;
    if *eintr > 0 && k % *eintr == 0 {
        return Err(libc::EINTR);
    }
    let n = if *most > 0 { s.len().min(*most as usize) } else { s.len() };
    text.extend_from_slice(&s[..n]);
    Ok(n)
}

// ---------------------------------------------------------------- syscalls

#[inline(always)]
unsafe fn sys6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let ret: c_long;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}
unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: c_int) -> c_long {
    *libc::__errno_location() = e;
    -1
}

unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = std::ffi::CStr::from_ptr(p).to_str().ok()?;
    s.starts_with(ROOT).then(|| s.to_string())
}

fn sim_open(path: String, flags: c_int) -> Result<c_int, c_int> {
    with_disk(|d| {
        d.digest.add_str(&path);
        if let Some(What::Errno(e)) = d.fault(Op::Open) {
            return Err(e);
        }
        let acc = flags & libc::O_ACCMODE;
        let writable = acc == libc::O_WRONLY || acc == libc::O_RDWR;
        let readable = acc == libc::O_RDONLY || acc == libc::O_RDWR;
        let exists = d.files.contains_key(&path);
        if !exists {
            if flags & libc::O_CREAT == 0 {
                return Err(libc::ENOENT);
            }
            if d.capacity == Some(0) {
                *d.fired.entry("disk-full".into()).or_insert(0) += 1;
                d.error_seen = true;
                return Err(libc::ENOSPC);
            }
            d.files.insert(path.clone(), Vec::new());
        } else if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
            return Err(libc::EEXIST);
        } else if flags & libc::O_TRUNC != 0 && writable {
            d.files.insert(path.clone(), Vec::new());
        }
        let fd = d.next;
        d.next += 1;
        d.fds.insert(fd, Fd { path, pos: 0, append: flags & libc::O_APPEND != 0, readable, writable });
        Ok(fd)
    })
}

fn sim_read(fd: c_int, want: u64) -> Result<Vec<u8>, c_int> {
    with_disk(|d| {
        let Some(f) = d.fds.get(&fd) else { return Err(libc::EBADF) };
        if !f.readable {
            return Err(libc::EBADF);
        }
        let mut want = want;
        match d.fault(Op::Read) {
            Some(What::Errno(e)) => return Err(e),
            Some(What::Short(n)) => want = want.min(n.max(1)),
            Some(What::Eof) => want = 0,
            _ => {}
        }
        if let Some(m) = d.max_read {
            want = want.min(m.max(1));
        }
        let f = d.fds.get_mut(&fd).unwrap();
        let data = d.files.get(&f.path).map(|v| &v[..]).unwrap_or(&[]);
        let lo = (f.pos as usize).min(data.len());
        let hi = (lo + want as usize).min(data.len());
        f.pos = hi as u64;
        let out = data[lo..hi].to_vec();
        d.digest.add(out.len() as u64);
        Ok(out)
    })
}

fn sim_write(fd: c_int, buf: &[u8]) -> Result<usize, c_int> {
    with_disk(|d| {
        let Some(f) = d.fds.get(&fd) else { return Err(libc::EBADF) };
        if !f.writable {
            return Err(libc::EBADF);
        }
        let mut n = buf.len() as u64;
        match d.fault(Op::Write) {
            Some(What::Errno(e)) => return Err(e),
            Some(What::Short(k)) => n = n.min(k.max(1)),
            Some(What::Zero) => n = 0,
            _ => {}
        }
        if let Some(cap) = d.capacity {
            let free = cap.saturating_sub(d.used());
            if free == 0 && n > 0 {
                *d.fired.entry("disk-full".into()).or_insert(0) += 1;
                d.error_seen = true;
                d.digest.add(0xF011);
                return Err(libc::ENOSPC);
            }
            n = n.min(free);
        }
        let f = d.fds.get_mut(&fd).unwrap();
        let data = d.files.entry(f.path.clone()).or_default();
        if f.append {
            f.pos = data.len() as u64;
        }
        let lo = f.pos as usize;
        let hi = lo + n as usize;
        if data.len() < hi {
            data.resize(hi, 0);
        }
        data[lo..hi].copy_from_slice(&buf[..n as usize]);
        f.pos = hi as u64;
        d.digest.add(n);
        Ok(n as usize)
    })
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(p) = sim_path(path) {
        return match sim_open(p, flags) {
            Ok(fd) => fd,
            Err(e) => fail(e) as c_int,
        };
    }
    ret(sys6(libc::SYS_openat, libc::AT_FDCWD as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd >= FD_BASE {
        return match sim_read(fd, n as u64) {
            Ok(v) => {
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
                v.len() as ssize_t
            }
            Err(e) => fail(e) as ssize_t,
        };
    }
    ret(sys6(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd >= FD_BASE {
        let s = std::slice::from_raw_parts(buf as *const u8, n);
        return match sim_write(fd, s) {
            Ok(k) => k as ssize_t,
            Err(e) => fail(e) as ssize_t,
        };
    }
    if (fd == 1 || fd == 2) && MUTE.load(SeqCst) {
        MUTED_BYTES.fetch_add(n as u64, SeqCst);
        if fd == 1 {
            return match console(std::slice::from_raw_parts(buf as *const u8, n)) {
                Ok(k) => k as ssize_t,
                Err(e) => fail(e) as ssize_t,
            };
        }
        return n as ssize_t;
    }
    ret(sys6(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fd >= FD_BASE {
        // one vector at a time: a legal short write
        for i in 0..cnt {
            let v = &*iov.add(i as usize);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    if (fd == 1 || fd == 2) && MUTE.load(SeqCst) {
        let mut t = 0;
        for i in 0..cnt {
            let v = &*iov.add(i as usize);
            if fd == 1 && v.iov_len > 0 {
                match console(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)) {
                    Ok(k) if k == v.iov_len => {}
                    Ok(k) => return (t + k) as ssize_t,
                    Err(_) if t > 0 => return t as ssize_t,
                    Err(e) => return fail(e) as ssize_t,
                }
            }
            t += v.iov_len;
        }
        MUTED_BYTES.fetch_add(t as u64, SeqCst);
        return t as ssize_t;
    }
    ret(sys6(libc::SYS_writev, fd as c_long, iov as c_long, cnt as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return with_disk(|d| {
            let f = d.fault(Op::Close);
            d.fds.remove(&fd);
            match f {
                Some(What::Errno(e)) => fail(e) as c_int,
                _ => 0,
            }
        });
    }
    ret(sys6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if fd >= FD_BASE {
        return with_disk(|d| {
            let Some(f) = d.fds.get_mut(&fd) else { return fail(libc::EBADF) as off64_t };
            let len = d.files.get(&f.path).map(|v| v.len()).unwrap_or(0) as i64;
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => f.pos as i64,
                _ => len,
            };
            let p = base + off;
            if p < 0 {
                return fail(libc::EINVAL) as off64_t;
            }
            f.pos = p as u64;
            p as off64_t
        });
    }
    ret(sys6(libc::SYS_lseek, fd as c_long, off as c_long, whence as c_long, 0, 0, 0)) as off64_t
}

fn stat_len(path: Option<String>, fd: c_int) -> Result<u64, c_int> {
    with_disk(|d| {
        if let Some(What::Errno(e)) = d.fault(Op::Stat) {
            return Err(e);
        }
        let p = match path {
            Some(p) => p,
            None => match d.fds.get(&fd) {
                Some(f) => f.path.clone(),
                None => return Err(libc::EBADF),
            },
        };
        d.files.get(&p).map(|v| v.len() as u64).ok_or(libc::ENOENT)
    })
}

#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    let p = sim_path(path);
    if p.is_some() || dfd >= FD_BASE {
        return match stat_len(p, dfd) {
            Ok(len) => {
                std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*buf).stx_mask = libc::STATX_BASIC_STATS;
                (*buf).stx_mode = (libc::S_IFREG | 0o644) as u16;
                (*buf).stx_size = len;
                (*buf).stx_nlink = 1;
                (*buf).stx_blksize = 4096;
                0
            }
            Err(e) => fail(e) as c_int,
        };
    }
    ret(sys6(libc::SYS_statx, dfd as c_long, path as c_long, flags as c_long, mask as c_long, buf as c_long, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    if fd >= FD_BASE {
        return match stat_len(None, fd) {
            Ok(len) => {
                std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::stat64>());
                (*buf).st_mode = libc::S_IFREG | 0o644;
                (*buf).st_size = len as i64;
                0
            }
            Err(e) => fail(e) as c_int,
        };
    }
    ret(sys6(libc::SYS_fstat, fd as c_long, buf as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return 0;
    }
    ret(sys6(libc::SYS_fsync, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return 0;
    }
    ret(sys6(libc::SYS_fdatasync, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if fd >= FD_BASE {
        return with_disk(|d| {
            let Some(f) = d.fds.get(&fd) else { return fail(libc::EBADF) as c_int };
            d.files.entry(f.path.clone()).or_default().resize(len as usize, 0);
            0
        });
    }
    ret(sys6(libc::SYS_ftruncate, fd as c_long, len as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(a), Some(b)) = (sim_path(a), sim_path(b)) {
        return with_disk(|d| match d.files.remove(&a) {
            Some(v) => {
                d.files.insert(b, v);
                0
            }
            None => fail(libc::ENOENT) as c_int,
        });
    }
    ret(sys6(libc::SYS_rename, a as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if let Some(a) = sim_path(a) {
        return with_disk(|d| if d.files.remove(&a).is_some() { 0 } else { fail(libc::ENOENT) as c_int });
    }
    ret(sys6(libc::SYS_unlink, a as c_long, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn fill_random(buf: *mut u8, n: usize) {
    RAND_CALLS.fetch_add(1, SeqCst);
    let mut i = 0;
    while i < n {
        let s = RAND.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
        let w = mix(s).to_le_bytes();
        let k = (n - i).min(8);
        std::ptr::copy_nonoverlapping(w.as_ptr(), buf.add(i), k);
        i += k;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if RAND_ON.load(SeqCst) {
        fill_random(buf as *mut u8, n);
        return n as ssize_t;
    }
    ret(sys6(libc::SYS_getrandom, buf as c_long, n as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && RAND_ON.load(SeqCst) {
        fill_random(a as *mut u8, b as usize);
        return b;
    }
    ret(sys6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if CLOCK_ON.load(SeqCst) {
        CLOCK_READS.fetch_add(1, SeqCst);
        let t = CLOCK_NS.fetch_add(CLOCK_TICK.load(SeqCst), SeqCst);
        let t = match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => (t as i64).wrapping_add(WALL_OFF.load(SeqCst)).max(0) as u64,
            _ => t,
        };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys6(libc::SYS_clock_gettime, id as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if CLOCK_ON.load(SeqCst) {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags == 0 {
            clock_advance(t);
        } else {
            let now = clock_now();
            clock_advance(t.saturating_sub(now));
        }
        return 0;
    }
    -(sys6(libc::SYS_clock_nanosleep, id as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if CLOCK_ON.load(SeqCst) {
        clock_advance((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(sys6(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0)) as c_int
}
