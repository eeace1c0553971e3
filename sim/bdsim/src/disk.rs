//! The simulated file system and the other outward-facing system calls. While code under test runs
//! (`SIM`), no file, process or network call reaches the machine: file calls go to an in-memory
//! tree with scripted faults, everything else fails and is recorded as an effect.
#![allow(static_mut_refs)]
use crate::sim::{effect, event, fail, g, masked, SIM};
use libc::{c_char, c_int, c_long, c_void};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct FsFault {
    pub call: String,
    /// 1-based count of that call in the run; 0 = every time
    pub nth: u64,
    pub act: String,
}

pub struct Fd {
    path: String,
    pos: usize,
}

pub struct Disk {
    /// None = directory
    pub nodes: BTreeMap<String, Option<Vec<u8>>>,
    fds: BTreeMap<c_int, Fd>,
    dirs: Vec<usize>,
    pub faults: Vec<FsFault>,
    pub counts: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub capacity: usize,
    pub max_fds: usize,
    next_fd: c_int,
    pub bytes: u64,
}

impl Disk {
    pub fn new() -> Disk {
        let mut nodes = BTreeMap::new();
        nodes.insert("/".into(), None);
        Disk {
            nodes,
            fds: BTreeMap::new(),
            dirs: vec![],
            faults: vec![],
            counts: BTreeMap::new(),
            fired: BTreeMap::new(),
            capacity: usize::MAX,
            max_fds: 1000,
            next_fd: 1000,
            bytes: 0,
        }
    }
    pub fn mkdirs(&mut self, p: &str) {
        let mut cur = String::new();
        for c in p.split('/').filter(|c| !c.is_empty()) {
            cur.push('/');
            cur.push_str(c);
            self.nodes.insert(cur.clone(), None);
        }
    }
    fn used(&self) -> usize {
        self.nodes.values().map(|n| n.as_ref().map_or(0, |d| d.len())).sum()
    }
    pub fn open_files(&self) -> usize {
        self.fds.len()
    }
}

fn errno_of(s: &str) -> c_int {
    match s {
        "EIO" => libc::EIO,
        "ENOSPC" => libc::ENOSPC,
        "EACCES" => libc::EACCES,
        "EROFS" => libc::EROFS,
        "EMFILE" => libc::EMFILE,
        "EINTR" => libc::EINTR,
        "EDQUOT" => libc::EDQUOT,
        "ENAMETOOLONG" => libc::ENAMETOOLONG,
        "ENOTDIR" => libc::ENOTDIR,
        "ELOOP" => libc::ELOOP,
        _ => libc::EIO,
    }
}

/// Count the call, and return the action of a fault that fires on it.
fn fault(call: &str) -> Option<String> {
    crate::sim::charge();
    let d = &mut g().fs;
    let n = d.counts.entry(call.to_string()).or_insert(0);
    *n += 1;
    let n = *n;
    for f in &d.faults {
        if f.call == call && (f.nth == n || f.nth == 0) {
            let act = f.act.clone();
            *d.fired.entry(format!("{}:{}", call, act)).or_insert(0) += 1;
            if act == "crash" {
                crate::exec::crash_exit();
            }
            return Some(act);
        }
    }
    None
}

unsafe fn cstr(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    String::from_utf8_lossy(std::ffi::CStr::from_ptr(p).to_bytes()).into_owned()
}

/// Lexical normalisation; relative paths are taken from /cwd.
pub fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let full = if p.starts_with('/') { p.to_string() } else { format!("/cwd/{}", p) };
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            _ => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}

fn sim_open(path: String, flags: c_int) -> c_int {
    let p = norm(&path);
    let writing = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & libc::O_CREAT != 0;
    effect(format!("{} {}", if writing { "open-write" } else { "open-read" }, p));
    event(format!("open {}", p));
    if let Some(a) = fault("open") {
        return unsafe { fail(errno_of(&a)) };
    }
    let d = &mut g().fs;
    if d.fds.len() >= d.max_fds {
        return unsafe { fail(libc::EMFILE) };
    }
    match d.nodes.get(&p) {
        Some(None) if writing => return unsafe { fail(libc::EISDIR) },
        Some(_) => {
            if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                return unsafe { fail(libc::EEXIST) };
            }
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return unsafe { fail(libc::ENOENT) };
            }
            match d.nodes.get(&parent(&p)) {
                Some(None) => {}
                Some(Some(_)) => return unsafe { fail(libc::ENOTDIR) },
                None => return unsafe { fail(libc::ENOENT) },
            }
            d.nodes.insert(p.clone(), Some(vec![]));
        }
    }
    if flags & libc::O_TRUNC != 0 {
        d.nodes.insert(p.clone(), Some(vec![]));
    }
    let pos = if flags & libc::O_APPEND != 0 { d.nodes[&p].as_ref().map_or(0, |x| x.len()) } else { 0 };
    d.next_fd += 1;
    let fd = d.next_fd;
    d.fds.insert(fd, Fd { path: p, pos });
    fd
}

fn sim_write(fd: c_int, buf: &[u8]) -> isize {
    if fd == 1 || fd == 2 {
        effect(format!("stdio {}", fd));
        return buf.len() as isize;
    }
    let mut n = buf.len();
    if let Some(a) = fault("write") {
        match a.as_str() {
            "short" => n = (n / 2).max(1).min(n),
            "torn" => {
                // half of it reaches the disk, then the device fails
                let d = &mut g().fs;
                if let Some(f) = d.fds.get(&fd) {
                    let p = f.path.clone();
                    if let Some(Some(v)) = d.nodes.get_mut(&p) {
                        v.extend_from_slice(&buf[..n / 2]);
                    }
                }
                return unsafe { fail(libc::EIO) as isize };
            }
            "lost" => return n as isize,
            _ => return unsafe { fail(errno_of(&a)) as isize },
        }
    }
    let d = &mut g().fs;
    let used = d.used();
    let cap = d.capacity;
    let (path, pos) = match d.fds.get(&fd) {
        Some(f) => (f.path.clone(), f.pos),
        None => return unsafe { fail(libc::EBADF) as isize },
    };
    if used + n > cap {
        *d.fired.entry("write:disk-full".into()).or_insert(0) += 1;
        n = cap.saturating_sub(used);
        if n == 0 {
            return unsafe { fail(libc::ENOSPC) as isize };
        }
    }
    d.bytes += n as u64;
    if let Some(Some(v)) = d.nodes.get_mut(&path) {
        if v.len() < pos + n {
            v.resize(pos + n, 0);
        }
        v[pos..pos + n].copy_from_slice(&buf[..n]);
    }
    d.fds.get_mut(&fd).unwrap().pos += n;
    n as isize
}

unsafe fn real(name: &[u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _)
}
macro_rules! real_fn {
    ($n:literal, $t:ty) => {
        std::mem::transmute::<*mut c_void, $t>(real(concat!($n, "\0").as_bytes()))
    };
}

macro_rules! opens {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
            if SIM { return masked(|| sim_open(cstr(p), fl)); }
            real_fn!($n, extern "C" fn(*const c_char, c_int, c_int) -> c_int)(p, fl, mode)
        } )* };
}
opens!(open "open", open64 "open64");
macro_rules! openats {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(d: c_int, p: *const c_char, fl: c_int, mode: c_int) -> c_int {
            if SIM { return masked(|| sim_open(cstr(p), fl)); }
            real_fn!($n, extern "C" fn(c_int, *const c_char, c_int, c_int) -> c_int)(d, p, fl, mode)
        } )* };
}
openats!(openat "openat", openat64 "openat64");

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if SIM {
        return masked(|| sim_write(fd, std::slice::from_raw_parts(b as *const u8, n)));
    }
    real_fn!("write", extern "C" fn(c_int, *const c_void, usize) -> isize)(fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if SIM {
        return masked(|| {
            let mut all = vec![];
            for i in 0..n as usize {
                let io = &*v.add(i);
                all.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
            }
            sim_write(fd, &all)
        });
    }
    real_fn!("writev", extern "C" fn(c_int, *const libc::iovec, c_int) -> isize)(fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if SIM {
        return masked(|| {
            if let Some(a) = fault("read") {
                return fail(errno_of(&a)) as isize;
            }
            let d = &mut g().fs;
            let (path, pos) = match d.fds.get(&fd) {
                Some(f) => (f.path.clone(), f.pos),
                None => {
                    effect(format!("read fd {}", fd));
                    return fail(libc::EBADF) as isize;
                }
            };
            if let Some(Some(v)) = d.nodes.get(&path) {
                let k = n.min(v.len().saturating_sub(pos));
                std::ptr::copy_nonoverlapping(v.as_ptr().add(pos.min(v.len())), b as *mut u8, k);
                d.fds.get_mut(&fd).unwrap().pos += k;
                return k as isize;
            }
            fail(libc::EISDIR) as isize
        });
    }
    real_fn!("read", extern "C" fn(c_int, *mut c_void, usize) -> isize)(fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if SIM {
        return masked(|| {
            let f = fault("close");
            if g().fs.fds.remove(&fd).is_none() {
                return fail(libc::EBADF);
            }
            match f {
                Some(a) => fail(errno_of(&a)),
                None => 0,
            }
        });
    }
    real_fn!("close", extern "C" fn(c_int) -> c_int)(fd)
}
macro_rules! lseeks {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(fd: c_int, off: i64, wh: c_int) -> i64 {
            if SIM { return masked(|| {
                if let Some(a) = fault("lseek") { return fail(errno_of(&a)) as i64; }
                let d = &mut g().fs;
                let len = match d.fds.get(&fd) {
                    Some(f) => d.nodes.get(&f.path).and_then(|x| x.as_ref()).map_or(0, |v| v.len()) as i64,
                    None => return fail(libc::EBADF) as i64,
                };
                let f = d.fds.get_mut(&fd).unwrap();
                let p = match wh { 0 => off, 1 => f.pos as i64 + off, _ => len + off };
                if p < 0 { return fail(libc::EINVAL) as i64; }
                f.pos = p as usize;
                p
            }); }
            real_fn!($n, extern "C" fn(c_int, i64, c_int) -> i64)(fd, off, wh)
        } )* };
}
lseeks!(lseek "lseek", lseek64 "lseek64");

/// mode, size of a path
fn look(p: &str) -> Result<(u32, u64), c_int> {
    if let Some(a) = fault("stat") {
        return Err(errno_of(&a));
    }
    let p = norm(p);
    match g().fs.nodes.get(&p) {
        Some(None) => Ok((libc::S_IFDIR | 0o755, 0)),
        Some(Some(v)) => Ok((libc::S_IFREG | 0o644, v.len() as u64)),
        None => Err(libc::ENOENT),
    }
}
fn look_fd(fd: c_int, p: &str) -> Result<(u32, u64), c_int> {
    if p.is_empty() {
        match g().fs.fds.get(&fd) {
            Some(f) => look(&f.path.clone()),
            None => Err(libc::EBADF),
        }
    } else {
        look(p)
    }
}
/// statx through the raw `syscall` function: only existence matters to the caller (std probes it).
pub unsafe fn statx_path(_d: c_int, _p: *const c_char) -> c_int {
    fail(libc::ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if SIM {
        return masked(|| {
            if out.is_null() {
                return fail(libc::EFAULT);
            }
            match look_fd(d, &cstr(p)) {
                Ok((mode, size)) => {
                    std::ptr::write_bytes(out, 0, 1);
                    (*out).stx_mask = libc::STATX_BASIC_STATS;
                    (*out).stx_mode = mode as u16;
                    (*out).stx_size = size;
                    (*out).stx_nlink = 1;
                    0
                }
                Err(e) => fail(e),
            }
        });
    }
    real_fn!("statx", extern "C" fn(c_int, *const c_char, c_int, u32, *mut libc::statx) -> c_int)(d, p, fl, mask, out)
}
unsafe fn fill_stat(r: Result<(u32, u64), c_int>, out: *mut libc::stat) -> c_int {
    match r {
        Ok((mode, size)) => {
            std::ptr::write_bytes(out, 0, 1);
            (*out).st_mode = mode;
            (*out).st_size = size as i64;
            (*out).st_nlink = 1;
            0
        }
        Err(e) => fail(e),
    }
}
macro_rules! stats {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(p: *const c_char, out: *mut libc::stat) -> c_int {
            if SIM { return masked(|| fill_stat(look(&cstr(p)), out)); }
            real_fn!($n, extern "C" fn(*const c_char, *mut libc::stat) -> c_int)(p, out)
        } )* };
}
stats!(stat "stat", stat64 "stat64", lstat "lstat", lstat64 "lstat64");
macro_rules! fstats {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(fd: c_int, out: *mut libc::stat) -> c_int {
            if SIM { return masked(|| fill_stat(look_fd(fd, ""), out)); }
            real_fn!($n, extern "C" fn(c_int, *mut libc::stat) -> c_int)(fd, out)
        } )* };
}
fstats!(fstat "fstat", fstat64 "fstat64");

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
    if SIM {
        return masked(|| {
            let p = norm(&cstr(p));
            effect(format!("mkdir {}", p));
            if let Some(a) = fault("mkdir") {
                return fail(errno_of(&a));
            }
            let d = &mut g().fs;
            if d.nodes.contains_key(&p) {
                return fail(libc::EEXIST);
            }
            match d.nodes.get(&parent(&p)) {
                Some(None) => {
                    d.nodes.insert(p, None);
                    0
                }
                Some(Some(_)) => fail(libc::ENOTDIR),
                None => fail(libc::ENOENT),
            }
        });
    }
    real_fn!("mkdir", extern "C" fn(*const c_char, libc::mode_t) -> c_int)(p, mode)
}
macro_rules! path_ops {
    ($($f:ident $n:literal $what:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(p: *const c_char) -> c_int {
            if SIM { return masked(|| {
                let p = norm(&cstr(p));
                effect(format!("{} {}", $what, p));
                if let Some(a) = fault($what) { return fail(errno_of(&a)); }
                let d = &mut g().fs;
                if !d.nodes.contains_key(&p) { return fail(libc::ENOENT); }
                d.nodes.remove(&p);
                0
            }); }
            real_fn!($n, extern "C" fn(*const c_char) -> c_int)(p)
        } )* };
}
path_ops!(unlink "unlink" "unlink", rmdir "rmdir" "rmdir");
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if SIM {
        return masked(|| {
            let (a, b) = (norm(&cstr(a)), norm(&cstr(b)));
            effect(format!("rename {}", a));
            effect(format!("rename {}", b));
            if let Some(x) = fault("rename") {
                return fail(errno_of(&x));
            }
            let d = &mut g().fs;
            match d.nodes.remove(&a) {
                Some(n) => {
                    d.nodes.insert(b, n);
                    0
                }
                None => fail(libc::ENOENT),
            }
        });
    }
    real_fn!("rename", extern "C" fn(*const c_char, *const c_char) -> c_int)(a, b)
}
macro_rules! fd_ok {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(fd: c_int) -> c_int {
            if SIM { return masked(|| match fault($n) { Some(a) => fail(errno_of(&a)), None => 0 }); }
            real_fn!($n, extern "C" fn(c_int) -> c_int)(fd)
        } )* };
}
fd_ok!(fsync "fsync", fdatasync "fdatasync");
macro_rules! truncs {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(fd: c_int, len: i64) -> c_int {
            if SIM { return masked(|| {
                let d = &mut g().fs;
                match d.fds.get(&fd) {
                    Some(f) => { let p = f.path.clone(); if let Some(Some(v)) = d.nodes.get_mut(&p) { v.resize(len as usize, 0); } 0 }
                    None => fail(libc::EBADF),
                }
            }); }
            real_fn!($n, extern "C" fn(c_int, i64) -> c_int)(fd, len)
        } )* };
}
truncs!(ftruncate "ftruncate", ftruncate64 "ftruncate64");

/// An open directory: what was in it when it was opened.
pub struct Dir {
    names: Vec<(String, bool)>,
    next: usize,
    entry: libc::dirent64,
    fd: c_int,
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if SIM {
        return masked(|| {
            let p = norm(&cstr(p));
            effect(format!("open-read {}", p));
            event(format!("opendir {}", p));
            if let Some(a) = fault("open") {
                fail(errno_of(&a));
                return std::ptr::null_mut();
            }
            let d = &mut g().fs;
            let code = match d.nodes.get(&p) {
                None => libc::ENOENT,
                Some(Some(_)) => libc::ENOTDIR,
                Some(None) if d.fds.len() >= d.max_fds => libc::EMFILE,
                Some(None) => 0,
            };
            if code != 0 {
                fail(code);
                return std::ptr::null_mut();
            }
            let mut names = vec![(".".to_string(), true), ("..".to_string(), true)];
            names.extend(d.nodes.iter().filter(|(q, _)| **q != p && parent(q) == p).map(|(q, n)| (q[q.rfind('/').unwrap() + 1..].to_string(), n.is_none())));
            d.next_fd += 1;
            let fd = d.next_fd;
            d.fds.insert(fd, Fd { path: p, pos: 0 });
            let b = Box::into_raw(Box::new(Dir { names, next: 0, entry: std::mem::zeroed(), fd }));
            d.dirs.push(b as usize);
            b as *mut c_void
        });
    }
    real_fn!("opendir", extern "C" fn(*const c_char) -> *mut c_void)(p)
}
macro_rules! readdirs {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(h: *mut c_void) -> *mut c_void {
            if SIM && g().fs.dirs.contains(&(h as usize)) {
                return masked(|| {
                    if let Some(a) = fault("readdir") {
                        fail(errno_of(&a));
                        return std::ptr::null_mut();
                    }
                    let d = &mut *(h as *mut Dir);
                    let Some((name, dir)) = d.names.get(d.next) else { return std::ptr::null_mut() };
                    d.next += 1;
                    d.entry.d_ino = d.next as u64;
                    d.entry.d_off = d.next as i64;
                    d.entry.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
                    d.entry.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
                    let n = name.len().min(255);
                    for (k, b) in name.as_bytes()[..n].iter().enumerate() {
                        d.entry.d_name[k] = *b as c_char;
                    }
                    d.entry.d_name[n] = 0;
                    &mut d.entry as *mut libc::dirent64 as *mut c_void
                });
            }
            real_fn!($n, extern "C" fn(*mut c_void) -> *mut c_void)(h)
        } )* };
}
readdirs!(readdir "readdir", readdir64 "readdir64");
#[no_mangle]
pub unsafe extern "C" fn closedir(h: *mut c_void) -> c_int {
    if SIM && g().fs.dirs.contains(&(h as usize)) {
        return masked(|| {
            let b = Box::from_raw(h as *mut Dir);
            let d = &mut g().fs;
            d.dirs.retain(|x| *x != h as usize);
            d.fds.remove(&b.fd);
            0
        });
    }
    real_fn!("closedir", extern "C" fn(*mut c_void) -> c_int)(h)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(h: *mut c_void) -> c_int {
    if SIM && g().fs.dirs.contains(&(h as usize)) {
        return (*(h as *mut Dir)).fd;
    }
    real_fn!("dirfd", extern "C" fn(*mut c_void) -> c_int)(h)
}

/// Calls that are never simulated: recorded as an effect, and refused.
macro_rules! refuse {
    ($($f:ident $n:literal ($($a:ident),*)),* $(,)?) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f($($a: usize),*) -> c_long {
            if SIM {
                masked(|| effect(concat!("call ", $n).to_string()));
                return fail(libc::EPERM) as c_long;
            }
            real_fn!($n, extern "C" fn($($a: usize),*) -> c_long)($($a),*)
        } )* };
}
refuse!(
    socket "socket" (a, b, c),
    connect "connect" (a, b, c),
    sendto "sendto" (a, b, c, d, e, f),
    send "send" (a, b, c, d),
    execve "execve" (a, b, c),
    execvp "execvp" (a, b),
    posix_spawn "posix_spawn" (a, b, c, d, e, f),
    posix_spawnp "posix_spawnp" (a, b, c, d, e, f),
    chmod "chmod" (a, b),
    symlink "symlink" (a, b),
    link "link" (a, b),
    chdir "chdir" (a),
    setenv "setenv" (a, b, c),
    unsetenv "unsetenv" (a),
    shm_open "shm_open" (a, b, c),
    putenv "putenv" (a),
    clearenv "clearenv" (),
    sigaction "sigaction" (a, b, c),
    signal "signal" (a, b),
    umask "umask" (a),
    setrlimit "setrlimit" (a, b),
    setrlimit64 "setrlimit64" (a, b),
    setpriority "setpriority" (a, b, c),
    nice "nice" (a),
    sched_setaffinity "sched_setaffinity" (a, b, c),
    kill "kill" (a, b),
    alarm "alarm" (a),
    setitimer "setitimer" (a, b, c),
    dlopen "dlopen" (a, b),
    system "system" (a),
    popen "popen" (a, b),
    setlocale "setlocale" (a, b),
);

macro_rules! fcntls {
    ($($f:ident $n:literal),*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $f(fd: c_int, cmd: c_int, arg: usize) -> c_int {
            if SIM {
                return masked(|| {
                    if !g().fs.fds.contains_key(&fd) {
                        return fail(libc::EBADF);
                    }
                    match cmd {
                        libc::F_GETFD => libc::FD_CLOEXEC,
                        libc::F_SETFD | libc::F_SETFL => 0,
                        libc::F_GETFL => libc::O_RDWR,
                        _ => fail(libc::EINVAL),
                    }
                });
            }
            real_fn!($n, extern "C" fn(c_int, c_int, usize) -> c_int)(fd, cmd, arg)
        } )* };
}
fcntls!(fcntl "fcntl", fcntl64 "fcntl64");
