//! Records the file system calls the process makes below one directory, by defining the C
//! library's entry points in this executable, so that a crash can be simulated at any of them.

use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::collections::HashMap;
use std::ffi::CStr;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub enum Ev {
    /// A file opened for writing under a handle number.
    Open { h: usize, path: String, trunc: bool, append: bool },
    Write { h: usize, data: Vec<u8> },
    Sync { h: usize },
    Len { h: usize, len: u64 },
    Rename { from: String, to: String },
    Unlink { path: String },
    Mkdir { path: String },
    /// Update number `n` was acknowledged.
    Ack(usize),
}

#[derive(Default)]
struct Rec {
    prefix: Option<String>,
    fds: HashMap<c_int, usize>,
    next: usize,
    log: Vec<Ev>,
}

static REC: Mutex<Option<Rec>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut Rec) -> T) -> Option<T> {
    let mut g = REC.lock().unwrap_or_else(|e| e.into_inner());
    match g.as_mut() {
        Some(r) if r.prefix.is_some() => Some(f(r)),
        _ => None,
    }
}

pub fn start(prefix: &str) {
    *REC.lock().unwrap_or_else(|e| e.into_inner()) = Some(Rec { prefix: Some(prefix.to_string()), ..Rec::default() });
}

pub fn stop() -> Vec<Ev> {
    REC.lock().unwrap_or_else(|e| e.into_inner()).take().map(|r| r.log).unwrap_or_default()
}

pub fn ack(n: usize) {
    with(|r| r.log.push(Ev::Ack(n)));
}

unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

unsafe fn opened(path: *const c_char, flags: c_int, fd: c_int) {
    if fd < 0 {
        return;
    }
    let p = text(path);
    with(|r| {
        r.fds.remove(&fd);
        if flags & (libc::O_WRONLY | libc::O_RDWR) != 0 && p.starts_with(r.prefix.as_deref().unwrap()) {
            let h = r.next;
            r.next += 1;
            r.fds.insert(fd, h);
            r.log.push(Ev::Open { h, path: p, trunc: flags & libc::O_TRUNC != 0, append: flags & libc::O_APPEND != 0 });
        }
    });
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int;
    opened(path, flags, fd);
    fd
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let k = libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    if k > 0 && fd > 2 {
        with(|r| {
            if let Some(&h) = r.fds.get(&fd) {
                r.log.push(Ev::Write { h, data: std::slice::from_raw_parts(buf as *const u8, k as usize).to_vec() });
            }
        });
    }
    k
}

unsafe fn synced(fd: c_int, ret: c_int) -> c_int {
    if ret == 0 {
        with(|r| {
            if let Some(&h) = r.fds.get(&fd) {
                r.log.push(Ev::Sync { h });
            }
        });
    }
    ret
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    // The simulated crash model stands in for the disk: the real flush is not needed.
    synced(fd, if libc::fcntl(fd, libc::F_GETFD) < 0 { -1 } else { 0 })
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let ret = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    if ret == 0 {
        with(|r| {
            if let Some(&h) = r.fds.get(&fd) {
                r.log.push(Ev::Len { h, len: len as u64 });
            }
        });
    }
    ret
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    let ret = libc::syscall(libc::SYS_renameat, libc::AT_FDCWD, from, libc::AT_FDCWD, to) as c_int;
    if ret == 0 {
        let (f, t) = (text(from), text(to));
        with(|r| r.log.push(Ev::Rename { from: f, to: t }));
    }
    ret
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let ret = libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, path, 0) as c_int;
    if ret == 0 {
        let p = text(path);
        with(|r| r.log.push(Ev::Unlink { path: p }));
    }
    ret
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    let ret = libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode) as c_int;
    if ret == 0 {
        let p = text(path);
        with(|r| r.log.push(Ev::Mkdir { path: p }));
    }
    ret
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with(|r| r.fds.remove(&fd));
    libc::syscall(libc::SYS_close, fd) as c_int
}

/// The contents of a directory as a crash may leave them: each file's bytes and how many of
/// them have reached the disk.
#[derive(Clone, Default)]
pub struct Disk {
    names: HashMap<String, usize>,
    inodes: Vec<(Vec<u8>, usize)>,
    open: HashMap<usize, (usize, bool, usize)>,
    pub dirs: Vec<String>,
}

impl Disk {
    pub fn with(files: &[(String, Vec<u8>)]) -> Disk {
        let mut d = Disk::default();
        for (p, b) in files {
            d.names.insert(p.clone(), d.inodes.len());
            d.inodes.push((b.clone(), b.len()));
        }
        d
    }
    pub fn apply(&mut self, e: &Ev) {
        match e {
            Ev::Open { h, path, trunc, append } => {
                let i = match self.names.get(path) {
                    Some(&i) => i,
                    None => {
                        let i = self.inodes.len();
                        self.names.insert(path.clone(), i);
                        self.inodes.push((vec![], 0));
                        i
                    }
                };
                if *trunc {
                    self.inodes[i] = (vec![], 0);
                }
                self.open.insert(*h, (i, *append, 0));
            }
            Ev::Write { h, data } => self.write(*h, data),
            Ev::Sync { h } => {
                if let Some(&(i, _, _)) = self.open.get(h) {
                    self.inodes[i].1 = self.inodes[i].0.len();
                }
            }
            Ev::Len { h, len } => {
                if let Some(&(i, _, _)) = self.open.get(h) {
                    self.inodes[i].0.resize(*len as usize, 0);
                    self.inodes[i].1 = self.inodes[i].1.min(*len as usize);
                }
            }
            Ev::Rename { from, to } => {
                if let Some(i) = self.names.remove(from) {
                    self.names.insert(to.clone(), i);
                }
            }
            Ev::Unlink { path } => {
                self.names.remove(path);
            }
            Ev::Mkdir { path } => self.dirs.push(path.clone()),
            Ev::Ack(_) => {}
        }
    }
    pub fn write(&mut self, h: usize, data: &[u8]) {
        if let Some((i, append, at)) = self.open.get_mut(&h) {
            let f = &mut self.inodes[*i];
            let pos = if *append { f.0.len() } else { *at };
            if f.0.len() < pos + data.len() {
                f.0.resize(pos + data.len(), 0);
            }
            f.0[pos..pos + data.len()].copy_from_slice(data);
            f.1 = f.1.min(pos);
            *at = pos + data.len();
        }
    }
    /// Every name with its bytes and the number of bytes known to be on disk.
    pub fn files(&self) -> Vec<(String, Vec<u8>, usize)> {
        let mut v: Vec<_> = self.names.iter().map(|(p, &i)| (p.clone(), self.inodes[i].0.clone(), self.inodes[i].1)).collect();
        v.sort();
        v
    }
}
