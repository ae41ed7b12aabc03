//! C11: the file system rooted at a directory.
//!
//! The root sits many levels deep in a scratch tree, generated paths climb fewer levels than that,
//! and absolute paths start with the scratch tree's own, so a path that escapes the root still
//! lands in the scratch tree.  File access also happens as an unprivileged user.

use crate::sysrec::{self, Disk, Ev};
use logicaffeine_system::fs::{NativeVfs, UringVfs, Vfs};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use vcore::*;

const NOBODY: u32 = 65534;

/// File access by this thread, and by threads started under it, as an unprivileged user.
struct Unprivileged;
impl Unprivileged {
    fn enter() -> Unprivileged {
        unsafe {
            libc::syscall(libc::SYS_setfsgid, NOBODY);
            libc::syscall(libc::SYS_setfsuid, NOBODY);
        }
        Unprivileged
    }
}
impl Drop for Unprivileged {
    fn drop(&mut self) {
        unsafe {
            libc::syscall(libc::SYS_setfsuid, 0);
            libc::syscall(libc::SYS_setfsgid, 0);
        }
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(4).build().unwrap();
}

fn block<T>(f: impl Future<Output = T>) -> T {
    RT.with(|r| r.block_on(f))
}

struct Tree {
    top: PathBuf,
    root: PathBuf,
    outside: BTreeMap<String, Vec<u8>>,
}

const SECRET: &[u8] = b"SECRET outside the root";

impl Tree {
    fn new(s: &mut Src) -> Tree {
        let top = work_dir("c11");
        let _ = std::fs::remove_dir_all(&top);
        let mut p = top.clone();
        for i in 0..12 {
            p = p.join(format!("up{i}"));
        }
        let root = p.join("root");
        std::fs::create_dir_all(&root).unwrap();
        // Something to find at every level above the root, under the names the paths use.
        let mut q = root.parent().unwrap().to_path_buf();
        for _ in 0..6 {
            for n in ["a", "secret", "only-outside"] {
                std::fs::write(q.join(n), SECRET).unwrap();
            }
            std::fs::create_dir_all(q.join("d")).unwrap();
            std::fs::write(q.join("d").join("a"), SECRET).unwrap();
            q = q.parent().unwrap().to_path_buf();
        }
        own(&top);
        let mut t = Tree { top, root, outside: BTreeMap::new() };
        t.outside = t.scan_outside();
        let _ = s;
        t
    }
    fn scan_outside(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        scan(&self.top, &self.root, &mut m);
        m
    }
    fn inside(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        scan(&self.root, Path::new("/nowhere"), &mut m);
        let pre = format!("{}/", self.root.display());
        m.into_iter().map(|(k, v)| (k.strip_prefix(&pre).unwrap_or(&k).to_string(), v)).collect()
    }
}

fn own(p: &Path) {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    unsafe { libc::lchown(c.as_ptr(), NOBODY, NOBODY) };
    if p.is_dir() {
        for e in std::fs::read_dir(p).unwrap().flatten() {
            own(&e.path());
        }
    }
}

fn scan(p: &Path, skip: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
    if p == skip {
        return;
    }
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let q = e.path();
        if q == skip {
            continue;
        }
        let name = q.to_string_lossy().into_owned();
        if q.is_dir() {
            m.insert(format!("{name}/"), vec![]);
            scan(&q, skip, m);
        } else {
            m.insert(name, std::fs::read(&q).unwrap_or_default());
        }
    }
}

fn open(s: &mut Src, c: &mut Ctx, root: &Path) -> Arc<dyn Vfs + Send + Sync> {
    if s.chance(1, 3) {
        if let Ok(u) = UringVfs::new(root) {
            c.class("io_uring");
            return Arc::new(u);
        }
    }
    c.class("native");
    Arc::new(NativeVfs::new(root))
}

// ------------------------------------------------------------------ odd paths

fn odd_path(s: &mut Src, t: &Tree) -> String {
    let mut out = String::new();
    match s.below(8) {
        0 => out.push('/'),
        1 => out.push_str("//"),
        2 => out.push_str("./"),
        3 => {
            // An absolute path into the scratch tree, outside the root.
            out = t.root.parent().unwrap().display().to_string();
            out.push('/');
        }
        4 => out.push_str("/../"),
        _ => {}
    }
    let n = s.usize(1, 6);
    for i in 0..n {
        if i > 0 {
            out.push_str(s.pick(&["/", "/", "/", "//", "/./"]));
        }
        out.push_str(s.pick(&["..", "..", "..", "d", "a", "secret", ".", "root", "...", "..a", "a..", " ..", "up11"]));
    }
    if s.chance(1, 8) {
        out.push('/');
    }
    out
}

fn containment(s: &mut Src, c: &mut Ctx) -> R {
    let t = Tree::new(s);
    std::fs::create_dir_all(t.root.join("d")).unwrap();
    std::fs::write(t.root.join("a"), b"in").unwrap();
    std::fs::write(t.root.join("d").join("a"), b"in").unwrap();
    own(&t.root);
    let unpriv = Unprivileged::enter();
    let vfs = open(s, c, &t.root);
    let n = s.usize(1, 6);
    let mut script = vec![];
    let mut up = false;
    let secret = |b: &[u8]| b.windows(SECRET.len()).any(|w| w == SECRET);
    let mut leak: Option<String> = None;
    for _ in 0..n {
        let p = odd_path(s, &t);
        up |= p.contains("..") || p.starts_with('/');
        let k = s.below(9);
        let what = match k {
            0 => {
                if let Ok(b) = block(vfs.read(&p)) {
                    if secret(&b) { leak = Some(format!("read {p:?}")); }
                }
                "read"
            }
            1 => {
                if let Ok(b) = block(vfs.read_to_string(&p)) {
                    if secret(b.as_bytes()) { leak = Some(format!("read_to_string {p:?}")); }
                }
                "read text"
            }
            2 => {
                let _ = block(vfs.write(&p, b"written"));
                "write"
            }
            3 => {
                let _ = block(vfs.append(&p, b"appended"));
                "append"
            }
            4 => {
                let _ = block(vfs.remove(&p));
                "remove"
            }
            5 => {
                let _ = block(vfs.create_dir_all(&p));
                "create directory"
            }
            6 => {
                let to = s.pick(&["a", "d/b", "moved"]).to_string();
                let _ = block(vfs.rename(&p, &to));
                "rename from"
            }
            7 => {
                let from = s.pick(&["a", "d/a"]).to_string();
                let _ = block(vfs.rename(&from, &p));
                "rename to"
            }
            _ => {
                if let Ok(v) = block(vfs.list_dir(&p)) {
                    if v.iter().any(|e| e.name == "only-outside") { leak = Some(format!("list_dir {p:?}")); }
                }
                "list"
            }
        };
        script.push(format!("{what} {p:?}"));
    }
    drop(vfs);
    drop(unpriv);
    c.show(script.join("; ").replace(&*t.top.to_string_lossy(), "TOP"));
    let shown = script.join("; ");
    ensure!(leak.is_none(), "[leak] {} returned what lies outside the root; {shown}", leak.unwrap());
    let after = t.scan_outside();
    if after != t.outside {
        let keys: BTreeSet<_> = after.keys().chain(t.outside.keys()).filter(|k| after.get(*k) != t.outside.get(*k)).cloned().collect();
        return fail(format!("[escape] changed outside the root: {keys:?}; {shown}"));
    }
    ensure!(!t.inside().values().any(|b| secret(b)), "[leak] a file from outside the root was moved into it; {shown}");
    c.nontrivial(up);
    Ok(())
}

// ------------------------------------------------------------------ histories against a model

#[derive(Default, Clone)]
struct Model {
    files: BTreeMap<String, Vec<u8>>,
    dirs: BTreeSet<String>,
}

fn parents(p: &str) -> Vec<String> {
    let v: Vec<&str> = p.split('/').collect();
    (1..v.len()).map(|i| v[..i].join("/")).collect()
}

impl Model {
    fn can_hold(&self, p: &str) -> bool {
        !self.dirs.contains(p) && parents(p).iter().all(|d| !self.files.contains_key(d))
    }
    fn put(&mut self, p: &str, b: Vec<u8>) {
        self.dirs.extend(parents(p));
        self.files.insert(p.to_string(), b);
    }
}

const NAMES: &[&str] = &["a", "b", "a.tmp", "a.txt", "a.tmp.txt", ".tmp", "b.log", "d", "é x", "A", "a..b", "tmp"];

fn plain_path(s: &mut Src) -> String {
    let n = s.weighted(&[6, 3, 1]) + 1;
    let mut v = vec![];
    for i in 0..n {
        v.push(if i + 1 < n { *s.pick(&["d", "e", "a.tmp"]) } else { *s.pick(NAMES) });
    }
    v.join("/")
}

fn histories(s: &mut Src, c: &mut Ctx) -> R {
    let t = Tree::new(s);
    let unpriv = Unprivileged::enter();
    let vfs = open(s, c, &t.root);
    let mut m = Model::default();
    let mut script: Vec<String> = vec![];
    let n = s.usize(1, 30);
    let mut writes = 0;
    for _ in 0..n {
        let p = plain_path(s);
        match s.weighted(&[8, 5, 4, 2, 2, 1, 3, 2, 1]) {
            0 => {
                let k = s.usize(0, 3000);
                let b: Vec<u8> = (0..k).map(|i| (i as u8) ^ writes as u8).collect();
                script.push(format!("write {p:?} {k} bytes"));
                let ok = m.can_hold(&p);
                let r = block(vfs.write(&p, &b));
                ensure!(r.is_ok() == ok, "[write] {r:?}, expected success {ok}; {script:?}");
                if ok {
                    m.put(&p, b);
                    writes += 1;
                } else {
                    // A refused write may have made the directories above it.
                    for d in parents(&p) {
                        if m.files.contains_key(&d) { break; }
                        m.dirs.insert(d);
                    }
                }
            }
            1 => {
                let k = s.usize(0, 300);
                let b: Vec<u8> = (0..k).map(|i| (i as u8).wrapping_add(writes as u8)).collect();
                script.push(format!("append {p:?} {k} bytes"));
                let ok = m.can_hold(&p);
                let r = block(vfs.append(&p, &b));
                ensure!(r.is_ok() == ok, "[append] {r:?}, expected success {ok}; {script:?}");
                if ok {
                    let mut old = m.files.get(&p).cloned().unwrap_or_default();
                    old.extend_from_slice(&b);
                    m.put(&p, old);
                    writes += 1;
                } else {
                    for d in parents(&p) {
                        if m.files.contains_key(&d) { break; }
                        m.dirs.insert(d);
                    }
                }
            }
            2 => {
                script.push(format!("read {p:?}"));
                let r = block(vfs.read(&p)).ok();
                ensure!(r == m.files.get(&p).cloned(), "[read] {:?} bytes, expected {:?}; {script:?}", r.map(|b| b.len()), m.files.get(&p).map(|b| b.len()));
            }
            3 => {
                script.push(format!("read text {p:?}"));
                let r = block(vfs.read_to_string(&p)).ok();
                let want = m.files.get(&p).and_then(|b| String::from_utf8(b.clone()).ok());
                ensure!(r == want, "[read text] {:?}, expected {:?}; {script:?}", r.map(|b| b.len()), want.map(|b| b.len()));
            }
            4 => {
                script.push(format!("remove {p:?}"));
                let r = block(vfs.remove(&p));
                ensure!(r.is_ok() == m.files.remove(&p).is_some(), "[remove] {r:?}; {script:?}");
            }
            5 => {
                script.push(format!("create directory {p:?}"));
                let ok = !m.files.contains_key(&p) && parents(&p).iter().all(|d| !m.files.contains_key(d));
                let r = block(vfs.create_dir_all(&p));
                ensure!(r.is_ok() == ok, "[create directory] {r:?}, expected success {ok}; {script:?}");
                for d in parents(&p).into_iter().chain([p.clone()]) {
                    if m.files.contains_key(&d) { break; }
                    m.dirs.insert(d);
                }
            }
            6 => {
                let to = plain_path(s);
                if m.dirs.contains(&p) || m.dirs.contains(&to) {
                    continue;
                }
                script.push(format!("rename {p:?} to {to:?}"));
                let ok = m.files.contains_key(&p) && parents(&to).iter().all(|d| m.dirs.contains(d));
                let r = block(vfs.rename(&p, &to));
                ensure!(r.is_ok() == ok, "[rename] {r:?}, expected success {ok}; {script:?}");
                if ok {
                    let b = m.files.remove(&p).unwrap();
                    m.files.insert(to, b);
                }
            }
            7 => {
                script.push(format!("exists {p:?}"));
                let r = block(vfs.exists(&p)).unwrap_or(false);
                ensure!(r == (m.files.contains_key(&p) || m.dirs.contains(&p)), "[exists] {r}; {script:?}");
            }
            _ => {
                let d = parents(&p).last().cloned().unwrap_or_default();
                script.push(format!("list {d:?}"));
                let r = block(vfs.list_dir(&d));
                if !d.is_empty() && !m.dirs.contains(&d) {
                    ensure!(r.is_err(), "[list] {r:?}; {script:?}");
                    continue;
                }
                let got = r.map_err(|e| Fail { msg: format!("[list] {e}; {script:?}") })?;
                let child = |k: &String| -> Option<String> {
                    let rest = if d.is_empty() { k.as_str() } else { k.strip_prefix(&format!("{d}/"))? };
                    (!rest.contains('/')).then(|| rest.to_string())
                };
                let mut want: Vec<(String, bool)> = m.files.keys().filter_map(|k| child(k).map(|n| (n, false))).chain(m.dirs.iter().filter_map(|k| child(k).map(|n| (n, true)))).collect();
                let mut seen: Vec<(String, bool)> = got.iter().map(|e| (e.name.clone(), e.is_directory)).collect();
                let order: Vec<(bool, String)> = seen.iter().map(|(n, d)| (!d, n.to_lowercase())).collect();
                ensure!(order.windows(2).all(|w| w[0] <= w[1]), "[order] {seen:?}; {script:?}");
                want.sort();
                seen.sort();
                ensure!(seen == want, "[list] {seen:?}, expected {want:?}; {script:?}");
            }
        }
    }
    drop(vfs);
    drop(unpriv);
    c.show(script.join("; "));
    let disk = t.inside();
    let mut want = m.files.clone();
    for d in &m.dirs {
        want.insert(format!("{d}/"), vec![]);
    }
    if disk != want {
        let keys: BTreeSet<_> = disk.keys().chain(want.keys()).filter(|k| disk.get(*k) != want.get(*k)).cloned().collect();
        return fail(format!("[left behind] the root and the history disagree about {keys:?}; {script:?}"));
    }
    ensure!(t.scan_outside() == t.outside, "[escape] changed outside the root; {script:?}");
    c.nontrivial(writes >= 2);
    Ok(())
}

// ------------------------------------------------------------------ replacement

fn replacement(s: &mut Src, c: &mut Ctx) -> R {
    let t = Tree::new(s);
    let name = plain_path(s);
    let old: Option<Vec<u8>> = s.chance(4, 5).then(|| vec![b'o'; 1 + s.usize(0, 5000)]);
    let new = vec![b'n'; s.usize(0, 20000)];
    let full = t.root.join(&name).display().to_string();
    if let Some(b) = &old {
        std::fs::create_dir_all(t.root.join(&name).parent().unwrap()).unwrap();
        std::fs::write(&full, b).unwrap();
    }
    let prefix = format!("{}/", t.root.display());
    sysrec::start(&prefix);
    let vfs = NativeVfs::new(&t.root);
    let r = block(vfs.write(&name, &new));
    let log = sysrec::stop();
    r.map_err(|e| Fail { msg: format!("write {name:?}: {e}") })?;
    let start: Vec<_> = old.iter().map(|b| (full.clone(), b.clone())).collect();
    let mut whole = Disk::with(&start);
    log.iter().for_each(|e| whole.apply(e));
    if !whole.files().iter().any(|(p, b, _)| *p == full && *b == new) {
        c.class("calls not all recorded");
        c.nontrivial(false);
        return Ok(());
    }
    c.show(format!("replace {:?} bytes of {name:?} by {} over {} calls", old.as_ref().map(|b| b.len()), new.len(), log.len()));
    // Every call boundary, and every write stopped part way.
    for cut in 0..=log.len() {
        let mut d = Disk::with(&start);
        log[..cut].iter().for_each(|e| d.apply(e));
        let parts: Vec<usize> = match log.get(cut) {
            Some(Ev::Write { data, .. }) => vec![0, s.usize(0, data.len())],
            _ => vec![0],
        };
        for k in parts {
            let mut d = d.clone();
            if let Some(Ev::Write { h, data }) = log.get(cut) {
                d.write(*h, &data[..k]);
            }
            let f = d.files().into_iter().find(|f| f.0 == full);
            let seen: Vec<Option<Vec<u8>>> = match f {
                None => vec![None],
                // The bytes on disk now, and after a power cut that loses what was not flushed.
                Some((_, b, safe)) => vec![Some(b.clone()), Some(b[..safe.min(b.len())].to_vec())],
            };
            for v in seen {
                ensure!(v == old || v.as_ref() == Some(&new), "[half replaced] after call {cut} ({:?}) the file holds {:?} bytes, neither the old {:?} nor the new {}", log.get(cut.saturating_sub(1)).map(|e| clip(&format!("{e:?}"), 80)), v.map(|b| b.len()), old.as_ref().map(|b| b.len()), new.len());
            }
        }
    }
    c.nontrivial(old.is_some());
    Ok(())
}

/// Writes in flight at the same time to different files.
fn together(s: &mut Src, c: &mut Ctx) -> R {
    let t = Tree::new(s);
    let unpriv = Unprivileged::enter();
    let vfs = open(s, c, &t.root);
    let n = s.usize(2, 4);
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let p = s.pick(NAMES).to_string();
        if !names.contains(&p) {
            names.push(p);
        } else if names.len() >= 2 {
            break;
        }
    }
    let jobs: Vec<(String, Vec<u8>)> = names.iter().enumerate().map(|(i, p)| (p.clone(), vec![b'0' + i as u8; 100 + i])).collect();
    let results = block(async {
        let mut hs = vec![];
        for (p, b) in jobs.clone() {
            let vfs = vfs.clone();
            hs.push(tokio::spawn(async move { vfs.write(&p, &b).await.map_err(|e| e.to_string()) }));
        }
        let mut out = vec![];
        for h in hs {
            out.push(h.await.unwrap_or_else(|e| Err(e.to_string())));
        }
        out
    });
    drop(vfs);
    drop(unpriv);
    c.show(format!("{names:?} written together"));
    c.nontrivial(true);
    for ((p, b), r) in jobs.iter().zip(results) {
        ensure!(r.is_ok(), "[write] {p:?} of {names:?} written together: {r:?}");
        let got = std::fs::read(t.root.join(p)).ok();
        ensure!(got.as_ref() == Some(b), "[mixed up] {p:?} of {names:?} written together holds {:?}", got.map(|g| (g.len(), g.first().copied())));
    }
    Ok(())
}

pub fn c11() -> Suite {
    let mut su = Suite::new("C11", "a path climbs or is absolute; a history writes at least twice; a replaced file existed before");
    su.assume("the root holds no symbolic links");
    su.prop("containment", 6000, 60000, containment);
    su.prop("histories", 4000, 60000, histories);
    su.prop("replacement", 4000, 40000, replacement);
    su.prop("writes together", 3000, 30000, together);
    su
}
