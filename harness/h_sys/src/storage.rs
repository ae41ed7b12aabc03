//! C10: a persistent value reopened after a crash.

use crate::sysrec::{self, Disk, Ev};
use async_trait::async_trait;
use logicaffeine_data::crdt::{GCounter, LWWRegister, Merge, ORSet, PNCounter};
use logicaffeine_system::fs::{DirEntry, NativeVfs, Vfs, VfsError, VfsResult};
use logicaffeine_system::storage::Persistent;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use vcore::*;

// ------------------------------------------------------------------ values

pub trait Value: Merge + serde::Serialize + serde::de::DeserializeOwned + Clone + Default + Send + Sync + 'static {
    fn step(&mut self, what: u64, n: u64);
    fn view(&self) -> String;
}

impl Value for GCounter {
    fn step(&mut self, what: u64, _: u64) {
        self.increment(what % 9 + 1);
    }
    fn view(&self) -> String {
        self.value().to_string()
    }
}

impl Value for PNCounter {
    fn step(&mut self, what: u64, _: u64) {
        if what & 1 == 0 { self.increment(what % 50 + 1) } else { self.decrement(what % 50 + 1) }
    }
    fn view(&self) -> String {
        self.value().to_string()
    }
}

impl Value for ORSet<String> {
    fn step(&mut self, what: u64, _: u64) {
        let k = "k".repeat((what / 2 % 7) as usize * 3);
        if what & 1 == 0 { self.add(k) } else { self.remove(&k) }
    }
    fn view(&self) -> String {
        let mut v: Vec<_> = self.iter().cloned().collect();
        v.sort();
        v.dedup();
        format!("{v:?}")
    }
}

impl Value for LWWRegister<Vec<u8>> {
    fn step(&mut self, what: u64, n: u64) {
        self.set(vec![what as u8; (what % 40) as usize], n + 1);
    }
    fn view(&self) -> String {
        format!("{:?}", self.get())
    }
}

// ------------------------------------------------------------------ crash points of the real files

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(2).build().unwrap();
}

fn block<T>(f: impl Future<Output = T>) -> T {
    RT.with(|r| r.block_on(f))
}

struct Store<T: Value>(Persistent<T>);

impl<T: Value> Store<T> {
    async fn mount(vfs: Arc<dyn Vfs + Send + Sync>) -> Result<Store<T>, VfsError> {
        Ok(Store(Persistent::mount(vfs, "state.lsf").await?))
    }
    async fn mutate(&self, what: u64, n: u64) -> VfsResult<()> {
        self.0.mutate(|v| v.step(what, n)).await
    }
    async fn compact(&self) -> VfsResult<()> {
        self.0.compact().await
    }
    async fn get(&self) -> T {
        self.0.get().await
    }
    async fn maybe(&self, k: u64) -> VfsResult<()> {
        self.0.maybe_compact(k).await.map(|_| ())
    }
}

fn crashes<T: Value>(s: &mut Src, c: &mut Ctx) -> R {
    let base = work_dir("c10");
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    // Views of the state after each update of the history so far, the first being the initial one.
    let mut views = vec![T::default().view()];
    let mut script = vec![];
    let segments = s.usize(1, 4);
    let mut model: T = T::default();
    let mut n = 0u64;
    let mut torn = 0;
    for seg in 0..segments {
        let dir = base.join(format!("seg{seg}"));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        for (p, b) in &files {
            std::fs::write(dir.join(p), b).unwrap();
        }
        let prefix = format!("{}/", dir.display());
        sysrec::start(&prefix);
        let vfs: Arc<dyn Vfs + Send + Sync> = Arc::new(NativeVfs::new(&dir));
        let store = block(Store::<T>::mount(vfs)).map_err(|e| Fail { msg: format!("[mount] segment {seg} does not open after a crash: {e}\n{script:?}") });
        let store = match store {
            Ok(x) => x,
            Err(e) => {
                sysrec::stop();
                return Err(e);
            }
        };
        let got = block(store.get());
        // The history goes on from whichever update the file still holds.
        let at = views.iter().rposition(|v| *v == got.view());
        let Some(at) = at else {
            sysrec::stop();
            return fail(format!("[state] segment {seg} opens with {}, which is none of the states {views:?}\n{script:?}", got.view()));
        };
        views.truncate(at + 1);
        if seg == 0 {
            model = got;
        } else {
            model = block(store.get());
        }
        let first = views.len() - 1;
        let steps = s.usize(1, 8);
        for _ in 0..steps {
            match s.weighted(&[8, 2, 1]) {
                0 => {
                    let what = s.below(100);
                    n += 1;
                    block(store.mutate(what, n)).map_err(|e| Fail { msg: format!("mutate: {e}") })?;
                    model.step(what, n);
                    views.push(model.view());
                    sysrec::ack(views.len() - 1);
                    script.push(format!("{}", views.last().unwrap()));
                }
                1 => {
                    block(store.compact()).map_err(|e| Fail { msg: format!("compact: {e}") })?;
                    script.push("compact".into());
                }
                _ => {
                    let k = s.below(4);
                    block(store.maybe(k)).map_err(|e| Fail { msg: format!("compact: {e}") })?;
                    script.push(format!("compact if more than {k}"));
                }
            }
            let now = block(store.get()).view();
            ensure!(now == model.view(), "[live] the open value shows {now}, expected {}\n{script:?}", model.view());
        }
        let log = sysrec::stop();
        drop(store);
        let name = |p: &str| p.strip_prefix(&prefix).map(|x| x.to_string());
        let start: Vec<(String, Vec<u8>)> = files.iter().map(|(p, b)| (format!("{prefix}{p}"), b.clone())).collect();
        // The recording must account for what is on the real disk.
        let mut whole = Disk::with(&start);
        log.iter().for_each(|e| whole.apply(e));
        let complete = whole.files().iter().all(|(p, b, _)| std::fs::read(p).map(|x| x == *b).unwrap_or(false));
        let cut = s.usize(0, log.len());
        let power = s.flip();
        let mut disk = Disk::with(&start);
        let mut acked = first;
        if complete {
            for e in &log[..cut] {
                disk.apply(e);
                if let Ev::Ack(k) = e {
                    acked = *k;
                }
            }
            if let Some(Ev::Write { h, data }) = log.get(cut) {
                let k = s.usize(0, data.len());
                disk.write(*h, &data[..k]);
                torn += 1;
            }
        } else {
            c.class("calls not all recorded");
            disk = whole;
            acked = views.len() - 1;
        }
        files = vec![];
        for (p, mut b, safe) in disk.files() {
            if power && complete && safe < b.len() {
                // Bytes never flushed may be missing after a power cut.
                let keep = s.usize(safe, b.len());
                b.truncate(keep);
            }
            if let Some(p) = name(&p) {
                files.push((p, b));
            }
        }
        script.push(format!("{} at call {cut} of {} with update {acked} acknowledged", if power { "power cut" } else { "crash" }, log.len()));
        // What reopening shows.
        let back = base.join("back");
        let _ = std::fs::remove_dir_all(&back);
        std::fs::create_dir_all(&back).unwrap();
        for (p, b) in &files {
            std::fs::write(back.join(p), b).unwrap();
        }
        let vfs: Arc<dyn Vfs + Send + Sync> = Arc::new(NativeVfs::new(&back));
        match block(Store::<T>::mount(vfs)) {
            Err(e) => return fail(format!("[reopen] {e}\n{script:?}\nfiles {:?}", files.iter().map(|(p, b)| (p.clone(), b.len())).collect::<Vec<_>>())),
            Ok(st) => {
                let v = block(st.get()).view();
                ensure!(
                    views[acked..].contains(&v),
                    "[lost] reopening shows {v}; acknowledged states start at {}\nall states {views:?}\n{script:?}\nfiles {:?}",
                    views[acked],
                    files.iter().map(|(p, b)| (p.clone(), b.len())).collect::<Vec<_>>()
                );
            }
        }
    }
    c.show(clip(&format!("{script:?}"), 600));
    c.nontrivial(torn > 0 || n >= 3);
    let _ = std::fs::remove_dir_all(&base);
    Ok(())
}

fn crash_points(s: &mut Src, c: &mut Ctx) -> R {
    match s.below(4) {
        0 => crashes::<GCounter>(s, c),
        1 => crashes::<PNCounter>(s, c),
        2 => crashes::<ORSet<String>>(s, c),
        _ => crashes::<LWWRegister<Vec<u8>>>(s, c),
    }
}

// ------------------------------------------------------------------ interleaved updates and compactions

/// An in-memory file system each of whose calls takes effect at one of several polls.
struct Mem {
    files: Mutex<BTreeMap<String, Vec<u8>>>,
}

struct Nap(u32);
impl Future for Nap {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl Mem {
    fn missing(p: &str) -> VfsError {
        VfsError::NotFound(p.to_string())
    }
}

#[async_trait]
impl Vfs for Mem {
    async fn read(&self, path: &str) -> VfsResult<Vec<u8>> {
        Nap(1).await;
        self.files.lock().unwrap().get(path).cloned().ok_or_else(|| Mem::missing(path))
    }
    async fn read_to_string(&self, path: &str) -> VfsResult<String> {
        let b = self.read(path).await?;
        String::from_utf8(b).map_err(|e| VfsError::SerializationError(e.to_string()))
    }
    async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
        Nap(1).await;
        self.files.lock().unwrap().insert(path.to_string(), contents.to_vec());
        Nap(1).await;
        Ok(())
    }
    async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
        Nap(1).await;
        self.files.lock().unwrap().entry(path.to_string()).or_default().extend_from_slice(contents);
        Nap(1).await;
        Ok(())
    }
    async fn exists(&self, path: &str) -> VfsResult<bool> {
        Ok(self.files.lock().unwrap().contains_key(path))
    }
    async fn remove(&self, path: &str) -> VfsResult<()> {
        self.files.lock().unwrap().remove(path).map(|_| ()).ok_or_else(|| Mem::missing(path))
    }
    async fn create_dir_all(&self, _: &str) -> VfsResult<()> {
        Ok(())
    }
    async fn rename(&self, from: &str, to: &str) -> VfsResult<()> {
        Nap(1).await;
        {
            let mut f = self.files.lock().unwrap();
            let b = f.remove(from).ok_or_else(|| Mem::missing(from))?;
            f.insert(to.to_string(), b);
        }
        Nap(1).await;
        Ok(())
    }
    async fn list_dir(&self, _: &str) -> VfsResult<Vec<DirEntry>> {
        Ok(vec![])
    }
}

fn run_now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    let mut cx = Context::from_waker(w);
    for _ in 0..100_000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("a store call never finishes");
}

fn interleaved(s: &mut Src, c: &mut Ctx) -> R {
    let mem = Arc::new(Mem { files: Mutex::new(BTreeMap::new()) });
    let vfs: Arc<dyn Vfs + Send + Sync> = mem.clone();
    let store = Arc::new(run_now(Store::<GCounter>::mount(vfs)).map_err(|e| Fail { msg: e.to_string() })?);
    let tasks = s.usize(2, 4);
    let acked = Arc::new(Mutex::new(0u64));
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = Result<(), String>>>>>> = vec![];
    let mut plan = vec![];
    let mut total = 0;
    for t in 0..tasks {
        let k = s.usize(1, 4);
        let ops: Vec<bool> = (0..k).map(|_| s.chance(2, 3)).collect();
        total += ops.iter().filter(|x| **x).count() as u64;
        plan.push(ops.iter().map(|u| if *u { "update" } else { "compact" }).collect::<Vec<_>>());
        let (store, acked) = (store.clone(), acked.clone());
        futs.push(Some(Box::pin(async move {
            for u in ops {
                if u {
                    // Each update adds one, whoever makes it.
                    store.mutate(0, t as u64).await.map_err(|e| e.to_string())?;
                    *acked.lock().unwrap() += 1;
                } else {
                    store.compact().await.map_err(|e| e.to_string())?;
                }
                Nap(1).await;
            }
            Ok(())
        })));
    }
    c.show(format!("tasks {plan:?}"));
    let w = std::task::Waker::noop();
    let mut cx = Context::from_waker(w);
    let mut trace = vec![];
    let crash_at = s.usize(0, 40);
    let mut polls = 0usize;
    let check = |acked: u64, total: u64, trace: &Vec<usize>| -> R {
        let copy = Arc::new(Mem { files: Mutex::new(mem.files.lock().unwrap().clone()) });
        let vfs: Arc<dyn Vfs + Send + Sync> = copy;
        let again = run_now(Store::<GCounter>::mount(vfs)).map_err(|e| Fail { msg: format!("[reopen] {e}; {plan:?} polled {trace:?}") })?;
        let v = run_now(again.get()).value();
        ensure!(v >= acked && v <= total, "[lost] {v} updates after reopening, {acked} acknowledged; {plan:?} polled {trace:?}");
        Ok(())
    };
    while futs.iter().any(|f| f.is_some()) {
        let live: Vec<usize> = (0..futs.len()).filter(|&i| futs[i].is_some()).collect();
        let i = *s.pick(&live);
        trace.push(i);
        polls += 1;
        if let Poll::Ready(r) = futs[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            futs[i] = None;
            r.map_err(|e| Fail { msg: e })?;
        }
        if polls == crash_at {
            check(*acked.lock().unwrap(), total, &trace)?;
        }
        ensure!(polls < 5000, "[stuck] {plan:?} polled {trace:?}");
    }
    check(total, total, &trace)?;
    let live = run_now(store.get()).value();
    ensure!(live == total, "[live] {live} of {total}; {plan:?} polled {trace:?}");
    c.nontrivial(total > 0 && plan.iter().any(|p| p.contains(&"compact")));
    Ok(())
}

// ------------------------------------------------------------------ damaged journals

fn damaged(s: &mut Src, c: &mut Ctx) -> R {
    let mem = Arc::new(Mem { files: Mutex::new(BTreeMap::new()) });
    let vfs: Arc<dyn Vfs + Send + Sync> = mem.clone();
    let store = run_now(Store::<PNCounter>::mount(vfs)).map_err(|e| Fail { msg: e.to_string() })?;
    let mut views = vec!["0".to_string()];
    let n = s.usize(1, 12);
    for i in 0..n {
        let what = s.below(100);
        run_now(store.mutate(what, i as u64)).map_err(|e| Fail { msg: e.to_string() })?;
        views.push(run_now(store.get()).view());
        if s.chance(1, 8) {
            run_now(store.compact()).map_err(|e| Fail { msg: e.to_string() })?;
        }
    }
    let mut b = mem.files.lock().unwrap().get("state.lsf").cloned().unwrap_or_default();
    ensure!(!b.is_empty(), "no journal after {n} updates");
    let hits = s.usize(1, 3);
    let at0 = s.usize(0, b.len() - 1);
    let mut what = vec![];
    for k in 0..hits {
        // A burst no longer than the checksum is certain to notice.
        let at = (at0 + k).min(b.len() - 1);
        let x = s.int(1, 255) as u8;
        b[at] ^= x;
        what.push((at, x));
    }
    if what.len() > 1 && b == mem.files.lock().unwrap()["state.lsf"] {
        return Ok(());
    }
    if s.chance(1, 6) {
        let k = s.usize(0, b.len());
        b.truncate(k);
    }
    let copy = Arc::new(Mem { files: Mutex::new(BTreeMap::from([("state.lsf".to_string(), b)])) });
    let vfs: Arc<dyn Vfs + Send + Sync> = copy;
    c.nontrivial(true);
    c.show(format!("{n} updates, bytes {what:?} changed"));
    match run_now(Store::<PNCounter>::mount(vfs)) {
        Err(_) => c.class("refused"),
        Ok(st) => {
            let v = run_now(st.get()).view();
            ensure!(views.contains(&v), "[wrong data] {v} read from a damaged journal of the states {views:?} (bytes changed {what:?})");
            c.class("an earlier state");
        }
    }
    Ok(())
}

pub fn c10() -> Suite {
    let mut su = Suite::new("C10", "the history has at least three updates or the crash tears a write; for interleavings, updates race a compaction; every damaged journal");
    su.assume("a crash keeps every byte written before it; a power cut may lose any suffix of the bytes not flushed; renames take effect at once and in order");
    su.prop("crash points", 6000, 80000, crash_points);
    su.prop("interleavings", 20000, 300000, interleaved);
    su.prop("damaged journals", 20000, 300000, damaged);
    su
}
