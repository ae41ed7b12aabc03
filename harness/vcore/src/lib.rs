//! Choice-sequence property-testing engine shared by every harness in /verif.
//!
//! A case is a pure function of a sequence of recorded choices (`Src`).  Failing cases are
//! shrunk by editing that sequence, so every generator shrinks for free and a replay file is
//! just the list of choices.  Cases run in worker processes so that a crash of the code under
//! test (SIGSEGV in JIT code, stack overflow, abort) is attributed to the case that caused it.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Choice source
// ---------------------------------------------------------------------------------------------

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

/// The single source of nondeterminism of a case.
pub struct Src {
    rng: u64,
    fixed: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: seed, fixed: None, pos: 0, rec: Vec::new(), log: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: 0, fixed: Some(choices), pos: 0, rec: Vec::new(), log: None }
    }
    /// A value in `0..n`; 0 is always the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.fixed {
            None => {
                let r = splitmix(&mut self.rng);
                if n == u64::MAX { r } else { ((r as u128 * n as u128) >> 64) as u64 }
            }
            Some(f) => {
                let v = f.get(self.pos).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(l) = &mut self.log {
            l.write_all(&v.to_le_bytes()).ok();
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// Uniform integer in `lo..=hi`, simplest = the value closest to zero in the range.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > u64::MAX as u128 {
            return self.u64() as i64;
        }
        let v = self.below(span as u64) as i128;
        // order: 0, 1, -1, 2, -2 … when the range straddles zero, else from the near end
        if lo <= 0 && hi >= 0 {
            let small = (-(lo as i128)).min(hi as i128);
            if v <= 2 * small {
                let k = (v + 1) / 2;
                (if v % 2 == 1 { k } else { -k }) as i64
            } else {
                let k = v - small;
                (if (hi as i128) > small { k } else { -k }) as i64
            }
        } else if lo > 0 {
            (lo as i128 + v) as i64
        } else {
            (hi as i128 - v) as i64
        }
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        ws.len() - 1
    }
    /// i64 with heavy weight on boundaries.
    pub fn i64_edge(&mut self) -> i64 {
        match self.weighted(&[6, 5, 3, 4, 3, 2]) {
            0 => self.int(-10, 10),
            1 => self.int(-1000, 1000),
            2 => {
                let k = self.below(63) as u32;
                let base = 1i64.wrapping_shl(k);
                let d = self.int(-2, 2);
                let v = base.wrapping_add(d);
                if self.flip() { v.wrapping_neg() } else { v }
            }
            3 => *self.pick(&[
                0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i32::MAX as i64,
                i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, u32::MAX as i64,
                u32::MAX as i64 + 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 3037000499,
                3037000500, -3037000500, 4611686018427387904, -4611686018427387905, 255, 256,
                -128, 127, 65535, 65536, 10_000_000_000,
            ]),
            4 => self.u64() as i64,
            _ => {
                let bits = self.below(64) as u32;
                (self.u64() >> bits) as i64
            }
        }
    }
    pub fn u64_edge(&mut self) -> u64 {
        match self.below(3) {
            0 => self.below(20),
            1 => self.i64_edge() as u64,
            _ => {
                let s = self.below(64) as u32;
                self.u64() >> s
            }
        }
    }
    pub fn f64_any(&mut self) -> f64 {
        match self.weighted(&[5, 5, 3, 3, 2]) {
            0 => self.int(-100, 100) as f64,
            1 => self.int(-100_000, 100_000) as f64 / *self.pick(&[2.0, 4.0, 10.0, 3.0, 7.0, 100.0, 1000.0]),
            2 => *self.pick(&[
                0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE,
                f64::EPSILON, 1e300, -1e300, 1e-300, 9007199254740992.0, 9007199254740993.0,
                1e15, 1e16, 1e17, 1e21, 1e22, 123456789.123456789, 9.223372036854775807e18, -9.3e18, 4.9e-324,
            ]),
            3 => self.i64_edge() as f64,
            _ => {
                let f = f64::from_bits(self.u64());
                if f.is_finite() { f } else { 2.5 }
            }
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    /// Length with a geometric-ish distribution, max `hi`.
    pub fn len(&mut self, hi: usize) -> usize {
        match self.weighted(&[6, 3, 1]) {
            0 => self.usize(0, hi.min(5)),
            1 => self.usize(0, hi.min(20)),
            _ => self.usize(0, hi),
        }
    }
    pub fn text(&mut self, max: usize) -> String {
        let n = self.len(max);
        let style = self.below(4);
        (0..n)
            .map(|_| match style {
                0 => *self.pick(&['a', 'b', 'c', 'x', 'y', ' ', '1', '9']),
                1 => (b' ' + self.below(95) as u8) as char,
                2 => *self.pick(&['a', 'é', 'ß', '→', '∀', '日', '😀', '\n', '\t', '"', '\\', '\u{0}', '\u{301}', '٣', '\u{2028}', '\r', '𝔽']),
                _ => loop {
                    if let Some(c) = char::from_u32(self.below(0x11_0000) as u32) {
                        break c;
                    }
                },
            })
            .collect()
    }
}

// ---------------------------------------------------------------------------------------------
// Case context
// ---------------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Ctx {
    pub repr: String,
    pub nontrivial: bool,
    pub classes: Vec<String>,
    pub key: Option<u64>,
    pub thorough: bool,
    /// Extra evaluations done inside this case beyond one.
    pub inner: u64,
}

impl Ctx {
    /// The human-readable case, written into samples and replay files.
    pub fn show(&mut self, s: impl Into<String>) {
        self.repr = s.into();
    }
    pub fn class(&mut self, c: &str) {
        self.classes.push(c.to_string());
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial = b;
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::Fail { msg: format!($($arg)*) }); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail { msg: format!("{}: left={} right={}", format!($($arg)*), $crate::clip(&format!("{:?}", a), 600), $crate::clip(&format!("{:?}", b), 600)) });
        }
    }};
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…[{} bytes]", &s[..e], s.len())
    }
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = prev);
    r.map_err(|e| {
        let hooked = PANIC_MSG.with(|m| m.borrow_mut().take());
        hooked.unwrap_or_else(|| {
            e.downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into())
        })
    })
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
        if !quiet {
            old(info);
        }
    }));
}

pub type CaseFn = Box<dyn Fn(&mut Src, &mut Ctx) -> R>;

pub struct Prop {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    pub workers: usize,
    pub stack_mb: usize,
    pub case_secs: u64,
}

pub struct Suite {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub props: Vec<Prop>,
    /// Specific inputs of recorded defects: (signature, probe). A probe returns `Err` while the
    /// defect is present.
    pub known: Vec<(&'static str, Box<dyn Fn() -> R>)>,
    pub mem_gb: u64,
}

impl Suite {
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        Suite { id, rule, assumptions: vec![], props: vec![], known: vec![], mem_gb: 6 }
    }
    pub fn assume(&mut self, a: &'static str) {
        self.assumptions.push(a);
    }
    pub fn prop(&mut self, name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Src, &mut Ctx) -> R + 'static) -> &mut Prop {
        self.props.push(Prop { name, quick, thorough, run: Box::new(f), workers: 8, stack_mb: 64, case_secs: 120 });
        self.props.last_mut().unwrap()
    }
    pub fn known(&mut self, sig: &'static str, probe: impl Fn() -> R + 'static) {
        self.known.push((sig, Box::new(probe)));
    }
}

fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut x = seed ^ fnv(prop.as_bytes()).rotate_left(17);
    let a = splitmix(&mut x);
    let mut y = a ^ i.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut y)
}

fn run_case(p: &Prop, src: &mut Src, thorough: bool) -> (Ctx, R) {
    let mut ctx = Ctx { thorough, ..Default::default() };
    let r = guarded(|| (p.run)(src, &mut ctx));
    let r = match r {
        Ok(r) => r,
        Err(m) => fail(m),
    };
    (ctx, r)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
}

fn scratch_dir() -> PathBuf {
    let d = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| format!("/tmp/verif-run-{}", std::process::id()));
    let p = PathBuf::from(d);
    std::fs::create_dir_all(&p).ok();
    p
}

/// A per-process scratch directory removed by the parent when the check ends.
pub fn work_dir(tag: &str) -> PathBuf {
    let p = scratch_dir().join(format!("{tag}-{}", std::process::id()));
    std::fs::create_dir_all(&p).ok();
    p
}

fn set_limits(mem_gb: u64) {
    unsafe {
        let lim = libc::rlimit { rlim_cur: mem_gb << 30, rlim_max: mem_gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn on_big_stack<T: Send + 'static>(mb: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(mb << 20).spawn(f).unwrap().join().unwrap()
}

struct SendPtr<T>(*const T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(&self) -> &T {
        unsafe { &*self.0 }
    }
}

/// Worker: run cases `w, w+W, …` of one prop, streaming results to `out`.
fn worker(p: &'static Prop, seed: u64, n: u64, w: u64, of: u64, thorough: bool, out: PathBuf, skip: Vec<u64>) {
    use std::os::unix::fs::FileExt;
    let prog = std::fs::File::create(out.with_extension("prog")).unwrap();
    let mut st = Stats::default();
    let mut i = w;
    let mut failure = String::new();
    while i < n {
        prog.write_all_at(&(i + 1).to_le_bytes(), 0).ok();
        if skip.contains(&i) {
            i += of;
            continue;
        }
        unsafe { libc::alarm(p.case_secs as u32) };
        let mut src = Src::random(case_seed(seed, p.name, i));
        let (ctx, r) = run_case(p, &mut src, thorough);
        unsafe { libc::alarm(0) };
        st.evals += 1 + ctx.inner;
        for c in &ctx.classes {
            *st.classes.entry(c.clone()).or_default() += 1;
        }
        if ctx.nontrivial {
            let mut kb = Vec::new();
            for c in &src.rec {
                kb.extend_from_slice(&c.to_le_bytes());
            }
            st.keys.insert(ctx.key.unwrap_or_else(|| fnv(&kb)));
            st.nontrivial += 1;
            if st.samples.len() < 2 && !ctx.repr.is_empty() {
                st.samples.push(clip(&ctx.repr, 900));
            }
        }
        if let Err(f) = r {
            failure = format!("FAIL {} {}\n", i, f.msg.replace('\n', "\\n"));
            break;
        }
        i += of;
    }
    prog.write_all_at(&u64::MAX.to_le_bytes(), 0).ok();
    let mut o = String::new();
    o.push_str(&failure);
    o.push_str(&format!("EVALS {}\nNT {}\n", st.evals, st.nontrivial));
    for (c, k) in &st.classes {
        o.push_str(&format!("CLASS {} {}\n", k, c));
    }
    for s in &st.samples {
        o.push_str(&format!("SAMPLE {}\n", jstr(s)));
    }
    let ks: Vec<String> = st.keys.iter().map(|k| format!("{k:x}")).collect();
    o.push_str(&format!("KEYS {}\n", ks.join(" ")));
    std::fs::write(out, o).unwrap();
}

fn parse_choices(path: &Path) -> (String, Vec<u64>) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let grab = |k: &str| -> String {
        let i = t.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
        t[i..].to_string()
    };
    let prop = grab("prop").trim_start().trim_start_matches('"').split('"').next().unwrap().to_string();
    let ch = grab("choices");
    let ch = &ch[ch.find('[').unwrap() + 1..ch.find(']').unwrap()];
    let v = ch.split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    (prop, v)
}

fn choices_json(c: &[u64]) -> String {
    let v: Vec<String> = c.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

fn replay_json(prop: &str, choices: &[u64], msg: &str, repr: &str) -> String {
    format!(
        "{{\n \"prop\": {},\n \"choices\": {},\n \"message\": {},\n \"case\": {}\n}}\n",
        jstr(prop), choices_json(choices), jstr(msg), jstr(repr)
    )
}

/// Candidate edits for the shrinker, cheapest first.
fn shrink_with(mut best: Vec<u64>, mut still_fails: impl FnMut(&[u64]) -> Option<Vec<u64>>, budget: Duration, max_tries: usize) -> Vec<u64> {
    let t0 = Instant::now();
    let mut tries = 0usize;
    let mut progress = true;
    macro_rules! attempt {
        ($cand:expr) => {{
            tries += 1;
            if t0.elapsed() > budget || tries > max_tries {
                return best;
            }
            let c: Vec<u64> = $cand;
            match still_fails(&c) {
                Some(rec) if (rec.len(), &rec) < (best.len(), &best) => {
                    best = rec;
                    true
                }
                _ => false,
            }
        }};
    }
    while progress {
        progress = false;
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + chunk <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + chunk);
                if attempt!(c) {
                    progress = true;
                } else {
                    // delete and lower the nearest preceding "count" choice
                    let mut done = false;
                    if i > 0 && best[i - 1] > 0 {
                        let mut c = best.clone();
                        c.drain(i..i + chunk);
                        c[i - 1] -= 1;
                        if attempt!(c) {
                            progress = true;
                            done = true;
                        }
                    }
                    if !done {
                        i += chunk.max(1);
                    }
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if attempt!(c) {
                    progress = true;
                } else {
                    // binary search downward
                    let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            progress = true;
                            hi = best.get(i).copied().unwrap_or(0).min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

/// A message may open with `[tag] `; shrinking then keeps to failures with the same tag.
fn tag_of(msg: &str) -> Option<String> {
    let rest = msg.strip_prefix('[')?;
    rest.split_once(']').map(|(t, _)| t.to_string())
}

fn sig_name(sig: i32) -> &'static str {
    match sig {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGABRT => "SIGABRT",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        libc::SIGALRM => "SIGALRM",
        libc::SIGKILL => "SIGKILL",
        _ => "signal",
    }
}

enum ChildEnd {
    Ok,
    Crash(i32),
    Other(String),
}

fn classify(status: std::process::ExitStatus) -> ChildEnd {
    use std::os::unix::process::ExitStatusExt;
    if status.success() {
        ChildEnd::Ok
    } else if let Some(s) = status.signal() {
        match s {
            libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => ChildEnd::Crash(s),
            _ => ChildEnd::Other(format!("{} ({})", sig_name(s), s)),
        }
    } else {
        ChildEnd::Other(format!("{status}"))
    }
}

/// Entry point of every harness binary: `bin <PROP> [--tier T] [--replay F] [--only name] …`.
pub fn main_with(suites: Vec<Suite>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let suites: &'static Vec<Suite> = Box::leak(Box::new(suites));
    if id == "--list" {
        for s in suites {
            for p in &s.props {
                println!("{} {} {} {}", s.id, p.name, p.quick, p.thorough);
            }
        }
        std::process::exit(0);
    }
    let suite = match suites.iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("no suite {id}");
            std::process::exit(2)
        }
    };
    let thorough = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() == Some("thorough");
    let seed: u64 = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);

    if let Some(w) = get("--worker") {
        set_limits(suite.mem_gb);
        let parts: Vec<String> = w.split('/').map(String::from).collect();
        let p: &'static Prop = suite.props.iter().find(|p| p.name == parts[0]).unwrap();
        let n: u64 = parts[1].parse().unwrap();
        let wi: u64 = parts[2].parse().unwrap();
        let of: u64 = parts[3].parse().unwrap();
        let out = PathBuf::from(get("--out").unwrap());
        let skip: Vec<u64> = get("--skip").unwrap_or_default().split(',').filter_map(|s| s.parse().ok()).collect();
        let sp = SendPtr(p as *const Prop);
        on_big_stack(p.stack_mb, move || {
            let p: &'static Prop = unsafe { &*(sp.get() as *const Prop) };
            worker(p, seed, n, wi, of, thorough, out, skip)
        });
        std::process::exit(0);
    }
    if let Some(f) = get("--one") {
        // run one case from a choices file: exit 0 pass, 1 fail (message on stdout)
        set_limits(suite.mem_gb);
        let (pn, ch) = parse_choices(Path::new(&f));
        let p: &'static Prop = suite.props.iter().find(|p| p.name == pn).expect("prop");
        unsafe { libc::alarm(p.case_secs as u32) };
        let sp = SendPtr(p as *const Prop);
        let (repr, rec, r) = on_big_stack(p.stack_mb, move || {
            let p: &'static Prop = unsafe { &*(sp.get() as *const Prop) };
            let mut s = Src::replay(ch);
            let (c, r) = run_case(p, &mut s, thorough);
            (c.repr, s.rec, r)
        });
        match r {
            Ok(()) => {
                println!("PASS\n{}", clip(&repr, 4000));
                std::process::exit(0)
            }
            Err(f) => {
                println!("FAIL {}\nREC {}\n{}", f.msg, choices_json(&rec), clip(&repr, 4000));
                std::process::exit(1)
            }
        }
    }
    if let Some(pn) = get("--record") {
        // re-run one generated case, logging every choice as it is made (survives a crash)
        set_limits(suite.mem_gb);
        let p: &'static Prop = suite.props.iter().find(|p| p.name == pn).expect("prop");
        let i: u64 = get("--index").unwrap().parse().unwrap();
        unsafe { libc::alarm(p.case_secs as u32) };
        let log = std::fs::File::create(get("--out").unwrap()).unwrap();
        let sp = SendPtr(p as *const Prop);
        on_big_stack(p.stack_mb, move || {
            let p: &'static Prop = unsafe { &*(sp.get() as *const Prop) };
            let mut src = Src::random(case_seed(seed, p.name, i));
            src.log = Some(log);
            let _ = run_case(p, &mut src, thorough);
        });
        std::process::exit(0);
    }
    if let Some(f) = get("--shrink") {
        // in-process shrink of a choices file; writes the shrunk choices to --out
        set_limits(suite.mem_gb);
        let (pn, ch) = parse_choices(Path::new(&f));
        let p: &'static Prop = suite.props.iter().find(|p| p.name == pn).expect("prop");
        let sp = SendPtr(p as *const Prop);
        let outp = get("--out").unwrap();
        on_big_stack(p.stack_mb, move || {
            let p: &'static Prop = unsafe { &*(sp.get() as *const Prop) };
            let mut src = Src::replay(ch);
            let (_, r) = run_case(p, &mut src, thorough);
            let tag = match &r {
                Ok(()) => std::process::exit(3),
                Err(f) => tag_of(&f.msg),
            };
            let start = src.rec.clone();
            let write = |rec: &[u64], msg: &str, repr: &str| {
                std::fs::write(&outp, replay_json(p.name, rec, msg, repr)).unwrap();
            };
            let mut first = true;
            shrink_with(
                start,
                |c| {
                    unsafe { libc::alarm(p.case_secs as u32) };
                    let mut s = Src::replay(c.to_vec());
                    let (cx, r) = run_case(p, &mut s, thorough);
                    match r {
                        Err(f) if tag_of(&f.msg) != tag => None,
                        Err(f) => {
                            let better = first || {
                                let (_, cur) = parse_choices(Path::new(&outp));
                                (s.rec.len(), &s.rec) < (cur.len(), &cur)
                            };
                            first = false;
                            if better {
                                write(&s.rec, &f.msg, &cx.repr);
                            }
                            Some(s.rec)
                        }
                        Ok(()) => None,
                    }
                },
                Duration::from_secs(60),
                20_000,
            );
        });
        std::process::exit(0);
    }

    // ------------------------------------------------------------------ parent
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let verif = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let scratch = scratch_dir();
    std::env::set_var("VERIF_SCRATCH", &scratch);
    let tier = if thorough { "thorough" } else { "quick" };

    if let Some(f) = get("--replay") {
        let o = Command::new(&exe).arg(suite.id).args(["--one", &f, "--tier", tier]).output().unwrap();
        print!("{}", String::from_utf8_lossy(&o.stdout));
        eprint!("{}", String::from_utf8_lossy(&o.stderr));
        std::fs::remove_dir_all(&scratch).ok();
        match classify(o.status) {
            ChildEnd::Ok => std::process::exit(0),
            ChildEnd::Crash(s) => {
                println!("CRASH {}", sig_name(s));
                println!("VIOLATION property={} replay={}", suite.id, f);
                std::process::exit(1)
            }
            ChildEnd::Other(_) if o.status.code() == Some(1) => {
                println!("VIOLATION property={} replay={}", suite.id, f);
                std::process::exit(1)
            }
            ChildEnd::Other(e) => {
                println!("ERROR {e}");
                std::process::exit(2)
            }
        }
    }

    let mut violations: Vec<(String, PathBuf, String)> = vec![];
    let mut errors: Vec<String> = vec![];

    // recorded defects: must be listed in known_findings.txt to be tolerated
    let kf = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let mut known_lines: Vec<String> = vec![];
    for (sig, probe) in &suite.known {
        let r = match guarded(probe) {
            Ok(r) => r,
            Err(m) => fail(m),
        };
        if let Err(f) = r {
            let listed = kf.lines().any(|l| l.starts_with("known:") && l.contains(&format!("property={} ", suite.id)) && l.contains(&format!("[{sig}]")));
            if listed {
                known_lines.push(format!("KNOWN-FINDING: property={} [{}] {}", suite.id, sig, clip(&f.msg.replace('\n', " "), 300)));
            } else {
                let rp = verif.join("evidence").join(format!("{}-{}.replay.json", suite.id, sig));
                std::fs::create_dir_all(rp.parent().unwrap()).ok();
                std::fs::write(&rp, format!("{{\n \"prop\": {},\n \"choices\": [],\n \"message\": {}\n}}\n", jstr(sig), jstr(&f.msg))).ok();
                violations.push((sig.to_string(), rp, f.msg));
            }
        }
    }
    for l in &known_lines {
        println!("{l}");
    }

    let only = get("--only");
    let mut tot = Stats::default();
    let mut per_prop: Vec<String> = vec![];
    for p in &suite.props {
        if let Some(o) = &only {
            if p.name != o {
                continue;
            }
        }
        let tp = Instant::now();
        let mut n = if thorough { p.thorough } else { p.quick };
        if let Some(k) = get("--cases") {
            n = k.parse().unwrap();
        }
        let nw = (p.workers as u64).min(n.max(1));
        let mut kids = vec![];
        for w in 0..nw {
            let out = scratch.join(format!("{}-{}.out", p.name, w));
            let errf = std::fs::File::create(out.with_extension("err")).unwrap();
            let kid = Command::new(&exe)
                .arg(suite.id)
                .args(["--worker", &format!("{}/{}/{}/{}", p.name, n, w, nw)])
                .args(["--tier", tier, "--seed", &seed.to_string()])
                .arg("--out")
                .arg(&out)
                .env("VERIF_SCRATCH", &scratch)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::from(errf))
                .spawn()
                .expect("spawn worker");
            kids.push((w, out, kid));
        }
        let mut st = Stats::default();
        let mut fails: Vec<(u64, String, bool)> = vec![];
        for (w, out, mut kid) in kids {
            let status = kid.wait().unwrap();
            let prog = std::fs::read(out.with_extension("prog")).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            let err = std::fs::read_to_string(out.with_extension("err")).unwrap_or_default();
            let tail: String = err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
            match classify(status) {
                ChildEnd::Ok => {}
                ChildEnd::Crash(s) => {
                    if prog > 0 && prog != u64::MAX {
                        fails.push((prog - 1, format!("process died with {}: {}", sig_name(s), clip(&tail, 400)), true));
                    } else {
                        errors.push(format!("{} worker {w} died with {} outside a case: {tail}", p.name, sig_name(s)));
                    }
                    continue;
                }
                ChildEnd::Other(e) => {
                    errors.push(format!("{} worker {w} case {}: {e}: {}", p.name, prog.wrapping_sub(1), clip(&tail, 400)));
                    continue;
                }
            }
            let t = std::fs::read_to_string(&out).unwrap_or_default();
            for l in t.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "FAIL" => {
                        let (i, m) = v.split_once(' ').unwrap();
                        fails.push((i.parse().unwrap(), m.to_string(), false));
                    }
                    "EVALS" => st.evals += v.parse::<u64>().unwrap(),
                    "NT" => st.nontrivial += v.parse::<u64>().unwrap(),
                    "CLASS" => {
                        let (n, c) = v.split_once(' ').unwrap();
                        *st.classes.entry(c.to_string()).or_default() += n.parse::<u64>().unwrap();
                    }
                    "SAMPLE" => {
                        if st.samples.len() < 3 {
                            st.samples.push(v.to_string());
                        }
                    }
                    "KEYS" => st.keys.extend(v.split(' ').filter_map(|s| u64::from_str_radix(s, 16).ok())),
                    _ => {}
                }
            }
        }
        fails.sort();
        if let Some((i, msg, crash)) = fails.first().cloned() {
            // shrink and write the replay file
            std::fs::create_dir_all(verif.join("evidence")).ok();
            let rp = verif.join("evidence").join(format!("{}-{}.replay.json", suite.id, p.name));
            let rec = scratch.join("rec.bin");
            let init = scratch.join("init.json");
            let _ = Command::new(&exe)
                .arg(suite.id)
                .args(["--record", p.name, "--index", &i.to_string(), "--seed", &seed.to_string(), "--tier", tier])
                .arg("--out")
                .arg(&rec)
                .stderr(Stdio::null())
                .stdout(Stdio::null())
                .status();
            let bytes = std::fs::read(&rec).unwrap_or_default();
            let choices: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            std::fs::write(&init, replay_json(p.name, &choices, &msg, "")).ok();
            std::fs::copy(&init, &rp).ok();
            if crash {
                // the case kills its process: shrink with one process per candidate
                let cand = scratch.join("cand.json");
                let best = shrink_with(
                    choices.clone(),
                    |c| {
                        std::fs::write(&cand, replay_json(p.name, c, "", "")).ok();
                        let o = Command::new(&exe).arg(suite.id).args(["--tier", tier]).arg("--one").arg(&cand).output().ok()?;
                        matches!(classify(o.status), ChildEnd::Crash(_)).then(|| c.to_vec())
                    },
                    Duration::from_secs(60),
                    400,
                );
                std::fs::write(&rp, replay_json(p.name, &best, &msg, "")).ok();
            } else {
                let out = scratch.join("shrunk.json");
                let o = Command::new(&exe)
                    .arg(suite.id)
                    .arg("--shrink")
                    .arg(&init)
                    .args(["--tier", tier])
                    .arg("--out")
                    .arg(&out)
                    .stderr(Stdio::null())
                    .stdout(Stdio::null())
                    .spawn();
                if let Ok(mut k) = o {
                    let t = Instant::now();
                    while !matches!(k.try_wait(), Ok(Some(_))) {
                        if t.elapsed() > Duration::from_secs(100) {
                            k.kill().ok();
                            k.wait().ok();
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(50));
                    }
                }
                if out.exists() {
                    std::fs::copy(&out, &rp).ok();
                }
            }
            violations.push((p.name.to_string(), rp, msg));
        }
        per_prop.push(format!(
            "{}: {{\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}",
            jstr(p.name),
            st.evals,
            st.nontrivial,
            st.keys.len(),
            tp.elapsed().as_secs_f64(),
            st.classes.iter().map(|(c, k)| format!("{}: {}", jstr(c), k)).collect::<Vec<_>>().join(", ")
        ));
        println!("{} {}: evaluations={} nontrivial={} distinct={} {:.1}s", suite.id, p.name, st.evals, st.nontrivial, st.keys.len(), tp.elapsed().as_secs_f64());
        tot.evals += st.evals;
        tot.nontrivial += st.nontrivial;
        let tag = fnv(p.name.as_bytes());
        tot.keys.extend(st.keys.iter().map(|k| k ^ tag));
        for s in st.samples.into_iter().take(2) {
            if tot.samples.len() < 16 {
                tot.samples.push(format!("{{\"prop\": {}, \"case\": {}}}", jstr(p.name), s));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if only.is_none() {
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"per_prop\": {{{}}},\n  \"known_findings\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            jstr(suite.id), jstr(tier), seed, tot.evals, tot.keys.len(), jstr(suite.rule),
            per_prop.join(",\n   "),
            known_lines.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(", "),
            tot.samples.join(",\n   "),
            suite.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "),
            wall, violations.len()
        );
        std::fs::create_dir_all(verif.join("evidence")).ok();
        std::fs::write(verif.join("evidence").join(format!("{}.json", suite.id)), ev).expect("evidence");
    }
    std::fs::remove_dir_all(&scratch).ok();
    for (p, rp, m) in &violations {
        println!("violation in {p}: {}", clip(m, 1500));
        println!("VIOLATION property={} replay={}", suite.id, rp.display());
    }
    if !violations.is_empty() {
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {e}");
        }
        std::process::exit(2);
    }
    println!("{}: held on {} cases ({} distinct non-trivial) in {:.1}s", suite.id, tot.evals, tot.keys.len(), wall);
    std::io::stdout().flush().ok();
    std::process::exit(0)
}
