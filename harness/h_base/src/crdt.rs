//! C08 (convergence and value semantics of replicated types) and C09 (delta exchange).
//!
//! Oracle: an operation-based reference. Every local update gets an id and records the set of
//! updates its replica knew when it was made; the value of a replica must be a function of the set
//! of updates it knows, given by the type's promise.

use logicaffeine_data::crdt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vcore::*;

type Known = BTreeSet<usize>;

#[derive(Clone, Debug)]
struct Op<P> {
    past: Known,
    what: P,
}

/// Shared driver: run a random history of local updates and merges, checking after every step that
/// the touched replica shows `model(ops, known)`.
struct World<T, P> {
    reps: Vec<T>,
    known: Vec<Known>,
    ops: Vec<Op<P>>,
    log: String,
    merges: usize,
}

impl<T: Merge + Clone, P: Clone + std::fmt::Debug> World<T, P> {
    fn new(reps: Vec<T>) -> Self {
        let n = reps.len();
        World { reps, known: vec![Known::new(); n], ops: vec![], log: String::new(), merges: 0 }
    }
    fn record(&mut self, r: usize, what: P) {
        let id = self.ops.len();
        self.log.push_str(&format!("r{r}:{what:?}; "));
        self.ops.push(Op { past: self.known[r].clone(), what });
        self.known[r].insert(id);
    }
    fn merge(&mut self, from: usize, to: usize) {
        let o = self.reps[from].clone();
        self.reps[to].merge(&o);
        let k = self.known[from].clone();
        self.known[to].extend(k);
        self.merges += 1;
        self.log.push_str(&format!("r{from}->r{to}; "));
    }
    /// Merge laws at the current point, judged by the shown value.
    fn laws<V: PartialEq + std::fmt::Debug>(&self, s: &mut Src, value: &dyn Fn(&T) -> V) -> R {
        let n = self.reps.len();
        let (a, b, c) = (s.usize(0, n - 1), s.usize(0, n - 1), s.usize(0, n - 1));
        let m = |x: &T, y: &T| {
            let mut z = x.clone();
            z.merge(y);
            z
        };
        let (ra, rb, rc) = (&self.reps[a], &self.reps[b], &self.reps[c]);
        ensure_eq!(value(&m(ra, ra)), value(ra), "merge not idempotent ({})", self.log);
        ensure_eq!(value(&m(ra, rb)), value(&m(rb, ra)), "merge not commutative ({})", self.log);
        ensure_eq!(value(&m(&m(ra, rb), rc)), value(&m(ra, &m(rb, rc))), "merge not associative ({})", self.log);
        ensure_eq!(value(&m(&m(ra, rb), rb)), value(&m(ra, rb)), "repeated merge changes value ({})", self.log);
        Ok(())
    }
}

fn ids(s: &mut Src, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    while v.len() < n {
        let x = match s.below(3) {
            0 => s.below(10),
            1 => 100 - s.below(50),
            _ => s.u64() | 1,
        };
        if v.contains(&x) {
            v.push(v.iter().max().unwrap().wrapping_add(1 + v.len() as u64));
            if v[..v.len() - 1].contains(v.last().unwrap()) {
                v.pop();
            }
        } else {
            v.push(x);
        }
    }
    v
}

/// A run: steps alternate local op / merge with generated weights.
fn history<T: Merge + Clone, P: Clone + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(
    s: &mut Src,
    ctx: &mut Ctx,
    reps: Vec<T>,
    mut local: impl FnMut(&mut Src, usize, &mut T, &mut dyn FnMut(P)),
    model: impl Fn(&[Op<P>], &Known) -> V,
    value: impl Fn(&T) -> V,
) -> R {
    let n = reps.len();
    let mut w = World::new(reps);
    let steps = s.usize(2, if ctx.thorough { 60 } else { 30 });
    for _ in 0..steps {
        let r = s.usize(0, n - 1);
        if s.chance(2, 5) && n > 1 {
            let mut f = s.usize(0, n - 1);
            if f == r {
                f = (f + 1) % n;
            }
            w.merge(f, r);
        } else {
            let mut emitted: Vec<P> = vec![];
            let mut rep = w.reps[r].clone();
            local(s, r, &mut rep, &mut |p| emitted.push(p));
            w.reps[r] = rep;
            for p in emitted {
                w.record(r, p);
            }
        }
        ensure_eq!(value(&w.reps[r]), model(&w.ops, &w.known[r]), "replica {r} after [{}]", w.log);
    }
    w.laws(s, &value)?;
    // full exchange in a generated order: everyone must agree with the reference
    let mut order: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).filter(move |b| *b != a).map(move |b| (a, b))).collect();
    for i in (1..order.len()).rev() {
        let j = s.usize(0, i);
        order.swap(i, j);
    }
    for _ in 0..2 {
        for (a, b) in &order {
            w.merge(*a, *b);
        }
    }
    let all: Known = (0..w.ops.len()).collect();
    for r in 0..n {
        ensure_eq!(value(&w.reps[r]), model(&w.ops, &all), "final value of replica {r} after [{}]", w.log);
    }
    ctx.nontrivial(w.ops.len() >= 3 && w.merges >= 2);
    ctx.show(clip(&w.log, 900));
    Ok(())
}

fn nreps(s: &mut Src) -> usize {
    s.usize(2, 4)
}

fn gcounter(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = nreps(s);
    let id = ids(s, n);
    let reps = id.iter().map(|i| GCounter::with_replica_id(*i)).collect();
    history(
        s, ctx, reps,
        |s, _r, rep: &mut GCounter, emit| {
            let a = match s.below(4) { 0 => 0, 1 => s.below(10), 2 => s.below(1 << 20), _ => s.below(1 << 40) };
            rep.increment(a);
            emit(a);
        },
        |ops, k| k.iter().map(|i| ops[*i].what).sum::<u64>(),
        |r| r.value(),
    )
}

fn pncounter(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = nreps(s);
    let id = ids(s, n);
    let reps = id.iter().map(|i| PNCounter::with_replica_id(*i)).collect();
    history(
        s, ctx, reps,
        |s, _r, rep: &mut PNCounter, emit| {
            let a = if s.flip() { s.below(10) } else { s.below(1 << 40) };
            if s.flip() {
                rep.decrement(a);
                emit(-(a as i64));
            } else {
                rep.increment(a);
                emit(a as i64);
            }
        },
        |ops, k| k.iter().map(|i| ops[*i].what).sum::<i64>(),
        |r| r.value(),
    )
}

fn lww(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = nreps(s);
    let reps: Vec<LWWRegister<i64>> = (0..n).map(|_| LWWRegister::new(0, 0)).collect();
    history(
        s, ctx, reps,
        |s, r, rep: &mut LWWRegister<i64>, emit| {
            // timestamps are unique per writer (a total order), later than what the writer saw
            let ts = (rep.timestamp() / 8 + 1 + s.below(6)) * 8 + r as u64;
            let v = s.int(-50, 50);
            rep.set(v, ts);
            emit((ts, v));
        },
        |ops, k| k.iter().map(|i| ops[*i].what).max().map(|p| (p.0, p.1)).unwrap_or((0, 0)),
        |r| (r.timestamp(), *r.get()),
    )
}

fn maximal<P>(ops: &[Op<P>], k: &Known) -> Vec<usize> {
    k.iter().copied().filter(|i| !k.iter().any(|j| ops[*j].past.contains(i))).collect()
}

fn mvreg(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = nreps(s);
    let id = ids(s, n);
    let reps = id.iter().map(|i| MVRegister::<u64>::new(*i)).collect();
    let mut next = 0u64;
    history(
        s, ctx, reps,
        |s, _r, rep: &mut MVRegister<u64>, emit| {
            next += 1;
            if s.flip() { rep.set(next) } else { rep.resolve(next) }
            emit(next);
        },
        |ops, k| {
            let mut v: Vec<u64> = maximal(ops, k).into_iter().map(|i| ops[i].what).collect();
            v.sort();
            let c = v.len() > 1;
            (v, c)
        },
        |r| {
            let mut v: Vec<u64> = r.values().into_iter().copied().collect();
            v.sort();
            (v, r.has_conflict())
        },
    )
}

#[derive(Clone, Debug, PartialEq)]
enum SetOp {
    Add(u8),
    Rem(u8),
}

fn orset(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = nreps(s);
    let id = ids(s, n);
    let reps = id.iter().map(|i| ORSet::<u8, AddWins>::new(*i)).collect();
    let dom = s.usize(1, 4) as u8;
    history(
        s, ctx, reps,
        |s, _r, rep: &mut ORSet<u8, AddWins>, emit| {
            let e = s.below(dom as u64) as u8;
            if s.chance(2, 5) {
                rep.remove(&e);
                emit(SetOp::Rem(e));
            } else {
                if s.flip() { rep.add(e) } else { rep.insert(e) }
                emit(SetOp::Add(e));
            }
        },
        |ops, k| {
            let mut out = BTreeSet::new();
            for i in k {
                if let SetOp::Add(e) = ops[*i].what {
                    let removed = k.iter().any(|j| ops[*j].what == SetOp::Rem(e) && ops[*j].past.contains(i));
                    if !removed {
                        out.insert(e);
                    }
                }
            }
            let n = out.len();
            (out, n)
        },
        |r| {
            let v: BTreeSet<u8> = r.iter().copied().collect();
            for e in 0..6u8 {
                assert_eq!(r.contains(&e), v.contains(&e));
            }
            assert_eq!(r.is_empty(), v.is_empty());
            (v, r.len())
        },
    )
}

/// Remove-wins with two replicas: an element is present iff it has a live addition and no removal
/// that was concurrent with it.
fn remove_wins_pair(s: &mut Src, ctx: &mut Ctx) -> R {
    // One concurrent round on top of a common base: base adds, then both sides act, then merge.
    let mut a = ORSet::<u8, RemoveWins>::new(1);
    let mut b = ORSet::<u8, RemoveWins>::new(2);
    let mut log = String::new();
    let dom = s.usize(1, 4) as u8;
    let rounds = s.usize(1, 5);
    let mut any_conc = false;
    for _ in 0..rounds {
        let base: BTreeSet<u8> = a.iter().copied().collect();
        // per side: last effective action per element that was present at the base
        let mut act: [BTreeMap<u8, Vec<bool>>; 2] = [BTreeMap::new(), BTreeMap::new()];
        for side in 0..2 {
            for _ in 0..s.usize(0, 4) {
                let e = s.below(dom as u64) as u8;
                let add = s.flip();
                let rep = if side == 0 { &mut a } else { &mut b };
                log.push_str(&format!("{}{}{e}; ", if side == 0 { "a" } else { "b" }, if add { "+" } else { "-" }));
                if add { rep.add(e) } else { rep.remove(&e) }
                act[side].entry(e).or_default().push(add);
            }
        }
        let merged_a = { let mut x = a.clone(); x.merge(&b); x };
        let merged_b = { let mut x = b.clone(); x.merge(&a); x };
        log.push_str("sync; ");
        let va: BTreeSet<u8> = merged_a.iter().copied().collect();
        let vb: BTreeSet<u8> = merged_b.iter().copied().collect();
        ensure_eq!(va, vb, "remove-wins merge not commutative ({log})");
        for e in 0..dom {
            let x0 = act[0].get(&e).cloned().unwrap_or_default();
            let x1 = act[1].get(&e).cloned().unwrap_or_default();
            let last = |x: &Vec<bool>| x.last().copied();
            let expect = match (last(&x0), last(&x1)) {
                (None, None) => Some(base.contains(&e)),
                (Some(f), None) | (None, Some(f)) => Some(f || false),
                (Some(true), Some(true)) => {
                    // a removal in the middle of a side is still concurrent with the other side's
                    // addition, but the side itself re-added: left open
                    Some(true)
                }
                (Some(false), Some(false)) => Some(false),
                (Some(true), Some(false)) | (Some(false), Some(true)) => {
                    any_conc = true;
                    // removal of an element present at the base, concurrent with a re-add
                    if base.contains(&e) && !x0.is_empty() && !x1.is_empty() {
                        let adder = if last(&x0) == Some(true) { &x0 } else { &x1 };
                        if adder.contains(&false) { None } else { Some(false) }
                    } else {
                        None
                    }
                }
            };
            if let Some(x) = expect {
                ensure_eq!(va.contains(&e), x, "element {e} after merge ({log})");
            }
        }
        a = merged_a;
        b = merged_b;
    }
    ctx.nontrivial(any_conc);
    ctx.show(log);
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum MapOp {
    Put(u8, i64),
    Bump(u8, i64),
    Rem(u8),
}

fn ormap(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = nreps(s);
    let id = ids(s, n);
    let reps = id.iter().map(|i| ORMap::<u8, PNCounter>::new(*i)).collect();
    let dom = s.usize(1, 3) as u8;
    history(
        s, ctx, reps,
        |s, _r, rep: &mut ORMap<u8, PNCounter>, emit| {
            let e = s.below(dom as u64) as u8;
            let d = s.int(-20, 20);
            let bump = |c: &mut PNCounter| if d >= 0 { c.increment(d as u64) } else { c.decrement(d.unsigned_abs()) };
            match s.below(5) {
                0 => {
                    rep.remove(&e);
                    emit(MapOp::Rem(e));
                }
                1 => {
                    if let Some(c) = rep.get_mut(&e) {
                        bump(c);
                        emit(MapOp::Bump(e, d));
                    }
                }
                _ => {
                    bump(rep.get_or_insert(e));
                    emit(MapOp::Put(e, d));
                }
            }
        },
        |ops, k| {
            let mut out = BTreeMap::new();
            for e in 0..4u8 {
                let present = k.iter().any(|i| {
                    matches!(ops[*i].what, MapOp::Put(x, _) if x == e)
                        && !k.iter().any(|j| ops[*j].what == MapOp::Rem(e) && ops[*j].past.contains(i))
                });
                if present {
                    let v: i64 = k
                        .iter()
                        .map(|i| match ops[*i].what {
                            MapOp::Put(x, d) | MapOp::Bump(x, d) if x == e => d,
                            _ => 0,
                        })
                        .sum();
                    out.insert(e, v);
                }
            }
            let n = out.len();
            (out, n)
        },
        |r| {
            let v: BTreeMap<u8, i64> = r.iter().map(|(k, c)| (*k, c.value())).collect();
            for e in 0..4u8 {
                assert_eq!(r.get(&e).map(|c| c.value()), v.get(&e).copied());
                assert_eq!(r.contains_key(&e), v.contains_key(&e));
            }
            assert_eq!(r.keys().count(), v.len());
            (v, r.len())
        },
    )
}

trait Seq: Merge + Clone {
    fn mk(id: u64) -> Self;
    fn app(&mut self, v: u32);
    fn before(&mut self, i: usize, v: u32);
    fn after(&mut self, i: usize, v: u32);
    fn rem(&mut self, i: usize);
    fn vec(&self) -> Vec<u32>;
    fn at(&self, i: usize) -> Option<u32>;
    fn ln(&self) -> usize;
}
macro_rules! seq {
    ($t:ident) => {
        impl Seq for $t<u32> {
            fn mk(id: u64) -> Self { $t::new(id) }
            fn app(&mut self, v: u32) { self.append(v) }
            fn before(&mut self, i: usize, v: u32) { self.insert_before(i, v) }
            fn after(&mut self, i: usize, v: u32) { self.insert_after(i, v) }
            fn rem(&mut self, i: usize) { self.remove(i) }
            fn vec(&self) -> Vec<u32> {
                let v = self.to_vec();
                assert_eq!(self.iter().copied().collect::<Vec<_>>(), v);
                v
            }
            fn at(&self, i: usize) -> Option<u32> { self.get(i).copied() }
            fn ln(&self) -> usize { self.len() }
        }
    };
}
seq!(RGA);
seq!(YATA);

/// Strong list specification: contents are insertions minus deletions, local edits land where asked,
/// and any two elements appear in one order everywhere, for ever.
fn sequence<T: Seq>(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = nreps(s);
    let id = ids(s, n);
    let mut reps: Vec<T> = id.iter().map(|i| T::mk(*i)).collect();
    let mut ins: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
    let mut del: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
    let mut before: HashMap<(u32, u32), bool> = HashMap::new();
    let mut next = 0u32;
    let mut log = String::new();
    let mut merges = 0;
    let steps = s.usize(2, if ctx.thorough { 50 } else { 26 });
    let check = |reps: &Vec<T>, r: usize, ins: &Vec<BTreeSet<u32>>, del: &Vec<BTreeSet<u32>>, before: &mut HashMap<(u32, u32), bool>, log: &str| -> R {
        let v = reps[r].vec();
        let set: BTreeSet<u32> = v.iter().copied().collect();
        let want: BTreeSet<u32> = ins[r].difference(&del[r]).copied().collect();
        ensure_eq!(set.len(), v.len(), "duplicate element ({log})");
        ensure_eq!(set, want, "contents of replica {r} ({log})");
        ensure_eq!(reps[r].ln(), v.len(), "len ({log})");
        for (i, x) in v.iter().enumerate() {
            ensure_eq!(reps[r].at(i), Some(*x), "get({i}) ({log})");
            for y in &v[i + 1..] {
                ensure!(!before.contains_key(&(*y, *x)), "elements {x},{y} appear in both orders ({log})");
                before.insert((*x, *y), true);
            }
        }
        ensure_eq!(reps[r].at(v.len()), None, "get past end ({log})");
        Ok(())
    };
    for _ in 0..steps {
        let r = s.usize(0, n - 1);
        let cur = reps[r].vec();
        match s.weighted(&[3, 3, 3, 2, 5]) {
            k @ (0 | 1 | 2) => {
                next += 1;
                let mut want = cur.clone();
                match k {
                    0 => {
                        reps[r].app(next);
                        want.push(next);
                        log.push_str(&format!("r{r}:append {next}; "));
                    }
                    1 => {
                        let i = s.usize(0, cur.len());
                        reps[r].before(i, next);
                        want.insert(i, next);
                        log.push_str(&format!("r{r}:before {i} {next}; "));
                    }
                    _ if cur.is_empty() => {
                        reps[r].app(next);
                        want.push(next);
                        log.push_str(&format!("r{r}:append {next}; "));
                    }
                    _ => {
                        let i = s.usize(0, cur.len() - 1);
                        reps[r].after(i, next);
                        want.insert(i + 1, next);
                        log.push_str(&format!("r{r}:after {i} {next}; "));
                    }
                }
                ins[r].insert(next);
                ensure_eq!(reps[r].vec(), want, "local insertion did not land where asked ({log})");
            }
            3 => {
                if cur.is_empty() {
                    continue;
                }
                let i = s.usize(0, cur.len() - 1);
                reps[r].rem(i);
                del[r].insert(cur[i]);
                let mut want = cur.clone();
                want.remove(i);
                log.push_str(&format!("r{r}:remove {i}; "));
                ensure_eq!(reps[r].vec(), want, "local removal ({log})");
            }
            _ => {
                let mut f = s.usize(0, n - 1);
                if f == r {
                    f = (f + 1) % n;
                }
                let o = reps[f].clone();
                reps[r].merge(&o);
                let (a, b) = (ins[f].clone(), del[f].clone());
                ins[r].extend(a);
                del[r].extend(b);
                merges += 1;
                log.push_str(&format!("r{f}->r{r}; "));
            }
        }
        check(&reps, r, &ins, &del, &mut before, &log)?;
    }
    for _ in 0..2 {
        for a in 0..n {
            for b in 0..n {
                if a != b {
                    let o = reps[a].clone();
                    reps[b].merge(&o);
                    let (x, y) = (ins[a].clone(), del[a].clone());
                    ins[b].extend(x);
                    del[b].extend(y);
                }
            }
        }
    }
    for r in 0..n {
        check(&reps, r, &ins, &del, &mut before, &log)?;
        ensure_eq!(reps[r].vec(), reps[0].vec(), "replicas differ after full exchange ({log})");
    }
    ctx.nontrivial(next >= 4 && merges >= 2);
    ctx.show(clip(&log, 900));
    Ok(())
}

fn vclock(s: &mut Src, ctx: &mut Ctx) -> R {
    use logicaffeine_data::crdt::causal::VClock;
    let gen = |s: &mut Src| {
        let mut c = VClock::new();
        let mut m: BTreeMap<u64, u64> = BTreeMap::new();
        for _ in 0..s.usize(0, 8) {
            let r = s.below(4);
            let got = c.increment(r);
            *m.entry(r).or_insert(0) += 1;
            assert_eq!(got, m[&r]);
        }
        (c, m)
    };
    let (a, ma) = gen(s);
    let (b, mb) = gen(s);
    let g = |m: &BTreeMap<u64, u64>, r| m.get(&r).copied().unwrap_or(0);
    let dom = |x: &BTreeMap<u64, u64>, y: &BTreeMap<u64, u64>| (0..4).all(|r| g(x, r) >= g(y, r));
    ensure_eq!(a.dominates(&b), dom(&ma, &mb), "dominates {ma:?} {mb:?}");
    ensure_eq!(b.dominates(&a), dom(&mb, &ma), "dominates {mb:?} {ma:?}");
    ensure_eq!(a.concurrent(&b), !dom(&ma, &mb) && !dom(&mb, &ma), "concurrent {ma:?} {mb:?}");
    let mut c = a.clone();
    c.merge_vclock(&b);
    for r in 0..5 {
        ensure_eq!(c.get(r), g(&ma, r).max(g(&mb, r)), "merge {ma:?} {mb:?}");
    }
    ctx.nontrivial(!ma.is_empty() && !mb.is_empty());
    ctx.show(format!("{ma:?} {mb:?}"));
    Ok(())
}

pub fn c08() -> Suite {
    let mut s = Suite::new("C08", "a history is non-trivial when it has at least three local updates and two merges (conflict pair for remove-wins, two non-empty clocks for clocks)");
    s.assume("timestamps given to last-writer registers are totally ordered (the caller's duty by the type's documentation)");
    s.assume("remove-wins sets are checked between two replicas; see known_findings.txt for three");
    s.known("remove-wins-three-replicas", || {
        let mut a = ORSet::<u8, RemoveWins>::new(1);
        let mut b = ORSet::<u8, RemoveWins>::new(2);
        let mut c = ORSet::<u8, RemoveWins>::new(3);
        a.add(7);
        b.merge(&a);
        b.remove(&7);
        c.add(7);
        let mut ac_b = a.clone();
        ac_b.merge(&c);
        ac_b.merge(&b);
        let mut cb = c.clone();
        cb.merge(&b);
        let mut a_cb = a.clone();
        a_cb.merge(&cb);
        ensure_eq!(ac_b.contains(&7), a_cb.contains(&7), "remove-wins merge depends on grouping: (A+C)+B vs A+(C+B)");
        Ok(())
    });
    s.prop("gcounter", 36000, 1000_000, gcounter);
    s.prop("pncounter", 36000, 1000_000, pncounter);
    s.prop("lww", 48000, 1000_000, lww);
    s.prop("mvregister", 48000, 1000_000, mvreg);
    s.prop("orset_add_wins", 72000, 2000_000, orset);
    s.prop("orset_remove_wins_pair", 48000, 1000_000, remove_wins_pair);
    s.prop("ormap", 60000, 1500_000, ormap);
    s.prop("rga", 48000, 1200_000, sequence::<RGA<u32>>);
    s.prop("yata", 48000, 1200_000, sequence::<YATA<u32>>);
    s.prop("vclock", 48000, 1000_000, vclock);
    s
}

// ------------------------------------------------------------------------------------------- C09

use logicaffeine_data::crdt::causal::VClock;

/// Histories of additive updates exchanged by deltas only. A delta is always computed against a
/// version the receiver really had; it may then be lost, delayed, duplicated or overtaken.
fn delta_history<T: DeltaCrdt + Clone, V: PartialEq + std::fmt::Debug>(
    s: &mut Src,
    ctx: &mut Ctx,
    reps: Vec<T>,
    mut local: impl FnMut(&mut Src, usize, &mut T) -> String,
    value: impl Fn(&T) -> V,
) -> R {
    let n = reps.len();
    let mut reps = reps;
    // shadow replicas exchange full states at the very end: the reference
    let mut log = String::new();
    let mut net: Vec<(usize, T::Delta)> = vec![];
    let (mut ops, mut delivered, mut dup) = (0, 0, 0);
    let mut old_versions: Vec<Vec<VClock>> = vec![vec![VClock::new()]; n];
    for _ in 0..s.usize(3, 40) {
        let r = s.usize(0, n - 1);
        match s.weighted(&[4, 3, 3, 1]) {
            0 => {
                let d = local(s, r, &mut reps[r]);
                log.push_str(&format!("r{r}:{d}; "));
                ops += 1;
                old_versions[r].push(reps[r].version());
            }
            1 => {
                let to = (r + 1 + s.usize(0, n - 2)) % n;
                // a version the receiver had at some time
                let vs = &old_versions[to];
                let since = if s.flip() { reps[to].version() } else { vs[s.usize(0, vs.len() - 1)].clone() };
                match reps[r].delta_since(&since) {
                    Some(d) => {
                        net.push((to, d));
                        log.push_str(&format!("send r{r}->r{to}; "));
                    }
                    None => {
                        ensure!(since.dominates(&reps[r].version()), "no delta although the peer is behind ({log})");
                    }
                }
            }
            2 => {
                if net.is_empty() {
                    continue;
                }
                let i = s.usize(0, net.len() - 1);
                let (to, d) = net[i].clone();
                if s.chance(1, 4) {
                    dup += 1;
                } else {
                    net.remove(i);
                }
                reps[to].apply_delta(&d);
                delivered += 1;
                let v1 = value(&reps[to]);
                reps[to].apply_delta(&d);
                ensure_eq!(value(&reps[to]), v1, "applying a delta twice changes the value ({log})");
                old_versions[to].push(reps[to].version());
                log.push_str(&format!("deliver #{i} to r{to}; "));
            }
            _ => {
                if !net.is_empty() {
                    let i = s.usize(0, net.len() - 1);
                    net.remove(i);
                    log.push_str(&format!("lose #{i}; "));
                }
            }
        }
    }
    // reference: full-state merge of everything
    let mut reference = reps[0].clone();
    for r in &reps[1..] {
        reference.merge(r);
    }
    // catch up by deltas only, two rounds in a generated direction
    let start = s.usize(0, n - 1);
    for _ in 0..2 {
        for k in 0..n {
            for j in 0..n {
                let (a, b) = ((start + k) % n, (start + j) % n);
                if a != b {
                    if let Some(d) = reps[a].delta_since(&reps[b].version()) {
                        reps[b].apply_delta(&d);
                    }
                }
            }
        }
    }
    for (to, d) in &net {
        reps[*to].apply_delta(d);
    }
    for r in 0..n {
        ensure_eq!(value(&reps[r]), value(&reference), "replica {r} after delta catch-up differs from full-state merge ({log})");
        ensure!(reps[r].version().dominates(&reference.version()), "version of replica {r} behind after catch-up ({log})");
        ensure!(reference.delta_since(&reps[r].version()).is_none(), "still a delta pending after catch-up ({log})");
    }
    ctx.nontrivial(ops >= 3 && delivered >= 1);
    if dup > 0 {
        ctx.class("duplicated");
    }
    ctx.show(clip(&log, 900));
    Ok(())
}

fn d_pn(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(2, 4);
    let id = ids(s, n);
    delta_history(
        s, ctx, id.iter().map(|i| PNCounter::with_replica_id(*i)).collect(),
        |s, _, r: &mut PNCounter| {
            let a = s.below(100);
            if s.flip() { r.increment(a); format!("+{a}") } else { r.decrement(a); format!("-{a}") }
        },
        |r| r.value(),
    )
}
fn d_mv(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(2, 4);
    let id = ids(s, n);
    let mut next = 0;
    delta_history(
        s, ctx, id.iter().map(|i| MVRegister::<u64>::new(*i)).collect(),
        |_s, _, r: &mut MVRegister<u64>| {
            next += 1;
            r.set(next);
            format!("set {next}")
        },
        |r| {
            let mut v: Vec<u64> = r.values().into_iter().copied().collect();
            v.sort();
            v
        },
    )
}
fn d_set<B: SetBias>(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(2, 4);
    let id = ids(s, n);
    delta_history(
        s, ctx, id.iter().map(|i| ORSet::<u8, B>::new(*i)).collect(),
        |s, _, r: &mut ORSet<u8, B>| {
            let e = s.below(6) as u8;
            r.add(e);
            format!("+{e}")
        },
        |r| r.iter().copied().collect::<BTreeSet<u8>>(),
    )
}
fn d_map(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(2, 4);
    let id = ids(s, n);
    delta_history(
        s, ctx, id.iter().map(|i| ORMap::<u8, PNCounter>::new(*i)).collect(),
        |s, _, r: &mut ORMap<u8, PNCounter>| {
            let e = s.below(4) as u8;
            let d = s.below(20);
            r.get_or_insert(e).increment(d);
            format!("{e}+={d}")
        },
        |r| r.iter().map(|(k, c)| (*k, c.value())).collect::<BTreeMap<_, _>>(),
    )
}
fn d_seq<T: Seq + DeltaCrdt>(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(2, 4);
    let id = ids(s, n);
    let mut next = 0;
    delta_history(
        s, ctx, id.iter().map(|i| T::mk(*i)).collect(),
        |s, _, r: &mut T| {
            next += 1;
            let l = r.ln();
            let mut want = r.vec();
            let d = match s.below(3) {
                1 => { let i = s.usize(0, l); r.before(i, next); want.insert(i, next); format!("before {i} {next}") }
                2 if l > 0 => { let i = s.usize(0, l - 1); r.after(i, next); want.insert(i + 1, next); format!("after {i} {next}") }
                _ => { r.app(next); want.push(next); format!("append {next}") }
            };
            assert_eq!(r.vec(), want, "local insertion did not land where asked: {d}");
            d
        },
        |r| r.vec(),
    )
}

/// Removals travel by full-state merge; late deltas made before the removal must not resurrect.
fn d_set_removals(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(2, 4);
    let id = ids(s, n);
    let mut reps: Vec<ORSet<u8, AddWins>> = id.iter().map(|i| ORSet::new(*i)).collect();
    // model: per replica set of (elem, add id) alive and set of add ids seen
    #[derive(Clone, Default)]
    struct M {
        alive: BTreeSet<(u8, usize)>,
        seen: BTreeSet<usize>,
    }
    fn mm(a: &mut M, b: &M) {
        let keep: BTreeSet<(u8, usize)> = a
            .alive
            .iter()
            .filter(|x| b.alive.contains(x) || !b.seen.contains(&x.1))
            .chain(b.alive.iter().filter(|x| a.alive.contains(x) || !a.seen.contains(&x.1)))
            .copied()
            .collect();
        a.alive = keep;
        a.seen.extend(b.seen.iter().copied());
    }
    let mut ms: Vec<M> = vec![M::default(); n];
    let mut net: Vec<(usize, <ORSet<u8, AddWins> as DeltaCrdt>::Delta, M)> = vec![];
    let mut adds = 0usize;
    let mut owner: Vec<(usize, u64)> = vec![];
    let mut ctr = vec![0u64; n];
    let mut log = String::new();
    let (mut rem, mut del) = (0, 0);
    for _ in 0..s.usize(3, 40) {
        let r = s.usize(0, n - 1);
        let e = s.below(4) as u8;
        match s.weighted(&[4, 2, 3, 3, 3]) {
            0 => {
                reps[r].add(e);
                ms[r].alive.insert((e, adds));
                ms[r].seen.insert(adds);
                ctr[r] += 1;
                owner.push((r, ctr[r]));
                adds += 1;
                log.push_str(&format!("r{r}+{e}; "));
            }
            1 => {
                reps[r].remove(&e);
                ms[r].alive.retain(|x| x.0 != e);
                rem += 1;
                log.push_str(&format!("r{r}-{e}; "));
            }
            2 => {
                let to = (r + 1 + s.usize(0, n - 2)) % n;
                let since = reps[to].version();
                if let Some(d) = reps[r].delta_since(&since) {
                    let alive: BTreeSet<(u8, usize)> =
                        ms[r].alive.iter().filter(|x| owner[x.1].1 > since.get(id[owner[x.1].0])).copied().collect();
                    let seen = alive.iter().map(|x| x.1).collect();
                    net.push((to, d, M { alive, seen }));
                    log.push_str(&format!("send r{r}->r{to}; "));
                }
            }
            3 => {
                if net.is_empty() {
                    continue;
                }
                let i = s.usize(0, net.len() - 1);
                let (to, d, m) = net[i].clone();
                if s.chance(2, 3) {
                    net.remove(i);
                }
                reps[to].apply_delta(&d);
                mm(&mut ms[to], &m);
                del += 1;
                log.push_str(&format!("deliver #{i} r{to}; "));
            }
            _ => {
                let f = (r + 1 + s.usize(0, n - 2)) % n;
                let o = reps[f].clone();
                reps[r].merge(&o);
                let m = ms[f].clone();
                mm(&mut ms[r], &m);
                log.push_str(&format!("full r{f}->r{r}; "));
            }
        }
        for k in 0..n {
            let got: BTreeSet<u8> = reps[k].iter().copied().collect();
            let want: BTreeSet<u8> = ms[k].alive.iter().map(|x| x.0).collect();
            ensure_eq!(got, want, "replica {k} ({log})");
        }
    }
    ctx.nontrivial(rem >= 1 && del >= 1 && adds >= 2);
    ctx.show(clip(&log, 900));
    Ok(())
}

/// The bounded delta log: an answer is complete, or it is refused.
fn delta_buffer(s: &mut Src, ctx: &mut Ctx) -> R {
    let cap = s.usize(1, 5);
    let mut buf: DeltaBuffer<u32> = DeltaBuffer::new(cap);
    let mut all: Vec<(VClock, u32)> = vec![];
    let mut cur = VClock::new();
    let mut log = format!("cap {cap}: ");
    for i in 0..s.usize(0, 14) as u32 {
        // the log of one replica that also merges others: versions grow monotonically
        for _ in 0..s.usize(1, 2) {
            let r = s.below(3);
            cur.increment(r);
            log.push_str(&format!("+{r} "));
        }
        buf.push(cur.clone(), i);
        log.push_str("push; ");
        all.push((cur.clone(), i));
        ensure!(buf.len() <= cap, "log holds {} > {cap}", buf.len());
    }
    let mut refused = 0;
    for _ in 0..s.usize(1, 6) {
        // peer version: some pushed version, a mix, or arbitrary
        let mut v = VClock::new();
        if s.flip() && !all.is_empty() {
            v = all[s.usize(0, all.len() - 1)].0.clone();
        }
        for _ in 0..s.usize(0, 3) {
            v.increment(s.below(3));
        }
        match buf.deltas_since(&v) {
            None => {
                refused += 1;
                ensure!(!buf.can_serve(&v), "can_serve disagrees ({log})");
                ensure!(all.len() > cap, "refused although nothing was evicted ({log} peer {v:?})");
            }
            Some(ds) => {
                ensure!(buf.can_serve(&v), "can_serve disagrees ({log})");
                let want: Vec<u32> = all.iter().filter(|(w, _)| !v.dominates(w)).map(|(_, d)| *d).collect();
                ensure_eq!(ds, want, "incomplete or excessive delta list for peer {v:?} ({log})");
            }
        }
    }
    ctx.nontrivial(all.len() > cap || refused > 0);
    ctx.show(log);
    Ok(())
}

pub fn c09() -> Suite {
    let mut s = Suite::new("C09", "a history is non-trivial when it has at least three updates and one delivered delta (at least one eviction or refusal for the bounded log)");
    s.assume("a delta is always requested against a version the receiver had at some time");
    s.assume("removals travel by full-state merge, as the sequence type documents");
    s.prop("pncounter", 36000, 1000_000, d_pn);
    s.prop("mvregister", 36000, 1000_000, d_mv);
    s.prop("orset", 48000, 1200_000, d_set::<AddWins>);
    s.prop("orset_remove_wins", 36000, 1000_000, d_set::<RemoveWins>);
    s.prop("ormap", 36000, 1000_000, d_map);
    s.prop("rga", 48000, 1200_000, d_seq::<RGA<u32>>);
    s.prop("yata", 48000, 1200_000, d_seq::<YATA<u32>>);
    s.prop("orset_removals", 60000, 1500_000, d_set_removals);
    s.prop("delta_buffer", 60000, 1500_000, delta_buffer);
    s
}
