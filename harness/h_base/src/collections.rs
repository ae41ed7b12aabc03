//! C20: the collections, integers and text operations that programs run on.
use logicaffeine_base::{arena::Arena, intern::Interner, union_find::UnionFind};
use logicaffeine_data::indexing::resolve_logos_index;
use logicaffeine_data::wire::*;
use logicaffeine_data::*;
use num_bigint::BigInt as NB;
use num_traits::{Pow, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashMap};
use vcore::*;

fn key(s: &mut Src, pool: &[i64]) -> i64 {
    if s.chance(3, 4) { *s.pick(pool) } else { s.i64_edge() }
}

macro_rules! int_map_history {
    ($s:expr, $c:expr, $M:ty, $name:expr, $gen:expr, $val:expr) => {{
        let cap = *$s.pick(&[0usize, 1, 3, 8, 100]);
        let mut m = if $s.flip() { <$M>::new() } else { <$M>::with_capacity(cap) };
        let mut r: BTreeMap<i64, i64> = BTreeMap::new();
        let n = $s.usize(0, if $c.thorough { 600 } else { 250 });
        let mut log = vec![];
        for _ in 0..n {
            let k = $gen($s);
            if $s.chance(2, 3) {
                let v = $val($s);
                log.push(format!("set {k}={v}"));
                m.insert(k, v);
                r.insert(k, v);
            } else {
                log.push(format!("get {k}"));
                ensure_eq!(m.get(&k), r.get(&k).copied(), "{} get {k} after {}", $name, clip(&log.join(", "), 400));
            }
            ensure!(m.len() == r.len() && m.is_empty() == r.is_empty(), "{} has length {} instead of {} after {}", $name, m.len(), r.len(), clip(&log.join(", "), 400));
        }
        $c.show(format!("{} {}", $name, clip(&log.join(", "), 200)));
        $c.nontrivial(r.len() > 8);
        for (k, v) in &r {
            ensure!(m.get(k) == Some(*v) && m.contains_key(k) && m.logos_contains(k), "{} lost {k}={v} after {}", $name, clip(&log.join(", "), 400));
        }
        for _ in 0..10 {
            let k = $gen($s);
            ensure!(m.contains_key(&k) == r.contains_key(&k) && m.get(&k) == r.get(&k).copied(), "{} holds {k}: {:?}, should {:?}", $name, m.get(&k), r.get(&k));
        }
        let m2 = m.clone();
        m.insert(7, 9);
        ensure!(m2.get(&7) == r.get(&7).copied(), "{} copy follows the original", $name);
    }};
}
macro_rules! int_set_history {
    ($s:expr, $c:expr, $M:ty, $name:expr, $gen:expr) => {{
        let cap = *$s.pick(&[0usize, 1, 3, 8, 100]);
        let mut m = if $s.flip() { <$M>::new() } else { <$M>::with_capacity(cap) };
        let mut r: BTreeMap<i64, ()> = BTreeMap::new();
        let n = $s.usize(0, if $c.thorough { 600 } else { 250 });
        let mut log = vec![];
        for _ in 0..n {
            let k = $gen($s);
            if $s.chance(2, 3) {
                log.push(format!("add {k}"));
                m.insert(k, 1);
                r.insert(k, ());
            } else {
                ensure_eq!(m.contains_key(&k), r.contains_key(&k), "{} holds {k} after {}", $name, clip(&log.join(", "), 400));
            }
            ensure!(m.len() == r.len() && m.is_empty() == r.is_empty(), "{} has length {} instead of {} after {}", $name, m.len(), r.len(), clip(&log.join(", "), 400));
        }
        $c.show(format!("{} {}", $name, clip(&log.join(", "), 200)));
        $c.nontrivial(r.len() > 8);
        for k in r.keys() {
            ensure!(m.contains_key(k) && m.logos_contains(k), "{} lost {k} after {}", $name, clip(&log.join(", "), 400));
        }
    }};
}

fn int_maps(s: &mut Src, c: &mut Ctx) -> R {
    let stride = *s.pick(&[1i64, 2, 8, 16, 64, 1 << 20, 1 << 32, 1 << 48, -1]);
    let base = if s.flip() { 0 } else { s.i64_edge() };
    let n = s.usize(1, 120);
    let pool: Vec<i64> = (0..n as i64).map(|i| base.wrapping_add(stride.wrapping_mul(i))).collect();
    let p32: Vec<i64> = pool.iter().map(|x| *x as i32 as i64).collect();
    let g64 = |s: &mut Src| key(s, &pool);
    let g32 = |s: &mut Src| key(s, &p32) as i32 as i64;
    match s.below(7) {
        0 => { c.class("i64 map"); int_map_history!(s, c, LogosI64Map, "i64 map", g64, |s: &mut Src| s.i64_edge()) }
        1 => { c.class("i32 map"); int_map_history!(s, c, LogosI32Map, "i32 map", g32, |s: &mut Src| s.i64_edge() as i32 as i64) }
        2 => { c.class("i64 set"); int_set_history!(s, c, LogosI64Set, "i64 set", g64) }
        3 => { c.class("i32 set"); int_set_history!(s, c, LogosI32Set, "i32 set", g32) }
        _ => {
            // windows
            let lo = *s.pick(&[0i64, 1, -5, -64, 100, -1_000_000, 1 << 40]);
            let slots = s.usize(1, 200);
            let mut m = LogosDenseI64Map::with_bounds(lo, slots);
            let mut np = LogosDenseI64MapNoPresence::with_bounds(lo, slots);
            let mut st = LogosDenseI64Set::with_bounds(lo, slots);
            let mut r: BTreeMap<i64, i64> = BTreeMap::new();
            c.class("window");
            let n = s.usize(0, 200);
            let mut log = vec![];
            for _ in 0..n {
                let k = lo + match s.below(4) { 0 => 0, 1 => slots as i64 - 1, _ => s.int(0, slots as i64 - 1) };
                if s.chance(2, 3) {
                    let v = if s.chance(1, 5) { 0 } else { s.i64_edge() };
                    log.push(format!("set {k}={v}"));
                    m.insert(k, v);
                    np.insert(k, v);
                    st.insert(k, v);
                    r.insert(k, v);
                }
                ensure!(m.get(&k) == r.get(&k).copied() && m.contains_key(&k) == r.contains_key(&k) && st.contains_key(&k) == r.contains_key(&k), "window [{lo}, +{slots}) at {k}: {:?} after {}", m.get(&k), clip(&log.join(", "), 400));
                if let Some(v) = r.get(&k) { ensure_eq!(np.get(&k), Some(*v), "window array at {k}"); }
                ensure!(m.len() == r.len() && st.len() == r.len(), "window lengths {} {} of {}", m.len(), st.len(), r.len());
            }
            c.show(format!("window [{lo}, +{slots}) {}", clip(&log.join(", "), 200)));
            c.nontrivial(r.len() > 8);
            for i in 0..slots as i64 {
                let k = lo + i;
                ensure!(m.get(&k) == r.get(&k).copied() && m.contains_key(&k) == r.contains_key(&k) && st.logos_contains(&k) == r.contains_key(&k), "window at {k}");
            }
        }
    }
    Ok(())
}

/// Handles onto lists and maps: values are independent once a holder takes ownership before writing.
fn sharing(s: &mut Src, c: &mut Ctx) -> R {
    let mut hs: Vec<LogosSeq<LogosSeq<i64>>> = vec![LogosSeq::new()];
    let mut rs: Vec<Vec<Vec<i64>>> = vec![vec![]];
    let mut ms: Vec<LogosMap<String, i64>> = vec![LogosMap::new()];
    let mut mr: Vec<Vec<(String, i64)>> = vec![vec![]];
    let mut log = vec![];
    let mut copies = 0;
    for _ in 0..s.usize(0, if c.thorough { 120 } else { 60 }) {
        let i = s.usize(0, hs.len() - 1);
        let j = s.usize(0, ms.len() - 1);
        let v = s.int(-9, 99);
        match s.below(12) {
            0 => { log.push(format!("copy list {i}")); let h = hs[i].clone(); hs.push(h); let r = rs[i].clone(); rs.push(r); copies += 1; }
            1 | 2 => { log.push(format!("push row to {i}")); hs[i].cow(); hs[i].push(LogosSeq::from_vec(vec![v, v + 1])); rs[i].push(vec![v, v + 1]); }
            3 => { hs[i].cow(); log.push(format!("pop row of {i}")); let (a, b) = (hs[i].pop().map(|x| x.to_vec()), rs[i].pop()); ensure_eq!(a, b, "popped after {}", log.join(", ")); }
            4 | 5 => if !rs[i].is_empty() {
                let k = s.usize(0, rs[i].len() - 1);
                if rs[i][k].is_empty() { continue }
                let q = s.usize(0, rs[i][k].len() - 1);
                log.push(format!("set {i}[{k}][{q}]={v}"));
                hs[i].cow();
                hs[i].set_nested(k, q, v);
                rs[i][k][q] = v;
            },
            6 => if !rs[i].is_empty() {
                // take a row out, change it, put it elsewhere
                let k = s.usize(0, rs[i].len() - 1);
                let mut row = hs[i].borrow()[k].clone();
                row.cow();
                row.push(v);
                let mut rr = rs[i][k].clone();
                rr.push(v);
                let t = s.usize(0, hs.len() - 1);
                log.push(format!("extended row {i}[{k}] to {t}"));
                hs[t].cow();
                hs[t].push(row);
                rs[t].push(rr);
            },
            7 => { log.push(format!("deep copy {i}")); let h = LogosSeq::from_vec(hs[i].borrow().iter().map(|x| x.deep_clone()).collect()); hs.push(h); let r = rs[i].clone(); rs.push(r); }
            8 => { log.push(format!("fill copy {i}")); let h = hs[i].fill_clone(); hs.push(h); let r = rs[i].clone(); rs.push(r); copies += 1; }
            9 => { log.push(format!("copy map {j}")); let h = ms[j].clone(); ms.push(h); let r = mr[j].clone(); mr.push(r); copies += 1; }
            _ => {
                let k = format!("k{}", s.below(6));
                ms[j].cow();
                let at = mr[j].iter().position(|x| x.0 == k);
                if s.chance(1, 3) {
                    log.push(format!("remove {k} from map {j}"));
                    let want = at.map(|p| mr[j].remove(p).1);
                    ensure_eq!(ms[j].remove(&k), want, "removed after {}", log.join(", "));
                } else {
                    log.push(format!("map {j} {k}={v}"));
                    let want = at.map(|p| std::mem::replace(&mut mr[j][p].1, v));
                    if at.is_none() { mr[j].push((k.clone(), v)) }
                    ensure_eq!(ms[j].insert(k, v), want, "replaced after {}", log.join(", "));
                }
            }
        }
        for (n, (h, r)) in hs.iter().zip(&rs).enumerate() {
            let got: Vec<Vec<i64>> = h.to_vec().iter().map(|x| x.to_vec()).collect();
            ensure!(&got == r, "list {n} is {got:?}, should be {r:?} after {}", log.join(", "));
        }
        for (n, (h, r)) in ms.iter().zip(&mr).enumerate() {
            let got: Vec<(String, i64)> = h.keys().into_iter().zip(h.values()).collect();
            ensure!(&got == r && h.len() == r.len() && h.clone().into_iter().collect::<Vec<_>>() == *r, "map {n} is {got:?}, should be {r:?} in insertion order after {}", log.join(", "));
            for (k, v) in r { ensure!(h.get(k) == Some(*v) && h.contains_key(k) && h.logos_get(k.as_str()) == *v, "map {n} key {k}"); }
        }
    }
    c.show(clip(&log.join(", "), 300));
    c.nontrivial(copies > 0 && log.len() > 5);
    for i in 0..mr.len() {
        for j in 0..mr.len() {
            let (mut a, mut b) = (mr[i].clone(), mr[j].clone());
            a.sort();
            b.sort();
            ensure_eq!(ms[i] == ms[j], a == b, "map equality of {a:?} and {b:?}");
            ensure_eq!(hs[i.min(hs.len() - 1)] == hs[j.min(hs.len() - 1)], rs[i.min(hs.len() - 1)] == rs[j.min(hs.len() - 1)], "list equality");
        }
    }
    Ok(())
}

fn uni(s: &mut Src) -> String {
    let n = s.usize(0, 12);
    (0..n).map(|_| match s.below(5) { 0 => *s.pick(&['é', 'ß', 'λ', '€', '한', '😀', '\u{301}', '\u{7f}', '\u{80}']), _ => (b'a' + s.below(26) as u8) as char }).collect()
}

fn lists(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.usize(0, 20);
    let v: Vec<i64> = (0..n).map(|_| s.int(-5, 5)).collect();
    let mut q = LogosSeq::from_vec(v.clone());
    let i = match s.below(3) { 0 => s.int(-25, 25), 1 => *s.pick(&[0, 1, -1, n as i64, -(n as i64), n as i64 + 1, -(n as i64) - 1]), _ => s.i64_edge() };
    c.show(format!("{v:?} at {i}"));
    c.nontrivial(n > 1);
    let want = if i >= 1 && i <= n as i64 { Some(i as usize - 1) } else if i < 0 && i >= -(n as i64) { Some((n as i64 + i) as usize) } else { None };
    ensure_eq!(guarded(|| resolve_logos_index(i, n)).ok(), want, "position {i} of {n}");
    ensure_eq!(guarded(|| q.logos_get(i)).ok(), want.map(|k| v[k]), "element {i} of {v:?}");
    ensure_eq!(guarded(|| v.logos_get(i)).ok(), want.map(|k| v[k]), "element {i} of {v:?}");
    ensure_eq!(guarded(|| v[..].logos_get(i)).ok(), want.map(|k| v[k]), "element {i} of {v:?}");
    let mut w = v.clone();
    let ok = guarded(std::panic::AssertUnwindSafe(|| q.logos_set(i, 77))).is_ok();
    ensure_eq!(ok, want.is_some(), "writing element {i} of {v:?}");
    if let Some(k) = want { w[k] = 77 }
    ensure_eq!(q.to_vec(), w, "after writing element {i} of {v:?}");
    q.sort();
    w.sort();
    ensure_eq!(q.to_vec(), w, "sorted");
    q.reverse();
    w.reverse();
    ensure_eq!(q.iter().collect::<Vec<_>>(), w, "reversed");
    q.extend_from_slice(&v);
    w.extend(&v);
    ensure_eq!(q.clone().into_iter().collect::<Vec<_>>(), w, "extended");
    for x in -6..6 { ensure_eq!(q.logos_contains(&x), w.contains(&x), "{w:?} contains {x}"); }
    if !w.is_empty() {
        let k = s.usize(0, w.len() - 1);
        ensure_eq!(q.remove(k), w.remove(k), "removed");
        ensure_eq!(q.to_vec(), w, "after removal");
    }
    ensure_eq!(q.to_string(), format!("[{}]", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")), "shown");
    // text
    let t = uni(s);
    let ch: Vec<char> = t.chars().collect();
    let i = s.int(-14, 14);
    let want = if i >= 1 && i as usize <= ch.len() { Some(ch[i as usize - 1]) } else if i < 0 && (-i) as usize <= ch.len() { Some(ch[(ch.len() as i64 + i) as usize]) } else { None };
    ensure_eq!(guarded(|| t.logos_get(i)).ok(), want.map(|c| c.to_string()), "character {i} of {t:?}");
    ensure_eq!(guarded(|| t.logos_get_char(i)).ok(), want, "character {i} of {t:?}");
    let u = uni(s);
    let (a, b) = (s.usize(0, ch.len()), s.usize(0, ch.len()));
    let sub: String = ch[a.min(b)..a.max(b)].iter().collect();
    ensure!(t.logos_contains(&sub), "{t:?} contains its part {sub:?}");
    ensure_eq!(t.logos_contains(&u), t.contains(u.as_str()), "{t:?} contains {u:?}");
    let bytes = text_bytes(&t);
    ensure_eq!(bytes.to_vec(), t.bytes().map(|b| b as i64).collect::<Vec<_>>(), "bytes of {t:?}");
    ensure_eq!(text_from_bytes(&bytes), t, "bytes of {t:?} and back");
    Ok(())
}

fn big(s: &mut Src) -> (LogosInt, NB) {
    let n: NB = match s.below(4) {
        0 => NB::from(s.int(-20, 20)),
        1 => NB::from(s.i64_edge()),
        2 => { let (a, b) = (s.i64_edge(), s.i64_edge()); NB::from(a) * b + s.int(-2, 2) }
        _ => { let (a, b, c) = (s.i64_edge(), s.u64_edge(), s.i64_edge()); NB::from(a) * b * c + s.int(-2, 2) }
    };
    (LogosInt::from_literal(&n.to_string()), n)
}
fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn integers(s: &mut Src, c: &mut Ctx) -> R {
    let ((a, x), (b, y)) = (big(s), big(s));
    c.show(format!("{x} , {y}"));
    let edge = |n: &NB| n.to_i64().is_none() || n.abs() > NB::from(i64::MAX / 2);
    c.nontrivial(edge(&x) || edge(&y));
    let chk = |g: &LogosInt, w: &NB, op: &str| -> R {
        ensure_eq!(g.to_string(), w.to_string(), "{x} {op} {y}");
        ensure_eq!(g.to_i64(), w.to_i64(), "{x} {op} {y} as a machine integer");
        if let Some(i) = w.to_i64() { ensure!(*g == i && i == *g && *g == LogosInt::from_i64(i) && hash_of(g) == hash_of(&LogosInt::from_i64(i)), "{x} {op} {y} is not recognised as {i}"); }
        Ok(())
    };
    chk(&a, &x, "alone")?;
    chk(&a.add(&b), &(&x + &y), "+")?;
    chk(&a.sub(&b), &(&x - &y), "-")?;
    chk(&a.mul(&b), &(&x * &y), "*")?;
    chk(&a.neg(), &-&x, "negated")?;
    chk(&logos_add_exact(a.clone(), b.clone()), &(&x + &y), "+")?;
    chk(&logos_sub_exact(a.clone(), b.clone()), &(&x - &y), "-")?;
    chk(&logos_mul_exact(a.clone(), b.clone()), &(&x * &y), "*")?;
    if y.is_zero() {
        ensure!(a.div(&b).is_err() && a.rem(&b).is_err() && a.div_floor(&b).is_err(), "{x} divided by zero");
    } else {
        chk(&a.div(&b).map_err(|e| Fail { msg: e })?, &(&x / &y), "/")?;
        chk(&a.rem(&b).map_err(|e| Fail { msg: e })?, &(&x % &y), "%")?;
        chk(&a.div_floor(&b).map_err(|e| Fail { msg: e })?, &num_integer::Integer::div_floor(&x, &y), "//")?;
        chk(&logos_floordiv_exact(a.clone(), b.clone()), &num_integer::Integer::div_floor(&x, &y), "//")?;
        chk(&logos_div_exact(a.clone(), b.clone()), &(&x / &y), "/")?;
        chk(&logos_rem_exact(a.clone(), b.clone()), &(&x % &y), "%")?;
    }
    ensure_eq!(a.cmp(&b), x.cmp(&y), "{x} compared with {y}");
    ensure_eq!(a == b, x == y, "{x} equals {y}");
    let e = s.below(40) as u32;
    chk(&a.pow(&LogosInt::from_i64(e as i64)).map_err(|e| Fail { msg: e })?, &Pow::pow(x.clone(), e), &format!("^{e}"))?;
    ensure!(a.pow(&LogosInt::from_i64(-1 - e as i64)).is_err(), "negative power of {x}");
    // machine-width operations: the exact value or a loud refusal
    if let (Some(i), Some(j)) = (x.to_i64(), y.to_i64()) {
        let t = |g: Result<i64, String>, w: Option<NB>, op: &str| -> R {
            let w = w.and_then(|w| w.to_i64());
            ensure_eq!(g.ok(), w, "{i} {op} {j} at machine width");
            Ok(())
        };
        t(guarded(|| logos_add_i64(i, j)), Some(&x + &y), "+")?;
        t(guarded(|| logos_sub_i64(i, j)), Some(&x - &y), "-")?;
        t(guarded(|| logos_mul_i64(i, j)), Some(&x * &y), "*")?;
        t(guarded(|| logos_div_i64(i, j)), (j != 0).then(|| &x / &y), "/")?;
        t(guarded(|| logos_rem_i64(i, j)), (j != 0).then(|| &x % &y), "%")?;
        let w = i as i128 * j as i128;
        t(guarded(|| logos_narrow_i128(w)), Some(NB::from(w)), "* narrowed")?;
        if j != 0 {
            ensure!(logos_div_i128(w, j as i128) == i as i128 && logos_rem_i128(w, j as i128) == 0, "wide division of {w} by {j}");
        }
        // mixed comparison with floats is exact
        let f = match s.below(4) { 0 => i as f64, 1 => (i as f64) + 0.5, 2 => f64::from_bits((i as f64).to_bits().wrapping_add(1)), _ => s.f64_any() };
        let exact = |f: f64| num_rational::BigRational::from_float(f);
        let want = if f.is_nan() { None } else if f.is_infinite() { Some(if f > 0.0 { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }) } else { Some(num_rational::BigRational::from(x.clone()).cmp(&exact(f).unwrap())) };
        ensure_eq!(logos_cmp_i64_f64(i, f), want, "{i} against {f:e}");
        ensure_eq!(logos_i64_eq_f64(i, f), want == Some(std::cmp::Ordering::Equal), "{i} == {f:e}");
        let f = if s.chance(1, 6) { *s.pick(&[9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0, f64::INFINITY, f64::NAN, -0.0, 18446744073709551616.0]) } else { f };
        let k = if f.is_finite() { exact(f).filter(|r| r.is_integer()).and_then(|r| r.to_integer().to_i64()) } else { None };
        ensure_eq!(logos_i64_key_of_f64(f), k, "float key {f:e}");
    }
    // display of floats reads back
    let f = s.f64_any();
    let t = logicaffeine_data::fmt::fmt_f64(f);
    if f.is_finite() {
        ensure!(t.parse::<f64>().map(|g| g.to_bits()) == Ok(f.to_bits()) && !t.contains(['e', 'E']) && t.len() < 340, "{f:e} shown as {t}");
    }
    // division by a fixed divisor
    let d = match s.below(3) { 0 => s.int(1, 300) as u64, 1 => s.u64_edge().max(1), _ => (s.u64() >> s.below(64)).max(1) };
    let dv = LogosDivU64::new(d);
    for _ in 0..6 {
        let n = match s.below(4) { 0 => s.u64_edge(), 1 => s.u64(), 2 => { let k = s.u64() % (u64::MAX / d).max(1); k.wrapping_mul(d).wrapping_sub(s.below(2)) } _ => u64::MAX - s.below(3) };
        ensure!(dv.div(n) == n / d && dv.rem(n) == n % d, "{n} by {d}: {} rem {}", dv.div(n), dv.rem(n));
        let (m, more) = dv.parts();
        let q = if more & 0x80 != 0 { n >> (more & 63) } else { let q = ((m as u128 * n as u128) >> 64) as u64; if more & 0x40 != 0 { (((n - q) >> 1) + q) >> (more & 63) } else { q >> more } };
        ensure_eq!(q, n / d, "published constants for {d} at {n}");
    }
    Ok(())
}

fn tables(s: &mut Src, c: &mut Ctx) -> R {
    // names
    let mut it = Interner::new();
    let mut r: Vec<String> = vec![];
    let mut idx: HashMap<String, usize> = HashMap::new();
    let base = it.len();
    let mut syms = vec![];
    for _ in 0..s.usize(0, 60) {
        let t = if s.chance(1, 3) && !r.is_empty() { s.pick(&r).clone() } else { let a = uni(s); a };
        let known = it.lookup(&t);
        let y = it.intern(&t);
        match idx.get(&t) {
            Some(i) => ensure!(known == Some(y) && syms[*i] == y, "{t:?} got a second symbol"),
            None => {
                ensure!(syms.iter().all(|z| *z != y), "{t:?} shares a symbol");
                if !t.is_empty() { ensure!(known.is_none(), "{t:?} known before it was named") }
                idx.insert(t.clone(), syms.len());
                syms.push(y);
                r.push(t);
            }
        }
        for (q, t) in syms.iter().zip(&r) { ensure!(it.resolve(*q) == t && it.lookup(t) == Some(*q), "symbol of {t:?} resolves to {:?}", it.resolve(*q)); }
    }
    ensure!(it.len() >= base && it.len() <= base + r.len(), "table length {}", it.len());
    // classes
    let mut u = UnionFind::new();
    let n = s.usize(1, 40);
    for i in 0..n { ensure_eq!(u.make_set(), i, "element number"); }
    let mut cls: Vec<usize> = (0..n).collect();
    let mut merges = 0;
    for _ in 0..s.usize(0, 60) {
        let (a, b) = (s.usize(0, n - 1), s.usize(0, n - 1));
        let (x, y) = (cls[a], cls[b]);
        ensure_eq!(u.union(a, b), x != y, "joining {a} and {b}");
        merges += (x != y) as u32;
        cls.iter_mut().for_each(|k| if *k == y { *k = x });
        if s.chance(1, 4) {
            let k = u.make_set();
            ensure_eq!(k, cls.len(), "element number");
            let f = *cls.iter().max().unwrap().max(&n) + 1;
            cls.push(f);
        }
        let (a, b) = (s.usize(0, cls.len() - 1), s.usize(0, cls.len() - 1));
        ensure_eq!(u.find(a) == u.find(b), cls[a] == cls[b], "{a} and {b} together");
    }
    for a in 0..cls.len() {
        ensure_eq!(cls[u.find(a)], cls[a], "representative of {a}");
        for b in 0..a { ensure_eq!(u.find(a) == u.find(b), cls[a] == cls[b], "{a} and {b} together"); }
    }
    // arena
    let ar: Arena<i64> = Arena::new();
    let mut held: Vec<(&i64, i64)> = vec![];
    let mut sl: Vec<(&[i64], Vec<i64>)> = vec![];
    for _ in 0..s.usize(0, 80) {
        if s.flip() { let v = s.i64_edge(); held.push((ar.alloc(v), v)) } else { let v: Vec<i64> = (0..s.usize(0, 50)).map(|_| s.i64_edge()).collect(); sl.push((ar.alloc_slice(v.clone()), v)) }
    }
    ensure!(held.iter().all(|x| *x.0 == x.1) && sl.iter().all(|x| x.0 == &x.1[..]), "arena contents moved");
    c.show(format!("{} names, {merges} joins", r.len()));
    c.nontrivial(r.len() > 3 && merges > 2);
    Ok(())
}

fn wire(s: &mut Src, c: &mut Ctx) -> R {
    let v: Vec<LogosSeq<String>> = (0..s.usize(0, 5)).map(|_| LogosSeq::from_vec((0..s.usize(0, 4)).map(|_| uni(s)).collect())).collect();
    let ints: Vec<Box<i64>> = (0..s.usize(0, 6)).map(|_| Box::new(s.i64_edge())).collect();
    let (f, b) = (s.f64_any(), s.flip());
    c.show(format!("{ints:?} {f} {b}"));
    c.nontrivial(!v.is_empty() && !ints.is_empty());
    let mut o = vec![];
    v.wire_encode(&mut o);
    let m1 = o.len();
    ints.wire_encode(&mut o);
    f.wire_encode(&mut o);
    b.wire_encode(&mut o);
    let (ty, ct) = (uni(s), uni(s));
    let na = s.u64_edge();
    write_inductive_header(&mut o, &ty, &ct, na);
    let mut p = 0;
    let g = Vec::<LogosSeq<String>>::wire_decode(&o, &mut p);
    ensure!(g.as_ref() == Some(&v) && p == m1, "nested lists come back as {g:?}");
    ensure_eq!(Vec::<Box<i64>>::wire_decode(&o, &mut p), Some(ints.clone()), "integers");
    ensure_eq!(f64::wire_decode(&o, &mut p).map(|x| x.to_bits()), Some(f.to_bits()), "float");
    ensure_eq!(bool::wire_decode(&o, &mut p), Some(b), "truth value");
    ensure_eq!(read_inductive_header(&o, &mut p), Some((ty, ct, na)), "header");
    ensure_eq!(p, o.len(), "end");
    // damaged
    let cut = s.usize(0, m1 - 1);
    let mut p = 0;
    ensure!(Vec::<LogosSeq<String>>::wire_decode(&o[..cut], &mut p).is_none(), "cut at {cut} of {m1} accepted");
    for _ in 0..s.usize(1, 3) { let i = s.usize(0, o.len() - 1); o[i] = *s.pick(&[0, 13, 6, 3, 0xff, 0x80, 0x7f]); }
    let mut p = 0;
    if let Some(x) = Vec::<LogosSeq<String>>::wire_decode(&o, &mut p) {
        let mut o2 = vec![];
        x.wire_encode(&mut o2);
        let mut q = 0;
        ensure!(p <= o.len() && Vec::<LogosSeq<String>>::wire_decode(&o2, &mut q) == Some(x), "accepted value does not survive");
    }
    Ok(())
}

pub fn c20() -> Suite {
    let mut s = Suite::new("C20", "more than eight keys held at the end (integer tables), at least one copy and five operations (sharing), more than one element, an operand near or beyond machine width, more than three names and two joins, or nested and integer lists both present");
    s.prop("integer-tables", 40_000, 600_000, int_maps);
    s.prop("sharing", 20_000, 300_000, sharing);
    s.prop("lists-and-text", 60_000, 1_000_000, lists);
    s.prop("integers", 60_000, 1_000_000, integers);
    s.prop("names-classes-arena", 10_000, 200_000, tables);
    s.prop("wire-core", 40_000, 600_000, wire);
    s
}
