//! C19: descriptions of integer sequences and the sequence analyses built on them.
use logicaffeine_base::describe::*;
use num_bigint::BigInt as NB;
use num_traits::{One, Signed, Zero};
use std::collections::HashMap;
use vcore::*;

fn small(s: &mut Src) -> i64 {
    match s.below(4) {
        0 => s.int(-3, 3),
        1 => s.int(-200, 300),
        2 => s.int(-100_000, 100_000),
        _ => s.i64_edge(),
    }
}

fn recur(s: &mut Src, n: usize, k: usize, bigc: bool) -> Vec<i64> {
    let co: Vec<i64> = (0..k).map(|_| if bigc { small(s) } else { s.int(-3, 3) }).collect();
    let mut v: Vec<i64> = (0..k).map(|_| s.int(-9, 9)).collect();
    while v.len() < n {
        let i = v.len();
        v.push((0..k).fold(0i64, |a, j| a.wrapping_add(co[j].wrapping_mul(v[i - 1 - j]))));
    }
    v.truncate(n);
    v
}

fn bits_of(s: &mut Src, n: usize) -> Vec<bool> {
    (0..n).map(|_| s.flip()).collect()
}

/// A sequence of one of the shapes the description language names, sometimes disturbed in a few places.
fn gen_seq(s: &mut Src) -> (Vec<i64>, &'static str) {
    let n = match s.below(4) { 0 => s.usize(0, 6), 1 => s.usize(0, 40), 2 => s.usize(20, 200), _ => s.usize(60, 700) };
    let kind = s.below(16);
    let (mut v, name): (Vec<i64>, _) = match kind {
        0 => { let (a, b) = (small(s), small(s)); ((0..n).map(|i| a.wrapping_add((i as i64).wrapping_mul(b))).collect(), "affine") }
        1 => { let (mut a, b) = (small(s), *s.pick(&[2i64, 3, -1, -2, 10, 1 << 31, i64::MIN, 5])); ((0..n).map(|_| { let r = a; a = a.wrapping_mul(b); r }).collect(), "geometric") }
        2 => { let d = s.usize(0, 5); let c: Vec<i64> = (0..=d).map(|_| s.int(-9, 9)).collect(); ((0..n).map(|i| c.iter().rev().fold(0i64, |a, x| a.wrapping_mul(i as i64).wrapping_add(*x))).collect(), "polynomial") }
        3 => { let k = s.usize(1, 5); let b = s.chance(1, 3); (recur(s, n, k, b), "recurrence") }
        4 => { let p = s.usize(1, 40); let blk: Vec<i64> = (0..p).map(|_| small(s)).collect(); ((0..n).map(|i| blk[i % p]).collect(), "periodic") }
        5 => { let d = small(s); let k = s.int(4, 40) as u64; ((0..n).map(|_| if s.chance(1, k) { small(s) } else { d }).collect(), "sparse") }
        6 => { let (a, b, p) = (small(s), small(s), s.usize(2, 18)); ((0..n).map(|i| a.wrapping_add(b.wrapping_mul((i % p) as i64))).collect(), "sawtooth") }
        7 => { let mut v = vec![]; while v.len() < n { let (x, k) = (small(s), s.usize(1, 30)); v.extend(std::iter::repeat(x).take(k)); } v.truncate(n); (v, "runs") }
        8 => { let k = s.usize(1, 20); let d: Vec<i64> = (0..k).map(|_| small(s)).collect(); ((0..n).map(|_| *s.pick(&d)).collect(), "few distinct") }
        9 => { let w = s.below(64); let m = small(s); let mask = if w == 0 { 0 } else { u64::MAX >> (64 - w) }; ((0..n).map(|_| m.wrapping_add((s.u64() & mask) as i64)).collect(), "clustered") }
        10 => { let mut c = small(s); ((0..n).map(|_| { c = c.wrapping_add(s.int(-5, 60)); c }).collect(), "drifting") }
        11 => { ((0..n).map(|_| s.int(0, 255)).collect(), "bytes") }
        12 => { // keystream of a short register
            let l = s.usize(1, 24); let t = bits_of(s, l); let mut b = bits_of(s, l); let n = s.usize(1, 90) * 8;
            while b.len() < n { let i = b.len(); b.push((0..l).fold(false, |a, j| a ^ (t[j] && b[i - 1 - j]))); }
            b.truncate(n); (b.chunks(8).map(|c| c.iter().enumerate().map(|(j, x)| (*x as i64) << j).sum()).collect(), "register keystream") }
        13 => { // carry register: expansion of p/q
            let q = s.int(1, 1 << 20) * 2 + 1; let p = s.int(-(1 << 20), 1 << 20); let n = s.usize(1, 80);
            let mut r = NB::from(p); let q = NB::from(q);
            let mut v = vec![]; for _ in 0..n { let mut y = 0i64; for j in 0..8 { if r.bit(0) { y |= 1 << j; r -= &q; } r /= 2; } v.push(y); }
            (v, "carry keystream") }
        14 => ((0..n).map(|_| s.i64_edge()).collect(), "extremes"),
        _ => ((0..n).map(|_| s.u64() as i64).collect(), "random"),
    };
    if s.chance(1, 3) && !v.is_empty() {
        for _ in 0..s.usize(1, 3) {
            let i = match s.below(3) { 0 => v.len() - 1, 1 => 0, _ => s.usize(0, v.len() - 1) };
            v[i] = match s.below(3) { 0 => v[i].wrapping_add(1), 1 => small(s), _ => s.i64_edge() };
        }
    }
    (v, name)
}

fn round_trip(s: &mut Src, c: &mut Ctx) -> R {
    let (v, name) = gen_seq(s);
    c.show(format!("{name} {}", clip(&format!("{v:?}"), 300)));
    c.class(name);
    let e = describe_int_seq(&v);
    c.nontrivial(v.len() >= 3 && e[0] != T_INTS);
    c.class(&format!("tag {}", e[0]));
    let d = decode_int_seq(&e);
    ensure!(d.as_ref() == Some(&v), "description {} of {} decodes to {}", clip(&format!("{e:?}"), 200), clip(&format!("{v:?}"), 300), clip(&format!("{d:?}"), 300));
    // never larger than the plain form, nor than any other form of the menu that applies
    let mut plain = vec![T_INTS];
    leb128_encode(&mut plain, v.iter().copied(), v.len());
    ensure!(e.len() <= plain.len(), "description takes {} bytes, plain form {}", e.len(), plain.len());
    let mut forms: Vec<(&str, Vec<u8>)> = vec![("plain", plain)];
    for (n, f) in [("delta", delta_encode as fn(&mut Vec<u8>, &[i64])), ("delta of delta", dod_encode), ("frame", for_encode), ("runs", rle_encode)] {
        let mut b = vec![];
        f(&mut b, &v);
        forms.push((n, b));
    }
    forms.push(("dictionary", dict_encode(&v)));
    for (n, b) in &forms {
        ensure!(e.len() <= b.len(), "description takes {} bytes, the {n} form {}", e.len(), b.len());
        ensure!(decode_int_seq(b).as_ref() == Some(&v), "{n} form of {} decodes to {:?}", clip(&format!("{v:?}"), 300), decode_int_seq(b).map(|x| clip(&format!("{x:?}"), 300)));
    }
    // closed forms stay short however long the sequence
    if v.len() >= 2 && v.windows(2).all(|w| w[1].wrapping_sub(w[0]) == v[1].wrapping_sub(v[0])) {
        let cap = 1 + uvarint_byte_len(zigzag(v[0])) + uvarint_byte_len(zigzag(v[1].wrapping_sub(v[0]))) + uvarint_byte_len(v.len() as u64);
        ensure!(e.len() <= cap, "an arithmetic progression takes {} bytes, {cap} suffice", e.len());
    }
    // a column embedded in a longer message leaves the rest alone
    let (pre, post) = (s.bytes(3), s.bytes(4));
    let mut m = pre.clone();
    emit_best_int_column(&v, &mut m);
    m.extend(&post);
    let mut pos = pre.len() + 1;
    let d = decode_int_column_body(m[pre.len()], &m, &mut pos, v.len().max(1), 0);
    ensure!(d.as_ref() == Some(&v) && pos == m.len() - post.len(), "embedded column decodes to {} ending at {pos} of {}", clip(&format!("{d:?}"), 200), m.len());
    ensure!(decode_int_seq(&[&e[..], &[0u8][..]].concat()).is_none(), "a description with a spare byte was accepted");
    for cut in [e.len() - 1, s.usize(0, e.len() - 1)] {
        if let Some(d) = decode_int_seq(&e[..cut]) {
            return fail(format!("description cut to {cut} of {} bytes still decodes to {}", e.len(), clip(&format!("{d:?}"), 100)));
        }
    }
    Ok(())
}

fn put(out: &mut Vec<u8>, x: u64) {
    write_uvarint(x, out)
}

/// Damaged and hostile descriptions: an answer within the limit, or a refusal.
fn hostile(s: &mut Src, c: &mut Ctx) -> R {
    let limit = *s.pick(&[0usize, 1, 10, 1000, 20_000]);
    let mut b: Vec<u8>;
    match s.below(5) {
        0 => {
            b = s.bytes(24);
            if b.is_empty() { b.push(0) }
            b[0] = *s.pick(&[19, 32, 39, 40, 41, 42, 43, 50, 51, 53, 61, 62, 67, 82, 83, 84]);
            c.class("random body");
        }
        1 | 2 => {
            let (v, _) = gen_seq(s);
            b = if s.flip() { describe_int_seq(&v) } else {
                let mut o = vec![];
                match s.below(5) { 0 => delta_encode(&mut o, &v), 1 => dod_encode(&mut o, &v), 2 => for_encode(&mut o, &v), 3 => rle_encode(&mut o, &v), _ => o = dict_encode(&v) }
                o
            };
            for _ in 0..s.usize(1, 4) {
                let i = s.usize(0, b.len() - 1);
                match s.below(5) {
                    0 => b[i] = s.u64() as u8,
                    1 => b[i] ^= 1 << s.below(8),
                    2 => { b.truncate(i.max(1)); }
                    3 => { let x = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); b.insert(i, x) }
                    _ => { b[i] |= 0x80 }
                }
            }
            c.class("mutated");
        }
        _ => {
            // counts far beyond the data
            let big = *s.pick(&[1u64 << 20, 1 << 28, 1 << 29, 1 << 33, 1 << 40, 1 << 62, u64::MAX]);
            let tag = *s.pick(&[19u8, 32, 39, 40, 41, 42, 43, 50, 51, 53, 61, 62, 67, 82, 83, 84]);
            b = vec![tag];
            match tag {
                19 => put(&mut b, big.wrapping_mul(2)),
                32 | 61 => { let (x, y) = (s.u64(), s.u64()); put(&mut b, x); put(&mut b, y); put(&mut b, big) }
                41 => { put(&mut b, big); put(&mut b, 7); b.push(if s.flip() { 0 } else { s.u64() as u8 }) }
                42 => { let k = s.int(1, 5) as u64; put(&mut b, if s.flip() { k } else { big }); for _ in 0..k { put(&mut b, 3); put(&mut b, big) } }
                43 => { let k = s.int(0, 3) as u64; put(&mut b, if s.chance(1, 4) { big } else { k }); for _ in 0..k { put(&mut b, 9) } put(&mut b, big); b.push(if s.flip() { 0 } else { s.u64() as u8 }) }
                50 => { let d = s.below(7) as u8; b.push(d); put(&mut b, big); for _ in 0..=d { put(&mut b, 5) } }
                51 => { let d = s.usize(0, 60); for _ in 0..d { b.push(2); b.push(0) } b.push(0); put(&mut b, big) }
                62 => { for _ in 0..s.usize(0, 60) { put(&mut b, 3); b.push(62) } put(&mut b, big); b.push(19); put(&mut b, 2); put(&mut b, 4) }
                67 => { put(&mut b, 1); put(&mut b, big); put(&mut b, if s.flip() { 1 } else { big }); put(&mut b, big); put(&mut b, 1) }
                82 => { let k = s.below(6); b.push(k as u8); put(&mut b, big); for _ in 0..2 * k { put(&mut b, 4) } }
                83 => { put(&mut b, if s.flip() { big } else { 10 }); put(&mut b, if s.flip() { big } else { 3 }); b.extend([1, 1]) }
                84 => { put(&mut b, big); b.push(0); put(&mut b, 1); b.push(5); b.push(0); put(&mut b, if s.flip() { 1 } else { big }); b.push(7) }
                _ => put(&mut b, big),
            }
            let t = s.bytes(6);
            b.extend(t);
            c.class("oversized count");
        }
    }
    c.show(format!("limit {limit} bytes {b:?}"));
    let mut pos = 1;
    let r = decode_int_column_body(b[0], &b, &mut pos, limit, 0);
    c.nontrivial(b.len() > 3);
    c.class(if r.is_some() { "accepted" } else { "refused" });
    ensure!(pos <= b.len(), "decoder advanced to {pos} of {}", b.len());
    if let Some(v) = r {
        ensure!(v.len() <= limit || v.len() <= b.len() * 8, "a {}-byte message produced {} elements under a limit of {limit}", b.len(), v.len());
        // whatever was accepted is an ordinary sequence
        if v.len() < 3000 {
            ensure!(decode_int_seq(&describe_int_seq(&v)).as_ref() == Some(&v), "accepted sequence does not survive description");
        }
    }
    Ok(())
}

fn gen_expr(s: &mut Src, d: u32, budget: &mut u32) -> GenExpr {
    *budget = budget.saturating_sub(1);
    if d == 0 || *budget < 6 || s.chance(1, 4) {
        return if s.flip() { GenExpr::Index } else { GenExpr::Const(small(s)) };
    }
    let k = s.below(6);
    let sub = |s: &mut Src, budget: &mut u32| Box::new(gen_expr(s, d - 1, budget));
    match k {
        0 => { let a = sub(s, budget); GenExpr::Add(a, sub(s, budget)) }
        1 => { let a = sub(s, budget); GenExpr::Sub(a, sub(s, budget)) }
        2 => { let a = sub(s, budget); GenExpr::Mul(a, sub(s, budget)) }
        3 => { let a = sub(s, budget); GenExpr::Div(a, sub(s, budget)) }
        4 => { let a = sub(s, budget); GenExpr::Mod(a, sub(s, budget)) }
        _ => {
            let op = *s.pick(&[GenCmp::Eq, GenCmp::Ne, GenCmp::Lt, GenCmp::Le, GenCmp::Gt, GenCmp::Ge]);
            let lhs = sub(s, budget);
            let rhs = sub(s, budget);
            let then = sub(s, budget);
            GenExpr::Select { op, lhs, rhs, then, els: sub(s, budget) }
        }
    }
}

fn wrap(x: NB) -> NB {
    let m: NB = NB::one() << 64;
    let mut r: NB = x % &m;
    if r.is_negative() { r += &m }
    if r >= (NB::one() << 63) { r -= m }
    r
}
fn ref_eval(e: &GenExpr, i: i64) -> NB {
    match e {
        GenExpr::Index => NB::from(i),
        GenExpr::Const(c) => NB::from(*c),
        GenExpr::Add(a, b) => wrap(ref_eval(a, i) + ref_eval(b, i)),
        GenExpr::Sub(a, b) => wrap(ref_eval(a, i) - ref_eval(b, i)),
        GenExpr::Mul(a, b) => wrap(ref_eval(a, i) * ref_eval(b, i)),
        GenExpr::Div(a, b) => { let d = ref_eval(b, i); if d.is_zero() { d } else { wrap(ref_eval(a, i) / d) } }
        GenExpr::Mod(a, b) => { let d = ref_eval(b, i); if d.is_zero() { d } else { wrap(ref_eval(a, i) % d) } }
        GenExpr::Select { op, lhs, rhs, then, els } => {
            let o = ref_eval(lhs, i).cmp(&ref_eval(rhs, i));
            let t = match op { GenCmp::Eq => o.is_eq(), GenCmp::Ne => o.is_ne(), GenCmp::Lt => o.is_lt(), GenCmp::Le => o.is_le(), GenCmp::Gt => o.is_gt(), GenCmp::Ge => o.is_ge() };
            if t { ref_eval(then, i) } else { ref_eval(els, i) }
        }
    }
}

fn generators(s: &mut Src, c: &mut Ctx) -> R {
    let mut budget = 200;
    let d = s.below(8) as u32;
    let e = gen_expr(s, d, &mut budget);
    c.show(format!("{}", clip(&format!("{e:?}"), 300)));
    let mut b = vec![];
    serialize_gen(&e, &mut b);
    c.nontrivial(b.len() > 4);
    let (mut pos, mut nodes) = (0, MAX_GEN_NODES);
    let back = deserialize_gen(&b, &mut pos, &mut nodes, 0);
    ensure!(back.as_ref() == Some(&e) && pos == b.len(), "generator comes back as {back:?}");
    let mut pos = 0;
    let mut short = MAX_GEN_NODES;
    ensure!(deserialize_gen(&b[..b.len() - 1], &mut pos, &mut short, 0).is_none(), "a truncated generator was accepted");
    for _ in 0..6 {
        let i = if s.flip() { s.int(0, 1000) } else { s.i64_edge() };
        let (g, w) = (gen_eval(&e, i), ref_eval(&e, i));
        ensure!(NB::from(g) == w, "generator at {i} is {g}, should be {w}");
    }
    // as a column
    let n = s.usize(0, 50);
    let mut col = vec![T_GEN];
    col.extend(&b);
    write_uvarint(n as u64, &mut col);
    let v: Vec<i64> = (0..n).map(|i| gen_eval(&e, i as i64)).collect();
    ensure!(decode_int_seq(&col).as_ref() == Some(&v), "generator column decodes wrongly");
    Ok(())
}

fn primitives(s: &mut Src, c: &mut Ctx) -> R {
    let x = s.u64_edge();
    c.show(format!("{x}"));
    c.nontrivial(x > 127);
    let mut b = s.bytes(2);
    let at = b.len();
    write_uvarint(x, &mut b);
    ensure_eq!(b.len() - at, uvarint_byte_len(x), "varint length of {x}");
    let mut pos = at;
    ensure_eq!(read_uvarint(&b, &mut pos), Some(x), "varint of {x}");
    ensure_eq!(pos, b.len(), "varint end");
    let mut pos = at;
    ensure!(read_uvarint(&b[..b.len() - 1], &mut pos).is_none(), "cut varint accepted");
    ensure!(unzigzag(zigzag(x as i64)) == x as i64 && zigzag(unzigzag(x)) == x, "zigzag of {x}");
    let v = x as i64;
    let want = if v < 0 { -(v as i128) * 2 - 1 } else { v as i128 * 2 };
    ensure_eq!(zigzag(v) as i128, want, "zigzag of {v}");
    let w = s.int(1, 64) as u8;
    let n = s.usize(0, 40);
    let vals: Vec<u64> = (0..n).map(|_| s.u64() >> (64 - w)).collect();
    let p = bitpack(&vals, w);
    ensure_eq!(p.len(), (n * w as usize + 7) / 8, "packed length of {n} values of {w} bits");
    ensure_eq!(bitunpack(&p, n, w), Some(vals.clone()), "{n} values of {w} bits");
    for (i, v) in vals.iter().enumerate() {
        let k = s.below(w as u64) as usize;
        let at = i * w as usize + k;
        ensure!((p[at / 8] >> (at % 8)) & 1 == ((v >> k) & 1) as u8, "bit {k} of value {i} misplaced");
    }
    if !p.is_empty() {
        ensure!(bitunpack(&p[..p.len() - 1], n, w).is_none(), "short bit pack accepted");
    }
    let bytes: Vec<i64> = (0..n).map(|_| s.int(0, 255)).collect();
    ensure_eq!(bits_to_bytes(&bytes_to_bits(&bytes)), bytes, "bytes to bits and back");
    Ok(())
}

/// The closed-form detectors: what they report regenerates the sequence, and they miss nothing in range.
fn detectors(s: &mut Src, c: &mut Ctx) -> R {
    let (v, name) = gen_seq(s);
    c.show(format!("{name} {}", clip(&format!("{v:?}"), 300)));
    c.class(name);
    let n = v.len();
    let mut hits = 0;
    let aff = n >= 2 && v.windows(2).all(|w| w[1].wrapping_sub(w[0]) == v[1].wrapping_sub(v[0]));
    ensure_eq!(detect_affine(&v), if aff { Some((v[0], v[1].wrapping_sub(v[0]))) } else { None }, "affine detection");
    if let Some((b, r)) = detect_geometric(&v) {
        hits += 1;
        let mut x = b;
        for y in &v { ensure!(x == *y, "geometric {b} x {r} does not give {v:?}"); x = x.wrapping_mul(r); }
    }
    let per = (2..=(n / 2).min(512)).find(|p| (*p..n).all(|i| v[i] == v[i - p]));
    ensure_eq!(detect_period(&v), if n >= 4 { per } else { None }, "period");
    hits += per.is_some() as u32;
    if n >= 8 {
        let mut f: HashMap<i64, usize> = HashMap::new();
        for x in &v { *f.entry(*x).or_default() += 1 }
        let (dom, occ) = f.iter().max_by_key(|x| x.1).map(|x| (*x.0, *x.1)).unwrap();
        let want = (n - occ <= n / 4).then(|| (dom, v.iter().copied().enumerate().filter(|x| x.1 != dom).collect::<Vec<_>>()));
        hits += want.is_some() as u32;
        ensure_eq!(detect_sparse(&v), want, "dominant value");
    }
    if let Some((d, seeds)) = detect_poly_generator(&v) {
        hits += 1;
        ensure_eq!(seeds.len(), d as usize + 1, "polynomial seeds");
        ensure_eq!(reconstruct_poly(&seeds, n), v.clone(), "polynomial of degree {d}");
        // value at i is sum of seeds[k] * C(i,k)
        for (i, x) in v.iter().enumerate() {
            let mut t = NB::zero();
            let mut ch = NB::one();
            for (k, sd) in seeds.iter().enumerate() {
                t += NB::from(*sd) * &ch;
                ch = ch * (i as i64 - k as i64) / (k as i64 + 1);
            }
            ensure!(wrap(t) == NB::from(*x), "Newton form differs at {i}");
        }
    }
    if let Some((co, seeds)) = detect_linear_recurrence(&v) {
        hits += 1;
        let k = co.len();
        ensure!(k >= 1 && k <= MAX_RECUR_ORDER && seeds[..] == v[..k], "recurrence of order {k} with seeds {seeds:?}");
        for i in k..n {
            ensure_eq!((0..k).fold(0i64, |a, j| a.wrapping_add(co[j].wrapping_mul(v[i - 1 - j]))), v[i], "recurrence {co:?} at {i}");
        }
    }
    if let Some(e) = detect_modular_affine(&v) {
        hits += 1;
        for (i, x) in v.iter().enumerate() { ensure_eq!(gen_eval(&e, i as i64), *x, "generator {e:?} at {i}"); }
    }
    c.nontrivial(hits > 0);
    Ok(())
}

fn aes_mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 { r ^= a }
        let hi = a & 0x80;
        a <<= 1;
        if hi != 0 { a ^= 0x1b }
        b >>= 1;
    }
    r
}

/// The rank-based linear complexity: the least L for which some L taps fit the whole sequence.
fn linear_complexity(b: &[bool]) -> usize {
    let n = b.len();
    for l in 0..=n {
        // unknown taps c1..cl, equations for i in l..n
        let mut rows: Vec<(u64, bool)> = (l..n).map(|i| ((0..l).fold(0u64, |a, j| a | ((b[i - 1 - j] as u64) << j)), b[i])).collect();
        let mut r = 0;
        for col in 0..l {
            if let Some(p) = (r..rows.len()).find(|&i| rows[i].0 >> col & 1 == 1) {
                rows.swap(r, p);
                let x = rows[r];
                for i in 0..rows.len() { if i != r && rows[i].0 >> col & 1 == 1 { rows[i].0 ^= x.0; rows[i].1 ^= x.1 } }
                r += 1;
            }
        }
        if rows.iter().all(|x| !(x.0 == 0 && x.1)) { return l }
    }
    n
}

fn registers(s: &mut Src, c: &mut Ctx) -> R {
    // shortest linear register of a bit sequence
    let n = s.usize(0, 48);
    let b: Vec<bool> = if s.flip() { bits_of(s, n) } else {
        let l = s.usize(1, 12); let t = bits_of(s, l); let mut b = bits_of(s, l);
        while b.len() < n { let i = b.len(); b.push((0..l).fold(false, |a, j| a ^ (t[j] && b[i - 1 - j]))) }
        b.truncate(n); b
    };
    let txt: String = b.iter().map(|x| if *x { '1' } else { '0' }).collect();
    c.show(txt.clone());
    let (l, taps) = berlekamp_massey_gf2(&b);
    c.nontrivial(l > 1 && l < n);
    ensure_eq!(taps.len(), l, "taps of a register of length {l}");
    ensure_eq!(l, linear_complexity(&b), "linear complexity of {txt}");
    ensure_eq!(lfsr_generate(&taps, &b[..l], n), b.clone(), "register for {txt}");
    // byte registers
    let (x, y) = (s.u64() as u8, s.u64() as u8);
    ensure_eq!(Gf256(x).mul(Gf256(y)).0, aes_mul(x, y), "{x} * {y} in the byte field");
    if x != 0 { ensure_eq!(aes_mul(Gf256(x).inv().0, x), 1, "inverse of {x}"); }
    ensure_eq!(Gf256(x).add(Gf256(y)).0, x ^ y, "sum"); ensure_eq!(Gf256(x).sub(Gf256(y)).0, x ^ y, "difference");
    let k = s.usize(1, 5);
    let co = (0..k).map(|_| s.u64() as u8).collect::<Vec<_>>();
    let mut w: Vec<u8> = (0..k).map(|_| s.u64() as u8).collect();
    let m = s.usize(2 * k, 30);
    while w.len() < m { let i = w.len(); w.push((0..k).fold(0, |a, j| a ^ aes_mul(co[j], w[i - 1 - j]))) }
    let f: Vec<Gf256> = w.iter().map(|x| Gf256(*x)).collect();
    let (wl, wt) = berlekamp_massey_field(&f);
    ensure!(wl <= k, "bytes of a register of length {k} reported with length {wl}");
    for i in wl..m { ensure_eq!((0..wl).fold(0, |a, j| a ^ aes_mul(wt[j].0, w[i - 1 - j])), w[i], "byte register at {i}"); }
    ensure!(lfsr_generate_field(&wt, &f[..wl], m) == f, "byte register does not regenerate its bytes");
    // maximal order complexity
    let want = (0..=n).find(|&l| {
        let mut m: HashMap<&[bool], bool> = HashMap::new();
        (0..n.saturating_sub(l)).all(|i| *m.entry(&b[i..i + l]).or_insert(b[i + l]) == b[i + l])
    }).unwrap_or(n);
    ensure_eq!(maximal_order_complexity(&b), want, "maximal order complexity of {txt}");
    // carry registers
    if let Some((p, q)) = two_adic_reconstruct(&b) {
        let (p, q): (NB, NB) = (p.to_string().parse().unwrap(), q.to_string().parse().unwrap());
        ensure!(q.bit(0) && q.is_positive(), "denominator {q}");
        let a: NB = b.iter().enumerate().map(|(i, x)| NB::from(*x as u8) << i).sum();
        ensure!(((&a * &q - &p) % (NB::one() << n)).is_zero(), "{p}/{q} does not expand to {txt}");
        ensure_eq!(two_adic_complexity(&b) as u64, p.bits().max(q.bits()), "2-adic complexity of {txt}");
    }
    let (p, q) = (s.int(-4000, 4000), s.int(0, 2000) * 2 + 1);
    let n = 64;
    let g = fcsr_generate(&logicaffeine_base::numeric::BigInt::from_i64(p), &logicaffeine_base::numeric::BigInt::from_i64(q), n);
    let a: NB = g.iter().enumerate().map(|(i, x)| NB::from(*x as u8) << i).sum();
    ensure!(((a * q - p) % (NB::one() << n)).is_zero(), "expansion of {p}/{q}");
    let d = num_integer::gcd(p, q);
    let (wp, wq) = (p / d, q / d);
    match two_adic_reconstruct(&g) {
        Some((rp, rq)) => ensure!(rp.to_i64() == Some(wp) && rq.to_i64() == Some(wq), "{p}/{q} recovered as {rp}/{rq}"),
        None => return fail(format!("{p}/{q} not recovered from 64 bits")),
    }
    Ok(())
}

/// Boolean functions against their definitions.
fn functions(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.usize(0, 5);
    let m = 1usize << n;
    let t: Vec<bool> = match s.below(3) {
        0 => bits_of(s, m),
        1 => { let a: Vec<bool> = (0..m).map(|_| s.chance(1, 5)).collect(); (0..m).map(|x| (0..m).fold(false, |r, k| r ^ (a[k] && k & x == k))).collect() }
        _ => { let (w, k) = (s.usize(0, m - 1), s.flip()); (0..m).map(|x| ((x & w).count_ones() & 1 == 1) ^ k).collect() }
    };
    let txt: String = t.iter().map(|x| if *x { '1' } else { '0' }).collect();
    c.show(txt.clone());
    c.nontrivial(n >= 2 && t.iter().any(|x| *x) && !t.iter().all(|x| *x));
    let sign = |b: bool| if b { -1i64 } else { 1 };
    let par = |x: usize| x.count_ones() & 1 == 1;
    let w: Vec<i64> = (0..m).map(|w| (0..m).map(|x| sign(t[x] ^ par(w & x))).sum()).collect();
    ensure_eq!(walsh_spectrum(&t), Some(w.clone()), "spectrum of {txt}");
    let mx = w.iter().map(|x| x.unsigned_abs()).max().unwrap();
    let dist = (0..m).flat_map(|a| [false, true].map(|k| (0..m).filter(|x| t[*x] != (par(a & x) ^ k)).count())).min().unwrap();
    if n >= 1 { ensure_eq!(nonlinearity(&t), Some(dist as u64), "nonlinearity of {txt}"); }
    for skip in [false, true] {
        match best_linear_approximation(&t, skip) {
            Some((mask, bias)) => {
                let best = if skip { w[1..].iter().map(|x| x.unsigned_abs()).max().unwrap() } else { mx };
                ensure!(!(skip && mask == 0), "trivial mask returned");
                let agree = (0..m).filter(|x| t[*x] == par(mask & x)).count() as f64 / m as f64;
                ensure!((agree - 0.5).abs() == bias && bias == best as f64 / (2 * m) as f64, "mask {mask} bias {bias} of {txt}");
            }
            None => ensure!(skip && n == 0, "no approximation of {txt}"),
        }
    }
    let ci = (1..=n).find(|k| (0..m).any(|x| x.count_ones() as usize == *k && w[x] != 0)).map_or(n, |k| k - 1);
    ensure_eq!(correlation_immunity_order(&t), Some(ci), "correlation immunity of {txt}");
    let a: Vec<bool> = (0..m).map(|k| (0..m).filter(|x| x & k == *x).fold(false, |r, x| r ^ t[x])).collect();
    ensure_eq!(anf(&t), Some(a.clone()), "normal form of {txt}");
    ensure_eq!(algebraic_degree(&t), Some((0..m).filter(|k| a[*k]).map(|k| k.count_ones() as usize).max().unwrap_or(0)), "degree of {txt}");
    let ac: Vec<i64> = (0..m).map(|d| (0..m).map(|x| sign(t[x] ^ t[x ^ d])).sum()).collect();
    ensure_eq!(autocorrelation(&t), Some(ac), "autocorrelation of {txt}");
    // algebraic immunity: a witness that checks, and nothing smaller exists
    match algebraic_immunity(&t) {
        Some((d, wit)) => {
            ensure!(wit.degree == d && verify_annihilator(&t, &wit), "witness for {txt} at degree {d} does not check");
            ensure!(d <= (n + 1) / 2 || n == 0, "immunity {d} exceeds the bound for {n} inputs");
            if d > 0 && n <= 4 {
                // every nonzero function of smaller degree leaves a nonzero product with both sides
                let monos: Vec<usize> = (0..m).filter(|k| (k.count_ones() as usize) < d).collect();
                for g in 1u64..(1 << monos.len()) {
                    let f = |x: usize| (0..monos.len()).fold(false, |r, i| r ^ (g >> i & 1 == 1 && monos[i] & x == monos[i]));
                    ensure!((0..m).any(|x| t[x] && f(x)) && (0..m).any(|x| !t[x] && f(x)), "a smaller annihilator of {txt} exists");
                }
            }
        }
        None => return fail(format!("no immunity for {txt}")),
    }
    ensure!(walsh_spectrum(&t[..m - 1]).is_none() || (m - 1).is_power_of_two(), "malformed table accepted");
    // polynomial systems over bits
    let nv = s.usize(1, 6);
    let ne = s.usize(1, 8);
    let eqs: Vec<Vec<u64>> = (0..ne).map(|_| { let k = s.usize(1, 4); let mut e: Vec<u64> = (0..k).map(|_| { let a = s.below(1 << nv); if s.chance(2, 3) { a & s.below(1 << nv) } else { a } }).collect(); e.sort(); e.dedup(); e }).collect();
    let sat = |x: u64| eqs.iter().all(|e| e.iter().filter(|m| **m & x == **m).count() % 2 == 0);
    let any = (0..1u64 << nv).any(sat);
    let deg = s.usize(1, nv + 1);
    match solve_polynomial_system_gf2(&eqs, nv, deg) {
        PolySolveResult::Solved(x) => {
            c.class("system solved");
            let v = x.iter().enumerate().fold(0u64, |a, (i, b)| a | ((*b as u64) << i));
            ensure!(x.len() == nv && sat(v), "{eqs:?}: {x:?} is not a solution");
        }
        PolySolveResult::Refuted => { c.class("system refuted"); ensure!(!any, "{eqs:?} refuted though it has a solution") }
        PolySolveResult::Undetermined => c.class("system undetermined"),
    }
    Ok(())
}

/// Recovering hidden registers: what an attack returns regenerates what was observed.
fn recovery(s: &mut Src, c: &mut Ctx) -> R {
    match s.below(4) {
        0 => {
            let (l, d) = (s.usize(1, 5), s.usize(1, 3));
            let n = s.usize(1, 60);
            let b = if s.flip() { bits_of(s, n) } else {
                let f = bits_of(s, 1 << l); let mut b = bits_of(s, l);
                while b.len() < n { let i = b.len(); let x = (0..l).fold(0, |a, j| a | ((b[i - 1 - j] as usize) << j)); b.push((0..1 << l).filter(|k| k & x == *k && (k.count_ones() as usize) <= d).fold(false, |r, k| r ^ f[k])) }
                b.truncate(n); b
            };
            let txt: String = b.iter().map(|x| if *x { '1' } else { '0' }).collect();
            c.show(format!("feedback of length {l} degree {d}: {txt}"));
            c.class("algebraic feedback");
            let got = detect_algebraic_recurrence(&b, l, d);
            // consistent iff the windows admit a polynomial of degree <= d: elimination over monomials
            let monos: Vec<usize> = (0..1 << l).filter(|k: &usize| k.count_ones() as usize <= d).collect();
            let mut rows: Vec<(u64, bool)> = (l..n).map(|i| { let x = (0..l).fold(0, |a, j| a | ((b[i - 1 - j] as usize) << j)); (monos.iter().enumerate().fold(0u64, |a, (q, m)| a | (((m & x == *m) as u64) << q)), b[i]) }).collect();
            let mut r = 0;
            for q in 0..monos.len() {
                if let Some(p) = (r..rows.len()).find(|&i| rows[i].0 >> q & 1 == 1) {
                    rows.swap(r, p); let x = rows[r];
                    for i in 0..rows.len() { if i != r && rows[i].0 >> q & 1 == 1 { rows[i].0 ^= x.0; rows[i].1 ^= x.1 } }
                    r += 1;
                }
            }
            let ok = n > l && rows.iter().all(|x| !(x.0 == 0 && x.1));
            c.nontrivial(ok && n > 2 * l);
            ensure!(got.is_some() == ok, "feedback found: {}, exists: {ok} for {txt}", got.is_some());
            if let Some(k) = got { ensure_eq!(algebraic_generate(l, d, &k, &b[..l], n), b.clone(), "feedback of {txt}"); }
            if n <= 24 {
                if let Some((l2, _)) = algebraic_complexity(&b, d) {
                    ensure!(detect_algebraic_recurrence(&b, l2, d).is_some() && (1..l2).all(|k| detect_algebraic_recurrence(&b, k, d).is_none()), "complexity {l2} of {txt}");
                    if ok && l <= n / 2 { ensure!(l2 <= l, "complexity {l2} exceeds {l} for {txt}") }
                } else { ensure!(!(ok && l <= n / 2), "no complexity for {txt}") }
            }
        }
        1 => {
            let l = s.usize(1, 7);
            let t = { let mut t = bits_of(s, l); t[l - 1] = true; t };
            let n = s.usize(l + 1, 60);
            let k = bits_of(s, n);
            c.show(format!("correlation with taps {t:?}"));
            c.class("correlation");
            c.nontrivial(l > 1);
            let r = correlation_attack(&k, &t);
            let r = match r { Some(r) => r, None => return fail("no state returned") };
            let score = |seed: &[bool]| { let g = lfsr_generate(&t, seed, n); g.iter().zip(&k).filter(|x| x.0 == x.1).count() };
            let best = (1u64..1 << l).map(|q| (score(&(0..l).map(|i| q >> i & 1 == 1).collect::<Vec<_>>()) as f64 / n as f64 - 0.5).abs()).fold(0f64, f64::max);
            ensure!(r.bias == best && r.samples == n && r.register_len == l && (score(&r.init_state) as f64 / n as f64) == r.agreement && (r.agreement - 0.5).abs() == r.bias, "state {:?} agreement {} bias {}, best bias {best}", r.init_state, r.agreement, r.bias);
        }
        2 => {
            let (la, ls) = (s.usize(1, 6), s.usize(1, 7));
            let (mut at, mut st) = (bits_of(s, la), bits_of(s, ls));
            at[la - 1] = true; st[ls - 1] = true;
            let (mut a, sd) = (bits_of(s, la), bits_of(s, ls));
            if !a.iter().any(|x| *x) { a[0] = true }
            let n = s.usize(ls, 50);
            let z = shrinking_generator(&at, &a, &st, &sd, n);
            c.show(format!("shrinking generator {la}/{ls}, {n} bits"));
            c.class("shrinking");
            // definition
            let (ra, rs) = (lfsr_generate(&at, &a, 4 * n + 64), lfsr_generate(&st, &sd, 4 * n + 64));
            let want: Vec<bool> = ra.iter().zip(&rs).filter(|x| *x.0).map(|x| *x.1).take(n).collect();
            ensure_eq!(z, want, "shrunken stream");
            c.nontrivial(z.len() == n);
            if z.len() == n {
                match attack_shrinking_generator(&z, &at, &st) {
                    Some((x, y)) => ensure_eq!(shrinking_generator(&at, &x, &st, &y, n), z, "recovered seeds {x:?} {y:?}"),
                    None => return fail("a stream with known registers was not recovered"),
                }
            }
        }
        _ => {
            let l = s.usize(2, 6);
            let m = s.usize(1, l.min(3));
            let mut t = bits_of(s, l);
            t[l - 1] = true;
            let f = bits_of(s, 1 << m);
            let mut seed = bits_of(s, l);
            if !seed.iter().any(|x| *x) { seed[0] = true }
            let n = s.usize(l + m, 60);
            let q = lfsr_generate(&t, &seed, n + m);
            let z: Vec<bool> = (0..n).map(|i| f[(0..m).fold(0, |a, j| a | ((q[i + j] as usize) << j))]).collect();
            c.show(format!("filter {f:?} over a register of {l}"));
            c.class("filter");
            if let Some(st) = algebraic_filter_attack(&z, &t, &f) {
                c.nontrivial(true);
                let g = lfsr_generate(&t, &st, n + m);
                ensure!((0..n).all(|i| f[(0..m).fold(0, |a, j| a | ((g[i + j] as usize) << j))] == z[i]), "recovered state {st:?} does not reproduce the stream");
            }
            if let Some(st) = fast_correlation_attack(&z, &t, 20) {
                let g = lfsr_generate(&t, &st, n);
                let agree = g.iter().zip(&z).filter(|x| x.0 == x.1).count() as f64 / n as f64;
                ensure!(agree > 0.6, "reported state agrees with {agree}");
            }
        }
    }
    Ok(())
}

pub fn c19() -> Suite {
    let mut s = Suite::new("C19", "the sequence has at least three elements and is not described by the plain form (round trip), the generated structure is of the named kind with a register longer than one bit, or the damaged message has more than three bytes");
    s.assume("damaged messages are decoded with receiver limits up to 20000 elements; the built-in 2^28 limit is the same code path");
    s.prop("round-trip", 12_000, 200_000, round_trip);
    s.prop("hostile", 60_000, 1_000_000, hostile);
    s.prop("generators", 30_000, 500_000, generators);
    s.prop("primitives", 60_000, 1_000_000, primitives);
    s.prop("detectors", 20_000, 400_000, detectors);
    s.prop("registers", 12_000, 200_000, registers);
    s.prop("functions", 20_000, 300_000, functions);
    s.prop("recovery", 20_000, 300_000, recovery);
    s
}
