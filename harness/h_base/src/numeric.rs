//! C15: exact numbers against num-bigint / num-rational.
use logicaffeine_base::numeric::*;
use num_bigint::{BigInt as NB, Sign};
use num_integer::Integer;
use num_rational::BigRational as NR;
use num_traits::{Num, One, Pow, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use vcore::*;

pub(crate) fn h<T: Hash>(x: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// A big integer as (ours, reference), built limb by limb so that carries, borrows and
/// normalisation boundaries are common.
fn gen_big(s: &mut Src, max_limbs: usize) -> (BigInt, NB) {
    if s.chance(2, 5) {
        let v = s.i64_edge();
        return (BigInt::from_i64(v), NB::from(v));
    }
    let n = s.usize(1, max_limbs);
    let mut bytes = Vec::new();
    for _ in 0..n {
        let limb = match s.below(7) {
            0 => 0u64,
            1 => u64::MAX,
            2 => 1,
            3 => 1 << 63,
            4 => u64::MAX - s.below(3),
            5 => s.below(1000),
            _ => s.u64(),
        };
        bytes.extend_from_slice(&limb.to_le_bytes());
    }
    let cut = s.usize(0, 7);
    bytes.truncate(bytes.len() - cut);
    let neg = s.flip();
    let sign = if neg { Sign::Minus } else { Sign::Plus };
    (BigInt::from_le_bytes(neg, &bytes), NB::from_bytes_le(sign, &bytes))
}

pub(crate) fn same(a: &BigInt, r: &NB, what: &str) -> R {
    let (neg, bytes) = a.to_le_bytes();
    let sign = if neg { Sign::Minus } else { Sign::Plus };
    let back = NB::from_bytes_le(sign, &bytes);
    ensure!(back == *r, "{what}: got {a}, want {r}");
    ensure!(!(neg && r.is_zero()), "{what}: negative zero");
    ensure!(a.is_zero() == r.is_zero() && a.is_negative() == r.is_negative() && a.is_positive() == r.is_positive(), "{what}: sign queries wrong for {r}");
    // canonical: equal to, and hashes like, an independently built equal value
    let indep = BigInt::from_le_bytes(r.sign() == Sign::Minus, &r.to_bytes_le().1);
    ensure!(*a == indep && h(a) == h(&indep) && a.cmp(&indep) == Ordering::Equal, "{what}: {r} is not equal to or hashes differently from an equal value built another way");
    Ok(())
}

pub(crate) fn nr(r: &Rational) -> NR {
    NR::new(to_nb(r.numerator()), to_nb(r.denominator()))
}
pub(crate) fn to_nb(a: &BigInt) -> NB {
    let (neg, b) = a.to_le_bytes();
    NB::from_bytes_le(if neg { Sign::Minus } else { Sign::Plus }, &b)
}
pub(crate) fn same_q(a: &Rational, r: &NR, what: &str) -> R {
    same(a.numerator(), r.numer(), &format!("{what} numerator"))?;
    same(a.denominator(), r.denom(), &format!("{what} denominator"))?;
    Ok(())
}
pub(crate) fn gen_q(s: &mut Src, limbs: usize) -> (Rational, NR) {
    let (n, rn) = gen_big(s, limbs);
    loop {
        let (d, rd) = gen_big(s, limbs);
        if rd.is_zero() {
            let one = BigInt::from_i64(1);
            return (Rational::new(n, one).unwrap(), NR::new(rn, NB::one()));
        }
        return (Rational::new(n, d).unwrap(), NR::new(rn, rd));
    }
}

fn bigint(s: &mut Src, c: &mut Ctx) -> R {
    let lim = if c.thorough { 40 } else { 7 };
    let (a, ra) = gen_big(s, lim);
    let (mut b, mut rb) = gen_big(s, lim);
    match s.below(6) {
        // related operands: near-multiples make the division steps interesting
        0 => {
            let (m, rm) = gen_big(s, 3);
            let (e, re) = gen_big(s, 1);
            b = a.mul(&m).add(&e);
            rb = &ra * &rm + &re;
        }
        1 => {
            let d = s.int(-3, 3);
            b = a.add(&BigInt::from_i64(d));
            rb = &ra + NB::from(d);
        }
        2 => {
            b = a.negated();
            rb = -&ra;
        }
        _ => {}
    }
    c.show(format!("a={ra} b={rb}"));
    c.nontrivial(ra.bits() > 64 || rb.bits() > 64);
    same(&a, &ra, "a")?;
    same(&a.add(&b), &(&ra + &rb), "a+b")?;
    same(&a.sub(&b), &(&ra - &rb), "a-b")?;
    same(&b.sub(&a), &(&rb - &ra), "b-a")?;
    same(&a.mul(&b), &(&ra * &rb), "a*b")?;
    same(&a.negated(), &(-&ra), "-a")?;
    same(&a.abs(), &ra.abs(), "|a|")?;
    match a.div_rem(&b) {
        None => ensure!(rb.is_zero(), "a/b refused for nonzero b"),
        Some((q, r)) => {
            ensure!(!rb.is_zero(), "division by zero answered");
            let (rq, rr) = ra.div_rem(&rb);
            same(&q, &rq, "a/b")?;
            same(&r, &rr, "a%b")?;
        }
    }
    if let Some((q, r)) = b.div_rem(&a) {
        let (rq, rr) = rb.div_rem(&ra);
        same(&q, &rq, "b/a")?;
        same(&r, &rr, "b%a")?;
    }
    ensure_eq!(a.cmp(&b), ra.cmp(&rb), "cmp");
    ensure_eq!(a == b, ra == rb, "eq");
    ensure_eq!(a.is_odd(), ra.is_odd(), "is_odd({ra})");
    ensure_eq!(a.to_i64(), ra.to_i64(), "to_i64({ra})");
    ensure_eq!(a.to_string(), ra.to_string(), "Display");
    match BigInt::parse_decimal(&ra.to_string()) {
        Some(p) => same(&p, &ra, "parse(print)")?,
        None => return fail(format!("{ra} does not parse")),
    }
    let f = a.to_f64();
    let rf = ra.to_f64().unwrap();
    if rf.is_finite() {
        ensure!(f == rf || ((f - rf) / rf).abs() < 1e-14, "to_f64({ra}) = {f:e}, reference {rf:e}");
    }
    let u = s.u64_edge();
    same(&BigInt::from_u64(u), &NB::from(u), "from_u64")?;
    if ra.bits() <= 130 {
        let e = s.below(if c.thorough { 60 } else { 14 }) as u32;
        same(&a.pow(e), &Pow::pow(&ra, e), &format!("{ra}^{e}"))?;
    }
    Ok(())
}

fn parse(s: &mut Src, c: &mut Ctx) -> R {
    // Mostly well-formed literals with a possible corruption.
    let sign = *s.pick(&["", "-", "+"]);
    let digs = |s: &mut Src, lo: usize, hi: usize| -> String {
        let n = s.usize(lo, hi);
        (0..n).map(|_| *s.pick(&['0', '1', '9', '5', '0', '3', '7', '2', '4', '6', '8'])).collect()
    };
    let i = digs(s, 0, 45);
    let f = digs(s, 0, 30);
    let kind = s.below(5);
    match kind {
        0 => {
            c.show(format!("int {sign}{i}"));
            c.nontrivial(i.len() > 19);
            let t = format!("{sign}{i}");
            match BigInt::parse_decimal(&t) {
                None => ensure!(i.is_empty(), "parse_decimal({t:?}) refused"),
                Some(v) => {
                    ensure!(!i.is_empty(), "parse_decimal({t:?}) accepted an empty number");
                    let r = NB::from_str_radix(&i, 10).unwrap() * if sign == "-" { -1 } else { 1 };
                    same(&v, &r, &format!("parse {t}"))?;
                }
            }
        }
        1 => {
            let t = format!("{sign}{i}.{f}");
            c.show(format!("decimal {t}"));
            c.nontrivial(!f.is_empty());
            match Decimal::parse(&t) {
                None => ensure!(i.is_empty() && f.is_empty(), "Decimal::parse({t:?}) refused"),
                Some(v) => {
                    ensure!(!(i.is_empty() && f.is_empty()), "Decimal::parse({t:?}) accepted");
                    let all = format!("0{i}{f}");
                    let r = NR::new(NB::from_str_radix(&all, 10).unwrap() * if sign == "-" { -1 } else { 1 }, Pow::pow(NB::from(10), f.len()));
                    ensure!(nr(&v.to_rational()) == r, "Decimal::parse({t:?}) = {v}");
                    ensure_eq!(v.scale() as usize, f.len(), "scale of {t}");
                }
            }
        }
        2 => {
            let d = digs(s, 0, 30);
            let sp = *s.pick(&["", " "]);
            let t = format!("{sign}{i}{sp}/{sp}{d}");
            c.show(format!("ratio {t}"));
            c.nontrivial(!i.is_empty() && !d.is_empty());
            let den = NB::from_str_radix(&format!("0{d}"), 10).unwrap();
            match Rational::parse(&t) {
                None => ensure!(i.is_empty() || d.is_empty() || den.is_zero(), "Rational::parse({t:?}) refused"),
                Some(v) => {
                    ensure!(!i.is_empty() && !d.is_empty() && !den.is_zero(), "Rational::parse({t:?}) accepted");
                    let r = NR::new(NB::from_str_radix(&i, 10).unwrap() * if sign == "-" { -1 } else { 1 }, den);
                    same_q(&v, &r, &format!("parse {t}"))?;
                }
            }
        }
        3 => {
            // corrupted: one non-digit character inside
            let bad = *s.pick(&['a', '_', '/', ':', 'e', '٣', '\u{0}', ',', '½', '²']);
            let j = digs(s, 1, 5);
            let t = format!("{sign}{i}{bad}{j}");
            c.show(format!("bad {t:?}"));
            c.nontrivial(true);
            ensure!(guarded(|| BigInt::parse_decimal(&t)).map_err(|m| Fail { msg: m })?.is_none(), "parse_decimal({t:?}) accepted");
            ensure!(guarded(|| Decimal::parse(&t)).map_err(|m| Fail { msg: m })?.is_none(), "Decimal::parse({t:?}) accepted");
            if bad != '/' {
                ensure!(guarded(|| Rational::parse(&t)).map_err(|m| Fail { msg: m })?.is_none(), "Rational::parse({t:?}) accepted");
            }
        }
        _ => {
            // arbitrary text never panics
            let t = if s.flip() { s.text(12) } else { let n = s.usize(0, 10); (0..n).map(|_| *s.pick(&['-', '+', 'i', '/', '.', '1', '0', ' '])).collect() };
            c.show(format!("any {t:?}"));
            c.nontrivial(!t.is_empty());
            guarded(|| {
                let _ = BigInt::parse_decimal(&t);
                let _ = Decimal::parse(&t);
                let _ = Rational::parse(&t);
                let _ = Complex::parse(&t);
            })
            .map_err(|m| Fail { msg: format!("parsing {t:?} {m}") })?;
        }
    }
    Ok(())
}

fn rational(s: &mut Src, c: &mut Ctx) -> R {
    let lim = if c.thorough { 10 } else { 3 };
    let (a, ra) = gen_q(s, lim);
    let (mut b, mut rb) = gen_q(s, lim);
    if s.chance(1, 5) {
        b = a.negated();
        rb = -&ra;
    }
    c.show(format!("a={ra} b={rb}"));
    c.nontrivial(!ra.is_integer() || !rb.is_integer());
    same_q(&a, &ra, "a")?;
    same_q(&a.add(&b), &(&ra + &rb), "a+b")?;
    same_q(&a.sub(&b), &(&ra - &rb), "a-b")?;
    same_q(&a.mul(&b), &(&ra * &rb), "a*b")?;
    match a.div(&b) {
        None => ensure!(rb.is_zero(), "a/b refused"),
        Some(q) => {
            ensure!(!rb.is_zero(), "a/0 answered");
            same_q(&q, &(&ra / &rb), "a/b")?;
        }
    }
    match a.recip() {
        None => ensure!(ra.is_zero(), "recip refused"),
        Some(q) => same_q(&q, &ra.recip(), "1/a")?,
    }
    same_q(&a.negated(), &(-&ra), "-a")?;
    same_q(&a.abs(), &ra.abs(), "|a|")?;
    same(&a.floor(), &ra.floor().to_integer(), "floor")?;
    same(&a.ceil(), &ra.ceil().to_integer(), "ceil")?;
    same(&a.round(), &ra.round().to_integer(), "round")?;
    // exact halves
    let k = s.i64_edge();
    let half = NR::new(NB::from(k), NB::from(2));
    let oh = Rational::from_ratio_i64(k, 2).unwrap();
    let away = if half.is_integer() { half.to_integer() } else { let t = half.to_integer(); if half.is_negative() { t - 1 } else { t + 1 } };
    same(&oh.round(), &away, "round of a half")?;
    ensure_eq!(a.cmp(&b), ra.cmp(&rb), "cmp");
    ensure_eq!(a == b, ra == rb, "eq");
    ensure_eq!(a.is_integer(), ra.is_integer(), "is_integer");
    ensure_eq!(a.is_zero(), ra.is_zero(), "is_zero");
    ensure_eq!(a.is_negative(), ra.is_negative(), "is_negative");
    ensure_eq!(a.to_i64(), if ra.is_integer() { ra.to_integer().to_i64() } else { None }, "to_i64");
    match a.to_bigint() {
        None => ensure!(!ra.is_integer(), "to_bigint refused"),
        Some(v) => same(&v, &ra.to_integer(), "to_bigint")?,
    }
    let printed = a.to_string();
    match Rational::parse(&printed) {
        Some(p) => ensure!(p == a && h(&p) == h(&a), "parse(print) of {printed}"),
        None => return fail(format!("{printed} does not parse back")),
    }
    // the same value by another route compares and hashes equal
    let route = a.add(&b).sub(&b);
    ensure!(route == a && h(&route) == h(&a), "a+b-b differs from a");
    let e = s.int(-6, 9) as i32;
    match a.pow(e) {
        None => ensure!(ra.is_zero() && e < 0, "pow refused"),
        Some(p) => {
            ensure!(!(ra.is_zero() && e < 0), "0^negative answered");
            same_q(&p, &Pow::pow(&ra, e), &format!("a^{e}"))?;
        }
    }
    let fx = a.to_f64();
    let rf = ra.numer().to_f64().unwrap() / ra.denom().to_f64().unwrap();
    ensure!(fx == rf || (fx.is_nan() && rf.is_nan()) || ((fx - rf) / rf).abs() < 1e-13, "to_f64 {fx:e} vs {rf:e}");
    Ok(())
}

const MODES: [RoundingMode; 7] = [
    RoundingMode::Down,
    RoundingMode::Up,
    RoundingMode::Floor,
    RoundingMode::Ceiling,
    RoundingMode::HalfUp,
    RoundingMode::HalfDown,
    RoundingMode::HalfEven,
];

/// Rounding stated by distance to the two neighbouring integers (not by remainders).
pub(crate) fn round_ref(x: &NR, m: RoundingMode) -> NB {
    let lo = x.floor().to_integer();
    let hi = x.ceil().to_integer();
    if lo == hi {
        return lo;
    }
    let zero_side = if x.is_negative() { &hi } else { &lo };
    let far_side = if x.is_negative() { &lo } else { &hi };
    let dl = x - NR::from(lo.clone());
    let dh = NR::from(hi.clone()) - x;
    let near = |tie: &NB| -> NB {
        match dl.cmp(&dh) {
            Ordering::Less => lo.clone(),
            Ordering::Greater => hi.clone(),
            Ordering::Equal => tie.clone(),
        }
    };
    match m {
        RoundingMode::Down => zero_side.clone(),
        RoundingMode::Up => far_side.clone(),
        RoundingMode::Floor => lo.clone(),
        RoundingMode::Ceiling => hi.clone(),
        RoundingMode::HalfUp => near(far_side),
        RoundingMode::HalfDown => near(zero_side),
        RoundingMode::HalfEven => near(if lo.is_even() { &lo } else { &hi }),
    }
}

pub(crate) fn gen_dec(s: &mut Src) -> (Decimal, NR) {
    let (a, ra) = if s.flip() {
        // digits ending in 5 / 50 / 49 / 51 so ties are common
        let k = s.int(-100_000, 100_000);
        let tail = *s.pick(&[5i64, 50, 500, 49, 51, 4999, 5001, 0, 25, 75]);
        let v = k * 10000 + tail * if k < 0 { -1 } else { 1 };
        (BigInt::from_i64(v), NB::from(v))
    } else {
        gen_big(s, 3)
    };
    let sc = s.usize(0, 12) as u32;
    (Decimal::from_coeff_scale(a, sc), NR::new(ra, Pow::pow(NB::from(10), sc)))
}

fn decimal(s: &mut Src, c: &mut Ctx) -> R {
    let (a, ra) = gen_dec(s);
    let (b, rb) = gen_dec(s);
    let m = *s.pick(&MODES);
    let sc = s.usize(0, 10) as u32;
    c.show(format!("a={a} b={b} scale={sc} mode={m:?}"));
    c.nontrivial(sc < a.scale() || !ra.is_integer());
    let ten = |k: u32| -> NR { NR::from(Pow::pow(NB::from(10), k)) };
    same_q(&a.to_rational(), &ra, "value")?;
    same_q(&a.add(&b).to_rational(), &(&ra + &rb), "a+b")?;
    same_q(&a.sub(&b).to_rational(), &(&ra - &rb), "a-b")?;
    same_q(&a.mul(&b).to_rational(), &(&ra * &rb), "a*b")?;
    same_q(&a.negated().to_rational(), &(-&ra), "-a")?;
    same_q(&a.abs().to_rational(), &ra.abs(), "|a|")?;
    let rs = a.rescale(sc, m);
    ensure_eq!(rs.scale(), sc, "rescale scale");
    same(rs.coefficient(), &round_ref(&(&ra * ten(sc)), m), "rescale")?;
    match a.div(&b, sc, m) {
        None => ensure!(rb.is_zero(), "a/b refused"),
        Some(q) => {
            ensure!(!rb.is_zero(), "a/0 answered");
            ensure_eq!(q.scale(), sc, "div scale");
            same(q.coefficient(), &round_ref(&(&ra / &rb * ten(sc)), m), "a/b")?;
        }
    }
    let (x, rx) = gen_q(s, 2);
    let fr = Decimal::from_rational(&x, sc, m);
    same(fr.coefficient(), &round_ref(&(&rx * ten(sc)), m), "from_rational")?;
    ensure_eq!(a.cmp(&b), ra.cmp(&rb), "cmp");
    ensure_eq!(a == b, ra == rb, "eq");
    // trailing zeros change nothing about the value
    let wide = a.rescale(a.scale() + s.usize(0, 5) as u32, m);
    ensure!(wide == a && h(&wide) == h(&a) && wide.cmp(&a) == Ordering::Equal, "{wide} should equal {a}");
    let t = a.to_string();
    match Decimal::parse(&t) {
        Some(p) => ensure!(p == a && p.scale() == a.scale() && p.to_string() == t, "print/parse of {t}"),
        None => return fail(format!("{t} does not parse back")),
    }
    let (n, by, scx) = a.to_le_bytes();
    let back = Decimal::from_le_bytes(n, &by, scx);
    ensure!(back == a && back.scale() == a.scale(), "byte round trip of {t}");
    Ok(())
}

fn complex(s: &mut Src, c: &mut Ctx) -> R {
    let g = |s: &mut Src| {
        let (a, ra) = if s.chance(1, 4) { let k = s.int(-2, 2); (Rational::from_i64(k), NR::from(NB::from(k))) } else { gen_q(s, 2) };
        let (b, rb) = if s.chance(1, 4) { let k = s.int(-2, 2); (Rational::from_i64(k), NR::from(NB::from(k))) } else { gen_q(s, 2) };
        (Complex::new(a, b), ra, rb)
    };
    let (x, a, b) = g(s);
    let (y, p, q) = g(s);
    c.show(format!("x={x} y={y}"));
    c.nontrivial(!b.is_zero() && !q.is_zero());
    let eq = |z: &Complex, re: NR, im: NR, w: &str| -> R {
        same_q(z.re(), &re, &format!("{w} re"))?;
        same_q(z.im(), &im, &format!("{w} im"))
    };
    eq(&x.add(&y), &a + &p, &b + &q, "x+y")?;
    eq(&x.sub(&y), &a - &p, &b - &q, "x-y")?;
    eq(&x.mul(&y), &a * &p - &b * &q, &a * &q + &b * &p, "x*y")?;
    eq(&x.negated(), -&a, -&b, "-x")?;
    eq(&x.conjugate(), a.clone(), -&b, "conj")?;
    same_q(&x.norm_sqr(), &(&a * &a + &b * &b), "norm_sqr")?;
    let ny = &p * &p + &q * &q;
    match x.div(&y) {
        None => ensure!(ny.is_zero(), "x/y refused"),
        Some(z) => {
            ensure!(!ny.is_zero(), "x/0 answered");
            eq(&z, (&a * &p + &b * &q) / &ny, (&b * &p - &a * &q) / &ny, "x/y")?;
        }
    }
    ensure_eq!(x.is_zero(), a.is_zero() && b.is_zero(), "is_zero");
    ensure_eq!(x.is_real(), b.is_zero(), "is_real");
    ensure_eq!(x == y, a == p && b == q, "eq");
    let t = x.to_string();
    match Complex::parse(&t) {
        Some(z) => ensure!(z == x, "print/parse {t} gives {z}"),
        None => return fail(format!("{t} does not parse back")),
    }
    let e = s.int(-4, 6) as i32;
    let nx = &a * &a + &b * &b;
    match guarded(|| x.pow(e)).map_err(|m| Fail { msg: m })? {
        None => ensure!(nx.is_zero() && e < 0, "pow refused"),
        Some(z) => {
            ensure!(!(nx.is_zero() && e < 0), "0^negative answered");
            let (br, bi) = if e < 0 { (&a / &nx, -&b / &nx) } else { (a.clone(), b.clone()) };
            let (mut r, mut i) = (NR::one(), NR::zero());
            for _ in 0..e.unsigned_abs() {
                let (r2, i2) = (&r * &br - &i * &bi, &r * &bi + &i * &br);
                r = r2;
                i = i2;
            }
            eq(&z, r, i, &format!("x^{e}"))?;
        }
    }
    // units have finite orbits, so every exponent is affordable
    let u = *s.pick(&[(1i64, 0i64), (-1, 0), (0, 1), (0, -1)]);
    let e = if s.chance(1, 3) { *s.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, -1, 0]) } else { s.u64() as i32 };
    let z = guarded(|| Complex::new(Rational::from_i64(u.0), Rational::from_i64(u.1)).pow(e)).map_err(|m| Fail { msg: format!("({}+{}i)^{e}: {m}", u.0, u.1) })?;
    let k = (e as i64).rem_euclid(4);
    let (mut r, mut i) = (1i64, 0i64);
    for _ in 0..k {
        let t = r * u.0 - i * u.1;
        i = r * u.1 + i * u.0;
        r = t;
    }
    match z {
        Some(z) => eq(&z, NR::from(NB::from(r)), NR::from(NB::from(i)), &format!("unit ({},{})^{e}", u.0, u.1))?,
        None => return fail("unit power refused"),
    }
    Ok(())
}

fn modular(s: &mut Src, c: &mut Ctx) -> R {
    let (m, rm) = gen_big(s, 2);
    let (a, ra) = gen_big(s, 3);
    let (b, rb) = gen_big(s, 3);
    c.show(format!("a={ra} b={rb} mod {rm}"));
    c.nontrivial(rm > NB::one());
    let Some(x) = Modular::new(a, m.clone()) else {
        ensure!(!rm.is_positive(), "modulus {rm} refused");
        return Ok(());
    };
    ensure!(rm.is_positive(), "modulus {rm} accepted");
    let y = Modular::new(b, m.clone()).unwrap();
    let (xa, yb) = (ra.mod_floor(&rm), rb.mod_floor(&rm));
    let eq = |z: &Modular, r: NB, w: &str| -> R {
        same(z.value(), &r.mod_floor(&rm), w)?;
        same(z.modulus(), &rm, w)
    };
    eq(&x, ra.clone(), "x")?;
    eq(&x.add(&y).unwrap(), &xa + &yb, "x+y")?;
    eq(&x.sub(&y).unwrap(), &xa - &yb, "x-y")?;
    eq(&x.mul(&y).unwrap(), &xa * &yb, "x*y")?;
    eq(&x.negated(), -&xa, "-x")?;
    let e = s.u64_edge();
    eq(&x.pow(e), xa.modpow(&NB::from(e), &rm), &format!("x^{e}"))?;
    match y.inverse() {
        None => ensure!(!yb.gcd(&rm).is_one(), "inverse of {yb} mod {rm} refused"),
        Some(i) => {
            ensure!(yb.gcd(&rm).is_one(), "inverse of non-unit answered");
            ensure!((to_nb(i.value()) * &yb).mod_floor(&rm) == NB::one().mod_floor(&rm), "y*inv(y) != 1");
            ensure!(i.value().is_negative() == false && to_nb(i.value()) < rm, "inverse out of range");
        }
    }
    match x.div(&y) {
        None => ensure!(!yb.gcd(&rm).is_one(), "x/y refused"),
        Some(z) => ensure!((to_nb(z.value()) * &yb).mod_floor(&rm) == xa, "(x/y)*y != x"),
    }
    let other = Modular::new(BigInt::from_i64(1), m.add(&BigInt::from_i64(1))).unwrap();
    ensure!(x.add(&other).is_none() && x.sub(&other).is_none() && x.mul(&other).is_none() && x.div(&other).is_none(), "moduli mixed");
    Ok(())
}

fn f64_exact(f: f64) -> NR {
    NR::from_float(f).unwrap()
}

fn cross(s: &mut Src, c: &mut Ctx) -> R {
    // an f64 near an integer/rational, compared exactly
    let i = s.i64_edge();
    let mut f = match s.below(4) {
        0 => s.f64_any(),
        1 => i as f64,
        2 => {
            let b = (i as f64).to_bits();
            let d = s.int(-2, 2);
            f64::from_bits(b.wrapping_add(d as u64))
        }
        _ => i as f64 + *s.pick(&[0.5, -0.5, 0.25, 1e-3]),
    };
    if s.chance(1, 30) {
        f = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    }
    let (b, rb) = match s.below(3) {
        0 => gen_big(s, 4),
        1 if f.is_finite() => {
            let t = f64_exact(f).to_integer() + s.int(-1, 1);
            (BigInt::parse_decimal(&t.to_string()).unwrap(), t)
        }
        _ => (BigInt::from_i64(i), NB::from(i)),
    };
    let (q, rq) = if f.is_finite() && s.flip() {
        let e = f64_exact(f);
        let (n, d) = (e.numer().clone() + s.int(-1, 1), e.denom().clone());
        let p = |x: &NB| BigInt::parse_decimal(&x.to_string()).unwrap();
        (Rational::new(p(&n), p(&d)).unwrap(), NR::new(n, d))
    } else {
        gen_q(s, 2)
    };
    c.show(format!("i={i} f={f:?} b={rb} q={rq}"));
    c.nontrivial(f.is_finite() && (i.unsigned_abs() > 1 << 53 || f.fract() != 0.0));
    let want = |x: &NR| -> Option<Ordering> {
        if f.is_nan() {
            None
        } else if f == f64::INFINITY {
            Some(Ordering::Less)
        } else if f == f64::NEG_INFINITY {
            Some(Ordering::Greater)
        } else {
            Some(x.cmp(&f64_exact(f)))
        }
    };
    ensure_eq!(cmp_i64_f64_exact(i, f), want(&NR::from(NB::from(i))), "cmp_i64_f64({i},{f:?})");
    ensure_eq!(cmp_bigint_f64_exact(&b, f), want(&NR::from(rb.clone())), "cmp_bigint_f64({rb},{f:?})");
    ensure_eq!(cmp_rational_f64_exact(&q, f), want(&rq), "cmp_rational_f64({rq},{f:?})");
    match rational_from_f64_exact(f) {
        None => ensure!(!f.is_finite(), "exact value of {f:?} refused"),
        Some(r) => {
            ensure!(f.is_finite(), "non-finite converted");
            same_q(&r, &f64_exact(f), &format!("exact value of {f:?}"))?;
        }
    }
    // equal values hash equal across representations
    let hi = numeric_hash_i64(i);
    ensure_eq!(hi, numeric_hash_bigint(&BigInt::from_i64(i)), "hash i64 vs bigint {i}");
    ensure_eq!(hi, numeric_hash_rational(&Rational::from_i64(i)), "hash i64 vs rational {i}");
    ensure_eq!(numeric_hash_bigint(&b), numeric_hash_rational(&Rational::from_bigint(b.clone())), "hash bigint vs rational {rb}");
    if f.is_finite() {
        let r = rational_from_f64_exact(f).unwrap();
        ensure_eq!(numeric_hash_f64(f), numeric_hash_rational(&r), "hash f64 vs rational {f:?}");
        if let Some(v) = r.to_i64() {
            ensure_eq!(numeric_hash_f64(f), numeric_hash_i64(v), "hash f64 vs i64 {f:?}");
        }
    }
    // and the hash is the value modulo 2^61-1, so unequal small integers differ
    let j = s.int(-1000, 1000);
    let k = s.int(-1000, 1000);
    ensure_eq!(numeric_hash_i64(j) == numeric_hash_i64(k), j == k, "hash of {j} and {k}");
    Ok(())
}

pub fn c15() -> Suite {
    let mut s = Suite::new("C15", "at least one operand is outside i64 or non-integral, or the rounding/exactness branch is taken (per operation)");
    s.assume("to_f64 is documented as a lossy view and is only held to a relative error of 1e-13");
    s.prop("bigint", 60_000, 600_000, bigint);
    s.prop("rational", 30_000, 300_000, rational);
    s.prop("decimal", 30_000, 300_000, decimal);
    s.prop("complex", 10_000, 100_000, complex);
    s.prop("modular", 10_000, 100_000, modular);
    s.prop("cross", 40_000, 400_000, cross);
    s.prop("parse", 40_000, 400_000, parse);
    s
}
