//! C18: dimensions, units, money and identifiers.
use crate::numeric::{gen_dec, gen_q, h, nr, round_ref, same_q};
use logicaffeine_base::dimension::*;
use logicaffeine_base::hash;
use logicaffeine_base::money::{self, *};
use logicaffeine_base::numeric::*;
use logicaffeine_base::quantity::*;
use logicaffeine_base::uuid as lu;
use md5::Digest;
use num_bigint::BigInt as NB;
use num_rational::BigRational as NR;
use num_traits::{One, Pow, Signed, Zero};
use vcore::*;

fn q(t: &str) -> NR {
    // "a/b" or a decimal with optional exponent
    if let Some((a, b)) = t.split_once('/') {
        return q(a) / q(b);
    }
    let (m, e) = t.split_once('e').unwrap_or((t, "0"));
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let n: NB = format!("{i}{f}").parse().unwrap();
    let e: i64 = e.parse::<i64>().unwrap() - f.len() as i64;
    let p = Pow::pow(NB::from(10), e.unsigned_abs());
    if e >= 0 { NR::from(n * p) } else { NR::new(n, p) }
}

/// Per dimension: exponents over (length mass time current temperature amount luminous angle solid
/// information) and the exact size of each unit relative to the first.
const GROUPS: &[([i32; 10], &[(&str, &str)])] = &[
    ([1, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[("metre", "1"), ("km", "1000"), ("cm", "0.01"), ("mm", "0.001"), ("micron", "1e-6"), ("nm", "1e-9"), ("inch", "0.0254"), ("feet", "0.3048"), ("yard", "0.9144"), ("mile", "1609.344"), ("nautical mile", "1852"), ("angstrom", "1e-10"), ("light year", "9460730472580800"), ("au", "149597870700"), ("megametre", "1e6"), ("gigametre", "1e9"), ("pm", "1e-12"), ("fathom", "1.8288"), ("light second", "299792458"), ("light minute", "17987547480")]),
    ([0, 1, 0, 0, 0, 0, 0, 0, 0, 0], &[("kilogram", "1"), ("gram", "0.001"), ("mg", "1e-6"), ("microgram", "1e-9"), ("tonne", "1000"), ("pound", "0.45359237"), ("ounce", "0.028349523125"), ("stone", "6.35029318"), ("carat", "0.0002"), ("nanogram", "1e-12")]),
    ([0, 0, 1, 0, 0, 0, 0, 0, 0, 0], &[("second", "1"), ("ms", "0.001"), ("microsecond", "1e-6"), ("ns", "1e-9"), ("minute", "60"), ("hour", "3600"), ("day", "86400"), ("week", "604800"), ("year", "31557600")]),
    ([3, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[("cubic metre", "1"), ("litre", "0.001"), ("ml", "1e-6"), ("gallon", "0.003785411784"), ("quart", "0.000946352946"), ("pint", "0.000473176473"), ("cup", "0.0002365882365"), ("tablespoon", "0.00001478676478125"), ("teaspoon", "0.00000492892159375"), ("fluid ounce", "0.0000295735295625")]),
    ([2, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[("square metre", "1"), ("square foot", "0.09290304"), ("square inch", "0.00064516"), ("hectare", "10000"), ("acre", "4046.8564224")]),
    ([1, 0, -1, 0, 0, 0, 0, 0, 0, 0], &[("m/s", "1"), ("km/h", "1/3.6"), ("mph", "0.44704"), ("knot", "1852/3600")]),
    ([0, 0, -1, 0, 0, 0, 0, 0, 0, 0], &[("hertz", "1"), ("kilohertz", "1000"), ("megahertz", "1e6"), ("gigahertz", "1e9"), ("becquerel", "1"), ("curie", "3.7e10")]),
    ([2, 1, -2, 0, 0, 0, 0, 0, 0, 0], &[("joule", "1"), ("kilojoule", "1000"), ("calorie", "4.184"), ("kilocalorie", "4184"), ("watt hour", "3600"), ("kilowatt hour", "3600000"), ("electronvolt", "1.602176634e-19")]),
    ([2, 1, -3, 0, 0, 0, 0, 0, 0, 0], &[("watt", "1"), ("kilowatt", "1000"), ("megawatt", "1e6"), ("gigawatt", "1e9"), ("terawatt", "1e12")]),
    ([-1, 1, -2, 0, 0, 0, 0, 0, 0, 0], &[("pascal", "1"), ("kilopascal", "1000"), ("bar", "100000"), ("atmosphere", "101325"), ("psi", "4.4482216152605/0.00064516")]),
    ([0, 0, 0, 0, 0, 0, 0, 0, 0, 1], &[("bit", "1"), ("byte", "8"), ("kilobyte", "8000"), ("megabyte", "8e6"), ("gigabyte", "8e9"), ("terabyte", "8e12"), ("petabyte", "8e15")]),
    ([0, 0, 0, 0, 0, 0, 0, 1, 0, 0], &[("degree", "1"), ("turn", "360"), ("gradian", "0.9"), ("arcminute", "1/60"), ("arcsecond", "1/3600")]),
    ([2, 0, -2, 0, 0, 0, 0, 0, 0, 0], &[("gray", "1"), ("sievert", "1"), ("rad", "0.01"), ("rem", "0.01")]),
    ([0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[("each", "1"), ("pair", "2"), ("dozen", "12"), ("score", "20"), ("gross", "144"), ("percent", "0.01"), ("permille", "0.001"), ("ppm", "1e-6"), ("ppb", "1e-9"), ("basis point", "0.0001")]),
    ([0, 0, -1, 0, 0, 0, 0, 0, 0, 1], &[("bit per second", "1"), ("kbps", "1000"), ("mbps", "1e6"), ("gbps", "1e9"), ("byte per second", "8")]),
    ([-2, -1, 4, 2, 0, 0, 0, 0, 0, 0], &[("farad", "1"), ("microfarad", "1e-6"), ("nanofarad", "1e-9"), ("picofarad", "1e-12")]),
    ([0, 1, -2, -1, 0, 0, 0, 0, 0, 0], &[("tesla", "1"), ("gauss", "0.0001")]),
    ([2, 1, -2, -1, 0, 0, 0, 0, 0, 0], &[("weber", "1"), ("maxwell", "1e-8")]),
    ([-1, 1, -1, 0, 0, 0, 0, 0, 0, 0], &[("pascal second", "1"), ("poise", "0.1"), ("centipoise", "0.001")]),
    ([2, 0, -1, 0, 0, 0, 0, 0, 0, 0], &[("stokes", "1"), ("centistokes", "0.01")]),
    ([3, 0, -1, 0, 0, 0, 0, 0, 0, 0], &[("litre per second", "1"), ("gpm", "3.785411784/60"), ("cfm", "28.316846592/60")]),
    ([-2, 0, 0, 0, 0, 0, 1, 0, 1, 0], &[("lux", "1"), ("phot", "10000"), ("foot candle", "1/0.09290304")]),
    ([-3, 0, 0, 0, 0, 1, 0, 0, 0, 0], &[("molar", "1"), ("millimolar", "0.001")]),
];
/// Temperature scales: kelvin = value * scale + offset.
const TEMPS: &[(&str, &str, &str)] = &[("kelvin", "1", "0"), ("celsius", "1", "273.15"), ("fahrenheit", "5/9", "2298.35/9"), ("rankine", "5/9", "0"), ("reaumur", "5/4", "273.15")];

fn dim(e: &[i32; 10]) -> Dimension {
    let mut x = [Exp::ZERO; 10];
    for i in 0..10 {
        x[i] = Exp::int(e[i]);
    }
    Dimension::from_exps(x)
}

fn unit_table(s: &mut Src, c: &mut Ctx) -> R {
    let (v, rv) = gen_q(s, 2);
    if s.chance(1, 8) {
        let (a, sa, oa) = *s.pick(TEMPS);
        let (b, sb, ob) = *s.pick(TEMPS);
        c.show(format!("{rv} {a} in {b}"));
        c.nontrivial(a != b);
        let (ua, ub) = (units::by_name(a).unwrap(), units::by_name(b).unwrap());
        let got = Quantity::of(v.clone(), &ua).in_unit(&ub);
        let want = (rv * q(sa) + q(oa) - q(ob)) / q(sb);
        match got {
            Some(g) => same_q(&g, &want, &format!("{a} in {b}"))?,
            None => return fail(format!("{a} does not convert to {b}")),
        }
        return Ok(());
    }
    let (e, us) = *s.pick(GROUPS);
    let (a, fa) = *s.pick(us);
    let (b, fb) = *s.pick(us);
    let text = |s: &mut Src, t: &str| match s.below(3) { 0 => t.to_uppercase(), 1 => format!("  {t} "), _ => t.to_string() };
    let (na, nb) = (text(s, a), text(s, b));
    c.show(format!("{rv} {a} in {b}"));
    c.nontrivial(a != b && !rv.is_zero());
    let ua = match units::by_name(&na) { Some(u) => u, None => return fail(format!("unit {na:?} unknown")) };
    let ub = match units::by_name(&nb) { Some(u) => u, None => return fail(format!("unit {nb:?} unknown")) };
    ensure!(ua.dimension == dim(&e), "{a} has dimension {}", ua.dimension);
    let x = Quantity::of(v.clone(), &ua);
    match x.in_unit(&ub) {
        Some(g) => {
            same_q(&g, &(rv.clone() * q(fa) / q(fb)), &format!("{rv} {a} in {b}"))?;
            let back = Quantity::of(g, &ub).in_unit(&ua);
            ensure!(back.as_ref() == Some(&v), "{rv} {a} to {b} and back gives {back:?}");
        }
        None => return fail(format!("{a} does not convert to {b}")),
    }
    // another dimension refuses
    let (e2, us2) = *s.pick(GROUPS);
    if e2 != e {
        let u2 = units::by_name(s.pick(us2).0).unwrap();
        let y = Quantity::of(v.clone(), &u2);
        ensure!(x.in_unit(&u2).is_none() && x.add(&y).is_none() && x.sub(&y).is_none(), "{a} mixed with {}", u2.symbol);
    }
    // the human scale
    let ladder: Vec<Unit> = us.iter().filter_map(|u| units::by_name(u.0)).collect();
    let n = s.usize(1, ladder.len());
    let ladder = &ladder[..n];
    match x.in_best_unit(ladder) {
        None => return fail("no unit chosen from a ladder of the same dimension"),
        Some((m, u)) => {
            ensure!(Quantity::of(m.clone(), u) == x, "best unit changed the value");
            let mags: Vec<NR> = us[..n].iter().map(|t| (rv.clone() * q(fa) / q(t.1)).abs()).collect();
            let one = NR::one();
            let want = mags.iter().filter(|m| **m >= one).min().or(mags.iter().max()).unwrap();
            ensure!(&nr(&m).abs() == want, "best unit of {rv} {a} is {m:?} {}, should have magnitude {want}", u.symbol);
        }
    }
    Ok(())
}

fn gen_dim(s: &mut Src) -> (Dimension, [NR; 10]) {
    let mut e = [Exp::ZERO; 10];
    let mut r: [NR; 10] = std::array::from_fn(|_| NR::zero());
    for i in 0..10 {
        if s.chance(1, 3) {
            let (n, d) = (s.int(-9, 9) as i32, if s.chance(1, 3) { *s.pick(&[2, 3, 4, -2, 6]) } else { 1 });
            e[i] = Exp::new(n, d);
            r[i] = NR::new(NB::from(n), NB::from(d));
        }
    }
    (Dimension::from_exps(e), r)
}

fn dimensions(s: &mut Src, c: &mut Ctx) -> R {
    let ((a, ra), (b, rb)) = (gen_dim(s), gen_dim(s));
    let k = *s.pick(&[-3i32, -2, -1, 1, 2, 3, 4]);
    c.show(format!("[{a}] [{b}] k={k}"));
    c.nontrivial(!a.is_dimensionless() && !b.is_dimensionless());
    let ck = |d: Dimension, want: &dyn Fn(usize) -> NR, what: &str| -> R {
        for (i, ax) in BaseDim::ALL.iter().enumerate() {
            let e = d.exponent(*ax);
            let w = want(i);
            ensure!(NB::from(e.numerator()) == *w.numer() && NB::from(e.denominator()) == *w.denom(), "{what} of [{a}] [{b}] (k={k}): axis {i} has exponent {e}, should be {w}");
        }
        Ok(())
    };
    let kk = NR::from(NB::from(k));
    ck(a, &|i| ra[i].clone(), "exponents")?;
    ck(a.mul(b), &|i| &ra[i] + &rb[i], "product")?;
    ck(a.div(b), &|i| &ra[i] - &rb[i], "quotient")?;
    ck(a.recip(), &|i| -&ra[i], "reciprocal")?;
    ck(a.powi(k), &|i| &ra[i] * &kk, "power")?;
    ck(a.nth_root(k), &|i| &ra[i] / &kk, "root")?;
    ck(a.powi(0), &|_| NR::zero(), "zeroth power")?;
    ensure!(a.powi(k).nth_root(k) == a && a.nth_root(k).powi(k) == a, "root and power are not inverse");
    ensure_eq!(a == b, ra == rb, "equality");
    ensure_eq!(a.is_dimensionless(), ra.iter().all(|x| x.is_zero()), "dimensionless");
    if a == b {
        ensure_eq!(h(&a), h(&b), "hash");
    }
    // quantities carry them
    let ((x, rx), (y, ry)) = (gen_q(s, 2), gen_q(s, 2));
    let (p, t) = (Quantity::si(x, a), Quantity::si(y, b));
    let m = p.mul(&t);
    ck(m.dimension(), &|i| &ra[i] + &rb[i], "product dimension")?;
    same_q(m.magnitude_si(), &(&rx * &ry), "product")?;
    match p.div(&t) {
        Some(d) => {
            ensure!(!ry.is_zero(), "division by zero accepted");
            ck(d.dimension(), &|i| &ra[i] - &rb[i], "quotient dimension")?;
            same_q(d.magnitude_si(), &(&rx / &ry), "quotient")?;
        }
        None => ensure!(ry.is_zero(), "quotient refused"),
    }
    ensure_eq!(p.add(&t).is_some(), ra == rb, "addition allowed");
    let p2 = Quantity::si(t.magnitude_si().clone(), a);
    same_q(p.add(&p2).unwrap().magnitude_si(), &(&rx + &ry), "sum")?;
    same_q(p.sub(&p2).unwrap().magnitude_si(), &(&rx - &ry), "difference")?;
    Ok(())
}

const CODES: &[(&str, u32)] = &[("USD", 2), ("EUR", 2), ("GBP", 2), ("CHF", 2), ("CAD", 2), ("AUD", 2), ("NZD", 2), ("SGD", 2), ("HKD", 2), ("CNY", 2), ("INR", 2), ("BRL", 2), ("MXN", 2), ("ZAR", 2), ("SEK", 2), ("NOK", 2), ("DKK", 2), ("RUB", 2), ("TRY", 2), ("PLN", 2), ("JPY", 0), ("KRW", 0), ("ISK", 0), ("VND", 0), ("CLP", 0), ("BHD", 3), ("KWD", 3), ("OMR", 3), ("JOD", 3), ("TND", 3)];

fn minor(x: &NR, scale: u32) -> NR {
    let p = NR::from(Pow::pow(NB::from(10), scale));
    NR::from(round_ref(&(x * &p), RoundingMode::HalfEven)) / p
}

fn money_ops(s: &mut Src, c: &mut Ctx) -> R {
    let (ca, sa) = *s.pick(CODES);
    let (cb, sb) = if s.flip() { (ca, sa) } else { *s.pick(CODES) };
    let cur = |s: &mut Src, t: &str| { let n = match s.below(3) { 0 => t.to_lowercase(), 1 => format!(" {t} "), _ => t.into() }; currency::by_code(&n) };
    let (ka, kb) = match (cur(s, ca), cur(s, cb)) { (Some(a), Some(b)) => (a, b), _ => return fail(format!("{ca} or {cb} unknown")) };
    ensure!(ka.scale == sa && ka.code == ca, "{ca} has scale {}", ka.scale);
    // amounts near ties of the minor unit
    let amount = |s: &mut Src, sc: u32| -> (Decimal, NR) {
        if s.flip() {
            gen_dec(s)
        } else {
            let n = s.int(-1_000_000, 1_000_000);
            let d = *s.pick(&["5", "50", "4999", "5001", "0", "49", "51"]);
            let t = format!("{n}{d}");
            let co: NB = t.parse().unwrap();
            let scale = sc + d.len() as u32;
            (Decimal::from_coeff_scale(BigInt::parse_decimal(&t).unwrap(), scale), NR::new(co, Pow::pow(NB::from(10), scale)))
        }
    };
    let (da, xa) = amount(s, sa);
    let (db, xb) = amount(s, sb);
    let k = s.i64_edge();
    c.show(format!("{xa} {ca}, {xb} {cb}, x{k}"));
    c.nontrivial(!xa.is_zero() && !xb.is_zero());
    let (ma, mb) = (Money::of(da, ka), Money::of(db, kb));
    let (ra, rb) = (minor(&xa, sa), minor(&xb, sb));
    let ck = |m: &Money, want: &NR, code: &str, scale: u32, what: &str| -> R {
        ensure!(m.currency.code == code, "{what}: currency {}", m.currency.code);
        same_q(&m.amount.to_rational(), want, what)?;
        // text: sign, digits, exactly `scale` places, code
        let units = (want * NR::from(Pow::pow(NB::from(10), scale))).to_integer();
        let digits = format!("{:0>w$}", units.abs().to_string(), w = scale as usize + 1);
        let (i, f) = digits.split_at(digits.len() - scale as usize);
        let t = format!("{}{i}{}{f} {code}", if units.is_negative() { "-" } else { "" }, if scale > 0 { "." } else { "" });
        ensure_eq!(m.to_string(), t, "{what} text");
        Ok(())
    };
    ck(&ma, &ra, ca, sa, "amount")?;
    match (ma.add(&mb), ma.sub(&mb), ca == cb) {
        (Some(x), Some(y), true) => {
            ck(&x, &(&ra + &rb), ca, sa, "sum")?;
            ck(&y, &(&ra - &rb), ca, sa, "difference")?;
        }
        (None, None, false) => {}
        _ => return fail(format!("mixing {ca} and {cb}")),
    }
    ck(&ma.scale_int(k), &(&ra * NR::from(NB::from(k))), ca, sa, "multiple")?;
    match ma.ratio(&mb) {
        Some(r) => {
            ensure!(ca == cb && !rb.is_zero(), "ratio of {ca} and {cb}");
            same_q(&r, &(&ra / &rb), "ratio")?;
        }
        None => ensure!(ca != cb || rb.is_zero(), "ratio refused"),
    }
    ensure_eq!(ma == mb, ca == cb && ra == rb, "equality");
    if ma == mb {
        ensure_eq!(h(&ma), h(&mb), "hash");
    }
    // conversion through a rate table
    let (fa, rfa) = gen_q(s, 1);
    let (fb, rfb) = gen_q(s, 1);
    let mut t = RateTable::new();
    let has_b = s.chance(7, 8);
    t.set(&ca.to_lowercase(), fa);
    if has_b {
        t.set(cb, fb);
    }
    let (rfa, known) = if has_b && ca == cb { (rfb.clone(), true) } else { (rfa, has_b || ca == cb) };
    let rfb = if ca == cb { rfa.clone() } else { rfb };
    let got = t.convert(&ma, kb);
    if !known || rfb.is_zero() {
        ensure!(got.is_none(), "conversion without a rate gave {got:?}");
    } else {
        let w = minor(&(&ra * &rfa / &rfb), sb);
        match &got {
            Some(g) => ck(g, &w, cb, sb, "conversion")?,
            None => return fail("conversion refused"),
        }
    }
    money::clear_ambient_rates();
    ensure!(money::ambient_convert(&ma, kb).is_none() && !money::has_ambient_rates(), "conversion without rates in scope");
    money::set_ambient_rates(t);
    let amb = money::ambient_convert(&ma, kb);
    ensure!(amb.as_ref().map(|m| m.to_string()) == got.as_ref().map(|m| m.to_string()), "ambient conversion differs");
    money::clear_ambient_rates();
    Ok(())
}

fn identifiers(s: &mut Src, c: &mut Ctx) -> R {
    let mut b = [0u8; 16];
    match s.below(4) {
        0 => b = [*s.pick(&[0u8, 255]); 16],
        _ => b.iter_mut().for_each(|x| *x = s.below(256) as u8),
    }
    let u = lu::Uuid::from_bytes(b);
    let r = uuid::Uuid::from_bytes(b);
    c.show(r.to_string());
    c.nontrivial(b != [0; 16]);
    ensure_eq!(u.to_string(), r.to_string(), "text");
    ensure_eq!(u.version() as usize, r.get_version_num(), "version");
    let var = match r.get_variant() { uuid::Variant::NCS => lu::Variant::Ncs, uuid::Variant::RFC4122 => lu::Variant::Rfc4122, uuid::Variant::Microsoft => lu::Variant::Microsoft, _ => lu::Variant::Future };
    ensure_eq!(u.variant(), var, "variant");
    ensure_eq!((u.is_nil(), u.is_max()), (r.is_nil(), r.is_max()), "nil/max");
    let forms = [r.hyphenated().to_string(), r.simple().to_string(), r.braced().to_string(), r.urn().to_string(), r.hyphenated().to_string().to_uppercase(), r.simple().to_string().to_uppercase(), format!(" {} ", r.hyphenated())];
    for f in &forms {
        ensure_eq!(lu::Uuid::parse(f), Some(u), "parse {f}");
    }
    let mut b2 = [0u8; 16];
    b2.iter_mut().for_each(|x| *x = s.below(256) as u8);
    ensure_eq!(u.cmp(&lu::Uuid::from_bytes(b2)), b.cmp(&b2), "order");
    // one character replaced: accepted exactly when it is still a well-formed identifier
    let f = s.usize(0, 1);
    let mut t: Vec<u8> = forms[f].clone().into_bytes();
    let at = s.usize(0, t.len() - 1);
    t[at] = match s.below(4) {
        0 => *s.pick(b"gG/:@`-_ xZ\x00\x7f"),
        1 => s.below(128) as u8,
        2 => *s.pick(b"0123456789abcdefABCDEF"),
        _ => *s.pick(b"{}\n+,."),
    };
    if let Ok(txt) = String::from_utf8(t) {
        let trimmed = txt.trim();
        let ok = match trimmed.len() {
            36 => trimmed.bytes().enumerate().all(|(i, ch)| if [8, 13, 18, 23].contains(&i) { ch == b'-' } else { ch.is_ascii_hexdigit() }),
            32 => trimmed.bytes().all(|ch| ch.is_ascii_hexdigit()),
            _ => false,
        };
        let got = lu::Uuid::parse(&txt);
        ensure!(got.is_some() == ok, "parse {txt:?} gives {got:?}");
        if let (Some(g), Ok(w)) = (got, uuid::Uuid::parse_str(trimmed)) {
            ensure_eq!(g.to_bytes(), *w.as_bytes(), "parse {txt:?}");
        }
    }
    let junk = s.text(60);
    let g = guarded(|| lu::Uuid::parse(&junk)).map_err(|m| Fail { msg: format!("parse {junk:?} {m}") })?;
    if let Some(g) = g {
        ensure!(uuid::Uuid::parse_str(junk.trim()).map(|w| *w.as_bytes()) == Ok(g.to_bytes()), "{junk:?} accepted");
    }
    // packed records
    let n = s.usize(0, 5);
    let ids: Vec<lu::Uuid> = (0..n).map(|_| { let mut b = [0u8; 16]; b.iter_mut().for_each(|x| *x = s.below(256) as u8); lu::Uuid::from_bytes(b) }).collect();
    let mut packed = lu::encode_many(&ids);
    ensure_eq!(String::from_utf8_lossy(&packed).to_string(), ids.iter().map(|i| uuid::Uuid::from_bytes(i.to_bytes()).to_string()).collect::<String>(), "packed text");
    if n > 0 {
        ensure_eq!(lu::Uuid::parse_many(&packed), Some(ids.clone()), "packed parse");
        let at = s.usize(0, packed.len() - 1);
        let ch = s.below(256) as u8;
        packed[at] = ch;
        let p = at % 36;
        let ok = if [8, 13, 18, 23].contains(&p) { ch == b'-' } else { ch.is_ascii_hexdigit() };
        ensure!(lu::Uuid::parse_many(&packed).is_some() == ok, "packed records with byte {ch} at {at}");
        let cut = s.usize(0, 35);
        ensure!(cut == 0 || lu::Uuid::parse_many(&packed[..packed.len() - cut]).is_none(), "truncated packed records accepted");
    } else {
        ensure!(lu::Uuid::parse_many(&packed).is_none(), "empty packed records");
    }
    // derived identifiers
    let len = match s.below(4) { 0 => s.usize(0, 70), 1 => s.usize(225, 260), 2 => s.usize(40, 60), _ => s.usize(0, 1000) };
    let name = s.bytes(len);
    let ns = uuid::Uuid::from_bytes(b2);
    let lns = lu::Uuid::from_bytes(b2);
    ensure_eq!(lu::Uuid::new_v3(lns, &name).to_bytes(), uuid::Uuid::new_v3(&ns, &name).into_bytes(), "v3 of {} bytes", name.len());
    ensure_eq!(lu::Uuid::new_v5(lns, &name).to_bytes(), uuid::Uuid::new_v5(&ns, &name).into_bytes(), "v5 of {} bytes", name.len());
    ensure_eq!(lu::Uuid::new_v4(b).to_bytes(), uuid::Builder::from_random_bytes(b).into_uuid().into_bytes(), "v4");
    let ms = s.u64() >> 16;
    let rnd: [u8; 10] = b2[..10].try_into().unwrap();
    ensure_eq!(lu::Uuid::new_v7(ms, rnd).to_bytes(), uuid::Builder::from_unix_timestamp_millis(ms, &rnd).into_uuid().into_bytes(), "v7");
    let ticks = s.u64() >> 4;
    let seq = s.below(1 << 14) as u16;
    let node: [u8; 6] = b2[..6].try_into().unwrap();
    // version 1 and 6 hold the same clock in different orders
    let (v1, v6) = (lu::Uuid::new_v1(ticks, seq, node).to_bytes(), lu::Uuid::new_v6(ticks, seq, node).to_bytes());
    let be = |x: &[u8]| x.iter().fold(0u64, |a, b| a << 8 | *b as u64);
    ensure_eq!((be(&v1[6..8]) & 0xfff) << 48 | be(&v1[4..6]) << 32 | be(&v1[0..4]), ticks, "v1 clock");
    ensure_eq!(be(&v6[0..4]) << 28 | be(&v6[4..6]) << 12 | be(&v6[6..8]) & 0xfff, ticks, "v6 clock");
    for v in [&v1, &v6] {
        ensure_eq!(be(&v[8..10]) & 0x3fff, seq as u64, "clock sequence");
        ensure_eq!(v[10..], node, "node");
        ensure_eq!(v[8] >> 6, 2, "variant bits");
    }
    ensure_eq!((v1[6] >> 4, v6[6] >> 4, lu::Uuid::new_v8(b).version()), (1, 6, 8), "versions");
    let v8 = lu::Uuid::new_v8(b).to_bytes();
    ensure!((0..16).all(|i| match i { 6 => v8[6] & 15 == b[6] & 15, 8 => v8[8] & 63 == b[8] & 63 && v8[8] >> 6 == 2, _ => v8[i] == b[i] }), "v8 lost bits");
    Ok(())
}

fn hashes(s: &mut Src, c: &mut Ctx) -> R {
    let n = match s.below(4) { 0 => s.usize(0, 200), 1 => s.usize(50, 70), 2 => 64 * s.usize(0, 20) + s.usize(0, 2), _ => s.usize(0, 3000) };
    let msgs: Vec<Vec<u8>> = (0..8).map(|_| s.bytes(n)).collect();
    c.show(format!("{n} bytes {:02x?}", &msgs[0][..n.min(8)]));
    c.nontrivial(n > 55);
    let m5: Vec<[u8; 16]> = msgs.iter().map(|m| md5::Md5::digest(m).into()).collect();
    for (m, w) in msgs.iter().zip(&m5) {
        ensure_eq!(hash::md5(m), *w, "md5 of {n} bytes");
        let w1: [u8; 20] = sha1::Sha1::digest(m).into();
        ensure_eq!(hash::sha1(m), w1, "sha1 of {n} bytes");
    }
    let r: Vec<&[u8]> = msgs.iter().map(|m| &m[..]).collect();
    ensure_eq!(hash::md5_x4([r[0], r[1], r[2], r[3]])[..], m5[..4], "four-way md5 of {n} bytes");
    ensure_eq!(hash::md5_x8([r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]])[..], m5[..], "eight-way md5 of {n} bytes");
    ensure_eq!(hash::to_hex(&msgs[0]), msgs[0].iter().map(|b| format!("{b:02x}")).collect::<String>(), "hex");
    Ok(())
}

pub fn c18() -> Suite {
    let mut s = Suite::new("C18", "two different units, two non-zero amounts, two dimensioned operands, a non-nil identifier, a message longer than one block");
    s.assume("unit sizes are checked for the units listed in the harness table, whose exact factors are fixed by definition");
    s.assume("dimension exponents stay within +-9 and denominators within 6, so that 32-bit exponent arithmetic cannot overflow");
    s.prop("units", 100_000, 2_000_000, unit_table);
    s.prop("dimensions", 60_000, 1_000_000, dimensions);
    s.prop("money", 60_000, 1_000_000, money_ops);
    s.prop("identifiers", 60_000, 1_000_000, identifiers);
    s.prop("hashes", 10_000, 200_000, hashes);
    s
}
