//! C12: every value survives the wire unchanged under every encoding choice.
//! C13: malformed input from a peer is rejected, never fatal.
use logicaffeine_base::{BigInt, Complex, Decimal, Modular, Money, Quantity, Rational, Uuid, WordVal};
use logicaffeine_compile::concurrency::marshal::*;
use logicaffeine_compile::concurrency::stream::{frame_for_stream, StreamDeframer};
use logicaffeine_compile::interpreter::{InductiveValue, ListRepr, MapStorage, QuantityValue, RuntimeValue, StructValue};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use vcore::*;

// ---------------------------------------------------------------- the model value

#[derive(Clone, Debug)]
pub enum M {
    Int(i64),
    Big(bool, Vec<u8>),
    Rat(i64, i64, u32),
    Dec(String),
    Cpx(i64, i64, i64, i64),
    Mod(i64, i64),
    Word(u32, u64),
    Float(u64),
    Bool(bool),
    Text(String),
    Char(char),
    Nothing,
    Duration(i64),
    Date(i32),
    Moment(i64),
    Span(i32, i32),
    Time(i64),
    Peer(String),
    Money(String, &'static str),
    Uuid([u8; 16]),
    Qty(i64, i64, &'static str),
    List(Vec<M>, bool),
    Tuple(Vec<M>),
    Set(Vec<M>),
    Map(Vec<(M, M)>),
    Struct(String, Vec<(String, M)>),
    Ind(String, String, Vec<M>),
    /// The same subtree reached from several places.
    Shared(usize, Rc<M>),
}

fn rat(n: i64, d: i64, shift: u32) -> Rational {
    let mut num = BigInt::from_i64(n);
    let k = BigInt::from_i64(1 << 31);
    for _ in 0..shift {
        num = num.mul(&k);
    }
    Rational::new(num, BigInt::from_i64(d)).unwrap()
}

type Pool = HashMap<usize, RuntimeValue>;

pub fn build(m: &M, pool: &mut Pool) -> RuntimeValue {
    use RuntimeValue as V;
    match m {
        M::Int(n) => V::Int(*n),
        M::Big(neg, mag) => V::from_bigint(BigInt::from_le_bytes(*neg, mag)),
        M::Rat(n, d, sh) => V::from_rational(rat(*n, *d, *sh)),
        M::Dec(t) => V::Decimal(Rc::new(Decimal::parse(t).unwrap())),
        M::Cpx(a, b, c, d) => V::Complex(Rc::new(Complex::new(rat(*a, *b, 0), rat(*c, *d, 0)))),
        M::Mod(v, n) => V::Modular(Rc::new(Modular::from_i64(*v, *n).unwrap())),
        M::Word(w, v) => V::Word(WordVal::from_u64(*w, *v).unwrap()),
        M::Float(b) => V::Float(f64::from_bits(*b)),
        M::Bool(b) => V::Bool(*b),
        M::Text(t) => V::Text(Rc::new(t.clone())),
        M::Char(c) => V::Char(*c),
        M::Nothing => V::Nothing,
        M::Duration(n) => V::Duration(*n),
        M::Date(n) => V::Date(*n),
        M::Moment(n) => V::Moment(*n),
        M::Span(a, b) => V::Span { months: *a, days: *b },
        M::Time(n) => V::Time(*n),
        M::Peer(t) => V::Peer(Rc::new(t.clone())),
        M::Money(a, c) => V::Money(Rc::new(Money::of(
            Decimal::parse(a).unwrap(),
            logicaffeine_base::money::currency::by_code(c).unwrap(),
        ))),
        M::Uuid(b) => V::Uuid(Rc::new(Uuid::from_bytes(*b))),
        M::Qty(n, d, u) => {
            let unit = logicaffeine_base::quantity::units::by_name(u).unwrap();
            V::Quantity(Rc::new(QuantityValue { q: Quantity::of(rat(*n, *d, 0), &unit), unit }))
        }
        M::List(xs, boxed) => {
            let v: Vec<_> = xs.iter().map(|x| build(x, pool)).collect();
            V::List(Rc::new(RefCell::new(if *boxed { ListRepr::Boxed(v) } else { ListRepr::from_values(v) })))
        }
        M::Tuple(xs) => V::Tuple(Rc::new(xs.iter().map(|x| build(x, pool)).collect())),
        M::Set(xs) => V::Set(Rc::new(RefCell::new(xs.iter().map(|x| build(x, pool)).collect()))),
        M::Map(es) => {
            let mut ms = MapStorage::default();
            for (k, v) in es {
                let k = build(k, pool);
                let v = build(v, pool);
                ms.insert(k, v);
            }
            V::Map(Rc::new(RefCell::new(ms)))
        }
        M::Struct(n, fs) => V::Struct(Box::new(StructValue {
            type_name: n.clone(),
            fields: fs.iter().map(|(k, v)| (k.clone(), build(v, pool))).collect(),
        })),
        M::Ind(t, c, a) => V::Inductive(Box::new(InductiveValue {
            inductive_type: t.clone(),
            constructor: c.clone(),
            args: a.iter().map(|x| build(x, pool)).collect(),
        })),
        M::Shared(id, inner) => {
            if let Some(v) = pool.get(id) {
                return v.clone();
            }
            let v = build(inner, pool);
            pool.insert(*id, v.clone());
            v
        }
    }
}

fn fl(b: f64) -> String {
    if b.is_nan() {
        "nan".into()
    } else {
        format!("{:016x}", b.to_bits())
    }
}

fn joined(mut xs: Vec<String>, sort: bool) -> String {
    if sort {
        xs.sort();
    }
    xs.join(",")
}

/// What the value must look like on arrival, computed from the model alone.
fn want(m: &M) -> String {
    match m {
        M::Int(n) => format!("i{n}"),
        M::Big(neg, mag) => {
            let b = num_bigint::BigInt::from_bytes_le(
                if *neg { num_bigint::Sign::Minus } else { num_bigint::Sign::Plus },
                mag,
            );
            match i64::try_from(b.clone()) {
                Ok(n) => format!("i{n}"),
                Err(_) => format!("I{b}"),
            }
        }
        M::Rat(n, d, sh) => {
            use num_integer::Integer;
            let mut num = num_bigint::BigInt::from(*n) << (31 * *sh as usize);
            let mut den = num_bigint::BigInt::from(*d);
            let g = num.gcd(&den);
            num /= &g;
            den /= &g;
            if den < num_bigint::BigInt::from(0) {
                num = -num;
                den = -den;
            }
            if den == num_bigint::BigInt::from(1) {
                match i64::try_from(num.clone()) {
                    Ok(n) => format!("i{n}"),
                    Err(_) => format!("I{num}"),
                }
            } else {
                format!("r{num}/{den}")
            }
        }
        M::Dec(t) => format!("d{t}"),
        M::Cpx(a, b, c, d) => format!("c{}:{}", small_rat(*a, *b), small_rat(*c, *d)),
        M::Mod(v, n) => format!("m{} (mod {n})", v.rem_euclid(*n)),
        M::Word(w, v) => format!("w{w}:{}", if *w == 32 { *v as u32 as u64 } else { *v }),
        M::Float(b) => format!("f{}", fl(f64::from_bits(*b))),
        M::Bool(b) => format!("b{b}"),
        M::Text(t) => format!("t{t:?}"),
        M::Char(c) => format!("h{c:?}"),
        M::Nothing => "nothing".into(),
        M::Duration(n) => format!("dur{n}"),
        M::Date(n) => format!("date{n}"),
        M::Moment(n) => format!("mom{n}"),
        M::Span(a, b) => format!("span{a}/{b}"),
        M::Time(n) => format!("time{n}"),
        M::Peer(t) => format!("peer{t:?}"),
        M::Uuid(b) => format!("uuid{b:02x?}"),
        M::Qty(..) | M::Money(..) => shown(&build(m, &mut Pool::new())),
        M::List(xs, _) => format!("[{}]", joined(xs.iter().map(want).collect(), false)),
        M::Tuple(xs) => format!("({})", joined(xs.iter().map(want).collect(), false)),
        M::Set(xs) => format!("set{{{}}}", joined(xs.iter().map(want).collect(), true)),
        M::Map(es) => format!("map{{{}}}", joined(es.iter().map(|(k, v)| format!("{}=>{}", want(k), want(v))).collect(), true)),
        M::Struct(n, fs) => format!("{n:?}{{{}}}", joined(fs.iter().map(|(k, v)| format!("{k:?}:{}", want(v))).collect(), true)),
        M::Ind(t, c, a) => format!("{t:?}::{c:?}({})", joined(a.iter().map(want).collect(), false)),
        M::Shared(_, inner) => want(inner),
    }
}

fn small_rat(n: i64, d: i64) -> String {
    use num_integer::Integer;
    let g = (n as i128).gcd(&(d as i128));
    let (mut n, mut d) = (n as i128 / g, d as i128 / g);
    if d < 0 {
        n = -n;
        d = -d;
    }
    format!("{n}/{d}")
}

/// The observable content of a runtime value, type tags included.
pub fn shown(v: &RuntimeValue) -> String {
    use RuntimeValue as V;
    match v {
        V::Int(n) => format!("i{n}"),
        V::BigInt(b) => format!("I{b}"),
        V::Rational(r) => format!("r{}/{}", r.numerator(), r.denominator()),
        V::Decimal(d) => format!("d{d}"),
        V::Complex(c) => format!("c{}/{}:{}/{}", c.re().numerator(), c.re().denominator(), c.im().numerator(), c.im().denominator()),
        V::Modular(m) => format!("m{m}"),
        V::Word(w) => format!("w{}:{}", w.width(), w.to_u64()),
        V::Float(f) => format!("f{}", fl(*f)),
        V::Bool(b) => format!("b{b}"),
        V::Text(t) => format!("t{t:?}"),
        V::Char(c) => format!("h{c:?}"),
        V::Nothing => "nothing".into(),
        V::Duration(n) => format!("dur{n}"),
        V::Date(n) => format!("date{n}"),
        V::Moment(n) => format!("mom{n}"),
        V::Span { months, days } => format!("span{months}/{days}"),
        V::Time(n) => format!("time{n}"),
        V::Peer(t) => format!("peer{t:?}"),
        V::Money(m) => format!("money{}{}", m.amount, m.currency.code),
        V::Uuid(u) => format!("uuid{:02x?}", u.to_bytes()),
        V::Quantity(q) => format!("qty{} {:?} {}", q.q.magnitude_si(), q.q.dimension(), q.display()),
        V::List(l) => format!("[{}]", joined(l.borrow().to_values().iter().map(shown).collect(), false)),
        V::Tuple(xs) => format!("({})", joined(xs.iter().map(shown).collect(), false)),
        V::Set(xs) => format!("set{{{}}}", joined(xs.borrow().iter().map(shown).collect(), true)),
        V::Map(m) => format!("map{{{}}}", joined(m.borrow().iter().map(|(k, v)| format!("{}=>{}", shown(k), shown(v))).collect(), true)),
        V::Struct(s) => format!("{:?}{{{}}}", s.type_name, joined(s.fields.iter().map(|(k, v)| format!("{k:?}:{}", shown(v))).collect(), true)),
        V::Inductive(i) => format!("{:?}::{:?}({})", i.inductive_type, i.constructor, joined(i.args.iter().map(shown).collect(), false)),
        V::Function(_) => "function".into(),
        V::Chan(c) => format!("chan{}", c.0),
        V::TaskHandle(t) => format!("task{}", t.0),
        V::Crdt(_) => "crdt".into(),
        V::Lanes(_) => "lanes".into(),
    }
}

// ---------------------------------------------------------------- generators

pub struct Gen {
    next_id: usize,
    shared: Vec<(usize, Rc<M>)>,
}

const UNITS: [&str; 6] = ["metre", "inch", "kilogram", "celsius", "mile", "second"];
const CODES: [&str; 4] = ["USD", "EUR", "JPY", "GBP"];
const NAMES: [&str; 8] = ["a", "b", "x", "y", "id", "name", "", "größe"];
const TYPES: [&str; 5] = ["Point", "Order", "P", "Ünï", "T"];
const CTORS: [&str; 5] = ["Red", "Green", "Circle", "None", "Some"];

/// Integer columns of every shape the codec has a layout for, and near misses of each.
pub fn int_column(s: &mut Src, n: usize) -> Vec<i64> {
    let kind = s.weighted(&[4, 4, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 3, 2]);
    let base = if s.chance(1, 4) { s.i64_edge() } else { s.int(-1000, 1000) };
    let step = if s.chance(1, 6) { s.i64_edge() } else { s.int(-50, 50) };
    let mut v: Vec<i64> = match kind {
        0 => (0..n).map(|_| s.int(0, 200)).collect(),
        1 => (0..n).map(|_| s.i64_edge()).collect(),
        2 => (0..n).map(|i| base.wrapping_add(step.wrapping_mul(i as i64))).collect(),
        3 => {
            let mut c = base;
            (0..n).map(|_| { c = c.wrapping_add(s.int(0, 20)); c }).collect()
        }
        4 => {
            let (mut c, mut d) = (base, step);
            (0..n).map(|_| { d = d.wrapping_add(s.int(-1, 1)); c = c.wrapping_add(d); c }).collect()
        }
        5 => {
            let lo = base;
            let w = s.int(0, 300);
            (0..n).map(|_| lo.wrapping_add(s.int(0, w))).collect()
        }
        6 => {
            let mut c = base;
            (0..n).map(|_| { if s.chance(1, 6) { c = s.i64_edge(); } c }).collect()
        }
        7 => {
            let k = s.usize(1, 5);
            let d: Vec<i64> = (0..k).map(|_| s.i64_edge()).collect();
            (0..n).map(|_| *s.pick(&d)).collect()
        }
        8 => {
            let (a, b, c) = (s.int(-5, 5), s.int(-9, 9), s.int(-9, 9));
            (0..n as i64).map(|i| base.wrapping_add(a.wrapping_mul(i * i * i)).wrapping_add(b.wrapping_mul(i * i)).wrapping_add(c * i)).collect()
        }
        9 => {
            let r = s.int(-4, 4);
            let mut c = if base == 0 { 1 } else { base };
            (0..n).map(|_| { let x = c; c = c.wrapping_mul(r); x }).collect()
        }
        10 => {
            let p = s.usize(1, 9);
            let d: Vec<i64> = (0..p).map(|_| s.i64_edge()).collect();
            (0..n).map(|i| d[i % p]).collect()
        }
        11 => {
            let z = *s.pick(&[0i64, 0, -1, 7]);
            (0..n).map(|_| if s.chance(1, 12) { s.i64_edge() } else { z }).collect()
        }
        12 => {
            // linear recurrences
            let (mut a, mut b) = (s.int(-3, 9), s.int(-3, 9));
            let (p, q) = (s.int(-3, 3), s.int(-3, 3));
            (0..n).map(|_| { let x = a; let c = p.wrapping_mul(a).wrapping_add(q.wrapping_mul(b)); a = b; b = c; x }).collect()
        }
        _ => (0..n).map(|_| s.int(0, 255)).collect(),
    };
    // near misses: one element off the pattern
    if !v.is_empty() && s.chance(1, 4) {
        let at = s.usize(0, v.len() - 1);
        v[at] = if s.flip() { s.i64_edge() } else { v[at].wrapping_add(s.int(-2, 2)) };
    }
    v
}

fn float_column(s: &mut Src, n: usize) -> Vec<u64> {
    let base = if s.chance(1, 3) { s.f64_any() } else { s.int(-100, 100) as f64 / 4.0 };
    let step = s.int(-20, 20) as f64 / *s.pick(&[1.0, 2.0, 8.0, 10.0, 3.0]);
    let kind = s.weighted(&[3, 3, 3, 2, 2, 2, 2]);
    let mut v: Vec<f64> = match kind {
        0 => (0..n).map(|_| s.f64_any()).collect(),
        1 => (0..n).map(|i| base + step * i as f64).collect(),
        2 => {
            let mut c = base;
            (0..n).map(|_| { let x = c; c += step; x }).collect()
        }
        3 => vec![base; n],
        4 => {
            let z = *s.pick(&[0.0, -0.0, 1.5]);
            (0..n).map(|_| if s.chance(1, 10) { s.f64_any() } else { z }).collect()
        }
        5 => {
            let p = s.usize(1, 6);
            let d: Vec<f64> = (0..p).map(|_| s.f64_any()).collect();
            (0..n).map(|i| d[i % p]).collect()
        }
        _ => {
            let r = *s.pick(&[0.5, 2.0, -1.0, 1.1, 10.0]);
            let mut c = base;
            (0..n).map(|_| { let x = c; c *= r; x }).collect()
        }
    };
    if !v.is_empty() && s.chance(1, 4) {
        let at = s.usize(0, v.len() - 1);
        v[at] = if s.flip() { s.f64_any() } else { *s.pick(&[0.0, -0.0, f64::INFINITY, f64::NAN, 5e-324]) };
    }
    v.into_iter().map(f64::to_bits).collect()
}

fn text(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 1]) {
        0 => s.text(8),
        1 => ["", "a", "Ω", "line\nbreak", "\"q\"", "\u{0}", "\u{1F600}", "0", "007"][s.usize(0, 8)].to_string(),
        _ => s.text(60),
    }
}

fn string_column(s: &mut Src, n: usize) -> Vec<String> {
    let kind = s.weighted(&[3, 3, 3, 2, 2, 2]);
    let pre = text(s);
    let suf = text(s);
    let start = s.int(-5, 1200);
    let step = s.int(-3, 7);
    let width = s.usize(0, 5);
    let mut v: Vec<String> = match kind {
        0 => (0..n).map(|_| text(s)).collect(),
        1 => (0..n).map(|i| format!("{pre}{}{suf}", start + step * i as i64)).collect(),
        2 => (0..n).map(|i| format!("{pre}{:0w$}{suf}", start + step * i as i64, w = width)).collect(),
        3 => {
            let mut v: Vec<String> = (0..n).map(|_| format!("{pre}{}", s.text(4))).collect();
            v.sort();
            v
        }
        4 => (0..n).map(|_| format!("{pre}{}{suf}", s.text(3))).collect(),
        _ => {
            let k = s.usize(1, 4);
            let d: Vec<String> = (0..k).map(|_| text(s)).collect();
            (0..n).map(|_| s.pick(&d).clone()).collect()
        }
    };
    if !v.is_empty() && s.chance(1, 4) {
        let at = s.usize(0, v.len() - 1);
        v[at] = text(s);
    }
    v
}

fn bool_column(s: &mut Src, n: usize) -> Vec<bool> {
    match s.usize(0, 3) {
        0 => (0..n).map(|_| s.flip()).collect(),
        1 => {
            let p = s.usize(1, 9);
            let d: Vec<bool> = (0..p).map(|_| s.flip()).collect();
            (0..n).map(|i| d[i % p]).collect()
        }
        2 => {
            let mut c = s.flip();
            (0..n).map(|_| { if s.chance(1, 9) { c = !c; } c }).collect()
        }
        _ => vec![s.flip(); n],
    }
}

fn dec(s: &mut Src) -> String {
    let sign = if s.chance(1, 3) { "-" } else { "" };
    let int = s.usize(0, 2);
    let whole = match int {
        0 => s.int(0, 9).to_string(),
        1 => s.int(1, 1_000_000).to_string(),
        _ => format!("{}{:018}", s.int(1, 99), s.int(0, 999_999_999)),
    };
    let places = s.usize(0, 6);
    let frac: String = (0..places).map(|_| char::from(b'0' + s.below(10) as u8)).collect();
    let t = if places == 0 { whole } else { format!("{whole}.{frac}") };
    if t.bytes().all(|b| b == b'0' || b == b'.') { t } else { format!("{sign}{t}") }
}

fn rep(s: &mut Src) -> usize {
    match s.weighted(&[2, 5, 4, 2]) {
        0 => 0,
        1 => s.usize(1, 5),
        2 => s.usize(6, 30),
        _ => s.usize(31, 150),
    }
}

impl Gen {
    pub fn new() -> Gen {
        Gen { next_id: 0, shared: vec![] }
    }

    fn scalar(&mut self, s: &mut Src, kind: usize) -> M {
        match kind {
            0 => M::Int(s.i64_edge()),
            1 => {
                let n = s.usize(1, 24);
                M::Big(s.flip(), s.bytes(n))
            }
            2 => {
                let d = s.int(1, 5000);
                M::Rat(s.i64_edge(), d, s.usize(0, 3) as u32)
            }
            3 => M::Dec(dec(s)),
            4 => M::Cpx(s.int(-99, 99), s.int(1, 9), s.int(-99, 99), s.int(1, 9)),
            5 => {
                let n = *s.pick(&[1i64, 2, 7, 97, 1 << 31, i64::MAX]);
                M::Mod(s.i64_edge(), n)
            }
            6 => M::Word(*s.pick(&[32u32, 64]), s.u64_edge()),
            7 => M::Float(s.f64_any().to_bits()),
            8 => M::Bool(s.flip()),
            9 => M::Text(text(s)),
            10 => M::Char(*s.pick(&['a', '0', '\u{0}', 'é', '\u{1F600}', '\u{10FFFF}', '"'])),
            11 => M::Nothing,
            12 => M::Duration(s.i64_edge()),
            13 => M::Date(s.i64_edge() as i32),
            14 => M::Moment(s.i64_edge()),
            15 => M::Span(s.i64_edge() as i32, s.int(-400, 400) as i32),
            16 => M::Time(s.i64_edge()),
            17 => M::Peer(text(s)),
            18 => M::Money(dec(s), *s.pick(&CODES)),
            19 => {
                let b = s.bytes(16);
                M::Uuid(b.try_into().unwrap())
            }
            _ => M::Qty(s.int(-1000, 1000), s.int(1, 12), *s.pick(&UNITS)),
        }
    }

    /// A column of values, homogeneous enough for the specialised layouts.
    fn column(&mut self, s: &mut Src, n: usize, depth: usize) -> Vec<M> {
        match s.weighted(&[6, 4, 4, 2, 3, if depth > 0 { 5 } else { 0 }, if depth > 0 { 4 } else { 0 }, 2]) {
            0 => int_column(s, n).into_iter().map(M::Int).collect(),
            1 => float_column(s, n).into_iter().map(M::Float).collect(),
            2 => string_column(s, n).into_iter().map(M::Text).collect(),
            3 => bool_column(s, n).into_iter().map(M::Bool).collect(),
            4 => {
                let k = s.usize(0, 20);
                (0..n).map(|_| self.scalar(s, k)).collect()
            }
            5 => self.struct_rows(s, n.min(40), depth - 1),
            6 => self.enum_rows(s, n.min(40), depth - 1),
            _ => (0..n.min(20)).map(|_| self.value(s, depth.saturating_sub(1))).collect(),
        }
    }

    fn struct_rows(&mut self, s: &mut Src, n: usize, depth: usize) -> Vec<M> {
        let ty = s.pick(&TYPES).to_string();
        let k = s.usize(0, 4);
        let mut names: Vec<String> = vec![];
        for _ in 0..k {
            let f = s.pick(&NAMES).to_string();
            if !names.contains(&f) {
                names.push(f);
            }
        }
        let cols: Vec<Vec<M>> = names
            .iter()
            .map(|_| {
                let mut c = self.column(s, n, depth);
                while c.len() < n {
                    c.push(M::Nothing);
                }
                c
            })
            .collect();
        let mut rows: Vec<M> = (0..n)
            .map(|i| M::Struct(ty.clone(), names.iter().cloned().zip(cols.iter().map(|c| c[i].clone())).collect()))
            .collect();
        // ragged rows fall back to the general layout
        if n > 1 && s.chance(1, 6) {
            let at = s.usize(0, n - 1);
            if let M::Struct(_, f) = &mut rows[at] {
                if f.is_empty() || s.flip() {
                    f.push(("extra".into(), M::Int(1)));
                } else {
                    f.pop();
                }
            }
        }
        rows
    }

    fn enum_rows(&mut self, s: &mut Src, n: usize, depth: usize) -> Vec<M> {
        let ty = s.pick(&TYPES).to_string();
        let nc = s.usize(1, 3);
        let arity: Vec<usize> = (0..nc).map(|_| s.usize(0, 2)).collect();
        let pools: Vec<Vec<Vec<M>>> = arity
            .iter()
            .map(|&a| {
                (0..a)
                    .map(|_| {
                        let mut c = self.column(s, n, depth);
                        while c.len() < n {
                            c.push(M::Nothing);
                        }
                        c
                    })
                    .collect()
            })
            .collect();
        (0..n)
            .map(|i| {
                let c = s.usize(0, nc - 1);
                let mut args: Vec<M> = pools[c].iter().map(|p| p[i].clone()).collect();
                if s.chance(1, 60) {
                    args.push(M::Int(9));
                }
                M::Ind(ty.clone(), CTORS[c].to_string(), args)
            })
            .collect()
    }

    fn keys(&mut self, s: &mut Src, n: usize) -> Vec<M> {
        let raw: Vec<M> = match s.usize(0, 6) {
            0 | 1 => int_column(s, n).into_iter().map(M::Int).collect(),
            2 | 3 => string_column(s, n).into_iter().map(M::Text).collect(),
            4 => {
                let k = *s.pick(&[8usize, 10, 13, 14, 16, 19, 1, 2]);
                (0..n.min(20)).map(|_| self.scalar(s, k)).collect()
            }
            5 => (0..n.min(20)).map(|_| M::Tuple(vec![M::Int(s.int(0, 9)), M::Text(s.text(2))])).collect(),
            _ => {
                let ty = s.pick(&TYPES).to_string();
                (0..n.min(20)).map(|_| M::Struct(ty.clone(), vec![("k".into(), M::Int(s.int(0, 99)))])).collect()
            }
        };
        let mut seen = BTreeSet::new();
        raw.into_iter().filter(|k| seen.insert(want(k))).collect()
    }

    pub fn value(&mut self, s: &mut Src, depth: usize) -> M {
        let c = if depth == 0 { 0 } else { 1 };
        let pick = s.weighted(&[3, 8 * c, c, 2 * c, 4 * c, 3 * c, 3 * c, 2 * c]);
        let v = match pick {
            0 => {
                let k = s.usize(0, 20);
                self.scalar(s, k)
            }
            1 => {
                let n = rep(s);
                let col = self.column(s, n, depth - 1);
                M::List(col, s.chance(1, 3))
            }
            2 => {
                let n = s.usize(0, 4);
                M::Tuple((0..n).map(|_| self.value(s, depth - 1)).collect())
            }
            3 => {
                let n = rep(s);
                M::Set(self.keys(s, n))
            }
            4 => {
                let n = rep(s);
                let ks = self.keys(s, n);
                let mut vs = self.column(s, ks.len(), depth - 1);
                while vs.len() < ks.len() {
                    vs.push(M::Nothing);
                }
                M::Map(ks.into_iter().zip(vs).collect())
            }
            5 => self.struct_rows(s, 1, depth - 1).pop().unwrap(),
            6 => self.enum_rows(s, 1, depth - 1).pop().unwrap(),
            _ => {
                if !self.shared.is_empty() && s.chance(2, 3) {
                    let (id, m) = s.pick(&self.shared).clone();
                    M::Shared(id, m)
                } else {
                    let inner = Rc::new(self.value(s, depth - 1));
                    self.next_id += 1;
                    self.shared.push((self.next_id, inner.clone()));
                    M::Shared(self.next_id, inner)
                }
            }
        };
        v
    }

    fn top(&mut self, s: &mut Src) -> M {
        let d = s.usize(0, 4);
        self.value(s, d)
    }
}

fn type_names(m: &M, out: &mut BTreeMap<String, Vec<String>>, enums: &mut BTreeMap<String, BTreeSet<String>>) {
    match m {
        M::Struct(n, fs) => {
            out.entry(n.clone()).or_insert_with(|| fs.iter().map(|f| f.0.clone()).collect());
            fs.iter().for_each(|f| type_names(&f.1, out, enums));
        }
        M::Ind(t, c, a) => {
            enums.entry(t.clone()).or_default().insert(c.clone());
            a.iter().for_each(|x| type_names(x, out, enums));
        }
        M::List(xs, _) | M::Tuple(xs) | M::Set(xs) => xs.iter().for_each(|x| type_names(x, out, enums)),
        M::Map(es) => es.iter().for_each(|(k, v)| {
            type_names(k, out, enums);
            type_names(v, out, enums);
        }),
        M::Shared(_, i) => type_names(i, out, enums),
        _ => {}
    }
}

/// Whether the text codec carries every float in the value exactly (see the known finding): only
/// floats with few digits do.
pub fn json_safe(m: &M) -> bool {
    match m {
        M::Float(b) => {
            let f = f64::from_bits(*b);
            f.abs() < 1e6 && (f * 64.0).fract() == 0.0
        }
        M::List(xs, _) | M::Tuple(xs) | M::Set(xs) | M::Ind(_, _, xs) => xs.iter().all(json_safe),
        M::Map(es) => es.iter().all(|(k, v)| json_safe(k) && json_safe(v)),
        M::Struct(_, fs) => fs.iter().all(|f| json_safe(&f.1)),
        M::Shared(_, i) => json_safe(i),
        _ => true,
    }
}

/// The known finding: floats through the text codec.
fn json_floats() -> R {
    for b in [0xf1133b54c92ffcd9u64, f64::INFINITY.to_bits(), f64::NAN.to_bits()] {
        let v = RuntimeValue::Float(f64::from_bits(b));
        let w = message_to_wire_with("p", &v, WireCodec::Json, WireIntegrity::Raw).map_err(|e| Fail { msg: e })?;
        same(message_from_wire(&w), "p", &want(&M::Float(b)), "json")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- encoder options

#[derive(Clone, Copy, Debug)]
pub struct Dial {
    num: WireNumerics,
    st: WireStructure,
    fl: WireFloats,
    comp: WireCompression,
    level: WireCompressionLevel,
    dedup: bool,
    view: bool,
    flat: bool,
    check: WireIntegrity,
    pub json: bool,
}

pub fn dial(s: &mut Src) -> Dial {
    Dial {
        num: *s.pick(&[WireNumerics::Varint, WireNumerics::Fixed, WireNumerics::GroupVarint]),
        st: *s.pick(&[WireStructure::Auto, WireStructure::Off, WireStructure::Affine, WireStructure::Auto]),
        fl: *s.pick(&[WireFloats::Memcpy, WireFloats::XorDelta]),
        comp: *s.pick(&[WireCompression::None, WireCompression::None, WireCompression::Deflate, WireCompression::Lz4, WireCompression::Zstd]),
        level: *s.pick(&[WireCompressionLevel::Fast, WireCompressionLevel::Balanced]),
        dedup: s.chance(1, 3),
        view: s.chance(1, 4),
        flat: s.chance(1, 6),
        check: *s.pick(&[WireIntegrity::Raw, WireIntegrity::Checked]),
        json: s.chance(1, 12),
    }
}

impl Dial {
    pub fn scope<T>(&self, f: impl FnOnce() -> T) -> T {
        with_numerics(self.num, || {
            with_structure(self.st, || {
                with_floats(self.fl, || {
                    with_compression_codec(self.comp, || {
                        with_compression_level(self.level, || {
                            with_dedup(self.dedup, || {
                                with_struct_view(self.view, || with_flat_lists(self.flat, || with_integrity(self.check, f)))
                            })
                        })
                    })
                })
            })
        })
    }
    pub fn integrity(&self) -> WireIntegrity {
        self.check
    }
    pub fn codec(&self) -> WireCodec {
        if self.json {
            WireCodec::Json
        } else {
            WireCodec::Native
        }
    }
}

fn registry(s: &mut Src, m: &M) -> WireTypeRegistry {
    let (mut st, mut en) = (BTreeMap::new(), BTreeMap::new());
    type_names(m, &mut st, &mut en);
    let mut structs: Vec<(String, Vec<String>)> = st.into_iter().filter(|_| s.chance(4, 5)).collect();
    structs.push(("Unused".into(), vec!["z".into()]));
    let mut enums: Vec<(String, Vec<String>)> = vec![];
    for (t, cs) in en {
        if s.chance(4, 5) {
            enums.push((t, cs.into_iter().filter(|_| s.chance(7, 8)).collect()));
        }
    }
    WireTypeRegistry::new(structs).with_enums(enums)
}

/// The surroundings of the first difference.
fn apart(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let at = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let cut = |v: &[char]| v[at.saturating_sub(60).min(v.len())..(at + 60).min(v.len())].iter().collect::<String>();
    format!("sent ..{}.. received ..{}..", cut(&x), cut(&y))
}

fn same(got: Option<(String, RuntimeValue)>, from: &str, expect: &str, how: &str) -> R {
    match got {
        None => fail(format!("[{how}] the message did not decode; sent {}", clip(expect, 300))),
        Some((f, v)) => {
            ensure!(f == from, "[{how}] sender {f:?} instead of {from:?}");
            let g = shown(&v);
            ensure!(g == expect, "[{how}] {}", apart(expect, &g));
            Ok(())
        }
    }
}

fn round_trip(s: &mut Src, cx: &mut Ctx) -> R {
    let mut g = Gen::new();
    let m = g.top(s);
    let v = build(&m, &mut Pool::new());
    let expect = want(&m);
    ensure!(shown(&v) == expect, "harness: {}", apart(&expect, &shown(&v)));
    let from = if s.chance(1, 3) { text(s) } else { "peer".to_string() };
    let mut d = dial(s);
    d.json &= json_safe(&m);
    cx.show(format!("{} under {d:?}", clip(&expect, 160)));
    let e = |x: Result<Vec<u8>, String>| x.map_err(|e| Fail { msg: format!("encoding refused: {e}; {}", clip(&expect, 300)) });
    let how = s.weighted(&[8, 3, 1, 1, 3, 2, 1]);
    cx.nontrivial(expect.len() > 12);
    match how {
        0 => {
            cx.class("plain");
            let b = e(d.scope(|| message_to_wire_with(&from, &v, d.codec(), d.check)))?;
            same(message_from_wire(&b), &from, &expect, "plain")?;
            // The lazy receive path must agree with the eager one.
            same(message_from_wire_view(&b), &from, &expect, "view")?;
            // ... and the options leave no trace behind.
            let again = e(message_to_wire(&from, &v))?;
            same(message_from_wire(&again), &from, &expect, "after")
        }
        1 => {
            cx.class("registry");
            let r = registry(s, &m);
            let b = e(with_type_registry(r.clone(), || d.scope(|| message_to_wire_with(&from, &v, d.codec(), d.check))))?;
            same(with_type_registry(r, || message_from_wire(&b)), &from, &expect, "registry")
        }
        2 => {
            cx.class("best");
            let goal = *s.pick(&[WireGoal::Smallest, WireGoal::Fastest]);
            let b = e(message_to_wire_best(&from, &v, goal))?;
            same(message_from_wire(&b), &from, &expect, "best")
        }
        3 => {
            cx.class("auto");
            let b = e(message_to_wire_auto(&from, &v))?;
            let plain = e(message_to_wire(&from, &v))?;
            ensure!(b.len() <= plain.len(), "[auto] {} bytes, plain encoding has {}", b.len(), plain.len());
            same(message_from_wire(&b), &from, &expect, "auto")
        }
        4 => {
            cx.class("raw");
            let b = e(d.scope(|| encode_value_raw(&v)))?;
            same(decode_value_raw(&b).map(|v| (from.clone(), v)), &from, &expect, "raw")
        }
        5 => {
            cx.class("task boundary");
            let p = materialize(&v).map_err(|x| Fail { msg: format!("{x:?}") })?;
            same(Some((from.clone(), rebuild(p))), &from, &expect, "task")
        }
        _ => {
            cx.class("negotiated");
            let r = registry(s, &m);
            let theirs = PeerProfile {
                limits: ReceiveLimits::default(),
                registry_epoch: if s.flip() { r.epoch() } else { s.u64() },
                features: s.below(64) as u32,
            };
            let mine = PeerProfile { registry_epoch: r.epoch(), ..PeerProfile::default() };
            let neg = negotiate(&mine, &theirs);
            let b = e(message_to_wire_negotiated(&from, &v, &neg, r.clone()))?;
            let got = if theirs.registry_epoch == r.epoch() {
                with_type_registry(r, || message_from_wire(&b))
            } else {
                message_from_wire(&b)
            };
            same(got, &from, &expect, "negotiated")
        }
    }
}

/// Long single columns: where the specialised layouts live.
fn columns(s: &mut Src, cx: &mut Ctx) -> R {
    let n = s.usize(0, 400);
    let m = match s.weighted(&[5, 4, 3, 1]) {
        0 => M::List(int_column(s, n).into_iter().map(M::Int).collect(), s.chance(1, 4)),
        1 => M::List(float_column(s, n).into_iter().map(M::Float).collect(), s.chance(1, 4)),
        2 => M::List(string_column(s, n).into_iter().map(M::Text).collect(), s.chance(1, 4)),
        _ => M::List(bool_column(s, n).into_iter().map(M::Bool).collect(), s.chance(1, 4)),
    };
    let v = build(&m, &mut Pool::new());
    let expect = want(&m);
    let d = Dial { json: false, ..dial(s) };
    let b = d.scope(|| message_to_wire_with("p", &v, WireCodec::Native, d.check)).map_err(|e| Fail { msg: e })?;
    let names = describe_columns(&b);
    cx.show(format!("{n} elements as {names:?}, {} bytes: {}", b.len(), clip(&expect, 80)));
    cx.class(names.first().map(|x| x.as_str()).unwrap_or("compressed"));
    cx.nontrivial(n > 2);
    same(message_from_wire(&b), "p", &expect, "column")?;
    // reading in place sees the same elements
    if let (Some(w), M::List(xs, _)) = (view_message(&b), &m) {
        if let Some(len) = w.int_list_len() {
            ensure_eq!(len, n, "[int view] length");
        }
        if let Some(len) = w.float_list_len() {
            ensure_eq!(len, n, "[float view] length");
        }
        let i = if n == 0 { 0 } else { s.usize(0, n - 1) };
        if let Some(x) = w.int_list_get(i) {
            ensure!(n > 0 && want(&M::Int(x)) == want(&xs[i]), "[int view] element {i} reads {x}");
        }
        if let Some(x) = w.float_list_get(i) {
            ensure!(n > 0 && want(&M::Float(x.to_bits())) == want(&xs[i]), "[float view] element {i} reads {x}");
        }
        ensure!(w.int_list_get(n).is_none() && w.float_list_get(n).is_none(), "[view] element past the end");
        if let Some(sl) = w.as_i64_slice() {
            ensure!(sl.len() == n && sl.iter().zip(xs).all(|(a, b)| want(&M::Int(*a)) == want(b)), "[slice] ints differ");
        }
        if let Some(sl) = w.as_f64_slice() {
            ensure!(sl.len() == n && sl.iter().zip(xs).all(|(a, b)| want(&M::Float(a.to_bits())) == want(b)), "[slice] floats differ");
        }
        if let Some(x) = w.decode() {
            ensure!(shown(&x) == expect, "[view] whole value differs");
        }
    }
    Ok(())
}

/// Record lists and records read field by field without decoding the rest.
fn in_place(s: &mut Src, cx: &mut Ctx) -> R {
    let mut g = Gen::new();
    let n = s.usize(0, 25);
    let mut rows = g.struct_rows(s, n.max(1), 2);
    let one = s.chance(1, 4);
    let m = if one { rows.pop().unwrap() } else { M::List(rows.clone(), s.chance(1, 4)) };
    let v = build(&m, &mut Pool::new());
    let expect = want(&m);
    let d = Dial { json: false, comp: WireCompression::None, view: s.chance(3, 4), ..dial(s) };
    let b = d.scope(|| message_to_wire_with("p", &v, WireCodec::Native, d.check)).map_err(|e| Fail { msg: e })?;
    cx.show(format!("{} under {d:?}", clip(&expect, 120)));
    same(message_from_wire(&b), "p", &expect, "plain")?;
    same(message_from_wire_view(&b), "p", &expect, "view")?;
    let Some(w) = view_message(&b) else { return fail("an uncompressed message did not open in place") };
    let mut reads = 0;
    if let M::Struct(_, fs) = &m {
        for (name, x) in fs {
            if let Some(f) = w.struct_field(name) {
                reads += 1;
                let dec = f.decode();
                if let Some(dec) = dec {
                    ensure!(shown(&dec) == want(x), "[field] {name:?} reads {} instead of {}", clip(&shown(&dec), 200), clip(&want(x), 200));
                }
                if let Some(i) = f.as_int() {
                    ensure!(want(&M::Int(i)) == want(x), "[field] {name:?} as integer");
                }
                if let Some(i) = f.as_float() {
                    ensure!(want(&M::Float(i.to_bits())) == want(x), "[field] {name:?} as float");
                }
                if let Some(i) = f.as_bool() {
                    ensure!(want(&M::Bool(i)) == want(x), "[field] {name:?} as bool");
                }
            }
        }
        ensure!(w.struct_field("no such field").is_none(), "[field] a missing field was found");
    } else {
        if let Some(k) = w.structs_len() {
            ensure_eq!(k, rows.len(), "[rows] count");
        }
        let cur = w.structs_cursor();
        for (r, row) in rows.iter().enumerate() {
            let M::Struct(_, fs) = row else { unreachable!() };
            for (name, x) in fs {
                if let Some(f) = w.structs_row_field_value(r, name) {
                    reads += 1;
                    ensure!(shown(&f) == want(x), "[cell] row {r} {name:?} reads {} instead of {}", clip(&shown(&f), 200), clip(&want(x), 200));
                }
                if let Some(f) = w.structs_row_field(r, name).and_then(|f| f.decode()) {
                    reads += 1;
                    ensure!(shown(&f) == want(x), "[cell view] row {r} {name:?}");
                }
                if let Some(c) = &cur {
                    if let Some(fi) = c.field_index(name) {
                        if let Some(f) = c.value(r, fi) {
                            reads += 1;
                            ensure!(shown(&f) == want(x), "[cursor] row {r} {name:?} reads {} instead of {}", clip(&shown(&f), 200), clip(&want(x), 200));
                        }
                        if let Some(i) = c.i64(r, fi) {
                            ensure!(want(&M::Int(i)) == want(x), "[cursor] row {r} {name:?} as integer");
                        }
                        if let Some(col) = c.i64_column(fi) {
                            ensure!(col.len() == rows.len() && want(&M::Int(col[r])) == want(x), "[cursor] column {name:?}");
                        }
                    }
                }
            }
        }
        ensure!(w.structs_row_field_value(rows.len(), "a").is_none(), "[cell] a row past the end was read");
    }
    cx.class(if reads > 0 { "read in place" } else { "not viewable" });
    cx.nontrivial(reads > 0);
    Ok(())
}

/// A conversation with a schema cache: in order everything arrives; under loss, reordering and several
/// senders a message is either right or refused.
fn conversation(s: &mut Src, cx: &mut Ctx) -> R {
    let seq = s.flip();
    let lossy = !seq && s.flip();
    let mk = |seq: bool, k: Option<u32>| {
        let c = if seq { WireSchemaCache::sequential() } else { WireSchemaCache::content_addressed() };
        match k {
            Some(k) => c.with_keyframe(k),
            None => c,
        }
    };
    let key = if s.flip() { Some(s.usize(1, 4) as u32) } else { None };
    let senders = if lossy { s.usize(1, 2) } else { 1 };
    let mut tx: Vec<WireSchemaCache> = (0..senders).map(|_| mk(seq, key)).collect();
    let mut rx = mk(seq, key);
    let mut g = Gen::new();
    let shapes: Vec<Vec<M>> = (0..s.usize(1, 3)).map(|_| { let n = s.usize(1, 4); g.struct_rows(s, n, 1) }).collect();
    let mut msgs: Vec<(String, Vec<u8>)> = vec![];
    let count = s.usize(2, 10);
    for _ in 0..count {
        let m = match s.weighted(&[3, 3, 1]) {
            0 => M::List(s.pick(&shapes).clone(), s.flip()),
            1 => s.pick(&shapes)[0].clone(),
            _ => g.value(s, 2),
        };
        let v = build(&m, &mut Pool::new());
        let d = Dial { json: false, ..dial(s) };
        let who = s.usize(0, senders - 1);
        let b = d
            .scope(|| message_to_wire_cached("p", &v, WireCodec::Native, d.check, &mut tx[who]))
            .map_err(|e| Fail { msg: e })?;
        msgs.push((want(&m), b));
    }
    if lossy {
        let mut i = 0;
        while i < msgs.len() {
            if msgs.len() > 1 && s.chance(1, 5) {
                msgs.remove(i);
            } else {
                i += 1;
            }
        }
        for i in (1..msgs.len()).rev() {
            if s.flip() {
                let j = s.usize(0, i);
                msgs.swap(i, j);
            }
        }
    }
    cx.show(format!("{count} messages, {} schemas, sequential={seq} lossy={lossy} keyframe={key:?}", shapes.len()));
    cx.class(if seq { "sequential" } else if lossy { "lossy" } else { "content" });
    cx.nontrivial(msgs.len() > 1);
    for (i, (expect, b)) in msgs.iter().enumerate() {
        match message_from_wire_cached(b, &mut rx) {
            None => ensure!(lossy, "[conversation] message {i} was not understood: {}", clip(expect, 300)),
            Some((_, v)) => ensure!(shown(&v) == *expect, "[conversation] message {i}: {}", apart(expect, &shown(&v))),
        }
    }
    Ok(())
}

/// Streams cut anywhere, and batch messages, give the same sequence of values.
fn streams(s: &mut Src, cx: &mut Ctx) -> R {
    let mut g = Gen::new();
    let n = s.usize(0, 8);
    let ms: Vec<M> = (0..n).map(|_| { let d = s.usize(0, 2); g.value(s, d) }).collect();
    let mut pool = Pool::new();
    let vs: Vec<RuntimeValue> = ms.iter().map(|m| build(m, &mut pool)).collect();
    let d = Dial { json: false, ..dial(s) };
    let from = text(s);
    let batch = d.scope(|| frame_stream_message(&from, &vs)).map_err(|e| Fail { msg: e })?;
    ensure_eq!(peek_stream_sender(&batch), Some(from.clone()), "[batch] sender");
    let back = deframe_stream_message(&batch).ok_or(Fail { msg: "[batch] did not decode".into() })?;
    ensure!(
        back.iter().map(shown).collect::<Vec<_>>() == ms.iter().map(want).collect::<Vec<_>>(),
        "[batch] {} values in, {} out or different", n, back.len()
    );
    let mut wire = vec![];
    let mut bodies = vec![];
    for v in &vs {
        let mut body = if s.chance(1, 8) { vec![] } else { d.scope(|| message_to_wire("p", v)).map_err(|e| Fail { msg: e })? };
        if s.chance(1, 8) {
            // bodies around the length-prefix boundaries
            let k = *s.pick(&[127usize, 128, 129, 16383, 16384, 16385]);
            body = vec![7; k];
        }
        frame_for_stream(&body, &mut wire);
        bodies.push(body);
    }
    let mut de = StreamDeframer::new();
    let mut out: Vec<Vec<u8>> = vec![];
    let mut at = 0;
    let mut chunks = 0;
    while at < wire.len() {
        let k = match s.weighted(&[3, 3, 1]) {
            0 => 1,
            1 => s.usize(0, 40),
            _ => wire.len(),
        }
        .min(wire.len() - at);
        de.push(&wire[at..at + k]);
        at += k;
        chunks += 1;
        if s.chance(2, 3) {
            let before = out.len();
            let c = de.drain_frames(|f| out.push(f.to_vec()));
            ensure_eq!(c, out.len() - before, "[stream] reported frame count");
        }
        if chunks > 3000 {
            de.push(&wire[at..]);
            break;
        }
    }
    de.drain_frames(|f| out.push(f.to_vec()));
    cx.show(format!("{n} messages, {} bytes in {chunks} chunks", wire.len()));
    cx.nontrivial(n > 0 && chunks > 1);
    ensure!(out == bodies, "[stream] {} frames in, {} out, or different bytes", bodies.len(), out.len());
    ensure!(de.is_empty() && de.pending() == 0, "[stream] {} bytes left over", de.pending());
    Ok(())
}

fn profiles(s: &mut Src, cx: &mut Ctx) -> R {
    let p = PeerProfile {
        limits: ReceiveLimits {
            max_bytes: s.u64_edge() as usize,
            max_depth: s.u64_edge() as usize,
            max_elements: s.u64_edge() as usize,
            max_string_bytes: s.u64_edge() as usize,
            accept_computed: s.flip(),
        },
        registry_epoch: s.u64_edge(),
        features: s.u64_edge() as u32,
    };
    let from = text(s);
    cx.show(format!("{from:?} {p:?}"));
    cx.nontrivial(true);
    ensure!(decode_peer_profile(&encode_peer_profile(&p)) == Some(p), "[profile] changed");
    let f = make_handshake_frame(&from, &p);
    ensure!(parse_handshake_frame(&f) == Some((from.clone(), p)), "[handshake] changed");
    ensure!(message_from_wire(&f).is_none(), "[handshake] also reads as data");
    // columnar records written straight from slices
    let n = s.usize(0, 30);
    let ints = int_column(s, n);
    let fs: Vec<f64> = float_column(s, n).into_iter().map(f64::from_bits).collect();
    let b = build_columnar_record(&from, "Rec", &[("v", WireColumn::Ints(&ints)), ("f", WireColumn::Floats(&fs))]);
    let m = M::Struct(
        "Rec".into(),
        vec![
            ("v".into(), M::List(ints.iter().map(|x| M::Int(*x)).collect(), false)),
            ("f".into(), M::List(fs.iter().map(|x| M::Float(x.to_bits())).collect(), false)),
        ],
    );
    same(message_from_wire(&b), &from, &want(&m), "columnar")
}

pub fn c12() -> Suite {
    let mut t = Suite::new("C12", "a case counts when the value is composite, the column has a pattern to exploit, or the stream has several chunks");
    t.known("json-float", json_floats);
    t.prop("values", 30000, 300000, round_trip);
    t.prop("columns", 25000, 250000, columns);
    t.prop("reading in place", 10000, 100000, in_place);
    t.prop("conversations", 6000, 60000, conversation);
    t.prop("streams", 6000, 60000, streams);
    t.prop("profiles and records", 6000, 60000, profiles);
    t
}
