//! Typed program generator, printer and independent reference evaluator.
//!
//! Programs are built as a small typed tree, printed as source, and evaluated here by a
//! direct interpreter that shares no code with the compiler crates: integers are
//! arbitrary precision, collections are values (copied on binding), maps and sets keep
//! insertion order, positions count from one.

use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::fmt::Write as _;
use vcore::Src;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    Int,
    Bool,
    Text,
    Float,
    Seq(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Set(Box<Ty>),
    Struct(usize),
    Enum(usize),
    Fun,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    FloorDiv,
    Mod,
    Pow,
    BitAnd,
    BitOr,
    BitXor,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    And,
    Or,
    Concat,
    Followed,
    Union,
    Inter,
    Diff,
}

#[derive(Clone, Debug)]
pub enum E {
    Int(i64),
    Bool(bool),
    Text(String),
    Float(f64),
    Var(String),
    Bin(Op, Box<E>, Box<E>),
    Not(Box<E>),
    Neg(Box<E>),
    BitNot(Box<E>),
    Index(Box<E>, Box<E>),
    Slice(Box<E>, Box<E>, Box<E>),
    Len(Box<E>),
    Contains(Box<E>, Box<E>),
    Copy(Box<E>),
    List(Vec<E>),
    New(Ty),
    Field(Box<E>, usize, usize),
    NewStruct(usize, Vec<E>),
    NewVariant(usize, usize, Vec<E>),
    Call(String, Vec<E>),
    Interp(Vec<Part>),
    Lambda(String, Box<E>),
    Between(Box<E>, Box<E>, Box<E>),
    Chain(Box<E>, Box<E>, Box<E>),
    Parity(Box<E>, bool),
    DivBy(Box<E>, Box<E>),
}

#[derive(Clone, Debug)]
pub enum Part {
    Lit(String),
    Var(String, Spec),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spec {
    Plain,
    Right(usize),
    Left(usize),
    Mid(usize),
    Prec(usize),
}

#[derive(Clone, Debug)]
pub enum S {
    Let(String, bool, E),
    Set(String, E),
    SetIndex(String, E, E),
    SetIndex2(String, E, E, E),
    SetField(String, usize, usize, E),
    MapSet(String, E, E),
    Push(String, E),
    PushItem(String, E, E),
    Pop(String, Option<String>),
    Add(String, E),
    Remove(String, E),
    Show(E),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    While(E, Vec<S>),
    Range(String, E, E, Vec<S>),
    Each(String, E, Vec<S>),
    Pairs(String, String, E, Vec<S>),
    Break,
    Return(Option<E>),
    Call(String, Vec<E>),
    Inspect(E, usize, Vec<(usize, Vec<String>, Vec<S>)>, Option<Vec<S>>),
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub ret: Option<Ty>,
    pub body: Vec<S>,
    pub rec: bool,
    pub cost: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub structs: Vec<(String, Vec<(String, Ty)>)>,
    pub enums: Vec<(String, Vec<(String, Vec<(String, Ty)>)>)>,
    pub funs: Vec<Fun>,
    pub main: Vec<S>,
}

// ---------------------------------------------------------------- printing

pub fn ty_name(p: &Prog, t: &Ty) -> String {
    match t {
        Ty::Int => "Int".into(),
        Ty::Bool => "Bool".into(),
        Ty::Text => "Text".into(),
        Ty::Float => "Float".into(),
        Ty::Seq(e) => format!("Seq of {}", ty_name(p, e)),
        Ty::Map(k, v) => format!("Map of {} to {}", ty_name(p, k), ty_name(p, v)),
        Ty::Set(e) => format!("Set of {}", ty_name(p, e)),
        Ty::Struct(i) => p.structs[*i].0.clone(),
        Ty::Enum(i) => p.enums[*i].0.clone(),
        Ty::Fun => "fn(Int) -> Int".into(),
    }
}

pub fn fmt_float(f: f64) -> String {
    let s = format!("{f}");
    if s.contains('.') || s.contains("inf") || s.contains("NaN") {
        s
    } else {
        s + ".0"
    }
}

fn op_text(o: Op) -> &'static str {
    match o {
        Op::Add => "+",
        Op::Sub => "-",
        Op::Mul => "*",
        Op::Div => "/",
        Op::FloorDiv => "//",
        Op::Mod => "%",
        Op::Pow => "**",
        Op::BitAnd => "&",
        Op::BitOr => "|",
        Op::BitXor => "^",
        Op::Shl => "shifted left by",
        Op::Shr => "shifted right by",
        Op::Eq => "==",
        Op::Ne => "!=",
        Op::Lt => "<",
        Op::Le => "<=",
        Op::Gt => ">",
        Op::Ge => ">=",
        Op::And => "and",
        Op::Or => "or",
        Op::Concat => "combined with",
        Op::Followed => "followed by",
        Op::Union => "union",
        Op::Inter => "intersection",
        Op::Diff => "-",
    }
}

fn level(o: Op) -> Option<u8> {
    match o {
        Op::Mul | Op::Div | Op::Mod => Some(5),
        Op::Add | Op::Sub => Some(4),
        Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => Some(3),
        Op::And => Some(2),
        Op::Or => Some(1),
        _ => None,
    }
}

fn atom(p: &Prog, e: &E) -> String {
    let compound = match e {
        E::Int(n) => *n < 0,
        E::Float(f) => *f < 0.0,
        E::Bool(_) | E::Text(_) | E::Var(_) | E::List(_) | E::Call(..) | E::Interp(_) => false,
        _ => true,
    };
    if compound {
        format!("({})", expr(p, e))
    } else {
        expr(p, e)
    }
}

/// Operand of a binary operator: parentheses are dropped where the precedence table
/// (`* / %` over `+ -` over comparison over `and` over `or`, left associative) allows.
fn operand(p: &Prog, parent: Op, e: &E, right: bool) -> String {
    if let (E::Bin(o, _, _), Some(pl)) = (e, level(parent)) {
        if let Some(l) = level(*o) {
            let cmp = l == 3 || pl == 3;
            if (l > pl && !(pl <= 2 && l == 3 && false)) || (l == pl && !right && !cmp) {
                return expr(p, e);
            }
        }
    }
    atom(p, e)
}

/// A position: calls are parenthesised too.
fn place(p: &Prog, e: &E) -> String {
    match e {
        E::Call(..) => format!("({})", expr(p, e)),
        _ => atom(p, e),
    }
}

fn text_lit(t: &str) -> String {
    format!("\"{t}\"")
}

pub fn expr(p: &Prog, e: &E) -> String {
    match e {
        E::Int(n) => {
            if *n == i64::MIN {
                "(0 - 9223372036854775807) - 1".into()
            } else {
                n.to_string()
            }
        }
        E::Bool(b) => b.to_string(),
        E::Text(t) => text_lit(t),
        E::Float(f) => fmt_float(*f),
        E::Var(v) => v.clone(),
        E::Bin(o, a, b) => format!("{} {} {}", operand(p, *o, a, false), op_text(*o), operand(p, *o, b, true)),
        E::Not(a) => format!("not {}", atom(p, a)),
        E::Neg(a) => format!("-{}", atom(p, a)),
        E::BitNot(a) => format!("~{}", atom(p, a)),
        E::Index(c, i) => format!("item {} of {}", place(p, i), atom(p, c)),
        E::Slice(c, a, b) => format!("items {} through {} of {}", place(p, a), place(p, b), atom(p, c)),
        E::Len(c) => format!("length of {}", atom(p, c)),
        E::Contains(c, v) => format!("{} contains {}", atom(p, c), atom(p, v)),
        E::Copy(c) => format!("copy of {}", atom(p, c)),
        E::List(v) => format!("[{}]", v.iter().map(|x| expr(p, x)).collect::<Vec<_>>().join(", ")),
        E::New(t) => format!("a new {}", ty_name(p, t)),
        E::Field(x, s, f) => format!("{}'s {}", atom(p, x), p.structs[*s].1[*f].0),
        E::NewStruct(s, fs) => {
            let mut t = format!("a new {}", p.structs[*s].0);
            for (i, f) in fs.iter().enumerate() {
                let _ = write!(t, " {} {} {}", if i == 0 { "with" } else { "and" }, p.structs[*s].1[i].0, atom(p, f));
            }
            t
        }
        E::NewVariant(en, v, fs) => {
            let (name, fields) = &p.enums[*en].1[*v];
            let mut t = format!("a new {name}");
            for (i, f) in fs.iter().enumerate() {
                let _ = write!(t, " {} {} {}", if i == 0 { "with" } else { "and" }, fields[i].0, atom(p, f));
            }
            t
        }
        E::Call(f, a) => format!("{f}({})", a.iter().map(|x| expr(p, x)).collect::<Vec<_>>().join(", ")),
        E::Interp(ps) => {
            let mut t = String::from("\"");
            for q in ps {
                match q {
                    Part::Lit(l) => t += l,
                    Part::Var(v, sp) => {
                        let _ = match sp {
                            Spec::Plain => write!(t, "{{{v}}}"),
                            Spec::Right(w) => write!(t, "{{{v}:>{w}}}"),
                            Spec::Left(w) => write!(t, "{{{v}:<{w}}}"),
                            Spec::Mid(w) => write!(t, "{{{v}:^{w}}}"),
                            Spec::Prec(w) => write!(t, "{{{v}:.{w}}}"),
                        };
                    }
                }
            }
            t + "\""
        }
        E::Lambda(x, b) => format!("({x}: Int) -> {}", expr(p, b)),
        E::Between(x, a, b) => format!("{} is between {} and {}", atom(p, x), atom(p, a), atom(p, b)),
        E::Chain(a, x, b) => format!("{} <= {} <= {}", atom(p, a), atom(p, x), atom(p, b)),
        E::Parity(x, even) => format!("{} is {}", atom(p, x), if *even { "even" } else { "odd" }),
        E::DivBy(x, n) => format!("{} is divisible by {}", atom(p, x), atom(p, n)),
    }
}

fn block(p: &Prog, out: &mut String, b: &[S], ind: usize) {
    for s in b {
        stmt(p, out, s, ind);
    }
}

fn stmt(p: &Prog, out: &mut String, s: &S, ind: usize) {
    let pad = "    ".repeat(ind);
    let ex = |e: &E| expr(p, e);
    let line = match s {
        S::Let(n, m, e) => format!("Let {}{n} be {}.", if *m { "mutable " } else { "" }, ex(e)),
        S::Set(n, e) => format!("Set {n} to {}.", ex(e)),
        S::SetIndex(n, i, v) => format!("Set item {} of {n} to {}.", place(p, i), ex(v)),
        S::SetIndex2(n, i, j, v) => format!("Set item {} of item {} of {n} to {}.", place(p, j), place(p, i), ex(v)),
        S::SetField(n, st, f, v) => format!("Set {n}'s {} to {}.", p.structs[*st].1[*f].0, ex(v)),
        S::MapSet(n, k, v) => format!("Set {n} at {} to {}.", atom(p, k), ex(v)),
        S::Push(n, e) => format!("Push {} to {n}.", atom(p, e)),
        S::PushItem(n, i, e) => format!("Push {} to item {} of {n}.", atom(p, e), place(p, i)),
        S::Pop(n, None) => format!("Pop from {n}."),
        S::Pop(n, Some(v)) => format!("Pop from {n} into {v}."),
        S::Add(n, e) => format!("Add {} to {n}.", atom(p, e)),
        S::Remove(n, e) => format!("Remove {} from {n}.", atom(p, e)),
        S::Show(e) => format!("Show {}.", ex(e)),
        S::Break => "Break.".into(),
        S::Return(None) => "Return.".into(),
        S::Return(Some(e)) => format!("Return {}.", ex(e)),
        S::Call(f, a) => format!("{f}({}).", a.iter().map(|x| ex(x)).collect::<Vec<_>>().join(", ")),
        S::If(arms, other) => {
            for (i, (c, b)) in arms.iter().enumerate() {
                let _ = writeln!(out, "{pad}{} {}:", if i == 0 { "If" } else { "elif" }, ex(c));
                block(p, out, b, ind + 1);
            }
            if let Some(b) = other {
                let _ = writeln!(out, "{pad}Otherwise:");
                block(p, out, b, ind + 1);
            }
            return;
        }
        S::While(c, b) => {
            let _ = writeln!(out, "{pad}While {}:", ex(c));
            return block(p, out, b, ind + 1);
        }
        S::Range(v, a, z, b) => {
            let _ = writeln!(out, "{pad}Repeat for {v} from {} to {}:", atom(p, a), atom(p, z));
            return block(p, out, b, ind + 1);
        }
        S::Each(v, c, b) => {
            let _ = writeln!(out, "{pad}Repeat for {v} in {}:", atom(p, c));
            return block(p, out, b, ind + 1);
        }
        S::Pairs(k, v, c, b) => {
            let _ = writeln!(out, "{pad}Repeat for ({k}, {v}) in {}:", atom(p, c));
            return block(p, out, b, ind + 1);
        }
        S::Inspect(e, en, arms, other) => {
            let _ = writeln!(out, "{pad}Inspect {}:", ex(e));
            for (v, names, b) in arms {
                let n = &p.enums[*en].1[*v].0;
                if names.is_empty() {
                    let _ = writeln!(out, "{pad}    When {n}:");
                } else {
                    let _ = writeln!(out, "{pad}    When {n} ({}):", names.join(", "));
                }
                block(p, out, b, ind + 2);
            }
            if let Some(b) = other {
                let _ = writeln!(out, "{pad}    Otherwise:");
                block(p, out, b, ind + 2);
            }
            return;
        }
    };
    let _ = writeln!(out, "{pad}{line}");
}

fn article(n: &str) -> &'static str {
    if n.starts_with(|c: char| "aeiouAEIOU".contains(c)) {
        "An"
    } else {
        "A"
    }
}

pub fn print(p: &Prog) -> String {
    let mut o = String::new();
    for (n, fs) in &p.structs {
        let _ = writeln!(o, "## {} {n} has:", article(n));
        for (f, t) in fs {
            let _ = writeln!(o, "    {} {f}: {}.", article(f), ty_name(p, t));
        }
        o.push('\n');
    }
    for (n, vs) in &p.enums {
        let _ = writeln!(o, "## {} {n} is one of:", article(n));
        for (v, fs) in vs {
            let _ = write!(o, "    {} {v}", article(v));
            for (i, (f, t)) in fs.iter().enumerate() {
                let _ = write!(o, " {} {f} {}", if i == 0 { "with" } else { "and" }, ty_name(p, t));
            }
            o.push_str(".\n");
        }
        o.push('\n');
    }
    for f in &p.funs {
        let ps: Vec<String> = f.params.iter().map(|(n, t)| format!("{n}: {}", ty_name(p, t))).collect();
        let ret = f.ret.as_ref().map(|t| format!(" -> {}", ty_name(p, t))).unwrap_or_default();
        let _ = writeln!(o, "## To {} ({}){ret}:", f.name, ps.join(", "));
        block(p, &mut o, &f.body, 1);
        o.push('\n');
    }
    o.push_str("## Main\n");
    block(p, &mut o, &p.main, 0);
    o
}

// -------------------------------------------------------------- evaluation

#[derive(Clone, Debug)]
pub enum V {
    I(BigInt),
    B(bool),
    T(String),
    F(f64),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Set(Vec<V>),
    St(usize, Vec<V>),
    En(usize, usize, Vec<V>),
    Fun(String, Box<E>, HashMap<String, V>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// A runtime error the program must report.
    Error(&'static str),
    /// The reference does not define what happens here.
    Unknown,
    /// Evaluation budget spent.
    Budget,
}

#[derive(Debug, Clone)]
pub struct Ref {
    pub lines: Vec<String>,
    pub stop: Option<Stop>,
    pub steps: u64,
    /// Some integer value left the 64-bit range.
    pub big: bool,
}

enum Flow {
    Next,
    Break,
    Return(Option<V>),
}

struct Ev<'a> {
    p: &'a Prog,
    funs: HashMap<&'a str, &'a Fun>,
    lines: Vec<String>,
    bytes: usize,
    steps: u64,
    limit: u64,
    depth: u32,
    big: bool,
}

type Scope = Vec<(String, V)>;

fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::I(x), V::I(y)) => x == y,
        (V::B(x), V::B(y)) => x == y,
        (V::T(x), V::T(y)) => x == y,
        (V::F(x), V::F(y)) => x == y,
        (V::I(x), V::F(y)) | (V::F(y), V::I(x)) => x.to_f64().map(|f| f == *y).unwrap_or(false),
        (V::Seq(x), V::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| veq(a, b)),
        (V::St(s, x), V::St(t, y)) => s == t && x.iter().zip(y).all(|(a, b)| veq(a, b)),
        (V::En(s, v, x), V::En(t, w, y)) => s == t && v == w && x.iter().zip(y).all(|(a, b)| veq(a, b)),
        _ => false,
    }
}

impl<'a> Ev<'a> {
    fn show(&self, v: &V) -> String {
        let join = |xs: &[V]| xs.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(", ");
        match v {
            V::I(n) => n.to_string(),
            V::B(b) => b.to_string(),
            V::T(t) => t.clone(),
            V::F(f) => format!("{f}"),
            V::Seq(x) => format!("[{}]", join(x)),
            V::Set(x) => format!("{{{}}}", join(x)),
            V::Map(x) => format!(
                "{{{}}}",
                x.iter().map(|(k, v)| format!("{}: {}", self.show(k), self.show(v))).collect::<Vec<_>>().join(", ")
            ),
            V::St(s, fs) => {
                let (n, defs) = &self.p.structs[*s];
                let body: Vec<String> = defs.iter().zip(fs).map(|((f, _), v)| format!("{f}: {}", self.show(v))).collect();
                format!("{n} {{ {} }}", body.join(", "))
            }
            V::En(e, k, fs) => {
                let n = &self.p.enums[*e].1[*k].0;
                if fs.is_empty() {
                    n.clone()
                } else {
                    format!("{n}({})", join(fs))
                }
            }
            V::Fun(..) => "<function>".into(),
        }
    }

    fn tick(&mut self, n: u64) -> Result<(), Stop> {
        self.steps += n;
        if self.steps > self.limit {
            return Err(Stop::Budget);
        }
        Ok(())
    }

    fn int(&mut self, n: BigInt) -> Result<V, Stop> {
        if n.bits() > 2500 {
            return Err(Stop::Budget);
        }
        if n.to_i64().is_none() {
            self.big = true;
        }
        Ok(V::I(n))
    }

    fn truthy(v: &V) -> Result<bool, Stop> {
        Ok(match v {
            V::B(b) => *b,
            V::I(n) => !n.is_zero(),
            V::F(f) => *f != 0.0,
            V::T(t) => !t.is_empty(),
            V::Seq(x) => !x.is_empty(),
            V::Set(x) => !x.is_empty(),
            V::Map(x) => !x.is_empty(),
            _ => return Err(Stop::Unknown),
        })
    }

    fn get<'s>(env: &'s Scope, n: &str) -> Result<&'s V, Stop> {
        env.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v).ok_or(Stop::Unknown)
    }

    fn get_mut<'s>(env: &'s mut Scope, n: &str) -> Result<&'s mut V, Stop> {
        env.iter_mut().rev().find(|(k, _)| k == n).map(|(_, v)| v).ok_or(Stop::Unknown)
    }

    fn position(i: &V, len: usize) -> Result<usize, Stop> {
        match i {
            V::I(n) => match n.to_i64() {
                Some(k) if k >= 1 && (k as u64) <= len as u64 => Ok(k as usize - 1),
                // Negative positions count from the end.
                Some(k) if k < 0 && k.unsigned_abs() <= len as u64 => Ok(len - k.unsigned_abs() as usize),
                Some(_) => Err(Stop::Error("index")),
                None => Err(Stop::Error("index")),
            },
            _ => Err(Stop::Unknown),
        }
    }

    fn bin(&mut self, o: Op, a: V, b: V) -> Result<V, Stop> {
        use Op::*;
        match (o, &a, &b) {
            (Eq, _, _) => return Ok(V::B(veq(&a, &b))),
            (Ne, _, _) => return Ok(V::B(!veq(&a, &b))),
            (Concat, _, _) | (Add, V::T(_), _) | (Add, _, V::T(_)) => {
                let t = self.show(&a) + &self.show(&b);
                if t.len() > 5000 {
                    return Err(Stop::Budget);
                }
                return Ok(V::T(t));
            }
            (Followed, V::Seq(x), V::Seq(y)) => {
                let mut z = x.clone();
                z.extend(y.iter().cloned());
                if z.len() > 3000 {
                    return Err(Stop::Budget);
                }
                return Ok(V::Seq(z));
            }
            (Union, V::Set(x), V::Set(y)) => {
                let mut z = x.clone();
                for v in y {
                    if !z.iter().any(|w| veq(v, w)) {
                        z.push(v.clone());
                    }
                }
                return Ok(V::Set(z));
            }
            (Inter, V::Set(x), V::Set(y)) => {
                return Ok(V::Set(x.iter().filter(|v| y.iter().any(|w| veq(v, w))).cloned().collect()))
            }
            (Diff, V::Set(x), V::Set(y)) => {
                return Ok(V::Set(x.iter().filter(|v| !y.iter().any(|w| veq(v, w))).cloned().collect()))
            }
            _ => {}
        }
        match (a, b) {
            (V::I(x), V::I(y)) => {
                // The bit operations are defined on 64-bit integers only.
                let small = |n: &BigInt| n.to_i64().ok_or(Stop::Error("bits"));
                match o {
                    Add => self.int(x + y),
                    Sub => self.int(x - y),
                    Mul => self.int(x * y),
                    Div => {
                        if y.is_zero() {
                            return Err(Stop::Error("divide"));
                        }
                        self.int(x / y)
                    }
                    FloorDiv => {
                        if y.is_zero() {
                            return Err(Stop::Error("divide"));
                        }
                        self.int(x.div_floor(&y))
                    }
                    Mod => {
                        if y.is_zero() {
                            return Err(Stop::Error("modulo"));
                        }
                        self.int(x % y)
                    }
                    Pow => {
                        if y.is_negative() {
                            return Err(Stop::Error("power"));
                        }
                        let k = y.to_u32().ok_or(Stop::Budget)?;
                        if k as u64 * x.bits().max(1) > 2500 {
                            return Err(Stop::Budget);
                        }
                        self.int(x.pow(k))
                    }
                    // ... except that a low-bits mask applies to every integer.
                    BitAnd if x.to_i64().is_none() => match y.to_i64() {
                        Some(m) if m >= 0 && m < i64::MAX && m & (m + 1) == 0 => self.int(x.mod_floor(&BigInt::from(m + 1))),
                        _ => Err(Stop::Error("bits")),
                    },
                    BitAnd => Ok(V::I((small(&x)? & small(&y)?).into())),
                    BitOr => Ok(V::I((small(&x)? | small(&y)?).into())),
                    BitXor => Ok(V::I((small(&x)? ^ small(&y)?).into())),
                    Shl => {
                        let (n, k) = (small(&x)?, small(&y)?);
                        if !(0..64).contains(&k) {
                            return Err(Stop::Unknown);
                        }
                        Ok(V::I(n.wrapping_shl(k as u32).into()))
                    }
                    Shr => {
                        let (n, k) = (small(&x)?, small(&y)?);
                        if !(0..64).contains(&k) {
                            return Err(Stop::Unknown);
                        }
                        Ok(V::I((n >> k).into()))
                    }
                    Lt => Ok(V::B(x < y)),
                    Le => Ok(V::B(x <= y)),
                    Gt => Ok(V::B(x > y)),
                    Ge => Ok(V::B(x >= y)),
                    _ => Err(Stop::Unknown),
                }
            }
            (V::F(x), V::F(y)) => self.fbin(o, x, y),
            (V::I(x), V::F(y)) => {
                let f = self.widen(&x)?;
                self.fbin(o, f, y)
            }
            (V::F(x), V::I(y)) => {
                let f = self.widen(&y)?;
                self.fbin(o, x, f)
            }
            (V::B(x), V::B(y)) => match o {
                BitAnd => Ok(V::B(x & y)),
                BitOr => Ok(V::B(x | y)),
                BitXor => Ok(V::B(x ^ y)),
                _ => Err(Stop::Unknown),
            },
            _ => Err(Stop::Unknown),
        }
    }

    fn widen(&self, n: &BigInt) -> Result<f64, Stop> {
        match n.to_i64() {
            Some(k) if k.unsigned_abs() < (1 << 53) => Ok(k as f64),
            _ => Err(Stop::Unknown),
        }
    }

    fn fbin(&mut self, o: Op, x: f64, y: f64) -> Result<V, Stop> {
        use Op::*;
        Ok(match o {
            Add => V::F(x + y),
            Sub => V::F(x - y),
            Mul => V::F(x * y),
            Div => {
                if y == 0.0 {
                    return Err(Stop::Error("divide"));
                }
                V::F(x / y)
            }
            Lt => V::B(x < y),
            Le => V::B(x <= y),
            Gt => V::B(x > y),
            Ge => V::B(x >= y),
            _ => return Err(Stop::Unknown),
        })
    }

    fn call(&mut self, name: &str, args: Vec<V>) -> Result<Option<V>, Stop> {
        let f = *self.funs.get(name).ok_or(Stop::Unknown)?;
        self.depth += 1;
        if self.depth > 200 {
            return Err(Stop::Budget);
        }
        let mut env: Scope = f.params.iter().map(|(n, _)| n.clone()).zip(args).collect();
        let r = self.block(&f.body, &mut env)?;
        self.depth -= 1;
        Ok(match r {
            Flow::Return(v) => v,
            _ => None,
        })
    }

    fn eval(&mut self, e: &E, env: &Scope) -> Result<V, Stop> {
        self.tick(1)?;
        Ok(match e {
            E::Int(n) => V::I((*n).into()),
            E::Bool(b) => V::B(*b),
            E::Text(t) => V::T(t.clone()),
            E::Float(f) => V::F(*f),
            E::Var(v) => {
                let v = Self::get(env, v)?.clone();
                if let V::Seq(x) = &v {
                    self.tick(x.len() as u64 / 16)?;
                }
                v
            }
            E::Bin(Op::And, a, b) => {
                let x = self.eval(a, env)?;
                if !Self::truthy(&x)? {
                    return Ok(V::B(false));
                }
                let y = self.eval(b, env)?;
                V::B(Self::truthy(&y)?)
            }
            E::Bin(Op::Or, a, b) => {
                let x = self.eval(a, env)?;
                if Self::truthy(&x)? {
                    return Ok(V::B(true));
                }
                let y = self.eval(b, env)?;
                V::B(Self::truthy(&y)?)
            }
            E::Bin(o, a, b) => {
                let x = self.eval(a, env)?;
                let y = self.eval(b, env)?;
                self.bin(*o, x, y)?
            }
            E::Not(a) => {
                let x = self.eval(a, env)?;
                V::B(!Self::truthy(&x)?)
            }
            E::Neg(a) => match self.eval(a, env)? {
                V::I(n) => self.int(-n)?,
                // The sign of a negated zero is left open.
                V::F(f) if f == 0.0 => return Err(Stop::Unknown),
                V::F(f) => V::F(-f),
                _ => return Err(Stop::Unknown),
            },
            E::BitNot(a) => match self.eval(a, env)? {
                V::I(n) => V::I((!n.to_i64().ok_or(Stop::Unknown)?).into()),
                _ => return Err(Stop::Unknown),
            },
            E::Index(c, i) => {
                let cv = self.eval(c, env)?;
                let iv = self.eval(i, env)?;
                match cv {
                    V::Seq(x) => {
                        let k = Self::position(&iv, x.len())?;
                        x[k].clone()
                    }
                    V::T(t) => {
                        let k = Self::position(&iv, t.len())?;
                        V::T(t[k..k + 1].to_string())
                    }
                    V::Map(m) => match m.iter().find(|(k, _)| veq(k, &iv)) {
                        Some((_, v)) => v.clone(),
                        None => return Err(Stop::Error("key")),
                    },
                    _ => return Err(Stop::Unknown),
                }
            }
            E::Slice(c, a, b) => {
                let cv = self.eval(c, env)?;
                let av = self.eval(a, env)?;
                let bv = self.eval(b, env)?;
                match (cv, av, bv) {
                    (V::Seq(x), V::I(i), V::I(j)) => {
                        let (i, j) = (i.to_i64().ok_or(Stop::Unknown)?, j.to_i64().ok_or(Stop::Unknown)?);
                        if i < 1 || j < 0 {
                            return Err(Stop::Unknown);
                        }
                        if i > j || j as u64 > x.len() as u64 {
                            V::Seq(vec![])
                        } else {
                            V::Seq(x[i as usize - 1..j as usize].to_vec())
                        }
                    }
                    _ => return Err(Stop::Unknown),
                }
            }
            E::Len(c) => {
                let n = match self.eval(c, env)? {
                    V::Seq(x) => x.len(),
                    V::Set(x) => x.len(),
                    V::Map(x) => x.len(),
                    V::T(t) => t.len(),
                    _ => return Err(Stop::Unknown),
                };
                V::I((n as u64).into())
            }
            E::Contains(c, v) => {
                let cv = self.eval(c, env)?;
                let x = self.eval(v, env)?;
                V::B(match (&cv, &x) {
                    (V::Seq(s), _) | (V::Set(s), _) => s.iter().any(|y| veq(y, &x)),
                    (V::Map(m), _) => m.iter().any(|(k, _)| veq(k, &x)),
                    (V::T(t), V::T(u)) => t.contains(u.as_str()),
                    _ => return Err(Stop::Unknown),
                })
            }
            E::Copy(c) => self.eval(c, env)?,
            E::List(v) => {
                let mut x = vec![];
                for i in v {
                    x.push(self.eval(i, env)?);
                }
                V::Seq(x)
            }
            E::New(t) => match t {
                Ty::Seq(_) => V::Seq(vec![]),
                Ty::Map(..) => V::Map(vec![]),
                Ty::Set(_) => V::Set(vec![]),
                _ => return Err(Stop::Unknown),
            },
            E::Field(x, _, f) => match self.eval(x, env)? {
                V::St(_, fs) => fs[*f].clone(),
                _ => return Err(Stop::Unknown),
            },
            E::NewStruct(s, fs) => {
                let mut v = vec![];
                for f in fs {
                    v.push(self.eval(f, env)?);
                }
                V::St(*s, v)
            }
            E::NewVariant(en, k, fs) => {
                let mut v = vec![];
                for f in fs {
                    v.push(self.eval(f, env)?);
                }
                V::En(*en, *k, v)
            }
            E::Call(f, args) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a, env)?);
                }
                if let Ok(V::Fun(x, body, cap)) = Self::get(env, f) {
                    let (x, body) = (x.clone(), body.clone());
                    let mut inner: Scope = cap.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    inner.push((x, v.remove(0)));
                    return self.eval(&body, &inner);
                }
                match self.call(f, v)? {
                    Some(v) => v,
                    None => return Err(Stop::Unknown),
                }
            }
            E::Interp(ps) => {
                let mut t = String::new();
                for q in ps {
                    match q {
                        Part::Lit(l) => t += l,
                        Part::Var(n, sp) => {
                            let v = Self::get(env, n)?;
                            let s = self.show(v);
                            match sp {
                                Spec::Plain => t += &s,
                                Spec::Right(w) => t += &format!("{s:>w$}", w = *w),
                                Spec::Left(w) => t += &format!("{s:<w$}", w = *w),
                                Spec::Mid(w) => t += &format!("{s:^w$}", w = *w),
                                Spec::Prec(k) => match v {
                                    V::F(f) => t += &format!("{f:.k$}", k = *k),
                                    _ => return Err(Stop::Unknown),
                                },
                            }
                        }
                    }
                }
                if t.len() > 5000 {
                    return Err(Stop::Budget);
                }
                V::T(t)
            }
            E::Lambda(x, b) => V::Fun(x.clone(), b.clone(), env.iter().cloned().collect()),
            E::Between(x, a, b) | E::Chain(a, x, b) => {
                let chain = matches!(e, E::Chain(..));
                let first = if chain { a } else { x };
                let second = if chain { x } else { a };
                let f = self.eval(first, env)?;
                let g = self.eval(second, env)?;
                let (xv, av) = if chain { (g, f) } else { (f, g) };
                if !matches!(self.bin(Op::Le, av, xv.clone())?, V::B(true)) {
                    return Ok(V::B(false));
                }
                let bv = self.eval(b, env)?;
                self.bin(Op::Le, xv, bv)?
            }
            E::Parity(x, even) => match self.eval(x, env)? {
                V::I(n) => {
                    V::B(n.is_even() == *even)
                }
                _ => return Err(Stop::Unknown),
            },
            E::DivBy(x, n) => match (self.eval(x, env)?, self.eval(n, env)?) {
                (V::I(a), V::I(b)) => {
                    if b.is_zero() {
                        return Err(Stop::Error("modulo"));
                    }
                    V::B((a % b).is_zero())
                }
                _ => return Err(Stop::Unknown),
            },
        })
    }

    fn block(&mut self, b: &[S], env: &mut Scope) -> Result<Flow, Stop> {
        let base = env.len();
        for s in b {
            match self.stmt(s, env)? {
                Flow::Next => {}
                f => {
                    env.truncate(base);
                    return Ok(f);
                }
            }
        }
        env.truncate(base);
        Ok(Flow::Next)
    }

    fn stmt(&mut self, s: &S, env: &mut Scope) -> Result<Flow, Stop> {
        self.tick(1)?;
        match s {
            S::Let(n, _, e) => {
                let v = self.eval(e, env)?;
                env.push((n.clone(), v));
            }
            S::Set(n, e) => {
                let v = self.eval(e, env)?;
                *Self::get_mut(env, n)? = v;
            }
            S::SetIndex(n, i, e) => {
                let iv = self.eval(i, env)?;
                let v = self.eval(e, env)?;
                match Self::get_mut(env, n)? {
                    V::Seq(x) => {
                        let k = Self::position(&iv, x.len())?;
                        x[k] = v;
                    }
                    _ => return Err(Stop::Unknown),
                }
            }
            S::SetIndex2(n, i, j, e) => {
                let v = self.eval(e, env)?;
                let iv = self.eval(i, env)?;
                let jv = self.eval(j, env)?;
                match Self::get_mut(env, n)? {
                    V::Seq(x) => {
                        let k = Self::position(&iv, x.len())?;
                        match &mut x[k] {
                            V::Seq(y) => {
                                let l = Self::position(&jv, y.len())?;
                                y[l] = v;
                            }
                            _ => return Err(Stop::Unknown),
                        }
                    }
                    _ => return Err(Stop::Unknown),
                }
            }
            S::SetField(n, _, f, e) => {
                let v = self.eval(e, env)?;
                match Self::get_mut(env, n)? {
                    V::St(_, fs) => fs[*f] = v,
                    _ => return Err(Stop::Unknown),
                }
            }
            S::MapSet(n, k, e) => {
                let kv = self.eval(k, env)?;
                let v = self.eval(e, env)?;
                match Self::get_mut(env, n)? {
                    V::Map(m) => match m.iter_mut().find(|(q, _)| veq(q, &kv)) {
                        Some(slot) => slot.1 = v,
                        None => m.push((kv, v)),
                    },
                    _ => return Err(Stop::Unknown),
                }
            }
            S::Push(n, e) => {
                let v = self.eval(e, env)?;
                match Self::get_mut(env, n)? {
                    V::Seq(x) => x.push(v),
                    _ => return Err(Stop::Unknown),
                }
            }
            S::PushItem(n, i, e) => {
                let v = self.eval(e, env)?;
                let iv = self.eval(i, env)?;
                match Self::get_mut(env, n)? {
                    V::Seq(x) => {
                        let k = Self::position(&iv, x.len())?;
                        match &mut x[k] {
                            V::Seq(y) => y.push(v),
                            _ => return Err(Stop::Unknown),
                        }
                    }
                    _ => return Err(Stop::Unknown),
                }
            }
            S::Pop(n, into) => {
                let v = match Self::get_mut(env, n)? {
                    V::Seq(x) => x.pop(),
                    _ => return Err(Stop::Unknown),
                };
                match (v, into) {
                    (Some(v), Some(t)) => env.push((t.clone(), v)),
                    (Some(_), None) => {}
                    (None, _) => return Err(Stop::Unknown),
                }
            }
            S::Add(n, e) => {
                let v = self.eval(e, env)?;
                match Self::get_mut(env, n)? {
                    V::Set(x) => {
                        if !x.iter().any(|y| veq(y, &v)) {
                            x.push(v);
                        }
                    }
                    _ => return Err(Stop::Unknown),
                }
            }
            S::Remove(n, e) => {
                let v = self.eval(e, env)?;
                match Self::get_mut(env, n)? {
                    V::Set(x) => x.retain(|y| !veq(y, &v)),
                    V::Map(x) => x.retain(|(k, _)| !veq(k, &v)),
                    _ => return Err(Stop::Unknown),
                }
            }
            S::Show(e) => {
                let v = self.eval(e, env)?;
                let t = self.show(&v);
                self.bytes += t.len() + 1;
                if self.bytes > 200_000 {
                    return Err(Stop::Budget);
                }
                self.lines.push(t);
            }
            S::Break => return Ok(Flow::Break),
            S::Return(None) => return Ok(Flow::Return(None)),
            S::Return(Some(e)) => {
                let v = self.eval(e, env)?;
                return Ok(Flow::Return(Some(v)));
            }
            S::Call(f, a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.eval(x, env)?);
                }
                self.call(f, v)?;
            }
            S::If(arms, other) => {
                for (c, b) in arms {
                    let v = self.eval(c, env)?;
                    if Self::truthy(&v)? {
                        return self.block(b, env);
                    }
                }
                if let Some(b) = other {
                    return self.block(b, env);
                }
            }
            S::While(c, b) => loop {
                let v = self.eval(c, env)?;
                if !Self::truthy(&v)? {
                    break;
                }
                match self.block(b, env)? {
                    Flow::Next => {}
                    Flow::Break => break,
                    f => return Ok(f),
                }
            },
            S::Range(n, a, z, b) => {
                let (av, zv) = (self.eval(a, env)?, self.eval(z, env)?);
                let (lo, hi) = match (av, zv) {
                    (V::I(x), V::I(y)) => (x, y),
                    _ => return Err(Stop::Unknown),
                };
                if lo.to_i64().is_none() || hi.to_i64().is_none() {
                    return Err(Stop::Unknown);
                }
                let mut i = lo;
                while i <= hi {
                    self.tick(1)?;
                    env.push((n.clone(), V::I(i.clone())));
                    let f = self.block(b, env)?;
                    env.pop();
                    match f {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                    i += 1;
                }
            }
            S::Each(n, c, b) => {
                let items = match self.eval(c, env)? {
                    V::Seq(x) | V::Set(x) => x,
                    V::T(t) => t.chars().map(|c| V::T(c.to_string())).collect(),
                    _ => return Err(Stop::Unknown),
                };
                for it in items {
                    self.tick(1)?;
                    env.push((n.clone(), it));
                    let f = self.block(b, env)?;
                    env.pop();
                    match f {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                }
            }
            S::Pairs(k, v, c, b) => {
                let items = match self.eval(c, env)? {
                    V::Map(x) => x,
                    _ => return Err(Stop::Unknown),
                };
                for (kk, vv) in items {
                    self.tick(1)?;
                    env.push((k.clone(), kk));
                    env.push((v.clone(), vv));
                    let f = self.block(b, env)?;
                    env.pop();
                    env.pop();
                    match f {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                }
            }
            S::Inspect(e, _, arms, other) => {
                let (k, fs) = match self.eval(e, env)? {
                    V::En(_, k, fs) => (k, fs),
                    _ => return Err(Stop::Unknown),
                };
                for (v, names, b) in arms {
                    if *v == k {
                        let base = env.len();
                        for (n, f) in names.iter().zip(fs) {
                            env.push((n.clone(), f));
                        }
                        let f = self.block(b, env)?;
                        env.truncate(base);
                        return Ok(f);
                    }
                }
                if let Some(b) = other {
                    return self.block(b, env);
                }
                return Err(Stop::Unknown);
            }
        }
        Ok(Flow::Next)
    }
}

pub fn reference(p: &Prog, limit: u64) -> Ref {
    let mut ev = Ev {
        p,
        funs: p.funs.iter().map(|f| (f.name.as_str(), f)).collect(),
        lines: vec![],
        bytes: 0,
        steps: 0,
        limit,
        depth: 0,
        big: false,
    };
    let mut env = vec![];
    let stop = ev.block(&p.main, &mut env).err();
    Ref { lines: ev.lines, stop, steps: ev.steps, big: ev.big }
}

// -------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct Opts {
    pub floats: bool,
    pub text: bool,
    pub maps: bool,
    pub structs: bool,
    pub closures: bool,
    pub nested: bool,
    pub interp: bool,
    /// Trip counts high enough to make the native tiers compile the loop.
    pub hot: bool,
    /// Percent of places where an out-of-range or zero-divisor operand is allowed.
    pub risky: u64,
    /// Percent of literals drawn from the 64-bit edges.
    pub edges: u64,
    /// Text joined with numbers and truth values by `+`.
    pub mixed: bool,
    /// Inner names that hide outer ones.
    pub shadow: bool,
    /// Recursive calls that are operands of the returned value, and loops over a fresh empty list.
    pub pending: bool,
}

impl Opts {
    pub fn full() -> Opts {
        Opts { floats: true, text: true, maps: true, structs: true, closures: true, nested: true, interp: true, hot: false, risky: 2, edges: 6, mixed: true, shadow: true, pending: true }
    }
}

#[derive(Clone, Debug)]
struct Var {
    name: String,
    ty: Ty,
    mutable: bool,
    /// Known to hold a value in 1..=small (loop counters).
    counter: bool,
}

struct Sig {
    name: String,
    params: Vec<Ty>,
    ret: Option<Ty>,
    rec: bool,
    cost: u64,
}

struct Gen<'s> {
    s: &'s mut Src,
    o: Opts,
    p: Prog,
    sigs: Vec<Sig>,
    vars: Vec<Var>,
    next: usize,
    mult: u64,
    cost: u64,
    fuel: i32,
    in_fun: Option<Option<Ty>>,
    loops: u32,
    depth: u32,
}

const SMALL_TEXT: &[&str] = &["a", "bc", "xyz", "", "Q", "hello", "no", "zz9", "a b"];

fn b(e: E) -> Box<E> {
    Box::new(e)
}
fn var(n: &str) -> E {
    E::Var(n.to_string())
}
fn bin(o: Op, x: E, y: E) -> E {
    E::Bin(o, b(x), b(y))
}

impl<'s> Gen<'s> {
    fn fresh(&mut self, stem: &str) -> String {
        self.next += 1;
        format!("{stem}{}", self.next)
    }

    fn scalar(&mut self) -> Ty {
        let f = self.o.floats as u32;
        let t = self.o.text as u32;
        match self.s.weighted(&[8, 2, 2 * t, 2 * f]) {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::Text,
            _ => Ty::Float,
        }
    }

    fn ty(&mut self) -> Ty {
        let (t, m, n) = (self.o.text as u32, self.o.maps as u32, self.o.nested as u32);
        let st = !self.p.structs.is_empty() as u32;
        let en = !self.p.enums.is_empty() as u32;
        match self.s.weighted(&[12, 5, 2, n, m, m * t, m, m * t, 2 * st, 2 * en]) {
            0 => self.scalar(),
            1 => Ty::Seq(Box::new(Ty::Int)),
            2 => Ty::Seq(Box::new(self.scalar())),
            3 => Ty::Seq(Box::new(Ty::Seq(Box::new(Ty::Int)))),
            4 => Ty::Map(Box::new(Ty::Int), Box::new(Ty::Int)),
            5 => Ty::Map(Box::new(Ty::Text), Box::new(Ty::Int)),
            6 => Ty::Set(Box::new(Ty::Int)),
            7 => Ty::Set(Box::new(Ty::Text)),
            8 => Ty::Struct(self.s.usize(0, self.p.structs.len() - 1)),
            _ => Ty::Enum(self.s.usize(0, self.p.enums.len() - 1)),
        }
    }

    fn risky(&mut self) -> bool {
        let r = self.o.risky;
        self.s.chance(r, 100)
    }

    fn of_ty(&self, t: &Ty) -> Vec<String> {
        let mut seen: Vec<&str> = vec![];
        let mut r = vec![];
        for v in self.vars.iter().rev() {
            if seen.contains(&v.name.as_str()) {
                continue;
            }
            seen.push(&v.name);
            if v.ty == *t {
                r.push(v.name.clone());
            }
        }
        r
    }

    fn mutables(&self, f: impl Fn(&Ty) -> bool) -> Vec<(String, Ty)> {
        let mut seen: Vec<&str> = vec![];
        let mut r = vec![];
        for v in self.vars.iter().rev() {
            if seen.contains(&v.name.as_str()) {
                continue;
            }
            seen.push(&v.name);
            if v.mutable && f(&v.ty) {
                r.push((v.name.clone(), v.ty.clone()));
            }
        }
        r
    }

    fn int_lit(&mut self) -> E {
        let e = self.o.edges;
        if self.s.chance(e, 100) {
            let k = *self.s.pick(&[
                i64::MAX,
                i64::MAX - 1,
                i64::MIN,
                i64::MIN + 1,
                1 << 31,
                (1 << 31) - 1,
                -(1 << 31),
                -(1i64 << 31) - 1,
                1 << 32,
                1 << 62,
                -(1 << 62),
                (1 << 53) + 1,
                3037000500,
                -3037000500,
                4294967295,
                1000003,
                256,
                255,
                65535,
            ]);
            E::Int(k)
        } else if self.s.chance(1, 6) {
            E::Int(self.s.int(-1000, 1000))
        } else {
            E::Int(self.s.int(-4, 12))
        }
    }

    fn float_lit(&mut self) -> E {
        E::Float(*self.s.pick(&[0.0, 1.0, 0.5, 2.5, -1.25, 3.0, 0.1, 0.2, 1e6, -7.75, 1e-3, 123456.789, 2.0, 100.0]))
    }

    /// An index expression for a collection expression, in range unless `risky`.
    fn index(&mut self, coll: &E, d: u32) -> E {
        if self.risky() {
            let e = self.expr(&Ty::Int, d.min(1));
            // A literal zero position is rejected before the program runs.
            return if matches!(e, E::Int(0)) { E::Int(-1) } else { e };
        }
        let counters: Vec<String> = self.vars.iter().filter(|v| v.counter).map(|v| v.name.clone()).collect();
        if !counters.is_empty() && self.s.chance(1, 8) {
            // A loop counter used directly: in range only when the loop bound says so.
            let c = self.s.pick(&counters).clone();
            return var(&c);
        }
        let len = E::Len(b(coll.clone()));
        match self.s.weighted(&[3, 4, 2]) {
            0 => E::Int(1),
            1 => {
                // ((e mod n) + n) mod n + 1
                let base = if !counters.is_empty() && self.s.chance(3, 4) {
                    let c = self.s.pick(&counters).clone();
                    if self.s.flip() {
                        var(&c)
                    } else {
                        let k = self.s.int(1, 5);
                        bin(Op::Mul, var(&c), E::Int(k))
                    }
                } else {
                    let inner = self.expr(&Ty::Int, 1);
                    let m = bin(Op::Mod, inner, len.clone());
                    bin(Op::Add, m, len.clone())
                };
                bin(Op::Add, bin(Op::Mod, base, len), E::Int(1))
            }
            _ => len,
        }
    }

    fn divisor(&mut self, d: u32) -> E {
        if self.risky() {
            return self.expr(&Ty::Int, d);
        }
        match self.s.weighted(&[6, 3, 1]) {
            0 => E::Int(*self.s.pick(&[2, 3, 7, 10, 16, 64, 1, -1, -3, 5, 1000, 1000003, 8])),
            1 => {
                let x = self.expr(&Ty::Int, d.min(1));
                let m = bin(Op::Mod, x, E::Int(5));
                bin(Op::Add, m, E::Int(6))
            }
            _ => {
                let k = self.s.int(1, 300);
                E::Int(k)
            }
        }
    }

    fn call_of(&mut self, t: &Ty, d: u32) -> Option<E> {
        let mult = self.mult;
        let cands: Vec<usize> =
            (0..self.sigs.len()).filter(|&i| self.sigs[i].ret.as_ref() == Some(t) && self.sigs[i].cost * mult < 20_000).collect();
        if cands.is_empty() {
            return None;
        }
        let i = *self.s.pick(&cands);
        Some(self.call_fn(i, d))
    }

    fn call_args(&mut self, i: usize, d: u32) -> Vec<E> {
        let params = self.sigs[i].params.clone();
        let rec = self.sigs[i].rec;
        self.cost += self.sigs[i].cost * self.mult;
        let mut args = vec![];
        for (k, t) in params.iter().enumerate() {
            if rec && k == 0 {
                let a = if self.s.flip() {
                    E::Int(self.s.int(0, 9))
                } else {
                    let x = self.expr(&Ty::Int, 1);
                    let m = bin(Op::Mod, x, E::Int(6));
                    bin(Op::Add, m, E::Int(4))
                };
                args.push(a);
            } else {
                args.push(self.expr(t, d.saturating_sub(1).min(2)));
            }
        }
        args
    }

    fn call_fn(&mut self, i: usize, d: u32) -> E {
        let args = self.call_args(i, d);
        E::Call(self.sigs[i].name.clone(), args)
    }

    fn leaf(&mut self, t: &Ty) -> E {
        let vs = self.of_ty(t);
        if !vs.is_empty() && self.s.chance(3, 4) {
            return var(&self.s.pick(&vs).clone());
        }
        match t {
            Ty::Int => self.int_lit(),
            Ty::Bool => E::Bool(self.s.flip()),
            Ty::Text => E::Text(self.s.pick(SMALL_TEXT).to_string()),
            Ty::Float => self.float_lit(),
            Ty::Seq(e) => {
                let n = self.s.usize(0, 4);
                if n == 0 {
                    return E::New(t.clone());
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.leaf(e));
                }
                E::List(v)
            }
            Ty::Map(..) | Ty::Set(_) => E::New(t.clone()),
            Ty::Struct(i) => {
                let fs = self.p.structs[*i].1.clone();
                let v = fs.iter().map(|(_, t)| self.leaf(t)).collect();
                E::NewStruct(*i, v)
            }
            Ty::Enum(i) => {
                let k = self.s.usize(0, self.p.enums[*i].1.len() - 1);
                let fs = self.p.enums[*i].1[k].1.clone();
                let v = fs.iter().map(|(_, t)| self.leaf(t)).collect();
                E::NewVariant(*i, k, v)
            }
            Ty::Fun => {
                let x = self.fresh("arg");
                E::Lambda(x.clone(), b(var(&x)))
            }
        }
    }

    fn field_of(&mut self, t: &Ty) -> Option<E> {
        let mut c = vec![];
        for v in &self.vars {
            if let Ty::Struct(i) = v.ty {
                for (k, (_, ft)) in self.p.structs[i].1.iter().enumerate() {
                    if ft == t && self.of_ty(&v.ty).contains(&v.name) {
                        c.push((v.name.clone(), i, k));
                    }
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (n, i, k) = self.s.pick(&c).clone();
        Some(E::Field(b(var(&n)), i, k))
    }

    /// Indexing some sequence variable with element type `t`.
    fn element_of(&mut self, t: &Ty, d: u32) -> Option<E> {
        let vs = self.of_ty(&Ty::Seq(Box::new(t.clone())));
        if vs.is_empty() {
            return None;
        }
        let c = var(&self.s.pick(&vs).clone());
        let i = self.index(&c, d);
        Some(E::Index(b(c), b(i)))
    }

    fn any_coll(&mut self) -> Option<(String, Ty)> {
        let c: Vec<(String, Ty)> = self
            .vars
            .iter()
            .filter(|v| matches!(v.ty, Ty::Seq(_) | Ty::Map(..) | Ty::Set(_) | Ty::Text))
            .filter(|v| self.of_ty(&v.ty).contains(&v.name))
            .map(|v| (v.name.clone(), v.ty.clone()))
            .collect();
        if c.is_empty() {
            None
        } else {
            Some(self.s.pick(&c).clone())
        }
    }

    fn expr(&mut self, t: &Ty, d: u32) -> E {
        self.fuel -= 1;
        if d == 0 || self.fuel < 0 {
            return self.leaf(t);
        }
        match t {
            Ty::Int => self.int_expr(d),
            Ty::Bool => self.bool_expr(d),
            Ty::Text => self.text_expr(d),
            Ty::Float => self.float_expr(d),
            Ty::Seq(_) => self.seq_expr(t, d),
            Ty::Set(_) => {
                if self.s.chance(1, 3) {
                    let vs = self.of_ty(t);
                    if vs.len() >= 2 {
                        let (x, y) = (self.s.pick(&vs).clone(), self.s.pick(&vs).clone());
                        let o = *self.s.pick(&[Op::Union, Op::Inter, Op::Diff]);
                        return bin(o, var(&x), var(&y));
                    }
                }
                self.maybe_call(t, d)
            }
            Ty::Struct(i) => {
                if self.s.flip() {
                    let fs = self.p.structs[*i].1.clone();
                    let v = fs.iter().map(|(_, t)| self.expr(t, d - 1)).collect();
                    return E::NewStruct(*i, v);
                }
                self.maybe_call(t, d)
            }
            Ty::Enum(i) => {
                if self.s.flip() {
                    let k = self.s.usize(0, self.p.enums[*i].1.len() - 1);
                    let fs = self.p.enums[*i].1[k].1.clone();
                    let v = fs.iter().map(|(_, t)| self.expr(t, d - 1)).collect();
                    return E::NewVariant(*i, k, v);
                }
                self.maybe_call(t, d)
            }
            Ty::Fun => {
                let x = self.fresh("arg");
                let keep = self.vars.len();
                // Only immutable names are captured.
                let hidden: Vec<Var> = self.vars.clone();
                self.vars.retain(|v| !v.mutable && v.ty != Ty::Fun);
                self.vars.push(Var { name: x.clone(), ty: Ty::Int, mutable: false, counter: false });
                let body = self.expr(&Ty::Int, 2);
                self.vars = hidden;
                debug_assert_eq!(self.vars.len(), keep);
                E::Lambda(x, b(body))
            }
            Ty::Map(..) => self.maybe_call(t, d),
        }
    }

    fn maybe_call(&mut self, t: &Ty, d: u32) -> E {
        if self.s.chance(1, 4) {
            if let Some(c) = self.call_of(t, d) {
                return c;
            }
        }
        self.leaf(t)
    }

    fn int_expr(&mut self, d: u32) -> E {
        let k = self.s.weighted(&[5, 8, 3, 2, 3, 2, 1, 1, 1, 3, 3, 1, 1, 1]);
        match k {
            0 => self.leaf(&Ty::Int),
            1 => {
                let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Add]);
                let x = self.expr(&Ty::Int, d - 1);
                let y = self.expr(&Ty::Int, d - 1);
                bin(o, x, y)
            }
            2 => {
                let o = *self.s.pick(&[Op::Div, Op::FloorDiv, Op::Mod, Op::Mod]);
                let x = self.expr(&Ty::Int, d - 1);
                let y = self.divisor(d - 1);
                bin(o, x, y)
            }
            3 => match self.any_coll() {
                Some((n, _)) => E::Len(b(var(&n))),
                None => self.leaf(&Ty::Int),
            },
            4 => self.element_of(&Ty::Int, d - 1).unwrap_or_else(|| E::Int(7)),
            5 => self.field_of(&Ty::Int).unwrap_or_else(|| E::Int(3)),
            6 => {
                let o = *self.s.pick(&[Op::BitAnd, Op::BitOr, Op::BitXor]);
                let x = self.expr(&Ty::Int, d - 1);
                let y = self.expr(&Ty::Int, d - 1);
                bin(o, x, y)
            }
            7 => {
                let o = *self.s.pick(&[Op::Shl, Op::Shr]);
                let x = self.expr(&Ty::Int, d - 1);
                let n = if self.risky() { self.s.int(-2, 70) } else { self.s.int(0, 63) };
                bin(o, x, E::Int(n))
            }
            8 => {
                let x = self.expr(&Ty::Int, d - 1);
                if self.s.chance(2, 3) {
                    E::Neg(b(x))
                } else {
                    E::BitNot(b(x))
                }
            }
            9 => match self.call_of(&Ty::Int, d) {
                Some(c) => c,
                None => self.leaf(&Ty::Int),
            },
            10 => {
                let x = self.expr(&Ty::Int, d - 1);
                let m = E::Int(*self.s.pick(&[10, 97, 1000, 1000003, 256, 2, 64]));
                bin(Op::Mod, x, m)
            }
            11 => {
                // Map lookup.
                let vs = self.of_ty(&Ty::Map(Box::new(Ty::Int), Box::new(Ty::Int)));
                if vs.is_empty() || !self.s.chance(1, 3) {
                    return self.leaf(&Ty::Int);
                }
                let m = self.s.pick(&vs).clone();
                let k = self.small_int();
                // A literal zero after `item` is rejected before the program runs.
                let k = if matches!(k, E::Int(0)) { E::Int(2) } else { k };
                E::Index(b(var(&m)), b(k))
            }
            12 => {
                let x = self.expr(&Ty::Int, d - 1);
                let k = if self.risky() { -1 } else { self.s.int(0, 4) };
                bin(Op::Pow, x, E::Int(k))
            }
            _ => {
                let fs = self.of_ty(&Ty::Fun);
                if fs.is_empty() {
                    return self.leaf(&Ty::Int);
                }
                let f = self.s.pick(&fs).clone();
                let a = self.expr(&Ty::Int, d - 1);
                E::Call(f, vec![a])
            }
        }
    }

    fn small_int(&mut self) -> E {
        if self.s.chance(2, 3) {
            E::Int(self.s.int(0, 4))
        } else {
            let x = self.leaf(&Ty::Int);
            bin(Op::Mod, x, E::Int(4))
        }
    }

    fn bool_expr(&mut self, d: u32) -> E {
        match self.s.weighted(&[2, 8, 3, 2, 2, 1, 1, 1, 1, 1]) {
            0 => self.leaf(&Ty::Bool),
            1 => {
                let t = if self.o.floats && self.s.chance(1, 5) { Ty::Float } else { Ty::Int };
                let o = *self.s.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]);
                let x = self.expr(&t, d - 1);
                let y = self.expr(&t, d - 1);
                bin(o, x, y)
            }
            2 => {
                let o = *self.s.pick(&[Op::And, Op::Or]);
                let x = self.expr(&Ty::Bool, d - 1);
                let y = self.expr(&Ty::Bool, d - 1);
                bin(o, x, y)
            }
            3 => E::Not(b(self.expr(&Ty::Bool, d - 1))),
            4 => match self.any_coll() {
                Some((n, Ty::Seq(e))) if matches!(*e, Ty::Int | Ty::Bool | Ty::Text | Ty::Float) => {
                    let v = self.leaf(&e);
                    E::Contains(b(var(&n)), b(v))
                }
                Some((n, Ty::Set(e))) => {
                    let v = if *e == Ty::Int { self.small_int() } else { self.leaf(&e) };
                    E::Contains(b(var(&n)), b(v))
                }
                Some((n, Ty::Map(k, _))) => {
                    let v = if *k == Ty::Int { self.small_int() } else { self.leaf(&k) };
                    E::Contains(b(var(&n)), b(v))
                }
                Some((n, Ty::Text)) => {
                    let v = self.leaf(&Ty::Text);
                    E::Contains(b(var(&n)), b(v))
                }
                _ => self.leaf(&Ty::Bool),
            },
            5 => {
                let t = self.ty();
                if matches!(t, Ty::Set(_) | Ty::Map(..) | Ty::Fun | Ty::Float) {
                    return self.leaf(&Ty::Bool);
                }
                let o = *self.s.pick(&[Op::Eq, Op::Ne]);
                let x = self.expr(&t, d - 1);
                let y = self.expr(&t, d - 1);
                bin(o, x, y)
            }
            6 => {
                // The middle operand may be read twice, so it is a plain name or literal.
                let x = self.leaf(&Ty::Int);
                let lo = self.expr(&Ty::Int, d - 1);
                let hi = self.expr(&Ty::Int, d - 1);
                if self.s.flip() {
                    E::Between(b(x), b(lo), b(hi))
                } else {
                    E::Chain(b(lo), b(x), b(hi))
                }
            }
            7 => {
                let x = self.expr(&Ty::Int, d - 1);
                if self.s.flip() {
                    E::Parity(b(x), self.s.flip())
                } else {
                    let n = self.divisor(d - 1);
                    E::DivBy(b(x), b(n))
                }
            }
            8 => self.element_of(&Ty::Bool, d - 1).unwrap_or(E::Bool(true)),
            _ => match self.call_of(&Ty::Bool, d) {
                Some(c) => c,
                None => self.field_of(&Ty::Bool).unwrap_or(E::Bool(false)),
            },
        }
    }

    fn text_expr(&mut self, d: u32) -> E {
        match self.s.weighted(&[3, 3, 2, 3, 1, 1, 1]) {
            0 => self.leaf(&Ty::Text),
            1 => {
                let t = if !self.o.mixed || self.s.chance(2, 3) { Ty::Text } else { self.scalar() };
                let x = self.expr(&Ty::Text, d - 1);
                let y = self.expr(&t, d - 1);
                if self.s.chance(1, 4) {
                    bin(Op::Add, y, x)
                } else {
                    bin(Op::Add, x, y)
                }
            }
            2 => {
                let x = self.expr(&Ty::Text, d - 1);
                let y = self.expr(&Ty::Text, d - 1);
                bin(Op::Concat, x, y)
            }
            3 if self.o.interp => self.interp(),
            4 => self.element_of(&Ty::Text, d - 1).unwrap_or_else(|| E::Text("e".into())),
            5 => self.field_of(&Ty::Text).unwrap_or_else(|| E::Text("f".into())),
            _ => match self.call_of(&Ty::Text, d) {
                Some(c) => c,
                None => {
                    let vs = self.of_ty(&Ty::Text);
                    if vs.is_empty() || !self.s.chance(1, 4) {
                        return self.leaf(&Ty::Text);
                    }
                    let c = var(&self.s.pick(&vs).clone());
                    let i = self.index(&c, 0);
                    E::Index(b(c), b(i))
                }
            },
        }
    }

    fn interp(&mut self) -> E {
        let n = self.s.usize(1, 3);
        let mut ps = vec![];
        for _ in 0..n {
            if self.s.flip() {
                ps.push(Part::Lit(self.s.pick(&["x", "k ", ", ", "v is ", "-"]).to_string()));
            }
            let mut c: Vec<(String, Ty)> = vec![];
            for v in &self.vars {
                if v.ty != Ty::Fun && self.of_ty(&v.ty).contains(&v.name) {
                    c.push((v.name.clone(), v.ty.clone()));
                }
            }
            if c.is_empty() {
                continue;
            }
            let (v, t) = self.s.pick(&c).clone();
            let w = self.s.usize(1, 9);
            let sp = match self.s.weighted(&[6, 1, 1, 1, 2]) {
                1 if matches!(t, Ty::Int | Ty::Text) => Spec::Right(w),
                2 if matches!(t, Ty::Int | Ty::Text) => Spec::Left(w),
                3 if matches!(t, Ty::Int | Ty::Text) => Spec::Mid(w),
                4 if t == Ty::Float => Spec::Prec(w.min(4)),
                _ => Spec::Plain,
            };
            ps.push(Part::Var(v, sp));
        }
        if ps.is_empty() {
            ps.push(Part::Lit("k".into()));
        }
        E::Interp(ps)
    }

    fn float_expr(&mut self, d: u32) -> E {
        match self.s.weighted(&[3, 7, 2, 2, 1, 1, 1]) {
            0 => self.leaf(&Ty::Float),
            1 => {
                let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul]);
                let x = self.expr(&Ty::Float, d - 1);
                let y = self.expr(&Ty::Float, d - 1);
                bin(o, x, y)
            }
            2 => {
                let x = self.expr(&Ty::Float, d - 1);
                let y = if self.risky() { self.expr(&Ty::Float, d - 1) } else { E::Float(*self.s.pick(&[2.0, 3.0, 0.5, 10.0, -4.0])) };
                bin(Op::Div, x, y)
            }
            3 => self.element_of(&Ty::Float, d - 1).unwrap_or(E::Float(1.5)),
            4 => self.field_of(&Ty::Float).unwrap_or(E::Float(2.5)),
            5 if self.o.mixed => {
                // Mixed arithmetic with a small integer.
                let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul]);
                let x = self.expr(&Ty::Float, d - 1);
                let y = self.small_int();
                if self.s.flip() {
                    bin(o, x, y)
                } else {
                    bin(o, y, x)
                }
            }
            _ => match self.call_of(&Ty::Float, d) {
                Some(c) => c,
                None => {
                    let x = self.expr(&Ty::Float, d - 1);
                    E::Neg(b(x))
                }
            },
        }
    }

    fn seq_expr(&mut self, t: &Ty, d: u32) -> E {
        let el = match t {
            Ty::Seq(e) => (**e).clone(),
            _ => unreachable!(),
        };
        match self.s.weighted(&[3, 4, 2, 2, 1, 2]) {
            0 => self.leaf(t),
            1 => {
                let n = self.s.usize(1, 5);
                let v = (0..n).map(|_| self.expr(&el, d - 1)).collect();
                E::List(v)
            }
            2 => {
                let vs = self.of_ty(t);
                if vs.is_empty() {
                    return self.leaf(t);
                }
                let c = self.s.pick(&vs).clone();
                let a = self.s.int(1, 3);
                let z = if self.s.flip() { E::Int(self.s.int(1, 5)) } else { E::Len(b(var(&c))) };
                E::Slice(b(var(&c)), b(E::Int(a)), b(z))
            }
            3 => {
                let x = self.leaf(t);
                E::Copy(b(x))
            }
            4 => {
                let x = self.leaf(t);
                let y = self.leaf(t);
                bin(Op::Followed, x, y)
            }
            _ => match self.call_of(t, d) {
                Some(c) => c,
                None => match self.element_of(t, d - 1) {
                    Some(e) => e,
                    None => self.leaf(t),
                },
            },
        }
    }

    fn declare(&mut self, out: &mut Vec<S>, t: Ty, d: u32, mutable: bool) -> String {
        let e = self.expr(&t, d);
        let shadow = self.of_ty(&t);
        // Names from an enclosing scope are occasionally shadowed inside a block.
        let n = if self.o.shadow && self.depth > 0 && !shadow.is_empty() && self.s.chance(1, 25) && t != Ty::Fun {
            let c = self.s.pick(&shadow).clone();
            if self.vars.iter().any(|v| v.name == c && v.counter) || !self.vars.iter().any(|v| v.name == c && v.mutable) {
                self.fresh("v")
            } else {
                c
            }
        } else {
            self.fresh("v")
        };
        out.push(S::Let(n.clone(), mutable, e));
        self.vars.push(Var { name: n.clone(), ty: t, mutable, counter: false });
        n
    }

    fn scoped(&mut self, n: usize) -> Vec<S> {
        let keep = self.vars.len();
        self.depth += 1;
        let b = self.stmts(n);
        self.depth -= 1;
        self.vars.truncate(keep);
        b
    }

    fn stmts(&mut self, n: usize) -> Vec<S> {
        let mut out = vec![];
        for _ in 0..n {
            if self.fuel < 0 {
                break;
            }
            self.statement(&mut out);
        }
        if out.is_empty() {
            let e = self.leaf(&Ty::Int);
            out.push(S::Show(e));
        }
        out
    }

    fn trip(&mut self) -> u64 {
        let hot = self.o.hot && self.mult < 8 && self.s.chance(2, 3);
        let n = if hot { self.s.usize(110, 260) } else { self.s.usize(1, 6) } as u64;
        if self.mult * n > 3000 {
            self.s.usize(1, 3) as u64
        } else {
            n
        }
    }

    fn body_with(&mut self, n: u64, vars: Vec<Var>, k: usize) -> Vec<S> {
        let keep = self.vars.len();
        let m = self.mult;
        self.mult = self.mult.saturating_mul(n.max(1));
        self.vars.extend(vars);
        self.loops += 1;
        self.depth += 1;
        let b = self.stmts(k);
        self.depth -= 1;
        self.loops -= 1;
        self.vars.truncate(keep);
        self.mult = m;
        b
    }

    fn statement(&mut self, out: &mut Vec<S>) {
        self.fuel -= 1;
        self.cost += self.mult;
        let deep = self.depth < 3;
        let w = [
            6,                                  // 0 let
            7,                                  // 1 set
            if self.mult > 20 { 0 } else { 4 }, // 2 show
            if deep { 4 } else { 0 },           // 3 if
            if deep { 3 } else { 0 },           // 4 while
            if deep { 2 } else { 0 },           // 5 range
            if deep { 2 } else { 0 },           // 6 each
            3,                                  // 7 push
            3,                                  // 8 set item
            1,                                  // 9 pop
            2,                                  // 10 map/set ops
            2,                                  // 11 field
            if deep { 2 } else { 0 },           // 12 inspect
            if self.loops > 0 { 1 } else { 0 }, // 13 break
            if self.in_fun.is_some() { 1 } else { 0 }, // 14 early return
            1,                                  // 15 call procedure
            if deep { 1 } else { 0 },           // 16 pairs
            2,                                  // 17 idiom
        ];
        match self.s.weighted(&w) {
            0 => {
                let t = if self.o.closures && self.s.chance(1, 14) { Ty::Fun } else { self.ty() };
                let m = t != Ty::Fun && self.s.chance(3, 4);
                self.declare(out, t, 3, m);
            }
            1 => {
                let c = self.mutables(|t| *t != Ty::Fun);
                if c.is_empty() {
                    self.declare(out, Ty::Int, 2, true);
                    return;
                }
                let (n, t) = self.s.pick(&c).clone();
                if t == Ty::Int && self.s.chance(1, 3) {
                    // Accumulation.
                    let x = self.expr(&Ty::Int, 2);
                    let o = *self.s.pick(&[Op::Add, Op::Add, Op::Sub, Op::Mul, Op::BitXor]);
                    let e = bin(o, var(&n), x);
                    let e = if o == Op::Mul || self.s.flip() { bin(Op::Mod, e, E::Int(1000003)) } else { e };
                    out.push(S::Set(n, e));
                } else {
                    let e = self.expr(&t, 3);
                    out.push(S::Set(n, e));
                }
            }
            2 => {
                let t = self.ty();
                let e = self.expr(&t, 2);
                out.push(S::Show(e));
            }
            3 => {
                let n = self.s.weighted(&[6, 2, 1]) + 1;
                let mut arms = vec![];
                for _ in 0..n {
                    let c = self.expr(&Ty::Bool, 2);
                    let k = self.s.usize(1, 3);
                    let bl = self.scoped(k);
                    arms.push((c, bl));
                }
                let other = if self.s.flip() { Some(self.scoped(2)) } else { None };
                out.push(S::If(arms, other));
            }
            4 => {
                let n = self.trip();
                let i = self.fresh("i");
                let start = self.s.int(0, 1);
                let step = if n > 50 { 1 } else { self.s.int(1, 2) };
                out.push(S::Let(i.clone(), true, E::Int(start)));
                let mut cond = if self.s.flip() {
                    bin(Op::Lt, var(&i), E::Int(start + n as i64))
                } else {
                    bin(Op::Le, var(&i), E::Int(start + n as i64 - 1))
                };
                if self.s.chance(1, 5) {
                    let extra = self.expr(&Ty::Bool, 1);
                    let extra = bin(Op::Or, extra, bin(Op::Lt, var(&i), E::Int(start + n as i64 / 2)));
                    cond = bin(Op::And, cond, extra);
                }
                let k = self.s.usize(1, 4);
                let cv = Var { name: i.clone(), ty: Ty::Int, mutable: false, counter: true };
                let mut body = self.body_with(n, vec![cv], k);
                body.push(S::Set(i.clone(), bin(Op::Add, var(&i), E::Int(step))));
                out.push(S::While(cond, body));
                self.vars.push(Var { name: i, ty: Ty::Int, mutable: false, counter: false });
            }
            5 => {
                let n = self.trip();
                let i = self.fresh("i");
                let k = self.s.usize(1, 4);
                let cv = Var { name: i.clone(), ty: Ty::Int, mutable: false, counter: true };
                let body = self.body_with(n, vec![cv], k);
                let lo = self.s.int(0, 2);
                let hi = if self.s.chance(1, 6) {
                    let x = self.leaf(&Ty::Int);
                    bin(Op::Mod, x, E::Int(5))
                } else {
                    E::Int(lo + n as i64 - 1)
                };
                out.push(S::Range(i, E::Int(lo), hi, body));
            }
            6 => {
                let t = self.scalar();
                let st = if self.o.text && self.s.chance(1, 8) {
                    Ty::Text
                } else if self.o.maps && self.s.chance(1, 8) {
                    Ty::Set(Box::new(Ty::Int))
                } else {
                    Ty::Seq(Box::new(t))
                };
                let el = match &st {
                    Ty::Seq(e) | Ty::Set(e) => (**e).clone(),
                    _ => Ty::Text,
                };
                let c = match self.leaf(&st) {
                    E::New(_) if !self.o.pending => E::List(vec![self.leaf(&el)]),
                    c => c,
                };
                let x = self.fresh("x");
                let k = self.s.usize(1, 3);
                let n = if self.o.hot { 60 } else { 6 };
                let body = self.body_with(n, vec![Var { name: x.clone(), ty: el, mutable: false, counter: false }], k);
                out.push(S::Each(x, c, body));
            }
            7 => {
                let c = self.mutables(|t| matches!(t, Ty::Seq(_)));
                if c.is_empty() {
                    let t = Ty::Seq(Box::new(Ty::Int));
                    self.declare(out, t, 2, true);
                    return;
                }
                let (n, t) = self.s.pick(&c).clone();
                let el = match t {
                    Ty::Seq(e) => *e,
                    _ => unreachable!(),
                };
                if el == Ty::Seq(Box::new(Ty::Int)) && self.s.flip() {
                    let i = self.index(&var(&n), 1);
                    let v = self.expr(&Ty::Int, 2);
                    out.push(S::PushItem(n, i, v));
                } else {
                    let v = self.expr(&el, 2);
                    out.push(S::Push(n, v));
                }
            }
            8 => {
                let c = self.mutables(|t| matches!(t, Ty::Seq(_)));
                if c.is_empty() {
                    self.declare(out, Ty::Seq(Box::new(Ty::Int)), 2, true);
                    return;
                }
                let (n, t) = self.s.pick(&c).clone();
                let el = match t {
                    Ty::Seq(e) => *e,
                    _ => unreachable!(),
                };
                let i = self.index(&var(&n), 1);
                if el == Ty::Seq(Box::new(Ty::Int)) && self.s.flip() {
                    let v = self.expr(&Ty::Int, 2);
                    out.push(S::SetIndex2(n, i, E::Int(1), v));
                } else {
                    let v = self.expr(&el, 2);
                    out.push(S::SetIndex(n, i, v));
                }
            }
            9 => {
                let c = self.mutables(|t| matches!(t, Ty::Seq(_)));
                if c.is_empty() {
                    return self.statement_show(out);
                }
                let (n, t) = self.s.pick(&c).clone();
                let el = match t {
                    Ty::Seq(e) => *e,
                    _ => unreachable!(),
                };
                let guard = bin(Op::Gt, E::Len(b(var(&n))), E::Int(self.s.int(0, 2)));
                let mut inner = vec![];
                if self.s.flip() {
                    let x = self.fresh("p");
                    inner.push(S::Pop(n, Some(x.clone())));
                    let keep = self.vars.len();
                    self.vars.push(Var { name: x.clone(), ty: el, mutable: false, counter: false });
                    self.depth += 1;
                    let more = self.stmts(1);
                    self.depth -= 1;
                    inner.extend(more);
                    self.vars.truncate(keep);
                } else {
                    inner.push(S::Pop(n, None));
                }
                out.push(S::If(vec![(guard, inner)], None));
            }
            10 => {
                let c = self.mutables(|t| matches!(t, Ty::Map(..) | Ty::Set(_)));
                if c.is_empty() {
                    if self.o.maps {
                        let t = if self.s.flip() { Ty::Map(Box::new(Ty::Int), Box::new(Ty::Int)) } else { Ty::Set(Box::new(Ty::Int)) };
                        self.declare(out, t, 1, true);
                    }
                    return;
                }
                let (n, t) = self.s.pick(&c).clone();
                let rm = self.s.chance(1, 4);
                match t {
                    Ty::Map(k, v) => {
                        let kv = if *k == Ty::Int {
                            if self.s.chance(3, 4) { self.small_int() } else { self.expr(&Ty::Int, 2) }
                        } else {
                            self.leaf(&k)
                        };
                        if rm {
                            out.push(S::Remove(n, kv));
                        } else {
                            let vv = self.expr(&v, 2);
                            out.push(S::MapSet(n, kv, vv));
                        }
                    }
                    Ty::Set(e) => {
                        let v = if *e == Ty::Int { self.small_int() } else { self.leaf(&e) };
                        out.push(if rm { S::Remove(n, v) } else { S::Add(n, v) });
                    }
                    _ => unreachable!(),
                }
            }
            11 => {
                let c = self.mutables(|t| matches!(t, Ty::Struct(_)));
                if c.is_empty() {
                    return self.statement_show(out);
                }
                let (n, t) = self.s.pick(&c).clone();
                if let Ty::Struct(i) = t {
                    let k = self.s.usize(0, self.p.structs[i].1.len() - 1);
                    let ft = self.p.structs[i].1[k].1.clone();
                    let v = self.expr(&ft, 2);
                    out.push(S::SetField(n, i, k, v));
                }
            }
            12 => {
                if self.p.enums.is_empty() {
                    return self.statement_show(out);
                }
                let en = self.s.usize(0, self.p.enums.len() - 1);
                let e = self.expr(&Ty::Enum(en), 1);
                let nv = self.p.enums[en].1.len();
                let full = self.s.flip();
                let take = if full { nv } else { self.s.usize(1, nv) };
                let mut arms = vec![];
                for k in 0..take {
                    let fs = self.p.enums[en].1[k].1.clone();
                    let keep = self.vars.len();
                    let mut names = vec![];
                    for (_, t) in fs {
                        let x = self.fresh("y");
                        names.push(x.clone());
                        self.vars.push(Var { name: x, ty: t, mutable: false, counter: false });
                    }
                    let bl = self.scoped(2);
                    self.vars.truncate(keep);
                    arms.push((k, names, bl));
                }
                let other = if take < nv { Some(self.scoped(1)) } else { None };
                let bound = self.fresh("v");
                out.push(S::Let(bound.clone(), false, e));
                self.vars.push(Var { name: bound.clone(), ty: Ty::Enum(en), mutable: false, counter: false });
                out.push(S::Inspect(var(&bound), en, arms, other));
            }
            13 => {
                let c = self.expr(&Ty::Bool, 2);
                out.push(S::If(vec![(c, vec![S::Break])], None));
            }
            14 => {
                let c = self.expr(&Ty::Bool, 2);
                let r = match self.in_fun.clone().unwrap() {
                    Some(t) => Some(self.expr(&t, 2)),
                    None => None,
                };
                out.push(S::If(vec![(c, vec![S::Return(r)])], None));
            }
            15 => {
                let mult = self.mult;
                let c: Vec<usize> =
                    (0..self.sigs.len()).filter(|&i| self.sigs[i].ret.is_none() && self.sigs[i].cost * mult < 2000 && mult < 20).collect();
                if c.is_empty() {
                    return self.statement_show(out);
                }
                let i = *self.s.pick(&c);
                let a = self.call_args(i, 2);
                out.push(S::Call(self.sigs[i].name.clone(), a));
            }
            16 => {
                let vs = self.of_ty(&Ty::Map(Box::new(Ty::Int), Box::new(Ty::Int)));
                if vs.is_empty() {
                    return self.statement_show(out);
                }
                let m = self.s.pick(&vs).clone();
                let (k, v) = (self.fresh("k"), self.fresh("w"));
                let vars = vec![
                    Var { name: k.clone(), ty: Ty::Int, mutable: false, counter: false },
                    Var { name: v.clone(), ty: Ty::Int, mutable: false, counter: false },
                ];
                let body = self.body_with(5, vars, 2);
                out.push(S::Pairs(k, v, var(&m), body));
            }
            _ => self.idiom(out),
        }
    }

    fn statement_show(&mut self, out: &mut Vec<S>) {
        if self.mult > 20 {
            self.declare(out, Ty::Int, 2, true);
            return;
        }
        let e = self.expr(&Ty::Int, 2);
        out.push(S::Show(e));
    }

    /// Whole-loop shapes that compilers recognise: fills, sums, sieves, swaps, prefix
    /// tables, windowed reads, counting maps, string building, nested index loops.
    fn idiom(&mut self, out: &mut Vec<S>) {
        let n = {
            let t = self.trip();
            t.max(3)
        };
        if self.mult * n > 3000 || self.depth > 2 {
            return self.statement_show(out);
        }
        let i = self.fresh("i");
        let xs = self.fresh("xs");
        let acc = self.fresh("acc");
        let lit = |k: i64| E::Int(k);
        let nn = n as i64;
        let one_based = self.s.flip();
        let (lo, hi) = if one_based { (1, nn) } else { (0, nn - 1) };
        let at = |name: &str| if one_based { var(name) } else { bin(Op::Add, var(name), lit(1)) };
        let cv = Var { name: i.clone(), ty: Ty::Int, mutable: false, counter: true };
        self.cost += self.mult * n * 4;
        // Fill.
        let float = self.o.floats && self.s.chance(1, 5);
        let el = if float { Ty::Float } else { Ty::Int };
        out.push(S::Let(xs.clone(), true, E::New(Ty::Seq(Box::new(el.clone())))));
        let keep = self.vars.len();
        self.vars.push(cv.clone());
        let m0 = self.mult;
        self.mult *= n;
        let fill = match (float, self.s.weighted(&[2, 2, 3, 1])) {
            (true, _) => {
                let f = self.float_lit();
                bin(Op::Mul, f, var(&i))
            }
            (_, 0) => lit(0),
            (_, 1) => {
                let k = self.s.int(1, 9);
                let c = self.s.int(-3, 9);
                bin(Op::Add, bin(Op::Mul, var(&i), lit(k)), lit(c))
            }
            (_, 2) => {
                let k = self.s.int(2, 90);
                let m = self.s.int(2, 50);
                bin(Op::Mod, bin(Op::Mul, var(&i), lit(k)), lit(m))
            }
            _ => self.expr(&Ty::Int, 2),
        };
        self.mult = m0;
        self.vars.truncate(keep);
        let body = vec![S::Push(xs.clone(), fill)];
        self.counted(out, &i, lo, hi, body);
        self.vars.push(Var { name: xs.clone(), ty: Ty::Seq(Box::new(el.clone())), mutable: true, counter: false });
        let j = self.fresh("j");
        let off = if self.risky() { self.s.int(-1, 2) } else { 0 };
        let item = |c: &str, ix: E| E::Index(b(var(c)), b(ix));
        let zero = if float { E::Float(0.0) } else { lit(0) };
        match self.s.weighted(&[4, 3, 3, 2, 2, 2, 2]) {
            0 => {
                // Reduction, possibly guarded.
                out.push(S::Let(acc.clone(), true, zero));
                self.vars.push(Var { name: acc.clone(), ty: el.clone(), mutable: true, counter: false });
                let x = item(&xs, at(&j));
                let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Add]);
                let upd = S::Set(acc.clone(), bin(o, var(&acc), x.clone()));
                let body = if self.s.flip() {
                    let c = if float { E::Float(3.0) } else { lit(self.s.int(0, 20)) };
                    let cmp = *self.s.pick(&[Op::Lt, Op::Gt, Op::Ge, Op::Ne]);
                    vec![S::If(vec![(bin(cmp, x, c), vec![upd])], None)]
                } else {
                    vec![upd]
                };
                self.counted(out, &j, lo, hi + off, body);
            }
            1 => {
                // In-place rewrite from a neighbour.
                let k = self.s.int(1, 2).min(nn - 1);
                let prev = item(&xs, bin(Op::Sub, at(&j), lit(k)));
                let cur = item(&xs, at(&j));
                let o = *self.s.pick(&[Op::Add, Op::Sub]);
                let mut v = bin(o, cur, prev);
                if !float {
                    v = bin(Op::Mod, v, lit(*self.s.pick(&[7, 1000, 1000003])));
                }
                let body = vec![S::SetIndex(xs.clone(), at(&j), v)];
                self.counted(out, &j, lo + k, hi + off, body);
            }
            2 => {
                // Swap/reverse or bubble pass.
                let t = self.fresh("t");
                let a = at(&j);
                let z = if self.s.flip() { bin(Op::Sub, lit(nn + 1), at(&j)) } else { bin(Op::Add, at(&j), lit(1)) };
                let sw = vec![
                    S::Let(t.clone(), false, item(&xs, a.clone())),
                    S::SetIndex(xs.clone(), a.clone(), item(&xs, z.clone())),
                    S::SetIndex(xs.clone(), z.clone(), var(&t)),
                ];
                let body = if self.s.flip() { vec![S::If(vec![(bin(Op::Gt, item(&xs, a), item(&xs, z)), sw)], None)] } else { sw };
                self.counted(out, &j, lo, hi - 1 + off, body);
            }
            3 if self.o.maps && !float => {
                // Counting map.
                let m = self.fresh("m");
                out.push(S::Let(m.clone(), true, E::New(Ty::Map(Box::new(Ty::Int), Box::new(Ty::Int)))));
                self.vars.push(Var { name: m.clone(), ty: Ty::Map(Box::new(Ty::Int), Box::new(Ty::Int)), mutable: true, counter: false });
                let q = self.fresh("q");
                let md = self.s.int(2, 12);
                let body = vec![
                    S::Let(q.clone(), false, bin(Op::Mod, item(&xs, at(&j)), lit(md))),
                    S::If(
                        vec![(
                            E::Contains(b(var(&m)), b(var(&q))),
                            vec![S::MapSet(m.clone(), var(&q), bin(Op::Add, item(&m, var(&q)), lit(1)))],
                        )],
                        Some(vec![S::MapSet(m.clone(), var(&q), lit(1))]),
                    ),
                ];
                self.counted(out, &j, lo, hi, body);
            }
            4 if self.o.text => {
                // String building.
                out.push(S::Let(acc.clone(), true, E::Text("".into())));
                self.vars.push(Var { name: acc.clone(), ty: Ty::Text, mutable: true, counter: false });
                let piece = match self.s.below(3) {
                    0 => E::Text("ab".into()),
                    1 => bin(Op::Mod, var(&j), lit(10)),
                    _ => item(&xs, at(&j)),
                };
                let body = vec![S::Set(acc.clone(), bin(Op::Add, var(&acc), piece))];
                self.counted(out, &j, lo, hi, body);
            }
            5 if !float && self.mult == 1 && n < 60 => {
                // Nested index loops over one table.
                let k = self.fresh("k");
                out.push(S::Let(acc.clone(), true, lit(0)));
                self.vars.push(Var { name: acc.clone(), ty: Ty::Int, mutable: true, counter: false });
                let x = item(&xs, at(&j));
                let y = item(&xs, at(&k));
                let o = *self.s.pick(&[Op::Mul, Op::Add, Op::Sub]);
                let upd = S::Set(acc.clone(), bin(Op::Mod, bin(Op::Add, var(&acc), bin(o, x.clone(), y.clone())), lit(1000003)));
                let upd = if self.s.flip() { S::If(vec![(bin(Op::Lt, x, y), vec![upd, S::Break])], None) } else { upd };
                let mut inner = vec![];
                self.counted(&mut inner, &k, lo, hi, vec![upd]);
                self.counted(out, &j, lo, hi, inner);
            }
            _ => {
                // Sieve-like strided marking with an inner while.
                if float {
                    return;
                }
                let step = self.s.int(1, 5);
                let mut inner = vec![];
                let k = self.fresh("k");
                inner.push(S::Let(k.clone(), true, bin(Op::Add, var(&j), lit(step))));
                let v = self.s.int(-2, 3);
                inner.push(S::While(
                    bin(Op::Le, var(&k), lit(hi)),
                    vec![
                        S::SetIndex(xs.clone(), at(&k), bin(Op::Add, item(&xs, at(&k)), lit(v))),
                        S::Set(k.clone(), bin(Op::Add, var(&k), bin(Op::Add, var(&j), lit(2)))),
                    ],
                ));
                let hi2 = hi.min(lo + 20);
                self.counted(out, &j, lo, hi2, inner);
            }
        }
    }

    /// A counted loop in one of its surface forms.
    fn counted(&mut self, out: &mut Vec<S>, i: &str, lo: i64, hi: i64, mut body: Vec<S>) {
        match self.s.below(3) {
            0 => out.push(S::Range(i.to_string(), E::Int(lo), E::Int(hi), body)),
            k => {
                out.push(S::Let(i.to_string(), true, E::Int(lo)));
                body.push(S::Set(i.to_string(), bin(Op::Add, var(i), E::Int(1))));
                let c = if k == 1 { bin(Op::Le, var(i), E::Int(hi)) } else { bin(Op::Lt, var(i), E::Int(hi + 1)) };
                out.push(S::While(c, body));
            }
        }
    }

    fn function(&mut self) {
        let name = self.fresh("fn");
        let keep_vars = std::mem::take(&mut self.vars);
        let keep_mult = self.mult;
        self.mult = 1;
        self.cost = 0;
        let ret = if self.s.chance(1, 6) { None } else { Some(if self.s.chance(1, 2) { Ty::Int } else { self.ty() }) };
        let np = self.s.usize(1, 3);
        let mut params = vec![];
        for _ in 0..np {
            let t = if self.s.flip() { Ty::Int } else { self.ty() };
            params.push((self.fresh("a"), t));
        }
        // Parameters may be reassigned inside the body.
        for (n, t) in &params {
            self.vars.push(Var { name: n.clone(), ty: t.clone(), mutable: true, counter: false });
        }
        self.in_fun = Some(ret.clone());
        self.fuel = 40;
        let hot = self.o.hot;
        self.o.hot = hot && self.s.chance(1, 3);
        let k = self.s.usize(0, 3);
        let mut body = if k == 0 { vec![] } else { self.stmts(k) };
        self.o.hot = hot;
        self.fuel = self.fuel.max(12);
        if let Some(t) = &ret {
            let e = self.expr(t, 3);
            body.push(S::Return(Some(e)));
        } else if body.is_empty() {
            let e = self.leaf(&Ty::Int);
            body.push(S::Show(e));
        }
        self.in_fun = None;
        let cost = self.cost + 3;
        self.sigs.push(Sig { name: name.clone(), params: params.iter().map(|p| p.1.clone()).collect(), ret: ret.clone(), rec: false, cost });
        self.p.funs.push(Fun { name, params, ret, body, rec: false, cost });
        self.vars = keep_vars;
        self.mult = keep_mult;
        self.cost = 0;
    }

    /// Self-recursive function, counting its first argument down.
    fn recursive(&mut self) {
        let name = self.fresh("fn");
        let keep_vars = std::mem::take(&mut self.vars);
        let keep_mult = self.mult;
        self.mult = 1;
        self.cost = 0;
        let ret = match self.s.weighted(&[6, 1, 1]) {
            1 if self.o.text => Ty::Text,
            2 if self.o.floats => Ty::Float,
            _ => Ty::Int,
        };
        let n = self.fresh("n");
        let a = self.fresh("a");
        let params = vec![(n.clone(), Ty::Int), (a.clone(), Ty::Int)];
        for (v, t) in &params {
            self.vars.push(Var { name: v.clone(), ty: t.clone(), mutable: false, counter: false });
        }
        self.fuel = 20;
        let base = self.expr(&ret, 2);
        let step = self.expr(&Ty::Int, 2);
        let step = bin(Op::Mod, step, E::Int(10007));
        let ops: &[Op] = match ret {
            Ty::Text => &[Op::Add, Op::Concat],
            Ty::Float => &[Op::Add, Op::Mul],
            _ => &[Op::Add, Op::Sub, Op::Mul],
        };
        let dec = |k: i64| bin(Op::Sub, var(&n), E::Int(k));
        let mut cost = 12u64;
        let mut body = vec![];
        // Work before the test: may print, loop and return early.
        let pre = if self.s.chance(1, 3) {
            self.in_fun = Some(Some(ret.clone()));
            let hot = std::mem::replace(&mut self.o.hot, false);
            let k = self.s.usize(1, 2);
            let b = self.scoped(k);
            self.o.hot = hot;
            self.in_fun = None;
            self.fuel = self.fuel.max(12);
            b
        } else {
            vec![]
        };
        let mut tail = vec![];
        match self.s.below(5) {
            k if k == 0 || k == 1 && !self.o.pending => tail.push(S::Return(Some(E::Call(name.clone(), vec![dec(1), step])))),
            1 if self.o.pending => {
                let o = *self.s.pick(ops);
                let other = self.expr(&ret, 1);
                let r = E::Call(name.clone(), vec![dec(1), step]);
                let e = if self.s.flip() { bin(o, other, r) } else { bin(o, r, other) };
                tail.push(S::Return(Some(e)));
            }
            2 => {
                cost = 300;
                let x = E::Call(name.clone(), vec![dec(1), step.clone()]);
                let y = E::Call(name.clone(), vec![dec(2), var(&a)]);
                tail.push(S::Return(Some(bin(Op::Add, x, y))));
            }
            3 => {
                // Branching tail position.
                let c = self.expr(&Ty::Bool, 2);
                let x = E::Call(name.clone(), vec![dec(1), step]);
                tail.push(S::If(vec![(c, vec![S::Return(Some(x))])], None));
                let other = self.expr(&ret, 1);
                let y = E::Call(name.clone(), vec![dec(2), var(&a)]);
                let y = if self.o.pending { bin(Op::Add, other, y) } else { y };
                tail.push(S::Return(Some(y)));
            }
            _ => {
                // The recursive result goes through a variable.
                let t = self.fresh("t");
                tail.push(S::Let(t.clone(), false, E::Call(name.clone(), vec![dec(2), step])));
                let o = *self.s.pick(ops);
                let other = if ret == Ty::Int { bin(Op::Mul, var(&a), var(&n)) } else { self.leaf(&ret) };
                tail.push(S::Return(Some(bin(o, var(&t), other))));
            }
        }
        let ret_base = S::Return(Some(base));
        match self.s.below(4) {
            0 => {
                let c = bin(Op::Gt, var(&n), E::Int(0));
                body.push(S::If(vec![(c, pre.into_iter().chain(tail).collect())], None));
                body.push(ret_base);
            }
            1 => {
                let c = bin(Op::Le, var(&n), E::Int(0));
                body.extend(pre);
                body.push(S::If(vec![(c, vec![ret_base])], Some(tail)));
            }
            k => {
                let c = if k == 2 { bin(Op::Le, var(&n), E::Int(0)) } else { bin(Op::Lt, var(&n), E::Int(1)) };
                body.extend(pre);
                body.push(S::If(vec![(c, vec![ret_base])], None));
                body.extend(tail);
            }
        }
        let cost = cost + self.cost * 10;
        self.sigs.push(Sig { name: name.clone(), params: vec![Ty::Int, Ty::Int], ret: Some(ret.clone()), rec: true, cost });
        self.p.funs.push(Fun { name, params, ret: Some(ret), body, rec: true, cost });
        self.vars = keep_vars;
        self.mult = keep_mult;
        self.cost = 0;
    }
}

pub fn generate(s: &mut Src, o: Opts) -> Prog {
    let mut g = Gen {
        s,
        o,
        p: Prog::default(),
        sigs: vec![],
        vars: vec![],
        next: 0,
        mult: 1,
        cost: 0,
        fuel: 0,
        in_fun: None,
        loops: 0,
        depth: 0,
    };
    if o.structs {
        let n = g.s.weighted(&[3, 3, 1]);
        for k in 0..n {
            let nf = g.s.usize(1, 3);
            let mut fs = vec![];
            for f in 0..nf {
                let t = g.scalar();
                fs.push((["fx", "gy", "hz"][f].to_string(), t));
            }
            g.p.structs.push((["Pax", "Quo"][k].to_string(), fs));
        }
        let n = g.s.weighted(&[4, 2]);
        for _ in 0..n {
            let nv = g.s.usize(2, 3);
            let mut vs = vec![];
            for v in 0..nv {
                let nf = g.s.usize(0, 2);
                let mut fs = vec![];
                for f in 0..nf {
                    let t = g.scalar();
                    fs.push((["ux", "wy"][f].to_string(), t));
                }
                vs.push((["Zim", "Zob", "Zug"][v].to_string(), fs));
            }
            g.p.enums.push(("Kind".to_string(), vs));
        }
    }
    let nf = g.s.weighted(&[2, 3, 2, 1]);
    for _ in 0..nf {
        if g.s.chance(1, 3) {
            g.recursive();
        } else {
            g.function();
        }
    }
    g.fuel = 110;
    let n = g.s.usize(3, 12);
    let mut main = g.stmts(n);
    // Final state is observable.
    for v in g.vars.clone() {
        if v.ty != Ty::Fun && g.of_ty(&v.ty).contains(&v.name) {
            main.push(S::Show(var(&v.name)));
        }
    }
    g.p.main = main;
    g.p
}

/// Does the program contain a loop whose body would run `n` times or more?
pub fn has_loop(p: &Prog) -> bool {
    fn any(b: &[S]) -> bool {
        b.iter().any(|s| match s {
            S::While(..) | S::Range(..) | S::Each(..) | S::Pairs(..) => true,
            S::If(a, o) => a.iter().any(|(_, b)| any(b)) || o.as_ref().map(|b| any(b)).unwrap_or(false),
            S::Inspect(_, _, a, o) => a.iter().any(|(_, _, b)| any(b)) || o.as_ref().map(|b| any(b)).unwrap_or(false),
            _ => false,
        })
    }
    any(&p.main) || p.funs.iter().any(|f| any(&f.body))
}
