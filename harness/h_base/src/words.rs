//! C16: fixed-width words and lane vectors against per-lane integer arithmetic, in the portable build
//! and in a build with the vector instruction sets enabled.
use logicaffeine_base::word::*;
use logicaffeine_base::sha_ops;
use std::sync::OnceLock;
use vcore::*;

#[path = "../../h_simd/src/lane_ops.rs"]
mod lane_ops;
use lane_ops::NAMES;

type Apply = unsafe extern "C" fn(u32, u32, *const u8, *const u8, u32, u32, u32, *mut u8) -> i32;
static LIB: OnceLock<Option<(usize, u32)>> = OnceLock::new();

/// The vector build, when this machine can run it.
fn simd() -> Option<Apply> {
    let v = LIB.get_or_init(|| {
        if !(std::is_x86_feature_detected!("avx2") && std::is_x86_feature_detected!("sha") && std::is_x86_feature_detected!("ssse3")) {
            return None;
        }
        let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
        let path = std::ffi::CString::new(format!("{root}/target/simd/debug/libh_simd.so")).unwrap();
        unsafe {
            let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW);
            if h.is_null() {
                eprintln!("ERROR: cannot load the vector build");
                std::process::exit(3);
            }
            let f = libc::dlsym(h, b"lane_apply\0".as_ptr() as *const _);
            let g: extern "C" fn() -> u32 = std::mem::transmute(libc::dlsym(h, b"lane_features\0".as_ptr() as *const _));
            Some((f as usize, g()))
        }
    });
    v.map(|(f, feats)| {
        assert_eq!(feats, 7, "the vector build does not have the vector paths");
        unsafe { std::mem::transmute::<usize, Apply>(f) }
    })
}

fn lanes(x: &[u8; 32], w: usize, n: usize) -> Vec<u64> {
    (0..n).map(|i| {
        let mut b = [0u8; 8];
        b[..w].copy_from_slice(&x[i * w..(i + 1) * w]);
        u64::from_le_bytes(b)
    }).collect()
}
fn image(v: &[u64], w: usize) -> [u8; 32] {
    let mut o = [0u8; 32];
    for (i, x) in v.iter().enumerate() {
        o[i * w..(i + 1) * w].copy_from_slice(&x.to_le_bytes()[..w]);
    }
    o
}

fn rot(x: u64, n: u32, bits: u32) -> u64 {
    // bit i moves to bit i+n
    (0..bits).filter(|i| x >> i & 1 == 1).map(|i| 1u64 << ((i as u64 + n as u64) % bits as u64)).sum()
}

/// The meaning of each operation, lane by lane.
fn model(op: usize, a: &[u8; 32], b: &[u8; 32], q: u32, qinv: u32, n: u32) -> [u8; 32] {
    let (cls, opn) = NAMES[op].split_once('.').unwrap();
    let (w, k) = match cls { "w32" => (4, 8), "q32" => (4, 4), "b8" => (1, 16), "w64" => (8, 4), _ => (2, 16) };
    let bits = 8 * w as u32;
    let m: u128 = 1u128 << bits;
    let (x, y) = (lanes(a, w, k), lanes(b, w, k));
    let h = n as usize;
    let zip = |f: &dyn Fn(u64, u64) -> u64| -> Vec<u64> { x.iter().zip(&y).map(|(p, q)| f(*p, *q)).collect() };
    let sg = |v: u64| -> i128 { if (v as u128) >= m / 2 { v as i128 - m as i128 } else { v as i128 } };
    let md = |v: i128| -> u64 { v.rem_euclid(m as i128) as u64 };
    let s16 = |v: u64| -> i64 { v as u16 as i16 as i64 };
    let r: Vec<u64> = match opn {
        "xor" => zip(&|p, q| p ^ q),
        "and" => zip(&|p, q| p & q),
        "or" => zip(&|p, q| p | q),
        "not" => x.iter().map(|p| (m - 1 - *p as u128) as u64).collect(),
        "andnot" => zip(&|p, q| (m - 1 - p as u128) as u64 & q),
        "add" => zip(&|p, q| ((p as u128 + q as u128) % m) as u64),
        "sub" => zip(&|p, q| md(p as i128 - q as i128)),
        "mullo" => zip(&|p, q| ((p as u128 * q as u128) % m) as u64),
        "mulhi" => zip(&|p, q| md((sg(p) * sg(q)).div_euclid(m as i128))),
        "mul32wide" => zip(&|p, q| (p & 0xffff_ffff) * (q & 0xffff_ffff)),
        "rotl" => x.iter().map(|p| rot(*p, n % bits, bits)).collect(),
        "montmul" => zip(&|p, s| {
            let prod = sg(p) * sg(s);
            let t = sg(md(prod * (qinv as i32 as i128)));
            md((prod - t * (q as i32 as i128)).div_euclid(m as i128))
        }),
        "bcast_lo" => (0..k).map(|i| x[i - i % (2 * h) + i % h]).collect(),
        "bcast_hi" => (0..k).map(|i| x[i - i % (2 * h) + h + i % h]).collect(),
        "blend" => (0..k).map(|i| if i % (2 * h) < h { x[i] } else { y[i] }).collect(),
        "shuffle" => y.iter().map(|i| if *i >= 128 { 0 } else { x[(*i % 16) as usize] }).collect(),
        "shr" => x.iter().map(|p| p / 2u64.pow(n)).collect(),
        "ilv_lo" => (0..16).map(|i| if i % 2 == 0 { x[i / 2] } else { y[i / 2] }).collect(),
        "ilv_hi" => (0..16).map(|i| if i % 2 == 0 { x[8 + i / 2] } else { y[8 + i / 2] }).collect(),
        "maddubs" => {
            let v: Vec<u64> = (0..8).map(|i| {
                let t = |j: usize| x[j] as i64 * (y[j] as u8 as i8 as i64);
                (t(2 * i) + t(2 * i + 1)).clamp(-32768, 32767) as u64 & 0xffff
            }).collect();
            return image(&v, 2);
        }
        "packus" => {
            let (p, q) = (lanes(a, 2, 8), lanes(b, 2, 8));
            p.iter().chain(q.iter()).map(|v| s16(*v).clamp(0, 255) as u64).collect()
        }
        "hsum" => {
            let s = x.iter().fold(0u128, |s, v| (s + *v as u128) % m);
            return image(&[s as u64], 8);
        }
        _ => {
            // The SHA-1 step operations, by the instruction-set definition; lane 3 holds the most
            // significant dword, which is where the first word lives.
            let (p, q): (Vec<u32>, Vec<u32>) = (x.iter().rev().map(|v| *v as u32).collect(), y.iter().rev().map(|v| *v as u32).collect());
            let o: [u32; 4] = match opn {
                "sha1msg1" => [p[2] ^ p[0], p[3] ^ p[1], q[0] ^ p[2], q[1] ^ p[3]],
                "sha1msg2" => {
                    let rl = |v: u32| v << 1 | v >> 31;
                    let w16 = rl(p[0] ^ q[1]);
                    [w16, rl(p[1] ^ q[2]), rl(p[2] ^ q[3]), rl(p[3] ^ w16)]
                }
                "sha1nexte" => [(p[0] << 30 | p[0] >> 2).wrapping_add(q[0]), q[1], q[2], q[3]],
                _ => {
                    let k = [0x5A827999u32, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6][n as usize % 4];
                    let (mut av, mut bv, mut cv, mut dv, mut ev) = (p[0], p[1], p[2], p[3], 0u32);
                    for i in 0..4 {
                        let f = match n % 4 { 0 => (bv & cv) ^ (!bv & dv), 2 => (bv & cv) ^ (bv & dv) ^ (cv & dv), _ => bv ^ cv ^ dv };
                        let t = (av << 5 | av >> 27).wrapping_add(f).wrapping_add(ev).wrapping_add(k).wrapping_add(q[i]);
                        ev = dv;
                        dv = cv;
                        cv = bv << 30 | bv >> 2;
                        bv = av;
                        av = t;
                    }
                    [av, bv, cv, dv]
                }
            };
            let v: Vec<u64> = o.iter().rev().map(|v| *v as u64).collect();
            return image(&v, 4);
        }
    };
    image(&r, w)
}

fn register(s: &mut Src) -> [u8; 32] {
    let mut v = [0u8; 32];
    match s.below(4) {
        0 => v.iter_mut().for_each(|x| *x = s.below(256) as u8),
        1 => v.iter_mut().for_each(|x| *x = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xfe])),
        2 => {
            // one edge value per 64-bit chunk
            for c in v.chunks_mut(8) {
                c.copy_from_slice(&s.u64_edge().to_le_bytes());
            }
        }
        _ => {
            for c in v.chunks_mut(4) {
                c.copy_from_slice(&(*s.pick(&[0u32, 1, 2, u32::MAX, 1 << 31, (1 << 31) - 1, 0xffff, 0x10000, 0x8000, 0x7fff, 8380417, 8380416])).to_le_bytes());
            }
        }
    }
    v
}

fn lane_vectors(s: &mut Src, c: &mut Ctx) -> R {
    let op = s.usize(0, NAMES.len() - 1);
    let (cls, opn) = NAMES[op].split_once('.').unwrap();
    let (a, b) = (register(s), register(s));
    let n = match (cls, opn) {
        (_, "rotl") => s.below(200) as u32,
        ("w32", "bcast_lo" | "bcast_hi" | "blend") => *s.pick(&[4u32, 2, 1]),
        ("w16", "bcast_lo" | "bcast_hi" | "blend") => *s.pick(&[8u32, 4, 2]),
        (_, "shr") => s.below(8) as u32,
        _ => s.below(4) as u32,
    };
    // a reduction modulus and its inverse
    let q = if s.flip() { 8380417u32 } else { (s.below(1 << 30) as u32) | 1 };
    let mut qinv = q;
    for _ in 0..5 {
        qinv = qinv.wrapping_mul(2u32.wrapping_sub(q.wrapping_mul(qinv)));
    }
    c.show(format!("{} n={n} {:02x?} {:02x?}", NAMES[op], &a[..16], &b[..16]));
    c.class(NAMES[op]);
    c.nontrivial(a != [0; 32] && a != b);
    let want = model(op, &a, &b, q, qinv, n);
    for via in 0..3u32 {
        let got = lane_ops::apply(op as u32, via, a, b, q, qinv, n);
        match got {
            Some(g) => ensure!(g == want, "{} (form {via}) of {a:02x?} {b:02x?} n={n} q={q} gives {g:02x?}, should be {want:02x?}", NAMES[op]),
            None => ensure!(via == 1, "{} undefined", NAMES[op]),
        }
        if let Some(f) = simd() {
            let mut o = [0u8; 32];
            let rc = unsafe { f(op as u32, via, a.as_ptr(), b.as_ptr(), q, qinv, n, o.as_mut_ptr()) };
            ensure!(rc == got.is_none() as i32, "vector build of {} returned {rc}", NAMES[op]);
            if rc == 0 {
                ensure!(o == want, "vector build of {} (form {via}) of {a:02x?} {b:02x?} n={n} q={q} gives {o:02x?}, should be {want:02x?}", NAMES[op]);
            }

        }
    }
    // the software definitions behind the hash instructions
    if cls == "q32" {
        let r = |x: &[u8; 32]| -> [u32; 4] { let v = lanes(x, 4, 4); [v[0] as u32, v[1] as u32, v[2] as u32, v[3] as u32] };
        let g = match opn {
            "sha1rnds4" => Some(sha_ops::sha1rnds4(r(&a), r(&b), n)),
            "sha1msg1" => Some(sha_ops::sha1msg1(r(&a), r(&b))),
            "sha1msg2" => Some(sha_ops::sha1msg2(r(&a), r(&b))),
            "sha1nexte" => Some(sha_ops::sha1nexte(r(&a), r(&b))),
            _ => None,
        };
        if let Some(g) = g {
            ensure!(image(&g.map(|v| v as u64), 4) == want, "software {opn} of {a:02x?} {b:02x?} gives {g:08x?}");
        }
    }
    Ok(())
}

macro_rules! word_prop {
    ($name:ident, $t:ident, $p:ty) => {
        fn $name(s: &mut Src) -> R {
            let (x, y) = (s.u64_edge() as $p, s.u64_edge() as $p);
            let (a, b) = ($t(x), $t(y));
            let bits = <$p>::BITS;
            let m: u128 = 1u128 << bits;
            let (xu, yu) = (x as u128, y as u128);
            let n = match s.below(3) { 0 => s.below(bits as u64) as u32, 1 => s.below(300) as u32, _ => *s.pick(&[bits, bits - 1, bits + 1, 2 * bits, u32::MAX]) };
            let sh = n % bits;
            let ck = |got: $p, want: u128, what: &str| -> R {
                ensure!(got as u128 == want % m, "{} {what} {x} {y} n={n}: {got}, should be {}", stringify!($t), want % m);
                Ok(())
            };
            ck(a.add(b).0, xu + yu, "add")?;
            ck((a + b).0, xu + yu, "+")?;
            ck(a.sub(b).0, xu + m - yu, "sub")?;
            ck((a - b).0, xu + m - yu, "-")?;
            // the low bits of the product, from half-width pieces
            let prod = if bits == 64 { (xu * yu) % m } else { xu * yu };
            ck(a.mul(b).0, prod, "mul")?;
            ck((a * b).0, prod, "*")?;
            let bit = |f: &dyn Fn(bool, bool) -> bool| -> u128 { (0..bits).filter(|i| f(x >> i & 1 == 1, y >> i & 1 == 1)).map(|i| 1u128 << i).sum() };
            ck(a.bitand(b).0, bit(&|p, q| p && q), "and")?;
            ck((a & b).0, bit(&|p, q| p && q), "&")?;
            ck(a.bitor(b).0, bit(&|p, q| p || q), "or")?;
            ck((a | b).0, bit(&|p, q| p || q), "|")?;
            ck(a.bitxor(b).0, bit(&|p, q| p != q), "xor")?;
            ck((a ^ b).0, bit(&|p, q| p != q), "^")?;
            ck(a.not().0, m - 1 - xu, "not")?;
            ck((!a).0, m - 1 - xu, "!")?;
            ck(a.shl(n).0, (xu << sh) % m, "shl")?;
            ck((a << n).0, (xu << sh) % m, "<<")?;
            ck(a.shr(n).0, xu >> sh, "shr")?;
            ck((a >> n).0, xu >> sh, ">>")?;
            ck(a.rotl(n).0, rot(x as u64, sh, bits) as u128, "rotl")?;
            ck(a.rotr(n).0, rot(x as u64, (bits - sh) % bits, bits) as u128, "rotr")?;
            if y != 0 {
                let (d, r) = ((a / b).0 as u128, (a % b).0 as u128);
                ensure!(d * yu + r == xu && r < yu, "{x}/{y}: quotient {d} remainder {r}");
            }
            ensure_eq!(a.to_string(), xu.to_string(), "text");
            ensure_eq!(a < b, xu < yu, "order");
            Ok(())
        }
    };
}
word_prop!(p8, Word8, u8);
word_prop!(p16, Word16, u16);
word_prop!(p32, Word32, u32);
word_prop!(p64, Word64, u64);

fn words(s: &mut Src, c: &mut Ctx) -> R {
    c.nontrivial(true);
    let k = s.below(5);
    let salt = s.u64();
    c.show(format!("words of class {k} salt {salt:x}"));
    match k {
        0 => p8(s),
        1 => p16(s),
        2 => p32(s),
        3 => p64(s),
        _ => {
            // the width-erased carrier: same width computes, mixed width is refused
            let mk = |s: &mut Src| { let w = *s.pick(&[32u32, 64]); let v = s.u64_edge(); (w, v, WordVal::from_u64(w, v).unwrap()) };
            let (w1, v1, a) = mk(s);
            let (w2, v2, b) = mk(s);
            ensure!(WordVal::from_u64(*s.pick(&[0u32, 8, 16, 33, 63, 128]), v1).is_none(), "odd width accepted");
            let n = s.below(200) as u32;
            let m: u128 = 1u128 << w1;
            let (x, y) = (v1 as u128 % m, v2 as u128 % (1u128 << w2));
            ensure_eq!((a.width(), a.to_u64() as u128), (w1, x), "width and value");
            let ck = |got: Option<WordVal>, want: u128, what: &str| -> R {
                if w1 != w2 {
                    ensure!(got.is_none(), "{what} of widths {w1} and {w2} accepted");
                } else {
                    let g = match got { Some(g) => g, None => return fail(format!("{what} refused")) };
                    ensure_eq!((g.width(), g.to_u64() as u128), (w1, want % m), "{what} {x} {y}");
                }
                Ok(())
            };
            ck(a.add(b), x + y, "add")?;
            ck(a.sub(b), (x + m).wrapping_sub(y), "sub")?;
            ck(a.mul(b), x.wrapping_mul(y), "mul")?;
            ck(a.bitand(b), x & y, "and")?;
            ck(a.bitor(b), x | y, "or")?;
            ck(a.bitxor(b), x ^ y, "xor")?;
            let one = |got: WordVal, want: u128, what: &str| -> R { ensure_eq!((got.width(), got.to_u64() as u128), (w1, want % m), "{what} {x} by {n}"); Ok(()) };
            one(a.not(), m - 1 - x, "not")?;
            one(a.shl(n), x << (n % w1), "shl")?;
            one(a.shr(n), x >> (n % w1), "shr")?;
            one(a.rotl(n), rot(x as u64, n % w1, w1) as u128, "rotl")?;
            one(a.rotr(n), rot(x as u64, (w1 - n % w1) % w1, w1) as u128, "rotr")?;
            ensure_eq!(a.to_string(), x.to_string(), "text");
            Ok(())
        }
    }
}

/// Chains of lane operations: the vector and portable builds stay in step through a whole program.
fn chains(s: &mut Src, c: &mut Ctx) -> R {
    let cls = *s.pick(&["w32", "q32", "b8", "w64", "w16"]);
    let ops: Vec<usize> = (0..NAMES.len()).filter(|i| NAMES[*i].starts_with(cls)).collect();
    let mut regs = [register(s), register(s), register(s)];
    let mut want = regs;
    let n = s.usize(2, 24);
    let mut log = String::new();
    for _ in 0..n {
        let op = *s.pick(&ops);
        let (i, j, k) = (s.usize(0, 2), s.usize(0, 2), s.usize(0, 2));
        let opn = NAMES[op].split_once('.').unwrap().1;
        let nn = match (cls, opn) {
            ("w32", "bcast_lo" | "bcast_hi" | "blend") => *s.pick(&[4u32, 2, 1]),
            (_, "bcast_lo" | "bcast_hi" | "blend") => *s.pick(&[8u32, 4, 2]),
            (_, "rotl") => s.below(70) as u32,
            (_, "shr") => s.below(8) as u32,
            _ => s.below(4) as u32,
        };
        log += &format!("{opn}.{i}{j}{k} ");
        want[k] = model(op, &want[i], &want[j], 8380417, 58728449, nn);
        let via = s.below(3) as u32;
        let a = (regs[i], regs[j]);
        regs[k] = lane_ops::apply(op as u32, via, a.0, a.1, 8380417, 58728449, nn).or_else(|| lane_ops::apply(op as u32, 0, a.0, a.1, 8380417, 58728449, nn)).unwrap();
        ensure!(regs[k] == want[k], "{log}: {:02x?} should be {:02x?}", regs[k], want[k]);
    }
    c.show(format!("{cls}: {log}"));
    c.nontrivial(n > 3);
    Ok(())
}

pub fn c16() -> Suite {
    let mut s = Suite::new("C16", "lane vectors: a non-zero register and two different operands; words: every case; chains: more than three operations");
    s.assume("the vector build is compared only on machines with AVX2, SSSE3 and the SHA extension");
    s.assume("within-register broadcasts and blends are checked at the strides they are defined for");
    s.prop("words", 200_000, 4_000_000, words);
    s.prop("lane_vectors", 400_000, 8_000_000, lane_vectors);
    s.prop("chains", 20_000, 400_000, chains);
    s
}
