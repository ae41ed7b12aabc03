//! Every lane operation by number, on raw little-endian register images.
use logicaffeine_base::word::*;

pub const NAMES: &[&str] = &[
    "w32.xor", "w32.and", "w32.or", "w32.not", "w32.add", "w32.sub", "w32.rotl", "w32.montmul", "w32.bcast_lo", "w32.bcast_hi", "w32.blend",
    "q32.sha1rnds4", "q32.sha1msg1", "q32.sha1msg2", "q32.sha1nexte", "q32.add", "q32.xor",
    "b8.shuffle", "b8.and", "b8.shr", "b8.ilv_lo", "b8.ilv_hi", "b8.add", "b8.maddubs", "b8.packus",
    "w64.add", "w64.mul32wide", "w64.xor", "w64.and", "w64.andnot", "w64.rotl", "w64.hsum",
    "w16.add", "w16.sub", "w16.mullo", "w16.mulhi", "w16.bcast_lo", "w16.bcast_hi", "w16.blend",
];

fn w32(a: [u8; 32]) -> Lanes8Word32 {
    let v: Vec<Word32> = a.chunks(4).map(|c| Word32(u32::from_le_bytes(c.try_into().unwrap()))).collect();
    Lanes8Word32::from_words(&v)
}
fn q32(a: [u8; 32]) -> Lanes4Word32 {
    let v: Vec<Word32> = a.chunks(4).map(|c| Word32(u32::from_le_bytes(c.try_into().unwrap()))).collect();
    Lanes4Word32::from_words(&v)
}
fn b8(a: [u8; 32]) -> Lanes16Word8 {
    Lanes16Word8::from_bytes(&a)
}
fn w64(a: [u8; 32]) -> Lanes4Word64 {
    let v: Vec<Word64> = a.chunks(8).map(|c| Word64(u64::from_le_bytes(c.try_into().unwrap()))).collect();
    Lanes4Word64::from_words(&v)
}
fn w16(a: [u8; 32]) -> Lanes16Word16 {
    let v: Vec<Word16> = a.chunks(2).map(|c| Word16(u16::from_le_bytes(c.try_into().unwrap()))).collect();
    Lanes16Word16::from_words(&v)
}
fn image(v: LanesVal) -> [u8; 32] {
    let mut o = [0u8; 32];
    let w = v.elem_bits() as usize / 8;
    for i in 0..v.lanes() {
        o[i * w..(i + 1) * w].copy_from_slice(&v.lane(i).to_le_bytes()[..w]);
    }
    o
}

/// `via` 0: the typed operation, 1: the type-erased carrier, 2: the operator where there is one.
pub fn apply(op: u32, via: u32, a: [u8; 32], b: [u8; 32], q: u32, qinv: u32, n: u32) -> Option<[u8; 32]> {
    use LanesVal::*;
    let name = NAMES[op as usize];
    let (cls, opn) = name.split_once('.').unwrap();
    let h = n as usize;
    if via == 1 {
        let mk = |x: [u8; 32]| match cls {
            "w32" => L8W32(w32(x)),
            "q32" => L4W32(q32(x)),
            "b8" => L16W8(b8(x)),
            "w64" => L4W64(w64(x)),
            _ => L16W16(w16(x)),
        };
        let (x, y) = (mk(a), mk(b));
        let r = match (cls, opn) {
            (_, "shuffle") => x.shuffle(y)?,
            ("b8", "and") => x.byte_and(y)?,
            (_, "xor") => x.bitxor(y)?,
            (_, "and") => x.bitand(y)?,
            (_, "or") => x.bitor(y)?,
            (_, "not") => x.lane_not()?,
            ("b8", "add") => x.byte_add(y)?,
            (_, "add") => x.add(y)?,
            (_, "sub") => x.sub(y)?,
            (_, "rotl") => x.rotl(n)?,
            (_, "montmul") => x.montmul32(y, L8W32(Lanes8Word32::splat(q)), L8W32(Lanes8Word32::splat(qinv)))?,
            (_, "bcast_lo") => x.ntt_bcast_lo(h)?,
            (_, "bcast_hi") => x.ntt_bcast_hi(h)?,
            (_, "blend") => x.ntt_blend(y, h)?,
            (_, "sha1rnds4") => x.sha1rnds4(y, n)?,
            (_, "sha1msg1") => x.sha1msg1(y)?,
            (_, "sha1msg2") => x.sha1msg2(y)?,
            (_, "sha1nexte") => x.sha1nexte(y)?,
            (_, "shr") => x.shr_bytes(n)?,
            (_, "ilv_lo") => x.interleave_lo(y)?,
            (_, "ilv_hi") => x.interleave_hi(y)?,
            (_, "maddubs") => x.maddubs_bytes(y)?,
            (_, "packus") => x.packus_bytes(y)?,
            (_, "mul32wide") => x.mul_lo32_wide(y)?,
            (_, "hsum") => {
                let mut o = [0u8; 32];
                o[..8].copy_from_slice(&x.hsum().to_le_bytes());
                return Some(o);
            }
            (_, "mullo") => x.mullo(y)?,
            (_, "mulhi") => x.mulhi(y)?,
            _ => return None,
        };
        return Some(image(r));
    }
    let op2 = via == 2;
    let r = match cls {
        "w32" => {
            let (x, y) = (w32(a), w32(b));
            L8W32(match opn {
                "xor" => if op2 { x ^ y } else { x.bitxor(y) },
                "and" => if op2 { x & y } else { x.bitand(y) },
                "or" => if op2 { x | y } else { x.bitor(y) },
                "not" => if op2 { !x } else { x.not() },
                "add" => if op2 { x + y } else { x.add(y) },
                "sub" => if op2 { x - y } else { x.sub(y) },
                "rotl" => x.rotl(n),
                "montmul" => x.montmul32(y, Lanes8Word32::splat(q), Lanes8Word32::splat(qinv)),
                "bcast_lo" => x.ntt_bcast_lo(h),
                "bcast_hi" => x.ntt_bcast_hi(h),
                _ => x.ntt_blend(y, h),
            })
        }
        "q32" => {
            let (x, y) = (q32(a), q32(b));
            L4W32(match opn {
                "sha1rnds4" => x.sha1rnds4(y, n),
                "sha1msg1" => x.sha1msg1(y),
                "sha1msg2" => x.sha1msg2(y),
                "sha1nexte" => x.sha1nexte(y),
                "add" => if op2 { x + y } else { x.add(y) },
                _ => if op2 { x ^ y } else { x.bitxor(y) },
            })
        }
        "b8" => {
            let (x, y) = (b8(a), b8(b));
            L16W8(match opn {
                "shuffle" => x.shuffle(y),
                "and" => if op2 { x & y } else { x.bitand(y) },
                "shr" => x.shr_bytes(n),
                "ilv_lo" => x.interleave_lo(y),
                "ilv_hi" => x.interleave_hi(y),
                "add" => x.byte_add(y),
                "maddubs" => x.maddubs(y),
                _ => x.packus(y),
            })
        }
        "w64" => {
            let (x, y) = (w64(a), w64(b));
            L4W64(match opn {
                "add" => if op2 { x + y } else { x.add(y) },
                "mul32wide" => x.mul_lo32_wide(y),
                "xor" => if op2 { x ^ y } else { x.bitxor(y) },
                "and" => if op2 { x & y } else { x.and(y) },
                "andnot" => x.andnot(y),
                "rotl" => x.rotl(n),
                _ => {
                    let mut o = [0u8; 32];
                    o[..8].copy_from_slice(&x.hsum().to_le_bytes());
                    return Some(o);
                }
            })
        }
        _ => {
            let (x, y) = (w16(a), w16(b));
            L16W16(match opn {
                "add" => if op2 { x + y } else { x.add(y) },
                "sub" => if op2 { x - y } else { x.sub(y) },
                "mullo" => if op2 { x * y } else { x.mullo(y) },
                "mulhi" => x.mulhi(y),
                "bcast_lo" => x.ntt_bcast_lo(h),
                "bcast_hi" => x.ntt_bcast_hi(h),
                _ => x.ntt_blend(y, h),
            })
        }
    };
    Some(image(r))
}
