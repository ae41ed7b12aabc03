//! C31: cryptographic primitives against reference implementations and direct formulas.

use chacha20poly1305::aead::{Aead, KeyInit, Payload};
use logicaffeine_system::{aead, keccak, mldsa, mlkem, ntt};
use ml_dsa::{KeyGen, MlDsa65, Signature};
use ml_kem::kem::Decapsulate;
use ml_kem::{EncapsulateDeterministic, EncodedSizeUser, KemCore, MlKem768};
use sha3::digest::{ExtendableOutput, Update, XofReader};
use sha3::Digest;
use vcore::*;

fn arr<const N: usize>(s: &mut Src) -> [u8; N] {
    let mut a = [0u8; N];
    match s.weighted(&[8, 1, 1]) {
        0 => a.copy_from_slice(&s.bytes(N)),
        1 => a = [0xff; N],
        _ => {}
    }
    a
}

/// Lengths around the boundaries of blocks, lanes and buffers.
fn length(s: &mut Src) -> usize {
    match s.weighted(&[4, 5, 3]) {
        0 => s.usize(0, 40),
        1 => {
            let block = *s.pick(&[16usize, 64, 72, 104, 136, 144, 168, 256, 512, 1024]);
            let k = s.usize(1, 6);
            (block * k + s.usize(0, 2)).saturating_sub(1)
        }
        _ => s.usize(0, 3000),
    }
}

fn message(s: &mut Src, n: usize) -> Vec<u8> {
    match s.weighted(&[6, 1, 1]) {
        0 => s.bytes(n),
        1 => vec![0xff; n],
        _ => vec![0; n],
    }
}

fn ints(b: &[u8]) -> Vec<i64> {
    b.iter().map(|x| *x as i64).collect()
}

fn hashes(s: &mut Src, c: &mut Ctx) -> R {
    let n = length(s);
    let m = message(s, n);
    let out = length(s);
    c.show(format!("{n} bytes in, {out} out"));
    c.nontrivial(n > 0);
    ensure_eq!(keccak::sha3_256_bytes(&m).to_vec(), sha3::Sha3_256::digest(&m).to_vec(), "SHA3-256 of {n} bytes");
    ensure_eq!(keccak::sha3_512_bytes(&m).to_vec(), sha3::Sha3_512::digest(&m).to_vec(), "SHA3-512 of {n} bytes");
    let mut want = vec![0; out];
    let mut h = sha3::Shake128::default();
    h.update(&m);
    h.finalize_xof().read(&mut want);
    ensure_eq!(keccak::shake128_bytes(&m, out), want, "SHAKE128 of {n} bytes to {out}");
    ensure_eq!(keccak::shake128(&ints(&m), out as i64).to_vec(), ints(&want), "SHAKE128 of a list of {n} to {out}");
    let mut h = sha3::Shake256::default();
    h.update(&m);
    h.finalize_xof().read(&mut want);
    ensure_eq!(keccak::shake256_bytes(&m, out), want, "SHAKE256 of {n} bytes to {out}");
    ensure_eq!(keccak::shake256(&ints(&m), out as i64).to_vec(), ints(&want), "SHAKE256 of a list of {n} to {out}");
    ensure_eq!(keccak::sha3_256(&ints(&m)).to_vec(), ints(&sha3::Sha3_256::digest(&m)), "SHA3-256 of a list of {n}");
    ensure_eq!(keccak::sha3_512(&ints(&m)).to_vec(), ints(&sha3::Sha3_512::digest(&m)), "SHA3-512 of a list of {n}");
    Ok(())
}

/// The ChaCha20 block function as RFC 8439 writes it.
fn chacha_block(key: &[u8; 32], nonce: &[u8; 12], counter: u32) -> [u8; 64] {
    let mut st = [0u32; 16];
    st[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        st[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    st[12] = counter;
    for i in 0..3 {
        st[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut w = st;
    fn q(w: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(16);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(12);
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(8);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(7);
    }
    for _ in 0..10 {
        q(&mut w, 0, 4, 8, 12);
        q(&mut w, 1, 5, 9, 13);
        q(&mut w, 2, 6, 10, 14);
        q(&mut w, 3, 7, 11, 15);
        q(&mut w, 0, 5, 10, 15);
        q(&mut w, 1, 6, 11, 12);
        q(&mut w, 2, 7, 8, 13);
        q(&mut w, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&w[i].wrapping_add(st[i]).to_le_bytes());
    }
    out
}

fn ciphers(s: &mut Src, c: &mut Ctx) -> R {
    let key: [u8; 32] = arr(s);
    let nonce: [u8; 12] = arr(s);
    let n = length(s);
    let m = message(s, n);
    let counter = match s.below(3) {
        0 => s.below(4) as u32,
        1 => (u32::MAX as u64 - 200 + s.below(100)) as u32 - (n / 64) as u32,
        _ => s.u64() as u32 >> 1,
    };
    let mut want = m.clone();
    for (i, ch) in want.chunks_mut(64).enumerate() {
        let k = chacha_block(&key, &nonce, counter.wrapping_add(i as u32));
        ch.iter_mut().zip(k).for_each(|(x, y)| *x ^= y);
    }
    c.show(format!("{n} bytes from counter {counter}"));
    c.nontrivial(n > 0);
    ensure_eq!(aead::chacha20_xor(&key, &nonce, counter, &m), want, "ChaCha20 over {n} bytes from counter {counter}");
    ensure_eq!(aead::chacha20_encrypt_seq(&ints(&key), &ints(&nonce), counter as i64, &ints(&m)).to_vec(), ints(&want), "ChaCha20 over a list of {n}");
    // Poly1305 with keys and messages of many set bits, where the carries are.
    let mut pk: [u8; 32] = arr(s);
    if s.flip() {
        pk[16..].fill(0xff);
    }
    let tag: [u8; 16] = <poly1305::Poly1305 as poly1305::universal_hash::KeyInit>::new(&pk.into()).compute_unpadded(&m).into();
    ensure_eq!(aead::poly1305(&pk, &m), tag, "Poly1305 of {n} bytes");
    ensure_eq!(aead::poly1305_seq(&ints(&pk), &ints(&m)).to_vec(), ints(&tag), "Poly1305 of a list of {n}");
    Ok(())
}

fn sealing(s: &mut Src, c: &mut Ctx) -> R {
    let key: [u8; 32] = arr(s);
    let nonce: [u8; 12] = arr(s);
    let n = length(s);
    let m = message(s, n);
    let k = s.usize(0, 70);
    let aad = message(s, k);
    let sealed = aead::chacha20poly1305_seal(&key, &nonce, &aad, &m);
    let cipher = chacha20poly1305::ChaCha20Poly1305::new(&key.into());
    let want = cipher.encrypt(&nonce.into(), Payload { msg: &m, aad: &aad }).unwrap();
    ensure_eq!(sealed, want, "sealing {n} bytes with {k} associated");
    ensure_eq!(aead::chacha20poly1305_open(&key, &nonce, &aad, &sealed), Some(m.clone()), "opening {n} bytes with {k} associated");
    // One thing changed.
    let (mut key2, mut nonce2, mut aad2, mut sealed2) = (key, nonce, aad.clone(), sealed.clone());
    let bit = s.below(8);
    let what = match s.below(7) {
        0 => {
            let i = s.usize(0, 31);
            key2[i] ^= 1 << bit;
            "key"
        }
        1 => {
            let i = s.usize(0, 11);
            nonce2[i] ^= 1 << bit;
            "nonce"
        }
        2 if k > 0 => {
            let i = s.usize(0, k - 1);
            aad2[i] ^= 1 << bit;
            "associated data"
        }
        3 => {
            let i = s.usize(0, 15);
            let at = sealed2.len() - 1 - i;
            sealed2[at] ^= 1 << bit;
            "tag"
        }
        4 => {
            let keep = s.usize(0, sealed2.len() - 1);
            sealed2.truncate(keep);
            "length"
        }
        5 => {
            // Bytes moved from the associated data to the message.
            aad2.push(0);
            "associated length"
        }
        _ => {
            let i = s.usize(0, sealed2.len() - 1);
            sealed2[i] ^= 1 << bit;
            "ciphertext"
        }
    };
    c.class(what);
    c.show(format!("{n} bytes, {k} associated, {what} changed"));
    c.nontrivial(n > 0);
    ensure!(aead::chacha20poly1305_open(&key2, &nonce2, &aad2, &sealed2).is_none(), "[accepted] {n} bytes with {k} associated open although the {what} changed");
    Ok(())
}

fn encapsulation(s: &mut Src, c: &mut Ctx) -> R {
    let (d, z, m): ([u8; 32], [u8; 32], [u8; 32]) = (arr(s), arr(s), arr(s));
    let (ek, dk) = mlkem::keygen(&d, &z);
    let (dk_o, ek_o) = MlKem768::generate_deterministic(&d.into(), &z.into());
    ensure!(ek == ek_o.as_bytes().to_vec(), "the public key of seed {d:?} differs");
    ensure!(dk == dk_o.as_bytes().to_vec(), "the secret key of seed {d:?} {z:?} differs");
    let (ct, ss) = mlkem::encaps(&ek, &m);
    let (ct_o, ss_o) = ek_o.encapsulate_deterministic(&m.into()).unwrap();
    ensure!(ct == ct_o.as_slice(), "the ciphertext for {m:?} under the key of {d:?} differs");
    ensure!(ss == ss_o.as_slice(), "the shared secret for {m:?} under the key of {d:?} differs");
    ensure!(mlkem::decaps(&dk, &ct) == ss, "decapsulation does not give the shared secret back");
    // A changed ciphertext gives the standard's unrelated secret.
    let mut bad = ct.clone();
    match s.below(3) {
        0 => {
            let i = s.usize(0, bad.len() - 1);
            bad[i] ^= 1 << s.below(8);
        }
        1 => bad = s.bytes(bad.len()),
        _ => {
            let i = s.usize(0, bad.len() - 1);
            bad[i..].fill(0xff);
        }
    }
    let arr = ml_kem::Ciphertext::<MlKem768>::try_from(bad.as_slice()).unwrap();
    let want = dk_o.decapsulate(&arr).unwrap();
    let got = mlkem::decaps(&dk, &bad);
    ensure!(got == want.as_slice(), "decapsulating a changed ciphertext gives another secret than the standard's");
    ensure!(bad == ct || got != ss, "[accepted] a changed ciphertext gives the shared secret");
    c.show(format!("seed {:02x?}…", &d[..4]));
    c.nontrivial(true);
    let kp = mlkem::mlkem_keypair_seq(&ints(&d), &ints(&z)).to_vec();
    ensure!(kp == ints(&[ek.as_slice(), dk.as_slice()].concat()) || kp == ints(&[dk.as_slice(), ek.as_slice()].concat()), "the list form of the key pair differs");
    ensure!(mlkem::mlkem_decaps_seq(&ints(&dk), &ints(&bad)).to_vec() == ints(&got), "the list form of decapsulation differs");
    Ok(())
}

fn signatures(s: &mut Src, c: &mut Ctx) -> R {
    let seed: [u8; 32] = arr(s);
    let n = s.usize(0, 400);
    let m = message(s, n);
    let k = if s.flip() { 0 } else { s.usize(0, 255) };
    let ctx = message(s, k);
    let (pk, sk) = mldsa::keygen(&seed);
    let kp = MlDsa65::key_gen_internal(&seed.into());
    ensure!(pk == kp.verifying_key().encode().as_slice(), "the public key of {seed:?} differs");
    ensure!(sk == kp.signing_key().encode().as_slice(), "the secret key of {seed:?} differs");
    let sig = mldsa::sign(&sk, &m, &ctx);
    let want = kp.signing_key().sign_deterministic(&m, &ctx).unwrap().encode();
    ensure!(sig == want.as_slice(), "the signature of {n} bytes with {k} of context under {seed:?} differs");
    ensure!(mldsa::verify(&pk, &m, &ctx, &sig), "[refused] an honest signature of {n} bytes");
    let mut kinds = vec![];
    for _ in 0..3 {
        let (mut pk2, mut m2, mut ctx2, mut sig2) = (pk.clone(), m.clone(), ctx.clone(), sig.clone());
        let bit = 1u8 << s.below(8);
        let what = match s.below(8) {
            0 => {
                let i = s.usize(0, pk2.len() - 1);
                pk2[i] ^= bit;
                "public key"
            }
            1 if n > 0 => {
                let i = s.usize(0, n - 1);
                m2[i] ^= bit;
                "message"
            }
            2 if k > 0 => {
                ctx2.pop();
                "context"
            }
            3 if k > 0 => {
                // The boundary between context and message moved.
                let x = ctx2.remove(ctx2.len() - 1);
                m2.insert(0, x);
                "boundary"
            }
            4 | 5 => {
                // The encoded hints: positions and counts in the last bytes.
                let i = s.usize(1, 61);
                let at = sig2.len() - i;
                sig2[at] = match s.below(3) {
                    0 => sig2[at].wrapping_add(1),
                    1 => sig2[at] ^ bit,
                    _ => s.below(256) as u8,
                };
                "hints"
            }
            6 => {
                let i = s.usize(0, 47);
                sig2[i] ^= bit;
                "challenge"
            }
            _ => {
                let i = s.usize(48, sig2.len() - 62);
                sig2[i] ^= bit;
                "response"
            }
        };
        if (&pk2, &m2, &ctx2, &sig2) == (&pk, &m, &ctx, &sig) {
            continue;
        }
        kinds.push(what);
        c.class(what);
        ensure!(!mldsa::verify(&pk2, &m2, &ctx2, &sig2), "[accepted] a signature of {n} bytes verifies although the {what} changed");
        let vk = ml_dsa::VerifyingKey::<MlDsa65>::decode(pk2.as_slice().try_into().unwrap());
        let theirs = Signature::<MlDsa65>::try_from(sig2.as_slice()).map(|x| vk.verify_with_context(&m2, &ctx2, &x)).unwrap_or(false);
        ensure!(!theirs, "the reference accepts");
    }
    c.show(format!("{n} bytes, {k} of context, changed {kinds:?}"));
    c.nontrivial(true);
    Ok(())
}

const Q: i64 = 3329;

/// Encodings of coefficient lists.
fn coefficients(s: &mut Src, c: &mut Ctx) -> R {
    let d = s.usize(1, 12);
    let n = 256;
    let v: Vec<i64> = (0..n).map(|_| s.int(0, Q - 1)).collect();
    c.show(format!("{d} bits"));
    c.nontrivial(true);
    let m = 1i64 << d;
    if d < 12 {
        // Rounding to the nearest multiple, halves up.
        let want: Vec<i64> = v.iter().map(|x| ((2 * x * m + Q) / (2 * Q)) % m).collect();
        ensure_eq!(ntt::mlkem_compress(&v, d as i64).to_vec(), want, "compressing to {d} bits");
        let back: Vec<i64> = want.iter().map(|y| (2 * y * Q + m) / (2 * m)).collect();
        ensure_eq!(ntt::mlkem_decompress(&want, d as i64).to_vec(), back, "decompressing from {d} bits");
    }
    let small: Vec<i64> = if d == 12 { v.clone() } else { v.iter().map(|x| x % m).collect() };
    let mut bits = vec![];
    for x in &small {
        for b in 0..d {
            bits.push(x >> b & 1);
        }
    }
    let want: Vec<i64> = bits.chunks(8).map(|ch| ch.iter().enumerate().map(|(i, b)| b << i).sum()).collect();
    let enc = ntt::mlkem_byte_encode(&small, d as i64).to_vec();
    ensure_eq!(enc, want, "packing {d}-bit values");
    ensure_eq!(ntt::mlkem_byte_decode(&enc, d as i64).to_vec(), small, "unpacking {d}-bit values");
    // Products of polynomials through the transform.
    let w: Vec<i64> = (0..n).map(|_| s.int(0, Q - 1)).collect();
    let mut prod = vec![0i64; n];
    for i in 0..n {
        for j in 0..n {
            let t = v[i] * w[j] % Q;
            let k = i + j;
            if k < n { prod[k] = (prod[k] + t) % Q } else { prod[k - n] = (prod[k - n] + Q - t) % Q }
        }
    }
    let (a, b) = (ntt::mlkem_ntt(&v).to_vec(), ntt::mlkem_ntt(&w).to_vec());
    let p = ntt::mlkem_base_mul(&a, &b).to_vec();
    let got = ntt::mlkem_inv_ntt(&p).to_vec();
    // The transform may leave one fixed scale factor.
    let scale = |f: i64| got.iter().zip(&prod).all(|(g, w)| (g * f - w).rem_euclid(Q) == 0);
    let f = match prod.iter().position(|x| *x != 0) {
        None => 1,
        Some(i) => (1..Q).find(|f| (got[i] * f - prod[i]).rem_euclid(Q) == 0).unwrap_or(0),
    };
    ensure!(scale(f), "the product of two polynomials through the transform is not their product");
    Ok(())
}

pub fn c31() -> Suite {
    let mut su = Suite::new("C31", "the message is not empty; every key pair");
    su.prop("hashes", 40000, 200000, hashes);
    su.prop("ciphers", 40000, 200000, ciphers);
    su.prop("sealing", 40000, 200000, sealing);
    su.prop("encapsulation", 15000, 40000, encapsulation);
    su.prop("signatures", 6000, 15000, signatures);
    su.prop("coefficients", 8000, 30000, coefficients);
    su
}
