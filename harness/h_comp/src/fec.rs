//! C14: erasure coding recovers the data from any sufficient subset of shards.
//! C33: one-time-pad and session sealing (see `c33`).
use logicaffeine_compile::concurrency::fec;
use vcore::*;

fn payload(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[1, 4, 6, 3]) {
        0 => 0,
        1 => s.usize(1, 8),
        2 => s.usize(9, 200),
        _ => s.usize(201, 1500),
    };
    match s.weighted(&[5, 1, 1]) {
        0 => s.bytes(n),
        1 => vec![0; n],
        _ => (0..n).map(|i| i as u8).collect(),
    }
}

/// Shard counts: small, the whole field (256), all data (no parity), one data shard.
fn shape(s: &mut Src) -> (usize, usize) {
    match s.weighted(&[8, 3, 1, 1]) {
        0 => {
            let k = s.usize(1, 12);
            (k, k + s.usize(0, 12))
        }
        1 => {
            let k = s.usize(1, 40);
            (k, k + s.usize(0, 40))
        }
        2 => {
            let k = s.usize(1, 30);
            (k, s.usize(200, 256))
        }
        _ => {
            let n = s.usize(60, 110);
            (n - s.usize(0, 10), n)
        }
    }
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = s.usize(0, i);
        v.swap(i, j);
    }
}

/// A subset of 0..n of the given size, biased to parity-only and prefix-less subsets.
fn subset(s: &mut Src, n: usize, size: usize) -> Vec<usize> {
    let mut all: Vec<usize> = (0..n).collect();
    match s.weighted(&[5, 1, 1]) {
        0 => shuffle(s, &mut all),
        1 => all.reverse(),
        _ => {
            let r = s.usize(0, n - 1);
            all.rotate_left(r);
        }
    }
    all.truncate(size);
    all
}

fn any_k(s: &mut Src, cx: &mut Ctx) -> R {
    let data = payload(s);
    let (k, n) = shape(s);
    let Some((len, shards)) = fec::encode(&data, k, n) else { return fail(format!("encode refused k={k} n={n}")) };
    ensure_eq!(len, data.len(), "recorded length");
    ensure_eq!(shards.len(), n, "shard count");
    let extra = s.usize(0, n - k);
    let size = if s.chance(3, 4) { k } else { k + extra };
    let mut have: Vec<(usize, Vec<u8>)> = subset(s, n, size).into_iter().map(|i| (i, shards[i].clone())).collect();
    // duplicates and impossible indices may arrive anywhere
    let dups = s.usize(0, 3);
    for _ in 0..dups {
        let at = s.usize(0, have.len() - 1);
        let d = have[at].clone();
        let to = s.usize(0, have.len());
        have.insert(to, d);
    }
    cx.show(format!("{} bytes, k={k} n={n}, arriving {:?}", data.len(), have.iter().map(|h| h.0).collect::<Vec<_>>()));
    let parity = have.iter().any(|h| h.0 >= k);
    cx.class(if parity { "parity used" } else { "data shards only" });
    cx.nontrivial(parity && !data.is_empty());
    let got = fec::decode(len, k, n, &have);
    ensure!(got.as_deref() == Some(&data[..]), "k={k} n={n} subset {:?}: recovered {:?} from {} bytes", have.iter().map(|h| h.0).collect::<Vec<_>>(), got.as_ref().map(|g| g.len()), data.len());
    Ok(())
}

fn too_few(s: &mut Src, cx: &mut Ctx) -> R {
    let data = payload(s);
    let (k, n) = shape(s);
    let (len, shards) = fec::encode(&data, k, n).ok_or(Fail { msg: "encode refused".into() })?;
    let size = s.usize(0, k - 1);
    let mut have: Vec<(usize, Vec<u8>)> = subset(s, n, size).into_iter().map(|i| (i, shards[i].clone())).collect();
    for _ in 0..s.usize(0, k + 2) {
        if !have.is_empty() && s.flip() {
            let at = s.usize(0, have.len() - 1);
            let d = have[at].clone();
            have.push(d);
        } else {
            let width = shards[0].len();
            have.push((n + s.usize(0, 300), s.bytes(width)));
        }
    }
    cx.show(format!("{} bytes, k={k} n={n}, insufficient {:?}", data.len(), have.iter().map(|h| h.0).collect::<Vec<_>>()));
    cx.nontrivial(size > 0 && have.len() >= k);
    ensure!(fec::decode(len, k, n, &have).is_none(), "decoded from {size} distinct shards though {k} are needed");
    Ok(())
}

fn framed(s: &mut Src, cx: &mut Ctx) -> R {
    // Several messages in flight; each loses some shards; all arrive mixed, duplicated and with junk.
    let count = s.usize(1, 3);
    let mut bag: Vec<Vec<u8>> = vec![];
    let mut sent: Vec<(u64, Vec<u8>, bool)> = vec![];
    for m in 0..count {
        let data = payload(s);
        let k = s.usize(1, 8);
        let n = k + s.usize(0, 8);
        let id = if s.chance(1, 6) { s.u64_edge() } else { m as u64 };
        if sent.iter().any(|x| x.0 == id) {
            continue;
        }
        let fr = fec::frame_redundant(id, &data, k, n).ok_or(Fail { msg: "frame refused".into() })?;
        for f in &fr {
            ensure_eq!(fec::shard_header(f), Some((id, k, n)), "shard header");
        }
        let enough = s.chance(2, 3);
        let size = if enough { k + s.usize(0, n - k) } else { s.usize(0, k - 1) };
        for i in subset(s, n, size) {
            bag.push(fr[i].clone());
            if s.chance(1, 5) {
                bag.push(fr[i].clone());
            }
        }
        sent.push((id, data, size >= k));
    }
    for _ in 0..s.usize(0, 3) {
        let n = s.usize(0, 40);
        let mut junk = s.bytes(n);
        if !junk.is_empty() {
            junk[0] = 0x11; // not a shard
        }
        bag.push(junk);
    }
    shuffle(s, &mut bag);
    let complete = sent.iter().filter(|x| x.2).count();
    cx.show(format!("{} messages, {} complete, {} packets", sent.len(), complete, bag.len()));
    cx.class(if complete > 0 { "complete" } else { "incomplete" });
    cx.nontrivial(sent.len() > 1 || bag.len() > 3);
    // Receivers collect one message after another: take what is complete out of the bag until nothing is left.
    let mut seen = vec![];
    loop {
        match fec::reconstruct_redundant(&bag) {
            None => break,
            Some((id, data)) => {
                let Some(m) = sent.iter().find(|x| x.0 == id) else { return fail(format!("message {id} was never sent")) };
                ensure!(m.2, "message {id} reconstructed from too few shards");
                ensure!(m.1 == data, "message {id}: different bytes ({} instead of {})", data.len(), m.1.len());
                ensure!(!seen.contains(&id), "message {id} twice");
                seen.push(id);
                bag.retain(|b| fec::shard_header(b).map(|h| h.0) != Some(id));
            }
        }
    }
    ensure_eq!(seen.len(), complete, "complete messages recovered");
    Ok(())
}

/// Arrival one packet at a time: the message becomes available exactly when the k-th distinct shard arrives.
fn threshold(s: &mut Src, cx: &mut Ctx) -> R {
    let data = payload(s);
    let k = s.usize(1, 10);
    let n = k + s.usize(0, 10);
    let id = s.u64();
    let fr = fec::frame_redundant(id, &data, k, n).ok_or(Fail { msg: "frame refused".into() })?;
    let order = subset(s, n, n);
    let mut bag = vec![];
    let mut distinct = std::collections::BTreeSet::new();
    cx.show(format!("{} bytes k={k} n={n} order {order:?}", data.len()));
    cx.nontrivial(k > 1 && n > k);
    for i in order {
        for _ in 0..(1 + s.usize(0, 1)) {
            bag.push(fr[i].clone());
        }
        distinct.insert(i);
        let got = fec::reconstruct_redundant(&bag);
        if distinct.len() < k {
            ensure!(got.is_none(), "available after {} of {k} shards", distinct.len());
        } else {
            ensure!(got == Some((id, data.clone())), "wrong or missing after {} of {k} shards", distinct.len());
        }
    }
    Ok(())
}

fn degenerate(s: &mut Src, cx: &mut Ctx) -> R {
    // Any bytes in the packet position: a result, never a crash, and bounded work.
    let mut bag = vec![];
    for _ in 0..s.usize(1, 6) {
        let k = *s.pick(&[0u16, 1, 2, 3, 255, 256, 257, 65535]);
        let n = *s.pick(&[0u16, 1, 2, 3, 255, 256, 257, 65535]);
        let len = *s.pick(&[0u32, 1, 5, 1000, u32::MAX]);
        let ix = *s.pick(&[0u16, 1, 2, 255, 256, 65535]);
        let id = s.below(2);
        let mut b = vec![0xFE];
        b.extend_from_slice(&id.to_le_bytes());
        b.extend_from_slice(&k.to_le_bytes());
        b.extend_from_slice(&n.to_le_bytes());
        b.extend_from_slice(&len.to_le_bytes());
        b.extend_from_slice(&ix.to_le_bytes());
        let body = s.usize(0, 12);
        b.extend(s.bytes(body));
        if s.chance(1, 4) {
            let cut = s.usize(0, b.len());
            b.truncate(cut);
        }
        bag.push(b);
    }
    cx.show(format!("{} crafted packets", bag.len()));
    cx.nontrivial(true);
    match guarded(|| fec::reconstruct_redundant(&bag)) {
        Ok(_) => Ok(()),
        Err(f) => fail(format!("crafted packets {bag:?}: {}", f)),
    }
}

pub fn c14() -> Suite {
    let mut t = Suite::new("C14", "a case counts when a parity shard is needed or several packets compete");
    t.prop("any sufficient subset", 20000, 200000, any_k);
    t.prop("insufficient subset", 10000, 100000, too_few);
    t.prop("mixed arrivals", 10000, 100000, framed);
    t.prop("arrival threshold", 5000, 50000, threshold);
    t.prop("crafted packets", 10000, 100000, degenerate);
    t
}
