//! C13: malformed input from a peer is rejected, never fatal.
use crate::wire::{build, dial, json_safe, shown, Gen, M};
use logicaffeine_compile::concurrency::{channel, fec, marshal::*, pnp, stream::StreamDeframer};
use logicaffeine_compile::interpreter::RuntimeValue;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use vcore::*;

/// Records the largest single request made while armed.
pub struct Meter;
static ARMED: AtomicBool = AtomicBool::new(false);
static LARGEST: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.load(Relaxed) {
            LARGEST.fetch_max(l.size(), Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARMED.load(Relaxed) {
            LARGEST.fetch_max(l.size(), Relaxed);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ARMED.load(Relaxed) {
            LARGEST.fetch_max(n, Relaxed);
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

fn metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LARGEST.store(0, Relaxed);
    ARMED.store(true, Relaxed);
    let r = f();
    ARMED.store(false, Relaxed);
    (r, LARGEST.load(Relaxed))
}

pub fn mutate(s: &mut Src, b: &mut Vec<u8>, other: &[u8]) -> bool {
    let before = b.clone();
    for _ in 0..s.usize(1, 4) {
        let n = b.len();
        let at = if n == 0 { 0 } else if s.chance(1, 3) { s.usize(0, (n - 1).min(24)) } else { s.usize(0, n - 1) };
        match s.weighted(&[4, 4, 3, 2, 2, 3, 2, 1, 2]) {
            0 if n > 0 => b[at] ^= 1 << s.below(8),
            1 if n > 0 => b[at] = *s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0xfe, 49, 63]),
            2 if n > 0 => b[at] = s.below(256) as u8,
            3 => b.insert(at, s.below(256) as u8),
            4 if n > 0 => {
                b.remove(at);
            }
            5 => {
                // a huge count in place of a small one
                let v = match s.usize(0, 3) {
                    0 => s.u64_edge(),
                    1 => 1 << s.below(40),
                    2 => u64::MAX,
                    _ => 1 << 33,
                };
                let mut x = v;
                let mut enc = vec![];
                loop {
                    let byte = (x & 0x7f) as u8;
                    x >>= 7;
                    if x == 0 {
                        enc.push(byte);
                        break;
                    }
                    enc.push(byte | 0x80);
                }
                let to = (at + s.usize(0, 1)).min(b.len());
                b.splice(at..to, enc);
            }
            6 if n > 0 => b.truncate(at),
            7 if !other.is_empty() => {
                let k = s.usize(0, other.len() - 1);
                b.truncate(at);
                b.extend_from_slice(&other[k..]);
            }
            _ => {
                // repeat a slice: deep nesting, many columns
                let k = s.usize(1, 6).min(n - at.min(n));
                let piece: Vec<u8> = b[at..at + k].to_vec();
                let times = s.usize(1, 60);
                for _ in 0..times {
                    b.splice(at..at, piece.iter().copied());
                }
            }
        }
    }
    *b != before
}

fn measure(v: &RuntimeValue, depth: usize, most: &mut (usize, usize, usize)) {
    use RuntimeValue as V;
    most.0 = most.0.max(depth);
    let mut many = |n: usize| most.1 = most.1.max(n);
    match v {
        V::Text(t) => most.2 = most.2.max(t.len()),
        V::List(l) => {
            let xs = l.borrow().to_values();
            many(xs.len());
            xs.iter().for_each(|x| measure(x, depth + 1, most));
        }
        V::Tuple(xs) => {
            many(xs.len());
            xs.iter().for_each(|x| measure(x, depth + 1, most));
        }
        V::Set(xs) => {
            many(xs.borrow().len());
            xs.borrow().iter().for_each(|x| measure(x, depth + 1, most));
        }
        V::Map(m) => {
            many(m.borrow().len());
            m.borrow().iter().for_each(|(k, v)| {
                measure(k, depth + 1, most);
                measure(v, depth + 1, most);
            });
        }
        V::Struct(st) => st.fields.values().for_each(|x| measure(x, depth + 1, most)),
        V::Inductive(i) => i.args.iter().for_each(|x| measure(x, depth + 1, most)),
        _ => {}
    }
}

const TIGHT: ReceiveLimits =
    ReceiveLimits { max_bytes: 1 << 16, max_depth: 24, max_elements: 500, max_string_bytes: 2000, accept_computed: false };

/// The most a decoder may ask for in one piece under the limits above.
const PIECE: usize = 4 << 20;

fn admitted(v: &RuntimeValue, what: &str) -> R {
    let mut most = (0, 0, 0);
    measure(v, 1, &mut most);
    ensure!(most.1 <= TIGHT.max_elements, "[limits] {what}: a collection of {} elements was accepted, the limit is {}", most.1, TIGHT.max_elements);
    ensure!(!matches!(v, RuntimeValue::Text(_)) || most.2 <= TIGHT.max_string_bytes, "[limits] {what}: a text of {} bytes was accepted, the limit is {}", most.2, TIGHT.max_string_bytes);
    ensure!(most.0 <= 2 * TIGHT.max_depth + 2, "[limits] {what}: nesting of {} was accepted, the limit is {}", most.0, TIGHT.max_depth);
    Ok(())
}

fn seeds(s: &mut Src) -> (Vec<u8>, Vec<u8>, M) {
    let mut g = Gen::new();
    let mk = |s: &mut Src, g: &mut Gen| {
        let d = s.usize(0, 3);
        let m = g.value(s, d);
        let v = build(&m, &mut Default::default());
        let d = dial(s);
        let b = d.scope(|| message_to_wire_with("p", &v, d.codec(), WireIntegrity::Raw)).unwrap_or_default();
        (b, m)
    };
    let (a, m) = mk(s, &mut g);
    let (b, _) = mk(s, &mut g);
    (a, b, m)
}

fn messages(s: &mut Src, cx: &mut Ctx) -> R {
    let (mut b, other, _) = seeds(s);
    let changed = mutate(s, &mut b, &other);
    if b.len() > 60000 {
        b.truncate(60000);
    }
    cx.show(format!("{} bytes: {:02x?}", b.len(), &b[..b.len().min(24)]));
    // ---- eager decode under tight limits
    let (got, most) = metered(|| guarded(|| with_receive_limits(TIGHT, || message_from_wire(&b))));
    let got = got.map_err(|e| Fail { msg: format!("[panic] message_from_wire: {e}") })?;
    cx.class(if got.is_some() { "accepted" } else { "refused" });
    cx.nontrivial(changed && b.len() > 3);
    ensure!(most <= PIECE, "[memory] decoding {} bytes asked for {most} bytes at once", b.len());
    if let Some((_, v)) = &got {
        admitted(v, "message")?;
        guarded(|| (shown(v), v.to_display_string())).map_err(|e| Fail { msg: format!("[panic] showing an accepted value: {e}") })?;
    }
    // ---- reading in place
    let r = guarded(|| {
        with_receive_limits(TIGHT, || {
            if let Some(w) = view_message(&b) {
                let _ = (w.as_int(), w.as_float(), w.as_bool(), w.as_byte_slice());
                let _ = (w.as_i64_slice(), w.as_f64_slice());
                for i in [0usize, 1, 7, 1 << 20, usize::MAX] {
                    let _ = (w.int_list_get(i), w.float_list_get(i), w.structs_row_field_value(i, "a").is_some());
                    let _ = w.structs_row_field(i, "x").and_then(|f| f.decode()).is_some();
                    let _ = w.structs_fixed_i64_col(i).map(|c| c.len());
                }
                let _ = (w.int_list_len(), w.float_list_len(), w.structs_len(), w.structs_schema().is_some());
                for n in ["a", "x", "id", ""] {
                    if let Some(f) = w.struct_field(n) {
                        let _ = (f.as_int(), f.as_i64_slice().is_some(), f.decode().is_some());
                    }
                }
                if let Some(c) = w.structs_cursor() {
                    for i in [0usize, 1, 7, usize::MAX] {
                        let _ = (c.value(i, 0).is_some(), c.i64(i, 0), c.value(0, i).is_some());
                    }
                    let _ = (c.len(), c.field_count(), c.field_index("a"));
                    if c.field_count() > 0 {
                        let _ = c.i64_column(0).map(|c| c.len());
                    }
                }
            }
            let lazy = message_from_wire_view(&b).map(|(_, v)| if let RuntimeValue::List(l) = &v { l.borrow().len() } else { 0 });
            let _ = (peek_deferrable_sender(&b), describe_columns(&b));
            lazy
        })
    });
    r.map_err(|e| Fail { msg: format!("[panic] reading in place: {e}") })?;
    Ok(())
}

fn other_forms(s: &mut Src, cx: &mut Ctx) -> R {
    let (a, other, m) = seeds(s);
    let v = build(&m, &mut Default::default());
    let mut b = match s.usize(0, 5) {
        0 => encode_value_raw(&v).unwrap_or_default(),
        1 => frame_stream_message("p", &[v.clone(), RuntimeValue::Int(1)]).unwrap_or_default(),
        2 => make_handshake_frame("p", &PeerProfile::default()),
        3 => {
            let mut o = vec![];
            logicaffeine_compile::concurrency::stream::frame_for_stream(&a, &mut o);
            o
        }
        4 => channel::seal(0, &a),
        _ => {
            let n = s.usize(0, 40);
            s.bytes(n)
        }
    };
    let changed = mutate(s, &mut b, &other);
    b.truncate(60000);
    cx.show(format!("{} bytes: {:02x?}", b.len(), &b[..b.len().min(24)]));
    cx.nontrivial(changed);
    let (r, most) = metered(|| {
        guarded(|| {
            with_receive_limits(TIGHT, || {
                let raw = decode_value_raw(&b);
                let st = deframe_stream_message(&b);
                let _ = (peek_stream_sender(&b), parse_handshake_frame(&b), decode_peer_profile(&b), channel::open(&b));
                let _ = (fec::shard_header(&b), pnp::frame_kind(&b), pnp::frame_offset(&b));
                let mut de = StreamDeframer::new();
                de.push(&b);
                let mut total = 0;
                de.drain_frames(|f| total += f.len());
                let mut cache = WireSchemaCache::content_addressed();
                let c = message_from_wire_cached(&b, &mut cache);
                (raw, st, total, c)
            })
        })
    });
    let (raw, st, total, c) = r.map_err(|e| Fail { msg: format!("[panic] {e}") })?;
    ensure!(most <= PIECE, "[memory] decoding {} bytes asked for {most} bytes at once", b.len());
    ensure!(total <= b.len(), "[stream] {total} bytes delivered out of {}", b.len());
    if let Some(v) = &raw {
        cx.class("value accepted");
        admitted(v, "value")?;
    }
    for v in st.iter().flatten() {
        admitted(v, "stream element")?;
    }
    if let Some((_, v)) = &c {
        admitted(v, "cached message")?;
    }
    Ok(())
}

/// A message with an integrity sum is refused after any corruption of what the sum covers.
fn integrity(s: &mut Src, cx: &mut Ctx) -> R {
    let mut g = Gen::new();
    let d = s.usize(0, 3);
    let m = g.value(s, d);
    let v = build(&m, &mut Default::default());
    let mut d = dial(s);
    d.json &= json_safe(&m);
    let b = d.scope(|| message_to_wire_with("peer", &v, d.codec(), WireIntegrity::Checked)).map_err(|e| Fail { msg: e })?;
    let mut c = b.clone();
    let body: Vec<u8> = c.split_off(1);
    let mut body = body;
    let n = body.len();
    let at = s.usize(0, n - 1);
    match s.usize(0, 3) {
        0 => body[at] ^= 1 << s.below(8),
        1 => body[at] = body[at].wrapping_add(1 + s.below(255) as u8),
        2 => {
            let to = s.usize(0, n - 1);
            body.swap(at, to);
        }
        _ => {
            for _ in 0..s.usize(2, 5) {
                let i = s.usize(0, n - 1);
                body[i] = s.below(256) as u8;
            }
        }
    }
    c.extend(body);
    cx.show(format!("{} bytes, byte {} changed", b.len(), at + 1));
    cx.nontrivial(c != b);
    ensure!(message_from_wire(&b).is_some(), "[integrity] the intact message was refused");
    if c != b {
        let got = guarded(|| message_from_wire(&c)).map_err(|e| Fail { msg: format!("[panic] {e}") })?;
        ensure!(got.is_none(), "[integrity] a corrupted message was accepted");
    }
    Ok(())
}

/// Messages over the receiver's budget are refused, those within are accepted.
fn budgets(s: &mut Src, cx: &mut Ctx) -> R {
    let mut g = Gen::new();
    let d = s.usize(1, 3);
    let m = g.value(s, d);
    let v = build(&m, &mut Default::default());
    let mut d = dial(s);
    d.json &= json_safe(&m);
    let b = d.scope(|| message_to_wire_with("p", &v, d.codec(), d.integrity())).map_err(|e| Fail { msg: e })?;
    let lim = ReceiveLimits { max_bytes: s.usize(0, 2 * b.len() + 2), ..Default::default() };
    let got = with_receive_limits(lim, || message_from_wire(&b));
    cx.show(format!("{} bytes against a budget of {}", b.len(), lim.max_bytes));
    cx.nontrivial(b.len() > 8);
    if b.len() > lim.max_bytes {
        ensure!(got.is_none(), "[budget] {} bytes accepted against {}", b.len(), lim.max_bytes);
    }
    ensure!(message_from_wire(&b).is_some(), "[budget] the limit outlived its scope");
    Ok(())
}

pub fn c13() -> Suite {
    let mut t = Suite::new("C13", "a case counts when the bytes differ from a valid encoding");
    t.assume("memory is judged by the largest single request under a receiver limit of 500 elements and 64 KiB");
    t.prop("mutated messages", 60000, 600000, messages);
    t.prop("other forms", 25000, 250000, other_forms);
    t.prop("integrity", 15000, 150000, integrity);
    t.prop("budgets", 5000, 50000, budgets);
    t
}
