//! Host side of an emitted module: the print and helper imports, as the repository's own runner defines them.
use std::cell::RefCell;
use std::rc::Rc;

/// Read the sequence at `handle` out of the module's exported memory (header `[len][cap][data_ptr]`
/// then `len` 8-byte elements at `data_ptr`) and format it as the tree-walker's `RuntimeValue::List`
/// would: `[e0, e1, …]`, each element rendered by `fmt` (its scalar display).
fn read_seq(c: &wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32, fmt: impl Fn([u8; 8]) -> String) -> String {
    let mem = match c.get_export("memory").and_then(|e| e.into_memory()) {
        Some(m) => m,
        None => return "[]".to_string(),
    };
    let data = mem.data(c);
    let h = handle as usize;
    let len = i32::from_le_bytes(data[h..h + 4].try_into().unwrap()) as usize;
    let dptr = i32::from_le_bytes(data[h + 8..h + 12].try_into().unwrap()) as usize;
    let parts: Vec<String> = (0..len).map(|i| fmt(data[dptr + i * 8..dptr + i * 8 + 8].try_into().unwrap())).collect();
    format!("[{}]", parts.join(", "))
}

/// Read the UTF-8 `Text` at `handle` out of the module's exported memory (header `[len][cap]
/// [data_ptr]`, then `len` bytes at `data_ptr`) as a `String` — a `RuntimeValue::Text` displays
/// as its raw contents.
fn read_text(c: &wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32) -> String {
    let mem = match c.get_export("memory").and_then(|e| e.into_memory()) {
        Some(m) => m,
        None => return String::new(),
    };
    let data = mem.data(c);
    let h = handle as usize;
    let len = i32::from_le_bytes(data[h..h + 4].try_into().unwrap()) as usize;
    let dptr = i32::from_le_bytes(data[h + 8..h + 12].try_into().unwrap()) as usize;
    String::from_utf8_lossy(&data[dptr..dptr + len]).into_owned()
}

/// Read a whole sequence of `Text` at `handle` and format `[s0, s1, …]` (elements unquoted) — the
/// host side of `print_seq_text`. Each slot's low word is a `Text` handle (read via [`read_text`]).
fn read_seq_text(c: &wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32) -> String {
    let handles: Vec<i32> = match c.get_export("memory").and_then(|e| e.into_memory()) {
        Some(mem) => {
            let data = mem.data(c);
            let h = handle as usize;
            let len = i32::from_le_bytes(data[h..h + 4].try_into().unwrap()) as usize;
            let dptr = i32::from_le_bytes(data[h + 8..h + 12].try_into().unwrap()) as usize;
            (0..len).map(|i| i32::from_le_bytes(data[dptr + i * 8..dptr + i * 8 + 4].try_into().unwrap())).collect()
        }
        None => Vec::new(),
    };
    let parts: Vec<String> = handles.iter().map(|&th| read_text(c, th)).collect();
    format!("[{}]", parts.join(", "))
}

/// Read a whole `Set of Int` at `handle` and format `{e0, e1, …}` (the VM's insertion-ordered Set
/// display) — the host side of `print_set_i64`. Same header+8-byte-slot layout as a sequence.
fn read_set_i64(c: &wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32) -> String {
    let mem = match c.get_export("memory").and_then(|e| e.into_memory()) {
        Some(m) => m,
        None => return "{}".to_string(),
    };
    let data = mem.data(c);
    let h = handle as usize;
    let len = i32::from_le_bytes(data[h..h + 4].try_into().unwrap()) as usize;
    let dptr = i32::from_le_bytes(data[h + 8..h + 12].try_into().unwrap()) as usize;
    let parts: Vec<String> = (0..len)
        .map(|i| i64::from_le_bytes(data[dptr + i * 8..dptr + i * 8 + 8].try_into().unwrap()).to_string())
        .collect();
    format!("{{{}}}", parts.join(", "))
}

/// Read a whole `Set of Text` at `handle` and format `{s0, s1, …}` (elements unquoted, insertion
/// order) — the host side of `print_set_text`. Each 8-byte slot's low word is a `Text` handle.
fn read_set_text(c: &wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32) -> String {
    let handles: Vec<i32> = match c.get_export("memory").and_then(|e| e.into_memory()) {
        Some(mem) => {
            let data = mem.data(c);
            let h = handle as usize;
            let len = i32::from_le_bytes(data[h..h + 4].try_into().unwrap()) as usize;
            let dptr = i32::from_le_bytes(data[h + 8..h + 12].try_into().unwrap()) as usize;
            (0..len).map(|i| i32::from_le_bytes(data[dptr + i * 8..dptr + i * 8 + 4].try_into().unwrap())).collect()
        }
        None => Vec::new(),
    };
    let parts: Vec<String> = handles.iter().map(|&th| read_text(c, th)).collect();
    format!("{{{}}}", parts.join(", "))
}

pub enum End {
    Done,
    Trap(String),
    OutOfFuel,
}

/// Validates, instantiates and runs an emitted module; the lines printed and how it ended.
pub fn run(module: &[u8], fuel: u64) -> Result<(Vec<String>, End), String> {
    let mut config = wasmi::Config::default();
    config.consume_fuel(true);
    let engine = wasmi::Engine::new(&config);
    let m = wasmi::Module::new(&engine, module).map_err(|e| format!("not a valid module: {e}"))?;
    let out: Rc<RefCell<Vec<String>>> = Rc::new(RefCell::new(Vec::new()));
    let mut store = wasmi::Store::new(&engine, out.clone());
    store.add_fuel(fuel).unwrap();
    let mut linker = wasmi::Linker::<Rc<RefCell<Vec<String>>>>::new(&engine);
    linker
        .func_wrap("env", "print_i64", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, v: i64| {
            c.data().borrow_mut().push(v.to_string());
        })
        .unwrap()
        .func_wrap("env", "print_rational", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, num: i64, den: i64| {
            c.data().borrow_mut().push(if den == 1 { num.to_string() } else { format!("{num}/{den}") });
        })
        .unwrap();
    linker
        .func_wrap("env", "print_nothing", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>| {
            c.data().borrow_mut().push("nothing".into());
        })
        .unwrap();
    linker
        .func_wrap("env", "print_word", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, v: i64| {
            c.data().borrow_mut().push((v as u64).to_string());
        })
        .unwrap();
    linker
        .func_wrap("env", "parse_float", |mut c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, h: i32| -> wasmi::core::F64 {
            let mem = c.get_export("memory").unwrap().into_memory().unwrap();
            let d = mem.data_mut(&mut c);
            let h = h as usize;
            let len = i32::from_le_bytes(d[h..h + 4].try_into().unwrap()) as usize;
            let dp = i32::from_le_bytes(d[h + 8..h + 12].try_into().unwrap()) as usize;
            wasmi::core::F64::from(std::str::from_utf8(&d[dp..dp + len]).unwrap().trim().parse::<f64>().unwrap_or(0.0))
        })
        .unwrap();
    linker
        .func_wrap("env", "parse_timestamp", |mut c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, h: i32| -> i64 {
            let mem = c.get_export("memory").unwrap().into_memory().unwrap();
            let d = mem.data_mut(&mut c);
            let h = h as usize;
            let len = i32::from_le_bytes(d[h..h + 4].try_into().unwrap()) as usize;
            let dp = i32::from_le_bytes(d[h + 8..h + 12].try_into().unwrap()) as usize;
            let s = std::str::from_utf8(&d[dp..dp + len]).unwrap().trim();
            logicaffeine_base::temporal::parse_rfc3339(s).expect("valid RFC 3339 timestamp")
        })
        .unwrap();
    linker
        .func_wrap("env", "temporal_component", |_c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, nanos: i64, which: i32| -> i64 {
            use logicaffeine_base::temporal;
            let civil = temporal::civil_from_unix_nanos(nanos);
            match which {
                0 => civil.year,
                1 => civil.month as i64,
                2 => civil.day as i64,
                3 => civil.hour as i64,
                4 => civil.minute as i64,
                5 => civil.second as i64,
                6 => temporal::weekday_from_days(nanos.div_euclid(temporal::NANOS_PER_DAY)) as i64,
                7 => temporal::iso_week_from_days(nanos.div_euclid(temporal::NANOS_PER_DAY)).1 as i64,
                8 => (civil.month as i64 - 1) / 3 + 1,
                _ => unreachable!(),
            }
        })
        .unwrap();
    // The `Date` (days-since-epoch) analog — the SAME `civil_from_days`/`weekday_from_days`/
    // `iso_week_from_days` the VM's `RuntimeValue::Date` accessor path uses (no nanos round-trip).
    linker
        .func_wrap("env", "temporal_component_date", |_c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, days: i32, which: i32| -> i64 {
            use logicaffeine_base::temporal;
            let (y, m, d) = temporal::civil_from_days(days as i64);
            match which {
                0 => y,
                1 => m as i64,
                2 => d as i64,
                6 => temporal::weekday_from_days(days as i64) as i64,
                7 => temporal::iso_week_from_days(days as i64).1 as i64,
                8 => (m as i64 - 1) / 3 + 1,
                _ => unreachable!(),
            }
        })
        .unwrap();
    linker
        .func_wrap("env", "print_bool", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, v: i32| {
            c.data().borrow_mut().push(if v != 0 { "true".into() } else { "false".into() });
        })
        .unwrap();
    linker
        .func_wrap("env", "print_f64", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, v: wasmi::core::F64| {
            c.data().borrow_mut().push(logicaffeine_compile::compile::display_float_like_logos(f64::from(v)));
        })
        .unwrap();
    // `pow` host helpers — exactly the VM's `powf` (Float exponent) and `powi` (Int exponent).
    linker
        .func_wrap("env", "pow_ff", |_c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, b: wasmi::core::F64, e: wasmi::core::F64| -> wasmi::core::F64 {
            f64::from(b).powf(f64::from(e)).into()
        })
        .unwrap();
    linker
        .func_wrap("env", "pow_fi", |_c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, b: wasmi::core::F64, e: i64| -> wasmi::core::F64 {
            f64::from(b).powi(e as i32).into()
        })
        .unwrap();
    // Temporal: the clock honors the SAME thread-local fixed-clock the tree-walker/VM read, and
    // print_date/print_moment delegate to the real `to_display_string` — so tw==vm==wasm.
    use logicaffeine_compile::interpreter::RuntimeValue;
    use logicaffeine_compile::semantics::temporal;
    linker
        .func_wrap("env", "today", |_c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>| -> i32 {
            match temporal::today() {
                RuntimeValue::Date(d) => d,
                _ => 0,
            }
        })
        .unwrap();
    linker
        .func_wrap("env", "now", |_c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>| -> i64 {
            match temporal::now() {
                RuntimeValue::Moment(n) => n,
                _ => 0,
            }
        })
        .unwrap();
    linker
        .func_wrap("env", "print_date", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, d: i32| {
            c.data().borrow_mut().push(RuntimeValue::Date(d).to_display_string());
        })
        .unwrap();
    linker
        .func_wrap("env", "print_moment", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, n: i64| {
            c.data().borrow_mut().push(RuntimeValue::Moment(n).to_display_string());
        })
        .unwrap();
    // Sequence display: the host reads the stable header `[len][cap][data_ptr]` and the element
    // buffer out of the module's exported linear memory, and formats `[e0, e1, …]` exactly as the
    // tree-walker's `RuntimeValue::List` (each element by its scalar display) — zero drift.
    linker
        .func_wrap("env", "print_seq_bool", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32| {
            let t = read_seq(&c, handle, |b| (b[0] != 0).to_string());
            c.data().borrow_mut().push(t);
        })
        .unwrap();
    linker
        .func_wrap("env", "print_seq_i64", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32| {
            let s = read_seq(&c, handle, |b| i64::from_le_bytes(b).to_string());
            c.data().borrow_mut().push(s);
        })
        .unwrap();
    linker
        .func_wrap("env", "print_seq_f64", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32| {
            let s = read_seq(&c, handle, |b| {
                logicaffeine_compile::compile::display_float_like_logos(f64::from_le_bytes(b))
            });
            c.data().borrow_mut().push(s);
        })
        .unwrap();
    linker
        .func_wrap("env", "print_text", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32| {
            let s = read_text(&c, handle);
            c.data().borrow_mut().push(s);
        })
        .unwrap();
    linker
        .func_wrap("env", "print_seq_text", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32| {
            let s = read_seq_text(&c, handle);
            c.data().borrow_mut().push(s);
        })
        .unwrap();
    linker
        .func_wrap("env", "print_set_i64", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32| {
            let s = read_set_i64(&c, handle);
            c.data().borrow_mut().push(s);
        })
        .unwrap();
    linker
        .func_wrap("env", "print_set_text", |c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, handle: i32| {
            let s = read_set_text(&c, handle);
            c.data().borrow_mut().push(s);
        })
        .unwrap();
    // Stringify an Int into a module-provided buffer (exact `to_display_string`), returning the
    // byte length — the host side of `Concat`'s interpolation of an Int operand.
    fn write_bytes(c: &mut wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, buf: i32, bytes: &[u8]) -> i32 {
        if let Some(mem) = c.get_export("memory").and_then(|e| e.into_memory()) {
            let data = mem.data_mut(c);
            let b = buf as usize;
            data[b..b + bytes.len()].copy_from_slice(bytes);
        }
        bytes.len() as i32
    }
    linker
        .func_wrap("env", "fmt_i64_into", |mut c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, buf: i32, val: i64| -> i32 {
            write_bytes(&mut c, buf, RuntimeValue::Int(val).to_display_string().as_bytes())
        })
        .unwrap();
    linker
        .func_wrap("env", "fmt_f64_into", |mut c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, buf: i32, val: wasmi::core::F64| -> i32 {
            let s = logicaffeine_compile::compile::display_float_like_logos(f64::from(val));
            write_bytes(&mut c, buf, s.as_bytes())
        })
        .unwrap();
    linker
        .func_wrap("env", "fmt_bool_into", |mut c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, buf: i32, val: i64| -> i32 {
            write_bytes(&mut c, buf, if val != 0 { b"true" } else { b"false" })
        })
        .unwrap();
    linker
        .func_wrap("env", "fmt_f64_prec_into", |mut c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, buf: i32, val: wasmi::core::F64, prec: i32| -> i32 {
            let s = format!("{:.prec$}", f64::from(val), prec = prec as usize);
            write_bytes(&mut c, buf, s.as_bytes())
        })
        .unwrap();
    // Stringify a whole `Seq of Int` / `Set of Int` into a buffer (`[…]` / `{…}`) — the host side of
    // a collection operand in a `+`/`format`. Reuses the same readers as `print_seq_i64`/`print_set_i64`.
    linker
        .func_wrap("env", "fmt_seq_i64_into", |mut c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, buf: i32, handle: i32| -> i32 {
            let s = read_seq(&c, handle, |b| i64::from_le_bytes(b).to_string());
            write_bytes(&mut c, buf, s.as_bytes())
        })
        .unwrap();
    linker
        .func_wrap("env", "fmt_set_i64_into", |mut c: wasmi::Caller<'_, Rc<RefCell<Vec<String>>>>, buf: i32, handle: i32| -> i32 {
            let s = read_set_i64(&c, handle);
            write_bytes(&mut c, buf, s.as_bytes())
        })
        .unwrap();
    let instance = linker
        .instantiate(&mut store, &m)
        .and_then(|i| i.start(&mut store).map_err(wasmi::Error::from))
        .map_err(|e| format!("does not instantiate: {e}"))?;
    let main = instance.get_typed_func::<(), ()>(&store, "main").map_err(|e| format!("no main: {e}"))?;
    let end = match main.call(&mut store, ()) {
        Ok(()) => End::Done,
        Err(e) if matches!(e.trap_code(), Some(wasmi::core::TrapCode::OutOfFuel)) => End::OutOfFuel,
        Err(e) => End::Trap(format!("{e}")),
    };
    let lines = out.borrow().clone();
    Ok((lines, end))
}
