mod fec;
mod hostile;
mod progen;
mod tiers;
mod wasm;
mod wasm_host;
mod wire;

#[global_allocator]
static METER: hostile::Meter = hostile::Meter;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "tiers").unwrap_or(false) {
        return explore(&a);
    }
    vcore::main_with(vec![tiers::c01(), tiers::c02(), wasm::c03(), fec::c14(), wire::c12(), hostile::c13()]);
}

/// Runs one source file on every engine (for writing and checking expectations by hand).
fn explore(a: &[String]) {
    use logicaffeine_compile::compile::*;
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let p = |n: &str, o: RunOutcome| println!("--- {n}\n{}\n[{:?}]", o.output, o.error);
    p("tw", tw_outcome(&src));
    p("vm", vm_outcome(&src));
    let t = logicaffeine_jit::ForgeTier::new();
    p("jit", vm_outcome_with_args(&src, &[], Some(&t)));
    println!("fn {:?} regions {:?} stats {:?}", t.function_counts(), t.region_counts(), t.runtime_stats());
    let t = logicaffeine_jit::ForgeTier::new();
    p("t3", vm_outcome_tiered(&src, &[], logicaffeine_compile::optimization::Tier::T3, Some(&t)));
    let r = logicaffeine_compile::interpret_for_ui_sync(&src);
    println!("--- ui\n{}\n[{:?}]", r.lines.join("\n"), r.error);
    match compile_to_wasm(&src) {
        Ok(b) => println!("--- wasm {} bytes", b.len()),
        Err(e) => println!("--- wasm {e:?}"),
    }
    if a.len() > 3 {
        match compile_to_c(&src) {
            Ok(b) => println!("--- C\n{b}"),
            Err(e) => println!("--- C {e:?}"),
        }
        match logicaffeine_compile::compile_to_rust(&src) {
            Ok(b) => println!("--- rust\n{b}"),
            Err(e) => println!("--- rust {e:?}"),
        }
    }
}
