//! C01: every engine gives a program the same observable result.
//! C02: no optimisation changes that result.

use crate::progen::{self, Opts, Prog, Ref, Stop};
use logicaffeine_compile::compile::*;
use logicaffeine_compile::optimization::{decorate_source, Tier, REGISTRY};
use vcore::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub text: String,
    pub error: Option<String>,
}

pub fn norm(o: RunOutcome) -> Out {
    Out { text: o.output.trim_end_matches('\n').to_string(), error: o.error }
}

pub fn describe(o: &Out) -> String {
    format!("output {:?} error {:?}", clip(&o.text, 700), o.error)
}

pub fn against_reference(r: &Ref, o: &Out, who: &str, src: &str) -> R {
    let want = r.lines.join("\n").trim_end_matches('\n').to_string();
    match &r.stop {
        None => {
            ensure!(o.error.is_none(), "[{who}: error] {}\nexpected output {:?}\n{src}", describe(o), clip(&want, 700));
        }
        Some(Stop::Error(k)) => {
            ensure!(o.error.is_some(), "[{who}: no error] {k} must fail: {}\n{src}", describe(o));
        }
        _ => return Ok(()),
    }
    ensure!(o.text == want, "[{who}: output] printed\n{}\nexpected\n{}\n{src}", clip(&o.text, 1500), clip(&want, 1500));
    Ok(())
}

/// Generates a program and evaluates it here; `None` when the case is to be skipped.
pub fn program(s: &mut Src, c: &mut Ctx, o: Opts) -> Option<(Prog, String, Ref)> {
    let p = progen::generate(s, o);
    let src = progen::print(&p);
    let r = progen::reference(&p, 60_000);
    c.show(src.clone());
    if std::env::var_os("H_DUMP").is_some() {
        eprintln!("{src}");
    }
    // Past the reference's knowledge the amount of work is unknown too.
    if matches!(r.stop, Some(Stop::Budget | Stop::Unknown)) {
        c.class(if r.stop == Some(Stop::Budget) { "over budget" } else { "outside the reference" });
        c.nontrivial(false);
        return None;
    }
    c.class(match &r.stop {
        None => "runs to the end",
        _ => "runtime error",
    });
    if r.big {
        c.class("integers past 64 bits");
    }
    c.nontrivial(r.steps > 20 && !r.lines.is_empty());
    Some((p, src, r))
}

fn engines(s: &mut Src, c: &mut Ctx, o: Opts) -> R {
    let Some((_, src, r)) = program(s, c, o) else { return Ok(()) };
    let t = logicaffeine_jit::ForgeTier::new();
    let all = [
        ("tree walker", norm(tw_outcome(&src))),
        ("bytecode", norm(vm_outcome(&src))),
        ("native", norm(vm_outcome_with_args(&src, &[], Some(&t)))),
    ];
    if t.region_counts().0 + t.function_counts().0 > 0 {
        c.class("native code compiled");
    }
    for (n, out) in &all {
        against_reference(&r, out, n, &src)?;
    }
    let (n0, first) = &all[0];
    for (n, out) in &all[1..] {
        ensure!(out == first, "[{n} against {n0}]\n{n0}: {}\n{n}: {}\n{src}", describe(first), describe(out));
    }
    Ok(())
}

pub fn c01() -> Suite {
    let mut su = Suite::new("C01", "the program runs past 20 evaluation steps, prints something, and the reference evaluator defines its whole result");
    su.prop("programs", 8000, 100000, |s, c| engines(s, c, Opts::full()));
    su.prop("hot loops", 6000, 80000, |s, c| engines(s, c, Opts { hot: true, ..Opts::full() }));
    su.prop("integer edges", 4000, 40000, |s, c| {
        engines(s, c, Opts { hot: true, edges: 35, text: false, structs: false, closures: false, risky: 6, ..Opts::full() })
    });
    su
}

// ------------------------------------------------------------------ optimiser

/// The ahead-of-time pipeline's program, run as bytecode.
fn aot_program(src: &str) -> Out {
    logicaffeine_compile::ui_bridge::with_v2_optimized_program(src, |parsed, interner| match parsed {
        Ok((stmts, types, policies)) => {
            let (output, error) = logicaffeine_compile::vm::run_to_outcome(stmts, interner, Some(types), Some(&policies));
            Out { text: output.trim_end_matches('\n').to_string(), error }
        }
        Err(e) => Out { text: String::new(), error: Some(e) },
    })
}

fn optimised(s: &mut Src, c: &mut Ctx, o: Opts) -> R {
    let Some((_, src, r)) = program(s, c, o) else { return Ok(()) };
    if r.stop.is_some() {
        // An optimiser may drop or move a failing computation.
        c.nontrivial(false);
        return Ok(());
    }
    let plain = norm(vm_outcome(&src));
    let mut runs: Vec<(String, Out)> = vec![];
    for (n, tier) in [("tier 1", Tier::T1), ("tier 2", Tier::T2), ("tier 3", Tier::T3)] {
        let t = logicaffeine_jit::ForgeTier::new();
        let native = o.hot && tier == Tier::T3;
        let out = norm(vm_outcome_tiered(&src, &[], tier, if native { Some(&t) } else { None }));
        runs.push((n.to_string(), out));
    }
    // Writes through two positions are only meaningful to the code generators there.
    if !src.lines().any(|l| l.trim_start().starts_with("Set item") && l.contains(" of item ")) {
        runs.push(("ahead of time".to_string(), aot_program(&src)));
    }
    // A random subset of the switches off.
    let off: Vec<&str> = REGISTRY.iter().map(|m| m.keyword).filter(|_| s.chance(1, 3)).collect();
    let deco = decorate_source(&src, &off);
    let out = norm(vm_outcome_tiered(&deco, &[], Tier::T3, None));
    runs.push(("switches".to_string(), out));
    for (n, out) in &runs {
        against_reference(&r, out, n, &src)?;
        ensure!(out == &plain, "[{n}: differs] unoptimised: {}\n{n} (switched off: {off:?}): {}\n{src}", describe(&plain), describe(out));
    }
    Ok(())
}

fn same_at(tier: Tier, src: &str) -> R {
    let plain = norm(vm_outcome(src));
    let out = norm(vm_outcome_tiered(src, &[], tier, None));
    ensure!(out == plain, "unoptimised {} optimised {}", describe(&plain), describe(&out));
    Ok(())
}

pub fn c02() -> Suite {
    let mut su = Suite::new("C02", "the program runs past 20 evaluation steps, prints something, and the reference evaluator defines its whole result");
    su.assume("the program completes without error: an optimiser may drop or move a failing computation");
    su.assume("texts and floats are not combined with integer zeros, and inner blocks do not reuse an outer name; see known_findings.txt");
    su.known("text-plus-zero", || same_at(Tier::T3, "## Main\nLet t be \"a\".\nShow t + 0.\n"));
    su.known("zero-times-float", || same_at(Tier::T3, "## Main\nLet f be 2.5 - 5.0.\nShow 0 * f.\n"));
    su.known("inner-name", || {
        let src = "## Main\nLet mutable v1 be 0.\nLet mutable i2 be 0.\nWhile i2 <= 109:\n    Repeat for i3 from 0 to 0:\n        Let v4 be 0.\n    Set i2 to i2 + 1.\nIf false and false:\n    Let v6 be false and false.\nelif not (0 > i2):\n    Let v1 be 7 / 2.\nShow v1.\n";
        let plain = norm(vm_outcome(src));
        let out = aot_program(src);
        ensure!(out == plain, "unoptimised {} ahead of time {}", describe(&plain), describe(&out));
        Ok(())
    });
    su.prop("programs", 4000, 60000, |s, c| optimised(s, c, Opts { mixed: false, shadow: false, risky: 0, ..Opts::full() }));
    su.prop("hot loops", 3000, 40000, |s, c| optimised(s, c, Opts { hot: true, mixed: false, shadow: false, risky: 0, ..Opts::full() }));
    su
}
