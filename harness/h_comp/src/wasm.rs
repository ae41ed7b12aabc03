//! C03: the WebAssembly module of a program prints what the interpreter prints.

use crate::progen::{Opts, Stop};
use crate::tiers::{program, norm, describe};
use crate::wasm_host::{run, End};
use logicaffeine_compile::compile::*;
use vcore::*;

fn module(s: &mut Src, c: &mut Ctx, o: Opts, must_load: bool) -> R {
    let Some((_, src, r)) = program(s, c, o) else { return Ok(()) };
    let bytes = match compile_to_wasm(&src) {
        Ok(b) => b,
        Err(e) => {
            c.class(&format!("declined: {}", clip(&format!("{e:?}"), 60)));
            c.nontrivial(false);
            return Ok(());
        }
    };
    c.class("emitted");
    let (lines, end) = match run(&bytes, 50_000_000) {
        Ok(x) => x,
        Err(_) if !must_load => {
            c.class("not loadable");
            c.nontrivial(false);
            return Ok(());
        }
        Err(e) => return fail(format!("[module] {e}\n{src}")),
    };
    let got = lines.join("\n");
    let want = r.lines.join("\n");
    match end {
        End::Done => {
            ensure!(r.stop.is_none(), "[no trap] the interpreter stops with {:?}, the module ends normally\n{got}\n{src}", r.stop);
            ensure!(got == want, "[output] printed\n{got}\nexpected\n{want}\n{src}");
        }
        End::Trap(t) => {
            // Integers past 64 bits stop a module that does not carry the big-number runtime.
            ensure!(r.stop.is_some() || r.big, "[trap] {t} after\n{got}\nexpected\n{want}\n{src}");
            ensure!(want.starts_with(&got), "[output before the trap] printed\n{got}\nexpected\n{want}\n{src}");
            if !r.big {
                ensure!(got == want, "[trap too early] printed\n{got}\nexpected\n{want}\n{src}");
            }
            c.class("trap");
        }
        End::OutOfFuel => return fail(format!("[endless] the module runs far past the interpreter's end\n{got}\nexpected\n{want}\n{src}")),
    }
    if let (None, o) = (&r.stop, norm(vm_outcome(&src))) {
        ensure!(o.error.is_none(), "[bytecode] {}", describe(&o));
    }
    let _ = Stop::Budget;
    Ok(())
}

fn prints(src: &str, want: &str) -> R {
    let bytes = compile_to_wasm(src).map_err(|e| Fail { msg: format!("{e:?}") })?;
    match run(&bytes, 50_000_000) {
        Ok((lines, End::Done)) if lines.join("\n") == want => Ok(()),
        Ok((lines, _)) => fail(format!("stopped after {lines:?}")),
        Err(e) => fail(e),
    }
}

pub fn c03() -> Suite {
    let mut su = Suite::new("C03", "the emitter accepts the program, which runs past 20 evaluation steps and prints something");
    su.assume("a recursive call is not an operand of the returned value, and no loop runs over a fresh empty list; see known_findings.txt");
    su.known("pending-product", || prints("## To f (n: Int, a: Int) -> Int:\n    If n <= 0:\n        Return 0 * a.\n    Otherwise:\n        Return f(n - 1, (1 shifted left by 9) % 10007) * a.\n\n## Main\nShow f(8, 7).\n", "0"));
    su.known("empty-list-loop", || prints("## Main\nLet mutable xs be a new Seq of Float.\nPush 1.5 to xs.\nRepeat for x in (a new Seq of Float):\n    Let b be xs contains x.\nShow 1.\n", "1"));
    su.prop("programs", 6000, 100000, |s, c| module(s, c, Opts { mixed: false, shadow: false, text: false, maps: false, structs: false, closures: false, nested: false, interp: false, pending: false, ..Opts::full() }, true));
    su.prop("wide", 6000, 60000, |s, c| module(s, c, Opts { mixed: false, shadow: false, pending: false, closures: false, interp: false, nested: false, ..Opts::full() }, false));
    su
}
