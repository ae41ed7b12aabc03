#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so that the list is easy to edit."""
import json, os
P=[]
C="crates/logicaffeine_"
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

# ---- execution -------------------------------------------------------------------------------
p("C01","Every execution tier runs a program with the same observable behaviour",
  "For every accepted imperative program, the tree-walking interpreter, the bytecode virtual machine and the virtual machine with its native (just-in-time) tier print the same lines in the same order and end the same way (normal end, or the same runtime error after the same output). The lines are also the ones the language's own rules give: exact integers that grow without bound, 1-based inclusive indexing with negative positions counting from the end, value semantics for copies, short-circuit logic and division that truncates towards zero.",
  ["programs","inputs"],"Any program built from integers (small, at the 64-bit edge, beyond it), booleans, text, floats, lists, maps, sets, structs, enums, functions with recursion, nested loops hot enough to be compiled natively, and runtime errors (bad index, division by zero).",
  "The suite compares tiers on a fixed list of example programs; the property quantifies over all programs, and the native tier only engages on loop shapes and value histories that the list happens to contain.",
  [C+"compile/src/interpreter.rs",C+"compile/src/vm/compiler.rs",C+"compile/src/vm/machine.rs",C+"compile/src/semantics/arith.rs",C+"jit/src/lib.rs",C+"forge/src/jit.rs"],
  [("tree-walking interpreter",C+"compile/src/interpreter.rs"),("bytecode compiler and machine",C+"compile/src/vm"),("native tier with deoptimisation",C+"jit/src/lib.rs"),("shared value semantics",C+"compile/src/semantics")],
  observe="printed lines and final error of a run")
p("C02","Optimisations never change what a program does",
  "For every program that runs to its end without error and every subset of the optimiser's switches, running the optimised program prints the same lines and also ends without error, as with all switches off. This covers partial evaluation, loop transformations, dead-code removal, inlining and equality saturation.",
  ["programs","configurations"],"Any accepted program and any on/off combination of the user-visible optimisation switches, including per-program decorators.",
  "There are dozens of switches, so thousands of combinations per program; tests run a handful of programs under a few fixed configurations.",
  [C+"compile/src/optimize",C+"language/src/optimization.rs",C+"compile/src/compile.rs"],
  [("optimiser pipeline",C+"compile/src/optimize"),("switch registry",C+"language/src/optimization.rs")],observe="printed lines and final error")
p("C03","The direct WebAssembly backend computes what the interpreter computes",
  "For every program over integers, floats, truth values, lists, functions and loops that the direct WebAssembly emitter accepts, the module loads, and running it prints the same lines as the interpreter, or traps where the interpreter reports an error or an integer leaves 64 bits. For programs that also use texts, maps, sets, records and variants, every module that loads does the same.",
  ["programs"],"Any program of the fragment the emitter accepts, including integer edge values, floats, text, lists, loops and recursion.",
  "Tests emit fixed examples; nothing runs randomly composed programs through validation and execution.",
  [C+"compile/src/vm/wasm"],[("bytecode to WebAssembly lowering",C+"compile/src/vm/wasm")],observe="host print calls of the instantiated module")
p("C04","Compiled Rust and C output behave like the interpreter",
  "For every accepted program, the Rust source produced by the ahead-of-time compiler compiles and, when run, prints what the interpreter prints; the same holds for the C source for programs the C backend accepts. Output produced before a runtime error is the same as well.",
  ["programs","configurations"],"Any program of the language's imperative fragment, with optimisations on.",
  "The end-to-end suites compile a fixed list of programs and most of them are not in the stable run; the code generator has many specialisations (peepholes, array fusion, magic division, in-place mutation) whose triggers only meet in composed programs.",
  [C+"compile/src/codegen",C+"compile/src/codegen_c",C+"compile/src/compile.rs",C+"data/src/types.rs"],
  [("Rust code generator and peepholes",C+"compile/src/codegen"),("C code generator",C+"compile/src/codegen_c")],observe="stdout of the compiled binary")
p("C05","Generated machine code equals the micro-operation semantics",
  "For every well-formed micro-operation chain and every initial frame, executing the generated machine code leaves the same frame, result and side-exit as the reference evaluator. This holds for each code generator (stencil chains, register-allocated regions, buffered and vectorised variants).",
  ["programs","inputs"],"All chains of integer, float, compare, branch, loop and array operations over a small frame, and all 64-bit frame contents.",
  "Operand/register/spill combinations are combinatorial, and unit tests fix both the chain and the values.",
  [C+"forge/src/jit.rs",C+"forge/src/regalloc.rs",C+"forge/src/x64asm.rs",C+"forge/src/vectorize.rs"],
  [("stencil linker",C+"forge/src/jit.rs"),("register allocator and encoder",C+"forge/src/regalloc.rs")],observe="return value, frame and exit status of the compiled chain")
# ---- concurrency ---------------------------------------------------------------------------------
p("C06","Seeded concurrent runs are deterministic and schedules only reorder",
  "For every concurrent program and every seed, two runs with that seed have the same trace and result, replaying a recorded trace reproduces the run, and the multi-worker executor gives the same result for every number of workers (and that of the single-threaded one under the fair policies). Under every seed no task is lost, a run ends only when all tasks are finished or none can make progress, and in the latter case a deadlock is reported.",
  ["schedules","programs"],"All task graphs built from spawn, send, receive, select, sleep, abort and await over bounded and rendezvous channels, and all scheduler seeds.",
  "The number of interleavings is exponential; tests run a few seeds on a few fixed programs.",
  [C+"runtime/src/scheduler.rs",C+"runtime/src/executor.rs",C+"runtime/src/channel.rs",C+"runtime/src/seed.rs",C+"compile/src/concurrency/driver.rs"],
  [("seeded cooperative scheduler",C+"runtime/src/scheduler.rs"),("work-stealing executor",C+"runtime/src/executor.rs")],observe="trace, task results, run outcome")
p("C07","Channels are bounded, ordered and lose nothing",
  "On every schedule, the values received from a channel are a prefix of the values sent to it in an order consistent with every sender's own order, each value is received exactly once, and a bounded channel never holds more values than its capacity. A receive on a closed channel still drains what was sent before, and a non-blocking or timed operation that reports failure has no effect.",
  ["schedules","histories"],"All histories of send, receive, try-send, try-receive, select, timeout and close by several tasks over channels of any capacity.",
  "Loss and duplication appear only when close, select wake-ups and blocked senders interleave in particular ways.",
  [C+"runtime/src/channel.rs",C+"runtime/src/scheduler.rs",C+"compile/src/concurrency/channel.rs"],
  [("channel state machine",C+"runtime/src/channel.rs"),("select wake-up",C+"runtime/src/scheduler.rs")],observe="values returned by receives and statuses of sends")
# ---- replicated data --------------------------------------------------------------------------------
p("C08","Replicas that have seen the same updates are equal",
  "For every replicated type and every history of local updates and merges over several replicas, merging is commutative, associative and idempotent, never loses what a replica already knew, and any two replicas that have absorbed the same set of updates show the same value. The value is the one the type promises: exact sums for counters, last writer for registers, add-wins or remove-wins for sets, all concurrent writes for multi-value registers, and every insertion in one agreed order for sequences.",
  ["histories","schedules"],"All interleavings of operations and (repeated, reordered, partial) merges among three or more replicas for counters, registers, sets, maps and sequences.",
  "Convergence is about all merge orders and all concurrent histories; unit tests check two replicas and a few steps.",
  [C+"data/src/crdt"],[("merge functions",C+"data/src/crdt"),("causal context and dots",C+"data/src/crdt/causal"),("sequence CRDTs",C+"data/src/crdt/sequence")],observe="public value of each replica after merges")
p("C09","Delta exchange reaches the same state as full-state merge",
  "For every history, sending only the changes since a peer's version brings the peer to the same value as merging the full state (removals travel by full-state merge), deltas may arrive late, twice or out of order without corrupting the value once all have arrived, and a delta that is refused leaves the state unchanged. When the history needed for a delta has been discarded the request says so instead of returning an incomplete delta.",
  ["histories","fault_sequences"],"All histories of updates and delta exchanges between replicas with bounded delta buffers, duplication, loss and reordering.",
  "Gap detection and buffer eviction only matter on long histories with particular loss patterns.",
  [C+"data/src/crdt/delta.rs",C+"data/src/crdt/delta_buffer.rs",C+"data/src/crdt/orset.rs",C+"data/src/crdt/causal/context.rs"],
  [("delta extraction and application",C+"data/src/crdt/delta.rs"),("bounded delta log",C+"data/src/crdt/delta_buffer.rs")],observe="value after exchanging deltas")
p("C10","Persistent state survives any crash without loss or invention",
  "After a crash at any point, reopening a persistent value yields the state after some prefix of the acknowledged updates, and every update acknowledged before the crash is in that prefix. A torn tail is discarded and a damaged entry is reported as an error, never turned into wrong data, and compaction at any moment changes nothing observable.",
  ["crash_points","fault_sequences","histories"],"All histories of updates, compactions and reopens, and every byte position at which the journal file may be cut or corrupted.",
  "Each history has as many crash points as it has bytes written; tests cut at a few chosen places.",
  [C+"system/src/storage",C+"system/src/fs"],[("append-only journal with checksums",C+"system/src/storage"),("atomic replacement of files",C+"system/src/fs")],state="journal file contents",observe="value after remount")
p("C11","File access stays inside the virtual file system root",
  "For every path string, an operation through the sandboxed file system either refuses the path or touches only files below its root. Reads return exactly the bytes last written, and a replaced file is always either wholly old or wholly new.",
  ["inputs","histories"],"All path strings (parent components, absolute paths, repeated separators, odd characters) and all histories of read, write, append, rename, remove and list.",
  "The set of path spellings is unbounded; tests list a few.",
  [C+"system/src/fs"],[("path resolution",C+"system/src/fs")],observe="files outside the root and returned bytes")
# ---- wire ---------------------------------------------------------------------------------------------
p("C12","Every value survives the wire unchanged under every encoding choice",
  "For every sendable value and every combination of the sender's encoding options (number layout, compression, shared-structure, schema and integrity options), decoding what was encoded gives back an equal value with the same type. Messages and streams split at any byte boundary decode to the same sequence of values.",
  ["inputs","configurations"],"All values (all integers and exact numbers, floats bit for bit, text, nested lists, maps, sets, structs, enums, times) and all encoder configurations.",
  "The codec chooses among dozens of column layouts by inspecting the data, so each layout is reached only by data of a certain shape combined with certain options.",
  [C+"compile/src/concurrency/marshal.rs",C+"compile/src/concurrency/stream.rs",C+"compile/src/concurrency/net_inbox.rs"],
  [("self-describing value codec",C+"compile/src/concurrency/marshal.rs"),("stream framing",C+"compile/src/concurrency/stream.rs")],observe="decoded value")
p("C13","Malformed input from a peer is rejected, never fatal",
  "For every byte string, decoding it as a message, a frame stream or any of the other received forms returns a value or an error without a crash, and what is accepted keeps to the size, depth and element limits the receiver has set. A message whose integrity tag does not match is not accepted.",
  ["inputs","fault_sequences"],"All byte strings, in particular valid encodings with flipped, inserted, deleted or truncated bytes.",
  "Hostile inputs are unbounded; the existing mutation tests cover a handful of seeds.",
  [C+"compile/src/concurrency/marshal.rs",C+"base/src/describe.rs",C+"data/src/wire.rs"],
  [("value decoder",C+"compile/src/concurrency/marshal.rs"),("description decoder",C+"base/src/describe.rs")],observe="decoder return value and memory use")
p("C14","Erasure coding recovers the data from any sufficient subset",
  "For every message and every choice of parity, the original bytes are recovered exactly from any subset of shards that is large enough, whatever the order or duplication of arrival, and an insufficient or inconsistent subset is reported rather than decoded to different bytes.",
  ["inputs","fault_sequences"],"All payloads, shard counts and loss patterns.",
  "The number of loss patterns is exponential in the number of shards.",
  [C+"compile/src/concurrency/fec.rs"],[("Reed-Solomon over a finite field",C+"compile/src/concurrency/fec.rs")],observe="recovered bytes")
# ---- base values ----------------------------------------------------------------------------------------
p("C15","Numbers are exact",
  "For all operands, integers, rationals, decimals, complex and modular numbers obey their mathematical definitions exactly: no overflow, no rounding except where a rounding rule is stated, correct comparison and hashing across representations, and parsing and printing are inverse.",
  ["inputs"],"All operands, in particular those at representation boundaries (64-bit edge, limb boundaries, huge operands, negative divisors).",
  "Arbitrary precision means infinitely many operands; carries and normalisation fail only on particular limb patterns.",
  [C+"base/src/numeric.rs"],[("arbitrary-precision integers",C+"base/src/numeric.rs"),("rationals, decimals, complex, modular",C+"base/src/numeric.rs")],observe="results of public operations")
p("C16","Fixed-width words and lanes wrap, shift and compare as their width says",
  "For all operands and shift amounts, every fixed-width word operation equals the operation on integers modulo two to the width (with the signed or unsigned reading the operation names), and every multi-lane operation equals the same operation on each lane.",
  ["inputs"],"All words of every supported width, all shift/rotate amounts, all lane vectors; native and portable implementations.",
  "Unit tests sample a few values per operation.",
  [C+"base/src/word.rs",C+"base/src/sha_ops.rs"],[("word arithmetic",C+"base/src/word.rs"),("vector lanes",C+"base/src/word.rs")],observe="results of public operations")
p("C17","Dates, durations and time zones follow the calendar",
  "For every instant and every supported zone, converting between instants and calendar fields is exact and inverse, adding and subtracting months, days and durations follows the proleptic Gregorian calendar, week and weekday numbers match ISO 8601, and printing then parsing gives the same value.",
  ["inputs"],"All representable dates and instants including negative years, leap years, month ends, leap days and offset changes.",
  "The domain spans hundreds of thousands of years; tests sample well-known dates.",
  [C+"base/src/temporal.rs",C+"compile/src/semantics/temporal.rs",C+"system/src/temporal.rs"],
  [("civil calendar conversion",C+"base/src/temporal.rs")],observe="results of public conversions")
p("C18","Units, money and identifiers compute exactly",
  "For all values, quantity arithmetic respects dimensions (adding incompatible dimensions is refused, multiplying adds exponents) and conversion between units is exact and invertible; money never loses or creates minor units when added or rounded and never mixes currencies silently; identifiers print, parse and derive according to their standard.",
  ["inputs"],"All quantities, dimension exponents, currencies, amounts and identifier byte strings.",
  "Exactness is claimed for all values, tests use tables of examples.",
  [C+"base/src/quantity.rs",C+"base/src/dimension.rs",C+"base/src/money.rs",C+"base/src/uuid.rs",C+"base/src/hash.rs"],
  [("unit conversion",C+"base/src/quantity.rs"),("money allocation",C+"base/src/money.rs"),("identifier derivation",C+"base/src/uuid.rs")],observe="results of public operations")
p("C19","Sequence descriptions decode to exactly the described sequence",
  "For every integer sequence, the compact description decodes to that exact sequence, is the same on every run, and is never larger than the plain encoding by more than its stated header.",
  ["inputs"],"All integer sequences: constant, arithmetic, polynomial, periodic, recurrent, near-misses of each and random.",
  "The describer guesses a generating rule; a wrong guess only shows on a sequence that fits the rule up to the last element.",
  [C+"base/src/describe.rs"],[("rule discovery and codec",C+"base/src/describe.rs")],observe="decoded sequence")
p("C20","Built-in collections behave like sets, maps and lists",
  "For every sequence of operations, the specialised collections used by compiled programs give the same answers as a plain reference map, set or list: insertion, lookup, removal, iteration order where promised, bulk operations, slices, and copies that do not alias.",
  ["histories"],"All operation histories, including key patterns that collide, grow, and delete during probing, and negative, extreme and duplicate keys.",
  "Open addressing bugs need particular insertion/removal histories around growth.",
  [C+"data/src/types.rs",C+"data/src/indexing.rs",C+"data/src/ops.rs"],[("hash maps specialised by key",C+"data/src/types.rs"),("1-based indexing",C+"data/src/indexing.rs")],observe="return values and contents")
# ---- logic ------------------------------------------------------------------------------------------------
p("C21","The proof kernel never certifies a false statement",
  "Whatever term is offered, the kernel accepts it only with a type it really has: the independent re-checker agrees, evaluation preserves type and value, and no closed proof of falsehood is accepted. Definitions that would break this (non-terminating recursion, non-positive inductive types, universe inconsistencies) are refused.",
  ["inputs","programs"],"All terms and declarations, well-typed, ill-typed and mutated.",
  "Soundness is a statement about all terms; tests contain known good and known bad ones.",
  [C+"kernel/src/type_checker.rs",C+"kernel/src/reduction.rs",C+"kernel/src/recheck.rs",C+"kernel/src/positivity.rs",C+"kernel/src/termination.rs"],
  [("type checker",C+"kernel/src/type_checker.rs"),("independent re-checker",C+"kernel/src/recheck.rs"),("positivity and termination gates",C+"kernel/src/positivity.rs")],observe="accept/refuse verdict and inferred type")
p("C22","Decision procedures only answer what is true",
  "For every problem, when an arithmetic, congruence, ring, simplification or bit-vector decision procedure says a goal is proved or a system is infeasible, no assignment contradicts it; procedures documented as complete on a fragment also find every proof in that fragment.",
  ["inputs"],"All linear systems, polynomial identities, ground equalities and bit-vector goals over small and extreme coefficients.",
  "An unsound step shows only for particular coefficient patterns; tests check a list of theorems and non-theorems.",
  [C+"kernel/src/ring.rs",C+"kernel/src/lia.rs",C+"kernel/src/omega.rs",C+"kernel/src/cc.rs",C+"kernel/src/simp.rs",C+"kernel/src/bitvector.rs"],
  [("linear arithmetic",C+"kernel/src/lia.rs"),("integer arithmetic",C+"kernel/src/omega.rs"),("congruence closure",C+"kernel/src/cc.rs"),("commutative rings",C+"kernel/src/ring.rs")],observe="verdicts")
p("C23","Satisfiability verdicts are right and their certificates check",
  "For every formula, an answer of satisfiable comes with an assignment that satisfies it, an answer of unsatisfiable is true and its emitted proof is accepted by an independent checker, and every specialised solver agrees with the general one. The command-line solver reports the same verdict in its exit status and output.",
  ["inputs"],"All propositional, cardinality, parity, pseudo-boolean and structured formulas.",
  "Learning, restarts, symmetry and preprocessing interact; a wrong clause appears only on particular formulas.",
  [C+"proof/src/cdcl.rs",C+"proof/src/solve.rs",C+"proof/src/sat.rs",C+"proof/src/rup.rs",C+"proof/src/dimacs.rs",C+"proof/src/twosat.rs",C+"proof/src/hornsat.rs",C+"proof/src/xorsat.rs"],
  [("clause-learning solver",C+"proof/src/cdcl.rs"),("portfolio dispatcher",C+"proof/src/solve.rs"),("proof emission",C+"proof/src/proof_emit.rs")],observe="verdict, model and proof text")
p("C24","A theorem reported as proved follows from its premises",
  "For every set of premises and goal, if the prover reports the goal proved then no finite interpretation makes the premises true and the goal false, and the certificate it returns is accepted by the kernel. The verdict does not depend on the order of the premises or on the names of bound variables.",
  ["inputs"],"All first-order problems over small signatures, including provable ones, refutable ones and near-misses.",
  "Soundness ranges over all problems; tests list classical theorems.",
  [C+"proof/src/engine.rs",C+"proof/src/verify.rs",C+"proof/src/certifier.rs",C+"proof/src/unify.rs",C+"proof/src/grounding.rs"],
  [("backward-chaining prover",C+"proof/src/engine.rs"),("certification",C+"proof/src/certifier.rs"),("unification",C+"proof/src/unify.rs")],observe="verdict and certificate")
p("C25","Model checking verdicts match the reachable states",
  "For every finite transition system and property, a safety proof means no reachable state violates the property, and a reported counterexample is a real execution that violates it. Every engine (bounded, inductive, incremental, interpolation-based) gives verdicts consistent with exhaustive exploration.",
  ["inputs","programs"],"All small transition systems, initial conditions, properties and bounds.",
  "Off-by-one unrolling and missing frame conditions show only on systems of a certain depth.",
  [C+"proof/src/bmc.rs",C+"verify/src/ic3.rs",C+"verify/src/kinduction.rs",C+"verify/src/interpolation.rs",C+"verify/src/liveness.rs"],
  [("bounded model checking",C+"proof/src/bmc.rs"),("inductive engines",C+"verify/src/ic3.rs")],observe="verdict and trace")
p("C26","Solver-backed verification answers are semantically right",
  "For every expression of the verification language, an answer of valid, equivalent, consistent or entailed is true for all assignments, and any counterexample or witness returned evaluates as claimed. Hardware properties rendered to the assertion language and parsed back mean the same.",
  ["inputs"],"All boolean, integer and bit-vector expressions of the verification intermediate language and all temporal properties up to a bound.",
  "Encoding slips (signedness, width, operand order) need particular operators and values.",
  [C+"verify/src/solver.rs",C+"verify/src/equivalence.rs",C+"verify/src/consistency.rs",C+"compile/src/codegen_sva"],
  [("encoding to the solver",C+"verify/src/solver.rs"),("equivalence checking",C+"verify/src/equivalence.rs"),("assertion rendering and parsing",C+"compile/src/codegen_sva")],observe="verdicts and counterexamples")
# ---- language --------------------------------------------------------------------------------------------
p("C27","English sentences get the truth conditions they state",
  "For every sentence of the controlled fragment (quantified subjects and objects, negation, connectives, relative clauses, conditionals), the produced logical form is true in exactly the situations the sentence describes. No word of the sentence is silently dropped, and translating the same text twice gives the same result.",
  ["inputs"],"All sentences composed from the fragment's grammar, and all small situations.",
  "Tests compare strings for listed sentences; scope, negation placement and dropped modifiers arise from combinations.",
  [C+"language/src/parser",C+"language/src/lexer.rs",C+"language/src/transpile.rs",C+"language/src/compile.rs"],
  [("parser and logical form construction",C+"language/src/parser"),("rendering",C+"language/src/transpile.rs")],observe="logical form text and proof expression")
p("C28","No input text crashes the front end",
  "For every input text, tokenising, parsing, translating, compiling, formatting, explaining and interactive evaluation return a result or a readable error whose positions lie inside the text, without a crash or stack overflow.",
  ["inputs"],"All strings: arbitrary Unicode, truncated and mutated programs, deeply nested expressions.",
  "The input space is all text; tests feed well-formed programs and chosen errors.",
  [C+"language/src/lexer.rs",C+"language/src/parser",C+"compile/src/compile.rs",C+"language/src/error.rs"],
  [("lexer",C+"language/src/lexer.rs"),("parser",C+"language/src/parser"),("nesting limit",C+"language/src/ast_depth.rs")],observe="returned result or error")
p("C29","Formatting preserves meaning and is stable",
  "For every source text the formatter accepts, formatting does not change the program's tokens or behaviour, formatting twice equals formatting once, and a formatted program that was accepted stays accepted.",
  ["inputs","programs"],"All programs and all layouts of them (indentation, blank lines, comments, trailing spaces).",
  "Layout combinations are unbounded.",
  [C+"language/src/source_format.rs",C+"lsp/src/formatting.rs"],[("source formatter",C+"language/src/source_format.rs")],observe="formatted text and its behaviour")
p("C30","Editor state mirrors the text after any edits",
  "After every sequence of incremental edits, the server's document equals the text the edits describe, position conversion between editor units and bytes is inverse and never splits a character, incremental results (tokens, symbols, diagnostics) equal those computed from scratch, and renaming changes all and only the occurrences of the symbol.",
  ["histories","inputs"],"All edit sequences on all Unicode texts, including multi-byte and surrogate-pair characters and every line ending.",
  "Edits compose into unboundedly many histories; tests apply one or two.",
  [C+"lsp/src/document.rs",C+"lsp/src/line_index.rs",C+"lsp/src/semantic_tokens.rs",C+"lsp/src/rename.rs"],
  [("incremental document",C+"lsp/src/document.rs"),("position mapping",C+"lsp/src/line_index.rs"),("token deltas",C+"lsp/src/semantic_tokens.rs")],observe="document text and responses")
# ---- crypto and tools ---------------------------------------------------------------------------------------
p("C31","Cryptographic primitives match their standards and reject tampering",
  "For all keys, nonces and messages, hashes, ciphers, key encapsulation and signatures produce the outputs their standards define, decryption inverts encryption, verification accepts exactly what was signed, and any change to a ciphertext, tag, nonce, signature or message is rejected.",
  ["inputs","fault_sequences"],"All message lengths including block boundaries, all keys, all single-bit corruptions.",
  "Padding and carry errors need particular lengths and values; known-answer tests cover a few.",
  [C+"system/src/keccak.rs",C+"system/src/aead.rs",C+"system/src/mlkem.rs",C+"system/src/mldsa.rs",C+"system/src/ntt.rs",C+"base/src/hash.rs"],
  [("sponge hashes",C+"system/src/keccak.rs"),("authenticated encryption",C+"system/src/aead.rs"),("lattice schemes",C+"system/src/mlkem.rs")],observe="outputs and accept/reject")
p("C32","Debugging and interactive sessions replay the real program",
  "For every program, stepping it in the debugger to the end prints what a plain run prints, stepping back and forward again reproduces the same states, and breakpoints stop without changing the outcome. In an interactive session, entering a program piece by piece gives the same output as running it whole, and a rejected entry changes nothing.",
  ["programs","histories"],"All programs and all interleavings of step, step back, continue and breakpoint commands; all ways to split a program into session entries.",
  "Command histories are unbounded.",
  [C+"compile/src/debug.rs",C+"compile/src/repl.rs"],[("time-travel debugger",C+"compile/src/debug.rs"),("session replay",C+"compile/src/repl.rs")],observe="states, output")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
