//! C06 and C07: the task scheduler, its channels and the multi-worker executor.
use logicaffeine_runtime::scheduler::{SchedSnapshot, TaskStateKind};
use logicaffeine_runtime::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vcore::*;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Yield,
    Send(usize),
    TrySend(usize),
    Recv(usize),
    TryRecv(usize),
    Select(Vec<Arm>),
    Sleep(u64),
    Spawn(usize),
    Await(usize),
    Abort(usize),
    Close(usize),
    NewChan(Option<usize>),
    Io,
}
#[derive(Clone, Debug, PartialEq)]
enum Arm {
    R(usize),
    T(u64),
}

/// One script per task; script 0 is the main task and makes the channels first.
#[derive(Clone, Debug)]
struct Prog {
    caps: Vec<Option<usize>>,
    made_by_main: bool,
    scripts: Vec<Vec<Op>>,
    prio: Vec<u8>,
}

impl Prog {
    fn text(&self) -> String {
        let caps: Vec<String> = self.caps.iter().map(|c| c.map_or("inf".into(), |c| c.to_string())).collect();
        format!("caps[{}] {:?}", caps.join(","), self.scripts)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// `script`, position, what was asked for (concrete task for await and abort)
    Issue(usize, usize, Op, Option<TaskId>),
    /// the answer to the last thing the script asked for
    Done(usize, Ans),
    Exit(usize, i64),
}
#[derive(Clone, Debug, PartialEq)]
struct Ans {
    val: RtPayload,
    arm: Option<usize>,
}

struct Script<'p> {
    prog: &'p Prog,
    me: usize,
    pc: usize,
    chans: Vec<ChanId>,
    handles: Vec<TaskId>,
    ws: bool,
    started: bool,
    shared: Option<Rc<RefCell<Vec<Ev>>>>,
    out: Vec<String>,
    acc: i64,
    last: Option<Op>,
}

fn value(script: usize, pc: usize) -> i64 {
    (script as i64) * 1000 + pc as i64
}

impl<'p> Script<'p> {
    fn new(prog: &'p Prog, me: usize, chans: Vec<ChanId>, handles: Vec<TaskId>, ws: bool, shared: Option<Rc<RefCell<Vec<Ev>>>>) -> Self {
        Script { prog, me, pc: 0, chans, handles, ws, started: false, shared, out: vec![], acc: me as i64 + 1, last: None }
    }
    fn ev(&mut self, e: Ev) {
        match &self.shared {
            Some(l) => l.borrow_mut().push(e),
            None => self.out.push(format!("{e:?}")),
        }
    }
}

impl<'p> Task<'p> for Script<'p> {
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'p> {
        if self.started {
            if let Some(c) = ctx.new_chan {
                self.chans.push(c);
            }
            if let Some(t) = ctx.spawned {
                self.handles.push(t);
            }
            let val = ctx.resumed_with.clone();
            if let RtPayload::Int(v) = val {
                self.acc = self.acc.wrapping_mul(1_000_003).wrapping_add(v);
            }
            self.acc = self.acc.wrapping_mul(31).wrapping_add(ctx.selected_arm.map_or(-1, |a| a as i64));
            let a = Ans { val, arm: ctx.selected_arm };
            self.ev(Ev::Done(self.me, a));
        }
        self.started = true;
        loop {
            let pc = self.pc;
            let Some(op) = self.prog.scripts[self.me].get(pc).cloned() else {
                self.ev(Ev::Exit(self.me, self.acc));
                return TaskStep::Exit(RtPayload::Int(self.acc));
            };
            self.pc += 1;
            let mut target = None;
            if let Op::Await(k) | Op::Abort(k) = op {
                if self.handles.is_empty() {
                    continue;
                }
                target = Some(self.handles[k % self.handles.len()]);
            }
            self.ev(Ev::Issue(self.me, pc, op.clone(), target));
            self.last = Some(op.clone());
            let v = RtPayload::Int(value(self.me, pc));
            return match op {
                Op::Yield => TaskStep::Yield,
                Op::Send(c) => TaskStep::Send(self.chans[c], v),
                Op::TrySend(c) => TaskStep::TrySend(self.chans[c], v),
                Op::Recv(c) => TaskStep::Recv(self.chans[c]),
                Op::TryRecv(c) => TaskStep::TryRecv(self.chans[c]),
                Op::Select(arms) => TaskStep::Select(arms.iter().map(|a| match a { Arm::R(c) => SelectArm::Recv(self.chans[*c]), Arm::T(d) => SelectArm::Timeout(*d) }).collect()),
                Op::Sleep(d) => TaskStep::Sleep(d),
                Op::Spawn(i) => {
                    if self.ws {
                        let mut args: Vec<RtPayload> = self.chans.iter().map(|c| RtPayload::Int(c.0 as i64)).collect();
                        args.push(RtPayload::Nothing);
                        args.extend(self.handles.iter().map(|t| RtPayload::Int(t.0 as i64)));
                        TaskStep::SpawnDesc { func: i as u16, args, want_handle: true }
                    } else {
                        TaskStep::Spawn(Box::new(Script::new(self.prog, i, self.chans.clone(), self.handles.clone(), false, self.shared.clone())))
                    }
                }
                Op::Await(_) => TaskStep::Await(target.unwrap()),
                Op::Abort(_) => TaskStep::Abort(target.unwrap()),
                Op::Close(c) => TaskStep::Close(self.chans[c]),
                Op::NewChan(cap) => TaskStep::NewChan(cap),
                Op::Io => TaskStep::IoPending,
            };
        }
    }
    fn priority(&self) -> u8 {
        self.prog.prio[self.me]
    }
    fn take_output(&mut self) -> Vec<String> {
        std::mem::take(&mut self.out)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mix {
    /// everything the multi-worker executor supports
    All,
    /// everything, with external waits and pre-made unbounded channels
    Coop,
    /// channel traffic only: no abort
    Traffic,
    /// one sender and one receiver per channel, blocking operations only
    Kahn,
}

fn gen_prog(s: &mut Src, mix: Mix, big: bool) -> Prog {
    let nch = s.usize(1, 4);
    let made_by_main = mix != Mix::Coop && mix != Mix::Traffic || s.flip();
    let mut caps: Vec<Option<usize>> = vec![];
    for _ in 0..nch {
        let c = *s.pick(&[0usize, 0, 1, 1, 2, 3, 5]);
        let inf = s.chance(1, 8);
        caps.push(if inf && !made_by_main { None } else { Some(c) });
    }
    let nt = s.usize(2, if big { 8 } else { 6 });
    let mut scripts: Vec<Vec<Op>> = vec![vec![]; nt];
    // channel ownership for Kahn networks
    let ends: Vec<(usize, usize)> = (0..nch).map(|_| (s.usize(0, nt - 1), s.usize(0, nt - 1))).collect();
    let spread = s.usize(0, 2);
    for (i, sc) in scripts.iter_mut().enumerate() {
        let n = s.usize(1, if big { 14 } else { 9 });
        // a task leans to sending, receiving or both
        let lean = s.below(3);
        for _ in 0..n {
            let c = s.usize(0, nch - 1);
            let op = if mix == Mix::Kahn {
                let mut o: Vec<Op> = vec![Op::Yield];
                for (c, (a, b)) in ends.iter().enumerate() {
                    if *a == i {
                        o.extend([Op::Send(c), Op::Send(c), Op::Send(c)]);
                    }
                    if *b == i {
                        o.extend([Op::Recv(c), Op::Recv(c), Op::Recv(c)]);
                    }
                }
                o.push(Op::Sleep(s.u64() % 4));
                o.push(Op::Await(s.usize(0, 7)));
                s.pick(&o).clone()
            } else {
                let (ws, wr) = match lean { 0 => (8, 2), 1 => (2, 8), _ => (5, 5) };
                match s.weighted(&[2, ws, ws / 2, wr, wr / 2, wr / 2 + 1, 3, 2, if mix == Mix::Traffic { 0 } else { 2 }, 1, if mix == Mix::Coop { 1 } else { 0 }]) {
                    0 => Op::Yield,
                    1 => Op::Send(c),
                    2 => Op::TrySend(c),
                    3 => Op::Recv(c),
                    4 => Op::TryRecv(c),
                    5 => {
                        let k = s.usize(1, 4);
                        let mut arms: Vec<Arm> = vec![];
                        for _ in 0..k {
                            let c = s.usize(0, nch - 1);
                            let d = s.below(5);
                            arms.push(if s.chance(1, 4) { Arm::T(d) } else { Arm::R(c) });
                        }
                        Op::Select(arms)
                    }
                    6 => Op::Sleep(s.below(6)),
                    7 => Op::Await(s.usize(0, 7)),
                    8 => Op::Abort(s.usize(0, 7)),
                    9 => Op::Close(c),
                    _ => Op::Io,
                }
            };
            sc.push(op);
        }
    }
    // the spawn tree, later tasks under earlier ones
    for i in (1..nt).rev() {
        let parent = match spread { 0 => 0, 1 => s.usize(0, i - 1), _ => if s.chance(2, 3) { 0 } else { i - 1 } };
        let at = if s.chance(2, 3) { 0 } else { s.usize(0, scripts[parent].len()) };
        scripts[parent].insert(at, Op::Spawn(i));
    }
    if made_by_main {
        let makes: Vec<Op> = caps.iter().map(|c| Op::NewChan(*c)).collect();
        scripts[0].splice(0..0, makes);
    }
    let prio = (0..nt).map(|_| s.below(3) as u8).collect();
    Prog { caps, made_by_main, scripts, prio }
}

fn policy(s: &mut Src) -> SchedulePolicy {
    use SchedulePolicy::*;
    *s.pick(&[Fifo, Random, Random, Random, Lifo, RoundRobin, Priority])
}

fn start<'p>(prog: &'p Prog, cfg: SchedulerConfig, ch: Chooser) -> (Scheduler<'p>, Rc<RefCell<Vec<Ev>>>) {
    let log = Rc::new(RefCell::new(vec![]));
    let mut sc = Scheduler::new(cfg, ch);
    let mut chans = vec![];
    if !prog.made_by_main {
        for c in &prog.caps {
            chans.push(sc.new_chan(*c));
        }
    }
    sc.spawn_main(Box::new(Script::new(prog, 0, chans, vec![], false, Some(log.clone()))));
    (sc, log)
}

/// Runs to the end, waking external waits whenever that is all that is left.
fn finish(sc: &mut Scheduler, mut step: impl FnMut(&mut Scheduler) -> Option<RunOutcome>) -> Result<(RunOutcome, usize), Fail> {
    let mut wakes = 0;
    for _ in 0..200_000 {
        match step(sc) {
            Some(RunOutcome::WaitingForIo) => {
                wakes += 1;
                ensure!(sc.wake_io(), "the run waits for outside events but nothing was waiting");
            }
            Some(o) => return Ok((o, wakes)),
            None => {}
        }
    }
    Err(Fail { msg: "the run did not end in 200000 steps".into() })
}

fn whole(prog: &Prog, cfg: SchedulerConfig, ch: Chooser) -> Result<(RunOutcome, Vec<Ev>, SchedSnapshot, SchedTrace), Fail> {
    let (mut sc, log) = start(prog, cfg, ch);
    let (o, _) = finish(&mut sc, |s| Some(s.run()))?;
    let snap = sc.snapshot();
    let evs = log.borrow().clone();
    Ok((o, evs, snap, sc.into_trace()))
}

fn first_diff<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("at {n}: {:?} against {:?}", a.get(n), b.get(n))
}

fn cfg(s: &mut Src) -> SchedulerConfig {
    SchedulerConfig::default().with_policy(policy(s)).with_channel_capacity(s.usize(0, 4))
}

fn repeat(s: &mut Src, c: &mut Ctx) -> R {
    let prog = gen_prog(s, Mix::Coop, c.thorough);
    let cfg = cfg(s);
    let seed = SchedSeed(s.u64_edge());
    c.show(format!("{:?} seed {} {}", cfg.policy, seed.0, clip(&prog.text(), 600)));
    c.class(&format!("{:?}", cfg.policy));
    let (o, evs, snap, tr) = whole(&prog, cfg, Chooser::record(seed))?;
    c.nontrivial(!tr.choices.is_empty() && evs.len() > 20);
    c.class(match o { RunOutcome::Done(_) => "done", _ => "deadlock" });
    let (o2, evs2, snap2, tr2) = whole(&prog, cfg, Chooser::record(seed))?;
    ensure!(evs == evs2, "the same seed ran differently {}\n{}", first_diff(&evs, &evs2), prog.text());
    ensure!(tr == tr2 && o == o2 && snap == snap2, "the same seed ended differently: {o:?} and {o2:?}\n{}", prog.text());
    ensure!(tr.seed == seed, "the trace names seed {:?} instead of {seed:?}", tr.seed);
    let (o3, evs3, snap3, _) = whole(&prog, cfg, Chooser::replay(tr.clone()))?;
    ensure!(evs == evs3 && o == o3 && snap == snap3, "replaying the trace ran differently {}\n{}", first_diff(&evs, &evs3), prog.text());
    // advancing in slices changes nothing
    let (mut sc, log) = start(&prog, cfg, Chooser::record(seed));
    let sizes: Vec<usize> = (0..8).map(|_| s.usize(0, 9)).collect();
    let mut k = 0;
    let (o4, _) = finish(&mut sc, |s| {
        k += 1;
        if sizes.iter().all(|x| *x == 0) { s.poll_once() } else { s.run_slice(sizes[k % 8]) }
    })?;
    ensure!(*log.borrow() == evs && o4 == o, "advancing in slices ran differently {}\n{}", first_diff(&evs, &log.borrow()), prog.text());
    ensure!(sc.snapshot() == snap, "advancing in slices ended in another state\n{}", prog.text());
    ensure!(sc.into_trace() == tr, "advancing in slices left another trace\n{}", prog.text());
    Ok(())
}

fn workers(s: &mut Src, c: &mut Ctx) -> R {
    let prog = gen_prog(s, Mix::All, c.thorough);
    let cfg = cfg(s);
    let seed = SchedSeed(s.u64_edge());
    let n = s.usize(1, 6);
    c.show(format!("{:?} {n} workers seed {} {}", cfg.policy, seed.0, clip(&prog.text(), 600)));
    let ws = |w: usize| {
        run_workstealing_seeded(cfg.with_workers(w), seed, SpawnDesc { func: 0, args: vec![RtPayload::Nothing], priority: prog.prio[0], is_main: true }, |d: SpawnDesc| {
            let id = |p: &RtPayload| if let RtPayload::Int(i) = p { *i as u64 } else { 0 };
            let mut parts = d.args.split(|p| *p == RtPayload::Nothing);
            let chans = parts.next().unwrap().iter().map(|p| ChanId(id(p))).collect();
            let handles = parts.next().unwrap().iter().map(|p| TaskId(id(p))).collect();
            Box::new(Script::new(&prog, d.func as usize, chans, handles, true, None)) as Box<dyn Task<'_> + '_>
        })
    };
    let a = ws(n);
    c.nontrivial(a.output.len() > 20 && n > 1);
    if matches!(cfg.policy, SchedulePolicy::Fifo | SchedulePolicy::RoundRobin) {
        c.class("against one thread");
        let (o, evs, _, tr) = whole(&prog, cfg, Chooser::record(seed))?;
        let evs: Vec<String> = evs.iter().map(|e| format!("{e:?}")).collect();
        ensure!(a.output == evs, "{n} workers ran differently from one thread {}\n{}", first_diff(&evs, &a.output), prog.text());
        ensure!(a.outcome == o, "{n} workers ended with {:?}, one thread with {o:?}\n{}", a.outcome, prog.text());
        ensure!(a.trace == tr, "{n} workers left another trace than one thread\n{}", prog.text());
    } else {
        c.class("against another worker count");
        let m = s.usize(1, 6);
        let b = ws(m);
        ensure!(a.output == b.output, "{n} and {m} workers ran differently {}\n{}", first_diff(&a.output, &b.output), prog.text());
        ensure!(a.outcome == b.outcome && a.trace == b.trace, "{n} and {m} workers ended with {:?} and {:?}\n{}", a.outcome, b.outcome, prog.text());
    }
    Ok(())
}

/// What each task saw, by task, without the order among tasks.
fn per_task(evs: &[Ev], n: usize) -> Vec<Vec<String>> {
    let mut v = vec![vec![]; n];
    for e in evs {
        let (t, x) = match e {
            Ev::Issue(t, pc, op, _) => (*t, format!("{pc}:{op:?}")),
            Ev::Done(t, a) => (*t, format!("{:?}/{:?}", a.val, a.arm)),
            Ev::Exit(t, v) => (*t, format!("exit {v}")),
        };
        v[t].push(x);
    }
    v
}

fn networks(s: &mut Src, c: &mut Ctx) -> R {
    let mut prog = gen_prog(s, Mix::Kahn, c.thorough);
    prog.made_by_main = true;
    let base = SchedulerConfig::default();
    c.show(clip(&prog.text(), 700));
    let (o, evs, snap, _) = whole(&prog, base, Chooser::record(SchedSeed(0)))?;
    let want = per_task(&evs, prog.scripts.len());
    let moved = evs.iter().filter(|e| matches!(e, Ev::Done(_, a) if a.val != RtPayload::Nothing)).count();
    c.nontrivial(moved >= 3);
    c.class(match o { RunOutcome::Done(_) => "done", _ => "deadlock" });
    for k in 0..6 {
        let p = if k < 3 { SchedulePolicy::Random } else { *s.pick(&[SchedulePolicy::Lifo, SchedulePolicy::Priority, SchedulePolicy::RoundRobin]) };
        let seed = SchedSeed(s.u64());
        let (o2, evs2, snap2, _) = whole(&prog, base.with_policy(p), Chooser::record(seed))?;
        let got = per_task(&evs2, prog.scripts.len());
        for (t, (a, b)) in want.iter().zip(&got).enumerate() {
            ensure!(a == b, "task {t} saw something else under {p:?} seed {}: {}\n{}", seed.0, first_diff(a, b), prog.text());
        }
        ensure!(matches!(o, RunOutcome::Done(_)) == matches!(o2, RunOutcome::Done(_)), "{p:?} seed {} ended with {o2:?}, first-in-first-out with {o:?}\n{}", seed.0, prog.text());
        ensure!(o == o2, "{p:?} seed {} gave {o2:?}, first-in-first-out {o:?}\n{}", seed.0, prog.text());
        let depth = |s: &SchedSnapshot| -> Vec<(usize, usize)> { s.channels.iter().map(|c| (c.depth, c.blocked_senders)).collect() };
        ensure!(depth(&snap) == depth(&snap2), "{p:?} left other values in the channels: {:?} against {:?}\n{}", depth(&snap2), depth(&snap), prog.text());
    }
    Ok(())
}

#[derive(Default)]
struct ChanHist {
    /// (value, script) accepted or waiting, in the order asked
    sent: Vec<i64>,
    got: BTreeMap<i64, usize>,
    asked_recv: usize,
    sends_done: usize,
    closed: bool,
    may_lose: usize,
}

/// Steps a run one move at a time and checks every move against the rules for channels, clocks,
/// awaiting and stopping.
fn stepwise(prog: &Prog, cfg: SchedulerConfig, seed: SchedSeed) -> Result<(RunOutcome, Vec<Ev>, usize), Fail> {
    let (mut sc, log) = start(prog, cfg, Chooser::record(seed));
    let nt = prog.scripts.len();
    let mut ch: Vec<ChanHist> = prog.caps.iter().map(|_| ChanHist::default()).collect();
    let mut chan_ids: Vec<ChanId> = sc.snapshot().channels.iter().map(|c| c.id).collect();
    let mut tid_of: BTreeMap<usize, TaskId> = BTreeMap::new();
    let mut script_of: BTreeMap<TaskId, usize> = BTreeMap::new();
    let first = sc.snapshot().tasks[0].id;
    tid_of.insert(0, first);
    script_of.insert(first, 0);
    // what each script waits for, with the clock when it asked
    let mut pending: Vec<Option<(Op, Option<TaskId>, usize, u64, Vec<usize>)>> = vec![None; nt];
    let mut ended: BTreeMap<TaskId, Option<i64>> = BTreeMap::new(); // None: stopped
    let mut per_receiver: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
    let mut seen = 0usize;
    let mut hits = 0usize;
    let mut cancelled: BTreeSet<i64> = BTreeSet::new();
    let cap_of = |snap: &SchedSnapshot, ids: &[ChanId], c: usize| snap.channels.iter().find(|x| x.id == ids[c]).unwrap().capacity;
    let outcome = loop {
        let before = sc.snapshot();
        let o = sc.poll_once();
        let after = sc.snapshot();
        let evs: Vec<Ev> = log.borrow()[seen..].to_vec();
        seen += evs.len();
        let said = || format!("{}\nafter {:?}", prog.text(), clip(&format!("{:?}", &log.borrow()[seen.saturating_sub(14)..]), 900));
        ensure!(after.clock >= before.clock, "the clock went back from {} to {}", before.clock, after.clock);
        if let Some(o) = o {
            ensure!(before == after && evs.is_empty(), "a finished run moved\n{}", said());
            if o == RunOutcome::WaitingForIo {
                ensure!(after.ready_len == 0 && after.tasks.iter().any(|t| t.kind == TaskStateKind::BlockedIo), "waiting for outside events with work left\n{}", said());
                let n = after.tasks.iter().filter(|t| t.kind == TaskStateKind::BlockedIo).count();
                ensure!(sc.wake_io(), "nothing woke\n{}", said());
                ensure!(sc.snapshot().ready_len == n, "waking outside waits readied {} of {n}\n{}", sc.snapshot().ready_len, said());
                continue;
            }
            break o;
        }
        ensure!(evs.is_empty() == (before.ready_len == 0), "a ready task was not run\n{}", said());
        if evs.is_empty() {
            ensure!(after.clock >= before.clock, "time did not advance\n{}", said());
        } else {
            ensure!(after.clock == before.clock, "time passed while a task was ready\n{}", said());
        }
        let find = |snap: &SchedSnapshot, id: ChanId| *snap.channels.iter().find(|x| x.id == id).unwrap();
        for e in &evs {
            match e {
                Ev::Done(t, a) => {
                    ensure!(!ended.contains_key(&tid_of[t]), "task {t} ran after it had ended\n{}", said());
                    let (op, target, pc, asked, ready) = pending[*t].take().ok_or_else(|| Fail { msg: format!("task {t} resumed twice\n{}", said()) })?;
                    let mut took = |c: usize, v: &RtPayload, per: &mut BTreeMap<(usize, usize), Vec<usize>>| -> R {
                        match v {
                            RtPayload::Int(v) => {
                                let at = ch[c].sent.iter().position(|x| x == v).ok_or_else(|| Fail { msg: format!("task {t} received {v} from channel {c}, to which it was not sent\n{}", said()) })?;
                                ensure!(ch[c].got.insert(*v, *t).is_none(), "{v} was received twice from channel {c}\n{}", said());
                                per.entry((*t, c)).or_default().push(at);
                            }
                            RtPayload::Nothing => ensure!(ch[c].closed, "task {t} received nothing from open channel {c}\n{}", said()),
                            v => return fail(format!("task {t} received {v:?} from channel {c}\n{}", said())),
                        }
                        Ok(())
                    };
                    match &op {
                        Op::Recv(c) => {
                            took(*c, &a.val, &mut per_receiver)?;
                            ensure!(a.arm.is_none(), "a plain receive reports a chosen arm\n{}", said());
                        }
                        Op::TryRecv(c) => {
                            if a.val != RtPayload::Nothing {
                                took(*c, &a.val, &mut per_receiver)?;
                            }
                            ensure!((a.val == RtPayload::Nothing) == ready.is_empty(), "a receive that does not wait answered {:?} when the channel {} a value\n{}", a.val, if ready.is_empty() { "had not" } else { "had" }, said());
                        }
                        Op::TrySend(c) => {
                            let ok = !ready.is_empty();
                            ensure!(a.val == RtPayload::Bool(ok), "a send that does not wait answered {:?} when there {} room\n{}", a.val, if ok { "was" } else { "was no" }, said());
                            if ok {
                                ch[*c].sends_done += 1;
                            }
                        }
                        Op::Send(c) => {
                            ch[*c].sends_done += 1;
                            if let Some(cap) = cap_of(&before, &chan_ids, *c) {
                                ensure!(ch[*c].sends_done <= ch[*c].asked_recv + cap, "{} sends finished on channel {c} of capacity {cap} with {} receives\n{}", ch[*c].sends_done, ch[*c].asked_recv, said());
                            }
                        }
                        Op::Select(arms) => {
                            let k = a.arm.ok_or_else(|| Fail { msg: format!("no arm was chosen\n{}", said()) })?;
                            let arm = arms.get(k).ok_or_else(|| Fail { msg: format!("arm {k} does not exist\n{}", said()) })?;
                            if !ready.is_empty() {
                                ensure!(ready.contains(&k), "arm {k} was chosen though only {ready:?} could go on\n{}", said());
                                ensure!(before.clock == asked, "a choice with a ready arm waited\n{}", said());
                            }
                            let limit = arms.iter().filter_map(|a| if let Arm::T(d) = a { Some(asked + d) } else { None }).min();
                            match arm {
                                Arm::R(c) => {
                                    took(*c, &a.val, &mut per_receiver)?;
                                    ensure!(limit.map_or(true, |l| before.clock <= l), "a receive won after the time limit {limit:?} at {}\n{}", before.clock, said());
                                }
                                Arm::T(d) => {
                                    ensure!(a.val == RtPayload::Nothing, "a time limit delivered {:?}\n{}", a.val, said());
                                    ensure!(before.clock == asked + d && limit == Some(asked + d), "a time limit of {d} set at {asked} fired at {}\n{}", before.clock, said());
                                }
                            }
                        }
                        Op::Sleep(d) => ensure!(before.clock == asked + d, "a sleep of {d} from {asked} ended at {}\n{}", before.clock, said()),
                        Op::Await(_) => {
                            let r = ended.get(&target.unwrap()).ok_or_else(|| Fail { msg: format!("awaiting {target:?} ended before it did\n{}", said()) })?;
                            ensure!(a.val == r.map_or(RtPayload::Nothing, RtPayload::Int), "awaiting {target:?} gave {:?} instead of {r:?}\n{}", a.val, said());
                        }
                        _ => ensure!(a.val == RtPayload::Nothing && a.arm.is_none(), "{op:?} at {pc} was answered with {a:?}\n{}", said()),
                    }
                    hits += 1;
                }
                Ev::Exit(t, v) => {
                    ensure!(ended.insert(tid_of[t], Some(*v)).is_none(), "task {t} ended twice\n{}", said());
                }
                Ev::Issue(t, pc, op, target) => {
                    ensure!(tid_of.contains_key(t) && !ended.contains_key(&tid_of[t]), "task {t} ran before its start or after its end\n{}", said());
                    let mut ready: Vec<usize> = vec![];
                    let has = |c: usize| {
                        let v = find(&before, chan_ids[c]);
                        v.depth > 0 || v.blocked_senders > 0
                    };
                    match op {
                        Op::Send(c) => ch[*c].sent.push(value(*t, *pc)),
                        Op::TrySend(c) => {
                            let v = find(&before, chan_ids[*c]);
                            if v.blocked_receivers > 0 || v.capacity.map_or(true, |k| v.depth < k) {
                                ready.push(0);
                                ch[*c].sent.push(value(*t, *pc));
                            } else {
                                let w = find(&after, chan_ids[*c]);
                                ensure!(v == w, "a refused send changed the channel from {v:?} to {w:?}\n{}", said());
                            }
                        }
                        Op::Recv(c) => ch[*c].asked_recv += 1,
                        Op::TryRecv(c) => {
                            ch[*c].asked_recv += 1;
                            if has(*c) {
                                ready.push(0);
                            }
                        }
                        Op::Select(arms) => {
                            for (k, a) in arms.iter().enumerate() {
                                if let Arm::R(c) = a {
                                    ch[*c].asked_recv += 1;
                                    if has(*c) || ch[*c].closed {
                                        ready.push(k);
                                    }
                                }
                            }
                        }
                        Op::Close(c) => ch[*c].closed = true,
                        Op::Spawn(i) => {
                            let new: Vec<TaskId> = after.tasks.iter().map(|x| x.id).filter(|x| !script_of.contains_key(x)).collect();
                            ensure!(new.len() == 1, "a spawn made {} tasks\n{}", new.len(), said());
                            tid_of.insert(*i, new[0]);
                            script_of.insert(new[0], *i);
                        }
                        Op::NewChan(cap) => {
                            let new: Vec<_> = after.channels.iter().filter(|x| !chan_ids.contains(&x.id)).collect();
                            ensure!(new.len() == 1, "a new channel request made {} channels\n{}", new.len(), said());
                            if let Some(cap) = cap {
                                ensure!(new[0].capacity == Some(*cap), "a channel of capacity {cap} has {:?}\n{}", new[0].capacity, said());
                            }
                            chan_ids.push(new[0].id);
                        }
                        Op::Abort(_) => {
                            let id = target.unwrap();
                            if !ended.contains_key(&id) {
                                ended.insert(id, None);
                                let sx = script_of[&id];
                                let kind = before.tasks.iter().find(|x| x.id == id).unwrap().kind;
                                if let Some((op, _, pc, _, _)) = &pending[sx] {
                                    match op {
                                        Op::Send(c) if kind == TaskStateKind::BlockedSend => {
                                            let v = value(sx, *pc);
                                            cancelled.insert(v);
                                            ch[*c].sent.retain(|x| *x != v);
                                            // positions recorded so far lie before the withdrawn value
                                        }
                                        Op::Recv(c) | Op::TryRecv(c) if kind == TaskStateKind::Ready => ch[*c].may_lose += 1,
                                        Op::Select(arms) if kind == TaskStateKind::Ready => {
                                            let cs: BTreeSet<usize> = arms.iter().filter_map(|a| if let Arm::R(c) = a { Some(*c) } else { None }).collect();
                                            for c in cs {
                                                ch[c].may_lose += 1;
                                            }
                                        }
                                        _ => {}
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                    pending[*t] = Some((op.clone(), *target, *pc, before.clock, ready));
                }
            }
        }
        // the state between moves
        let ready = after.tasks.iter().filter(|t| t.kind == TaskStateKind::Ready).count();
        ensure!(ready == after.ready_len, "{ready} tasks are ready but {} are queued\n{}", after.ready_len, said());
        for x in &after.tasks {
            ensure!((x.kind == TaskStateKind::Done) == ended.contains_key(&x.id), "task {:?} is {:?}, ended: {}\n{}", x.id, x.kind, ended.contains_key(&x.id), said());
        }
        for (k, id) in chan_ids.iter().enumerate() {
            let v = find(&after, *id);
            ensure!(v.capacity.map_or(true, |c| v.depth <= c), "channel {k} of capacity {:?} holds {}\n{}", v.capacity, v.depth, said());
            ensure!(v.blocked_receivers == 0 || (v.depth == 0 && v.blocked_senders == 0 && !v.closed), "a receiver waits on channel {k} with {v:?}\n{}", said());
            ensure!(v.blocked_senders == 0 || v.capacity.map_or(false, |c| v.depth >= c), "a sender waits on channel {k} with room: {v:?}\n{}", said());
            ensure!(v.closed == ch[k].closed, "channel {k} closed: {}, should be {}\n{}", v.closed, ch[k].closed, said());
            let senders = after.tasks.iter().filter(|t| t.kind == TaskStateKind::BlockedSend && matches!(&pending[script_of[&t.id]], Some((Op::Send(c), ..)) if *c == k)).count();
            ensure!(senders == v.blocked_senders, "channel {k} lists {} waiting senders, {senders} tasks wait\n{}", v.blocked_senders, said());
        }
    };
    // the end
    let last = sc.snapshot();
    let said = || prog.text();
    let all = tid_of.values().all(|t| ended.contains_key(t));
    ensure!(last.tasks.len() == tid_of.len(), "{} tasks exist, {} were started\n{}", last.tasks.len(), tid_of.len(), said());
    match &outcome {
        RunOutcome::Done(v) => {
            ensure!(all, "the run is reported done with unfinished tasks\n{}", said());
            let m = ended[&first].map_or(RtPayload::Nothing, RtPayload::Int);
            ensure!(*v == m, "the run gives {v:?}, its main task {m:?}\n{}", said());
        }
        _ => ensure!(!all, "a deadlock is reported with every task finished\n{}", said()),
    }
    for (c, h) in ch.iter().enumerate() {
        let Some(id) = chan_ids.get(c) else { continue };
        let v = last.channels.iter().find(|x| x.id == *id).unwrap();
        let n = h.sent.len();
        let left = v.depth + v.blocked_senders;
        let gone = n.checked_sub(left).ok_or_else(|| Fail { msg: format!("channel {c} still holds {left} of {n} values\n{}", said()) })?;
        ensure!(gone >= h.got.len() && gone - h.got.len() <= h.may_lose, "channel {c}: {n} sent, {} received, {left} left\n{}", h.got.len(), said());
        for (k, val) in h.sent.iter().enumerate() {
            ensure!(!h.got.contains_key(val) || k < gone, "channel {c}: {val} overtook an earlier value\n{}", said());
        }
        ensure!(h.got.keys().all(|v| !cancelled.contains(v)), "channel {c} delivered a value withdrawn with its sender\n{}", said());
    }
    for ((t, c), at) in &per_receiver {
        ensure!(at.windows(2).all(|w| w[0] < w[1]), "task {t} received from channel {c} out of order: {at:?}\n{}", said());
    }
    if outcome == RunOutcome::Deadlock {
        for (t, id) in &tid_of {
            if ended.contains_key(id) {
                continue;
            }
            let Some((op, target, ..)) = &pending[*t] else { return fail(format!("deadlock with task {t} never run\n{}", said())) };
            let view = |c: usize| *last.channels.iter().find(|x| x.id == chan_ids[c]).unwrap();
            let empty = |c: usize| view(c).depth == 0 && view(c).blocked_senders == 0 && !ch[c].closed;
            let stuck = match op {
                Op::Recv(c) => empty(*c),
                Op::Send(c) => view(*c).capacity == Some(view(*c).depth),
                Op::Select(arms) => arms.iter().all(|a| matches!(a, Arm::R(c) if empty(*c))),
                Op::Await(_) => !ended.contains_key(&target.unwrap()),
                _ => false,
            };
            ensure!(stuck, "deadlock reported though task {t} can go on with {op:?}\n{}", said());
        }
    }
    let evs = log.borrow().clone();
    Ok((outcome, evs, hits))
}

fn steps(s: &mut Src, c: &mut Ctx) -> R {
    let prog = gen_prog(s, Mix::Coop, c.thorough);
    history(prog, s, c)
}
fn traffic(s: &mut Src, c: &mut Ctx) -> R {
    let prog = gen_prog(s, Mix::Traffic, c.thorough);
    history(prog, s, c)
}
fn history(prog: Prog, s: &mut Src, c: &mut Ctx) -> R {
    let cfg = cfg(s);
    let seed = SchedSeed(s.u64());
    c.show(format!("{:?} seed {} {}", cfg.policy, seed.0, clip(&prog.text(), 600)));
    let (o, evs, hits) = stepwise(&prog, cfg, seed)?;
    c.class(match o { RunOutcome::Done(_) => "done", _ => "deadlock" });
    let moved = evs.iter().filter(|e| matches!(e, Ev::Done(_, a) if matches!(a.val, RtPayload::Int(_)))).count();
    let chosen = evs.iter().any(|e| matches!(e, Ev::Done(_, a) if a.arm.is_some()));
    if chosen {
        c.class("select resolved");
    }
    c.nontrivial(moved >= 2 && hits >= 10);
    Ok(())
}

/// One channel, every capacity, several senders and receivers: the exact sequence.
fn pipes(s: &mut Src, c: &mut Ctx) -> R {
    let cap = *s.pick(&[Some(0usize), Some(1), Some(2), Some(4), Some(9), None]);
    let senders = s.usize(1, 4);
    let per = s.usize(1, if c.thorough { 40 } else { 15 });
    let selecting = s.flip();
    let mut scripts: Vec<Vec<Op>> = vec![vec![]];
    let total = senders * per;
    for _ in 0..senders {
        let mut sc = vec![];
        for _ in 0..per {
            sc.push(Op::Send(0));
            if s.chance(1, 4) {
                let d = s.below(3);
                sc.push(if d == 0 { Op::Yield } else { Op::Sleep(d) });
            }
        }
        scripts.push(sc);
    }
    let receivers = s.usize(1, 3);
    let extra = s.usize(0, 3);
    for r in 0..receivers {
        let mut n = total / receivers;
        if r == 0 {
            n += total % receivers;
        }
        let mut sc = vec![];
        for _ in 0..n {
            sc.push(if selecting && s.flip() { Op::Select(vec![Arm::R(0)]) } else { Op::Recv(0) });
            if s.chance(1, 5) {
                sc.push(Op::Sleep(1));
            }
        }
        if r == 0 {
            // after the last value and the close, receives answer with nothing
            for _ in 0..extra {
                sc.push(Op::Recv(0));
            }
        }
        scripts.push(sc);
    }
    let nt = scripts.len();
    let mut main: Vec<Op> = (1..nt).map(Op::Spawn).collect();
    for i in 0..senders {
        main.push(Op::Await(i));
    }
    main.push(Op::Close(0));
    for i in 0..nt - 1 {
        main.push(Op::Await(i));
    }
    scripts[0] = main;
    let prog = Prog { caps: vec![cap], made_by_main: false, scripts, prio: (0..nt).map(|_| s.below(3) as u8).collect() };
    let cfg = cfg(s);
    let seed = SchedSeed(s.u64());
    c.show(format!("cap {cap:?}, {senders} senders of {per}, {receivers} receivers, {:?} seed {}", cfg.policy, seed.0));
    c.class(&format!("cap {cap:?}"));
    c.nontrivial(total >= 4 && senders + receivers > 2);
    let (o, evs, _) = stepwise(&prog, cfg, seed)?;
    ensure!(matches!(o, RunOutcome::Done(_)), "{total} values over a channel of capacity {cap:?} ended with {o:?}\n{}", prog.text());
    let got: Vec<i64> = evs.iter().filter_map(|e| if let Ev::Done(t, Ans { val: RtPayload::Int(v), .. }) = e { if *t > senders { Some(*v) } else { None } } else { None }).collect();
    ensure_eq!(got.len(), total, "number of values received over capacity {cap:?} from {senders} senders");
    let nothing = evs.iter().filter(|e| matches!(e, Ev::Done(t, a) if *t > senders && a.val == RtPayload::Nothing)).count();
    let waits: usize = prog.scripts[senders + 1..].iter().flatten().filter(|o| matches!(o, Op::Sleep(_))).count();
    ensure_eq!(nothing, extra + waits, "receives after the close that answered with nothing");
    Ok(())
}

pub fn c06() -> Suite {
    let mut su = Suite::new("C06", "a run in which the seed decides something and more than 20 task events happen");
    su.assume("task programs of up to 8 tasks and 4 channels; logical clock; one-thread agreement of the multi-worker executor is checked for the first-in-first-out policies it is used with");
    su.prop("repeat", 200_000, 1_500_000, repeat);
    su.prop("workers", 20_000, 150_000, workers);
    su.prop("networks", 80_000, 600_000, networks);
    su.prop("steps", 150_000, 1_500_000, steps);
    su
}

pub fn c07() -> Suite {
    let mut su = Suite::new("C07", "a run in which at least two values cross channels and ten waits are answered");
    su.assume("task programs of up to 8 tasks and 4 channels; values delivered to a task that is stopped before it runs again count as received");
    su.prop("traffic", 300_000, 3_000_000, traffic);
    su.prop("with stops", 200_000, 2_000_000, steps);
    su.prop("pipes", 100_000, 800_000, pipes);
    su
}
