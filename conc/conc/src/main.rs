//! Concurrency checks: every schedule of small programs of concurrent mock
//! operations; each outcome must be that of some sequential order.
use engine::explore::{compare, fmt_exp, fmt_out, panic_text};
use engine::report::{short, Report};
use engine::*;
use sched::{Mode, Op as SOp};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

mod programs;
mod sys;
use sys::*;

/// One concurrent program
#[derive(Clone)]
pub struct Prog {
    pub label: String,
    pub setup: Vec<HOp>,
    pub threads: Vec<Vec<HOp>>,
    /// executed sequentially after all threads have been joined
    pub fin: Vec<HOp>,
    pub mode: Mode,
}

/// What happened to one operation
#[derive(Clone)]
struct Rec { t: usize, op: usize, s: usize, e: usize, out: Out }

/// Object groups are created by `Sys::new` and destroyed at the end.
fn do_op(op: &HOp, sys: &Sys, id: u32, env: &Arc<Env>, seqs: &mut [mockall::Sequence]) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        HOp::Call { f, args, .. } => Some(sys.call(*f, args[0])),
        HOp::Expect { f, ops, on_guard } => { ctx_expect(*f, id, ops, *on_guard, env, seqs); None }
        HOp::Ckpt(g) => { ctx_ckpt(*g); None }
        // A context has no identity: making one just in time to drop it is
        // the same as having kept it
        HOp::Drop(g, false) => { drop(mk_ctx(*g)); None }
        HOp::Drop(g, true) => {
            let c = mk_ctx(*g);
            let _c = c;
            user_panic()
        }
        _ => unreachable!(),
    }));
    match r {
        Ok(None) => Out::Done,
        Ok(Some(v)) => Out::Val(v),
        Err(p) => { let t = panic_text(p); Out::Panic(classify(&t), t) }
    }
}

/// The result of one execution, for comparison and caching
#[derive(Clone, PartialEq, Eq, Hash)]
struct Outcome { outs: Vec<Vec<u16>>, fin: Vec<u16>, prec: Vec<bool> }

fn code(o: &Out) -> u16 {
    match o { Out::Done => 0, Out::Val(v) => 1 + *v as u16, Out::Panic(k, _) => 1000 + *k as u16, Out::Multi(_) => unreachable!() }
}

struct Check<'a> { meta: &'a Meta, p: &'a Prog, start: Model }

impl Check<'_> {
    fn step(&self, m: &mut Model, op: &HOp, out: &Out) -> bool {
        let exp = m.step(self.meta, op);
        compare(&exp, out, false).is_none()
    }
    /// Is there a sequential order, consistent with the program order and the
    /// real-time order, with these outcomes?
    fn linearizable(&self, recs: &[Vec<Rec>], fin: &[Out]) -> bool {
        let mut pos = vec![0; recs.len()];
        let mut left = vec![None; recs.len()];
        self.lin(&self.start, recs, &mut pos, &mut left, fin)
    }
    /// `left`: per thread, what is left to do of a composite operation
    fn lin(&self, m: &Model, recs: &[Vec<Rec>], pos: &mut Vec<usize>, left: &mut Vec<Option<Vec<usize>>>, fin: &[Out]) -> bool {
        let mut any = false;
        for t in 0..recs.len() {
            if pos[t] >= recs[t].len() { continue; }
            any = true;
            let r = &recs[t][pos[t]];
            // nothing that is still to come may have ended before r began
            if (0..recs.len()).any(|u| recs[u][pos[u]..].iter().any(|x| x.e < r.s)) { continue; }
            let op = &self.p.threads[r.t][r.op];
            // A module's checkpoint is the checkpoints of its functions, one
            // after the other; only these are atomic.
            if let HOp::Ckpt(MOD) = op {
                let subs = left[t].clone().unwrap_or(vec![CMF, CMH]);
                for i in 0..subs.len() {
                    let mut rest = subs.clone();
                    let g = rest.remove(i);
                    let mut m2 = m.clone();
                    let exp = m2.step(self.meta, &HOp::Ckpt(g));
                    let old = left[t].clone();
                    let last = rest.is_empty() || !matches!(exp, Exp::Done);
                    if last {
                        if compare(&exp, &r.out, false).is_some() { continue; }
                        pos[t] += 1;
                        left[t] = None;
                    } else { left[t] = Some(rest); }
                    let ok = self.lin(&m2, recs, pos, left, fin);
                    if last { pos[t] -= 1; }
                    left[t] = old;
                    if ok { return true; }
                }
                continue;
            }
            let mut m2 = m.clone();
            if !self.step(&mut m2, op, &r.out) { continue; }
            pos[t] += 1;
            if self.lin(&m2, recs, pos, left, fin) { pos[t] -= 1; return true; }
            pos[t] -= 1;
        }
        if any { return false; }
        let mut m = m.clone();
        self.p.fin.iter().zip(fin).all(|(op, o)| self.step(&mut m, op, o))
    }
}

type Shared = Arc<std::real::sync::Mutex<Vec<Vec<Rec>>>>;

struct Exec { sys: Option<Arc<Sys>>, env: Arc<Env>, recs: Shared }

fn prepare(meta: &Meta, p: &Prog) -> (Model, Exec, Vec<Box<dyn FnOnce() + Send>>) {
    let env = Env::new();
    let mut m = Model::new(meta, false);
    let mut sys = Sys::new();
    for op in &p.setup {
        let id = m.next_id;
        let exp = m.step(meta, op);
        assert!(matches!(exp, Exp::Done), "setup: {op:?}: {}", fmt_exp(&exp));
        match op {
            HOp::Create(_) => (),
            HOp::Expect { f, ops, .. } => sys.expect(*f, id, ops, &env),
            _ => unreachable!(),
        }
    }
    // expectation ids of the threads do not depend on the schedule
    let base = m.next_id;
    let mut seqs: Vec<_> = (0..p.threads.len()).map(|_| vec![mockall::Sequence::new()]).collect();
    let sys = Arc::new(sys);
    let recs: Shared = Arc::new(std::real::sync::Mutex::new(vec![vec![]; p.threads.len()]));
    let clock = Arc::new(engine::sut_clock());
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in p.threads.iter().enumerate() {
        let (ops, sys, env, recs, clock) = (ops.clone(), sys.clone(), env.clone(), recs.clone(), clock.clone());
        let mut seqs = std::mem::take(&mut seqs[t]);
        bodies.push(Box::new(move || {
            for (i, op) in ops.iter().enumerate() {
                if i > 0 { sched::point(SOp::Start); }
                let s = clock.tick();
                let out = do_op(op, &sys, base + 10 * t as u32 + i as u32, &env, &mut seqs);
                sched::point(SOp::End);
                let e = clock.tick();
                recs.lock().unwrap()[t].push(Rec { t, op: i, s, e, out });
            }
        }));
    }
    (m, Exec { sys: Some(sys), env, recs }, bodies)
}

fn finish(x: &mut Exec, p: &Prog) -> Vec<Out> {
    let sys = Arc::try_unwrap(x.sys.take().unwrap()).ok().expect("objects still shared");
    let Sys { a, b, g, seqs } = sys;
    let (mut a, mut b, mut g) = (Some(a), Some(b), Some(g));
    let dummy = Sys::new();
    let mut fin = vec![];
    let mut seqs = seqs;
    for op in &p.fin {
        fin.push(match op {
            HOp::Drop(grp, false) if [A, B, G].contains(grp) => {
                let r = catch_unwind(AssertUnwindSafe(|| match *grp { A => drop(a.take()), B => drop(b.take()), _ => drop(g.take()) }));
                match r { Ok(()) => Out::Done, Err(p) => { let t = panic_text(p); Out::Panic(classify(&t), t) } }
            }
            HOp::Call { f, args, .. } if *f < ST || *f == GI || *f == GT => {
                let r = catch_unwind(AssertUnwindSafe(|| match *f {
                    AV => a.as_ref().unwrap().v(args[0] as u32),
                    AR => *a.as_ref().unwrap().r(args[0] as u32),
                    AG => a.as_ref().unwrap().g::<String>(D::mk(args[0])),
                    BV => b.as_ref().unwrap().v(args[0] as u32),
                    GI => g.as_ref().unwrap().gi(args[0] as u32),
                    _ => g.as_ref().unwrap().t(args[0] as u32),
                } as V));
                match r { Ok(v) => Out::Val(v), Err(p) => { let t = panic_text(p); Out::Panic(classify(&t), t) } }
            }
            op => do_op(op, &dummy, 0, &x.env, &mut seqs),
        });
    }
    // whatever was not dropped by the program is not judged
    for r in [catch_unwind(AssertUnwindSafe(|| drop(a))), catch_unwind(AssertUnwindSafe(|| drop(b))), catch_unwind(AssertUnwindSafe(|| drop(g)))] { let _ = r; }
    fin
}



static DEAD: std::real::sync::OnceLock<(Arc<Report>, std::real::sync::Mutex<String>)> = std::real::sync::OnceLock::new();
fn on_deadlock(d: &str) {
    let (r, cur) = DEAD.get().unwrap();
    let label = cur.lock().unwrap().clone();
    r.violation_text("conc", &label, &[], &[], d);
    r.write(false);
}

fn describe(meta: &Meta, p: &Prog, recs: &[Vec<Rec>], fin: &[Out]) -> Vec<String> {
    let mut v: Vec<String> = p.setup.iter().map(|o| format!("setup: {}", short(meta, o))).collect();
    let mut all: Vec<&Rec> = recs.iter().flatten().collect();
    all.sort_by_key(|r| r.s);
    for r in all { v.push(format!("thread {}: [{}..{}] {} -> {}", r.t, r.s, r.e, short(meta, &p.threads[r.t][r.op]), fmt_out(&r.out))); }
    for (o, out) in p.fin.iter().zip(fin) { v.push(format!("finally: {} -> {}", short(meta, o), fmt_out(out))); }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = get("--property").expect("--property");
    let tier = get("--tier").unwrap_or("quick".into());
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let (si, sn) = get("--shard").map(|s| { let (a, b) = s.split_once('/').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).unwrap_or((0usize, 1usize));
    let meta = meta();
    let report = Report::new(&prop, &tier, &out, 1, get("--journal").as_deref());
    report.abort_hook(get("--verbose").is_some());
    report.watchdog(::std::time::Duration::from_secs(60));
    DEAD.get_or_init(|| (report.clone(), Default::default()));
    let mut progs = programs::programs(&prop, tier == "thorough");
    if let Some(o) = get("--only") { progs.retain(|p| p.label == o); }
    let replay: Option<Vec<usize>> = get("--replay").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect());
    let slot = report.slots[0].clone();
    for (n, p) in progs.iter().enumerate() {
        if n % sn != si { continue; }
        if report.stopped() { break; }
        *DEAD.get().unwrap().1.lock().unwrap() = p.label.clone();
        report.scenario_name(&p.label);
        if let Some(choices) = &replay {
            let (start, mut x, bodies) = prepare(&meta, p);
            let trace = sched::replay(bodies, choices, on_deadlock);
            let recs = x.recs.lock().unwrap().clone();
            let fin = finish(&mut x, p);
            for l in trace { eprintln!("  {l}"); }
            let d = describe(&meta, p, &recs, &fin);
            for l in &d { eprintln!("  {l}"); }
            if !(Check { meta: &meta, p, start }).linearizable(&recs, &fin) {
                report.violation_text("conc", &p.label, &[], &d, "no sequential order has these outcomes");
            }
            continue;
        }
        let mut seen: HashMap<Outcome, bool> = HashMap::new();
        let mut bad = false;
        let (meta, report, slot) = (&meta, &report, &slot);
        let seen_ = std::cell::RefCell::new(&mut seen);
        let bad_ = std::cell::RefCell::new(&mut bad);
        let st = sched::explore(p.mode, 200_000, on_deadlock, &mut || {
            slot.begin_text(format!("conc\t{}\t", p.label));
            let (start, mut x, bodies) = prepare(meta, p);
            let (seen_, bad_) = (&seen_, &bad_);
            (bodies, Box::new(move |choices: &[usize]| {
                let recs = x.recs.lock().unwrap().clone();
                let fin = finish(&mut x, p);
                slot.end();
                let all: Vec<&Rec> = recs.iter().flatten().collect();
                let key = Outcome {
                    outs: recs.iter().map(|v| v.iter().map(|r| code(&r.out)).collect()).collect(),
                    fin: fin.iter().map(code).collect(),
                    prec: all.iter().flat_map(|a| all.iter().map(move |b| a.e < b.s)).collect(),
                };
                let ck = Check { meta, p, start };
                let ok = *seen_.borrow_mut().entry(key).or_insert_with(|| ck.linearizable(&recs, &fin));
                if report.traces() < 2 { report.sample(format!("{}: {}", p.label, describe(meta, p, &recs, &fin).join("; "))); }
                report.add_traces(1);
                if !ok {
                    **bad_.borrow_mut() = true;
                    let ch: Vec<u16> = choices.iter().map(|c| *c as u16).collect();
                    report.violation_text("conc", &p.label, &ch, &describe(meta, p, &recs, &fin), &format!("no sequential order has these outcomes: {}",
                        describe(meta, p, &recs, &fin).into_iter().filter(|l| !l.starts_with("setup")).collect::<Vec<_>>().join("; ")));
                }
                ok
            }))
        });
        match st {
            Ok(st) => {
                report.add_transitions(st.points);
                report.add_states(seen.len() as u64);
                report.bump("executions", st.executions);
                report.bump("redundant executions", st.redundant);
                report.bump(&format!("programs {:?}", p.mode), 1);
                report.bump("distinct outcomes", seen.len() as u64);
                if st.capped && !bad { report.cap(); report.note(&format!("{}: capped", p.label)); }
                if get("--stats").is_some() { eprintln!("{:>8} {:>8} {:>4} {}", st.executions, st.redundant, st.max_points, p.label); }
            }
            Err(e) => { eprintln!("{}: {e}", p.label); report.write(false); std::process::exit(4); }
        }
    }
    report.write(true);
}
