//! Exhaustive enumeration of histories, each replayed against the real code.
use crate::model::*;
use crate::report::{Report, Slot};
use crate::sut::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// A bounded space of histories
#[derive(Clone)]
pub struct Scenario {
    pub label: String,
    /// Steps executed before exploration starts
    pub init: Vec<HOp>,
    /// how often each of them is repeated (empty: once)
    pub reps: Vec<u32>,
    pub alphabet: Vec<HOp>,
    pub depth: usize,
    /// Merge equal model states (histories reaching a known state with no more
    /// remaining depth than before are not extended)
    pub dedupe: bool,
    pub max_expects: usize,
    /// compare full messages, not only their class
    pub messages: bool,
    pub nightly: bool,
    /// steps appended to every explored history
    pub probe: Vec<HOp>,
    /// Skip steps whose model outcome is an unspecified
    pub max_creates: usize,
    /// the final drop happens on another thread
    pub drop_elsewhere: bool,
}

impl Scenario {
    pub fn initial(&self) -> Vec<&HOp> {
        self.init.iter().enumerate().flat_map(|(i, op)| std::iter::repeat(op).take(self.reps.get(i).map_or(1, |n| *n as usize))).collect()
    }
    pub fn initial_len(&self) -> usize {
        if self.reps.is_empty() { self.init.len() } else { self.reps.iter().map(|n| *n as usize).sum() }
    }
    /// Store runs of equal steps as one
    pub fn compress(&mut self) {
        assert!(self.reps.is_empty());
        let mut init: Vec<HOp> = vec![];
        for op in std::mem::take(&mut self.init) {
            if init.last() == Some(&op) { *self.reps.last_mut().unwrap() += 1; }
            else { init.push(op); self.reps.push(1); }
        }
        init.shrink_to_fit();
        self.init = init;
    }
    pub fn new(label: impl Into<String>) -> Self {
        Scenario { label: label.into(), init: vec![], reps: vec![], alphabet: vec![], depth: 4, dedupe: false,
            max_expects: usize::MAX, messages: false, nightly: false, probe: vec![], max_creates: usize::MAX, drop_elsewhere: false }
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else { "<non-string panic payload>".to_string() }
}

struct OnUnwind<'a>(&'a mut dyn FnMut());
impl Drop for OnUnwind<'_> {
    fn drop(&mut self) { (self.0)() }
}

/// Executes histories on one shape.
pub struct Runner<'a> {
    pub shape: &'a Shape,
    pub sc: &'a Scenario,
    pub slot: &'a Arc<Slot>,
    pub report: &'a Report,
}

struct SendPtr<T: ?Sized>(*mut T);
unsafe impl<T: ?Sized> Send for SendPtr<T> {}

fn real_step(sut: &mut Box<dyn Sut>, meta: &Meta, op: &HOp, id: u32, env: &Arc<Env>, cr: &mut CallRet) -> Out {
    let mut inner = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        HOp::Create(g) => { sut.create(*g); None }
        HOp::NewSeq(s) => { sut.new_seq(*s); None }
        HOp::Expect { f, ops, on_guard } => { sut.expect(*f, id, ops, *on_guard, env); None }
        HOp::Call { f, args, set, other } => {
            let c = if *other {
                // The owning thread is blocked for the duration of the call,
                // so handing over the exclusive reference is sound; whether
                // the mock itself may cross is the shape's `sync` flag.
                let p = SendPtr(sut as *mut Box<dyn Sut>);
                let env = env.clone();
                let cur = crate::report::current();
                let r = std::thread::scope(|s| {
                    s.spawn(move || {
                        crate::report::set_current(cur);
                        let p = p;
                        let sut = unsafe { &mut *p.0 };
                        catch_unwind(AssertUnwindSafe(|| sut.call(*f, args, *set, &env)))
                    }).join().unwrap()
                });
                match r { Ok(c) => c, Err(e) => std::panic::resume_unwind(e) }
            } else {
                sut.call(*f, args, *set, env)
            };
            *cr = c;
            Some(cr.val)
        }
        HOp::Ckpt(g) => { sut.ckpt(*g); None }
        HOp::Drop(g, false) => { sut.drop_group(*g); None }
        HOp::Drop(g, true) => {
            let mut d = || sut.drop_group(*g);
            let _u = OnUnwind(&mut d);
            user_panic()
        }
        HOp::DropAllUnwinding => {
            let mut d = || for (g, gm) in meta.groups.iter().enumerate() {
                if gm.kind != GKind::CkptOnly { sut.drop_group(g) }
            };
            let _u = OnUnwind(&mut d);
            user_panic()
        }
        HOp::InUnwind(ops) => {
            let mut d = || {
                let mut id = id;
                for op in ops {
                    inner.push(real_step(sut, meta, op, id, env, &mut CallRet::default()));
                    if let HOp::Expect { .. } = op { id += 1; }
                }
            };
            let _u = OnUnwind(&mut d);
            user_panic()
        }
    }));
    if let HOp::InUnwind(_) = op {
        return match r {
            Err(p) => {
                let t = panic_text(p);
                if classify(&t) == K::User { Out::Multi(inner) } else { Out::Panic(classify(&t), t) }
            }
            Ok(_) => unreachable!(),
        };
    }
    match r {
        Ok(None) => Out::Done,
        Ok(Some(v)) => Out::Val(v),
        Err(p) => {
            let t = panic_text(p);
            Out::Panic(classify(&t), t)
        }
    }
}

/// None: agreement
pub fn compare(exp: &Exp, out: &Out, messages: bool) -> Option<String> {
    match (exp, out) {
        (Exp::Unspecified, _) => None,
        (Exp::Done, Out::Done) => None,
        (Exp::Val(a), Out::Val(b)) if a == b => None,
        (Exp::Multi(a), Out::Multi(b)) => a.iter().zip(b).find_map(|(a, b)| compare(a, b, messages)),
        (Exp::Panic(ks, ms), Out::Panic(k, m)) => {
            if !ks.contains(k) {
                return Some(format!("expected a panic of class {ks:?}, got {k:?}: {m}"));
            }
            if messages && !ms.is_empty() {
                let any = ks.iter().zip(ms).any(|(kk, parts)| kk == k && {
                    // all parts, in order
                    let mut rest = m.as_str();
                    parts.iter().flat_map(|p| p.split('\u{1}')).all(|p| match rest.find(p) {
                        Some(i) => { rest = &rest[i + p.len()..]; true }
                        None => false,
                    })
                });
                if !any {
                    return Some(format!("wrong message: {m:?}; expected it to contain, in order, one of {ms:?}"));
                }
            }
            None
        }
        _ => Some(format!("expected {}, got {}", fmt_exp(exp), fmt_out(out))),
    }
}

pub fn fmt_exp(e: &Exp) -> String {
    match e {
        Exp::Done => "success".into(),
        Exp::Val(v) => format!("return value {v}"),
        Exp::Panic(k, _) => format!("a panic of class {k:?}"),
        Exp::Unspecified => "anything".into(),
        Exp::Multi(v) => format!("a user panic, and during unwinding {}", v.iter().map(fmt_exp).collect::<Vec<_>>().join(", ")),
    }
}
pub fn fmt_out(o: &Out) -> String {
    match o {
        Out::Done => "success".into(),
        Out::Val(v) => format!("return value {v}"),
        Out::Panic(k, m) => format!("panic ({k:?}): {m}"),
        Out::Multi(v) => format!("a user panic, and during unwinding {}", v.iter().map(fmt_out).collect::<Vec<_>>().join(", ")),
    }
}

/// Take a step in each of the given states (which become empty)
fn step_all(models: &mut Vec<Model>, meta: &Meta, op: &HOp) -> Vec<(Model, Exp)> {
    let mut r = vec![];
    for mut m in models.drain(..) {
        let e = m.step(meta, op);
        let alts = std::mem::take(&mut m.alts);
        r.push((m, e.clone()));
        r.extend(alts.into_iter().map(|a| (a, e.clone())));
    }
    r
}

fn dedup(models: &mut Vec<Model>) {
    // give up on too ambiguous histories
    if models.len() > 64 { models.truncate(1); models[0].stop = true; }
    if models.len() > 1 {
        let mut keys = std::collections::HashSet::new();
        models.retain(|m| keys.insert(m.key()));
    }
}

impl<'a> Runner<'a> {
    /// Execute one complete history (plus final drops), comparing every step.
    /// Returns a description of the first disagreement.
    pub fn run(&self, hist: &[&HOp]) -> Result<(), (usize, String)> {
        let meta = &self.shape.meta;
        let env = Env::new();
        let mut sut = (self.shape.make)();
        // Everything the specification allows the state to be
        let mut models = vec![Model::new(meta, self.sc.nightly)];
        let mut failure: Option<(usize, String)> = None;
        for (i, op) in hist.iter().enumerate() {
            let id = models[0].next_id;
            let next = step_all(&mut models, meta, op);
            lk(&env.log).clear();
            let live0 = env.live.load(std::sync::atomic::Ordering::SeqCst);
            let mut cr = CallRet::default();
            let out = real_step(&mut sut, meta, op, id, &env, &mut cr);
            for (model, exp) in next {
                let m = compare(&exp, &out, self.sc.messages).or_else(|| match exp {
                    Exp::Unspecified => None,
                    _ => self.check_log(op, &model, &exp, &env, &cr, live0),
                });
                match m {
                    None => models.push(model),
                    Some(m) => { failure.get_or_insert((i, m)); }
                }
            }
            if !models.is_empty() { failure = None; }
            else { models.push(Model::new(meta, self.sc.nightly)); }
            dedup(&mut models);
            if failure.is_some() { break; }
        }
        // Wind down
        let n = hist.len();
        for (g, gm) in meta.groups.iter().enumerate() {
            if gm.kind == GKind::CkptOnly || !models[0].alive[g] { continue; }
            let op = HOp::Drop(g, false);
            let next = step_all(&mut models, meta, &op);
            let mut cr = CallRet::default();
            let out = if self.sc.drop_elsewhere {
                let p = SendPtr(&mut sut as *mut Box<dyn Sut>);
                let (env, op) = (&env, &op);
                let cur = crate::report::current();
                std::thread::scope(|s| s.spawn(move || {
                    crate::report::set_current(cur);
                    let p = p;
                    real_step(unsafe { &mut *p.0 }, meta, op, 0, env, &mut CallRet::default())
                }).join().unwrap())
            } else {
                real_step(&mut sut, meta, &op, 0, &env, &mut cr)
            };
            if failure.is_none() {
                for (model, exp) in next {
                    match compare(&exp, &out, self.sc.messages) {
                        None => models.push(model),
                        Some(m) => { failure.get_or_insert((n, format!("at the final drop of group {g}: {m}"))); }
                    }
                }
                if !models.is_empty() { failure = None; }
            }
            if models.is_empty() { break; }
        }
        if let Err(p) = catch_unwind(AssertUnwindSafe(move || drop(sut))) {
            if failure.is_none() { failure = Some((n, format!("panic while dropping the remains: {}", panic_text(p)))); }
        }
        if failure.is_none() && !models[0].stop {
            let live = env.live.load(std::sync::atomic::Ordering::SeqCst);
            if live != 0 { failure = Some((n, format!("{live} tracked values were not dropped exactly once"))); }
        }
        match failure { None => Ok(()), Some(f) => Err(f) }
    }

    fn check_log(&self, op: &HOp, model: &Model, exp: &Exp, env: &Env, cr: &CallRet, live0: isize) -> Option<String> {
        let (f, args) = match op { HOp::Call { f, args, .. } => (*f, args), _ => return None };
        let fm = &self.shape.meta.fns[f];
        let log = lk(&env.log);
        let mut rets = vec![];
        for ev in log.iter() {
            if &ev.args != args {
                return Some(format!("a {} of expectation {} saw arguments {:?} instead of {:?}",
                    if ev.ret { "return closure" } else { "matcher" }, ev.id, ev.args, args));
            }
            if ev.st && ev.thread != env.owner {
                return Some(format!("a single-threaded closure of expectation {} ran on a foreign thread", ev.id));
            }
            if ev.ret { rets.push((ev.id, ev.args.clone())); }
        }
        if rets != model.seen.rets {
            return Some(format!("return closures invoked: {:?}, expected {:?}", rets, model.seen.rets));
        }
        if let Exp::Val(_) = exp {
            for (p, v) in &cr.after {
                let want = if model.seen.mutated { args[*p] + 64 } else { args[*p] };
                if *v != want {
                    return Some(format!("&mut argument {p} has value {v} after the call, expected {want}"));
                }
            }
        }
        let _ = (live0, fm);
        None
    }

    pub fn fail(&self, idx: &[u16], hist: &[&HOp], f: (usize, String)) {
        self.report.violation(&self.shape.meta, self.sc, idx, hist, f);
    }

    /// Enumerate
    pub fn explore(&self) {
        let meta = &self.shape.meta;
        let mut models = vec![Model::new(meta, self.sc.nightly)];
        let mut hist: Vec<&HOp> = self.sc.initial();
        let n0 = hist.len() as u64;
        for op in &hist {
            models = step_all(&mut models, meta, op).into_iter().map(|x| x.0).collect();
            dedup(&mut models);
        }
        let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut idx = vec![];
        self.report.scenario(&self.shape.meta, self.sc);
        self.node(&models, &mut hist, &mut idx, self.sc.depth, &mut seen, 0);
        self.report.add_states(seen.len() as u64 + n0);
        self.report.add_transitions(n0);
    }

    fn node<'b>(&'b self, models: &[Model], hist: &mut Vec<&'b HOp>, idx: &mut Vec<u16>, left: usize,
                seen: &mut HashMap<Vec<u8>, usize>, expects: usize)
    {
        if self.report.stopped() { return; }
        self.replay(hist, idx);
        let k: Vec<u8> = models.iter().flat_map(|m| m.key()).collect();
        let model = &models[0];
        let e = seen.entry(k).or_insert(usize::MAX);
        if self.sc.dedupe {
            if *e != usize::MAX && *e >= left { return; }
        }
        *e = if *e == usize::MAX { left } else { (*e).max(left) };
        if left == 0 || model.stop { return; }
        for (i, op) in self.sc.alphabet.iter().enumerate() {
            if !model.enabled(&self.shape.meta, op) { continue; }
            let ne = expects + match op {
                HOp::Expect { .. } => 1,
                HOp::InUnwind(v) => v.iter().filter(|x| matches!(x, HOp::Expect { .. })).count(),
                _ => 0,
            };
            if ne > self.sc.max_expects { continue; }
            let next = step_all(&mut models.to_vec(), &self.shape.meta, op);
            if next.iter().any(|x| matches!(x.1, Exp::Unspecified)) && !model.stop { continue; }
            let mut m: Vec<Model> = next.into_iter().map(|x| x.0).collect();
            dedup(&mut m);
            self.report.add_transition();
            hist.push(op);
            idx.push(i as u16);
            self.node(&m, hist, idx, left - 1, seen, ne);
            hist.pop();
            idx.pop();
        }
    }

    pub fn replay(&self, hist: &[&HOp], idx: &[u16]) {
        let mut full: Vec<&HOp> = hist.to_vec();
        if !self.sc.probe.is_empty() {
            // probes that are not expressible in the reached state are skipped
            let mut m = Model::new(&self.shape.meta, self.sc.nightly);
            for op in hist { m.step(&self.shape.meta, op); }
            for op in &self.sc.probe {
                if m.enabled(&self.shape.meta, op) { m.step(&self.shape.meta, op); full.push(op); }
            }
        }
        self.slot.begin(self.shape.meta.name, &self.sc.label, idx);
        crate::report::set_current(Some(self.slot.clone()));
        self.report.add_trace(&self.shape.meta, self.sc, &full);
        let r = self.run(&full);
        self.slot.end();
        if let Err(f) = r { self.fail(idx, &full, f); }
    }
}
