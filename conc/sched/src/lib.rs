//! A controlled scheduler: real threads, one running at a time, every
//! synchronisation operation a scheduling point, and an exhaustive explorer of
//! the schedules.
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::Thread;

/// A visible operation.  The address identifies the object.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// A thread begins or ends one operation of its program.  They stand for
    /// reading and advancing the real-time order.
    Start,
    End,
    Lock(usize),
    RLock(usize),
    Read(usize),
    Write(usize),
    /// Depends on everything
    Any,
}

impl Op {
    fn dependent(self, o: Op) -> bool {
        use Op::*;
        match (self, o) {
            (Any, _) | (_, Any) => true,
            (Start, End) | (End, Start) => true,
            (Start, _) | (End, _) | (_, Start) | (_, End) => false,
            (Read(_), Read(_)) | (RLock(_), RLock(_)) => false,
            (Lock(a) | RLock(a) | Read(a) | Write(a), Lock(b) | RLock(b) | Read(b) | Write(b)) => a == b,
        }
    }
    fn kind(self) -> &'static str {
        match self {
            Op::Start => "start", Op::End => "end", Op::Lock(_) => "lock", Op::RLock(_) => "rlock",
            Op::Read(_) => "read", Op::Write(_) => "write", Op::Any => "any",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St { Running, Pending(Op), Finished }

/// One decision of an execution
#[derive(Clone, Debug)]
pub struct Node {
    /// threads to try here, in order
    opts: Vec<usize>,
    pos: usize,
    /// sleep set on entry to this node
    sleep: u32,
    /// thread that was running
    prev: usize,
    /// was it able to continue
    prev_enabled: bool,
    /// preemptions used before this node
    used: usize,
    /// fingerprint of the pending operations, to detect nondeterminism
    fp: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// all schedules up to commutation of independent operations
    SleepSets,
    /// all schedules with at most this many preemptions
    Preemptions(usize),
}

pub struct Inner {
    st: Vec<St>,
    held: HashMap<usize, isize>, // -1: exclusive, n: readers
    pub stack: Vec<Node>,
    depth: usize,
    cur: usize,
    sleep: u32,
    used: usize,
    mode: Mode,
    /// beyond this point every schedule is redundant
    pub pruned: bool,
    pub deadlock: bool,
    pub diverged: bool,
    pub points: u64,
    pub trace: Vec<(usize, Op)>,
    keep_trace: bool,
    names: HashMap<usize, usize>,
}

pub struct Sched {
    inner: Mutex<Inner>,
    turn: AtomicUsize,
    threads: Mutex<Vec<Option<Thread>>>,
    pub on_deadlock: fn(&str),
}

const NOBODY: usize = usize::MAX;
/// fingerprint that matches every state
const ANY_FP: u64 = u64::MAX;

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }

fn me() -> Option<(Arc<Sched>, usize)> { ME.try_with(|m| m.borrow().clone()).ok().flatten() }

pub fn controlled() -> bool { ME.try_with(|m| m.borrow().is_some()).unwrap_or(false) }

/// A scheduling point before the given operation
pub fn point(op: Op) {
    if let Some((s, t)) = me() { s.point(t, op) }
}
/// Record acquisition; the scheduler only lets enabled acquisitions run
pub fn acquired(a: usize, shared: bool) {
    if let Some((s, _)) = me() {
        let mut i = lk(&s.inner);
        let h = i.held.entry(a).or_insert(0);
        *h = if shared { *h + 1 } else { -1 };
    }
}
pub fn released(a: usize) {
    if let Some((s, _)) = me() {
        let mut i = lk(&s.inner);
        let h = i.held.entry(a).or_insert(0);
        *h = if *h > 0 { *h - 1 } else { 0 };
        if *h == 0 { i.held.remove(&a); }
    }
}

impl Inner {
    fn enabled(&self, t: usize) -> bool {
        match self.st[t] {
            St::Pending(Op::Lock(a)) => !self.held.contains_key(&a),
            St::Pending(Op::RLock(a)) => self.held.get(&a).copied().unwrap_or(0) >= 0,
            St::Pending(_) => true,
            _ => false,
        }
    }
    fn name(&mut self, a: usize) -> usize { let n = self.names.len(); *self.names.entry(a).or_insert(n) }
    fn fingerprint(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for s in &self.st {
            let x = match s { St::Running => 1, St::Finished => 2, St::Pending(o) => 3 + o.kind().as_bytes()[0] as u64 * 7 + o.kind().len() as u64 };
            h = (h ^ x).wrapping_mul(0x100000001b3);
        }
        h
    }
    /// Decide who runs next. None: nobody can.
    fn choose(&mut self) -> Option<usize> {
        let n = self.st.len();
        let en: Vec<usize> = (0..n).filter(|t| self.enabled(*t)).collect();
        if en.is_empty() { return None; }
        let prev = self.cur;
        let prev_enabled = en.contains(&prev);
        let fp = self.fingerprint();
        let d = self.depth;
        self.depth += 1;
        let c;
        if self.pruned {
            c = if prev_enabled { prev } else { en[0] };
        } else if d < self.stack.len() {
            let nd = &self.stack[d];
            c = nd.opts[nd.pos];
            if (nd.fp != fp && nd.fp != ANY_FP) || !en.contains(&c) { self.diverged = true; self.pruned = true; return Some(en[0]); }
            self.sleep = nd.sleep;
            // options already explored here sleep in the rest
            if self.mode == Mode::SleepSets {
                for t in &self.stack[d].opts[..self.stack[d].pos] { self.sleep |= 1 << t; }
            }
        } else {
            let mut opts = vec![];
            // continuing comes first, so the first execution is sequential
            if prev_enabled { opts.push(prev); }
            for t in &en { if *t != prev { opts.push(*t); } }
            match self.mode {
                Mode::SleepSets => opts.retain(|t| self.sleep >> t & 1 == 0),
                Mode::Preemptions(b) => if prev_enabled && self.used >= b { opts.truncate(1); },
            }
            if opts.is_empty() {
                self.pruned = true;
                c = if prev_enabled { prev } else { en[0] };
            } else {
                c = opts[0];
                self.stack.push(Node { opts, pos: 0, sleep: self.sleep, prev, prev_enabled, used: self.used, fp });
            }
        }
        if prev_enabled && c != prev { self.used += 1; }
        let St::Pending(op) = self.st[c] else { unreachable!() };
        if self.mode == Mode::SleepSets {
            let mut s = 0;
            for t in 0..n {
                if self.sleep >> t & 1 == 1 && t != c {
                    if let St::Pending(o) = self.st[t] { if !o.dependent(op) { s |= 1 << t; } }
                }
            }
            self.sleep = s;
        }
        if self.keep_trace {
            let op = match op {
                Op::Lock(a) => Op::Lock(self.name(a)), Op::RLock(a) => Op::RLock(self.name(a)),
                Op::Read(a) => Op::Read(self.name(a)), Op::Write(a) => Op::Write(self.name(a)), o => o };
            self.trace.push((c, op));
        }
        self.st[c] = St::Running;
        self.cur = c;
        Some(c)
    }
}

impl Sched {
    fn point(self: &Arc<Self>, t: usize, op: Op) {
        let next = {
            let mut i = lk(&self.inner);
            i.points += 1;
            i.st[t] = St::Pending(op);
            // nobody has been started yet
            if i.cur == NOBODY { None } else { Some(i.choose()) }
        };
        match next {
            None => { self.wait(t); }
            Some(Some(n)) if n == t => (),
            Some(Some(n)) => { self.wake(n); self.wait(t); }
            Some(None) => self.dead(),
        }
    }
    fn dead(&self) {
        let mut i = lk(&self.inner);
        i.deadlock = true;
        let d = format!("deadlock: {:?}, schedule {:?}", i.st.iter().map(|s| match s { St::Pending(o) => o.kind(), St::Running => "running", St::Finished => "finished" }).collect::<Vec<_>>(),
            i.stack.iter().map(|n| n.opts[n.pos]).collect::<Vec<_>>());
        drop(i);
        (self.on_deadlock)(&d);
        std::process::exit(3);
    }
    fn wake(&self, n: usize) {
        self.turn.store(n, SeqCst);
        let t = lk(&self.threads)[n].clone();
        t.unwrap().unpark();
    }
    fn wait(&self, t: usize) {
        while self.turn.load(SeqCst) != t { std::thread::park(); }
        self.turn.store(NOBODY, SeqCst);
    }
    fn finish(self: &Arc<Self>, t: usize) {
        let next = {
            let mut i = lk(&self.inner);
            i.st[t] = St::Finished;
            if i.st.iter().all(|s| *s == St::Finished) { return; }
            i.choose()
        };
        match next { Some(n) => self.wake(n), None => self.dead() }
    }
}

/// Statistics of one exploration
#[derive(Default, Clone, Debug)]
pub struct Stats { pub executions: u64, pub redundant: u64, pub points: u64, pub max_points: u64, pub capped: bool }

type Body<'a> = Box<dyn FnOnce() + Send + 'a>;

/// One controlled execution of `bodies` following `stack`
fn execute(bodies: Vec<Body<'_>>, stack: Vec<Node>, mode: Mode, on_deadlock: fn(&str), keep_trace: bool) -> Inner {
    let n = bodies.len();
    let s = Arc::new(Sched {
        inner: Mutex::new(Inner {
            st: vec![St::Running; n], held: HashMap::new(), stack, depth: 0, cur: NOBODY, sleep: 0, used: 0,
            mode, pruned: false, deadlock: false, diverged: false, points: 0, trace: vec![], keep_trace, names: HashMap::new(),
        }),
        turn: AtomicUsize::new(NOBODY),
        threads: Mutex::new(vec![None; n]),
        on_deadlock,
    });
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (t, b) in bodies.into_iter().enumerate() {
            let s = s.clone();
            hs.push(sc.spawn(move || {
                lk(&s.threads)[t] = Some(std::thread::current());
                ME.with(|m| *m.borrow_mut() = Some((s.clone(), t)));
                point(Op::Start);
                b();
                ME.with(|m| *m.borrow_mut() = None);
                s.finish(t);
            }));
        }
        // All threads are parked at their start before the first decision
        loop {
            let i = lk(&s.inner);
            if i.st.iter().all(|x| *x == St::Pending(Op::Start)) { break; }
            drop(i);
            std::thread::yield_now();
        }
        let first = {
            let mut i = lk(&s.inner);
            i.cur = n; // not a thread: the first choice is never a preemption
            i.choose().unwrap()
        };
        s.wake(first);
        for h in hs { h.join().unwrap(); }
    });
    let s = Arc::try_unwrap(s).ok().expect("scheduler still shared");
    s.inner.into_inner().unwrap_or_else(|e| e.into_inner())
}

/// Explore every schedule.  `make` sets up one execution and returns the
/// thread bodies and what to do afterwards; the latter returns false to stop.
pub fn explore<'a>(mode: Mode, cap: u64, on_deadlock: fn(&str),
    make: &mut dyn FnMut() -> (Vec<Body<'a>>, Box<dyn FnOnce(&[usize]) -> bool + 'a>)) -> Result<Stats, String>
{
    let mut st = Stats::default();
    let mut stack: Vec<Node> = vec![];
    loop {
        let (bodies, after) = make();
        let i = execute(bodies, std::mem::take(&mut stack), mode, on_deadlock, false);
        st.points += i.points;
        st.max_points = st.max_points.max(i.points);
        if i.diverged { return Err(format!("the program is not deterministic under a fixed schedule: {:?}",
            i.stack.iter().map(|n| n.opts[n.pos]).collect::<Vec<_>>())); }
        let choice: Vec<usize> = i.stack.iter().map(|n| n.opts[n.pos]).collect();
        if i.pruned { st.redundant += 1 } else { st.executions += 1 }
        if !after(&choice) { return Ok(st); }
        stack = i.stack;
        loop {
            match stack.last_mut() {
                None => return Ok(st),
                Some(n) => {
                    if n.pos + 1 < n.opts.len() {
                        let _ = (n.prev, n.prev_enabled, n.used);
                        n.pos += 1;
                        break;
                    }
                    stack.pop();
                }
            }
        }
        if st.executions + st.redundant >= cap { st.capped = true; return Ok(st); }
    }
}

/// Re-execute one schedule and describe it
pub fn replay(bodies: Vec<Body<'_>>, choices: &[usize], on_deadlock: fn(&str)) -> Vec<String> {
    let stack = choices.iter().map(|c| Node { opts: vec![*c], pos: 0, sleep: 0, prev: 0, prev_enabled: false, used: 0, fp: ANY_FP }).collect();
    let i = execute(bodies, stack, Mode::Preemptions(usize::MAX), on_deadlock, true);
    i.trace.iter().map(|(t, o)| format!("thread {t}: {}{}", o.kind(), match o {
        Op::Lock(a) | Op::RLock(a) | Op::Read(a) | Op::Write(a) => format!(" object {a}"), _ => String::new() })).collect()
}
