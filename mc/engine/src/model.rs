//! The reference model: what a set of mocked functions must do.
//!
//! Values are tiny integers (`V`); the shapes encode them into real Rust types.
pub type V = u8;
pub const INF: usize = usize::MAX;

/// Every way of bounding the number of calls
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TF {
    N(usize),
    R(usize, usize),
    RI(usize, usize),
    RF(usize),
    RT(usize),
    RTI(usize),
    Full,
    Never,
    Once,
}

impl TF {
    /// (lower, upper) inclusive bounds, or None if the bound must be rejected.
    pub fn bounds(&self) -> Option<(usize, usize)> {
        match *self {
            TF::N(n) => Some((n, n)),
            TF::R(a, b) => if b > a { Some((a, b - 1)) } else { None },
            TF::RI(a, b) => if b >= a { Some((a, b)) } else { None },
            TF::RF(a) => Some((a, INF)),
            TF::RT(b) => if b > 0 { Some((0, b - 1)) } else { None },
            TF::RTI(b) => Some((0, b)),
            TF::Full => Some((0, INF)),
            TF::Never => Some((0, 0)),
            TF::Once => Some((1, 1)),
        }
    }
}

/// A matcher.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MOp {
    /// one predicate per argument: bit v of sets[i] set iff value v is
    /// accepted, bit v + 4 iff the predicate panics
    With(Vec<u8>),
    /// Truth table over the whole argument tuple, index = sum a[i]*dom^i
    /// and a table of tuples on which the matcher panics.
    Withf(u32, u32),
    WithfSt(u32, u32),
}

/// A return action
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ROp {
    Const(V),
    ConstSt(V),
    /// Stateful closure: n-th invocation returns (base+n)%mod; panics on the
    /// invocations in the bit mask.
    Mut(V, u8),
    MutSt(V, u8),
    Once(V, u8),
    OnceSt(V, u8),
    Var(V),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Times(TF),
    Match(MOp),
    Seq(usize),
    Ret(ROp),
}

/// One step of a history.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum HOp {
    /// (Re)create a group: an object, or a context
    Create(usize),
    /// Set an expectation on function `f`.  With `on_guard`, all builder calls
    /// are made directly on what the expect function returned rather than
    /// chained (it only makes a difference for static functions).
    Expect { f: usize, ops: Vec<Op>, on_guard: bool },
    /// Call function `f`; if it returns a mutable reference, write `set` to it.
    /// With `other`, the call is made on another thread.
    Call { f: usize, args: Vec<V>, set: Option<V>, other: bool },
    /// Checkpoint a group
    Ckpt(usize),
    /// Drop a group.  With unwinding, drop it while a (user) panic unwinds.
    Drop(usize, bool),
    /// Drop several groups by unwinding one user panic through all of them.
    DropAllUnwinding,
    /// Perform these steps, each inside of catch_unwind, in a destructor that
    /// runs while a user panic unwinds.
    InUnwind(Vec<HOp>),
    /// Start a fresh sequence in slot s
    NewSeq(usize),
}

/// Classification of observed panics.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    NoMatch,
    TooManyCall,
    SeqViol,
    NoRet,
    Expired,
    WrongThread,
    TooFew,
    TooManyDrop,
    Backwards,
    NotExact,
    User,
    Poison,
    Other,
}

pub fn classify(msg: &str) -> K {
    let c = |s: &str| msg.contains(s);
    if c("PoisonError") { K::Poison }
    else if c("@user panic@") { K::User }
    else if c("No matching expectation found") { K::NoMatch }
    else if c("equence violation") { K::SeqViol }
    else if c("should not have been called") || c("which is more than the expected") { K::TooManyCall }
    else if c("fewer than expected") { K::TooFew }
    else if c("more than expected") { K::TooManyDrop }
    else if c("it returns by move") { K::Expired }
    else if c("eturning default values requires") || c("Can only return default values") { K::NoRet }
    else if c("Backwards range") { K::Backwards }
    else if c("exact call count") { K::NotExact }
    else if c("fragile") || c("incorrect thread") || c("wrong thread") { K::WrongThread }
    else { K::Other }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    /// Operation without a value
    Done,
    /// Call returned this value
    Val(V),
    Panic(K, String),
    /// The outcomes of the steps of `HOp::InUnwind`, whose panic is a user panic
    Multi(Vec<Out>),
}

/// What one step is expected to show.
#[derive(Clone, Debug)]
pub enum Exp {
    Done,
    Val(V),
    /// Panic with one of these classes; the strings are alternatives for the
    /// complete message (empty: not checked)
    Panic(Vec<K>, Vec<Vec<String>>),
    Multi(Vec<Exp>),
    /// The property says nothing about this step or any later one.
    Unspecified,
}

/// What the mocked closures must have seen during one step
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Seen {
    /// (expectation id, args) of the return closure invocations
    pub rets: Vec<(u32, Vec<V>)>,
    /// The call's `&mut` arguments must have been modified by the closure
    pub mutated: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RetClass { Static, Ref, RefMut }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum GKind {
    /// A mock object.  Dropping verifies; checkpoint covers its functions
    Object,
    /// A context for one static function
    Ctx,
    /// A module-level or similar checkpoint without life of its own
    CkptOnly,
}

#[derive(Clone, Debug)]
pub struct FnMeta {
    /// name used in the "Expectation(...)" messages
    pub name: &'static str,
    /// name used in the call description
    pub cname: &'static str,
    pub group: usize,
    pub arity: usize,
    /// number of distinct values of each argument
    pub dom: V,
    /// Debug rendering of argument i with value v
    pub dbg: &'static [fn(V) -> String],
    pub class: RetClass,
    /// Number of distinct return values (1 for unit)
    pub rmod: V,
    /// Is Const allowed
    pub clone: bool,
    pub with: bool,
    /// the receiver is consumed by the call
    pub consumes: bool,
    /// Can be called from another thread
    pub sync: bool,
    /// default value of the return type if it implements Default
    pub dflt: Option<V>,
    /// positions of `&mut` arguments the closures modify
    pub mutargs: &'static [usize],
    /// the default value can be overwritten through the returned reference
    pub setdef: bool,
}

#[derive(Clone, Debug)]
pub struct GMeta {
    pub kind: GKind,
    pub fns: &'static [usize],
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub name: &'static str,
    pub fns: Vec<FnMeta>,
    pub groups: Vec<GMeta>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MExp {
    pub id: u32,
    pub matcher: Option<MOp>,
    pub lo: usize,
    pub hi: usize,
    pub count: usize,
    pub seq: Option<(usize, usize)>,
    pub ret: Option<ROp>,
    pub inv: u8,
    /// one-shot already run
    pub expired: bool,
    pub var: V,
}

impl MExp {
    fn new(id: u32) -> Self {
        MExp { id, matcher: None, lo: 0, hi: INF, count: 0, seq: None, ret: None, inv: 0, expired: false, var: 0 }
    }
    pub fn exact(&self) -> bool { self.lo == self.hi }
    pub fn done(&self) -> bool { self.count >= self.hi }
    pub fn unmet(&self) -> bool { self.count < self.lo }
    pub fn over(&self) -> bool { self.count > self.hi }
    pub fn mstr(&self) -> String {
        match &self.matcher {
            None => "<anything>".to_string(),
            Some(MOp::With(s)) => s.iter().map(|b| format!("set{:03b}", b & 7)).collect::<Vec<_>>().join(", "),
            Some(MOp::Withf(..)) => "<function>".to_string(),
            Some(MOp::WithfSt(..)) => "<single threaded function>".to_string(),
        }
    }
}

pub fn tuple_index(args: &[V], dom: V) -> u32 {
    let mut i = 0u32;
    let mut m = 1u32;
    for a in args { i += *a as u32 * m; m *= dom as u32; }
    i
}

enum Mr { Yes, No, UserPanic, WrongThread }

#[derive(Clone, Debug)]
pub struct Model {
    pub fns: Vec<Vec<MExp>>,
    pub alive: Vec<bool>,
    /// (number of handles given out, satisfied level) for each generation
    pub seqs: Vec<(usize, usize)>,
    /// slot -> index in seqs
    pub slots: Vec<usize>,
    pub next_id: u32,
    pub stop: bool,
    pub nightly: bool,
    pub seen: Seen,
    /// Other states that the last step may also have led to; to be taken by
    /// the caller after every step
    pub alts: Vec<Model>,
    /// The steps happen during unwinding
    pub unwinding: bool,
}

pub const NSLOTS: usize = 2;

impl Model {
    pub fn new(meta: &Meta, nightly: bool) -> Self {
        Model {
            fns: vec![vec![]; meta.fns.len()],
            alive: meta.groups.iter().map(|g| g.kind == GKind::CkptOnly).collect(),
            seqs: vec![(0, 0); NSLOTS],
            slots: (0..NSLOTS).collect(),
            next_id: 0,
            stop: false,
            nightly,
            seen: Seen::default(),
            alts: vec![],
            unwinding: false,
        }
    }

    /// Canonical key for state deduplication.  Expectation ids only occur in
    /// the logs of the current step, so they are renumbered; sequences that
    /// are not referenced any more are dropped and the rest renumbered in
    /// order of first reference; both are bisimulations of the model.
    pub fn key(&self) -> Vec<u8> {
        use std::fmt::Write;
        let mut s = String::new();
        let mut seqmap: Vec<usize> = self.slots.clone();
        for l in &self.fns {
            for e in l {
                if let Some((q, _)) = e.seq {
                    if !seqmap.contains(&q) { seqmap.push(q); }
                }
            }
        }
        for l in &self.fns {
            s.push('|');
            for e in l {
                let sq = e.seq.map(|(q, i)| (seqmap.iter().position(|x| *x == q).unwrap(), i));
                write!(s, "{:?},{},{},{},{:?},{:?},{},{},{};", e.matcher, e.lo, e.hi, e.count, sq, e.ret, e.inv, e.expired, e.var).unwrap();
            }
        }
        write!(s, "{:?}{}", self.alive, self.stop).unwrap();
        for q in &seqmap { write!(s, "{:?}", self.seqs[*q]).unwrap(); }
        s.into_bytes()
    }

    fn match_one(e: &MExp, f: &FnMeta, args: &[V], other: bool) -> Mr {
        match &e.matcher {
            None => Mr::Yes,
            Some(MOp::With(sets)) => if args.iter().zip(sets).any(|(a, s)| s >> (a + 4) & 1 == 1) { Mr::UserPanic } else if args.iter().zip(sets).all(|(a, s)| s >> a & 1 == 1) { Mr::Yes } else { Mr::No },
            Some(MOp::WithfSt(..)) if other => Mr::WrongThread,
            Some(MOp::Withf(t, p)) | Some(MOp::WithfSt(t, p)) => {
                let i = tuple_index(args, f.dom);
                if bit(*p, i) { Mr::UserPanic }
                else if bit(*t, i) { Mr::Yes } else { Mr::No }
            }
        }
    }

    pub fn call_desc(f: &FnMeta, args: &[V]) -> String {
        format!("{}({})", f.cname, args.iter().enumerate().map(|(i, a)| (f.dbg[i])(*a)).collect::<Vec<_>>().join(", "))
    }

    fn verify_list(&self, meta: &Meta, fns: &[usize]) -> Option<Exp> {
        let mut ks = vec![];
        let mut ms = vec![];
        for f in fns {
            for e in &self.fns[*f] {
                let n = meta.fns[*f].name;
                if e.unmet() {
                    ks.push(K::TooFew);
                    ms.push(vec![n.to_string(), format!("Expectation({})", e.mstr()),
                        format!("called {} time(s)", e.count), format!("fewer than expected {}", e.lo)]);
                } else if e.over() {
                    ks.push(K::TooManyDrop);
                    ms.push(vec![n.to_string(), format!("Expectation({})", e.mstr()),
                        format!("called {} time(s)", e.count), format!("more than expected {}", e.hi)]);
                }
            }
        }
        if ks.is_empty() { None } else { Some(Exp::Panic(ks, ms)) }
    }

    fn stopped(&mut self) -> Exp { self.stop = true; Exp::Unspecified }

    /// Functions of static groups keep existing without their context
    pub fn step(&mut self, meta: &Meta, op: &HOp) -> Exp {
        self.seen = Seen::default();
        if self.stop { return Exp::Unspecified; }
        match op {
            HOp::NewSeq(s) => {
                self.slots[*s] = self.seqs.len();
                self.seqs.push((0, 0));
                Exp::Done
            }
            HOp::Create(g) => { self.alive[*g] = true; Exp::Done }
            HOp::Expect { f, ops, .. } => {
                let mut e = MExp::new(self.next_id);
                self.next_id += 1;
                let mut res = Exp::Done;
                for o in ops {
                    match o {
                        Op::Times(t) => match t.bounds() {
                            None => { res = Exp::Panic(vec![K::Backwards], vec![]); break; }
                            Some((lo, hi)) => {
                                if e.seq.is_some() && (lo != hi || (lo == 0) != (e.hi == 0)) {
                                    return self.stopped();
                                }
                                e.lo = lo; e.hi = hi;
                            }
                        },
                        Op::Match(m) => e.matcher = Some(m.clone()),
                        Op::Seq(s) => {
                            if !e.exact() { res = Exp::Panic(vec![K::NotExact], vec![]); break; }
                            if e.seq.is_some() { return self.stopped(); }
                            // An expectation that must never be called is
                            // trivially satisfied
                            if e.hi > 0 {
                                let q = self.slots[*s];
                                e.seq = Some((q, self.seqs[q].0));
                                self.seqs[q].0 += 1;
                            }
                        }
                        Op::Ret(r) => {
                            e.ret = Some(r.clone());
                            e.inv = 0;
                            e.expired = false;
                            if let ROp::Var(v) = r { e.var = *v }
                        }
                    }
                }
                self.fns[*f].push(e);
                res
            }
            HOp::Call { f, args, set, other } => {
                let fm = &meta.fns[*f];
                let n = self.fns[*f].len();
                let mut sel = None;
                for (i, e) in self.fns[*f].iter().enumerate() {
                    match Self::match_one(e, fm, args, *other) {
                        Mr::UserPanic => return Exp::Panic(vec![K::User], vec![]),
                        Mr::WrongThread => return Exp::Panic(vec![K::WrongThread], vec![]),
                        Mr::No => (),
                        Mr::Yes => if !e.done() || n == 1 { sel = Some(i); break },
                    }
                }
                let desc = Self::call_desc(fm, args);
                let i = match sel {
                    None => return Exp::Panic(vec![K::NoMatch], vec![vec![desc, "No matching expectation found".into()]]),
                    Some(i) => i,
                };
                let e = &mut self.fns[*f][i];
                e.count += 1;
                let head = format!("{}: Expectation({})", fm.name, e.mstr());
                if e.count > e.hi {
                    let tail = if e.hi == 0 { "should not have been called".to_string() }
                        else { format!("called {} times which is more than the expected {}", e.count, e.hi) };
                    return Exp::Panic(vec![K::TooManyCall], vec![vec![head, tail]]);
                }
                if let Some((q, k)) = e.seq {
                    if self.seqs[q].1 != k {
                        // Whether the rejected call counts is unspecified
                        let mut alt = self.clone();
                        alt.fns[*f][i].count -= 1;
                        self.alts.push(alt);
                        return Exp::Panic(vec![K::SeqViol], vec![vec![desc, "sequence violation".into()]]);
                    }
                    if e.count == e.lo { self.seqs[q].1 += 1; }
                }
                let e = &mut self.fns[*f][i];
                let md = fm.rmod;
                match e.ret.clone() {
                    None => {
                        match (self.nightly, fm.dflt, fm.class) {
                            (true, Some(v), RetClass::RefMut) => {
                                if e.inv == 0 { e.var = v; e.inv = 1; }
                                let old = e.var;
                                if let Some(s) = set { e.var = s % md; }
                                Exp::Val(old)
                            }
                            (true, Some(v), _) => Exp::Val(v),
                            _ => Exp::Panic(vec![K::NoRet], vec![vec![head]]),
                        }
                    }
                    Some(ROp::ConstSt(_)) | Some(ROp::MutSt(..)) | Some(ROp::OnceSt(..)) if *other => {
                        if e.expired {
                            Exp::Panic(vec![K::Expired], vec![vec![head]])
                        } else {
                            Exp::Panic(vec![K::WrongThread], vec![])
                        }
                    }
                    Some(ROp::Const(v)) | Some(ROp::ConstSt(v)) => Exp::Val(v % md),
                    Some(ROp::Var(_)) => {
                        let old = e.var;
                        if let Some(s) = set { e.var = s % md; }
                        Exp::Val(old % md)
                    }
                    Some(ROp::Mut(b, p)) | Some(ROp::MutSt(b, p)) => {
                        let k = e.inv;
                        e.inv = next_inv(k);
                        self.seen.rets.push((e.id, args.clone()));
                        if bit(p as u32, k as u32) { Exp::Panic(vec![K::User], vec![]) }
                        else {
                            self.seen.mutated = true;
                            Exp::Val((b + k) % md)
                        }
                    }
                    Some(ROp::Once(b, p)) | Some(ROp::OnceSt(b, p)) => {
                        if e.expired {
                            Exp::Panic(vec![K::Expired], vec![vec![head]])
                        } else {
                            e.expired = true;
                            self.seen.rets.push((e.id, args.clone()));
                            if p & 1 == 1 { Exp::Panic(vec![K::User], vec![]) }
                            else {
                                self.seen.mutated = true;
                                Exp::Val(b % md)
                            }
                        }
                    }
                }
            }
            HOp::Ckpt(g) => {
                let gm = &meta.groups[*g];
                match self.verify_list(meta, gm.fns) {
                    Some(e) => {
                        if gm.kind == GKind::Ctx {
                            for f in gm.fns { self.fns[*f].clear(); }
                        } else {
                            // Which functions have been cleared is unspecified,
                            // but each was cleared completely or not at all
                            let full: Vec<usize> = gm.fns.iter().copied().filter(|f| !self.fns[*f].is_empty()).collect();
                            if full.len() > 4 || self.fns.iter().map(|l| l.len()).sum::<usize>() > 24 { self.stop = true; return e; }
                            for mask in 1u32..1 << full.len() {
                                let mut alt = self.clone();
                                for (i, f) in full.iter().enumerate() { if !bit(mask, i as u32) { alt.fns[*f].clear(); } }
                                self.alts.push(alt);
                            }
                            for f in full { self.fns[f].clear(); }
                        }
                        e
                    }
                    None => {
                        for f in gm.fns { self.fns[*f].clear(); }
                        Exp::Done
                    }
                }
            }
            HOp::Drop(g, unwinding) => {
                let gm = &meta.groups[*g];
                let r = self.verify_list(meta, gm.fns);
                for f in gm.fns { self.fns[*f].clear(); }
                self.alive[*g] = false;
                if *unwinding { Exp::Panic(vec![K::User], vec![]) }
                else if self.unwinding { Exp::Done }
                else { r.unwrap_or(Exp::Done) }
            }
            HOp::InUnwind(ops) => {
                self.unwinding = true;
                let r = ops.iter().map(|op| self.step(meta, op)).collect();
                self.unwinding = false;
                self.seen = Seen::default();
                Exp::Multi(r)
            }
            HOp::DropAllUnwinding => {
                for (g, gm) in meta.groups.iter().enumerate() {
                    if gm.kind != GKind::CkptOnly {
                        for f in gm.fns { self.fns[*f].clear(); }
                        self.alive[g] = false;
                    }
                }
                Exp::Panic(vec![K::User], vec![])
            }
        }
    }

    /// Can this step be taken at all (is it expressible in safe Rust)?
    pub fn enabled(&self, meta: &Meta, op: &HOp) -> bool {
        match op {
            HOp::NewSeq(_) => true,
            HOp::Create(g) => meta.groups[*g].kind != GKind::CkptOnly && !self.alive[*g],
            HOp::Expect { f, .. } => self.alive[meta.fns[*f].group],
            HOp::Call { f, .. } => {
                let g = meta.fns[*f].group;
                meta.groups[g].kind == GKind::Ctx || self.alive[g]
            }
            HOp::Ckpt(g) => self.alive[*g],
            HOp::Drop(g, _) => meta.groups[*g].kind != GKind::CkptOnly && self.alive[*g],
            HOp::DropAllUnwinding => true,
            HOp::InUnwind(ops) => {
                let mut m = self.clone();
                ops.iter().all(|op| m.enabled(meta, op) && { m.step(meta, op); true })
            }
        }
    }
}

/// Successor of an invocation number; large numbers wrap around (to 16,
/// beyond the panic masks)
pub fn next_inv(k: u8) -> u8 { if k >= 240 { 16 } else { k + 1 } }

pub fn bit(mask: u32, i: u32) -> bool {
    mask.checked_shr(i).unwrap_or(0) & 1 == 1
}
