//! The mocks under test and how to operate them.
use engine::*;
use mockall::*;
use std::sync::Arc; // not instrumented: re-exported from the real std
use sched::Op as SOp;

pub trait D: 'static { fn d(&self) -> V; fn mk(v: V) -> Self; }
impl D for u32 { fn d(&self) -> V { *self as V } fn mk(v: V) -> Self { v as u32 } }
impl D for i64 { fn d(&self) -> V { *self as V } fn mk(v: V) -> Self { v as i64 } }
impl D for String { fn d(&self) -> V { self.as_bytes()[0] - b'0' } fn mk(v: V) -> Self { v.to_string() } }

#[automock]
pub trait Cc {
    fn v(&self, x: u32) -> u32;
    fn r(&self, x: u32) -> &u32;
    fn g<T: D>(&self, x: T) -> u32;
    fn s(x: u32) -> u32;
    fn sg<T: D>(x: T) -> u32;
}

// The same through mock!, with a generic struct and trait implementations
pub trait Ct { fn t(&self, x: u32) -> u32; }
mock! {
    pub Gs<X: D> { pub fn gi(&self, x: X) -> u32; pub fn gs(x: X) -> u32; }
    impl<X: D> Ct for Gs<X> { fn t(&self, x: u32) -> u32; }
}

#[automock]
pub mod md {
    pub fn f(_x: u32) -> u32 { unimplemented!() }
    pub fn h(_x: u32) -> u32 { unimplemented!() }
}

pub const AV: usize = 0;
pub const AR: usize = 1;
pub const AG: usize = 2;
pub const BV: usize = 3;
pub const ST: usize = 4;
pub const SGU: usize = 5;
pub const SGI: usize = 6;
pub const MF: usize = 7;
pub const MH: usize = 8;
pub const GI: usize = 9;
pub const GT: usize = 10;
pub const GS: usize = 11;

pub const A: usize = 0;
pub const B: usize = 1;
pub const CS: usize = 2;
pub const CSG: usize = 3;
pub const CMF: usize = 4;
pub const CMH: usize = 5;
pub const MOD: usize = 6;
pub const G: usize = 7;
pub const CGS: usize = 8;

fn fm(name: &'static str, group: usize, class: RetClass) -> FnMeta {
    FnMeta { name, cname: name, group, arity: 1, dom: 3, dbg: &[|v| v.to_string()], class, rmod: 10, clone: true, with: true,
        consumes: false, sync: true, dflt: None, mutargs: &[], setdef: false }
}
pub fn meta() -> Meta {
    use RetClass::*;
    let g = |kind, fns| GMeta { kind, fns };
    Meta {
        name: "conc",
        fns: vec![fm("MockCc::v", A, Static), fm("MockCc::r", A, Ref), fm("MockCc::g", A, Static), fm("MockCc::v(B)", B, Static),
            fm("MockCc::s", CS, Static), fm("MockCc::sg<u32>", CSG, Static), fm("MockCc::sg<i64>", CSG, Static),
            fm("mock_md::f", CMF, Static), fm("mock_md::h", CMH, Static),
            fm("MockGs::gi", G, Static), fm("MockGs::t", G, Static), fm("MockGs::gs", CGS, Static)],
        groups: vec![g(GKind::Object, &[AV, AR, AG]), g(GKind::Object, &[BV]), g(GKind::Ctx, &[ST]), g(GKind::Ctx, &[SGU, SGI]),
            g(GKind::Ctx, &[MF]), g(GKind::Ctx, &[MH]), g(GKind::CkptOnly, &[MF, MH]), g(GKind::Object, &[GI, GT]), g(GKind::Ctx, &[GS])],
    }
}

macro_rules! times {
    ($e:expr, $t:expr) => { match *$t {
        TF::N(n) => $e.times(n),
        TF::R(a, b) => $e.times(a..b),
        TF::RI(a, b) => $e.times(a..=b),
        TF::RF(a) => $e.times(a..),
        TF::RT(b) => $e.times(..b),
        TF::RTI(b) => $e.times(..=b),
        TF::Full => $e.times(..),
        TF::Never => $e.never(),
        TF::Once => $e.once(),
    } }
}

/// A scheduling point inside of a user closure
fn inside(id: u32) { sched::point(SOp::Write(1 + id as usize)) }

macro_rules! common_op {
    ($e:expr, $op:expr, $id:expr, $env:expr, $seqs:expr, $T:ty, |$s:ident| $rest:expr) => {{
        let (id, env) = ($id, $env);
        match $op {
            Op::Times(t) => times!($e, t),
            Op::Seq(q) => $e.in_sequence(&mut $seqs[*q]),
            Op::Match(MOp::With(p)) => { let p = p[0]; $e.with(predicate::function(move |x: &$T| p >> x.d() & 1 == 1)) }
            Op::Match(MOp::Withf(t, p)) => { let (t, p, env) = (*t, *p, env.clone()); $e.withf(move |x| env.matcher(id, t, p, 3, &[x.d()], false)) }
            Op::Match(MOp::WithfSt(t, p)) => { let (t, p, env) = (*t, *p, env.clone()); $e.withf_st(move |x| env.matcher(id, t, p, 3, &[x.d()], true)) }
            Op::Ret($s) => $rest,
        }
    }}
}
macro_rules! ret_op {
    ($e:expr, $r:expr, $id:expr, $env:expr) => {{
        let (id, env) = ($id, $env.clone());
        match $r {
            ROp::Const(v) => $e.return_const(*v as u32),
            ROp::ConstSt(v) => $e.return_const_st(*v as u32),
            ROp::Mut(b, p) => { let (b, p, mut k) = (*b, *p, 0u8);
                $e.returning(move |x| { let q = k; inside(id); k = q + 1; env.ret(id, &[x.d()], p, q, false); ((b + q) % 10) as u32 }) }
            ROp::MutSt(b, p) => { let (b, p, mut k) = (*b, *p, 0u8);
                $e.returning_st(move |x| { let q = k; inside(id); k = q + 1; env.ret(id, &[x.d()], p, q, true); ((b + q) % 10) as u32 }) }
            ROp::Once(b, p) => { let (b, p) = (*b, *p);
                $e.return_once(move |x| { inside(id); env.ret(id, &[x.d()], p, 0, false); b as u32 }) }
            ROp::OnceSt(b, p) => { let (b, p) = (*b, *p);
                $e.return_once_st(move |x| { inside(id); env.ret(id, &[x.d()], p, 0, true); b as u32 }) }
            ROp::Var(_) => unreachable!(),
        }
    }}
}
macro_rules! apply {
    ($e:expr, $op:expr, $id:expr, $env:expr, $seqs:expr, $T:ty) => {
        common_op!($e, $op, $id, $env, $seqs, $T, |r| ret_op!($e, r, $id, $env))
    }
}
macro_rules! apply_ref {
    ($e:expr, $op:expr, $id:expr, $env:expr, $seqs:expr) => {
        common_op!($e, $op, $id, $env, $seqs, u32, |r| match r { ROp::Const(v) => $e.return_const(*v as u32), _ => unreachable!() })
    }
}

/// The shared objects of one execution
pub struct Sys {
    pub a: MockCc,
    pub b: MockCc,
    pub g: MockGs<u32>,
    pub seqs: Vec<Sequence>,
}

impl Sys {
    pub fn new() -> Self { Sys { a: MockCc::new(), b: MockCc::new(), g: MockGs::new(), seqs: (0..NSLOTS).map(|_| Sequence::new()).collect() } }
    pub fn expect(&mut self, f: usize, id: u32, ops: &[Op], env: &Arc<Env>) {
        let q = &mut self.seqs;
        match f {
            AV => { let e = self.a.expect_v(); for o in ops { apply!(e, o, id, env, q, u32); } }
            AR => { let e = self.a.expect_r(); for o in ops { apply_ref!(e, o, id, env, q); } }
            AG => { let e = self.a.expect_g::<String>(); for o in ops { apply!(e, o, id, env, q, String); } }
            BV => { let e = self.b.expect_v(); for o in ops { apply!(e, o, id, env, q, u32); } }
            GI => { let e = self.g.expect_gi(); for o in ops { apply!(e, o, id, env, q, u32); } }
            GT => { let e = self.g.expect_t(); for o in ops { apply!(e, o, id, env, q, u32); } }
            _ => ctx_expect(f, id, ops, false, env, q),
        }
    }
    pub fn call(&self, f: usize, x: V) -> V {
        (match f {
            AV => self.a.v(x as u32),
            AR => *self.a.r(x as u32),
            AG => self.a.g::<String>(D::mk(x)),
            BV => self.b.v(x as u32),
            ST => MockCc::s(x as u32),
            SGU => MockCc::sg::<u32>(x as u32),
            SGI => MockCc::sg::<i64>(x as i64),
            MF => mock_md::f(x as u32),
            MH => mock_md::h(x as u32),
            GI => self.g.gi(x as u32),
            GT => self.g.t(x as u32),
            GS => MockGs::<u32>::gs(x as u32),
            _ => unreachable!(),
        }) as V
    }
}

type Dyn = Box<dyn std::any::Any>;
/// Context objects, type erased; ZSTs whose drop clears the expectations
pub fn mk_ctx(g: usize) -> Dyn {
    match g {
        CS => Box::new(MockCc::s_context()),
        CSG => Box::new(MockCc::sg_context()),
        CMF => Box::new(mock_md::f_context()),
        CMH => Box::new(mock_md::h_context()),
        CGS => Box::new(MockGs::<u32>::gs_context()),
        _ => unreachable!(),
    }
}
macro_rules! chain {
    ($ctx:expr, $e:ident, $ops:expr, $guard:expr, $id:expr, $env:expr, $q:expr, $T:ty, $($gen:tt)*) => {{
        let ctx = std::mem::ManuallyDrop::new($ctx);
        let mut g = ctx.expect $($gen)* ();
        if $guard { for o in $ops { apply!(g, o, $id, $env, $q, $T); } }
        else {
            let Some((first, rest)) = $ops.split_first() else { return };
            let e = apply!(g, first, $id, $env, $q, $T);
            for o in rest { apply!(e, o, $id, $env, $q, $T); }
        }
    }}
}
/// Set an expectation on a static function, through a context that is not
/// dropped
pub fn ctx_expect(f: usize, id: u32, ops: &[Op], guard: bool, env: &Arc<Env>, q: &mut [Sequence]) {
    match f {
        ST => chain!(MockCc::s_context(), e, ops, guard, id, env, q, u32, ),
        SGU => chain!(MockCc::sg_context(), e, ops, guard, id, env, q, u32, ::<u32>),
        SGI => chain!(MockCc::sg_context(), e, ops, guard, id, env, q, i64, ::<i64>),
        MF => chain!(mock_md::f_context(), e, ops, guard, id, env, q, u32, ),
        MH => chain!(mock_md::h_context(), e, ops, guard, id, env, q, u32, ),
        GS => chain!(MockGs::<u32>::gs_context(), e, ops, guard, id, env, q, u32, ),
        _ => unreachable!(),
    }
}
pub fn ctx_ckpt(g: usize) {
    use std::mem::ManuallyDrop as M;
    match g {
        CS => M::new(MockCc::s_context()).checkpoint(),
        CSG => M::new(MockCc::sg_context()).checkpoint(),
        CMF => M::new(mock_md::f_context()).checkpoint(),
        CMH => M::new(mock_md::h_context()).checkpoint(),
        CGS => M::new(MockGs::<u32>::gs_context()).checkpoint(),
        MOD => mock_md::checkpoint(),
        _ => unreachable!(),
    }
}
