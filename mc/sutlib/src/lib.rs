//! Glue between the abstract values of the model and real Rust types, used by
//! the generated shapes.
pub use engine::*;
pub use std::sync::Arc;
use std::fmt::{self, Debug, Display};
use std::path::{Path, PathBuf};

/// Decode a real value into an abstract one
pub trait Dec { fn dec(&self) -> V; }
/// Overwrite through a mutable reference
pub trait SetV { fn setv(&mut self, v: V); }

pub const STRS: [&str; 10] = ["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9"];
pub static NUMS: [u32; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];

impl Dec for u8 { fn dec(&self) -> V { *self } }
impl Dec for u32 { fn dec(&self) -> V { *self as V } }
impl Dec for i64 { fn dec(&self) -> V { *self as V } }
impl Dec for () { fn dec(&self) -> V { 0 } }
// The empty string is the Default value
impl Dec for str { fn dec(&self) -> V { if self.is_empty() { 0 } else { self.as_bytes()[1] - b'0' } } }
impl Dec for String { fn dec(&self) -> V { self.as_str().dec() } }
impl Dec for [u8] { fn dec(&self) -> V { if self.is_empty() { return 0 } assert_eq!(self.len(), 2); assert_eq!(self[0], 7); self[1] } }
impl Dec for [u8; 2] { fn dec(&self) -> V { assert_eq!(self[0], 7); self[1] } }
impl Dec for Vec<u8> { fn dec(&self) -> V { self.as_slice().dec() } }
impl Dec for (u32, u32) { fn dec(&self) -> V { assert_eq!(self.0 + 1, self.1); self.0 as V } }
impl Dec for Path { fn dec(&self) -> V { self.to_str().unwrap().dec() } }
impl Dec for PathBuf { fn dec(&self) -> V { self.as_path().dec() } }
impl Dec for std::ffi::OsStr { fn dec(&self) -> V { self.to_str().unwrap().dec() } }
impl Dec for std::ffi::CStr { fn dec(&self) -> V { self.to_str().unwrap().dec() } }
impl Dec for Tracked { fn dec(&self) -> V { self.v } }
impl<T: Dec> Dec for Option<T> { fn dec(&self) -> V { match self { None => 0, Some(x) => { let v = x.dec(); assert!(v != 0); v } } } }
impl<T: Dec> Dec for Result<T, String> { fn dec(&self) -> V { match self { Ok(x) => { let v = x.dec(); assert!(v % 2 == 0); v }, Err(e) => { let v = e.dec(); assert!(v % 2 == 1); v } } } }
impl<T: Dec + ?Sized> Dec for &T { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized> Dec for &mut T { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized> Dec for Box<T> { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized> Dec for std::rc::Rc<T> { fn dec(&self) -> V { (**self).dec() } }
impl Dec for dyn Fn(u32) -> u32 + Send { fn dec(&self) -> V { self(0) as V } }
impl Dec for fn(u32) -> u32 { fn dec(&self) -> V { self(0) as V } }

pub fn opt(v: V) -> Option<u32> { if v == 0 { None } else { Some(v as u32) } }
pub fn res(v: V) -> Result<u32, String> { if v % 2 == 0 { Ok(v as u32) } else { Err(STRS[v as usize].into()) } }
pub fn fnp(v: V) -> fn(u32) -> u32 {
    fn f0(x: u32) -> u32 { x }
    fn f1(x: u32) -> u32 { x + 1 }
    fn f2(x: u32) -> u32 { x + 2 }
    [f0, f1, f2][v as usize]
}

/// A user trait, used as trait object and impl trait
pub trait DecT { fn d(&self) -> V; fn s(&mut self, v: V); }
#[derive(Debug, Clone, PartialEq)]
pub struct DV(pub V);
impl DecT for DV { fn d(&self) -> V { self.0 } fn s(&mut self, v: V) { self.0 = v } }
impl DecT for Box<dyn DecT> { fn d(&self) -> V { (**self).d() } fn s(&mut self, v: V) { (**self).s(v) } }
impl DecT for Box<dyn DecT + Send> { fn d(&self) -> V { (**self).d() } fn s(&mut self, v: V) { (**self).s(v) } }
impl DecT for Box<dyn DecT + Send + Sync> { fn d(&self) -> V { (**self).d() } fn s(&mut self, v: V) { (**self).s(v) } }
impl Dec for dyn DecT + '_ { fn dec(&self) -> V { self.d() } }
impl Dec for dyn DecT + Send + '_ { fn dec(&self) -> V { self.d() } }
impl Dec for dyn DecT + Send + Sync + '_ { fn dec(&self) -> V { self.d() } }
impl Dec for DV { fn dec(&self) -> V { self.0 } }

/// No Debug
pub struct NonDebug(pub V);
impl Dec for NonDebug { fn dec(&self) -> V { self.0 } }

/// Has a lifetime
#[derive(Debug, Clone, Copy)]
pub struct Lt<'a>(pub &'a u32);
impl Dec for Lt<'_> { fn dec(&self) -> V { *self.0 as V } }

/// Two types of the same name and path
pub trait Family { type T; }
pub struct Left;
pub struct Right;
pub type SameA = <Left as Family>::T;
pub type SameB = <Right as Family>::T;
macro_rules! same { ($t:ty) => {
    const _: () = {
        pub struct Same(V);
        impl Same { pub fn new(v: V) -> Self { Same(v) } }
        impl Dec for Same { fn dec(&self) -> V { self.0 } }
        impl Family for $t { type T = Same; }
    };
} }
same!(Left);
same!(Right);

/// For concretized arguments
pub trait Conc { fn get(&self) -> V; fn put(&mut self, v: V); }
impl Conc for DV { fn get(&self) -> V { self.0 } fn put(&mut self, v: V) { self.0 = v } }
impl Dec for dyn Conc + '_ { fn dec(&self) -> V { self.get() } }
impl Dec for [&(dyn Conc + '_)] { fn dec(&self) -> V { assert_eq!(self.len(), 2); assert_eq!(self[0].get(), 7); self[1].get() } }

impl SetV for u32 { fn setv(&mut self, v: V) { *self = v as u32 } }
impl SetV for str { fn setv(&mut self, v: V) { if self.is_empty() { return } unsafe { self.as_bytes_mut()[1] = b'0' + v } } }
impl SetV for String { fn setv(&mut self, v: V) { *self = STRS[v as usize].into() } }
impl SetV for [u8] { fn setv(&mut self, v: V) { if !self.is_empty() { self[1] = v } } }
impl SetV for dyn DecT + '_ { fn setv(&mut self, v: V) { self.s(v) } }
impl SetV for dyn DecT + Send + Sync + '_ { fn setv(&mut self, v: V) { self.s(v) } }

pub struct SetPred(pub u8);
impl<T: Dec + ?Sized> mockall::Predicate<T> for SetPred {
    fn eval(&self, t: &T) -> bool {
        let v = t.dec();
        if self.0 >> (v + 4) & 1 == 1 { user_panic() }
        self.0 >> v & 1 == 1
    }
}
impl predicates::reflection::PredicateReflection for SetPred {}
impl Display for SetPred {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "set{:03b}", self.0 & 7) }
}
impl Debug for SetPred {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self}") }
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, Waker};
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; }
    }
    panic!("mock future did not become ready")
}

/// Sequences owned by a `Sut`
pub struct Seqs(pub Vec<mockall::Sequence>);
impl Default for Seqs {
    fn default() -> Self { Seqs((0..NSLOTS).map(|_| mockall::Sequence::new()).collect()) }
}
impl Seqs { pub fn renew(&mut self, s: usize) { self.0[s] = mockall::Sequence::new(); } }

#[macro_export]
macro_rules! apply_times {
    ($e:expr, $t:expr) => { match *$t {
        TF::N(n) => $e.times(n),
        TF::R(a, b) => $e.times(a..b),
        TF::RI(a, b) => $e.times(a..=b),
        TF::RF(a) => $e.times(a..),
        TF::RT(b) => $e.times(..b),
        TF::RTI(b) => $e.times(..=b),
        TF::Full => $e.times(..),
        TF::Never => $e.never(),
        TF::Once => $e.once(),
    } }
}

/// A context of unnameable type together with its operations
pub trait CtxObj {
    fn expect(&self, id: u32, ops: &[Op], on_guard: bool, env: &Arc<Env>, seqs: &mut Seqs);
    fn ckpt(&self);
}
struct CtxBox<C, FE, FC> { c: C, fe: FE, fc: FC }
impl<C, FE, FC> CtxObj for CtxBox<C, FE, FC>
where FE: Fn(&C, u32, &[Op], bool, &Arc<Env>, &mut Seqs), FC: Fn(&C)
{
    fn expect(&self, id: u32, ops: &[Op], on_guard: bool, env: &Arc<Env>, seqs: &mut Seqs) {
        (self.fe)(&self.c, id, ops, on_guard, env, seqs)
    }
    fn ckpt(&self) { (self.fc)(&self.c) }
}
pub fn mk_ctx<C: 'static, FE, FC>(c: C, fe: FE, fc: FC) -> Box<dyn CtxObj>
where FE: Fn(&C, u32, &[Op], bool, &Arc<Env>, &mut Seqs) + 'static, FC: Fn(&C) + 'static
{
    Box::new(CtxBox { c, fe, fc })
}
