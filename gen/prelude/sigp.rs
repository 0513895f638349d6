//! What generated signature tests use: types to pass around, and a report.
#![allow(dead_code)]
use std::cell::RefCell;

pub use std::borrow::Cow;
pub use std::ffi::{CStr, CString, OsStr, OsString};
pub use std::future::Future;
pub use std::path::{Path, PathBuf};
pub use std::pin::Pin;
pub use std::rc::Rc;
pub use std::sync::Arc;
pub type V = u8;

pub trait Dec { fn dec(&self) -> V; }
pub const STRS: [&str; 10] = ["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9"];
pub static NUMS: [u32; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
macro_rules! num { ($($t:ty),*) => { $(impl Dec for $t { fn dec(&self) -> V { *self as V } })* } }
num!(u8, u16, u32, u64, i8, i32, i64, usize, f64);
impl Dec for bool { fn dec(&self) -> V { if *self { 1 } else { 2 } } }
impl Dec for char { fn dec(&self) -> V { *self as u32 as V } }
impl Dec for () { fn dec(&self) -> V { 0 } }
impl Dec for str { fn dec(&self) -> V { assert_eq!(self.as_bytes()[0], b's'); self.as_bytes()[1] - b'0' } }
impl Dec for String { fn dec(&self) -> V { self.as_str().dec() } }
impl<T: Dec> Dec for [T] { fn dec(&self) -> V { assert_eq!(self.len(), 2); assert_eq!(self[0].dec(), 7); self[1].dec() } }
impl<T: Dec, const N: usize> Dec for [T; N] { fn dec(&self) -> V { self[..].dec() } }
impl<T: Dec> Dec for Vec<T> { fn dec(&self) -> V { self.as_slice().dec() } }
impl<A: Dec, B: Dec> Dec for (A, B) { fn dec(&self) -> V { assert_eq!(self.0.dec() + 1, self.1.dec()); self.0.dec() } }
impl Dec for Path { fn dec(&self) -> V { self.to_str().unwrap().dec() } }
impl Dec for PathBuf { fn dec(&self) -> V { self.as_path().dec() } }
impl Dec for OsStr { fn dec(&self) -> V { self.to_str().unwrap().dec() } }
impl Dec for CStr { fn dec(&self) -> V { self.to_str().unwrap().dec() } }
impl<T: Dec> Dec for Option<T> { fn dec(&self) -> V { match self { None => 0, Some(x) => x.dec() } } }
impl<T: Dec> Dec for Result<T, String> { fn dec(&self) -> V { match self { Ok(x) => x.dec(), Err(e) => e.dec() + 100 } } }
impl<T: Dec + ?Sized> Dec for &T { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized> Dec for &mut T { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized> Dec for Box<T> { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized> Dec for Rc<T> { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized> Dec for Arc<T> { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized> Dec for Pin<Box<T>> { fn dec(&self) -> V { (**self).dec() } }
impl<T: Dec + ?Sized + ToOwned> Dec for Cow<'_, T> { fn dec(&self) -> V { (**self).dec() } }
impl Dec for dyn Fn(u32) -> u32 + Send { fn dec(&self) -> V { self(0) as V } }
impl Dec for fn(u32) -> u32 { fn dec(&self) -> V { self(0) as V } }
impl Dec for *const u32 { fn dec(&self) -> V { unsafe { **self as V } } }
impl Dec for *const &u32 { fn dec(&self) -> V { unsafe { ***self as V } } }
impl Dec for std::cell::Cell<u32> { fn dec(&self) -> V { self.get() as V } }
pub fn fnlt(v: V) -> for<'x> fn(Lt<'x>) -> u32 {
    let f: [for<'x> fn(Lt<'x>) -> u32; 6] = [|_| 0, |_| 1, |_| 2, |_| 3, |_| 4, |_| 5];
    f[v as usize]
}
pub fn fnp(v: V) -> fn(u32) -> u32 {
    fn f1(x: u32) -> u32 { x + 1 }
    fn f2(x: u32) -> u32 { x + 2 }
    fn f3(x: u32) -> u32 { x + 3 }
    fn f4(x: u32) -> u32 { x + 4 }
    fn f5(x: u32) -> u32 { x + 5 }
    [f1, f1, f2, f3, f4, f5][v as usize]
}

pub trait DecT { fn d(&self) -> V; fn s(&mut self, v: V); }
#[derive(Debug, Clone, PartialEq)]
pub struct DV(pub V);
impl DecT for DV { fn d(&self) -> V { self.0 } fn s(&mut self, v: V) { self.0 = v } }
impl<T: DecT + ?Sized> DecT for Box<T> { fn d(&self) -> V { (**self).d() } fn s(&mut self, v: V) { (**self).s(v) } }
impl Dec for dyn DecT + '_ { fn dec(&self) -> V { self.d() } }
impl Dec for dyn DecT + Send + '_ { fn dec(&self) -> V { self.d() } }
impl Dec for dyn DecT + Send + Sync + '_ { fn dec(&self) -> V { self.d() } }
impl Dec for DV { fn dec(&self) -> V { self.0 } }
/// A trait with a parameter and one with a lifetime
pub trait DecG<T> { fn g(&self) -> V; }
impl<T> DecG<T> for DV { fn g(&self) -> V { self.0 } }
pub trait DecL<'a> { fn l(&self, x: &'a u32) -> V; }
impl<'a> DecL<'a> for DV { fn l(&self, x: &'a u32) -> V { self.0 + *x as V } }
/// No Debug
pub struct NonDebug(pub V);
impl Dec for NonDebug { fn dec(&self) -> V { self.0 } }
/// Not Clone
#[derive(Debug)]
pub struct Own(pub V);
impl Dec for Own { fn dec(&self) -> V { self.0 } }
#[derive(Debug, Clone, Copy)]
pub struct Lt<'a>(pub &'a u32);
impl Dec for Lt<'_> { fn dec(&self) -> V { *self.0 as V } }
pub trait DecI { type I; fn i(&self) -> V; }
pub struct LtI<T>(pub std::marker::PhantomData<fn() -> T>, pub V);
impl<T> DecI for LtI<T> { type I = T; fn i(&self) -> V { self.1 } }
pub trait Proj { type P; }
impl<T> Proj for Gen<T> { type P = T; }
pub trait ProjT<T> { type P; }
impl<T> ProjT<T> for u32 { type P = T; }
#[derive(Debug, Clone, Copy)]
pub struct Lt2<'a, 'b>(pub &'a u32, pub &'b u32);
impl Dec for Lt2<'_, '_> { fn dec(&self) -> V { assert_eq!(self.0, self.1); *self.0 as V } }
#[derive(Debug, Clone)]
pub struct Gen<T>(pub T);
impl<T: Dec> Dec for Gen<T> { fn dec(&self) -> V { self.0.dec() } }
#[derive(Debug, Clone, Copy)]
pub struct Cn<const N: usize>;
pub const LEN: usize = 2;
#[derive(Debug, Clone, Copy)]
pub struct Cn2<const N: usize>(pub V);
impl Dec for Cn2<2> { fn dec(&self) -> V { self.0 } }
impl<const N: usize> Dec for Cn<N> { fn dec(&self) -> V { N as V } }
pub type Alias = u32;
pub type AliasG<T> = Result<T, String>;
pub mod deep { pub mod er { pub type Ty = u32; pub type Ltd<'a> = &'a u32; pub trait Mark {} impl<T: ?Sized> Mark for T {} pub trait Mark2<Q> {} impl<T, Q> Mark2<Q> for T {} } }

pub trait Conc { fn get(&self) -> V; fn put(&mut self, v: V); }
impl Conc for DV { fn get(&self) -> V { self.0 } fn put(&mut self, v: V) { self.0 = v } }

pub fn block_on<F: Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, Waker};
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; }
    }
    panic!("future did not become ready")
}
/// A future whose output only exists after a few polls
pub struct Slow<T>(pub Option<T>, pub u8);
impl<T: Unpin> Future for Slow<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<T> {
        if self.1 == 0 { return std::task::Poll::Ready(self.0.take().unwrap()); }
        self.1 -= 1; cx.waker().wake_by_ref(); std::task::Poll::Pending
    }
}

thread_local! { static CUR: RefCell<(&'static str, usize, Vec<String>)> = RefCell::new(("", 0, vec![])); }
/// One observation of the current case
pub fn ck(ok: bool, what: &str) {
    CUR.with(|c| { let mut c = c.borrow_mut(); c.1 += 1; if !ok { c.2.push(what.to_string()); } });
}
pub fn eq(got: V, want: V, what: &str) { if got == want { ck(true, "") } else { ck(false, &format!("{what}: got {got}, expected {want}")) } }
pub fn msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
/// The closure must panic
pub fn panics(what: &str, f: impl FnOnce()) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(()) => ck(false, &format!("{what}: no panic")), Err(_) => ck(true, "") }
}
pub fn silent(what: &str, f: impl FnOnce()) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(()) => ck(true, ""), Err(e) => ck(false, &format!("{what}: panicked: {}", msg(e))) }
}
pub fn case(key: &'static str, f: fn()) {
    CUR.with(|c| *c.borrow_mut() = (key, 0, vec![]));
    let r = std::panic::catch_unwind(f);
    let (_, n, mut bad) = CUR.with(|c| std::mem::take(&mut *c.borrow_mut()));
    if let Err(e) = r { bad.push(format!("panicked: {}", msg(e))); }
    if n == 0 && bad.is_empty() { bad.push("nothing was checked".into()); }
    TOTAL.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    for b in bad { println!("BAD\t{key}\t{}", b.replace(['\n', '\t'], " ")); }
}
pub static TOTAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn start() { std::panic::set_hook(Box::new(|_| {})); }
pub fn done(cases: usize) { println!("DONE\t{cases}\t{}", TOTAL.load(std::sync::atomic::Ordering::Relaxed)); }
pub fn is_send<T: Send + ?Sized>() {}
pub fn is_sync<T: Sync + ?Sized>() {}
pub fn is_debug<T: std::fmt::Debug + ?Sized>() {}
pub fn is_default<T: Default>() {}
