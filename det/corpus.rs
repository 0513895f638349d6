//--- trait
#[automock] pub trait Foo { fn foo(&self, x: u32) -> u32; fn bar(&mut self) -> &mut u32; fn baz(&self) -> &u32; }
//--- lifetimes
#[automock] pub trait Foo { fn foo<'a, 'b, 'c>(&self, x: &'a u32, y: &'b str, z: &'c [u8]) -> u32; }
//--- lifetimes in bounds
#[automock] pub trait Foo { fn foo<'a, 'b: 'a, 'c: 'a + 'b, 'd>(&self, x: &'a u32, y: &'b str, z: &'c [u8], w: Box<dyn AsRef<&'d u32> + 'static>) -> u32; }
//--- return lifetimes
pub struct X<'a>(&'a u32); pub struct Y<'a, 'b, 'c>(&'a u32, &'b u32, &'c u32);
#[automock] pub trait Foo { fn foo<'a>(&self, x: &'a u32) -> X<'a>; fn bar<'a, 'b, 'c>(&self, x: &'a u32, y: &'b u32, z: &'c u32) -> Y<'a, 'b, 'c>; fn anon(&self) -> X<'_>; }
//--- trait lifetimes
pub struct W<'a, 'b>(&'a u32, &'b u32);
#[automock] pub trait Foo<'a, 'b, 'c> { fn foo(&self, x: &'a u32, y: &'b u32, z: &'c u32) -> u32; fn w(&self, w: W<'a, 'b>) -> W<'b, 'c>; }
//--- generic struct
#[automock] pub trait Foo<T: Clone + 'static, U, V> where U: Copy + 'static, V: 'static { fn foo(&self, t: T, u: U) -> V; fn stat(t: T) -> U; }
//--- generic methods
#[automock] pub trait Foo { fn foo<T: Clone + 'static, U: 'static, V: 'static>(&self, t: T, u: U) -> V; fn bar<T>(&self, t: T) where T: std::fmt::Debug + Send + 'static; fn stat<T: 'static, U: 'static>(t: T) -> U; }
//--- where clauses and lifetimes
#[automock] pub trait Foo { fn foo<'a, 'b, T, U>(&self, t: &'a T, u: &'b U) -> u32 where T: std::fmt::Debug + 'static, U: Clone + 'static, 'a: 'b; }
//--- closures
#[automock] pub trait Foo { #[concretize] fn foo<F, G, H>(&self, f: F, g: G, h: H) where F: Fn(u32) -> u32, G: FnMut(&str), H: AsRef<str>; }
//--- Fn bounds
#[automock] pub trait Foo { fn foo<F: Fn(u32) -> u32 + Send + 'static, G: FnOnce(&u32) + Send + 'static>(&self, f: F, g: G) -> u32; }
//--- associated types
#[automock(type A = u32; type B = String; type C = Vec<u8>;)] pub trait Foo { type A; type B: Clone; type C: ?Sized; fn a(&self, b: Self::B) -> Self::A; fn c(&self) -> &Self::C; fn s(b: Self::B) -> <Self as Foo>::A; }
//--- many associated types
#[automock(type A = u32; type B = u8; type C = u16; type D = u64; type E = i8;)] pub trait Foo { type A; type B; type C; type D; type E; fn a(&self, b: Self::B, c: Self::C) -> (Self::A, Self::D, Self::E); }
//--- supertraits
pub trait A { fn a(&self); } pub trait B { fn b(&self); }
mock! { pub Foo { fn own(&self) -> u32; } impl A for Foo { fn a(&self); } impl B for Foo { fn b(&self); } impl Clone for Foo { fn clone(&self) -> Self; } }
//--- same trait with different arguments
pub trait Tr<T> { fn f(&self, t: T) -> T; }
mock! { pub Foo { } impl Tr<u32> for Foo { fn f(&self, t: u32) -> u32; } impl Tr<String> for Foo { fn f(&self, t: String) -> String; } impl Tr<Vec<(u8, Option<i64>)>> for Foo { fn f(&self, t: Vec<(u8, Option<i64>)>) -> Vec<(u8, Option<i64>)>; } }
//--- same trait on different instantiations
pub trait Tr { fn f(&self) -> u32; }
mock! { pub Foo<T: 'static> { } impl Tr for Foo<u32> { fn f(&self) -> u32; } impl Tr for Foo<String> { fn f(&self) -> u32; } }
//--- generic mock
pub trait Tr<T> { fn f(&self, t: T) -> T; }
mock! { pub Foo<T: Clone + 'static, U: 'static, V> where V: Copy + 'static { fn own<Q: 'static>(&self, t: T, q: Q) -> V; fn st(u: U) -> T; } impl<T: Clone + 'static, U: 'static, V: Copy + 'static> Tr<T> for Foo<T, U, V> { fn f(&self, t: T) -> T; } }
//--- attributes on trait impls
pub trait A { fn a(&self) -> u32; } pub trait B { fn a(&self) -> u32; }
mock! { pub Foo { #[cfg(all())] fn x(&self); #[allow(dead_code)] fn y(&self); } #[cfg(all())] impl A for Foo { fn a(&self) -> u32; } #[cfg(any())] impl A for Foo { fn a(&self) -> u32; } #[allow(unused)] impl B for Foo { #[inline] fn a(&self) -> u32; } }
//--- documentation
#[automock] /** docs */ pub trait Foo { /// more
 fn foo(&self); #[doc = "x"] #[must_use] fn bar(&self) -> u32; #[deprecated] fn baz(&self); }
//--- struct
pub struct Foo; #[automock] impl Foo { pub fn new(x: u32) -> Self { Foo } pub fn foo(&self) -> u32 { 0 } fn private(&self) { } pub fn stat(x: u32) -> u32 { x } }
//--- struct with trait
pub trait Bar { type T; fn bar(&self, t: Self::T) -> u32; } pub struct Foo; #[automock] impl Bar for Foo { type T = u32; fn bar(&self, t: u32) -> u32 { t } }
//--- generic struct impl
pub struct Foo<T, U>(T, U); #[automock] impl<T: Clone + 'static, U: 'static> Foo<T, U> { pub fn foo(&self, t: T) -> T { t } pub fn bar(u: U) -> U { u } }
//--- module
#[automock] pub mod m { pub fn a(x: u32) -> u32 { x } pub fn b<T: 'static>(t: T) -> T { t } pub fn c(x: &str) -> String { x.into() } fn private() { } }
//--- module with uses and types
#[automock] pub mod m { use std::io; pub type R = Result<(), ()>; pub fn a(x: u32) -> u32 { x } pub const fn c() -> u8 { 0 } }
//--- foreign
#[automock] pub mod ffi { extern "C" { pub fn a(x: u32) -> u32; pub fn b(x: i64) -> i64; } }
//--- foreign rust
#[automock] pub mod ffi2 { extern "Rust" { pub fn a(x: u32) -> u32; } }
//--- static and constructors
#[automock] pub trait Foo { fn new() -> Self; fn with(x: u32) -> Self; fn stat<T: 'static>(x: T) -> u32; fn boxed() -> Box<Self> where Self: Sized; }
//--- self by value
#[automock] pub trait Foo { fn a(self) -> u32; fn b(self: Box<Self>) -> u32; fn c(self: std::rc::Rc<Self>); fn d(self: std::sync::Arc<Self>); fn e(self: std::pin::Pin<&mut Self>); }
//--- impl trait
#[automock] pub trait Foo { fn a(&self) -> impl std::fmt::Debug; fn c(&self) -> impl std::future::Future<Output = u32> + Send; }
//--- mock impl trait
mock! { pub Foo { fn a(&self) -> impl std::fmt::Debug + Send; fn b(&self) -> impl Iterator<Item = u32>; } }
//--- async
mock! { pub Foo { async fn a(&self, x: u32) -> u32; async fn b(&mut self, s: &str) -> String; } }
//--- async_trait
#[automock] #[async_trait::async_trait] pub trait Foo { async fn a(&self, x: u32) -> u32; async fn b<T: Send + 'static>(&self, t: T) -> u32; }
//--- async trait with lifetimes
#[automock] pub trait Foo { fn a<'life0, 'life1, 'r>(&'life0 self, x: &'life1 str) -> std::pin::Pin<Box<dyn std::future::Future<Output = u32> + Send + 'r>> where 'life0: 'r, 'life1: 'r; }
//--- unsafe and extern
#[automock] pub unsafe trait Foo { unsafe fn a(&self) -> u32; extern "C" fn b(&self, x: u32); }
//--- associated consts
#[automock] pub trait Foo { const A: u32 = 1; const B: &'static str = "x"; fn a(&self) -> u32; }
mock! { pub Bar { } impl Foo for Bar { const A: u32 = 2; const B: &'static str = "y"; fn a(&self) -> u32; } }
//--- GAT
#[automock(type G<'a> = &'a u32; type H<T> = Vec<T>;)] pub trait Foo { type G<'a> where Self: 'a; type H<T>; fn a<'a>(&'a self) -> u32; }
//--- patterns and many arguments
#[automock] pub trait Foo { fn a(&self, mut x: u32, y: &mut u32, z: &[u8]) -> u32; fn b(&self, a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8) -> u32; }
//--- boxed and dyn
#[automock] pub trait Foo { fn b(&self, x: &dyn std::fmt::Debug) -> &dyn std::fmt::Debug; fn c(&self, x: Box<dyn std::fmt::Debug + Send>); fn d(&self) -> &str; fn e(&self) -> Option<&u32>; }
//--- visibility
mod inner { use super::*; #[automock] pub(crate) trait Foo { fn a(&self); } mock! { pub(super) Bar { pub fn a(&self); fn b(&self); pub(crate) fn c(&self); pub(in crate) fn d(&self); } } }
//--- debug and raw
#[automock] pub trait Foo { fn r#type(&self, r#fn: u32) -> u32; } mock! { pub Raw { fn r#match(&self, r#in: &str); } impl std::fmt::Debug for Raw { fn fmt<'a>(&self, f: &mut std::fmt::Formatter<'a>) -> std::fmt::Result; } }
//--- where Self
#[automock] pub trait Foo { fn a(&self) where Self: Sized; fn b<T: 'static>(&self, t: T) where Self: Sized + 'static; fn c(&self) -> u32 { 0 } }
//--- multiple traits with lifetimes and generics
pub trait P<'a, T> { fn p(&self, t: &'a T) -> u32; } pub trait Q<A, B> { fn q<'x, 'y>(&self, a: &'x A, b: &'y B) -> u32; }
mock! { pub Foo<T: 'static> { } impl<'a, T: 'static> P<'a, T> for Foo<T> { fn p(&self, t: &'a T) -> u32; } impl<T: 'static> Q<u8, T> for Foo<T> { fn q<'x, 'y>(&self, a: &'x u8, b: &'y T) -> u32; } }
//--- const generics
#[automock] pub trait Foo { fn a(&self, x: [u8; 4]) -> [u16; 2]; } 
//--- higher ranked
#[automock] pub trait Foo { fn a(&self, f: Box<dyn for<'a> AsRef<&'a u32>>) -> u32; fn b(&self, f: for<'q, 'r> fn(&'q u32, &'r u32) -> &'q u32) -> u32; fn c<T: for<'x, 'y> PartialEq<(&'x u32, &'y u32)> + 'static>(&self, t: T); }
//--- rejected: static method returning a reference
#[automock] pub trait Foo { fn a<'a>(x: &'a u32) -> &'a u32; }
//--- rejected: function
#[automock] pub fn foo() { }
//--- rejected: missing associated type
#[automock] pub trait Foo { type T; fn a(&self) -> Self::T; }
//--- rejected: syntax
mock! { pub Foo { fn a(&self) -> ; } }
//--- concretize with lifetimes
#[automock] pub trait Foo { #[concretize] fn a<'l, 'm, P: AsRef<std::path::Path>, Q: ?Sized>(&self, p: P, q: &'l Q, r: &'m u32) where Q: AsRef<str>; #[concretize] fn s<P>(p: &P) where P: AsRef<str>; }
//--- rejected: Fn objects
#[automock] pub trait Foo { fn a(&self) -> Box<dyn Fn(u32) -> u32>; }
//--- rejected: patterns
#[automock] pub trait Foo { fn a(&self, _: u32); }
//--- rejected: const generics
mock! { pub Bar<const N: usize> { fn a(&self, x: [u8; N]) -> u32; } }
