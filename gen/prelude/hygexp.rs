// Its expansion supplies the names with which C24 tries to collide.
#![allow(warnings)]
use mockall::*;
#[automock]
pub trait T {
    fn v(&self, z1: u32) -> u32;
    fn r(&self, z1: u32) -> &u32;
    fn m(&mut self, z1: u32) -> &mut u32;
    fn d(&self, z1: u32) -> &dyn Send;
    fn i(&self, z1: u32) -> impl Send;
    fn g<Q: 'static>(&self, z1: Q) -> u32;
    fn gr<Q: 'static>(&self, z1: Q) -> &u32;
    fn gm<Q: 'static>(&mut self, z1: Q) -> &mut u32;
    fn s(z1: u32) -> u32;
    fn sg<Q: 'static>(z1: Q) -> u32;
    fn l<'x>(&self, z1: &'x u32) -> Option<&'x u32>;
    fn y(&self, z1: &dyn Send);
    fn f<F: Fn() + Send + 'static>(&self, z1: F);
    #[concretize]
    fn c<P: AsRef<str>>(&self, z1: P, z2: &[P]) -> u32;
}
#[automock]
pub trait G<X: 'static> { fn v(&self, z1: X) -> u32; fn s(z1: X) -> u32; }
mock! {
    pub S<X: 'static> { pub fn v(&self) -> u32; pub fn s(z1: X) -> X; }
    impl<X: 'static> Clone for S<X> { fn clone(&self) -> Self; }
}
#[automock]
pub mod mm { pub fn q(z1: u32) {} pub fn q2<Z: 'static>(z1: Z) {} extern "C" { pub fn e(z1: u32); } }
fn main() {}
