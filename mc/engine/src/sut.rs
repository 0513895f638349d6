//! Interface between the explorer and a real system under test.
use crate::model::*;
use std::sync::atomic::{AtomicIsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::thread::ThreadId;

/// Lock ignoring poison: harness state stays usable after injected panics.
pub fn lk<T: ?Sized>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub id: u32,
    pub ret: bool,
    pub args: Vec<V>,
    pub thread: ThreadId,
    pub st: bool,
}

/// Per-history environment shared with the closures installed in the mocks.
pub struct Env {
    pub log: Mutex<Vec<Ev>>,
    pub live: Arc<AtomicIsize>,
    /// identity of the sequences; the real ones live in the `Sut`
    pub owner: ThreadId,
}

pub struct UserPanic;
pub const USER_MSG: &str = "@user panic@";

pub fn user_panic() -> ! {
    panic!("{}", USER_MSG)
}

impl Env {
    pub fn new() -> Arc<Env> {
        Arc::new(Env {
            log: Mutex::new(vec![]),
            live: Arc::new(AtomicIsize::new(0)),
            owner: std::thread::current().id(),
        })
    }
    fn push(&self, id: u32, ret: bool, args: &[V], st: bool) {
        lk(&self.log).push(Ev { id, ret, args: args.to_vec(), thread: std::thread::current().id(), st });
    }
    /// Called by matching functions
    pub fn matcher(&self, id: u32, table: u32, panics: u32, dom: V, args: &[V], st: bool) -> bool {
        self.push(id, false, args, st);
        let i = tuple_index(args, dom);
        if bit(panics, i) { user_panic() }
        bit(table, i)
    }
    /// Called by return closures; k is the invocation number
    pub fn ret(&self, id: u32, args: &[V], panics: u8, k: u8, st: bool) {
        self.push(id, true, args, st);
        if bit(panics as u32, k as u32) { user_panic() }
    }
}

/// A by-value token whose live instances are counted
pub struct Tracked {
    pub v: V,
    live: Arc<AtomicIsize>,
}
impl Tracked {
    pub fn new(v: V, env: &Env) -> Self {
        env.live.fetch_add(1, Ordering::SeqCst);
        Tracked { v, live: env.live.clone() }
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.live.fetch_sub(1, Ordering::SeqCst);
    }
}

#[derive(Clone, Debug, Default)]
pub struct CallRet {
    pub val: V,
    /// (position, value after the call) of `&mut` arguments
    pub after: Vec<(usize, V)>,
    /// address of the referent, for reference returns
    pub addr: usize,
}

/// The real thing.
pub trait Sut {
    fn create(&mut self, g: usize);
    fn drop_group(&mut self, g: usize);
    fn expect(&mut self, f: usize, id: u32, ops: &[Op], on_guard: bool, env: &Arc<Env>);
    fn call(&mut self, f: usize, args: &[V], set: Option<V>, env: &Arc<Env>) -> CallRet;
    fn ckpt(&mut self, g: usize);
    fn new_seq(&mut self, s: usize);
}

pub struct Shape {
    pub meta: Meta,
    pub make: fn() -> Box<dyn Sut>,
}
