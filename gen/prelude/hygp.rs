//! What generated hygiene tests use.
use std::cell::Cell;
thread_local! { static FAIL: std::cell::RefCell<Option<String>> = Default::default(); static N: Cell<usize> = Cell::new(0); static CHECKS: Cell<usize> = Cell::new(0); }
pub fn hyg_ck(ok: bool, what: &str) {
    CHECKS.with(|c| c.set(c.get() + 1));
    if !ok { FAIL.with(|f| { f.borrow_mut().get_or_insert_with(|| what.to_string()); }); }
}
pub fn hyg_panics(what: &str, parts: &[&str], f: impl FnOnce()) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(_) => hyg_ck(false, &format!("{what}: no panic")),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let mut at = 0;
            for p in parts {
                match m[at..].find(p) {
                    Some(i) => at += i + p.len(),
                    None => return hyg_ck(false, &format!("{what}: {m:?} does not name {p:?}")),
                }
            }
            hyg_ck(true, "");
        }
    }
}
pub fn hyg_silent(what: &str, f: impl FnOnce()) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        hyg_ck(false, &format!("{what}: panicked with {m:?}"));
    }
}
pub fn hyg_start() { std::panic::set_hook(Box::new(|_| {})); }
pub fn hyg_case(key: &str, f: fn()) {
    FAIL.with(|f| *f.borrow_mut() = None);
    if let Err(e) = std::panic::catch_unwind(f) {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        println!("BAD\t{key}\tunexpected panic {m:?}");
    } else if let Some(w) = FAIL.with(|f| f.borrow_mut().take()) { println!("BAD\t{key}\t{}", w.replace('\n', " ")); }
    N.with(|n| n.set(n.get() + 1));
}
pub fn hyg_done(n: usize) { assert_eq!(n, N.with(|n| n.get())); println!("DONE\t{n}\t{}", CHECKS.with(|n| n.get())); }
/// block on a future
pub fn hyg_block<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    match f.as_mut().poll(&mut std::task::Context::from_waker(&w)) { std::task::Poll::Ready(x) => x, _ => panic!("pending") }
}
pub trait Hs { fn hs(&self) -> String; }
impl Hs for String { fn hs(&self) -> String { self.clone() } }
pub fn hs<T: AsRef<str> + ?Sized>(x: &T) -> String { x.as_ref().to_string() }
pub fn cat(x: &[&String]) -> String { x.iter().map(|s| s.as_str()).collect() }
pub fn block<T>(f: impl std::future::Future<Output = T>) -> T { hyg_block(f) }
pub trait Num { fn num(&self) -> u32; }
impl Num for u32 { fn num(&self) -> u32 { *self } }
