//! A symbolic scalar that stands in for `f32` in the code under test.
pub mod collections;
pub mod ctx;
pub mod f32m;
pub mod fnum;
pub mod hints;
pub mod poly;
pub mod solver;
pub use ctx::{stop, with, Stop, B, CTX};
pub use fnum::{lit, same, within, Cast, F};
pub use poly::Rat;

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
thread_local! {
    static TICKS: Cell<u64> = Cell::new(0);
    static ENTERED: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new());
}
/// Iterations of loops and calls of the code under test on one path before it counts as not terminating.
pub const TICK_LIMIT: u64 = 200_000;
pub const HANG: &str = "the code under test does not seem to terminate";
pub fn tick() {
    let n = TICKS.with(|t| { let n = t.get() + 1; t.set(n); n });
    if n > TICK_LIMIT { stop(Stop::Limit(HANG.into())); }
}
pub fn enter(name: &'static str) {
    ENTERED.with(|e| { e.borrow_mut().insert(name); });
    tick();
}
pub fn reset_ticks() { TICKS.with(|t| t.set(0)); }
/// Functions of the code under test executed symbolically on this thread so far.
pub fn entered() -> Vec<&'static str> { ENTERED.with(|e| e.borrow().iter().cloned().collect()) }
pub fn take_entered() -> Vec<&'static str> { ENTERED.with(|e| e.borrow_mut().drain().collect()) }
