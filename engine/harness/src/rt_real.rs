//! Replays a model on the real crate.
//!
//! usage: harness_real HARNESS MODEL_FILE      exit 1: the property is violated; 0: it held; 3: the model does not apply
use std::cell::RefCell;
use std::collections::HashMap;

pub type F = f32;
pub fn num(x: f64) -> F { x as f32 }
pub fn frac(n: i64, d: i64) -> F { (n as f64 / d as f64) as f32 }
pub fn f64_of(x: F) -> f64 { x as f64 }

/// How far a formula is from being violated (negative: violated by that much).
#[derive(Clone, Copy, Debug)]
pub struct B(pub f64);
impl B {
    pub fn and(self, o: B) -> B { if self.0.is_nan() || o.0.is_nan() { B(f64::NAN) } else { B(self.0.min(o.0)) } }
    pub fn or(self, o: B) -> B { if self.0.is_nan() { o } else if o.0.is_nan() { self } else { B(self.0.max(o.0)) } }
    pub fn not(self) -> B { B(-self.0) }
    pub fn implies(self, o: B) -> B { self.not().or(o) }
}
fn scale(a: F, b: F) -> f64 { (a.abs() as f64).max(b.abs() as f64).max(1.0) }
fn diff(a: F, b: F) -> f64 { if a == b { 0.0 } else { a as f64 - b as f64 } }
pub fn boolean(b: bool) -> B { B(if b { f64::INFINITY } else { f64::NEG_INFINITY }) }
pub fn lt(a: F, b: F) -> B { B(diff(b, a)) }
pub fn le(a: F, b: F) -> B { B(diff(b, a)) }
pub fn gt(a: F, b: F) -> B { B(diff(a, b)) }
pub fn ge(a: F, b: F) -> B { B(diff(a, b)) }
/// Equality in exact arithmetic; rounding is forgiven.
pub fn eq(a: F, b: F) -> B { B(1e-3 * scale(a, b) - diff(a, b).abs()) }
pub fn close(a: F, b: F, tol: f64) -> B { B(0.5 * tol * scale(a, b) - diff(a, b).abs()) }
pub fn le_tol(a: F, b: F, tol: f64) -> B { B(diff(b, a) + 0.5 * tol * scale(a, b)) }

struct State { reals: HashMap<String, f64>, chooses: Vec<usize>, next: usize }
thread_local! { static ST: RefCell<State> = RefCell::new(State { reals: HashMap::new(), chooses: vec![], next: 0 }); }

struct Invalid(String);
struct Violated(String);

pub struct Cx;
impl Cx {
    pub fn real(&mut self, name: &str, lo: f64, hi: f64) -> F {
        ST.with(|s| match s.borrow().reals.get(name) { Some(v) => *v as f32, None => (0.5 * (lo + hi)) as f32 })
    }
    pub fn int(&mut self, _name: &str, k: usize) -> usize {
        ST.with(|s| { let mut s = s.borrow_mut(); let i = s.next; s.next += 1; let v = s.chooses.get(i).cloned().unwrap_or(0); v.min(k - 1) })
    }
    pub fn hint(&mut self, _: F) {}
    pub fn cut(&mut self) {}
    pub fn assume(&mut self, b: B) {
        if !(b.0 > -1e-3) { std::panic::panic_any(Invalid(format!("assumption missed by {}", b.0))); }
    }
    pub fn check(&mut self, label: &str, b: B) {
        if !(b.0 >= -2e-4) { std::panic::panic_any(Violated(format!("{} (by {:.3e})", label, -b.0))); }
    }
    pub fn reached(&mut self, label: &str) { eprintln!("REACHED {}", label); }
}

/// Runs code that may panic; true if it did.
pub fn panics(f: impl FnOnce()) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(p) => { if p.is::<Invalid>() || p.is::<Violated>() { std::panic::resume_unwind(p); } true }
    }
}

pub struct Harness { pub prop: &'static str, pub name: &'static str, pub run: fn(&mut Cx), pub about: &'static str, pub bounds: &'static str, pub thorough: bool, pub reach: &'static [&'static str] }

pub fn main(reg: Vec<Harness>) {
    let a: Vec<String> = std::env::args().collect();
    let h = match reg.iter().find(|h| h.name == a[1]) { Some(h) => h, None => { eprintln!("no such harness"); std::process::exit(2) } };
    let text = std::fs::read_to_string(&a[2]).expect("model file");
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first() {
                Some(&"real") => { s.reals.insert(w[1].to_string(), w[2].parse().unwrap()); }
                Some(&"choose") => s.chooses.push(w[2].parse().unwrap()),
                _ => {}
            }
        }
    });
    std::panic::set_hook(Box::new(|_| {}));
    let run = h.run;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut Cx)));
    match r {
        Ok(()) => { eprintln!("REPLAY held"); std::process::exit(0) }
        Err(p) => {
            if let Some(Invalid(s)) = p.downcast_ref::<Invalid>() { eprintln!("REPLAY invalid: {}", s); std::process::exit(3) }
            if let Some(Violated(s)) = p.downcast_ref::<Violated>() { eprintln!("REPLAY violated: {}", s); std::process::exit(1) }
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("REPLAY violated: panic: {}", m.lines().next().unwrap_or(""));
            std::process::exit(1)
        }
    }
}
