//! The symbolic execution context of one path: atoms, values, path condition, decisions.
use crate::poly::*;
use crate::solver::{Answer, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;

/// num / product of factors.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Val { pub num: Poly, pub den: Vec<(u32, u32)> }

impl Val {
    pub fn cst(r: Rat) -> Val { Val { num: Poly::cst(r), den: vec![] } }
    pub fn poly(p: Poly) -> Val { Val { num: p, den: vec![] } }
    pub fn as_const(&self) -> Option<Rat> { if self.den.is_empty() { self.num.as_const() } else { None } }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AtomKind {
    Var { name: String, lo: Rat, hi: Rat },
    Sqrt(Poly),
    Abs(Poly),
    Sin(Val),
    Cos(Val),
    Atan2(Val, Val),
    Alias(Val),
    Fun(&'static str, Val),
}

/// Boolean formulas over sign conditions.
#[derive(Clone, Debug)]
pub enum B { Cst(bool), Cmp(Poly, u8), And(Vec<B>), Or(Vec<B>) }

impl B {
    pub fn not(self) -> B {
        match self {
            B::Cst(b) => B::Cst(!b),
            B::Cmp(p, m) => B::Cmp(p, 7 & !m),
            B::And(v) => B::Or(v.into_iter().map(|x| x.not()).collect()),
            B::Or(v) => B::And(v.into_iter().map(|x| x.not()).collect()),
        }
    }
    pub fn and(self, o: B) -> B {
        match (self, o) {
            (B::Cst(false), _) | (_, B::Cst(false)) => B::Cst(false),
            (B::Cst(true), x) | (x, B::Cst(true)) => x,
            (B::And(mut a), B::And(b)) => { a.extend(b); B::And(a) }
            (B::And(mut a), b) => { a.push(b); B::And(a) }
            (a, B::And(mut b)) => { b.insert(0, a); B::And(b) }
            (a, b) => B::And(vec![a, b]),
        }
    }
    pub fn or(self, o: B) -> B { self.not().and(o.not()).not() }
}

/// Why a path stops early (thrown as a panic payload).
#[derive(Debug, Clone)]
pub enum Stop { Infeasible, Unsupported(String), Limit(String) }

pub fn stop(s: Stop) -> ! { std::panic::panic_any(s) }

#[derive(Clone, Debug)]
pub struct Fork { pub prefix: Vec<u16>, pub pre: Option<String>, pub smt: Option<(String, Vec<(u32, String)>)>, pub near: Vec<String> }

#[derive(Clone, Debug, Default)]
pub struct Model { pub reals: BTreeMap<String, f64>, pub chooses: Vec<(String, usize)> }

#[derive(Clone, Debug)]
pub struct Counterexample { pub label: String, pub kind: String, pub models: Vec<Model> }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub decisions: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub checks_shared: u64,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub claim_queries: u64,
    pub claims_confirmed: u64,
    pub claims_unknown: u64,
    pub claims_refuted: u64,
    pub claims_unsent: u64,
    pub feas_queries: u64,
    pub feas_unknown: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
}

pub struct Config { pub feas_ms: u64, pub check_ms: u64, pub max_decisions: usize, pub seed: u64, pub dump: bool }

pub struct Ctx {
    pub active: bool,
    pub atoms: Vec<AtomKind>,
    atom_ids: HashMap<AtomKind, u32>,
    pub vals: Vec<Val>,
    val_ids: HashMap<Val, u32>,
    factors: Vec<Poly>,
    factor_ids: HashMap<Poly, u32>,
    signs: HashMap<Poly, u8>,
    order: Vec<Poly>,
    extra: Vec<B>,
    claims: std::collections::HashSet<(Val, Val, u8)>,
    pub prefix: Vec<u16>,
    pub trail: Vec<u16>,
    pub witness: BTreeMap<u32, f64>,
    pub witness_ok: bool,
    evals: RefCell<HashMap<u32, f64>>,
    ivals: RefCell<HashMap<u32, (f64, f64)>>,
    pub hints: Vec<u32>,
    pub hint_cache: RefCell<HashMap<Poly, Option<Poly>>>,
    affine: HashMap<Poly, (Option<(Rat, bool)>, Option<(Rat, bool)>)>,
    /// Polynomials (of more than one term) that are known to be positive (true) or negative.
    definite: Vec<(Poly, bool)>,
    pub forks: Vec<Fork>,
    pub vars: Vec<u32>,
    pub chooses: Vec<(String, usize)>,
    pub solver: Solver,
    pub stats: Stats,
    pub cfg: Config,
    pub cex: Vec<Counterexample>,
    pub undecided: Vec<String>,
    pub reached: BTreeSet<String>,
    pub reached_before: BTreeSet<String>,
    pub passed: BTreeSet<String>,
    /// Quotients by polynomials get a name of their own before they are multiplied.
    pub cut: bool,
    pub harness: String,
    pub seen: Option<std::sync::Arc<std::sync::Mutex<std::collections::HashSet<u64>>>>,
    rng: u64,
    pub deadline: Option<std::time::Instant>,
    work: usize,
}

thread_local! { pub static CTX: RefCell<Option<Ctx>> = RefCell::new(None); }

pub fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| {
        let mut b = c.borrow_mut();
        let ctx = b.as_mut().expect("no symbolic context on this thread");
        f(ctx)
    })
}

const TERM_LIMIT: usize = 600;

fn op_mask_str(m: u8) -> &'static str {
    match m { 1 => "<", 2 => "=", 4 => ">", 3 => "<=", 6 => ">=", 5 => "distinct", _ => unreachable!() }
}

impl Ctx {
    pub fn new(cfg: Config) -> Ctx {
        Ctx {
            active: false, atoms: vec![], atom_ids: HashMap::new(), vals: vec![], val_ids: HashMap::new(), factors: vec![], factor_ids: HashMap::new(),
            signs: HashMap::new(), order: vec![], extra: vec![], claims: Default::default(), prefix: vec![], trail: vec![], witness: BTreeMap::new(), witness_ok: false,
            evals: RefCell::new(HashMap::new()), ivals: RefCell::new(HashMap::new()), hints: vec![], hint_cache: RefCell::new(HashMap::new()), affine: HashMap::new(), definite: vec![], forks: vec![], vars: vec![], chooses: vec![], solver: Solver::new(), stats: Stats::default(), cfg,
            cex: vec![], undecided: vec![], reached: BTreeSet::new(), reached_before: BTreeSet::new(), passed: BTreeSet::new(), cut: false, harness: String::new(), seen: None, rng: 0, deadline: None, work: 0,
        }
    }
    pub fn reset(&mut self, prefix: Vec<u16>, witness: Option<BTreeMap<u32, f64>>) {
        self.atoms.clear(); self.atom_ids.clear(); self.vals.clear(); self.val_ids.clear(); self.factors.clear(); self.factor_ids.clear();
        self.signs.clear(); self.order.clear(); self.extra.clear(); self.claims.clear(); self.trail.clear(); self.evals.borrow_mut().clear(); self.ivals.borrow_mut().clear(); self.hints.clear(); self.hint_cache.borrow_mut().clear(); self.affine.clear(); self.definite.clear(); self.forks.clear();
        self.vars.clear(); self.chooses.clear(); self.cex.clear(); self.undecided.clear(); self.reached.clear(); self.passed.clear(); self.cut = false;
        self.prefix = prefix;
        self.witness_ok = witness.is_some() || self.prefix.is_empty();
        self.witness = witness.unwrap_or_default();
        self.rng = self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
        self.active = true;
    }
    fn rand(&mut self) -> f64 {
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        (self.rng >> 11) as f64 / (1u64 << 53) as f64
    }

    // ---------- atoms and values ----------
    pub fn atom(&mut self, k: AtomKind) -> u32 {
        if let Some(&i) = self.atom_ids.get(&k) { return i; }
        let i = self.atoms.len() as u32;
        self.atoms.push(k.clone());
        self.atom_ids.insert(k, i);
        i
    }
    pub fn intern(&mut self, v: Val) -> u32 {
        if let Some(&i) = self.val_ids.get(&v) { return i; }
        let i = self.vals.len() as u32;
        self.vals.push(v.clone());
        self.val_ids.insert(v, i);
        i
    }
    pub fn new_var(&mut self, name: &str, lo: Rat, hi: Rat) -> u32 {
        if self.vars.iter().any(|&a| matches!(&self.atoms[a as usize], AtomKind::Var { name: n, .. } if n == name)) { panic!("duplicate symbolic input {}", name); }
        let a = self.atom(AtomKind::Var { name: name.to_string(), lo, hi });
        self.vars.push(a);
        if !self.witness.contains_key(&a) {
            let r = self.rand();
            let (l, h) = (lo.to_f64(), hi.to_f64());
            // multiples of 1/64 keep the numbers short
            let x = l + (h - l) * r;
            let q = (x * 64.0).round() / 64.0;
            let w = if q >= l && q <= h { q } else { x };
            self.witness.insert(a, w);
        }
        a
    }
    fn reduce(&mut self, p: Poly) -> R<Poly> {
        // powers >= 2 of algebraic atoms are rewritten
        let mut p = p;
        for _round in 0..64 {
            let hit = p.0.iter().find_map(|t| t.0 .0.iter().find(|&&(a, e)| e >= 2 && self.reducible(a)).map(|&(a, _)| a));
            let a = match hit { Some(a) => a, None => return Ok(p) };
            let sq = self.square_of(a)?;
            let mut keep: Vec<(Mono, Rat)> = vec![];
            let mut moved = Poly::zero();
            let mut by_half: BTreeMap<u32, Vec<(Mono, Rat)>> = BTreeMap::new();
            for (m, c) in p.0.into_iter() {
                let e = m.exp(a);
                if e < 2 { keep.push((m, c)); continue; }
                let mut v: Vec<(u32, u32)> = m.0.iter().filter(|x| x.0 != a).cloned().collect();
                if e % 2 == 1 { v.push((a, 1)); v.sort(); }
                by_half.entry(e / 2).or_default().push((Mono(v), c));
            }
            let mut pw = Poly::one();
            let mut cur = 0;
            for (h, ts) in by_half {
                while cur < h { pw = pw.mul_raw(&sq)?; cur += 1; }
                if pw.0.len() * ts.len() > 20000 { return Err(Overflow); }
                moved = moved.add(&Poly::from_terms(ts)?.mul_raw(&pw)?)?;
            }
            p = Poly::from_terms(keep)?.add(&moved)?;
        }
        Ok(p)
    }
    fn reducible(&self, a: u32) -> bool { matches!(self.atoms[a as usize], AtomKind::Sqrt(_) | AtomKind::Abs(_) | AtomKind::Cos(_)) }
    fn square_of(&mut self, a: u32) -> R<Poly> {
        match self.atoms[a as usize].clone() {
            AtomKind::Sqrt(p) => Ok(p),
            AtomKind::Abs(p) => { let q = p.mul_raw(&p)?; self.reduce(q) }
            AtomKind::Cos(v) => {
                let s = self.atom(AtomKind::Sin(v));
                Poly::one().sub(&Poly(vec![(Mono(vec![(s, 2)]), Rat::ONE)]))
            }
            _ => unreachable!(),
        }
    }
    fn pmul(&mut self, a: &Poly, b: &Poly) -> R<Poly> {
        if a.0.len() * b.0.len() > TERM_LIMIT * 8 { return Err(Overflow); }
        self.work += a.0.len() * b.0.len();
        if self.work > 20000 {
            self.work = 0;
            if let Some(d) = self.deadline { if std::time::Instant::now() > d { stop(Stop::Limit("out of time".into())); } }
        }
        let p = a.mul_raw(b)?;
        let p = self.reduce(p)?;
        if p.0.len() > TERM_LIMIT { return Err(Overflow); }
        Ok(p)
    }
    fn den_poly(&mut self, den: &[(u32, u32)]) -> R<Poly> {
        let mut p = Poly::one();
        for &(f, e) in den {
            for _ in 0..e { let q = self.factors[f as usize].clone(); p = self.pmul(&p, &q)?; }
        }
        Ok(p)
    }
    fn cancel(&mut self, mut v: Val) -> R<Val> {
        if v.num.is_zero() { return Ok(Val::cst(Rat::ZERO)); }
        let mut out = vec![];
        for (f, e) in std::mem::take(&mut v.den) {
            let fp = self.factors[f as usize].clone();
            let mut e = e;
            while e > 0 {
                match v.num.div_exact(&fp)? { Some(q) => { v.num = q; e -= 1; } None => break }
            }
            if e > 0 { out.push((f, e)); }
        }
        v.den = out;
        Ok(v)
    }
    fn try_add(&mut self, a: &Val, b: &Val, k: i128) -> R<Val> {
        if a.den == b.den {
            let n = a.num.addmul(&b.num, Rat::int(k))?;
            if n.0.len() > TERM_LIMIT { return Err(Overflow); }
            return self.cancel(Val { num: n, den: a.den.clone() });
        }
        let mut ca = vec![];
        let mut cb = vec![];
        let mut den: BTreeMap<u32, u32> = a.den.iter().cloned().collect();
        for &(f, e) in &b.den { let x = den.entry(f).or_insert(0); *x = (*x).max(e); }
        for (&f, &e) in &den {
            let ea = a.den.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(0);
            let eb = b.den.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(0);
            if e > ea { ca.push((f, e - ea)); }
            if e > eb { cb.push((f, e - eb)); }
        }
        let (da, db) = (self.den_poly(&ca)?, self.den_poly(&cb)?);
        let na = self.pmul(&a.num, &da)?;
        let nb = self.pmul(&b.num, &db)?;
        let n = na.addmul(&nb, Rat::int(k))?;
        if n.0.len() > TERM_LIMIT { return Err(Overflow); }
        self.cancel(Val { num: n, den: den.into_iter().collect() })
    }
    fn try_mul(&mut self, a: &Val, b: &Val) -> R<Val> {
        if a.num.is_zero() || b.num.is_zero() { return Ok(Val::cst(Rat::ZERO)); }
        let x = self.cancel(Val { num: a.num.clone(), den: b.den.clone() })?;
        let y = self.cancel(Val { num: b.num.clone(), den: a.den.clone() })?;
        let n = self.pmul(&x.num, &y.num)?;
        let mut den: BTreeMap<u32, u32> = x.den.into_iter().collect();
        for (f, e) in y.den { *den.entry(f).or_insert(0) += e; }
        self.cancel(Val { num: n, den: den.into_iter().collect() })
    }
    pub fn alias(&mut self, v: &Val) -> Val {
        if v.den.is_empty() && (v.num.0.len() == 1 && v.num.0[0].0 .0.len() <= 1 || v.num.is_zero()) && v.num.as_const().map(|r| r.n.abs() < (1 << 60) && r.d < (1 << 60)).unwrap_or(true) { return v.clone(); }
        let a = self.atom(AtomKind::Alias(v.clone()));
        if std::env::var("SYM_ALIAS").is_ok() { eprintln!("alias al{} = [{} terms] {} / {:?}", a, v.num.0.len(), self.smt_poly(&v.num), v.den.iter().map(|&(f, e)| (self.smt_poly(&self.factors[f as usize]), e)).collect::<Vec<_>>()); }
        Val::poly(Poly::atom(a))
    }
    pub fn add(&mut self, a: &Val, b: &Val, k: i128) -> Val {
        if let Ok(v) = self.try_add(a, b, k) { return v; }
        let (x, y) = (self.alias(a), self.alias(b));
        match self.try_add(&x, &y, k) { Ok(v) => v, Err(_) => stop(Stop::Unsupported("addition overflow".into())) }
    }
    fn quotient(&self, v: &Val) -> bool { v.den.iter().any(|&(f, _)| self.factors[f as usize].0.len() > 1) }
    pub fn mul(&mut self, a: &Val, b: &Val) -> Val {
        if self.cut && a.as_const().is_none() && b.as_const().is_none() {
            if self.quotient(a) { let x = self.alias(a); return self.mul(&x, b); }
            if self.quotient(b) { let x = self.alias(b); return self.mul(a, &x); }
        }
        if let Ok(v) = self.try_mul(a, b) { return v; }
        let (x, y) = (self.alias(a), self.alias(b));
        match self.try_mul(&x, &y) { Ok(v) => v, Err(_) => stop(Stop::Unsupported("multiplication overflow".into())) }
    }
    /// 1/b, b known to be nonzero on this path (each factor is made nonzero by decisions first).
    pub fn inv(&mut self, b: &Val) -> Val {
        match self.try_inv(b) {
            Ok(v) => v,
            Err(_) => {
                let x = self.alias(b);
                match self.try_inv(&x) { Ok(v) => v, Err(_) => stop(Stop::Unsupported("inverse overflow".into())) }
            }
        }
    }
    fn factorise(&mut self, p: &Poly) -> R<(Rat, Vec<(Poly, u32)>)> {
        let c = p.content()?;
        let mut q = p.scale(c.inv()?)?;
        let m = q.mono_content();
        let mut out: Vec<(Poly, u32)> = vec![];
        if !m.0.is_empty() {
            q = Poly(q.0.iter().map(|t| (t.0.div(&m).unwrap(), t.1)).collect());
            for &(a, e) in &m.0 { out.push((Poly::atom(a), e)); }
        }
        if q.as_const().is_none() {
            let known: Vec<Poly> = self.factors.iter().filter(|f| f.0.len() > 1).cloned().collect();
            for f in known {
                let mut e = 0;
                while q.as_const().is_none() {
                    match q.div_exact(&f)? { Some(r) => { q = r; e += 1; } None => break }
                }
                if e > 0 { out.push((f, e)); }
            }
        }
        let mut c = c;
        if let Some(k) = q.as_const() { c = c.mul(k)?; } else {
            let k = q.content()?;
            c = c.mul(k)?;
            let q = q.scale(k.inv()?)?;
            match q.sqrt_exact()? {
                Some(r) => { let s = r.content()?; let r = if s.n < 0 { r.neg() } else { r }; out.push((r, 2)); }
                None => match self.sqrt_with_cos(&q).unwrap_or(None) {
                    Some(r) => { let s = r.content()?; let r = if s.n < 0 { r.neg() } else { r }; out.push((r, 2)); }
                    None => out.push((q, 1)),
                },
            }
        }
        Ok((c, out))
    }
    /// The square root of a polynomial in which the squares of one cosine have been rewritten by its sine.
    fn sqrt_with_cos(&mut self, p: &Poly) -> R<Option<Poly>> {
        let coses: Vec<u32> = p.atoms().into_iter().filter(|&a| matches!(self.atoms[a as usize], AtomKind::Cos(_))).collect();
        if coses.len() != 1 || p.0.len() > 200 { return Ok(None); }
        let a = coses[0];
        // p = s + t cos is the square of x + y cos: then s = x^2 + y^2 cos^2 and t = 2 x y, so s^2 - t^2 cos^2 is the square of x^2 - y^2 cos^2
        let s = Poly(p.0.iter().filter(|t| t.0.exp(a) == 0).cloned().collect());
        let t = Poly::from_terms(p.0.iter().filter(|t| t.0.exp(a) == 1).map(|t| (t.0.div(&Mono::atom(a)).unwrap(), t.1)).collect())?;
        if s.0.len() + t.0.len() != p.0.len() { return Ok(None); }
        let c2 = self.square_of(a)?;
        let norm = s.mul_raw(&s)?.sub(&t.mul_raw(&t)?.mul_raw(&c2)?)?;
        let n = match norm.sqrt_exact()? { Some(n) => n, None => return Ok(None) };
        for n in [n.clone(), n.neg()] {
            let x = match s.add(&n)?.scale(Rat::new(1, 2)?)?.sqrt_exact()? { Some(x) if !x.is_zero() => x, _ => continue };
            let y = match t.scale(Rat::new(1, 2)?)?.div_exact(&x)? { Some(y) => y, None => continue };
            let r = x.add(&y.mul_raw(&Poly::atom(a))?)?;
            let sq = r.mul_raw(&r)?;
            if self.reduce(sq)? == *p { return Ok(Some(r)); }
        }
        Ok(None)
    }
    fn factor(&mut self, p: Poly) -> u32 {
        if let Some(&i) = self.factor_ids.get(&p) { return i; }
        let i = self.factors.len() as u32;
        self.factors.push(p.clone());
        self.factor_ids.insert(p, i);
        i
    }
    fn try_inv(&mut self, b: &Val) -> R<Val> {
        let mut num = self.den_poly(&b.den)?;
        let (c, fs) = self.factorise(&b.num)?;
        num = num.scale(c.inv()?)?;
        let mut den: BTreeMap<u32, u32> = BTreeMap::new();
        let mut work = fs;
        while let Some((f, e)) = work.pop() {
            // rationalise roots: 1/S = S/p
            if let Some(a) = f.as_atom() {
                let sq = match &self.atoms[a as usize] { AtomKind::Sqrt(p) => Some(p.clone()), AtomKind::Abs(p) => Some(self_sq(p)?), _ => None };
                if let Some(sq) = sq {
                    let sq = self.reduce(sq)?;
                    let (k, fs) = self.factorise(&sq)?;
                    let (half, odd) = (e / 2 + e % 2, e % 2);
                    for _ in 0..half { num = num.scale(k.inv()?)?; }
                    for (g, ge) in fs { work.push((g, ge * half)); }
                    if odd == 1 { num = self.pmul(&num, &f)?; }
                    continue;
                }
            }
            let id = self.factor(f);
            *den.entry(id).or_insert(0) += e;
        }
        self.cancel(Val { num, den: den.into_iter().collect() })
    }

    // ---------- sign reasoning ----------
    /// Splits p into (known strict sign factor flips, remaining primitive polynomial).
    fn normalise(&mut self, p: &Poly) -> Option<(Poly, bool)> {
        // None: too big
        let c = p.content().ok()?;
        let mut q = p.scale(c.inv().ok()?).ok()?;
        let mut flip = c.n < 0;
        let m = q.mono_content();
        if !m.0.is_empty() {
            let mut keep = vec![];
            for &(a, e) in &m.0 {
                let mask = self.possible_atom(a);
                if mask & ZER == 0 && e % 2 == 0 { continue; }
                if mask == POS { continue; }
                if mask == NEG { if e % 2 == 1 { flip = !flip; } continue; }
                keep.push((a, if e > 2 { if e % 2 == 0 { 2 } else { 1 } } else { e }));
            }
            if keep != m.0 {
                let km = Mono(keep);
                q = Poly(q.0.iter().map(|t| (t.0.div(&m).unwrap().mul(&km), t.1)).collect());
            }
        }
        if q.0.len() > 1 && !self.definite.is_empty() {
            for i in 0..self.definite.len() {
                if self.definite[i].0 .0.len() > q.0.len() || self.definite[i].0 == q { continue; }
                while q.0.len() > 1 {
                    match q.div_exact(&self.definite[i].0) { Ok(Some(r)) => { q = r; if !self.definite[i].1 { flip = !flip; } } _ => break }
                }
            }
            let c = q.content().ok()?;
            if c != Rat::ONE { q = q.scale(c.inv().ok()?).ok()?; if c.n < 0 { flip = !flip; } }
        }
        Some((q, flip))
    }
    fn possible_atom(&self, a: u32) -> u8 {
        let p = Poly::atom(a);
        let mut m = self.signs.get(&p).cloned().unwrap_or(7);
        let (lo, hi) = self.atom_interval_raw(a, 0);
        if lo >= 0.0 { m &= POS | ZER; }
        if lo > 0.0 { m &= POS; }
        if hi <= 0.0 { m &= NEG | ZER; }
        if hi < 0.0 { m &= NEG; }
        // roots of polynomials known to be positive
        match &self.atoms[a as usize] {
            AtomKind::Sqrt(q) | AtomKind::Abs(q) => {
                if m & ZER != 0 && m & POS != 0 {
                    let c = q.content().unwrap_or(Rat::ONE);
                    if let Ok(qq) = q.scale(match c.inv() { Ok(x) => x, Err(_) => Rat::ONE }) {
                        let s = self.signs.get(&qq).cloned().unwrap_or(7);
                        if s & ZER == 0 { m &= POS; }
                    }
                }
            }
            _ => {}
        }
        m
    }
    fn atom_interval(&self, a: u32, depth: u32) -> (f64, f64) {
        let (mut lo, mut hi) = self.atom_interval_raw(a, depth);
        if let Some(&m) = self.signs.get(&Poly::atom(a)) {
            if m & NEG == 0 && lo < 0.0 { lo = 0.0; }
            if m & POS == 0 && hi > 0.0 { hi = 0.0; }
        }
        (lo, hi)
    }
    pub fn atom_interval_of(&self, a: u32) -> (f64, f64) { self.atom_interval(a, 0) }
    fn atom_interval_raw(&self, a: u32, depth: u32) -> (f64, f64) {
        if let Some(&r) = self.ivals.borrow().get(&a) { return r; }
        let r = self.atom_interval_new(a, depth);
        self.ivals.borrow_mut().insert(a, r);
        r
    }
    fn atom_interval_new(&self, a: u32, depth: u32) -> (f64, f64) {
        let inf = f64::INFINITY;
        match &self.atoms[a as usize] {
            AtomKind::Var { lo, hi, .. } => (lo.to_f64(), hi.to_f64()),
            AtomKind::Sqrt(p) => {
                let (l, h) = self.interval(p, depth + 1);
                (if l > 0.0 { l.sqrt() * (1.0 - 1e-12) } else { 0.0 }, if h >= 0.0 { h.sqrt() * (1.0 + 1e-12) } else { 0.0 })
            }
            AtomKind::Abs(p) => {
                let (l, h) = self.interval(p, depth + 1);
                (if l > 0.0 { l } else if h < 0.0 { -h } else { 0.0 }, l.abs().max(h.abs()))
            }
            AtomKind::Sin(v) => {
                let (l, h) = self.val_interval(v, depth + 1);
                if l >= 0.0 && h <= 3.14 { (l.sin().min(h.sin()).max(0.0) * (1.0 - 1e-9), 1.0) } else if h <= 0.0 && l >= -3.14 { (-1.0, l.sin().max(h.sin()).min(0.0) * (1.0 - 1e-9)) } else { (-1.0, 1.0) }
            }
            AtomKind::Cos(v) => {
                let (l, h) = self.val_interval(v, depth + 1);
                let m = l.abs().max(h.abs());
                if m <= 1.57 { (m.cos() * (1.0 - 1e-9), 1.0) } else if (l >= 1.58 && h <= 3.14) || (h <= -1.58 && l >= -3.14) { (-1.0, l.abs().min(h.abs()).cos() * (1.0 - 1e-9)) } else { (-1.0, 1.0) }
            }
            AtomKind::Atan2(y, x) => {
                let (yl, yh) = self.val_interval(y, depth + 1);
                let (xl, xh) = self.val_interval(x, depth + 1);
                // in the first quadrant the angle grows with y and shrinks with x
                if yl > 0.0 && xl >= 0.0 && xh.is_finite() { return (yl.atan2(xh) * (1.0 - 1e-9), if yh.is_finite() { yh.atan2(xl) * (1.0 + 1e-9) } else { 1.5707963267949 }); }
                let top = if xl >= 0.0 { 1.5707963267949 } else { 3.1415926535898 };
                if yl >= 0.0 { (0.0, top) } else if yh <= 0.0 { (-top, 0.0) } else { (-top, top) }
            }
            AtomKind::Alias(v) => self.val_interval(v, depth + 1),
            AtomKind::Fun(..) => (-inf, inf),
        }
    }
    fn val_interval(&self, v: &Val, depth: u32) -> (f64, f64) {
        let (l, h) = self.interval(&v.num, depth);
        if v.den.is_empty() { return (l, h); }
        let mut dl = 1.0; let mut dh = 1.0;
        for &(f, e) in &v.den {
            let (a, b) = self.interval(&self.factors[f as usize], depth);
            for _ in 0..e { let r = imul((dl, dh), (a, b)); dl = r.0; dh = r.1; }
        }
        // the denominator's sign may be known from the path even where its interval touches zero
        if dl > 0.0 || dh < 0.0 { return imul((l, h), (1.0 / dh, 1.0 / dl)); }
        let mut s = POS;
        for &(f, e) in &v.den {
            if e % 2 == 0 { continue; }
            let m = self.possible(&self.factors[f as usize]) & !ZER;
            s = if m == POS { s } else if m == NEG { if s == POS { NEG } else { POS } } else { 0 };
            if s == 0 { break; }
        }
        let inf = f64::INFINITY;
        if s == POS { if l >= 0.0 { return (0.0, inf); } if h <= 0.0 { return (-inf, 0.0); } }
        if s == NEG { if l >= 0.0 { return (-inf, 0.0); } if h <= 0.0 { return (0.0, inf); } }
        (-inf, inf)
    }
    fn interval(&self, p: &Poly, depth: u32) -> (f64, f64) {
        let mut lo = 0.0; let mut hi = 0.0; let mut mag = 0.0f64;
        let mut all_nonneg = true; let mut all_nonpos = true;
        for (m, c) in &p.0 {
            let c = c.to_f64();
            let mut r = (1.0, 1.0);
            for &(a, e) in &m.0 {
                let i = self.atom_interval(a, depth);
                r = imul(r, ipow(i, e));
            }
            r = imul(r, (c, c));
            if r.0 < 0.0 { all_nonneg = false; }
            if r.1 > 0.0 { all_nonpos = false; }
            lo += r.0; hi += r.1;
            mag = mag.max(r.0.abs()).max(r.1.abs());
        }
        if p.0.len() > 1 && mag.is_finite() { lo -= mag * 1e-13 * p.0.len() as f64; hi += mag * 1e-13 * p.0.len() as f64; }
        if lo.is_nan() { lo = -f64::INFINITY; }
        if hi.is_nan() { hi = f64::INFINITY; }
        if all_nonneg && lo < 0.0 { lo = 0.0; }
        if all_nonpos && hi > 0.0 { hi = 0.0; }
        (lo, hi)
    }
    /// Which signs the (primitive) polynomial may have, without asking the solver.
    fn possible(&self, p: &Poly) -> u8 {
        if let Some(r) = p.as_const() { return if r.n < 0 { NEG } else if r.n == 0 { ZER } else { POS }; }
        let mut m = self.signs.get(p).cloned().unwrap_or(7);
        if m.count_ones() == 1 { return m; }
        m &= self.affine_mask(p);
        if m.count_ones() == 1 { return m; }
        let (lo, hi) = self.interval(p, 0);
        if lo >= 0.0 { m &= POS | ZER; }
        if lo > 0.0 { m &= POS; }
        if hi <= 0.0 { m &= NEG | ZER; }
        if hi < 0.0 { m &= NEG; }
        if m & ZER != 0 && m != ZER {
            // sum of nonnegative terms, one of which is strictly positive
            let mut some = false; let mut all = true;
            let mut pos = true; let mut neg = true;
            for (mono, c) in &p.0 {
                let mut s: u8 = if c.n > 0 { POS } else { NEG };
                let mut z = false;
                for &(a, e) in &mono.0 {
                    let am = self.possible_atom(a);
                    if am & ZER != 0 { z = true; }
                    if e % 2 == 1 {
                        let st = am & !ZER;
                        if st == POS {} else if st == NEG { s = if s == POS { NEG } else { POS }; } else { all = false; }
                    }
                }
                if s == NEG { pos = false; } else { neg = false; }
                if !z { some = true; }
            }
            if all && some && (pos || neg) { m &= !ZER; }
            if all && pos { m &= POS | ZER; }
            if all && neg { m &= NEG | ZER; }
        }
        m
    }
    fn mask_flip(m: u8) -> u8 { (m & ZER) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 } }

    /// Is sign(p) in mask? Forks when both answers are possible.
    pub fn decide_poly(&mut self, p: &Poly, mask: u8) -> bool {
        if let Some(r) = p.as_const() { let s = if r.n < 0 { NEG } else if r.n == 0 { ZER } else { POS }; return s & mask != 0; }
        let (q, flip) = match self.normalise(p) { Some(x) => x, None => { let a = self.atom(AtomKind::Alias(Val::poly(p.clone()))); (Poly::atom(a), false) } };
        let mask = if flip { Self::mask_flip(mask) } else { mask };
        let poss = self.possible(&q);
        if poss & mask == 0 { return false; }
        if poss & !mask == 0 { return true; }
        let ans = self.fork2(&q, poss & mask, poss & !mask);
        let m = if ans { poss & mask } else { poss & !mask };
        self.constrain(q, m);
        ans
    }
    fn constrain(&mut self, q: Poly, m: u8) {
        if !self.signs.contains_key(&q) { self.order.push(q.clone()); }
        self.note_affine(&q, m);
        self.signs.insert(q.clone(), m);
        self.ivals.borrow_mut().clear();
        self.note_definite(&q);
        if let Some((n, _, _)) = Self::affine_parts(&q) { if n != q { self.note_definite(&n); } }
        // what is known about multiples of a polynomial of known sign says something about the other factor
        if m == POS || m == NEG {
            let list: Vec<Poly> = self.order.iter().filter(|p| p.0.len() >= q.0.len() && **p != q && p.0.len() <= 60).cloned().collect();
            for p in list {
                if let Ok(Some(r)) = p.div_exact(&q) {
                    if r.as_const().is_some() { continue; }
                    let mp = self.signs[&p];
                    if mp == 7 { continue; }
                    let mr = if m == NEG { Self::mask_flip(mp) } else { mp };
                    if let Some((r, flip)) = self.normalise(&r) {
                        let mr = if flip { Self::mask_flip(mr) } else { mr };
                        let poss = self.possible(&r);
                        if poss & mr == 0 { stop(Stop::Infeasible); }
                        if poss & mr != poss { self.constrain(r, poss & mr); }
                    }
                }
            }
        }
    }
    fn note_definite(&mut self, q: &Poly) {
        if q.0.len() < 2 || self.definite.iter().any(|d| d.0 == *q) { return; }
        match self.possible(q) { POS => self.definite.push((q.clone(), true)), NEG => self.definite.push((q.clone(), false)), _ => {} }
    }
    /// p = k * n + c with n primitive and without constant term.
    fn affine_parts(p: &Poly) -> Option<(Poly, Rat, Rat)> {
        let c = p.0.iter().find(|t| t.0 .0.is_empty()).map(|t| t.1).unwrap_or(Rat::ZERO);
        let n = Poly(p.0.iter().filter(|t| !t.0 .0.is_empty()).cloned().collect());
        if n.is_zero() { return None; }
        let k = n.content().ok()?;
        let n = n.scale(k.inv().ok()?).ok()?;
        Some((n, k, c))
    }
    fn note_affine(&mut self, q: &Poly, m: u8) {
        let (n, k, c) = match Self::affine_parts(q) { Some(x) => x, None => return };
        let b = match c.neg().div(k) { Ok(b) => b, Err(_) => return };
        let m = if k.n < 0 { Self::mask_flip(m) } else { m };
        let e = self.affine.entry(n).or_insert((None, None));
        // m speaks about the sign of n - b
        if m & NEG == 0 { let s = m & ZER == 0; if e.0.map(|(x, xs)| match b.cmp(x) { Ok(o) => o.is_gt() || o.is_eq() && s && !xs, Err(_) => false }).unwrap_or(true) { e.0 = Some((b, s)); } }
        if m & POS == 0 { let s = m & ZER == 0; if e.1.map(|(x, xs)| match b.cmp(x) { Ok(o) => o.is_lt() || o.is_eq() && s && !xs, Err(_) => false }).unwrap_or(true) { e.1 = Some((b, s)); } }
    }
    /// What the bounds known for polynomials that differ from p by a constant say about p's sign.
    fn affine_mask(&self, p: &Poly) -> u8 {
        if self.affine.is_empty() { return 7; }
        let (n, k, c) = match Self::affine_parts(p) { Some(x) => x, None => return 7 };
        let e = match self.affine.get(&n) { Some(e) => e, None => return 7 };
        let b = match c.neg().div(k) { Ok(b) => b, Err(_) => return 7 };
        // sign of n - b
        let mut m = 7;
        if let Some((lo, s)) = e.0 { match lo.cmp(b) { Ok(std::cmp::Ordering::Greater) => m &= POS, Ok(std::cmp::Ordering::Equal) => m &= if s { POS } else { POS | ZER }, _ => {} } }
        if let Some((hi, s)) = e.1 { match hi.cmp(b) { Ok(std::cmp::Ordering::Less) => m &= NEG, Ok(std::cmp::Ordering::Equal) => m &= if s { NEG } else { NEG | ZER }, _ => {} } }
        if k.n < 0 { Self::mask_flip(m) } else { m }
    }
    fn fork2(&mut self, q: &Poly, ma: u8, mb: u8) -> bool {
        self.stats.decisions += 1;
        let pos = self.trail.len();
        if pos < self.prefix.len() {
            let b = self.prefix[pos] == 1;
            self.trail.push(b as u16);
            return b;
        }
        if pos >= self.cfg.max_decisions { stop(Stop::Limit(format!("more than {} decisions on one path", self.cfg.max_decisions))); }
        let (v, mag) = self.eval_poly(q);
        let s = if v.abs() <= 1e-11 * mag || v == 0.0 { ZER } else if v < 0.0 { NEG } else { POS };
        let take = if v.is_nan() { true } else if s & ma != 0 { true } else if s & mb != 0 { false } else {
            // the numeric witness suggests an impossible sign
            true
        };
        let other = if take { mb } else { ma };
        let cond = [B::Cmp(q.clone(), other)];
        let smt = self.query(&cond, None);
        let pre = self.query_hints(&cond);
        let mut prefix = self.trail.clone();
        prefix.push(!take as u16);
        let names = self.var_names();
        let near = self.near();
        self.forks.push(Fork { prefix, pre, smt: Some((smt, names)), near });
        self.trail.push(take as u16);
        take
    }
    pub fn choose(&mut self, name: &str, k: usize) -> usize {
        let pos = self.trail.len();
        let v = if pos < self.prefix.len() { self.prefix[pos] as usize } else {
            for o in 1..k {
                let mut prefix = self.trail.clone();
                prefix.push(o as u16);
                self.forks.push(Fork { prefix, pre: None, smt: None, near: vec![] });
            }
            0
        };
        self.trail.push(v as u16);
        self.chooses.push((name.to_string(), v));
        v
    }
    /// Makes the signs of all odd denominator factors definite; returns whether the denominator is negative.
    fn den_negative(&mut self, den: &[(u32, u32)]) -> bool {
        let mut neg = false;
        for &(f, e) in den {
            if e % 2 == 0 { continue; }
            let p = self.factors[f as usize].clone();
            if self.decide_poly(&p, NEG) { neg = !neg; }
        }
        neg
    }
    pub fn decide(&mut self, v: &Val, mask: u8) -> bool {
        // Zero tests do not need the denominator's sign.
        if mask == ZER || mask == (NEG | POS) { return self.decide_poly(&v.num.clone(), mask); }
        let neg = if v.den.is_empty() { false } else { self.den_negative(&v.den.clone()) };
        self.decide_poly(&v.num.clone(), if neg { Self::mask_flip(mask) } else { mask })
    }
    /// Fork until v is known zero or nonzero with every factor of its numerator nonzero.
    pub fn split_zero(&mut self, v: &Val) -> bool {
        if let Some(r) = v.num.as_const() { return r.is_zero(); }
        match self.factorise(&v.num.clone()) {
            Ok((_, fs)) => { for (f, _) in fs { if self.decide_poly(&f, ZER) { return true; } } false }
            Err(_) => self.decide_poly(&v.num.clone(), ZER),
        }
    }
    /// Non-forking comparison formula: sign(v) in mask.
    pub fn cmp_formula(&mut self, v: &Val, mask: u8) -> B {
        let mut p = v.num.clone();
        if mask != ZER && mask != (NEG | POS) {
            for &(f, e) in &v.den {
                if e % 2 == 0 { continue; }
                let q = self.factors[f as usize].clone();
                let poss = self.possible(&q) & !ZER;
                if poss == POS { continue; }
                if poss == NEG { p = p.neg(); continue; }
                p = match self.pmul(&p, &q) { Ok(x) => x, Err(_) => { let a = self.alias(v); a.num } };
            }
        }
        if let Some(r) = p.as_const() { let s = if r.n < 0 { NEG } else if r.n == 0 { ZER } else { POS }; return B::Cst(s & mask != 0); }
        let (q, flip) = match self.normalise(&p) { Some(x) => x, None => (p, false) };
        let mask = if flip { Self::mask_flip(mask) } else { mask };
        let poss = self.possible(&q);
        if poss & mask == 0 { return B::Cst(false); }
        if poss & !mask == 0 { return B::Cst(true); }
        B::Cmp(q, mask)
    }

    // ---------- functions ----------
    pub fn sqrt(&mut self, v: &Val) -> Val {
        // precondition: v >= 0 decided
        if v.num.is_zero() { return Val::cst(Rat::ZERO); }
        let r: R<Val> = (|| {
            // sqrt(num/den) = sqrt(num*den_odd) / (|den_odd| * den_even_half)
            let mut n = v.num.clone();
            let mut den: Vec<(u32, u32)> = vec![];
            let mut absden: Vec<u32> = vec![];
            for &(f, e) in &v.den {
                let q = self.factors[f as usize].clone();
                if e % 2 == 1 { n = self.pmul(&n, &q)?; }
                den.push((f, (e + 1) / 2));
                if ((e + 1) / 2) % 2 == 1 { absden.push(f); }
            }
            let (c, fs) = self.factorise(&n)?;
            let mut out = Val::cst(Rat::ONE);
            let mut rest = Poly::one();
            let cabs = if c.n < 0 { c.neg() } else { c };
            let mut sign = if c.n < 0 { -1 } else { 1 };
            // rational part: pull out exact squares
            let (cr, crest) = match cabs.sqrt_exact() { Some(r) => (r, Rat::ONE), None => split_square(cabs) };
            out = self.try_mul(&out, &Val::cst(cr))?;
            rest = rest.scale(crest)?;
            // pulling out w^2 is only valid where w is nonzero, or where what remains cannot be negative
            let mut odd = Poly::one();
            for (f, e) in &fs { if e % 2 == 1 { odd = self.pmul(&odd, f)?; } }
            if sign < 0 { odd = odd.neg(); }
            let odd_safe = { let k = odd.content()?; let q = odd.scale(k.inv()?)?; let m = self.possible(&q); if k.n > 0 { m & NEG == 0 } else { m & POS == 0 } };
            for (f, e) in fs {
                if e / 2 > 0 && !odd_safe && self.decide_poly(&f, ZER) { return Ok(Val::cst(Rat::ZERO)); }
                if e / 2 > 0 {
                    let mut w = Poly::one();
                    for _ in 0..e / 2 { w = self.pmul(&w, &f)?; }
                    let a = self.abs_poly(&w)?;
                    out = self.try_mul(&out, &a)?;
                }
                if e % 2 == 1 {
                    // factors of known sign stay together
                    if let Some(a) = f.as_atom() {
                        if self.possible_atom(a) & POS == 0 { sign = -sign; rest = self.pmul(&rest, &f.neg())?; continue; }
                    }
                    rest = self.pmul(&rest, &f)?;
                }
            }
            if sign < 0 { rest = rest.neg(); }
            // 1 - s^2 = c^2
            if let Some(a) = self.as_one_minus_sin2(&rest) {
                let x = self.abs_poly(&Poly::atom(a))?;
                out = self.try_mul(&out, &x)?;
                rest = Poly::one();
            }
            if rest.as_const() != Some(Rat::ONE) {
                let s = self.atom(AtomKind::Sqrt(rest));
                out = self.try_mul(&out, &Val::poly(Poly::atom(s)))?;
            }
            // divide by |den|
            let mut d = out;
            let mut dd: BTreeMap<u32, u32> = d.den.iter().cloned().collect();
            for &(f, e) in &den { *dd.entry(f).or_insert(0) += e; }
            d.den = dd.into_iter().collect();
            let mut d = self.cancel(d)?;
            for f in absden {
                let p = self.factors[f as usize].clone();
                if self.decide_poly(&p, NEG) { d.num = d.num.neg(); }
            }
            Ok(d)
        })();
        match r {
            Ok(v) => v,
            Err(_) => {
                let a = self.alias(v);
                let s = self.atom(AtomKind::Sqrt(a.num));
                Val::poly(Poly::atom(s))
            }
        }
    }
    fn as_one_minus_sin2(&mut self, p: &Poly) -> Option<u32> {
        if p.0.len() != 2 { return None; }
        let (m, c) = &p.0[0];
        if p.0[1] != (Mono::one(), Rat::ONE) || *c != Rat::int(-1) || m.0.len() != 1 || m.0[0].1 != 2 { return None; }
        if let AtomKind::Sin(v) = self.atoms[m.0[0].0 as usize].clone() { Some(self.atom(AtomKind::Cos(v))) } else { None }
    }
    fn abs_poly(&mut self, p: &Poly) -> R<Val> {
        if let Some(r) = p.as_const() { return Ok(Val::cst(if r.n < 0 { r.neg() } else { r })); }
        let c = p.content()?;
        let q = p.scale(c.inv()?)?;
        let cabs = if c.n < 0 { c.neg() } else { c };
        let mut q = q;
        let mut known = Poly::one();
        for i in 0..self.definite.len() {
            while q.0.len() > 1 {
                let (d, pos) = self.definite[i].clone();
                match q.div_exact(&d)? { Some(r) => { q = r; known = known.mul_raw(&d)?; if !pos { known = known.neg(); } } None => break }
            }
        }
        let m = self.possible(&q);
        let r = if m & NEG == 0 { q } else if m & POS == 0 { q.neg() } else {
            let c = q.content()?;
            let q = q.scale(c.inv()?)?;
            let r = Poly::atom(self.atom(AtomKind::Abs(q)));
            r.scale(if c.n < 0 { c.neg() } else { c })?
        };
        let r = if known.as_const() == Some(Rat::ONE) { r } else { let r = r.mul_raw(&known)?; self.reduce(r)? };
        Ok(Val::poly(r.scale(cabs)?))
    }
    pub fn abs(&mut self, v: &Val) -> Val {
        let r: R<Val> = (|| {
            let mut a = self.abs_poly(&v.num)?;
            a.den = v.den.clone();
            for &(f, e) in &v.den.clone() {
                if e % 2 == 0 { continue; }
                let p = self.factors[f as usize].clone();
                if self.decide_poly(&p, NEG) { a.num = a.num.neg(); }
            }
            self.cancel(a)
        })();
        match r {
            Ok(v) => v,
            Err(_) => { let x = self.alias(v); let a = self.atom(AtomKind::Abs(x.num)); Val::poly(Poly::atom(a)) }
        }
    }
    fn single_scaled_atom(&self, v: &Val) -> Option<(u32, Rat)> {
        if !v.den.is_empty() || v.num.0.len() != 1 || v.num.0[0].0 .0.len() != 1 || v.num.0[0].0 .0[0].1 != 1 { return None; }
        Some((v.num.0[0].0 .0[0].0, v.num.0[0].1))
    }
    pub fn sincos(&mut self, v: &Val) -> (Val, Val) {
        if v.num.is_zero() { return (Val::cst(Rat::ZERO), Val::cst(Rat::ONE)); }
        if let Some((a, c)) = self.single_scaled_atom(v) {
            if let AtomKind::Atan2(y, x) = self.atoms[a as usize].clone() {
                if c.d == 1 && c.n.abs() <= 4 {
                    let yy = self.mul(&y, &y);
                    let xx = self.mul(&x, &x);
                    let hh = self.add(&yy, &xx, 1);
                    let h = self.sqrt(&hh);
                    if !h.num.is_zero() {
                        let ih = self.inv(&h);
                        let (s1, c1) = (self.mul(&y, &ih), self.mul(&x, &ih));
                        let (mut s, mut co) = (s1.clone(), c1.clone());
                        for _ in 1..c.n.abs() {
                            let a = self.mul(&s, &c1); let b = self.mul(&co, &s1);
                            let d = self.mul(&co, &c1); let e = self.mul(&s, &s1);
                            s = self.add(&a, &b, 1);
                            co = self.add(&d, &e, -1);
                        }
                        if c.n < 0 { s.num = s.num.neg(); }
                        return (s, co);
                    }
                }
            }
        }
        let neg = v.num.0[0].1.n < 0;
        let w = if neg { Val { num: v.num.neg(), den: v.den.clone() } } else { v.clone() };
        let s = self.atom(AtomKind::Sin(w.clone()));
        let c = self.atom(AtomKind::Cos(w));
        let sp = if neg { Poly::atom(s).neg() } else { Poly::atom(s) };
        (Val::poly(sp), Val::poly(Poly::atom(c)))
    }
    pub fn atan2(&mut self, y: &Val, x: &Val) -> Val {
        // the angle whose sine and cosine are given
        if let (Some((a, k)), Some((b, l))) = (self.single_scaled_atom(y), self.single_scaled_atom(x)) {
            if let (AtomKind::Sin(v), AtomKind::Cos(w)) = (self.atoms[a as usize].clone(), self.atoms[b as usize].clone()) {
                if k == Rat::ONE && l == Rat::ONE && v == w {
                    let (lo, hi) = self.val_interval(&v, 0);
                    if lo > -3.14 && hi < 3.14 { return v; }
                }
            }
        }
        let a = self.atom(AtomKind::Atan2(y.clone(), x.clone()));
        Val::poly(Poly::atom(a))
    }
    pub fn fun(&mut self, name: &'static str, v: &Val) -> Val {
        let a = self.atom(AtomKind::Fun(name, v.clone()));
        Val::poly(Poly::atom(a))
    }

    // ---------- numeric evaluation ----------
    pub fn eval_atom(&self, a: u32) -> f64 {
        if let Some(&x) = self.evals.borrow().get(&a) { return x; }
        let x = match &self.atoms[a as usize] {
            AtomKind::Var { .. } => *self.witness.get(&a).unwrap_or(&0.0),
            AtomKind::Sqrt(p) => self.eval_poly(p).0.max(0.0).sqrt(),
            AtomKind::Abs(p) => self.eval_poly(p).0.abs(),
            AtomKind::Sin(v) => self.eval_val(v).sin(),
            AtomKind::Cos(v) => self.eval_val(v).cos(),
            AtomKind::Atan2(y, x) => self.eval_val(y).atan2(self.eval_val(x)),
            AtomKind::Alias(v) => self.eval_val(v),
            AtomKind::Fun(n, v) => { let x = self.eval_val(v); match *n { "floor" => x.floor(), "exp" => x.exp(), "ln" => x.ln(), "asin" => x.asin(), "acos" => x.acos(), "exp2" => x.exp2(), "log2" => x.log2(), "log10" => x.log10(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), _ => f64::NAN } }
        };
        self.evals.borrow_mut().insert(a, x);
        x
    }
    pub fn eval_poly(&self, p: &Poly) -> (f64, f64) { p.eval(&mut |a| self.eval_atom(a)) }
    pub fn eval_val(&self, v: &Val) -> f64 {
        let mut x = self.eval_poly(&v.num).0;
        for &(f, e) in &v.den { x /= self.eval_poly(&self.factors[f as usize]).0.powi(e as i32); }
        x
    }
    fn eval_b(&self, b: &B) -> Option<bool> {
        match b {
            B::Cst(x) => Some(*x),
            B::Cmp(p, m) => {
                let (v, mag) = self.eval_poly(p);
                if v.is_nan() { return None; }
                let s = if v.abs() <= 1e-11 * mag { if *m & ZER != 0 { return Some(true); } return None; } else if v < 0.0 { NEG } else { POS };
                Some(s & m != 0)
            }
            B::And(v) => { let mut r = Some(true); for x in v { match self.eval_b(x) { Some(false) => return Some(false), None => r = None, _ => {} } } r }
            B::Or(v) => { let mut r = Some(false); for x in v { match self.eval_b(x) { Some(true) => return Some(true), None => r = None, _ => {} } } r }
        }
    }

    // ---------- SMT ----------
    pub fn atom_name(&self, a: u32) -> String {
        match &self.atoms[a as usize] { AtomKind::Var { .. } => format!("v{}", a), AtomKind::Sqrt(_) => format!("sq{}", a), AtomKind::Abs(_) => format!("ab{}", a), AtomKind::Sin(_) => format!("si{}", a), AtomKind::Cos(_) => format!("co{}", a), AtomKind::Atan2(..) => format!("at{}", a), AtomKind::Alias(_) => format!("al{}", a), AtomKind::Fun(..) => format!("fu{}", a) }
    }
    pub fn var_names(&self) -> Vec<(u32, String)> { self.vars.iter().map(|&a| (a, format!("v{}", a))).collect() }
    pub fn smt_poly(&self, p: &Poly) -> String { p.smt(&|a| self.atom_name(a)) }
    pub fn smt_b(&self, b: &B, margin: Option<f64>) -> String {
        match b {
            B::Cst(x) => x.to_string(),
            B::Cmp(p, m) => {
                if *m == 0 { return "false".into(); }
                if *m == 7 { return "true".into(); }
                if let Some(e) = margin {
                    let es = Rat::from_f64(e).unwrap().smt();
                    match *m {
                        1 | 3 => return format!("(< {} (- {}))", self.smt_poly(p), es),
                        4 | 6 => return format!("(> {} {})", self.smt_poly(p), es),
                        5 => return format!("(or (< {0} (- {1})) (> {0} {1}))", self.smt_poly(p), es),
                        _ => {}
                    }
                }
                // keep positive and negative parts on their own sides, without constants being lost
                format!("({} {} 0.0)", op_mask_str(*m), self.smt_poly(p))
            }
            B::And(v) => if v.is_empty() { "true".into() } else { format!("(and {})", v.iter().map(|x| self.smt_b(x, margin)).collect::<Vec<_>>().join(" ")) },
            B::Or(v) => if v.is_empty() { "false".into() } else { format!("(or {})", v.iter().map(|x| self.smt_b(x, margin)).collect::<Vec<_>>().join(" ")) },
        }
    }
    pub fn collect_b(b: &B, out: &mut BTreeSet<u32>) {
        match b { B::Cst(_) => {}, B::Cmp(p, _) => out.extend(p.atoms()), B::And(v) | B::Or(v) => for x in v { Self::collect_b(x, out) } }
    }
    fn val_atoms(&self, v: &Val) -> Vec<u32> {
        let mut o = v.num.atoms();
        for &(f, _) in &v.den { o.extend(self.factors[f as usize].atoms()); }
        o
    }
    fn close_atoms(&self, out: &mut BTreeSet<u32>) {
        let mut work: Vec<u32> = out.iter().cloned().collect();
        while let Some(a) = work.pop() {
            let deps: Vec<u32> = match &self.atoms[a as usize] {
                AtomKind::Var { .. } => vec![],
                AtomKind::Sqrt(p) | AtomKind::Abs(p) => p.atoms(),
                AtomKind::Alias(v) => self.val_atoms(v),
                AtomKind::Sin(v) | AtomKind::Cos(v) => {
                    let mut d = self.val_atoms(v);
                    if let Some(&o) = self.atom_ids.get(&AtomKind::Sin(v.clone())) { d.push(o); }
                    d
                }
                AtomKind::Atan2(y, x) => { let mut d = self.val_atoms(y); d.extend(self.val_atoms(x)); d }
                AtomKind::Fun(_, v) => self.val_atoms(v),
            };
            for d in deps { if out.insert(d) { work.push(d); } }
        }
    }
    fn smt_val_parts(&self, v: &Val) -> (String, String) {
        let n = self.smt_poly(&v.num);
        let mut d: Vec<String> = vec![];
        for &(f, e) in &v.den { for _ in 0..e { d.push(self.smt_poly(&self.factors[f as usize])); } }
        let d = if d.is_empty() { "1.0".into() } else if d.len() == 1 { d.pop().unwrap() } else { format!("(* {})", d.join(" ")) };
        (n, d)
    }
    /// Text of the query "path condition and extra", with definitions of the atoms it needs.
    pub fn query(&self, add: &[B], margin: Option<f64>) -> String { self.query_ext(add, margin, &[]) }
    /// Like `query`, with only those path constraints that speak about what `add` depends on (unsat is conclusive, sat is not).
    pub fn query_cone(&self, add: &[B]) -> Option<String> {
        let mut cone: BTreeSet<u32> = self.vars.iter().cloned().collect();
        for c in add { Self::collect_b(c, &mut cone); }
        self.close_atoms(&mut cone);
        let all = self.all_constraints();
        let cs: Vec<B> = all.iter().filter(|c| { let mut s = BTreeSet::new(); Self::collect_b(c, &mut s); s.iter().all(|a| cone.contains(a)) }).cloned().collect();
        if cs.len() == all.len() { return None; }
        Some(self.query_of(cs, add, None, &[]))
    }
    /// Like `query_cone`, and without the inputs that `add` does not depend on.
    pub fn query_core(&self, add: &[B]) -> Option<String> {
        if add.is_empty() { return None; }
        let mut core = BTreeSet::new();
        for c in add { Self::collect_b(c, &mut core); }
        self.close_atoms(&mut core);
        if self.vars.iter().all(|a| core.contains(a)) { return None; }
        let cs: Vec<B> = self.all_constraints().into_iter().filter(|c| { let mut s = BTreeSet::new(); Self::collect_b(c, &mut s); s.iter().all(|a| core.contains(a)) }).collect();
        Some(self.query_over(core, cs, add, None, &[]))
    }
    pub fn query_ext(&self, add: &[B], margin: Option<f64>, raw: &[String]) -> String {
        self.query_of(self.all_constraints(), add, margin, raw)
    }
    fn query_of(&self, cs: Vec<B>, add: &[B], margin: Option<f64>, raw: &[String]) -> String {
        self.query_over(self.vars.iter().cloned().collect(), cs, add, margin, raw)
    }
    fn query_over(&self, atoms: BTreeSet<u32>, cs: Vec<B>, add: &[B], margin: Option<f64>, raw: &[String]) -> String {
        let mut base: Vec<String> = vec![];
        let mut atoms = atoms;
        for c in cs.iter().chain(add.iter()) { Self::collect_b(c, &mut atoms); }
        self.close_atoms(&mut atoms);
        let mut s = String::new();
        for &a in &atoms { s.push_str(&format!("(declare-fun {} () Real)\n", self.atom_name(a))); }
        for &a in &atoms {
            let n = self.atom_name(a);
            match &self.atoms[a as usize] {
                AtomKind::Var { lo, hi, .. } => { base.push(format!("(<= {} {} {})", lo.smt(), n, hi.smt())); }
                AtomKind::Sqrt(p) => { base.push(format!("(>= {} 0.0)", n)); base.push(format!("(= (* {0} {0}) {1})", n, self.smt_poly(p))); }
                AtomKind::Abs(p) => { let t = self.smt_poly(p); base.push(format!("(>= {} 0.0)", n)); base.push(format!("(or (= {0} {1}) (= {0} (- {1})))", n, t)); }
                AtomKind::Alias(v) => { let (p, d) = self.smt_val_parts(v); base.push(if d == "1.0" { format!("(= {} {})", n, p) } else { format!("(= (* {} {}) {})", n, d, p) }); }
                AtomKind::Sin(v) => {
                    let c = self.atom_ids.get(&AtomKind::Cos(v.clone()));
                    if let Some(c) = c { if atoms.contains(c) { let m = self.atom_name(*c); base.push(format!("(= (+ (* {0} {0}) (* {1} {1})) 1.0)", n, m)); } }
                    base.push(format!("(<= (- 1.0) {} 1.0)", n));
                    let (l, h) = self.val_interval(v, 0);
                    if l < -1.57 || h > 1.57 { if let Some(t) = self.obtuse(a) { base.push(t); } }
                    let (p, d) = self.smt_val_parts(v);
                    if d == "1.0" {
                        if l >= -3.14 && h <= 3.14 { base.push(format!("(and (=> (> {0} 0.0) (> {1} 0.0)) (=> (< {0} 0.0) (< {1} 0.0)) (=> (= {0} 0.0) (= {1} 0.0)))", p, n)); }
                        base.push(format!("(and (=> (>= {0} 0.0) (<= {1} {0})) (=> (<= {0} 0.0) (>= {1} {0})))", p, n));
                        if l >= -1.57 && h <= 1.57 { base.push(format!("(and (=> (>= {0} 0.0) (>= {1} (* 0.63 {0}))) (=> (<= {0} 0.0) (<= {1} (* 0.63 {0}))))", p, n)); }
                    }
                }
                AtomKind::Cos(v) => {
                    base.push(format!("(<= (- 1.0) {} 1.0)", n));
                    let (l, h) = self.val_interval(v, 0);
                    if l >= -1.57 && h <= 1.57 { base.push(format!("(> {} 0.0)", n)); }
                    else if let Some(t) = self.obtuse(a) { base.push(t); }
                    let (p, d) = self.smt_val_parts(v);
                    if d == "1.0" { base.push(format!("(>= {0} (- 1.0 (/ (* {1} {1}) 2.0)))", n, p)); }
                }
                AtomKind::Atan2(y, x) => {
                    let (l, h) = self.atom_interval_raw(a, 0);
                    base.push(format!("(<= {} {} {})", Rat::from_f64(l).unwrap().smt(), n, Rat::from_f64(h).unwrap().smt()));
                    // y = h sin T, and sin T <= T for T >= 0 (when the hypotenuse is one, or more generally at least y)
                    let (yl, _) = self.val_interval(y, 0);
                    let (yn, yd) = self.smt_val_parts(y);
                    let (xn, xd) = self.smt_val_parts(x);
                    if yl >= 0.0 && yd == "1.0" && xd == "1.0" {
                        // y^2 <= T^2 (x^2+y^2)
                        base.push(format!("(<= (* {0} {0}) (* {1} {1} (+ (* {0} {0}) (* {2} {2}))))", yn, n, xn));
                        base.push(format!("(=> (= {0} 0.0) (or (= {1} 0.0) (< {2} 0.0)))", yn, n, xn));
                    }
                }
                AtomKind::Fun(..) => {}
            }
        }
        for b in base { s.push_str("(assert "); s.push_str(&b); s.push_str(")\n"); }
        for c in &cs { s.push_str("(assert "); s.push_str(&self.smt_b(c, margin)); s.push_str(")\n"); }
        for c in add { s.push_str("(assert "); s.push_str(&self.smt_b(c, margin)); s.push_str(")\n"); }
        for r in raw { s.push_str("(assert "); s.push_str(r); s.push_str(")\n"); }
        s
    }
    fn solve(&mut self, smt: &str, ms: u64, vals: bool) -> Answer {
        let mut ms = ms;
        if let Some(d) = self.deadline {
            let left = d.saturating_duration_since(std::time::Instant::now()).as_millis() as u64;
            if left == 0 { stop(Stop::Limit("out of time".into())); }
            ms = ms.min(left.max(200));
        }
        let names: Vec<String> = if vals { self.vars.iter().map(|&a| self.atom_name(a)).collect() } else { vec![] };
        let t = std::time::Instant::now();
        let r = self.solver.solve(smt, ms, &names);
        let dt = t.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if dt > self.stats.max_query_s { self.stats.max_query_s = dt; }
        if self.cfg.dump && dt > 1.0 { eprintln!("; slow query {:.2}s {:?}\n{}", dt, r.kind(), smt); }
        r
    }

    // ---------- harness operations ----------
    pub fn assume(&mut self, b: B) {
        match b {
            B::Cst(true) => {}
            B::Cst(false) => stop(Stop::Infeasible),
            B::And(v) => for x in v { self.assume_one(x); },
            x => self.assume_one(x),
        }
        // keep a witness
        if self.trail.len() >= self.prefix.len() {
            let ok = self.all_constraints().iter().all(|c| self.eval_b(c) == Some(true));
            if !ok {
                let smt = self.query(&[], None);
                self.stats.feas_queries += 1;
                match self.solve(&smt, self.cfg.feas_ms, true) {
                    Answer::Sat(m) => self.set_witness(&m),
                    Answer::Unsat => stop(Stop::Infeasible),
                    Answer::Unknown => { self.stats.feas_unknown += 1; }
                }
            }
        }
    }
    pub fn all_constraints(&self) -> Vec<B> {
        let mut v: Vec<B> = self.order.iter().filter(|q| self.signs[*q] != 7).map(|q| B::Cmp(q.clone(), self.signs[q])).collect();
        v.extend(self.extra.iter().cloned());
        v
    }
    pub fn set_witness(&mut self, vals: &[f64]) {
        for (&a, &x) in self.vars.iter().zip(vals.iter()) { self.witness.insert(a, x); }
        self.evals.borrow_mut().clear();
    }
    fn assume_one(&mut self, b: B) {
        match b {
            B::Cst(true) => {}
            B::Cst(false) => stop(Stop::Infeasible),
            B::And(v) => for x in v { self.assume_one(x) },
            B::Cmp(p, m) => {
                if let Some((q, flip)) = self.normalise(&p) {
                    let m = if flip { Self::mask_flip(m) } else { m };
                    let poss = self.possible(&q);
                    if poss & m == 0 { stop(Stop::Infeasible); }
                    if poss & m != poss { self.constrain(q, poss & m); } else if poss == POS || poss == NEG { self.note_definite(&q); }
                } else { self.extra.push(B::Cmp(p, m)); }
            }
            x => self.extra.push(x),
        }
    }
    fn model_now(&self) -> Model {
        let mut m = Model::default();
        for &a in &self.vars { if let AtomKind::Var { name, .. } = &self.atoms[a as usize] { m.reals.insert(name.clone(), *self.witness.get(&a).unwrap_or(&0.0)); } }
        m.chooses = self.chooses.clone();
        m
    }
    fn model_from(&self, vals: &[f64]) -> Model {
        let mut m = self.model_now();
        for (&a, &x) in self.vars.iter().zip(vals.iter()) { if let AtomKind::Var { name, .. } = &self.atoms[a as usize] { m.reals.insert(name.clone(), x); } }
        m
    }
    /// What the interval says of a sine or cosine whose angle leaves the range around zero.
    fn obtuse(&self, a: u32) -> Option<String> {
        let (l, h) = self.atom_interval_raw(a, 0);
        let (l, h) = ((l * 4096.0).floor() / 4096.0, (h * 4096.0).ceil() / 4096.0);
        if l <= -1.0 && h >= 1.0 { return None; }
        Some(format!("(<= {} {} {})", Rat::from_f64(l).ok()?.smt(), self.atom_name(a), Rat::from_f64(h).ok()?.smt()))
    }
    fn trig_atoms(&self) -> bool { self.atoms.iter().any(|a| matches!(a, AtomKind::Sin(_) | AtomKind::Cos(_) | AtomKind::Atan2(..) | AtomKind::Fun(..))) }
    /// Narrow bounds of the sines and cosines of small angles.
    fn taylor(&self, neg: &[B]) -> Vec<String> {
        let mut atoms: BTreeSet<u32> = BTreeSet::new();
        for c in self.all_constraints().iter().chain(neg.iter()) { Self::collect_b(c, &mut atoms); }
        atoms.extend(self.vars.iter());
        self.close_atoms(&mut atoms);
        let mut out = vec![];
        for &a in &atoms {
            let (v, sin) = match &self.atoms[a as usize] { AtomKind::Sin(v) => (v, true), AtomKind::Cos(v) => (v, false), _ => continue };
            let (l, h) = self.val_interval(v, 0);
            let (p, d) = self.smt_val_parts(v);
            if d != "1.0" || l < -1.57 || h > 1.57 || !self.val_atoms(v).iter().all(|x| atoms.contains(x)) { continue; }
            let n = self.atom_name(a);
            let sq = format!("(* {0} {0})", p);
            if sin {
                let low = format!("(* {0} (- 1.0 (/ {1} 6.0)))", p, sq);
                let high = format!("(* {0} (+ (- 1.0 (/ {1} 6.0)) (/ (* {1} {1}) 120.0)))", p, sq);
                out.push(format!("(ite (>= {0} 0.0) (<= {1} {3} {2}) (<= {2} {3} {1}))", p, low, high, n));
            } else {
                out.push(format!("(<= {1} (+ (- 1.0 (/ {0} 2.0)) (/ (* {0} {0}) 24.0)))", sq, n));
                out.push(format!("(>= {1} (- (+ (- 1.0 (/ {0} 2.0)) (/ (* {0} {0}) 24.0)) (/ (* {0} (* {0} {0})) 720.0)))", sq, n));
            }
        }
        out
    }
    /// Collects concrete candidates for a satisfiable violation query.
    fn candidates(&mut self, neg: &[B], first: Vec<f64>) -> Vec<Model> {
        let mut out = vec![];
        let mut push = |m: Model| { if out.len() < 14 { out.push(m); } };
        let ms = self.cfg.feas_ms.max(4000);
        for eps in [0.0625, 0.0078125, 0.0009765625] {
            let q = self.query(neg, Some(eps));
            if let Answer::Sat(m) = self.solve(&q, ms, true) { push(self.model_from(&m)); break; }
        }
        push(self.model_from(&first));
        if self.trig_atoms() {
            // solver treats sin/cos as unknown functions: pin inputs, give their true values
            let saved = self.witness.clone();
            let vars = self.vars.clone();
            let tight = self.taylor(neg);
            let q = self.query_ext(neg, None, &tight);
            let mut first = first;
            if let Answer::Sat(m) = self.solve(&q, ms, true) { push(self.model_from(&m)); first = m; }
            for round in 0..8 {
                let mut vals = first.clone();
                if round > 0 {
                    for (i, &a) in vars.iter().enumerate() {
                        if let AtomKind::Var { lo, hi, .. } = self.atoms[a as usize].clone() { let r = match round { 1 => 0.0, 2 => 1.0, _ => self.rand() }; vals[i] = lo.to_f64() + (hi.to_f64() - lo.to_f64()) * r; }
                    }
                }
                self.set_witness(&vals);
                let mut raw = vec![];
                let mut pinned = BTreeSet::new();
                for a in 0..self.atoms.len() as u32 {
                    let v = match &self.atoms[a as usize] { AtomKind::Sin(v) | AtomKind::Cos(v) => v.clone(), _ => continue };
                    let mut deps: BTreeSet<u32> = self.val_atoms(&v).into_iter().collect();
                    self.close_atoms(&mut deps);
                    for d in deps { if matches!(self.atoms[d as usize], AtomKind::Var { .. }) && pinned.insert(d) {
                        if let Ok(r) = Rat::from_f64(((self.eval_atom(d) * 4096.0).round()) / 4096.0) { raw.push(format!("(= {} {})", self.atom_name(d), r.smt())); self.witness.insert(d, r.to_f64()); }
                    } }
                }
                self.evals.borrow_mut().clear();
                for a in 0..self.atoms.len() as u32 {
                    if !matches!(&self.atoms[a as usize], AtomKind::Sin(_) | AtomKind::Cos(_)) { continue; }
                    let x = self.eval_atom(a);
                    if let (Ok(l), Ok(h)) = (Rat::from_f64(((x - 1e-9) * 1e12).round() / 1e12), Rat::from_f64(((x + 1e-9) * 1e12).round() / 1e12)) {
                        raw.push(format!("(<= {} {} {})", l.smt(), self.atom_name(a), h.smt()));
                    }
                }
                let mut atoms: BTreeSet<u32> = BTreeSet::new();
                for c in self.all_constraints().iter().chain(neg.iter()) { Self::collect_b(c, &mut atoms); }
                atoms.extend(self.vars.iter());
                self.close_atoms(&mut atoms);
                let names: BTreeSet<String> = atoms.iter().map(|&a| self.atom_name(a)).collect();
                let raw: Vec<String> = raw.into_iter().filter(|r| r.split(|c: char| c == ' ' || c == ')' || c == '(').filter(|w| w.starts_with("si") || w.starts_with("co") || w.starts_with('v')).all(|w| names.contains(w))).collect();
                for eps in [Some(0.0078125), None] {
                    let q = self.query_ext(neg, eps, &raw);
                    if let Answer::Sat(m) = self.solve(&q, ms, true) { push(self.model_from(&m)); break; }
                }
            }
            self.witness = saved;
            self.evals.borrow_mut().clear();
        }
        out
    }
    pub fn check(&mut self, label: &str, b: B) {
        let parts = match b { B::And(v) => v, x => vec![x] };
        for p in parts { self.check_one(label, p); }
    }
    fn check_one(&mut self, label: &str, b: B) {
        self.stats.checks += 1;
        if let B::Cst(true) = b { self.stats.checks_trivial += 1; return; }
        let neg = vec![b.not()];
        self.violation_query(label, "check", neg);
    }
    /// Notes that the normal form decided sign(a - b) in mask, to be confirmed by the solver at the end of the path.
    pub fn claim(&mut self, a: Val, b: Val, mask: u8) {
        if a.num.0.len() + b.num.0.len() <= 600 { self.claims.insert((a, b, mask)); } else { self.stats.claims_unsent += 1; }
    }
    /// Asks the solver for a counterexample to any of the claims of this path.
    pub fn confirm(&mut self) {
        let mut raw = vec![];
        let mut cone: BTreeSet<u32> = self.vars.iter().cloned().collect();
        for (a, b, mask) in std::mem::take(&mut self.claims) {
            let definite = |c: &Self, v: &Val| mask == ZER || v.den.iter().all(|&(f, e)| e % 2 == 0 || c.possible(&c.factors[f as usize]) == POS);
            if !definite(self, &a) || !definite(self, &b) { self.stats.claims_unsent += 1; continue; }
            cone.extend(self.val_atoms(&a));
            cone.extend(self.val_atoms(&b));
            let ((an, ad), (bn, bd)) = (self.smt_val_parts(&a), self.smt_val_parts(&b));
            let times = |x: String, y: &String| if y == "1.0" { x } else { format!("(* {} {})", x, y) };
            let (l, r) = if ad == bd { (an, bn) } else { (times(an, &bd), times(bn, &ad)) };
            raw.push(format!("(not ({} {} {}))", op_mask_str(mask), l, r));
        }
        if raw.is_empty() { return; }
        raw.sort();
        raw.dedup();
        let n = raw.len() as u64;
        self.close_atoms(&mut cone);
        let cs: Vec<B> = self.all_constraints().into_iter().filter(|c| { let mut s = BTreeSet::new(); Self::collect_b(c, &mut s); s.iter().all(|a| cone.contains(a)) }).collect();
        let q = self.query_over(cone, cs, &[], None, &[format!("(or {})", raw.join(" "))]);
        let h = hash_of(&q) ^ 0x7777;
        if self.known_unsat(h) { self.stats.claims_confirmed += n; return; }
        let t = std::time::Instant::now();
        let r = self.solver.quick(&q, 500, &[]);
        self.stats.solver_s += t.elapsed().as_secs_f64();
        self.stats.claim_queries += 1;
        match r { Answer::Unsat => { self.stats.claims_confirmed += n; self.seen_insert(h); } Answer::Sat(_) => { self.stats.claims_refuted += n; if std::env::var("SYM_CLAIMS").is_ok() { eprintln!("; refuted\n{}", q); } } Answer::Unknown => self.stats.claims_unknown += n }
    }
    fn known_unsat(&self, h: u64) -> bool { self.seen.as_ref().map(|s| s.lock().unwrap().contains(&h)).unwrap_or(false) }
    /// True if it was not there yet.
    fn seen_insert(&self, h: u64) -> bool { self.seen.as_ref().map(|s| s.lock().unwrap().insert(h)).unwrap_or(true) }
    /// Equations that give the inputs short values close to the witness.
    fn near(&self) -> Vec<String> {
        let mut out = vec![];
        if self.vars.len() < 4 { return out; }
        for &a in &self.vars {
            let (lo, hi) = match &self.atoms[a as usize] { AtomKind::Var { lo, hi, .. } => (*lo, *hi), _ => continue };
            let x = (self.eval_atom(a) * 64.0).round() / 64.0;
            if let Ok(r) = Rat::from_f64(x) { if x >= lo.to_f64() && x <= hi.to_f64() { out.push(format!("(= {} {})", self.atom_name(a), r.smt())); } }
        }
        out
    }
    /// Asks for a solution near the known witness: some of the inputs keep their witness values.
    fn pinned(&mut self, neg: &[B]) -> Option<Vec<f64>> {
        if self.vars.len() < 4 { return None; }
        for round in 0..4 {
            let keep = [0.5, 0.65, 0.8, 0.8][round];
            let raw: Vec<String> = self.near().into_iter().filter(|_| self.rand() < keep).collect();
            let q = self.query_ext(neg, None, &raw);
            if let Answer::Sat(m) = self.solve(&q, 1000, true) { return Some(m); }
        }
        None
    }
    fn violation_query(&mut self, label: &str, kind: &str, neg: Vec<B>) {
        for q in self.query_hints(&neg).into_iter().chain(self.query_core(&neg)).chain(self.query_cone(&neg)) {
            let h = hash_of(&q);
            if self.known_unsat(h) { self.stats.checks_shared += 1; return; }
            if self.seen_insert(h ^ 0x5555) {
                self.stats.queries += 1;
                if let Answer::Unsat = self.solve(&q, self.cfg.check_ms / 4, false) { self.stats.unsat += 1; self.seen_insert(h); return; }
            }
        }
        let smt = self.query(&neg, None);
        let h = hash_of(&smt);
        if self.known_unsat(h) { self.stats.checks_shared += 1; return; }
        if !self.seen_insert(h ^ hash_of(label)) { self.stats.checks_shared += 1; return; }
        self.stats.queries += 1;
        match self.solve(&smt, self.cfg.check_ms, true) {
            Answer::Unsat => { self.stats.unsat += 1; self.seen_insert(h); }
            Answer::Sat(m) => {
                self.stats.sat += 1;
                if std::env::var("SYM_UNDECIDED").is_ok() { eprintln!("; satisfied {}\n{}", label, smt); }
                let models = self.candidates(&neg, m);
                self.cex.push(Counterexample { label: label.into(), kind: kind.into(), models });
            }
            Answer::Unknown => {
                if let Some(m) = self.pinned(&neg) {
                    self.stats.sat += 1;
                    let models = self.candidates(&neg, m);
                    self.cex.push(Counterexample { label: label.into(), kind: kind.into(), models });
                    return;
                }
                self.stats.unknown += 1;
                if std::env::var("SYM_UNDECIDED").is_ok() { eprintln!("; undecided {}\n{}", label, smt); }
                self.undecided.push(label.into());
            }
        }
    }
    /// The code under test panicked on this path.
    pub fn panicked(&mut self, label: &str) {
        self.panicked_as(label, "panic");
    }
    pub fn panicked_as(&mut self, label: &str, kind: &str) {
        self.stats.checks += 1;
        self.violation_query(label, kind, vec![]);
    }
    /// Records that some input really leads here.
    pub fn reached(&mut self, label: &str) {
        self.passed.insert(label.to_string());
        if self.reached_before.contains(label) { return; }
        let ok = self.all_constraints().iter().all(|c| self.eval_b(c) == Some(true));
        let ok = ok || {
            let smt = self.query(&[], None);
            self.stats.feas_queries += 1;
            match self.solve(&smt, self.cfg.feas_ms, true) {
                Answer::Sat(m) => { self.set_witness(&m); !self.trig_atoms() || self.all_constraints().iter().all(|c| self.eval_b(c) == Some(true)) }
                Answer::Unsat => stop(Stop::Infeasible),
                Answer::Unknown => { self.stats.feas_unknown += 1; false }
            }
        };
        if ok { self.reached.insert(label.to_string()); self.reached_before.insert(label.to_string()); }
    }
    pub fn feasible(&mut self) -> Option<bool> {
        let ok = self.all_constraints().iter().all(|c| self.eval_b(c) == Some(true)) && !self.trig_atoms();
        if ok { return Some(true); }
        let smt = self.query(&[], None);
        self.stats.feas_queries += 1;
        match self.solve(&smt, self.cfg.feas_ms, true) { Answer::Sat(_) => Some(true), Answer::Unsat => Some(false), Answer::Unknown => { self.stats.feas_unknown += 1; None } }
    }
    /// The inputs of the current path's witness, if they are known to take this path.
    pub fn witness_model(&self) -> Option<Model> {
        if self.all_constraints().iter().all(|c| self.eval_b(c) == Some(true)) { Some(self.model_now()) } else { None }
    }
}

fn hash_of(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn self_sq(p: &Poly) -> R<Poly> { p.mul_raw(p) }

fn split_square(r: Rat) -> (Rat, Rat) {
    // r = s^2 * t with small square factors pulled out
    let mut s = Rat::ONE;
    let mut t = r;
    for p in [2i128, 3, 5, 7] {
        while t.n % (p * p) == 0 && t.n != 0 { t.n /= p * p; s.n *= p; }
        while t.d % (p * p) == 0 { t.d /= p * p; s.d *= p; }
    }
    (s, t)
}

fn imul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let m = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
    let c = [m(a.0, b.0), m(a.0, b.1), m(a.1, b.0), m(a.1, b.1)];
    (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
}

fn ipow(a: (f64, f64), e: u32) -> (f64, f64) {
    if e == 1 { return a; }
    let (l, h) = (a.0.powi(e as i32), a.1.powi(e as i32));
    if e % 2 == 1 { (l, h) } else if a.0 >= 0.0 { (l, h) } else if a.1 <= 0.0 { (h, l) } else { (0.0, l.max(h)) }
}
