//! Exact multivariate polynomials with rational coefficients over "atoms".
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat { pub n: i128, pub d: i128 }

/// Arithmetic overflow of the 128-bit rationals.
#[derive(Debug, Clone, Copy)]
pub struct Overflow;
pub type R<T> = Result<T, Overflow>;

const LIM: i128 = 1i128 << 120;

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    if a == 0 { return b as i128; }
    if b == 0 { return a as i128; }
    let sh = (a | b).trailing_zeros();
    a >>= a.trailing_zeros();
    loop {
        b >>= b.trailing_zeros();
        if a > b { std::mem::swap(&mut a, &mut b); }
        b -= a;
        if b == 0 { break; }
    }
    (a << sh) as i128
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat { Rat { n, d: 1 } }
    pub fn new(n: i128, d: i128) -> R<Rat> {
        if d == 0 { return Err(Overflow); }
        let g = gcd(n, d);
        let (mut n, mut d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if d < 0 { n = -n; d = -d; }
        if n.abs() > LIM || d > LIM { return Err(Overflow); }
        Ok(Rat { n, d })
    }
    pub fn from_f64(x: f64) -> R<Rat> {
        if !x.is_finite() { return Err(Overflow); }
        if x == 0.0 { return Ok(Rat::ZERO); }
        let bits = x.to_bits();
        let sign = if bits >> 63 == 1 { -1i128 } else { 1 };
        let e = ((bits >> 52) & 0x7ff) as i32;
        let m = bits & ((1u64 << 52) - 1);
        let (mut m, mut e) = if e == 0 { (m as i128, -1074) } else { ((m | (1u64 << 52)) as i128, e - 1075) };
        while m & 1 == 0 { m >>= 1; e += 1; }
        if e >= 0 {
            if e > 66 { return Err(Overflow); }
            Rat::new(sign * (m << e), 1)
        } else {
            if e < -119 { return Err(Overflow); }
            Rat::new(sign * m, 1i128 << (-e))
        }
    }
    /// Parses what `{:?}` prints for a float.
    pub fn from_decimal(s: &str) -> R<Rat> {
        let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') { Some(i) => (&s[..i], s[i + 1..].parse::<i32>().map_err(|_| Overflow)?), None => (s, 0) };
        let (neg, mant) = match mant.strip_prefix('-') { Some(m) => (true, m), None => (false, mant) };
        let (ip, fp) = match mant.find('.') { Some(i) => (&mant[..i], &mant[i + 1..]), None => (mant, "") };
        let fp = fp.trim_end_matches('0');
        let n: i128 = format!("{}{}", ip, fp).parse().map_err(|_| Overflow)?;
        let e = exp - fp.len() as i32;
        if e.abs() > 30 { return Err(Overflow); }
        let p = 10i128.checked_pow(e.unsigned_abs()).ok_or(Overflow)?;
        let r = if e >= 0 { Rat::new(n.checked_mul(p).ok_or(Overflow)?, 1)? } else { Rat::new(n, p)? };
        Ok(if neg { r.neg() } else { r })
    }
    pub fn to_f64(self) -> f64 { self.n as f64 / self.d as f64 }
    pub fn is_zero(self) -> bool { self.n == 0 }
    pub fn add(self, o: Rat) -> R<Rat> {
        if self.n == 0 { return Ok(o); }
        if o.n == 0 { return Ok(self); }
        if self.d == o.d { return Rat::new(self.n.checked_add(o.n).ok_or(Overflow)?, self.d); }
        let g = gcd(self.d, o.d);
        let od = o.d / g;
        let sd = self.d / g;
        let n = self.n.checked_mul(od).ok_or(Overflow)?.checked_add(o.n.checked_mul(sd).ok_or(Overflow)?).ok_or(Overflow)?;
        Rat::new(n, self.d.checked_mul(od).ok_or(Overflow)?)
    }
    pub fn neg(self) -> Rat { Rat { n: -self.n, d: self.d } }
    pub fn mul(self, o: Rat) -> R<Rat> {
        if self.n == 0 || o.n == 0 { return Ok(Rat::ZERO); }
        let g1 = gcd(self.n, o.d);
        let g2 = gcd(o.n, self.d);
        Rat::new((self.n / g1).checked_mul(o.n / g2).ok_or(Overflow)?, (self.d / g2).checked_mul(o.d / g1).ok_or(Overflow)?)
    }
    pub fn inv(self) -> R<Rat> { Rat::new(self.d, self.n) }
    pub fn div(self, o: Rat) -> R<Rat> { self.mul(o.inv()?) }
    pub fn cmp(self, o: Rat) -> R<Ordering> { Ok(self.add(o.neg())?.n.cmp(&0)) }
    pub fn smt(self) -> String {
        let neg = self.n < 0;
        let n = self.n.unsigned_abs();
        let s = if self.d == 1 { format!("{}.0", n) } else { format!("(/ {}.0 {}.0)", n, self.d) };
        if neg { format!("(- {})", s) } else { s }
    }
    pub fn sqrt_exact(self) -> Option<Rat> {
        if self.n < 0 { return None; }
        Some(Rat { n: isqrt(self.n)?, d: isqrt(self.d)? })
    }
}

fn isqrt(n: i128) -> Option<i128> {
    let mut r = (n as f64).sqrt() as i128;
    while r * r > n { r -= 1; }
    while (r + 1) * (r + 1) <= n { r += 1; }
    if r * r == n { Some(r) } else { None }
}

/// Power product; sorted by atom id, exponents > 0.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Mono(pub Vec<(u32, u32)>);

impl Mono {
    pub fn one() -> Mono { Mono(Vec::new()) }
    pub fn atom(a: u32) -> Mono { Mono(vec![(a, 1)]) }
    pub fn mul(&self, o: &Mono) -> Mono {
        let mut v = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            let (a, b) = (self.0[i], o.0[j]);
            if a.0 == b.0 { v.push((a.0, a.1 + b.1)); i += 1; j += 1; }
            else if a.0 < b.0 { v.push(a); i += 1; } else { v.push(b); j += 1; }
        }
        v.extend_from_slice(&self.0[i..]);
        v.extend_from_slice(&o.0[j..]);
        Mono(v)
    }
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        let mut v = Vec::with_capacity(self.0.len());
        let mut j = 0;
        for &(a, e) in &self.0 {
            if j < o.0.len() && o.0[j].0 == a {
                if o.0[j].1 > e { return None; }
                if e > o.0[j].1 { v.push((a, e - o.0[j].1)); }
                j += 1;
            } else { v.push((a, e)); }
        }
        if j < o.0.len() { None } else { Some(Mono(v)) }
    }
    pub fn degree(&self) -> u32 { self.0.iter().map(|x| x.1).sum() }
    pub fn exp(&self, a: u32) -> u32 { self.0.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0) }
}

impl PartialOrd for Mono { fn partial_cmp(&self, o: &Mono) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Mono {
    /// Pure lexicographic order (a monomial order): compare exponents of the smallest atom first.
    fn cmp(&self, o: &Mono) -> Ordering {
        let (mut i, mut j) = (0, 0);
        loop {
            match (self.0.get(i), o.0.get(j)) {
                (None, None) => return Ordering::Equal,
                (Some(_), None) => return Ordering::Greater,
                (None, Some(_)) => return Ordering::Less,
                (Some(a), Some(b)) => {
                    if a.0 < b.0 { return Ordering::Greater; }
                    if a.0 > b.0 { return Ordering::Less; }
                    if a.1 != b.1 { return a.1.cmp(&b.1); }
                    i += 1; j += 1;
                }
            }
        }
    }
}

/// Terms sorted by descending monomial; no zero coefficients.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub Vec<(Mono, Rat)>);

impl Poly {
    pub fn zero() -> Poly { Poly(Vec::new()) }
    pub fn cst(r: Rat) -> Poly { if r.is_zero() { Poly::zero() } else { Poly(vec![(Mono::one(), r)]) } }
    pub fn one() -> Poly { Poly::cst(Rat::ONE) }
    pub fn atom(a: u32) -> Poly { Poly(vec![(Mono::atom(a), Rat::ONE)]) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn as_const(&self) -> Option<Rat> {
        if self.0.is_empty() { return Some(Rat::ZERO); }
        if self.0.len() == 1 && self.0[0].0 .0.is_empty() { Some(self.0[0].1) } else { None }
    }
    pub fn as_atom(&self) -> Option<u32> {
        if self.0.len() == 1 && self.0[0].1 == Rat::ONE && self.0[0].0 .0.len() == 1 && self.0[0].0 .0[0].1 == 1 { Some(self.0[0].0 .0[0].0) } else { None }
    }
    pub fn add(&self, o: &Poly) -> R<Poly> { self.addmul(o, Rat::ONE) }
    pub fn sub(&self, o: &Poly) -> R<Poly> { self.addmul(o, Rat::int(-1)) }
    pub fn addmul(&self, o: &Poly, k: Rat) -> R<Poly> {
        let mut v = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            match self.0[i].0.cmp(&o.0[j].0) {
                Ordering::Greater => { v.push(self.0[i].clone()); i += 1; }
                Ordering::Less => { v.push((o.0[j].0.clone(), o.0[j].1.mul(k)?)); j += 1; }
                Ordering::Equal => {
                    let c = self.0[i].1.add(o.0[j].1.mul(k)?)?;
                    if !c.is_zero() { v.push((self.0[i].0.clone(), c)); }
                    i += 1; j += 1;
                }
            }
        }
        v.extend_from_slice(&self.0[i..]);
        for t in &o.0[j..] { v.push((t.0.clone(), t.1.mul(k)?)); }
        Ok(Poly(v))
    }
    pub fn scale(&self, k: Rat) -> R<Poly> {
        if k.is_zero() { return Ok(Poly::zero()); }
        let mut v = Vec::with_capacity(self.0.len());
        for t in &self.0 { v.push((t.0.clone(), t.1.mul(k)?)); }
        Ok(Poly(v))
    }
    pub fn neg(&self) -> Poly { Poly(self.0.iter().map(|t| (t.0.clone(), t.1.neg())).collect()) }
    pub fn mul_term(&self, m: &Mono, k: Rat) -> R<Poly> {
        let mut v = Vec::with_capacity(self.0.len());
        for t in &self.0 { v.push((t.0.mul(m), t.1.mul(k)?)); }
        Ok(Poly(v)) // lex order is multiplicative, so order is kept
    }
    pub fn from_terms(mut v: Vec<(Mono, Rat)>) -> R<Poly> {
        v.sort_by(|a, b| b.0.cmp(&a.0));
        let mut out: Vec<(Mono, Rat)> = Vec::with_capacity(v.len());
        for (m, c) in v {
            if let Some(l) = out.last_mut() {
                if l.0 == m { l.1 = l.1.add(c)?; continue; }
                if l.1.is_zero() { out.pop(); }
            }
            out.push((m, c));
        }
        if let Some(l) = out.last() { if l.1.is_zero() { out.pop(); } }
        Ok(Poly(out))
    }
    /// Product without atom reductions.
    pub fn mul_raw(&self, o: &Poly) -> R<Poly> {
        if self.is_zero() || o.is_zero() { return Ok(Poly::zero()); }
        if self.0.len() == 1 { return o.mul_term(&self.0[0].0, self.0[0].1); }
        if o.0.len() == 1 { return self.mul_term(&o.0[0].0, o.0[0].1); }
        let mut v = Vec::with_capacity(self.0.len() * o.0.len());
        for a in &self.0 { for b in &o.0 { v.push((a.0.mul(&b.0), a.1.mul(b.1)?)); } }
        Poly::from_terms(v)
    }
    /// Exact division as polynomials (None if there is a remainder).
    pub fn div_exact(&self, d: &Poly) -> R<Option<Poly>> {
        if d.is_zero() { return Err(Overflow); }
        if self.is_zero() { return Ok(Some(Poly::zero())); }
        // cheap necessary test on the lowest term
        let (ll, dl) = (&self.0[self.0.len() - 1].0, &d.0[d.0.len() - 1].0);
        if ll.div(dl).is_none() { return Ok(None); }
        let mut rem = self.clone();
        let mut q: Vec<(Mono, Rat)> = Vec::new();
        let (dm, dc) = (&d.0[0].0, d.0[0].1);
        let mut guard = 0;
        while !rem.is_zero() {
            guard += 1;
            if guard > 2000 { return Ok(None); }
            let m = match rem.0[0].0.div(dm) { Some(m) => m, None => return Ok(None) };
            let c = rem.0[0].1.div(dc)?;
            rem = rem.sub(&d.mul_term(&m, c)?)?;
            q.push((m, c));
        }
        Ok(Some(Poly(q)))
    }
    /// Rational content (positive, gcd of numerators over lcm of denominators) with the sign of the leading coefficient.
    pub fn content(&self) -> R<Rat> {
        if self.is_zero() { return Ok(Rat::ONE); }
        let mut g = 0i128;
        let mut l = 1i128;
        for t in &self.0 {
            g = gcd(g, t.1.n);
            let q = gcd(l, t.1.d);
            l = l.checked_mul(t.1.d / q).ok_or(Overflow)?;
        }
        let r = Rat::new(g, l)?;
        Ok(if self.0[0].1.n < 0 { r.neg() } else { r })
    }
    /// Largest monomial dividing every term.
    pub fn mono_content(&self) -> Mono {
        if self.is_zero() { return Mono::one(); }
        let mut m = self.0[0].0.clone();
        for t in &self.0[1..] {
            m.0 = m.0.iter().filter_map(|&(a, e)| { let f = t.0.exp(a).min(e); if f > 0 { Some((a, f)) } else { None } }).collect();
            if m.0.is_empty() { break; }
        }
        m
    }
    pub fn atoms(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.0.iter().flat_map(|t| t.0 .0.iter().map(|x| x.0)).collect();
        v.sort(); v.dedup(); v
    }
    /// Exact square root as a polynomial, when there is one (up to sign).
    pub fn sqrt_exact(&self) -> R<Option<Poly>> {
        if self.is_zero() { return Ok(Some(Poly::zero())); }
        let half = |m: &Mono| -> Option<Mono> {
            let mut v = Vec::new();
            for &(a, e) in &m.0 { if e % 2 == 1 { return None; } v.push((a, e / 2)); }
            Some(Mono(v))
        };
        let lm = match half(&self.0[0].0) { Some(m) => m, None => return Ok(None) };
        let lc = match self.0[0].1.sqrt_exact() { Some(c) => c, None => return Ok(None) };
        if half(&self.0[self.0.len() - 1].0).is_none() { return Ok(None); }
        let mut root = Poly(vec![(lm.clone(), lc)]);
        let mut rem = self.sub(&root.mul_raw(&root)?)?;
        let mut guard = 0;
        while !rem.is_zero() {
            guard += 1;
            if guard > 60 { return Ok(None); }
            let m = match rem.0[0].0.div(&lm) { Some(m) => m, None => return Ok(None) };
            // strictly decreasing
            if m >= root.0[root.0.len() - 1].0 { return Ok(None); }
            let c = rem.0[0].1.div(lc.mul(Rat::int(2))?)?;
            let t = Poly(vec![(m, c)]);
            // rem -= 2*root*t + t^2
            let upd = root.scale(Rat::int(2))?.add(&t)?.mul_raw(&t)?;
            rem = rem.sub(&upd)?;
            root = root.add(&t)?;
        }
        Ok(Some(root))
    }
    pub fn eval(&self, f: &mut dyn FnMut(u32) -> f64) -> (f64, f64) {
        let mut s = 0.0;
        let mut mag = 0.0;
        for t in &self.0 {
            let mut x = t.1.to_f64();
            for &(a, e) in &t.0 .0 { x *= f(a).powi(e as i32); }
            s += x;
            mag += x.abs();
        }
        (s, mag)
    }
    pub fn smt(&self, name: &dyn Fn(u32) -> String) -> String {
        if self.is_zero() { return "0.0".into(); }
        let term = |t: &(Mono, Rat)| -> String {
            let mut f: Vec<String> = Vec::new();
            if t.1 != Rat::ONE || t.0 .0.is_empty() { f.push(t.1.smt()); }
            for &(a, e) in &t.0 .0 { for _ in 0..e { f.push(name(a)); } }
            if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) }
        };
        if self.0.len() == 1 { term(&self.0[0]) } else { format!("(+ {})", self.0.iter().map(term).collect::<Vec<_>>().join(" ")) }
    }
}
