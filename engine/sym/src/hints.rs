//! Rewriting polynomials in terms of named quantities ("hints"), by exact linear algebra.
//!
//! A harness may name quantities such as a squared distance. A polynomial that is a polynomial in those quantities is found to be one here, and queries can then be posed about the quantities instead of the coordinates behind them. The rewriting is exact; a query posed this way keeps only part of what is known, so only its "unsat" is used.
use crate::ctx::*;
use crate::poly::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

struct Cand { mono: Mono, poly: Poly }

impl Ctx {
    pub fn hint(&mut self, v: &Val) {
        if !v.den.is_empty() || v.num.0.len() < 2 { return; }
        let a = self.atom(AtomKind::Alias(v.clone()));
        if !self.hints.contains(&a) { self.hints.push(a); self.hint_cache.borrow_mut().clear(); }
    }
    fn hint_poly(&self, a: u32) -> &Poly { match &self.atoms[a as usize] { AtomKind::Alias(v) => &v.num, _ => unreachable!() } }
    /// The same polynomial over hint atoms and atoms that no hint mentions.
    pub fn in_hints(&self, p: &Poly) -> Option<Poly> {
        if let Some(r) = self.hint_cache.borrow().get(p) { return r.clone(); }
        let r = self.in_hints_new(p).unwrap_or(None);
        self.hint_cache.borrow_mut().insert(p.clone(), r.clone());
        r
    }
    fn in_hints_new(&self, p: &Poly) -> R<Option<Poly>> {
        let mut bound: BTreeSet<u32> = BTreeSet::new();
        for &h in &self.hints { bound.extend(self.hint_poly(h).atoms()); }
        if !p.atoms().iter().any(|a| bound.contains(a)) { return Ok(Some(p.clone())); }
        // split by the power product of the free atoms
        let mut groups: BTreeMap<Mono, Vec<(Mono, Rat)>> = BTreeMap::new();
        for (m, c) in &p.0 {
            let free = Mono(m.0.iter().filter(|x| !bound.contains(&x.0)).cloned().collect());
            let rest = Mono(m.0.iter().filter(|x| bound.contains(&x.0)).cloned().collect());
            groups.entry(free).or_default().push((rest, *c));
        }
        let mut out = Poly::zero();
        for (m, ts) in groups {
            let g = Poly::from_terms(ts)?;
            let q = match self.fit(&g)? { Some(q) => q, None => return Ok(None) };
            out = out.add(&q.mul_term(&m, Rat::ONE)?)?;
        }
        Ok(Some(out))
    }
    fn fit(&self, g: &Poly) -> R<Option<Poly>> {
        if g.as_const().is_some() { return Ok(Some(g.clone())); }
        let support: BTreeSet<u32> = g.atoms().into_iter().collect();
        let deg = g.0.iter().map(|t| t.0.degree()).max().unwrap_or(0);
        if deg > 8 || g.0.len() > 400 { return Ok(None); }
        let hs: Vec<u32> = self.hints.iter().cloned().filter(|&h| self.hint_poly(h).atoms().iter().all(|a| support.contains(a))).collect();
        if hs.is_empty() { return Ok(None); }
        // all products of hints up to the degree
        let mut cands: Vec<Cand> = vec![Cand { mono: Mono::one(), poly: Poly::one() }];
        for &h in &hs {
            let hp = self.hint_poly(h).clone();
            let hd = hp.0.iter().map(|t| t.0.degree()).max().unwrap_or(1).max(1);
            let mut i = 0;
            while i < cands.len() {
                // products of this hint with everything found before it (including itself)
                let d = cands[i].poly.0.iter().map(|t| t.0.degree()).max().unwrap_or(0);
                if d + hd <= deg && cands.len() < 120 {
                    let mono = cands[i].mono.mul(&Mono::atom(h));
                    if !cands.iter().any(|c| c.mono == mono) {
                        let poly = cands[i].poly.mul_raw(&hp)?;
                        cands.push(Cand { mono, poly });
                    }
                }
                i += 1;
            }
        }
        // solve sum x_i cand_i = g
        let mut rows: HashMap<Mono, usize> = HashMap::new();
        for c in cands.iter().map(|c| &c.poly).chain(std::iter::once(g)) { for (m, _) in &c.0 { let n = rows.len(); rows.entry(m.clone()).or_insert(n); } }
        let (n, k) = (rows.len(), cands.len());
        let mut a: Vec<Vec<Rat>> = vec![vec![Rat::ZERO; k + 1]; n];
        for (j, c) in cands.iter().map(|c| &c.poly).chain(std::iter::once(g)).enumerate() { for (m, x) in &c.0 { a[rows[m]][j] = *x; } }
        let mut piv: Vec<(usize, usize)> = vec![];
        let mut r = 0;
        for j in 0..k {
            let i = match (r..n).find(|&i| !a[i][j].is_zero()) { Some(i) => i, None => continue };
            a.swap(r, i);
            let inv = a[r][j].inv()?;
            for x in a[r].iter_mut() { *x = x.mul(inv)?; }
            let row = a[r].clone();
            for i in 0..n {
                if i == r || a[i][j].is_zero() { continue; }
                let f = a[i][j].neg();
                for (x, y) in a[i].iter_mut().zip(&row) { if !y.is_zero() { *x = x.add(y.mul(f)?)?; } }
            }
            piv.push((r, j));
            r += 1;
        }
        for i in r..n { if !a[i][k].is_zero() { return Ok(None); } }
        let mut ts = vec![];
        for (i, j) in piv { if !a[i][k].is_zero() { ts.push((cands[j].mono.clone(), a[i][k])); } }
        Ok(Some(Poly::from_terms(ts)?))
    }
    fn b_in_hints(&self, b: &B) -> Option<B> {
        Some(match b {
            B::Cst(x) => B::Cst(*x),
            B::Cmp(p, m) => B::Cmp(self.in_hints(p)?, *m),
            B::And(v) => B::And(v.iter().map(|x| self.b_in_hints(x)).collect::<Option<Vec<B>>>()?),
            B::Or(v) => B::Or(v.iter().map(|x| self.b_in_hints(x)).collect::<Option<Vec<B>>>()?),
        })
    }
    /// The query posed about the hints; `None` where `add` cannot be put that way.
    pub fn query_hints(&self, add: &[B]) -> Option<String> {
        if self.hints.is_empty() || add.is_empty() { return None; }
        let add: Vec<B> = add.iter().map(|b| self.b_in_hints(b)).collect::<Option<Vec<B>>>()?;
        let mut atoms: BTreeSet<u32> = BTreeSet::new();
        for b in &add { Self::collect_b(b, &mut atoms); }
        atoms.extend(self.hints.iter());
        // definitions of roots in terms of hints
        let mut defs: Vec<String> = vec![];
        let mut work: Vec<u32> = atoms.iter().cloned().collect();
        while let Some(a) = work.pop() {
            let p = match &self.atoms[a as usize] { AtomKind::Sqrt(p) | AtomKind::Abs(p) => p.clone(), _ => continue };
            if let Some(q) = self.in_hints(&p) {
                for d in q.atoms() { if atoms.insert(d) { work.push(d); } }
                let n = self.atom_name(a);
                let t = self.smt_poly(&q);
                if matches!(self.atoms[a as usize], AtomKind::Sqrt(_)) { defs.push(format!("(= (* {0} {0}) {1})", n, t)); } else { defs.push(format!("(or (= {0} {1}) (= {0} (- {1})))", n, t)); }
            }
        }
        let cs: Vec<B> = self.all_constraints().iter().filter_map(|b| self.b_in_hints(b)).filter(|b| { let mut s = BTreeSet::new(); Self::collect_b(b, &mut s); s.iter().all(|a| atoms.contains(a)) }).collect();
        let mut s = String::new();
        for &a in &atoms { s.push_str(&format!("(declare-fun {} () Real)\n", self.atom_name(a))); }
        for &a in &atoms {
            let n = self.atom_name(a);
            match &self.atoms[a as usize] {
                AtomKind::Var { lo, hi, .. } => s.push_str(&format!("(assert (<= {} {} {}))\n", lo.smt(), n, hi.smt())),
                _ => {
                    let (l, h) = self.atom_interval_of(a);
                    let out = |x: f64, up: bool| -> Option<String> { if !x.is_finite() || x.abs() > 1e12 { return None; } let y = if up { (x * 1024.0).ceil() / 1024.0 } else { (x * 1024.0).floor() / 1024.0 }; Rat::from_f64(y).ok().map(|r| r.smt()) };
                    if let Some(x) = out(l, false) { s.push_str(&format!("(assert (<= {} {}))\n", x, n)); }
                    if let Some(x) = out(h, true) { s.push_str(&format!("(assert (<= {} {}))\n", n, x)); }
                }
            }
        }
        for d in defs { s.push_str(&format!("(assert {})\n", d)); }
        for c in cs.iter().chain(add.iter()) { s.push_str("(assert "); s.push_str(&self.smt_b(c, None)); s.push_str(")\n"); }
        Some(s)
    }
}
