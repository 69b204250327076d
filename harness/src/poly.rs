//! Canonical multivariate polynomials over the BLS12-381 scalar field.
//! This is the lowering layer between symbolic terms and SMT queries.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use std::collections::HashMap;

/// a monomial: sorted multiset of variable ids
pub type Mono = Vec<u16>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Poly(pub Vec<(Mono, Fr)>); // sorted by monomial, no zero coefficients

fn merge_mono(a: &[u16], b: &[u16]) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] <= b[j] {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

impl Poly {
    pub fn zero() -> Self {
        Poly(vec![])
    }
    pub fn constant(c: Fr) -> Self {
        if c.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], c)])
        }
    }
    pub fn var(v: u16) -> Self {
        Poly(vec![(vec![v], Fr::one())])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Fr> {
        match self.0.len() {
            0 => Some(Fr::zero()),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1),
            _ => None,
        }
    }
    pub fn from_map(m: HashMap<Mono, Fr>) -> Self {
        let mut v: Vec<(Mono, Fr)> = m.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Poly(v)
    }
    pub fn from_terms(t: Vec<(Mono, Fr)>) -> Self {
        let mut m: HashMap<Mono, Fr> = HashMap::new();
        for (k, c) in t {
            *m.entry(k).or_insert_with(Fr::zero) += c;
        }
        Self::from_map(m)
    }
    fn lin(&self, o: &Self, neg: bool) -> Self {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (a, b) = (&self.0, &o.0);
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.cmp(&b[j].0) {
                std::cmp::Ordering::Less => {
                    r.push(a[i].clone());
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    r.push((b[j].0.clone(), if neg { -b[j].1 } else { b[j].1 }));
                    j += 1
                }
                _ => {
                    let c = if neg { a[i].1 - b[j].1 } else { a[i].1 + b[j].1 };
                    if !c.is_zero() {
                        r.push((a[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        for t in &b[j..] {
            r.push((t.0.clone(), if neg { -t.1 } else { t.1 }));
        }
        Poly(r)
    }
    pub fn add(&self, o: &Self) -> Self {
        self.lin(o, false)
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.lin(o, true)
    }
    pub fn scale(&self, c: Fr) -> Self {
        if c.is_zero() {
            return Self::zero();
        }
        Poly(self.0.iter().map(|(m, k)| (m.clone(), *k * c)).collect())
    }
    pub fn mul(&self, o: &Self) -> Self {
        if self.is_zero() || o.is_zero() {
            return Self::zero();
        }
        if let Some(c) = self.as_const() {
            return o.scale(c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(c);
        }
        let mut m: HashMap<Mono, Fr> = HashMap::with_capacity(self.0.len() * o.0.len());
        for (a, ca) in &self.0 {
            for (b, cb) in &o.0 {
                *m.entry(merge_mono(a, b)).or_insert_with(Fr::zero) += *ca * cb;
            }
        }
        Self::from_map(m)
    }
    pub fn vars(&self) -> Vec<u16> {
        let mut v: Vec<u16> = self.0.iter().flat_map(|(m, _)| m.iter().copied()).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn has_var(&self, v: u16) -> bool {
        self.0.iter().any(|(m, _)| m.binary_search(&v).is_ok())
    }
    pub fn degree(&self) -> usize {
        self.0.iter().map(|(m, _)| m.len()).max().unwrap_or(0)
    }
    /// coefficients of powers of v: self = sum_k r[k] v^k
    pub fn in_var(&self, v: u16) -> Vec<Poly> {
        let mut r: Vec<Vec<(Mono, Fr)>> = vec![];
        for (m, c) in &self.0 {
            let k = m.iter().filter(|x| **x == v).count();
            let rest: Mono = m.iter().copied().filter(|x| *x != v).collect();
            while r.len() <= k {
                r.push(vec![]);
            }
            r[k].push((rest, *c));
        }
        r.into_iter()
            .map(|mut t| {
                t.sort_by(|a, b| a.0.cmp(&b.0));
                Poly(t)
            })
            .collect()
    }
    /// group by the sub-monomial made of variables satisfying `sel`
    pub fn coeffs_wrt(&self, sel: &dyn Fn(u16) -> bool) -> Vec<(Mono, Poly)> {
        let mut g: std::collections::BTreeMap<Mono, Vec<(Mono, Fr)>> = Default::default();
        for (m, c) in &self.0 {
            let k: Mono = m.iter().copied().filter(|x| sel(*x)).collect();
            let rest: Mono = m.iter().copied().filter(|x| !sel(*x)).collect();
            g.entry(k).or_default().push((rest, *c));
        }
        g.into_iter()
            .map(|(k, mut t)| {
                t.sort_by(|a, b| a.0.cmp(&b.0));
                (k, Poly(t))
            })
            .collect()
    }
    pub fn subst(&self, v: u16, by: &Poly) -> Poly {
        if !self.has_var(v) {
            return self.clone();
        }
        let cs = self.in_var(v);
        // horner
        let mut acc = Poly::zero();
        for c in cs.iter().rev() {
            acc = acc.mul(by).add(c);
        }
        acc
    }
    pub fn eval(&self, val: &dyn Fn(u16) -> Fr) -> Fr {
        let mut s = Fr::zero();
        for (m, c) in &self.0 {
            let mut t = *c;
            for v in m {
                t *= val(*v);
            }
            s += t;
        }
        s
    }
    /// scale so that the leading (last) coefficient is one
    pub fn monic(&self) -> Poly {
        use ark_ff::Field;
        match self.0.last() {
            None => self.clone(),
            Some((_, c)) => {
                if c.is_one() {
                    self.clone()
                } else {
                    self.scale(c.inverse().unwrap())
                }
            }
        }
    }
    /// if linear in some variable with constant coefficient: (v, rhs) with v = rhs
    pub fn solve_for(&self, prefer: &dyn Fn(u16) -> i32) -> Option<(u16, Poly)> {
        use ark_ff::Field;
        let mut best: Option<(i32, u16, Fr)> = None;
        for (m, c) in &self.0 {
            if m.len() != 1 {
                continue;
            }
            let v = m[0];
            let p = prefer(v);
            if p < 0 {
                continue;
            }
            if best.as_ref().map_or(false, |b| b.0 >= p) {
                continue;
            }
            // v must not occur elsewhere
            if self.0.iter().filter(|(mm, _)| mm.contains(&v)).count() != 1 {
                continue;
            }
            best = Some((p, v, *c));
        }
        let (_, v, c) = best?;
        let rest = Poly(self.0.iter().filter(|(m, _)| !(m.len() == 1 && m[0] == v)).cloned().collect());
        Some((v, rest.scale(-(c.inverse().unwrap()))))
    }
    /// exact division by a polynomial linear in a variable with constant coefficient
    pub fn div_linear(&self, d: &Poly) -> Option<Poly> {
        let (v, root) = d.solve_for(&|_| 0)?;
        // d = c (v - root)
        let mut c = Fr::zero();
        for (m, k) in &d.0 {
            if m.len() == 1 && m[0] == v {
                c = *k;
            }
        }
        let cs = self.in_var(v);
        if cs.len() < 2 {
            return None;
        }
        // synthetic division
        let mut q: Vec<Poly> = vec![Poly::zero(); cs.len() - 1];
        let mut carry = Poly::zero();
        for k in (0..cs.len()).rev() {
            let cur = cs[k].add(&carry.mul(&root));
            if k == 0 {
                if !cur.is_zero() {
                    return None;
                }
            } else {
                q[k - 1] = cur.clone();
            }
            carry = cur;
        }
        use ark_ff::Field;
        let ci = c.inverse().unwrap();
        let mut r = Poly::zero();
        let xv = Poly::var(v);
        for k in (0..q.len()).rev() {
            r = r.mul(&xv).add(&q[k]);
        }
        Some(r.scale(ci))
    }
}

// ---------- roots of univariate polynomials over the field (coefficients from low to high) ----------
fn trim(mut f: Vec<Fr>) -> Vec<Fr> {
    while f.last().map_or(false, |c| c.is_zero()) {
        f.pop();
    }
    f
}
fn rem(a: Vec<Fr>, f: &[Fr]) -> Vec<Fr> {
    let mut a = trim(a);
    let inv = f.last().unwrap().inverse().unwrap();
    while a.len() >= f.len() {
        let q = *a.last().unwrap() * inv;
        let s = a.len() - f.len();
        for (i, c) in f.iter().enumerate() {
            a[s + i] -= q * c;
        }
        a.pop();
        a = trim(a);
    }
    a
}
fn mulmod(a: &[Fr], b: &[Fr], f: &[Fr]) -> Vec<Fr> {
    let mut r = vec![Fr::zero(); (a.len() + b.len()).max(1)];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    rem(r, f)
}
fn powmod(b: &[Fr], e: &[u64], f: &[Fr]) -> Vec<Fr> {
    let mut r = rem(vec![Fr::one()], f);
    for i in (0..e.len() * 64).rev() {
        r = mulmod(&r, &r, f);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mulmod(&r, b, f);
        }
    }
    r
}
fn gcd(a: Vec<Fr>, b: Vec<Fr>) -> Vec<Fr> {
    let (mut a, mut b) = (trim(a), trim(b));
    while !b.is_empty() {
        let r = rem(a, &b);
        a = b;
        b = r;
    }
    a
}
/// some root of a non-constant polynomial, if it has one
pub fn root(f: &[Fr]) -> Option<Fr> {
    use ark_ff::PrimeField;
    let f = trim(f.to_vec());
    match f.len() {
        0 | 1 => return None,
        2 => return Some(-f[0] * f[1].inverse()?),
        _ => {}
    }
    let x = vec![Fr::zero(), Fr::one()];
    let mut xq = powmod(&x, &Fr::MODULUS.0, &f);
    xq.resize(xq.len().max(2), Fr::zero());
    xq[1] -= Fr::one();
    let mut g = gcd(f, xq);
    let half = Fr::MODULUS_MINUS_ONE_DIV_TWO.0;
    for a in 1..64u64 {
        match g.len() {
            0 | 1 => return None,
            2 => return Some(-g[0] * g[1].inverse()?),
            _ => {}
        }
        let mut h = powmod(&rem(vec![Fr::from(a * 7919), Fr::one()], &g), &half, &g);
        h.resize(h.len().max(1), Fr::zero());
        h[0] -= Fr::one();
        let d = gcd(g.clone(), h);
        if d.len() > 1 && d.len() < g.len() {
            g = d;
        }
    }
    None
}
#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn roots() {
        for k in 0..20u64 {
            let rs = [Fr::from(k + 3), Fr::from(k * k + 11), -Fr::from(k)];
            let mut f = vec![Fr::from(5u64)];
            for r in rs {
                let mut g = vec![Fr::zero(); f.len() + 1];
                for (i, c) in f.iter().enumerate() {
                    g[i + 1] += c;
                    g[i] -= *c * r;
                }
                f = g;
            }
            assert!(rs.contains(&root(&f).unwrap()));
        }
    }
}
