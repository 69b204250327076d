//! The vocabulary of the harnesses. Every harness is generic over a scalar `Val`: with `Sym`
//! it is executed symbolically, with `Fr` it is the native replay of a concrete model.
use crate::eng::{self, Abort, Kind};
use crate::sym::Sym;
use ark_bls12_381::Fr;
use ark_ff::{PrimeField, Zero};
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Default, Clone, Debug)]
pub struct Native {
    pub model: BTreeMap<String, Fr>,
    pub fails: Vec<String>,
    pub checked: u64,
    pub vacuous: bool,
}
static NAT: Mutex<Option<Native>> = Mutex::new(None);
pub fn native<T>(f: impl FnOnce(&mut Native) -> T) -> T {
    let mut g = match NAT.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    f(g.get_or_insert_with(Native::default))
}
pub fn native_reset(model: BTreeMap<String, Fr>) {
    native(|n| *n = Native { model, ..Default::default() })
}
/// payload used to leave a native run whose assumptions do not hold
pub struct Vacuous;

pub trait Val: PrimeField {
    const SYM: bool;
    fn fresh(name: &str, kind: Kind, dom: Option<Vec<Fr>>) -> Self;
    fn of(f: Fr) -> Self;
    /// assert a == b for all values
    fn eq_all(label: &str, a: Self, b: Self);
    /// the run reached something that must not happen
    fn bad(label: &str);
    fn assume_bool(b: bool);
    /// assume that a constraint the verifier enforces holds (solves for late adversary values)
    fn assume_zero(v: Self);
    /// use that hypotheses vanishing for a random challenge vanish for every value of it
    fn instantiate(_chal: Self, _at: &[Self]) {}
    fn count();
    /// value of the scalar if it is known on this path
    fn known(&self) -> Option<Fr>;
    /// the order the model replays: number of the named choice
    fn choose(name: &str, n: usize) -> usize;
    /// the hypotheses were satisfied on this path
    fn reached() {}
    /// groups of facts that share unknowns, those with the fewest unknowns first
    fn by_size(facts: Vec<Vec<Self>>, _known: &[Self]) -> Vec<Vec<Self>> {
        facts
    }
    /// assume all of them, in an order that splits the path late
    fn assume_all(facts: Vec<Self>) {
        for f in facts {
            Self::assume_zero(f)
        }
    }
    /// the task states an implication whose hypotheses must be satisfiable
    fn conditional() {}
}

impl Val for Sym {
    const SYM: bool = true;
    fn fresh(name: &str, kind: Kind, dom: Option<Vec<Fr>>) -> Sym {
        eng::with(|e| Sym(e.input(name, kind, dom)))
    }
    fn of(f: Fr) -> Sym {
        Sym::c(f)
    }
    fn eq_all(label: &str, a: Sym, b: Sym) {
        eng::run(|e| e.prove_eq(label, a.0, b.0))
    }
    fn bad(label: &str) {
        eng::run(|e| -> Result<(), Abort> { Err(e.fail_here(label)) })
    }
    fn assume_bool(b: bool) {
        if !b {
            std::panic::panic_any(Abort::Infeasible)
        }
    }
    fn assume_zero(v: Sym) {
        eng::run(|e| e.assume_solve(v.0))
    }
    fn instantiate(chal: Sym, at: &[Sym]) {
        eng::run(|e| e.instantiate(chal.0, &at.iter().map(|s| s.0).collect::<Vec<_>>()))
    }
    fn count() {
        eng::with(|e| e.stats.asserted += 1)
    }
    fn reached() {
        eng::with(|e| {
            e.stats.reached += 1;
            e.hit = true
        })
    }
    fn conditional() {
        eng::with(|e| e.conditional = true)
    }
    fn by_size(facts: Vec<Vec<Sym>>, known: &[Sym]) -> Vec<Vec<Sym>> {
        eng::with(|e| {
            let known: std::collections::BTreeSet<u16> = known.iter().flat_map(|k| e.leaves(k.0)).collect();
            let mut groups: Vec<(std::collections::BTreeSet<u16>, Vec<usize>)> = vec![];
            for (i, f) in facts.iter().enumerate() {
                let mut vs: std::collections::BTreeSet<u16> = f.iter().flat_map(|x| e.leaves(x.0)).filter(|v| !known.contains(v)).collect();
                let mut ids = vec![];
                groups.retain(|(w, k)| {
                    let keep = w.is_disjoint(&vs) || vs.is_empty();
                    if !keep {
                        vs.extend(w.iter().copied());
                        ids.extend(k.iter().copied());
                    }
                    keep
                });
                ids.push(i);
                ids.sort();
                groups.push((vs, ids));
            }
            groups.sort_by_key(|(w, k)| (w.len(), k[0]));
            groups.iter().map(|(_, k)| k.iter().flat_map(|i| facts[*i].iter().copied()).collect()).collect()
        })
    }
    fn assume_all(mut facts: Vec<Sym>) {
        while !facts.is_empty() {
            let i = eng::with(|e| e.pick(&facts.iter().map(|f| f.0).collect::<Vec<_>>()));
            Self::assume_zero(facts.remove(i));
        }
    }
    fn known(&self) -> Option<Fr> {
        self.as_const()
    }
    fn choose(name: &str, n: usize) -> usize {
        let s = Self::fresh(name, Kind::Input, Some((0..n as u64).map(Fr::from).collect()));
        for i in 0..n {
            if s == Sym::from(i as u64) {
                return i;
            }
        }
        unreachable!()
    }
}

impl Val for Fr {
    const SYM: bool = false;
    fn fresh(name: &str, kind: Kind, dom: Option<Vec<Fr>>) -> Fr {
        let _ = kind;
        native(|n| {
            n.model.get(name).copied().unwrap_or_else(|| match &dom {
                Some(d) => d[0],
                None => Fr::zero(),
            })
        })
    }
    fn of(f: Fr) -> Fr {
        f
    }
    fn eq_all(label: &str, a: Fr, b: Fr) {
        native(|n| {
            n.checked += 1;
            if a != b {
                n.fails.push(format!("{} ({} != {})", label, a, b))
            }
        })
    }
    fn bad(label: &str) {
        native(|n| n.fails.push(label.to_string()))
    }
    fn assume_bool(b: bool) {
        if !b {
            native(|n| n.vacuous = true);
            std::panic::panic_any(Vacuous)
        }
    }
    fn assume_zero(v: Fr) {
        Self::assume_bool(v.is_zero())
    }
    fn count() {
        native(|n| n.checked += 1)
    }
    fn known(&self) -> Option<Fr> {
        Some(*self)
    }
    fn choose(name: &str, n: usize) -> usize {
        let f = Self::fresh(name, Kind::Input, Some((0..n as u64).map(Fr::from).collect()));
        (0..n).find(|i| Fr::from(*i as u64) == f).unwrap_or(0)
    }
}

// ---- free functions used by the harnesses ----
pub fn var<F: Val>(name: &str) -> F {
    F::fresh(name, Kind::Input, None)
}
/// larger tables: only some rows are symbolic, the others hold constants
#[derive(Clone, Copy)]
pub struct Sparse {
    /// symbolic rows of a table
    pub rows: usize,
    /// which rows these are
    pub seed: usize,
    /// number of symbolic choices; the others take the given default
    pub picks: usize,
    calls: usize,
}
thread_local! {
    static SPARSE: std::cell::Cell<Option<Sparse>> = const { std::cell::Cell::new(None) };
}
pub fn sparse(rows: usize, seed: usize, picks: usize, f: impl FnOnce()) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SPARSE.with(|s| s.set(None))
        }
    }
    let _r = Reset;
    SPARSE.with(|s| s.set(Some(Sparse { rows, seed, picks, calls: 0 })));
    f()
}
thread_local! {
    static WHOLE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// run `f` with proofs compiled and their claims verified; 1: ideal commitments, 2: KZG commitments
pub fn whole(pcs: usize, f: impl FnOnce()) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            WHOLE.with(|s| s.set(0))
        }
    }
    let _r = Reset;
    WHOLE.with(|s| s.set(pcs));
    f()
}
pub fn is_whole() -> usize {
    WHOLE.with(|s| s.get())
}
pub fn is_symbolic(i: usize, n: usize) -> bool {
    match SPARSE.with(|s| s.get()) {
        Some(s) => n <= 2 * s.rows || (0..s.rows).any(|k| (3 * s.seed + k * (n / 2 + 1)) % n == i),
        None => true,
    }
}
/// which values the constant rows hold
pub fn pattern() -> usize {
    SPARSE.with(|s| s.get()).map_or(0, |s| s.seed / 16)
}
/// the value of row i where it is not symbolic
pub fn row_or<F: Val>(i: usize, n: usize, constant: u64, symbolic: impl FnOnce() -> F) -> F {
    if is_symbolic(i, n) {
        symbolic()
    } else {
        F::from(constant)
    }
}
/// a choice out of n, symbolic while the budget lasts
pub fn pick<F: Val>(name: &str, n: usize, default: usize) -> usize {
    match SPARSE.with(|s| s.get()) {
        None => F::choose(name, n),
        Some(s) => {
            SPARSE.with(|c| c.set(Some(Sparse { calls: s.calls + 1, ..s })));
            if s.calls >= 2 * (s.seed % 16) && s.calls < 2 * (s.seed % 16) + s.picks {
                F::choose(name, n)
            } else {
                default % n
            }
        }
    }
}
pub fn vars<F: Val>(name: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| row_or(i, n, i as u64 + 1, || var(&format!("{}{}", name, i)))).collect()
}
pub fn dom<F: Val>(name: &str, d: &[u64]) -> F {
    F::fresh(name, Kind::Input, Some(d.iter().map(|x| Fr::from(*x)).collect()))
}
pub fn bit<F: Val>(name: &str) -> F {
    dom(name, &[0, 1])
}
pub fn bits<F: Val>(name: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| row_or(i, n, 1, || bit(&format!("{}{}", name, i)))).collect()
}
/// integer in [0, bound): its order is decided by integer arithmetic
pub fn int<F: Val>(name: &str, bound: u64) -> F {
    F::fresh(name, Kind::Int(bound), None)
}
/// a value chosen by an adversary
pub fn adv<F: Val>(name: &str) -> F {
    F::fresh(name, Kind::Adv, None)
}
pub fn advs<F: Val>(name: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| adv(&format!("{}{}", name, i))).collect()
}
pub fn check<F: Val>(label: &str, b: bool) {
    F::count();
    if !b {
        F::bad(label)
    }
}
pub fn eq_vec<F: Val>(label: &str, a: &[F], b: &[F]) {
    if a.len() != b.len() {
        check::<F>(&format!("{}: length {} != {}", label, a.len(), b.len()), false);
        return;
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        F::eq_all(&format!("{}[{}]", label, i), *x, *y);
    }
}
pub fn panic_msg(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// run repository code that may panic; engine payloads pass through
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(p) => {
            if p.is::<Abort>() || p.is::<Vacuous>() {
                resume_unwind(p)
            }
            Err(panic_msg(&p))
        }
    }
}
/// assert that the call returns normally with Ok
pub fn must<F: Val, T, X: std::fmt::Debug>(label: &str, f: impl FnOnce() -> Result<T, X>) -> T {
    F::count();
    match guard(f) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => {
            F::bad(&format!("{}: returned error {:?}", label, e));
            std::panic::panic_any(Vacuous)
        }
        Err(m) => {
            F::bad(&format!("{}: panicked: {}", label, m));
            std::panic::panic_any(Vacuous)
        }
    }
}
/// assert that the call refuses (error or panic)
pub fn refuses<F: Val, T, X>(label: &str, f: impl FnOnce() -> Result<T, X>) {
    F::count();
    if let Ok(Ok(_)) = guard(f) {
        F::bad(label)
    }
}
pub fn mle<F: Val>(nv: usize, evals: Vec<F>) -> ark_poly::DenseMultilinearExtension<F> {
    ark_poly::DenseMultilinearExtension::from_evaluations_vec(nv, evals)
}
/// reference: the multilinear extension of `f` at `x`, straight from the definition
pub fn ref_mle<F: PrimeField>(f: &[F], x: &[F]) -> F {
    let mut s = F::zero();
    for (i, v) in f.iter().enumerate() {
        s += *v * ref_chi(i, x);
    }
    s
}
pub fn ref_chi<F: PrimeField>(i: usize, x: &[F]) -> F {
    let mut t = F::one();
    for (k, xk) in x.iter().enumerate() {
        t *= if (i >> k) & 1 == 1 { *xk } else { F::one() - *xk };
    }
    t
}
pub fn ref_eq<F: PrimeField>(x: &[F], y: &[F]) -> F {
    let mut t = F::one();
    for (a, b) in x.iter().zip(y) {
        t *= *a * *b + (F::one() - *a) * (F::one() - *b);
    }
    t
}
pub fn cube<F: PrimeField>(i: usize, nv: usize) -> Vec<F> {
    (0..nv).map(|k| if (i >> k) & 1 == 1 { F::one() } else { F::zero() }).collect()
}
/// a table of `n` entries of which `k`, spread over all positions, are symbolic; the others are distinct constants
pub fn spread<F: Val>(name: &str, n: usize, k: usize) -> Vec<F> {
    let mut at = std::collections::BTreeSet::new();
    for i in 0..k.min(n) {
        let mut p = if i == 0 { 0 } else if i == 1 { n - 1 } else { (i * 0x9E3779B1) % n };
        while !at.insert(p) {
            p = (p + 1) % n;
        }
    }
    (0..n).map(|i| if at.contains(&i) { var(&format!("{}{}", name, i)) } else { F::from((5 * i + 3) as u64 + name.bytes().map(|b| b as u64).sum::<u64>()) }).collect()
}
