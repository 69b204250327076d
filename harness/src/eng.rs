//! Symbolic execution engine: term arena, path conditions, branch exploration by
//! re-execution, and SMT queries (z3 over lowered polynomial constraints).
use crate::poly::{Mono, Poly};
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One as _, Signed, ToPrimitive, Zero as _};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    C(u32),
    V(u16),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Neg(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// arbitrary field element, fixed before any challenge
    Input,
    /// arbitrary field element chosen by an adversary; born when serialized into a transcript
    Adv,
    /// integer in [0, bound)
    Int(u64),
    /// Fiat-Shamir challenge with draw index
    Chal(u32),
    /// generic (random, independent of everything else), e.g. SRS trapdoor
    Generic,
    /// multiplicative inverse of a polynomial
    Inv(Poly),
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub kind: Kind,
    pub epoch: u32,
    pub domain: Option<Vec<Fr>>,
    pub shadow: Fr,
}

#[derive(Clone, Debug)]
pub enum Abort {
    Infeasible,
    Unsupported(String),
    /// property violated: label, model
    Fail(String, Box<Strategy>),
    Inconclusive(String),
    Budget,
}

/// A concrete model of a path. Values of adversary variables may depend on the challenges.
#[derive(Clone, Debug, Default)]
pub struct Strategy {
    pub vars: Vec<Var>,
    pub subst: BTreeMap<u16, Poly>,
    pub base: BTreeMap<u16, Fr>,
    /// variables that make an unsolved equality true: its coefficients in that variable
    pub solved: Solved,
    /// further models of the same path, where values are roots that exist for some challenges only
    pub alts: Vec<Strategy>,
}
pub type Solved = BTreeMap<u16, Vec<Poly>>;
impl Strategy {
    pub fn values(&self, chals: &[Fr]) -> BTreeMap<String, Fr> {
        let mut val = self.base.clone();
        for (i, x) in self.vars.iter().enumerate() {
            if let Kind::Chal(k) = x.kind {
                if let Some(c) = chals.get(k as usize) {
                    val.insert(i as u16, *c);
                }
            }
        }
        for v in 0..self.vars.len() as u16 {
            complete(&self.vars, &self.subst, &self.solved, &mut val, v);
        }
        self.vars
            .iter()
            .enumerate()
            .filter(|(_, x)| !x.name.is_empty() && !matches!(x.kind, Kind::Chal(_) | Kind::Generic))
            .map(|(i, x)| (x.name.clone(), val[&(i as u16)]))
            .collect()
    }
    pub fn challenge_dependent(&self) -> bool {
        !self.solved.is_empty()
            || self.vars.iter().enumerate().any(|(i, x)| {
            !x.name.is_empty()
                && matches!(x.kind, Kind::Adv)
                && self.subst.get(&(i as u16)).map_or(false, |p| {
                    p.vars().iter().any(|u| matches!(self.vars[*u as usize].kind, Kind::Chal(_) | Kind::Inv(_)))
                })
        })
    }
}
/// value of a variable under substitutions and inverses; false when an inverse does not exist
fn complete(vars: &[Var], subst: &BTreeMap<u16, Poly>, solved: &Solved, val: &mut BTreeMap<u16, Fr>, v: u16) -> bool {
    if val.contains_key(&v) {
        return true;
    }
    if let Some(cs) = solved.get(&v) {
        let mut ok = true;
        for u in cs.iter().flat_map(|c| c.vars()) {
            ok &= complete(vars, subst, solved, val, u);
        }
        let f: Vec<Fr> = cs.iter().map(|c| c.eval(&|u| val[&u])).collect();
        let r = crate::poly::root(&f);
        val.insert(v, r.unwrap_or_else(Fr::zero));
        return ok && r.is_some();
    }
    let (den, num) = match (subst.get(&v), &vars[v as usize].kind) {
        (Some(p), _) => (None, p.clone()),
        (None, Kind::Inv(p)) => (Some(p.clone()), Poly::constant(Fr::one())),
        _ => (None, Poly::zero()),
    };
    let mut ok = true;
    for u in den.iter().flat_map(|d| d.vars()).chain(num.vars()) {
        ok &= complete(vars, subst, solved, val, u);
    }
    let mut f = num.eval(&|u| val[&u]);
    if let Some(d) = den {
        match d.eval(&|u| val[&u]).inverse() {
            Some(i) => f *= i,
            None => {
                ok = false;
                f = Fr::zero();
            }
        }
    }
    val.insert(v, f);
    ok
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub asserted: u64,
    pub mod_identity: u64,
    pub decisions: u64,
    pub max_monos: usize,
    pub fractions: u64,
    /// paths on which the hypotheses of a conditional property were satisfied
    pub reached: u64,
}

struct Fractions {
    parts: Vec<(Poly, Poly)>,
    rest: Vec<Poly>,
}

struct Dec {
    choice: bool,
    pending: bool,
}

pub struct Eng {
    nodes: Vec<Node>,
    consts: Vec<Fr>,
    cmap: HashMap<Fr, u32>,
    hc: HashMap<Node, u32>,
    nf: Vec<Option<Arc<Poly>>>,
    pub vars: Vec<Var>,
    by_name: HashMap<String, u16>,
    inv_cache: HashMap<Vec<(Mono, Vec<u64>)>, u16>,
    /// term whose inverse a variable was introduced for (up to the stored factor)
    inv_of: HashMap<u32, (u32, u32)>,
    inv_prod: Vec<bool>,
    pub chal_by_bytes: HashMap<Vec<u8>, u16>,
    pub n_chal: u32,
    pub chal_log: Vec<Fr>,
    chal_seen: std::collections::HashSet<Vec<u8>>,
    ser_ids: HashMap<Vec<(Mono, Vec<u64>)>, (bool, u64, Fr)>,
    ser_of: HashMap<u32, (bool, u64, Fr)>,
    ser_log: Vec<(u32, (bool, u64, Fr))>,
    ser_back: Vec<u32>,
    ser_ver: usize,
    alias: HashMap<Fr, u32>,
    alias_of: HashMap<u32, Fr>,
    rng: u64,
    pub seed: u64,
    // path
    stack: Vec<Dec>,
    cursor: usize,
    subst: BTreeMap<u16, Poly>,
    eq_atoms: Vec<Poly>,
    neq: Vec<Poly>,
    hard: Vec<Poly>, // equalities that could not be solved
    domcons: Vec<(Poly, Vec<Fr>)>,
    lts: Vec<(Poly, Poly, bool)>,
    ords: Vec<(Poly, Poly)>,
    int_eq: Vec<(Poly, bool)>,
    goals: Vec<(String, Poly, Poly)>,
    pub generic_hyps: Vec<Poly>,
    pub model: Option<BTreeMap<String, Fr>>, // concrete replay mode
    pub stats: Stats,
    pub conditional: bool,
    pub hit: bool,
    pub deadline: Option<Instant>,
    smt: Option<Smt>,
}

struct Smt {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}

impl Smt {
    fn new() -> Smt {
        let bin = std::env::var("ZK_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        Smt { child, tx, rx }
    }
    fn ask(&mut self, q: &str) -> Vec<String> {
        let _ = self.tx.write_all(q.as_bytes());
        let _ = self.tx.write_all(b"\n(echo \"<done>\")\n");
        let _ = self.tx.flush();
        let mut out = vec![];
        let mut line = String::new();
        loop {
            line.clear();
            let n = self.rx.read_line(&mut line).unwrap_or(0);
            if n == 0 {
                out.push("(error eof".into());
                break;
            }
            let l = line.trim().to_string();
            if l.contains("<done>") {
                break;
            }
            out.push(l);
        }
        out
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

static ENG: Mutex<Option<Eng>> = Mutex::new(None);

pub fn lock() -> MutexGuard<'static, Option<Eng>> {
    match ENG.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}
pub fn with<T>(f: impl FnOnce(&mut Eng) -> T) -> T {
    let mut g = lock();
    if g.is_none() {
        *g = Some(Eng::new());
    }
    f(g.as_mut().unwrap())
}
/// run and panic (outside the lock) on abort
pub fn run<T>(f: impl FnOnce(&mut Eng) -> Result<T, Abort>) -> T {
    let r = with(f);
    match r {
        Ok(t) => t,
        Err(a) => std::panic::panic_any(a),
    }
}

fn key(p: &Poly) -> Vec<(Mono, Vec<u64>)> {
    p.0.iter().map(|(m, c)| (m.clone(), c.into_bigint().0.to_vec())).collect()
}

pub fn fr_to_big(c: Fr) -> BigUint {
    c.into_bigint().into()
}
fn modulus() -> BigUint {
    Fr::MODULUS.into()
}
fn centered(c: Fr) -> BigInt {
    let m = modulus();
    let v = fr_to_big(c);
    if &v * 2u32 > m {
        BigInt::from_biguint(Sign::Plus, v) - BigInt::from_biguint(Sign::Plus, m)
    } else {
        BigInt::from_biguint(Sign::Plus, v)
    }
}
/// rational reconstruction with small numerator/denominator, if it exists
fn ratrec(c: Fr) -> Option<(BigInt, BigInt)> {
    let cc = centered(c);
    if cc.abs() < BigInt::from(1u64 << 62) {
        return Some((cc, BigInt::one()));
    }
    let m = BigInt::from_biguint(Sign::Plus, modulus());
    let (mut r0, mut r1) = (m.clone(), BigInt::from_biguint(Sign::Plus, fr_to_big(c)));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    let bound = BigInt::one() << 100;
    while r1 > bound {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        r0 = r1;
        r1 = r2;
        let t2 = &t0 - &q * &t1;
        t0 = t1;
        t1 = t2;
    }
    if t1.is_zero() || t1.abs() > (BigInt::one() << 100) {
        return None;
    }
    if t1.is_negative() {
        Some((-r1, -t1))
    } else {
        Some((r1, t1))
    }
}
fn smt_int(b: &BigInt) -> String {
    if b.is_negative() {
        format!("(- {})", b.abs())
    } else {
        format!("{}", b)
    }
}
fn smt_coef(c: Fr) -> String {
    match ratrec(c) {
        Some((n, d)) if d.is_one() => {
            if n.is_negative() {
                format!("(- {}.0)", n.abs())
            } else {
                format!("{}.0", n)
            }
        }
        Some((n, d)) => {
            if n.is_negative() {
                format!("(- (/ {}.0 {}.0))", n.abs(), d)
            } else {
                format!("(/ {}.0 {}.0)", n, d)
            }
        }
        None => {
            let n = centered(c);
            if n.is_negative() {
                format!("(- {}.0)", n.abs())
            } else {
                format!("{}.0", n)
            }
        }
    }
}

struct Lower {
    monos: BTreeMap<Mono, usize>,
    ints: BTreeMap<u16, ()>,
}
impl Lower {
    fn real(&mut self, p: &Poly) -> String {
        if p.is_zero() {
            return "0.0".into();
        }
        let mut parts = vec![];
        for (m, c) in &p.0 {
            let cs = smt_coef(*c);
            if m.is_empty() {
                parts.push(cs);
            } else {
                let n = self.monos.len();
                let id = *self.monos.entry(m.clone()).or_insert(n);
                if c.is_one() {
                    parts.push(format!("m{}", id));
                } else {
                    parts.push(format!("(* {} m{})", cs, id));
                }
            }
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }
    fn int(&mut self, p: &Poly) -> String {
        if p.is_zero() {
            return "0".into();
        }
        let mut parts = vec![];
        for (m, c) in &p.0 {
            let cs = smt_int(&centered(*c));
            if m.is_empty() {
                parts.push(cs);
            } else {
                self.ints.insert(m[0], ());
                parts.push(format!("(* {} i{})", cs, m[0]));
            }
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }
}

impl Eng {
    pub fn new() -> Eng {
        let mut e = Eng {
            nodes: vec![],
            consts: vec![],
            cmap: HashMap::new(),
            hc: HashMap::new(),
            nf: vec![],
            vars: vec![],
            by_name: HashMap::new(),
            inv_cache: HashMap::new(),
            inv_of: HashMap::new(),
            inv_prod: vec![],
            chal_by_bytes: HashMap::new(),
            n_chal: 0,
            chal_log: vec![],
            chal_seen: Default::default(),
            ser_ids: HashMap::new(),
            ser_of: HashMap::new(),
            ser_log: vec![],
            ser_back: vec![],
            ser_ver: 0,
            alias: HashMap::new(),
            alias_of: HashMap::new(),
            rng: 0x9E3779B97F4A7C15,
            seed: 1,
            stack: vec![],
            cursor: 0,
            subst: BTreeMap::new(),
            eq_atoms: vec![],
            neq: vec![],
            hard: vec![],
            domcons: vec![],
            lts: vec![],
            ords: vec![],
            int_eq: vec![],
            goals: vec![],
            generic_hyps: vec![],
            model: None,
            stats: Stats::default(),
            conditional: false,
            hit: false,
            deadline: None,
            smt: None,
        };
        e.reset_path();
        e
    }
    /// forget everything about the current path (keeps the decision stack and stats)
    pub fn reset_path(&mut self) {
        self.nodes.clear();
        self.consts.clear();
        self.cmap.clear();
        self.hc.clear();
        self.nf.clear();
        self.vars.clear();
        self.by_name.clear();
        self.inv_cache.clear();
        self.inv_of.clear();
        self.inv_prod.clear();
        self.chal_by_bytes.clear();
        self.n_chal = 0;
        self.chal_log.clear();
        self.chal_seen.clear();
        self.ser_ids.clear();
        self.ser_of.clear();
        self.ser_log.clear();
        self.ser_back.clear();
        self.ser_ver = 0;
        self.alias.clear();
        self.alias_of.clear();
        self.rng = 0x9E3779B97F4A7C15 ^ self.seed.wrapping_mul(0xD1342543DE82EF95);
        self.cursor = 0;
        self.subst.clear();
        self.eq_atoms.clear();
        self.neq.clear();
        self.hard.clear();
        self.domcons.clear();
        self.lts.clear();
        self.ords.clear();
        self.int_eq.clear();
        self.goals.clear();
        self.generic_hyps.clear();
        self.hit = false;
        let z = self.constant(Fr::zero());
        let o = self.constant(Fr::one());
        assert!(z == 0 && o == 1);
    }
    pub fn reset_all(&mut self) {
        self.stack.clear();
        self.conditional = false;
        self.reset_path();
        self.stats = Stats::default();
    }
    /// advance to the next unexplored path; false when exhausted
    pub fn next_path(&mut self) -> bool {
        while let Some(d) = self.stack.last_mut() {
            if d.pending {
                d.pending = false;
                d.choice = !d.choice;
                self.reset_path();
                return true;
            }
            self.stack.pop();
        }
        false
    }
    pub fn rand_u64(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn rand_fr(&mut self) -> Fr {
        let b: Vec<u8> = (0..5).flat_map(|_| self.rand_u64().to_le_bytes()).collect();
        Fr::from_le_bytes_mod_order(&b)
    }
    // ---------- terms ----------
    fn push(&mut self, n: Node) -> u32 {
        if let Some(i) = self.hc.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.nf.push(None);
        let ip = match n {
            Node::V(v) => matches!(self.vars[v as usize].kind, Kind::Inv(_)),
            Node::Mul(a, b) => self.inv_prod[a as usize] || self.inv_prod[b as usize],
            _ => false,
        };
        self.inv_prod.push(ip);
        self.hc.insert(n, i);
        i
    }
    pub fn constant(&mut self, c: Fr) -> u32 {
        if let Some(i) = self.cmap.get(&c) {
            return *i;
        }
        self.consts.push(c);
        let ci = self.consts.len() as u32 - 1;
        let i = self.push(Node::C(ci));
        self.cmap.insert(c, i);
        i
    }
    pub fn as_const(&self, n: u32) -> Option<Fr> {
        match self.nodes[n as usize] {
            Node::C(c) => Some(self.consts[c as usize]),
            _ => None,
        }
    }
    pub fn new_var(&mut self, name: &str, kind: Kind, domain: Option<Vec<Fr>>) -> u16 {
        let epoch = match kind {
            Kind::Input | Kind::Int(_) => 0,
            Kind::Adv => u32::MAX,
            _ => 0,
        };
        let shadow = match &domain {
            Some(d) => d[(self.rand_u64() % d.len() as u64) as usize],
            None => match kind {
                Kind::Int(b) => Fr::from(self.rand_u64() % b),
                _ => self.rand_fr(),
            },
        };
        let id = self.vars.len();
        assert!(id < 65000, "too many variables");
        self.vars.push(Var { name: name.to_string(), kind, epoch, domain, shadow });
        if !name.is_empty() {
            self.by_name.insert(name.to_string(), id as u16);
        }
        id as u16
    }
    pub fn var_node(&mut self, v: u16) -> u32 {
        self.push(Node::V(v))
    }
    pub fn input(&mut self, name: &str, kind: Kind, domain: Option<Vec<Fr>>) -> u32 {
        if let Some(m) = &self.model {
            let c = m.get(name).copied().unwrap_or_else(|| match &domain {
                Some(d) => d[0],
                None => Fr::zero(),
            });
            return self.constant(c);
        }
        if let Some(v) = self.by_name.get(name) {
            let v = *v;
            return self.var_node(v);
        }
        let v = self.new_var(name, kind, domain);
        self.var_node(v)
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.constant(x + y);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.push(Node::Add(a, b))
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        if b == 0 {
            return a;
        }
        if a == b {
            return 0;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.constant(x - y);
        }
        if a == 0 {
            return self.neg(b);
        }
        self.push(Node::Sub(a, b))
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        if let Some(x) = self.as_const(a) {
            return self.constant(-x);
        }
        if let Node::Neg(b) = self.nodes[a as usize] {
            return b;
        }
        self.push(Node::Neg(a))
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if b == 1 {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.constant(x * y);
        }
        if self.inv_prod[a as usize] || self.inv_prod[b as usize] {
            if let Some(n) = self.cancel(a, b) {
                return n;
            }
        }
        self.mul_raw(a, b)
    }
    fn mul_raw(&mut self, a: u32, b: u32) -> u32 {
        if a == 1 {
            return b;
        }
        if b == 1 {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.constant(x * y);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.push(Node::Mul(a, b))
    }
    fn factors(&self, n: u32, out: &mut Vec<u32>) {
        let mut st = vec![n];
        while let Some(t) = st.pop() {
            match self.nodes[t as usize] {
                Node::Mul(a, b) => {
                    st.push(a);
                    st.push(b);
                }
                _ => out.push(t),
            }
        }
    }
    /// product of two products, cancelling x against an inverse introduced for x
    fn cancel(&mut self, a: u32, b: u32) -> Option<u32> {
        let (mut fa, mut fb) = (vec![], vec![]);
        self.factors(a, &mut fa);
        self.factors(b, &mut fb);
        let mut hit = false;
        let mut k = 1;
        for (x, y) in [(0, 1), (1, 0)] {
            let mut fs = [std::mem::take(&mut fa), std::mem::take(&mut fb)];
            let invs: Vec<u32> = fs[x].iter().copied().filter(|t| self.inv_of.contains_key(t)).collect();
            for i in invs {
                let (of, scale) = self.inv_of[&i];
                if let Some(p) = fs[y].iter().position(|t| *t == of) {
                    fs[y].remove(p);
                    let q = fs[x].iter().position(|t| *t == i).unwrap();
                    fs[x].remove(q);
                    k = self.mul_raw(k, scale);
                    hit = true;
                }
            }
            let [u, v] = fs;
            fa = u;
            fb = v;
        }
        if !hit {
            return None;
        }
        fa.extend(fb);
        fa.sort();
        let mut r = k;
        for f in fa {
            r = self.mul_raw(r, f);
        }
        Some(r)
    }
    pub fn nf(&mut self, n: u32) -> Arc<Poly> {
        if let Some(p) = &self.nf[n as usize] {
            return p.clone();
        }
        // iterative post-order to avoid deep recursion
        let mut st = vec![n];
        while let Some(&t) = st.last() {
            if self.nf[t as usize].is_some() {
                st.pop();
                continue;
            }
            let node = self.nodes[t as usize];
            let mut need = vec![];
            match node {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => {
                    if self.nf[a as usize].is_none() {
                        need.push(a);
                    }
                    if self.nf[b as usize].is_none() {
                        need.push(b);
                    }
                }
                Node::Neg(a) => {
                    if self.nf[a as usize].is_none() {
                        need.push(a);
                    }
                }
                _ => {}
            }
            if !need.is_empty() {
                st.extend(need);
                continue;
            }
            let g = |e: &Eng, i: u32| e.nf[i as usize].clone().unwrap();
            let p = match node {
                Node::C(c) => Poly::constant(self.consts[c as usize]),
                Node::V(v) => Poly::var(v),
                Node::Add(a, b) => g(self, a).add(&g(self, b)),
                Node::Sub(a, b) => g(self, a).sub(&g(self, b)),
                Node::Mul(a, b) => g(self, a).mul(&g(self, b)),
                Node::Neg(a) => g(self, a).scale(-Fr::one()),
            };
            if p.0.len() > self.stats.max_monos {
                self.stats.max_monos = p.0.len();
            }
            self.nf[t as usize] = Some(Arc::new(p));
            st.pop();
        }
        self.nf[n as usize].clone().unwrap()
    }
    pub fn from_poly(&mut self, p: &Poly) -> u32 {
        let mut acc = 0;
        for (m, c) in &p.0 {
            let mut t = self.constant(*c);
            for v in m {
                let x = self.var_node(*v);
                t = self.mul(t, x);
            }
            acc = self.add(acc, t);
        }
        acc
    }
    // ---------- reduction under the path condition ----------
    pub fn reduce(&self, p: &Poly) -> Poly {
        let mut q = p.clone();
        // subst is kept fully reduced (triangular closed), one sweep is enough
        for v in p.vars() {
            if let Some(by) = self.subst.get(&v) {
                q = q.subst(v, by);
            }
        }
        // b^2 = b for a bit
        let bit = |v: u16| matches!(&self.vars[v as usize].domain, Some(d) if d.len() == 2 && d.iter().all(|c| c.is_zero() || c.is_one()));
        if q.0.iter().any(|(m, _)| m.windows(2).any(|w| w[0] == w[1] && bit(w[0]))) {
            let mut t: HashMap<Mono, Fr> = HashMap::with_capacity(q.0.len());
            for (m, c) in &q.0 {
                let mut k = m.clone();
                k.dedup_by(|a, b| a == b && bit(*a));
                *t.entry(k).or_insert_with(Fr::zero) += *c;
            }
            q = Poly::from_map(t);
        }
        q
    }
    /// the unknowns (other than challenges) a term depends on
    pub fn leaves(&mut self, n: u32) -> Vec<u16> {
        let p = self.nf(n);
        let mut todo = self.reduce(&p).vars();
        let mut r = vec![];
        while let Some(v) = todo.pop() {
            match self.vars[v as usize].kind.clone() {
                Kind::Chal(_) | Kind::Generic => {}
                Kind::Inv(x) => todo.extend(self.reduce(&x).vars()),
                _ => r.push(v),
            }
        }
        r
    }
    /// multiply by the (non-zero) arguments of inverse variables until none is left
    pub fn clear_inv(&self, p: &Poly) -> Poly {
        let mut q = self.reduce(p);
        loop {
            let iv = q.vars().into_iter().rev().find(|v| matches!(self.vars[*v as usize].kind, Kind::Inv(_)));
            let v = match iv {
                None => return q,
                Some(v) => v,
            };
            let x = match &self.vars[v as usize].kind {
                Kind::Inv(x) => self.reduce(x),
                _ => unreachable!(),
            };
            let cs = q.in_var(v);
            let k = cs.len() - 1;
            let mut acc = Poly::zero();
            let mut xp = Poly::constant(Fr::one());
            for j in (0..=k).rev() {
                acc = acc.add(&cs[j].mul(&xp));
                if j > 0 {
                    xp = xp.mul(&x);
                }
            }
            q = self.reduce(&acc);
        }
    }
    fn generic_split(&self, p: &Poly) -> Vec<Poly> {
        let mut emax = 0u32;
        for v in p.vars() {
            let x = &self.vars[v as usize];
            match x.kind {
                Kind::Chal(_) | Kind::Generic => {}
                _ => emax = emax.max(x.epoch),
            }
        }
        let vars = &self.vars;
        let sel = move |v: u16| match vars[v as usize].kind {
            Kind::Chal(k) => k >= emax,
            Kind::Generic => true,
            _ => false,
        };
        p.coeffs_wrt(&sel).into_iter().map(|(_, c)| c).collect()
    }
    /// polynomials that must all vanish for the term to vanish (for generic challenges)
    pub fn zero_conditions(&mut self, p: &Poly) -> Vec<Poly> {
        let q = self.reduce(p);
        if q.as_const().is_some() {
            return if q.is_zero() { vec![] } else { vec![q] };
        }
        let q = self.clear_inv(&q);
        if q.is_zero() {
            return vec![];
        }
        let mut cs = self.generic_split(&q);
        // the generic part may have left dependent variables; iterate once more per coefficient
        cs.sort_by_key(|c| (c.degree(), c.0.len()));
        cs
    }
    // ---------- decisions ----------
    fn check_budget(&self) -> Result<(), Abort> {
        if let Some(d) = self.deadline {
            if Instant::now() > d {
                return Err(Abort::Budget);
            }
        }
        Ok(())
    }
    pub fn is_zero(&mut self, n: u32) -> Result<bool, Abort> {
        if n == 0 {
            return Ok(true);
        }
        if let Some(c) = self.as_const(n) {
            return Ok(c.is_zero());
        }
        self.check_budget()?;
        if let Node::Mul(a, b) = self.nodes[n as usize] {
            return Ok(self.is_zero(a)? || self.is_zero(b)?);
        }
        if let Node::Neg(a) = self.nodes[n as usize] {
            return self.is_zero(a);
        }
        let p = self.nf(n);
        self.poly_is_zero(&p)
    }
    pub fn poly_is_zero(&mut self, p: &Poly) -> Result<bool, Abort> {
        if let Some(f) = self.fractions(p) {
            return self.fractions_zero(f, false);
        }
        let cs = self.zero_conditions(p);
        if cs.len() == 1 {
            let raw = self.reduce(p);
            return self.base_zero(&cs[0], Some(&raw));
        }
        let hyp = self.clear_inv(p);
        for c in cs {
            // what earlier conditions eliminated may leave a relation between early values only
            if !self.poly_is_zero(&c)? {
                return Ok(false);
            }
        }
        if !hyp.is_zero() && !self.generic_hyps.contains(&hyp) {
            self.generic_hyps.push(hyp);
        }
        Ok(true)
    }
    // ---------- sums of fractions in one challenge ----------
    /// Write the (reduced) term as  R(g) + sum_i w_i / (g + c_i)  with g the last challenge its
    /// inverses mention and everything else fixed before g is drawn.
    fn fractions(&self, p: &Poly) -> Option<Fractions> {
        let p = self.reduce(p);
        let mut ivs: Vec<(u16, Poly)> = vec![];
        let mut top: Option<(u32, u16)> = None;
        for v in p.vars() {
            if let Kind::Inv(x) = &self.vars[v as usize].kind {
                let x = self.reduce(x);
                for u in x.vars() {
                    match self.vars[u as usize].kind {
                        Kind::Chal(k) => top = top.max(Some((k, u))),
                        Kind::Inv(_) | Kind::Generic => return None,
                        _ => {}
                    }
                }
                ivs.push((v, x));
            }
        }
        let (k, g) = top?;
        ivs.retain(|(_, x)| x.has_var(g));
        let mut rest: Vec<(Mono, Fr)> = vec![];
        let mut ws: Vec<Vec<(Mono, Fr)>> = vec![vec![]; ivs.len()];
        for (m, c) in &p.0 {
            let mut at = None;
            for (i, (v, _)) in ivs.iter().enumerate() {
                match m.iter().filter(|u| *u == v).count() {
                    0 => {}
                    1 if at.is_none() => at = Some(i),
                    _ => return None,
                }
            }
            match at {
                None => rest.push((m.clone(), *c)),
                Some(i) => ws[i].push((m.iter().copied().filter(|u| *u != ivs[i].0).collect(), *c)),
            }
        }
        let mut rest = Poly::from_terms(rest);
        let mut parts = vec![];
        for ((_, x), w) in ivs.iter().zip(ws) {
            let cs = x.in_var(g);
            if cs.len() != 2 {
                return None;
            }
            let c1 = cs[1].as_const()?.inverse()?;
            let c = cs[0].scale(c1);
            if self.avail(&c) > k {
                return None;
            }
            // division with remainder when the weight mentions the challenge
            let a = Poly::from_terms(w).scale(c1).in_var(g);
            let mut b = Poly::zero();
            let mut q = Poly::zero();
            for j in (0..a.len()).rev() {
                b = a[j].sub(&c.mul(&b));
                if j > 0 {
                    let mut t = b.clone();
                    for _ in 1..j {
                        t = t.mul(&Poly::var(g));
                    }
                    q = q.add(&t);
                }
            }
            rest = rest.add(&q);
            if self.avail(&b) > k {
                return None;
            }
            parts.push((b, c));
        }
        let rest = rest.in_var(g);
        if rest.iter().any(|r| self.avail(r) > k) {
            return None;
        }
        Some(Fractions { parts, rest })
    }
    /// Such a sum vanishes for a random g exactly when the weights of every group of equal poles
    /// add up to zero and the polynomial part vanishes.
    fn fractions_zero(&mut self, f: Fractions, assume: bool) -> Result<bool, Abort> {
        self.stats.fractions += 1;
        let mut parts = f.parts;
        while !parts.is_empty() {
            let mut ps: Vec<(Poly, Poly)> = vec![];
            for (w, c) in &parts {
                let (w, c) = (self.reduce(w), self.reduce(c));
                match ps.iter_mut().find(|x| x.1 == c) {
                    Some(x) => x.0 = x.0.add(&w),
                    None => ps.push((w, c)),
                }
            }
            ps.retain(|x| !x.0.is_zero());
            if ps.is_empty() {
                break;
            }
            let (mut w, c) = ps.remove(0);
            let mut keep = vec![];
            for (v, d) in ps {
                if self.poly_is_zero(&c.sub(&d))? {
                    w = w.add(&v);
                } else {
                    keep.push((v, d));
                }
            }
            parts = keep;
            if assume {
                self.assume_poly(&w)?;
            } else if !self.poly_is_zero(&w)? {
                return Ok(false);
            }
        }
        for r in f.rest {
            if assume {
                self.assume_poly(&r)?;
            } else if !self.poly_is_zero(&r)? {
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// a variable dividing every term
    fn content(c: &Poly) -> Option<u16> {
        let (first, _) = c.0.first()?;
        let mut vs: Vec<u16> = first.iter().copied().collect();
        vs.dedup();
        vs.into_iter().find(|v| c.0.iter().all(|(m, _)| m.contains(v)))
    }
    fn div_var(c: &Poly, v: u16) -> Poly {
        Poly::from_terms(
            c.0.iter()
                .map(|(m, k)| {
                    let mut w: Vec<u16> = m.iter().copied().collect();
                    let i = w.iter().position(|x| *x == v).unwrap();
                    w.remove(i);
                    (w.into_iter().collect(), *k)
                })
                .collect(),
        )
    }
    fn base_zero(&mut self, c: &Poly, raw: Option<&Poly>) -> Result<bool, Abort> {
        let c = self.reduce(c);
        if let Some(k) = c.as_const() {
            return Ok(k.is_zero());
        }
        let c = c.monic();
        if self.neq.iter().any(|q| *q == c) {
            return Ok(false);
        }
        // strip factors known to be non-zero
        let mut c = self.strip(c);
        let mut raw = raw;
        while let Some(v) = Self::content(&c) {
            if c.0.len() == 1 && c.0[0].0.len() == 1 {
                break;
            }
            raw = None;
            match self.vars[v as usize].kind {
                Kind::Chal(_) | Kind::Generic | Kind::Inv(_) => {}
                _ => {
                    if self.base_zero(&Poly::var(v), None)? {
                        return Ok(true);
                    }
                }
            }
            c = Self::div_var(&c, v);
            c = self.strip(self.reduce(&c).monic());
        }
        if let Some(k) = c.as_const() {
            return Ok(k.is_zero());
        }
        // single-variable finite domain
        let vs = c.vars();
        if vs.len() == 1 {
            if let Some(d) = self.vars[vs[0] as usize].domain.clone() {
                let z = d.iter().filter(|x| c.eval(&|_| **x).is_zero()).count();
                if z == 0 {
                    return Ok(false);
                }
                if z == d.len() {
                    return Ok(true);
                }
            }
        }
        let ch = self.decide(|e, b| e.feasible(&c, b))?;
        if ch {
            let solved = match raw {
                Some(r) if r.vars().iter().any(|v| matches!(self.vars[*v as usize].kind, Kind::Inv(_))) => self.try_solve(r),
                _ => None,
            };
            match solved {
                Some((v, rhs)) => self.add_subst(v, rhs)?,
                None => self.assume_zero(&c)?,
            }
        } else {
            self.assume_nonzero(&c)?;
        }
        Ok(ch)
    }
    fn strip(&self, c: Poly) -> Poly {
        let mut c = c;
        if c.degree() < 2 {
            return c;
        }
        loop {
            let mut changed = false;
            for d in &self.neq {
                if d.degree() == 1 || d.solve_for(&|_| 0).is_some() {
                    if c.degree() > d.degree() || (c.degree() == d.degree() && c != *d) {
                        if let Some(q) = c.div_linear(d) {
                            if !q.is_zero() {
                                c = self.reduce(&q).monic();
                                changed = true;
                            }
                        }
                    }
                }
            }
            if !changed {
                return c;
            }
        }
    }
    fn decide(&mut self, feas: impl Fn(&mut Eng, bool) -> bool) -> Result<bool, Abort> {
        self.check_budget()?;
        self.stats.decisions += 1;
        if self.cursor < self.stack.len() {
            let c = self.stack[self.cursor].choice;
            self.cursor += 1;
            return Ok(c);
        }
        let t = feas(self, true);
        let f = if t { feas(self, false) } else { true };
        if t && f {
            self.stats.forks += 1;
        }
        let choice = t;
        self.stack.push(Dec { choice, pending: t && f });
        self.cursor += 1;
        Ok(choice)
    }
    fn feasible(&mut self, c: &Poly, eq: bool) -> bool {
        if !self.shares_vars(c) {
            return true;
        }
        let mut extra = vec![];
        extra.push((c.clone(), eq));
        self.query(&extra, &[], None) != Sat::Unsat
    }
    fn shares_vars(&self, c: &Poly) -> bool {
        let vs = c.vars();
        let hit = |p: &Poly| vs.iter().any(|v| p.has_var(*v));
        vs.iter().any(|v| self.vars[*v as usize].domain.is_some() || matches!(self.vars[*v as usize].kind, Kind::Int(_)))
            || self.neq.iter().any(hit)
            || self.hard.iter().any(hit)
            || self.domcons.iter().any(|(p, _)| hit(p))
            || self.lts.iter().any(|(a, b, _)| hit(a) || hit(b))
            || self.int_eq.iter().any(|(a, _)| hit(a))
    }
    pub fn assume_zero(&mut self, c: &Poly) -> Result<(), Abort> {
        let c = self.reduce(c);
        if let Some(k) = c.as_const() {
            return if k.is_zero() { Ok(()) } else { Err(Abort::Infeasible) };
        }
        let c = self.strip(c.monic());
        if let Some(k) = c.as_const() {
            return if k.is_zero() { Ok(()) } else { Err(Abort::Infeasible) };
        }
        self.eq_atoms.push(c.clone());
        if self.int_exact(&c) {
            self.int_eq.push((c.clone(), true));
        }
        let vs = c.vars();
        if vs.len() == 1 {
            if let Some(d) = self.vars[vs[0] as usize].domain.clone() {
                let nd: Vec<Fr> = d.into_iter().filter(|x| c.eval(&|_| *x).is_zero()).collect();
                return self.set_domain(vs[0], nd);
            }
        }
        if let Some(v) = Self::content(&c) {
            if c.degree() > 1 {
                self.eq_atoms.pop();
                match self.vars[v as usize].kind {
                    Kind::Chal(_) | Kind::Generic | Kind::Inv(_) => {}
                    _ => {
                        if self.base_zero(&Poly::var(v), None)? {
                            return Ok(());
                        }
                    }
                }
                return self.assume_zero(&Self::div_var(&c, v));
            }
        }
        if vs.len() == 1 && c.degree() >= 2 && !matches!(self.vars[vs[0] as usize].kind, Kind::Chal(_) | Kind::Generic | Kind::Inv(_)) {
            // small roots of a univariate constraint
            let roots: Vec<Fr> = (0..9u64)
                .flat_map(|i| if i == 0 { vec![Fr::zero()] } else { vec![Fr::from(i), -Fr::from(i)] })
                .filter(|x| c.eval(&|_| *x).is_zero())
                .collect();
            if roots.len() == c.degree() {
                return self.set_domain(vs[0], roots);
            }
        }
        if let Some((v, rhs)) = self.try_solve(&c) {
            return self.add_subst(v, rhs);
        }
        self.hard.push(c);
        Ok(())
    }
    /// the earliest point in the protocol at which the value is known to its author
    fn avail(&self, p: &Poly) -> u32 {
        let mut e = 0;
        for v in p.vars() {
            let x = match &self.vars[v as usize].kind {
                Kind::Chal(k) => k + 1,
                Kind::Generic => return u32::MAX,
                Kind::Inv(x) => self.avail(&self.reduce(x)),
                Kind::Adv => self.vars[v as usize].epoch,
                _ => 0,
            };
            e = e.max(x);
        }
        e
    }
    fn mentions(&self, p: &Poly, v: u16) -> bool {
        p.vars().iter().any(|u| {
            *u == v
                || match &self.vars[*u as usize].kind {
                    Kind::Inv(x) => self.mentions(&self.reduce(x), v),
                    _ => false,
                }
        })
    }
    /// solve an equation for one variable whose author knows the right-hand side in time
    fn try_solve(&mut self, c: &Poly) -> Option<(u16, Poly)> {
        let mut cand: Vec<(i64, u16)> = vec![];
        for v in c.vars() {
            let x = &self.vars[v as usize];
            let p = match x.kind {
                Kind::Chal(_) | Kind::Generic | Kind::Inv(_) => continue,
                Kind::Adv => (1i64 << 40) + ((x.epoch as i64 & 0xffff_ffff) << 20) / 4 + v as i64,
                Kind::Int(_) => 1 + v as i64,
                Kind::Input => {
                    if x.domain.is_some() {
                        v as i64
                    } else {
                        200_000 + v as i64
                    }
                }
            };
            cand.push((p, v));
        }
        cand.sort_by_key(|x| std::cmp::Reverse(*x));
        for round in 0..2 {
            for (_, v) in &cand {
                let v = *v;
                let cs = c.in_var(v);
                if cs.len() != 2 {
                    continue;
                }
                let (b, a) = (cs[0].clone(), cs[1].clone());
                let is_adv = matches!(self.vars[v as usize].kind, Kind::Adv);
                if (a.as_const().is_some()) != (round == 0) || (round == 1 && !is_adv) {
                    continue;
                }
                if self.mentions(&a, v) || self.mentions(&b, v) {
                    continue;
                }
                let e = self.vars[v as usize].epoch;
                if self.avail(&a).max(self.avail(&b)) > e {
                    continue;
                }
                if let Some(k) = a.as_const() {
                    return Some((v, b.scale(-(k.inverse().unwrap()))));
                }
                // the coefficient must be non-zero on this path: constant part in a challenge, or a known fact
                let za = self.zero_conditions(&a);
                let only_chal = a.vars().iter().all(|u| matches!(self.vars[*u as usize].kind, Kind::Chal(_)));
                let nonzero = only_chal
                    || za.iter().any(|c| {
                        let c = self.reduce(c).monic();
                        c.as_const().map_or(false, |k| !k.is_zero()) || self.neq.contains(&c)
                    });
                if !nonzero {
                    continue;
                }
                let lc = a.0.last().unwrap().1;
                let iv = self.inv_var(&a.monic());
                return Some((v, b.mul(&Poly::var(iv)).scale(-(lc.inverse().unwrap()))));
            }
        }
        None
    }
    fn set_domain(&mut self, v: u16, d: Vec<Fr>) -> Result<(), Abort> {
        if d.is_empty() {
            return Err(Abort::Infeasible);
        }
        if d.len() == 1 {
            self.vars[v as usize].domain = None;
            return self.add_subst(v, Poly::constant(d[0]));
        }
        self.vars[v as usize].domain = Some(d);
        Ok(())
    }
    pub fn add_subst(&mut self, v: u16, rhs: Poly) -> Result<(), Abort> {
        let rhs = self.reduce(&rhs);
        if rhs.has_var(v) {
            return Err(Abort::Unsupported("cyclic substitution".into()));
        }
        if let Some(d) = self.vars[v as usize].domain.take() {
            self.domcons.push((rhs.clone(), d));
        }
        for (_, r) in self.subst.iter_mut() {
            if r.has_var(v) {
                *r = r.subst(v, &rhs);
            }
        }
        self.subst.insert(v, rhs);
        // renormalise stored facts
        let neq = std::mem::take(&mut self.neq);
        for q in neq {
            let r = if q.has_var(v) { self.reduce(&q).monic() } else { q };
            match r.as_const() {
                Some(k) if k.is_zero() => return Err(Abort::Infeasible),
                Some(_) => {}
                None => {
                    if !self.neq.contains(&r) {
                        self.neq.push(r)
                    }
                }
            }
        }
        let dc = std::mem::take(&mut self.domcons);
        for (q, d) in dc {
            let r = self.reduce(&q);
            match r.as_const() {
                Some(k) => {
                    if !d.contains(&k) {
                        return Err(Abort::Infeasible);
                    }
                }
                None => {
                    // pure variable with its own domain: intersect
                    if r.0.len() == 1 && r.0[0].0.len() == 1 && r.0[0].1.is_one() {
                        let u = r.0[0].0[0];
                        let nd = match self.vars[u as usize].domain.clone() {
                            Some(o) => o.into_iter().filter(|x| d.contains(x)).collect(),
                            None => d,
                        };
                        self.set_domain(u, nd)?;
                    } else {
                        self.domcons.push((r, d))
                    }
                }
            }
        }
        if self.ords.iter().any(|(a, b)| a.has_var(v) || b.has_var(v)) {
            self.ords = self.ords.iter().map(|(a, b)| (self.reduce(a), self.reduce(b))).collect();
            // a cycle contradicts the order chosen on this path
            for i in 0..self.ords.len() {
                let (a, b) = self.ords[i].clone();
                if a == b || self.ordered(&b, &a) {
                    return Err(Abort::Infeasible);
                }
            }
        }
        let hard = std::mem::take(&mut self.hard);
        for h in hard {
            if h.has_var(v) {
                let h = self.clear_inv(&h);
                self.assume_zero(&h)?;
            } else {
                self.hard.push(h);
            }
        }
        Ok(())
    }
    pub fn assume_nonzero(&mut self, c: &Poly) -> Result<(), Abort> {
        let c = self.reduce(c).monic();
        if let Some(k) = c.as_const() {
            return if k.is_zero() { Err(Abort::Infeasible) } else { Ok(()) };
        }
        if self.int_exact(&c) {
            self.int_eq.push((c.clone(), false));
        }
        let vs = c.vars();
        if vs.len() == 1 {
            if let Some(d) = self.vars[vs[0] as usize].domain.clone() {
                let nd: Vec<Fr> = d.into_iter().filter(|x| !c.eval(&|_| *x).is_zero()).collect();
                return self.set_domain(vs[0], nd);
            }
        }
        self.neq.push(c);
        Ok(())
    }
    /// integer interval of a linear polynomial over bounded/canonical variables, with signed coefficients
    fn interval(&self, p: &Poly) -> Option<(BigInt, BigInt)> {
        let (mut lo, mut hi) = (BigInt::zero(), BigInt::zero());
        let m = BigInt::from_biguint(Sign::Plus, modulus());
        for (mo, c) in &p.0 {
            let c = centered(*c);
            if mo.is_empty() {
                lo += &c;
                hi += &c;
                continue;
            }
            if mo.len() > 1 {
                return None;
            }
            let x = &self.vars[mo[0] as usize];
            let max: BigInt = match (&x.kind, &x.domain) {
                (Kind::Int(b), _) => BigInt::from(*b) - 1,
                (_, Some(d)) => d.iter().map(|f| BigInt::from_biguint(Sign::Plus, fr_to_big(*f))).max().unwrap(),
                (Kind::Input, None) => &m - 1,
                _ => return None,
            };
            if c.is_negative() {
                lo += &c * &max;
            } else {
                hi += &c * &max;
            }
        }
        Some((lo, hi))
    }
    fn int_exact(&self, p: &Poly) -> bool {
        if !p.0.iter().any(|(m, _)| m.iter().any(|v| matches!(self.vars[*v as usize].kind, Kind::Int(_)))) {
            return false;
        }
        let m = BigInt::from_biguint(Sign::Plus, modulus());
        match self.interval(p) {
            Some((lo, hi)) => lo > -m.clone() && hi < m,
            None => false,
        }
    }
    pub fn less(&mut self, a: u32, b: u32) -> Result<bool, Abort> {
        // precondition: a != b on this path
        let pa = { let p = self.nf(a); self.reduce(&p) };
        let pb = { let p = self.nf(b); self.reduce(&p) };
        if let (Some(x), Some(y)) = (pa.as_const(), pb.as_const()) {
            return Ok(x < y);
        }
        let m = BigInt::from_biguint(Sign::Plus, modulus());
        let is_int = |e: &Eng, p: &Poly| -> bool {
            p.vars().iter().all(|v| {
                let x = &e.vars[*v as usize];
                matches!(x.kind, Kind::Int(_)) || x.domain.is_some()
            }) && match e.interval(p) {
                Some((lo, hi)) => !lo.is_negative() && hi < m,
                None => false,
            }
        };
        if is_int(self, &pa) && is_int(self, &pb) {
            let (la, ha) = self.interval(&pa).unwrap();
            let (lb, hb) = self.interval(&pb).unwrap();
            if ha < lb {
                return Ok(true);
            }
            if la > hb {
                return Ok(false);
            }
            let (x, y) = (pa.clone(), pb.clone());
            let ch = self.decide(move |e, t| {
                e.query(&[], &[(x.clone(), y.clone(), t)], None) != Sat::Unsat
            })?;
            self.lts.push((pa, pb, ch));
            return Ok(ch);
        }
        // any other elements: an arbitrary total order, decided by forking where the facts leave it open
        if self.ordered(&pa, &pb) {
            return Ok(true);
        }
        if self.ordered(&pb, &pa) {
            return Ok(false);
        }
        let ch = self.decide(|_, _| true)?;
        self.ords.push(if ch { (pa, pb) } else { (pb, pa) });
        Ok(ch)
    }
    /// is a < b a consequence of the order facts?
    fn ordered(&self, a: &Poly, b: &Poly) -> bool {
        let mut seen: Vec<Poly> = vec![a.clone()];
        let mut i = 0;
        while i < seen.len() {
            let x = seen[i].clone();
            let mut next: Vec<Poly> = self.ords.iter().filter(|(l, _)| *l == x).map(|(_, r)| r.clone()).collect();
            if let Some(k) = x.as_const() {
                if let Some(m) = b.as_const() {
                    if k < m {
                        return true;
                    }
                }
                next.extend(self.ords.iter().filter(|(l, _)| l.as_const().map_or(false, |m| k < m)).map(|(l, _)| l.clone()));
            }
            for n in next {
                if n == *b {
                    return true;
                }
                if !seen.contains(&n) {
                    seen.push(n);
                }
            }
            i += 1;
        }
        false
    }
    pub fn shadow(&self, v: u16) -> Fr {
        if let Some(p) = self.subst.get(&v) {
            return p.eval(&|u| self.shadow(u));
        }
        match &self.vars[v as usize].kind {
            Kind::Inv(p) => p.eval(&|u| self.shadow(u)).inverse().unwrap_or_else(Fr::zero),
            _ => self.vars[v as usize].shadow,
        }
    }
    // ---------- inverse ----------
    pub fn inverse(&mut self, n: u32) -> Result<Option<u32>, Abort> {
        if let Some(c) = self.as_const(n) {
            return Ok(c.inverse().map(|i| self.constant(i)));
        }
        if self.is_zero(n)? {
            return Ok(None);
        }
        // the inverse of a product is the product of the inverses
        if let Node::Mul(a, b) = self.nodes[n as usize] {
            let (i, j) = (self.inverse(a)?, self.inverse(b)?);
            return Ok(match (i, j) {
                (Some(i), Some(j)) => Some(self.mul(i, j)),
                _ => None,
            });
        }
        let p = self.nf(n);
        let p = self.reduce(&p);
        if let Some(c) = p.as_const() {
            let i = c.inverse().unwrap();
            return Ok(Some(self.constant(i)));
        }
        // pull out the leading coefficient
        let lc = p.0.last().unwrap().1;
        let mp = p.monic();
        // inverse of an inverse variable
        if mp.0.len() == 1 && mp.0[0].0.len() == 1 {
            let v = mp.0[0].0[0];
            if let Kind::Inv(x) = self.vars[v as usize].kind.clone() {
                let xn = self.from_poly(&x);
                let k = self.constant(lc.inverse().unwrap());
                return Ok(Some(self.mul(k, xn)));
            }
        }
        // a fraction with inverse variables: invert the cleared numerator
        let v = self.inv_var(&mp);
        let vn = self.var_node(v);
        let lcn = self.constant(lc);
        self.inv_of.entry(vn).or_insert((n, lcn));
        let k = self.constant(lc.inverse().unwrap());
        Ok(Some(self.mul(k, vn)))
    }
    pub fn inv_var(&mut self, mp: &Poly) -> u16 {
        let k = key(mp);
        if let Some(v) = self.inv_cache.get(&k) {
            return *v;
        }
        let v = self.new_var("", Kind::Inv(mp.clone()), None);
        let e = mp.vars().iter().map(|u| match self.vars[*u as usize].kind { Kind::Chal(k) => k + 1, Kind::Generic => 0, _ => self.vars[*u as usize].epoch }).max().unwrap_or(0);
        self.vars[v as usize].epoch = e;
        self.inv_cache.insert(k, v);
        v
    }
    // ---------- transcript model ----------
    pub fn ser_id(&mut self, n: u32) -> (bool, u64, Fr) {
        let p = self.nf(n);
        let p = self.reduce(&p);
        // birth of adversary variables
        let ep = self.n_chal;
        for v in p.vars() {
            let x = &mut self.vars[v as usize];
            if matches!(x.kind, Kind::Adv) && x.epoch == u32::MAX {
                x.epoch = ep;
            }
        }
        // the same term keeps its encoding when facts are learnt in between
        if let Some(x) = self.ser_of.get(&n) {
            return *x;
        }
        // encodings follow the value: re-normalise them when facts were learnt since
        if self.ser_ver != self.subst.len() {
            self.ser_ver = self.subst.len();
            self.ser_ids.clear();
            for i in 0..self.ser_log.len() {
                let (m, x) = self.ser_log[i];
                let q = self.nf(m);
                let q = self.reduce(&q);
                self.ser_ids.entry(key(&q)).or_insert(x);
            }
        }
        let k = self.ser_back.len() as u64;
        let fresh = match p.as_const() {
            Some(c) => (true, 0, c),
            None => (false, k, Fr::zero()),
        };
        let x = *self.ser_ids.entry(key(&p)).or_insert(fresh);
        if !x.0 && x.1 == k {
            self.ser_back.push(n);
        }
        self.ser_of.insert(n, x);
        self.ser_log.push((n, x));
        x
    }
    pub fn ser_node(&self, id: u64) -> Option<u32> {
        self.ser_back.get(id as usize).copied()
    }
    pub fn challenge(&mut self, bytes: &[u8]) -> u32 {
        if let Some(v) = self.chal_by_bytes.get(bytes) {
            let v = *v;
            return self.var_node(v);
        }
        if self.model.is_some() {
            let c = Fr::from_le_bytes_mod_order(bytes);
            if self.chal_seen.insert(bytes.to_vec()) {
                self.chal_log.push(c);
            }
            return self.constant(c);
        }
        let k = self.n_chal;
        self.n_chal += 1;
        let v = self.new_var(&format!("chal{}", k), Kind::Chal(k), None);
        self.chal_by_bytes.insert(bytes.to_vec(), v);
        self.var_node(v)
    }
    pub fn generic(&mut self) -> u32 {
        let k = self.vars.len();
        let v = self.new_var(&format!("gen{}", k), Kind::Generic, None);
        self.var_node(v)
    }
    /// constant standing for a symbolic scalar whose bits are read by fixed-base exponentiation
    pub fn alias_for(&mut self, n: u32) -> Fr {
        if let Some(c) = self.as_const(n) {
            return c;
        }
        if let Some(c) = self.alias_of.get(&n) {
            return *c;
        }
        let c = self.rand_fr();
        self.alias.insert(c, n);
        self.alias_of.insert(n, c);
        c
    }
    pub fn unalias(&mut self, n: u32) -> u32 {
        if self.alias.is_empty() {
            return n;
        }
        let p = self.nf(n);
        if p.0.len() != 1 {
            return n;
        }
        let (m, c) = p.0[0].clone();
        if let Some(t) = self.alias.get(&c).copied() {
            let mut r = t;
            for v in m {
                let x = self.var_node(v);
                r = self.mul(r, x);
            }
            return r;
        }
        n
    }
    // ---------- SMT ----------
    /// satisfiability of (path condition ∧ extra ∧ not all goals)
    pub fn query(&mut self, extra: &[(Poly, bool)], extra_lt: &[(Poly, Poly, bool)], goals: Option<&[(Poly, Poly)]>) -> Sat {
        let (s, _) = self.query_model(extra, extra_lt, goals, &[], false);
        s
    }
    pub fn query_model(
        &mut self,
        extra: &[(Poly, bool)],
        extra_lt: &[(Poly, Poly, bool)],
        goals: Option<&[(Poly, Poly)]>,
        lemmas: &[Poly],
        want_model: bool,
    ) -> (Sat, BTreeMap<u16, Fr>) {
        let mut lo = Lower { monos: BTreeMap::new(), ints: BTreeMap::new() };
        let mut body = String::new();
        // only constraints connected (by variables) to the extra atoms and goals matter; take them all
        for h in &self.hard {
            body.push_str(&format!("(assert (= {} 0.0))\n", lo.real(h)));
        }
        for h in lemmas {
            body.push_str(&format!("(assert (= {} 0.0))\n", lo.real(h)));
        }
        for q in &self.neq {
            body.push_str(&format!("(assert (not (= {} 0.0)))\n", lo.real(q)));
        }
        for (p, d) in &self.domcons {
            let r = lo.real(p);
            let alts: Vec<String> = d.iter().map(|c| format!("(= {} {})", r, smt_coef(*c))).collect();
            body.push_str(&format!("(assert (or {}))\n", alts.join(" ")));
        }
        let mut ints: Vec<String> = vec![];
        for (p, eq) in &self.int_eq {
            let r = lo.int(p);
            ints.push(if *eq { format!("(= {} 0)", r) } else { format!("(not (= {} 0))", r) });
        }
        for (a, b, t) in self.lts.iter().chain(extra_lt.iter()) {
            let (x, y) = (lo.int(a), lo.int(b));
            ints.push(if *t { format!("(< {} {})", x, y) } else { format!("(not (< {} {}))", x, y) });
        }
        for (c, eq) in extra {
            let r = lo.real(c);
            body.push_str(&if *eq { format!("(assert (= {} 0.0))\n", r) } else { format!("(assert (not (= {} 0.0)))\n", r) });
            if self.int_exact(c) {
                let r = lo.int(c);
                ints.push(if *eq { format!("(= {} 0)", r) } else { format!("(not (= {} 0))", r) });
            }
        }
        if let Some(gs) = goals {
            let mut alts = vec![];
            for (a, b) in gs {
                let mut t = format!("(not (= {} {}))", lo.real(a), lo.real(b));
                let d = a.sub(b);
                if self.int_exact(&d) {
                    t = format!("(and {} (not (= {} 0)))", t, lo.int(&d));
                }
                alts.push(t);
            }
            body.push_str(&format!("(assert (or false {}))\n", alts.join(" ")));
        }
        for i in &ints {
            body.push_str(&format!("(assert {})\n", i));
        }
        // domains of single variables that occur as monomials / ints
        let mut q = String::from("(reset)\n(set-option :timeout 20000)\n(set-logic ALL)\n");
        let mut dom = String::new();
        // make sure a domain variable occurring inside monomials is itself declared
        for (m, i) in lo.monos.clone() {
            let _ = i;
            if m.len() == 1 {
                let x = &self.vars[m[0] as usize];
                if let Some(d) = &x.domain {
                    let id = lo.monos[&m];
                    let alts: Vec<String> = d.iter().map(|c| format!("(= m{} {})", id, smt_coef(*c))).collect();
                    dom.push_str(&format!("(assert (or {}))\n", alts.join(" ")));
                    if lo.ints.contains_key(&m[0]) {
                        let l: Vec<String> = d
                            .iter()
                            .map(|c| format!("(and (= m{} {}) (= i{} {}))", id, smt_coef(*c), m[0], smt_int(&centered(*c))))
                            .collect();
                        dom.push_str(&format!("(assert (or {}))\n", l.join(" ")));
                    }
                }
            }
        }
        for (_, i) in &lo.monos {
            q.push_str(&format!("(declare-const m{} Real)\n", i));
        }
        for (v, _) in &lo.ints {
            q.push_str(&format!("(declare-const i{} Int)\n", v));
            let x = &self.vars[*v as usize];
            let hi: BigInt = match &x.kind {
                Kind::Int(b) => BigInt::from(*b),
                _ => BigInt::from_biguint(Sign::Plus, modulus()),
            };
            q.push_str(&format!("(assert (and (<= 0 i{}) (< i{} {})))\n", v, v, hi));
            if let Some(d) = &x.domain {
                let alts: Vec<String> = d.iter().map(|c| format!("(= i{} {})", v, smt_int(&centered(*c)))).collect();
                q.push_str(&format!("(assert (or {}))\n", alts.join(" ")));
            }
        }
        q.push_str(&dom);
        q.push_str(&body);
        q.push_str("(check-sat)\n");
        if let Ok(d) = std::env::var("ZK_DUMP") {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), &q);
        }
        let t0 = Instant::now();
        if self.smt.is_none() {
            self.smt = Some(Smt::new());
        }
        let out = self.smt.as_mut().unwrap().ask(&q);
        self.stats.solver_s += t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        let mut s = Sat::Unknown;
        for l in &out {
            match l.as_str() {
                "sat" => s = Sat::Sat,
                "unsat" => s = Sat::Unsat,
                _ => {}
            }
        }
        if out.iter().any(|l| l.starts_with("(error")) {
            if std::env::var("ZK_DEBUG").is_ok() {
                eprintln!("smt error: {:?}\n{}", out, q);
            }
            s = Sat::Unknown;
        }
        match s {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        let mut model = BTreeMap::new();
        if want_model && s == Sat::Sat {
            if !lo.ints.is_empty() {
                for (v, _) in &lo.ints {
                    let out = self.smt.as_mut().unwrap().ask(&format!("(get-value (i{}))", v));
                    let txt = out.join(" ");
                    if let Some(n) = parse_int(&txt) {
                        model.insert(*v, n);
                    }
                }
            }
            for (m, i) in &lo.monos {
                if m.len() == 1 && !model.contains_key(&m[0]) {
                    let out = self.smt.as_mut().unwrap().ask(&format!("(get-value (m{}))", i));
                    let txt = out.join(" ");
                    if let Some(n) = parse_int(&txt) {
                        model.insert(m[0], n);
                    }
                }
            }
        }
        (s, model)
    }
    /// does the polynomial vanish as a consequence of the path condition? (no forking)
    pub fn implied_zero(&mut self, p: &Poly) -> bool {
        let cs = self.zero_conditions(p);
        for c in cs {
            let c = self.strip(self.reduce(&c).monic());
            if c.is_zero() {
                continue;
            }
            if c.as_const().is_some() {
                return false;
            }
            if self.query(&[(c, false)], &[], None) != Sat::Unsat {
                return false;
            }
        }
        true
    }
    // ---------- goals ----------
    pub fn prove_eq(&mut self, label: &str, a: u32, b: u32) -> Result<(), Abort> {
        self.stats.asserted += 1;
        let (pa, pb) = (self.nf(a), self.nf(b));
        let (pa, pb) = (self.reduce(&pa), self.reduce(&pb));
        self.goals.push((label.to_string(), pa, pb));
        if self.goals.len() >= 256 {
            self.flush()?;
        }
        Ok(())
    }
    pub fn goals_pending(&self) -> bool {
        !self.goals.is_empty()
    }
    pub fn flush(&mut self) -> Result<(), Abort> {
        let goals = std::mem::take(&mut self.goals);
        if goals.is_empty() {
            return Ok(());
        }
        let mut easy: Vec<(Poly, Poly)> = vec![];
        let mut hard: Vec<(String, Poly)> = vec![];
        let mut easy_zero = 0;
        for (l, a, b) in goals {
            let (a, b) = (self.reduce(&a), self.reduce(&b));
            if a == b {
                easy_zero += 1;
                easy.push((a, b));
                continue;
            }
            let d = a.sub(&b);
            hard.push((l, d));
        }
        // identities: both sides lowered separately, decided by one query
        if easy_zero > 0 {
            let s = self.query(&[], &[], Some(&easy));
            match s {
                Sat::Unsat => {}
                _ => self.stats.mod_identity += easy_zero as u64,
            }
        }
        for (l, d) in hard {
            let cs = self.zero_conditions(&d);
            for c in cs {
                let c = self.strip(self.reduce(&c).monic());
                if c.is_zero() {
                    continue;
                }
                let s = if c.as_const().is_some() {
                    // violated on every input of this path, provided the path is feasible
                    self.query(&[], &[], None)
                } else {
                    self.query(&[], &[], Some(&[(c.clone(), Poly::zero())]))
                };
                if s == Sat::Unsat {
                    continue;
                }
                // try consequences of hard constraints multiplied by monomials
                if !self.hard.is_empty() && c.as_const().is_none() {
                    let lem = self.lemmas(&c);
                    let (s2, _) = self.query_model(&[], &[], Some(&[(c.clone(), Poly::zero())]), &lem, false);
                    if s2 == Sat::Unsat {
                        continue;
                    }
                }
                return match self.find_model(Some(&c)) {
                    Some(m) => Err(Abort::Fail(l, m)),
                    None => Err(Abort::Inconclusive(format!("{}: no concrete model for the negated assertion ({} monomials)", l, c.0.len()))),
                };
            }
        }
        Ok(())
    }
    fn lemmas(&self, c: &Poly) -> Vec<Poly> {
        let mut out = vec![];
        let mut vs: Vec<u16> = c.vars();
        for h in &self.hard {
            for v in h.vars() {
                if !vs.contains(&v) {
                    vs.push(v);
                }
            }
        }
        for h in &self.hard {
            for v in &vs {
                let m = h.mul(&Poly::var(*v));
                out.push(self.reduce(&m));
                if out.len() > 400 {
                    return out;
                }
            }
        }
        out
    }
    /// concrete valuation satisfying the path condition (and c != 0 if given)
    pub fn find_model(&mut self, c: Option<&Poly>) -> Option<Box<Strategy>> {
        let extra: Vec<(Poly, bool)> = c.iter().map(|c| ((*c).clone(), false)).collect();
        let (s, zm) = self.query_model(&extra, &[], None, &[], true);
        if s == Sat::Unsat {
            return None;
        }
        let mut found: Option<Strategy> = None;
        for attempt in 0..400 {
            let mut val: BTreeMap<u16, Fr> = BTreeMap::new();
            for v in 0..self.vars.len() as u16 {
                if self.subst.contains_key(&v) {
                    continue;
                }
                let x = self.vars[v as usize].clone();
                if matches!(x.kind, Kind::Inv(_)) {
                    continue;
                }
                let zval = zm.get(&v).copied();
                let r = self.rand_u64();
                let f = match (&x.kind, &x.domain, zval) {
                    (Kind::Int(_), _, Some(z)) => z,
                    (Kind::Int(b), _, None) => Fr::from(r % b),
                    (_, Some(d), z) => match z {
                        Some(z) if attempt < 50 && d.contains(&z) => z,
                        _ => d[(r % d.len() as u64) as usize],
                    },
                    (_, None, Some(z)) if attempt % 4 == 1 => z,
                    (Kind::Chal(_), ..) | (Kind::Generic, ..) => self.rand_fr(),
                    _ => match attempt % 4 {
                        0 => Fr::from(r % 16),
                        3 => Fr::from(r % 3),
                        _ => self.rand_fr(),
                    },
                };
                val.insert(v, f);
            }
            let solved = self.solve_hard();
            for v in solved.keys() {
                val.remove(v);
            }
            let base = val.clone();
            if self.check_val(&mut val, c, &solved) {
                let more = solved.values().any(|c| c.len() > 2);
                let st = Strategy { vars: self.vars.clone(), subst: self.subst.clone(), base, solved, alts: vec![] };
                match &mut found {
                    None => found = Some(st),
                    Some(f) => f.alts.push(st),
                }
                if !more || found.as_ref().unwrap().alts.len() >= 7 {
                    break;
                }
            }
        }
        found.map(Box::new)
    }
    /// all variables a variable's value depends on
    fn needs(&self, v: u16, solved: &Solved, out: &mut std::collections::BTreeSet<u16>) {
        if !out.insert(v) {
            return;
        }
        let mut ps: Vec<&Poly> = self.subst.get(&v).into_iter().collect();
        if let Kind::Inv(p) = &self.vars[v as usize].kind {
            ps.push(p);
        }
        ps.extend(solved.get(&v).into_iter().flatten());
        for u in ps.into_iter().flat_map(|p| p.vars()) {
            self.needs(u, solved, out);
        }
    }
    /// choose, for every equality that was not solved symbolically, a variable that is linear in it and
    /// is chosen no earlier than the challenges in it
    fn solve_hard(&mut self) -> Solved {
        let mut solved = Solved::new();
        for i in 0..self.hard.len() {
            let p = self.hard[i].clone();
            let mut used = std::collections::BTreeSet::new();
            for v in solved.keys() {
                self.needs(*v, &solved, &mut used);
            }
            let mut cands = vec![];
            for v in p.vars() {
                let x = &self.vars[v as usize];
                let free = matches!(x.kind, Kind::Input | Kind::Adv) && x.domain.is_none() && !self.subst.contains_key(&v);
                if !free || used.contains(&v) {
                    continue;
                }
                let c = p.in_var(v);
                if c.len() > 9 || c.iter().any(|a| self.avail(a) > x.epoch) {
                    continue;
                }
                let mut n = std::collections::BTreeSet::new();
                for u in p.vars().into_iter().filter(|u| *u != v) {
                    self.needs(u, &solved, &mut n);
                }
                if !n.contains(&v) {
                    cands.push((v, c));
                }
            }
            if !cands.is_empty() {
                // mostly a linear one
                let d = cands.iter().map(|c| c.1.len()).min().unwrap();
                if self.rand_u64() % 4 != 0 {
                    cands.retain(|c| c.1.len() == d);
                }
                let k = self.rand_u64() as usize % cands.len();
                let (v, c) = cands.swap_remove(k);
                solved.insert(v, c);
            }
        }
        solved
    }
    fn check_val(&self, val: &mut BTreeMap<u16, Fr>, c: Option<&Poly>, solved: &Solved) -> bool {
        for v in 0..self.vars.len() as u16 {
            if !complete(&self.vars, &self.subst, solved, val, v) {
                return false;
            }
        }
        let ev = |p: &Poly| p.eval(&|u| val[&u]);
        for (i, x) in self.vars.iter().enumerate() {
            let f = val[&(i as u16)];
            if let Some(d) = &x.domain {
                if !d.contains(&f) {
                    return false;
                }
            }
            if let Kind::Int(b) = x.kind {
                if fr_to_big(f) >= BigUint::from(b) {
                    return false;
                }
            }
        }
        if self.domcons.iter().any(|(p, d)| !d.contains(&ev(p))) {
            return false;
        }
        if self.hard.iter().any(|p| !ev(p).is_zero()) || self.neq.iter().any(|p| ev(p).is_zero()) {
            return false;
        }
        for (a, b, t) in &self.lts {
            if (ev(a) < ev(b)) != *t {
                return false;
            }
        }
        for (a, b) in &self.ords {
            let known = |p: &Poly| p.vars().iter().all(|v| !matches!(self.vars[*v as usize].kind, Kind::Chal(_) | Kind::Generic | Kind::Inv(_)));
            if known(a) && known(b) && ev(a) >= ev(b) {
                return false;
            }
        }
        for (p, eq) in &self.int_eq {
            if ev(p).is_zero() != *eq {
                return false;
            }
        }
        match c {
            Some(c) => !ev(c).is_zero(),
            None => true,
        }
    }
    /// the harness reached a state that is wrong whatever the values: needs only a path model
    pub fn fail_here(&mut self, label: &str) -> Abort {
        match self.find_model(None) {
            Some(m) => Abort::Fail(label.to_string(), m),
            None => {
                if self.query(&[], &[], None) == Sat::Unsat {
                    Abort::Infeasible
                } else {
                    Abort::Inconclusive(format!("{}: no concrete model of the path", label))
                }
            }
        }
    }
    // ---------- soundness helpers ----------
    /// A hypothesis whose coefficients all vanish vanishes as a polynomial in the challenge;
    /// use it at chosen points.
    pub fn instantiate(&mut self, chal: u32, at: &[u32]) -> Result<(), Abort> {
        let c = self.nf(chal);
        if c.as_const().is_some() {
            return Ok(());
        }
        let v = match c.vars().as_slice() {
            [v] if c.0.len() == 1 && c.0[0].1.is_one() && matches!(self.vars[*v as usize].kind, Kind::Chal(_)) => *v,
            _ => return Err(Abort::Unsupported("instantiate: not a challenge".into())),
        };
        let hyps = self.generic_hyps.clone();
        for a in at {
            let pa = self.nf(*a);
            for h in &hyps {
                let h = self.reduce(h);
                let pa = self.reduce(&pa);
                let q = h.subst(v, &pa);
                let cs = self.zero_conditions(&q);
                for c in cs {
                    // facts already implied keep the constraint store small
                    let c = self.reduce(&c).monic();
                    if c.is_zero() || self.hard.contains(&c) {
                        continue;
                    }
                    self.assume_zero(&c)?;
                }
            }
        }
        Ok(())
    }
    /// assume a constraint polynomial vanishes, solving for late-born adversary variables
    pub fn assume_solve(&mut self, n: u32) -> Result<(), Abort> {
        let p = self.nf(n);
        self.assume_poly(&p)
    }
    /// the fact whose assumption is expected to split the path least
    pub fn pick(&mut self, facts: &[u32]) -> usize {
        let mut best = (0, (usize::MAX, 0, 0));
        for (i, f) in facts.iter().enumerate() {
            let p = self.nf(*f);
            let p = self.reduce(&p);
            let vs = p.vars();
            let (mut inv, mut chal, mut free) = (false, false, 0);
            for v in &vs {
                match self.vars[*v as usize].kind {
                    Kind::Inv(_) => inv = true,
                    Kind::Chal(_) => chal = true,
                    Kind::Generic => {}
                    _ => free += 1,
                }
            }
            let lin = |v: &u16| {
                let cs = p.in_var(*v);
                cs.len() == 2
                    && !cs[1].is_zero()
                    && (cs[1].as_const().is_some() || cs[1].vars().iter().any(|u| matches!(self.vars[*u as usize].kind, Kind::Chal(_))))
            };
            let solvable = !inv && vs.iter().any(|v| matches!(self.vars[*v as usize].kind, Kind::Adv) && lin(v));
            let class = if p.as_const().is_some() || solvable {
                0
            } else if inv || chal {
                1
            } else {
                2
            };
            let r = (class, free, p.0.len());
            if r < best.1 {
                best = (i, r);
            }
            if class == 0 {
                break;
            }
        }
        best.0
    }
    fn assume_poly(&mut self, p: &Poly) -> Result<(), Abort> {
        let p = self.reduce(p);
        if p.is_zero() {
            return Ok(());
        }
        if let Some(f) = self.fractions(&p) {
            self.fractions_zero(f, true)?;
            return Ok(());
        }
        let q = self.clear_inv(&p);
        let cs = self.generic_split(&q);
        if cs.is_empty() {
            return Ok(());
        }
        if cs.len() == 1 && cs[0] == q {
            if p != q {
                if let Some((v, rhs)) = self.try_solve(&p) {
                    return self.add_subst(v, rhs);
                }
            }
            return self.assume_zero(&q);
        }
        self.generic_hyps.push(q.clone());
        let mut cs = cs;
        cs.sort_by_key(|c| (c.degree(), c.0.len()));
        for c in cs {
            self.assume_poly(&c)?;
        }
        Ok(())
    }
}

fn parse_int(txt: &str) -> Option<Fr> {
    // forms: ((m3 5.0)) ((m3 (- 5.0))) ((m3 (/ 1.0 2.0))) ((i3 7)) ((m3 (- (/ 1.0 2.0))))
    let toks: Vec<String> = txt.replace('(', " ").replace(')', " ").split_whitespace().map(|s| s.to_string()).collect();
    let mut neg = false;
    let mut div = false;
    let mut nums: Vec<Fr> = vec![];
    for t in toks.iter().skip(1) {
        match t.as_str() {
            "-" => neg = !neg,
            "/" => div = true,
            s => {
                let s = s.trim_end_matches(".0");
                let b: BigUint = s.parse().ok()?;
                nums.push(Fr::from(b));
            }
        }
    }
    let mut r = *nums.first()?;
    if div {
        r *= nums.get(1)?.inverse()?;
    }
    Some(if neg { -r } else { r })
}

#[allow(dead_code)]
pub fn big_to_u64(b: &BigUint) -> Option<u64> {
    b.to_u64()
}
#[allow(dead_code)]
fn _unused(b: <Fr as PrimeField>::BigInt) -> Vec<u8> {
    b.to_bytes_le()
}
