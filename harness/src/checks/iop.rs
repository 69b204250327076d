//! P04 sumcheck completeness, P05 sumcheck soundness, P06 zero check, P07 transcript.
use crate::task;
use crate::task::{Be, Prop};
use crate::val::*;
use ark_ff::{One, PrimeField, Zero};
use std::sync::Arc;
use zk_sql::arithmetic::{VPAuxInfo, VirtualPolynomial};
use zk_sql::subroutines::poly_iop::prelude::*;
use zk_sql::subroutines::poly_iop::structs::IOPProverMessage;
use zk_sql::transcript::IOPTranscript;

type Mle<F> = ark_poly::DenseMultilinearExtension<F>;
type S<E> = <E as ark_ec::pairing::Pairing>::ScalarField;

pub const SHAPES: [&[&[usize]]; 11] = [
    &[&[0]],
    &[&[0, 1]],
    &[&[0, 1], &[2]],
    &[&[0, 0, 1], &[1]],
    &[&[0], &[1, 2, 0], &[2, 1]],
    &[&[0, 1, 2, 1], &[2], &[0, 0]],
    &[&[0, 0, 0, 0, 0]],
    &[&[0], &[0], &[1], &[1, 0], &[1, 1], &[0, 1, 1]],
    &[&[0, 1, 0, 1, 0, 1, 0, 1, 0]],
    &[&[0, 1], &[2, 3], &[4, 5], &[6, 7], &[8], &[9, 0]],
    &[&[1], &[0, 0, 1, 0, 1, 1, 0], &[1, 0]],
];
pub struct G<F: Val> {
    pub p: VirtualPolynomial<F>,
    pub r: Vec<(F, Vec<usize>)>,
    pub fs: Vec<Vec<F>>,
    pub ms: Vec<Arc<Mle<F>>>,
    pub deg: usize,
    pub nv: usize,
}
pub fn build<F: Val>(nv: usize, shape: usize) -> G<F> {
    build_spread(nv, shape, usize::MAX)
}
pub fn build_spread<F: Val>(nv: usize, shape: usize, k: usize) -> G<F> {
    let n = SHAPES[shape].iter().flat_map(|s| s.iter()).max().unwrap() + 1;
    let fs: Vec<Vec<F>> = (0..n).map(|i| spread(&format!("f{}_", i), 1 << nv, k)).collect();
    build_with(nv, SHAPES[shape], fs)
}
pub fn build_with<F: Val>(nv: usize, shape: &[&[usize]], fs: Vec<Vec<F>>) -> G<F> {
    let ms: Vec<Arc<Mle<F>>> = fs.iter().map(|f| Arc::new(mle(nv, f.clone()))).collect();
    let mut p = VirtualPolynomial::new(nv);
    let mut r = vec![];
    for (i, s) in shape.iter().enumerate() {
        let c: F = var(&format!("c{}", i));
        must::<F, _, _>("add_mle_list", || p.add_mle_list(s.iter().map(|j| ms[*j].clone()).collect::<Vec<_>>(), c));
        r.push((c, s.to_vec()));
    }
    let deg = shape.iter().map(|s| s.len()).max().unwrap();
    G { p, r, fs, ms, deg, nv }
}
impl<F: Val> G<F> {
    /// value at an arbitrary point, from the tables
    pub fn at(&self, x: &[F]) -> F {
        let es: Vec<F> = self.fs.iter().map(|f| ref_mle(f, x)).collect();
        let mut s = F::zero();
        for (c, ix) in &self.r {
            let mut t = *c;
            for i in ix {
                t *= es[*i];
            }
            s += t;
        }
        s
    }
    pub fn corner(&self, b: usize) -> F {
        let mut s = F::zero();
        for (c, ix) in &self.r {
            let mut t = *c;
            for i in ix {
                t *= self.fs[*i][b];
            }
            s += t;
        }
        s
    }
    pub fn sum(&self) -> F {
        (0..1 << self.nv).fold(F::zero(), |a, b| a + self.corner(b))
    }
}
/// the polynomial with values p[0], p[1], .. at 0, 1, .. evaluated at x (by definition)
pub fn lagrange<F: PrimeField>(p: &[F], x: F) -> F {
    let n = p.len();
    let mut s = F::zero();
    for i in 0..n {
        let mut t = p[i];
        let mut d = F::one();
        for j in 0..n {
            if i != j {
                t *= x - F::from(j as u64);
                let k = if i > j { F::from((i - j) as u64) } else { -F::from((j - i) as u64) };
                d *= k;
            }
        }
        s += t * d.inverse().unwrap();
    }
    s
}
fn tr<F: Val>() -> IOPTranscript<F> {
    <PolyIOP<F> as SumCheck<F>>::init_transcript()
}
fn seeded<F: Val>() -> IOPTranscript<F> {
    let mut t = <PolyIOP<F> as ZeroCheck<F>>::init_transcript();
    let x: F = var("ctx");
    t.append_field_element(b"context", &x).unwrap();
    t
}

fn complete<E: Be>(nv: usize, shape: usize, k: usize) {
    let g = build_spread::<S<E>>(nv, shape, k);
    let mut t = tr::<S<E>>();
    let proof = must::<S<E>, _, _>("sumcheck prove", || <PolyIOP<S<E>> as SumCheck<S<E>>>::prove(&g.p, &mut t));
    check::<S<E>>("one message per variable", proof.proofs.len() == nv && proof.point.len() == nv);
    // every message is the partial sum it should be
    for i in 0..nv {
        let ev = proof.proofs[i].verif_evaluations();
        check::<S<E>>("message length is degree+1", ev.len() == g.deg + 1);
        for (j, e) in ev.iter().enumerate() {
            let mut s = S::<E>::zero();
            for b in 0..1usize << (nv - i - 1) {
                let pt = [&proof.point[..i], &[S::<E>::from(j as u64)], &cube(b, nv - i - 1)[..]].concat();
                s += g.at(&pt);
            }
            S::<E>::eq_all("prover message is the partial sum", *e, s);
        }
    }
    let sum = g.sum();
    S::<E>::eq_all("extract_sum", <PolyIOP<S<E>> as SumCheck<S<E>>>::extract_sum(&proof), sum);
    let mut t2 = tr::<S<E>>();
    let sub = must::<S<E>, _, _>("sumcheck verify of an honest proof", || {
        <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, &proof, &g.p.aux_info, &mut t2)
    });
    eq_vec("subclaim point is the proof's point", &sub.point, &proof.point);
    S::<E>::eq_all("subclaim is the polynomial's value", sub.expected_evaluation, g.at(&sub.point));
    let v = must::<S<E>, _, _>("evaluate", || g.p.evaluate(&sub.point));
    S::<E>::eq_all("subclaim is the polynomial's evaluation", sub.expected_evaluation, v);
    // prover and verifier leave the transcript in the same state
    let (a, b) = (t.get_and_append_challenge(b"end").unwrap(), t2.get_and_append_challenge(b"end").unwrap());
    S::<E>::eq_all("transcripts agree afterwards", a, b);
    // a different claimed sum is refused
    let d: S<E> = var("delta");
    S::<E>::assume_bool(!d.is_zero());
    refuses::<S<E>, _, _>("sumcheck accepts a wrong sum for the honest proof", || {
        <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum + d, &proof, &g.p.aux_info, &mut tr::<S<E>>())
    });
    // constant polynomials are refused by the prover
    let mut z = g.p.clone();
    z.aux_info.num_variables = 0;
    refuses::<S<E>, _, _>("sumcheck proves a polynomial without variables", || <PolyIOP<S<E>> as SumCheck<S<E>>>::prove(&z, &mut tr::<S<E>>()));
}
pub fn adv_proof<F: Val>(nv: usize, deg: usize) -> IOPProof<F> {
    IOPProof {
        point: advs("pt", nv),
        proofs: (0..nv).map(|i| IOPProverMessage::verif_new(advs(&format!("m{}_", i), deg + 1))).collect(),
    }
}
fn aux<F: Val>(nv: usize, deg: usize) -> VPAuxInfo<F> {
    let mut a = VirtualPolynomial::<F>::new(nv).aux_info;
    a.max_degree = deg;
    a
}
/// what the verifier accepts is consistent round by round, and its subclaim is the right one
fn rounds<E: Be>(nv: usize, deg: usize) {
    let proof = adv_proof::<S<E>>(nv, deg);
    let sum: S<E> = adv("sum");
    let a = aux::<S<E>>(nv, deg);
    let e0 = proof.proofs[0].verif_evaluations();
    let first = e0[0] + e0[1] - sum;
    let res = guard(|| <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, &proof, &a, &mut tr::<S<E>>()));
    match res {
        Ok(Ok(s)) => {
            check::<S<E>>("number of challenges", s.point.len() == nv);
            let mut exp = sum;
            for (m, r) in proof.proofs.iter().zip(&s.point) {
                let e = m.verif_evaluations();
                S::<E>::eq_all("accepted although a round is inconsistent", e[0] + e[1], exp);
                exp = lagrange(e, *r);
            }
            S::<E>::eq_all("subclaim value is the last message at the last challenge", s.expected_evaluation, exp);
        }
        Ok(Err(_)) => {
            if nv == 1 {
                check::<S<E>>("rejected although the round is consistent", !first.is_zero())
            }
        }
        Err(m) => check::<S<E>>(&format!("verify panicked: {}", m), false),
    }
}
/// full soundness: an accepted proof whose subclaim is true has the true sum
fn sound<E: Be>(nv: usize, shape: usize) {
    let g = build::<S<E>>(nv, shape);
    let proof = adv_proof::<S<E>>(nv, g.deg);
    let sum: S<E> = adv("sum");
    let mut t = tr::<S<E>>();
    // the statement is fixed before the protocol starts
    t.append_field_element(b"sum", &sum).unwrap();
    let res = guard(|| <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, &proof, &g.p.aux_info, &mut t));
    let s = match res {
        Ok(Ok(s)) => s,
        _ => return,
    };
    S::<E>::assume_zero(s.expected_evaluation - g.at(&s.point));
    S::<E>::eq_all("an accepted proof with a true subclaim proves the true sum", sum, g.sum());
}
/// wrong message lengths and missing rounds are refused
fn lengths<E: Be>(nv: usize, deg: usize) {
    let a = aux::<S<E>>(nv, deg);
    let sum: S<E> = adv("sum");
    for round in 0..nv {
        for l in 0..deg + 4 {
            if l == deg + 1 {
                continue;
            }
            let mut p = adv_proof::<S<E>>(nv, deg);
            p.proofs[round] = IOPProverMessage::verif_new(advs("w", l));
            refuses::<S<E>, _, _>("sumcheck accepts a message of the wrong length", || {
                <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, &p, &a, &mut tr::<S<E>>())
            });
        }
        let mut p = adv_proof::<S<E>>(nv, deg);
        p.proofs.truncate(round);
        refuses::<S<E>, _, _>("sumcheck accepts missing rounds", || <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, &p, &a, &mut tr::<S<E>>()));
    }
}
/// one round of high degree: the interpolation behind the subclaim
fn interpolation<E: Be>(deg: usize) {
    let proof = adv_proof::<S<E>>(1, deg);
    let e = proof.proofs[0].verif_evaluations().to_vec();
    let sum = e[0] + e[1];
    let a = aux::<S<E>>(1, deg);
    let s = must::<S<E>, _, _>("sumcheck verify", || <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, &proof, &a, &mut tr::<S<E>>()));
    let r = s.point[0];
    S::<E>::eq_all("interpolated value", s.expected_evaluation, lagrange(&e, r));
}
/// each challenge depends on everything sent before it, and on nothing sent later
fn binding<E: Be>(nv: usize, deg: usize, i: usize, j: usize) {
    let p = adv_proof::<S<E>>(nv, deg);
    let a = aux::<S<E>>(nv, deg);
    let sum: S<E> = adv("sum");
    let d: S<E> = var("d");
    S::<E>::assume_bool(!d.is_zero());
    let mut q = p.clone();
    let mut m = q.proofs[i].verif_evaluations().to_vec();
    m[j] += d;
    if j < 2 {
        m[1 - j] -= d; // the round stays consistent
    }
    q.proofs[i] = IOPProverMessage::verif_new(m);
    for k in i + 1..nv {
        q.proofs[k] = IOPProverMessage::verif_new(advs(&format!("n{}_", k), deg + 1));
    }
    let run = |p: &IOPProof<S<E>>| guard(|| <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, p, &a, &mut tr::<S<E>>()));
    let (x, y) = match (run(&p), run(&q)) {
        (Ok(Ok(x)), Ok(Ok(y))) => (x.point, y.point),
        _ => return,
    };
    for k in 0..nv {
        if k < i {
            S::<E>::eq_all("a challenge depends on a later message", x[k], y[k]);
        } else {
            check::<S<E>>("a challenge does not depend on an earlier message", x[k] != y[k]);
        }
    }
}
/// the statement's shape is absorbed: other shapes give other challenges
fn binding_aux<E: Be>() {
    let p = adv_proof::<S<E>>(1, 2);
    let mut q = p.clone();
    q.proofs[0] = IOPProverMessage::verif_new([p.proofs[0].verif_evaluations(), &advs::<S<E>>("w", 1)].concat());
    let sum: S<E> = adv("sum");
    let run = |p: &IOPProof<S<E>>, d: usize| guard(|| <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, p, &aux(1, d), &mut tr::<S<E>>()));
    if let (Ok(Ok(x)), Ok(Ok(y))) = (run(&p, 2), run(&q, 3)) {
        check::<S<E>>("challenge does not depend on the degree", x.point[0] != y.point[0]);
    }
    // the same first message for a statement with more variables
    for nv in 2..4 {
        let mut q = p.clone();
        for k in 1..nv {
            q.proofs.push(IOPProverMessage::verif_new(advs::<S<E>>(&format!("m{}_{}_", nv, k), 3)));
        }
        let long = guard(|| <PolyIOP<S<E>> as SumCheck<S<E>>>::verify(sum, &q, &aux(nv, 2), &mut tr::<S<E>>()));
        if let (Ok(Ok(x)), Ok(Ok(y))) = (run(&p, 2), long) {
            check::<S<E>>("challenge does not depend on the number of variables", x.point[0] != y.point[0]);
        }
    }
}

// ---------------- P06 ----------------
/// polynomials that vanish on the hypercube: c0*(f0*f1) + c1*f2 with f2 = -(c0/c1) f0 f1, and multiples of the zero table
fn zero_complete<E: Be>(nv: usize, kind: usize, k: usize) {
    let f0: Vec<S<E>> = spread("f0_", 1 << nv, k);
    let f1: Vec<S<E>> = spread("f1_", 1 << nv, k);
    let (p, at): (VirtualPolynomial<S<E>>, Box<dyn Fn(&[S<E>]) -> S<E>>) = if kind == 0 {
        let f2: Vec<S<E>> = f0.iter().zip(&f1).map(|(a, b)| *a * *b).collect();
        let c: S<E> = var("c");
        let mut p = VirtualPolynomial::new(nv);
        p.add_mle_list(vec![Arc::new(mle(nv, f0.clone())), Arc::new(mle(nv, f1.clone()))], c).unwrap();
        p.add_mle_list(vec![Arc::new(mle(nv, f2.clone()))], -c).unwrap();
        (p, Box::new(move |x| c * (ref_mle(&f0, x) * ref_mle(&f1, x) - ref_mle(&f2, x))))
    } else if kind == 1 {
        // disjoint supports
        let m = 1usize << nv;
        let g0: Vec<S<E>> = (0..m).map(|i| if i % 2 == 0 { f0[i] } else { S::<E>::zero() }).collect();
        let g1: Vec<S<E>> = (0..m).map(|i| if i % 2 == 1 { f1[i] } else { S::<E>::zero() }).collect();
        let c: S<E> = var("c");
        let mut p = VirtualPolynomial::new(nv);
        let (a, b) = (Arc::new(mle(nv, g0.clone())), Arc::new(mle(nv, g1.clone())));
        p.add_mle_list(vec![a.clone(), b.clone(), a.clone()], c).unwrap();
        p.add_mle_list(vec![b, a], S::<E>::one()).unwrap();
        (p, Box::new(move |x| {
            let (a, b) = (ref_mle(&g0, x), ref_mle(&g1, x));
            c * a * b * a + a * b
        }))
    } else {
        let c: S<E> = var("c");
        let mut p = VirtualPolynomial::new(nv);
        p.add_mle_list(vec![Arc::new(mle(nv, vec![S::<E>::zero(); 1 << nv]))], c).unwrap();
        (p, Box::new(move |_| S::<E>::zero()))
    };
    let proof = must::<S<E>, _, _>("zero check prove", || <PolyIOP<S<E>> as ZeroCheck<S<E>>>::prove(&p, &mut seeded::<S<E>>()));
    let mut t = seeded::<S<E>>();
    let s = must::<S<E>, _, _>("zero check verify of an honest proof", || <PolyIOP<S<E>> as ZeroCheck<S<E>>>::verify(&proof, &p.aux_info, &mut t));
    eq_vec("zero check subclaim point", &s.point, &proof.point);
    check::<S<E>>("zero check challenge length", s.init_challenge.len() == nv);
    S::<E>::eq_all("zero check subclaim is the polynomial's value", s.expected_evaluation, at(&s.point));
}
fn zero_sound<E: Be>(nv: usize, shape: usize) {
    let g = build::<S<E>>(nv, shape);
    let proof = adv_proof::<S<E>>(nv, g.deg + 1);
    let mut t = seeded::<S<E>>();
    let res = guard(|| <PolyIOP<S<E>> as ZeroCheck<S<E>>>::verify(&proof, &g.p.aux_info, &mut t));
    let s = match res {
        Ok(Ok(s)) => s,
        _ => return,
    };
    S::<E>::assume_zero(s.expected_evaluation - g.at(&s.point));
    for b in 0..1usize << nv {
        S::<E>::eq_all("an accepted zero check with a true subclaim has a vanishing polynomial", g.corner(b), S::<E>::zero());
    }
}
/// what the zero check verifier accepts is a consistent transcript of the zero sum
fn zero_rounds<E: Be>(nv: usize, deg: usize) {
    let proof = adv_proof::<S<E>>(nv, deg + 1);
    let a = aux::<S<E>>(nv, deg);
    let e0 = proof.proofs[0].verif_evaluations();
    let first = e0[0] + e0[1];
    let res = guard(|| <PolyIOP<S<E>> as ZeroCheck<S<E>>>::verify(&proof, &a, &mut seeded::<S<E>>()));
    match res {
        Ok(Ok(s)) => {
            check::<S<E>>("number of challenges", s.point.len() == nv && s.init_challenge.len() == nv);
            let mut exp = S::<E>::zero();
            for (m, r) in proof.proofs.iter().zip(&s.point) {
                let e = m.verif_evaluations();
                S::<E>::eq_all("zero check accepted although a round is inconsistent", e[0] + e[1], exp);
                exp = lagrange(e, *r);
            }
            S::<E>::eq_all("zero check subclaim times eq is the last value", s.expected_evaluation * ref_eq(&s.point, &s.init_challenge), exp);
            let all = [s.init_challenge.clone(), s.point.clone()].concat();
            for i in 0..all.len() {
                for j in 0..i {
                    check::<S<E>>("two challenges coincide", all[i] != all[j]);
                }
            }
        }
        Ok(Err(_)) => {
            if nv == 1 {
                check::<S<E>>("zero check rejected although the round is consistent", !first.is_zero())
            }
        }
        Err(m) => check::<S<E>>(&format!("zero check verify panicked: {}", m), false),
    }
}
/// a polynomial that does not vanish: the honest prover cannot convince
fn zero_refuse<E: Be>(nv: usize, shape: usize) {
    let g = build::<S<E>>(nv, shape);
    let b = S::<E>::choose("where", 1 << nv);
    S::<E>::assume_bool(!g.corner(b).is_zero());
    let proof = must::<S<E>, _, _>("zero check prove", || <PolyIOP<S<E>> as ZeroCheck<S<E>>>::prove(&g.p, &mut seeded::<S<E>>()));
    refuses::<S<E>, _, _>("zero check accepts a polynomial that does not vanish", || {
        <PolyIOP<S<E>> as ZeroCheck<S<E>>>::verify(&proof, &g.p.aux_info, &mut seeded::<S<E>>())
    });
}

// ---------------- P07 ----------------
const LABELS: [&[u8]; 3] = [b"a", b"b", b"ab"];
#[derive(Clone)]
enum Op<F> {
    Field(usize, F),
    Vecs(usize, Vec<F>),
    Msg(usize, Vec<u8>),
    Chal(usize),
}
fn play<F: Val>(init: &'static [u8], ops: &[Op<F>]) -> (Vec<F>, F) {
    let mut t = IOPTranscript::<F>::new(init);
    let mut out = vec![];
    t.append_message(b"start", b"s").unwrap();
    for o in ops {
        match o {
            Op::Field(l, x) => must::<F, _, _>("append", || t.append_field_element(LABELS[*l], x)),
            Op::Vecs(l, x) => must::<F, _, _>("append", || t.append_serializable_element(LABELS[*l], x)),
            Op::Msg(l, x) => must::<F, _, _>("append", || t.append_message(LABELS[*l], x)),
            Op::Chal(l) => out.push(must::<F, _, _>("challenge", || t.get_and_append_challenge(LABELS[*l]))),
        }
    }
    let e = must::<F, _, _>("challenge", || t.get_and_append_challenge(b"end"));
    (out, e)
}
fn transcript<E: Be>(k: usize) {
    let x: S<E> = var("x");
    let y: S<E> = var("y");
    let z: S<E> = var("z");
    // base histories; every variant below differs from its base and must give another challenge
    let base: Vec<Op<S<E>>> = match k {
        0 => vec![Op::Field(0, x), Op::Field(1, y)],
        1 => vec![Op::Field(0, x), Op::Chal(1), Op::Field(1, y), Op::Chal(0)],
        2 => vec![Op::Vecs(2, vec![x, y, z]), Op::Chal(0), Op::Chal(0)],
        3 => vec![Op::Msg(0, vec![1, 2]), Op::Msg(1, vec![3]), Op::Field(0, z)],
        _ => vec![Op::Field(0, x), Op::Vecs(0, vec![y, z]), Op::Chal(0), Op::Msg(2, vec![])],
    };
    let (c1, e1) = play(b"T", &base);
    let (c2, e2) = play(b"T", &base);
    eq_vec("the same history gives the same challenges", &c1, &c2);
    S::<E>::eq_all("the same history gives the same final challenge", e1, e2);
    let d: S<E> = var("d");
    S::<E>::assume_bool(!d.is_zero());
    let (_, e) = play::<S<E>>(b"U", &base);
    check::<S<E>>("the protocol label is ignored", e != e1);
    for i in 0..base.len() {
        let mut variants: Vec<Vec<Op<S<E>>>> = vec![];
        let mut w = base.clone();
        w.remove(i);
        variants.push(w);
        let mut w = base.clone();
        w.insert(i, base[i].clone());
        variants.push(w);
        if i + 1 < base.len() {
            let same = matches!((&base[i], &base[i + 1]), (Op::Chal(a), Op::Chal(b)) if a == b);
            if !same {
                let mut w = base.clone();
                w.swap(i, i + 1);
                variants.push(w);
            }
        }
        match &base[i] {
            Op::Field(l, v) => {
                for o in [Op::Field(*l, *v + d), Op::Field(2, *v), Op::Vecs(*l, vec![*v])] {
                    let mut w = base.clone();
                    w[i] = o;
                    variants.push(w);
                }
            }
            Op::Vecs(l, v) => {
                for j in 0..v.len() {
                    let mut u = v.clone();
                    u[j] += d;
                    let mut w = base.clone();
                    w[i] = Op::Vecs(*l, u);
                    variants.push(w);
                }
                let mut u = v.clone();
                u.push(S::<E>::zero());
                let mut w = base.clone();
                w[i] = Op::Vecs(*l, u);
                variants.push(w);
                // the boundary between two lists
                let mut w = base.clone();
                w.splice(i..=i, [Op::Vecs(*l, v[..1].to_vec()), Op::Vecs(*l, v[1..].to_vec())]);
                variants.push(w);
            }
            Op::Msg(l, v) => {
                let mut u = v.clone();
                u.push(0);
                let mut w = base.clone();
                w[i] = Op::Msg(*l, u);
                variants.push(w);
                let mut w = base.clone();
                w[i] = Op::Msg((*l + 1) % 3, v.clone());
                variants.push(w);
                // move a byte over the boundary between messages
                if i + 1 < base.len() && !v.is_empty() {
                    if let Op::Msg(m, u) = &base[i + 1] {
                        let mut w = base.clone();
                        w[i] = Op::Msg(*l, v[..v.len() - 1].to_vec());
                        w[i + 1] = Op::Msg(*m, [&v[v.len() - 1..], &u[..]].concat());
                        variants.push(w);
                    }
                }
            }
            Op::Chal(l) => {
                let mut w = base.clone();
                w[i] = Op::Chal((*l + 1) % 3);
                variants.push(w);
            }
        }
        for w in &variants {
            let (c, e) = play(b"T", w);
            check::<S<E>>("a different history gives the same challenge", e != e1);
            // challenges drawn before the difference are unchanged
            let n = base[..i].iter().filter(|o| matches!(o, Op::Chal(_))).count();
            eq_vec("challenges before the difference", &c[..n], &c1[..n]);
        }
    }
    // challenges of one history are pairwise different
    let mut all = c1.clone();
    all.push(e1);
    for i in 0..all.len() {
        for j in 0..i {
            check::<S<E>>("two draws give the same challenge", all[i] != all[j]);
        }
    }
}
/// every element and byte of a long message matters, and so does its length
fn transcript_long<E: Be>(n: usize) {
    let xs: Vec<S<E>> = vars("x", n);
    let d: S<E> = var("d");
    S::<E>::assume_bool(!d.is_zero());
    let end = |op: Op<S<E>>| play::<S<E>>(b"T", &[op]).1;
    let e = end(Op::Vecs(0, xs.clone()));
    for i in 0..n {
        let mut y = xs.clone();
        y[i] += d;
        check::<S<E>>("an element of a long message is ignored", end(Op::Vecs(0, y)) != e);
    }
    check::<S<E>>("the end of a long message is ignored", end(Op::Vecs(0, xs[..n - 1].to_vec())) != e);
    let bytes: Vec<u8> = (0..48 * n).map(|i| (i * 7) as u8).collect();
    let e = end(Op::Msg(0, bytes.clone()));
    for i in 0..bytes.len() {
        let mut y = bytes.clone();
        y[i] ^= 1 << (i % 8);
        check::<S<E>>("a byte of a long message is ignored", end(Op::Msg(0, y)) != e);
    }
    // long histories: every earlier step still matters
    let base: Vec<Op<S<E>>> = (0..n).map(|i| if i % 5 == 4 { Op::Chal(0) } else { Op::Field(i % 3, xs[i]) }).collect();
    let e = play::<S<E>>(b"T", &base).1;
    for i in 0..n {
        let mut w = base.clone();
        match &w[i] {
            Op::Field(l, v) => w[i] = Op::Field(*l, *v + d),
            _ => {
                w.remove(i);
            }
        }
        check::<S<E>>("an early step of a long history is forgotten", play(b"T", &w).1 != e);
    }
}
fn transcript_misc<E: Be>() {
    let x: S<E> = var("x");
    let mut t = IOPTranscript::<S<E>>::new(b"T");
    refuses::<S<E>, _, _>("a challenge is drawn from an empty transcript", || t.get_and_append_challenge(b"c"));
    refuses::<S<E>, _, _>("challenges are drawn from an empty transcript", || t.get_and_append_challenge_vectors(b"c", 2));
    // the empty request is refused as well
    refuses::<S<E>, _, _>("an empty list of challenges is drawn from an empty transcript", || t.get_and_append_challenge_vectors(b"c", 0));
    must::<S<E>, _, _>("append", || t.append_field_element(b"x", &x));
    let mut u = t.clone();
    let mut w = t.clone();
    let v = must::<S<E>, _, _>("challenges", || t.get_and_append_challenge_vectors(b"c", 3));
    check::<S<E>>("number of challenges", v.len() == 3);
    for i in 0..3 {
        let c = must::<S<E>, _, _>("challenge", || u.get_and_append_challenge(b"c"));
        S::<E>::eq_all("a vector of challenges is repeated draws", v[i], c);
    }
    // a drawn challenge is itself absorbed: drawing again differs from drawing once
    let c = must::<S<E>, _, _>("challenge", || w.get_and_append_challenge(b"c"));
    S::<E>::eq_all("clones continue alike", c, v[0]);
    let a = must::<S<E>, _, _>("challenge", || t.get_and_append_challenge(b"e"));
    let b = must::<S<E>, _, _>("challenge", || u.get_and_append_challenge(b"e"));
    S::<E>::eq_all("vector and single draws leave the same state", a, b);
}

pub fn props(v: &mut Vec<Prop>) {
    let mut t = vec![];
    const ALL: usize = usize::MAX;
    for s in 0..SHAPES.len() {
        for nv in 1..=3 {
            let cheap = s < 4 || (s < 6 && nv < 3) || nv < 2;
            if cheap || nv < 3 {
                task!(t, quick, format!("complete nv={} shape={}", nv, s), complete(nv, s, if cheap { ALL } else { 2 }));
            } else {
                task!(t, thorough, format!("complete nv={} shape={}", nv, s), complete(nv, s, if s < 8 { ALL } else { 2 }));
            }
        }
        for nv in 3..=[8, 8, 8, 7, 7, 6, 5, 7, 3, 8, 3][s] {
            if nv < 5 || (nv < 7 && (s < 3 || s == 9)) {
                task!(t, quick, format!("complete nv={} shape={} mixed", nv, s), complete(nv, s, if s < 3 { 2 } else { 1 }));
            } else {
                task!(t, thorough, format!("complete nv={} shape={} mixed", nv, s), complete(nv, s, 1));
            }
        }
    }
    v.push(Prop {
        id: "P04",
        functions: &[
            "SumCheck::prove",
            "SumCheck::verify",
            "SumCheck::extract_sum",
            "IOPProverState::prover_init",
            "IOPProverState::prove_round_and_update_state",
            "IOPVerifierState::verify_round_and_update_state",
            "IOPVerifierState::check_and_generate_subclaim",
            "interpolate_uni_poly",
            "extrapolate",
            "barycentric_weights",
            "VirtualPolynomial::evaluate",
            "IOPTranscript",
        ],
        bounds: "all tables, coefficients and challenges up to 3 variables, and one or two symbolic entries per table among constants up to 6 (8) variables; 11 product shapes up to degree 9 and 6 products over 10 tables",
        assumptions: &["challenges are independent of everything sent before them (random oracle)"],
        tasks: t,
    });
    let mut t = vec![];
    for (nv, d) in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 2), (6, 1), (2, 6)] {
        task!(t, quick, format!("rounds nv={} deg={}", nv, d), rounds(nv, d));
        task!(t, quick, format!("lengths nv={} deg={}", nv, d), lengths(nv, d));
        for i in 0..nv {
            for j in 0..=d {
                if j != 1 {
                    task!(t, quick, format!("binding nv={} deg={} message {},{}", nv, d, i, j), binding(nv, d, i, j));
                }
            }
        }
    }
    task!(t, quick, "binding degree", binding_aux());
    for (nv, d) in [(4, 3), (4, 5), (5, 3), (6, 2), (8, 1), (2, 9), (10, 2), (3, 12)] {
        task!(t, quick, format!("rounds nv={} deg={}", nv, d), rounds(nv, d));
    }
    for (nv, d) in [(4, 8), (8, 4), (12, 2), (16, 1)] {
        task!(t, thorough, format!("rounds nv={} deg={}", nv, d), rounds(nv, d));
    }
    for s in 0..SHAPES.len() {
        for nv in 1..=6 {
            if nv < 3 || (nv < 5 && s < 3) {
                task!(t, quick, format!("sound nv={} shape={}", nv, s), sound(nv, s));
            } else if (nv < 4 && s != 8) || s < 3 {
                task!(t, thorough, format!("sound nv={} shape={}", nv, s), sound(nv, s));
            }
        }
    }
    for d in (1usize..36).chain([40, 48, 56, 64]) {
        task!(t, quick, format!("interpolation deg={}", d), interpolation(d));
    }
    for d in (36usize..80).step_by(3).chain([96, 128]) {
        task!(t, thorough, format!("interpolation deg={}", d), interpolation(d));
    }
    v.push(Prop {
        id: "P05",
        functions: &[
            "SumCheck::verify",
            "IOPVerifierState::verifier_init",
            "IOPVerifierState::verify_round_and_update_state",
            "IOPVerifierState::check_and_generate_subclaim",
            "interpolate_uni_poly",
            "u64_factorial",
            "u128_factorial",
            "field_factorial",
            "IOPTranscript",
        ],
        bounds: "all prover messages, claimed sums and challenges; up to 10 (16) rounds or degree 12, single rounds of every degree up to 35 and some up to 64 (128); soundness against 11 polynomial shapes up to 2 variables (3), three of them up to 4 (6)",
        assumptions: &[
            "challenges are random: a polynomial relation that holds at a challenge holds for all its values (Schwartz-Zippel, error degree/|F|)",
        ],
        tasks: t,
    });
    let mut t = vec![];
    for nv in 1..=5 {
        for k in 0..3 {
            if nv < 5 {
                task!(t, quick, format!("complete nv={} kind={}", nv, k), zero_complete(nv, k, if nv < 4 { ALL } else { 3 }));
            } else {
                task!(t, thorough, format!("complete nv={} kind={}", nv, k), zero_complete(nv, k, 3));
            }
        }
    }
    for (nv, d) in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 5), (2, 4), (3, 3), (4, 2), (5, 1)] {
        task!(t, quick, format!("rounds nv={} deg={}", nv, d), zero_rounds(nv, d));
    }
    for (nv, d) in [(4, 4), (6, 2)] {
        task!(t, thorough, format!("rounds nv={} deg={}", nv, d), zero_rounds(nv, d));
    }
    for s in 0..SHAPES.len() {
        for nv in 1..=3 {
            if nv < 2 || (nv < 3 && s < 3) {
                task!(t, quick, format!("sound nv={} shape={}", nv, s), zero_sound(nv, s));
            } else if (nv < 3 && s != 8) || s < 2 {
                task!(t, thorough, format!("sound nv={} shape={}", nv, s), zero_sound(nv, s));
            }
        }
    }
    for (nv, s) in [(1, 0), (1, 2), (2, 1), (2, 4), (3, 0), (3, 1), (1, 6)] {
        task!(t, quick, format!("nonzero nv={} shape={}", nv, s), zero_refuse(nv, s));
    }
    v.push(Prop {
        id: "P06",
        functions: &["ZeroCheck::prove", "ZeroCheck::verify", "VirtualPolynomial::build_f_hat", "SumCheck::prove", "SumCheck::verify", "eq_eval"],
        bounds: "all tables up to 3 variables (three symbolic entries per table for 4 (5)), all prover messages and challenges; up to 5 (6) rounds or degree 6; soundness against 11 shapes up to 1 (2) variables",
        assumptions: &[
            "challenges are random: a polynomial relation that holds at a challenge holds for all its values (Schwartz-Zippel)",
        ],
        tasks: t,
    });
    let mut t = vec![];
    for k in 0..5 {
        task!(t, quick, format!("histories {}", k), transcript(k));
    }
    for n in [3, 9, 24] {
        task!(t, quick, format!("long messages n={}", n), transcript_long(n));
    }
    task!(t, thorough, "long messages n=200", transcript_long(200));
    task!(t, quick, "draws", transcript_misc());
    v.push(Prop {
        id: "P07",
        functions: &[
            "IOPTranscript::new",
            "IOPTranscript::append_message",
            "IOPTranscript::append_field_element",
            "IOPTranscript::append_serializable_element",
            "IOPTranscript::get_and_append_challenge",
            "IOPTranscript::get_and_append_challenge_vectors",
        ],
        bounds: "all field elements absorbed; 5 histories of up to 4 operations and every single-step variation of them; messages of up to 24 (200) elements or 1152 (9600) bytes and histories of up to 24 (200) steps with every element, byte or step changed",
        assumptions: &["merlin's duplex construction is collision free on different inputs (run concretely)"],
        tasks: t,
    });
}
