//! P11 prover tracker, P12 verifier tracker mirrors it, P13 compiled proofs of true claims,
//! P14 what the verifier's acceptance implies.
use crate::checks::iop::adv_proof;
use crate::mock::*;
use crate::task;
use crate::task::{Be, Prop};
use crate::val::*;
use ark_ec::pairing::Pairing;
use ark_ff::{One, Zero};
use zk_sql::subroutines::pcs::prelude::*;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hooks::{CompiledZKSQLProof, TrackerID};

pub type S<E> = <E as Pairing>::ScalarField;
pub type M<E> = MockPcs<E>;

pub fn mock_trackers<E: Be>(nv: usize) -> (ProverTrackerRef<E, M<E>>, VerifierTrackerRef<E, M<E>>) {
    let p = MockParam { nv: nv as u64 };
    (ProverTrackerRef::new_from_pcs_params(p.clone()), VerifierTrackerRef::new_from_pcs_params(p))
}

// ---- tables ----
pub fn t_front<F: Val>(t: &[F], k: usize) -> Vec<F> {
    (0..t.len() << k).map(|i| t[i >> k]).collect()
}
pub fn t_back<F: Val>(t: &[F], k: usize) -> Vec<F> {
    (0..t.len() << k).map(|i| t[i % t.len()]).collect()
}

struct Item<E: Be, P: PolynomialCommitmentScheme<E>> {
    p: TrackedPoly<E, P>,
    table: Vec<S<E>>,
    at: S<E>,
}
impl<E: Be, P: PolynomialCommitmentScheme<E>> Clone for Item<E, P> {
    fn clone(&self) -> Self {
        Item { p: self.p.clone(), table: self.table.clone(), at: self.at }
    }
}
fn zip<F: Val>(a: &[F], b: &[F], f: impl Fn(F, F) -> F) -> Vec<F> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
const OPS: usize = 6;
/// one operation on tracked polynomials next to the arithmetic it stands for
fn apply<E: Be, P: PolynomialCommitmentScheme<E>>(op: usize, a: &mut Item<E, P>, b: &Item<E, P>, c: S<E>) -> Option<Item<E, P>> {
    Some(match op {
        0 => Item { p: a.p.add_poly(&b.p), table: zip(&a.table, &b.table, |u, v| u + v), at: a.at + b.at },
        1 => Item { p: a.p.sub_poly(&b.p), table: zip(&a.table, &b.table, |u, v| u - v), at: a.at - b.at },
        2 => Item { p: a.p.mul_poly(&b.p), table: zip(&a.table, &b.table, |u, v| u * v), at: a.at * b.at },
        3 => Item { p: a.p.add_scalar(c), table: a.table.iter().map(|u| *u + c).collect(), at: a.at + c },
        4 => Item { p: a.p.mul_scalar(c), table: a.table.iter().map(|u| *u * c).collect(), at: a.at * c },
        _ => {
            let t = a.p.evaluations();
            eq_vec("table read in the middle", &t, &a.table);
            return None;
        }
    })
}
fn verify_item<E: Be, P: PolynomialCommitmentScheme<E>>(it: &Item<E, P>, nv: usize, x: &[S<E>]) {
    check::<S<E>>("number of variables of a tracked polynomial", it.p.num_vars() == nv);
    match guard(|| it.p.evaluate(x)) {
        Ok(Some(v)) => S::<E>::eq_all("value of a tracked polynomial", v, it.at),
        _ => check::<S<E>>("a tracked polynomial has no value", false),
    }
    let v = must::<S<E>, _, String>("arithmetic form", || {
        let p = it.p.to_arithmatic_virtual_poly();
        if p.aux_info.num_variables != nv {
            return Err("number of variables of the arithmetic form".to_string());
        }
        p.evaluate(x).map_err(|e| format!("{:?}", e))
    });
    S::<E>::eq_all("value of the arithmetic form", v, it.at);
    eq_vec("table of a tracked polynomial", &it.p.evaluations(), &it.table);
    match it.p.evaluate(x) {
        Some(v) => S::<E>::eq_all("value once the table has been computed", v, it.at),
        None => check::<S<E>>("no value once the table has been computed", false),
    }
}
fn start<E: Be>(nv: usize, bases: usize) -> (ProverTrackerRef<E, M<E>>, Vec<Item<E, M<E>>>, Vec<S<E>>) {
    let (mut pt, _) = mock_trackers::<E>(nv);
    let x: Vec<S<E>> = vars("x", nv);
    let mut items = vec![];
    for i in 0..bases {
        let f: Vec<S<E>> = vars(&format!("f{}_", i), 1 << nv);
        let p = if i % 2 == 0 {
            pt.track_mat_poly(mle(nv, f.clone()))
        } else {
            must::<S<E>, _, _>("commit", || pt.track_and_commit_poly(mle(nv, f.clone())))
        };
        items.push(Item { p, at: ref_mle(&f, &x), table: f });
    }
    (pt, items, x)
}
/// every history of `k` operations on `bases` polynomials; `free`: operands are arbitrary,
/// otherwise the first operand is the newest polynomial
fn histories<E: Be>(nv: usize, bases: usize, first: usize, k: usize, free: bool) {
    let (_, mut items, x) = start::<E>(nv, bases);
    for s in 0..k {
        let op = if s == 0 { first } else { S::<E>::choose(&format!("op{}", s), OPS) };
        let n = items.len();
        let a = if free { S::<E>::choose(&format!("a{}_", s), n) } else { n - 1 };
        let b = if op < 3 { S::<E>::choose(&format!("b{}_", s), n) } else { 0 };
        let c: S<E> = var(&format!("c{}", s));
        let other = items[b].clone();
        let mut it = items[a].clone();
        let r = must::<S<E>, _, String>("operation", || Ok(apply(op, &mut it, &other, c)));
        items[a] = it;
        items.extend(r);
    }
    for i in 0..items.len() {
        for j in 0..i {
            check::<S<E>>("two tracked polynomials share an identifier", items[i].p.id != items[j].p.id);
        }
    }
    for it in &items {
        verify_item(it, nv, &x);
    }
}
/// fixed deep histories: products of sums, squares, tables read before and after use
fn deep<E: Be>(nv: usize, kind: usize) {
    let (_, mut it, x) = start::<E>(nv, 3);
    let c: S<E> = var("c");
    let prog: &[(usize, usize, usize)] = match kind {
        0 => &[(0, 0, 1), (1, 1, 2), (2, 3, 4), (2, 5, 5), (1, 6, 5), (3, 7, 0)],
        1 => &[(2, 0, 1), (5, 3, 0), (2, 3, 3), (0, 3, 4), (5, 5, 0), (4, 5, 0), (2, 6, 2)],
        2 => &[(3, 0, 0), (3, 3, 0), (2, 3, 4), (4, 5, 0), (1, 6, 6), (0, 6, 7)],
        3 => &[(1, 0, 0), (2, 3, 1), (0, 4, 2), (5, 4, 0), (5, 5, 0), (2, 5, 4), (1, 6, 3)],
        _ => &[(2, 0, 0), (2, 3, 1), (2, 4, 2), (4, 5, 0), (1, 5, 6), (5, 7, 0), (0, 7, 5), (2, 8, 0)],
    };
    for (op, a, b) in prog {
        let other = it[*b].clone();
        let mut one = it[*a].clone();
        let r = must::<S<E>, _, String>("operation", || Ok(apply(*op, &mut one, &other, c)));
        it[*a] = one;
        it.extend(r);
    }
    for i in &it {
        verify_item(i, nv, &x);
    }
}
/// a long history: which operation on which earlier results, `n` of them
fn long_program(n: usize, bases: usize, seed: usize) -> Vec<(usize, usize, usize)> {
    let mut mults = 0;
    (0..n)
        .map(|i| {
            let k = bases + i;
            let mut op = [3, 0, 4, 1, 3, 1, 0, 4, 5, 0, 1][(i * (seed + 2) + seed) % 11];
            let (mut a, mut b) = (k - 1 - (i * seed) % 3.min(k), (i * 5 + seed) % bases);
            if i % 7 == 3 && mults < 2 {
                mults += 1;
                (op, a, b) = (2, k - 1, i % bases);
            } else if i % 5 == 4 {
                // operands of the same age, the older one second
                b = k - 3;
                a = k - 2;
            }
            (op, a, b)
        })
        .collect()
}
fn long<E: Be>(nv: usize, n: usize, seed: usize) {
    let (_, mut it, x) = start::<E>(nv, 3);
    let mut at: Vec<usize> = (0..it.len()).collect();
    for (i, (op, a, b)) in long_program(n, 3, seed).into_iter().enumerate() {
        let c: S<E> = var(&format!("c{}", i));
        let other = it[at[b]].clone();
        let mut one = it[at[a]].clone();
        let r = must::<S<E>, _, String>("operation", || Ok(apply(op, &mut one, &other, c)));
        it[at[a]] = one;
        match r {
            Some(r) => {
                it.push(r);
                at.push(it.len() - 1);
            }
            None => at.push(at[a]),
        }
    }
    for i in &it {
        verify_item(i, nv, &x);
    }
}
/// adding variables in front or at the back of material and virtual polynomials
fn widen<E: Be>(nv: usize, k: usize, front: bool, virt: usize) {
    let (_, it, _) = start::<E>(nv, 2);
    let c: S<E> = var("c");
    let (p, t) = match virt {
        0 => (it[1].p.clone(), it[1].table.clone()),
        1 => (it[0].p.sub_poly(&it[1].p), zip(&it[0].table, &it[1].table, |a, b| a - b)),
        _ => (it[0].p.mul_poly(&it[1].p).add_scalar(c), zip(&it[0].table, &it[1].table, |a, b| a * b + c)),
    };
    let q = must::<S<E>, _, String>("widening", || Ok(if front { p.increase_nv_front(k) } else { p.increase_nv_back(k) }));
    let w = if front { t_front(&t, k) } else { t_back(&t, k) };
    let y: Vec<S<E>> = vars("y", nv + k);
    verify_item(&Item { p: q.clone(), at: ref_mle(&w, &y), table: w.clone() }, nv + k, &y);
    // the definition, at every value of the added variables
    let inner = if front { &y[k..] } else { &y[..nv] };
    S::<E>::eq_all("a widened polynomial ignores the added variables", q.evaluate(&y).unwrap(), ref_mle(&t, inner));
    eq_vec("the original keeps its table", &p.evaluations(), &t);
    check::<S<E>>("the original keeps its number of variables", p.num_vars() == nv);
    let (z, zt) = (q.mul_poly(&q), zip(&w, &w, |a, b| a * b));
    verify_item(&Item { p: z, at: ref_mle(&w, &y) * ref_mle(&w, &y), table: zt }, nv + k, &y);
}
/// misuse is refused and copies are independent
fn discipline<E: Be>(nv: usize) {
    let (mut pt, it, x) = start::<E>(nv, 2);
    let (_, it2, _) = start::<E>(nv, 2);
    let wide = pt.track_mat_poly(mle(nv + 1, vars("w", 2 << nv)));
    let r = |l: &str, f: &dyn Fn() -> TrackedPoly<E, M<E>>| refuses::<S<E>, _, ()>(l, || Ok(f()));
    r("sum of polynomials of different sizes", &|| it[0].p.add_poly(&wide));
    r("difference of polynomials of different sizes", &|| it[0].p.sub_poly(&wide));
    r("product of polynomials of different sizes", &|| it[0].p.mul_poly(&wide));
    r("sum across trackers", &|| it[0].p.add_poly(&it2[1].p));
    r("difference across trackers", &|| it[0].p.sub_poly(&it2[1].p));
    r("product across trackers", &|| it[0].p.mul_poly(&it2[1].p));
    check::<S<E>>("equality of tracked polynomials", it[0].p == it[0].p.clone() && it[0].p != it[1].p && it[0].p != it2[0].p);
    // a copy of the tracker does not see later operations, nor the original the copy's
    let mut copy = pt.deep_copy();
    check::<S<E>>("a copy is another tracker", copy != pt && pt == pt.clone());
    let a = it[0].p.add_poly(&it[1].p);
    let b = copy.track_mat_poly(mle(nv, vars("g", 1 << nv)));
    check::<S<E>>("copies hand out identifiers independently", a.id == b.id);
    eq_vec("the original after the copy was used", &a.evaluations(), &zip(&it[0].table, &it[1].table, |u, v| u + v));
    eq_vec("the copy after the original was used", &b.evaluations(), &vars::<S<E>>("g", 1 << nv));
    let u = pt.get_and_append_challenge(b"c").unwrap();
    let v = copy.get_and_append_challenge(b"c").unwrap();
    S::<E>::eq_all("copies continue the same transcript", u, v);
    let _ = x;
}

// ---- the verifier's side ----
/// proof object that hands the prover's commitments to a verifier
pub fn comms_only<E: Be, P: PolynomialCommitmentScheme<E>>(pt: &ProverTrackerRef<E, P>) -> CompiledZKSQLProof<E, P> {
    let mut proof = CompiledZKSQLProof::<E, P>::default();
    proof.comms = pt.clone_underlying_tracker().materialized_comms;
    proof
}
struct Pair<E: Be> {
    p: TrackedPoly<E, M<E>>,
    c: TrackedComm<E, M<E>>,
}
impl<E: Be> Clone for Pair<E> {
    fn clone(&self) -> Self {
        Pair { p: self.p.clone(), c: self.c.clone() }
    }
}
fn both<E: Be>(op: usize, a: &Pair<E>, b: &Pair<E>, c: S<E>) -> Pair<E> {
    match op {
        0 => Pair { p: a.p.add_poly(&b.p), c: a.c.add_comms(&b.c) },
        1 => Pair { p: a.p.sub_poly(&b.p), c: a.c.sub_comms(&b.c) },
        2 => Pair { p: a.p.mul_poly(&b.p), c: a.c.mul_comms(&b.c) },
        3 => Pair { p: a.p.add_scalar(c), c: a.c.add_scalar(c) },
        5 => {
            // reading a table changes nothing
            let _ = a.p.evaluations();
            a.clone()
        }
        _ => Pair { p: a.p.mul_scalar(c), c: a.c.mul_scalar(c) },
    }
}
/// committed and public polynomials known to both sides; committed ones answer queries at `pts`
fn sides<E: Be>(nv: usize, n: usize, pts: &[Vec<S<E>>]) -> (ProverTrackerRef<E, M<E>>, VerifierTrackerRef<E, M<E>>, Vec<Pair<E>>, Vec<Vec<S<E>>>) {
    let (mut pt, mut vt) = mock_trackers::<E>(nv);
    let mut ps = vec![];
    let mut ts = vec![];
    for i in 0..n {
        let f: Vec<S<E>> = vars(&format!("f{}_", i), 1 << nv);
        ps.push(if i == 1 {
            pt.track_mat_poly(mle(nv, f.clone()))
        } else {
            must::<S<E>, _, _>("commit", || pt.track_and_commit_poly(mle(nv, f.clone())))
        });
        ts.push(f);
    }
    let mut proof = comms_only(&pt);
    for (i, p) in ps.iter().enumerate() {
        if i != 1 {
            for x in pts {
                proof.query_map.insert((p.id, x.clone()), ref_mle(&ts[i], x));
            }
        }
    }
    vt.set_compiled_proof(proof);
    vt.transfer_proof_poly_evals();
    let mut out = vec![];
    for (i, p) in ps.into_iter().enumerate() {
        let c = if i == 1 {
            let f = ts[i].clone();
            vt.track_virtual_comm(Box::new(move |x: &[S<E>]| Ok(ref_mle(&f, x))))
        } else {
            let c = must::<S<E>, _, String>("transfer", || Ok(vt.transfer_prover_comm(p.id)));
            check::<S<E>>("the transferred commitment is the prover's", vt.get_mat_comm(c.id) == MockComm { nv: nv as u64, evals: ts[i].clone() });
            c
        };
        out.push(Pair { p, c });
    }
    (pt, vt, out, ts)
}
fn agree<E: Be>(it: &Pair<E>, x: &[S<E>]) {
    check::<S<E>>("prover and verifier identifiers agree", it.p.id == it.c.id);
    let v = must::<S<E>, _, _>("verifier evaluation", || it.c.eval_virtual_comm(x));
    match it.p.evaluate(x) {
        Some(w) => S::<E>::eq_all("verifier and prover values agree", v, w),
        None => check::<S<E>>("prover value", false),
    }
}
fn same_challenge<E: Be>(pt: &mut ProverTrackerRef<E, M<E>>, vt: &mut VerifierTrackerRef<E, M<E>>, l: &str) {
    check::<S<E>>(&format!("{}: next identifier", l), pt.get_next_id() == vt.get_next_id());
    let (a, b) = (pt.get_and_append_challenge(b"x").unwrap(), vt.get_and_append_challenge(b"x").unwrap());
    S::<E>::eq_all(&format!("{}: challenges", l), a, b);
}
fn mirror<E: Be>(nv: usize, first: usize, k: usize, free: bool) {
    let x: Vec<S<E>> = vars("x", nv);
    let (mut pt, mut vt, mut it, _) = sides::<E>(nv, 3, &[x.clone()]);
    same_challenge(&mut pt, &mut vt, "after the commitments");
    for s in 0..k {
        let op = if s == 0 { first } else { S::<E>::choose(&format!("op{}", s), 6) };
        let n = it.len();
        let a = if free { S::<E>::choose(&format!("a{}_", s), n) } else { n - 1 };
        let b = if op < 3 { S::<E>::choose(&format!("b{}_", s), n) } else { 0 };
        let c: S<E> = var(&format!("c{}", s));
        it.push(both(op, &it[a], &it[b], c));
    }
    for i in &it {
        agree(i, &x);
    }
    // a commitment made later
    let g: Vec<S<E>> = vars("g", 1 << nv);
    let p = must::<S<E>, _, _>("commit", || pt.track_and_commit_poly(mle(nv, g.clone())));
    vt.set_compiled_proof(comms_only(&pt));
    let c = must::<S<E>, _, String>("transfer", || Ok(vt.transfer_prover_comm(p.id)));
    check::<S<E>>("late commitment", p.id == c.id);
    let e: S<E> = var("e");
    pt.append_serializable_element(b"extra", &e).unwrap();
    vt.append_serializable_element(b"extra", &e).unwrap();
    same_challenge(&mut pt, &mut vt, "at the end");
}
fn mirror_long<E: Be>(nv: usize, n: usize, seed: usize) {
    let x: Vec<S<E>> = vars("x", nv);
    let (mut pt, mut vt, mut it, _) = sides::<E>(nv, 3, &[x.clone()]);
    for (i, (op, a, b)) in long_program(n, 3, seed).into_iter().enumerate() {
        let c: S<E> = var(&format!("c{}", i));
        it.push(both(op, &it[a], &it[b], c));
    }
    for i in &it {
        agree(i, &x);
    }
    same_challenge(&mut pt, &mut vt, "at the end");
}
/// every challenge depends on every commitment made before it, whichever entry differs
fn comm_binding<E: Be>(nv: usize, n: usize, which: usize, entry: usize) {
    let d: S<E> = var("d");
    S::<E>::assume_bool(!d.is_zero());
    let ts: Vec<Vec<S<E>>> = (0..n).map(|i| vars(&format!("f{}_", i), 1 << nv)).collect();
    let mut us = ts.clone();
    us[which][entry] += d;
    let run = |ts: &[Vec<S<E>>]| -> Vec<S<E>> {
        let (mut pt, mut vt) = mock_trackers::<E>(nv);
        let mut out = vec![];
        for t in ts {
            let p = must::<S<E>, _, _>("commit", || pt.track_and_commit_poly(mle(nv, t.clone())));
            vt.set_compiled_proof(comms_only(&pt));
            must::<S<E>, _, String>("transfer", || Ok(vt.transfer_prover_comm(p.id)));
            let (a, b) = (pt.get_and_append_challenge(b"x").unwrap(), vt.get_and_append_challenge(b"x").unwrap());
            S::<E>::eq_all("challenges of both sides", a, b);
            out.push(a);
        }
        out
    };
    let (x, y) = (run(&ts), run(&us));
    for k in 0..n {
        if k < which {
            S::<E>::eq_all("a challenge depends on a later commitment", x[k], y[k]);
        } else {
            check::<S<E>>("a challenge does not depend on an earlier commitment", x[k] != y[k]);
        }
    }
}
/// widened polynomials are read at the right coordinates by the verifier
fn mirror_wide<E: Be>(nv: usize, k: usize, k2: usize, front: bool, virt: bool) {
    let y: Vec<S<E>> = vars("y", nv + k + k2);
    let mut pts: Vec<Vec<S<E>>> = vec![];
    for i in 0..=k + k2 {
        pts.push(y[i..i + nv].to_vec());
    }
    let (mut pt, mut vt, it, ts) = sides::<E>(nv, 2, &pts);
    let c: S<E> = var("c");
    let a = if virt { both(4, &both(0, &it[0], &it[1], c), &it[0], c) } else { it[0].clone() };
    let wide = |a: &Pair<E>, k: usize, f: bool| Pair {
        p: if f { a.p.increase_nv_front(k) } else { a.p.increase_nv_back(k) },
        c: if f { a.c.increase_nv_front(k) } else { a.c.increase_nv_back(k) },
    };
    let w = wide(&a, k, front);
    agree(&w, &y[..nv + k]);
    let inner: &[S<E>] = if front { &y[k..nv + k] } else { &y[..nv] };
    let t = if virt { zip(&ts[0], &ts[1], |u, v| (u + v) * c) } else { ts[0].clone() };
    let v = must::<S<E>, _, _>("verifier evaluation", || w.c.eval_virtual_comm(&y[..nv + k]));
    S::<E>::eq_all("the verifier ignores the added variables", v, ref_mle(&t, inner));
    let w2 = wide(&w, k2, !front);
    agree(&w2, &y);
    let inner = if front { &y[k..nv + k] } else { &y[k2..k2 + nv] };
    let v = must::<S<E>, _, _>("verifier evaluation", || w2.c.eval_virtual_comm(&y));
    S::<E>::eq_all("the verifier ignores all added variables", v, ref_mle(&t, inner));
    // results can be combined
    let z = both(2, &w, &both(3, &w, &w, c), c);
    agree(&z, &y[..nv + k]);
    same_challenge(&mut pt, &mut vt, "after widening");
}
/// widening a product: `beyond` compares the two sides away from the hypercube too
fn wide_product<E: Be>(nv: usize, k: usize, front: bool, beyond: bool) {
    let pts: Vec<Vec<S<E>>> = if beyond { vec![vars("y", nv + k)] } else { (0..1 << (nv + k)).map(|i| cube(i, nv + k)).collect() };
    for y in pts {
        let inner = if front { &y[k..] } else { &y[..nv] };
        let (mut pt, mut vt, it, ts) = sides::<E>(nv, 3, &[inner.to_vec()]);
        let a = both(2, &it[0], &both(1, &it[2], &it[1], S::<E>::one()), S::<E>::one());
        let w = if front { Pair { p: a.p.increase_nv_front(k), c: a.c.increase_nv_front(k) } } else { Pair { p: a.p.increase_nv_back(k), c: a.c.increase_nv_back(k) } };
        let v = must::<S<E>, _, _>("verifier evaluation", || w.c.eval_virtual_comm(&y));
        let m = |i: usize| ref_mle(&ts[i], inner);
        S::<E>::eq_all("the widened commitment ignores the added variables", v, m(0) * (m(2) - m(1)));
        check::<S<E>>("prover and verifier identifiers agree", w.p.id == w.c.id);
        check::<S<E>>("the widened polynomial's size", w.p.num_vars() == nv + k);
        same_challenge(&mut pt, &mut vt, "after widening");
        let u = must::<S<E>, _, _>("prover evaluation", || w.p.evaluate(&y).ok_or(()));
        S::<E>::eq_all(if beyond { "the polynomial of a widened product" } else { "the table of a widened product" }, u, v);
    }
}
fn verifier_discipline<E: Be>(nv: usize) {
    let x: Vec<S<E>> = vars("x", nv);
    let (_, mut vt, it, _) = sides::<E>(nv, 3, &[x.clone()]);
    let (_, _, it2, _) = sides::<E>(nv, 3, &[x.clone()]);
    let r = |l: &str, f: &dyn Fn() -> TrackedComm<E, M<E>>| refuses::<S<E>, _, ()>(l, || Ok(f()));
    r("sum across trackers", &|| it[0].c.add_comms(&it2[1].c));
    r("difference across trackers", &|| it[0].c.sub_comms(&it2[1].c));
    r("product across trackers", &|| it[0].c.mul_comms(&it2[1].c));
    // a commitment without an answer has no value
    let z: Vec<S<E>> = vars("z", nv);
    S::<E>::assume_bool(!(z[0] - x[0]).is_zero());
    refuses::<S<E>, _, _>("value at a point that was not answered", || it[0].c.eval_virtual_comm(&z));
    refuses::<S<E>, _, ()>("transfer of a commitment the prover did not send", || Ok(vt.transfer_prover_comm(TrackerID(1000))));
}

// ---- compiled proofs ----
/// what each scenario claims, on both sides. Returns nothing: claims are added to the trackers
struct Sc<E: Be, P: PolynomialCommitmentScheme<E>> {
    pt: ProverTrackerRef<E, P>,
    vt: VerifierTrackerRef<E, P>,
    top: usize,
    n: usize,
    polys: Vec<(TrackedPoly<E, P>, Vec<S<E>>)>,
    // steps replayed on the verifier's side
    v_ops: Vec<Box<dyn Fn(&mut Vec<TrackedComm<E, P>>, &mut VerifierTrackerRef<E, P>)>>,
}
impl<E: Be, P: PolynomialCommitmentScheme<E>> Sc<E, P> {
    fn new(pp: P::ProverParam, vp: P::VerifierParam, top: usize) -> Self {
        Sc { pt: ProverTrackerRef::new_from_pcs_params(pp), vt: VerifierTrackerRef::new_from_pcs_params(vp), top, n: 0, polys: vec![], v_ops: vec![] }
    }
    fn commit(&mut self, nv: usize, t: Vec<S<E>>) -> usize {
        let p = must::<S<E>, _, _>("commit", || self.pt.track_and_commit_poly(mle(nv, t.clone())));
        let id = p.id;
        self.polys.push((p, t));
        self.v_ops.push(Box::new(move |cs, vt| {
            let c = must::<S<E>, _, String>("transfer", || Ok(vt.transfer_prover_comm(id)));
            cs.push(c)
        }));
        self.n += 1;
        self.n - 1
    }
    fn fresh(&mut self, nv: usize) -> usize {
        let t = vars(&format!("f{}_", self.n), 1 << nv);
        self.commit(nv, t)
    }
    fn op(&mut self, op: usize, a: usize, b: usize, c: S<E>) -> usize {
        let (p, q) = (self.polys[a].clone(), self.polys[b].clone());
        let r = match op {
            0 => (p.0.add_poly(&q.0), zip(&p.1, &q.1, |u, v| u + v)),
            1 => (p.0.sub_poly(&q.0), zip(&p.1, &q.1, |u, v| u - v)),
            2 => (p.0.mul_poly(&q.0), zip(&p.1, &q.1, |u, v| u * v)),
            3 => (p.0.add_scalar(c), p.1.iter().map(|u| *u + c).collect()),
            4 => (p.0.mul_scalar(c), p.1.iter().map(|u| *u * c).collect()),
            5 => (p.0.increase_nv_front(b), t_front(&p.1, b)),
            _ => (p.0.increase_nv_back(b), t_back(&p.1, b)),
        };
        self.polys.push(r);
        self.v_ops.push(Box::new(move |cs, _| {
            let r = match op {
                0 => cs[a].add_comms(&cs[b]),
                1 => cs[a].sub_comms(&cs[b]),
                2 => cs[a].mul_comms(&cs[b]),
                3 => cs[a].add_scalar(c),
                4 => cs[a].mul_scalar(c),
                5 => cs[a].increase_nv_front(b),
                _ => cs[a].increase_nv_back(b),
            };
            cs.push(r)
        }));
        self.n += 1;
        self.n - 1
    }
    fn zero(&mut self, a: usize) {
        self.pt.add_zerocheck_claim(self.polys[a].0.id);
        self.v_ops.push(Box::new(move |cs, vt| vt.add_zerocheck_claim(cs[a].id)));
    }
    /// the verifier's sum is its own (offset added), scaled to the common number of variables
    fn sum(&mut self, a: usize, off: S<E>) {
        let s: S<E> = self.polys[a].1.iter().sum();
        let k = self.top - self.polys[a].1.len().trailing_zeros() as usize;
        let scaled = s * S::<E>::from(1u64 << k);
        self.pt.add_sumcheck_claim(self.polys[a].0.id, s);
        self.v_ops.push(Box::new(move |cs, vt| vt.add_sumcheck_claim(cs[a].id, scaled + off)));
    }
    /// the verifier takes the sum from the proof
    fn sum_from_proof(&mut self, a: usize) {
        let s: S<E> = self.polys[a].1.iter().sum();
        let k = self.top - self.polys[a].1.len().trailing_zeros() as usize;
        let scaled = s * S::<E>::from(1u64 << k);
        self.pt.add_sumcheck_claim(self.polys[a].0.id, s);
        self.v_ops.push(Box::new(move |cs, vt| {
            let v = must::<S<E>, _, String>("claimed sum in the proof", || Ok(vt.get_prover_claimed_sum(cs[a].id)));
            S::<E>::eq_all("claimed sum in the proof is the true one", v, scaled);
            vt.add_sumcheck_claim(cs[a].id, v)
        }));
    }
    fn verify(&mut self, proof: CompiledZKSQLProof<E, P>) -> bool {
        self.vt.set_compiled_proof(proof);
        self.vt.transfer_proof_poly_evals();
        let mut cs = vec![];
        for f in &self.v_ops {
            f(&mut cs, &mut self.vt)
        }
        matches!(guard(|| self.vt.verify_claims()), Ok(Ok(())))
    }
}
const SCEN: usize = 15;
fn scenario<E: Be, P: PolynomialCommitmentScheme<E>>(s: &mut Sc<E, P>, kind: usize, off: S<E>) {
    let c: S<E> = var("c");
    let top = s.top;
    match kind {
        // one committed polynomial, its sum
        0 => {
            let a = s.fresh(top);
            s.sum(a, off);
        }
        // a product equals another committed polynomial
        1 => {
            let (a, b) = (s.fresh(top), s.fresh(top));
            let t: Vec<S<E>> = zip(&s.polys[a].1.clone(), &s.polys[b].1.clone(), |u, v| u * v);
            let t = if off.is_zero() { t } else { t.iter().enumerate().map(|(i, u)| if i == 0 { *u + off } else { *u }).collect() };
            let d = s.commit(top, t);
            let p = s.op(2, a, b, c);
            let z = s.op(1, p, d, c);
            s.zero(z);
        }
        // several claims of both kinds over shared polynomials
        2 => {
            let (a, b) = (s.fresh(top), s.fresh(top));
            let p = s.op(2, a, b, c);
            s.sum_from_proof(p);
            let q = s.op(3, a, 0, c);
            s.sum(q, off);
            let z = s.op(1, q, q, c);
            s.zero(z);
            let m = s.op(4, p, 0, c);
            s.sum_from_proof(m);
        }
        // polynomials of two sizes
        3 => {
            let a = s.fresh(top - 1);
            let b = s.fresh(top);
            s.sum(a, off);
            s.sum_from_proof(b);
            let w = s.op(5, a, 1, c);
            let p = s.op(2, w, b, c);
            s.sum_from_proof(p);
            let z = s.op(1, a, a, c);
            s.zero(z);
        }
        // widened at the back, used with a large one
        4 => {
            let a = s.fresh(top - 1);
            let b = s.fresh(top);
            let w = s.op(6, a, 1, c);
            let p = s.op(0, w, b, c);
            s.sum(p, off);
        }
        // commitments between draws, order of claims mixed
        5 => {
            let a = s.fresh(top);
            s.sum(a, S::<E>::zero());
            let (u, v) = (s.pt.get_and_append_challenge(b"m").unwrap(), c);
            s.v_ops.push(Box::new(move |_, vt| {
                let w = vt.get_and_append_challenge(b"m").unwrap();
                S::<E>::eq_all("challenge in the middle", w, u);
            }));
            let b = s.fresh(top);
            let d = s.op(4, b, 0, u);
            let e = s.op(0, a, d, v);
            s.sum(e, off);
            let z = s.op(1, e, e, v);
            s.zero(z);
            s.zero(z);
        }
        // a committed constant (no variables) next to a larger one
        6 => {
            let a = s.fresh(0);
            let b = s.fresh(top);
            s.sum_from_proof(a);
            s.sum(b, off);
        }
        // higher degree
        7 => {
            let (a, b) = (s.fresh(top), s.fresh(top));
            let p = s.op(2, a, b, c);
            let q = s.op(2, p, a, c);
            let r = s.op(0, q, b, c);
            s.sum(r, off);
        }
        // many claims over polynomials of every size, the last one in doubt
        9 => {
            let ids: Vec<usize> = (0..6).map(|i| s.fresh((top + 6 - i) % (top + 1))).collect();
            for i in 0..5 {
                s.sum_from_proof(ids[i]);
                let k = top - s.polys[ids[i]].1.len().trailing_zeros() as usize;
                let w = s.op(5, ids[i], k, c);
                let z = s.op(1, w, w, c);
                s.zero(z);
            }
            s.sum(ids[5], off);
        }
        // vanishing polynomials only, of two sizes, the second in doubt
        10 => {
            let (a, b) = (s.fresh(top), s.fresh(top - 1));
            let mut t: Vec<S<E>> = s.polys[b].1.iter().map(|u| *u * *u).collect();
            let n = t.len();
            t[n - 1] += off;
            let d = s.commit(top - 1, t);
            let z = s.op(1, a, a, c);
            s.zero(z);
            let p = s.op(2, b, b, c);
            let z = s.op(1, p, d, c);
            s.zero(z);
            let z = s.op(1, d, d, c);
            s.zero(z);
        }
        // a product of five factors
        11 => {
            let ids: Vec<usize> = (0..3).map(|_| s.fresh(top)).collect();
            let mut p = ids[0];
            for i in [1, 2, 0, 1] {
                p = s.op(2, p, ids[i], c);
            }
            let q = s.op(3, p, 0, c);
            s.sum(q, off);
            let z = s.op(1, p, p, c);
            s.zero(z);
        }
        // a polynomial both sides know, and one the prover does not use
        12 => {
            let a = s.fresh(top);
            let _ = s.fresh(top);
            let t: Vec<S<E>> = vars("pub", 1 << top);
            let p = s.pt.track_mat_poly(mle(top, t.clone()));
            s.polys.push((p, t.clone()));
            s.v_ops.push(Box::new(move |cs, vt| {
                let t = t.clone();
                cs.push(vt.track_virtual_comm(Box::new(move |x: &[S<E>]| Ok(ref_mle(&t, x)))))
            }));
            s.n += 1;
            let w = s.op(2, a, 2, c);
            let q = s.op(0, w, 2, c);
            s.sum(q, off);
        }
        // tables read before the proof is made, of the small sizes
        13 => {
            let (a, b) = (s.fresh(top - 1), s.fresh(top));
            let mut ids = vec![s.op(2, a, a, c), s.op(3, a, 0, c), s.op(4, a, 0, c)];
            ids.push(s.op(1, ids[0], ids[1], c));
            for i in &ids {
                let (p, t) = s.polys[*i].clone();
                eq_vec("table of a virtual polynomial", &p.evaluations(), &t);
            }
            for i in &ids {
                s.sum_from_proof(*i);
            }
            let z = s.op(1, ids[3], ids[3], c);
            s.zero(z);
            s.sum(b, off);
        }
        // commitments far apart in the order of identifiers
        14 => {
            let mut ids = vec![s.fresh(top)];
            for n in [7, 0, 5, 0, 5] {
                for _ in 0..n {
                    s.op(3, 0, 0, c);
                }
                ids.push(s.fresh(top));
            }
            for i in &ids[..5] {
                s.sum_from_proof(*i);
            }
            let p = s.op(2, ids[1], ids[4], c);
            let z = s.op(1, p, p, c);
            s.zero(z);
            let q = s.op(0, p, ids[5], c);
            s.sum(q, off);
        }
        // the same polynomial claimed twice
        _ => {
            let a = s.fresh(top);
            s.sum_from_proof(a);
            s.sum(a, off);
            s.sum_from_proof(a);
        }
    }
}
fn finish<E: Be, P: PolynomialCommitmentScheme<E>>(mut s: Sc<E, P>, kind: usize, wrong: bool) {
    let off: S<E> = if wrong { var("off") } else { S::<E>::zero() };
    if wrong {
        S::<E>::assume_bool(!off.is_zero());
    }
    scenario(&mut s, kind, off);
    let mut pt = s.pt.clone();
    if wrong {
        // no proof made by the prover for its own claims convinces a verifier with a false claim
        if let Ok(Ok(proof)) = guard(|| pt.compile_proof()) {
            check::<S<E>>("a false claim is accepted", !s.verify(proof));
        }
        return;
    }
    let proof = must::<S<E>, _, _>("proof of true claims", || pt.compile_proof());
    check::<S<E>>("the proof of true claims is accepted", s.verify(proof));
    check::<S<E>>("next identifier after the proof", s.pt.get_next_id() == s.vt.get_next_id());
    let (a, b) = (s.pt.get_and_append_challenge(b"x").unwrap(), s.vt.get_and_append_challenge(b"x").unwrap());
    S::<E>::eq_all("transcripts agree after the proof", a, b);
}
fn proof_mock<E: Be>(top: usize, kind: usize, wrong: bool) {
    let p = MockParam { nv: top as u64 };
    finish(Sc::<E, M<E>>::new(p.clone(), p, top), kind, wrong)
}
fn proof_kzg<E: Be>(top: usize, kind: usize, wrong: bool) {
    let s = must::<S<E>, _, _>("SRS generation", || MultilinearKzgPCS::<E>::gen_srs_for_testing(&mut ark_std::test_rng(), top));
    let (pp, vp) = must::<S<E>, _, _>("trim", || MultilinearKzgPCS::<E>::trim(&s, None, Some(top)));
    finish(Sc::<E, MultilinearKzgPCS<E>>::new(pp, vp, top), kind, wrong)
}

// ---- acceptance ----
/// verifier with claims over given commitments; everything else in the proof is the adversary's
struct Adv<E: Be> {
    vt: VerifierTrackerRef<E, M<E>>,
    c: Vec<TrackedComm<E, M<E>>>,
    t: Vec<Vec<S<E>>>,
    evals: Vec<S<E>>,
    proof: CompiledZKSQLProof<E, M<E>>,
}
fn adversary<E: Be>(nv: usize, sizes: &[usize], deg: usize) -> Adv<E> {
    adversary_own(nv, sizes, deg, 0)
}
/// the first `own` commitments are the verifier's, whatever the proof says
fn adversary_own<E: Be>(nv: usize, sizes: &[usize], deg: usize, own: usize) -> Adv<E> {
    let (_, mut vt) = mock_trackers::<E>(nv);
    let mut proof = CompiledZKSQLProof::<E, M<E>>::default();
    let t: Vec<Vec<S<E>>> = sizes.iter().enumerate().map(|(i, n)| advs(&format!("f{}_", i), 1 << n)).collect();
    for (i, f) in t.iter().enumerate() {
        let e = if i < own { advs(&format!("o{}_", i), f.len()) } else { f.clone() };
        proof.comms.insert(TrackerID(i), MockComm { nv: sizes[i] as u64, evals: e });
    }
    proof.sc_proof = adv_proof(nv, deg);
    proof.sc_aux_info.num_variables = nv;
    proof.sc_aux_info.max_degree = deg;
    let evals: Vec<S<E>> = advs("e", sizes.len());
    proof.pcs_proof = vec![MockBatch { evals: evals.clone() }];
    vt.set_compiled_proof(proof.clone());
    vt.transfer_proof_poly_evals();
    let c = (0..sizes.len()).map(|i| {
        if i < own {
            must::<S<E>, _, _>("track", || vt.track_mat_comm(MockComm { nv: sizes[i] as u64, evals: t[i].clone() }))
        } else {
            vt.transfer_prover_comm(TrackerID(i))
        }
    }).collect();
    Adv { vt, c, t, evals, proof }
}
/// the aggregated claim at the sumcheck point, computed by the verifier from true values
fn final_claim<E: Be>(a: &Adv<E>, pt: &[S<E>]) -> S<E> {
    let t = a.vt.clone_underlying_tracker();
    for (c, f) in a.c.iter().zip(&a.t) {
        let n = f.len().trailing_zeros() as usize;
        let v = ref_mle(f, &pt[pt.len() - n..]);
        for k in 0..=pt.len() {
            t.query_map.borrow_mut().insert((c.id, pt[k..].to_vec()), v);
        }
    }
    must::<S<E>, _, _>("aggregated claim", || t.eval_virtual_comm(TrackerID(t.id_counter - 1), pt))
}
/// acceptance implies: opened values are true, and if the final value is the aggregated claim's,
/// every claim holds. `assume`: take that the final value is right as a hypothesis
fn accept<E: Be>(nv: usize, kind: usize, assume: bool) {
    let (a, zeros, sums): (Adv<E>, Vec<Vec<S<E>>>, Vec<(Vec<S<E>>, S<E>)>);
    match kind {
        // one sum
        0 => {
            let mut x = adversary::<E>(nv, &[nv], 2);
            let s: S<E> = adv("s");
            x.vt.add_sumcheck_claim(x.c[0].id, s);
            (zeros, sums) = (vec![], vec![(x.t[0].clone(), s)]);
            a = x;
        }
        // two sums
        1 => {
            let mut x = adversary::<E>(nv, &[nv, nv], 2);
            let (s, u): (S<E>, S<E>) = (adv("s"), adv("u"));
            x.vt.add_sumcheck_claim(x.c[0].id, s);
            x.vt.add_sumcheck_claim(x.c[1].id, u);
            (zeros, sums) = (vec![], vec![(x.t[0].clone(), s), (x.t[1].clone(), u)]);
            a = x;
        }
        // one vanishing polynomial
        2 => {
            let mut x = adversary::<E>(nv, &[nv], 2);
            x.vt.add_zerocheck_claim(x.c[0].id);
            (zeros, sums) = (vec![x.t[0].clone()], vec![]);
            a = x;
        }
        // two vanishing ones, one of them a product, and a sum
        3 => {
            let mut x = adversary::<E>(nv, &[nv, nv], 3);
            let p = x.c[0].mul_comms(&x.c[1]);
            x.vt.add_zerocheck_claim(p.id);
            let q = x.c[1].add_scalar(S::<E>::one());
            x.vt.add_zerocheck_claim(q.id);
            let s: S<E> = adv("s");
            x.vt.add_sumcheck_claim(x.c[0].id, s);
            (zeros, sums) = (vec![zip(&x.t[0], &x.t[1], |u, v| u * v), x.t[1].iter().map(|v| *v + S::<E>::one()).collect()], vec![(x.t[0].clone(), s)]);
            a = x;
        }
        // many claims of both kinds
        5 => {
            let mut x = adversary::<E>(nv, &[nv; 6], 3);
            let s: Vec<S<E>> = advs("s", 3);
            let (mut z, mut u) = (vec![], vec![]);
            for i in 0..3 {
                let j = (i + 1) % 3;
                x.vt.add_sumcheck_claim(x.c[i].id, s[i]);
                u.push((x.t[i].clone(), s[i]));
                let d = x.c[i].mul_comms(&x.c[j]).sub_comms(&x.c[3 + i]);
                x.vt.add_zerocheck_claim(d.id);
                z.push(zip(&zip(&x.t[i], &x.t[j], |u, v| u * v), &x.t[3 + i], |u, v| u - v));
            }
            (zeros, sums) = (z, u);
            a = x;
        }
        // one polynomial with two sums
        6 => {
            let mut x = adversary::<E>(nv, &[nv], 2);
            let s: Vec<S<E>> = advs("s", 2);
            for v in &s {
                x.vt.add_sumcheck_claim(x.c[0].id, *v);
            }
            (zeros, sums) = (vec![], s.iter().map(|v| (x.t[0].clone(), *v)).collect());
            a = x;
        }
        // one of three polynomials vanishes, the others are unclaimed
        7 => {
            let mut x = adversary::<E>(nv, &[nv, nv, nv], 2);
            let s: S<E> = adv("s");
            x.vt.add_zerocheck_claim(x.c[2].id);
            x.vt.add_sumcheck_claim(x.c[1].id, s);
            (zeros, sums) = (vec![x.t[2].clone()], vec![(x.t[1].clone(), s)]);
            a = x;
        }
        // a commitment the verifier has itself; the proof carries any other under its identifier
        8 => {
            let mut x = adversary_own::<E>(nv, &[nv, nv], 2, 1);
            let s: S<E> = adv("s");
            x.vt.add_sumcheck_claim(x.c[0].id, s);
            x.vt.add_zerocheck_claim(x.c[1].id);
            (zeros, sums) = (vec![x.t[1].clone()], vec![(x.t[0].clone(), s)]);
            a = x;
        }
        // ten claims of each kind
        9 => {
            let mut x = adversary::<E>(nv, &[nv; 5], 3);
            let s: Vec<S<E>> = advs("s", 10);
            let (mut z, mut u) = (vec![], vec![]);
            for i in 0..5 {
                for j in 0..i {
                    let c = x.c[i].add_comms(&x.c[j]);
                    x.vt.add_sumcheck_claim(c.id, s[u.len()]);
                    u.push((zip(&x.t[i], &x.t[j], |a, b| a + b), s[u.len()]));
                    let d = x.c[i].mul_comms(&x.c[j]);
                    x.vt.add_zerocheck_claim(d.id);
                    z.push(zip(&x.t[i], &x.t[j], |a, b| a * b));
                }
            }
            (zeros, sums) = (z, u);
            a = x;
        }
        // a smaller polynomial
        _ => {
            let mut x = adversary::<E>(nv, &[nv, nv - 1], 2);
            let s: S<E> = adv("s");
            x.vt.add_sumcheck_claim(x.c[1].id, s);
            let w = x.c[1].increase_nv_front(1);
            let z = w.sub_comms(&x.c[0]);
            x.vt.add_zerocheck_claim(z.id);
            let wide = t_front(&x.t[1], 1);
            (zeros, sums) = (vec![zip(&wide, &x.t[0], |u, v| u - v)], vec![(wide, s)]);
            a = x;
        }
    }
    match guard(|| a.vt.verify_claims()) {
        Ok(Ok(())) => {}
        _ => return,
    }
    let pts = seen_points::<S<E>>();
    check::<S<E>>("every commitment is opened", pts.len() == a.c.len());
    let pt = pts[0].clone();
    check::<S<E>>("the opening point has every variable", pt.len() == nv);
    for (i, p) in pts.iter().enumerate() {
        eq_vec("all commitments are opened at the sumcheck point", p, &pt);
        let n = a.t[i].len().trailing_zeros() as usize;
        S::<E>::eq_all("an accepted opened value is the committed polynomial's", a.evals[i], ref_mle(&a.t[i], &pt[nv - n..]));
    }
    let last = crate::checks::iop::lagrange(a.proof.sc_proof.proofs[nv - 1].verif_evaluations(), pt[nv - 1]);
    if assume {
        S::<E>::assume_zero(last - final_claim(&a, &pt));
    }
    for z in &zeros {
        for v in z {
            S::<E>::eq_all("an accepted zero claim vanishes", *v, S::<E>::zero());
        }
    }
    for (t, s) in &sums {
        S::<E>::eq_all("an accepted sum claim is true", *s, t.iter().sum());
    }
}
/// structural attacks on the compiled proof
fn malformed<E: Be>(nv: usize, kind: usize) {
    let mut a = adversary::<E>(nv, &[nv, nv], 2);
    let s: S<E> = adv("s");
    a.vt.add_sumcheck_claim(a.c[0].id, s);
    let mut p = a.proof.clone();
    match kind {
        0 => p.pcs_proof.clear(),
        1 => {
            p.pcs_proof[0].evals.pop();
        }
        2 => {
            p.sc_proof.proofs.pop();
        }
        3 => p.pcs_proof[0].evals.push(adv("extra")),
        4 => {
            p.comms.insert(TrackerID(77), MockComm { nv: nv as u64, evals: vars("g", 1 << nv) });
        }
        _ => {
            // an opened value that is off
            let d: S<E> = adv("d");
            S::<E>::assume_bool(!d.is_zero());
            p.pcs_proof[0].evals.swap(0, 1);
        }
    }
    a.vt.set_compiled_proof(p);
    if kind == 5 {
        if let Ok(Ok(())) = guard(|| a.vt.verify_claims()) {
            let pt = seen_points::<S<E>>()[0].clone();
            S::<E>::eq_all("swapped values are the polynomials'", a.evals[0], ref_mle(&a.t[1], &pt));
            S::<E>::eq_all("swapped values are the polynomials'", a.evals[1], ref_mle(&a.t[0], &pt));
        }
        return;
    }
    refuses::<S<E>, _, _>("a malformed compiled proof is accepted", || a.vt.verify_claims());
}

pub fn props(v: &mut Vec<Prop>) {
    let mut t = vec![];
    for first in 0..OPS {
        task!(t, quick, format!("histories nv=1 first={} length=2", first), histories(1, 2, first, 2, true));
        task!(t, thorough, format!("histories nv=2 first={} length=2", first), histories(2, 2, first, 2, true));
        task!(t, quick, format!("histories nv=1 first={} length=3", first), histories(1, 2, first, 3, false));
        task!(t, thorough, format!("histories nv=1 first={} length=3 free", first), histories(1, 2, first, 3, true));
        task!(t, thorough, format!("histories nv=1 first={} length=4", first), histories(1, 2, first, 4, false));
    }
    for kind in 0..5 {
        task!(t, quick, format!("deep history {} nv=1", kind), deep(1, kind));
        task!(t, quick, format!("deep history {} nv=2", kind), deep(2, kind));
    }
    for (nv, k) in [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)] {
        for virt in 0..3 {
            task!(t, quick, format!("widen front nv={} by {} form {}", nv, k, virt), widen(nv, k, true, virt));
            task!(t, quick, format!("widen back nv={} by {} form {}", nv, k, virt), widen(nv, k, false, virt));
        }
    }
    task!(t, quick, "misuse and copies", discipline(1));
    for seed in 0..4 {
        task!(t, quick, format!("long history {} nv=1", seed), long(1, 14, seed));
        task!(t, quick, format!("long history {} nv=2", seed), long(2, 24, seed));
    }
    for kind in 0..5 {
        task!(t, quick, format!("wide deep nv=4 kind={}", kind), [1, 1, 1] deep(4, kind));
        task!(t, quick, format!("wide deep nv=6 kind={}", kind), [1, 2, 1] deep(6, kind));
    }
    for virt in 0..3 {
        for front in [true, false] {
            task!(t, quick, format!("wide widen nv=3 by 3 front={} virtual={}", front, virt), [1, 1, 1] widen(3, 3, front, virt));
            task!(t, quick, format!("wide widen nv=5 by 1 front={} virtual={}", front, virt), [1, 2, 1] widen(5, 1, front, virt));
        }
    }
    v.push(Prop {
        id: "P11",
        functions: &[
            "ProverTracker::add_polys", "ProverTracker::sub_polys", "ProverTracker::mul_polys", "ProverTracker::add_scalar", "ProverTracker::mul_scalar",
            "ProverTracker::increase_nv_front", "ProverTracker::increase_nv_back", "ProverTracker::materialize_poly", "ProverTracker::evaluate",
            "ProverTracker::evaluations", "ProverTracker::to_arithmatic_virtual_poly", "ProverTracker::get_poly_nv", "ProverTrackerRef::deep_copy", "TrackedPoly",
            "dmle_increase_nv_front", "dmle_increase_nv_back",
        ],
        bounds: "all tables, scalars and points; every history of 2 operations on arbitrary operands and of 3 (4) on the newest polynomial, starting from 2 polynomials of 1 (2) variables; fixed histories of up to 24 operations; widening by up to 2 variables; and tables of 8 to 64 entries of which only some rows are symbolic, the others holding fixed values",
        assumptions: &["ideal commitment scheme"],
        tasks: t,
    });
    let mut t = vec![];
    for first in 0..6 {
        task!(t, quick, format!("mirror nv=1 first={} length=2", first), mirror(1, first, 2, true));
        task!(t, quick, format!("mirror nv=1 first={} length=3", first), mirror(1, first, 3, false));
        task!(t, thorough, format!("mirror nv=2 first={} length=2", first), mirror(2, first, 2, true));
    }
    for seed in 0..4 {
        task!(t, quick, format!("mirror long {} nv=1", seed), mirror_long(1, 14, seed));
        task!(t, quick, format!("mirror long {} nv=2", seed), mirror_long(2, 24, seed));
    }
    for (nv, k, k2) in [(1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 1, 2), (2, 1, 2), (1, 3, 0)] {
        for front in [true, false] {
            for virt in [true, false] {
                task!(t, quick, format!("widen nv={} by {} and {} front={} virtual={}", nv, k, k2, front, virt), mirror_wide(nv, k, k2, front, virt));
            }
        }
    }
    for (nv, k) in [(1, 1), (2, 1), (1, 2)] {
        for front in [true, false] {
            task!(t, quick, format!("widen a product nv={} by {} front={}", nv, k, front), wide_product(nv, k, front, false));
        }
    }
    for which in 0..4 {
        for entry in 0..2 {
            task!(t, quick, format!("challenges depend on commitment {} entry {}", which, entry), comm_binding(1, 4, which, entry));
        }
        task!(t, quick, format!("challenges depend on commitment {} nv=2", which), comm_binding(2, 4, which, which));
    }
    task!(t, quick, "widen a product beyond the hypercube front=true", wide_product(1, 1, true, true));
    task!(t, quick, "widen a product beyond the hypercube front=false", wide_product(1, 1, false, true));
    task!(t, quick, "misuse", verifier_discipline(1));
    for first in 0..6 {
        task!(t, quick, format!("wide mirror nv=3 first={} length=3", first), [1, 1, 2] mirror(3, first, 3, false));
        task!(t, quick, format!("wide mirror nv=5 first={} length=2", first), [1, 2, 2] mirror(5, first, 2, true));
    }
    for (nv, k, k2) in [(3, 2, 2), (4, 1, 3)] {
        for front in [true, false] {
            for virt in [true, false] {
                task!(t, quick, format!("wide widen nv={} by {} and {} front={} virtual={}", nv, k, k2, front, virt), [1, 1, 1] mirror_wide(nv, k, k2, front, virt));
            }
        }
    }
    v.push(Prop {
        id: "P12",
        functions: &[
            "VerifierTracker::track_mat_comm", "VerifierTracker::track_virtual_comm", "VerifierTracker::add_comms", "VerifierTracker::sub_comms", "VerifierTracker::mul_comms",
            "VerifierTracker::add_scalar", "VerifierTracker::mul_scalar", "VerifierTracker::increase_nv_front", "VerifierTracker::increase_nv_back",
            "VerifierTracker::eval_virtual_comm", "VerifierTrackerRef::transfer_prover_comm", "VerifierTracker::transfer_proof_poly_evals", "ProverTracker (same operations)",
        ],
        bounds: "all tables, scalars and points; every history of 2 operations on arbitrary operands and of 3 on the newest, over 2 committed and 1 public polynomial; fixed histories of up to 24 operations; two successive widenings by up to 2 variables; and tables of 8 to 128 entries of which only some rows are symbolic, the others holding fixed values",
        assumptions: &["ideal commitment scheme", "random-oracle challenges"],
        tasks: t,
    });
    let mut t = vec![];
    for kind in 0..SCEN {
        task!(t, quick, format!("true claims, scenario {} top=1", kind), proof_mock(1, kind, false));
        task!(t, quick, format!("true claims, scenario {} top=2", kind), proof_mock(2, kind, false));
        task!(t, quick, format!("false claim, scenario {} top=1", kind), proof_mock(1, kind, true));
        task!(t, quick, format!("true claims, scenario {} top=1 kzg", kind), proof_kzg(1, kind, false));
        task!(t, thorough, format!("true claims, scenario {} top=2 kzg", kind), proof_kzg(2, kind, false));
        task!(t, thorough, format!("true claims, scenario {} top=3", kind), proof_mock(3, kind, false));
        task!(t, thorough, format!("false claim, scenario {} top=2", kind), proof_mock(2, kind, true));
        task!(t, quick, format!("wide true claims, scenario {} top=4", kind), [1, 1, 1] proof_mock(4, kind, false));
        if kind != 11 {
            // (eleven: products of widened tables grow beyond what z3 is given here)
            task!(t, quick, format!("wide true claims, scenario {} top=6", kind), [1, 2, 1] proof_mock(6, kind, false));
        }
        task!(t, quick, format!("wide true claims, scenario {} top=3 kzg", kind), [1, 1, 1] proof_kzg(3, kind, false));
        task!(t, quick, format!("wide false claim, scenario {} top=4", kind), [1, 1, 1] proof_mock(4, kind, true));
    }
    v.push(Prop {
        id: "P13",
        functions: &["ProverTracker::compile_proof", "ProverTracker::equalize_materialized_poly_nv", "ProverTracker::convert_zerocheck_claims_to_sumcheck_claim", "VerifierTracker::verify_claims", "VerifierTracker::convert_zerocheck_claims_to_sumcheck_claim"],
        bounds: "all tables and scalars; fifteen families of claims over up to 6 committed polynomials of up to 2 (3) variables, with the ideal scheme and the KZG scheme; and tables of 8 to 64 entries of which only some rows are symbolic, the others holding fixed values",
        assumptions: &["random-oracle challenges", "claimed sums are stated for the largest number of variables in the proof"],
        tasks: t,
    });
    let mut t = vec![];
    for kind in 0..9 {
        task!(t, quick, format!("acceptance nv=1 claims {}", kind), accept(1, kind, true));
        task!(t, quick, format!("acceptance nv=2 claims {}", kind), accept(2, kind, true));
        task!(t, quick, format!("wide acceptance nv=3 claims {}", kind), [1, 1, 1] accept(3, kind, true));
        task!(t, quick, format!("wide acceptance nv=4 claims {}", kind), [1, 1, 1] accept(4, kind, true));
    }
    task!(t, quick, "acceptance nv=1 claims 9", accept(1, 9, true));
    task!(t, quick, "acceptance nv=2 claims 9", accept(2, 9, true));
    task!(t, quick, "acceptance without the final check", accept(1, 0, false));
    for kind in 0..6 {
        task!(t, quick, format!("malformed proof {} nv=1", kind), malformed(1, kind));
        task!(t, quick, format!("malformed proof {} nv=2", kind), malformed(2, kind));
        task!(t, quick, format!("malformed proof {} nv=4", kind), [1, 1, 1] malformed(4, kind));
    }
    v.push(Prop {
        id: "P14",
        functions: &["VerifierTracker::verify_claims", "VerifierTracker::convert_zerocheck_claims_to_sumcheck_claim", "SumCheck::verify"],
        bounds: "all committed tables, messages, claimed sums and opened values (chosen adaptively); up to 6 claims over 2 commitments of up to 2 variables; and tables of 8 and 16 entries of which only some rows are symbolic, the others holding fixed values",
        assumptions: &["ideal commitment scheme", "random-oracle challenges (Schwartz-Zippel)", "the final value of the sumcheck is the aggregated claim's value (not checked by the code: known finding)"],
        tasks: t,
    });
}
