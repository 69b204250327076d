//! P15.. : the query gadgets. For each gadget two families of tasks:
//!  honest  - the prover's run on inputs that satisfy the relation yields claims that are all true,
//!            and the verifier, given that proof, derives the same claims, challenges and results;
//!  sound   - whatever the prover commits to and claims, if the verifier's checks pass and all the
//!            claims it derives are true, the relation holds.
use crate::checks::tracker::{mock_trackers, t_back, t_front, M, S};
use crate::mock::*;
use crate::task;
use crate::task::{Be, Prop};
use crate::val::*;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{Field, One, Zero};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;
use zk_sql::subroutines::pcs::prelude::*;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hooks::{CompiledZKSQLProof, TrackerID};
use zk_sql::zksql_poly_iop::verif_hooks::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Multi(usize, usize),
    Eq,
    Sum,
    Incl,
    InclAdvice,
    NoZeros,
    SelValid,
    Perm,
    Sort,
    Supp,
    SuppAdvice,
    BagDisj,
    SetDisj,
    Union,
    Diff,
    Inter,
    Cross(usize, usize),
    Index(usize),
    Join(usize, usize, usize, usize),
    Reduce,
    /// columns, grouping column, aggregates (column, sum or count)
    Group(usize, usize, &'static [(usize, bool)]),
    /// one gadget after the other, each on inputs (or earlier results) of the given positions
    Seq(&'static [(K, &'static [usize])]),
}
/// a gadget on committed inputs of given sizes (bag = polynomial then selector)
#[derive(Clone, Debug)]
pub struct G {
    k: K,
    nv: Vec<usize>,
}
type R<T> = Result<T, PolyIOPErrors>;

fn bag<E: Be, P: PolynomialCommitmentScheme<E>>(p: &[TrackedPoly<E, P>], i: usize) -> Bag<E, P> {
    Bag::new(p[i].clone(), p[i + 1].clone())
}
fn tab<E: Be, P: PolynomialCommitmentScheme<E>>(p: &[TrackedPoly<E, P>], i: usize, n: usize) -> Table<E, P> {
    Table::new(p[i..i + n].to_vec(), p[i + n].clone())
}
fn out<E: Be, P: PolynomialCommitmentScheme<E>>(t: Table<E, P>) -> Vec<TrackedPoly<E, P>> {
    let mut v = t.col_vals.clone();
    v.push(t.selector.clone());
    v
}
fn out_c<E: Be, P: PolynomialCommitmentScheme<E>>(t: TableComm<E, P>) -> Vec<TrackedComm<E, P>> {
    let mut v = t.col_vals.clone();
    v.push(t.selector.clone());
    v
}
impl G {
    fn prove<E: Be, P: PolynomialCommitmentScheme<E>>(&self, t: &mut ProverTrackerRef<E, P>, p: &[TrackedPoly<E, P>]) -> R<Vec<TrackedPoly<E, P>>> {
        let none = |r: R<()>| r.map(|_| vec![]);
        match self.k {
            K::Multi(a, b) => {
                let bags: Vec<_> = (0..a + b).map(|i| bag(p, 3 * i)).collect();
                let ms: Vec<_> = (0..a + b).map(|i| p[3 * i + 2].clone()).collect();
                none(BagMultitoolIOP::prove(t, &bags[..a], &bags[a..], &ms[..a], &ms[a..]))
            }
            K::Eq => none(BagEqIOP::prove(t, &bag(p, 0), &bag(p, 2))),
            K::Sum => none(BagSumIOP::prove(t, &bag(p, 0), &bag(p, 2), &bag(p, 4))),
            K::Incl => none(BagInclusionIOP::prove(t, &bag(p, 0), &bag(p, 2))),
            K::InclAdvice => none(BagInclusionIOP::prove_with_advice(t, &bag(p, 0), &bag(p, 2), &p[4])),
            K::NoZeros => none(BagNoZerosIOP::prove(t, &bag(p, 0))),
            K::SelValid => none(SelectorValidIOP::prove(t, &p[0])),
            K::Perm => none(BagPrescPermIOP::prove(t, &bag(p, 0), &bag(p, 2), &p[4])),
            K::Sort => none(BagStrictSortIOP::prove(t, &bag(p, 0), &bag(p, 2))),
            K::Supp => none(BagSuppIOP::prove(t, &bag(p, 0), &bag(p, 2), &bag(p, 4))),
            K::SuppAdvice => none(BagSuppIOP::prove_with_advice(t, &bag(p, 0), &bag(p, 2), &p[6], &bag(p, 4))),
            K::BagDisj => none(BagDisjointIOP::prove(t, &bag(p, 0), &bag(p, 2), &bag(p, 4))),
            K::SetDisj => none(SetDisjointIOP::prove(t, &bag(p, 0), &bag(p, 2), &bag(p, 4))),
            K::Union => none(SetUnionIOP::prove(t, &bag(p, 0), &bag(p, 2), &bag(p, 4), &bag(p, 6))),
            K::Diff => none(SetDiffIOP::prove(t, &bag(p, 0), &bag(p, 2), &bag(p, 4), &bag(p, 6), &p[10], &bag(p, 8))),
            K::Inter => none(SetIntersectIOP::prove(t, &bag(p, 0), &bag(p, 2), &bag(p, 4), &bag(p, 6), &bag(p, 8), &bag(p, 10))),
            K::Cross(a, b) => CrossProductIOP::prover_cross_product(&tab(p, 0, a), &tab(p, a + 1, b)).map(out),
            K::Index(c) => none(IndexTransformIOP::prove(t, &tab(p, 0, c), &tab(p, c + 1, c))),
            K::Join(a, b, i, j) => FinalJoinOneToManyIOP::prove(t, &tab(p, 0, a), &tab(p, a + 1, b), i, j).map(out),
            K::Reduce => none(JoinReductionIOP::prove(t, &bag(p, 0), &bag(p, 2), &p[4], &p[5], &bag(p, 6))),
            K::Group(cols, key, aggs) => {
                // columns, selector, groups, groups' selector, multiplicity, one polynomial per sum, range, its selector
                let table = tab(p, 0, cols);
                let (c, mut next) = (cols + 1, cols + 4);
                let mut agg = vec![];
                for (i, sum) in aggs {
                    let (t, q) = if *sum { (AggregationType::Sum, next) } else { (AggregationType::Count, c + 2) };
                    next += *sum as usize;
                    agg.push((*i, t, p[q].clone()));
                }
                let ins = GroupByInstructionWithProvingAdvice {
                    grouping_cols: vec![key],
                    support_cols: vec![p[c].clone()],
                    support_sel: p[c + 1].clone(),
                    support_multiplicity: p[c + 2].clone(),
                    agg_instr: agg,
                };
                GroupByIOP::prove_with_advice(t, &table, &ins, &bag(p, next)).map(out)
            }
            K::Seq(parts) => {
                let mut v = p.to_vec();
                for (k, idx) in parts {
                    let sub: Vec<_> = idx.iter().map(|i| v[*i].clone()).collect();
                    v.extend(g(*k, &[]).prove(t, &sub)?);
                }
                Ok(v.split_off(p.len()))
            }
        }
    }
    fn verify<E: Be, P: PolynomialCommitmentScheme<E>>(&self, t: &mut VerifierTrackerRef<E, P>, p: &[TrackedComm<E, P>]) -> R<Vec<TrackedComm<E, P>>> {
        let none = |r: R<()>| r.map(|_| vec![]);
        let bag = |i: usize| BagComm::new(p[i].clone(), p[i + 1].clone(), self.nv[i]);
        let tab = |i: usize, n: usize| TableComm::new(p[i..i + n].to_vec(), p[i + n].clone(), self.nv[i]);
        match self.k {
            K::Multi(a, b) => {
                let bags: Vec<_> = (0..a + b).map(|i| bag(3 * i)).collect();
                let ms: Vec<_> = (0..a + b).map(|i| p[3 * i + 2].clone()).collect();
                none(BagMultitoolIOP::verify(t, &bags[..a], &bags[a..], &ms[..a], &ms[a..]))
            }
            K::Eq => none(BagEqIOP::verify(t, &bag(0), &bag(2))),
            K::Sum => none(BagSumIOP::verify(t, &bag(0), &bag(2), &bag(4))),
            K::Incl => none(BagInclusionIOP::verify(t, &bag(0), &bag(2))),
            K::InclAdvice => none(BagInclusionIOP::verify_with_advice(t, &bag(0), &bag(2), &p[4])),
            K::NoZeros => none(BagNoZerosIOP::verify(t, &bag(0))),
            K::SelValid => none(SelectorValidIOP::verify(t, &p[0])),
            K::Perm => none(BagPrescPermIOP::verify(t, &bag(0), &bag(2), &p[4])),
            K::Sort => none(BagStrictSortIOP::verify(t, &bag(0), &bag(2))),
            K::Supp => none(BagSuppIOP::verify(t, &bag(0), &bag(2), &bag(4))),
            K::SuppAdvice => none(BagSuppIOP::verify_with_advice(t, &bag(0), &bag(2), &p[6], &bag(4))),
            K::BagDisj => none(BagDisjointIOP::verify(t, &bag(0), &bag(2), &bag(4))),
            K::SetDisj => none(SetDisjointIOP::verify(t, &bag(0), &bag(2), &bag(4))),
            K::Union => none(SetUnionIOP::verify(t, &bag(0), &bag(2), &bag(4), &bag(6))),
            K::Diff => none(SetDiffIOP::verify(t, &bag(0), &bag(2), &bag(4), &bag(6), &p[10], &bag(8))),
            K::Inter => none(SetIntersectIOP::verify(t, &bag(0), &bag(2), &bag(4), &bag(6), &bag(8), &bag(10))),
            K::Cross(a, b) => CrossProductIOP::verifier_cross_product(&tab(0, a), &tab(a + 1, b)).map(out_c),
            K::Index(c) => none(IndexTransformIOP::verify(t, &tab(0, c), &tab(c + 1, c))),
            K::Join(a, b, i, j) => FinalJoinOneToManyIOP::verify(t, &tab(0, a), &tab(a + 1, b), i, j).map(out_c),
            K::Reduce => none(JoinReductionIOP::verify(t, &bag(0), &bag(2), &p[4], &p[5], &bag(6))),
            K::Group(cols, key, aggs) => {
                let table = tab(0, cols);
                let (c, mut next) = (cols + 1, cols + 4);
                let mut agg = vec![];
                for (i, sum) in aggs {
                    let (t, q) = if *sum { (AggregationType::Sum, next) } else { (AggregationType::Count, c + 2) };
                    next += *sum as usize;
                    agg.push((*i, t, p[q].clone()));
                }
                let ins = GroupByInstructionWithVerifyingAdvice {
                    grouping_cols: vec![key],
                    support_cols: vec![p[c].clone()],
                    support_sel: p[c + 1].clone(),
                    support_multiplicity: p[c + 2].clone(),
                    agg_instr: agg,
                };
                GroupByIOP::verify_with_advice(t, &table, &ins, &bag(next)).map(out_c)
            }
            K::Seq(parts) => {
                let (mut v, mut nv) = (p.to_vec(), self.nv.clone());
                for (k, idx) in parts {
                    let sub: Vec<_> = idx.iter().map(|i| v[*i].clone()).collect();
                    let gd = g(*k, &idx.iter().map(|i| nv[*i]).collect::<Vec<_>>());
                    v.extend(gd.verify(t, &sub)?);
                    nv.resize(v.len(), gd.out_nv());
                }
                Ok(v.split_off(p.len()))
            }
        }
    }
    /// the number of variables of the results
    fn out_nv(&self) -> usize {
        match self.k {
            K::Cross(a, _) => self.nv[0] + self.nv[a + 1],
            K::Join(a, ..) => self.nv[a + 1],
            K::Group(c, ..) => self.nv[c + 1],
            K::Seq(parts) => {
                let (k, idx) = parts.iter().find(|p| matches!(p.0, K::Cross(..) | K::Join(..) | K::Group(..))).unwrap_or(&parts[0]);
                g(*k, &idx.iter().map(|i| self.nv[*i]).collect::<Vec<_>>()).out_nv()
            }
            _ => self.nv[0],
        }
    }
}
fn g(k: K, nv: &[usize]) -> G {
    G { k, nv: nv.to_vec() }
}

// ---------------------------------------------------------------- running both sides
/// what a proof consists of, by identifier
#[derive(Clone, Debug, Default)]
struct Shape {
    comms: BTreeMap<usize, usize>,
    sums: BTreeMap<usize, usize>,
    zeros: BTreeMap<usize, usize>,
    top: usize,
}
fn commit_all<E: Be>(g: &G, t: &[Vec<S<E>>]) -> (ProverTrackerRef<E, M<E>>, Vec<TrackedPoly<E, M<E>>>) {
    assert_eq!(g.nv.len(), t.len(), "{:?}", g);
    let (mut pt, _) = mock_trackers::<E>(*g.nv.iter().max().unwrap());
    let ps = g
        .nv
        .iter()
        .zip(t)
        .map(|(n, f)| {
            assert_eq!(1 << n, f.len(), "{:?}", g);
            must::<S<E>, _, _>("commit", || pt.track_and_commit_poly(mle(*n, f.clone())))
        })
        .collect();
    (pt, ps)
}
fn nv_of<E: Be>(pt: &ProverTrackerRef<E, M<E>>, id: TrackerID) -> usize {
    pt.clone_underlying_tracker().get_poly_nv(id)
}
fn shape_of<E: Be>(pt: &ProverTrackerRef<E, M<E>>) -> Shape {
    let t = pt.clone_underlying_tracker();
    let mut s = Shape::default();
    for id in t.materialized_comms.keys() {
        s.comms.insert(id.0, t.get_poly_nv(*id));
    }
    for c in &t.sum_check_claims {
        s.sums.insert(c.label.0, t.get_poly_nv(c.label));
    }
    for c in &t.zero_check_claims {
        s.zeros.insert(c.label.0, t.get_poly_nv(c.label));
    }
    s.top = s.comms.values().copied().max().unwrap_or(0);
    s
}
/// the structure of the gadget's proofs, learnt from the real prover on an example
fn shape(g: &G, example: &[Vec<u64>]) -> Shape {
    static CACHE: Mutex<Option<HashMap<String, Shape>>> = Mutex::new(None);
    let key = format!("{:?} {:?}", g, example);
    if let Some(s) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return s.clone();
    }
    let t: Vec<Vec<Fr>> = example.iter().map(|v| v.iter().map(|x| Fr::from(*x)).collect()).collect();
    let (mut pt, ps) = commit_all::<Bls12_381>(g, &t);
    if let Err(e) = g.prove(&mut pt, &ps) {
        panic!("example for {:?} is refused: {:?}", g, e);
    }
    let s = shape_of(&pt);
    CACHE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, s.clone());
    s
}
/// answer every query the verifier can make when it evaluates at `pt`
fn answer<E: Be>(vt: &VerifierTrackerRef<E, M<E>>, tables: &BTreeMap<usize, Vec<S<E>>>, pt: &[S<E>]) {
    let t = vt.clone_underlying_tracker();
    let mut q = t.query_map.borrow_mut();
    for (id, f) in tables {
        let n = f.len().trailing_zeros() as usize;
        for a in 0..=pt.len() {
            for b in a..=pt.len() {
                if b - a >= n {
                    let key = (TrackerID(*id), pt[a..b].to_vec());
                    if !q.contains_key(&key) {
                        let v = match cube_index(&pt[b - n..b]) {
                            Some(i) => f[i],
                            None => ref_mle(f, &pt[b - n..b]),
                        };
                        q.insert(key, v);
                    }
                }
            }
        }
    }
}
fn cube_index<F: Val>(p: &[F]) -> Option<usize> {
    let mut i = 0;
    for (k, x) in p.iter().enumerate() {
        let v = x.known()?;
        if v == Fr::one() {
            i |= 1 << k;
        } else if !v.is_zero() {
            return None;
        }
    }
    Some(i)
}
fn table_of<E: Be>(vt: &VerifierTrackerRef<E, M<E>>, tables: &BTreeMap<usize, Vec<S<E>>>, id: TrackerID, nv: usize) -> Vec<S<E>> {
    (0..1usize << nv)
        .map(|i| {
            let x = cube::<S<E>>(i, nv);
            answer(vt, tables, &x);
            let t = vt.clone_underlying_tracker();
            must::<S<E>, _, _>("the verifier evaluates a claim on the hypercube", || t.eval_virtual_comm(id, &x))
        })
        .collect()
}
/// both sides mean the same polynomial, not only the same table: the final check is made at a random point
fn same_beyond<E: Be>(vt: &VerifierTrackerRef<E, M<E>>, tables: &BTreeMap<usize, Vec<S<E>>>, tr: &zk_sql::tracker::verif_hooks::ProverTracker<E, M<E>>, id: TrackerID, nv: usize) {
    for first in [2u64, 11] {
        let x: Vec<S<E>> = (0..nv as u64).map(|i| S::<E>::from(first + 3 * i)).collect();
        answer(vt, tables, &x);
        let v = vt.clone_underlying_tracker();
        let b = must::<S<E>, _, _>("the verifier evaluates a claim", || v.eval_virtual_comm(id, &x));
        let a = must::<S<E>, _, _>("the prover evaluates a claim", || tr.evaluate(id, &x).ok_or(()));
        S::<E>::eq_all("a claim's polynomial agrees beyond the hypercube", a, b);
    }
}
fn pow2<F: Val>(k: usize) -> F {
    F::from(1u64 << k)
}

/// the whole pipeline: commitments, the gadget, the compiled proof, and the verifier's run on it
enum Outcome<T> {
    Refused(&'static str),
    Accepted(T),
}
fn pipeline<E: Be, P: PolynomialCommitmentScheme<E>>(
    g: &G,
    t: &[Vec<S<E>>],
    mut pt: ProverTrackerRef<E, P>,
    mut vt: VerifierTrackerRef<E, P>,
    stop: impl Fn(&[Vec<S<E>>]) -> bool,
) -> Option<Outcome<Vec<Vec<S<E>>>>> {
    let ps: Vec<_> = g.nv.iter().zip(t).map(|(n, f)| must::<S<E>, _, _>("commit", || pt.track_and_commit_poly(mle(*n, f.clone())))).collect();
    let Ok(Ok(outs)) = guard(|| g.prove(&mut pt, &ps)) else { return Some(Outcome::Refused("the prover's run")) };
    let res: Vec<_> = outs.iter().map(|p| p.evaluations()).collect();
    if stop(&res) {
        return None;
    }
    let Ok(Ok(proof)) = guard(|| pt.compile_proof()) else { return Some(Outcome::Refused("the compilation")) };
    vt.set_compiled_proof(proof);
    vt.transfer_proof_poly_evals();
    let cs: Vec<_> = (0..g.nv.len()).map(|i| vt.transfer_prover_comm(TrackerID(i))).collect();
    let Ok(Ok(vouts)) = guard(|| g.verify(&mut vt, &cs)) else { return Some(Outcome::Refused("the verifier's run")) };
    let Ok(Ok(_)) = guard(|| vt.verify_claims()) else { return Some(Outcome::Refused("the verification of the claims")) };
    check::<S<E>>("same number of results", outs.len() == vouts.len());
    let (a, b) = (pt.get_and_append_challenge(b"x").unwrap(), vt.get_and_append_challenge(b"x").unwrap());
    S::<E>::eq_all("transcripts agree after the proof", a, b);
    Some(Outcome::Accepted(res))
}
fn run_pipeline<E: Be>(g: &G, t: &[Vec<S<E>>], stop: impl Fn(&[Vec<S<E>>]) -> bool) -> Option<Outcome<Vec<Vec<S<E>>>>> {
    // some commit to joined bags
    let top = g.out_nv().max(*g.nv.iter().max().unwrap()) + matches!(g.k, K::BagDisj | K::SetDisj | K::Union | K::Diff | K::Inter | K::Reduce) as usize;
    if is_whole() == 1 {
        let (pt, vt) = mock_trackers::<E>(top);
        return pipeline(g, t, pt, vt, stop);
    }
    let s = must::<S<E>, _, _>("SRS generation", || MultilinearKzgPCS::<E>::gen_srs_for_testing(&mut ark_std::test_rng(), top));
    let (pp, vp) = must::<S<E>, _, _>("trim", || MultilinearKzgPCS::<E>::trim(&s, None, Some(top)));
    let pt = ProverTrackerRef::<E, MultilinearKzgPCS<E>>::new_from_pcs_params(pp);
    let vt = VerifierTrackerRef::<E, MultilinearKzgPCS<E>>::new_from_pcs_params(vp);
    pipeline(g, t, pt, vt, stop)
}
/// the honest run; returns the result tables (prover's)
fn honest<E: Be>(g: &G, t: &[Vec<S<E>>]) -> Vec<Vec<S<E>>> {
    if is_whole() > 0 {
        return match run_pipeline::<E>(g, t, |_| false) {
            Some(Outcome::Accepted(r)) => r,
            Some(Outcome::Refused(w)) => {
                check::<S<E>>(&format!("{} on a true statement", w), false);
                vec![]
            }
            None => vec![],
        };
    }
    let (mut pt, ps) = commit_all::<E>(g, t);
    let outs = must::<S<E>, _, _>("the prover's run on a true statement", || g.prove(&mut pt, &ps));
    let mut tr = pt.clone_underlying_tracker();
    let sh = shape_of(&pt);
    let (zc, sc) = (tr.zero_check_claims.clone(), tr.sum_check_claims.clone());
    // the claims are true
    for c in &zc {
        for v in tr.evaluations(c.label) {
            S::<E>::eq_all("a zero claim of the prover vanishes", *v, S::<E>::zero());
        }
    }
    for c in &sc {
        let s: S<E> = tr.evaluations(c.label).iter().sum();
        S::<E>::eq_all("a sum claim of the prover is true", c.claimed_sum, s);
    }
    // the proof as the compiler lays it out
    let mut proof = CompiledZKSQLProof::<E, M<E>>::default();
    let mut tables = BTreeMap::new();
    for (id, c) in &tr.materialized_comms {
        proof.comms.insert(*id, c.clone());
        tables.insert(id.0, c.evals.clone());
    }
    for c in &tr.sum_check_claims {
        proof.sumcheck_claims.insert(c.label, c.claimed_sum * pow2::<S<E>>(sh.top - sh.sums[&c.label.0]));
    }
    proof.sc_aux_info.num_variables = sh.top;
    let (_, mut vt) = mock_trackers::<E>(sh.top);
    vt.set_compiled_proof(proof);
    vt.transfer_proof_poly_evals();
    let cs: Vec<_> = (0..g.nv.len()).map(|i| vt.transfer_prover_comm(TrackerID(i))).collect();
    let vouts = must::<S<E>, _, _>("the verifier's run on the prover's proof", || g.verify(&mut vt, &cs));
    // both sides are in the same state
    let vr = vt.clone_underlying_tracker();
    check::<S<E>>("identifiers agree after the gadget", vr.id_counter == tr.id_counter);
    check::<S<E>>("same zero claims on both sides", vr.zero_check_claims.iter().map(|c| c.label).eq(tr.zero_check_claims.iter().map(|c| c.label)));
    check::<S<E>>("same sum claims on both sides", vr.sum_check_claims.iter().map(|c| c.label).eq(tr.sum_check_claims.iter().map(|c| c.label)));
    for (a, b) in vr.sum_check_claims.iter().zip(&tr.sum_check_claims) {
        S::<E>::eq_all("claimed sums agree", a.claimed_sum, b.claimed_sum * pow2::<S<E>>(sh.top - sh.sums[&b.label.0]));
    }
    let (a, b) = (pt.get_and_append_challenge(b"x").unwrap(), vt.get_and_append_challenge(b"x").unwrap());
    S::<E>::eq_all("transcripts agree after the gadget", a, b);
    // and mean the same polynomials
    let ids = zc.iter().map(|c| c.label).chain(sc.iter().map(|c| c.label));
    for id in ids {
        let nv = nv_of(&pt, id);
        eq_vec("a claim's polynomial agrees", &table_of(&vt, &tables, id, nv), &tr.evaluations(id));
        same_beyond(&vt, &tables, &tr, id, nv);
    }
    check::<S<E>>("same number of results", outs.len() == vouts.len());
    let mut res = vec![];
    for (p, c) in outs.iter().zip(&vouts) {
        let e = p.evaluations();
        eq_vec("a result's polynomial agrees", &table_of(&vt, &tables, c.id, p.num_vars()), &e);
        same_beyond(&vt, &tables, &tr, c.id, p.num_vars());
        res.push(e);
    }
    res
}

/// how a soundness task proceeds
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// assume that the claims hold, then assert the relation
    Direct,
    /// assume that the relation is violated, then show that the claims cannot hold
    Refute,
    /// the prover's own code on any statement (over this many values, if not 0): if it proves a false one, the claims cannot hold
    Attack(usize),
}
use Mode::*;
struct Violated(String);
thread_local! {
    static COLLECT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// part of a relation: asserted, or decided when looking for a violation
fn rel<F: Val>(label: &str, b: bool) {
    if !COLLECT.with(|c| c.get()) {
        return check::<F>(label, b);
    }
    if !b {
        std::panic::panic_any(Violated(label.to_string()))
    }
}
fn rel_eq<F: Val>(label: &str, a: F, b: F) {
    if COLLECT.with(|c| c.get()) {
        rel::<F>(label, a == b)
    } else {
        F::eq_all(label, a, b)
    }
}
fn rel_vec<F: Val>(label: &str, a: &[F], b: &[F]) {
    rel::<F>(label, a.len() == b.len());
    for (x, y) in a.iter().zip(b) {
        rel_eq(label, *x, *y);
    }
}
fn violation(f: impl FnOnce()) -> Option<String> {
    COLLECT.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    COLLECT.with(|c| c.set(false));
    match r {
        Ok(()) => None,
        Err(e) => match e.downcast::<Violated>() {
            Ok(v) => Some(v.0),
            Err(e) => std::panic::resume_unwind(e),
        },
    }
}

fn attack<E: Be>(g: &G, t: &[Vec<S<E>>], relation: impl Fn(&[Vec<S<E>>])) {
    if is_whole() > 0 {
        let broken = std::cell::RefCell::new(None);
        let r = run_pipeline::<E>(g, t, |res| {
            *broken.borrow_mut() = violation(|| relation(res));
            broken.borrow().is_none()
        });
        if let (Some(Outcome::Accepted(_)), Some(l)) = (r, broken.into_inner()) {
            S::<E>::bad(&l);
        }
        return;
    }
    let (mut pt, ps) = commit_all::<E>(g, t);
    let outs = match guard(|| g.prove(&mut pt, &ps)) {
        Ok(Ok(o)) => o,
        _ => return,
    };
    let res: Vec<_> = outs.iter().map(|p| p.evaluations()).collect();
    let bad = match violation(|| relation(&res)) {
        None => return,
        Some(l) => l,
    };
    let mut tr = pt.clone_underlying_tracker();
    let sh = shape_of(&pt);
    let mut proof = CompiledZKSQLProof::<E, M<E>>::default();
    let mut tables = BTreeMap::new();
    for (id, c) in &tr.materialized_comms {
        proof.comms.insert(*id, c.clone());
        tables.insert(id.0, c.evals.clone());
    }
    for c in tr.sum_check_claims.clone() {
        let s: S<E> = tr.evaluations(c.label).iter().sum();
        proof.sumcheck_claims.insert(c.label, s * pow2::<S<E>>(sh.top - sh.sums[&c.label.0]));
    }
    proof.sc_aux_info.num_variables = sh.top;
    let (_, mut vt) = mock_trackers::<E>(sh.top);
    vt.set_compiled_proof(proof);
    vt.transfer_proof_poly_evals();
    let cs: Vec<_> = (0..g.nv.len()).map(|i| vt.transfer_prover_comm(TrackerID(i))).collect();
    match guard(|| g.verify(&mut vt, &cs)) {
        Ok(Ok(_)) => {}
        _ => return,
    }
    let vr = vt.clone_underlying_tracker();
    let mut facts: Vec<Vec<S<E>>> = vec![];
    for c in &vr.zero_check_claims {
        if let Some(nv) = sh.zeros.get(&c.label.0) {
            facts.push(table_of(&vt, &tables, c.label, *nv));
        }
    }
    for c in &vr.sum_check_claims {
        if let Some(nv) = sh.sums.get(&c.label.0) {
            let s: S<E> = table_of(&vt, &tables, c.label, *nv).iter().sum();
            facts.push(vec![c.claimed_sum - s * pow2::<S<E>>(sh.top - nv)]);
        }
    }
    let known: Vec<S<E>> = t.iter().flatten().copied().collect();
    for f in S::<E>::by_size(facts, &known) {
        S::<E>::assume_all(f);
    }
    S::<E>::bad(&bad)
}

/// an arbitrary proof the verifier accepts, with all its claims true, implies the relation
fn sound<E: Be>(mode: Mode, g: &G, example: &[Vec<u64>], t: &[Vec<S<E>>], relation: impl Fn(&[Vec<S<E>>])) {
    if let Attack(_) = mode {
        return attack::<E>(g, t, relation);
    }
    if mode == Direct {
        S::<E>::conditional();
    }
    let sh = shape(g, example);
    let mut proof = CompiledZKSQLProof::<E, M<E>>::default();
    let mut tables: BTreeMap<usize, Vec<S<E>>> = BTreeMap::new();
    for (id, nv) in &sh.comms {
        let f = if *id < t.len() { t[*id].clone() } else { advs(&format!("c{}_", id), 1 << nv) };
        proof.comms.insert(TrackerID(*id), MockComm { nv: *nv as u64, evals: f.clone() });
        tables.insert(*id, f);
    }
    for id in sh.sums.keys() {
        proof.sumcheck_claims.insert(TrackerID(*id), adv(&format!("s{}", id)));
    }
    proof.sc_aux_info.num_variables = sh.top;
    let (_, mut vt) = mock_trackers::<E>(sh.top);
    vt.set_compiled_proof(proof);
    vt.transfer_proof_poly_evals();
    let cs: Vec<_> = (0..g.nv.len()).map(|i| vt.transfer_prover_comm(TrackerID(i))).collect();
    let vouts = match guard(|| g.verify(&mut vt, &cs)) {
        Ok(Ok(o)) => o,
        _ => return,
    };
    let res: Vec<_> = vouts
        .iter()
        .map(|c| {
            let nv = g.out_nv();
            table_of(&vt, &tables, c.id, nv)
        })
        .collect();
    let bad = match mode {
        Refute => match violation(|| relation(&res)) {
            None => return,
            v => v,
        },
        _ => None,
    };
    // the claims the verifier is left with
    let vr = vt.clone_underlying_tracker();
    let claim = |m: &BTreeMap<usize, usize>, id: TrackerID| match m.get(&id.0) {
        Some(n) => *n,
        None => {
            S::<E>::bad("the verifier makes a claim the prover does not");
            0
        }
    };
    let mut facts: Vec<Vec<S<E>>> = vec![];
    for c in &vr.zero_check_claims {
        let nv = claim(&sh.zeros, c.label);
        facts.push(table_of(&vt, &tables, c.label, nv));
    }
    for c in &vr.sum_check_claims {
        let nv = claim(&sh.sums, c.label);
        let s: S<E> = table_of(&vt, &tables, c.label, nv).iter().sum();
        facts.push(vec![c.claimed_sum - s * pow2::<S<E>>(sh.top - nv)]);
    }
    let known: Vec<S<E>> = t.iter().flatten().copied().collect();
    for f in S::<E>::by_size(facts, &known) {
        S::<E>::assume_all(f);
    }
    match bad {
        None => {
            S::<E>::reached();
            relation(&res)
        }
        Some(l) => S::<E>::bad(&l),
    }
}

// ---------------------------------------------------------------- relations
/// known to be zero on this path
fn nil<F: Val>(k: &F) -> bool {
    k.known().map_or(false, |c| c.is_zero())
}
/// total weight of a value in a bag
fn weight<F: Val>(v: F, p: &[F], w: &[F]) -> F {
    let mut s = F::zero();
    for (x, k) in p.iter().zip(w) {
        if !nil(k) && *x == v {
            s += *k;
        }
    }
    s
}
fn prod<F: Val>(a: &[F], b: &[F]) -> Vec<F> {
    a.iter().zip(b).map(|(x, y)| *x * *y).collect()
}
/// the weighted bags l and r agree on every value
fn same_weights<F: Val>(label: &str, l: &[(&[F], &[F])], r: &[(&[F], &[F])]) {
    let vals: Vec<F> = l.iter().chain(r).flat_map(|(p, w)| p.iter().zip(*w).filter(|(_, k)| !nil(*k)).map(|(x, _)| *x)).collect();
    let mut seen: Vec<F> = vec![];
    for v in vals {
        if seen.iter().any(|u| *u == v) {
            continue;
        }
        seen.push(v);
        let side = |b: &[(&[F], &[F])]| b.iter().map(|(p, w)| weight(v, p, w)).sum::<F>();
        rel_eq(label, side(l), side(r));
    }
}
fn active<F: Val>(p: &[F], s: &[F]) -> Vec<F> {
    p.iter().zip(s).filter(|(_, k)| !k.is_zero()).map(|(x, _)| *x).collect()
}
fn included<F: Val>(label: &str, a: &[F], b: &[F]) {
    for x in a {
        rel::<F>(label, b.iter().any(|y| y == x));
    }
}
fn apart<F: Val>(label: &str, a: &[F], b: &[F]) {
    for x in a {
        rel::<F>(label, b.iter().all(|y| y != x));
    }
}
fn distinct<F: Val>(label: &str, a: &[F]) {
    for i in 0..a.len() {
        for j in 0..i {
            rel::<F>(label, a[i] != a[j]);
        }
    }
}
fn boolean<F: Val>(label: &str, s: &[F]) {
    for x in s {
        rel_eq(label, *x * (F::one() - *x), F::zero());
    }
}
fn ones<F: Val>(nv: usize) -> Vec<F> {
    vec![F::one(); 1 << nv]
}
fn ramp<F: Val>(nv: usize) -> Vec<F> {
    (0..1u64 << nv).map(F::from).collect()
}
fn perm_of<F: Val>(name: &str, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|i| left.remove(pick::<F>(&format!("{}{}", name, i), n - i, 7 * i + 1))).collect()
}
fn at<F: Val>(v: &[F], p: &[usize]) -> Vec<F> {
    p.iter().map(|i| v[*i]).collect()
}
fn ex(n: usize, v: u64) -> Vec<u64> {
    vec![v; 1 << n]
}
fn ramp_ex(n: usize) -> Vec<u64> {
    (0..1u64 << n).collect()
}
include!("gadget_tasks.rs");
