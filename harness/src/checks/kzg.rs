//! P08 commitments and openings, P09 opening soundness, P10 batch opening.
use crate::task;
use crate::task::{Be, Prop};
use crate::val::*;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup, Group};
use ark_ff::{One, Zero};
use std::sync::Arc;
use zk_sql::subroutines::pcs::prelude::*;
use zk_sql::subroutines::pcs::StructuredReferenceString;
use zk_sql::subroutines::poly_iop::structs::{IOPProof, IOPProverMessage};
use zk_sql::transcript::IOPTranscript;

type S<E> = <E as Pairing>::ScalarField;
type K<E> = MultilinearKzgPCS<E>;
type Srs<E> = MultilinearUniversalParams<E>;

fn srs<E: Be>(n: usize) -> Srs<E> {
    must::<S<E>, _, _>("SRS generation", || K::<E>::gen_srs_for_testing(&mut ark_std::test_rng(), n))
}
fn keys<E: Be>(s: &Srs<E>, n: usize) -> (MultilinearProverParam<E>, MultilinearVerifierParam<E>) {
    must::<S<E>, _, _>("trim", || K::<E>::trim(s, None, Some(n)))
}
fn com<E: Be>(ck: &MultilinearProverParam<E>, f: &[S<E>]) -> Commitment<E> {
    let nv = f.len().trailing_zeros() as usize;
    must::<S<E>, _, _>("commit", || K::<E>::commit(ck, &mle(nv, f.to_vec())))
}
fn gmul<E: Be>(p: E::G1Affine, s: S<E>) -> E::G1 {
    p.into_group() * s
}
/// a group element the adversary can build from what it has seen
fn combo<E: Be>(name: &str, basis: &[E::G1Affine]) -> E::G1Affine {
    let mut a = E::G1::zero();
    for (i, p) in basis.iter().enumerate() {
        a += gmul::<E>(*p, adv(&format!("{}_{}", name, i)));
    }
    a.into_affine()
}
fn basis<E: Be>(s: &Srs<E>) -> Vec<E::G1Affine> {
    s.prover_param.powers_of_g.iter().flat_map(|p| p.evals.iter().copied()).collect()
}
fn verify<E: Be>(vk: &MultilinearVerifierParam<E>, c: &Commitment<E>, x: &[S<E>], v: S<E>, p: &MultilinearKzgProof<E>) -> bool {
    matches!(guard(|| K::<E>::verify(vk, c, x, &v, p)), Ok(Ok(true)))
}

fn structure<E: Be>(n: usize) {
    let s = srs::<E>(n);
    let p = &s.prover_param;
    check::<S<E>>("parameters: sizes", p.num_vars == n && p.powers_of_g.len() == n + 1 && s.h_mask.len() == n);
    check::<S<E>>("parameters: generators are not trivial", !p.g.is_zero() && !p.h.is_zero());
    for i in 0..=n {
        check::<S<E>>("parameters: level size", p.powers_of_g[i].evals.len() == 1 << (n - i));
    }
    check::<S<E>>("parameters: last level is the generator", p.powers_of_g[n].evals[0] == p.g);
    for i in 0..n {
        let (lo, hi) = (&p.powers_of_g[i].evals, &p.powers_of_g[i + 1].evals);
        for r in 0..hi.len() {
            check::<S<E>>("parameters: level is the marginal of the one below", lo[2 * r].into_group() + lo[2 * r + 1].into_group() == hi[r].into_group());
            check::<S<E>>("parameters: level uses the masked trapdoor", E::pairing(lo[2 * r + 1], p.h) == E::pairing(hi[r], s.h_mask[i]));
        }
    }
    for i in 0..n {
        check::<S<E>>("parameters: trapdoors are not trivial", !s.h_mask[i].is_zero() && s.h_mask[i] != p.h);
        for j in 0..i {
            check::<S<E>>("parameters: trapdoors are independent", s.h_mask[i] != s.h_mask[j]);
        }
    }
    check::<S<E>>("pairing is not degenerate", E::pairing(p.g, p.h) != PairingOutput::<E>::zero());
    for m in 0..=n {
        let (ck, vk) = keys::<E>(&s, m);
        let (ck2, vk2) = (s.extract_prover_param(m), s.extract_verifier_param(m));
        check::<S<E>>("trimmed sizes", ck.num_vars == m && vk.num_vars == m && ck.powers_of_g.len() == m + 1 && vk.h_mask.len() == m);
        check::<S<E>>("trim and extract agree on sizes", ck2.num_vars == m && vk2.num_vars == m && ck2.powers_of_g.len() == m + 1);
        for (a, b) in ck.powers_of_g.iter().zip(&p.powers_of_g[n - m..]) {
            check::<S<E>>("trimmed prover key is the tail", a.evals == b.evals);
        }
        for (a, b) in ck2.powers_of_g.iter().zip(&p.powers_of_g[n - m..]) {
            check::<S<E>>("extracted prover key is the tail", a.evals == b.evals);
        }
        check::<S<E>>("trimmed verifier key is the tail", vk.h_mask == s.h_mask[n - m..] && vk2.h_mask == s.h_mask[n - m..]);
        check::<S<E>>("generators are kept", ck.g == p.g && ck.h == p.h && vk.g == p.g && vk.h == p.h && ck2.g == p.g && ck2.h == p.h && vk2.g == p.g && vk2.h == p.h);
    }
    refuses::<S<E>, _, _>("trim beyond the parameters", || K::<E>::trim(&s, None, Some(n + 1)));
    refuses::<S<E>, _, _>("trim without a size", || K::<E>::trim(&s, None, None));
    refuses::<S<E>, _, _>("trim with a univariate degree", || K::<E>::trim(&s, Some(1), Some(n)));
    refuses::<S<E>, _, _>("parameters for no variables", || K::<E>::gen_srs_for_testing(&mut ark_std::test_rng(), 0));
}
fn complete<E: Be>(n0: usize, n: usize, m: usize) {
    let s = srs::<E>(n0);
    let (ck, vk) = keys::<E>(&s, n);
    let f: Vec<S<E>> = vars("f", 1 << m);
    let x: Vec<S<E>> = vars("x", m);
    let c = com::<E>(&ck, &f);
    // the commitment is the polynomial at the trapdoor
    let mut e = E::G1::zero();
    for (b, v) in f.iter().enumerate() {
        e += gmul::<E>(s.prover_param.powers_of_g[n0 - m].evals[b], *v);
    }
    check::<S<E>>("commitment is the polynomial at the trapdoor", e.into_affine() == c.0);
    let poly = mle(m, f.clone());
    let (proof, v) = must::<S<E>, _, _>("open", || K::<E>::open(&ck, &poly, &x));
    S::<E>::eq_all("opened value is the polynomial's value", v, ref_mle(&f, &x));
    check::<S<E>>("one proof element per variable", proof.proofs.len() == m);
    let ok = must::<S<E>, _, _>("verify of an honest opening", || K::<E>::verify(&vk, &c, &x, &v, &proof));
    check::<S<E>>("an honest opening is accepted", ok);
    let d: S<E> = var("d");
    S::<E>::assume_bool(!d.is_zero());
    check::<S<E>>("an honest proof is accepted with another value", !verify::<E>(&vk, &c, &x, v + d, &proof));
    if m > 0 {
        let mut f2 = f.clone();
        f2[(1 << m) - 1] += d;
        let c2 = com::<E>(&ck, &f2);
        check::<S<E>>("different polynomials have the same commitment", c2 != c);
        check::<S<E>>("a proof is accepted for another polynomial's commitment", !verify::<E>(&vk, &c2, &x, v, &proof));
        refuses::<S<E>, _, _>("opening at a point that is too short", || K::<E>::open(&ck, &poly, &x[..m - 1]));
    }
    let long = [&x[..], &[d]].concat();
    refuses::<S<E>, _, _>("opening at a point that is too long", || K::<E>::open(&ck, &poly, &long));
    if m == n {
        refuses::<S<E>, _, _>("verification at a point beyond the parameters", || K::<E>::verify(&vk, &c, &long, &v, &proof));
        let big = mle(m + 1, [&f[..], &f[..]].concat());
        refuses::<S<E>, _, _>("commitment beyond the parameters", || K::<E>::commit(&ck, &big));
        refuses::<S<E>, _, _>("opening beyond the parameters", || K::<E>::open(&ck, &big, &long));
    } else {
        // a polynomial that ignores its first variable has the commitment of the smaller one
        let wide: Vec<S<E>> = f.iter().flat_map(|v| [*v, *v]).collect();
        check::<S<E>>("adding an unused first variable changes the commitment", com::<E>(&ck, &wide) == c);
    }
}
fn algebra<E: Be>(n: usize, m: usize) {
    let s = srs::<E>(n);
    let (ck, _) = keys::<E>(&s, n);
    let (f, g): (Vec<S<E>>, Vec<S<E>>) = (vars("f", 1 << m), vars("g", 1 << m));
    let (a, b): (S<E>, S<E>) = (var("a"), var("b"));
    let (cf, cg) = (com::<E>(&ck, &f), com::<E>(&ck, &g));
    let h: Vec<S<E>> = f.iter().zip(&g).map(|(x, y)| a * x + b * y).collect();
    check::<S<E>>("commitments are linear", com::<E>(&ck, &h).0.into_group() == gmul::<E>(cf.0, a) + gmul::<E>(cg.0, b));
    if cf == cg {
        eq_vec("equal commitments, equal polynomials", &f, &g);
    }
}
/// whatever the proof elements, an accepted value is the polynomial's value
fn sound<E: Be>(n: usize, m: usize, len: usize) {
    let s = srs::<E>(n);
    let (ck, vk) = keys::<E>(&s, n);
    let f: Vec<S<E>> = vars("f", 1 << n);
    let x: Vec<S<E>> = vars("x", m);
    let v: S<E> = adv("v");
    let c = com::<E>(&ck, &f);
    let b = basis::<E>(&s);
    let proof = MultilinearKzgProof { proofs: (0..len).map(|i| combo::<E>(&format!("p{}", i), &b)).collect() };
    if verify::<E>(&vk, &c, &x, v, &proof) {
        // the unused leading variables do not matter
        for k in 0..1usize << (n - m) {
            let pt = [&cube(k, n - m)[..], &x[..]].concat();
            S::<E>::eq_all("an accepted value is not the polynomial's value", v, ref_mle(&f, &pt));
        }
    }
}
/// one commitment, one point: one value
fn binding<E: Be>(n: usize, m: usize) {
    let s = srs::<E>(n);
    let (_, vk) = keys::<E>(&s, n);
    let b = basis::<E>(&s);
    let c = Commitment(combo::<E>("c", &b));
    let x: Vec<S<E>> = vars("x", m);
    let (v, w): (S<E>, S<E>) = (adv("v"), adv("w"));
    let p = |t: &str| MultilinearKzgProof { proofs: (0..m).map(|i| combo::<E>(&format!("{}{}", t, i), &b)).collect() };
    if verify::<E>(&vk, &c, &x, v, &p("p")) && verify::<E>(&vk, &c, &x, w, &p("q")) {
        S::<E>::eq_all("one commitment is opened to two values", v, w);
    }
}

// ---- batch opening ----
fn start<F: Val>() -> IOPTranscript<F> {
    let mut t = IOPTranscript::new(b"batch");
    let x: F = var("ctx");
    t.append_field_element(b"context", &x).unwrap();
    t
}
struct Batch<E: Be> {
    ck: MultilinearProverParam<E>,
    vk: MultilinearVerifierParam<E>,
    srs: Srs<E>,
    fs: Vec<Vec<S<E>>>,
    polys: Vec<Arc<ark_poly::DenseMultilinearExtension<S<E>>>>,
    pts: Vec<Vec<S<E>>>,
    comms: Vec<Commitment<E>>,
    vals: Vec<S<E>>,
}
/// points 3, 4, .. are constants, as are most entries of the polynomials opened there
fn batch<E: Be>(n: usize, m: usize, share: &[usize]) -> Batch<E> {
    let k = |j: usize| if j < 3 { usize::MAX } else { 0 };
    let srs = srs::<E>(n);
    let (ck, vk) = keys::<E>(&srs, n);
    let fs: Vec<Vec<S<E>>> = share.iter().enumerate().map(|(i, j)| spread(&format!("f{}_", i), 1 << m, k(*j).max(1))).collect();
    let polys: Vec<_> = fs.iter().map(|f| Arc::new(mle(m, f.clone()))).collect();
    let pts: Vec<Vec<S<E>>> = share.iter().map(|j| spread(&format!("x{}_", j), m, k(*j))).collect();
    let comms = fs.iter().map(|f| com::<E>(&ck, f)).collect();
    let vals = fs.iter().zip(&pts).map(|(f, x)| ref_mle(f, x)).collect();
    Batch { ck, vk, srs, fs, polys, pts, comms, vals }
}
fn accepted<E: Be>(b: &Batch<E>, comms: &[Commitment<E>], pts: &[Vec<S<E>>], p: &BatchProof<E, K<E>>) -> bool {
    matches!(guard(|| K::<E>::batch_verify(&b.vk, comms, pts, p, &mut start())), Ok(Ok(true)))
}
fn batch_complete<E: Be>(n: usize, m: usize, share: &'static [usize]) {
    let b = batch::<E>(n, m, share);
    let mut t = start::<S<E>>();
    let proof = must::<S<E>, _, _>("batch open", || K::<E>::multi_open(&b.ck, &b.polys, &b.pts, &b.vals, &mut t));
    eq_vec("the proof carries the values", &proof.f_i_eval_at_point_i, &b.vals);
    let mut u = start::<S<E>>();
    let ok = must::<S<E>, _, _>("verify of an honest batch opening", || K::<E>::batch_verify(&b.vk, &b.comms, &b.pts, &proof, &mut u));
    check::<S<E>>("an honest batch opening is accepted", ok);
    let (x, y) = (t.get_and_append_challenge(b"end").unwrap(), u.get_and_append_challenge(b"end").unwrap());
    S::<E>::eq_all("transcripts agree afterwards", x, y);
}
/// honest proof, altered statement
fn batch_altered<E: Be>(n: usize, m: usize, share: &'static [usize], i: usize) {
    let b = batch::<E>(n, m, share);
    let proof = must::<S<E>, _, _>("batch open", || K::<E>::multi_open(&b.ck, &b.polys, &b.pts, &b.vals, &mut start()));
    let d: S<E> = var("d");
    S::<E>::assume_bool(!d.is_zero());
    let mut p = proof.clone();
    p.f_i_eval_at_point_i[i] += d;
    check::<S<E>>("an honest batch proof is accepted with another value", !accepted::<E>(&b, &b.comms, &b.pts, &p));
    let mut f = b.fs[i].clone();
    f[(1 << m) - 1] += d;
    let mut cs = b.comms.clone();
    cs[i] = com::<E>(&b.ck, &f);
    check::<S<E>>("an honest batch proof is accepted for another polynomial", !accepted::<E>(&b, &cs, &b.pts, &proof));
    // statements and proofs of different lengths
    if share.len() > 1 {
        let mut p = proof.clone();
        p.f_i_eval_at_point_i.pop();
        check::<S<E>>("a batch proof with a missing value is accepted", !accepted::<E>(&b, &b.comms, &b.pts, &p));
        check::<S<E>>("a batch proof is accepted with a missing point", !accepted::<E>(&b, &b.comms, &b.pts[..share.len() - 1], &proof));
        check::<S<E>>("a batch proof is accepted with a missing commitment", !accepted::<E>(&b, &b.comms[..share.len() - 1], &b.pts, &proof));
    }
}
fn batch_sound<E: Be>(n: usize, m: usize, share: &'static [usize], honest_claims: bool) {
    let b = batch::<E>(n, m, share);
    let basis = basis::<E>(&b.srs);
    let vals: Vec<S<E>> = advs("v", share.len());
    let _ = honest_claims;
    let proof = BatchProof::<E, K<E>>::verif_new(
        IOPProof { point: advs("pt", m), proofs: (0..m).map(|i| IOPProverMessage::verif_new(advs(&format!("m{}_", i), 3))).collect() },
        vals.clone(),
        MultilinearKzgProof { proofs: (0..m).map(|i| combo::<E>(&format!("p{}", i), &basis)).collect() },
    );
    if accepted::<E>(&b, &b.comms, &b.pts, &proof) {
        eq_vec("an accepted batch value is not the polynomial's value", &vals, &b.vals);
    }
}

pub fn props(v: &mut Vec<Prop>) {
    let mut t = vec![];
    for n in 1..=6 {
        if n < 6 {
            task!(t, quick, format!("parameters n={}", n), structure(n));
        } else {
            task!(t, thorough, format!("parameters n={}", n), structure(n));
        }
    }
    for n0 in 1..=4 {
        for n in 0..=n0 {
            for m in 0..=n {
                task!(t, quick, format!("open n0={} n={} m={}", n0, n, m), complete(n0, n, m));
            }
        }
    }
    for m in 0..=5 {
        task!(t, quick, format!("open n0=5 n=5 m={}", m), complete(5, 5, m));
        task!(t, thorough, format!("open n0=6 n=5 m={}", m), complete(6, 5, m));
    }
    task!(t, thorough, "open n0=6 n=6 m=6", complete(6, 6, 6));
    for (n, m) in [(1, 0), (1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 4), (5, 3), (5, 5), (6, 6)] {
        task!(t, quick, format!("linearity n={} m={}", n, m), algebra(n, m));
    }
    v.push(Prop {
        id: "P08",
        functions: &[
            "MultilinearKzgPCS::gen_srs_for_testing",
            "MultilinearKzgPCS::trim",
            "StructuredReferenceString::extract_prover_param",
            "StructuredReferenceString::extract_verifier_param",
            "MultilinearKzgPCS::commit",
            "MultilinearKzgPCS::open",
            "MultilinearKzgPCS::verify",
            "eq_extension",
            "remove_dummy_variable",
        ],
        bounds: "all tables, points, values and trapdoors; parameters of up to 5 (6) variables, every trimming and polynomial size; linearity to 6 variables",
        assumptions: &["group elements are their discrete logarithms over independent random trapdoors (generic group)"],
        tasks: t,
    });
    let mut t = vec![];
    for (n, m) in [(1, 0), (1, 1), (2, 0), (2, 1), (2, 2)] {
        for len in 0..=m + 1 {
            task!(t, quick, format!("sound n={} m={} proof elements={}", n, m, len), sound(n, m, len));
        }
        task!(t, quick, format!("binding n={} m={}", n, m), binding(n, m));
    }
    for (n, m) in [(3, 0), (3, 1), (3, 2), (3, 3)] {
        task!(t, quick, format!("sound n={} m={}", n, m), sound(n, m, m));
        task!(t, quick, format!("binding n={} m={}", n, m), binding(n, m));
    }
    for (n, m) in [(4, 2), (4, 4), (5, 5)] {
        task!(t, thorough, format!("sound n={} m={}", n, m), sound(n, m, m));
        task!(t, thorough, format!("binding n={} m={}", n, m), binding(n, m));
    }
    v.push(Prop {
        id: "P09",
        functions: &["MultilinearKzgPCS::verify", "MultilinearKzgPCS::commit", "MultilinearKzgPCS::gen_srs_for_testing", "MultilinearKzgPCS::trim"],
        bounds: "all polynomials, points, values and proofs made of linear combinations of the parameters; polynomials of up to 3 variables under parameters of up to 3 (thorough: 5), proofs of 0 to m+1 elements",
        assumptions: &["algebraic group model: the adversary outputs combinations of the published G1 elements; trapdoors are transcendental"],
        tasks: t,
    });
    let mut t = vec![];
    const SH: [&[usize]; 12] = [
        &[0],
        &[0, 1],
        &[0, 0],
        &[0, 1, 2],
        &[0, 1, 0],
        &[0, 0, 0],
        &[0, 1, 1],
        &[0, 1, 2, 3],
        &[1, 0, 1, 0, 1],
        &[0, 1, 2, 0, 1, 2],
        &[0, 0, 0, 0, 0, 0, 0],
        &[3, 3, 2, 2, 1, 1, 0, 0, 3],
    ];
    for (i, sh) in SH.into_iter().enumerate() {
        for (n, m) in [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3)] {
            let distinct = sh.iter().max().unwrap() + 1;
            if m == 3 && distinct > 3 {
                continue;
            }
            if (m < 3 && (sh.len() < 4 || m < 2)) || (m == 3 && distinct < 3) {
                task!(t, quick, format!("complete n={} m={} points {:?}", n, m, sh), batch_complete(n, m, sh));
            } else {
                task!(t, thorough, format!("complete n={} m={} points {:?}", n, m, sh), batch_complete(n, m, sh));
            }
        }
        if i < 7 {
            for j in 0..sh.len() {
                task!(t, quick, format!("altered points {:?} position {}", sh, j), batch_altered(1, 1, sh, j));
            }
            task!(t, quick, format!("sound n=1 m=1 points {:?}", sh), batch_sound(1, 1, sh, false));
            task!(t, quick, format!("sound n=2 m=1 points {:?}", sh), batch_sound(2, 1, sh, false));
            task!(t, quick, format!("sound n=2 m=2 points {:?}", sh), batch_sound(2, 2, sh, false));
            task!(t, thorough, format!("sound n=3 m=3 points {:?}", sh), batch_sound(3, 3, sh, false));
            for j in 0..sh.len() {
                task!(t, thorough, format!("altered points {:?} position {} m=2", sh, j), batch_altered(2, 2, sh, j));
            }
        } else {
            task!(t, thorough, format!("sound n=1 m=1 points {:?}", sh), batch_sound(1, 1, sh, false));
        }
    }
    v.push(Prop {
        id: "P10",
        functions: &["multi_open_internal", "batch_verify_internal", "MultilinearKzgPCS::multi_open", "MultilinearKzgPCS::batch_verify", "SumCheck::prove", "SumCheck::verify"],
        bounds: "all polynomials, points (shared or distinct), values and adversarial proofs; batches of 1 to 9 polynomials of up to 3 variables in 12 patterns of shared and distinct points (soundness: batches of up to 3 (quick) and 9 (thorough))",
        assumptions: &[
            "commitments and points are fixed before the batch challenge is drawn (the caller absorbs or derives them)",
            "algebraic group model; random-oracle challenges (Schwartz-Zippel)",
        ],
        tasks: t,
    });
}
