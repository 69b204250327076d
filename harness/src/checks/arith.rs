//! P01 multilinear evaluation / fixing, P02 virtual polynomials, P03 eq polynomial and indices.
use crate::task;
use crate::task::{Be, Prop};
use crate::val::*;
use ark_ff::{One, Zero};
use ark_poly::{MultilinearExtension, Polynomial};
use ark_std::rand::SeedableRng;
use std::sync::Arc;
use zk_sql::arithmetic as ar;
use zk_sql::arithmetic::VirtualPolynomial;

const ALL: usize = usize::MAX;
type Mle<F> = ark_poly::DenseMultilinearExtension<F>;

fn mle_eval<E: Be>(nv: usize, fk: usize, xk: usize) {
    let f: Vec<E::ScalarField> = spread("f", 1 << nv, fk);
    let x: Vec<E::ScalarField> = spread("x", nv, xk);
    let p = mle(nv, f.clone());
    let want = ref_mle(&f, &x);
    E::ScalarField::eq_all("evaluate_opt is the multilinear extension", ar::evaluate_opt(&p, &x), want);
    E::ScalarField::eq_all("evaluate_no_par is the multilinear extension", ar::evaluate_no_par(&p, &x), want);
    check::<E::ScalarField>("evaluation leaves the polynomial alone", p.num_vars == nv);
    eq_vec("evaluation leaves the table alone", &p.evaluations, &f);
    for b in (0..1usize << nv).step_by(1 + (1 << nv) / 100) {
        let y = cube::<E::ScalarField>(b, nv);
        E::ScalarField::eq_all("agrees with the table on the hypercube", ar::evaluate_opt(&p, &y), f[b]);
        E::ScalarField::eq_all("agrees with the table on the hypercube (no_par)", ar::evaluate_no_par(&p, &y), f[b]);
    }
}
fn mle_fix<E: Be>(nv: usize, k: usize, fk: usize, xk: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let f: Vec<Fx<E>> = spread("f", 1 << nv, fk);
    let x: Vec<Fx<E>> = spread("x", k, xk);
    let p = mle(nv, f.clone());
    let g = ar::fix_variables(&p, &x);
    check::<Fx<E>>("fix_variables: number of variables", g.num_vars == nv - k);
    let want: Vec<Fx<E>> = (0..1usize << (nv - k)).map(|b| ref_mle(&f, &[x.clone(), cube(b, nv - k)].concat())).collect();
    eq_vec("fix_variables restricts the first variables", &g.evaluations, &want);
    let wl: Vec<Fx<E>> = (0..1usize << (nv - k)).map(|b| ref_mle(&f, &[cube(b, nv - k), x.clone()].concat())).collect();
    let h = ar::fix_last_variables(&p, &x);
    check::<Fx<E>>("fix_last_variables: number of variables", h.num_vars == nv - k);
    eq_vec("fix_last_variables restricts the last variables", &h.evaluations, &wl);
    if k > 0 {
        let h = ar::fix_last_variables_no_par(&p, &x);
        check::<Fx<E>>("fix_last_variables_no_par: number of variables", h.num_vars == nv - k);
        eq_vec("fix_last_variables_no_par restricts the last variables", &h.evaluations, &wl);
    }
    eq_vec("fixing leaves the table alone", &p.evaluations, &f);
    // fixing in two steps is fixing at once
    for j in 0..=k {
        let a = ar::fix_variables(&ar::fix_variables(&p, &x[..j]), &x[j..]);
        eq_vec("fix_variables in two steps", &a.evaluations, &want);
        let a = ar::fix_last_variables(&ar::fix_last_variables(&p, &x[k - j..]), &x[..k - j]);
        eq_vec("fix_last_variables in two steps", &a.evaluations, &wl);
    }
}
fn mle_bad_len<E: Be>(nv: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let p = mle(nv, vars::<Fx<E>>("f", 1 << nv));
    for l in 0..nv + 3 {
        let x: Vec<Fx<E>> = vars("x", l);
        if l != nv {
            refuses::<Fx<E>, _, ()>("evaluate_opt accepts a point of the wrong length", || Ok(ar::evaluate_opt(&p, &x)));
            refuses::<Fx<E>, _, ()>("evaluate_no_par accepts a point of the wrong length", || Ok(ar::evaluate_no_par(&p, &x)));
        }
        if l > nv {
            refuses::<Fx<E>, _, ()>("fix_variables accepts a too long point", || Ok(ar::fix_variables(&p, &x)));
            refuses::<Fx<E>, _, ()>("fix_last_variables accepts a too long point", || Ok(ar::fix_last_variables(&p, &x)));
        }
    }
}
fn merge<E: Be>(nv: usize, k: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let fs: Vec<Vec<Fx<E>>> = (0..k).map(|i| vars(&format!("f{}_", i), 1 << nv)).collect();
    let x: Vec<Fx<E>> = vars("x", nv);
    let ps: Vec<Arc<Mle<Fx<E>>>> = fs.iter().map(|f| Arc::new(mle(nv, f.clone()))).collect();
    let m = must::<Fx<E>, _, _>("merge_polynomials", || ar::merge_polynomials(&ps));
    let mut il = 0;
    while (1usize << il) < k {
        il += 1;
    }
    check::<Fx<E>>("get_batched_nv", ar::get_batched_nv(nv, k) == nv + il);
    check::<Fx<E>>("merged number of variables", m.num_vars == nv + il);
    for i in 0..1usize << il {
        let pt = ar::gen_eval_point(i, il, &x);
        check::<Fx<E>>("gen_eval_point length", pt.len() == nv + il);
        let want = if i < k { ref_mle(&fs[i], &x) } else { Fx::<E>::zero() };
        Fx::<E>::eq_all("merged polynomial at the selected slice", ref_mle(&m.evaluations, &pt), want);
    }
    let odd = Arc::new(mle(nv + 1, vars::<Fx<E>>("g", 2 << nv)));
    for at in 0..=k {
        let mut qs = ps.clone();
        qs.insert(at, odd.clone());
        refuses::<Fx<E>, _, _>("merge_polynomials accepts different numbers of variables", || ar::merge_polynomials(&qs));
    }
}

// ---------------- P02 ----------------
/// a virtual polynomial built by a sequence of additions, with its reference products
struct Vp<F: Val> {
    p: VirtualPolynomial<F>,
    r: Vec<(F, Vec<usize>)>,
}
fn vp_ref<F: Val>(r: &[(F, Vec<usize>)], fs: &[Vec<F>], x: &[F]) -> F {
    let es: Vec<F> = fs.iter().map(|f| ref_mle(f, x)).collect();
    let mut s = F::zero();
    for (c, ix) in r {
        let mut t = *c;
        for i in ix {
            t *= es[*i];
        }
        s += t;
    }
    s
}
fn vp_table<F: Val>(r: &[(F, Vec<usize>)], fs: &[Vec<F>], b: usize) -> F {
    let mut s = F::zero();
    for (c, ix) in r {
        let mut t = *c;
        for i in ix {
            t *= fs[*i][b];
        }
        s += t;
    }
    s
}
fn vp_same<F: Val>(label: &str, v: &Vp<F>, nv: usize, fs: &[Vec<F>], x: &[F]) {
    let e = must::<F, _, _>(label, || v.p.evaluate(x));
    F::eq_all(&format!("{}: evaluate", label), e, vp_ref(&v.r, fs, x));
    let t = v.p.materialize();
    check::<F>(&format!("{}: materialized variables", label), t.num_vars == nv);
    let want: Vec<F> = (0..1 << nv).map(|b| vp_table(&v.r, fs, b)).collect();
    eq_vec(&format!("{}: materialize", label), &t.evaluations, &want);
    let d = v.r.iter().map(|(_, i)| i.len()).max().unwrap_or(0);
    check::<F>(&format!("{}: degree", label), v.p.aux_info.max_degree >= d && v.p.aux_info.max_degree <= d.max(1));
    check::<F>(&format!("{}: number of variables", label), v.p.aux_info.num_variables == nv);
}
const SHAPES: [&[&[usize]]; 10] = [
    &[&[0]],
    &[&[0, 1], &[2]],
    &[&[0, 0], &[1], &[0, 1]],
    &[&[0], &[1, 2], &[2, 1, 0]],
    &[&[1, 1, 1], &[0]],
    &[&[2], &[2], &[2, 2]],
    &[&[0, 1, 2, 0, 1, 2], &[2, 2, 2, 2], &[1]],
    &[&[0], &[0, 0], &[0, 0, 0], &[0, 0, 0, 0], &[0, 0, 0, 0, 0], &[1, 2], &[2, 1], &[2], &[0, 1]],
    &[&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[9, 0], &[8, 1, 5]],
    &[&[7], &[6], &[5], &[4], &[3, 9], &[2], &[1], &[0, 8]],
];
fn vp_build<F: Val>(tag: &str, nv: usize, shape: &[&[usize]], ms: &[Arc<Mle<F>>]) -> Vp<F> {
    let mut p = VirtualPolynomial::new(nv);
    let mut r = vec![];
    for (i, s) in shape.iter().enumerate() {
        let c: F = var(&format!("c{}{}", tag, i));
        must::<F, _, _>("add_mle_list", || p.add_mle_list(s.iter().map(|j| ms[*j].clone()).collect::<Vec<_>>(), c));
        r.push((c, s.to_vec()));
    }
    Vp { p, r }
}
fn vpoly<E: Be>(nv: usize, sa: usize, sb: usize, k: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let fs: Vec<Vec<Fx<E>>> = (0..if sa.max(sb) < 8 { 4 } else { 10 }).map(|i| spread(&format!("f{}_", i), 1 << nv, k)).collect();
    let x: Vec<Fx<E>> = spread("x", nv, k);
    let ms: Vec<Arc<Mle<Fx<E>>>> = fs.iter().map(|f| Arc::new(mle(nv, f.clone()))).collect();
    let a = vp_build::<Fx<E>>("a", nv, SHAPES[sa], &ms);
    let b = vp_build::<Fx<E>>("b", nv, SHAPES[sb], &ms);
    vp_same("sum of products", &a, nv, &fs, &x);
    vp_same("sum of products", &b, nv, &fs, &x);
    let s = Vp { p: &a.p + &b.p, r: [a.r.clone(), b.r.clone()].concat() };
    vp_same("addition", &s, nv, &fs, &x);
    // multiplication by a polynomial that is present, and by one that is not
    for m in [0usize, 3] {
        let k: Fx<E> = var("k");
        let mut t = a.p.clone();
        must::<Fx<E>, _, _>("mul_by_mle", || t.mul_by_mle(ms[m].clone(), k));
        let r = a.r.iter().map(|(c, i)| (*c * k, [i.clone(), vec![m]].concat())).collect();
        let mut v = Vp { p: t, r };
        vp_same("multiplication", &v, nv, &fs, &x);
        // and a further product afterwards still refers to the right polynomials
        let c: Fx<E> = var("cz");
        must::<Fx<E>, _, _>("add_mle_list", || v.p.add_mle_list(vec![ms[3].clone(), ms[2].clone()], c));
        v.r.push((c, vec![3, 2]));
        vp_same("addition after multiplication", &v, nv, &fs, &x);
    }
    vp_same("operands are unchanged", &a, nv, &fs, &x);
    let k: Fx<E> = var("k");
    let n = Vp { p: VirtualPolynomial::new_from_mle(&ms[1], k), r: vec![(k, vec![1])] };
    vp_same("new_from_mle", &n, nv, &fs, &x);
    let s = Vp { p: &n.p + &a.p, r: [n.r.clone(), a.r.clone()].concat() };
    vp_same("addition to new_from_mle", &s, nv, &fs, &x);
}
fn vpoly_fhat<E: Be>(nv: usize, sa: usize, k: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let fs: Vec<Vec<Fx<E>>> = (0..if sa < 8 { 4 } else { 10 }).map(|i| spread(&format!("f{}_", i), 1 << nv, k)).collect();
    let r: Vec<Fx<E>> = spread("r", nv, k);
    let ms: Vec<Arc<Mle<Fx<E>>>> = fs.iter().map(|f| Arc::new(mle(nv, f.clone()))).collect();
    let a = vp_build::<Fx<E>>("a", nv, SHAPES[sa], &ms);
    let h = must::<Fx<E>, _, _>("build_f_hat", || a.p.build_f_hat(&r));
    let t = h.materialize();
    let want: Vec<Fx<E>> = (0..1 << nv).map(|b| vp_table(&a.r, &fs, b) * ref_chi(b, &r)).collect();
    eq_vec("build_f_hat weights the table by eq", &t.evaluations, &want);
    for b in 0..1 << nv {
        let v = must::<Fx<E>, _, _>("evaluate", || h.evaluate(&cube(b, nv)));
        Fx::<E>::eq_all("build_f_hat at a corner", v, want[b]);
    }
    for l in 0..nv + 2 {
        if l != nv {
            let p: Vec<Fx<E>> = vars("q", l);
            refuses::<Fx<E>, _, _>("build_f_hat accepts a wrong length", || a.p.build_f_hat(&p));
            refuses::<Fx<E>, _, _>("evaluate accepts a wrong length", || a.p.evaluate(&p));
        }
    }
}
/// a refused operation reports an error and leaves the polynomial as it was
fn vpoly_refuse<E: Be>(nv: usize, sa: usize, k: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let fs: Vec<Vec<Fx<E>>> = (0..if sa < 8 { 4 } else { 10 }).map(|i| spread(&format!("f{}_", i), 1 << nv, k)).collect();
    let x: Vec<Fx<E>> = spread("x", nv, k);
    let ms: Vec<Arc<Mle<Fx<E>>>> = fs.iter().map(|f| Arc::new(mle(nv, f.clone()))).collect();
    let mut a = vp_build::<Fx<E>>("a", nv, SHAPES[sa], &ms);
    let odd = Arc::new(mle(nv + 1, vars::<Fx<E>>("g", 2 << nv)));
    let c: Fx<E> = var("cz");
    refuses::<Fx<E>, _, _>("add_mle_list accepts an empty list", || a.p.add_mle_list(vec![], c));
    refuses::<Fx<E>, _, _>("mul_by_mle accepts a wrong number of variables", || a.p.mul_by_mle(odd.clone(), c));
    vp_same("after a refused operation", &a, nv, &fs, &x);
    let before = a.p.aux_info.max_degree;
    refuses::<Fx<E>, _, _>("add_mle_list accepts a wrong number of variables", || {
        a.p.add_mle_list(vec![ms[3].clone(), ms[3].clone(), ms[3].clone(), ms[3].clone(), odd.clone()], c)
    });
    check::<Fx<E>>("degree after a refused addition", a.p.aux_info.max_degree == before);
    vp_same("after a refused addition", &a, nv, &fs, &x);
}
fn vpoly_rand<E: Be>(nv: usize, seed: u64) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    // the sampler's field draws are symbolic; only the number of factors comes from the seed
    let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(seed);
    let (p, s) = must::<Fx<E>, _, _>("rand", || VirtualPolynomial::<Fx<E>>::rand(nv, (1, 4), 3, &mut rng));
    let t = p.materialize();
    let mut z = Fx::<E>::zero();
    for v in &t.evaluations {
        z += *v;
    }
    Fx::<E>::eq_all("rand: the reported sum is the sum over the hypercube", s, z);
    check::<Fx<E>>("rand: number of products", p.products.len() == 3);
    let p = must::<Fx<E>, _, _>("rand_zero", || VirtualPolynomial::<Fx<E>>::rand_zero(nv, (1, 4), 3, &mut rng));
    for v in &p.materialize().evaluations {
        Fx::<E>::eq_all("rand_zero vanishes on the hypercube", *v, Fx::<E>::zero());
    }
}

// ---------------- P03 ----------------
fn eq_poly<E: Be>(n: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let x: Vec<Fx<E>> = vars("x", n);
    let y: Vec<Fx<E>> = vars("y", n);
    let e = must::<Fx<E>, _, _>("eq_eval", || ar::eq_eval(&x, &y));
    Fx::<E>::eq_all("eq_eval is the product formula", e, ref_eq(&x, &y));
    let v = must::<Fx<E>, _, _>("build_eq_x_r_vec", || ar::build_eq_x_r_vec(&x));
    let want: Vec<Fx<E>> = (0..1 << n).map(|b| ref_chi(b, &x)).collect();
    eq_vec("build_eq_x_r_vec", &v, &want);
    let m = must::<Fx<E>, _, _>("build_eq_x_r", || ar::build_eq_x_r(&x));
    check::<Fx<E>>("build_eq_x_r variables", m.num_vars == n);
    Fx::<E>::eq_all("build_eq_x_r evaluates to eq", ref_mle(&m.evaluations, &y), ref_eq(&x, &y));
    for b in 0..1 << n {
        let e = must::<Fx<E>, _, _>("eq_eval", || ar::eq_eval(&x, &cube(b, n)));
        Fx::<E>::eq_all("eq_eval at a corner", e, want[b]);
        for c in 0..1 << n {
            let e = must::<Fx<E>, _, _>("eq_eval", || ar::eq_eval::<Fx<E>>(&cube(c, n), &cube(b, n)));
            let w = if b == c { Fx::<E>::one() } else { Fx::<E>::zero() };
            Fx::<E>::eq_all("eq_eval decides equality of corners", e, w);
        }
    }
    for l in 0..n + 2 {
        if l != n {
            let z: Vec<Fx<E>> = vars("z", l);
            refuses::<Fx<E>, _, _>("eq_eval accepts different lengths", || ar::eq_eval(&x, &z));
        }
    }
}
/// integer helpers: the index is symbolic through its bits
fn index_bits<E: Be>(n: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let b: Vec<Fx<E>> = bits("b", n);
    let mut i = 0usize;
    for (k, v) in b.iter().enumerate() {
        if *v == Fx::<E>::one() {
            i |= 1 << k;
        }
    }
    for w in 0..=n {
        let d = ar::bit_decompose(i as u64, w);
        check::<Fx<E>>("bit_decompose length", d.len() == w);
        for k in 0..w {
            check::<Fx<E>>("bit_decompose is little endian", d[k] == (b[k] == Fx::<E>::one()));
        }
    }
    if n > 0 {
        let (x0, x1, s) = ar::get_index(i, n);
        let lowpart = i & ((1 << (n - 1)) - 1);
        check::<Fx<E>>("get_index x0", x0 == lowpart << 1);
        check::<Fx<E>>("get_index x1", x1 == (lowpart << 1) | 1);
        check::<Fx<E>>("get_index sign", s == (b[n - 1] == Fx::<E>::one()));
    }
    let x: Vec<Fx<E>> = vars("x", 2);
    let p = ar::gen_eval_point(i, n, &x);
    eq_vec("gen_eval_point appends the index", &p, &[x.clone(), b.clone()].concat());
}
fn ident<E: Be>(nv: usize, chunks: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let want: Vec<Fx<E>> = (0..(chunks << nv) as u64).map(Fx::<E>::from).collect();
    eq_vec("identity_permutation", &ar::identity_permutation::<Fx<E>>(nv, chunks), &want);
    let m = ar::identity_permutation_mles::<Fx<E>>(nv, chunks);
    check::<Fx<E>>("identity_permutation_mles count", m.len() == chunks);
    let x: Vec<Fx<E>> = vars("x", nv);
    for (i, p) in m.iter().enumerate() {
        check::<Fx<E>>("identity_permutation_mles variables", p.num_vars == nv);
        let mut s = Fx::<E>::from((i << nv) as u64);
        for (k, v) in x.iter().enumerate() {
            s += *v * Fx::<E>::from(1u64 << k);
        }
        Fx::<E>::eq_all("identity polynomial is the index", ref_mle(&p.evaluations, &x), s);
    }
}
/// every draw of the random source is symbolic: the result is always a permutation
struct SymRng<F: Val>(usize, usize, std::marker::PhantomData<F>);
impl<F: Val> ark_std::rand::RngCore for SymRng<F> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let left = self.1 - self.0;
        self.0 += 1;
        F::choose(&format!("draw{}", self.0), left) as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.fill(7)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn perm<E: Be>(nv: usize, chunks: usize) {
    type Fx<E> = <E as ark_ec::pairing::Pairing>::ScalarField;
    let n = chunks << nv;
    let mut rng = SymRng::<Fx<E>>(0, n, std::marker::PhantomData);
    let v = if nv == 0 {
        ar::random_permutation::<Fx<E>, _>(nv, chunks, &mut rng)
    } else {
        ar::random_permutation_mles::<Fx<E>, _>(nv, chunks, &mut rng).into_iter().flat_map(|m| m.evaluations).collect()
    };
    check::<Fx<E>>("permutation length", v.len() == n);
    for i in 0..n as u64 {
        check::<Fx<E>>("permutation hits every index once", v.iter().filter(|x| **x == Fx::<E>::from(i)).count() == 1);
    }
}

pub fn props(v: &mut Vec<Prop>) {
    let mut t = vec![];
    for nv in 0..=8 {
        task!(t, quick, format!("eval nv={}", nv), mle_eval(nv, ALL, ALL));
        for k in 0..=nv {
            if nv < 7 {
                task!(t, quick, format!("fix nv={} k={}", nv, k), mle_fix(nv, k, ALL, ALL));
            } else {
                task!(t, thorough, format!("fix nv={} k={}", nv, k), mle_fix(nv, k, ALL, ALL));
            }
        }
    }
    for nv in [9, 10, 11, 12, 13, 14] {
        if nv < 13 {
            task!(t, quick, format!("eval nv={} mixed", nv), mle_eval(nv, 6, 3));
        } else {
            task!(t, thorough, format!("eval nv={} mixed", nv), mle_eval(nv, 6, 3));
        }
    }
    for (nv, k) in [(7, 2), (7, 5), (8, 1), (8, 4), (8, 7), (9, 2), (9, 8), (10, 9), (10, 10), (11, 3), (12, 12)] {
        task!(t, quick, format!("fix nv={} k={} mixed", nv, k), mle_fix(nv, k, 6, 3));
    }
    for nv in 0..=5 {
        task!(t, quick, format!("wrong lengths nv={}", nv), mle_bad_len(nv));
    }
    for (nv, k) in [(0, 1), (1, 1), (1, 2), (1, 3), (2, 4), (2, 5), (0, 3), (3, 7), (0, 9), (1, 8), (2, 9), (0, 17), (4, 3), (1, 16)] {
        task!(t, quick, format!("merge nv={} k={}", nv, k), merge(nv, k));
    }
    for (nv, k) in [(2, 17), (4, 9), (5, 5), (1, 33)] {
        task!(t, thorough, format!("merge nv={} k={}", nv, k), merge(nv, k));
    }
    v.push(Prop {
        id: "P01",
        functions: &[
            "arithmetic::evaluate_opt",
            "arithmetic::evaluate_no_par",
            "arithmetic::fix_variables",
            "arithmetic::fix_last_variables",
            "arithmetic::fix_last_variables_no_par",
            "arithmetic::merge_polynomials",
            "arithmetic::gen_eval_point",
            "arithmetic::get_batched_nv",
        ],
        bounds: "all tables and points over the scalar field up to 8 variables (fixing: 6, 8 in the thorough tier); up to 12 (14) variables with 6 symbolic entries and 3 symbolic coordinates among constants; merges of up to 17 (33) polynomials",
        assumptions: &[],
        tasks: t,
    });
    let mut t = vec![];
    for (a, b) in [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7), (7, 8), (8, 9), (9, 0)] {
        // shapes of high degree: fewer symbolic entries among constants
        let high = a.max(b) > 5 && b != 0;
        for nv in 0..=2 {
            let k = if high && nv > 1 { 1 } else { ALL };
            task!(t, quick, format!("algebra nv={} shapes {},{}", nv, a, b), vpoly(nv, a, b, k));
        }
        task!(t, thorough, format!("algebra nv=3 shapes {},{}", a, b), vpoly(3, a, b, if high { 1 } else { 2 }));
        task!(t, quick, format!("algebra nv=4 shapes {},{}", a, b), vpoly(4, a, b, 1));
        task!(t, thorough, format!("algebra nv=6 shapes {},{}", a, b), vpoly(6, a, b, 1));
    }
    for s in 0..10 {
        for nv in 1..=6 {
            if nv < 6 {
                task!(t, quick, format!("f_hat nv={} shape {}", nv, s), vpoly_fhat(nv, s, if nv < 4 { ALL } else { 2 }));
            } else {
                task!(t, thorough, format!("f_hat nv={} shape {}", nv, s), vpoly_fhat(nv, s, 2));
            }
        }
        for nv in [1, 3] {
            task!(t, quick, format!("refused operations nv={} shape {}", nv, s), vpoly_refuse(nv, s, if nv < 2 { ALL } else { 1 }));
        }
    }
    for s in 0..6 {
        task!(t, quick, format!("samplers nv={} seed {}", s % 4, s), vpoly_rand(s as usize % 4, s));
    }
    v.push(Prop {
        id: "P02",
        functions: &[
            "VirtualPolynomial::new",
            "VirtualPolynomial::new_from_mle",
            "VirtualPolynomial::add_mle_list",
            "VirtualPolynomial::mul_by_mle",
            "VirtualPolynomial::add",
            "VirtualPolynomial::evaluate",
            "VirtualPolynomial::materialize",
            "VirtualPolynomial::build_f_hat",
            "VirtualPolynomial::rand",
            "VirtualPolynomial::rand_zero",
            "arithmetic::random_mle_list",
            "arithmetic::random_zero_mle_list",
        ],
        bounds: "all coefficients; all tables and points up to 2 variables (f_hat: 3), one or two symbolic entries per table and coordinates among constants for 4 and 5 (6) variables; up to 17 products of up to 11 factors over 10 tables (with sharing and repetition)",
        assumptions: &[],
        tasks: t,
    });
    let mut t = vec![];
    for n in 1..=6 {
        if n < 6 {
            task!(t, quick, format!("eq n={}", n), eq_poly(n));
        } else {
            task!(t, thorough, format!("eq n={}", n), eq_poly(n));
        }
    }
    for n in 0..=10 {
        if n < 8 {
            task!(t, quick, format!("index bits n={}", n), index_bits(n));
        } else {
            task!(t, thorough, format!("index bits n={}", n), index_bits(n));
        }
    }
    for (nv, c) in [(0, 1), (0, 3), (1, 2), (2, 1), (2, 3), (3, 2), (5, 3), (8, 2), (0, 20), (10, 1)] {
        task!(t, quick, format!("identity nv={} chunks={}", nv, c), ident(nv, c));
    }
    for (nv, c) in [(0, 3), (1, 2), (0, 4), (0, 5)] {
        task!(t, quick, format!("permutation nv={} chunks={}", nv, c), perm(nv, c));
    }
    task!(t, thorough, "permutation nv=1 chunks=3", perm(1, 3));
    v.push(Prop {
        id: "P03",
        functions: &[
            "arithmetic::eq_eval",
            "arithmetic::build_eq_x_r",
            "arithmetic::build_eq_x_r_vec",
            "arithmetic::bit_decompose",
            "arithmetic::get_index",
            "arithmetic::gen_eval_point",
            "arithmetic::identity_permutation",
            "arithmetic::identity_permutation_mles",
            "arithmetic::random_permutation",
            "arithmetic::random_permutation_mles",
        ],
        bounds: "all points over the field for up to 5 (6) variables; all indices of up to 7 (10) bits; identities of up to 10 variables or 20 chunks; all draws of the random source for permutations of up to 5 (6) elements",
        assumptions: &[],
        tasks: t,
    });
}
