// ---------------------------------------------------------------- P15 multisets
fn tables_of<F: Val>(kinds: &str, nv: &[usize]) -> Vec<Vec<F>> {
    // p: any values, s: selector, m: any values, 1: ones, r: 0, 1, 2, ..
    assert_eq!(kinds.len(), nv.len());
    kinds
        .chars()
        .zip(nv)
        .enumerate()
        .map(|(i, (k, n))| match k {
            's' => bits(&format!("s{}_", i), 1 << n),
            '1' => ones(*n),
            'r' => ramp(*n),
            'm' => (0..1usize << n).map(|j| row_or(j, 1 << n, 1, || var(&format!("m{}_{}", i, j)))).collect(),
            k => vars(&format!("{}{}_", k, i), 1 << n),
        })
        .collect()
}
/// in an attack every entry is any value, or one of k values where the prover's forks would be too many
fn tables_in<F: Val>(mode: Mode, kinds: &str, nv: &[usize]) -> Vec<Vec<F>> {
    let Attack(k) = mode else { return tables_of(kinds, nv) };
    if k == 0 {
        // any values at all
        return tables_of(kinds, nv);
    }
    let few = |c: char, i: usize, n: usize, k: usize| -> Vec<F> {
        (0..1usize << n).map(|j| row_or(j, 1 << n, if k == 2 { 1 } else { j as u64 }, || F::from(F::choose(&format!("{}{}_{}", c, i, j), k) as u64))).collect()
    };
    kinds
        .chars()
        .zip(nv)
        .enumerate()
        .map(|(i, (c, n))| match c {
            's' => few(c, i, *n, 2),
            '1' => ones(*n),
            'r' => ramp(*n),
            c => few(c, i, *n, k),
        })
        .collect()
}
fn multi_sound<E: Be>(mode: Mode, f: &[usize], h: &[usize]) {
    let nv: Vec<usize> = f.iter().chain(h).flat_map(|n| [*n, *n, *n]).collect();
    let gd = g(K::Multi(f.len(), h.len()), &nv);
    let e: Vec<Vec<u64>> = nv.iter().map(|n| ex(*n, 1)).collect();
    let t = tables_in::<S<E>>(mode, &"psm".repeat(nv.len() / 3), &nv);
    sound::<E>(mode, &gd, &e, &t, |_| {
    let w: Vec<Vec<S<E>>> = (0..nv.len() / 3).map(|i| prod(&t[3 * i + 1], &t[3 * i + 2])).collect();
    let side = |a: usize, b: usize| (a..b).map(|i| (&t[3 * i][..], &w[i][..])).collect::<Vec<_>>();
    same_weights("the weighted values on both sides agree", &side(0, f.len()), &side(f.len(), nv.len() / 3));
    });
}
/// one bag on the left split arbitrarily over the right
fn multi_honest<E: Be>(nv: usize, parts: &[usize]) {
    let n = 1 << nv;
    let p: Vec<S<E>> = vars("p", n);
    let s: Vec<S<E>> = bits("s", n);
    let m: Vec<S<E>> = vars("m", n);
    let mut t = vec![p.clone(), s.clone(), m.clone()];
    let mut nvs = vec![nv; 3];
    let w = prod(&s, &m);
    let mut left = w.clone();
    for (k, pn) in parts.iter().enumerate() {
        let len = 1usize << pn;
        assert!(len >= n);
        let perm = perm_of::<S<E>>(&format!("o{}_", k), n);
        let mut q = at(&p, &perm);
        let mut qw: Vec<S<E>> = if k + 1 == parts.len() {
            at(&left, &perm)
        } else {
            let x: Vec<S<E>> = vars(&format!("x{}_", k), n);
            for (i, y) in perm.iter().zip(&x) {
                left[*i] -= *y;
            }
            x
        };
        let mut qs = ones::<S<E>>(nv);
        while q.len() < len {
            q.push(var(&format!("junk{}_{}", k, q.len())));
            qs.push(S::<E>::zero());
            qw.push(var(&format!("junkm{}_{}", k, q.len())));
        }
        t.extend([q, qs, qw]);
        nvs.extend([*pn; 3]);
    }
    honest::<E>(&g(K::Multi(1, parts.len()), &nvs), &t);
}
fn eq_sound<E: Be>(mode: Mode, a: usize) {
    let nv = [a; 4];
    let t = tables_in::<S<E>>(mode, "psps", &nv);
    sound::<E>(mode, &g(K::Eq, &nv), &vec![ex(a, 1); 4], &t, |_| {
    same_weights("equal bags", &[(&t[0], &t[1])], &[(&t[2], &t[3])]);
    });
}
fn eq_honest<E: Be>(a: usize) {
    let (p, s) = (vars::<S<E>>("p", 1 << a), bits::<S<E>>("s", 1 << a));
    let perm = perm_of::<S<E>>("o", 1 << a);
    let mut q = at(&p, &perm);
    let qs = at(&s, &perm);
    for i in 0..q.len() {
        // unselected entries do not matter
        if qs[i].is_zero() {
            q[i] = var(&format!("q{}", i));
        }
    }
    honest::<E>(&g(K::Eq, &[a; 4]), &[p, s, q, qs]);
}
fn sum_sound<E: Be>(mode: Mode, a: usize, b: usize, c: usize) {
    let nv = [a, a, b, b, c, c];
    let mut t = tables_in::<S<E>>(mode, "pspsps", &nv);
    if c > 2 {
        // larger bags add up but for their symbolic rows
        for k in 0..2 {
            let both = [&t[k][..], &t[2 + k][..]].concat();
            let fresh = |i: usize| if k == 0 { var::<S<E>>(&format!("z{}", i)) } else { bit(&format!("zs{}", i)) };
            t[4 + k] = (0..1 << c).map(|i| if is_symbolic(i, 1 << c) { fresh(i) } else { both[i] }).collect();
        }
    }
    // the shape does not depend on the statement: an empty sum
    let e: Vec<Vec<u64>> = nv.iter().enumerate().map(|(i, n)| ex(*n, if i % 2 == 1 { 0 } else { 1 })).collect();
    sound::<E>(mode, &g(K::Sum, &nv), &e, &t, |_| {
    same_weights("the bags add up", &[(&t[0], &t[1]), (&t[2], &t[3])], &[(&t[4], &t[5])]);
    });
}
fn sum_honest<E: Be>(a: usize, b: usize) {
    let c = a.max(b) + 1;
    let (p, s) = (vars::<S<E>>("p", 1 << a), bits::<S<E>>("s", 1 << a));
    let (q, r) = (vars::<S<E>>("q", 1 << b), bits::<S<E>>("r", 1 << b));
    let mut u: Vec<S<E>> = p.iter().chain(&q).copied().collect();
    let mut us: Vec<S<E>> = s.iter().chain(&r).copied().collect();
    while u.len() < 1 << c {
        u.push(var("pad"));
        us.push(S::<E>::zero());
    }
    let k = pick::<S<E>>("rot", 1 << c, 3);
    u.rotate_left(k);
    us.rotate_left(k);
    honest::<E>(&g(K::Sum, &[a, a, b, b, c, c]), &[p, s, q, r, u, us]);
}

// ---------------------------------------------------------------- P16 inclusion
fn incl_sound<E: Be>(mode: Mode, a: usize, b: usize, advice: bool) {
    let mut nv = vec![a, a, b, b];
    let mut kinds = "psps".to_string();
    if advice {
        nv.push(b);
        kinds.push('m');
    }
    let t = tables_in::<S<E>>(mode, &kinds, &nv);
    let e: Vec<Vec<u64>> = nv.iter().map(|n| ex(*n, 1)).collect();
    sound::<E>(mode, &g(if advice { K::InclAdvice } else { K::Incl }, &nv), &e, &t, |_| {
    included("every selected value of the first is selected in the second", &active(&t[0], &t[1]), &active(&t[2], &t[3]));
    if advice {
        same_weights("the multiplicities count the occurrences", &[(&t[0], &t[1])], &[(&t[2], &prod(&t[3], &t[4]))]);
    }
    });
}
/// f: values taken from anywhere in g (selected ones where f is selected)
fn incl_honest<E: Be>(a: usize, b: usize) {
    let (q, r) = (vars::<S<E>>("g", 1 << b), bits::<S<E>>("gs", 1 << b));
    let mut p = vec![];
    let mut s = vec![];
    for i in 0..1 << a {
        let k = pick::<S<E>>(&format!("k{}", i), (1 << b) + 1, 5 * i + 1);
        if k < 1 << b {
            S::<E>::assume_bool(!r[k].is_zero());
            p.push(q[k]);
            s.push(S::<E>::one());
        } else {
            p.push(var(&format!("f{}", i)));
            s.push(S::<E>::zero());
        }
    }
    honest::<E>(&g(K::Incl, &[a, a, b, b]), &[p, s, q, r]);
}

// ---------------------------------------------------------------- P17 no zeros, selectors
fn nozeros_sound<E: Be>(mode: Mode, a: usize) {
    let nv = [a, a];
    let t = tables_in::<S<E>>(mode, "pm", &nv);
    sound::<E>(mode, &g(K::NoZeros, &nv), &[ex(a, 1), ex(a, 1)], &t, |_| {
    for (x, s) in t[0].iter().zip(&t[1]) {
        rel::<S<E>>("a selected entry is not zero", s.is_zero() || !x.is_zero());
    }
    });
}
fn nozeros_honest<E: Be>(a: usize) {
    let nv = [a, a];
    let t = tables_of::<S<E>>("pm", &nv);
    for (x, s) in t[0].iter().zip(&t[1]) {
        S::<E>::assume_bool(s.is_zero() || !x.is_zero());
    }
    honest::<E>(&g(K::NoZeros, &nv), &t);
}
fn selvalid_sound<E: Be>(mode: Mode, a: usize) {
    let t = tables_in::<S<E>>(mode, "m", &[a]);
    sound::<E>(mode, &g(K::SelValid, &[a]), &[ex(a, 1)], &t, |_| {
    for s in &t[0] {
        rel::<S<E>>("a selector is 0 or 1", s.is_zero() || *s == S::<E>::one());
    }
    });
}
fn selvalid_honest<E: Be>(a: usize) {
    let t = tables_of::<S<E>>("s", &[a]);
    honest::<E>(&g(K::SelValid, &[a]), &t);
}

// ---------------------------------------------------------------- P18 prescribed permutation
fn perm_sound<E: Be>(mode: Mode, a: usize) {
    let nv = [a; 5];
    let n = 1 << a;
    let mut t = tables_in::<S<E>>(mode, "pspsm", &nv);
    let perm = perm_of::<S<E>>("o", n);
    t[4] = perm.iter().map(|i| S::<E>::from(*i as u64)).collect();
    let e = vec![ex(a, 1), ex(a, 1), ex(a, 1), ex(a, 1), ramp_ex(a)];
    sound::<E>(mode, &g(K::Perm, &nv), &e, &t, |_| {
    for j in 0..n {
        rel_eq::<S<E>>("the second bag is the first in the prescribed order", t[2][j], t[0][perm[j]]);
    }
    });
}
fn perm_honest<E: Be>(a: usize) {
    let n = 1 << a;
    let mut t = tables_of::<S<E>>("psps", &[a; 4]);
    let perm = perm_of::<S<E>>("o", n);
    t[2] = at(&t[0], &perm);
    t.push(perm.iter().map(|i| S::<E>::from(*i as u64)).collect());
    honest::<E>(&g(K::Perm, &[a; 5]), &t);
}
fn perm_refuse<E: Be>() {
    for (k, nv) in [[1, 1, 2, 2, 1], [1, 1, 1, 1, 2], [2, 2, 1, 1, 1]].iter().enumerate() {
        let t = tables_of::<S<E>>("pspsm", nv).iter().enumerate().map(|(i, v)| (0..v.len()).map(|j| var(&format!("r{}_{}_{}", k, i, j))).collect()).collect::<Vec<_>>();
        let gd = g(K::Perm, nv);
        let (mut pt, ps) = commit_all::<E>(&gd, &t);
        refuses::<S<E>, _, _>("bags of different sizes are refused", || gd.prove(&mut pt, &ps));
    }
}

// ---------------------------------------------------------------- P19 strict sort
fn steps<F: Val>(label: &str, p: &[F], r: usize) {
    for i in 0..p.len() - 1 {
        let d = p[i + 1] - p[i];
        rel::<F>(label, (0..1u64 << r).any(|k| d == F::from(k)));
    }
}
fn sort_sound<E: Be>(mode: Mode, a: usize, r: usize) {
    let nv = [a, a, r, r];
    let t = tables_in::<S<E>>(mode, "pmr1", &nv);
    sound::<E>(mode, &g(K::Sort, &nv), &[ramp_ex(a), ex(a, 1), ramp_ex(r), ex(r, 1)], &t, |_| {
    steps("consecutive values differ by a number in the range", &t[0], r);
    for i in 0..t[0].len() - 1 {
        if !t[1][i].is_zero() {
            rel::<S<E>>("a selected value is smaller than the next", t[0][i] != t[0][i + 1]);
        }
    }
    });
}
/// a sorted bag: starts anywhere, steps within the range, strict after selected entries
fn sorted<F: Val>(name: &str, a: usize, r: usize) -> (Vec<F>, Vec<F>) {
    let mut p = vec![var::<F>(&format!("{}first", name))];
    let s = bits::<F>(&format!("{}s", name), 1 << a);
    for i in 0..(1 << a) - 1 {
        let d = pick::<F>(&format!("{}d{}", name, i), 1 << r, 1);
        F::assume_bool(d != 0 || s[i].is_zero());
        let last = p[i];
        p.push(last + F::from(d as u64));
    }
    (p, s)
}
fn sort_honest<E: Be>(a: usize, r: usize) {
    let (p, s) = sorted::<S<E>>("", a, r);
    honest::<E>(&g(K::Sort, &[a, a, r, r]), &[p, s, ramp(r), ones(r)]);
}

// ---------------------------------------------------------------- P20 support
fn supp_sound<E: Be>(mode: Mode, a: usize, b: usize, r: usize, advice: bool) {
    let mut nv = vec![a, a, b, b];
    let mut kinds = "pspm".to_string();
    nv.extend([r, r]);
    kinds.push_str("r1");
    let mut e = vec![ex(a, 1), ex(a, 1), ramp_ex(b), ex(b, 0), ramp_ex(r), ex(r, 1)];
    e[3][1.min((1 << b) - 1)] = 1;
    if advice {
        nv.push(b);
        kinds.push('m');
        let mut m = ex(b, 0);
        m[1.min((1 << b) - 1)] = 1 << a;
        e.push(m);
    }
    let t = tables_in::<S<E>>(mode, &kinds, &nv);
    sound::<E>(mode, &g(if advice { K::SuppAdvice } else { K::Supp }, &nv), &e, &t, |_| {
    let (x, u) = (active(&t[0], &t[1]), active(&t[2], &t[3]));
    included("every selected value of the bag is in the support", &x, &u);
    included("every value of the support is in the bag", &u, &x);
    distinct("a value is in the support once", &u);
    if advice {
        same_weights("the multiplicities count the occurrences", &[(&t[0], &t[1])], &[(&t[2], &prod(&t[3], &t[6]))]);
    }
    });
}
/// a sorted set with its unselected entries in front, as the calculators lay it out
fn front_set<F: Val>(name: &str, n: usize, r: usize) -> (Vec<F>, Vec<F>) {
    let skip = pick::<F>(&format!("{}skip", name), (1 << n) + 1, 0);
    let mut p = vec![];
    let mut s = vec![];
    let mut at = F::zero();
    for i in 0..1 << n {
        if i >= skip {
            let lo = if i > skip { 1 } else { 0 };
            at += F::from((lo + pick::<F>(&format!("{}d{}", name, i), (1 << r) - lo, 1 - lo)) as u64);
        }
        p.push(at);
        s.push(if i >= skip { F::one() } else { F::zero() });
    }
    (p, s)
}
fn supp_honest<E: Be>(a: usize, b: usize, r: usize) {
    let (u, us) = front_set::<S<E>>("u", b, r);
    let k = us.iter().filter(|x| !x.is_zero()).count();
    let start = us.len() - k;
    // a bag whose selected values are exactly those
    let mut p = vec![];
    let mut s = vec![];
    let mut used = vec![false; us.len()];
    for i in 0..1 << a {
        let c = pick::<S<E>>(&format!("c{}", i), k + 1, i % k.max(1));
        if c == k {
            p.push(var(&format!("p{}", i)));
            s.push(S::<E>::zero());
        } else {
            used[start + c] = true;
            p.push(u[start + c]);
            s.push(S::<E>::one());
        }
    }
    S::<E>::assume_bool(used[start..].iter().all(|x| *x));
    honest::<E>(&g(K::Supp, &[a, a, b, b, r, r]), &[p, s, u, us, ramp(r), ones(r)]);
}

// ---------------------------------------------------------------- P21 disjoint
fn disj_sound<E: Be>(mode: Mode, set: bool, a: usize, b: usize, r: usize) {
    let nv = [a, a, b, b, r, r];
    let t = tables_in::<S<E>>(mode, "pspsr1", &nv);
    let (mut x, mut y) = (ex(a, 0), ex(b, 0));
    x[0] = 1;
    y[0] = 1;
    let e = [ex(a, 1), x, ex(b, 2), y, ramp_ex(r), ex(r, 1)];
    sound::<E>(mode, &g(if set { K::SetDisj } else { K::BagDisj }, &nv), &e, &t, |_| {
    let (x, y) = (active(&t[0], &t[1]), active(&t[2], &t[3]));
    apart("no value is selected in both", &x, &y);
    if set {
        distinct("the first is a set", &x);
        distinct("the second is a set", &y);
    }
    });
}
/// small values, some of them selected
/// a value outside every range, for rows that are not selected
const FAR: u64 = 1 << 40;
/// values of the constant rows of the first and second bag: apart, in runs, shared, or all alike
fn pattern(second: bool, i: usize) -> u64 {
    (match (crate::val::pattern(), second) {
        (0, false) | (5, false) => 2 * i,
        (0, true) => 3 * i,
        (1, false) | (2, true) => i / 3,
        (1, true) | (2, false) => (i + 1) / 3,
        (3, false) | (4, true) => i / 5,
        (3, true) | (4, false) => i / 2,
        (5, true) | (6, _) => i,
        (7, false) => 0,
        _ => 20 - i,
    }) as u64
}
fn small<F: Val>(n: &str, nv: usize, r: usize) -> (Vec<F>, Vec<F>) {
    // where rows are constant: p even, q odd, k in pairs, or one of the patterns
    let constant = |i: usize| match n {
        _ if crate::val::pattern() > 0 => pattern(n == "q", i),
        "p" => 2 * i as u64,
        "q" => 2 * i as u64 + 1,
        _ => i as u64 / 2,
    };
    let len = 1usize << nv;
    // where they are not: any value, or in larger tables one of a few
    let any = |i: usize| {
        let name = format!("{}{}", n, i);
        if len > 4 {
            let few = [constant(i), constant(i + 1), constant(i) ^ 1, (1 << r) - 1];
            let k = F::choose(&name, 5);
            if k == 4 { FAR } else { few[k] % (1 << r) }
        } else {
            F::choose(&name, 1 << r) as u64
        }
    };
    let p: Vec<F> = (0..len).map(|i| row_or(i, len, constant(i) % (1 << r), || F::from(any(i)))).collect();
    let s: Vec<F> = (0..len).map(|i| row_or(i, len, 1, || F::from(F::choose(&format!("{}s{}", n, i), 2) as u64))).collect();
    for (p, s) in p.iter().zip(&s) {
        F::assume_bool(*p != F::from(FAR) || s.is_zero());
    }
    (p, s)
}
fn no_dup<F: Val>(x: &[F]) {
    F::assume_bool((0..x.len()).all(|i| (0..i).all(|j| x[i] != x[j])))
}
fn uint<F: Val>(f: &F) -> u64 {
    (0..64).find(|i| *f == F::from(*i)).unwrap()
}
/// a bag holding the given small values, sorted, behind unselected zeros
fn lay<F: Val>(vals: &[F], nv: usize) -> (Vec<F>, Vec<F>) {
    let mut v: Vec<u64> = vals.iter().map(uint).collect();
    v.sort();
    let pad = (1usize << nv) - v.len();
    let mut p = vec![F::zero(); pad];
    let mut s = vec![F::zero(); pad];
    p.extend(v.iter().map(|x| F::from(*x)));
    s.extend(v.iter().map(|_| F::one()));
    (p, s)
}
fn disj_honest<E: Be>(set: bool, a: usize, b: usize, r: usize) {
    let ((p, s), (q, t)) = (small::<S<E>>("p", a, r), small("q", b, r));
    let (x, y) = (active(&p, &s), active(&q, &t));
    S::<E>::assume_bool(x.iter().all(|v| y.iter().all(|w| v != w)));
    if set {
        no_dup(&x);
        no_dup(&y);
    }
    honest::<E>(&g(if set { K::SetDisj } else { K::BagDisj }, &[a, a, b, b, r, r]), &[p, s, q, t, ramp(r), ones(r)]);
}

// ---------------------------------------------------------------- P22 set operations
fn union_sound<E: Be>(mode: Mode, a: usize, b: usize, u: usize, r: usize) {
    let nv = [a, a, b, b, u, u, r, r];
    let t = tables_in::<S<E>>(mode, "pspspmr1", &nv);
    let (mut x, mut us) = (ex(a, 0), ex(u, 0));
    x[0] = 1;
    us[(1 << u) - 1] = 1;
    let e = [ex(a, 1), x, ex(b, 1), ex(b, 0), ramp_ex(u).iter().map(|_| 1).collect(), us, ramp_ex(r), ex(r, 1)];
    sound::<E>(mode, &g(K::Union, &nv), &e, &t, |_| {
    let (x, y, z) = (active(&t[0], &t[1]), active(&t[2], &t[3]), active(&t[4], &t[5]));
    included("the values of the first are in the union", &x, &z);
    included("the values of the second are in the union", &y, &z);
    let both: Vec<_> = x.iter().chain(&y).copied().collect();
    included("a value of the union is in one of the sets", &z, &both);
    distinct("the union is a set", &z);
    });
}
fn union_honest<E: Be>(a: usize, b: usize, u: usize, r: usize) {
    let ((p, s), (q, t)) = (small::<S<E>>("p", a, r), small("q", b, r));
    let mut all: Vec<S<E>> = vec![];
    for v in active(&p, &s).iter().chain(&active(&q, &t)) {
        if !all.contains(v) {
            all.push(*v);
        }
    }
    S::<E>::assume_bool(all.len() <= 1 << u);
    let (z, zs) = lay(&all, u);
    honest::<E>(&g(K::Union, &[a, a, b, b, u, u, r, r]), &[p, s, q, t, z, zs, ramp(r), ones(r)]);
}
fn diff_sound<E: Be>(mode: Mode, n: [usize; 4], r: usize) {
    let [a, b, l, m] = n;
    let nv = [a, a, b, b, l, l, m, m, r, r, b];
    let t = tables_in::<S<E>>(mode, "pspspspsr1m", &nv);
    let mut z = |k: usize, i: usize| {
        let mut v = ex(k, 0);
        v[i] = 1;
        v
    };
    let e = [ex(a, 1), z(a, 0), ex(b, 0), z(b, 0), ex(l, 1), z(l, 0), ex(m, 1), ex(m, 0), ramp_ex(r), ex(r, 1), ex(b, 0)];
    sound::<E>(mode, &g(K::Diff, &nv), &e, &t, |_| {
    let (x, y, z) = (active(&t[0], &t[1]), active(&t[2], &t[3]), active(&t[4], &t[5]));
    included("a value of the difference is in the first set", &z, &x);
    apart("a value of the difference is not in the second set", &z, &y);
    for v in x {
        rel::<S<E>>("a value only in the first set is in the difference", y.iter().any(|w| *w == v) || z.iter().any(|w| *w == v));
    }
    distinct("the difference is a set", &z);
    });
}
/// the two sets split into what is only in the first, in both, only in the second
fn split<F: Val>(x: &[F], y: &[F]) -> (Vec<F>, Vec<F>, Vec<F>) {
    (
        x.iter().filter(|v| !y.contains(v)).copied().collect(),
        x.iter().filter(|v| y.contains(v)).copied().collect(),
        y.iter().filter(|v| !x.contains(v)).copied().collect(),
    )
}
fn diff_honest<E: Be>(n: [usize; 4], r: usize) {
    let [a, b, l, m] = n;
    let ((p, s), (q, t)) = (small::<S<E>>("p", a, r), small("q", b, r));
    let (x, y) = (active(&p, &s), active(&q, &t));
    no_dup(&x);
    no_dup(&y);
    let (only, both, _) = split(&x, &y);
    S::<E>::assume_bool(only.len() <= 1 << l && both.len() <= 1 << m);
    let ((lp, ls), (mp, ms)) = (lay(&only, l), lay(&both, m));
    let mult = q.iter().zip(&t).map(|(v, k)| if !k.is_zero() && both.contains(v) { S::<E>::one() } else { S::<E>::zero() }).collect();
    honest::<E>(&g(K::Diff, &[a, a, b, b, l, l, m, m, r, r, b]), &[p, s, q, t, lp, ls, mp, ms, ramp(r), ones(r), mult]);
}
fn inter_sound<E: Be>(mode: Mode, n: [usize; 5], r: usize) {
    let [a, b, l, m, c] = n;
    let nv = [a, a, b, b, l, l, m, m, c, c, r, r];
    let t = tables_in::<S<E>>(mode, "pspspspspsr1", &nv);
    let z = |k: usize| {
        let mut v = ex(k, 0);
        v[0] = 1;
        v
    };
    let e = [ex(a, 1), z(a), ex(b, 0), ex(b, 0), ex(l, 1), z(l), ex(m, 1), ex(m, 0), ex(c, 1), ex(c, 0), ramp_ex(r), ex(r, 1)];
    sound::<E>(mode, &g(K::Inter, &nv), &e, &t, |_| {
    let (x, y, z) = (active(&t[0], &t[1]), active(&t[2], &t[3]), active(&t[6], &t[7]));
    included("a value of the intersection is in the first set", &z, &x);
    included("a value of the intersection is in the second set", &z, &y);
    for v in x {
        rel::<S<E>>("a value of both sets is in the intersection", y.iter().all(|w| *w != v) || z.iter().any(|w| *w == v));
    }
    });
}
fn inter_honest<E: Be>(n: [usize; 5], r: usize) {
    let [a, b, l, m, c] = n;
    let ((p, s), (q, t)) = (small::<S<E>>("p", a, r), small("q", b, r));
    let (x, y) = (active(&p, &s), active(&q, &t));
    no_dup(&x);
    no_dup(&y);
    let (only, both, other) = split(&x, &y);
    S::<E>::assume_bool(only.len() <= 1 << l && both.len() <= 1 << m && other.len() <= 1 << c);
    let ((lp, ls), (mp, ms), (cp, cs)) = (lay(&only, l), lay(&both, m), lay(&other, c));
    honest::<E>(&g(K::Inter, &[a, a, b, b, l, l, m, m, c, c, r, r]), &[p, s, q, t, lp, ls, mp, ms, cp, cs, ramp(r), ones(r)]);
}

// ---------------------------------------------------------------- P23 products and joins
fn row<F: Val>(t: &[Vec<F>], i: usize) -> Vec<F> {
    t.iter().map(|c| c[i]).collect()
}
fn cross_honest<E: Be>(ca: usize, cb: usize, a: usize, b: usize) {
    let mut nv = vec![a; ca + 1];
    nv.extend(vec![b; cb + 1]);
    let t: Vec<Vec<S<E>>> = nv.iter().enumerate().map(|(i, n)| vars(&format!("t{}_", i), 1 << n)).collect();
    let res = honest::<E>(&g(K::Cross(ca, cb), &nv), &t);
    check::<S<E>>("the product has the columns of both tables", res.len() == ca + cb + 1);
    // the front variables range over the rows of b, the others over the rows of a
    for i in 0..1 << a {
        for j in 0..1 << b {
            let k = j + (i << b);
            for c in 0..ca {
                S::<E>::eq_all("a column of the first table", res[c][k], t[c][i]);
            }
            for c in 0..cb {
                S::<E>::eq_all("a column of the second table", res[ca + c][k], t[ca + 1 + c][j]);
            }
            S::<E>::eq_all("a row is selected when both are", res[ca + cb][k], t[ca][i] * t[ca + cb + 1][j]);
        }
    }
}
fn same_row<F: Val>(a: &[F], b: &[F]) -> bool {
    a.iter().zip(b).all(|(x, y)| x == y)
}
fn index_sound<E: Be>(mode: Mode, cols: usize, a: usize, b: usize) {
    let mut nv = vec![a; cols + 1];
    nv.extend(vec![b; cols + 1]);
    let t = tables_in::<S<E>>(mode, &format!("{0}s{0}s", "p".repeat(cols)), &nv);
    let e: Vec<Vec<u64>> = nv.iter().map(|n| ex(*n, 1)).collect();
    sound::<E>(mode, &g(K::Index(cols), &nv), &e, &t, |_| {
    let (ti, to) = (&t[..cols], &t[cols + 1..2 * cols + 1]);
    for j in 0..1 << b {
        if !t[2 * cols + 1][j].is_zero() {
            let o = row(to, j);
            rel::<S<E>>("a selected row of the result is a selected row of the table", (0..1 << a).any(|i| !t[cols][i].is_zero() && same_row(&row(ti, i), &o)));
        }
    }
    });
}
fn index_honest<E: Be>(cols: usize, a: usize, b: usize) {
    let mut nv = vec![a; cols + 1];
    nv.extend(vec![b; cols + 1]);
    let mut t = tables_of::<S<E>>(&format!("{0}s", "p".repeat(cols)), &nv[..cols + 1]);
    let mut o = vec![vec![]; cols + 1];
    for j in 0..1 << b {
        let k = pick::<S<E>>(&format!("k{}", j), (1 << a) + 1, 3 * j + 1);
        if k < 1 << a {
            S::<E>::assume_bool(!t[cols][k].is_zero());
        }
        for c in 0..cols {
            o[c].push(if k < 1 << a { t[c][k] } else { var(&format!("o{}_{}", c, j)) });
        }
        o[cols].push(if k < 1 << a { S::<E>::one() } else { S::<E>::zero() });
    }
    t.extend(o);
    honest::<E>(&g(K::Index(cols), &nv), &t);
}
fn join_nv(ca: usize, cb: usize, a: usize, b: usize) -> Vec<usize> {
    let mut nv = vec![a; ca + 1];
    nv.extend(vec![b; cb + 1]);
    nv
}
fn join_sound<E: Be>(mode: Mode, ca: usize, cb: usize, ja: usize, jb: usize, a: usize, b: usize) {
    let nv = join_nv(ca, cb, a, b);
    let t = tables_in::<S<E>>(mode, &format!("{}s{}s", "p".repeat(ca), "p".repeat(cb)), &nv);
    let e: Vec<Vec<u64>> = nv.iter().enumerate().map(|(i, n)| if i < ca { ramp_ex(*n) } else { ex(*n, if i == ca || i == nv.len() - 1 { 1 } else { 0 }) }).collect();
    sound::<E>(mode, &g(K::Join(ca, cb, ja, jb), &nv), &e, &t, |res| {
    join_check(&t, res, ca, cb, ja, jb, a, b);
    });
}
fn join_check<F: Val>(t: &[Vec<F>], res: &[Vec<F>], ca: usize, cb: usize, ja: usize, jb: usize, a: usize, b: usize) {
    rel::<F>("the join has the columns of both tables", res.len() == ca + cb + 1);
    let bs = &t[ca + cb + 1];
    rel_vec("the join selects the rows of the second table", &res[ca + cb], bs);
    for c in 0..cb {
        rel_vec("the join keeps the second table's columns", &res[ca + c], &t[ca + 1 + c]);
    }
    for j in 0..1 << b {
        if bs[j].is_zero() {
            continue;
        }
        rel_eq::<F>("a row joins rows with equal keys", res[ja][j], t[ca + 1 + jb][j]);
        let r = row(&res[..ca], j);
        rel::<F>("a row joins with a selected row of the first table", (0..1 << a).any(|i| !t[ca][i].is_zero() && same_row(&row(&t[..ca], i), &r)));
    }
}
fn join_honest<E: Be>(ca: usize, cb: usize, ja: usize, jb: usize, a: usize, b: usize) {
    let nv = join_nv(ca, cb, a, b);
    let mut t = tables_of::<S<E>>(&format!("{}s{}s", "p".repeat(ca), "p".repeat(cb)), &nv);
    // the first table's key column has no duplicates
    for i in 0..1 << a {
        for k in 0..i {
            S::<E>::assume_bool(t[ja][i] != t[ja][k]);
        }
    }
    for j in 0..1 << b {
        if !t[ca + cb + 1][j].is_zero() {
            let k = pick::<S<E>>(&format!("k{}", j), 1 << a, 3 * j + 1);
            S::<E>::assume_bool(!t[ca][k].is_zero());
            t[ca + 1 + jb][j] = t[ja][k];
        }
    }
    let res = honest::<E>(&g(K::Join(ca, cb, ja, jb), &nv), &t);
    join_check(&t, &res, ca, cb, ja, jb, a, b);
}
/// tables whose keys do not match are refused by the prover
fn join_refuse<E: Be>() {
    let nv = join_nv(1, 1, 1, 0);
    let t = tables_of::<S<E>>("psps", &nv);
    let gd = g(K::Join(1, 1, 0, 0), &nv);
    S::<E>::assume_bool(!t[3][0].is_zero());
    S::<E>::assume_bool((0..2).all(|i| t[1][i].is_zero() || t[0][i] != t[2][0]));
    let (mut pt, ps) = commit_all::<E>(&gd, &t);
    refuses::<S<E>, _, _>("a key without a match is refused", || gd.prove(&mut pt, &ps));
}

// ---------------------------------------------------------------- P24 join reduction
fn reduce_check<F: Val>(t: &[Vec<F>]) {
    boolean("the first selector is boolean", &t[4]);
    boolean("the second selector is boolean", &t[5]);
    let (x, y) = (active(&t[0], &t[1]), active(&t[2], &t[3]));
    for (i, v) in t[0].iter().enumerate() {
        if !t[1][i].is_zero() {
            rel::<F>("a row of the first table is kept exactly if its key is in the second", t[4][i].is_zero() == y.contains(v));
        }
    }
    for (i, v) in t[2].iter().enumerate() {
        if !t[3][i].is_zero() {
            rel::<F>("a row of the second table is kept exactly if its key is in the first", t[5][i].is_zero() == x.contains(v));
        }
    }
}
fn reduce_sound<E: Be>(mode: Mode, a: usize, b: usize, r: usize) {
    let nv = [a, a, b, b, a, b, r, r];
    let t = tables_in::<S<E>>(mode, "pspsmmr1", &nv);
    let z = |k: usize| {
        let mut v = ex(k, 0);
        v[0] = 1;
        v
    };
    let e = [ex(a, 0), z(a), ex(b, 1), z(b), ex(a, 1), ex(b, 1), ramp_ex(r), ex(r, 1)];
    sound::<E>(mode, &g(K::Reduce, &nv), &e, &t, |_| {
    reduce_check(&t);
    });
}
fn reduce_honest<E: Be>(a: usize, b: usize, r: usize) {
    let ((p, s), (q, t)) = (small::<S<E>>("p", a, r), small("q", b, r));
    let m = |p: &[S<E>], nv: usize| mle(nv, p.to_vec());
    let (l, k) = calc_join_reduction_lr_sel_advice::<E>(&m(&p, a), &m(&s, a), &m(&q, b), &m(&t, b));
    let ts = [p, s, q, t, l.evaluations, k.evaluations, ramp(r), ones(r)];
    reduce_check(&ts);
    honest::<E>(&g(K::Reduce, &[a, a, b, b, a, b, r, r]), &ts);
}

// ---------------------------------------------------------------- P25 group by
type Aggs = &'static [(usize, bool)];
fn group_check<F: Val>(t: &[Vec<F>], res: &[Vec<F>], cols: usize, key: usize, aggs: Aggs) {
    rel::<F>("one column per group and aggregate", res.len() == aggs.len() + 2);
    let (keys, s) = (&t[key], &t[cols]);
    let (gr, sel) = (&res[0], &res[res.len() - 1]);
    boolean("a group is selected or not", sel);
    let u = active(gr, sel);
    distinct("a group occurs once", &u);
    included("every selected row has its group", &active(keys, s), &u);
    for i in 0..gr.len() {
        if sel[i].is_zero() {
            continue;
        }
        rel::<F>("a group has a selected row", active(keys, s).contains(&gr[i]));
        for (k, (c, sum)) in aggs.iter().enumerate() {
            if *sum {
                rel_eq::<F>("the sum of a group", res[k + 1][i], weight(gr[i], keys, &prod(s, &t[*c])));
            } else {
                rel_eq::<F>("the count of a group", res[k + 1][i], weight(gr[i], keys, s));
            }
        }
    }
}
fn group_shape(cols: usize, key: usize, aggs: Aggs, a: usize, r: usize) -> (G, usize) {
    let sums = aggs.iter().filter(|x| x.1).count();
    let mut nv = vec![a; cols + 4 + sums];
    nv.extend([r, r]);
    (g(K::Group(cols, key, aggs), &nv), sums)
}
fn group_sound<E: Be>(mode: Mode, cols: usize, key: usize, aggs: Aggs, a: usize, r: usize) {
    let (gd, sums) = group_shape(cols, key, aggs, a, r);
    let t = tables_in::<S<E>>(mode, &format!("{}spmm{}r1", "v".repeat(cols), "m".repeat(sums)), &gd.nv);
    let n = 1usize << a;
    let one = |v: u64| {
        let mut x = ex(a, 0);
        x[n - 1] = v;
        x
    };
    // one group, of key 1; every other column holds 5
    let mut e: Vec<Vec<u64>> = (0..cols).map(|c| ex(a, if c == key { 1 } else { 5 })).collect();
    e.extend([ex(a, 1), one(1), one(1), one(n as u64)]);
    e.extend(aggs.iter().filter(|x| x.1).map(|(c, _)| one(if *c == key { 1 } else { 5 } * n as u64)));
    e.extend([ramp_ex(r), ex(r, 1)]);
    sound::<E>(mode, &gd, &e, &t, |res| {
    group_check(&t, res, cols, key, aggs);
    });
}
fn group_honest<E: Be>(cols: usize, key: usize, aggs: Aggs, a: usize, r: usize) {
    let (gd, _) = group_shape(cols, key, aggs, a, r);
    let (p, s) = small::<S<E>>("k", a, r);
    let mut groups: Vec<S<E>> = vec![];
    for k in active(&p, &s) {
        if !groups.contains(&k) {
            groups.push(k);
        }
    }
    let mut t: Vec<Vec<S<E>>> = (0..cols).map(|c| if c == key { p.clone() } else { vars(&format!("v{}_", c), 1 << a) }).collect();
    let (q, qs) = lay(&groups, a);
    let total = |w: &[S<E>]| q.iter().zip(&qs).map(|(x, k)| if k.is_zero() { S::<E>::zero() } else { weight(*x, &p, w) }).collect::<Vec<_>>();
    let count = total(&s);
    let sums: Vec<_> = aggs.iter().filter(|x| x.1).map(|(c, _)| total(&prod(&s, &t[*c]))).collect();
    t.extend([s.clone(), q.clone(), qs.clone(), count]);
    t.extend(sums);
    t.extend([ramp(r), ones(r)]);
    let res = honest::<E>(&gd, &t);
    group_check(&t, &res, cols, key, aggs);
}
/// instructions that name no column are refused on both sides
fn group_refuse<E: Be>(key: usize, col: usize) {
    let (mut gd, _) = group_shape(2, 0, &[(1, true)], 1, 1);
    let t: Vec<Vec<S<E>>> = (0..gd.nv.len()).map(|i| vars(&format!("t{}_", i), 2)).collect();
    gd.k = match (key, col) {
        (0, 2) => K::Group(2, 0, &[(2, true)]),
        (0, _) => K::Group(2, 0, &[(9, true)]),
        (k, _) => K::Group(2, k, &[(1, true)]),
    };
    let (mut pt, ps) = commit_all::<E>(&gd, &t);
    refuses::<S<E>, _, _>("the prover refuses a column the table does not have", || gd.prove(&mut pt, &ps));
    let (_, mut vt) = mock_trackers::<E>(1);
    vt.set_compiled_proof(crate::checks::tracker::comms_only(&pt));
    let cs: Vec<_> = (0..gd.nv.len()).map(|i| vt.transfer_prover_comm(TrackerID(i))).collect();
    refuses::<S<E>, _, _>("the verifier refuses a column the table does not have", || gd.verify(&mut vt, &cs));
}

// ---------------------------------------------------------------- P26 prover's advice
fn ints<F: Val>(name: &str, nv: usize) -> Vec<F> {
    (0..1 << nv).map(|i| row_or(i, 1 << nv, pattern(name == "b", i), || int(&format!("{}{}", name, i), 1 << 62))).collect()
}
type Tr<E> = (ProverTrackerRef<E, M<E>>, Bag<E, M<E>>, Bag<E, M<E>>);
fn two_bags<E: Be>(a: usize, b: usize, t: &[Vec<S<E>>]) -> Tr<E> {
    let (pt, ps) = commit_all::<E>(&g(K::Eq, &[a, a, b, b]), t);
    let (x, y) = (bag(&ps, 0), bag(&ps, 2));
    (pt, x, y)
}
fn ev<E: Be>(b: &Bag<E, M<E>>) -> (Vec<S<E>>, Vec<S<E>>) {
    (b.poly.evaluations(), b.selector.evaluations())
}
/// a part of a bag: values where `keep` holds, with the bag's multiplicities
fn part_of<F: Val>(label: &str, part: (&[F], &[F]), whole: (&[F], &[F]), keep: impl Fn(&F) -> bool) {
    let vals = active(part.0, part.1).into_iter().chain(active(whole.0, whole.1));
    let mut seen: Vec<F> = vec![];
    for v in vals {
        if seen.contains(&v) {
            continue;
        }
        seen.push(v);
        let want = if keep(&v) { weight(v, whole.0, whole.1) } else { F::zero() };
        F::eq_all(label, weight(v, part.0, part.1), want);
    }
}
fn committed<E: Be>(pt: &ProverTrackerRef<E, M<E>>, ps: &[&TrackedPoly<E, M<E>>]) {
    let t = pt.clone_underlying_tracker();
    for p in ps {
        check::<S<E>>("the part is committed", t.materialized_comms.contains_key(&p.id));
    }
}
fn split_sets<E: Be>(set: bool, a: usize, b: usize) {
    let t = vec![ints::<S<E>>("a", a), bits("as", 1 << a), ints("b", b), bits("bs", 1 << b)];
    let (mut pt, x, y) = two_bags::<E>(a, b, &t);
    let (xa, ya) = (active(&t[0], &t[1]), active(&t[2], &t[3]));
    let (in_a, in_b) = (|v: &S<E>| xa.contains(v), |v: &S<E>| ya.contains(v));
    let mut parts = vec![];
    if set {
        no_dup(&xa);
        no_dup(&ya);
        let (l, m, r) = must::<S<E>, _, _>("sets split", || set_lmr_split(&mut pt, &x, &y));
        committed(&pt, &[&l.poly, &l.selector, &m.poly, &m.selector, &r.poly, &r.selector]);
        check::<S<E>>("the common part fits the smaller set", m.num_vars() == a.min(b));
        let (mp, ms) = ev(&m);
        part_of("what is in both, once", (&mp, &ms), (&t[0], &t[1]), in_b);
        parts.extend([l, m, r]);
    } else {
        let (l, ma, mb, r) = must::<S<E>, _, _>("bags split", || bag_lmr_split(&mut pt, &x, &y));
        committed(&pt, &[&l.poly, &l.selector, &ma.poly, &ma.selector, &mb.poly, &mb.selector, &r.poly, &r.selector]);
        let ((p, s), (q, k)) = (ev(&ma), ev(&mb));
        part_of("the first's part of what is in both", (&p, &s), (&t[0], &t[1]), in_b);
        part_of("the second's part of what is in both", (&q, &k), (&t[2], &t[3]), in_a);
        check::<S<E>>("parts have the sizes of their bags", ma.num_vars() == a && mb.num_vars() == b);
        parts.extend([l, ma, r]);
    }
    let ((lp, ls), (rp, rs)) = (ev(&parts[0]), ev(&parts[2]));
    check::<S<E>>("the outer parts have the sizes of their bags", parts[0].num_vars() == a && parts[2].num_vars() == b);
    part_of("what is only in the first", (&lp, &ls), (&t[0], &t[1]), |v| !in_b(v));
    part_of("what is only in the second", (&rp, &rs), (&t[2], &t[3]), |v| !in_a(v));
    for p in &parts {
        boolean("the selector of a part is boolean", &ev(p).1);
    }
}
fn split_mults<E: Be>(a: usize, b: usize) {
    let t = vec![ints::<S<E>>("a", a), bits("as", 1 << a), ints("b", b), bits("bs", 1 << b)];
    let (mut pt, x, y) = two_bags::<E>(a, b, &t);
    let (xa, ya) = (active(&t[0], &t[1]), active(&t[2], &t[3]));
    let (in_a, in_b) = (|v: &S<E>| xa.contains(v), |v: &S<E>| ya.contains(v));
    let (l, m, r, lm, am, bm, rm) = must::<S<E>, _, _>("bags split", || bag_lmr_multiplicity_split(&mut pt, &x, &y));
    committed(&pt, &[&l.poly, &l.selector, &m.poly, &m.selector, &r.poly, &r.selector, &lm, &am, &bm, &rm]);
    let w = |b: &Bag<E, M<E>>, m: &TrackedPoly<E, M<E>>| prod(&ev(b).1, &m.evaluations());
    part_of("what is only in the first", (&ev(&l).0, &w(&l, &lm)), (&t[0], &t[1]), |v| !in_b(v));
    part_of("the first's part of what is in both", (&ev(&m).0, &w(&m, &am)), (&t[0], &t[1]), in_b);
    part_of("the second's part of what is in both", (&ev(&m).0, &w(&m, &bm)), (&t[2], &t[3]), in_a);
    part_of("what is only in the second", (&ev(&r).0, &w(&r, &rm)), (&t[2], &t[3]), |v| !in_a(v));
    for p in [&l, &m, &r] {
        let (p, s) = ev(p);
        boolean("the selector of a part is boolean", &s);
        distinct("a part holds a value once", &active(&p, &s));
    }
}
/// selected values sorted, without duplicates, behind the unselected zeros
fn laid_out<F: Val>(p: &[F], s: &[F]) {
    boolean("the selector is boolean", s);
    for i in 0..p.len() {
        if s[i].is_zero() {
            F::eq_all("unselected entries are zero", p[i], F::zero());
        }
        if i + 1 < p.len() && !s[i].is_zero() {
            check::<F>("selected entries are at the end", !s[i + 1].is_zero());
            check::<F>("selected entries increase", p[i] < p[i + 1]);
        }
    }
}
fn supp_advice<E: Be>(a: usize) {
    let t = vec![ints::<S<E>>("a", a), bits("as", 1 << a), vec![S::<E>::zero()], vec![S::<E>::zero()]];
    let (_, x, _) = two_bags::<E>(a, 0, &t);
    let (u, us, m) = must::<S<E>, _, _>("support of a bag", || calc_bag_supp_advice(&x));
    check::<S<E>>("the support has the bag's size", u.num_vars == a && us.num_vars == a && m.num_vars == a);
    let (u, us) = (u.evaluations, us.evaluations);
    laid_out(&u, &us);
    let (x, y) = (active(&t[0], &t[1]), active(&u, &us));
    included("a value of the bag is in the support", &x, &y);
    included("a value of the support is in the bag", &y, &x);
    same_weights("multiplicities count the occurrences", &[(&t[0], &t[1])], &[(&u, &prod(&us, &m.evaluations))]);
}
fn disj_advice<E: Be>(a: usize, b: usize) {
    let t = vec![ints::<S<E>>("a", a), bits("as", 1 << a), ints("b", b), bits("bs", 1 << b)];
    let (_, x, y) = two_bags::<E>(a, b, &t);
    let (u, us, ma, mb) = must::<S<E>, _, _>("disjointness advice", || calc_bag_disjoint_advice(&x, &y));
    check::<S<E>>("the sum has room for both bags", [&u, &us, &ma, &mb].iter().all(|p| p.num_vars == a.max(b) + 1));
    let (u, us) = (u.evaluations, us.evaluations);
    laid_out(&u, &us);
    let both: Vec<S<E>> = active(&t[0], &t[1]).into_iter().chain(active(&t[2], &t[3])).collect();
    let y = active(&u, &us);
    included("a value of either bag is in the sum's support", &both, &y);
    included("a value of the sum's support is in a bag", &y, &both);
    same_weights("multiplicities of the first bag", &[(&t[0], &t[1])], &[(&u, &prod(&us, &ma.evaluations))]);
    same_weights("multiplicities of the second bag", &[(&t[2], &t[3])], &[(&u, &prod(&us, &mb.evaluations))]);
}
fn incl_advice<E: Be>(a: usize, b: usize) {
    let t = vec![vars::<S<E>>("a", 1 << a), bits("as", 1 << a), vars("b", 1 << b), bits("bs", 1 << b)];
    let (_, x, y) = two_bags::<E>(a, b, &t);
    let m = calc_bag_inclusion_advice_from_bag(&x, &y);
    check::<S<E>>("one multiplicity per entry", m.num_vars == b);
    let yb = active(&t[2], &t[3]);
    // what is not included cannot be accounted for
    part_of("multiplicities count the occurrences", (&t[2], &prod(&t[3], &m.evaluations)), (&t[0], &t[1]), |v| yb.contains(v));
    let z = |i: usize, n: usize| mle(n, t[i].clone());
    let k = calc_bag_inclusion_advice_from_mle::<E>(&z(0, a), &z(1, a), &z(2, b), &z(3, b));
    eq_vec("from polynomials or bags", &k.evaluations, &m.evaluations);
}
fn reduce_advice<E: Be>(a: usize, b: usize) {
    let t = vec![vars::<S<E>>("a", 1 << a), bits("as", 1 << a), vars("b", 1 << b), bits("bs", 1 << b)];
    let z = |i: usize, n: usize| mle(n, t[i].clone());
    let (l, r) = calc_join_reduction_lr_sel_advice::<E>(&z(0, a), &z(1, a), &z(2, b), &z(3, b));
    check::<S<E>>("selectors have the sizes of the tables", l.num_vars == a && r.num_vars == b);
    let mut t = t;
    t.extend([l.evaluations, r.evaluations]);
    reduce_check(&t);
}
fn transform_advice<E: Be>(a: usize, b: usize) {
    let nv = join_nv(1, 1, a, b);
    let t = tables_of::<S<E>>("psps", &nv);
    let (_, ps) = commit_all::<E>(&g(K::Join(1, 1, 0, 0), &nv), &t);
    let (ta, tb) = (tab(&ps, 0, 1), tab(&ps, 2, 1));
    let matched = (0..1 << b).all(|j| t[3][j].is_zero() || (0..1 << a).any(|i| !t[1][i].is_zero() && t[0][i] == t[2][j]));
    let r = guard(|| calc_final_join_one_to_many_index_transform(&ta, &tb, 0, 0));
    match r {
        Ok(Ok(ix)) => {
            check::<S<E>>("an unmatched key is refused", matched);
            check::<S<E>>("one index per row", ix.len() == 1 << b);
            for j in 0..ix.len() {
                check::<S<E>>("indices are rows of the first table", ix[j] < 1 << a);
                if !t[3][j].is_zero() {
                    S::<E>::eq_all("the index of a row with that key", t[0][ix[j]], t[2][j]);
                    check::<S<E>>("the index of a selected row", !t[1][ix[j]].is_zero());
                }
            }
            let m = must::<S<E>, _, _>("apply the indices", || calc_index_transformed_bag(&ix, &ps[0], &ps[3]));
            for j in 0..ix.len() {
                S::<E>::eq_all("selected rows hold the indexed value, others zero", m.evaluations[j], t[3][j] * t[0][ix[j]]);
            }
        }
        _ => check::<S<E>>("matched keys are not refused", !matched),
    }
}

// ---------------------------------------------------------------- P29 one gadget after another
const EQ_EQ: K = K::Seq(&[(K::Eq, &[0, 1, 2, 3]), (K::Eq, &[2, 3, 4, 5])]);
const SORT_INCL: K = K::Seq(&[(K::Sort, &[0, 1, 4, 5]), (K::Incl, &[0, 1, 2, 3])]);
const INCL_BOTH: K = K::Seq(&[(K::Incl, &[0, 1, 2, 3]), (K::Incl, &[2, 3, 0, 1])]);
const CROSS_SEL: K = K::Seq(&[(K::Cross(1, 1), &[0, 1, 2, 3]), (K::SelValid, &[6])]);
const CROSS_EQ: K = K::Seq(&[(K::Cross(1, 1), &[0, 1, 2, 3]), (K::Eq, &[6, 8, 4, 5]), (K::NoZeros, &[4, 5])]);
const JOIN_SEL: K = K::Seq(&[(K::Join(1, 1, 0, 0), &[0, 1, 2, 3]), (K::SelValid, &[1]), (K::SelValid, &[3])]);
fn seq_sound<E: Be>(mode: Mode, kind: usize, a: usize) {
    let (k, kinds, nv): (K, &str, Vec<usize>) = match kind {
        0 => (EQ_EQ, "pspsps", vec![a; 6]),
        1 => (SORT_INCL, "pspsr1", vec![a, a, a, a, 1, 1]),
        2 => (INCL_BOTH, "psps", vec![a; 4]),
        3 => (CROSS_SEL, "pmpm", vec![a, a, 1, 1]),
        4 => (CROSS_EQ, "pspsps", vec![a, a, 1, 1, a + 1, a + 1]),
        _ => (JOIN_SEL, "pmpm", vec![a, a, a, a]),
    };
    let t = tables_in::<S<E>>(mode, kinds, &nv);
    let mut e: Vec<Vec<u64>> = nv.iter().map(|n| ex(*n, 1)).collect();
    if kind == 5 {
        e[0] = ramp_ex(a);
        e[2] = ramp_ex(a);
    }
    if kind == 1 {
        e[0] = ramp_ex(a);
        e[2] = ramp_ex(a);
        e[4] = ramp_ex(1);
    }
    sound::<E>(mode, &g(k, &nv), &e, &t, |res| {
        let bag = |i: usize| (&t[i][..], &t[i + 1][..]);
        let act = |i: usize| active(&t[i], &t[i + 1]);
        match kind {
            0 => same_weights("the first and the third bag agree", &[bag(0)], &[bag(4)]),
            1 => {
                steps("the first bag is sorted", &t[0], 1);
                included("the sorted bag is included", &act(0), &act(2));
            }
            2 => {
                included("the first bag is included", &act(0), &act(2));
                included("the second bag is included", &act(2), &act(0));
            }
            3 => boolean("the product's selector is boolean", &res[2]),
            4 => {
                same_weights("the product's first column", &[(&res[0], &res[2])], &[bag(4)]);
                for (x, s) in t[4].iter().zip(&t[5]) {
                    rel::<S<E>>("a selected entry is not zero", s.is_zero() || !x.is_zero());
                }
            }
            _ => {
                boolean("the first selector is boolean", &t[1]);
                boolean("the second selector is boolean", &t[3]);
                included("every selected key has a match", &act(2), &act(0));
            }
        }
    });
}
fn shuffled<F: Val>(name: &str, p: &[F], s: &[F]) -> (Vec<F>, Vec<F>) {
    let o = perm_of::<F>(name, p.len());
    (at(p, &o), at(s, &o))
}
fn seq_honest<E: Be>(kind: usize, a: usize) {
    let n = 1 << a;
    let (p, s) = (vars::<S<E>>("p", n), bits::<S<E>>("s", n));
    match kind {
        0 => {
            let (q, r) = shuffled("o", &p, &s);
            let (u, v) = shuffled("w", &q, &r);
            honest::<E>(&g(EQ_EQ, &[a; 6]), &[p, s, q, r, u, v]);
        }
        1 => {
            let (p, s) = sorted::<S<E>>("", a, 1);
            let (q, r) = shuffled("o", &p, &s);
            honest::<E>(&g(SORT_INCL, &[a, a, a, a, 1, 1]), &[p, s, q, r, ramp(1), ones(1)]);
        }
        2 => {
            // the same values, repeated differently
            let (mut q, mut r) = shuffled("o", &p, &s);
            q[0] = q[n - 1];
            r[0] = r[n - 1];
            let (p, s) = shuffled("w", &q, &r);
            honest::<E>(&g(INCL_BOTH, &[a; 4]), &[p, s, q, r]);
        }
        3 => {
            let (q, r) = (vars::<S<E>>("q", 2), bits::<S<E>>("r", 2));
            honest::<E>(&g(CROSS_SEL, &[a, a, 1, 1]), &[p, s, q, r]);
        }
        4 => {
            let (q, r) = (vars::<S<E>>("q", 2), bits::<S<E>>("r", 2));
            for x in &p {
                S::<E>::assume_bool(!x.is_zero());
            }
            let u: Vec<S<E>> = (0..2 * n).map(|k| p[k / 2]).collect();
            let v: Vec<S<E>> = (0..2 * n).map(|k| s[k / 2] * r[k % 2]).collect();
            honest::<E>(&g(CROSS_EQ, &[a, a, 1, 1, a + 1, a + 1]), &[p, s, q, r, u, v]);
        }
        _ => {
            // a one-to-many join: different keys, each used any number of times
            for i in 0..n {
                for j in 0..i {
                    S::<E>::assume_bool(p[i] != p[j]);
                }
            }
            let s = ones::<S<E>>(a);
            let ks: Vec<usize> = (0..n).map(|i| pick::<S<E>>(&format!("k{}", i), n, 3 * i + 1)).collect();
            let (q, r) = (at(&p, &ks), bits::<S<E>>("r", n));
            honest::<E>(&g(JOIN_SEL, &[a; 4]), &[p, s, q, r]);
        }
    }
}

const GADGET: &[&str] = &[
    "input selectors of the statement are 0 or 1 unless the task says otherwise (SelectorValidIOP's duty)",
    "range bags hold 0..2^r-1, all selected (the caller's duty)",
    "challenges are independent of what was absorbed before them (random oracle)",
    "the commitment scheme is replaced by one whose commitment is the polynomial (binding: P08-P10); compiled claims are assumed true (P13, P14)",
];
const ADVICE: &[&str] = &["selectors are 0 or 1"];
pub fn props(v: &mut Vec<Prop>) {
    let mut t = vec![];
    task!(t, quick, "multi sound 1 | 1", multi_sound(Direct, &[1], &[1]));
    task!(t, quick, "multi refute 1 | 1", multi_sound(Refute, &[1], &[1]));
    task!(t, quick, "multi sound 1 | 0", multi_sound(Direct, &[1], &[0]));
    task!(t, quick, "multi refute 1 | 0", multi_sound(Refute, &[1], &[0]));
    task!(t, quick, "multi sound 1,0 | 1", multi_sound(Direct, &[1, 0], &[1]));
    task!(t, quick, "multi refute 1,0 | 1", multi_sound(Refute, &[1, 0], &[1]));
    task!(t, quick, "multi sound 2 | 1", multi_sound(Direct, &[2], &[1]));
    task!(t, quick, "multi refute 2 | 1", multi_sound(Refute, &[2], &[1]));
    task!(t, thorough, "multi refute 2 | 2", multi_sound(Refute, &[2], &[2]));
    task!(t, thorough, "multi refute 2,1 | 1,1", multi_sound(Refute, &[2, 1], &[1, 1]));
    task!(t, quick, "multi honest 1 | 1", multi_honest(1, &[1]));
    task!(t, quick, "multi honest 1 | 1,2", multi_honest(1, &[1, 2]));
    task!(t, thorough, "multi honest 2 | 2,2", multi_honest(2, &[2, 2]));
    task!(t, quick, "equality sound 1", eq_sound(Direct, 1));
    task!(t, quick, "equality refute 1", eq_sound(Refute, 1));
    task!(t, thorough, "equality refute 2", eq_sound(Refute, 2));
    task!(t, quick, "equality honest 1", eq_honest(1));
    task!(t, thorough, "equality honest 2", eq_honest(2));
    task!(t, quick, "sum sound 0,0,1", sum_sound(Direct, 0, 0, 1));
    task!(t, quick, "sum refute 0,0,1", sum_sound(Refute, 0, 0, 1));
    task!(t, quick, "sum sound 1,0,1", sum_sound(Direct, 1, 0, 1));
    task!(t, quick, "sum refute 1,0,1", sum_sound(Refute, 1, 0, 1));
    task!(t, thorough, "sum refute 1,1,2", sum_sound(Refute, 1, 1, 2));
    task!(t, quick, "sum honest 1,1", sum_honest(1, 1));
    task!(t, quick, "sum honest 1,0", sum_honest(1, 0));
    task!(t, quick, "wide multi refute 3 | 3", [1, 1, 1] multi_sound(Refute, &[3], &[3]));
    task!(t, quick, "wide multi refute 3,2 | 3", [1, 0, 1] multi_sound(Refute, &[3, 2], &[3]));
    task!(t, quick, "wide multi honest 3 | 3", [1, 1, 1] multi_honest(3, &[3]));
    task!(t, quick, "wide multi honest 3 | 3,4,3", [1, 1, 1] multi_honest(3, &[3, 4, 3]));
    task!(t, quick, "wide equality refute 4", [1, 1, 1] eq_sound(Refute, 4));
    task!(t, quick, "wide equality honest 4", [1, 1, 1] eq_honest(4));
    task!(t, quick, "wide sum refute 3,3,4", [1, 1, 1] sum_sound(Refute, 3, 3, 4));
    task!(t, quick, "wide sum honest 3,2", [1, 1, 1] sum_honest(3, 2));
    task!(t, quick, "wide sum honest 2,3", [1, 1, 1] sum_honest(2, 3));
    for s in 0..8 {
        task!(t, quick, format!("row {} multi refute 3 | 3", s), [1, s, 1] multi_sound(Refute, &[3], &[3]));
        task!(t, quick, format!("row {} multi refute 3,2 | 3", s), [1, s, 0] multi_sound(Refute, &[3, 2], &[3]));
    }
    for s in [0, 3, 6] {
        task!(t, quick, format!("row {} sum refute 3,3,4", s), [1, s, 1] sum_sound(Refute, 3, 3, 4));
    }
    for s in [1, 2, 4, 5, 7] {
        task!(t, quick, format!("row {} sum refute 3,3,4", s), [1, s, 1] sum_sound(Refute, 3, 3, 4));
    }
    for s in [0, 5, 10, 15] {
        task!(t, quick, format!("row {} equality refute 4", s), [1, s, 1] eq_sound(Refute, 4));
    }
    for s in [1, 2, 3, 4, 6, 7, 8, 9, 11, 12, 13, 14] {
        task!(t, quick, format!("row {} equality refute 4", s), [1, s, 1] eq_sound(Refute, 4));
    }
    task!(t, quick, "attack multi 1 | 1", multi_sound(Attack(0), &[1], &[1]));
    task!(t, quick, "attack equality 1", eq_sound(Attack(0), 1));
    task!(t, quick, "attack sum 1,0,1", sum_sound(Attack(0), 1, 0, 1));
    task!(t, quick, "attack multi 2 | 1", multi_sound(Attack(0), &[2], &[1]));
    task!(t, quick, "attack multi 1,0 | 1", multi_sound(Attack(0), &[1, 0], &[1]));
    task!(t, quick, "attack multi 1 | 0,1", multi_sound(Attack(0), &[1], &[0, 1]));
    task!(t, quick, "attack sum 1,1,1", sum_sound(Attack(0), 1, 1, 1));
    for s in 0..4 {
        task!(t, quick, format!("attack row {} multi 3 | 3", s), [1, s, 1] multi_sound(Attack(0), &[3], &[3]));
    }
    for s in 0..4 {
        task!(t, quick, format!("attack row {} equality 3", s), [1, s, 1] eq_sound(Attack(0), 3));
    }
    for s in 0..2 {
        task!(t, quick, format!("attack row {} sum 3,3,4", s), [1, s, 1] sum_sound(Attack(0), 3, 3, 4));
    }
    v.push(Prop { id: "P15", functions: &["BagMultitoolIOP::prove/verify", "BagEqIOP::prove/verify", "BagSumIOP::prove/verify"], bounds: "multi-bag equality with 1-2 bags a side of 1 to 4 entries, bag equality with 2 entries (4 thorough), bag sums of 1+1 and 2+1 entries (2+2 thorough); every proof commitment and claimed sum arbitrary; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values; and attacks: the prover's own code on any statement of 1 to 4 entries, of any values, and of 8 entries with one symbolic row", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "sound 0 in 1", incl_sound(Direct, 0, 1, false));
    task!(t, quick, "refute 0 in 1", incl_sound(Refute, 0, 1, false));
    task!(t, quick, "sound 1 in 1", incl_sound(Direct, 1, 1, false));
    task!(t, quick, "refute 1 in 1", incl_sound(Refute, 1, 1, false));
    task!(t, quick, "sound 1 in 1 advice", incl_sound(Direct, 1, 1, true));
    task!(t, quick, "refute 1 in 1 advice", incl_sound(Refute, 1, 1, true));
    task!(t, thorough, "sound 1 in 2", incl_sound(Direct, 1, 2, false));
    task!(t, quick, "refute 1 in 2", incl_sound(Refute, 1, 2, false));
    task!(t, thorough, "sound 2 in 1", incl_sound(Direct, 2, 1, false));
    task!(t, quick, "refute 2 in 1", incl_sound(Refute, 2, 1, false));
    task!(t, thorough, "refute 2 in 2", incl_sound(Refute, 2, 2, true));
    task!(t, quick, "honest 1 in 1", incl_honest(1, 1));
    task!(t, quick, "honest 1 in 2", incl_honest(1, 2));
    task!(t, quick, "honest 2 in 1", incl_honest(2, 1));
    task!(t, quick, "wide refute 3 in 3", [1, 1, 1] incl_sound(Refute, 3, 3, false));
    task!(t, quick, "wide refute 3 in 3 advice", [1, 1, 1] incl_sound(Refute, 3, 3, true));
    task!(t, quick, "wide honest 3 in 3", [1, 1, 1] incl_honest(3, 3));
    task!(t, quick, "wide honest 2 in 4", [1, 1, 1] incl_honest(2, 4));
    task!(t, quick, "wide honest 4 in 3", [1, 1, 1] incl_honest(4, 3));
    for s in 0..8 {
        task!(t, quick, format!("row {} refute 3 in 3", s), [1, s, 1] incl_sound(Refute, 3, 3, false));
        task!(t, quick, format!("row {} refute 3 in 3 advice", s), [1, s, 1] incl_sound(Refute, 3, 3, true));
    }
    task!(t, quick, "attack 1 in 1", incl_sound(Attack(0), 1, 1, false));
    task!(t, quick, "attack 2 in 1", incl_sound(Attack(0), 2, 1, false));
    task!(t, quick, "attack 1 in 2", incl_sound(Attack(0), 1, 2, false));
    task!(t, quick, "attack 1 in 1 advice", incl_sound(Attack(0), 1, 1, true));
    task!(t, quick, "attack 2 in 1 advice", incl_sound(Attack(0), 2, 1, true));
    task!(t, quick, "attack 1 in 2 advice", incl_sound(Attack(0), 1, 2, true));
    for s in 0..4 {
        task!(t, quick, format!("attack row {} 3 in 3", s), [1, s, 1] incl_sound(Attack(0), 3, 3, false));
    }
    for s in 0..4 {
        task!(t, quick, format!("attack row {} 3 in 4 advice", s), [1, s, 1] incl_sound(Attack(0), 3, 4, true));
    }
    v.push(Prop { id: "P16", functions: &["BagInclusionIOP::prove/prove_with_advice/verify/verify_with_advice", "calc_bag_inclusion_advice_from_bag"], bounds: "1 to 4 entries in 2 to 4 entries; with and without caller-supplied multiplicities; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values; and attacks: the prover's own code on any statement of 1 to 4 entries, of any values, and of 8 entries with one symbolic row", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "no zeros sound 2", nozeros_sound(Direct, 2));
    task!(t, quick, "no zeros refute 2", nozeros_sound(Refute, 2));
    task!(t, quick, "no zeros honest 2", nozeros_honest(2));
    task!(t, quick, "selector sound 2", selvalid_sound(Direct, 2));
    task!(t, quick, "selector refute 2", selvalid_sound(Refute, 2));
    task!(t, quick, "selector honest 2", selvalid_honest(2));
    task!(t, thorough, "no zeros sound 3", nozeros_sound(Direct, 3));
    task!(t, thorough, "no zeros refute 3", nozeros_sound(Refute, 3));
    task!(t, thorough, "no zeros honest 3", nozeros_honest(3));
    task!(t, thorough, "selector sound 4", selvalid_sound(Direct, 4));
    task!(t, thorough, "selector refute 4", selvalid_sound(Refute, 4));
    task!(t, thorough, "selector honest 4", selvalid_honest(4));
    task!(t, quick, "wide no zeros refute 4", [1, 1, 1] nozeros_sound(Refute, 4));
    for a in 1..4 {
        task!(t, quick, format!("attack no zeros {}", a), nozeros_sound(Attack(0), a));
        task!(t, quick, format!("attack selector {}", a), selvalid_sound(Attack(0), a));
    }
    task!(t, quick, "wide no zeros honest 4", [1, 1, 1] nozeros_honest(4));
    task!(t, quick, "wide selector refute 5", [1, 1, 1] selvalid_sound(Refute, 5));
    task!(t, quick, "wide selector honest 5", [1, 1, 1] selvalid_honest(5));
    for s in 0..16 {
        task!(t, quick, format!("row {} no zeros refute 4", s), [1, s, 1] nozeros_sound(Refute, 4));
        task!(t, quick, format!("row {} selector refute 4", s), [1, s, 1] selvalid_sound(Refute, 4));
    }
    v.push(Prop { id: "P17", functions: &["BagNoZerosIOP::prove/verify", "SelectorValidIOP::prove/verify"], bounds: "4 entries (8 and 16 thorough); selectors of the no-zeros gadget are arbitrary field elements; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "sound 1", perm_sound(Direct, 1));
    task!(t, quick, "refute 1", perm_sound(Refute, 1));
    task!(t, quick, "honest 1", perm_honest(1));
    task!(t, quick, "sound 2", perm_sound(Direct, 2));
    task!(t, quick, "refute 2", perm_sound(Refute, 2));
    task!(t, quick, "honest 2", perm_honest(2));
    task!(t, quick, "refused", perm_refuse());
    task!(t, quick, "wide refute 3", [1, 1, 1] perm_sound(Refute, 3));
    task!(t, quick, "wide refute 4", [1, 1, 1] perm_sound(Refute, 4));
    for a in 1..3 {
        task!(t, quick, format!("attack {}", a), perm_sound(Attack(0), a));
    }
    task!(t, quick, "wide honest 3", [1, 1, 1] perm_honest(3));
    task!(t, quick, "wide honest 4", [1, 1, 1] perm_honest(4));
    for s in 0..8 {
        task!(t, quick, format!("row {} refute 3", s), [1, s, 1] perm_sound(Refute, 3));
    }
    task!(t, quick, "wide honest 5", [1, 1, 1] perm_honest(5));
    task!(t, quick, "wide honest 6", [1, 1, 1] perm_honest(6));
    task!(t, quick, "wide refute 5", [1, 1, 1] perm_sound(Refute, 5));
    for s in 0..4 {
        task!(t, quick, format!("attack row {} 3", s), [1, s, 1] perm_sound(Attack(0), 3));
    }
    v.push(Prop { id: "P18", functions: &["BagPrescPermIOP::prove/verify"], bounds: "2 and 4 entries, every permutation; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "sound 1 range 1", sort_sound(Direct, 1, 1));
    task!(t, quick, "refute 1 range 1", sort_sound(Refute, 1, 1));
    task!(t, quick, "sound 1 range 2", sort_sound(Direct, 1, 2));
    task!(t, quick, "refute 1 range 2", sort_sound(Refute, 1, 2));
    task!(t, quick, "sound 2 range 1", sort_sound(Direct, 2, 1));
    task!(t, quick, "refute 2 range 1", sort_sound(Refute, 2, 1));
    task!(t, thorough, "sound 2 range 2", sort_sound(Direct, 2, 2));
    task!(t, thorough, "refute 2 range 2", sort_sound(Refute, 2, 2));
    task!(t, quick, "honest 1 range 2", sort_honest(1, 2));
    task!(t, quick, "honest 2 range 1", sort_honest(2, 1));
    task!(t, thorough, "honest 2 range 2", sort_honest(2, 2));
    task!(t, quick, "wide refute 3 range 2", [1, 1, 1] sort_sound(Refute, 3, 2));
    task!(t, quick, "wide refute 3 range 3", [1, 1, 1] sort_sound(Refute, 3, 3));
    task!(t, quick, "wide honest 3 range 2", [1, 1, 1] sort_honest(3, 2));
    task!(t, quick, "wide honest 4 range 3", [1, 1, 1] sort_honest(4, 3));
    for s in 0..8 {
        task!(t, quick, format!("row {} refute 3 range 2", s), [1, s, 1] sort_sound(Refute, 3, 2));
    }
    task!(t, quick, "wide honest 5 range 4", [1, 1, 1] sort_honest(5, 4));
    task!(t, quick, "wide honest 6 range 3", [1, 1, 1] sort_honest(6, 3));
    task!(t, quick, "attack 1 range 1", sort_sound(Attack(0), 1, 1));
    task!(t, quick, "attack 2 range 1", sort_sound(Attack(0), 2, 1));
    task!(t, quick, "attack 2 range 2", sort_sound(Attack(0), 2, 2));
    for s in 0..4 {
        task!(t, quick, format!("attack row {} 3", s), [1, s, 1] sort_sound(Attack(0), 3, 3));
    }
    v.push(Prop { id: "P19", functions: &["BagStrictSortIOP::prove/verify"], bounds: "2 and 4 entries, ranges of 2 and 4 values; selector arbitrary field elements; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values; and attacks: the prover's own code on any statement of 1 to 4 entries, of any values, and of 8 entries with one symbolic row", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "sound 1 supp 1 range 1", supp_sound(Direct, 1, 1, 1, false));
    task!(t, quick, "refute 1 supp 1 range 1", supp_sound(Refute, 1, 1, 1, false));
    task!(t, quick, "sound 1 supp 1 range 1 advice", supp_sound(Direct, 1, 1, 1, true));
    task!(t, quick, "refute 1 supp 1 range 1 advice", supp_sound(Refute, 1, 1, 1, true));
    task!(t, thorough, "sound 2 supp 1 range 1", supp_sound(Direct, 2, 1, 1, false));
    task!(t, quick, "refute 2 supp 1 range 1", supp_sound(Refute, 2, 1, 1, false));
    task!(t, thorough, "refute 2 supp 2 range 1", supp_sound(Refute, 2, 2, 1, false));
    task!(t, quick, "honest 1 supp 1 range 2", supp_honest(1, 1, 2));
    task!(t, quick, "honest 2 supp 1 range 1", supp_honest(2, 1, 1));
    task!(t, thorough, "honest 2 supp 2 range 2", supp_honest(2, 2, 2));
    task!(t, quick, "wide refute 3 supp 3 range 2", [1, 1, 1] supp_sound(Refute, 3, 3, 2, false));
    task!(t, quick, "wide refute 3 supp 3 range 2 advice", [1, 1, 1] supp_sound(Refute, 3, 3, 2, true));
    task!(t, quick, "wide honest 3 supp 3 range 2", [1, 1, 1] supp_honest(3, 3, 2));
    task!(t, quick, "wide honest 4 supp 3 range 3", [1, 1, 1] supp_honest(4, 3, 3));
    for s in 0..8 {
        task!(t, quick, format!("row {} refute 3 supp 3 range 2", s), [1, s, 1] supp_sound(Refute, 3, 3, 2, false));
    }
    task!(t, quick, "wide honest 5 supp 4 range 3", [1, 1, 1] supp_honest(5, 4, 3));
    task!(t, quick, "attack 1 supp 1 range 2", supp_sound(Attack(0), 1, 1, 2, false));
    task!(t, quick, "attack 2 supp 1 range 1", supp_sound(Attack(2), 2, 1, 1, false));
    task!(t, quick, "attack 1 supp 1 range 1 advice", supp_sound(Attack(0), 1, 1, 1, true));
    for s in 1..8 {
        task!(t, quick, format!("pattern {} honest 4 supp 3 range 5", s), [1, 16 * s + 3, 1] supp_honest(4, 3, 5));
        task!(t, quick, format!("row {} honest 3 supp 3 range 5", s), [2, s, 1] supp_honest(3, 3, 5));
    }
    for s in 0..3 {
        task!(t, quick, format!("attack row {} 3 supp 3 range 4", s), [1, s, 1] supp_sound(Attack(0), 3, 3, 4, false));
    }
    v.push(Prop { id: "P20", functions: &["BagSuppIOP::prove/prove_with_advice/verify/verify_with_advice"], bounds: "bags of 2 and 4 entries, supports of 2 entries (4 thorough for honest runs), ranges of 2 and 4 values; the support's selector is arbitrary; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values in up to eight patterns (apart, in runs, shared, all alike); and attacks: the prover's own code on any statement of 2 entries of any values, of 4 entries out of two or three values, and of 8 entries with one symbolic row", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "bags sound 0,0 range 1", disj_sound(Direct, false, 0, 0, 1));
    task!(t, quick, "bags refute 0,0 range 1", disj_sound(Refute, false, 0, 0, 1));
    task!(t, thorough, "bags sound 1,0 range 1", disj_sound(Direct, false, 1, 0, 1));
    task!(t, quick, "bags refute 1,0 range 1", disj_sound(Refute, false, 1, 0, 1));
    task!(t, thorough, "bags sound 1,1 range 1", disj_sound(Direct, false, 1, 1, 1));
    task!(t, thorough, "bags refute 1,1 range 1", disj_sound(Refute, false, 1, 1, 1));
    task!(t, quick, "sets sound 0,0 range 1", disj_sound(Direct, true, 0, 0, 1));
    task!(t, quick, "sets refute 0,0 range 1", disj_sound(Refute, true, 0, 0, 1));
    task!(t, thorough, "sets sound 1,0 range 1", disj_sound(Direct, true, 1, 0, 1));
    task!(t, quick, "sets refute 1,0 range 1", disj_sound(Refute, true, 1, 0, 1));
    task!(t, thorough, "sets sound 1,1 range 1", disj_sound(Direct, true, 1, 1, 1));
    task!(t, thorough, "sets refute 1,1 range 1", disj_sound(Refute, true, 1, 1, 1));
    task!(t, quick, "bags honest 1,1 range 1", disj_honest(false, 1, 1, 1));
    task!(t, thorough, "bags honest 1,1 range 2", disj_honest(false, 1, 1, 2));
    task!(t, quick, "bags honest 1,0 range 2", disj_honest(false, 1, 0, 2));
    task!(t, quick, "sets honest 1,1 range 1", disj_honest(true, 1, 1, 1));
    task!(t, thorough, "sets honest 1,1 range 2", disj_honest(true, 1, 1, 2));
    task!(t, quick, "wide bags refute 1,1 range 2", [0, 0, 0] disj_sound(Refute, false, 1, 1, 2));
    task!(t, quick, "wide sets refute 1,1 range 2", [0, 0, 0] disj_sound(Refute, true, 1, 1, 2));
    task!(t, quick, "wide bags honest 3,2 range 4", [1, 1, 1] disj_honest(false, 3, 2, 4));
    task!(t, quick, "wide sets honest 3,3 range 4", [1, 1, 1] disj_honest(true, 3, 3, 4));
    task!(t, quick, "wide bags honest 4,4 range 4", [1, 2, 1] disj_honest(false, 4, 4, 4));
    task!(t, quick, "attack bags 0,0 range 1", disj_sound(Attack(0), false, 0, 0, 1));
    task!(t, quick, "attack bags 1,0 range 1", disj_sound(Attack(0), false, 1, 0, 1));
    task!(t, quick, "attack sets 1,0 range 1", disj_sound(Attack(0), true, 1, 0, 1));
    task!(t, quick, "attack sets 0,1 range 1", disj_sound(Attack(0), true, 0, 1, 1));
    task!(t, quick, "attack bags 1,1 range 2", disj_sound(Attack(3), false, 1, 1, 2));
    task!(t, quick, "attack sets 1,1 range 2", disj_sound(Attack(3), true, 1, 1, 2));
    task!(t, quick, "attack bags 2,1 range 2", disj_sound(Attack(2), false, 2, 1, 2));
    for s in [1, 7] {
        task!(t, quick, format!("pattern {} bags honest 3,3 range 5", s), [1, 16 * 7 + s, 1] disj_honest(false, 3, 3, 5));
    }
    for s in [0, 5] {
        task!(t, quick, format!("row {} bags honest 2,3 range 5", s), [1, s, 1] disj_honest(false, 2, 3, 5));
        task!(t, quick, format!("row {} sets honest 3,2 range 5", s), [1, s, 1] disj_honest(true, 3, 2, 5));
    }
    for s in [1, 2, 3, 4, 6, 7] {
        task!(t, thorough, format!("row {} bags honest 2,3 range 5", s), [1, s, 1] disj_honest(false, 2, 3, 5));
        task!(t, thorough, format!("row {} sets honest 3,2 range 5", s), [1, s, 1] disj_honest(true, 3, 2, 5));
    }
    for s in 0..2 {
        task!(t, quick, format!("attack row {} bags 2,2 range 3", s), [1, s, 1] disj_sound(Attack(0), false, 2, 2, 3));
    }
    v.push(Prop { id: "P21", functions: &["BagDisjointIOP::prove/verify", "SetDisjointIOP::prove/verify", "calc_bag_disjoint_advice"], bounds: "1+1 and 2+1 entries (2+2 thorough), ranges of 2 and 4 values; the advice bags of the proof are arbitrary; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values in up to eight patterns (apart, in runs, shared, all alike); and attacks: the prover's own code on any statement of 2 or 3 entries of any values, of 4 entries out of two or three values, and of 8 entries with one symbolic row", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "union refute 0,0 in 1", union_sound(Refute, 0, 0, 1, 1));
    task!(t, quick, "union honest 0,0 in 1", union_honest(0, 0, 1, 2));
    task!(t, quick, "union honest 1,0 in 1", union_honest(1, 0, 1, 1));
    task!(t, quick, "difference sound 0", diff_sound(Direct, [0, 0, 0, 0], 1));
    task!(t, quick, "difference refute 0", diff_sound(Refute, [0, 0, 0, 0], 1));
    task!(t, thorough, "difference sound 1,0,0,0", diff_sound(Direct, [1, 0, 0, 0], 1));
    task!(t, quick, "difference refute 1,0,0,0", diff_sound(Refute, [1, 0, 0, 0], 1));
    task!(t, quick, "difference honest 0", diff_honest([0, 0, 0, 0], 2));
    task!(t, quick, "difference honest 1,0,1,0", diff_honest([1, 0, 1, 0], 2));
    task!(t, quick, "intersection sound 0", inter_sound(Direct, [0, 0, 0, 0, 0], 1));
    task!(t, quick, "intersection refute 0", inter_sound(Refute, [0, 0, 0, 0, 0], 1));
    task!(t, thorough, "intersection sound 1,0,0,0,0", inter_sound(Direct, [1, 0, 0, 0, 0], 1));
    task!(t, quick, "intersection refute 1,0,0,0,0", inter_sound(Refute, [1, 0, 0, 0, 0], 1));
    task!(t, quick, "intersection honest 0", inter_honest([0, 0, 0, 0, 0], 2));
    task!(t, quick, "intersection honest 1,0,1,0,0", inter_honest([1, 0, 1, 0, 0], 2));
    task!(t, quick, "wide union honest 3,3 in 4", [1, 1, 1] union_honest(3, 3, 4, 4));
    task!(t, quick, "wide difference honest 3", [1, 1, 1] diff_honest([3, 3, 3, 3], 4));
    task!(t, quick, "wide intersection honest 3", [1, 1, 1] inter_honest([3, 3, 3, 3, 3], 4));
    task!(t, quick, "wide union refute 1,1 in 2", [0, 0, 0] union_sound(Refute, 1, 1, 2, 2));
    task!(t, quick, "wide difference refute 3", [1, 1, 1] diff_sound(Refute, [3, 3, 3, 3], 4));
    task!(t, quick, "wide intersection refute 3", [1, 1, 1] inter_sound(Refute, [3, 3, 3, 3, 3], 4));
    for s in 0..8 {
        task!(t, quick, format!("row {} difference refute 3", s), [1, s, 1] diff_sound(Refute, [3, 3, 3, 3], 4));
    }
    for s in [0, 3, 6] {
        task!(t, quick, format!("row {} intersection refute 3", s), [1, s, 1] inter_sound(Refute, [3, 3, 3, 3, 3], 4));
    }
    for s in [2, 4, 5, 7] {
        task!(t, quick, format!("row {} intersection refute 3", s), [1, s, 1] inter_sound(Refute, [3, 3, 3, 3, 3], 4));
    }
    task!(t, quick, "attack union 0,0 in 1", union_sound(Attack(0), 0, 0, 1, 2));
    task!(t, quick, "attack union 1,0 in 1", union_sound(Attack(0), 1, 0, 1, 2));
    task!(t, quick, "attack difference 0", diff_sound(Attack(0), [0, 0, 0, 0], 2));
    task!(t, quick, "attack few intersection 0", inter_sound(Attack(2), [0, 0, 0, 0, 0], 2));
    task!(t, quick, "attack few union 1,0 in 1", union_sound(Attack(2), 1, 0, 1, 2));
    task!(t, quick, "attack intersection 0", inter_sound(Attack(0), [0, 0, 0, 0, 0], 2));
    for s in 1..8 {
        task!(t, quick, format!("row {} union honest 3,3 in 4", s), [1, 16 * (5 + s % 2) + s, 1] union_honest(3, 3, 4, 5));
        task!(t, quick, format!("row {} difference honest 3", s), [1, 16 * (5 + s % 2) + s, 1] diff_honest([3, 3, 3, 3], 5));
        task!(t, quick, format!("row {} intersection honest 3", s), [1, 16 * (5 + s % 2) + s, 1] inter_honest([3, 3, 3, 3, 3], 5));
    }
    v.push(Prop { id: "P22", functions: &["SetUnionIOP::prove/verify", "SetDiffIOP::prove/verify", "SetIntersectIOP::prove/verify"], bounds: "sets of 1 and 2 entries, unions of 2 entries, ranges of 2 and 4 values; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values in up to eight patterns (apart, in runs, shared, all alike); and attacks: the prover's own code on any statement of 1 to 4 entries, of any values, and of 8 entries with one symbolic row", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "product 1+1 columns 1x2", cross_honest(1, 1, 1, 2));
    task!(t, quick, "product 2+1 columns 2x1", cross_honest(2, 1, 2, 1));
    task!(t, thorough, "product 2+3 columns 2x3", cross_honest(2, 3, 2, 3));
    task!(t, quick, "transform sound 1 column 1 to 1", index_sound(Direct, 1, 1, 1));
    task!(t, quick, "transform refute 1 column 1 to 1", index_sound(Refute, 1, 1, 1));
    task!(t, quick, "transform sound 2 columns 1 to 1", index_sound(Direct, 2, 1, 1));
    task!(t, quick, "transform refute 2 columns 1 to 1", index_sound(Refute, 2, 1, 1));
    task!(t, thorough, "transform sound 3 columns 1 to 1", index_sound(Direct, 3, 1, 1));
    task!(t, thorough, "transform refute 3 columns 1 to 1", index_sound(Refute, 3, 1, 1));
    task!(t, quick, "transform honest 2 columns 1 to 1", index_honest(2, 1, 1));
    task!(t, quick, "transform honest 3 columns 1 to 2", index_honest(3, 1, 2));
    task!(t, quick, "join sound 2+1 1x0", join_sound(Direct, 2, 1, 0, 0, 1, 0));
    task!(t, quick, "join refute 2+1 1x0", join_sound(Refute, 2, 1, 0, 0, 1, 0));
    task!(t, quick, "join sound 2+2 1x1", join_sound(Direct, 2, 2, 1, 0, 1, 1));
    task!(t, quick, "join refute 2+2 1x1", join_sound(Refute, 2, 2, 1, 0, 1, 1));
    task!(t, quick, "join honest 2+2 1x1", join_honest(2, 2, 1, 0, 1, 1));
    task!(t, quick, "join honest 1+2 1x2", join_honest(1, 2, 0, 1, 1, 2));
    task!(t, quick, "join refused", join_refuse());
    task!(t, quick, "wide product 3+2 columns 3x4", [1, 1, 1] cross_honest(3, 2, 3, 4));
    task!(t, quick, "wide transform refute 3 columns 3 to 3", [1, 1, 1] index_sound(Refute, 3, 3, 3));
    task!(t, quick, "wide transform honest 4 columns 3 to 4", [1, 1, 1] index_honest(4, 3, 4));
    task!(t, quick, "wide join refute 3+3 2x2", [1, 1, 1] join_sound(Refute, 3, 3, 2, 1, 2, 2));
    task!(t, quick, "wide join honest 3+2 3x3", [1, 1, 1] join_honest(3, 2, 1, 1, 3, 3));
    task!(t, quick, "wide join honest 2+1 4x2", [1, 2, 1] join_honest(2, 1, 1, 0, 4, 2));
    task!(t, quick, "wide join honest 2+3 3x4", [1, 1, 1] join_honest(2, 3, 1, 2, 3, 4));
    for s in 0..8 {
        task!(t, quick, format!("row {} transform refute 3 columns 3 to 3", s), [1, s, 1] index_sound(Refute, 3, 3, 3));
    }
    for s in [0, 3, 6] {
        task!(t, quick, format!("row {} join refute 3+3 2x2", s), [1, s, 1] join_sound(Refute, 3, 3, 2, 1, 2, 2));
    }
    for s in [2, 4, 5, 7] {
        task!(t, quick, format!("row {} join refute 3+3 2x2", s), [1, s, 1] join_sound(Refute, 3, 3, 2, 1, 2, 2));
    }
    for s in 0..2 {
        task!(t, quick, format!("row {} transform refute 5 columns 1 to 1", s), [1, s, 1] index_sound(Refute, 5, 1, 1));
    }
    for s in 0..4 {
        task!(t, quick, format!("row {} transform refute 4 columns 2 to 2", s), [1, s, 1] index_sound(Refute, 4, 2, 2));
        task!(t, quick, format!("row {} transform refute 5 columns 2 to 2", s), [1, s, 1] index_sound(Refute, 5, 2, 2));
    }
    task!(t, quick, "attack transform 2 columns 1 to 1", index_sound(Attack(0), 2, 1, 1));
    task!(t, quick, "attack join 2+1 1x0", join_sound(Attack(0), 2, 1, 0, 0, 1, 0));
    task!(t, quick, "attack join 2+1 1x1", join_sound(Attack(0), 2, 1, 0, 0, 1, 1));
    for s in 0..4 {
        task!(t, quick, format!("attack row {} transform 3", s), [1, s, 1] index_sound(Attack(0), 2, 3, 3));
    }
    for s in 0..4 {
        task!(t, quick, format!("attack row {} join 3", s), [1, s, 1] join_sound(Attack(0), 2, 2, 1, 0, 3, 3));
    }
    v.push(Prop { id: "P23", functions: &["CrossProductIOP::prover_cross_product/verifier_cross_product", "IndexTransformIOP::prove/verify", "FinalJoinOneToManyIOP::prove/verify", "table_row_prover_agg/table_row_verifier_agg", "calc_final_join_one_to_many_index_transform", "calc_index_transformed_bag"], bounds: "tables of 1 to 3 columns and 1 to 8 rows; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values; and attacks: the prover's own code on any statement of 1 to 4 entries, of any values, and of 8 entries with one symbolic row", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "refute 0,0 range 1", reduce_sound(Refute, 0, 0, 1));
    task!(t, quick, "honest 0,0 range 2", reduce_honest(0, 0, 2));
    task!(t, quick, "honest 1,0 range 1", reduce_honest(1, 0, 1));
    task!(t, quick, "wide honest 3,3 range 4", [1, 1, 1] reduce_honest(3, 3, 4));
    task!(t, quick, "wide honest 4,3 range 4", [1, 2, 1] reduce_honest(4, 3, 4));
    task!(t, quick, "attack few 0,0 range 1", reduce_sound(Attack(2), 0, 0, 1));
    task!(t, quick, "attack 0,0 range 1", reduce_sound(Attack(0), 0, 0, 1));
    task!(t, quick, "attack 1,0 range 1", reduce_sound(Attack(2), 1, 0, 1));
    task!(t, quick, "attack 0,1 range 1", reduce_sound(Attack(2), 0, 1, 1));
    task!(t, quick, "attack 1,1 range 1", reduce_sound(Attack(2), 1, 1, 1));
    for s in 1..8 {
        task!(t, quick, format!("pattern {} honest 3,3 range 5", s), [1, 16 * s + s, 1] reduce_honest(3, 3, 5));
    }
    v.push(Prop { id: "P24", functions: &["JoinReductionIOP::prove/verify", "calc_join_reduction_lr_sel_advice"], bounds: "tables of 1+1 rows (2+1 for honest runs), ranges of 2 and 4 values; both selectors of the result arbitrary; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values in up to eight patterns (apart, in runs, shared, all alike); and attacks: the prover's own code on any statement of these sizes, its values symbolic among two or three", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    const COUNT: Aggs = &[(0, false)];
    const SUM: Aggs = &[(1, true), (0, false)];
    const MANY: Aggs = &[(0, true), (1, true), (0, false), (2, true)];
    task!(t, quick, "count sound 1", group_sound(Direct, 2, 0, COUNT, 1, 1));
    task!(t, quick, "count refute 1", group_sound(Refute, 2, 0, COUNT, 1, 1));
    task!(t, quick, "sum sound 1", group_sound(Direct, 2, 0, SUM, 1, 1));
    task!(t, quick, "sum refute 1", group_sound(Refute, 2, 0, SUM, 1, 1));
    task!(t, quick, "three columns sound 1", group_sound(Direct, 3, 1, MANY, 1, 1));
    task!(t, quick, "three columns refute 1", group_sound(Refute, 3, 1, MANY, 1, 1));
    task!(t, quick, "count honest 1", group_honest(2, 0, COUNT, 1, 2));
    task!(t, quick, "sum honest 1", group_honest(2, 0, SUM, 1, 2));
    task!(t, quick, "three columns honest 1", group_honest(3, 2, MANY, 1, 2));
    task!(t, thorough, "sum honest 2", group_honest(2, 0, SUM, 2, 1));
    task!(t, quick, "wide sum refute 3", [1, 1, 1] group_sound(Refute, 2, 0, SUM, 3, 2));
    task!(t, quick, "wide three columns refute 3", [1, 0, 1] group_sound(Refute, 3, 2, MANY, 3, 2));
    task!(t, quick, "wide sum honest 3", [1, 1, 1] group_honest(2, 0, SUM, 3, 3));
    task!(t, quick, "wide three columns honest 4", [1, 1, 1] group_honest(3, 2, MANY, 4, 4));
    task!(t, quick, "refused grouping column", group_refuse(2, 1));
    task!(t, quick, "refused aggregate column", group_refuse(0, 2));
    task!(t, quick, "refused distant column", group_refuse(0, 9));
    for s in 0..8 {
        task!(t, quick, format!("row {} sum refute 3", s), [1, s, 1] group_sound(Refute, 2, 0, SUM, 3, 2));
        task!(t, quick, format!("row {} three columns refute 3", s), [1, s, 0] group_sound(Refute, 3, 2, MANY, 3, 2));
    }
    task!(t, quick, "attack count 1", group_sound(Attack(0), 2, 0, COUNT, 1, 1));
    task!(t, quick, "attack sum 1", group_sound(Attack(0), 2, 0, SUM, 1, 1));
    for s in 1..8 {
        task!(t, quick, format!("pattern {} three columns honest 4", s), [1, 16 * s + s, 1] group_honest(3, 2, MANY, 4, 5));
        task!(t, quick, format!("pattern {} sum honest 3", s), [1, 16 * s + s, 1] group_honest(2, 0, SUM, 3, 5));
    }
    for s in 0..2 {
        task!(t, quick, format!("attack row {} count 3", s), [1, s, 1] group_sound(Attack(0), 2, 0, COUNT, 3, 4));
    }
    v.push(Prop { id: "P25", functions: &["GroupByIOP::prove_with_advice/verify_with_advice"], bounds: "tables of 2 rows (4 thorough for honest runs) with one grouping and one or two value columns, counts and sums in each combination, ranges of 2 and 4 values; support selector, multiplicities and sums arbitrary; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values in up to eight patterns (apart, in runs, shared, all alike); and attacks: the prover's own code on any statement of 1 to 4 entries, of any values, and of 8 entries with one symbolic row", assumptions: GADGET, tasks: t });

    let mut t = vec![];
    task!(t, quick, "bags split 1,1", split_sets(false, 1, 1));
    task!(t, quick, "bags split 1,0", split_sets(false, 1, 0));
    task!(t, quick, "bags split 0,1", split_sets(false, 0, 1));
    task!(t, thorough, "bags split 2,1", split_sets(false, 2, 1));
    task!(t, quick, "sets split 1,1", split_sets(true, 1, 1));
    task!(t, quick, "sets split 1,0", split_sets(true, 1, 0));
    task!(t, quick, "sets split 0,1", split_sets(true, 0, 1));
    task!(t, thorough, "sets split 2,1", split_sets(true, 2, 1));
    task!(t, quick, "multiplicity split 1,1", split_mults(1, 1));
    task!(t, quick, "multiplicity split 1,0", split_mults(1, 0));
    task!(t, thorough, "multiplicity split 2,1", split_mults(2, 1));
    task!(t, quick, "support advice 1", supp_advice(1));
    task!(t, quick, "support advice 2", supp_advice(2));
    task!(t, quick, "disjointness advice 1,0", disj_advice(1, 0));
    task!(t, quick, "disjointness advice 1,1", disj_advice(1, 1));
    task!(t, thorough, "disjointness advice 2,1", disj_advice(2, 1));
    task!(t, quick, "inclusion advice 1 in 1", incl_advice(1, 1));
    task!(t, quick, "inclusion advice 1 in 2", incl_advice(1, 2));
    task!(t, quick, "inclusion advice 2 in 1", incl_advice(2, 1));
    task!(t, quick, "join reduction advice 1,1", reduce_advice(1, 1));
    task!(t, quick, "join reduction advice 2,1", reduce_advice(2, 1));
    task!(t, quick, "join indices 1,1", transform_advice(1, 1));
    task!(t, quick, "join indices 1,2", transform_advice(1, 2));
    task!(t, quick, "wide bags split 3,2", [1, 1, 1] split_sets(false, 3, 2));
    task!(t, quick, "wide sets split 2,3", [1, 1, 1] split_sets(true, 2, 3));
    task!(t, quick, "wide multiplicity split 2,3", [1, 1, 1] split_mults(2, 3));
    task!(t, quick, "wide support advice 4", [1, 1, 1] supp_advice(4));
    task!(t, quick, "wide disjointness advice 3,2", [1, 1, 1] disj_advice(3, 2));
    task!(t, quick, "wide inclusion advice 3 in 4", [1, 1, 1] incl_advice(3, 4));
    task!(t, quick, "wide join reduction advice 3,3", [1, 1, 1] reduce_advice(3, 3));
    task!(t, quick, "wide join indices 3,3", [1, 1, 1] transform_advice(3, 3));
    for s in 1..8 {
        task!(t, quick, format!("pattern {} bags split 3,3", s), [1, 16 * s + 1, 1] split_sets(false, 3, 3));
        task!(t, quick, format!("pattern {} multiplicity split 3,3", s), [1, 16 * s + 2, 1] split_mults(3, 3));
        task!(t, quick, format!("pattern {} multiplicity split 2,3", s), [1, 16 * s, 1] split_mults(2, 3));
        task!(t, quick, format!("pattern {} support advice 4", s), [1, 16 * s + 3, 1] supp_advice(4));
        task!(t, quick, format!("pattern {} disjointness advice 3,3", s), [1, 16 * s + 4, 1] disj_advice(3, 3));
        task!(t, quick, format!("pattern {} disjointness advice 2,3", s), [1, 16 * s + 4, 1] disj_advice(2, 3));
    }
    for s in 0..8 {
        task!(t, quick, format!("row {} multiplicity split 3,3", s), [1, s, 1] split_mults(3, 3));
        task!(t, quick, format!("row {} sets split 3,3", s), [1, 16 * (5 + s % 2) + s, 1] split_sets(true, 3, 3));
        task!(t, quick, format!("row {} disjointness advice 3,3", s), [1, s, 1] disj_advice(3, 3));
    }
    task!(t, quick, "join indices 2,1", transform_advice(2, 1));
    task!(t, quick, "wide join indices 3,2", [1, 1, 1] transform_advice(3, 2));
    v.push(Prop { id: "P26", functions: &["bag_lmr_split", "set_lmr_split", "bag_lmr_multiplicity_split", "calc_bag_supp_advice", "calc_bag_disjoint_advice", "calc_bag_inclusion_advice_from_bag", "calc_join_reduction_lr_sel_advice", "calc_final_join_one_to_many_index_transform", "calc_index_transformed_bag"], bounds: "bags of 1+2 and 2+2 entries (4+2 thorough), values any integers below 2^62 where their order matters, any field elements otherwise; tables of 8 to 64 entries of which one or two rows, at varying positions, are symbolic, the others holding fixed values in up to eight patterns (apart, in runs, shared, all alike)", assumptions: ADVICE, tasks: t });
    let mut t = vec![];
    for kind in 0..6 {
        task!(t, quick, format!("honest sequence {} on 1", kind), seq_honest(kind, 1));
        if [0, 3, 4].contains(&kind) {
            task!(t, quick, format!("honest sequence {} on 2", kind), seq_honest(kind, 2));
        } else if kind != 2 {
            task!(t, thorough, format!("honest sequence {} on 2", kind), seq_honest(kind, 2));
        }
        task!(t, quick, format!("wide honest sequence {} on 3", kind), [1, 1, 1] seq_honest(kind, 3));
        task!(t, quick, format!("wide honest sequence {} on 4", kind), [1, 2, 1] seq_honest(kind, 4));
        if kind != 4 {
            // (four: refused models of the products of selectors are not exact enough)
            task!(t, quick, format!("sound sequence {} on 1", kind), seq_sound(Direct, kind, 1));
            task!(t, quick, format!("refute sequence {} on 1", kind), seq_sound(Refute, kind, 1));
            task!(t, quick, format!("attack sequence {} on 1", kind), seq_sound(Attack(0), kind, 1));
        }
    }
    v.push(Prop { id: "P29", functions: &["prove/verify of BagEqIOP, BagSumIOP, BagStrictSortIOP, BagInclusionIOP, CrossProductIOP, SelectorValidIOP, BagNoZerosIOP, FinalJoinOneToManyIOP in sequence"], bounds: "sequences of two or three gadgets sharing inputs and results, over tables of 2 entries (4 for some honest runs), and honest runs over 8 and 16 entries of which only some rows are symbolic", assumptions: GADGET, tasks: t });
}

include!("whole_names.rs");
const WHOLE: &[&str] = &[
    "input selectors of the statement are 0 or 1; range bags hold 0..2^r-1, all selected",
    "challenges are independent of what was absorbed before them (random oracle)",
    "KZG: trapdoors are independent transcendentals",
];
/// P27: the honest tasks of P15 to P25 once more, P28: the attacks of P15 to P25 once more,
/// with the claims compiled into a proof and verified
pub fn whole_props(w: impl Fn() -> Vec<Prop>, v: &mut Vec<Prop>) {
    let (mut t, mut u) = (vec![], vec![]);
    for pcs in [1, 2] {
        for p in w() {
            for k in p.tasks {
                let n = format!("{} {}{}", p.id, k.name, ["", " kzg"][pcs - 1]);
                if !WHOLE_QUICK.contains(&&n[..]) && !WHOLE_THOROUGH.contains(&&n[..]) {
                    continue;
                }
                let thorough = WHOLE_THOROUGH.contains(&&n[..]);
                let (sym, nat) = (k.sym, k.nat);
                let task = crate::task::Task { name: n, thorough, sym: Box::new(move || whole(pcs, || sym())), nat: Box::new(move || whole(pcs, || nat())) };
                if ["honest", "product "].iter().any(|s| k.name.contains(s)) {
                    t.push(task);
                } else if k.name.starts_with("attack") {
                    u.push(task);
                }
            }
        }
    }
    
    assert_eq!(t.len() + u.len(), WHOLE_QUICK.len() + WHOLE_THOROUGH.len());
    v.push(Prop { id: "P27", functions: &["all of P15-P25", "ProverTracker::compile_proof", "VerifierTracker::verify_claims"], bounds: "the true statements of P15-P25 and P29 over tables of 1 to 4 entries, and of 8 to 32 of which only some rows are symbolic, with the ideal commitment scheme; the smaller ones also with the KZG scheme", assumptions: WHOLE, tasks: t });
    v.push(Prop { id: "P28", functions: &["all of P15-P25", "ProverTracker::compile_proof", "VerifierTracker::verify_claims"], bounds: "the gadgets of P15-P25 and P29 over tables of 1 to 4 entries with any values and selections (two or three values for some tables of 4 and for join reductions and intersections), and of 8 entries of which one row is symbolic, the others holding fixed values; ideal and, for the smaller ones, KZG commitment scheme", assumptions: WHOLE, tasks: u });
}
