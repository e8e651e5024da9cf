//! S02: polynomial algebra against its definitions.
use crate::conv::*;
use libspartan::verif::{dense_mlpoly::*, math::Math, product_tree::*, r1csinstance::R1CSInstance, scalar::{Scalar, ScalarFromPrimitives}, sparse_mlpoly::*, unipoly::*};
use mccore::*;
fn d(z: &[U]) -> DensePolynomial { DensePolynomial::new(scs(z)) }
fn table(p: &DensePolynomial) -> Vec<U> { (0..p.len()).map(|i| un(&p[i])).collect() }
fn bits(u: u64) -> U { U::from(u) }
fn dense(c: &Check) {
    let t = c.thorough(); let f = fp();
    let vals = [U::ZERO, U::ONE, pm1(), big()];
    // evaluation points: all tuples over an alphabet, so every Boolean vertex is among them
    let pts = [U::ZERO, U::ONE, U::from(2), pm1(), big()];
    let full = 3;
    c.bound(&format!("dense polynomials: every table over 4 values up to {full} variables{} (2 values at {}), every point over 5 values; patterns up to {} variables; evaluation, both bindings, row and column products, splitting, extending, merging", if t { "" } else { ", at 3 those with up to 4 nonzero values" }, full + 1, if t { 10 } else { 7 }));
    let one = |z: &[U], r: &[U]| {
        let n = r.len();
        c.states(1); c.steps(6); c.traces(1);
        let k = |w: &str| json!({"table": show_u(z), "point": show_u(r), "what": w});
        let got = guarded(|| {
            let p = d(z); let rs = scs(r);
            assert!(p.len() == z.len() && p.get_num_vars() == n && table(&p) == z && table(&p.clone()) == z);
            let e = un(&p.evaluate(&rs));
            // bind one variable after the other, from either side
            let (mut a, mut b) = (d(z), d(z));
            for i in 0..n {
                a.bound_poly_var_top(&rs[i]); b.bound_poly_var_bot(&rs[n - 1 - i]);
                assert!(a.len() == 1 << (n - 1 - i) && a.get_num_vars() == n - 1 - i && b.len() == a.len() && b.get_num_vars() == n - 1 - i);
                assert!(a.clone().len() == a.len());
                if i + 1 < n { // what is left is the polynomial in the remaining variables
                    let rest = mle(z, r);
                    assert!(mle(&table(&a), &r[i + 1..]) == rest && mle(&table(&b), &r[..n - 1 - i]) == rest, "partial binding");
                }
            }
            // through the matrix form the commitments use
            let (l, rr) = EqPolynomial::new(rs.clone()).compute_factored_evals();
            let lz = p.bound(&l);
            (e, un(&a[0]), un(&b[0]), dot(&uns(&lz), &uns(&rr)))
        });
        let w = mle(z, r);
        c.ensure(got == Ok((w, w, w, w)), "dense-evaluation", || { let mut j = k("evaluate, bind top, bind bottom, matrix form"); j["got"] = json!(format!("{got:?}")); j });
    };
    for n in 0..=full { let m = 1usize << n; par(4usize.pow(m as u32), |x| {
        let z: Vec<U> = (0..m).map(|i| vals[x / 4usize.pow(i as u32) % 4]).collect();
        if n == 3 && !t && z.iter().filter(|v| !v.is_zero()).count() > 4 { return } // quick: at 3 variables, tables with up to 4 nonzero values
        for p in tuples(if n == 3 { 3 } else { 5 }, n) { one(&z, &p.iter().map(|i| if n == 3 { pts[2 + i] } else { pts[*i] }).collect::<Vec<_>>()) }
    }) }
    { let n = full + 1; let m = 1usize << n; let alpha = [U::ZERO, big()]; par(2usize.pow(m.min(if t { 16 } else { 10 }) as u32), |x| {
        let z: Vec<U> = (0..m).map(|i| alpha[x >> (i % if t { 16 } else { 10 }) & 1]).collect();
        one(&z, &generic(n, x as u64)); one(&z, &(0..n).map(|i| U::from((x >> i & 1) as u64)).collect::<Vec<_>>());
    }) }
    let top = if t { 10 } else { 7 };
    par((top + 1) * 6, |k| { let (n, pat) = (k / 6, k % 6); let m = 1usize << n;
        let z: Vec<U> = match pat { 0 => generic(m, 5), 1 => (0..m as u64).map(U::from).collect(), 2 => (0..m).map(|i| if i == m - 1 { U::ONE } else { U::ZERO }).collect(), 3 => vec![pm1(); m], 4 => (0..m).map(|i| U::from((i.count_ones() % 2) as u64)).collect(), _ => (0..m).map(|i| if i < m / 2 { big() } else { U::ZERO }).collect() };
        one(&z, &generic(n, 9)); one(&z, &vec![U::ONE; n]); one(&z, &(0..n).map(|i| if i % 2 == 0 { U::ZERO } else { pm1() }).collect::<Vec<_>>());
        // vertices give the table back
        if n <= 6 { for i in 0..m { let r: Vec<U> = (0..n).map(|j| U::from((i >> (n - 1 - j) & 1) as u64)).collect(); c.steps(1); c.ensure(un(&d(&z).evaluate(&scs(&r))) == z[i], "vertex", || json!({"variables": n, "vertex": i})); } }
        // wrong number of coordinates
        for w in [n + 1, n.wrapping_sub(1)] { if w < 20 && w != n { c.steps(1); let g = guarded(|| d(&z).evaluate(&scs(&generic(w, 1)))); c.ensure(g.is_err(), "wrong-number-of-coordinates", || json!({"variables": n, "coordinates": w})); } }
        // split, extend, merge
        if n > 0 { let (a, b) = d(&z).split(m / 2); c.steps(2); c.ensure(table(&a) == z[..m / 2] && table(&b) == z[m / 2..], "split", || json!({"variables": n}));
            let mut e = a; e.extend(&b); c.ensure(table(&e) == z && e.get_num_vars() == n && guarded(|| un(&e.evaluate(&scs(&generic(n, 2))))) == Ok(mle(&z, &generic(n, 2))), "extend", || json!({"variables": n}));
            let g = guarded(|| { let mut x = d(&z); x.extend(&d(&z[..m / 2])); }); c.ensure(g.is_err(), "extend-unequal", || json!({"variables": n})); }
        if n <= 4 { for cnt in 1..=6usize { let ps: Vec<Vec<U>> = (0..cnt).map(|i| generic(m, 20 + i as u64)).collect(); let ds: Vec<DensePolynomial> = ps.iter().map(|z| d(z)).collect();
            let g = DensePolynomial::merge(ds.iter()); let mut w: Vec<U> = ps.concat(); w.resize(w.len().next_power_of_two(), U::ZERO);
            c.states(1); c.steps(1); c.ensure(table(&g) == w && 1usize << g.get_num_vars() == w.len(), "merge", || json!({"variables": n, "count": cnt})); } }
        if pat == 0 { let us: Vec<usize> = (0..m).map(|i| i * 3 + (i << 40)).collect(); c.steps(1); c.ensure(table(&DensePolynomial::from_usize(&us)) == us.iter().map(|x| U::from(*x as u64)).collect::<Vec<_>>(), "from-integers", || json!({"variables": n})); }
    });
    // row products with arbitrary left vectors
    for n in 0..=6usize { let (l, r) = (n / 2, n - n / 2); c.ensure(EqPolynomial::compute_factored_lens(n) == (l, r), "factored-lengths", || json!({"n": n}));
        let z = generic(1 << n, 31); for lv in [generic(1 << l, 1), vec![U::ONE; 1 << l], (0..1 << l).map(|i| if i == 0 { pm1() } else { U::ZERO }).collect::<Vec<_>>()] {
            let w: Vec<U> = (0..1 << r).map(|i| (0..1usize << l).fold(U::ZERO, |a, j| f.add(&a, &f.mul(&lv[j], &z[j * (1 << r) + i])))).collect();
            c.states(1); c.steps(1); c.ensure(uns(&d(&z).bound(&scs(&lv))) == w, "row-product", || json!({"variables": n})); } }
    // equality and identity polynomials
    let ev = if t { 5 } else { 4 };
    c.bound(&format!("equality polynomial: all pairs of points over 4 values up to 3 variables, all tables up to {ev} variables, factored form; identity polynomial: all points over 5 values"));
    for n in 0..=ev { let al = [U::ZERO, U::ONE, U::from(2), big(), pm1()]; let b = if n <= 3 { 4 } else { 3 };
        let all: Vec<Vec<U>> = tuples(b, n).map(|p| p.iter().map(|i| al[*i]).collect()).collect();
        par(all.len(), |i| { let a = &all[i];
            c.states(1); c.steps(2); c.traces(1);
            let e = uns(&EqPolynomial::new(scs(a)).evals());
            c.ensure(e.len() == 1 << n && (0..1usize << n).all(|j| e[j] == chi(j, a)), "equality-table", || json!({"point": show_u(a)}));
            let (l, r) = EqPolynomial::new(scs(a)).compute_factored_evals(); let (l, r) = (uns(&l), uns(&r));
            c.ensure(l.len() * r.len() == e.len() && (0..e.len()).all(|j| f.mul(&l[j / r.len()], &r[j % r.len()]) == e[j]), "factored-table", || json!({"point": show_u(a)}));
            if n <= 3 { for y in &all { let w = (0..n).fold(U::ONE, |s, k| f.mul(&s, &f.add(&f.mul(&a[k], &y[k]), &f.mul(&f.sub(&U::ONE, &a[k]), &f.sub(&U::ONE, &y[k]))))); c.steps(1); c.ensure(un(&EqPolynomial::new(scs(a)).evaluate(&scs(y))) == w, "equality-evaluation", || json!({"a": show_u(a), "b": show_u(y)})); } }
            let w = mle(&(0..1u64 << n).map(U::from).collect::<Vec<_>>(), a);
            c.ensure(un(&IdentityPolynomial::new(n).evaluate(&scs(a))) == w, "identity-polynomial", || json!({"point": show_u(a)}));
        }) }
    let r = generic(40, 3); let w = r.iter().enumerate().fold(U::ZERO, |a, (i, x)| f.add(&a, &f.mul(x, &U::ONE.shl(39 - i).0)));
    c.ensure(un(&IdentityPolynomial::new(40).evaluate(&scs(&r))) == w, "identity-polynomial-40", || json!({}));
}
fn uni(c: &Check) {
    let f = fp(); let t = c.thorough();
    let al: Vec<U> = { let mut v = vec![U::ZERO, U::ONE, U::from(2), pm1(), big()]; if t { v.extend([U::from(3), P.shr(1), P.shr(1).add(&U::ONE).0, U::ONE.shl(255).0]) } v };
    let at = |co: &[U], x: &U| co.iter().rev().fold(U::ZERO, |a, k| f.add(&f.mul(&a, x), k));
    c.bound(&format!("univariate polynomials: all coefficient vectors of degree 2 and 3 over {} values: interpolation, evaluation at {} points, compression with the right and with a wrong sum", al.len(), al.len()));
    for deg in [2usize, 3] { par(al.len().pow(deg as u32 + 1), |k| {
        let co: Vec<U> = (0..=deg).map(|i| al[k / al.len().pow(i as u32) % al.len()]).collect();
        c.states(1); c.steps(4); c.traces(1);
        let ev: Vec<U> = (0..=deg as u64).map(|x| at(&co, &U::from(x))).collect();
        let g = guarded(|| {
            let p = UniPoly::from_evals(&scs(&ev));
            assert!(uns(&p.as_vec()) == co, "interpolation"); assert!(p.degree() == deg, "degree");
            assert!(un(&p.eval_at_zero()) == ev[0] && un(&p.eval_at_one()) == ev[1], "at 0, 1");
            for x in &al { assert!(un(&p.evaluate(&sc(x))) == at(&co, x), "evaluation") }
            let hint = f.add(&ev[0], &ev[1]);
            assert!(uns(&p.compress().decompress(&sc(&hint)).as_vec()) == co, "compression");
            // any other hint gives the polynomial with that sum and the other coefficients
            let h2 = f.add(&hint, &big()); let q = uns(&p.compress().decompress(&sc(&h2)).as_vec());
            assert!(q[0] == co[0] && q[2..] == co[2..] && f.add(&at(&q, &U::ZERO), &at(&q, &U::ONE)) == h2, "other sum");
        });
        c.ensure(g.is_ok(), &format!("univariate-degree-{deg}"), || json!({"coefficients": show_u(&co), "failed": format!("{g:?}")}));
    }) }
    for n in [0usize, 1, 2, 5, 6] { c.steps(1); c.ensure(guarded(|| UniPoly::from_evals(&scs(&generic(n, 1)))).is_err(), "unsupported-degree", || json!({"evaluations": n})); }
}
fn sparse(c: &Check) {
    let f = fp(); let t = c.thorough();
    // input polynomial: constant term and inputs at the first positions
    c.bound("sparse polynomials: all subsets of up to 3 entries (with repetition) up to 3 variables, against the dense sum");
    for n in 0..=4usize { let m = 1usize << n; for cnt in 0..=3usize { if n == 4 && cnt == 3 && !t { continue } for idx in tuples(m, cnt) {
        let v = generic(cnt, 40 + n as u64); let mut z = vec![U::ZERO; m]; for (i, x) in idx.iter().enumerate() { z[*x] = f.add(&z[*x], &v[i]) }
        for r in [generic(n, 2), vec![U::ONE; n], (0..n).map(|i| if i % 2 == 1 { U::ONE } else { U::ZERO }).collect::<Vec<_>>()] {
            c.states(1); c.steps(1);
            let g = guarded(|| un(&SparsePolynomial::new(n, idx.iter().zip(&v).map(|(i, x)| SparsePolyEntry::new(*i, sc(x))).collect()).evaluate(&scs(&r))));
            c.ensure(g == Ok(mle(&z, &r)), "sparse-evaluation", || json!({"variables": n, "entries": format!("{idx:?}"), "point": show_u(&r)}));
        }
    } } }
    let maxe = if t { 4 } else { 3 };
    c.bound(&format!("sparse matrices: all lists of up to {maxe} entries for shapes 1x2 to 4x4: evaluation, products with vectors, row tables, operation memory layout"));
    for (nx, ny) in [(0usize, 1usize), (1, 1), (1, 2), (2, 1), (2, 2)] {
        let (rows, cols) = (1usize << nx, 1usize << ny); let cells = rows * cols;
        for cnt in 0..=maxe { let lists: Vec<Vec<usize>> = tuples(cells, cnt).collect(); par(lists.len(), |q| {
            let e = &lists[q]; let v: Vec<U> = (0..cnt).map(|i| [big(), pm1(), U::ONE][i % 3]).collect();
            let mut full = vec![U::ZERO; cells]; for (i, x) in e.iter().enumerate() { full[*x] = f.add(&full[*x], &v[i]) }
            let mk = || SparseMatPolynomial::new(nx, ny, e.iter().zip(&v).map(|(p, x)| SparseMatEntry::new(p / cols, p % cols, sc(x))).collect());
            let (rx, ry, z) = (generic(nx, 5), generic(ny, 6), generic(cols, 7));
            c.states(1); c.steps(4); c.traces(1);
            let g = guarded(|| {
                let m = mk(); let other = SparseMatPolynomial::new(nx, ny, vec![SparseMatEntry::new(0, 0, Scalar::one())]);
                let want = mle(&full, &[rx.clone(), ry.clone()].concat());
                assert!(uns(&SparseMatPolynomial::multi_evaluate(&[&m, &other], &scs(&rx), &scs(&ry))) == vec![want, f.mul(&chi(0, &rx), &chi(0, &ry))], "evaluation");
                let w: Vec<U> = (0..rows).map(|r| dot(&full[r * cols..(r + 1) * cols], &z)).collect();
                assert!(uns(&m.multiply_vec(rows, cols, &scs(&z))) == w, "product");
                let x = generic(rows, 8); let w: Vec<U> = (0..cols).map(|k| (0..rows).fold(U::ZERO, |a, r| f.add(&a, &f.mul(&x[r], &full[r * cols + k])))).collect();
                assert!(uns(&m.compute_eval_table_sparse(&scs(&x), rows, cols)) == w, "row table");
                assert!(m.get_num_nz_entries() >= cnt && m.get_num_nz_entries().is_power_of_two(), "padded size");
            });
            c.ensure(g.is_ok(), "sparse-matrix", || json!({"shape": [rows, cols], "entries": format!("{e:?}"), "failed": format!("{g:?}")}));
        }) }
    }
    // the instance's three matrices keep their places
    let tri = |x: U, r: usize, k: usize| vec![(r, k, sc(&x))];
    let i = R1CSInstance::new(2, 2, 1, &tri(big(), 0, 1), &tri(pm1(), 1, 2), &tri(U::from(3), 1, 0));
    let (rx, ry) = (generic(1, 1), generic(2, 2)); let e = i.evaluate(&scs(&rx), &scs(&ry));
    let w = |x: U, r: usize, k: usize| f.mul(&x, &f.mul(&chi(r, &rx), &chi(k, &ry)));
    c.states(1); c.steps(3);
    c.ensure((un(&e.0), un(&e.1), un(&e.2)) == (w(big(), 0, 1), w(pm1(), 1, 2), w(U::from(3), 1, 0)), "instance-evaluation", || json!({}));
    let z = generic(4, 9); let (a, b, cc) = i.multiply_vec(2, 4, &scs(&z)); let mz = |x: U, r: usize, k: usize| { let mut v = vec![U::ZERO; 2]; v[r] = f.mul(&x, &z[k]); v };
    c.ensure(table(&a) == mz(big(), 0, 1) && table(&b) == mz(pm1(), 1, 2) && table(&cc) == mz(U::from(3), 1, 0), "instance-products", || json!({}));
    let x = generic(2, 9); let (a, b, cc) = i.compute_eval_table_sparse(2, 4, &scs(&x)); let mx = |v: U, r: usize, k: usize| { let mut o = vec![U::ZERO; 4]; o[k] = f.mul(&v, &x[r]); o };
    c.ensure(uns(&a) == mx(big(), 0, 1) && uns(&b) == mx(pm1(), 1, 2) && uns(&cc) == mx(U::from(3), 1, 0), "instance-row-tables", || json!({}));
    // product and dot-product circuits
    let al = [U::ZERO, U::ONE, pm1(), big()];
    c.bound("product circuits: all inputs over 4 values up to 2 variables and patterns up to 6; dot-product circuits with their halves");
    for n in 1..=6usize { let m = 1usize << n; let lim = if n <= 2 { 4usize.pow(m as u32) } else { 8 };
        par(lim, |k| { let z: Vec<U> = if n <= 2 { (0..m).map(|i| al[k / 4usize.pow(i as u32) % 4]).collect() } else { let mut g = generic(m, k as u64); if k > 4 { g[k * 3 % m] = U::ZERO } g };
            c.states(1); c.steps(2);
            let w = z.iter().fold(U::ONE, |a, x| f.mul(&a, x));
            let g = guarded(|| un(&ProductCircuit::new(&d(&z)).evaluate()));
            c.ensure(g == Ok(w), "product-circuit", || json!({"inputs": show_u(&z), "got": format!("{g:?}")}));
            let (y, x) = (generic(m, 77), z.iter().rev().copied().collect::<Vec<_>>());
            let tri = |a: &[U], b: &[U], q: &[U]| (0..a.len()).fold(U::ZERO, |s, i| f.add(&s, &f.mul(&f.mul(&a[i], &b[i]), &q[i])));
            let g = guarded(|| { let mut dp = DotProductCircuit::new(d(&z), d(&y), d(&x)); let e = un(&dp.evaluate()); let (l, r) = dp.split(); (e, un(&l.evaluate()), un(&r.evaluate())) });
            let h = m / 2;
            c.ensure(g == Ok((tri(&z, &y, &x), tri(&z[..h], &y[..h], &x[..h]), tri(&z[h..], &y[h..], &x[h..]))), "dot-product-circuit", || json!({"inputs": show_u(&z), "got": format!("{g:?}")}));
        }) }
    // product arguments over those circuits
    product_args(c);
}
fn product_args(c: &Check) {
    c.bound("batched product arguments: 1 to 4 circuits with and without dot-products of every size up to 5 variables, and some up to 10 variables, 20 circuits and 24 dot products: the reduced claims are the polynomials' values; every altered claim refused or wrong");
    let mut sizes: Vec<(usize, usize, usize)> = (1..=5).flat_map(|n| (1..=4).flat_map(move |cnt| [0, 2, 4, 6].map(|dp| (n, cnt, dp)))).filter(|(n, _, dp)| *dp == 0 || *n >= 2).collect();
    sizes.extend([(9, 3, 6), (10, 1, 0), (7, 9, 0), (3, 20, 2), (2, 2, 24), (6, 5, 10)]);
    par(sizes.len(), |q| { let (n, cnt, dp) = sizes[q];
        let m = 1usize << n;
        let zs: Vec<Vec<U>> = (0..cnt).map(|i| generic(m, 3 + i as u64)).collect();
        // dot products are over half as many elements as the circuits' inputs
        let tr3: Vec<[Vec<U>; 3]> = (0..dp).map(|i| [generic(m / 2, 50 + i as u64), generic(m / 2, 60 + i as u64), generic(m / 2, 70 + i as u64)]).collect();
        let run = |bump_prod: Option<usize>, bump_dot: Option<usize>| guarded(|| {
            let mut circ: Vec<ProductCircuit> = zs.iter().map(|z| ProductCircuit::new(&d(z))).collect();
            let mut dots: Vec<DotProductCircuit> = tr3.iter().map(|x| DotProductCircuit::new(d(&x[0]), d(&x[1]), d(&x[2]))).collect();
            let mut cp: Vec<Scalar> = circ.iter().map(|x| x.evaluate()).collect(); let mut cd: Vec<Scalar> = dots.iter().map(|x| x.evaluate()).collect();
            let mut t = tr(b"p");
            let (p, rp) = ProductCircuitEvalProofBatched::prove(&mut circ.iter_mut().collect::<Vec<_>>(), &mut dots.iter_mut().collect::<Vec<_>>(), &mut t);
            if let Some(i) = bump_prod { cp[i] += Scalar::one() } if let Some(i) = bump_dot { cd[i] += Scalar::one() }
            let mut t = tr(b"p");
            let (claims, claims_dot, rv) = p.verify(&cp, &cd, m, &mut t);
            (uns(&claims), uns(&claims_dot), uns(&rp), uns(&rv))
        });
        let key = format!("{n}-{cnt}-{dp}");
        c.states(1); c.steps(2); c.traces(1);
        match run(None, None) {
            Err(e) => c.fail("product-argument-fails", json!({"variables": n, "circuits": cnt, "dots": dp, "got": e})),
            Ok((cl, cd, rp, rv)) => {
                let ok = rp == rv && cl.len() == cnt && (0..cnt).all(|i| cl[i] == mle(&zs[i], &rv));
                c.ensure(ok, "product-argument-claims", || json!({"case": key, "claims": show_u(&cl)}));
                if dp > 0 { c.ensure(dots_ok(&cd, &tr3, &rv), "product-argument-dot-claims", || json!({"case": key, "claims": show_u(&cd)})); }
            }
        }
        for b in 0..cnt { c.states(1); c.steps(1); if let Ok((cl, _, _, rv)) = run(Some(b), None) { c.ensure((0..cnt).any(|i| cl[i] != mle(&zs[i], &rv)), "wrong-product-accepted", || json!({"case": key, "claim": b})); } }
        for b in 0..dp { c.states(1); c.steps(1); if let Ok((cl, cd, _, rv)) = run(None, Some(b)) { c.ensure((0..cnt).any(|i| cl[i] != mle(&zs[i], &rv)) || !dots_ok(&cd, &tr3, &rv), "wrong-dot-product-accepted", || json!({"case": key, "claim": b})); } }
    });
    // a single circuit
    for n in 1..=11usize { let z = generic(1 << n, 4);
        let run = |bump: bool| guarded(|| { let mut t = tr(b"p"); let mut ci = ProductCircuit::new(&d(&z)); let (p, e, r) = ProductCircuitEvalProof::prove(&mut ci, &mut t); let mut claim = ProductCircuit::new(&d(&z)).evaluate(); if bump { claim += Scalar::one() } let mut t = tr(b"p"); let (x, rv) = p.verify(claim, 1 << n, &mut t); (un(&e), un(&x), uns(&r), uns(&rv)) });
        c.states(1); c.steps(2); c.traces(1);
        let g = run(false);
        c.ensure(matches!(&g, Ok((e, x, r, rv)) if r == rv && *x == mle(&z, rv) && *e == *x), "single-product-argument", || json!({"variables": n, "got": format!("{g:?}")}));
        if let Ok((_, x, _, rv)) = run(true) { c.ensure(x != mle(&z, &rv), "wrong-product-accepted", || json!({"variables": n})); }
    }
}
/// Dot products come in pairs, the halves of one split; per pair the claims are the values of the joined factors.
fn dots_ok(cd: &[U], t: &[[Vec<U>; 3]], rv: &[U]) -> bool { cd.len() * 2 == 3 * t.len() && (0..t.len() / 2).all(|i| (0..3).all(|k| cd[3 * i + k] == mle(&[t[2 * i][k].clone(), t[2 * i + 1][k].clone()].concat(), rv))) }
fn math(c: &Check) {
    let t = c.thorough();
    c.bound(&format!("integer helpers: every integer up to 2^{}, every power of two and its neighbours; bit lists of every width up to 20", if t { 20 } else { 16 }));
    let mut ns: Vec<usize> = (1..1usize << if t { 20 } else { 16 }).collect();
    for k in 0..63 { for x in [(1usize << k).wrapping_sub(1), 1 << k, (1usize << k) + 1] { ns.push(x) } }
    for n in ns { if n == 0 { continue } c.states(1); c.steps(1);
        let w = (0..).find(|k| 1u128 << k >= n as u128).unwrap();
        c.ensure(n.log_2() == w, "log", || json!({"n": n, "got": n.log_2()})); }
    c.ensure(guarded(|| 0usize.log_2()).is_err(), "log-of-zero", || json!({}));
    for k in 0..63usize { c.states(1); c.steps(2); c.ensure(k.pow2() == 1 << k, "power", || json!({"k": k})); }
    for k in 0..31usize { c.ensure((1usize << (2 * k)).square_root() == 1 << k, "square-root", || json!({"of": 1u64 << (2 * k)})); }
    for w in 0..=20usize { let mut xs: Vec<usize> = (0..(1usize << w).min(if t { 1 << 16 } else { 1 << 12 })).collect(); xs.push((1usize << w) - 1); xs.push(1usize << w >> 1);
        for x in xs { c.states(1); c.steps(1); let g = x.get_bits(w); c.ensure(g.len() == w && (0..w).all(|i| g[i] == (x >> (w - 1 - i) & 1 == 1)), "bits", || json!({"n": x, "width": w})); } }
    for x in 0..300usize { c.steps(1); c.ensure(un(&x.to_scalar()) == bits(x as u64), "integer-to-scalar", || json!({"n": x})); }
    c.ensure(un(&true.to_scalar()) == U::ONE && un(&false.to_scalar()) == U::ZERO, "boolean-to-scalar", || json!({}));
}
/// The value of a table at a point, one variable after the other.
fn fold(z: &[U], r: &[U]) -> U { let f = fp(); let mut z = z.to_vec(); for x in r { let h = z.len() / 2; z = (0..h).map(|i| f.add(&z[i], &f.mul(x, &f.sub(&z[i + h], &z[i])))).collect() } assert!(z.len() == 1); z[0] }
fn eq_table(r: &[U]) -> Vec<U> { let f = fp(); r.iter().fold(vec![U::ONE], |e, x| e.iter().flat_map(|v| { let h = f.mul(v, x); [f.sub(v, &h), h] }).collect()) }
/// The same at the sizes that whole circuits have: nothing may depend on a table, list or point being short.
fn scale(c: &Check) {
    let t = c.thorough(); let f = fp(); let top = if t { 20 } else { 16 };
    c.bound(&format!("at scale: dense polynomials and equality tables of every size up to {top} variables; points of every length up to 300; sparse polynomials and matrices of up to {} entries (each small length, powers of two and neighbours); product circuits up to {} variables", if t { 16385 } else { 4097 }, top - 2));
    par(top + 1, |k| { let n = top - k; let m = 1usize << n; let (z, r) = (generic(m, 3), generic(n, 4)); let rs = scs(&r);
        assert!(n > 6 || fold(&z, &r) == mle(&z, &r));
        let w = fold(&z, &r); c.states(1); c.steps(6); c.traces(1);
        let g = guarded(|| { let p = d(&z); let (mut a, mut b) = (d(&z), d(&z)); for i in 0..n { a.bound_poly_var_top(&rs[i]); b.bound_poly_var_bot(&rs[n - 1 - i]) }
            let (l, rr) = EqPolynomial::new(rs.clone()).compute_factored_evals(); let lz = p.bound(&l);
            (un(&p.evaluate(&rs)), un(&a[0]), un(&b[0]), dot(&uns(&lz), &uns(&rr))) });
        c.ensure(g == Ok((w, w, w, w)), "dense-at-scale", || json!({"variables": n, "got": format!("{g:?}")}));
        c.ensure(uns(&EqPolynomial::new(rs.clone()).evals()) == eq_table(&r), "equality-table-at-scale", || json!({"variables": n}));
        let us: Vec<usize> = (0..m).map(|i| i * 3 + (i << 40)).collect(); c.ensure(table(&DensePolynomial::from_usize(&us)) == us.iter().map(|x| U::from(*x as u64)).collect::<Vec<_>>(), "from-integers-at-scale", || json!({"variables": n}));
        if n > 0 && n <= top - 2 { c.steps(2); let w = z.iter().fold(U::ONE, |a, x| f.mul(&a, x)); let g = guarded(|| un(&ProductCircuit::new(&d(&z)).evaluate())); c.ensure(g == Ok(w), "product-circuit-at-scale", || json!({"variables": n}));
            let (x, y) = (generic(m, 8), generic(m, 9)); let w = (0..m).fold(U::ZERO, |s, i| f.add(&s, &f.mul(&f.mul(&z[i], &x[i]), &y[i]))); let g = guarded(|| un(&DotProductCircuit::new(d(&z), d(&x), d(&y)).evaluate())); c.ensure(g == Ok(w), "dot-product-circuit-at-scale", || json!({"variables": n})); }
    });
    par(301, |n| { let (a, b) = (generic(n, 5), generic(n, 6)); c.states(1); c.steps(1);
        let w = (0..n).fold(U::ONE, |s, k| f.mul(&s, &f.add(&f.mul(&a[k], &b[k]), &f.mul(&f.sub(&U::ONE, &a[k]), &f.sub(&U::ONE, &b[k])))));
        c.ensure(un(&EqPolynomial::new(scs(&a)).evaluate(&scs(&b))) == w, "equality-evaluation-at-scale", || json!({"coordinates": n}));
        if n <= 63 { c.steps(1); let w = a.iter().enumerate().fold(U::ZERO, |s, (i, x)| f.add(&s, &f.mul(x, &U::ONE.shl(n - 1 - i).0))); c.ensure(un(&IdentityPolynomial::new(n).evaluate(&scs(&a))) == w, "identity-at-scale", || json!({"coordinates": n})); } });
    for cnt in 1..=40usize { let ps: Vec<Vec<U>> = (0..cnt).map(|i| generic(8, 20 + i as u64)).collect(); let ds: Vec<DensePolynomial> = ps.iter().map(|z| d(z)).collect(); let mut w: Vec<U> = ps.concat(); w.resize(w.len().next_power_of_two(), U::ZERO);
        c.states(1); c.steps(1); c.ensure(table(&DensePolynomial::merge(ds.iter())) == w, "merge-at-scale", || json!({"count": cnt})); }
    let lens = lengths(if t { 16385 } else { 4097 });
    for (nx, ny) in [(3usize, 4usize), (6, 5), (7, 8)] { let (rows, cols) = (1usize << nx, 1usize << ny); let (rx, ry, z, x) = (generic(nx, 5), generic(ny, 6), generic(cols, 7), generic(rows, 8)); let (ex, ey) = (eq_table(&rx), eq_table(&ry));
        par(lens.len(), |q| { let n = lens[lens.len() - 1 - q];
            let e: Vec<(usize, usize, U)> = generic(n, 90 + n as u64).iter().map(|v| ((v.0[1] >> 7) as usize % rows, (v.0[2] >> 9) as usize % cols, *v)).collect();
            let sp = |e: &[(usize, usize, U)]| SparseMatPolynomial::new(nx, ny, e.iter().map(|(r, k, v)| SparseMatEntry::new(*r, *k, sc(v))).collect());
            let (mut ev, mut w, mut y) = (U::ZERO, vec![U::ZERO; rows], vec![U::ZERO; cols]);
            for (r, k, v) in &e { ev = f.add(&ev, &f.mul(v, &f.mul(&ex[*r], &ey[*k]))); w[*r] = f.add(&w[*r], &f.mul(v, &z[*k])); y[*k] = f.add(&y[*k], &f.mul(v, &x[*r])) }
            c.states(1); c.steps(3);
            let g = guarded(|| { let m = sp(&e); (uns(&SparseMatPolynomial::multi_evaluate(&[&m], &scs(&rx), &scs(&ry))), uns(&m.multiply_vec(rows, cols, &scs(&z))), uns(&m.compute_eval_table_sparse(&scs(&x), rows, cols)), m.get_num_nz_entries() >= n && m.get_num_nz_entries().is_power_of_two()) });
            c.ensure(g == Ok((vec![ev], w, y, true)), "sparse-matrix-at-scale", || json!({"shape": [rows, cols], "entries": n}));
            if nx == 7 { let nv = 9; let r = generic(nv, 2); let eq = eq_table(&r); let w = e.iter().fold(U::ZERO, |s, (i, k, v)| f.add(&s, &f.mul(v, &eq[(i * 4 + k) % 512]))); c.steps(1);
                let g = guarded(|| un(&SparsePolynomial::new(nv, e.iter().map(|(i, k, v)| SparsePolyEntry::new((i * 4 + k) % 512, sc(v))).collect()).evaluate(&scs(&r)))); c.ensure(g == Ok(w), "sparse-polynomial-at-scale", || json!({"entries": n})); }
        });
    }
}
/// Nothing is remembered from a call on neighbouring data: all functions on tables, points, matrices that differ in one part.
fn memory(c: &Check) {
    let f = fp(); let bump = [U::ONE, U::ONE.shl(64).0, U::ONE.shl(192).0, big()];
    let near = |v: &[U]| -> Vec<Vec<U>> { let mut o = vec![]; for i in 0..v.len() { for x in &bump { let mut w = v.to_vec(); w[i] = f.add(&w[i], x); o.push(w) } for x in [U::ZERO, U::ONE] { let mut w = v.to_vec(); w[i] = x; o.push(w) } if i + 1 < v.len() { let mut w = v.to_vec(); w.swap(i, i + 1); o.push(w) } } o };
    let pairs = |a: &[U], b: &[U]| -> Vec<(Vec<U>, Vec<U>)> { let mut o = vec![(a.to_vec(), b.to_vec())]; o.extend(near(a).into_iter().map(|x| (x, b.to_vec()))); o.extend(near(b).into_iter().map(|x| (a.to_vec(), x))); o };
    let it = pairs(&generic(8, 3), &generic(3, 4));
    c.bound(&format!("{} tables and points that differ in one entry or exchange, and matrices and points that do, one after the other: every function on them", it.len()));
    neighbours(c, "dense-after-another", &it, |(z, r)| { let p = d(z); let rs = scs(r); let (mut a, mut b) = (d(z), d(z)); for i in 0..3 { a.bound_poly_var_top(&rs[i]); b.bound_poly_var_bot(&rs[2 - i]) }
        let (l, rr) = EqPolynomial::new(rs.clone()).compute_factored_evals(); let lz = p.bound(&l); let (x, y) = p.split(4);
        (un(&p.evaluate(&rs)), un(&a[0]), un(&b[0]), dot(&uns(&lz), &uns(&rr)), un(&x.evaluate(&rs[1..])), un(&y.evaluate(&rs[1..])), un(&ProductCircuit::new(&p).evaluate()), uns(&EqPolynomial::new(rs.clone()).evals())) },
        |(z, r)| { let w = mle(z, r); (w, w, w, w, mle(&z[..4], &r[1..]), mle(&z[4..], &r[1..]), z.iter().fold(U::ONE, |a, x| f.mul(&a, x)), eq_table(r)) });
    // and each function by itself, so that no other call comes between
    neighbours(c, "evals-after-another", &it, |(_, r)| uns(&EqPolynomial::new(scs(r)).evals()), |(_, r)| eq_table(r));
    neighbours(c, "evaluate-after-another", &it, |(z, r)| un(&d(z).evaluate(&scs(r))), |(z, r)| mle(z, r));
    neighbours(c, "factored-after-another", &it, |(_, r)| { let (l, rr) = EqPolynomial::new(scs(r)).compute_factored_evals(); (uns(&l), uns(&rr)) }, |(_, r)| { (eq_table(&r[..1]), eq_table(&r[1..])) });
    neighbours(c, "bound-after-another", &it, |(z, r)| uns(&d(z).bound(&scs(&eq_table(&r[..1])))), |(z, r)| { let l = eq_table(&r[..1]); (0..4).map(|k| f.add(&f.mul(&l[0], &z[k]), &f.mul(&l[1], &z[4 + k]))).collect() });
    neighbours(c, "top-after-another", &it, |(z, r)| { let mut p = d(z); p.bound_poly_var_top(&sc(&r[0])); table(&p) }, |(z, r)| (0..4).map(|k| f.add(&z[k], &f.mul(&r[0], &f.sub(&z[4 + k], &z[k])))).collect());
    neighbours(c, "bot-after-another", &it, |(z, r)| { let mut p = d(z); p.bound_poly_var_bot(&sc(&r[0])); table(&p) }, |(z, r)| (0..4).map(|k| f.add(&z[2 * k], &f.mul(&r[0], &f.sub(&z[2 * k + 1], &z[2 * k])))).collect());
    let it = pairs(&generic(4, 5), &generic(4, 6));
    neighbours(c, "points-after-another", &it, |(a, b)| (un(&EqPolynomial::new(scs(a)).evaluate(&scs(b))), un(&IdentityPolynomial::new(4).evaluate(&scs(b))), un(&DotProductCircuit::new(d(a), d(b), d(a)).evaluate()), table(&DensePolynomial::merge([d(a), d(b)].iter()))),
        |(a, b)| ((0..4).fold(U::ONE, |s, k| f.mul(&s, &f.add(&f.mul(&a[k], &b[k]), &f.mul(&f.sub(&U::ONE, &a[k]), &f.sub(&U::ONE, &b[k]))))), b.iter().enumerate().fold(U::ZERO, |s, (i, x)| f.add(&s, &f.mul(x, &U::from(8 >> i)))), (0..4).fold(U::ZERO, |s, k| f.add(&s, &f.mul(&f.mul(&a[k], &b[k]), &a[k]))), [&a[..], &b[..]].concat()));
    // univariate: coefficients from evaluations, then the value at a point
    let it: Vec<(Vec<U>, Vec<U>)> = pairs(&generic(4, 7), &generic(1, 8)).into_iter().chain(pairs(&generic(3, 7), &generic(1, 8))).collect();
    neighbours(c, "univariate-after-another", &it, |(k, r)| { let e: Vec<U> = (0..k.len() as u64).map(|x| horner(k, &U::from(x))).collect(); let p = UniPoly::from_evals(&scs(&e)); let hint = sc(&f.add(&e[0], &e[1])); let q = p.compress().decompress(&hint);
        (uns(&p.as_vec()), un(&p.evaluate(&sc(&r[0]))), un(&p.eval_at_zero()), un(&p.eval_at_one()), uns(&q.as_vec())) }, |(k, r)| (k.clone(), horner(k, &r[0]), k[0], horner(k, &U::ONE), k.clone()));
    // matrices
    type M = Vec<(usize, usize, U)>;
    let base: M = vec![(0, 0, generic(1, 1)[0]), (1, 3, generic(1, 2)[0]), (2, 1, U::ONE), (3, 2, pm1()), (3, 7, big())];
    let mut ms = vec![base.clone()]; for i in 0..base.len() { for x in &bump { let mut m = base.clone(); m[i].2 = f.add(&m[i].2, x); ms.push(m) } for r in 0..4 { if r != base[i].0 { let mut m = base.clone(); m[i].0 = r; ms.push(m) } } for k in 0..8 { if k != base[i].1 { let mut m = base.clone(); m[i].1 = k; ms.push(m) } } let mut m = base.clone(); m.remove(i); ms.push(m); let mut m = base.clone(); m.push((i % 4, 5, U::ONE)); ms.push(m) }
    let (rx, ry) = (generic(2, 5), generic(3, 6)); let mut it: Vec<(M, Vec<U>, Vec<U>)> = ms.into_iter().map(|m| (m, rx.clone(), ry.clone())).collect(); it.extend(pairs(&rx, &ry).into_iter().map(|(a, b)| (base.clone(), a, b)));
    let other: M = vec![(1, 1, big()), (2, 6, pm1())];
    let ev = |m: &M, rx: &[U], ry: &[U]| { let (a, b) = (eq_table(rx), eq_table(ry)); m.iter().fold(U::ZERO, |s, (i, k, v)| f.add(&s, &f.mul(v, &f.mul(&a[*i], &b[*k])))) };
    let sp = |m: &M| SparseMatPolynomial::new(2, 3, m.iter().map(|(r, k, v)| SparseMatEntry::new(*r, *k, sc(v))).collect());
    neighbours(c, "matrix-after-another", &it, |(m, rx, ry)| { let (a, b) = (sp(m), sp(&other)); let z = eq_table(ry); let x = eq_table(rx);
        (uns(&SparseMatPolynomial::multi_evaluate(&[&a, &b], &scs(rx), &scs(ry))), uns(&SparseMatPolynomial::multi_evaluate(&[&b, &a], &scs(rx), &scs(ry))), uns(&a.multiply_vec(4, 8, &scs(&z))), uns(&a.compute_eval_table_sparse(&scs(&x), 4, 8)), a.get_num_nz_entries()) },
        |(m, rx, ry)| { let (e, o) = (ev(m, rx, ry), ev(&other, rx, ry)); let (z, x) = (eq_table(ry), eq_table(rx)); let (mut w, mut y) = (vec![U::ZERO; 4], vec![U::ZERO; 8]);
            for (r, k, v) in m { w[*r] = f.add(&w[*r], &f.mul(v, &z[*k])); y[*k] = f.add(&y[*k], &f.mul(v, &x[*r])) } (vec![e, o], vec![o, e], w, y, m.len().next_power_of_two()) });
    let mk = |m: &M, which: usize| { let bytes = |m: &M| m.iter().map(|(r, k, v)| (*r, *k, sc(v))).collect::<Vec<_>>(); let b = bytes(&other); let e = bytes(m); let l: [&Vec<_>; 3] = match which { 0 => [&e, &b, &b], 1 => [&b, &e, &b], _ => [&b, &b, &e] }; R1CSInstance::new(4, 4, 2, l[0], l[1], l[2]) };
    for which in 0..3 { neighbours(c, "instance-after-another", &it, |(m, rx, ry)| { let i = mk(m, which); let z = scs(&eq_table(ry)); let (a, b, e) = i.evaluate(&scs(rx), &scs(ry)); let (za, zb, zc) = i.multiply_vec(4, 8, &z); let (ta, tb, tc) = i.compute_eval_table_sparse(4, 8, &scs(&eq_table(rx))); ([un(&a), un(&b), un(&e)], [za, zb, zc].map(|p| table(&p)), [ta, tb, tc].map(|p| uns(&p))) },
        |(m, rx, ry)| { let l: [&M; 3] = std::array::from_fn(|i| if i == which { m } else { &other }); let (z, x) = (eq_table(ry), eq_table(rx));
            (l.map(|m| ev(m, rx, ry)), l.map(|m| { let mut w = vec![U::ZERO; 4]; for (r, k, v) in m { w[*r] = f.add(&w[*r], &f.mul(v, &z[*k])) } w }), l.map(|m| { let mut y = vec![U::ZERO; 8]; for (r, k, v) in m { y[*k] = f.add(&y[*k], &f.mul(v, &x[*r])) } y })) }); }
    let sparse: Vec<(Vec<(usize, U)>, Vec<U>)> = it.iter().map(|(m, rx, ry)| (m.iter().map(|(r, k, v)| (r * 8 + k, *v)).collect(), [&rx[..], &ry[..]].concat())).collect();
    neighbours(c, "sparse-after-another", &sparse, |(e, r)| un(&SparsePolynomial::new(5, e.iter().map(|(i, v)| SparsePolyEntry::new(*i, sc(v))).collect()).evaluate(&scs(r))), |(e, r)| { let t = eq_table(r); e.iter().fold(U::ZERO, |s, (i, v)| f.add(&s, &f.mul(v, &t[*i]))) });
}
fn horner(k: &[U], x: &U) -> U { let f = fp(); k.iter().rev().fold(U::ZERO, |s, v| f.add(&f.mul(&s, x), v)) }
pub fn s02(c: &Check) { memory(c); math(c); uni(c); dense(c); sparse(c); scale(c); c.traces(1); c.sample(json!({"table": show_u(&generic(4, 5)), "point": show_u(&generic(2, 9)), "value": mle(&generic(4, 5), &generic(2, 9)).hex()})) }
