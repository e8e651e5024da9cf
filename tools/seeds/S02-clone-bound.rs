use libspartan::verif::{dense_mlpoly::*, scalar::Scalar};
fn main() {
    let s = |v: u64| Scalar::from(v);
    let mut p = DensePolynomial::new((1..=8).map(|i| s(i * i)).collect());
    let r = [s(5), s(9), s(12)];
    let want = p.clone().evaluate(&r);
    for k in 0..3 {
        p.bound_poly_var_top(&r[k]);
        let c = p.clone();
        assert_eq!(c.get_num_vars(), 2 - k, "a copy has other variables");
        assert!(c.evaluate(&r[k + 1..]) == want, "a copy evaluates to something else");
    }
}
