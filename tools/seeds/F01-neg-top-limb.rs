fn main() {
    let r_inv = Scalar::from_raw([0x1000003d1, 0, 0, 0]).invert().unwrap();
    for shift in 0..4 { for v in [1u64, 5, 1 << 40, u64::MAX >> 1] {
        let mut l = [0u64; 4]; l[shift] = v;
        let a = Scalar::from_raw(l) * r_inv;
        assert!(a + (-a) == Scalar::zero(), "a + (-a) != 0");
        assert!(-(-a) == a, "-(-a) != a");
    } }
}
