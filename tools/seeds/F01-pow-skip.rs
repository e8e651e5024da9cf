fn main() {
    let x = Scalar::from(7u64);
    for by in [[5, 0, 0, 0], [5, 9, 0, 0], [5, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1], [1, 2, 3, 4]] {
        assert!(x.pow(&by) == x.pow_vartime(&by), "the two powers differ for {:?}", by);
    }
}
