fn main() {
    let x = Scalar::from(7u64);
    for input in [vec![x, x * x], vec![x, x.invert().unwrap(), x * x + x], vec![Scalar::one(), x], vec![-x, -x.invert().unwrap(), x, x]] {
        let mut v = input.clone(); Scalar::batch_invert(&mut v);
        for (a, b) in input.iter().zip(&v) { assert!(*a * *b == Scalar::one(), "not the inverse"); }
    }
}
