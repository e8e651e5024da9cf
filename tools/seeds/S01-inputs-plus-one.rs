use libspartan::{Assignment, Instance};
fn main() {
    let one = { let mut b = [0u8; 32]; b[0] = 1; b };
    for ni in [0usize, 1, 2, 3, 4, 5, 8] { for nv in [1usize, 2, 4, 8] {
        // var 0 * 1 = last entry
        let inst = Instance::new(2, nv, ni, &[(0, 0, one)], &[(0, nv, one)], &[(0, nv + ni, one)]).expect("well-formed");
        let a = |n: usize, v: u8| Assignment::new(&(0..n).map(|_| { let mut b = [0u8; 32]; b[0] = v; b }).collect::<Vec<_>>()).unwrap();
        assert!(inst.is_sat(&a(nv, 1), &a(ni, 1)).unwrap());
        assert_eq!(inst.is_sat(&a(nv, 1), &a(ni, 2)).unwrap(), ni == 0);
    } }
}
