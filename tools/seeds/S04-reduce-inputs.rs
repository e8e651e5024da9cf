use libspartan::Assignment;
fn main() {
    let p = { let mut p = [0xffu8; 32]; p[..8].copy_from_slice(&0xfffffffefffffc2fu64.to_le_bytes()); p };
    let add = |k: u8| { let mut b = p; b[0] += k; b };
    assert!(Assignment::new(&[[0u8; 32], [1u8; 32]]).is_ok());
    let mut m1 = p; m1[0] -= 1; assert!(Assignment::new(&[m1]).is_ok());
    for bad in [p, add(1), add(5), [0xff; 32]] { assert!(Assignment::new(&[bad]).is_err(), "a value that is no field element is accepted"); assert!(Assignment::new(&[[0u8; 32], bad]).is_err()); }
}
