use libspartan::Assignment;
fn section(t: u32, b: &[u8]) -> Vec<u8> { let mut v = t.to_le_bytes().to_vec(); v.extend((b.len() as u64).to_le_bytes()); v.extend(b); v }
fn main() {
    let p = { let mut p = [0xffu8; 32]; p[..8].copy_from_slice(&0xfffffffefffffc2fu64.to_le_bytes()); p };
    let mut h = 32u32.to_le_bytes().to_vec(); h.extend(p);
    // wires: 1, public x, private y, z; constraints y * y = x, 0 * 0 = y - z
    for x in [4u32, 1, 0, 2] { h.extend(x.to_le_bytes()); } h.extend(4u64.to_le_bytes()); h.extend(2u32.to_le_bytes());
    let mut m1 = p; m1[0] -= 1; let mut one = [0u8; 32]; one[0] = 1;
    let lc = |ts: &[(u32, [u8; 32])]| { let mut v = (ts.len() as u32).to_le_bytes().to_vec(); for (w, x) in ts { v.extend(w.to_le_bytes()); v.extend(x); } v };
    let mut c = vec![]; for l in [lc(&[(2, one)]), lc(&[(2, one)]), lc(&[(1, one)]), lc(&[]), lc(&[]), lc(&[(2, one), (3, m1)])] { c.extend(l); }
    let mut m = vec![]; for x in [0u64, 1, 2, 3] { m.extend(x.to_le_bytes()); }
    let mut f = b"r1cs".to_vec(); f.extend(1u32.to_le_bytes()); f.extend(3u32.to_le_bytes());
    f.extend(section(1, &h)); f.extend(section(2, &c)); f.extend(section(3, &m));
    let path = std::env::current_dir().unwrap().join("c.r1cs"); std::fs::write(&path, f).unwrap();
    let inst = circuit_reader::load_as_spartan_inst(path, 1);
    let w = |v: &[u8]| Assignment::new(&v.iter().map(|x| { let mut b = [0u8; 32]; b[0] = *x; b }).collect::<Vec<_>>()).unwrap();
    assert_eq!(inst.is_sat(&w(&[1, 9, 3, 3]), &w(&[9])).unwrap(), true, "the witness is refused");
    for z in 0..6u8 { if z != 3 { assert_eq!(inst.is_sat(&w(&[1, 9, 3, z]), &w(&[9])).unwrap(), false, "z = {z} is not y, yet accepted"); } }
}
