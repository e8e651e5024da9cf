#![allow(dead_code, deprecated)]
#[path = "@REPO@/packages/circuit_reader/src/circom_reader.rs"] mod circom_reader;
use std::io::Cursor;
fn section(t: u32, b: &[u8]) -> Vec<u8> { let mut v = t.to_le_bytes().to_vec(); v.extend((b.len() as u64).to_le_bytes()); v.extend(b); v }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut n = [0xffu8; 32]; n[..8].copy_from_slice(&0xfffffffefffffc2fu64.to_le_bytes());
    let read = |labels: &[u64], wires: u32| {
        let mut h = 32u32.to_le_bytes().to_vec(); h.extend(n);
        for x in [wires, 1, 0, 1] { h.extend(x.to_le_bytes()); } h.extend(3u64.to_le_bytes()); h.extend(0u32.to_le_bytes());
        let mut m = vec![]; for x in labels { m.extend(x.to_le_bytes()); }
        let mut f = b"r1cs".to_vec(); f.extend(1u32.to_le_bytes()); f.extend(3u32.to_le_bytes());
        f.extend(section(1, &h)); f.extend(section(2, &[])); f.extend(section(3, &m));
        std::panic::catch_unwind(|| circom_reader::from_reader::<secq256k1::AffinePoint, _>(Cursor::new(f)).is_ok()).unwrap_or(false)
    };
    assert!(read(&[0, 1, 2], 3), "a well-formed file is refused");
    for l in [&[0u64, 1][..], &[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5], &[]] { assert!(!read(l, 3), "{} labels for three wires are accepted", l.len()); }
}
