#![allow(dead_code, deprecated)]
#[path = "@REPO@/packages/circuit_reader/src/circom_reader.rs"] mod circom_reader;
use circom_reader::*;
use std::io::Cursor;
fn section(t: u32, b: &[u8]) -> Vec<u8> { let mut v = t.to_le_bytes().to_vec(); v.extend((b.len() as u64).to_le_bytes()); v.extend(b); v }
fn main() {
    use ff::PrimeField;
    let mut n = [0xffu8; 32]; n[..8].copy_from_slice(&0xfffffffefffffc2fu64.to_le_bytes());
    let mut h = 32u32.to_le_bytes().to_vec(); h.extend(&n);
    for x in [3u32, 1, 0, 1] { h.extend(x.to_le_bytes()); } h.extend(3u64.to_le_bytes()); h.extend(2u32.to_le_bytes());
    let lc = |ts: &[(u32, u8)]| { let mut v = (ts.len() as u32).to_le_bytes().to_vec(); for (w, x) in ts { v.extend(w.to_le_bytes()); let mut b = [0u8; 32]; b[0] = *x; v.extend(b); } v };
    let mut c = vec![]; for l in [lc(&[(1, 2)]), lc(&[(2, 3), (0, 1)]), lc(&[(0, 7)]), lc(&[]), lc(&[]), lc(&[(1, 1)])] { c.extend(l); }
    let mut m = vec![]; for x in [0u64, 1, 2] { m.extend(x.to_le_bytes()); }
    let secs = [section(1, &h), section(2, &c), section(3, &m), section(4, &c), section(5, &[])];
    let mut want = None;
    for order in [[0, 1, 2, 3, 4], [1, 0, 2, 3, 4], [2, 1, 0, 4, 3], [0, 2, 1, 3, 4], [4, 0, 3, 1, 2], [0, 3, 1, 2, 4]] {
        let mut f = b"r1cs".to_vec(); f.extend(1u32.to_le_bytes()); f.extend(5u32.to_le_bytes());
        for i in order { f.extend(&secs[i]); }
        let r = from_reader::<secq256k1::AffinePoint, _>(Cursor::new(f)).expect("a well-formed file is refused");
        let got = format!("{:?} {:?}", r.constraints.iter().map(|(a, b, c)| [a, b, c].map(|l| l.iter().map(|(w, x)| (*w, x.to_repr().as_slice().to_vec())).collect::<Vec<_>>())).collect::<Vec<_>>(), r.wire_mapping);
        assert_eq!(*want.get_or_insert(got.clone()), got, "section order changes what is read");
    }
}
