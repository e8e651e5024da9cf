use libspartan::Instance;
use spartan_wasm::wasm::{prove, verify};
fn word(v: u8) -> [u8; 32] { let mut b = [0u8; 32]; b[0] = v; b }
/// k * x * x = y with y public; variables are [x].
fn circuit(k: u8) -> Vec<u8> {
    let a = [(0, 0, word(k))]; let b = [(0, 0, word(1))]; let c = [(0, 2, word(1))];
    bincode::serialize(&Instance::new(1, 1, 1, &a, &b, &c).unwrap()).unwrap()
}
fn wtns(vals: &[u8]) -> Vec<u8> {
    let p = libspartan_modulus(); let mut w = b"wtns".to_vec();
    w.extend(2u32.to_le_bytes()); w.extend(2u32.to_le_bytes());
    w.extend(1u32.to_le_bytes()); w.extend(40u64.to_le_bytes()); w.extend(32u32.to_le_bytes()); w.extend(p); w.extend((vals.len() as u32).to_le_bytes());
    w.extend(2u32.to_le_bytes()); w.extend((vals.len() as u64 * 32).to_le_bytes());
    for v in vals { w.extend(word(*v)) }
    w
}
fn libspartan_modulus() -> [u8; 32] { let mut p = [0xffu8; 32]; p[4] = 0xfe; p[..4].copy_from_slice(&0xfffffc2fu32.to_le_bytes()); p }
fn public(v: u8) -> Vec<u8> { let mut b = vec![0; 32]; b[31] = v; b }
fn main() {
    let k = (1..=13u8).flat_map(|a| (1..a).map(move |b| (a, b))).find(|(a, b)| circuit(*a).len() == circuit(*b).len()).expect("two circuits of one length");
    let (one, two) = (circuit(k.0), circuit(k.1));
    let p1 = prove(&one, &wtns(&[3]), &public(9 * k.0)).ok().unwrap();
    let p2 = prove(&two, &wtns(&[3]), &public(9 * k.1)).ok().unwrap();
    for _ in 0..2 {
        assert!(verify(&one, &p1, &public(9 * k.0)).ok() == Some(true), "refused on its circuit");
        assert!(verify(&two, &p2, &public(9 * k.1)).ok() == Some(true), "refused on its circuit");
        assert!(verify(&one, &p2, &public(9 * k.1)).ok() == Some(false), "accepted on another circuit");
        assert!(verify(&two, &p1, &public(9 * k.0)).ok() == Some(false), "accepted on another circuit");
    }
}
