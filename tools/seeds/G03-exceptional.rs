use secq256k1::AffinePoint;
fn main() {
    // zero, the field's modulus and twice the modulus, little-endian
    let q: [u8; 32] = { let mut b = [0u8; 32]; for (i, w) in [0xbfd25e8cd0364141u64, 0xbaaedce6af48a03b, 0xfffffffffffffffe, 0xffffffffffffffff].iter().enumerate() { b[8 * i..8 * i + 8].copy_from_slice(&w.to_le_bytes()); } b };
    let mut seen: Option<Vec<u8>> = None;
    for which in 0..2 {
        let mut bytes = [0u8; 128]; bytes[64..72].copy_from_slice(&77u64.to_le_bytes());
        if which == 1 { bytes[..32].copy_from_slice(&q); }
        let p = AffinePoint::from_uniform_bytes(&bytes);
        let e = p.compress();
        assert!(bool::from(AffinePoint::decompress(e).is_some()), "not a point of the curve");
        let v = e.as_bytes().to_vec();
        assert_eq!(*seen.get_or_insert(v.clone()), v, "congruent inputs hash to different points");
    }
}
