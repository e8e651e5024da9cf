//! Link-time stand-in: nothing in /repo signs, so no call ever reaches this.
#![no_std]
pub fn generate_k<D, I: crypto_bigint::ArrayEncoding + crypto_bigint::Integer + zeroize::Zeroize>(
    _x: &I, _n: &I, _h: &crypto_bigint::ByteArray<I>, _data: &[u8],
) -> zeroize::Zeroizing<I> {
    unimplemented!("rfc6979 stand-in")
}
