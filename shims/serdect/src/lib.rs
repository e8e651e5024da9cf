//! Stand-in for serdect 0.1: binary formats as a byte sequence, text as upper-case hex.
pub use serde;
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02X}")).collect() }
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() { return None }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub mod slice {
    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() { s.serialize_str(&super::hex(v.as_ref())) } else { v.as_ref().serialize(s) }
    }
    pub fn deserialize_hex_or_bin_vec<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        if d.is_human_readable() {
            let s = String::deserialize(d)?;
            super::unhex(&s).ok_or_else(|| D::Error::custom("hex"))
        } else { Vec::<u8>::deserialize(d) }
    }
}
pub mod array {
    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() { s.serialize_str(&super::hex(v.as_ref())) } else { v.as_ref().serialize(s) }
    }
    pub fn deserialize_hex_or_bin<'de, D: Deserializer<'de>>(buf: &mut [u8], d: D) -> Result<(), D::Error> {
        let v = if d.is_human_readable() {
            super::unhex(&String::deserialize(d)?).ok_or_else(|| D::Error::custom("hex"))?
        } else { Vec::<u8>::deserialize(d)? };
        if v.len() != buf.len() { return Err(D::Error::custom("length")) }
        buf.copy_from_slice(&v); Ok(())
    }
}
