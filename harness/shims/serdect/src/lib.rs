//! Stand-in for serdect 0.1 (not in the offline cache): byte strings as in serdect's binary form.
pub use serde;
pub mod slice {
    use serde::{de::Visitor, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> { v.as_ref().serialize(s) }
    pub fn serialize_hex_lower_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> { v.as_ref().serialize(s) }
    pub fn deserialize_hex_or_bin_vec<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> { <Vec<u8> as serde::Deserialize>::deserialize(d) }
    pub fn deserialize_hex_or_bin<'de, D: Deserializer<'de>>(buf: &mut [u8], d: D) -> Result<&[u8], D::Error> {
        let v = <Vec<u8> as serde::Deserialize>::deserialize(d)?;
        if v.len() > buf.len() { return Err(serde::de::Error::custom("length")); }
        buf[..v.len()].copy_from_slice(&v); Ok(&buf[..v.len()])
    }
    pub struct Unused; impl<'de> Visitor<'de> for Unused { type Value = (); fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("") } }
}
pub mod array {
    use serde::{ser::SerializeTuple, de::{SeqAccess, Visitor}, Deserializer, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> { let b = v.as_ref(); let mut t = s.serialize_tuple(b.len())?; for x in b { t.serialize_element(x)?; } t.end() }
    pub fn serialize_hex_lower_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> { serialize_hex_upper_or_bin(v, s) }
    pub fn deserialize_hex_or_bin<'de, D: Deserializer<'de>>(buf: &mut [u8], d: D) -> Result<(), D::Error> {
        struct V<'b>(&'b mut [u8]);
        impl<'de, 'b> Visitor<'de> for V<'b> { type Value = ();
            fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("a byte array") }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> { let n = self.0.len(); for i in 0..n { self.0[i] = a.next_element()?.ok_or_else(|| serde::de::Error::invalid_length(i, &"more"))?; } Ok(()) } }
        let n = buf.len(); d.deserialize_tuple(n, V(buf))
    }
}
