/// A minimal serializer/deserializer pair for sequences of bytes: the image of a value is exactly the bytes it writes.
#[derive(Debug)] pub struct SeqErr;
impl std::fmt::Display for SeqErr { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for SeqErr {}
impl serde::de::Error for SeqErr { fn custom<T: std::fmt::Display>(_: T) -> Self { SeqErr } fn invalid_length(_: usize, _: &dyn serde::de::Expected) -> Self { SeqErr } fn invalid_value(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self { SeqErr } fn invalid_type(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self { SeqErr } }
impl serde::ser::Error for SeqErr { fn custom<T: std::fmt::Display>(_: T) -> Self { SeqErr } }
pub struct BytesDe<'a> { pub b: &'a [u8], pub i: usize }
pub struct U8De(pub u8);
impl<'de> serde::Deserializer<'de> for U8De {
    type Error = SeqErr;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SeqErr> { v.visit_u8(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de, 'a> serde::de::SeqAccess<'de> for BytesDe<'a> {
    type Error = SeqErr;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SeqErr> {
        if self.i >= self.b.len() { return Ok(None); }
        let x = self.b[self.i]; self.i += 1;
        match seed.deserialize(U8De(x)) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }
    }
}
impl<'de, 'a> serde::Deserializer<'de> for BytesDe<'a> {
    type Error = SeqErr;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SeqErr> { v.visit_seq(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub struct BytesSer;
pub struct BytesSeqSer(pub Vec<u8>);
impl serde::ser::SerializeSeq for BytesSeqSer { type Ok = Vec<u8>; type Error = SeqErr;
    fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SeqErr> { match v.serialize(U8Ser) { Ok(x) => { self.0.extend_from_slice(&x); Ok(()) } Err(e) => Err(e) } }
    fn end(self) -> Result<Vec<u8>, SeqErr> { Ok(self.0) } }
impl serde::ser::SerializeTuple for BytesSeqSer { type Ok = Vec<u8>; type Error = SeqErr;
    fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SeqErr> { match v.serialize(U8Ser) { Ok(x) => { self.0.extend_from_slice(&x); Ok(()) } Err(e) => Err(e) } }
    fn end(self) -> Result<Vec<u8>, SeqErr> { Ok(self.0) } }
impl serde::ser::SerializeTupleStruct for BytesSeqSer { type Ok = Vec<u8>; type Error = SeqErr;
    fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SeqErr> { match v.serialize(U8Ser) { Ok(x) => { self.0.extend_from_slice(&x); Ok(()) } Err(e) => Err(e) } }
    fn end(self) -> Result<Vec<u8>, SeqErr> { Ok(self.0) } }
pub struct U8Ser;
macro_rules! ser_nope { ($t:ident) => {
    fn serialize_bool(self, _: bool) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_i8(self, _: i8) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_i16(self, _: i16) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) }
    fn serialize_i32(self, _: i32) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_i64(self, _: i64) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_u16(self, _: u16) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) }
    fn serialize_u32(self, _: u32) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) }
    fn serialize_f32(self, _: f32) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_f64(self, _: f64) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_char(self, _: char) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) }
    fn serialize_str(self, _: &str) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_none(self) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_unit(self) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } fn serialize_unit_struct(self, _: &'static str) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) } 
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, SeqErr> { Err(SeqErr) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SeqErr> { Err(SeqErr) } fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SeqErr> { Err(SeqErr) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SeqErr> { Err(SeqErr) } fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SeqErr> { Err(SeqErr) }
    type Ok = Vec<u8>; type Error = SeqErr; type SerializeSeq = BytesSeqSer; type SerializeTuple = BytesSeqSer; type SerializeTupleStruct = BytesSeqSer;
    type SerializeTupleVariant = serde::ser::Impossible<Vec<u8>, SeqErr>; type SerializeMap = serde::ser::Impossible<Vec<u8>, SeqErr>; type SerializeStruct = serde::ser::Impossible<Vec<u8>, SeqErr>; type SerializeStructVariant = serde::ser::Impossible<Vec<u8>, SeqErr>;
} }
impl serde::Serializer for U8Ser { ser_nope!(x);
    fn serialize_u8(self, v: u8) -> Result<Vec<u8>, SeqErr> { let mut r = Vec::new(); r.push(v); Ok(r) }
    fn serialize_u64(self, v: u64) -> Result<Vec<u8>, SeqErr> { Ok(v.to_le_bytes().to_vec()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, SeqErr> { Ok(v.to_vec()) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<Vec<u8>, SeqErr> { v.serialize(self) }
    fn serialize_seq(self, _: Option<usize>) -> Result<BytesSeqSer, SeqErr> { Ok(BytesSeqSer(Vec::new())) } fn serialize_tuple(self, _: usize) -> Result<BytesSeqSer, SeqErr> { Ok(BytesSeqSer(Vec::new())) } fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<BytesSeqSer, SeqErr> { Ok(BytesSeqSer(Vec::new())) }
}
impl serde::Serializer for BytesSer { ser_nope!(x);
    fn serialize_u8(self, v: u8) -> Result<Vec<u8>, SeqErr> { let mut r = Vec::new(); r.push(v); Ok(r) }
    fn serialize_u64(self, v: u64) -> Result<Vec<u8>, SeqErr> { Ok(v.to_le_bytes().to_vec()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, SeqErr> { Ok(v.to_vec()) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<Vec<u8>, SeqErr> { v.serialize(self) }
    fn serialize_seq(self, _: Option<usize>) -> Result<BytesSeqSer, SeqErr> { Ok(BytesSeqSer(Vec::new())) } fn serialize_tuple(self, _: usize) -> Result<BytesSeqSer, SeqErr> { Ok(BytesSeqSer(Vec::new())) } fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<BytesSeqSer, SeqErr> { Ok(BytesSeqSer(Vec::new())) }
}
