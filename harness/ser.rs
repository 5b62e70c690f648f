//! C17: serialization round trips, over a recording format. The tape stands for any serde format
//! that represents structs either by field name (`named`) or by position, newtypes transparently
//! and enum variants by name or by index.
use crate::types::*;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use std::fmt::Display;

#[derive(Debug)]
pub struct E;
impl Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: Display>(_: T) -> E {
        E
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> E {
        E
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> E {
        E
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> E {
        E
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> E {
        E
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> E {
        E
    }
    fn missing_field(_: &'static str) -> E {
        E
    }
    fn duplicate_field(_: &'static str) -> E {
        E
    }
}

const INT: u8 = 1; // val
const UNIT: u8 = 2;
const SEQ: u8 = 3; // opens
const STRUCT: u8 = 4; // opens
const KEY: u8 = 5; // name
const END: u8 = 6;
const VARIANT: u8 = 7; // name, val = index
const SOME: u8 = 8;
const BOOL: u8 = 9;
const N: usize = 64;

#[derive(Clone, Copy)]
pub struct Token {
    k: u8,
    v: i128,
    s: &'static str,
}
pub struct Tape {
    n: usize,
    at: usize,
    t: [Token; N],
}
impl Tape {
    fn put(&mut self, k: u8, v: i128, s: &'static str) {
        self.t[self.n] = Token { k, v, s };
        self.n += 1;
    }
    fn peek(&self) -> Token {
        if self.at < self.n {
            self.t[self.at]
        } else {
            Token { k: 0, v: 0, s: "" }
        }
    }
    fn take(&mut self, k: u8) -> Result<Token, E> {
        let t = self.peek();
        if t.k == k {
            self.at += 1;
            Ok(t)
        } else {
            Err(E)
        }
    }
    /// skips one value
    fn skip(&mut self) {
        let mut depth = 0;
        loop {
            let t = self.peek();
            if t.k == 0 {
                return;
            }
            self.at += 1;
            if t.k == SEQ || t.k == STRUCT {
                depth += 1;
            } else if t.k == END {
                depth -= 1;
            }
            if depth <= 0 && t.k != KEY && t.k != VARIANT && t.k != SOME {
                return;
            }
        }
    }
}

pub struct S<'a>(&'a mut Tape);
macro_rules! ints { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<(), E> { self.0.put(INT, v as i128, ""); Ok(()) } )* } }
impl<'a> Serializer for S<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = S<'a>;
    type SerializeTuple = S<'a>;
    type SerializeTupleStruct = S<'a>;
    type SerializeTupleVariant = S<'a>;
    type SerializeMap = S<'a>;
    type SerializeStruct = S<'a>;
    type SerializeStructVariant = S<'a>;
    ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_i128 i128);
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.0.put(BOOL, if v { 1 } else { 0 }, "");
        Ok(())
    }
    fn serialize_f32(self, _: f32) -> Result<(), E> {
        Err(E)
    }
    fn serialize_f64(self, _: f64) -> Result<(), E> {
        Err(E)
    }
    fn serialize_char(self, _: char) -> Result<(), E> {
        Err(E)
    }
    fn serialize_str(self, _: &str) -> Result<(), E> {
        Err(E)
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), E> {
        Err(E)
    }
    fn serialize_none(self) -> Result<(), E> {
        self.0.put(UNIT, 0, "");
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        self.0.put(SOME, 0, "");
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        self.0.put(UNIT, 0, "");
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        self.0.put(UNIT, 0, "");
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, s: &'static str) -> Result<(), E> {
        self.0.put(VARIANT, i as i128, s);
        self.0.put(UNIT, 0, "");
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, s: &'static str, v: &T) -> Result<(), E> {
        self.0.put(VARIANT, i as i128, s);
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<S<'a>, E> {
        self.0.put(SEQ, 0, "");
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<S<'a>, E> {
        self.0.put(SEQ, 0, "");
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<S<'a>, E> {
        self.0.put(SEQ, 0, "");
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, s: &'static str, _: usize) -> Result<S<'a>, E> {
        self.0.put(VARIANT, i as i128, s);
        self.0.put(SEQ, 0, "");
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<S<'a>, E> {
        Err(E)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<S<'a>, E> {
        self.0.put(STRUCT, 0, "");
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, s: &'static str, _: usize) -> Result<S<'a>, E> {
        self.0.put(VARIANT, i as i128, s);
        self.0.put(STRUCT, 0, "");
        Ok(self)
    }
}
macro_rules! seqs { ($($tr:ident $f:ident),*) => { $( impl<'a> $tr for S<'a> {
    type Ok = ();
    type Error = E;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(S(&mut *self.0)) }
    fn end(self) -> Result<(), E> { self.0.put(END, 0, ""); Ok(()) }
} )* } }
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structs { ($($tr:ident),*) => { $( impl<'a> $tr for S<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), E> { self.0.put(KEY, 0, key); v.serialize(S(&mut *self.0)) }
    fn end(self) -> Result<(), E> { self.0.put(END, 0, ""); Ok(()) }
} )* } }
structs!(SerializeStruct, SerializeStructVariant);
impl<'a> SerializeMap for S<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn end(self) -> Result<(), E> {
        Err(E)
    }
}

pub struct D<'a> {
    t: &'a mut Tape,
    named: bool,
}
/// an identifier: a name or an index
pub struct Id {
    v: u64,
    s: &'static str,
    named: bool,
}
macro_rules! num { ($($f:ident),*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let t = self.t.take(INT)?; v.visit_i64(t.v as i64) } )* } }
macro_rules! no { ($($f:ident),*) => { $( fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) } )* } }
impl<'de, 'a> Deserializer<'de> for D<'a> {
    type Error = E;
    num!(deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_i128, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_u128);
    no!(deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_map, deserialize_identifier);
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let k = self.t.peek().k;
        if k == INT {
            self.deserialize_i64(v)
        } else if k == BOOL {
            self.deserialize_bool(v)
        } else if k == SEQ {
            self.deserialize_seq(v)
        } else {
            self.t.take(UNIT)?;
            v.visit_unit()
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.t.skip();
        v.visit_unit()
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t = self.t.take(BOOL)?;
        v.visit_bool(t.v != 0)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.t.peek().k == SOME {
            self.t.take(SOME)?;
            v.visit_some(self)
        } else {
            self.t.take(UNIT)?;
            v.visit_none()
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.t.take(UNIT)?;
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        self.t.take(UNIT)?;
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.t.take(SEQ)?;
        let named = self.named;
        let r = v.visit_seq(Acc { t: &mut *self.t, named })?;
        self.t.take(END)?;
        Ok(r)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> {
        self.deserialize_seq(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.t.take(STRUCT)?;
        let named = self.named;
        let r = if named { v.visit_map(Acc { t: &mut *self.t, named })? } else { v.visit_seq(Acc { t: &mut *self.t, named })? };
        self.t.take(END)?;
        Ok(r)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
}
impl<'de> Deserializer<'de> for Id {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.named {
            v.visit_str(self.s)
        } else {
            v.visit_u64(self.v)
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub struct Acc<'a> {
    t: &'a mut Tape,
    named: bool,
}
impl<'de, 'a> SeqAccess<'de> for Acc<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        let k = self.t.peek().k;
        if k == END {
            return Ok(None);
        }
        if k == KEY {
            self.t.take(KEY)?;
        }
        let named = self.named;
        match seed.deserialize(D { t: &mut *self.t, named }) {
            Ok(v) => Ok(Some(v)),
            Err(e) => Err(e),
        }
    }
}
impl<'de, 'a> MapAccess<'de> for Acc<'a> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        if self.t.peek().k == END {
            return Ok(None);
        }
        let t = self.t.take(KEY)?;
        match seed.deserialize(Id { v: 0, s: t.s, named: true }) {
            Ok(v) => Ok(Some(v)),
            Err(e) => Err(e),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, E> {
        let named = self.named;
        seed.deserialize(D { t: &mut *self.t, named })
    }
}
impl<'de, 'a> EnumAccess<'de> for D<'a> {
    type Error = E;
    type Variant = D<'a>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, D<'a>), E> {
        let t = self.t.take(VARIANT)?;
        let named = self.named;
        match seed.deserialize(Id { v: t.v as u64, s: t.s, named }) {
            Ok(v) => Ok((v, self)),
            Err(e) => Err(e),
        }
    }
}
impl<'de, 'a> VariantAccess<'de> for D<'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        self.t.take(UNIT)?;
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        self.deserialize_seq(v)
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.deserialize_struct("", f, v)
    }
}

impl Serialize for Elem {
    fn serialize<X: Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
        // element values are kept to the range every format supports
        assume(-9_000_000_000_000_000_000 <= self.0 && self.0 <= 9_000_000_000_000_000_000);
        s.serialize_i64(self.0 as i64)
    }
}
struct ElemV;
impl<'de> Visitor<'de> for ElemV {
    type Value = Elem;
    fn expecting(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
    fn visit_i64<X: de::Error>(self, v: i64) -> Result<Elem, X> {
        Ok(Elem(v as i128))
    }
}
impl<'de> Deserialize<'de> for Elem {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Elem, X::Error> {
        d.deserialize_i64(ElemV)
    }
}

fn trip<T: Serialize + for<'x> Deserialize<'x>>(x: &T) -> Option<T> {
    let mut tape = Tape { n: 0, at: 0, t: [Token { k: 0, v: 0, s: "" }; N] };
    match x.serialize(S(&mut tape)) {
        Ok(()) => (),
        Err(_) => {
            check(false, "every value can be serialized");
            return None;
        }
    }
    let named: bool = any();
    match T::deserialize(D { t: &mut tape, named }) {
        Ok(y) => {
            check(tape.at == tape.n, "everything written is read back");
            Some(y)
        }
        Err(_) => None,
    }
}
macro_rules! c17 {
    ($n:ident, $t:ty) => { c17!($n, $t, any()); };
    ($n:ident, $t:ty, $mk:expr) => {
        pub fn ${concat(c17__, $n)}() {
            let x: $t = $mk;
            match trip(&x) {
                Some(y) => check(x == y, "deserializing gives an equal value"),
                None => check(false, "what was serialized can be deserialized"),
            }
        }
    };
}
c17!(Bound, Bound<Elem>);
c17!(LowerBound, LowerBound<Elem>);
c17!(UpperBound, UpperBound<Elem>);
c17!(Br, Br);
c17!(Lr, Lr);
c17!(Ur, Ur);
c17!(Er, Er);
c17!(Nr, Nr);
c17!(Bs0, Bs, BoundedSet::empty());
c17!(Bs1, Bs, Rangetools::to_set(crate::eq::piece()));
c17!(Bs2, Bs, { let p = crate::eq::piece(); let q = crate::eq::piece_after(&p); Rangetools::union(p, q) });
c17!(Ls0, Ls, Rangetools::to_set(any::<Lr>()));
c17!(Ls1, Ls, { let p = crate::eq::piece(); let q = crate::eq::tail_after(&p); Rangetools::union(p, q) });
c17!(Us0, Us, Rangetools::to_set(any::<Ur>()));
c17!(Us1, Us, { let p = crate::eq::head(); let q = crate::eq::piece_from(p.end); Rangetools::union(p, q) });
c17!(NsFull, Ns, UnboundedSet::Full);
c17!(Ns0, Ns, { let p = crate::eq::head(); let q = crate::eq::tail_from(p.end); Rangetools::union(p, q) });
c17!(Ns1, Ns, { let p = crate::eq::head(); let q = crate::eq::piece_from(p.end); let r = crate::eq::tail_after(&q); Rangetools::union(Rangetools::union(p, q), r) });
c17!(Bs3, Bs, { let p = crate::eq::piece(); let q = crate::eq::piece_after(&p); let r = crate::eq::piece_after(&q); Rangetools::union(Rangetools::union(p, q), r) });
c17!(Ls2, Ls, { let p = crate::eq::piece(); let q = crate::eq::piece_after(&p); let r = crate::eq::tail_after(&q); Rangetools::union(Rangetools::union(p, q), r) });
c17!(Us2, Us, { let p = crate::eq::head(); let q = crate::eq::piece_from(p.end); let r = crate::eq::piece_after(&q); Rangetools::union(Rangetools::union(p, q), r) });
