//! C25: Values in other serde formats. A recorder stands for any format written to, a tree told in
//! one of many ways for any format read from.

use crate::big;
use crate::explore::*;
use crate::tree::*;
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq};
use serde::{forward_to_deserialize_any, Deserialize, Deserializer, Serialize, Serializer};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Mapping, Number, Value};
use std::cell::Cell;
use std::fmt;

/// The other format's error: the call it was raised at, or a message from serde.
#[derive(Debug, Clone, PartialEq)]
pub(super) enum E {
    Fault(usize),
    Says(String),
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<M: fmt::Display>(m: M) -> E {
        E::Says(m.to_string())
    }
}
impl de::Error for E {
    fn custom<M: fmt::Display>(m: M) -> E {
        E::Says(m.to_string())
    }
}

/// What was told to the other format; lengths as announced.
#[derive(Debug, Clone)]
enum R {
    Leaf(T),
    Seq(Option<usize>, Vec<R>),
    Map(Option<usize>, Vec<(R, R)>),
    Odd(&'static str),
}

/// How a tree is expected to be told.
fn told(r: &R, t: &T) -> bool {
    match (r, t) {
        (R::Leaf(a), b) => a.same(b),
        (R::Seq(n, v), T::Seq(w)) => n.map_or(true, |n| n == w.len()) && v.len() == w.len() && v.iter().zip(w).all(|(r, t)| told(r, t)),
        (R::Map(n, v), T::Map(w)) => n.map_or(true, |n| n == w.len()) && v.len() == w.len() && v.iter().zip(w).all(|((k, e), (l, t))| told(k, l) && told(e, t)),
        (R::Map(n, v), T::Tag(name, t)) => {
            n.map_or(true, |n| n == 1) && v.len() == 1 && matches!(&v[0].0, R::Leaf(T::Str(s)) if *s == format!("!{name}")) && told(&v[0].1, t)
        }
        _ => false,
    }
}

/// The calls counted, and the one at which to fail.
#[derive(Default)]
pub(super) struct Fault {
    calls: Cell<usize>,
    at: Option<usize>,
    /// the source is any data, not one of the crate's types
    any: bool,
}
impl Fault {
    fn odd(&self, what: &'static str, r: impl FnOnce() -> Result<R, E>) -> Result<R, E> {
        self.call()?;
        if self.any {
            r()
        } else {
            Ok(R::Odd(what))
        }
    }
}
impl Fault {
    fn call(&self) -> Result<(), E> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.at == Some(n) {
            Err(E::Fault(n))
        } else {
            Ok(())
        }
    }
}

#[derive(Clone, Copy)]
struct Rec<'a>(&'a Fault);
struct RecSeq<'a>(&'a Fault, Option<usize>, Vec<R>);
struct RecMap<'a>(&'a Fault, Option<usize>, Vec<(R, R)>, Option<R>);

impl SerializeSeq for RecSeq<'_> {
    type Ok = R;
    type Error = E;
    fn serialize_element<X: ?Sized + Serialize>(&mut self, x: &X) -> Result<(), E> {
        self.0.call()?;
        self.2.push(x.serialize(Rec(self.0))?);
        Ok(())
    }
    fn end(self) -> Result<R, E> {
        self.0.call()?;
        Ok(R::Seq(self.1, self.2))
    }
}
impl SerializeMap for RecMap<'_> {
    type Ok = R;
    type Error = E;
    fn serialize_key<X: ?Sized + Serialize>(&mut self, x: &X) -> Result<(), E> {
        self.0.call()?;
        self.3 = Some(x.serialize(Rec(self.0))?);
        Ok(())
    }
    fn serialize_value<X: ?Sized + Serialize>(&mut self, x: &X) -> Result<(), E> {
        self.0.call()?;
        let v = x.serialize(Rec(self.0))?;
        self.2.push((self.3.take().unwrap_or(R::Odd("a value without a key")), v));
        Ok(())
    }
    fn end(self) -> Result<R, E> {
        self.0.call()?;
        Ok(R::Map(self.1, self.2))
    }
}

macro_rules! ints {
    ($($f:ident $t:ident)*) => {$(
        fn $f(self, v: $t) -> Result<R, E> {
            self.0.call()?;
            Ok(R::Leaf(T::Int(v as i128)))
        }
    )*};
}

impl ser::SerializeTuple for RecSeq<'_> {
    type Ok = R;
    type Error = E;
    fn serialize_element<X: ?Sized + Serialize>(&mut self, x: &X) -> Result<(), E> {
        SerializeSeq::serialize_element(self, x)
    }
    fn end(self) -> Result<R, E> {
        SerializeSeq::end(self)
    }
}
impl ser::SerializeTupleStruct for RecSeq<'_> {
    type Ok = R;
    type Error = E;
    fn serialize_field<X: ?Sized + Serialize>(&mut self, x: &X) -> Result<(), E> {
        SerializeSeq::serialize_element(self, x)
    }
    fn end(self) -> Result<R, E> {
        SerializeSeq::end(self)
    }
}
impl ser::SerializeStruct for RecMap<'_> {
    type Ok = R;
    type Error = E;
    fn serialize_field<X: ?Sized + Serialize>(&mut self, k: &'static str, x: &X) -> Result<(), E> {
        SerializeMap::serialize_entry(self, k, x)
    }
    fn end(self) -> Result<R, E> {
        SerializeMap::end(self)
    }
}
/// A variant as such: under its tag.
struct RecVar<P>(&'static str, P);
fn variant(n: &str, r: R) -> R {
    R::Map(None, vec![(R::Leaf(T::Str(format!("!{n}"))), r)])
}
impl ser::SerializeTupleVariant for RecVar<RecSeq<'_>> {
    type Ok = R;
    type Error = E;
    fn serialize_field<X: ?Sized + Serialize>(&mut self, x: &X) -> Result<(), E> {
        SerializeSeq::serialize_element(&mut self.1, x)
    }
    fn end(self) -> Result<R, E> {
        Ok(variant(self.0, SerializeSeq::end(self.1)?))
    }
}
impl ser::SerializeStructVariant for RecVar<RecMap<'_>> {
    type Ok = R;
    type Error = E;
    fn serialize_field<X: ?Sized + Serialize>(&mut self, k: &'static str, x: &X) -> Result<(), E> {
        SerializeMap::serialize_entry(&mut self.1, k, x)
    }
    fn end(self) -> Result<R, E> {
        Ok(variant(self.0, SerializeMap::end(self.1)?))
    }
}

impl<'a> Serializer for Rec<'a> {
    type Ok = R;
    type Error = E;
    type SerializeSeq = RecSeq<'a>;
    type SerializeMap = RecMap<'a>;
    type SerializeTuple = RecSeq<'a>;
    type SerializeTupleStruct = RecSeq<'a>;
    type SerializeTupleVariant = RecVar<RecSeq<'a>>;
    type SerializeStruct = RecMap<'a>;
    type SerializeStructVariant = RecVar<RecMap<'a>>;
    ints!(serialize_i8 i8 serialize_i16 i16 serialize_i32 i32 serialize_i64 i64 serialize_u8 u8 serialize_u16 u16 serialize_u32 u32 serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<R, E> {
        self.0.call()?;
        Ok(R::Leaf(T::Bool(v)))
    }
    fn serialize_f32(self, x: f32) -> Result<R, E> {
        self.0.odd("f32", || Ok(R::Leaf(T::Float(x.into()))))
    }
    fn serialize_f64(self, v: f64) -> Result<R, E> {
        self.0.call()?;
        Ok(R::Leaf(T::Float(v)))
    }
    fn serialize_char(self, c: char) -> Result<R, E> {
        self.0.odd("char", || Ok(R::Leaf(T::Str(c.to_string()))))
    }
    fn serialize_str(self, v: &str) -> Result<R, E> {
        self.0.call()?;
        Ok(R::Leaf(st(v)))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<R, E> {
        Ok(R::Odd("bytes"))
    }
    fn serialize_none(self) -> Result<R, E> {
        self.0.odd("none", || Ok(R::Leaf(T::Null)))
    }
    fn serialize_some<X: ?Sized + Serialize>(self, x: &X) -> Result<R, E> {
        self.0.odd("some", || x.serialize(self))
    }
    fn serialize_unit(self) -> Result<R, E> {
        self.0.call()?;
        Ok(R::Leaf(T::Null))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<R, E> {
        self.0.odd("unit struct", || Ok(R::Leaf(T::Null)))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<R, E> {
        self.0.odd("unit variant", || Ok(R::Leaf(st(n))))
    }
    fn serialize_newtype_struct<X: ?Sized + Serialize>(self, _: &'static str, x: &X) -> Result<R, E> {
        self.0.odd("newtype struct", || x.serialize(self))
    }
    fn serialize_newtype_variant<X: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, x: &X) -> Result<R, E> {
        self.0.odd("newtype variant", || Ok(variant(n, x.serialize(self)?)))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<RecSeq<'a>, E> {
        self.0.call()?;
        Ok(RecSeq(self.0, n, vec![]))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<RecMap<'a>, E> {
        self.0.call()?;
        Ok(RecMap(self.0, n, vec![], None))
    }
    fn serialize_tuple(self, n: usize) -> Result<RecSeq<'a>, E> {
        self.known("tuple")?;
        Ok(RecSeq(self.0, Some(n), vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<RecSeq<'a>, E> {
        self.known("tuple struct")?;
        Ok(RecSeq(self.0, Some(n), vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<RecVar<RecSeq<'a>>, E> {
        self.known("tuple variant")?;
        Ok(RecVar(v, RecSeq(self.0, Some(n), vec![])))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<RecMap<'a>, E> {
        self.known("struct")?;
        Ok(RecMap(self.0, Some(n), vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<RecVar<RecMap<'a>>, E> {
        self.known("struct variant")?;
        Ok(RecVar(v, RecMap(self.0, Some(n), vec![], None)))
    }
}
impl Rec<'_> {
    fn known(&self, what: &'static str) -> Result<(), E> {
        self.0.call()?;
        if self.0.any {
            Ok(())
        } else {
            Err(E::Says(what.to_owned()))
        }
    }
}

fn write<X: Serialize>(x: &X, at: Option<usize>, any: bool) -> (Result<R, E>, usize) {
    let f = Fault { calls: Cell::new(0), at, any };
    let r = x.serialize(Rec(&f));
    (r, f.calls.get())
}

/// Told to another format: the tree; with a fault at any call: that fault.
fn outwards<X: Serialize>(cx: &mut Cx, what: &str, x: &X, t: &T, faults: bool) {
    outwards_any(cx, what, x, t, faults, false)
}
pub(super) fn outwards_any<X: Serialize>(cx: &mut Cx, what: &str, x: &X, t: &T, faults: bool, any: bool) {
    let (r, calls) = write(x, None, any);
    cx.step(calls);
    cx.trace();
    if !matches!(&r, Ok(r) if told(r, t)) {
        cx.fail(format!("{what} {t:?}"), format!("told to another format as {r:?}"));
        return;
    }
    if faults {
        for at in 0..calls {
            let (r, n) = write(x, Some(at), any);
            cx.step(n);
            cx.trace();
            if !matches!(&r, Err(E::Fault(k)) if *k == at) || n != at + 1 {
                cx.fail(format!("{what} {t:?} with a fault at call {at}"), format!("{n} calls, then {r:?}"));
            }
        }
    }
}

// ---------------------------------------------------------------- inwards

/// How the other format tells of things.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub(super) struct Way {
    /// str: 0 transient, 1 borrowed, 2 owned, 3 as a char where it is one
    text: usize,
    /// null: 0 unit, 1 none
    null: usize,
    /// everything inside of an option
    some: bool,
    /// integers: 0 as 64 bits by sign, 1 the narrowest signed, 2 the narrowest unsigned, 3 signed where possible
    int: usize,
    /// floats as 32 bits where nothing is lost
    narrow: bool,
    /// lengths: 0 unknown, 1 right, 2 none, 3 absurd
    len: usize,
    /// a tag's name: 0 transient, 1 borrowed, 2 owned; with or without bang
    tag: usize,
    bang: bool,
}
const PLAIN: Way = Way { text: 0, null: 0, some: false, int: 0, narrow: false, len: 0, tag: 0, bang: false };

#[derive(Clone, Copy)]
pub(super) struct Src<'a>(&'a T, Way, &'a Fault, bool);

struct Items<'a>(&'a [T], usize, Way, &'a Fault);
struct Entries<'a>(&'a [(T, T)], usize, Way, &'a Fault);

fn hint(w: Way, left: usize) -> Option<usize> {
    match w.len {
        0 => None,
        1 => Some(left),
        2 => Some(0),
        _ => Some(usize::MAX),
    }
}

impl<'a> SeqAccess<'a> for Items<'a> {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        self.3.call()?;
        let Some(t) = self.0.get(self.1) else { return Ok(None) };
        self.1 += 1;
        s.deserialize(Src(t, self.2, self.3, self.2.some)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.2, self.0.len() - self.1)
    }
}
impl<'a> MapAccess<'a> for Entries<'a> {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        self.3.call()?;
        let Some((k, _)) = self.0.get(self.1) else { return Ok(None) };
        s.deserialize(Src(k, self.2, self.3, self.2.some)).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<S::Value, E> {
        self.3.call()?;
        let (_, v) = &self.0[self.1];
        self.1 += 1;
        s.deserialize(Src(v, self.2, self.3, self.2.some))
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.2, self.0.len() - self.1)
    }
}
struct Named<'a>(&'a str, &'a T, Way, &'a Fault);
struct Name<'a>(&'a str, Way);
impl<'a> Deserializer<'a> for Name<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> {
        let s = if self.1.bang { format!("!{}", self.0) } else { self.0.to_owned() };
        match self.1.tag {
            1 if !self.1.bang => v.visit_borrowed_str(self.0),
            2 => v.visit_string(s),
            _ => v.visit_str(&s),
        }
    }
    forward_to_deserialize_any! {
        <W: Visitor<'a>>
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'a> EnumAccess<'a> for Named<'a> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<(S::Value, Self), E> {
        self.3.call()?;
        Ok((s.deserialize(Name(self.0, self.2))?, self))
    }
}
impl<'a> VariantAccess<'a> for Named<'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Err(E::Says("unit variant asked for".into()))
    }
    fn newtype_variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<S::Value, E> {
        self.3.call()?;
        s.deserialize(Src(self.1, self.2, self.3, self.2.some))
    }
    fn tuple_variant<V: Visitor<'a>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E::Says("tuple variant asked for".into()))
    }
    fn struct_variant<V: Visitor<'a>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E::Says("struct variant asked for".into()))
    }
}

impl<'a> Deserializer<'a> for Src<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> {
        let Src(t, w, f, some) = self;
        f.call()?;
        if some {
            return v.visit_some(Src(t, w, f, false));
        }
        match t {
            T::Null if w.null == 1 => v.visit_none(),
            T::Null => v.visit_unit(),
            T::Bool(b) => v.visit_bool(*b),
            T::Int(i) => {
                let i = *i;
                match w.int {
                    1 => {
                        if let Ok(i) = i8::try_from(i) {
                            return v.visit_i8(i);
                        } else if let Ok(i) = i16::try_from(i) {
                            return v.visit_i16(i);
                        } else if let Ok(i) = i32::try_from(i) {
                            return v.visit_i32(i);
                        }
                    }
                    2 => {
                        if let Ok(i) = u8::try_from(i) {
                            return v.visit_u8(i);
                        } else if let Ok(i) = u16::try_from(i) {
                            return v.visit_u16(i);
                        } else if let Ok(i) = u32::try_from(i) {
                            return v.visit_u32(i);
                        }
                    }
                    _ => {}
                }
                match (i64::try_from(i), u64::try_from(i)) {
                    (Ok(i), _) if w.int == 3 || i < 0 => v.visit_i64(i),
                    (_, Ok(u)) => v.visit_u64(u),
                    _ => unreachable!(),
                }
            }
            T::Float(x) if w.narrow && (*x as f32 as f64).to_bits() == x.to_bits() => v.visit_f32(*x as f32),
            T::Float(x) => v.visit_f64(*x),
            T::Str(s) => match w.text {
                1 => v.visit_borrowed_str(s),
                2 => v.visit_string(s.clone()),
                3 if s.chars().count() == 1 => v.visit_char(s.chars().next().unwrap()),
                _ => v.visit_str(&s.clone()),
            },
            T::Seq(x) => v.visit_seq(Items(x, 0, w, f)),
            T::Map(x) => v.visit_map(Entries(x, 0, w, f)),
            T::Tag(n, t) => v.visit_enum(Named(n, t, w, f)),
        }
    }
    fn deserialize_option<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> {
        if self.3 || self.0.same(&T::Null) {
            return self.deserialize_any(v);
        }
        self.2.call()?;
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        self.2.call()?;
        v.visit_newtype_struct(self)
    }
    forward_to_deserialize_any! {
        <W: Visitor<'a>>
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub(super) fn way(ch: &mut Ch, most: usize) -> Way {
    ch.set_budget(most);
    let mut w = PLAIN;
    w.text = ch.deviate(4);
    w.null = ch.deviate(2);
    w.some = ch.deviate(2) == 1;
    w.int = ch.deviate(4);
    w.narrow = ch.deviate(2) == 1;
    w.len = ch.deviate(4);
    w.tag = ch.deviate(3);
    w.bang = ch.deviate(2) == 1;
    w
}

/// The plainest way, and those that depart from it in one thing.
pub(super) fn ways() -> Vec<Way> {
    let p = PLAIN;
    let mut v = vec![p, Way { null: 1, ..p }];
    v.extend((1..3).map(|text| Way { text, ..p }));
    v.extend((1..4).map(|int| Way { int, ..p }));
    v.extend((1..4).map(|len| Way { len, ..p }));
    v
}

fn read<X: for<'a> Deserialize<'a>>(t: &T, w: Way, at: Option<usize>) -> (Result<X, E>, usize) {
    read_with(t, w, at, |s| X::deserialize(s))
}
pub(super) fn read_with<X>(t: &T, w: Way, at: Option<usize>, read: impl Fn(Src) -> Result<X, E>) -> (Result<X, E>, usize) {
    let f = Fault { calls: Cell::new(0), at, any: false };
    let r = read(Src(t, w, &f, w.some));
    (r, f.calls.get())
}

/// Read as a Value, a Mapping, a Number, a TaggedValue.
fn inwards(cx: &mut Cx, t: &T, w: Way, faults: bool) {
    let dup = t.has_dup_keys();
    let (r, calls) = read::<Value>(t, w, None);
    cx.step(calls);
    cx.trace();
    let ok = match &r {
        Ok(v) => !dup && T::of(v).same(t),
        Err(E::Says(_)) => dup,
        Err(_) => false,
    };
    if !ok {
        cx.fail(format!("Value of {t:?} told in {w:?}"), format!("{r:?}"));
    }
    cx.outcome(if dup { "duplicate" } else { "read" });
    if faults {
        for at in 0..calls {
            let (r, n) = read::<Value>(t, w, Some(at));
            cx.step(n);
            cx.trace();
            // a repeated key may be noticed before
            if !matches!(&r, Err(E::Fault(k)) if *k == at) || n != at + 1 {
                cx.fail(format!("Value of {t:?} told in {w:?} with a fault at call {at}"), format!("{n} calls, then {r:?}"));
            }
        }
    }
    if w.some || dup {
        return;
    }
    let (r, n) = read::<Mapping>(t, w, None);
    cx.step(n);
    let ok = match (t, &r) {
        (T::Map(_), Ok(m)) => T::of_mapping(m).same(t),
        (T::Null, Ok(m)) => m.is_empty(),
        (T::Null, Err(E::Says(_))) => w.null == 1,
        (T::Map(_), _) => false,
        (_, r) => matches!(r, Err(E::Says(_))),
    };
    if !ok {
        cx.fail(format!("Mapping of {t:?} told in {w:?}"), format!("{r:?}"));
    }
    let (r, n) = read::<Number>(t, w, None);
    cx.step(n);
    let ok = match (t, &r) {
        (T::Int(_) | T::Float(_), Ok(n)) => of_number(n).same(t),
        (T::Int(_) | T::Float(_), _) => false,
        (_, r) => matches!(r, Err(E::Says(_))),
    };
    if !ok {
        cx.fail(format!("Number of {t:?} told in {w:?}"), format!("{r:?}"));
    }
    let (r, n) = read::<TaggedValue>(t, w, None);
    cx.step(n);
    let ok = match (t, r.clone()) {
        (T::Tag(..), Ok(v)) => T::of(&Value::Tagged(Box::new(v))).same(t),
        (T::Tag(..), _) => false,
        (_, r) => matches!(r, Err(E::Says(_))),
    };
    if !ok {
        cx.fail(format!("TaggedValue of {t:?} told in {w:?}"), format!("{r:?}"));
    }
    cx.trace();
}

/// Numbers and tagged values as sources themselves, against the Value holding them.
fn sources(cx: &mut Cx, t: &T) {
    let v = t.to_value();
    match &v {
        Value::Number(n) => {
            macro_rules! agree {
                ($($x:ty)*) => {$({
                    let a = <$x>::deserialize(n.clone()).map(|x| format!("{x:?}")).map_err(|_| ());
                    let b = <$x>::deserialize(n).map(|x| format!("{x:?}")).map_err(|_| ());
                    let c = serde_yaml::from_value::<$x>(v.clone()).map(|x| format!("{x:?}")).map_err(|_| ());
                    cx.step(3);
                    cx.trace();
                    if a != b || a != c {
                        cx.fail(format!("{} of {t:?}", stringify!($x)), format!("from the number {a:?}, from a reference {b:?}, from the Value {c:?}"));
                    }
                })*};
            }
            agree!(i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 Value Number String bool Mapping TaggedValue);
            let _ = IgnoredAny::deserialize(n).map_err(|e| cx.fail(format!("ignored {t:?}"), e.to_string()));
        }
        Value::Tagged(x) => {
            macro_rules! agree {
                ($($x:ty)*) => {$({
                    let a = <$x>::deserialize((**x).clone()).map(|x| format!("{x:?}")).map_err(|_| ());
                    let b = <$x>::deserialize(&**x).map(|x| format!("{x:?}")).map_err(|_| ());
                    let c = serde_yaml::from_value::<$x>(v.clone()).map(|x| format!("{x:?}")).map_err(|_| ());
                    cx.step(3);
                    cx.trace();
                    if a != b || a != c {
                        cx.fail(format!("{} of {t:?}", stringify!($x)), format!("from the tagged value {a:?}, from a reference {b:?}, from the Value {c:?}"));
                    }
                })*};
            }
            agree!(Value TaggedValue crate::types::Enm);
            for r in [IgnoredAny::deserialize((**x).clone()), IgnoredAny::deserialize(&**x)] {
                if let Err(e) = r {
                    cx.fail(format!("ignored {t:?}"), e.to_string());
                }
            }
        }
        _ => {}
    }
    // as an element or an entry of what serde puts together itself
    if let Value::Sequence(s) = &v {
        let r = Value::deserialize(SeqDeserializer::<_, serde_yaml::Error>::new(s.clone().into_iter()));
        cx.trace();
        if !matches!(&r, Ok(r) if T::of(r).same(t)) {
            cx.fail(format!("SeqDeserializer over {t:?}"), format!("{r:?}"));
        }
    }
    if let Value::Mapping(m) = &v {
        let r = Value::deserialize(MapDeserializer::<_, serde_yaml::Error>::new(m.clone().into_iter()));
        cx.trace();
        if !matches!(&r, Ok(r) if T::of(r).same(t)) {
            cx.fail(format!("MapDeserializer over {t:?}"), format!("{r:?}"));
        }
    }
    let r = Value::deserialize(IntoDeserializer::into_deserializer(v.clone()));
    cx.trace();
    if !matches!(&r, Ok(r) if T::of(r).same(t)) {
        cx.fail(format!("into_deserializer of {t:?}"), format!("{r:?}"));
    }
}

fn out_all(cx: &mut Cx, t: &T, faults: bool) {
    let v = t.to_value();
    outwards(cx, "Value", &v, t, faults);
    match &v {
        Value::Mapping(m) => outwards(cx, "Mapping", m, t, faults),
        Value::Number(n) => outwards(cx, "Number", n, t, faults),
        Value::Tagged(x) => outwards(cx, "TaggedValue", x, t, faults),
        Value::Sequence(s) => outwards(cx, "Sequence", s, t, faults),
        _ => {}
    }
}

fn gen(leaves: Vec<T>) -> Gen {
    let mut g = Gen::new(leaves, &["t"]);
    g.nested_tags = true;
    g
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let n = tier.pick(7, 8);
    f.push(family(
        "written elsewhere",
        format!("every tree of at most {n} nodes over 3 leaves, tags on tags too, told to another format, which may fail at any call"),
        move |ch, cx| {
            let t = gen(leaves_small()).tree(ch, n);
            if t.has_dup_keys() || !cx.state(&t) {
                return;
            }
            out_all(cx, &t, true);
            sources(cx, &t);
        },
    ));
    let n = tier.pick(5, 6);
    f.push(family(
        "read from elsewhere",
        format!("every tree of at most {n} nodes over 3 leaves, tags on tags and repeated keys too, told by another format in every way making at most 2 departures from the plainest, failing at any call"),
        move |ch, cx| {
            let t = gen(leaves_small()).tree(ch, n);
            let w = way(ch, 2);
            cx.state(&(&t, w));
            inwards(cx, &t, w, true);
        },
    ));
    f.push(family(
        "bigger trees",
        format!("every tree of at most {} nodes over 2 leaves, plainly", n + 2),
        move |ch, cx| {
            let t = gen(vec![T::Int(1), st("a")]).tree(ch, n + 2);
            cx.state(&t);
            inwards(cx, &t, PLAIN, false);
        },
    ));
    f.push(family(
        "leaves",
        "every leaf of the wide alphabet, alone, tagged, as element, value, key and tagged key, both ways, told in every way making at most 3 departures",
        |ch, cx| {
            let l = leaves_wide();
            let t = ch.pick(&l).clone();
            let t = match ch.choose(6) {
                0 => t,
                1 => tagged("t", t),
                2 => T::Seq(vec![t.clone(), T::Null, t]),
                3 => T::Map(vec![(st("z!"), t)]),
                4 => T::Map(vec![(t, st("z!"))]),
                _ => T::Map(vec![(tagged("u v", t.clone()), t)]),
            };
            let w = way(ch, 3);
            cx.state(&(&t, w));
            inwards(cx, &t, w, false);
            if w == PLAIN {
                out_all(cx, &t, true);
                sources(cx, &t);
            }
        },
    ));
    f.push(family(
        "integers",
        "every integer within 3 of every power of two of the Value's range, both ways, in every way of telling",
        |ch, cx| {
            let b = 1i128 << ch.choose(65);
            let b = if ch.flag() { -b } else { b };
            let i = b + ch.choose(7) as i128 - 3;
            if i < i64::MIN as i128 || i > u64::MAX as i128 {
                return;
            }
            let t = T::Int(i);
            cx.state(&t);
            for int in 0..4 {
                inwards(cx, &t, Way { int, ..PLAIN }, false);
            }
            out_all(cx, &t, true);
            sources(cx, &t);
        },
    ));
    f.push(family(
        "tag names",
        "every tag name of at most 2 of 12 characters, told with and without a bang in 3 ways, and the empty name",
        |ch, cx| {
            let mut s = String::new();
            for _ in 0..=ch.choose(2) {
                s.push_str(ch.word(&["a", "B", "0", "-", " ", "/", "é", ":", "\n", "\"", "\u{0}", "T"]));
            }
            let t = tagged(&s, T::Seq(vec![T::Int(1)]));
            cx.state(&s);
            for tag in 0..3 {
                for bang in [false, true] {
                    inwards(cx, &t, Way { tag, bang, ..PLAIN }, true);
                }
                let (r, _) = read::<Value>(&tagged("", T::Null), Way { tag, ..PLAIN }, None);
                if !matches!(r, Err(E::Says(_))) {
                    cx.fail("an empty tag", format!("read as {r:?}"));
                }
            }
            out_all(cx, &t, true);
        },
    ));
    let sizes = big::few_sizes(tier);
    f.push(family(
        "many",
        format!("wide sequences and mappings of {} sizes up to {}, told with and without their lengths", sizes.len(), sizes[sizes.len() - 1]),
        move |ch, cx| {
            let n = *ch.pick(&sizes);
            let t = match ch.choose(3) {
                0 => T::Seq((0..n).map(|i| T::Int(i as i128)).collect()),
                1 => T::Map((0..n).map(|i| (T::Int(i as i128), st("v"))).collect()),
                _ => T::Map((0..n).map(|i| (st(&format!("k{i}")), T::Bool(i % 2 == 0))).collect()),
            };
            let len = ch.choose(4);
            cx.state(&(&t, len));
            let w = Way { len, ..PLAIN };
            let (r, calls) = read::<Value>(&t, w, None);
            cx.step(calls);
            cx.trace();
            if !matches!(&r, Ok(v) if T::of(v).same(&t)) {
                cx.fail(format!("{n} entries told in {w:?}"), clip(&format!("{r:?}"), 300));
            }
            if len == 0 {
                out_all(cx, &t, false);
            }
        },
    ));
    f
}
