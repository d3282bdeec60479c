//! The serde data model as data: every tree of calls a Serialize implementation can make, and the
//! calls the matching Deserialize implementation makes.

use crate::explore::Ch;
use crate::tree::T;
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_yaml::with::{singleton_map, singleton_map_recursive};
use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum W {
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
}
pub const WIDTHS: [W; 10] = [W::I8, W::I16, W::I32, W::I64, W::I128, W::U8, W::U16, W::U32, W::U64, W::U128];

/// A value together with how its Serialize implementation goes about it.
#[derive(Clone, Debug)]
pub enum D {
    Bool(bool),
    Int(i128, W),
    F32(f32),
    F64(f64),
    Char(char),
    /// 0: serialize_str, 1: collect_str in one piece, 2: collect_str by characters
    Str(String, u8),
    Bytes(Vec<u8>),
    Unit,
    UnitStruct,
    None,
    Some(Box<D>),
    Newtype(Box<D>),
    /// with its length announced or not
    Seq(Vec<D>, bool),
    Tuple(Vec<D>),
    TupleStruct(Vec<D>),
    /// bit 0: with its length announced; bit 1: key and value separately;
    /// bits 2 and 3: announced as none, as one, or as two more than there are
    Map(Vec<(D, D)>, u8),
    Struct(Vec<(&'static str, D)>),
    UnitVar(&'static str),
    NewVar(&'static str, Box<D>),
    TupVar(&'static str, Vec<D>),
    StVar(&'static str, Vec<(&'static str, D)>),
    /// serialized with an adapter of serde_yaml::with: singleton_map, or the recursive one
    With(Rep, Box<D>),
}
/// How enums are represented.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rep {
    Tag,
    Single,
    Rec,
}
use D::{With, Bool, Bytes, Char, F32, F64, Int, Map, NewVar, Newtype, Seq, StVar, Str, Struct, TupVar, Tuple, TupleStruct, Unit, UnitStruct, UnitVar};

pub const FIELDS: [&str; 5] = ["a", "b c", "1", "true", "e"];
const VARIANTS: [&str; 4] = ["Unit", "New", "Tup", "St"];

pub fn str(s: &str) -> D {
    D::Str(s.to_owned(), 0)
}

struct Pieces<'a>(&'a str, bool);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.1 {
            self.0.chars().try_for_each(|c| f.write_str(c.encode_utf8(&mut [0; 4])))
        } else {
            f.write_str(self.0)
        }
    }
}

/// How many adapters can be around each other: the types they make grow with it.
pub trait Level: Copy {
    fn write<S: Serializer>(r: Rep, d: &D, s: S) -> Result<S::Ok, S::Error>;
    fn read<'de, De: Deserializer<'de>>(r: Rep, d: &D, de: De) -> Result<D, De::Error>;
}
#[derive(Clone, Copy)]
pub struct Zero;
#[derive(Clone, Copy)]
pub struct More<L>(PhantomData<L>);
pub const LEVELS: usize = 2;
pub type Levels = More<More<Zero>>;

impl Level for Zero {
    fn write<S: Serializer>(_: Rep, _: &D, _: S) -> Result<S::Ok, S::Error> {
        panic!("too many adapters")
    }
    fn read<'de, De: Deserializer<'de>>(_: Rep, _: &D, _: De) -> Result<D, De::Error> {
        panic!("too many adapters")
    }
}
impl<L: Level> Level for More<L> {
    fn write<S: Serializer>(r: Rep, d: &D, s: S) -> Result<S::Ok, S::Error> {
        match r {
            Rep::Single => singleton_map::serialize(&Ser::<L>(d, PhantomData), s),
            _ => singleton_map_recursive::serialize(&Ser::<L>(d, PhantomData), s),
        }
    }
    fn read<'de, De: Deserializer<'de>>(r: Rep, d: &D, de: De) -> Result<D, De::Error> {
        CURRENT.with(|c| c.set(d));
        let Current(got, _) = match r {
            Rep::Single => singleton_map::deserialize::<Current<L>, _>(de)?,
            _ => singleton_map_recursive::deserialize::<Current<L>, _>(de)?,
        };
        Ok(got)
    }
}

impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        Ser::<Levels>(self, PhantomData).serialize(s)
    }
}

struct Ser<'a, L>(&'a D, PhantomData<L>);
fn ser<L>(d: &D) -> Ser<L> {
    Ser(d, PhantomData)
}
impl<L: Level> Serialize for Ser<'_, L> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Bool(b) => s.serialize_bool(*b),
            Int(i, w) => match w {
                W::I8 => s.serialize_i8(*i as i8),
                W::I16 => s.serialize_i16(*i as i16),
                W::I32 => s.serialize_i32(*i as i32),
                W::I64 => s.serialize_i64(*i as i64),
                W::I128 => s.serialize_i128(*i),
                W::U8 => s.serialize_u8(*i as u8),
                W::U16 => s.serialize_u16(*i as u16),
                W::U32 => s.serialize_u32(*i as u32),
                W::U64 => s.serialize_u64(*i as u64),
                W::U128 => s.serialize_u128(*i as u128),
            },
            F32(f) => s.serialize_f32(*f),
            F64(f) => s.serialize_f64(*f),
            Char(c) => s.serialize_char(*c),
            Str(t, 0) => s.serialize_str(t),
            Str(t, how) => s.collect_str(&Pieces(t, *how == 2)),
            Bytes(b) => s.serialize_bytes(b),
            Unit => s.serialize_unit(),
            UnitStruct => s.serialize_unit_struct("U"),
            D::None => s.serialize_none(),
            D::Some(v) => s.serialize_some(&ser::<L>(v)),
            Newtype(v) => s.serialize_newtype_struct("N", &ser::<L>(v)),
            Seq(v, known) => {
                let mut q = s.serialize_seq(known.then_some(v.len()))?;
                for e in v {
                    q.serialize_element(&ser::<L>(e))?;
                }
                q.end()
            }
            Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for e in v {
                    q.serialize_element(&ser::<L>(e))?;
                }
                q.end()
            }
            TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for e in v {
                    q.serialize_field(&ser::<L>(e))?;
                }
                q.end()
            }
            Map(v, how) => {
                let len = [v.len(), 0, 1, v.len() + 2][usize::from(how >> 2)];
                let mut q = s.serialize_map((how & 1 == 1).then_some(len))?;
                for (k, e) in v {
                    if how & 2 == 2 {
                        q.serialize_key(&ser::<L>(k))?;
                        q.serialize_value(&ser::<L>(e))?;
                    } else {
                        q.serialize_entry(&ser::<L>(k), &ser::<L>(e))?;
                    }
                }
                q.end()
            }
            Struct(v) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for (k, e) in v {
                    q.serialize_field(k, &ser::<L>(e))?;
                }
                q.end()
            }
            UnitVar(n) => s.serialize_unit_variant("E", 0, n),
            NewVar(n, v) => s.serialize_newtype_variant("E", 1, n, &ser::<L>(v)),
            TupVar(n, v) => {
                let mut q = s.serialize_tuple_variant("E", 2, n, v.len())?;
                for e in v {
                    q.serialize_field(&ser::<L>(e))?;
                }
                q.end()
            }
            StVar(n, v) => {
                let mut q = s.serialize_struct_variant("E", 3, n, v.len())?;
                for (k, e) in v {
                    q.serialize_field(k, &ser::<L>(e))?;
                }
                q.end()
            }
            With(r, d) => L::write(*r, d, s),
        }
    }
}

impl D {
    /// The content it stands for.
    pub fn content(&self) -> T {
        self.content_as(Rep::Tag)
    }
    /// The same, but a singleton map within a recursive one (`rec`) makes tagged values of the
    /// enums inside of its tuple and struct variants.
    pub fn content_known(&self, rec: bool) -> T {
        fn payload(d: &D) -> Option<T> {
            match d {
                D::Some(v) => payload(v),
                With(Rep::Single, v) => payload(v),
                TupVar(n, v) => Some(T::Map(vec![(T::Str(n.to_string()), T::Seq(v.iter().map(|d| d.content_known(false)).collect()))])),
                StVar(n, v) => Some(T::Map(vec![(
                    T::Str(n.to_string()),
                    T::Map(v.iter().map(|(k, d)| (T::Str(k.to_string()), d.content_known(false))).collect()),
                )])),
                _ => None,
            }
        }
        self.content_with(if rec { Rep::Rec } else { Rep::Tag }, &|d, rep| match d {
            With(Rep::Single, v) if rep == Rep::Rec => payload(v),
            _ => None,
        })
    }
    /// The content it stands for inside of an adapter.
    pub fn content_as(&self, rep: Rep) -> T {
        self.content_with(rep, &|_, _| None)
    }
    fn content_with(&self, rep: Rep, over: &dyn Fn(&D, Rep) -> Option<T>) -> T {
        if let Some(t) = over(self, rep) {
            return t;
        }
        // a singleton map is one level deep, but reaches through options
        let inner = if rep == Rep::Single { Rep::Tag } else { rep };
        let list = |v: &[D]| T::Seq(v.iter().map(|d| d.content_with(inner, over)).collect());
        let fields = |v: &[(&str, D)]| T::Map(v.iter().map(|(k, e)| (T::Str(k.to_string()), e.content_with(inner, over))).collect());
        let variant = |n: &str, t| match rep {
            Rep::Tag => T::Tag(n.to_owned(), Box::new(t)),
            _ => T::Map(vec![(T::Str(n.to_owned()), t)]),
        };
        match self {
            Bool(b) => T::Bool(*b),
            Int(i, _) => T::Int(*i),
            F32(f) => T::Float(*f as f64),
            F64(f) => T::Float(*f),
            Char(c) => T::Str(c.to_string()),
            Str(s, _) => T::Str(s.clone()),
            Bytes(b) => T::Seq(b.iter().map(|b| T::Int(*b as i128)).collect()),
            Unit | UnitStruct | D::None => T::Null,
            D::Some(v) => v.content_with(rep, over),
            Newtype(v) => v.content_with(inner, over),
            Seq(v, _) | Tuple(v) | TupleStruct(v) => list(v),
            Map(v, _) => T::Map(v.iter().map(|(k, e)| (k.content_with(inner, over), e.content_with(inner, over))).collect()),
            Struct(v) => fields(v),
            UnitVar(n) => T::Str(n.to_string()),
            NewVar(n, v) => variant(n, v.content_with(inner, over)),
            TupVar(n, v) => variant(n, list(v)),
            StVar(n, v) => variant(n, fields(v)),
            // all enums within the recursive one stay singleton maps
            With(r, v) => v.content_with(if rep == Rep::Rec { rep } else { *r }, over),
        }
    }

    pub fn kids(&self) -> Vec<&D> {
        match self {
            D::Some(v) | Newtype(v) | NewVar(_, v) | With(_, v) => vec![v],
            Seq(v, _) | Tuple(v) | TupleStruct(v) | TupVar(_, v) => v.iter().collect(),
            Map(v, _) => v.iter().flat_map(|(k, e)| [k, e]).collect(),
            Struct(v) | StVar(_, v) => v.iter().map(|e| &e.1).collect(),
            _ => vec![],
        }
    }

    pub fn any(&self, f: &dyn Fn(&D) -> bool) -> bool {
        f(self) || self.kids().into_iter().any(|k| k.any(f))
    }

    /// The same value, however it was or would be serialized.
    pub fn same(&self, o: &D) -> bool {
        let all = |a: &[D], b: &[D]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b));
        let flds = |a: &[(&str, D)], b: &[(&str, D)]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && a.1.same(&b.1));
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (Int(a, v), Int(b, w)) => a == b && v == w,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (Char(a), Char(b)) => a == b,
            (Str(a, _), Str(b, _)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Unit, Unit) | (UnitStruct, UnitStruct) | (D::None, D::None) => true,
            (D::Some(a), D::Some(b)) | (Newtype(a), Newtype(b)) => a.same(b),
            (Seq(a, _), Seq(b, _)) | (Tuple(a), Tuple(b)) | (TupleStruct(a), TupleStruct(b)) => all(a, b),
            (Map(a, _), Map(b, _)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0.same(&b.0) && a.1.same(&b.1)),
            (Struct(a), Struct(b)) => flds(a, b),
            (UnitVar(a), UnitVar(b)) => a == b,
            (NewVar(m, a), NewVar(n, b)) => m == n && a.same(b),
            (TupVar(m, a), TupVar(n, b)) => m == n && all(a, b),
            (StVar(m, a), StVar(n, b)) => m == n && flds(a, b),
            (With(q, a), With(r, b)) => q == r && a.same(b),
            _ => false,
        }
    }

    /// An Option around something that is itself null cannot be told from None.
    pub fn vague(&self) -> bool {
        self.any(&|d| matches!(d, D::Some(v) if matches!(v.content(), T::Null)))
    }
}

/// What trees of calls are enumerated.
#[derive(Clone)]
pub struct Kinds {
    pub leaves: Vec<D>,
    /// D::Some, Newtype
    pub wrappers: bool,
    pub tuples: bool,
    pub structs: bool,
    pub enums: bool,
    /// every way to drive sequences, mappings and strings
    pub styles: bool,
    pub complex_keys: bool,
    pub adapters: bool,
    /// how many adapters are around
    pub within: usize,
}

impl Kinds {
    /// Every tree of at most `lim` nodes exactly once.
    pub fn tree(&self, ch: &mut Ch, lim: usize) -> D {
        self.node(ch, lim).0
    }
    fn list(&self, ch: &mut Ch, mut left: usize) -> (Vec<D>, usize) {
        let mut v = vec![];
        while left > 0 && ch.flag() {
            let (e, u) = self.node(ch, left);
            left -= u;
            v.push(e);
        }
        (v, left)
    }
    fn fields(&self, ch: &mut Ch, left: usize) -> (Vec<(&'static str, D)>, usize) {
        let (v, left) = self.list(ch, left.min(FIELDS.len()));
        (v.into_iter().enumerate().map(|(i, e)| (FIELDS[i], e)).collect(), left)
    }
    fn node(&self, ch: &mut Ch, lim: usize) -> (D, usize) {
        let mut kinds: Vec<u8> = vec![0, 1];
        if self.wrappers && lim > 1 {
            kinds.extend([2, 3]);
        }
        if self.tuples {
            kinds.extend([4, 5]);
        }
        if self.structs {
            kinds.push(6);
        }
        if self.enums {
            kinds.extend([8, 9, 10]);
            if lim > 1 {
                kinds.push(7);
            }
        }
        if self.adapters && self.within < LEVELS && lim > 1 {
            kinds.extend([11, 12]);
        }
        let c = ch.choose(self.leaves.len() + kinds.len());
        if c < self.leaves.len() {
            let mut d = self.leaves[c].clone();
            if let (Str(_, how), true) = (&mut d, self.styles) {
                *how = ch.choose(3) as u8;
            }
            return (d, 1);
        }
        let one = |ch: &mut Ch| {
            let (d, u) = self.node(ch, lim - 1);
            (Box::new(d), u + 1)
        };
        let left = lim - 1;
        let (d, left) = match kinds[c - self.leaves.len()] {
            0 => {
                let known = !self.styles || ch.flag();
                let (v, left) = self.list(ch, left);
                (Seq(v, known), left)
            }
            1 => {
                let how = if self.styles { ch.choose(4) as u8 } else { 1 };
                let mut left = left;
                let mut v = vec![];
                while left > 1 && ch.flag() {
                    let (k, u) = if self.complex_keys { self.node(ch, left - 1) } else { (ch.pick(&self.leaves).clone(), 1) };
                    left -= u;
                    let (e, u) = self.node(ch, left);
                    left -= u;
                    v.push((k, e));
                }
                (Map(v, how), left)
            }
            2 => {
                let (d, u) = one(ch);
                return (D::Some(d), u);
            }
            3 => {
                let (d, u) = one(ch);
                return (Newtype(d), u);
            }
            4 => {
                let (v, left) = self.list(ch, left);
                (Tuple(v), left)
            }
            5 => {
                let (v, left) = self.list(ch, left);
                (TupleStruct(v), left)
            }
            6 => {
                let (v, left) = self.fields(ch, left);
                (Struct(v), left)
            }
            k @ (11 | 12) => {
                let (d, u) = Kinds { within: self.within + 1, ..self.clone() }.node(ch, lim - 1);
                return (With(if k == 11 { Rep::Single } else { Rep::Rec }, Box::new(d)), u + 1);
            }
            7 => {
                let (d, u) = one(ch);
                return (NewVar("New", d), u);
            }
            8 => {
                let (v, left) = self.list(ch, left);
                (TupVar("Tup", v), left)
            }
            9 => {
                let (v, left) = self.fields(ch, left);
                (StVar("St", v), left)
            }
            _ => (UnitVar("Unit"), left),
        };
        (d, lim - left)
    }
}

thread_local! {
    /// What the type handed to an adapter is.
    static CURRENT: Cell<*const D> = const { Cell::new(std::ptr::null()) };
}
struct Current<L>(D, PhantomData<L>);
impl<'de, L: Level> Deserialize<'de> for Current<L> {
    fn deserialize<De: Deserializer<'de>>(d: De) -> Result<Self, De::Error> {
        // set right before, and borrowed by whoever reads
        let like = unsafe { &*CURRENT.with(Cell::get) };
        Like::<L>(like, PhantomData).deserialize(d).map(|d| Current(d, PhantomData))
    }
}

/// Makes the calls that the type of this value makes to read itself.
#[derive(Clone, Copy)]
pub struct Like<'a, L>(&'a D, PhantomData<L>);
pub fn like(d: &D) -> Like<Levels> {
    Like(d, PhantomData)
}


impl<'de, L: Level> DeserializeSeed<'de> for Like<'_, L> {
    type Value = D;
    fn deserialize<De: Deserializer<'de>>(self, d: De) -> Result<D, De::Error> {
        Ok(match self.0 {
            With(r, v) => With(*r, Box::new(L::read(*r, v, d)?)),
            Bool(_) => Bool(Deserialize::deserialize(d)?),
            Int(_, w) => Int(
                match w {
                    W::I8 => i8::deserialize(d)? as i128,
                    W::I16 => i16::deserialize(d)? as i128,
                    W::I32 => i32::deserialize(d)? as i128,
                    W::I64 => i64::deserialize(d)? as i128,
                    W::I128 => i128::deserialize(d)?,
                    W::U8 => u8::deserialize(d)? as i128,
                    W::U16 => u16::deserialize(d)? as i128,
                    W::U32 => u32::deserialize(d)? as i128,
                    W::U64 => u64::deserialize(d)? as i128,
                    W::U128 => u128::deserialize(d)? as i128,
                },
                *w,
            ),
            F32(_) => F32(Deserialize::deserialize(d)?),
            F64(_) => F64(Deserialize::deserialize(d)?),
            Char(_) => Char(Deserialize::deserialize(d)?),
            Str(..) => Str(Deserialize::deserialize(d)?, 0),
            Bytes(_) => return d.deserialize_byte_buf(self),
            Unit => {
                <()>::deserialize(d)?;
                Unit
            }
            UnitStruct => return d.deserialize_unit_struct("U", self),
            D::None | D::Some(_) => return d.deserialize_option(self),
            Newtype(_) => return d.deserialize_newtype_struct("N", self),
            Seq(..) => return d.deserialize_seq(self),
            Tuple(v) => return d.deserialize_tuple(v.len(), self),
            TupleStruct(v) => return d.deserialize_tuple_struct("T", v.len(), self),
            Map(..) => return d.deserialize_map(self),
            Struct(_) => return d.deserialize_struct("S", &FIELDS, self),
            UnitVar(_) | NewVar(..) | TupVar(..) | StVar(..) => return d.deserialize_enum("E", &VARIANTS, self),
        })
    }
}

struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("an identifier")
            }
            fn visit_str<E>(self, s: &str) -> Result<String, E> {
                Ok(s.to_owned())
            }
        }
        d.deserialize_identifier(V)
    }
}

impl<L: Level> Like<'_, L> {
    fn seq<'de, A: SeqAccess<'de>>(v: &[D], a: &mut A, fixed: bool) -> Result<Vec<D>, A::Error> {
        let mut r = vec![];
        for (i, e) in v.iter().enumerate() {
            match a.next_element_seed(Like::<L>(e, PhantomData))? {
                Some(d) => r.push(d),
                Option::None if fixed => return Err(de::Error::invalid_length(i, &"more")),
                Option::None => break,
            }
        }
        if !fixed {
            while a.next_element::<IgnoredAny>()?.is_some() {
                r.push(Unit);
            }
        }
        Ok(r)
    }
    fn fields<'de, A: MapAccess<'de>>(v: &[(&'static str, D)], a: &mut A) -> Result<Vec<(&'static str, D)>, A::Error> {
        let mut got: Vec<Option<D>> = vec![Option::None; v.len()];
        while let Some(k) = a.next_key_seed(Ident)? {
            match v.iter().position(|f| f.0 == k) {
                Some(i) if got[i].is_some() => return Err(de::Error::duplicate_field(v[i].0)),
                Some(i) => got[i] = Some(a.next_value_seed(Like::<L>(&v[i].1, PhantomData))?),
                Option::None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        v.iter()
            .zip(got)
            .map(|(f, g)| match g {
                Some(d) => Ok((f.0, d)),
                Option::None => Err(de::Error::missing_field(f.0)),
            })
            .collect()
    }
}

impl<'de, L: Level> Visitor<'de> for Like<'_, L> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<D, E> {
        match self.0 {
            UnitStruct => Ok(UnitStruct),
            D::None | D::Some(_) => Ok(D::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<D, E> {
        match self.0 {
            D::None | D::Some(_) => Ok(D::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<De: Deserializer<'de>>(self, d: De) -> Result<D, De::Error> {
        match self.0 {
            D::None => IgnoredAny::deserialize(d).map(|_| D::Some(Box::new(Unit))),
            D::Some(v) => Ok(D::Some(Box::new(Like::<L>(v, PhantomData).deserialize(d)?))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<De: Deserializer<'de>>(self, d: De) -> Result<D, De::Error> {
        match self.0 {
            Newtype(v) => Ok(Newtype(Box::new(Like::<L>(v, PhantomData).deserialize(d)?))),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<D, E> {
        Ok(Bytes(v))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        Ok(match self.0 {
            Seq(v, _) => Seq(Like::<L>::seq(v, &mut a, false)?, true),
            Tuple(v) => Tuple(Like::<L>::seq(v, &mut a, true)?),
            TupleStruct(v) => TupleStruct(Like::<L>::seq(v, &mut a, true)?),
            TupVar(n, v) => TupVar(n, Like::<L>::seq(v, &mut a, true)?),
            Bytes(_) => {
                let mut r = vec![];
                while let Some(b) = a.next_element()? {
                    r.push(b);
                }
                Bytes(r)
            }
            // derived types take their fields by position too
            Newtype(v) => Newtype(Box::new(Like::<L>::seq(std::slice::from_ref(v), &mut a, true)?.remove(0))),
            Struct(v) | StVar(_, v) => {
                let mut r = vec![];
                for (i, (k, e)) in v.iter().enumerate() {
                    r.push((*k, a.next_element_seed(Like::<L>(e, PhantomData))?.ok_or_else(|| de::Error::invalid_length(i, &"more"))?));
                }
                match self.0 {
                    StVar(n, _) => StVar(n, r),
                    _ => Struct(r),
                }
            }
            _ => return Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        })
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        Ok(match self.0 {
            Map(v, _) => {
                let mut r = vec![];
                for (k, e) in v {
                    match a.next_key_seed(Like::<L>(k, PhantomData))? {
                        Some(k) => r.push((k, a.next_value_seed(Like::<L>(e, PhantomData))?)),
                        Option::None => break,
                    }
                }
                while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
                    r.push((Unit, Unit));
                }
                Map(r, 1)
            }
            Struct(v) => Struct(Like::<L>::fields(v, &mut a)?),
            StVar(n, v) => StVar(n, Like::<L>::fields(v, &mut a)?),
            _ => return Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        })
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        let (name, v) = a.variant_seed(Ident)?;
        let mine = match self.0 {
            UnitVar(n) | NewVar(n, _) | TupVar(n, _) | StVar(n, _) => *n,
            _ => return Err(de::Error::invalid_type(de::Unexpected::Enum, &self)),
        };
        if name != mine {
            return Err(de::Error::unknown_variant(&name, &VARIANTS));
        }
        Ok(match self.0 {
            UnitVar(n) => {
                v.unit_variant()?;
                UnitVar(n)
            }
            NewVar(n, d) => NewVar(n, Box::new(v.newtype_variant_seed(Like::<L>(d, PhantomData))?)),
            TupVar(_, e) => v.tuple_variant(e.len(), self)?,
            StVar(..) => v.struct_variant(&FIELDS, self)?,
            _ => unreachable!(),
        })
    }
}
