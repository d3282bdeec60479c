//! A panel of target types, each with every way of reading it.

use serde::de::{DeserializeOwned, IgnoredAny};
use serde::Deserialize;
use serde_derive::{Deserialize, Serialize};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Deserializer, Mapping, Number, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::Read;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Point {
    pub x: i32,
    pub y: Option<String>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct Strict {
    #[serde(default)]
    pub a: Vec<u8>,
    #[serde(default, rename = "1")]
    pub one: Option<Box<Strict>>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Enm {
    Unit,
    A,
    New(i32),
    Tup(i32, String),
    St { x: i32, y: Option<Box<Enm>> },
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(untagged)]
pub enum Unt {
    Int(i64),
    Seq(Vec<Unt>),
    Map(BTreeMap<String, Unt>),
    Any(String),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(tag = "t")]
pub enum Inner {
    A { x: i32 },
    B(BTreeMap<String, i32>),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Newtype(pub String);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct UnitS;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Flat {
    pub a: Option<i32>,
    #[serde(flatten)]
    pub rest: BTreeMap<String, Value>,
}

/// What a read produced: the Debug form of the value, or the error with its location.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(String),
    Err(String, Option<(usize, usize, usize)>),
}

impl Out {
    pub fn of<T: Debug>(r: Result<T, serde_yaml::Error>) -> Out {
        match r {
            Ok(v) => Out::Ok(format!("{v:?}")),
            Err(e) => Out::err(&e),
        }
    }
    pub fn err(e: &serde_yaml::Error) -> Out {
        Out::Err(e.to_string(), e.location().map(|l| (l.index(), l.line(), l.column())))
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

pub struct Target {
    pub name: &'static str,
    pub str: fn(&str) -> Out,
    pub slice: fn(&[u8]) -> Out,
    pub read: fn(&mut dyn Read) -> Out,
    pub de: for<'a> fn(Deserializer<'a>) -> Out,
    pub error: fn(&[u8]) -> Option<serde_yaml::Error>,
    pub value: fn(Value) -> Out,
    pub value_ref: fn(&Value) -> Out,
}

fn t_str<T: DeserializeOwned + Debug>(s: &str) -> Out {
    Out::of(serde_yaml::from_str::<T>(s))
}
fn t_slice<T: DeserializeOwned + Debug>(s: &[u8]) -> Out {
    Out::of(serde_yaml::from_slice::<T>(s))
}
fn t_read<T: DeserializeOwned + Debug>(r: &mut dyn Read) -> Out {
    Out::of(serde_yaml::from_reader::<_, T>(r))
}
fn t_de<T: DeserializeOwned + Debug>(d: Deserializer) -> Out {
    Out::of(T::deserialize(d))
}
fn t_error<T: DeserializeOwned + Debug>(s: &[u8]) -> Option<serde_yaml::Error> {
    serde_yaml::from_slice::<T>(s).err()
}
fn t_value<T: DeserializeOwned + Debug>(v: Value) -> Out {
    Out::of(serde_yaml::from_value::<T>(v))
}
fn t_value_ref<T: DeserializeOwned + Debug>(v: &Value) -> Out {
    Out::of(T::deserialize(v))
}

pub fn target<T: DeserializeOwned + Debug>(name: &'static str) -> Target {
    Target {
        name,
        str: t_str::<T>,
        slice: t_slice::<T>,
        read: t_read::<T>,
        de: t_de::<T>,
        error: t_error::<T>,
        value: t_value::<T>,
        value_ref: t_value_ref::<T>,
    }
}

macro_rules! targets {
    ($($t:ty),* $(,)?) => { vec![$(target::<$t>(stringify!($t))),*] };
}

macro_rules! every_type {
    ($m:ident) => {
        $m! {
        Value,
        IgnoredAny,
        (),
        bool,
        i64,
        u8,
        i128,
        f64,
        char,
        String,
        Option<i32>,
        Vec<i32>,
        Vec<Value>,
        Vec<IgnoredAny>,
        Vec<Option<String>>,
        (i32, String),
        [Value; 2],
        BTreeMap<String, i32>,
        BTreeMap<String, Vec<IgnoredAny>>,
        BTreeMap<String, Value>,
        BTreeMap<Vec<String>, i32>,
        Mapping,
        Number,
        TaggedValue,
        Point,
        Strict,
        Enm,
        Vec<Enm>,
        BTreeMap<String, Enm>,
        Option<Enm>,
        Unt,
        Inner,
        Newtype,
        UnitS,
        Flat,
    }
    };
}
macro_rules! pairs {
    ($($t:ty),* $(,)?) => { vec![$(target::<(IgnoredAny, $t)>(stringify!((IgnoredAny, $t)))),*] };
}

pub fn all() -> Vec<Target> {
    every_type!(targets)
}

/// A sequence of something ignored and each type of the panel.
pub fn pairs() -> Vec<Target> {
    every_type!(pairs)
}

/// The ones with the most different code paths.
pub fn few() -> Vec<Target> {
    targets![Value, IgnoredAny, String, i64, Vec<Option<String>>, BTreeMap<String, Value>, Point, Enm]
}
