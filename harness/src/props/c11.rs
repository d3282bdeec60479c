//! C11: typed reading agrees between text, owned Value and borrowed Value.

use crate::data::{self, Kinds, D, W};
use crate::big;
use crate::explore::*;
use crate::props::c12;
use crate::text::{self, Opts, N};
use crate::tree::*;
use crate::types::{self, Out};
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_yaml::Value;
use std::fmt;

/// One call of a Deserialize implementation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Any,
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    String,
    Bytes,
    ByteBuf,
    Option,
    Unit,
    UnitStruct,
    Newtype,
    Seq,
    Tuple0,
    Tuple1,
    Tuple2,
    TupleStruct,
    Map,
    Struct,
    StructT,
    EnumUnit,
    EnumNew,
    EnumTup,
    EnumStruct,
    Identifier,
    Ignored,
}
use Op::*;
const OPS: [Op; 37] = [
    Any, Bool, I8, I16, I32, I64, I128, U8, U16, U32, U64, U128, F32, F64, Char, Str, String, Bytes, ByteBuf, Option, Unit, UnitStruct, Newtype, Seq, Tuple0, Tuple1,
    Tuple2, TupleStruct, Map, Struct, StructT, EnumUnit, EnumNew, EnumTup, EnumStruct, Identifier, Ignored,
];
/// Those that go on inside.
const OUTER: [Op; 14] = [Any, Option, Newtype, Seq, Tuple1, Tuple2, TupleStruct, Map, Struct, EnumNew, EnumTup, EnumStruct, EnumUnit, Bytes];

/// Makes the first call, the next on everything inside, and notes what it is given.
#[derive(Clone, Copy)]
struct Rec<'a>(&'a [Op]);

impl<'de> DeserializeSeed<'de> for Rec<'_> {
    type Value = std::string::String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        const VARS: &[&str] = &["t", "u", "x", "a"];
        match self.0[0] {
            Any => d.deserialize_any(self),
            Bool => d.deserialize_bool(self),
            I8 => d.deserialize_i8(self),
            I16 => d.deserialize_i16(self),
            I32 => d.deserialize_i32(self),
            I64 => d.deserialize_i64(self),
            I128 => d.deserialize_i128(self),
            U8 => d.deserialize_u8(self),
            U16 => d.deserialize_u16(self),
            U32 => d.deserialize_u32(self),
            U64 => d.deserialize_u64(self),
            U128 => d.deserialize_u128(self),
            F32 => d.deserialize_f32(self),
            F64 => d.deserialize_f64(self),
            Char => d.deserialize_char(self),
            Str => d.deserialize_str(self),
            String => d.deserialize_string(self),
            Bytes => d.deserialize_bytes(self),
            ByteBuf => d.deserialize_byte_buf(self),
            Option => d.deserialize_option(self),
            Unit => d.deserialize_unit(self),
            UnitStruct => d.deserialize_unit_struct("U", self),
            Newtype => d.deserialize_newtype_struct("N", self),
            Seq => d.deserialize_seq(self),
            Tuple0 => d.deserialize_tuple(0, self),
            Tuple1 => d.deserialize_tuple(1, self),
            Tuple2 => d.deserialize_tuple(2, self),
            TupleStruct => d.deserialize_tuple_struct("T", 2, self),
            Map => d.deserialize_map(self),
            Struct => d.deserialize_struct("S", &["a", "x"], self),
            // named like a tag
            StructT => d.deserialize_struct("t", &[], self),
            EnumUnit | EnumNew | EnumTup | EnumStruct => d.deserialize_enum("E", VARS, self),
            Identifier => d.deserialize_identifier(self),
            Ignored => d.deserialize_ignored_any(self),
        }
    }
}

/// -0 is the integer 0 to a Value, and equal to it.
fn float(v: f64) -> std::string::String {
    if v.is_nan() {
        "nan".into()
    } else {
        format!("f{:?}", (v + 0.0).to_bits())
    }
}

impl<'a> Rec<'a> {
    fn next(self) -> Rec<'a> {
        Rec(if self.0.len() > 1 { &self.0[1..] } else { &[Any] })
    }
    /// Numbers as the type asked for makes of them.
    fn num(self, int: i128, big: u128) -> std::string::String {
        match self.0[0] {
            F32 => float((if int < 0 { int as f64 } else { big as f64 }) as f32 as f64),
            F64 => float(if int < 0 { int as f64 } else { big as f64 }),
            _ if int < 0 => format!("i{int}"),
            _ => format!("i{big}"),
        }
    }
}

impl<'de> Visitor<'de> for Rec<'_> {
    type Value = std::string::String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<E>(self, v: bool) -> Result<Self::Value, E> {
        Ok(format!("{v}"))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E> {
        Ok(self.num(v as i128, v as u128))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E> {
        Ok(self.num(v as i128, v as u128))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E> {
        Ok(self.num(v, v as u128))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E> {
        Ok(self.num(0, v))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Self::Value, E> {
        Ok(match self.0[0] {
            // no integer takes a float
            I8 | I16 | I32 | I64 | I128 | U8 | U16 | U32 | U64 | U128 => return Err(de::Error::invalid_type(de::Unexpected::Float(v), &self)),
            F32 => float(v as f32 as f64),
            _ => float(v),
        })
    }
    fn visit_str<E>(self, v: &str) -> Result<Self::Value, E> {
        Ok(format!("{v:?}"))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E> {
        Ok(format!("bytes {v:?}"))
    }
    fn visit_unit<E>(self) -> Result<Self::Value, E> {
        // types that take either take both for the same
        Ok("null".into())
    }
    fn visit_none<E>(self) -> Result<Self::Value, E> {
        Ok("null".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        Ok(format!("some({})", self.next().deserialize(d)?))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        Ok(format!("newtype({})", self.next().deserialize(d)?))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut r = std::string::String::from("[");
        let most = match self.0[0] {
            Tuple0 => 0,
            Tuple1 => 1,
            Tuple2 | TupleStruct | EnumTup => 2,
            _ => usize::MAX,
        };
        let mut n = 0;
        while n < most {
            match a.next_element_seed(self.next())? {
                Some(e) => r += &e,
                None if most == usize::MAX => break,
                None => return Err(de::Error::invalid_length(n, &"more")),
            }
            r.push(',');
            n += 1;
        }
        Ok(r + "]")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut r = std::string::String::from("{");
        let fields = matches!(self.0[0], Struct | EnumStruct | StructT);
        loop {
            // what a struct and a map ask of their keys
            let key = if fields { a.next_key_seed(Rec(&[Identifier]))? } else { a.next_key_seed(self.next())? };
            let Some(k) = key else { break };
            r += &k;
            r.push(':');
            if fields && !["\"a\"", "\"x\""].contains(&k.as_str()) {
                a.next_value::<IgnoredAny>()?;
            } else {
                r += &a.next_value_seed(self.next())?;
            }
            r.push(',');
        }
        Ok(r + "}")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Self::Value, A::Error> {
        let (t, v) = a.variant_seed(Rec(&[Identifier]))?;
        Ok(match self.0[0] {
            EnumUnit => {
                v.unit_variant()?;
                format!("{t} unit")
            }
            EnumTup => format!("{t} tuple{}", v.tuple_variant(2, self)?),
            EnumStruct => format!("{t} struct{}", v.struct_variant(&["a", "x"], self)?),
            _ => format!("{t}({})", v.newtype_variant_seed(self.next())?),
        })
    }
}

type R = Result<std::string::String, std::string::String>;

fn both(cx: &mut Cx, v: &Value, prog: &[Op]) -> R {
    let a: R = Rec(prog).deserialize(v).map_err(|e| e.to_string());
    let b: R = Rec(prog).deserialize(v.clone()).map_err(|e| e.to_string());
    cx.step(2);
    if match (&a, &b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    } {
        cx.trace();
    } else {
        cx.fail(format!("{prog:?} {:?}", T::of(v)), format!("{:?} read by {prog:?}: by reference {a:?}, by value {b:?}", T::of(v)));
    }
    b
}

fn with_text(cx: &mut Cx, text: &str, v: &Value, prog: &[Op]) {
    let of_value = both(cx, v, prog);
    let of_text: R = Rec(prog).deserialize(serde_yaml::Deserializer::from_str(text)).map_err(|e| e.to_string());
    cx.step(1);
    match (&of_value, &of_text) {
        (Ok(a), Ok(b)) if a != b => cx.fail(format!("{prog:?} {text:?}"), format!("{text:?} read by {prog:?}: from text {b:?}, from its Value {a:?}")),
        (Ok(_), Ok(_)) => {
            cx.outcome("both read");
            cx.trace()
        }
        (Err(_), Err(_)) => cx.outcome("both refuse"),
        (Ok(_), Err(_)) => cx.outcome("only text refuses"),
        (Err(_), Ok(_)) => cx.outcome("only the Value refuses"),
    }
}

fn by_types(cx: &mut Cx, t: &T, v: &Value) {
    for ty in types::all() {
        let (a, b) = ((ty.value)(v.clone()), (ty.value_ref)(v));
        cx.step(2);
        let ok = match (&a, &b) {
            (Out::Ok(a), Out::Ok(b)) => a == b,
            (Out::Err(..), Out::Err(..)) => true,
            _ => false,
        };
        cx.outcome(if a.is_ok() { "read" } else { "refused" });
        if ok {
            cx.trace();
        } else {
            cx.fail(format!("{} {t:?}", ty.name), format!("{t:?} as {}: by value {a:?}, by reference {b:?}", ty.name));
        }
    }
}

fn leaves() -> Vec<T> {
    vec![
        T::Null, T::Bool(true), T::Int(0), T::Int(-1), T::Int(300), T::Int(u64::MAX as i128), T::Float(1.5), T::Float(-0.0), st(""), st("a"), st("t"), st("1"), st("two words"),
    ]
}

/// Spellings of scalars.
fn scalars() -> Vec<std::string::String> {
    let mut v: Vec<std::string::String> = [
        "", "~", "null", "Null", "NULL", "nULL", "true", "True", "TRUE", "tRUE", "false", "yes", "0", "-0", "+0", "1", "-1", "+1", "01", "-01", "007", "00", "0x1f", "0X1F",
        "-0x1f", "+0x1f", "0x", "0o17", "-0o17", "0b101", "-0b1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648",
        "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "1.0", "-1.0", "1.", ".5",
        "1e3", "1E3", "1e-3", "-.5", "+.5", ".inf", "-.inf", "+.inf", ".Inf", ".INF", ".iNF", ".nan", ".NaN", ".NAN", "-.nan", "inf", "nan", "NaN", "infinity", "1_000", "0.1",
        "3.4028235e38", "1e39", "1e400", "16777217", "9007199254740993", "1152921573326323713", "1.1754943508222875e-38", "''", "'1'", "\"true\"", "'~'", "\"\\u00e9\"", "é",
        "a", "t", "x", "two words", "'it''s'", "<<", "!!str", "!!str 1", "!!str ~", "!!str ''", "!!int 1", "!!int x", "!!int '1'", "!!int 0x1f", "!!float 1", "!!float 1.5", "!!float '1.5'", "!!float x",
        "!!bool true", "!!bool 'true'", "!!bool x", "!!null", "!!null ~", "!!null 'null'", "!!null ''", "!!null x", "!!null null", "! a", "! 1", "!t", "!t ''", "!t ~", "!t 1", "!t '1'", "!t x", "!u x", "!t u", "! ''", "!<tag:yaml.org,2002:int> 1",
        "!<tag:yaml.org,2002:binary> YQ==", "!!seq a", "!!timestamp 2001-01-01",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.dedup();
    v
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let n = tier.pick(3, 4);
    f.push(family(
        "values by programs",
        format!("every Value of at most {n} nodes over 13 leaves and two tags, nested ones too, against every pair of 37 and every triple of 14 x 14 x 37 Deserialize calls: by value and by reference the same"),
        move |ch, cx| {
            let mut g = Gen::new(if n == 3 { leaves() } else { leaves().into_iter().step_by(2).collect() }, &["t", "u"]);
            g.nested_tags = true;
            let t = g.tree(ch, n);
            if t.has_dup_keys() {
                return;
            }
            let a = *ch.pick(&OUTER);
            let v = t.to_value();
            cx.state(&(&t, a));
            cx.case = format!("{a:?} {t:?}");
            for b in OPS {
                if let Ok(_) = both(cx, &v, &[a, b]) {
                    cx.outcome("read");
                }
                if OUTER.contains(&b) {
                    for c in OPS {
                        both(cx, &v, &[a, b, c]);
                    }
                }
            }
        },
    ));
    f.push(family(
        "lengths",
        "sequences and mappings of 0 to 5 entries and strings, some starting with '!', under 11 tags, ones that start with '!' and nested ones too, in 6 surroundings, against every single call, every pair of 14 x 37, every triple of 14 x 14 x 37, and 35 types: by value and by reference the same",
        |ch, cx| {
            let n = ch.choose(6);
            let t = match ch.choose(7) {
                0 => T::Seq(vec![T::Int(1); n]),
                1 => T::Seq((0..n).map(|i| if i % 2 == 0 { T::Int(1) } else { st("a") }).collect()),
                2 => T::Seq(vec![T::Seq(vec![T::Int(1), T::Null]); n]),
                3 => T::Map(["a", "x", "b", "y", "t"].iter().take(n).map(|k| (st(k), T::Int(1))).collect()),
                4 => T::Map((0..n).map(|i| (T::Int(i as i128), st("a"))).collect()),
                5 => T::Map(["x", "y", "a"].iter().take(n).map(|k| (st(k), T::Seq(vec![T::Int(1), T::Int(2), T::Int(3)]))).collect()),
                _ => st(["!t", "!", "!New", "!Unit", "!!t", "t!"][n]),
            };
            let tags = *ch.pick::<&[&str]>(&[&[], &["t"], &["!t"], &["t", "u"], &["u", "!t"], &["Tup"], &["New"], &["St"], &["!Tup"], &["!"], &["Unit"]]);
            let t = tags.iter().fold(t, |t, tag| T::Tag(tag.to_string(), Box::new(t)));
            let around = ch.choose(6);
            let t = match around {
                0 => t,
                1 => T::Seq(vec![t]),
                2 => T::Seq(vec![T::Null, t]),
                3 => T::Map(vec![(st("a"), t)]),
                4 => T::Map(vec![(t, T::Null)]),
                _ => T::Tag("x".into(), Box::new(T::Seq(vec![T::Null, t]))),
            };
            let v = t.to_value();
            cx.state(&t);
            cx.case = format!("{t:?}");
            by_types(cx, &t, &v);
            for a in OPS {
                both(cx, &v, &[a]);
                if OUTER.contains(&a) {
                    for b in OPS {
                        both(cx, &v, &[a, b]);
                        if OUTER.contains(&b) {
                            for c in OPS {
                                both(cx, &v, &[a, b, c]);
                            }
                        }
                    }
                }
            }
        },
    ));
    let n = tier.pick(4, 5);
    f.push(family(
        "values by types",
        format!("every Value of at most {n} nodes over 7 leaves and two tags, against 35 types: by value and by reference the same"),
        move |ch, cx| {
            let mut g = Gen::new(vec![T::Null, T::Int(1), T::Float(1.5), st("a"), st("x")], &["New", "St"]);
            g.nested_tags = true;
            let t = g.tree(ch, n);
            if t.has_dup_keys() {
                return;
            }
            let v = t.to_value();
            cx.state(&t);
            cx.case = format!("{t:?}");
            by_types(cx, &t, &v);
        },
    ));
    f.push(family(
        "scalars",
        "every one of 130 spellings in 8 surroundings, against every single call and every pair of 14 x 37, triples inside of collections: from text and from its Value the same whenever both succeed",
        |ch, cx| {
            let all = scalars();
            let s = &all[ch.choose(all.len())];
            let (around, depth) = *ch.pick(&[("@", 1), ("[@]", 2), ("[@, @]", 2), ("{a: @}", 2), ("{? @ : @}", 2), ("!t [@, 1]", 2), ("!t {x: @}", 2), ("- @\n- a\n", 2)]);
            let text = around.replace('@', if s.is_empty() && around.starts_with('[') { "&e " } else { s }).replacen("&e ", "&f ", 1);
            let Ok(v) = serde_yaml::from_str::<Value>(&text) else { return };
            cx.state(&text);
            cx.case = text.clone();
            for a in OPS {
                with_text(cx, &text, &v, &[a]);
                if OUTER.contains(&a) {
                    for b in OPS {
                        with_text(cx, &text, &v, &[a, b]);
                        if depth == 2 && OUTER.contains(&b) {
                            for c in OPS {
                                with_text(cx, &text, &v, &[a, b, c]);
                            }
                        }
                    }
                }
            }
        },
    ));
    let (n, dev) = tier.pick((4, 1), (5, 1));
    f.push(family(
        "documents by programs",
        format!("every tree of at most {n} nodes over 5 leaves and two tags in every presentation making at most {dev} departures, against every pair of 14 x 37 calls: from text and from its Value the same whenever both succeed"),
        move |ch, cx| {
            let g = Gen::new(vec![T::Null, T::Int(1), st("a"), st("x y")], &["t"]);
            let t = g.tree(ch, n);
            if t.has_dup_keys() {
                return;
            }
            ch.set_budget(dev);
            let w = text::write(ch, &N::of(&t), Opts::all());
            cx.state(&w.text);
            cx.case.clone_from(&w.text);
            let v = t.to_value();
            for a in OUTER {
                for b in OPS {
                    with_text(cx, &w.text, &v, &[a, b]);
                }
            }
        },
    ));
    let len = tier.pick(5, 6);
    f.push(family(
        "texts by types",
        format!("every string of up to {len} of 18 tokens, against 35 types: from text and from its Value the same whenever both succeed"),
        move |ch, cx| {
            let toks = ["a", "x", "1", "~", "1.5", "- ", ": ", "\n", "[", "]", "{", "}", ", ", "!t ", "!New ", "!St ", "&a ", "*a"];
            let n = ch.range(1, len);
            let text: std::string::String = (0..n).map(|_| ch.word(&toks)).collect();
            let Ok(v) = serde_yaml::from_str::<Value>(&text) else { return };
            cx.state(&text);
            cx.case.clone_from(&text);
            for ty in types::all() {
                let (a, b) = ((ty.str)(&text), (ty.value_ref)(&v));
                cx.step(2);
                match (&a, &b) {
                    (Out::Ok(x), Out::Ok(y)) if x != y => cx.fail(format!("{} {text:?}", ty.name), format!("{text:?} as {}: from text {a:?}, from its Value {b:?}", ty.name)),
                    _ => cx.trace(),
                }
                cx.outcome(match (a.is_ok(), b.is_ok()) {
                    (true, true) => "both read",
                    (false, false) => "both refuse",
                    (true, false) => "only the Value refuses",
                    (false, true) => "only text refuses",
                });
            }
        },
    ));
    let full = Kinds {
        leaves: c12::leaves(),
        wrappers: true,
        tuples: true,
        structs: true,
        enums: true,
        styles: false,
        complex_keys: true, adapters: false, within: 0,
    };
    let few = Kinds { leaves: vec![D::Int(7, W::I32), data::str("s"), D::None], ..full.clone() };
    for (name, kinds, n) in [("own text", full, tier.pick(4, 4)), ("more own text", few, tier.pick(5, 6))] {
        f.push(family(
            name,
            format!("every tree of at most {n} calls of the serde data model over {} leaves: its own text is read back by the matching calls, from text and through both kinds of Value", kinds.leaves.len()),
            move |ch, cx| {
                let d = kinds.tree(ch, n);
                own(cx, &d);
            },
        ));
    }
    let n = big::few_sizes(tier);
    f.push(family(
        "many",
        format!("9 kinds of data with many parts, at {} sizes up to {}", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let d = big::d_wide(ch.choose(big::D_WIDES), *ch.pick(&n));
            own(cx, &d);
        },
    ));
    f.push(family(
        "deep",
        "data of each number of levels from 1 to 60, of every pair of 12 kinds, around 4 leaves",
        |ch, cx| {
            let w = big::d_word(ch);
            let d = ch.range(1, 60);
            let leaf = ch.pick(&[D::Unit, D::Int(7, W::U8), D::UnitVar("Unit"), data::str("l1\nl2")]).clone();
            own(cx, &big::d_tower(&w, d, leaf));
        },
    ));
    f
}

fn own(cx: &mut Cx, d: &D) {
    if d.vague() || d.content().has_dup_keys() {
        return;
    }
    let Ok(text) = serde_yaml::to_string(d) else {
        cx.outcome("cannot be written");
        return;
    };
    cx.state(&format!("{d:?}"));
    cx.case = format!("{d:?}");
    let v = serde_yaml::from_str::<Value>(&text);
    cx.step(4);
    let rs = match &v {
        Ok(v) => [data::like(d).deserialize(serde_yaml::Deserializer::from_str(&text)), data::like(d).deserialize(v), data::like(d).deserialize(v.clone())],
        Err(e) => {
            cx.fail(format!("{d:?}"), format!("{d:?} written as {text:?}: {e}"));
            return;
        }
    };
    let bad: Vec<_> = rs.iter().enumerate().filter(|(_, r)| !r.as_ref().is_ok_and(|g| g.same(d))).collect();
    cx.outcome("written");
    if bad.is_empty() {
        cx.trace();
    } else {
        cx.fail(format!("{d:?}"), format!("{d:?} written as {text:?}, read (0 from text, 1 by reference, 2 by value): {bad:?}"));
    }
}
