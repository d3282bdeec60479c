//! C27: an error says what was found, and says the same thing in each of its forms.

use crate::corpus;
use crate::explore::*;
use crate::tree::*;
use crate::types;
use serde::de::{self, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use serde_derive::Deserialize;
use serde_yaml::{Error, Value};
use std::cell::Cell;
use std::fmt;

/// The texts a Debug form is made of.
struct Form<'a>(&'a str);

impl<'a> Form<'a> {
    fn eat(&mut self, s: &str) -> Result<(), String> {
        self.0 = self.0.strip_prefix(s).ok_or_else(|| format!("no {s:?} at {:?}", self.0))?;
        Ok(())
    }
    fn try_eat(&mut self, s: &str) -> bool {
        self.eat(s).is_ok()
    }
    fn number(&mut self) -> Result<usize, String> {
        let n = self.0.find(|c: char| !c.is_ascii_digit()).unwrap_or(self.0.len());
        let (d, rest) = self.0.split_at(n);
        self.0 = rest;
        d.parse().map_err(|_| format!("no number at {:?}", self.0))
    }
    fn until(&mut self, end: &str) -> Result<&'a str, String> {
        let n = self.0.find(end).ok_or_else(|| format!("no {end:?} in {:?}", self.0))?;
        let (a, b) = self.0.split_at(n);
        self.0 = &b[end.len()..];
        Ok(a)
    }
    /// Line and column, or the position.
    fn mark(&mut self) -> Result<Result<(usize, usize), usize>, String> {
        self.eat("Mark { ")?;
        let m = if self.try_eat("line: ") {
            let l = self.number()?;
            self.eat(", column: ")?;
            Ok((l, self.number()?))
        } else {
            self.eat("index: ")?;
            Err(self.number()?)
        };
        self.eat(" }")?;
        Ok(m)
    }
}

/// Text, Debug form and location agree.
fn consistent(e: &Error) -> Result<(), String> {
    let (disp, dbg) = (e.to_string(), format!("{e:?}"));
    let loc = e.location().map(|l| (l.line(), l.column(), l.index(), format!("{l:?}")));
    let said = |l: usize, c: usize| if (l, c) == (1, 1) { String::new() } else { format!(" at line {l} column {c}") };
    if let Some((l, c, i, d)) = &loc {
        let want = format!("Location {{ index: {i}, line: {l}, column: {c} }}");
        if *d != want {
            return Err(format!("the location is {d}, its parts {want}"));
        }
        if *l == 0 || *c == 0 {
            return Err(format!("location {d}"));
        }
    }
    if let Some(msg) = disp.strip_suffix(&loc.as_ref().map_or(String::new(), |(l, c, ..)| said(*l, *c))) {
        let at = loc.as_ref().map_or(String::new(), |(l, c, ..)| format!(", line: {l}, column: {c}"));
        if dbg == format!("Error({msg:?}{at})") {
            return Ok(());
        }
    }
    if dbg.starts_with("Error(") {
        return Err("text, Debug form and location do not go together".to_owned());
    }
    // an error of the parser
    let mut f = Form(&dbg);
    f.eat("Error { kind: ")?;
    let kind = f.until(", problem: ")?;
    f.eat("\"")?;
    let mut want = f.until("\"")?.to_owned();
    let mut at = (1, 1);
    if f.try_eat(", problem_mark: ") {
        at = f.mark()?.map_err(|i| format!("problem at position {i}"))?;
        want += &said(at.0, at.1);
    } else if f.try_eat(", problem_offset: ") {
        want += &format!(" at position {}", f.number()?);
    }
    if f.try_eat(", context: \"") {
        want += ", ";
        want += f.until("\"")?;
        if f.try_eat(", context_mark: ") {
            let c = f.mark()?.map_err(|i| format!("context at position {i}"))?;
            if c != at {
                want += &said(c.0, c.1);
            }
            if c > at {
                return Err("the context is behind the problem".to_owned());
            }
        }
    }
    f.eat(" }")?;
    if !f.0.is_empty() || want != disp {
        return Err(format!("the Debug form says {want:?}"));
    }
    if !matches!(kind, "READER" | "SCANNER" | "PARSER") {
        return Err(format!("kind {kind}"));
    }
    match loc {
        Some((l, c, ..)) if (l, c) == at => Ok(()),
        l => Err(format!("located at {l:?}")),
    }
}

fn told(cx: &mut Cx, what: &str, e: &Error) {
    cx.trace();
    let r = consistent(e);
    let src = std::error::Error::source(e).map(|s| s.to_string());
    if let Err(why) = r {
        cx.fail(what.to_owned(), format!("{what}: {e} / {e:?} / {:?}: {why}", e.location()));
    } else if src.is_some() {
        cx.fail(what.to_owned(), format!("{what}: {e} has a source: {src:?}"));
    }
}

// ------------------------------------------------------------------ nothing fits

/// How a node is to be asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ask {
    Any,
    Bool,
    I8,
    I64,
    U16,
    U64,
    Unit,
    UnitStruct,
    Seq,
    Tuple,
    TupleStruct,
    Map,
    Struct,
    Str,
    String,
    Char,
}
const ASKS: [Ask; 16] = [
    Ask::Any, Ask::Bool, Ask::I8, Ask::I64, Ask::U16, Ask::U64, Ask::Unit, Ask::UnitStruct, Ask::Seq, Ask::Tuple, Ask::TupleStruct, Ask::Map, Ask::Struct, Ask::Str, Ask::String,
    Ask::Char,
];
thread_local!(static ASK: Cell<Ask> = const { Cell::new(Ask::Any) });

/// Takes nothing at all.
struct Nothing;
impl<'de> Visitor<'de> for Nothing {
    type Value = Nothing;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("some \"other\" {} thing")
    }
}
impl<'de> Deserialize<'de> for Nothing {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Nothing, D::Error> {
        match ASK.get() {
            Ask::Any => d.deserialize_any(Nothing),
            Ask::Bool => d.deserialize_bool(Nothing),
            Ask::I8 => d.deserialize_i8(Nothing),
            Ask::I64 => d.deserialize_i64(Nothing),
            Ask::U16 => d.deserialize_u16(Nothing),
            Ask::U64 => d.deserialize_u64(Nothing),
            Ask::Unit => d.deserialize_unit(Nothing),
            Ask::UnitStruct => d.deserialize_unit_struct("U", Nothing),
            Ask::Seq => d.deserialize_seq(Nothing),
            Ask::Tuple => d.deserialize_tuple(2, Nothing),
            Ask::TupleStruct => d.deserialize_tuple_struct("T", 2, Nothing),
            Ask::Map => d.deserialize_map(Nothing),
            Ask::Struct => d.deserialize_struct("S", &["a"], Nothing),
            Ask::Str => d.deserialize_str(Nothing),
            Ask::String => d.deserialize_string(Nothing),
            Ask::Char => d.deserialize_char(Nothing),
        }
    }
}

/// What serde calls a value of such content.
fn found(t: &T) -> String {
    match t {
        T::Null => "unit value".to_owned(),
        T::Bool(b) => format!("boolean `{b}`"),
        T::Int(i) => format!("integer `{i}`"),
        T::Float(f) if f.is_nan() => "floating point `NaN`".to_owned(),
        T::Float(f) if f.is_infinite() => format!("floating point `{f}`"),
        T::Float(f) if f.fract() == 0.0 => format!("floating point `{f}.0`"),
        T::Float(f) => format!("floating point `{f}`"),
        T::Str(s) => format!("string {s:?}"),
        T::Seq(_) => "sequence".to_owned(),
        T::Map(_) => "map".to_owned(),
        T::Tag(..) => "enum".to_owned(),
    }
}

fn naked(t: &T) -> &T {
    match t {
        T::Tag(_, t) => naked(t),
        t => t,
    }
}

fn nothing_fits(ch: &mut Ch, cx: &mut Cx) {
    let mut l = leaves_wide();
    l.extend([T::Seq(vec![]), T::Seq(vec![T::Null]), T::Map(vec![]), T::Map(vec![(T::Null, T::Null)])]);
    let leaf = ch.pick(&l).clone();
    let t = match ch.choose(3) {
        0 => leaf,
        1 => tagged("t", leaf),
        _ => tagged("t", tagged("u", leaf)),
    };
    let ask = *ch.pick(&ASKS);
    ASK.set(ask);
    cx.state(&(&t, ask));
    let v = t.to_value();
    let text_like = matches!(ask, Ask::Str | Ask::String | Ask::Char);
    // Only an untyped question sees the tag.
    let unit = matches!(ask, Ask::Unit | Ask::UnitStruct);
    let seen = if ask == Ask::Any || unit { &t } else { naked(&t) };
    let phrase = "some \"other\" {} thing";
    // Null is an empty collection to who asks for one.
    let as_collection = match (seen, ask) {
        (T::Null, Ask::Seq | Ask::Tuple | Ask::TupleStruct) => T::Seq(vec![]),
        (T::Null, Ask::Map | Ask::Struct) => T::Map(vec![]),
        _ => seen.clone(),
    };
    let want = format!("invalid type: {}, expected {phrase}", found(&as_collection));
    let mut got = vec![serde_yaml::from_value::<Nothing>(v.clone()).err(), Nothing::deserialize(&v).err()];
    cx.step(2);
    for (i, e) in got.drain(..).enumerate() {
        let Some(e) = e else {
            cx.fail(format!("{ask:?} {t:?}"), "read as nothing");
            return;
        };
        told(cx, &format!("{ask:?} {t:?}"), &e);
        if e.to_string() != want || e.location().is_some() {
            cx.fail(format!("{ask:?} {t:?}"), format!("way {i}: {e} (at {:?}) instead of {want}", e.location()));
        }
    }
    // In a text: as the root, in a sequence, as a mapping's value, both.
    if t.nested_tag() {
        return;
    }
    let Ok(own) = serde_yaml::to_string(&v) else { return };
    let own = match naked(&t) {
        T::Seq(v) if !v.is_empty() => own.replace("\n- null", " [null]"),
        T::Map(m) if !m.is_empty() => own.replace("\nnull: null", " {null: null}"),
        _ => own,
    };
    let own = match &t {
        T::Seq(v) if !v.is_empty() => "[null]\n".to_owned(),
        T::Map(m) if !m.is_empty() => "{null: null}\n".to_owned(),
        _ => own,
    };
    if own.contains(['\u{85}', '\u{2028}', '\u{2029}', '\r']) || own.matches('\n').count() != 1 {
        return;
    }
    let own = own.trim_end_matches('\n');
    let (text, path, at): (String, &str, (usize, usize)) = match ch.choose(4) {
        0 => (own.to_owned(), "", (1, 1)),
        1 => (format!("- ~\n- ~\n- {own}\n- ~\n"), ".[2]: ", (3, 3)),
        2 => (format!("é: {own}\nb: ~\n"), "é: ", (1, 4)),
        _ => (format!("é:\n  - b: {own}\n"), "é[0].b: ", (2, 8)),
    };
    // Scalars are strings to who asks for one; a tagged collection is what it is, a tagged scalar not always.
    let text_want = |t: &T| format!("{path}invalid type: {}, expected {phrase}", found(t));
    let scalar = !matches!(naked(&t), T::Seq(_) | T::Map(_));
    let want = match (&t, text_like) {
        _ if unit && scalar && !matches!(t, T::Null) => {
            let s = match naked(&t) {
                T::Str(s) => s.clone(),
                _ if !matches!(t, T::Tag(..)) => own.to_owned(),
                _ => own.split_once(' ').map_or("", |x| x.1).to_owned(),
            };
            format!("{path}invalid value: string {s:?}, expected null")
        }
        _ if unit => text_want(naked(&t)),
        (T::Seq(_) | T::Map(_), _) | (_, false) => text_want(seen),
        (T::Tag(_, x), true) if matches!(**x, T::Seq(_) | T::Map(_)) => text_want(seen),
        _ => {
            let s = match &t {
                T::Str(s) => s.clone(),
                T::Tag(_, x) if matches!(**x, T::Str(_)) => match &**x {
                    T::Str(s) => s.clone(),
                    _ => unreachable!(),
                },
                T::Tag(..) => own.split_once(' ').map_or("", |x| x.1).to_owned(),
                _ => own.to_owned(),
            };
            format!("{path}invalid type: string {s:?}, expected {phrase}")
        }
    };
    let want = if at == (1, 1) { want } else { format!("{want} at line {} column {}", at.0, at.1) };
    let e = match path {
        "" => serde_yaml::from_str::<Nothing>(&text).err(),
        ".[2]: " => read(&text, &[None, None]),
        "é: " => read(&text, &[Some("é")]),
        _ => read(&text, &[Some("é"), Some("b")]),
    };
    cx.step(1);
    let Some(e) = e else {
        cx.fail(format!("{ask:?} {text:?}"), "read as nothing");
        return;
    };
    told(cx, &format!("{ask:?} {text:?}"), &e);
    if e.to_string() != want {
        cx.fail(format!("{ask:?} {text:?}"), format!("{e} instead of {want}"));
    }
    cx.sample(|| format!("{ask:?} of {text:?}: {e}"));
}

/// The error of reading nothing where the steps lead: into the named key, or behind as many elements
/// as there are unnamed steps.
fn read(text: &str, steps: &[Option<&str>]) -> Option<Error> {
    struct Go<'a>(&'a [Option<&'a str>]);
    impl<'de> DeserializeSeed<'de> for Go<'_> {
        type Value = ();
        fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
            match self.0.first() {
                None => Nothing::deserialize(d).map(drop),
                Some(_) => d.deserialize_any(self),
            }
        }
    }
    impl<'de> Visitor<'de> for Go<'_> {
        type Value = ();
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("what is above")
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            let skip = self.0.iter().take_while(|s| s.is_none()).count();
            for _ in 0..skip {
                a.next_element::<IgnoredAny>()?;
            }
            a.next_element_seed(Go(&self.0[skip..]))?;
            Ok(())
        }
        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            while let Some(k) = a.next_key::<String>()? {
                if self.0[0] == Some(&k) {
                    a.next_value_seed(Go(&self.0[1..]))?;
                } else {
                    a.next_value::<IgnoredAny>()?;
                }
            }
            Ok(())
        }
    }
    Go(steps).deserialize(serde_yaml::Deserializer::from_str(text)).err()
}

// ------------------------------------------------------------------ lengths, fields, variants

#[derive(Deserialize, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Two {
    a: u8,
    #[serde(default)]
    b: u8,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
enum Choice {
    One,
    Two(u8, u8),
}

/// Takes so many elements, or entries.
struct Take(usize);
impl<'de> DeserializeSeed<'de> for Take {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_any(self)
    }
}
impl<'de> Visitor<'de> for Take {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a few")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        for i in 0..self.0 {
            a.next_element::<IgnoredAny>()?.ok_or_else(|| de::Error::invalid_length(i, &self))?;
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        for i in 0..self.0 {
            a.next_entry::<IgnoredAny, IgnoredAny>()?.ok_or_else(|| de::Error::invalid_length(i, &self))?;
        }
        Ok(())
    }
}

fn says(cx: &mut Cx, what: String, e: Option<Error>, want: Option<String>) {
    cx.step(1);
    cx.trace();
    if let Some(e) = &e {
        told(cx, &what, e);
    }
    let got = e.map(|e| e.to_string());
    if got != want {
        cx.fail(what.clone(), format!("{what}: {got:?} instead of {want:?}"));
    }
}

fn lengths(ch: &mut Ch, cx: &mut Cx, max: usize) {
    let (have, take) = (ch.range(0, max), ch.range(0, max));
    let map = ch.flag();
    let block = ch.flag();
    cx.state(&(have, take, map, block));
    let text = match (map, block && have > 0) {
        (false, false) => format!("[{}]", vec!["[x]"; have].join(", ")),
        (false, true) => "- [x, y]\n".repeat(have),
        (true, false) => format!("{{{}}}", (0..have).map(|i| format!("{i}: {{}}")).collect::<Vec<_>>().join(", ")),
        (true, true) => (0..have).map(|i| format!("{i}: {{a: b}}\n")).collect(),
    };
    let v: Value = serde_yaml::from_str(&text).expect("a collection");
    let thing = if map { "map" } else { "sequence" };
    let fewer = (take < have).then(|| format!("invalid length {have}, expected fewer elements in {thing}"));
    let more = (take > have).then(|| format!("invalid length {have}, expected a few"));
    let n = match (map, take) {
        (false, 1) => "sequence of 1 element".to_owned(),
        (false, n) => format!("sequence of {n} elements"),
        (true, 1) => "map containing 1 entry".to_owned(),
        (true, n) => format!("map containing {n} entries"),
    };
    let in_text = (take < have).then(|| format!("invalid length {have}, expected {n}"));
    let what = || format!("{take} of {text:?}");
    says(cx, what(), Take(take).deserialize(serde_yaml::Deserializer::from_str(&text)).err(), in_text.or_else(|| more.clone()));
    says(cx, what(), Take(take).deserialize(&v).err(), fewer.clone().or_else(|| more.clone()));
    says(cx, what(), Take(take).deserialize(v).err(), fewer.or(more));
}

fn fields(ch: &mut Ch, cx: &mut Cx) {
    let names = ["a", "b", "c", "<<", "a b", ""];
    let mut keys = vec![];
    for _ in 0..3 {
        match ch.choose(names.len() + 1) {
            0 => break,
            i => keys.push(names[i - 1]),
        }
    }
    cx.state(&keys);
    let text = format!("{{{}}}", keys.iter().map(|k| format!("{k:?}: 1")).collect::<Vec<_>>().join(", "));
    let first_twice = (0..keys.len()).find(|&i| keys[..i].contains(&keys[i]));
    let first_unknown = (0..keys.len()).find(|&i| !["a", "b"].contains(&keys[i]));
    // the first of the offences, reading on
    let (msg, key) = match (first_twice, first_unknown) {
        (Some(d), u) if u.map_or(true, |u| d < u) => (Some(format!("duplicate field `{}`", keys[d])), Some(d)),
        (_, Some(u)) => (Some(format!("unknown field `{}`, expected `a` or `b`", keys[u])), Some(u)),
        _ if !keys.contains(&"a") => (Some("missing field `a`".to_owned()), None),
        _ => (None, None),
    };
    let got = serde_yaml::from_str::<Two>(&text).err();
    let what = format!("fields {text}");
    if let Some(e) = &got {
        told(cx, &what, e);
    }
    let got = got.map(|e| e.to_string());
    cx.step(1);
    let ok = match (&got, &msg) {
        (None, None) => true,
        // where it is said to be is another property's
        (Some(g), Some(m)) => match key {
            Some(_) => g.contains(m.as_str()),
            None => g == m,
        },
        _ => false,
    };
    if !ok {
        cx.fail(what.clone(), format!("{what}: {got:?} instead of {msg:?}"));
    }
    // As a Value, the second of equal keys.
    let dup = first_twice.map(|d| format!("duplicate entry with key {:?}", keys[d]));
    says(cx, format!("value {text}"), serde_yaml::from_str::<Value>(&text).err(), dup);
    if first_twice.is_none() {
        let v: Value = serde_yaml::from_str(&text).expect("a mapping");
        let m = msg.clone();
        says(cx, format!("fields of value {text}"), serde_yaml::from_value::<Two>(v).err(), m);
    }
}

fn twice(ch: &mut Ch, cx: &mut Cx) {
    let mut l = leaves_wide();
    l.extend([T::Seq(vec![]), T::Map(vec![]), tagged("t", st("a")), tagged("t", T::Seq(vec![T::Int(1)]))]);
    let k = ch.pick(&l).clone();
    let before = ch.choose(3);
    cx.state(&(&k, before));
    let Ok(key) = serde_yaml::to_string(&k.to_value()) else { return };
    if key.matches('\n').count() != 1 || key.contains(['\u{85}', '\u{2028}', '\u{2029}', '\r']) {
        return;
    }
    let key = key.trim_end_matches('\n');
    let mut text = String::new();
    for i in 0..before {
        text += &format!("other{i}: 1\n");
    }
    text += &format!("? {key}\n: 1\n? {key}\n: 1\n");
    let want = match &k {
        T::Null => "duplicate entry with null key".to_owned(),
        T::Bool(b) => format!("duplicate entry with key `{b}`"),
        T::Int(i) => format!("duplicate entry with key {i}"),
        T::Float(_) => format!("duplicate entry with key {}", crate::tree::T::to_value(&k).as_f64().map(serde_yaml::Number::from).expect("a float")),
        T::Str(s) => format!("duplicate entry with key {s:?}"),
        _ => "duplicate entry in YAML map".to_owned(),
    };
    says(cx, format!("twice {key}"), serde_yaml::from_str::<Value>(&text).err(), Some(want.clone()));
    let nested = format!("- ~\n- a:\n{}", text.lines().map(|l| format!("    {l}\n")).collect::<String>());
    says(
        cx,
        format!("twice {key}, nested"),
        serde_yaml::from_str::<Value>(&nested).err(),
        Some(format!(".[1].a: {want} at line 3 column 5")),
    );
}

fn variants(ch: &mut Ch, cx: &mut Cx) {
    let name = ch.word(&["One", "one", "Three", "Two", "a b", "é"]);
    let way = ch.choose(4);
    cx.state(&(name, way));
    let want = (!["One", "Two"].contains(&name)).then(|| format!("unknown variant `{name}`, expected `One` or `Two`"));
    if want.is_none() || name == "a b" && way == 1 {
        return;
    }
    let what = format!("variant {name} {way}");
    let e = match way {
        0 => serde_yaml::from_str::<Choice>(name).err(),
        1 => serde_yaml::from_str::<Choice>(&format!("!{} [1, 2]", name.replace('é', "%C3%A9"))).err(),
        2 => serde_yaml::from_value::<Choice>(Value::from(name)).err(),
        _ => serde_yaml::from_value::<Choice>(tagged(name, T::Int(1)).to_value()).err(),
    };
    says(cx, what, e, want);
}

// ------------------------------------------------------------------ one's own words

struct Refuse(String);
impl Serialize for Refuse {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom(&self.0))
    }
}
struct Say<'a>(&'a str);
impl<'de> DeserializeSeed<'de> for Say<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        IgnoredAny::deserialize(d)?;
        Err(de::Error::custom(self.0))
    }
}
impl<'de> Visitor<'de> for Say<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        a.next_element::<IgnoredAny>()?;
        a.next_element_seed(self)?;
        Ok(())
    }
}
struct Above<'a>(&'a str);
impl<'de> DeserializeSeed<'de> for Above<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_seq(Say(self.0))
    }
}

fn words(ch: &mut Ch, cx: &mut Cx, n: usize) {
    let mut s = String::new();
    for _ in 0..n {
        match ch.choose(11) {
            0 => break,
            i => s.push_str(["a", "\"", "\\", "\n", "{}", "{0}", "é", ": ", " at line 1 column 1", "\0"][i - 1]),
        }
    }
    cx.state(&s);
    let plain = Some(s.clone());
    let what = || format!("words {s:?}");
    says(cx, what(), serde_yaml::to_string(&Refuse(s.clone())).err(), plain.clone());
    says(cx, what(), serde_yaml::to_value([Refuse(s.clone())]).err(), plain.clone());
    says(cx, what(), serde_yaml::to_writer(vec![], &[Refuse(s.clone())]).err(), plain.clone());
    says(cx, what(), Some(<Error as de::Error>::custom(&s)), plain.clone());
    says(cx, what(), Some(<Error as serde::ser::Error>::custom(&s)), plain.clone());
    let v: Value = serde_yaml::from_str("[1, 2]").expect("a sequence");
    says(cx, what(), Above(&s).deserialize(&v).err(), plain.clone());
    says(cx, what(), Above(&s).deserialize(v).err(), plain.clone());
    // In a text it is said of the collection the node is in, if nothing inside has said so.
    let e = Above(&s).deserialize(serde_yaml::Deserializer::from_str("[1, 2]")).err();
    if let Some(e) = &e {
        told(cx, &what(), e);
    }
    let got = e.map(|e| e.to_string());
    if !got.as_ref().is_some_and(|g| g.starts_with(&s) || g.starts_with(&format!(".[1]: {s}"))) {
        cx.fail(what(), format!("{:?}: in a text {got:?}", s));
    }
}

fn others(ch: &mut Ch, cx: &mut Cx) {
    struct Bytes;
    impl Serialize for Bytes {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_bytes(b"a")
        }
    }
    struct Variant(&'static str, &'static str, usize);
    impl Serialize for Variant {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::{SerializeStructVariant, SerializeTupleVariant};
            let inner = Variant(self.1, "", self.2);
            let inner: &dyn Fn() -> Option<Variant> = &|| (self.1 != "").then_some(Variant(inner.0, "", inner.2));
            match (self.2, inner()) {
                (0, Some(i)) => s.serialize_newtype_variant("E", 0, self.0, &i),
                (0, None) => s.serialize_newtype_variant("E", 0, self.0, &1),
                (1, Some(i)) => {
                    let mut t = s.serialize_tuple_variant("E", 0, self.0, 1)?;
                    t.serialize_field(&i)?;
                    t.end()
                }
                (1, None) => s.serialize_tuple_variant("E", 0, self.0, 0)?.end(),
                (_, Some(i)) => {
                    let mut t = s.serialize_struct_variant("E", 0, self.0, 1)?;
                    t.serialize_field("f", &i)?;
                    t.end()
                }
                (_, None) => s.serialize_struct_variant("E", 0, self.0, 0)?.end(),
            }
        }
    }
    let (e, want) = match ch.choose(21) {
        0 => (serde_yaml::to_string(&Bytes).err(), Some("serialization and deserialization of bytes in YAML is not implemented")),
        1 => (serde_yaml::to_string(&Variant("", "", 0)).err(), Some("empty YAML tag is not allowed")),
        2 => (serde_yaml::to_string(&Variant("", "", 1)).err(), Some("empty YAML tag is not allowed")),
        3 => (serde_yaml::to_string(&Variant("", "", 2)).err(), Some("empty YAML tag is not allowed")),
        4 => (serde_yaml::to_value(Variant("", "", 0)).err(), Some("empty YAML tag is not allowed")),
        5 => (serde_yaml::to_value(Variant("", "", 1)).err(), Some("empty YAML tag is not allowed")),
        6 => (serde_yaml::to_value(Variant("", "", 2)).err(), Some("empty YAML tag is not allowed")),
        7 => (serde_yaml::to_string(&Variant("a", "b", 0)).err(), Some("serializing nested enums in YAML is not supported yet")),
        8 => (serde_yaml::to_string(&Variant("a", "b", 1)).err(), None),
        9 => (serde_yaml::to_string(&Variant("a", "b", 2)).err(), None),
        10 => ("x".parse::<serde_yaml::Number>().err(), Some("failed to parse YAML number")),
        11 => (serde_yaml::from_str::<Value>("a\n---\nb").err(), Some("deserializing from YAML containing more than one document is not supported")),
        12 => (serde_yaml::from_str::<u8>("").err(), Some("EOF while parsing a value")),
        13 => (serde_yaml::from_str::<Value>("[*a]").err(), Some("unknown anchor at line 1 column 2")),
        14 => (serde_yaml::from_str::<Value>(&"[".repeat(200)).err(), None),
        15..=20 => {
            let (text, want) = [
                ("<<: a", Some("expected a mapping or list of mappings for merging, but found scalar")),
                ("<<: !t {}", Some("unexpected tagged value in merge")),
                ("<<: [a]", Some("expected a mapping for merging, but found scalar")),
                ("<<: [[]]", Some("expected a mapping for merging, but found sequence")),
                ("<<: [!t {}]", Some("unexpected tagged value in merge")),
                ("<<: [{}]", None),
            ][ch.choose(6)];
            (serde_yaml::from_str::<Value>(text).expect("a mapping").apply_merge().err(), want)
        }
        _ => unreachable!(),
    };
    if let Some(e) = &e {
        cx.state(&e.to_string());
        told(cx, "others", e);
        if want.is_some() || e.to_string().contains("nested") {
            let got = e.to_string();
            if Some(&got[..]) != want {
                cx.fail(format!("others {want:?}"), format!("{got:?} instead of {want:?}"));
            }
        }
    } else if let Some(w) = want {
        cx.fail(format!("others {w}"), "no error");
    }
}

/// Text, what the parser says of it, where; what it was at, since where.
type Broken = (&'static [u8], &'static str, Result<(usize, usize), usize>, &'static str, (usize, usize));
const BROKEN: [Broken; 25] = [
    (b"[", "did not find expected node content", Ok((2, 1)), "while parsing a flow node", (2, 1)),
    (b"a: [b\n", "did not find expected ',' or ']'", Ok((2, 1)), "while parsing a flow sequence", (1, 4)),
    (b"- a\n b: c: d\n", "mapping values are not allowed in this context", Ok((2, 3)), "", (1, 1)),
    (b"@", "found character that cannot start any token", Ok((1, 1)), "while scanning for the next token", (1, 1)),
    (b"a:\n  @", "found character that cannot start any token", Ok((2, 3)), "while scanning for the next token", (2, 3)),
    (b"a: 'b\n", "found unexpected end of stream", Ok((2, 1)), "while scanning a quoted scalar", (1, 4)),
    (b"\"\\q\"", "found unknown escape character", Ok((1, 2)), "while parsing a quoted scalar", (1, 1)),
    (b"a: \"\\xZZ\"", "did not find expected hexadecimal number", Ok((1, 7)), "while parsing a quoted scalar", (1, 4)),
    (b"%FOO 1\n", "found unknown directive name", Ok((1, 5)), "while scanning a directive", (1, 1)),
    (b"a: b\n- c\n", "did not find expected key", Ok((2, 1)), "while parsing a block mapping", (1, 1)),
    (b"- a\nb\n", "could not find expected ':'", Ok((3, 1)), "while scanning a simple key", (2, 1)),
    (b"{a: b]", "did not find expected ',' or '}'", Ok((1, 6)), "while parsing a flow mapping", (1, 1)),
    (b"a: |9x\n", "did not find expected comment or line break", Ok((1, 6)), "while scanning a block scalar", (1, 4)),
    (b"\xff", "invalid leading UTF-8 octet", Err(0), "", (1, 1)),
    (b"a: \xff", "invalid leading UTF-8 octet", Err(3), "", (1, 1)),
    (b"a: \0", "control characters are not allowed", Err(3), "", (1, 1)),
    (b"\xc3\xa9: \xc3", "incomplete UTF-8 octet sequence", Err(4), "", (1, 1)),
    (b"!<x y", "did not find the expected '>'", Ok((1, 4)), "while scanning a tag", (1, 1)),
    (b"&", "did not find expected alphabetic or numeric character", Ok((1, 2)), "while scanning an anchor", (1, 1)),
    (b"k: *", "did not find expected alphabetic or numeric character", Ok((1, 5)), "while scanning an alias", (1, 4)),
    (b"? a\n? b\n : c\n  d: e\n", "did not find expected key", Ok((3, 2)), "while parsing a block mapping", (1, 1)),
    (b"%YAML 2.0\n---\n", "found incompatible YAML document", Ok((1, 1)), "", (1, 1)),
    (b"[a\n]: &\n", "mapping values are not allowed in this context", Ok((2, 2)), "", (1, 1)),
    (b"x: [1, 2\ny: 3", "did not find expected ',' or ']'", Ok((2, 2)), "while parsing a flow sequence", (1, 4)),
    (b"- - a\n  b", "could not find expected ':'", Ok((3, 1)), "while scanning a simple key", (2, 3)),
];

/// Known breaches of the grammar, below so many lines of comment.
fn broken(ch: &mut Ch, cx: &mut Cx) {
    let (text, problem, at, context, since) = *ch.pick(&BROKEN);
    let above = *ch.pick(&[0, 1, 2, 100, 5000]);
    cx.state(&(text, above));
    let mut d = "# \u{e9}\n".repeat(above).into_bytes();
    d.extend_from_slice(text);
    let line = |(l, c): (usize, usize)| if (l + above, c) == (1, 1) { String::new() } else { format!(" at line {} column {c}", l + above) };
    let mut want = problem.to_owned();
    match at {
        Ok(at) => want += &line(at),
        Err(0) if above == 0 => {}
        Err(i) => want += &format!(" at position {}", i + 5 * above),
    }
    if !context.is_empty() {
        want += &format!(", {context}");
        if at != Ok(since) {
            want += &line(since);
        }
    }
    let what = format!("{:?} below {above} lines", String::from_utf8_lossy(text));
    says(cx, what.clone(), serde_yaml::from_slice::<Value>(&d).err(), Some(want.clone()));
    says(cx, what.clone(), serde_yaml::from_reader::<_, Value>(&d[..]).err(), Some(want.clone()));
    if let Ok(s) = std::str::from_utf8(&d) {
        says(cx, what.clone(), serde_yaml::from_str::<IgnoredAny>(s).err(), Some(want.clone()));
    }
    let first = serde_yaml::Deserializer::from_slice(&d).map(Value::deserialize).find_map(Result::err);
    says(cx, what, first, Some(want));
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(family(
        "nothing fits",
        format!("every leaf of the wide alphabet and 4 collections, bare or under one or two tags, asked for in {} ways by a visitor that takes nothing, from owned and borrowed Value and in 4 places of a text: the whole message", ASKS.len()),
        nothing_fits,
    ));
    let max = tier.pick(40, 140);
    f.push(family(
        "lengths",
        format!("taking 0 to {max} of 0 to {max} elements or entries, block or flow, text, owned and borrowed Value: the numbers in the message"),
        move |ch, cx| lengths(ch, cx, max),
    ));
    f.push(family("fields", "up to 3 keys of 6: unknown, double and missing fields, double entries", fields));
    f.push(family("twice", "every leaf of the wide alphabet and 4 other keys given twice, at 3 places, at the root and nested", twice));
    f.push(family("variants", "6 names of a variant, 4 ways to write or hold them", variants));
    let n = tier.pick(4, 5);
    f.push(family(
        "own words",
        format!("every message of at most {n} of 10 pieces given by a Serialize or Deserialize implementation"),
        move |ch, cx| words(ch, cx, n),
    ));
    f.push(family("others", "the remaining kinds of failure, one by one", others));
    f.push(family(
        "broken",
        format!("{} breaches of the grammar below 0 to 5000 lines of comment, from text, bytes, reader and iterator: the whole message", BROKEN.len()),
        broken,
    ));
    let docs = corpus::all();
    let targets = types::all();
    let two = tier.pick(12, 40);
    f.push(family(
        "forms",
        format!("{} documents, whole, cut anywhere or with one or two of 9 bytes put in anywhere, at most {two} apart, as {} types: text, Debug form and location", docs.len(), targets.len()),
        move |ch, cx| {
            let d = ch.pick(&docs).clone();
            let mut d = d;
            let at = ch.choose(d.len() + 1);
            match ch.choose(11) {
                0 => {}
                1 => d.truncate(at),
                i => {
                    d.insert(at, b"[}:\"\n\t@\xff\0"[i - 2]);
                    // another byte close behind
                    match ch.choose(10) {
                        0 => {}
                        j => d.insert((at + 1 + ch.choose(two)).min(d.len()), b"[}:\"\n\t@\xff\0"[j - 1]),
                    }
                }
            }
            cx.state(&d);
            for t in &targets {
                if let Some(e) = (t.error)(&d) {
                    cx.step(1);
                    told(cx, &format!("{} {:?}", t.name, String::from_utf8_lossy(&d)), &e);
                }
            }
        },
    ));
    f
}
