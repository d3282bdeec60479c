//! C22: ignoring content neither changes the rest nor hides an error.

use crate::big::{self, content};
use crate::explore::*;
use crate::props::c09;
use crate::text::{self, Opts, K, N};
use crate::tree::*;
use crate::types::{self, Enm, Out, Point, Target};
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_yaml::{value::TaggedValue, Value};
use std::collections::BTreeMap;
use std::fmt;

/// What to do with each node: skip it, or read it and expect this.
#[derive(Clone, Debug, Hash)]
enum Plan {
    Skip,
    Leaf(T),
    Seq(Vec<Plan>),
    Map(Vec<(Plan, Plan)>),
    Tag(String, Box<Plan>),
}

fn hole() -> T {
    st("\u{1}skipped")
}

impl Plan {
    /// Every choice of nodes to skip.
    fn choose(ch: &mut Ch, t: &T) -> Plan {
        if ch.flag() {
            return Plan::Skip;
        }
        match t {
            T::Seq(v) => Plan::Seq(v.iter().map(|e| Plan::choose(ch, e)).collect()),
            T::Map(v) => Plan::Map(
                v.iter()
                    .map(|(k, e)| {
                        let k = Plan::choose(ch, k);
                        (k, Plan::choose(ch, e))
                    })
                    .collect(),
            ),
            T::Tag(t, v) => Plan::Tag(t.clone(), Box::new(Plan::choose(ch, v))),
            t => Plan::Leaf(t.clone()),
        }
    }
    fn all(t: &T) -> Plan {
        match t {
            T::Seq(v) => Plan::Seq(v.iter().map(Plan::all).collect()),
            T::Map(v) => Plan::Map(v.iter().map(|(k, e)| (Plan::all(k), Plan::all(e))).collect()),
            T::Tag(t, v) => Plan::Tag(t.clone(), Box::new(Plan::all(v))),
            t => Plan::Leaf(t.clone()),
        }
    }
    fn want(&self) -> T {
        match self {
            Plan::Skip => hole(),
            Plan::Leaf(t) => t.clone(),
            Plan::Seq(v) => T::Seq(v.iter().map(Plan::want).collect()),
            Plan::Map(v) => T::Map(v.iter().map(|(k, e)| (k.want(), e.want())).collect()),
            Plan::Tag(t, v) => T::Tag(t.clone(), Box::new(v.want())),
        }
    }
    fn skips(&self) -> bool {
        match self {
            Plan::Skip => true,
            Plan::Leaf(_) => false,
            Plan::Seq(v) => v.iter().any(Plan::skips),
            Plan::Map(v) => v.iter().any(|(k, e)| k.skips() || e.skips()),
            Plan::Tag(_, v) => v.skips(),
        }
    }
}

#[derive(Clone, Copy)]
struct Take<'a> {
    plan: &'a Plan,
    /// ask for the kind of node that is there rather than for anything
    exact: bool,
    /// ask for one more after the last
    drain: bool,
}

impl<'de> DeserializeSeed<'de> for Take<'_> {
    type Value = T;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<T, D::Error> {
        match self.plan {
            Plan::Skip => IgnoredAny::deserialize(d).map(|_| hole()),
            _ if !self.exact => d.deserialize_any(self),
            Plan::Leaf(T::Null) => d.deserialize_unit(self),
            Plan::Leaf(T::Bool(_)) => d.deserialize_bool(self),
            Plan::Leaf(T::Int(_)) => d.deserialize_i64(self),
            Plan::Leaf(T::Float(_)) => d.deserialize_f64(self),
            Plan::Leaf(_) => d.deserialize_str(self),
            Plan::Seq(v) => d.deserialize_tuple(v.len(), self),
            Plan::Map(_) => d.deserialize_map(self),
            Plan::Tag(..) => d.deserialize_enum("E", &["t"], self),
        }
    }
}

impl<'de> Visitor<'de> for Take<'_> {
    type Value = T;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.plan)
    }
    fn visit_bool<E>(self, b: bool) -> Result<T, E> {
        Ok(T::Bool(b))
    }
    fn visit_i64<E>(self, i: i64) -> Result<T, E> {
        Ok(T::Int(i as i128))
    }
    fn visit_u64<E>(self, i: u64) -> Result<T, E> {
        Ok(T::Int(i as i128))
    }
    fn visit_f64<E>(self, v: f64) -> Result<T, E> {
        Ok(T::Float(v))
    }
    fn visit_str<E>(self, s: &str) -> Result<T, E> {
        Ok(st(s))
    }
    fn visit_unit<E>(self) -> Result<T, E> {
        Ok(T::Null)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<T, A::Error> {
        let Plan::Seq(v) = self.plan else { return Err(de::Error::custom("a sequence?")) };
        let mut r = vec![];
        for plan in v {
            match a.next_element_seed(Take { plan, ..self })? {
                Some(t) => r.push(t),
                None => return Err(de::Error::custom("an element is missing")),
            }
        }
        while self.drain && r.len() < v.len() + 3 {
            match a.next_element::<IgnoredAny>()? {
                // asking again finds nothing again
                None => {
                    assert!(a.next_element::<IgnoredAny>()?.is_none(), "there is no more");
                    break;
                }
                Some(_) => r.push(st("\u{1}too many")),
            }
        }
        Ok(T::Seq(r))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<T, A::Error> {
        let Plan::Map(v) = self.plan else { return Err(de::Error::custom("a mapping?")) };
        let mut r = vec![];
        for (k, e) in v {
            match a.next_key_seed(Take { plan: k, ..self })? {
                Some(k) => r.push((k, a.next_value_seed(Take { plan: e, ..self })?)),
                None => return Err(de::Error::custom("an entry is missing")),
            }
        }
        if self.drain {
            while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
                r.push((st("\u{1}too many"), T::Null));
            }
            assert!(a.next_key::<IgnoredAny>()?.is_none(), "there is no more");
        }
        Ok(T::Map(r))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<T, A::Error> {
        let Plan::Tag(_, p) = self.plan else { return Err(de::Error::custom("a tag?")) };
        let (t, v) = a.variant::<String>()?;
        let v = match (&**p, self.exact) {
            (Plan::Seq(p_), true) => v.tuple_variant(p_.len(), Take { plan: p, ..self })?,
            (Plan::Map(_), true) => v.struct_variant(&["a"], Take { plan: p, ..self })?,
            _ => v.newtype_variant_seed(Take { plan: p, ..self })?,
        };
        Ok(T::Tag(t, Box::new(v)))
    }
}

/// Reads the text with part of it skipped, every way there is.
fn masked(cx: &mut Cx, text: &str, plan: &Plan) {
    let want = plan.want();
    cx.state(&(text, plan));
    cx.case = format!("{text:?} {plan:?}");
    let value = serde_yaml::from_str::<Value>(text).ok();
    for way in 0..5 {
        for (exact, drain) in [(false, false), (true, true)] {
            let p = Take { plan, exact, drain };
            let got = match way {
                0 => p.deserialize(serde_yaml::Deserializer::from_str(text)),
                1 => p.deserialize(serde_yaml::Deserializer::from_slice(text.as_bytes())),
                2 => p.deserialize(serde_yaml::Deserializer::from_reader(text.as_bytes())),
                _ => match (&value, way) {
                    (None, _) => continue, // duplicate keys
                    (Some(v), 3) => p.deserialize(v),
                    (Some(v), _) => p.deserialize(v.clone()),
                },
            };
            cx.step(1);
            match got {
                Ok(t) if t.same(&want) => cx.trace(),
                r => cx.fail(
                    format!("{text:?} {plan:?} {way} {exact}"),
                    format!("{text:?} by {} read as {:?}, should be {want:?}", ["str", "slice", "reader", "&Value", "Value"][way], r.map_err(|e| e.to_string())),
                ),
            }
        }
    }
    cx.outcome(if plan.skips() { "with something skipped" } else { "all read" });
}

fn s(t: &str) -> N {
    N::plain(K::Str(t.into()))
}
fn int(i: i128) -> N {
    N::plain(K::Int(i))
}
fn seq(v: Vec<N>) -> N {
    N::plain(K::Seq(v))
}
fn map(v: Vec<(N, N)>) -> N {
    N::plain(K::Map(v))
}
fn alias(a: &str) -> N {
    N::plain(K::Alias(a.into()))
}
fn anchored(a: &str, n: N) -> N {
    N { anchor: Some(a.into()), ..n }
}
fn tagd(t: &str, n: N) -> N {
    N { tag: Some(format!("!{t}")), ..n }
}

/// Things to skip.
fn junk() -> Vec<N> {
    let j = |n: N| anchored("j", n);
    vec![
        int(1),
        s(""),
        s("a\nb\n\n c\n"),
        s("text # no comment"),
        N::plain(K::Null),
        seq(vec![]),
        map(vec![]),
        j(seq(vec![])),
        seq(vec![seq(vec![seq(vec![int(1), s("x: y")]), map(vec![])]), s("multi\nline\n")]),
        map(vec![(s("x"), int(1)), (s("y"), s("2")), (s("x"), s("again")), (s("zz"), int(3))]),
        map(vec![(seq(vec![int(1)]), map(vec![(map(vec![(s("a"), int(1))]), seq(vec![]))])), (N::plain(K::Null), N::plain(K::Null))]),
        tagd("t", int(1)),
        tagd("St", map(vec![(s("x"), tagd("u", seq(vec![tagd("v", s("w"))])))])),
        tagd("!null", s("no null")),
        tagd("!int", s("x")),
        seq(vec![anchored("p", s("q")), alias("p"), map(vec![(alias("p"), alias("p"))])]),
        anchored("p", seq(vec![int(9), alias("p")])),
        seq(vec![anchored("k", seq(vec![anchored("l", s("x")), alias("l")])), alias("k"), alias("l")]),
        map(vec![(s("<<"), map(vec![(s("x"), int(9))])), (s("<<"), int(1))]),
        map(vec![(anchored("k", s("key")), alias("k")), (alias("k"), int(1))]),
        int(170141183460469231731687303715884105727),
        s("99999999999999999999999999999999999999999999"),
    ]
}

/// Each document with a hole at "@"; what is read of it does not depend on what is there.
fn typed() -> Vec<(N, Vec<Target>)> {
    let h = || s("@");
    let pt = |v: Vec<(&str, N)>| map(v.into_iter().map(|(k, e)| (s(k), e)).collect());
    let t = types::target::<Point>;
    vec![
        (pt(vec![("zz", h()), ("x", int(1)), ("y", s("a"))]), vec![t("Point"), types::target::<(IgnoredAny,)>("refused")]),
        (pt(vec![("x", int(1)), ("zz", h()), ("y", s("a"))]), vec![t("Point")]),
        (pt(vec![("x", int(1)), ("y", s("a")), ("zz", h())]), vec![t("Point")]),
        (pt(vec![("u", h()), ("x", int(1)), ("v", h()), ("y", s("a")), ("w", h())]), vec![t("Point")]),
        (map(vec![(s("x"), int(1)), (int(7), h()), (seq(vec![int(1)]), int(8))]), vec![t("refused: keys of structs are strings")]),
        (
            seq(vec![pt(vec![("x", int(1)), ("zz", h())]), pt(vec![("zz", h()), ("x", int(2))])]),
            vec![types::target::<Vec<Point>>("Vec<Point>"), types::target::<(Point, Point)>("(Point, Point)"), types::target::<[Point; 2]>("[Point; 2]")],
        ),
        (
            pt(vec![("a", pt(vec![("zz", h()), ("x", int(1))])), ("b", pt(vec![("x", int(2)), ("zz", h())]))]),
            vec![types::target::<BTreeMap<String, Point>>("BTreeMap<String, Point>"), types::target::<BTreeMap<String, Option<Point>>>("BTreeMap<String, Option<Point>>")],
        ),
        (tagd("St", pt(vec![("zz", h()), ("x", int(1)), ("y", tagd("New", int(2)))])), vec![types::target::<Enm>("Enm"), types::target::<Option<Enm>>("Option<Enm>")]),
        (
            seq(vec![tagd("St", pt(vec![("x", int(1)), ("zz", h())])), s("A"), tagd("Tup", seq(vec![int(1), s("b")]))]),
            vec![types::target::<Vec<Enm>>("Vec<Enm>"), types::target::<(Enm, Enm, Enm)>("(Enm, Enm, Enm)")],
        ),
        (seq(vec![h(), int(5)]), vec![types::target::<(IgnoredAny, i32)>("(_, i32)"), types::target::<(IgnoredAny, Value)>("(_, Value)")]),
        (seq(vec![h(), int(5), h()]), vec![types::target::<(IgnoredAny, u8, IgnoredAny)>("(_, u8, _)"), types::target::<Vec<IgnoredAny>>("Vec<_>")]),
        (seq(vec![h(), h()]), vec![types::target::<(IgnoredAny, IgnoredAny)>("(_, _)"), types::target::<[IgnoredAny; 3]>("refused")]),
        (seq(vec![h(), seq(vec![s("a"), tagd("t", N::plain(K::Null))]), int(1)]), vec![types::target::<(IgnoredAny, Vec<Value>, i32)>("(_, Vec<Value>, i32)")]),
        (seq(vec![h(), pt(vec![("x", int(1)), ("zz", h())]), s("end")]), vec![types::target::<(IgnoredAny, Point, String)>("(_, Point, String)")]),
        (pt(vec![("a", h()), ("b", h())]), vec![types::target::<BTreeMap<String, IgnoredAny>>("BTreeMap<String, _>")]),
        (map(vec![(h(), int(1)), (s("x"), int(2))]), vec![types::target::<BTreeMapVals>("values")]),
        (tagd("t", h()), vec![types::target::<TagOnly>("tag")]),
        (h(), vec![types::target::<IgnoredAny>("_")]),
    ]
}

/// The values of a mapping whose keys are ignored and whose first value is an integer.
#[derive(Debug)]
struct BTreeMapVals(#[allow(dead_code)] Vec<i32>);
impl<'de> Deserialize<'de> for BTreeMapVals {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = BTreeMapVals;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a mapping")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<BTreeMapVals, A::Error> {
                let mut r = vec![];
                while let Some((IgnoredAny, v)) = a.next_entry()? {
                    r.push(v);
                }
                Ok(BTreeMapVals(r))
            }
        }
        d.deserialize_map(V)
    }
}

/// A tag whose content is ignored.
#[derive(Debug)]
struct TagOnly(#[allow(dead_code)] String);
impl<'de> Deserialize<'de> for TagOnly {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = TagOnly;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a tag")
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<TagOnly, A::Error> {
                let (t, v) = a.variant::<String>()?;
                v.newtype_variant::<IgnoredAny>()?;
                Ok(TagOnly(t))
            }
        }
        d.deserialize_any(V)
    }
}

fn fill(n: &N, with: &N) -> N {
    let k = match &n.k {
        K::Str(t) if t == "@" => {
            let mut w = with.clone();
            if let Some(t) = &n.tag {
                w.tag = Some(t.clone());
            }
            return w;
        }
        K::Seq(v) => K::Seq(v.iter().map(|e| fill(e, with)).collect()),
        K::Map(v) => K::Map(
            v.iter()
                .map(|(k, e)| {
                    let k = fill(k, with);
                    (k, fill(e, with))
                })
                .collect(),
        ),
        k => k.clone(),
    };
    N { k, ..n.clone() }
}

fn has(n: &N, f: &dyn Fn(&N) -> bool) -> bool {
    f(n) || match &n.k {
        K::Seq(v) => v.iter().any(|e| has(e, f)),
        K::Map(v) => v.iter().any(|(k, e)| has(k, f) || has(e, f)),
        _ => false,
    }
}

fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Ok(a), Out::Ok(b)) => a == b,
        (Out::Err(..), Out::Err(..)) => true,
        _ => false,
    }
}

/// Takes some of the elements or entries there are.
#[derive(Clone, Copy, Debug)]
struct Some_ {
    take: usize,
    how: usize,
    /// after the elements, ask for one more
    more: bool,
    ignore: bool,
}
const SHORT: [&str; 7] = ["any", "seq or map", "tuple", "tuple struct or struct", "tuple or struct variant", "newtype", "option"];

impl<'de> DeserializeSeed<'de> for Some_ {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        // 0..7 on sequences, 10..17 on mappings
        match self.how {
            0 | 10 => d.deserialize_any(self),
            1 => d.deserialize_seq(self),
            2 => d.deserialize_tuple(self.take, self),
            3 => d.deserialize_tuple_struct("S", self.take, self),
            11 | 12 => d.deserialize_map(self),
            13 => d.deserialize_struct("S", &["k"], self),
            4 | 14 => d.deserialize_enum("E", &["t"], self),
            5 | 15 => d.deserialize_newtype_struct("N", self),
            _ => d.deserialize_option(self),
        }
    }
}
impl<'de> Visitor<'de> for Some_ {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("some of it")
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        Some_ { how: self.how / 10 * 10 + 1, ..self }.deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        Some_ { how: self.how / 10 * 10 + 1, ..self }.deserialize(d)
    }
    fn visit_unit<E>(self) -> Result<usize, E> {
        Ok(0)
    }
    fn visit_none<E>(self) -> Result<usize, E> {
        Ok(0)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<usize, A::Error> {
        let mut n = 0;
        while n < self.take {
            let got = if self.ignore { a.next_element::<IgnoredAny>()?.is_some() } else { a.next_element::<Value>()?.is_some() };
            if !got {
                break;
            }
            n += 1;
        }
        if self.more && a.next_element::<IgnoredAny>()?.is_some() {
            n += 1;
        }
        Ok(n)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<usize, A::Error> {
        let mut n = 0;
        while n < self.take {
            let got = if self.ignore { a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() } else { a.next_entry::<Value, Value>()?.is_some() };
            if !got {
                break;
            }
            n += 1;
        }
        if self.more && a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
            n += 1;
        }
        Ok(n)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<usize, A::Error> {
        let (_, v) = a.variant::<String>()?;
        match self.how {
            4 => v.tuple_variant(self.take, self),
            14 => v.struct_variant(&["k"], self),
            _ => v.newtype_variant_seed(Some_ { how: self.how / 10 * 10 + 1, ..self }),
        }
    }
}

/// A sequence of: the collection partly taken, and what follows.
struct Outer(Some_, &'static str);
impl<'de> DeserializeSeed<'de> for Outer {
    type Value = (usize, T);
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        if self.1 == "mapping" {
            d.deserialize_map(self)
        } else {
            d.deserialize_seq(self)
        }
    }
}
impl<'de> Visitor<'de> for Outer {
    type Value = (usize, T);
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("both")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let n = a.next_element_seed(self.0)?.expect("first");
        let r = a.next_element::<Value>()?.expect("second");
        Ok((n, T::of(&r)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let n = a.next_key_seed(self.0)?.expect("first");
        let r = a.next_value::<Value>()?;
        Ok((n, T::of(&r)))
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let sizes = tier.pick([(3, 2), (4, 1), (6, 0)], [(4, 2), (5, 1), (7, 0)]);
    for (i, (nodes, dev)) in sizes.into_iter().enumerate() {
        f.push(family(
            ["small trees", "trees", "plain trees"][i],
            format!("every tree of at most {nodes} nodes over 3 leaves and one tag, in every presentation making at most {dev} departures from the plainest, every choice of nodes to skip, from 3 kinds of input and both kinds of Value, asking for anything or for what is there"),
            move |ch, cx| {
                let g = Gen::new(if dev == 0 { vec![T::Null, st("a")] } else { vec![T::Null, T::Int(1), st("a b")] }, &["t"]);
                let t = g.tree(ch, nodes);
                let plan = Plan::choose(ch, &t);
                ch.set_budget(dev);
                let w = text::write(ch, &N::of(&t), Opts::all());
                masked(cx, &w.text, &plan);
            },
        ));
    }
    let (lim, dev) = tier.pick((4, 1), (5, 1));
    f.push(family(
        "graphs",
        format!("every document of at most {lim} nodes over integers, two anchors on any node, aliases of both and a tag, in every presentation making at most {dev} departures, every choice of places to skip in what it stands for"),
        move |ch, cx| {
            let n = c09::graph(ch, lim, &mut 0, true).0;
            let Ok(x) = c09::expand(&n) else { return };
            let t = content(&x);
            let plan = Plan::choose(ch, &t);
            ch.set_budget(dev);
            let opts = Opts { markers: false, ..Opts::all() };
            let w = text::write(ch, &n, opts);
            masked(cx, &w.text, &plan);
        },
    ));
    let lim = tier.pick(5, 6);
    f.push(family(
        "bigger graphs",
        format!("every document of at most {lim} nodes over integers, two anchors on any node and aliases of both, every choice of places to skip"),
        move |ch, cx| {
            let n = c09::graph(ch, lim, &mut 0, false).0;
            let Ok(x) = c09::expand(&n) else { return };
            let t = content(&x);
            let plan = Plan::choose(ch, &t);
            let w = text::write(&mut Ch::new(vec![]), &n, Opts::all());
            masked(cx, &w.text, &plan);
        },
    ));
    let dev = tier.pick(2, 3);
    f.push(family(
        "typed",
        format!("18 documents with a place that their types ignore, filled with each of 22 nodes, in every presentation making at most {dev} departures: read like the plainest one with 0 there; also after a later alias"),
        move |ch, cx| {
            let docs = typed();
            let (doc, targets) = &docs[ch.choose(docs.len())];
            let all = junk();
            let j = ch.pick(&all).clone();
                        let n = fill(doc, &j);
            let none = fill(doc, &int(0));
            if has(doc, &|n| n.tag.is_some() && matches!(&n.k, K::Str(t) if t == "@")) && (j.tag.is_some() || matches!(j.k, K::Alias(_))) {
                return; // one tag each, and none on aliases
            }
            ch.set_budget(dev);
            let opts = Opts { anchors: false, ..Opts::all() };
            let (text, plain) = (text::write(ch, &n, opts).text, text::write(&mut Ch::new(vec![]), &none, opts).text);
            cx.state(&text);
            cx.case.clone_from(&text);
            for t in targets {
                let (want, got, value) = ((t.str)(&plain), (t.str)(&text), serde_yaml::from_str::<Value>(&text).ok());
                cx.step(2);
                let mut ok = same_out(&want, &got);
                if let Some(v) = value {
                    let (a, b) = ((t.value_ref)(&v), (t.value)(v));
                    cx.step(2);
                    ok &= same_out(&want, &a) && same_out(&want, &b);
                }
                if ok {
                    cx.trace();
                    cx.outcome(if got.is_ok() { "read" } else { "refused" });
                } else {
                    cx.fail(format!("{} {text:?}", t.name), format!("{text:?} as {}: {got:?}; with nothing special to skip {want:?}", t.name));
                }
            }
        },
    ));
    let most = tier.pick(4, 6);
    f.push(family(
        "lengths",
        format!("collections of 0..={most} of 5 kinds of elements, block or flow, plain, tagged, or by alias, of which a visitor takes 0..={}, asked for in 7 ways, ignoring or reading, with or without asking for one more, at the root, before something, or as a key: an error unless all are taken", most + 1),
        move |ch, cx| {
            let (n, take) = (ch.range(0, most), ch.range(0, most + 1));
            let of_map = ch.flag();
            let how = ch.choose(7);
            let place = ch.choose(4);
            let kind = ch.choose(5);
            let tag = if how == 4 { true } else { how != 1 && how != 2 && how != 3 && how != 5 && ch.flag() };
            let s_ = Some_ { take, how: how + if of_map { 10 } else { 0 }, more: ch.flag(), ignore: ch.flag() };
            let el = |i: usize| match kind {
                0 => int(i as i128),
                1 => seq(vec![int(i as i128), seq(vec![])]),
                2 => tagd("u", map(vec![(s("x"), int(i as i128))])),
                3 if i > 0 => alias("e"),
                3 => anchored("e", seq(vec![int(1)])),
                _ => s(&format!("line\n{i}\n")),
            };
            let mut c = if of_map { map((0..n).map(|i| (s(&format!("k{i}")), el(i))).collect()) } else { seq((0..n).map(el).collect()) };
            if tag {
                c.tag = Some("!t".into());
            }
            let flow = ch.flag();
            let tail = seq(vec![s("after"), map(vec![(int(1), int(2))])]);
            let doc = match place {
                0 => c,
                1 => seq(vec![c, tail.clone()]),
                2 => map(vec![(c, tail.clone())]),
                _ => seq(vec![anchored("z", c), alias("z")]),
            };
            let text = if flow { big::flow(&doc) } else { text::write(&mut Ch::new(vec![]), &doc, Opts::all()).text };
            cx.state(&(&text, take, how, s_.more, s_.ignore));
            cx.case = format!("{text:?} {s_:?}");
            let run = |way: usize| -> Option<Result<(usize, T), serde_yaml::Error>> {
                let de = || match way {
                    0 => serde_yaml::Deserializer::from_str(&text),
                    _ => serde_yaml::Deserializer::from_reader(text.as_bytes()),
                };
                let v = if way > 1 { Some(serde_yaml::from_str::<Value>(&text).ok()?) } else { None };
                let o = |k| Outer(s_, k);
                Some(match (place, way, &v) {
                    (0, 2, Some(v)) => s_.deserialize(v).map(|n| (n, T::Null)),
                    (0, 3, Some(v)) => s_.deserialize(v.clone()).map(|n| (n, T::Null)),
                    (0, ..) => s_.deserialize(de()).map(|n| (n, T::Null)),
                    (2, 2, Some(v)) => o("mapping").deserialize(v),
                    (2, 3, Some(v)) => o("mapping").deserialize(v.clone()),
                    (2, ..) => o("mapping").deserialize(de()),
                    (_, 2, Some(v)) => o("sequence").deserialize(v),
                    (_, 3, Some(v)) => o("sequence").deserialize(v.clone()),
                    _ => o("sequence").deserialize(de()),
                })
            };
            for way in 0..4 {
                let Some(got) = run(way) else { continue };
                cx.step(1);
                let all = take + s_.more as usize >= n;
                let ok = match &got {
                    Ok((m, t)) => {
                        all && *m == n
                            && match place {
                                0 => true,
                                3 => matches!((t, &doc.k), (t, K::Seq(_)) if t.same(&content(&c09::expand(&doc).ok().map(|x| match x.k { K::Seq(v) => v[1].clone(), _ => unreachable!() }).expect("fine")))),
                                _ => t.same(&content(&tail)),
                            }
                    }
                    Err(e) => !all && e.to_string().contains("invalid length"),
                };
                cx.outcome(if got.is_ok() { "taken" } else { "too short" });
                if ok {
                    cx.trace();
                } else {
                    cx.fail(
                        format!("{text:?} {s_:?} {place} {way}"),
                        format!("{text:?}, taking {take} of {n} as {}, {s_:?}, by {}: {:?}", SHORT[how], ["str", "reader", "&Value", "Value"][way], got.map_err(|e| e.to_string())),
                    );
                }
            }
        },
    ));
    let docs = tier.pick(3, 4);
    f.push(family(
        "documents",
        format!("every stream of up to {docs} of 12 documents, each read or skipped or left alone, from 3 kinds of input"),
        move |ch, cx| {
            let all = [
                "a", "[1, 2]", "{a: [b]}", "&x [1, *x]", "- &x 1\n- *x", "|\n  text\n  more", "!t {a: !u b}", "? [k]\n: v", "", "~", "\"q\\n\"", "[&x a, &x b, *x]",
            ];
            let n = ch.range(1, docs);
            let picks: Vec<(usize, usize)> = (0..n).map(|_| (ch.choose(all.len()), ch.choose(3))).collect();
            let text: String = picks.iter().map(|p| format!("---\n{}\n", all[p.0])).collect();
            cx.state(&(&text, &picks));
            cx.case = format!("{picks:?} {text:?}");
            for way in 0..3 {
                let de = match way {
                    0 => serde_yaml::Deserializer::from_str(&text),
                    1 => serde_yaml::Deserializer::from_slice(text.as_bytes()),
                    _ => serde_yaml::Deserializer::from_reader(text.as_bytes()),
                };
                let mut seen = 0;
                let mut ok = true;
                for (d, (i, what)) in de.zip(&picks) {
                    seen += 1;
                    cx.step(1);
                    ok &= match what {
                        0 => Out::of(Value::deserialize(d)) == Out::of(serde_yaml::from_str::<Value>(&format!("{}\n", all[*i]))) || all[*i].contains("*x]") && i == &3,
                        1 => IgnoredAny::deserialize(d).is_ok(),
                        _ => true,
                    };
                }
                if ok && seen == picks.len() {
                    cx.trace();
                } else {
                    cx.fail(format!("{picks:?} {way}"), format!("{text:?}, {picks:?}: {seen} documents, as expected: {ok}"));
                }
            }
        },
    ));
    let len = tier.pick(5, 6);
    f.push(family(
        "texts",
        format!("every string of up to {len} of 20 tokens: skipping it fails exactly when it cannot be loaded, with the same error as reading it; skipped inside of a sequence likewise"),
        move |ch, cx| {
            let toks = ["a", "\n", " ", "- ", ": ", "? ", "[", "]", "{", "}", ",", "\"", "'", "|", "&a ", "*a", "!t ", "#", "--- ", "0x1"];
            let n = ch.range(1, len);
            let text: String = (0..n).map(|_| ch.word(&toks)).collect();
            cx.state(&text);
            cx.case.clone_from(&text);
            let v = Out::of(serde_yaml::from_str::<Value>(&text));
            let g = serde_yaml::from_str::<IgnoredAny>(&text);
            let g = g.map_or_else(|e| Out::err(&e), |_| Out::Ok(String::new()));
            cx.step(2);
            let content = |m: &str| m.contains("duplicate entry") || m.starts_with("recursion limit") || m.starts_with("repetition limit");
            let ok = match (&v, &g) {
                (Out::Ok(_), Out::Ok(_)) => true,
                (Out::Err(m, _), Out::Ok(_)) => content(m),
                (Out::Err(m, _), Out::Err(..)) => v == g || content(m),
                (Out::Ok(_), Out::Err(..)) => false,
            };
            cx.outcome(if g.is_ok() { "skipped" } else { "refused" });
            if ok {
                cx.trace();
            } else {
                cx.fail(text.clone(), format!("{text:?} read: {v:?}, skipped: {g:?}"));
            }
        },
    ));
    f.push(family(
        "heavy content",
        "nests of 1..=1100 levels in 6 steps over 5 kinds of collection, alias bombs and long sequences, at 3 places beside something read: the limits do not apply to what is skipped",
        |ch, cx| {
            let kind = ch.choose(7);
            let size = *ch.pick(&[1usize, 126, 127, 128, 129, 1100]);
            let junk = match kind {
                0 => "[".repeat(size) + &"]".repeat(size),
                1 => "{a: ".repeat(size) + "b" + &"}".repeat(size),
                2 => "[{a: ".repeat(size) + "b" + &"}]".repeat(size),
                3 => "!t [".repeat(size) + &"]".repeat(size),
                4 => "{? ".repeat(size) + "x" + &"}".repeat(size),
                5 => {
                    let mut t = String::from("[&a0 [x, x, x]");
                    for i in 1..=size.min(40) {
                        t += &format!(", &a{i} [*a{0}, *a{0}, *a{0}, *a{0}]", i - 1);
                    }
                    t + "]"
                }
                _ => format!("[{}]", "a, ".repeat(size)),
            };
            let (text, of) = match ch.choose(3) {
                0 => (format!("[{junk}, {{x: 1}}]"), 0),
                1 => (format!("{{zz: {junk}, x: 1}}"), 1),
                _ => (format!("[{{x: 1, zz: {junk}}}, {junk}]"), 2),
            };
            cx.state(&text);
            cx.case = format!("{} {size} {of}", clip(&text, 60));
            let got = match of {
                0 => Out::of(serde_yaml::from_str::<(IgnoredAny, Point)>(&text).map(|p| p.1)),
                1 => Out::of(serde_yaml::from_str::<Point>(&text)),
                _ => Out::of(serde_yaml::from_str::<(Point, IgnoredAny)>(&text).map(|p| p.0)),
            };
            cx.step(1);
            if got == Out::Ok("Point { x: 1, y: None }".into()) {
                cx.trace();
            } else {
                cx.fail(format!("{kind} {size} {of}"), format!("{}: {got:?}", clip(&text, 100)));
            }
        },
    ));
    let n = big::sizes(tier);
    f.push(family(
        "many",
        format!("23 kinds of wide document, a third of them with anchors in number, and 10 with a long scalar or name, at {} sizes up to {}: 11 choices of the parts to skip, block and flow", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let kind = ch.choose(big::WIDES + big::LONGS);
            let n = *ch.pick(&n);
            let node = if kind < big::WIDES { big::wide(kind, n) } else { big::long(kind - big::WIDES, n) };
            let full = content(&c09::expand(&node).expect("fine"));
            let text = if ch.flag() { big::flow(&node) } else { big::plain(&node).text };
            if full.has_dup_keys() {
                return;
            }
            let plan = thin(&full, ch.choose(11));
            masked(cx, &text, &plan);
        },
    ));
    f.push(family(
        "deep",
        "towers of every pair of 8 kinds of level, 1 to 126 levels: at each level what follows is skipped, and beside it what else there is; something is read after it",
        |ch, cx| {
            let w = big::word(ch);
            let d = ch.range(1, 124);
            let node = seq(vec![big::tower(&w, d, s("leaf")), s("after")]);
            let full = content(&node);
            let text = if d % 2 == 0 { big::flow(&node) } else { big::plain(&node).text };
            let at = match ch.choose(5) {
                0 => 0,
                1 => d / 2,
                2 => d - 1,
                3 => d,
                _ => d * 2,
            };
            let sides = ch.flag();
            let T::Seq(v) = &full else { unreachable!() };
            let plan = Plan::Seq(vec![dig(&v[0], at, sides), Plan::all(&v[1])]);
            masked(cx, &text, &plan);
        },
    ));
    f
}

/// A choice of the children to skip.
fn thin(t: &T, way: usize) -> Plan {
    let n = match t {
        T::Seq(v) => v.len(),
        T::Map(v) => v.len(),
        _ => 0,
    };
    let skip = |i: usize| match way {
        0 => i == 0,
        1 => i == n / 2,
        2 => i + 1 == n,
        3 => i > 0,
        4 => i + 1 < n,
        5 => i != n / 2,
        6 => i % 2 == 0,
        7 => i < n / 2,
        8 => i >= n / 2,
        9 => i % 3 > 0,
        _ => false,
    };
    match t {
        T::Seq(v) => Plan::Seq(v.iter().enumerate().map(|(i, e)| if skip(i) { Plan::Skip } else { Plan::all(e) }).collect()),
        T::Map(v) => Plan::Map(
            v.iter()
                .enumerate()
                .map(|(i, (k, e))| match skip(i) {
                    true => (if i % 2 == 0 { Plan::Skip } else { Plan::all(k) }, Plan::Skip),
                    false => (Plan::all(k), Plan::all(e)),
                })
                .collect(),
        ),
        t => Plan::all(t),
    }
}

/// Skips the node this many levels down the tower; on the way its siblings too, or not.
fn dig(t: &T, at: usize, sides: bool) -> Plan {
    if at == 0 {
        return Plan::Skip;
    }
    let down = |e: &T| matches!(e, T::Seq(_) | T::Map(_) | T::Tag(..)) || matches!(e, T::Str(s) if s == "leaf");
    let side = |e: &T| if sides { Plan::Skip } else { Plan::all(e) };
    match t {
        T::Seq(v) => {
            let on = v.iter().rposition(down);
            Plan::Seq(v.iter().enumerate().map(|(i, e)| if Some(i) == on { dig(e, at - 1, sides) } else { side(e) }).collect())
        }
        T::Map(v) => Plan::Map(
            v.iter()
                .map(|(k, e)| match (down(k), down(e)) {
                    (true, _) => (dig(k, at - 1, sides), side(e)),
                    (_, true) => (Plan::all(k), dig(e, at - 1, sides)),
                    _ => (Plan::all(k), side(e)),
                })
                .collect(),
        ),
        T::Tag(n, v) => Plan::Tag(n.clone(), Box::new(dig(v, at, sides))),
        t => Plan::all(t),
    }
}
