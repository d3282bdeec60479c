//! C19: errors point at the offending node and name its path.

use crate::big;
use crate::explore::*;
use crate::text::{self, locate, Opts, Step, Written, K, N};
use crate::tree::*;
use serde::de::{self, DeserializeSeed, EnumAccess, Error as _, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_yaml::Value;
use std::fmt;

/// How a node on the way is asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
    Any,
    Exact,
    Opt,
    New,
    Struct,
    Enum,
}
const HOWS: [How; 6] = [How::Any, How::Exact, How::Opt, How::New, How::Struct, How::Enum];

/// What the offending node is asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ask {
    I64,
    U128,
    Bool,
    F64,
    Unit,
    Str,
    Char,
    Seq,
    Tuple,
    Map,
    Struct,
    Enum,
    /// the variant is known, its content does not fit
    Payload,
    Opt,
    New,
    /// the visitor accepts nothing
    RefuseAny,
    RefuseExact,
    /// the visitor reads everything and then refuses
    RefuseAfter,
    RefuseSome,
    RefuseNew,
    RefuseNewAfter,
    /// leaves the last element or entry unread
    Short,
}
use Ask::*;
const ASKS: [Ask; 22] = [
    I64, U128, Bool, F64, Unit, Str, Char, Seq, Tuple, Map, Struct, Enum, Payload, Opt, New, RefuseAny, RefuseExact, RefuseAfter, RefuseSome, RefuseNew,
    RefuseNewAfter, Short,
];

/// Whether the node certainly does not fit, and how the complaint starts.
fn misfit(n: &N, ask: Ask) -> Option<&'static str> {
    let scalar = !matches!(n.k, K::Seq(_) | K::Map(_));
    Some(match (ask, &n.k) {
        (_, K::Alias(_)) => unreachable!("resolved"),
        (I64 | U128 | Bool | F64 | Opt | New, K::Str(_) | K::Seq(_) | K::Map(_)) => "invalid type: ",
        (I64 | U128 | Bool | F64 | New, K::Null) => "invalid type: ",
        (Bool, K::Int(_)) => "invalid type: ",
        (Unit, K::Str(_) | K::Int(_)) => "invalid value: ",
        (Unit, K::Seq(_) | K::Map(_)) => "invalid type: ",
        (Str | Char, K::Seq(_) | K::Map(_)) => "invalid type: ",
        (Char, K::Str(s)) if s.chars().count() != 1 => "invalid value: ",
        (Seq | Tuple, K::Map(_)) => "invalid type: ",
        (Map | Struct, K::Seq(_)) => "invalid type: ",
        (Seq | Tuple | Map | Struct, K::Str(s)) if !s.is_empty() => "invalid type: ",
        (Seq | Tuple | Map | Struct, K::Int(_) | K::Null) => "invalid type: ",
        (Enum, _) if n.tag.is_some() || scalar => "unknown variant ",
        (Enum, _) => "invalid type: ",
        (Payload, K::Str(_) | K::Seq(_) | K::Map(_)) if n.tag.is_some() => "invalid type: ",
        (Payload, K::Str(s)) if n.tag.is_none() && !s.is_empty() => "invalid type: unit variant, expected newtype variant",
        (RefuseAny | RefuseExact | RefuseAfter | RefuseNew | RefuseNewAfter, _) => "NO",
        (RefuseSome, K::Str(s)) if !s.is_empty() => "NO",
        (RefuseSome, K::Int(_) | K::Seq(_) | K::Map(_)) => "NO",
        (Short, K::Seq(v)) if !v.is_empty() => "invalid length ",
        (Short, K::Map(v)) if !v.is_empty() => "invalid length ",
        _ => return None,
    })
}

/// The content of a node, following an alias.
fn resolve<'a>(root: &'a N, n: &'a N) -> &'a N {
    fn find<'a>(n: &'a N, a: &str) -> Option<&'a N> {
        if n.anchor.as_deref() == Some(a) {
            return Some(n);
        }
        match &n.k {
            K::Seq(v) => v.iter().find_map(|e| find(e, a)),
            K::Map(v) => v.iter().find_map(|(k, e)| find(k, a).or_else(|| find(e, a))),
            _ => None,
        }
    }
    match &n.k {
        K::Alias(a) => find(root, a).expect("defined"),
        _ => n,
    }
}

/// Goes down a path and asks there for something that does not fit.
#[derive(Clone, Copy)]
struct Poke<'a> {
    root: &'a N,
    node: &'a N,
    path: &'a [Step],
    hows: &'a [How],
    at: usize,
    how: How,
    ask: Ask,
    /// read the siblings before, or skip them
    read: bool,
}

impl<'a> Poke<'a> {
    fn new(root: &'a N, path: &'a [Step], hows: &'a [How], ask: Ask, read: bool) -> Poke<'a> {
        Poke { root, node: root, path, hows, at: 0, how: hows[0], ask, read }
    }
    fn into(self, n: &'a N) -> Poke<'a> {
        let at = self.at + 1;
        Poke { node: resolve(self.root, n), at, how: self.hows[at % self.hows.len()], ..self }
    }
    fn inner(self) -> Poke<'a> {
        Poke { how: if self.how == How::Any { How::Any } else { How::Exact }, ..self }
    }
    fn step(&self) -> Step {
        self.path[self.at]
    }
}

struct Skip(bool);
impl<'de> DeserializeSeed<'de> for Skip {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        if self.0 {
            Value::deserialize(d).map(|_| ())
        } else {
            IgnoredAny::deserialize(d).map(|_| ())
        }
    }
}

impl<'de> DeserializeSeed<'de> for Poke<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let map = matches!(self.node.k, K::Map(_));
        if self.at == self.path.len() {
            let f = Fussy { ask: self.ask, node: self.node, after: false };
            return match self.ask {
                I64 => i64::deserialize(d).map(|_| ()),
                U128 => u128::deserialize(d).map(|_| ()),
                Bool => bool::deserialize(d).map(|_| ()),
                F64 => f64::deserialize(d).map(|_| ()),
                Unit => <()>::deserialize(d),
                Str => String::deserialize(d).map(|_| ()),
                Char => char::deserialize(d).map(|_| ()),
                Seq => Vec::<IgnoredAny>::deserialize(d).map(|_| ()),
                Tuple => <(IgnoredAny, IgnoredAny, IgnoredAny)>::deserialize(d).map(|_| ()),
                Map => std::collections::BTreeMap::<String, IgnoredAny>::deserialize(d).map(|_| ()),
                Struct => d.deserialize_struct("S", &["f"], OnlyMap),
                Enum | Payload => d.deserialize_enum("E", &["nope"], f),
                Opt => Option::<i64>::deserialize(d).map(|_| ()),
                New => d.deserialize_newtype_struct("N", f),
                RefuseAny => d.deserialize_any(f),
                RefuseExact | Short => match &self.node.k {
                    K::Seq(_) => d.deserialize_seq(f),
                    K::Map(_) => d.deserialize_map(f),
                    K::Int(_) => d.deserialize_i32(f),
                    K::Str(_) => d.deserialize_string(f),
                    _ => d.deserialize_any(f),
                },
                RefuseAfter => d.deserialize_any(Fussy { after: true, ..f }),
                RefuseSome => d.deserialize_option(f),
                RefuseNew | RefuseNewAfter => d.deserialize_newtype_struct("N", Fussy { after: self.ask == RefuseNewAfter, ..f }),
            };
        }
        let mut how = self.how;
        if how == How::Enum && self.node.tag.is_none() {
            how = How::Exact;
        }
        match (how, map) {
            (How::Any, _) => d.deserialize_any(self),
            (How::Exact, false) => d.deserialize_seq(self),
            (How::Exact, true) => d.deserialize_map(self),
            (How::Struct, false) => d.deserialize_tuple_struct("S", 3, self),
            (How::Struct, true) => d.deserialize_struct("S", &["k"], self),
            (How::Opt, _) => d.deserialize_option(self),
            (How::New, _) => d.deserialize_newtype_struct("N", self),
            (How::Enum, _) => d.deserialize_enum("E", &["t"], self),
        }
    }
}

impl<'de> Visitor<'de> for Poke<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the node on the way")
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.inner().deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.inner().deserialize(d)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant::<String>()?;
        v.newtype_variant_seed(self.inner())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let (K::Seq(v), Step::Idx(i)) = (&self.node.k, self.step()) else { panic!("not the path") };
        for _ in 0..i {
            a.next_element_seed(Skip(self.read))?.expect("an element");
        }
        a.next_element_seed(self.into(&v[i]))?;
        while a.next_element::<IgnoredAny>()?.is_some() {}
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let K::Map(v) = &self.node.k else { panic!("not the path") };
        let (i, key) = match self.step() {
            Step::Key(i) => (i, true),
            Step::Val(i) => (i, false),
            Step::Idx(_) => panic!("not the path"),
        };
        for _ in 0..i {
            a.next_key_seed(Skip(self.read))?.expect("an entry");
            a.next_value_seed(Skip(self.read))?;
        }
        if key {
            a.next_key_seed(self.into(&v[i].0))?;
            a.next_value::<IgnoredAny>()?;
        } else {
            a.next_key_seed(Skip(self.read))?;
            a.next_value_seed(self.into(&v[i].1))?;
        }
        while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
        Ok(())
    }
}

/// A struct all of whose fields are ignored.
struct OnlyMap;
impl<'de> Visitor<'de> for OnlyMap {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
        Ok(())
    }
}

struct Fussy<'a> {
    ask: Ask,
    node: &'a N,
    after: bool,
}

struct Variant(Ask);
impl<'de> DeserializeSeed<'de> for Variant {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Variant {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a variant")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        match self.0 {
            Enum => Err(E::unknown_variant(v, &["nope"])),
            _ => Ok(()),
        }
    }
}

impl<'de> Visitor<'de> for Fussy<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("something else")
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<(), E> {
        Err(E::custom("NO"))
    }
    fn visit_i64<E: de::Error>(self, _: i64) -> Result<(), E> {
        Err(E::custom("NO"))
    }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<(), E> {
        Err(E::custom("NO"))
    }
    fn visit_f64<E: de::Error>(self, _: f64) -> Result<(), E> {
        Err(E::custom("NO"))
    }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<(), E> {
        Err(E::custom("NO"))
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        Err(E::custom("NO"))
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        Err(E::custom("NO"))
    }
    fn visit_some<D: Deserializer<'de>>(self, _: D) -> Result<(), D::Error> {
        Err(D::Error::custom("NO"))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.ask {
            New => bool::deserialize(d).map(|_| ()),
            _ => {
                if self.after {
                    Value::deserialize(d)?;
                }
                Err(D::Error::custom("NO"))
            }
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if self.ask == Short {
            let K::Seq(v) = &self.node.k else { panic!() };
            for _ in 1..v.len() {
                a.next_element::<IgnoredAny>()?;
            }
            return Ok(());
        }
        while self.after && a.next_element::<Value>()?.is_some() {}
        Err(A::Error::custom("NO"))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if self.ask == Short {
            let K::Map(v) = &self.node.k else { panic!() };
            for _ in 1..v.len() {
                a.next_entry::<Value, Value>()?;
            }
            return Ok(());
        }
        while self.after && a.next_entry::<Value, IgnoredAny>()?.is_some() {}
        Err(A::Error::custom("NO"))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        match self.ask {
            Enum | Payload => {
                let ((), v) = a.variant_seed(Variant(self.ask))?;
                v.newtype_variant::<bool>().map(|_| ())
            }
            _ if self.after => {
                let (_, v) = a.variant::<String>()?;
                v.newtype_variant::<Value>()?;
                Err(A::Error::custom("NO"))
            }
            _ => Err(A::Error::custom("NO")),
        }
    }
}

/// What the message calls the node; None inside of keys, where nothing is promised.
fn path_name(root: &N, path: &[Step]) -> Option<String> {
    let mut s = String::new();
    let mut n = root;
    for (depth, p) in path.iter().enumerate() {
        n = resolve(root, n);
        match (p, &n.k) {
            (Step::Idx(i), K::Seq(v)) => {
                if depth == 0 {
                    s.push('.');
                }
                s.push_str(&format!("[{i}]"));
                n = &v[*i];
            }
            (Step::Val(i), K::Map(v)) => {
                if depth > 0 {
                    s.push('.');
                }
                match &v[*i].0.k {
                    K::Str(k) => s.push_str(k),
                    K::Seq(_) | K::Map(_) | K::Alias(_) => s.push('?'),
                    _ => return None,
                }
                n = &v[*i].1;
            }
            _ => return None,
        }
    }
    Some(s)
}

/// The path to where the content of a node stands in the text, aliases followed.
fn home(root: &N, path: &[Step]) -> Vec<Step> {
    fn find(n: &N, a: &str, at: &mut Vec<Step>) -> bool {
        if n.anchor.as_deref() == Some(a) {
            return true;
        }
        match &n.k {
            K::Seq(v) => v.iter().enumerate().any(|(i, e)| {
                at.push(Step::Idx(i));
                find(e, a, at) || {
                    at.pop();
                    false
                }
            }),
            K::Map(v) => v.iter().enumerate().any(|(i, (k, e))| {
                at.push(Step::Key(i));
                if find(k, a, at) {
                    return true;
                }
                at.pop();
                at.push(Step::Val(i));
                find(e, a, at) || {
                    at.pop();
                    false
                }
            }),
            _ => false,
        }
    }
    let mut n = root;
    let mut at = vec![];
    for p in path {
        match (p, &n.k) {
            (Step::Idx(i), K::Seq(v)) => n = &v[*i],
            (Step::Key(i), K::Map(v)) => n = &v[*i].0,
            (Step::Val(i), K::Map(v)) => n = &v[*i].1,
            _ => panic!("not a path"),
        }
        at.push(*p);
        if let K::Alias(a) = &n.k {
            n = resolve(root, n);
            at.clear();
            assert!(find(root, a, &mut at));
        }
    }
    at
}

/// Every node, as reached from the root, aliases followed.
fn places(root: &N) -> Vec<(Vec<Step>, &N)> {
    fn go<'a>(root: &'a N, n: &'a N, at: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, &'a N)>) {
        let n = resolve(root, n);
        out.push((at.clone(), n));
        let mut sub = |s: Step, e: &'a N| {
            at.push(s);
            go(root, e, at, out);
            at.pop();
        };
        match &n.k {
            K::Seq(v) => v.iter().enumerate().for_each(|(i, e)| sub(Step::Idx(i), e)),
            K::Map(v) => v.iter().enumerate().for_each(|(i, (k, e))| {
                sub(Step::Key(i), k);
                sub(Step::Val(i), e);
            }),
            _ => {}
        }
    }
    let mut out = vec![];
    go(root, root, &mut vec![], &mut out);
    out
}

fn loc(e: &serde_yaml::Error) -> Option<(usize, usize, usize)> {
    e.location().map(|l| (l.index(), l.line(), l.column()))
}

/// All misfits of one node of one text.
fn poke(cx: &mut Cx, root: &N, w: &Written, path: &[Step], node: &N, hows: &[How], seed: usize) {
    let want = w.at(&home(root, path)).expect("marked");
    let name = path_name(root, path);
    for (j, ask) in ASKS.into_iter().enumerate() {
        let Some(says) = misfit(node, ask) else { continue };
        // through an Any or Enum parent the tag has been taken off the root of the node only
        let p = Poke::new(root, path, hows, ask, (seed + j) % 2 == 0);
        let r = match (seed + j) % 3 {
            0 => p.deserialize(serde_yaml::Deserializer::from_str(&w.text)),
            1 => p.deserialize(serde_yaml::Deserializer::from_slice(w.text.as_bytes())),
            _ => p.deserialize(serde_yaml::Deserializer::from_reader(w.text.as_bytes())),
        };
        cx.step(1);
        let shown = |want: (usize, usize, usize)| if (want.1, want.2) == (1, 1) { String::new() } else { format!(" at line {} column {}", want.1, want.2) };
        // a newtype's own complaint about an alias may be at the alias
        let direct = path.split_last().filter(|_| matches!(ask, RefuseNew | RefuseNewAfter)).and_then(|(last, up)| {
            let mut site = home(root, up);
            site.push(*last);
            w.at(&site)
        });
        let ok = match &r {
            Ok(()) => false,
            Err(e) => {
                let msg = e.to_string();
                let head = match &name {
                    Some(_) if path.is_empty() => msg.starts_with(says),
                    // is not told from the root
                    Some(n) if n == "." && msg.starts_with(says) => true,
                    Some(n) => msg.strip_prefix(n.as_str()).and_then(|m| m.strip_prefix(": ")).is_some_and(|m| m.starts_with(says)),
                    None => msg.contains(says),
                };
                let fits = |want| {
                    let at = shown(want);
                    loc(e) == Some(want) && msg.ends_with(&at) && (!at.is_empty() || !msg.contains(" at line "))
                };
                head && (fits(want) || direct.is_some_and(fits))
            }
        };
        cx.outcome(match ask {
            RefuseAny | RefuseExact | RefuseAfter | RefuseSome | RefuseNew | RefuseNewAfter => "refused by the visitor",
            Short => "wrong length",
            Enum | Payload => "wrong variant",
            _ => "wrong type",
        });
        if ok {
            cx.trace();
        } else {
            let key = if ask == Enum && node.tag.is_some() && r.as_ref().is_err_and(|e| left_to_parent(root, w, path, e)) {
                "unknown variant in a tag is left to the enclosing node".to_owned()
            } else {
                format!("{ask:?} {path:?} {hows:?} {:?}", w.text)
            };
            cx.fail(
                key,
                format!(
                    "{:?}, {ask:?} at {path:?} on the way {hows:?}: {:?} located {:?}; it starts at {want:?}, its path is {name:?}",
                    w.text,
                    r.as_ref().map_err(|e| e.to_string()),
                    r.as_ref().err().and_then(loc)
                ),
            );
        }
    }
}

/// The recorded defect: the variant named by a tag is unknown, and the place reported is that of
/// the enclosing node, of the alias, or none at the root.
fn left_to_parent(root: &N, w: &Written, path: &[Step], e: &serde_yaml::Error) -> bool {
    let msg = e.to_string();
    let up = &path[..path.len().saturating_sub(1)];
    let named = |p: &[Step]| match path_name(root, p) {
        Some(_) if p.is_empty() => msg.starts_with("unknown variant "),
        Some(n) => msg.starts_with(&format!("{n}: unknown variant ")),
        None => msg.contains("unknown variant "),
    };
    match loc(e) {
        None => path.is_empty() && root.tag.as_ref().is_some_and(|t| msg == format!("unknown variant `{}`, expected `nope`", &t[1..])),
        Some(at) => {
            // a key is asked for under the name of its mapping
            !path.is_empty() && Some(at) == w.at(&home(root, up)) && named(up) || Some(at) == w.at(path) && named(path)
        }
    }
}

fn s(v: &str) -> N {
    N::plain(K::Str(v.into()))
}
fn seq(v: Vec<N>) -> N {
    N::plain(K::Seq(v))
}
fn map(v: Vec<(N, N)>) -> N {
    N::plain(K::Map(v))
}
fn anchored(a: &str, n: N) -> N {
    N { anchor: Some(a.into()), ..n }
}
fn alias(a: &str) -> N {
    N::plain(K::Alias(a.into()))
}
fn tagd(t: &str, n: N) -> N {
    N { tag: Some(format!("!{t}")), ..n }
}

fn opts() -> Opts {
    Opts {
        // nothing marks where an omitted node starts
        empty_nulls: false,
        ..Opts::all()
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let sizes = tier.pick([(3, 2), (4, 1), (6, 0)], [(4, 2), (5, 1), (7, 0)]);
    for (i, (nodes, dev)) in sizes.into_iter().enumerate() {
        f.push(family(
            ["small trees", "trees", "plain trees"][i],
            format!("every tree of at most {nodes} nodes over 3 leaves and one tag, in every presentation making at most {dev} departures from the plainest, every node of it, up to 22 kinds of misfit"),
            move |ch, cx| {
                let g = Gen::new(vec![T::Null, T::Int(1), st("a b")], &["t"]);
                let t = g.tree(ch, nodes);
                if t.has_dup_keys() {
                    return;
                }
                let n = N::of(&t);
                ch.set_budget(dev);
                let w = text::write(ch, &n, opts());
                cx.state(&w.text);
                cx.case.clone_from(&w.text);
                let seed = hash_of(&w.text) as usize;
                for (k, (path, node)) in places(&n).into_iter().enumerate() {
                    let h = [HOWS[(seed + k) % 6], HOWS[(seed / 6 + k) % 6]];
                    poke(cx, &n, &w, &path, node, &h, seed);
                }
                cx.sample(|| format!("{:?}", w.text));
            },
        ));
    }
    f.push(family(
        "ways",
        "17 documents in their plainest presentation, every node, up to 22 kinds of misfit, reached in every pair of 6 ways of asking for what is above it",
        |ch, cx| {
            let docs = docs();
            let n = ch.pick(&docs).clone();
            let h = [*ch.pick(&HOWS), *ch.pick(&HOWS)];
            let w = text::write(&mut Ch::new(vec![]), &n, opts());
            cx.state(&(&w.text, format!("{h:?}")));
            cx.case = format!("{h:?} {}", w.text);
            for seed in 0..2 {
                for (path, node) in places(&n) {
                    poke(cx, &n, &w, &path, node, &h, seed);
                }
            }
        },
    ));
    let dev = tier.pick(2, 3);
    f.push(family(
        "documents",
        format!("17 documents with aliases, tags, mapping keys and wide characters, in every presentation making at most {dev} departures, every node, up to 22 kinds of misfit"),
        move |ch, cx| {
            let docs = docs();
            let n = ch.pick(&docs).clone();
            ch.set_budget(dev);
            let w = text::write(ch, &n, opts());
            cx.state(&w.text);
            cx.case.clone_from(&w.text);
            let seed = hash_of(&w.text) as usize;
            for (k, (path, node)) in places(&n).into_iter().enumerate() {
                let h = [HOWS[(seed + k) % 6], HOWS[(seed / 6 + k) % 6]];
                poke(cx, &n, &w, &path, node, &h, seed);
            }
        },
    ));
    let len = tier.pick(5, 6);
    f.push(family(
        "syntax",
        format!("every string of up to {len} of 22 tokens: an error's line and column are those of its byte index, which lies inside the input, however the input comes"),
        move |ch, cx| {
            let toks = [
                "a", "\n", " ", "-", "- ", ":", ": ", "?", "[", "]", "{", "}", ",", "\"", "'", "|", "&a", "*b", "!", "é", "\r\n", "#",
            ];
            let n = ch.range(1, len);
            let text: String = (0..n).map(|_| ch.word(&toks)).collect();
            errors(cx, &text);
        },
    ));
    let len = tier.pick(4, 5);
    f.push(family(
        "syntax in context",
        format!("every string of up to {len} of 16 tokens inserted in the middle of 4 documents with several lines and wide characters"),
        move |ch, cx| {
            let toks = ["\n", " ", "\t", "- ", ": ", "]", "}", ",", "\"", "'", "*b", "!<", "%", "@", "\u{2028}", "&"];
            let around = [("é: [1,\n  2", "]\nb: c\n"), ("- a\n- é\n", "- b\n"), ("a:\n  - \"x é\n  y\n  ", "z\"\nb: c"), ("x: |\n  é\n  b\n", "\ny: z\n")];
            let (a, b) = *ch.pick(&around);
            let n = ch.range(1, len);
            let mid: String = (0..n).map(|_| ch.word(&toks)).collect();
            errors(cx, &format!("{a}{mid}{b}"));
        },
    ));
    let dev = tier.pick(2, 3);
    f.push(family(
        "unknown anchors",
        format!("6 documents with one alias to nothing at each of their leaves, in every presentation making at most {dev} departures: located at the alias"),
        move |ch, cx| {
            let docs = docs();
            let mut n = docs[ch.choose(6)].clone();
            let spots = leaves(&n);
            let at = ch.pick(&spots).clone();
            *get(&mut n, &at) = alias("nowhere");
            ch.set_budget(dev);
            let w = text::write(ch, &n, opts());
            let want = w.at(&at).expect("marked");
            cx.state(&w.text);
            cx.case.clone_from(&w.text);
            let say = if (want.1, want.2) == (1, 1) { "unknown anchor".into() } else { format!("unknown anchor at line {} column {}", want.1, want.2) };
            let rs = [
                serde_yaml::from_str::<Value>(&w.text).map(|_| ()),
                serde_yaml::from_slice::<IgnoredAny>(w.text.as_bytes()).map(|_| ()),
                serde_yaml::from_reader::<_, IgnoredAny>(w.text.as_bytes()).map(|_| ()),
            ];
            cx.step(3);
            for r in rs {
                match r {
                    Err(e) if e.to_string() == say && loc(&e) == Some(want) => cx.trace(),
                    // reading stops at something before it
                    r => cx.fail(w.text.clone(), format!("{:?}: {:?} located {:?}, the alias starts at {want:?}", w.text, r.as_ref().map_err(|e| e.to_string()), r.as_ref().err().and_then(loc))),
                }
            }
        },
    ));
    f.push(family(
        "too deep",
        "spines of 129..132 levels mixing two kinds, 3 line layouts: located at the 129th level",
        |ch, cx| {
            let kinds = [("[", "]"), ("{k: ", "}"), ("!t [", "]"), ("[é,\n", "]"), ("{? ", " : v}")];
            let (a, b) = (*ch.pick(&kinds), *ch.pick(&kinds));
            let n = ch.range(129, 132);
            let lead = ch.word(&["", "# é\n\n", "--- \n"]);
            let mut text = lead.to_owned();
            let mut at = 0;
            for i in 0..n {
                if i == 128 {
                    at = text.len();
                }
                text.push_str([a, b][i % 2].0);
            }
            text.push('x');
            for i in (0..n).rev() {
                text.push_str([a, b][i % 2].1);
            }
            cx.state(&text);
            cx.case.clone_from(&text);
            let want = locate(&text, at);
            let r = serde_yaml::from_str::<Value>(&text);
            cx.step(1);
            match r {
                Err(e) if loc(&e) == Some(want) && e.to_string() == format!("recursion limit exceeded at line {} column {}", want.1, want.2) => cx.trace(),
                r => cx.fail(text.clone(), format!("{text:?}: {:?}, should be at {want:?}", r.map_err(|e| (e.to_string(), loc(&e))))),
            }
        },
    ));
    let n = big::lengths(tier);
    f.push(family(
        "names",
        format!("keys of 31 unusual contents and of 3 kinds of character at {} lengths up to {}, in 6 documents, block and flow: every node, up to 22 kinds of misfit", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let odd = [
                "", " ", "a.b", ".", "..", "[0]", "a[1].b", "?", "a: b", "é", "€uro", "\u{1F600}", "1", "-1", "1.5", "true", "~", "null", "it's", "say \"x\"", "a\\b", "a\nb", "a\n", "\n", "\t", "#", "<<", "!t",
                "&a", "*a", "two words",
            ];
            let c = ch.choose(odd.len() + 3);
            let key = if c < odd.len() { odd[c].to_owned() } else { ["k", "é", "k."][c - odd.len()].repeat(*ch.pick(&n)) };
            let k = || s(&key);
            let v = || s("leaf");
            let node = match ch.choose(6) {
                0 => map(vec![(k(), v())]),
                1 => map(vec![(s("first"), v()), (k(), seq(vec![v(), map(vec![(k(), v())])])), (s("last"), v())]),
                2 => seq(vec![map(vec![(k(), map(vec![(s("in"), v())]))]), v()]),
                3 => map(vec![(anchored("a", k()), tagd("t", v())), (seq(vec![alias("a")]), v())]),
                4 => map(vec![(s("x"), anchored("a", map(vec![(k(), v())]))), (k(), alias("a"))]),
                _ => tagd("t", map(vec![(k(), tagd("u", seq(vec![v()])))])),
            };
            let w = if ch.flag() { one_line(&node) } else { big::plain(&node) };
            cx.state(&w.text);
            cx.case.clone_from(&w.text);
            for (i, (path, n)) in places(&node).into_iter().enumerate() {
                let seed = key.len() + i;
                poke(cx, &node, &w, &path, n, &[HOWS[seed % 6], HOWS[(seed / 6) % 6]], seed);
            }
        },
    ));
    let n = big::few_sizes(tier);
    f.push(family(
        "many",
        format!("20 kinds of wide document and 10 with a long scalar or name, at {} sizes up to {}, block and flow: the first, middle and last nodes at the top and their insides, up to 22 kinds of misfit", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let kind = ch.choose(big::WIDES + big::LONGS);
            if [16, 21, 22].contains(&kind) {
                return; // anchors defined anew
            }
            let size = *ch.pick(&n);
            let node = if kind < big::WIDES { big::wide(kind, size) } else { big::long(kind - big::WIDES, size) };
            let block = big::plain(&node);
            let w = if ch.flag() { one_line(&node) } else { block };
            cx.state(&w.text);
            cx.case = format!("kind {kind} size {size}");
            let top = match &node.k {
                K::Seq(v) => v.len(),
                K::Map(v) => v.len(),
                _ => 0,
            };
            let near = |i: usize| [0, 1, top / 2, top.wrapping_sub(2), top.wrapping_sub(1)].contains(&i);
            let h = [HOWS[size % 6], HOWS[(size / 6) % 6]];
            let mut inside = 0;
            for (k, (path, n)) in some_places(&node, &near).into_iter().enumerate() {
                inside += 1;
                poke(cx, &node, &w, &path, n, &h, size + k);
                if inside > 60 {
                    break;
                }
            }
        },
    ));
    f.push(family(
        "deep",
        format!("towers of every pair of 8 kinds of level, {} of 1 to 124 levels, block and flow: nodes at 4 depths, up to 22 kinds of misfit", tier.pick("20 sizes", "every number")),
        move |ch, cx| {
            let word = big::word(ch);
            let all: Vec<usize> = (1..=124).collect();
            let few = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 123, 124];
            let d = *ch.pick(tier.pick(&few[..], &all[..]));
            // a level may be two, with its tag
            let node = big::tower(&word, d, s("leaf"));
            let w = if ch.flag() { one_line(&node) } else { big::plain(&node) };
            cx.state(&w.text);
            cx.case = format!("{word:?} {d}");
            // a newtype is a level of its own
            let pick = |i: usize| if d > 60 && HOWS[i % 6] == How::New { How::Struct } else { HOWS[i % 6] };
            let h = [pick(d), pick(d / 6)];
            let places = places(&node);
            let deepest = places.iter().map(|p| p.0.len()).max().unwrap();
            for (k, (path, n)) in places.iter().enumerate() {
                let l = path.len();
                if [0, 1, deepest / 2, deepest].contains(&l) {
                    poke(cx, &node, &w, path, n, &h, d + k);
                }
            }
        },
    ));
    f
}

/// Any error of this text has a consistent location, whichever way it comes.
fn errors(cx: &mut Cx, text: &str) {
    cx.state(text);
    cx.case = text.to_owned();
    let r = [
        serde_yaml::from_str::<Vec<Vec<u8>>>(text).err(),
        serde_yaml::from_slice::<Vec<Vec<u8>>>(text.as_bytes()).err(),
        serde_yaml::from_reader::<_, Vec<Vec<u8>>>(text.as_bytes()).err(),
    ];
    cx.step(3);
    let d = r.each_ref().map(|e| e.as_ref().map(|e| (e.to_string(), loc(e))));
    if d[0] != d[1] || d[0] != d[2] {
        cx.fail(text.to_owned(), format!("{text:?}: {d:?}"));
        return;
    }
    let Some((msg, at)) = &d[0] else {
        cx.outcome("read");
        return;
    };
    match at {
        None => {
            cx.outcome("without location");
            let fine = ["EOF while parsing a value", "deserializing from YAML containing more than one document is not supported", "repetition limit exceeded"];
            if !fine.contains(&msg.as_str()) {
                cx.fail(text.to_owned(), format!("{text:?}: {msg:?} without a location"));
                return;
            }
        }
        Some(at) => {
            cx.outcome("located");
            // the end of a last line that is not ended counts as the start of the next
            let fine = |at: (usize, usize, usize)| {
                let l = locate(text, at.0);
                l == at || at.0 == text.len() && at == (l.0, l.1 + 1, 1)
            };
            if at.0 > text.len() || !text.is_char_boundary(at.0) || !fine(*at) {
                cx.fail(text.to_owned(), format!("{text:?}: {msg:?} located {at:?}"));
                return;
            }
        }
    }
    cx.trace();
}

fn leaves(n: &N) -> Vec<Vec<Step>> {
    places(n).into_iter().filter(|(p, n)| !p.is_empty() && !matches!(n.k, K::Seq(_) | K::Map(_))).map(|e| e.0).collect()
}
fn get<'a>(n: &'a mut N, path: &[Step]) -> &'a mut N {
    let Some((p, rest)) = path.split_first() else { return n };
    match (p, &mut n.k) {
        (Step::Idx(i), K::Seq(v)) => get(&mut v[*i], rest),
        (Step::Key(i), K::Map(v)) => get(&mut v[*i].0, rest),
        (Step::Val(i), K::Map(v)) => get(&mut v[*i].1, rest),
        _ => panic!("not a path"),
    }
}

fn docs() -> Vec<N> {
    let t = |t: T| N::of(&t);
    vec![
        // without aliases
        seq(vec![s("é"), seq(vec![s("x y"), map(vec![(s("k"), s("v")), (s("é€"), seq(vec![s("w")]))])])]),
        map(vec![(s("a"), map(vec![(s("b c"), map(vec![(s("d"), seq(vec![s("e"), s("f g")]))]))])), (s("z"), s("l1\nl2\n"))]),
        map(vec![(seq(vec![s("k"), s("l")]), s("v")), (map(vec![(s("m"), s("n"))]), map(vec![(s("o"), s("p"))]))]),
        tagd("t", seq(vec![tagd("u", map(vec![(s("a"), tagd("v", s("b")))])), tagd("w", s("c d")), t(T::Int(5))])),
        seq(vec![s("text\nwith\n\nlines\n"), seq(vec![]), map(vec![]), s(""), t(T::Null), t(T::Int(1))]),
        map(vec![(s("a.b"), seq(vec![seq(vec![seq(vec![s("x")])])])), (s("[0]"), map(vec![(s(""), s("y z"))]))]),
        // with
        seq(vec![anchored("a", s("x y")), alias("a"), seq(vec![alias("a"), alias("a")])]),
        seq(vec![anchored("a", seq(vec![s("x"), map(vec![(s("k"), s("v w"))])])), alias("a"), map(vec![(s("p"), alias("a"))])]),
        map(vec![(s("d"), anchored("a", map(vec![(s("x"), anchored("b", seq(vec![s("é"), s("y")])))]))), (s("e"), alias("a")), (s("f"), alias("b"))]),
        map(vec![(anchored("k", s("key")), s("v")), (s("o"), alias("k"))]),
        seq(vec![anchored("k", s("key")), map(vec![(alias("k"), seq(vec![s("v w")]))])]),
        seq(vec![anchored("a", tagd("t", seq(vec![s("x"), s("y")]))), map(vec![(s("q"), tagd("u", seq(vec![alias("a")])))])]),
        seq(vec![anchored("a", seq(vec![s("x")])), anchored("b", seq(vec![alias("a"), s("z")])), seq(vec![alias("b")])]),
        anchored("root", tagd("t", seq(vec![anchored("e", s("x")), anchored("f", s("")), alias("e")]))),
        // below keys that are no strings
        map(vec![(s("d"), anchored("a", seq(vec![s("x"), map(vec![(s("k"), s("v w"))])]))), (seq(vec![s("p")]), alias("a")), (map(vec![(s("q"), s("r"))]), seq(vec![alias("a")])), (s("e"), map(vec![(seq(vec![]), alias("a"))]))]),
        seq(vec![anchored("k", seq(vec![s("p"), s("q")])), map(vec![(alias("k"), s("x")), (s("l"), alias("k"))]), map(vec![(alias("k"), map(vec![(map(vec![]), alias("k"))]))])]),
        map(vec![(anchored("k", seq(vec![s("p")])), anchored("v", tagd("t", seq(vec![s("é"), s("x")])))), (map(vec![(s("m"), alias("v"))]), alias("v")), (s("n"), tagd("u", map(vec![(alias("k"), alias("v"))])))]),
    ]
}

/// Written as flow text on one line, with the same marks.
fn one_line(n: &N) -> Written {
    let mut w = Written { text: String::new(), marks: vec![] };
    fn put(n: &N, at: &mut Vec<Step>, w: &mut Written) {
        w.marks.push((at.clone(), w.text.len()));
        let head = N { k: K::Null, ..n.clone() };
        if !matches!(n.k, K::Alias(_)) {
            let t = big::flow(&head);
            w.text.push_str(t.strip_suffix('~').expect("null"));
        }
        match &n.k {
            K::Seq(v) => {
                w.text.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        w.text.push_str(", ");
                    }
                    at.push(Step::Idx(i));
                    put(e, at, w);
                    at.pop();
                }
                w.text.push(']');
            }
            K::Map(v) => {
                w.text.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        w.text.push_str(", ");
                    }
                    w.text.push_str("? ");
                    at.push(Step::Key(i));
                    put(k, at, w);
                    at.pop();
                    w.text.push_str(" : ");
                    at.push(Step::Val(i));
                    put(e, at, w);
                    at.pop();
                }
                w.text.push('}');
            }
            k => w.text.push_str(&big::flow(&N::plain(k.clone()))),
        }
    }
    put(n, &mut vec![], &mut w);
    w
}

/// The nodes within some of the children of the root, aliases followed.
fn some_places<'a>(root: &'a N, near: &dyn Fn(usize) -> bool) -> Vec<(Vec<Step>, &'a N)> {
    let mut out = vec![(vec![], root)];
    let mut sub = |s: Step, e: &'a N| {
        let e = resolve(root, e);
        out.push((vec![s], e));
        let mut deeper = |t: Step, f: &'a N| out.push((vec![s, t], resolve(root, f)));
        match &e.k {
            K::Seq(v) => v.iter().enumerate().filter(|(i, _)| *i < 2 || i + 1 == v.len()).for_each(|(i, f)| deeper(Step::Idx(i), f)),
            K::Map(v) => v.iter().enumerate().filter(|(i, _)| *i < 2 || i + 1 == v.len()).for_each(|(i, (k, f))| {
                deeper(Step::Key(i), k);
                deeper(Step::Val(i), f);
            }),
            _ => {}
        }
    };
    match &root.k {
        K::Seq(v) => v.iter().enumerate().filter(|(i, _)| near(*i)).for_each(|(i, e)| sub(Step::Idx(i), e)),
        K::Map(v) => v.iter().enumerate().filter(|(i, _)| near(*i)).for_each(|(i, (k, e))| {
            sub(Step::Key(i), k);
            sub(Step::Val(i), e);
        }),
        _ => {}
    }
    out
}
