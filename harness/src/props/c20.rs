//! C20: borrowed strings are exact slices of the input.

use crate::big;
use crate::explore::*;
use crate::text::{self, Opts, Step, K, N};
use crate::tree::*;
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_derive::Deserialize;
use serde_yaml::Value;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;

/// How a string is asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ask {
    Str,
    String,
    Identifier,
    Any,
    /// by the type &str itself
    Real,
    Option,
    Newtype,
}
const ASKS: [Ask; 7] = [Ask::Str, Ask::String, Ask::Identifier, Ask::Any, Ask::Real, Ask::Option, Ask::Newtype];

#[derive(Clone, Debug)]
enum Got<'de> {
    Lent(&'de str),
    Copied(String),
}
impl Got<'_> {
    fn text(&self) -> &str {
        match self {
            Got::Lent(s) => s,
            Got::Copied(s) => s,
        }
    }
}

/// Collects the strings of a document, keys first.
struct Collect<'a, 'de> {
    node: &'a N,
    root: &'a N,
    ask: Ask,
    /// ask for collections by kind
    exact: bool,
    out: &'a mut Vec<Got<'de>>,
}
impl<'a, 'de> Collect<'a, 'de> {
    fn on<'b>(&'b mut self, node: &'b N) -> Collect<'b, 'de> {
        Collect { node: target(self.root, node), root: self.root, ask: self.ask, exact: self.exact, out: self.out }
    }
}

fn target<'a>(root: &'a N, n: &'a N) -> &'a N {
    fn find<'a>(n: &'a N, a: &str) -> Option<&'a N> {
        if n.anchor.as_deref() == Some(a) {
            return Some(n);
        }
        match &n.k {
            K::Seq(v) => v.iter().find_map(|e| find(e, a)),
            K::Map(v) => v.iter().find_map(|(k, e)| find(k, a).or_else(|| find(e, a))),
            _ => None,
        }
    }
    match &n.k {
        K::Alias(a) => find(root, a).expect("defined"),
        _ => n,
    }
}

struct Lend;
impl<'de> Visitor<'de> for Lend {
    type Value = Got<'de>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a string")
    }
    fn visit_borrowed_str<E>(self, s: &'de str) -> Result<Got<'de>, E> {
        Ok(Got::Lent(s))
    }
    fn visit_str<E>(self, s: &str) -> Result<Got<'de>, E> {
        Ok(Got::Copied(s.to_owned()))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Got<'de>, D::Error> {
        d.deserialize_str(self)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Got<'de>, D::Error> {
        d.deserialize_str(self)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Got<'de>, A::Error> {
        let (_, v) = a.variant::<String>()?;
        v.newtype_variant_seed(Ask::Str)
    }
}
impl<'de> DeserializeSeed<'de> for Ask {
    type Value = Got<'de>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Got<'de>, D::Error> {
        match self {
            Ask::Str => d.deserialize_str(Lend),
            Ask::String => d.deserialize_string(Lend),
            Ask::Identifier => d.deserialize_identifier(Lend),
            Ask::Any => d.deserialize_any(Lend),
            Ask::Real => match <&str>::deserialize(d) {
                Ok(s) => Ok(Got::Lent(s)),
                Err(e) if e.to_string().contains("expected a borrowed string") => Ok(Got::Copied("\u{1}refused".into())),
                Err(e) => Err(e),
            },
            Ask::Option => d.deserialize_option(Lend),
            Ask::Newtype => d.deserialize_newtype_struct("N", Lend),
        }
    }
}

impl<'de> DeserializeSeed<'de> for Collect<'_, 'de> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match &self.node.k {
            _ if self.node.tag.is_some() && self.exact => d.deserialize_enum("E", &["t"], self),
            K::Seq(v) if self.exact => d.deserialize_tuple(v.len(), self),
            K::Map(_) if self.exact => d.deserialize_map(self),
            K::Seq(_) | K::Map(_) => d.deserialize_any(self),
            _ => {
                let got = self.ask.deserialize(d)?;
                self.out.push(got);
                Ok(())
            }
        }
    }
}
impl<'de> Visitor<'de> for Collect<'_, 'de> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the document")
    }
    fn visit_seq<A: SeqAccess<'de>>(mut self, mut a: A) -> Result<(), A::Error> {
        let K::Seq(v) = &self.node.k else { return Err(de::Error::custom("a sequence?")) };
        for e in v {
            a.next_element_seed(self.on(e))?;
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(mut self, mut a: A) -> Result<(), A::Error> {
        let K::Map(v) = &self.node.k else { return Err(de::Error::custom("a mapping?")) };
        for (k, e) in v {
            a.next_key_seed(self.on(k))?;
            a.next_value_seed(self.on(e))?;
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant::<String>()?;
        let bare = N { tag: None, ..self.node.clone() };
        match &bare.k {
            K::Seq(e) if self.exact => v.tuple_variant(e.len(), Collect { node: &bare, ..self }),
            K::Map(_) if self.exact => v.struct_variant(&[], Collect { node: &bare, ..self }),
            _ => v.newtype_variant_seed(Collect { node: &bare, ..self }),
        }
    }
}

/// The strings in the order they are collected, with the places where they stand.
fn leaves(root: &N) -> Vec<(Vec<Step>, String)> {
    fn go(root: &N, n: &N, at: Vec<Step>, out: &mut Vec<(Vec<Step>, String)>) {
        fn find(n: &N, a: &str, at: &mut Vec<Step>) -> bool {
            if n.anchor.as_deref() == Some(a) {
                return true;
            }
            let kids: Vec<(Step, &N)> = match &n.k {
                K::Seq(v) => v.iter().enumerate().map(|(i, e)| (Step::Idx(i), e)).collect(),
                K::Map(v) => v.iter().enumerate().flat_map(|(i, (k, e))| [(Step::Key(i), k), (Step::Val(i), e)]).collect(),
                _ => vec![],
            };
            kids.into_iter().any(|(s, e)| {
                at.push(s);
                find(e, a, at) || {
                    at.pop();
                    false
                }
            })
        }
        let step = |s: Step| {
            let mut a = at.clone();
            a.push(s);
            a
        };
        match &n.k {
            K::Seq(v) => v.iter().enumerate().for_each(|(i, e)| go(root, e, step(Step::Idx(i)), out)),
            K::Map(v) => v.iter().enumerate().for_each(|(i, (k, e))| {
                go(root, k, step(Step::Key(i)), out);
                go(root, e, step(Step::Val(i)), out);
            }),
            K::Alias(a) => {
                let mut home = vec![];
                assert!(find(root, a, &mut home));
                go(root, target(root, n), home, out)
            }
            K::Str(s) => out.push((at, s.clone())),
            _ => unreachable!("only strings"),
        }
    }
    let mut out = vec![];
    go(root, root, vec![], &mut out);
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Must {
    /// exactly here
    Lend(usize),
    Copy,
    /// if lent, then a slice of the node
    Either,
}

/// What has to happen to a scalar with this content whose node starts here.
fn must(text: &str, start: usize, value: &str) -> Must {
    let b = text.as_bytes();
    let mut i = start;
    // the properties
    loop {
        match b.get(i) {
            Some(b'&' | b'!') => {
                while i < b.len() && !b" \t\r\n".contains(&b[i]) && !text[i..].starts_with(['\u{85}', '\u{2028}', '\u{2029}']) {
                    i += 1;
                }
            }
            Some(b' ' | b'\t' | b'\r' | b'\n') => i += 1,
            Some(b'#') => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            _ if text[i..].starts_with(['\u{85}', '\u{2028}', '\u{2029}']) => i += text[i..].chars().next().unwrap().len_utf8(),
            _ => break,
        }
    }
    match b.get(i) {
        Some(b'|' | b'>') => Must::Copy,
        Some(q @ (b'"' | b'\'')) => {
            if text[i + 1..].starts_with(value) && b.get(i + 1 + value.len()) == Some(q) && !(*q == b'\'' && b.get(i + 2 + value.len()) == Some(q)) && !value.contains(['\r', '\n']) {
                Must::Lend(i + 1)
            } else {
                Must::Either
            }
        }
        _ if !value.is_empty() && text[i..].starts_with(value) && !value.contains(['\r', '\n']) => Must::Lend(i),
        _ => Must::Either,
    }
}

/// Reads the strings out of a text every way; `marks` are where the nodes start.
fn check(cx: &mut Cx, text: &str, n: &N, want: &[(usize, String)], asks: &[Ask]) {
    let base = text.as_ptr() as usize;
    for &ask in asks {
        for (way, exact) in [("str", false), ("slice", true), ("reader", false)] {
            let mut out = vec![];
            let c = Collect { node: target(n, n), root: n, ask, exact, out: &mut out };
            let r = match way {
                "str" => c.deserialize(serde_yaml::Deserializer::from_str(text)),
                "slice" => c.deserialize(serde_yaml::Deserializer::from_slice(text.as_bytes())),
                _ => c.deserialize(serde_yaml::Deserializer::from_reader(text.as_bytes())),
            };
            cx.step(1);
            let mut why = None;
            if let Err(e) = r {
                why = Some(format!("refused: {e}"));
            } else if out.len() != want.len() {
                why = Some(format!("{} strings, there are {}", out.len(), want.len()));
            } else {
                for (got, (start, value)) in out.iter().zip(want) {
                    let m = if way == "reader" { Must::Copy } else { must(text, *start, value) };
                    let bad = match got {
                        Got::Lent(s) => {
                            let at = (s.as_ptr() as usize).wrapping_sub(base);
                            let inside = at <= text.len() && at + s.len() <= text.len();
                            match m {
                                Must::Copy => Some("lent although it is not contiguous".to_owned()),
                                _ if *s != value => Some(format!("lent {s:?}")),
                                _ if s.is_empty() && ask == Ask::Real && !inside => Some("lent from elsewhere".to_owned()),
                                _ if !inside || at < *start => Some(format!("lent from {}", at as isize)),
                                Must::Lend(i) if i != at => Some(format!("lent from {at}, not from {i}")),
                                _ => None,
                            }
                        }
                        Got::Copied(s) => match m {
                            Must::Lend(_) => Some(format!("not lent: {s:?}")),
                            _ if ask != Ask::Real && s != value => Some(format!("read as {s:?}")),
                            _ => None,
                        },
                    };
                    cx.outcome(match (got, m) {
                        (_, _) if way == "reader" => "from a reader",
                        (Got::Lent(_), Must::Either) => "lent although not simple",
                        (Got::Lent(_), _) => "lent",
                        (Got::Copied(_), _) => "copied or refused",
                    });
                    if let Some(b) = bad {
                        why.get_or_insert(format!("{value:?} at {start}, {m:?}: {b}"));
                    }
                }
            }
            match why {
                None => cx.trace(),
                Some(w) => cx.fail(format!("{ask:?} {way} {exact} {text:?}"), format!("{text:?} by {way}, {ask:?}, kinds {exact}: {w}")),
            }
        }
    }
}

/// Strings of a Value are lent by it.
fn of_value(cx: &mut Cx, text: &str, n: &N) {
    let Ok(v) = serde_yaml::from_str::<Value>(text) else { return };
    fn strings<'a>(v: &'a Value, out: &mut Vec<&'a str>) {
        match v {
            Value::String(s) => out.push(s),
            Value::Sequence(e) => e.iter().for_each(|e| strings(e, out)),
            Value::Mapping(m) => m.iter().for_each(|(k, e)| {
                strings(k, out);
                strings(e, out)
            }),
            Value::Tagged(t) => strings(&t.value, out),
            _ => {}
        }
    }
    let mut want = vec![];
    strings(&v, &mut want);
    for ask in ASKS {
        for exact in [false, true] {
            let mut out = vec![];
            let r = Collect { node: target(n, n), root: n, ask, exact, out: &mut out }.deserialize(&v);
            cx.step(1);
            let ok = r.is_ok()
                && out.len() == want.len()
                && out.iter().zip(&want).all(|(g, w)| matches!(g, Got::Lent(s) if s.as_ptr() == w.as_ptr() && s.len() == w.len()));
            if ok {
                cx.trace();
                cx.outcome("lent by a Value");
            } else {
                cx.fail(format!("&Value {ask:?} {text:?}"), format!("&Value of {text:?}, {ask:?}: {r:?} {out:?}, it holds {want:?}"));
            }
        }
    }
}

fn tree(cx: &mut Cx, n: &N, w: &text::Written, asks: &[Ask]) {
    cx.state(&w.text);
    cx.case.clone_from(&w.text);
    let want: Vec<(usize, String)> = leaves(n).into_iter().map(|(p, s)| (w.at(&p).expect("marked").0, s)).collect();
    check(cx, &w.text, n, &want, asks);
    of_value(cx, &w.text, n);
}

fn s(t: &str) -> N {
    N::plain(K::Str(t.into()))
}
fn seq(v: Vec<N>) -> N {
    N::plain(K::Seq(v))
}
fn map(v: Vec<(N, N)>) -> N {
    N::plain(K::Map(v))
}
fn alias(a: &str) -> N {
    N::plain(K::Alias(a.into()))
}
fn anchored(a: &str, n: N) -> N {
    N { anchor: Some(a.into()), ..n }
}
fn tagd(t: &str, n: N) -> N {
    N { tag: Some(format!("!{t}")), ..n }
}

fn docs() -> Vec<N> {
    vec![
        seq(vec![anchored("a", s("x y")), alias("a"), seq(vec![alias("a"), s("é")])]),
        map(vec![(anchored("k", s("key")), s("it's")), (s("o"), alias("k")), (s("ключ"), s("a\nb"))]),
        seq(vec![anchored("a", map(vec![(s("k"), anchored("b", s("v w")))])), alias("a"), map(vec![(alias("b"), alias("b"))])]),
        tagd("t", seq(vec![tagd("t", map(vec![(s("a"), tagd("t", s("b c")))])), tagd("t", s("# d"))])),
        map(vec![(seq(vec![s("k"), s("l\\m")]), s("")), (map(vec![(s("n"), s("\u{1F600}"))]), s("true"))]),
        seq(vec![s("\u{feff}x"), s("\t"), s("\u{85}"), s("- a"), s("1.50"), s("~")]),
        map(vec![(s("a b"), map(vec![(s("c d"), seq(vec![s("  lead"), s("trail  "), s("\"q\"")]))]))]),
    ]
}

// real types

#[derive(Deserialize, Debug)]
struct Fields<'a> {
    x: &'a str,
    #[serde(borrow)]
    y: Option<Cow<'a, str>>,
    #[serde(borrow, default)]
    z: Vec<&'a str>,
}
#[derive(Deserialize, Debug)]
enum Kinds<'a> {
    New(&'a str),
    Tup(&'a str, #[serde(borrow)] Cow<'a, str>),
    St { x: &'a str },
}
#[derive(Deserialize, Debug)]
#[serde(untagged)]
enum Loose<'a> {
    One(&'a str),
    Many(#[serde(borrow)] Vec<Loose<'a>>),
    Map(#[serde(borrow)] BTreeMap<&'a str, Loose<'a>>),
}
#[derive(Deserialize, Debug)]
struct Wrap<'a>(&'a str);
#[derive(Deserialize, Debug)]
struct Rest<'a> {
    x: &'a str,
    #[serde(flatten, borrow)]
    rest: BTreeMap<&'a str, &'a str>,
}

trait Strs {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>);
}
impl Strs for &str {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        out.push(self)
    }
}
impl Strs for Wrap<'_> {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        out.push(self.0)
    }
}
impl<A: Strs> Strs for Option<A> {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        self.iter().for_each(|e| e.strs(out))
    }
}
impl<A: Strs> Strs for Vec<A> {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        self.iter().for_each(|e| e.strs(out))
    }
}
impl<A: Strs, B: Strs> Strs for (A, B) {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        self.0.strs(out);
        self.1.strs(out)
    }
}
impl<A: Strs, B: Strs> Strs for BTreeMap<A, B> {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        self.iter().for_each(|(k, e)| {
            k.strs(out);
            e.strs(out)
        })
    }
}
impl Strs for Fields<'_> {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        out.push(self.x);
        if let Some(Cow::Borrowed(y)) = self.y {
            out.push(y)
        }
        self.z.strs(out)
    }
}
impl Strs for Kinds<'_> {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        match self {
            Kinds::New(s) | Kinds::St { x: s } => out.push(s),
            Kinds::Tup(a, b) => {
                out.push(a);
                if let Cow::Borrowed(b) = b {
                    out.push(b)
                }
            }
        }
    }
}
impl Strs for Loose<'_> {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        match self {
            Loose::One(s) => out.push(s),
            Loose::Many(v) => v.strs(out),
            Loose::Map(v) => v.strs(out),
        }
    }
}
impl Strs for Rest<'_> {
    fn strs<'s>(&'s self, out: &mut Vec<&'s str>) {
        out.push(self.x);
        self.rest.strs(out)
    }
}

/// Debug form of what was read, and whether all of its strings lie in the input; for each way of reading.
fn real<'a, T: Deserialize<'a> + Strs + fmt::Debug>(text: &'a str) -> [(Result<String, String>, Vec<String>); 2] {
    let range = text.as_bytes().as_ptr_range();
    let one = |r: Result<T, serde_yaml::Error>| match r {
        Ok(v) => {
            let mut out = vec![];
            v.strs(&mut out);
            let stray = out.iter().filter(|s| s.as_ptr() < range.start || s.as_bytes().as_ptr_range().end > range.end).map(|s| s.to_string()).collect();
            (Ok(format!("{v:?}")), stray)
        }
        Err(e) => (Err(e.to_string()), vec![]),
    };
    [one(serde_yaml::from_str(text)), one(serde_yaml::from_slice(text.as_bytes()))]
}
fn from_reader<T: for<'a> Deserialize<'a> + fmt::Debug>(text: &str) -> Result<String, String> {
    T::deserialize(serde_yaml::Deserializer::from_reader(text.as_bytes())).map(|v| format!("{v:?}")).map_err(|e| e.to_string())
}

// the same with owned strings
mod owned {
    use super::*;
    #[derive(Deserialize, Debug)]
    #[allow(dead_code)]
    pub struct Fields {
        x: String,
        y: Option<String>,
        #[serde(default)]
        z: Vec<String>,
    }
    #[derive(Deserialize, Debug)]
    #[allow(dead_code)]
    pub enum Kinds {
        New(String),
        Tup(String, String),
        St { x: String },
    }
    #[derive(Deserialize, Debug)]
    #[serde(untagged)]
    #[allow(dead_code)]
    pub enum Loose {
        One(String),
        Many(Vec<Loose>),
        Map(BTreeMap<String, Loose>),
    }
    #[derive(Deserialize, Debug)]
    #[allow(dead_code)]
    pub struct Wrap(String);
    #[derive(Deserialize, Debug)]
    #[allow(dead_code)]
    pub struct Rest {
        x: String,
        #[serde(flatten)]
        rest: BTreeMap<String, String>,
    }
}

struct Pair {
    name: &'static str,
    lent: fn(&str) -> [(Result<String, String>, Vec<String>); 2],
    owned: fn(&str) -> Result<String, String>,
}
macro_rules! pair {
    ($name:literal, $b:ty, $o:ty) => {
        Pair { name: $name, lent: |t| real::<$b>(t), owned: from_reader::<$o> }
    };
}

fn pairs() -> Vec<(Pair, Vec<&'static str>)> {
    vec![
        (pair!("&str", &str, String), vec!["@", "--- @", "# é\n@", "&x @", "!!str @", "@ # c\n...\n"]),
        (pair!("Vec<&str>", Vec<&str>, Vec<String>), vec!["- é\n- @\n- @\n", "[@, é, @]", "- &x @\n- *x\n", "\u{feff}[ü, @]"]),
        (pair!("Option<&str>", Option<&str>, Option<String>), vec!["@", "!!str @"]),
        (pair!("Wrap", Wrap, owned::Wrap), vec!["@"]),
        (pair!("Vec<Wrap>", Vec<Wrap>, Vec<owned::Wrap>), vec!["[@, @]"]),
        (pair!("(&str, &str)", (&str, &str), (String, String)), vec!["[@, é]", "[&x é, *x]", "[&x @, *x]"]),
        (pair!("BTreeMap<&str, &str>", BTreeMap<&str, &str>, BTreeMap<String, String>), vec!["é: @\n", "{é: @, @ : é}", "? @\n: @\n", "é: &x ü\n*x : @\n"]),
        (pair!("BTreeMap<Wrap, ..>", BTreeMap<&str, Vec<Option<&str>>>, BTreeMap<String, Vec<Option<String>>>), vec!["é: [@, é, @]\n"]),
        (pair!("Fields", Fields, owned::Fields), vec!["x: @\n", "x: é\ny: @\nz: [@]\n", "{z: [&a @, *a], y: *a, x: *a}", "x: é\ny: @\n"]),
        (pair!("Kinds", Kinds, owned::Kinds), vec!["!New @", "!Tup [@, @]", "!Tup [é, @]", "!St {x: @}"]),
        (pair!("Vec<Kinds>", Vec<Kinds>, Vec<owned::Kinds>), vec!["[!New @, !St {é: ü, x: @}]"]),
        (pair!("Loose", Loose, owned::Loose), vec!["@", "[@, {é: @}]", "{é: [é, @]}"]),
        (pair!("Rest", Rest, owned::Rest), vec!["{x: é, y: é, z: @}", "{z: é, x: @}"]),
    ]
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let sizes = tier.pick([(3, 2), (4, 1)], [(4, 2), (5, 1)]);
    for (i, (nodes, dev)) in sizes.into_iter().enumerate() {
        f.push(family(
            ["small trees", "trees"][i],
            format!("every tree of at most {nodes} nodes over 4 strings and one tag, in every presentation making at most {dev} departures, each string asked for in 7 ways from 3 kinds of input, and from the Value by reference"),
            move |ch, cx| {
                let g = Gen::new(vec![st("a"), st("é b"), st("it's"), st("x\ny\n")], &["t"]);
                let t = g.tree(ch, nodes);
                if t.has_dup_keys() {
                    return;
                }
                let n = N::of(&t);
                ch.set_budget(dev);
                let w = text::write(ch, &n, Opts::all());
                tree(cx, &n, &w, &ASKS);
            },
        ));
    }
    let dev = tier.pick(3, 4);
    f.push(family(
        "documents",
        format!("7 documents with anchors, aliases, tags, mapping keys and wide characters, in every presentation making at most {dev} departures"),
        move |ch, cx| {
            let all = docs();
            let n = ch.pick(&all).clone();
            let ask = *ch.pick(&[Ask::Str, Ask::Real]);
            ch.set_budget(dev - 1);
            let w = text::write(ch, &n, Opts::all());
            tree(cx, &n, &w, &[ask]);
        },
    ));
    let dev = tier.pick(2, 3);
    f.push(family(
        "strings",
        format!("every string of the wide list as root, element, key and value, behind an anchor or a tag, in every presentation making at most {dev} departures"),
        move |ch, cx| {
            let all: Vec<String> = strings_wide().into_iter().filter(|s| s.len() < 1000).collect();
            let v = s(&all[ch.choose(all.len())]);
            let v = match ch.choose(3) {
                0 => v,
                1 => anchored("x", v),
                _ => tagd("t", v),
            };
            let n = match ch.choose(4) {
                0 => v,
                1 => seq(vec![s("é"), v, s("z")]),
                2 => map(vec![(s("é"), v)]),
                _ => map(vec![(v, s("é"))]),
            };
            ch.set_budget(dev);
            let w = text::write(ch, &n, Opts::all());
            tree(cx, &n, &w, &[Ask::Str, Ask::Real]);
        },
    ));
    let len = tier.pick(4, 5);
    f.push(family(
        "raw scalars",
        format!("every raw scalar of up to {len} of 14 tokens (among them escapes shorter than what they stand for), plain, quoted, literal or folded, in 12 surroundings: lent exactly when it stands there as it is"),
        move |ch, cx| {
            let style = ch.choose(5);
            let around = [
                ("", "\n"), ("# é\n", "\n"), ("- é\n- ", "\n- z\n"), ("é: ", " # c\n"), ("é: &x ", "\nz: *x\n"), ("", " : z\n"), ("[é, ", ", é]"), ("{é: ", "}"),
                ("\u{feff}- !t ", "\n"), ("? ", "\n: é"), ("--- ", "\n...\n"), ("é:\n  ", "\n"),
            ];
            let at = ch.choose(around.len());
            let (a, b) = around[at];
            let toks: [&str; 14] = match style {
                0 => ["a", " ", "é", "\n ", "\\", "'", "\"", "\n", "#", "\t", "\\n", "!", ":", "\r\n  "],
                1 => ["a", " ", "é", "\n ", "\\", "\n", "\"", "''", "#", "\t", "\r", "\u{2028}", "\r\n", "\r\n  "],
                2 => ["a", " ", "é", "\n ", "\\P", "\n", "\\\"", "'", "\\L", "\\\n", "\\n", "\\x41", "\\_", "\r\n  "],
                _ => ["a", " ", "é", "\n  ", "\\", "'", "\"", "\n\n  ", "#", "\t", "- ", "\n   ", ":", "\r\n  "],
            };
            let n = ch.range(0, len);
            let body: String = (0..n).map(|_| ch.word(&toks)).collect();
            let raw = match style {
                0 => body,
                1 => format!("'{body}'"),
                2 => format!("\"{body}\""),
                3 => format!("|\n  {body}\n"),
                _ => format!(">-\n  {body}\n"),
            };
            let text = format!("{a}{raw}{b}");
            cx.state(&text);
            cx.case.clone_from(&text);
            // where it is read, and as what
            let start = a.len() - if a.ends_with("&x ") || a.ends_with("!t ") { 3 } else { 0 };
            fn shape(at: usize, v: &str) -> N {
                let e = || s("é");
                match at {
                    0 | 1 | 10 => s(v),
                    2 => seq(vec![e(), s(v), s("z")]),
                    3 | 7 | 11 => map(vec![(e(), s(v))]),
                    4 => map(vec![(e(), anchored("x", s(v))), (s("z"), alias("x"))]),
                    5 => map(vec![(s(v), s("z"))]),
                    6 => seq(vec![e(), s(v), e()]),
                    8 => seq(vec![tagd("t", s(v))]),
                    _ => map(vec![(s(v), e())]),
                }
            }
            // the owned reading, and which of its strings is the one
            let probe = shape(at, "");
            let mut out = vec![];
            let r = Collect { node: &probe, root: &probe, ask: Ask::String, exact: true, out: &mut out }.deserialize(serde_yaml::Deserializer::from_reader(text.as_bytes()));
            cx.step(1);
            let mine: &[usize] = match at {
                0 | 1 | 10 | 5 | 9 | 8 => &[0],
                4 => &[1, 3],
                _ => &[1],
            };
            if r.is_err() {
                cx.outcome("not one string there");
                return;
            }
            let owned: Vec<String> = out.iter().map(|g| g.text().to_owned()).collect();
            let body_at = a.len();
            for ask in [Ask::Str, Ask::Real] {
                for way in 0..2 {
                    let mut out = vec![];
                    let c = Collect { node: &probe, root: &probe, ask, exact: true, out: &mut out };
                    let r = if way == 0 { c.deserialize(serde_yaml::Deserializer::from_str(&text)) } else { c.deserialize(serde_yaml::Deserializer::from_slice(text.as_bytes())) };
                    cx.step(1);
                    let mut bad = r.err().map(|e| format!("refused: {e}"));
                    for &i in mine {
                        let Some(got) = out.get(i) else { break };
                        let value = &owned[i];
                        let m = if raw.trim().is_empty() { Must::Either } else { must(&text, start, value) };
                        let off = match got {
                            Got::Lent(s) => (s.as_ptr() as usize).wrapping_sub(text.as_ptr() as usize),
                            _ => 0,
                        };
                        let ok = match (got, m) {
                            (Got::Lent(_), Must::Copy) => false,
                            (Got::Lent(s), Must::Lend(i)) => s == value && off == i,
                            (Got::Lent(s), Must::Either) => s == value && (off >= body_at || s.is_empty()) && off + s.len() <= text.len(),
                            (Got::Copied(_), Must::Lend(_)) => false,
                            (Got::Copied(s), _) => ask == Ask::Real || s == value,
                        };
                        cx.outcome(if matches!(got, Got::Lent(_)) { "lent" } else { "copied or refused" });
                        if !ok {
                            bad.get_or_insert(format!("{got:?} from {off}; it is {value:?}, {m:?}"));
                        }
                    }
                    match bad {
                        None => cx.trace(),
                        Some(b) => cx.fail(format!("{ask:?} {way} {text:?}"), format!("{text:?}, {ask:?}: {b}")),
                    }
                }
            }
        },
    ));
    let picks = tier.pick(2, 3);
    f.push(family(
        "real types",
        format!("13 types with borrowed strings, 33 documents with up to {picks} holes filled with each of 22 scalars: what is borrowed lies in the input and the whole equals the type with owned strings"),
        move |ch, cx| {
            let all = pairs();
            let (p, docs) = &all[ch.choose(all.len())];
            let doc = *ch.pick(docs);
            let scalars = [
                "a", "a b", "'a b'", "\"a b\"", "''", "\"\"", "é", "'é'", "1", "true", "1.50", "\"1\"", "'~'", "it's", "'it''s'", "\"a\\nb\"", "\"\\u0041\"", "'a\n  b'", "a\n  b", "\"x\\\n  y\"", "\"\\\n  y\"",
                "~",
            ];
            let simple = 14;
            let mut text = String::new();
            let mut easy = true;
            let mut null = false;
            for (i, piece) in doc.split('@').enumerate() {
                if i > 0 {
                    let j = if i <= picks { ch.choose(scalars.len()) } else { 0 };
                    easy &= j < simple;
                    null |= j == scalars.len() - 1;
                    text += scalars[j];
                }
                text += piece;
            }
            cx.state(&(p.name, &text));
            cx.case = format!("{} {text:?}", p.name);
            let want = (p.owned)(&text);
            for (got, stray) in (p.lent)(&text) {
                cx.step(1);
                let ok = match (&got, &want) {
                    (Ok(g), Ok(w)) => g == w && stray.is_empty(),
                    // not contiguous
                    (Err(e), Ok(_)) => !easy && (e.contains("expected a borrowed string") || e.contains("did not match any variant") || null),
                    (Err(_), Err(_)) => true,
                    // an untagged enum tries the string first
                    (Ok(_), Err(_)) => false,
                };
                cx.outcome(if got.is_ok() { "read" } else { "refused" });
                if ok {
                    cx.trace();
                } else {
                    cx.fail(format!("{} {text:?}", p.name), format!("{text:?} as {}: {got:?}, not in the input: {stray:?}; with owned strings {want:?}", p.name));
                }
            }
        },
    ));
    let sizes = big::few_sizes(tier);
    let lengths = big::lengths(tier);
    f.push(family(
        "many",
        format!("sequences and mappings of as many strings, of as many anchored and aliased ones, at {} sizes up to {}; 4 kinds of long scalar at {} lengths up to {}; block and flow", sizes.len(), sizes[sizes.len() - 1], lengths.len(), lengths[lengths.len() - 1]),
        move |ch, cx| {
            let k = |i: usize| s(&format!("k {i}"));
            let kind = ch.choose(8);
            let n = *ch.pick(if kind < 4 { &sizes } else { &lengths });
            let node = match kind {
                0 => seq((0..n).map(k).collect()),
                1 => map((0..n).map(|i| (k(i), s(&format!("é {i}")))).collect()),
                2 => seq((0..n).map(|i| anchored(&format!("a{i}"), k(i))).chain((0..n).map(|i| alias(&format!("a{i}")))).collect()),
                3 => seq(vec![seq((0..n).map(|i| tagd("t", k(i))).collect()), map((0..n).map(|i| (k(i), seq(vec![k(i)]))).collect())]),
                4 => seq(vec![s("before"), s(&format!("x{}", "y".repeat(n))), s("after")]),
                5 => seq(vec![s(&format!("é{}", "€".repeat(n))), anchored("a", s(&format!("a{}", " b".repeat(n)))), alias("a")]),
                6 => map(vec![(s("k"), s(&format!("# {}", "z".repeat(n)))), (s("l"), s("after"))]),
                _ => seq(vec![s(&format!("l\n{}", "m n\n".repeat(n))), s("after")]),
            };
            let w = big::plain(&node);
            let asks = &ASKS[n % ASKS.len()..][..1];
            if kind < 7 && ch.flag() {
                // comments and blank lines between do not matter to where strings are
                let text = format!("# {}\n\n{}", "é".repeat(n), w.text);
                let by = text.len() - w.text.len();
                let moved = text::Written { text, marks: w.marks.iter().map(|(p, i)| (p.clone(), i + by)).collect() };
                tree(cx, &node, &moved, asks);
            } else {
                tree(cx, &node, &w, asks);
            }
        },
    ));
    f.push(family(
        "deep",
        "towers of strings of every pair of 5 kinds of level, each number of levels from 1 to 120",
        |ch, cx| {
            let word = [ch.choose(5), ch.choose(5)];
            let d = ch.range(1, 120);
            let mut n = s("leaf");
            for i in (0..d).rev() {
                n = match word[i % 2] {
                    0 => seq(vec![n]),
                    1 => seq(vec![s("a"), n, s("é c")]),
                    2 => map(vec![(s("k"), n)]),
                    3 => map(vec![(s("a"), s("b")), (s("k"), n), (s("z"), s("y"))]),
                    _ => tagd("t", seq(vec![n])),
                };
            }
            let w = big::plain(&n);
            tree(cx, &n, &w, &ASKS[d % ASKS.len()..][..1]);
        },
    ));
    f
}
