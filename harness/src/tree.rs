//! The reference model of YAML content: a boring tree, independent of the crate's own Value.

use crate::explore::Ch;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub enum T {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Seq(Vec<T>),
    Map(Vec<(T, T)>),
    /// tag without its leading '!'
    Tag(String, Box<T>),
}

pub fn st(s: &str) -> T {
    T::Str(s.to_owned())
}

pub fn tagged(t: &str, v: T) -> T {
    T::Tag(t.to_owned(), Box::new(v))
}

fn fbits(f: f64) -> u64 {
    if f.is_nan() {
        f64::NAN.to_bits()
    } else {
        f.to_bits()
    }
}

impl Hash for T {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            T::Null => h.write_u8(0),
            T::Bool(b) => {
                h.write_u8(1);
                h.write_u8(*b as u8)
            }
            T::Int(i) => {
                h.write_u8(2);
                h.write_u64(*i as u64);
                h.write_u64((*i >> 64) as u64)
            }
            T::Float(f) => {
                h.write_u8(3);
                h.write_u64(fbits(*f))
            }
            T::Str(s) => {
                h.write_u8(4);
                s.hash(h)
            }
            T::Seq(v) => {
                h.write_u8(5);
                h.write_usize(v.len());
                v.iter().for_each(|e| e.hash(h))
            }
            T::Map(v) => {
                h.write_u8(6);
                h.write_usize(v.len());
                v.iter().for_each(|(k, e)| {
                    k.hash(h);
                    e.hash(h)
                })
            }
            T::Tag(t, v) => {
                h.write_u8(7);
                t.hash(h);
                v.hash(h)
            }
        }
    }
}

impl T {
    /// Identical, including entry order and the sign of zero.
    pub fn same(&self, o: &T) -> bool {
        match (self, o) {
            (T::Null, T::Null) => true,
            (T::Bool(a), T::Bool(b)) => a == b,
            (T::Int(a), T::Int(b)) => a == b,
            (T::Float(a), T::Float(b)) => fbits(*a) == fbits(*b),
            (T::Str(a), T::Str(b)) => a == b,
            (T::Seq(a), T::Seq(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
            }
            (T::Map(a), T::Map(b)) => {
                a.len() == b.len()
                    && a.iter()
                        .zip(b)
                        .all(|((k, v), (l, w))| k.same(l) && v.same(w))
            }
            (T::Tag(a, x), T::Tag(b, y)) => a == b && x.same(y),
            _ => false,
        }
    }

    /// Equality as a user of Value sees it: blind to mapping order, NaN equals NaN.
    pub fn equal(&self, o: &T) -> bool {
        match (self, o) {
            (T::Float(a), T::Float(b)) => a == b || (a.is_nan() && b.is_nan()),
            (T::Seq(a), T::Seq(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.equal(y))
            }
            (T::Map(a), T::Map(b)) => {
                a.len() == b.len()
                    && a.iter()
                        .all(|(k, v)| b.iter().any(|(l, w)| k.equal(l) && v.equal(w)))
            }
            (T::Tag(a, x), T::Tag(b, y)) => a == b && x.equal(y),
            _ => self.same(o),
        }
    }

    pub fn has_dup_keys(&self) -> bool {
        match self {
            T::Seq(v) => v.iter().any(T::has_dup_keys),
            T::Map(v) => {
                v.iter()
                    .enumerate()
                    .any(|(i, (k, _))| v[..i].iter().any(|(l, _)| l.equal(k)))
                    || v.iter().any(|(k, e)| k.has_dup_keys() || e.has_dup_keys())
            }
            T::Tag(_, v) => v.has_dup_keys(),
            _ => false,
        }
    }

    pub fn nested_tag(&self) -> bool {
        match self {
            T::Seq(v) => v.iter().any(T::nested_tag),
            T::Map(v) => v.iter().any(|(k, e)| k.nested_tag() || e.nested_tag()),
            T::Tag(_, v) => matches!(**v, T::Tag(..)) || v.nested_tag(),
            _ => false,
        }
    }

    pub fn nodes(&self) -> usize {
        1 + match self {
            T::Seq(v) => v.iter().map(T::nodes).sum(),
            T::Map(v) => v.iter().map(|(k, e)| k.nodes() + e.nodes()).sum(),
            T::Tag(_, v) => v.nodes(),
            _ => 0,
        }
    }

    pub fn to_value(&self) -> Value {
        match self {
            T::Null => Value::Null,
            T::Bool(b) => Value::Bool(*b),
            T::Int(i) => Value::Number(number(*i)),
            T::Float(f) => Value::Number(Number::from(*f)),
            T::Str(s) => Value::String(s.clone()),
            T::Seq(v) => Value::Sequence(v.iter().map(T::to_value).collect()),
            T::Map(v) => {
                let mut m = Mapping::new();
                for (k, e) in v {
                    m.insert(k.to_value(), e.to_value());
                }
                Value::Mapping(m)
            }
            T::Tag(t, v) => Value::Tagged(Box::new(TaggedValue {
                tag: Tag::new(t.clone()),
                value: v.to_value(),
            })),
        }
    }

    pub fn of(v: &Value) -> T {
        match v {
            Value::Null => T::Null,
            Value::Bool(b) => T::Bool(*b),
            Value::Number(n) => of_number(n),
            Value::String(s) => T::Str(s.clone()),
            Value::Sequence(v) => T::Seq(v.iter().map(T::of).collect()),
            Value::Mapping(m) => T::of_mapping(m),
            Value::Tagged(t) => {
                let name = t.tag.to_string();
                T::Tag(
                    name.strip_prefix('!').unwrap_or(&name).to_owned(),
                    Box::new(T::of(&t.value)),
                )
            }
        }
    }

    pub fn of_mapping(m: &Mapping) -> T {
        T::Map(m.iter().map(|(k, e)| (T::of(k), T::of(e))).collect())
    }
}

pub fn number(i: i128) -> Number {
    if i < 0 {
        Number::from(i64::try_from(i).expect("int out of Value range"))
    } else {
        Number::from(u64::try_from(i).expect("int out of Value range"))
    }
}

pub fn of_number(n: &Number) -> T {
    if let Some(u) = n.as_u64() {
        T::Int(u as i128)
    } else if let Some(i) = n.as_i64() {
        T::Int(i as i128)
    } else {
        T::Float(n.as_f64().expect("number is some kind"))
    }
}

/// What trees a generator enumerates.
pub struct Gen {
    pub leaves: Vec<T>,
    pub tags: Vec<String>,
    pub seq: bool,
    pub map: bool,
    /// also as mapping keys: any node; otherwise only leaves
    pub complex_keys: bool,
    pub nested_tags: bool,
}

impl Gen {
    pub fn new(leaves: Vec<T>, tags: &[&str]) -> Gen {
        Gen {
            leaves,
            tags: tags.iter().map(|s| s.to_string()).collect(),
            seq: true,
            map: true,
            complex_keys: true,
            nested_tags: false,
        }
    }

    /// Every tree of at most `lim` nodes exactly once.
    pub fn tree(&self, ch: &mut Ch, lim: usize) -> T {
        self.node(ch, lim, true).0
    }

    fn node(&self, ch: &mut Ch, lim: usize, may_tag: bool) -> (T, usize) {
        let l = self.leaves.len();
        let mut n = l;
        let seq = if self.seq {
            n += 1;
            n - 1
        } else {
            usize::MAX
        };
        let map = if self.map {
            n += 1;
            n - 1
        } else {
            usize::MAX
        };
        let tag = if may_tag && lim >= 2 && !self.tags.is_empty() {
            n += 1;
            n - 1
        } else {
            usize::MAX
        };
        let c = ch.choose(n);
        if c < l {
            return (self.leaves[c].clone(), 1);
        }
        if c == seq {
            let mut left = lim - 1;
            let mut v = vec![];
            while left > 0 && ch.flag() {
                let (e, u) = self.node(ch, left, true);
                left -= u;
                v.push(e);
            }
            return (T::Seq(v), lim - left);
        }
        if c == map {
            let mut left = lim - 1;
            let mut v = vec![];
            while left > 1 && ch.flag() {
                let (k, u) = if self.complex_keys {
                    self.node(ch, left - 1, true)
                } else {
                    (ch.pick(&self.leaves).clone(), 1)
                };
                left -= u;
                let (e, u) = self.node(ch, left, true);
                left -= u;
                v.push((k, e));
            }
            return (T::Map(v), lim - left);
        }
        assert!(c == tag);
        let t = ch.pick(&self.tags).clone();
        let (e, u) = self.node(ch, lim - 1, self.nested_tags);
        (T::Tag(t, Box::new(e)), u + 1)
    }
}

pub fn leaves_small() -> Vec<T> {
    vec![T::Null, T::Int(1), st("a")]
}

/// One leaf per behaviour the crate distinguishes.
pub fn leaves_medium() -> Vec<T> {
    vec![
        T::Null,
        T::Bool(true),
        T::Int(-1),
        T::Float(1.5),
        st("a"),
        st("true"),
        st("a\nb"),
        st(""),
    ]
}

pub fn strings_wide() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", " ", "a b", " a", "a ", "true", "False", "null", "Null", "~", "1", "-1", "1.0",
        "1e3", "0x1F", "0o7", "0b1", "010", "00", "-01", "+1", ".inf", "-.INF", ".nan", "99999999999999999999",
        "1_000", "a: b", "a:", ":a", "a #b", "#a", "- a", "-", "? a", "?", "a\nb", "\n", "a\n",
        "\na", "a\n\n", "a\n\nb", " a\nb", "a\n b", "a \nb", "\t", "\ta", "a\t", "a\tb\n", "a\r\nb", "\r", "'", "\"", "it's",
        "\\", "a\\n", "!t", "!", "!!", "&a", "*a", "<<", "=", "---", "...", "--- a", "%YAML", "@a", "`a",
        "{a}", "[a]", "{}", "[]", ",", "a,b", "|", ">", "é", "\u{85}", "a\u{85}b", "\u{2028}", "\u{a0}",
        "\u{1F600}", "\u{feff}", "\u{feff}a", "\u{0}", "\u{7f}", "\u{fffe}", "y", "no", "2001-01-01", "12:30",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("k".repeat(127));
    v.push("k".repeat(129));
    v.push("k".repeat(1025));
    v.push(format!("{} {}", "w".repeat(80), "w".repeat(80)));
    v
}

pub fn leaves_wide() -> Vec<T> {
    let mut v = vec![
        T::Null,
        T::Bool(true),
        T::Bool(false),
        T::Int(0),
        T::Int(7),
        T::Int(-1),
        T::Int(i64::MIN as i128),
        T::Int(i64::MAX as i128),
        T::Int(i64::MAX as i128 + 1),
        T::Int(u64::MAX as i128),
        T::Float(0.0),
        T::Float(-0.0),
        T::Float(1.0),
        T::Float(-2.5),
        T::Float(1e300),
        T::Float(5e-324),
        T::Float(1e16),
        T::Float(f64::INFINITY),
        T::Float(f64::NEG_INFINITY),
        T::Float(f64::NAN),
    ];
    v.extend(strings_wide().into_iter().map(T::Str));
    v
}
