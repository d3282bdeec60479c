//! C14: laws of equality, hashing and ordering.

use crate::big;
use crate::explore::*;
use crate::tree::*;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn std_hash<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

/// Records everything written, so that equal must mean identical input to any hasher.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn tape<H: Hash + ?Sized>(h: &H) -> Vec<u8> {
    let mut t = Tape::default();
    h.hash(&mut t);
    t.0
}

fn has_nan(t: &T) -> bool {
    match t {
        T::Float(f) => f.is_nan(),
        T::Seq(v) => v.iter().any(has_nan),
        T::Map(v) => v.iter().any(|(k, e)| has_nan(k) || has_nan(e)),
        T::Tag(_, v) => has_nan(v),
        _ => false,
    }
}

/// The laws a pair must obey. `equal`: what the content says.
fn pair<V: PartialEq + PartialOrd + Hash + Clone + Debug>(a: &V, b: &V, equal: bool, nan: bool) -> Result<(), String> {
    macro_rules! ck {
        ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
    }
    ck!((a == b) == equal, "== says {}", a == b);
    ck!((b == a) == equal, "== is not symmetric");
    ck!((a != b) != equal, "!= says {}", a != b);
    let o = a.partial_cmp(b);
    ck!(b.partial_cmp(a) == o.map(Ordering::reverse), "{o:?} one way, {:?} the other", b.partial_cmp(a));
    ck!((o == Some(Ordering::Equal)) == equal, "ordered {o:?}, equal {equal}");
    ck!(o.is_some() || nan, "not ordered");
    ck!((a < b) == (o == Some(Ordering::Less)) && (a > b) == (o == Some(Ordering::Greater)), "< or > disagree with {o:?}");
    ck!((a <= b) == matches!(o, Some(Ordering::Less | Ordering::Equal)), "<= disagrees with {o:?}");
    ck!((a >= b) == matches!(o, Some(Ordering::Greater | Ordering::Equal)), ">= disagrees with {o:?}");
    if equal {
        ck!(std_hash(a) == std_hash(b) && hash_of(a) == hash_of(b), "equal but hashed differently");
        ck!(tape(a) == tape(b), "equal but fed to the hasher differently");
    }
    Ok(())
}

fn values_pair(cx: &mut Cx, a: &T, b: &T) {
    let (x, y) = (a.to_value(), b.to_value());
    let equal = a.equal(b);
    let nan = has_nan(a) || has_nan(b);
    cx.state(&(a, b));
    cx.step(1);
    let mut r = pair(&x, &y, equal, nan);
    match (&x, &y) {
        (Value::Number(p), Value::Number(q)) => r = r.and_then(|()| pair::<Number>(p, q, equal, nan)),
        (Value::Mapping(p), Value::Mapping(q)) => r = r.and_then(|()| pair::<Mapping>(p, q, equal, nan)),
        (Value::Tagged(p), Value::Tagged(q)) => r = r.and_then(|()| pair::<TaggedValue>(p, q, equal, nan)),
        (Value::Sequence(p), Value::Sequence(q)) => r = r.and_then(|()| pair(p, q, equal, nan)),
        _ => {}
    }
    cx.outcome(if equal { "equal" } else { "different" });
    match r {
        Ok(()) => cx.trace(),
        Err(e) => cx.fail(format!("{a:?} {b:?}"), format!("{a:?} and {b:?}: {e}")),
    }
}

fn curated() -> Vec<T> {
    let m = |v: &[(&str, i128)]| T::Map(v.iter().map(|(k, e)| (st(k), T::Int(*e))).collect());
    let mk = |a: T, b: T| T::Map(vec![(a, T::Null), (b, T::Bool(true))]);
    let mut v = vec![
        T::Null,
        T::Bool(false),
        T::Bool(true),
        T::Int(0),
        T::Int(1),
        T::Int(-1),
        T::Int(i64::MIN as i128),
        T::Int(i64::MAX as i128),
        T::Int(u64::MAX as i128),
        T::Float(0.0),
        T::Float(-0.0),
        T::Float(1.0),
        T::Float(-1.5),
        T::Float(1e300),
        T::Float(f64::INFINITY),
        T::Float(f64::NEG_INFINITY),
        T::Float(f64::NAN),
        st(""),
        st("a"),
        st("A"),
        st("ab"),
        st("é"),
        st("null"),
        st("1"),
        T::Seq(vec![]),
        T::Seq(vec![T::Null]),
        T::Seq(vec![T::Int(1)]),
        T::Seq(vec![T::Int(1), T::Int(1)]),
        T::Seq(vec![T::Int(2)]),
        T::Seq(vec![T::Float(f64::NAN)]),
        T::Seq(vec![T::Seq(vec![])]),
        T::Map(vec![]),
        m(&[("a", 1)]),
        m(&[("a", 2)]),
        m(&[("b", 1)]),
        m(&[("a", 1), ("b", 2)]),
        m(&[("b", 2), ("a", 1)]),
        m(&[("a", 2), ("b", 1)]),
        m(&[("b", 1), ("a", 2), ("c", 3)]),
        T::Map(vec![(T::Float(f64::NAN), T::Null)]),
        T::Map(vec![(st("a"), T::Float(f64::NAN))]),
        T::Map(vec![(T::Float(0.0), T::Float(-0.0))]),
        T::Map(vec![(T::Float(-0.0), T::Float(0.0))]),
        T::Map(vec![(T::Null, T::Null), (st("a"), T::Seq(vec![])), (T::Int(1), T::Map(vec![]))]),
        T::Map(vec![(T::Int(1), T::Map(vec![])), (T::Null, T::Null), (st("a"), T::Seq(vec![]))]),
        tagged("t", T::Null),
        tagged("t", T::Int(1)),
        tagged("u", T::Null),
        tagged("T", T::Null),
        tagged("t", m(&[("a", 1), ("b", 2)])),
        tagged("t", m(&[("b", 2), ("a", 1)])),
        tagged("t", tagged("t", T::Null)),
        T::Seq(vec![m(&[("a", 1), ("b", 2)]), m(&[("a", 1)])]),
        T::Seq(vec![m(&[("b", 2), ("a", 1)]), m(&[("a", 1)])]),
    ];
    // mappings as keys of mappings, in every order of everything
    let k1 = m(&[("x", 1), ("y", 2)]);
    let k1r = m(&[("y", 2), ("x", 1)]);
    let k2 = m(&[("x", 1), ("y", 3)]);
    let k2r = m(&[("y", 3), ("x", 1)]);
    for a in [&k1, &k1r] {
        for b in [&k2, &k2r] {
            v.push(mk(a.clone(), b.clone()));
            v.push(T::Map(vec![(b.clone(), T::Bool(true)), (a.clone(), T::Null)]));
        }
    }
    v
}

/// The same content with the entries of every mapping in some other order.
fn shuffle(ch: &mut Ch, t: &T) -> T {
    match t {
        T::Seq(v) => T::Seq(v.iter().map(|e| shuffle(ch, e)).collect()),
        T::Map(v) => {
            let mut left: Vec<(T, T)> = v.iter().map(|(k, e)| (shuffle(ch, k), shuffle(ch, e))).collect();
            let mut out = vec![];
            while !left.is_empty() {
                out.push(left.remove(ch.choose(left.len())));
            }
            T::Map(out)
        }
        T::Tag(n, v) => T::Tag(n.clone(), Box::new(shuffle(ch, v))),
        t => t.clone(),
    }
}

fn le(a: &Value, b: &Value) -> Option<bool> {
    a.partial_cmp(b).map(|o| o != Ordering::Greater)
}

fn triple(cx: &mut Cx, a: &T, b: &T, c: &T) {
    let (x, y, z) = (a.to_value(), b.to_value(), c.to_value());
    cx.step(1);
    let ok = (!(x == y && y == z) || x == z)
        && (!(le(&x, &y) == Some(true) && le(&y, &z) == Some(true)) || le(&x, &z) == Some(true))
        && (!(x < y && y < z) || x < z)
        && (!(x < y && y == z) || x < z)
        && (!(x == y && y < z) || x < z);
    if ok {
        cx.trace();
    } else {
        cx.fail(
            format!("{a:?} {b:?} {c:?}"),
            format!("not transitive: {a:?} {b:?} {c:?}: {:?} {:?} {:?}", x.partial_cmp(&y), y.partial_cmp(&z), x.partial_cmp(&z)),
        );
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let lim = tier.pick(5, 6);
    f.push(family(
        "pairs of trees",
        format!("every pair of trees of at most {lim} and 4 nodes over 3 leaves and a tag"),
        move |ch, cx| {
            let g = Gen::new(vec![T::Null, T::Int(1), T::Float(f64::NAN)], &["t"]);
            let a = g.tree(ch, lim);
            let b = g.tree(ch, 4);
            if a.has_dup_keys() || b.has_dup_keys() {
                return;
            }
            values_pair(cx, &a, &b);
        },
    ));
    f.push(family("pairs of curated values", "every pair of 62 values of every kind", |ch, cx| {
        let v = curated();
        let a = ch.pick(&v).clone();
        let b = ch.pick(&v).clone();
        values_pair(cx, &a, &b);
    }));
    f.push(family("triples of curated values", "every triple of 62 values of every kind", |ch, cx| {
        let v = curated();
        let a = ch.pick(&v).clone();
        let b = ch.pick(&v).clone();
        let c = ch.pick(&v).clone();
        cx.state(&(&a, &b, &c));
        triple(cx, &a, &b, &c);
    }));
    let lim = tier.pick(4, 5);
    f.push(family(
        "triples of trees",
        format!("every triple of trees of at most 3, 3 and {lim} nodes over 2 leaves"),
        move |ch, cx| {
            let g = Gen::new(vec![T::Int(1), st("a")], &["t"]);
            let a = g.tree(ch, 3);
            let b = g.tree(ch, 3);
            let c = g.tree(ch, lim);
            if a.has_dup_keys() || b.has_dup_keys() || c.has_dup_keys() {
                return;
            }
            cx.state(&(&a, &b, &c));
            triple(cx, &a, &b, &c);
        },
    ));
    let lim = tier.pick(10, 12);
    f.push(family(
        "reorderings",
        format!("every tree of at most {lim} nodes over 2 leaves whose keys may be anything, against itself with the entries of every mapping in every other order"),
        move |ch, cx| {
            let mut g = Gen::new(vec![T::Int(1), st("a")], &[]);
            g.seq = false;
            let a = g.tree(ch, lim);
            if a.has_dup_keys() {
                return;
            }
            let b = shuffle(ch, &a);
            values_pair(cx, &a, &b);
        },
    ));
    f.push(family(
        "mapping keys",
        "mappings of 2 or 3 entries whose keys are mappings over two names and two values, in every order inside and out, and the same one level deeper; all against one order",
        |ch, cx| {
            let n = ch.range(2, 3);
            let mut v = vec![];
            for i in 0..n {
                let mut k = vec![];
                for name in ["x", "y"] {
                    match ch.choose(3) {
                        0 => {}
                        c => k.push((st(name), T::Int(c as i128))),
                    }
                }
                v.push((T::Map(k), T::Int(i as i128)));
            }
            let mut a = T::Map(v);
            if a.has_dup_keys() {
                return;
            }
            a = match ch.choose(4) {
                0 => a,
                1 => T::Seq(vec![a]),
                2 => T::Map(vec![(a, T::Null), (T::Map(vec![]), T::Null)]),
                _ => tagged("t", T::Map(vec![(tagged("u", a), T::Null), (T::Map(vec![]), T::Null)])),
            };
            if a.has_dup_keys() {
                return;
            }
            let b = shuffle(ch, &a);
            values_pair(cx, &a, &b);
        },
    ));
    f.push(family(
        "tags",
        "every pair of 20 tag names: equality, ordering and hashing of Tag, with each other and with str and String, and of values carrying them",
        |ch, cx| {
            let names = [
                "a", "!a", "!!a", "!", "!!", "b", "!b", "ab", "!ab", "A", "a!", "!a!", "é", "!é", " ", "! ", "tag:x", "!tag:x", "!!!", "a b",
            ];
            fn content(s: &str) -> &str {
                match s.strip_prefix('!') {
                    Some("") | None => s,
                    Some(r) => r,
                }
            }
            let a = ch.word(&names);
            let b = ch.word(&names);
            cx.state(&(a, b));
            cx.step(1);
            let equal = content(a) == content(b);
            let (x, y) = (Tag::new(a), Tag::new(b));
            let mut r = pair(&x, &y, equal, false);
            if r.is_ok() && (x.cmp(&y) != x.partial_cmp(&y).unwrap()) {
                r = Err("cmp and partial_cmp differ".into());
            }
            if r.is_ok() && ((x == *b) != equal || (x == b.to_owned()) != equal) {
                r = Err("comparison with a string".into());
            }
            if r.is_ok() && equal && x.to_string() != y.to_string() {
                r = Err(format!("equal but shown as {x} and {y}"));
            }
            let v = |t: &Tag| Value::Tagged(Box::new(TaggedValue { tag: t.clone(), value: Value::Null }));
            r = r.and_then(|()| pair(&v(&x), &v(&y), equal, false));
            // and as keys
            if r.is_ok() {
                let mut m = Mapping::new();
                m.insert(v(&x), Value::Null);
                if m.contains_key(v(&y)) != equal {
                    r = Err("lookup by a tagged key".into());
                }
            }
            match r {
                Ok(()) => cx.trace(),
                Err(e) => cx.fail(format!("tags {a:?} {b:?}"), format!("tags {a:?} and {b:?}: {e}")),
            }
        },
    ));
    f.push(family(
        "numbers",
        "every pair of 40 numbers however made: equal exactly when of the same kind and value, ordered by value within a kind",
        |ch, cx| {
            let ns = numbers();
            let (a, ta) = ch.pick(&ns).clone();
            let (b, tb) = ch.pick(&ns).clone();
            cx.state(&(&ta, &tb));
            cx.step(1);
            let equal = ta.equal(&tb);
            let mut r = pair(&a, &b, equal, has_nan(&ta) || has_nan(&tb));
            if let (T::Int(p), T::Int(q)) = (&ta, &tb) {
                if a.partial_cmp(&b) != Some(p.cmp(q)) {
                    r = Err(format!("ordered {:?}", a.partial_cmp(&b)));
                }
            }
            if let (T::Float(p), T::Float(q)) = (&ta, &tb) {
                if !p.is_nan() && !q.is_nan() && a.partial_cmp(&b) != p.partial_cmp(q) {
                    r = Err(format!("ordered {:?}", a.partial_cmp(&b)));
                }
            }
            match r {
                Ok(()) => cx.trace(),
                Err(e) => cx.fail(format!("numbers {ta:?} {tb:?}"), format!("numbers {ta:?} and {tb:?}: {e}")),
            }
        },
    ));
    let n = big::few_sizes(tier);
    f.push(family(
        "many",
        format!("12 kinds of wide tree and 9 with a long scalar or tag at {} sizes up to {}: against itself in reverse, with one part changed at the start, in the middle and at the end, and one part fewer", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let kind = ch.choose(big::TREES);
            let t = big::tree(kind, *ch.pick(&n));
            let at = |n: usize, i: usize| [0, n / 2, n - 1][i];
            let way = ch.choose(8);
            let other = match (&t, way) {
                (t, 0) => t.clone(),
                (T::Seq(v), 1) => T::Seq(v.iter().rev().cloned().collect()),
                (T::Map(v), 1) => T::Map(v.iter().rev().cloned().collect()),
                (T::Seq(v), 2..=4) if !v.is_empty() => {
                    let mut w = v.clone();
                    w[at(v.len(), way - 2)] = st("other");
                    T::Seq(w)
                }
                (T::Map(v), 2..=4) if !v.is_empty() => {
                    // rotated besides
                    let mut w = v.clone();
                    w[at(v.len(), way - 2)].1 = st("other");
                    w.rotate_left(v.len() / 3);
                    T::Map(w)
                }
                (T::Map(v), 5) if !v.is_empty() => {
                    let mut w = v.clone();
                    w[at(v.len(), 1)].0 = st("other");
                    T::Map(w)
                }
                (T::Seq(v), 6) if !v.is_empty() => T::Seq(v[1..].to_vec()),
                (T::Map(v), 6) if !v.is_empty() => T::Map(v[1..].to_vec()),
                (T::Seq(v), 7) if !v.is_empty() => T::Seq(v[..v.len() - 1].to_vec()),
                (T::Map(v), 7) if !v.is_empty() => T::Map(v[..v.len() - 1].to_vec()),
                _ => return,
            };
            values_pair(cx, &t, &other);
        },
    ));
    f.push(family(
        "deep",
        "towers of every pair of 8 kinds of level, each number of levels from 1 to 140: against itself, around another leaf, and one level more",
        |ch, cx| {
            let w = big::word(ch);
            let d = ch.range(1, 140);
            let n = |d, l: &str| big::content(&big::tower(&w, d, crate::text::N::of(&st(l))));
            let other = match ch.choose(3) {
                0 => n(d, "leaf"),
                1 => n(d, "leaves"),
                _ => n(d + 1, "leaf"),
            };
            values_pair(cx, &n(d, "leaf"), &other);
        },
    ));
    f
}

fn numbers() -> Vec<(Number, T)> {
    let mut v = vec![];
    for i in [0i64, 1, -1, 2, 127, -128, 255, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1] {
        v.push((Number::from(i), T::Int(i as i128)));
    }
    for u in [0u64, 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, u64::MAX - 1] {
        v.push((Number::from(u), T::Int(u as i128)));
    }
    for f in [
        0.0,
        -0.0,
        1.0,
        -1.0,
        1.5,
        255.0,
        f64::MAX,
        f64::MIN,
        f64::MIN_POSITIVE,
        5e-324,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::NAN,
        -f64::NAN,
        f64::from_bits(0x7ff0_0000_0000_0001),
        9.223372036854775807e18,
        1.8446744073709552e19,
    ] {
        v.push((Number::from(f), T::Float(f)));
        }
    for s in ["0", "1", "-1", "1.0", ".nan", ".inf", "18446744073709551615", "-9223372036854775808"] {
        let n: Number = s.parse().expect("a number");
        let t = of_number(&n);
        v.push((n, t));
    }
    v
}
