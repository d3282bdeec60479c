//! C16: duplicate keys are refused, order is kept.

use crate::big;
use crate::explore::*;
use crate::text::{self, Opts, N};
use crate::tree::*;
use serde::de::value::{Error as PlainError, MapDeserializer};
use serde::Deserialize;
use serde_yaml::{Mapping, Value};

/// Ways of writing keys, all usable on one line, and what they are.
fn spellings() -> Vec<(&'static str, T)> {
    let xy = || T::Map(vec![(st("x"), T::Int(1)), (st("y"), T::Int(2))]);
    let yx = || T::Map(vec![(st("y"), T::Int(2)), (st("x"), T::Int(1))]);
    vec![
        ("a", st("a")),
        ("'a'", st("a")),
        ("\"a\"", st("a")),
        ("\"\\x61\"", st("a")),
        ("!!str a", st("a")),
        ("*str", st("a")),
        ("A", st("A")),
        ("1", T::Int(1)),
        ("0x1", T::Int(1)),
        ("0o1", T::Int(1)),
        ("0b1", T::Int(1)),
        ("+1", T::Int(1)),
        ("!!int 1", T::Int(1)),
        ("*int", T::Int(1)),
        ("1.0", T::Float(1.0)),
        ("1e0", T::Float(1.0)),
        ("'1'", st("1")),
        ("01", st("01")),
        ("-1", T::Int(-1)),
        ("-0x1", T::Int(-1)),
        ("0.0", T::Float(0.0)),
        ("-0.0", T::Float(-0.0)),
        (".nan", T::Float(f64::NAN)),
        (".NaN", T::Float(f64::NAN)),
        (".inf", T::Float(f64::INFINITY)),
        ("+.INF", T::Float(f64::INFINITY)),
        ("null", T::Null),
        ("~", T::Null),
        ("NULL", T::Null),
        ("'null'", st("null")),
        ("''", st("")),
        ("true", T::Bool(true)),
        ("TRUE", T::Bool(true)),
        ("!!bool True", T::Bool(true)),
        ("'true'", st("true")),
        ("false", T::Bool(false)),
        ("[]", T::Seq(vec![])),
        ("[ ]", T::Seq(vec![])),
        ("[a, 1]", T::Seq(vec![st("a"), T::Int(1)])),
        ("['a',0x1]", T::Seq(vec![st("a"), T::Int(1)])),
        ("[1, a]", T::Seq(vec![T::Int(1), st("a")])),
        ("{}", T::Map(vec![])),
        ("{x: 1, y: 2}", xy()),
        ("{y: 2, x: 1}", yx()),
        ("{'y': 0b10, ? x : 1}", yx()),
        ("*map", yx()),
        ("{x: 1}", T::Map(vec![(st("x"), T::Int(1))])),
        ("!t a", tagged("t", st("a"))),
        ("!t 'a'", tagged("t", st("a"))),
        ("!<!t> a", tagged("t", st("a"))),
        ("!u a", tagged("u", st("a"))),
        ("!t {x: 1, y: 2}", tagged("t", xy())),
        ("!t {y: 2, x: 1}", tagged("t", yx())),
        ("<<", st("<<")),
        ("18446744073709551615", T::Int(u64::MAX as i128)),
        ("-9223372036854775808", T::Int(i64::MIN as i128)),
    ]
}

fn judge(cx: &mut Cx, text: &str, dup: bool, order: Option<&T>) {
    cx.state(text);
    cx.case = text.to_owned();
    let v = serde_yaml::from_str::<Value>(text).map_err(|e| e.to_string());
    cx.step(1);
    let ok = match &v {
        Ok(v) => !dup && order.is_none_or(|t| T::of(v).same(t)),
        Err(e) => dup && e.contains("duplicate entry"),
    };
    cx.outcome(if v.is_ok() { "accepted" } else { "refused" });
    if ok {
        cx.trace();
        cx.sample(|| format!("{text:?}: duplicate {dup}"));
    } else {
        cx.fail(text.to_owned(), format!("{text:?}: {v:?}; duplicate keys: {dup}, content {order:?}"));
        return;
    }
    // the same as a Mapping, and from the value
    let m = serde_yaml::from_str::<Mapping>(text).map_err(|e| e.to_string());
    cx.step(1);
    // a tag on it is looked through
    let bare = v.as_ref().map(|v| if let Value::Tagged(t) = v { &t.value } else { v });
    let root = bare.as_ref().ok().map(|v| matches!(v, Value::Mapping(_) | Value::Null));
    let ok = match (&m, &bare) {
        (Ok(m), Ok(v)) => v.is_null() && m.is_empty() || T::of(v).same(&T::of_mapping(m)),
        (Ok(_), Err(_)) => false,
        (Err(_), _) => root != Some(true),
    };
    let again = match &v {
        Ok(v) => {
            let t = T::of(v);
            let owned = serde_yaml::from_value::<Value>(v.clone()).is_ok_and(|w| T::of(&w).same(&t));
            let by_ref = Value::deserialize(v).is_ok_and(|w| T::of(&w).same(&t));
            let map = match v {
                Value::Mapping(_) => {
                    serde_yaml::from_value::<Mapping>(v.clone()).is_ok_and(|m| T::of_mapping(&m).same(&t))
                        && Mapping::deserialize(v).is_ok_and(|m| T::of_mapping(&m).same(&t))
                }
                _ => true,
            };
            cx.step(4);
            owned && by_ref && map
        }
        Err(_) => true,
    };
    if ok && again {
        cx.trace();
    } else {
        cx.fail(format!("mapping {text}"), format!("{text:?}: as a Mapping {m:?}, again {again}, but as a Value {v:?}"));
    }
}

const DEFS: &str = "[&str a, &int 1, &map {y: 2, x: 1}]";
fn defs() -> T {
    T::Seq(vec![st("a"), T::Int(1), T::Map(vec![(st("y"), T::Int(2)), (st("x"), T::Int(1))])])
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(family(
        "spellings",
        "every ordered pair of 56 spellings of keys, in flow and block style, explicit and implicit, side by side or 1 or 40 entries apart, in 7 places",
        |ch, cx| {
            let sp = spellings();
            let (a, ta) = ch.pick(&sp).clone();
            let (b, tb) = ch.pick(&sp).clone();
            let between = *ch.pick(&[0usize, 1, 40]);
            let block = ch.flag();
            let explicit = ch.flag();
            let place = ch.choose(if block { 3 } else { 7 });
            let mut keys: Vec<(String, T)> = vec![(a.into(), ta)];
            for i in 0..between {
                keys.push((format!("f{i}"), st(&format!("f{i}"))));
            }
            keys.push((b.into(), tb));
            let dup = keys[0].1.equal(&keys.last().unwrap().1);
            let content = T::Map(keys.iter().enumerate().map(|(i, (_, t))| (t.clone(), T::Int(i as i128))).collect());
            let entry = |i: usize, k: &str| if explicit { format!("? {k}\n: {i}\n") } else { format!("{k} : {i}\n") };
            let text: String;
            let tree;
            if block {
                let ind = |s: String, pad: &str| s.lines().map(|l| format!("{pad}{l}\n")).collect::<String>();
                let body: String = keys.iter().enumerate().map(|(i, (k, _))| entry(i, k)).collect();
                (text, tree) = match place {
                    0 => (format!("defs: {DEFS}\nm:\n{}", ind(body, "  ")), T::Map(vec![(st("defs"), defs()), (st("m"), content)])),
                    1 => (format!("- {DEFS}\n- !q\n{}", ind(body, "  ")), T::Seq(vec![defs(), tagged("q", content)])),
                    _ => (
                        format!("- {DEFS}\n- ?\n{}  :\n    v\n", ind(body, "    ")),
                        T::Seq(vec![defs(), T::Map(vec![(content, st("v"))])]),
                    ),
                };
            } else {
                let body: Vec<String> = keys
                    .iter()
                    .enumerate()
                    .map(|(i, (k, _))| if explicit { format!("? {k} : {i}") } else { format!("{k} : {i}") })
                    .collect();
                let body = format!("{{{}}}", body.join(", "));
                let here = |t: T| T::Seq(vec![defs(), t]);
                (text, tree) = match place {
                    0 => (format!("[{DEFS}, {body}]"), here(content)),
                    1 => (format!("[{DEFS}, [0, {body}, 1]]"), here(T::Seq(vec![T::Int(0), content, T::Int(1)]))),
                    2 => (format!("[{DEFS}, {{k: {body}}}]"), here(T::Map(vec![(st("k"), content)]))),
                    3 => (format!("[{DEFS}, {{? {body} : v}}]"), here(T::Map(vec![(content, st("v"))]))),
                    4 => (format!("[{DEFS}, !q {body}]"), here(tagged("q", content))),
                    5 => (format!("[{DEFS}, {{&x k: &y {body}}}, *x]"), T::Seq(vec![defs(), T::Map(vec![(st("k"), content)]), st("k")])),
                    _ => (format!("[{DEFS}, !q [!r {body}]]"), here(tagged("q", T::Seq(vec![tagged("r", content)])))),
                };
            }
            judge(cx, &text, dup, Some(&tree));
        },
    ));
    let n = tier.pick(3, 4);
    f.push(family(
        "several keys",
        format!("every sequence of {n} keys out of 14 spellings of 7 keys in one flow mapping"),
        move |ch, cx| {
            let all = spellings();
            let some: Vec<_> = ["a", "'a'", "1", "0x1", "1.0", "'1'", "~", "null", "{x: 1, y: 2}", "{y: 2, x: 1}", "!t a", "!<!t> a", "true", "[]"]
                .iter()
                .map(|s| all.iter().find(|e| e.0 == *s).unwrap().clone())
                .collect();
            let keys: Vec<(&str, T)> = (0..n).map(|_| ch.pick(&some).clone()).collect();
            let dup = (0..n).any(|i| (0..i).any(|j| keys[i].1.equal(&keys[j].1)));
            let body: Vec<String> = keys.iter().enumerate().map(|(i, (k, _))| format!("{k} : {i}")).collect();
            let tree = T::Map(keys.iter().enumerate().map(|(i, (_, t))| (t.clone(), T::Int(i as i128))).collect());
            judge(cx, &format!("{{{}}}", body.join(", ")), dup, Some(&tree));
        },
    ));
    let lim = tier.pick(7, 8);
    f.push(family(
        "trees",
        format!("every tree of at most {lim} nodes over 2 leaves, mappings and sequences as keys, duplicates allowed: refused exactly when it has some"),
        move |ch, cx| {
            let g = Gen::new(vec![T::Int(1), st("a")], &[]);
            let t = g.tree(ch, lim);
            if !has_map(&t) {
                return;
            }
            let text = text::write(&mut Ch::new(vec![]), &N::of(&t), Opts::all()).text;
            judge(cx, &text, t.has_dup_keys(), Some(&t));
        },
    ));
    f.push(family(
        "presentations",
        "9 documents with and without duplicate keys in every presentation making at most 2 departures from the plainest",
        |ch, cx| {
            let m = |v: &[(&str, i128)]| T::Map(v.iter().map(|(k, e)| (st(k), T::Int(*e))).collect());
            let docs = [
                m(&[("a", 1), ("b", 2), ("a", 3)]),
                m(&[("a b", 1), ("a c", 2)]),
                T::Seq(vec![m(&[("a", 1)]), m(&[("a", 1), ("a", 1)])]),
                T::Map(vec![(m(&[("a", 1), ("b", 2)]), T::Null), (m(&[("b", 2), ("a", 1)]), T::Null)]),
                T::Map(vec![(m(&[("a", 1), ("b", 2)]), T::Null), (m(&[("b", 1), ("a", 2)]), T::Null)]),
                T::Map(vec![(T::Null, T::Null), (T::Null, T::Null)]),
                T::Map(vec![(m(&[("a", 1), ("a", 2)]), T::Null)]),
                tagged("t", T::Map(vec![(tagged("u", T::Int(1)), T::Null), (tagged("u", T::Int(1)), T::Int(2))])),
                T::Map(vec![(st("k"), T::Seq(vec![T::Map(vec![(T::Seq(vec![]), st("a")), (T::Seq(vec![]), st("b"))])]))]),
            ];
            let t = ch.pick(&docs).clone();
            ch.set_budget(2);
            let w = text::write(ch, &N::of(&t), Opts::all());
            judge(cx, &w.text, t.has_dup_keys(), Some(&t));
        },
    ));
    let size = tier.pick(60, 200);
    f.push(family(
        "distance",
        format!("mappings of up to {size} entries with one key repeated: every pair of positions; and every size without repetition"),
        move |ch, cx| {
            let n = ch.range(1, size);
            let j = ch.choose(n);
            // i == j: nothing is repeated
            let i = ch.choose(j + 1);
            let kind = ch.choose(2);
            let key = |p: usize| match (kind, p % 3) {
                (0, _) => (format!("k{p}"), st(&format!("k{p}"))),
                (_, 0) => (format!("{p}"), T::Int(p as i128)),
                (_, 1) => (format!("!t {p}"), tagged("t", T::Int(p as i128))),
                _ => (format!("{p}.5"), T::Float(p as f64 + 0.5)),
            };
            // the later positions only matter once
            if n > j + 2 && n < size {
                return;
            }
            let mut text = String::new();
            let mut tree = vec![];
            for p in 0..n {
                // descending, so that document order is not any natural order
                let (s, t) = key(if p == j { n - i } else { n - p });
                text.push_str(&format!("{s}: {p}\n"));
                tree.push((t, T::Int(p as i128)));
            }
            judge(cx, &text, i != j, Some(&T::Map(tree)));
        },
    ));
    f.push(family(
        "other sources",
        "every sequence of up to 5 keys out of 3 handed to Value and Mapping by another deserializer",
        |ch, cx| {
            let keys: Vec<&str> = (0..ch.range(0, 5)).map(|_| ch.word(&["a", "b", "1"])).collect();
            let dup = (0..keys.len()).any(|i| keys[..i].contains(&keys[i]));
            let pairs: Vec<(&str, u8)> = keys.iter().enumerate().map(|(i, k)| (*k, i as u8)).collect();
            let want = T::Map(pairs.iter().map(|(k, v)| (st(k), T::Int(*v as i128))).collect());
            cx.state(&keys);
            cx.case = format!("{keys:?}");
            let v = Value::deserialize(MapDeserializer::<_, PlainError>::new(pairs.clone().into_iter()));
            let m = Mapping::deserialize(MapDeserializer::<_, PlainError>::new(pairs.into_iter()));
            cx.step(2);
            let ok = match (&v, &m) {
                (Ok(v), Ok(m)) => !dup && T::of(v).same(&want) && T::of_mapping(m).same(&want),
                (Err(a), Err(b)) => dup && a.to_string().contains("duplicate entry") && b.to_string().contains("duplicate entry"),
                _ => false,
            };
            if ok {
                cx.trace();
            } else {
                cx.fail(format!("{keys:?}"), format!("{keys:?}: {v:?} {m:?}"));
            }
        },
    ));
    f.push(family(
        "deep",
        format!("towers of every pair of 8 kinds of level, {} levels, around a mapping with a repeated key of 4 kinds or none, and with such a mapping beside the tower: block and flow", tier.pick("20 numbers from 1 to 120", "each number from 1 to 120")),
        move |ch, cx| {
            let w = big::word(ch);
            let all: Vec<usize> = (1..=120).collect();
            let few = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 99, 100, 120];
            let d = *ch.pick(tier.pick(&few[..], &all[..]));
            let keys = [st("same"), T::Int(3), T::Seq(vec![st("a")]), T::Map(vec![(st("a"), T::Int(1)), (st("b"), T::Int(2))])];
            let key = ch.pick(&keys).clone();
            let dup = ch.flag();
            let second = match (&key, dup) {
                (T::Map(v), true) => T::Map(v.iter().rev().cloned().collect()),
                (_, true) => key.clone(),
                _ => st("different"),
            };
            let inner = T::Map(vec![(key, T::Int(1)), (st("between"), T::Null), (second, T::Int(1))]);
            let node = match ch.flag() {
                false => big::tower(&w, d, crate::text::N::of(&inner)),
                true => crate::text::N::plain(crate::text::K::Seq(vec![big::tower(&w, d, crate::text::N::of(&st("leaf"))), crate::text::N::of(&inner)])),
            };
            let text = if ch.flag() { big::plain(&node).text } else { big::flow(&node) };
            let content = big::content(&node);
            judge(cx, &text, dup, (!dup).then_some(&content));
        },
    ));
    f
}

fn has_map(t: &T) -> bool {
    match t {
        T::Map(v) => !v.is_empty(),
        T::Seq(v) => v.iter().any(has_map),
        T::Tag(_, v) => has_map(v),
        _ => false,
    }
}
