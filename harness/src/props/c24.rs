//! C24: what a Value says it holds, and how one is made from other things.

use crate::explore::*;
use crate::tree::*;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::borrow::Cow;

fn bare(t: &T) -> &T {
    match t {
        T::Tag(_, v) => bare(v),
        t => t,
    }
}

fn bare_mut(t: &mut T) -> &mut T {
    match t {
        T::Tag(_, v) => bare_mut(v),
        t => t,
    }
}

fn same_f(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (a, b) => a.is_none() && b.is_none(),
    }
}

/// Everything a value tells about itself, against the tree it was made of.
fn tells(cx: &mut Cx, t: &T, v: &Value, shown: &T) {
    let b = bare(t);
    let mut wrong: Vec<&'static str> = vec![];
    let mut check = |what, ok: bool| {
        if !ok {
            wrong.push(what)
        }
    };
    check("is_null", v.is_null() == matches!(b, T::Null));
    check("as_null", v.as_null().is_some() == matches!(b, T::Null));
    check("is_bool", v.is_bool() == matches!(b, T::Bool(_)));
    check("as_bool", v.as_bool() == if let T::Bool(x) = b { Some(*x) } else { None });
    check("is_number", v.is_number() == matches!(b, T::Int(_) | T::Float(_)));
    let int = if let T::Int(i) = b { Some(*i) } else { None };
    let i = int.and_then(|i| i64::try_from(i).ok());
    let u = int.and_then(|i| u64::try_from(i).ok());
    check("as_i64", v.as_i64() == i);
    check("is_i64", v.is_i64() == i.is_some());
    check("as_u64", v.as_u64() == u);
    check("is_u64", v.is_u64() == u.is_some());
    check("is_f64", v.is_f64() == matches!(b, T::Float(_)));
    let f = match b {
        T::Float(f) => Some(*f),
        T::Int(i) => Some(*i as f64),
        _ => None,
    };
    check("as_f64", same_f(v.as_f64(), f));
    check("is_string", v.is_string() == matches!(b, T::Str(_)));
    check("as_str", v.as_str() == if let T::Str(s) = b { Some(s.as_str()) } else { None });
    check("is_sequence", v.is_sequence() == matches!(b, T::Seq(_)));
    check("is_mapping", v.is_mapping() == matches!(b, T::Map(_)));
    match (v.as_sequence(), b) {
        (Some(s), T::Seq(w)) => check("as_sequence", T::Seq(s.iter().map(T::of).collect()).same(&T::Seq(w.clone()))),
        (r, w) => check("as_sequence", r.is_none() && !matches!(w, T::Seq(_))),
    }
    match (v.as_mapping(), b) {
        (Some(m), T::Map(_)) => check("as_mapping", T::of_mapping(m).same(b)),
        (r, w) => check("as_mapping", r.is_none() && !matches!(w, T::Map(_))),
    }
    for s in ["", "a", "true", "null", "1", "a\nb", "k", "A"] {
        let w = matches!(b, T::Str(x) if x == s);
        check("== str", (*v == *s) == w);
        check("== &str", (*v == s) == w);
        check("== String", (*v == s.to_owned()) == w);
        check("!= str", (*v != *s) != w);
    }
    for x in [false, true] {
        check("== bool", (*v == x) == matches!(b, T::Bool(y) if *y == x));
    }
    cx.step(50);
    cx.trace();
    for w in wrong {
        cx.fail(format!("{w} of {t:?}"), format!("{w} is wrong about {t:?} in {shown:?}"));
    }
    // and so on inside
    match (t, v) {
        (T::Seq(a), Value::Sequence(b)) => a.iter().zip(b).for_each(|(t, v)| tells(cx, t, v, shown)),
        (T::Map(a), Value::Mapping(b)) => a.iter().zip(b).for_each(|((k, t), (l, v))| {
            tells(cx, k, l, shown);
            tells(cx, t, v, shown);
        }),
        (T::Tag(_, a), Value::Tagged(b)) => tells(cx, a, &b.value, shown),
        _ => {}
    }
}

/// Change what as_sequence_mut or as_mapping_mut gives at one node: there it changes, nowhere else.
fn write(cx: &mut Cx, t: &T, path: &[usize], how: usize) {
    fn at<'a>(t: &'a mut T, path: &[usize]) -> Option<&'a mut T> {
        let Some((i, rest)) = path.split_first() else { return Some(t) };
        match bare_mut(t) {
            T::Seq(v) => at(v.get_mut(*i)?, rest),
            T::Map(v) => at(&mut v.get_mut(*i)?.1, rest),
            _ => None,
        }
    }
    fn at_value<'a>(v: &'a mut Value, path: &[usize]) -> Option<&'a mut Value> {
        let Some((i, rest)) = path.split_first() else { return Some(v) };
        if v.is_sequence() {
            at_value(v.as_sequence_mut()?.get_mut(*i)?, rest)
        } else {
            at_value(v.as_mapping_mut()?.values_mut().nth(*i)?, rest)
        }
    }
    let mut want = t.clone();
    let original = t.to_value();
    let mut v = original.clone();
    let (Some(w), Some(x)) = (at(&mut want, path), at_value(&mut v, path)) else {
        cx.fail(format!("no way to {path:?} in {t:?}"), "the mutable accessors do not lead where the tree has a node".to_owned());
        return;
    };
    match bare_mut(w) {
        T::Seq(e) => {
            if x.as_mapping_mut().is_some() {
                cx.fail(format!("as_mapping_mut of {t:?} at {path:?}"), "a sequence is given as a mapping".to_owned());
            }
            let Some(y) = x.as_sequence_mut() else {
                cx.fail(format!("as_sequence_mut of {t:?} at {path:?}"), "a sequence is not given as one".to_owned());
                return;
            };
            match how {
                0 => {
                    e.push(st("new"));
                    y.push(Value::from("new"));
                }
                1 => {
                    e.clear();
                    y.clear();
                }
                2 => {
                    e.insert(0, T::Null);
                    y.insert(0, Value::Null);
                }
                _ => {
                    e.pop();
                    y.pop();
                }
            }
        }
        T::Map(e) => {
            if x.as_sequence_mut().is_some() {
                cx.fail(format!("as_sequence_mut of {t:?} at {path:?}"), "a mapping is given as a sequence".to_owned());
            }
            let Some(y) = x.as_mapping_mut() else {
                cx.fail(format!("as_mapping_mut of {t:?} at {path:?}"), "a mapping is not given as one".to_owned());
                return;
            };
            match how {
                0 => {
                    match e.iter_mut().find(|(k, _)| k.equal(&st("new"))) {
                        Some(x) => x.1 = T::Int(5),
                        None => e.push((st("new"), T::Int(5))),
                    }
                    y.insert(Value::from("new"), Value::from(5));
                }
                1 => {
                    e.clear();
                    y.clear();
                }
                2 => {
                    e.iter_mut().for_each(|x| x.1 = T::Null);
                    y.values_mut().for_each(|x| *x = Value::Null);
                }
                _ => {
                    e.truncate(1);
                    let first = y.iter().next().map(|(k, _)| k.clone());
                    y.retain(|k, _| Some(k) == first.as_ref());
                }
            }
        }
        _ => {
            if x.as_sequence_mut().is_some() || x.as_mapping_mut().is_some() {
                cx.fail(format!("as_..._mut of {t:?} at {path:?}"), "a scalar is given as a collection".to_owned());
            }
        }
    }
    cx.step(2);
    cx.trace();
    if !T::of(&v).same(&want) {
        cx.fail(format!("{t:?} written at {path:?} in way {how}"), format!("expected {want:?}, got {:?}", T::of(&v)));
    }
    if !T::of(&original).same(t) {
        cx.fail(format!("{t:?} written at {path:?} in way {how}"), format!("writing to a clone changed the original to {:?}", T::of(&original)));
    }
}

fn paths(t: &T, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    let inside: Vec<&T> = match bare(t) {
        T::Seq(v) => v.iter().collect(),
        T::Map(v) => v.iter().map(|(_, e)| e).collect(),
        _ => vec![],
    };
    for (i, e) in inside.into_iter().enumerate() {
        at.push(i);
        paths(e, at, out);
        at.pop();
    }
}

fn gen(leaves: Vec<T>) -> Gen {
    let mut g = Gen::new(leaves, &["t"]);
    g.nested_tags = true;
    g
}

fn made(cx: &mut Cx, how: &str, v: Value, want: &T) {
    cx.step(1);
    cx.trace();
    if !T::of(&v).same(want) {
        cx.fail(format!("{how} of {want:?}"), format!("gives {:?}", T::of(&v)));
    }
}

fn ints(cx: &mut Cx, i: i128) {
    let w = T::Int(i);
    macro_rules! from {
        ($($t:ident)*) => {$(
            if let Some(x) = i.to_string().parse::<$t>().ok() {
                made(cx, concat!("Value::from ", stringify!($t)), Value::from(x), &w);
                made(cx, concat!("Number::from ", stringify!($t)), Value::Number(Number::from(x)), &w);
                made(cx, concat!("Vec of ", stringify!($t)), Value::from(vec![x, x]), &T::Seq(vec![w.clone(), w.clone()]));
                let v = Value::from(x);
                if v != x || x != v.as_i64().map(|i| i as i128).or(v.as_u64().map(|u| u as i128)).unwrap_or(1) as $t {
                    cx.fail(format!("{i} as {}", stringify!($t)), "not equal to the number it was made of".to_owned());
                }
            }
        )*};
    }
    from!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
}

/// The Debug form, on one line or laid out.
fn shown(t: &T, laid: bool) -> String {
    let inside = |open: &str, items: Vec<String>, close: &str| match (items.is_empty(), laid) {
        (true, _) => format!("{}{close}", open.trim_end()),
        (_, false) => format!("{open}{}{}{close}", items.join(", "), if open.ends_with(' ') { " " } else { "" }),
        (_, true) => {
            let l: Vec<String> = items.iter().flat_map(|i| format!("{i},").split('\n').map(|l| format!("    {l}\n")).collect::<Vec<_>>()).collect();
            format!("{}\n{}{close}", open.trim_end(), l.concat())
        }
    };
    let number = |t: &T| match t {
        T::Int(i) => i.to_string(),
        T::Float(f) => Number::from(*f).to_string(),
        _ => unreachable!(),
    };
    match t {
        T::Null => "Null".to_owned(),
        T::Bool(b) => format!("Bool({b})"),
        T::Int(_) | T::Float(_) => format!("Number({})", number(t)),
        T::Str(s) => format!("String({s:?})"),
        T::Seq(v) => format!("Sequence {}", inside("[", v.iter().map(|e| shown(e, laid)).collect(), "]")),
        T::Map(v) => {
            let key = |k: &T| match k {
                T::Bool(b) => b.to_string(),
                T::Int(_) | T::Float(_) => number(k),
                T::Str(s) => format!("{s:?}"),
                k => shown(k, laid),
            };
            format!("Mapping {}", inside("{", v.iter().map(|(k, e)| format!("{}: {}", key(k), shown(e, laid))).collect(), "}"))
        }
        T::Tag(n, v) => format!("TaggedValue {}", inside("{ ", vec![format!("tag: !{n}"), format!("value: {}", shown(v, laid))], "}")),
    }
}

fn shows(cx: &mut Cx, t: &T) {
    let v = t.to_value();
    for (laid, got) in [(false, format!("{v:?}")), (true, format!("{v:#?}"))] {
        cx.step(1);
        cx.trace();
        let want = shown(t, laid);
        if got != want {
            cx.fail(format!("shown {t:?}"), format!("{t:?} is shown as {got} instead of {want}"));
        }
    }
    let inner = match &v {
        Value::Number(n) => format!("{n:?}"),
        Value::Mapping(m) => format!("{m:?}"),
        Value::Tagged(t) => format!("{t:?}"),
        _ => return,
    };
    if inner != shown(t, false) {
        cx.fail(format!("shown {t:?}"), format!("what {t:?} holds is shown as {inner}"));
    }
}

/// Comparisons with numbers of every primitive type: whether it holds that number.
fn compares(cx: &mut Cx, t: &T, v: &Value) {
    let mut wrong: Vec<String> = vec![];
    let mut w = v.clone();
    macro_rules! ints {
        ($fits:ident: $($p:ident)*) => {$(
            for x in [0i128, 1, -1, 5, 7, 127, -128, 255, $p::MIN as i128, $p::MAX as i128] {
                let Ok(y) = $p::try_from(x) else { continue };
                let want = matches!(bare(t), T::Int(i) if *i == x && $fits::try_from(*i).is_ok());
                if (*v == y) != want || (v == y) != want || (&mut w == y) != want || (*v != y) == want {
                    wrong.push(format!("== {x}{}", stringify!($p)));
                }
            }
        )*};
    }
    ints!(i64: i8 i16 i32 i64 isize);
    ints!(u64: u8 u16 u32 u64 usize);
    let f = match bare(t) {
        T::Float(f) => Some(*f),
        T::Int(i) => Some(*i as f64),
        _ => None,
    };
    for x in [0.0, -0.0, 1.0, 1.5, -1.5, 0.5, 7.0, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9223372036854775807.0, 18446744073709551615.0] {
        let want = f == Some(x);
        if (*v == x) != want || (v == x) != want || (&mut w == x) != want || (*v != x) == want {
            wrong.push(format!("== {x}f64"));
        }
        let y = x as f32;
        let want = f == Some(f64::from(y));
        if (*v == y) != want || (v == y) != want || (&mut w == y) != want || (*v != y) == want {
            wrong.push(format!("== {y}f32"));
        }
    }
    for x in ["", "a", "true", "null", "1"] {
        let want = matches!(bare(t), T::Str(s) if s == x);
        if (*v == x) != want || (*v == *x) != want || (*v == x.to_owned()) != want {
            wrong.push(format!("== {x:?}"));
        }
    }
    cx.step(500);
    cx.trace();
    for w in wrong {
        cx.fail(format!("{t:?} {w}"), format!("the comparison {w} is wrong about {t:?}"));
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let n = tier.pick(7, 8);
    f.push(family(
        "trees",
        format!("every tree of at most {n} nodes over 4 leaves, tags on tags too: every accessor at every node, and the Debug forms"),
        move |ch, cx| {
            let mut l = leaves_small();
            l.push(T::Bool(true));
            let t = gen(l).tree(ch, n);
            if t.has_dup_keys() || !cx.state(&t) {
                return;
            }
            tells(cx, &t, &t.to_value(), &t);
            shows(cx, &t);
        },
    ));
    f.push(family(
        "leaves",
        "every leaf of the wide alphabet under 0 to 3 tags, alone and inside each kind of collection: every accessor, the Debug forms, and comparisons with numbers of the twelve primitive types",
        |ch, cx| {
            let l = leaves_wide();
            let mut t = ch.pick(&l).clone();
            for _ in 0..ch.choose(4) {
                t = tagged("t", t);
            }
            compares(cx, &t, &t.to_value());
            let t = match ch.choose(4) {
                0 => t,
                1 => T::Seq(vec![t, st("z")]),
                2 => T::Map(vec![(st("z"), t)]),
                _ => T::Map(vec![(t, st("z"))]),
            };
            cx.state(&t);
            tells(cx, &t, &t.to_value(), &t);
            shows(cx, &t);
        },
    ));
    let n = tier.pick(7, 8);
    f.push(family(
        "written",
        format!("every tree of at most {n} nodes, tags on tags too, cloned and written to through as_sequence_mut and as_mapping_mut at every node in 4 ways"),
        move |ch, cx| {
            let t = gen(vec![T::Int(1), st("a")]).tree(ch, n);
            if t.has_dup_keys() {
                return;
            }
            let mut p = vec![];
            paths(&t, &mut vec![], &mut p);
            let p = ch.pick(&p).clone();
            let how = ch.choose(4);
            cx.state(&(&t, &p, how));
            write(cx, &t, &p, how);
        },
    ));
    f.push(family(
        "written twice",
        "every tree of at most 5 nodes written to at every pair of nodes in every pair of ways: the second write meets the first one's result",
        |ch, cx| {
            let t = gen(vec![st("a")]).tree(ch, 5);
            if t.has_dup_keys() {
                return;
            }
            let mut ps = vec![];
            paths(&t, &mut vec![], &mut ps);
            let p = ch.pick(&ps).clone();
            let how = ch.choose(4);
            write(cx, &t, &p, how);
            // the tree the first write makes, made anew
            let mut v = t.to_value();
            let mut cur = &mut v;
            for i in &p {
                cur = if cur.is_sequence() {
                    &mut cur.as_sequence_mut().unwrap()[*i]
                } else {
                    cur.as_mapping_mut().unwrap().values_mut().nth(*i).unwrap()
                };
            }
            if let Some(s) = cur.as_sequence_mut() {
                s.push(Value::from("new"));
            } else if let Some(m) = cur.as_mapping_mut() {
                m.insert(Value::from("new"), Value::from(5));
            }
            let t = T::of(&v);
            let mut ps = vec![];
            paths(&t, &mut vec![], &mut ps);
            let q = ch.pick(&ps).clone();
            let how = ch.choose(4);
            cx.state(&(&t, &q, how));
            write(cx, &t, &q, how);
        },
    ));
    f.push(family(
        "made of integers",
        "every integer within 300 of zero and within 3 of every power of two up to 2^64: From for Value and Number of every integer type it fits",
        |ch, cx| {
            let i = if ch.flag() {
                ch.choose(601) as i128 - 300
            } else {
                let b = 1i128 << ch.choose(65);
                let b = if ch.flag() { -b } else { b };
                b + ch.choose(7) as i128 - 3
            };
            cx.state(&i);
            ints(cx, i);
        },
    ));
    f.push(family(
        "made",
        "From and FromIterator of strings (5 ways), booleans, floats (2 widths), mappings, vectors and slices of 0 to 4 of 6 things, and of every one of those things nested",
        |ch, cx| {
            let strings = strings_wide();
            match ch.choose(6) {
                0 => {
                    let s = ch.pick(&strings).clone();
                    cx.state(&s);
                    let w = st(&s);
                    made(cx, "From<&str>", Value::from(s.as_str()), &w);
                    made(cx, "From<String>", Value::from(s.clone()), &w);
                    made(cx, "From<Cow> borrowed", Value::from(Cow::Borrowed(s.as_str())), &w);
                    made(cx, "From<Cow> owned", Value::from(Cow::<str>::Owned(s.clone())), &w);
                    made(cx, "Vec<&str>", Value::from(vec![s.as_str()]), &T::Seq(vec![w.clone()]));
                    made(cx, "Vec<String>", Value::from(vec![s.clone(), s.clone()]), &T::Seq(vec![w.clone(), w.clone()]));
                    made(cx, "collect strings", std::iter::once(s.clone()).collect::<Value>(), &T::Seq(vec![w.clone()]));
                    let v = Value::from(s.as_str());
                    if v != s || v != s.as_str() || v != *s.as_str() {
                        cx.fail(format!("{s:?}"), "not equal to the string it was made of".to_owned());
                    }
                }
                1 => {
                    let b = ch.flag();
                    cx.state(&b);
                    made(cx, "From<bool>", Value::from(b), &T::Bool(b));
                    made(cx, "Vec<bool>", Value::from(vec![b, !b]), &T::Seq(vec![T::Bool(b), T::Bool(!b)]));
                    made(cx, "Default", Value::default(), &T::Null);
                    made(cx, "Default of Mapping", Value::Mapping(Mapping::default()), &T::Map(vec![]));
                    made(cx, "new Mapping", Value::from(Mapping::new()), &T::Map(vec![]));
                    made(cx, "Mapping with capacity", Value::from(Mapping::with_capacity(3)), &T::Map(vec![]));
                }
                2 => {
                    let e = ch.choose(2048) as u64;
                    let m = *ch.pick(&[0u64, 1, 1 << 51, (1 << 52) - 1, 1 << 29]);
                    let x = f64::from_bits((ch.choose(2) as u64) << 63 | e << 52 | m);
                    cx.state(&x.to_bits());
                    made(cx, "From<f64>", Value::from(x), &T::Float(x));
                    made(cx, "Number From<f64>", Value::Number(Number::from(x)), &T::Float(x));
                    let y = x as f32;
                    made(cx, "From<f32>", Value::from(y), &T::Float(y as f64));
                    made(cx, "Number From<f32>", Value::Number(Number::from(y)), &T::Float(y as f64));
                    made(cx, "Vec<f64>", Value::from(vec![x]), &T::Seq(vec![T::Float(x)]));
                }
                3 | 4 => {
                    let things = [T::Null, T::Int(1), st("a"), T::Seq(vec![T::Bool(false)]), T::Map(vec![(st("k"), T::Null)]), tagged("t", T::Int(2))];
                    let n = ch.choose(5);
                    let list: Vec<T> = (0..n).map(|_| ch.pick(&things).clone()).collect();
                    cx.state(&list);
                    let w = T::Seq(list.clone());
                    let values: Vec<Value> = list.iter().map(T::to_value).collect();
                    made(cx, "From<Vec<Value>>", Value::from(values.clone()), &w);
                    made(cx, "From<&[Value]>", Value::from(&values[..]), &w);
                    made(cx, "collect Values", values.iter().cloned().collect::<Value>(), &w);
                    made(cx, "From<Vec<Vec<Value>>>", Value::from(vec![values.clone(), vec![], values.clone()]), &T::Seq(vec![w.clone(), T::Seq(vec![]), w.clone()]));
                    let mut m = Mapping::new();
                    let mut e: Vec<(T, T)> = vec![];
                    for (i, t) in list.iter().enumerate() {
                        // an equal key later on replaces what is there
                        let v = T::Int(i as i128);
                        m.insert(t.to_value(), v.to_value());
                        match e.iter_mut().find(|(k, _)| k.equal(t)) {
                            Some(x) => x.1 = v,
                            None => e.push((t.clone(), v)),
                        }
                    }
                    let w = T::Map(e);
                    made(cx, "From<Mapping>", Value::from(m.clone()), &w);
                    made(cx, "Vec<Mapping>", Value::from(vec![m.clone()]), &T::Seq(vec![w.clone()]));
                    made(cx, "collect Mapping", Value::from(list.iter().enumerate().map(|(i, t)| (t.to_value(), Value::from(i))).collect::<Mapping>()), &w);
                }
                _ => {
                    let s = ch.pick(&strings).clone();
                    cx.state(&(&s, 0));
                    if s.is_empty() {
                        if guarded(|| Tag::new("")).is_ok() {
                            cx.fail("Tag::new(\"\")", "an empty tag is made".to_owned());
                        }
                        return;
                    }
                    let bare = s.strip_prefix('!').filter(|r| !r.is_empty()).unwrap_or(&s);
                    let banged = format!("!{bare}");
                    let (a, b) = (Tag::new(s.clone()), Tag::new(banged.as_str()));
                    cx.step(4);
                    cx.trace();
                    if a.to_string() != banged && s != "!" {
                        cx.fail(format!("Tag::new({s:?})"), format!("shown as {:?}", a.to_string()));
                    }
                    if s != "!" && (a != b || a != *bare || a != *banged.as_str() || a != bare.to_owned()) {
                        cx.fail(format!("Tag::new({s:?})"), "not equal to itself with or without its bang".to_owned());
                    }
                    if a == *format!("{s}x").as_str() || a == Tag::new(format!("{s}x")) {
                        cx.fail(format!("Tag::new({s:?})"), "equal to another name".to_owned());
                    }
                    let v = Value::Tagged(Box::new(TaggedValue { tag: a, value: Value::from(s.as_str()) }));
                    if v != *s.as_str() || v.as_str() != Some(&s) {
                        cx.fail(format!("tagged {s:?}"), "a tagged string is not that string".to_owned());
                    }
                }
            }
        },
    ));
    f
}
