//! C17: enums keep their variant and payload in every representation.

use crate::data::{self, Kinds, Rep, D, W};
use crate::big;
use crate::explore::*;
use crate::text::{self, Opts, N};
use crate::tree::*;
use serde::de::{DeserializeOwned, DeserializeSeed};
use serde::Deserialize;
use serde_derive::Deserialize;
use serde_yaml::with::{singleton_map, singleton_map_recursive};
use serde_yaml::Value;
use std::sync::OnceLock;

fn check(cx: &mut Cx, d: &D) {
    let want = d.content();
    if want.has_dup_keys() || d.vague() {
        return;
    }
    cx.state(&format!("{d:?}"));
    cx.case = format!("{d:?}");
    cx.step(2);
    let v = serde_yaml::to_value(d).map_err(|e| e.to_string());
    let text = serde_yaml::to_string(d).map_err(|e| e.to_string());
    let nested = want.nested_tag();
    let mut key = format!("{d:?}");
    let bad = (|| {
        match &v {
            Ok(v) if T::of(v).same(&want) => {}
            Ok(v) if T::of(v).same(&d.content_known(false)) => {
                key = "singleton_map inside of singleton_map_recursive".to_owned();
                return Some(format!("its Value is {v:?}"));
            }
            v => return Some(format!("its Value is {v:?}")),
        }
        match (&text, nested) {
            (Err(_), true) => {
                cx.outcome("refused: a variant directly inside a variant");
                return None;
            }
            (Ok(t), true) => return Some(format!("a variant inside a variant is written {t:?}")),
            (Err(e), false) => return Some(format!("refused: {e}")),
            (Ok(_), false) => {}
        }
        cx.outcome("read back");
        let (v, text) = (v.as_ref().unwrap(), text.as_ref().unwrap());
        cx.step(4);
        match serde_yaml::from_str::<Value>(text) {
            Ok(v) if T::of(&v).same(&want) => {}
            r => return Some(format!("{text:?} is {r:?}")),
        }
        for (how, r) in [
            ("text", data::like(d).deserialize(serde_yaml::Deserializer::from_str(text)).map_err(|e| e.to_string())),
            ("its Value by reference", data::like(d).deserialize(v).map_err(|e| e.to_string())),
            ("its Value", data::like(d).deserialize(v.clone()).map_err(|e| e.to_string())),
        ] {
            if !r.as_ref().is_ok_and(|g| g.same(d)) {
                return Some(format!("written {text:?}, read back from {how} as {r:?}"));
            }
        }
        None
    })();
    match bad {
        None => cx.trace(),
        Some(bad) => cx.fail(key, format!("{d:?}, content {want:?}: {bad}")),
    }
}

/// The enum that is read from arbitrary content.
#[derive(Clone, Debug, PartialEq, Deserialize)]
enum E {
    Unit,
    New(i32),
    Tup(i32, i32),
    St { a: i32 },
    Opt(Option<Box<E>>),
}
#[derive(Debug, PartialEq, Deserialize)]
#[serde(transparent)]
struct Single(#[serde(with = "singleton_map")] E);
#[derive(Debug, PartialEq, Deserialize)]
#[serde(transparent)]
struct SingleOpt(#[serde(with = "singleton_map")] Option<E>);

#[derive(Debug, PartialEq)]
enum Must {
    Be(E),
    Refuse,
    /// not a representation that is written
    RefuseOr(E),
}
use Must::*;

fn int(t: &T) -> Option<i32> {
    match t {
        T::Int(i) => (*i).try_into().ok(),
        _ => None,
    }
}

/// Other tags than those of variants are looked through by what is not an enum.
fn untagged(t: &T) -> T {
    match t {
        T::Tag(_, v) => untagged(v),
        T::Seq(v) => T::Seq(v.iter().map(untagged).collect()),
        T::Map(v) => T::Map(v.iter().map(|(k, e)| (untagged(k), untagged(e))).collect()),
        t => t.clone(),
    }
}

/// What a variant with this payload is; inside of it, enums are represented as by `inner`.
fn variant(n: &str, t: &T, inner: Rep) -> Must {
    if n != "Opt" && !untagged(t).same(t) {
        return match variant(n, &untagged(t), inner) {
            Be(e) => RefuseOr(e),
            r => r,
        };
    }
    match (n, t) {
        ("Unit", T::Null) => RefuseOr(E::Unit),
        ("New", t) => int(t).map_or(Refuse, |i| Be(E::New(i))),
        ("Tup", T::Seq(v)) if v.len() == 2 => match (int(&v[0]), int(&v[1])) {
            (Some(a), Some(b)) => Be(E::Tup(a, b)),
            _ => Refuse,
        },
        ("St", T::Map(v)) => {
            let mine: Vec<_> = v.iter().filter(|e| e.0.same(&st("a"))).collect();
            // the names of fields are strings
            if v.iter().any(|e| !matches!(e.0, T::Str(_))) {
                return match &mine[..] {
                    [e] => int(&e.1).map_or(Refuse, |a| RefuseOr(E::St { a })),
                    _ => Refuse,
                };
            }
            match &mine[..] {
                [e] => int(&e.1).map_or(Refuse, |a| Be(E::St { a })),
                _ => Refuse,
            }
        }
        // serde's derived implementation takes fields by position too
        ("St", T::Seq(v)) => match &v[..] {
            [a] => int(a).map_or(Refuse, |a| RefuseOr(E::St { a })),
            _ => Refuse,
        },
        ("Opt", T::Null) => Be(E::Opt(None)),
        ("Opt", t) => match read(t, inner) {
            Be(e) => Be(E::Opt(Some(Box::new(e)))),
            RefuseOr(e) => RefuseOr(E::Opt(Some(Box::new(e)))),
            Refuse => Refuse,
        },
        _ => Refuse,
    }
}
fn read(t: &T, rep: Rep) -> Must {
    let inner = if rep == Rep::Single { Rep::Tag } else { rep };
    match (rep, t) {
        (_, T::Str(s)) if s == "Unit" => Be(E::Unit),
        (Rep::Tag, T::Tag(n, v)) => match variant(n, v, inner) {
            // a variant inside a variant has no representation
            Be(E::Opt(Some(e))) if *e != E::Unit => RefuseOr(E::Opt(Some(e))),
            Be(E::Opt(Some(e))) => RefuseOr(E::Opt(Some(e))),
            r => r,
        },
        (Rep::Single | Rep::Rec, T::Map(v)) => match &v[..] {
            [(T::Str(n), t)] => variant(n, t, inner),
            _ => Refuse,
        },
        (Rep::Single | Rep::Rec, T::Tag(n, v)) => match variant(n, v, Rep::Tag) {
            Be(e) => RefuseOr(e),
            r => r,
        },
        _ => Refuse,
    }
}

fn reading(cx: &mut Cx, t: &T) {
    let Ok(text) = serde_yaml::to_string(&t.to_value()) else { return };
    let v = t.to_value();
    cx.state(t);
    cx.case = format!("{t:?}");
    fn str<T: DeserializeOwned>(text: &str) -> Result<T, String> {
        serde_yaml::from_str(text).map_err(|e| e.to_string())
    }
    let de = || serde_yaml::Deserializer::from_str(&text);
    let err = |e: serde_yaml::Error| e.to_string();
    let got: [(Rep, &str, Result<E, String>); 9] = [
        (Rep::Tag, "text", str(&text)),
        (Rep::Tag, "reference", E::deserialize(&v).map_err(err)),
        (Rep::Tag, "value", serde_yaml::from_value(v.clone()).map_err(err)),
        (Rep::Single, "text", str(&text).map(|Single(e)| e)),
        (Rep::Single, "reference", singleton_map::deserialize(&v).map_err(err)),
        (Rep::Single, "value", singleton_map::deserialize(v.clone()).map_err(err)),
        (Rep::Rec, "text", singleton_map_recursive::deserialize(de()).map_err(err)),
        (Rep::Rec, "reference", singleton_map_recursive::deserialize(&v).map_err(err)),
        (Rep::Rec, "value", singleton_map_recursive::deserialize(v.clone()).map_err(err)),
    ];
    for (rep, from, r) in got {
        cx.step(1);
        let want = read(t, rep);
        cx.outcome(match &r {
            Ok(_) => "an enum",
            Err(_) => "refused",
        });
        match (&want, &r) {
            (Be(a), Ok(b)) | (RefuseOr(a), Ok(b)) if a == b => cx.trace(),
            (Refuse | RefuseOr(_), Err(_)) => cx.trace(),
            _ => cx.fail(format!("{rep:?} {from} {t:?}"), format!("{t:?} ({text:?}) read from {from} in the {rep:?} representation: {r:?}, must {want:?}")),
        }
    }
    // the adapter on an option
    let want = match t {
        T::Null => Some(None),
        t => match read(t, Rep::Single) {
            Be(e) => Some(Some(e)),
            _ => None,
        },
    };
    let from = [
        ("text", str(&text).map(|SingleOpt(e)| e)),
        ("reference", singleton_map::deserialize(&v).map_err(err)),
        ("value", singleton_map::deserialize(v.clone()).map_err(err)),
        ("text, recursively", singleton_map_recursive::deserialize(de()).map_err(err)),
    ];
    // where both adapters agree
    let same = read(t, Rep::Single) == read(t, Rep::Rec);
    for (from, r) in from {
        cx.step(1);
        if from == "text, recursively" && !same {
            continue;
        }
        match (&want, &r) {
            (Some(a), Ok(b)) if a == b => cx.trace(),
            (None, Err(_)) => cx.trace(),
            (None, Ok(Some(b))) if matches!(read(t, Rep::Single), RefuseOr(a) if a == *b) => cx.trace(),
            _ => cx.fail(format!("option {from} {t:?}"), format!("{t:?} ({text:?}) read from {from} as an option in the Single representation: {r:?}, must be {want:?}")),
        }
    }
}

/// The adapters between data and another format: what it is told is what a Value would hold, and
/// data told by it in whatever way is read back; whatever it fails with is passed on.
fn elsewhere(cx: &mut Cx, d: &D, ways: &[super::c25::Way]) {
    use super::c25::{outwards_any, read_with, E};
    let want = d.content();
    if want.has_dup_keys() || d.vague() {
        return;
    }
    cx.state(&format!("{d:?}"));
    cx.case = format!("{d:?}");
    outwards_any(cx, &format!("{d:?}"), d, &want, true, true);
    for w in ways {
        let (r, calls) = read_with(&want, *w, None, |s| data::like(d).deserialize(s));
        cx.step(calls);
        cx.trace();
        if !r.as_ref().is_ok_and(|g| g.same(d)) {
            cx.fail(format!("{d:?} told in {w:?}"), format!("{want:?} told by another format in {w:?} is read as {r:?}"));
            continue;
        }
        for at in 0..calls {
            let (r, n) = read_with(&want, *w, Some(at), |s| data::like(d).deserialize(s));
            cx.step(n);
            cx.trace();
            if !matches!(&r, Err(E::Fault(k)) if *k == at) || n != at + 1 {
                cx.fail(format!("{d:?} told in {w:?} with a fault at call {at}"), format!("{n} calls, then {r:?}"));
            }
        }
    }
}

fn names() -> &'static [&'static str] {
    static NAMES: OnceLock<Vec<&'static str>> = OnceLock::new();
    NAMES.get_or_init(|| strings_wide().into_iter().map(|s| &*s.leak()).collect())
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let full = Kinds {
        leaves: vec![D::Int(7, W::I32), data::str("s"), D::None],
        wrappers: true,
        tuples: true,
        structs: true,
        enums: true,
        styles: false,
        complex_keys: true,
        adapters: true, within: 0,
    };
    let n = 5;
    let all = Kinds { adapters: false, ..full.clone() };
    f.push(family(
        "elsewhere",
        format!("every tree of at most {n} nodes of the same kinds, serialized by either adapter into another format, and read by the recursive one from it in 10 ways, failing at any call"),
        move |ch, cx| {
            let d = all.tree(ch, n);
            let rep = *ch.pick(&[Rep::Single, Rep::Rec]);
            let d = D::With(rep, Box::new(d));
            let ways = super::c25::ways();
            elsewhere(cx, &d, if rep == Rep::Rec { &ways } else { &[] });
        },
    ));
    let enums = Kinds { leaves: vec![D::Int(7, W::I32)], tuples: false, structs: false, complex_keys: false, ..full.clone() };
    for (name, kinds, n) in [("compositions", full, tier.pick(5, 6)), ("enums in adapters", enums, tier.pick(6, 7))] {
        f.push(family(
            name,
            format!("every tree of at most {n} nodes over {} leaves, the containers, the four variant kinds and the two adapters", kinds.leaves.len()),
            move |ch, cx| {
                let d = kinds.tree(ch, n);
                check(cx, &d);
            },
        ));
    }
    f.push(family(
        "names",
        format!("every one of {} variant names, of every kind of variant, in every representation, in 6 positions", names().len()),
        |ch, cx| {
            let n = names()[ch.choose(names().len())];
            let kind = ch.choose(6);
            let rep = *ch.pick(&[Rep::Tag, Rep::Single, Rep::Rec]);
            // what a tag cannot be is C01's to say
            if rep == Rep::Tag && kind > 0 && (n.is_empty() || n.starts_with('!') || n.contains(['\0', ',', '[', ']', '{', '}'])) {
                return;
            }
            let i = || D::Int(7, W::I32);
            let e = match kind {
                0 => D::UnitVar(n),
                1 => D::NewVar(n, Box::new(i())),
                2 => D::NewVar(n, Box::new(data::str(n))),
                3 => D::TupVar(n, vec![i(), data::str(n)]),
                4 => D::TupVar(n, vec![]),
                _ => D::StVar(n, vec![("a", i()), (n, i())]),
            };
            let some = ch.flag();
            let e = if some { D::Some(Box::new(e)) } else { e };
            let e = if rep == Rep::Tag { e } else { D::With(rep, Box::new(e)) };
            let d = match ch.choose(6) {
                0 => e,
                1 => D::Seq(vec![e, data::str(n)], true),
                2 => D::Map(vec![(data::str("k"), e)], 1),
                3 => D::Map(vec![(e, i())], 1),
                4 => D::Struct(vec![("a", e)]),
                _ => D::TupVar("Tup", vec![e]),
            };
            check(cx, &d);
        },
    ));
    f.push(family(
        "payloads",
        "every scalar (wide strings, chars, the ends of the ten integer types and beyond 64 bits, floats) in 9 kinds of payload, in every representation, in 4 positions: read back the same",
        |ch, cx| {
            let mut all = super::c12::scalars();
            all.retain(|d| !matches!(d, D::Str(_, how) if *how > 0));
            let wide = all.len();
            all.extend([(i128::MIN, W::I128), (i64::MIN as i128 - 1, W::I128), (u64::MAX as i128 + 1, W::I128), (i128::MAX, W::I128), (u64::MAX as i128 + 1, W::U128), (i128::MAX, W::U128)].map(|(i, w)| D::Int(i, w)));
            let i = ch.choose(all.len());
            let p = || all[i].clone();
            let rep = *ch.pick(&[Rep::Tag, Rep::Single, Rep::Rec]);
            let kind = ch.choose(9);
            let b = Box::new;
            let e = match kind {
                0 => D::NewVar("New", b(p())),
                1 => D::NewVar("New", b(D::Some(b(p())))),
                2 => D::NewVar("New", b(D::Seq(vec![p(), p()], true))),
                3 => D::NewVar("New", b(D::Map(vec![(p(), p())], 1))),
                4 => D::NewVar("New", b(D::Struct(vec![("a", p())]))),
                5 => D::TupVar("Tup", vec![p(), p()]),
                6 => D::TupVar("Tup", vec![D::Tuple(vec![p()]), D::Map(vec![(p(), p()), (D::Bool(false), p())], 3)]),
                7 => D::StVar("St", vec![("a", p()), ("b c", p())]),
                _ => D::StVar("St", vec![("a", D::Newtype(b(D::Some(b(p()))))), ("1", D::Seq(vec![p()], false))]),
            };
            let e = if rep == Rep::Tag { e } else { D::With(rep, b(e)) };
            let d = match ch.choose(4) {
                0 => e,
                1 => D::Seq(vec![e, p()], true),
                2 => D::Map(vec![(data::str("k"), e)], 1),
                _ => D::Map(vec![(e, p())], 1),
            };
            if i < wide {
                return check(cx, &d);
            }
            // a Value cannot hold these
            cx.state(&format!("{d:?}"));
            cx.case = format!("{d:?}");
            cx.step(2);
            let text = serde_yaml::to_string(&d).map_err(|e| e.to_string());
            let r = text.as_ref().map(|t| data::like(&d).deserialize(serde_yaml::Deserializer::from_str(t)).map_err(|e| e.to_string()));
            if matches!(&r, Ok(Ok(g)) if g.same(&d)) {
                cx.outcome("integers beyond 64 bits");
                return cx.trace();
            }
            let key = match (kind, rep) {
                (5.., Rep::Single | Rep::Rec) => "integer beyond 64 bits in a tuple or struct variant by an adapter".to_owned(),
                _ => format!("wide {d:?}"),
            };
            cx.fail(key, format!("{d:?} is written {text:?} and read back as {r:?}"));
        },
    ));
    let n = tier.pick(5, 6);
    f.push(family(
        "readings",
        format!("every tree of at most {n} nodes over 9 leaves and the names of the variants: read in the three representations it is the enum it represents, or refused"),
        move |ch, cx| {
            let mut g = Gen::new(vec![T::Null, T::Int(1), st("Unit"), st("New"), st("Tup"), st("St"), st("Opt"), st("a"), st("other")], &["Unit", "New", "Tup", "St", "Opt"]);
            g.complex_keys = false;
            let t = g.tree(ch, n);
            if !t.has_dup_keys() {
                reading(cx, &t);
            }
        },
    ));
    let (n, dev) = tier.pick((4, 1), (4, 2));
    let kinds = Kinds { leaves: vec![D::Int(7, W::I32), D::None], tuples: false, structs: false, enums: true, wrappers: true, styles: false, complex_keys: false, adapters: true, within: 0 };
    f.push(family(
        "presentations",
        format!("every composition of at most {n} nodes, in every presentation with at most {dev} departures from the plainest: read back the same"),
        move |ch, cx| {
            let d = kinds.tree(ch, n);
            let want = d.content();
            if want.has_dup_keys() || d.vague() || want.nested_tag() {
                return;
            }
            ch.set_budget(dev);
            let w = text::write(ch, &N::of(&want), Opts::all());
            cx.case = format!("{d:?} {:?}", w.text);
            cx.state(&cx.case.clone());
            cx.step(1);
            match data::like(&d).deserialize(serde_yaml::Deserializer::from_str(&w.text)) {
                Ok(g) if g.same(&d) => cx.trace(),
                r => cx.fail(format!("{d:?} {:?}", w.text), format!("{d:?} presented as {:?} is read as {r:?}", w.text)),
            }
        },
    ));
    let n = big::few_sizes(tier);
    f.push(family(
        "many",
        format!("9 kinds of data with many parts, at {} sizes up to {}", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let d = big::d_wide(ch.choose(big::D_WIDES), *ch.pick(&n));
            check(cx, &d);
        },
    ));
    f.push(family(
        "deep",
        "data of each number of levels from 1 to 60, of every pair of 12 kinds, around 4 leaves",
        |ch, cx| {
            let w = big::d_word(ch);
            let d = ch.range(1, 60);
            let leaf = ch.pick(&[D::Unit, D::Int(7, W::U8), D::UnitVar("Unit"), data::str("l1\nl2")]).clone();
            check(cx, &big::d_tower(&w, d, leaf));
        },
    ));
    f.push(family(
        "deep, adapted",
        "data of each number of levels from 1 to 60, of every pair of 12 kinds, the innermost part, all of it or half of it serialized by either adapter",
        |ch, cx| {
            let w = big::d_word(ch);
            let d = ch.range(1, 60);
            let rep = *ch.pick(&[Rep::Single, Rep::Rec]);
            let leaf = ch.pick(&[D::UnitVar("Unit"), D::NewVar("New", Box::new(data::str("x"))), D::TupVar("Tup", vec![D::Unit, D::Bool(true)]), D::StVar("St", vec![("a", D::UnitVar("Unit"))])]).clone();
            let with = |d: D| D::With(rep, Box::new(d));
            let d = match ch.choose(3) {
                0 => big::d_tower(&w, d, with(leaf)),
                1 => with(big::d_tower(&w, d, leaf)),
                _ => big::d_tower(&w, d / 2, with(big::d_tower(&w, d - d / 2, leaf))),
            };
            check(cx, &d);
        },
    ));
    let n = big::few_sizes(tier);
    f.push(family(
        "many, adapted",
        format!("9 kinds of data with many parts, at {} sizes up to {}, serialized by either adapter", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let rep = *ch.pick(&[Rep::Single, Rep::Rec]);
            let d = big::d_wide(ch.choose(big::D_WIDES), *ch.pick(&n));
            check(cx, &D::With(rep, Box::new(d)));
        },
    ));
    f
}
