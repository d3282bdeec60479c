//! C12: serializing to a Value and to text describe the same data.

use crate::data::{self, Kinds, D, W};
use crate::big;
use crate::explore::*;
use crate::tree::*;
use serde::Serialize;
use serde_yaml::Value;

pub fn leaves() -> Vec<D> {
    vec![D::Bool(true), D::Int(7, W::I32), D::F64(1.5), D::Char('c'), data::str("s t"), data::str("1"), D::Unit, D::UnitStruct, D::None]
}

/// Strings in every way to write them, the ends of all integer types, floats and chars.
pub fn scalars() -> Vec<D> {
    let mut all: Vec<D> = vec![];
    for s in strings_wide() {
        for how in 0..3 {
            all.push(D::Str(s.clone(), how));
        }
        if s.chars().count() == 1 {
            all.push(D::Char(s.chars().next().unwrap()));
        }
    }
    let ends = [
        (W::I8, -128, 127), (W::I16, -32768, 32767), (W::I32, i32::MIN as i128, i32::MAX as i128), (W::I64, i64::MIN as i128, i64::MAX as i128),
        (W::I128, i64::MIN as i128, u64::MAX as i128), (W::U8, 0, 255), (W::U16, 0, 65535), (W::U32, 0, u32::MAX as i128), (W::U64, 0, u64::MAX as i128), (W::U128, 0, u64::MAX as i128),
    ];
    for (w, lo, hi) in ends {
        all.extend([lo, lo + 1, 0, 1, hi - 1, hi].map(|i| D::Int(i, w)));
    }
    all.extend([0.0, -0.0, 0.1, 1e300, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e16, 123456789012345680.0].map(D::F64));
    all.extend([0.0, -0.0, 0.5, 1.5, 16777216.0, f32::INFINITY, f32::NAN].map(D::F32));
    all
}

fn nested_tag(d: &D) -> bool {
    d.content().nested_tag()
}

fn check(cx: &mut Cx, d: &D) {
    let want = d.content();
    if want.has_dup_keys() {
        return;
    }
    cx.state(&format!("{d:?}"));
    cx.case = format!("{d:?}");
    let v = serde_yaml::to_value(d).map(|v| T::of(&v)).map_err(|e| e.to_string());
    let text = serde_yaml::to_string(d).map_err(|e| e.to_string());
    cx.step(2);
    let back = match &text {
        Ok(t) => {
            cx.step(1);
            serde_yaml::from_str::<Value>(t).map(|v| T::of(&v)).map_err(|e| e.to_string())
        }
        Err(e) => Err(e.clone()),
    };
    let mut writer = vec![];
    let w = serde_yaml::to_writer(&mut writer, d);
    let ok = if nested_tag(d) {
        cx.outcome("variants directly inside each other");
        // a Value can hold it, text cannot
        v.as_ref().is_ok_and(|v| v.same(&want)) && text.is_err() && w.is_err()
    } else {
        cx.outcome("both");
        v.as_ref().is_ok_and(|v| v.same(&want)) && back.as_ref().is_ok_and(|v| v.same(&want)) && w.is_ok() && text.as_ref().is_ok_and(|t| t.as_bytes() == writer)
    };
    if ok {
        cx.trace();
        cx.sample(|| format!("{d:?}: {text:?}"));
    } else {
        cx.fail(format!("{d:?}"), format!("{d:?}: to_value {v:?}, to_string {text:?} read back as {back:?}; it is {want:?}"));
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let full = Kinds { leaves: leaves(), wrappers: true, tuples: true, structs: true, enums: true, styles: true, complex_keys: true, adapters: false, within: 0, };
    let few = Kinds { leaves: vec![D::Int(7, W::I32), data::str("s"), D::None], ..full.clone() };
    let maps = Kinds { leaves: vec![D::Unit, data::str("s")], wrappers: false, tuples: false, structs: false, enums: true, styles: true, complex_keys: true, adapters: false, within: 0, };
    for (name, kinds, n) in [("calls", full, tier.pick(4, 5)), ("more calls", few, tier.pick(5, 6)), ("maps and variants", maps, tier.pick(5, 6))] {
        f.push(family(
            name,
            format!("every tree of at most {n} serializer calls over {} leaves, and every way to drive each of them", kinds.leaves.len()),
            move |ch, cx| {
                let d = kinds.tree(ch, n);
                check(cx, &d);
            },
        ));
    }
    f.push(family(
        "leaves",
        "every wide string in 3 ways, 10 integer widths at their ends, floats, chars and bytes, in each of 16 surroundings",
        |ch, cx| {
            let all = scalars();
            let d = all[ch.choose(all.len())].clone();
            let b = |d: &D| Box::new(d.clone());
            let c = |s: &str| matches!(&d, D::Str(k, how) if *how > 0 && s.is_empty() && k.starts_with('!'));
            let a = ch.choose(16);
            if (8..=13).contains(&a) && c("") {
                return; // a key displayed with a leading '!' is the crate's own way to write tags
            }
            let e = match a {
                0 => d.clone(),
                1 => D::Some(b(&d)),
                2 => D::Newtype(b(&D::Some(b(&d)))),
                3 => D::Seq(vec![d.clone(), d.clone()], false),
                4 => D::Tuple(vec![D::None, d.clone()]),
                5 => D::TupleStruct(vec![d.clone()]),
                6 => D::Struct(vec![("a", d.clone()), ("b c", d.clone())]),
                7 => D::NewVar("New", b(&d)),
                8..=11 => D::Map(vec![(d.clone(), D::Int(1, W::U8))], a as u8 - 8),
                12 => D::Map(vec![(D::Newtype(b(&D::Some(b(&d)))), d.clone()), (data::str("other key"), D::None)], 0),
                13 => D::Seq(vec![D::Map(vec![(d.clone(), d.clone())], 3), d.clone()], true),
                14 => D::TupVar("Tup", vec![d.clone(), d.clone()]),
                _ => D::StVar("St", vec![("1", d.clone())]),
            };
            check(cx, &e);
        },
    ));
    f.push(family(
        "announced lengths",
        "maps of at most 2 entries in maps of at most 2 entries, in 7 surroundings, each announced rightly, as none, as one, as too many or not at all, and written by entries or by keys and values",
        |ch, cx| {
            fn how(ch: &mut Ch) -> u8 {
                [0, 2, 1, 3, 5, 7, 9, 11, 13, 15][ch.choose(10)]
            }
            let n = ch.choose(3);
            let inner = D::Map((0..n as i64).map(|i| (D::Int(i.into(), W::I64), data::str("v"))).collect(), how(ch));
            let b = || Box::new(inner.clone());
            let e = match ch.choose(7) {
                0 => inner,
                1 => D::Seq(vec![inner.clone(), inner], true),
                2 => D::NewVar("New", b()),
                3 => D::TupVar("Tup", vec![inner.clone(), D::Unit, inner]),
                4 => D::StVar("St", vec![("a", inner)]),
                5 => D::Some(b()),
                _ => D::Struct(vec![("a", D::Newtype(b())), ("b", D::Unit)]),
            };
            check(cx, &e);
            let m = ch.choose(3);
            let key = ch.flag();
            let mut v = vec![];
            for i in 0..m {
                v.push(if key && i == 0 { (e.clone(), D::Unit) } else { (D::Int(i as i128, W::U8), e.clone()) });
            }
            check(cx, &D::Seq(vec![D::Map(v, how(ch)), data::str("after")], false));
        },
    ));
    f.push(family(
        "names",
        "variants and fields of 14 names, of every variant kind, in 4 surroundings; the empty name is refused by both",
        |ch, cx| {
            let names = ["", "a", "é", "a b", "x!", "%", "1", "true", "~", "a:b", "{x", "-", "<<", "\n"];
            let n = *ch.pick(&names);
            let one = || D::Int(1, W::I32);
            let e = match ch.choose(4) {
                0 => D::NewVar(n, Box::new(one())),
                1 => D::TupVar(n, vec![one(), one()]),
                2 => D::StVar(n, vec![("a", one())]),
                _ => D::Struct(vec![(n, one()), ("x y", one())]),
            };
            let tagged = !matches!(e, D::Struct(_));
            let d = match ch.choose(4) {
                0 => e,
                1 => D::Seq(vec![e, D::Unit], true),
                2 => D::Map(vec![(data::str("k"), e)], 1),
                _ => D::Map(vec![(e, D::Unit)], 0),
            };
            if tagged && n == "{x" {
                return; // recorded under C01: flow indicators in tags
            }
            if tagged && n.is_empty() {
                cx.state(&format!("{d:?}"));
                cx.case = format!("{d:?}");
                cx.step(2);
                let (v, t) = (serde_yaml::to_value(&d), serde_yaml::to_string(&d));
                cx.outcome("refused by both");
                if v.is_err() && t.is_err() {
                    cx.trace();
                } else {
                    cx.fail(format!("{d:?}"), format!("{d:?}: {v:?}, {t:?}"));
                }
                return;
            }
            check(cx, &d);
        },
    ));
    let n = tier.pick(5, 6);
    f.push(family(
        "values",
        format!("every Value of at most {n} nodes over 3 leaves and a tag, in 6 surroundings: to_value gives it back"),
        move |ch, cx| {
            let g = Gen::new(leaves_small(), &["t"]);
            let t = g.tree(ch, n);
            if t.has_dup_keys() {
                return;
            }
            let v = t.to_value();
            cx.state(&t);
            cx.case = format!("{t:?}");
            #[derive(serde_derive::Serialize)]
            struct In<'a> {
                a: &'a Value,
                b: Option<&'a Value>,
            }
            let put = |x: &dyn Fn(&Value) -> Result<Value, serde_yaml::Error>, want: T, cx: &mut Cx| {
                let got = x(&v);
                cx.step(1);
                if got.as_ref().is_ok_and(|g| T::of(g).same(&want)) {
                    cx.trace();
                } else {
                    cx.fail(format!("{want:?}"), format!("{got:?} instead of {want:?}"));
                }
            };
            put(&|v| serde_yaml::to_value(v), t.clone(), cx);
            put(&|v| serde_yaml::to_value([v, v]), T::Seq(vec![t.clone(), t.clone()]), cx);
            put(&|v| serde_yaml::to_value(In { a: v, b: Some(v) }), T::Map(vec![(st("a"), t.clone()), (st("b"), t.clone())]), cx);
            put(&|v| v.serialize(serde_yaml::value::Serializer), t.clone(), cx);
            if let T::Map(e) = &t {
                let m = v.as_mapping().unwrap().clone();
                put(&|_| serde_yaml::to_value(&m), T::Map(e.clone()), cx);
            }
            if let T::Tag(..) = &t {
                let Value::Tagged(g) = v.clone() else { unreachable!() };
                put(&|_| serde_yaml::to_value(&g), t.clone(), cx);
            }
        },
    ));
    let n = big::sizes(tier);
    f.push(family(
        "many",
        format!("9 kinds of data with many parts, at {} sizes up to {}", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let d = big::d_wide(ch.choose(big::D_WIDES), *ch.pick(&n));
            check(cx, &d);
        },
    ));
    f.push(family(
        "deep",
        "data of each number of levels from 1 to 60, of every pair of 12 kinds, around 4 leaves",
        |ch, cx| {
            let w = big::d_word(ch);
            let d = ch.range(1, 60);
            let leaf = ch.pick(&[D::Unit, D::Int(7, W::U8), D::UnitVar("Unit"), data::str("l1\nl2")]).clone();
            check(cx, &big::d_tower(&w, d, leaf));
        },
    ));
    f
}
