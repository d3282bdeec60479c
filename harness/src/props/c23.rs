//! C23: presentation does not change what is read.

use crate::big;
use crate::explore::*;
use crate::text::{self, Opts, N};
use crate::tree::*;
use crate::types::{self, Out};
use serde_yaml::{Deserializer, Value};
use serde::Deserialize;

fn m(k: &str, v: T) -> T {
    T::Map(vec![(st(k), v)])
}

fn check(cx: &mut Cx, what: &str, t: &T, text: &str) {
    cx.state(text);
    cx.case = text.to_owned();
    let got = serde_yaml::from_str::<Value>(text);
    cx.step(1);
    match got {
        Ok(v) if T::of(&v).same(t) => {
            cx.trace();
            cx.sample(|| format!("{text:?} is {t:?}"));
            cx.outcome(what_name(t));
        }
        Ok(v) => cx.fail(format!("{what} {text:?}"), format!("{text:?} read as {:?}, its content is {t:?}", T::of(&v))),
        Err(e) => cx.fail(format!("{what} {text:?}"), format!("{text:?} refused: {e}; its content is {t:?}")),
    }
}

fn what_name(t: &T) -> &'static str {
    match t {
        T::Null => "null",
        T::Bool(_) => "bool",
        T::Int(_) => "int",
        T::Float(_) => "float",
        T::Str(_) => "string",
        T::Seq(_) => "sequence",
        T::Map(_) => "mapping",
        T::Tag(..) => "tagged",
    }
}

/// Bigger documents in which layouts interact.
pub fn documents() -> Vec<T> {
    vec![
        T::Seq(vec![T::Seq(vec![T::Int(1), T::Int(2)]), T::Map(vec![(st("a"), T::Int(1)), (st("b"), T::Null)])]),
        T::Map(vec![
            (st("a"), T::Seq(vec![st("x y"), T::Seq(vec![]), st("l1\nl2\n")])),
            (st("b"), T::Map(vec![(st("c d"), st("e")), (T::Int(2), T::Map(vec![]))])),
        ]),
        T::Map(vec![
            (T::Seq(vec![st("k"), T::Int(1)]), tagged("t", T::Seq(vec![st("v")]))),
            (m("mk", st("mv")), tagged("u", m("x", T::Bool(false)))),
            (T::Null, T::Null),
        ]),
        m("a", m("b", m("c", m("d", T::Seq(vec![T::Null, st("  lead\ntrail\n\n")]))))),
        T::Seq(vec![T::Seq(vec![T::Seq(vec![T::Seq(vec![st("a b")]), T::Null])]), st("tail")]),
        tagged("T", T::Map(vec![(st("x"), tagged("U", T::Float(1.5))), (tagged("K", st("y")), st("it's \"q\" \\"))])),
        T::Seq(vec![m("a", m("b", T::Seq(vec![m("c", T::Int(1)), m("d", T::Int(2))]))), m("", st("# not a comment"))]),
        st("a paragraph of text"),
        st("\n two\n\nlines\n"),
    ]
}

/// (target name, content): what typed reading is compared on.
fn typed() -> Vec<T> {
    vec![
        T::Map(vec![(st("x"), T::Int(5)), (st("y"), st("a b"))]),
        T::Map(vec![(st("x"), T::Int(5)), (st("y"), T::Null)]),
        T::Map(vec![(st("a"), T::Seq(vec![T::Int(1), T::Int(255)])), (T::Int(1), m("a", T::Seq(vec![])))]),
        tagged("St", T::Map(vec![(st("x"), T::Int(1)), (st("y"), tagged("New", T::Int(2)))])),
        tagged("Tup", T::Seq(vec![T::Int(1), st("two")])),
        tagged("New", T::Int(3)),
        st("Unit"),
        tagged("Unit", T::Null),
        T::Seq(vec![st("A"), tagged("New", T::Int(1)), st("Unit")]),
        T::Seq(vec![st("a"), T::Null, st("c d e")]),
        T::Map(vec![(st("a"), T::Int(1)), (st("b"), T::Int(-7))]),
        T::Map(vec![(T::Seq(vec![st("p"), st("q")]), T::Int(1))]),
        T::Map(vec![(st("t"), st("A")), (st("x"), T::Int(3))]),
        T::Map(vec![(st("t"), st("B")), (st("q"), T::Int(3))]),
        T::Map(vec![(st("a"), T::Int(1)), (st("other"), T::Seq(vec![T::Float(0.5), T::Bool(true)]))]),
        T::Seq(vec![T::Int(4), st("s")]),
        st("x"),
        st("multi line\ntext\n"),
        T::Int(200),
        T::Float(2.5),
        T::Bool(true),
        T::Null,
    ]
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let sizes = tier.pick(vec![(2, 4), (3, 3), (4, 2), (5, 1)], vec![(2, 5), (3, 4), (4, 3), (5, 2)]);
    for (i, (nodes, dev)) in sizes.into_iter().enumerate() {
        f.push(family(
            ["trees, many departures", "trees", "bigger trees", "biggest trees"][i],
            format!("every tree of at most {nodes} nodes over 4 leaves and one tag, in every presentation making at most {dev} departures from the plainest"),
            move |ch, cx| {
                let g = Gen::new(vec![T::Null, T::Int(1), st("a b"), st("x\ny\n")], &["t"]);
                let t = g.tree(ch, nodes);
                if t.has_dup_keys() {
                    return;
                }
                ch.set_budget(dev);
                let w = text::write(ch, &N::of(&t), Opts::all());
                check(cx, "tree", &t, &w.text);
            },
        ));
    }
    let dev = tier.pick(3, 4);
    f.push(family(
        "scalars",
        format!("every string of the wide list and every other kind of leaf in 9 positions, in every presentation making at most {dev} departures (one fewer beyond the root)"),
        move |ch, cx| {
            let mut leaves: Vec<T> = strings_wide().into_iter().filter(|s| s.len() < 100).map(T::Str).collect();
            leaves.extend([
                T::Null,
                T::Bool(true),
                T::Bool(false),
                T::Int(0),
                T::Int(-12),
                T::Int(u64::MAX as i128),
                T::Int(i64::MIN as i128),
                T::Float(0.0),
                T::Float(-0.0),
                T::Float(1e300),
                T::Float(5e-324),
                T::Float(f64::NAN),
                T::Float(f64::INFINITY),
                T::Float(f64::NEG_INFINITY),
            ]);
            let l = ch.pick(&leaves).clone();
            let pos = ch.choose(9);
            let t = match pos {
                0 => l,
                1 => T::Seq(vec![l]),
                2 => m("k", l),
                3 => T::Map(vec![(l, T::Int(1))]),
                4 => tagged("t", l),
                5 => T::Seq(vec![l, st("after")]),
                6 => m("k", T::Seq(vec![l.clone(), l])),
                7 => T::Map(vec![(st("1st"), l), (st("after"), T::Null)]),
                _ => T::Seq(vec![m("k", l), T::Null]),
            };
            ch.set_budget(if pos == 0 { dev } else { dev - 1 });
            let w = text::write(ch, &N::of(&t), Opts::all());
            check(cx, "scalar", &t, &w.text);
        },
    ));
    let dev = tier.pick(3, 4);
    f.push(family(
        "documents",
        format!("9 documents of up to 14 nodes, in every presentation making at most {dev} departures"),
        move |ch, cx| {
            let docs = documents();
            let t = ch.pick(&docs).clone();
            ch.set_budget(dev);
            let w = text::write(ch, &N::of(&t), Opts::all());
            check(cx, "document", &t, &w.text);
        },
    ));
    f.push(family(
        "typed",
        format!("22 documents read as each of 35 types in every presentation making at most {dev} departures (2 for the bigger ones): always the same value, or always refused"),
        move |ch, cx| {
            let docs = typed();
            let t = ch.pick(&docs).clone();
            let n = N::of(&t);
            let opts = Opts {
                empty_nulls: false,
                ..Opts::all()
            };
            let plain = text::write(&mut Ch::new(vec![]), &n, opts).text;
            ch.set_budget(dev.min(if t.nodes() > 4 { 2 } else { 3 }));
            let w = text::write(ch, &n, opts);
            cx.state(&w.text);
            cx.case = w.text.clone();
            for target in types::all() {
                let want = (target.str)(&plain);
                let got = (target.str)(&w.text);
                cx.step(2);
                let ok = match (&want, &got) {
                    (Out::Ok(a), Out::Ok(b)) => a == b,
                    (Out::Err(..), Out::Err(..)) => true,
                    _ => false,
                };
                if ok {
                    cx.trace();
                    cx.outcome(if got.is_ok() { "read" } else { "refused" });
                } else {
                    cx.fail(
                        format!("typed {} {:?}", target.name, w.text),
                        format!("{:?} as {}: {got:?}, but {plain:?}: {want:?}", w.text, target.name),
                    );
                }
            }
        },
    ));
    f.push(family(
        "streams",
        "every pair of 7 small documents in one stream, each in every presentation making at most 2 departures in all",
        move |ch, cx| {
            let docs = [
                T::Null,
                st("a b"),
                st("x\n\n"),
                T::Seq(vec![T::Int(1)]),
                m("k", T::Null),
                tagged("t", m("k", st("v"))),
                T::Seq(vec![]),
            ];
            let a = ch.pick(&docs).clone();
            let b = ch.pick(&docs).clone();
            ch.set_budget(2);
            // both start with their marker; what else varies does not involve it
            let opts = Opts {
                markers: false,
                eols: false,
                ..Opts::all()
            };
            let x = text::write(ch, &N::of(&a), opts).text;
            let y = text::write(ch, &N::of(&b), opts).text;
            let text = format!("---\n{x}---\n{y}");
            cx.state(&text);
            cx.case = text.clone();
            let got: Vec<Result<T, String>> = Deserializer::from_str(&text)
                .take(4)
                .map(|d| Value::deserialize(d).map(|v| T::of(&v)).map_err(|e| e.to_string()))
                .collect();
            cx.step(3);
            let ok = got.len() == 2 && got[0].as_ref().is_ok_and(|g| g.same(&a)) && got[1].as_ref().is_ok_and(|g| g.same(&b));
            if ok {
                cx.trace();
            } else {
                cx.fail(format!("stream {text:?}"), format!("{text:?} read as {got:?}, its content is {a:?} and {b:?}"));
            }
        },
    ));
    let n = big::sizes(tier);
    f.push(family(
        "many",
        format!("12 kinds of wide document and 9 with a long scalar or tag at {} sizes up to {}: block, flow, flow over many lines, and 9 changes of layout throughout", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let kind = ch.choose(big::TREES);
            let size = *ch.pick(&n);
            let t = big::tree(kind, size);
            let node = N::of(&t);
            let way = ch.choose(12);
            // blanks and comments are part of block scalars
            let block = big::plain(&node).text;
            if (2..6).contains(&way.wrapping_sub(3)) && (block.contains(": |") || block.contains("- |")) {
                return;
            }
            let text = match way {
                0 => block,
                1 => big::flow(&node),
                2 => big::flow(&node).replace(", ", " ,\n  ").replace('[', "[ ").replace('}', "\n }"),
                w => big::relay(&block, w - 3),
            };
            cx.case = format!("kind {kind} size {size} way {way}");
            check(cx, "many", &t, &text);
        },
    ));
    f.push(family(
        "deep",
        "towers of every pair of 8 kinds of level, each number of levels from 1 to 124: block, flow, flow over many lines, and 9 changes of layout throughout",
        |ch, cx| {
            let w = big::word(ch);
            let d = ch.range(1, 124);
            let node = big::tower(&w, d, N::of(&st("leaf")));
            let t = big::content(&node);
            let text = match ch.choose(12) {
                0 => big::plain(&node).text,
                1 => big::flow(&node),
                2 => big::flow(&node).replace(", ", " ,\n  ").replace('[', "[ ").replace('}', "\n }"),
                w => big::relay(&big::plain(&node).text, w - 3),
            };
            check(cx, "deep", &t, &text);
        },
    ));
    f
}
