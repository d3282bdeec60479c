//! C09: an alias reads exactly like a copy of the anchored node.

use crate::big;
use crate::explore::*;
use crate::text::{self, Opts, K, N};
use crate::tree::*;
use crate::types::{self, Out};
use serde::de::IgnoredAny;
use serde_yaml::Value;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    Unknown,
    Cyclic,
}

/// The same content without aliases and anchors.
pub fn expand(n: &N) -> Result<N, Bad> {
    fn go(n: &N, defs: &mut BTreeMap<String, Option<N>>, worst: &mut Option<Bad>) -> N {
        if let Some(a) = &n.anchor {
            defs.insert(a.clone(), None);
        }
        let k = match &n.k {
            K::Alias(a) => {
                return match defs.get(a) {
                    Some(Some(n)) => n.clone(),
                    Some(None) => {
                        worst.get_or_insert(Bad::Cyclic);
                        N::plain(K::Null)
                    }
                    None => {
                        // found while loading, before anything is expanded
                        *worst = Some(Bad::Unknown);
                        N::plain(K::Null)
                    }
                };
            }
            K::Seq(v) => K::Seq(v.iter().map(|e| go(e, defs, worst)).collect()),
            K::Map(v) => K::Map(
                v.iter()
                    .map(|(k, e)| {
                        let k = go(k, defs, worst);
                        (k, go(e, defs, worst))
                    })
                    .collect(),
            ),
            k => k.clone(),
        };
        let done = N {
            anchor: None,
            tag: n.tag.clone(),
            k,
        };
        if let Some(a) = &n.anchor {
            // unless something inside took the name over
            if matches!(defs.get(a), Some(None)) {
                defs.insert(a.clone(), Some(done.clone()));
            }
        }
        done
    }
    let mut worst = None;
    let r = go(n, &mut BTreeMap::new(), &mut worst);
    match worst {
        Some(b) => Err(b),
        None => Ok(r),
    }
}

fn has_alias(n: &N) -> bool {
    match &n.k {
        K::Alias(_) => true,
        K::Seq(v) => v.iter().any(has_alias),
        K::Map(v) => v.iter().any(|(k, e)| has_alias(k) || has_alias(e)),
        _ => false,
    }
}

fn int(i: i128) -> N {
    N::plain(K::Int(i))
}
fn alias(a: &str) -> N {
    N::plain(K::Alias(a.into()))
}
fn anchored(a: &str, n: N) -> N {
    N {
        anchor: Some(a.into()),
        ..n
    }
}
fn tagd(t: &str, n: N) -> N {
    N {
        tag: Some(format!("!{t}")),
        ..n
    }
}
fn seq(v: Vec<N>) -> N {
    N::plain(K::Seq(v))
}
fn map(v: Vec<(N, N)>) -> N {
    N::plain(K::Map(v))
}
fn s(t: &str) -> N {
    N::plain(K::Str(t.into()))
}

/// Every graph of at most `lim` nodes. Leaf number gives anchored scalars distinct contents.
pub fn graph(ch: &mut Ch, lim: usize, next: &mut i128, tags: bool) -> (N, usize) {
    let c = ch.choose(if tags { 6 } else { 5 });
    let mut n = match c {
        0 => {
            *next += 1;
            int(*next)
        }
        1 => return (alias("a"), 1),
        2 => return (alias("b"), 1),
        3 => {
            let mut left = lim - 1;
            let mut v = vec![];
            while left > 0 && ch.flag() {
                let (e, u) = graph(ch, left, next, tags);
                left -= u;
                v.push(e);
            }
            let n = seq(v);
            return (anchor(ch, n), lim - left);
        }
        4 => {
            let mut left = lim - 1;
            let mut v = vec![];
            while left > 1 && ch.flag() {
                let (k, u) = graph(ch, left - 1, next, tags);
                left -= u;
                let (e, u) = graph(ch, left, next, tags);
                left -= u;
                v.push((k, e));
            }
            let n = map(v);
            return (anchor(ch, n), lim - left);
        }
        _ => {
            *next += 1;
            tagd("t", int(*next))
        }
    };
    n = anchor(ch, n);
    (n, 1)
}
fn anchor(ch: &mut Ch, n: N) -> N {
    match ch.choose(3) {
        0 => n,
        1 => anchored("a", n),
        _ => anchored("b", n),
    }
}

fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Ok(a), Out::Ok(b)) => a == b,
        (Out::Err(..), Out::Err(..)) => true,
        _ => false,
    }
}

/// An alias document read as a Value and ignored, against its expansion.
fn check(cx: &mut Cx, n: &N, text: &str) {
    cx.state(text);
    cx.case = text.to_owned();
    let got = serde_yaml::from_str::<Value>(text).map(|v| T::of(&v)).map_err(|e| e.to_string());
    let ign = serde_yaml::from_str::<IgnoredAny>(text).map(|_| ()).map_err(|e| e.to_string());
    cx.step(2);
    let (ok, want) = match expand(n) {
        Ok(x) => {
            let copy = text::write(&mut Ch::new(vec![]), &x, Opts::all()).text;
            let want = serde_yaml::from_str::<Value>(&copy).map(|v| T::of(&v)).map_err(|e| e.to_string());
            cx.step(1);
            let ok = match (&got, &want) {
                (Ok(g), Ok(w)) => g.same(w),
                (Err(g), Err(w)) => w.contains("duplicate entry") && g.contains("duplicate entry"),
                _ => false,
            };
            cx.outcome(if got.is_ok() { "read" } else { "duplicate keys" });
            (ok && ign.is_ok(), format!("like {copy:?}, that is {want:?}"))
        }
        Err(Bad::Unknown) => {
            cx.outcome("unknown anchor");
            let says = |e: &String| e.starts_with("unknown anchor");
            (
                // reading may fail for another reason before it gets there
                got.is_err() && ign.as_ref().is_err_and(says),
                "unknown anchor".into(),
            )
        }
        Err(Bad::Cyclic) => {
            cx.outcome("contains itself");
            (got.is_err() && ign.is_ok(), "refused: a node contains itself".into())
        }
    };
    if ok {
        cx.trace();
        cx.sample(|| format!("{text:?}: {want}"));
    } else {
        cx.fail(text.to_owned(), format!("{text:?}: read as {got:?}, ignored {ign:?}; expected {want}"));
    }
}

/// Scalars of every style, and small collections, as flow text.
pub fn nodes() -> Vec<&'static str> {
    vec![
        "~", "", "null", "true", "1", "-1", "300", "1.5", ".nan", "a", "'a'", "\"\"", "'1'", "\"a\\nb\"", "'~'", "0x1f", "01", "!!str 1",
        "!!int 7", "!!int x", "!!float 1", "!!null ~", "!!null x", "!!bool true", "!t a", "!t 1", "!t ''", "!t ", "!Unit ", "!A ~", "!New 1",
        "!Tup [1, a]", "!St {x: 1, y: ~}", "!St {x: 1, y: !New 2}", "Unit", "A", "[]", "{}", "[1, 2]", "[a, ~]", "[1, a]", "[A, !New 3]",
        "{x: 1}", "{x: 1, y: z}", "{a: [1], 1: {}}", "{t: A, x: 3}", "{t: B, q: 3}", "{a: 1, b: 2}", "{[a]: 1}", "!t [1]", "!t {x: 1}",
        "[[1], {a: b}]", "<<",
    ]
}

/// Documents with a hole, read as every type.
fn holes() -> Vec<&'static str> {
    vec![
        "@", "[@]", "[@, @]", "[1, @]", "[@, a]", "{x: @}", "{x: 1, y: @}", "{@ : 1}", "{@ : 1, x: 2}", "{a: @, other: @}", "{a: [@]}", "{1: @}",
        "!New @", "!Tup [@, a]", "!Tup [1, @]", "!St {x: @}", "!St {x: 1, y: @}", "[!New 1, @]", "{a: @, b: @}", "{t: @, x: 3}", "{t: A, x: @}",
        "{t: B, @ : 3}", "{k: !New 1, l: @}", "{skip: @, x: 1}", "[[@], {z: @}]", "!t [@]", "{<<: @}",
    ]
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let lim = tier.pick(5, 6);
    f.push(family(
        "graphs",
        format!("every document of at most {lim} nodes over integers, two anchors on any node, and aliases of both, in flow style"),
        move |ch, cx| {
            let n = graph(ch, lim, &mut 0, false).0;
            if !has_alias(&n) {
                return;
            }
            // the plainest presentation of everything but the collections
            let mut w = Ch::new(vec![]);
            let text = text::write(&mut w, &n, Opts::all()).text;
            check(cx, &n, &text);
        },
    ));
    let (lim, dev) = tier.pick((4, 2), (5, 2));
    f.push(family(
        "presentations",
        format!("every document of at most {lim} nodes, tags too, in every presentation making at most {dev} departures from the plainest"),
        move |ch, cx| {
            let n = graph(ch, lim, &mut 0, true).0;
            if !has_alias(&n) {
                return;
            }
            ch.set_budget(dev);
            let opts = Opts {
                markers: false,
                ..Opts::all()
            };
            let text = text::write(ch, &n, opts).text;
            check(cx, &n, &text);
        },
    ));
    let len = tier.pick(7, 9);
    f.push(family(
        "redefinition",
        format!("every sequence of at most {len} events, each defining one of 3 anchors anew or using one, as flow and block sequence and as mapping values and keys"),
        move |ch, cx| {
            let shape = ch.choose(4);
            let mut items = vec![];
            for i in 0..ch.range(1, len) {
                let c = ch.choose(6);
                let a = ["a", "b", "c"][c / 2];
                items.push(if c % 2 == 0 { anchored(a, int(i as i128)) } else { alias(a) });
            }
            let n = match shape {
                0 | 1 => seq(items),
                2 => map(items.into_iter().enumerate().map(|(i, e)| (s(&format!("k{i}")), e)).collect()),
                _ => seq(items.into_iter().map(|k| map(vec![(k, N::plain(K::Null))])).collect()),
            };
            if !has_alias(&n) {
                return;
            }
            let text = if shape == 1 {
                let K::Seq(v) = &n.k else { unreachable!() };
                let inner: Vec<String> = v
                    .iter()
                    .map(|e| text::write(&mut Ch::new(vec![]), e, Opts::all()).text.trim_end().to_owned())
                    .collect();
                format!("[{}]", inner.join(", "))
            } else {
                text::write(&mut Ch::new(vec![]), &n, Opts::all()).text
            };
            check(cx, &n, &text);
        },
    ));
    f.push(family(
        "typed",
        "53 nodes of every style and kind in 27 documents with holes, read as each of 35 types: first defined outside and every hole an alias, then the first hole anchored and the others aliases",
        |ch, cx| {
            let ns = nodes();
            let hs = holes();
            let hole = *ch.pick(&hs);
            let node = *ch.pick(&ns);
            let outside = ch.flag();
            if hole.contains("!New @") {
                return; // a tag cannot be put on an alias
            }
            // nothing at all needs an anchor of its own to be seen in flow style
            let bare = if node.is_empty() { "&y " } else { node };
            let direct = hole.replace('@', bare);
            let (a, b) = if outside {
                let aliased = hole.replace('@', "*x");
                (format!("[{bare}, {direct}]"), format!("[&x {node}, {aliased}]"))
            } else if hole.matches('@').count() == 2 {
                (direct, hole.replacen('@', &format!("&x {node}"), 1).replace('@', "*x"))
            } else {
                return;
            };
            cx.state(&b);
            cx.case = format!("{b:?} against {a:?}");
            let targets = if outside { types::pairs() } else { types::all() };
            for t in targets {
                let want = (t.str)(&a);
                let got = (t.str)(&b);
                cx.step(2);
                if same_out(&want, &got) {
                    cx.trace();
                    cx.outcome(if got.is_ok() { "read" } else { "refused" });
                } else {
                    cx.fail(
                        format!("{} {b:?}", t.name),
                        format!("{b:?} as {}: {got:?}, but the copy {a:?}: {want:?}", t.name),
                    );
                }
            }
        },
    ));
    f.push(family(
        "chains",
        "anchors whose nodes contain aliases of the one before, up to 6 long, over every mixture of sequence, mapping value, mapping key and tagged sequence; also as the last link of an unknown anchor or itself",
        |ch, cx| {
            let depth = ch.range(1, 6);
            let mut items = vec![anchored("c0", int(7))];
            for i in 1..=depth {
                let prev = alias(&format!("c{}", i - 1));
                let n = match ch.choose(4) {
                    0 => seq(vec![prev.clone(), prev]),
                    1 => map(vec![(s("k"), prev)]),
                    2 => map(vec![(prev, N::plain(K::Null))]),
                    _ => tagd("t", seq(vec![prev])),
                };
                items.push(anchored(&format!("c{i}"), n));
            }
            match ch.choose(4) {
                0 => {}
                1 => items.push(alias(&format!("c{depth}"))),
                2 => items.push(alias("nowhere")),
                _ => items.push(anchored("me", map(vec![(s("a"), seq(vec![alias("me")]))]))),
            }
            let n = seq(items);
            let text = text::write(&mut Ch::new(vec![]), &n, Opts::all()).text;
            check(cx, &n, &text);
        },
    ));
    let n = big::sizes(tier);
    f.push(family(
        "many anchors",
        format!("11 kinds of document with anchors in number and their aliases, at {} sizes up to {}, block and flow; long anchor names", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let long = ch.flag();
            let (n, w) = if long {
                (big::long(6, *ch.pick(&n)), 0)
            } else {
                let kind = big::PLAIN + ch.choose(big::ALIASED);
                (big::wide(kind, *ch.pick(&n)), ch.choose(2))
            };
            let text = if w == 0 { big::plain(&n).text } else { big::flow(&n) };
            check(cx, &n, &text);
        },
    ));
    let step = tier.pick(9, 1);
    f.push(family(
        "deep anchors",
        format!("towers of every pair of 8 kinds of level, 1 to 60 levels, {}, anchored at one level and aliased behind; an alias in the depths of what is defined before", if step == 1 { "every level" } else { "every ninth level" }),
        move |ch, cx| {
            let w = big::word(ch);
            let d = ch.range(1, 60);
            let at = (ch.choose(step) + step * ch.choose(60 / step + 1)).min(d);
            if step > 1 && at % step != d % step {
                return;
            }
            let inner = big::tower(&w, d - at, if ch.flag() { alias("p") } else { s("leaf") });
            if matches!(inner.k, K::Alias(_)) {
                return;
            }
            let outer = big::tower(&w, at, anchored("x", inner));
            let n = seq(vec![anchored("p", s("pre")), outer, alias("x"), s("end")]);
            let text = if ch.flag() { big::plain(&n).text } else { big::flow(&n) };
            check(cx, &n, &text);
        },
    ));
    f
}
