//! Documents that are wide, long or deep: the bounded trees of the other families stay far below
//! the sizes at which buffers, counters and tables of an implementation turn over. Every size up
//! to a bound is covered, and those around powers of two and round numbers beyond it.

use crate::data::{self, D, W};
use crate::explore::*;
use crate::text::{self, Opts, Written, K, N};
use crate::tree::*;

pub fn sizes(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=tier.pick(140, 300)).collect();
    v.extend([199, 200, 201, 254, 255, 256, 257, 258, 299, 300, 301, 510, 511, 512, 513, 514, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026]);
    if tier == Tier::Thorough {
        v.extend([1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Fewer of them, for what is more expensive.
pub fn few_sizes(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for c in [8usize, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024] {
        v.extend([c - 1, c, c + 1]);
    }
    if tier == Tier::Thorough {
        v.extend(0..=140);
        v.extend([2047, 2048, 2049, 4095, 4096, 4097]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Lengths of one scalar or one line.
pub fn lengths(tier: Tier) -> Vec<usize> {
    let mut v = sizes(tier);
    v.extend([2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537]);
    v.sort_unstable();
    v.dedup();
    v
}

fn s(t: &str) -> N {
    N::plain(K::Str(t.into()))
}
fn int(i: usize) -> N {
    N::plain(K::Int(i as i128))
}
fn seq(v: Vec<N>) -> N {
    N::plain(K::Seq(v))
}
fn map(v: Vec<(N, N)>) -> N {
    N::plain(K::Map(v))
}
fn alias(a: &str) -> N {
    N::plain(K::Alias(a.into()))
}
fn anchored(a: &str, n: N) -> N {
    N { anchor: Some(a.into()), ..n }
}
fn tagd(t: &str, n: N) -> N {
    N { tag: Some(format!("!{t}")), ..n }
}

/// Without anchors.
pub const PLAIN: usize = 12;
/// With them.
pub const ALIASED: usize = 11;
pub const WIDES: usize = PLAIN + ALIASED;

/// A collection of about n nodes.
pub fn wide(kind: usize, n: usize) -> N {
    let each = |f: &dyn Fn(usize) -> N| seq((0..n).map(f).collect());
    let pairs = |f: &dyn Fn(usize) -> (N, N)| map((0..n).map(f).collect());
    let mix = |i: usize| match i % 6 {
        0 => int(i),
        1 => s(&format!("text {i}")),
        2 => N::plain(K::Null),
        3 => seq(vec![int(i), s("")]),
        4 => map(vec![(s("k"), int(i))]),
        _ => tagd("t", s(&format!("'{i}"))),
    };
    match kind {
        0 => each(&int),
        1 => each(&|i| s(&format!("s{i}"))),
        2 => each(&mix),
        3 => each(&|i| tagd(&format!("t{i}"), int(i))),
        4 => each(&|i| map(vec![(s("x"), int(i))])),
        5 => each(&|_| seq(vec![])),
        6 => pairs(&|i| (s(&format!("k{i}")), int(i))),
        7 => pairs(&|i| (int(i), s(&format!("v{i}")))),
        8 => pairs(&|i| (s(&format!("k{i}")), mix(i))),
        9 => pairs(&|i| (seq(vec![int(i)]), map(vec![(s("x"), int(i))]))),
        10 => pairs(&|i| (tagd("t", int(i)), tagd("u", s(&format!("{i}"))))),
        11 => seq(vec![seq((0..n).map(mix).collect()), s("after"), map((0..n).map(|i| (int(i), mix(i))).collect()), s("end")]),
        // anchors
        12 => seq([vec![anchored("e", s("x y"))], vec![alias("e"); n]].concat()),
        13 => seq((0..n).map(|i| anchored(&format!("a{i}"), int(i))).chain((0..n).map(|i| alias(&format!("a{i}")))).collect()),
        14 => seq((0..n).map(|i| anchored(&format!("a{i}"), seq(vec![s(&format!("v{i}"))]))).chain((0..n).rev().map(|i| alias(&format!("a{i}")))).collect()),
        15 => map((0..n)
            .map(|i| (s(&format!("k{i}")), anchored(&format!("a{i}"), map(vec![(s("x"), int(i))]))))
            .chain((0..n).map(|i| (s(&format!("r{i}")), alias(&format!("a{i}")))))
            .collect()),
        16 => seq((0..n).flat_map(|i| [anchored("e", mix(i)), alias("e")]).collect()),
        17 => seq((0..n).map(|i| if i == 0 { anchored("a0", s("x")) } else { anchored(&format!("a{i}"), seq(vec![alias("a0"), int(i)])) }).chain((n > 0).then(|| alias(&format!("a{}", n - 1)))).collect()),
        18 => pairs(&|i| (anchored(&format!("a{i}"), s(&format!("k{i}"))), alias(&format!("a{i}")))),
        19 => seq(vec![anchored("first", s("f")), seq((0..n).map(|i| anchored(&format!("a{i}"), mix(i))).collect()), alias("first"), alias(&format!("a{}", n / 2))].into_iter().take(if n == 0 { 3 } else { 4 }).collect()),
        20 => seq(vec![anchored("e", seq((0..n).map(mix).collect())), s("between"), alias("e"), map(vec![(s("k"), alias("e")), (s("l"), s("end"))])]),
        21 => seq((0..n).map(|i| match i % 3 {
            0 => anchored(&format!("a{i}"), s(&format!("v{i}"))),
            1 => anchored("e", seq(vec![alias(&format!("a{}", i - 1))])),
            _ => map(vec![(s("k"), alias("e")), (s("l"), alias(&format!("a{}", i - 2)))]),
        }).collect()),
        _ => seq(vec![anchored("x", s("one")), seq((0..n).map(|i| tagd("t", anchored(&format!("a{i}"), seq(vec![])))).collect()), anchored("x", s("two")), alias("x")]),
    }
}

pub const LONGS: usize = 10;
/// One long scalar or name followed by others.
pub fn long(kind: usize, n: usize) -> N {
    let rep = |w: &str| w.repeat(n);
    match kind {
        0 => seq(vec![s(&format!("x{}", rep("y"))), s("after")]),
        1 => seq(vec![s(&format!("é{}", rep("€"))), s("after")]),
        2 => seq(vec![s(&format!("a{}", rep(" b"))), s("after")]),
        3 => seq(vec![s(&format!("a\n{}", rep("b c\n"))), s("after")]),
        4 => seq(vec![s(&format!("'{}", rep("\u{1F600}"))), s("after")]),
        5 => map(vec![(s("k"), s(&format!("#{}", rep("z")))), (s("l"), s("after"))]),
        6 => seq(vec![anchored(&format!("a{}", rep("b")), s("x")), alias(&format!("a{}", rep("b"))), s("after")]),
        7 => seq(vec![tagd(&format!("a{}", rep("b")), s("x")), s("after")]),
        8 => seq(vec![s(&format!("\n{}", rep("\n"))), s("after")]),
        _ => seq(vec![s(&format!("a\n{}", rep("é\n\n"))), s("after")]),
    }
}

pub const RUNGS: usize = 8;
/// d levels, the kinds in turn, around a leaf.
pub fn tower(word: &[usize], d: usize, leaf: N) -> N {
    let mut n = leaf;
    for i in (0..d).rev() {
        n = match word[i % word.len()] {
            0 => seq(vec![n]),
            1 => seq(vec![s("a"), n, s("b c")]),
            2 => map(vec![(s("k"), n)]),
            3 => map(vec![(s("a"), int(1)), (s("k"), n), (s("z"), s("2"))]),
            4 => map(vec![(n, s("v"))]),
            5 => tagd("t", seq(vec![n])),
            6 => seq(vec![seq(vec![s("p"), map(vec![(s("q"), s("r"))])]), n]),
            _ => tagd("u", map(vec![(s("k"), n), (s("l"), s("m"))])),
        };
    }
    n
}

/// Every pair of rungs, the second possibly the same.
pub fn word(ch: &mut Ch) -> Vec<usize> {
    vec![ch.choose(RUNGS), ch.choose(RUNGS)]
}

/// The plainest presentation.
pub fn plain(n: &N) -> Written {
    let opts = Opts { empty_nulls: false, anchors: false, ..Opts::all() };
    text::write(&mut Ch::new(vec![]), n, opts)
}

/// On one line, strings in double quotes.
pub fn flow(n: &N) -> String {
    let mut t = String::new();
    put(n, &mut t);
    fn put(n: &N, t: &mut String) {
        if let Some(a) = &n.anchor {
            *t += &format!("&{a} ");
        }
        if let Some(g) = &n.tag {
            *t += &format!("{g} ");
        }
        match &n.k {
            K::Null => t.push('~'),
            K::Bool(b) => *t += &b.to_string(),
            K::Int(i) => *t += &i.to_string(),
            K::Float(f) => *t += &format!("{f:?}"),
            K::Str(s) => *t += &format!("{s:?}"),
            K::Seq(v) => {
                t.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        t.push_str(", ");
                    }
                    put(e, t);
                }
                t.push(']');
            }
            K::Map(v) => {
                t.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        t.push_str(", ");
                    }
                    if matches!(k.k, K::Seq(_) | K::Map(_)) {
                        // an implicit key could not be longer than 1024
                        t.push_str("? ");
                    }
                    put(k, t);
                    t.push_str(" : ");
                    put(e, t);
                }
                t.push('}');
            }
            K::Alias(a) => *t += &format!("*{a}"),
        }
    }
    t
}

/// The content of a node without aliases.
pub fn content(n: &N) -> T {
    let t = match &n.k {
        K::Null => T::Null,
        K::Bool(b) => T::Bool(*b),
        K::Int(i) => T::Int(*i),
        K::Float(f) => T::Float(*f),
        K::Str(s) => st(s),
        K::Seq(v) => T::Seq(v.iter().map(content).collect()),
        K::Map(v) => T::Map(v.iter().map(|(k, e)| (content(k), content(e))).collect()),
        K::Alias(_) => unreachable!("expanded"),
    };
    match &n.tag {
        Some(tag) => tagged(&tag[1..], t),
        None => t,
    }
}

pub const D_WIDES: usize = 9;
/// Data of the serde model with n parts.
pub fn d_wide(kind: usize, n: usize) -> D {
    let i32 = |i: usize| D::Int(i as i128, W::I32);
    let mix = |i: usize| match i % 9 {
        0 => i32(i),
        1 => data::str(&format!("text {i}")),
        2 => D::UnitVar("Unit"),
        3 => D::NewVar("New", Box::new(i32(i))),
        4 => D::TupVar("Tup", vec![i32(i), data::str("b")]),
        5 => D::Some(Box::new(D::Bool(true))),
        6 => D::StVar("St", vec![("a", i32(i)), ("b c", D::Unit)]),
        7 => D::Struct(vec![("a", i32(i))]),
        _ => D::Str(format!("d {i}"), 2),
    };
    match kind {
        0 => D::Seq((0..n).map(i32).collect(), true),
        1 => D::Seq((0..n).map(mix).collect(), false),
        2 => D::Tuple((0..n).map(mix).collect()),
        3 => D::TupleStruct((0..n).map(mix).collect()),
        4 => D::TupVar("Tup", (0..n).map(mix).collect()),
        5 => D::Map((0..n).map(|i| (data::str(&format!("k{i}")), mix(i))).collect(), 1),
        6 => D::Map((0..n).map(|i| (D::Tuple(vec![i32(i)]), i32(i))).collect(), 2),
        7 => D::NewVar("New", Box::new(D::Map((0..n).map(|i| (i32(i), mix(i))).collect(), 0))),
        _ => D::Seq(vec![data::str(&"x y\n".repeat(n)), data::str(&"é".repeat(n)), i32(n)], true),
    }
}

pub const D_RUNGS: usize = 12;
/// d levels of serde data.
pub fn d_tower(word: &[usize], d: usize, leaf: D) -> D {
    let mut n = leaf;
    let a = || data::str("s t");
    for i in (0..d).rev() {
        n = match word[i % word.len()] {
            0 => D::Seq(vec![n], true),
            1 => D::Tuple(vec![a(), n]),
            2 => D::Map(vec![(a(), n)], 1),
            3 => D::Map(vec![(n, a())], 2),
            4 => D::Struct(vec![("a", a()), ("b c", n)]),
            5 => D::TupleStruct(vec![n, a()]),
            6 => D::TupVar("Tup", vec![n, a()]),
            7 => D::StVar("St", vec![("a", n), ("b c", a())]),
            8 => D::NewVar("New", Box::new(D::Seq(vec![n], false))),
            9 => D::Some(Box::new(D::Tuple(vec![n]))),
            10 => D::Newtype(Box::new(D::Seq(vec![n, a()], true))),
            _ => D::NewVar("New", Box::new(D::Struct(vec![("a", n)]))),
        };
    }
    n
}
pub fn d_word(ch: &mut Ch) -> Vec<usize> {
    vec![ch.choose(D_RUNGS), ch.choose(D_RUNGS)]
}

/// The tree of a wide document without anchors, or of a long scalar.
pub fn tree(kind: usize, n: usize) -> T {
    let n = if kind < PLAIN { wide(kind, n) } else { long([0, 1, 2, 3, 4, 5, 7, 8, 9][kind - PLAIN], n) };
    content(&n)
}
pub const TREES: usize = PLAIN + 9;

/// The same content laid out throughout in another way.
pub fn relay(text: &str, way: usize) -> String {
    match way {
        0 => text.replace('\n', "\r\n"),
        1 => text.replace('\n', "\r"),
        2 => text.lines().map(|l| format!("{l}\n\n")).collect(),
        3 => text.lines().map(|l| format!("{l} # comment\n# and: [more\n")).collect(),
        4 => text.lines().map(|l| format!("{l}\n \n#{l}\n")).collect(),
        5 => text.lines().map(|l| format!("{l}  \n")).collect(),
        6 => format!("\u{feff}{text}"),
        7 => format!("--- # x\n{text}...\n# end\n"),
        _ => format!("%YAML 1.1\n---\n{}", text.trim_end()),
    }
}
