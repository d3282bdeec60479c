//! C01: any Value survives being written as YAML and read back.

use crate::big;
use crate::explore::*;
use crate::tree::*;
use serde::Serialize;
use serde_yaml::Value;

/// Both ways round for one tree, with every way of producing the text.
pub fn round_trip(cx: &mut Cx, t: &T) {
    let v = t.to_value();
    let text = match serde_yaml::to_string(&v) {
        Ok(s) => s,
        Err(e) => {
            if t.nested_tag() {
                cx.outcome("nested tag refused");
                return;
            }
            cx.fail(format!("{t:?}"), format!("to_string failed: {e}; tree {t:?}"));
            return;
        }
    };
    if t.nested_tag() {
        // a tag directly on a tag cannot be written; refusing is the only right answer
        cx.fail(
            format!("{t:?}"),
            format!("nested tag was not refused; tree {t:?}; text {text:?}"),
        );
        return;
    }
    let mut w = Vec::new();
    match serde_yaml::to_writer(&mut w, &v) {
        Ok(()) if w == text.as_bytes() => {}
        r => {
            cx.fail(
                format!("{t:?}"),
                format!("to_writer gives {r:?} {:?}, to_string {text:?}", String::from_utf8_lossy(&w)),
            );
            return;
        }
    }
    let back = match serde_yaml::from_str::<Value>(&text) {
        Ok(b) => b,
        Err(e) => {
            cx.fail(
                format!("{t:?}"),
                format!("own output unreadable: {e}; tree {t:?}; text {text:?}"),
            );
            return;
        }
    };
    let bt = T::of(&back);
    if !bt.same(t) {
        cx.fail(
            format!("{t:?}"),
            format!("wrote {t:?} as {text:?}, read back {bt:?}"),
        );
        return;
    }
    if back != v {
        cx.fail(format!("{t:?}"), format!("same tree but Value inequality: {t:?}"));
        return;
    }
    match serde_yaml::to_string(&back) {
        Ok(again) if again == text => {}
        r => {
            cx.fail(
                format!("{t:?}"),
                format!("second serialization differs: {text:?} then {r:?}"),
            );
            return;
        }
    }
    cx.trace();
    cx.sample(|| format!("{t:?} <-> {text:?}"));
}

/// Same, additionally through a Serializer object that is unwrapped.
fn round_trip_serializer(cx: &mut Cx, t: &T) {
    round_trip(cx, t);
    if t.nested_tag() {
        return;
    }
    let v = t.to_value();
    let expect = serde_yaml::to_string(&v).unwrap_or_default();
    let mut ser = serde_yaml::Serializer::new(Vec::new());
    let r = v.serialize(&mut ser);
    let out = ser.into_inner();
    match (r, out) {
        // an open-ended document may be closed when the stream is
        (Ok(()), Ok(w)) if w.strip_suffix(b"...\n").unwrap_or(&w) == expect.as_bytes() => {}
        (r, w) => cx.fail(
            format!("{t:?}"),
            format!("Serializer gives {r:?} {w:?}, to_string {expect:?}"),
        ),
    }
}

fn trees(name: &'static str, g: Gen, lim: usize, what: &str) -> Family {
    family(
        name,
        format!("every tree of at most {lim} nodes over {} leaves ({what}), {} tags, any node as key", g.leaves.len(), g.tags.len()),
        move |ch, cx| {
            let t = g.tree(ch, lim);
            if t.has_dup_keys() {
                cx.outcome("skipped: equal keys");
                return;
            }
            cx.state(&t);
            round_trip(cx, &t);
        },
    )
}

/// One way to wrap a node.
pub fn wrap(kind: usize, inner: T) -> T {
    match kind {
        0 => T::Seq(vec![inner]),
        1 => T::Map(vec![(st("k"), inner)]),
        2 => T::Map(vec![(inner, st("v"))]),
        3 => match inner {
            T::Tag(..) => T::Seq(vec![inner]),
            i => tagged("t", i),
        },
        4 => T::Seq(vec![T::Int(1), inner, T::Null]),
        5 => T::Map(vec![(st("a"), T::Int(1)), (st("k"), inner), (st("z"), T::Null)]),
        _ => T::Map(vec![(inner, T::Null), (st("z"), T::Int(1))]),
    }
}

/// Levels of the recursion limit a tree uses.
pub fn depth(t: &T) -> usize {
    match t {
        T::Seq(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        T::Map(v) => 1 + v.iter().map(|(k, e)| depth(k).max(depth(e))).max().unwrap_or(0),
        T::Tag(_, v) => depth(v),
        _ => 0,
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let g = Gen::new(leaves_small(), &["t"]);
    f.push(trees("small", g, tier.pick(8, 10), "one of null, integer, string"));
    let mut g = Gen::new(leaves_medium(), &["t", "u:v"]);
    g.nested_tags = true;
    f.push(trees("medium", g, tier.pick(6, 7), "one per behaviour"));
    let g = Gen::new(leaves_wide(), &["t"]);
    f.push(trees("wide", g, tier.pick(4, 5), "hostile scalars"));
    f.push(family(
        "tags",
        "every tag of an alphabet of valid tag names on every kind of node in every position",
        |ch, cx| {
            let tags = [
                "t", "T", "Thing", "a-b", "a_b", "a.b", "a/b", "a:b", "a~b", "0", "-", "1.5", "true",
                "null", "é", "日本", "tag:yaml.org:str", "int", "str", "a%b", "a b", "a{b}", "!", "a!",
                "a!b", "a'b", "a\"b", "a#b", "a&b", "a*b", "a\tb", "a\nb", "x%41", "😀",
            ];
            let t = ch.pick(&tags);
            let leaves = [T::Null, st("a"), st(""), st("1"), st("a\nb"), T::Int(1), T::Seq(vec![]), T::Map(vec![]), T::Seq(vec![T::Int(1)]), T::Map(vec![(st("k"), T::Int(1))]), T::Map(vec![(st("k"), T::Int(1)), (st("l"), T::Null)])];
            let inner = ch.pick(&leaves).clone();
            let mut x = tagged(t, inner);
            for _ in 0..ch.choose(3) {
                x = wrap(ch.choose(7), x);
            }
            cx.state(&x);
            round_trip_serializer(cx, &x);
        },
    ));
    f.push(family(
        "odd tags",
        "tag names the emitter may be unable to express, each alone on one scalar",
        |ch, cx| {
            let tags = [",", "a,b", "[", "a[b", "]", "a]b", "!!a", "a\0b", "\0"];
            let x = tagged(ch.word(&tags), st("x"));
            cx.state(&x);
            round_trip_serializer(cx, &x);
        },
    ));
    f.push(family(
        "depth",
        "every periodic nesting word of length up to 3 over 7 wrappers, every depth up to the limit",
        move |ch, cx| {
            let n = ch.range(1, 3);
            let word: Vec<usize> = (0..n).map(|_| ch.choose(7)).collect();
            let leaves = [st("x"), T::Null, T::Seq(vec![]), T::Map(vec![]), st("a\nb")];
            let leaf = ch.pick(&leaves[..cx.tier.pick(3, 5)]).clone();
            let mut t = leaf;
            let mut d = 0usize;
            let mut i = 0usize;
            while d < 126 {
                let k = word[i % n];
                t = wrap(k, t);
                d = depth(&t);
                i += 1;
                let check = d < 8 || d % 16 < 2 || d > 122;
                if check || cx.tier == Tier::Thorough {
                    cx.state(&t);
                    round_trip(cx, &t);
                    cx.step(1);
                }
                if i > 300 {
                    break;
                }
            }
        },
    ));
    f.push(family(
        "width",
        "every container kind with every number of entries up to 300 (thorough: 1200), in every wrapper",
        move |ch, cx| {
            let kind = ch.choose(5);
            let outer = ch.choose(8);
            let mut n = 0usize;
            let max = cx.tier.pick(300, 1200);
            while n <= max {
                let t = match kind {
                    0 => T::Seq((0..n).map(|i| T::Int(i as i128)).collect()),
                    1 => T::Map((0..n).map(|i| (T::Int(i as i128), T::Null)).collect()),
                    2 => T::Map((0..n).map(|i| (st(&format!("key{i}")), T::Seq(vec![T::Int(1)]))).collect()),
                    3 => T::Seq((0..n).map(|i| T::Map(vec![(st("k"), T::Int(i as i128))])).collect()),
                    _ => T::Seq((0..n).map(|i| tagged("t", st(&i.to_string()))).collect()),
                };
                let t = if outer == 7 { t } else { wrap(outer, t) };
                cx.state(&t);
                round_trip(cx, &t);
                cx.step(1);
                n += if n < 40 || cx.tier == Tier::Thorough { 1 } else { 7 };
            }
        },
    ));
    f.push(family(
        "length",
        "strings of every length up to 300 and around every power of two to 65536 and the 16 KiB buffer, 12 fillings, every wrapper",
        move |ch, cx| {
            let outer = ch.choose(8);
            let fill = ch.choose(12);
            let mut lens: Vec<usize> = (0..=300).collect();
            for p in [512usize, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
                lens.extend(p - 3..=p + 3);
            }
            if cx.tier == Tier::Thorough {
                lens.extend(1000..1060);
                lens.extend(16370..16400);
            }
            for n in lens {
                if cx.tier == Tier::Quick && n > 40 && n <= 300 && n % 8 > 1 && !(120..140).contains(&n) {
                    continue;
                }
                let unit: &str = ["a", "é", "a b ", "line\n", "\n", " ", "0", "a\"", "'", "\t\n", "😀", "\u{85}"][fill];
                let mut s: String = unit.repeat(n / unit.len() + 1);
                let mut k = n.min(s.len());
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                let t = T::Str(s);
                let t = if outer == 7 { t } else { wrap(outer, t) };
                cx.state(&t);
                round_trip(cx, &t);
                cx.step(1);
            }
        },
    ));
    let n = big::sizes(tier);
    let l = big::lengths(tier);
    f.push(family(
        "many",
        format!("12 kinds of wide tree at {} sizes up to {} and 9 with a long scalar or tag at {} lengths up to {}", n.len(), n[n.len() - 1], l.len(), l[l.len() - 1]),
        move |ch, cx| {
            let kind = ch.choose(big::TREES);
            let size = *ch.pick(if kind < big::PLAIN { &n } else { &l });
            let t = big::tree(kind, size);
            cx.state(&(kind, size));
            cx.case = format!("kind {kind} size {size}");
            round_trip_serializer(cx, &t);
        },
    ));
    f.push(family(
        "deep",
        "towers of every pair of 8 kinds of level, each number of levels from 1 to 126, around 3 leaves",
        |ch, cx| {
            let w = big::word(ch);
            let d = ch.range(1, 126);
            let leaf = ch.pick(&[st("leaf"), st("two\nlines\n"), T::Seq(vec![])]).clone();
            let t = big::content(&big::tower(&w, d, crate::text::N::of(&leaf)));
            if depth(&t) > 128 {
                return;
            }
            cx.state(&t);
            cx.case = format!("{w:?} {d} {leaf:?}");
            round_trip(cx, &t);
        },
    ));
    f
}
