//! C15: apply_merge against a direct reading of what a merge key means.

use crate::big;
use crate::explore::*;
use crate::tree::*;
use serde_yaml::Value;

fn is_merge(k: &T) -> bool {
    matches!(k, T::Str(s) if s == "<<")
}

/// What merging means: local entries, then those of each source - merged at its own level -
/// in order; then the same inside what that leaves.
fn merged(t: &T) -> Result<T, &'static str> {
    Ok(match t {
        T::Seq(v) => T::Seq(v.iter().map(merged).collect::<Result<_, _>>()?),
        T::Tag(n, v) => T::Tag(n.clone(), Box::new(merged(v)?)),
        T::Map(v) => T::Map(
            one_level(v)?
                .into_iter()
                .map(|(k, e)| merged(&e).map(|e| (k, e)))
                .collect::<Result<_, _>>()?,
        ),
        t => t.clone(),
    })
}

fn one_level(v: &[(T, T)]) -> Result<Vec<(T, T)>, &'static str> {
    let (merges, mut out): (Vec<_>, Vec<_>) = v.iter().cloned().partition(|(k, _)| is_merge(k));
    for (_, src) in merges {
        let list = match src {
            T::Map(_) => vec![src],
            T::Seq(v) => v,
            _ => return Err("not a mapping or list"),
        };
        for s in &list {
            let T::Map(entries) = s else { return Err("a list element is not a mapping") };
            for (k, e) in one_level(entries)? {
                if !out.iter().any(|(l, _)| l.equal(&k)) {
                    out.push((k, e));
                }
            }
        }
    }
    Ok(out)
}

fn merge_left(t: &T) -> bool {
    match t {
        T::Seq(v) => v.iter().any(merge_left),
        T::Tag(_, v) => merge_left(v),
        T::Map(v) => v.iter().any(|(k, e)| is_merge(k) || merge_left(e)),
        _ => false,
    }
}

fn run(cx: &mut Cx, start: &T, shown: &str, mut v: Value) {
    let want = merged(start);
    let r = v.apply_merge().map_err(|e| e.to_string());
    let got = T::of(&v);
    cx.step(1);
    let again = if r.is_ok() {
        let mut w = v.clone();
        let r = w.apply_merge().is_ok();
        cx.step(1);
        r && T::of(&w).same(&got)
    } else {
        true
    };
    let ok = match (&r, &want) {
        (Ok(()), Ok(w)) => {
            cx.outcome(if w.same(start) { "nothing to merge" } else { "merged" });
            got.equal(w) && !merge_left(&got)
        }
        (Err(e), Err(_)) => {
            cx.outcome("refused");
            e.contains("merge") || e.contains("merging")
        }
        _ => false,
    };
    if ok && again {
        cx.trace();
        cx.sample(|| format!("{shown}: {want:?}"));
    } else {
        cx.fail(
            shown.to_owned(),
            format!("merging {shown}: {r:?} {got:?}, again the same: {again}; expected {want:?}"),
        );
    }
}

/// Trees whose leaves are all different, so that it shows where each came from.
struct G {
    keys: Vec<T>,
    tags: bool,
    next: i128,
}
impl G {
    fn node(&mut self, ch: &mut Ch, lim: usize) -> (T, usize) {
        match ch.choose(if self.tags && lim > 1 { 4 } else { 3 }) {
            0 => {
                self.next += 1;
                (T::Int(self.next), 1)
            }
            1 => {
                let mut v = vec![];
                let mut left = lim - 1;
                let start = ch.choose(self.keys.len() + 1);
                // keys in every cyclic order, each at most once
                for i in 0..self.keys.len() {
                    if left == 0 || start == self.keys.len() {
                        break;
                    }
                    let k = self.keys[(start + i) % self.keys.len()].clone();
                    if i == 0 || ch.flag() {
                        let (e, u) = self.node(ch, left);
                        left -= u;
                        v.push((k, e));
                    }
                }
                (T::Map(v), lim - left)
            }
            2 => {
                let mut v = vec![];
                let mut left = lim - 1;
                while left > 0 && ch.flag() {
                    let (e, u) = self.node(ch, left);
                    left -= u;
                    v.push(e);
                }
                (T::Seq(v), lim - left)
            }
            _ => {
                let (e, u) = self.node(ch, lim - 1);
                (T::Tag("t".into(), Box::new(e)), u + 1)
            }
        }
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let lim = tier.pick(7, 8);
    f.push(family(
        "trees",
        format!("every tree of at most {lim} nodes whose mappings have keys among '<<', a, b in every cyclic order"),
        move |ch, cx| {
            let mut g = G { keys: vec![st("<<"), st("a"), st("b")], tags: false, next: 0 };
            let t = g.node(ch, lim).0;
            if !merge_left(&t) {
                return;
            }
            cx.state(&t);
            cx.case = format!("{t:?}");
            run(cx, &t, &format!("{t:?}"), t.to_value());
        },
    ));
    let lim = tier.pick(5, 6);
    f.push(family(
        "tagged trees",
        format!("every tree of at most {lim} nodes with tags and keys among '<<', a, !t '<<', null"),
        move |ch, cx| {
            let mut g = G { keys: vec![st("<<"), st("a"), tagged("t", st("<<")), T::Null], tags: true, next: 0 };
            let t = g.node(ch, lim).0;
            cx.state(&t);
            cx.case = format!("{t:?}");
            run(cx, &t, &format!("{t:?}"), t.to_value());
        },
    ));
    f.push(family(
        "precedence",
        "local entries and up to 3 sources (a mapping alone or a list), each any subset of 3 keys, with the merge entry first, in the middle or last; every source optionally merging one more",
        |ch, cx| {
            let keys = [st("a"), T::Int(1), T::Map(vec![(st("x"), T::Null)])];
            let mut n = 0;
            let mut subset = |ch: &mut Ch| -> Vec<(T, T)> {
                let mask = ch.choose(8);
                let mut v = vec![];
                for (i, k) in keys.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        n += 1;
                        v.push((k.clone(), T::Int(n)));
                    }
                }
                v
            };
            let mut local = subset(ch);
            let count = ch.range(0, 3);
            let alone = count == 1 && ch.flag();
            let mut sources = vec![];
            for i in 0..count {
                let mut s = subset(ch);
                if i < 2 && ch.flag() {
                    let deep = T::Map(subset(ch));
                    let at = if ch.flag() { s.len() } else { 0 };
                    s.insert(at, (st("<<"), deep));
                }
                sources.push(T::Map(s));
            }
            let src = if alone { sources.pop().unwrap() } else { T::Seq(sources) };
            let at = ch.range(0, local.len());
            local.insert(at, (st("<<"), src));
            let t = T::Map(local);
            cx.state(&t);
            cx.case = format!("{t:?}");
            run(cx, &t, &format!("{t:?}"), t.to_value());
        },
    ));
    f.push(family(
        "contents",
        "every kind of merge content, alone, in a list, in a list after a mapping, and inside a source, under 4 surroundings",
        |ch, cx| {
            let contents = [
                T::Null,
                T::Bool(true),
                T::Int(1),
                T::Float(0.5),
                st("a"),
                st(""),
                T::Seq(vec![]),
                T::Seq(vec![T::Seq(vec![])]),
                T::Map(vec![]),
                T::Map(vec![(st("k"), T::Int(1))]),
                tagged("t", T::Map(vec![])),
                tagged("t", T::Null),
                tagged("t", T::Seq(vec![])),
                T::Map(vec![(st("<<"), T::Map(vec![(st("d"), T::Int(2))]))]),
                T::Map(vec![(st("<<"), T::Int(3))]),
                T::Map(vec![(st("<<"), T::Seq(vec![T::Map(vec![(st("d"), T::Int(2))]), T::Map(vec![(st("d"), T::Int(4))])]))]),
            ];
            let c = ch.pick(&contents).clone();
            let m = T::Map(vec![(st("m"), T::Int(9))]);
            let src = match ch.choose(6) {
                0 => c,
                1 => T::Seq(vec![c]),
                2 => T::Seq(vec![m, c]),
                3 => T::Seq(vec![c, m]),
                4 => T::Map(vec![(st("<<"), c), (st("z"), T::Int(8))]),
                _ => T::Map(vec![(st("y"), T::Seq(vec![T::Map(vec![(st("<<"), c)])]))]),
            };
            let n = T::Map(vec![(st("l"), T::Int(7)), (st("<<"), src), (st("k"), T::Null)]);
            let t = match ch.choose(4) {
                0 => n,
                1 => T::Seq(vec![T::Null, n]),
                2 => tagged("t", n),
                _ => T::Map(vec![(st("o"), T::Map(vec![(st("p"), n)])), (st("q"), T::Int(1))]),
            };
            cx.state(&t);
            cx.case = format!("{t:?}");
            run(cx, &t, &format!("{t:?}"), t.to_value());
        },
    ));
    let names = tier.pick(3, 4);
    f.push(family(
        "inheritance in text",
        format!("documents of {names} anchored mappings with overlapping keys, each merging none, any one, or any two (in either order) of the earlier ones by alias"),
        move |ch, cx| {
            let mut text = String::new();
            let mut defs: Vec<T> = vec![];
            for i in 0..names {
                text.push_str(&format!("n{i}: &n{i}\n"));
                let mut v = vec![];
                let last = ch.flag();
                let mut merge = String::new();
                let mut src = None;
                if i > 0 {
                    let c = ch.choose(1 + i + i * i);
                    if c == 0 {
                    } else if c <= i {
                        merge = format!("  <<: *n{}\n", c - 1);
                        src = Some(defs[c - 1].clone());
                    } else {
                        let (a, b) = ((c - 1 - i) / i, (c - 1 - i) % i);
                        merge = format!("  <<: [*n{a}, *n{b}]\n");
                        src = Some(T::Seq(vec![defs[a].clone(), defs[b].clone()]));
                    }
                }
                if !last {
                    text.push_str(&merge);
                    if let Some(s) = &src {
                        v.push((st("<<"), s.clone()));
                    }
                }
                let mask = ch.choose(4);
                for (j, k) in ["a", "b"].iter().enumerate() {
                    if mask >> j & 1 == 1 {
                        text.push_str(&format!("  {k}: {i}{j}\n"));
                        v.push((st(k), T::Int((i * 10 + j) as i128)));
                    }
                }
                // so that none is empty, and zero-padded numbers stay out of it
                text.push_str(&format!("  own{i}: 1\n"));
                v.push((st(&format!("own{i}")), T::Int(1)));
                if last {
                    text.push_str(&merge);
                    if let Some(s) = &src {
                        v.push((st("<<"), s.clone()));
                    }
                }
                defs.push(T::Map(v));
            }
            // 0 is written 00 and 01: strings
            let text = text.replace(": 00\n", ": 0\n").replace(": 01\n", ": 1\n");
            let t = T::Map(defs.iter().enumerate().map(|(i, d)| (st(&format!("n{i}")), d.clone())).collect());
            cx.state(&text);
            cx.case = text.clone();
            let v: Value = match serde_yaml::from_str(&text) {
                Ok(v) => v,
                Err(e) => {
                    cx.fail(text.clone(), format!("{text:?}: {e}"));
                    return;
                }
            };
            if !T::of(&v).same(&t) {
                cx.fail(text.clone(), format!("{text:?} read as {:?}, expected {t:?}", T::of(&v)));
                return;
            }
            run(cx, &t, &format!("{text:?}"), v);
        },
    ));
    let n = big::few_sizes(tier);
    f.push(family(
        "many",
        format!("{} sizes up to {}: a merge entry with a list of as many sources, sources with as many entries, beside as many local ones, that many mappings merging in turn; and as deep", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let n = *ch.pick(&n);
            let k = |i: usize| st(&format!("k{i}"));
            let one = |i: usize| T::Map(vec![(k(i % 50), T::Int(i as i128)), (st("x"), T::Int(i as i128))]);
            let wide = |from: usize| T::Map((from..from + n).map(|i| (k(i), T::Int((i + from) as i128))).collect());
            let merge = |m: T, mut rest: Vec<(T, T)>, at: usize| {
                rest.insert(at.min(rest.len()), (st("<<"), m));
                T::Map(rest)
            };
            let at = [0, n / 2, n][ch.choose(3)];
            let t = match ch.choose(8) {
                0 => merge(T::Seq((0..n).map(one).collect()), vec![(k(0), st("local"))], at),
                1 => merge(wide(0), vec![(k(n / 2), st("local")), (k(n + 5), st("own"))], at),
                2 => {
                    let T::Map(local) = wide(n / 2) else { unreachable!() };
                    merge(wide(0), local, at)
                }
                3 => {
                    let T::Map(local) = wide(n / 3) else { unreachable!() };
                    merge(T::Seq(vec![wide(0), wide(n / 2), one(3)]), local, at)
                }
                4 => T::Seq((0..n).map(|i| merge(one(i), vec![(st("x"), st("local"))], i)).collect()),
                5 => T::Map((0..n).map(|i| (k(i), merge(T::Seq(vec![one(i), one(i + 1)]), vec![], 0))).collect()),
                6 => {
                    // as deep as that, every level merging
                    let mut t = one(0);
                    for i in 0..n.min(200) {
                        t = merge(one(i), vec![(st("down"), t)], i % 2);
                    }
                    t
                }
                _ => {
                    // every source merging the next, and tags and sequences on the way
                    let mut t = one(0);
                    for i in 0..n.min(200) {
                        t = merge(t, vec![(k(i), tagged("t", T::Seq(vec![merge(one(i), vec![], 0)])))], i % 2);
                    }
                    t
                }
            };
            cx.state(&(&t, at));
            cx.case = format!("size {n} at {at}");
            let v = t.to_value();
            run(cx, &t, &format!("{t:?}"), v);
        },
    ));
    f
}
