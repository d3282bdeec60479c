//! C10: nesting and alias expansion are bounded exactly.

use crate::explore::*;
use crate::types::{self, Out};
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_derive::Deserialize;
use serde_yaml::Value;
use std::fmt;

/// One level of nesting.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Lv {
    Seq,
    Sib,
    Val,
    Key,
    TagSeq,
    TagVal,
    /// block styles, only outside of every flow level
    Dash,
    Quest,
}
use Lv::*;
const FLOW: [Lv; 6] = [Seq, Val, Key, TagSeq, TagVal, Sib];

impl Lv {
    fn open(self) -> &'static str {
        match self {
            Seq => "[",
            Sib => "[1, ",
            Val => "{k: ",
            Key => "{? ",
            TagSeq => "!t [",
            TagVal => "!t {k: ",
            Dash => "- ",
            Quest => "? ",
        }
    }
    fn close(self) -> &'static str {
        match self {
            Seq | TagSeq => "]",
            Sib => ", 2]",
            Val | TagVal => "}",
            Key => " : v}",
            Dash | Quest => "",
        }
    }
    fn map(self) -> bool {
        matches!(self, Val | Key | TagVal | Quest)
    }
    fn tag(self) -> bool {
        matches!(self, TagSeq | TagVal)
    }
}

fn spine(levels: &[Lv], leaf: &str) -> String {
    let mut s = String::new();
    levels.iter().for_each(|l| s.push_str(l.open()));
    s.push_str(leaf);
    levels.iter().rev().for_each(|l| s.push_str(l.close()));
    s
}

fn cycle(word: &[Lv], n: usize) -> Vec<Lv> {
    word.iter().copied().cycle().take(n).collect()
}

/// How a level is asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Any,
    Exact,
    Opt,
    New,
    Struct,
    Enum,
}
const HOWS: [How; 6] = [How::Any, How::Exact, How::Opt, How::New, How::Struct, How::Enum];

/// Follows a spine down to its leaf, everything aside is ignored.
#[derive(Clone, Copy)]
struct Drive<'a> {
    levels: &'a [Lv],
    hows: &'a [How],
    at: usize,
    /// from this level on, ignore
    ignore: usize,
    how: How,
}

impl<'a> Drive<'a> {
    fn new(levels: &'a [Lv], hows: &'a [How], ignore: usize) -> Drive<'a> {
        Drive { levels, hows, at: 0, ignore, how: hows[0] }
    }
    fn next(self) -> Drive<'a> {
        let at = self.at + 1;
        Drive { at, how: self.hows[at % self.hows.len()], ..self }
    }
    fn inner(self) -> Drive<'a> {
        Drive { how: if self.how == How::Any { How::Any } else { How::Exact }, ..self }
    }
}

impl<'de, 'a> DeserializeSeed<'de> for Drive<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        if self.at >= self.ignore {
            return IgnoredAny::deserialize(d).map(|_| ());
        }
        let Some(l) = self.levels.get(self.at) else {
            return Leaf.deserialize(d);
        };
        let mut how = self.how;
        if how == How::Enum && !l.tag() {
            how = How::Exact;
        }
        match (how, l.map()) {
            (How::Any, _) => d.deserialize_any(self),
            (How::Exact, false) => d.deserialize_seq(self),
            (How::Exact, true) => d.deserialize_map(self),
            (How::Struct, false) => d.deserialize_tuple_struct("S", 3, self),
            (How::Struct, true) => d.deserialize_struct("S", &["k"], self),
            (How::Opt, _) => d.deserialize_option(self),
            (How::New, _) => d.deserialize_newtype_struct("N", self),
            (How::Enum, _) => d.deserialize_enum("E", &["t"], self),
        }
    }
}

impl<'de, 'a> Visitor<'de> for Drive<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the spine")
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.inner().deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.inner().deserialize(d)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant::<String>()?;
        v.newtype_variant_seed(self.inner())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if self.levels[self.at] == Sib {
            a.next_element::<IgnoredAny>()?;
        }
        a.next_element_seed(self.next())?;
        while a.next_element::<IgnoredAny>()?.is_some() {}
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if matches!(self.levels[self.at], Key | Quest) {
            a.next_key_seed(self.next())?;
            a.next_value::<IgnoredAny>()?;
        } else {
            a.next_key::<IgnoredAny>()?;
            a.next_value_seed(self.next())?;
        }
        while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
        Ok(())
    }
}

/// Whatever is there, read completely.
struct Leaf;
impl<'de> DeserializeSeed<'de> for Leaf {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_any(Leaf)
    }
}
impl<'de> Visitor<'de> for Leaf {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        Ok(())
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<(), E> {
        Ok(())
    }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<(), E> {
        Ok(())
    }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<(), E> {
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant::<String>()?;
        v.newtype_variant_seed(Leaf)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_element_seed(Leaf)?.is_some() {}
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        while a.next_key_seed(Leaf)?.is_some() {
            a.next_value_seed(Leaf)?;
        }
        Ok(())
    }
}

const DEEP: &str = "recursion limit exceeded";
const MANY: &str = "repetition limit exceeded";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Want {
    Read,
    Deep,
    Many,
}

fn conform<T>(cx: &mut Cx, text: &str, label: &str, want: Want, got: Result<T, serde_yaml::Error>) {
    cx.step(1);
    let ok = match (&got, want) {
        (Ok(_), Want::Read) => true,
        (Err(e), Want::Deep) => e.to_string().contains(DEEP) && e.location().is_some_and(|l| l.index() <= text.len()),
        (Err(e), Want::Many) => e.to_string().contains(MANY) && e.location().is_none_or(|l| l.index() <= text.len()),
        _ => false,
    };
    cx.outcome(match want {
        Want::Read => "read",
        Want::Deep => "recursion limit",
        Want::Many => "repetition limit",
    });
    if ok {
        cx.trace();
    } else {
        cx.fail(
            format!("{label}: {}", clip(text, 600)),
            format!("{label}, {}: {:?}, should be {want:?}", clip(text, 200), got.map(|_| "read").map_err(|e| clip(&e.to_string(), 200))),
        );
    }
}

fn drive(text: &str, levels: &[Lv], hows: &[How], ignore: usize) -> Result<(), serde_yaml::Error> {
    Drive::new(levels, hows, ignore).deserialize(serde_yaml::Deserializer::from_str(text))
}

fn deep(depth: usize) -> Want {
    if depth <= 128 {
        Want::Read
    } else {
        Want::Deep
    }
}

const LEAVES: [(&str, usize); 6] = [("x", 0), ("[]", 1), ("{}", 1), ("!t 1", 0), ("[[]]", 2), ("!u {? [] : {}}", 2)];

fn word(ch: &mut Ch, max: usize) -> Vec<Lv> {
    let n = ch.range(1, max);
    (0..n).map(|_| *ch.pick(&FLOW)).collect()
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let len = tier.pick(3, 4);
    f.push(family(
        "nesting",
        format!("spines repeating every word of up to {len} of 6 kinds of level, under 0, 1 or 64 block levels, down to 126..131 and 300 levels, over 6 leaves: as a Value, ignored, and any-typed"),
        move |ch, cx| {
            let w = word(ch, len);
            let block = *ch.pick(&[0usize, 1, 64]);
            let bw = if block > 0 { ch.choose(3) } else { 0 };
            let depth = *ch.pick(&[126usize, 127, 128, 129, 130, 131, 300]);
            let (leaf, more) = *ch.pick(&LEAVES);
            let mut levels = match bw {
                0 => cycle(&[Dash], block),
                1 => cycle(&[Quest], block),
                _ => cycle(&[Dash, Dash, Quest], block),
            };
            levels.extend(cycle(&w, depth - block));
            let text = spine(&levels, leaf);
            cx.state(&text);
            cx.case.clone_from(&text);
            let want = deep(depth + more);
            conform(cx, &text, "Value", want, serde_yaml::from_str::<Value>(&text));
            conform(cx, &text, "ignored", Want::Read, serde_yaml::from_str::<IgnoredAny>(&text));
            conform(cx, &text, "anything", want, Leaf.deserialize(serde_yaml::Deserializer::from_str(&text)));
            cx.sample(|| format!("{w:?} x {depth} under {block} block levels, leaf {leaf}: {want:?}"));
        },
    ));
    f.push(family(
        "odd one out",
        "uniform spines of each of 6 kinds with one level of any other kind at every one of its positions, 127..130 levels: as a Value",
        |ch, cx| {
            let (a, b) = (*ch.pick(&FLOW), *ch.pick(&FLOW));
            let depth = ch.range(127, 130);
            let p = ch.choose(depth);
            if a == b && p > 0 {
                return;
            }
            let mut levels = cycle(&[a], depth);
            levels[p] = b;
            let text = spine(&levels, "x");
            cx.state(&text);
            cx.case.clone_from(&text);
            conform(cx, &text, "Value", deep(depth), serde_yaml::from_str::<Value>(&text));
        },
    ));
    f.push(family(
        "targets",
        "spines repeating every word of up to 2 kinds of level read by a target asking for each level in one of 6 ways, every word of up to 2 ways; 62..66 and 126..131 levels; the rest of the spine ignored from level 0, 1, 60, 128, 129 or never",
        |ch, cx| {
            let w = word(ch, 2);
            let hows: Vec<How> = (0..ch.range(1, 2)).map(|_| *ch.pick(&HOWS)).collect();
            let depth = *ch.pick(&[62usize, 63, 64, 65, 66, 84, 85, 86, 126, 127, 128, 129, 130, 131]);
            let ignore = *ch.pick(&[usize::MAX, 0, 1, 60, 64, 65, 128, 129]);
            if ignore != usize::MAX && ignore > depth {
                return;
            }
            let levels = cycle(&w, depth);
            let text = spine(&levels, "x");
            cx.state(&(&text, &hows, ignore));
            cx.case = format!("{hows:?} {ignore} {text}");
            let cost = (0..depth.min(ignore)).map(|i| if hows[i % hows.len()] == How::New { 2 } else { 1 }).sum::<usize>();
            conform(cx, &text, &format!("{hows:?} ignoring from {ignore}"), deep(cost), drive(&text, &levels, &hows, ignore));
        },
    ));
    f.push(family(
        "through aliases",
        "a spine of m levels ending in an alias to an anchored spine of n levels, itself perhaps ending in an alias to a third of 1 or 40 levels: every m, n up to 130 summing to 124..132, 6 x 6 kinds; as a Value and driven",
        |ch, cx| {
            let (a, b) = (*ch.pick(&FLOW), *ch.pick(&FLOW));
            let third = *ch.pick(&[0usize, 1, 40]);
            let total = ch.range(124, 132);
            // an alias has no anchor of its own
            let m = ch.range(0, total - third - (third > 0) as usize);
            let n = total - third - m;
            let top = cycle(&[a], m);
            let mid = cycle(&[b], n);
            let mut defs = String::new();
            let leaf = if third > 0 {
                defs = format!("&z {}, ", spine(&cycle(&[Seq], third), "x"));
                "*z"
            } else {
                "x"
            };
            let text = format!("[{defs}&y {}, {}]", spine(&mid, leaf), spine(&top, "*y"));
            cx.state(&text);
            cx.case.clone_from(&text);
            let want = deep(1 + total);
            conform(cx, &text, "Value", want, serde_yaml::from_str::<Value>(&text));
            conform(cx, &text, "anything", want, Leaf.deserialize(serde_yaml::Deserializer::from_str(&text)));
        },
    ));
    let sizes = tier.pick([500usize, 3000], [2000, 20000]);
    f.push(family(
        "bottomless",
        format!("spines repeating every word of up to 2 kinds of level, and block ones, down to {sizes:?} levels, complete, cut short or over-closed: 35 target types, 8 for the deeper ones"),
        move |ch, cx| {
            let n = *ch.pick(&sizes);
            let kind = ch.choose(3);
            let levels = match kind {
                0 => cycle(&word(ch, 2), n),
                1 => cycle(&[Dash], n),
                _ => cycle(&[Quest], n),
            };
            let mut text = spine(&levels, "x");
            match ch.choose(3) {
                0 => {}
                1 => text.truncate(text.len() / 2),
                _ => text.push(']'),
            }
            cx.state(&text);
            cx.case = clip(&text, 60);
            for t in if n == sizes[0] { types::all() } else { types::few() } {
                let out = (t.str)(&text);
                cx.step(1);
                match out {
                    Out::Ok(_) if t.name == "Value" => {
                        cx.fail(clip(&text, 60), format!("{} levels read as a Value", n));
                        return;
                    }
                    Out::Ok(_) => cx.outcome("ignored"),
                    Out::Err(..) => cx.outcome("refused"),
                }
            }
            cx.trace();
        },
    ));
    // aliases
    let ps: Vec<usize> = tier.pick(vec![120, 150, 199, 300], (110..200).step_by(3).chain([250, 399]).collect());
    f.push(family(
        "repetition",
        "[&s x, &a [*s x p], [*a x q], [*s x r]] with p, q and the r that puts the number of expansions right at the limit or over it, for 3 contents, 6 places of the alias and 100 values of q each",
        move |ch, cx| {
            let p = *ch.pick(&ps);
            let q = least(p as i64, |p, q| p + q * (1 + p) - 100 * (9 + p + q)) + ch.choose(100);
            let over = ch.flag();
            let place = ch.choose(6);
            let x = ["x", "1", "''"][(p + q) % 3];
            // expansions - 100 * events without r; each *s in the last list is one of both
            let (p_, q_) = (p as i64, q as i64);
            let d0 = p_ + q_ * (1 + p_) - 100 * (2 + 1 + (2 + p_) + (2 + q_) + 2);
            if d0 < 0 {
                return;
            }
            let r = (d0 + 98) / 99;
            let r = if over { r - 1 } else { r };
            if r < 0 {
                return;
            }
            let list = |n: usize, a: &str| vec![a; n].join(", ");
            let text = match place {
                0 => format!("[&s {x}, &a [{}], [{}], [{}]]", list(p, "*s"), list(q, "*a"), list(r as usize, "*s")),
                1 => {
                    let b = |n: usize, a: &str| format!("- {a}\n  ").repeat(n);
                    format!("- &s {x}\n- &a\n  {}\n- {}\n- {}\n", b(p, "*s"), b(q, "*a"), if r > 0 { b(r as usize, "*s") } else { "[]".into() })
                }
                // anchors redefined, also after the last use
                2 => format!("[&s {x}, &a [{}], [{}], &a [{}]]", list(p, "*s"), list(q, "*a"), list(r as usize, "*s")),
                3 => format!("[&s {x}, &a !t [{}], [{}], !u [{}]]", list(p, "*s"), list(q, "*a"), list(r as usize, "*s")),
                4 => format!("--- [&s {x}, &a [{}], [{}], [{}]]\n---\n[1, 2, 3]\n", list(p, "*s"), list(q, "*a"), list(r as usize, "*s")),
                _ => format!("--- [1, 2, 3]\n---\n[&s {x}, &a [{}], [{}], [{}]]", list(p, "*s"), list(q, "*a"), list(r as usize, "*s")),
            };
            cx.state(&text);
            cx.case = format!("p {p} q {q} r {r}: {text}");
            let d = d0 - 99 * r;
            let want = if d > 0 { Want::Many } else { Want::Read };
            match d {
                0 => cx.outcome("exactly at the limit"),
                1 => cx.outcome("one over the limit"),
                _ => {}
            }
            if place < 4 {
                if (p + q) % 4 == 0 {
                    conform(cx, &text, "Value", want, serde_yaml::from_str::<Value>(&text));
                }
                conform(cx, &text, "anything", want, Leaf.deserialize(serde_yaml::Deserializer::from_str(&text)));
            } else {
                for (i, doc) in serde_yaml::Deserializer::from_str(&text).enumerate() {
                    let here = if i == place - 4 { want } else { Want::Read };
                    conform(cx, &text, "document of a stream", here, Leaf.deserialize(doc));
                }
            }
        },
    ));
    f.push(family(
        "repetition, typed",
        "lists of lists at the limit and just over it, their elements read as each of 14 types and the lists as each of 5, 30 sizes each; and with a list ignored",
        |ch, cx| {
            let i = ch.choose(TYPED.len());
            let q = least(150, |p, q| p + q * (1 + p) - 100 * (9 + p + q)) + ch.choose(30);
            let over = ch.flag();
            let (name, x, run) = TYPED[i];
            let p = 150i64;
            let q_ = q as i64;
            let d0 = p + q_ * (1 + p) - 100 * (2 + 1 + (2 + p) + (2 + q_) + 2);
            if d0 < 0 {
                return;
            }
            let r = ((d0 + 98) / 99 - over as i64).max(0);
            let list = |n: usize, a: &str| vec![a; n].join(", ");
            let text = format!("[&s {x}, &a [{}], [{}], [{}]]", list(p as usize, "*s"), list(q, "*a"), list(r as usize, "*s"));
            cx.state(&(name, &text));
            let want = if d0 - 99 * r > 0 { Want::Many } else { Want::Read };
            run(cx, name, &text, want);
        },
    ));
    f.push(family(
        "keys",
        "the same count with the aliases as values, as keys of separate mappings, in keys, behind tags, 40 sizes each",
        |ch, cx| {
            let over = ch.flag();
            let place = ch.choose(4);
            // one alias per entry of &a; how many events an entry takes besides
            let (open, close, extra) = [("{k: ", "}", 3), ("{? ", " : v}", 3), ("{? [", "] : v}", 5), ("!t [", "]", 2)][place];
            let p = 160i64;
            let q = least(p, |p, q| p + q * (1 + p) - 100 * (9 + p * (1 + extra) + q)) + ch.choose(40);
            let q_ = q as i64;
            let d0 = p + q_ * (1 + p) - 100 * (2 + 1 + (2 + p * (1 + extra)) + (2 + q_) + 2);
            if d0 < 0 {
                return;
            }
            let r = ((d0 + 98) / 99 - over as i64).max(0);
            let list = |n: usize, a: &str| vec![a; n].join(", ");
            let text = format!(
                "[&s x, &a [{}], [{}], [{}]]",
                list(p as usize, &format!("{open}*s{close}")),
                list(q, "*a"),
                list(r as usize, "*s")
            );
            cx.state(&text);
            cx.case.clone_from(&text);
            let d = d0 - 99 * r;
            if d == 0 || d == 1 {
                cx.outcome("exactly at the limit or one over");
            }
            let want = if d > 0 { Want::Many } else { Want::Read };
            conform(cx, &text, "anything", want, Leaf.deserialize(serde_yaml::Deserializer::from_str(&text)));
        },
    ));
    let docs = tier.pick(3, 4);
    f.push(family(
        "streams",
        format!("every stream of up to {docs} documents out of 6 (at a limit, over it, large without aliases, small), each read as a Value or ignored"),
        move |ch, cx| {
            let list = |n: usize, a: &str| vec![a; n].join(", ");
            // p = 150, q = 306: d0 = 150 + 306*151 - 100*(467) = -344 for r = 0; 307: -293 ...
            let body = |q: usize| format!("[&s x, &a [{}], [{}], []]", list(150, "*s"), list(q, "*a"));
            let at = (0..).take_while(|q| 150 + q * 151 <= 100 * (2 + 1 + 152 + 2 + q + 2)).last().unwrap() as usize;
            let kinds: [(String, Want); 6] = [
                (body(at), Want::Read),
                (body(at + 1), Want::Many),
                (spine(&cycle(&[Seq], 128), "x"), Want::Read),
                (spine(&cycle(&[Seq], 129), "x"), Want::Deep),
                (format!("[{}]", list(3000, "x")), Want::Read),
                ("x".into(), Want::Read),
            ];
            let n = ch.range(1, docs);
            let mut text = String::new();
            let mut wants = vec![];
            for _ in 0..n {
                let k = ch.pick(&kinds);
                let ignore = ch.flag();
                text.push_str(&format!("---\n{}\n", k.0));
                wants.push((k.1, ignore));
            }
            cx.state(&text);
            cx.case = clip(&text, 200);
            let mut seen = 0;
            for doc in serde_yaml::Deserializer::from_str(&text) {
                let Some(&(want, ignore)) = wants.get(seen) else { break };
                if ignore {
                    conform(cx, &text, "ignored document", Want::Read, IgnoredAny::deserialize(doc));
                } else {
                    conform(cx, &text, "document", want, Value::deserialize(doc));
                }
                seen += 1;
            }
            if seen != n {
                cx.fail(clip(&text, 300), format!("{seen} documents of {n}"));
            }
        },
    ));
    f.push(family(
        "explosions",
        "nested lists of w aliases, l deep, w and l in 2..=9, as sequences, mappings or keys: 35 target types; read exactly when the expansions are within the limit",
        |ch, cx| {
            let w = ch.range(2, 9);
            let l = ch.range(2, 9);
            let kind = ch.choose(3);
            let mut parts = vec!["&a0 [x]".to_string()];
            let mut events = 2 + 3usize;
            let mut cost: Vec<u128> = vec![0];
            let mut total: u128 = 0;
            for i in 1..=l {
                let al: Vec<String> = (0..w)
                    .map(|j| match kind {
                        0 => format!("*a{}", i - 1),
                        1 => format!("k{j}: *a{}", i - 1),
                        _ => format!("{{? *a{} : {j}}}", i - 1),
                    })
                    .collect();
                let (o, c) = if kind == 1 { ("{", "}") } else { ("[", "]") };
                parts.push(format!("&a{i} {o}{}{c}", al.join(", ")));
                events += 2 + w * [1, 2, 4][kind];
                cost.push(w as u128 * (1 + cost[i - 1]));
                total += cost[i];
            }
            let text = format!("[{}]", parts.join(", "));
            let want = if total > 100 * events as u128 { Want::Many } else { Want::Read };
            cx.state(&text);
            cx.case.clone_from(&text);
            conform(cx, &text, "Value", want, serde_yaml::from_str::<Value>(&text));
            conform(cx, &text, "anything", want, Leaf.deserialize(serde_yaml::Deserializer::from_str(&text)));
            conform(cx, &text, "Vec<Value>", want, serde_yaml::from_str::<Vec<Value>>(&text));
            conform(cx, &text, "Vec<IgnoredAny>", Want::Read, serde_yaml::from_str::<Vec<IgnoredAny>>(&text));
            // the others must merely come to an end
            for t in types::all() {
                (t.str)(&text);
                cx.step(1);
            }
        },
    ));
    f
}

/// The first q putting the expansions over what the events allow.
fn least(p: i64, over: impl Fn(i64, i64) -> i64) -> usize {
    (1..).find(|q| over(p, *q) >= 0).unwrap() as usize
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct NewI(i64);
#[derive(Deserialize)]
#[allow(dead_code)]
enum En {
    U,
    N(i64),
    T(i64, i64),
    S { a: i64 },
}
#[derive(Deserialize)]
struct UnitX;

type Run = fn(&mut Cx, &str, &str, Want);
fn typed<'de, T: Deserialize<'de>>(cx: &mut Cx, name: &str, text: &'de str, want: Want) {
    #[derive(Deserialize)]
    #[serde(transparent)]
    struct Wrap<T>(Vec<T>);
    #[derive(Deserialize)]
    #[allow(dead_code)]
    struct New<T>(Vec<T>);
    cx.case = format!("{name} {text}");
    conform(cx, text, &format!("{name}, Vec"), want, serde_yaml::from_str::<(T, Vec<T>, Vec<Vec<T>>, Vec<T>)>(text));
    conform(cx, text, &format!("{name}, Option<Vec>"), want, serde_yaml::from_str::<(T, Option<Vec<Option<T>>>, Vec<Option<Vec<Option<T>>>>, Vec<T>)>(text));
    conform(cx, text, &format!("{name}, New"), want, serde_yaml::from_str::<(T, New<T>, New<New<T>>, Wrap<T>)>(text));
    conform(cx, text, &format!("{name}, the list ignored"), Want::Read, serde_yaml::from_str::<(T, Vec<T>, IgnoredAny, Vec<T>)>(text));
    conform(cx, text, &format!("{name}, everything ignored"), Want::Read, serde_yaml::from_str::<Vec<IgnoredAny>>(text));
}
fn run<T: for<'de> Deserialize<'de>>(cx: &mut Cx, name: &str, text: &str, want: Want) {
    typed::<T>(cx, name, text, want)
}
const TYPED: [(&str, &str, Run); 14] = [
    ("i64", "1", run::<i64>),
    ("u64", "1", run::<u64>),
    ("u128", "1", run::<u128>),
    ("i128", "1", run::<i128>),
    ("f64", "1", run::<f64>),
    ("bool", "true", run::<bool>),
    ("String", "x", run::<String>),
    ("char", "x", run::<char>),
    ("()", "~", run::<()>),
    ("UnitX", "~", run::<UnitX>),
    ("NewI", "1", run::<NewI>),
    ("En unit", "U", run::<En>),
    ("En newtype", "!N 1", run::<En>),
    ("Option", "null", run::<Option<i64>>),
];
