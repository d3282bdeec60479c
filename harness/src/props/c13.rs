//! C13: Mapping against an insertion-ordered association list.

use crate::explore::*;
use crate::tree::*;
use serde_yaml::mapping::Entry;
use serde_yaml::{Mapping, Value};

type Model = Vec<(T, T)>;

fn find(m: &Model, k: &T) -> Option<usize> {
    m.iter().position(|(l, _)| l.equal(k))
}
fn m_insert(m: &mut Model, k: &T, v: &T) -> Option<T> {
    match find(m, k) {
        Some(i) => Some(std::mem::replace(&mut m[i].1, v.clone())),
        None => {
            m.push((k.clone(), v.clone()));
            None
        }
    }
}
fn m_remove(m: &mut Model, k: &T, shift: bool) -> Option<(T, T)> {
    let i = find(m, k)?;
    Some(if shift { m.remove(i) } else { m.swap_remove(i) })
}

/// Keys that are equal in unequal clothes, and keys that only look equal.
fn key_alphabet() -> Vec<T> {
    vec![
        st("a"),
        st("1"),
        T::Int(1),
        T::Float(1.0),
        T::Null,
        st("null"),
        tagged("t", st("a")),
        tagged("u", st("a")),
        T::Map(vec![(st("x"), T::Int(1)), (st("y"), T::Int(2))]),
        T::Map(vec![(st("y"), T::Int(2)), (st("x"), T::Int(1))]),
        T::Seq(vec![st("a")]),
        T::Float(0.0),
        T::Float(-0.0),
        T::Float(f64::NAN),
        T::Bool(true),
        st("true"),
        st(""),
        T::Map(vec![(st("x"), T::Int(1))]),
        T::Int(-1),
        T::Int(u64::MAX as i128),
    ]
}

fn opt(v: Option<&Value>) -> Option<T> {
    v.map(T::of)
}
fn same_opt(a: &Option<T>, b: &Option<T>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same(b),
        _ => false,
    }
}

/// Everything observable, without changing it.
fn observe(real: &mut Mapping, model: &Model, keys: &[T]) -> Result<(), String> {
    let want = T::Map(model.clone());
    macro_rules! ck {
        ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
    }
    let n = model.len();
    ck!(real.len() == n && real.is_empty() == (n == 0), "len {}", real.len());
    ck!(real.capacity() >= n, "capacity {}", real.capacity());
    // every iterator, its length hints at every point
    macro_rules! walk {
        ($name:expr, $it:expr, $conv:expr) => {{
            let mut it = $it;
            let mut got = vec![];
            loop {
                let left = n.wrapping_sub(got.len());
                ck!(it.len() == left && it.size_hint() == (left, Some(left)), "{}: length after {}", $name, got.len());
                match it.next() {
                    Some(e) if got.len() < n => got.push($conv(e)),
                    Some(_) => return Err(format!("{}: too many", $name)),
                    None => break,
                }
            }
            ck!(it.next().is_none(), "{}: revived", $name);
            got
        }};
    }
    let pairs = walk!("iter", real.iter(), |(k, v)| (T::of(k), T::of(v)));
    ck!(T::Map(pairs.clone()).same(&want), "iter gives {pairs:?}");
    let p = walk!("for &", (&*real).into_iter(), |(k, v)| (T::of(k), T::of(v)));
    ck!(T::Map(p).same(&want), "into_iter of a reference");
    let p = walk!("iter_mut", real.iter_mut(), |(k, v): (&Value, &mut Value)| (T::of(k), T::of(v)));
    ck!(T::Map(p).same(&want), "iter_mut");
    let p = walk!("for &mut", (&mut *real).into_iter(), |(k, v): (&Value, &mut Value)| (T::of(k), T::of(v)));
    ck!(T::Map(p).same(&want), "into_iter of a mutable reference");
    let ks = T::Seq(model.iter().map(|e| e.0.clone()).collect());
    let vs = T::Seq(model.iter().map(|e| e.1.clone()).collect());
    ck!(T::Seq(walk!("keys", real.keys(), T::of)).same(&ks), "keys");
    ck!(T::Seq(walk!("values", real.values(), T::of)).same(&vs), "values");
    ck!(T::Seq(walk!("values_mut", real.values_mut(), |v: &mut Value| T::of(v))).same(&vs), "values_mut");
    ck!(T::Map(walk!("into_iter", real.clone().into_iter(), |(k, v)| (T::of(&k), T::of(&v)))).same(&want), "into_iter");
    ck!(T::Seq(walk!("into_keys", real.clone().into_keys(), |v| T::of(&v))).same(&ks), "into_keys");
    ck!(T::Seq(walk!("into_values", real.clone().into_values(), |v| T::of(&v))).same(&vs), "into_values");
    for k in keys {
        let at = find(model, k);
        let w = at.map(|i| model[i].1.clone());
        let kv = k.to_value();
        ck!(real.contains_key(&kv) == at.is_some(), "contains_key {k:?}");
        ck!(same_opt(&opt(real.get(&kv)), &w), "get {k:?}: {:?}", opt(real.get(&kv)));
        ck!(same_opt(&opt(real.get(kv.clone())), &w), "get by value {k:?}");
        ck!(same_opt(&real.get_mut(&kv).map(|v| T::of(v)), &w), "get_mut {k:?}");
        let i = guarded(|| T::of(&real[&kv])).ok();
        ck!(same_opt(&i, &w), "index {k:?}: {i:?}");
        if let T::Str(s) = k {
            let refs = &s.as_str();
            ck!(real.contains_key(s.as_str()) == at.is_some(), "contains_key str {s:?}");
            ck!(real.contains_key(s) == at.is_some() && real.contains_key(s.clone()) == at.is_some(), "contains_key String {s:?}");
            ck!(real.contains_key(refs) == at.is_some(), "contains_key &&str {s:?}");
            ck!(same_opt(&opt(real.get(s.as_str())), &w), "get str {s:?}: {:?}", opt(real.get(s.as_str())));
            ck!(same_opt(&opt(real.get(s)), &w), "get String {s:?}");
            ck!(same_opt(&opt(real.get(s.clone())), &w), "get owned String {s:?}");
            ck!(same_opt(&real.get_mut(s.as_str()).map(|v| T::of(v)), &w), "get_mut str {s:?}");
            ck!(same_opt(&real.get_mut(s).map(|v| T::of(v)), &w), "get_mut String {s:?}");
            let i = guarded(|| T::of(&real[s.as_str()])).ok();
            ck!(same_opt(&i, &w), "index str {s:?}: {i:?}");
        }
    }
    // contents in any order make an equal mapping
    let back: Mapping = model.iter().rev().map(|(k, v)| (k.to_value(), v.to_value())).collect();
    ck!(&back == real && *real == back, "differs from the same entries in reverse");
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum By {
    Value,
    ValueRef,
    Str,
    StringRef,
    StringOwned,
}

/// One operation on both; its result compared. None: not applicable.
fn apply(op: usize, k: &T, v: &T, by: By, real: &mut Mapping, model: &mut Model) -> Option<Result<(), String>> {
    let kv = k.to_value();
    let vv = v.to_value();
    let cmp = |what: &str, got: Option<T>, want: Option<T>| {
        Some(if same_opt(&got, &want) {
            Ok(())
        } else {
            Err(format!("{what} returned {got:?}, expected {want:?}"))
        })
    };
    let keyed = |p: Option<(T, T)>| p.map(|(k, v)| T::Seq(vec![k, v]));
    macro_rules! by {
        ($m:ident) => {{
            let s = match k {
                T::Str(s) => s.clone(),
                _ if by == By::Value || by == By::ValueRef => String::new(),
                _ => return None,
            };
            match by {
                By::Value => real.$m(kv),
                By::ValueRef => real.$m(&kv),
                By::Str => real.$m(s.as_str()),
                By::StringRef => real.$m(&s),
                By::StringOwned => real.$m(s),
            }
        }};
    }
    let vo = |v: Option<Value>| v.map(|v| T::of(&v));
    let po = |v: Option<(Value, Value)>| v.map(|(k, v)| T::Seq(vec![T::of(&k), T::of(&v)]));
    if op > 6 && by != By::Value {
        return None;
    }
    match op {
        0 => cmp("swap_remove", vo(by!(swap_remove)), m_remove(model, k, false).map(|e| e.1)),
        1 => cmp("swap_remove_entry", po(by!(swap_remove_entry)), keyed(m_remove(model, k, false))),
        2 => cmp("shift_remove", vo(by!(shift_remove)), m_remove(model, k, true).map(|e| e.1)),
        3 => cmp("shift_remove_entry", po(by!(shift_remove_entry)), keyed(m_remove(model, k, true))),
        4 => cmp("remove", vo(by!(remove)), m_remove(model, k, false).map(|e| e.1)),
        5 => cmp("remove_entry", po(by!(remove_entry)), keyed(m_remove(model, k, false))),
        6 => {
            // through get_mut
            let got = by!(get_mut).map(|p| {
                let old = T::of(p);
                *p = vv.clone();
                old
            });
            let want = find(model, k).map(|i| std::mem::replace(&mut model[i].1, v.clone()));
            cmp("get_mut", got, want)
        }
        7 => cmp("insert", vo(real.insert(kv, vv)), m_insert(model, k, v)),
        8 => {
            let got = T::of(real.entry(kv).or_insert(vv));
            let want = match find(model, k) {
                Some(i) => model[i].1.clone(),
                None => {
                    m_insert(model, k, v);
                    v.clone()
                }
            };
            cmp("or_insert", Some(got), Some(want))
        }
        9 => {
            let mut called = false;
            let got = T::of(real.entry(kv).or_insert_with(|| {
                called = true;
                vv
            }));
            let want = match find(model, k) {
                Some(i) => model[i].1.clone(),
                None => {
                    m_insert(model, k, v);
                    if !called {
                        return Some(Err("or_insert_with did not ask".into()));
                    }
                    v.clone()
                }
            };
            cmp("or_insert_with", Some(got), Some(want))
        }
        10 => {
            let got = T::of(real.entry(kv).and_modify(|p| *p = Value::Bool(false)).or_insert(vv));
            let want = match find(model, k) {
                Some(i) => {
                    model[i].1 = T::Bool(false);
                    T::Bool(false)
                }
                None => {
                    m_insert(model, k, v);
                    v.clone()
                }
            };
            cmp("and_modify", Some(got), Some(want))
        }
        11..=16 => {
            let at = find(model, k);
            let e = real.entry(kv.clone());
            let shown = T::of(e.key());
            let key = at.map_or(k.clone(), |i| model[i].0.clone());
            if !shown.same(&key) && !shown.same(k) {
                return Some(Err(format!("entry shows key {shown:?}")));
            }
            match (e, at) {
                (Entry::Occupied(mut o), Some(i)) => {
                    if !T::of(o.get()).same(&model[i].1) || !T::of(o.get_mut()).same(&model[i].1) || !T::of(o.key()).equal(k) {
                        return Some(Err("occupied entry shows another place".into()));
                    }
                    match op {
                        11 => cmp("occupied insert", Some(T::of(&o.insert(vv))), Some(std::mem::replace(&mut model[i].1, v.clone()))),
                        12 => cmp("occupied remove", Some(T::of(&o.remove())), m_remove(model, k, false).map(|e| e.1)),
                        13 => cmp("occupied remove_entry", po(Some(o.remove_entry())), keyed(m_remove(model, k, false))),
                        14 => {
                            *o.get_mut() = vv;
                            model[i].1 = v.clone();
                            Some(Ok(()))
                        }
                        15 => {
                            *o.into_mut() = vv;
                            model[i].1 = v.clone();
                            Some(Ok(()))
                        }
                        _ => Some(Ok(())),
                    }
                }
                (Entry::Vacant(e), None) => match op {
                    11 => {
                        if !T::of(e.key()).same(k) {
                            return Some(Err("vacant key".into()));
                        }
                        let p = e.insert(vv);
                        let seen = T::of(p);
                        *p = Value::Bool(true);
                        m_insert(model, k, &T::Bool(true));
                        cmp("vacant insert", Some(seen), Some(v.clone()))
                    }
                    12 => cmp("into_key", Some(T::of(&e.into_key())), Some(k.clone())),
                    _ => Some(Ok(())),
                },
                (Entry::Occupied(_), None) => Some(Err("entry occupied without an equal key".into())),
                (Entry::Vacant(_), Some(_)) => Some(Err("entry vacant despite an equal key".into())),
            }
        }
        17 => {
            // square brackets assign to what is there and nothing else
            let got = guarded(|| real[&kv] = vv).is_ok();
            let want = find(model, k);
            if let Some(i) = want {
                model[i].1 = v.clone();
            }
            Some(if got == want.is_some() { Ok(()) } else { Err(format!("assignment through brackets: {got}")) })
        }
        _ => None,
    }
}
const KEYED: usize = 18;

/// Operations on the whole.
fn whole(op: usize, v: &T, real: &mut Mapping, model: &mut Model) -> Result<(), String> {
    let vv = v.to_value();
    match op {
        0 => {
            real.clear();
            model.clear();
        }
        1 | 2 => {
            let mut i = 0;
            let mut seen = vec![];
            real.retain(|k, v| {
                seen.push((T::of(k), T::of(v)));
                i += 1;
                (i % 2 == 0) == (op == 1)
            });
            if !T::Map(seen).same(&T::Map(model.clone())) {
                return Err("retain visited other entries".into());
            }
            let mut i = 0;
            model.retain(|_| {
                i += 1;
                (i % 2 == 0) == (op == 1)
            });
        }
        3 => {
            real.retain(|k, v| {
                *v = Value::Bool(true);
                matches!(k, Value::String(_))
            });
            model.retain_mut(|(k, v)| {
                *v = T::Bool(true);
                matches!(k, T::Str(_))
            });
        }
        4 => {
            let extra = [(st("a"), v.clone()), (T::Null, v.clone()), (st("a"), T::Bool(false)), (st("z"), v.clone())];
            real.extend(extra.iter().map(|(k, v)| (k.to_value(), v.to_value())));
            for (k, v) in &extra {
                m_insert(model, k, v);
            }
        }
        5 => {
            for (_, p) in real.iter_mut() {
                *p = vv.clone();
            }
            model.iter_mut().for_each(|e| e.1 = v.clone());
        }
        6 => {
            for p in real.values_mut() {
                *p = vv.clone();
            }
            model.iter_mut().for_each(|e| e.1 = v.clone());
        }
        7 => real.reserve(20),
        8 => real.shrink_to_fit(),
        9 => *real = real.clone(),
        10 => {
            let old = std::mem::take(real);
            *real = old.into_iter().collect();
        }
        11 => {
            // a mapping deserialized from itself
            *real = serde_yaml::from_value(Value::Mapping(real.clone())).map_err(|e| e.to_string())?;
        }
        _ => {
            let mut fresh = Mapping::with_capacity(3);
            fresh.extend(std::mem::take(real));
            *real = fresh;
        }
    }
    Ok(())
}
const WHOLE: usize = 13;

const BYS: [By; 5] = [By::Value, By::ValueRef, By::Str, By::StringRef, By::StringOwned];

fn build(model: &Model) -> Mapping {
    let mut m = Mapping::new();
    for (k, v) in model {
        m.insert(k.to_value(), v.to_value());
    }
    m
}

/// One choice of operation applied to both.
fn any_op(ch: &mut Ch, keys: &[T], vals: &[T], real: &mut Mapping, model: &mut Model) -> Option<(String, Result<(), String>)> {
    let op = ch.choose(KEYED + WHOLE);
    if op < KEYED {
        let k = ch.pick(keys).clone();
        let uses_value = !matches!(op, 0..=5 | 12 | 13 | 16);
        let v = if uses_value { ch.pick(vals).clone() } else { T::Null };
        let by = if op <= 6 { *ch.pick(&BYS) } else { By::Value };
        let what = format!("op {op} key {k:?} value {v:?} by {by:?}");
        apply(op, &k, &v, by, real, model).map(|r| (what, r))
    } else {
        let op = op - KEYED;
        let v = if (4..=6).contains(&op) { ch.pick(vals).clone() } else { T::Null };
        Some((format!("whole {op} value {v:?}"), whole(op, &v, real, model)))
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let (nk, len) = tier.pick((11, 3), (14, 4));
    f.push(family(
        "states",
        format!("every state of at most {len} of {nk} keys in every order, built by insertion, then after every operation in every form"),
        move |ch, cx| {
            let keys = key_alphabet();
            let keys = &keys[..nk];
            let vals = [st("v"), T::Int(2)];
            let mut model: Model = vec![];
            for i in 0..ch.range(0, len) {
                let k = ch.pick(keys).clone();
                if find(&model, &k).is_some() {
                    return;
                }
                model.push((k, T::Int(10 + i as i128)));
            }
            let mut real = build(&model);
            let before = model.clone();
            if let Some((what, r)) = any_op(ch, keys, &vals, &mut real, &mut model) {
                cx.state(&(&before, &what));
                cx.case = format!("{before:?} then {what}");
                cx.step(1);
                match r.and_then(|()| observe(&mut real, &model, keys)) {
                    Ok(()) => cx.trace(),
                    Err(e) => cx.fail(format!("{before:?} {what}"), format!("from {before:?}, {what}: {e}; expected {model:?}, have {:?}", T::of_mapping(&real))),
                }
            }
        },
    ));
    let (nk, depth) = tier.pick((2, 3), (3, 3));
    f.push(family(
        "histories",
        format!("every sequence of at most {depth} operations of every form over {nk} keys and one value, from empty and from a mapping of 3, compared after each"),
        move |ch, cx| {
            let all = key_alphabet();
            let keys: Vec<T> = [st("a"), T::Int(1), T::Map(vec![])][..nk].to_vec();
            let vals = [st("v")];
            let mut model: Model = match ch.choose(2) {
                0 => vec![],
                _ => vec![(st("b"), T::Int(1)), (st("a"), T::Int(2)), (T::Null, T::Int(3))],
            };
            let mut real = build(&model);
            let mut trail = vec![format!("{model:?}")];
            for _ in 0..ch.range(1, depth) {
                let Some((what, r)) = any_op(ch, &keys, &vals, &mut real, &mut model) else { return };
                trail.push(what);
                cx.state(&T::Map(model.clone()));
                cx.step(1);
                cx.case = format!("{trail:?}");
                if let Err(e) = r.and_then(|()| observe(&mut real, &model, &all[..6])) {
                    cx.fail(format!("{trail:?}"), format!("{trail:?}: {e}; expected {model:?}, have {:?}", T::of_mapping(&real)));
                    return;
                }
            }
            cx.trace();
        },
    ));
    let depth = tier.pick(6, 7);
    f.push(family(
        "orders",
        format!("every sequence of at most {depth} insertions, swap removals and shift removals over 4 keys"),
        move |ch, cx| {
            let keys = [st("a"), T::Int(1), T::Null, T::Seq(vec![])];
            let mut model: Model = vec![];
            let mut real = Mapping::new();
            let mut trail = vec![];
            for i in 0..ch.range(1, depth) {
                let op = *ch.pick(&[7, 2, 0]);
                let k = ch.pick(&keys).clone();
                trail.push((op, k.clone()));
                cx.case = format!("{trail:?}");
                cx.step(1);
                let r = apply(op, &k, &T::Int(i as i128), By::ValueRef, &mut real, &mut model)
                    .or_else(|| apply(op, &k, &T::Int(i as i128), By::Value, &mut real, &mut model));
                if let Some(Err(e)) = r {
                    cx.fail(format!("{trail:?}"), format!("{trail:?}: {e}"));
                    return;
                }
            }
            cx.state(&T::Map(model.clone()));
            match observe(&mut real, &model, &keys) {
                Ok(()) => cx.trace(),
                Err(e) => cx.fail(format!("{trail:?}"), format!("{trail:?}: {e}; expected {model:?}, have {:?}", T::of_mapping(&real))),
            }
        },
    ));
    f.push(family(
        "lookups",
        "every pair of a stored key and a key looked up, of 20, alone and among 40 others, in every form of key",
        |ch, cx| {
            let keys = key_alphabet();
            let k = ch.pick(&keys).clone();
            let l = ch.pick(&keys).clone();
            let crowd = ch.flag();
            let mut model: Model = vec![];
            if crowd {
                for i in 0..20 {
                    model.push((st(&format!("s{i}")), T::Int(i)));
                    model.push((T::Int(100 + i), T::Int(i)));
                }
            }
            let at = if crowd { ch.choose(3) * 20 } else { 0 };
            model.insert(at, (k.clone(), st("found")));
            let mut real = build(&model);
            cx.state(&(&k, &l, crowd, at));
            cx.case = format!("{k:?} looked up as {l:?} crowd {crowd} at {at}");
            cx.step(1);
            match observe(&mut real, &model, &[l.clone(), k.clone()]) {
                Ok(()) => cx.trace(),
                Err(e) => cx.fail(cx.case.clone(), format!("{}: {e}", cx.case.clone())),
            }
        },
    ));
    let n = tier.pick(200, 1000);
    f.push(family(
        "sizes",
        format!("every size up to {n}: built by insertion, each key looked up in every form, then emptied from the front, the back or the middle by shift or swap removal"),
        move |ch, cx| {
            let size = ch.range(0, n);
            let from = ch.choose(3);
            let shift = ch.flag();
            let key = |i: usize| match i % 3 {
                0 => st(&format!("k{i}")),
                1 => T::Int(i as i128),
                _ => tagged("t", T::Int(i as i128)),
            };
            let mut model: Model = (0..size).map(|i| (key(i), T::Int(i as i128))).collect();
            let mut real = build(&model);
            cx.state(&(size, from, shift));
            cx.case = format!("size {size} from {from} shift {shift}");
            let mut r = observe(&mut real, &model, &[key(0), key(size / 2), key(size)]);
            while r.is_ok() && !model.is_empty() {
                let i = [0, model.len() - 1, model.len() / 2][from];
                let k = model[i].0.clone();
                r = apply(if shift { 2 } else { 0 }, &k, &T::Null, By::ValueRef, &mut real, &mut model).unwrap_or(Ok(()));
                cx.step(1);
                if r.is_ok() && !T::of_mapping(&real).same(&T::Map(model.clone())) {
                    r = Err(format!("after removing {k:?}: {:?}", T::of_mapping(&real)));
                }
                if size > 40 && model.len() < size - 20 && model.len() > 20 {
                    // the long middle is the same again and again
                    model.truncate(20);
                    real = build(&model);
                }
            }
            match r {
                Ok(()) => cx.trace(),
                Err(e) => cx.fail(cx.case.clone(), format!("{}: {e}", cx.case.clone())),
            }
        },
    ));
    f
}
