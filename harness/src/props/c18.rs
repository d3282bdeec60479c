//! C18: indexing a Value reads and writes exactly the addressed place.

use crate::big;
use crate::explore::*;
use crate::tree::*;
use serde_yaml::value::Index;
use serde_yaml::Value;

/// An index, in every form the library accepts it.
#[derive(Clone, Debug, Hash)]
enum Ix {
    N(usize),
    S(String),
    V(T),
}

impl Ix {
    fn key(&self) -> T {
        match self {
            Ix::N(n) => T::Int(*n as i128),
            Ix::S(s) => st(s),
            Ix::V(t) => t.clone(),
        }
    }
    fn forms(&self) -> usize {
        match self {
            Ix::N(_) => 3,
            Ix::S(_) => 5,
            Ix::V(_) => 3,
        }
    }
    fn with<R>(&self, form: usize, mut f: impl FnMut(&dyn Use) -> R) -> R {
        match self {
            Ix::N(n) => match form {
                0 => f(&By(*n)),
                1 => f(&By(n)),
                _ => f(&By(&n)),
            },
            Ix::S(s) => match form {
                0 => f(&By(s.as_str())),
                1 => f(&By(&s.as_str())),
                2 => f(&By(s.clone())),
                3 => f(&By(s)),
                _ => f(&By(&s)),
            },
            Ix::V(t) => {
                let v = t.to_value();
                match form {
                    0 => f(&By(&v)),
                    1 => f(&By(&&v)),
                    _ => f(&By(v.clone())),
                }
            }
        }
    }
}

/// One library index, usable repeatedly.
trait Use {
    fn get<'v>(&self, v: &'v Value) -> Option<&'v Value>;
    fn get_mut<'v>(&self, v: &'v mut Value) -> Option<&'v mut Value>;
    fn at<'v>(&self, v: &'v Value) -> &'v Value;
    fn at_mut<'v>(&self, v: &'v mut Value) -> &'v mut Value;
}
struct By<I>(I);
impl<I: Index + Clone> Use for By<I> {
    fn get<'v>(&self, v: &'v Value) -> Option<&'v Value> {
        v.get(self.0.clone())
    }
    fn get_mut<'v>(&self, v: &'v mut Value) -> Option<&'v mut Value> {
        v.get_mut(self.0.clone())
    }
    fn at<'v>(&self, v: &'v Value) -> &'v Value {
        &v[self.0.clone()]
    }
    fn at_mut<'v>(&self, v: &'v mut Value) -> &'v mut Value {
        &mut v[self.0.clone()]
    }
}

/// Where an index leads in the model: the position of the child under all tags.
fn child(t: &T, i: &Ix) -> Option<usize> {
    match (t, i) {
        (T::Tag(_, v), _) => child(v, i),
        (T::Seq(v), Ix::N(n)) => (*n < v.len()).then_some(*n),
        (T::Map(v), _) => v.iter().position(|(k, _)| k.equal(&i.key())),
        _ => None,
    }
}
fn model_at(t: &T, pos: usize) -> &T {
    match t {
        T::Tag(_, v) => model_at(v, pos),
        T::Seq(v) => &v[pos],
        T::Map(v) => &v[pos].1,
        _ => unreachable!(),
    }
}
/// The same place of the real value, reached without the index machinery.
fn real_at(v: &Value, pos: usize) -> &Value {
    match v {
        Value::Tagged(t) => real_at(&t.value, pos),
        Value::Sequence(v) => &v[pos],
        Value::Mapping(m) => m.iter().nth(pos).expect("as long as the model").1,
        _ => unreachable!(),
    }
}
/// `t[i]` on the left of an assignment; Err where it must panic.
fn model_slot<'a>(t: &'a mut T, i: &Ix) -> Result<&'a mut T, ()> {
    match t {
        T::Tag(_, v) => model_slot(v, i),
        T::Seq(v) => match i {
            Ix::N(n) => v.get_mut(*n).ok_or(()),
            _ => Err(()),
        },
        T::Map(v) => {
            let key = i.key();
            let at = match v.iter().position(|(k, _)| k.equal(&key)) {
                Some(p) => p,
                None => {
                    v.push((key, T::Null));
                    v.len() - 1
                }
            };
            Ok(&mut v[at].1)
        }
        T::Null => match i {
            Ix::N(_) => Err(()),
            _ => {
                *t = T::Map(vec![(i.key(), T::Null)]);
                match t {
                    T::Map(v) => Ok(&mut v[0].1),
                    _ => unreachable!(),
                }
            }
        },
        _ => Err(()),
    }
}
/// Assign along a path; whether it went through.
fn model_assign(t: &mut T, path: &[Ix], to: &T) -> bool {
    let mut t = t;
    for i in path {
        match model_slot(t, i) {
            Ok(u) => t = u,
            Err(()) => return false,
        }
    }
    *t = to.clone();
    true
}

fn show(path: &[Ix]) -> String {
    path.iter()
        .map(|i| match i {
            Ix::N(n) => format!("[{n}]"),
            Ix::S(s) => format!("[{s:?}]"),
            Ix::V(t) => format!("[Value {t:?}]"),
        })
        .collect()
}

/// Read along a path in every form of its last index.
fn read(cx: &mut Cx, t: &T, real: &mut Value, path: &[Ix], forms: &[usize]) -> Result<(), String> {
    let mut m = Some(t);
    let mut r = Some(&*real);
    let mut chained = Some(&*real);
    let mut square = &*real;
    for (i, form) in path.iter().zip(forms) {
        let pos = m.and_then(|m| child(m, i));
        m = pos.map(|p| model_at(m.unwrap(), p));
        r = pos.map(|p| real_at(r.unwrap(), p));
        chained = chained.and_then(|v| i.with(*form, |u| u.get(v).map(|w| w as *const Value)).map(|p| unsafe { &*p }));
        square = unsafe { &*i.with(*form, |u| u.at(square) as *const Value) };
        cx.step(2);
    }
    let want = r.map(|v| v as *const Value);
    if chained.map(|v| v as *const Value) != want {
        return Err(format!("get reaches {chained:?} instead of {:?}", m));
    }
    match r {
        Some(v) => {
            if !std::ptr::eq(v, square) {
                return Err(format!("[] reaches {square:?} instead of {:?}", m));
            }
        }
        None => {
            if !matches!(square, Value::Null) {
                return Err(format!("[] reaches {square:?} where there is nothing"));
            }
        }
    }
    if let Some(m) = m {
        if !T::of(square).same(m) {
            return Err(format!("reads {square:?} instead of {m:?}"));
        }
    }
    // the mutable one
    let mut place = Some(real as *mut Value);
    for (i, form) in path.iter().zip(forms) {
        place = place.and_then(|v| i.with(*form, |u| u.get_mut(unsafe { &mut *v }).map(|w| w as *mut Value)));
        cx.step(1);
    }
    if place.map(|p| p as *const Value) != want {
        return Err("get_mut reaches another place than get".to_string());
    }
    if !T::of(real).same(t) {
        return Err(format!("reading left {real:?}"));
    }
    Ok(())
}

/// Assign along a path.
fn write(cx: &mut Cx, model: &mut T, real: &mut Value, path: &[Ix], forms: &[usize], to: &T) -> Result<bool, String> {
    let before = model.clone();
    let done = model_assign(model, path, to);
    let got = guarded(|| {
        let mut v = &mut *real;
        for (i, form) in path.iter().zip(forms) {
            v = unsafe { &mut *i.with(*form, |u| u.at_mut(v) as *mut Value) };
        }
        *v = to.to_value();
    });
    cx.step(path.len());
    cx.outcome(if done { "assigned" } else { "panicked" });
    let after = T::of(real);
    if got.is_ok() != done {
        return Err(format!("assigning {} in {before:?}: {got:?}, the model says {}", show(path), if done { "possible" } else { "impossible" }));
    }
    if let Err(m) = &got {
        if !m.contains("cannot access") {
            return Err(format!("assigning {} in {before:?}: {m}", show(path)));
        }
    }
    if !after.same(model) {
        return Err(format!("assigning {} in {before:?} leaves {after:?}, not {model:?}", show(path)));
    }
    Ok(done)
}

fn indices() -> Vec<Ix> {
    vec![
        Ix::N(0),
        Ix::N(1),
        Ix::S("a".into()),
        Ix::S("b".into()),
        Ix::V(st("a")),
        Ix::V(T::Int(1)),
        Ix::V(T::Null),
        Ix::V(T::Seq(vec![])),
    ]
}

fn alphabet() -> Vec<T> {
    vec![
        st("a"),
        st("1"),
        T::Int(1),
        T::Int(0),
        T::Float(1.0),
        T::Null,
        st("null"),
        tagged("t", st("a")),
        tagged("t", T::Int(1)),
        T::Map(vec![(st("x"), T::Int(1)), (st("y"), T::Int(2))]),
        T::Map(vec![(st("y"), T::Int(2)), (st("x"), T::Int(1))]),
        T::Seq(vec![st("a")]),
        T::Float(0.0),
        T::Float(-0.0),
        T::Float(f64::NAN),
        T::Bool(true),
        st("true"),
        st(""),
        T::Int(-1),
        T::Int(u64::MAX as i128),
        T::Int(i64::MAX as i128 + 1),
        st("é"),
    ]
}

fn unique(t: &T) -> bool {
    !t.has_dup_keys()
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let lim = tier.pick(5, 6);
    f.push(family(
        "paths",
        format!("every value of at most {lim} nodes over 4 leaves and a tag (stacked too), every path of up to 2 of 8 indices: read, and assigned to"),
        move |ch, cx| {
            let mut g = Gen::new(vec![T::Null, T::Int(1), st("a"), T::Bool(true)], &["t"]);
            g.nested_tags = true;
            let t = g.tree(ch, lim);
            if !unique(&t) {
                return;
            }
            let ixs = indices();
            let mut real = t.to_value();
            cx.state(&t);
            let mut paths = vec![vec![]];
            for i in &ixs {
                paths.push(vec![i.clone()]);
                for j in &ixs {
                    paths.push(vec![i.clone(), j.clone()]);
                }
            }
            for (n, path) in paths.iter().enumerate() {
                let forms: Vec<usize> = path.iter().enumerate().map(|(k, i)| (n / (k + 1) + k) % i.forms()).collect();
                cx.case = format!("{t:?} {}", show(path));
                if let Err(e) = read(cx, &t, &mut real, path, &forms) {
                    cx.fail(format!("{t:?} {}", show(path)), format!("{} of {t:?}: {e}", show(path)));
                    return;
                }
                let mut model = t.clone();
                let mut copy = real.clone();
                if let Err(e) = write(cx, &mut model, &mut copy, path, &forms, &st("new")) {
                    cx.fail(format!("{t:?} {}", show(path)), e);
                    return;
                }
                cx.trace();
            }
            cx.sample(|| format!("{t:?}: {} paths", paths.len()));
        },
    ));
    f.push(family(
        "keys",
        "every mapping of up to 3 of 22 keys (equal ones in unequal clothes included), bare and tagged, and every sequence of up to 3, indexed by each of 22 keys and 8 integers in every form",
        |ch, cx| {
            let keys = alphabet();
            let n = ch.range(0, 3);
            let wrap = ch.choose(3);
            let mut v: Vec<(T, T)> = vec![];
            for i in 0..n {
                let k = ch.pick(&keys).clone();
                v.push((k, T::Int(10 + i as i128)));
            }
            let as_map = T::Map(v.clone());
            let as_seq = T::Seq(v.into_iter().map(|e| e.0).collect());
            for t in [as_map, as_seq] {
                if !unique(&t) {
                    continue;
                }
                let t = match wrap {
                    0 => t,
                    1 => tagged("t", t),
                    _ => tagged("t", tagged("u", t)),
                };
                cx.state(&t);
                let mut real = t.to_value();
                let mut ixs: Vec<Ix> = keys.iter().cloned().map(Ix::V).collect();
                ixs.extend(keys.iter().filter_map(|k| match k {
                    T::Str(s) => Some(Ix::S(s.clone())),
                    _ => None,
                }));
                ixs.extend([0, 1, 2, 3, i64::MAX as usize, i64::MAX as usize + 1, usize::MAX - 1, usize::MAX].map(Ix::N));
                for i in &ixs {
                    for form in 0..i.forms() {
                        let path = [i.clone()];
                        cx.case = format!("{t:?} {}", show(&path));
                        let r = read(cx, &t, &mut real, &path, &[form]).and_then(|()| {
                            let mut model = t.clone();
                            write(cx, &mut model, &mut real.clone(), &path, &[form], &T::Bool(false)).map(|_| ())
                        });
                        if let Err(e) = r {
                            cx.fail(format!("{t:?} {}", show(&path)), format!("{} of {t:?}: {e}", show(&path)));
                            return;
                        }
                        cx.trace();
                    }
                }
            }
        },
    ));
    let depth = tier.pick(4, 5);
    f.push(family(
        "histories",
        format!("every history of {depth} assignments out of 24 (8 paths of up to 3 indices, 3 values) to a value starting as null, a sequence, a mapping or tagged; all reads after each step"),
        move |ch, cx| {
            let start = match ch.choose(4) {
                0 => T::Null,
                1 => T::Seq(vec![T::Null, T::Map(vec![(T::Int(0), T::Null)])]),
                2 => T::Map(vec![(st("b"), T::Null), (T::Int(0), tagged("t", T::Seq(vec![T::Null])))]),
                _ => tagged("t", T::Null),
            };
            let s = |s: &str| Ix::S(s.into());
            let paths: Vec<Vec<Ix>> = vec![
                vec![s("a")],
                vec![s("b"), s("a")],
                vec![Ix::N(0)],
                vec![Ix::N(1), Ix::N(0)],
                vec![Ix::V(T::Int(0)), s("b")],
                vec![s("a"), Ix::N(0)],
                vec![s("b"), s("a"), s("c")],
                vec![Ix::V(st("b"))],
            ];
            let values = [T::Int(7), T::Seq(vec![T::Null]), tagged("t", T::Map(vec![(st("b"), T::Int(1))]))];
            let mut model = start.clone();
            let mut real = start.to_value();
            let mut log = format!("{start:?}");
            for _ in 0..depth {
                let path = ch.pick(&paths).clone();
                let to = ch.pick(&values);
                log.push_str(&format!("; {} = {to:?}", show(&path)));
                cx.case.clone_from(&log);
                let forms: Vec<usize> = path.iter().map(|i| log.len() % i.forms()).collect();
                if let Err(e) = write(cx, &mut model, &mut real, &path, &forms, to) {
                    cx.fail(log.clone(), format!("{log}: {e}"));
                    return;
                }
            }
            cx.state(&model);
            for path in &paths {
                let forms: Vec<usize> = path.iter().map(|_| 0).collect();
                if let Err(e) = read(cx, &model, &mut real, path, &forms) {
                    cx.fail(log.clone(), format!("{log}: {} {e}", show(path)));
                    return;
                }
            }
            cx.trace();
        },
    ));
    f.push(family(
        "documents",
        "paths of up to 5 indices through a document with tags, aliases and mapping keys: every one of 9^0..9^5",
        |ch, cx| {
            let text = "- &x {a: !t [1, {b: [2, 3]}], 1: {? [0] : !u v}}\n- *x\n- !t\n  a: [[[[5]]]]\n  b: ~\n";
            let x = T::Map(vec![
                (st("a"), tagged("t", T::Seq(vec![T::Int(1), T::Map(vec![(st("b"), T::Seq(vec![T::Int(2), T::Int(3)]))])]))),
                (T::Int(1), T::Map(vec![(T::Seq(vec![T::Int(0)]), tagged("u", st("v")))])),
            ]);
            let nest = T::Seq(vec![T::Seq(vec![T::Seq(vec![T::Seq(vec![T::Int(5)])])])]);
            let t = T::Seq(vec![x.clone(), x, tagged("t", T::Map(vec![(st("a"), nest), (st("b"), T::Null)]))]);
            let ixs = [
                Ix::N(0),
                Ix::N(1),
                Ix::N(2),
                Ix::S("a".into()),
                Ix::S("b".into()),
                Ix::V(T::Int(1)),
                Ix::V(st("a")),
                Ix::V(T::Seq(vec![T::Int(0)])),
                Ix::N(3),
            ];
            let path: Vec<Ix> = (0..ch.range(0, 5)).map(|_| ch.pick(&ixs).clone()).collect();
            let forms: Vec<usize> = path.iter().map(|i| path.len() % i.forms()).collect();
            cx.state(&path);
            cx.case = show(&path);
            let mut real: Value = serde_yaml::from_str(text).expect("the document");
            let mut model = t.clone();
            let r = read(cx, &t, &mut real, &path, &forms).and_then(|()| write(cx, &mut model, &mut real, &path, &forms, &T::Int(9)));
            match r {
                Ok(_) => cx.trace(),
                Err(e) => cx.fail(show(&path), format!("{}: {e}", show(&path))),
            }
        },
    ));
    let n = big::few_sizes(tier);
    f.push(family(
        "many",
        format!("12 kinds of wide value at {} sizes up to {}: the first, middle, last and next place, read, and assigned to", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let kind = ch.choose(big::PLAIN);
            let n = *ch.pick(&n);
            let mut t = big::tree(kind, n);
            if ch.flag() {
                t = tagged("t", t);
            }
            let i = [0, n / 2, n.wrapping_sub(1), n][ch.choose(4)];
            let bare = if let T::Tag(_, v) = &t { v } else { &t };
            let ix = match bare {
                T::Map(v) if i < v.len() => Ix::V(v[i].0.clone()),
                T::Map(_) => Ix::S(format!("new{i}")),
                _ => Ix::N(i),
            };
            let mut path = vec![ix];
            if ch.flag() {
                path.push(ch.pick(&[Ix::N(0), Ix::S("k".into()), Ix::S("x".into())]).clone());
            }
            let forms: Vec<usize> = path.iter().map(|i| n % i.forms()).collect();
            cx.state(&(kind, n, show(&path)));
            cx.case = format!("kind {kind} size {n} {}", show(&path));
            let mut real = t.to_value();
            let mut model = t.clone();
            let r = read(cx, &t, &mut real, &path, &forms)
                .and_then(|()| write(cx, &mut model, &mut real, &path, &forms, &st("new")))
                .and_then(|_| read(cx, &model, &mut real, &path, &forms));
            match r {
                Ok(()) => cx.trace(),
                Err(e) => cx.fail(format!("{kind} {n} {}", show(&path)), clip(&e, 2000)),
            }
        },
    ));
    f.push(family(
        "deep",
        "towers of every pair of 8 kinds of level, each number of levels from 1 to 140: the path to the leaf, read and assigned to; half of the path; and one step off it",
        |ch, cx| {
            let w = big::word(ch);
            let d = ch.range(1, 140);
            let t = big::content(&big::tower(&w, d, crate::text::N::of(&st("leaf"))));
            let mut path = vec![];
            let mut at = &t;
            loop {
                at = match at {
                    T::Tag(_, v) => v,
                    T::Seq(v) => {
                        let i = [0, 1][usize::from(v.len() > 1)];
                        path.push(Ix::N(i));
                        &v[i]
                    }
                    T::Map(v) => {
                        let i = v.iter().position(|(k, _)| matches!(k, T::Str(s) if s == "k")).unwrap_or(0);
                        path.push(match &v[i].0 {
                            T::Str(s) => Ix::S(s.clone()),
                            k => Ix::V(k.clone()),
                        });
                        &v[i].1
                    }
                    _ => break,
                };
            }
            match ch.choose(4) {
                0 => {}
                1 => path.truncate(path.len() / 2),
                2 => *path.last_mut().unwrap() = Ix::N(7),
                _ => path.push(Ix::S("below".into())),
            }
            let forms: Vec<usize> = path.iter().enumerate().map(|(k, i)| (d + k) % i.forms()).collect();
            cx.state(&(&t, show(&path)));
            cx.case = format!("{w:?} {d} {}", show(&path));
            let mut real = t.to_value();
            let mut model = t.clone();
            let r = read(cx, &t, &mut real, &path, &forms)
                .and_then(|()| write(cx, &mut model, &mut real, &path, &forms, &st("new")))
                .and_then(|_| read(cx, &model, &mut real, &path, &forms));
            match r {
                Ok(()) => cx.trace(),
                Err(e) => cx.fail(format!("{w:?} {d} {}", show(&path)), clip(&e, 2000)),
            }
        },
    ));
    f
}
