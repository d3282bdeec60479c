//! C21: writers, readers and memory are released exactly once. Built with AddressSanitizer, which
//! ends the process at the first touch of memory that is not alive; what is left alive is counted.

use crate::corpus;
use crate::explore::*;
use crate::props::{c06, c08};
use crate::tree::*;
use serde::de::{self, DeserializeSeed, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTupleVariant};
use serde::{Deserialize, Deserializer as _, Serialize, Serializer as _};
use serde_derive::Deserialize;
use serde_yaml::with::{singleton_map, singleton_map_recursive};
use serde_yaml::{Deserializer, Serializer, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, Read, Write};

// ---------------------------------------------------------------- memory alive

thread_local! {
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static BYTES: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if cfg!(feature = "mem") {
            BLOCKS.set(BLOCKS.get() + 1);
            BYTES.set(BYTES.get() + l.size() as isize);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if cfg!(feature = "mem") {
            BLOCKS.set(BLOCKS.get() - 1);
            BYTES.set(BYTES.get() - l.size() as isize);
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if cfg!(feature = "mem") {
            BYTES.set(BYTES.get() + n as isize - l.size() as isize);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// What stays alive of what a scenario allocates, every time it runs.
fn left<T: Copy>(f: &dyn Fn() -> T) -> (T, (isize, isize)) {
    let once = || {
        let before = (BLOCKS.get(), BYTES.get());
        let r = f();
        (r, (BLOCKS.get() - before.0, BYTES.get() - before.1))
    };
    let (r, l) = once();
    if l == (0, 0) {
        return (r, l);
    }
    // what is set up once per thread is not a leak
    once();
    once()
}

// ---------------------------------------------------------------- owned things

thread_local! {
    static MADE: Cell<u64> = const { Cell::new(0) };
    static GONE: Cell<u64> = const { Cell::new(0) };
    /// ends at the n-th step: 0 with an error, 1 with a panic
    static FUSE: Cell<(u32, u8)> = const { Cell::new((0, 0)) };
    static PLAN: Cell<Plan> = const { Cell::new(Plan { at: 0, fault: 0, chunk: 0, flush: 0 }) };
    static CALLS: Cell<u32> = const { Cell::new(0) };
    static READ: Cell<usize> = const { Cell::new(0) };
    static TEXT: Cell<&'static [u8]> = const { Cell::new(&[]) };
}

/// What the writer or reader does: its `at`-th call (from 1; 0 for none) fails in way `fault`.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Plan {
    at: u32,
    fault: u8,
    /// bytes per call, 0 for all
    chunk: usize,
    flush: u8,
}

fn made() {
    MADE.set(MADE.get() + 1);
}
fn gone() {
    GONE.set(GONE.get() + 1);
}

/// A writer or reader of some layout.
trait Kind: Write + Read + 'static {
    fn make() -> Self;
    fn intact(&self) -> bool;
}
struct Zst;
struct Plain(Box<u64>, u8);
#[repr(align(64))]
struct Wide([u64; 40], String);

macro_rules! io_kinds {
    ($($t:ident: $make:expr, $intact:expr;)*) => {$(
        impl Kind for $t {
            fn make() -> Self {
                made();
                $make
            }
            fn intact(&self) -> bool {
                let f: fn(&Self) -> bool = $intact;
                f(self)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                assert!(self.intact(), "dropped what was not there");
                gone();
            }
        }
        impl Write for $t {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                assert!(self.intact(), "written to what was not there");
                write(b)
            }
            fn flush(&mut self) -> io::Result<()> {
                assert!(self.intact(), "flushed what was not there");
                match PLAN.get().flush {
                    0 => Ok(()),
                    1 => Err(io::Error::new(io::ErrorKind::Other, "flush".to_owned())),
                    _ => panic!("flush"),
                }
            }
        }
        impl Read for $t {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                assert!(self.intact(), "read from what was not there");
                read(b)
            }
        }
    )*};
}
io_kinds! {
    Zst: Zst, |_| true;
    Plain: Plain(Box::new(7), 9), |s| *s.0 == 7 && s.1 == 9;
    Wide: Wide([3; 40], "wide".to_owned()), |s| s.0 == [3; 40] && s.1 == "wide" && s as *const Wide as usize % 64 == 0;
}

fn fault(n: u8) -> io::Result<Option<usize>> {
    match n {
        0 => Err(io::Error::new(io::ErrorKind::Other, "fault".to_owned())),
        1 => Err(io::ErrorKind::Interrupted.into()),
        2 => Ok(Some(0)),
        3 => panic!("fault"),
        _ => Ok(None),
    }
}
fn write(b: &[u8]) -> io::Result<usize> {
    let p = PLAN.get();
    CALLS.set(CALLS.get() + 1);
    if CALLS.get() == p.at {
        if let Some(n) = fault(p.fault)? {
            return Ok(n);
        }
    }
    // touches all of it
    std::hint::black_box(b.iter().map(|b| *b as usize).sum::<usize>());
    Ok(if p.chunk > 0 { b.len().min(p.chunk) } else { b.len() })
}
fn read(b: &mut [u8]) -> io::Result<usize> {
    let p = PLAN.get();
    CALLS.set(CALLS.get() + 1);
    if CALLS.get() == p.at {
        if let Some(n) = fault(p.fault)? {
            return Ok(n);
        }
    }
    let rest = &TEXT.get()[READ.get()..];
    let n = b.len().min(rest.len()).min(if p.chunk > 0 { p.chunk } else { usize::MAX });
    b[..n].copy_from_slice(&rest[..n]);
    READ.set(READ.get() + n);
    Ok(n)
}

fn start(p: Plan, text: &'static str) {
    MADE.set(0);
    GONE.set(0);
    PLAN.set(p);
    CALLS.set(0);
    READ.set(0);
    TEXT.set(text.as_bytes());
    FUSE.set((0, 0));
}

/// One step towards the end of the fuse.
fn burn() -> bool {
    let (n, how) = FUSE.get();
    if n == 0 {
        return false;
    }
    FUSE.set((n - 1, how));
    if n == 1 {
        if how == 1 {
            panic!("fuse");
        }
        return true;
    }
    false
}

// ---------------------------------------------------------------- writing

const LONG: usize = 20_000;

/// What is written; the later ones go wrong.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Doc {
    Scalar,
    Tree,
    Variant,
    Long,
    Many,
    Map1,
    Adapters,
    /// no text for it
    Bytes,
    Nested,
    BadTag,
    /// at the n-th of its nodes: an error, a panic
    Fuse(u32, u8),
    /// begins a sequence or mapping and leaves it at that
    OpenSeq,
    OpenMap,
    OpenKey,
    OpenVariant,
    OpenMap1,
    EndOnly,
}
use Doc::*;

/// A tree whose serialization ends when the fuse does.
struct Fused;
impl Serialize for Fused {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        struct Leaf(&'static str);
        impl Serialize for Leaf {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                if burn() {
                    return Err(serde::ser::Error::custom("fuse"));
                }
                s.serialize_str(self.0)
            }
        }
        struct Inner;
        impl Serialize for Inner {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut m = s.serialize_map(Some(1))?;
                m.serialize_entry(&Leaf("key"), &Leaf("a\nb"))?;
                m.end()
            }
        }
        let mut q = s.serialize_tuple_variant("E", 0, "V", 3)?;
        q.serialize_field(&Leaf("x"))?;
        q.serialize_field(&Inner)?;
        q.serialize_field(&Leaf("y"))?;
        q.end()
    }
}

fn tree() -> Value {
    serde_yaml::from_str("a: [1, !t {b: 'c'}, \"x\\ny\"]\n? [k]\n: ~\n").unwrap()
}

#[derive(serde_derive::Serialize)]
enum En {
    Unit,
    Tup(u8, Box<En>),
    St { a: Box<En> },
}
#[derive(serde_derive::Serialize)]
struct Adapted {
    #[serde(with = "singleton_map")]
    a: En,
    #[serde(with = "singleton_map_recursive")]
    b: En,
}

fn put<W: Write>(s: &mut Serializer<W>, d: Doc) -> bool {
    let r = match d {
        Scalar => "s".serialize(&mut *s),
        Tree => tree().serialize(&mut *s),
        Variant => (&mut *s).serialize_newtype_variant("E", 0, "new variant", &[1, 2]),
        Long => "y".repeat(LONG).serialize(&mut *s),
        Many => vec!["z".repeat(900); 40].serialize(&mut *s),
        Map1 => BTreeMap::from([("k".to_owned(), vec![BTreeMap::from([(1, 2)])])]).serialize(&mut *s),
        Adapters => {
            let e = || En::Tup(1, Box::new(En::St { a: Box::new(En::Unit) }));
            Adapted { a: En::St { a: Box::new(En::Unit) }, b: e() }.serialize(&mut *s)
        }
        Bytes => (&mut *s).serialize_bytes(b"b"),
        Nested => En::Tup(1, Box::new(En::Unit)).serialize(&mut *s).and_then(|()| {
            (&mut *s).serialize_newtype_variant("E", 0, "A", &En::St { a: Box::new(En::Unit) })
        }),
        BadTag => (&mut *s).serialize_newtype_variant("E", 0, "a\u{0}b", &1),
        Fuse(n, how) => {
            FUSE.set((n, how));
            let r = Fused.serialize(&mut *s);
            FUSE.set((0, 0));
            r
        }
        OpenSeq => (&mut *s).serialize_seq(None).and_then(|mut q| q.serialize_element("e")),
        OpenMap => (&mut *s).serialize_map(None).and_then(|mut q| q.serialize_entry("k", "v")),
        OpenKey => (&mut *s).serialize_map(Some(2)).and_then(|mut q| q.serialize_key("k")),
        OpenVariant => (&mut *s).serialize_tuple_variant("E", 0, "V", 1).map(|_| ()),
        OpenMap1 => (&mut *s).serialize_map(Some(1)).map(|_| ()),
        EndOnly => SerializeStruct::end(&mut *s),
    };
    r.map_err(|e| std::hint::black_box(format!("{e} {e:?}"))).is_ok()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Put(Doc),
    Flush,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Finish {
    Drop,
    IntoInner,
    /// dropped while a panic unwinds
    Unwind,
}

/// What came of it: calls that succeeded, failed, panicked; was the writer handed back.
type Came = (u8, u8, u8, Option<bool>);

fn writing<W: Kind>(plan: Plan, ops: &[Op], end: Finish) -> Result<Came, &'static str> {
    start(plan, "");
    let mut came: Came = (0, 0, 0, None);
    let w = W::make();
    let mut s = Serializer::new(w);
    for op in ops {
        match guarded(|| match op {
            Op::Put(d) => put(&mut s, *d),
            Op::Flush => s.flush().is_ok(),
        }) {
            Ok(true) => came.0 += 1,
            Ok(false) => came.1 += 1,
            Err(p) => {
                if p.contains("was not there") {
                    return Err("the writer was used after it was released");
                }
                came.2 += 1
            }
        }
        if GONE.get() != 0 {
            return Err("the writer is dropped while the serializer still owns it");
        }
    }
    match end {
        Finish::Drop => drop(s),
        Finish::Unwind => {
            let _ = guarded(move || {
                let _s = s;
                panic!("unwind")
            });
        }
        Finish::IntoInner => match guarded(move || s.into_inner().map_err(|e| std::hint::black_box(format!("{e} {e:?}")))) {
            Ok(Ok(w)) => {
                if GONE.get() != 0 {
                    return Err("the writer is dropped although it was handed back");
                }
                if !w.intact() {
                    return Err("another writer was handed back");
                }
                came.3 = Some(true);
                drop(w)
            }
            Ok(Err(_)) => came.3 = Some(false),
            Err(p) => {
                if p.contains("was not there") {
                    return Err("the writer was used after it was released");
                }
                came.2 += 1
            }
        },
    }
    match GONE.get() {
        1 => Ok(came),
        0 => Err("the writer is never dropped"),
        _ => Err("the writer is dropped more than once"),
    }
}

fn decide<T: Copy + fmt::Debug>(cx: &mut Cx, key: String, f: &dyn Fn() -> Result<T, &'static str>) -> Option<T> {
    cx.state(&key);
    cx.case.clone_from(&key);
    cx.step(1);
    let (r, (blocks, bytes)) = left(f);
    let bad = match r {
        Err(e) => e.to_owned(),
        Ok(_) if (blocks, bytes) != (0, 0) => format!("{blocks} blocks, {bytes} bytes stay allocated"),
        Ok(r) => {
            cx.trace();
            return Some(r);
        }
    };
    cx.fail(key.clone(), format!("{key}: {bad}"));
    None
}

// ---------------------------------------------------------------- reading

/// Reads anything, and ends when the fuse does.
struct Any;
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        fn step<E: de::Error>() -> Result<Any, E> {
            if burn() {
                Err(E::custom("fuse"))
            } else {
                Ok(Any)
            }
        }
        macro_rules! visit {
            ($($f:ident $t:ty),*) => {$(
                fn $f<E: de::Error>(self, _: $t) -> Result<Any, E> {
                    step()
                }
            )*};
        }
        impl<'de> Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            visit!(visit_bool bool, visit_i64 i64, visit_u64 u64, visit_f64 f64, visit_str &str);
            fn visit_unit<E: de::Error>(self) -> Result<Any, E> {
                step()
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                step::<A::Error>()?;
                while a.next_element::<Any>()?.is_some() {}
                step()
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                step::<A::Error>()?;
                while a.next_key::<Any>()?.is_some() {
                    a.next_value::<Any>()?;
                }
                step()
            }
            fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Any, A::Error> {
                step::<A::Error>()?;
                let (_, v) = a.variant::<String>()?;
                de::VariantAccess::newtype_variant::<Any>(v)
            }
        }
        d.deserialize_any(V)
    }
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Rec {
    a: Option<Vec<Rec>>,
    #[serde(default)]
    x: BTreeMap<String, Value>,
    #[serde(default, with = "singleton_map_recursive")]
    e: Option<Ev>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
enum Ev {
    Unit,
    New(String),
    Tup(u8, char),
    St { x: f32 },
}

/// What a document is read as.
#[derive(Clone, Copy, Debug, PartialEq)]
enum As {
    Value,
    Rec,
    Enums,
    Text,
    /// borrowed from the input
    Lent,
    Ignored,
    Unit,
    Any,
    /// as Any, with a fuse
    Fuse(u32, u8),
}
const ALL_AS: [As; 10] = [As::Value, As::Rec, As::Enums, As::Text, As::Lent, As::Ignored, As::Unit, As::Any, As::Fuse(2, 0), As::Fuse(3, 1)];

enum Got {
    Value(Value),
    Rec(#[allow(dead_code)] Rec),
    Enums(#[allow(dead_code)] Vec<Ev>),
    Text(String),
    Lent(Vec<&'static str>),
    Nothing,
}

fn get(d: Deserializer<'static>, a: As) -> Result<Got, serde_yaml::Error> {
    Ok(match a {
        As::Value => Got::Value(Value::deserialize(d)?),
        As::Rec => Got::Rec(Rec::deserialize(d)?),
        As::Enums => Got::Enums(Vec::deserialize(d)?),
        As::Text => Got::Text(String::deserialize(d)?),
        As::Lent => Got::Lent(Vec::deserialize(d)?),
        As::Ignored => {
            IgnoredAny::deserialize(d)?;
            Got::Nothing
        }
        As::Unit => {
            <()>::deserialize(d)?;
            Got::Nothing
        }
        As::Any => {
            Any::deserialize(d)?;
            Got::Nothing
        }
        As::Fuse(n, how) => {
            FUSE.set((n, how));
            let r = Any::deserialize(d);
            FUSE.set((0, 0));
            r?;
            Got::Nothing
        }
    })
}

/// Everything that came of reading is looked at once more.
fn look(kept: &[Result<Got, serde_yaml::Error>]) -> usize {
    kept.iter()
        .map(|g| match g {
            Ok(Got::Value(v)) => format!("{v:?}").len(),
            Ok(Got::Lent(v)) => v.iter().flat_map(|t| t.bytes()).map(|b| b as usize).sum(),
            Ok(Got::Text(t)) => t.bytes().map(|b| b as usize).sum(),
            Ok(_) => 1,
            Err(e) => format!("{e} {e:?} {:?}", e.location()).len(),
        })
        .sum()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Source {
    Str,
    Slice,
    Reader(u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    /// take the next document
    Next,
    /// read, or drop, one of those taken
    Read(usize, As),
    DropDoc(usize),
    /// drop the iterator
    DropIter,
}

fn reader<K: Kind>() -> Deserializer<'static> {
    Deserializer::from_reader(K::make())
}

/// Counts of documents taken, read well, refused, panicked.
fn reading(plan: Plan, text: &'static str, src: Source, steps: &[Step]) -> Result<[u8; 4], &'static str> {
    start(plan, text);
    let mut n = [0u8; 4];
    let mut kept = vec![];
    let mut docs: Vec<Option<Deserializer>> = vec![];
    let mut iter = Some(match src {
        Source::Str => Deserializer::from_str(text),
        Source::Slice => Deserializer::from_slice(text.as_bytes()),
        Source::Reader(0) => reader::<Zst>(),
        Source::Reader(1) => reader::<Plain>(),
        Source::Reader(_) => reader::<Wide>(),
    });
    let gone_bad = || {
        if GONE.get() > MADE.get() {
            Err("the reader is dropped more than once")
        } else {
            Ok(())
        }
    };
    for s in steps {
        match s {
            Step::Next => {
                if let Some(it) = &mut iter {
                    match guarded(|| it.next()) {
                        Ok(Some(d)) => {
                            docs.push(Some(d));
                            n[0] += 1;
                        }
                        Ok(None) => {}
                        Err(p) => {
                            if p.contains("was not there") {
                                return Err("the reader was used after it was released");
                            }
                            n[3] += 1
                        }
                    }
                }
            }
            Step::Read(i, a) => {
                if let Some(d) = docs.get_mut(*i).and_then(Option::take) {
                    match guarded(|| get(d, *a)) {
                        Ok(r) => {
                            n[1 + r.is_err() as usize] += 1;
                            kept.push(r)
                        }
                        Err(_) => n[3] += 1,
                    }
                }
            }
            Step::DropDoc(i) => {
                if let Some(d) = docs.get_mut(*i) {
                    *d = None;
                }
            }
            Step::DropIter => iter = None,
        }
        gone_bad()?;
    }
    std::hint::black_box(look(&kept));
    drop(iter);
    std::hint::black_box(look(&kept));
    drop(docs);
    std::hint::black_box(look(&kept));
    drop(kept);
    if GONE.get() == MADE.get() {
        Ok(n)
    } else if GONE.get() < MADE.get() {
        Err("the reader is never dropped")
    } else {
        Err("the reader is dropped more than once")
    }
}

/// The whole input read as one thing.
fn whole(plan: Plan, text: &'static str, src: Source, a: As) -> Result<[u8; 4], &'static str> {
    start(plan, text);
    let mut n = [0u8; 4];
    match guarded(|| {
        let d = match src {
            Source::Str => Deserializer::from_str(text),
            Source::Slice => Deserializer::from_slice(text.as_bytes()),
            Source::Reader(0) => reader::<Zst>(),
            Source::Reader(1) => reader::<Plain>(),
            Source::Reader(_) => reader::<Wide>(),
        };
        get(d, a)
    }) {
        Ok(r) => {
            n[1 + r.is_err() as usize] += 1;
            let kept = [r];
            std::hint::black_box(look(&kept));
        }
        Err(p) => {
            if p.contains("was not there") {
                return Err("the reader was used after it was released");
            }
            n[3] += 1;
        }
    }
    match (GONE.get(), MADE.get()) {
        (a, b) if a == b => Ok(n),
        (a, b) if a < b => Err("the reader is never dropped"),
        _ => Err("the reader is dropped more than once"),
    }
}

const STREAMS: &[&str] = &[
    "", "a", "--- &a [*a]\n--- b\n", "--- 1\n--- 2\n--- 3\n", "--- a\n--- [\n--- c\n", "- &x {a: [~]}\n- *x\n--- *x\n", "--- {a: 1, a: 2}\n--- !t x\n", "--- |\n a\n b\n--- \"\\u00e9\"\n...\n--- end",
    "a: [{a: ~, x: {k: v}, e: {Tup: [1, c]}}]\n--- [Unit, {New: x}, !New y, !Tup [1, d]]\n", "[a, 'b', \"c\", \"d\\n\"]\n", "%YAML 1.1\n%TAG ! tag:x,2000:\n--- !t &a b\n--- @", "{a: &l [l, l], x: {m: *l, n: *l}}\n--- \"\n", "\u{feff}a\n---\n...\n",
];

pub fn families(tier: Tier) -> Vec<Family> {
    if !cfg!(feature = "mem") {
        panic!("C21 is decided by a build of its own: use check.sh");
    }
    let mut f = vec![];

    let ops: Vec<Op> = [
        Scalar, Tree, Variant, Long, Many, Map1, Adapters, Bytes, Nested, BadTag, Doc::Fuse(1, 0), Doc::Fuse(2, 1), Doc::Fuse(3, 0), Doc::Fuse(4, 1), OpenSeq, OpenMap, OpenKey, OpenVariant, OpenMap1, EndOnly,
    ]
    .into_iter()
    .map(Op::Put)
    .chain([Op::Flush])
    .collect();
    let len = tier.pick(3, 4);
    f.push(family(
        "what is written",
        format!("every sequence of at most {len} of {} calls of a serializer - whole documents, ones that fail or panic at a node, ones left open - and each of 3 ways to end, for 3 layouts of writers: memory, and the writer", ops.len()),
        {
            let ops = ops.clone();
            move |ch, cx| {
                let n = ch.range(0, len);
                let prog: Vec<Op> = (0..n).map(|_| *ch.pick(&ops)).collect();
                let end = *ch.pick(&[Finish::Drop, Finish::IntoInner, Finish::Unwind]);
                let kind = if n < len { ch.choose(3) } else { 1 };
                let p = Plan { at: 0, fault: 0, chunk: 0, flush: 0 };
                write_case(cx, kind, p, &prog, end);
            }
        },
    ));
    let few: Vec<Op> = [Scalar, Tree, Long, Many, Doc::Fuse(3, 1), OpenSeq].into_iter().map(Op::Put).chain([Op::Flush]).collect();
    let len = tier.pick(3, 4);
    f.push(family(
        "writers that fail",
        format!("every sequence of at most {len} of {} calls, the writer failing at any one of its first 8 calls (5 for sequences of 4) in each of 4 ways (an error, an interruption, nothing taken, a panic), writing all at once or a part (sequences of 4 a part only), and flushing well, badly or panicking: memory, and the writer", few.len()),
        move |ch, cx| {
            let n = ch.range(1, len);
            let prog: Vec<Op> = (0..n).map(|_| *ch.pick(&few)).collect();
            let end = *ch.pick(&[Finish::IntoInner, Finish::Drop]);
            let kind = if n < 3 { ch.choose(3) } else { 1 };
            let at = ch.range(0, if n < 4 { 8 } else { 5 }) as u32;
            let p = Plan { at, fault: if at > 0 { ch.choose(4) as u8 } else { 0 }, chunk: if n < 4 { *ch.pick(&[0, 5000]) } else { 5000 }, flush: ch.choose(3) as u8 };
            write_case(cx, kind, p, &prog, end);
        },
    ));

    let len = tier.pick(4, 6);
    f.push(family(
        "documents taken and left",
        format!("every one of {} streams, from a str and from a reader, and every sequence of at most {len} calls: take the next document, read one of those taken in 10 ways, drop it, drop the iterator", STREAMS.len()),
        move |ch, cx| {
            let i = ch.choose(STREAMS.len());
            let src = *ch.pick(&[Source::Str, Source::Reader(1)]);
            let n = ch.range(0, len);
            let mut taken: Vec<usize> = vec![];
            let mut next = 0;
            let mut iter = true;
            let mut steps = vec![];
            for _ in 0..n {
                let mut can = vec![];
                if iter {
                    can.push(Step::Next);
                    can.push(Step::DropIter);
                }
                for t in &taken {
                    can.push(Step::DropDoc(*t));
                    can.extend(ALL_AS.map(|a| Step::Read(*t, a)));
                }
                if can.is_empty() {
                    break;
                }
                let s = can[ch.choose(can.len())];
                match s {
                    Step::Next => {
                        taken.push(next);
                        next += 1;
                    }
                    Step::Read(t, _) | Step::DropDoc(t) => taken.retain(|x| *x != t),
                    Step::DropIter => iter = false,
                }
                steps.push(s);
            }
            let p = Plan { at: 0, fault: 0, chunk: 0, flush: 0 };
            let r = decide(cx, format!("{src:?} {:?} {steps:?}", STREAMS[i]), &|| reading(p, STREAMS[i], src, &steps));
            if let Some(r) = r {
                cx.outcome(match r {
                    [_, _, _, 1..=255] => "panicked",
                    [_, _, 1..=255, _] => "refused",
                    [_, 1..=255, _, _] => "read",
                    _ => "left",
                });
            }
        },
    ));
    f.push(family(
        "readers that fail",
        format!("every one of {} documents, whole or taken apart, read in 10 ways by readers of 3 layouts, giving all, 1 or 7 bytes at a time, failing at any one of the first 6 calls in each of 4 ways: memory, and the reader", corpus::VALID.len() + corpus::INVALID.len() + STREAMS.len()),
        |ch, cx| {
            let all: Vec<&'static str> = corpus::VALID.iter().chain(corpus::INVALID).chain(STREAMS).copied().collect();
            let t = all[ch.choose(all.len())];
            let src = Source::Reader(ch.choose(3) as u8);
            let at = ch.range(0, 6) as u32;
            let p = Plan { at, fault: if at > 0 { ch.choose(4) as u8 } else { 0 }, chunk: *ch.pick(&[0, 1, 7]), flush: 0 };
            let a = *ch.pick(&ALL_AS);
            let r = if ch.flag() {
                decide(cx, format!("{src:?} {p:?} {t:?} {a:?}"), &|| whole(p, t, src, a))
            } else {
                decide(cx, format!("{src:?} {p:?} {t:?} next {a:?}"), &|| reading(p, t, src, &[Step::Next, Step::Read(0, a), Step::Next, Step::Next]))
            };
            if let Some(r) = r {
                cx.outcome(match r {
                    [_, _, _, 1..=255] => "panicked",
                    [_, _, 1..=255, _] => "refused",
                    [_, 1..=255, _, _] => "read",
                    _ => "left",
                });
            }
        },
    ));
    f.push(family(
        "fuses",
        "every document of the corpus, from a str, read by a visitor that fails or panics at any one of its first 24 calls",
        |ch, cx| {
            let all: Vec<&'static str> = corpus::VALID.iter().chain(corpus::INVALID).chain(STREAMS).copied().collect();
            let t = all[ch.choose(all.len())];
            let a = As::Fuse(ch.range(1, 24) as u32, ch.choose(2) as u8);
            let src = *ch.pick(&[Source::Str, Source::Slice]);
            let p = Plan { at: 0, fault: 0, chunk: 0, flush: 0 };
            decide(cx, format!("{src:?} {t:?} {a:?}"), &|| whole(p, t, src, a));
            decide(cx, format!("{src:?} {t:?} next {a:?}"), &|| reading(p, t, src, &[Step::Next, Step::Read(0, a), Step::Next, Step::Read(1, As::Value)]));
        },
    ));
    let toks = ["a", "\u{e9}", " ", "\n", "- ", ": ", "? ", ", ", "[", "]", "{", "}", "&a ", "*a", "!t ", "!!int ", "'", "\"", "\\", "|", "#", "---", "...", "%", "\n "];
    let n = tier.pick(4, 5);
    f.push(family(
        "texts",
        format!("every string of at most {n} of {} tokens, as a Value, as another type, and left after its first document: memory", toks.len()),
        move |ch, cx| {
            let n = ch.range(0, n);
            let text: String = (0..n).map(|_| *ch.pick(&toks)).collect();
            cx.state(&text);
            cx.case.clone_from(&text);
            let (ok, l) = left(&|| {
                start(Plan { at: 0, fault: 0, chunk: 0, flush: 0 }, "");
                let v = serde_yaml::from_str::<Value>(&text);
                let w = serde_yaml::from_str::<Vec<Option<String>>>(&text);
                let x = Deserializer::from_str(&text).next().map(|d| IgnoredAny::deserialize(d));
                let mut it = Deserializer::from_slice(text.as_bytes());
                let d = it.next();
                drop(it);
                let d = d.map(|d| Value::deserialize(d));
                let text = v.as_ref().ok().map(|v| serde_yaml::to_string(v));
                std::hint::black_box(format!("{v:?} {w:?} {x:?} {d:?} {text:?}").len());
                v.is_ok()
            });
            cx.step(4);
            cx.outcome(if ok { "read" } else { "refused" });
            if l == (0, 0) {
                cx.trace();
            } else {
                cx.fail(format!("{text:?}"), format!("{text:?}: {} blocks, {} bytes stay allocated", l.0, l.1));
            }
        },
    ));
    let n = tier.pick(5, 6);
    f.push(family(
        "values",
        format!("every Value of at most {n} nodes: written, read in 10 ways by value and by reference, merged and indexed"),
        move |ch, cx| {
            let mut g = Gen::new(vec![T::Null, T::Int(1), st("a"), st("<<"), st("x\ny")], &["t", "New"]);
            g.nested_tags = true;
            let t = g.tree(ch, n);
            if t.has_dup_keys() {
                return;
            }
            cx.state(&t);
            cx.case = format!("{t:?}");
            let (_, l) = left(&|| {
                let v = t.to_value();
                let text = serde_yaml::to_string(&v);
                let a: Result<Vec<Ev>, _> = serde_yaml::from_value(v.clone());
                let b = Rec::deserialize(&v).is_ok();
                for n in 1..4 {
                    for how in 0..2 {
                        FUSE.set((n, how));
                        let _ = guarded(|| Any::deserialize(v.clone()).is_ok());
                        FUSE.set((n, how));
                        let _ = guarded(|| Any::deserialize(&v).is_ok());
                        FUSE.set((0, 0));
                    }
                }
                let mut m = v.clone();
                let c = m.apply_merge();
                let d = guarded(|| m["a"] = Value::Bool(true));
                let e = singleton_map::deserialize::<Ev, _>(v.clone()).is_ok();
                std::hint::black_box(format!("{text:?} {} {b} {c:?} {d:?} {e} {m:?}", a.is_ok()).len());
            });
            cx.step(9);
            if l == (0, 0) {
                cx.trace();
            } else {
                cx.fail(format!("{t:?}"), format!("{t:?}: {} blocks, {} bytes stay allocated", l.0, l.1));
            }
        },
    ));
    // everything other properties explore of the code that manages memory by hand
    if tier == Tier::Thorough {
        for (of, fams) in [("C06", c06::families(Tier::Quick)), ("C08", c08::families(Tier::Quick))] {
            f.extend(fams.into_iter().map(|mut g| {
                g.name = format!("{of}: {}", g.name).leak();
                g
            }));
        }
    }
    f
}

fn write_case(cx: &mut Cx, kind: usize, p: Plan, prog: &[Op], end: Finish) {
    let key = format!("writer {kind} {p:?} {prog:?} {end:?}");
    let r = match kind {
        0 => decide(cx, key, &|| writing::<Zst>(p, prog, end)),
        1 => decide(cx, key, &|| writing::<Plain>(p, prog, end)),
        _ => decide(cx, key, &|| writing::<Wide>(p, prog, end)),
    };
    if let Some(r) = r {
        cx.outcome(match r {
            (_, _, 1.., _) => "a panic on the way",
            (_, _, _, Some(true)) => "handed back",
            (_, _, _, Some(false)) => "not handed back",
            (_, 1.., _, _) => "failed",
            _ => "written",
        });
    }
}
