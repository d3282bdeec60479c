//! Presentation: writes a tree as YAML text in every way the choices allow, keeping track of
//! where each node starts. Shares no code with the crate's emitter.

use crate::explore::Ch;
use crate::resolve::{self, R};
use crate::tree::T;

#[derive(Clone, Debug)]
pub enum K {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Seq(Vec<N>),
    Map(Vec<(N, N)>),
    Alias(String),
}

/// A node with its properties.
#[derive(Clone, Debug)]
pub struct N {
    pub anchor: Option<String>,
    pub tag: Option<String>,
    pub k: K,
}

impl N {
    pub fn plain(k: K) -> N {
        N {
            anchor: None,
            tag: None,
            k,
        }
    }
    pub fn of(t: &T) -> N {
        N::plain(match t {
            T::Null => K::Null,
            T::Bool(b) => K::Bool(*b),
            T::Int(i) => K::Int(*i),
            T::Float(f) => K::Float(*f),
            T::Str(s) => K::Str(s.clone()),
            T::Seq(v) => K::Seq(v.iter().map(N::of).collect()),
            T::Map(v) => K::Map(v.iter().map(|(k, e)| (N::of(k), N::of(e))).collect()),
            T::Tag(t, v) => {
                let mut n = N::of(v);
                n.tag = Some(format!("!{t}"));
                return n;
            }
        })
    }
    fn props(&self) -> bool {
        self.anchor.is_some() || self.tag.is_some()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Step {
    Idx(usize),
    /// key node of the entry
    Key(usize),
    /// value node of the entry
    Val(usize),
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// nulls may be left out entirely
    pub empty_nulls: bool,
    /// add unused anchors
    pub anchors: bool,
    /// line endings other than \n
    pub eols: bool,
    /// document markers, leading and trailing comments
    pub markers: bool,
}

impl Opts {
    pub fn all() -> Opts {
        Opts {
            empty_nulls: true,
            anchors: true,
            eols: true,
            markers: true,
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum After {
    /// beginning of the document
    Fresh,
    Marker,
    Dash,
    Colon,
    Question,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sty {
    Plain,
    Single,
    Double,
    DoubleU,
    PlainFolded,
    SingleFolded,
    DoubleFolded,
    Literal,
    Folded,
    Empty,
}

pub struct Pr<'a> {
    pub out: String,
    /// where each node starts (with its properties), by path
    pub marks: Vec<(Vec<Step>, usize)>,
    ch: &'a mut Ch,
    path: Vec<Step>,
    opts: Opts,
    nl: &'static str,
    col: usize,
    unused: usize,
    /// a block scalar was just written: layout after it would be content
    raw: bool,
}

/// The text of a document and the byte offset of each node.
pub struct Written {
    pub text: String,
    pub marks: Vec<(Vec<Step>, usize)>,
}

impl Written {
    /// (byte index, line, column), the latter two from 1
    pub fn at(&self, path: &[Step]) -> Option<(usize, usize, usize)> {
        let off = self.marks.iter().find(|(p, _)| p == path)?.1;
        Some(locate(&self.text, off))
    }
}

pub fn locate(text: &str, off: usize) -> (usize, usize, usize) {
    let before = &text[..off];
    let start = if before.starts_with('\u{feff}') { 3 } else { 0 };
    let (mut line, mut col) = (1, 1);
    let mut it = before[start..].chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\r' if it.peek() == Some(&'\n') => {}
            '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
                line += 1;
                col = 1;
            }
            _ => col += 1,
        }
    }
    (off, line, col)
}

pub fn write(ch: &mut Ch, n: &N, opts: Opts) -> Written {
    let nl = if opts.eols { ["\n", "\r\n", "\r"][ch.deviate(3)] } else { "\n" };
    let mut p = Pr {
        out: String::new(),
        marks: vec![],
        ch,
        path: vec![],
        opts,
        nl,
        col: 0,
        unused: 0,
        raw: false,
    };
    p.document(n);
    Written {
        text: p.out,
        marks: p.marks,
    }
}

/// Plain in every context, including implicit keys and flow collections.
fn plain_ok(s: &str) -> bool {
    let mut cs = s.chars();
    cs.next().is_some_and(|c| c.is_ascii_alphabetic() || "é€_/.".contains(c))
        && s.chars().all(|c| c.is_ascii_alphanumeric() || "é€_/. -+".contains(c))
        && !s.ends_with(' ')
        && !s.starts_with("...")
        && !s.contains(" -")
        && matches!(resolve::plain(s), R::Str)
}
fn single_ok(s: &str) -> bool {
    s.chars().all(|c| c == ' ' || c.is_ascii_graphic() || c == 'é' || c == '€' || c == '\u{1F600}')
}
fn foldable(s: &str) -> bool {
    // an inner single space between words
    let b = s.as_bytes();
    (1..b.len().saturating_sub(1)).any(|i| b[i] == b' ' && b[i - 1] != b' ' && b[i + 1] != b' ')
}
fn literal_ok(s: &str) -> bool {
    !s.is_empty()
        && s.chars().any(|c| c != '\n' && c != ' ')
        && s.chars().all(|c| c == '\n' || c == ' ' || c.is_ascii_graphic() || c == 'é' || c == '€')
        && !s.split('\n').any(|l| !l.is_empty() && l.trim().is_empty())
}

impl Pr<'_> {
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
        self.col += s.chars().count();
    }
    fn newline(&mut self) {
        self.out.push_str(self.nl);
        self.col = 0;
    }
    fn indent(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
        self.col += n;
    }
    fn mark(&mut self) {
        self.marks.push((self.path.clone(), self.out.len()));
    }

    /// End of a line that is not part of a scalar.
    fn eol(&mut self) {
        if self.raw {
            // the block scalar ended its own line
            self.raw = false;
            return;
        }
        match self.ch.deviate(5) {
            0 => self.newline(),
            1 => {
                self.put(" # c: [");
                self.newline();
            }
            2 => {
                self.newline();
                self.newline();
            }
            3 => {
                self.newline();
                self.put("# 'c");
                self.newline();
            }
            _ => {
                self.put("  ");
                self.newline();
                self.put("   #- c");
                self.newline();
            }
        }
    }

    fn document(&mut self, n: &N) {
        let mut after = After::Fresh;
        if self.opts.markers {
            match self.ch.deviate(8) {
                0 => {}
                1 => {
                    self.put("---");
                    after = After::Marker;
                }
                2 => {
                    self.put("---");
                    self.newline();
                }
                3 => {
                    self.put("# c");
                    self.newline();
                }
                4 => {
                    self.newline();
                    self.newline();
                }
                5 => {
                    self.put("%YAML 1.1");
                    self.newline();
                    self.put("--- # c");
                    self.newline();
                }
                6 => self.out.push('\u{feff}'),
                _ => {
                    self.put("  # c");
                    self.newline();
                    self.put("---");
                    after = After::Marker;
                }
            }
        }
        self.block(n, -1, after);
        if self.opts.markers {
            match self.ch.deviate(5) {
                0 => {}
                1 => {
                    self.put("...");
                    self.newline();
                }
                2 => {
                    self.put("# end");
                    self.newline();
                }
                3 => {
                    // no final line break, unless it would be content
                    let keep = self.out.ends_with(self.nl) && !self.out.trim_end().is_empty();
                    if keep && !self.out.contains(['|', '>']) {
                        let n = self.out.len() - self.nl.len();
                        self.out.truncate(n);
                    }
                }
                _ => {
                    self.put("... # c");
                    self.newline();
                    self.newline();
                }
            }
        }
    }

    fn space(&mut self, after: After) {
        if after != After::Fresh {
            let n = [1, 2, 4][self.ch.deviate(3)];
            self.indent(n);
        }
    }

    /// Properties, each followed by a space. Includes unused anchors.
    fn props(&mut self, n: &N) -> bool {
        let mut any = false;
        let extra = n.anchor.is_none() && !matches!(n.k, K::Alias(_)) && self.opts.anchors && self.ch.deviate(2) == 1;
        let anchor = match (&n.anchor, extra) {
            (Some(a), _) => Some(a.clone()),
            (None, true) => {
                self.unused += 1;
                Some(format!("unused{}", self.unused))
            }
            _ => None,
        };
        let tag = n.tag.clone();
        let mut list = vec![];
        if let Some(t) = tag {
            list.push(t);
        }
        if let Some(a) = anchor {
            list.push(format!("&{a}"));
        }
        if list.len() == 2 && self.ch.deviate(2) == 1 {
            list.reverse();
        }
        for p in list {
            self.put(&p);
            self.put(" ");
            any = true;
        }
        any
    }

    fn trim_space(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
            self.col -= 1;
        }
    }

    fn block(&mut self, n: &N, parent: isize, after: After) {
        match &n.k {
            K::Seq(v) if !v.is_empty() => self.block_coll(n, parent, after),
            K::Map(v) if !v.is_empty() => self.block_coll(n, parent, after),
            K::Alias(a) => {
                self.space(after);
                self.mark();
                self.put(&format!("*{a}"));
                self.eol();
            }
            K::Seq(_) | K::Map(_) => {
                self.space(after);
                self.mark();
                self.props(n);
                self.flow_body(n, parent, false);
                self.eol();
            }
            _ => self.block_scalar_node(n, parent, after),
        }
    }

    fn styles(&self, n: &N, key: bool, flow: bool) -> Vec<Sty> {
        match &n.k {
            K::Str(s) => {
                let mut v = vec![];
                if plain_ok(s) {
                    v.push(Sty::Plain);
                }
                if single_ok(s) {
                    v.push(Sty::Single);
                }
                v.push(Sty::Double);
                v.push(Sty::DoubleU);
                if !key && foldable(s) {
                    if plain_ok(s) {
                        v.push(Sty::PlainFolded);
                    }
                    if single_ok(s) {
                        v.push(Sty::SingleFolded);
                    }
                    v.push(Sty::DoubleFolded);
                }
                if !key && !flow && literal_ok(s) {
                    v.push(Sty::Literal);
                    if !s.contains('\n') && !s.starts_with(' ') {
                        v.push(Sty::Folded);
                    }
                }
                v
            }
            K::Null if self.opts.empty_nulls && n.tag.is_none() && n.anchor.is_none() => vec![Sty::Plain, Sty::Empty],
            _ => vec![Sty::Plain],
        }
    }

    fn scalar_text(&self, n: &N) -> String {
        match &n.k {
            K::Null => "~".into(),
            K::Bool(b) => b.to_string(),
            K::Int(i) => i.to_string(),
            K::Float(f) if f.is_nan() => ".nan".into(),
            K::Float(f) if f.is_infinite() => if *f > 0.0 { ".inf" } else { "-.inf" }.into(),
            K::Float(f) => format!("{f:?}"),
            K::Str(s) => s.clone(),
            _ => unreachable!(),
        }
    }

    fn block_scalar_node(&mut self, n: &N, parent: isize, after: After) {
        let styles = self.styles(n, false, false);
        let sty = styles[self.ch.deviate(styles.len())];
        let inner = (parent + 1) as usize;
        if sty == Sty::Empty && after != After::Fresh {
            self.mark();
            self.eol();
            return;
        }
        if sty == Sty::Empty {
            // an empty document: only where something marks it
            self.mark();
            self.put("~");
            self.eol();
            return;
        }
        // on the same line, or all of it on the next, or the properties first
        let block = matches!(sty, Sty::Literal | Sty::Folded);
        let place = if after == After::Fresh { 0 } else { self.ch.deviate(3) };
        if place == 1 {
            self.eol();
            self.indent(inner + 1);
            self.mark();
            self.props(n);
        } else {
            self.space(after);
            self.mark();
            if self.props(n) && place == 2 && !block {
                self.trim_space();
                self.eol();
                self.indent(inner + 1);
            }
        }
        if block {
            let K::Str(s) = &n.k else { unreachable!() };
            self.block_scalar(s, sty == Sty::Folded, inner);
            return;
        }
        let text = self.scalar_text(n);
        self.inline_scalar(&text, sty, inner + 1);
        self.eol();
    }

    fn block_scalar(&mut self, s: &str, folded: bool, inner: usize) {
        let body = s.trim_end_matches('\n');
        let tail = s.len() - body.len();
        let width = inner + [1, 2, 3][self.ch.deviate(3)] - usize::from(inner == 0) + usize::from(inner == 0);
        let mut head = String::from(if folded { ">" } else { "|" });
        let explicit = s.starts_with([' ', '\n']) || self.ch.deviate(2) == 1;
        let chomp = match tail {
            0 => "-",
            1 => ["", "+"][self.ch.deviate(2)],
            _ => "+",
        };
        // the indicator counts from the parent's indentation, where the root's is nothing
        let digit = (width - inner + usize::from(inner > 0)).to_string();
        let digit = if explicit { digit.as_str() } else { "" };
        if self.ch.deviate(2) == 1 {
            head.push_str(chomp);
            head.push_str(digit);
        } else {
            head.push_str(digit);
            head.push_str(chomp);
        }
        if self.ch.deviate(2) == 1 {
            head.push_str(" # c");
        }
        self.put(&head);
        self.newline();
        for line in body.split('\n') {
            if line.is_empty() {
                self.newline();
                continue;
            }
            self.indent(width);
            if folded && foldable(line) && self.ch.deviate(2) == 1 {
                let i = (1..line.len() - 1)
                    .find(|&i| {
                        let b = line.as_bytes();
                        b[i] == b' ' && b[i - 1] != b' ' && b[i + 1] != b' '
                    })
                    .expect("foldable");
                self.put(&line[..i]);
                self.newline();
                self.indent(width);
                self.put(&line[i + 1..]);
            } else {
                self.put(line);
            }
            self.newline();
        }
        for _ in 1..tail {
            self.newline();
        }
        self.raw = true;
        self.eol();
    }

    fn inline_scalar(&mut self, text: &str, sty: Sty, cont: usize) {
        let fold_at = || {
            let b = text.as_bytes();
            (1..b.len() - 1).find(|&i| b[i] == b' ' && b[i - 1] != b' ' && b[i + 1] != b' ')
        };
        match sty {
            Sty::Plain => self.put(text),
            Sty::Single => self.put(&format!("'{}'", text.replace('\'', "''"))),
            Sty::Double => self.put(&format!("\"{}\"", escape(text, false))),
            Sty::DoubleU => self.put(&format!("\"{}\"", escape(text, true))),
            Sty::PlainFolded | Sty::SingleFolded | Sty::DoubleFolded => {
                let i = fold_at().expect("foldable");
                let q = match sty {
                    Sty::PlainFolded => "",
                    Sty::SingleFolded => "'",
                    _ => "\"",
                };
                let esc = |s: &str| match sty {
                    Sty::PlainFolded => s.to_owned(),
                    Sty::SingleFolded => s.replace('\'', "''"),
                    _ => escape(s, false),
                };
                self.put(&format!("{q}{}", esc(&text[..i])));
                self.newline();
                self.indent(cont);
                self.put(&format!("{}{q}", esc(&text[i + 1..])));
            }
            Sty::Literal | Sty::Folded | Sty::Empty => unreachable!(),
        }
    }

    fn block_coll(&mut self, n: &N, parent: isize, after: After) {
        if self.ch.deviate(2) == 1 {
            self.space(after);
            self.mark();
            self.props(n);
            self.flow_body(n, parent, false);
            self.eol();
            return;
        }
        let is_seq = matches!(n.k, K::Seq(_));
        let can_compact = matches!(after, After::Dash | After::Question);
        let want_extra = self.opts.anchors && n.anchor.is_none() && self.ch.deviate(2) == 1;
        let has_props = n.props() || want_extra;
        let compact = can_compact && !has_props && self.ch.deviate(2) == 0;
        let c;
        if compact {
            self.space(after);
            c = self.col;
            self.mark();
        } else {
            let mut marked = false;
            if has_props {
                self.space(after);
                self.mark();
                marked = true;
                let mut list: Vec<String> = vec![];
                if let Some(t) = &n.tag {
                    list.push(t.clone());
                }
                if let Some(a) = &n.anchor {
                    list.push(format!("&{a}"));
                } else if want_extra {
                    self.unused += 1;
                    list.push(format!("&unused{}", self.unused));
                }
                self.put(&list.join(" "));
                self.eol();
            } else if after != After::Fresh {
                self.eol();
            }
            let base = (parent + 1) as usize; // smallest strictly deeper indentation
            let widths: Vec<usize> = match after {
                After::Fresh | After::Marker => vec![0, 1, 2],
                After::Colon if is_seq => vec![base + 1, base - 1, base, base + 3],
                _ => vec![base + 1, base, base + 3],
            };
            c = widths[self.ch.deviate(widths.len())];
            self.indent(c);
            if !marked {
                self.mark();
            }
        }
        match &n.k {
            K::Seq(v) => {
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        self.indent(c);
                    }
                    self.put("-");
                    self.path.push(Step::Idx(i));
                    self.block(e, c as isize, After::Dash);
                    self.path.pop();
                }
            }
            K::Map(v) => {
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        self.indent(c);
                    }
                    self.entry(i, k, e, c);
                }
            }
            _ => unreachable!(),
        }
    }

    fn entry(&mut self, i: usize, k: &N, e: &N, c: usize) {
        let explicit = self.ch.deviate(2) == 1 || !implicit_ok(k);
        if explicit {
            self.put("?");
            self.path.push(Step::Key(i));
            self.block(k, c as isize, After::Question);
            self.path.pop();
            if self.opts.empty_nulls && matches!(e.k, K::Null) && !e.props() && self.ch.deviate(2) == 1 {
                return;
            }
            self.indent(c);
            self.put(":");
        } else {
            self.path.push(Step::Key(i));
            self.mark();
            self.key(k);
            self.path.pop();
            if matches!(k.k, K::Alias(_)) || self.ch.deviate(2) == 1 {
                self.put(" ");
            }
            self.put(":");
        }
        self.path.push(Step::Val(i));
        self.block(e, c as isize, After::Colon);
        self.path.pop();
    }

    /// A node on one line: an implicit key.
    fn key(&mut self, k: &N) {
        self.props(k);
        match &k.k {
            K::Alias(a) => self.put(&format!("*{a}")),
            K::Seq(_) | K::Map(_) => self.flow_body(k, 0, true),
            _ => {
                let styles: Vec<Sty> = self.styles(k, true, false).into_iter().filter(|s| *s != Sty::Empty).collect();
                let sty = styles[self.ch.deviate(styles.len())];
                let text = self.scalar_text(k);
                self.inline_scalar(&text, sty, 0);
            }
        }
    }

    /// A node inside a flow collection, with its properties.
    fn flow(&mut self, n: &N, parent: isize, one_line: bool, key: bool) -> bool {
        self.mark();
        self.props(n);
        match &n.k {
            K::Alias(a) => {
                self.put(&format!("*{a}"));
                false
            }
            K::Seq(_) | K::Map(_) => {
                self.flow_body(n, parent, one_line);
                true
            }
            _ => {
                let styles: Vec<Sty> = self
                    .styles(n, one_line || key, true)
                    .into_iter()
                    .filter(|s| *s != Sty::Empty)
                    .collect();
                let sty = styles[self.ch.deviate(styles.len())];
                let text = self.scalar_text(n);
                self.inline_scalar(&text, sty, (parent + 2) as usize);
                sty != Sty::Plain && sty != Sty::PlainFolded
            }
        }
    }

    fn gap(&mut self, parent: isize, one_line: bool, must: bool) {
        let n = if one_line { 3 } else { 5 };
        match self.ch.deviate(n) {
            0 => {
                if must {
                    self.put(" ")
                }
            }
            1 => {
                if must {
                    self.put("  ")
                } else {
                    self.put(" ")
                }
            }
            2 => self.put("   "),
            3 => {
                self.newline();
                self.indent((parent + 2) as usize);
            }
            _ => {
                self.put(" # c, ]");
                self.newline();
                self.indent((parent + 4) as usize);
            }
        }
    }

    fn flow_body(&mut self, n: &N, parent: isize, one_line: bool) {
        match &n.k {
            K::Seq(v) => {
                self.put("[");
                self.gap(parent, one_line, false);
                for (i, e) in v.iter().enumerate() {
                    self.path.push(Step::Idx(i));
                    match &e.k {
                        K::Map(m) if m.len() == 1 && !e.props() && !one_line && implicit_ok(&m[0].0) && self.ch.deviate(2) == 1 => {
                            // a single pair: the mapping starts where its key does
                            self.mark();
                            self.flow_entry(0, &m[0].0, &m[0].1, parent, true, true);
                        }
                        _ => {
                            self.flow(e, parent, one_line, false);
                        }
                    }
                    self.path.pop();
                    self.comma(i + 1 == v.len(), parent, one_line);
                }
                self.put("]");
            }
            K::Map(v) => {
                self.put("{");
                self.gap(parent, one_line, false);
                for (i, (k, e)) in v.iter().enumerate() {
                    self.flow_entry(i, k, e, parent, one_line, false);
                    self.comma(i + 1 == v.len(), parent, one_line);
                }
                self.put("}");
            }
            _ => unreachable!(),
        }
    }

    fn comma(&mut self, last: bool, parent: isize, one_line: bool) {
        if last {
            match self.ch.deviate(3) {
                0 => {}
                1 => self.put(" "),
                _ => self.put(" , "),
            }
        } else {
            if self.ch.deviate(2) == 1 {
                self.put(" ");
            }
            self.put(",");
            self.gap(parent, one_line, true);
        }
    }

    fn flow_entry(&mut self, i: usize, k: &N, e: &N, parent: isize, one_line: bool, pair: bool) {
        let explicit = !pair && (self.ch.deviate(2) == 1 || !implicit_ok(k));
        if explicit {
            self.put("? ");
        }
        self.path.push(Step::Key(i));
        let jsonish = self.flow(k, parent, true, true);
        self.path.pop();
        let null = matches!(e.k, K::Null) && !e.props() && self.opts.empty_nulls && !pair;
        if null && self.ch.deviate(2) == 1 {
            // {a} has no value at all
            return;
        }
        if matches!(k.k, K::Alias(_)) || explicit {
            self.put(" ");
        }
        self.put(":");
        if null && self.ch.deviate(2) == 1 {
            self.put(" ");
            return;
        }
        if jsonish && self.ch.deviate(2) == 1 {
            // adjacent value
        } else {
            self.gap(parent, one_line, true);
        }
        self.path.push(Step::Val(i));
        self.flow(e, parent, one_line, false);
        self.path.pop();
    }
}

/// An implicit key is at most 1024 characters long; this stays well below.
fn implicit_ok(k: &N) -> bool {
    room(k, 100).is_some()
}
/// What is left of the room after this node.
fn room(n: &N, left: usize) -> Option<usize> {
    let names = n.anchor.as_ref().map_or(0, String::len) + n.tag.as_ref().map_or(0, String::len);
    let left = left.checked_sub(names + 4)?;
    match &n.k {
        K::Str(s) => left.checked_sub(s.chars().count()),
        K::Alias(a) => left.checked_sub(a.len()),
        K::Seq(v) => v.iter().try_fold(left, |l, e| room(e, l)),
        K::Map(v) => v.iter().try_fold(left, |l, (k, e)| room(k, l).and_then(|l| room(e, l))),
        _ => Some(left),
    }
}

fn escape(s: &str, all: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' if !all => o.push_str("\\\""),
            '\\' if !all => o.push_str("\\\\"),
            '\n' if !all => o.push_str("\\n"),
            '\t' if !all => o.push_str("\\t"),
            c if !all && (c == ' ' || c.is_ascii_graphic() || c == 'é' || c == '€' || c == '\u{1F600}') => o.push(c),
            c if (c as u32) < 0x80 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c if (c as u32) < 0x10000 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push_str(&format!("\\U{:08x}", c as u32)),
        }
    }
    o
}
