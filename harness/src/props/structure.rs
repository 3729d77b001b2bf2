//! Structural faults (P21) and where they are reported (P22).

use substrait_explain::ParseError;

use super::core::{must_parse, parse};
use super::fuzz::small;
use crate::r#gen::Gen;
use crate::model::{self, Cfg};
use crate::render;
use crate::runner::{Case, Fail, Prop, R};
use crate::{ensure, fail};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// A line of a section other than the plan, or a section header.
    Head,
    Root,
    Read,
    ReadExt,
    Virtual,
    /// Filter, Project, Aggregate, Sort, Fetch.
    Single,
    /// Join, Cross.
    Two,
    Set,
    ExtLeaf,
    ExtSingle,
    ExtMulti,
    Enh,
    Opt,
    Ext,
}
use Kind::*;

impl Kind {
    fn addendum(self) -> bool {
        matches!(self, Enh | Opt | Ext)
    }
    fn relation(self) -> bool {
        !self.addendum() && self != Head
    }
    /// The number of inputs, where it is fixed.
    fn arity(self) -> Option<usize> {
        match self {
            Read | ReadExt | Virtual | ExtLeaf => Some(0),
            Root | Single | ExtSingle => Some(1),
            Two => Some(2),
            _ => None,
        }
    }
    fn extension(self) -> bool {
        matches!(self, ExtLeaf | ExtSingle | ExtMulti)
    }
}

/// A line of the text with the lines that continue it.
#[derive(Clone, Debug)]
struct Chunk {
    kind: Kind,
    depth: usize,
    /// Leading space.
    pad: String,
    body: String,
    more: Vec<String>,
    /// Where the fault is.
    bad: bool,
}

#[derive(Clone, Debug)]
struct Doc {
    chunks: Vec<Chunk>,
}

fn kind_of(body: &str) -> Kind {
    for (p, k) in [
        ("Root[", Root),
        ("Read[", Read),
        ("Read:Extension[", ReadExt),
        ("Read:Virtual[", Virtual),
        ("Join[", Two),
        ("Cross[", Two),
        ("Set[", Set),
        ("ExtensionLeaf:", ExtLeaf),
        ("ExtensionSingle:", ExtSingle),
        ("ExtensionMulti:", ExtMulti),
        ("+ Enh:", Enh),
        ("+ Opt:", Opt),
        ("+ Ext:", Ext),
    ] {
        if body.starts_with(p) {
            return k;
        }
    }
    Single
}

impl Chunk {
    fn new(kind: Kind, depth: usize, body: impl Into<String>) -> Chunk {
        Chunk { kind, depth, pad: "  ".repeat(depth), body: body.into(), more: vec![], bad: false }
    }
    fn bad(mut self) -> Chunk {
        self.bad = true;
        self
    }
    fn set_depth(&mut self, depth: usize) {
        self.depth = depth;
        self.pad = "  ".repeat(depth);
        let cont = "  ".repeat(depth + 1);
        for m in &mut self.more {
            *m = format!("{cont}{}", m.trim_start());
        }
    }
    fn lines(&self) -> Vec<String> {
        let mut v = vec![format!("{}{}", self.pad, self.body)];
        v.extend(self.more.iter().cloned());
        v
    }
    fn name(&self) -> &str {
        &self.body[..self.body.find(['[', ':']).unwrap_or(self.body.len())]
    }
}

impl Doc {
    /// From canonical text.
    fn of(text: &str) -> Doc {
        let mut chunks: Vec<Chunk> = vec![];
        let mut plan = false;
        for l in text.lines() {
            if l.trim().is_empty() {
                continue;
            }
            let body = l.trim_start();
            let depth = (l.len() - body.len()) / 2;
            if plan && body.starts_with("- ") {
                chunks.last_mut().unwrap().more.push(l.to_string());
                continue;
            }
            chunks.push(Chunk::new(if plan { kind_of(body) } else { Head }, depth, body));
            plan |= l == "=== Plan";
        }
        Doc { chunks }
    }
    fn plan_header(&self) -> usize {
        self.chunks.iter().position(|c| c.body == "=== Plan").unwrap()
    }
    fn end(&self, i: usize) -> usize {
        let d = self.chunks[i].depth;
        (i + 1..self.chunks.len()).find(|&j| self.chunks[j].depth <= d).unwrap_or(self.chunks.len())
    }
    fn children(&self, i: usize) -> Vec<usize> {
        let d = self.chunks[i].depth;
        (i + 1..self.end(i)).filter(|&j| self.chunks[j].depth == d + 1 && self.chunks[j].kind.relation()).collect()
    }
    fn addenda(&self, i: usize) -> Vec<usize> {
        (i + 1..self.chunks.len()).take_while(|&j| self.chunks[j].kind.addendum()).collect()
    }
    /// The first place among a relation's children, after its addenda.
    fn after_addenda(&self, i: usize) -> usize {
        i + 1 + self.addenda(i).len()
    }
    fn find(&self, g: &mut Gen, f: impl Fn(usize, &Chunk) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.chunks.len()).filter(|&i| f(i, &self.chunks[i])).collect();
        if v.is_empty() { None } else { Some(v[g.usize(v.len())]) }
    }
    fn insert(&mut self, at: usize, c: Chunk) {
        self.chunks.insert(at, c);
    }
    fn text(&self) -> String {
        let mut s = String::new();
        for c in &self.chunks {
            for l in c.lines() {
                s.push_str(&l);
                s.push('\n');
            }
        }
        s
    }
    /// The text with insignificant layout around it, and for each faulty
    /// chunk its first and last line.
    fn noisy(&self, g: &mut Gen) -> (String, Vec<(usize, usize)>) {
        let mut s = String::new();
        let mut n = 0;
        let mut bad = vec![];
        let crlf = g.usize(4);
        let rate = g.choose(&[0u64, 1, 4]);
        for c in &self.chunks {
            if g.chance(rate, 8) {
                for _ in 0..g.range(1, 3) {
                    let blank = g.pick(&["", "  ", "\t", "     "]);
                    s.push_str(blank);
                    s.push_str(if crlf == 1 { "\r\n" } else { "\n" });
                    n += 1;
                }
            }
            let lines = c.lines();
            let first = n + 1;
            for (k, l) in lines.iter().enumerate() {
                s.push_str(l);
                if k + 1 == lines.len() && !c.bad {
                    if c.kind != Head && g.chance(rate, 20) {
                        s.push_str("  // note");
                    }
                    if g.chance(rate, 20) {
                        s.push_str("   ");
                    }
                }
                s.push_str(if crlf == 1 || (crlf == 2 && g.bool()) { "\r\n" } else { "\n" });
                n += 1;
            }
            if c.bad {
                bad.push((first, n));
            }
        }
        (s, bad)
    }
}

/// Positions of bytes of a plan line outside quotes.
fn outside(s: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut quote = None;
    let mut skip = false;
    for (i, c) in s.char_indices() {
        match quote {
            Some(q) => {
                if skip {
                    skip = false
                } else if c == '\\' {
                    skip = true
                } else if c == q {
                    quote = None
                }
            }
            None if c == '\'' || c == '"' => quote = Some(c),
            None => v.push(i),
        }
    }
    v
}

fn last_outside(s: &str, what: &str) -> Option<usize> {
    outside(s).into_iter().rev().find(|&i| s[i..].starts_with(what))
}

const READ: &str = "Read[zz => a:i64]";

/// Bodies that are wrong wherever they stand, by the number of inputs they take.
const BAD_LEAF: &[&str] = &[
    "Read[ => a:i64]", "Read[t]", "Read[]", "Read[t => a]", "Read[t => a:]", "Read[t => a:i64 b:i64]", "Read[t => $0]", "Read[t.=> a:i64]", "Read[.t => a:i64]", "Read[t..u => a:i64]",
    "Read[t => a:i64 |> $0]", "Read[t +> a:i64 |> a]", "Read[t +> a:i64 |> $0 |> $0]", "Read[t, u => a:i64]", "Read[t => a:nosuchtype]", "Read[t => 1:i64]", "Read [t => a:i64]",
    "Read[t => a:i64", "Read t => a:i64]", "Read:Virtual[ => a:i64]", "Read:Virtual[1 => a:i64]", "Read:Virtual[(1)]", "Read:Virtual[(1), => a:i64]", "Read:Virtual[(1) (2) => a:i64]",
    "Read:Virtual[_, _ => a:i64]", "Read:Virtual[(1), _ => a:i64]", "Read:Virtual[filter=true => a:i64]", "Read:Virtual[(1), filter=true, filter=true => a:i64]",
    "Read:Virtual[(1), filter=true, (2) => a:i64]", "Read:Virtual[(1), other=true => a:i64]", "Read:Virtual[(1), filter => a:i64]", "Read:Virtual[(1) => $0]", "Read:virtual[(1) => a:i64]",
    "Read:Other[(1) => a:i64]", "Read:[t => a:i64]", "ExtensionLeaf:NoSuchExtension[_]", "ExtensionLeaf[_]", "ExtensionLeaf:[_]", "Extension:ExtRel[_]", "ExtensionLeaf:ExtRel[a=1, a=2]",
    "ExtensionLeaf:ExtRel[a=1, 2]", "ExtensionLeaf:ExtRel[_, 1]", "ExtensionLeaf:ExtRel[1, _]", "ExtensionLeaf:ExtRel[1 2]", "ExtensionLeaf:ExtRel", "ExtensionLeaf:ExtRel[] => a:i64",
    "ExtensionLeaf:ExtRel[1 => a:]", "ExtensionLeaf:ExtRel[1 => => a:i64]", "ExtensionLeaf:EnhOne[_]", "Read[t => a:list<i64]", "Read['t' => a:i64]", "Read[t => 'a':i64]",
    "Read:Virtual[(nosuch():i64) => a:i64]", "Read:Virtual[(1), filter=nosuch():i64 => a:i64]", "Read:Virtual[(1:i8, 'x':date) => a:i8, b:date]", "Read:Virtual[(1) => a:i64, b:nosuchtype?]",
    "ExtensionLeaf:ExtRel[nosuch():i64]", "ExtensionLeaf:ExtRel[a=nosuch():i64]", "ExtensionLeaf:ExtRel[_ => a:nosuchtype]", "ExtensionLeaf:ExtRel[(1, 300:i8)]", "Read[t => a:i64, b:list<nosuchtype>]",
];
const BAD_SINGLE: &[&str] = &[
    "Filter[ => $0]", "Filter[true]", "Filter[]", "Filter[true, true => $0]", "Filter[true => true]", "Filter[true => a]", "Filter[true => a:i64]", "Filter[true => $0 $1]", "Filter[true => $]",
    "Filter[true => $a]", "Filter[true => $0 => $0]", "Filter[_ => $0]", "Filter[nosuch($0):i64 => $0]", "Filter['x':date => $0]", "Filter[300:i8 => $0]", "Filter[true => $0", "Filter true => $0]",
    "Filter[null => $0]", "Filter[($0) => $0]", "Filter[if_then(true -> 1) => $0]", "Filter[if_then(_ -> 1) => $0]", "Filter[if_then(true -> 1, _ -> 2, _ -> 3) => $0]", "Filter[if_then(true, 1, _ -> 2) => $0]",
    "Filter[cond=true => $0]", "Filter [true => $0]", "Project[$0 $1]", "Project[$0 => $0]", "Project[a]", "Project[$0,, $1]", "Project[,$0]", "Project[_]", "Project", "Project[$0", "Aggregate[]",
    "Aggregate[$0]", "Aggregate[ => $0]", "Aggregate[$0, => $0]", "Aggregate[($0), $0 => $0]", "Aggregate[($0 => $0]", "Aggregate[() => $0]", "Aggregate[$0 => a]", "Aggregate[_ => _]",
    "Aggregate[_, $0 => $0]", "Sort[$0 => $0]", "Sort[($0) => $0]", "Sort[($0, AscNullsFirst) => $0]", "Sort[($0, &Asc) => $0]", "Sort[($0, &AscNullsFirst), => $0]", "Sort[(, &AscNullsFirst) => $0]",
    "Sort[($0, &AscNullsFirst)]", "Sort[($0, &AscNullsFirst, &AscNullsLast) => $0]", "Sort[($0, &ascnullsfirst) => $0]", "Sort[_, _ => $0]", "Fetch[ => $0]", "Fetch[10 => $0]", "Fetch[limit=1]",
    "Fetch[limit=1, limit=2 => $0]", "Fetch[offset=1, offset=1 => $0]", "Fetch[limit=1, offset=2, limit=3 => $0]", "Fetch[limit=-1 => $0]", "Fetch[offset=-5 => $0]", "Fetch[limit=-2 => $0]", "Fetch[offset=-1 => $0]", "Fetch[limit=1, offset=-1 => $0]", "Fetch[offset=-9223372036854775808 => $0]", "Fetch[offset=1, limit=-3 => $0]", "Fetch[count=1 => $0]",
    "Fetch[limit= => $0]", "Fetch[limit=1 offset=2 => $0]", "Fetch[Limit=1 => $0]", "Fetch[_, limit=1 => $0]", "Fetch[limit=1, _ => $0]", "Fetch[limit=99999999999999999999 => $0]",
    "Project[$0, nosuch($0):i64]", "Project[($0)::nosuchtype]", "Project[null:nosuchtype]", "Aggregate[nosuch($0):i64 => $0]", "Aggregate[$0 => $0, nosuch($0):i64]", "Aggregate[($0), (nosuch($0):i64) => $0]",
    "Sort[(nosuch($0):i64, &AscNullsLast) => $0]", "Fetch[limit=nosuch():i64 => $0]", "Fetch[limit=1, offset='x':date => $0]", "Filter[if_then(true -> nosuch():i64, _ -> 1) => $0]",
    "ExtensionSingle:NoSuchExtension[_]", "ExtensionSingle[_]", "ExtensionSingle:ExtRel[a=1, b=2, a=3]",
];
const BAD_TWO: &[&str] = &[
    "Join[true => $0]", "Join[&Inner => $0]", "Join[&Inner, => $0]", "Join[&Inner, true]", "Join[Inner, true => $0]", "Join[&inner, true => $0]", "Join[&Full, true => $0]", "Join[&Unspecified, true => $0]",
    "Join[&Inner2, true => $0]", "Join[&Inner, true, true => $0]", "Join[&Inner, true, filter=true => $0]", "Join[&Inner, true, post_filter=true, post_filter=true => $0]",
    "Join[&Inner, post_filter=true => $0]", "Join[&Inner, post_filter=true, true => $0]", "Join[true, &Inner => $0]", "Join[&Inner, &Left, true => $0]", "Join[&Inner, true => a:i64]", "Join[]", "Join[&Inner true => $0]",
    "Join[&Inner, nosuch():i64 => $0]", "Join[&LeftSemi, true, post_filter=nosuch():i64 => $0]", "Cross[_ => $0]", "Cross[a]", "Cross[$0 $1]", "Cross[&Inner => $0]", "Cross[ => $0]", "Cross[true]", "Cross", "Cross[$0,]",
];
const BAD_SET: &[&str] = &[
    "Set[&Union => $0]", "Set[UnionAll => $0]", "Set[&unionall => $0]", "Set[&Unspecified => $0]", "Set[ => $0]", "Set[&UnionAll]", "Set[&UnionAll, &UnionAll => $0]", "Set[&UnionAll, true => $0]",
    "Set[&UnionAll2 => $0]", "Set[&UnionAll => a:i64]", "Set[$0 => $0]", "Set[]",
];
const BAD_ROOT: &[&str] = &["Root[a:i64]", "Root[$0]", "Root[a b]", "Root[a,]", "Root[,]", "Root[_ => a]", "Root", "root[a]", "Root[a", "Root a]", "Root['a']", "Root[1]", "Root[a => b]", "Root(a)"];
const BAD_ADD: &[&str] = &[
    "+ Enh:NoSuchExtension[_]", "+ Opt:NoSuchExtension[_]", "+ Enh[_]", "+ Enh:[_]", "+ Enh:EnhOne", "+ Enh:EnhOne[", "+ Enh:EnhOne[1,]", "+ Enh:EnhOne[a=1, a=2]", "+ Enh:EnhOne[a=1, 2]", "+ Bad:EnhOne[_]",
    "+ enh:EnhOne[_]", "+ Opt:EnhOne[_]", "+ Enh:OptOne[_]", "+ Enh:EnhOne[_ => a:i64]", "+ Enh:EnhOne[1 => $0]", "+ Opt:OptOne[_, 1]", "+ Opt:OptOne[1, _]", "+ EnhOne[_]", "+", "+ ",
    "Enh:EnhOne[_]", "++ Enh:EnhOne[_]", "+ Opt:OptOne[nosuch($0):i64]", "+ Opt:OptOne[300:i8]", "+ Enh:EnhOne[a=nosuch():i64]", "+ Opt:OptOne[a=('x':date, 1)]", "+ Opt:OptOne[_] + Opt:OptOne[_]",
];
const UNKNOWN_REL: &[&str] = &["Scan", "read", "FILTER", "Filters", "Projection", "Window", "Expand", "Filter ", "Readx", "", "Extension", "ReadExtension", "Exchange", "HashJoin", "fetch", "Limit", "Root2", "=== Read"];
const HEADERS: &[&str] = &["=== Foo", "=== plan", "=== PLAN", "===", "=== ", "=== Plans", "===Plan", "==== Plan", "=== Extension", "=== Extensions:", "=== Plan:", "=== Plan x", "== Plan =="];

/// Put one fault into a well-formed document.
fn corrupt(g: &mut Gen, d: &mut Doc) -> Option<&'static str> {
    let header = d.plan_header();
    let read = |depth: usize| Chunk::new(Read, depth, READ);
    let simple_add = |g: &mut Gen, depth: usize| {
        let (k, b) = g.choose(&[(Enh, "+ Enh:EnhOne[_]"), (Opt, "+ Opt:OptOne[_]"), (Opt, "+ Opt:ExtRel[1]")]);
        Chunk::new(k, depth, b)
    };
    Some(match g.usize(33) {
        0 => {
            let i = d.find(g, |i, c| c.kind.relation() && (c.kind.arity().is_some_and(|a| a > 0) || (c.kind == Set && d.children(i).len() == 2)))?;
            let kids = d.children(i);
            let k = kids[g.usize(kids.len())];
            d.chunks.drain(k..d.end(k));
            d.chunks[i].bad = true;
            "input missing"
        }
        1 => {
            let i = d.find(g, |_, c| c.kind.arity().is_some())?;
            let at = if g.bool() { d.after_addenda(i) } else { d.end(i) };
            let depth = d.chunks[i].depth + 1;
            for _ in 0..g.choose(&[1, 1, 1, 2, 3]) {
                let mut r = read(depth);
                if g.chance(1, 3) {
                    // Without columns.
                    r = Chunk::new(ExtLeaf, depth, "ExtensionLeaf:ExtRel[_]");
                }
                r.bad = true;
                d.insert(at, r);
            }
            d.chunks[i].bad = true;
            "input too many"
        }
        2 => {
            // All but the last child of a set.
            let i = d.find(g, |_, c| c.kind == Set)?;
            let kids = d.children(i);
            d.chunks.drain(kids[1]..d.end(i));
            d.chunks[i].bad = true;
            "set of one input"
        }
        3 | 4 => {
            let i = d.find(g, |i, c| c.kind.relation() && d.children(i).len() + d.addenda(i).len() > 0)?;
            let first = i + 1;
            let end = if d.chunks[first].kind.addendum() { first + 1 } else { d.end(first) };
            let by = g.range(1, 3);
            for c in &mut d.chunks[first..end] {
                c.set_depth(c.depth + by);
            }
            d.chunks[first].bad = true;
            "indentation skips a level"
        }
        5 => {
            let first = header + 1;
            if first >= d.chunks.len() {
                return None;
            }
            let end = d.end(first);
            let by = g.range(1, 2);
            for c in &mut d.chunks[first..end] {
                c.set_depth(c.depth + by);
            }
            d.chunks[first].bad = true;
            "first relation indented"
        }
        6 => {
            let i = d.find(g, |i, _| i > header)?;
            let pad = d.chunks[i].pad.clone();
            d.chunks[i].pad = match g.usize(4) {
                0 => format!("{pad} "),
                1 => format!("{pad}\t"),
                2 if !pad.is_empty() => format!("{} ", &pad[2..]),
                2 => "\u{feff}".into(),
                _ if !pad.is_empty() => "\t".repeat(pad.len() / 2),
                _ => "\u{a0}".into(),
            };
            d.chunks[i].bad = true;
            "odd indentation"
        }
        7 => {
            let i = d.find(g, |i, c| c.kind.relation() && i > header && c.depth == 0)?;
            let at = g.choose(&[i, d.end(i)]);
            let mut a = simple_add(g, 0);
            if g.chance(1, 3) {
                a.body = "+ Ext:TableExt[_]".into();
            }
            d.insert(at, a.bad());
            "addendum at the top level"
        }
        8 => {
            let i = d.find(g, |i, c| c.kind.relation() && c.kind != Root && !c.kind.extension() && !d.children(i).is_empty())?;
            let depth = d.chunks[i].depth + 1;
            let kids = d.children(i);
            let at = d.end(kids[g.usize(kids.len())]);
            let a = simple_add(g, depth);
            d.insert(at, a.bad());
            "addendum after an input"
        }
        9 => {
            let i = d.find(g, |_, c| c.kind == Root || c.kind.extension())?;
            let depth = d.chunks[i].depth + 1;
            let mut a = simple_add(g, depth);
            if g.chance(1, 3) {
                a.body = "+ Ext:TableExt[_]".into();
            }
            d.insert(i + 1, a.bad());
            "addendum where none is allowed"
        }
        10 => {
            let i = d.find(g, |_, c| c.kind.relation() && c.kind != ReadExt)?;
            let depth = d.chunks[i].depth + 1;
            let b = g.pick(&["+ Ext:TableExt[_]", "+ Ext:EnhOne[1]"]);
            let at = g.range(i + 1, d.after_addenda(i));
            d.insert(at, Chunk::new(Ext, depth, b).bad());
            "table detail on another relation"
        }
        11 => {
            let i = d.find(g, |_, c| c.kind == ReadExt)?;
            let a: Vec<usize> = d.addenda(i);
            let e = *a.iter().find(|&&j| d.chunks[j].kind == Ext)?;
            if g.bool() {
                d.chunks.remove(e);
                d.chunks[i].bad = true;
                "table detail missing"
            } else {
                let mut x = d.chunks[e].clone();
                if g.bool() {
                    x.body = "+ Ext:TableExt[_]".into();
                }
                let at = g.choose(&[e, e + 1, i + 1, i + 1 + a.len()]);
                d.insert(at, x);
                for j in d.addenda(i) {
                    if d.chunks[j].kind == Ext {
                        d.chunks[j].bad = true;
                    }
                }
                "two table details"
            }
        }
        12 => {
            let i = d.find(g, |_, c| c.kind == Enh)?;
            let mut x = d.chunks[i].clone();
            if g.bool() {
                x.body = "+ Enh:EnhOne[_]".into();
            }
            d.chunks[i].bad = true;
            // Anywhere among the addenda of the same relation.
            let mut lo = i;
            while d.chunks[lo - 1].kind.addendum() {
                lo -= 1;
            }
            let mut hi = i;
            while hi < d.chunks.len() && d.chunks[hi].kind.addendum() {
                hi += 1;
            }
            let at = lo + g.usize(hi - lo + 1);
            d.insert(at, x.bad());
            "two enhancements"
        }
        13 => {
            let i = d.find(g, |i, c| i > header && c.more.is_empty())?;
            let pad = "  ".repeat(d.chunks[i].depth + 1);
            let m = g.pick(&["- (1)", "- => a:i64]", "- x", "- $0]", "- "]);
            d.chunks[i].more.push(format!("{pad}{m}"));
            d.chunks[i].bad = true;
            "stray continuation line"
        }
        14 => {
            let i = d.find(g, |_, c| !c.more.is_empty())?;
            let k = g.usize(d.chunks[i].more.len());
            let m = d.chunks[i].more[k].clone();
            let body = m.trim_start().to_string();
            let pad = m.len() - body.len();
            d.chunks[i].more[k] = match g.usize(6) {
                5 => format!("{}{}", " ".repeat(pad), body.replacen("- ", g.pick(&["-", "-\t", "--", "--- "]), 1)),
                0 => format!("{}{body}", " ".repeat(pad + g.choose(&[1, 2, 3, 4]))),
                1 => format!("{}{body}", " ".repeat(pad - g.choose(&[1, 2]))),
                2 => format!("\n{m}"),
                3 => format!("{}{}", " ".repeat(pad), body.trim_start_matches("- ")),
                _ => format!("{}+{}", " ".repeat(pad), &body[1..]),
            };
            d.chunks[i].bad = true;
            "broken continuation line"
        }
        15 => {
            let i = d.find(g, |_, c| !c.more.is_empty())?;
            let n = d.chunks[i].more.len();
            if g.bool() {
                // The last line goes: no output columns.
                d.chunks[i].more.pop();
            } else {
                let k = g.usize(n);
                let m = d.chunks[i].more[k].clone();
                d.chunks[i].more[k] = match m.strip_suffix(',') {
                    Some(x) => x.to_string(),
                    None => format!("{m},"),
                };
            }
            d.chunks[i].bad = true;
            "continued table incomplete"
        }
        16 => {
            let i = d.find(g, |_, c| c.kind.relation())?;
            let c = &mut d.chunks[i];
            let name = c.name().to_string();
            let rest = c.body[name.len()..].to_string();
            let new = g.pick(UNKNOWN_REL);
            c.body = format!("{new}{rest}");
            if c.body.starts_with("Extension") && rest.starts_with(':') && new != "Extension" {
                return None;
            }
            c.bad = true;
            "unknown relation"
        }
        17 => {
            let i = d.find(g, |i, c| c.kind.relation() && c.depth > 0 && d.children(i).len() <= 1)?;
            d.chunks[i].body = g.pick(&["Root[a]", "Root[]", "Root[a, b]"]).to_string();
            d.chunks[i].more.clear();
            d.chunks[i].bad = true;
            "root below the top"
        }
        18 => {
            let at = g.range(0, d.chunks.len());
            let h = g.pick(HEADERS);
            d.insert(at, Chunk::new(Head, 0, h).bad());
            "unknown section"
        }
        19 => {
            let h = d.find(g, |i, c| i <= header && c.body.starts_with("==="))?;
            let x = d.chunks[h].clone();
            let at = g.range(h + 1, d.chunks.len());
            d.insert(at, x.bad());
            "section repeated"
        }
        20 => {
            // An earlier section after a later one.
            let (h, lo) = match g.usize(3) {
                0 => ("=== Version 0.1.0", d.chunks.iter().position(|c| c.body == "=== Extensions").unwrap_or(header)),
                1 => ("=== Version 1.2.3", header),
                _ => ("=== Extensions", header),
            };
            let at = g.range(lo + 1, d.chunks.len());
            d.insert(at, Chunk::new(Head, 0, h).bad());
            "section out of order"
        }
        21 => {
            if header + 1 >= d.chunks.len() {
                return None;
            }
            let mut x = d.chunks.remove(header);
            match g.usize(3) {
                0 => {}
                1 => {
                    x.pad = g.pick(&[" ", "  ", "\t"]).into();
                    x.bad = true;
                    d.insert(header, x);
                    return Some("plan header indented");
                }
                _ => {
                    // After the relations instead of before them.
                    d.chunks.push(x);
                }
            }
            d.chunks[header].bad = true;
            "plan header missing"
        }
        22 => {
            let b = g.pick(&[READ, "URNs:", "x", "// comment", "Root[a]", "  Root[a]", "Functions:", "producer: x", "- x", "+ Enh:EnhOne[_]"]);
            d.insert(0, Chunk::new(Head, 0, b).bad());
            "text before the first section"
        }
        23 | 24 => {
            let i = d.find(g, |i, _| i > header)?;
            let body = match d.chunks[i].kind {
                Root => g.pick(BAD_ROOT),
                Read | ReadExt | Virtual | ExtLeaf => g.pick(BAD_LEAF),
                Single | ExtSingle => g.pick(BAD_SINGLE),
                Two => g.pick(BAD_TWO),
                Set => g.pick(BAD_SET),
                Enh | Opt => g.pick(BAD_ADD),
                Ext => g.pick(&["+ Ext:NoSuchExtension[_]", "+ Ext[_]", "+ Ext:OptOne[_]", "+ Ext:TableExt[a=1, a=1]", "+ Ext:TableExt[_ => a:i64]", "+ ext:TableExt[_]", "Ext:TableExt[_]", "+ Ext:TableExt[1 => a:i64]"]),
                _ => return None,
            };
            // A line that is no addendum is reported, or the relation it leaves without detail.
            if d.chunks[i].kind.relation() && (d.chunks[i].kind == ReadExt || body.starts_with("Extension")) {
                d.chunks.drain(i + 1..d.after_addenda(i));
            }
            d.chunks[i].body = body.to_string();
            d.chunks[i].more.clear();
            d.chunks[i].bad = true;
            "malformed relation"
        }
        25 => {
            let i = d.find(g, |i, c| i > header && c.more.is_empty())?;
            let b = d.chunks[i].body.clone();
            let v: Vec<usize> = outside(&b).into_iter().filter(|&k| "[]()".contains(&b[k..k + 1])).collect();
            let k = v[g.usize(v.len())];
            d.chunks[i].body = if g.bool() { format!("{}{}", &b[..k], &b[k + 1..]) } else { format!("{}{}", &b[..=k], &b[k..]) };
            d.chunks[i].bad = true;
            "unbalanced brackets"
        }
        26 => {
            let i = d.find(g, |i, c| i > header && c.more.is_empty())?;
            let b = &d.chunks[i].body;
            let cuts: Vec<usize> = b.char_indices().map(|(k, _)| k).filter(|&k| k > 0).collect();
            let k = cuts[g.usize(cuts.len())];
            d.chunks[i].body = b[..k].to_string();
            d.chunks[i].bad = true;
            "line cut short"
        }
        27 => {
            let i = d.find(g, |i, _| i > header)?;
            let t = g.pick(&[" x", "]", " ]", "x", " $0", ";", " /", " / note", " # c", ",", " -- c", " => $0", " [a]", " Read[t => a:i64]", " 'x'", ")", " + Enh:EnhOne[_]", "\u{b}x", ":i64", " :", "?"]);
            let c = &mut d.chunks[i];
            match c.more.last_mut() {
                Some(m) => m.push_str(t),
                None => c.body.push_str(t),
            }
            c.bad = true;
            "text after the end"
        }
        28 => {
            let i = d.find(g, |_, c| c.kind == Set)?;
            let depth = d.chunks[i].depth + 1;
            let kids = d.children(i);
            // More columns than any generated input.
            let n = 40;
            let cols: Vec<String> = (0..n).map(|k| format!("c{k}:i64")).collect();
            let at = g.choose(&[kids[0], d.end(i), kids[1]]);
            d.insert(at, Chunk::new(Read, depth, format!("Read[wide => {}]", cols.join(", "))));
            d.chunks[i].bad = true;
            "set inputs of different widths"
        }
        30 => {
            // A projection cannot refer to its own expressions.
            let i = d.find(g, |_, c| c.kind == Single)?;
            d.chunks.drain(i + 1..d.end(i));
            let (w, n) = (g.range(1, 5), g.range(1, 4));
            let mut args: Vec<String> = (0..n).map(|_| g.pick(&["1", "'a'", "$0::string", "true"]).to_string()).map(|e| e.replace("$0::", "($0)::")).collect();
            let k = g.range(w, w + n - 1);
            let at = g.range(0, n);
            args.insert(at, format!("${k}"));
            if g.bool() {
                args.insert(0, "$0".into());
            }
            let c = &mut d.chunks[i];
            c.body = format!("Project[{}]", args.join(", "));
            c.bad = true;
            let depth = c.depth + 1;
            let cols: Vec<String> = (0..w).map(|k| format!("c{k}:i64")).collect();
            d.insert(i + 1, Chunk::new(Read, depth, format!("Read[zz => {}]", cols.join(", "))));
            "projection of its own expression"
        }
        31 => {
            // Tabs do not indent.
            let i = d.find(g, |i, c| i > header && !c.pad.is_empty())?;
            let pad = d.chunks[i].pad.clone();
            let k = g.usize(pad.len() / 2) * 2;
            d.chunks[i].pad = match g.usize(3) {
                0 => format!("{}\t\t{}", &pad[..k], &pad[k + 2..]),
                1 => format!("{}\t{}", &pad[..k], &pad[k + 2..]),
                _ => format!("{} \t{}", &pad[..k], &pad[k + 2..]),
            };
            d.chunks[i].bad = true;
            "tab in the indentation"
        }
        29 => {
            let i = d.find(g, |i, c| i > header && c.more.is_empty() && matches!(c.kind, Read | Virtual | Single | Two | Set) && last_outside(&c.body, "=>").is_some())?;
            let b = d.chunks[i].body.clone();
            let k = last_outside(&b, "=>").unwrap();
            let new = g.pick(&["", "->", "= >", "=", ">", "=> =>", "==>", "=>>", "|>", ", =>", "=> ,", "=> _,"]);
            d.chunks[i].body = format!("{}{new}{}", &b[..k], &b[k + 2..]);
            d.chunks[i].bad = true;
            "broken arrow"
        }
        _ => {
            let i = d.find(g, |i, c| i > header && c.more.is_empty())?;
            let b = d.chunks[i].body.clone();
            let k = b.rfind(']').unwrap();
            let x = g.pick(&[",", " ,", ",,", ", _"]);
            if x == ", _" && b[..k].ends_with('[') {
                return None;
            }
            d.chunks[i].body = format!("{}{x}]", &b[..k]);
            d.chunks[i].bad = true;
            "dangling comma"
        }
    })
}

fn doc(c: &mut Case) -> Result<Doc, Fail> {
    let cfg = Cfg { rel_depth: 3, expr_depth: 1, ..small() };
    let plan = model::plan(&mut c.g, &cfg);
    let text = render::canonical(&plan);
    let d = Doc::of(&text);
    // The document view must be faithful.
    if must_parse(&d.text())? != must_parse(&text)? {
        panic!("document view differs:\n{text}\n{}", d.text());
    }
    Ok(d)
}

fn p21(c: &mut Case) -> R {
    let mut d = doc(c)?;
    let before = d.text();
    let mut class = None;
    for _ in 0..4 {
        class = corrupt(&mut c.g, &mut d);
        if class.is_some() {
            break;
        }
        if d.text() != before {
            return Ok(());
        }
    }
    let Some(class) = class else { return Ok(()) };
    c.label(class);
    c.nontrivial = true;
    let text = d.text();
    c.show(&text);
    ensure!(parse(&text)?.is_err(), "structural fault accepted", "{class}\n{text}");
    Ok(())
}

pub const P21: Prop = Prop {
    id: "P21",
    quick: 100_000,
    thorough: 1_500_000,
    f: p21,
    rule: "a well-formed text with one structural fault of a class that is wrong by the documentation",
    assumptions: &[],
    known: &[],
};

// --- P22 ---------------------------------------------------------------------

fn location(e: &ParseError) -> Option<(i64, &str)> {
    let ctx = match e {
        ParseError::Extension(c, _) => c,
        ParseError::ExtensionDetail(c, _) => c,
        ParseError::Plan(c, _) => c,
        ParseError::Expected { context, .. } => context,
        ParseError::UnregisteredExtension { context, .. } => context,
        ParseError::RelationParse(c, _) => c,
        ParseError::ValidationError(c, _) => c,
        ParseError::Initial(c, _) => c,
        ParseError::Relation(c, _) => c,
        _ => return None,
    };
    Some((ctx.line_no, &ctx.line))
}

/// A fault in a declaration or version line.
fn corrupt_head(g: &mut Gen, d: &mut Doc) -> Option<&'static str> {
    let header = d.plan_header();
    let i = d.find(g, |i, c| i < header && !c.body.is_empty())?;
    let b = d.chunks[i].body.clone();
    let c = &mut d.chunks[i];
    c.bad = true;
    if b.starts_with("=== Version") {
        c.body = g.pick(&["=== Version 1.2", "=== Version 1.2.x", "=== Version", "=== Version 1.2.3.4", "=== Version 99999999999.0.0"]).to_string();
        return Some("version header");
    }
    if b.starts_with("producer:") || b.starts_with("git_hash:") {
        c.body = g.pick(&["producer", "author: x", "x"]).to_string();
        return Some("version field");
    }
    if b.starts_with("===") {
        c.body = g.pick(&["=== Extension", "=== extensions", "=== Extensions x"]).to_string();
        return Some("section header");
    }
    if c.depth == 0 {
        c.body = g.pick(&["URN:", "Function", "functions:", "Types", "Variations:", "x", "Functions: x"]).to_string();
        return Some("subsection header");
    }
    c.body = if b.starts_with('@') {
        g.pick(&["@ x: urn", "@ 1 urn", "1: urn", "@ 99999999999: urn", "# 1 @ 1: f", "@ 1:", "@", "@ -1: urn"]).to_string()
    } else {
        g.pick(&["# x @ 1: f", "# 1 @ x: f", "# 1: f", "# 1 @ 4294967290: f", "@ 1: urn", "# 99999999999 @ 1: f", "# 1 @ 1:", "f", "# 1 @ 1: f g h", "#"]).to_string()
    };
    Some("declaration")
}

fn p22(c: &mut Case) -> R {
    let mut d = doc(c)?;
    let before = d.text();
    let mut class = None;
    for _ in 0..4 {
        class = if c.g.chance(1, 5) { corrupt_head(&mut c.g, &mut d) } else { corrupt(&mut c.g, &mut d) };
        if class.is_some() {
            break;
        }
        if d.text() != before {
            return Ok(());
        }
    }
    let Some(class) = class else { return Ok(()) };
    let (text, bad) = d.noisy(&mut c.g);
    c.label(class);
    c.show(&text);
    let Err(e) = parse(&text)? else { fail!("fault accepted", "{class}\n{text}") };
    let shown = e.to_string();
    let Some((line_no, quoted)) = location(&e) else { fail!("error without a location", "{class}: {shown}\n{text}") };
    c.nontrivial = bad.iter().any(|b| b.0 > 1);
    let hit = bad.iter().find(|b| (b.0 as i64..=b.1 as i64).contains(&line_no));
    let Some(&(first, last)) = hit else {
        fail!("error names another line", "{class}: line {line_no}, expected one of {bad:?}: {shown}\n{text}");
    };
    let lines: Vec<&str> = text.split('\n').collect();
    let chunk = lines[first - 1..last].join("\n");
    let q = quoted.trim();
    let q0 = q.lines().next().unwrap_or("").trim();
    let l = lines[line_no as usize - 1].trim();
    ensure!(!q.is_empty() && (chunk.contains(q0) || q.contains(l)), "error quotes another line", "{class}: {quoted:?}, expected line {line_no}, {l:?}\n{text}");
    ensure!(q.contains(l) || l.contains(q0), "error quotes another line", "{class}: {quoted:?}, expected line {line_no}, {l:?}\n{text}");
    // As a user sees it.
    let at = format!("line {line_no}");
    let named = shown.match_indices(&at).any(|(i, _)| !shown[i + at.len()..].starts_with(|c: char| c.is_ascii_digit()));
    ensure!(named, "the message does not name the line", "{class}: expected line {line_no}\n{shown}\n{text}");
    ensure!(shown.contains(q), "the message does not quote the line", "{class}: expected {q:?}\n{shown}\n{text}");
    Ok(())
}

pub const P22: Prop = Prop {
    id: "P22",
    quick: 90_000,
    thorough: 1_200_000,
    f: p22,
    rule: "a text with one faulty line that is not the first line",
    assumptions: &["in a table continued over several lines the error may name any line of it", "where a relation has an input too many, the error may name the relation or the input"],
    known: &[],
};
