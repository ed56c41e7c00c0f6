//! Data of the reference model: what a source denotes, independent of the implementation's types.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K { Sym, Num, Str, Raw }

/// Place in a file; `NOWHERE` for nodes which were made rather than read.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Pos { pub file: u32, pub off: u32, pub len: u32, pub line: u32 }
pub const NOWHERE: Pos = Pos { file: u32::MAX, off: 0, len: MADE, line: 0 };
/// Flag in `len` of nodes which a macro made (their place is that of the call).
pub const MADE: u32 = 1 << 31;
impl Pos {
    pub fn made(mut self) -> Pos { self.len |= MADE; self }
    pub fn is_made(&self) -> bool { self.len & MADE != 0 }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Atom { k: K, v: String, ws: String, pos: Pos },
    List { items: Vec<N>, ws: String, pos: Pos, end_ws: String, end: Pos },
    Attr { kw: String, val: Box<N>, ws: String, pos: Pos },
}

/// Why there is no result.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    /// An error, at a known place or just anywhere.
    Err(Option<Pos>),
    /// The specification is silent.
    Unspec(&'static str),
}

pub type R<T> = Result<T, Bad>;
pub fn err<T>() -> R<T> { Err(Bad::Err(None)) }
pub fn err_at<T>(p: Pos) -> R<T> { Err(Bad::Err(Some(p))) }
pub fn unspec<T>(why: &'static str) -> R<T> { Err(Bad::Unspec(why)) }

/// Known findings: recorded defects of the implementation, which the model can imitate.
#[derive(Default)]
pub struct Quirks { pub imitate: std::cell::Cell<bool>, pub met: std::cell::Cell<Option<&'static str>> }
impl Quirks {
    /// Whether to do what is known to go wrong here.
    pub fn known(&self, id: &'static str) -> bool { self.met.set(Some(id)); self.imitate.get() }
}

impl N {
    pub fn atom(k: K, v: impl Into<String>, ws: impl Into<String>) -> N { N::Atom { k, v: v.into(), ws: ws.into(), pos: NOWHERE } }
    pub fn list(items: Vec<N>, ws: impl Into<String>) -> N { N::List { items, ws: ws.into(), pos: NOWHERE, end_ws: String::new(), end: NOWHERE } }
    pub fn attr(kw: impl Into<String>, val: N, ws: impl Into<String>) -> N { N::Attr { kw: kw.into(), val: Box::new(val), ws: ws.into(), pos: NOWHERE } }
    pub fn at(mut self, p: Pos) -> N { match &mut self { N::Atom { pos, .. } | N::List { pos, .. } | N::Attr { pos, .. } => *pos = p.made() } self }
    pub fn ws(&self) -> &str { match self { N::Atom { ws, .. } | N::List { ws, .. } | N::Attr { ws, .. } => ws } }
    pub fn set_ws(&mut self, w: &str) { match self { N::Atom { ws, .. } | N::List { ws, .. } | N::Attr { ws, .. } => *ws = w.into() } }
    pub fn pos(&self) -> Pos { match self { N::Atom { pos, .. } | N::List { pos, .. } | N::Attr { pos, .. } => *pos } }
    /// The text of a literal.
    pub fn lit(&self) -> Option<&str> { match self { N::Atom { v, .. } => Some(v), _ => None } }
    pub fn is(&self, kind: K) -> bool { matches!(self, N::Atom { k, .. } if *k == kind) }
    pub fn sym(&self) -> Option<&str> { if self.is(K::Sym) { self.lit() } else { None } }
    pub fn items(&self) -> Option<&[N]> { match self { N::List { items, .. } => Some(items), _ => None } }

    /// Equality of what nodes denote, without whitespace and places (as literal patterns compare).
    pub fn same(&self, o: &N) -> bool {
        match (self, o) {
            (N::Atom { k, v, .. }, N::Atom { k: k2, v: v2, .. }) => k == k2 && v == v2,
            (N::List { items, .. }, N::List { items: i2, .. }) => items.len() == i2.len() && items.iter().zip(i2).all(|(a, b)| a.same(b)),
            (N::Attr { kw, val, .. }, N::Attr { kw: k2, val: v2, .. }) => kw == k2 && val.same(v2),
            _ => false,
        }
    }

    /// Complete description, for comparison and hashing.
    pub fn show(&self, out: &mut String) {
        use std::fmt::Write;
        match self {
            N::Atom { k, v, ws, .. } => { let _ = write!(out, "{:?}{:?}{:?} ", k, ws, v); }
            N::List { items, ws, end_ws, .. } => {
                let _ = write!(out, "{:?}( ", ws);
                for i in items { i.show(out) }
                let _ = write!(out, "{:?}) ", end_ws);
            }
            N::Attr { kw, val, ws, .. } => { let _ = write!(out, "{:?}:{:?}=", ws, kw); val.show(out); }
        }
    }
}

pub fn show(tree: &[N]) -> String { let mut s = String::new(); for n in tree { n.show(&mut s) } s }
