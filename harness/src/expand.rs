//! Reference expander: what macro calls denote. Scopes are maps that calls copy.
use crate::model::*;
use crate::{calendar, format, globber, reader};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Mac { params: Vec<N>, body: Vec<N> }

/// Structured data which a text given to a data macro is known to denote.
#[derive(Clone, Debug, PartialEq)]
pub enum Data { Str(String), Num(String), Sym(String), Seq(Vec<Data>), Map(Vec<(String, Data)>) }

/// What a data text denotes. `docs`: several YAML documents; None: an error.
pub type Meaning = Option<Vec<Data>>;

#[derive(Clone, Debug)]
pub struct Markdown { pub front: Option<(Lang, Meaning)>, pub html: String }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lang { Yaml, Toml }

#[derive(Default)]
pub struct World {
    /// Include directories after the working directory.
    pub dirs: Vec<String>,
    /// Name and text of the files that were read; the first is the main source.
    pub files: RefCell<Vec<(String, String)>>,
    pub data: HashMap<(Lang, String), Meaning>,
    pub markdown: HashMap<String, Markdown>,
    pub quirks: Quirks,
    /// The order in which %glob lists paths does not matter to this source.
    pub any_order: bool,
    /// Where an included file could not be read.
    pub inner: std::cell::Cell<Option<Pos>>,
    depth: RefCell<u32>,
    visited: RefCell<u32>,
}

impl World {
    /// More nodes than these mean that an expansion does not end.
    fn limit(&self) -> u32 { self.files.borrow().first().map_or(0, |f| f.1.len() as u32 * 8).max(20000) }
    pub fn main(name: &str, src: &str) -> World { let w = World::default(); w.files.borrow_mut().push((name.into(), src.into())); w }
}

pub struct Scope<'w> { world: &'w World, defs: RefCell<HashMap<String, Rc<Mac>>> }

#[derive(Clone, Copy, PartialEq)]
enum Ty { Lit, Str, Sym, Num, List, Any }
use Ty::*;

fn accepts(ty: Ty, n: &N) -> bool {
    match n {
        N::Atom { k, .. } => match ty { Lit | Any => true, Str => matches!(k, K::Str | K::Raw), Sym => *k == K::Sym, Num => *k == K::Num, List => false },
        N::List { .. } => matches!(ty, List | Any),
        N::Attr { .. } => ty == Any,
    }
}

struct Sig { need: usize, at: &'static [Ty], opts: &'static [(&'static str, Ty, &'static [&'static str])], rest: Option<Ty> }
struct Args { at: Vec<N>, opt: HashMap<&'static str, N>, rest: Vec<N> }

impl Args { fn opt(&self, k: &str) -> Option<&str> { self.opt.get(k).and_then(|n| n.lit()) } }

fn sig(need: usize, at: &'static [Ty], opts: &'static [(&'static str, Ty, &'static [&'static str])], rest: Option<Ty>) -> Sig { Sig { need, at, opts, rest } }

const ANY_VALUE: &[&str] = &[];
const SEP: (&str, Ty, &[&str]) = ("separator", Lit, ANY_VALUE);
const ORDER: (&str, Ty, &[&str]) = ("order", Lit, &["ascending", "descending"]);

fn take(s: &Sig, params: Vec<N>) -> R<Args> {
    let mut a = Args { at: vec![], opt: HashMap::new(), rest: vec![] };
    for p in params {
        if let N::Attr { kw, val, .. } = &p {
            if let Some((name, ty, allowed)) = s.opts.iter().find(|o| o.0 == kw.as_str()) {
                if !accepts(*ty, val) { return err() }
                if !allowed.is_empty() && !allowed.contains(&val.lit().unwrap()) { return err() }
                a.opt.insert(name, (**val).clone());
                continue;
            }
        } else if a.at.len() < s.at.len() {
            if !accepts(s.at[a.at.len()], &p) { return err() }
            a.at.push(p);
            continue;
        }
        match s.rest { Some(ty) if accepts(ty, &p) => a.rest.push(p), _ => return err() }
    }
    if a.at.len() < s.need { return err() }
    Ok(a)
}

pub fn lookup(dirs: &[String], name: &str, exts: &[&str]) -> Option<(String, String)> {
    for d in std::iter::once(".").chain(dirs.iter().map(|s| s.as_str())) {
        for e in exts {
            let p = if name.starts_with('/') { format!("{name}{e}") } else { format!("{}/{name}{e}", d.trim_end_matches('/')) };
            if let Ok(t) = std::fs::read(&p) { if let Ok(t) = String::from_utf8(t) { return Some((p, t)) } }
        }
    }
    None
}

impl<'w> Scope<'w> {
    pub fn new(world: &'w World) -> Self { Scope { world, defs: Default::default() } }
    fn sub(&self) -> Scope<'w> { Scope { world: self.world, defs: RefCell::new(self.defs.borrow().clone()) } }
    fn set(&self, name: impl Into<String>, params: Vec<N>, body: Vec<N>) { self.defs.borrow_mut().insert(name.into(), Rc::new(Mac { params, body })); }
    fn get(&self, name: &str) -> Option<Rc<Mac>> { self.defs.borrow().get(name).cloned() }

    pub fn nodes(&self, ns: &[N]) -> R<Vec<N>> {
        let mut out = vec![];
        for n in ns { out.extend(self.node(n)?) }
        Ok(out)
    }

    pub fn node(&self, n: &N) -> R<Vec<N>> {
        *self.world.visited.borrow_mut() += 1;
        if *self.world.visited.borrow() > self.world.limit() { return unspec("unbounded recursion") }
        match n {
            N::Atom { k: K::Sym, v, ws, pos } if v.starts_with('%') => {
                let Some(m) = self.get(&v[1..]) else { return err_at(*pos) };
                if !m.params.is_empty() { return err_at(*pos) }
                let mut out = self.deeper(|| self.nodes(&m.body))?;
                if let Some(f) = out.first_mut() { f.set_ws(ws) }
                Ok(out)
            }
            N::Atom { .. } => Ok(vec![n.clone()]),
            N::Attr { kw, val, ws, pos } => {
                let mut out = self.node(val)?;
                let Some(first) = out.first_mut() else { return err_at(*pos) };
                let val = Box::new(first.clone());
                *first = N::Attr { kw: kw.clone(), val, ws: ws.clone(), pos: *pos };
                Ok(out)
            }
            N::List { items, ws, pos, end_ws, end } => {
                if items.is_empty() { return Ok(vec![n.clone()]) }
                if let Some(name) = items[0].sym().and_then(|s| s.strip_prefix('%')) {
                    let mut params = items[1..].to_vec();
                    if let Some(p) = params.first_mut() { if !p.ws().contains('\n') { p.set_ws("") } }
                    return self.call(name, n, params);
                }
                Ok(vec![N::List { items: self.nodes(items)?, ws: ws.clone(), pos: *pos, end_ws: end_ws.clone(), end: *end }])
            }
        }
    }

    fn deeper<T>(&self, f: impl FnOnce() -> R<T>) -> R<T> {
        let d = *self.world.depth.borrow();
        if d > 60 { return unspec("unbounded recursion") }
        *self.world.depth.borrow_mut() = d + 1;
        let r = f();
        *self.world.depth.borrow_mut() = d;
        r
    }

    /// Bind a pattern to a value; false when it does not fit.
    fn bind(&self, pat: &N, val: &N) -> R<bool> {
        Ok(match (pat, val) {
            (N::Attr { kw, val: p, .. }, N::Attr { kw: k2, val: v, .. }) => kw == k2 && self.bind(p, v)?,
            (N::Attr { .. }, _) => false,
            (N::List { items, .. }, N::List { items: vals, .. }) => self.bind_list(items, vals)?,
            (N::List { .. }, _) => false,
            (N::Atom { k: K::Sym, v, .. }, _) => { self.set(v.clone(), vec![], vec![val.clone()]); true }
            (N::Atom { k: K::Num, v, .. }, N::Atom { k, v: w, .. }) => *k == K::Num && v == w,
            (N::Atom { k: K::Str | K::Raw, v, .. }, N::Atom { k, v: w, .. }) => matches!(k, K::Str | K::Raw) && v == w,
            (N::Atom { .. }, _) => false,
        })
    }

    fn bind_list(&self, pats: &[N], vals: &[N]) -> R<bool> {
        let (mut rest, mut kwrest) = (None, None);
        let mut named: Vec<(&str, &N)> = vec![];
        let mut fixed = vec![];
        for p in pats {
            match p {
                N::Attr { kw, val, .. } => { named.retain(|n| n.0 != kw); named.push((kw, val)) }
                N::Atom { k: K::Sym, v, .. } if v.starts_with("&&") => if kwrest.replace(&v[2..]).is_some() { return Ok(false) },
                N::Atom { k: K::Sym, v, .. } if v.starts_with('&') => if rest.replace(&v[1..]).is_some() { return Ok(false) },
                p => fixed.push(p),
            }
        }
        let positional: Vec<&N> = vals.iter().filter(|v| !matches!(v, N::Attr { .. })).collect();
        if positional.len() < fixed.len() { return Ok(false) }
        for (p, v) in fixed.iter().zip(&positional) { if !self.bind(p, v)? { return Ok(false) } }
        let extra = &positional[fixed.len()..];
        match rest {
            Some(name) => self.set(name, vec![], extra.iter().map(|n| (*n).clone()).collect()),
            None => if !extra.is_empty() { return Ok(false) },
        }
        let given = |kw: &str| vals.iter().rev().find_map(|v| match v { N::Attr { kw: k, val, .. } if k == kw => Some(&**val), _ => None });
        for (kw, default) in &named { self.set(*kw, vec![], vec![given(kw).unwrap_or(default).clone()]) }
        let mut others: Vec<&N> = vec![];
        for v in vals {
            let N::Attr { kw, .. } = v else { continue };
            if named.iter().any(|n| n.0 == kw) { continue }
            // Of repeated names the last one counts, in the place of the first.
            let last = vals.iter().rev().find(|w| matches!(w, N::Attr { kw: k, .. } if k == kw)).unwrap();
            if !others.iter().any(|o| std::ptr::eq(*o, last)) { others.push(last) }
        }
        match kwrest {
            Some(name) => self.set(name, vec![], others.into_iter().cloned().collect()),
            None => if !others.is_empty() { return Ok(false) },
        }
        Ok(true)
    }

    fn define(&self, name: String, params: Vec<N>, body: Vec<N>) -> R<()> {
        let starts = |p: &N, a: &str| p.sym().map_or(false, |s| s.starts_with(a));
        let all = params.iter().filter(|p| starts(p, "&&")).count();
        if all > 1 || params.iter().filter(|p| starts(p, "&")).count() - all > 1 { return err() }
        self.set(name, params, body);
        Ok(())
    }

    fn literals<'n>(&self, ns: &'n [N]) -> R<Vec<&'n str>> { ns.iter().map(|n| n.lit().ok_or(Bad::Err(None))).collect() }

    /// Expansion of the call `node` of `name`.
    pub fn call(&self, name: &str, node: &N, params: Vec<N>) -> R<Vec<N>> { self.deeper(|| self.invoke(name, node, params)) }

    fn invoke(&self, name: &str, node: &N, params: Vec<N>) -> R<Vec<N>> {
        let N::List { ws: call_ws, pos, end_ws: call_end_ws, end: call_end, .. } = node else { panic!("call without a list") };
        let made = |k: K, v: String| Ok(vec![N::atom(k, v, call_ws.clone()).at(*pos)]);
        let eager = |s: Sig| -> R<Args> { take(&s, self.nodes(&params)?) };
        match name {
            "define" => {
                let Some(head) = params.first() else { return err() };
                match head {
                    N::Atom { k: K::Sym, v, .. } => { let body = self.nodes(&params[1..])?; self.define(v.clone(), vec![], body)? }
                    N::List { items, .. } => {
                        let Some(N::Atom { k: K::Sym, v, .. }) = items.first() else { return err() };
                        self.define(v.clone(), items[1..].to_vec(), params[1..].to_vec())?
                    }
                    _ => return err(),
                }
                Ok(vec![])
            }
            "match" => {
                let Some(subject) = params.first() else { return err() };
                let subject = self.node(subject)?;
                let [subject] = &subject[..] else { return err() };
                for clause in &params[1..] {
                    let Some([pat, body @ ..]) = clause.items() else { return err() };
                    let pat = self.node(pat)?;
                    let [pat] = &pat[..] else { return err() };
                    let inner = self.sub();
                    if inner.bind(pat, subject)? { return inner.nodes(body) }
                }
                Ok(vec![])
            }
            "ifdef" => {
                if params.len() != 2 && params.len() != 3 { return err() }
                let Some(what) = params[0].lit() else { return err() };
                let branch = if self.get(what).is_some() { Some(&params[1]) } else { params.get(2) };
                let mut out = branch.map_or(Ok(vec![]), |b| self.node(b))?;
                if let Some(f) = out.first_mut() { f.set_ws(call_ws) }
                Ok(out)
            }
            "do" => self.nodes(&params),
            "strip" => { let mut out = self.nodes(&params)?; if let Some(f) = out.first_mut() { f.set_ws("") } Ok(out) }
            "list" => Ok(vec![N::List { items: self.nodes(&params)?, ws: call_ws.clone(), pos: pos.made(), end_ws: call_end_ws.clone(), end: *call_end }]),
            "splat" => {
                let mut out = vec![];
                for p in self.nodes(&params)? {
                    match p {
                        N::List { mut items, ws, .. } => { if let Some(f) = items.first_mut() { f.set_ws(&ws) } out.extend(items) }
                        p => out.push(p),
                    }
                }
                Ok(out)
            }
            "raw" | "string" => {
                let mut text = String::new();
                for p in self.nodes(&params)? { match p.lit() { Some(v) => { text += p.ws(); text += v } None => return err() } }
                made(if name == "raw" { K::Raw } else { K::Str }, text)
            }
            "number" | "symbol" => {
                let a = eager(sig(0, &[], &[], Some(Lit)))?;
                let to = if name == "number" { K::Num } else { K::Sym };
                Ok(a.rest.into_iter().map(|n| match n { N::Atom { v, ws, pos, .. } => N::Atom { k: to, v, ws, pos }, n => n }).collect())
            }
            "concat" => { let a = eager(sig(0, &[], &[], Some(Lit)))?; made(K::Str, self.literals(&a.rest)?.concat()) }
            "join" => {
                let a = eager(sig(1, &[Lit], &[("trailing", Lit, &["true", "false"])], Some(Lit)))?;
                let sep = a.at[0].lit().unwrap();
                let mut text = self.literals(&a.rest)?.join(sep);
                if a.opt("trailing") == Some("true") { text += sep }
                made(K::Str, text)
            }
            "format" => {
                let params = self.nodes(&params)?;
                let Some(N::Atom { k: K::Str, v: template, .. }) = params.first() else { return err() };
                let mut args = vec![];
                for p in &params[1..] {
                    let (name, val) = match p { N::Attr { kw, val, .. } => (Some(kw.clone()), &**val), p => (None, p) };
                    match val.lit() { Some(v) => args.push((name, v.to_string())), None => return err() }
                }
                made(K::Str, format::format(template, &args, &self.world.quirks)?)
            }
            "log" => { let p = self.nodes(&params)?; self.literals(&p)?; Ok(vec![]) }
            "os/env" => {
                let p = self.nodes(&params)?;
                let [N::Atom { v, ws, pos, .. }] = &p[..] else { return err() };
                match std::env::var(v) { Ok(value) => Ok(vec![N::Atom { k: K::Str, v: value, ws: ws.clone(), pos: pos.made() }]), Err(_) => err() }
            }
            "include" | "embed" => {
                let p = self.nodes(&params)?;
                let [N::Atom { v: path, .. }] = &p[..] else { return err() };
                if path.is_empty() || path.contains('\0') { return err() }
                let exts: &[&str] = if name == "include" { &["", ".sex"] } else { &[""] };
                let Some((file, text)) = lookup(&self.world.dirs, path, exts) else { return err() };
                if name == "embed" { return made(K::Str, text) }
                let id = self.world.files.borrow().len() as u32;
                self.world.files.borrow_mut().push((file, text.clone()));
                let tree = match reader::read(id, &text) { Ok(t) => t, Err(Bad::Unspec(u)) => return unspec(u), Err(Bad::Err(p)) => { self.world.inner.set(p); return err_at(*pos) } };
                let mut out = self.nodes(&tree)?;
                if let Some(f) = out.first_mut() { f.set_ws(call_ws) }
                Ok(out)
            }
            "namespace" => {
                let inner = self.sub();
                let p = inner.nodes(&params)?;
                let Some(prefix) = p.first().and_then(N::lit) else { return err() };
                let mut sep = "/";
                let mut i = 1;
                while let Some(N::Attr { kw, val, .. }) = p.get(i) {
                    match (kw.as_str(), val.lit()) { ("separator", Some(v)) => sep = v, _ => return err() }
                    i += 1;
                }
                if inner.defs.borrow().len() as u32 > self.world.limit() / 20 { return unspec("unbounded recursion") }
                for (k, m) in inner.defs.borrow().iter() { self.defs.borrow_mut().insert(format!("{prefix}{sep}{k}"), m.clone()); }
                Ok(p[i..].to_vec())
            }
            "for" => {
                let a = take(&sig(3, &[Any, Sym, List], &[], Some(Any)), params.clone())?;
                if a.at[1].lit() != Some("in") { return err() }
                let items = self.nodes(a.at[2].items().unwrap())?;
                let inner = self.sub();
                let mut out = vec![];
                for item in items {
                    if !inner.bind(&a.at[0], &item)? { return err() }
                    out.extend(inner.nodes(&a.rest)?);
                }
                Ok(out)
            }
            "reverse" => {
                let a = eager(sig(1, &[List], &[], None))?;
                let N::List { items, ws, pos, end_ws, end } = &a.at[0] else { unreachable!() };
                let mut items = items.clone();
                let spaces: Vec<String> = items.iter().map(|i| i.ws().to_string()).collect();
                items.reverse();
                for (i, w) in items.iter_mut().zip(&spaces) { i.set_ws(w) }
                Ok(vec![N::List { items, ws: ws.clone(), pos: *pos, end_ws: end_ws.clone(), end: *end }])
            }
            "sort" => {
                let a = eager(sig(1, &[Any], &[ORDER, ("key", Sym, ANY_VALUE)], None))?;
                let N::List { items, pos, end_ws, end, .. } = &a.at[0] else { return err() };
                let key = a.opt("key").unwrap_or("do");
                let mut keyed = vec![];
                for i in items {
                    let k = self.call(key, node, vec![i.clone()])?;
                    let [N::Atom { v, .. }] = &k[..] else { return err() };
                    keyed.push((v.clone(), i.clone()));
                }
                // Insertion sort: stable in either direction.
                let down = a.opt("order") == Some("descending");
                let mut done: Vec<(String, N)> = vec![];
                for k in keyed {
                    let before = |o: &(String, N)| { let c = key_order(&o.0, &k.0); if down { c != std::cmp::Ordering::Less } else { c != std::cmp::Ordering::Greater } };
                    let at = done.iter().rposition(before).map_or(0, |p| p + 1);
                    done.insert(at, k);
                }
                let mut out = vec![];
                for ((_, mut n), old) in done.into_iter().zip(items) { n.set_ws(old.ws()); out.push(n) }
                Ok(vec![N::List { items: out, ws: call_ws.clone(), pos: *pos, end_ws: end_ws.clone(), end: *end }])
            }
            "map" | "filter" => {
                let a = eager(sig(1, &[Sym], &[], Some(Any)))?;
                let mut out = vec![];
                for r in a.rest {
                    let got = self.call(a.at[0].lit().unwrap(), node, vec![r])?;
                    let null = matches!(&got[..], [N::List { items, .. }] if items.is_empty());
                    if name == "map" || !null { out.extend(got) }
                }
                Ok(out)
            }
            "apply" => { let a = eager(sig(1, &[Sym], &[], Some(Any)))?; self.call(a.at[0].lit().unwrap(), node, a.rest) }
            "lambda" => {
                let a = take(&sig(1, &[Any], &[], Some(Any)), params.clone())?;
                let list = match &a.at[0] { N::List { items, .. } => items.clone(), n @ N::Atom { k: K::Sym, .. } => vec![n.clone()], _ => return err() };
                let name = format!("__lambda{}-{}", pos.file, pos.off);
                self.define(name.clone(), list, a.rest)?;
                made(K::Sym, name)
            }
            "get" => {
                let a = eager(sig(2, &[Lit, Any], &[SEP], None))?;
                let sep = a.opt("separator").unwrap_or("/");
                if sep.is_empty() { return unspec("%get with an empty separator") }
                let mut at = &a.at[1];
                for step in a.at[0].lit().unwrap().split(sep) {
                    let Some(items) = at.items() else { return err() };
                    let number = step.strip_prefix('+').unwrap_or(step);
                    let number = !number.is_empty() && number.bytes().all(|b| b.is_ascii_digit());
                    let nth = if number { step.parse::<usize>().ok().and_then(|i| items.get(i)) } else { None };
                    let named = || items.iter().find_map(|i| match i { N::Attr { kw, val, .. } if kw == step => Some(&**val), _ => None });
                    at = match nth.or_else(named) { Some(n) => n, None => return err() };
                }
                Ok(vec![at.clone()])
            }
            "date" => {
                let a = eager(sig(1, &[Lit, Num], &[("timezone", Num, ANY_VALUE)], None))?;
                let off = calendar::offset(a.opt("timezone"))?;
                let Some(secs) = a.at.get(1) else { return unspec("current time") };
                made(K::Str, calendar::date(a.at[0].lit().unwrap(), secs.lit().unwrap(), off, &self.world.quirks)?)
            }
            "timestamp" => {
                let a = eager(sig(2, &[Lit, Lit], &[("timezone", Num, ANY_VALUE)], None))?;
                let off = calendar::offset(a.opt("timezone"))?;
                made(K::Num, calendar::timestamp(a.at[0].lit().unwrap(), a.at[1].lit().unwrap(), off, &self.world.quirks)?)
            }
            "yaml" | "json" | "toml" => {
                let a = eager(sig(1, &[Str], &[SEP], None))?;
                let lang = if name == "toml" { Lang::Toml } else { Lang::Yaml };
                let text = a.at[0].lit().unwrap();
                match self.world.data.get(&(lang, text.to_string())) {
                    None => unspec("data that was not generated"),
                    Some(None) => err(),
                    Some(Some(docs)) => Ok(self.import(lang, docs, a.opt("separator").unwrap_or("/"), *pos)),
                }
            }
            "markdown" => {
                let a = eager(sig(1, &[Str], &[("only", Lit, &["frontmatter", "content"]), SEP], None))?;
                let only = a.opt("only");
                let Some(m) = self.world.markdown.get(a.at[0].lit().unwrap()) else { return unspec("markdown that was not generated") };
                if only != Some("content") {
                    match &m.front {
                        None | Some((_, None)) if only.is_some() => return err(),
                        None => {}
                        Some((_, None)) => {}
                        Some((lang, Some(docs))) => { self.import(*lang, docs, a.opt("separator").unwrap_or("/"), *pos); }
                    }
                }
                if only == Some("frontmatter") { return Ok(vec![]) }
                made(K::Raw, m.html.clone())
            }
            "glob" => {
                let a = eager(sig(1, &[Lit], &[("type", Lit, &["file", "directory", "any"]), ("sort", Lit, &["modified", "created", "name", "type", "none"]), ORDER], None))?;
                let N::Atom { pos, v: pattern, .. } = &a.at[0] else { unreachable!() };
                let found = globber::glob(pattern, a.opt("type").unwrap_or("any"), a.opt("sort").unwrap_or("none"), a.opt("order") == Some("descending"), self.world.any_order)?;
                Ok(found.into_iter().enumerate().map(|(i, v)| N::atom(K::Str, v, if i == 0 { "" } else { " " }).at(*pos)).collect())
            }
            _ => {
                let args = self.nodes(&params)?;
                let Some(m) = self.get(name) else { return err_at(*pos) };
                let inner = self.sub();
                if !inner.bind_list(&m.params, &args)? { return err() }
                inner.nodes(&m.body)
            }
        }
    }

    /// Nodes of imported data, with definitions of everything inside under its path.
    fn import(&self, lang: Lang, docs: &[Data], sep: &str, pos: Pos) -> Vec<N> {
        let mut out = vec![];
        for d in docs {
            let ws = if out.is_empty() { "" } else { " " };
            let n = self.datum(lang, d, ws, None, sep, pos);
            out.push(n);
        }
        out
    }

    fn datum(&self, lang: Lang, d: &Data, ws: &str, path: Option<&str>, sep: &str, pos: Pos) -> N {
        let under = |k: &str| path.map_or(k.to_string(), |p| format!("{p}{sep}{k}"));
        let n = match d {
            Data::Str(v) => N::atom(K::Str, v.clone(), ws),
            Data::Num(v) => N::atom(K::Num, v.clone(), ws),
            Data::Sym(v) => N::atom(K::Sym, v.clone(), ws),
            Data::Seq(items) => {
                let mut out = vec![];
                for (i, d) in items.iter().enumerate() { out.push(self.datum(lang, d, if i == 0 { "" } else { " " }, Some(&under(&i.to_string())), sep, pos)) }
                N::list(out, ws)
            }
            Data::Map(pairs) => {
                let mut out = vec![];
                for (i, (k, d)) in pairs.iter().enumerate() {
                    let v = self.datum(lang, d, " ", Some(&under(k)), sep, pos);
                    out.push(N::attr(k.clone(), v, if i == 0 { "" } else { " " }).at(pos));
                }
                N::list(out, ws)
            }
        }.at(pos);
        if let Some(p) = path {
            // What a name stands for does not depend on where the value was; its own whitespace is replaced at every use.
            self.set(p, vec![], vec![n.clone()]);
        }
        n
    }
}

/// Order of sort keys: numbers by value, then text by characters.
pub fn key_order(a: &str, b: &str) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let num = |s: &str| s.parse::<f64>().ok().filter(|f| !f.is_nan());
    match (num(a), num(b)) {
        (Some(x), Some(y)) => match (a.parse::<i64>(), b.parse::<i64>()) {
            (Ok(i), Ok(j)) => i.cmp(&j),
            (i, j) => {
                let exact = |i: Option<i64>, f: f64| i.map_or(f as i128, i128::from);
                x.partial_cmp(&y).unwrap().then_with(|| exact(i.ok(), x).cmp(&exact(j.ok(), y)))
            }
        },
        (Some(_), None) => Less,
        (None, Some(_)) => Greater,
        (None, None) => a.chars().cmp(b.chars()),
    }
}

pub fn expand(world: &World) -> R<Vec<N>> {
    let src = world.files.borrow()[0].1.clone();
    let tree = reader::read(0, &src)?;
    Scope::new(world).nodes(&tree)
}
