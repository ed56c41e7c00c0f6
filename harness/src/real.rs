//! Adapter to the code under test.
use crate::engine::real;
use crate::model::*;
use crate::render::T;
use seam::assemble::{css::CSSFormatter, html::HTMLFormatter, sexp::SExpFormatter, text::PlainTextFormatter, xml::XMLFormatter, MarkupFormatter};
use seam::parse::parser::{Node, ParseNode, ParseTree};
use seam::parse::tokens::Site;
use std::path::Path;

/// A reported error, taken apart.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Report { pub file: String, pub line: usize, pub col: usize, pub quoted: String, pub text: String }

pub fn report(text: String) -> Report {
    let mut r = Report { file: String::new(), line: 0, col: 0, quoted: String::new(), text };
    let t = r.text.clone();
    if let Some(l) = t.lines().next() {
        if let Some((n, q)) = l.split_once(" |") { if let Ok(n) = n.trim().parse() { r.line = n; r.quoted = q.strip_prefix(' ').unwrap_or(q).to_string() } }
    }
    // The place in parentheses after the kind of error.
    if let Some(at) = t.find("[**]") {
        let t = &t[at..];
        if let (Some(a), Some(b)) = (t.find('('), t.find(')')) {
            if a < b {
                let mut parts = t[a + 1..b].rsplitn(3, ':');
                let col = parts.next().and_then(|x| x.parse().ok());
                let line = parts.next().and_then(|x| x.parse::<usize>().ok());
                if let (Some(c), Some(l), Some(f)) = (col, line, parts.next()) {
                    r.col = c;
                    if l == r.line || r.line == 0 { r.line = l; r.file = f.into() }
                }
            }
        }
    }
    r
}

pub struct Names { pub files: Vec<String> }

fn place(s: &Site, names: &mut Names) -> Pos {
    let file = match names.files.iter().position(|f| f == s.source) { Some(i) => i, None => { names.files.push(s.source.to_string()); names.files.len() - 1 } };
    Pos { file: file as u32, off: s.bytes_from_start as u32, len: s.bytes_span as u32, line: s.line as u32 }
}

pub fn convert(n: &ParseNode, names: &mut Names) -> N {
    let mut atom = |k: K, a: &Node| N::Atom { k, v: a.value.clone(), ws: a.leading_whitespace.clone(), pos: place(&a.site, names) };
    match n {
        ParseNode::Symbol(a) => atom(K::Sym, a),
        ParseNode::Number(a) => atom(K::Num, a),
        ParseNode::String(a) => atom(K::Str, a),
        ParseNode::Raw(a) => atom(K::Raw, a),
        ParseNode::List { nodes, site, end_token, leading_whitespace } => N::List {
            pos: place(site, names), end: place(&end_token.site, names), items: nodes.iter().map(|n| convert(n, names)).collect(),
            ws: leading_whitespace.clone(), end_ws: end_token.leading_whitespace.to_string(),
        },
        ParseNode::Attribute { keyword, node, site, leading_whitespace } => N::Attr { kw: keyword.clone(), pos: place(site, names), val: Box::new(convert(node, names)), ws: leading_whitespace.clone() },
    }
}

pub fn tree(t: &[ParseNode], names: &mut Names) -> Vec<N> { t.iter().map(|n| convert(n, names)).collect() }

/// Every site in a tree must denote text of its own source, and everything in it must be text.
pub fn sound(t: &[ParseNode]) -> Result<(), String> {
    fn utf8(s: &str) -> Result<(), String> {
        let b = std::hint::black_box(s.as_bytes());
        if std::str::from_utf8(b).is_err() { return Err(format!("{b:x?} in the tree is not valid UTF-8")) }
        Ok(())
    }
    fn site(s: &Site) -> Result<(), String> {
        let (a, b) = (s.bytes_from_start, s.bytes_from_start + s.bytes_span);
        let src = s.source_code;
        if src.get(a..b).is_none() { return Err(format!("site {a}..{b} is not text of {:?} of length {}", s.source, src.len())) }
        let line = src[..a].rfind('\n').map_or(0, |i| i + 1);
        if s.start_of_line() != line { return Err(format!("site at byte {a} has its line start at {}, not {line}", s.start_of_line())) }
        Ok(())
    }
    for n in t {
        match n {
            ParseNode::List { nodes, site: s, end_token, leading_whitespace } => { site(s)?; site(&end_token.site)?; utf8(leading_whitespace)?; utf8(end_token.leading_whitespace)?; sound(nodes)? }
            ParseNode::Attribute { node, site: s, keyword, leading_whitespace } => { site(s)?; utf8(keyword)?; utf8(leading_whitespace)?; sound(std::slice::from_ref(&**node))? }
            ParseNode::Symbol(a) | ParseNode::Number(a) | ParseNode::String(a) | ParseNode::Raw(a) => { site(&a.site)?; utf8(&a.value)?; utf8(&a.leading_whitespace)? }
        }
    }
    Ok(())
}

pub fn formatter<'a>(t: T, tree: ParseTree<'a>) -> Box<dyn MarkupFormatter + 'a> {
    match t {
        T::Text => Box::new(PlainTextFormatter::new(tree)),
        T::Sexp => Box::new(SExpFormatter::new(tree)),
        T::Html => Box::new(HTMLFormatter::new(tree)),
        T::Xml => Box::new(XMLFormatter::new(tree)),
        T::Css => Box::new(CSSFormatter::new(tree)),
    }
}

pub type Out = Result<String, Report>;

pub struct Run { pub tree: Result<Vec<N>, Report>, pub names: Names, pub outs: Vec<(T, bool, Out)> }

/// Read a text without expanding it.
pub fn read(name: &str, src: &str) -> (Result<Vec<N>, Report>, Names) {
    let mut names = Names { files: vec![name.to_string()] };
    let r = real(|| {
        let p = seam::parse::parser::Parser::new(seam::parse::lexer::Lexer::new(name.to_string(), src.to_string()));
        let r = match p.parse() {
            Ok(t) => { if let Err(e) = sound(&t) { crate::engine::violation(format!("{e}\nsource: {src:?}")) } Ok(tree(&t, &mut names)) }
            Err(e) => Err(e.to_string()),
        };
        r
    });
    (r.map_err(report), names)
}

/// Everything that can be asked of a builder.
pub fn results<'a>(e: &'a seam::parse::expander::Expander<'a>, name: &str, targets: &[T]) -> Run {
    let mut names = Names { files: vec![name.to_string()] };
    let mut outs = vec![];
    let tree = match e.expand() {
        Ok(t) => {
            if let Err(e) = sound(&t) { crate::engine::violation(e) }
            let mine = tree(&t, &mut names);
            for &target in targets {
                let f = formatter(target, t.clone());
                let frag = f.display().map_err(|e| e.to_string());
                let doc = f.document().map_err(|e| e.to_string());
                outs.push((target, false, frag.map_err(report)));
                outs.push((target, true, doc.map_err(report)));
            }
            Ok(mine)
        }
        Err(e) => Err(report(e.to_string())),
    };
    Run { tree, names, outs }
}

/// Process a text completely.
pub fn run(name: Option<&str>, src: &str, dirs: &[String], targets: &[T]) -> Run {
    real(|| {
        let mut e = seam::tree_builder(name.map(Path::new), src.to_string());
        e.add_includes(dirs.iter());
        let r = results(&e, name.unwrap_or("<stdin>"), targets);
        r
    })
}
