//! Reference generators: expanded tree to text.
use crate::expand::World;
use crate::model::*;
use crate::reader;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T { Text, Sexp, Html, Xml, Css }
pub const TARGETS: [T; 5] = [T::Text, T::Sexp, T::Html, T::Xml, T::Css];

impl T {
    pub fn name(self) -> &'static str { match self { T::Text => "text", T::Sexp => "sexp", T::Html => "html", T::Xml => "xml", T::Css => "css" } }
}

pub fn fragment(w: &World, t: T, tree: &[N]) -> R<String> {
    let mut out = String::new();
    match t {
        T::Text => plain(tree, &mut out),
        T::Sexp => sexp(tree, &mut out),
        T::Html => for n in tree { element(w, n, true, &mut out)? },
        T::Xml => for n in tree { element(w, n, false, &mut out)? },
        T::Css => css(tree, &mut out)?,
    }
    Ok(out)
}

pub const XML_HEADER: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n";
const EMPTY_HTML: &str = "<!DOCTYPE html>\n<html>\n<head></head>\n<body>\n<!-- Generated by SEAM (empty file) -->\n</body>\n</html>\n";

fn headed(n: &N, name: &str) -> bool { n.items().and_then(|i| i.first()).and_then(N::lit).map_or(false, |v| v.eq_ignore_ascii_case(name)) }

pub fn document(w: &World, t: T, tree: &[N]) -> R<String> {
    match t {
        T::Text | T::Sexp => fragment(w, t, tree),
        T::Css => if tree.is_empty() { Ok("\n".into()) } else { fragment(w, t, tree) },
        T::Xml => {
            let body = fragment(w, t, tree)?;
            let declared = tree.first().map_or(false, |n| headed(n, "?xml") && n.items().unwrap()[0].is(K::Sym));
            Ok(if declared { body } else { format!("{XML_HEADER}{body}") })
        }
        T::Html => {
            if tree.is_empty() { return Ok(EMPTY_HTML.into()) }
            let top = |name: &str| tree.iter().any(|n| headed(n, name));
            let foreign = |n: &N| ["math", "pre", "script", "style", "svg", "textarea", "title"].iter().any(|t| headed(n, t));
            let near = |name: &str| top(name) || tree.iter().filter(|n| !foreign(n)).any(|n| n.items().unwrap_or(&[]).iter().any(|c| headed(c, name)));
            let body = fragment(w, t, tree)?;
            if top("!doctype") { return Ok(body) }
            if top("html") { return Ok(format!("<!DOCTYPE html>\n{body}\n")).map(|d| d[..d.len() - 1].to_string()) }
            let mut d = String::from("<!DOCTYPE html>\n<html>\n");
            if !near("head") { d += "<head></head>\n" }
            if near("body") { d += &body; d += "\n" }
            else {
                let lead = headed(&tree[0], "head") as usize;
                if lead > 0 { d += &fragment(w, t, &tree[..lead])?; d += "\n" }
                d += "<body>\n";
                d += &fragment(w, t, &tree[lead..])?;
                d += "\n</body>\n";
            }
            Ok(d + "</html>")
        }
    }
}

fn plain(ns: &[N], out: &mut String) {
    for n in ns {
        *out += n.ws();
        match n {
            N::Atom { v, .. } => *out += v,
            N::List { items, end_ws, .. } => { out.push('('); plain(items, out); *out += end_ws; out.push(')') }
            N::Attr { kw, val, .. } => { out.push(':'); *out += kw; plain(std::slice::from_ref(val), out) }
        }
    }
}

fn sexp(ns: &[N], out: &mut String) {
    for (i, n) in ns.iter().enumerate() {
        // An empty string that touches the next string is written with six quotes.
        let (mut last, mut touches) = (n, false);
        while let N::Attr { val, .. } = last { last = val }
        if let (N::Atom { k: K::Str, v, .. }, Some(N::Atom { k: K::Str, ws, .. })) = (last, ns.get(i + 1)) { touches = v.is_empty() && ws.is_empty() }
        let start = out.len();
        *out += n.ws();
        match n {
            N::Atom { k: K::Str, v, .. } => *out += &quote(v),
            N::Atom { k: K::Raw, v, .. } => { *out += "(%raw "; *out += &quote(v); out.push(')') }
            N::Atom { v, .. } => *out += v,
            N::List { items, end_ws, .. } => { out.push('('); sexp(items, out); *out += end_ws; out.push(')') }
            N::Attr { kw, val, .. } => { out.push(':'); *out += kw; sexp(std::slice::from_ref(val), out) }
        }
        if touches { debug_assert!(out.len() > start); *out += "\"\"\"\"" }
    }
}

/// Each null is written as `\x00` (`\0` would swallow following digits).
pub fn quote(s: &str) -> String { format!("\"{}\"", s.split('\0').map(|p| { let d = format!("{p:?}"); d[1..d.len() - 1].to_string() }).collect::<Vec<_>>().join("\\x00")) }

pub fn escape(s: &str) -> String {
    s.chars().map(|c| match c { '<' => "&lt;".into(), '>' => "&gt;".into(), '&' => "&amp;".into(), '"' => "&quot;".into(), '\'' => "&apos;".into(), c => c.to_string() }).collect()
}

pub const VOID: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];

fn text(n: &N) -> Option<String> { match n { N::Atom { k: K::Raw, v, .. } => Some(v.clone()), N::Atom { v, .. } => Some(escape(v)), _ => None } }

fn element(w: &World, n: &N, html: bool, out: &mut String) -> R<()> {
    let (items, ws, end_ws, end, pos) = match n {
        N::Atom { ws, .. } => { *out += ws; *out += &text(n).unwrap(); return Ok(()) }
        N::Attr { pos, .. } => return err_at(*pos),
        N::List { items, ws, end_ws, end, pos } => (items, ws, end_ws, end, pos),
    };
    *out += ws;
    let Some(head) = items.first() else { return err_at(*pos) };
    let Some(tag) = head.sym() else { return err_at(head.pos()) };
    if tag.is_empty() { return err_at(head.pos()) }
    *out += &format!("<{tag}");
    if tag.starts_with('!') || (!html && tag.starts_with('?')) {
        for i in &items[1..] {
            match i {
                N::Atom { k: K::Sym | K::Num, v, .. } => *out += &format!(" {v}"),
                N::Attr { kw, val, .. } if !html => match text(val) { Some(v) => *out += &format!(" {kw}=\"{v}\""), None => return err_at(val.pos()) },
                i => return err_at(i.pos()),
            }
        }
        *out += if tag.starts_with('?') { " ?>" } else { ">" };
        return Ok(());
    }
    let name = if html { tag.to_ascii_lowercase() } else { tag.to_string() };
    let mut rest = &items[1..];
    while let Some(N::Attr { kw, val, ws, .. }) = rest.first() {
        let Some(v) = text(val) else { return err_at(val.pos()) };
        *out += &format!("{}{kw}=\"{v}\"", if html && !ws.is_empty() { ws } else { " " });
        rest = &rest[1..];
    }
    out.push('>');
    if html && VOID.contains(&name.as_str()) { return match rest.first() { Some(c) => err_at(c.pos()), None => Ok(()) } }
    let mut kids = rest.to_vec();
    let below = kids.first().map_or(false, |k| k.ws().contains('\n'));
    if let Some(k) = kids.first_mut() { if !below { k.set_ws("") } }
    let close = |out: &mut String, closing: bool| {
        if closing { if !end_ws.is_empty() { *out += end_ws } else if below || name == "style" { *out += ws } }
        *out += &format!("</{name}>");
    };
    if !html { for k in &kids { element(w, k, false, out)? } close(out, true); return Ok(()) }
    match name.as_str() {
        "pre" => { *out += &source_text(w, n, rest, end_ws, *end)?; close(out, false); return Ok(()) }
        "textarea" | "title" => plain(&kids, out),
        "script" => sexp(&kids, out),
        "math" | "svg" => for k in &kids { element(w, k, false, out)? },
        "style" => match kids.first() {
            Some(N::Atom { k: K::Str, v, pos, .. }) => { if kids.len() > 1 { return err_at(*pos) } *out += v }
            _ => { out.push('\n'); css(&kids, out)? }
        },
        _ => for k in &kids { element(w, k, true, out)? },
    }
    close(out, true);
    Ok(())
}

/// The text of the source between the first child of `n` and its closing parenthesis.
fn source_text(w: &World, n: &N, kids: &[N], end_ws: &str, end: Pos) -> R<String> {
    let Some(first) = kids.first() else { return Ok(end_ws.into()) };
    let (p, l) = (first.pos(), n.pos());
    // There is no such text if the child comes from another file.
    if p.file != end.file { return err_at(p) }
    if p.is_made() || l.is_made() || end.is_made() || p.file != end.file || l.file != end.file || p.off <= l.off || p.off >= end.off { return unspec("<pre> with generated contents") }
    let files = w.files.borrow();
    let src = &files[p.file as usize].1;
    // The child must be what was written there.
    let Ok(again) = reader::read(0, &src[l.off as usize..end.off as usize + 1]) else { return unspec("<pre> with generated contents") };
    let written = again[0].items().unwrap().iter().skip(1).find(|i| !matches!(i, N::Attr { .. }));
    if written.map(|i| i.pos().off) != Some(p.off - l.off) || written.map(N::ws) != Some(first.ws()) { return unspec("<pre> with generated contents") }
    if first.sym().map_or(false, |v| v.starts_with('%')) { return unspec("<pre> with generated contents") }
    let ws = first.ws();
    let from = p.off as usize - ws.len() + ws.starts_with(' ') as usize;
    Ok(src[from..end.off as usize].to_string())
}

pub const CSS_FUNCTIONS: [&str; 58] = [
    "attr", "blur", "brightness", "calc", "circle", "color", "contrast", "counter", "counters", "cubic-bezier", "drop-shadow", "ellipse", "format",
    "grayscale", "hsl", "hsla", "hue-rotate", "hwb", "image", "inset", "invert", "lab", "lch", "linear-gradient", "matrix", "matrix3d",
    "opacity", "perspective", "polygon", "radial-gradient", "repeating-linear-gradient", "repeating-radial-gradient", "rgb", "rgba", "rotate", "rotate3d",
    "rotateX", "rotateY", "rotateZ", "saturate", "sepia", "scale", "scale3d", "scaleX", "scaleY", "scaleZ", "skew", "skewX", "skewY", "symbols",
    "translate", "translate3d", "translateX", "translateY", "translateZ", "url", "var", "supports",
];
pub const AT_NESTED: [&str; 6] = ["@counter-style", "@document", "@font-feature-values", "@keyframes", "@media", "@supports"];
pub const AT_LINE: [&str; 3] = ["@charset", "@import", "@namespace"];
pub const AT_PLAIN: [&str; 3] = ["@font-face", "@page", "@property"];

fn css_string(s: &str) -> String { format!("\"{}\"", s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), c if c.is_control() => format!("\\{:x} ", c as u32), c => c.to_string() }).collect::<String>()) }

fn value(n: &N) -> R<String> {
    match n {
        N::Attr { pos, .. } => err_at(*pos),
        N::Atom { k: K::Raw, v, .. } => Ok(v.clone()),
        N::Atom { v, .. } => Ok(if v.contains(char::is_whitespace) { css_string(v) } else { v.clone() }),
        N::List { items, .. } => {
            let vs = items.iter().map(value).collect::<R<Vec<_>>>()?;
            let Some((head, args)) = vs.split_first() else { return Ok(String::new()) };
            if CSS_FUNCTIONS.contains(&head.as_str()) {
                let sep = if matches!(head.as_str(), "rgba" | "hsla") { ", " } else { " " };
                return Ok(format!("{head}({})", args.join(sep).trim()));
            }
            if ["+", "-", "*", "/"].contains(&head.as_str()) { return Ok(format!("({})", args.join(&format!(" {head} ")))) }
            let sep = " ";
            Ok(format!("{head} {}", args.join(sep).trim()))
        }
    }
}

fn css(tree: &[N], out: &mut String) -> R<()> {
    for n in tree {
        match n {
            N::List { items, ws, pos, .. } => { *out += ws; rule(items, *pos, out)? }
            n => return err_at(n.pos()),
        }
    }
    Ok(())
}

fn rule(items: &[N], pos: Pos, out: &mut String) -> R<()> {
    let heads: Vec<&str> = items.iter().map_while(N::lit).collect();
    let Some(first) = heads.first() else { return err_at(pos) };
    if AT_LINE.contains(first) {
        *out += first; out.push(' ');
        for i in &items[1..] { *out += &prelude(i)?; out.push(' ') }
        *out += ";\n";
        return Ok(());
    }
    if AT_NESTED.contains(first) {
        *out += first; out.push(' ');
        let mut open = false;
        for i in &items[1..] {
            if let N::List { items, ws, pos, .. } = i {
                if !open { *out += "{\n"; open = true }
                *out += ws;
                rule(items, *pos, out)?;
            } else {
                if open { return err_at(i.pos()) }
                *out += &prelude(i)?; out.push(' ');
            }
        }
        out.push(if open { '}' } else { ';' });
        return Ok(());
    }
    for h in &heads { *out += h; out.push(' ') }
    *out += "{\n";
    for p in &items[heads.len()..] {
        let N::Attr { kw, val, .. } = p else { return err_at(p.pos()) };
        *out += &format!("  {kw}: {};\n", value(val)?);
    }
    out.push('}');
    Ok(())
}

fn prelude(n: &N) -> R<String> { match n { N::Attr { kw, val, .. } => Ok(format!("({kw}: {})", value(val)?)), n => value(n) } }
