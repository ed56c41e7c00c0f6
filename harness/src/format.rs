//! Reference for `%format`: templates with `{}`, `{name}`, `{0}` and `:[[fill]align][0][width][.precision]`.
use crate::model::*;

struct Spec { fill: Option<char>, align: Option<char>, zero: bool, width: usize, prec: Option<usize> }

enum Piece { Text(String), Hole { name: String, spec: Spec } }

fn spec(s: &str) -> R<Spec> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = Spec { fill: None, align: None, zero: false, width: 0, prec: None };
    let arrow = |c: Option<&char>| matches!(c, Some('<' | '^' | '>'));
    if arrow(cs.get(1)) { out.fill = Some(cs[0]); out.align = Some(cs[1]); i = 2 }
    else if arrow(cs.first()) { out.align = Some(cs[0]); i = 1 }
    if cs.get(i) == Some(&'0') { out.zero = true; i += 1 }
    let number = |i: &mut usize| { let from = *i; while cs.get(*i).map_or(false, |c| c.is_ascii_digit()) { *i += 1 } cs[from..*i].iter().collect::<String>() };
    let w = number(&mut i);
    let mut p = String::new();
    if cs.get(i) == Some(&'.') { i += 1; p = number(&mut i); if p.is_empty() { return unspec("format precision") } }
    if i != cs.len() { return unspec("format specification") }
    if w.len() > 4 || p.len() > 4 || w.starts_with('0') || (p.len() > 1 && p.starts_with('0')) { return unspec("large format width") }
    if !w.is_empty() { out.width = w.parse().unwrap() }
    if !p.is_empty() { out.prec = Some(p.parse().unwrap()) }
    if out.fill.map_or(false, |c| !c.is_ascii() || "{}<^>:".contains(c)) { return unspec("format fill") }
    if out.zero && out.align.is_some() { return unspec("zero padding with alignment") }
    Ok(out)
}

fn numeric(s: &str) -> bool { s.parse::<f64>().is_ok() }

/// What is known to go wrong with an explicit fill: whitespace around the value is lost,
/// and an odd rest of centred text is always padded by a space.
fn quirk(s: &Spec, fill: char, v: &str) -> String {
    let v = v.trim();
    let n = v.chars().count();
    if n >= s.width { return v.to_string() }
    let rep = |n: usize| std::iter::repeat(fill).take(n).collect::<String>();
    let odd = n % 2;
    let v = match s.align.unwrap() { '<' => v.to_string() + &rep(s.width - n), '>' => rep(s.width - n) + v, _ => rep((s.width - n - odd) / 2) + v + &rep((s.width - n + odd) / 2) };
    let missing = s.width - v.chars().count().min(s.width);
    if numeric(&v) { " ".repeat(missing) + &v } else { v + &" ".repeat(missing) }
}

fn apply(s: &Spec, v: &str, quirks: &Quirks) -> R<String> {
    let right = exact(s, v)?;
    if let (Some(fill), None) = (s.fill, s.prec) {
        let wrong = quirk(s, fill, v);
        if wrong != right && quirks.known("format-fill") { return Ok(wrong) }
    }
    Ok(right)
}

fn exact(s: &Spec, v: &str) -> R<String> {
    let v: String = match s.prec {
        Some(_) if numeric(v) => return unspec("precision of a number"),
        Some(p) => v.chars().take(p).collect(),
        None => v.to_string(),
    };
    let n = v.chars().count();
    if n >= s.width { return Ok(v) }
    let pad = s.width - n;
    let fill = s.fill.unwrap_or(' ');
    if s.zero && numeric(&v) {
        if !v.trim_start_matches('-').starts_with(|c: char| c.is_ascii_digit()) { return unspec("zero padding of unusual numbers") }
        let (sign, digits) = match v.strip_prefix('-') { Some(d) => ("-", d), None => ("", v.as_str()) };
        return Ok(format!("{sign}{}{digits}", "0".repeat(pad)));
    }
    let align = s.align.unwrap_or(if numeric(&v) { '>' } else { '<' });
    let (l, r) = match align { '<' => (0, pad), '>' => (pad, 0), _ => (pad / 2, pad - pad / 2) };
    let rep = |n: usize| std::iter::repeat(fill).take(n).collect::<String>();
    Ok(rep(l) + &v + &rep(r))
}

fn parse(t: &str) -> R<Vec<Piece>> {
    let cs: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut text = String::new();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { text.push('{'); i += 2 }
            '}' if cs.get(i + 1) == Some(&'}') => { text.push('}'); i += 2 }
            '}' => return err(),
            '{' => {
                let Some(n) = cs[i..].iter().position(|c| *c == '}') else { return err() };
                let inner: String = cs[i + 1..i + n].iter().collect();
                // `}}}` could be read in two ways.
                if cs.get(i + n + 1) == Some(&'}') { return unspec("braces after a placeholder") }
                if inner.contains('{') { return unspec("nested braces") }
                let (name, sp) = inner.split_once(':').unwrap_or((&inner, ""));
                if !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') { return unspec("placeholder name") }
                out.push(Piece::Text(std::mem::take(&mut text)));
                out.push(Piece::Hole { name: name.into(), spec: spec(sp)? });
                i += n + 1;
            }
            c => { text.push(c); i += 1 }
        }
    }
    out.push(Piece::Text(text));
    Ok(out)
}

pub fn format(template: &str, args: &[(Option<String>, String)], quirks: &Quirks) -> R<String> {
    let mut pieces = parse(template)?;
    // Number the unnamed placeholders, passing over numbers used explicitly.
    let used: Vec<String> = pieces.iter().filter_map(|p| match p { Piece::Hole { name, .. } if !name.is_empty() => Some(name.clone()), _ => None }).collect();
    let mut next = 0;
    for p in pieces.iter_mut() {
        if let Piece::Hole { name, .. } = p { if name.is_empty() {
            while used.contains(&next.to_string()) { next += 1 }
            *name = next.to_string();
            next += 1;
        } }
    }
    let mut known: Vec<(String, &str)> = vec![];
    let mut position = 0;
    for (name, v) in args {
        let name = match name { Some(n) if n.parse::<usize>().is_ok() => return unspec("positional placeholder given by name"), Some(n) => n.clone(), None => { position += 1; (position - 1).to_string() } };
        // The first value given counts.
        if !known.iter().any(|k| k.0 == name) { known.push((name, v)) }
    }
    let mut out = String::new();
    for p in pieces {
        match p {
            Piece::Text(t) => out += &t,
            Piece::Hole { name, spec } => match known.iter().find(|k| k.0 == name) { Some((_, v)) => out += &apply(&spec, v, quirks)?, None => return err() },
        }
    }
    Ok(out)
}
