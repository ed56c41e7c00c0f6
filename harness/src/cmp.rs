//! Comparison of the implementation with the reference model on one source text.
use crate::engine::*;
use crate::expand::{self, World};
use crate::model::*;
use crate::real::{self, Names, Report};
use crate::render::{self, T, TARGETS};

pub struct Case<'a> {
    pub name: Option<&'a str>,
    pub src: &'a str,
    pub world: World,
    pub targets: &'a [T],
    /// Also compare the places of nodes and errors.
    pub strict: bool,
}

pub fn case(src: &str) -> Case<'_> { Case { name: None, src, world: World::main("<stdin>", src), targets: &TARGETS, strict: false } }

/// Names of lambdas contain a hash of their place.
pub fn normal(s: &str) -> String {
    let Some(_) = s.find("__lambda") else { return s.to_string() };
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("__lambda") {
        out += &rest[..i + 8];
        rest = &rest[i + 8..];
        let n = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
        if n > 0 && rest[n..].starts_with('-') { out.push('0') } else { out += &rest[..n] }
        rest = &rest[n..];
    }
    out + rest
}

fn diff(want: &str, got: &str) -> String {
    let at = want.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    format!("expected: {want}\nactual:   {got}\n(first difference at byte {at})")
}

fn width(s: &str) -> Option<usize> {
    let mut n = 0;
    let mut s = s.to_string();
    // Sequences which are shown as one wide character.
    for cluster in ["👩\u{200d}💻", "🇩🇪", "❤\u{fe0f}", "👍🏽", "\u{1100}\u{1161}\u{11a8}"] { s = s.replace(cluster, "日") }
    for c in s.chars() {
        n += match c { '\u{300}'..='\u{36f}' => 0, c if (c as u32) < 0x300 => 1, '\u{4e00}'..='\u{9fff}' | '\u{1f600}'..='\u{1f64f}' => 2, _ => return None };
    }
    Some(n)
}

pub fn line_text(src: &str, line: u32) -> Option<&str> { src.split('\n').nth(line as usize - 1) }

/// The error of an included file within the error of its inclusion.
fn included(rep: &Report) -> Option<Report> {
    let at = rep.text.find("[**]")?;
    let inner = rep.text[at..].split_once("): ")?.1;
    inner.contains("[**]").then(|| real::report(inner.to_string()))
}

/// Whether a report points at `pos`.
pub fn points(w: &World, rep: &Report, pos: Pos) -> Result<(), String> {
    if pos.is_made() { return Ok(()) }
    let files = w.files.borrow();
    let (file, src) = &files[pos.file as usize];
    if !same_file(&rep.file, file) { return Err(format!("the error names the file {:?} instead of {file:?}", rep.file)) }
    if rep.line != pos.line as usize { return Err(format!("the error names line {} instead of {}", rep.line, pos.line)) }
    let start = src[..pos.off as usize].rfind('\n').map_or(0, |i| i + 1);
    if let Some(c) = width(&src[start..pos.off as usize]) { if rep.col != c + 1 { return Err(format!("the error names column {} instead of {}", rep.col, c + 1)) } }
    let line = line_text(src, pos.line).unwrap();
    if rep.quoted.trim_end_matches('\r') != line.trim_end_matches('\r') { return Err(format!("the error quotes {:?} instead of {line:?}", rep.quoted)) }
    markers(rep)?;
    if let Some(inner) = included(rep) {
        return match w.inner.get() { Some(p) => points(w, &inner, p), None => coherent(w, &inner) }
    }
    // The marker line has as many marks as the token is wide.
    if let Some(span) = src.get(pos.off as usize..(pos.off + pos.len) as usize) {
        let marks = rep.text.split('\n').nth(1).map_or(0, |l| l.matches('^').count());
        if let (false, Some(n)) = (span.contains(char::is_control), width(span)) { if marks != n { return Err(format!("the error marks {marks} columns instead of {n}")) } }
    }
    escape(rep, src, pos)
}

/// An error about an escape names that escape.
fn escape(rep: &Report, src: &str, pos: Pos) -> Result<(), String> {
    let Some((_, named)) = rep.text.split_once("Invalid escape `\\") else { return Ok(()) };
    let (Some(span), Some((c, at))) = (src.get(pos.off as usize..(pos.off + pos.len) as usize), named.split_once("' at byte-index ")) else { return Err("an escape without its place".into()) };
    let text = span.strip_prefix("\"\"\"").or(span.strip_prefix('"')).unwrap_or(span);
    let at: usize = at.trim_end().trim_end_matches('.').parse().map_err(|_| format!("an escape at {at:?}"))?;
    let first = (0..text.len()).filter(|i| text.is_char_boundary(*i)).find(|i| text.as_bytes()[*i] == b'\\' && crate::reader::unescape(&text[..*i]).is_some() && text[*i..].starts_with(&format!("\\{c}")) && *i == at);
    if first.is_none() { return Err(format!("the error names the escape {:?} at byte {at}, where there is none", format!("\\{c}"))) }
    Ok(())
}

/// The line below the quoted one leads to the column of the error, with its bar below the other bar.
fn markers(rep: &Report) -> Result<(), String> {
    let mut lines = rep.text.split('\n');
    let (Some(quote), Some(marks)) = (lines.next(), lines.next()) else { return Err("the error quotes no line".into()) };
    let bar = quote.find('|').unwrap_or(0);
    let want = format!("{}| {}", " ".repeat(bar), "~".repeat((rep.col - 1).min(u16::MAX as usize)));
    match marks.strip_prefix(&want) {
        Some(rest) if rest.bytes().all(|b| b == b'^') => Ok(()),
        _ => Err(format!("the line below the quoted one is {marks:?}, which does not lead to column {}", rep.col)),
    }
}

/// A report must at least be consistent with some file that was read.
pub fn coherent(w: &World, rep: &Report) -> Result<(), String> {
    if rep.line == 0 { return Ok(()) }
    let files = w.files.borrow();
    let Some((_, src)) = files.iter().find(|f| same_file(&f.0, &rep.file)) else { return Ok(()) };
    match line_text(src, rep.line as u32) {
        Some(l) if l.trim_end_matches('\r') == rep.quoted.trim_end_matches('\r') => {
            if rep.col == 0 || width(l).map_or(false, |w| rep.col > w + 1) { return Err(format!("column {} of {l:?}", rep.col)) }
            markers(rep)
        }
        l => Err(format!("the error quotes {:?} as line {} of {:?}, which is {l:?}", rep.quoted, rep.line, rep.file)),
    }
}

/// The same path, however `.` is written in it.
fn same_file(a: &str, b: &str) -> bool { a == b || a.replace("/./", "/") == b.replace("/./", "/") }

fn same_place(w: &World, a: Pos, b: Pos, names: &Names) -> bool {
    a.is_made() || (a.off == b.off && a.len == b.len && a.line == b.line && same_file(&w.files.borrow()[a.file as usize].0, &names.files[b.file as usize]))
}

fn places(w: &World, m: &N, r: &N, names: &Names) -> Result<(), String> {
    if !same_place(w, m.pos(), r.pos(), names) { return Err(format!("node {} is said to be at {:?} (of {:?}) instead of {:?}", show(std::slice::from_ref(m)), r.pos(), names.files[r.pos().file as usize], m.pos())) }
    match (m, r) {
        (N::List { items, end, .. }, N::List { items: i2, end: e2, .. }) => {
            if !same_place(w, *end, *e2, names) { return Err(format!("closing parenthesis is said to be at {e2:?} instead of {end:?}")) }
            for (a, b) in items.iter().zip(i2) { places(w, a, b, names)? }
            Ok(())
        }
        (N::Attr { val, .. }, N::Attr { val: v2, .. }) => places(w, val, v2, names),
        _ => Ok(()),
    }
}

pub fn fail(c: &Case, msg: String) -> ! {
    let dirs = if c.world.dirs.is_empty() { String::new() } else { format!("include directories: {:?}\n", c.world.dirs) };
    violation(format!("source: {:?}\n{dirs}{msg}", c.src))
}

/// Compare a result; true when both agree that there is one.
fn judge<A>(c: &Case, what: &str, want: &R<A>, got: &Result<A, Report>) -> bool {
    match (want, got) {
        (Err(Bad::Unspec(_)), _) => { if let (true, Err(rep)) = (c.strict, got) { if let Err(m) = coherent(&c.world, rep) { fail(c, format!("{what}: {m}")) } } false }
        (Ok(_), Err(rep)) => fail(c, format!("{what} is reported as an error:\n{}", rep.text)),
        (Err(_), Ok(_)) => fail(c, format!("{what} should be an error, but is not")),
        (Err(Bad::Err(p)), Err(rep)) => {
            if !c.strict { return false }
            let r = match p { Some(p) if !p.is_made() => points(&c.world, rep, *p), _ => coherent(&c.world, rep) };
            if let Err(m) = r { fail(c, format!("{what}: {m}\n{}", rep.text)) }
            false
        }
        (Ok(_), Ok(_)) => true,
    }
}

/// Reading only.
pub fn reading(c: &Case) {
    let want = crate::reader::read(0, c.src);
    let (got, names) = real::read(c.name.unwrap_or("<stdin>"), c.src);
    let mut h = String::new();
    if judge(c, "reading", &want, &got) {
        let (w, g) = (want.as_ref().unwrap(), got.as_ref().unwrap());
        let (ws, gs) = (show(w), show(g));
        if ws != gs { fail(c, format!("read as a different tree\n{}", diff(&ws, &gs))) }
        if c.strict { for (a, b) in w.iter().zip(g) { if let Err(m) = places(&c.world, a, b, &names) { fail(c, m) } } }
        h = ws;
    } else { h += &format!("{:?}", want.err()) }
    note(c, &h);
}

fn note(c: &Case, h: &str) {
    outcome(h.as_bytes());
    sample(|| format!("{:?} => {}", c.src, h));
}

/// Reading, expansion and generation.
pub fn compare(c: &Case) -> Option<Vec<N>> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compare_once(c)));
    match r {
        Ok(v) => v,
        Err(p) => {
            // Is this exactly what is known to go wrong?
            if let (true, Some(id)) = (p.is::<Violation>(), c.world.quirks.met.get()) {
                if is_known(id) {
                    c.world.quirks.imitate.set(true);
                    let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compare_once(c)));
                    c.world.quirks.imitate.set(false);
                    if again.is_ok() { known_finding(id, c.src); return None }
                }
            }
            std::panic::resume_unwind(p)
        }
    }
}

fn compare_once(c: &Case) -> Option<Vec<N>> {
    let want = expand::expand(&c.world);
    if verbose() { println!("source: {}\nmodel: {:?}", c.src, want.as_ref().map(|t| show(t))) }
    // Without a bound, recursion exhausts the stack.
    if let Err(Bad::Unspec("unbounded recursion")) = want { unspecified(); return None }
    let got = real::run(c.name, c.src, &c.world.dirs, c.targets);
    if let Err(Bad::Unspec(_)) = want {
        unspecified();
        judge(c, "expansion", &want, &got.tree);
        return None;
    }
    let mut h = String::new();
    let mut expanded = None;
    if judge(c, "expansion", &want, &got.tree) {
        let (w, g) = (want.as_ref().unwrap(), got.tree.as_ref().unwrap());
        let (ws, gs) = (normal(&show(w)), normal(&show(g)));
        if ws != gs { fail(c, format!("expanded to a different tree\n{}", diff(&ws, &gs))) }
        if c.strict { for (a, b) in w.iter().zip(g) { if let Err(m) = places(&c.world, a, b, &got.names) { fail(c, m) } } }
        h += &ws;
        for (t, doc, out) in &got.outs {
            let what = format!("{} {}", t.name(), if *doc { "document" } else { "fragment" });
            let want = if *doc { render::document(&c.world, *t, w) } else { render::fragment(&c.world, *t, w) };
            if judge(c, &what, &want, out) {
                let (a, b) = (normal(want.as_ref().unwrap()), normal(out.as_ref().unwrap()));
                if a != b { fail(c, format!("{what} differs\n{}", diff(&format!("{a:?}"), &format!("{b:?}")))) }
                h += &a;
            } else { h += &format!("{:?}", want.err()) }
            h.push('|');
        }
        expanded = want.ok();
    } else { h += &format!("{:?}", want.err()) }
    note(c, &h);
    expanded
}

pub fn explain(src: &str) {
    let w = World::main("<stdin>", src);
    match expand::expand(&w) {
        Ok(t) => {
            println!("{}", show(&t));
            for x in TARGETS { println!("{} {:?}\n     {:?}", x.name(), render::fragment(&w, x, &t), render::document(&w, x, &t)) }
        }
        Err(e) => println!("{e:?}"),
    }
    install_hook();
    compare(&case(src));
}
