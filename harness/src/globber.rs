//! Reference for `%glob`: paths below the working directory which match a pattern.
use crate::model::*;
use std::cmp::Ordering;

fn component(pat: &[char], s: &[char]) -> bool {
    match pat.split_first() {
        None => s.is_empty(),
        Some(('*', rest)) => (0..=s.len()).any(|i| component(rest, &s[i..])),
        Some(('?', rest)) => !s.is_empty() && component(rest, &s[1..]),
        Some(('[', rest)) => {
            let neg = rest.first() == Some(&'!');
            let r = if neg { &rest[1..] } else { rest };
            let Some(end) = r.iter().skip(1).position(|c| *c == ']').map(|i| i + 1) else { return false };
            let Some((c, s)) = s.split_first() else { return false };
            let set = &r[..end];
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == '-' { hit |= set[i] <= *c && *c <= set[i + 2]; i += 3 } else { hit |= set[i] == *c; i += 1 }
            }
            hit != neg && component(&r[end + 1..], s)
        }
        Some((p, rest)) => s.first() == Some(p) && component(rest, &s[1..]),
    }
}

fn entries(dir: &str) -> Vec<String> {
    let d = if dir.is_empty() { "." } else { dir };
    let mut v: Vec<String> = std::fs::read_dir(d).into_iter().flatten().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    v.sort();
    v
}

fn walk(dir: &str, pats: &[&str], out: &mut Vec<String>) {
    let join = |n: &str| if dir.is_empty() { n.to_string() } else if dir.ends_with('/') { format!("{dir}{n}") } else { format!("{dir}/{n}") };
    let Some((p, rest)) = pats.split_first() else { out.push(dir.to_string()); return };
    if *p == "**" {
        walk(dir, rest, out);
        for n in entries(dir) { let path = join(&n); if std::fs::metadata(&path).map_or(false, |m| m.is_dir()) { walk(&path, pats, out) } }
        return;
    }
    let plain = !p.contains(['*', '?', '[']);
    for n in entries(dir) {
        let hit = if plain { *p == n } else { component(&p.chars().collect::<Vec<_>>(), &n.chars().collect::<Vec<_>>()) };
        if !hit { continue }
        let path = join(&n);
        if rest.is_empty() || std::fs::metadata(&path).map_or(false, |m| m.is_dir()) { walk(&path, rest, out) }
    }
}

pub fn glob(pattern: &str, ty: &str, sort: &str, down: bool, any_order: bool) -> R<Vec<String>> {
    if pattern.is_empty() || pattern.ends_with('/') || pattern.contains("//") || pattern.split('/').any(|c| c == "." || c == ".." || (c.contains("**") && c != "**")) || pattern.ends_with("**") { return unspec("unusual pattern") }
    for c in pattern.split('/') { if let Some(i) = c.find('[') { if !c[i + 1..].contains(']') { return err() } } }
    let mut found = vec![];
    match pattern.strip_prefix('/') { Some(p) => walk("/", &p.split('/').collect::<Vec<_>>(), &mut found), None => walk("", &pattern.split('/').collect::<Vec<_>>(), &mut found) }
    found.sort();
    found.dedup();
    let meta = |p: &str| std::fs::metadata(p).or_else(|_| std::fs::symlink_metadata(p)).unwrap();
    found.retain(|p| match ty { "file" => meta(p).is_file(), "directory" => meta(p).is_dir(), _ => true });
    let path = |a: &String, b: &String| a.split('/').cmp(b.split('/'));
    let ext = |p: &str| { let n = p.rsplit('/').next().unwrap(); match n.rfind('.') { Some(i) if i > 0 => Some(n[i + 1..].to_string()), _ => None } };
    let order: Box<dyn Fn(&String, &String) -> Ordering> = match sort {
        "name" => Box::new(path),
        "type" => Box::new(move |a, b| meta(b).is_dir().cmp(&meta(a).is_dir()).then_with(|| ext(a).cmp(&ext(b))).then_with(|| path(a, b))),
        "modified" => Box::new(move |a, b| meta(b).modified().unwrap().cmp(&meta(a).modified().unwrap()).then_with(|| path(a, b))),
        "created" => Box::new(move |a, b| meta(b).created().unwrap().cmp(&meta(a).created().unwrap()).then_with(|| path(a, b))),
        _ => { if found.len() > 1 && !any_order { return unspec("order") } Box::new(path) }
    };
    found.sort_by(|a, b| order(a, b));
    if down { found.reverse() }
    Ok(found)
}
