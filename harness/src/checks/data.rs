//! C15, C16, C17: data imports and Markdown.
use super::*;
use crate::expand::{Data, Lang, Markdown};
use Data::*;

const SEXP: &[T] = &[T::Sexp];

/// A string literal with this value.
pub fn literal(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c => o.push(c) } }
    o + "\""
}

fn gen(ch: &mut Ch, budget: &mut usize, depth: usize, scalars: &[Data], keys: &[&str]) -> Data {
    *budget = budget.saturating_sub(1);
    let k = ch.pick(scalars.len() + if depth < 4 { 2 } else { 0 });
    if k < scalars.len() { return scalars[k].clone() }
    if k == scalars.len() {
        let mut v = vec![];
        while *budget > 0 && ch.flag() { v.push(gen(ch, budget, depth + 1, scalars, keys)) }
        Seq(v)
    } else { Map(pairs(ch, budget, depth, scalars, keys)) }
}

fn pairs(ch: &mut Ch, budget: &mut usize, depth: usize, scalars: &[Data], keys: &[&str]) -> Vec<(String, Data)> {
    let mut v: Vec<(String, Data)> = vec![];
    while *budget > 0 {
        let free: Vec<&&str> = keys.iter().filter(|k| !v.iter().any(|p| p.0 == **k)).collect();
        match ch.pick(free.len() + 1) { 0 => break, i => { let k = free[i - 1].to_string(); let d = gen(ch, budget, depth + 1, scalars, keys); v.push((k, d)) } }
    }
    v
}

fn paths(d: &Data, sep: &str, at: Option<&str>, out: &mut Vec<String>) {
    if let Some(p) = at { out.push(p.to_string()) }
    let under = |k: &str| at.map_or(k.to_string(), |p| format!("{p}{sep}{k}"));
    match d {
        Seq(v) => for (i, d) in v.iter().enumerate() { paths(d, sep, Some(&under(&i.to_string())), out) },
        Map(v) => for (k, d) in v { paths(d, sep, Some(&under(k)), out) },
        _ => {}
    }
}

/// Uses of every name that data defines and of some that it does not.
fn probes(docs: &[Data], sep: &str) -> String {
    let mut ps = vec![];
    for d in docs { paths(d, sep, None, &mut ps) }
    for p in ["a", "b", "0", "1", "2"] { for q in ["", "a", "0", "1"] { ps.push(if q.is_empty() { p.to_string() } else { format!("{p}{sep}{q}") }) } }
    ps.sort();
    ps.dedup();
    ps.iter().filter(|p| !p.is_empty() && !p.contains(|c: char| "()\"\\; \t\n:".contains(c))).map(|p| format!(" (%ifdef {p} ({p} %{p}) -)")).collect()
}

fn escaped(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r", c if (c as u32) < 32 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}

fn plain(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') }

fn word(s: &str, style: usize) -> String { if style == 0 || !plain(s) { escaped(s) } else { s.to_string() } }

/// YAML texts of data: 0 is JSON, 1 flow style, 2 blocks, 3 compact blocks.
fn yaml(d: &Data, style: usize, indent: usize, out: &mut String) {
    let pad = " ".repeat(indent);
    match d {
        Str(s) => { *out += &word(s, style) }
        Num(s) | Sym(s) => *out += s,
        Seq(v) if style < 2 || v.is_empty() => { out.push('['); for (i, d) in v.iter().enumerate() { if i > 0 { *out += ", " } yaml(d, style, 0, out) } out.push(']') }
        Map(v) if style < 2 || v.is_empty() => {
            out.push('{');
            for (i, (k, d)) in v.iter().enumerate() { if i > 0 { *out += ", " } *out += &word(k, style); *out += ": "; yaml(d, style, 0, out) }
            out.push('}')
        }
        Seq(v) => for (i, d) in v.iter().enumerate() {
            if i > 0 { out.push('\n'); *out += &pad }
            match d {
                Map(v) if !v.is_empty() && style == 3 => { *out += "- "; yaml(d, style, indent + 2, out) }
                Seq(v) if !v.is_empty() && style == 3 => { *out += "- "; yaml(d, style, indent + 2, out) }
                Map(v) if !v.is_empty() => { *out += "-\n"; *out += &" ".repeat(indent + 3); yaml(d, style, indent + 3, out) }
                Seq(v) if !v.is_empty() => { *out += "-\n"; *out += &" ".repeat(indent + 3); yaml(d, style, indent + 3, out) }
                d => { *out += "- "; yaml(d, style, indent, out) }
            }
        },
        Map(v) => for (i, (k, d)) in v.iter().enumerate() {
            if i > 0 { out.push('\n'); *out += &pad }
            *out += &word(k, style);
            out.push(':');
            match d {
                Seq(v) if !v.is_empty() && style == 3 => { out.push('\n'); *out += &pad; yaml(d, style, indent, out) }
                Map(v) if !v.is_empty() => { out.push('\n'); *out += &" ".repeat(indent + 2); yaml(d, style, indent + 2, out) }
                Seq(v) if !v.is_empty() => { out.push('\n'); *out += &" ".repeat(indent + 2); yaml(d, style, indent + 2, out) }
                d => { out.push(' '); yaml(d, style, indent, out) }
            }
        },
    }
}

fn imported(name: &str, lang: Lang, text: &str, docs: Option<Vec<Data>>, opt: &str, sep: &str) {
    let src = format!("<(%{name}{opt} {})>{}", literal(text), probes(docs.as_deref().unwrap_or(&[]), sep));
    let mut c = case(&src);
    c.targets = SEXP;
    c.world.data.insert((lang, text.to_string()), docs);
    compare(&c);
}

fn s(v: &str) -> Data { Str(v.into()) }

pub fn c15(deep: bool, _: u32) -> Vec<Space> {
    let n = if deep { 7 } else { 6 };
    vec![
        gaps(deep, SEXP, &["(x (%yaml \"k: [a, {l: b}]\" :separator .) %k.1.l)", "(%json \"[p, q]\") %0 (%ifdef 1 %1 no)"]),
        again(deep, SEXP, "", &["(%yaml \"k: 1\")", "(%yaml \"k: 2\")", "(_ (%ifdef k %k no))", "(%json \"[p, q]\")", "(%yaml \"k: [a, {l: b}]\" :separator #)", "(_ (%ifdef k/1/l %k/1/l no))", "(_ (%ifdef k212l %k212l (%ifdef k414l %k414l no)))", "(%define k #)", "(%namespace n (%yaml \"k: 1\"))", "(_ (%ifdef n/k %n/k no))"]),
        renamed(deep, SEXP, &["(%define AA 1)(%yaml \"k: 1\")(_ %k (%ifdef AA %AA no))", "(%namespace AA (%yaml \"k: [a, {l: b}]\"))(_ (%ifdef AA/k/1/l yes no) (%ifdef BB/k yes no))", "(%define (AA BB) (%yaml %BB) (_ %k))(%AA \"k: 1\")(_ (%ifdef k yes no))", "(%yaml \"k: [a, {l: b}]\" :separator AA)(_ (%ifdef kAA1AAl yes no) (%ifdef kBB1 yes no))"]),
        space("documents", format!("every document of up to {n} nodes over 2 scalars, 2 keys, mappings and sequences, as JSON, in flow style and in two block styles"), move |ch| {
            let mut budget = n;
            let d = gen(ch, &mut budget, 0, &[s("x"), s("12")], &["a", "b"]);
            let style = ch.pick(4);
            ch.commit();
            let mut t = String::new();
            yaml(&d, style, 0, &mut t);
            imported(if style == 0 { "json" } else { "yaml" }, Lang::Yaml, &t, Some(vec![d]), "", "/");
        }),
        space("frames", "every small document with each separator, with comments, markers and blank lines around it, and where the call stands", move |ch| {
            let mut budget = 4;
            let d = gen(ch, &mut budget, 0, &[s("x")], &["a", "b"]);
            let style = ch.pick(4);
            let (opt, sep) = ch.of(&[("", "/"), (" :separator \".\"", "."), (" :separator \"\"", ""), (" :separator -", "-"), (" :separator \"a\"", "a")]);
            let (pre, post) = ch.of(&[("", ""), ("---\n", "\n"), ("# c\n\n", "\n# d\n"), ("", "\n...\n"), ("%YAML 1.2\n---\n", "\n"), ("\n\n", "\n\n")]);
            if style < 1 && !pre.is_empty() && pre.starts_with(['#', '%', '-']) { ch.skip() }
            let place = ch.pick(3);
            ch.commit();
            let mut t = String::new();
            yaml(&d, style, 0, &mut t);
            let t = format!("{pre}{t}{post}");
            let call = format!("(%yaml{opt} {})", literal(&t));
            let src = match place { 0 => format!("{call}{}", probes(&[d.clone()], sep)), 1 => format!("(p :k  {call} z){}", probes(&[d.clone()], sep)), _ => format!("(%do\n {call}){}(%define (f x) %x) (%f {call})", probes(&[d.clone()], sep)) };
            let mut c = case(&src);
            c.targets = SEXP;
            c.world.data.insert((Lang::Yaml, t), Some(vec![d]));
            compare(&c);
        }),
        space("scalars", format!("every scalar of up to {} characters over 20, single- and double-quoted, as document, value, key and item", if deep { 4 } else { 3 }), move |ch| {
            let v = sequence(ch, &["a", "1", " ", "\"", "'", "\\", ":", "#", "-", ",", "[", "}", "&", "*", "\n", "\t", "é", "😀", "%", "\u{0}"], if deep { 4 } else { 3 });
            let q = ch.pick(2);
            if q == 1 && v.contains(['\n', '\0', '\t']) { ch.skip() }
            let at = ch.pick(5);
            ch.commit();
            let t = if q == 0 { escaped(&v) } else { format!("'{}'", v.replace('\'', "''")) };
            let (text, d) = match at {
                0 => (t, s(&v)),
                1 => (format!("k: {t}"), Map(vec![("k".into(), s(&v))])),
                2 => (format!("- {t}\n- y"), Seq(vec![s(&v), s("y")])),
                3 => (format!("{{\"k\": [{t}, {t}]}}"), Map(vec![("k".into(), Seq(vec![s(&v), s(&v)]))])),
                _ => (format!("{{{t}: z}}"), Map(vec![(v.clone(), s("z"))])),
            };
            imported("yaml", Lang::Yaml, &text, Some(vec![d]), "", "/");
        }),
        space("plain-scalars", "plain scalars of every kind, block scalars, anchors and tags, as value and item", move |ch| {
            let (t, v) = ch.of(&[("x", "x"), ("true", "true"), ("no", "no"), ("null", "null"), ("~", "~"), ("", ""), ("1.50", "1.50"), ("0x1F", "0x1F"), ("-1", "-1"), ("2001-01-01", "2001-01-01"), ("a b", "a b"), ("a  b", "a  b"), ("x # c", "x"), ("a:b", "a:b"), ("&an x", "x"), ("!!str 5", "5"), ("|\n  l1\n  l2\n", "l1\nl2\n"), (">\n  l1\n  l2\n", "l1 l2\n"), ("|-\n  l1\n", "l1"), ("x\n  y", "x y"), ("é日", "é日"), ("{}", "\0map"), ("[]", "\0seq")]);
            let at = ch.pick(3);
            ch.commit();
            let d = match v { "\0map" => Map(vec![]), "\0seq" => Seq(vec![]), v => s(v) };
            let (t, d) = match at { 0 => (format!("k: {t}\nl: 1"), Map(vec![("k".into(), d), ("l".into(), s("1"))])), 1 => (format!("- {t}\n- 1"), Seq(vec![d, s("1")])), _ => (format!("m:\n k: {t}\n l: 1").replace("\n  l", "\n    l").replace("\n  y", "\n   y"), Map(vec![("m".into(), Map(vec![("k".into(), d), ("l".into(), s("1"))]))])) };
            imported("yaml", Lang::Yaml, &t, Some(vec![d]), "", "/");
        }),
        space("keys", "keys of up to 3 of 16 characters or of special meaning, at every level, with every kind of value, in every style", move |ch| {
            let special = ["null", "true", "1.5", "0x1F", "~", "a b", "-", "K", "\u{301}", "<<", "a/b", "0/0", "__proto__", "日本", "key with spaces", " a", "a ", "  ", "\ta", "a\n"];
            let k = match ch.pick(special.len() + 1) { 0 => sequence(ch, &[" ", "a", "A", "/", "0", "\"", "'", "\\", ":", "#", "%", "(", "é", ".", "-", "&"], if deep { 3 } else { 2 }), i => special[i - 1].to_string() };
            let v = match ch.pick(6) { 0 => s(&k), 1 => Seq(vec![s(&k), Seq(vec![])]), 2 => Map(vec![(k.clone(), s("x"))]), 3 => Seq(vec![Map(vec![(k.clone(), Seq(vec![s("x")]))])]), 4 => Map(vec![]), _ => s("") };
            let d = match ch.pick(4) { 0 => Map(vec![(k.clone(), v)]), 1 => Map(vec![("z".into(), s("1")), (k.clone(), v.clone()), ("y".into(), v)]), 2 => Map(vec![("z".into(), Map(vec![(k.clone(), v)]))]), _ => Seq(vec![Map(vec![(k.clone(), v)])]) };
            let style = ch.pick(4);
            ch.commit();
            let mut t = String::new();
            yaml(&d, style, 0, &mut t);
            imported(if style == 0 { "json" } else { "yaml" }, Lang::Yaml, &t, Some(vec![d]), "", "/");
        }),
        space("errors", "texts outside of the subset, alone and inside of 5 contexts", move |ch| {
            let bad = ch.of(&["[1, 2", "{a: 1", "\"x", "'x", "[1]]", "*x", "{[1]: 2}", "? [1]\n: 2", "{{a: 1}: 2}", "]", "}", "a: b: c", "[a, b: {]", "@x", "`x", "\"\\q\"", "{a: &x 1, b: *x}", "&x [*x]", "? {a: 1}\n: 2", "%", "[*x]", "{a: *y}"]);
            let (a, b) = ch.of(&[("", ""), ("[", "]"), ("{k: ", "}"), ("k: ", ""), ("- ok\n- ", ""), ("{a: 1, b: [2, ", "]}")]);
            ch.commit();
            if bad.contains('\n') && !a.is_empty() { unspecified(); return }
            imported("yaml", Lang::Yaml, &format!("{a}{bad}{b}"), None, "", "/");
        }),
        space("truncation", "every JSON document of up to 4 nodes cut at every place, or with one bracket exchanged", move |ch| {
            let mut budget = 4;
            let d = gen(ch, &mut budget, 0, &[s("x")], &["a", "b"]);
            if matches!(d, Str(_)) { ch.skip() }
            ch.commit();
            let mut t = String::new();
            yaml(&d, 0, 0, &mut t);
            let at = 1 + ch.pick(t.len() - 1);
            let how = ch.pick(2);
            let bad = if how == 0 { t[..at].to_string() } else {
                let c = &t[at..at + 1];
                let r = match c { "]" => "}", "}" => "]", _ => ch.skip() };
                format!("{}{r}{}", &t[..at], &t[at + 1..])
            };
            imported("json", Lang::Yaml, &bad, None, "", "/");
        }),
        space("duplicates", "mappings with repeated keys, keys that look like indices, and several imports of overlapping names", move |ch| {
            let k = |ch: &mut Ch| ch.of(&["a", "b", "0", "a/0", ""]).to_string();
            let v = |ch: &mut Ch| { let o = ch.of(&[s("x"), s("y"), Seq(vec![s("p"), s("q")]), Map(vec![("0".into(), s("m"))])]); o };
            let d1 = Map(vec![(k(ch), v(ch)), (k(ch), v(ch))]);
            let d2 = if ch.flag() { Some(Map(vec![(k(ch), v(ch))])) } else { None };
            ch.commit();
            let mut texts = vec![];
            for d in std::iter::once(&d1).chain(d2.iter()) { let mut t = String::new(); yaml(d, 0, 0, &mut t); texts.push((t, d.clone())) }
            let docs: Vec<Data> = texts.iter().map(|t| t.1.clone()).collect();
            let src = format!("{}{}", texts.iter().map(|(t, _)| format!("(%json {})", literal(t))).collect::<Vec<_>>().join(" "), probes(&docs, "/"));
            let mut c = case(&src);
            c.targets = SEXP;
            for (t, d) in texts { c.world.data.insert((Lang::Yaml, t), Some(vec![d])); }
            compare(&c);
        }),
        space("streams", "texts of up to 3 small documents in each style, complete or malformed after the first", move |ch| {
            let mut docs = vec![];
            let mut t = String::new();
            let style = ch.pick(4);
            for i in 0..3 {
                if i > 0 && !ch.flag() { break }
                let m = |k: &str, d: Data| Map(vec![(k.into(), d)]);
                let d = ch.of(&[s("x"), Seq(vec![]), Map(vec![]), Seq(vec![s("x")]), m("a", s("x")), m("a", m("b", s("y"))), Seq(vec![Seq(vec![s("x")]), s("y")])]);
                t += if i > 0 { "\n---\n" } else { "" };
                yaml(&d, style, 0, &mut t);
                docs.push(d);
            }
            let (end, ok) = ch.of(&[("", true), ("\n", true), ("\n...\n", true), ("\n---\n[", false), ("\n---\n]", false), ("\n---\n*x", false), ("\n---\na: b: c", false), ("\n...\n\"", false)]);
            ch.commit();
            imported("yaml", Lang::Yaml, &format!("{t}{end}"), if ok { Some(docs) } else { None }, "", "/");
        }),
        space("scopes", "imports inside of every kind of scope, followed by uses of the names outside", move |ch| {
            let call = "(%yaml \"a: {b: [1, {a: x}]}\")";
            let wrap = ch.of(&["@", "(p @)", "(%do @)", "(%define (f) @)(%f)", "(%match 1 (x @))", "(%for i in (1 2) @)", "(%namespace n @)", "(%namespace n :separator \"-\" @ %a/b)", "(%define v @) %v", "(%map do @)", "(%get a/b/1/a @)", "(%get a @) %a/b/0", "(%ifdef q @ @)", "(%define a old)(%f @)", "(%define (f x) %x %a/b/0)(%f @)", "(%list @)"]);
            let after = ch.of(&["", " %a/b/0 ", " (%f) "]);
            ch.commit();
            let d = Map(vec![("a".into(), Map(vec![("b".into(), Seq(vec![s("1"), Map(vec![("a".into(), s("x"))])]))]))]);
            let src = format!("{}{after}{}(%ifdef n/a/b/0 %n/a/b/0 none)(%ifdef n-a %n-a none)", wrap.replace('@', call), probes(&[d.clone()], "/"));
            let mut c = case(&src);
            c.targets = SEXP;
            c.world.data.insert((Lang::Yaml, "a: {b: [1, {a: x}]}".into()), Some(vec![d]));
            compare(&c);
        }),
        space("large", "mappings and sequences of every length up to 60 and around the powers of two up to 256, flat or nested to every depth up to 60", move |ch| {
            let n = match ch.pick(61 + 9) { n if n <= 60 => n, n => SIZES[n - 61] };
            let shape = ch.pick(4);
            if n > 60 && shape == 2 { ch.skip() }
            let style = ch.pick(4);
            ch.commit();
            let d = match shape {
                0 => Seq((0..n).map(|i| s(&i.to_string())).collect()),
                1 => Map((0..n).map(|i| (format!("k{i}"), s(&i.to_string()))).collect()),
                2 => (0..n).fold(s("x"), |d, i| if i % 2 == 0 { Seq(vec![s("y"), d]) } else { Map(vec![("a".into(), d), ("b".into(), s("z"))]) }),
                _ => Seq((0..n).map(|i| Map(vec![("a".into(), Seq(vec![s("1"); i % 4])), ("b".into(), s("2"))])).collect()),
            };
            let mut t = String::new();
            yaml(&d, style, 0, &mut t);
            imported("yaml", Lang::Yaml, &t, Some(vec![d]), "", "/");
        }),
    ]
}

fn toml_inline(d: &Data) -> String {
    match d {
        Str(s) => escaped(s),
        Num(s) | Sym(s) => s.clone(),
        Seq(v) => format!("[{}]", v.iter().map(toml_inline).collect::<Vec<_>>().join(", ")),
        Map(v) => format!("{{{}}}", v.iter().map(|(k, d)| format!("{} = {}", toml_key(k), toml_inline(d))).collect::<Vec<_>>().join(", ")),
    }
}

fn toml_key(k: &str) -> String { if plain(k) { k.into() } else { escaped(k) } }

fn dotted(v: &[(String, Data)], at: &str, out: &mut String) {
    for (k, d) in v {
        let p = format!("{at}{}", toml_key(k));
        match d { Map(v) if !v.is_empty() => dotted(v, &format!("{p}."), out), d => *out += &format!("{p} = {}\n", toml_inline(d)) }
    }
}

fn tables(v: &[(String, Data)], at: &str, out: &mut String) {
    let table = |d: &Data| matches!(d, Map(_)) || matches!(d, Seq(i) if !i.is_empty() && i.iter().all(|d| matches!(d, Map(_))));
    for (k, d) in v { if !table(d) { *out += &format!("{} = {}\n", toml_key(k), toml_inline(d)) } }
    for (k, d) in v {
        let p = format!("{at}{}", toml_key(k));
        match d {
            Map(v) => { *out += &format!("[{p}]\n"); tables(v, &format!("{p}."), out) }
            Seq(i) if table(d) => for d in i { if let Map(v) = d { *out += &format!("[[{p}]]\n"); tables(v, &format!("{p}."), out) } },
            _ => {}
        }
    }
}

/// Tables are kept in the order of their keys.
fn sorted(d: &Data) -> Data {
    match d {
        Seq(v) => Seq(v.iter().map(sorted).collect()),
        Map(v) => { let mut v: Vec<_> = v.iter().map(|(k, d)| (k.clone(), sorted(d))).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); Map(v) }
        d => d.clone(),
    }
}

fn toml_text(v: &[(String, Data)], style: usize) -> String {
    let mut t = String::new();
    match style { 0 => for (k, d) in v { t += &format!("{} = {}\n", toml_key(k), toml_inline(d)) }, 1 => dotted(v, "", &mut t), _ => tables(v, "", &mut t) }
    t
}

pub fn c16(deep: bool, _: u32) -> Vec<Space> {
    let n = if deep { 6 } else { 5 };
    fn scalars() -> Vec<Data> { vec![s("x"), Num("12".into()), Sym("true".into())] }
    vec![
        gaps(deep, SEXP, &["(x (%toml \"k.l = [1, true]\" :separator .) %k.l.1)", "(%toml \"k = 1\") %k (_ %k)"]),
        again(deep, SEXP, "", &["(%toml \"k = 1\")", "(%toml \"k = 2\")", "(_ (%ifdef k %k no))", "(%toml \"k.l = [1, true]\" :separator #)", "(%toml \"k.l = [1, true]\")", "(_ (%ifdef k/l/1 %k/l/1 no))", "(_ (%ifdef k2l21 %k2l21 (%ifdef k3l31 %k3l31 no)))", "(%define k #)", "(%namespace n (%toml \"k = 1\"))", "(_ (%ifdef n/k %n/k no))"]),
        renamed(deep, SEXP, &["(%define AA 1)(%toml \"k = 1\")(_ %k (%ifdef AA %AA no))", "(%namespace AA (%toml \"k.l = [1, true]\"))(_ (%ifdef AA/k/l/1 yes no) (%ifdef BB/k yes no))", "(%define (AA BB) (%toml %BB) (_ %k))(%AA \"k = 1\")(_ (%ifdef k yes no))", "(%toml \"k.l = [1, true]\" :separator AA)(_ (%ifdef kAAlAA1 yes no) (%ifdef kBBl yes no))"]),
        space("documents", format!("every document of up to {n} nodes over 3 scalars, 2 keys, tables and arrays, with inline tables, dotted keys and table headers"), move |ch| {
            let mut budget = n;
            let v = pairs(ch, &mut budget, 0, &scalars(), &["a", "b"]);
            let style = ch.pick(3);
            ch.commit();
            imported("toml", Lang::Toml, &toml_text(&v, style), Some(vec![sorted(&Map(v))]), "", "/");
        }),
        space("key-characters", "keys of up to 3 of 14 characters or of special meaning, at every level, with every kind of value, in every style", move |ch| {
            let special = ["true", "1.5", "a b", "-", "K", "\u{301}", "a/b", "a.b", "0/0", "日本", " a", "a ", "  ", "\ta", "a\n", "_", "A-1"];
            let k = match ch.pick(special.len() + 1) { 0 => sequence(ch, &[" ", "a", "A", "/", "0", "\"", "'", "\\", ":", "#", "é", ".", "-", "="], if deep { 3 } else { 2 }), i => special[i - 1].to_string() };
            let v = match ch.pick(6) { 0 => s(&k), 1 => Seq(vec![s(&k), Seq(vec![])]), 2 => Map(vec![(k.clone(), s("x"))]), 3 => Seq(vec![Map(vec![(k.clone(), Seq(vec![s("x")]))])]), 4 => Map(vec![]), _ => Num("7".into()) };
            let m = match ch.pick(4) { 0 => vec![(k.clone(), v)], 1 => vec![("z".into(), s("1")), (k.clone(), v.clone())], 2 => vec![("z".into(), Map(vec![(k.clone(), v)]))], _ => vec![("z".into(), Seq(vec![Map(vec![(k.clone(), v)])]))] };
            if m.len() == 2 && m[1].0 == "z" { ch.skip() }
            let style = ch.pick(3);
            ch.commit();
            imported("toml", Lang::Toml, &toml_text(&m, style), Some(vec![sorted(&Map(m))]), "", "/");
        }),
        space("values", "every kind and spelling of value, as value, array item and in nested tables", move |ch| {
            let num = |s: &str| Num(s.into());
            let sym = |s: &str| Sym(s.into());
            let vals: Vec<(&str, Data)> = vec![("1", num("1")), ("-17", num("-17")), ("+9", num("9")), ("1_000", num("1000")), ("0xFF", num("255")), ("0o17", num("15")), ("0b101", num("5")), ("9223372036854775807", num("9223372036854775807")), ("-9223372036854775808", num("-9223372036854775808")),
                ("1.5", num("1.5")), ("-0.25", num("-0.25")), ("6.02e3", num("6020")), ("1e2", num("100")), ("1e20", num("100000000000000000000")), ("-1e20", num("-100000000000000000000")), ("1e23", num("100000000000000000000000")), ("1e-7", num("0.0000001")), ("3.0", num("3")), ("9223372036854775808.0", num("9223372036854776000")), ("-0.0", num("-0")), ("0.1", num("0.1")), ("123456789.123456789", num("123456789.12345679")), ("true", sym("true")), ("false", sym("false")),
                ("1979-05-27T07:32:00Z", sym("1979-05-27T07:32:00Z")), ("1979-05-27T00:32:00-07:00", sym("1979-05-27T00:32:00-07:00")), ("1979-05-27T07:32:00", sym("1979-05-27T07:32:00")), ("1979-05-27", sym("1979-05-27")), ("07:32:00", sym("07:32:00")), ("07:32:00.5", sym("07:32:00.5")), ("07:32:00.000123", sym("07:32:00.000123")), ("1979-05-27T07:32:00.999999999Z", sym("1979-05-27T07:32:00.999999999Z")), ("1979-05-27 07:32:00", sym("1979-05-27T07:32:00")), ("1979-05-27T00:32:00.120-07:00", sym("1979-05-27T00:32:00.12-07:00")), ("1979-05-27T00:32:00+00:00", sym("1979-05-27T00:32:00+00:00")),
                ("\"\"", s("")), ("'a\\b'", s("a\\b")), ("\"\"\"\na\nb\"\"\"", s("a\nb")), ("'''x'y'''", s("x'y")), ("\"\\u00e9\\t\\\"\"", s("é\t\"")), ("[]", Seq(vec![])), ("{}", Map(vec![])), ("[[1], [\"a\", [2]]]", Seq(vec![Seq(vec![num("1")]), Seq(vec![s("a"), Seq(vec![num("2")])])])), ("[ 1, # c\n 2,\n]", Seq(vec![num("1"), num("2")])),
                ("{x = {y = 1}}", Map(vec![("x".into(), Map(vec![("y".into(), num("1"))]))])), ("{x.y = 1, \"q r\" = 2}", Map(vec![("q r".into(), num("2")), ("x".into(), Map(vec![("y".into(), num("1"))]))])), ("[1, \"a\", true, 1.5, {a = 1}, [1]]", Seq(vec![num("1"), s("a"), sym("true"), num("1.5"), Map(vec![("a".into(), num("1"))]), Seq(vec![num("1")])]))];
            let (t, d) = ch.of(&vals);
            let at = ch.pick(5);
            ch.commit();
            let one = |k: &str, d: Data| Map(vec![(k.into(), d)]);
            let (t, d) = match at {
                0 => (format!("a = {t}"), one("a", d)),
                1 => (format!("a = [{t}, {t}]"), one("a", Seq(vec![d.clone(), d]))),
                2 => (format!("[b]\n\"a c\" = {t}\nz = 1"), one("b", Map(vec![("a c".into(), d), ("z".into(), num("1"))]))),
                3 => (format!("[[b]]\na = {t}\n[[b]]\nc = {t}\n[b.d]\ne = 1"), one("b", Seq(vec![one("a", d.clone()), Map(vec![("c".into(), d), ("d".into(), one("e", num("1")))])]))),
                _ => { if t.contains('\n') { unspecified(); return } (format!("a = {{b = [{t}]}}"), one("a", one("b", Seq(vec![d])))) }
            };
            imported("toml", Lang::Toml, &t, Some(vec![d]), "", "/");
        }),
        space("keys", "every pair of keys of each kind, in one table or nested, with each separator", move |ch| {
            let keys = ["a", "b", "B", "0", "1", "a-b", "a_b", "\"\"", "\"a b\"", "\"a.b\"", "'a/0'", "\"é\"", "a.b"];
            let value = |k: &str| k.trim_matches(['"', '\'']).to_string();
            let (k1, k2) = (ch.of(&keys), ch.of(&keys));
            let (opt, sep) = ch.of(&[("", "/"), (" :separator \".\"", "."), (" :separator \"\"", ""), (" :separator x", "x")]);
            let shape = ch.pick(3);
            ch.commit();
            if k1 == k2 && shape == 0 { imported("toml", Lang::Toml, &format!("{k1} = 1\n{k2} = 2"), None, opt, sep); return }
            if shape == 0 && ((k1 == "a.b" && k2 == "a") || (k1 == "a" && k2 == "a.b")) { imported("toml", Lang::Toml, &format!("{k1} = 1\n{k2} = 2"), None, opt, sep); return }
            fn put(m: &mut Vec<(String, Data)>, path: &[String], d: Data) {
                if path.len() == 1 { m.push((path[0].clone(), d)); return }
                if let Some((_, Map(inner))) = m.iter_mut().find(|p| p.0 == path[0]) { put(inner, &path[1..], d); return }
                let mut inner = vec![];
                put(&mut inner, &path[1..], d);
                m.push((path[0].clone(), Map(inner)));
            }
            let parts = |k: &str| -> Vec<String> { if k == "a.b" { vec!["a".into(), "b".into()] } else { vec![value(k)] } };
            let (p1, p2) = (parts(k1), parts(k2));
            let mut m = vec![];
            let n = |v: &str| Num(v.into());
            let t = match shape {
                0 => { put(&mut m, &p1, n("1")); put(&mut m, &p2, n("2")); format!("{k1} = 1\n{k2} = 2") }
                1 => { put(&mut m, &[p1.clone(), p2.clone()].concat(), n("1")); format!("[{k1}]\n{k2} = 1") }
                _ => { put(&mut m, &[p1.clone(), p2.clone()].concat(), Seq(vec![n("1"), Map(vec![("z".into(), s("q"))])])); format!("{k1}.{k2} = [1, {{z = \"q\"}}]") }
            };
            imported("toml", Lang::Toml, &t, Some(vec![sorted(&Map(m))]), opt, sep);
        }),
        space("errors", "malformed texts, alone and after or before a good line", move |ch| {
            let bad = ch.of(&["a", "a =", "= 1", "a = x", "a = [1", "a = {b = 1", "[a", "[[a]", "a = \"x", "a = 'x", "a = 1 2", "a = 1\na = 2", "[t]\n[t]", "a.b = 1\na = 2", "a = 01", "a = 1.", "a = 1__0", "a = 2001-13-01", "a = 25:00:00", "a = \"\\q\"", "a = {b = 1,}", "a = {b = 1\n}", "a = 9223372036854775808", "[]", "a = [1,,2]", "a b = 1", "a = tru", "\u{1}", "a = \"\n\""]);
            let (x, y) = ch.of(&[("", ""), ("z = 1\n", ""), ("", "\nz = 1"), ("[q]\n", "\n[r]\n")]);
            ch.commit();
            imported("toml", Lang::Toml, &format!("{x}{bad}{y}"), None, "", "/");
        }),
        space("scopes", "imports inside of every kind of scope, followed by uses of the names outside", move |ch| {
            let text = "a = {b = [1, {a = true}]}";
            let call = format!("(%toml \"{text}\")");
            let wrap = ch.of(&["@", "(p @)", "(%do @)", "(%define (f) @)(%f)", "(%match 1 (x @))", "(%for i in (1 2) @)", "(%namespace n @)", "(%namespace n :separator \"-\" @ %a/b)", "(%define v @) %v", "(%map do @)", "(%get a/b/1/a @)", "(%get a @) %a/b/0", "(%ifdef q @ @)", "(%define (f x) %x %a/b/0)(%f @)", "(%list @)"]);
            let after = ch.of(&["", " %a/b/0 ", " (%f) "]);
            ch.commit();
            let d = Map(vec![("a".into(), Map(vec![("b".into(), Seq(vec![Num("1".into()), Map(vec![("a".into(), Sym("true".into()))])]))]))]);
            let src = format!("{}{after}{}(%ifdef n/a/b/0 %n/a/b/0 none)(%ifdef n-a %n-a none)", wrap.replace('@', &call), probes(&[d.clone()], "/"));
            let mut c = case(&src);
            c.targets = SEXP;
            c.world.data.insert((Lang::Toml, text.into()), Some(vec![d]));
            compare(&c);
        }),
        space("large", "tables and arrays of every length up to 60 and around the powers of two up to 256, flat or nested to every depth up to 40", move |ch| {
            let n = match ch.pick(61 + 9) { n if n <= 60 => n, n => SIZES[n - 61] };
            let shape = ch.pick(4);
            if n > 60 && shape == 2 { ch.skip() }
            let style = ch.pick(3);
            ch.commit();
            let num = |i: usize| Num(i.to_string());
            let d = match shape {
                0 => Map(vec![("a".into(), Seq((0..n).map(num).collect()))]),
                1 => Map((0..n).map(|i| (format!("k{}", if n > 60 { i } else { (i * 37) % 61 }), num(i))).collect()),
                2 => (0..n % 41).fold(Map(vec![("x".into(), num(1))]), |d, i| if i % 2 == 0 { Map(vec![("b".into(), Seq(vec![num(i), d]))]) } else { Map(vec![("a".into(), d), ("c".into(), s("z"))]) }),
                _ => Map(vec![("t".into(), Seq((0..n).map(|i| Map(vec![("a".into(), Seq(vec![num(1); i % 4])), ("b".into(), num(2))])).collect()))]),
            };
            let Map(v) = &d else { unreachable!() };
            imported("toml", Lang::Toml, &toml_text(v, style), Some(vec![sorted(&d)]), "", "/");
        }),
    ]
}

pub fn c17(deep: bool, _: u32) -> Vec<Space> {
    // Blocks of Markdown and their HTML.
    const BLOCKS: [(&str, &str); 33] = [
        ("text", "<p>text</p>"), ("a *em* b", "<p>a <em>em</em> b</p>"), ("**b** `c<d`", "<p><strong>b</strong> <code>c&lt;d</code></p>"), ("# H", "<h1>H</h1>"), ("## H2 *x*", "<h2>H2 <em>x</em></h2>"),
        ("- i\n- j", "<ul>\n<li>i</li>\n<li>j</li>\n</ul>"), ("1. i\n2. j", "<ol>\n<li>i</li>\n<li>j</li>\n</ol>"), ("> q", "<blockquote>\n<p>q</p>\n</blockquote>"), ("```\ncode <x> & \"q\"\n```", "<pre><code>code &lt;x&gt; &amp; &quot;q&quot;\n</code></pre>"),
        ("***", "<hr />"), ("[l](http://x/?a=1)", "<p><a href=\"http://x/?a=1\">l</a></p>"), ("<div class=\"k\">raw & html</div>", "<div class=\"k\">raw & html</div>"), ("a <b>x</b> c", "<p>a <b>x</b> c</p>"), ("x & y < z", "<p>x &amp; y &lt; z</p>"),
        ("![i](p.png \"t\")", "<p><img src=\"p.png\" alt=\"i\" title=\"t\" /></p>"), ("[j](javascript:x)", "<p><a href=\"javascript:x\">j</a></p>"), ("&copy; \\*s\\*", "<p>© *s*</p>"), ("l1\nl2", "<p>l1\nl2</p>"), ("é日 ~~", "<p>é日 ~~</p>"), ("(%x) %y \\\\", "<p>(%x) %y \\</p>"), ("<script>1 < 2</script>", "<script>1 < 2</script>"), ("'q' \"d\"", "<p>'q' &quot;d&quot;</p>"),
        ("|a|b|\n|-|:-:|\n|c|`d`|", "<table>\n<thead>\n<tr>\n<th>a</th>\n<th align=\"center\">b</th>\n</tr>\n</thead>\n<tbody>\n<tr>\n<td>c</td>\n<td align=\"center\"><code>d</code></td>\n</tr>\n</tbody>\n</table>"),
        ("- [x] a\n- [ ] b", "<ul>\n<li><input type=\"checkbox\" disabled=\"\" checked=\"\" /> a</li>\n<li><input type=\"checkbox\" disabled=\"\" /> b</li>\n</ul>"),
        ("~~s~~ $m$ www.x.yz [^1]", "<p>~~s~~ $m$ www.x.yz [^1]</p>"), ("S\n===", "<h1>S</h1>"), ("a  \nb\\\nc", "<p>a<br />\nb<br />\nc</p>"), ("- i\n  - j\n\n    k", "<ul>\n<li>i\n<ul>\n<li>\n<p>j</p>\n<p>k</p>\n</li>\n</ul>\n</li>\n</ul>"),
        ("```rs\nfn\n```", "<pre><code class=\"language-rs\">fn\n</code></pre>"), ("~~~\na\n\n\n  b\n~~~", "<pre><code>a\n\n\n  b\n</code></pre>"), ("<http://x/?a&b>", "<p><a href=\"http://x/?a&amp;b\">http://x/?a&amp;b</a></p>"), ("<!-- c & d -->", "<!-- c & d -->"), ("3. x", "<ol start=\"3\">\n<li>x</li>\n</ol>"),
    ];
    fn front() -> Vec<(&'static str, Option<(Lang, Option<Vec<Data>>)>)> {
        let m = |v: Vec<(&str, Data)>| Some(vec![Map(v.into_iter().map(|(k, d)| (k.to_string(), d)).collect())]);
        vec![
            ("", None),
            ("---\na: 1\nb: [x, {a: y}]\n---\n", Some((Lang::Yaml, m(vec![("a", s("1")), ("b", Seq(vec![s("x"), Map(vec![("a".into(), s("y"))])]))])))),
            ("+++\na = 1\nb = [\"x\", {a = true}]\n+++\n", Some((Lang::Toml, m(vec![("a", Num("1".into())), ("b", Seq(vec![s("x"), Map(vec![("a".into(), Sym("true".into()))])]))])))),
            ("---\na: \"<t> & 'q'\"\n---\n\n", Some((Lang::Yaml, m(vec![("a", s("<t> & 'q'"))])))),
            ("---\n- p\n- q\n---\n", Some((Lang::Yaml, Some(vec![Seq(vec![s("p"), s("q")])])))),
            ("---\na: [1\n---\n", Some((Lang::Yaml, None))),
            ("+++\na 1\n+++\n", Some((Lang::Toml, None))),
            ("---\n*x\n---\n", Some((Lang::Yaml, None))),
            ("---\n---\n", Some((Lang::Yaml, Some(vec![])))),
            ("+++\n+++\n", Some((Lang::Toml, m(vec![])))),
            ("---\na: b\n...\n---\n", Some((Lang::Yaml, m(vec![("a", s("b"))])))),
            ("--- \t\na: 1\n---\t\n", Some((Lang::Yaml, m(vec![("a", s("1"))])))),
            ("\u{feff}---\na: 1\n---\n", Some((Lang::Yaml, m(vec![("a", s("1"))])))),
            ("+++\na = 1\nb = \"---\"\n+++\n", Some((Lang::Toml, m(vec![("a", Num("1".into())), ("b", s("---"))])))),
        ]
    }
    // What only looks like front matter, and its HTML.
    const LIKE: [(&str, &str); 8] = [("---\n\n", "<hr />\n"), ("+++\n\n", "<p>+++</p>\n"), ("--- x\n\n---\n\n", "<p>--- x</p>\n<hr />\n"), ("----\na: 1\n----\n\n", "<hr />\n<h2>a: 1</h2>\n"), ("text\n\n---\n\na: 1\n\n---\n\n", "<p>text</p>\n<hr />\n<p>a: 1</p>\n<hr />\n"), ("\n---\n\na: 1\n\n---\n\n", "<hr />\n<p>a: 1</p>\n<hr />\n"), ("---\n+++\n\n", "<hr />\n<p>+++</p>\n"), ("++++\na\n++++\n\n", "<p>++++\na\n++++</p>\n")];
    let n = if deep { 3 } else { 2 };
    vec![
        gaps(deep, SEXP, &["(x (%markdown \"---\\nk: 1\\n---\\n*a*\") %k y)", "(%markdown :only content \"---\\nk: 1\\n---\\n*a*\") (%ifdef k yes no)", "(%markdown \"+++\\nk = 2\\n+++\\n*a*\" :only frontmatter) (%ifdef k %k no)"]),
        again(deep, SEXP, "", &["(%markdown \"*a*\")", "(%markdown \"---\\nk: 1\\n---\\n*a*\")", "(%markdown \"+++\\nk = 2\\n+++\\n*a*\")", "(%markdown :only content \"---\\nk: 1\\n---\\n*a*\")", "(%markdown :only frontmatter \"+++\\nk = 2\\n+++\\n*a*\")", "(_ (%ifdef k %k no))", "(%define k #)", "(%namespace n (%markdown \"---\\nk: 1\\n---\\n*a*\"))", "(_ (%ifdef n/k %n/k no))"]),
        renamed(deep, SEXP, &["(%define AA 1)(%markdown \"---\\nk: 1\\n---\\n*a*\")(_ %k (%ifdef AA %AA no))", "(%namespace AA (%markdown :only frontmatter \"+++\\nk = 2\\n+++\\n*a*\"))(_ (%ifdef AA/k yes no) (%ifdef BB/k yes no))", "(%define (AA BB) (%markdown %BB) (_ %k))(%AA \"---\\nk: 1\\n---\\n*a*\")(_ (%ifdef k yes no))"]),
        space("sizes", "texts and front matter of sizes around the powers of two up to 1024", move |ch| {
            let n = SIZES[ch.pick(12)];
            let shape = ch.pick(5);
            ch.commit();
            let entries = |n: usize| Map((0..n).map(|i| (format!("k{i}"), s(&format!("v{i}")))).collect());
            let (front, text, html) = match shape {
                0 => (None, (0..n).map(|i| format!("t{i} & *e*\n\n")).collect(), (0..n).map(|i| format!("<p>t{i} &amp; <em>e</em></p>\n")).collect()),
                1 => (None, format!("{}\n", vec!["w"; n].join("\n")), format!("<p>{}</p>\n", vec!["w"; n].join("\n"))),
                2 => (Some(entries(n)), "x\n".to_string(), "<p>x</p>\n".to_string()),
                3 => (Some(Map(vec![("a".into(), s(&"é".repeat(n)))])), "é".repeat(n), format!("<p>{}</p>", "é".repeat(n))),
                _ => (None, format!("```\n{}```\n", "<\n".repeat(n)), format!("<pre><code>{}</code></pre>\n", "&lt;\n".repeat(n))),
            };
            let front = front.map(|f| { let Map(v) = &f else { unreachable!() }; (format!("---\n{}---\n", v.iter().map(|(k, d)| { let Str(d) = d else { unreachable!() }; format!("{k}: {d}\n") }).collect::<String>()), f) });
            let text: String = format!("{}{text}", front.as_ref().map_or("", |f| &f.0));
            let uses = front.as_ref().map_or(String::new(), |f| probes(&[f.1.clone()], "/"));
            let html: String = html;
            let text = text.trim_end().to_string();
            let src = format!("(div (%markdown {})){uses}", literal(&text));
            let mut c = case(&src);
            c.world.markdown.insert(text, Markdown { front: front.map(|f| (Lang::Yaml, Some(vec![f.1]))), html: html.trim_end().into() });
            compare(&c);
        }),
        space("no-front-matter", format!("every of {} openings that are not front matter with every list of up to {n} blocks, for every :only", LIKE.len()), move |ch| {
            let (mut text, mut html) = { let (t, h) = ch.of(&LIKE); (t.to_string(), h.to_string()) };
            let mut last = "";
            for i in 0..n { match ch.pick(BLOCKS.len() + 1) { 0 => break, k => {
                let (t, h) = BLOCKS[k - 1];
                if last.len() > 2 && last[..3] == h[..3] && ["<ul", "<ol", "<bl"].contains(&&h[..3]) { ch.skip() }
                if i > 0 { text += "\n\n"; html += "\n" }
                text += t; html += h; last = h
            } } }
            if last.is_empty() { ch.skip() }
            let only = ch.of(&["", " :only content", " :only frontmatter"]);
            ch.commit();
            let src = format!("(p (%markdown{only} {}))", literal(&text));
            let mut c = case(&src);
            c.world.markdown.insert(text, Markdown { front: None, html });
            compare(&c);
        }),
        space("documents", format!("every front matter of {} with up to {n} of {} blocks, for every :only, in each kind of place, on every target", front().len(), BLOCKS.len()), move |ch| {
            let (f, meaning) = ch.of(&front());
            let mut text = f.to_string();
            let mut html = vec![];
            for _ in 0..n { match ch.pick(BLOCKS.len() + 1) { 0 => break, i => { let (t, h) = BLOCKS[i - 1]; if !html.is_empty() { text += "\n\n" } text += t; html.push(h) } } }
            // Adjacent lists and quotations merge.
            for w in html.windows(2) { if w[0][..3] == w[1][..3] && (w[0].starts_with("<ul") || w[0].starts_with("<ol") || w[0].starts_with("<blockq")) { ch.skip() } }
            let only = ch.of(&["", " :only content", " :only frontmatter", " :only \"content\""]);
            let place = ch.pick(4);
            ch.commit();
            if html.is_empty() && !f.is_empty() && place > 0 { unspecified(); return }
            let call = format!("(%markdown{only} {})", literal(&text));
            let good: Vec<Data> = match &meaning { Some((_, Some(d))) => d.clone(), _ => vec![] };
            let broken = matches!(&meaning, Some((_, None)));
            let uses = if broken { String::new() } else { probes(&good, "/") };
            let src = match place { 0 => format!("{call}{uses}"), 1 => format!("(div\n  {call} end){uses}"), 2 => format!("(p (%do {call}){uses})"), _ => format!("(%define m {call})(p %m){uses}") };
            let mut html = html.join("\n");
            if html.is_empty() && f.is_empty() { html = String::new() }
            let mut c = case(&src);
            c.world.markdown.insert(text, Markdown { front: meaning, html });
            compare(&c);
        }),
        space("separators", "front matter imported with every separator", move |ch| {
            let i = ch.pick(front().len());
            let (f, meaning) = front()[i].clone();
            let (opt, sep) = ch.of(&[("", "/"), (" :separator \".\"", "."), (" :separator \"\"", ""), (" :separator \"--\"", "--")]);
            let only = ch.of(&["", " :only content", " :only frontmatter"]);
            let swap = ch.flag();
            ch.commit();
            if matches!(&meaning, Some((_, None))) { unspecified(); return }
            let good: Vec<Data> = match &meaning { Some((_, Some(d))) => d.clone(), _ => vec![] };
            let text = format!("{f}x");
            let src = format!("(%markdown{} {}){}", if swap { format!("{only}{opt}") } else { format!("{opt}{only}") }, literal(&text), probes(&good, sep));
            let mut c = case(&src);
            c.world.markdown.insert(text, Markdown { front: meaning, html: "<p>x</p>".into() });
            compare(&c);
        }),
        space("library", format!("every text of up to {} of 18 pieces of Markdown which is no front matter, with every :only, compared with what the Markdown library makes of it", if deep { 5 } else { 4 }), move |ch| {
            let t = sequence(ch, &["a", " ", "\n", "\r\n", "\r", "\t", "# ", "- ", "*", "`", "<b>", "&amp;", "\\", "| a |\n|-|\n", "> ", "~~", "$", "[a](b:c \"d\")"], if deep { 5 } else { 4 });
            let only = ch.of(&["", " :only content"]);
            let place = ch.of(&["(p M)", "(p a\n M)"]);
            if place.len() > 5 && t.len() > 4 { ch.skip() }
            ch.commit();
            let options = markdown::Options {
                parse: markdown::ParseOptions {
                    gfm_strikethrough_single_tilde: false,
                    constructs: markdown::Constructs { gfm_table: true, gfm_task_list_item: true, ..Default::default() },
                    ..Default::default()
                },
                compile: markdown::CompileOptions { allow_dangerous_html: true, allow_dangerous_protocol: true, ..Default::default() },
            };
            let Ok(Ok(html)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| markdown::to_html_with_options(&t, &options))) else { unspecified(); return };
            let src = place.replace('M', &format!("(%markdown{only} {})", literal(&t)));
            let mut c = case(&src);
            c.world.markdown.insert(t, Markdown { front: None, html });
            compare(&c);
        }),
        space("text", format!("every text of up to {} characters over letters, spaces, entities and newlines, as a paragraph", if deep { 6 } else { 5 }), move |ch| {
            let body = sequence(ch, &["a", " ", "<", "&", "\"", "'", ">", "é", ",", "\n"], if deep { 6 } else { 5 });
            ch.commit();
            // Only lines whose reading is beyond doubt: they start and end with a letter.
            let t = format!("x{body}z");
            let doubtful = t.split('\n').any(|l| !l.starts_with(char::is_alphanumeric) || l.ends_with(' ')) || t.contains("<a") || t.contains("<z") || t.contains("&a") || t.contains("<é");
            if doubtful || t.contains("\n\n") { unspecified(); return }
            let html = format!("<p>{}</p>", t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;"));
            let src = format!("(div {})", format!("(%markdown {})", literal(&t)));
            let mut c = case(&src);
            c.world.markdown.insert(t, Markdown { front: None, html });
            compare(&c);
        }),
    ]
}
