//! C01, C02, C03: reading, identity, places.
use super::*;
use crate::model::*;
use crate::{real, render};

const CHARS: [&str; 15] = ["a", "(", ")", "\"", " ", "\n", ":", ";", "\\", "1", "é", "+", "\t", "\r", "n"];
const ESCAPES: [&str; 15] = ["\\", "a", "n", "x", "u", "{", "}", "4", "1", "0", "7", "9", "\"", "é", "'"];

fn read_text(src: &str, strict: bool) { let mut c = case(src); c.strict = strict; reading(&c) }

fn text_spaces(deep: bool, strict: bool, n: usize, f: fn(&str, bool)) -> Vec<Space> {
    let m = if deep { 6 } else { 5 };
    let t = if deep { 4 } else { 3 };
    let top = if deep { 0x110000 } else { 0x3400 };
    vec![
        space("characters", format!("every text of up to {n} characters over {CHARS:?}"), move |ch| {
            let s = sequence(ch, &CHARS, n);
            ch.commit();
            f(&s, strict)
        }),
        space("string-bodies", format!("every string body of up to {m} characters over {ESCAPES:?}, in both kinds of quotes, followed by another word"), move |ch| {
            let q = ch.of(&["\"", "\"\"\""]);
            let b = sequence(ch, &ESCAPES, m);
            ch.commit();
            f(&format!("{q}{b}{q} z"), strict)
        }),
        space("tokens", format!("every sequence of up to {t} tokens and separators"), move |ch| {
            let toks = ["a", "(", ")", "\"s\"", ":k", "1", "-", "\"\"\"x\"y\ny\"\"\"", "\"\"", "\\(", "b\\ c", ":", "\"\\n\n\"", "a;b", "日", "\\\n", "\"\"\"\"\"\"", "👩\u{200d}💻"];
            let seps = ["", " ", "\n", ";c\n", " ;(\"\n ", "\r\n\t"];
            let mut s = String::new();
            for _ in 0..t {
                match ch.pick(toks.len() + 1) { 0 => break, i => { s += toks[i - 1]; s += ch.of(&seps) } }
            }
            ch.commit();
            f(&s, strict)
        }),
        space("code-points", format!("every character below U+{top:X} in a word, first in a word, escaped, in a string, in a keyword, in a comment"), move |ch| {
            let hi = ch.pick(top / 256);
            let lo = ch.pick(256);
            let Some(c) = char::from_u32((hi * 256 + lo) as u32) else { ch.skip() };
            let shape = ch.pick(6);
            ch.commit();
            let s = match shape { 0 => format!("(a{c}b)"), 1 => format!("(x {c}b)"), 2 => format!("\\{c} z"), 3 => format!("\"{c}\" z"), 4 => format!("(:k{c} v)"), _ => format!(";{c}\n{c}") };
            f(&s, strict)
        }),
        space("long", "words, strings, comments, nesting, lines and siblings of every length up to 300".to_string(), move |ch| {
            let shape = ch.pick(8);
            let n = ch.pick(301);
            ch.commit();
            let s = match shape {
                0 => format!("{} z", "w".repeat(n)),
                1 => format!("\"{}\" z", "é".repeat(n)),
                2 => format!(";{}\nz", "c".repeat(n)),
                3 => format!("{}{}(", "(a ".repeat(n), ")".repeat(n)),
                4 => format!("{}(:k v\n ))", "x\n".repeat(n)),
                5 => format!("({}\n :k \"\"\"{}\"\"\" )", " s".repeat(n), "\n".repeat(n)),
                6 => format!("{}a{}", "(".repeat(n), ")".repeat(n)),
                _ => format!("{}\"\\q\"", "\\n\n".repeat(n)),
            };
            f(&s, strict)
        }),
        space("huge", "the same, and offsets, lines and columns, around the sizes where 8 and 16 bits or a buffer end", move |ch| {
            let shape = ch.pick(9);
            let n = ch.of(&[511usize, 512, 513, 1023, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32767, 32768, 65534, 65535, 65536, 65537]);
            // Many nodes take the model long.
            if matches!(shape, 4 | 8) && n > 9000 { ch.skip() }
            ch.commit();
            let s = match shape {
                0 => format!("{} z", "w".repeat(n)),
                1 => format!("\"{}\" z\n(:k v", "é".repeat(n)),
                2 => format!(";{}\nz (", "c".repeat(n)),
                3 => format!("{}(a \n b)", "\n".repeat(n)),
                4 => format!("({}) (", " s".repeat(n)),
                5 => format!("{}(a\t(b) \"c\")", " ".repeat(n)),
                6 => format!("\"\"\"{}\"\"\" (z", "\n".repeat(n)),
                7 => format!("\"{}\"z \"\\q\"", "\\n".repeat(n)),
                _ => format!("{})", "a\n".repeat(n)),
            };
            f(&s, strict)
        }),
    ]
}

pub fn c01(deep: bool, _: u32) -> Vec<Space> { text_spaces(deep, false, if deep { 7 } else { 6 }, read_text) }

/// A word which reads as itself.
fn plain_word(n: &N) -> bool {
    match n {
        N::Atom { k: K::Sym | K::Num, v, .. } => {
            let digit = v.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-');
            !v.is_empty() && !v.contains(|c: char| "()\"\\ \t\n\r".contains(c)) && !v.starts_with([';', ':']) && n.is(K::Num) == digit
        }
        N::Atom { .. } => true,
        N::List { items, .. } => items.iter().all(plain_word),
        N::Attr { val, .. } => plain_word(val),
    }
}

/// Words that run into what follows them read differently.
fn separate(ns: &[N], after: &mut bool) -> bool {
    for n in ns {
        let ok = match n {
            N::Atom { k, ws, .. } => { let word = matches!(k, K::Sym | K::Num); let ok = !(word && *after && ws.is_empty()); *after = word; ok }
            N::List { items, .. } => { *after = false; let ok = separate(items, after); *after = false; ok }
            N::Attr { ws, val, .. } => {
                let ok = !(*after && ws.is_empty());
                *after = true;
                ok && separate(std::slice::from_ref(val), after)
            }
        };
        if !ok { return false }
    }
    true
}

fn identity(src: &str) {
    let mut c = case(src);
    c.targets = &[T::Text, T::Sexp];
    let Some(tree) = compare(&c) else { return };
    again(src, &tree);
}

/// Reading the sexp output again yields the tree.
fn again(src: &str, tree: &[N]) {
    if !tree.iter().all(plain_word) || !separate(tree, &mut false) { return }
    let w = World::main("<stdin>", src);
    let text = render::fragment(&w, T::Sexp, tree).unwrap_or_else(|_| panic!("sexp"));
    let got = real::run(None, &text, &[], &[]);
    match got.tree {
        Ok(t) => { let (a, b) = (show(tree), show(&t)); if a != b { violation(format!("source: {src:?}\nsexp output {text:?} does not read as the same tree\nfirst:  {a}\nsecond: {b}")) } }
        Err(e) => violation(format!("source: {src:?}\nsexp output {text:?} cannot be read again: {}", e.text)),
    }
}

fn no_macro(src: &str, _: bool) { if src.contains('%') { return } identity(src) }

pub fn c02(deep: bool, _: u32) -> Vec<Space> {
    let mut v = text_spaces(deep, false, if deep { 6 } else { 5 }, no_macro);
    v.push(depths(deep, &[T::Sexp, T::Text], &["@", "(x @ y)", "(%string @)", "#"]));
    let d = if deep { 5 } else { 4 };
    v.push(space("trees", format!("every tree of up to {d} nodes over atoms of each kind, attributes and lists, with each kind of whitespace"), move |ch| {
        let mut budget = d;
        let mut s = String::new();
        fn node(ch: &mut Ch, budget: &mut usize, s: &mut String, depth: usize) {
            let seps = [" ", "\n  ", " ;c\n"];
            while *budget > 0 {
                let k = ch.pick(if depth < 3 { 9 } else { 7 });
                if k == 0 { break }
                *budget -= 1;
                if !s.is_empty() && !s.ends_with('(') { *s += ch.of(&seps) }
                match k {
                    1 => *s += "a", 2 => *s += "-2", 3 => *s += "\"q\\\"<\\t\"", 4 => *s += "\"\"\"\n\"\"\"", 5 => *s += "\\;\\\\", 6 => *s += ":k v",
                    7 => { *s += ":m"; *s += ch.of(&seps); *s += ":n"; *s += ch.of(&[" ", "\n  "]); *s += "w" }
                    _ => { *s += if ch.flag() { "(" } else { ":l (" }; node(ch, budget, s, depth + 1); *s += if ch.flag() { ")" } else { "\n )" } }
                }
            }
        }
        node(ch, &mut budget, &mut s, 0);
        ch.commit();
        identity(&s)
    }));
    v.push(space("string-values", "every string value of up to 3 characters over controls, quotes, digits, braces, combining and wide characters", |ch| {
        let cs = ["\0", "1", "7", "\\\\", "\\\"", "'", "\n", "\r", "\t", "\\u{301}", "é", "日", "\\x7f", "\\u{85}", "{", "}", "u", "\\e", "\u{200b}", "\u{feff}", "\\u{10ffff}", "😀", "a"];
        let b = sequence(ch, &cs, 3);
        let raw = ch.flag();
        ch.commit();
        if raw { let src = format!("(%raw \"{b}\")"); let mut c = case(&src); c.targets = &[T::Text, T::Sexp]; if let Some(t) = compare(&c) { again(&src, &t) } }
        else { identity(&format!("(a \"{b}\" :k \"{b}\")")) }
    }));
    v
}

pub fn c03(deep: bool, _: u32) -> Vec<Space> {
    let mut v = text_spaces(deep, true, if deep { 7 } else { 6 }, read_text);
    // Errors of expansion and generation, below something that occupies lines and columns.
    v.push(space("diagnostics", "every faulty construct, with every prefix on its line and every preceding text, for each target, as standard input or file", |ch| {
        let before = ["", "a\n", "\n\n", ";c\n", "\"x\ny\"\n", "\"\"\"\n\n\"\"\" ", "é\\\n", "(p \"\\n\")\r\n", "x ; é\n  \n", "(q\n (r \"\n\"))\n"];
        let line = ["", " ", "\t", "é ", "日 ", "\"a\\\"b\" ", "e\u{301} ", "\"m\nn\" ", "(s) ", "👩\u{200d}💻 ", "🇩🇪x ", "❤\u{fe0f} ", "👍🏽\u{20e3} ", "\u{1100}\u{1161}\u{11a8} ", "\u{644}\u{627}\u{200d}"];
        let faults = ["%u", "(%u)", "(%u 1 2)", "(a %u)", ":k %u", "(\"s\")", "()", "(a b :c d)", "(p :k (l))", "(br x)", "(1)", "(!d (x))", "\"", "\"\"\"u", ")", "(", ":k", "(:k )", "\"\\q\"", "(a\n \"\n\\q\")",
            ":k (%do )", "(%define)", "(%get 1 2)", "(%match)", "(%define (f x)) %f", "(%ifdef a)", "(%include \"/nonexistent\")", "(style (:a b))", "(style x)", "(style (a (b)))", "(svg (p b :c d))", "(style (@media (a :b c) d))", "(style \"a\" b)", "(p (:é v))", "(日本 %u)", "(%map f 1)", "(%sort 1)", "(%number (1))"];
        let after = ["", " z", "\nz"];
        let s = format!("{}{}{}{}", ch.of(&before), ch.of(&line), ch.of(&faults), ch.of(&after));
        let name = ch.of(&[None, Some("dir/some file.sex")]);
        ch.commit();
        let mut c = case(&s);
        c.name = name;
        c.world = World::main(name.unwrap_or("<stdin>"), &s);
        c.strict = true;
        compare(&c);
    }));
    v.push(space("included-files", "every faulty construct in an included file of the working directory, a subdirectory or an include directory, included under every spelling of its name, directly or through another file", |ch| {
        let pre = ch.of(&["", "é ", "x\n\n  ", "\"m\nn\" ", "(q\n", "; c\n"]);
        let bad = ch.of(&["%u", "(%u 1)", "\"", ")", "(", ":k", "\"\\q\"", "(br x)", "()", "(p :k (l))", "(%get 9 (1))", "(%join)", "(%include none)", "(%f 1 2)", "(%yaml \"[\")", "(%date 1)"]);
        let post = ch.of(&["", "\n", ")"]);
        let at = ch.of(&["cwd/f", "cwd/sub/f", "cwd/sub/f.sex", "d1/f", "d1/deep/f.sex", "cwd/é f.sex"]);
        let via = ch.pick(4);
        ch.commit();
        let home = super::files::layout(&[(at.to_string(), super::files::text(format!("{pre}{bad}{post}"))), ("cwd/other/g".into(), super::files::text("\n(%include h)")), ("d1/h".into(), super::files::text(format!("x\n (%include \"{}\")", at.trim_start_matches("cwd/").trim_start_matches("d1/"))))]);
        let name = at.trim_start_matches("cwd/").trim_start_matches("d1/");
        let src = match via { 0 => format!("(%define (f x) %x)\n(p\n (%include \"{name}\"))"), 1 => format!("(%include \"{}\")", name.trim_end_matches(".sex")), 2 => format!("é\n(%include \"./{name}\")"), _ => "(%include other/g)".to_string() };
        super::files::strict(&src, vec![format!("{home}/d1")], &TARGETS);
    }));
    v
}
