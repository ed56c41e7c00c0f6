//! C20 to C24 and C28: generation.
use super::*;
use crate::render::{AT_LINE, AT_NESTED, AT_PLAIN, CSS_FUNCTIONS, VOID};

const HTML: &[T] = &[T::Html];
const XML: &[T] = &[T::Xml];
const CSS: &[T] = &[T::Css];
const MARKUP: &[T] = &[T::Html, T::Xml];

const SPACES: [&str; 5] = ["", " ", "\n", "\n  ", "\t"];

/// Sequences of at most `max` pieces with balanced parentheses (those that open end with their first word).
fn balanced(ch: &mut Ch, pieces: &[&str], max: usize) -> String {
    let mut s = String::new();
    let mut depth = 0;
    for used in 0..max {
        if depth == max - used { s.push_str(")"); depth -= 1; continue }
        let k = ch.pick(pieces.len() + 1);
        if k == 0 { break }
        let p = pieces[k - 1];
        let d = p.matches('(').count() as i32 - p.matches(')').count() as i32;
        if d < 0 && depth == 0 { ch.skip() }
        if d > 0 && depth + 1 > max - used - 1 { ch.skip() }
        depth = (depth as i32 + d) as usize;
        s += p;
    }
    for _ in 0..depth { s.push(')') }
    s
}

const ELEMENTS: [&str; 110] = [
    "a", "abbr", "address", "area", "article", "aside", "audio", "b", "base", "bdi", "bdo", "blockquote", "body", "br", "button", "canvas", "caption", "cite", "code", "col", "colgroup", "data", "datalist", "dd", "del", "details", "dfn",
    "dialog", "div", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe", "img", "input", "ins", "kbd", "label",
    "legend", "li", "link", "main", "map", "mark", "menu", "meta", "meter", "nav", "noscript", "object", "ol", "optgroup", "option", "output", "p", "param", "picture", "progress", "q", "rp", "rt", "ruby", "s", "samp", "search", "section", "select",
    "slot", "small", "source", "span", "strong", "sub", "summary", "sup", "table", "tbody", "td", "template", "tfoot", "th", "thead", "time", "tr", "track", "u", "ul", "var", "video", "wbr", "x-y", "command",
];

fn cased(name: &str, how: usize) -> String {
    match how { 0 => name.into(), 1 => name.to_uppercase(), _ => name.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect() }
}

/// The spaces that HTML and XML share.
fn elements(deep: bool, targets: &'static [T]) -> Vec<Space> {
    let n = if deep { 8 } else { 6 };
    let html = targets == HTML;
    let toks: Vec<&'static str> = if html { vec!["(div", "\n(P", "(BR", "(!x", "(", ")", "\n)", " a", "\n\"s&\"", " :k v", " (%raw \"<\")"] } else { vec!["(div", "\n(P", "(?x", "(!x", "(", ")", "\n)", " a", "\n\"s&\"", " :k v", " (%raw \"<\")"] };
    vec![
        again(deep, targets, "", &["(div :a # (b #) c)", "(br)", "(!x #)", "text#", "(p (q (r #)))", "(p\n #)", "(%raw \"<i>\")"]),
        characters(deep, targets, &["(p \"¤\")", "(p :k \"¤\" a)", "(p (%raw \"¤\"))", "(p (%symbol \"¤\") b)", "(!x \"¤\")"]),
        gaps(deep, targets, &["(div :a \"1\" :b c (br :d e) text (p x (b y)) z)", "(!doctype html)(p (i) \"a\" (b))", "(p (%define (f x) (_ %x)) (%f (b c)) q)"]),
        depths(deep, targets, &["@", "(div @)", "(br @)", "x @ (y\n @)"]),
        sizes(deep, targets, &[
            |n| format!("(div {})", each(n, |i| i.to_string())),
            |n| format!("(div\n{})", each(n, |i| format!("(b{i} \"<\")\n"))),
            |n| format!("(div {} x)", each(n, |i| format!(":k{i} \"&{i}\""))),
            |n| format!("(!d {})", each(n, |i| i.to_string())),
            |n| each(n, |i| format!("(p {i})")),
            |n| format!("({0} {0} \"{0}\" :k {0})", "é".repeat(n)),
            |n| format!("({0} :{0} {0} \"{0}\")", "aB".repeat(n)),
            |n| format!("(div{}x{})", " ".repeat(n), "\n".repeat(n)),
        ]),
        space("trees", format!("every balanced sequence of up to {n} of {toks:?}"), move |ch| {
            let s = balanced(ch, &toks, n);
            ch.commit();
            check_for(&s, targets);
        }),
        space("layouts", "every combination of whitespace in the 6 places of an element, for every kind of first child, tag and outer element", move |ch| {
            let tag = ch.of(if html { &["div", "P", "title", "svg", "style", "script"] } else { &["div", "P", "title", "svg", "style", "?x"] });
            let kid = ch.of(&["a", "\"s\"", "(b)", "(i\n)", "(%do x)", "(%raw \"r\")", "a b", "a\nb", ""]);
            let w: Vec<&str> = (0..4).map(|_| ch.of(&SPACES)).collect();
            let (o, c) = ch.of(&[("", ""), ("(q ", ")"), ("(q\n", "\n)"), ("(q :k v", ")")]);
            let attr = ch.of(&["", ":k v", ":k v\n:l w"]);
            ch.commit();
            let src = format!("{o}{}({tag}{}{attr}{}{kid}{}){c}", w[0], if attr.is_empty() { "" } else { w[1] }, w[2], w[3]);
            if (attr.is_empty() && w[1] != "") || (tag == "style" && html && kid.starts_with("(")) { ch.skip() }
            check_for(&src, targets);
        }),
        space("elements", format!("every element name out of {} in 3 letter cases with every kind of contents", ELEMENTS.len()), move |ch| {
            let e = ch.pick(ELEMENTS.len());
            let tag = cased(ELEMENTS[e], ch.pick(3));
            let inner = ch.of(&["", " x", " :k v", " :k v x", " (b y)", " \"\"", " :k (l)", " x :k v", " ()", "\n", "\n x\n", " (br)", " :k \"\"", " :a 1 :a 2", " (%do )", " (%raw \"<x>\")", "(%do )(%do z)"]);
            let (o, c) = ch.of(&[("", ""), ("(div ", ")"), ("(p\n ", " t)"), ("a ", " b")]);
            ch.commit();
            check_for(&format!("{o}({tag}{inner}){c}"), targets);
        }),
        space("void", "every void element in 3 letter cases in documents of two elements", move |ch| {
            let a = cased(VOID[ch.pick(VOID.len())], ch.pick(3));
            let b = cased(VOID[ch.pick(VOID.len())], ch.pick(2));
            let (x, y) = (ch.of(&["", " :k v", " t", "\n"]), ch.of(&["", "\n :k v\n", " (p)"]));
            ch.commit();
            check_for(&format!("({a}{x})\n({b}{y})"), targets);
        }),
        space("attributes", "every sequence of up to 3 attributes and other items over every kind of value, with every whitespace (the same one between three)", move |ch| {
            let vals = ["v", "7", "\"s <'>\"", "\"\"", "()", "(l)", ":m n", "(%raw \"a&b\")", "(%do )", "(%do x)", "(%do x y)", "%n", "(%concat a \"<\")", "\"l1\nl2\"", "é"];
            let keys = [":k", ":K", ":data-x", ":xlink:href", ":\\(", ":1"];
            let m = 1 + ch.pick(if deep { 3 } else { 2 });
            let mut s = String::new();
            let all = if m == 3 { Some(ch.of(&[" ", "\n ", ""])) } else { None };
            for _ in 0..m {
                s += match all { Some(w) => w, None => ch.of(&[" ", "\n ", ""]) };
                let k = ch.pick(keys.len() + 1);
                if k > 0 { s += keys[k - 1]; s += " " }
                s += ch.of(&vals);
            }
            let tag = ch.of(if html { &["div", "br", "svg", "pre"] } else { &["div", "br", "?pi", "!d"] });
            ch.commit();
            check_for(&format!("(%define n 5)({tag}{s})"), targets);
        }),
        space("names", format!("every name of up to {} of 22 pieces, as tag with and without contents and as keyword", if deep { 4 } else { 3 }), move |ch| {
            let s = sequence(ch, &["a", "B", "É", "ß", "İ", "ſ", "\u{212a}", ",", ":", "-", "_", ".", "1", "&", "<", "'", "=", "/", "!", "?", "日", "xml"], if deep { 4 } else { 3 });
            if s.is_empty() { ch.skip() }
            ch.commit();
            check_for(&format!("({s})({s} x)"), targets);
            check_for(&format!("(p :{s} v)({s} :{s})({s} :{s} {s} {s})"), targets);
        }),
        space("names-alike", "every structural name with one piece added at either end, or in place of a letter, with every kind of contents", move |ch| {
            let e = ch.of(&["html", "xml", "br", "svg", "title", "style", "script", "!doctype", "?xml", "!--", "lang", "charset", "space", "version", "encoding"]);
            let c: Vec<char> = e.chars().collect();
            let add = ch.of(&["-", "_", ":", ".", "é", "1", "x", "X", "!", "?", "xml:", ":xml", "/", " "]);
            let i = ch.pick(2 * c.len() + 1);
            let (o, r) = ch.of(&[("", ""), ("", " x"), ("", " :NAME v x"), ("p :", " v"), ("p :", " preserve\n (i) y"), ("", "\n (b)\n")]);
            ch.commit();
            let at = i / 2;
            let name: String = c[..at].iter().collect::<String>() + add + &c[(at + i % 2).min(c.len())..].iter().collect::<String>();
            check_for(&format!("({o}{name}{})", r.replace("NAME", &name)), targets);
        }),
        space("declarations", "every declaration of up to 3 items of every kind", move |ch| {
            let tag = ch.of(&["!DOCTYPE", "!doctype", "!", "!--", "?xml", "?", "?xml-stylesheet", "!x!", "a!", "a?"]);
            let mut s = String::new();
            for _ in 0..3 { match ch.pick(13) { 0 => break, i => s += [" html", "\n7", " \"s\"", " ()", " (b)", " :k v", " :k \"<&\"", " :k (l)", " (%raw \"x\")", " (%do y)", " %n", "\"t\""][i - 1] } }
            let (o, c) = ch.of(&[("", ""), ("(p ", ")"), ("x", "\ny")]);
            ch.commit();
            check_for(&format!("(%define n a<b){o}({tag}{s}){c}"), targets);
        }),
        space("heads", "every kind of first item of a list, with and without what follows", move |ch| {
            let h = ch.of(&["", "1", "-x", "\"div\"", "(div)", ":k v", "(%raw \"div\")", "%t", "%n", "(%do p)", "(%do )", "(%do p q)", "(%symbol \"\")", "(%symbol \"a b\")", "(%symbol 7)", "(%number p)", "é", "a<b", "\\(", "%", "x:y", "(%do) b", "(%string p)", "(%symbol \"BR\")", "(%symbol \"!d\")", "(%symbol \"?d\")", "(%apply %t)", "(%do :k v) p"]);
            let r = ch.of(&["", " x", " :k v", " :k v x", " (b)", "\n(b)", " ()"]);
            let (o, c) = ch.of(&[("", ""), ("(div ", ")"), ("(svg ", ")"), ("(br ", ")")]);
            ch.commit();
            check_for(&format!("(%define t em)(%define n 5){o}({h}{r}){c}"), targets);
        }),
        space("deep", "chains and combs of every depth up to 80, with each whitespace", move |ch| {
            let n = ch.pick(80) + 1;
            let (o, c) = ch.of(&[("(div ", ")"), ("(div\n ", ")"), ("(p x", "\n)"), ("(p :k v (b) ", " y)"), ("(p (br) ", ")"), ("(svg ", ")"), ("\n(q", ")")]);
            let leaf = ch.of(&["", "x", "\"&\"", "(br x)", "()"]);
            ch.commit();
            check_for(&format!("{}{leaf}{}", o.repeat(n), c.repeat(n)), targets);
        }),
        space("wide", "up to 60 children of 6 kinds in turn", move |ch| {
            let n = ch.pick(61);
            let k = ch.pick(6);
            let w = ch.of(&[" ", "\n", "\n  "]);
            ch.commit();
            let kids: String = (0..n).map(|i| format!("{w}{}", ["x", "(b y)", "\"<\"", "(br)", "7", "(i\n z)"][if k == 5 { i % 5 } else { k }])).collect();
            check_for(&format!("(div{kids})"), targets);
        }),
    ]
}

pub fn c20(deep: bool, _: u32) -> Vec<Space> { elements(deep, HTML) }
pub fn c23(deep: bool, _: u32) -> Vec<Space> { elements(deep, XML) }

pub fn c21(deep: bool, _: u32) -> Vec<Space> {
    const CHARS: [&str; 14] = ["<", ">", "&", "\"", "'", "a", ";", "é", "😀", "\n", "#", "/", "\u{0}", "\r"];
    let n = if deep { 5 } else { 4 };
    // Ways to write a literal with some value.
    fn kinds(v: &str, how: usize) -> Option<String> {
        let l = super::data::literal(v);
        Some(match how {
            0 => l, 1 => format!("(%symbol {l})"), 2 => format!("(%number {l})"), 3 => format!("(%raw {l})"), 4 => format!("(%string {l})"), 5 => format!("(%concat {l} \"\")"),
            6 => "%v".into(), 7 => format!("(%f {l})"), 8 => format!("(%join \"\" {l})"), 9 => format!("(%do {l})"), 10 => format!("(%format \"{{}}\" {l})"),
            11 => { let w: String = v.chars().map(|c| if c.is_whitespace() || "()\"\\;:".contains(c) { format!("\\{c}") } else { c.to_string() }).collect(); if v.is_empty() || v.contains('\n') { return None } format!("x{w}") }
            _ => format!("(%get 1 (p {l}))"),
        })
    }
    const PLACES: [&str; 22] = ["@", "(p @)", "(p :k @)", "(br :k @)", "(svg @)", "(svg :k @)", "(svg (g @))", "(svg (g :k @))", "(math @)", "(p (b :k @ x))", "(title @)", "(title :k @)", "(textarea @)", "(style @)", "(style :k @)", "(script @)", "(script :k @)", "(pre :k @)", "(P\n @)", "(p :k @ @)", "(?xml :k @)", "(x (title (b @)))"];
    let run = |v: &str, k: usize, p: &str, targets| {
        let Some(lit) = kinds(v, k) else { unspecified(); return };
        let src = format!("(%define v {})(%define (f a) %a){}", super::data::literal(v), p.replace('@', &lit));
        check_for(&src, targets);
    };
    vec![
        depths(deep, MARKUP, &["(p \"<\" @)", "(p :k \"<\" @ \">\")"]),
        sizes(deep, MARKUP, &[
            |n| format!("(p :k \"{0}\" \"{0}\" {0})(svg {0})", "<>&\'".repeat(n)),
            |n| format!("(p :k \"{0}\" \"{0}\")", "\\\"".repeat(n)),
            |n| format!("(p {})", each(n, |i| format!("\"&{i}\""))),
        ]),
        space("texts", format!("every text of up to {n} of {CHARS:?} as element text and attribute value"), move |ch| {
            let v = sequence(ch, &CHARS, n);
            ch.commit();
            let l = super::data::literal(&v);
            check_for(&format!("(p :k {l} {l})"), MARKUP);
        }),
        space("places", format!("every text of up to 2 characters as every kind of literal in each of {} places", PLACES.len()), move |ch| {
            let v = sequence(ch, &CHARS, if deep { 3 } else { 2 });
            let k = ch.pick(13);
            let p = ch.of(&PLACES);
            ch.commit();
            run(&v, k, p, MARKUP);
        }),
        space("characters", "every character up to U+02FF and around every later boundary, as string, symbol and raw string in text and attributes", move |ch| {
            let c = ch.pick(0x300 + 40);
            let c = if c < 0x300 { char::from_u32(c as u32).unwrap() } else { "\u{300}\u{2028}\u{2029}\u{feff}\u{200b}\u{fffd}\u{ffff}\u{10000}\u{10ffff}\u{d7ff}\u{e000}＜＞＆＂＇‹›“”‘’«»′″٪🄀﹤﹥".chars().cycle().nth(c - 0x300).unwrap() };
            let k = ch.of(&[0, 1, 2, 3]);
            let p = ch.of(&["(p @)", "(p :k @)", "(svg @)", "(svg (g :k @))"]);
            ch.commit();
            run(&format!("x{c}y"), k, p, MARKUP);
        }),
        space("entities", "texts that look like entities, tags or comments", move |ch| {
            let v = ch.of(&["&amp;", "&lt;b&gt;", "<!-- c -->", "</p>", "]]>", "<![CDATA[x]]>", "&#60;", "a&b;c", "<script>alert('x')</script>", "\" onclick=\"x", "' x='", "--><b>", "<?php ?>", "&&&&", "<<>>", "''\"\"", "&quot;&apos;"]);
            let k = ch.pick(13);
            let p = ch.of(&PLACES);
            ch.commit();
            run(v, k, p, MARKUP);
        }),
        space("long", "each special character at every position up to 80 in a long text", move |ch| {
            let n = ch.pick(80);
            let c = ch.of(&["<", ">", "&", "\"", "'"]);
            let p = ch.of(&["(p @)", "(p :k @)", "(svg @)"]);
            ch.commit();
            run(&format!("{}{c}{}", "é".repeat(n), "z".repeat(n % 7)), 0, p, MARKUP);
        }),
    ]
}

pub fn c22(deep: bool, _: u32) -> Vec<Space> {
    const TOP: [&str; 33] = ["(!DOCTYPE html)", "(!doctype x)", "(html)", "(HTML (head) (body y))", "(html (p))", "(head)", "(Head (title t))", "(body)", "(BODY x)", "(div (body))", "(div (head))", "(div (div (body) (head)))", "text", "(p q)", "\"head\"", "(?xml :version 1)", "(?XML)", "()", "(%raw \"<html>\")", "(br x)", ":head x", "(p :body x)", "(\"head\" x)", "(head (body))", "(body (head))", "(%do (body))", "(!--x)", "(p head)", "(div (html))", "(div (!doctype html))", "(style (body :k v))", "(Title (head))", "(svg (body))"];
    let n = if deep { 4 } else { 3 };
    vec![
        again(deep, &TARGETS, "", &["(p #)", "(head (a))", "(body #)", "(!doctype html)", "(html a)", "(q (head #))"]),
        characters(deep, &TARGETS, &["(head (title \"¤\"))", "(p \"¤\" (html \"¤\"))"]),
        gaps(deep, &TARGETS, &["(head (title a)) (p b) c", "(!doctype html) (html (body a) b)", "(?xml :version 1) (r (body) (head a))"]),
        depths(deep, &TARGETS, &["@", "(html @)", "(head) @", "@ (body)", "@ (!doctype html)"]),
        sizes(deep, &TARGETS, &[
            |n| format!("{} (head) (body)", each(n, |i| format!("(p {i})"))),
            |n| format!("{} (!doctype html)", each(n, |i| format!("(p {i})"))),
            |n| format!("(div {} (body))", each(n, |i| format!("(p {i})"))),
            |n| format!("{} (?xml)", each(n, |i| format!("(p {i})"))),
            |n| format!("(head {}) {}", each(n, |i| format!("(p {i})")), each(n, |i| i.to_string())),
        ]),
        space("top", format!("every sequence of up to {n} of {} top-level nodes on one line, for every target", TOP.len()), move |ch| {
            let v = sequence(ch, &TOP, n);
            ch.commit();
            check(&v);
        }),
        space("whitespace", "every sequence of up to 3 of 12 top-level nodes with every whitespace before, between and after them", move |ch| {
            let ws = ["", " ", "\n", "\n\n ", "; c\n"];
            let items = ["(!DOCTYPE html)", "(html (body))", "(head)", "(body)", "x", "(p)", "(head (body))", "(?xml)", "(%define d e)", "(%do)", "(div (body))", "(a :k v)"];
            let mut s = String::new();
            s += ch.of(&ws);
            for _ in 0..(if deep { 3 } else { 2 }) { match ch.pick(items.len() + 1) { 0 => break, i => { s += items[i - 1]; s += ch.of(&ws) } } }
            ch.commit();
            check(&s);
        }),
        space("cases", "each structural name in 3 letter cases, at each depth, before and after other content", move |ch| {
            let name = cased(ch.of(&["html", "head", "body", "!doctype", "?xml", "header", "xml", "?xml-stylesheet", "?xmlx", "?xm", "?", "!doctypes", "!doc", "!", "html5", "xhtml", "htm", "bodyguard", "tbody", "heading", "thead", "!html", "doctype", "?body"]), ch.pick(3));
            let wrap = ch.of(&["@", "(div @)", "(div (div @))", "(html @)", "(html (div @))", "(body @)", "(head @)", "x @", "@ x", "(p) @ (p)", "@ @", "(head) @", "@ (head)", "@ (body)", "(!doctype html) @", "(?xml) @", "(style @)", "(pre @)", "(SCRIPT @)", "(title @)", "(textarea @)", "(svg @)", "(math @)", "(math (div @))", "(head) (svg @)", "(style) @"]);
            let inner = ch.of(&["", " z", " (p)", " :k v", " (body)", "\n(head)\n"]);
            let lead = ch.of(&["", "\n", "  "]);
            ch.commit();
            check(&format!("{lead}{}", wrap.replace('@', &format!("({name}{inner})"))));
        }),
        space("heads", "top-level lists whose head is not a symbol but spells a structural name", move |ch| {
            let h = ch.of(&["\"html\"", "\"head\"", "\"body\"", "(%raw \"body\")", "(%symbol \"body\")", "(%string head)", "\"!doctype\"", "\"?xml\"", "(%symbol \"?xml\")", "(%symbol \"!doctype\")", "%h", "(%do head)", "(body)", ":body"]);
            let wrap = ch.of(&["(@)", "(@ x)", "(@ :k v)", "(div (@))", "x (@)", "(@) x", "(script (@))", "(textarea (@))", "(svg (@))"]);
            ch.commit();
            check(&format!("(%define h html){}", wrap.replace('@', h)));
        }),
        space("edges", "every document start with every content and every end of up to 3 characters among line endings, blanks and others, in strings, raw strings or between nodes, for every target", move |ch| {
            let pre = ch.of(&["", "(!doctype html)", "(!doctype html)\n", "(html)", "(head)", "(body)", "(?xml)", "(?xml)(!doctype html)", "\n"]);
            let mid = ch.of(&["", "(html (body x))", "(p)", "(body \n)", "x", "(head)(body)"]);
            let end = sequence(ch, &["\\n", " ", "x", "\\r", "\\t"], if deep { 4 } else { 3 });
            let how = ch.pick(5);
            ch.commit();
            let space = end.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t");
            check(&match how { 0 => format!("{pre}{mid}\"{end}\""), 1 => format!("{pre}{mid}(%raw \"{end}\")"), 2 => format!("{pre}{mid}{space}"), 3 => format!("\"{end}\"{pre}{mid}"), _ => format!("{pre}\"{end}\"{mid}(%raw \"\")") });
        }),
        space("css", "every sequence of up to 3 top-level CSS nodes, for every target", move |ch| {
            let s = sequence(ch, &["(a :k v)", "\n(@media (b :k v))", "(@charset x)", " text", "()", "(a (b))", "\n"], if deep { 4 } else { 3 });
            ch.commit();
            check(&s);
        }),
    ]
}

pub fn c24(deep: bool, _: u32) -> Vec<Space> {
    const VALUES: [&str; 24] = ["red", "7", "\"a b\"", "\"\"", "\"q\\\"\"", "()", "(1px solid)", "(url \"x.png\")", "(rgba 1 2 3 0.5)", "(hsla 1)", "(rgb 1 2 3)", "(calc (+ 1px 2em))", "(+ 1 2 3)", "(- 1)", "(* 2 (/ 4 1))", "(/)", "(f 1 2)", "(1 (2 (3)))", ":k v", "(a :k v)", "(%raw \"x  y\")", "(%do 1)", "(%do 1 2)", "(var --x)"];
    let n = if deep { 8 } else { 6 };
    vec![
        again(deep, CSS, "", &["(a b# :c (rgba # 2) :d \"e f\")", "(@media x (p :a #) (q :b c))", "(@import a#)", "(@font-face :a #)", "(b)", "(@page :a (+ # 1))", "(@supports :a #)"]),
        characters(deep, CSS, &["(a :c \"¤\")", "(a :c (url \"¤\") d)", "(@import \"¤\")", "(@media \"¤\" (p :a b))", "(\"¤\" :c d)", "(a :c (%symbol \"¤\"))"]),
        gaps(deep, CSS, &["(a b :c (rgba 1 2 (+ 3 4)) :d \"e f\")(g :h i)", "(@media screen :a (b c) (p :c d) (q :e f)) (r :s t)", "(@import (url a) b) (@font-face :a b)"]),
        depths(deep, CSS, &["(a :k @)", "(AT-media x @)", "(a @)", "@", "(a :k (rgb 1 @))", "(a :k (+ 1 @))", "(AT-import @)", "(AT-page @)"]),
        sizes(deep, CSS, &[
            |n| each(n, |i| format!("(a{i} :k {i})\n")),
            |n| format!("(a {})", each(n, |i| format!(":k{i} {i}"))),
            |n| format!("({} :k v)", each(n, |i| format!("a{i}"))),
            |n| format!("(@media x {})", each(n, |i| format!("(a{i} :k {i})"))),
            |n| format!("(a :k (rgba {}))", each(n, |i| i.to_string())),
            |n| format!("(a :k (+ {}))", each(n, |i| i.to_string())),
            |n| format!("(a :k ({}))", each(n, |i| i.to_string())),
            |n| format!("(a :k \"{0}\" :l \"{0} \")", "é".repeat(n)),
        ]),
        space("rules", format!("every balanced sequence of up to {n} of 12 pieces"), move |ch| {
            let s = balanced(ch, &["(a", "\n(@media", "(@import", "(@page", "(", ")", " b", " :k v", " \"s t\"", " :k (+ 1 2)", "\n(p :k v)", " 7"], n);
            ch.commit();
            check_for(&s, CSS);
        }),
        space("values", format!("every value of {VALUES:?} or list of up to 3 of them, as a property"), move |ch| {
            let v = if ch.flag() { let l = sequence(ch, &VALUES.map(|v| Box::leak(format!(" {v}").into_boxed_str()) as &str), if deep { 3 } else { 2 }); format!("({})", l.trim()) } else { ch.of(&VALUES).to_string() };
            let p = ch.of(&["(a :k $)", "(a b :k $ :l $)", "(@font-face :k $)", "(@media (:k $) (a :k v))", "(@media :k $ (a :k $))", "(@import $)", "(@supports $ (a))", "(a :k (x $))", "(a $ :k v)"]);
            ch.commit();
            check_for(&p.replace('$', &v), CSS);
        }),
        space("functions", format!("each of {} function names and operators, and near misses, with every argument list of up to 3", CSS_FUNCTIONS.len()), move |ch| {
            let i = ch.pick(CSS_FUNCTIONS.len() + 18);
            let f = if i < CSS_FUNCTIONS.len() { CSS_FUNCTIONS[i] } else { ["+", "-", "*", "/", "%", "^", "add", "RGB", "rotatex", "rgba ", "url(", "foo", "min", "max", "conic-gradient", "", "++", "//"][i - CSS_FUNCTIONS.len()] };
            let quoted = ch.flag();
            let args = sequence(ch, &[" 1", " \"a b\"", " c", " (url d)", " (+ 1 2)", " ()"], 3);
            ch.commit();
            let f = if quoted || f.is_empty() { format!("\"{f}\"") } else { f.trim().to_string() };
            check_for(&format!("(a :k ({f}{args}))"), CSS);
        }),
        space("at-rules", "every at-rule, and near misses, with every list of up to 4 items", move |ch| {
            let all: Vec<&str> = AT_NESTED.iter().chain(&AT_LINE).chain(&AT_PLAIN).copied().chain(["@layer", "@Media", "@", "@MEDIA", "media", "@container", "@viewport"]).collect();
            let r = ch.of(&all);
            let s = sequence(ch, &[" screen", " \"a b\"", " (p :k v)", "\n  (q :l 1)\n", " :k v", " ()", " (:k v)", " (url x)", " (@media (r :k v))", " 7"], if deep { 4 } else { 3 });
            ch.commit();
            check_for(&format!("({r}{s})"), CSS);
        }),
        space("selectors", "every selector of up to 4 items of every kind, followed by up to 2 properties", move |ch| {
            let s = sequence(ch, &["a", " .b", " #c", " >", " \"d, e\"", " 7", ":hover", " \\:root", " (%raw \"x\")", " ()", " (:not a)", "\n\\*"], if deep { 5 } else { 4 });
            let p = sequence(ch, &[" :k v", "\n :--x (1 2)"], 2);
            ch.commit();
            check_for(&format!("({s}{p})"), CSS);
        }),
        space("properties", "every list of up to 4 properties and other items", move |ch| {
            let s = sequence(ch, &[" :k v", " :k w", "\n:color red", " :Margin (1 2)", " :--v \"s\"", " x", " (y)", " :k ()"], if deep { 6 } else { 5 });
            let (o, c) = ch.of(&[("(a", ")"), ("(@page", ")"), ("(@media x (a", "))"), ("(@font-face", ")"), ("\n(@keyframes k (from", ") (to :k v))")]);
            ch.commit();
            check_for(&format!("{o}{s}{c}"), CSS);
        }),
        space("quoting", format!("every text of up to {} characters as value, item, argument and selector", if deep { 4 } else { 3 }), move |ch| {
            let v = sequence(ch, &["a", " ", "\"", "'", "\\", "\n", ";", "}", "é", "\u{a0}", "\u{0}", "1", "\t"], if deep { 4 } else { 3 });
            let p = ch.of(&["(a :k $)", "(a :k (1 $))", "(a :k (url $))", "(@import $)", "(@media $ (b))", "($ :k v)", "(a :k (%raw $))", "(a :k (%symbol $))", "(a :k ($ x))"]);
            ch.commit();
            check_for(&p.replace('$', &super::data::literal(&v)), CSS);
        }),
        space("top", "every sequence of up to 4 top-level nodes of every kind", move |ch| {
            let s = sequence(ch, &["(a :k v)", "\n(b :l 1)\n", "(@media x (a :k v))", "(@charset \"u\")", " x", " \"s\"", ":k v", "()", "(%raw \"r\")", "(%do (c :k v) (d))", " ; c\n"], if deep { 5 } else { 4 });
            ch.commit();
            check_for(&s, CSS);
        }),
        space("deep", "values and at-rules nested to every depth up to 60", move |ch| {
            let n = ch.pick(61);
            let (o, c) = ch.of(&[("(+ 1 ", ")"), ("(calc ", ")"), ("(x ", ")"), ("(", ")"), ("(rgba ", " 2)")]);
            let media = ch.pick(4);
            ch.commit();
            check_for(&format!("{}(a :k {}7{}){}", "(@media x ".repeat(media), o.repeat(n), c.repeat(n), ")".repeat(media)), CSS);
        }),
    ]
}

pub fn c28(deep: bool, _: u32) -> Vec<Space> {
    const TAGS: [&str; 7] = ["pre", "style", "script", "svg", "math", "title", "textarea"];
    let n = if deep { 7 } else { 5 };
    vec![
        again(deep, HTML, "", &["(style (a :b #))", "(pre a (b #) )", "(title x (y #))", "(script (a \"#\"))", "(svg :a # (g))", "(textarea # b)", "(p #)", "(style \"#\")"]),
        characters(deep, HTML, &["(style \"¤\")", "(script \"¤\" b)", "(style (a :b \"¤\"))", "(pre \"¤\")", "(textarea \"¤\" b)", "(title \"¤\")"]),
        gaps(deep, HTML, &["(style (a :b c) (d :e f))", "(div (pre a (b c) \"d\") (title x \"y\" z))", "(script (a \"b\" (c) d)) (svg :a b (g (h) i))", "(p (textarea :a b c (d e) f) g)"]),
        depths(deep, HTML, &["(title @)", "(style @)", "(pre @)", "(script @)", "(svg @)", "(div (textarea @))", "(Math @)"]),
        sizes(deep, HTML, &[
            |n| format!("(style {})", each(n, |i| format!("(a{i} :k {i})"))),
            |n| format!("(script {})", each(n, |i| format!("(a{i} \"{i}\")"))),
            |n| format!("(svg {})", each(n, |i| format!("(A{i} \"<{i}\")"))),
            |n| format!("(title {})(textarea {0})", each(n, |i| format!("\"<{i}\""))),
            |n| format!("(pre {})", each(n, |i| format!("(a{i}  \"{i}\" )\n"))),
            |n| format!("(style \"{0}\")(pre \"{0}\")(script \"{0}\")", "<é ".repeat(n)),
        ]),
        space("contents", format!("every balanced sequence of up to {n} of 11 pieces inside of each of {TAGS:?}"), move |ch| {
            let t = ch.of(&TAGS);
            let s = balanced(ch, &["(a", "\n(B", "(br", ")", "\n)", " x", "\n\"s<\"", " :k v", " (%raw \"<&\")", " ; c\n", "(%do d)"], n);
            ch.commit();
            check_for(&format!("({t}{s})"), HTML);
        }),
        space("frames", "each such element in 3 letter cases at 3 depths with attributes, with every whitespace around and inside, for every kind of contents", move |ch| {
            let t = cased(ch.of(&TAGS), ch.pick(3));
            let kid = ch.of(&["a", "\"s\n t\"", "(b :k v)", "(b :k v) (i :l 2)", "x  (y\n z)  w", "()", "", "(br)", "(@media q (b :k 1))", "(%raw \"<i>\")", "1 2"]);
            let (w1, w2, w3) = (ch.of(&SPACES), ch.of(&SPACES), ch.of(&["", " ", "\n"]));
            let attr = ch.of(&["", " :k v", "\n:k (l)"]);
            let (o, c) = ch.of(&[("", ""), ("(div", ")"), ("(div (p\n", "\n))")]);
            ch.commit();
            check_for(&format!("{o}{w3}({t}{attr}{w1}{kid}{w2}){c}"), HTML);
        }),
        space("blanks", "each such element with up to 3 items which are empty or blank, of every kind, among others, with every whitespace", move |ch| {
            let t = ch.of(&TAGS);
            let mut s = String::new();
            for i in 0..3 { let k = ch.pick(10); if k == 0 { break } s += ch.of(&[" ", "\n", "", "  "]); s += ["", "\"\"", "(%raw \"\")", "\" \"", "(%raw \" \")", "(%symbol \"\")", "(%number \"\")", "()", "a", "(b)"][k]; let _ = i; }
            let end = ch.of(&["", " "]);
            ch.commit();
            check_for(&format!("({t}{s}{end})"), HTML);
        }),
        space("nested", "each such element inside of each other one", move |ch| {
            let (a, b, d) = (ch.of(&TAGS), ch.of(&TAGS), ch.of(&["title", "svg", "p", "style", "pre"]));
            let w = ch.of(&[" ", "\n ", ""]);
            let x = ch.of(&["", "x", "\"<\"", "(q :k v)", "(br)"]);
            ch.commit();
            check_for(&format!("({a}{w}({b}{w}({d}{w}{x}{w})){w})"), HTML);
        }),
        space("macros", "macro calls before, inside of and around such an element, and its contents from variables, calls and loops", move |ch| {
            let t = ch.of(&TAGS);
            let wrap = ch.of(&["@", "(%do @)", "(%define v @)%v", "(%define (f) @)(%f)", "(%for i in (1 2) @)", "(%namespace n @)", "(div (%do @ y))", "(%define (g x) %x)(%g @)", "(%list div @)", "(%reverse (@ (q) z))", "(%ifdef u x @)"]);
            let inner = ch.of(&["(b :k v)", "\"x\"", "%m", " %m y", "y %m", "(%do (b :k v))", "(b :k %m)", "y (%h 1)", "(%join \",\" a b)", "(%ifdef m 1 2)", "(%for j in (1 2) (b%j :k %j))", "(%for j in (1 2) (b :k %j))", "(%string a)", "(%concat a b)"]);
            let w = ch.of(&[" ", "\n"]);
            ch.commit();
            check_for(&format!("(%define m 5)(%define (h q) (b :k %q)){}", wrap.replace('@', &format!("({t}{w}{inner}{w})"))), HTML);
        }),
        space("pre", format!("every text of up to {} pieces inside of <pre>", if deep { 7 } else { 5 }), move |ch| {
            let s = sequence(ch, &["a", " ", "\n", "\"q\"", "(b)", ":k v", ";c\n", "é", "\\)", "  "], if deep { 7 } else { 5 });
            let attr = ch.of(&["", " :k v", " :k v\n :l w"]);
            ch.commit();
            check_for(&format!("(pre{attr} {s})"), HTML);
        }),
        space("files", "each such element with its contents, or part of them, from an included or embedded file, and inside of such files", move |ch| {
            let f = ch.of(&["b", "  (b :k v)\n", "(pre  x )", "(style (a :k v))", "\n\n", "(%define m (b :k v))%m", "\"s <\" t", "(svg (g)) (title x)"]);
            let t = ch.of(&TAGS);
            let inner = ch.of(&["(%include f)", " a (%include f)", "(%include f) a", "\n  (%include f)\n", "(%embed f)", "(%include f)(%include f)", "(b (%include f))", "(%define v (%include f))%v", "%w", "(%include g)", " (%include g) y"]);
            let wrap = ch.of(&["@", "(div @)", "(%include f)@", "(%do @)"]);
            ch.commit();
            super::files::layout(&[("cwd/f".into(), super::files::text(f)), ("cwd/g".into(), super::files::text(format!("(h ({t} x  y )) ({t} (%include f))")))]);
            check_for(&format!("(%define w (%include f)){}", wrap.replace('@', &format!("({t}{}{inner})", if inner.starts_with(['(', '%']) { " " } else { "" }))), HTML);
        }),
        space("style-text", "the single string of a style element, and strings beside other contents", move |ch| {
            let s = sequence(ch, &["\"a < b\"", " \"\"", "\n\"\"\"x\"y\"\"\"", " (a :k v)", " b", " (%raw \"&\")", " (%string \"<\" c)", " :k v", " 7"], 3);
            let t = ch.of(&["style", "STYLE", "script", "title"]);
            ch.commit();
            check_for(&format!("(head ({t} {s}))"), HTML);
        }),
    ]
}
