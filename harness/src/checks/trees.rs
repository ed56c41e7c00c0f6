//! C29: comparing, searching and unwrapping nodes.
use super::*;
use crate::model::*;
use crate::real;
use seam::parse::parser::{IntoValue, Node, ParseNode, SearchTree, SearchType};
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};

const ATOMS: [&str; 12] = ["a", "A", "\"a\"", "1", "\"1\"", "01", "\"\"", "(%raw a)", "(%raw \"1\")", "é", "É", "-"];
const WS: [&str; 3] = ["", " ", "\n "];

/// A tree of at most `depth` levels, with at most `width` children each.
fn tree(ch: &mut Ch, atoms: &[&str], depth: usize, width: usize) -> String {
    let n = atoms.len();
    match ch.pick(if depth == 0 { n } else { n + 3 }) {
        i if i < n => atoms[i].to_string(),
        i if i == n + 1 => "()".into(),
        i if i == n => format!(":{} {}", ch.of(&["a", "A"]), tree(ch, atoms, depth - 1, width)),
        _ => {
            let mut s = "(_".to_string();
            for _ in 0..width { if ch.flag() { break } s += " "; s += &tree(ch, atoms, depth - 1, width) }
            s + ")"
        }
    }
}

/// What a source denotes, for the implementation and the model.
fn with<A>(src: &str, f: impl FnOnce(&[ParseNode], &[N]) -> A) -> A {
    let w = World::main("<stdin>", src);
    let model = match crate::expand::expand(&w) { Ok(m) => m, Err(e) => violation(format!("source: {src:?}\nthe model has no tree: {e:?}")) };
    real(|| {
        let e = seam::tree_builder(Option::<&std::path::Path>::None, src.to_string());
        let r = match e.expand() { Ok(t) => f(&t, &model), Err(e) => violation(format!("source: {src:?}\n{e}")) };
        r
    })
}

fn hash(n: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); n.hash(&mut h); h.finish() }

fn expect<A: PartialEq + std::fmt::Debug>(src: &str, what: &str, want: A, got: A) {
    if want != got { violation(format!("source: {src:?}\n{what}\nexpected: {want:?}\nactual:   {got:?}")) }
}

/// The pairs of a source with two nodes.
fn pair(src: &str) {
    with(src, |real, model| {
        let [a, b] = real else { violation(format!("source: {src:?}\nnot two nodes")) };
        let same = model[0].same(&model[1]);
        expect(src, "equality of the two nodes", same, a == b);
        expect(src, "inequality of the two nodes", !same, a != b);
        expect(src, "equality the other way around", same, b == a);
        expect(src, "equality of a node with itself", true, a == a && b == b);
        expect(src, "equality of a node with its clone", true, *a == a.clone());
        if same { expect(src, "hashes of the two nodes", hash(a), hash(b)) }
        expect(src, "number of different nodes", if same { 1 } else { 2 }, real.iter().collect::<HashSet<_>>().len());
        if let (Some(x), Some(y)) = (a.atomic(), b.atomic()) {
            expect(src, "equality of the two literals", model[0].lit() == model[1].lit(), x == y);
            if x == y { expect(src, "hashes of the two literals", hash(x), hash(y)) }
        }
        outcome(format!("{same} {}", show(model)).as_bytes());
        sample(|| format!("{src:?} => {same}"));
    })
}

const KINDS: [&str; 6] = ["list head", "symbol", "number", "string", "attribute", "anything"];

fn kind(k: usize) -> SearchType { [SearchType::ListHead, SearchType::Symbol, SearchType::Number, SearchType::String, SearchType::Attribute, SearchType::Any][k] }

/// The place of the first match, as the path of child numbers.
fn find(tree: &[N], k: usize, v: &str, fold: bool, level: usize) -> Option<Vec<usize>> {
    if level == 0 { return None }
    for (i, n) in tree.iter().enumerate() {
        if let Some(mut p) = find_in(n, k, v, fold, level) { p.insert(0, i); return Some(p) }
    }
    None
}

fn find_in(n: &N, k: usize, v: &str, fold: bool, level: usize) -> Option<Vec<usize>> {
    if level == 0 { return None }
    let eq = |s: &str| if fold { s.to_lowercase() == v.to_lowercase() } else { s == v };
    let is = |j: usize| k == 5 || k == j;
    match n {
        N::Atom { k, v, .. } => (is(match k { K::Sym => 1, K::Num => 2, _ => 3 }) && eq(v)).then(Vec::new),
        N::List { items, .. } => {
            if is(0) && items.first().and_then(N::lit).is_some_and(eq) { return Some(vec![]) }
            find(items, k, v, fold, level - 1)
        }
        N::Attr { kw, val, .. } => {
            if is(4) && eq(kw) { return Some(vec![0]) }
            find_in(val, k, v, fold, level - 1).map(|mut p| { p.insert(0, 0); p })
        }
    }
}

fn at<'a, 'b>(n: &'b ParseNode<'a>, path: &[usize]) -> &'b ParseNode<'a> {
    let Some((i, rest)) = path.split_first() else { return n };
    match n {
        ParseNode::List { nodes, .. } => at(&nodes[*i], rest),
        ParseNode::Attribute { node, .. } => at(node, rest),
        _ => unreachable!(),
    }
}

fn search(src: &str, k: usize, v: &str, fold: bool, level: usize) {
    with(src, |real, model| {
        let real: Box<[ParseNode]> = real.to_vec().into();
        let want = find(model, k, v, fold, level);
        let place = |p: &Option<Vec<usize>>| p.as_ref().map(|p| at(&real[p[0]], &p[1..]) as *const ParseNode);
        let what = format!("search for {} {v:?} to level {level}{}", KINDS[k], if fold { " in any case" } else { "" });
        let got = SearchTree::search_node(&real, kind(k), v, fold, level);
        if place(&want) != got.map(|n| n as *const ParseNode) {
            violation(format!("source: {src:?}\n{what}\nexpected: {:?}\nactual:   {:?}", want.map(|p| at(&real[p[0]], &p[1..]).to_string()), got.map(|n| n.to_string())))
        }
        for (n, m) in real.iter().zip(model) {
            let want = find_in(m, k, v, fold, level).map(|p| at(n, &p) as *const ParseNode);
            if want != n.search_node(kind(k), v, fold, level).map(|n| n as *const ParseNode) { violation(format!("source: {src:?}\n{what} of a node differs from that of the tree")) }
        }
        outcome(format!("{want:?}").as_bytes());
        sample(|| format!("{src:?}, {what} => {want:?}"));
    })
}

/// Everything that can be asked of one node.
fn parts(src: &str, number: &str) {
    with(src, |real, model| {
        for (n, m) in real.iter().zip(model) { part(src, n, m) }
        let value = |s: &str| model[0].is(K::Num) && !s.is_empty();
        let r = &real[0];
        expect(src, "value as i32", value(number).then(|| number.parse::<i32>().ok()).flatten(), r.into_value());
        expect(src, "value as u32", value(number).then(|| number.parse::<u32>().ok()).flatten(), r.into_value());
        expect(src, "value as i64", value(number).then(|| number.parse::<i64>().ok()).flatten(), r.into_value());
        expect(src, "value as u64", value(number).then(|| number.parse::<u64>().ok()).flatten(), r.into_value());
        expect(src, "value as usize", value(number).then(|| number.parse::<usize>().ok()).flatten(), r.into_value());
        expect(src, "value as f64", value(number).then(|| number.parse::<f64>().ok().map(f64::to_bits)).flatten(), IntoValue::<f64>::into_value(r).map(f64::to_bits));
        outcome(show(model).as_bytes());
        sample(|| src.to_string());
    })
}

fn part(src: &str, n: &ParseNode, m: &N) {
    let text = |n: Option<&Node>| n.map(|n| n.value.clone());
    let is = |ks: &[K]| match m { N::Atom { k, v, .. } if ks.contains(k) => Some(v.clone()), _ => None };
    expect(src, "symbol", is(&[K::Sym]), text(n.symbol()));
    expect(src, "number", is(&[K::Num]), text(n.number()));
    expect(src, "symbol or number", is(&[K::Sym, K::Num]), text(n.symbolic()));
    expect(src, "string", is(&[K::Str, K::Raw]), text(n.string()));
    expect(src, "literal", is(&[K::Sym, K::Num, K::Str, K::Raw]), text(n.atomic()));
    expect(src, "owned literal", is(&[K::Sym, K::Num, K::Str, K::Raw]), n.clone().into_atomic().map(|n| n.value));
    expect(src, "converted literal", is(&[K::Sym, K::Num, K::Str, K::Raw]), Node::try_from(n.clone()).ok().map(|n| n.value));
    expect(src, "text value", is(&[K::Sym, K::Str, K::Raw]).as_deref(), IntoValue::<&str>::into_value(n));
    expect(src, "questions", [is(&[K::Sym]).is_some(), is(&[K::Num]).is_some(), is(&[K::Sym, K::Num]).is_some(), is(&[K::Str, K::Raw]).is_some(), m.lit().is_some(), m.items().is_some(), matches!(m, N::Attr { .. }), m.items().is_some_and(<[N]>::is_empty)],
        [n.is_symbol(), n.is_number(), n.is_symbolic(), n.is_string(), n.is_atomic(), n.is_list(), n.is_attribute(), n.null()]);
    expect(src, "kind", match m { N::Atom { k: K::Sym, .. } => "symbol", N::Atom { k: K::Num, .. } => "number", N::Atom { k: K::Str, .. } => "string", N::Atom { .. } => "raw-content string", N::List { .. } => "list", N::Attr { .. } => "attribute" }, n.node_type());
    expect(src, "whitespace", m.ws(), n.leading_whitespace());
    for w in ["\t ", "", "\n"] {
        let mut other = n.clone();
        other.set_leading_whitespace(w.into());
        expect(src, "changed whitespace", w, other.leading_whitespace());
        expect(src, "equality with other whitespace", true, other == *n && hash(&other) == hash(n));
        expect(src, "text with other whitespace", format!("{w}{}", n.to_string().strip_prefix(m.ws()).unwrap_or("?")), other.to_string());
    }
    if let Some(t) = printed(m) { expect(src, "text", t, n.to_string()) }
    let (a, b) = (n.site(), n.owned_site());
    expect(src, "owned place", (a.source, a.line, a.bytes_from_start, a.bytes_from_start_of_line, a.bytes_span), (b.source, b.line, b.bytes_from_start, b.bytes_from_start_of_line, b.bytes_span));
    let p = m.pos();
    if !p.is_made() {
        expect(src, "text at its place", &src[p.off as usize..(p.off + p.len) as usize], a.view());
        expect(src, "names of equal places", a.uuid(), b.uuid());
    }
    let addresses = |ns: &[ParseNode]| ns.iter().map(|n| n.to_string()).collect::<Vec<_>>();
    expect(src, "list", n.list().map(|l| addresses(l)), Box::<[ParseNode]>::try_from(n.clone()).ok().map(|l| addresses(&l)));
    expect(src, "list as vector", n.list().map(|l| addresses(l)), Vec::<ParseNode>::try_from(n.clone()).ok().map(|l| addresses(&l)));
    expect(src, "length", m.items().map(<[N]>::len), n.list().map(|l| l.len()));
    for (n, m) in n.list().into_iter().flat_map(|l| l.iter()).zip(m.items().unwrap_or_default()) { part(src, n, m) }
    match (m, n.attribute()) {
        (N::Attr { kw, val, .. }, Some((k, v))) => { expect(src, "keyword", kw.as_str(), k); part(src, v, val) }
        (N::Attr { .. }, None) | (_, Some(_)) => violation(format!("source: {src:?}\nan attribute is not one")),
        _ => {}
    }
}

/// A node as it is written, if it is plain how strings are quoted.
fn printed(m: &N) -> Option<String> {
    Some(match m {
        N::Atom { k: K::Sym | K::Num, v, ws, .. } => format!("{ws}{v}"),
        N::Atom { v, ws, .. } if v.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ') => format!("{ws}\"{v}\""),
        N::Atom { .. } => return None,
        N::Attr { kw, val, ws, .. } => format!("{ws}:{kw}{}", printed(val)?),
        N::List { items, ws, end_ws, .. } => format!("{ws}({}{end_ws})", items.iter().map(printed).collect::<Option<String>>()?),
    })
}

pub fn c29(deep: bool, _: u32) -> Vec<Space> {
    vec![
        space("literals", format!("every pair of {} literals, empty lists and attributes, written with every whitespace", ATOMS.len()), move |ch| {
            let mut one = |sep: &str| {
                let ws = ch.of(&WS);
                let k = ch.pick(4);
                let t = match k { 0 => tree(ch, &ATOMS, 0, 0), 1 => format!("({ws})"), 2 => format!(":{} {ws}{}", ch.of(&["a", "b"]), ch.of(&ATOMS)), _ => format!("({ws}(_ {}){ws})", ch.of(&ATOMS)) };
                format!("{sep}{ws}{t}")
            };
            let s = one("") + &one("\n");
            ch.commit();
            pair(&s)
        }),
        space("pairs", format!("every pair of trees of up to 2 levels over lists of up to 2 nodes and attributes of {} atoms", if deep { 3 } else { 2 }), move |ch| {
            let atoms: &[&str] = if deep { &["a", "\"a\"", "1"] } else { &["a", "\"a\""] };
            let a = tree(ch, atoms, 2, 2);
            let b = tree(ch, atoms, 2, 2);
            ch.commit();
            pair(&format!("{a}\n {b}"))
        }),
        space("lists", "every pair of lists of up to 4 items".to_string(), move |ch| {
            let items = [" a", " b", " 1"];
            let a = sequence(ch, &items, if deep { 5 } else { 4 });
            let b = sequence(ch, &items, 4);
            ch.commit();
            pair(&format!("({a})\n({b} )"))
        }),
        space("search", "every search for every kind of node and value in trees of up to 3 levels, to each level".to_string(), move |ch| {
            let k = ch.pick(KINDS.len());
            let v = ch.of(&["a", "A", "1", "_", ""]);
            let fold = ch.flag();
            let level = ch.pick(5);
            let t = tree(ch, if deep { &["a", "A", "\"a\"", "1", "(%raw a)"] } else { &["A", "\"a\"", "1"] }, 2, 2);
            let u = ch.of(&["", " a", " (a 1)", " :A 1", " (\"a\" A)", " (1 a)", " ((%raw A) 1)", " ((a) a)"]);
            ch.commit();
            search(&format!("{t}{u}"), k, v, fold, level)
        }),
        space("search-deep", format!("searches in a chain of up to {} lists and attributes", if deep { 5 } else { 4 }), move |ch| {
            let k = ch.pick(KINDS.len());
            let v = ch.of(&["a", "1", "é", "É"]);
            let fold = ch.flag();
            let level = ch.pick(8);
            let n = ch.pick(if deep { 6 } else { 5 });
            let mut t = ch.of(&["a", "1", "\"É\"", "É", "(a)", "()", "(() a)", "(\"É\" a)", "(1 \"a\")", "((%raw a) 1)"]).to_string();
            for _ in 0..n { t = match ch.pick(4) { 0 => format!("(_ {t})"), 1 => format!("(É {t} a)"), 2 => format!(":a {t}"), _ => format!("((é) {t})") } }
            ch.commit();
            search(&t, k, v, fold, level)
        }),
        space("search-case", "searches for each of 24 words among the same words, in any case or exactly", move |ch| {
            const W: [&str; 24] = ["ß", "SS", "ss", "ẞ", "ſ", "s", "S", "K", "k", "\u{212a}", "İ", "i", "I", "ı", "ﬁ", "FI", "Σ", "σ", "ς", "ŉ", "é", "É", "e\u{301}", "Ǆ"];
            let (w, v) = (ch.of(&W), ch.of(&W));
            let k = ch.pick(KINDS.len());
            let fold = ch.flag();
            let t = ch.of(&["@", "\"@\"", "(@ x)", "(x :@ y)", "(x @)", "(\"@\")"]);
            ch.commit();
            search(&t.replace('@', w), k, v, fold, 4)
        }),
        space("parts", "every question about every tree of up to 3 levels".to_string(), move |ch| {
            let ws = ch.of(&WS);
            let t = match ch.pick(if deep { 3 } else { 1 }) { 0 => tree(ch, &ATOMS, 2, 2), 1 => tree(ch, &ATOMS[..2], 2, 3), _ => tree(ch, &ATOMS[2..4], 3, 2) };
            ch.commit();
            parts(&format!("{ws}{t}"), if t.starts_with(|c: char| c.is_ascii_digit() || c == '-') { &t } else { "" })
        }),
        space("numbers", "every word of up to 5 characters over digits, signs, points and exponents, as every type of number".to_string(), move |ch| {
            let s = sequence(ch, &["0", "1", "9", "-", "+", ".", "e", "_"], if deep { 7 } else { 5 });
            if s.is_empty() { ch.skip() }
            ch.commit();
            parts(&s, &s)
        }),
        space("limits", "numbers around the limits of each type".to_string(), move |ch| {
            let base = ch.of(&[i32::MAX as i128, i32::MIN as i128, u32::MAX as i128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 0, 255]);
            let s = (base + ch.pick(5) as i128 - 2).to_string();
            let s = format!("{}{s}{}", ch.of(&["", "0", "+", "-"]), ch.of(&["", ".5", "e1"]));
            ch.commit();
            if !s.starts_with(|c: char| c.is_ascii_digit() || "+-".contains(c)) { return }
            parts(&s, &s)
        }),
    ]
}
