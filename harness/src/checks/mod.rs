//! The spaces explored for each property.
use crate::cmp::*;
use crate::engine::*;
use crate::expand::World;
use crate::render::{T, TARGETS};

mod data;
mod dates;
mod files;
mod macros;
mod markup;
mod memory;
mod reading;
mod safety;
mod system;
mod trees;

pub const ALL: &[(&str, fn(bool, u32) -> Vec<Space>)] = &[
    ("C01", reading::c01),
    ("C02", reading::c02),
    ("C03", reading::c03),
    ("C04", safety::c04),
    ("C05", memory::c05),
    ("C06", macros::c06),
    ("C07", macros::c07),
    ("C08", macros::c08),
    ("C09", macros::c09),
    ("C10", macros::c10),
    ("C11", macros::c11),
    ("C12", macros::c12),
    ("C13", macros::c13),
    ("C14", dates::c14),
    ("C15", data::c15),
    ("C16", data::c16),
    ("C17", data::c17),
    ("C18", files::c18),
    ("C19", files::c19),
    ("C20", markup::c20),
    ("C21", markup::c21),
    ("C22", markup::c22),
    ("C23", markup::c23),
    ("C24", markup::c24),
    ("C25", memory::c25),
    ("C26", system::c26),
    ("C27", files::c27),
    ("C28", markup::c28),
    ("C29", trees::c29),
];

pub fn spaces(id: &str, tier: &str, shard: u32) -> Vec<Space> {
    let Some((_, f)) = ALL.iter().find(|c| c.0 == id) else { eprintln!("no check {id}"); std::process::exit(2) };
    f(tier == "thorough", shard)
}

/// Any sequence of at most `max` items, which need not be chosen to the end.
pub fn sequence(ch: &mut Ch, items: &[&str], max: usize) -> String {
    let mut s = String::new();
    for _ in 0..max {
        match ch.pick(items.len() + 1) { 0 => break, i => s += items[i - 1] }
    }
    s
}

/// Compare a source with the model for all targets.
pub fn check(src: &str) { compare(&case(src)); }

pub fn check_for(src: &str, targets: &[T]) {
    let mut c = case(src);
    c.targets = targets;
    compare(&c);
}

/// Numbers around those where 6, 7, 8, 10, 12 (thorough: 13) bits end.
pub const SIZES: [usize; 18] = [63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193];

/// Programs which use something many times; each is made from a number.
pub fn sizes(deep: bool, targets: &'static [T], programs: &'static [fn(usize) -> String]) -> Space {
    space("sizes", format!("{} programs that use something many times, for every number around the powers of two up to {}", programs.len(), if deep { 1 << 13 } else { 1 << 12 }), move |ch| {
        let f = programs[ch.pick(programs.len())];
        let n = ch.of(&SIZES[..if deep { 18 } else { 15 }]);
        ch.commit();
        check_for(&f(n), targets)
    })
}

/// What is made from each number below `n`.
pub fn each(n: usize, f: impl Fn(usize) -> String) -> String { (0..n).map(f).collect::<Vec<_>>().join(" ") }

/// Programs with other whitespace, or none, in every two (thorough: three) of the places between their words.
pub fn gaps(deep: bool, targets: &'static [T], programs: &'static [&'static str]) -> Space {
    const WHITE: [&str; 7] = ["\n", "\t", "  ", "\n\n ", " ; c\n", "", "\r\n"];
    let n = if deep { 3 } else { 2 };
    space("gaps", format!("{} programs with each of {WHITE:?} in every {n} of the places where there is a space, or that follow or precede a parenthesis", programs.len()), move |ch| {
        let program = ch.of(programs);
        // The places: (from, to) is replaced. Not in strings; with nothing in them only at parentheses.
        let b = program.as_bytes();
        let (mut places, mut quoted) = (vec![], false);
        for i in 0..b.len() {
            if b[i] == b'"' { quoted = !quoted }
            if quoted { continue }
            match b[i] {
                b' ' => places.push((i, i + 1)),
                b'(' if b.get(i + 1) != Some(&b' ') => places.push((i + 1, i + 1)),
                _ => {}
            }
            if b[i] != b' ' && b[i] != b'(' && b.get(i + 1) == Some(&b')') { places.push((i + 1, i + 1)) }
        }
        let mut chosen: Vec<(usize, usize, &str)> = vec![];
        let mut next = 0;
        for _ in 0..n {
            let k = ch.pick((places.len() - next) as usize + 1);
            if k == 0 { break }
            let (from, to) = places[next + k - 1];
            next += k;
            let bare = to == b.len() || b[from..to].is_empty() || b[to] == b')' || b[to] == b'(' || b[from - 1] == b')';
            let w = ch.of(&WHITE[..]);
            if w.is_empty() && !bare { ch.skip() }
            chosen.push((from, to, w));
        }
        ch.commit();
        let mut src = program.to_string();
        for (from, to, w) in chosen.iter().rev() { src.replace_range(from..to, w) }
        check_known(&src, targets)
    })
}

/// Programs with other names for their three names (`AA`, `BB`, `CC`), also the same for two of them.
pub fn renamed(deep: bool, targets: &'static [T], programs: &'static [&'static str]) -> Space {
    const NAMES: [&str; 24] = ["a", "A", "b", "ab", "a-b", "a/b", "a/a", "a.b", "é", "É", "e\u{301}", "a1", "define", "list", "_", "a_b", "日", "a-really-long-name", "a-really-long-namE", "aa", "a'", "p", "*", "rest"];
    space("renamed", format!("{} programs with every three of {} names for their names", programs.len(), NAMES.len()), move |ch| {
        let program = ch.of(programs);
        let (a, b) = (ch.of(&NAMES), ch.of(&NAMES));
        let c = if program.contains("CC") { ch.of(&NAMES[..if deep { 24 } else { 12 }]) } else { "" };
        ch.commit();
        check_known(&program.replace("AA", a).replace("BB", b).replace("CC", c), targets)
    })
}

/// Like `check_for`, for sources that import some of a few documents.
fn check_known(src: &str, targets: &[T]) {
    use crate::expand::{Data::*, Lang::*, Markdown};
    let mut c = case(src);
    c.targets = targets;
    let map = |v: Vec<(&str, crate::expand::Data)>| Map(v.into_iter().map(|(k, d)| (k.to_string(), d)).collect());
    let (s, n) = (|v: &str| Str(v.into()), |v: &str| Num(v.into()));
    for (lang, text, d) in [
        (Yaml, "k: 1", map(vec![("k", s("1"))])), (Yaml, "k: 2", map(vec![("k", s("2"))])), (Yaml, "[p, q]", Seq(vec![s("p"), s("q")])),
        (Yaml, "k: [a, {l: b}]", map(vec![("k", Seq(vec![s("a"), map(vec![("l", s("b"))])]))])),
        (Toml, "k = 1", map(vec![("k", n("1"))])), (Toml, "k = 2", map(vec![("k", n("2"))])), (Toml, "k.l = [1, true]", map(vec![("k", map(vec![("l", Seq(vec![n("1"), Sym("true".into())]))]))])),
    ] { c.world.data.insert((lang, text.into()), Some(vec![d])); }
    let em = || "<p><em>a</em></p>".to_string();
    c.world.markdown.insert("*a*".into(), Markdown { front: None, html: em() });
    c.world.markdown.insert("---\nk: 1\n---\n*a*".into(), Markdown { front: Some((Yaml, Some(vec![map(vec![("k", s("1"))])]))), html: em() });
    c.world.markdown.insert("+++\nk = 2\n+++\n*a*".into(), Markdown { front: Some((Toml, Some(vec![map(vec![("k", n("2"))])]))), html: em() });
    compare(&c);
}

/// Calls repeated many times in one source, each two of them in turn: nothing may be left over from the ones before.
pub fn again(deep: bool, targets: &'static [T], setup: &'static str, calls: &'static [&'static str]) -> Space {
    space("again", format!("every two of {} calls in turn, repeated up to {} times in one source", calls.len(), if deep { 1024 } else { 257 }), move |ch| {
        let (a, b) = (ch.of(calls), ch.of(calls));
        let n = ch.of(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024][..if deep { 28 } else { 25 }]);
        ch.commit();
        let calls: String = (0..n).map(|i| [a, b][i % 2].replace('#', &i.to_string()) + "\n").collect();
        check_known(&format!("{setup}{calls}"), targets)
    })
}

/// Programs with `¤` in the strings, for which each character of a list stands: written as it is or as an
/// escape, once, twice, or beside a letter on either side.
pub fn characters(deep: bool, targets: &'static [T], programs: &'static [&'static str]) -> Space {
    let all: Vec<char> = (0..if deep { 0x250u32 } else { 0x100 }).chain([0x2bc, 0x300, 0x37e, 0x3b1, 0x5d0, 0x660, 0x1680, 0x180e, 0x2000, 0x2003, 0x200b, 0x200d, 0x2013, 0x2028, 0x2029, 0x202f, 0x205f, 0x2212, 0x3000, 0x4e00, 0xd7ff, 0xe000, 0xfeff, 0xff10, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff]).filter_map(char::from_u32).collect();
    space("in-strings", format!("{} programs with each of {} characters in their strings, alone, twice, or beside letters, as they are or escaped", programs.len(), all.len()), move |ch| {
        let program = ch.of(programs);
        let c = all[ch.pick(all.len())];
        let with = ch.of(&["¤", "¤¤", "a¤", "¤a", "a¤ b", "¤ ¤"]);
        let text = with.replace('¤', &c.to_string());
        let text = if ch.flag() { text.replace('\\', "\\\\").replace('"', "\\\"") } else { let q = crate::render::quote(&text); q[1..q.len() - 1].to_string() };
        ch.commit();
        check_known(&program.replace('¤', &text), targets)
    })
}

/// Programs with something (`@`) in them that lies up to 4 (thorough: 6) lists or attributes deep; at `#` there is
/// a number just as deep.
pub fn depths(deep: bool, targets: &'static [T], programs: &'static [&'static str]) -> Space {
    const WRAPPERS: [&str; 4] = ["(p @)", "(p\n @\n )", "(p :k @)", "(@ p)"];
    const INNER: [&str; 10] = ["x", "%v", "(%do 1)", "(%list 2 3)", "(%do 4 5)", "(%do )", "()", "\"<s\"", "(%raw \"<r\")", "(%define w 6)"];
    let n = if deep { 6 } else { 4 };
    space("depths", format!("{} programs with each of {INNER:?} up to {n} deep in each sequence of {WRAPPERS:?}", programs.len()), move |ch| {
        let program = ch.of(programs);
        let (mut inner, mut number) = (ch.of(&INNER).to_string(), String::from("7"));
        for _ in 0..n {
            let k = ch.pick(WRAPPERS.len() + 1);
            if k == 0 { break }
            inner = WRAPPERS[k - 1].replace('@', &inner);
            number = WRAPPERS[k - 1].replace('@', &number);
        }
        ch.commit();
        check_for(&format!("(%define v 7){}", program.replace('#', &number).replace('@', &inner).replace("AT-", "@")), targets)
    })
}
