//! C05 (built with the address sanitizer) and C25: histories of expansions and formatters.
use super::*;
use crate::real;
use seam::assemble::MarkupFormatter;
use seam::parse::parser::ParseNode;
use seam::parse::tokens::Site;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};

fn scratch() {
    thread_local! { static READY: Cell<bool> = Cell::new(false); }
    READY.with(|r| if !r.replace(true) {
        let d = super::macros::scratch("memory");
        std::env::set_current_dir(&d).unwrap();
        std::fs::write("i", "(%define w (i 1))(%define (h x) (hi %x %w))(c (d e) :k v)").unwrap();
        std::fs::write("j", "(%include i)(%h (%include k))").unwrap();
        std::fs::write("k", "(%define (deep a) (%h %a)) (kk \"text\")").unwrap();
        std::fs::write("bad", "(a\n (%nope b))").unwrap();
        std::fs::write("open", "(a\n (b").unwrap();
        std::fs::write("t", "some (text)\n").unwrap();
    })
}

/// Read everything a tree refers to.
fn touch(t: &[ParseNode], h: &mut u64) {
    fn text(s: &str, h: &mut u64) { for b in s.bytes() { *h = h.wrapping_mul(0x100000001b3) ^ b as u64 } }
    fn site(s: &Site, h: &mut u64) { text(s.source, h); text(s.source_code, h); text(&format!("{} {} {}", s.line, s.bytes_from_start, s.bytes_span), h) }
    for n in t {
        match n {
            ParseNode::List { nodes, site: s, end_token, leading_whitespace } => { site(s, h); site(&end_token.site, h); text(end_token.leading_whitespace, h); text(leading_whitespace, h); touch(nodes, h) }
            ParseNode::Attribute { keyword, node, site: s, leading_whitespace } => { site(s, h); text(keyword, h); text(leading_whitespace, h); touch(std::slice::from_ref(&**node), h) }
            ParseNode::Symbol(a) | ParseNode::Number(a) | ParseNode::String(a) | ParseNode::Raw(a) => { site(&a.site, h); text(&a.value, h); text(&a.leading_whitespace, h) }
        }
    }
}

/// What the data texts below mean.
fn world(src: &str) -> World {
    use crate::expand::{Data::*, Lang, Markdown};
    let s = |t: &str| Str(t.into());
    let mut w = World::main("<stdin>", src);
    w.data.insert((Lang::Yaml, "a: [1, {b: 2}]".into()), Some(vec![Map(vec![("a".into(), Seq(vec![s("1"), Map(vec![("b".into(), s("2"))])]))])]));
    w.data.insert((Lang::Toml, "t = [1, {b = 2}]".into()), Some(vec![Map(vec![("t".into(), Seq(vec![Num("1".into()), Map(vec![("b".into(), Num("2".into()))])]))])]));
    w.data.insert((Lang::Yaml, "[".into()), None);
    w.data.insert((Lang::Toml, "x".into()), None);
    w.markdown.insert("---\nq: 1\n---\n# x".into(), Markdown { front: Some((Lang::Yaml, Some(vec![Map(vec![("q".into(), s("1"))])]))), html: "<h1>x</h1>".into() });
    w
}

/// Expand a text in several ways, and keep everything that results until the end.
fn keep(src: &str) {
    if verbose() { println!("source: {src}") }
    // Without a bound, recursion exhausts the stack.
    if let Err(crate::model::Bad::Unspec("unbounded recursion")) = crate::expand::expand(&world(src)) { unspecified(); return }
    let h = crate::engine::real(|| {
        let mut h = 0u64;
        let e = seam::tree_builder(None::<&str>, src.to_string());
        let copy = std::cell::OnceCell::new();
        let first = e.expand();
        // A copy made after the expansion.
        let _ = copy.set(e.clone());
        let second = copy.get().unwrap().expand();
        let again = e.expand();
        for (i, r) in [&first, &second, &again].into_iter().enumerate() {
            match r {
                Ok(t) => {
                    touch(t, &mut h);
                    if let Err(m) = real::sound(t) { violation(format!("source: {src:?}\n{m}")) }
                    for target in if i == 0 { &TARGETS[..] } else { &[T::Html][..] } {
                        let f = real::formatter(*target, t.clone());
                        for r in [f.display(), f.document()] { let s = match r { Ok(s) => s, Err(e) => e.to_string() }; h ^= hash_bytes(s.as_bytes()) }
                    }
                }
                Err(e) => h ^= hash_bytes(e.to_string().as_bytes()),
            }
        }
        // What was made first must have survived all of that.
        if let Ok(t) = &first { let clone = t.clone(); drop(second); touch(&clone, &mut h) }
        h
    });
    outcome(&h.to_le_bytes());
    sample(|| src.to_string());
}

const LEAVES: [&str; 22] = ["a", "%v", "(%f x)", "(%f (y z) 2)", "(%nope)", "(%include i)", "(%include j)", "%w", "(%h %v)", "(%deep 1)", "(%include bad)", "(%embed t)", "(%yaml \"a: [1, {b: 2}]\")%a/1/b", "(%toml \"t = [1, {b = 2}]\")%t/1", "(%markdown \"---\\nq: 1\\n---\\n# x\")%q", "((%lambda (q) %q) 1)", "(%g)", "(%include open)", "%n/w", "(x (y :k (z 1)) \"s\")", ":k v", "(br 1)"];
const AROUND: [&str; 26] = ["@", "(%define v @)", "(%define (f x &r) @ %x (%splat %r))", "(%define (g) @)(%g)", "(%f @)", "(p @)", "(%for i in (1 @) %i @)", "(%match (1 @) ((a &b) @ %b) (z @))", "(%namespace n @)", "(%do @ @)", "(%list @)", "(%map f @)", "(%sort (@ 2 1))", "(%reverse (@))", "(%apply f @)", "(%apply (%lambda (q &r) (%f %q) @) @)", "(%ifdef v @ b)", "(%string @)", "(%get 0 (@))", "(p :k @)", "(style (a :k @))", "(svg @)(pre @ z)", "(%filter f @)", "(%join @ @)", "(%log @)", "(%strip @)"];
const BEFORE: [&str; 6] = ["", "(%define v (1 2))(%define (f &r) (w %r))", "(%include i)(%define (f x) (%h %x))(%define v %w)", "(%define (f &r) (%include j))(%define v (%f 1))", "(%define (f x) (%define (h y) (%x %y))(%h %x))(%define v 1)", "(%namespace n (%include i))(%define (f &r) (%do %r (%n/h 1)))(%define v \"s\")"];

pub fn c05(deep: bool, _: u32) -> Vec<Space> {
    vec![
        space("nested", format!("after {} sets of definitions, every call of {} kinds around another around each of {} expressions", BEFORE.len(), AROUND.len(), LEAVES.len()), move |ch| {
            let b = ch.of(&BEFORE);
            let x = AROUND[ch.pick(AROUND.len())];
            let y = AROUND[ch.pick(AROUND.len())];
            let z = if deep { AROUND[ch.pick(AROUND.len())] } else { "@" };
            if deep && z == "@" { ch.skip() }
            let l = ch.of(&LEAVES);
            ch.commit();
            scratch();
            let s = x.replace('@', y).replace('@', z);
            if s.matches('@').count() > 6 { ch.skip() }
            keep(&format!("{b}{}", s.replace('@', l)));
        }),
        space("sequences", format!("every sequence of up to {} of {} calls and expressions after one set of definitions", if deep { 4 } else { 3 }, LEAVES.len() + 8), move |ch| {
            let b = ch.of(&BEFORE[if deep { 1 } else { 3 }..]);
            let s = sequence(ch, &[&LEAVES[..], &["(%define v @)", "(%define (f x &r) (%g %x))", "(%define (g &r) (%include i) %r)", "(%for i in (1 2) (%f %i))", "(%map f 1 2)", "(%namespace n (%include j))", "(%match %v (x (%f %x)))", "(%f (%f (%include k)))"]].concat(), if deep { 4 } else { 3 });
            ch.commit();
            scratch();
            keep(&format!("{b}{s}"));
        }),
        space("errors", "errors of every kind reported from inside every kind of call", move |ch| {
            let e = ch.of(&["(%nope x)", "%nope", "(%f)", "(%get 9 (a))", "(%include missing)", "(%include bad)", "(%include open)", "(%yaml \"[\")", "(%toml \"x\")", "(%sort 1)", "(%match)", "(%date \"%Q\" 1)", "(%format \"{}\")", "(%string ())", "(%define)", "(%for)", "(%f :u 1)", "(%join 1 ())", "(%timestamp \"%Y\" x)"]);
            let x = ch.of(&AROUND);
            let y = ch.of(&AROUND);
            let b = ch.of(&BEFORE[if deep { 0 } else { 3 }..]);
            ch.commit();
            scratch();
            if x.replace('@', y).matches('@').count() > 6 { ch.skip() }
            keep(&format!("{b}{}", x.replace('@', y).replace('@', e)));
        }),
        space("long", "many calls, includes and definitions one after the other, so that what holds them grows", move |ch| {
            let n = 1 + ch.pick(40);
            let s = ch.of(&["(%include i)", "(%f 1)", "(%define v (%f 1))%v", "(%f (%include i))", "(%h %w)", "(%namespace n (%include k))", "(%for i in (1 2 3) (%include k)%i)", "(%map f 1 2)", "(%apply (%lambda (x) %x) (%include i))", "(style (a :k v))(svg (a))(pre b)"]);
            let b = ch.of(&BEFORE[1..]);
            ch.commit();
            scratch();
            keep(&format!("{b}(%include i){}", s.repeat(n)));
        }),
        space("chains", "every two of the calls in turn nested in each other to every depth up to 24, around 6 expressions", move |ch| {
            let once: Vec<&str> = AROUND.iter().copied().filter(|a| *a != "@" && a.matches('@').count() == 1).collect();
            let x = ch.of(&once);
            let y = ch.of(&once);
            let depth = if deep { 1 + ch.pick(24) } else { [3, 5, 6, 9, 12, 17, 24][ch.pick(7)] };
            let l = ch.of(if deep { &LEAVES[..] } else { &["a", "%v", "(%include j)"][..] });
            let b = ch.of(&BEFORE[1..if deep { 4 } else { 3 }]);
            ch.commit();
            scratch();
            let mut s = "@".to_string();
            for i in 0..depth { s = s.replace('@', if i % 2 == 0 { x } else { y }) }
            keep(&format!("{b}{}", s.replace('@', l)));
        }),
        space("ladders", "up to 16 macros or variables which each use the one before, in their body, a default, an argument or a pattern, in turn in two ways, under every use of the last", move |ch| {
            const STEP: [&str; 10] = ["(%define (NEXT) (%LAST))", "(%define (NEXT :k (%LAST)) %k)", "(%define (NEXT &r) (x (%LAST %r)))", "(%define NEXT (%LAST))(%define (NEXT) %NEXT)", "(%define (NEXT) (%match (%LAST) (q (b %q))))", "(%define (NEXT &&n) (%define z (%LAST)) %z %n)", "(%define (NEXT :k (%LAST :k a)) (_ %k))", "(%define (NEXT) (%apply (%lambda (:y (%LAST)) %y)))", "(%define (NEXT) (%map do (%LAST)))", "(%define (NEXT (a :b (%LAST))) (_ %a %b))(%define (NEXT) (%NEXT (1)))"];
            let (x, y) = (ch.of(&STEP), ch.of(&STEP));
            let n = if deep { 1 + ch.pick(16) } else { [1, 2, 3, 4, 6, 8, 11, 16][ch.pick(8)] };
            let last = ch.of(&["(%LAST)", "(%LAST :k 5)", "(%LAST 1)", "(%for i in (1 2) (%LAST))", "(%LAST)(%include j)(%LAST)", "(%LAST (7))"]);
            ch.commit();
            scratch();
            let mut s = String::from("(%define (m0 &r :k 0) a)");
            for i in 0..n { s += &(if i % 2 == 0 { x } else { y }).replace("LAST", &format!("m{i}")).replace("NEXT", &format!("m{}", i + 1)) }
            keep(&format!("{s}{}", last.replace("LAST", &format!("m{n}"))));
        }),
        space("characters", "texts of 16 characters each from every part of Unicode, as words, strings, attributes, raw strings, in comments and inside of every special element, for each target", move |ch| {
            let block = ch.pick(0x110000 / 16);
            if block * 16 >= if deep { 0x110000 } else { 0x3400 } && block % 0x100 > 1 { ch.skip() }
            let shape = ch.of(&["\"@\"", "(p \"@\")", "(p :k \"@\")", "(%raw \"@\")", "(pre \"@\")(title \"@\")(textarea \"@\")(style (a :k \"@\"))(svg (b \"@\" :c \"@\"))(script \"@\")", "(style (a :k @))", "a@", "(a@ :b@ c@)", ";@\nb c", "(a ;@\n :k ;@@\n c ;@\n)"]);
            ch.commit();
            let quoted = shape.contains('"');
            let t: String = (0..16).filter_map(|i| char::from_u32((block * 16 + i) as u32)).map(|c| match c { '"' | '\\' => format!("\\{c}"), c if !quoted => format!("\\{c}"), c => c.to_string() }).collect();
            let src = shape.replace('@', &t);
            scratch();
            let valid = crate::engine::real(|| {
                let e = seam::tree_builder(None::<&str>, src.clone());
                let r = match e.expand() {
                    Ok(tree) => { if let Err(m) = real::sound(&tree) { violation(format!("source: {src:?}\n{m}")) } TARGETS.iter().all(|t| { let f = real::formatter(*t, tree.clone()); let texts = [f.display().unwrap_or_else(|e| e.to_string()), f.document().unwrap_or_else(|e| e.to_string())]; texts.iter().all(|s| { outcome(s.as_bytes()); std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_ok() }) }) }
                    Err(e) => std::str::from_utf8(std::hint::black_box(e.to_string().as_bytes())).is_ok(),
                };
                r
            });
            if !valid { violation(format!("source: {src:?}\na text which was made is not valid UTF-8")) }
            sample(|| src);
        }),
        formatters("formatters", if deep { 5 } else { 3 }),
    ]
}

const TREES: [&str; 14] = ["", "a", "(p (b \"x\") :k 1)", "(p :k v (b))", "(svg (a :k v))(math x)", "(style (a :k v)(@media x (b :c d)))", "(style \"raw\")(script (f x))", "(title a)(textarea (b c))", "(html (head (title x)) (svg (b)) (script \"s\"))", "(pre (b) c)", "(br x)", "(svg ())", "(style (a))(a :k (calc (+ 1 2)))", "(p (style (svg (a))) (svg (style (b :k v))))"];

struct Full { text: String, room: usize }
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.len() > self.room { return Err(std::fmt::Error) } self.room -= s.len(); self.text += s; Ok(()) }
}

/// Ask formatters of one tree for text, clone and drop them, in every order.
fn formatters(name: &'static str, n: usize) -> Space {
    space(name, format!("every sequence of up to {n} operations (display, document, generate, generation into a writer that fails, clone, drop, use of a clone) on the formatters of {} trees for each target", TREES.len()), move |ch| {
        let src = ch.of(&TREES);
        let target = ch.of(&TARGETS);
        let mut ops = vec![];
        for _ in 0..n { match ch.pick(8) { 0 => break, i => ops.push(i) } }
        ch.commit();
        let describe = || format!("source: {src:?}, formatter for {}, operations: {:?}", target.name(), ops.iter().map(|o| ["", "display", "document", "generate", "generate and fail", "clone", "drop the oldest", "go on with the next"][*o]).collect::<Vec<_>>());
        if verbose() { println!("{}", describe()) }
        let mut h = String::new();
        fn steps<'a>(e: &'a seam::parse::expander::Expander<'a>, target: T, ops: &[usize], h: &mut String, describe: &dyn Fn() -> String) {
            let tree = e.expand().unwrap_or_else(|e| panic!("{e}"));
            let show = |r: Result<String, seam::assemble::GenerationError>| match r { Ok(s) => format!("ok {s}"), Err(e) => format!("error {e}") };
            let (want_frag, want_doc) = (show(real::formatter(target, tree.clone()).display()), show(real::formatter(target, tree.clone()).document()));
            let mut live: Vec<Box<dyn MarkupFormatter + 'a>> = vec![real::formatter(target, tree.clone())];
            let mut at = 0;
            for o in ops.iter().chain(&[1, 2]) {
                if live.is_empty() { break }
                at %= live.len();
                let f = &live[at];
                let (what, got, want) = match o {
                    1 => ("display", show(f.display()), &want_frag),
                    2 => ("document", show(f.document()), &want_doc),
                    3 => { let mut b = String::new(); let r = f.generate(&mut b).map(|_| ()); let r = r.map(|_| b.clone()); ("generate", show(r), &want_frag) }
                    4 => {
                        // Writing stops half way.
                        let mut w = Full { text: String::new(), room: want_frag.len() / 2 };
                        let r = f.generate(&mut w).is_ok();
                        if want_frag.len() > 6 && want_frag.starts_with("ok") && (r || !want_frag[3..].starts_with(&w.text)) { violation(format!("{}\ngenerating into a writer that fails gives {:?} and {}", describe(), w.text, if r { "no error" } else { "an error" })) }
                        continue
                    }
                    5 => { let c = f.clone(); live.push(c); continue }
                    6 => { live.remove(0); continue }
                    _ => { at += 1; continue }
                };
                *h += &got;
                if got != *want { violation(format!("{}\n{what} gives {got:?}\ninstead of {want:?}", describe())) }
            }
        }
        crate::engine::real(|| { let e = seam::tree_builder(None::<&str>, src.to_string()); steps(&e, target, &ops, &mut h, &describe) });
        outcome(h.as_bytes());
        sample(describe);
    })
}

thread_local! { static SEED: Cell<Option<u64>> = Cell::new(None); }

/// What the standard library seeds its hash maps with: under our control in threads that ask for it.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.try_with(|s| s.get()).ok().flatten().unwrap_or(0).wrapping_add(0x9e3779b97f4a7c15);
    for i in 0..len {
        x ^= x >> 30; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^= x >> 27; x = x.wrapping_mul(0x94d049bb133111eb); x ^= x >> 31;
        *buf.add(i) = (x >> 24) as u8;
        x = x.wrapping_add(0x9e3779b97f4a7c15);
    }
    len as isize
}

/// Run in a new thread whose hash maps are seeded by `seed`.
fn seeded<A: Send + 'static>(seed: u64, f: impl FnOnce() -> A + Send + 'static) -> A {
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || { SEED.with(|s| s.set(Some(seed))); f() }).unwrap().join().unwrap_or_else(|_| violation("the code under test panicked"))
}

const MAPS: usize = 24;
const KEYS: [&str; 4] = ["ka", "kb", "kc", "kd"];

/// For the first maps which a thread makes: the orders in which they list every choice of these keys.
fn orders(seed: u64) -> Vec<(usize, Vec<u8>)> {
    seeded(seed, || (0..MAPS).flat_map(|i| {
        let s = std::hash::RandomState::new();
        (3..16usize).filter(|set| set.count_ones() > 1).map(move |set| { let mut m = HashMap::with_hasher(s.clone()); for k in 0..4 { if set >> k & 1 == 1 { m.insert(KEYS[k], k as u8); } } (i, m.into_values().collect()) }).collect::<Vec<_>>()
    }).collect())
}

/// So many seeds that each of the first maps lists every choice of the keys in every order.
fn seeds() -> Vec<u64> {
    let all: Vec<HashSet<(usize, Vec<u8>)>> = (0..400).map(|s| orders(s).into_iter().collect()).collect();
    // Orders of 4, of 3 of 4 and of 2 of 4 keys.
    let mut missing: HashSet<(usize, Vec<u8>)> = all.iter().flatten().cloned().collect();
    assert_eq!(missing.len(), MAPS * (24 + 4 * 6 + 6 * 2), "the hash seeds are not under control");
    let mut chosen = vec![];
    while !missing.is_empty() {
        let best = (0..all.len()).max_by_key(|i| (all[*i].iter().filter(|o| missing.contains(*o)).count(), usize::MAX - i)).unwrap();
        for o in &all[best] { missing.remove(o); }
        chosen.push(best as u64);
    }
    chosen
}

/// Everything that results from a source, as text.
fn everything(src: &str, dirs: &[String]) -> String {
    let mut e = seam::tree_builder(None::<&str>, src.to_string());
    e.add_includes(dirs.iter());
    let r = match e.expand() {
        Ok(t) => {
            let mut s = format!("{t:?}\n");
            for target in TARGETS { let f = real::formatter(target, t.clone()); for r in [f.display(), f.document()] { s += &match r { Ok(t) => t, Err(e) => e.to_string() }; s.push('\n') } }
            s
        }
        Err(e) => e.to_string(),
    };
    r
}

thread_local! { static SEEDS: Vec<u64> = seeds(); static MEMO: RefCell<HashMap<String, String>> = RefCell::new(HashMap::new()); }

fn same(what: impl Fn() -> String, want: &str, got: &str) {
    if want != got {
        let at = want.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        violation(format!("{}\nonce: {want}\nthen: {got}\n(first difference at byte {at})", what()))
    }
}

pub fn c25(deep: bool, _: u32) -> Vec<Space> {
    let n = if deep { 4 } else { 3 };
    vec![
        space("hash-orders", format!("macros and options with many names, under so many hash seeds that each of the first {MAPS} maps lists every choice of four names in every order"), move |ch| {
            let four = |ch: &mut Ch, items: &[&str]| { let mut v = vec![]; for k in &KEYS[..if deep { 4 } else { 3 }] { let i = ch.pick(items.len()); v.push(items[i].replace('@', k)) } v.join(" ") };
            let which = ch.pick(14);
            let src = match which {
                // Named arguments: some declared, some not.
                0 => { let p = four(ch, &["", ":@ 1"]); let a = four(ch, &["", ":@ x"]); format!("(%define (f {p}) (r))(%f {a})") }
                1 => { let p = four(ch, &["", ":@ 1"]); let a = four(ch, &["", ":@ x"]); format!("(%define (f {p} &&rest) (r %rest))(%f {a})") }
                2 => { let p = four(ch, &["@", ":@ (%@q)"]); let a = four(ch, &["", ":@ x", "y"]); format!("(%define (f {p}) (r))(%f {a})") }
                3 => { let p = four(ch, &["", "@", ":@ 1"]); let b = four(ch, &["%@", ""]); format!("(%match (1 :kb 2 :kd 3) (({p}) (r {b})) (&r none))") }
                4 => { let t = four(ch, &["{@}", "", "{}"]); let a = four(ch, &["", ":@ x", "y"]); format!("(%format \"{t}\" {a})") }
                5 => { let d = four(ch, &["(%define @ x)", "(%define (@) y)", ""]); let u = four(ch, &["%n/@", "(%n/@)"]); format!("(%namespace n {d}){u}") }
                // Names that collide.
                6 => { let d = four(ch, &["(%define @ x@)", "(%define n@ y@)"]); let u = four(ch, &["%n@", "%nn@"]); format!("(%define nka old)(%namespace n :separator \"\" {d}){u}") }
                7 => { let d = four(ch, &["\\\"@\\\": 1", "n\\\"@\\\": 2", "@: 3"]); format!("(%yaml \"{}\")%ka %kb", d.replace(' ', "\\n").replace(":\\n", ": ").replace("\\\"", "")) }
                8 => { let d = four(ch, &["@ = 1", "[@]", "[@.kb]", ""]); format!("(%toml \"{}\")(q %ka)", d.replace(" = ", "=").replace(' ', "\\n")) }
                9 => { let d = four(ch, &["@: 1", "", "@: [1, {ka: 2, kb: 3}]"]); format!("(%markdown \"---\\n{}\\n---\\n# h\")(q %ka %kc/1/kb)", d.replace("1 k", "1\\nk").replace("] k", "]\\nk").replace("}] ", "}]\\n")) }
                10 => { let a = four(ch, &["", ":@ 1", ":ka @"]); format!("(p {a})(style (a {a}))(%sort :key ka (({a}) (:ka 2)))") }
                11 => { let a = four(ch, &["", ":@ 1", ":separator @", ":order @"]); let m = ch.of(&["sort", "date", "join", "yaml", "markdown", "glob", "get", "namespace", "timestamp", "toml"]); format!("(%{m} {a} \"1\" (2))") }
                12 => { let l = four(ch, &["(%lambda (@) %@)", "(%lambda (:@ 1) %@)"]); format!("(%define (ap f) (%apply %f 1))(l {l})(%map ap {l})") }
                _ => { let d = four(ch, &["(%define @ 1)", "(%define (@ &&r) (x %r))"]); let u = four(ch, &["%@", "(%@ :kd 1 :ka 2)"]); format!("{d}(%ifdef kb {u})(%define (all &&o) (all %o))(%all {u} :kc 1 :kb 2)") }
            };
            ch.commit();
            scratch();
            let seeds = SEEDS.with(|s| s.clone());
            if verbose() { println!("source: {src}") }
            let all: Vec<String> = crate::engine::real(|| seeds.iter().map(|&s| { let t = src.clone(); seeded(s, move || everything(&t, &[])) }).collect());
            for (i, r) in all.iter().enumerate() { same(|| format!("source: {src:?}, with hash seeds {} and {}", seeds[0], seeds[i]), &all[0], r) }
            outcome(all[0].as_bytes());
            sample(|| format!("{src:?} under {} seeds", seeds.len()));
        }),
        space("histories", format!("every sequence of up to {n} of {} sources processed one after the other, the last compared with itself alone", PROGRAMS.len()), move |ch| {
            let mut h = vec![];
            for _ in 0..n { match ch.pick(PROGRAMS.len() + 1) { 0 => break, i => h.push(PROGRAMS[i - 1]) } }
            if h.len() < 2 { ch.skip() }
            ch.commit();
            scratch();
            let last = *h.last().unwrap();
            let dirs = |s: &str| if s.contains("elsewhere") { vec!["i".to_string(), ".".to_string()] } else { vec![] };
            let alone = MEMO.with(|m| m.borrow_mut().entry(last.to_string()).or_insert_with(|| crate::engine::real(|| seeded(7, move || everything(last, &dirs(last))))).clone());
            let got = crate::engine::real(|| { let mut r = String::new(); for s in &h { r = everything(s, &dirs(s)) } r });
            same(|| format!("sources, one after the other: {h:?}"), &alone, &got);
            outcome(got.as_bytes());
            sample(|| format!("{h:?}"));
        }),
        space("similar", "two sources one after the other which differ in the order of their characters or in one of them only, for every macro and target, of sizes up to 1000", move |ch| {
            let call = ch.of(&["(p (%markdown \"@\"))", "(%yaml \"k: @\")%k", "(%toml \"k = '@'\")%k", "(%json \"[\\\"@\\\"]\")", "(%format \"@{}\" 1)", "(%concat @ x)", "(p @ \"@\")", "(%define @ 1)%@", "(%define (@) 1)(%@)", "(style (@ :c d))", "(%get @ (:@ 1))", "(%get 0 (@))", "(%date \"@\" 0)", "(%glob \"@*\")", "(%include \"@\")", "(%embed \"@\")", "(%sort (@ a))", "(%match @ (@ x))", "(%apply (%lambda (x) (y %x @)) 1)", "(pre @)", "(script @)", "(svg (@))", "(title @)", "(%for x in (@ b) (%x))", "(%raw @)", "(%symbol \"@\")", "(%timestamp \"@\" \"@\")", "(%os/env @)", "(%namespace @ (%define x 1))(%@/x)", "(:@ 1)", "; @\n(a))"]);
            let n = ch.of(&[2usize, 9, 41, 255, 1000]);
            let how = ch.pick(6);
            ch.commit();
            scratch();
            let first: Vec<char> = (0..n).map(|i| char::from(b'a' + (i * 7 % 23) as u8)).collect();
            let mut second = first.clone();
            match how { 0 => second.swap(0, 1), 1 => second.swap(n / 2, n - 1), 2 => second.reverse(), 3 => second[n - 1] = 'z', 4 => second[n / 2] = 'y', _ => { second.rotate_left(1) } }
            let [a, b] = [first, second].map(|t| call.replace('@', &t.into_iter().collect::<String>()));
            let alone = crate::engine::real(|| seeded(7, { let b = b.clone(); move || everything(&b, &[]) }));
            let got = crate::engine::real(|| { everything(&a, &[]); everything(&b, &[]) });
            same(|| format!("sources, one after the other: {:?}", [&a, &b]), &alone, &got);
            outcome(got.as_bytes());
            sample(|| format!("{b:?}"));
        }),
        space("options", "two of 72 calls of macros with options one after the other, in one source and in two, beside the same files: neither changes what the other gives", move |ch| {
            const CALLS: [&str; 72] = [
                "(%glob \"*\" :sort name)", "(%glob \"*\" :sort name :order descending)", "(%glob \"*\" :type file :sort name)", "(%glob \"*\" :type directory :sort name)", "(%glob \"*\" :type any :sort type)", "(%glob \"**/*\" :sort name)", "(%glob \"d/*\" :sort modified)", "(%glob \"z*\")",
                "(%include f)", "(%include f.sex)", "(%include d/f)", "(%include nope)", "(%embed f)", "(%embed f.sex)", "(%embed d/f)", "(%embed g)", "(%include g)",
                "(%date \"%H\" 0)", "(%date \"%H\" 0 :timezone 3)", "(%date \"%H\" 0 :timezone -3)", "(%date \"%H\" 7200)", "(%date \"%H:%M\" 0)", "(%date \"%Y %\" 0)",
                "(%timestamp \"%Y-%m-%d %H\" \"2020-01-01 00\")", "(%timestamp \"%Y-%m-%d %H\" \"2020-01-01 00\" :timezone 3)", "(%timestamp \"%Y-%d-%m %H\" \"2020-01-01 00\" :timezone 3)", "(%timestamp \"%Y-%m-%d %H\" \"2020-01-02 00\" :timezone -3)",
                "(%markdown \"a\")", "(%markdown \"---\\nk: 1\\n---\\na\")", "(%markdown :only content \"---\\nk: 1\\n---\\na\")", "(%markdown :only frontmatter \"---\\nk: 1\\n---\\na\")", "(%markdown :only content \"a\")", "(%markdown \"+++\\nk = 1\\n+++\\na\")",
                "(%yaml \"k: 1\")", "(%yaml \"k: {l: 1}\")", "(%yaml \"k: {l: 1}\" :separator .)", "(%toml \"k = 1\")", "(%toml \"k.l = 1\")", "(%toml \"k.l = 1\" :separator .)", "(%json \"{\\\"k\\\": 1}\")", "(%yaml \"k: [\")", "(%toml \"k = \")",
                "(%sort (2 1 x))", "(%sort (2 1 x) :order descending)", "(%sort (2 1 x) :order ascending)", "(%sort :key c (2 1 x))", "(%sort :key n (2 1 x))",
                "(%join \",\" a b)", "(%join \",\" :trailing true a b)", "(%join \",\" :trailing false a b)", "(%join \";\" a b)", "(%get a/b (:a (:b 1)))", "(%get a/b (:a (:b 1) :a/b 2) :separator .)", "(%get a.b (:a (:b 1)) :separator .)", "(%get 0 (a b))", "(%get 1 (a b))",
                "(%format \"{}{a}\" 1 :a 2)", "(%format \"{a}{}\" 1 :a 2)", "(%format \"{}\" x)", "(%format \"{:>4}\" x)", "(%namespace n (%define v 1))", "(%namespace n :separator . (%define v 2))", "%n/v", "%n.v", "(%os/env MC_OPTION)", "(%os/env MC_NONE)",
                "(%concat a b)", "(%raw a b)", "(%string a b)", "(%match 1 (1 a))", "(%match 2 (1 a) (x %x))", "(%apply (%lambda (x :k 1) %x %k) 5)",
            ];
            let (a, b) = (ch.of(&CALLS), ch.of(&CALLS));
            let third = if deep { ch.of(&CALLS[..]) } else { a };
            ch.commit();
            let before = std::env::current_dir().unwrap();
            let home = super::files::layout(&[("cwd/f".into(), super::files::text("first (%define q 1)")), ("cwd/f.sex".into(), super::files::text("second")), ("cwd/g".into(), super::files::text("first (%define q 1)")), ("cwd/d/f".into(), super::files::text("third")), ("cwd/a.b".into(), super::files::text(""))]);
            std::env::set_current_dir(format!("{home}/cwd")).unwrap();
            std::env::set_var("MC_OPTION", "v");
            const DEFS: &str = "(%define (c x) c)(%define (n x) %x)";
            let fresh = |src: String| crate::engine::real(|| seeded(7, move || everything(&src, &[])));
            let of = |c: &str| format!("{DEFS}(x {c})");
            let last = fresh(of(b));
            let got = crate::engine::real(|| { everything(&of(a), &[]); if deep { everything(&of(third), &[]); } everything(&of(b), &[]) });
            same(|| format!("sources, one after the other: {:?}", [of(a), of(third), of(b)]), &last, &got);
            // What gives names is no part of this.
            let names = |c: &str| ["include", "markdown", "yaml", "toml", "json", "namespace", "%n"].iter().any(|n| c.contains(n));
            let text = |src: String| crate::engine::real(move || seam::tree_builder(None::<&str>, src).expand().map(|t| real::formatter(T::Sexp, t).display().unwrap_or_else(|e| e.to_string())).map_err(|_| ()));
            if !(names(a) && names(b) || deep && names(third)) {
                let each: Result<String, ()> = [a, third, b][usize::from(!deep)..].iter().map(|c| text(of(c))).collect();
                let all = text(format!("{DEFS}{}", [a, third, b][usize::from(!deep)..].iter().map(|c| format!("(x {c})")).collect::<String>()));
                if each != all { violation(format!("calls in one source: {:?}\neach alone: {each:?}\ntogether: {all:?}", [a, third, b])) }
            }
            std::env::set_current_dir(before).unwrap();
            outcome(got.as_bytes());
            sample(|| format!("{a:?} {b:?}"));
        }),
        space("interleaved", "two sources whose builders and trees are alive at the same time, in every order of their steps", move |ch| {
            let (a, b) = (ch.of(&PROGRAMS), ch.of(&PROGRAMS));
            // Each has the steps: make, expand, generate; the first begins.
            let order = ch.of(&[[0u8, 0, 0, 1, 1, 1], [0, 1, 0, 1, 0, 1], [0, 1, 1, 0, 0, 1], [0, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1], [0, 1, 0, 0, 1, 1], [0, 1, 1, 1, 0, 0], [0, 0, 1, 1, 1, 0], [0, 1, 0, 1, 1, 0], [0, 1, 1, 0, 1, 0]]);
            ch.commit();
            scratch();
            let show = |t: &Result<seam::parse::parser::ParseTree, Box<dyn std::error::Error + '_>>| match t { Ok(t) => { let mut s = format!("{t:?}\n"); for target in TARGETS { let f = real::formatter(target, t.clone()); for r in [f.display(), f.document()] { s += &match r { Ok(t) => t, Err(e) => e.to_string() }; s.push('\n') } } s } Err(e) => e.to_string() };
            let alone = |p: &'static str| MEMO.with(|m| m.borrow_mut().entry(p.to_string()).or_insert_with(|| crate::engine::real(|| seeded(7, move || everything(p, &[])))).clone());
            if a.contains("elsewhere") || b.contains("elsewhere") { ch.skip() }
            let want = [alone(a), alone(b)];
            let got = crate::engine::real(|| {
                let src = [a, b];
                let e: [std::cell::OnceCell<seam::parse::expander::Expander>; 2] = Default::default();
                let mut trees = [None, None];
                let mut out = [String::new(), String::new()];
                let mut step = [0, 0];
                for w in order {
                    let w = w as usize;
                    match step[w] {
                        0 => { let _ = e[w].set(seam::tree_builder(None::<&str>, src[w].to_string())); }
                        _ => {}
                    }
                    step[w] += 1;
                }
                // Expansion borrows the builders, so that both are made by now.
                let mut step = [0, 0];
                for w in order {
                    let w = w as usize;
                    match step[w] { 1 => trees[w] = Some(e[w].get().unwrap().expand()), 2 => out[w] = show(trees[w].as_ref().unwrap()), _ => {} }
                    step[w] += 1;
                }
                out
            });
            for w in 0..2 { same(|| format!("sources {a:?} and {b:?}, interleaved as {order:?}"), &want[w], &got[w]) }
            outcome(got.concat().as_bytes());
        }),
        super::files::changes(deep),
        space("reuse", "one formatter of trees of up to 300 nested lists, asked for its text or document up to 100 times, itself or its clone, for every target", move |ch| {
            let target = ch.of(&TARGETS);
            let n = ch.of(&[1usize, 2, 7, 15, 16, 17, 64, 127, 128, 255, 256, 257, 300]);
            let times = ch.of(&[2usize, 3, 5, 9, 17, 33, 100]);
            let what = ch.pick(4);
            let shape = ch.pick(3);
            ch.commit();
            if n * times > if deep { 40000 } else { 6000 } { ch.skip() }
            let src: String = match shape { 0 => (0..n).map(|i| format!("(a{i} :k v)\n")).collect(), 1 => (0..n).map(|i| format!("(p (b{i} x{i}) (style (c{i} :k v)))")).collect(), _ => format!("(q {})", (0..n).map(|i| format!("(svg (d{i} :e f))\n ")).collect::<String>()) };
            let (src, times) = (&src, times);
            let got = crate::engine::real(|| {
                let e = seam::tree_builder(None::<&str>, src.to_string());
                let r = match e.expand() {
                    Ok(tree) => {
                        let fresh = |doc: bool| { let f = real::formatter(target, tree.clone()); let r = if doc { f.document() } else { f.display() }; r.map_err(|e| e.to_string()) };
                        let want = [fresh(false), fresh(true)];
                        let mut f = real::formatter(target, tree.clone());
                        for i in 0..times {
                            let doc = match what { 0 => false, 1 => true, _ => i % 2 == 1 };
                            if what == 3 && i % 3 == 2 { let c = f.clone(); f = c }
                            let r = if doc { f.document() } else { f.display() };
                            let r = r.map_err(|e| e.to_string());
                            if r != want[doc as usize] { violation(format!("source: {src:?}\nthe {} formatter, asked for the {}th time, gives {r:?}\ninstead of {:?}", target.name(), i + 1, want[doc as usize])) }
                        }
                        format!("{want:?}")
                    }
                    Err(e) => e.to_string(),
                };
                r
            });
            outcome(got.as_bytes());
            sample(|| format!("{n} lists, {times} times, {}", target.name()));
        }),
        formatters("formatters", if deep { 6 } else { 4 }),
    ]
}

const PROGRAMS: [&str; 24] = ["a (b c) \"d\"", "(%define v 1)%v", "%v", "(%define (f x) (y %x))(%f 1)", "(%f 1)", "(%include i)", "(%h 1)", "%w", "(%include elsewhere)", "(%namespace n (%include k))(%n/deep 1)", "(%yaml \"a: [1, 2]\")%a/0", "%a/0", "(%lambda (x) %x)", "x (%lambda (x) %x) (%lambda (x) %x)", "(%define do 1)(%do 2)", "(p (br x))", "(p\n (%nope 1))", "(", "\"\\q\"", "(style (a :k v))(svg (b))(pre c)", "(%match 1 (x %x))%x", "(%for i in (1 2) %i)%i", "(%sort (c b a))(%format \"{a}{}\" 1 :a 2)(%date \"%F\" 0)", "(%markdown \"---\\nv: 9\\n---\\n# x\")%v"];
