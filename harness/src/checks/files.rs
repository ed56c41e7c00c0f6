//! C18, C19, C27: files and streams.
use super::*;
use crate::real;
use std::cell::RefCell;
use std::fs;

thread_local! { static AT: RefCell<Option<String>> = RefCell::new(None); static LAYOUT: RefCell<String> = RefCell::new(String::new()); }

/// The scratch directory of this process; its subdirectory `cwd` becomes the working directory.
fn home() -> String {
    AT.with(|a| a.borrow_mut().get_or_insert_with(|| {
        let d = super::macros::scratch("files");
        fs::create_dir_all(format!("{d}/cwd")).unwrap();
        std::env::set_current_dir(format!("{d}/cwd")).unwrap();
        d
    }).clone())
}

#[derive(Clone, Debug, PartialEq)]
pub enum F { Text(String), Bytes(&'static [u8]), Dir, Link(&'static str) }

/// Make the scratch directory contain exactly these files.
pub fn layout(files: &[(String, F)]) -> String {
    let home = home();
    let id = format!("{files:?}");
    LAYOUT.with(|l| {
        let mut l = l.borrow_mut();
        if *l == id { return }
        std::env::set_current_dir(&home).unwrap();
        for e in fs::read_dir(&home).unwrap() {
            let p = e.unwrap().path();
            assert!(p.starts_with(&home));
            if fs::symlink_metadata(&p).unwrap().is_dir() { fs::remove_dir_all(&p).unwrap() } else { fs::remove_file(&p).unwrap() }
        }
        for d in ["cwd", "d1", "d2"] { fs::create_dir(format!("{home}/{d}")).unwrap() }
        for (path, f) in files {
            let p = format!("{home}/{path}");
            fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
            match f { F::Text(t) => fs::write(&p, t).unwrap(), F::Bytes(b) => fs::write(&p, b).unwrap(), F::Dir => fs::create_dir_all(&p).unwrap(), F::Link(to) => std::os::unix::fs::symlink(to, &p).unwrap() }
        }
        std::env::set_current_dir(format!("{home}/cwd")).unwrap();
        *l = id;
    });
    home
}

pub fn text(s: impl Into<String>) -> F { F::Text(s.into()) }

pub fn strict(src: &str, dirs: Vec<String>, targets: &[T]) {
    let mut c = case(src);
    c.targets = targets;
    c.strict = true;
    c.world.dirs = dirs;
    compare(&c);
}

const SEXP: &[T] = &[T::Sexp];
const PLACES: [&str; 24] = ["@", " @", "\n@ x", "(p @)", "(p\n  @ z)", "(%do @)", "(%do  a @)", "(%define v @)[%v](%q)", "(%define (f) @)(%f)[%q]", "(%define (f x) %x)(%f @)[%q]", "(%for i in (1 2) @)[%q]", "(%namespace n @)[%n/q]", "(%ifdef m no @)", "(%ifdef q @ no)", "(%match 1 (y @))[%q]", "(%list @)", "(%map do @)", "(%reverse (@ 1))", "(p :k @)", "(%string @)", "@@", "(%strip @)", "(%define q old) @ %q", "(%get 0 (@))"];

pub fn c18(deep: bool, _: u32) -> Vec<Space> {
    vec![
        space("lookup", "every presence of a file, directory or unreadable file under a name and under that name with `.sex`, in the working directory and two include directories, in every order, for every spelling of the name", move |ch| {
            let mut files = vec![];
            for d in ["cwd", "d1", "d2"] {
                match ch.pick(if deep { 5 } else { 4 }) { 0 => {} 1 => files.push((format!("{d}/f"), text(format!("({d} f)")))), 2 => files.push((format!("{d}/f"), F::Dir)), 3 => files.push((format!("{d}/f"), F::Bytes(b"bad \xff utf8"))), _ => files.push((format!("{d}/f"), text("("))) }
                match ch.pick(if deep { 4 } else { 3 }) { 0 => {} 1 => files.push((format!("{d}/f.sex"), text(format!("({d} sex)")))), 2 => files.push((format!("{d}/f.sex"), text(")"))), _ => files.push((format!("{d}/f.sex"), F::Dir)) }
            }
            ch.commit();
            let home = layout(&files);
            let dirs: Vec<String> = match ch.pick(8) {
                0 => vec![], 1 => vec![format!("{home}/d1")], 2 => vec![format!("{home}/d2")], 3 => vec![format!("{home}/d1"), format!("{home}/d2")],
                4 => vec![format!("{home}/d2"), format!("{home}/d1")], 5 => vec![format!("{home}/none"), "../d2".into()], 6 => vec!["../d1/".into(), "../d2".into()], _ => vec![format!("{home}/d1/../d2"), format!("{home}/d1")],
            };
            let name = ch.of(&["f", "f.sex", "./f", "../d1/f", "f.", "g", "ABS", "\"f\"", "\\f"]);
            let mac = ch.of(&["include", "embed"]);
            let src = format!("<(%{mac} {})", name.replace("ABS", &format!("{home}/d2/f")));
            strict(&src, dirs, SEXP);
        }),
        space("blank-files", "every presence of empty, blank and other files under a name and under that name with `.sex`, in the working directory and two include directories", move |ch| {
            let mut files = vec![];
            for d in ["cwd", "d1", "d2"] {
                let t = ch.of(&[None, Some(""), Some(" "), Some("; c"), Some("(D f)")]);
                if let Some(t) = t { files.push((format!("{d}/f"), text(t.replace('D', d)))) }
                let t = ch.of(&[None, Some(""), Some("(D sex)")]);
                if let Some(t) = t { files.push((format!("{d}/f.sex"), text(t.replace('D', d)))) }
            }
            ch.commit();
            let home = layout(&files);
            let mac = ch.of(&["include", "embed"]);
            strict(&format!("<(%{mac} f)>"), vec![format!("{home}/d1"), format!("{home}/d2")], SEXP);
        }),
        space("contents", format!("every file of up to {} pieces included in each of {} places, with its definitions used", if deep { 4 } else { 3 }, PLACES.len()), move |ch| {
            let t = sequence(ch, &["a", " ", "\n", "(b c)", "(%define q 1)", "%q", ":k v", "\"s\"", "; c\n", "(%define (h x) (y %x))", "(%h 2)", "(", "%m", "(%raw \"<\")"], if deep { 4 } else { 3 });
            ch.commit();
            layout(&[("cwd/f".into(), text(t))]);
            let p = ch.of(&PLACES);
            strict(&p.replace('@', "(%include f)"), vec![], SEXP);
        }),
        space("targets", "every file of up to 2 pieces included in each place, for every target", move |ch| {
            let t = sequence(ch, &["a", "\n(p x)\n", "(head)", "(!doctype html)", "(a :k v)", "\"<\"", "(br)", "(?xml)", "(pre b  c)", "(style (x :y 1))"], 2);
            ch.commit();
            layout(&[("cwd/f.sex".into(), text(t))]);
            let p = ch.of(&PLACES);
            strict(&p.replace('@', "(%include f)"), vec![], &TARGETS);
        }),
        space("nesting", "chains of up to 4 including files, each of which defines, uses or fails", move |ch| {
            const C: [&str; 9] = ["(%define @ \"@\") @", "[%q]", "(%include $) z", "\n (%include $)", "(%define (m@) (%include $))(%m@)", "(%namespace @ (%include $))", "(%for i in (1 2) (%include $))", "(%include $)(%include $)", "%undefined"];
            let n = if deep { 4 } else { 3 };
            let mut files = vec![];
            for i in 0..n {
                let body = ch.of(&C).to_string() + ch.of(&["", "(%define q q@)", " %ifdef (%ifdef q %q none)"]);
                let t = body.replace('@', &format!("n{i}")).replace('$', &format!("f{}", i + 1));
                let at = if i % 2 == 0 { "cwd" } else { "d1" };
                files.push((format!("{at}/f{i}"), text(t)));
            }
            files.push((format!("d1/f{n}"), text("(leaf (%ifdef q %q -))")));
            ch.commit();
            let home = layout(&files);
            let src = ch.of(&["(%include f0)(%ifdef q %q none)(%ifdef n0 %n0 none)", "(p (%include f0) (%include f1))", "(%define q outer)(%include f0)[%q]"]);
            strict(src, vec![format!("{home}/d1")], SEXP);
        }),
        space("errors", "errors at every kind of place of included files, which name that file and its line", move |ch| {
            let (bad, _) = ch.of(&[("(", 0), (")", 0), ("\"x", 0), ("%nope", 0), ("(%nope 1)", 0), ("(%include none)", 0), ("(%join)", 0), ("(p :k)", 0), ("\\", 0), ("(%sort x)", 0)]);
            let pre = ch.of(&["", "x ", "x\n\n  ", "é\n", "; c\n\n ", "(p\n", "\"a\nb\" "]);
            let post = ch.of(&["", "\n", ")\n y"]);
            let via = ch.of(&["(%include f)", "x\n (%include f)", "(%include g)", "(%define (m)\n (%include f))\n(%m)", "(p (%include\n f))"]);
            ch.commit();
            layout(&[("cwd/f".into(), text(format!("{pre}{bad}{post}"))), ("cwd/g".into(), text("\n\n(q\n (%include f))"))]);
            strict(via, vec![], &TARGETS);
        }),
        space("generation-errors", "nodes of included files which a target rejects", move |ch| {
            let bad = ch.of(&["()", "(br x)", "(1 2)", "(p :k (l))", "(p a :k v)", ":k v", "(a b)", "x"]);
            let pre = ch.of(&["", "\n\n ", "(p)\n"]);
            let via = ch.of(&["(%include f)", "(div\n (%include f))", "(%define (m) (%include f))(%m)", "(%define v (%include f))%v", "(%for i in (1) (%include f))"]);
            ch.commit();
            layout(&[("cwd/f".into(), text(format!("{pre}{bad}")))]);
            strict(via, vec![], &TARGETS);
        }),
        space("embed", format!("files of up to {} of any characters, embedded in 5 places, for every target", if deep { 4 } else { 3 }), move |ch| {
            let t = sequence(ch, &["a", " ", "\n", "\r", "\t", "\"", "\\", "(", ")", ";", "%", "<", "&", "é", "😀", "\u{feff}", "\u{0}", "'"], if deep { 4 } else { 3 });
            ch.commit();
            layout(&[("cwd/f".into(), text(t))]);
            let p = ch.of(&["(%embed f)", "(p (%embed f))", "(p :k  (%embed \"f\") x)", "(%define v (%embed f))(q\n %v)", "(%string (%embed f) \"\")"]);
            strict(p, vec![], &TARGETS);
        }),
        space("arguments", "calls with no, several and unusual arguments", move |ch| {
            let a = ch.of(&["", "f f", "()", "(f)", ":k f", "7", "\"\"", "(%raw f)", "%n", "(%do f)", "(%do )", "(%do f f)", "(%string f)", ".", "..", "/", "f/", "f/g", "\"f\\x00\"", "(%concat f .sex)", "f :k 1", "\"f \"", "\" f\"", "d", "d/f"]);
            let m = ch.of(&["include", "embed"]);
            ch.commit();
            layout(&[("cwd/f".into(), text("F")), ("cwd/7".into(), text("seven")), ("cwd/d/f".into(), text("DF")), ("cwd/d.sex".into(), text("DS")), ("cwd/.sex".into(), text("dot"))]);
            strict(&format!("(%define n f)x (%{m} {a}) y"), vec![], SEXP);
        }),
        space("names", format!("files whose names have up to {} of 24 pieces, next to files of the same name without one of the pieces, or with only those before or after one", if deep { 3 } else { 2 }), move |ch| {
            let pieces = ["a", "A", "#", "?", "%", "~", " ", "$HOME", "*", "&", "+", "=", ":", ".sex", ".", "é", "-", "[b]", "\\", "//", "../", "|", "{b}", "@"];
            let n = 1 + ch.pick(if deep { 3 } else { 2 });
            let parts: Vec<&str> = (0..n).map(|_| ch.of(&pieces)).collect();
            let (i, how) = (ch.pick(n), ch.pick(3));
            let m = ch.of(&["include", "embed"]);
            let exists = ch.flag();
            let name: String = format!("f{}g", parts.concat());
            let other = match how { 0 => { let mut p = parts.clone(); p.remove(i); format!("f{}g", p.concat()) } 1 => format!("f{}", parts[..i].concat()), _ => format!("{}g", parts[i + 1..].concat()) };
            let bad = |s: &str| s.split('/').any(|p| p == "..") || s.contains("/..") || s.contains("../");
            let parts = |s: &str| s.split('/').filter(|p| !p.is_empty() && *p != ".").map(String::from).collect::<Vec<_>>();
            let (p, q) = (parts(&name), parts(&other));
            if bad(&name) || bad(&other) || p.starts_with(&q) || q.starts_with(&p) || other.ends_with('/') || name.ends_with('/') { ch.skip() }
            ch.commit();
            let mut files = vec![(format!("cwd/{other}"), text("other"))];
            if exists { files.push((format!("cwd/{name}"), text("(right)"))) }
            layout(&files);
            strict(&format!("x (%{m} {})", crate::render::quote(&name)), vec![], SEXP);
        }),
        space("subdirectories", "files in subdirectories which include or embed a name that exists beside them, in the working directory and in an include directory, or not", move |ch| {
            let present = ch.pick(16);
            let from = ch.of(&["sub/f", "../d1/f", "sub/deep/f"]);
            let what = ch.of(&["(%include g)", "(%embed g)", "(%include sub/g)", "(%include ../cwd/g)", "(%include ./g)"]);
            let dirs = ch.pick(3);
            ch.commit();
            let mut files: Vec<(String, F)> = ["cwd/sub/f", "d1/f", "cwd/sub/deep/f"].iter().map(|p| (p.to_string(), text(format!("(in {what})")))).collect();
            for (i, p) in ["cwd/g", "cwd/sub/g", "d1/g", "cwd/sub/deep/g"].iter().enumerate() { if present >> i & 1 == 1 { files.push((p.to_string(), text(format!("(found \"{p}\")")))) } }
            let home = layout(&files);
            strict(&format!("(x (%include {from}))"), match dirs { 0 => vec![], 1 => vec![format!("{home}/d1")], _ => vec!["sub".into(), "sub/deep".into(), "../d1".into()] }, SEXP);
        }),
        space("sizes", "files of, and as many files or uses of one file as, every number around the powers of two (thorough: more)", move |ch| {
            let n = ch.of(&SIZES[..if deep { 18 } else { 9 }]);
            let shape = ch.pick(6);
            ch.commit();
            if shape == 2 && n > 300 { ch.skip() }
            let (f, src) = match shape {
                0 => ("(here 1)".to_string(), each(n, |_| "(%include f)".into())),
                1 => (" text ".to_string(), each(n, |_| "(%embed f)".into())),
                2 => (String::new(), each(n, |i| format!("(%include f{i})"))),
                3 => (each(n, |i| format!("(a{i} \"{i}\")")), "(x (%include f))".into()),
                4 => ("é\n".repeat(n), "(x (%embed f))".into()),
                _ => (each(n, |i| format!("(%define a{i} {i})")), format!("(%include f)(_ %a0 %a{})", n - 1)),
            };
            let mut files = vec![("cwd/f".to_string(), text(f))];
            if shape == 2 { files.extend((0..n).map(|i| (format!("cwd/f{i}"), text(format!("(file {i})"))))) }
            layout(&files);
            strict(&src, vec![], SEXP);
        }),
        space("many-directories", "a name in each of up to 12 include directories in turn", move |ch| {
            let n = 1 + ch.pick(12);
            let i = ch.pick(n + 1);
            let also = ch.pick(n + 1);
            let ext = ch.flag();
            let m = ch.of(&["include", "embed"]);
            ch.commit();
            let mut files: Vec<(String, F)> = (0..n).map(|d| (format!("d1/{d}/other"), text("no"))).collect();
            for d in [i, also] { if d < n { files.push((format!("d1/{d}/f{}", if ext && d == i { ".sex" } else { "" }), text(format!("(found {d})")))) } }
            let home = layout(&files);
            strict(&format!("x (%{m} f)"), (0..n).map(|d| format!("{home}/d1/{d}")).collect(), SEXP);
        }),
        space("links", "symbolic links to files and directories, also dangling", move |ch| {
            let to = ch.of(&["f", "../d1/f", "none", "../d1", "l"]);
            let n = ch.of(&["l", "l/f", "l.sex"]);
            let m = ch.of(&["include", "embed"]);
            ch.commit();
            let home = layout(&[("cwd/f".into(), text("(here)")), ("d1/f".into(), text("(there)")), ("cwd/l".into(), F::Link(to)), ("d1/l".into(), text("(other)"))]);
            strict(&format!("x (%{m} {n})"), vec![format!("{home}/d1")], SEXP);
        }),
    ]
}

/// For C25: what is read again must be what is there now.
pub fn changes(deep: bool) -> Space {
    space("changes", format!("up to {} sources processed one after the other, with files, include directories, working directory and environment changed before each", if deep { 4 } else { 3 }), move |ch| {
        let n = if deep { 4 } else { 3 };
        const SOURCES: [&str; 7] = ["(%include f)(r %w)", "(%embed f)", "(%glob \"*\" :sort name)", "(%os/env MC_VALUE)", "(%define w (%include f))(%include f)%w", "(%namespace n (%include f))%n/w", "(%glob \"*\" :sort modified)"];
        let src = ch.of(&SOURCES);
        let states: Vec<usize> = (0..n).map(|_| ch.pick(5)).collect();
        ch.commit();
        for (step, state) in states.iter().enumerate() {
            let files: Vec<(String, F)> = match state {
                0 => vec![("cwd/f".into(), text("(%define w 1) a"))], 1 => vec![("cwd/f".into(), text("(%define w 2) b"))],
                2 => vec![("d1/f".into(), text("(%define w 3) c")), ("cwd/g".into(), text(""))], 3 => vec![("cwd/f.sex".into(), text("(%define w 4) d")), ("d1/f".into(), text("(%define w 3) c"))],
                _ => vec![],
            };
            let home = layout(&files);
            std::env::set_var("MC_VALUE", ["one", "two", "", "four", "five"][*state]);
            for (i, e) in ["f", "g", "f.sex"].iter().enumerate() { if let Ok(f) = fs::File::open(e) { f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1000 + (step as u64 * 7 + i as u64 * 5) % 9)).unwrap() } }
            strict(src, vec![format!("{home}/d1")], SEXP);
        }
    })
}

/// For C10: lambdas whose places coincide except for the file.
pub fn lambdas_in_files(deep: bool) -> Space {
    space("lambdas-in-files", format!("lambdas at equal places of up to {} files, included in every order, and called in every order", if deep { 3 } else { 2 }), move |ch| {
        const HOW: [&str; 4] = ["(%lambda (x) (BODY %x))", "(%lambda (&x) (BODY %x))", "(%lambda (x :k 1) (BODY %x %k))", "(%do (%lambda (x) (BODY %x)))"];
        let n = if deep { 3 } else { 2 };
        let how: Vec<&str> = (0..=n).map(|_| ch.of(&HOW)).collect();
        let mut calls = String::new();
        for _ in 0..if deep { 3 } else { 2 } { calls += &ch.of(&["(%apply %fA 1)", "(%apply %fB (2))", "(%map fc 3)", "(%map %fB 3 4)", "(%define (k g) (%apply %g 5))(%k %fA)", "(%apply %fC 6)"]).replace('A', "a").replace('B', "b").replace('C', if deep { "c" } else { "a" }) }
        let first = ch.flag();
        let place = ch.of(&["@", "(p @)", "(%define (inc) @)(%inc)", "(%namespace n @)", "(%for i in (1 2) @)"]);
        ch.commit();
        let of = |i: usize| format!("(%define f{} {})", ["a", "b", "c"][i], how[i].replace("BODY", ["first", "other", "third"][i]));
        layout(&[("cwd/b".into(), text(of(1))), ("cwd/c".into(), text(of(2)))]);
        let inc = place.replace('@', if deep { "(%include b)(%include c)" } else { "(%include b)" });
        strict(&if first { format!("{}{inc}{calls}", of(0)) } else { format!("{inc}{}{calls}", of(0)) }, vec![], SEXP);
    })
}

pub fn c19(deep: bool, _: u32) -> Vec<Space> {
    // An entry of the directory: path and kind.
    const ENTRIES: [(&str, u8); 12] = [("a.txt", 0), ("b.md", 0), ("B.txt", 0), ("c", 0), ("sub", 1), ("sub/a.txt", 0), ("sub/d.md", 0), ("x y.txt", 0), ("é.b", 0), ("lnk.md", 2), ("dir.txt", 1), ("to-sub", 3)];
    fn files(set: u32) -> Vec<(String, F)> {
        ENTRIES.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, (n, k))| (format!("cwd/{n}"), match k { 0 => text("x"), 1 => F::Dir, 2 => F::Link("nowhere"), _ => F::Link("sub") })).collect()
    }
    fn sets(max: u32) -> Vec<u32> { (0..1u32 << ENTRIES.len()).filter(|s| s.count_ones() <= max).collect() }
    const PATTERNS: [&str; 20] = ["*", "*.txt", "*.md", "sub/*", "**/*.txt", "**/*", "?.txt", "[ab]*", "[!a]*", "a.txt", "sub", "none*", "*/*", "*/a.txt", "sub/**/*", "./*", "é*", "* *", "[a-c].*", "to-sub/*"];
    let glob = |src: String, any_order: bool| {
        let mut c = case(&src);
        c.targets = SEXP;
        c.world.any_order = any_order;
        compare(&c);
    };
    vec![
        space("paths", format!("every directory with up to {} of the entries {:?}, for {} patterns and every type, as a set", if deep { 5 } else { 4 }, ENTRIES.map(|e| e.0), PATTERNS.len()), move |ch| {
            let s = ch.of(&sets(if deep { 5 } else { 4 }));
            ch.commit();
            let home = layout(&files(s));
            let p = ch.of(&PATTERNS);
            let ty = ch.of(&["", " :type any", " :type file", " :type directory"]);
            let abs = ch.flag();
            let p = if abs { format!("{home}/cwd/{p}") } else { p.into() };
            glob(format!("(%sort (%list (%glob \"{p}\"{ty})))"), true);
        }),
        space("sizes", "directories with as many files as numbers around the powers of two up to 256 (thorough: 1024)", move |ch| {
            let n = ch.of(&SIZES[..if deep { 12 } else { 9 }]);
            let o = ch.of(&["", " :order descending"]);
            let deep = ch.flag();
            ch.commit();
            let files: Vec<(String, F)> = (0..n).map(|i| (format!("cwd/{}f{}", if deep { format!("d{}/", i % 7) } else { String::new() }, i * 7919 % 1021), text("x"))).collect();
            layout(&files);
            glob(format!("(%glob :sort name \"{}\"{o})", if deep { "**/f*" } else { "*" }), false);
        }),
        space("orders", format!("every directory with up to {} of the same entries, for 6 patterns and every type, sorted by name and type in both orders", if deep { 6 } else { 5 }), move |ch| {
            let s = ch.of(&sets(if deep { 6 } else { 5 }));
            ch.commit();
            layout(&files(s));
            let p = ch.of(&["*", "**/*", "*.txt", "sub/*", "*/*", "[!c]*"]);
            let ty = ch.of(&["", " :type file", " :type directory"]);
            let sort = ch.of(&["name", "type"]);
            let o = ch.of(&["", " :order ascending", " :order descending"]);
            // How a dangling link is typed is not stated.
            if sort == "type" && (s >> 9 & 1 == 1 || (s >> 11 & 1 == 1 && s >> 4 & 1 == 0)) { unspecified(); return }
            glob(format!("(%glob :sort {sort} \"{p}\"{ty}{o})"), false);
        }),
        space("times", format!("directories of {} entries with every assignment of 3 times of change", if deep { 6 } else { 5 }), move |ch| {
            let names = &["a", "b.x", "c.y", "d", "e.x", "s"][..if deep { 6 } else { 5 }];
            let t: Vec<u64> = names.iter().map(|_| 1_000_000_000 + 1000 * ch.pick(3) as u64).collect();
            ch.commit();
            let fs_: Vec<(String, F)> = names.iter().enumerate().map(|(i, n)| (format!("cwd/{n}"), if i == 3 { F::Dir } else { text("x") })).chain(std::iter::once((format!("d1/{t:?}"), text("")))).collect();
            layout(&fs_);
            for (n, t) in names.iter().zip(&t) { fs::File::open(n).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(*t)).unwrap() }
            let p = ch.of(&["*", "?.*", "**/*"]);
            let ty = ch.of(&["", " :type file", " :type directory", " :type any"]);
            let o = ch.of(&["", " :order ascending", " :order descending"]);
            glob(format!("x (%glob \"{p}\" :sort modified{ty}{o}) y"), false);
        }),
        space("near-times", format!("directories of {} files with every assignment of 4 times of change less than a second apart, before and after 1970", if deep { 5 } else { 4 }), move |ch| {
            let names = &["a", "b.x", "c.y", "d", "e"][..if deep { 5 } else { 4 }];
            let base = ch.of(&[1_000_000_000i64, 0, -5]);
            let t: Vec<u32> = names.iter().map(|_| ch.of(&[0, 1_000, 500_000_000, 999_000_000])).collect();
            ch.commit();
            let fs_: Vec<(String, F)> = names.iter().map(|n| (format!("cwd/{n}"), text("x"))).chain(std::iter::once((format!("d1/{base}{t:?}"), text("")))).collect();
            layout(&fs_);
            for (n, t) in names.iter().zip(&t) {
                let at = if base < 0 { std::time::UNIX_EPOCH - std::time::Duration::from_secs(-base as u64) } else { std::time::UNIX_EPOCH + std::time::Duration::from_secs(base as u64) };
                fs::File::open(n).unwrap().set_modified(at + std::time::Duration::from_nanos(*t as u64)).unwrap()
            }
            let o = ch.of(&["", " :order descending"]);
            glob(format!("x (%glob \"*\" :sort modified{o}) y"), false);
        }),
        space("creations", format!("directories of {} entries made in every order, each at the same time as the one before or later", if deep { 5 } else { 4 }), move |ch| {
            let names = &["a", "b.x", "c", "d.y", "e"][..if deep { 5 } else { 4 }];
            let mut left: Vec<usize> = (0..names.len()).collect();
            let order: Vec<usize> = (0..names.len()).map(|_| { let i = ch.pick(left.len()); left.remove(i) }).collect();
            let later: Vec<bool> = (1..names.len()).map(|_| ch.flag()).collect();
            ch.commit();
            layout(&[(format!("d1/{order:?}{later:?}"), text(""))]);
            let mut last = None;
            for (i, n) in order.iter().map(|o| names[*o]).enumerate() {
                if fs::metadata(n).is_ok() { break } // made for the same choices
                let now = std::time::Duration::from_millis(if i > 0 && later[i - 1] { 5 } else { 0 });
                loop {
                    std::thread::sleep(now);
                    if n == "c" { fs::create_dir(n).unwrap() } else { fs::write(n, "x").unwrap() }
                    let Ok(at) = fs::metadata(n).unwrap().created() else { unspecified(); return };
                    // The clock of the file system may be slow.
                    if now.is_zero() || last != Some(at) { last = Some(at); break }
                    if n == "c" { fs::remove_dir(n).unwrap() } else { fs::remove_file(n).unwrap() }
                }
            }
            // The times of change say something else.
            for (i, n) in names.iter().enumerate() { fs::File::open(n).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1000 * (i as u64 % 3))).unwrap() }
            let p = ch.of(&["*", "?.*", "**/*"]);
            let ty = ch.of(&["", " :type file", " :type directory", " :type any"]);
            let o = ch.of(&["", " :order ascending", " :order descending"]);
            glob(format!("x (%glob \"{p}\" :sort created{ty}{o}) y"), false);
        }),
        space("names", "directories of a few entries (one of them a directory) whose names differ in case, digits, extension, length and characters below and above `.` and `/`", move |ch| {
            let all = ["a", "a.b", "a-b", "ab", "A", "a.B", "a.b.c", "a0", "a b", "a+", ".a", "é", "z.", "aé.b"];
            let mut v: Vec<&str> = vec![];
            for i in 0..all.len() { if v.len() < if deep { 5 } else { 3 } && ch.flag() { v.push(all[i]) } }
            ch.commit();
            let dir = ch.pick(v.len() + 1);
            let f: Vec<(String, F)> = v.iter().enumerate().map(|(i, n)| (format!("cwd/{n}"), if i == dir { F::Dir } else { text("x") })).chain(v.get(dir).map(|d| (format!("cwd/{d}/in.b"), text("y")))).collect();
            layout(&f);
            let sort = ch.of(&["name", "type"]);
            let o = ch.of(&["", " :order descending"]);
            let p = ch.of(&["*", "a*", "**/*"]);
            glob(format!("(%glob \"{p}\" :sort {sort}{o})"), false);
        }),
        space("odd-names", "files and directories whose names have every one or two of 40 pieces, alone, at the start or at the end, next to two plain files", move |ch| {
            let pieces = ["_", "~", "#", "%", "$", "@", "!", "+", "=", ",", ";", "'", "\"", "(", ")", "[", "]", "*", "?", "\\", "é", "e\u{301}", "\n", "\t", " ", "-", "^", "{", "}", "&", "|", "<", ":", "1", ".bak", ".", "A", "\u{feff}", "日", "\u{a0}"];
            let (a, b) = (ch.of(&pieces), if ch.flag() { ch.of(&pieces) } else { "" });
            let name = match ch.pick(3) { 0 => format!("{a}{b}"), 1 => format!("f{a}{b}"), _ => format!("{a}{b}f") };
            if name == "." || name == ".." || (!deep && !b.is_empty() && a > b) { ch.skip() }
            let dir = ch.flag();
            ch.commit();
            layout(&[("cwd/b".into(), text("b")), ("cwd/c.x".into(), text("c")), (format!("cwd/{name}{}", if dir { "/in" } else { "" }), text("x"))]);
            let p = ch.of(&["*", "*f*", "**/*", "?", "[!b]*"]);
            let sort = ch.of(&["name", "type"]);
            glob(format!("(%glob {} :sort {sort})", crate::render::quote(p)), false);
        }),
        space("long-names", "names with extensions, or before them, of every length up to 40 (thorough: 200), or with as many extensions, next to four others, sorted by name and type", move |ch| {
            let n = 1 + ch.pick(if deep { 200 } else { 40 });
            let name = match ch.pick(5) { 0 => format!("c.{}", "bcdefgh".chars().cycle().take(n).collect::<String>()), 1 => format!("{}.c", "abc".chars().cycle().take(n).collect::<String>()), 2 => format!("a{}", ".c".repeat(n)), 3 => "bca".chars().cycle().take(n).collect(), _ => format!("a.{}", "z".repeat(n)) };
            let dir = ch.flag();
            let sort = ch.of(&["name", "type"]);
            let o = ch.of(&["", " :order descending"]);
            ch.commit();
            let mut f = vec![("cwd/a.b".to_string(), text("b")), ("cwd/a.d".into(), text("c")), ("cwd/d".into(), text("d")), ("cwd/b.bcdefghbz".into(), text("e"))];
            let name = format!("cwd/{name}{}", if dir { "/in" } else { "" });
            if f.iter().any(|f| f.0 == name) || name == "cwd/d/in" || name == "cwd/a.b/in" || name == "cwd/a.d/in" || name.len() > 240 { ch.skip() }
            f.push((name, text("x")));
            layout(&f);
            glob(format!("(%glob \"*\" :sort {sort}{o})"), false);
        }),
        space("uses", "results of %glob given to other macros and inside of other nodes", move |ch| {
            let s = ch.of(&sets(3));
            ch.commit();
            if s >> 9 & 1 == 1 || (s >> 11 & 1 == 1 && s >> 4 & 1 == 0) { ch.skip() }
            layout(&files(s));
            let p = ch.of(&["(%for f in (%glob \"*\" :sort name) (li %f))", "(%map f (%glob \"*\" :sort name :type file))", "(p (%glob \"*\" :sort name))", "(%join \",\" (%glob \"*.txt\" :sort name))", "(%define g (%glob \"*\" :sort type))%g %g", "(%list (%glob \"none\") (%glob \"*\" :sort name))", "(%reverse ((%glob \"*\" :sort name)))", "(%splat (%list (%glob \"*\" :sort name)))"]);
            glob(format!("(%define (f x) (i %x)){p}"), false);
        }),
    ]
}

/// A reader that does what its script says.
struct Script { steps: Vec<Step>, at: usize, rest: Vec<u8> }
#[derive(Clone, Debug, PartialEq)]
enum Step { Give(Vec<u8>), Interrupted, Fails(std::io::ErrorKind), End }

impl std::io::Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.rest.is_empty() {
            let Some(s) = self.steps.get(self.at) else { return Ok(0) };
            self.at += 1;
            match s {
                Step::Give(b) => self.rest = b.clone(),
                Step::Interrupted => return Err(std::io::ErrorKind::Interrupted.into()),
                Step::Fails(k) => return Err((*k).into()),
                // Once ended, there is nothing more to read.
                Step::End => { self.at = self.steps.len(); return Ok(0) }
            }
        }
        let n = self.rest.len().min(buf.len());
        buf[..n].copy_from_slice(&self.rest[..n]);
        self.rest.drain(..n);
        Ok(n)
    }
}

fn streamed(bytes: &[u8], steps: Vec<Step>) {
    let targets = if bytes.len() > 100 { SEXP } else { &TARGETS };
    let describe = format!("bytes {:?} delivered as {steps:?}", String::from_utf8_lossy(bytes));
    let mut given: Vec<u8> = vec![];
    let mut failed = false;
    for s in &steps { match s { Step::Give(b) => given.extend(b), Step::Interrupted => {} Step::Fails(_) => { failed = true; break } Step::End => break } }
    let text = if failed { None } else { String::from_utf8(given).ok() };
    let got = real(|| {
        let mut r = Script { steps, at: 0, rest: vec![] };
        let r = match seam::tree_builder_stream(&mut r) {
            Ok(e) => Ok(real::results(&e, "<stdin>", targets)),
            Err(e) => Err(e.to_string()),
        };
        r
    });
    match (text, got) {
        (None, Err(e)) => outcome(e.as_bytes()),
        (None, Ok(_)) => violation(format!("{describe}\nshould be an error when reading, but is not")),
        (Some(_), Err(e)) => violation(format!("{describe}\nis an error: {e}")),
        (Some(t), Ok(got)) => {
            let want = real::run(None, &t, &[], targets);
            let (a, b) = (format!("{:?}", (&want.tree, &want.outs)), format!("{:?}", (&got.tree, &got.outs)));
            if a != b { violation(format!("{describe}\ngives {b}\ninstead of {a}")) }
            if want.names.files != got.names.files { violation(format!("{describe}\nnames {:?} instead of {:?}", got.names.files, want.names.files)) }
            outcome(a.as_bytes());
        }
    }
    sample(|| describe);
}

/// A file must give what its text gives.
fn in_file(t: &str) {
    layout(&[]);
    fs::write("text", t).unwrap();
    let targets = if t.len() > 100 { SEXP } else { &TARGETS };
    let got = real(|| { let r = match seam::tree_builder_file(std::path::Path::new("text")) { Ok(e) => Ok(real::results(&e, "text", targets)), Err(e) => Err(e.to_string()) }; r });
    let short = |s: String| if s.len() > 2000 { format!("{}...", s.chars().take(1000).collect::<String>()) } else { s };
    fs::remove_file("text").unwrap();
    match got {
        Err(e) => violation(format!("a file of {} is an error: {e}", short(format!("{t:?}")))),
        Ok(got) => {
            let want = real::run(Some("text"), t, &[], targets);
            let (a, b) = (format!("{:?}", (&want.tree, &want.outs)), format!("{:?}", (&got.tree, &got.outs)));
            if a != b { violation(format!("a file of {}\ngives {}\ninstead of {}", short(format!("{t:?}")), short(b), short(a))) }
            outcome(a.as_bytes());
        }
    }
}

pub fn c27(deep: bool, _: u32) -> Vec<Space> {
    use Step::*;
    const TEXTS: [&str; 10] = ["", "a", "é", "(p 😀)", "(p é)\n", "\"é\u{301}\"", "(p", "; é\n(a)", "(%define a é)%a", "\u{feff}x"];
    let errors = || vec![Fails(std::io::ErrorKind::Other), Fails(std::io::ErrorKind::WouldBlock), Fails(std::io::ErrorKind::UnexpectedEof), Fails(std::io::ErrorKind::BrokenPipe)];
    vec![
        space("splits", if deep { "every way to split each text into reads, with up to two interruptions, errors or ends before any of them" } else { "every way to split each text of up to 10 bytes into reads, with up to one interruption, error or end before any of them" }, move |ch| {
            let b = ch.of(&TEXTS).as_bytes();
            if b.len() > 10 && !deep { ch.skip() }
            let mut steps = vec![];
            let mut cur = vec![];
            let mut faults = 0;
            let mut fault = |ch: &mut Ch, steps: &mut Vec<Step>| if faults < if deep { 2 } else { 1 } { match ch.pick(7) { 0 => {} 1 => { steps.push(Interrupted); faults += 1 } 2 => { steps.push(End); faults += 9 } i => { steps.push(errors()[i - 3].clone()); faults += 9 } } };
            fault(ch, &mut steps);
            for (i, c) in b.iter().enumerate() {
                cur.push(*c);
                if i + 1 < b.len() && ch.flag() { steps.push(Give(std::mem::take(&mut cur))); fault(ch, &mut steps) }
            }
            if !cur.is_empty() { steps.push(Give(cur)); fault(ch, &mut steps) }
            ch.commit();
            streamed(b, steps);
        }),
        space("invalid", "invalid bytes of every kind inserted at every position of each text, split at every place", move |ch| {
            let t = ch.of(&TEXTS).as_bytes();
            let bad: &[u8] = ch.of(&[&b"\xff"[..], b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\x80", b"\xf5\x80\x80\x80", b"\xe2\x82"]);
            let at = ch.pick(t.len() + 1);
            let b = [&t[..at], bad, &t[at..]].concat();
            let (i, j) = (ch.pick(b.len() + 1), ch.pick(b.len() + 1));
            if i > j { ch.skip() }
            ch.commit();
            streamed(&b, vec![Give(b[..i].to_vec()), Interrupted, Give(b[i..j].to_vec()), Give(b[j..].to_vec())].into_iter().filter(|s| *s != Give(vec![])).collect());
        }),
        space("long", "texts of up to 8193 bytes (thorough: 70000) around every buffer size, in equal reads, with a fault at every 16th part", move |ch| {
            let n = ch.of(&[31usize, 32, 33, 63, 64, 65, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65536, 70000][..if deep { 19 } else { 15 }]);
            let unit = ch.of(&["a ", "é ", "😀 ", "\n"]);
            let chunk = ch.of(&[1usize, 3, 7, 32, 1000, 8192, 100000]);
            if chunk == 1 && n > 9000 { ch.skip() }
            let fault = ch.pick(33);
            ch.commit();
            let b = unit.repeat(n / unit.len()).into_bytes();
            let mut steps: Vec<Step> = b.chunks(chunk).map(|c| Give(c.to_vec())).collect();
            let at = steps.len() * (fault / 2) / 16;
            if fault > 0 { steps.insert(at, if fault % 2 == 0 { Interrupted } else { Fails(std::io::ErrorKind::Other) }) }
            streamed(&b, steps);
        }),
        space("edges", "texts which start and end with every pair of characters below U+0100 or of special meaning, from a file and a stream", move |ch| {
            let special = ["", "\u{2028}", "\u{feff}", "\u{200b}", "\u{3000}", "\u{fffd}", "\u{ffff}", "😀", "\r\n", "\n\n", "\0\0"];
            let mut one = || match ch.pick(if deep { 256 } else { 34 } + special.len()) { i if i < special.len() => special[i].to_string(), i if i - special.len() < 32 || deep => char::from_u32((i - special.len()) as u32).unwrap().to_string(), i => ["\x7f", "\u{85}"][i - special.len() - 32].to_string() };
            let (a, b) = (one(), one());
            let body = ch.of(&["", "x", "(p \"q\")"]);
            ch.commit();
            let t = format!("{a}{body}{b}");
            streamed(t.as_bytes(), vec![Give(t.clone().into_bytes())]);
            in_file(&t);
        }),
        space("sizes", format!("texts of every size around the powers of two up to {} bytes, from a file and a stream", if deep { 1 << 24 } else { 1 << 21 }), move |ch| {
            let n = (1usize << ch.pick(if deep { 25 } else { 22 })) + ch.pick(5);
            let shape = ch.pick(3);
            ch.commit();
            let n = n.max(2) - 2;
            let t = match shape { 0 => format!(";{}\nend", "c".repeat(n.saturating_sub(5))), 1 => format!("\"{}\" é", "x".repeat(n.saturating_sub(5))), _ => format!("{}(z)", "\n".repeat(n.saturating_sub(3))) };
            streamed(t.as_bytes(), t.as_bytes().chunks(1 << 16).map(|c| Give(c.to_vec())).collect());
            in_file(&t);
        }),
        space("files", "every text, valid or not, in files of every kind of name, also missing files and directories", move |ch| {
            let name = ch.of(&["f.sex", "f", "d/f", "é f", "none", "d", "./f", "../cwd/f"]);
            let t: Vec<u8> = match ch.pick(TEXTS.len() + 6) { i if i < TEXTS.len() => TEXTS[i].into(), i => [&b"\xff"[..], b"(p \xc3)", b"x\n (%nope)\n", b"x\n (", b"(br a)\n", b"ok\r\n(p \t\"q\")"][i - TEXTS.len()].into() };
            let abs = ch.flag();
            ch.commit();
            let home = layout(&[("cwd/d/x".into(), text(""))]);
            if name != "none" && name != "d" { fs::write(name, &t).unwrap(); }
            let path = if abs { format!("{home}/cwd/{name}") } else { name.to_string() };
            let got = real(|| { let r = match seam::tree_builder_file(std::path::Path::new(&path)) { Ok(e) => Ok(real::results(&e, &path, &TARGETS)), Err(e) => Err(e.to_string()) }; r });
            if name != "none" && name != "d" { fs::remove_file(name).unwrap() }
            let readable = name != "none" && name != "d";
            match (String::from_utf8(t), got) {
                (Ok(t), Ok(got)) if readable => {
                    let want = real::run(Some(&path), &t, &[], &TARGETS);
                    let (a, b) = (format!("{:?}", (&want.tree, &want.outs)), format!("{:?}", (&got.tree, &got.outs)));
                    if a != b { violation(format!("file {path:?} of {t:?}\ngives {b}\ninstead of {a}")) }
                    if got.names.files != [path.clone()] { violation(format!("nodes of the file {path:?} name {:?}", got.names.files)) }
                    let mut c = case(&t);
                    c.name = Some(&path);
                    c.world = World::main(&path, &t);
                    c.strict = true;
                    compare(&c);
                }
                (t, Ok(_)) => violation(format!("file {path:?} of {t:?} should not be readable")),
                (Ok(t), Err(e)) if readable => violation(format!("file {path:?} of {t:?} is reported as unreadable: {e}")),
                (_, Err(e)) => outcome(e.as_bytes()),
            }
        }),
    ]
}
