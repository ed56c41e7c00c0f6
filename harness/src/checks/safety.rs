//! C04: nothing panics, aborts or hangs.
use super::*;
use crate::{expand, model::Bad, real};

/// Process a text for every target; only how it ends matters.
fn survive(src: &str) { survive_with(src, &[]) }

/// The same, unless its expansion does not end.
fn finite(src: &str) {
    if let Err(Bad::Unspec("unbounded recursion")) = expand::expand(&World::main("<stdin>", src)) { unspecified(); return }
    survive(src)
}

fn survive_with(src: &str, dirs: &[String]) {
    if verbose() { println!("source: {src}") }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real::run(None, src, dirs, &TARGETS)));
    let r = match r { Ok(r) => r, Err(p) => match p.downcast::<Violation>() { Ok(v) => {
        violation(format!("source: {src:?}\n{}", v.0)) } Err(p) => std::panic::resume_unwind(p) } };
    let mut h = String::new();
    match &r.tree { Ok(t) => h += &crate::model::show(t), Err(e) => h += &e.text }
    for (_, _, o) in &r.outs { match o { Ok(t) => h += t, Err(e) => h += &e.text } h.push('\n') }
    outcome(h.as_bytes());
    sample(|| format!("{src:?}: {}", match &r.tree { Ok(_) => "ok", Err(_) => "error" }));
}

/// Whether the Markdown library has no rendering for a text: two underlines in a
/// row, after a heading, and before another paragraph with an underline.
fn underlined(t: &str) -> bool {
    let lines: Vec<&str> = t.lines().collect();
    let text = |i: usize| lines[i].trim_start_matches(['>', ' ']).trim_end();
    let under = |i: usize| {
        let lazy = i > 0 && lines[i - 1].starts_with('>') && !lines[i].starts_with('>');
        !lazy && !text(i).is_empty() && (text(i).chars().all(|c| c == '-') || text(i).chars().all(|c| c == '='))
    };
    (2..lines.len()).any(|i| {
        let Some(n) = (i + 1..lines.len()).position(under) else { return false };
        !text(i - 2).is_empty() && under(i - 1) && under(i) && n > 0 && (i + 1..i + 1 + n).all(|j| !text(j).is_empty())
    })
}

/// Render a Markdown text.
fn markdown(t: &str, o: &str) {
    let s = format!("(%markdown {}{o})", literal(t));
    let Err(p) = std::panic::catch_unwind(|| survive(&s)) else { return };
    if let Some(Violation(m)) = p.downcast_ref::<Violation>() {
        let inside = m.contains("/src/to_html.rs") || m.contains("/src/to_mdast.rs");
        if inside && underlined(t) && is_known("underlines") { known_finding("underlines", &s); return }
    }
    std::panic::resume_unwind(p)
}

fn scratch() {
    thread_local! { static READY: std::cell::Cell<bool> = std::cell::Cell::new(false); }
    READY.with(|r| if !r.replace(true) {
        let d = super::macros::scratch("safety");
        std::env::set_current_dir(&d).unwrap();
        std::fs::create_dir_all("d/e").unwrap();
        std::fs::write("f", "(a b)").unwrap();
        std::fs::write("bad", "(a b").unwrap();
        std::fs::write("utf8", b"a\xff").unwrap();
        std::fs::write("nul", "a\0 ;").unwrap();
        std::fs::write("nope", "é\u{4e00}\u{4e00} (%nope)").unwrap();
        std::fs::write("d/md", "---\na: 1\n---\n# t").unwrap();
        let _ = std::os::unix::fs::symlink("missing", "d/gone");
        // Names which are not text.
        use std::os::unix::ffi::OsStrExt;
        let _ = std::fs::write(std::ffi::OsStr::from_bytes(b"d/n\xff"), "x");
    })
}

use super::data::literal;

const MACROS: [&str; 37] = ["define", "match", "ifdef", "do", "get", "raw", "string", "number", "symbol", "include", "embed", "namespace", "markdown", "yaml", "json", "toml", "glob", "for", "sort", "reverse", "date", "timestamp", "join", "concat", "map", "filter", "splat", "list", "strip", "apply", "lambda", "log", "format", "os/env", "m", "v", "nope"];
const KINDS: [&str; 24] = ["a", "1", "-0.5", "99999999999999999999", "\"\"", "\"é (x\"", "()", "(a)", "((b 1) 2)", ":k v", ":k ()", "(:k 1)", "(%do)", "(%do 1 2)", "%v", "%m", "(%m)", "in", "(in a)", "(%raw \"<\")", "(%lambda (x) %x)", "\"{} {x}\"", "\"a\\0b\"", "((a 1) :k 2)"];
const HEADS: [&str; 40] = ["p", "br", "pre", "style", "script", "title", "textarea", "svg", "math", "html", "head", "body", "!DOCTYPE", "!", "?xml", "?", "%", "@media", "@import", "@charset", "@font-face", "@page", "@", "calc", "rgb", "+", "-", "\\(", "a:b", "1", "\"s\"", "\"\"", "PRE", "STYLE", ":k v", "é", "()", "(a)", "\\ ", "(%raw \"\")"];

pub fn c04(deep: bool, _: u32) -> Vec<Space> {
    let n = if deep { 7 } else { 6 };
    let args = if deep { 3 } else { 2 };
    let mut v = vec![
        space("characters", format!("every text of up to {n} of 14 characters"), move |ch| {
            let s = sequence(ch, &["(", ")", "\"", "\\", ":", ";", "%", " ", "\n", "a", "1", "+", "é", "\t"], n);
            ch.commit();
            survive(&s);
        }),
        space("odd-characters", format!("every text of up to {} of 20 unusual characters", n - 2), move |ch| {
            let s = sequence(ch, &["(", "\"", "\\", ":", "\0", "\r", "\u{b}", "\u{a0}", "\u{feff}", "\u{301}", "\u{4e00}", "\u{1f600}", "\u{202e}", "-", "'", "{", "[", "&", "x", "\u{7f}"], if deep { 5 } else { 4 });
            ch.commit();
            survive(&s);
        }),
        space("pieces", format!("every sequence of up to {} of 22 pieces of macro syntax", if deep { 5 } else { 4 }), move |ch| {
            let s = sequence(ch, &["(", ")", "(%define ", "(%f ", "(f ", "&r ", "&&r ", "x ", "%x ", "%f ", ":k ", "(%for ", "in ", "(%match ", "(%apply ", "(%lambda ", "(%get ", "(%map ", "(%ifdef ", "(%namespace ", "1 ", "\"{}\" "], if deep { 5 } else { 4 });
            ch.commit();
            scratch();
            // Close what is open.
            let open = s.matches('(').count().saturating_sub(s.matches(')').count());
            finite(&(s + &")".repeat(open)));
        }),
        space("heads", "every list with one of 40 heads and up to 2 of 30 kinds of children, at the top and inside others", move |ch| {
            let h = ch.of(&HEADS);
            let mut s = format!("({h}");
            for _ in 0..(if deep { 3 } else { 2 }) { match ch.pick(KIDS.len() + 1) { 0 => break, i => { s += " "; s += KIDS[i - 1] } } }
            s += ")";
            let w = ch.of(&["@", "(style @)", "(svg @)", "(pre @)", "(p :k @)", "(@media @)", "(a :k @)", "(!x @)", "(%for i in (1 2) @)", "(pre (%do @ @))"]);
            ch.commit();
            survive(&w.replace('@', &s));
        }),
        space("words", "words of up to 20 (quick: 10) ASCII letters, characters of 1 to 4 bytes and ASCII letters, in every kind of place", move |ch| {
            const PLACES: [&str; 40] = ["@", "\"@\"", "(@)", "(@ x)", "(p :@ x)", "(p :@)", "(p :k @)", "(p :k (@ x))", "(:@ x)", "(svg (@ :@ @))", "(pre (@ @))", "(style (@ :@ @))", "(style (a :k (@ 1)))", "(\\@ x)", "(!@ x)", "(?@ x)", "(%raw \"@\")", "%@", "(%@)", "(%define @ 1)%@", "(%define (@ @) %@)(%@ 1)", "(%get @ (a))", "(%get x/@ (a))", "(%define (f :@ 1) %@)(%f :@ 2)", "(%namespace @ (%define @ 1))%@/@", "(%match @ (@ %@))", "(%for @ in (@) %@)", "(%lambda (@) @)", "(%do @ (%nope @))", "(%format \"{@}\" :@ 1)", "(%format \"@{:@}\" 1)", "(%date \"@\" 0)", "(%timestamp \"@%Y\" \"@1970\")", "(%yaml \"@: @\")", "(%markdown \"@ *@*\")", "(%include \"@\")", "(%embed \"./@/@\")", "(%glob \"@*\")", "(%os/env \"@\")", "(%sort :order @ (@ a))"];
            let a = ch.pick(if deep { 21 } else { 11 });
            let c = ch.of(&["é", "日", "😀", "\u{301}", "ß", "İ", "ﬁ", "\u{a0}", "\u{2028}", "%"]);
            let n = 1 + ch.pick(if deep { 4 } else { 2 });
            let z = ch.pick(3);
            let p = ch.of(&PLACES);
            ch.commit();
            scratch();
            let ascii: String = "xmlnsxmlnsxmlnsxmlns".chars().take(a).collect();
            finite(&p.replace('@', &format!("{ascii}{}{}", c.repeat(n), &"zz"[..z])));
        }),
        space("formats", format!("every format template of up to {} of 13 characters with up to 2 arguments", if deep { 6 } else { 5 }), move |ch| {
            let t = sequence(ch, &["{", "}", "0", "9", ":", "x", ".", "$", "*", ">", "é", "-", "+"], if deep { 6 } else { 5 });
            let a = ch.of(&["", " 1", " a \"é\"", " :x 2", " ()", " :x (a) 1"]);
            ch.commit();
            finite(&format!("(%format {}{a})", literal(&t)));
        }),
        space("dates", format!("every date format of up to {} of 16 characters, rendered and parsed", if deep { 5 } else { 4 }), move |ch| {
            let f = sequence(ch, &["%", "Y", "-", "_", "0", ":", "#", ".", "3", "f", "z", "s", "é", " ", "c", "Z"], if deep { 5 } else { 4 });
            let t = ch.of(&["0", "-1", "99999999999999", "9223372036854775807", "1.5"]);
            ch.commit();
            let f = literal(&f);
            survive(&format!("(%date {f} {t})"));
            survive(&format!("(%timestamp {f} (%date \"%c %z\" 0))"));
        }),
        space("parsed-dates", "every combination of extreme field values in a parsed date, with every zone", move |ch| {
            let y = ch.of(&["0", "1970", "-1", "262142", "262143", "-262144", "99999999999999999999", "+5", ""]);
            let m = ch.of(&["1", "12", "13", "0"]);
            let d = ch.of(&["1", "31", "32", "29"]);
            let h = ch.of(&["00:00:00", "23:59:60", "24:00:00", "23:59:59.999999999999"]);
            let z = ch.of(&["", " :timezone 24", " :timezone -23.99", " :timezone 1e400", " :timezone nan", " :timezone -99999999999999999999"]);
            let o = ch.of(&["", "+9999", "-0000", "+99:99", "é"]);
            ch.commit();
            survive(&format!("(%timestamp \"%Y-%m-%d %H:%M:%S%z\"{z} \"{y}-{m}-{d} {h}{o}\")(%timestamp \"%Y-%m-%d %T\"{z} \"{y}-{m}-{d} {h}\")"));
            survive(&format!("(%timestamp \"%Y-%m-%d %T\"{z} \"{y}-{m}-{d} {h}\")"));
        }),
        space("date-limits", "instants within a day of the ends of the range of dates, in zones and formats that go beyond it", move |ch| {
            let end = ch.of(&[8210266876799i64, 8210298412799, -8334601228800, -8334632851200, 0, i64::MAX, i64::MIN]);
            let by = ch.of(&[0i64, 1, -1, 60, -60, 1800, -1800, 3600, -3600, 43200, -43200, 86399, -86399, 86400, -86400, 31535999, -31535999, 31536000, -31536000]);
            let z = ch.of(&["", " :timezone 0", " :timezone 0.02", " :timezone -0.02", " :timezone 12", " :timezone -12", " :timezone 23.99", " :timezone -23.99", " :timezone 1", " :timezone -1"]);
            let f = ch.of(&["%Y-%m-%d %H:%M:%S", "%c %z", "%s %V %G %U %j", "%D %F %T", "%+"]);
            ch.commit();
            survive(&format!("(%date \"{f}\" {}{z})(%timestamp \"{f}\"{z} (%date \"{f}\" {}))", end.saturating_add(by), end.saturating_add(by)));
        }),
        space("data", format!("every text of up to {} of 24 characters given to every data macro", if deep { 4 } else { 3 }), move |ch| {
            let t = sequence(ch, &["a", ":", "-", " ", "\n", "[", "]", "{", "}", ",", "#", "&", "*", "!", "|", ">", "\"", "'", "?", "%", "=", "1", ".", "\t"], if deep { 4 } else { 3 });
            let p = ch.of(&["", "a: ", "- &a b\n- ", "[a]\nb = ", "--- \n", "a = \"\"\"", "%YAML 1.2\n", "? "]);
            let l = ch.of(&["yaml", "toml", "json"]);
            ch.commit();
            survive(&format!("(%{l} {})", literal(&(p.to_string() + &t))));
        }),
        space("markdown", format!("every Markdown text of up to {} of 24 pieces", if deep { 5 } else { 4 }), move |ch| {
            let t = sequence(ch, &["---\n", "+++\n", "a: 1\n", "a = 1\n", "# h\n", "\n", "x", " ", "*", "`", "[", "](", ")", "<", ">", "|", "- ", "1. ", "    ", "\t", "&", "\\", "$", "é"], if deep { 5 } else { 3 });
            let o = ch.of(&["", " :only content", " :only frontmatter", " :separator \"\""]);
            ch.commit();
            markdown(&t, o);
        }),
        space("markdown-lines", format!("every Markdown text of up to {} of 14 lines", if deep { 6 } else { 5 }), move |ch| {
            let t = sequence(ch, &["---\n", "x\n", "\n", "===\n", "***\n", "- x\n", "    x\n", "> x\n", "> ---\n", "# h\n", "|a|b|\n", "|-|-|\n", "```\n", "<p>\n"], if deep { 6 } else { 5 });
            ch.commit();
            markdown(&t, "");
        }),
        space("patterns", format!("every glob pattern of up to {} of 12 characters", if deep { 5 } else { 4 }), move |ch| {
            let t = sequence(ch, &["*", "?", "[", "]", "!", "a", "-", ".", "d", "/", "\u{e9}", "\\"], if deep { 5 } else { 4 });
            if t.starts_with('/') { ch.skip() }
            let o = ch.of(&["", " :sort name", " :sort type", " :sort modified", " :sort created :order descending", " :type file"]);
            ch.commit();
            scratch();
            survive(&format!("(%glob {}{o})", literal(&t)));
        }),
        space("names", "files of every kind under every spelling", move |ch| {
            let n = ch.of(&["f", "bad", "utf8", "nul", "nope", "d", "d/md", "d/gone", "", ".", "..", "./", "/", "\\0", "a\\0b", "f/x", "é", "\\n", "~"]);
            let m = ch.of(&["(%include \"@\")", "(%embed \"@\")", "(%markdown (%embed \"@\"))", "(p (%include \"@\") (%include \"@\"))", "(%do (%include \"@\")", "(%yaml (%embed \"@\"))", "(%os/env \"@\")", "(%glob \"@\")", "(%glob \"@*\")", "(%map include \"@\" \"@\")"]);
            let d: &[&str] = ch.of(&[&[][..], &["d"], &[""], &["none", "."], &["\0"], &["f"]]);
            if m.contains("glob") && (n == "/" || n == "..") { ch.skip() }
            ch.commit();
            scratch();
            survive_with(&m.replace('@', n), &d.iter().map(|d| d.to_string()).collect::<Vec<_>>());
        }),
        space("messages", format!("an error after every text of up to {} of 14 pieces on its line", if deep { 4 } else { 3 }), move |ch| {
            let t = sequence(ch, &["a", " ", "\t", "\n", "\r", "\r\n", "é", "\u{4e00}", "\u{301}", "\u{1f600}", "\u{200b}", "; c\n", "\"\n\"", "\0"], if deep { 4 } else { 3 });
            let e = ch.of(&["(%nope)", "(", ")", "\"\\q\"", "\"", ":", "(%get\n 0\n ())", "%nope", "(%get \u{4e00}\u{4e00} (a))", "(%include \"nope\")", "(p\n:k (1))", "(%format \"{\")", "(%date \"\u{301}\u{4e00}%\" 1)", "\\"]);
            let after = ch.of(&["", "\u{4e00} b", "\n\n", "\u{301}"]);
            ch.commit();
            scratch();
            survive(&format!("{t}{e}{after}"));
        }),
        space("signatures", format!("macros and patterns with every list of up to {} of 16 odd parameters, called with up to 2 arguments", if deep { 3 } else { 2 }), move |ch| {
            let p = list(ch, &["a", "a", "1", "\"s\"", "()", "(a b)", "(a &r)", "&r", "&&r", "&", "&&", ":k v", ":k (%nope)", ":k :l v", "(:k a)", "&&&"], if deep { 3 } else { 2 });
            let a = list(ch, &["x", "()", "(1 2)", ":k y", ":z 1", "(%do)"], 2);
            let how = ch.pick(3);
            ch.commit();
            finite(&match how {
                0 => format!("(%define (m {p}) %a (%r))(%m {a})"),
                1 => format!("(%apply (%lambda ({p}) %a) {a})"),
                _ => format!("(%match ({a}) (({p}) %a))(%match {a} ({p} b))"),
            });
        }),
        space("options", "every option of every macro that has options with every kind of value at every place", move |ch| {
            let (m, o) = ch.of(&[("markdown", "only"), ("markdown", "separator"), ("yaml", "separator"), ("toml", "separator"), ("json", "separator"), ("date", "timezone"), ("timestamp", "timezone"), ("namespace", "separator"), ("glob", "type"), ("glob", "sort"), ("glob", "order"), ("sort", "order"), ("sort", "key"), ("join", "trailing"), ("get", "separator"), ("for", "x"), ("define", "x"), ("apply", "x"), ("format", "x")]);
            let v = ch.of(&KINDS);
            let mut parts = vec![];
            for _ in 0..2 { parts.push(ch.of(&["", "a", "1", "\"a: {b: [1]}\"", "\"%Y\"", "(a b)", "((a 1) (b 2))", "\"2020\"", ":x 1", "(:a 1)"])) }
            parts.insert(ch.pick(3), "OPT");
            let twice = ch.flag();
            ch.commit();
            scratch();
            let s = format!("(%define v 1)(%define (m) 2)(%{m} {})", parts.join(" ")).replace("OPT", &if twice { format!(":{o} {v} :{o} {v}") } else { format!(":{o} {v}") });
            finite(&s);
        }),
        space("nesting", "every kind of nesting, closed or not, at every depth up to 200 (quick: up to 12 and 16 greater depths)", move |ch| {
            let (a, z) = ch.of(&[("(", ")"), ("(a ", ")"), ("(a :k 1 ", ")"), (":k ", ""), ("(%do ", ")"), ("(%list ", ")"), ("(%reverse (", "))"), ("(:k ", ")"), ("(p :k (%do ", "))"), ("(svg ", ")"), ("(style (@media ", "))"), ("(pre ", ")"), ("(%string ", ")"), ("(calc (+ ", "))"), ("(%ifdef x a ", ")"), ("(%namespace n ", ")"), ("(%match x (y) (x ", "))"), ("(%define v ", ")"), ("(%define (v) ", ")"), ("(%for i in (1) ", ")"), ("(%lambda (x) ", ")"), ("(%apply do ", ")"), ("\"", "\""), ("\\", ""), ("(%map list ", ")"), ("(%get 0 (", "))")]);
            let d = if deep { ch.pick(201) } else { ch.of(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 200]) };
            let mid = ch.of(&["", "x", "(", ")", "(%nope)"]);
            let short = ch.pick(3);
            ch.commit();
            survive(&format!("{}{mid}{}", a.repeat(d), z.repeat((d + 1).saturating_sub(short))));
        }),
        space("yaml-nesting", "nested data up to a depth of 100, under every data macro, with every separator", move |ch| {
            let (a, z, l) = ch.of(&[("[", "]", "yaml"), ("{a: ", "}", "yaml"), ("[", "]", "json"), ("{\"a\": ", "}", "json"), ("- ", "", "yaml"), ("> ", "", "markdown"), ("* ", "", "markdown"), ("[", "](x)", "markdown"), ("*", "*", "markdown")]);
            let d = ch.pick(26) * 4;
            let mid = ch.of(&["", "x", "1", "]", "\n"]);
            let short = ch.pick(3);
            ch.commit();
            survive(&format!("(%{l} {})", literal(&format!("{}{mid}{}", a.repeat(d), z.repeat((d + 1).saturating_sub(short))))));
        }),
    ];
    v.push(space("calls", format!("every built-in macro with every list of up to {args} of 24 kinds of arguments, alone and inside other calls"), move |ch| {
        let m = ch.of(&MACROS);
        let a = list(ch, &KINDS, args);
        let w = ch.of(&["@", "(p :k @)", "(%define (g) @)(%g)", "(%for i in (1 a) @ %i)", "(%list @ @)", "(%match @ (1 2) (x %x))", "(%get 0 (@))"]);
        ch.commit();
        scratch();
        finite(&format!("(%define v (1 :k 2))(%define (m &r) (x %r))(%define (m) :k 3){}", w.replace('@', &format!("(%{m} {a})"))));
    }));
    v.push(space("more-calls", format!("every built-in macro with every list of up to {} of 24 kinds of arguments", args + 1), move |ch| {
        let m = ch.of(&MACROS);
        let a = list(ch, &KINDS, args + 1);
        ch.commit();
        scratch();
        finite(&format!("(%define v (1 :k 2))(%define (m &r) (x %r))(%{m} {a})"));
    }));
    v
}

const KIDS: [&str; 30] = ["a", "1", "-", "\"\"", "\"s s\"", "\"'\\n\"", "()", "(b)", "(b :k v)", ":k v", ":k ()", ":k (b 1)", ":k (calc (+ 1 2))", ":k (+ 1)", ":k (+)", ":k (())", ":k :l v", "(%raw \"<\")", "(%raw \"\")", ":k (%raw \"\")", "(br)", "(br x)", "(@media x (b :k v))", "(:k v)", "(%do)", ":k (rgb 1 \"\")", "(\"s\" 1)", "(pre a)", "(1)", "(html)"];

fn list(ch: &mut Ch, items: &[&str], max: usize) -> String {
    let mut v = vec![];
    for _ in 0..max { match ch.pick(items.len() + 1) { 0 => break, i => v.push(items[i - 1]) } }
    v.join(" ")
}
