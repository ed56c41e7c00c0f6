//! C26 and C25: the command and the process around the library.
use super::*;
use crate::real;
use std::fs;
use std::process::{Command, Stdio};

thread_local! { static READY: std::cell::Cell<bool> = std::cell::Cell::new(false); }

const FILES: [(&str, &[u8]); 14] = [
    ("good", b"(p q)\n(i \"<\")"), ("two.sex", b"x"), ("empty", b""), ("bad", b"(p"), ("undef", b"ok\n (%nope)"), ("html-bad", b"(br x)"), ("uses", b"(%include inc)"), ("embeds", b"a(%embed inc.txt)"),
    ("utf8", b"\xff"), ("css", b"(a :k v)"), ("has space", b"s"), ("d1/inc", b"(one 1)"), ("d-2/inc", b"(two 2)"), ("d1/inc.txt", b"text"),
];

/// Names of files, with `.d` also of directories.
const ODD: [&str; 33] = ["=x", "==", " x", "x ", "x y", "~", "~x", "*", "?", "[x]", "$HOME", "%x", "#x", "'x'", "\"x\"", "\\x", "x\\", "é", "日", "x:y", "x,y", "x;y", "@x", "&", "|", "<x>", "\nx", "--html", "-x", "+x", "!x", "^", "{x}"];
thread_local! { static ODD_READY: std::cell::Cell<bool> = std::cell::Cell::new(false); }

fn ready() {
    READY.with(|r| if !r.replace(true) {
        let d = super::macros::scratch("system");
        std::env::set_current_dir(&d).unwrap();
        for (n, t) in FILES {
            if let Some((d, _)) = n.rsplit_once('/') { fs::create_dir_all(d).unwrap() }
            fs::write(n, t).unwrap();
        }
        fs::create_dir_all("adir").unwrap();
        fs::create_dir_all("-odd").unwrap();
        fs::write("-odd/inc", "(three 3)").unwrap();
    })
}

struct Ran { out: Vec<u8>, err: String, code: Option<i32> }

fn spawn(args: &[&str], stdin: &[u8], stdout: Option<&str>) -> Ran {
    let exe = std::env::var("MC_SEAM").expect("MC_SEAM");
    let name = format!("stdin.{}", std::process::id());
    fs::write(&name, stdin).unwrap();
    let mut c = Command::new(exe);
    c.args(args).stdin(fs::File::open(&name).unwrap()).stderr(Stdio::piped()).env("NO_COLOR", "1");
    match stdout { Some(p) => c.stdout(fs::OpenOptions::new().write(true).open(p).unwrap()), None => c.stdout(Stdio::piped()) };
    let o = real(|| c.spawn().unwrap().wait_with_output().unwrap());
    Ran { out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned(), code: o.status.code() }
}

/// What the library makes of an input.
fn library(file: Option<&str>, stdin: &[u8], dirs: &[String], t: T, doc: bool) -> Result<String, String> {
    real(|| {
        let mut e = match file {
            // How the system's own message is worded is not the library's business.
            Some(f) => seam::tree_builder_file(std::path::Path::new(f)).map_err(|_| String::new())?,
            None => seam::tree_builder(None::<&str>, String::from_utf8(stdin.to_vec()).map_err(|_| String::new())?),
        };
        e.add_includes(dirs.iter());
        let r = match e.expand() {
            Ok(tree) => { let f = real::formatter(t, tree); let r = if doc { f.document() } else { f.display() }; let r = r.map_err(|e| e.to_string()); r }
            Err(e) => Err(e.to_string()),
        };
        r
    })
}

fn command(args: &[&str], stdin: &[u8]) {
    ready();
    // What the arguments mean.
    let (mut target, mut dirs, mut files, mut from_stdin, mut doc, mut wrong) = (None, vec![], vec![], false, true, false);
    for a in args {
        if let Some(o) = a.strip_prefix("--") {
            match TARGETS.iter().find(|t| t.name() == o) { Some(t) => target = Some(*t), None if o == "nodocument" || o == "nodoc" => doc = false, None => wrong = true }
        } else if let Some(o) = a.strip_prefix('-') {
            match o.strip_prefix('I') { Some(d) => dirs.push(d.to_string()), None if o.is_empty() => from_stdin = true, None => wrong = true }
        } else { if fs::metadata(a).is_err() { wrong = true } files.push(*a) }
    }
    let ran = spawn(args, stdin, None);
    let describe = format!("seam {args:?} < {:?}\nin a directory with d1/inc, d-2/inc, -odd/inc and {:?}", String::from_utf8_lossy(stdin), FILES.map(|f| (f.0, String::from_utf8_lossy(f.1))));
    let mut want = String::new();
    let mut failed = None;
    match target {
        Some(t) if !wrong => {
            let inputs = (from_stdin || files.is_empty()).then_some(None).into_iter().chain(files.iter().map(|f| Some(*f)));
            for i in inputs {
                match library(i, stdin, &dirs, t, doc) { Ok(o) => { want += &o; want.push('\n') } Err(e) => { failed = Some(e); break } }
            }
        }
        _ => failed = Some(String::new()),
    }
    if ran.out != want.as_bytes() { violation(format!("{describe}\nprints {:?}\ninstead of {want:?}", String::from_utf8_lossy(&ran.out))) }
    match (&failed, ran.code) {
        (None, Some(0)) => {}
        (None, c) => violation(format!("{describe}\nends with status {c:?} instead of 0: {}", ran.err)),
        (Some(_), Some(0)) => violation(format!("{describe}\nends with status 0 although it failed")),
        (Some(_), None) => violation(format!("{describe}\nis ended by a signal")),
        (Some(e), Some(_)) => {
            if ran.err.trim().is_empty() { violation(format!("{describe}\nfails without a message")) }
            if !ran.err.contains(e.trim()) { violation(format!("{describe}\nreports {:?}\ninstead of {e:?}", ran.err)) }
        }
    }
    outcome(format!("{want:?} {}", failed.is_some()).as_bytes());
    sample(|| format!("seam {args:?}: {want:?} {:?}", ran.code));
}

fn list<'a>(ch: &mut Ch, items: &[&'a str], max: usize) -> Vec<&'a str> {
    let mut v = vec![];
    for _ in 0..max { match ch.pick(items.len() + 1) { 0 => break, i => v.push(items[i - 1]) } }
    v
}

pub fn c26(deep: bool, _: u32) -> Vec<Space> {
    const STDIN: [&[u8]; 14] = [b"(in put)", b"", b"(br x)", b"(%include inc)", b"(", b"\xff", b"(%nope)", b"a\n", b"\"a\n\n\"", b"\"\n\"", b"\n\n(%raw \"x\r\n\n\n\")", b"(%define x y)", b"\"\x1b[0m\xc3\xa9 \0 \t\" ", b"\"{}%s\\n\""];
    let n = if deep { 4 } else { 3 };
    vec![
        space("arguments", format!("every list of up to {n} of 20 arguments of every kind"), move |ch| {
            let a = list(ch, &["--html", "--text", "--nodocument", "-", "-Id1", "good", "bad", "undef", "uses", "missing", "--bogus", "-x", "html-bad", "-I", "adir", "", "--", "---", "two.sex", "utf8"], n);
            ch.commit();
            command(&a, STDIN[0]);
        }),
        space("sizes", "standard input and files of sizes around the powers of two up to 65536, for each target, with a fault at the end or not", move |ch| {
            let n = ch.of(&[255usize, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131073]);
            let t = ch.of(&["--text", "--sexp", "--html", "--xml"]);
            let how = ch.pick(4);
            let shape = ch.pick(2);
            ch.commit();
            ready();
            let mut s = if shape == 0 { "é".repeat(n / 2) + &"x".repeat(n % 2) } else { format!("\"{}\"", "a\n".repeat(n / 2 - 1)) };
            if how == 3 { s += " (" }
            fs::write("sized", &s).unwrap();
            match how { 0 => command(&[t], s.as_bytes()), 1 => command(&[t, "sized"], b""), 2 => command(&[t, "good", "-", "sized"], s.as_bytes()), _ => command(&[t, "good", "sized"], b"") }
        }),
        space("inputs", format!("every list of up to {n} inputs with each target and document mode"), move |ch| {
            let t = ch.of(&["--text", "--sexp", "--html", "--xml", "--css"]);
            let doc = ch.of(&[None, Some("--nodocument"), Some("--nodoc")]);
            let mut a = list(ch, &["-", "good", "two.sex", "empty", "bad", "html-bad", "css", "has space", "./good"], if deep { 3 } else { 2 });
            ch.commit();
            match doc { Some(d) => { a.insert(a.len() / 2, d); a.push(t) } None => a.insert(0, t) }
            command(&a, STDIN[0]);
        }),
        space("many-inputs", "up to 12 files with standard input at every place among them or not, once or twice, and a file that fails at every place or not", move |ch| {
            let n = ch.of(if deep { &[1usize, 2, 3, 4, 5, 8, 12][..] } else { &[2usize, 3, 5, 12][..] });
            let dash = ch.pick(n + 2);
            let twice = ch.flag();
            let bad = ch.pick(n + 1);
            let t = ch.of(if deep { &["--text", "--sexp", "--css"][..] } else { &["--text"][..] });
            ch.commit();
            let mut a: Vec<&str> = (0..n).map(|i| ["good", "two.sex", "good", "empty"][i % 4]).collect();
            if bad < n { a[bad] = "bad" }
            if dash <= n { a.insert(dash, "-"); if twice { a.push("-") } }
            a.insert(a.len() / 3, t);
            command(&a, STDIN[0]);
        }),
        space("stdin", "every kind of standard input, alone or with files, for each target", move |ch| {
            let s = ch.of(&STDIN);
            let t = ch.of(&["--text", "--sexp", "--html", "--xml", "--css", "--none"]);
            let a: &[&str] = ch.of(&[&[][..], &["-"], &["-", "-"], &["good", "-"], &["-", "good"], &["good"], &["-Id1"], &["-", "-Id-2", "-Id1"], &["--nodoc"], &["bad", "-"], &["-", "bad"]]);
            ch.commit();
            let a: Vec<&str> = [t].into_iter().chain(a.iter().copied()).collect();
            command(&a, s);
        }),
        space("messages", "sources that write messages, of every kind and in every place, before others that fail or not", move |ch| {
            let m = ch.of(&["(%log)", "(%log \"\")", "(%log a)", "(%log a b \"c d\")", "(%log 1)", "(%log \"<\\n>\")", "(%log (%do x y))", "(%do (%log a) (%log))", "(%log \"é\")", "(%log %v)", "(%panic a)", "(%panic)", "(%log a) (%panic b)", "(%log (%log a))"]);
            let s = ch.of(&["@", "x@y", "(p @)", "(%define (f) @)(p (%f)(%f))", "@@", "@\n(%undefined)", "(%for i in (1 2) @)", "(%ifdef v @ z)", "(p :k @)"]);
            let t = ch.of(&["--text", "--sexp", "--html", "--xml"]);
            ch.commit();
            command(&[t], format!("(%define v w){}", s.replace('@', m)).as_bytes());
        }),
        space("includes", format!("every list of up to {n} include directories, before, between and after files that include"), move |ch| {
            let d = list(ch, &["-Id1", "-Id-2", "-I", "-I.", "-Inone", "-I-odd", "-Id1/", "-I./d-2", "-I--html"], n);
            let f: &[&str] = ch.of(&[&["uses"][..], &["embeds"], &["uses", "embeds"], &["-", "uses"], &["good", "uses", "uses"]]);
            let place = ch.pick(3);
            ch.commit();
            let t = ["--sexp"];
            let a: Vec<&str> = match place { 0 => d.iter().chain(f).chain(&t).copied().collect(), 1 => f.iter().chain(&d).chain(&t).copied().collect(), _ => f[..1].iter().chain(&t).chain(&d).chain(&f[1..]).copied().collect() };
            command(&a, b"(%include inc)");
        }),
        space("odd-names", "files and include directories with each of 33 odd names, alone or two of them", move |ch| {
            let (x, y) = (ch.of(&ODD), if ch.flag() { Some(ch.of(&ODD)) } else { None });
            let how = ch.pick(3);
            ch.commit();
            ODD_READY.with(|r| if !r.replace(true) {
                ready();
                for (i, n) in ODD.iter().enumerate() {
                    fs::create_dir_all(format!("odd/{n}.d")).unwrap();
                    fs::create_dir_all(format!("{n}.d")).unwrap();
                    fs::write(format!("{n}.d/inc"), format!("(n {i})")).unwrap();
                    fs::write(format!("odd/{n}.d/inc"), format!("(odd {i})")).unwrap();
                    fs::write(n, format!("(m {i})(%include inc)")).unwrap();
                }
            });
            // Whatever starts with a dash is an option.
            let file = |n: &str| if n.starts_with('-') { format!("./{n}") } else { n.to_string() };
            let dir = |n: &str| if how == 1 { format!("-Iodd/{n}.d") } else { format!("-I{n}.d") };
            let mut a = vec!["--sexp".to_string(), dir(x), file(x)];
            if let Some(y) = y { match how { 0 => { a.push(file(y)); a.push(dir(y)) } 1 => a.insert(1, dir(y)), _ => { a[1] = dir(y) } } }
            command(&a.iter().map(|a| a.as_str()).collect::<Vec<_>>(), b"");
        }),
        space("targets", "every list of target and mode options (the last target counts)", move |ch| {
            let a = list(ch, &["--text", "--sexp", "--html", "--xml", "--css", "--nodocument", "--nodoc", "--HTML", "--htm"], if deep { 5 } else { 3 });
            ch.commit();
            let a: Vec<&str> = a.into_iter().chain(["good"]).collect();
            command(&a, STDIN[0]);
        }),
        space("output-faults", "standard output that cannot be written", move |ch| {
            let a = list(ch, &["--text", "--html", "good", "two.sex", "-", "bad", "empty"], 3);
            ch.commit();
            ready();
            let full = spawn(&a, STDIN[0], Some("/dev/full"));
            if full.code == Some(0) { violation(format!("seam {a:?} with a full standard output ends with status 0")) }
            if full.err.trim().is_empty() { violation(format!("seam {a:?} with a full standard output fails without a message")) }
            outcome(format!("{a:?}").as_bytes());
        }),
    ]
}
