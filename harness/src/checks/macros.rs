//! C06 to C13: the macro language.
use super::*;

/// Join items with one of two spacings.
fn spaced(items: &[&str], wide: bool) -> String { items.join(if wide { "\n  " } else { " " }) }

fn choose<'a>(ch: &mut Ch, items: &[&'a str], max: usize) -> Vec<&'a str> {
    let mut v = vec![];
    for _ in 0..max { match ch.pick(items.len() + 1) { 0 => break, i => v.push(items[i - 1]) } }
    v
}

const SEXP: &[T] = &[T::Sexp];

/// Names that differ in letter case, accents, signs, length or what might be cut off.
const NAMES: [&str; 20] = ["a", "A", "ab", "aB", "a-b", "a_b", "a/b", "a.b", "é", "É", "e", "a1", "a2", "do", "DO", "a\\ b", "a*", "aa", "ß", "%a"];

/// Values which could be taken for nothing, for a number or for a truth value.
const EMPTIES: [&str; 17] = ["()", "\"\"", "0", "-", "false", "true", "none", "(())", "(\"\")", "\" \"", "(%raw \"\")", "(%do )", "(%string )", "(%list )", "%nothing", "(_ :k ())", "\"0\""];

/// Literals that are nearly the same.
const SPELLINGS: [&str; 30] = ["\"a\"", "\"A\"", "\"ab\"", "\"aB\"", "\"a \"", "\" a\"", "\"\"", "\" \"", "\"é\"", "\"É\"", "\"e\\u{301}\"", "\"ß\"", "\"ss\"", "\"1\"", "\"01\"", "1", "01", "1.0", "+1", "-1", "1e0", "(%raw \"a\")", "(%raw \"A\")", "(%raw \"\")", "\"\\0\"", "\"a\\0\"", "\"a\\n\"", "\"\"\"a\"\"\"", "10", "\"K\""];

fn expands(src: &str) { check_for(src, SEXP) }

/// Names which a pattern binds (without repetition).
fn names(pats: &[&str]) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    for n in ["a", "b", "p", "q", "r", "n", "k", "l", "s", "t"] {
        let bound = pats.iter().any(|p| {
            let words: Vec<&str> = p.split(|c: char| "() ".contains(c)).filter(|w| !w.is_empty()).collect();
            words.iter().enumerate().any(|(i, w)| {
                let w = if let Some(k) = w.strip_prefix(':') { if k == n { return true } k } else { w };
                let _ = i;
                w.trim_start_matches('&') == n && !p.starts_with('"')
            })
        });
        if bound { v.push(n) }
    }
    v
}

fn shown(names: &[&str]) -> String { names.iter().map(|n| format!("({n} %{n})")).collect::<Vec<_>>().join(" ") }

pub fn c06(deep: bool, _: u32) -> Vec<Space> {
    const PATS: [&str; 14] = ["a", "b", "\"s\"", "7", "(p q)", "(p &r)", "()", "&r", "&&n", ":k dflt", ":l (x)", ":k 2", "((t) :s 0)", "(&&n)"];
    const ARGS: [&str; 15] = ["x", "7", "\"s\"", "()", "(1)", "(1 2)", "((1) :s 2)", ":k v", ":k (w)", ":l m", ":z u", "(%do 5 6)", "%v", "(%do )", "(:k 1)"];
    let (pn, an) = if deep { (3, 3) } else { (3, 2) };
    fn forms(how: usize, params: &str, body: &str, args: &str) -> String {
        match how {
            0 => format!("(%define v got)(%define (f {params}) {body})[(%f {args})]"),
            1 => format!("(%define v got)(%define (f {params})\n  {body})(x (%apply f {args}))"),
            _ => format!("(%define v got)(x (%apply (%lambda ({params}) {body}) {args}))"),
        }
    }
    vec![
        renamed(deep, SEXP, &["(%define (AA BB :CC d) (_ %BB %CC))(%AA 1)(%AA :CC 2 3)", "(%define (f AA &BB &&CC) (_ %AA %BB %CC))(%f 1 2 :x 3 :AA 4)", "(%define (f (AA BB) CC) (_ %AA %BB %CC))(%f (1 2) 3)(%ifdef AA yes no)", "(%define (f :AA 1 :BB 2) (_ %AA %BB))(%f :CC 3)(%f :BB 4)"]),
        again(deep, SEXP, "(%define (f a :k 1 &r &&s) (_ %a %k %r %s))(%define (g (a b)) (%a %b))(%define (h 1 x) %x)", &["(%f #)", "(%f 1 2 :k # :z 3)", "(%g (# 2))", "(p (%h 1 #))", "(%define (f a :k # &r &&s) (_ %k %a))", "(%ifdef a yes no)"]),
        characters(deep, SEXP, &["(%define (f \"¤\" x) (hit %x))(%f \"¤\" 1)", "(%define (f \"¤\") hit)(%f \"a¤\")", "(%define (f :k \"¤\" &r) (_ %k %r))(%f)(%f \"¤\" :k \"¤\")", "(%define (f x &&s) (_ %x %s))(%f (\"¤\") :z \"¤\")"]),
        gaps(deep, SEXP, &["(%define (f a (b &c) :k d &e &&g) (_ %a %b %c %k %e %g))(%f 1 (2 3 4) :k 5 6 :l 7)", "(%define (f x :k %v) (%x %k))(p (%f a) (%f :k b c))", "(%define (f 1 \"s\" x) (hit %x))(%f 1 \"s\" (a b))", "(%define (f &r) %r (%r))(x (%f) (%f a b))"]),
        depths(deep, SEXP, &["(%define (f a) (_ %a))(%f @)", "(%define (f :k @) (_ %k))(%f :k @)(%f)", "(%define (f 1 &r) (_ %r))(%f 1 @)", "(%define (f #) hit)(%f @)", "(%define (f (a &b)) (_ %b %a))(%f @)", "(%define (f &&r) (_ %r))(%f :k @)"]),
        sizes(deep, SEXP, &[
            |n| format!("(%define (f a &r) (%a %r))(%f {})", each(n, |i| i.to_string())),
            |n| format!("(%define (f &r b) (%r %b))(%f {})", each(n, |i| i.to_string())),
            |n| format!("(%define (f {}) (_ %p0 %p{}))(%f {})", each(n, |i| format!("p{i}")), n - 1, each(n, |i| format!("(a{i})"))),
            |n| format!("(%define (f &&k) (_ %k))(%f {})", each(n, |i| format!(":p{i} {i}"))),
            |n| format!("(%define (f {} &r) (_ %p0 %p{} %r))(%f :p0 x y :p{} z)", each(n, |i| format!(":p{i} {i}")), n - 1, n / 2),
            |n| format!("(%define (f (a &b)) (_ %a %b))(%f ({}))", each(n, |i| i.to_string())),
        ]),
        space("calls", format!("every list of up to {pn} of {} parameters {PATS:?} called with every list of up to {an} of {} arguments {ARGS:?}", PATS.len(), ARGS.len()), move |ch| {
            let pats = choose(ch, &PATS, pn);
            let args = choose(ch, &ARGS, an);
            ch.commit();
            expands(&forms(0, &spaced(&pats, false), &shown(&names(&pats)), &spaced(&args, false)));
        }),
        space("more-arguments", format!("every list of up to {} of the same parameters called with every list of up to {} of the same arguments", 2, if deep { 4 } else { 3 }), move |ch| {
            let pats = choose(ch, &PATS, 2);
            let args = choose(ch, &ARGS, if deep { 4 } else { 3 });
            ch.commit();
            expands(&forms(0, &spaced(&pats, false), &shown(&names(&pats)), &spaced(&args, false)));
        }),
        space("forms", "every list of up to 2 parameters and arguments, called by name, by %apply and as a lambda, with arguments on one or several lines", move |ch| {
            let pats = choose(ch, &PATS, 2);
            let args = choose(ch, &ARGS, 2);
            let how = ch.pick(3);
            let wide = ch.flag();
            ch.commit();
            expands(&forms(how, &spaced(&pats, wide), &shown(&names(&pats)), &spaced(&args, wide)));
        }),
        space("named", "every sequence of up to 5 arguments among positional ones and 5 named ones (repeated or not), for 9 parameter lists", move |ch| {
            let sigs = ["&&n", "a &&n", ":k 1 &&n", ":k 1 :l 2", "&r &&n", "a b :k 1 &r", ":l 2 &&n :k 1 &r", "&&n a", ":k (d :k e) &r &&n"];
            let args = choose(ch, &["1", "2", ":k a", ":l b", ":mmm c", ":k d", ":zz (e)"], 5);
            let s = ch.of(&sigs);
            ch.commit();
            expands(&forms(0, s, &shown(&names(&[s])), &spaced(&args, false)));
        }),
        space("nested-patterns", format!("every pattern tree of up to {0} nodes applied to every argument tree of up to {0} nodes", if deep { 4 } else { 3 }), move |ch| {
            let n = if deep { 4 } else { 3 };
            let mut p = String::new();
            let mut budget = n;
            tree(ch, &["a", "b", "1", "&r", "&&n", ":k d", "\"s\""], &mut budget, &mut p, 0);
            let mut v = String::new();
            let mut budget = n;
            tree(ch, &["1", "x", "\"s\"", ":k e"], &mut budget, &mut v, 0);
            ch.commit();
            let ns = names(&[p.trim_start_matches('"')]);
            expands(&forms(0, &p, &shown(&ns), &v));
        }),
        space("literals", "every pair of a literal parameter and a literal argument of each kind and of 12 spellings", move |ch| {
            let lits = ["1", "01", "1.0", "+1", "-1", "\"1\"", "\"a\"", "(%raw \"a\")", "\"\"\"a\"\"\"", "\"\"", "(%string a)", "(%number \"1\")", "(%symbol \"a\")", "a", "\"\\x61\"", "(%do a)"];
            let (p, a) = (ch.of(&lits), ch.of(&lits));
            let how = ch.pick(3);
            ch.commit();
            // Literals that have to be made by a macro get into the pattern through a match, whose patterns are expanded.
            match how { 0 if !p.starts_with("(%") => expands(&forms(0, p, "hit", a)), 1 if !p.starts_with("(%") => expands(&forms(0, &format!("({p})"), "hit", &format!("({a})"))), _ => expands(&format!("(%match {a} ({p} hit) (other miss))")) }
        }),
        space("many", "calls with up to 24 positional, literal, nested or named parameters and about as many arguments, in rotated order", move |ch| {
            let kind = ch.pick(5);
            let n = ch.pick(25);
            let m = (n + ch.pick(3)).max(1) - 1;
            let rest = ch.pick(3);
            let rot = ch.of(&[0, 1, 7]);
            ch.commit();
            let par = |i: usize| match kind { 0 => format!("p{i}"), 1 => format!("{i}"), 2 => format!("(p{i} q{i})"), 3 => format!(":p{i} {i}"), _ => if i % 2 == 0 { format!("p{i}") } else { format!(":p{i} d") } };
            let arg = |i: usize| match kind { 0 => format!("a{i}"), 1 => format!("{i}"), 2 => format!("({i} b{i})"), 3 => format!(":p{i} a{i}"), _ => if i % 2 == 0 { format!("a{i}") } else { format!(":p{i} a{i}") } };
            let pars: Vec<String> = (0..n).map(par).chain(match rest { 0 => None, 1 => Some("&r".to_string()), _ => Some("&&r".into()) }).collect();
            let mut args: Vec<String> = (0..m).map(arg).collect();
            if kind >= 3 && m > 0 { args.rotate_left(rot % m) }
            let body: Vec<String> = (0..n).filter(|_| kind != 1).map(|i| format!("%p{i}")).chain((rest > 0).then(|| "%r".to_string())).collect();
            expands(&format!("(%define (f {}) ({}))(%f {})", pars.join(" "), body.join(" "), args.join(" ")));
        }),
        space("values", "every kind of parameter given every kind of value in every way, next to every other parameter", move |ch| {
            let par = ch.of(&["a", "(a)", "(a b)", ":a dflt", ":a ()", ":a \"\"", ":a (:a 1)", "&a", "&&a", "0", "()", "\"\"", "(&a)", "(:a 1)", "(&&a)"]);
            let other = ch.of(&["", "q", ":q 1", "&&q", "&q"]);
            let v = ch.of(&EMPTIES);
            let how = ch.of(&["V", ":a V", "(V)", "(:a V)", ":b V", "V V", ":a V V", ":q V V", "(V) :a V", "V :a V :q V"]);
            ch.commit();
            expands(&format!("(%define (f {par} {other}) [(%ifdef a (%a) none) (%ifdef b (%b) none) (%ifdef q (%q) none)])(%f {})", how.replace('V', v)));
        }),
        space("sigils", "every parameter with every sequence of up to 3 characters among `&`, `:`, `%` and letters, called with every argument", move |ch| {
            let par = sequence(ch, &["&", ":", "%", "a", "b"], 4);
            let arg = ch.of(&["", "1", ":a 2", ":b 3", ":a 2 :b 3", "1 :&a 4", "1 2 :%a 5", ":: 6"]);
            let shape = ch.of(&["P", "P 0", "P () x", "(P)", "x P"]);
            ch.commit();
            let (d, a) = (shape.replace('P', &par), arg);
            expands(&format!("(%define (f {d}) %A)(%f {a})", ).replace("%A", "[(%ifdef a (%a) none) (%ifdef b (%b) none) (%ifdef &a (%&a) none) (%ifdef %a (%%a) none) (%ifdef x (%x) none) (_ %) (%ifdef & (%&) none) (%ifdef rest (%rest) none)]"));
        }),
        space("declared", "every parameter list of up to 4 parameters of every kind, most of them impossible, of macros and lambdas which are called or not", move |ch| {
            let mut pars = vec![];
            for _ in 0..4 { let k = ch.pick(13); if k == 0 { break } pars.push(["", "a", "a", "&r", "&s", "&&m", "&&n", ":k 1", ":k 2", "(a &r &s)", "(&&m &&n)", "&", "%a"][k]) }
            let how = ch.of(&["(%define (f P) b)", "(%define (f P) b)(%f)", "(%define (f P) b)(%f 1 2 :k 3 :m 4)", "(%lambda (P) b)", "(%apply (%lambda (P) b) 1)", "(%ifdef f (%define (f P) b) c)", "(%define (g) (%define (f P) b))", "(%define (g) (%define (f P) b))(%g)"]);
            ch.commit();
            expands(&how.replace('P', &pars.join(" ")));
        }),
        space("defaults", "every default with names and effects, for macros of every parameter list and body which define those names before or after using the parameter, called with and without it, and with every name defined before and after the macro", move |ch| {
            let d = ch.of(&["%y", "(%y)", "(_ %y %z)", "(%define y 5)", "(%do (%define y 6) %y)", "%k", "%a", "(%h %y)", "(%define (y) 7)", "(%ifdef y yes no)", "(%f :k 8)", "(%nope)", "(%do )", "(%do 1 2)"]);
            let pars = ch.of(&[":k D", "a :k D", ":k D :z D", "(a :k D)", ":k D &&n", ":k D &r", ":y 3 :k D", ":k D :y 3"]);
            let body = ch.of(&["%k", "(%define y 1) %k", "%k (%define y 1) %k", "(%define z 2) %k %k %y", "(%ifdef k %k none)", "nothing", "(%define k 9) %k", "(%g)", "(%lambda () %k)"]);
            let call = ch.of(&["(%f)", "(%f 4)", "(%f :k 8)", "(%f (4))", "(%f)(%f)", "(%map f 4)", "(%apply (%f))", "(%f %y)"]);
            let before = ch.of(&["", "(%define y 0)", "(%define y 0)(%define z %y)"]);
            let after = ch.of(&["", "(%define y 10)"]);
            if d.contains("%f") && call == "(%f %y)" { ch.skip() }
            ch.commit();
            expands(&format!("(%define (h x) <%x>)(%define (g) (%ifdef k %k gone)){before}(%define (f {}) {body}){after}[{call}] (%ifdef y (y %y) none)", pars.replace('D', d)));
        }),
        space("chains", "up to 100 macros each of which calls the next one, in its body or as its argument, by name, by %apply or as a lambda, with every kind of parameter", move |ch| {
            let n = 1 + ch.pick(if deep { 100 } else { 60 });
            let (params, pass) = ch.of(&[("a", "%a"), ("a &r", "%a %r"), (":a none", ":a %a"), ("&&a", ":a (_ %a)"), ("(a &r)", "(%a %r)"), ("a", "(_ %a)")]);
            let how = ch.pick(4);
            ch.commit();
            let call = |i: usize, args: &str| match how { 0 => format!("(%f{i} {args})"), 1 => format!("(_ {i} (%apply f{i} {args}))"), 2 => format!("(%apply (%lambda (z &y &&x) (%f{i} {args})) {i})"), _ => format!("(%f{i} {args})") };
            let mut s = String::new();
            for i in 0..n { s += &format!("(%define (f{i} {params}) {})", if i == 0 { "(end %a)".to_string() } else if how == 3 { pass.to_string() } else { call(i - 1, pass) }) }
            let first = match params { ":a none" | "&&a" => ":a x", "(a &r)" => "(x y)", _ => "x" };
            let mut c = call(n - 1, first);
            if how == 3 { for i in (0..n - 1).rev() { c = match params { ":a none" | "&&a" => format!("(%f{i} :a {c})"), "(a &r)" => format!("(%f{i} ({c}))"), _ => format!("(%f{i} {c})") } } }
            expands(&format!("{s}<{c}>"));
        }),
        space("names", "every pair of similar names as parameter and use, and as named parameter and argument", move |ch| {
            let (a, b) = (ch.of(&NAMES), ch.of(&NAMES));
            let how = ch.of(&["(%define (f A) (r %B))(%f 1)", "(%define (f :A 0) (r %A))(%f :B 1)", "(%define (f :A 0 &&n) (r %A %n))(%f :B 1)", "(%define (f A :B 0) (r %A %B))(%f 1 :B 2)", "(%define (f :A 0 :B 1) (r %A %B))(%f :B 2)", "(%define (f (A B)) (r %A %B))(%f (1 2))", "(%define (f &A &&B) (r %A %B))(%f 1 :k 2)", "(%apply (%lambda (A) (r %B)) 1)", "(%define (f A B) (r %A %B))(%f 1 2)"]);
            ch.commit();
            expands(&how.replace('A', "\0").replace('B', b).replace('\0', a));
        }),
    ]
}

/// Every forest of up to `budget` nodes over some leaves.
pub fn tree(ch: &mut Ch, leaves: &[&str], budget: &mut usize, s: &mut String, depth: usize) {
    let mut first = true;
    while *budget > 0 {
        let k = ch.pick(leaves.len() + 2);
        if k == 0 { break }
        *budget -= 1;
        if !first { *s += " " }
        first = false;
        if k <= leaves.len() { *s += leaves[k - 1] } else { *s += "("; tree(ch, leaves, budget, s, depth + 1); *s += ")" }
    }
}

pub fn c07(deep: bool, _: u32) -> Vec<Space> {
    const SUBJECTS: [&str; 16] = ["x", "7", "\"s\"", "()", "(1)", "(1 2)", "(1 (2 3))", "(x :k 1)", "(:k 1 :l 2)", "%v", "(%do 1)", "(%list 1 2)", "((1) 7)", "(%do 1 2)", "(%do )", "(%raw \"s\")"];
    const PATS: [&str; 19] = ["a", "7", "\"s\"", "()", "(a)", "(a b)", "(a a)", "(1 b)", "(a (b &r))", "(&r)", "(a :k d)", "(:k d &&n)", "(&&n)", "%v", "(%do b)", "((a) 7)", "(a &r &&n)", "(:l (q p))", "(%list a 2)"];
    let n = if deep { 4 } else { 3 };
    vec![
        renamed(deep, SEXP, &["(%match (1 2) ((AA BB) (_ %AA %BB)) (CC (%CC)))(%ifdef BB yes no)", "(%match (:AA 1) ((:BB x) (_ %BB)) ((:AA x :CC y) (_ %AA %CC)))", "(%define AA 1)(%match 2 (1 no) (BB (_ %AA %BB)))(_ %AA (%ifdef CC 1 0))"]),
        again(deep, SEXP, "(%define v 1)", &["(%match # (1 one) (x (_ %x)))", "(%match (1 #) ((1 y) %y) (z none))", "(%match %v (1 (a #)))", "(%match # (0 zero))", "(%ifdef x yes no)", "(_ (%match a (# no) (b %b)))"]),
        characters(deep, SEXP, &["(%match \"¤\" (\"x\" no) (\"¤\" yes) (z %z))", "(%match \"¤\" (\"a\" no) (\"¤ \" no) (z %z))", "(%match (\"¤\" a) ((\"¤a\" x) no) ((x \"a\") (_ %x)))", "(%match a (\"¤\" no) (z %z))"]),
        gaps(deep, SEXP, &["(%match (a :k 1 b) ((x) no) ((x y :k 2) (%x %k %y)) (z all))", "(x (%match 2 (1 one) (2 two more) (y %y)))", "(%match (%list 1 2) ((a &b) %b %a) (c c))", "(p (%match a (\"a\" s) (b (%b %b))) q)"]),
        depths(deep, SEXP, &["(%match # (@ yes) (a no))", "(%match @ (# yes) (a (no %a)))", "(%match 1 (2 no) (a @))", "(%match (1 @) ((1 b) %b) (c no))", "(%match @ ((p a) (r %a)) ((p :k a) (k %k)) (a _))"]),
        sizes(deep, SEXP, &[
            |n| format!("(%match {} {} (a none))", n - 1, each(n, |i| format!("({i} is{i})"))),
            |n| format!("(%match x {} (a none %a))", each(n, |i| format!("({i} is{i})"))),
            |n| format!("(%match ({}) ((a &b) (_ %b %a)))", each(n, |i| i.to_string())),
            |n| format!("(%match x (a {}))", each(n, |i| format!("(_ %a {i})"))),
        ]),
        space("clauses", format!("every value of {SUBJECTS:?} matched with every list of up to {n} clauses over {PATS:?}"), move |ch| {
            let s = ch.of(&SUBJECTS);
            let pats = choose(ch, &PATS, n);
            ch.commit();
            let clauses: String = pats.iter().enumerate().map(|(i, p)| format!(" ({p} (c{i} {}))", shown(&names(&[p])))).collect();
            expands(&format!("(%define v 7)[(%match {s}{clauses})]"));
        }),
        space("leaks", "every value and every pair of clauses, whose bodies report which names are bound in them, followed by a report of the names bound after the match", move |ch| {
            let s = ch.of(&SUBJECTS);
            let pats = choose(ch, &PATS, 2);
            let outer = ch.pick(3);
            ch.commit();
            let probe = |tag: &str| ["a", "b", "r", "n", "k", "l", "d", "p", "q", "z", "w"].iter().map(|n| format!("(%ifdef {n} ({tag}-{n} %{n}) ())")).collect::<Vec<_>>().join(" ");
            let clauses: String = pats.iter().enumerate().map(|(i, p)| format!("\n ({p} (%define z{i} {i})(%define z %v) {})", probe(&i.to_string()))).collect();
            let before = ["", "(%define a old)(%define k old)", "(%define (m &x) [%x])(%define w old)"][outer];
            expands(&format!("(%define v 7){before}(%match {s}{clauses}) {} (%ifdef z0 leak ok) (%ifdef z1 leak ok)", probe("after")));
        }),
        space("trees", format!("every pattern of up to {0} nodes with every value of up to {0} nodes", if deep { 4 } else { 3 }), move |ch| {
            let n = if deep { 4 } else { 3 };
            let (mut p, mut v) = (String::from("("), String::from("("));
            let mut budget = n;
            tree(ch, &["a", "b", "1", "&r", "&&n", ":k d", "\"s\""], &mut budget, &mut p, 0);
            let mut budget = n;
            tree(ch, &["1", "x", "\"s\"", ":k e", ":l f"], &mut budget, &mut v, 0);
            ch.commit();
            let ns = names(&[p.trim_start_matches('"')]);
            expands(&format!("(%match {v}) ({p}) {}))", shown(&ns)));
        }),
        space("shapes", "every %match call of up to 3 arguments that are not clauses, and empty or nested clauses", move |ch| {
            let args = choose(ch, &["x", "(x)", "()", "((x))", "(x y z)", ":k v", "(a (%match %a (x 1) (b 2)))", "(%do (x y))", "\"s\"", "((a) %a)", "(a (%match (1) ((a) %a)) %a)"], 3);
            let wide = ch.flag();
            ch.commit();
            expands(&format!("(r (%match {}))", spaced(&args, wide)));
        }),
        space("many-clauses", "up to 24 clauses of which each in turn is the first that fits", move |ch| {
            let n = ch.pick(24) + 1;
            let fit = ch.pick(n + 1);
            let kind = ch.pick(4);
            let second = ch.pick(2);
            ch.commit();
            let clauses: Vec<String> = (0..n).map(|i| {
                let hit = i == fit || (second == 1 && i > fit);
                match kind { 0 => format!("({} (c{i}))", if hit { "x" } else { "y" }).replace("(x ", "(\"s\" ").replace("(y ", "(\"t\" "), 1 => format!("({} (c{i} %q))", if hit { "(q)" } else { "(q p)" }), 2 => format!("({} (c{i} %q))", if hit { "(1 &q)" } else { "(2 &q)" }), _ => format!("({} (c{i} %q))", if hit { "(q :k 0)" } else { "(q :l 0)" }) }
            }).collect();
            let v = ["\"s\"", "(5)", "(1 2 3)", "(6 :k 1)"][kind];
            expands(&format!("(%match {v} {})", clauses.join("\n ")));
        }),
        space("spellings", "every pair of literals that differ in letter case, kind, length, sign, spaces or accents, as pattern and value, at the top or in lists and attributes", move |ch| {
            let (p, v) = (ch.of(&SPELLINGS), ch.of(&SPELLINGS));
            let how = ch.of(&["(%match V (P yes) (_ no))", "(%match (V 1) ((P 1) yes) (_ no))", "(%match (1 V) ((1 P) yes) ((&r) no))", "(%match ((V)) (((P)) yes) (_ no))", "(%define (f P) yes)(%ifdef f (%f V))"]);
            if how.contains("define") && p.starts_with("(%") { ch.skip() }
            ch.commit();
            expands(&how.replace('P', "\0").replace('V', v).replace('\0', p));
        }),
        space("names", "every pair of similar names bound by a pattern and used", move |ch| {
            let (a, b) = (ch.of(&NAMES), ch.of(&NAMES));
            let how = ch.of(&["(%match 1 (A (r %B)))", "(%match (1 :B 2) ((x :A 0) (r %A)) (z none))", "(%define A 0)(%match 1 (B (r %A)))%A", "(%match (1 2) ((A B) (r %A %B)))", "(%match :B 2 (:A x (r %x)) (z none))", "(%match ((1 :B 2)) (((x :A 3)) (r %A)) (z none))", "(%match :B (1 :A 2) (:A (x :B 3) (r %x %B)) (z none))"]);
            ch.commit();
            expands(&how.replace('A', "\0").replace('B', b).replace('\0', a));
        }),
    ]
}

pub fn c08(deep: bool, _: u32) -> Vec<Space> {
    // Complete statements, and openings of blocks with their ends.
    const LINES: [&str; 17] = [
        "%v", "(%define v 1)", "(%define v (x %v))", "(%define w %v)", "(%define v 2 3)", "(%m)", "(%m 9)", "(%define (m) (r %v))", "(%define (m p) (%define v %p) %v %p)",
        "(%ifdef v (t %v) f)", "(%ifdef w %w (%define w no))", "(%ifdef n/v %n/v no)", "(%define n/v 5)", "(%n/m 8)", "(%include \"INC\")", "(%define (v) %w)", "(%define v)",
    ];
    const BLOCKS: [(&str, &str); 8] = [
        ("(a ", ")"), ("(%do ", ")"), ("(%match 1 (v ", "))"), ("(%for v in (6 7) ", ")"), ("(%namespace n ", ")"), ("(%namespace m :separator \".\" ", ")"),
        ("(%define (m) ", ")(%m)"), ("(%m (k ", "))"),
    ];
    fn program(ch: &mut Ch, budget: &mut usize, s: &mut String, depth: usize) {
        while *budget > 0 {
            let k = ch.pick(1 + LINES.len() + if depth < 2 && *budget > 1 { BLOCKS.len() } else { 0 });
            if k == 0 { break }
            *budget -= 1;
            if k <= LINES.len() { *s += LINES[k - 1]; *s += " " }
            else {
                let (open, close) = BLOCKS[k - 1 - LINES.len()];
                *s += open;
                program(ch, budget, s, depth + 1);
                *s += close;
                *s += " ";
            }
        }
    }
    let n = if deep { 5 } else { 4 };
    let dir = scratch("c08");
    std::fs::write(format!("{dir}/inc.sex"), "(%define v file)(i %v)(%define (m) included (%ifdef w %w none))").unwrap();
    let inc = format!("{dir}/inc");
    vec![
        renamed(deep, SEXP, &["(%define AA 1)(%define BB 2)(_ %AA (%ifdef CC yes no))", "(%define (AA x) 1)(%define AA 2)(%define (BB AA) (_ %AA))(%BB 3)(_ %AA)", "(%namespace AA (%define BB 1))(%ifdef AA/BB yes no)(%ifdef CC/BB yes no)", "(%define AA 1)(%define (m BB) (_ %AA %BB))(%m 2)(_ (%ifdef CC 1 0))"]),
        again(deep, SEXP, "(%define v 0)(%define (m) %v)", &["(%define v #)", "(_ %v)", "(%m)", "(%define w# %v)", "(%ifdef w2 yes no)", "(%namespace n (%define v #))", "(%ifdef n/v (x %n/v) no)", "(%define (m) (q %v))"]),
        characters(deep, SEXP, &["(%define v \"¤\")(_ %v)", "(%namespace n :separator \"¤\" (%define v \"¤\"))", "(_ (%do 1 \"¤\"))", "(%define (f x) \"¤\" %x)(_ (%f \"¤\"))"]),
        gaps(deep, SEXP, &["(%define v 1)(%define (m a) (%define w %a) %v %w)(%m 2)(%ifdef w yes no)", "(%define v (p 1) 2)(x %v %v) (%ifdef v a b)", "(%namespace n :separator . (%define v 1) (p 2)) %n.v", "(%define w 1)(%define w (%w %w))(x (%do %w) (%ifdef z a))"]),
        depths(deep, SEXP, &["(%define a @)(_ %a)(%ifdef w yes no)", "(%define (m) @)(_ (%m))(%ifdef w yes no)", "(%ifdef v @ no)(%ifdef w yes no)", "(%namespace n @)(%ifdef n/w yes no)", "@ (%ifdef w yes no)", "(%define (m a) (%ifdef w yes no) %a)(%m @)"]),
        sizes(deep, SEXP, &[
            |n| format!("{}(_ %a0 %a{} %a{})", each(n, |i| format!("(%define a{i} {i})")), n / 2, n - 1),
            |n| format!("(%namespace n {})(_ %n/a0 %n/a{} %n/a{})", each(n, |i| format!("(%define a{i} {i})")), n / 2, n - 1),
            |n| format!("{}(_ %a)", each(n, |i| format!("(%define a {i})"))),
            |n| format!("(%define a 0)(%define (f x) (%define a 1) %a){}(_ %a)", each(n, |_| "(%f 1)".to_string())),
            |n| format!("(%define a {})(_ %a)", each(n, |i| i.to_string())),
        ]),
        space("programs", format!("every program of up to {n} statements over {} statements and {} kinds of blocks (nested up to twice), started with and without definitions", LINES.len(), BLOCKS.len()), move |ch| {
            let mut s = String::new();
            let start = ch.pick(2);
            let mut budget = n;
            program(ch, &mut budget, &mut s, 0);
            ch.commit();
            let s = s.replace("INC", &inc);
            expands(&format!("{}{s}", ["", "(%define v 0)(%define (m &a) (%a) %a)"][start]));
        }),
        space("redefinition", format!("every sequence of up to {} definitions, redefinitions and uses of one name as variable and macro, through calls, lambdas, namespaces and arguments", if deep { 6 } else { 5 }), move |ch| {
            let lines = ["(%define x 1)", "(%define x %x 2)", "(%define (x) 3)", "(%define (x a) <%a>)", "%x", "(%x)", "(%x %x)", "(%x (%define x 4) %x)", "(%namespace x (%define x 5))", "%x/x", "(%define y (%lambda (a) %x %a))", "(%apply %y %x)"];
            let mut s = String::new();
            for l in choose(ch, &lines, if deep { 6 } else { 5 }) { s += l; s += "\n" }
            ch.commit();
            expands(&s);
        }),
        space("namespaces", "every namespace of up to 3 definitions or contents, nested or not, with every separator, followed by uses of every name", move |ch| {
            let inner = ["(%define a 1)", "(%define (f x) (%x) %a)", "(%define (f x) %x)", "text", "(%namespace q (%define a 2) %a)", "%a", "(%define a/b 3)", "(%namespace p :separator \"\" (%define c 4))"];
            let head = ch.of(&["p", "p :separator \"-\"", "p :separator \"\"", "\"p\"", "p :sep \"-\"", "(p)", ":separator \"-\" p", "p :separator x", "%a", "p :separator - :separator .", "p :separator (%do -)", "p :separator 1", "p :separator (%raw \".\")", "p :separator ()"]);
            let before = ch.of(&["", "(%define a 0)", "(%define p/a old)"]);
            let body = choose(ch, &inner, 3);
            ch.commit();
            let probe: String = ["a", "p/a", "p-a", "p.a", "p1a", "pa", "f", "p/q/a", "q/a", "p/a/b", "p/pc", "pc", "pxa", "0/a"].iter().map(|n| format!(" (%ifdef {n} {n} no-{n})")).collect();
            expands(&format!("{before}(%namespace {head} {}) {probe} (%ifdef p/f (%p/f 9) no) (%ifdef p/a %p/a no)", spaced(&body, false)));
        }),
        space("evaluation-once", "every way of passing an argument with an effect to a macro that uses it up to twice, ignores it, or passes it on", move |ch| {
            let uses = ["%a", "(%do %a)", "(%g %a)", "(%ifdef zz %a)", "(%ifdef a %a %a)", "(%for i in (1 2) %a)", "(%match %a (b %b))", "(%map g %a)"];
            let args = ["(%define c %c %c)", "(%do (%define c 1 %c) %c)", "%c", "(%h)", "(%include \"INC\")", "(%namespace s (%define c 3) %c)"];
            let body = choose(ch, &uses, 3);
            let arg = ch.of(&args);
            ch.commit();
            expands(&format!("(%define c 0)(%define (g x) [%x])(%define (h) (%define c 7) %c)(%define (f a) {}) (%f {arg}) %c", spaced(&body, false)));
        }),
        space("asked", "%ifdef of a name given in every kind of node, with every name defined or not", move |ch| {
            let name = ch.of(&["a", "A", "1", "a/b", "é", "m", "define", "sort", "a.b"]);
            let def = ch.of(&["", "(%define N 1)", "(%define (N) 1)", "(%define N )", "(%namespace n (%define N 1))", "(x (%define N 1))", "(%do (%define N 1))", "(%define (f N) (_ W))(%f 1)", "(%define (f :N 2) (_ W))(%f)", "(%match 1 (N W))", "(%for N in (1 2) W)"]);
            let ask = ch.of(&["N", "\"N\"", "(%raw N)", "(N)", ":N b", "%N", "(%symbol N)", "(%string N)", "(%concat N \"\")", "(%do N)", "(%do )", "(%do N N)", "%n", "%s", "n/N", "\"n/N\"", "(%string n/N)"]);
            let rest = ch.of(&["yes no", "yes", "", "yes no more", "\n yes\n no", "(y) (%do n n)"]);
            ch.commit();
            let w = format!("(%ifdef {ask} {rest})").replace('N', name);
            expands(&format!("(%define n {name})(%define s \"{name}\"){}<{w}>", def.replace('N', name).replace('W', &w)));
        }),
        space("contents", "every kind of value with every whitespace, in definitions, namespaces and macro bodies, between what stands next to their uses with every whitespace", move |ch| {
            let def = ch.of(&["(%define aV)%a", "(%define a xV)%a", "(%define a V x)%a", "(%define (m)V)W(%m)", "(%namespace nV)", "(%namespace n xV)", "(%namespace n V x)", "(%namespace n :separator \".\"V)", "(%define (m a) <%a>)(%mV)", "(%ifdef zzzVV)", "(%ifdef zzz x y)V", "(%define aV)(%define b %a)W%b", "(%doV)", "(%define a V)(%define (m) W%a)(%m)"]);
            let w = ch.of(&["", " ", "\n", "\n  ", "\t", " ;c\n"]);
            let v = ch.of(&["b", "\"b\"", "(b)", ":b c", "(\n b)", ":b\n c", "b\nc", "(%do\n b)", "()", "\"\"", "(%raw b)", "1", "(:b c)", "%a", "(%define b\n 2) %b"]);
            let (l, r) = (ch.of(&["", "\"x\"", "(x)", ":k", "y\n"]), ch.of(&["", "\"z\"", "(z)", "\n z"]));
            ch.commit();
            let at = def.rfind(['(', '%']).map_or(0, |i| if def[i..].starts_with('%') && i > 0 && def.as_bytes()[i - 1] == b'(' { i - 1 } else { i });
            let d = format!("{}{l}{}{r}", &def[..at], &def[at..]);
            expands(&d.replace('W', w).replace('V', &format!("{w}{v}")));
        }),
        space("names", "every pair of similar names, one defined and the other used, in every way of both", move |ch| {
            let (a, b) = (ch.of(&NAMES), ch.of(&NAMES));
            let how = ch.of(&["(%define A 1)%B", "(%define (A x) (r %x))(%B 1)", "(%define A 1)(%ifdef B yes no)", "(%define A 1)(%define B 2)[%A %B]", "(%define (A) 1)(%define B 2)[(%A) %B]", "(%namespace A (%define v 1))%B/v", "(%namespace n (%define A 1))%n/B", "(%namespace n :separator A (%define v 1))%nBv", "(%define A 1)(%define (f B) [%A %B])(%f 2)", "(%define A 1)(%for B in (2) %A)%A", "(%namespace A (%namespace B (%define v 1)))%A/B/v", "(%define n/A 0)(%namespace n (%define B 1))%n/A"]);
            ch.commit();
            expands(&how.replace('A', "\0").replace('B', b).replace('\0', a));
        }),
        space("deep", "names defined at one depth of up to 40 nested scopes of each kind, and used at another", move |ch| {
            let kind = ch.pick(6);
            let n = ch.pick(41);
            let d = ch.of(&[0, 1, n / 2, n.max(1) - 1, n]);
            let u = ch.of(&[0, 1, n / 2, n.max(1) - 1, n]);
            ch.commit();
            // Scopes 1 to n inside of each other; 0 is outside.
            let mut s = String::new();
            for i in (0..=n).rev() {
                let here = format!("{}{}", if i == d { "(%define v here)" } else { "" }, if i == u { "<%v>" } else { "" });
                s = format!("{here}{s}{}", if i == u { "(%ifdef v yes no)" } else { "" });
                if i > 0 { s = match kind { 0 => format!("(%match 1 (x {s}))"), 1 => format!("(%for i in (1) {s})"), 2 => format!("(%define (m{i}) {s})(%m{i})"), 3 => format!("(p {s})"), 4 => format!("(%do {s})"), _ => format!("(%apply (%lambda () {s}))") } }
            }
            expands(&s);
        }),
        space("counts", "up to 60 names defined, each of them used, and defined again", move |ch| {
            let n = ch.pick(60) + 1;
            let how = ch.pick(5);
            let again = ch.flag();
            ch.commit();
            let mut s = String::new();
            for i in 0..n { s += &match how { 0 => format!("(%define v{i} {i})"), 1 => format!("(%define (v{i} x) {i})"), 2 => format!("(%namespace n (%define v{i} {i}))"), 3 => format!("(%define v{i} ({i}))(%define w{i} %v{i})"), _ => format!("(%namespace n{i} (%define v {i}))") } }
            if again { s += &match how { 2 => "(%namespace n (%define v0 z))".to_string(), 4 => "(%namespace n0 (%define v z))".into(), 1 => "(%define (v0 x) z)".into(), _ => "(%define v0 z)".into() } }
            for i in 0..n { s += &match how { 0 => format!(" %v{i}"), 1 => format!(" (%v{i} 1)"), 2 => format!(" %n/v{i}"), 3 => format!(" %w{i}"), _ => format!(" %n{i}/v") } }
            expands(&s);
        }),
    ]
}

/// A scratch directory of this worker below the directory of the run.
pub fn scratch(name: &str) -> String {
    let dir = format!("{}/{name}.{}", std::env::var("MC_WORK").unwrap_or_else(|_| "/tmp/mc-work".into()), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

pub fn c09(deep: bool, _: u32) -> Vec<Space> {
    const KEYS: [&str; 15] = ["1", "2", "10", "-1", "1.5", "01", "1.0", "a", "B", "b", "\"2\"", "ab", "\"\"", "é", "9007199254740993"];
    let n = if deep { 6 } else { 5 };
    let opts = ["", " :order ascending", " :order descending"];
    vec![
        renamed(deep, SEXP, &["(%define (AA x) 1)(%define (BB x) %x)(%sort :key AA (b a))(%sort :key BB (b a))", "(%sort (AA BB CC))", "(%sort (CC (%do AA) BB) :order descending)"]),
        again(deep, SEXP, "(%define (k (a &r)) %a)", &["(%sort (3 # 1))", "(%sort :key k ((# a) (2 b)))", "(%sort (c # a) :order descending)", "(%sort (a))", "(%sort (#))"]),
        characters(deep, SEXP, &["(%sort (\"¤\" b A \"\" \"é\" 5))", "(%sort :order descending (\"a¤\" a \"ab\" \"A\"))", "(%sort (10 \"¤\" 9))"]),
        gaps(deep, SEXP, &["(x (%sort (3 1 (%do 2) a) :order descending) y)", "(%define (k (a &r)) %a)(%sort :key k ((2 x) (1 y) (2 z)))", "(%sort (%list b \"a\" 10 9))"]),
        depths(deep, SEXP, &["(%define (k (a &r)) %a)(%sort :key k ((2 @) (1 @)))", "(%sort (2 @))", "(%define (k x) 1)(%sort :key k (a @ b @))"]),
        sizes(deep, SEXP, &[
            |n| format!("(%sort ({}))", each(n, |i| ((i * 7919) % n).to_string())),
            |n| format!("(%sort :order descending ({}))", each(n, |i| ((i * 7919) % 97).to_string())),
            |n| format!("(%define (k (a &r)) %a)(%sort :key k ({}))", each(n, |i| format!("({} {i})", (i * 7919) % 13))),
        ]),
        space("values", format!("every list of up to {n} of the values {KEYS:?}, in each order"), move |ch| {
            let v = choose(ch, &KEYS, n);
            let o = ch.of(&opts);
            ch.commit();
            expands(&format!("(%sort{o} ({}))", spaced(&v, false)));
        }),
        space("keyed", format!("every list of up to {n} tagged items over 5 keys, sorted by their key, a constant key, or a computed key, with every whitespace pattern"), move |ch| {
            let ks = choose(ch, &["1", "2", "a", "-3", "b"], n);
            let key = ch.of(&["first", "same", "second", "named"]);
            let o = ch.of(&opts);
            let style = ch.pick(3);
            ch.commit();
            let items: String = ks.iter().enumerate().map(|(i, k)| { let ws = match style { 0 => " ", 1 => "\n", _ => ["", "\n", "  "][i % 3] }; format!("{ws}({k} {} :n {k})", i % 3) }).collect();
            expands(&format!("(%define (first (k &r &&n)) %k)(%define (same x) 0)(%define (second (a b &r &&n)) %b)(%define (named x) (%get n %x))(%sort{o} :key {key} ({items}))"));
        }),
        space("lengths", format!("lists of every length up to {}, with every key pattern i*a mod m and every tag, stable order", if deep { 120 } else { 70 }), move |ch| {
            let len = ch.pick(if deep { 121 } else { 71 });
            let a = 1 + ch.pick(if deep { 13 } else { 7 });
            let m = 1 + ch.pick(if deep { 16 } else { 9 });
            let o = ch.of(&opts);
            let kind = ch.pick(3);
            ch.commit();
            let items: String = (0..len).map(|i| { let k = (i * a) % m; let k = match kind { 0 => k.to_string(), 1 => char::from(b'a' + k as u8).to_string(), _ => if k % 2 == 0 { format!("-{k}") } else { format!("w{k}") } }; format!(" ({k} {i})") }).collect();
            expands(&format!("(%define (first (k i)) %k)(%sort{o} :key first ({items} ))"));
        }),
        space("reordered", "lists of up to 6 items, each with its own whitespace, sorted or reversed", move |ch| {
            const W: [&str; 4] = [" ", "\n", "", "\t\t"];
            let n = ch.pick(7);
            let call = ch.of(&["(%sort (@))", "(%sort :order descending (@))", "(%reverse (@))", "(%sort :key k (@))", "(%reverse (%sort (@)))"]);
            let kind = ch.pick(3);
            let items: String = (0..n).map(|i| { let w = ch.of(&W); match kind { 0 => format!("{w}({})", n - i), 1 => format!("{w}\"{}\"", i * 5 % 7), _ => format!("{w}({} x{i})", i % 2) } }).collect();
            let end = ch.of(&["", "\n "]);
            ch.commit();
            expands(&format!("(%define (k (a &r)) %a)<{}>", call.replace('@', &(items + end))));
        }),
        space("kinds", "every list of up to 4 items which differ in their kinds only, sorted by keys that tell them apart", move |ch| {
            let items = choose(ch, &["a", "\"a\"", "(%raw a)", "1", "\"1\"", "01", "(a)", "(\"a\")", "()", "\"\""], if deep { 5 } else { 3 });
            let key = ch.of(&["(%match %x (a 3) (\"a\" 1) (1 5) (\"1\" 2) (() 9) ((a) 4) (_ 0))", "(%match %x (\"a\" z) (a b) (\"1\" y) (1 c) (_ d))", "(%concat k %x)", "(%string %x)"]);
            let o = ch.of(&opts);
            let style = ch.pick(2);
            ch.commit();
            let items: String = items.iter().enumerate().map(|(i, t)| format!("{}{t}", if style == 0 { " " } else { ["", "\n", "  "][i % 3] })).collect();
            expands(&format!("(%define (k x) {key})(%sort{o} :key k (%list {items}))(%reverse (%list {items}))"));
        }),
        space("numbers", "every pair (and triples of some) of 36 spellings of numbers and what resembles them, as words or strings, in both orders", move |ch| {
            const V: [&str; 36] = ["1e3", "5000", "1000", "1E3", "999.9", "1e-2", ".5", "5.", "+5", "5", "-0", "0", "inf", "-inf", "nan", "1_0", "0x10", "1e400", "-1e400", "\u{661}", "1,5", "e", "1e", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e18", "1000000000000000001", "0.1", "0.10", "1e3e", "infinity", "NaN", "--1", "1-", "00"];
            let quoted = ch.flag();
            let o = ch.of(&opts);
            let n = 2 + ch.pick(2);
            let v: Vec<&str> = (0..n).map(|_| ch.of(if n == 2 || deep { &V } else { &V[..17] })).collect();
            ch.commit();
            expands(&format!("(%sort{o} ({}))", v.iter().map(|v| if quoted { format!("\"{v}\"") } else { v.to_string() }).collect::<Vec<_>>().join(" ")));
        }),
        space("words", "every list of 2 or 3 keys of up to 3 characters over digits, letters and signs", move |ch| {
            const CS: [&str; 9] = ["0", "1", "a", "b", "A", "-", ".", "é", "_"];
            let long = ch.flag();
            let n = if long { 3 } else { 2 };
            let quoted = ch.flag();
            let mut keys = vec![];
            for _ in 0..n { let s = sequence(ch, if long { &["0", "a", "b"] } else { &CS }, if long || deep { 3 } else { 2 }); if s.is_empty() && !quoted { ch.skip() } keys.push(if quoted { format!("\"{s}\"") } else { s }) }
            ch.commit();
            expands(&format!("(%sort ({}))", keys.join(" ")));
        }),
        space("subjects", "every kind of list argument, key and option, well-formed or not", move |ch| {
            let subj = ch.of(&["(b a)", "(%do (b a))", "(%list 2 1)", "%l", "()", "x", "(b (a))", "((b) (a))", "(b :k a)", "(\"b\" a)", "((%raw \"b\") \"a\" 3)", "(b\n a )", "(%do b a)", "(b a) (c)"]);
            let key = ch.of(&["", " :key id", " :key do", " :key string", " :key none", " :key two", " :key missing", " :key \"id\"", " :key (%lambda (x) %x)", " :key len", " :key (id)", " :key concat", " :key id :key string"]);
            let o = ch.of(&["", " :order ascending", " :order descending", " :order up", " :order (ascending)", " :order \"descending\"", " :other x"]);
            let first = ch.flag();
            ch.commit();
            let call = if first { format!("(%sort{key}{o} {subj})") } else { format!("(%sort {subj}{key}{o})") };
            expands(&format!("(%define l (q p))(%define (id x) %x)(%define (none x))(%define (two x) %x %x)(%define (len x) (%x)) <{call}>"));
        }),
    ]
}

const LIST_DEFS: &str = "(%define (id x) %x)(%define (pair x) (%x :k %x))(%define (drop x) ())(%define (odd x) (%match %x (1 ()) (y %y)))(%define (none &r &&n))(%define (dup &r &&n) %r %n %r)(%define l (4 5))";

/// With `brief`, the last node that the budget allows has only one macro name or loop body.
fn list_expr(ch: &mut Ch, budget: &mut usize, s: &mut String, depth: usize, brief: bool) {
    const LEAVES: [&str; 6] = ["a", "1", "\"s\"", ":k v", "()", "%l"];
    const CALLS: [&str; 14] = ["(", "(%reverse ", "(%list ", "(%splat ", "(%do ", "(%strip ", "(%map ", "(%filter ", "(%apply ", "(%for i in ", ":k (", "(%map (%lambda (x) (%x)) ", "(%for (i &j) in ", "(%sort "];
    const MACROS: [&str; 9] = ["id ", "pair ", "drop ", "odd ", "none ", "dup ", "do ", "list ", "reverse "];
    let mut first = true;
    while *budget > 0 {
        let k = ch.pick(1 + LEAVES.len() + if depth < 3 { CALLS.len() } else { 0 });
        if k == 0 { break }
        *budget -= 1;
        let one = brief && *budget == 0;
        if !first { *s += " " }
        first = false;
        if k <= LEAVES.len() { *s += LEAVES[k - 1]; continue }
        let open = CALLS[k - 1 - LEAVES.len()];
        *s += open;
        if matches!(open, "(%map " | "(%filter " | "(%apply ") { *s += if one { MACROS[0] } else { ch.of(&MACROS) } }
        if open.starts_with("(%for ") {
            *s += "("; list_expr(ch, budget, s, depth + 1, brief); *s += ")";
            *s += if one { " %i" } else { ch.of(&[" %i", " (%i)", " %i x", ""]) };
            if open.contains("&j") { *s += " %j" }
        } else { list_expr(ch, budget, s, depth + 1, brief) }
        *s += ")";
    }
}

pub fn c10(deep: bool, _: u32) -> Vec<Space> {
    let n = if deep { 4 } else { 3 };
    vec![
        renamed(deep, SEXP, &["(%define (AA x) (one %x))(%define (BB x) (two %x))(%map AA 1 2)(%apply BB 3)(%filter CC 4)", "(%for AA in (1 2) (_ %AA (%ifdef BB yes no)))(%ifdef AA yes no)", "(%define AA (%lambda (BB) (_ %BB (%ifdef CC yes no))))(%apply %AA 1)"]),
        again(deep, SEXP, "(%define (f x) (_ %x))", &["(%map f # 1)", "(%reverse (1 # 2))", "(%filter f () #)", "(%splat (1 #) 2)", "(%for x in (1 #) %x)", "(%apply (%lambda (x) (l %x #)) 5)", "(%define l (%lambda (x) (m %x #)))", "(%ifdef l (%apply %l 6) none)", "(%list # 1)"]),
        characters(deep, SEXP, &["(%define (f x) (_ %x))(%map f \"¤\" 1)", "(%filter do \"¤\" \"\" a)", "(%for x in (\"¤\" 1) (_ %x))", "(x (%reverse (\"¤\" a)) (%splat (\"¤\") b) (%list \"¤\"))", "(%apply (%lambda (x) %x) \"¤\")"]),
        gaps(deep, SEXP, &["(%define (f x) (_ %x))(%map f 1 (2) a)", "(x (%reverse (1 2 :k 3 4)) (%splat (a b) c (d)))", "(%for (a b) in ((1 2) (3 4)) (%b %a) z)", "(%filter do 1 () (2) a)(%list 1 (%list 2) 3)", "(x (%apply (%lambda (a :k b) (%a %k)) 1 :k 2))"]),
        depths(deep, SEXP, &["(%reverse (@ 1 @))", "(%define (f x) (g %x))(%map f @ 1 @)", "(%filter do @ 1)", "(%splat @ 1 @)", "(%list @)", "(%for x in (@ 1) (_ %x))", "(%for x in (1 2) @)", "(%apply list @)", "(%apply (%lambda (x) (_ %x)) @)", "(%do @)", "(%strip @)", "(%for (a &b) in (@) (_ %b %a))"]),
        sizes(deep, SEXP, &[
            |n| format!("(%define (f x) (_ %x))(%map f ({}))", each(n, |i| i.to_string())),
            |n| format!("(%for x in ({}) (_ %x))", each(n, |i| i.to_string())),
            |n| format!("(%define (f x) (%match %x (0 ()) (a %a)))(%filter f ({}))", each(n, |i| (i % 3).to_string())),
            |n| format!("(%reverse ({}))", each(n, |i| i.to_string())),
            |n| format!("(%splat ({}))", each(n, |i| format!("({i} x)"))),
            |n| format!("(%apply list {})", each(n, |i| i.to_string())),
            |n| format!("(%do {})", each(n, |i| format!("(%do {i})"))),
            |n| format!("(%list {})", each(n, |i| format!(":k{i} {i}"))),
        ]),
        space("expressions", format!("every expression of up to {n} nodes over 6 leaves and 14 calls (nested up to 3 times), with every macro name (thorough: but for the last node)"), move |ch| {
            let mut s = String::new();
            let mut budget = n;
            list_expr(ch, &mut budget, &mut s, 0, deep);
            ch.commit();
            expands(&format!("{LIST_DEFS}<{s}>"));
        }),
        space("returned", "every macro whose body is up to 4 of 6 items, applied to up to 2 arguments by every macro that takes one", move |ch| {
            let body = sequence(ch, &["1 ", "%x ", "() ", "(%do) ", "(%x) ", "\"\" "], if deep { 5 } else { 4 });
            let args = ch.of(&["2", "()", "(1)", "2 ()", "() ()", "() 3", "\"\" (())"]);
            let how = ch.of(&["(%map f @)", "(%filter f @)", "(%for x in (@) B)", "(%apply f A)", "(%filter do (%map f @))", "(%reverse ((%map f @)))"]);
            ch.commit();
            expands(&format!("(%define (f x) {body})(_ {})", how.replace('@', args).replace('B', &body).replace('A', args.split(' ').next().unwrap())));
        }),
        space("whitespace", "every call of every list macro on up to 3 arguments with every whitespace before each", move |ch| {
            let open = ch.of(&["(%reverse (", "(%list ", "(%splat ", "(%do ", "(%strip ", "(%map id", "(%filter id", "(%apply dup", "(%for i in (", "(%map pair", "(%apply list", "(%sort ("]);
            let mut args = String::new();
            for _ in 0..3 {
                let k = ch.pick(6);
                if k == 0 { break }
                args += ch.of(&["", " ", "\n ", "\t;c\n"]);
                args += ["(x  y)", "\"q\"", "(\n z )", "( 1\n\n2)", ":k \n u"][k - 1];
            }
            let end = ch.of(&["", "\n "]);
            ch.commit();
            let close = match open.trim_end() { "(%reverse (" | "(%sort (" => ")", "(%for i in (" => ") <%i\n %i>", _ => "" };
            expands(&format!("{LIST_DEFS}[{open}{args}{end}{close})"));
        }),
        space("lengths", "every list macro on lists of every length up to 40", move |ch| {
            let n = ch.pick(41);
            let open = ch.of(&["(%reverse (@))", "(%list @)", "(%splat (@) @ (@))", "(%do @)", "(%map id @)", "(%map dup @)", "(%filter odd @)", "(%apply list @)", "(%for i in (@) (%i))", "(%apply dup @)", "(%map drop @)", "(%filter drop @)", "(%reverse (%splat (@)))"]);
            let style = ch.pick(3);
            ch.commit();
            let items: Vec<String> = (0..n).map(|i| match style { 0 => i.to_string(), 1 => format!("({})", i % 3), _ => if i % 2 == 0 { "1".into() } else { format!(":k{i} \"{i}\"") } }).collect();
            expands(&format!("{LIST_DEFS}{}", open.replace('@', &items.join(" "))));
        }),
        space("for-patterns", "every %for over every list of up to 3 items, with every pattern and body, followed by a report of the names it bound", move |ch| {
            let pat = ch.of(&["i", "(i j)", "(i &j)", "1", "()", "(i :k 0)", "\"s\"", ":k i", "&i", "(%do i)", "((i))", "((i) &j)"]);
            let word = ch.of(&["in", "on", "\"in\"", "(in)"]);
            let items = choose(ch, &["1", "(1 2)", "(3)", "((4) 5)", "(6 :k 7)", "\"s\"", ":k 8", "%l", "(%do 1 2)"], 3);
            let wrap = ch.pick(2);
            let body = ch.of(&["", "%i", "(%ifdef j (%j) %i)", "(%define i 0) %i", "(%define z %i) %z"]);
            let before = if items.len() == 3 { "" } else { ch.of(&["", "(%define i old)", "(%define (j) old)(%define z old)"]) };
            ch.commit();
            let list = if wrap == 0 { format!("({})", spaced(&items, false)) } else { spaced(&items, false) };
            expands(&format!("{LIST_DEFS}{before}<(%for {pat} {word} {list} {body})> (%ifdef i %i ok) (%ifdef j (%j) ok) (%ifdef z %z ok)"));
        }),
        space("lambdas", "every lambda of a parameter list and body, called 0 to 2 times in each way, from the place of its definition or a nested one", move |ch| {
            let pars = ch.of(&["()", "(x)", "(x y)", "(&r)", "(x :k 0)", "x", "(&&n)", "((x) &r)", "\"x\"", ":k x", "(&a &b)", "&r", "&&n", "7", "(%do x)", "%x", "&", "(%raw \"x\")"]);
            let body = ch.of(&["c", "%x", "(%ifdef x %x) (%ifdef r %r)", "%o", "(%define o 2)%o", "(%lambda (z) %z)", ""]);
            let how = ch.of(&["(%apply L 5)", "(%map L 5 (6))", "(%define f L)(%apply %f 5)(%apply %f 7)", "(%define f L)(%define o 9)(%apply %f (1) 2)", "(%filter L 1 () 2)", "(%sort :key L (2 1))", "(%define (w g) (%define o 3)(%apply %g 4))(%w L)", "(%apply (%do L))", "(%apply L :k 1 (2))", "(%L 5)", "((%apply L 5) (%apply L 6))"]);
            ch.commit();
            expands(&format!("(%define o 1){}", how.replace('L', &format!("(%lambda {pars} {body})"))));
        }),
        space("several-lambdas", "up to 3 lambdas on the same or different lines, from loops, calls and definitions, called in every order", move |ch| {
            let mut s = String::new();
            let n = 2 + ch.pick(2);
            for i in 0..n {
                let def = ch.of(&["(%define fN (%lambda (x) (N %x)))", "(%define fN\n(%lambda (x) (N %x)))", "(%define (mk q) (%lambda (x) (%q %x N)))(%define fN (%mk N))", "(%for i in (1 2) (%define l%i N))(%define fN (%lambda (&x) %x N))", "(%define fN (%list (%lambda (x) (N %x)) (%lambda (y) (%y N))))(%define fN (%get 1 %fN))"]);
                s += &def.replace('N', &i.to_string());
            }
            for _ in 0..3 {
                let k = ch.pick(n);
                let how = ch.of(&["(%apply %fN 1)", "(%map %fN 1 (2))"]);
                s += &how.replace('N', &k.to_string());
            }
            ch.commit();
            expands(&s);
        }),
        space("results", "every list macro with functions whose results are every pair of values which could be taken for nothing", move |ch| {
            let (a, b) = (ch.of(&EMPTIES), ch.of(&EMPTIES));
            let open = ch.of(&["(%map g 0 1 2)", "(%filter g 0 1 2)", "(%for i in (0 1 2) (%g %i))", "(%map g A B)", "(%filter h A B)", "(%map h A B)", "(%apply h A B)", "(%apply list A B)", "(%reverse (A B))", "(%splat (A) B (B A))", "(%for i in (A B) %i)", "(%for i in (A B) <%i>)", "(%list A B)", "(%do A B)", "(%strip A B)", "(%filter h (A) :k B)", "(%map h (A) :k B)", "(%reverse (:k A B))", "(%filter (%lambda (x) %x) A B A)", "(%splat A B)"]);
            ch.commit();
            expands(&format!("{LIST_DEFS}(%define nothing)(%define (h &x) %x)(%define (g x) (%match %x (0 A) (1 B) (_ C)))(%define (h x) %x)[{open}]").replace('A', a).replace('B', b));
        }),
        space("places", "every expression which expands to several nodes or none, as value of an attribute, item, argument or operand, among others", move |ch| {
            let vs = ["a", "()", "\"\"", "(%do )", "(%do b c)", ":k v", "(b)", "(%splat (() b))"];
            let items = choose(ch, &vs, 3);
            let by = ch.of(&["(%splat (@))", "(%do @)", "(%list @)", "(%map id @)", "(%strip @)", "(%for i in (@) %i)", "(%reverse (@))", "%m", "(%apply do @)"]);
            let at = ch.of(&["(x :k V)", "(x :k V :l V y)", "(V)", "(x V y)", "(x (y V) V)", ":k V", "(%string V)", "(%id V)", "(%define w V)(x %w :k %w)", "(%get 0 V)", "(%ifdef id V)", "(%match V (q (r %q)) )", "(x :k (y :l V))", "(%list V V)", "V"]);
            ch.commit();
            let it = spaced(&items, false);
            expands(&format!("{LIST_DEFS}(%define m {it})[{}]", at.replace('V', &by.replace('@', &it))));
        }),
        space("callables", "every way to name the called macro: words, strings, numbers, calls and variables with up to 2 `%` before the name, for macros, variables and built-in macros with and without `%` in their own names", move |ch| {
            let defs = ch.of(&["", "(%define (f &x) plain %x)", "(%define (%f &x) one %x)", "(%define (f &x) plain %x)(%define (%f &x) one %x)", "(%define (f &x) plain %x)(%define (%%f &x) two %x)", "(%define f g)(%define (g &x) via %x)", "(%define f %g)", "(%define (list &x) mine %x)", "(%define f \"g\")(%define (g &x) via %x)(%define (1 &x) num %x)"]);
            let name = ch.of(&["f", "%f", "%%f", "\"f\"", "\"%f\"", "(%symbol \"f\")", "(%symbol \"%f\")", "(%symbol \"%%f\")", "list", "%list", "\"list\"", "(%symbol \"%list\")", "F", "LIST", "1", "(f)", "()", "(%raw \"f\")", ":k f", "(%do f g)", "(%do )", "\"\"", "\" f\"", "g", "%g"]);
            let how = ch.of(&["(%apply N 1 2)", "(%map N 1 (2))", "(%filter N 1 (2))", "(%sort :key N (2 1))", "(%apply N)", "(%N 1)", "(x (%apply (%do N) (1)))"]);
            ch.commit();
            expands(&format!("{defs}[{}]", how.replace('N', name)));
        }),
        space("effects", "every list macro with definitions in every place of it, followed by a report of the names which are defined", move |ch| {
            let call = ch.of(&["(%for i in (A B) C)", "(%for i in (%do (A B)) C)", "(%map f A B)", "(%filter f A B)", "(%apply f A B)", "(%reverse (A B))", "(%splat (A) B)", "(%list A B)", "(%do A B)", "(%strip A B)", "(%sort (A B))", "(%map (%lambda (x) C %x) A B)", "(%for (%do i) in (1 2) A)", "(%for i in (1 (%do A)) B)", "(%apply (%do A f) B)", "(%get 0 (A B))", "(%match A (1 B) (_ C))", "(%match 1 ((%do A 1) B) (_ C))"]);
            let d = ["1", "(%define a 1)", "(%do (%define a 2) 5)", "(%define b %a)", "(%do %a)", "(%define i 3)", "(%do (%define (f y) 9) 7)"];
            let (a, b, c) = (ch.of(&d), ch.of(&d), ch.of(if call.contains('C') { &d } else { &d[..1] }));
            let before = ch.of(&["", "(%define a 0)"]);
            ch.commit();
            expands(&format!("(%define (f x) (%define b 8) %x){before}[{}] (%ifdef a (a %a) none) (%ifdef b (b %b) none) (%ifdef i (i %i) none) (%f 4)", call.replace('A', a).replace('B', b).replace('C', c)));
        }),
        super::files::lambdas_in_files(deep),
    ]
}

pub fn c11(deep: bool, _: u32) -> Vec<Space> {
    const ARGS: [&str; 16] = ["a", "1", "\"s\"", "\"\"", "\" x\\n\"", "(%raw \"<&\")", "%v", "(%do b c)", "(%do )", "(l)", ":k v", "()", "-1.5", "\"{}\"", "é", "(%string d \"e\")"];
    let n = if deep { 4 } else { 3 };
    vec![
        renamed(deep, SEXP, &["(%format \"{AA}|{BB}\" :AA 1 :BB 2)(%concat AA BB)", "(%join AA BB CC BB)(%string AA \"BB\")(%symbol AA)"]),
        again(deep, SEXP, "", &["(%format \"{}{a}\" # :a 1)", "(%string a # b)", "(%join , # a)", "(%join , # a :trailing true)", "(%concat # a)", "(%symbol #)", "(%number \"#\")", "(%raw < # \"b\")", "(%format \"{:>4}\" #)"]),
        characters(deep, SEXP, &["(%join \"¤\" a b 1)", "(%join \", \" \"¤\" b :trailing true)", "(%concat a \"¤\" b)", "(%string a \"¤\" b)", "(%symbol \"¤\")", "(%number \"¤\")", "(%number \"1¤\")", "(%raw \"¤\" a)", "(%format \"¤{}|{:>6}\" \"¤\" \"¤\")"]),
        gaps(deep, SEXP, &["(%format \"{a}{1}{0}{b}\" :a 1 2 :b 3 4)", "(x (%string a \"b\" 1) (%raw \"<\" b c))", "(%join \",\" a :trailing true b 1)", "(x (%concat a \"b\" 1) (%symbol \"a\") (%number 1))"]),
        depths(deep, SEXP, &["(%concat 1 @)", "(%join , @ @)", "(%string a @)", "(%raw @ a)", "(%symbol @)", "(%format \"{} {k}\" @ :k @)"]),
        sizes(deep, SEXP, &[
            |n| format!("(%concat {})", each(n, |i| i.to_string())),
            |n| format!("(%join \", \" {})", each(n, |i| format!("\"{i}\""))),
            |n| format!("(%string {})", each(n, |i| i.to_string())),
            |n| format!("(%format \"{}\" {})", "{} ".repeat(n), each(n, |i| i.to_string())),
            |n| format!("(%format \"{{{}}} {{0}}\" {})", n - 1, each(n, |i| i.to_string())),
            |n| format!("(%format \"{{k{}}}\" {})", n - 1, each(n, |i| format!(":k{i} {i}"))),
            |n| format!("(%symbol {0})(%number {1})(%raw \"{0}\")", "a".repeat(n), "1".repeat(n)),
            |n| format!("(%concat \"{}\" b)", "é".repeat(n)),
        ]),
        space("calls", format!("every call of the literal macros with up to {n} arguments of {} kinds, with every whitespace between the first two", ARGS.len()), move |ch| {
            let open = ch.of(&["(%string", "(%raw", "(%concat", "(%join", "(%symbol", "(%number", "(%log", "(%os/env", "(%join :trailing true", "(%join \", \"", "(%join \"/\" :trailing false", "(%join :trailing \"true\" -"]);
            let args = choose(ch, &ARGS, n);
            let ws = ch.of(&[" ", "\n", "  ;c\n\t"]);
            let end = ch.of(&["", " "]);
            ch.commit();
            let mut s = String::from(open);
            for (i, a) in args.iter().enumerate() { s += if i < 2 { ws } else { " " }; s += a }
            check_for(&format!("(%define v val)[ {s}{end})]"), &[T::Sexp, T::Text]);
        }),
        space("words", format!("every text of up to {} of 14 pieces given to each macro of literals", if deep { 5 } else { 3 }), move |ch| {
            let w = sequence(ch, &[" ", "5", "-", "+", ".", "e", "E", "\n", "é", "0", "\u{a0}", "_", "x"], if deep { 5 } else { 3 });
            let kind = ch.pick(2);
            ch.commit();
            let a = if kind == 0 { format!("\"{w}\"") } else { format!("(%raw \"{w}\")") };
            for m in ["number", "symbol", "string", "raw", "concat", "join \",\" x", "format \"{:>3}|{0}\""] { expands(&format!("<(%{m} {a})>")) }
        }),
        space("environment", "%os/env of every environment variable of the run and of similar names", move |ch| {
            let vars: Vec<String> = { let mut v: Vec<String> = std::env::vars().map(|v| v.0).filter(|v| !v.contains(|c: char| "()\"\\; ".contains(c))).collect(); v.sort(); v };
            let i = ch.pick(vars.len().min(30));
            let how = ch.pick(4);
            ch.commit();
            let name = &vars[i];
            let arg = match how { 0 => name.clone(), 1 => format!("\"{name}\""), 2 => name.to_lowercase(), _ => format!("{name}_ x") };
            expands(&format!("<(%os/env {arg})>"));
        }),
        space("set-variables", "%os/env of variables with empty, blank, long, multi-line and multi-byte values and names", move |ch| {
            let (name, _) = ch.of(&crate::VARIABLES);
            let arg = ch.of(&["N", "\"N\"", "(%symbol \"N\")", "(%do N)", "(%concat N \"\")", "N x", "\" N\"", ":k N", "NN"]);
            let around = ch.of(&["<@>", "[a\n @ b]", "(%concat @ @)", "(%ifdef @ yes no)", "(p :k @)"]);
            ch.commit();
            let name: String = name.chars().flat_map(|c| if c == ' ' && !arg.contains('"') { vec!['\\', c] } else { vec![c] }).collect();
            expands(&around.replace('@', &format!("(%os/env {})", arg.replace('N', &name))));
        }),
        space("templates", format!("every %format template of up to {} pieces, with 12 argument lists", if deep { 4 } else { 3 }), move |ch| {
            const PIECES: [&str; 28] = ["x", " ", "é", "{{", "}}", "{}", "{0}", "{1}", "{2}", "{a}", "{b}", "{:5}", "{:<4}", "{:>4}", "{:^5}", "{:05}", "{a:>7}", "{:.2}", "{:*>6}", "{:-<6}", "{", "}", "{:*^6}", "{:*^5}", "{1:3}", "{0:.1}", "{:1}", "\\n"];
            const LISTS: [&str; 14] = ["", "p", "p q", "p q r", ":a x", "p :a x :b yy", "12 -3", "\"\" \"long text here\"", "1.5 \"a b\"", ":b 1 p :a 2", "(l)", ":a (l)", "\"éß日\" %v", "(%do 1 2) :a 3"];
            let t = choose(ch, &PIECES, if deep { 4 } else { 3 });
            let args = ch.of(&LISTS);
            ch.commit();
            expands(&format!("(%define v 0)(%format \"{}\" {args})", t.concat()));
        }),
        space("template-characters", format!("every %format template of up to {} characters over braces, colons, digits, alignments and letters", if deep { 6 } else { 5 }), move |ch| {
            let t = sequence(ch, &["{", "}", ":", "0", "1", "5", ">", "<", "^", "a", ".", "*", " "], if deep { 6 } else { 5 });
            let args = ch.of(&["val", "12 -7 :a \"t\""]);
            ch.commit();
            expands(&format!("(%format \"{t}\" {args})"));
        }),
        space("format-names", format!("every %format template of up to 3 of 8 placeholders with every list of up to {} of 10 values, names and numbers as names, also repeated", if deep { 4 } else { 3 }), move |ch| {
            let t = sequence(ch, &["{}", "{a}", "{b}", "{0}", "{1}", "{a:>3}", "{A}", "{00}"], 3);
            let a = choose(ch, &["p", "q", ":a x", ":a y", ":b z", ":A w", ":0 n", ":1 m", ":00 o", "(%do :a v)"], if deep { 4 } else { 3 });
            ch.commit();
            expands(&format!("(%format \"{t}\" {})", a.join(" ")));
        }),
        space("format-values", "every value containing template syntax or padding, in every position and width", move |ch| {
            const VALUES: [&str; 12] = ["\"{}\"", "\"{0}\"", "\"{a}\"", "\"{{\"", "\"}\"", "\" x \"", "\"{1}{0}\"", "\"[curly=\"", "\"%v\"", "\"\\u{fdd0}\"", "\":>5\"", "\"é日\""];
            let t = ch.of(&["{}", "{}{}", "{1}{0}", "{a}{0}", "{:8}|", "{:>8}|{:<8}|", "{:^9}|", "{{{}}}", "{0}{0}", "{a:>6}{:3}"]);
            let (x, y) = (ch.of(&VALUES), ch.of(&VALUES));
            ch.commit();
            expands(&format!("(%format \"{t}\" {x} :a {y} {y})"));
        }),
        space("retyping", "every literal of each kind retyped in every order by up to 3 nested macros", move |ch| {
            let v = ch.of(&["a", "1", "\"s t\"", "(%raw \"<\")", "-2.50", "\"007\"", "1E5", "+1e-05", "0x1F", "B", "1_000", "\"1E5\"", "inf", "1.", "\"\"", "é", "\"\\\"q\\\"\""]);
            let mut s = v.to_string();
            for _ in 0..3 { match ch.pick(7) { 0 => break, i => s = format!("(%{} {s})", ["string", "raw", "concat", "symbol", "number", "do"][i - 1]) } }
            let place = ch.pick(3);
            ch.commit();
            check_for(&match place { 0 => s, 1 => format!("(p {s} x)"), _ => format!("(p :k {s} {s})") }, &TARGETS);
        }),
    ]
}

pub fn c12(deep: bool, _: u32) -> Vec<Space> {
    const STEPS: [&str; 15] = ["0", "1", "2", "k", "l", "00", "+1", "-1", "", "x", "01", "9", "1.0", "K", "é"];
    const LISTS: [&str; 18] = [
        "(:K 1 :é 2 (3) :É 4)", "(z :é (:k (5)) :K ((6 :k 7)))",
        "(a b)", "(:k 1 :l 2)", "((a b) (c (d e)) f)", "(:k (1 2) :l (:k 3))", "(x :k (y :l (z)))", "()", "a", "\"s\"", "(:0 z :1 (y x) q)", "(:k 1 :k 2)", "(:k (:k (:k 4)))", "((() ((7))) 5)", "%v", "(%do a)", "(%list (1 2) :k (3))", "(:x (:00 p :+1 q :-1 r) 2)",
    ];
    let n = if deep { 4 } else { 3 };
    vec![
        renamed(deep, SEXP, &["(%get AA (:BB 1 :AA 2 :CC 3))", "(%get \"AA;BB\" :separator \";\" (:CC (:BB 0) :AA (:BB 1)))"]),
        again(deep, SEXP, "", &["(%get # (a b c :1 d :3 e))", "(%get k/# (:k (a b c)))", "(%get 0 ((#)))", "(%get \"0.0\" ((#)) :separator .)"]),
        characters(deep, SEXP, &["(%get \"1¤k\" (a (b :k c)) :separator \"¤\")", "(%get \"¤\" (a b :k \"¤\"))", "(%get \"1¤0\" (a (b c)))", "(%get 1 (a \"¤\"))"]),
        gaps(deep, SEXP, &["(%get k/1 (a :k (b c) d))", "(x (%get \"k.1\" :separator . ((p) :k (b c) d)))", "(%get 2 (a :k (b) (c d)))"]),
        depths(deep, SEXP, &["(%get 0 (@))", "(%get 1/1/1/1 @)", "(%get 1/k @)", "(%get 1/1 @)", "(%get k/1 @)", "(%get k @)", "(%get 0/0/0 @)"]),
        sizes(deep, SEXP, &[
            |n| format!("(%get {} ({}))", n - 1, each(n, |i| i.to_string())),
            |n| format!("(%get {} ({}))", n, each(n, |i| i.to_string())),
            |n| format!("(%get k{} ({}))", n - 1, each(n, |i| format!(":k{i} {i}"))),
            |n| format!("(%get (0 {}) (({})))", n - 1, each(n, |i| i.to_string())),
        ]),
        space("paths", format!("every path of up to {n} steps over {STEPS:?} into {} lists", LISTS.len()), move |ch| {
            let list = ch.of(&LISTS);
            let first = ch.of(&STEPS);
            let mut steps = vec![first];
            steps.extend(choose(ch, &STEPS, n - 1));
            ch.commit();
            expands(&format!("(%define v ((1) 2))<(%get \"{}\" {list})>", steps.join("/")));
        }),
        space("repeated", format!("every list of up to {} of 10 items with the same keywords again and again, for 8 paths", n + 1), move |ch| {
            let items = choose(ch, &[":k 1", ":k ()", ":k (:k 2)", ":k (3 :l 4)", ":k \"\"", ":l ()", ":l x", ":l (:k ())", "k", "()"], n + 1);
            ch.commit();
            let p = ch.of(&["k", "l", "k/k", "l/k", "k/l", "1", "k/0", "0/k"]);
            expands(&format!("<(%get {p} ({}))>", items.join(" ")));
        }),
        space("separators", "every separator with every path that does or does not contain it", move |ch| {
            let sep = ch.of(&["/", ".", "::", "k", "0", " ", "é", "//", "", "k/", "00", "\n", "(l)", "\"/\" :separator \".\""]);
            let path = ch.of(&["0", "k", "k.0", "k/0", "k::0", "0k0", "k 0", "ké0", "k//0", "101", "k.0.", ".k", "k.l", "", "0/0", "00000", "k/00", "0\n0"]);
            let list = ch.of(&LISTS);
            let at = ch.pick(3);
            ch.commit();
            let o = if sep.starts_with(['(', '"']) { format!(":separator {sep}") } else { format!(":separator \"{sep}\"") };
            expands(&match at { 0 => format!("(%get {o} \"{path}\" {list})"), 1 => format!("(%get \"{path}\" {o} {list})"), _ => format!("(x (%get \"{path}\" {list} {o}))") });
        }),
        space("characters", format!("every step of up to {} of 14 characters, as string, symbol or item of a list, into lists with such keywords", if deep { 4 } else { 3 }), move |ch| {
            let step = sequence(ch, &["0", "1", "a", "A", " ", "\t", "\n", "+", "-", "_", ".", "/", "\u{661}", "\u{a0}"], if deep { 4 } else { 3 });
            let how = ch.of(&["\"S\"", "(%symbol \"S\")", "(\"S\")", "(\"S\" 0)", "\"S/0\"", "\"0/S\"", "(%number \"S\")"]);
            let list = ch.of(&["((p q) b :a (r) :1 (s) :+1 t :\\ a u)", "(p)"]);
            ch.commit();
            expands(&format!("<(%get {} {list})>", how.replace('S', &step)));
        }),
        space("long-paths", "every path of up to 12 steps into lists and attributes nested just as deep, with each step in turn right or wrong", move |ch| {
            let n = 1 + ch.pick(12);
            let shape = ch.pick(3);
            let wrong = ch.pick(n + 1);
            let as_list = ch.flag();
            let (opt, sep) = ch.of(&[("", "/"), (" :separator \".\"", "."), (" :separator \"--\"", "--")]);
            ch.commit();
            let named = |i: usize| shape == 1 || shape == 2 && i % 2 == 1;
            let mut t = String::from("(x)");
            for i in (0..n).rev() { t = if named(i) { format!("(z{i} :k{i} {t} y)") } else { format!("(z{i} {t} y)") } }
            let steps: Vec<String> = (0..n).map(|i| if i == wrong { "q".into() } else if named(i) { format!("k{i}") } else { "1".into() }).collect();
            expands(&if as_list { format!("<(%get{opt} \"{}\" {t}) (%get{opt} ({}) {t})>", steps.join(sep), steps.join(" ")) } else { format!("<(%get{opt} \"{}\" {t})>", steps.join(sep)) });
        }),
        space("kinds", "every pair of arguments of every kind, in attribute and list positions with every whitespace", move |ch| {
            let p = ch.of(&["0", "k", "\"k\"", "(%raw \"0\")", "(k)", ":k 0", "%v", "(%do )", "(%string k \"/\" 0)", "k/0"]);
            let l = ch.of(&["(7 :k (8 9))", "(\n 7 :k\n 8)", "(%do (1) (2))", "(%do 1)", ":k (0)", "", "%v", "((:k 1 :l 2) :k ( x ))"]);
            let at = ch.pick(4);
            let extra = ch.of(&["", " x", " :z 1"]);
            ch.commit();
            let c = format!("(%get {p}  {l}{extra})");
            expands(&format!("(%define v 0){}", match at { 0 => c, 1 => format!("(a\n{c} b)"), 2 => format!("(a :q {c} b)"), _ => format!("({c} {c})") }));
        }),
        space("large", "every index up to 40 into lists of every length up to 40, of items or attributes", move |ch| {
            let n = ch.pick(41);
            let i = ch.pick(42);
            let kw = ch.flag();
            ch.commit();
            let items: Vec<String> = (0..n).map(|j| if kw { format!(":{} v{j}", (j * 7) % 41) } else { format!("v{j}") }).collect();
            expands(&format!("(%get {i} ({}))", items.join(" ")));
        }),
    ]
}

pub fn c13(deep: bool, _: u32) -> Vec<Space> {
    // Name, arguments which fit somewhere, options.
    const TABLE: [(&str, &[&str], &[&str]); 26] = [
        ("join", &["\",\""], &[":trailing true", ":trailing false", ":trailing \"true\"", ":trailing yes", ":trailing 1", ":trailing (true)"]),
        ("concat", &[], &[":separator x"]),
        ("number", &["\"4\""], &[":k 1"]),
        ("symbol", &["\"z\""], &[":k 1"]),
        ("reverse", &["(1 2)"], &[":order ascending"]),
        ("sort", &["(2 1)"], &[":order ascending", ":order descending", ":order \"descending\"", ":order up", ":order 1", ":order (ascending)", ":key do", ":key \"do\"", ":key (%lambda (x) %x)"]),
        ("map", &["do", "id"], &[":k v"]),
        ("filter", &["do", "id"], &[":k v"]),
        ("apply", &["do", "id"], &[":k v"]),
        ("lambda", &["(x)", "x"], &[":k v"]),
        ("for", &["x", "in", "(1 2)"], &[":k v"]),
        ("get", &["0", "(1 2)"], &[":separator \"/\"", ":separator x", ":separator 1", ":separator (x)"]),
        ("date", &["\"%Y\"", "86400"], &[":timezone 2", ":timezone +1", ":timezone \"2\"", ":timezone x", ":timezone (2)"]),
        ("timestamp", &["\"%Y-%m-%d %H:%M\"", "\"2001-02-03 04:05\""], &[":timezone 2", ":timezone -1", ":timezone \"2\"", ":timezone (2)"]),
        ("yaml", &["\"1\""], &[":separator \"-\"", ":separator (x)"]),
        ("json", &["\"1\""], &[":separator \"-\"", ":separator (x)"]),
        ("toml", &["\"a=1\""], &[":separator \"-\"", ":separator (x)"]),
        ("markdown", &["\"1\""], &[":separator \"-\"", ":only content", ":only frontmatter", ":only \"content\"", ":only all", ":only (content)"]),
        ("glob", &["\"/nonexistent-x\""], &[":type file", ":type directory", ":type any", ":type \"file\"", ":type link", ":type 1", ":sort name", ":sort type", ":sort modified", ":sort created", ":sort none", ":sort size", ":order ascending", ":order up", ":type (any)"]),
        ("include", &["\"/nonexistent-x\""], &[":k v"]),
        ("embed", &["\"/nonexistent-x\""], &[":k v"]),
        ("ifdef", &["id", "yes"], &[":k v"]),
        ("os/env", &["TZ"], &[":k v"]),
        ("namespace", &["n", "(%define q 1)"], &[":separator \"-\"", ":separator (x)", ":sep x"]),
        ("define", &["w", "(w x)"], &[":k v"]),
        ("string", &["\"1\""], &[":k v"]),
    ];
    const ANY: [&str; 9] = ["x", "3", "\"s\"", "(%raw \"r\")", "(a)", "()", "(%do 1 2)", "%nothing", "(%symbol 5)"];
    let n = if deep { 5 } else { 4 };
    vec![        sizes(deep, SEXP, &[
            |n| format!("(%join {} x y)", each(n, |i| format!(":k{i} 1"))),
            |n| format!("(%date {})", each(n, |i| i.to_string())),
            |n| format!("(%concat {} ())", each(n, |i| i.to_string())),
            |n| format!("(%concat {} 1)", each(n, |i| format!("\"{i}\""))),
            |n| format!("(%join {} x y)", ":separator - ".repeat(n)),
            |n| format!("(%concat {} :k 1)", each(n, |i| i.to_string())),
        ]),
        space("signatures", format!("every call of {} built-in macros with up to {n} arguments among every kind of value, arguments that fit, every option with allowed and other values, and unknown options", TABLE.len()), move |ch| {
        let (name, fit, opts) = TABLE[ch.pick(TABLE.len())];
        let mut items: Vec<&str> = fit.to_vec();
        items.extend(opts);
        items.extend([":zz 1", ":zz (1)"]);
        items.extend(ANY);
        let args = choose(ch, &items, n);
        ch.commit();
        let mut c = case("");
        let src = format!("(%define (id x) %x)(%define nothing)<(%{name} {})>", args.join(" "));
        c.src = &src;
        c.world = World::main("<stdin>", &src);
        c.targets = SEXP;
        use crate::expand::{Data, Lang, Markdown};
        for (text, y, t) in [("1", Some(vec![Data::Str("1".into())]), None), ("s", Some(vec![Data::Str("s".into())]), None), ("r", Some(vec![Data::Str("r".into())]), None), ("a=1", Some(vec![Data::Str("a=1".into())]), Some(vec![Data::Map(vec![("a".into(), Data::Num("1".into()))])]))] {
            c.world.data.insert((Lang::Yaml, text.into()), y);
            c.world.data.insert((Lang::Toml, text.into()), t);
            c.world.markdown.insert(text.into(), Markdown { front: None, html: format!("<p>{text}</p>") });
        }
        compare(&c);
    }),
    space("near-misses", "every option of those macros with its name and its value changed by every single removal, repetition, insertion and change of case of a character, at every place", move |ch| {
        let (name, fit, opts) = TABLE[ch.pick(TABLE.len())];
        let opt = ch.of(opts);
        let (k, v) = opt.split_once(' ').unwrap();
        let change_name = ch.flag();
        let word: Vec<char> = if change_name { k[1..].chars().collect() } else { v.chars().collect() };
        let how = ch.pick(7);
        let at = ch.pick(word.len());
        let mut w = word.clone();
        match how {
            0 => { w.remove(at); }
            1 => w.insert(at, word[at]),
            2 => w[at] = if word[at].is_lowercase() { word[at].to_ascii_uppercase() } else { word[at].to_ascii_lowercase() },
            3 => { if at > 0 { ch.skip() } w = word.iter().map(|c| c.to_ascii_uppercase()).collect() }
            4 => w.insert(at, '-'),
            5 => { if at > 0 { ch.skip() } w.push('s') }
            _ => { if at > 0 { ch.skip() } w.push('é') }
        }
        let w: String = w.into_iter().collect();
        let quoted = ch.flag();
        let mut args: Vec<String> = fit.iter().map(|a| a.to_string()).collect();
        if !change_name && quoted && w.contains(['"', '(', ')']) { ch.skip() }
        if change_name && quoted { ch.skip() }
        let text = if change_name { format!(":{w} {v}") } else if quoted { format!("{k} \"{w}\"") } else { format!("{k} {w}") };
        let place = ch.pick(args.len() + 1);
        args.insert(place, text);
        ch.commit();
        let mut c = case("");
        let src = format!("(%define (id x) %x)(%define nothing)<(%{name} {})>", args.join(" "));
        c.src = &src;
        c.world = World::main("<stdin>", &src);
        c.targets = SEXP;
        use crate::expand::{Data, Lang, Markdown};
        c.world.data.insert((Lang::Yaml, "1".into()), Some(vec![Data::Str("1".into())]));
        c.world.data.insert((Lang::Toml, "a=1".into()), Some(vec![Data::Map(vec![("a".into(), Data::Num("1".into()))])]));
        c.world.markdown.insert("1".into(), Markdown { front: None, html: "<p>1</p>".into() });
        compare(&c);
    })]
}
