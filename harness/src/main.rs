//! Bounded model checker for seam. See /verif/DESIGN.md.
mod engine;
mod model;
mod reader;
mod expand;
mod render;
mod format;
mod calendar;
mod globber;
mod real;
mod cmp;
mod checks;

use engine::*;
use std::collections::HashSet;
use std::io::Write;
use std::process::{exit, Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

fn workers() -> u32 { std::env::var("MC_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8) }

/// Environment variables for `%os/env` (set before anything else runs).
pub const VARIABLES: [(&str, &str); 10] = [
    ("SEAM_EMPTY", ""), ("SEAM_BLANK", " \t "), ("SEAM_LINES", "a\n\nb\r\n"), ("SEAM_EDGES", "\n x \n"), ("SEAM_WIDE", "日é\u{301}"), ("SEAM é", "named"),
    ("SEAM_CODE", "(%do \"x\") %v ;c"), ("SEAM_ZERO", "0"), ("SEAM_MARKUP", "<&>\""), ("seam_empty", "small"),
];

fn main() {
    for (k, v) in VARIABLES { std::env::set_var(k, v) }
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("check") => exit(check(&args[2], args.get(3).map(String::as_str))),
        Some("worker") => on_big_stack(move || worker(&args[2..])),
        Some("replay") => on_big_stack(move || replay(&args[2])),
        Some("list") => for (id, _) in checks::ALL { println!("{id}") },
        Some("model") => {
            // Print what the model makes of a source text (for debugging).
            on_big_stack(move || { cmp::explain(&args[2]); 0 })
        }
        _ => { eprintln!("usage: mc check ID | replay FILE | list"); exit(2) }
    }
}

fn on_big_stack(f: impl FnOnce() -> i32 + Send + 'static) {
    let code = std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or(2);
    exit(code)
}

fn tier() -> String { std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()) }

fn work_dir() -> String { std::env::var("MC_WORK").unwrap_or_else(|_| "/tmp/mc-work".into()) }

/// args: ID SHARD OF SHARED STATS [SPACE]
fn worker(args: &[String]) -> i32 {
    let (id, me, of) = (&args[0], args[1].parse::<u32>().unwrap(), args[2].parse::<u32>().unwrap());
    no_core();
    if std::env::var_os("MC_ASAN").is_none() { limit_memory(4 << 30); }
    install_hook();
    let sh = shared(&args[3]);
    let spaces = checks::spaces(id, &tier(), me);
    let end = explore(&spaces, me, of, sh, args.get(5).map(String::as_str));
    let mut out = std::fs::File::create(&args[4]).unwrap();
    STATS.with(|s| {
        let s = s.borrow();
        write!(out, "{} {} {} {} {}", s.executions, s.edges, s.skipped, s.unspecified, s.samples.len()).unwrap();
        for n in &s.per_space { write!(out, " {n}").unwrap(); }
        writeln!(out).unwrap();
        let text: String = s.known.iter().map(|(id, (n, e))| format!("{id} {n} {}\n", e.replace('\n', "\\n"))).collect();
        std::fs::write(format!("{}.known", args[4]), text).unwrap();
        for x in &s.samples { writeln!(out, "{}", x.replace('\n', "\\n").replace('\r', "\\r")).unwrap(); }
        let mut buf = Vec::with_capacity(s.outcomes.len() * 8);
        for o in &s.outcomes { buf.extend(o.to_le_bytes()); }
        out.write_all(&buf).unwrap();
    });
    match end {
        End::Done => 0,
        End::Violation { space, picks, msg } => { report(&args[4], space, &picks, &msg); 10 }
        End::Broken(msg) => { eprintln!("harness error: {msg}"); 11 }
    }
}

fn report(stats: &str, space: usize, picks: &[u32], msg: &str) {
    let picks: Vec<String> = picks.iter().map(u32::to_string).collect();
    std::fs::write(format!("{stats}.violation"), format!("{space}\n{}\n{msg}\n", picks.join(","))).unwrap();
}

fn replay(path: &str) -> i32 {
    install_hook();
    let text = std::fs::read_to_string(path).expect("replay file");
    let field = |name: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{name}: "))).unwrap_or("").to_string();
    let (id, sp, picks, tier) = (field("property"), field("space"), field("choices"), field("tier"));
    let history = field("history");
    if !history.is_empty() {
        // The violation shows only after the executions the same worker made before it: make them all again.
        std::env::set_var("VERIF_TIER", &tier);
        let mut w = history.split(' ').map(str::to_string);
        let (me, of, only) = (w.next().unwrap(), w.next().unwrap(), w.next());
        let dir = work_dir();
        std::fs::create_dir_all(&dir).unwrap();
        let (sh, st) = (format!("{dir}/{id}.again.shm"), format!("{dir}/{id}.again.stats"));
        let _ = std::fs::remove_file(&sh);
        let _ = std::fs::remove_file(format!("{st}.violation"));
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(["worker", &id, &me, &of, &sh, &st]);
        if let Some(o) = only { c.arg(o); }
        let code = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap().code().unwrap_or(-1);
        let space = checks::spaces(&id, &tier, 0).iter().position(|s| s.name == sp);
        let t = std::fs::read_to_string(format!("{st}.violation")).unwrap_or_default();
        let mut l = t.splitn(3, '\n');
        let same = code == 10 && l.next().and_then(|x| x.parse::<usize>().ok()) == space && l.next() == Some(&picks);
        if same { println!("violated: {}", l.next().unwrap_or("")); return 1 }
        println!("held");
        return 0
    }
    let picks: Vec<u32> = picks.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let spaces = checks::spaces(&id, &tier, 0);
    let Some(s) = spaces.iter().find(|s| s.name == sp) else { eprintln!("no space {sp}"); return 2 };
    VERBOSE.with(|v| *v.borrow_mut() = true);
    match run_one(s, picks) {
        Ok(()) => { println!("held"); 0 }
        Err(Ok(msg)) => { println!("violated: {msg}"); 1 }
        Err(Err(msg)) => { eprintln!("harness error: {msg}"); 2 }
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn check(id: &str, only: Option<&str>) -> i32 {
    let start = Instant::now();
    let n = workers();
    let work = work_dir();
    std::fs::create_dir_all(&work).unwrap();
    let exe = std::env::current_exe().unwrap();
    let stall = Duration::from_secs(std::env::var("MC_STALL").ok().and_then(|v| v.parse().ok()).unwrap_or(20));
    let mut kids = vec![];
    for i in 0..n {
        let (sh, st) = (format!("{work}/{id}.{i}.shm"), format!("{work}/{id}.{i}.stats"));
        let _ = std::fs::remove_file(&sh);
        let _ = std::fs::remove_file(&st);
        let _ = std::fs::remove_file(format!("{st}.violation"));
        let mem = shared(&sh);
        let err = std::fs::File::create(format!("{work}/{id}.{i}.err")).unwrap();
        let mut c = Command::new(&exe);
        c.args(["worker", id, &i.to_string(), &n.to_string(), &sh, &st]);
        if let Some(o) = only { c.arg(o); }
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
        kids.push((c.spawn().unwrap(), mem, st, 0u64, Instant::now(), None::<i32>));
    }
    let mut found: Option<(usize, Vec<u32>, String)> = None;
    let mut by = 0; // the worker that found it
    let mut broken = None;
    loop {
        let mut alive = 0;
        for (nr, k) in kids.iter_mut().enumerate() {
            if k.5.is_some() { continue }
            let snapshot = |mem: &Shared| {
                let len = (mem.len.load(Acquire) as usize).min(mem.picks.len());
                (mem.space.load(Relaxed) as usize, (0..len).map(|i| mem.picks[i].load(Relaxed)).collect::<Vec<_>>())
            };
            match k.0.try_wait().unwrap() {
                None => {
                    alive += 1;
                    let beat = k.1.beat.load(Relaxed);
                    if beat != k.3 { k.3 = beat; k.4 = Instant::now(); }
                    else if k.4.elapsed() > stall {
                        let (s, p) = snapshot(k.1);
                        let _ = k.0.kill();
                        let _ = k.0.wait();
                        k.5 = Some(-1);
                        if k.1.in_real.load(Acquire) {
                            found.get_or_insert((s, p, format!("the code under test did not finish within {} s", stall.as_secs())));
                        } else { broken = Some(format!("worker stalled outside the code under test, space {s} choices {p:?}")); }
                    }
                }
                Some(status) => {
                    let code = status.code().unwrap_or(-1);
                    k.5 = Some(code);
                    match code {
                        0 => {}
                        10 => {
                            let t = std::fs::read_to_string(format!("{}.violation", k.2)).unwrap();
                            let mut l = t.splitn(3, '\n');
                            let s = l.next().unwrap().parse().unwrap();
                            let p: Vec<u32> = l.next().unwrap().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                            let m = l.next().unwrap_or("").to_string();
                            // Of several, keep the simplest.
                            if found.as_ref().map_or(true, |f| (f.0, f.1.len(), &f.1) > (s, p.len(), &p)) { found = Some((s, p, m)); by = nr; }
                        }
                        11 => broken = Some("harness error".into()),
                        _ => {
                            let (s, p) = snapshot(k.1);
                            if k.1.in_real.load(Acquire) {
                                found.get_or_insert((s, p, format!("the code under test ended the process ({status})")));
                            } else { broken = Some(format!("worker ended: {status}, space {s} choices {p:?}")); }
                        }
                    }
                }
            }
        }
        if alive == 0 { break }
        if found.is_some() || broken.is_some() {
            // Let the others finish for a moment (they may find something simpler), then stop.
            std::thread::sleep(Duration::from_millis(300));
            for k in kids.iter_mut() { if k.5.is_none() { if k.0.try_wait().unwrap().is_none() { let _ = k.0.kill(); let _ = k.0.wait(); k.5 = Some(-2); } } }
        } else { std::thread::sleep(Duration::from_millis(20)); }
    }
    for (i, k) in kids.iter().enumerate() {
        if matches!(k.5, Some(11)) || broken.is_some() {
            if let Ok(e) = std::fs::read_to_string(format!("{work}/{id}.{i}.err")) { for l in e.lines().take(3) { eprintln!("worker {i}: {l}"); } }
        }
    }
    let spaces = checks::spaces(id, &tier(), 0);
    let mut code = 0;
    if let Some((s, picks, msg)) = &found {
        // Confirm by replaying the recorded choices in a new process.
        let dir = std::env::var("MC_REPLAYS").unwrap_or_else(|_| "replays".into());
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{dir}/{id}.txt");
        let p: Vec<String> = picks.iter().map(u32::to_string).collect();
        std::fs::write(&path, format!("property: {id}\nspace: {}\ntier: {}\nchoices: {}\n\n{msg}\n", spaces[*s].name, tier(), p.join(","))).unwrap();
        let replayed = |limit: Duration| {
            let mut c = Command::new(&exe).args(["replay", &path]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            let t = Instant::now();
            loop {
                if let Some(st) = c.try_wait().unwrap() { break st.code().unwrap_or(-1) }
                if t.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); break -3 }
                std::thread::sleep(Duration::from_millis(10));
            }
        };
        let mut again = replayed(stall);
        if again == 0 && kids[by].5 == Some(10) {
            // It may depend on what the process did before: repeat everything that worker did up to it
            // (the exploration is deterministic), and see whether the same execution fails again.
            let t = std::fs::read_to_string(&path).unwrap();
            let only = only.map_or(String::new(), |o| format!(" {o}"));
            std::fs::write(&path, t.replacen("\n\n", &format!("\nhistory: {by} {n}{only}\n\n"), 1)).unwrap();
            again = match replayed(start.elapsed() * 2 + stall) { 1 => 1, _ => 0 };
        }
        if again == 0 || again == 2 {
            eprintln!("a violation was seen but did not happen again when replayed ({again}): {msg}");
            code = 2;
        } else {
            println!("{}", msg.chars().take(3000).collect::<String>());
            println!("VIOLATION property={id} replay={path}");
            code = 1;
        }
    } else if let Some(b) = &broken { eprintln!("error: {b}"); code = 2; }

    // Evidence.
    let (mut ex, mut ed, mut sk, mut un) = (0u64, 0u64, 0u64, 0u64);
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut per = vec![0u64; spaces.len()];
    for k in &kids {
        let Ok(b) = std::fs::read(&k.2) else { continue };
        let Some(nl) = b.iter().position(|c| *c == b'\n') else { continue };
        let h: Vec<u64> = String::from_utf8_lossy(&b[..nl]).split(' ').map(|x| x.parse().unwrap()).collect();
        ex += h[0]; ed += h[1]; sk += h[2]; un += h[3];
        for (i, n) in h[5..].iter().enumerate() { per[i] += n; }
        let mut at = nl + 1;
        for i in 0..h[4] {
            let e = at + b[at..].iter().position(|c| *c == b'\n').unwrap();
            if samples.len() < 12 && (i >= 2 || samples.len() < 3) { samples.push(String::from_utf8_lossy(&b[at..e]).into_owned()); }
            at = e + 1;
        }
        for c in b[at..].chunks_exact(8) { outcomes.insert(u64::from_le_bytes(c.try_into().unwrap())); }
        let _ = std::fs::remove_file(&k.2);
    }
    // Known findings that were met again.
    let mut known: std::collections::BTreeMap<String, (u64, String)> = Default::default();
    for k in &kids {
        let Ok(t) = std::fs::read_to_string(format!("{}.known", k.2)) else { continue };
        let _ = std::fs::remove_file(format!("{}.known", k.2));
        for l in t.lines() {
            let mut p = l.splitn(3, ' ');
            let (id, n, e) = (p.next().unwrap().to_string(), p.next().unwrap().parse::<u64>().unwrap(), p.next().unwrap_or("").to_string());
            let k = known.entry(id).or_insert((0, e.clone()));
            k.0 += n;
            if (e.len(), &e) < (k.1.len(), &k.1) { k.1 = e }
        }
    }
    for (kid, (n, e)) in &known {
        let text = known_text(kid);
        let text = text.split_once(' ').map_or("", |t| t.1);
        println!("KNOWN-FINDING: property={id} {text} ({n} executions, such as {e})");
    }
    let complete = found.is_none() && broken.is_none();
    let ev = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "evidence".into());
    std::fs::create_dir_all(&ev).unwrap();
    let sp: Vec<String> = spaces.iter().zip(&per).map(|(s, n)| format!("{{\"name\": {}, \"executions\": {n}, \"bounds\": {}}}", json(s.name), json(&s.bounds))).collect();
    if std::env::var_os("MC_SPACES").is_some() { for (s, n) in spaces.iter().zip(&per) { println!("  {} {n}", s.name); } }
    let sa: Vec<String> = samples.iter().map(|s| json(&s.chars().take(600).collect::<String>())).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let doc = format!("{{\n  \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n    \"skipped_as_redundant\": {sk}, \"unspecified_compared_for_absence_of_panics_only\": {un},\n    \"exhaustive\": {},\n    \"rule\": \"states: distinct model results (hashed) compared with the implementation; transitions: edges of the choice tree; traces: complete executions of the real code compared with the model\",\n    \"spaces\": [{}],\n    \"known_findings\": [{}],\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json(id), json(&tier()), outcomes.len(), ed, ex, complete, sp.join(", "), known.iter().map(|(i, (n, e))| json(&format!("{i}: {n} executions, such as {e}"))).collect::<Vec<_>>().join(", "), sa.join(", "),
        json("the reference model in /verif/harness is the specification; behaviour outside of the stated alphabets and bounds is not covered"),
        start.elapsed().as_secs_f64(), if code == 1 { 1 } else { 0 });
    std::fs::write(format!("{ev}/{id}.json"), doc).unwrap();
    println!("{id} {}: {} executions, {} distinct results, {} edges, {un} unspecified, {:.1} s", tier(), ex, outcomes.len(), ed, start.elapsed().as_secs_f64());
    if code == 0 && (ex == 0 || outcomes.len() < 2) { eprintln!("vacuous exploration"); code = 2; }
    for k in 0..n { let _ = std::fs::remove_file(format!("{work}/{id}.{k}.shm")); }
    code
}
