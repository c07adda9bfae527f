//! Command line, parent/child supervision, evidence, replay files, known findings.
use crate::engine::*;
use crate::props;
use std::io::Write;
use std::process::{Command, Stdio};

fn verif() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
/// Lines `known: property=<id> space=<space> case=<index> :: <text>` of the committed findings file.
fn findings(prop: &str) -> Vec<(String, u64, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("known: ")?;
        let (h, text) = l.split_once(" :: ")?;
        let mut f = h.split_whitespace().map(|w| w.split_once('=').map(|x| x.1).unwrap_or(""));
        let (p, s, c) = (f.next()?, f.next()?, f.next()?);
        if p == prop { Some((s.to_string(), c.parse().ok()?, text.to_string())) } else { None }
    }).collect()
}
/// Seconds after which a case is taken not to terminate.
fn hang_s() -> u64 { std::env::var("MC_HANG").ok().and_then(|t| t.parse().ok()).unwrap_or(20) }
fn limit_memory(gb: u64) {
    let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l); libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 }); }
}
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    if a.len() < 2 { eprintln!("usage: mc PROPERTY | mc --replay PROPERTY SPACE CASE"); std::process::exit(2) }
    if a[1] == "--replay" {
        install_hook();
        limit_memory(8);
        let sp = props::spaces(&a[2], thorough);
        let (r, log) = std::thread::Builder::new().stack_size(64 << 20).spawn({ let (n, i) = (a[3].clone(), a[4].parse().unwrap()); move || replay_case(&sp, &n, i) }).unwrap().join().unwrap();
        for l in log { println!("{l}") }
        match r { Ok(()) => { println!("case passes"); std::process::exit(0) } Err(e) => { println!("FAILS: {e}"); std::process::exit(1) } }
    }
    let prop = a[1].clone();
    if let Ok(slots) = std::env::var("MC_CHILD") { child(&prop, &tier, &slots); return }
    // parent
    let slots = std::env::temp_dir().join(format!("mc-slots-{}-{}", prop, std::process::id())).display().to_string();
    let sh = Shared::open(&slots, true);
    let st = Command::new(std::env::current_exe().unwrap()).args(&a[1..]).env("MC_CHILD", &slots).stdin(Stdio::null()).status().unwrap();
    let active = sh.active();
    std::fs::remove_file(&slots).ok();
    match st.code() {
        Some(0) => std::process::exit(0),
        Some(1) => std::process::exit(1),
        code => {
            // crash, abort, out of memory or hang: confirm on the single case before calling it a violation
            let what = if code == Some(97) { "does not terminate".to_string() } else { format!("ends the process ({st})") };
            println!("engine: child ended with {st}; confirming on {} running case(s)", active.len());
            let sp = props::spaces(&prop, thorough);
            for (s, i) in active {
                let name = &sp[s as usize].name;
                let mut c = Command::new(std::env::current_exe().unwrap()).args(["--replay", &prop, name, &i.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
                let t0 = std::time::Instant::now();
                let end = loop {
                    if let Some(e) = c.try_wait().unwrap() { break Some(e) }
                    if t0.elapsed().as_secs() > hang_s() + 10 { c.kill().ok(); c.wait().ok(); break None }
                    std::thread::sleep(std::time::Duration::from_millis(20));
                };
                if end.map_or(true, |e| e.code() != Some(0)) {
                    violation(&prop, &tier, name, i, &what, &[]);
                    std::process::exit(1)
                }
            }
            eprintln!("engine error: the crash could not be reproduced on a single case");
            std::process::exit(3)
        }
    }
}
fn violation(prop: &str, tier: &str, space: &str, idx: u64, msg: &str, log: &[String]) {
    let dir = format!("{}/replays", verif());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{prop}-{}-{idx}.txt", space.replace(['/', ' '], "_"));
    if let Ok(mut f) = std::fs::File::create(&path) {
        let _ = writeln!(f, "property {prop}\nspace {space}\ncase {idx}\nfailure: {msg}\nreplay: VERIF_TIER={tier} /verif/check.sh --replay {prop} '{space}' {idx}\n");
        for l in log { let _ = writeln!(f, "{l}"); }
    }
    println!("space {space}, case {idx}: {}", &msg.chars().take(600).collect::<String>());
    println!("VIOLATION property={prop} replay={path}");
}
fn child(prop: &str, tier: &str, slots: &str) {
    install_hook();
    limit_memory(16);
    let t0 = std::time::Instant::now();
    let sh = Shared::open(slots, false);
    let spaces = props::spaces(prop, tier == "thorough");
    assert!(!spaces.is_empty(), "no such property {prop}");
    let kf = findings(prop);
    let known = |s: &str, i: u64, _m: &str| kf.iter().find(|k| k.0 == s && k.1 == i).map(|k| k.2.clone());
    let o = explore(&spaces, &sh, hang_s(), &known);
    let wall = t0.elapsed().as_secs_f64();
    for (n, c, t) in &o.per_space { println!("  {n}: {c} cases in {t:.2}s") }
    println!("{prop} [{tier}]: {} cases, {} operation executions, {} distinct states, {:.1}s", o.cases, o.transitions, o.states, wall);
    for k in &o.known { println!("KNOWN-FINDING: property={prop} {k}") }
    let viol = o.failure.is_some() as u32;
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n", js(prop), js(tier), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0)));
    ev.push_str(&format!(" \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n", o.states, o.transitions, o.cases, o.failure.is_none()));
    ev.push_str("  \"explanation\": \"states: distinct concrete stored objects visited; transitions: executions of a public operation of the real code, each compared with the reference model; traces: complete cases (operation sequences) replayed on the real code. Every space below was enumerated completely.\",\n");
    ev.push_str(&format!("  \"spaces\": [{}],\n", o.per_space.iter().map(|(n, c, t)| format!("{{\"name\": {}, \"cases\": {}, \"seconds\": {:.2}}}", js(n), c, t)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("  \"samples\": [{}]\n }},\n", o.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   ")));
    ev.push_str(" \"assumptions\": [\"the reference model in mc/src/model.rs\", \"bounds of the spaces as listed\", \"built with overflow checks and debug assertions\"],\n");
    ev.push_str(&format!(" \"wall_s\": {:.2}, \"violations\": {}\n}}\n", wall, viol));
    let ed = format!("{}/evidence", verif());
    std::fs::create_dir_all(&ed).ok();
    std::fs::write(format!("{ed}/{prop}.json"), ev).unwrap();
    if let Some((si, i, m, log)) = o.failure {
        violation(prop, tier, &spaces[si].name, i, &m, &log);
        std::process::exit(1)
    }
}
