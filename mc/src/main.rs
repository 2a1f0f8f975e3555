//! gsmc: bounded exhaustive exploration of the groth-sahai library.
//!   gsmc check <property>        VERIF_TIER, VERIF_SEED from the environment; run in /verif
//!   gsmc replay <file>
//!   gsmc list <property>
#![allow(clippy::too_many_arguments, clippy::type_complexity, clippy::needless_range_loop)]
mod checks;
mod env;
mod gs;
mod mcsched;
mod refm;
mod rng;
mod run;
mod toy;

use run::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

static KNOWN: OnceLock<BTreeMap<String, String>> = OnceLock::new();
/// Tag of explorations that stopped at an execution cap.
pub const CUT: &str = "cases cut at their execution cap";
fn load_known() {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string("known_findings.txt") {
        for l in s.lines() {
            // known: property=<id> key=<key> <what fails>
            if let Some(r) = l.strip_prefix("known: ") {
                if let Some(k) = r.split_whitespace().find_map(|w| w.strip_prefix("key=")) {
                    let p = r.split_whitespace().find_map(|w| w.strip_prefix("property=")).unwrap_or("");
                    let text = r.splitn(3, ' ').nth(2).unwrap_or("");
                    m.insert(format!("{p}/{k}"), text.to_string());
                }
            }
        }
    }
    let _ = KNOWN.set(m);
}
/// A defect that is listed in known_findings.txt is recorded; any other is a violation.
pub fn finding(prop: &str, key: &str, what: &str, c: &mut Cnt) -> Result<(), String> {
    let k = format!("{prop}/{key}");
    if KNOWN.get().map_or(false, |m| m.contains_key(&k)) {
        if !c.known.contains(&k) {
            c.known.push(k);
        }
        Ok(())
    } else {
        Err(format!("{key}: {what}"))
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn write_replay(prop: &str, t: Tier, p: &str, v: &Viol) -> String {
    let dir = "out";
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/replay-{prop}.json");
    let s = format!(
        "{{\"property\": {}, \"tier\": {}, \"part\": {}, \"part_name\": {}, \"index\": {}, \"what\": {}}}\n",
        esc(prop),
        esc(if t == Tier::Quick { "quick" } else { "thorough" }),
        v.part,
        esc(p),
        v.index,
        esc(&v.msg)
    );
    std::fs::write(&path, s).expect("write replay");
    path
}

fn write_evidence(prop: &str, t: Tier, rep: &Report, wall: f64, viols: u64) {
    let _ = std::fs::create_dir_all("evidence");
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {},\n",
        esc(prop),
        esc(if t == Tier::Quick { "quick" } else { "thorough" }),
        seed(),
        rep.cnt.states,
        rep.cnt.trans,
        rep.cnt.conf,
        rep.exhaustive && rep.violation.is_none() && !rep.cnt.tags.contains_key(CUT)
    );
    s.push_str("  \"parts\": [\n");
    for (i, (n, about, tot, done, secs)) in rep.parts.iter().enumerate() {
        let _ = write!(
            s,
            "   {{\"part\": {}, \"about\": {}, \"cases\": {}, \"explored\": {}, \"seconds\": {:.2}}}{}\n",
            esc(n),
            esc(about),
            tot,
            done,
            secs,
            if i + 1 < rep.parts.len() { "," } else { "" }
        );
    }
    s.push_str("  ],\n  \"observed\": {");
    let tags: Vec<String> = rep.cnt.tags.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    s.push_str(&tags.join(", "));
    s.push_str("},\n  \"samples\": [");
    s.push_str(&rep.cnt.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(
        s,
        "]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        esc("the library's code is generic over the pairing engine; discrete-logarithm engines are validated element by element against BLS12-381 on the traces counted above"),
        wall,
        viols
    );
    std::fs::write(format!("evidence/{prop}.json"), s).expect("write evidence");
}

fn threads() -> usize {
    std::thread::available_parallelism().map_or(8, |n| n.get()).min(16)
}

fn check(prop: &str) -> i32 {
    let t = tier();
    let t0 = Instant::now();
    let parts = checks::parts(prop, t);
    let budget = Duration::from_secs(std::env::var("GSMC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(t.q(420, 7200)));
    let rep = explore(&parts, budget, threads());
    let wall = t0.elapsed().as_secs_f64();
    if let Some(v) = &rep.violation {
        write_evidence(prop, t, &rep, wall, 1);
        let path = write_replay(prop, t, &parts[v.part].name, v);
        println!("part {} case {}: {}", parts[v.part].name, v.index, v.msg);
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    write_evidence(prop, t, &rep, wall, 0);
    for (n, _, tot, done, secs) in &rep.parts {
        println!("  {n}: {done}/{tot} cases, {secs:.1} s");
    }
    println!(
        "{prop}: states={} transitions={} conformance={} exhaustive={} {:?}",
        rep.cnt.states, rep.cnt.trans, rep.cnt.conf, rep.exhaustive && !rep.cnt.tags.contains_key(CUT), rep.cnt.tags
    );
    if !rep.vacuous.is_empty() {
        println!("vacuous exploration: {}", rep.vacuous.join("; "));
        return 3;
    }
    for k in &rep.cnt.known {
        println!("KNOWN-FINDING: property={prop} {}", KNOWN.get().unwrap()[k]);
    }
    println!("OK property={prop}");
    0
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let num = |k: &str| -> u64 {
        let i = s.find(&format!("\"{k}\": ")).expect("field") + k.len() + 4;
        s[i..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
    };
    let txt = |k: &str| -> String {
        let i = s.find(&format!("\"{k}\": \"")).expect("field") + k.len() + 5;
        s[i..].chars().take_while(|c| *c != '"').collect()
    };
    let t = if txt("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let prop = txt("property");
    let parts = checks::parts(&prop, t);
    let p = &parts[num("part") as usize];
    rayon_core::mc::set_hook(Some(&mcsched::INLINE), false);
    let mut c = Cnt::default();
    match (p.f)(num("index"), &mut c) {
        Ok(()) => {
            println!("part {} case {}: holds", p.name, num("index"));
            0
        }
        Err(e) => {
            println!("part {} case {}: {e}", p.name, num("index"));
            println!("VIOLATION property={prop} replay={file}");
            1
        }
    }
}

/// Run `f` in a child process; a crash or a call that never returns inside the library is a verdict.
fn supervised(prop: &str, f: impl FnOnce() -> i32) -> i32 {
    init_shared();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let code = match r {
            Ok(c) => c,
            Err(e) => {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
                println!("harness error: {}", m.unwrap_or_default());
                2
            }
        };
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(code) }
    }
    let mut last: Vec<(u64, Instant)> = (0..SLOTS).map(|_| (0, Instant::now())).collect();
    let report = |slot: usize, what: &str| -> i32 {
        let t = tier();
        let sh = &shared()[slot];
        let parts = checks::parts(prop, t);
        let v = Viol { part: sh.part.load(Relaxed) as usize, index: sh.index.load(Relaxed), msg: what.into() };
        let name = parts.get(v.part).map(|p| p.name.clone()).unwrap_or_default();
        let rep = Report { cnt: Cnt { states: 1, trans: 1, ..Default::default() }, exhaustive: false, parts: vec![], violation: Some(v.clone()), vacuous: vec![] };
        write_evidence(prop, t, &rep, 0.0, 1);
        let path = write_replay(prop, t, &name, &v);
        println!("part {name} case {}: {what}", v.index);
        println!("VIOLATION property={prop} replay={path}");
        1
    };
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            if libc::WIFEXITED(st) {
                return libc::WEXITSTATUS(st);
            }
            let sig = libc::WTERMSIG(st);
            if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig) {
                if let Some(i) = (0..SLOTS).find(|i| shared()[*i].inlib.load(Relaxed) > 0) {
                    return report(i, &format!("the process is killed by signal {sig} inside a library call"));
                }
            }
            println!("harness error: child ended by signal {sig}");
            return 2;
        }
        for i in 0..SLOTS {
            let s = &shared()[i];
            let b = s.beat.load(Relaxed);
            if s.inlib.load(Relaxed) == 0 || b != last[i].0 {
                last[i] = (b, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(HANG_S) {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                return report(i, "a library call does not return");
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tell = std::env::var_os("GSMC_PANICS").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if tell {
            eprintln!("{i}");
        }
    }));
    load_known();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(p)) => supervised(p, || check(p)),
        (Some("replay"), Some(f)) => {
            init_shared();
            replay(f)
        }
        (Some("list"), Some(p)) => {
            init_shared();
            for p in checks::parts(p, tier()) {
                println!("{:>14}  {}: {}", p.n, p.name, p.about);
            }
            0
        }
        _ => {
            eprintln!("usage: gsmc check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
