//! zkcheck: decides the properties of /verif/properties.jsonl on the code in /repo.
mod checks;
mod eng;
mod grp;
mod mock;
mod poly;
mod sym;
mod task;
mod val;

use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use task::*;

/// The standard library seeds its hash maps with this: constant, so that paths can be re-executed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = 0x5a };
    }
    len as isize
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn dec(v: &Fr) -> String {
    let b: num_bigint::BigUint = v.into_bigint().into();
    b.to_string()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' | '\r' | '\t' => o.push(' '),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o
}
fn line(s: &str) -> String {
    s.replace(['\n', '\r', '\t'], " ")
}

fn main() {
    if std::env::var("ZK_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(256 << 20).build_global().unwrap();
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3))
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in checks::all() {
                for t in p.tasks {
                    println!("{} {} {}", p.id, if t.thorough { "thorough" } else { "quick" }, t.name);
                }
            }
            0
        }
        Some("task") => run_task(&a),
        Some("replay") => replay(&a[2]),
        Some("run") => run_prop(&a),
        _ => {
            eprintln!("usage: zkcheck run --property P01 --tier quick --verif DIR | replay FILE | list | task P01 NAME");
            2
        }
    }
}

fn find(id: &str, name: &str) -> Option<Task> {
    checks::one(id)?.tasks.into_iter().find(|t| t.name == name)
}

fn run_task(a: &[String]) -> i32 {
    let t = match find(&a[2], &a[3]) {
        Some(t) => t,
        None => return 2,
    };
    let budget: u64 = arg(a, "--budget").and_then(|s| s.parse().ok()).unwrap_or(600);
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let o = explore(&t, Duration::from_secs(budget), seed);
    let mut s = String::new();
    let st = &o.stats;
    for (k, v) in [
        ("paths", st.paths), ("infeasible", st.infeasible), ("forks", st.forks), ("queries", st.queries), ("unsat", st.unsat),
        ("sat", st.sat), ("unknown", st.unknown), ("asserted", st.asserted), ("mod_identity", st.mod_identity),
        ("max_monos", st.max_monos as u64), ("reached", st.reached), ("witnesses", o.witnesses), ("native_checks", o.native_checks), ("decisions", st.decisions),
    ] {
        let _ = writeln!(s, "stat\t{}\t{}", k, v);
    }
    let _ = writeln!(s, "time\tsolver\t{:.3}", st.solver_s);
    let _ = writeln!(s, "time\twall\t{:.3}", o.wall);
    let _ = writeln!(s, "sample\t{}\t{}", t.name, line(&o.sample));
    for f in &o.failures {
        let _ = writeln!(s, "fail\t{}\t{}\t{}", line(&f.label), f.reproduced, line(&f.native.join(" | ")));
        for (k, v) in &f.model {
            let _ = writeln!(s, "value\t{}\t{}", k, dec(v));
        }
    }
    for e in &o.errors {
        let _ = writeln!(s, "error\t{}", line(e));
    }
    s.push_str("end\n");
    match arg(a, "--out") {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => eprint!("{}", s),
    }
    0
}

fn replay(path: &str) -> i32 {
    let txt = std::fs::read_to_string(path).expect("replay file");
    let (mut id, mut name, mut model) = (String::new(), String::new(), BTreeMap::new());
    for l in txt.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "property" => id = f[1].into(),
            "task" => name = f[1].into(),
            "value" => {
                let b: num_bigint::BigUint = f[2].parse().unwrap();
                model.insert(f[1].to_string(), Fr::from(b));
            }
            _ => {}
        }
    }
    let t = find(&id, &name).expect("task");
    let (fails, checked, held) = run_native(&t, &model);
    eprintln!("property {} task {}: {} assertions evaluated, assumptions {}", id, name, checked, held);
    for f in &fails {
        eprintln!("  FAILED {}", f);
    }
    i32::from(!fails.is_empty())
}

struct Res {
    name: String,
    stats: BTreeMap<String, u64>,
    solver: f64,
    wall: f64,
    sample: String,
    fails: Vec<(String, bool, String, Vec<(String, String)>)>,
    errors: Vec<String>,
}
fn parse(name: &str, txt: &str) -> Res {
    let mut r = Res { name: name.into(), stats: BTreeMap::new(), solver: 0.0, wall: 0.0, sample: String::new(), fails: vec![], errors: vec![] };
    let mut end = false;
    for l in txt.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "stat" => {
                r.stats.insert(f[1].into(), f[2].parse().unwrap_or(0));
            }
            "time" if f[1] == "solver" => r.solver = f[2].parse().unwrap_or(0.0),
            "time" => r.wall = f[2].parse().unwrap_or(0.0),
            "sample" => r.sample = f.get(2).unwrap_or(&"").to_string(),
            "fail" => r.fails.push((f[1].into(), f[2] == "true", f.get(3).unwrap_or(&"").to_string(), vec![])),
            "value" => {
                if let Some(x) = r.fails.last_mut() {
                    x.3.push((f[1].into(), f[2].into()))
                }
            }
            "error" => r.errors.push(f[1].into()),
            "end" => end = true,
            _ => {}
        }
    }
    if !end {
        r.errors.push("task process did not finish".into());
    }
    r
}

fn run_prop(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = arg(a, "--property").expect("--property");
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let verif = arg(a, "--verif").unwrap_or("/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = checks::one(&id).expect("unknown property");
    let names: Vec<String> = p.tasks.iter().filter(|t| tier == "thorough" || !t.thorough).map(|t| t.name.clone()).collect();
    // quick runs have to answer within 900 s; once a violation is found the rest is cut short
    let (budget, total) = if tier == "thorough" { (6000u64, 12000u64) } else { (600, 760) };
    let found = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let first = std::env::var("ZK_FIRST").is_ok();
    let jobs: usize = arg(a, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let tmp = std::env::temp_dir().join(format!("zkcheck-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let queue = Arc::new(Mutex::new((0..names.len()).collect::<std::collections::VecDeque<_>>()));
    let results: Arc<Mutex<Vec<Res>>> = Arc::new(Mutex::new(vec![]));
    let exe = std::env::current_exe().unwrap();
    // known findings: property, task, label
    let known: Vec<(String, String, String)> = std::fs::read_to_string(format!("{}/known-findings.txt", verif))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with("finding\t"))
        .filter_map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() >= 4 { Some((f[1].to_string(), f[2].to_string(), f[3].to_string())) } else { None }
        })
        .collect();
    let mut hs = vec![];
    for _ in 0..jobs.min(names.len().max(1)) {
        let (queue, results, names, exe, tmp, id, found, known) = (queue.clone(), results.clone(), names.clone(), exe.clone(), tmp.clone(), id.clone(), found.clone(), known.clone());
        hs.push(std::thread::spawn(move || loop {
            if first && found.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            let i = match queue.lock().unwrap().pop_front() {
                Some(i) => i,
                None => return,
            };
            let out = tmp.join(format!("t{}", i));
            let dbg = std::env::var("ZK_DEBUG").is_ok();
            let started = Instant::now();
            let allowed = budget.min(total.saturating_sub(t0.elapsed().as_secs()));
            let mut child = Command::new(&exe)
                .args(["task", &id, &names[i], "--budget", &allowed.to_string(), "--seed", &seed.to_string(), "--out"])
                .arg(&out)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(if dbg { Stdio::inherit() } else { Stdio::null() })
                .spawn()
                .expect("task process");
            let st = loop {
                match child.try_wait() {
                    Ok(None) => {}
                    r => break r.map(|s| s.unwrap()),
                }
                let t = started.elapsed().as_secs();
                if t > allowed + 30 || (t > 60 && found.load(std::sync::atomic::Ordering::Relaxed)) {
                    let _ = child.kill();
                }
                std::thread::sleep(Duration::from_millis(20));
            };
            let txt = std::fs::read_to_string(&out).unwrap_or_default();
            let mut r = parse(&names[i], &txt);
            if let Ok(s) = st {
                if !s.success() {
                    r.errors.push(format!("task process ended with {}", s));
                }
            }
            if r.fails.iter().any(|f| f.1 && !known.iter().any(|k| k.0 == id && k.1 == r.name && f.0.starts_with(&k.2))) {
                found.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            results.lock().unwrap().push(r);
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let mut rs = std::mem::take(&mut *results.lock().unwrap());
    rs.sort_by_key(|r| names.iter().position(|n| *n == r.name));
    let _ = std::fs::remove_dir_all(&tmp);

    let mut violations = 0;
    let mut errors = vec![];
    let rdir = format!("{}/evidence/replay", verif);
    let mut shown_known = std::collections::BTreeSet::new();
    for r in &rs {
        for (label, repro, nat, vals) in &r.fails {
            if known.iter().any(|k| k.0 == id && k.1 == r.name && label.starts_with(&k.2)) {
                if shown_known.insert((r.name.clone(), label.clone())) {
                    println!("KNOWN-FINDING: property={} {}: {}", id, r.name, label);
                }
                continue;
            }
            if !repro {
                errors.push(format!("{}: solver counterexample for '{}' does not reproduce natively ({})", r.name, label, nat));
                continue;
            }
            let _ = std::fs::create_dir_all(&rdir);
            violations += 1;
            let path = format!("{}/{}-{}.replay", rdir, id, violations);
            let mut s = format!("property\t{}\ntask\t{}\nlabel\t{}\nnative\t{}\n", id, r.name, line(label), line(nat));
            for (k, v) in vals {
                let _ = writeln!(s, "value\t{}\t{}", k, v);
            }
            let _ = std::fs::write(&path, s);
            println!("VIOLATION property={} replay={}", id, path);
            println!("  {}: {}", r.name, label);
        }
        for e in &r.errors {
            errors.push(format!("{}: {}", r.name, e));
        }
    }
    let sum = |k: &str| rs.iter().map(|r| r.stats.get(k).copied().unwrap_or(0)).sum::<u64>();
    let solver: f64 = rs.iter().map(|r| r.solver).sum();
    let mut j = String::new();
    let arr = |v: &[&str]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
    let _ = write!(
        j,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"assertions\": {},\n  \"assertions_evaluated_in_native_traces\": {},\n  \"infeasible_paths\": {},\n  \"smt_queries\": {},\n  \"smt_unsat\": {},\n  \"smt_sat\": {},\n  \"smt_unknown\": {},\n  \"solver_seconds\": {:.2},\n  \"identities_left_to_exact_arithmetic\": {},\n  \"largest_polynomial_monomials\": {},\n",
        id, tier, seed, sum("paths"), sum("decisions"), sum("witnesses"), sum("asserted"), sum("native_checks"), sum("infeasible"),
        sum("queries"), sum("unsat"), sum("sat"), sum("unknown"), solver, sum("mod_identity"),
        rs.iter().map(|r| r.stats.get("max_monos").copied().unwrap_or(0)).max().unwrap_or(0)
    );
    let _ = write!(j, "  \"functions_encoded\": [{}],\n  \"bounds\": \"{}\",\n", arr(p.functions), esc(p.bounds));
    let _ = write!(
        j,
        "  \"tasks\": [{}],\n",
        rs.iter()
            .map(|r| format!(
                "{{\"task\": \"{}\", \"paths\": {}, \"assertions\": {}, \"queries\": {}, \"wall_s\": {:.2}}}",
                esc(&r.name), r.stats.get("paths").unwrap_or(&0), r.stats.get("asserted").unwrap_or(&0), r.stats.get("queries").unwrap_or(&0), r.wall
            ))
            .collect::<Vec<_>>()
            .join(", ")
    );
    let _ = write!(
        j,
        "  \"samples\": [{}],\n  \"errors\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        rs.iter().filter(|r| !r.sample.is_empty()).take(5).map(|r| format!("\"{}: {}\"", esc(&r.name), esc(&r.sample))).collect::<Vec<_>>().join(", "),
        errors.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "),
        arr(p.assumptions),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    std::fs::write(format!("{}/evidence/{}.json", verif, id), j).expect("evidence");
    println!(
        "{} {}: {} tasks, {} paths, {} assertions, {} queries ({} unsat, {} sat, {} unknown), {} native traces, solver {:.1}s, wall {:.1}s",
        id, tier, rs.len(), sum("paths"), sum("asserted"), sum("queries"), sum("unsat"), sum("sat"), sum("unknown"), sum("witnesses"), solver, t0.elapsed().as_secs_f64()
    );
    for e in &errors {
        println!("ERROR {}", e);
    }
    if violations > 0 {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}
