//! mc <property> <quick|thorough>          explore (supervised)
//! mc <property> replay <family> <choices> run one case

mod core;
mod dest;
mod docs;
mod ends;
mod exec;
mod location;
mod jsonrt;
mod cli;
mod concur;
mod fault;
mod files;
mod md;
mod runs;
mod surround;
mod mixed;
mod mono;
mod order;
mod rustsrc;
mod model;
mod props;
mod words;
mod world;

use crate::core::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::io::{BufRead, BufReader};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), PathBuf::from)
}

fn scratch_root() -> PathBuf {
    let base = ["/dev/shm", "/tmp"]
        .iter()
        .map(Path::new)
        .find(|p| {
            let t = p.join(format!("reqtrace-mc-probe-{}", std::process::id()));
            let ok = fs::create_dir(&t).is_ok();
            let _ = fs::remove_dir(&t);
            ok
        })
        .expect("a scratch directory");
    base.join(format!("reqtrace-mc-{}", std::process::id()))
}

/// the one of another process
fn scratch_of(pid: u32) -> PathBuf {
    scratch_root().with_file_name(format!("reqtrace-mc-{pid}"))
}

fn new_ctx(id: &str, tier: &str, scratch: PathBuf, only: Option<(String, Vec<u32>)>) -> Ctx {
    let deadline = if tier == "thorough" { 3000 } else { 420 };
    let env_path = |k: &str, d: &str| {
        std::env::var_os(k).map_or_else(|| verif().join(d), PathBuf::from)
    };
    Ctx {
        id: id.into(),
        tier: tier.into(),
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        start: Instant::now(),
        deadline: Duration::from_secs(
            std::env::var("MC_DEADLINE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(deadline),
        ),
        scratch,
        cov: Mutex::new(Cov::default()),
        violation: Mutex::new(None),
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()),
        only,
        only_found: AtomicBool::new(false),
        exe: env_path("MC_EXE", "target/release/reqtrace"),
        shim: env_path("MC_SHIM", "target/shim.so"),
    }
}

/// exploration in the child process
fn explore(id: &str, tier: &str, scratch: &str) -> i32 {
    install_panic_hook();
    let ctx = new_ctx(id, tier, PathBuf::from(scratch), None);
    props::run(&ctx);
    let v = ctx.violation.lock().unwrap().clone();
    let c = ctx.cov.lock().unwrap();
    let mut extra = serde_json::Map::new();
    for (k, n) in &c.extra {
        extra.insert(k.clone(), json!(n));
    }
    let steps = c.extra.get("model_steps").copied().unwrap_or(0);
    let fault = props::is_fault(id);
    let mut coverage = json!({
        "families": c.families,
        "exhaustive": !c.capped,
        "distinct_outcomes": c.outcomes.len(),
        "samples": c.samples.iter().take(12).cloned().collect::<Vec<Value>>(),
        "counters": extra,
    });
    if fault {
        coverage["evaluations"] = json!(c.runs);
        coverage["distinct_nontrivial"] = json!(c.outcomes.len());
        coverage["rule"] = json!("every operation of the kinds listed under families, with every failure listed there, one execution of the real program each; a case is counted as non-trivial if its observed outcome (exit code, reports, messages) differs from all others");
        coverage["fault_cases"] = json!(c.cases);
    } else {
        coverage["states"] = json!(c.distinct.len());
        coverage["transitions"] = json!(c.edges);
        coverage["traces_validated_against_impl"] = json!(c.runs);
        coverage["model_steps"] = json!(steps);
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": ctx.seed,
        "level": if fault {"fault_enumeration"} else {"model_checking"},
        "coverage": coverage,
        "assumptions": props::assumptions(id),
        "wall_s": ctx.start.elapsed().as_secs_f64(),
        "violations": i32::from(v.is_some()),
    });
    let mut result = json!({"evidence": ev, "known": c.known});
    if let Some((f, ch, e)) = &v {
        result["violation"] = json!({"family": f, "choices": ch, "error": e});
    }
    fs::write(
        ctx.scratch.join("result.json"),
        serde_json::to_string(&result).unwrap(),
    )
    .unwrap();
    0
}

fn choices_text(c: &[u32]) -> String {
    c.iter().map(u32::to_string).collect::<Vec<_>>().join(",")
}

/// run one case in a process of its own: 0 held, 1 violated, None crashed or hung, else the
/// harness failed
fn isolated(id: &str, tier: &str, fam: &str, ch: &[u32]) -> (Option<i32>, String) {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args([id, "replay", fam, &choices_text(ch)])
        .env("MC_TIER", tier)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            if s.len() < 100_000 {
                s.push_str(&l);
                s.push('\n');
            }
        }
        s
    });
    let t0 = Instant::now();
    let code = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st.code();
        }
        if t0.elapsed() > Duration::from_secs(45) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let text = reader.join().unwrap();
    let _ = fs::remove_dir_all(scratch_of(child.id()));
    (code, text)
}

/// does a second exploration find a violation as well?
fn happens_again(id: &str, tier: &str) -> bool {
    let scratch = scratch_root();
    fs::create_dir_all(&scratch).unwrap();
    let status = Command::new(std::env::current_exe().unwrap())
        .args([id, "explore", tier])
        .arg(&scratch)
        .status()
        .unwrap();
    let result = fs::read_to_string(scratch.join("result.json")).unwrap_or_default();
    let _ = fs::remove_dir_all(&scratch);
    let result: Value = serde_json::from_str(&result).unwrap_or_default();
    status.success() && result.get("violation").is_some()
}

fn supervise(id: &str, tier: &str) -> i32 {
    // once more if the exploration came to an end that no case explains
    match supervise_once(id, tier) {
        98 => supervise_once(id, tier),
        rc => rc,
    }
}

fn supervise_once(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let scratch = scratch_root();
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();
    let status = Command::new(exe)
        .args([id, "explore", tier])
        .arg(&scratch)
        .status()
        .unwrap();
    let mut rc = 98;
    let mut violation: Option<(String, Vec<u32>, String)> = None;
    let mut evidence = json!(null);
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    if status.success() {
        if let Ok(t) = fs::read_to_string(scratch.join("result.json")) {
            let r: Value = serde_json::from_str(&t).unwrap();
            evidence = r["evidence"].clone();
            for (k, v) in r["known"].as_object().unwrap() {
                known.insert(k.clone(), v.as_u64().unwrap());
            }
            if let Some(v) = r.get("violation") {
                violation = Some((
                    v["family"].as_str().unwrap().into(),
                    v["choices"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|c| c.as_u64().unwrap() as u32)
                        .collect(),
                    v["error"].as_str().unwrap().into(),
                ));
            }
            rc = 0;
        }
    } else {
        eprintln!("explorer ended with {status}");
        if !(status.code().is_none() || status.code() == Some(97)) {
            eprintln!("ENGINE ERROR");
            let _ = fs::remove_dir_all(&scratch);
            return 98;
        }
        // which case brought it down?
        for (fam, ch) in read_current(&scratch) {
            let (r, out) = isolated(id, tier, &fam, &ch);
            if r.is_none() {
                violation = Some((
                    fam,
                    ch,
                    format!("the tool crashed (stack overflow, abort) or did not end\n{out}"),
                ));
                break;
            } else if r == Some(1) {
                violation = Some((fam, ch, out));
                break;
            }
        }
        evidence = json!({"property": id, "tier": tier, "seed": 1, "level":
            if props::is_fault(id) {"fault_enumeration"} else {"model_checking"},
            "coverage": {"explanation": "the explorer was brought down by the code under test",
             "exhaustive": false}, "violations": 1});
        if violation.is_some() {
            rc = 0;
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    if rc != 0 {
        eprintln!("ENGINE ERROR");
        return rc;
    }
    if let Some((fam, ch, err)) = &violation {
        let dir = verif().join("replay").join(id);
        fs::create_dir_all(&dir).unwrap();
        let (mut again, mut tries) = (0, 0);
        let t1 = Instant::now();
        let mut last = String::new();
        for _ in 0..5 {
            let (r, out) = isolated(id, tier, fam, ch);
            tries += 1;
            if r.is_none() || r == Some(1) {
                again += 1;
            }
            last = out;
            if t1.elapsed() > Duration::from_secs(80) {
                break;
            }
        }
        let file = dir.join("violation.txt");
        let text = format!(
            "property {id}\nfamily {fam}\nchoices {}\nreproduced {again} of {tries} times in processes of their own\n\nreplay with: bash /verif/check.sh {id} replay {fam} {} {tier}\n\n{err}\n\n{last}\n",
            choices_text(ch),
            if ch.is_empty() { "-".into() } else { choices_text(ch) },
        );
        fs::write(&file, text).unwrap();
        eprintln!("{}", err.chars().take(3000).collect::<String>());
        // not alone, but perhaps after the cases before it: something is kept between runs
        if again == 0 && !happens_again(id, tier) {
            eprintln!("ENGINE ERROR: the violation cannot be reproduced, see {}", file.display());
            return 98;
        }
        println!("VIOLATION property={id} replay={}", file.display());
        rc = 1;
    }
    // known findings must be listed
    let listed = fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    for (k, n) in &known {
        let tag = k.split(' ').next().unwrap();
        let line = listed
            .lines()
            .find(|l| l.starts_with(&format!("finding: property={id} key={tag} ")));
        match line {
            Some(_) => println!("KNOWN-FINDING: property={id} {k} ({n} cases)"),
            None => {
                let dir = verif().join("replay").join(id);
                fs::create_dir_all(&dir).unwrap();
                let file = dir.join("unlisted.txt");
                fs::write(&file, k).unwrap();
                println!("VIOLATION property={id} replay={}", file.display());
                rc = 1;
            }
        }
    }
    evidence["wall_s"] = json!(t0.elapsed().as_secs_f64());
    let dir = verif().join("evidence");
    fs::create_dir_all(&dir).unwrap();
    fs::write(
        dir.join(format!("{id}.json")),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .unwrap();
    let cov = &evidence["coverage"];
    eprintln!(
        "{id} {tier}: states={} transitions={} executions={} outcomes={} exhaustive={} {:.1}s",
        cov["states"],
        cov["transitions"],
        if cov["evaluations"].is_null() {
            &cov["traces_validated_against_impl"]
        } else {
            &cov["evaluations"]
        },
        cov["distinct_outcomes"],
        cov["exhaustive"],
        t0.elapsed().as_secs_f64()
    );
    rc
}

fn replay(id: &str, fam: &str, ch: &str) -> i32 {
    install_panic_hook();
    let tier = std::env::var("MC_TIER").unwrap_or_else(|_| "quick".into());
    let scratch = scratch_root();
    fs::create_dir_all(&scratch).unwrap();
    let ch: Vec<u32> = ch.split(',').filter_map(|c| c.parse().ok()).collect();
    let ctx = new_ctx(id, &tier, scratch.clone(), Some((fam.into(), ch)));
    props::run(&ctx);
    let _ = fs::remove_dir_all(&scratch);
    if !ctx.only_found.load(Ordering::SeqCst) {
        eprintln!("no such family");
        return 98;
    }
    let v = ctx.violation.lock().unwrap().clone();
    match v {
        Some((_, _, e)) => {
            println!("{e}");
            1
        }
        None => 0,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let rc = match a[1..] {
        [id, tier @ ("quick" | "thorough")] => supervise(id, tier),
        [id, "explore", tier, scratch] => explore(id, tier, scratch),
        [id, "replay", fam, ch] => replay(id, fam, ch),
        _ => {
            eprintln!("usage: mc <property> quick|thorough");
            98
        }
    };
    std::process::exit(rc);
}
