//! Runs a property: worker process, crash and hang isolation, shrinking, known findings,
//! replay files and evidence.

use crate::engine::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn home() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_HOME").unwrap_or_else(|_| "/verif".into()))
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

// ── child side ──────────────────────────────────────────────────────────────

#[allow(clippy::too_many_arguments)]
pub fn worker(
    p: &'static Prop,
    seed: u64,
    first: u64,
    cases: u64,
    threads: usize,
    journal: &str,
    out: &str,
    hang: u64,
    wall: u64,
) -> i32 {
    let j = Journal::open(Path::new(journal), threads).ok();
    let mut st = campaign(p, seed, first, cases, threads, j, hang, Instant::now() + Duration::from_secs(wall));
    let mut failure = Value::Null;
    if let Some((idx, choices, msg)) = st.failure.take() {
        let (choices, msg, case) = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || shrink_here(p, choices, msg))
            .unwrap()
            .join()
            .unwrap();
        failure = json!({"index": idx, "choices": choices, "message": msg, "case": case});
    }
    let samples: Vec<&String> = st.samples.values().take(8).collect();
    let v = json!({
        "evaluations": st.evaluations, "steps": st.steps, "distinct_nontrivial": st.nontrivial.len(),
        "labels": st.labels, "excluded": st.excluded, "inconclusive": st.inconclusive,
        "samples": samples, "failure": failure,
    });
    std::fs::write(out, v.to_string()).unwrap();
    0
}

fn shrink_here(p: &'static Prop, choices: Vec<u32>, msg: String) -> (Vec<u32>, String, String) {
    let until = Instant::now() + Duration::from_secs(40);
    let best = shrink(choices.clone(), 20_000, |cand| {
        if Instant::now() > until {
            return None;
        }
        let mut src = Src::replay(cand);
        let mut ctx = Ctx::default();
        match run_case(p, &mut src, &mut ctx) {
            Outcome::Fail(_) => Some(src.record),
            _ => None,
        }
    });
    let mut src = Src::replay(&best);
    let mut ctx = Ctx::default();
    match run_case(p, &mut src, &mut ctx) {
        Outcome::Fail(m) => (best, m, ctx.case),
        // a failure that does not repeat: the original, as it was seen
        _ => (choices, msg, ctx.case),
    }
}

/// One case in this process: 0 pass, 1 fail, 2 inconclusive; the case is on stdout.
pub fn one(p: &'static Prop, seed: u64) -> i32 {
    let mut src = Src::random(seed);
    verdict(p, &mut src, true)
}

fn read_choices(f: &str) -> Option<(String, Vec<u32>)> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).ok()?).ok()?;
    let c = v["choices"].as_array()?.iter().filter_map(|x| x.as_u64().map(|x| x as u32)).collect();
    Some((v["property"].as_str().unwrap_or("").to_string(), c))
}

pub fn choices(p: &'static Prop, f: &str) -> i32 {
    match read_choices(f) {
        Some((_, c)) => verdict(p, &mut Src::replay(&c), false),
        None => 3,
    }
}

pub fn replay(f: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(f).ok().and_then(|x| serde_json::from_str(&x).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {f}");
            return 3;
        }
    };
    let id = v["property"].as_str().unwrap_or("").to_string();
    let p = match crate::props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 3,
    };
    if let Some(name) = v["pinned"].as_str() {
        for (n, r) in (p.pinned)() {
            if n == name {
                println!("{n}: {r:?}");
                return r.is_err() as i32;
            }
        }
        return 3;
    }
    let seed = v["case_seed"].as_str().and_then(|x| x.parse::<u64>().ok());
    match (read_choices(f), seed) {
        (Some((_, c)), _) => verdict(p, &mut Src::replay(&c), true),
        (None, Some(seed)) => verdict(p, &mut Src::random(seed), true),
        _ => 3,
    }
}

fn verdict(p: &'static Prop, src: &mut Src, print: bool) -> i32 {
    let mut ctx = Ctx::default();
    let out = run_case(p, src, &mut ctx);
    if print {
        println!("{}", ctx.case);
    }
    match out {
        Outcome::Pass => 0,
        Outcome::Inconclusive(_) => 2,
        Outcome::Fail(m) => {
            if print {
                println!("{m}");
            }
            1
        }
    }
}

pub fn pinned(p: &'static Prop) -> i32 {
    let out: Vec<Value> = (p.pinned)()
        .into_iter()
        .map(|(n, r)| json!([n, r.err()]))
        .collect();
    println!("{}", Value::Array(out));
    0
}

// ── parent side ─────────────────────────────────────────────────────────────

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn run(args: &[String], secs: u64, out: Option<&Path>) -> End {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let so = match out {
        Some(p) => Stdio::from(std::fs::File::create(p).unwrap()),
        None => Stdio::null(),
    };
    let mut c = Command::new(exe());
    c.args(args).stdin(Stdio::null()).stdout(so).stderr(Stdio::inherit()).process_group(0);
    let mut ch = c.spawn().expect("spawn");
    let until = Instant::now() + Duration::from_secs(secs);
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return match st.code() {
                Some(c) => End::Code(c),
                None => End::Signal(st.signal().unwrap_or(0)),
            };
        }
        if Instant::now() > until {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

#[derive(Default)]
struct Total {
    evaluations: u64,
    steps: u64,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    excluded: BTreeMap<String, u64>,
    inconclusive: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

impl Total {
    fn add(&mut self, v: &Value) {
        self.evaluations += v["evaluations"].as_u64().unwrap_or(0);
        self.steps += v["steps"].as_u64().unwrap_or(0);
        self.nontrivial += v["distinct_nontrivial"].as_u64().unwrap_or(0);
        for (m, k) in [(&mut self.labels, "labels"), (&mut self.excluded, "excluded"), (&mut self.inconclusive, "inconclusive")] {
            for (n, x) in v[k].as_object().into_iter().flatten() {
                *m.entry(n.clone()).or_default() += x.as_u64().unwrap_or(0);
            }
        }
        for x in v["samples"].as_array().into_iter().flatten() {
            if self.samples.len() < 8 {
                self.samples.push(x.clone());
            }
        }
    }
}

/// `known: property=C02 name=… <what fails>`
fn known() -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(home().join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let id = it.next().unwrap_or("").to_string();
            let name = it.next().unwrap_or("").trim_start_matches("name=").to_string();
            v.push((id, name, it.next().unwrap_or("").to_string()));
        }
    }
    v
}

pub fn check(p: &'static Prop, cases: Option<u64>) -> i32 {
    let start = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let cases = cases.unwrap_or(if thorough { p.thorough_cases } else { p.quick_cases });
    let wall = if thorough { 3600 * 3 } else { 420 };
    let hang = 60;
    let tmp = std::env::temp_dir().join(format!("yaml-verif-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let replays = home().join("replays");
    let _ = std::fs::create_dir_all(&replays);

    // violations as (message, replay path)
    let mut bad: Vec<(String, PathBuf)> = Vec::new();
    let mut findings: Vec<String> = Vec::new();
    let mut error: Option<String> = None;
    let mut total = Total::default();

    // 1. pinned cases: regressions of repaired defects and the known findings
    let known = known();
    let pf = tmp.join("pinned");
    let mut n_pinned = 0;
    match run(&["pinned".into(), p.id.into()], 120, Some(&pf)) {
        End::Code(0) => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&pf).unwrap_or_default()).unwrap_or(Value::Null);
            for x in v.as_array().into_iter().flatten() {
                n_pinned += 1;
                let name = x[0].as_str().unwrap_or("").to_string();
                if let Some(m) = x[1].as_str() {
                    match known.iter().find(|k| k.0 == p.id && k.1 == name) {
                        Some(k) => findings.push(format!("{}: {}", k.1, k.2)),
                        None => {
                            let f = replays.join(format!("{}-pinned-{}.json", p.id, name));
                            let _ = std::fs::write(&f, json!({"property": p.id, "pinned": name, "message": m}).to_string());
                            bad.push((format!("pinned case {name}: {m}"), f));
                        }
                    }
                }
            }
        }
        other => {
            let f = replays.join(format!("{}-pinned.json", p.id));
            let what = match other {
                End::Code(c) => format!("exit code {c}"),
                End::Signal(s) => format!("signal {s}"),
                End::Timeout => "no end within 120 s".into(),
            };
            let _ = std::fs::write(&f, json!({"property": p.id, "message": what}).to_string());
            bad.push((format!("the pinned cases end with {what}"), f));
        }
    }

    // 2. the campaign, in a child process; a child that dies is examined case by case
    let mut first = 0u64;
    let chunk = if thorough { 2_000_000 } else { cases.max(1) };
    let mut retries = 0;
    while bad.is_empty() && error.is_none() && first < cases && start.elapsed().as_secs() < wall {
        let n = chunk.min(cases - first);
        let jd = tmp.join("journal");
        let _ = std::fs::create_dir_all(&jd);
        let of = tmp.join("out.json");
        let _ = std::fs::remove_file(&of);
        let left = wall.saturating_sub(start.elapsed().as_secs()).max(5);
        let args: Vec<String> = vec![
            "worker".into(),
            p.id.into(),
            seed.to_string(),
            first.to_string(),
            n.to_string(),
            threads.to_string(),
            jd.display().to_string(),
            of.display().to_string(),
            hang.to_string(),
            left.to_string(),
        ];
        let end = run(&args, left + 180, None);
        if let (End::Code(0), Ok(t)) = (&end, std::fs::read_to_string(&of)) {
            let v: Value = serde_json::from_str(&t).unwrap();
            total.add(&v);
            let f = &v["failure"];
            if !f.is_null() {
                let path = replays.join(format!("{}-{}-{}.json", p.id, seed, f["index"]));
                let r = json!({"property": p.id, "seed": seed, "index": f["index"], "choices": f["choices"],
                    "case": f["case"], "message": f["message"]});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
                bad.push((f["message"].as_str().unwrap_or("").to_string(), path));
            }
            first += n;
            retries = 0;
            continue;
        }
        let what = match end {
            End::Code(c) if c == HANG => "hang".to_string(),
            End::Code(c) => format!("exit code {c}"),
            End::Signal(s) => format!("signal {s}"),
            End::Timeout => "timeout".into(),
        };
        eprintln!("worker ended with {what}; running its last cases on their own");
        // the cases the worker's threads were in
        let mut idxs: Vec<u64> = (0..threads)
            .filter_map(|t| std::fs::read(jd.join(format!("t{t}"))).ok())
            .filter(|b| b.len() == 8)
            .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
            .collect();
        idxs.sort();
        for idx in idxs {
            let cf = tmp.join("case");
            let end = run(&["one".into(), p.id.into(), seed.to_string(), idx.to_string()], 60, Some(&cf));
            let m = match end {
                End::Code(0) | End::Code(2) => continue,
                End::Code(1) => "fails".to_string(),
                End::Code(c) => format!("exit code {c}"),
                End::Signal(s) => format!("the process dies of signal {s} (stack overflow or abort)"),
                End::Timeout => "no end within 60 s".to_string(),
            };
            let cs = case_seed(p.id, seed, idx);
            let path = replays.join(format!("{}-{}-{}.json", p.id, seed, idx));
            let r = json!({"property": p.id, "seed": seed, "index": idx, "case_seed": cs.to_string(), "message": m});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
            bad.push((m, path));
            break;
        }
        if bad.is_empty() {
            // not reproducible on its own (memory or machine trouble): once more, then give up
            retries += 1;
            *total.inconclusive.entry(format!("worker ended with {what}, not reproducible")).or_default() += 1;
            if retries >= 2 {
                error = Some(format!("worker ended with {what} and none of its cases does so alone"));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);

    // 3. evidence
    let wall_s = start.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations + n_pinned,
            "distinct_nontrivial": total.nontrivial,
            "rule": p.rule,
            "samples": total.samples,
            "labels": total.labels,
            "steps": total.steps,
            "excluded": total.excluded,
            "inconclusive": total.inconclusive,
            "pinned_cases": n_pinned,
            "requested_cases": cases,
        },
        "assumptions": p.assumptions,
        "known_findings": findings,
        "wall_s": wall_s,
        "violations": bad.len(),
    });
    let _ = std::fs::create_dir_all(home().join("evidence"));
    let f = home().join("evidence").join(format!("{}.json", p.id));
    std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();

    for k in &findings {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    println!(
        "{} {}: {} cases ({} distinct non-trivial), {} pinned, {} inconclusive, {:.1} s",
        p.id,
        p.title,
        total.evaluations,
        total.nontrivial,
        n_pinned,
        total.inconclusive.values().sum::<u64>(),
        wall_s
    );
    for (m, path) in &bad {
        println!("{m}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let _ = std::io::stdout().flush();
    if !bad.is_empty() {
        return 1;
    }
    if let Some(e) = error {
        eprintln!("error: {e}");
        return 3;
    }
    0
}
