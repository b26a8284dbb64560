//! Parent process: runs the monitors in a child so that aborts (stack overflow, double panic, out of memory in
//! the code under test) become recorded witnesses, and turns the result into verdict lines and evidence.
use crate::fw::SLOT_BYTES;
use serde_json::{Value, json};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

fn wait_for(c: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            return None;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
}
fn wait(c: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let st = wait_for(c, limit);
    if st.is_none() {
        let _ = c.kill();
        let _ = c.wait();
    }
    st
}

/// exit code: 0 held, 1 violated, 2 no answer
pub fn check(a: &[String]) -> i32 {
    let prop = a[2].clone();
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let root = PathBuf::from(opt("--root", "/verif"));
    let tier = opt("--tier", "quick");
    let seed = opt("--seed", "1");
    let budget = opt("--budget", "240");
    let limit: u64 = opt("--limit", if tier == "thorough" { "3000" } else { "700" }).parse().unwrap();
    let out = root.join("out").join(&prop);
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    let known = root.join("known_findings.json");
    let exe = std::env::current_exe().unwrap();
    let start = |extra: &[&str], dir: &Path| -> Child {
        let mut c = Command::new(&exe);
        c.args(["run", &prop, "--tier", &tier, "--seed", &seed, "--budget", &budget, "--out", dir.to_str().unwrap(), "--known", known.to_str().unwrap()]);
        c.args(extra);
        c.stdin(Stdio::null()).stdout(Stdio::null());
        c.stderr(std::fs::File::create(dir.join("stderr")).unwrap());
        c.spawn().unwrap()
    };
    let t0 = Instant::now();
    let mut child = start(&[], &out);
    let mut witnesses: Vec<Value> = vec![];
    let candidates = || -> Vec<(String, u64)> {
        let j = std::fs::read(out.join("journal")).unwrap_or_default();
        j.chunks(SLOT_BYTES)
            .filter_map(|c| {
                let t = String::from_utf8_lossy(c).trim().to_string();
                let (s, i) = t.rsplit_once(' ')?;
                if s == "-" { None } else { Some((s.to_string(), i.parse().ok()?)) }
            })
            .collect()
    };
    // Every candidate case is re-run alone, all at once and each with a time limit, to find the one that kills or hangs.
    let alone = |cands: Vec<(String, u64)>, hang: Option<u64>| -> Vec<Value> {
        let mut w = vec![];
        let t = Instant::now();
        let limit = Duration::from_secs(hang.unwrap_or(120));
        let mut started: Vec<_> = vec![];
        for (k, (s, i)) in cands.into_iter().enumerate() {
            let d = out.join(format!("alone{k}"));
            std::fs::create_dir_all(&d).unwrap();
            let c = start(&["--stream", &s, "--case", &i.to_string()], &d);
            started.push((s, i, d, c));
        }
        for (s, i, d, mut c) in started {
            let st = wait(&mut c, limit.saturating_sub(t.elapsed()));
            let err = std::fs::read_to_string(d.join("stderr")).unwrap_or_default();
            match st {
                Some(st) if st.signal().is_some() => w.push(json!({"signature": format!("abort|signal {}", st.signal().unwrap()), "detail": {"stream": s, "case": i, "seed": seed, "stderr": err.chars().take(2000).collect::<String>(), "signal": st.signal()}})),
                None if hang.is_some() => w.push(json!({"signature": "no answer", "detail": {"stream": s, "case": i, "seed": seed, "note": format!("case alone did not finish within {} s (it takes milliseconds on the reference)", limit.as_secs())}})),
                _ => {}
            }
        }
        w
    };
    // A case that has been running for long is tried alone while the run goes on; one that does not end alone either is
    // a witness at once, instead of when the whole run is out of time.
    let (suspect, patience) = (Duration::from_secs(100), 240u64);
    let mut since: std::collections::BTreeMap<(String, u64), Instant> = Default::default();
    let mut cleared: std::collections::BTreeSet<(String, u64)> = Default::default();
    let st = loop {
        if let Some(s) = wait_for(&mut child, Duration::from_secs(2)) {
            break Some(s);
        }
        if t0.elapsed() > Duration::from_secs(limit) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        if tier == "thorough" || t0.elapsed() + Duration::from_secs(patience) > Duration::from_secs(limit) {
            continue;
        }
        let now = candidates();
        since.retain(|k, _| now.contains(k));
        for k in now {
            since.entry(k).or_insert_with(Instant::now);
        }
        let old: Vec<_> = since.iter().filter(|(k, t)| t.elapsed() > suspect && !cleared.contains(*k)).map(|(k, _)| k.clone()).take(3).collect();
        if !old.is_empty() {
            cleared.extend(old.iter().cloned());
            witnesses = alone(old, Some(patience));
            if !witnesses.is_empty() {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        }
    };
    let result: Option<Value> = std::fs::read_to_string(out.join("result.json")).ok().and_then(|t| serde_json::from_str(&t).ok());
    let mut inconclusive: Vec<String> = vec![];
    match st {
        None if !witnesses.is_empty() => {}
        None => {
            let w = alone(candidates(), Some(120));
            if w.is_empty() {
                inconclusive.push(format!("watchdog: not finished after {limit} s"));
            }
            witnesses.extend(w);
        }
        Some(s) if s.signal().is_some() => {
            let cands = candidates();
            let n = cands.len();
            let w = alone(cands, None);
            if w.is_empty() {
                let err: String = std::fs::read_to_string(out.join("stderr")).unwrap_or_default().chars().take(500).collect();
                if s.signal() == Some(9) {
                    inconclusive.push("run was killed (SIGKILL)".into());
                } else {
                    inconclusive.push(format!("run ended by signal {:?}; none of the {n} running cases reproduces it alone: {err}", s.signal()));
                }
            }
            witnesses.extend(w);
        }
        Some(s) if !s.success() || result.is_none() => {
            let err: String = std::fs::read_to_string(out.join("stderr")).unwrap_or_default().chars().take(1000).collect();
            inconclusive.push(format!("run failed: {s:?} {err}"));
        }
        _ => {}
    }
    let mut ev = json!({"property": prop, "tier": tier, "seed": seed.parse::<i64>().unwrap_or(0), "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "run did not complete", "samples": []}, "wall_s": t0.elapsed().as_secs_f64(), "violations": witnesses.len()});
    if let Some(r) = &result {
        ev = r["evidence"].clone();
        for v in r["violations"].as_array().unwrap() {
            witnesses.push(v.clone());
        }
        for i in r["inconclusive"].as_array().unwrap() {
            inconclusive.push(i.as_str().unwrap_or("").to_string());
        }
        if ev["coverage"]["distinct_nontrivial"].as_u64().unwrap_or(0) < 2 && witnesses.is_empty() {
            inconclusive.push("monitors observed nothing".into());
        }
        ev["violations"] = json!(witnesses.len().max(r["violations_total"].as_u64().unwrap_or(0) as usize));
    }
    // known findings: reproduced ones are reported as such
    let kf: Value = std::fs::read_to_string(&known).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(json!({}));
    if let Some(r) = &result {
        for k in kf["findings"].as_array().unwrap_or(&vec![]) {
            let sig = k["signature"].as_str().unwrap_or("");
            if k["property"] == prop.as_str() && k["status"] == "known" && r["known_hit"].get(sig).is_some() {
                println!("KNOWN-FINDING: property={prop} {}", k["what"].as_str().unwrap_or(sig));
            }
        }
    }
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    let e = &ev["coverage"];
    println!("{prop} {tier} seed={seed}: {} evaluations, {} distinct, {:.1} s", e["evaluations"], e["distinct_nontrivial"], t0.elapsed().as_secs_f64());
    if !witnesses.is_empty() {
        for (n, w) in witnesses.iter().enumerate() {
            let p = out.join(format!("violation-{n}.json"));
            let mut w = w.clone();
            let d = w["detail"].clone();
            w["replay"] = json!(format!("{} run {prop} --tier {tier} --seed {seed} --out /tmp/mxmon-replay --stream '{}' --case {}", exe.display(), d["stream"].as_str().unwrap_or(""), d["case"]));
            w["property"] = json!(prop);
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&w).unwrap());
            if n < 5 {
                println!("VIOLATION property={prop} replay={}", p.display());
                println!("  {}", w["signature"].as_str().unwrap_or(""));
            }
        }
        return 1;
    }
    if !inconclusive.is_empty() {
        for i in inconclusive.iter().take(5) {
            println!("INCONCLUSIVE property={prop} {i}");
        }
        return 2;
    }
    0
}
