mod ds;
mod fw;
mod gen;
mod props;
mod refm;

use fw::*;
use serde_json::json;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// Removes the scratch files, then exits.
fn leave(code: i32) -> ! {
    ds::remove_scratch();
    std::process::exit(code)
}

/// Runs the check in a child process, so that a case that never returns or ends the process
/// (abort, stack overflow, out of memory) is found and reported too.
fn supervise(id: &str, replay: Option<&str>) -> ! {
    let exe = std::env::current_exe().expect("own path");
    if let Some(file) = replay {
        match run_replay(&exe, id, file, false) {
            Some(code) => std::process::exit(code),
            None => {
                println!("replay: the case does not return within {CASE_LIMIT_S} s or ends the process");
                println!("VIOLATION property={id} replay={file}");
                std::process::exit(1)
            }
        }
    }
    let verdict = |careful: Option<&std::path::Path>| -> Option<i32> {
        let mut cmd = Command::new(&exe);
        cmd.arg(id).env("PV_CHILD", "1");
        if let Some(dir) = careful {
            cmd.env("PV_CAREFUL", dir);
        }
        let mut child = cmd.spawn().expect("child");
        let pid = child.id();
        let code = child.wait().expect("wait").code();
        ds::remove_scratch_of(pid);
        code.filter(|c| *c != HANG)
    };
    if let Some(code) = verdict(None) {
        std::process::exit(code);
    }
    println!("{id}: a case does not return or ends the process; looking for it");
    let dir = std::env::temp_dir().join(format!("pv-careful-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("careful directory");
    let code = verdict(Some(&dir));
    let candidates: Vec<_> = std::fs::read_dir(&dir)
        .map(|d| d.flatten().map(|f| f.path()).collect())
        .unwrap_or_default();
    let finish = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(code)
    };
    if let Some(code) = code {
        finish(code);
    }
    let found = std::thread::scope(|s| {
        let hs: Vec<_> = candidates
            .iter()
            .map(|f| { let exe = &exe; s.spawn(move || run_replay(exe, id, f.to_str().expect("path"), true).is_none().then_some(f)) })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok().flatten()).next()
    });
    let Some(file) = found else {
        println!("ERROR: no single case explains it; this is not a verdict");
        finish(2)
    };
    let root = std::env::var("PV_ROOT").unwrap_or_else(|_| "/verif".into());
    let path = format!("{root}/replays/{id}-ended.json");
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    std::fs::copy(file, &path).expect("write replay");
    println!("{id}: the case does not return within {CASE_LIMIT_S} s or ends the process");
    println!("VIOLATION property={id} replay={path}");
    finish(1)
}

/// The exit code of the replay; none if it does not end by itself.
fn run_replay(exe: &std::path::Path, id: &str, file: &str, quiet: bool) -> Option<i32> {
    let mut child = Command::new(exe)
        .args([id, "--replay", file])
        .env("PV_CHILD", "1")
        .stdout(if quiet { Stdio::null() } else { Stdio::inherit() })
        .spawn()
        .expect("child");
    let start = Instant::now();
    let code = loop {
        if let Some(status) = child.try_wait().expect("wait") {
            break status.code();
        }
        if start.elapsed() > Duration::from_secs(CASE_LIMIT_S) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    ds::remove_scratch_of(child.id());
    code
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first().cloned() else {
        eprintln!("usage: pv <ID> [--replay FILE]");
        leave(2);
    };
    let replay = (args.get(1).map(String::as_str) == Some("--replay")).then(|| args[2].clone());
    if std::env::var("PV_CHILD").is_err() {
        supervise(&id, replay.as_deref());
    }
    install_panic_hook();
    let checks = props::all();
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id}");
        leave(2);
    };
    let subs = (check.subs)();

    if let Some(file) = replay {
        let text = std::fs::read_to_string(&file).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
        let name = v["sub"].as_str().expect("sub");
        let sub = subs.iter().find(|s| s.name == name).expect("sub");
        let case = serde_json::to_string(&v["case"]).expect("case");
        match (sub.replay)(&case) {
            Ok(()) => println!("replay: holds"),
            Err(e) if e.contains(HARNESS) => {
                println!("replay: {e}");
                leave(2);
            }
            Err(e) => {
                println!("replay: {e}");
                println!("VIOLATION property={id} replay={file}");
                leave(1);
            }
        }
        leave(0);
    }

    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let tier = if thorough { Tier::Thorough } else { Tier::Quick };
    let limit = if thorough { 6 * 3600 } else { 800 };
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        println!("ERROR: no answer within {limit} s (hang or overload); this is not a verdict");
        leave(3);
    });

    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        if some_case_hangs() {
            leave(HANG);
        }
    });

    let only = std::env::var("PV_SUB").ok();
    let start = Instant::now();
    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut samples = Vec::new();
    let mut per_sub = serde_json::Map::new();
    let mut failures = Vec::new();
    let mut error = None;
    for s in &subs {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let t0 = Instant::now();
        let r = (s.run)(&id, seed, tier);
        evaluations += r.evaluations;
        nontrivial += r.nontrivial.len() as u64;
        for c in r.samples.iter().take(2) {
            samples.push(json!({"sub": s.name, "case": c}));
        }
        per_sub.insert(
            s.name.to_string(),
            json!({"evaluations": r.evaluations, "distinct_nontrivial": r.nontrivial.len(), "classes": r.classes, "wall_s": t0.elapsed().as_secs_f64()}),
        );
        println!("{id}/{}: {} cases, {} distinct non-trivial, {:.1} s", s.name, r.evaluations, r.nontrivial.len(), t0.elapsed().as_secs_f64());
        for (k, v) in &r.classes {
            println!("    {k}: {v}");
        }
        if let Some((msg, case)) = r.failure {
            if msg.contains(HARNESS) {
                error = Some(msg);
            } else {
                failures.push((s.name, msg, case));
            }
        }
    }

    let root = std::env::var("PV_ROOT").unwrap_or_else(|_| "/verif".into());
    std::fs::create_dir_all(format!("{root}/evidence")).expect("evidence directory");
    let evidence = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": check.rule,
            "samples": samples,
            "sub_checks": per_sub,
        },
        "assumptions": ["inputs are finite numbers within the generated ranges; see DESIGN.md"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    std::fs::write(
        format!("{root}/evidence/{id}.json"),
        serde_json::to_string_pretty(&evidence).expect("json"),
    )
    .expect("write evidence");

    if !failures.is_empty() {
        std::fs::create_dir_all(format!("{root}/replays")).expect("replays directory");
        for (name, msg, case) in &failures {
            let path = format!("{root}/replays/{id}-{name}.json");
            let case: serde_json::Value = serde_json::from_str(case).unwrap_or(serde_json::Value::Null);
            let v = json!({"property": id, "sub": name, "seed": seed, "message": msg, "case": case});
            std::fs::write(&path, serde_json::to_string_pretty(&v).expect("json")).expect("write replay");
            println!("{id}/{name}: {}", safe_prefix(msg, 1500));
            println!("VIOLATION property={id} replay={path}");
        }
        leave(1);
    }
    if let Some(e) = error {
        println!("ERROR: {e}");
        leave(2);
    }
    println!("{id}: held on {evaluations} cases ({nontrivial} distinct non-trivial)");
    leave(0);
}
