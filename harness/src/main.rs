mod count;
mod engine;
mod exact;
mod gens;
mod props;
mod tape;

use engine::*;

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {:?}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>());
            }
            0
        }
        Some("check") => check(&args[2..], &dir),
        Some("replay") => {
            // with as much stack as the check's own threads have
            let path = args[2].clone();
            let t = std::thread::Builder::new().stack_size(STACK).spawn(move || replay(&path));
            t.expect("spawn").join().unwrap_or(2)
        }
        _ => {
            eprintln!("usage: harness list | check ID [SUB] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn check(args: &[String], dir: &str) -> i32 {
    let Some(prop) = props::all().into_iter().find(|p| p.id == args[0]) else {
        eprintln!("no such property: {}", args[0]);
        return 2;
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).min(16));
    // The counts in `props` are for about equal coverage; the quick tier of a
    // property whose cases are cheap has time for more of them.
    let boost = match (tier, prop.id) {
        (Tier::Thorough, _) => 1.0,
        (_, "C07" | "C08" | "C25" | "C06") => 15.0,
        (_, "C09" | "C10" | "C04" | "C05" | "C24" | "C27") => 10.0,
        (_, "C21" | "C23" | "C28" | "C31") => 6.0,
        (_, "C01" | "C20" | "C22" | "C26") => 4.0,
        (_, "C03" | "C15" | "C19") => 3.0,
        (_, "C17" | "C18") => 2.0,
        (_, "C11" | "C16" | "C30") => 1.5,
        _ => 1.0,
    };
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(boost);
    let ctx = RunCtx { prop: prop.id, tier, seed, threads, scale };
    if let Ok(tmp) = std::env::var("HARNESS_TMP") {
        watch(format!("{}/hung.json", tmp));
        return run_check(&prop, &ctx, args.get(1).map(|s| s.as_str()), dir);
    }
    supervise(&prop, &ctx, args, dir)
}

const PLAIN: &str = "the check fails on this case";

/// Run the check in a process of its own, so that code under test that does not
/// return, overflows the stack or aborts is reported like any other failure.
fn supervise(prop: &Prop, ctx: &RunCtx, args: &[String], dir: &str) -> i32 {
    let start = std::time::Instant::now();
    let tmp = std::env::temp_dir().join(format!("magog-harness-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&tmp) {
        eprintln!("cannot make {}: {}", tmp.display(), e);
        return 2;
    }
    let me = std::env::current_exe().expect("current exe");
    let run = |trace: bool| {
        let mut c = std::process::Command::new(&me);
        c.arg("check").args(args).env("HARNESS_TMP", &tmp);
        if trace {
            c.env("HARNESS_TRACE", &tmp).stdout(std::process::Stdio::null());
        }
        c.status().map(|s| s.code())
    };
    // A case as recorded in a file of the child.
    let load = |f: &std::path::Path| -> Option<(String, serde_json::Value)> {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).ok()?).ok()?;
        Some((v["sub"].as_str()?.to_string(), v["case"].clone()))
    };
    // Does this case fail on its own, and how? In a process of its own.
    let fails = |sub: &str, case: &serde_json::Value, secs: u64| -> Option<String> {
        let f = tmp.join("try.json");
        let v = serde_json::json!({"property": prop.id, "sub": sub, "case": case});
        std::fs::write(&f, v.to_string()).ok()?;
        // CPU time, so that a loaded machine does not make a case look hung.
        let mut p = std::process::Command::new("/bin/sh")
            .arg("-c")
            .arg(format!("ulimit -t {}; ulimit -c 0; exec \"$0\" replay \"$1\"", secs))
            .arg(&me)
            .arg(&f)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .ok()?;
        let t0 = std::time::Instant::now();
        loop {
            match p.try_wait() {
                Ok(Some(s)) => {
                    return match s.code() {
                        Some(0) | Some(2) => None,
                        Some(1) => Some(PLAIN.into()),
                        _ => {
                            use std::os::unix::process::ExitStatusExt;
                            Some(match s.signal() {
                                // CPU limit: SIGXCPU, then SIGKILL
                                Some(24) | Some(9) => format!("no return within {} s of CPU time", secs),
                                _ => format!("the process ended with {}", s),
                            })
                        }
                    }
                }
                Ok(None) if t0.elapsed().as_secs() >= 10 * secs => {
                    let _ = p.kill();
                    let _ = p.wait();
                    return None; // starved or blocked: no verdict
                }
                _ => std::thread::sleep(std::time::Duration::from_millis(2)),
            }
        }
    };
    let code = match run(false) {
        Ok(Some(c @ 0..=2)) => c,
        Ok(Some(101)) | Err(_) => 2,
        Ok(code) => {
            let hung = code == Some(HUNG);
            let mut found = Vec::new();
            if hung {
                found.extend(load(&tmp.join("hung.json")));
            } else {
                eprintln!("the check ended abnormally ({:?}): retracing", code);
                let _ = run(true);
                if let Ok(d) = std::fs::read_dir(&tmp) {
                    found.extend(d.flatten().filter_map(|e| load(&e.path())));
                }
            }
            let secs = if hung { 20 } else { 60 };
            let mut hits: Vec<_> = found
                .into_iter()
                .filter_map(|(sub, case)| {
                    let how = fails(&sub, &case, secs)?;
                    Some((sub, case, how))
                })
                .collect();
            hits.sort_by_key(|h| h.2 == PLAIN);
            let hit = hits.into_iter().next();
            match hit {
                None => {
                    eprintln!("abnormal end ({:?}) that no single case reproduces: no verdict", code);
                    2
                }
                Some((sub, case, how)) => {
                    // Smaller cases get less time; a hanging one costs that much to confirm.
                    let (case, how) = shrink_json(case, how, std::time::Duration::from_secs(60), &mut |c| {
                        fails(&sub, c, if hung { 5 } else { 20 }).filter(|h| h != PLAIN)
                    });
                    let msg = format!("code under test crashed or hung: {}", how);
                    let how = format!("seed {}, found by running in a separate process, shrunk", ctx.seed);
                    let samples = vec![serde_json::json!({"sub": sub, "failing case": case})];
                    write_evidence(prop, ctx, dir, 1, 1, samples, Default::default(), true, start);
                    report(prop, dir, &Failure { sub, case, msg, how })
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

/// Greedy structural shrinking of a case in its JSON form: drop list elements
/// and halves of strings as long as the case still fails.
fn shrink_json(
    mut case: serde_json::Value,
    mut how: String,
    budget: std::time::Duration,
    fails: &mut dyn FnMut(&serde_json::Value) -> Option<String>,
) -> (serde_json::Value, String) {
    use serde_json::Value;
    let t0 = std::time::Instant::now();
    /// Every way to make the value smaller in one place, biggest first.
    fn smaller(v: &Value) -> Vec<Value> {
        let mut out = Vec::new();
        match v {
            Value::Array(a) => {
                let mut step = a.len() / 2;
                while step >= 1 {
                    let mut at = 0;
                    while at < a.len() {
                        let mut b = a.clone();
                        b.drain(at..(at + step).min(a.len()));
                        out.push(Value::Array(b));
                        at += step;
                    }
                    step /= 2;
                }
                if a.len() == 1 {
                    out.push(Value::Array(vec![]));
                }
                for (i, x) in a.iter().enumerate().take(20) {
                    for y in smaller(x) {
                        let mut b = a.clone();
                        b[i] = y;
                        out.push(Value::Array(b));
                    }
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    for y in smaller(x) {
                        let mut n = m.clone();
                        n.insert(k.clone(), y);
                        out.push(Value::Object(n));
                    }
                }
            }
            Value::String(s) => {
                let c: Vec<char> = s.chars().collect();
                let mut step = c.len() / 2;
                while step >= 1 && out.len() < 200 {
                    let mut at = 0;
                    while at < c.len() && out.len() < 200 {
                        let mut b = c.clone();
                        b.drain(at..(at + step).min(c.len()));
                        out.push(Value::String(b.into_iter().collect()));
                        at += step;
                    }
                    step /= 2;
                }
            }
            _ => {}
        }
        out
    }
    'again: while t0.elapsed() < budget {
        for c in smaller(&case) {
            if t0.elapsed() > budget {
                break 'again;
            }
            if let Some(h) = fails(&c) {
                case = c;
                how = h;
                continue 'again;
            }
        }
        break;
    }
    (case, how)
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(path)
        .map_err(|e| e.to_string())
        .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
    {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let (id, sub) = (v["property"].as_str().unwrap_or(""), v["sub"].as_str().unwrap_or(""));
    for p in props::all() {
        if p.id == id {
            for s in &p.subs {
                if s.name == sub {
                    let r = (s.replay)(&v["case"]);
                    return match r {
                        Ok(_) if HARNESS_BUG.load(std::sync::atomic::Ordering::SeqCst) => 2,
                        Ok(o) => {
                            println!("holds on this case: {:?}", o);
                            0
                        }
                        Err(_) if HARNESS_BUG.load(std::sync::atomic::Ordering::SeqCst) => 2,
                        Err(m) => {
                            println!("{}: {}", id, m);
                            println!("VIOLATION property={} replay={}", id, path);
                            1
                        }
                    };
                }
            }
        }
    }
    eprintln!("unknown property/sub-check in {}", path);
    2
}
