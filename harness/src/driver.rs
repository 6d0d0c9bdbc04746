//! The program around the checks: command line, child process, watchdog, saved cases.
use crate::run::*;

/// cases that once failed, replayed before any search
fn regressions(cx: &mut Ctx, run_check: fn(&mut Ctx)) {
    let dir = format!("{}/regressions", cx.root);
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let mut n = 0;
    for f in files {
        let Some(j) = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) else { continue };
        let judges = j["properties"].as_array().map_or(false, |a| a.iter().any(|p| p.as_str() == Some(&cx.prop)));
        if !judges {
            continue;
        }
        cx.mode = Mode::Replay { sub: j["sub"].as_str().unwrap_or("").to_string(), case: j["case"].clone() };
        cx.replayed = None;
        run_check(cx);
        n += 1;
        match cx.replayed.take() {
            Some(Err(m)) => {
                println!("failure in {} [saved case]: {}", cx.prop, m);
                println!("VIOLATION property={} replay={}", cx.prop, f.display());
                cx.violations.push(("saved case".into(), f.display().to_string()));
            }
            Some(Ok(())) => {}
            None => panic!("saved case {} fits no part of {}", f.display(), cx.prop),
        }
    }
    cx.mode = Mode::Explore;
    cx.rule.clear();
    cx.assumptions.clear();
    cx.exhaustive.clear();
    cx.regressions = n;
}

/// Run this program again as the child that does the work. If a signal ends it (a stray pointer, an
/// endless recursion), find the case that does so: run again writing down every case first, then each
/// of the cases that were running when it died.
fn parent(args: &[String], root: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let me = std::env::current_exe().expect("own path");
    let run = |a: &[String], trace: Option<&str>| {
        let mut c = std::process::Command::new(&me);
        c.args(a).env("VH_CHILD", "1");
        match trace {
            Some(d) => c.env("VH_TRACE", d).stdout(std::process::Stdio::null()),
            None => c.env_remove("VH_TRACE"),
        };
        c.status().expect("cannot run the child process")
    };
    let died = |s: &std::process::ExitStatus| matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11));
    let s = run(&args[1..], None);
    if !died(&s) {
        return s.code().unwrap_or(5);
    }
    eprintln!("the check was ended by signal {:?}; looking for the case", s.signal());
    if args[1] == "replay" {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        println!("failure in {}: the process was killed by a signal", j["property"].as_str().unwrap());
        println!("VIOLATION property={} replay={}", j["property"].as_str().unwrap(), args[2]);
        return 1;
    }
    let prop = args[2].clone();
    let dir = format!("{}/work-{}", root, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut found = None;
    for _ in 0..3 {
        let _ = run(&args[1..], Some(&dir));
        let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
        files.sort_by_key(|f| std::fs::metadata(f).map(|m| m.len()).unwrap_or(0));
        for f in files {
            let ok = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok());
            if let Some(j) = ok {
                if found.is_none() && died(&run(&["replay".into(), f.display().to_string()], None)) {
                    found = Some(j);
                }
            }
            let _ = std::fs::remove_file(&f);
        }
        if found.is_some() {
            break;
        }
    }
    let _ = std::fs::remove_dir(&dir);
    match found {
        Some(j) => {
            let p = replay_path(root, &prop, j["sub"].as_str().unwrap_or(""));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
            println!("failure in {} [{}]: the process was killed by a signal", prop, j["sub"]);
            println!("VIOLATION property={} replay={}", prop, p);
            1
        }
        None => {
            eprintln!("no single case ends the process");
            5
        }
    }
}

pub fn main(run_check: fn(&mut Ctx), level: fn(&str) -> &'static str) {
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let root = env("VH_ROOT").unwrap_or_else(|| "/verif".into());
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = env("VERIF_TIER").as_deref() == Some("thorough") || args.iter().any(|a| a == "--thorough");
    // The checks run in a child process, so that code that kills its process is still judged.
    if env("VH_CHILD").is_none() {
        std::process::exit(parent(&args, &root));
    }
    let (prop, mode) = match args.get(1).map(|s| s.as_str()) {
        Some("check") => (args[2].clone(), Mode::Explore),
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("cannot read replay file");
            let j: serde_json::Value = serde_json::from_str(&t).expect("replay file is not JSON");
            (
                j["property"].as_str().expect("property").to_string(),
                Mode::Replay { sub: j["sub"].as_str().expect("sub").to_string(), case: j["case"].clone() },
            )
        }
        _ => {
            eprintln!("usage: vh check <property> [--thorough] | vh replay <file>");
            std::process::exit(2);
        }
    };
    // panics are caught and judged by the checks; keep the output readable
    std::panic::set_hook(Box::new(|_| {}));
    // a run that takes this long gives no answer rather than a wrong one
    let limit = if thorough { 6 * 3600 } else { 800 };
    let replay_file = match mode {
        Mode::Replay { .. } => Some(args[2].clone()),
        _ => None,
    };
    let (root2, prop2) = (root.clone(), prop.clone());
    std::thread::spawn(move || {
        for _ in 0..limit {
            std::thread::sleep(std::time::Duration::from_secs(1));
            if let Some(j) = hanging() {
                let path = replay_file.unwrap_or_else(|| {
                    let p = replay_path(&root2, &prop2, j["sub"].as_str().unwrap_or(""));
                    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
                    p
                });
                println!("failure in {} [{}]: {}", prop2, j["sub"], j["message"]);
                println!("VIOLATION property={} replay={}", prop2, path);
                std::process::exit(1);
            }
        }
        eprintln!("watchdog: no verdict after {} s", limit);
        std::process::exit(3);
    });
    let replay = matches!(mode, Mode::Replay { .. });
    let mut cx = Ctx {
        prop: prop.clone(),
        seed,
        thorough,
        mode,
        root,
        threads: env("VH_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
        start: std::time::Instant::now(),
        evals: 0,
        nontrivial: Default::default(),
        classes: Default::default(),
        samples: vec![],
        subs: vec![],
        violations: vec![],
        rule: vec![],
        assumptions: vec![],
        exhaustive: vec![],
        replayed: None,
        regressions: 0,
    };
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if !replay {
            regressions(&mut cx, run_check);
        }
        run_check(&mut cx)
    }));
    if let Err(p) = done {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("the check itself failed: {}", m);
        std::process::exit(4);
    }
    if replay {
        match cx.replayed {
            None => {
                eprintln!("the check has no part of that name");
                std::process::exit(2);
            }
            Some(Ok(())) => {
                println!("the recorded case passes");
                std::process::exit(0);
            }
            Some(Err(m)) => {
                println!("failure in {}: {}", prop, m);
                println!("VIOLATION property={} replay={}", prop, args[2]);
                std::process::exit(1);
            }
        }
    }
    cx.evidence(level(&prop));
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        prop,
        cx.evals,
        cx.nontrivial.len(),
        cx.violations.len(),
        cx.start.elapsed().as_secs_f64()
    );
    std::process::exit(if cx.violations.is_empty() { 0 } else { 1 });
}
