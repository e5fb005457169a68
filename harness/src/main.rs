mod alloc;
mod core;
mod elem;
mod oracle;
mod plan;
mod props;
mod runner;
mod sched;
mod signal;

use runner::*;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[cfg(not(feature = "asan"))]
#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;

#[cfg(feature = "asan")]
extern "C" {
    fn __asan_set_death_callback(cb: extern "C" fn());
}

/// dispatch on the property id
macro_rules! on_prop {
    ($id:expr, $p:ident => $e:expr) => {{
        use props::*;
        let id: &str = $id;
        match id {
            "C08" => { let $p = &calls::Agree; $e }
            "C09" => { let $p = &calls::Batches; $e }
            "C10" => { let $p = &calls::Fills; $e }
            "C11" => { let $p = &calls::Memory; $e }
            "C12" => { let $p = &calls::Sizes; $e }
            "C13" => { let $p = &calls::Scratch; $e }
            "C14" => { let $p = &calls::Inner; $e }
            "C15" => { let $p = &algebra::Algebra; $e }
            "C16" => { let $p = &state::State; $e }
            "C17" => { let $p = &misc::Construct; $e }
            "C19" => { let $p = &misc::Generic; $e }
            "C20" => { let $p = &misc::Cost; $e }
            "C24" => { let $p = &misc::NonFinite; $e }
            "C25" => { let $p = &misc::Modest; $e }
            "C23" => { let $p = &mem::Mem; $e }
            "C22" => { let $p = &algebra::Pairs; $e }
            other => {
                let all = correct::all();
                let $p = all.iter().find(|p| p.id() == other).unwrap_or_else(|| panic!("unknown property {}", other));
                $e
            }
        }
    }};
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// Run one case in a child process. None = timed out.
fn run_one(exe: &str, id: &str, case: &str, limit: Duration) -> Option<(i32, String)> {
    let dir = std::env::temp_dir();
    let f = dir.join(format!("dhtcheck-one-{}-{}.json", std::process::id(), id));
    std::fs::write(&f, case).unwrap();
    let mut ch = Command::new(exe).args(["one", id, f.to_str().unwrap()]).env("ASAN_OPTIONS", ASAN).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(3)),
        }
    };
    let mut out = String::new();
    if let Some(mut o) = ch.stdout.take() {
        use std::io::Read;
        let _ = o.read_to_string(&mut out);
    }
    let _ = std::fs::remove_file(&f);
    st.map(|s| (s.code().unwrap_or(99), out))
}
const ASAN: &str = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0";

fn describe(code: i32) -> &'static str {
    match code {
        97 => "the library did not return",
        98 => "the process aborted inside the library",
        _ => "the process crashed (memory error) inside the library",
    }
}

/// The worker died: find the case, minimise it out of process, report.
fn crashed(exe: &str, id: &str, code: i32, crash_file: &str, evidence: &str, tier: &str, seed: u64, wall: f64) -> i32 {
    let limit = Duration::from_secs(if code == 97 { 60 } else { 60 });
    let text = std::fs::read_to_string(crash_file).unwrap_or_default();
    let cases: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let bad = |case: &str, limit: Duration| -> Option<String> {
        match run_one(exe, id, case, limit) {
            None => Some(describe(97).into()),
            Some((0, _)) => None,
            Some((1, o)) => Some(o.trim().to_string()),
            Some((c @ 97..=99, _)) => Some(describe(c).into()),
            Some(_) => None,
        }
    };
    let mut found = None;
    for c in &cases {
        if let Some(m) = bad(c, limit) {
            found = Some((c.to_string(), m));
            break;
        }
    }
    let (mut best, mut msg) = match found {
        Some(x) => x,
        None if code == 99 && !cases.is_empty() => (cases[0].to_string(), format!("{} (seen once, not on re-run)", describe(99))),
        None => {
            eprintln!("worker for {} ended with {} and the failure could not be reproduced", id, code);
            return 2;
        }
    };
    let t0 = Instant::now();
    'outer: loop {
        for s in on_prop!(id, p => candidates(p, &best)) {
            if t0.elapsed() > Duration::from_secs(60) {
                break 'outer;
            }
            if let Some(m) = bad(&s, Duration::from_secs(if code == 97 { 5 } else { 20 })) {
                best = s;
                msg = m;
                continue 'outer;
            }
        }
        break;
    }
    let path = write_replay(id, &best, &msg);
    let ev = serde_json::json!({"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall + t0.elapsed().as_secs_f64(), "violations": 1,
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "worker process died; the case it was running, minimised out of process", "samples": [serde_json::from_str::<serde_json::Value>(&best).unwrap()]}});
    let _ = std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap());
    println!("property {} violated: {}", id, msg);
    println!("minimal case: {}", best);
    println!("VIOLATION property={} replay={}", id, path.display());
    1
}

fn parent(id: &str, args: &[String]) -> i32 {
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    // (name, executable, percentage of the random cases, take every k-th enumerated case)
    let mut stages: Vec<(String, String, String, String)> = vec![("debug-assertions".into(), me, "100".into(), "1".into())];
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--also" {
            stages.push((args[i + 1].clone(), args[i + 2].clone(), args[i + 3].clone(), args[i + 4].clone()));
            i += 4;
        }
        i += 1;
    }
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    let final_ev = evdir.join(format!("{}.json", id));
    let t0 = Instant::now();
    let mut evs = vec![];
    for (k, (name, exe, scale, thin)) in stages.iter().enumerate() {
        let tmp = std::env::temp_dir().join(format!("dhtcheck-{}-{}-{}", std::process::id(), id, k));
        let crash = format!("{}.crash", tmp.display());
        let ev = format!("{}.ev", tmp.display());
        let st = Command::new(exe)
            .args(["worker", id, "--tier", &tier, "--seed", &seed.to_string(), "--scale", scale, "--thin", thin, "--crash", &crash, "--evidence", &ev])
            .env("ASAN_OPTIONS", ASAN)
            .status()
            .expect("worker");
        let code = st.code().unwrap_or(-1);
        let rc = match code {
            0 => 0,
            1 => 1,
            97..=99 => crashed(exe, id, code, &crash, &ev, &tier, seed, t0.elapsed().as_secs_f64()),
            c => {
                eprintln!("worker for {} ({}) ended abnormally: {} {:?}", id, name, c, st);
                2
            }
        };
        if let Ok(t) = std::fs::read_to_string(&ev) {
            if let Ok(mut v) = serde_json::from_str::<serde_json::Value>(&t) {
                v["stage"] = name.as_str().into();
                evs.push(v);
            }
        }
        let _ = std::fs::remove_file(&crash);
        let _ = std::fs::remove_file(&ev);
        if rc != 0 || k + 1 == stages.len() {
            if !evs.is_empty() {
                let mut e = evs[0].clone();
                if evs.len() > 1 {
                    for key in ["evaluations", "library_calls"] {
                        let s: u64 = evs.iter().filter_map(|v| v["coverage"][key].as_u64()).sum();
                        e["coverage"][key] = s.into();
                    }
                    e["coverage"]["stages"] = evs.iter().map(|v| serde_json::json!({"stage": v["stage"], "evaluations": v["coverage"]["evaluations"], "distinct_nontrivial": v["coverage"]["distinct_nontrivial"], "wall_s": v["wall_s"]})).collect();
                    e["violations"] = evs.iter().filter_map(|v| v["violations"].as_u64()).sum::<u64>().into();
                }
                e["wall_s"] = t0.elapsed().as_secs_f64().into();
                e.as_object_mut().unwrap().remove("stage");
                std::fs::write(&final_ev, serde_json::to_string_pretty(&e).unwrap()).unwrap();
            }
            return rc;
        }
    }
    0
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("DHT_VERBOSE").is_some() {
            eprintln!("{}", i);
        }
    }));
    #[cfg(feature = "asan")]
    unsafe {
        __asan_set_death_callback(dump_cases);
    }
    let args: Vec<String> = std::env::args().collect();
    let (cmd, id) = (args.get(1).map(|s| s.as_str()).unwrap_or(""), args.get(2).cloned().unwrap_or_default());
    let rc = match cmd {
        "run" => parent(&id, &args),
        "worker" => {
            let o = RunOpts {
                tier: if arg(&args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
                seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                threads: std::env::var("DHT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
                scale: arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(100),
                thin: arg(&args, "--thin").and_then(|s| s.parse().ok()).unwrap_or(1),
                evidence: arg(&args, "--evidence"),
            };
            if let Some(c) = arg(&args, "--crash") {
                install_crash_handler(&c);
            }
            // a runaway allocation must end this process, not the machine's biggest one
            #[cfg(not(feature = "asan"))]
            unsafe {
                let l = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
            }
            start_watchdog(if o.tier == Tier::Quick { 120 } else { 400 });
            if on_prop!(&id, p => run(p, &o)) { 0 } else { 1 }
        }
        "one" | "replay" => {
            let text = std::fs::read_to_string(&args[3]).expect("case file");
            if cmd == "one" {
                install_crash_handler("/dev/null");
            }
            match on_prop!(&id, p => replay(p, &text)) {
                Ok(_) => {
                    if cmd == "replay" {
                        println!("property {} holds on this case", id);
                    }
                    0
                }
                Err(m) => {
                    println!("{}", m);
                    if cmd == "replay" {
                        println!("VIOLATION property={} replay={}", id, args[3]);
                    }
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: dhtcheck run|worker|one|replay ID ...");
            2
        }
    };
    std::process::exit(rc);
}
