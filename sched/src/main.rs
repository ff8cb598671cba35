//! Explores all schedules (up to a number of preemptions) of threads that ask for type descriptors.

mod control;
mod kinds;

use control::{End, Step};
use kinds::{check, descriptor, KINDS, MAY_PANIC};
use mirror_mirror::TypeDescriptor;
use std::borrow::Cow;
use std::collections::HashSet;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
    fn poll(fds: *mut [u8; 8], n: u64, timeout: i32) -> i32;
}

/// What each thread asks for, in order.
type Scenario = Vec<Vec<u8>>;

fn show(s: &Scenario) -> String {
    s.iter()
        .map(|t| t.iter().map(|k| KINDS[*k as usize].0).collect::<Vec<_>>().join(", "))
        .collect::<Vec<_>>()
        .join(" | ")
}

/// Whether all that's cached stays after requests for many other types.
fn more(got: &[(u8, Cow<'static, TypeDescriptor>)], many: bool) -> Option<String> {
    if !many {
        return None;
    }
    let types = kinds::many();
    let first: Vec<_> = types.iter().map(|(_, f)| f()).collect();
    for _ in 0..2 {
        for ((name, f), first) in types.iter().zip(&first) {
            let d = f();
            if d.get_type().type_name() != *name {
                return Some(format!("{} where {name} is expected", d.get_type().type_name()));
            }
            if !std::ptr::eq::<TypeDescriptor>(&**first, &*d) {
                return Some(format!("another descriptor of {name} after those of {} other types", types.len()));
            }
        }
    }
    for (k, d) in got {
        if !std::ptr::eq::<TypeDescriptor>(&**d, &*descriptor(*k)) {
            return Some(format!("another descriptor of {} after those of {} other types", KINDS[*k as usize].0, types.len()));
        }
    }
    None
}

/// Runs in a process of its own. Returns what went wrong.
fn execute(scenario: &Scenario, prefix: &[u8], many: bool, patience: Duration) -> (Vec<Step>, Option<String>, bool) {
    type Got = (u8, Cow<'static, TypeDescriptor>);
    // kept, so that no two of them can be in the same place
    let got: Arc<Mutex<Vec<Got>>> = Arc::default();
    let failed: Arc<Mutex<Vec<String>>> = Arc::default();
    let ask = |kind: u8, got: &Mutex<Vec<Got>>, failed: &Mutex<Vec<String>>| {
        match std::panic::catch_unwind(|| descriptor(kind)) {
            Ok(d) => {
                if kind == 5 {
                    failed.lock().unwrap().push("NeverWorks has a descriptor".into());
                }
                if let Err(e) = check(kind, &d) {
                    failed.lock().unwrap().push(format!("descriptor of {}: {e}", KINDS[kind as usize].0));
                }
                got.lock().unwrap().push((kind, d));
            }
            Err(_) if MAY_PANIC.contains(&kind) => {}
            Err(e) => {
                let e = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                failed.lock().unwrap().push(format!("asking for {} panics: {e:?}", KINDS[kind as usize].0));
            }
        }
    };
    let bodies = scenario
        .iter()
        .map(|kinds| {
            let (kinds, got, failed) = (kinds.clone(), got.clone(), failed.clone());
            Box::new(move || {
                for k in kinds {
                    ask(k, &got, &failed);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let (steps, end, stuck) = control::run(bodies, prefix, patience);
    if let End::Deadlock(s) = end {
        return (steps, Some(format!("deadlock: {s}")), stuck);
    }
    // later requests, from another thread (on which nothing is controlled)
    let (g, f) = (got.clone(), failed.clone());
    let kinds: Vec<u8> = (0..KINDS.len() as u8).collect();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for _ in 0..2 {
            for k in &kinds {
                ask(*k, &g, &f);
            }
        }
        let _ = tx.send(());
    });
    if rx.recv_timeout(Duration::from_secs(20)).is_err() {
        return (steps, Some("deadlock: later requests don't return".into()), stuck);
    }
    if let Some(e) = failed.lock().unwrap().first() {
        return (steps, Some(e.clone()), stuck);
    }
    let got = got.lock().unwrap();
    for (k, d) in got.iter() {
        for (l, e) in got.iter() {
            let same = std::ptr::eq::<TypeDescriptor>(&**d, &**e);
            if same != (k == l) {
                let e = format!(
                    "requests for {} and {} got {} descriptor",
                    KINDS[*k as usize].0,
                    KINDS[*l as usize].0,
                    if same { "the same" } else { "another" }
                );
                return (steps, Some(e), stuck);
            }
        }
    }
    if let Some(e) = more(&got, many) {
        return (steps, Some(e), stuck);
    }
    // the second request for the one that panics once succeeds
    for k in 0..KINDS.len() as u8 {
        if k != 5 && !got.iter().any(|g| g.0 == k) {
            return (steps, Some(format!("{} never gets a descriptor", KINDS[k as usize].0)), stuck);
        }
    }
    (steps, None, stuck)
}

/// Runs it in a new process, since what's cached stays.
fn forked(scenario: &Scenario, prefix: &[u8], many: bool, patience: Duration) -> (Vec<Step>, Option<String>, bool) {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            close(fds[0]);
            std::panic::set_hook(Box::new(|_| {}));
            let (steps, error, stuck) = execute(scenario, prefix, many, patience);
            let mut out = vec![stuck as u8, error.is_some() as u8];
            out.extend((steps.len() as u32).to_le_bytes());
            for s in &steps {
                out.extend([s.enabled, s.chosen, s.local as u8]);
                out.extend(s.state.to_le_bytes());
            }
            out.extend(error.unwrap_or_default().into_bytes());
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&out);
            drop(f);
            _exit(0);
        }
        close(fds[1]);
        let mut buf = vec![];
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        // (POLLIN)
        let mut p = [0u8; 8];
        p[..4].copy_from_slice(&fds[0].to_le_bytes());
        p[4] = 1;
        let waited = poll(&mut p, 1, 60_000);
        if waited == 0 {
            kill(pid, 9);
        }
        let _ = f.read_to_end(&mut buf);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        if buf.len() < 6 {
            return (vec![], Some(format!("the process ended with status {status}")), false);
        }
        let n = u32::from_le_bytes(buf[2..6].try_into().unwrap()) as usize;
        let steps = (0..n)
            .map(|i| {
                let b = &buf[6 + i * 11..17 + i * 11];
                Step { enabled: b[0], chosen: b[1], local: b[2] != 0, state: u64::from_le_bytes(b[3..].try_into().unwrap()) }
            })
            .collect();
        let error = (buf[1] != 0).then(|| String::from_utf8_lossy(&buf[6 + n * 11..]).into_owned());
        (steps, error, buf[0] != 0)
    }
}

#[derive(Default)]
struct Report {
    states: u64,
    transitions: u64,
    schedules: u64,
    stuck: u64,
    diverged: u64,
    violation: Option<(Scenario, Vec<u8>, String)>,
    out_of_time: u64,
}

/// All schedules of a scenario with up to `bound` preemptions. Without a bound, all schedules, but
/// only one of those that just differ in the order of independent steps.
fn explore(scenario: &Scenario, bound: Option<usize>, r: &mut Report, patience: &mut Duration, until: Instant) {
    let mut states = HashSet::new();
    let mut expanded = HashSet::new();
    let mut todo: Vec<Vec<u8>> = vec![vec![]];
    while let Some(prefix) = todo.pop() {
        if Instant::now() > until {
            r.out_of_time += 1;
            break;
        }
        let (steps, error, stuck) = forked(scenario, &prefix, prefix.is_empty(), *patience);
        r.schedules += 1;
        r.transitions += steps.len() as u64;
        states.extend(steps.iter().map(|s| s.state));
        if stuck {
            r.stuck += 1;
            // something is used that isn't controlled, so this will happen again
            *patience = Duration::from_millis(25);
        }
        if let Some(e) = error {
            r.violation = Some((scenario.clone(), steps.iter().map(|s| s.chosen).collect(), e));
            break;
        }
        if !steps.iter().map(|s| s.chosen).take(prefix.len()).eq(prefix.iter().copied()) {
            r.diverged += 1;
            continue;
        }
        // how many preemptions there were before each step
        let mut before = vec![0];
        for i in 0..steps.len() {
            let p = i > 0 && steps[i].chosen != steps[i - 1].chosen && steps[i].enabled & (1 << steps[i - 1].chosen) != 0;
            before.push(before[i] + p as usize);
        }
        for i in prefix.len()..steps.len() {
            if bound.is_none() && !expanded.insert(steps[i].state) {
                break;
            }
            if bound.is_none() && steps[i].local {
                continue;
            }
            for t in 0..8u8 {
                if steps[i].enabled & (1 << t) == 0 || t == steps[i].chosen {
                    continue;
                }
                let preempts = i > 0 && t != steps[i - 1].chosen && steps[i].enabled & (1 << steps[i - 1].chosen) != 0;
                if bound.is_none_or(|b| before[i] + preempts as usize <= b) {
                    let mut p: Vec<u8> = steps[..i].iter().map(|s| s.chosen).collect();
                    p.push(t);
                    todo.push(p);
                }
            }
        }
    }
    r.states += states.len() as u64;
}

/// Multisets of `n` of `items`.
fn multisets(items: &[Vec<u8>], n: usize) -> Vec<Scenario> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for (i, x) in items.iter().enumerate() {
        for mut rest in multisets(&items[i..], n - 1) {
            rest.insert(0, x.clone());
            out.push(rest);
        }
    }
    out
}

fn scenarios(thorough: bool) -> Vec<(Scenario, Option<usize>)> {
    let one: Vec<Vec<u8>> = (0..KINDS.len() as u8).map(|k| vec![k]).collect();
    let mut two = vec![];
    for a in [0, 2, 4, 7, 9u8] {
        for b in [0, 1, 4, 8u8] {
            two.push(vec![a, b]);
        }
    }
    let few: Vec<Vec<u8>> = [0, 1, 2, 4, 6, 7u8].iter().map(|k| vec![*k]).collect();
    let hard = vec![vec![vec![0]; 3], vec![vec![0], vec![0], vec![1]], vec![vec![4]; 3], vec![vec![2], vec![0], vec![2]]];
    let mut out: Vec<(Scenario, Option<usize>)> = vec![];
    let mut add = |s: Vec<Scenario>, bound| out.extend(s.into_iter().map(|s| (s, bound)));
    if thorough {
        add(multisets(&one, 2), None);
        // (the one left out alone takes as long as the others together)
        add(multisets(&one[..10], 3).into_iter().filter(|s| s != &[[3], [3], [3]]).collect(), None);
        add(vec![vec![vec![3]; 3]], Some(2));
        add(multisets(&two, 2), None);
        add(multisets(&one, 2), Some(5));
        add(multisets(&few, 3), Some(2));
        add(multisets(&two, 2), Some(3));
        add(multisets(&[vec![0], vec![2], vec![4]], 4), Some(1));
    } else {
        add(multisets(&one, 2), None);
        add(hard.clone(), None);
        add(multisets(&one, 2), Some(3));
        add(multisets(&few, 3), Some(1));
        add(vec![vec![vec![10, 11], vec![11, 10]], vec![vec![11, 10, 0], vec![10]]], Some(3));
        add(multisets(&two[..8], 2), Some(2));
        add(hard, Some(2));
    }
    // the longest first
    out.sort_by_key(|(s, _)| std::cmp::Reverse(s.iter().flatten().map(|k| [1, 1, 6, 12, 2, 2, 8, 1, 1, 1, 1, 1][*k as usize]).sum::<i32>()));
    out
}

fn main() {
    #[cfg(mirror_mirror_model_check)]
    mirror_mirror::model_check::set_scheduler(control::lock_op);
    let args: Vec<String> = std::env::args().collect();
    let out = std::path::PathBuf::from(std::env::var("MMCHECK_OUT").unwrap_or_else(|_| "/verif".into()));
    let _ = std::fs::create_dir_all(out.join("evidence"));
    let _ = std::fs::create_dir_all(out.join("replays"));
    if args.get(1).map(|a| a == "--replay") == Some(true) {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        let get = |k: &str| j[k].clone();
        let scenario: Scenario = serde_json::from_value(get("scenario")).unwrap();
        let schedule: Vec<u8> = serde_json::from_value(get("schedule")).unwrap();
        let (_, error, _) = forked(&scenario, &schedule, true, Duration::from_secs(2));
        println!("{}: {}", show(&scenario), error.as_deref().unwrap_or("no violation"));
        std::process::exit(error.is_some() as i32);
    }
    let tier = args.get(1).map(|s| s.as_str()).unwrap_or("quick");
    let thorough = tier == "thorough";
    let start = Instant::now();
    let until = start + Duration::from_secs(if thorough { 780 } else { 240 });
    let all = scenarios(thorough);
    // in worker processes, since only a process with one thread can be forked safely
    const WORKERS: usize = 8;
    let mut pipes = vec![];
    for w in 0..WORKERS {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
            if fork() == 0 {
                let mut r = Report::default();
                let mut patience = Duration::from_secs(2);
                for (s, bound) in all.iter().skip(w).step_by(WORKERS) {
                    let b4 = r.schedules;
                    explore(s, *bound, &mut r, &mut patience, until);
                    if std::env::var("MMSCHED_VERBOSE").is_ok() {
                        eprintln!("{} {bound:?} {} {}", s.len(), r.schedules - b4, show(s));
                    }
                    if r.violation.is_some() {
                        break;
                    }
                }
                let j = serde_json::json!({
                    "states": r.states, "transitions": r.transitions, "schedules": r.schedules, "stuck": r.stuck,
                    "diverged": r.diverged, "out_of_time": r.out_of_time,
                    "violation": r.violation.map(|(s, p, e)| serde_json::json!({"scenario": s, "schedule": p, "error": e})),
                });
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(j.to_string().as_bytes());
                drop(f);
                _exit(0);
            }
            close(fds[1]);
            pipes.push(std::fs::File::from_raw_fd(fds[0]));
        }
    }
    let mut sum = [0u64; 6];
    let mut violations = vec![];
    for mut p in pipes {
        let mut s = String::new();
        let _ = p.read_to_string(&mut s);
        let Ok(j) = serde_json::from_str::<serde_json::Value>(&s) else {
            eprintln!("a worker failed");
            std::process::exit(2);
        };
        for (i, k) in ["states", "transitions", "schedules", "stuck", "diverged", "out_of_time"].iter().enumerate() {
            sum[i] += j[k].as_u64().unwrap();
        }
        if !j["violation"].is_null() {
            violations.push(j["violation"].clone());
        }
    }
    for (i, v) in violations.iter_mut().enumerate() {
        let scenario: Scenario = serde_json::from_value(v["scenario"].clone()).unwrap();
        v["property"] = "C15".into();
        v["threads"] = show(&scenario).into();
        let path = out.join("replays").join(format!("C15-{i}.json"));
        v["replay"] = format!("target/sched/debug/mmsched --replay {}", path.display()).into();
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("  {}\n    {}", show(&scenario), v["error"]);
        println!("VIOLATION property=C15 replay={}", path.display());
    }
    let wall = start.elapsed().as_secs_f64();
    let bounds = format!(
        "{} scenarios of 2 to {} threads asking for 1 or 2 descriptors each out of 12 (plain, generic, recursive, of the same name, asking for others, panicking), up to {} preemptions{}",
        all.len(),
        if thorough { 4 } else { 3 },
        if thorough { "12 (2 threads; practically all schedules), 3 (3 threads), 2 (more)" } else { "3 (2 threads), 2 or 1 (more)" },
        if sum[5] > 0 { format!("; {} scenarios not finished in time", sum[5]) } else { String::new() },
    );
    let j = serde_json::json!({
        "property": "C15", "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": sum[0], "transitions": sum[1], "traces_validated_against_impl": sum[2],
            "schedules": sum[2], "schedules_with_uncontrolled_blocking": sum[3], "diverged": sum[4],
            "controlled_locks": cfg!(mirror_mirror_model_check), "bounds": bounds,
            "samples": all.iter().step_by(all.len() / 5 + 1).map(|s| format!("{} with {} preemptions", show(&s.0), s.1.map_or("any number of".into(), |b| format!("up to {b}")))).collect::<Vec<_>>(),
        },
        "wall_s": wall, "violations": violations.len(),
    });
    let _ = std::fs::write(out.join("evidence").join("C15.json"), serde_json::to_string_pretty(&j).unwrap());
    println!(
        "C15 {tier}: {} states, {} transitions, {} schedules ({} uncontrolled, {} diverged, {} unfinished scenarios), {} violations, {wall:.1} s",
        sum[0], sum[1], sum[2], sum[3], sum[4], sum[5], violations.len()
    );
    std::process::exit(!violations.is_empty() as i32);
}
