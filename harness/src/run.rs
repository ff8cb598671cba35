//! Runs the cases of a check in parallel processes, catches everything that can go wrong in them
//! and writes the evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// for when many checks have to be run
    Brief,
    Quick,
    Thorough,
}

impl Tier {
    fn parse(s: &str) -> Self {
        match s {
            "thorough" => Tier::Thorough,
            "brief" => {
                crate::universe::NO_LONG.store(true, std::sync::atomic::Ordering::Relaxed);
                Tier::Brief
            }
            _ => Tier::Quick,
        }
    }

    /// A bound for this tier: what's in the middle for `Quick`.
    pub fn pick(self, brief: usize, thorough: usize) -> usize {
        match self {
            Tier::Brief => brief,
            Tier::Quick => ((brief * thorough) as f64).sqrt().round() as usize,
            Tier::Thorough => thorough,
        }
    }

    /// Puts the bounds of this tier in stead of every `brief (thorough)` in the text.
    fn bounds(self, text: &str) -> String {
        let digits = |s: &str| s.chars().take_while(char::is_ascii_digit).count();
        let mut out = String::new();
        let mut rest = text;
        while !rest.is_empty() {
            let n = digits(rest);
            if n == 0 {
                let len = rest.find(|c: char| c.is_ascii_digit()).unwrap_or(rest.len());
                out.push_str(&rest[..len]);
                rest = &rest[len..];
                continue;
            }
            let both = rest[n..].strip_prefix(" (").and_then(|after| {
                let after = after.strip_prefix("thorough ").unwrap_or(after);
                let m = digits(after);
                let end = after[m..].strip_prefix(')')?;
                Some((rest[..n].parse().ok()?, after[..m].parse().ok()?, end))
            });
            match both {
                Some((brief, thorough, end)) => {
                    out.push_str(&self.pick(brief, thorough).to_string());
                    rest = end;
                }
                None => {
                    out.push_str(&rest[..n]);
                    rest = &rest[n..];
                }
            }
        }
        out
    }
}

/// What a case covered.
#[derive(Default)]
pub struct Stats {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
}

pub fn hash64<X: Hash + ?Sized>(x: &X) -> u64 {
    // FNV, so that it's the same in all processes
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    x.hash(&mut f);
    f.finish()
}

impl Stats {
    /// A state of the model that was reached and compared with the code.
    pub fn state<X: Hash + ?Sized>(&mut self, x: &X) {
        self.states.insert(hash64(x));
    }
    /// Operations run on the code and on the model.
    pub fn tr(&mut self, n: usize) {
        self.transitions += n as u64;
    }
}

pub struct Ctx {
    pub tier: Tier,
    shard: usize,
    shards: usize,
    unit: usize,
    case: usize,
    unit_name: String,
    mode: Mode,
    progress: Option<std::fs::File>,
    pub stats: Stats,
    cases: u64,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    stop: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mode {
    Run,
    /// run only this unit and case
    Only(usize, usize),
    /// describe this case without running it
    Describe(usize, usize),
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let at = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}

/// Run, turning a panic into an error.
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let msg = PANIC.with(|p| p.borrow().clone());
        format!("panicked: {msg}")
    })
}

const MAX_VIOLATIONS: usize = 5;

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn pick(&self, brief: usize, thorough: usize) -> usize {
        self.tier.pick(brief, thorough)
    }

    /// A group of cases that run in the same process.
    pub fn unit(&mut self, name: &str, f: impl FnOnce(&mut Ctx)) {
        let unit = self.unit;
        self.unit += 1;
        self.case = 0;
        if self.stop {
            return;
        }
        let mine = match self.mode {
            Mode::Run => unit % self.shards == self.shard,
            Mode::Only(u, _) | Mode::Describe(u, _) => u == unit,
        };
        if !mine {
            return;
        }
        self.unit_name = name.to_owned();
        self.note(unit, 0);
        if let Err(e) = guarded(|| f(self)) {
            self.violation(format!("{name}"), e);
        }
    }

    fn note(&mut self, unit: usize, case: usize) {
        if let Some(p) = &mut self.progress {
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&(unit as u64).to_le_bytes());
            buf[8..].copy_from_slice(&(case as u64).to_le_bytes());
            use std::os::unix::fs::FileExt;
            let _ = p.write_all_at(&buf, 0);
        }
    }

    fn violation(&mut self, desc: String, error: String) {
        self.violations.push((desc, error));
        if self.violations.len() >= MAX_VIOLATIONS {
            self.stop = true;
        }
    }

    /// One execution of the code under test, compared with the model.
    pub fn case(
        &mut self,
        desc: impl Fn() -> String,
        body: impl FnOnce(&mut Stats) -> Result<(), String>,
    ) {
        self.case += 1;
        if self.stop {
            return;
        }
        let (unit, case) = (self.unit - 1, self.case);
        match self.mode {
            Mode::Run => {}
            Mode::Only(_, c) => {
                if c != 0 && c != case {
                    return;
                }
            }
            Mode::Describe(_, c) => {
                if c == case {
                    println!("{}: {}", self.unit_name, desc());
                    std::process::exit(0);
                }
                return;
            }
        }
        self.note(unit, case);
        self.cases += 1;
        let mut stats = std::mem::take(&mut self.stats);
        let result = guarded(|| body(&mut stats));
        self.stats = stats;
        self.stats.traces += 1;
        if self.samples.len() < 2 && (self.cases % 97 == 1) {
            let d = format!("{}: {}", self.unit_name, desc());
            self.samples.push(d.chars().take(400).collect());
        }
        if let Err(e) = result.and_then(|r| r) {
            self.violation(format!("{}: {}", self.unit_name, desc()), e);
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    /// what bounds the enumeration
    pub bounds: &'static str,
    /// run by the parent in addition: violations found by other means
    pub extra: Option<fn(Tier) -> Extra>,
}

#[derive(Default)]
pub struct Extra {
    pub stats: Stats,
    pub violations: Vec<(String, String)>,
    pub samples: Vec<String>,
}

fn out_dir() -> PathBuf {
    PathBuf::from(std::env::var("MMCHECK_OUT").unwrap_or_else(|_| "/verif".to_owned()))
}

pub fn child(check: &Check, args: &[String]) {
    // <tier> <mode> <a> <b> <dir>
    let tier = Tier::parse(&args[0]);
    let a: usize = args[2].parse().unwrap();
    let b: usize = args[3].parse().unwrap();
    let mode = match args[1].as_str() {
        "run" => Mode::Run,
        "only" => Mode::Only(a, b),
        "describe" => Mode::Describe(a, b),
        _ => panic!("mode"),
    };
    let dir = args.get(4).map(PathBuf::from);
    let mut ctx = Ctx {
        tier,
        shard: a,
        shards: b,
        unit: 0,
        case: 0,
        unit_name: String::new(),
        mode,
        progress: match (mode, &dir) {
            (Mode::Run, Some(d)) => Some(
                std::fs::OpenOptions::new()
                    .create(true)
                    .truncate(true)
                    .write(true)
                    .open(d.join(format!("progress{a}")))
                    .unwrap(),
            ),
            _ => None,
        },
        stats: Stats::default(),
        cases: 0,
        samples: vec![],
        violations: vec![],
        stop: false,
    };
    install_panic_hook();
    (check.run)(&mut ctx);
    match mode {
        Mode::Only(..) => {
            println!("{} cases, {} violations", ctx.cases, ctx.violations.len());
            for (d, e) in &ctx.violations {
                println!("{d}\n    {e}");
            }
            std::process::exit(if ctx.violations.is_empty() { 0 } else { 1 });
        }
        Mode::Describe(..) => std::process::exit(3),
        Mode::Run => {
            let d = dir.unwrap();
            let mut bytes = Vec::with_capacity(ctx.stats.states.len() * 8);
            for s in &ctx.stats.states {
                bytes.extend_from_slice(&s.to_le_bytes());
            }
            std::fs::write(d.join(format!("states{a}")), bytes).unwrap();
            let j = serde_json::json!({
                "transitions": ctx.stats.transitions,
                "traces": ctx.stats.traces,
                "units": ctx.unit,
                "cases": ctx.cases,
                "samples": ctx.samples,
                "violations": ctx.violations,
                "stopped": ctx.stop,
            });
            std::fs::write(d.join(format!("result{a}")), j.to_string()).unwrap();
        }
    }
}

fn read_progress(p: &Path) -> Option<(u64, u64)> {
    let b = std::fs::read(p).ok()?;
    if b.len() < 16 {
        return None;
    }
    Some((
        u64::from_le_bytes(b[..8].try_into().unwrap()),
        u64::from_le_bytes(b[8..16].try_into().unwrap()),
    ))
}

fn describe(id: &str, tier: &str, unit: u64, case: u64) -> String {
    let exe = std::env::current_exe().unwrap();
    let fallback = format!("unit {unit} case {case}");
    let out = std::process::Command::new("timeout")
        .arg("60")
        .arg(exe)
        .args(["--child", id, tier, "describe", &unit.to_string(), &case.to_string()])
        .stderr(std::process::Stdio::null())
        .output();
    match out {
        Ok(o) if o.status.code() == Some(0) => String::from_utf8_lossy(&o.stdout).trim().to_owned(),
        _ => fallback,
    }
}

pub fn parent(check: &Check, tier_s: &str) -> i32 {
    let start = Instant::now();
    let tier = Tier::parse(tier_s);
    let out = out_dir();
    let dir = std::env::temp_dir().join(format!("mmcheck-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let shards = std::env::var("MMCHECK_SHARDS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get().min(8)));
    let exe = std::env::current_exe().unwrap();
    let hang = Duration::from_secs(150);
    let mut kids: Vec<_> = (0..shards)
        .map(|i| {
            let c = std::process::Command::new("sh")
                .arg("-c")
                .arg("ulimit -v 3500000; ulimit -c 0; exec \"$@\"")
                .arg("sh")
                .arg(&exe)
                .args([
                    "--child",
                    check.id,
                    tier_s,
                    "run",
                    &i.to_string(),
                    &shards.to_string(),
                    dir.to_str().unwrap(),
                ])
                .stdout(std::process::Stdio::null())
                .stderr(std::fs::File::create(dir.join(format!("stderr{i}"))).unwrap())
                .spawn()
                .unwrap();
            (c, None::<(u64, u64)>, Instant::now(), None::<Result<(), String>>)
        })
        .collect();
    let extra = check.extra.map(|f| f(tier)).unwrap_or_default();
    loop {
        let mut running = false;
        for (i, (c, last, since, done)) in kids.iter_mut().enumerate() {
            if done.is_some() {
                continue;
            }
            if let Some(status) = c.try_wait().unwrap() {
                let ok = status.success() && dir.join(format!("result{i}")).exists();
                *done = Some(if ok { Ok(()) } else { Err(format!("ended with {status}")) });
                continue;
            }
            running = true;
            let p = read_progress(&dir.join(format!("progress{i}")));
            if p != *last {
                *last = p;
                *since = Instant::now();
            } else if since.elapsed() > hang {
                let _ = c.kill();
                let _ = c.wait();
                *done = Some(Err("did not finish".to_owned()));
            }
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let mut states: HashSet<u64> = extra.stats.states;
    let mut transitions = extra.stats.transitions;
    let mut traces = extra.stats.traces;
    let mut units = 0;
    let mut samples: Vec<String> = extra.samples;
    // (description, error, unit, case)
    let mut violations: Vec<(String, String, String)> = extra
        .violations
        .into_iter()
        .map(|(d, e)| (d, e, String::new()))
        .collect();
    let mut exhaustive = true;
    for (i, (_, _, _, done)) in kids.iter().enumerate() {
        match done.as_ref().unwrap() {
            Ok(()) => {
                let j: serde_json::Value = serde_json::from_slice(
                    &std::fs::read(dir.join(format!("result{i}"))).unwrap(),
                )
                .unwrap();
                transitions += j["transitions"].as_u64().unwrap();
                traces += j["traces"].as_u64().unwrap();
                units = j["units"].as_u64().unwrap();
                if j["stopped"].as_bool().unwrap() {
                    exhaustive = false;
                }
                for s in j["samples"].as_array().unwrap() {
                    if samples.len() < 8 {
                        samples.push(s.as_str().unwrap().to_owned());
                    }
                }
                for v in j["violations"].as_array().unwrap() {
                    violations.push((
                        v[0].as_str().unwrap().to_owned(),
                        v[1].as_str().unwrap().to_owned(),
                        String::new(),
                    ));
                }
                let b = std::fs::read(dir.join(format!("states{i}"))).unwrap();
                states.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            Err(e) => {
                exhaustive = false;
                let err = std::fs::read_to_string(dir.join(format!("stderr{i}"))).unwrap_or_default();
                let err: String = err.chars().take(500).collect();
                let (d, replay) = match read_progress(&dir.join(format!("progress{i}"))) {
                    Some((u, c)) => (
                        describe(check.id, tier_s, u, c),
                        format!("--child {} {tier_s} only {u} {c}", check.id),
                    ),
                    None => ("before the first case".to_owned(), String::new()),
                };
                violations.push((d, format!("{e}: {}", err.trim()), replay));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    finish(
        check.id,
        tier_s,
        start,
        Outcome {
            states: states.len() as u64,
            transitions,
            traces,
            units,
            samples,
            violations,
            exhaustive,
            bounds: tier.bounds(check.bounds),
            assumptions: vec![
                "the reference model in harness/src/model.rs says what the documentation means".to_owned(),
                format!("bounds: {}", tier.bounds(check.bounds)),
            ],
        },
        &out,
    )
}

pub struct Outcome {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub units: u64,
    pub samples: Vec<String>,
    /// description, error, how to replay
    pub violations: Vec<(String, String, String)>,
    pub exhaustive: bool,
    pub bounds: String,
    pub assumptions: Vec<String>,
}

pub fn finish(id: &str, tier: &str, start: Instant, o: Outcome, out: &Path) -> i32 {
    // known findings
    let known: Vec<(String, String)> = std::fs::read_to_string(out.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, what) = l.split_once(' ')?;
            (p == id).then(|| {
                let (key, text) = what.split_once(" :: ").unwrap_or((what, what));
                (key.trim().to_owned(), text.trim().to_owned())
            })
        })
        .collect();
    let mut fresh = vec![];
    let mut hit = BTreeSet::new();
    for v in &o.violations {
        match known.iter().find(|(k, _)| *k == v.0) {
            Some(k) => {
                hit.insert(k.clone());
            }
            None => fresh.push(v.clone()),
        }
    }
    for (k, text) in &hit {
        println!("KNOWN-FINDING: property={id} {k}: {text}");
    }
    let _ = std::fs::create_dir_all(out.join("replays"));
    let mut seen = BTreeMap::new();
    for (i, (d, e, how)) in fresh.iter().enumerate() {
        if seen.len() >= 20 || seen.insert(d.clone(), ()).is_some() {
            continue;
        }
        let path = out.join("replays").join(format!("{id}-{i}.json"));
        let j = serde_json::json!({
            "property": id, "tier": tier, "case": d, "error": e, "replay": how,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        let short = |s: &str| s.chars().take(600).collect::<String>().replace('\n', "\\n");
        println!("  {}", short(d));
        println!("    {}", short(e));
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let j = serde_json::json!({
        "property": id,
        "tier": tier.replace("brief", "quick"),
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": o.states,
            "transitions": o.transitions,
            "traces_validated_against_impl": o.traces,
            "units": o.units,
            "samples": o.samples,
            "exhaustive": o.exhaustive && fresh.is_empty(),
            "bounds": o.bounds,
            "known_findings": hit.iter().map(|(k, _)| k.clone()).collect::<Vec<_>>(),
        },
        "assumptions": o.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": fresh.len(),
    });
    let _ = std::fs::create_dir_all(out.join("evidence"));
    std::fs::write(
        out.join("evidence").join(format!("{id}.json")),
        serde_json::to_string_pretty(&j).unwrap(),
    )
    .unwrap();
    println!(
        "{id} {tier}: {} states, {} transitions, {} traces, {} violations, {:.1} s",
        o.states,
        o.transitions,
        o.traces,
        fresh.len(),
        start.elapsed().as_secs_f64()
    );
    if fresh.is_empty() {
        0
    } else {
        1
    }
}
