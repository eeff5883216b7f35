//! Exhaustive exploration: families of cases, worker processes, crash and hang attribution, evidence.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

/// A finite space of executions `0..count`; `run` decodes an index, executes it and checks it.
pub struct Family {
    pub name: String,
    pub count: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res>,
}

impl Family {
    pub fn new(
        name: impl Into<String>,
        count: u64,
        run: impl Fn(u64, &mut Ctx) -> Res + 'static,
    ) -> Family {
        Family {
            name: name.into(),
            count,
            run: Box::new(run),
        }
    }
}

#[derive(Default)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
type Set = HashSet<u64, BuildHasherDefault<IdHash>>;

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut h = a.rotate_left(23) ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ (h >> 32)
}

/// Bookkeeping of one worker: distinct states and transitions, and the readable trace when asked for.
#[derive(Default)]
pub struct Ctx {
    states: Set,
    transitions: Set,
    pub executions: u64,
    pub steps: u64,
    context: u64,
    previous: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
}

impl Ctx {
    /// Start of one execution in a context (template, stylesheet ...).
    pub fn begin(&mut self, context: &str) {
        self.context = fnv(context.as_bytes());
        self.previous = self.context;
        self.executions += 1;
        if self.tracing {
            self.trace.push(context.to_string());
        }
    }
    /// One step: an action led to an observation.
    pub fn step(&mut self, action: &str, observation: &str) {
        self.steps += 1;
        let state = mix(self.context, fnv(observation.as_bytes()));
        self.states.insert(state);
        self.transitions
            .insert(mix(mix(self.previous, fnv(action.as_bytes())), state));
        self.previous = state;
        if self.tracing {
            self.trace.push(format!("STEP {action}\n  SEEN {observation}"));
        }
    }
    pub fn note(&mut self, text: impl FnOnce() -> String) {
        if self.tracing {
            let text = text();
            self.trace.push(text);
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static EXECUTING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if !EXECUTING.with(|e| e.get()) {
            eprintln!("{location}: {message}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some((location, message)));
    }));
}

thread_local! {
    static SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// The source of the seeds of hash maps: what the standard library asks the system for is the
/// seed of the thread, so that the orders of hash maps are a choice of the checks.
#[no_mangle]
pub extern "C" fn getrandom(buffer: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = SEED.with(|s| s.get()).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for i in 0..len {
        let byte = if i < 16 { (seed.rotate_left(i as u32 / 8 * 17) >> (8 * (i % 8))) as u8 } else { 0 };
        unsafe { *buffer.add(i) = byte };
    }
    len as isize
}

/// Runs the function with hash maps seeded by `seed`.
pub fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> Result<T, String> + Send) -> Result<T, String> {
    std::thread::scope(|scope| {
        let run = scope.spawn(|| {
            SEED.with(|s| s.set(seed));
            EXECUTING.with(|e| e.set(true));
            match catch_unwind(AssertUnwindSafe(f)) {
                Ok(result) => (result.map_err(Some), None),
                Err(_) => (Err(None), PANIC.with(|p| p.borrow_mut().take())),
            }
        });
        match run.join().expect("seeded thread") {
            (Ok(value), _) => Ok(value),
            (Err(Some(message)), _) => Err(message),
            (Err(None), panic) => {
                let (location, message) = panic.unwrap_or_default();
                assert!(!location.starts_with("src/"), "{location}: {message}");
                Err(format!("panicked at {location}: {message}"))
            }
        }
    })
}

/// The order in which a hash map of `n` entries is walked with a seed.
pub fn order(seed: u64, n: usize) -> Vec<usize> {
    seeded(seed, || {
        let map: std::collections::HashMap<usize, ()> = (0..n).map(|i| (i, ())).collect();
        Ok(map.keys().cloned().collect())
    })
    .expect("order")
}

enum Outcome {
    Ok,
    Violation(String),
    Harness(String),
}

fn execute(family: &Family, index: u64, ctx: &mut Ctx) -> Outcome {
    EXECUTING.with(|e| e.set(true));
    let result = catch_unwind(AssertUnwindSafe(|| (family.run)(index, ctx)));
    EXECUTING.with(|e| e.set(false));
    match result {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(message)) => Outcome::Violation(message),
        Err(_) => {
            let (location, message) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if location.starts_with("src/") {
                Outcome::Harness(format!("harness panicked at {location}: {message}"))
            } else {
                Outcome::Violation(format!("panicked at {location}: {message}"))
            }
        }
    }
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
}

fn limit_memory() {
    const RLIMIT_AS: i32 = 9;
    const RLIMIT_CORE: i32 = 4;
    let limit = RLimit {
        cur: 3 << 30,
        max: 3 << 30,
    };
    let none = RLimit { cur: 0, max: 0 };
    unsafe {
        setrlimit(RLIMIT_AS, &limit);
        setrlimit(RLIMIT_CORE, &none);
    }
}

const CASE_TIMEOUT: Duration = Duration::from_secs(20);

/// One worker process: runs every n-th index of every family.
pub fn worker(families: Vec<Family>, known: Vec<String>, k: u64, n: u64, dir: &Path) -> i32 {
    limit_memory();
    let slot = fs::File::create(dir.join(format!("slot{k}"))).expect("slot file");
    let mut ctx = Ctx::default();
    let mut violations = vec![];
    let mut met = std::collections::BTreeSet::new();
    let mut per_family = vec![];
    for (f, family) in families.iter().enumerate() {
        let before = ctx.executions;
        let mut index = k;
        let mut found = 0;
        while index < family.count {
            let mut line = [0u8; 16];
            line[..8].copy_from_slice(&(f as u64).to_le_bytes());
            line[8..].copy_from_slice(&index.to_le_bytes());
            slot.write_all_at(&line, 0).expect("slot write");
            match execute(family, index, &mut ctx) {
                Outcome::Ok => {}
                Outcome::Violation(message) if known.contains(&message) => {
                    met.insert(message);
                }
                Outcome::Violation(message) => {
                    violations.push(json!([family.name, index, message]));
                    found += 1;
                    if found >= std::env::var("MC_STOP").ok().and_then(|s| s.parse().ok()).unwrap_or(3) {
                        break;
                    }
                }
                Outcome::Harness(message) => {
                    eprintln!("{} #{index}: {message}", family.name);
                    return 3;
                }
            }
            index += n;
        }
        per_family.push(ctx.executions - before);
    }
    let dump = |name: &str, set: &Set| {
        let mut bytes = Vec::with_capacity(set.len() * 8);
        for v in set {
            bytes.extend_from_slice(&v.to_le_bytes());
        }
        fs::write(dir.join(format!("{name}{k}")), bytes).expect("dump");
    };
    dump("states", &ctx.states);
    dump("transitions", &ctx.transitions);
    let result = json!({
        "executions": ctx.executions,
        "steps": ctx.steps,
        "violations": violations,
        "known": met,
        "per_family": per_family,
    });
    fs::write(dir.join(format!("result{k}")), result.to_string()).expect("result");
    0
}

/// Run a single case with a readable trace. Exit 0 held, 1 violated, 3 harness error.
pub fn one(families: Vec<Family>, name: &str, index: u64) -> i32 {
    limit_memory();
    let Some(family) = families.iter().find(|f| f.name == name) else {
        eprintln!("unknown family {name}");
        return 3;
    };
    if index >= family.count {
        eprintln!("index {index} out of range {}", family.count);
        return 3;
    }
    let mut ctx = Ctx {
        tracing: true,
        ..Ctx::default()
    };
    let outcome = execute(family, index, &mut ctx);
    for line in &ctx.trace {
        println!("{line}");
    }
    match outcome {
        Outcome::Ok => {
            println!("HELD");
            0
        }
        Outcome::Violation(message) => {
            println!("VIOLATED {message}");
            1
        }
        Outcome::Harness(message) => {
            println!("HARNESS {message}");
            3
        }
    }
}

struct Replayed {
    text: String,
    verdict: Verdict,
}
#[derive(PartialEq, Debug)]
enum Verdict {
    Held,
    Violated,
    Died(String),
    Error,
}

fn replay_case(id: &str, tier: &str, family: &str, index: u64) -> Replayed {
    let exe = std::env::current_exe().expect("exe");
    let mut child = Command::new(exe)
        .args(["one", id, tier, family, &index.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let mut out = child.stdout.take().expect("stdout");
    let reader = std::thread::spawn(move || {
        let mut text = vec![];
        let _ = out.read_to_end(&mut text);
        String::from_utf8_lossy(&text).to_string()
    });
    let started = Instant::now();
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(status) => break Some(status),
            None if started.elapsed() > CASE_TIMEOUT * 2 => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let text = reader.join().unwrap_or_default();
    let verdict = match status {
        None => Verdict::Died("hangs (no result within the time limit)".to_string()),
        Some(s) if s.signal().is_some() => {
            Verdict::Died(format!("process killed by signal {}", s.signal().unwrap()))
        }
        Some(s) => match s.code() {
            Some(0) => Verdict::Held,
            Some(1) => Verdict::Violated,
            _ => Verdict::Error,
        },
    };
    Replayed { text, verdict }
}

struct Work {
    child: std::process::Child,
    k: u64,
    last: Vec<u8>,
    since: Instant,
    done: bool,
}

pub struct Meta {
    pub id: String,
    pub tier: String,
    pub root: PathBuf,
    pub assumptions: Vec<String>,
}

pub fn supervise(meta: Meta, families: Vec<Family>) -> i32 {
    let started = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let n = std::thread::available_parallelism()
        .map(|n| n.get() as u64)
        .unwrap_or(4)
        .clamp(1, 16);
    let dir = std::env::temp_dir().join(format!("bumaga-mc-{}-{}", meta.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch");
    let code = supervise_in(&meta, &families, n, seed, &dir, started);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn supervise_in(
    meta: &Meta,
    families: &[Family],
    n: u64,
    seed: i64,
    dir: &Path,
    started: Instant,
) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let spawn = |k: u64| -> Work {
        let child = Command::new(&exe)
            .args([
                "worker",
                &meta.id,
                &meta.tier,
                &k.to_string(),
                &n.to_string(),
                dir.to_str().expect("utf8"),
            ])
            .stdout(Stdio::null())
            .spawn()
            .expect("spawn worker");
        Work {
            child,
            k,
            last: vec![],
            since: Instant::now(),
            done: false,
        }
    };
    let mut work: Vec<Work> = (0..n).map(spawn).collect();
    let mut suspects: Vec<(u64, u64)> = vec![];
    let mut failed_harness = false;
    loop {
        let mut running = false;
        for w in work.iter_mut().filter(|w| !w.done) {
            let slot = fs::read(dir.join(format!("slot{}", w.k))).unwrap_or_default();
            let at = |s: &[u8]| -> Option<(u64, u64)> {
                (s.len() == 16).then(|| {
                    (
                        u64::from_le_bytes(s[..8].try_into().unwrap()),
                        u64::from_le_bytes(s[8..].try_into().unwrap()),
                    )
                })
            };
            match w.child.try_wait().expect("wait") {
                Some(status) => {
                    w.done = true;
                    match status.code() {
                        Some(0) => {}
                        Some(code) => {
                            eprintln!("worker {} ended with {code}", w.k);
                            failed_harness = true;
                        }
                        None => {
                            eprintln!("worker {} died: {status}", w.k);
                            match at(&slot) {
                                Some(case) => suspects.push(case),
                                None => failed_harness = true,
                            }
                        }
                    }
                }
                None => {
                    running = true;
                    if slot != w.last {
                        w.last = slot;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > CASE_TIMEOUT && at(&slot).is_some() {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        suspects.push(at(&slot).unwrap());
                    }
                }
            }
        }
        if !suspects.is_empty() {
            // one worker is lost: the exploration cannot be completed any more
            for w in work.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
            break;
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    if failed_harness {
        eprintln!("the exploration itself failed");
        return 2;
    }

    let mut candidates: Vec<(String, u64, String)> = vec![];
    let mut met = std::collections::BTreeSet::new();
    let mut executions = 0u64;
    let mut steps = 0u64;
    let mut per_family = vec![0u64; families.len()];
    for w in &work {
        let Ok(text) = fs::read_to_string(dir.join(format!("result{}", w.k))) else {
            continue;
        };
        let v: Value = serde_json::from_str(&text).expect("result");
        executions += v["executions"].as_u64().unwrap_or(0);
        steps += v["steps"].as_u64().unwrap_or(0);
        for (i, c) in v["per_family"].as_array().unwrap().iter().enumerate() {
            per_family[i] += c.as_u64().unwrap_or(0);
        }
        for x in v["known"].as_array().unwrap() {
            met.insert(x.as_str().unwrap().to_string());
        }
        for x in v["violations"].as_array().unwrap() {
            candidates.push((
                x[0].as_str().unwrap().to_string(),
                x[1].as_u64().unwrap(),
                x[2].as_str().unwrap().to_string(),
            ));
        }
    }
    let count = |name: &str| -> usize {
        let mut all: Vec<u64> = vec![];
        for w in &work {
            if let Ok(bytes) = fs::read(dir.join(format!("{name}{}", w.k))) {
                all.extend(
                    bytes
                        .chunks_exact(8)
                        .map(|c| u64::from_le_bytes(c.try_into().unwrap())),
                );
            }
        }
        all.sort_unstable();
        all.dedup();
        all.len()
    };
    let states = count("states");
    let transitions = count("transitions");

    candidates.sort_by(|a, b| {
        let order = |c: &(String, u64, String)| {
            (
                families.iter().position(|f| f.name == c.0).unwrap_or(0),
                c.1,
            )
        };
        order(a).cmp(&order(b))
    });

    for what in &met {
        println!("KNOWN-FINDING: property={} {what}", meta.id);
    }
    let mut reported: Vec<(String, u64, String, String)> = vec![];
    for (f, index) in &suspects {
        let family = &families[*f as usize];
        let replayed = replay_case(&meta.id, &meta.tier, &family.name, *index);
        match replayed.verdict {
            Verdict::Died(how) => {
                reported.push((family.name.clone(), *index, how, replayed.text))
            }
            Verdict::Violated => reported.push((
                family.name.clone(),
                *index,
                "violated".to_string(),
                replayed.text,
            )),
            other => {
                eprintln!(
                    "a worker died at {} #{index}, which does not reproduce ({other:?})",
                    family.name
                );
                if reported.is_empty() && candidates.is_empty() {
                    return 2;
                }
            }
        }
    }
    if std::env::var("MC_STOP").is_ok() {
        for (family, index, message) in &candidates {
            eprintln!("{family} #{index}: {message}");
        }
    }
    // report the first few violations per family
    let mut per: std::collections::HashMap<String, u32> = Default::default();
    for (family, index, message) in candidates {
        let c = per.entry(family.clone()).or_default();
        if *c >= 2 || reported.len() >= 6 {
            continue;
        }
        let replayed = replay_case(&meta.id, &meta.tier, &family, index);
        *c += 1;
        let mut text = replayed.text;
        if replayed.verdict != Verdict::Violated {
            text.push_str(&format!(
                "\n(the replay gave {:?}: the outcome depends on something the replay does not fix, such as hash order)",
                replayed.verdict
            ));
        }
        reported.push((family, index, message, text));
    }

    let replays = meta.root.join("replays");
    let _ = fs::create_dir_all(&replays);
    for (i, (family, index, message, text)) in reported.iter().enumerate() {
        let path = replays.join(format!("{}-{}.json", meta.id, i + 1));
        let artefact = json!({
            "property": meta.id,
            "tier": meta.tier,
            "family": family,
            "index": index,
            "message": message,
            "scenario": text.lines().collect::<Vec<_>>(),
            "replay": format!("mc/target/release/mc replay {}", path.display()),
        });
        fs::write(&path, serde_json::to_string_pretty(&artefact).unwrap()).expect("replay file");
        println!("{family} #{index}: {message}");
        println!("VIOLATION property={} replay={}", meta.id, path.display());
    }

    // samples: a few cases written out
    let mut samples = vec![];
    if reported.is_empty() {
        let chosen: Vec<&Family> = families.iter().filter(|f| f.count > 0).collect();
        for i in [0, chosen.len() / 2, chosen.len().saturating_sub(1)] {
            let family = chosen[i];
            let index = (family.count as f64 * 0.618_033_988) as u64;
            let index = index.min(family.count - 1);
            let replayed = replay_case(&meta.id, &meta.tier, &family.name, index);
            let text: String = replayed.text.chars().take(2500).collect();
            let lines: Vec<&str> = text.lines().collect();
            samples.push(json!({"family": family.name, "index": index, "case": lines}));
        }
        samples.dedup();
    } else {
        for r in reported.iter().take(2) {
            samples.push(json!({"family": r.0, "index": r.1, "violation": r.2}));
        }
    }
    let spaces: Vec<Value> = families
        .iter()
        .zip(&per_family)
        .map(|(f, done)| json!({"family": f.name, "cases": f.count, "executions": done}))
        .collect();
    let complete = suspects.is_empty() && reported.is_empty();
    let evidence = json!({
        "property": meta.id,
        "tier": meta.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": executions,
            "steps_checked": steps,
            "exhaustive": complete,
            "families": spaces,
            "samples": samples,
            "workers": n,
        },
        "assumptions": meta.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": reported.len(),
        "known_findings_met": met,
    });
    let _ = fs::create_dir_all(meta.root.join("evidence"));
    let path = meta.root.join("evidence").join(format!("{}.json", meta.id));
    let mut file = fs::File::create(path).expect("evidence");
    file.write_all(serde_json::to_string_pretty(&evidence).unwrap().as_bytes())
        .expect("evidence");
    println!(
        "{} {}: {} families, {executions} executions, {steps} steps, {states} states, {transitions} transitions, {:.1} s",
        meta.id,
        meta.tier,
        families.len(),
        started.elapsed().as_secs_f64()
    );
    if reported.is_empty() {
        0
    } else {
        1
    }
}

/// Lines `known: property=<id> <exact message of the violation>` of /verif/known_findings.txt.
pub fn known_findings(root: &Path, id: &str) -> Vec<String> {
    let text = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let prefix = format!("known: property={id} ");
    text.lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .map(|l| l.to_string())
        .collect()
}
