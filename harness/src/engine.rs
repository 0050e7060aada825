//! Case runner: generates cases from seeds, runs them on all cores, shrinks the first failure,
//! writes the replay file and the evidence file.

use crate::tape::{hash_str, mix, shrink, Tape};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub input: String,
    pub max_width: Option<usize>,
    pub reflow: bool,
    /// expected output, where the generator knows it
    pub expect: Option<String>,
    /// anything else the check needs (a JSON value, so that a replay file is complete)
    pub aux: Value,
}

impl Case {
    pub fn text(input: impl Into<String>) -> Case {
        Case { input: input.into(), ..Default::default() }
    }
    pub fn to_json(&self) -> Value {
        json!({"input": self.input, "max_width": self.max_width, "reflow": self.reflow, "expect": self.expect, "aux": self.aux})
    }
    pub fn from_json(v: &Value) -> Case {
        Case {
            input: v["input"].as_str().unwrap_or("").to_string(),
            max_width: v["max_width"].as_u64().map(|x| x as usize),
            reflow: v["reflow"].as_bool().unwrap_or(false),
            expect: v["expect"].as_str().map(|s| s.to_string()),
            aux: v["aux"].clone(),
        }
    }
}

pub enum Verdict {
    /// held; the flag tells whether the case was non-trivial, the labels classify it
    Ok(bool, Vec<&'static str>),
    /// outside the property's domain
    Skip(&'static str),
    Fail(String),
}

pub fn ok(nontrivial: bool) -> Verdict {
    Verdict::Ok(nontrivial, vec![])
}

pub type GenFn = fn(&mut Tape) -> Case;
pub type CheckFn = fn(&Case) -> Verdict;

pub struct Arm {
    pub name: &'static str,
    pub gen: GenFn,
    pub check: CheckFn,
    /// cases in the quick tier; the thorough tier multiplies
    pub quick: u64,
    pub rule: &'static str,
}

pub struct Prop {
    pub id: &'static str,
    pub arms: Vec<Arm>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var("MDPBT_PANICS").is_ok() {
            eprintln!("{loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));
}

/// Run `f`, turning a panic into `Err(location and message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn run_check(arm: &Arm, case: &Case) -> Verdict {
    match guarded(|| (arm.check)(case)) {
        Ok(v) => v,
        Err(e) => Verdict::Fail(format!("panicked: {e}")),
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Listed findings and fixed defects.
pub struct Known {
    entries: Vec<Value>,
}

impl Known {
    pub fn load() -> Known {
        let p = verif_dir().join("known_findings.jsonl");
        let mut entries = vec![];
        if let Ok(s) = std::fs::read_to_string(p) {
            for (n, l) in s.lines().enumerate() {
                if l.trim().is_empty() {
                    continue;
                }
                match serde_json::from_str::<Value>(l) {
                    Ok(v) => entries.push(v),
                    Err(e) => {
                        eprintln!("error: known_findings.jsonl line {}: {e}", n + 1);
                        std::process::exit(3);
                    }
                }
            }
        }
        Known { entries }
    }
    fn is_known(&self, prop: &str, arm: &str, case: &Case) -> bool {
        self.entries.iter().any(|e| {
            e["status"] == "known" && e["property"] == prop && e["arm"] == arm && Case::from_json(&e["case"]).same_input(case)
        })
    }
}

impl Case {
    fn same_input(&self, o: &Case) -> bool {
        self.input == o.input && self.max_width == o.max_width && self.reflow == o.reflow && self.aux == o.aux
    }
}

struct ArmStats {
    evals: u64,
    skipped: HashMap<&'static str, u64>,
    labels: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    distinct_capped: u64,
}

/// Distinct non-trivial inputs are counted exactly up to this many per arm and thread.
const DISTINCT_CAP: usize = 2_000_000;

fn write_replay(prop: &str, arm: &str, case: &Case, msg: &str, origin: Value) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{arm}.json"));
    let v = json!({"property": prop, "arm": arm, "case": case.to_json(), "what_failed": msg, "origin": origin,
        "run_with": format!("/verif/run.sh replay {}", path.display())});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn indent(s: &str) -> String {
    s.lines().map(|l| format!("    {l}")).collect::<Vec<_>>().join("\n")
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("error: cannot read {file}: {e}");
            return 3;
        }
    };
    let (id, arm) = (v["property"].as_str().unwrap_or(""), v["arm"].as_str().unwrap_or(""));
    let Some(a) = props.iter().find(|p| p.id == id).and_then(|p| p.arms.iter().find(|a| a.name == arm)) else {
        eprintln!("error: no arm {arm} in property {id}");
        return 3;
    };
    let case = Case::from_json(&v["case"]);
    match run_check(a, &case) {
        Verdict::Ok(..) => {
            println!("holds on this input");
            0
        }
        Verdict::Skip(w) => {
            println!("skipped: {w}");
            0
        }
        Verdict::Fail(m) => {
            println!("fails: {m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

/// How often an arm fails, and small examples of it (a tool for work on the harness, not a check).
pub fn survey(prop: &Prop, arm: &str, seed: u64, n: u64, examples: usize) -> i32 {
    let Some(arm) = prop.arms.iter().find(|a| a.name == arm) else { return 3 };
    let class = |m: &str| m.chars().take_while(|c| *c != ':').collect::<String>();
    let arm_seed = mix(seed ^ hash_str(prop.id) ^ hash_str(arm.name).rotate_left(17));
    let failures = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for th in 0..8 {
            let failures = &failures;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    for i in (th..n).step_by(8) {
                        let mut t = Tape::random(mix(arm_seed ^ mix(i)));
                        let c = (arm.gen)(&mut t);
                        if let Verdict::Fail(m) = run_check(arm, &c) {
                            failures.lock().unwrap().push((i, t.used(), class(&m)));
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.0);
    println!("{} {}: {} of {n} fail", prop.id, arm.name, failures.len());
    let todo = Mutex::new(failures.into_iter().map(|f| (f.1, f.2)).take(examples).collect::<Vec<_>>());
    let seen = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (todo, seen) = (&todo, &seen);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || loop {
                    let Some((f, want)) = todo.lock().unwrap().pop() else { return };
                    let small = shrink(f, |cand| {
                        let mut t = Tape::replay(cand);
                        let c = (arm.gen)(&mut t);
                        match run_check(arm, &c) {
                            Verdict::Fail(m) if class(&m) == want => Some(t.used()),
                            _ => None,
                        }
                    }, 3000);
                    let c = (arm.gen)(&mut Tape::replay(&small));
                    if let Verdict::Fail(m) = run_check(arm, &c) {
                        seen.lock().unwrap().entry((c.input.len(), c.input.clone())).or_insert((0, c, m)).0 += 1;
                    }
                })
                .unwrap();
        }
    });
    for (n, c, m) in seen.into_inner().unwrap().values() {
        println!("---- {n}x {:?} width {:?} reflow {}\n{}", c.input, c.max_width, c.reflow, indent(m));
    }
    0
}

pub fn run(prop: &Prop, seed: u64, tier: &str, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let mult: u64 = std::env::var("VERIF_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 25 } else { 1 });
    // The work is fixed; the cap only keeps a run on a slow machine inside its time limit, and the
    // evidence says when it was hit.
    let cap = Duration::from_secs(
        std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 420 }),
    );
    let nthreads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let known = Known::load();
    let mut exit = 0;
    let mut total_evals = 0u64;
    let mut total_distinct = 0u64;
    let mut arm_reports = vec![];
    let mut samples = vec![];
    let mut violations = 0;
    let mut findings = vec![];
    let mut capped = false;

    // Listed findings and regression inputs first.
    let mut regress = 0u64;
    for e in known.entries.iter().filter(|e| e["property"] == prop.id) {
        let Some(arm) = prop.arms.iter().find(|a| e["arm"] == a.name) else {
            eprintln!("error: known_findings.jsonl names arm {} of {}, which does not exist", e["arm"], prop.id);
            return 3;
        };
        if only.is_some_and(|o| o != arm.name) {
            continue;
        }
        let case = Case::from_json(&e["case"]);
        regress += 1;
        let what = e["what"].as_str().unwrap_or("");
        match (run_check(arm, &case), e["status"].as_str()) {
            (Verdict::Fail(_), Some("known")) => {
                println!("KNOWN-FINDING: property={} {}", prop.id, what);
                findings.push(json!(what));
            }
            (Verdict::Fail(m), _) => {
                let path = write_replay(prop.id, arm.name, &case, &m, json!("regression input of a fixed defect"));
                println!("{} [{}] regression input fails: {m}\n  input: {:?}", prop.id, arm.name, case.input);
                println!("VIOLATION property={} replay={}", prop.id, path.display());
                violations += 1;
                exit = 1;
            }
            _ => {}
        }
    }

    for arm in &prop.arms {
        if only.is_some_and(|o| o != arm.name) {
            continue;
        }
        let ta = Instant::now();
        let n = arm.quick * mult;
        let arm_seed = mix(seed ^ hash_str(prop.id) ^ hash_str(arm.name).rotate_left(17));
        let stop_at = AtomicU64::new(u64::MAX); // lowest failing index found so far
        let hit_cap = AtomicBool::new(false);
        let found: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let stats: Mutex<Vec<ArmStats>> = Mutex::new(vec![]);
        let heart: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
        let current: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
        let live = AtomicUsize::new(nthreads);
        std::thread::scope(|s| {
            for th in 0..nthreads {
                let (stop_at, hit_cap, found, stats, known, heart, live, current) =
                    (&stop_at, &hit_cap, &found, &stats, &known, &heart, &live, &current);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut st = ArmStats {
                            evals: 0,
                            skipped: HashMap::new(),
                            labels: BTreeMap::new(),
                            distinct: HashSet::new(),
                            samples: vec![],
                            distinct_capped: 0,
                        };
                        let mut i = th as u64;
                        while i < n && i < stop_at.load(Ordering::Relaxed) {
                            current[th].store(i, Ordering::Relaxed);
                            heart[th].store(t0.elapsed().as_millis() as u64 | 1, Ordering::Relaxed);
                            if st.evals % 64 == 0 && t0.elapsed() > cap {
                                hit_cap.store(true, Ordering::Relaxed);
                                break;
                            }
                            let mut tape = Tape::random(mix(arm_seed ^ mix(i)));
                            let case = match guarded(|| (arm.gen)(&mut tape)) {
                                Ok(c) => c,
                                Err(e) => {
                                    eprintln!("error: the generator of arm {} panicked: {e} (case {i})", arm.name);
                                    std::process::exit(5);
                                }
                            };
                            st.evals += 1;
                            match run_check(arm, &case) {
                                Verdict::Ok(nt, labels) => {
                                    for l in labels {
                                        *st.labels.entry(l).or_default() += 1;
                                    }
                                    if nt {
                                        let h = hash_str(&case.input)
                                            ^ mix(case.max_width.map(|w| w as u64 + 1).unwrap_or(0) * 2 + case.reflow as u64)
                                            ^ if case.aux.is_null() { 0 } else { hash_str(&case.aux.to_string()) };
                                        if st.distinct.len() < DISTINCT_CAP {
                                            st.distinct.insert(h);
                                        } else {
                                            st.distinct_capped += 1;
                                        }
                                        if st.samples.len() < 2 && i % 7 == th as u64 % 7 {
                                            st.samples.push(sample(arm.name, &case));
                                        }
                                    }
                                }
                                Verdict::Skip(w) => *st.skipped.entry(w).or_default() += 1,
                                Verdict::Fail(m) => {
                                    if known.is_known(prop.id, arm.name, &case) {
                                        *st.skipped.entry("known finding").or_default() += 1;
                                    } else {
                                        stop_at.fetch_min(i, Ordering::Relaxed);
                                        found.lock().unwrap().push((i, m));
                                        break;
                                    }
                                }
                            }
                            i += nthreads as u64;
                        }
                        stats.lock().unwrap().push(st);
                        heart[th].store(0, Ordering::Relaxed);
                        live.fetch_sub(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
            // Watchdog: a case that does not finish is an error of the run, not a verdict.
            let heart = &heart;
            let live = &live;
            let current = &current;
            s.spawn(move || {
                while live.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(100));
                    let now = t0.elapsed().as_millis() as u64;
                    for (th, h) in heart.iter().enumerate() {
                        let v = h.load(Ordering::Relaxed);
                        if v != 0 && now.saturating_sub(v) > 60_000 {
                            // Cases take well under a millisecond: the formatter does not return.
                            let i = current[th].load(Ordering::Relaxed);
                            let case = (arm.gen)(&mut Tape::random(mix(arm_seed ^ mix(i))));
                            let msg = "the formatter has not returned after a minute";
                            let path = write_replay(prop.id, arm.name, &case, msg, json!({"seed": seed, "case_index": i}));
                            println!("{} [{}] case {i} (seed {seed}): {msg}\n  input:\n{}", prop.id, arm.name, indent(&format!("{:?}", case.input)));
                            println!("VIOLATION property={} replay={}", prop.id, path.display());
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        let stats = stats.into_inner().unwrap();
        let evals: u64 = stats.iter().map(|s| s.evals).sum();
        let mut distinct = HashSet::new();
        let mut over = 0;
        let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
        let mut skipped: BTreeMap<&str, u64> = BTreeMap::new();
        for s in &stats {
            distinct.extend(s.distinct.iter().copied());
            over += s.distinct_capped;
            for (k, v) in &s.labels {
                *labels.entry(k).or_default() += v;
            }
            for (k, v) in &s.skipped {
                *skipped.entry(k).or_default() += v;
            }
        }
        for s in stats.iter().flat_map(|s| s.samples.iter()).take(3) {
            samples.push(s.clone());
        }
        capped |= hit_cap.load(Ordering::Relaxed);
        total_evals += evals;
        total_distinct += distinct.len() as u64;
        arm_reports.push(json!({
            "arm": arm.name, "evaluations": evals, "planned": n, "distinct_nontrivial": distinct.len(),
            "nontrivial_not_deduplicated": over, "rule": arm.rule, "classes": labels, "skipped": skipped,
            "wall_s": ta.elapsed().as_secs_f64(),
        }));
        let mut found = found.into_inner().unwrap();
        found.sort();
        if let Some((i, msg)) = found.first() {
            let case_seed = mix(arm_seed ^ mix(*i));
            let mut tape = Tape::random(case_seed);
            let first = (arm.gen)(&mut tape);
            let used = tape.used();
            // the reproduction must fail in the same way: same first words of the message
            let class = |m: &str| m.chars().take_while(|c| *c != ':').collect::<String>();
            let want = class(msg);
            let deadline = Instant::now() + Duration::from_secs(60);
            let small = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped_and_join(|| {
                    shrink(
                        used.clone(),
                        |cand| {
                            if Instant::now() > deadline {
                                return None;
                            }
                            let mut t = Tape::replay(cand);
                            let c = guarded(|| (arm.gen)(&mut t)).unwrap_or_else(|e| {
                                eprintln!("error: the generator of arm {} panicked while shrinking: {e}", arm.name);
                                std::process::exit(5)
                            });
                            match run_check(arm, &c) {
                                Verdict::Fail(m) if class(&m) == want && !known.is_known(prop.id, arm.name, &c) => {
                                    Some(t.used())
                                }
                                _ => None,
                            }
                        },
                        20_000,
                    )
                });
            let mut t = Tape::replay(&small);
            let case = (arm.gen)(&mut t);
            let (case, msg) = match run_check(arm, &case) {
                Verdict::Fail(m) => (case, m),
                _ => (first.clone(), msg.clone()),
            };
            let path = write_replay(
                prop.id,
                arm.name,
                &case,
                &msg,
                json!({"seed": seed, "case_index": i, "tape": small, "first_failing_case": first.to_json()}),
            );
            println!("{} [{}] case {i} (seed {seed}) shrunk to:\n  input:\n{}\n  max_width={:?} reflow={} aux={}", prop.id, arm.name,
                indent(&format!("{:?}\n{}", case.input, case.input)), case.max_width, case.reflow, case.aux);
            println!("  {msg}");
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            violations += 1;
            exit = 1;
        }
    }
    let rule = prop.arms.iter().map(|a| format!("[{}] {}", a.name, a.rule)).collect::<Vec<_>>().join("; ");
    if samples.is_empty() {
        samples.push(json!("no non-trivial case before the run stopped"));
    }
    let ev = json!({
        "property": prop.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": total_evals, "distinct_nontrivial": total_distinct, "rule": rule, "samples": samples,
            "arms": arm_reports, "regression_inputs": regress, "known_findings": findings, "time_cap_hit": capped},
        "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("error: cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s{}",
        prop.id,
        total_evals,
        total_distinct,
        t0.elapsed().as_secs_f64(),
        if capped { " (time cap hit)" } else { "" }
    );
    exit
}

fn sample(arm: &str, c: &Case) -> Value {
    let cut = |s: &str| s.chars().take(400).collect::<String>();
    let mut v = json!({"arm": arm, "input": cut(&c.input)});
    if let Some(w) = c.max_width {
        v["max_width"] = json!(w);
        v["reflow"] = json!(c.reflow);
    }
    if let Some(e) = &c.expect {
        v["expect"] = json!(cut(e));
    }
    if !c.aux.is_null() {
        v["aux"] = json!(cut(&c.aux.to_string()));
    }
    v
}

trait JoinExt {
    fn spawn_scoped_and_join<T: Send>(self, f: impl FnOnce() -> T + Send) -> T;
}
impl JoinExt for std::thread::Builder {
    fn spawn_scoped_and_join<T: Send>(self, f: impl FnOnce() -> T + Send) -> T {
        std::thread::scope(|s| self.spawn_scoped(s, f).unwrap().join().unwrap())
    }
}
