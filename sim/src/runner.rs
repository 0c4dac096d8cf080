//! Runs worlds in parallel, minimises and writes what fails, replays it.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use simcore::choice::{Streams, NS, STREAM_NAMES};
use simcore::{RunResult, Source, FAULT_NAMES, NFAULT};

pub type WorldFn = fn(u32) -> Pin<Box<dyn Future<Output = ()>>>;

pub struct World {
    pub name: &'static str,
    pub f: WorldFn,
    pub about: &'static str,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Spec {
    pub world: &'static str,
    pub profile: u32,
    /// share of the runs of a check
    pub weight: u32,
}

pub struct Outcome {
    pub r: RunResult,
    pub logs: BTreeMap<(usize, u32), (String, u64)>,
}

// ------------------------------------------------------------ coverage of the code's own log lines

thread_local! {
    static LOGS: std::cell::RefCell<BTreeMap<(usize, u32), (&'static str, u64)>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}
struct LogProbe;
impl log::Log for LogProbe {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _own = simcore::own();
        if let (Some(m), Some(l)) = (r.module_path_static(), r.line()) {
            let _ = LOGS.try_with(|x| {
                if let Ok(mut x) = x.try_borrow_mut() {
                    x.entry((m.as_ptr() as usize, l)).or_insert((m, 0)).1 += 1;
                }
            });
        }
        if simcore::try_with(|s| s.is_tracing()).unwrap_or(false) {
            let text = format!("    [{}] {}", r.level(), r.args());
            simcore::trace(|| if text.len() > 300 { text.chars().take(300).collect() } else { text });
        }
    }
    fn flush(&self) {}
}
pub fn init() {
    simcore::install_panic_hook();
    let _ = log::set_logger(Box::leak(Box::new(LogProbe)));
    log::set_max_level(log::LevelFilter::Debug);
}

// ------------------------------------------------------------ one run

pub fn execute(world: &'static World, profile: u32, source: Source, tracing: bool) -> Outcome {
    let t = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            simcore::interpose::set_entropy(0x5eed);
            crate::alloc::watch();
            let mut r = simcore::run(source, tracing, move || (world.f)(profile));
            let unexpected: Vec<_> =
                r.panics.iter().filter(|p| !p.message.starts_with("sim-injected")).collect();
            if let Some(p) = unexpected.first() {
                let harness = p.location.starts_with("src/") || p.location.contains("/sim/") || p.location.starts_with("crates/simcore");
                let class = if harness { "harness-panic" } else { "panic" };
                let detail = format!("{} at {} in task {} on node {}", p.message, p.location, p.task, p.node);
                r.violations.push(simcore::Violation { class: class.into(), detail });
            }
            let logs = LOGS.with(|l| {
                l.borrow().iter().map(|(k, v)| (*k, (v.0.to_string(), v.1))).collect()
            });
            Outcome { r, logs }
        })
        .expect("thread");
    match t.join() {
        Ok(o) => o,
        Err(_) => {
            eprintln!("harness error: a run's thread panicked outside the simulation");
            std::process::exit(3);
        }
    }
}

pub fn seed_of(base: u64, property: &str, i: u64) -> u64 {
    let mut h = base;
    for b in property.bytes() {
        h = simcore::rng::mix(h ^ b as u64);
    }
    simcore::rng::mix(h ^ i.wrapping_mul(0x9E37_79B9))
}

pub fn harness_class(c: &str) -> bool {
    c.starts_with("harness")
}

// ------------------------------------------------------------ a check

pub struct Plan {
    pub property: String,
    pub specs: Vec<Spec>,
    pub runs: u64,
    pub wall: Duration,
    pub seed: u64,
    pub threads: usize,
}

pub struct Found {
    pub world: &'static World,
    pub profile: u32,
    pub seed: u64,
    pub class: String,
    pub detail: String,
    pub log: Option<Streams>,
}

#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: u128,
    pub faults: [u64; NFAULT],
    pub hashes: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub states: HashSet<u64>,
    pub probes: BTreeMap<String, u64>,
    pub logs: BTreeMap<String, u64>,
    pub per_world: BTreeMap<String, u64>,
    pub other: BTreeMap<String, u64>,
    pub other_examples: Vec<String>,
    pub samples: Vec<serde_json::Value>,
    pub decisions: u64,
}

struct Slot {
    started: Option<Instant>,
    what: (usize, u32, u64),
}

pub fn world(name: &str) -> Option<&'static World> {
    crate::worlds::ALL.iter().find(|w| w.name == name)
}

const HANG: Duration = Duration::from_secs(90);

pub fn run_plan(plan: &Plan, maps: fn(&str, &str) -> bool) -> (Totals, Option<Found>) {
    let totals = Arc::new(Mutex::new(Totals::default()));
    let found: Arc<Mutex<Option<Found>>> = Default::default();
    let broken: Arc<Mutex<Option<Found>>> = Default::default();
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let hung: Arc<Mutex<Option<(usize, u32, u64)>>> = Default::default();
    let start = Instant::now();
    let wsum: u64 = plan.specs.iter().map(|s| s.weight as u64).sum();
    let slots: Arc<Vec<Mutex<Slot>>> = Arc::new(
        (0..plan.threads).map(|_| Mutex::new(Slot { started: None, what: (0, 0, 0) })).collect(),
    );
    let finished = Arc::new(AtomicU64::new(0));
    for w in 0..plan.threads {
        let (totals, found, broken, stop, next, slots, finished) =
            (totals.clone(), found.clone(), broken.clone(), stop.clone(), next.clone(), slots.clone(), finished.clone());
        let specs = plan.specs.clone();
        let property = plan.property.clone();
        let (runs, wall, base) = (plan.runs, plan.wall, plan.seed);
        std::thread::spawn(move || {
            loop {
                if stop.load(Ordering::SeqCst) || start.elapsed() > wall {
                    break;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs {
                    break;
                }
                let seed = seed_of(base, &property, i);
                let mut k = i % wsum;
                let spec = specs
                    .iter()
                    .find(|s| {
                        if k < s.weight as u64 {
                            true
                        } else {
                            k -= s.weight as u64;
                            false
                        }
                    })
                    .unwrap();
                let wi = crate::worlds::ALL.iter().position(|x| x.name == spec.world).unwrap();
                let world = &crate::worlds::ALL[wi];
                *slots[w].lock().unwrap() = Slot { started: Some(Instant::now()), what: (wi, spec.profile, seed) };
                let o = execute(world, spec.profile, Source::Seed(seed), false);
                slots[w].lock().unwrap().started = None;
                let mut hit;
                {
                    let mut t = totals.lock().unwrap();
                    t.runs += 1;
                    t.steps += o.r.steps;
                    t.sim_ns += o.r.sim_ns as u128;
                    for f in 0..NFAULT {
                        t.faults[f] += o.r.faults[f];
                    }
                    t.decisions += o.r.log.iter().map(|l| l.len() as u64).sum::<u64>();
                    let fresh = t.hashes.insert(o.r.hash);
                    let work = o.r.probes.get("work").copied().unwrap_or(0);
                    let disturbed: u64 = o.r.faults.iter().sum();
                    if fresh && work > 0 && disturbed > 0 {
                        t.nontrivial.insert(o.r.hash);
                        if t.samples.len() < 3 {
                            t.samples.push(serde_json::json!({
                                "world": spec.world, "profile": spec.profile, "seed": seed,
                                "steps": o.r.steps, "simulated_us": o.r.sim_ns / 1000,
                                "work_units": work,
                                "faults": fault_map(&o.r.faults),
                                "trace_hash": format!("{:016x}", o.r.hash),
                            }));
                        }
                    }
                    for s in &o.r.states {
                        t.states.insert(*s);
                    }
                    for (k, v) in &o.r.probes {
                        *t.probes.entry(k.to_string()).or_insert(0) += v;
                    }
                    for ((_, line), (m, n)) in &o.logs {
                        *t.logs.entry(format!("{m}:{line}")).or_insert(0) += n;
                    }
                    *t.per_world.entry(spec.world.to_string()).or_insert(0) += 1;
                    // what else such a run shows may follow from it
                    let fault = o.r.violations.iter().find(|v| harness_class(&v.class));
                    hit = fault.cloned();
                    for v in &o.r.violations {
                        if fault.is_some() {
                            break;
                        }
                        if maps(&v.class, &property) {
                            hit.get_or_insert_with(|| v.clone());
                        } else {
                            *t.other.entry(v.class.clone()).or_insert(0) += 1;
                            if t.other_examples.len() < 5 {
                                t.other_examples.push(format!("{} profile {} seed {}: {}: {}", spec.world, spec.profile, seed, v.class, v.detail));
                            }
                        }
                    }
                }
                if let Some(v) = hit {
                    // the search goes on after a fault of the harness
                    let ours = harness_class(&v.class);
                    let mut f = if ours { &broken } else { &found }.lock().unwrap();
                    if f.is_none() {
                        *f = Some(Found {
                            world,
                            profile: spec.profile,
                            seed,
                            class: v.class,
                            detail: v.detail,
                            log: Some(o.r.log),
                        });
                    }
                    if !ours {
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            }
            finished.fetch_add(1, Ordering::SeqCst);
        });
    }
    // monitor: a run that computes for ever, or allocates for ever
    while finished.load(Ordering::SeqCst) < plan.threads as u64 {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() {
            let s = s.lock().unwrap();
            if s.started.is_some_and(|t| t.elapsed() > HANG) {
                hung.lock().unwrap().get_or_insert(s.what);
            }
        }
        if crate::alloc::RUNAWAY.load(Ordering::SeqCst) != 0 && hung.lock().unwrap().is_none() {
            // the culprit is the longest-running one
            let w = slots
                .iter()
                .map(|s| s.lock().unwrap())
                .filter_map(|s| s.started.map(|t| (t, s.what)))
                .min_by_key(|x| x.0);
            *hung.lock().unwrap() = w.map(|x| x.1);
        }
        if let Some((wi, profile, seed)) = *hung.lock().unwrap() {
            let runaway = crate::alloc::RUNAWAY.load(Ordering::SeqCst) != 0;
            let mut f = found.lock().unwrap();
            if f.is_none() {
                *f = Some(Found {
                    world: &crate::worlds::ALL[wi],
                    profile,
                    seed,
                    class: if runaway { "runaway-memory" } else { "hang" }.into(),
                    detail: if runaway {
                        "a run allocated more than 2 GiB".into()
                    } else {
                        format!("a poll did not return within {HANG:?} of real time")
                    },
                    log: None,
                });
            }
            break;
        }
    }
    let t = std::mem::take(&mut *totals.lock().unwrap());
    let f = found.lock().unwrap().take().or_else(|| broken.lock().unwrap().take());
    (t, f)
}

pub fn fault_map(f: &[u64; NFAULT]) -> BTreeMap<&'static str, u64> {
    (0..NFAULT).filter(|i| f[*i] > 0).map(|i| (FAULT_NAMES[i], f[i])).collect()
}

// ------------------------------------------------------------ minimisation

fn total(s: &Streams) -> usize {
    s.iter().map(|v| v.len()).sum()
}
fn nonzero(s: &Streams) -> usize {
    s.iter().map(|v| v.iter().filter(|x| **x != 0).count()).sum()
}

/// Smaller streams that still fail with the same class.
pub fn minimise(f: &Found, budget: Duration) -> (Streams, u64) {
    let start = Instant::now();
    let mut best: Streams = f.log.clone().unwrap();
    let mut tries = 0u64;
    let same = |o: &Outcome| o.r.violations.iter().any(|v| v.class == f.class);
    // try candidates in parallel batches, in order; the first that still fails wins
    let try_batch = |cands: Vec<Streams>, tries: &mut u64| -> Option<Streams> {
        *tries += cands.len() as u64;
        let handles: Vec<_> = cands
            .into_iter()
            .map(|c| {
                let (w, p) = (f.world, f.profile);
                std::thread::spawn(move || execute(w, p, Source::Streams(c), false))
            })
            .collect();
        let outs: Vec<Outcome> = handles.into_iter().map(|h| h.join().expect("run")).collect();
        outs.into_iter().find(same).map(|o| o.r.log)
    };
    let better = |a: &Streams, b: &Streams| (nonzero(a), total(a)) < (nonzero(b), total(b)) || total(a) < total(b) && nonzero(a) <= nonzero(b);
    // most important first: scenario, then faults, then scheduling
    let order = [0usize, 5, 1, 4, 3, 2];
    loop {
        let before = (nonzero(&best), total(&best));
        // whole streams to zero
        for &s in &order {
            if start.elapsed() > budget {
                return (best, tries);
            }
            if best[s].iter().all(|x| *x == 0) {
                continue;
            }
            let mut c = best.clone();
            c[s].clear();
            if let Some(n) = try_batch(vec![c], &mut tries) {
                best = n;
            }
        }
        for &s in &order {
            let mut size = best[s].len().next_power_of_two().max(1);
            while size >= 1 {
                let mut at = 0;
                while at < best[s].len() {
                    if start.elapsed() > budget {
                        return (best, tries);
                    }
                    // a batch of 8 consecutive chunks: delete each, zero each
                    let mut cands = Vec::new();
                    for k in 0..4 {
                        let lo = at + k * size;
                        if lo >= best[s].len() {
                            break;
                        }
                        let hi = (lo + size).min(best[s].len());
                        let mut d = best.clone();
                        d[s].drain(lo..hi);
                        cands.push(d);
                        if best[s][lo..hi].iter().any(|x| *x != 0) {
                            let mut z = best.clone();
                            z[s][lo..hi].iter_mut().for_each(|x| *x = 0);
                            cands.push(z);
                            if size == 1 && best[s][lo] > 1 {
                                let mut h = best.clone();
                                h[s][lo] /= 2;
                                cands.push(h);
                                let mut h = best.clone();
                                h[s][lo] -= 1;
                                cands.push(h);
                            }
                        }
                    }
                    match try_batch(cands, &mut tries) {
                        Some(n) if better(&n, &best) || n.iter().map(|v| v.iter().map(|x| *x as u64).sum::<u64>()).sum::<u64>() < best.iter().map(|v| v.iter().map(|x| *x as u64).sum::<u64>()).sum::<u64>() && total(&n) <= total(&best) => {
                            best = n;
                        }
                        _ => at += 4 * size,
                    }
                }
                size /= 2;
            }
        }
        if (nonzero(&best), total(&best)) >= before {
            return (best, tries);
        }
    }
}

fn trim(s: &Streams) -> Streams {
    let mut t = s.clone();
    for v in t.iter_mut() {
        while v.last() == Some(&0) {
            v.pop();
        }
    }
    t
}

pub fn write_replay(dir: &Path, property: &str, f: &Found, streams: Option<&Streams>, tries: u64) -> PathBuf {
    std::fs::create_dir_all(dir).expect("replay directory");
    let path = dir.join(format!("{property}-{}-{:016x}.json", f.class.replace('/', "_"), f.seed));
    let v = match streams {
        None => serde_json::json!({
            "property": property, "world": f.world.name, "profile": f.profile, "seed": f.seed.to_string(),
            "class": f.class, "detail": f.detail, "source": "seed",
        }),
        Some(st) => {
            let st = trim(st);
            let o = execute(f.world, f.profile, Source::Streams(st.clone()), true);
            let o2 = execute(f.world, f.profile, Source::Streams(st.clone()), false);
            let viol = o.r.violations.iter().find(|v| v.class == f.class);
            serde_json::json!({
                "property": property, "world": f.world.name, "about": f.world.about, "profile": f.profile,
                "found_with_seed": f.seed.to_string(), "class": f.class,
                "detail": viol.map(|v| v.detail.clone()).unwrap_or(f.detail.clone()),
                "source": "streams",
                "streams": (0..NS).map(|i| (STREAM_NAMES[i].to_string(), serde_json::json!(st[i]))).collect::<serde_json::Map<_,_>>(),
                "decisions_recorded": f.log.as_ref().map(total), "decisions_after_minimisation": total(&st),
                "nonzero_decisions": nonzero(&st), "minimisation_runs": tries,
                "faults": fault_map(&o.r.faults),
                "trace_hash": format!("{:016x}", o.r.hash),
                "hash_reproduced": o.r.hash == o2.r.hash && viol.is_some(),
                "steps": o.r.steps, "trace": o.r.trace,
            })
        }
    };
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    path
}

/// Exit code of the replay: 1 when the recorded violation happens again.
pub fn replay(path: &Path) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(path).map(|s| serde_json::from_str(&s)) {
        Ok(Ok(v)) => v,
        _ => {
            eprintln!("cannot read {path:?}");
            return 3;
        }
    };
    let Some(w) = v["world"].as_str().and_then(world) else {
        eprintln!("unknown world");
        return 3;
    };
    let profile = v["profile"].as_u64().unwrap_or(0) as u32;
    let class = v["class"].as_str().unwrap_or("").to_string();
    let source = if v["source"] == "seed" {
        Source::Seed(v["seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0))
    } else {
        let mut st: Streams = Default::default();
        for i in 0..NS {
            st[i] = v["streams"][STREAM_NAMES[i]]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
                .unwrap_or_default();
        }
        Source::Streams(st)
    };
    let class2 = class.clone();
    std::thread::spawn(move || {
        let t = Instant::now();
        while t.elapsed() < HANG && crate::alloc::RUNAWAY.load(Ordering::SeqCst) == 0 {
            std::thread::sleep(Duration::from_millis(50));
        }
        println!("reproduced: {class2} (run does not end)");
        std::process::exit(1);
    });
    let o = execute(w, profile, source, true);
    for l in &o.r.trace {
        println!("{l}");
    }
    let hash = format!("{:016x}", o.r.hash);
    let same_hash = v["trace_hash"].as_str().is_none_or(|h| h == hash);
    match o.r.violations.iter().find(|x| x.class == class) {
        Some(x) => {
            println!("reproduced: {}: {} (trace hash {} {})", x.class, x.detail, hash, if same_hash { "identical" } else { "DIFFERS" });
            1
        }
        None => {
            println!("not reproduced; violations now: {:?}", o.r.violations);
            0
        }
    }
}

/// Every seed twice, with different numbers of workers: the traces must be identical.
pub fn selftest(n: u64, base: u64) -> i32 {
    let mut bad = 0;
    let mut res: Vec<BTreeMap<(usize, u64), (u64, u64, Vec<String>)>> = Vec::new();
    for threads in [8usize, 3, 1] {
        let out: Arc<Mutex<BTreeMap<(usize, u64), (u64, u64, Vec<String>)>>> = Default::default();
        let next = Arc::new(AtomicU64::new(0));
        let n = if threads == 1 { n / 4 } else { n };
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (out, next) = (out.clone(), next.clone());
                std::thread::spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let wi = (i % crate::worlds::ALL.len() as u64) as usize;
                    let seed = seed_of(base, "selftest", i);
                    let o = execute(&crate::worlds::ALL[wi], (i / 7 % 8) as u32, Source::Seed(seed), false);
                    let vs = o.r.violations.iter().map(|v| format!("{}: {}", v.class, v.detail)).collect();
                    out.lock().unwrap().insert((wi, seed), (o.r.hash, o.r.steps, vs));
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        res.push(std::mem::take(&mut *out.lock().unwrap()));
    }
    let mut viol = BTreeSet::new();
    for (k, v) in &res[0] {
        for other in &res[1..] {
            if let Some(o) = other.get(k) {
                if o != v {
                    bad += 1;
                    println!("NOT DETERMINISTIC: world {} seed {}: {:?} vs {:?}", crate::worlds::ALL[k.0].name, k.1, v, o);
                }
            }
        }
        for x in &v.2 {
            viol.insert(x.split(':').next().unwrap_or("").to_string());
        }
    }
    println!("selftest: {} seeds, {} differing; violation classes seen: {:?}", res[0].len(), bad, viol);
    if bad > 0 {
        3
    } else {
        0
    }
}
