//! One property's check: which worlds it runs, which violations are its own, and its evidence.

use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

use crate::runner::{self, Plan, Spec};

pub const PROPERTIES: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
];

const RARE: u32 = 100;
/// What a run of a check consists of: (world, profile, weight). The weights are shares of the runs; a
/// weight of 0 stands for a few runs only, because each takes long.
pub fn specs(property: &str) -> Vec<Spec> {
    let list: &[(&'static str, u32, u32)] = match property {
        "C01" => &[("conn", 7, 0), ("conn", 0, 30), ("conn", 1, 10), ("conn", 2, 10), ("conn", 4, 15), ("conn", 5, 1), ("raw", 1, 10), ("server", 0, 10)],
        "C02" => &[("conn", 7, 0), ("conn", 0, 25), ("conn", 1, 20), ("conn", 4, 15), ("conn", 5, 1), ("conn", 6, 6), ("raw", 0, 5), ("raw", 1, 10), ("raw", 5, 1), ("server", 0, 5), ("server", 1, 5)],
        "C03" => &[("conn", 3, 5), ("raw", 4, 6), ("raw", 0, 1), ("server", 5, 3), ("rawserver", 2, 2)],
        "C04" => &[("conn", 7, 0), ("raw", 0, 40), ("raw", 1, 40), ("raw", 5, 2), ("conn", 5, 2), ("conn", 0, 20), ("conn", 1, 10), ("conn", 4, 10), ("server", 0, 10), ("rawclient", 0, 10)],
        "C05" => &[("server", 7, 0), ("raw", 1, 15), ("raw", 2, 30), ("raw", 3, 15), ("raw", 5, 1), ("raw", 6, 3), ("conn", 4, 10), ("rpc", 2, 5), ("server", 1, 5), ("rawclient", 1, 10), ("rawserver", 1, 20)],
        "C06" => &[("server", 7, 0), ("conn", 1, 6), ("rpc", 1, 1), ("server", 1, 3)],
        "C07" => &[("conn", 2, 4), ("conn", 3, 3), ("raw", 2, 2), ("raw", 4, 2), ("rpc", 2, 2), ("server", 2, 3), ("server", 5, 1), ("rawserver", 2, 2)],
        "C08" => &[("rpc", 9, 0), ("rpc", 8, 1), ("rpc", 0, 5), ("rpc", 3, 2), ("rpc", 4, 2), ("rpc", 5, 1), ("rpc", 2, 2), ("rawserver", 0, 2), ("rawclient", 0, 2)],
        "C09" => &[("rpc", 9, 0), ("rpc", 8, 1), ("rpc", 0, 5), ("rpc", 2, 3), ("rpc", 4, 2), ("rpc", 5, 2), ("rawserver", 0, 2), ("rawserver", 2, 2), ("rawclient", 0, 2)],
        "C10" => &[("rpc", 9, 0), ("rpc", 8, 1), ("rpc", 4, 8), ("rpc", 0, 2), ("rpc", 1, 1), ("rpc", 2, 2), ("rawclient", 0, 3), ("rawserver", 4, 4)],
        "C11" => &[("rpc", 9, 0), ("rpc", 8, 1), ("rpc", 2, 6), ("rpc", 6, 1), ("rawserver", 1, 2), ("rawserver", 2, 4), ("rawclient", 2, 2)],
        "C12" => &[("rpc", 10, 0), ("server", 6, 0), ("rpc", 2, 12), ("rpc", 6, 16), ("rpc", 7, 1), ("server", 2, 8), ("server", 3, 12), ("server", 4, 1), ("rawclient", 1, 8), ("rawclient", 2, 4)],
        "C13" => &[("rpc", 9, 0), ("rpc", 8, 1), ("rpc", 5, 5), ("rpc", 4, 2), ("rpc", 0, 1)],
        "C14" => &[("rawserver", 0, 5), ("rawclient", 0, 5), ("rawserver", 4, 2)],
        "C15" => &[("soak", 0, 3), ("soak", 1, 3), ("soak", 2, 2), ("soak", 3, 2), ("soak", 5, 2), ("rpc", 2, 6)],
        "C16" => &[("soak", 4, 8), ("conn", 0, 1), ("conn", 1, 1), ("raw", 0, 1), ("rpc", 0, 1), ("server", 0, 1)],
        "C17" => &[("rpc", 3, 6), ("rawclient", 3, 4), ("rawserver", 3, 4)],
        _ => &[],
    };
    list.iter().map(|&(world, profile, weight)| Spec { world, profile, weight: if weight == 0 { 1 } else { weight * RARE } }).collect()
}

/// Does this kind of violation break this property?
pub fn maps(class: &str, property: &str) -> bool {
    let any = |l: &[&str]| l.contains(&property);
    match class {
        "panic" | "hang" | "livelock" | "deadlock" | "runaway-memory" => true,
        "stuck" => !any(&["C04", "C15", "C16"]),
        "task-growth" => any(&["C06", "C10", "C15"]),
        "no-quiescence" => !any(&["C01", "C04", "C06", "C15"]),

        "delivery-order" => any(&["C01"]),
        "delivery-altered" => any(&["C01", "C04"]),
        "stall" => any(&["C01", "C02", "C06"]),
        "starved" => any(&["C02"]),
        "sender-stuck" => any(&["C02", "C06", "C13"]),
        "unexpected-end" => any(&["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C17"]),
        "wire-bytes" => any(&["C04"]),
        "close-lost-inbound" | "close-lost-outbound" | "close-not-orderly" => any(&["C03"]),
        "legal-refused" => any(&["C05", "C04", "C01", "C06"]),
        "hostile-delivered" | "hostile-open" | "oversize-open" | "oversize-sent" => any(&["C05", "C06"]),
        "buffering-unbounded" | "limit-ignored" => any(&["C06"]),
        "fate-open" | "fate-socket" => any(&["C05", "C07", "C11", "C12"]),
        "fate-handle" | "fate-late-delivery" | "fate-reactor" | "fate-sender" => any(&["C05", "C07"]),

        "rpc-wrong-response" => any(&["C08", "C09", "C10", "C12", "C14", "C17"]),
        "rpc-duplicated" | "request-altered" => any(&["C08", "C09"]),
        "rpc-lost-request" => any(&["C08", "C09", "C10", "C12", "C13", "C14", "C17"]),
        "rpc-lost-response" => any(&["C08", "C10", "C12", "C13", "C14", "C17"]),
        "rpc-spurious-error" => any(&["C08", "C09", "C10", "C12", "C13", "C14", "C17"]),
        "stream-order" | "stream-altered" | "stream-truncated" | "stream-no-end" | "stream-after-end" => {
            any(&["C09", "C10", "C11", "C12", "C14", "C17"])
        }
        "stream-stuck" => any(&["C09", "C10", "C12", "C13", "C14", "C17"]),
        "cancel-ignored" | "cancel-late" => any(&["C10", "C13"]),
        "cancel-spurious" => any(&["C10"]),
        "rpc-dropped-work" => any(&["C08", "C10", "C12", "C14", "C17"]),
        "call-hangs" => any(&["C11", "C14"]),
        "late-call" | "is-alive" => any(&["C11"]),
        "server-leak" => any(&["C11", "C15"]),
        "server-ended" | "server-dead" | "cross-connection" | "service-dropped" => any(&["C12"]),
        "rpc-starved" => any(&["C13"]),
        "stray-effect" => any(&["C14"]),
        "memory-growth" => any(&["C15"]),
        "busy" | "idle-polls" => any(&["C16"]),
        _ => false,
    }
}

/// Runs per check in the quick tier, chosen to take about a minute on 8 cores.
fn quick_runs(property: &str) -> u64 {
    match property {
        "C01" | "C04" | "C05" => 100_000,
        "C02" => 80_000,
        "C03" => 200_000,
        "C06" => 50_000,
        "C07" => 160_000,
        "C08" | "C09" | "C17" => 90_000,
        "C10" => 70_000,
        "C11" => 180_000,
        "C12" => 120_000,
        "C13" => 50_000,
        "C14" | "C16" => 140_000,
        _ => 30_000,
    }
}

fn known_findings(dir: &Path, property: &str) -> Vec<String> {
    // lines "known: property=<id> class=<class> world=<world> profile=<n> <what fails>"
    let Ok(t) = std::fs::read_to_string(dir.join("known-findings.txt")) else {
        return Vec::new();
    };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.split_whitespace().any(|w| w == format!("property={property}")))
        .map(|l| l.to_string())
        .collect()
}

pub fn check(property: &str, dir: &Path) -> i32 {
    let Some(&property) = PROPERTIES.iter().find(|p| **p == property) else {
        eprintln!("unknown property {property}");
        return 3;
    };
    let sp = specs(property);
    if sp.is_empty() {
        eprintln!("no worlds for {property}");
        return 3;
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let scale = std::env::var("VERIF_RUNS_PERCENT").ok().and_then(|s| s.parse().ok()).unwrap_or(100u64);
    let runs = quick_runs(property) * if thorough { 40 } else { 1 } * scale / 100;
    let plan = Plan {
        property: property.to_string(),
        specs: sp.clone(),
        runs,
        wall: Duration::from_secs(if thorough { 780 } else { 240 }),
        seed,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
    };
    let t0 = Instant::now();
    let (totals, found) = runner::run_plan(&plan, maps);
    let searched = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violation = serde_json::Value::Null;
    for k in known_findings(dir, property) {
        println!("KNOWN-FINDING: {k}");
    }
    if let Some(f) = found {
        if runner::harness_class(&f.class) {
            eprintln!("harness error {} in world {} profile {} seed {}: {}", f.class, f.world.name, f.profile, f.seed, f.detail);
            return 3;
        }
        let dirr: PathBuf = dir.join("replays");
        let path = if f.log.is_some() {
            let (st, tries) = runner::minimise(&f, Duration::from_secs(if thorough { 90 } else { 25 }));
            runner::write_replay(&dirr, property, &f, Some(&st), tries)
        } else {
            runner::write_replay(&dirr, property, &f, None, 0)
        };
        println!("{}: {} (world {} profile {} seed {})", f.class, f.detail, f.world.name, f.profile, f.seed);
        println!("VIOLATION property={property} replay={}", path.display());
        violation = serde_json::json!({"class": f.class, "detail": f.detail, "world": f.world.name, "profile": f.profile, "seed": f.seed.to_string(), "replay": path.display().to_string()});
        code = 1;
    }
    let per_hour = totals.runs as f64 / searched.max(0.001) * 3600.0;
    let ev = serde_json::json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "coverage": {
            "evaluations": totals.runs,
            "distinct_nontrivial": totals.nontrivial.len(),
            "rule": "an evaluation is one simulated run of a world with its own seed; it counts as distinct and non-trivial when the hash of its whole event trace (every scheduling decision, delivery, fault and event) was not seen before in this check, at least one unit of application work (message or call) was started in it and at least one fault or in-poll preemption was injected",
            "samples": totals.samples,
            "planned_runs": runs,
            "stopped_by_wall_clock": totals.runs < runs && code == 0,
            "seeds_per_hour": per_hour.round(),
            "simulated_seconds": totals.sim_ns as f64 / 1e9,
            "scheduler_steps": totals.steps,
            "random_decisions": totals.decisions,
            "faults_injected": runner::fault_map(&totals.faults),
            "distinct_interleavings": totals.hashes.len(),
            "distinct_interleavings_measure": "distinct 64-bit hashes of the complete event trace of a run",
            "distinct_states": totals.states.len(),
            "distinct_states_measure": "distinct abstract states noted while running: per connection end, what is queued, in flight, accepted and delivered in coarse buckets, and the call states in rpc worlds",
            "runs_per_world": totals.per_world,
            "profiles": sp.iter().map(|s| format!("{}/{}", s.world, s.profile)).collect::<Vec<_>>(),
            "work_units_and_scenarios": totals.probes,
            "log_lines_of_the_code_reached": totals.logs,
            "violations_of_other_properties_seen": totals.other,
            "real_code": ["protosocket-connection", "protosocket-rpc (client and server)", "protosocket-server", "protosocket-prost", "protosocket-messagepack", "tokio::sync channels", "tokio-util PollSender", "futures"],
            "stubs": ["tokio::net sockets (simulated TCP with kernel-like buffers)", "tokio runtime: spawn, scheduler, cooperative budget", "tokio::time", "k-lock mutex (simulated, scheduling point)", "applications, services and scripted peers"],
        },
        "violation": violation,
    });
    let evdir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{property}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{property} {tier} seed {seed}: {} runs in {:.1} s ({} distinct non-trivial), {} steps, {:.1} simulated s; exit {code}",
        totals.runs, searched, totals.nontrivial.len(), totals.steps, totals.sim_ns as f64 / 1e9
    );
    code
}
