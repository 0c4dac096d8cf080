mod alloc;
mod check;
mod env;
mod msg;
mod peer;
mod rpcs;
mod runner;
mod worlds;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
}

fn main() {
    // every connection has a buffer of 2 MiB: keep freed memory instead of giving it back after each run
    // (M_MMAP_THRESHOLD, M_TRIM_THRESHOLD, M_TOP_PAD)
    unsafe {
        mallopt(-3, 32 << 20);
        mallopt(-1, 512 << 20);
        mallopt(-2, 16 << 20);
    }
    runner::init();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize, d: u64| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => {
            // run <world> <profile> <seed>: one traced run
            let w = runner::world(&args[1]).expect("world");
            let o = runner::execute(w, num(2, 0) as u32, simcore::Source::Seed(num(3, 1)), true);
            for l in &o.r.trace {
                println!("{l}");
            }
            println!("steps {} sim {} us hash {:016x} faults {:?}", o.r.steps, o.r.sim_ns / 1000, o.r.hash, runner::fault_map(&o.r.faults));
            println!("violations {:?}", o.r.violations);
            0
        }
        Some("explore") => {
            // explore <world> <profile> <runs> [seed]: everything that fails, by class
            let w: &'static str = runner::world(&args[1]).expect("world").name;
            let plan = runner::Plan {
                property: "explore".into(),
                specs: vec![runner::Spec { world: w, profile: num(2, 0) as u32, weight: 1 }],
                runs: num(3, 1000),
                wall: std::time::Duration::from_secs(600),
                seed: num(4, 1),
                threads: 8,
            };
            let t0 = std::time::Instant::now();
            let (t, f) = runner::run_plan(&plan, |_, _| false);
            println!("{} runs in {:.1}s, {} distinct, {} nontrivial, {} steps, faults {:?}", t.runs, t0.elapsed().as_secs_f64(), t.hashes.len(), t.nontrivial.len(), t.steps, runner::fault_map(&t.faults));
            println!("probes {:?}", t.probes);
            if std::env::var("LOGS").is_ok() {
                for (k, v) in &t.logs {
                    println!("  log {k}: {v}");
                }
            }
            println!("classes {:?}", t.other);
            for e in &t.other_examples {
                println!("  {e}");
            }
            if let Some(f) = f {
                println!("stopped: {} {} profile {} seed {} {}", f.class, f.world.name, f.profile, f.seed, f.detail);
            }
            0
        }
        Some("sweep") => {
            // sweep <runs> [seed] [wall]: all worlds; the first violation and the properties it breaks
            let mut specs = Vec::new();
            for p in check::PROPERTIES {
                for s in check::specs(p) {
                    if !specs.iter().any(|o: &runner::Spec| o.world == s.world && o.profile == s.profile) {
                        let weight = match (s.world, s.profile) {
                            ("conn", 7) | ("rpc", 9 | 10) | ("server", 6 | 7) => 0,
                            ("soak", _) | ("conn", 5) | ("raw", 5 | 6) => 1,
                            _ => 4,
                        };
                        specs.push(runner::Spec { weight, ..s });
                    }
                }
            }
            let plan = runner::Plan {
                property: "sweep".into(),
                specs,
                runs: num(1, 10_000),
                wall: std::time::Duration::from_secs(num(3, 120)),
                seed: num(2, 1),
                threads: std::env::var("THREADS").ok().and_then(|t| t.parse().ok()).unwrap_or(8),
            };
            let (t, f) = runner::run_plan(&plan, |_, _| true);
            match f {
                Some(f) => {
                    let by: Vec<_> = check::PROPERTIES
                        .iter()
                        .filter(|p| check::maps(&f.class, p) && check::specs(p).iter().any(|s| s.world == f.world.name && s.profile == f.profile))
                        .collect();
                    println!("FOUND after {} runs: {} {} profile {} seed {} {} breaks {by:?}", t.runs, f.class, f.world.name, f.profile, f.seed, f.detail);
                    1
                }
                None => {
                    println!("nothing in {} runs", t.runs);
                    0
                }
            }
        }
        Some("check") => check::check(args.get(1).map(|s| s.as_str()).unwrap_or(""), std::path::Path::new(args.get(2).map(|s| s.as_str()).unwrap_or("/verif"))),
        Some("selftest") => runner::selftest(num(1, 400), num(2, 1)),
        Some("replay") => runner::replay(std::path::Path::new(&args[1])),
        _ => {
            eprintln!("usage: psim check <property> | replay <file> | run <world> <profile> <seed> | explore <world> <profile> <runs> [seed] | selftest [n] [seed]");
            3
        }
    };
    std::process::exit(code);
}
