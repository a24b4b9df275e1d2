#![allow(invalid_runtime_symbol_definitions, static_mut_refs)]
mod driver;
mod fs;
mod kernel;
mod gen;
mod model;
mod props;
mod shim;
mod tape;

use driver::*;
use serde_json::{json, Value};
use std::time::Instant;

#[global_allocator]
static ALLOC: kernel::Alloc = kernel::Alloc;

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn harness_error(m: &str) -> ! {
    println!("HARNESS-ERROR {}", m);
    std::process::exit(3)
}
fn cfg(prop: &str) -> Cfg {
    let p = props::find(prop).unwrap_or_else(|| harness_error("unknown property"));
    let tier = arg("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let (runs, secs) = if tier == "thorough" { (p.quick_runs * 40, 1500.0) } else { (p.quick_runs * 8, 45.0) };
    let runs = arg("--runs").and_then(|v| v.parse().ok()).unwrap_or(runs);
    let secs = arg("--secs").and_then(|v| v.parse().ok()).unwrap_or(secs);
    let workers = arg("--workers").and_then(|v| v.parse().ok()).unwrap_or(cpus().len().min(8));
    let verif = arg("--verif").unwrap_or("/verif".into());
    Cfg { prop: prop.into(), body: p.body, seed: env_u64("VERIF_SEED", 1), runs, secs, workers, tier, verif, rule: p.rule.into(), title: p.title.into() }
}
fn t3(v: &Value) -> [Vec<u32>; 3] {
    let g = |k: &str| v[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
    [g("workload"), g("schedule"), g("faults")]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // the same addresses in every run
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
            use std::os::unix::process::CommandExt;
            let _ = std::process::Command::new("/proc/self/exe").args(&a[1..]).env("SIM_REEXEC", "1").env("RUST_BACKTRACE", "0").env("RUST_LIB_BACKTRACE", "0").exec();
        }
    }
    // what std and anyhow read once is read here
    std::hint::black_box(anyhow::anyhow!("warm").to_string());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("selfcheck") => selfcheck(&a[2]),
        Some("trace") => {
            // trace <prop> <index>: print one run
            let c = cfg(&a[2]);
            let shm = Shm::new();
            let o = run_one(c.body, &Src::Seed(run_seed(c.seed, &c.prop, a[3].parse().unwrap())), &shm, true);
            print_run(&o);
        }
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.title);
            }
        }
        _ => {
            eprintln!("usage: sim check|replay|selfcheck|trace|list ...");
            std::process::exit(2);
        }
    }
}
fn print_run(o: &Outcome) {
    for d in o.v["desc"].as_array().unwrap() {
        println!("| {}", d.as_str().unwrap());
    }
    for d in o.v["log"].as_array().unwrap() {
        println!("  {}", d.as_str().unwrap());
    }
    println!("faults {} probes {} steps {} nontrivial {} checks {}", o.v["fired"], o.v["probes"], o.v["steps"], o.v["nt"], o.v["checks"]);
    println!("event hash {}", o.v["ev"]);
    for (c, d) in o.vio() {
        println!("!! {}: {}", c, d);
    }
}

fn check(prop: &str) {
    let c = cfg(prop);
    println!("{} seed={} tier={} runs<={} workers={}", c.prop, c.seed, c.tier, c.runs, c.workers);
    let kn = known_findings(&format!("{}/known_findings.txt", c.verif));
    let t0 = Instant::now();
    let (agg, found, kf) = explore(&c, &kn);
    if let Some(p) = std::env::var_os("SIM_COV") {
        // which edges of the library were executed, one byte each
        std::fs::write(p, coverage_map()).ok();
    }
    let wall = t0.elapsed().as_secs_f64();
    for k in &kf {
        println!("KNOWN-FINDING: property={} {}", c.prop, k);
    }
    let mut violations = 0;
    let mut viol = json!(null);
    if let Some(i) = found {
        violations = 1;
        let shm = Shm::new();
        pin(cpus()[0]);
        let seed = run_seed(c.seed, &c.prop, i);
        let mut first = run_one(c.body, &Src::Seed(seed), &shm, false);
        for _ in 0..5 {
            if unknown(&c.prop, &first, &kn).is_some() {
                break;
            }
            first = run_one(c.body, &Src::Seed(seed), &shm, false);
        }
        let class = first.vio().into_iter().find(|(cl, d)| !kn.iter().any(|k| k.prop == c.prop && k.class == *cl && d.contains(&k.text))).map(|v| v.0).unwrap_or("?".into());
        if class == "harness" {
            println!("{:?}", first.vio());
            harness_error("the harness itself failed");
        }
        let (small, tried) = shrink(&c, &shm, &kn, &first, &class, 60.0);
        let tr = run_one(c.body, &Src::Tapes(small.tapes.clone()), &shm, true);
        let dir = format!("{}/replays", c.verif);
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{}/{}-{}.json", dir, c.prop, i);
        let j = json!({
            "property": c.prop, "class": class, "seed": c.seed, "run": i, "run_seed": seed,
            "what": tr.vio(), "case": tr.v["desc"], "faults_injected": tr.v["fired"], "event_hash": tr.v["ev"], "events": tr.v["log"],
            "tapes": {"workload": small.tapes[0], "schedule": small.tapes[1], "faults": small.tapes[2]},
            "shrink_runs": tried, "unshrunk_tape_lengths": [first.tapes[0].len(), first.tapes[1].len(), first.tapes[2].len()],
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        // the replay file must reproduce the same violation
        let again = run_one(c.body, &Src::Tapes(small.tapes.clone()), &shm, true);
        if again.v["vio"] != tr.v["vio"] || again.v["ev"] != tr.v["ev"] {
            println!("warning: replay differs: {:?} / {:?}", again.v["vio"], tr.v["vio"]);
        }
        for (cl, d) in tr.vio() {
            println!("  {}: {}", cl, kernel::short(&d, 1500));
        }
        for d in tr.v["desc"].as_array().unwrap() {
            println!("  | {}", d.as_str().unwrap());
        }
        println!("VIOLATION property={} replay={}", c.prop, path);
        viol = json!({"class": class, "run": i, "replay": path, "what": tr.vio()});
    }
    // a sample of runs is executed again and must repeat exactly
    let mut rep = 0;
    let mut differ = vec![];
    {
        let shm = Shm::new();
        let k = if c.tier == "thorough" { 200 } else { 30 };
        let n = agg.runs.max(1);
        for j in 0..k {
            let i = (j * 7919) % n;
            let s = Src::Seed(run_seed(c.seed, &c.prop, i));
            let a = run_one(c.body, &s, &shm, false);
            let b = run_one(c.body, &s, &shm, true);
            rep += 1;
            if a.v["ev"] != b.v["ev"] || a.v["vio"] != b.v["vio"] {
                differ.push(i);
            }
        }
    }
    let hours = wall / 3600.0;
    let ev = json!({
        "property": c.prop, "tier": if c.tier == "thorough" { "thorough" } else { "quick" }, "seed": c.seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.evs.len(),
            "rule": format!("One evaluation is one simulated run (its own process, seeded by VERIF_SEED, the property and the run number). {} Distinct = different hash over the complete event history (every simulated system call with its result, every fault, every switch of entity).", c.rule),
            "samples": agg.samples,
            "nontrivial_runs": agg.nt,
            "oracle_evaluations": agg.checks,
            "runs_per_hour": (agg.runs as f64 / hours) as u64,
            "seeds_per_hour": (agg.runs as f64 / hours) as u64,
            "simulated_seconds": agg.sim as f64 / 1e9,
            "scheduling_steps": agg.steps,
            "steps_with_a_choice": agg.multi,
            "switches": agg.switches,
            "distinct_interleavings": agg.schs.len(),
            "distinct_states": agg.states.len(),
            "states_measure": "hash of (workload shape, outcome class) pairs recorded by the property's oracle",
            "library_edges_executed": coverage().0, "library_edges": coverage().1,
            "scheduler_modes_runs": agg.modes,
            "client_threads": agg.clients, "child_processes": agg.procs, "outside_file_changes": agg.muts,
            "faults_fired": agg.fired, "runs_with_fault": agg.fruns, "runs_without_fault": agg.nofault,
            "rare_conditions_hit": agg.probes,
            "determinism": {"runs_repeated": rep, "runs_that_differed": differ, "unrepeatable": agg.flukes},
            "real_code": "templito from /repo's working tree, Rust std, every dependency crate",
            "stubs": "libc system interface (files, directories, pipes, processes, threads' scheduling, futexes, clock, entropy, environment, standard streams) = simulated kernel; child programs = scripts; host functions and template managers = harness",
            "violation": viol,
        },
        "assumptions": [
            "the simulated kernel answers as Linux does for the calls the library and std make",
            "sampling, not proof: schedules, faults and workloads are drawn by a seeded generator",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::create_dir_all(format!("{}/evidence", c.verif)).ok();
    std::fs::write(format!("{}/evidence/{}.json", c.verif, c.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{}: {} runs ({} distinct non-trivial), {} interleavings, {:.1}s, faults {:?}, probes {:?}", c.prop, agg.runs, agg.evs.len(), agg.schs.len(), wall, agg.fired, agg.probes);
    for f in &agg.flukes {
        println!("note: did not happen again: {}", f);
    }
    if !differ.is_empty() {
        println!("note: runs that did not repeat exactly: {:?}", differ);
    }
    if agg.nt == 0 && violations == 0 {
        harness_error("no run was non-trivial");
    }
    std::process::exit(if violations > 0 { 1 } else { 0 });
}

fn replay(path: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap().to_string();
    let c = cfg(&prop);
    let shm = Shm::new();
    let o = run_one(c.body, &Src::Tapes(t3(&v["tapes"])), &shm, true);
    print_run(&o);
    let same = o.class() == v["class"].as_str().map(|s| s.to_string());
    println!("{}", if same { format!("VIOLATION property={} replay={}", prop, path) } else { "not reproduced".into() });
    std::process::exit(if o.class().is_some() { 1 } else { 0 });
}

/// runs every seed twice, in different processes and with tracing on and off; prints a digest
fn selfcheck(prop: &str) {
    let c = cfg(prop);
    let shm = Shm::new();
    let mut h = 0u64;
    let mut bad = 0;
    for i in 0..c.runs {
        let s = Src::Seed(run_seed(c.seed, &c.prop, i));
        let a = run_one(c.body, &s, &shm, false);
        let b = run_one(c.body, &Src::Tapes(a.tapes.clone()), &shm, i % 2 == 0);
        h = tape::mix(h, a.v["ev"].as_u64().unwrap_or(0));
        if a.v["ev"] != b.v["ev"] || a.v["vio"] != b.v["vio"] {
            bad += 1;
            println!("run {} differs", i);
        }
    }
    println!("{} runs {} differ {} digest {:016x}", prop, c.runs, bad, h);
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
