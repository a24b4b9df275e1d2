//! Runs one simulated world per forked process; searches seeds, shrinks and replays violations.
use crate::kernel::*;
use crate::tape::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

pub struct Ctx {
    pub vio: Vec<(String, String)>,
    pub nontrivial: bool,
    pub checks: u64,
    pub state: BTreeSet<u64>,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();
static mut OUT: *mut u8 = std::ptr::null_mut();
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
impl Ctx {
    pub fn fail<S: Into<String>, T: Into<String>>(&mut self, class: S, detail: T) {
        self.vio.push((class.into(), detail.into()));
    }
    /// an oracle was applied
    pub fn check<S: Into<String>, T: FnOnce() -> String>(&mut self, ok: bool, class: S, detail: T) {
        self.checks += 1;
        if !ok {
            let d = detail();
            self.fail(class, d);
        }
    }
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
}
pub type PropFn = fn(&mut Ctx);

pub const OUT_CAP: usize = 8 << 20;
pub struct Shm {
    pub base: *mut u8,
}
unsafe impl Send for Shm {}
impl Shm {
    pub fn new() -> Shm {
        let n = OUT_CAP + 3 * TAPE_CAP * 4;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shm { base: p as *mut u8 }
    }
    fn tape(&self, i: usize) -> *mut u32 {
        unsafe { self.base.add(OUT_CAP + i * TAPE_CAP * 4) as *mut u32 }
    }
    fn tapes(&self) -> [Vec<u32>; 3] {
        let g = |i| unsafe {
            let p = self.tape(i);
            std::slice::from_raw_parts(p.add(1), *p as usize).to_vec()
        };
        [g(0), g(1), g(2)]
    }
    fn out(&self) -> Option<Value> {
        unsafe {
            let n = *(self.base as *const u64) as usize;
            if n == 0 {
                return None;
            }
            serde_json::from_slice(std::slice::from_raw_parts(self.base.add(8), n)).ok()
        }
    }
}

fn publish() {
    let wd = w();
    let c = ctx();
    // what was generated is part of the history
    for d in 0..wd.desc.len() {
        let h = hash_str(&wd.desc[d]);
        wd.ev_hash = mix(wd.ev_hash, h);
    }
    let mut fired = BTreeMap::new();
    for i in 0..NF {
        if wd.fired[i] > 0 {
            fired.insert(FNAMES[i], wd.fired[i]);
        }
    }
    if wd.crashed {
        fired.insert("process_crash", 1);
    }
    let v = json!({
        "vio": c.vio, "nt": c.nontrivial, "checks": c.checks, "ev": wd.ev_hash, "sch": wd.sched_hash, "multi": wd.multi, "switches": wd.switches,
        "steps": wd.steps, "sim": wd.now - wd.t0, "fired": fired, "probes": wd.probes, "state": c.state,
        "muts": wd.muts_done.len(), "procs": wd.procs.len(), "clients": wd.nclients,
        "desc": wd.desc.iter().map(|d| short(d, 1500)).collect::<Vec<_>>(), "log": wd.log, "mode": wd.mode,
    });
    let mut s = serde_json::to_vec(&v).unwrap();
    if s.len() > OUT_CAP - 16 {
        let v2 = json!({"vio": c.vio.iter().map(|(a,b)| (a, short(b, 3000))).collect::<Vec<_>>(), "nt": c.nontrivial, "ev": wd.ev_hash, "sch": wd.sched_hash, "multi": 0, "switches": 0, "steps": wd.steps, "sim": 0, "fired": {}, "probes": {}, "state": [], "muts": 0, "procs": 0, "clients": 0, "checks": 0, "desc": [], "log": [], "mode": 0});
        s = serde_json::to_vec(&v2).unwrap();
    }
    unsafe {
        std::ptr::copy_nonoverlapping(s.as_ptr(), OUT.add(8), s.len());
        *(OUT as *mut u64) = s.len() as u64;
    }
}
fn fatal(class: &'static str, detail: String) -> ! {
    set_me(-1);
    ctx().fail(class, detail);
    publish();
    exit_now(0)
}

pub enum Src {
    Seed(u64),
    Tapes([Vec<u32>; 3]),
}

/// in the child process
fn child(body: PropFn, src: &Src, shm: &Shm, trace: bool) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 15, rlim_max: 16 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &mem);
        libc::alarm(90);
    }
    let (g, s, f) = match src {
        Src::Seed(x) => (Tape::fresh(mix(*x, 1), shm.tape(0)), Tape::fresh(mix(*x, 2), shm.tape(1)), Tape::fresh(mix(*x, 3), shm.tape(2))),
        Src::Tapes(t) => (Tape::replay(t[0].clone(), shm.tape(0)), Tape::replay(t[1].clone(), shm.tape(1)), Tape::replay(t[2].clone(), shm.tape(2))),
    };
    install(g, s, f, trace);
    w().fatal = Some(fatal);
    unsafe {
        CTX = Box::into_raw(Box::new(Ctx { vio: vec![], nontrivial: false, checks: 0, state: BTreeSet::new() }));
        OUT = shm.base;
    }
    std::panic::set_hook(Box::new(|i| {
        let e = me();
        let _o = off();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = format!("{} at {}", m, loc);
        if i.location().map(|l| l.file().starts_with("src/")).unwrap_or(false) && !(m.starts_with("host function ") && m.ends_with(" panicked")) {
            // a panic of the harness itself: it may be inside a simulated call and cannot unwind
            let bt = std::backtrace::Backtrace::force_capture();
            let bt: String = bt.to_string().lines().filter(|l| l.contains(" at src/") || l.contains(" at ./src/")).take(6).collect::<Vec<_>>().join(" ");
            fatal("harness", format!("{} {}", msg, bt));
        }
        if e >= 0 {
            let c = w().ents[e as usize].client;
            if w().ents[e as usize].helper {
                w().helper_panics.push(msg.clone());
            }
            w().panics.push((c, msg));
        } else {
            w().panics.push((-1, msg));
        }
    }));
    // the child's environment is the simulated one (RUST_* stays hidden)
    w().set_env_block();
    // on a thread of its own, so that its hash keys are new and the run's own
    let r = std::thread::Builder::new().stack_size(32 << 20).spawn(move || std::panic::catch_unwind(|| body(ctx())).is_err()).unwrap().join();
    if r.unwrap_or(true) {
        let m = w().panics.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join("; ");
        ctx().fail("harness", m);
    }
    publish();
    exit_now(0)
}

pub struct Outcome {
    pub v: Value,
    pub tapes: [Vec<u32>; 3],
}
impl Outcome {
    pub fn vio(&self) -> Vec<(String, String)> {
        self.v["vio"].as_array().map(|a| a.iter().map(|p| (p[0].as_str().unwrap_or("").to_string(), p[1].as_str().unwrap_or("").to_string())).collect()).unwrap_or_default()
    }
    pub fn class(&self) -> Option<String> {
        self.vio().first().map(|v| v.0.clone())
    }
}

pub fn run_one(body: PropFn, src: &Src, shm: &Shm, trace: bool) -> Outcome {
    unsafe {
        *(shm.base as *mut u64) = 0;
        let pid = libc::fork();
        if pid == 0 {
            child(body, src, shm, trace);
        }
        if pid < 0 {
            panic!("fork failed");
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let tapes = shm.tapes();
        match shm.out() {
            Some(v) if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 => Outcome { v, tapes },
            _ => {
                let (c, d) = if libc::WIFSIGNALED(st) {
                    let s = libc::WTERMSIG(st);
                    if s == libc::SIGXCPU || s == libc::SIGALRM || s == libc::SIGKILL {
                        ("hang", format!("the run did not end (signal {})", s))
                    } else {
                        ("abort", format!("the process was ended by signal {}", s))
                    }
                } else {
                    ("abort", format!("exit status {:#x}", st))
                };
                Outcome { v: json!({"vio": [[c, d]], "nt": true, "ev": 0, "sch": 0, "multi": 0, "switches": 0, "steps": 0, "sim": 0, "fired": {}, "probes": {}, "state": [], "muts": 0, "procs": 0, "clients": 0, "checks": 0, "desc": [], "log": [], "mode": 0}), tapes }
            }
        }
    }
}

#[derive(Default)]
pub struct Agg {
    pub runs: u64,
    pub nt: u64,
    pub checks: u64,
    pub steps: u64,
    pub sim: u64,
    pub multi: u64,
    pub switches: u64,
    pub procs: u64,
    pub muts: u64,
    pub clients: u64,
    pub fired: BTreeMap<String, u64>,
    pub fruns: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub modes: BTreeMap<String, u64>,
    pub evs: BTreeSet<u64>,
    pub schs: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub samples: Vec<Value>,
    pub nofault: u64,
    pub flukes: Vec<String>,
}
impl Agg {
    fn add(&mut self, i: u64, o: &Value) {
        self.runs += 1;
        let u = |k: &str| o[k].as_u64().unwrap_or(0);
        self.checks += u("checks");
        self.steps += u("steps");
        self.sim += u("sim");
        self.multi += u("multi");
        self.switches += u("switches");
        self.procs += u("procs");
        self.muts += u("muts");
        self.clients += u("clients");
        let mut any = false;
        if let Some(m) = o["fired"].as_object() {
            for (k, v) in m {
                any = true;
                *self.fired.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                *self.fruns.entry(k.clone()).or_insert(0) += 1;
            }
        }
        if !any {
            self.nofault += 1;
        }
        if let Some(m) = o["probes"].as_object() {
            for (k, v) in m {
                *self.probes.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
        }
        *self.modes.entry(["run_to_completion", "random", "sticky_random", "pct", "others_first", "threads_first"][u("mode") as usize % 6].to_string()).or_insert(0) += 1;
        if o["nt"] == json!(true) {
            self.nt += 1;
            self.evs.insert(u("ev"));
        }
        if u("multi") > 0 {
            self.schs.insert(u("sch"));
        }
        if let Some(a) = o["state"].as_array() {
            for x in a {
                self.states.insert(x.as_u64().unwrap_or(0));
            }
        }
        if self.samples.len() < 1 && o["nt"] == json!(true) {
            self.samples.push(json!({"run": i, "case": o["desc"], "faults": o["fired"], "steps": o["steps"]}));
        }
    }
    fn to_json(&self) -> Value {
        json!({"c": [self.runs, self.nt, self.checks, self.steps, self.sim, self.multi, self.switches, self.procs, self.muts, self.clients, self.nofault],
            "fired": self.fired, "fruns": self.fruns, "probes": self.probes, "modes": self.modes, "evs": self.evs, "schs": self.schs, "states": self.states, "samples": self.samples, "flukes": self.flukes})
    }
    fn merge(&mut self, v: &Value) {
        let c: Vec<u64> = v["c"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        self.runs += c[0];
        self.nt += c[1];
        self.checks += c[2];
        self.steps += c[3];
        self.sim += c[4];
        self.multi += c[5];
        self.switches += c[6];
        self.procs += c[7];
        self.muts += c[8];
        self.clients += c[9];
        self.nofault += c[10];
        for (n, t) in [("fired", &mut self.fired), ("fruns", &mut self.fruns), ("probes", &mut self.probes), ("modes", &mut self.modes)] {
            for (k, x) in v[n].as_object().unwrap() {
                *t.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
            }
        }
        for (n, t) in [("evs", &mut self.evs), ("schs", &mut self.schs), ("states", &mut self.states)] {
            for x in v[n].as_array().unwrap() {
                t.insert(x.as_u64().unwrap());
            }
        }
        for s in v["flukes"].as_array().unwrap() {
            self.flukes.push(s.as_str().unwrap_or("").to_string());
        }
        for s in v["samples"].as_array().unwrap() {
            if self.samples.len() < 4 {
                self.samples.push(s.clone());
            }
        }
    }
}

pub struct Known {
    pub prop: String,
    pub class: String,
    pub text: String,
}
pub fn known_findings(path: &str) -> Vec<Known> {
    // line format:  KNOWN property=<id> class=<class> match=<text to the end of the line>
    let s = std::fs::read_to_string(path).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("KNOWN property=")?;
            let (prop, r) = r.split_once(" class=")?;
            let (class, text) = r.split_once(" match=")?;
            Some(Known { prop: prop.into(), class: class.into(), text: text.into() })
        })
        .collect()
}
pub fn unknown(prop: &str, o: &Outcome, kn: &[Known]) -> Option<(String, String)> {
    o.vio().into_iter().find(|(c, d)| !kn.iter().any(|k| k.prop == prop && k.class == *c && d.contains(&k.text)))
}

pub struct Cfg {
    pub prop: String,
    pub body: PropFn,
    pub seed: u64,
    pub runs: u64,
    pub secs: f64,
    pub workers: usize,
    pub tier: String,
    pub verif: String,
    pub rule: String,
    pub title: String,
}
pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), i)
}

pub struct Found {
    pub index: u64,
    pub outcome: Outcome,
    pub class: String,
}

/// explore; returns aggregate and the violating run of the smallest index among those executed
pub fn explore(c: &Cfg, kn: &[Known]) -> (Agg, Option<u64>, BTreeSet<String>) {
    let ctl = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as *mut AtomicU64;
    let next = unsafe { &*ctl };
    let minv = unsafe { &*ctl.add(1) };
    next.store(0, SeqCst);
    minv.store(u64::MAX, SeqCst);
    unsafe { COV = libc::mmap(std::ptr::null_mut(), COV_MAX, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8 };
    let t0 = Instant::now();
    let cpus = cpus();
    let mut kids = vec![];
    for wi in 0..c.workers {
        let mut p = [0i32; 2];
        unsafe { libc::pipe(p.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::close(p[0]) };
            pin(cpus[wi % cpus.len()]);
            let shm = Shm::new();
            let mut agg = Agg::default();
            let mut kf: BTreeSet<String> = BTreeSet::new();
            loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= c.runs || i > minv.load(SeqCst) || t0.elapsed().as_secs_f64() > c.secs {
                    break;
                }
                let t1 = std::time::Instant::now();
                let o = run_one(c.body, &Src::Seed(run_seed(c.seed, &c.prop, i)), &shm, false);
                if t1.elapsed().as_secs() >= 2 && std::env::var_os("SIM_SLOW").is_some() {
                    eprintln!("run {} took {:.1} s", i, t1.elapsed().as_secs_f64());
                }
                agg.add(i, &o.v);
                for (cl, d) in o.vio() {
                    if kn.iter().any(|k| k.prop == c.prop && k.class == cl && d.contains(&k.text)) {
                        kf.insert(format!("{} {}", cl, short(&d, 300)));
                    }
                }
                if let Some((cl, d)) = unknown(&c.prop, &o, kn) {
                    // it must happen again, or it was not the run's doing (a machine out of threads or memory)
                    let again = (0..3).any(|_| {
                        let o = run_one(c.body, &Src::Seed(run_seed(c.seed, &c.prop, i)), &shm, false);
                        unknown(&c.prop, &o, kn).is_some()
                    });
                    if again {
                        minv.fetch_min(i, SeqCst);
                    } else {
                        agg.flukes.push(format!("run {}: {} {}", i, cl, short(&d, 200)));
                    }
                }
            }
            let mut j = agg.to_json();
            j["known"] = json!(kf);
            let s = serde_json::to_vec(&j).unwrap();
            let mut f = unsafe { <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(p[1]) };
            f.write_all(&s).unwrap();
            drop(f);
            exit_now(0);
        }
        unsafe { libc::close(p[1]) };
        kids.push((pid, p[0]));
    }
    let mut agg = Agg::default();
    let mut kf = BTreeSet::new();
    for (pid, fd) in kids {
        let mut f = unsafe { <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(fd) };
        let mut s = vec![];
        f.read_to_end(&mut s).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Value>(&s) {
            Ok(v) => {
                agg.merge(&v);
                for k in v["known"].as_array().unwrap() {
                    kf.insert(k.as_str().unwrap().to_string());
                }
            }
            Err(e) => {
                eprintln!("harness error: a worker died: {}", e);
                std::process::exit(3);
            }
        }
    }
    let m = minv.load(SeqCst);
    (agg, if m == u64::MAX { None } else { Some(m) }, kf)
}
/// edges of the library that were executed inside simulated calls, and all of them
pub fn coverage() -> (usize, usize) {
    let n = edge_count();
    (if unsafe { COV.is_null() } { 0 } else { (1..=n.min(COV_MAX - 1)).filter(|i| unsafe { *COV.add(*i) } > 0).count() }, n)
}
pub fn coverage_map() -> Vec<u8> {
    (0..=edge_count().min(COV_MAX - 1)).map(|i| unsafe { *COV.add(i) }).collect()
}
pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut s);
        let v: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &s)).collect();
        if v.is_empty() {
            vec![0]
        } else {
            v
        }
    }
}
pub fn pin(cpu: usize) {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
    }
}

/// shrink the tapes while a violation of the same class persists
pub fn shrink(c: &Cfg, shm: &Shm, kn: &[Known], first: &Outcome, class: &str, secs: f64) -> (Outcome, u64) {
    let t0 = Instant::now();
    let mut n = 0u64;
    let mut best: [Vec<u32>; 3] = first.tapes.clone();
    let mut out = run_one(c.body, &Src::Tapes(best.clone()), shm, false);
    let try_it = |t: &[Vec<u32>; 3], n: &mut u64| -> Option<Outcome> {
        *n += 1;
        let o = run_one(c.body, &Src::Tapes(t.clone()), shm, false);
        match unknown(&c.prop, &o, kn) {
            Some((cl, _)) if cl == class => Some(o),
            _ => None,
        }
    };
    let slow = |t0: &Instant| t0.elapsed().as_secs_f64() > secs;
    loop {
        let before: (usize, u64) = (best.iter().map(|t| t.len()).sum(), best.iter().flatten().map(|v| *v as u64).sum());
        // whole tapes first, then truncation, block deletion, zeroing, lowering
        for k in [2usize, 1, 0] {
            if !best[k].is_empty() {
                let mut t = best.clone();
                t[k].clear();
                if let Some(o) = try_it(&t, &mut n) {
                    best = t;
                    out = o;
                }
            }
            let mut cut = best[k].len() / 2;
            while cut > 0 && !slow(&t0) {
                while best[k].len() >= cut && cut > 0 {
                    let mut t = best.clone();
                    let l = t[k].len();
                    t[k].truncate(l - cut);
                    match try_it(&t, &mut n) {
                        Some(o) => {
                            best = t;
                            out = o;
                        }
                        None => break,
                    }
                }
                cut /= 2;
            }
            for size in [64usize, 16, 8, 4, 3, 2, 1] {
                let mut i = best[k].len();
                while i >= size && !slow(&t0) {
                    i -= 1;
                    if i + 1 < size {
                        break;
                    }
                    let s = i + 1 - size;
                    let mut t = best.clone();
                    t[k].drain(s..s + size);
                    if let Some(o) = try_it(&t, &mut n) {
                        best = t;
                        out = o;
                        i = s.min(best[k].len());
                        continue;
                    }
                    if best[k][s..s + size].iter().any(|v| *v != 0) {
                        let mut t = best.clone();
                        t[k][s..s + size].iter_mut().for_each(|v| *v = 0);
                        if let Some(o) = try_it(&t, &mut n) {
                            best = t;
                            out = o;
                        }
                    }
                    if size > 4 {
                        i = i.saturating_sub(size / 2);
                    }
                }
            }
            for i in 0..best[k].len() {
                while !slow(&t0) && i < best[k].len() && best[k][i] > 0 {
                    let mut t = best.clone();
                    let v = t[k][i];
                    t[k][i] = v / 2;
                    let mut got = try_it(&t, &mut n);
                    if got.is_none() && v > 1 {
                        t[k][i] = v - 1;
                        got = try_it(&t, &mut n);
                    }
                    match got {
                        Some(o) => {
                            best = t;
                            out = o;
                        }
                        None => break,
                    }
                }
            }
        }
        let after = (best.iter().map(|t| t.len()).sum(), best.iter().flatten().map(|v| *v as u64).sum());
        if after == before || slow(&t0) {
            break;
        }
    }
    (out, n)
}
