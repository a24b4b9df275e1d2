//! All kinds of functions mixed: what they may do (C02), what they leave open (C09), the standard
//! streams (C18), and life after a failure (C21).
use super::engine::{eng_gen, from_td, out_differs, render_one, HS};
use super::files::under;
use super::proc::*;
use super::util::*;
use crate::driver::*;
use crate::kernel::*;
use std::collections::{BTreeMap, BTreeSet};
use templito::func_man::*;
use templito::tparam::TCow;
use templito::*;

pub const READS: [&str; 7] = ["file", "file_bytes", "dir", "is_file", "is_dir", "scan_dir", "file_img_dimensions"];
pub const EFFECTFUL: [&str; 11] = ["file", "file_bytes", "dir", "is_file", "is_dir", "scan_dir", "file_img_dimensions", "write", "exec", "exec_stdin", "env"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Set {
    Defaults,
    Lock,
    Free,
    WLock,
    Exec,
}
pub fn provides(s: Set) -> Vec<&'static str> {
    match s {
        Set::Defaults => vec![],
        Set::Lock => READS.to_vec(),
        Set::Free => {
            let mut v = READS.to_vec();
            v.push("write");
            v
        }
        Set::WLock => vec!["write"],
        Set::Exec => vec!["exec", "exec_stdin", "env"],
    }
}
pub fn compose(sets: &[Set], pl: &Place) -> BasicFuncs {
    let mut b = BasicFuncs::new();
    for s in sets {
        b = match s {
            Set::Defaults => b.with_defaults(),
            Set::Lock => b.with_folder_lock(&pl.spell),
            Set::Free => b.with_free_files(),
            Set::WLock => b.with_write_lock(&pl.spell),
            Set::Exec => b.with_exec(),
        };
    }
    b
}

#[derive(Clone, Debug)]
pub struct Mop {
    pub name: String,
    pub args: Vec<TData>,
    pub via: Via,
}
impl Mop {
    fn show(&self) -> String {
        format!("{:?} {} {}", self.via, self.name, short(&format!("{:?}", self.args), 160))
    }
}
/// Files, programs and variables for mixed calls.
pub fn mix_world(pl: &Place, small: bool) {
    let wd = w();
    let r = &pl.real;
    let n = if small { 60 } else { gen_size() };
    let k = wd.g.below(2);
    wd.fs.put(&under(r, "a.txt"), &gen_bytes(n, k, 1));
    wd.fs.put(&under(r, "sub/b.md"), b"{{export title = \"B\"}}{{@export body}}text {{add 1 2}}{{/export}}");
    wd.fs.put(&under(r, "sub/deep/c.md"), b"{{export n = debug \"noise\"}}{{export m = 3}}");
    wd.fs.put(&under(r, "sub/bad.md"), b"{{export }}{{");
    wd.fs.put(&under(r, "bin"), &[0, 255, 254, 1]);
    wd.fs.put(&under(r, "img.png"), &super::img::png(7, 9));
    wd.fs.put(&under(r, "img.gif"), &super::img::gif(3, 4, 3, 4));
    wd.fs.put(&under(r, "t.tpl"), b"hello {{$0}}");
    wd.fs.mkdirs(&under(r, "empty"));
    wd.fs.put("/etc/passwd", b"root SECRET");
    wd.fs.put("/work/keep.txt", b"keep");
    if wd.g.chance(1, 8) {
        let d = under(r, ["sub", "empty", "sub/deep"][wd.g.below(3)]);
        wd.fs.put_raw(&d, b"b\xfd.md", b"{{export x = 1}}");
        wd.desc.push(format!("{} holds a file whose name is not text", d));
    }
    if wd.g.chance(1, 10) {
        wd.fs.link(&under(r, "sub/gone.md"), "nowhere");
        wd.fs.link(&under(r, "sub/again"), "../sub");
    }
    for (n, s) in [
        ("cat", vec![Act::ReadAll, Act::OutIn]),
        ("yes", vec![Act::Out(gen_bytes(if small { 300 } else { 9000 }, 0, 3))]),
        ("loud", vec![Act::ErrOut(gen_bytes(if small { 300 } else { 9000 }, 0, 4)), Act::OutArgs, Act::Exit(3)]),
        ("half", vec![Act::ReadN(10), Act::Out(b"half\n".to_vec())]),
        ("sleepy", vec![Act::Sleep(1_000_000), Act::OutArgs, Act::Sleep(1_000_000_000)]),
        ("shut", vec![Act::CloseIn, Act::Out(b"shut".to_vec())]),
        ("dies", vec![Act::Out(b"dead".to_vec()), Act::Kill(libc::SIGKILL)]),
        ("junk", vec![Act::Out(vec![0xff, 0xfe, 0])]),
    ] {
        wd.programs.insert(n.as_bytes().to_vec(), Program { script: s });
    }
    for (k, v) in [("HOME", "/home/u"), ("TITLE", "Täst"), ("EMPTY", "")] {
        wd.env.insert(k.as_bytes().to_vec(), v.as_bytes().to_vec());
    }
    wd.env.insert(b"RAW".to_vec(), vec![0xff, 0xfe]);
    wd.set_env_block();
}
const FILES: [&str; 12] = ["a.txt", "sub/b.md", "sub/deep/c.md", "bin", "img.png", "img.gif", "missing.txt", "sub", "", "empty", "sub/bad.md", "../x"];
fn wild() -> TData {
    let wd = w();
    match wd.g.weighted(&[6, 3, 1, 1, 1, 1, 1, 1, 3]) {
        0 => sd(*wd.g.pick(&["a.txt", "/etc/passwd", "sub", "cat", "HOME", "x", "", "a,b", "^a", "{\"a\":1}", "[1,2]", "<b>", "é", "# T\n\npara", "3"])),
        8 => {
            let f = *wd.g.pick(&["/etc/passwd", "/work/keep.txt", "a.txt", "cat", "HOME"]);
            sd(&[
                format!("@{}", f),
                format!("file://{}", f),
                format!("file:{}", f),
                format!("${}", f),
                format!("${{{}}}", f),
                format!("`{}`", f),
                format!("$({})", f),
                format!("|{}", f),
                format!("!{}", f),
                format!("~/{}", f),
                format!("<{}", f),
                format!("file \"{}\"", f),
                format!("{{{{file \"{}\"}}}}", f),
                format!("![x]({})", f),
                format!("https://x{}", f),
            ][wd.g.below(15)])
        }
        1 => TData::UInt(wd.g.below(6)),
        2 => TData::Int(-(wd.g.below(5) as isize)),
        3 => TData::Bool(wd.g.chance(1, 2)),
        4 => TData::Null,
        5 => TData::List(vec![sd("b"), sd("a"), TData::UInt(2)]),
        6 => TData::Map([("k".to_string(), sd("v")), ("n".to_string(), TData::UInt(1))].into_iter().collect()),
        7 => [TData::Float(1.5), super::engine::date(), TData::Bytes(b"a.txt".to_vec()), TData::Float(f64::NAN)][wd.g.below(4)].clone(),
        _ => unreachable!(),
    }
}
/// One call; `names` are the functions to choose from.
pub fn gen_mop(pl: &Place, name: &str, locked: bool, wr: &str) -> Mop {
    let wd = w();
    let via = if wd.g.chance(1, 3) { Via::Tmpl } else { Via::Direct };
    if name == "?builtin" {
        let (name, args) = super::engine::Raw::direct();
        return Mop { name, args, via };
    }
    let mut path = || {
        let f = *w().g.pick(&FILES);
        sd(&pl.arg(locked, f))
    };
    let args: Vec<TData> = if (name != "write" || wr.is_empty()) && wd.g.chance(1, 25) {
        (0..wd.g.below(4)).map(|_| wild()).collect()
    } else {
        match name {
            "file" | "file_bytes" | "dir" | "is_file" | "is_dir" => (0..1 + wd.g.weighted(&[4, 2, 1])).map(|_| path()).collect(),
            "file_img_dimensions" => {
                if wd.g.chance(2, 3) {
                    vec![sd(&pl.arg(locked, ["img.png", "img.gif"][wd.g.below(2)]))]
                } else {
                    vec![path()]
                }
            }
            "scan_dir" => {
                let d = ["", "sub", "empty", "sub/deep", "a.txt", "missing"][wd.g.weighted(&[5, 4, 1, 2, 1, 1])];
                let deep = if wd.g.chance(1, 8) { [30, 100, isize::MAX as usize][wd.g.below(3)] } else { wd.g.below(4) };
                let mut v = vec![sd(&pl.arg(locked, d)), TData::UInt(deep)];
                if wd.g.chance(1, 2) {
                    v.push(sd(["md$", "nothing", "a", "("][wd.g.below(4)]));
                }
                v
            }
            "write" => {
                let f = *wd.g.pick(&["out.txt", "new/out.txt", "new/x/out.txt", "empty", "a.txt/x", "../esc.txt"]);
                let f = if f == "../esc.txt" && !locked { "out2.txt" } else { f };
                let mut v = vec![sd(&pl.arg(locked, &if f.starts_with("..") { f.to_string() } else { format!("{}{}", wr, f) })), sd(&String::from_utf8(gen_bytes(gen_size().min(12000), 0, 5)).unwrap())];
                if wd.g.chance(1, 8) {
                    v.push(wild());
                }
                v
            }
            "exec" => {
                let mut v = vec![sd(*wd.g.pick(&["cat", "yes", "loud", "sleepy", "dies", "junk", "no-such-tool", "shut"]))];
                v.extend((0..wd.g.below(3)).map(|_| gen_arg()));
                v
            }
            "exec_stdin" => {
                let mut v = vec![sd(*wd.g.pick(&["cat", "yes", "loud", "half", "sleepy", "dies", "junk", "no-such-tool", "shut"]))];
                let n = gen_size().min(wd.pipe_cap * 300);
                v.push(sd(&String::from_utf8(gen_bytes(n, 0, 6)).unwrap()));
                v.extend((0..wd.g.below(2)).map(|_| gen_arg()));
                v
            }
            "env" => {
                let mut v = vec![sd(*wd.g.pick(&["HOME", "TITLE", "EMPTY", "RAW", "NOPE"]))];
                if wd.g.chance(1, 2) {
                    v.push(sd("dflt"));
                }
                v
            }
            "debug" => (0..wd.g.range(1, 4)).map(|_| wild()).collect(),
            "filter" if wd.g.chance(4, 5) => {
                let n = *wd.g.pick(&EFFECTFUL);
                let f = *wd.g.pick(&["/etc/passwd", "a.txt", "/work/keep.txt", "cat", "HOME", "$0"]);
                let q = if f == "$0" { f.to_string() } else { format!("\"{}\"", f) };
                let e = [format!("{} {}", n, q), format!("eq ({} {}) \"x\"", n, q), format!("{} {} \"y\"", n, q)][wd.g.below(3)].clone();
                vec![TData::List(vec![sd("/etc/passwd"), sd("a.txt"), sd("yes")]), sd(&e)]
            }
            _ => (0..wd.g.below(5)).map(|_| wild()).collect(),
        }
    };
    Mop { name: name.to_string(), args, via }
}

/// A template made of several calls, with their arguments as parameters.
pub fn gen_text(ops: &[Mop]) -> (String, Vec<TData>) {
    let wd = w();
    let mut s = String::new();
    let mut ps: Vec<TData> = vec![];
    for (i, o) in ops.iter().enumerate() {
        let mut e = o.name.clone();
        for a in &o.args {
            e.push_str(&format!(" ${}", ps.len()));
            ps.push(a.clone());
        }
        match wd.g.weighted(&[4, 2, 2, 2, 2, 1, 1]) {
            0 => s.push_str(&format!("{}:{{{{{}}}}}\n", i, e)),
            1 => s.push_str(&format!("{{{{let v{} = {}}}}}{{{{$v{}}}}}", i, e, i)),
            2 => s.push_str(&format!("{{{{if {}}}}}yes{{{{else}}}}no{{{{/if}}}}", e)),
            3 => s.push_str(&format!("{{{{first ({}) \"alt\"}}}}", e)),
            4 => s.push_str(&format!("{{{{export e{} = {}}}}}", i, e)),
            5 => s.push_str(&format!("{{{{for k v in (list 1 2)}}}}{{{{{}}}}}{{{{/for}}}}", e)),
            _ => s.push_str(&format!("{{{{@let b{}}}}}<{{{{{}}}}}>{{{{/let}}}}{{{{$b{}}}}}", i, e, i)),
        }
    }
    (s, ps)
}
pub fn render(src: &str, ps: &[TData], fm: &BasicFuncs) -> anyhow::Result<TData> {
    let t: TreeTemplate = src.parse()?;
    let p: Vec<&dyn TParam> = ps.iter().map(|a| a as &dyn TParam).collect();
    let (s, ex) = inst::run_exp(&t, &p, &mut temp_man::NoTemplates, fm)?;
    Ok(TData::List(vec![TData::String(s), TData::Map(ex)]))
}
#[derive(Clone, Debug)]
pub enum Job {
    One(Mop),
    Text(String, Vec<TData>, Vec<String>), // template, parameters, names called
    Front(String, Vec<String>),
    Parse(String),
}
impl Job {
    fn show(&self) -> String {
        match self {
            Job::One(m) => m.show(),
            Job::Text(s, p, _) => format!("render {:?} with {}", s, short(&format!("{:?}", p), 200)),
            Job::Front(s, _) => format!("front matter of {:?}", s),
            Job::Parse(s) => format!("parse {:?}", s),
        }
    }
    fn names(&self) -> Vec<String> {
        match self {
            Job::One(m) => vec![m.name.clone()],
            Job::Text(_, _, n) | Job::Front(_, n) => n.clone(),
            Job::Parse(_) => vec![],
        }
    }
    fn run(&self, fm: &BasicFuncs) -> anyhow::Result<TData> {
        match self {
            Job::One(m) => call(fm, m.via, &m.name, &m.args),
            Job::Text(s, p, _) => render(s, p, fm),
            Job::Front(s, _) => {
                let t: TreeTemplate = s.parse()?;
                Ok(TData::Map(inst::front_matter(&t, fm)))
            }
            Job::Parse(s) => {
                let _t: TreeTemplate = s.parse()?;
                Ok(TData::Null)
            }
        }
    }
}
fn quote(t: &TData) -> Option<String> {
    match t {
        TData::String(s) if !s.contains(['"', '\\', '\n', '{', '}', '\0']) && s.len() < 200 => Some(format!("\"{}\"", s)),
        TData::UInt(n) => Some(n.to_string()),
        TData::Bool(b) => Some(b.to_string()),
        _ => None,
    }
}
/// a document whose exports call these functions with literal arguments
pub fn gen_front(ops: &[Mop]) -> String {
    let wd = w();
    let mut s = String::new();
    for (i, o) in ops.iter().enumerate() {
        let a: Vec<String> = o.args.iter().filter_map(quote).collect();
        let e = format!("{} {}", o.name, a.join(" "));
        match wd.g.below(4) {
            0 => s.push_str(&format!("{{{{@export b{}}}}}<{{{{{}}}}}>{{{{/export}}}}", i, e)),
            1 => s.push_str(&format!("{{{{{}}}}}", e)),
            _ => s.push_str(&format!("{{{{export e{} = {}}}}}", i, e)),
        }
    }
    s
}

// ------------------------------------------------------------------ C02
fn permitted(names: &[String]) -> BTreeSet<EK> {
    let mut s: BTreeSet<EK> = [EK::Console].into_iter().collect();
    for n in names {
        match n.as_str() {
            n if READS.contains(&n) => s.extend([EK::Stat, EK::OpenR, EK::List, EK::Resolve]),
            "write" => s.extend([EK::Stat, EK::OpenW, EK::Mkdir, EK::Resolve]),
            "exec" | "exec_stdin" => s.extend([EK::Spawn]),
            "env" => s.extend([EK::EnvR]),
            _ => {}
        }
    }
    s
}
fn judge_effects<T>(job: &str, names: &[String], granted: &[String], r: &Rec<T>) {
    let cx = ctx();
    let eff: Vec<String> = names.iter().filter(|n| granted.contains(n)).cloned().collect();
    let ok = permitted(&eff);
    let runs = eff.iter().any(|n| n == "exec" || n == "exec_stdin");
    for e in r.effects() {
        let sys = e.path.starts_with("/proc/self/") || e.path.starts_with("/sys/fs/cgroup") || e.path.starts_with("/sys/devices/system/cpu");
        let fine = ok.contains(&e.kind)
            || sys && matches!(e.kind, EK::OpenR | EK::Stat)
            || runs && (e.path == "/dev/null" && matches!(e.kind, EK::OpenR | EK::OpenW) || e.kind == EK::Kill && e.path == "own child" || e.kind == EK::Other && e.path.starts_with("dup2"));
        cx.check(fine, "effect_not_granted", || format!("{} (granted: {:?}) did {:?} of {:?}", short(job, 400), eff, e.kind, e.path));
    }
}
pub fn c02(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&HARD_FILES, &BENIGN, 2);
    let pl = gen_place();
    mix_world(&pl, true);
    // hostile documents, to be scanned
    let all = [Set::Defaults, Set::Lock, Set::Free, Set::WLock, Set::Exec];
    let mut hostile: Vec<String> = vec![];
    for i in 0..1 + wd.g.below(3) {
        let ops: Vec<Mop> = (0..wd.g.range(1, 4))
            .map(|_| {
                let n = *w().g.pick(&EFFECTFUL);
                let mut m = gen_mop(&pl, n, false, "");
                if w().g.chance(1, 2) && !m.args.is_empty() && READS.contains(&n) {
                    m.args[0] = sd("/etc/passwd");
                }
                m
            })
            .collect();
        let d = gen_front(&ops);
        wd.desc.push(format!("document h{}: {:?}", i, d));
        let f = ["sub/h0.md", "h1.md", "sub/deep/h2.md"][i];
        wd.fs.put(&under(&pl.real, f), d.as_bytes());
        hostile.push(f.to_string());
    }
    let nc = 1 + wd.g.weighted(&[4, 1]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let mut sets: Vec<Set> = vec![];
        for s in all {
            if wd.g.chance(if s == Set::Defaults { 9 } else { 3 }, 10) {
                let at = wd.g.below(sets.len() + 1);
                sets.insert(at, s);
            }
        }
        let locked_r = sets.iter().rev().find(|s| matches!(s, Set::Lock | Set::Free)) == Some(&Set::Lock);
        let locked_w = sets.iter().rev().find(|s| matches!(s, Set::WLock | Set::Free)) == Some(&Set::WLock);
        let granted: Vec<String> = sets.iter().flat_map(|s| provides(*s)).map(|s| s.to_string()).collect();
        wd.desc.push(format!("client {} has {:?}", ci, sets));
        let n = wd.g.range(2, 8);
        // the pure names are only known inside; positions are drawn here
        let mut picks: Vec<(usize, Vec<usize>, Vec<Mop>)> = vec![];
        for _ in 0..n {
            let kind = wd.g.weighted(&[6, 4, 3, 1]);
            let k = wd.g.range(1, 5);
            let names: Vec<usize> = (0..k).map(|_| w().g.below(1000)).collect();
            let mut ops = vec![];
            for i in 0..k {
                let nm = if names[i] % 15 == 2 { "filter".to_string() } else if names[i] % 3 == 0 { EFFECTFUL[names[i] % 11].to_string() } else if names[i] % 3 == 1 && !granted.is_empty() { granted[names[i] % granted.len()].clone() } else { "?".to_string() };
                let lk = if nm == "write" { locked_w } else { locked_r };
                ops.push(gen_mop(&pl, &nm, lk, ""));
            }
            picks.push((kind, names, ops));
        }
        let pl = pl.clone();
        bodies.push(Box::new(move |c| {
            let (fm, known) = {
                let _o = off();
                let fm = compose(&sets, &pl);
                let known = Sh::new(Vec::<String>::new());
                fm.for_each(|k, _| known.get().push(k.clone()));
                (fm, known)
            };
            let jobs: Vec<Job> = {
                let _o = off();
                let cx = ctx();
                for e in EFFECTFUL {
                    cx.check(fm.get_func(e).is_some() == granted.iter().any(|g| g == e), "wrong_functions", || format!("{:?} provide {:?}: {}", sets, e, fm.get_func(e).is_some()));
                }
                let mut jobs = vec![];
                for (kind, names, mut ops) in picks {
                    for (o, n) in ops.iter_mut().zip(&names) {
                        if o.name == "?" {
                            o.name = if known.get().is_empty() || n % 10 == 9 { "nonsense".to_string() } else { known.get()[n % known.get().len()].clone() };
                        }
                    }
                    let ns: Vec<String> = ops.iter().map(|o| o.name.clone()).collect();
                    jobs.push(match kind {
                        0 => Job::One(ops[0].clone()),
                        1 => {
                            let (s, p) = gen_text(&ops);
                            // the wrapping uses these
                            Job::Text(s, p, ns)
                        }
                        2 => Job::Front(gen_front(&ops), ns),
                        _ => Job::Parse(gen_text(&ops).0),
                    });
                }
                for j in &jobs {
                    let d = format!("client {}: {}", c.id, short(&j.show(), 300));
                    w().desc.push(d);
                }
                jobs
            };
            for j in jobs {
                let r = run_lib(c, || j.run(&fm));
                let _o = off();
                let cx = ctx();
                judge_effects(&j.show(), &j.names(), &granted, &r);
                if j.names().iter().any(|n| EFFECTFUL.contains(&n.as_str()) && !granted.contains(n)) {
                    cx.hit();
                    w().probe("effect asked for without being granted");
                    if let Job::One(m) = &j {
                        cx.check(!r.got.is_ok(), "not_granted_but_answered", || format!("{} gave {}", m.show(), r.got.show()));
                    }
                }
                if !r.effects().is_empty() {
                    cx.hit();
                }
                // a document that is scanned has no say in what is read: nothing outside the tree under the start is opened
                if let Job::One(m) = &j {
                    if m.name == "scan_dir" && granted.contains(&m.name) {
                        w().probe("scan of hostile documents");
                        if let Some(TData::String(a)) = m.args.get(0) {
                            let from = if locked_r && !a.starts_with('/') { w().fs.walk(crate::fs::ROOT, under(&pl.real, a).as_bytes(), true).canon } else { w().fs.walk(w().fs.cwd, a.as_bytes(), true).canon };
                            for e in r.effects() {
                                if e.kind == EK::OpenR || e.kind == EK::List {
                                    let ok = e.path == from || e.path.starts_with(&format!("{}/", from.trim_end_matches('/'))) || e.path.starts_with("/proc/self/") || e.path.starts_with("/sys/");
                                    cx.check(ok, "scanned_document_acted", || format!("{} opened {:?}", m.show(), e.path));
                                }
                            }
                        }
                    }
                }
                cx.state.insert(hash_state(&[&j.names().join(","), &format!("{:?}", granted.len()), r.got.kind()]));
            }
        }));
    }
    let before = wd.fs.snapshot();
    run_clients(bodies);
    let any_w = w().eff.iter().any(|e| matches!(e.kind, EK::OpenW | EK::Mkdir));
    if !any_w {
        let after = w().fs.snapshot();
        ctx().check(before == after, "files_changed", || "the files changed although nothing was written".to_string());
    }
}

// ------------------------------------------------------------------ C09
fn gen_jobs(pl: &Place, locked: bool, ci: usize, n: usize, names: &[&str]) -> Vec<Job> {
    let wd = w();
    let mut v = vec![];
    for _ in 0..n {
        let wr = format!("c{}_", ci);
        if wd.g.chance(1, 4) {
            let ops: Vec<Mop> = (0..w().g.range(2, 5))
                .map(|_| {
                    let n = *w().g.pick(names);
                    gen_mop(pl, n, locked, &wr)
                })
                .collect();
            let (s, p) = gen_text(&ops);
            v.push(Job::Text(s, p, ops.iter().map(|o| o.name.clone()).collect()));
        } else {
            let n = *wd.g.pick(names);
            v.push(Job::One(gen_mop(pl, n, locked, &wr)));
        }
    }
    v
}
pub fn c09(_c: &mut Ctx) {
    let wd = w();
    let hard: Vec<F> = HARD_FILES.iter().chain(HARD_PROC.iter()).copied().collect();
    wd.configure(&hard, &BENIGN, 6);
    let pl = gen_place();
    mix_world(&pl, false);
    if wd.g.chance(1, 20) {
        wd.sigchld_ignored = true;
        wd.desc.push("the host ignores SIGCHLD".into());
    }
    if wd.g.chance(1, 10) {
        wd.fs.quota = Some(wd.g.below(3000));
    }
    let nc = 1 + wd.g.weighted(&[4, 2, 1]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let locked = wd.g.chance(1, 2);
        let n = wd.g.range(2, 7);
        let names: &[&str] = &["file", "file_bytes", "dir", "is_file", "is_dir", "scan_dir", "scan_dir", "file_img_dimensions", "write", "exec", "exec", "exec_stdin", "exec_stdin", "env", "debug", "?builtin"];
        let mut jobs = gen_jobs(&pl, locked, ci, n, names);
        if wd.g.chance(1, 3) {
            let p = pl.free_arg(wd.g.pick(&["t.tpl", "sub/bad.md", "bin", "missing", "sub"]));
            jobs.push(Job::Parse(format!("\u{1}{}", p)));
        }
        for j in &jobs {
            w().desc.push(format!("client {}{}: {}", ci, if locked { " (locked)" } else { "" }, short(&j.show(), 300)));
        }
        let pl = pl.clone();
        bodies.push(Box::new(move |c| {
            let fm = {
                let _o = off();
                if locked {
                    pl.funcs(true).with_write_lock(&pl.spell).with_exec()
                } else {
                    pl.funcs(false).with_exec()
                }
            };
            for j in jobs {
                if w().steps > 100_000 {
                    break;
                }
                let r = match &j {
                    Job::Parse(p) => run_lib(c, || TreeTemplate::load(&p[1..]).map(|_| TData::Null)),
                    j => run_lib(c, || j.run(&fm)),
                };
                let _o = off();
                let cx = ctx();
                let f = r.faults();
                let l = r.end.leaks();
                cx.check(l.is_empty(), "left_behind", || format!("after {} ({}, faults {:?}): {}", short(&j.show(), 400), short(&r.got.show(), 200), f, l.join("; ")));
                cx.check(r.end.dirs == 0, "left_behind", || format!("after {}: {} directories still open", short(&j.show(), 400), r.end.dirs));
                if !f.is_empty() {
                    w().probe("resources counted after a fault");
                }
                if r.effects().iter().any(|e| matches!(e.kind, EK::OpenR | EK::OpenW | EK::List | EK::Spawn)) {
                    cx.hit();
                }
                cx.state.insert(hash_state(&[&j.names().join(","), r.got.kind(), &format!("{:?}", f)]));
            }
        }));
    }
    run_clients(bodies);
    let left: Vec<String> = wd.fds.iter().filter(|(n, _)| **n > 2).map(|(n, f)| format!("{} ({})", n, f.what)).collect();
    ctx().check(left.is_empty(), "left_behind", || format!("at the end these descriptors are open: {:?}", left));
}

// ------------------------------------------------------------------ comparisons
/// Repeating a call gives the same: listings come in a fixed order, what is written exists already.
fn stable_world(pl: &Place) {
    let wd = w();
    wd.fixed_order = true;
    for c in 0..3 {
        for f in ["out.txt", "new/out.txt", "new/x/out.txt", "empty", "a.txt/x", "out2.txt"] {
            wd.fs.put(&under(&pl.real, &format!("c{}_{}", c, f)), b"old");
        }
    }
}
#[derive(Clone, Debug)]
pub enum Res {
    Ok(crate::model::V),
    Err(String),
    Panic,
}
pub fn res(g: &Got<TData>) -> Res {
    match g {
        Got::Ok(t) => Res::Ok(from_td(t)),
        Got::Err(e) => Res::Err(e.clone()),
        Got::Panic(_) => Res::Panic,
    }
}
pub fn same_res(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Res::Ok(a), Res::Ok(b)) => crate::model::same(a, b),
        (Res::Err(_), Res::Err(_)) => true,
        (Res::Panic, Res::Panic) => true,
        _ => false,
    }
}

// ------------------------------------------------------------------ C18
pub fn c18(_c: &mut Ctx) {
    let wd = w();
    // reads are left alone: only the streams misbehave
    wd.configure(&[F::Console], &[F::ShortWrite, F::EintrWrite], 6);
    let pl = gen_place();
    mix_world(&pl, true);
    stable_world(&pl);
    let locked = wd.g.chance(1, 2);
    let mut modes: Vec<[u8; 3]> = vec![];
    for _ in 0..wd.g.range(1, 4) {
        let which = wd.g.below(3);
        let m = 1 + wd.g.below(5) as u8;
        let m2 = 1 + wd.g.below(5) as u8;
        modes.push(match which {
            0 => [0, m, 0],
            1 => [0, 0, m],
            _ => [0, m, m2],
        });
    }
    wd.desc.push(format!("standard streams fail as {:?} in turn", modes));
    let nc = 1 + wd.g.weighted(&[4, 2]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let n = wd.g.range(2, 7);
        let names: &[&str] = &["debug", "debug", "debug", "scan_dir", "scan_dir", "scan_dir", "file", "dir", "is_file", "write", "exec", "exec_stdin", "env", "add", "sort", "cat", "md", "r_json", "w_json", "file_img_dimensions", "split", "regex", "table", "?builtin", "?builtin"];
        let jobs = gen_jobs(&pl, locked, ci, n, names);
        for j in &jobs {
            w().desc.push(format!("client {}{}: {}", ci, if locked { " (locked)" } else { "" }, short(&j.show(), 300)));
        }
        let pl = pl.clone();
        let modes = modes.clone();
        // renders of the engine, also failing ones
        let eng = if wd.g.chance(1, 2) {
            let bad = [0, 12, 30][wd.g.below(3)];
            eng_gen(bad).map(Sh::new)
        } else {
            None
        };
        let mut hosts = HS::gen(true);
        if let Some(e) = &eng {
            hosts.enabled = e.get().hs.enabled;
        }
        bodies.push(Box::new(move |c| {
            let fm = {
                let _o = off();
                if locked {
                    pl.funcs(true).with_write_lock(&pl.spell).with_exec()
                } else {
                    pl.funcs(false).with_exec()
                }
            };
            for (k, j) in jobs.iter().enumerate() {
                // first without any failure of the streams
                w().quiet.insert(c.id as i32);
                let keep = w().console_mode;
                w().console_mode = [0; 3];
                let solo = w().mode;
                w().mode = 0;
                let a = run_lib(c, || j.run(&fm));
                w().mode = solo;
                w().quiet.remove(&(c.id as i32));
                w().console_mode = if k == 0 { keep } else { modes[k % modes.len()] };
                if k == 0 {
                    w().console_mode = modes[0];
                }
                let b = run_lib(c, || j.run(&fm));
                let _o = off();
                let cx = ctx();
                let (x, y) = (res(&a.got), res(&b.got));
                if let (Res::Panic, _) = (&x, &y) {
                    continue; // panics without any trouble with the streams: not about them
                }
                cx.check(same_res(&x, &y), "streams_change_result", || format!("{}: with working streams {}, with failing streams ({:?}, faults {:?}) {}", short(&j.show(), 400), a.got.show(), w().console_mode, b.faults(), b.got.show()));
                cx.check(b.end.helper_panics.is_empty(), "panic", || format!("{}: helper thread: {:?}", j.show(), b.end.helper_panics));
                cx.state.insert(hash_state(&[&j.names().join(","), b.got.kind(), &format!("{:?}", modes[k % modes.len()])]));
            }
            if let Some(e) = &eng {
                let e = e.get();
                for i in 0..e.mains.len() {
                    let go = |broken: bool| {
                        let cell = {
                            let _o = off();
                            Sh::new(e.hs.clone())
                        };
                        let fm = e.funcs(cell);
                        let mut mgr = e.mgr(i % 2 == 0, cell);
                        let wd = w();
                        let mode = wd.mode;
                        if broken {
                            wd.console_mode = modes[i % modes.len()];
                        } else {
                            wd.quiet.insert(c.id as i32);
                            wd.console_mode = [0; 3];
                            wd.mode = 0;
                        }
                        let o = e.render(c, i, &fm, &mut mgr, cell, &hosts);
                        wd.mode = mode;
                        wd.quiet.remove(&(c.id as i32));
                        o
                    };
                    let (a, b) = (go(false), go(true));
                    let _o = off();
                    let cx = ctx();
                    cx.checks += 1;
                    if a.panic {
                        continue;
                    }
                    if let Some(d) = out_differs(&b, &a) {
                        cx.fail("streams_change_result", format!("main {}: with working streams {}\n   with failing streams ({:?}) {} ({})", i, a.show(), modes[i % modes.len()], b.show(), d));
                    }
                    if a.res.is_err() {
                        w().probe("failing render with failing streams");
                    }
                    cx.state.insert(hash_state(&["engine", &a.res.is_ok().to_string(), &a.hist.len().min(5).to_string(), &format!("{:?}", modes[i % modes.len()])]));
                }
            }
        }));
    }
    run_clients(bodies);
    if w().probes.get("console_broken_write").copied().unwrap_or(0) > 0 || w().fired[F::Console as usize] > 0 {
        ctx().hit();
    }
}

// ------------------------------------------------------------------ C21
pub fn c21(_c: &mut Ctx) {
    match w().g.weighted(&[5, 3, 3]) {
        0 => c21_faults(),
        1 => c21_outage(),
        _ => c21_engine(),
    }
}
/// Something the call needs is missing or broken for a while; afterwards all is as it was.
fn c21_outage() {
    let wd = w();
    wd.configure(&[], &[F::ShortRead, F::ShortWrite], 1);
    let pl = gen_place();
    mix_world(&pl, true);
    stable_world(&pl);
    let locked = wd.g.chance(1, 2);
    let names: &[&str] = &["file", "file", "file_bytes", "dir", "is_file", "is_dir", "scan_dir", "scan_dir", "file_img_dimensions", "write", "exec", "exec_stdin", "env", "?builtin"];
    let mut jobs = gen_jobs(&pl, locked, 0, wd.g.range(1, 5), names);
    if wd.g.chance(1, 3) {
        let p = pl.free_arg(wd.g.pick(&["t.tpl", "sub/b.md", "sub/bad.md"]));
        jobs.push(Job::Parse(format!("\u{1}{}", p)));
    }
    // what goes wrong, for each job
    let plan: Vec<(usize, usize, usize, bool)> = jobs.iter().map(|_| (w().g.below(10), [1, 2, 4, 40][w().g.weighted(&[4, 3, 2, 1])], w().g.below(1000), w().g.chance(1, 4))).collect();
    for (j, p) in jobs.iter().zip(&plan) {
        wd.desc.push(format!("{}{}, {} times while {}", if locked { "locked " } else { "" }, short(&j.show(), 300), p.1, OUTAGES[p.0]));
    }
    let mut bodies: Vec<Body> = vec![];
    bodies.push(Box::new(move |c| {
        let mk = || {
            let _o = off();
            if locked {
                pl.funcs(true).with_write_lock(&pl.spell).with_exec()
            } else {
                pl.funcs(false).with_exec()
            }
        };
        let mut fm = mk();
        for (j, (kind, times, pick, young)) in jobs.iter().zip(plan) {
            if w().steps > 80_000 {
                break;
            }
            let fresh = mk();
            let a = run_lib(c, || go_job(j, &fresh));
            let keep = {
                let _o = off();
                let keep = (w().fs.clone(), w().programs.clone(), w().env.clone());
                outage(kind, pick, &pl);
                keep
            };
            if young {
                fm = mk(); // made while things are bad
            }
            let mut failed = 0;
            for _ in 0..times {
                let b = run_lib(c, || go_job(j, &fm));
                if !same_res(&res(&a.got), &res(&b.got)) {
                    failed += 1;
                }
            }
            {
                let _o = off();
                let wd = w();
                wd.fs = keep.0;
                wd.programs = keep.1;
                wd.env = keep.2;
                wd.set_env_block();
            }
            let d = run_lib(c, || go_job(j, &fm));
            let _o = off();
            let cx = ctx();
            if failed > 0 {
                cx.hit();
                w().probe(OUTAGES[kind]);
            }
            cx.check(same_res(&res(&a.got), &res(&d.got)), "failure_remembered", || format!("{}: {} at first; then {} times while {} ({} differed); then {}", short(&j.show(), 400), a.got.show(), times, OUTAGES[kind], failed, d.got.show()));
            cx.state.insert(hash_state(&[&j.names().join(","), d.got.kind(), &failed.min(2).to_string(), OUTAGES[kind]]));
        }
    }));
    run_clients(bodies);
}
const OUTAGES: [&str; 10] = ["the folder is missing", "a file is missing", "a file is a folder", "the folder is a file", "no file can be opened", "a file has other content", "no program is installed", "every program fails", "no variable is set", "the disk is full"];
fn outage(kind: usize, pick: usize, pl: &Place) {
    let wd = w();
    let f = under(&pl.real, ["a.txt", "sub/b.md", "sub/deep/c.md", "sub", "img.png", "t.tpl", "sub/bad.md"][pick % 7]);
    match kind {
        0 => wd.fs.remove(&pl.real),
        1 => wd.fs.remove(&f),
        2 => {
            wd.fs.remove(&f);
            wd.fs.mkdirs(&f);
        }
        3 => {
            wd.fs.remove(&pl.real);
            wd.fs.put(&pl.real, b"x");
        }
        4 => {
            for n in wd.fs.n.iter_mut() {
                if matches!(n.kind, crate::fs::Kind::File(_)) {
                    n.noaccess = true;
                }
            }
        }
        5 => {
            wd.fs.overwrite(&f, [&b"{{export title = \"other\"}}"[..], b"\xff\xfe", b"", b"{{export }}{{"][pick / 7 % 4]);
        }
        6 => wd.programs.clear(),
        7 => {
            for p in wd.programs.values_mut() {
                p.script = [vec![Act::Exit(1)], vec![Act::Out(vec![0xff]), Act::Exit(0)], vec![Act::ErrOut(b"no".to_vec()), Act::Kill(libc::SIGKILL)]][pick % 3].clone();
            }
        }
        8 => {
            wd.env.clear();
            wd.set_env_block();
        }
        _ => wd.fs.quota = Some(pick % 3),
    }
}
fn go_job(j: &Job, fm: &BasicFuncs) -> anyhow::Result<TData> {
    match j {
        Job::Parse(p) => {
            let t = TreeTemplate::load(&p[1..])?;
            let p0: Vec<&dyn TParam> = vec![&"you"];
            let s = inst::run(&t, &p0, &mut temp_man::NoTemplates, fm)?;
            Ok(TData::String(s))
        }
        j => j.run(fm),
    }
}
/// Renders and calls fail because the host's functions, its templates or the arguments are bad; then
/// the same render as before, with the same functions, templates and manager.
fn c21_engine() {
    let wd = w();
    wd.configure(&[], &BENIGN, 1);
    let bad = [0, 4, 12][wd.g.below(3)];
    let eng = match eng_gen(bad) {
        None => return,
        Some(e) => Sh::new(e),
    };
    let nc = 1 + wd.g.weighted(&[4, 1]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let sim = wd.g.chance(1, 2);
        let e = eng.get();
        let mut rounds: Vec<(usize, bool, Vec<(Bad, usize)>)> = vec![];
        for _ in 0..wd.g.range(1, 4) {
            let wd = w();
            let main = wd.g.below(e.mains.len());
            let names = e.names(main);
            let mut bad = vec![];
            for _ in 0..wd.g.range(1, 6) {
                let wd = w();
                let b = match wd.g.weighted(&[3, 3, 2]) {
                    0 => Bad::Render(if wd.g.chance(2, 3) { main } else { wd.g.below(e.mains.len()) }, {
                        let mut h = HS::gen(true);
                        h.enabled = e.hs.enabled;
                        match wd.g.below(3) {
                            0 => h.boom = [200, 1000][wd.g.below(2)],
                            1 => h.fail = [300, 1000][wd.g.below(2)],
                            _ => h.down = [300, 1000][wd.g.below(2)],
                        }
                        h
                    }),
                    1 => Bad::Call(Mop {
                        name: if names.is_empty() || wd.g.chance(1, 4) { "word_wrap".into() } else { names[wd.g.below(names.len())].clone() },
                        args: (0..w().g.below(4)).map(|_| wild()).collect(),
                        via: if w().g.chance(1, 2) { Via::Tmpl } else { Via::Direct },
                    }),
                    // the same template, cut short of its parameters or with other ones
                    _ => Bad::Params(main, (0..wd.g.below(3)).map(|_| match super::engine::from_td(&wild()) {
                        crate::model::V::Other(_) => crate::model::V::Null,
                        v => v,
                    }).collect()),
                };
                let reps = if w().g.chance(1, 12) { [30, 80, 200][w().g.below(3)] } else { 1 };
                bad.push((b, reps));
            }
            rounds.push((main, wd.g.chance(1, 2), bad));
        }
        wd.desc.push(format!("client {}: {:?}", ci, rounds.iter().map(|r| format!("main {}{} after {:?}", r.0, if r.1 { " twice" } else { "" }, r.2)).collect::<Vec<_>>()));
        bodies.push(Box::new(move |c| {
            let e = eng.get();
            let cell = Sh::new(e.hs.clone());
            let fm = e.funcs(cell);
            let mut mgr = e.mgr(sim, cell);
            for (main, before, bad) in &rounds {
                if w().steps > 80_000 {
                    break;
                }
                let fresh = {
                    let cell = {
                        let _o = off();
                        Sh::new(e.hs.clone())
                    };
                    let fm = e.funcs(cell);
                    let mut mgr = e.mgr(sim, cell);
                    e.render(c, *main, &fm, &mut mgr, cell, &e.hs)
                };
                if *before {
                    e.render(c, *main, &fm, &mut mgr, cell, &e.hs);
                }
                let mut failed = 0;
                for (b, reps) in bad {
                    for _ in 0..*reps {
                        let ok = match b {
                            Bad::Render(i, h) => e.render(c, *i, &fm, &mut mgr, cell, h).res.is_ok(),
                            Bad::Call(m) => {
                                {
                                    let _o = off();
                                    *cell.get() = e.hs.clone();
                                }
                                run_lib(c, || call(&fm, m.via, &m.name, &m.args)).got.is_ok()
                            }
                            Bad::Params(i, p) => {
                                let no: Vec<u8> = {
                                    let _o = off();
                                    *cell.get() = e.hs.clone();
                                    p.iter().map(|_| 0u8).collect()
                                };
                                render_one(c, &e.mains[*i], p, &no, *i, &fm, &mut mgr, cell).0.res.is_ok()
                            }
                        };
                        if !ok {
                            failed += 1;
                        }
                    }
                }
                let again = e.render(c, *main, &fm, &mut mgr, cell, &e.hs);
                let _o = off();
                let cx = ctx();
                if failed > 0 {
                    cx.hit();
                    w().probe("rendered again after failed renders and calls");
                }
                if failed > 20 {
                    w().probe("rendered again after more than 20 failures");
                }
                cx.checks += 1;
                if let Some(d) = out_differs(&again, &fresh) {
                    cx.fail("failure_remembered", format!("main {}: fresh {}\n   but after {} failures of {:?}: {} ({})", main, fresh.show(), failed, bad, again.show(), d));
                }
                cx.state.insert(hash_state(&[&main.to_string(), &fresh.res.is_ok().to_string(), &failed.min(9).to_string(), "e"]));
            }
        }));
    }
    run_clients(bodies);
}
#[derive(Clone, Debug)]
enum Bad {
    Render(usize, HS),
    Call(Mop),
    Params(usize, Vec<crate::model::V>),
}
fn c21_faults() {
    let wd = w();
    let hard: Vec<F> = HARD_FILES.iter().chain(HARD_PROC.iter()).copied().collect();
    wd.configure(&hard, &BENIGN, 8);
    let pl = gen_place();
    mix_world(&pl, true);
    stable_world(&pl);
    let locked = wd.g.chance(1, 2);
    let nc = 1 + wd.g.weighted(&[4, 2]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let names: &[&str] = &["file", "file_bytes", "dir", "is_file", "is_dir", "scan_dir", "scan_dir", "file_img_dimensions", "write", "exec", "exec_stdin", "env", "load", "?builtin"];
        let mut jobs = gen_jobs(&pl, locked, ci, wd.g.range(1, 5), &names[..12]);
        if wd.g.chance(1, 3) {
            let p = pl.free_arg(wd.g.pick(&["t.tpl", "sub/b.md", "sub/bad.md"]));
            jobs.push(Job::Parse(format!("\u{1}{}", p)));
        }
        let tries = wd.g.range(1, 4);
        for j in &jobs {
            w().desc.push(format!("client {}{}, {} tries: {}", ci, if locked { " (locked)" } else { "" }, tries, short(&j.show(), 300)));
        }
        let pl = pl.clone();
        bodies.push(Box::new(move |c| {
            let mk = || {
                let _o = off();
                if locked {
                    pl.funcs(true).with_write_lock(&pl.spell).with_exec()
                } else {
                    pl.funcs(false).with_exec()
                }
            };
            let fm = mk();
            let id = c.id as i32;
            let quiet = move |on: bool| {
                let _o = off();
                if on {
                    w().quiet.insert(id);
                } else {
                    w().quiet.remove(&id);
                }
            };
            for j in &jobs {
                if w().steps > 80_000 {
                    break;
                }
                let fresh = mk();
                quiet(true);
                let a = run_lib(c, || go_job(j, &fresh));
                quiet(false);
                let mut failed = 0;
                for _ in 0..tries {
                    let b = run_lib(c, || go_job(j, &fm));
                    if !b.got.is_ok() && a.got.is_ok() {
                        failed += 1;
                    }
                }
                quiet(true);
                let d = run_lib(c, || go_job(j, &fm));
                quiet(false);
                let _o = off();
                let cx = ctx();
                if failed > 0 {
                    cx.hit();
                    w().probe("succeeds again after a failure");
                }
                cx.check(same_res(&res(&a.got), &res(&d.got)), "failure_remembered", || format!("{}: {} before the faults ({} of {} tries failed), {} after them", short(&j.show(), 400), a.got.show(), failed, tries, d.got.show()));
                cx.state.insert(hash_state(&[&j.names().join(","), d.got.kind(), &failed.to_string()]));
            }
        }));
    }
    run_clients(bodies);
}

// ------------------------------------------------------------------ C22
pub fn c22(_c: &mut Ctx) {
    let wd = w();
    let hard: Vec<F> = HARD_FILES.iter().chain(HARD_PROC.iter()).chain([F::Console, F::Sync].iter()).copied().collect();
    wd.configure(&hard, &BENIGN, 6);
    if wd.g.chance(1, 2) {
        // some kinds of failures never stop
        wd.sticky = true;
        wd.hard_left = u32::MAX;
        if wd.f.chance(1, 2) {
            wd.same_errno = Some(wd.f.u64());
        }
        for k in hard {
            if wd.f.chance(1, 4) {
                wd.rates[k as usize] = [1000, 1000, 900, 300][wd.f.below(4)];
            }
        }
        let d = format!("failures that do not stop: {:?}", (F::Open as usize..NF).filter(|i| wd.rates[*i] > 0).map(|i| format!("{} {}/1000", FNAMES[i], wd.rates[i])).collect::<Vec<_>>());
        wd.desc.push(d);
    }
    if wd.g.chance(1, 8) {
        wd.fs.quota = Some(wd.g.below(3000));
    }
    let pl = gen_place();
    mix_world(&pl, wd.g.chance(2, 3));
    if wd.g.chance(1, 6) {
        // more than one way round: who follows them doubles the way at every turn
        for (l, t) in [("round", "."), ("sub/back", "../sub"), ("sub/deep/up", "../.."), ("empty/out", &pl.real[..])] {
            if wd.g.chance(3, 4) {
                wd.fs.link(&under(&pl.real, l), t);
                wd.desc.push(format!("{} is a link to {}", l, t));
            }
        }
    }
    let nc = wd.g.range(1, 4);
    let inner = [
        "{{len (list 1 2)}}{{first (file \"a.txt\") \"-\"}}",
        "{{again \"{{sort [2,1]}}\"}}",
        "{{regex \"abc\" \"b+\"}}{{word_wrap \"one two three\" 5}}",
        "{{boom 1}}",
        "{{nosuch}}",
        "{{debug \"inner\" 1}}{{@md}}* x\n{{/md}}",
        "{{exec \"cat\"}}{{exec_stdin \"cat\" \"inner text\"}}",
        "{{len (scan_dir \"sub\" 3)}}{{env \"HOME\" \"x\"}}",
        "{{rand 5}}{{r_json \"{\\\"a\\\":1}\"}}{{table \"a,b\"}}",
        "{{file_img_dimensions \"img.png\"}}",
        "{{define t}}{{again \"x\"}}{{/define}}{{t}}{{global u}}{{boom}}{{/global}}{{first (u) \"caught\"}}",
    ];
    let outer = [
        "{{filter [1,2,3] \"again $1\"}}",
        "{{sort (list (again $1) (again $2))}}",
        "{{first (again $1) (again $2) \"none\"}}",
        "{{if again $1}}{{again $2}}{{else}}{{debug (again $1)}}{{/if}}",
        "{{switch 1}}{{case ?(again $1)}}a{{case ?(again $2)}}b{{/switch}}",
        "{{@md}}{{again $1}}{{/md}}{{@debug @ (again $2)}}x{{/debug}}",
        "{{for k v in [1,2]}}{{first (boom) (again $1)}}{{/for}}",
        "{{export a = (again $1)}}{{@export b}}{{again $2}}{{/export}}{{let x = (regex (again $2) \"a\")}}",
        "{{file (again $1)}}",
        "{{write \"again.txt\" (again $2)}}",
        "{{exec_stdin \"cat\" (again $1)}}{{exec \"yes\" (again $2)}}",
    ];
    let mut bodies: Vec<Body> = vec![];
    // now and then all do nearly the same at once
    let focus = nc > 1 && wd.g.chance(1, 3);
    let same = wd.g.chance(1, 2);
    if focus {
        wd.edge_every = [0, 4, 12, 50, 300][wd.s.weighted(&[1, 2, 3, 2, 1])];
    }
    let few: Vec<usize> = (0..wd.g.range(2, 3)).map(|_| w().g.below(1000)).collect();
    for ci in 0..nc {
        let locked = if focus { same != wd.g.chance(1, 8) } else { wd.g.chance(1, 2) };
        let n = if focus { wd.g.range(3, 8) } else { wd.g.range(1, 5) };
        let names: &[&str] = &["file", "file_bytes", "dir", "is_file", "is_dir", "scan_dir", "scan_dir", "file_img_dimensions", "write", "exec", "exec", "exec_stdin", "exec_stdin", "exec_stdin", "env", "debug", "boom", "rand", "word_wrap", "md", "?builtin", "?builtin", "?builtin"];
        let hot: Vec<&str> = few.iter().map(|i| names[i % names.len()]).collect();
        let mut jobs = gen_jobs(&pl, locked, ci, n, if focus { &hot } else { names });
        for _ in 0..if focus { wd.g.weighted(&[3, 1]) } else { wd.g.below(3) } {
            let n = wd.g.range(1, 3);
            let t: String = (0..n).map(|_| outer[w().g.below(outer.len())]).collect();
            let ps = vec![sd("x"), sd(inner[w().g.below(inner.len())]), sd(inner[w().g.below(inner.len())])];
            let at = w().g.below(jobs.len() + 1);
            jobs.insert(at, Job::Text(t, ps, vec!["again".into()]));
        }
        if wd.g.chance(1, 3) {
            let p = pl.free_arg(wd.g.pick(&["t.tpl", "sub/bad.md", "bin", "missing", "sub"]));
            jobs.push(Job::Parse(format!("\u{1}{}", p)));
        }
        for j in &jobs {
            w().desc.push(format!("client {}{}: {}", ci, if locked { " (locked)" } else { "" }, short(&j.show(), 300)));
        }
        let pl = pl.clone();
        bodies.push(Box::new(move |c| {
            let all: Sh<Option<BasicFuncs>> = Sh::new(None);
            {
                let _o = off();
                let depth = Sh::new(0);
                let b = if locked { pl.funcs(true).with_write_lock(&pl.spell).with_exec() } else { pl.funcs(false).with_exec() };
                // renders again, with the same functions
                let b = b.with_func(
                    "again",
                    Box::new(move |a: &[TCow]| {
                        yield_point();
                        let s = a.get(0).map(|a| a.to_string()).unwrap_or_default();
                        if *depth.get() > 3 {
                            return Ok(std::borrow::Cow::Owned(TData::String(s)));
                        }
                        *depth.get() += 1;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let fm = all.get().as_ref().unwrap();
                            let t: TreeTemplate = s.parse()?;
                            inst::run(&t, &[], &mut temp_man::NoTemplates, fm)
                        }));
                        *depth.get() -= 1;
                        match r {
                            Ok(r) => r.map(|s| std::borrow::Cow::Owned(TData::String(s))),
                            Err(p) => std::panic::resume_unwind(p),
                        }
                    }),
                    "",
                );
                let b = b.with_func("boom", Box::new(|_: &[TCow]| -> anyhow::Result<TCow> { panic!("host function boom panicked") }), "");
                *all.get() = Some(b);
            }
            for j in jobs {
                if w().steps > 60_000 {
                    break;
                }
                let at = w().steps;
                let r = run_lib(c, || go_job(&j, all.get().as_ref().unwrap()));
                let _o = off();
                let cx = ctx();
                cx.checks += 1;
                let f = r.faults();
                if f.len() > 3 {
                    w().probe("finished in spite of many failures");
                }
                if matches!(r.got, Got::Panic(_)) {
                    w().probe("a panic passed through");
                }
                if j.names().iter().any(|n| n == "again") {
                    w().probe("rendered from within a host function");
                }
                if !f.is_empty() || w().switches > 0 {
                    cx.hit();
                }
                cx.state.insert(hash_state(&[&j.names().join(","), r.got.kind(), &format!("{:?}", f.iter().take(4).collect::<Vec<_>>()), &(w().steps - at).checked_ilog2().unwrap_or(0).to_string()]));
            }
        }));
    }
    run_clients(bodies);
}
#[allow(unused)]
type Unused = BTreeMap<u8, u8>;
