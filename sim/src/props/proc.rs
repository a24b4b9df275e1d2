//! Running commands (C07, C08).
use super::util::*;
use crate::driver::*;
use crate::kernel::*;
use templito::*;

/// What a script prints, given its arguments and input.
pub struct Expect {
    pub out: Vec<u8>,
    pub got: Vec<u8>,
    pub reads_all: bool, // reads its input up to the end
}
/// The environment a command inherits.
pub fn host_env() -> Vec<u8> {
    let v: Vec<Vec<u8>> = w().env.iter().map(|(k, x)| [&k[..], b"=", &x[..]].concat()).collect();
    env_text(&v)
}
pub fn host_cwd() -> String {
    let fs = &w().fs;
    fs.path_of(fs.cwd)
}
pub fn expect(script: &[Act], argv: &[Vec<u8>], input: &[u8]) -> Expect {
    let mut e = Expect { out: vec![], got: vec![], reads_all: false };
    let (mut open_in, mut open_out) = (true, true);
    let mut out_pos = 0;
    let put = |out: &mut Vec<u8>, open: bool, d: &[u8]| {
        if open {
            out.extend(d)
        }
    };
    for a in script {
        match a {
            Act::ReadAll | Act::Echo(_) => {
                if open_in {
                    let d = input[e.got.len()..].to_vec();
                    e.got.extend(&d);
                    e.reads_all = true;
                    if let Act::Echo(_) = a {
                        put(&mut e.out, open_out, &d);
                    }
                }
            }
            Act::ReadN(n) => {
                if open_in {
                    let k = (*n).min(input.len() - e.got.len());
                    let d = input[e.got.len()..e.got.len() + k].to_vec();
                    e.got.extend(&d);
                    if k < *n {
                        e.reads_all = true;
                    }
                }
            }
            Act::Out(d) => put(&mut e.out, open_out, d),
            Act::OutIn => {
                let d = e.got[out_pos..].to_vec();
                out_pos = e.got.len();
                put(&mut e.out, open_out, &d);
            }
            Act::OutArgs => {
                for x in argv {
                    let mut d = format!("{}:", x.len()).into_bytes();
                    d.extend(x);
                    d.push(b',');
                    put(&mut e.out, open_out, &d);
                }
            }
            Act::OutEnv => put(&mut e.out, open_out, &host_env()),
            Act::OutCwd => put(&mut e.out, open_out, host_cwd().as_bytes()),
            Act::CloseIn => open_in = false,
            Act::CloseOut => open_out = false,
            Act::ErrOut(_) | Act::Sleep(_) | Act::Nop => {}
            Act::Exit(_) | Act::Kill(_) => break,
        }
    }
    e
}
fn size(max: usize) -> usize {
    let wd = w();
    let cap = wd.pipe_cap;
    let n = match wd.g.weighted(&[2, 3, 3, 2, 2, 1]) {
        0 => 0,
        1 => wd.g.range(1, 20),
        2 => (cap + 1).saturating_sub(wd.g.below(3)), // around the capacity
        3 => cap * wd.g.range(1, 5) + wd.g.below(7),
        4 => wd.g.range(20, 3000),
        _ if wd.g.chance(1, 8) => wd.g.range(150_000, 1_500_000),
        _ => wd.g.range(3000, 150_000),
    };
    n.min(max).min(cap.saturating_mul(400))
}
pub fn gen_script(stdin: bool, inlen: usize) -> Vec<Act> {
    let wd = w();
    let mut v = vec![];
    let n = wd.g.range(1, 7);
    let bin = wd.g.chance(1, 12);
    let mut tag = wd.g.below(20) as u8;
    for _ in 0..n {
        tag += 1;
        let wts: [usize; 13] = if stdin { [5, 2, 2, 3, 3, 2, 1, 1, 1, 2, 1, 1, 1] } else { [7, 3, 2, 0, 1, 0, 0, 0, 1, 2, 1, 1, 1] };
        v.push(match wd.g.weighted(&wts) {
            0 => {
                let k = if bin { 2 } else { wd.g.weighted(&[3, 2]) };
                let mut d = gen_bytes(size(1_500_000), k, tag);
                if k < 2 && d.len() < 5000 && wd.g.chance(1, 4) {
                    d = season(&String::from_utf8(d).unwrap()).into_bytes();
                }
                Act::Out(d)
            }
            1 => Act::ErrOut(gen_bytes(size(60_000), 0, tag)),
            2 => Act::OutArgs,
            3 => Act::ReadAll,
            4 => Act::ReadN(if wd.g.chance(1, 3) { inlen } else { wd.g.below(inlen + 3) }),
            5 => Act::Echo([1, 3, 16, 100, 4096, 65536][wd.g.below(6)]),
            6 => Act::OutIn,
            7 => Act::CloseIn,
            8 => {
                if wd.g.chance(1, 3) {
                    Act::CloseOut
                } else {
                    Act::Nop
                }
            }
            9 => Act::Sleep([1, 1000, 1_000_000, 3_000_000_000][wd.g.below(4)]),
            11 => Act::OutEnv,
            12 => Act::OutCwd,
            _ => Act::Nop,
        });
    }
    match wd.g.weighted(&[4, 3, 1, 2]) {
        0 => {}
        1 => v.push(Act::Exit([0, 1, 2, 127, 255][wd.g.below(5)])),
        2 => v.push(Act::Kill([libc::SIGKILL, libc::SIGSEGV, libc::SIGTERM][wd.g.below(3)])),
        _ => {
            v.push(Act::ReadAll);
            v.push(Act::OutIn);
        }
    }
    // a tiny buffer with a lot of text takes too many steps to be worth it
    for a in v.iter_mut() {
        if let Act::Echo(k) = a {
            if inlen / *k > 3000 {
                *k = 4096;
            }
        }
    }
    v
}
pub fn show_script(v: &[Act]) -> String {
    v.iter()
        .map(|a| match a {
            Act::Out(d) => format!("prints {}", d.len()),
            Act::ErrOut(d) => format!("prints {} to stderr", d.len()),
            Act::OutArgs => "prints its arguments".into(),
            Act::OutEnv => "prints its environment".into(),
            Act::OutCwd => "prints its working directory".into(),
            Act::ReadAll => "reads all".into(),
            Act::ReadN(n) => format!("reads {}", n),
            Act::Echo(n) => format!("copies by {}", n),
            Act::OutIn => "prints what it read".into(),
            a => format!("{:?}", a),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
/// Text with the things that tempt to a special treatment.
pub fn season(t: &str) -> String {
    let wd = w();
    match wd.g.below(12) {
        0 => format!("\u{feff}{}", t),
        1 => format!("{}\0", t),
        2 => format!("{}\n", t),
        3 => format!("{}\n\n", t),
        4 => format!("{}\r\n", t.replace('\n', "\r\n")),
        5 => format!("  \t{}", t),
        6 => format!("\n{}", t),
        7 => format!("{}  ", t),
        8 => format!("\0{}\0x\0", t),
        9 => format!("\u{1b}[31m{}\u{1b}[0m", t),
        10 => t.trim_end_matches('\n').to_string(),
        _ => format!("{}\u{4}\u{1a}", t),
    }
}
pub fn gen_arg() -> TData {
    let wd = w();
    match wd.g.weighted(&[8, 5, 1, 1, 1, 1, 1]) {
        0 => sd(*wd.g.pick(&["a", "--flag", "-x", "two words", "", "\"quoted\"", "'single'", "$HOME", "`id`", "a;b", "*", "a|b>c", "tab\there", "line\nbreak", "ünï", "\\", "%s", "@x", "~", " lead", "trail ", "{{x}}", "a=b", "--", "-", "[a, b]", "1,2", "\r\n", "\u{feff}x", "a\n"])),
        1 => {
            let n = if wd.g.chance(1, 25) { wd.g.range(1000, 40_000) } else { wd.g.range(1, 30) };
            let k = wd.g.below(2);
            sd(&String::from_utf8(gen_bytes(n, k, 3)).unwrap())
        }
        2 => TData::UInt(wd.g.below(1000)),
        3 => TData::Int(wd.g.below(1000) as isize - 500),
        4 => TData::Float([0.5, -2.25, 1e9, 3.0][wd.g.below(4)]),
        5 => {
            let n = wd.g.below(3);
            TData::List((0..n).map(|i| if i == 0 { sd("two words") } else { TData::UInt(i) }).collect())
        }
        _ => TData::Bool(wd.g.chance(1, 2)),
    }
}
/// The text of a value.
pub fn td_bytes(t: &TData) -> Vec<u8> {
    match t {
        TData::String(s) => s.clone().into_bytes(),
        TData::UInt(n) => n.to_string().into_bytes(),
        TData::Int(n) => n.to_string().into_bytes(),
        TData::Bool(b) => b.to_string().into_bytes(),
        t => {
            let _o = off();
            t.to_string().into_bytes()
        }
    }
}

#[derive(Clone)]
pub struct POp {
    pub stdin: bool,
    pub via: Via,
    pub name: String,
    pub text: TData,
    pub args: Vec<TData>,
    pub script: Option<Vec<Act>>, // None: there is no such program
    pub bad: bool,                // an argument holds a NUL
}
impl POp {
    pub fn gen(stdin: bool, id: String) -> POp {
        let wd = w();
        let via = if wd.g.chance(1, 4) { Via::Tmpl } else { Via::Direct };
        let name = match wd.g.weighted(&[5, 2, 2, 1]) {
            0 => format!("tool{}", id),
            1 => format!("/opt/bin/tool{}", id),
            2 => format!("my tool {}", id),
            _ => format!("täst-{}", id),
        };
        let text = if stdin {
            match wd.g.weighted(&[8, 1, 1]) {
                0 => {
                    let n = size(1_500_000);
                    let k = wd.g.below(2);
                    let s = String::from_utf8(gen_bytes(n, k, 7)).unwrap();
                    if n < 5000 && wd.g.chance(1, 4) {
                        sd(&season(&s))
                    } else {
                        sd(&s)
                    }
                }
                1 => TData::UInt(wd.g.below(100000)),
                _ => sd("x"),
            }
        } else {
            sd("")
        };
        let inlen = td_bytes(&text).len();
        let n = if wd.g.chance(1, 30) { wd.g.range(5, 60) } else { wd.g.weighted(&[3, 3, 2, 1, 1]) };
        let mut args: Vec<TData> = (0..n).map(|_| gen_arg()).collect();
        let mut bad = false;
        if wd.g.chance(1, 40) {
            args.push(sd("nul\0inside"));
            bad = true;
        }
        let missing = wd.g.chance(1, 20);
        let script = gen_script(stdin, inlen);
        let op = POp { stdin, via, name, text, args, script: if missing { None } else { Some(script) }, bad };
        if let Some(s) = &op.script {
            wd.programs.insert(op.name.clone().into_bytes(), Program { script: s.clone() });
        }
        op
    }
    pub fn show(&self) -> String {
        format!(
            "{:?} {} {:?}{} with arguments {}: {}",
            self.via,
            if self.stdin { "exec_stdin" } else { "exec" },
            self.name,
            if self.stdin { format!(", input of {} bytes,", td_bytes(&self.text).len()) } else { String::new() },
            short(&format!("{:?}", self.args), 200),
            match &self.script {
                None => "no such program".to_string(),
                Some(s) => show_script(s),
            }
        )
    }
    pub fn argv(&self) -> Vec<Vec<u8>> {
        let mut v = vec![self.name.clone().into_bytes()];
        v.extend(self.args.iter().map(td_bytes));
        v
    }
    pub fn call_args(&self) -> Vec<TData> {
        let mut a = vec![sd(&self.name)];
        if self.stdin {
            a.push(self.text.clone());
        }
        a.extend(self.args.iter().cloned());
        a
    }
    pub fn func(&self) -> &'static str {
        if self.stdin {
            "exec_stdin"
        } else {
            "exec"
        }
    }
}

fn proc_run(stdin: bool) {
    let wd = w();
    let hard: &[F] = if wd.g.chance(1, 2) { &HARD_PROC } else { &[F::Spawn, F::Wait, F::Read, F::Write] };
    wd.configure(hard, &BENIGN, 3);
    if wd.g.chance(1, 15) {
        wd.sigchld_ignored = true;
        wd.desc.push("the host ignores SIGCHLD".into());
    }
    if wd.g.chance(1, 10) {
        wd.console_mode[2] = wd.g.below(6) as u8;
    }
    for (k, v) in [("HOME", "/home/u"), ("PATH", "/usr/bin:/opt/bin"), ("LANG", "C"), ("EMPTY", ""), ("TITLE", "Täst")] {
        if wd.g.chance(1, 2) {
            wd.env.insert(k.as_bytes().to_vec(), v.as_bytes().to_vec());
        }
    }
    if wd.g.chance(1, 8) {
        wd.env.insert(b"RAW".to_vec(), vec![0xff, 0xfe]);
    }
    wd.set_env_block();
    if wd.g.chance(1, 2) {
        let d = *wd.g.pick(&["/home/u", "/srv/my site", "/tmp"]);
        wd.fs.mkdirs(d);
        wd.fs.cwd = wd.fs.look(d).unwrap();
    }
    wd.desc.push(format!("working directory {}, environment {}", host_cwd(), String::from_utf8_lossy(&host_env())));
    let cap = wd.pipe_cap;
    wd.desc.push(format!("pipes hold {} bytes", cap));
    let nc = 1 + wd.g.weighted(&[4, 2, 1]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let n = wd.g.range(1, 4);
        let ops: Vec<POp> = (0..n).map(|k| POp::gen(stdin, format!("{}_{}", ci, k))).collect();
        for o in &ops {
            w().desc.push(format!("client {}: {}", ci, o.show()));
        }
        // too few arguments to say what to start, or what to feed it
        let short = if wd.g.chance(1, 15) { Some((wd.g.below(ops.len()), wd.g.below(1 + stdin as usize))) } else { None };
        if let Some((k, n)) = short {
            wd.desc.push(format!("client {}: before command {} a call with {} arguments", ci, k, n));
        }
        bodies.push(Box::new(move |c| {
            let fm = {
                let _o = off();
                func_man::BasicFuncs::new().with_defaults().with_exec()
            };
            for (k, op) in ops.iter().enumerate() {
                if w().steps > 100_000 {
                    break;
                }
                let a = op.call_args();
                if let Some((_, n)) = short.filter(|s| s.0 == k) {
                    let r = run_lib(c, || call(&fm, Via::Direct, op.func(), &a[..n]));
                    let _o = off();
                    let what = format!("{} with {} arguments", op.func(), n);
                    no_panic(&r, &what);
                    let ran = r.effects().iter().any(|e| e.kind == EK::Spawn);
                    ctx().check(n > 0 || (!ran && matches!(r.got, Got::Err(_))), "started_from_nothing", || format!("{} gave {}", what, r.got.show()));
                }
                let r = run_lib(c, || call(&fm, op.via, op.func(), &a));
                let _o = off();
                check_proc(op, &r);
            }
        }));
    }
    run_clients(bodies);
}
pub fn check_proc(op: &POp, r: &Rec<TData>) {
    let cx = ctx();
    let wd = w();
    let what = op.show();
    no_panic(r, &what);
    if !r.end.helper_panics.is_empty() {
        cx.fail("panic", format!("{}: a helper thread panicked: {:?}", what, r.end.helper_panics));
    }
    let argv = op.argv();
    let input = td_bytes(&op.text);
    let f = r.faults();
    let fault = r.end.hard > 0;
    let want_spawn = format!("{}\u{1e}{}", op.name, argv.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>().join("\u{1f}"));
    let sp: Vec<&Eff> = r.effects().into_iter().filter(|e| e.kind == EK::Spawn).collect();
    let started: Vec<&&Eff> = sp.iter().filter(|e| e.ok).collect();
    for s in &sp {
        cx.check(s.path == want_spawn, "wrong_command", || format!("{} tried to start {:?}", what, s.path));
    }
    cx.check(started.len() <= 1, "started_twice", || format!("{} was started {} times", what, started.len()));
    let pr = w().procs.iter().find(|p| p.client == r.client && p.op == r.op);
    cx.state.insert(hash_state(&[r.got.kind(), op.func(), &format!("{:?}", f.first()), &format!("{:?}", op.via), &pr.map(|p| p.status.unwrap_or(-1)).unwrap_or(-2).to_string(), &(input.len() / wd.pipe_cap.max(1)).min(5).to_string()]));
    let script = match &op.script {
        None => {
            cx.check(!r.got.is_ok(), "not_an_error", || format!("{} gave {}", what, r.got.show()));
            wd.probe("command cannot be started");
            return;
        }
        Some(s) => s,
    };
    if op.bad {
        cx.check(!r.got.is_ok() && started.is_empty(), "not_an_error", || format!("{} gave {}", what, r.got.show()));
        return;
    }
    let ex = expect(script, &argv, &input);
    match &r.got {
        Got::Ok(v) => {
            cx.check(started.len() == 1, "not_started", || format!("{} reports success without starting it", what));
            let ok = match v {
                TData::String(s) => s.as_bytes() == &ex.out[..],
                _ => false,
            };
            cx.check(ok, "wrong_output", || {
                let d = match v {
                    TData::String(s) => {
                        let i = s.bytes().zip(ex.out.iter()).position(|(a, b)| a != *b).unwrap_or(s.len().min(ex.out.len()));
                        format!("{} bytes, first difference at {}", s.len(), i)
                    }
                    x => format!("{:?}", x),
                };
                format!("{} printed {} bytes, but the call yielded {} (faults {:?})", what, ex.out.len(), d, f)
            });
            if let Some(p) = pr {
                cx.check(p.got == ex.got, "wrong_input", || format!("{} read {} bytes of its input instead of {} (same up to {}; faults {:?})", what, p.got.len(), ex.got.len(), p.got.iter().zip(&ex.got).take_while(|(a, b)| a == b).count(), f));
                cx.check(p.status.is_some(), "not_ended", || format!("{}: the call returned before the command ended", what));
            }
            if !ex.out.is_empty() {
                cx.hit();
            }
            if ex.out.len() > wd.pipe_cap {
                wd.probe("output larger than the pipe");
            }
            if op.stdin && input.len() > wd.pipe_cap {
                wd.probe("input larger than the pipe");
            }
            if op.stdin && !ex.reads_all && ex.got.len() < input.len() {
                wd.probe("command stopped reading early");
            }
            if script.iter().any(|a| matches!(a, Act::ErrOut(d) if d.len() > wd.pipe_cap)) {
                wd.probe("error output larger than the pipe");
            }
        }
        Got::Err(e) => {
            let utf8 = std::str::from_utf8(&ex.out).is_ok();
            cx.check(fault || !utf8, "failed_without_cause", || format!("{} failed: {}", what, e));
            if !utf8 {
                wd.probe("output is not text");
            }
            if fault {
                wd.probe("error after a fault");
            }
        }
        Got::Panic(_) => {}
    }
    // whatever happened, the command never saw anything that is not its input
    if let Some(p) = pr {
        cx.check(input.starts_with(&p.got[..]) , "wrong_input", || format!("{} read {} bytes that are not its input", what, p.got.len()));
    }
}
pub fn c07(_c: &mut Ctx) {
    let s = w().g.chance(1, 4);
    proc_run(s)
}
pub fn c08(_c: &mut Ctx) {
    proc_run(true)
}
