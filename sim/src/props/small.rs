//! Environment lookups (C10) and random draws (C17).
use super::engine::from_td;
use super::util::*;
use crate::driver::*;
use crate::kernel::*;
use crate::model::V;
use std::collections::BTreeSet;
use templito::func_man::*;
use templito::*;

// ------------------------------------------------------------------ C10
const NAMES: [&str; 12] = ["$A", " A", "A.B", "A", "B", "TITLE", "PATH", "ünï", "a", "5", "WITH SPACE", "LONG_NAME_0123456789"];
fn gen_val() -> Vec<u8> {
    let wd = w();
    match wd.g.weighted(&[4, 3, 2, 2, 1, 2]) {
        0 => format!("v{}", wd.g.below(1000)).into_bytes(),
        1 => wd.g.pick(&["x=y", " lead", "trail ", "two\nlines", "{{x}}", "\"q\"", "ünï 漢", "0", "false", "null", "$A", "${B}", "$TITLE", "~", "%A%", "`A`", "A", "\u{feff}v", "v\r\n", "v\n", "$$A", "\\n"]).as_bytes().to_vec(),
        2 => vec![],
        3 => vec![b'a', 0xff, b'b'],
        4 => gen_bytes(wd.g.range(500, 5000), 1, 1),
        _ => vec![0xc3],
    }
}
#[derive(Clone, Debug)]
enum EOp {
    Look(Via, TData, Option<TData>, bool), // extra argument
    None0,
    Set(String, Vec<u8>),
    Unset(String),
    Render(Vec<EOp>),
}
fn gen_eop(host: bool, depth: usize) -> EOp {
    let wd = w();
    match wd.g.weighted(if host { &[2, 0, 5, 3, 0] } else if depth > 0 { &[5, 0, 2, 2, 0] } else { &[10, 1, 2, 1, 3] }) {
        0 => {
            let n = match wd.g.weighted(&[10, 1, 1, 1, 1]) {
                0 => sd(*wd.g.pick(&NAMES)),
                1 => sd(""),
                2 => sd("A=B"),
                3 => sd("A\0"),
                _ => TData::UInt(5),
            };
            let d = match wd.g.weighted(&[3, 4, 1, 1, 1, 1]) {
                0 => None,
                1 => Some(sd(*wd.g.pick(&["dflt", "", "A", "x y"]))),
                2 => Some(TData::Null),
                3 => Some(TData::UInt(7)),
                4 => Some(TData::List(vec![sd("l"), TData::Bool(true)])),
                _ => Some(TData::Bool(false)),
            };
            let extra = d.is_some() && wd.g.chance(1, 10);
            EOp::Look([Via::Direct, Via::Tmpl][wd.g.weighted(&[3, 1])], n, d, extra)
        }
        1 => EOp::None0,
        2 => EOp::Set(wd.g.pick(&NAMES).to_string(), gen_val()),
        3 => EOp::Unset(wd.g.pick(&NAMES).to_string()),
        _ => EOp::Render((0..wd.g.range(2, 7)).map(|_| gen_eop(false, 1)).collect()),
    }
}
fn host_set(n: &str, v: &[u8]) {
    use std::os::unix::ffi::OsStrExt;
    std::env::set_var(n, std::ffi::OsStr::from_bytes(v));
}
/// every value the variable had at some moment of [b, e]
fn versions(init: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>, name: &str, b: u64, e: u64) -> Vec<Option<Vec<u8>>> {
    let mut cur = init.get(name.as_bytes()).cloned();
    let mut out = vec![];
    for (s, k, v) in &w().env_log {
        if k != name.as_bytes() {
            continue;
        }
        if *s <= b {
            cur = v.clone();
        } else if *s <= e {
            out.push(v.clone());
        }
    }
    out.insert(0, cur);
    out
}
/// what a lookup gives, by the value the variable has
fn looked(v: &Option<Vec<u8>>, d: &Option<TData>) -> Option<V> {
    match v.as_ref().and_then(|v| String::from_utf8(v.clone()).ok()) {
        Some(s) => Some(V::Str(s)),
        None => d.as_ref().map(from_td),
    }
}
fn name_of(n: &TData) -> String {
    match n {
        TData::String(s) => s.clone(),
        TData::UInt(n) => n.to_string(),
        _ => String::new(),
    }
}
pub fn c10(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&[], &BENIGN, 1);
    for n in &NAMES {
        if wd.g.chance(1, 2) {
            let v = gen_val();
            wd.env.insert(n.as_bytes().to_vec(), v);
        }
    }
    wd.set_env_block();
    let init = Sh::new(wd.env.clone());
    wd.desc.push(format!("environment: {:?}", wd.env.iter().map(|(k, v)| format!("{}={}", String::from_utf8_lossy(k), short(&String::from_utf8_lossy(v), 30))).collect::<Vec<_>>()));
    let nc = 1 + wd.g.weighted(&[3, 2, 1]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let host = ci > 0 && wd.g.chance(1, 2);
        let ops: Vec<EOp> = (0..wd.g.range(2, 9)).map(|_| gen_eop(host, 0)).collect();
        wd.desc.push(format!("client {}: {}", ci, ops.iter().map(|o| short(&format!("{:?}", o), 160)).collect::<Vec<_>>().join("; ")));
        bodies.push(Box::new(move |c| {
            let fm = {
                let _o = off();
                BasicFuncs::new()
                    .with_defaults()
                    .with_exec()
                    .with_f(
                        "setv",
                        Box::new(|a| {
                            host_set(&a[0].to_string(), a[1].to_string().as_bytes());
                            tparam::b_ok(TData::String(String::new()))
                        }),
                        "",
                    )
                    .with_f(
                        "unsetv",
                        Box::new(|a| {
                            std::env::remove_var(a[0].to_string());
                            tparam::b_ok(TData::String(String::new()))
                        }),
                        "",
                    )
            };
            for op in ops {
                match op {
                    EOp::Set(n, v) => {
                        host_set(&n, &v);
                    }
                    EOp::Unset(n) => {
                        std::env::remove_var(&n);
                    }
                    EOp::None0 => {
                        let r = run_lib(c, || call(&fm, Via::Direct, "env", &[]));
                        ctx().check(r.got.is_err(), "no_name", || format!("env without a name: {}", r.got.show()));
                    }
                    EOp::Look(via, n, d, extra) => {
                        let mut a = vec![n.clone()];
                        a.extend(d.clone());
                        if extra {
                            a.push(sd("unused"));
                        }
                        let r = run_lib(c, || call(&fm, via, "env", &a));
                        let _o = off();
                        let cx = ctx();
                        let what = format!("env {:?}", a);
                        no_panic(&r, &what);
                        let vs = versions(init.get(), &name_of(&n), r.b, r.e);
                        let got = match &r.got {
                            Got::Ok(v) => Some(from_td(v)),
                            _ => None,
                        };
                        let ok = vs.iter().any(|v| match (looked(v, &d), &got) {
                            (Some(a), Some(b)) => crate::model::same(&a, b),
                            (None, None) => true,
                            _ => false,
                        });
                        cx.check(ok, "wrong_value", || format!("{} gave {}, but the variable was {:?}", what, r.got.show(), vs.iter().map(|v| v.as_ref().map(|v| short(&String::from_utf8_lossy(v), 60))).collect::<Vec<_>>()));
                        if !w().env_log.is_empty() {
                            cx.hit();
                        }
                        if vs.len() > 1 {
                            w().probe("changed during the lookup");
                        }
                        for v in &vs {
                            match v {
                                Some(v) if v.is_empty() => w().probe("empty value"),
                                Some(v) if std::str::from_utf8(v).is_err() => w().probe("value that is not text"),
                                _ => {}
                            }
                        }
                        cx.state.insert(hash_state(&[&name_of(&n), &format!("{:?}", via), &format!("{:?}", d.is_some()), r.got.kind(), &vs.len().to_string(), &vs[0].as_ref().map(|v| v.len().min(2)).unwrap_or(9).to_string()]));
                    }
                    EOp::Render(items) => {
                        let (src, ps) = {
                            let _o = off();
                            let mut s = String::new();
                            let mut ps: Vec<TData> = vec![];
                            let mut arg = |v: &TData| {
                                ps.push(v.clone());
                                format!(" ${}", ps.len() - 1)
                            };
                            for i in &items {
                                match i {
                                    EOp::Look(_, n, d, _) => {
                                        let mut e = format!("env{}", arg(n));
                                        if let Some(d) = d {
                                            e.push_str(&arg(d));
                                        }
                                        s.push_str(&format!("[{{{{first ({}) \"NONE\"}}}}]", e));
                                    }
                                    EOp::Set(n, v) => {
                                        let v = String::from_utf8_lossy(v).to_string();
                                        let (a, b) = (arg(&sd(n)), arg(&sd(&v)));
                                        s.push_str(&format!("{{{{setv{}{}}}}}", a, b));
                                    }
                                    EOp::Unset(n) => s.push_str(&format!("{{{{unsetv{}}}}}", arg(&sd(n)))),
                                    _ => {}
                                }
                            }
                            (s, ps)
                        };
                        let r = run_lib(c, || super::mix::render(&src, &ps, &fm));
                        let _o = off();
                        let cx = ctx();
                        no_panic(&r, &src);
                        if nc > 1 {
                            continue; // others change it meanwhile; the single lookups cover that
                        }
                        // replay the changes of this render, one by one
                        let mut env = init.get().clone();
                        for (s, k, v) in &w().env_log {
                            if *s <= r.b {
                                match v {
                                    Some(v) => env.insert(k.clone(), v.clone()),
                                    None => env.remove(k),
                                };
                            }
                        }
                        let mut want = String::new();
                        for i in &items {
                            match i {
                                EOp::Look(_, n, d, _) => {
                                    let t = match looked(&env.get(name_of(n).as_bytes()).cloned(), d) {
                                        None | Some(V::Null) => "NONE".to_string(), // `first` passes over null
                                        Some(v) => super::engine::to_td(&v).to_string(),
                                    };
                                    want.push_str(&format!("[{}]", t));
                                }
                                EOp::Set(n, v) => {
                                    env.insert(n.clone().into_bytes(), String::from_utf8_lossy(v).to_string().into_bytes());
                                }
                                EOp::Unset(n) => {
                                    env.remove(n.as_bytes());
                                }
                                _ => {}
                            }
                        }
                        let ok = match &r.got {
                            Got::Ok(TData::List(l)) => l[0].to_string() == want,
                            _ => false,
                        };
                        cx.check(ok, "wrong_value", || format!("{:?} with {:?} gave {} instead of {:?}", src, ps, r.got.show(), want));
                        cx.hit();
                        w().probe("changed during a render");
                    }
                }
            }
        }));
    }
    run_clients(bodies);
}

// ------------------------------------------------------------------ C17
#[derive(Clone, Debug)]
enum Range {
    Unit,
    I(isize, isize, bool), // bool: lower bound given
    U(usize, usize, bool),
    Fl(f64, f64, bool),
    L(Vec<TData>),
    Bad(Vec<TData>),
    Mixed(TData, TData),
}
fn gen_range_of() -> Range {
    let wd = w();
    match wd.g.weighted(&[1, 4, 4, 3, 4, 3, 1]) {
        0 => Range::Unit,
        1 => {
            let (a, b) = match wd.g.weighted(&[6, 2, 1, 1]) {
                0 => {
                    let a = wd.g.below(40) as isize - 20;
                    let n = [12, 12, 12, 64, 300][w().g.below(5)];
                    (a, a + 1 + w().g.below(n) as isize)
                }
                1 => (-(wd.g.u64() as isize >> 1).abs(), 1 + (wd.g.u64() as isize >> 1).abs()),
                2 => (isize::MIN, isize::MAX),
                _ => (isize::MAX - 1 - wd.g.below(3) as isize, isize::MAX),
            };
            if wd.g.chance(1, 4) && b > 0 {
                Range::I(0, b, false)
            } else {
                Range::I(a, b, true)
            }
        }
        2 => {
            let (a, b) = match wd.g.weighted(&[6, 2, 1, 1]) {
                0 => {
                    let a = wd.g.below(20);
                    let n = [12, 12, 12, 64, 300][w().g.below(5)];
                    (a, a + 1 + w().g.below(n))
                }
                1 => (wd.g.below(100), 1000 + (wd.g.u64() >> 1) as usize),
                2 => (0, usize::MAX),
                _ => (usize::MAX - 1 - wd.g.below(3), usize::MAX),
            };
            if wd.g.chance(1, 2) {
                Range::U(0, b - a, false)
            } else {
                Range::U(a, b, true)
            }
        }
        3 => {
            let (a, b) = match wd.g.weighted(&[5, 2, 1, 1, 1]) {
                0 => {
                    let a = wd.g.below(100) as f64 / 7.0 - 5.0;
                    (a, a + 0.001 + wd.g.below(1000) as f64 / 3.0)
                }
                1 => (1.0, 1.0 + f64::EPSILON),
                2 => (-1e300, 1e300),
                3 => (-f64::MAX, f64::MAX),
                _ => (0.0, f64::MIN_POSITIVE),
            };
            if wd.g.chance(1, 3) && b > 0.0 {
                Range::Fl(0.0, b, false)
            } else {
                Range::Fl(a, b, true)
            }
        }
        4 => {
            let n = match wd.g.weighted(&[6, 2, 2]) {
                0 => wd.g.range(1, 12),
                1 => wd.g.range(12, 64),
                _ => [70, 128, 255, 256, 257, 300, 700, 1500][wd.g.below(8)],
            };
            Range::L(
                (0..n)
                    .map(|i| match w().g.weighted(&if n > 64 { [1, 1, 0, 0] } else { [6, 2, 1, 1] }) {
                        0 => sd(&format!("e{}", i)),
                        1 => TData::UInt(i + 100),
                        2 => TData::List(vec![TData::UInt(i)]),
                        _ => TData::Map([("k".to_string(), TData::UInt(i))].into_iter().collect()),
                    })
                    .collect(),
            )
        }
        5 => Range::Bad(match wd.g.below(16) {
            0 => vec![TData::UInt(0)],
            1 => vec![TData::Int(0)],
            2 => vec![TData::Int(-(1 + wd.g.below(9) as isize))],
            3 => vec![TData::Float(0.0)],
            4 => vec![TData::Float(-1.5)],
            5 => vec![TData::UInt(5), TData::UInt(5)],
            6 => vec![TData::UInt(6), TData::UInt(5)],
            7 => vec![TData::Int(3), TData::Int(-3)],
            8 => vec![TData::Float(2.0), TData::Float(2.0)],
            9 => vec![TData::Float(f64::NAN)],
            10 => vec![TData::Float(0.0), TData::Float(f64::NAN)],
            11 => vec![TData::Float(f64::NEG_INFINITY), TData::Float(f64::INFINITY)],
            12 => vec![TData::Float(f64::INFINITY)],
            13 => vec![TData::List(vec![])],
            14 => vec![sd("6")],
            _ => vec![TData::Null],
        }),
        _ => {
            let b = TData::UInt(1 + wd.g.below(9));
            let a = [TData::Int(-3), TData::Float(0.5), TData::Int(0), TData::Float(-2.5)][wd.g.below(4)].clone();
            Range::Mixed(a, b)
        }
    }
}
impl Range {
    /// how many draws show every choice
    fn draws(&self) -> usize {
        let n = match self {
            Range::I(a, b, _) => *b as i128 - *a as i128,
            Range::U(a, b, _) => *b as i128 - *a as i128,
            Range::L(l) => l.len() as i128,
            _ => 8,
        };
        if n > 16 && n <= 64 {
            2200
        } else {
            700
        }
    }
    fn args(&self) -> Vec<TData> {
        match self {
            Range::Unit => vec![],
            Range::I(a, b, l) => if *l { vec![TData::Int(*a), TData::Int(*b)] } else { vec![TData::Int(*b)] },
            Range::U(a, b, l) => if *l { vec![TData::UInt(*a), TData::UInt(*b)] } else { vec![TData::UInt(*b)] },
            Range::Fl(a, b, l) => if *l { vec![TData::Float(*a), TData::Float(*b)] } else { vec![TData::Float(*b)] },
            Range::L(l) => vec![TData::List(l.clone())],
            Range::Bad(v) => v.clone(),
            Range::Mixed(a, b) => vec![a.clone(), b.clone()],
        }
    }
    /// Some(which of how many cells), None = not a legal draw
    fn cell(&self, v: &TData) -> Option<(usize, usize)> {
        match (self, v) {
            (Range::Unit, TData::Float(x)) if *x >= 0.0 && *x < 1.0 => Some(((x * 8.0) as usize, 8)),
            (Range::I(a, b, _), TData::Int(x)) if x >= a && x < b => Some(cells(*x as i128 - *a as i128, *b as i128 - *a as i128)),
            (Range::U(a, b, _), TData::UInt(x)) if x >= a && x < b => Some(cells(*x as i128 - *a as i128, *b as i128 - *a as i128)),
            (Range::Fl(a, b, _), TData::Float(x)) if x >= a && x < b => {
                let (lo, hi) = (a / 4.0, b / 4.0);
                // (a width that is no number is drawn from with a smaller scale)
                if !(b - a).is_finite() || hi - lo < 1e-9 || (hi - lo) < 1e-6 * a.abs().max(b.abs()) {
                    Some((0, 1))
                } else {
                    Some(((((x / 4.0 - lo) / (hi - lo)) * 8.0).min(7.0) as usize, 8))
                }
            }
            (Range::L(l), v) => {
                let v = from_td(v);
                l.iter().position(|e| crate::model::same(&from_td(e), &v)).map(|i| cells(i as i128, l.len() as i128))
            }
            _ => None,
        }
    }
}
fn cells(off: i128, len: i128) -> (usize, usize) {
    if len <= 64 {
        (off as usize, len as usize)
    } else {
        ((off * 8 / len) as usize, 8)
    }
}
fn wide(fm: &BasicFuncs) -> Vec<String> {
    (0..4).map(|_| call(fm, Via::Direct, "rand", &[TData::UInt(1 << 60)]).map(|v| v.to_string()).unwrap_or("?".into())).collect()
}
pub fn c17(_c: &mut Ctx) {
    let wd = w();
    wd.entropy = crate::tape::Rng(wd.g.u64());
    let other = wd.g.u64();
    wd.entropy_mode = wd.g.weighted(&[6, 1, 1, 1]) as u8;
    wd.configure(&[], &BENIGN, 1);
    let good = wd.entropy_mode == 0;
    wd.desc.push(format!("entropy: {}", ["ordinary", "all zero", "all 0xff", "a counter"][wd.entropy_mode as usize]));
    // the same program in another process, where the system supplies other entropy
    let mut elsewhere: Vec<String> = vec![];
    if good && wd.g.chance(1, 4) {
        unsafe {
            let mut p = [0i32; 2];
            libc::pipe(p.as_mut_ptr());
            let pid = libc::fork();
            if pid == 0 {
                wd.entropy = crate::tape::Rng(crate::tape::mix(other, 77));
                let out = Sh::new(vec![]);
                run_clients(vec![Box::new(move |c| {
                    let fm = {
                        let _o = off();
                        default_func_man()
                    };
                    let r = run_lib(c, || Ok(wide(&fm)));
                    if let Got::Ok(v) = r.got {
                        *out.get() = v;
                    }
                })]);
                let s = out.get().join(",");
                libc::write(p[1], s.as_ptr() as *const libc::c_void, s.len());
                exit_now(0);
            }
            libc::close(p[1]);
            let mut buf = vec![0u8; 4096];
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            libc::close(p[0]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if n > 0 {
                elsewhere = String::from_utf8_lossy(&buf[..n as usize]).split(',').map(|s| s.to_string()).collect();
            }
        }
        wd.probe("compared with another process");
    }
    let nc = 1 + wd.g.weighted(&[3, 2]);
    let firsts: Sh<Vec<String>> = Sh::new(elsewhere);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let ops: Vec<(Range, bool, bool)> = (0..wd.g.range(1, 5)).map(|_| (gen_range_of(), w().g.chance(1, 4), w().g.chance(1, 3))).collect();
        for (r, t, _) in &ops {
            w().desc.push(format!("client {}: draws from {}{}", ci, short(&format!("{:?}", r), 200), if *t { " by a template" } else { "" }));
        }
        bodies.push(Box::new(move |c| {
            let fm = {
                let _o = off();
                default_func_man()
            };
            let r = run_lib(c, || Ok(wide(&fm)));
            {
                let _o = off();
                if let (Got::Ok(v), true) = (&r.got, good) {
                    for x in v {
                        ctx().check(!firsts.get().contains(x), "not_independent", || format!("draws below 2^60 repeat: {} (earlier ones, in this or another thread or process: {:?})", x, firsts.get()));
                    }
                    firsts.get().extend(v.iter().cloned());
                }
            }
            for (rg, tmpl, fewer) in ops {
                let a = rg.args();
                let legal = !matches!(rg, Range::Bad(_) | Range::Mixed(..));
                let n = if legal { if fewer { 5 } else { rg.draws() } } else { 3 };
                let what = format!("rand {}", short(&format!("{:?}", a), 200));
                let mut got: Vec<TData> = vec![];
                if tmpl {
                    // one render that draws several times, as separate values
                    let src = {
                        let mut s = String::from("{{let l = list");
                        for _ in 0..20 {
                            s.push_str(" (rand");
                            for i in 0..a.len() {
                                s.push_str(&format!(" ${}", i));
                            }
                            s.push(')');
                        }
                        s.push_str("}}{{return $l}}");
                        s
                    };
                    for _ in 0..(n + 19) / 20 {
                        let r = run_lib(c, || super::mix::render(&src, &a, &fm));
                        let _o = off();
                        no_panic(&r, &what);
                        match (&r.got, legal) {
                            (Got::Ok(TData::List(l)), true) => match &l[1] {
                                TData::Map(m) => match m.get("return") {
                                    Some(TData::List(v)) => got.extend(v.iter().cloned()),
                                    o => ctx().fail("illegal_draw", format!("{} in a template: {:?}", what, o)),
                                },
                                _ => {}
                            },
                            (Got::Err(e), true) => ctx().fail("failed_without_cause", format!("{}: {}", what, e)),
                            (Got::Ok(v), false) if matches!(rg, Range::Bad(_)) => ctx().fail("not_an_error", format!("{} gave {:?}", what, v)),
                            _ => {}
                        }
                    }
                } else {
                    for _ in 0..n {
                        let r = run_lib(c, || call(&fm, Via::Direct, "rand", &a));
                        let _o = off();
                        no_panic(&r, &what);
                        match (&r.got, legal) {
                            (Got::Ok(v), true) => got.push(v.clone()),
                            (Got::Ok(v), false) => match &rg {
                                Range::Mixed(a, b) => {
                                    let f = |t: &TData| t.as_float().unwrap_or(f64::NAN);
                                    ctx().check(f(v) >= f(a) && f(v) < f(b), "illegal_draw", || format!("{} gave {:?}", what, v));
                                }
                                _ => ctx().fail("not_an_error", format!("{} gave {:?}", what, v)),
                            },
                            (Got::Err(e), true) => ctx().fail("failed_without_cause", format!("{}: {}", what, e)),
                            _ => {}
                        }
                    }
                }
                let _o = off();
                let cx = ctx();
                let mut seen: BTreeSet<usize> = BTreeSet::new();
                let mut pairs: BTreeSet<(usize, usize)> = BTreeSet::new();
                let mut of = 1;
                let mut cells: Vec<usize> = vec![];
                let mut last = None;
                for v in &got {
                    match rg.cell(v) {
                        None => {
                            cx.check(false, "illegal_draw", || format!("{} gave {:?}", what, v));
                            break;
                        }
                        Some((i, k)) => {
                            cx.checks += 1;
                            of = k;
                            seen.insert(i);
                            if let Some(l) = last {
                                pairs.insert((l, i));
                            }
                            last = Some(i);
                            cells.push(i);
                        }
                    }
                }
                if good && got.len() >= rg.draws() && w().switches < u64::MAX {
                    // of n cells one is missed with probability n*(1-1/n)^draws: 16*(15/16)^700 < 1e-18, 64*(63/64)^2200 < 1e-13
                    cx.check(seen.len() == of, "never_drawn", || format!("{}: in {} draws only {} of {} choices occurred", what, got.len(), seen.len(), of));
                    if of <= 4 {
                        // 16 pairs over 699 overlapping positions: < 16*(15/16)^349 < 1e-8
                        cx.check(pairs.len() == of * of, "not_independent", || format!("{}: of {} pairs of successive draws only {} occurred", what, of * of, pairs.len()));
                    }
                    // pairs of draws one, two and three apart, those at even and at odd places by themselves
                    let p = (of * of) as f64;
                    for lag in 1..4 {
                        for (par, step) in [(0, 2), (1, 2)] {
                            let here: BTreeSet<(usize, usize)> = (par..cells.len().saturating_sub(lag)).step_by(step).map(|i| (cells[i], cells[i + lag])).collect();
                            let k = cells.len().saturating_sub(lag + 2) / 2 / (if lag == 2 { 2 } else { 1 });
                            if of > 1 && p * (1.0 - 1.0 / p).powi(k as i32) < 1e-10 {
                                cx.checks += 1;
                                cx.check(here.len() == of * of, "not_independent", || format!("{}: of {} pairs of draws {} apart at {} places only {} occurred", what, of * of, lag, if par == 0 { "even" } else { "odd" }, here.len()));
                            }
                        }
                    }
                    cx.hit();
                }
                cx.state.insert(hash_state(&[&format!("{:?}", rg).chars().take(1).collect::<String>(), &of.to_string(), &tmpl.to_string(), &got.is_empty().to_string()]));
            }
        }));
    }
    run_clients(bodies);
}
