//! The template engine against the model (C11, C12, C13, C14, C19) and against itself (C15, C16).
use super::util::*;
use crate::driver::*;
use crate::gen::*;
use crate::kernel::*;
use crate::model::*;
use crate::tape::{hash_str, mix};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use templito::func_man::*;
use templito::temp_man::*;
use templito::tparam::*;
use templito::*;

// ------------------------------------------------------------------ values
pub fn to_td(v: &V) -> TData {
    match v {
        V::Null => TData::Null,
        V::Bool(b) => TData::Bool(*b),
        V::Int(i) => TData::Int(*i as isize),
        V::UInt(i) => TData::UInt(*i as usize),
        V::Float(f) => TData::Float(*f),
        V::Str(s) => TData::String(s.clone()),
        V::List(l) => TData::List(l.iter().map(to_td).collect()),
        V::Map(m) => TData::Map(m.iter().map(|(k, v)| (k.clone(), to_td(v))).collect()),
        V::Tm(_) | V::Other(_) => TData::Null,
    }
}
pub fn from_td(t: &TData) -> V {
    match t {
        TData::Null => V::Null,
        TData::Bool(b) => V::Bool(*b),
        TData::Int(i) => V::Int(*i as i64),
        TData::UInt(i) => V::UInt(*i as u64),
        TData::Float(f) => V::Float(*f),
        TData::String(s) => V::Str(s.clone()),
        TData::List(l) => V::List(l.iter().map(from_td).collect()),
        TData::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), from_td(v))).collect()),
        TData::Template(_) => V::Tm(Arc::new(Tm { pn: vec![], body: vec![] })),
        o => V::Other(format!("{:?}", o)),
    }
}
fn vshow(v: &V) -> String {
    format!("{}:{}", v.kind(), v.show())
}
fn exshow(m: &BTreeMap<String, V>) -> String {
    m.iter().map(|(k, v)| format!("{}={}", k, vshow(v))).collect::<Vec<_>>().join(", ")
}

// ------------------------------------------------------------------ the host
#[derive(Clone, Debug)]
pub struct HS {
    pub seed: u64,
    pub fail: u64,
    pub down: u64,
    pub boom: u64, // calls in 1000 that panic (unknown to the model)
    pub enabled: [bool; 6],
    pub n: u64,
    pub hist: Vec<(String, Vec<V>)>,
}
impl HS {
    pub fn gen(fails: bool) -> HS {
        let g = &mut w().g;
        let mut e = [true; 6];
        for x in e.iter_mut() {
            if g.chance(1, 15) {
                *x = false;
            }
        }
        HS {
            seed: g.u64(),
            fail: if fails { [0, 0, 60, 250, 600][g.weighted(&[3, 1, 3, 2, 1])] } else { 0 },
            down: if fails { [0, 100, 400][g.weighted(&[4, 1, 1])] } else { 0 },
            boom: 0,
            enabled: e,
            n: 0,
            hist: vec![],
        }
    }
    /// the outcome of a call depends only on the seed, the function and how many calls came before
    fn outcome(&self, f: &str, args: usize) -> R<V> {
        let r = mix(self.seed, self.n.wrapping_mul(1_000_003) ^ hash_str(f));
        if r % 1000 < self.fail {
            return Err(Fail);
        }
        let n = self.n;
        let r = r >> 12;
        Ok(match f {
            "h0" => V::Str(format!("h0#{}", n)),
            "h1" => V::Str(format!("h1#{}/{}", n, args)),
            "h2" => [V::UInt(r % 4), V::Int(-((r % 3) as i64)), V::Float(1.5)][(r >> 8) as usize % 3].clone(),
            "h3" => V::List((0..r % 4).map(|i| if i % 2 == 0 { V::Str(format!("i{}#{}", i, n)) } else { V::UInt(i) }).collect()),
            "h4" => V::Bool((r >> 3) % 2 == 0),
            _ => match (r >> 4) % 4 {
                0 => V::Null,
                1 => V::Str(String::new()),
                2 => V::Map([("a".to_string(), V::UInt(n)), ("kk".to_string(), V::Str("m".into())), ("zz".to_string(), V::List(vec![]))].into_iter().collect()),
                _ => V::UInt(n),
            },
        })
    }
    fn is_down(&self, t: &str) -> bool {
        self.down > 0 && mix(self.seed ^ 77, self.n ^ hash_str(t)) % 1000 < self.down
    }
}
impl Host for HS {
    fn is_host(&self, f: &str) -> bool {
        HOSTS.iter().position(|h| *h == f).map(|i| self.enabled[i]).unwrap_or(false)
    }
    fn call(&mut self, f: &str, args: &[V]) -> R<V> {
        let r = self.outcome(f, args.len());
        self.hist.push((f.to_string(), args.to_vec()));
        self.n += 1;
        r
    }
    fn down(&self, t: &str) -> bool {
        self.is_down(t)
    }
}
pub fn real_funcs(hs: Sh<HS>) -> BasicFuncs {
    let mut fm = BasicFuncs::new().with_defaults();
    for (i, h) in HOSTS.iter().enumerate() {
        if !hs.get().enabled[i] {
            continue;
        }
        fm = fm.with_func(
            *h,
            Box::new(move |a: &[TCow]| {
                let r = {
                    let _o = off();
                    let v: Vec<V> = a.iter().map(|x| from_td(x)).collect();
                    w().ev(90, hash_str(h), hash_str(&v.iter().map(vshow).collect::<Vec<_>>().join(",")), || format!("host call {}({})", h, v.iter().map(vshow).collect::<Vec<_>>().join(",")));
                    let n = hs.get().n;
                    let boom = hs.get().boom > 0 && mix(hs.get().seed ^ 31, n) % 1000 < hs.get().boom;
                    let r = hs.get().call(h, &v).map(|v| to_td(&v));
                    if boom {
                        None
                    } else {
                        Some(r)
                    }
                };
                yield_point();
                let r = match r {
                    Some(r) => r,
                    None => panic!("host function {} panicked", h),
                };
                match r {
                    Ok(v) => Ok(std::borrow::Cow::Owned(v)),
                    Err(_) => {
                        let why = ["", ": Interrupted system call (os error 4)", ": No such file or directory (os error 2)", ": timed out", ": not found", ": null", ": Resource temporarily unavailable (os error 11)", ": permission denied"];
                        Err(anyhow::anyhow!("host function {} failed{}", h, why[hs.get().n as usize % 8]))
                    }
                }
            }),
            "host",
        );
    }
    fm
}
pub enum Mgr {
    Basic(BasicTemps),
    Sim(BTreeMap<String, TreeTemplate>, Sh<HS>),
}
impl TempManager for Mgr {
    fn insert_t(&mut self, k: String, t: TreeTemplate) {
        match self {
            Mgr::Basic(b) => b.insert_t(k, t),
            Mgr::Sim(m, _) => {
                let _o = off();
                m.insert(k, t);
            }
        }
    }
    fn get_t(&mut self, k: &str) -> anyhow::Result<&TreeTemplate> {
        yield_point();
        match self {
            Mgr::Basic(b) => b.get_t(k),
            Mgr::Sim(m, hs) => {
                if hs.get().is_down(k) {
                    return Err(anyhow::anyhow!("template {} is unavailable now", k));
                }
                m.get(k).ok_or_else(|| anyhow::anyhow!("no template {}", k))
            }
        }
    }
}

// ------------------------------------------------------------------ parameters
#[derive(Debug)]
pub struct Pars(pub Vec<Box<dyn TParam>>);
fn to_toml(v: &V) -> toml::Value {
    match v {
        V::Bool(b) => toml::Value::Boolean(*b),
        V::Int(i) => toml::Value::Integer(*i),
        V::UInt(i) => toml::Value::Integer(*i as i64),
        V::Float(f) => toml::Value::Float(*f),
        V::List(l) => toml::Value::Array(l.iter().map(to_toml).collect()),
        V::Map(m) => toml::Value::Table(m.iter().map(|(k, v)| (k.clone(), to_toml(v))).collect()),
        v => toml::Value::String(v.show()),
    }
}
fn to_json(v: &V) -> serde_json::Value {
    match v {
        V::Bool(b) => (*b).into(),
        V::Int(i) => (*i).into(),
        V::UInt(i) => (*i as i64).into(),
        V::Float(f) => (*f).into(),
        V::List(l) => serde_json::Value::Array(l.iter().map(to_json).collect()),
        V::Map(m) => serde_json::Value::Object(m.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
        V::Str(s) => s.clone().into(),
        _ => serde_json::Value::Null,
    }
}
/// JSON and TOML know one kind of whole number
fn one_int(v: &V) -> V {
    match v {
        V::UInt(i) => V::Int(*i as i64),
        V::List(l) => V::List(l.iter().map(one_int).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), one_int(v))).collect()),
        v => v.clone(),
    }
}
fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
pub fn real_params(v: &[V], how: &[u8]) -> Pars {
    let tds = |m: &BTreeMap<String, V>| m.iter().map(|(k, v)| (k.clone(), to_td(v))).collect::<HashMap<String, TData>>();
    Pars(
        v.iter()
            .zip(how)
            .map(|(v, t)| -> Box<dyn TParam> {
                match (v, t) {
                    (V::Str(s), 1) => Box::new(s.clone()),
                    (V::UInt(n), 1) => Box::new(*n as usize),
                    (V::Float(n), 1) => Box::new(*n),
                    (V::Bool(n), 1) => Box::new(*n),
                    (v, 2) => Box::new(to_json(v)),
                    (v, 3) => Box::new(to_toml(v)),
                    (V::Map(m), 4) => {
                        let (a, b) = halves(m);
                        match (&a, &b) {
                            (V::Map(a), V::Map(b)) => Box::new((leak(tds(a)), leak(tds(b)))),
                            _ => Box::new(to_td(v)),
                        }
                    }
                    (V::List(l), 5) => Box::new(l.iter().map(|s| &**leak(s.show())).collect::<Vec<&'static str>>()),
                    (V::Map(m), 6) => Box::new(tds(m)),
                    (V::Map(m), 7) => Box::new(m.iter().map(|(k, v)| (&**leak(k.clone()), to_td(v))).collect::<HashMap<&'static str, TData>>()),
                    (V::Map(m), 8) => {
                        let (k, v) = m.iter().next().unwrap();
                        Box::new(KV(k.clone(), to_td(v)))
                    }
                    (v, _) => Box::new(to_td(v)),
                }
            })
            .collect(),
    )
}
pub fn model_params(v: &[V], how: &[u8]) -> Vec<Param> {
    v.iter()
        .zip(how)
        .map(|(v, t)| match (v, t) {
            (V::Str(_) | V::UInt(_) | V::Float(_) | V::Bool(_), 1) => Param::Flat(v.clone()),
            (v, 2 | 3) => Param::Val(one_int(v)),
            (V::Map(m), 4) => {
                let (a, b) = halves(m);
                Param::Pair(a, b)
            }
            (V::List(l), 5) => Param::Texts(l.iter().map(|s| s.show()).collect()),
            (V::Map(m), 8) => {
                let (k, v) = m.iter().next().unwrap();
                Param::Key(k.clone(), v.clone())
            }
            (v, _) => Param::Val(v.clone()),
        })
        .collect()
}

// ------------------------------------------------------------------ outcomes
#[derive(Clone, Debug)]
pub struct Out {
    pub res: Result<(String, BTreeMap<String, V>), String>, // Err text "panic..." for panics
    pub panic: bool,
    pub hist: Vec<(String, Vec<V>)>,
    pub absorbed: u64,
    pub calls: u64,
}
impl Out {
    pub fn show(&self) -> String {
        let h = self.hist.iter().map(|(f, a)| format!("{}({})", f, a.iter().map(vshow).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(" ");
        match &self.res {
            Ok((t, e)) => format!("text {:?}; exports {{{}}}; calls {}", t, exshow(e), h),
            Err(e) => format!("error {:?}; calls {}", short(e, 200), h),
        }
    }
}
pub const STATUS: u8 = 1;
pub const TEXT: u8 = 2;
pub const EXP: u8 = 4;
pub const HIST: u8 = 8;
pub const PANIC: u8 = 16;
pub const ABS_TEXT: u8 = 32; // text and exports, but only when something was absorbed

pub fn same_ex(a: &BTreeMap<String, V>, b: &BTreeMap<String, V>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y))
}
fn same_hist(a: &[(String, Vec<V>)], b: &[(String, Vec<V>)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(p, q)| same(p, q)))
}
/// what differs, restricted to the aspects a property is about
pub fn differ(got: &Out, want: &Out, mask: u8) -> Option<&'static str> {
    if got.panic && mask & PANIC != 0 && !want.panic {
        return Some("panic");
    }
    if mask & HIST != 0 && !same_hist(&got.hist, &want.hist) {
        return Some("calls_differ");
    }
    if mask & STATUS != 0 && got.res.is_ok() != want.res.is_ok() {
        return Some(if want.res.is_ok() { "failed_without_cause" } else { "failure_lost" });
    }
    if let (Ok((t1, e1)), Ok((t2, e2))) = (&got.res, &want.res) {
        let abs = mask & ABS_TEXT != 0 && want.absorbed > 0;
        if (mask & TEXT != 0 || abs) && t1 != t2 {
            return Some("text_differs");
        }
        if (mask & EXP != 0 || abs) && !same_ex(e1, e2) {
            return Some("exports_differ");
        }
    }
    None
}

pub fn parse_all(sc: &Scene) -> Result<(Vec<(String, TreeTemplate)>, Vec<TreeTemplate>), String> {
    let p = |t: &str, pn: &[String]| -> Result<TreeTemplate, String> {
        match std::panic::catch_unwind(|| t.parse::<TreeTemplate>()) {
            Ok(Ok(mut x)) => {
                x.pnames = pn.to_vec();
                Ok(x)
            }
            Ok(Err(e)) => Err(format!("{:?} does not parse: {}", t, e)),
            Err(_) => Err(format!("parsing {:?} panicked", t)),
        }
    };
    let mut tms = vec![];
    for (n, t, text) in &sc.tms {
        tms.push((n.clone(), p(text, &t.pn)?));
    }
    let mut mains = vec![];
    for (t, text) in &sc.mains {
        mains.push(p(text, &t.pn)?);
    }
    Ok((tms, mains))
}
/// the model's answer for a sequence of renders that share a manager; None: outside the model
pub fn model_run(sc: &Scene, hs: &HS, order: &[usize]) -> Result<Vec<Out>, &'static str> {
    let mut hs = hs.clone();
    let mut tm: BTreeMap<String, Arc<Tm>> = sc.tms.iter().map(|(n, t, _)| (n.clone(), t.clone())).collect();
    let mut out = vec![];
    for i in order {
        let from = hs.hist.len();
        let (res, abs) = {
            let mut m = M::new(&mut hs);
            m.tm = std::mem::take(&mut tm);
            let r = m.render(&sc.mains[*i].0, &model_params(&sc.params[*i], &sc.text_params[*i]));
            if let Some(u) = m.unsup {
                return Err(u);
            }
            tm = std::mem::take(&mut m.tm);
            (r, (m.absorbed, m.calls))
        };
        out.push(Out { res: res.map_err(|_| "fails".to_string()), panic: false, hist: hs.hist[from..].to_vec(), absorbed: abs.0, calls: abs.1 });
    }
    Ok(out)
}
/// the same sequence with the library, inside a client
pub fn real_run(c: &Client, tms: &[(String, TreeTemplate)], mains: &[TreeTemplate], sc: &Scene, hs: Sh<HS>, sim_mgr: bool, order: &[usize]) -> Vec<Out> {
    let (fm, mut mgr) = {
        let _o = off();
        let fm = real_funcs(hs);
        let mgr = if sim_mgr { Mgr::Sim(tms.iter().cloned().collect(), hs) } else { Mgr::Basic(tms.iter().cloned().collect()) };
        (fm, mgr)
    };
    order.iter().map(|i| render_one(c, &mains[*i], &sc.params[*i], &sc.text_params[*i], *i, &fm, &mut mgr, hs).0).collect()
}
/// one render with fresh parameter values; also the number of hard faults it met
pub fn render_one(c: &Client, main: &TreeTemplate, params: &[V], text: &[u8], i: usize, fm: &BasicFuncs, mgr: &mut Mgr, hs: Sh<HS>) -> (Out, u32) {
    let (ps, from) = {
        let _o = off();
        let ps = real_params(params, text);
        (ps, hs.get().hist.len())
    };
    let p: Vec<&dyn TParam> = ps.0.iter().map(|b| &**b).collect();
    let r = run_lib(c, || inst::run_exp(main, &p, mgr, fm));
    let _o = off();
    let cx = ctx();
    for ((v, m), p) in params.iter().zip(model_params(params, text)).zip(&ps.0) {
        let now = p.get_v(&[]).map(|t| from_td(&t));
        if let (Some(n), Some(m)) = (now, m.get(&[])) {
            if !same(&n, &m) {
                cx.fail("parameter_changed", format!("rendering changed the parameter {} to {}", vshow(v), vshow(&n)));
            }
        }
    }
    let panic = matches!(r.got, Got::Panic(_));
    let res = match r.got {
        Got::Ok((t, e)) => Ok((t, e.iter().map(|(k, v)| (k.clone(), from_td(v))).collect())),
        Got::Err(e) => Err(e),
        Got::Panic(e) => Err(format!("panic: {}", e)),
    };
    let o = Out { res, panic, hist: hs.get().hist[from..].to_vec(), absorbed: 0, calls: 0 };
    log_out(i, &o);
    (o, r.end.hard)
}
fn log_out(i: usize, o: &Out) {
    let s = match &o.res {
        Ok((t, e)) => format!("text {:?} exports {}", t, exshow(e)),
        Err(e) => format!("error {:?}", e),
    };
    w().ev(91, i as u64, hash_str(&s), || format!("render {} gave {}", i, short(&s, 300)));
}
fn describe(sc: &Scene, hs: &HS) {
    let wd = w();
    for (n, t, text) in &sc.tms {
        wd.desc.push(format!("template {}({}) = {}", n, t.pn.join(","), text));
    }
    for (i, (t, text)) in sc.mains.iter().enumerate() {
        wd.desc.push(format!("main {}({}) = {}", i, t.pn.join(","), text));
        wd.desc.push(format!("  parameters {}", sc.params[i].iter().map(vshow).collect::<Vec<_>>().join("; ")));
    }
    wd.desc.push(format!("host calls fail {}/1000, templates are unavailable {}/1000, missing functions {:?}", hs.fail, hs.down, HOSTS.iter().enumerate().filter(|(i, _)| !hs.enabled[*i]).map(|x| x.1).collect::<Vec<_>>()));
}

fn against_model(cfg: GCfg, fails: bool, mask: u8, need: fn(&Out) -> bool) {
    let wd = w();
    wd.configure(&[], &[], 1);
    let mains = 1 + wd.g.weighted(&[4, 3, 2]);
    let sc = scene(&cfg, mains, false);
    let hs0 = HS::gen(fails);
    let n = if cfg.calls > 3 { wd.g.range(1, 4) } else { wd.g.range(1, 2) };
    let order: Vec<usize> = (0..n).map(|i| if i < mains { i } else { wd.g.below(mains) }).collect();
    describe(&sc, &hs0);
    wd.desc.push(format!("renders in order {:?}", order));
    let want = match model_run(&sc, &hs0, &order) {
        Ok(w) => w,
        Err(u) => {
            wd.probe(match u {
                "too long" | "too deep" | "too much text" | "long list" | "long loop" => "left out: too big",
                _ => "left out: outside the model",
            });
            return;
        }
    };
    let hs = Sh::new(hs0);
    let sim_mgr = wd.g.chance(1, 2) || hs.get().down > 0;
    let got: Sh<Vec<Out>> = Sh::new(vec![]);
    let scs = Sh::new(sc);
    run_clients(vec![Box::new(move |c| {
        let sc = scs.get();
        let parsed = {
            let _o = off();
            parse_all(sc)
        };
        match parsed {
            Err(e) => ctx().fail("does_not_parse", e),
            Ok((tms, mains)) => {
                let r = real_run(c, &tms, &mains, sc, hs, sim_mgr, &order);
                let _o = off();
                *got.get() = r;
                std::mem::forget((tms, mains));
            }
        }
    })]);
    let c = ctx();
    for (i, (g, x)) in got.get().iter().zip(&want).enumerate() {
        c.checks += 1;
        if let Some(d) = differ(g, x, mask) {
            c.fail(d, format!("render {}: expected {}\n   but got {}", i, x.show(), g.show()));
        }
        if need(x) {
            c.hit();
        }
        if x.res.is_err() {
            wd.probe("render fails");
        }
        if x.calls > 1 {
            wd.probe("several template calls");
        }
        if x.absorbed > 0 {
            wd.probe("failure absorbed");
        }
        let fs: Vec<&str> = x.hist.iter().take(12).map(|h| h.0.as_str()).collect();
        c.state.insert(hash_state(&[&fs.join(","), &x.res.is_ok().to_string(), &x.absorbed.min(3).to_string(), &x.res.as_ref().map(|t| t.1.len()).unwrap_or(0).to_string()]));
    }
}

pub fn c11(_c: &mut Ctx) {
    let mut cfg = GCfg::base();
    cfg.host = 8;
    cfg.absorb = 4;
    cfg.bad = [0, 8, 25][w().g.weighted(&[2, 2, 1])];
    cfg.w = [2, 9, 5, 2, 6, 4, 6, 4, 7, 2, 2, 2, 1, 1, 0, 1];
    against_model(cfg, true, HIST, |o| o.hist.len() >= 3);
}
pub fn c12(_c: &mut Ctx) {
    let mut cfg = GCfg::base();
    cfg.host = 4;
    cfg.absorb = 6;
    cfg.calls = 3;
    cfg.bad = [6, 25, 80][w().g.weighted(&[2, 3, 1])];
    cfg.nodes = [12, 40][w().g.below(2)];
    against_model(cfg, true, STATUS | PANIC | ABS_TEXT, |o| o.res.is_err() || o.absorbed > 0);
}
pub fn c13(_c: &mut Ctx) {
    let mut cfg = GCfg::base();
    cfg.host = 1;
    cfg.probe = 5;
    cfg.calls = 1;
    cfg.bad = [0, 10][w().g.below(2)];
    cfg.w = [2, 4, 8, 5, 5, 5, 5, 7, 4, 3, 3, 2, 0, 0, 0, 12];
    against_model(cfg, false, STATUS | TEXT | EXP, |o| o.res.as_ref().map(|r| r.0.contains('~')).unwrap_or(false));
}
pub fn c14(_c: &mut Ctx) {
    let mut cfg = GCfg::base();
    cfg.host = 1;
    cfg.calls = 9;
    cfg.probe = 4;
    cfg.bad = [0, 4][w().g.below(2)];
    cfg.uses = 7;
    cfg.w = [2, 9, 5, 3, 3, 3, 2, 2, 4, 2, 2, 8, 6, 5, 0, 4];
    let fails = w().g.chance(1, 3);
    against_model(cfg, fails, STATUS | TEXT | EXP | HIST, |o| o.calls > 0 && o.res.is_ok());
}

// ------------------------------------------------------------------ C15
pub fn date() -> TData {
    let wd = w();
    TData::Date(chrono::NaiveDate::from_ymd_opt(2000 + wd.g.below(40) as i32, 1 + wd.g.below(12) as u32, 1 + wd.g.below(28) as u32).unwrap())
}
/// Raw template text over the pure built-in functions; no model, only the same text again.
pub struct Raw {
    ty: Vec<Ty>,
    vars: Vec<(String, Ty)>,
}
impl Raw {
    fn lit(&mut self, t: Ty) -> String {
        let g = &mut w().g;
        let cand: Vec<String> = self.ty.iter().enumerate().filter(|(_, x)| **x == t).map(|(i, _)| format!("${}", i)).chain(self.vars.iter().filter(|v| v.1 == t).map(|v| format!("${}", v.0))).collect();
        if !cand.is_empty() && g.chance(1, 2) {
            return cand[g.below(cand.len())].clone();
        }
        match t {
            Ty::Str => g.pick(&["\"a b\"", "\"\"", "\"x/y.txt\"", "\"<p> & 'q'\"", "\"# head\\n\\n* one\\n* two\"", "\"a,b,c\"", "\"{\\\"b\\\":1,\\\"a\\\":[2,3],\\\"c\\\":{\\\"z\\\":1,\\\"y\\\":null}}\"", "\"name: A\\n$x = 3\"", "\"é漢\"", "\"kk\"", "\"a\"", "\"\u{a0}x\""]).to_string(),
            Ty::Num => g.pick(&["1", "0", "2", "3", "-1", "2.5", "7"]).to_string(),
            Ty::Bool => "(eq 1 1)".into(),
            Ty::List => g.pick(&["[3,1,2]", "[\"b\",\"a\",\"c\"]", "[[1,\"z\"],[0,\"y\"]]", "[{a:2,b:1},{a:1,b:5},{b:3,a:1}]", "[]", "[2.5,1,-3,2,0,-1.5]", "[true,[1],\"a\",3,null,{a:1}]", "[1,2,2,3,5,8]"]).to_string(),
            _ => g.pick(&["{a:1,b:1,kk:2}", "{zz:[1,2],a:{x:1,y:2,z:3},b:\"t\"}", "{}", "{k1:1,k2:1,k3:3,k4:1,k5:3,k6:6,k7:\"a\",k8:\"a\"}"]).to_string(),
        }
    }
    fn table(t: Ty) -> &'static [(&'static str, &'static [Ty])] {
        use Ty::*;
        match t {

            Str => &[
                ("cat", &[Any, Any, Any]), ("w_json", &[Any]), ("md", &[Str]), ("table", &[Str]), ("html_esc", &[Str]), ("xml_esc", &[Str]), ("str_replace", &[Str, Str, Str]), ("str_replace_n", &[Str, Str, Str, Num]), ("join_with", &[Str, List]), ("base_name", &[Str]), ("with_ext", &[Str, Str]),
                ("stem", &[Str]), ("full_stem", &[Str]), ("parent", &[Str]), ("join", &[Str, Str]), ("type_of", &[Any]), ("as_base64", &[Num]), ("xy", &[Num, Num]), ("xywh", &[Num, Num, Num, Num]), ("fl_stk", &[Str, Str, Num]), ("font", &[Num, Str]), ("slice", &[Str, Num]), ("string_from_ints", &[Num, Num]), ("debug", &[Any, Any]), ("base_name_sure", &[Str]), ("cxyrr", &[Num, Num, Num, Num]), ("xy12", &[Num, Num, Num, Num]),
            ],
            Num => &[("add", &[Num, Num]), ("sub", &[Num, Num]), ("mul", &[Num, Num]), ("min", &[Num, Num]), ("max", &[Num, Num]), ("len", &[List]), ("len", &[Map]), ("from_base64", &[Str]), ("index_of", &[Num, List]), ("div", &[Num, Num]), ("mod", &[Num, Num])],
            Bool => &[("eq", &[Any, Any]), ("neq", &[Any, Any]), ("gt", &[Any, Any]), ("lt", &[Num, Num]), ("and", &[Bool, Bool]), ("or", &[Bool, Any]), ("str_contains", &[Str, Str]), ("regex", &[Str, Str]), ("is_null", &[Any]), ("eq_any", &[Any, Any, Any]), ("gte", &[Any, Any]), ("lte", &[Num, Num]), ("nand", &[Bool, Bool]), ("nor", &[Bool, Bool]), ("is_num", &[Any])],
            List => &[("list", &[Any, Any, Any]), ("sort", &[List]), ("append", &[List, List]), ("split", &[Str, Str]), ("groups", &[Num, List]), ("bread_crumbs", &[Str]), ("word_wrap", &[Str, Num]), ("slice", &[List, Num]), ("sort", &[List, List]), ("sort_on", &[List, Str]), ("list", &[Map, Map]), ("filter", &[List])],
            Map => &[("map", &[Str, Any, Str, Any]), ("r_json", &[Str]), ("r_card", &[Str]), ("map", &[Str, Map, Str, Any, Str, Any])],
            _ => &[("get", &[List, Num]), ("get", &[Map, Str]), ("get", &[Str, Num]), ("first", &[Any, Any]), ("index_of", &[Any, List]), ("bin_search", &[List, Num]), ("bin_get", &[List, Num])],
        }
    }
    fn call(&mut self, f: &str, a: &[Ty], d: usize) -> String {
        if f == "sort_on" {
            return format!("(sort_on {} {})", self.e(Ty::List, d), w().g.pick(&["\"a\"", "\"-b\"", "\"b\" \"a\""]));
        }
        if f == "filter" {
            return format!("(filter {} {})", self.e(Ty::List, d), w().g.pick(&["\"gt $0 1\"", "\"is_num\"", "\"eq (type_of $0) \\\"list\\\"\"", "\"lt $0 3\"", "\"len (filter [1,2,3] \\\"gt $0 1\\\")\""]));
        }
        if f == "regex" && w().g.chance(3, 4) {
            return format!("(regex {} {})", self.e(Ty::Str, d), w().g.pick(&["\"[a-c]+\"", "\"x.y\"", "\"^#\"", "\"z$\"", "\"(\"", "\"\\\\d\"", "\"b\""]));
        }
        if f == "table" && w().g.chance(3, 4) {
            let mut t = String::new();
            for _ in 0..w().g.range(1, 5) {
                t.push_str(w().g.pick(&["", "*", "-", "", "-*"]));
                for _ in 0..w().g.range(1, 4) {
                    t.push_str(w().g.pick(&["|a", "|b c", "| 1 ", "|<x>", "|", "|é"]));
                }
                t.push_str(w().g.pick(&["|\\n", "|\\n", "\\n", "| \\n\\n"]));
            }
            return format!("(table \"{}\"{})", t, w().g.pick(&["", "", " \"id='t'\"", " 3"]));
        }
        if f == "r_card" && w().g.chance(3, 4) {
            let mut t = String::new();
            if w().g.chance(1, 3) {
                t.push_str(w().g.pick(&["@param color\\n", "@def :\\n.speak: no\\n.size: 3\\n", "@const p:Prap\\n", "# c\\n"]));
            }
            for i in 0..w().g.range(1, 3) {
                t.push_str(w().g.pick(&["doggo:\\n", "4 * help:\\n", "porp 3 :\\n", "mappy:\\n"]));
                for k in 0..w().g.below(5) {
                    t.push_str(&format!(".k{}{}\\n", k, w().g.pick(&[":3", ":hello", ":[fish,cat,[1,2]]", ":{s:hello,y:4,z:[1]}", "$s:hello", "**:[[wood,4],[metal,1]]", ":-7"])));
                }
                if i == 0 && w().g.chance(1, 6) {
                    t.push_str(".broken");
                }
            }
            return format!("(r_card \"{}\")", t);
        }
        if f == "word_wrap" && w().g.chance(2, 3) {
            return format!("(word_wrap {} {})", w().g.pick(&["\"one two three four five\"", "\"lorem ipsum dolor sit amet\"", "\"la la la la la di la la la\"", "$0"]), w().g.pick(&["5", "9", "20", "3", "2"]));
        }
        self.call_odd(f, a, d, 14)
    }
    fn call_odd(&mut self, f: &str, a: &[Ty], d: usize, odd: usize) -> String {
        let mut a = a.to_vec();
        if w().g.chance(1, odd * 2) {
            a.push(*w().g.pick(&[Ty::Num, Ty::Str, Ty::List, Ty::Any]));
        } else if w().g.chance(1, odd * 3) {
            a.pop();
        }
        let a: Vec<String> = a
            .iter()
            .map(|t| {
                // now and then of another type
                let t = if w().g.chance(1, odd) { *w().g.pick(&[Ty::Map, Ty::Map, Ty::List, Ty::Str, Ty::Num]) } else { *t };
                self.e(t, d)
            })
            .collect();
        format!("({} {})", f, a.join(" "))
    }
    /// several calls of one function, with arguments of all kinds
    fn focus(ty: Vec<Ty>, f: &str, a: &[Ty]) -> String {
        let mut r = Raw { ty, vars: vec![] };
        let mut s = String::new();
        for i in 0..w().g.range(1, 8) {
            let e = if w().g.chance(1, 3) { r.call_odd(f, a, w().g.below(2), 3) } else { r.call(f, a, w().g.below(2)) };
            match w().g.below(4) {
                0 => s.push_str(&format!("{{{{if {}}}}}y{{{{else}}}}n{{{{/if}}}}", e)),
                1 => s.push_str(&format!("{{{{export x{} = first {} \"E\"}}}}", i, e)),
                _ => s.push_str(&format!("{}:{{{{first (w_json {}) \"E\"}}}}\n", i, e)),
            }
        }
        s
    }
    fn any_fn() -> (&'static str, &'static [Ty]) {
        let t = *w().g.pick(&[Ty::Str, Ty::Str, Ty::Num, Ty::Bool, Ty::Bool, Ty::List, Ty::List, Ty::Map, Ty::Any]);
        let fs = Raw::table(t);
        fs[w().g.below(fs.len())]
    }
    /// a call of a built-in function by itself: arguments mostly of the right types, mostly as many as it takes
    pub fn direct() -> (String, Vec<TData>) {
        let (f, t) = Raw::any_fn();
        let mut a: Vec<TData> = vec![];
        for t in t {
            let wd = w();
            let t = if wd.g.chance(1, 10) { [Ty::Str, Ty::Num, Ty::List, Ty::Map][wd.g.below(4)] } else { *t };
            a.push(match t {
                Ty::Num => [TData::UInt(1), TData::UInt(0), TData::UInt(3), TData::Int(-1), TData::Float(2.5)][wd.g.below(5)].clone(),
                Ty::Bool => TData::Bool(wd.g.chance(1, 2)),
                Ty::List => {
                    let n = wd.g.below(6);
                    TData::List((0..n).map(|i| if w().g.chance(1, 4) { sd(["b", "a", ""][i % 3]) } else { TData::UInt(w().g.below(9)) }).collect())
                }
                Ty::Map => TData::Map((0..wd.g.below(6)).map(|i| (["a", "b", "kk", "zz", "n", "q"][i].to_string(), TData::UInt(w().g.below(4)))).collect()),
                _ => sd(*wd.g.pick(&["x", "a,b,c", "# h\n\n* one", "{\"a\":[1,2],\"b\":null}", "one two three four five six", "<p>&", "", "a/b/c.txt", "name: A\n$x = 3", "[a-c]+", "é漢", "\u{a0}x"])),
            });
        }
        let wd = w();
        if f == "filter" {
            a.push(sd(*wd.g.pick(&["gt $0 1", "is_num", "nosuch", "(", "eq $0 \"a\"", "first (nosuch) 1", "len (filter [1,2] \"gt $0 1\")"])));
        }
        if f == "sort_on" {
            a.truncate(1);
            a.push(sd(*wd.g.pick(&["a", "-b", "b"])));
        }
        if f == "table" && wd.g.chance(1, 2) {
            a[0] = sd(*wd.g.pick(&["*|a|b|\n|1|2|\n-|3|4|\n", "|a|b|c|\n|d|e|\n|f|g|h|i|\n", "|x|\n||"]));
        }
        if f == "r_card" && wd.g.chance(1, 2) {
            a[0] = sd(*wd.g.pick(&["doggo:\n.pets:[fish,cat]\n.n:3\n.m:{s:a,y:b}\n", "@def :\n.s:no\n4 * help:\n.t:1\npal:\n", "x:\n.y"]));
        }
        if wd.g.chance(1, 8) && !a.is_empty() {
            // what only a host can give
            let i = wd.g.below(a.len());
            a[i] = if wd.g.chance(1, 2) { date() } else { TData::Bytes(vec![0xff, 0, b'a']) };
            if wd.g.chance(1, 3) {
                a[i] = TData::List(vec![a[i].clone(), TData::UInt(2), date()]);
            }
        }
        if wd.g.chance(1, 8) {
            a.push(TData::UInt(1));
            if wd.g.chance(1, 2) {
                a.rotate_right(1);
            }
        }
        if wd.g.chance(1, 10) {
            a.pop();
        }
        (f.to_string(), a)
    }
    fn e(&mut self, t: Ty, d: usize) -> String {
        if d == 0 || w().g.chance(1, 3) {
            let t = if t == Ty::Any { *w().g.pick(&[Ty::Map, Ty::Str, Ty::Num, Ty::List, Ty::Map]) } else { t };
            return self.lit(t);
        }
        use Ty::*;
        let fs = Raw::table(t);
        if t == Any && w().g.chance(3, 4) {
            let t = *w().g.pick(&[Map, Str, List, Num, Bool, Map]);
            return self.e(t, d);
        }
        let (f, a) = fs[w().g.below(fs.len())];
        self.call(f, a, d - 1)
    }
    fn template(ty: Vec<Ty>) -> String {
        let mut r = Raw { ty, vars: vec![] };
        let n = w().g.range(2, 8);
        let mut s = String::new();
        for i in 0..n {
            match w().g.weighted(&[6, 3, 3, 2, 2, 1]) {
                0 => {
                    let e = r.e(Ty::Any, 3);
                    s.push_str(&format!("{}:{{{{first {} \"E\"}}}}\n", i, e));
                }
                1 => {
                    let t = *w().g.pick(&[Ty::Map, Ty::List, Ty::Str, Ty::Num]);
                    let e = r.e(t, 2);
                    let l = r.lit(t);
                    s.push_str(&format!("{{{{let v{} = first {} {}}}}}", i, e, l));
                    r.vars.push((format!("v{}", i), t));
                }
                2 => {
                    let t = *w().g.pick(&[Ty::Map, Ty::Map, Ty::List]);
                    let e = r.lit(t);
                    s.push_str(&format!("{{{{for k v in {}}}}}<{{{{$k}}}}={{{{first $v \"-\"}}}}>{{{{/for}}}}", e));
                }
                3 => {
                    let e = r.e(Ty::Any, 2);
                    s.push_str(&format!("{{{{export x{} = first {} 0}}}}", i % 3, e));
                }
                4 => {
                    let e = r.e(Ty::Bool, 2);
                    let m = r.e(Ty::Map, 2);
                    s.push_str(&format!("{{{{if {}}}}}y{{{{first (w_json {}) \"n\"}}}}{{{{else}}}}n{{{{/if}}}}", e, m));
                }
                _ => {
                    let m = r.lit(Ty::Map);
                    s.push_str(&format!("{{{{switch {}}}}}{{{{case {{a:<q>}}}}}}a{{{{$q}}}}{{{{case {{b:_, zz}}}}}}z{{{{$zz}}}}{{{{case _}}}}other{{{{/switch}}}}", m));
                }
            }
        }
        s
    }
}
/// everything a render must not depend on
fn perturb() {
    let wd = w();
    wd.entropy = crate::tape::Rng(wd.g.u64());
    wd.entropy_mode = wd.g.weighted(&[6, 1, 1, 2]) as u8;
    wd.now += wd.g.below(1 << 30) as u64 * 1000;
    if wd.g.chance(1, 2) {
        for i in 0..3 {
            wd.console_mode[i] = wd.g.below(6) as u8;
        }
    }
    if wd.g.chance(1, 2) {
        let n = wd.g.below(4);
        wd.env = (0..n).map(|i| (format!("V{}", i).into_bytes(), b"x".to_vec())).collect();
        for k in ["LANG", "LC_ALL", "TZ", "HOME", "NO_COLOR"] {
            if wd.g.chance(1, 4) {
                wd.env.insert(k.into(), wd.g.pick(&["C", "de_DE.UTF-8", "Asia/Tokyo", "/h"]).to_string().into_bytes());
            }
        }
        wd.set_env_block();
    }
    if wd.g.chance(1, 2) {
        let d = wd.g.pick(&["/", "/tmp", "/work/x"]).to_string();
        let c = wd.fs.mkdirs(&d);
        wd.fs.cwd = c;
    }
    wd.desc.push(format!("then: entropy mode {}, console {:?}, time {}, environment {}", wd.entropy_mode, wd.console_mode, wd.now / 1_000_000_000, wd.env.len()));
}
fn types_of(pv: &[V]) -> Vec<Ty> {
    pv.iter()
        .map(|v| match v {
            V::Str(_) => Ty::Str,
            V::List(_) => Ty::List,
            V::Map(_) => Ty::Map,
            V::Bool(_) => Ty::Bool,
            _ => Ty::Num,
        })
        .collect()
}
pub fn c15(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&[], &[F::EintrRandom, F::EintrWrite, F::ShortWrite], 1);
    let mut cfg = GCfg::base();
    cfg.maps = 9;
    cfg.host = 1;
    cfg.bad = [0, 4][wd.g.below(2)];
    cfg.nodes = 30;
    cfg.w = [2, 8, 4, 3, 2, 7, 3, 2, 2, 1, 2, 1, 1, 1, 0, 1];
    let mut sc = scene(&cfg, 1, false);
    let raws = wd.g.range(1, 3);
    for _ in 0..raws {
        let (mut pv, _) = gen_params();
        while pv.len() < 2 {
            pv.push(gen_map(2));
        }
        let ty = types_of(&pv);
        let t = Raw::template(ty);
        sc.mains.push((Arc::new(Tm { pn: vec![], body: vec![] }), t));
        sc.text_params.push(pv.iter().map(gen_host_type).collect());
        sc.params.push(pv);
    }
    let hs0 = HS::gen(false);
    describe(&sc, &hs0);
    if model_run(&sc, &hs0, &[0]).is_err() {
        wd.probe("left out: too big");
        return;
    }
    let order: Vec<usize> = (0..sc.mains.len()).collect();
    let sim_mgr = wd.g.chance(1, 2);
    let scs = Sh::new(sc);
    let got: Sh<Vec<Vec<Out>>> = Sh::new(vec![]);
    let times = 2 + wd.g.below(2);
    let threads = wd.g.chance(1, 3);
    let reparse = wd.g.chance(1, 4);
    let parsed: Sh<Option<(Vec<(String, TreeTemplate)>, Vec<TreeTemplate>)>> = Sh::new(None);
    for k in 0..times {
        if k > 0 {
            perturb();
        }
        let mut bodies: Vec<Body> = vec![];
        for _ in 0..if threads && k > 0 { 2 } else { 1 } {
            let (hs0, order) = (hs0.clone(), order.clone());
            bodies.push(Box::new(move |c| {
                let sc = scs.get();
                if reparse || parsed.get().is_none() {
                    let _o = off();
                    match parse_all(sc) {
                        Err(e) => return ctx().fail("does_not_parse", e),
                        Ok(p) => {
                            std::mem::forget(parsed.get().replace(p));
                        }
                    }
                }
                let (tms, mains) = {
                    let _o = off();
                    parsed.get().clone().unwrap()
                };
                for _ in 0..2 {
                    let r = real_run(c, &tms, &mains, sc, Sh::new(hs0.clone()), sim_mgr, &order);
                    let _o = off();
                    got.get().push(r);
                }
            }));
        }
        run_clients(bodies);
    }
    let c = ctx();
    let g = got.get();
    for (k, o) in g.iter().enumerate().skip(1) {
        for i in 0..order.len().min(o.len()) {
            c.checks += 1;
            if o[i].panic != g[0][i].panic {
                c.fail("outcome_differs", format!("main {}: {}\n   but time {}: {}", i, g[0][i].show(), k + 1, o[i].show()));
            }
            if let Some(d) = differ(&o[i], &g[0][i], STATUS | TEXT | EXP | HIST) {
                c.fail(if d == "text_differs" || d == "exports_differ" || d == "calls_differ" { d } else { "outcome_differs" }, format!("main {}: first {}\n   but time {}: {}", i, g[0][i].show(), k + 1, o[i].show()));
            }
        }
    }
    for (i, o) in g.first().iter().flat_map(|v| v.iter()).enumerate() {
        match &o.res {
            Ok((t, e)) => {
                if t.len() > 10 {
                    c.hit();
                }
                c.state.insert(hash_state(&[t, &exshow(e)]));
            }
            Err(_) => {
                wd.probe(if o.panic { "render panics" } else { "render fails" });
                if i > 0 {
                    wd.probe("raw render fails");
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C16
#[derive(Clone)]
struct Task {
    main: usize,
    params: Vec<V>,
    text: Vec<u8>,
    hs: HS,
    reps: usize,
}
impl Task {
    fn same(&self, o: &Task) -> bool {
        self.hs.seed == o.hs.seed && self.hs.fail == o.hs.fail && self.hs.down == o.hs.down && self.hs.boom == o.hs.boom && format!("{:?}{:?}", self.params, self.text) == format!("{:?}{:?}", o.params, o.text)
    }
}
fn agree(got: &Out, want: &Out, what: impl Fn() -> String) {
    let d = if got.panic != want.panic { Some("outcome_differs") } else { differ(got, want, STATUS | TEXT | EXP | HIST) };
    if let Some(d) = d {
        ctx().fail(d, format!("{}: first {}\n   but then {}", what(), want.show(), got.show()));
    }
}
pub fn c16(_c: &mut Ctx) {
    let wd = w();
    let hard: &[F] = &[F::Open, F::Read, F::Write, F::ReadDir, F::OpenDir, F::Stat];
    wd.configure(hard, &BENIGN, 3);
    let mut cfg = GCfg::base();
    cfg.host = 4;
    cfg.absorb = 3;
    cfg.calls = 3;
    cfg.bad = [0, 4, 12][wd.g.below(3)];
    cfg.nodes = 24;
    cfg.w = [3, 8, 5, 3, 4, 4, 4, 4, 4, 2, 2, 3, 3, 1, 0, 3];
    let nm = 1 + wd.g.below(3);
    let mut sc = scene(&cfg, nm, false);
    // files that every client reads
    let pl = gen_place();
    for (i, n) in ["a.txt", "sub/b.md", "sub/deep/c.md", "d.md"].iter().enumerate() {
        let body = [format!("{{{{export title = \"T{}\"}}}}text {}", i, i), format!("plain {} é", i), format!("{{{{export n = add {} 1}}}}{{{{@export body}}}}b{}{{{{/export}}}}", i, i)][wd.g.below(3)].clone();
        wd.fs.put(&format!("{}/{}", pl.real, n), body.as_bytes());
    }
    wd.programs.insert(b"cat".to_vec(), Program { script: vec![Act::Out(b"<".to_vec()), Act::Echo(7), Act::Out(b">".to_vec())] });
    wd.programs.insert(b"hello".to_vec(), Program { script: vec![Act::Out(b"hello ".to_vec()), Act::OutArgs, Act::ErrOut(b"noise".to_vec())] });
    let snips = [
        "{{file \"a.txt\"}}",
        "{{first (file \"none\" ) (file \"sub/b.md\" \"d.md\")}}",
        "{{join_with \",\" (sort (dir \"sub\"))}}",
        "{{for k v in sort_on (scan_dir \".\" 3) \"item_full_path\"}}<{{$v.item_file}} {{first $v.title $v.n \"-\"}}>{{/for}}",
        "{{is_file \"a.txt\" \"d.md\"}}{{is_dir \"sub\" \"sub/deep\"}}{{is_file \"sub\"}}",
        "{{exec_stdin \"cat\" \"input $0\"}}",
        "{{exec \"hello\" \"x\" \"y z\"}}",
        "{{let t = file \"d.md\"}}{{if str_contains $t \"plain\"}}p{{else}}q{{/if}}{{len (file_bytes \"a.txt\")}}",
        "{{h0}}{{write outp (cat \"out \" h0 (file \"a.txt\"))}}{{h1 1}}{{len (file outp)}}",
        "{{as {a:1,b:[2,3]} : {a:<q>, b:<r:[_,_]>}}}{{$q}}{{$r.1}}{{/as}}{{first $q \"gone\"}}",
        "{{nosuch 1}}",
        "{{debug \"d\"}}{{@md}}* a\n* {{h0}}\n{{/md}}",
        "{{first (run (r_json \"{}\")) \"norun\"}}{{regex \"abc\" \"b+\"}}",
        "{{env \"LANGX\" \"none\"}}{{h2}}{{table \"a,b\\n1,2\"}}",
        "{{global gx p}}[{{$p}}{{h0}}]{{/global}}{{gx 1}}{{gx (h1 2)}}",
        "{{[[[[[[1,2],3],\"x\"],4],[5]],6]}}{{w_json [[[[1]]],{a:[[{b:[2]}]]}]}}",
        "{{let d = [[[[[$0]]]]]}}{{cat $d $d}}{{debug $d}}{{type_of $d.0.0}}",
        "{{sort (dir \"sub\")}}{{join_with \"+\" (sort (dir \"sub/deep\"))}}{{file \"d.md\"}}{{is_dir \"sub\"}}",
        "{{r_json \"{\\\"a\\\":[1,{\\\"b\\\":null}]}\"}}{{word_wrap \"one two three\" 5}}{{html_esc \"<&>\"}}",
        "{{for k v in [1,2,3]}}{{@let q}}{{$k}}{{$v}}{{/let}}{{$q}}{{/for}}{{switch 2}}{{case 1}}a{{case <x:2>}}{{$x}}{{/switch}}",
        "{{sort [3,1,2]}}{{filter [1,2,3] \"gt $0 1\"}}{{w_json (sort_on [{a:2},{a:1}] \"a\")}}",
    ];
    let extra = wd.g.range(1, 4);
    let only = if wd.g.chance(1, 4) { Some(wd.g.below(snips.len())) } else { None };
    for _ in 0..extra {
        let n = wd.g.range(1, 4);
        let t: String = (0..n).map(|_| snips[only.unwrap_or_else(|| w().g.below(snips.len()))]).collect::<Vec<_>>().join("|");
        sc.mains.push((Arc::new(Tm { pn: vec![], body: vec![] }), t));
        let (mut pv, _) = gen_params();
        if pv.is_empty() {
            pv.push(V::Str("p0".into()));
        }
        sc.text_params.push(pv.iter().map(gen_host_type).collect());
        sc.params.push(pv);
    }
    // calls of the built-in functions with arguments of all kinds
    for _ in 0..wd.g.below(3) {
        let (mut pv, _) = gen_params();
        while pv.len() < 2 {
            pv.push(gen_map(2));
        }
        let t = Raw::template(types_of(&pv));
        sc.mains.push((Arc::new(Tm { pn: vec![], body: vec![] }), t));
        sc.text_params.push(pv.iter().map(gen_host_type).collect());
        sc.params.push(pv);
    }
    // one built-in function used by all of them
    let focus = wd.g.chance(2, 5);
    let nfocus = sc.mains.len();
    if focus {
        let (f, a) = Raw::any_fn();
        for _ in 0..wd.g.range(2, 5) {
            let pv: Vec<V> = (0..2).map(|_| gen_map(2)).chain([V::Str("x0y".into())]).collect();
            let t = Raw::focus(types_of(&pv), f, a);
            sc.mains.push((Arc::new(Tm { pn: vec![], body: vec![] }), t));
            sc.text_params.push(pv.iter().map(gen_host_type).collect());
            sc.params.push(pv);
        }
    }
    wd.alloc_every = [0, 8, 60, 400][wd.g.weighted(&[5, 1, 1, 1])];
    wd.edge_every = if focus { [0, 3, 12, 50, 300][wd.g.weighted(&[1, 2, 3, 2, 1])] } else { [0, 3, 30, 300, 3000][wd.g.weighted(&[2, 1, 2, 2, 1])] };
    // one of the renders many times in a row
    let burst = wd.g.chance(1, 6);
    if burst {
        wd.edge_every = [0, 3000][wd.g.below(2)];
        wd.alloc_every = 0;
    }
    let hs0 = HS::gen(false);
    describe(&sc, &hs0);
    let nc = 2 + wd.g.weighted(&[4, 4, 2, 1]);
    // with the folder's functions, or with those for all files, from within the folder
    let free = wd.g.chance(1, 3);
    if free {
        wd.fs.cwd = wd.fs.look(&pl.real).unwrap();
        wd.desc.push("functions for all files, the working directory is the folder".into());
    }
    let mut tasks: Vec<Vec<Task>> = (0..nc)
        .map(|_| {
            (0..w().g.range(1, 4))
                .map(|_| {
                    let wd = w();
                    let main = if focus && wd.g.chance(5, 6) { nfocus + wd.g.below(sc.mains.len() - nfocus) } else if only.is_some() && wd.g.chance(3, 4) { nm + wd.g.below(extra) } else { wd.g.below(sc.mains.len()) };
                    let mut hs = HS::gen(wd.g.chance(1, 3));
                    hs.enabled = [true; 6];
                    if wd.g.chance(1, 8) {
                        hs.boom = 300;
                    }
                    let (params, text) = if wd.g.chance(1, 2) || main >= nm {
                        (sc.params[main].clone(), sc.text_params[main].clone())
                    } else {
                        let (p, _) = gen_params();
                        let t = p.iter().map(gen_host_type).collect();
                        (p, t)
                    };
                    Task { main, params, text, hs, reps: 1 }
                })
                .collect()
        })
        .collect();
    if burst {
        // the last is the first again
        let k = wd.g.below(nc);
        let i = wd.g.below(tasks[k].len());
        if wd.g.chance(1, 2) {
            tasks[k][i].hs = HS::gen(true);
            tasks[k][i].hs.enabled = [true; 6];
            tasks[k][i].hs.fail = 700;
        }
        let m = tasks[k][i].main;
        // those with files and programs are longer
        let io = m >= nm && m < nm + extra;
        tasks[k][i].reps = [20, 50, 150, 300][wd.g.below(if io { 2 } else { 4 })];
        let t = Task { reps: 1, ..tasks[k][0].clone() };
        tasks[k].push(t);
    }
    for t in tasks.iter().flatten().filter(|t| t.main < nm) {
        let mut one = sc.clone();
        one.params[t.main] = t.params.clone();
        one.text_params[t.main] = t.text.clone();
        if model_run(&one, &t.hs, &[t.main]).is_err() {
            wd.probe("left out: too big");
            return;
        }
    }
    for (k, t) in tasks.iter().enumerate() {
        wd.desc.push(format!("client {} renders {}", k, t.iter().map(|t| if t.reps > 1 { format!("{} ({} times)", t.main, t.reps) } else { t.main.to_string() }).collect::<Vec<_>>().join(", ")));
    }
    let sim_mgr = wd.g.chance(1, 2);
    let parsed: Sh<Option<(Vec<(String, TreeTemplate)>, Vec<TreeTemplate>)>> = Sh::new(None);
    {
        let _o = off();
        match parse_all(&sc) {
            Err(e) => return ctx().fail("does_not_parse", e),
            Ok(p) => *parsed.get() = Some(p),
        }
    }
    let spell = pl.spell.clone();
    let go = move |c: &Client, k: usize, t: &Task| -> (Out, u32) {
        let hs = Sh::new(t.hs.clone());
        let (fm, mut mgr) = {
            let _o = off();
            let b = real_funcs(hs).with_exec();
            let b = if free { b.with_free_files() } else { b.with_folder_lock(&spell).with_write_lock(&spell) };
            let b = b.with_f("outp", Box::new(move |_| Ok(std::borrow::Cow::Owned(TData::String(format!("_out/{}/{}.txt", k % 2, k))))), "");
            let tms = &parsed.get().as_ref().unwrap().0;
            (b, if sim_mgr || t.hs.down > 0 { Mgr::Sim(tms.iter().cloned().collect(), hs) } else { Mgr::Basic(tms.iter().cloned().collect()) })
        };
        let m = &parsed.get().as_ref().unwrap().1[t.main];
        render_one(c, m, &t.params, &t.text, t.main, &fm, &mut mgr, hs)
    };
    let go = Arc::new(go);
    let solo: Sh<Vec<Vec<Out>>> = Sh::new(vec![]);
    let conc: Sh<Vec<Vec<(Out, u32)>>> = Sh::new(vec![vec![]; nc]);
    let files = || -> Vec<Option<Vec<u8>>> { (0..nc).map(|k| w().fs.read(&format!("{}/_out/{}/{}.txt", pl.real, k % 2, k)).map(|d| d.to_vec())).collect() };
    let mut outs = vec![vec![], vec![]];
    // alone and without failures, and together with failures, in either order
    let first = wd.g.below(2);
    for phase in [first, 1 - first] {
        if phase == 0 {
            let rates = wd.rates;
            wd.rates = [0; NF];
            for (k, ts) in tasks.iter().enumerate() {
                let (ts, go) = (ts.clone(), Sh::new(go.clone()));
                run_clients(vec![Box::new(move |c| {
                    let mut r: Vec<Out> = vec![];
                    for t in &ts {
                        let o = go.get()(c, k, t).0;
                        for j in 1..t.reps {
                            let again = go.get()(c, k, t).0;
                            let _o = off();
                            agree(&again, &o, || format!("client {} alone: main {} the {}. time", k, t.main, j + 1));
                        }
                        let _o = off();
                        r.push(o);
                    }
                    let _o = off();
                    // what was rendered before does not matter
                    for i in 0..ts.len() {
                        if let Some(j) = (0..i).find(|j| ts[*j].main == ts[i].main && ts[*j].same(&ts[i])) {
                            agree(&r[i], &r[j], || format!("client {} alone: main {} as render {} and {}", k, ts[i].main, j, i));
                        }
                    }
                    solo.get().push(r);
                })]);
            }
            wd.rates = rates;
        } else {
            let bodies: Vec<Body> = tasks
                .iter()
                .enumerate()
                .map(|(k, ts)| -> Body {
                    let (ts, go) = (ts.clone(), Sh::new(go.clone()));
                    Box::new(move |c| {
                        let mut r: Vec<(Out, u32)> = vec![];
                        for t in &ts {
                            for j in 0..t.reps {
                                let o = go.get()(c, k, t);
                                let _o = off();
                                if j == 0 || o.1 == 0 && r.last().is_some_and(|p| p.1 > 0) {
                                    if j > 0 {
                                        r.pop();
                                    }
                                    r.push(o);
                                } else if o.1 == 0 {
                                    let f = r.last().unwrap();
                                    agree(&o.0, &f.0, || format!("client {} among others: main {} the {}. time", k, t.main, j + 1));
                                }
                            }
                        }
                        let _o = off();
                        conc.get()[k] = r;
                    })
                })
                .collect();
            run_clients(bodies);
        }
        outs[phase] = files();
        wd.fs.remove(&format!("{}/_out", pl.real));
    }
    let c = ctx();
    for k in 0..nc {
        let (alone, now) = (&outs[0][k], &outs[1][k]);
        if conc.get()[k].iter().all(|x| x.1 == 0) && now != alone {
            c.fail("written_file_differs", format!("client {} left {:?} when alone, but {:?} among others", k, alone.as_ref().map(|d| String::from_utf8_lossy(d).to_string()), now.as_ref().map(|d| String::from_utf8_lossy(d).to_string())));
        }
        for (j, t) in tasks[k].iter().enumerate() {
            let s = &solo.get()[k][j];
            let (o, h) = &conc.get()[k][j];
            if *h > 0 {
                wd.probe("render met a failure of its own");
                continue;
            }
            c.checks += 1;
            c.state.insert(hash_state(&[&t.main.to_string(), &s.res.is_ok().to_string(), &(s.hist.len().min(6)).to_string()]));
            if s.res.is_ok() && wd.switches > 2 {
                c.hit();
            }
            let d = if o.panic != s.panic { Some("outcome_differs") } else { differ(o, s, STATUS | TEXT | EXP | HIST) };
            if let Some(d) = d {
                c.fail(d, format!("client {} render {} of main {}: alone {}\n   but among others {}", k, j, t.main, s.show(), o.show()));
            }
        }
    }
}

// ------------------------------------------------------------------ C19
pub fn c19(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&[], &[], 1);
    let mut cfg = GCfg::base();
    cfg.host = [1, 5][wd.g.below(2)];
    cfg.absorb = 3;
    cfg.calls = wd.g.below(3);
    cfg.bad = [4, 20, 70][wd.g.below(3)];
    cfg.depth = 2;
    cfg.w = [2, 2, 3, 14, 1, 2, 1, 1, 2, 2, 12, 1, 1, 1, 0, 1];
    let mains = 1 + wd.g.below(2);
    let sc = scene(&cfg, mains, true);
    let hs0 = HS::gen(true);
    describe(&sc, &hs0);
    let n = wd.g.range(1, 3);
    let order: Vec<usize> = (0..n).map(|_| wd.g.below(mains)).collect();
    wd.desc.push(format!("front matter of {:?}", order));
    let mut want: Vec<(BTreeMap<String, V>, Vec<(String, Vec<V>)>, u64)> = vec![];
    {
        let mut hs = hs0.clone();
        for i in &order {
            let from = hs.hist.len();
            let (r, a) = {
                let mut m = M::new(&mut hs);
                let r = m.front(&sc.mains[*i].0);
                if m.unsup.is_some() {
                    wd.probe("left out: outside the model");
                    return;
                }
                (r, m.absorbed)
            };
            want.push((r, hs.hist[from..].to_vec(), a));
        }
    }
    let got: Sh<Vec<(Rec<std::collections::HashMap<String, TData>>, Vec<(String, Vec<V>)>)>> = Sh::new(vec![]);
    let scs = Sh::new(sc);
    let hs = Sh::new(hs0);
    run_clients(vec![Box::new(move |c| {
        let (mains, fm) = {
            let _o = off();
            match parse_all(scs.get()) {
                Err(e) => return ctx().fail("does_not_parse", e),
                Ok(p) => (p.1, real_funcs(hs)),
            }
        };
        for i in &order {
            let from = hs.get().hist.len();
            let r = run_lib(c, || Ok(inst::front_matter(&mains[*i], &fm)));
            let _o = off();
            got.get().push((r, hs.get().hist[from..].to_vec()));
        }
    })]);
    let c = ctx();
    for (j, ((r, h), (ex, wh, abs))) in got.get().iter().zip(&want).enumerate() {
        c.checks += 1;
        match &r.got {
            Got::Ok(m) => {
                let m: BTreeMap<String, V> = m.iter().map(|(k, v)| (k.clone(), from_td(v))).collect();
                if !same_ex(&m, ex) {
                    c.fail("exports_differ", format!("front matter {}: expected {{{}}}\n   but got {{{}}}", j, exshow(ex), exshow(&m)));
                }
                let s = exshow(&m);
                wd.ev(92, hash_str(&s), 0, || format!("front matter {}", s));
                if !ex.is_empty() {
                    c.hit();
                }
                if *abs > 0 {
                    wd.probe("export that cannot be evaluated");
                }
                c.state.insert(hash_state(&[&ex.keys().cloned().collect::<Vec<_>>().join(","), &abs.to_string(), &wh.len().to_string()]));
            }
            g => c.fail("front_matter_failed", g.show()),
        }
        if !same_hist(h, wh) {
            c.fail("calls_differ", format!("front matter {}: expected calls {:?}, got {:?}", j, wh, h));
        }
        if !r.effects().is_empty() {
            c.fail("effect", format!("front matter touched the outside: {:?}", r.effects()));
        }
    }
}

// ------------------------------------------------------------------ the engine in other properties
/// Templates, parsed, with all they need; nothing in them keeps state from one render to the next.
pub struct Eng {
    pub sc: Scene,
    pub nm: usize,
    pub tms: Vec<(String, TreeTemplate)>,
    pub mains: Vec<TreeTemplate>,
    pub hs: HS,
}
pub fn eng_gen(bad: usize) -> Option<Eng> {
    let wd = w();
    let mut cfg = GCfg::base();
    cfg.host = 5;
    cfg.absorb = 3;
    cfg.calls = 3;
    cfg.bad = bad;
    cfg.nodes = 24;
    cfg.w = [3, 8, 5, 3, 4, 4, 4, 4, 4, 2, 2, 3, 0, 1, 0, 3];
    let nm = 1 + wd.g.below(3);
    let mut sc = scene(&cfg, nm, false);
    for _ in 0..wd.g.below(4) {
        let pv: Vec<V> = (0..2).map(|_| gen_map(2)).chain([V::Str("x0y".into())]).collect();
        let ty = types_of(&pv);
        let t = if wd.g.chance(1, 2) {
            let (f, a) = Raw::any_fn();
            Raw::focus(ty, f, a)
        } else {
            Raw::template(ty)
        };
        sc.mains.push((Arc::new(Tm { pn: vec![], body: vec![] }), t));
        sc.text_params.push(pv.iter().map(gen_host_type).collect());
        sc.params.push(pv);
    }
    let mut hs = HS::gen(false);
    if wd.g.chance(1, 2) {
        hs.enabled = [true; 6];
    }
    describe(&sc, &hs);
    for i in 0..nm {
        if model_run(&sc, &hs, &[i]).is_err() {
            wd.probe("left out: too big");
            return None;
        }
    }
    let _o = off();
    match parse_all(&sc) {
        Err(e) => {
            ctx().fail("does_not_parse", e);
            None
        }
        Ok((tms, mains)) => Some(Eng { sc, nm, tms, mains, hs }),
    }
}
impl Eng {
    pub fn funcs(&self, hs: Sh<HS>) -> BasicFuncs {
        let _o = off();
        real_funcs(hs)
    }
    pub fn mgr(&self, sim: bool, hs: Sh<HS>) -> Mgr {
        let _o = off();
        if sim {
            Mgr::Sim(self.tms.iter().cloned().collect(), hs)
        } else {
            Mgr::Basic(self.tms.iter().cloned().collect())
        }
    }
    pub fn render(&self, c: &Client, i: usize, fm: &BasicFuncs, mgr: &mut Mgr, hs: Sh<HS>, with: &HS) -> Out {
        {
            let _o = off();
            *hs.get() = with.clone();
        }
        render_one(c, &self.mains[i], &self.sc.params[i], &self.sc.text_params[i], i, fm, mgr, hs).0
    }
    /// the functions that a template calls
    pub fn names(&self, i: usize) -> Vec<String> {
        let t = &self.sc.mains[i].1;
        let mut v = vec![];
        for (k, _) in t.match_indices(['(', '{']) {
            let n: String = t[k + 1..].chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
            if n.len() > 1 && !n.starts_with(|c: char| c.is_ascii_digit()) && n != "rand" {
                v.push(n);
            }
        }
        v
    }
}
pub fn out_differs(a: &Out, b: &Out) -> Option<&'static str> {
    if a.panic != b.panic {
        Some("outcome_differs")
    } else {
        differ(a, b, STATUS | TEXT | EXP | HIST)
    }
}
