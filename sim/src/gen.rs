//! Random templates (over the model's syntax tree), parameters and host behaviour.
use crate::kernel::*;
use crate::model::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Str,
    Num,
    Bool,
    List,
    Map,
    Tm(usize),
    Any,
}
impl Ty {
    fn fits(self, want: Ty) -> bool {
        match (self, want) {
            (Ty::Tm(_), Ty::Any) => false,
            (_, Ty::Any) => true,
            (Ty::Any, Ty::Tm(_)) => false,
            (Ty::Any, _) => false,
            (Ty::Tm(_), Ty::Tm(_)) => true,
            (a, b) => a == b,
        }
    }
}
/// how often each kind of thing is generated, per mille or as weights
#[derive(Clone, Debug)]
pub struct GCfg {
    pub nodes: i64,
    pub items: usize,
    pub depth: usize,
    pub bad: usize,      // per mille: an expression that fails on purpose
    pub host: usize,     // weight of host calls
    pub calls: usize,    // weight of template calls
    pub absorb: usize,   // weight of first / select / filter
    pub maps: usize,     // weight of whole maps shown, looped over, serialised
    pub uses: usize,     // of ten definitions this many are called right away
    pub probe: usize,    // weight of looking up names that may be out of scope
    pub w: [usize; 16],  // items: text exp let export if for switch as block atlet atexport define global return comment probe
}
impl GCfg {
    pub fn base() -> GCfg {
        GCfg {
            nodes: 60,
            items: 5,
            depth: 3,
            bad: 8,
            host: 3,
            calls: 2,
            absorb: 2,
            maps: 1,
            probe: 1,
            uses: 3,
            w: [6, 8, 5, 2, 5, 4, 4, 3, 4, 2, 2, 2, 1, 1, 1, 3],
        }
    }
}
pub const HOSTS: [&str; 6] = ["h0", "h1", "h2", "h3", "h4", "h5"];
fn host_ty(n: &str) -> Ty {
    match n {
        "h0" | "h1" => Ty::Str,
        "h2" => Ty::Num,
        "h3" => Ty::List,
        "h4" => Ty::Bool,
        _ => Ty::Any,
    }
}
const NAMES: [&str; 8] = ["a", "b", "x", "y", "item", "val", "z9", "w_w"];
const ODD: [&str; 14] = ["x_", "X", "k", "v", "i", "key", "this", "cat", "h0", "m0", "e0", "fa", "g0", "g1"];
const KEYS: [&str; 6] = ["a", "b", "kk", "zz", "name", "n1"];
const EXPORTS: [&str; 4] = ["e0", "e1", "title", "x"];

pub struct Gen {
    pub cfg: GCfg,
    pub vars: Vec<Vec<(String, Ty)>>,
    pub params: Vec<Ty>,
    pub pn: Vec<String>,
    pub tms: Vec<(String, usize)>,
    pub left: i64,
    pub pure: bool, // no host calls, no template calls, no variables (for filter tests)
    pub front: bool, // exports only count
    pub wide: bool,  // one thing with many parts is left to make
    pub inner: bool, // in the body of a template that can be called
    pub n: usize,
    pub ended: Vec<String>,
}
const SPACE: [&str; 6] = [" ", "\n", "\n  \n", "\t", "\r\n", "   "];
fn g() -> &'static mut crate::tape::Tape {
    &mut w().g
}
fn lit_str() -> V {
    if g().chance(1, 250) {
        let n = [g().range(100, 600), g().range(600, 5000)][g().below(2)];
        return V::Str("long é ".chars().cycle().take(n).collect());
    }
    let s = ["s", "", "A b", "q\"uo", "back\\s", "é漢", "<i>", "tab\tx", "nl\n2", "x", "{{", "$0", "a.b"];
    V::Str(s[g().below(s.len())].to_string())
}
fn lit_num() -> V {
    match g().weighted(&[6, 3, 2]) {
        0 => V::UInt(g().below(5) as u64),
        1 => V::Int(-(1 + g().below(4) as i64)),
        _ => V::Float([0.5, 2.25, 1.5][g().below(3)]),
    }
}
/// a value a host can hold
pub fn gen_value(d: usize) -> V {
    match g().weighted(&[4, 3, 2, if d > 0 { 3 } else { 0 }, if d > 0 { 3 } else { 0 }, 1, 1]) {
        0 => lit_str(),
        1 => lit_num(),
        2 => V::Bool(g().chance(1, 2)),
        3 => V::List((0..g().below(4)).map(|_| gen_value(d - 1)).collect()),
        4 => gen_map(d),
        5 => V::Null,
        _ => V::UInt([7, 1000, 4294967296][g().below(3)]),
    }
}
pub fn gen_map(d: usize) -> V {
    let mut m = BTreeMap::new();
    for _ in 0..g().below(5) {
        m.insert(KEYS[g().below(KEYS.len())].to_string(), gen_value(d.saturating_sub(1)));
    }
    V::Map(m)
}
fn ty_of(v: &V) -> Ty {
    match v {
        V::Str(_) => Ty::Str,
        V::Bool(_) => Ty::Bool,
        V::Int(_) | V::UInt(_) | V::Float(_) => Ty::Num,
        V::List(_) => Ty::List,
        V::Map(_) => Ty::Map,
        _ => Ty::Any,
    }
}
pub fn gen_params() -> (Vec<V>, Vec<Ty>) {
    let n = g().weighted(&[2, 3, 3, 2]);
    let v: Vec<V> = (0..n)
        .map(|_| match g().weighted(&[2, 1, 2, 3]) {
            0 => lit_str(),
            1 => lit_num(),
            2 => V::List((0..g().below(4)).map(|_| gen_value(1)).collect()),
            _ => gen_map(2),
        })
        .collect();
    let t = v.iter().map(ty_of).collect();
    (v, t)
}

fn any_in(v: &V, f: &dyn Fn(&V) -> bool) -> bool {
    f(v) || match v {
        V::List(l) => l.iter().any(|x| any_in(x, f)),
        V::Map(m) => m.values().any(|x| any_in(x, f)),
        _ => false,
    }
}
/// 0 the library's own value, 1 String / usize / f64 / bool, 2 JSON, 3 TOML, 4 pair, 5 Vec<&str>, 6 HashMap, 7 HashMap with &str keys, 8 one key
pub fn gen_host_type(v: &V) -> u8 {
    match v {
        V::Str(_) | V::UInt(_) | V::Float(_) | V::Bool(_) => [0, 1, 2][g().weighted(&[4, 4, 1])],
        V::List(l) => match g().weighted(&[4, 1, 1, 2]) {
            1 => 2,
            2 if !any_in(v, &|x| matches!(x, V::Null)) => 3,
            3 if l.iter().all(|x| matches!(x, V::Str(_))) => 5,
            _ => 0,
        },
        V::Map(m) => match g().weighted(&[5, 1, 1, 1, 3, 2, 1]) {
            1 => 2,
            2 if !any_in(v, &|x| matches!(x, V::Null)) => 3,
            3 => 4,
            4 => 6,
            5 => 7,
            6 if m.len() == 1 => 8,
            _ => 0,
        },
        _ => 0,
    }
}
/// the two halves of a pair parameter
pub fn halves(m: &BTreeMap<String, V>) -> (V, V) {
    let n = (m.len() + 1) / 2;
    (V::Map(m.iter().take(n).map(|(k, v)| (k.clone(), v.clone())).collect()), V::Map(m.iter().skip(n.saturating_sub(1)).map(|(k, v)| (k.clone(), v.clone())).collect()))
}

impl Gen {
    pub fn new(cfg: GCfg) -> Gen {
        let left = cfg.nodes;
        Gen { cfg, vars: vec![vec![]], params: vec![], pn: vec![], tms: vec![], left, pure: false, front: false, inner: false, wide: false, n: 0, ended: vec![] }
    }
    /// the body of one template
    pub fn template(&mut self, params: Vec<Ty>, pn: Vec<String>) -> Tm {
        self.vars = vec![vec![]];
        self.params = params;
        self.pn = pn.clone();
        self.left = self.cfg.nodes;
        self.ended.clear();
        self.wide = g().chance(1, 12);
        let n = g().range(1, self.cfg.items + 2);
        let mut body = vec![];
        if g().chance(1, 40) {
            // many variables
            let k = g().range(9, 70);
            for i in 0..k {
                let n = format!("v{}", i);
                self.bind(&n, Ty::Num);
                body.push(It::Let(vec![(n, E::Lit(V::UInt(i as u64)))]));
            }
        }
        body.extend(self.items(n, self.cfg.depth));
        if g().chance(1, 12) {
            let i = g().below(body.len() + 1);
            let rest = body.split_off(i);
            body.extend(self.tall(rest));
        }
        Tm { pn, body }
    }
    /// deep inside many blocks
    fn tall(&mut self, mut b: Vec<It>) -> Vec<It> {
        let k = [g().range(2, 9), g().range(9, 20), g().range(20, 70)][g().weighted(&[3, 3, 2])];
        let only = if g().chance(1, 2) { Some(g().below(8)) } else { None };
        for i in 0..k {
            if g().chance(1, 3) {
                // a name for this block and what follows in it
                let n = self.name();
                let l = match g().below(3) {
                    0 => It::Let(vec![(n, E::Lit(V::UInt(i as u64)))]),
                    1 => It::Let(vec![(n, E::Lit(V::Str(format!("level {}", i))))]),
                    _ => It::AtLet(n, vec![It::Text(format!("l{}", i))]),
                };
                b.insert(0, l);
            }
            if g().chance(1, 3) {
                let n = self.name();
                b.push(It::Exp(E::Cmd("first".into(), vec![E::Var(vec![P::I(n)]), E::Lit(V::Str("~".into()))])));
            }
            let t = E::Lit(V::Bool(true));
            b = match only.unwrap_or_else(|| g().below(9)) {
                0 => vec![It::If(t, b, None, false)],
                1 => vec![It::If(E::Lit(V::Bool(false)), vec![It::Text("no".into())], Some(b), false)],
                2 => {
                    let (k, v) = (self.name(), self.name());
                    vec![It::For(k, v, E::List(vec![E::Lit(V::UInt(i as u64))]), b)]
                }
                3 => vec![It::Switch(t, vec![(vec![Pat::Any], b)])],
                4 => vec![It::As(t, Pat::Any, b)],
                5 => vec![It::Block("cat".into(), vec![], b)],
                6 => {
                    let n = self.name();
                    vec![It::As(E::Lit(V::UInt(i as u64)), Pat::Cap(n, None), b)]
                }
                7 => {
                    let n = self.name();
                    vec![It::AtLet(n.clone(), b), It::Exp(E::Var(vec![P::I(n)]))]
                }
                _ if !self.front => vec![It::Define("fa".into(), vec![], b), It::Exp(E::Cmd("run".into(), vec![E::Var(vec![P::I("fa".into())])]))],
                _ => vec![It::If(t, b, None, false)],
            };
        }
        b
    }
    /// deep inside many calls or lists
    fn tower(&mut self, mut e: E) -> E {
        let k = g().range(2, 40);
        let only = if g().chance(1, 2) { Some(g().below(4)) } else { None };
        for _ in 0..k {
            e = match only.unwrap_or_else(|| g().below(5)) {
                0 => E::Cmd("first".into(), vec![e, E::Lit(V::Str("~".into()))]),
                1 => E::Cmd("cat".into(), vec![e]),
                2 => E::List(vec![e]),
                3 => E::Map(vec![("a".into(), e)]),
                _ => E::Cmd("select".into(), vec![E::Lit(V::Bool(true)), e, E::Lit(V::UInt(0))]),
            };
        }
        e
    }
    fn sub<T>(&mut self, f: impl FnOnce(&mut Gen) -> T) -> T {
        self.vars.push(vec![]);
        let tms = self.tms.len();
        let r = f(self);
        let v = self.vars.pop().unwrap();
        if !g().chance(1, 10) {
            self.tms.truncate(tms);
        }
        for (n, _) in v {
            if !self.ended.contains(&n) {
                self.ended.push(n);
            }
        }
        r
    }
    fn bind(&mut self, n: &str, t: Ty) {
        self.vars.last_mut().unwrap().push((n.into(), t));
    }
    fn bind_root(&mut self, n: &str, t: Ty) {
        // only what is certainly carried out can be relied on later
        let k = if g().chance(1, 10) { 0 } else { self.vars.len() - 1 };
        self.vars[k].push((n.into(), t));
    }
    fn name(&mut self) -> String {
        if g().chance(1, 25) {
            return ODD[g().below(ODD.len())].to_string();
        }
        NAMES[g().below(NAMES.len())].to_string()
    }
    fn block(&mut self, d: usize) -> Vec<It> {
        if g().chance(1, 20) {
            return vec![It::Text(SPACE[g().below(SPACE.len())].to_string())];
        }
        let n = 1 + g().below(self.cfg.items.max(1));
        self.sub(|s| s.items(n, d))
    }
    fn items(&mut self, n: usize, d: usize) -> Vec<It> {
        let mut r = vec![];
        for _ in 0..n {
            if self.left <= 0 {
                break;
            }
            self.left -= 1;
            let it = self.item(d);
            let call = match &it {
                It::Define(n, pn, _) => Some((E::Cmd("run".into(), vec![E::Var(vec![P::I(n.clone())])]), pn.len())),
                It::Global(n, pn, _) if !self.front => Some((E::Cmd(n.clone(), vec![]), pn.len())),
                _ => None,
            };
            r.push(it);
            if let Some((E::Cmd(n, mut a), k)) = call {
                if g().chance(self.cfg.uses, 10) {
                    let more = self.args(k, 1);
                    a.extend(more);
                    let e = E::Cmd(n, a);
                    if g().chance(1, 4) {
                        let n = self.name();
                        self.bind(&n, Ty::Any);
                        r.push(It::Let(vec![(n, e)]));
                    } else {
                        r.push(It::Exp(e));
                    }
                }
            }
        }
        r
    }
    fn text(&mut self) -> It {
        self.n += 1;
        if g().chance(1, 15) {
            return It::Text(SPACE[g().below(SPACE.len())].to_string());
        }
        if g().chance(1, 200) {
            let n = [g().range(100, 600), g().range(600, 5000)][g().below(2)];
            return It::Text("lang ß\n".chars().cycle().take(n).collect());
        }
        let t = ["t", "A{b", "x\\y", "é", "l1\nl2", "-", "}}", "<b>", "a } b", "#x#"];
        It::Text(format!("{}{}.", t[g().below(t.len())], self.n))
    }
    fn item(&mut self, d: usize) -> It {
        let mut wt = self.cfg.w;
        if d == 0 {
            for i in [4, 5, 6, 7, 8, 9, 10, 11, 12] {
                wt[i] = 0;
            }
        }
        match g().weighted(&wt) {
            0 => self.text(),
            1 if self.wide && g().chance(1, 2) => {
                self.wide = false;
                match g().below(4) {
                    0 => {
                        let e = self.any(1);
                        It::Exp(self.tower(e))
                    }
                    1 => {
                        let n = g().range(5, 40);
                        let f = ["cat", "list", "h0", "h3"][g().below(if self.pure || self.cfg.host == 0 { 2 } else { 4 })];
                        It::Exp(E::Cmd(f.into(), (0..n).map(|_| self.any(0)).collect()))
                    }
                    2 => {
                        // the last resort of many
                        let n = g().range(3, 30);
                        let mut a: Vec<E> = (0..n).map(|_| if self.cfg.bad > 0 && g().chance(1, 2) { self.failing(0) } else { E::Lit(V::Null) }).collect();
                        a.push(self.any(0));
                        It::Exp(E::Cmd("first".into(), a))
                    }
                    _ => {
                        let n = g().range(5, 40);
                        let e = E::Lit(V::UInt(g().below(n + 2) as u64));
                        let mut cs: Vec<(Vec<Pat>, Vec<It>)> = (0..n).map(|i| (vec![Pat::Val(V::UInt(i as u64))], vec![It::Text(format!("case {}", i))])).collect();
                        if g().chance(1, 2) {
                            cs.push((vec![Pat::Any], vec![It::Text("none".into())]));
                        }
                        It::Switch(e, cs)
                    }
                }
            }
            1 => {
                let e = self.any(2);
                It::Exp(e)
            }
            2 => {
                let k = 1 + g().weighted(&[5, 2, 1]);
                let mut v = vec![];
                for _ in 0..k {
                    let (e, t) = self.typed(2);
                    let n = self.name();
                    self.bind(&n, t);
                    v.push((n, e));
                }
                It::Let(v)
            }
            3 => {
                let k = 1 + g().weighted(&[5, 2]);
                let mut v = vec![];
                for _ in 0..k {
                    let (e, t) = self.typed(2);
                    let n = EXPORTS[g().below(4)].to_string();
                    self.bind_root(&n, t);
                    v.push((n, e));
                }
                It::Export(v)
            }
            4 => {
                let c = match g().weighted(&[6, 5, 1]) {
                    0 => self.bool_(2),
                    1 => self.cond(2),
                    _ => self.var(Ty::Tm(0)).unwrap_or(E::Lit(V::Null)), // neither true nor false
                };
                let y = self.block(d - 1);
                let n = if g().chance(1, 2) {
                    if g().chance(1, 3) {
                        let c = self.cond(2);
                        let y = self.block(d - 1);
                        let n = if g().chance(1, 2) { Some(self.block(d - 1)) } else { None };
                        Some(vec![It::If(c, y, n, false)])
                    } else {
                        Some(self.block(d - 1))
                    }
                } else {
                    None
                };
                let elif = matches!(n.as_deref(), Some([It::If(..)])) && g().chance(3, 4);
                It::If(c, y, n, elif)
            }
            5 if self.wide && g().chance(1, 2) => {
                // many rounds
                self.wide = false;
                let n = [g().range(9, 40), g().range(40, 200)][g().below(2)];
                let e = if g().chance(1, 2) { E::Lit(V::UInt(n as u64)) } else { E::List((0..n).map(|i| E::Lit(V::UInt(i as u64 % 7))).collect()) };
                let (k, v) = (self.name(), self.name());
                self.bind(&k, Ty::Any);
                self.bind(&v, Ty::Num);
                let calls = std::mem::replace(&mut self.cfg.calls, 0);
                let host = if n > 60 { std::mem::replace(&mut self.cfg.host, 0) } else { self.cfg.host };
                let b = self.block(0);
                self.cfg.calls = calls;
                self.cfg.host = host;
                It::For(k, v, e, b)
            }
            5 => {
                let (e, vt) = match g().weighted(&[5, 2 + self.cfg.maps, 2, 1]) {
                    0 => (self.list(1), Ty::Any),
                    1 => (self.map(1), Ty::Any),
                    3 => (self.pos_int(), Ty::Num),
                    _ => (E::Lit(V::UInt(g().below(4) as u64)), Ty::Num),
                };
                let (k, v) = (self.name(), self.name());
                self.bind(&k, Ty::Any);
                self.bind(&v, vt);
                let b = self.block(d - 1);
                It::For(k, v, e, b)
            }
            6 => {
                let (e, t) = self.typed(2);
                let n = 1 + g().below(3);
                let mut cs = vec![];
                for _ in 0..n {
                    let np = 1 + g().weighted(&[4, 2, 1]);
                    let (ps, b) = self.sub(|s| {
                        let ps: Vec<Pat> = (0..np).map(|_| s.pat(t, 2)).collect();
                        let b = s.block(d - 1);
                        (ps, b)
                    });
                    cs.push((ps, b));
                }
                if g().chance(1, 3) {
                    let b = self.block(d - 1);
                    cs.push((vec![Pat::Any], b));
                }
                It::Switch(e, cs)
            }
            7 => {
                let (e, t) = self.typed(1);
                let (p, b) = self.sub(|s| {
                    let p = s.pat(t, 2);
                    let b = s.block(d - 1);
                    (p, b)
                });
                It::As(e, p, b)
            }
            8 => {
                let b = self.block(d - 1);
                let c = self.callee();
                let mut ps = vec![];
                if g().chance(2, 3) {
                    self.bind("@", Ty::Str);
                    let k = 1 + g().below(2);
                    for _ in 0..k {
                        ps.push(if g().chance(1, 2) { E::Var(vec![P::I("@".into())]) } else { self.any(1) });
                    }
                }
                It::Block(c, ps, b)
            }
            9 => {
                let b = self.block(d - 1);
                let n = self.name();
                self.bind(&n, Ty::Str);
                It::AtLet(n, b)
            }
            10 => {
                let b = self.block(d - 1);
                let n = EXPORTS[g().below(4)].to_string();
                self.bind_root(&n, Ty::Str);
                It::AtExport(n, b)
            }
            12 if self.front => self.text(),
            11 if self.front && g().chance(1, 2) => self.text(),
            11 => {
                let (pn, b) = self.tm_body(d - 1);
                let n = ["fa", "fb", "x", "m0", "g0"][g().weighted(&[4, 4, 3, 1, 1])].to_string();
                self.bind(&n, Ty::Tm(pn.len()));
                It::Define(n, pn, b)
            }
            12 => {
                let (pn, b) = self.tm_body(d - 1);
                // sometimes named like a variable
                let n = ["g0", "g1", "m0", "y", "b", "item"][g().weighted(&[4, 4, 4, 1, 1, 1])].to_string();
                self.tms.push((n.clone(), pn.len()));
                It::Global(n, pn, b)
            }
            13 => {
                let (e, _) = self.typed(2);
                It::Return(e)
            }
            15 if !self.front && g().chance(1, 5) => {
                // does a name that was never made callable answer to a call?
                // (only names without a template behind them from within templates, lest they call themselves)
                let n = ["fa", "fb", "x", "e0", "g0", "g1", "m0", "m2"][g().below(if self.inner { 4 } else { 8 })].to_string();
                let na = g().below(2);
                let a = self.args(na, 1);
                It::Exp(E::Cmd("first".into(), vec![E::Cmd(n, a), E::Lit(V::Str("~".into()))]))
            }
            14 => It::Comment(["c", " x ", "{ }", "h0 1"][g().below(4)].to_string()),
            _ => {
                // is a name visible here?  (never fails)
                let n = if !self.ended.is_empty() && g().chance(3, 4) { self.ended[g().below(self.ended.len())].clone() } else { self.name() };
                It::Exp(E::Cmd("first".into(), vec![E::Var(vec![P::I(n)]), E::Lit(V::Str("~".into()))]))
            }
        }
    }
    fn tm_body(&mut self, d: usize) -> (Vec<String>, Vec<It>) {
        let k = g().below(3);
        let mut pn: Vec<String> = vec![];
        for _ in 0..k {
            let n = self.name();
            if !pn.contains(&n) || g().chance(1, 8) {
                pn.push(n);
            }
        }
        // its own scope: parameters only; names of the caller are looked up only by mistake
        let outer: Vec<String> = self.vars.iter().flatten().map(|v| v.0.clone()).collect();
        let vars = std::mem::replace(&mut self.vars, vec![vec![]]);
        let params = std::mem::replace(&mut self.params, vec![Ty::Any; pn.len()]);
        let pns = std::mem::replace(&mut self.pn, pn.clone());
        let ended = std::mem::replace(&mut self.ended, outer);
        let inner = std::mem::replace(&mut self.inner, true);
        let n = 1 + g().below(self.cfg.items.max(1));
        let b = self.items(n, d);
        self.vars = vars;
        self.params = params;
        self.pn = pns;
        self.ended = ended;
        self.inner = inner;
        (pn, b)
    }
    fn callee(&mut self) -> String {
        match g().weighted(&[2, 1 + self.cfg.host, if self.tms.is_empty() { 0 } else { self.cfg.calls }]) {
            0 => ["cat", "list", "len", "type_of"][g().below(4)].to_string(),
            1 if !self.front || g().chance(3, 4) => HOSTS[g().below(2)].to_string(),
            2 => self.tms[g().below(self.tms.len())].0.clone(),
            _ => "cat".into(),
        }
    }
    fn args(&mut self, n: usize, d: usize) -> Vec<E> {
        let mut v: Vec<E> = vec![];
        for _ in 0..n {
            let e = match v.last() {
                // the very same once more
                Some(l) if g().chance(1, 10) => l.clone(),
                _ => self.any(d.saturating_sub(1)),
            };
            v.push(e);
        }
        v
    }
    fn var(&mut self, t: Ty) -> Option<E> {
        let mut c: Vec<Vec<P>> = vec![];
        for m in self.vars.iter() {
            for (n, vt) in m {
                if vt.fits(t) {
                    c.push(vec![P::I(n.clone())]);
                }
            }
        }
        for (i, pt) in self.params.iter().enumerate() {
            if pt.fits(t) {
                c.push(vec![P::N(i)]);
                if let Some(n) = self.pn.get(i) {
                    c.push(vec![P::I(n.clone())]);
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let k = g().below(c.len());
        Some(E::Var(c.swap_remove(k)))
    }
    /// part of something; mostly with an alternative if there is no such part
    fn field(&mut self) -> E {
        let t = [Ty::Map, Ty::Map, Ty::List, Ty::Any][g().below(4)];
        let e = match self.var(t) {
            Some(E::Var(mut v)) if !matches!(&v[0], P::I(n) if n == "@") => {
                for _ in 0..1 + g().weighted(&[4, 1]) {
                    let k = if (t == Ty::List) != g().chance(1, 10) { P::N(g().below(3)) } else { P::I(KEYS[g().below(KEYS.len())].into()) };
                    v.push(k);
                }
                E::Var(v)
            }
            _ => E::Var(vec![P::N(0), P::I(KEYS[g().below(KEYS.len())].into())]),
        };
        if g().chance(9, 10) {
            E::Cmd("first".into(), vec![e, E::Lit(V::Str("~".into()))])
        } else {
            e
        }
    }
    fn typed(&mut self, d: usize) -> (E, Ty) {
        match g().weighted(&[4, 3, 3, 2 + self.cfg.maps, 1, if d > 0 { self.cfg.host } else { 0 }]) {
            0 => (self.str_(d), Ty::Str),
            1 => (self.num(d), Ty::Num),
            2 => (self.list(d), Ty::List),
            3 => (self.map(d), Ty::Map),
            4 => (self.bool_(d), Ty::Bool),
            _ => {
                let h = HOSTS[g().below(6)];
                let n = g().below(3);
                (E::Cmd(h.into(), self.args(n, d)), host_ty(h))
            }
        }
    }
    /// an expression that always fails
    fn failing(&mut self, d: usize) -> E {
        match g().weighted(&[3, 2, 2, 2, 1, 1, 1]) {
            0 => E::Var(vec![P::I("nope".into())]),
            1 => E::Cmd("not_a_func".into(), self.args(1, d)),
            2 => E::Cmd("add".into(), vec![E::Lit(V::UInt(1)), E::Lit(V::Str("s".into()))]),
            3 => E::Var(vec![P::N(9)]),
            4 => E::Cmd("select".into(), vec![E::Lit(V::Bool(true))]),
            5 => {
                // what names a template is none
                let mut a = vec![match self.tms.last() {
                    Some((n, _)) if g().chance(2, 3) => E::Lit(V::Str(n.clone())),
                    _ => E::Lit(V::UInt(1)),
                }];
                let n = g().below(3);
                a.extend(self.args(n, d));
                E::Cmd("run".into(), a)
            }
            _ => E::Cmd("select".into(), vec![E::Lit(V::UInt(g().range(2, 6) as u64)), E::Lit(V::UInt(1)), E::Lit(V::UInt(2))]),
        }
    }
    fn any(&mut self, d: usize) -> E {
        if self.cfg.bad > 0 && g().permille(self.cfg.bad) {
            return self.failing(d);
        }
        let c = &self.cfg;
        let wt = [
            5,
            2,
            if d > 0 { 1 } else { 0 },
            if d > 0 { 1 + c.maps } else { 0 },
            1,
            if d > 0 && !self.pure { c.host } else { 0 },
            if d > 0 && !self.pure { c.calls } else { 0 },
            if d > 0 { c.absorb } else { 0 },
            3,
            c.probe,
        ];
        match g().weighted(&wt) {
            0 => self.str_(d),
            1 => self.num(d),
            2 => self.list(d),
            3 => self.map(d),
            4 => self.bool_(d),
            5 => {
                let h = HOSTS[g().below(6)];
                let n = g().below(4);
                E::Cmd(h.into(), self.args(n, d))
            }
            6 => self.call(d),
            7 => self.absorb(d),
            8 if d > 0 && g().chance(1, 3) => self.field(),
            8 => self.var(Ty::Any).unwrap_or_else(|| E::Lit(lit_str())),
            _ => {
                let n = if !self.ended.is_empty() && g().chance(1, 2) { self.ended[g().below(self.ended.len())].clone() } else { self.name() };
                E::Cmd("first".into(), vec![E::Var(vec![P::I(n)]), E::Lit(V::Str("~".into()))])
            }
        }
    }
    fn call(&mut self, d: usize) -> E {
        let tv = self.var(Ty::Tm(0));
        let by_name = !self.tms.is_empty() && (tv.is_none() || g().chance(1, 2));
        if by_name {
            let k = g().below(self.tms.len());
            let (n, a) = self.tms[k].clone();
            let na = if g().chance(1, 6) { g().below(4) } else { a };
            return E::Cmd(n, self.args(na, d));
        }
        match tv {
            Some(t) => {
                let arity = self.vars.iter().flatten().rev().find_map(|(n, ty)| match (ty, &t) {
                    (Ty::Tm(k), E::Var(p)) if matches!(&p[0], P::I(m) if m == n) => Some(*k),
                    _ => None,
                });
                let na = if g().chance(1, 6) { g().below(4) } else { arity.unwrap_or(0) };
                let mut a = vec![t];
                a.extend(self.args(na, d));
                E::Cmd("run".into(), a)
            }
            None => self.str_(d),
        }
    }
    fn absorb(&mut self, d: usize) -> E {
        match g().weighted(&[4, 3, 2]) {
            0 => {
                let n = 1 + g().below(4);
                let mut a = vec![];
                for _ in 0..n {
                    a.push(match g().weighted(&[3, 2, 1]) {
                        0 => self.any(d - 1),
                        1 if self.cfg.bad > 0 => self.failing(d - 1),
                        _ => E::Lit(V::Null),
                    });
                }
                E::Cmd("first".into(), a)
            }
            1 => {
                let c = if g().chance(1, 2) { self.cond(d - 1) } else { E::Lit(V::UInt(g().below(3) as u64)) };
                let n = g().range(2, 4);
                let mut a = vec![c];
                a.extend(self.args(n, d));
                E::Cmd("select".into(), a)
            }
            _ => {
                let l = self.list(d - 1);
                let t = match g().below(7) {
                    5 => E::Var(vec![P::N(0)]),
                    6 => E::Lit(match g().below(3) {
                        0 => V::UInt(1),
                        1 => V::Str("true".into()),
                        _ => V::Bool(true),
                    }),
                    0 => E::Cmd("gt".into(), vec![E::Var(vec![P::N(0)]), E::Lit(V::UInt(1))]),
                    1 => E::Cmd("is_num".into(), vec![E::Var(vec![P::N(0)])]),
                    2 => E::Cmd("gt".into(), vec![E::Cmd("add".into(), vec![E::Var(vec![P::N(0)]), E::Lit(V::UInt(1))]), E::Lit(V::UInt(2))]),
                    3 => E::Cmd("eq".into(), vec![E::Cmd("type_of".into(), vec![E::Var(vec![P::N(0)])]), E::Lit(V::Str("string".into()))]),
                    _ => E::Var(vec![P::N(0), P::I("a".into())]),
                };
                E::Filter(Box::new(l), Box::new(t))
            }
        }
    }
    fn str_(&mut self, d: usize) -> E {
        let wt = [4, 4, if d > 0 { 3 } else { 0 }, if d > 0 && !self.pure { self.cfg.host } else { 0 }, if d > 0 { 1 } else { 0 }, if d > 0 { self.cfg.maps } else { 0 }];
        match g().weighted(&wt) {
            0 => E::Lit(lit_str()),
            1 => self.var(Ty::Str).unwrap_or_else(|| E::Lit(lit_str())),
            2 => {
                let n = g().below(4);
                E::Cmd("cat".into(), self.args(n, d))
            }
            3 => {
                let n = g().below(3);
                let h = HOSTS[g().below(2)];
                E::Cmd(h.into(), self.args(n, d))
            }
            4 => E::Cmd("join_with".into(), vec![E::Lit(V::Str("-".into())), self.list(d - 1)]),
            _ => {
                let a = if g().chance(2, 3) { self.map(d - 1) } else { self.any(d - 1) };
                E::Cmd("w_json".into(), vec![a])
            }
        }
    }
    fn num(&mut self, d: usize) -> E {
        match g().weighted(&[4, 3, if d > 0 { 3 } else { 0 }, if d > 0 { 1 } else { 0 }, if d > 0 && !self.pure { 1 } else { 0 }]) {
            0 => E::Lit(lit_num()),
            1 => self.var(Ty::Num).unwrap_or_else(|| E::Lit(lit_num())),
            2 => {
                let n = 1 + g().below(3);
                let f = ["add", "mul", "min", "max"][g().below(4)];
                E::Cmd(f.into(), (0..n).map(|_| self.num(d - 1)).collect())
            }
            3 => E::Cmd("len".into(), vec![self.list(d - 1)]),
            _ => E::Cmd("h2".into(), self.args(1, d)),
        }
    }
    fn bool_(&mut self, d: usize) -> E {
        if self.cfg.bad > 0 && g().permille(self.cfg.bad) {
            return self.failing(d);
        }
        match g().weighted(&[3, if d > 0 { 3 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 && !self.pure { self.cfg.host } else { 0 }, 1]) {
            0 => E::Lit(V::Bool(g().chance(1, 2))),
            1 => {
                let f = ["eq", "gt", "lt", "neq"][g().below(4)];
                E::Cmd(f.into(), vec![self.num(d - 1), self.num(d - 1)])
            }
            2 => {
                let f = ["and", "or", "nor"][g().below(3)];
                E::Cmd(f.into(), vec![self.any(d - 1), self.any(d - 1)])
            }
            3 => E::Cmd("h4".into(), self.args(1, d)),
            _ => self.var(Ty::Bool).unwrap_or(E::Lit(V::Bool(true))),
        }
    }
    /// an Int that is not negative: no literal is one
    fn pos_int(&mut self) -> E {
        let n = g().below(5);
        match g().below(2) {
            0 => E::Cmd("mul".into(), vec![E::Lit(V::Int(-1)), E::Lit(V::Int(-(n as i64)))]),
            _ => E::Cmd("sub".into(), vec![E::Lit(V::Int(-1)), E::Lit(V::Int(-1 - n as i64))]),
        }
    }
    /// what decides: of any type
    fn cond(&mut self, d: usize) -> E {
        match g().below(5) {
            0 | 1 => self.bool_(d),
            2 | 3 => self.any(d),
            _ => E::Lit(match g().below(8) {
                0 | 1 => V::Null,
                2 => V::Int(0),
                3 => V::Int(-1),
                4 => V::Float(0.5),
                5 => V::Str(String::new()),
                6 => V::Str("s".into()),
                _ => V::UInt(g().below(4) as u64),
            }),
        }
    }
    fn list(&mut self, d: usize) -> E {
        match g().weighted(&[4, 3, if d > 0 { 1 } else { 0 }, if d > 0 && !self.pure { self.cfg.host } else { 0 }, if d > 0 { self.cfg.absorb } else { 0 }]) {
            0 => {
                let n = g().below(4);
                let d = if g().chance(1, 2) { d.min(2) } else { d.min(1) };
                E::List(self.args(n, d))
            }
            1 => self.var(Ty::List).unwrap_or(E::List(vec![E::Lit(V::UInt(3)), E::Lit(V::Str("i".into()))])),
            2 => {
                let n = g().below(3);
                E::Cmd(["list", "append"][g().below(2)].into(), self.args(n, d))
            }
            3 => E::Cmd("h3".into(), self.args(1, d)),
            _ => {
                let l = self.list(d - 1);
                E::Filter(Box::new(l), Box::new(E::Cmd("is_num".into(), vec![E::Var(vec![P::N(0)])])))
            }
        }
    }
    fn map(&mut self, d: usize) -> E {
        match g().weighted(&[5, 4, if d > 0 { 1 } else { 0 }]) {
            0 => {
                let n = g().below(5);
                let mut v: Vec<(String, E)> = vec![];
                let calls = d > 0 && !self.pure && self.cfg.host > 0 && g().chance(1, 4);
                for _ in 0..n {
                    let k = KEYS[g().below(KEYS.len())].to_string();
                    if !v.iter().any(|x| x.0 == k) {
                        let e = if calls { E::Cmd(HOSTS[g().below(3)].into(), vec![]) } else { self.any(d.min(1).saturating_sub(1)) };
                        v.push((k, e));
                    }
                }
                E::Map(v)
            }
            1 => self.var(Ty::Map).unwrap_or(E::Map(vec![("a".into(), E::Lit(V::UInt(1)))])),
            _ => E::Cmd("map".into(), vec![E::Lit(V::Str("kk".into())), self.any(d - 1)]),
        }
    }
    /// a pattern that has a fair chance for a value of this type
    fn pat(&mut self, t: Ty, d: usize) -> Pat {
        let k = g().weighted(&[2, 4, 3, 3, 2]);
        match k {
            0 => Pat::Any,
            1 => match t {
                Ty::Num => Pat::Val(V::UInt(g().below(4) as u64)),
                Ty::Bool => Pat::Val(V::Bool(g().chance(1, 2))),
                Ty::List if d > 0 => {
                    let n = g().below(3);
                    Pat::List((0..n).map(|_| self.pat(Ty::Any, d - 1)).collect())
                }
                Ty::Map if d > 0 => {
                    let n = 1 + g().below(2);
                    let mut v: Vec<(String, Option<Pat>)> = vec![];
                    for _ in 0..n {
                        let k = KEYS[g().below(KEYS.len())].to_string();
                        if v.iter().any(|x| x.0 == k) {
                            continue;
                        }
                        if g().chance(1, 2) {
                            self.bind(&k, Ty::Any);
                            v.push((k, None));
                        } else {
                            let p = self.pat(Ty::Any, d - 1);
                            v.push((k, Some(p)));
                        }
                    }
                    Pat::Map(v)
                }
                Ty::Any if d > 0 => {
                    let t = [Ty::Num, Ty::Str, Ty::List, Ty::Map][g().below(4)];
                    self.pat(t, d - 1)
                }
                _ => Pat::Val(lit_str()),
            },
            2 => {
                let n = self.name();
                self.bind(&n, t);
                Pat::Cap(n, None)
            }
            3 => {
                let n = self.name();
                let p = if d > 0 { self.pat(t, d - 1) } else { Pat::Any };
                self.bind(&n, t);
                Pat::Cap(n, Some(Box::new(p)))
            }
            _ => {
                let at = E::Var(vec![P::I("@".into())]);
                let e = match g().weighted(&[3, 2, 2, if self.cfg.bad > 0 { 1 } else { 0 }, 2]) {
                    4 => match g().below(4) {
                        0 => at,
                        1 => E::Lit(lit_num()),
                        2 => E::Lit(V::Str(["true", "x", ""][g().below(3)].into())),
                        _ => E::Lit(V::Null),
                    },
                    0 => E::Cmd("eq".into(), vec![E::Cmd("type_of".into(), vec![at]), E::Lit(V::Str(["string", "uint", "list", "map"][g().below(4)].into()))]),
                    1 => E::Cmd("gt".into(), vec![at, E::Lit(V::UInt(1))]),
                    2 => E::Cmd("h4".into(), vec![at]),
                    _ => self.failing(0),
                };
                Pat::Test(e)
            }
        }
    }
}

// ------------------------------------------------------------------ whole scenarios
#[derive(Clone)]
pub struct Scene {
    pub tms: Vec<(String, Arc<Tm>, String)>, // templates of the manager: name, tree, text
    pub mains: Vec<(Arc<Tm>, String)>,
    pub params: Vec<Vec<V>>,
    pub text_params: Vec<Vec<u8>>, // as what type of the host language it is passed
}
pub fn scene(cfg: &GCfg, mains: usize, front: bool) -> Scene {
    let wd = w();
    let mut tms: Vec<(String, Arc<Tm>, String)> = vec![];
    let nt = if cfg.calls == 0 { 0 } else { wd.g.weighted(&[2, 2, 2, 1]) };
    let mut known: Vec<(String, usize)> = vec![];
    for i in 0..nt {
        // m0..: a host function may have the same name as a template
        let name = if g().chance(1, 12) { HOSTS[g().below(6)].to_string() } else { format!("m{}", i) };
        let mut c = cfg.clone();
        c.nodes = cfg.nodes / 3;
        c.items = cfg.items.min(3);
        let mut gn = Gen::new(c);
        gn.tms = known.clone();
        gn.inner = true;
        let np = g().below(3);
        let mut pn = vec![];
        for j in 0..np {
            pn.push(["p", "x", "a"][(j + g().below(2)) % 3].to_string());
        }
        if !g().chance(1, 6) {
            pn.dedup();
        }
        let named = g().chance(2, 3);
        let t = gn.template(vec![Ty::Any; np], if named { pn.clone() } else { vec![] });
        let style = g().u64();
        let text = Printer::print(&t.body, if g().chance(1, 2) { 0 } else { style | 1 });
        known.push((name.clone(), np));
        tms.push((name, Arc::new(t), text));
    }
    let mut out = Scene { tms, mains: vec![], params: vec![], text_params: vec![] };
    for _ in 0..mains {
        let (pv, pt) = gen_params();
        let mut gn = Gen::new(cfg.clone());
        gn.front = front;
        gn.tms = known.clone();
        let pn = if g().chance(1, 5) { {
            let same = g().chance(1, 12);
            pt.iter().enumerate().map(|(i, _)| ["p", if same { "p" } else { "q" }, "x"][i % 3].to_string()).collect()
        } } else { vec![] };
        let t = gn.template(if front && g().chance(2, 3) { vec![] } else { pt }, pn);
        let style = g().u64();
        let text = Printer::print(&t.body, if g().chance(1, 3) { 0 } else { style | 1 });
        out.mains.push((Arc::new(t), text));
        let tp: Vec<u8> = pv.iter().map(gen_host_type).collect();
        out.params.push(pv);
        out.text_params.push(tp);
    }
    out
}
