//! Common parts of the workloads.
use crate::driver::*;
use crate::fs::*;
use crate::kernel::*;
use std::collections::BTreeMap;
use templito::func_man::*;
use templito::tparam::*;
use templito::*;

/// Unsynchronised sharing between client threads: only the holder of the baton runs.
pub struct Sh<T>(*mut T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0)
    }
}
impl<T> Copy for Sh<T> {}
impl<T> Sh<T> {
    pub fn new(t: T) -> Sh<T> {
        Sh(Box::into_raw(Box::new(t)))
    }
    pub fn get(&self) -> &'static mut T {
        unsafe { &mut *self.0 }
    }
}

pub enum Got<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T: std::fmt::Debug> Got<T> {
    pub fn show(&self) -> String {
        match self {
            Got::Ok(t) => short(&format!("Ok({:?})", t), 700),
            Got::Err(e) => short(&format!("Err({})", e), 300),
            Got::Panic(e) => format!("panic: {}", short(e, 300)),
        }
    }
}
impl<T> Got<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Got::Ok(_) => "ok",
            Got::Err(_) => "err",
            Got::Panic(_) => "panic",
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Got::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Got::Err(_))
    }
}
/// One library operation as seen by a client.
pub struct Rec<T> {
    pub got: Got<T>,
    pub b: u64,
    pub e: u64,
    pub op: u32,
    pub client: i32,
    pub end: OpEnd,
}
impl<T> Rec<T> {
    pub fn effects(&self) -> Vec<&'static Eff> {
        let (c, op) = (self.client, self.op);
        w().eff.iter().filter(|f| f.client == c && f.op == op).collect()
    }
    pub fn faults(&self) -> Vec<F> {
        w().cur_hard_log.iter().filter(|f| f.0 == self.client && f.1 == self.op).map(|f| f.2).collect()
    }
}
pub fn run_lib<T, Fu: FnOnce() -> anyhow::Result<T>>(c: &Client, f: Fu) -> Rec<T> {
    let op = c.begin();
    let b = w().seq;
    let np = w().panics.len();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _o = off();
    let got = match r {
        Ok(Ok(v)) => Got::Ok(v),
        Ok(Err(e)) => Got::Err(format!("{}", e)),
        Err(_) => Got::Panic(w().panics[np..].iter().filter(|p| p.0 == c.id as i32).map(|p| p.1.clone()).collect::<Vec<_>>().join("; ")),
    };
    let end = c.end();
    Rec { got, b, e: end.seq, op, client: c.id as i32, end }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Direct,
    Tmpl,
}
pub fn sd(s: &str) -> TData {
    TData::String(s.to_string())
}
/// Calls a registered function, directly or through a template.
pub fn call(fm: &BasicFuncs, via: Via, name: &str, args: &[TData]) -> anyhow::Result<TData> {
    match via {
        Via::Direct => {
            let v: Vec<TCow> = args.iter().map(|a| std::borrow::Cow::Borrowed(a)).collect();
            let f = match fm.get_func(name) {
                Some(f) => f,
                None => return Err(anyhow::anyhow!("no function {}", name)),
            };
            Ok(f(&v)?.into_owned())
        }
        Via::Tmpl => {
            let mut s = format!("{{{{return {}", name);
            for i in 0..args.len() {
                s.push_str(&format!(" ${}", i));
            }
            s.push_str("}}");
            let t: TreeTemplate = s.parse()?;
            let p: Vec<&dyn TParam> = args.iter().map(|a| a as &dyn TParam).collect();
            let mut tm = temp_man::NoTemplates;
            let (_, mut ex) = inst::run_exp(&t, &p, &mut tm, fm)?;
            ex.remove("return").ok_or_else(|| anyhow::anyhow!("no return value"))
        }
    }
}

// ------------------------------------------------------------------ where things are
/// A folder on the simulated machine and one way of naming it.
#[derive(Clone, Debug)]
pub struct Place {
    pub real: String, // canonical
    pub spell: String,
    pub cwd: String,
}
pub fn gen_place() -> Place {
    let wd = w();
    let real = wd.g.pick(&["/data", "/srv/site data/ü", "/d/e/f", "/work/site"]).to_string();
    let kind = wd.g.weighted(&[6, 2, 2, 2, 2, 2, 2]);
    let (spell, cwd) = match kind {
        0 => (real.clone(), "/work".to_string()),
        1 => (format!("{}/", real), "/".to_string()),
        2 => {
            // relative to the parent
            let i = real.rfind('/').unwrap();
            let par = if i == 0 { "/".to_string() } else { real[..i].to_string() };
            (real[i + 1..].to_string(), par)
        }
        3 => (".".to_string(), real.clone()),
        4 => ("".to_string(), real.clone()),
        5 => {
            let i = real.rfind('/').unwrap();
            let par = if i == 0 { "/".to_string() } else { real[..i].to_string() };
            let side = format!("{}/side", if par == "/" { "" } else { &par });
            (format!("../{}", &real[i + 1..]), side)
        }
        _ => {
            wd.fs.mkdirs(&real);
            wd.fs.link("/lnk", &real);
            ("/lnk".to_string(), "/work".to_string())
        }
    };
    wd.fs.mkdirs(&real);
    let c = wd.fs.mkdirs(&cwd);
    wd.fs.cwd = c;
    wd.desc.push(format!("locked folder {:?} (really {}), working directory {}", spell, real, cwd));
    Place { real, spell, cwd }
}
/// A second folder for another function set of the same process: the names in
/// it are those in the first, so that only the folder tells them apart.
pub fn gen_twin(pl: &Place) -> Place {
    let wd = w();
    let real = match wd.g.below(3) {
        0 => format!("{}2", pl.real),
        1 => "/twin".to_string(),
        _ => format!("/other{}", pl.real),
    };
    wd.fs.mkdirs(&real);
    let spell = match wd.g.below(3) {
        0 => {
            let up = pl.cwd.split('/').filter(|s| !s.is_empty()).count();
            format!("{}{}", "../".repeat(up), &real[1..])
        }
        1 => format!("{}/", real),
        _ => real.clone(),
    };
    wd.desc.push(format!("a second function set is locked to {:?} (really {})", spell, real));
    Place { real, spell, cwd: pl.cwd.clone() }
}
impl Place {
    /// a spelling of the file `rel` (relative to the folder) for locked functions
    pub fn locked_arg(&self, rel: &str) -> String {
        let wd = w();
        match wd.g.weighted(&[8, 1, 1, 1]) {
            1 => format!("./{}", rel),
            2 => rel.replace('/', "//"),
            3 if self.spell.starts_with('/') => format!("{}/{}", self.spell, rel),
            _ => rel.to_string(),
        }
    }
    /// for unlocked functions
    pub fn free_arg(&self, rel: &str) -> String {
        let wd = w();
        match wd.g.weighted(&[6, 3]) {
            1 => {
                let s = if self.spell.is_empty() { ".".to_string() } else { self.spell.clone() };
                format!("{}/{}", s, rel)
            }
            _ => format!("{}/{}", self.real, rel),
        }
    }
    pub fn arg(&self, locked: bool, rel: &str) -> String {
        if locked {
            self.locked_arg(rel)
        } else {
            self.free_arg(rel)
        }
    }
    pub fn funcs(&self, locked: bool) -> BasicFuncs {
        let b = BasicFuncs::new().with_defaults();
        if locked {
            b.with_folder_lock(&self.spell)
        } else {
            b.with_free_files()
        }
    }
}

// ------------------------------------------------------------------ file versions over time
#[derive(Default)]
pub struct Hist {
    pub init: BTreeMap<String, Option<Vec<u8>>>,
    pub changes: Vec<(u64, String, Option<Vec<u8>>)>,
    absorbed: usize,
}
impl Hist {
    /// remember the present content of every file
    pub fn start() -> Hist {
        let mut h = Hist::default();
        for (p, s) in w().fs.snapshot() {
            if let Snap::File(d) = s {
                h.init.insert(p, Some(d));
            }
        }
        h
    }
    pub fn note(&mut self, op: &FsOp) {
        let s = w().seq;
        self.note_at(s, op)
    }
    fn note_at(&mut self, s: u64, op: &FsOp) {
        match op {
            FsOp::Put(p, d) | FsOp::Overwrite(p, d) => self.changes.push((s, p.clone(), Some(d.clone()))),
            FsOp::Remove(p) => self.changes.push((s, p.clone(), None)),
            _ => {}
        }
    }
    pub fn absorb(&mut self) {
        let wd = w();
        for (s, op) in &wd.muts_done[self.absorbed..] {
            let op = op.clone();
            self.note_at(*s, &op);
        }
        self.absorbed = wd.muts_done.len();
    }
    /// every state the file had at some moment of [b, e]
    pub fn versions(&self, path: &str, b: u64, e: u64) -> Vec<Option<Vec<u8>>> {
        let mut cur: Option<Vec<u8>> = self.init.get(path).cloned().unwrap_or(None);
        let mut out = vec![];
        let mut ch: Vec<&(u64, String, Option<Vec<u8>>)> = self.changes.iter().filter(|c| c.1 == path).collect();
        ch.sort_by_key(|c| c.0);
        for c in &ch {
            if c.0 <= b {
                cur = c.2.clone();
            }
        }
        out.push(cur);
        for c in &ch {
            if c.0 > b && c.0 <= e {
                out.push(c.2.clone());
            }
        }
        out
    }
}

/// is `got` one concatenation of a version of each file?
pub fn concat_match(got: &[u8], cands: &[Vec<Vec<u8>>]) -> bool {
    let mut pos: Vec<usize> = vec![0];
    for c in cands {
        let mut next: Vec<usize> = vec![];
        for p in &pos {
            for v in c {
                if got[*p..].starts_with(v) && !next.contains(&(p + v.len())) {
                    next.push(p + v.len());
                }
            }
        }
        pos = next;
    }
    pos.contains(&got.len())
}

pub fn gen_bytes(len: usize, kind: usize, tag: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut k = 0usize;
    while v.len() < len {
        match kind {
            0 => v.extend(format!("{}{:06}\n", (b'a' + tag % 26) as char, k).bytes()),
            1 => v.extend("äß漢🎈".bytes().chain(format!("{}", k).bytes())),
            _ => v.extend([(k % 256) as u8, tag, 0, 255]),
        }
        k += 1;
    }
    if kind == 1 {
        // keep it valid UTF-8
        let mut n = len;
        while std::str::from_utf8(&v[..n]).is_err() {
            n -= 1;
        }
        v.truncate(n);
        while v.len() < len {
            v.push(b'x');
        }
    } else {
        v.truncate(len);
    }
    v
}
pub fn gen_size() -> usize {
    let wd = w();
    match wd.g.weighted(&[3, 4, 3, 2, 2, 2, 1]) {
        0 => wd.g.below(4),
        1 => wd.g.range(4, 70),
        2 => 31 + wd.g.below(4),
        3 => wd.g.range(100, 3000),
        4 => 8190 + wd.g.below(6),
        5 => wd.g.range(8000, 20000),
        _ => wd.g.range(20000, 70000),
    }
}
pub fn hash_state(parts: &[&str]) -> u64 {
    crate::tape::hash_str(&parts.join("|"))
}
pub fn no_panic<T>(r: &Rec<T>, what: &str) {
    if let Got::Panic(p) = &r.got {
        ctx().fail("panic", format!("{} panicked: {}", what, p));
    }
}
