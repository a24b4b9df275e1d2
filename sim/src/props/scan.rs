//! Front matter of scanned files (C05).
use super::engine::{from_td, same_ex, HS};
use super::files::*;
use super::util::*;
use crate::driver::*;
use crate::fs::Snap;
use crate::gen::*;
use crate::kernel::*;
use crate::model::{M, V};
use std::collections::{BTreeMap, VecDeque};
use templito::*;

type Fm = BTreeMap<String, V>;
/// Content -> what it exports alone; None: not UTF-8 or does not parse (contributes nothing); Err: panics
#[derive(Default)]
struct Alone {
    m: BTreeMap<Vec<u8>, Option<Fm>>,
}
/// contents of which it is known, without asking the library, what they export
static mut KNOWN: BTreeMap<Vec<u8>, Fm> = BTreeMap::new();
#[allow(static_mut_refs)]
fn known() -> &'static mut BTreeMap<Vec<u8>, Fm> {
    unsafe { &mut KNOWN }
}
fn strs(l: &[(&str, String)]) -> Fm {
    l.iter().map(|(k, v)| (k.to_string(), V::Str(v.clone()))).collect()
}
impl Alone {
    fn of(&mut self, d: &[u8]) -> Option<Fm> {
        if let Some(r) = known().get(d) {
            return Some(r.clone());
        }
        if let Some(r) = self.m.get(d) {
            return r.clone();
        }
        let r = std::panic::catch_unwind(|| {
            let s = match std::str::from_utf8(d) {
                Ok(s) => s,
                Err(_) => return Fm::new(),
            };
            match s.parse::<TreeTemplate>() {
                Ok(t) => {
                    let fm = func_man::BasicFuncs::new().with_defaults();
                    inst::front_matter(&t, &fm).iter().map(|(k, v)| (k.clone(), from_td(v))).collect()
                }
                Err(_) => Fm::new(),
            }
        })
        .ok();
        self.m.insert(d.to_vec(), r.clone());
        r
    }
}
pub fn front_body(i: &mut u64) -> Vec<u8> {
    let wd = w();
    *i += 1;
    let n = *i;
    let mut want: Option<Fm> = None;
    let t = match wd.g.weighted(&[6, 6, 2, 2, 2, 2, 3, 1, 2, 3, 2]) {
        0 => {
            let k = wd.g.range(1, 4);
            want = Some((0..k).map(|j| (["title", "date", "n", "tags"][(n as usize + j) % 4].to_string(), V::Str(format!("v{}-{}", n, j)))).collect());
            (0..k).map(|j| format!("{{{{export {} = \"v{}-{}\"}}}}\n", ["title", "date", "n", "tags"][(n as usize + j) % 4], n, j)).collect::<String>() + "body text\n"
        }
        1 => {
            let mut cfg = GCfg::base();
            cfg.host = 0;
            cfg.calls = wd.g.below(2);
            cfg.bad = [4, 40][wd.g.below(2)];
            cfg.nodes = 14;
            cfg.depth = 2;
            cfg.w = [2, 2, 3, 14, 1, 1, 1, 1, 1, 1, 10, 1, 1, 1, 0, 1];
            let sc = scene(&cfg, 1, true);
            let mut hs = HS::gen(false);
            hs.enabled = [false; 6];
            let mut m = M::new(&mut hs);
            let f = m.front(&sc.mains[0].0);
            if m.unsup.is_none() {
                want = Some(f);
            }
            sc.mains[0].1.clone()
        }
        2 => wd.g.pick(&["{{", "{{export a = 1}}{{export}}", "{{export a = 1}}{{/if}}", "{{export a = 1}}{{if}}", "{{export a = \"x}}", "{{export a = 1}}{{else}}{{/if}}", "{{if true}}{{export a = 1}}"]).to_string(),
        3 => {
            let mut v = format!("{{{{export a = {}}}}}{{{{export title = \"bad\"}}}}", n).into_bytes();
            let k = [v.len(), 0, 17][wd.g.below(3)];
            v.insert(k, 0xff);
            return v;
        }
        4 => wd.g.pick(&["", "plain text é\n", "a { b } c", "\u{feff}{{export a = 1}}"]).to_string(),
        5 => format!("{{{{export secret = file \"/etc/passwd\"}}}}{{{{export ok = {}}}}}{{{{export x = exec \"hello\"}}}}{{{{export w = write \"x\" \"y\"}}}}{{{{export d = dir \"/\"}}}}{{{{export e = env \"HOME\" \"d\"}}}}", n),
        6 => {
            want = Some(strs(&[("shared", "none".into()), ("title", format!("t{}", n)), ("a", "no param".into())]));
            format!("{{{{export shared = first $shared $title $a \"none\"}}}}{{{{export title = \"t{}\"}}}}{{{{export a = first $0 \"no param\"}}}}", n)
        }
        7 => {
            want = Some(strs(&[("item_file", format!("over{}", n)), ("item_path", "elsewhere".into())]));
            format!("{{{{export item_file = \"over{}\"}}}}{{{{export item_path = \"elsewhere\"}}}}", n)
        }
        8 => {
            let k = gen_size();
            want = Some(["first", "last"].iter().map(|k| (k.to_string(), V::UInt(n))).collect());
            format!("{{{{export first = {}}}}}{}{{{{export last = {}}}}}", n, String::from_utf8(gen_bytes(k, 0, n as u8)).unwrap(), n)
        }
        9 => {
            let mut f = strs(&[("e", "no".into())]);
            f.insert("b".into(), V::UInt(n));
            f.insert("f".into(), V::UInt(n));
            want = Some(f);
            format!("{{{{export a = nosuch}}}}{{{{export b = {}}}}}{{{{@export c}}}}x{{{{export d = 1}}}}{{{{nosuch}}}}{{{{/export}}}}{{{{export e = first $d \"no\"}}}}{{{{export f = $b}}}}", n)
        }
        _ => format!("{{{{global g{}}}}}x{{{{/global}}}}{{{{export a = first (g{}) \"none\"}}}}{{{{export b = type_of [1]}}}}", n % 3, (n + 1) % 3),
    };
    let d = t.into_bytes();
    if let Some(f) = want {
        if std::str::from_utf8(&d).is_ok() {
            known().insert(d.clone(), f);
        }
    }
    d
}

/// front matter of exactly `k` bytes
fn same_size(k: usize, n: &mut u64) -> Option<Vec<u8>> {
    *n += 1;
    let mut d = format!("{{{{export title = \"same size {}\"}}}}", n).into_bytes();
    if d.len() > k {
        d = format!("{{{{export q = {}}}}}", n).into_bytes();
    }
    if d.len() > k {
        return None;
    }
    d.resize(k, b'.');
    Some(d)
}
#[derive(Clone, Debug)]
enum Op {
    Scan { at: usize, locked: bool, via: Via, rel: String, arg: String, depth: usize },
    Host(FsOp),
}
pub fn c05(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&[F::Read, F::Open, F::ReadDir, F::OpenDir, F::Stat], &BENIGN, 3);
    wd.keep_snaps = true;
    let pl = gen_place();
    wd.fs.put("/etc/passwd", b"SECRET");
    let mut n = 0u64;
    let alone: Sh<Alone> = Sh::new(Alone::default());
    let (files, dirs) = gen_tree(&pl.real, &mut |_| front_body(&mut n), false);
    if files.is_empty() {
        wd.fs.put(&format!("{}/only.md", pl.real), &front_body(&mut n));
    }
    let mut pls = vec![pl.clone()];
    if wd.g.chance(1, 3) {
        // other front matter under the same names
        let tw = gen_twin(&pl);
        for d in &dirs {
            wd.fs.mkdirs(&under(&tw.real, d));
        }
        for f in &files {
            let mut d = front_body(&mut n);
            if wd.g.chance(1, 2) {
                let k = wd.fs.read(&under(&pl.real, f)).map(|c| c.len()).unwrap_or(0);
                d = same_size(k, &mut n).unwrap_or(d);
            }
            wd.fs.put(&under(&tw.real, f), &d);
        }
        pls.push(tw);
    }
    // and in different folders of one tree, of the same size
    for f in &files {
        let name = f.rsplit('/').next().unwrap();
        if let (true, Some(o)) = (wd.g.chance(1, 2), files.iter().find(|o| *o != f && o.rsplit('/').next().unwrap() == name)) {
            let k = wd.fs.read(&under(&pl.real, o)).map(|c| c.len()).unwrap_or(0);
            if let Some(d) = same_size(k, &mut n) {
                wd.fs.put(&under(&pl.real, f), &d);
            }
        }
    }
    let mut shut = vec![];
    for f in &files {
        if wd.g.chance(1, 20) {
            let i = wd.fs.look(&under(&pl.real, f)).unwrap();
            wd.fs.n[i].noaccess = true;
            shut.push(f.clone());
        }
    }
    let all = wd.fs.snapshot();
    for (k, s) in &all {
        if let (true, Snap::File(d)) = (pls.iter().any(|p| k.starts_with(&format!("{}/", p.real))), s) {
            wd.desc.push(format!("{}{}: {:?}", k, if shut.iter().any(|f| *k == under(&pl.real, f)) { " (unreadable)" } else { "" }, short(&String::from_utf8_lossy(d), 300)));
        }
    }
    let s0 = wd.seq;
    wd.snaps.push((s0, all));
    let change = |n: &mut u64| -> FsOp {
        let wd = w();
        let d = wd.g.pick(&dirs).clone();
        let real = &wd.g.pick(&pls).real;
        let p = format!("{}/{}", under(real, &d), wd.g.pick(&["m1.md", "m2.txt"]));
        let ok: Vec<&String> = files.iter().filter(|f| !shut.contains(f)).collect();
        match wd.g.weighted(&[2, 1, 5]) {
            0 => FsOp::Put(p, front_body(n)),
            1 => FsOp::Remove(p),
            _ if !ok.is_empty() => {
                let p = under(real, &wd.g.pick(&ok).to_string());
                let mut d = front_body(n);
                if wd.g.chance(1, 3) {
                    let k = wd.fs.read(&p).map(|c| c.len()).unwrap_or(0);
                    d = same_size(k, n).unwrap_or(d);
                }
                FsOp::Put(p, d)
            }
            _ => FsOp::Nop,
        }
    };
    for m in 0..wd.g.weighted(&[3, 2]) {
        let mut q = VecDeque::new();
        for _ in 0..wd.g.range(1, 5) {
            q.push_back(change(&mut n));
        }
        wd.desc.push(format!("outside writer {}: {}", m, q.iter().map(|o| short(&format!("{:?}", o), 100)).collect::<Vec<_>>().join("; ")));
        wd.add_ent(Kind2::Mut(q), -1, false, format!("outside writer {}", m));
    }
    let nc = 1 + wd.g.weighted(&[3, 1]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let mut ops = vec![];
        for _ in 0..wd.g.range(1, 4) {
            let at = wd.g.below(pls.len());
            let pl = &pls[at];
            let locked = wd.g.chance(1, 2);
            let via = if wd.g.chance(1, 4) { Via::Tmpl } else { Via::Direct };
            if nc == 1 && wd.g.chance(1, 4) {
                ops.push(Op::Host(change(&mut n)));
            }
            let rel = if wd.g.chance(3, 4) { String::new() } else { wd.g.pick(&dirs).clone() };
            if rel.split('/').last().unwrap().starts_with('_') {
                continue;
            }
            let arg = if rel.is_empty() {
                if locked {
                    ".".to_string()
                } else {
                    pl.real.clone()
                }
            } else {
                pl.arg(locked, &rel)
            };
            ops.push(Op::Scan { at, locked, via, rel, arg, depth: [9, 0, 1, 2, 60, isize::MAX as usize, 3, 4][wd.g.weighted(&[10, 2, 2, 2, 1, 1, 1, 1])] });
        }
        wd.desc.push(format!("client {}: {}", ci, ops.iter().map(|o| short(&format!("{:?}", o), 200)).collect::<Vec<_>>().join("; ")));
        let pls = pls.clone();
        bodies.push(Box::new(move |c| {
            let fms: Vec<_> = {
                let _o = off();
                pls.iter().map(|p| (p.funcs(true), p.funcs(false))).collect()
            };
            for op in ops {
                match op {
                    Op::Host(o) => {
                        let _o = off();
                        w().host_change(&o);
                    }
                    Op::Scan { at, locked, via, rel, arg, depth } => {
                        let (pl, fl, ff) = (&pls[at], &fms[at].0, &fms[at].1);
                        let r = run_lib(c, || call(if locked { fl } else { ff }, via, "scan_dir", &[sd(&arg), TData::UInt(depth)]));
                        let _o = off();
                        c05_check(pl, alone, &rel, depth, &r, &format!("{} scan of {:?} to depth {}", if locked { "locked" } else { "free" }, arg, depth));
                    }
                }
            }
        }));
    }
    run_clients(bodies);
}
fn c05_check(pl: &Place, alone: Sh<Alone>, rel: &str, depth: usize, r: &Rec<TData>, what: &str) {
    let cx = ctx();
    let wd = w();
    let trees = wd.trees(r.b, r.e);
    let root = under(&pl.real, rel);
    let exp: Vec<Vec<(String, String, String)>> = trees.iter().map(|t| scan_expect(t, &root, depth)).collect();
    // the contents each file had during the scan, and what they export alone
    let mut cands: BTreeMap<String, Vec<Fm>> = BTreeMap::new();
    for (t, e) in trees.iter().zip(&exp) {
        for (p, _, _) in e {
            if let Some(Snap::File(d)) = t.get(p) {
                match alone.get().of(d) {
                    None => {
                        wd.probe("left out: content panics alone");
                        return;
                    }
                    Some(f) => {
                        let v = cands.entry(p.clone()).or_default();
                        if !v.iter().any(|x| same_ex(x, &f)) {
                            v.push(f);
                        }
                    }
                }
            }
        }
    }
    let fl = r.faults();
    let count = |k: F| fl.iter().filter(|f| **f == k).count();
    let dir_faults = count(F::OpenDir) + count(F::ReadDir) + count(F::Stat);
    let racy = trees.len() > 1 && wd.fired[F::DtUnknown as usize] > 0;
    let l = match &r.got {
        Got::Ok(TData::List(l)) => l,
        Got::Ok(v) => return cx.fail("wrong_kind", format!("{} gave {:?}", what, v)),
        Got::Err(e) => {
            return cx.check(dir_faults > 0 || racy || exp.iter().any(|e| e.is_empty()), "scan_failed", || format!("{} failed: {}", what, e));
        }
        Got::Panic(p) => return cx.fail("panic", format!("{} panicked: {}", what, p)),
    };
    let mut unread = 0; // files without front matter for which only a failed read accounts
    let mut seen: Vec<String> = vec![];
    for x in l {
        let m: Fm = match x {
            TData::Map(m) => m.iter().map(|(k, v)| (k.clone(), from_td(v))).collect(),
            _ => return cx.fail("wrong_kind", format!("{}: a record is {:?}", what, x)),
        };
        let full = match m.get("item_full_path") {
            Some(V::Str(s)) => s.clone(),
            o => return cx.fail("wrong_record", format!("{}: full path {:?}", what, o)),
        };
        let canon = wd.fs.walk(wd.fs.cwd, full.as_bytes(), true).canon;
        let e = match exp.iter().flatten().find(|e| e.0 == canon) {
            Some(e) => e,
            None => {
                cx.check(false, "wrong_record", || format!("{}: record for {:?}, which was not there", what, full));
                continue;
            }
        };
        seen.push(canon.clone());
        let base: Fm = [("item_full_path".to_string(), V::Str(full.clone())), ("item_path".to_string(), V::Str(e.1.clone())), ("item_file".to_string(), V::Str(e.2.clone()))].into_iter().collect();
        let with = |f: &Fm| -> Fm {
            let mut b = base.clone();
            b.extend(f.iter().map(|(k, v)| (k.clone(), v.clone())));
            b
        };
        let fs = &cands[&canon];
        let shut = wd.fs.look(&canon).map(|i| wd.fs.n[i].noaccess).unwrap_or(false);
        if !shut && fs.iter().any(|f| same_ex(&with(f), &m)) {
            cx.checks += 1;
            if fs.iter().any(|f| !f.is_empty()) {
                cx.hit();
            }
            cx.state.insert(hash_state(&[&m.len().to_string(), &fs.len().to_string()]));
            continue;
        }
        if same_ex(&base, &m) {
            if !shut {
                unread += 1;
            }
            continue;
        }
        cx.check(false, "wrong_front_matter", || format!("{}: the record of {:?} is {:?}\n   but the file alone exports {:?}", what, full, m, fs));
    }
    let unread_ok = count(F::Read) + count(F::Open) + count(F::Stat);
    cx.check(unread <= unread_ok, "front_matter_lost", || format!("{}: {} readable files have no front matter, but only {} reads failed; records {:?}", what, unread, unread_ok, l));
    if unread > 0 {
        wd.probe("file without front matter after a failed read");
    }
    let mut missing = vec![];
    for e in exp[0].iter() {
        let shut = wd.fs.look(&e.0).map(|i| wd.fs.n[i].noaccess).unwrap_or(false);
        if !shut && exp.iter().all(|x| x.contains(e)) && !seen.contains(&e.0) {
            missing.push(e.0.clone());
        }
    }
    let may_miss = count(F::Open) + count(F::Stat);
    cx.check(missing.len() <= may_miss, "record_missing", || format!("{}: no record for {:?}, but only {} files could not be opened", what, missing, may_miss));
    if !missing.is_empty() {
        wd.probe("file left out after a failed open");
    }
}
