//! Writing files (C06).
use super::files::under;
use super::proc::{gen_arg, season, td_bytes};
use super::util::*;
use crate::driver::*;
use crate::fs::Snap;
use crate::kernel::*;
use std::collections::{BTreeMap, BTreeSet};
use templito::*;

type Tree = BTreeMap<String, Snap>;

#[derive(Clone, Debug)]
struct WOp {
    at: usize,
    locked: bool,
    via: Via,
    rel: Option<String>, // where it should end up, relative to the place; None: must be rejected
    arg: String,
    parts: Vec<TData>,
    want: Vec<u8>,
}

fn diff(a: &Tree, b: &Tree) -> Vec<String> {
    let keys: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
    keys.into_iter().filter(|k| a.get(*k) != b.get(*k)).cloned().collect()
}
fn ancestor_of(p: &str, target: &str) -> bool {
    target.starts_with(&format!("{}/", p)) || p == "/" || p.is_empty()
}
fn gen_text(tag: u8) -> String {
    let wd = w();
    let n = gen_size();
    let k = wd.g.weighted(&[4, 2]);
    // the same text may be written again, or more of it, or other text of the same length
    let tag = if wd.g.chance(1, 4) { 1 } else { tag };
    let s = String::from_utf8(gen_bytes(n, k, tag)).unwrap();
    if n < 5000 && wd.g.chance(1, 4) {
        season(&s)
    } else {
        s
    }
}

pub fn c06(_c: &mut Ctx) {
    let wd = w();
    let crash = wd.g.chance(1, 4);
    let hard: &[F] = if wd.g.chance(1, 2) { &[F::Open, F::Write, F::Mkdir, F::Stat] } else { &[F::Write] };
    wd.configure(hard, &BENIGN, 4);
    let pl = gen_place();
    let names = ["a.txt", "sub/b.txt", "new/c.txt", "new/deep/er/d.txt", "sub/ü e.txt", "x", "new/c2.txt", "sub/n2/f"];
    let mut tag = 0;
    for n in &names[..wd.g.below(4)] {
        tag += 1;
        let t = gen_text(tag);
        wd.fs.put(&under(&pl.real, n), t.as_bytes());
    }
    wd.fs.put(&under(&pl.real, "sub/other.txt"), b"keep me");
    let mut pls = vec![pl.clone()];
    if wd.g.chance(1, 3) {
        let tw = gen_twin(&pl);
        wd.fs.put(&under(&tw.real, "sub/other.txt"), b"keep me");
        wd.fs.mkdirs(&under(&tw.real, "folder"));
        if wd.g.chance(1, 2) {
            wd.fs.mkdirs(&under(&tw.real, "new/deep"));
        }
        pls.push(tw);
    }
    wd.fs.put("/etc/keep", b"keep me too");
    wd.fs.mkdirs(&under(&pl.real, "folder"));
    if wd.g.chance(1, 4) {
        wd.fs.link(&under(&pl.real, "lnk.txt"), "sub/other.txt");
    }
    let quota = wd.g.chance(1, 5);
    if quota {
        wd.fs.quota = Some([0, 10, 100, 9000][wd.g.below(4)]);
        wd.desc.push(format!("room for {} bytes", wd.fs.quota.unwrap()));
    }
    if crash {
        wd.alloc_every = 0;
        wd.edge_every = [0, 0, 40][wd.g.below(3)];
        wd.crash_at = Some(1 + wd.g.below(if wd.edge_every > 0 { 400 } else { 40 }) as u64);
        wd.desc.push(format!("the process is killed at its point {}", wd.crash_at.unwrap()));
    }
    let nc = 1 + wd.g.weighted(&[3, 1, 1]);
    let before = wd.fs.snapshot();
    let mut bodies: Vec<Body> = vec![];
    let mut allowed: Vec<String> = vec![]; // canonical targets
    let finals: Sh<BTreeMap<String, Vec<u8>>> = Sh::new(BTreeMap::new());
    for ci in 0..nc {
        let mut ops = vec![];
        let mut last: Option<String> = None;
        for _ in 0..wd.g.range(1, 5) {
            let at = wd.g.below(pls.len());
            let pl = &pls[at];
            let locked = wd.g.chance(1, 2);
            let via = if wd.g.chance(1, 4) { Via::Tmpl } else { Via::Direct };
            let k = if locked { 1 + wd.g.weighted(&[6, 1]) } else { 1 + wd.g.weighted(&[4, 3, 2, 1]) };
            let mut parts: Vec<TData> = vec![];
            let mut want: Vec<u8> = vec![];
            for i in 0..k {
                tag += 1;
                let t = match wd.g.weighted(&[8, 1, 1, 1]) {
                    0 => sd(&gen_text(tag)),
                    1 => TData::UInt(wd.g.below(1000)),
                    2 => TData::String(String::new()),
                    _ => gen_arg(),
                };
                if i == 0 || !locked {
                    want.extend(td_bytes(&t));
                }
                parts.push(t);
            }
            let kind = wd.g.weighted(&[14, 1, 1, 1, 1]);
            let (rel, arg) = match kind {
                0 | 4 => {
                    let n = if last.is_some() && wd.g.chance(1, 2) {
                        last.clone().unwrap()
                    } else if nc > 1 {
                        // every client has its own files, in shared new folders
                        format!("{}{}", wd.g.pick(&names), ci)
                    } else if kind == 4 && before.contains_key(&under(&pl.real, "lnk.txt")) {
                        "lnk.txt".to_string()
                    } else {
                        wd.g.pick(&names).to_string()
                    };
                    last = Some(n.clone());
                    (Some(n.clone()), pl.arg(locked, &n))
                }
                1 => {
                    parts.clear();
                    (None, pl.arg(locked, "new/none.txt"))
                }
                2 if locked => (None, wd.g.pick(&["../esc.txt", "sub/../../esc.txt", "/etc/esc.txt"]).to_string()),
                2 | 3 => (Some("folder".into()), pl.arg(locked, wd.g.pick(&["folder", "sub/other.txt/x", "folder/"]))),
                _ => unreachable!(),
            };
            if kind == 2 && !locked || kind == 3 {
                ops.push(WOp { at, locked, via, rel: Some(String::new()), arg, parts, want });
                continue;
            }
            ops.push(WOp { at, locked, via, rel, arg, parts, want });
        }
        for o in &ops {
            if let Some(r) = &o.rel {
                if !r.is_empty() {
                    let wk = wd.fs.walk(crate::fs::ROOT, under(&pls[o.at].real, r).as_bytes(), true);
                    allowed.push(wk.canon);
                }
            }
            wd.desc.push(format!("client {}: {:?} write {:?} in {} ({} arguments, {} bytes){}", ci, o.via, o.arg, pls[o.at].real, o.parts.len(), o.want.len(), if o.locked { " locked" } else { "" }));
        }
        let pls = pls.clone();
        bodies.push(Box::new(move |c| {
            let fms: Vec<_> = {
                let _o = off();
                pls.iter().map(|pl| (func_man::BasicFuncs::new().with_defaults().with_write_lock(&pl.spell), pl.funcs(false))).collect()
            };
            for op in ops {
                let (fl, ff) = &fms[op.at];
                c06_op(c, &pls[op.at], if op.locked { fl } else { ff }, op, nc == 1, finals);
            }
        }));
    }
    run_clients(bodies);
    let c = ctx();
    let after = wd.fs.snapshot();
    // nothing but targets and the folders leading to them ever changes
    for p in diff(&before, &after) {
        let ok = match (before.get(&p), after.get(&p)) {
            (None, Some(Snap::Dir)) => allowed.iter().any(|a| ancestor_of(&p, a)),
            (None | Some(Snap::File(_)), Some(Snap::File(_)) | None) => allowed.contains(&p),
            _ => false,
        };
        c.check(ok, "something_else_changed", || format!("{:?} changed from {} to {}, the writes were to {:?}", p, sn(before.get(&p)), sn(after.get(&p)), allowed));
    }
    for (p, d) in finals.get() {
        let now = match after.get(p) {
            Some(Snap::File(x)) => Some(x),
            _ => None,
        };
        c.check(now == Some(d), "wrong_content", || format!("a write to {:?} reported success, but at the end it holds {} instead of {}", p, sn(after.get(p)), short(&String::from_utf8_lossy(d), 100)));
    }
    if wd.crashed {
        wd.probe("process killed");
        c.hit();
    }
}
fn sn(s: Option<&Snap>) -> String {
    match s {
        None => "nothing".into(),
        Some(Snap::Dir) => "a folder".into(),
        Some(Snap::Special) => "a special file".into(),
        Some(Snap::Link(l)) => format!("a link to {}", String::from_utf8_lossy(l)),
        Some(Snap::File(d)) => format!("{} bytes {:?}", d.len(), short(&String::from_utf8_lossy(d), 80)),
    }
}

fn c06_op(c: &Client, pl: &Place, fm: &func_man::BasicFuncs, op: WOp, alone: bool, finals: Sh<BTreeMap<String, Vec<u8>>>) {
    let (before, wk) = {
        let _o = off();
        let wd = w();
        let t = op.rel.as_ref().map(|r| wd.fs.walk(crate::fs::ROOT, under(&pl.real, r).as_bytes(), true).canon);
        if let Some(t) = &t {
            finals.get().remove(t); // whatever it held may be lost from here on
        }
        (wd.fs.snapshot(), t)
    };
    let mut a = vec![sd(&op.arg)];
    a.extend(op.parts.iter().cloned());
    let r = run_lib(c, || call(fm, op.via, "write", &a));
    let _o = off();
    let cx = ctx();
    let wd = w();
    let what = format!("{} write of {} bytes in {} parts to {:?}", if op.locked { "locked" } else { "free" }, op.want.len(), op.parts.len(), op.arg);
    no_panic(&r, &what);
    let after = wd.fs.snapshot();
    let f = r.faults();
    let fault = r.end.hard > 0;
    let full = wd.fs.quota.is_some();
    cx.state.insert(hash_state(&[r.got.kind(), &op.locked.to_string(), &format!("{:?}", f.first()), &op.parts.len().to_string(), &op.rel.is_some().to_string()]));
    match (&op.rel, &r.got) {
        (None, g) => {
            cx.check(!g.is_ok(), "not_rejected", || format!("{} succeeded", what));
            let e: Vec<String> = r.effects().iter().filter(|e| matches!(e.kind, EK::Mkdir | EK::OpenW | EK::Unlink | EK::Rename | EK::Link)).map(|e| format!("{:?} {}", e.kind, e.path)).collect();
            cx.check(e.is_empty(), "rejected_write_acted", || format!("{} was rejected but did {:?}", what, e));
            if alone {
                cx.check(diff(&before, &after).is_empty(), "rejected_write_acted", || format!("{} was rejected but changed {:?}", what, diff(&before, &after)));
            }
            wd.probe("write rejected for its arguments");
        }
        (Some(rel), g) if rel.is_empty() => {
            // cannot be carried out
            cx.check(!g.is_ok(), "not_rejected", || format!("{} succeeded", what));
            if alone {
                cx.check(diff(&before, &after).is_empty(), "something_else_changed", || format!("{} failed but changed {:?}", what, diff(&before, &after)));
            }
            wd.probe("write to an impossible place");
        }
        (Some(_), g) => {
            let t = wk.unwrap();
            match g {
                Got::Ok(_) => {
                    finals.get().insert(t.clone(), op.want.clone());
                    let now = after.get(&t);
                    let ok = matches!(now, Some(Snap::File(d)) if *d == op.want);
                    cx.check(ok, "wrong_content", || format!("{} succeeded, but the file holds {} (faults {:?})", what, sn(now), f));
                    cx.hit();
                    if let Some(Snap::File(d)) = before.get(&t) {
                        if d.len() > op.want.len() {
                            wd.probe("longer content replaced");
                        }
                    }
                }
                Got::Err(e) => {
                    cx.check(fault || full, "failed_without_cause", || format!("{} failed: {}", what, e));
                    cx.hit();
                }
                _ => {}
            }
            if alone {
                for p in diff(&before, &after) {
                    let ok = p == t && !matches!(after.get(&p), Some(Snap::Dir) | Some(Snap::Link(_))) || (before.get(&p).is_none() && matches!(after.get(&p), Some(Snap::Dir)) && ancestor_of(&p, &t));
                    cx.check(ok, "something_else_changed", || format!("{} ({}) changed {:?} from {} to {}", what, r.got.kind(), p, sn(before.get(&p)), sn(after.get(&p))));
                }
            }
        }
    }
}
