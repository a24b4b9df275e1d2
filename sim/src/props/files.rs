//! Reading, listing, scanning (C03, C04, C05).
use super::util::*;
use crate::driver::*;
use crate::kernel::*;
use std::collections::VecDeque;
use templito::temp_man::NoTemplates;
use templito::*;

#[derive(Clone, Debug)]
enum ROp {
    Read { at: usize, name: &'static str, locked: bool, via: Via, rels: Vec<String>, args: Vec<String> },
    Load { at: usize, rel: String, arg: String },
    Host(FsOp),
}

/// Beginnings, ends and line ends that a well-meaning reader might tidy up.
fn season(d: &mut Vec<u8>) {
    let wd = w();
    if wd.g.chance(1, 2) {
        let p = *wd.g.pick(&["\u{feff}", "\n", " ", "\t", "\r\n", "#!/bin/sh\n", "---\ntitle: x\n---\n", "\0", "\x0c", "\u{feff}\u{feff}", "\u{2028}", "% ", "} "]);
        d.splice(0..0, p.bytes());
    }
    if wd.g.chance(1, 2) {
        let p = *wd.g.pick(&["\n", "\n\n", " ", "  \n", "\r\n", "\r", "\0", "\x1a", "\u{feff}", "\t", "}", "\u{a0}"]);
        d.extend(p.bytes());
    }
    if wd.g.chance(1, 4) {
        let to: &[u8] = *wd.g.pick(&[&b"\r\n"[..], b"\r", b"\n\n", b"\t", b" \n", b"\n\r"]);
        let mut o = vec![];
        for b in d.iter() {
            if *b == b'\n' {
                o.extend(to);
            } else {
                o.push(*b);
            }
        }
        *d = o;
    }
}
pub fn c03(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&[F::Open, F::Read, F::Stat], &BENIGN, 3);
    let pl = gen_place();
    let names = ["a.txt", "b", "A.txt", "sub/c.txt", "sub/ü.md", "d e.txt", ".hid"];
    let nf = wd.g.range(1, 4);
    let mut files: Vec<(String, bool)> = vec![];
    let mut tag = 0u8;
    let content = |tag: &mut u8| -> (Vec<u8>, bool) {
        let wd = w();
        *tag += 1;
        let k = wd.g.weighted(&[6, 3, 2]);
        let n = if wd.g.chance(1, 90) { wd.g.range(200_000, 1_300_000) } else { gen_size() };
        let mut d = gen_bytes(n, k, *tag);
        if k == 1 && wd.g.chance(1, 6) {
            d.pop(); // often cuts a character in two
        }
        if k < 2 && wd.g.chance(1, 3) {
            season(&mut d);
        }
        (d, k < 2)
    };
    let mut desc = vec![];
    for i in 0..nf {
        let (d, text) = content(&mut tag);
        let p = format!("{}/{}", pl.real, names[i]);
        desc.push(format!("{} ({} bytes{})", names[i], d.len(), if text { "" } else { ", binary" }));
        wd.fs.put(&p, &d);
        files.push((names[i].to_string(), text));
    }
    if wd.g.chance(1, 8) {
        // one character split over two files
        wd.fs.put(&format!("{}/a.txt", pl.real), "xyß".as_bytes().split_last().unwrap().1);
        wd.fs.put(&format!("{}/b", pl.real), &"ß".as_bytes()[1..]);
        if nf < 2 {
            files.push(("b".into(), true));
        }
    }
    wd.fs.mkdirs(&format!("{}/folder", pl.real));
    wd.desc.push(format!("files {}", desc.join(", ")));
    let mut pls = vec![pl.clone()];
    if wd.g.chance(1, 3) {
        let tw = gen_twin(&pl);
        for (f, _) in &files {
            let old = wd.fs.read(&under(&pl.real, f)).unwrap_or_default();
            let d = if wd.g.chance(1, 2) {
                tag += 1;
                gen_bytes(old.len(), 0, tag)
            } else {
                content(&mut tag).0
            };
            if !wd.g.chance(1, 10) {
                wd.fs.put(&under(&tw.real, f), &d);
            }
        }
        pls.push(tw);
    }
    let hist = Sh::new(Hist::start());
    let nm = wd.g.weighted(&[3, 3, 1]);
    for m in 0..nm {
        let mut q = VecDeque::new();
        for _ in 0..wd.g.range(1, 4) {
            let f = wd.g.pick(&files).0.clone();
            let p = format!("{}/{}", wd.g.pick(&pls).real, f);
            match wd.g.weighted(&[6, 1, 1]) {
                0 => {
                    let (mut d, _) = content(&mut tag);
                    if wd.g.chance(1, 3) {
                        // same length as the first content: only the bytes tell
                        let n = wd.fs.read(&p).map(|c| c.len()).unwrap_or(5);
                        d = gen_bytes(n, 0, tag);
                    }
                    q.push_back(FsOp::Put(p, d))
                }
                1 => q.push_back(FsOp::Remove(p)),
                _ => q.push_back(FsOp::Nop),
            }
        }
        wd.desc.push(format!("outside writer {}: {}", m, q.iter().map(|o| short(&format!("{:?}", o), 60)).collect::<Vec<_>>().join("; ")));
        wd.add_ent(Kind2::Mut(q), -1, false, format!("outside writer {}", m));
    }
    let nc = 1 + wd.g.weighted(&[3, 2, 1]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let mut ops = vec![];
        for _ in 0..wd.g.range(1, 5) {
            let k = wd.g.weighted(&[5, 4, 2, if nc == 1 { 3 } else { 0 }]);
            let at = wd.g.below(pls.len());
            let pl = &pls[at];
            match k {
                0 | 1 => {
                    let locked = wd.g.chance(1, 2);
                    let n = wd.g.weighted(&[1, 6, 3, 1]);
                    let mut rels = vec![];
                    for _ in 0..n {
                        rels.push(match wd.g.weighted(&[20, 1, 1]) {
                            0 => wd.g.pick(&files).0.clone(),
                            1 => "missing".to_string(),
                            _ => "folder".to_string(),
                        });
                    }
                    let args = rels.iter().map(|r| pl.arg(locked, r)).collect();
                    let via = if wd.g.chance(1, 3) { Via::Tmpl } else { Via::Direct };
                    ops.push(ROp::Read { at, name: ["file", "file_bytes"][k], locked, via, rels, args });
                }
                2 => {
                    let rel = if wd.g.chance(1, 12) { "missing".to_string() } else { wd.g.pick(&files).0.clone() };
                    let arg = pl.free_arg(&rel);
                    ops.push(ROp::Load { at, rel, arg });
                }
                _ => {
                    let f = wd.g.pick(&files).0.clone();
                    let p = format!("{}/{}", pl.real, f);
                    let (mut d, _) = content(&mut tag);
                    if wd.g.chance(1, 2) {
                        let n = wd.fs.read(&p).map(|c| c.len()).unwrap_or(5);
                        d = gen_bytes(n, 0, tag);
                    }
                    ops.push(ROp::Host(FsOp::Overwrite(p, d)));
                }
            }
        }
        wd.desc.push(format!("client {}: {}", ci, ops.iter().map(|o| short(&format!("{:?}", o), 160)).collect::<Vec<_>>().join("; ")));
        let pls = pls.clone();
        bodies.push(Box::new(move |c| {
            let fl: Vec<_> = {
                let _o = off();
                pls.iter().map(|p| (p.funcs(true), p.funcs(false))).collect()
            };
            for op in ops {
                c03_op(c, &pls, hist, &fl, op);
            }
        }));
    }
    run_clients(bodies);
}

fn c03_op(c: &Client, pls: &[Place], hist: Sh<Hist>, fms: &[(func_man::BasicFuncs, func_man::BasicFuncs)], op: ROp) {
    match op {
        ROp::Host(o) => {
            let _o = off();
            hist.get().absorb();
            w().host_change(&o);
            hist.get().absorb();
        }
        ROp::Read { at, name, locked, via, rels, args } => {
            let (pl, fl, ff) = (&pls[at], &fms[at].0, &fms[at].1);
            let a: Vec<TData> = args.iter().map(|s| sd(s)).collect();
            let r = run_lib(c, || call(if locked { fl } else { ff }, via, name, &a));
            let _o = off();
            let got = match &r.got {
                Got::Ok(TData::String(s)) if name == "file" => Got::Ok(s.clone().into_bytes()),
                Got::Ok(TData::Bytes(s)) if name == "file_bytes" => Got::Ok(s.clone()),
                Got::Ok(v) => Got::Err(format!("WRONG KIND {:?}", v)),
                Got::Err(e) => Got::Err(e.clone()),
                Got::Panic(e) => Got::Panic(e.clone()),
            };
            let r2 = Rec { got, b: r.b, e: r.e, op: r.op, client: r.client, end: r.end.clone() };
            c03_check(pl, hist, &r2, name == "file", &rels, &format!("{} {} {:?} (folder {})", if locked { "locked" } else { "free" }, name, args, pl.real));
        }
        ROp::Load { at, rel, arg } => {
            let (pl, ff) = (&pls[at], &fms[at].1);
            let r = run_lib(c, || {
                let t = TreeTemplate::load(&arg)?;
                inst::run(&t, &[], &mut NoTemplates, ff)
            });
            let _o = off();
            let got = match &r.got {
                Got::Ok(s) => Got::Ok(s.clone().into_bytes()),
                Got::Err(e) => Got::Err(e.clone()),
                Got::Panic(e) => Got::Panic(e.clone()),
            };
            let r2 = Rec { got, b: r.b, e: r.e, op: r.op, client: r.client, end: r.end.clone() };
            c03_check(pl, hist, &r2, true, &[rel], &format!("load {:?}", arg));
        }
    }
}

fn c03_check(pl: &Place, hist: Sh<Hist>, r: &Rec<Vec<u8>>, text: bool, rels: &[String], what: &str) {
    let h = hist.get();
    h.absorb();
    let mut cands: Vec<Vec<Vec<u8>>> = vec![];
    let mut may_err = r.end.hard > 0;
    let mut raced = false;
    for rel in rels {
        let p = format!("{}/{}", pl.real, rel);
        let v = h.versions(&p, r.b, r.e);
        raced |= v.len() > 1;
        let mut ok = vec![];
        for x in v {
            match x {
                Some(d) if !text || std::str::from_utf8(&d).is_ok() => ok.push(d),
                _ => may_err = true,
            }
        }
        cands.push(ok);
    }
    let c = ctx();
    no_panic(r, what);
    match &r.got {
        Got::Ok(d) => {
            if !d.is_empty() {
                c.hit();
            }
            c.check(concat_match(d, &cands), "wrong_content", || {
                let l: Vec<Vec<usize>> = cands.iter().map(|c| c.iter().map(|v| v.len()).collect()).collect();
                format!("{} gave {} bytes that are not the files' content (possible lengths {:?}): {:?}", what, d.len(), l, short(&String::from_utf8_lossy(d), 120))
            });
        }
        Got::Err(e) => {
            let wrong_kind = e.starts_with("WRONG KIND");
            c.check(may_err && !wrong_kind, "error_without_cause", || format!("{} failed with {:?} though every file was readable and no fault was injected", what, e));
        }
        _ => {}
    }
    if raced {
        w().probe("file replaced during a read");
    }
    if r.end.hard > 0 {
        w().probe("hard fault during a read");
    }
    if rels.len() > 1 && r.got.is_ok() {
        w().probe("several files joined");
    }
    c.state.insert(hash_state(&[r.got.kind(), &rels.len().to_string(), &raced.to_string(), &r.end.hard.min(2).to_string(), &text.to_string()]));
}

// ------------------------------------------------------------------ C04
/// A random tree below `root`; returns (files, dirs) relative to it. `body` makes the content.
pub fn gen_tree(root: &str, body: &mut dyn FnMut(&str) -> Vec<u8>, extra: bool) -> (Vec<String>, Vec<String>) {
    let wd = w();
    let mut files: Vec<String> = vec![];
    let mut dirs: Vec<String> = vec!["".into()];
    let mut todo = vec![(String::new(), 0usize)];
    if wd.g.chance(1, 6) {
        // folders one inside the other
        let mut d = String::new();
        for i in 0..wd.g.range(2, 8) {
            d = if i == 0 { "deep".into() } else { format!("{}/deep", d) };
            wd.fs.mkdirs(&format!("{}/{}", root, d));
            dirs.push(d.clone());
            if wd.g.chance(2, 3) {
                let p = format!("{}/n1.md", d);
                let c = body(&p);
                wd.fs.put(&format!("{}/{}", root, p), &c);
                files.push(p);
            }
        }
    }
    while let Some((d, dep)) = todo.pop() {
        let n = wd.g.weighted(&[1, 2, 3, 4, 3, 2]);
        for _ in 0..n {
            let join = |n: &str| if d.is_empty() { n.to_string() } else { format!("{}/{}", d, n) };
            let k = wd.g.weighted(&[10, 4, if extra { 2 } else { 0 }, if extra { 1 } else { 0 }, if extra { 2 } else { 0 }]);
            match k {
                0 => {
                    let n = *wd.g.pick(&["n1.md", "n2.txt", "n3.md", "_n4.md", "ü n5.md", ".n6", "n7", "n1.txt", "-n8.md", "x_n9.md", "n10.md~", " _n11.md", "N1.md", "n1.MD"]);
                    let p = join(n);
                    if !files.contains(&p) && !dirs.contains(&p) {
                        let c = body(&p);
                        wd.fs.put(&format!("{}/{}", root, p), &c);
                        files.push(p);
                    }
                }
                1 => {
                    let n = *wd.g.pick(&["sub", "_hid", "deep", "n1.md", ".git", "a b", "Sub"]);
                    let p = join(n);
                    if dep < 3 && !files.contains(&p) && !dirs.contains(&p) && wd.fs.look(&format!("{}/{}", root, p)).is_none() {
                        wd.fs.mkdirs(&format!("{}/{}", root, p));
                        dirs.push(p.clone());
                        todo.push((p, dep + 1));
                    }
                }
                2 => {
                    // a link to something inside
                    let n = *wd.g.pick(&["l1.md", "l2"]);
                    let p = join(n);
                    if wd.fs.look(&format!("{}/{}", root, p)).is_none() {
                        let t = match wd.g.below(3) {
                            0 if !files.is_empty() => format!("{}/{}", root, wd.g.pick(&files).clone()),
                            1 => format!("{}/{}", root, wd.g.pick(&dirs).clone()),
                            _ => format!("{}/dangling", root),
                        };
                        // no cycles: only links from the top level to deeper folders
                        if !(t.starts_with(&format!("{}/{}", root, d)) && dirs.iter().any(|x| t == format!("{}/{}", root, x))) {
                            wd.fs.link(&format!("{}/{}", root, p), &t);
                        }
                    }
                }
                3 => {
                    let dd = if d.is_empty() { root.to_string() } else { format!("{}/{}", root, d) };
                    wd.fs.put_raw(&dd, b"n\xff\xfe.md", b"x");
                }
                _ => {
                    // neither file nor folder
                    let p = format!("{}/{}", root, join(*wd.g.pick(&["pipe.md", "n1.md", "dev.md"])));
                    if wd.fs.look(&p).is_none() {
                        wd.fs.special(&p, wd.g.chance(2, 3));
                    }
                }
            }
        }
    }
    (files, dirs)
}

pub fn under(root: &str, rel: &str) -> String {
    if rel.is_empty() {
        root.to_string()
    } else {
        format!("{}/{}", root, rel)
    }
}
type Tree = std::collections::BTreeMap<String, crate::fs::Snap>;
use crate::fs::Snap;

/// what the path leads to in a tree, links followed
fn resolve<'a>(t: &'a Tree, p: &str) -> Option<&'a Snap> {
    let mut cur = String::new();
    let mut hops = 0;
    let mut parts: VecDeque<String> = p.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut last = None;
    while let Some(c) = parts.pop_front() {
        if c == "." {
            continue;
        }
        let n = format!("{}/{}", cur, c);
        match t.get(&n)? {
            Snap::Link(l) => {
                hops += 1;
                if hops > 20 {
                    return None;
                }
                let l = String::from_utf8_lossy(l).to_string();
                for x in l.split('/').filter(|s| !s.is_empty()).rev() {
                    parts.push_front(x.to_string());
                }
                if l.starts_with('/') {
                    cur = String::new();
                    last = None;
                }
            }
            s @ Snap::Dir => {
                cur = n;
                last = Some(s);
            }
            s => {
                if !parts.is_empty() {
                    return None;
                }
                last = Some(s);
            }
        }
    }
    last
}
/// direct children of the directory the path leads to
fn children(t: &Tree, dir: &str) -> Vec<(String, Snap)> {
    let pre = format!("{}/", dir);
    t.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)).filter(|(k, _)| !k[pre.len()..].contains('/')).map(|(k, v)| (k[pre.len()..].to_string(), v.clone())).collect()
}
fn canon_dir(t: &Tree, p: &str) -> Option<String> {
    // canonical name of a directory (links followed)
    let mut cur = String::new();
    let mut hops = 0;
    let mut parts: VecDeque<String> = p.split('/').filter(|s| !s.is_empty() && *s != ".").map(|s| s.to_string()).collect();
    while let Some(c) = parts.pop_front() {
        let n = format!("{}/{}", cur, c);
        match t.get(&n)? {
            Snap::Link(l) => {
                hops += 1;
                if hops > 20 {
                    return None;
                }
                let l = String::from_utf8_lossy(l).to_string();
                for x in l.split('/').filter(|s| !s.is_empty()).rev() {
                    parts.push_front(x.to_string());
                }
                if l.starts_with('/') {
                    cur = String::new();
                }
            }
            Snap::Dir => cur = n,
            _ => return None,
        }
    }
    Some(cur)
}

#[derive(Clone, Debug)]
enum Rx {
    None,
    Suffix(&'static str),
    Has(&'static str),
    Star(&'static str, &'static str),
    Prefix(String),
    Start(&'static str),
}
impl Rx {
    fn text(&self) -> Option<String> {
        let q = |s: &str| s.replace('.', "\\.").replace('~', "~");
        match self {
            Rx::None => None,
            Rx::Suffix(s) => Some(format!("{}$", q(s))),
            Rx::Has(s) => Some(q(s)),
            Rx::Star(a, b) => Some(format!("{}.*{}", q(a), q(b))),
            Rx::Prefix(a) => Some(format!("^{}", q(a))),
            Rx::Start(a) => Some(format!("^{}", q(a))),
        }
    }
    fn is_match(&self, s: &str) -> bool {
        match self {
            Rx::None => true,
            Rx::Suffix(x) => s.ends_with(x),
            Rx::Has(x) => s.contains(x),
            Rx::Prefix(a) => s.starts_with(&a[..]),
            Rx::Start(a) => s.starts_with(a),
            Rx::Star(a, b) => s.find(a).map(|i| s[i + a.len()..].contains(b)).unwrap_or(false),
        }
    }
}
#[derive(Clone, Debug)]
enum LOp {
    Dir { at: usize, locked: bool, via: Via, rels: Vec<String>, args: Vec<String> },
    Is { at: usize, dir: bool, locked: bool, via: Via, rels: Vec<String>, args: Vec<String> },
    Scan { at: usize, locked: bool, via: Via, rel: String, arg: String, depth: Option<usize>, int: bool, rx: Rx },
    Host(FsOp),
}

pub fn c04(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&[F::Stat, F::OpenDir, F::ReadDir, F::Open, F::Read], &BENIGN, 3);
    wd.keep_snaps = true;
    let pl = gen_place();
    let extra = wd.g.chance(1, 2);
    let (files, dirs) = gen_tree(
        &pl.real,
        &mut |p| match w().g.weighted(&[8, 1, 1, 1, 1, 1]) {
            0 => format!("{{{{export which = \"{}\"}}}}", p).into_bytes(),
            1 => b"{{if".to_vec(),
            2 => vec![],
            3 => b"plain \xff text {{export a = 1}}".to_vec(),
            4 => b"{{export a = nosuch}}{{export a = \"x\"}}{{/if}}".to_vec(),
            _ => b"{{export which = \"other\"}}{{let x = 1}}{{return 3}}".to_vec(),
        },
        extra,
    );
    if wd.g.chance(1, 25) {
        // a folder with many entries
        let d = wd.g.pick(&dirs).clone();
        let n = wd.g.range(40, 400);
        for i in 0..n {
            let p = if d.is_empty() { format!("e{:03}.md", i) } else { format!("{}/e{:03}.md", d, i) };
            wd.fs.put(&under(&pl.real, &p), b"{{export a = 1}}");
        }
        wd.probe("folder with many entries");
    }
    let mut pls = vec![pl.clone()];
    if wd.g.chance(1, 3) {
        // much of the first tree under the same names
        let tw = gen_twin(&pl);
        for d in &dirs {
            if wd.g.chance(5, 6) {
                wd.fs.mkdirs(&under(&tw.real, d));
            }
        }
        for f in &files {
            let up = f.rfind('/').map(|i| &f[..i]).unwrap_or("");
            if wd.g.chance(3, 4) && wd.fs.look(&under(&tw.real, up)).is_some() {
                wd.fs.put(&under(&tw.real, f), b"{{export which = \"twin\"}}");
            }
        }
        if wd.g.chance(1, 2) {
            wd.fs.put(&under(&tw.real, "n_twin.md"), b"");
        }
        pls.push(tw);
    }
    let all = wd.fs.snapshot();
    wd.desc.push(format!("tree: {}", all.keys().filter(|k| k.starts_with(&format!("{}/", pl.real))).map(|k| format!("{}{}", &k[pl.real.len()..], match all[k] { Snap::Dir => "/", Snap::Link(_) => "@", Snap::Special => "|", _ => "" })).collect::<Vec<_>>().join(" ")));
    let s0 = wd.seq;
    wd.snaps.push((s0, all));
    let nm = wd.g.weighted(&[3, 3, 1]);
    let change = |_: ()| -> FsOp {
        let wd = w();
        let d = wd.g.pick(&dirs).clone();
        let real = &wd.g.pick(&pls).real;
        let p = format!("{}/{}", under(real, &d), wd.g.pick(&["m1.md", "m2.txt", "_m3.md"]));
        match wd.g.weighted(&[4, 3, 1, 2]) {
            0 => FsOp::Put(p, b"{{export which = \"m\"}}".to_vec()),
            1 => FsOp::Remove(p),
            2 => FsOp::Mkdir(format!("{}/mdir", under(real, &d))),
            _ if !files.is_empty() => FsOp::Put(under(real, &wd.g.pick(&files).clone()), b"other".to_vec()),
            _ => FsOp::Nop,
        }
    };
    for m in 0..nm {
        let mut q = VecDeque::new();
        for _ in 0..wd.g.range(1, 5) {
            q.push_back(change(()));
        }
        wd.desc.push(format!("outside writer {}: {}", m, q.iter().map(|o| short(&format!("{:?}", o), 60)).collect::<Vec<_>>().join("; ")));
        wd.add_ent(Kind2::Mut(q), -1, false, format!("outside writer {}", m));
    }
    let nc = 1 + wd.g.weighted(&[3, 2]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let mut ops: Vec<LOp> = vec![];
        for _ in 0..wd.g.range(1, 5) {
            let at = wd.g.below(pls.len());
            let pl = &pls[at];
            let locked = wd.g.chance(1, 2);
            let via = if wd.g.chance(1, 4) { Via::Tmpl } else { Via::Direct };
            let mk = |rel: &str| -> String {
                if rel.is_empty() {
                    let wd = w();
                    if locked {
                        match wd.g.below(3) {
                            1 if !pl.spell.is_empty() => "".to_string(),
                            2 if pl.spell.starts_with('/') => pl.spell.clone(),
                            _ => ".".to_string(),
                        }
                    } else {
                        pl.real.clone()
                    }
                } else {
                    pl.arg(locked, rel)
                }
            };
            match wd.g.weighted(&[4, 3, 5, if nc == 1 { 2 } else { 0 }]) {
                0 => {
                    let n = wd.g.weighted(&[1, 6, 3, 1]);
                    let rels: Vec<String> = (0..n)
                        .map(|_| match w().g.weighted(&[12, 1, 1]) {
                            0 => w().g.pick(&dirs).clone(),
                            1 => "missing".into(),
                            _ if !files.is_empty() => w().g.pick(&files).clone(),
                            _ => "missing".into(),
                        })
                        .collect();
                    let args = rels.iter().map(|r| mk(r)).collect();
                    ops.push(LOp::Dir { at, locked, via, rels, args });
                }
                1 => {
                    let n = wd.g.weighted(&[1, 6, 4, 2]);
                    let dir = wd.g.chance(1, 2);
                    let rels: Vec<String> = (0..n)
                        .map(|_| match w().g.weighted(&[5, 5, 1, 1, 1, 1]) {
                            0 if !files.is_empty() => w().g.pick(&files).clone(),
                            0 | 1 => w().g.pick(&dirs).clone(),
                            2 => "missing".into(),
                            3 => wd_pick_odd(),
                            4 => "m1.md".into(),
                            _ if !files.is_empty() => format!("{}/x", w().g.pick(&files)),
                            _ => "nope/x".into(),
                        })
                        .collect();
                    let args = rels.iter().map(|r| mk(r)).collect();
                    ops.push(LOp::Is { at, dir, locked, via, rels, args });
                }
                2 => {
                    let rel = match wd.g.weighted(&[6, 3, 1]) {
                        0 => "".to_string(),
                        1 => wd.g.pick(&dirs).clone(),
                        _ => "missing".to_string(),
                    };
                    if rel.rsplit('/').next().unwrap().starts_with('_') {
                        continue;
                    }
                    let arg = mk(&rel);
                    let depth = match wd.g.weighted(&[4, 4, 6, 4, 7, 1, 1, 4]) {
                        7 => Some(wd.g.range(3, 8)),
                        k => [None, Some(0), Some(1), Some(2), Some(9), Some(60), Some(isize::MAX as usize)][k],
                    };
                    let rx = match wd.g.weighted(&[4, 2, 2, 1, 1, 1]) {
                        4 => Rx::Prefix(if locked { std::path::Path::new(&pl.spell).join(&arg).display().to_string() } else { arg.clone() }),
                        5 => Rx::Start(*wd.g.pick(&["n1", "n", "/", "sub", "_"])),
                        0 => Rx::None,
                        1 => Rx::Suffix(*wd.g.pick(&[".md", ".txt", "n7"])),
                        2 => Rx::Has(*wd.g.pick(&["n1", "/n1.", "sub/n", "n"])),
                        _ => Rx::Star("sub", "n1"),
                    };
                    ops.push(LOp::Scan { at, locked, via, rel, arg, depth, int: wd.g.chance(1, 2), rx });
                }
                _ => ops.push(LOp::Host(change(()))),
            }
        }
        wd.desc.push(format!("client {}: {}", ci, ops.iter().map(|o| short(&format!("{:?}", o), 200)).collect::<Vec<_>>().join("; ")));
        let pls = pls.clone();
        bodies.push(Box::new(move |c| {
            let fl: Vec<_> = {
                let _o = off();
                pls.iter().map(|p| (p.funcs(true), p.funcs(false))).collect()
            };
            for op in ops {
                c04_op(c, &pls, &fl, op);
            }
        }));
    }
    run_clients(bodies);
}

fn wd_pick_odd() -> String {
    w().g.pick(&["l1.md", "pipe.md", "dev.md", "l2"]).to_string()
}
fn lstr(v: &TData) -> Option<Vec<String>> {
    match v {
        TData::List(l) => l
            .iter()
            .map(|x| match x {
                TData::String(s) => Some(s.clone()),
                _ => None,
            })
            .collect(),
        _ => None,
    }
}
/// compares one listing with what the directory held in the trees of the window
fn check_listing(trees: &[&Tree], dir: &str, got: &[String], what: &str) {
    let c = ctx();
    let mut always: Option<std::collections::BTreeSet<String>> = None;
    let mut ever: std::collections::BTreeSet<String> = Default::default();
    let mut odd = 0;
    for t in trees {
        let n: std::collections::BTreeSet<String> = match canon_dir(t, dir) {
            Some(d) => children(t, &d).into_iter().map(|x| x.0).collect(),
            None => Default::default(),
        };
        odd = odd.max(n.iter().filter(|x| x.contains("\\x")).count());
        let n: std::collections::BTreeSet<String> = n.into_iter().filter(|x| !x.contains("\\x")).collect();
        ever.extend(n.iter().cloned());
        always = Some(match always {
            None => n,
            Some(a) => a.intersection(&n).cloned().collect(),
        });
    }
    let always = always.unwrap_or_default();
    let mut extra = 0;
    let mut seen: std::collections::BTreeSet<&String> = Default::default();
    for g in got {
        if !seen.insert(g) {
            c.check(false, "listed_twice", || format!("{}: {:?} listed twice in {:?}", what, g, got));
        } else if !ever.contains(g) {
            extra += 1;
        }
    }
    c.check(extra == odd, "wrong_listing", || format!("{}: listed {:?}, but the folder holds {:?}", what, got, ever));
    for a in &always {
        c.check(seen.contains(a), "entry_missing", || format!("{}: {:?} is missing from {:?}", what, a, got));
    }
}

fn c04_op(c: &Client, pls: &[Place], fms: &[(func_man::BasicFuncs, func_man::BasicFuncs)], op: LOp) {
    match op {
        LOp::Host(o) => {
            let _o = off();
            w().host_change(&o);
        }
        LOp::Dir { at, locked, via, rels, args } => {
            let (pl, fl, ff) = (&pls[at], &fms[at].0, &fms[at].1);
            let a: Vec<TData> = args.iter().map(|s| sd(s)).collect();
            let r = run_lib(c, || call(if locked { fl } else { ff }, via, "dir", &a));
            let _o = off();
            let what = format!("{} dir {:?}", if locked { "locked" } else { "free" }, args);
            no_panic(&r, &what);
            let trees = w().trees(r.b, r.e);
            let mut may_err = r.end.hard > 0;
            let mut may_ok = true;
            for rel in &rels {
                let p = under(&pl.real, rel);
                let isd = trees.iter().filter(|t| canon_dir(t, &p).is_some()).count();
                may_ok &= isd > 0;
                may_err |= isd < trees.len();
                may_err |= trees.iter().any(|t| canon_dir(t, &p).map(|d| children(t, &d).iter().any(|x| x.0.contains("\\x"))).unwrap_or(false));
            }
            let cx = ctx();
            cx.state.insert(hash_state(&["dir", r.got.kind(), &rels.len().to_string(), &trees.len().min(3).to_string(), &r.end.hard.min(1).to_string()]));
            match &r.got {
                Got::Ok(v) => {
                    if !cx_ok(may_ok, &what, "wrong_kind") {
                        return;
                    }
                    if rels.len() == 1 {
                        match lstr(v) {
                            Some(l) => {
                                if !l.is_empty() {
                                    cx.hit();
                                }
                                check_listing(&trees, &under(&pl.real, &rels[0]), &l, &what)
                            }
                            None => cx.fail("wrong_kind", format!("{}: not a list of names: {:?}", what, v)),
                        }
                    } else {
                        match v {
                            TData::List(l) if l.len() == rels.len() => {
                                for (x, rel) in l.iter().zip(&rels) {
                                    match lstr(x) {
                                        Some(l) => check_listing(&trees, &under(&pl.real, rel), &l, &what),
                                        None => cx.fail("wrong_kind", format!("{}: not a list of names: {:?}", what, x)),
                                    }
                                }
                                if l.len() > 1 {
                                    w().probe("several folders listed");
                                }
                            }
                            v => cx.fail("wrong_kind", format!("{}: not one list per folder: {:?}", what, v)),
                        }
                    }
                }
                Got::Err(e) => cx.check(may_err, "error_without_cause", || format!("{} failed with {:?}", what, e)),
                _ => {}
            }
            if r.faults().contains(&F::ReadDir) {
                w().probe("listing broken off by an error");
            }
        }
        LOp::Is { at, dir, locked, via, rels, args } => {
            let (pl, fl, ff) = (&pls[at], &fms[at].0, &fms[at].1);
            let a: Vec<TData> = args.iter().map(|s| sd(s)).collect();
            let name = if dir { "is_dir" } else { "is_file" };
            let r = run_lib(c, || call(if locked { fl } else { ff }, via, name, &a));
            let _o = off();
            let what = format!("{} {} {:?}", if locked { "locked" } else { "free" }, name, args);
            no_panic(&r, &what);
            let trees = w().trees(r.b, r.e);
            let (mut can_t, mut can_f) = (true, r.end.hard > 0);
            for rel in &rels {
                let p = under(&pl.real, rel);
                let yes = trees.iter().filter(|t| matches!((resolve(t, &p), dir), (Some(Snap::Dir), true) | (Some(Snap::File(_)), false))).count();
                can_t &= yes > 0;
                can_f |= yes < trees.len();
            }
            let cx = ctx();
            cx.hit();
            cx.state.insert(hash_state(&[name, r.got.kind(), &rels.len().to_string(), &can_t.to_string(), &can_f.to_string()]));
            match &r.got {
                Got::Ok(TData::Bool(b)) => cx.check(if *b { can_t } else { can_f }, "wrong_file_test", || format!("{} gave {}", what, b)),
                Got::Ok(v) => cx.fail("wrong_kind", format!("{} gave {:?}", what, v)),
                Got::Err(e) => cx.check(r.end.hard > 0, "error_without_cause", || format!("{} failed with {:?}", what, e)),
                _ => {}
            }
            if r.end.hard > 0 {
                w().probe("file test during a fault");
            }
        }
        LOp::Scan { at, locked, via, rel, arg, depth, int, rx } => {
            let (pl, fl, ff) = (&pls[at], &fms[at].0, &fms[at].1);
            let mut a: Vec<TData> = vec![sd(&arg)];
            if let Some(d) = depth {
                a.push(if int { TData::Int(d as isize) } else { TData::UInt(d) });
            }
            if let Some(t) = rx.text() {
                if depth.is_none() {
                    a.push(TData::UInt(0));
                }
                a.push(sd(&t));
            }
            let r = run_lib(c, || call(if locked { fl } else { ff }, via, "scan_dir", &a));
            let _o = off();
            let what = format!("{} scan_dir {:?}", if locked { "locked" } else { "free" }, a);
            no_panic(&r, &what);
            let trees = w().trees(r.b, r.e);
            let root = under(&pl.real, &rel);
            let isd = trees.iter().filter(|t| canon_dir(t, &root).is_some()).count();
            let removed = w().muts_done.iter().any(|(s, o)| *s > r.b && *s <= r.e && matches!(o, FsOp::Remove(_)));
            let may_err = r.end.hard > 0 || isd < trees.len() || (removed && w().fired[F::DtUnknown as usize] > 0);
            let cx = ctx();
            cx.state.insert(hash_state(&["scan", r.got.kind(), &format!("{:?}", depth), &trees.len().min(3).to_string(), &r.end.hard.min(1).to_string()]));
            match &r.got {
                Got::Ok(TData::List(l)) => {
                    if !cx_ok(isd > 0, &what, "wrong_kind") {
                        return;
                    }
                    let spell = if locked && !arg.starts_with('/') { std::path::Path::new(&pl.spell).join(&arg).display().to_string() } else { arg.clone() };
                    check_scan(&r, &trees, &root, depth.unwrap_or(0), &rx, &spell, l, &what);
                }
                Got::Ok(v) => cx.fail("wrong_kind", format!("{} gave {:?}", what, v)),
                Got::Err(e) => cx.check(may_err, "error_without_cause", || format!("{} failed with {:?}", what, e)),
                _ => {}
            }
            if r.faults().contains(&F::ReadDir) {
                w().probe("scan broken off by an error");
            }
        }
    }
}
fn cx_ok(ok: bool, what: &str, class: &str) -> bool {
    ctx().check(ok, class, || format!("{} succeeded although it names no folder", what));
    ok
}

/// expected files of a scan in one tree: (canonical path, folder, name)
pub fn scan_expect(t: &Tree, root: &str, depth: usize) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let root = match canon_dir(t, root) {
        Some(r) => r,
        None => return out,
    };
    let mut todo = vec![(root, String::new(), depth)];
    while let Some((d, short, left)) = todo.pop() {
        for (n, s) in children(t, &d) {
            if n.starts_with('_') {
                continue;
            }
            match s {
                Snap::File(_) => {
                    let p = format!("{}/{}", d, n);
                    out.push((p, short.clone(), n));
                }
                Snap::Dir if left > 0 => {
                    let s2 = if short.is_empty() { n.clone() } else { format!("{}/{}", short, n) };
                    todo.push((format!("{}/{}", d, n), s2, left - 1));
                }
                _ => {}
            }
        }
    }
    out
}
fn check_scan<T>(r: &Rec<T>, trees: &[&Tree], root: &str, depth: usize, rx: &Rx, spell: &str, l: &[TData], what: &str) {
    let cx = ctx();
    let exp: Vec<Vec<(String, String, String)>> = trees.iter().map(|t| scan_expect(t, root, depth)).collect();
    let unopened: Vec<String> = r.effects().iter().filter(|e| e.kind == EK::OpenR && !e.ok).map(|e| e.path.clone()).collect();
    let wd = w();
    let canon_root = canon_dir(trees[0], root).unwrap_or_default();
    let mut seen: Vec<String> = vec![];
    for x in l {
        let m = match x {
            TData::Map(m) => m,
            _ => {
                cx.fail("wrong_kind", format!("{}: a record is {:?}", what, x));
                return;
            }
        };
        let g = |k: &str| match m.get(k) {
            Some(TData::String(s)) => s.clone(),
            o => {
                ctx().fail("wrong_record", format!("{}: {} is {:?}", what, k, o));
                String::new()
            }
        };
        let (full, folder, file) = (g("item_full_path"), g("item_path"), g("item_file"));
        if full.contains('\u{fffd}') {
            continue;
        }
        let canon = wd.fs.walk(wd.fs.cwd, full.as_bytes(), true).canon;
        if seen.contains(&canon) {
            cx.check(false, "listed_twice", || format!("{}: {:?} occurs twice", what, full));
            continue;
        }
        seen.push(canon.clone());
        cx.check(rx.is_match(&full), "wrong_record", || format!("{}: {:?} does not match the expression", what, full));
        let e = exp.iter().flatten().find(|e| e.0 == canon);
        cx.check(e.is_some(), "wrong_record", || format!("{}: record for {:?}, which should not be there (expected {:?})", what, full, exp[0]));
        if let Some(e) = e {
            cx.check(e.1 == folder && e.2 == file, "wrong_record", || format!("{}: {:?} has folder {:?} and file {:?}, expected {:?} and {:?}", what, full, folder, file, e.1, e.2));
        }
    }
    if !seen.is_empty() {
        cx.hit();
    }
    for e in &exp[0] {
        let spelled = format!("{}{}", spell, &e.0[canon_root.len().min(e.0.len())..]);
        if exp.iter().all(|x| x.contains(e)) && rx.is_match(&e.0) && rx.is_match(&spelled) && !e.2.contains("\\x") && !e.1.contains("\\x") {
            cx.check(seen.contains(&e.0) || unopened.contains(&e.0), "record_missing", || format!("{}: no record for {:?}; got {:?}", what, e.0, seen));
        }
    }
}
