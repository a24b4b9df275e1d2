//! Folder locked functions stay in their folder (C01).
use super::files::under;
use super::util::*;
use crate::driver::*;
use crate::fs::Snap;
use crate::kernel::*;
use std::collections::VecDeque;
use templito::*;

const FUNCS: [&str; 8] = ["file", "file_bytes", "dir", "is_file", "is_dir", "scan_dir", "file_img_dimensions", "write"];

/// what a path means by its text: None = outside the folder, Some((path inside, climbed out on the way))
fn lexical(spell: &str, arg: &str) -> Option<(String, bool)> {
    let rest = if arg.starts_with('/') {
        // absolute: inside only if it begins with the folder as it was given
        let s: Vec<&str> = spell.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        let a: Vec<&str> = arg.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        if !spell.starts_with('/') || a.len() < s.len() || a[..s.len()] != s[..] {
            return None;
        }
        a[s.len()..].join("/")
    } else {
        arg.to_string()
    };
    let mut st: Vec<&str> = vec![];
    let mut neg = 0i32;
    let mut climbed = false;
    for c in rest.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if st.pop().is_none() {
                    neg += 1;
                    climbed = true;
                }
            }
            c => st.push(c),
        }
    }
    if neg > 0 {
        // may come back by the folder's own name; that is not required to work
        return if climbed { None } else { Some((st.join("/"), climbed)) };
    }
    Some((st.join("/"), climbed))
}
/// does the path end outside the folder, whichever way it takes?
fn ends_outside(pl: &Place, arg: &str) -> bool {
    // by text, from the real folder
    let full = if arg.starts_with('/') { arg.to_string() } else { format!("{}/{}", pl.real, arg) };
    let mut st: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                st.pop();
            }
            c => st.push(c),
        }
    }
    let p = format!("/{}", st.join("/"));
    let inside = |b: &str| p == b || p.starts_with(&format!("{}/", b));
    !(inside(&pl.real) || inside("/lnk") && pl.spell == "/lnk")
}
fn gen_arg(pl: &Place, inner: &[String]) -> String {
    let wd = w();
    let base = pl.real.rsplit('/').next().unwrap().to_string();
    match wd.g.weighted(&[6, 5, 3, 3, 2, 2]) {
        0 => {
            // a chain of components
            let n = wd.g.range(1, 7);
            let mut v: Vec<String> = vec![];
            for _ in 0..n {
                let c = match wd.g.weighted(&[5, 3, 2, 2, 2, 1, 1, 1, 1]) {
                    0 => "..".to_string(),
                    1 => "sub".to_string(),
                    2 => "a.txt".to_string(),
                    3 => ".".to_string(),
                    4 => format!("{}{}", base, wd.g.pick(&["", "2", "-secret", "/secret.txt"])),
                    5 => "".to_string(),
                    6 => wd.g.pick(&["secret.txt", "etc", "passwd", "in", "...", "..a", "~", "%2e%2e", "..\\", "a\\..", " ..", ".. ", "x\0y", "*"]).to_string(),
                    7 => "deep".to_string(),
                    _ => "in".to_string(),
                };
                v.push(c);
            }
            v.join("/")
        }
        1 => {
            // climb by exactly as much as needed, from some depth
            let d = wd.g.below(4);
            let up = (d + wd.g.range(0, 3)).max(1);
            let mut v: Vec<String> = (0..d).map(|_| w().g.pick(&["sub", "nowhere", ".", "deep", "a.txt", "in"]).to_string()).collect();
            v.extend((0..up).map(|_| "..".to_string()));
            v.push(wd.g.pick(&["secret.txt", "", "a.txt", "etc/passwd", "sub", "img.png"]).to_string());
            v.join("/")
        }
        2 => wd.g.pick(&["/etc/passwd", "/", "//etc/passwd", "/etc", "/etc/../etc/passwd", "/work/secret.txt", "/./etc/passwd", "/img.png"]).to_string(),
        3 => {
            // absolute, through or next to the folder
            let s = wd.g.pick(&[pl.real.clone(), pl.spell.clone()]).clone();
            let t = *wd.g.pick(&["/../secret.txt", "2/secret.txt", "-secret/secret.txt", "/a.txt", "/sub/../../secret.txt", "", "/..", "/sub/../a.txt", "/../../etc/passwd", "/.", "//a.txt"]);
            format!("{}{}", s, t)
        }
        4 => {
            let f = wd.g.pick(inner).clone();
            let i = f.rfind('/').map(|i| i + 1).unwrap_or(0);
            format!("{}{}{}", &f[..i], wd.g.pick(&["./", "../", "sub/../", ""]), &f[i..])
        }
        _ => wd.g.pick(inner).clone(),
    }
}

pub fn c01(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&HARD_FILES, &BENIGN, 3);
    let pl = gen_place();
    let i = pl.real.rfind('/').unwrap();
    let par = if i == 0 { "/".to_string() } else { pl.real[..i].to_string() };
    let pre = if par == "/" { "" } else { &par[..] };
    let png = super::img::png(3, 5);
    // things outside
    for p in ["/etc/passwd", "/secret.txt", "/work/secret.txt", &format!("{}/secret.txt", pre), &format!("{}2/secret.txt", pl.real), &format!("{}-secret/secret.txt", pl.real), &format!("{}/a.txt", pre), &format!("{}/sub/secret.txt", pre)] {
        wd.fs.put(p, b"SECRET {{export s = \"SECRET\"}}");
    }
    wd.fs.put("/img.png", &super::img::png(77, 9));
    wd.fs.put(&format!("{}/img.png", pre), &super::img::png(77, 9));
    // things inside
    let missing = wd.g.chance(1, 15) && pl.spell == pl.real;
    let inner: Vec<String> = ["a.txt", "sub/b.md", "sub/deep/c.md", "in/d.md", "img.png", "sub/secret.txt", "evil.md"].iter().map(|s| s.to_string()).collect();
    if missing {
        wd.fs.remove(&pl.real);
        wd.desc.push("the folder does not exist".into());
    } else {
        for f in &inner {
            let d: Vec<u8> = match f.as_str() {
                "img.png" => png.clone(),
                "evil.md" => {
                    let t = ["file", "dir", "is_file", "scan_dir", "write", "exec", "env", "file_bytes"];
                    let n = *wd.g.pick(&t);
                    format!("{{{{export e = {} \"{}\" \"x\"}}}}{{{{export f = file \"/etc/passwd\"}}}}{{{{export g = 1}}}}", n, wd.g.pick(&["../secret.txt", "/etc/passwd", "a.txt"])).into_bytes()
                }
                f => format!("inside {} OF-FIRST", f).into_bytes(),
            };
            wd.fs.put(&under(&pl.real, f), &d);
        }
        if wd.g.chance(1, 3) {
            wd.fs.link(&under(&pl.real, "nowhere"), "sub/deep");
        }
        if wd.g.chance(1, 3) {
            wd.fs.link(&under(&pl.real, "sub/deep/up"), &pl.real);
        }
    }
    let mut pls = vec![pl.clone()];
    if !missing && wd.g.chance(1, 3) {
        // each is outside for the other
        let tw = gen_twin(&pl);
        for f in &inner {
            let d = if f == "img.png" { super::img::png(61, 62) } else { format!("inside {} OF-SECOND", f).into_bytes() };
            if !wd.g.chance(1, 8) {
                wd.fs.put(&under(&tw.real, f), &d);
            }
        }
        wd.fs.put(&under(&tw.real, "secret.txt"), b"OF-SECOND");
        pls.push(tw);
    }
    let before = wd.fs.snapshot();
    // changes inside, meanwhile
    for m in 0..wd.g.weighted(&[2, 2, 1]) {
        let mut q = VecDeque::new();
        for _ in 0..wd.g.range(1, 4) {
            q.push_back(match wd.g.below(6) {
                0 => FsOp::Remove(under(&pl.real, "sub/b.md")),
                1 => FsOp::Put(under(&pl.real, "a.txt"), b"inside, new".to_vec()),
                2 => FsOp::Mkdir(under(&pl.real, "nowhere2")),
                3 => FsOp::Rename(under(&pl.real, "sub/deep"), under(&pl.real, "moved")),
                4 => FsOp::RmTree(under(&pl.real, "in")),
                _ => FsOp::Put(under(&pl.real, "sub/m.md"), b"{{export a = 1}}".to_vec()),
            });
        }
        if !missing {
            wd.add_ent(Kind2::Mut(q), -1, false, format!("outside writer {}", m));
        }
    }
    let nc = 1 + wd.g.weighted(&[4, 1]);
    let mut bodies: Vec<Body> = vec![];
    for ci in 0..nc {
        let mut ops: Vec<(usize, &'static str, Via, Vec<TData>, Vec<String>)> = vec![];
        for _ in 0..wd.g.range(2, 7) {
            let at = wd.g.below(pls.len());
            let pl = &pls[at];
            let f = FUNCS[wd.g.weighted(&[4, 2, 3, 3, 3, 3, 2, 4])];
            let via = if wd.g.chance(1, 3) { Via::Tmpl } else { Via::Direct };
            let n = match f {
                "file" | "file_bytes" | "dir" | "is_file" | "is_dir" => 1 + wd.g.weighted(&[5, 2, 1]),
                _ => 1,
            };
            let paths: Vec<String> = (0..n).map(|_| gen_arg(pl, &inner)).collect();
            let mut args: Vec<TData> = paths.iter().map(|p| sd(p)).collect();
            let mut paths = paths;
            if wd.g.chance(1, 12) {
                // a path that is not a text: what counts is the text it is turned into
                let _o = off();
                let i = wd.g.below(n);
                let p = paths[i].clone();
                args[i] = match wd.g.below(6) {
                    0 => TData::Bytes(p.into_bytes()),
                    1 => TData::List(vec![sd(&p)]),
                    2 => TData::List(p.split('/').map(sd).collect()),
                    3 => TData::Map([("path".to_string(), sd(&p))].into_iter().collect()),
                    4 => TData::UInt(wd.g.below(9)),
                    _ => TData::Null,
                };
                paths[i] = args[i].to_string();
            }
            match f {
                "write" => args.push(sd("PLANTED")),
                "scan_dir" => {
                    args.push(TData::UInt(wd.g.below(5)));
                    if wd.g.chance(1, 4) {
                        args.push(sd(wd.g.pick(&["secret", ".*", "md$"])));
                    }
                }
                _ => {}
            }
            wd.desc.push(format!("client {}: {} {:?} in {}", ci, f, args, pl.real));
            ops.push((at, f, via, args, paths));
        }
        let pls = pls.clone();
        bodies.push(Box::new(move |c| {
            let fms: Vec<_> = {
                let _o = off();
                pls.iter().map(|pl| func_man::BasicFuncs::new().with_defaults().with_folder_lock(&pl.spell).with_write_lock(&pl.spell)).collect()
            };
            for (at, f, via, args, paths) in ops {
                let r = run_lib(c, || call(&fms[at], via, f, &args));
                let _o = off();
                judge(&pls[at], at, f, &args, &paths, &r);
            }
        }));
    }
    run_clients(bodies);
    // nothing outside has changed
    let c = ctx();
    let after = wd.fs.snapshot();
    for k in before.keys().chain(after.keys()) {
        if pls.iter().any(|pl| k.starts_with(&format!("{}/", pl.real)) || *k == pl.real) || (missing && pl.real.starts_with(&format!("{}/", k))) {
            continue;
        }
        c.check(before.get(k) == after.get(k), "outside_changed", || format!("{:?} outside {:?} changed: {:?} -> {:?}", k, pl.real, before.get(k).is_some(), after.get(k)));
    }
}
fn judge(pl: &Place, at: usize, f: &str, args: &[TData], paths: &[String], r: &Rec<TData>) {
    let cx = ctx();
    let what = format!("{} {:?} locked to {:?}", f, args, pl.spell);
    no_panic(r, &what);
    let base = format!("{}/", pl.real);
    for e in r.effects() {
        let inside = e.path == pl.real || e.path.starts_with(&base);
        let above = pl.real.starts_with(&format!("{}/", e.path.trim_end_matches('/')));
        let ok = match e.kind {
            EK::Console | EK::EnvR | EK::Resolve => true,
            EK::Stat | EK::Mkdir if f == "write" => inside || above,
            EK::Stat | EK::OpenR | EK::List => inside || e.path.starts_with("/proc/self/") || e.path.starts_with("/sys/fs/cgroup"),
            EK::OpenW | EK::Mkdir => inside && f == "write",
            _ => false,
        };
        cx.check(ok, "acted_outside", || format!("{}: {:?} of {:?} ({})", what, e.kind, e.path, if e.ok { "succeeded" } else { "failed" }));
    }
    let t = match &r.got {
        Got::Ok(TData::Bytes(b)) => String::from_utf8_lossy(b).to_string(),
        Got::Ok(v) => format!("{:?}", v),
        Got::Err(e) => e.clone(),
        _ => String::new(),
    };
    cx.check(!t.contains("SECRET") && !t.contains("UInt(77)") && !t.contains(["OF-SECOND", "OF-FIRST"][at]) && !(at == 0 && t.contains("UInt(61)")) && !(at == 1 && t.contains("UInt(3)")), "outside_content", || format!("{} gave {}", what, r.got.show()));
    for (i, p) in paths.iter().enumerate() {
        let out = ends_outside(pl, p) && lexical(&pl.spell, p).is_none();
        if out {
            cx.hit();
            let excused = match (f, &r.got) {
                // an earlier argument already settled the answer
                ("is_file" | "is_dir", Got::Ok(TData::Bool(false))) => i > 0,
                _ => false,
            };
            cx.check(r.got.is_err() || excused || matches!(r.got, Got::Panic(_)), "not_rejected", || format!("{}: {:?} leaves the folder, but the answer is {}", what, p, r.got.show()));
        }
        cx.state.insert(hash_state(&[f, &out.to_string(), r.got.kind(), &p.matches("..").count().to_string(), &p.starts_with('/').to_string()]));
    }
}
#[allow(unused)]
fn unused(_: Snap) {}
