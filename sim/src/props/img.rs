//! Image dimensions (C20).
use super::files::under;
use super::util::*;
use crate::driver::*;
use crate::kernel::*;
use std::collections::VecDeque;
use templito::*;

fn crc(d: &[u8]) -> u32 {
    let mut c = 0xffffffffu32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}
fn chunk(out: &mut Vec<u8>, t: &[u8], d: &[u8]) {
    out.extend((d.len() as u32).to_be_bytes());
    let mut b = t.to_vec();
    b.extend(d);
    out.extend(&b);
    out.extend(crc(&b).to_be_bytes());
}
pub fn png(wi: u32, h: u32) -> Vec<u8> {
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut hd = vec![];
    hd.extend(wi.to_be_bytes());
    hd.extend(h.to_be_bytes());
    hd.extend([8, 0, 0, 0, 0]); // 8 bit grey
    chunk(&mut o, b"IHDR", &hd);
    let mut raw = vec![];
    for y in 0..h {
        raw.push(0);
        raw.extend((0..wi).map(|x| (x * 7 + y * 3) as u8));
    }
    let mut z = vec![0x78, 0x01];
    let mut it = raw.chunks(65535).peekable();
    while let Some(c) = it.next() {
        z.push(if it.peek().is_none() { 1 } else { 0 });
        z.extend((c.len() as u16).to_le_bytes());
        z.extend((!(c.len() as u16)).to_le_bytes());
        z.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in &raw {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    z.extend(((b << 16) | a).to_be_bytes());
    chunk(&mut o, b"IDAT", &z);
    chunk(&mut o, b"IEND", b"");
    o
}
/// the rows from the bottom up, or (height stored as negative) from the top down
pub fn bmp(wi: u32, h: u32, down: bool) -> Vec<u8> {
    let row = (wi * 3 + 3) / 4 * 4;
    let size = 54 + row * h;
    let mut o = b"BM".to_vec();
    o.extend(size.to_le_bytes());
    o.extend([0; 4]);
    o.extend(54u32.to_le_bytes());
    o.extend(40u32.to_le_bytes());
    o.extend(wi.to_le_bytes());
    o.extend(if down { (-(h as i32)).to_le_bytes() } else { (h as i32).to_le_bytes() });
    o.extend([1, 0, 24, 0]);
    o.extend(0u32.to_le_bytes());
    o.extend((row * h).to_le_bytes());
    o.extend([0; 16]);
    for y in 0..h {
        let mut r: Vec<u8> = (0..wi * 3).map(|x| (x + y) as u8).collect();
        r.resize(row as usize, 0);
        o.extend(r);
    }
    o
}
/// a screen of wi x h with one frame of fw x fh in its corner
pub fn gif(wi: u16, h: u16, fw: u16, fh: u16) -> Vec<u8> {
    let mut o = b"GIF89a".to_vec();
    o.extend(wi.to_le_bytes());
    o.extend(h.to_le_bytes());
    o.extend([0xf6, 0, 0]); // 128 colours
    for i in 0..128u8 {
        o.extend([i, i, i]);
    }
    o.push(0x2c);
    o.extend([0; 4]);
    o.extend(fw.to_le_bytes());
    o.extend(fh.to_le_bytes());
    o.push(0);
    o.push(7);
    // 8 bit codes, a clear code often enough that they never grow
    let mut codes: Vec<u8> = vec![];
    let n = fw as usize * fh as usize;
    for i in 0..n {
        if i % 100 == 0 {
            codes.push(128);
        }
        codes.push((i % 128) as u8);
    }
    codes.push(129);
    for c in codes.chunks(255) {
        o.push(c.len() as u8);
        o.extend(c);
    }
    o.push(0);
    o.push(0x3b);
    o
}
fn segment(o: &mut Vec<u8>, m: u8, d: &[u8]) {
    o.extend([0xff, m]);
    o.extend((d.len() as u16 + 2).to_be_bytes());
    o.extend(d);
}
/// a grey one; before the picture's own size there may be a comment, a
/// header and a thumbnail with a size of its own
pub fn jpeg(wi: u16, h: u16, jfif: bool, note: &[u8], thumb: Option<(u16, u16)>) -> Vec<u8> {
    let mut o = vec![0xff, 0xd8];
    if jfif {
        segment(&mut o, 0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
    }
    if let Some((a, b)) = thumb {
        let mut d = b"Exif\0\0".to_vec();
        d.extend(jpeg(a, b, false, b"", None));
        segment(&mut o, 0xe1, &d);
    }
    if !note.is_empty() {
        segment(&mut o, 0xfe, note);
    }
    let mut q = vec![0];
    q.extend([1; 64]);
    segment(&mut o, 0xdb, &q);
    let mut f = vec![8];
    f.extend(h.to_be_bytes());
    f.extend(wi.to_be_bytes());
    f.extend([1, 1, 0x11, 0]);
    segment(&mut o, 0xc0, &f);
    for class in [0u8, 0x10] {
        // one code: a single zero bit for "nothing (more)"
        let mut d = vec![class, 1];
        d.extend([0; 15]);
        d.push(0);
        segment(&mut o, 0xc4, &d);
    }
    segment(&mut o, 0xda, &[1, 1, 0, 0, 63, 0]);
    let bits = 2 * ((wi as usize + 7) / 8) * ((h as usize + 7) / 8);
    o.extend(vec![0; bits / 8]);
    if bits % 8 != 0 {
        o.push(0xff >> (bits % 8));
    }
    o.extend([0xff, 0xd9]);
    o
}
/// a picture of some format: bytes, dimensions, whole (not cut or damaged)
fn gen_img(kind: usize) -> (Vec<u8>, (u32, u32), bool) {
    let wd = w();
    let d = |_: ()| -> u32 {
        let wd = w();
        [1 + wd.g.below(8) as u32, 1 + wd.g.below(40) as u32, 255 + wd.g.below(4) as u32, 300 + wd.g.below(40) as u32][wd.g.weighted(&[4, 4, 1, 1])]
    };
    let (wi, h) = (d(()), d(()));
    let mut mark = None;
    let mut v = match kind {
        0 => png(wi, h),
        1 => bmp(wi, h, wd.g.chance(1, 4)),
        2 => {
            let (fw, fh) = if wd.g.chance(1, 3) { (1 + wd.g.below(wi as usize) as u32, 1 + wd.g.below(h as usize) as u32) } else { (wi, h) };
            gif(wi as u16, h as u16, fw as u16, fh as u16)
        }
        _ => {
            let thumb = if wd.g.chance(1, 3) { Some((1 + wd.g.below(30) as u16, 1 + wd.g.below(30) as u16)) } else { None };
            let note = vec![b'n'; if wd.g.chance(1, 3) { wd.g.range(1, 9000) } else { 0 }];
            let jfif = wd.g.chance(1, 2);
            if thumb.is_none() && wd.g.chance(1, 8) {
                mark = Some(2 + if jfif { 18 } else { 0 });
            }
            jpeg(wi as u16, h as u16, jfif, &note, thumb)
        }
    };
    let mut whole = true;
    if let Some(m) = mark {
        // no marker where one has to be
        v[m] = 0x11;
        whole = false;
    } else if wd.g.chance(1, 5) {
        let n = if wd.g.chance(1, 2) { wd.g.below(60.min(v.len())) } else { wd.g.below(v.len()) };
        v.truncate(n);
        whole = false;
    }
    (v, (wi, h), whole)
}
const EXT: [&str; 4] = ["png", "bmp", "gif", "jpg"];

pub fn c20(_c: &mut Ctx) {
    let wd = w();
    wd.configure(&[F::Open, F::Read, F::Stat], &BENIGN, 3);
    let pl = gen_place();
    // for every path: contents over time, as (moment of the change, dimensions, whole)
    let n = wd.g.range(1, 3);
    let mut files: Vec<(String, usize)> = vec![];
    let vers: Sh<Vec<(String, Vec<u8>, (u32, u32), bool)>> = Sh::new(vec![]);
    for i in 0..n {
        let k = wd.g.below(4);
        let (v, dim, whole) = gen_img(k);
        let f = format!("{}i{}.{}", ["", "sub/", "ü "][wd.g.below(3)], i, if wd.g.chance(1, 8) { *wd.g.pick(&["png", "jpeg", "gif", "txt", "PNG", "bmp"]) } else { EXT[k] });
        wd.desc.push(format!("{}: {}x{}, {} bytes{}", f, dim.0, dim.1, v.len(), if whole { "" } else { " (cut)" }));
        wd.fs.put(&under(&pl.real, &f), &v);
        vers.get().push((under(&pl.real, &f), v, dim, whole));
        files.push((f, k));
    }
    wd.fs.put(&under(&pl.real, "text.png"), b"this is no picture");
    let mut pls = vec![pl.clone()];
    if wd.g.chance(1, 3) {
        let tw = gen_twin(&pl);
        for (f, k) in &files {
            let (v, dim, whole) = gen_img(*k);
            wd.desc.push(format!("{} in the second folder: {}x{}{}", f, dim.0, dim.1, if whole { "" } else { " (cut)" }));
            wd.fs.put(&under(&tw.real, f), &v);
            vers.get().push((under(&tw.real, f), v, dim, whole));
        }
        pls.push(tw);
    }
    let hist = Sh::new(Hist::start());
    for m in 0..wd.g.weighted(&[3, 2]) {
        let mut q = VecDeque::new();
        for _ in 0..wd.g.range(1, 3) {
            let (f, mut k) = wd.g.pick(&files).clone();
            if wd.g.chance(1, 8) {
                // another format under the old name
                k = wd.g.below(4);
            }
            let (v, dim, whole) = gen_img(k);
            let p = under(&wd.g.pick(&pls).real, &f);
            wd.desc.push(format!("outside writer {}: {} becomes {}x{}{}", m, p, dim.0, dim.1, if whole { "" } else { " (cut)" }));
            vers.get().push((p.clone(), v.clone(), dim, whole));
            q.push_back(FsOp::Put(p, v));
        }
        wd.add_ent(Kind2::Mut(q), -1, false, format!("outside writer {}", m));
    }
    let mut ops: Vec<(usize, bool, Via, String)> = vec![];
    for _ in 0..wd.g.range(2, 5) {
        let f = if wd.g.chance(1, 12) { wd.g.pick(&["text.png", "none.png"]).to_string() } else { wd.g.pick(&files).0.clone() };
        let via = if wd.g.chance(1, 4) { Via::Tmpl } else { Via::Direct };
        if wd.g.chance(1, 3) {
            // both variants, one after the other
            let at = wd.g.below(pls.len());
            ops.push((at, false, via, f.clone()));
            ops.push((at, true, via, f));
        } else {
            ops.push((wd.g.below(pls.len()), wd.g.chance(1, 2), via, f));
        }
    }
    wd.desc.push(format!("asked for {:?}", ops));
    run_clients(vec![Box::new(move |c| {
        let fms: Vec<_> = {
            let _o = off();
            pls.iter().map(|p| (p.funcs(true), p.funcs(false))).collect()
        };
        for (at, locked, via, f) in ops {
            let (pl2, fl, ff) = (&pls[at], &fms[at].0, &fms[at].1);
            let arg = {
                let _o = off();
                pl2.arg(locked, &f)
            };
            let eintr = w().fired[F::EintrRead as usize];
            let r = run_lib(c, || call(if locked { fl } else { ff }, via, "file_img_dimensions", &[sd(&arg)]));
            let _o = off();
            let what = format!("{} file_img_dimensions {:?}", if locked { "locked" } else { "free" }, arg);
            no_panic(&r, &what);
            hist.get().absorb();
            let p = under(&pl2.real, &f);
            // the contents the file had meanwhile
            let cand: Vec<&(String, Vec<u8>, (u32, u32), bool)> = hist.get().versions(&p, r.b, r.e).iter().flatten().filter_map(|v| vers.get().iter().find(|x| x.0 == p && x.1 == *v)).collect();
            let cx = ctx();
            match &r.got {
                Got::Ok(TData::Map(m)) => {
                    let g = |k: &str| match m.get(k) {
                        Some(TData::UInt(n)) => *n as u32,
                        _ => 0,
                    };
                    let d = (g("w"), g("h"));
                    cx.check(m.len() == 2 && cand.iter().any(|x| x.2 == d), "wrong_dimensions", || format!("{} gave {}, but the file holds {:?}", what, r.got.show(), cand.iter().map(|x| (x.2, x.3)).collect::<Vec<_>>()));
                    cx.hit();
                    if cand.iter().any(|x| !x.3) {
                        w().probe("dimensions of a cut picture");
                    }
                    cx.state.insert(hash_state(&["ok", &d.0.to_string(), &d.1.to_string(), &locked.to_string()]));
                }
                Got::Ok(v) => cx.fail("wrong_kind", format!("{} gave {:?}", what, v)),
                Got::Err(e) => {
                    // the decoders do not try again after an interrupted read
                    cx.check(r.end.hard > 0 || w().fired[F::EintrRead as usize] > eintr || cand.is_empty() || cand.iter().any(|x| !x.3), "failed_without_cause", || format!("{} failed: {}", what, e));
                    cx.state.insert(hash_state(&["err", &cand.len().to_string(), &r.end.hard.min(2).to_string(), &locked.to_string()]));
                    if cand.iter().any(|x| !x.3) {
                        w().probe("cut picture refused");
                    }
                }
                _ => {}
            }
        }
    })]);
}
