//! In-memory file system of the simulated machine (inodes, symlinks, cwd, quota).
use std::collections::{BTreeMap, VecDeque};

pub type Ino = usize;
#[derive(Clone)]
pub enum Kind {
    File(Vec<u8>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
    Null,
    Fifo,
}
#[derive(Clone)]
pub struct Node {
    pub kind: Kind,
    pub parent: Ino, // directories only
    pub noaccess: bool,
}
#[derive(Clone)]
pub struct Fs {
    pub n: Vec<Node>,
    pub cwd: Ino,
    pub quota: Option<usize>, // bytes that can still be stored
}
pub const ROOT: Ino = 0;

/// Result of a path walk.
pub struct Walk {
    pub dir: Ino,            // directory that holds (or would hold) the last component
    pub name: Vec<u8>,       // last component; empty if the path ended in / . or ..
    pub ino: Option<Ino>,    // what it leads to, if it exists
    pub err: i32,            // 0, or the errno of the walk (ENOENT of the last component included)
    pub parent_ok: bool,     // all but the last component resolved
    pub canon: String,       // canonical absolute path, as far as it resolved (rest appended)
    pub trailing: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Snap {
    File(Vec<u8>),
    Dir,
    Link(Vec<u8>),
    Special,
}

impl Fs {
    pub fn new() -> Fs {
        let mut fs = Fs { n: vec![], cwd: ROOT, quota: None };
        fs.n.push(Node { kind: Kind::Dir(BTreeMap::new()), parent: ROOT, noaccess: false });
        fs.mkdirs("/dev");
        let d = fs.look("/dev").unwrap();
        let i = fs.add(Kind::Null, d);
        fs.dir_mut(d).insert(b"null".to_vec(), i);
        fs
    }
    pub fn add(&mut self, kind: Kind, parent: Ino) -> Ino {
        self.n.push(Node { kind, parent, noaccess: false });
        self.n.len() - 1
    }
    pub fn dir(&self, i: Ino) -> &BTreeMap<Vec<u8>, Ino> {
        match &self.n[i].kind {
            Kind::Dir(d) => d,
            _ => panic!("not a dir"),
        }
    }
    pub fn dir_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.n[i].kind {
            Kind::Dir(d) => d,
            _ => panic!("not a dir"),
        }
    }
    pub fn is_dir(&self, i: Ino) -> bool {
        matches!(self.n[i].kind, Kind::Dir(_))
    }
    pub fn is_link(&self, i: Ino) -> bool {
        matches!(self.n[i].kind, Kind::Link(_))
    }
    pub fn is_file(&self, i: Ino) -> bool {
        matches!(self.n[i].kind, Kind::File(_))
    }
    pub fn path_of(&self, mut i: Ino) -> String {
        let mut parts: Vec<String> = vec![];
        while i != ROOT {
            let p = self.n[i].parent;
            let name = self.dir(p).iter().find(|(_, v)| **v == i).map(|(k, _)| String::from_utf8_lossy(k).to_string());
            parts.push(name.unwrap_or_else(|| format!("?gone{}", i)));
            i = p;
        }
        parts.reverse();
        format!("/{}", parts.join("/"))
    }
    pub fn walk(&self, base: Ino, path: &[u8], follow_last: bool) -> Walk {
        let mut cur = if path.first() == Some(&b'/') { ROOT } else { base };
        let trailing = path.last() == Some(&b'/');
        let mut q: VecDeque<Vec<u8>> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
        let mk = |fs: &Fs, cur: Ino, name: Vec<u8>, ino: Option<Ino>, err: i32, pok: bool, rest: &VecDeque<Vec<u8>>| {
            let mut canon = fs.path_of(cur);
            let mut push = |c: &[u8]| {
                if !canon.ends_with('/') {
                    canon.push('/');
                }
                canon.push_str(&String::from_utf8_lossy(c));
            };
            if !name.is_empty() {
                push(&name);
            }
            for r in rest {
                push(r);
            }
            Walk { dir: cur, name, ino, err, parent_ok: pok, canon, trailing }
        };
        let none = VecDeque::new();
        if path.is_empty() {
            return mk(self, cur, vec![], None, libc::ENOENT, false, &none);
        }
        if path.len() >= 4096 {
            return mk(self, cur, vec![], None, libc::ENAMETOOLONG, false, &none);
        }
        let mut links = 0;
        while let Some(c) = q.pop_front() {
            if !self.is_dir(cur) {
                return mk(self, self.n[cur].parent, c, None, libc::ENOTDIR, false, &q);
            }
            if self.n[cur].noaccess {
                return mk(self, cur, c, None, libc::EACCES, false, &q);
            }
            if c == b"." {
                continue;
            }
            if c == b".." {
                cur = self.n[cur].parent;
                continue;
            }
            if c.len() > 255 {
                return mk(self, cur, c, None, libc::ENAMETOOLONG, false, &q);
            }
            let last = q.is_empty();
            match self.dir(cur).get(&c) {
                None => return mk(self, cur, c, None, libc::ENOENT, last, &q),
                Some(&i) => match &self.n[i].kind {
                    Kind::Link(t) if !last || follow_last || trailing => {
                        links += 1;
                        if links > 20 {
                            return mk(self, cur, c, None, libc::ELOOP, false, &q);
                        }
                        let mut comps: Vec<Vec<u8>> = t.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
                        if t.first() == Some(&b'/') {
                            cur = ROOT;
                        }
                        while let Some(x) = comps.pop() {
                            q.push_front(x);
                        }
                    }
                    Kind::Dir(_) => {
                        if last {
                            return mk(self, cur, c, Some(i), 0, true, &q);
                        }
                        cur = i;
                    }
                    _ => {
                        if last {
                            if trailing {
                                return mk(self, cur, c, None, libc::ENOTDIR, true, &q);
                            }
                            return mk(self, cur, c, Some(i), 0, true, &q);
                        }
                        q.push_front(c.clone());
                        let r = mk(self, cur, vec![], None, libc::ENOTDIR, false, &q);
                        return r;
                    }
                },
            }
        }
        mk(self, cur, vec![], Some(cur), 0, true, &none)
    }

    // ---- host-side helpers (absolute paths, no faults, no recording) ----
    pub fn look(&self, p: &str) -> Option<Ino> {
        self.walk(ROOT, p.as_bytes(), true).ino
    }
    pub fn mkdirs(&mut self, p: &str) -> Ino {
        let mut cur = ROOT;
        for c in p.split('/').filter(|c| !c.is_empty()) {
            let c = c.as_bytes().to_vec();
            cur = match self.dir(cur).get(&c) {
                Some(&i) => i,
                None => {
                    let i = self.add(Kind::Dir(BTreeMap::new()), cur);
                    self.dir_mut(cur).insert(c, i);
                    i
                }
            };
        }
        cur
    }
    fn split(p: &str) -> (&str, &[u8]) {
        let i = p.rfind('/').unwrap();
        (&p[..i], p[i + 1..].as_bytes())
    }
    /// create or replace by a new inode (atomic replacement)
    pub fn put(&mut self, p: &str, data: &[u8]) -> Ino {
        let (d, n) = Fs::split(p);
        let d = self.mkdirs(d);
        let i = self.add(Kind::File(data.to_vec()), d);
        self.dir_mut(d).insert(n.to_vec(), i);
        i
    }
    pub fn put_raw(&mut self, dir: &str, name: &[u8], data: &[u8]) {
        let d = self.mkdirs(dir);
        let i = self.add(Kind::File(data.to_vec()), d);
        self.dir_mut(d).insert(name.to_vec(), i);
    }
    pub fn link(&mut self, p: &str, target: &str) {
        let (d, n) = Fs::split(p);
        let d = self.mkdirs(d);
        let i = self.add(Kind::Link(target.as_bytes().to_vec()), d);
        self.dir_mut(d).insert(n.to_vec(), i);
    }
    /// a named pipe nobody writes to, or a character device
    pub fn special(&mut self, p: &str, fifo: bool) {
        let (d, n) = Fs::split(p);
        let d = self.mkdirs(d);
        let i = self.add(if fifo { Kind::Fifo } else { Kind::Null }, d);
        self.dir_mut(d).insert(n.to_vec(), i);
    }
    pub fn remove(&mut self, p: &str) {
        let (d, n) = Fs::split(p);
        if let Some(d) = self.look(if d.is_empty() { "/" } else { d }) {
            if self.is_dir(d) {
                self.dir_mut(d).remove(n);
            }
        }
    }
    /// overwrite in place (same inode); true if it existed as a file
    pub fn overwrite(&mut self, p: &str, data: &[u8]) -> bool {
        if let Some(i) = self.look(p) {
            if let Kind::File(f) = &mut self.n[i].kind {
                *f = data.to_vec();
                return true;
            }
        }
        false
    }
    pub fn read(&self, p: &str) -> Option<&[u8]> {
        match &self.n[self.look(p)?].kind {
            Kind::File(f) => Some(f),
            _ => None,
        }
    }
    pub fn snapshot(&self) -> BTreeMap<String, Snap> {
        let mut m = BTreeMap::new();
        self.snap(ROOT, "", &mut m);
        m
    }
    fn snap(&self, i: Ino, path: &str, m: &mut BTreeMap<String, Snap>) {
        for (k, &c) in self.dir(i) {
            let p = format!("{}/{}", path, match std::str::from_utf8(k) {
                Ok(s) => s.to_string(),
                Err(_) => k.iter().map(|b| if *b < 128 { (*b as char).to_string() } else { format!("\\x{:02x}", b) }).collect::<String>(),
            });
            match &self.n[c].kind {
                Kind::File(d) => {
                    m.insert(p, Snap::File(d.clone()));
                }
                Kind::Dir(_) => {
                    m.insert(p.clone(), Snap::Dir);
                    self.snap(c, &p, m);
                }
                Kind::Link(t) => {
                    m.insert(p, Snap::Link(t.clone()));
                }
                Kind::Null | Kind::Fifo => {
                    m.insert(p, Snap::Special);
                }
            }
        }
    }
}
