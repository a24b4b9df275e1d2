//! The simulated machine: scheduler, descriptors, pipes, child processes, environment, faults.
//! All of it is only ever touched by the one thread that holds the baton.
use crate::fs::*;
use crate::tape::*;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering::*};

// ------------------------------------------------------------------ thread identity
thread_local! { static ME: Cell<i32> = const { Cell::new(-1) }; }
pub fn me() -> i32 {
    ME.with(|m| m.get())
}
pub fn set_me(v: i32) {
    ME.with(|m| m.set(v))
}
/// While alive, calls made by this thread go to the real libc.
pub struct Off(i32);
pub fn off() -> Off {
    let v = me();
    set_me(-1);
    Off(v)
}
impl Drop for Off {
    fn drop(&mut self) {
        set_me(self.0)
    }
}

pub static mut WORLD: *mut World = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}

// ------------------------------------------------------------------ raw system calls for the harness
pub unsafe fn raw(n: i64, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(libc::SYS_exit_group, [code as usize, 0, 0, 0, 0, 0]);
    }
    loop {}
}
fn park(a: &AtomicU32) {
    while a.load(Acquire) == 0 {
        unsafe {
            raw(libc::SYS_futex, [a as *const _ as usize, libc::FUTEX_WAIT as usize | 128, 0, 0, 0, 0]);
        }
    }
    a.store(0, Release);
}
fn unpark(a: &AtomicU32) {
    a.store(1, Release);
    unsafe {
        raw(libc::SYS_futex, [a as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0]);
    }
}

// ------------------------------------------------------------------ faults
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum F {
    ShortRead, EintrRead, ShortWrite, EintrWrite, EintrOpen, EintrPoll, EintrWait, DtUnknown, SizeLie, EintrRandom, Clock,
    Open, Read, Stat, OpenDir, ReadDir, Mkdir, Write, Spawn, Pipe, Wait, Thread, Console, Sync,
}
pub const NF: usize = 24;
pub const FNAMES: [&str; NF] = [
    "short_read", "eintr_read", "short_write", "eintr_write", "eintr_open", "eintr_poll", "eintr_wait", "dirent_type_unknown",
    "stat_size_wrong", "eintr_getrandom", "clock_jump", "open_error", "read_error", "stat_error", "opendir_error", "readdir_error", "mkdir_error",
    "write_error", "spawn_error", "pipe_error", "waitpid_error", "thread_create_error", "console_error", "sync_error",
];
pub const BENIGN: [F; 11] = [F::ShortRead, F::EintrRead, F::ShortWrite, F::EintrWrite, F::EintrOpen, F::EintrPoll, F::EintrWait, F::DtUnknown, F::SizeLie, F::EintrRandom, F::Clock];
pub const HARD_FILES: [F; 7] = [F::Open, F::Read, F::Stat, F::OpenDir, F::ReadDir, F::Mkdir, F::Write];
pub const HARD_PROC: [F; 7] = [F::Open, F::Spawn, F::Pipe, F::Wait, F::Thread, F::Read, F::Write];
pub fn is_hard(k: F) -> bool {
    (k as usize) >= (F::Open as usize)
}

// ------------------------------------------------------------------ entities
pub enum Wait {
    PipeR(usize),
    PipeW(usize),
    Poll(Vec<(i32, i16)>),
    Futex(usize),
    Child(i32),
    Join(usize),
    Clients,
    Never,
}
pub enum St {
    Ready,
    Blocked(Wait),
    Done,
}
pub enum Kind2 {
    Thread(Box<AtomicU32>),
    Proc(usize),
    Mut(VecDeque<FsOp>),
}
pub struct Ent {
    pub kind: Kind2,
    pub client: i32,
    pub helper: bool,
    pub st: St,
    pub deadline: Option<u64>,
    pub woken: bool,
    pub prio: u64,
    pub name: String,
    pub pt: u64,
    pub detached: bool,
}

#[derive(Clone, Debug)]
pub enum FsOp {
    Put(String, Vec<u8>),       // create, or atomically replace by a new file
    Overwrite(String, Vec<u8>), // truncate + write in place, in one step
    Trunc(String),
    Append(String, Vec<u8>),
    Remove(String),
    Mkdir(String),
    RmTree(String),
    Rename(String, String),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Act {
    ReadAll,            // read stdin to its end
    ReadN(usize),
    Out(Vec<u8>),
    ErrOut(Vec<u8>),
    Echo(usize),        // copy stdin to stdout through a buffer of this size, until end of input
    OutIn,              // write everything read so far to stdout
    OutArgs,            // write the arguments, length-prefixed, to stdout
    OutEnv,             // write the environment, one variable after the other, to stdout
    OutCwd,             // write the working directory to stdout
    CloseIn,
    CloseOut,
    Sleep(u64),
    Nop,
    Exit(i32),
    Kill(i32),
}

/// How a command prints its environment.
pub fn env_text(vars: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vars.to_vec();
    v.sort();
    let mut d = vec![];
    for x in v {
        d.extend(x.iter().map(|b| if *b < 0x80 { *b } else { b'?' }));
        d.push(b';');
    }
    d
}

pub struct Proc {
    pub pid: i32,
    pub fds: BTreeMap<i32, usize>,
    pub argv: Vec<Vec<u8>>,
    pub script: VecDeque<Act>,
    pub got: Vec<u8>,
    pub out_pos: usize,
    pub saw_eof: bool,
    pub status: Option<i32>,
    pub reaped: bool,
    pub client: i32,
    pub op: u32,
    pub buf: Vec<u8>,
    pub cwd: String,
    pub env: Vec<Vec<u8>>,
    pub out_written: usize,
}
#[derive(Clone)]
pub struct Program {
    pub script: Vec<Act>,
}

// ------------------------------------------------------------------ descriptors
#[derive(Debug)]
pub enum Of {
    File { ino: Ino, pos: usize, append: bool, r: bool, w: bool },
    Dir { ino: Ino },
    PipeR(usize),
    PipeW(usize),
    Null,
    Console(i32),
    Rand,
    Free,
}
pub struct Ofd {
    pub of: Of,
    pub rc: usize,
    pub nonblock: bool,
}
pub struct Fd {
    pub ofd: usize,
    pub cloexec: bool,
    pub client: i32,
    pub op: u32,
    pub what: String,
}
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
}
pub struct DirS {
    pub fd: i32,
    pub ino: Ino,
    pub names: VecDeque<(Vec<u8>, Ino)>,
    pub ent: Box<libc::dirent64>,
    pub open: bool,
    pub canon: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum EK {
    Stat, OpenR, OpenW, List, Mkdir, Unlink, Rename, Link, Meta, Spawn, EnvR, EnvW, Console, Resolve, Chdir, Kill, Other,
}
#[derive(Clone, Debug)]
pub struct Eff {
    pub client: i32,
    pub op: u32,
    pub kind: EK,
    pub path: String,
    pub ok: bool,
    pub seq: u64,
}

pub struct World {
    pub g: Tape,
    pub s: Tape,
    pub f: Tape,
    pub fs: Fs,
    pub fds: BTreeMap<i32, Fd>,
    pub ofds: Vec<Ofd>,
    pub pipes: Vec<Pipe>,
    pub pipe_cap: usize,
    pub dirs: Vec<DirS>,
    pub ents: Vec<Ent>,
    pub procs: Vec<Proc>,
    pub programs: BTreeMap<Vec<u8>, Program>,
    pub next_pid: i32,
    pub env: BTreeMap<Vec<u8>, Vec<u8>>,
    pub env_block: Vec<*mut libc::c_char>,
    pub env_log: Vec<(u64, Vec<u8>, Option<Vec<u8>>)>,
    pub now: u64,
    pub t0: u64,
    pub entropy: Rng,
    pub entropy_mode: u8,
    pub entropy_ctr: u64,
    pub seq: u64,
    pub steps: u64,
    /// a scheduling point at about every n-th memory allocation of a client or helper (0 = none)
    pub alloc_every: usize,
    pub alloc_left: usize,
    /// a scheduling point at about every n-th edge of the library's control flow (0 = none)
    pub edge_every: usize,
    pub edge_left: usize,
    pub edge_points: usize,
    pub edges: u64,
    pub limit: u64,
    /// faults have stopped for good, to see whether the run then ends
    pub calm: bool,
    pub sticky: bool,
    pub same_errno: Option<u64>, // hard faults go on for ever
    pub edges_begin: u64,
    pub ev_hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub multi: u64,
    pub rates: [u16; NF],
    pub hard_left: u32,
    pub fired: [u32; NF],
    pub fault_on: bool,
    pub fixed_order: bool,
    pub quiet: std::collections::BTreeSet<i32>, // clients that meet no faults for now
    pub op_hard: Vec<u32>,
    pub op_id: Vec<u32>,
    pub cur_hard_log: Vec<(i32, u32, F, u64)>,
    pub eff: Vec<Eff>,
    pub console: [Vec<u8>; 3],
    pub console_mode: [u8; 3],
    pub mode: u8,
    pub nclients: usize,
    pub live_clients: usize,
    pub crash_at: Option<u64>,
    pub client_points: u64,
    pub crashed: bool,
    pub trace: bool,
    pub log: Vec<String>,
    pub muts_done: Vec<(u64, FsOp)>,
    pub probes: BTreeMap<&'static str, u64>,
    pub prio_ctr: u64,
    pub pct_points: Vec<u64>,
    pub sigchld_ignored: bool,
    pub desc: Vec<String>,
    pub fatal: Option<fn(&'static str, String) -> !>,
    pub panics: Vec<(i32, String)>,
    pub helper_panics: Vec<String>,
    pub dead: bool,
    pub keep_snaps: bool,
    pub snaps: Vec<(u64, BTreeMap<String, Snap>)>,
}

#[allow(static_mut_refs)]
pub fn install(g: Tape, s: Tape, f: Tape, trace: bool) {
    let mut fs = Fs::new();
    let d = fs.look("/dev").unwrap();
    let _ = d;
    let mut wd = World {
        g, s, f, fs,
        fds: BTreeMap::new(),
        ofds: vec![],
        pipes: vec![],
        pipe_cap: 65536,
        dirs: vec![],
        ents: vec![],
        procs: vec![],
        programs: BTreeMap::new(),
        next_pid: 5000,
        env: BTreeMap::new(),
        env_block: vec![std::ptr::null_mut()],
        env_log: vec![],
        now: 1_000_000_000_000,
        t0: 1_000_000_000_000,
        entropy: Rng(0),
        entropy_mode: 0,
        entropy_ctr: 0,
        seq: 0,
        steps: 0,
        alloc_every: 0,
        alloc_left: 0,
        edge_every: 0,
        edge_left: 0,
        edge_points: 0,
        edges: 0,
        limit: 150_000,
        calm: false,
        sticky: false,
            same_errno: None,
        edges_begin: 0,
        ev_hash: 0xcbf29ce484222325,
        sched_hash: 0x1234567,
        switches: 0,
        multi: 0,
        rates: [0; NF],
        hard_left: 0,
        fired: [0; NF],
        fault_on: false,
        fixed_order: false,
        quiet: Default::default(),
        op_hard: vec![],
        op_id: vec![],
        cur_hard_log: vec![],
        eff: vec![],
        console: [vec![], vec![], vec![]],
        console_mode: [0; 3],
        mode: 0,
        nclients: 0,
        live_clients: 0,
        crash_at: None,
        client_points: 0,
        crashed: false,
        trace,
        log: vec![],
        muts_done: vec![],
        probes: BTreeMap::new(),
        prio_ctr: 1 << 40,
        pct_points: vec![],
        sigchld_ignored: false,
        desc: vec![],
        fatal: None,
        panics: vec![],
        helper_panics: vec![],
        dead: false,
        keep_snaps: false,
        snaps: vec![],
    };
    for i in 0..3 {
        wd.ofds.push(Ofd { of: Of::Console(i), rc: 1, nonblock: false });
        wd.fds.insert(i, Fd { ofd: i as usize, cloexec: false, client: -1, op: 0, what: "std".into() });
    }
    // entity 0: the harness thread
    wd.ents.push(Ent { kind: Kind2::Thread(Box::new(AtomicU32::new(0))), client: -1, helper: false, st: St::Ready, deadline: None, woken: false, prio: 0, name: "main".into(), pt: 0, detached: false });
    unsafe {
        WORLD = Box::into_raw(Box::new(wd));
    }
}

impl World {
    // -------------------------------------------------------------- log
    pub fn ev<T: Fn() -> String>(&mut self, tag: u64, a: u64, b: u64, t: T) {
        self.seq += 1;
        let mut h = self.ev_hash;
        for v in [tag, a, b, self.seq] {
            h = (h ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        self.ev_hash = h;
        if self.trace {
            let s = format!("{:>5} t={} E{} {}", self.seq, self.now - self.t0, self.edges, t());
            self.log.push(s);
        }
    }
    pub fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_insert(0) += 1;
    }
    pub fn client_of(&self, e: usize) -> i32 {
        self.ents[e].client
    }
    /// which error a fault is; one that does not stop may always be the same
    pub fn errno(&mut self, k: F, l: &[i32]) -> i32 {
        match self.same_errno {
            Some(x) => l[(crate::tape::mix(x, k as u64) % l.len() as u64) as usize],
            None => l[self.f.below(l.len())],
        }
    }
    pub fn fault(&mut self, e: usize, k: F) -> bool {
        if !self.fault_on || self.calm && !(self.sticky && is_hard(k)) {
            return false;
        }
        let r = self.rates[k as usize] as usize;
        if r == 0 || (is_hard(k) && self.hard_left == 0) {
            return false;
        }
        if !self.quiet.is_empty() && self.quiet.contains(&self.client_of(e)) {
            return false;
        }
        if !self.f.permille(r) {
            return false;
        }
        self.fired[k as usize] += 1;
        if is_hard(k) {
            self.hard_left -= 1;
            let c = self.client_of(e);
            if c >= 0 {
                self.op_hard[c as usize] += 1;
                let op = self.op_id[c as usize];
                let s = self.seq;
                self.cur_hard_log.push((c, op, k, s));
            }
        }
        self.ev(900 + k as u64, e as u64, 0, || format!("FAULT {} (entity {})", FNAMES[k as usize], e));
        true
    }
    pub fn effect(&mut self, e: usize, kind: EK, path: String, ok: bool) {
        let client = self.client_of(e);
        let op = if client >= 0 { self.op_id[client as usize] } else { 0 };
        let h = hash_str(&path);
        let seq = self.seq;
        self.eff.push(Eff { client, op, kind, path, ok, seq });
        let n = self.eff.len() - 1;
        self.seq += 0;
        let mut x = self.ev_hash;
        x = (x ^ h ^ (kind as u64)).wrapping_mul(0x100000001b3).rotate_left(11);
        self.ev_hash = x;
        if self.trace {
            let l = format!("      effect {:?} {} {} (client {})", self.eff[n].kind, self.eff[n].path, if ok { "ok" } else { "failed" }, client);
            self.log.push(l);
        }
    }

    // -------------------------------------------------------------- descriptors
    pub fn new_ofd(&mut self, of: Of) -> usize {
        self.ofds.push(Ofd { of, rc: 0, nonblock: false });
        self.ofds.len() - 1
    }
    pub fn new_fd(&mut self, e: usize, ofd: usize, cloexec: bool, what: String) -> i32 {
        let mut n = 1000;
        while self.fds.contains_key(&n) {
            n += 1;
        }
        self.put_fd(e, n, ofd, cloexec, what);
        n
    }
    pub fn put_fd(&mut self, e: usize, n: i32, ofd: usize, cloexec: bool, what: String) {
        let client = self.client_of(e);
        let op = if client >= 0 { self.op_id[client as usize] } else { 0 };
        self.ofds[ofd].rc += 1;
        if let Some(old) = self.fds.insert(n, Fd { ofd, cloexec, client, op, what }) {
            self.drop_ofd(old.ofd);
        }
    }
    pub fn drop_ofd(&mut self, o: usize) {
        self.ofds[o].rc -= 1;
        if self.ofds[o].rc == 0 {
            self.ofds[o].of = Of::Free;
        }
    }
    pub fn close_fd(&mut self, n: i32) -> bool {
        match self.fds.remove(&n) {
            Some(f) => {
                self.drop_ofd(f.ofd);
                true
            }
            None => false,
        }
    }
    pub fn writers(&self, p: usize) -> bool {
        self.ofds.iter().any(|o| matches!(o.of, Of::PipeW(q) if q == p))
    }
    pub fn readers(&self, p: usize) -> bool {
        self.ofds.iter().any(|o| matches!(o.of, Of::PipeR(q) if q == p))
    }
    pub fn poll_rev(&self, fd: i32, ev: i16) -> i16 {
        let f = match self.fds.get(&fd) {
            None => return libc::POLLNVAL,
            Some(f) => f,
        };
        match self.ofds[f.ofd].of {
            Of::PipeR(p) => {
                let mut r = 0;
                if !self.pipes[p].buf.is_empty() {
                    r |= libc::POLLIN;
                }
                if !self.writers(p) {
                    r |= libc::POLLHUP;
                }
                r & (ev | libc::POLLHUP)
            }
            Of::PipeW(p) => {
                let mut r = 0;
                if !self.readers(p) {
                    r |= libc::POLLERR;
                }
                if self.pipes[p].buf.len() < self.pipes[p].cap {
                    r |= libc::POLLOUT;
                }
                r & (ev | libc::POLLERR)
            }
            _ => ev & (libc::POLLIN | libc::POLLOUT),
        }
    }

    // -------------------------------------------------------------- scheduling
    fn cond(&self, wt: &Wait, woken: bool) -> bool {
        match wt {
            Wait::PipeR(p) => !self.pipes[*p].buf.is_empty() || !self.writers(*p),
            Wait::PipeW(p) => self.pipes[*p].buf.len() < self.pipes[*p].cap || !self.readers(*p),
            Wait::Poll(v) => v.iter().any(|(fd, ev)| self.poll_rev(*fd, *ev) != 0),
            Wait::Futex(_) => woken,
            Wait::Child(pid) => {
                if *pid == -1 {
                    self.procs.iter().any(|p| p.status.is_some() && !p.reaped)
                } else {
                    self.procs.iter().any(|p| p.pid == *pid && p.status.is_some())
                }
            }
            Wait::Join(e) => matches!(self.ents[*e].st, St::Done),
            Wait::Clients => self.live_clients == 0,
            Wait::Never => false,
        }
    }
    fn runnable(&self, i: usize) -> bool {
        let e = &self.ents[i];
        match &e.st {
            St::Done => false,
            St::Ready => true,
            St::Blocked(wt) => self.cond(wt, e.woken) || e.deadline.map(|d| d <= self.now).unwrap_or(false),
        }
    }
    fn is_thread(&self, i: usize) -> bool {
        matches!(self.ents[i].kind, Kind2::Thread(_))
    }
    fn choose(&mut self, cur: usize, run: &[usize]) -> usize {
        if run.len() == 1 {
            return run[0];
        }
        self.multi += 1;
        let curin = run.contains(&cur);
        // choice 0 = stay with the current entity, else lowest id
        let mut order: Vec<usize> = vec![];
        if curin {
            order.push(cur);
        }
        order.extend(run.iter().copied().filter(|r| *r != cur));
        let pick = match self.mode {
            0 => 0,
            1 => self.s.below(order.len()),
            2 => {
                if self.s.permille(200) {
                    self.s.below(order.len())
                } else {
                    0
                }
            }
            3 => {
                // PCT: highest priority runs; at change points the running one drops to the bottom
                if curin && self.pct_points.contains(&self.steps) {
                    self.prio_ctr -= 1;
                    self.ents[cur].prio = self.prio_ctr - (1 << 39);
                }
                let mut best = 0;
                for (i, e) in order.iter().enumerate() {
                    if self.ents[*e].prio > self.ents[order[best]].prio {
                        best = i;
                    }
                }
                best
            }
            4 => {
                // everyone else (child processes, mutators) first, as far as they get
                let v: Vec<usize> = (0..order.len()).filter(|i| !self.is_thread(order[*i])).collect();
                if v.is_empty() {
                    self.s.below(order.len())
                } else {
                    v[self.s.below(v.len())]
                }
            }
            _ => {
                let v: Vec<usize> = (0..order.len()).filter(|i| self.is_thread(order[*i])).collect();
                if v.is_empty() {
                    self.s.below(order.len())
                } else {
                    v[self.s.below(v.len())]
                }
            }
        };
        order[pick]
    }
    pub fn add_ent(&mut self, kind: Kind2, client: i32, helper: bool, name: String) -> usize {
        let prio = if self.mode == 3 { (1 << 40) + self.s.below(1 << 20) as u64 } else { 0 };
        self.ents.push(Ent { kind, client, helper, st: St::Ready, deadline: None, woken: false, prio, name, pt: 0, detached: false });
        self.ents.len() - 1
    }
    /// Decide who runs next. Returns when `cur` may run again (or at once for an ending thread).
    fn resched(&mut self, cur: usize, ending: bool) {
        loop {
            let mut run: Vec<usize> = vec![];
            for i in 0..self.ents.len() {
                if self.runnable(i) {
                    run.push(i);
                }
            }
            if self.dead {
                // the run is over: only the harness thread may go on
                run.retain(|i| *i == 0);
            }
            // the harness thread only waits for the clients: it goes first once they are done
            if run.contains(&0) && cur != 0 {
                run = vec![0];
            }
            if run.is_empty() {
                let next = (0..self.ents.len()).filter(|i| !matches!(self.ents[*i].st, St::Done)).filter_map(|i| self.ents[i].deadline).filter(|d| *d > self.now).min();
                match next {
                    Some(t) => {
                        self.now = t;
                        continue;
                    }
                    None => {
                        let s: Vec<String> = (1..self.ents.len())
                            .filter_map(|i| match &self.ents[i].st {
                                St::Blocked(b) => Some(format!("{} waits for {}", self.ents[i].name, wname(b))),
                                _ => None,
                            })
                            .collect();
                        (self.fatal.unwrap())("deadlock", s.join("; "));
                    }
                }
            }
            let nx = self.choose(cur, &run);
            if nx != cur {
                self.switches += 1;
            }
            if run.len() > 1 {
                self.sched_hash = (self.sched_hash ^ (nx as u64 + 1)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(7);
            }
            self.steps += 1;
            if self.steps > self.limit && !self.calm {
                // no more faults, fair scheduling, roomy pipes: from here it has to end
                self.calm = true;
                self.mode = 1;
                self.limit += 400_000;
                self.pipe_cap = self.pipe_cap.max(65536);
                for p in &mut self.pipes {
                    p.cap = p.cap.max(65536);
                }
                self.probe("faults_stopped_late");
                self.ev(9, 0, 0, || "faults stop for good".to_string());
            }
            if self.steps > self.limit {
                let n = self.ents[nx].name.clone();
                (self.fatal.unwrap())("livelock", format!("no end after {} scheduling steps, the last 400000 {}; running {}", self.limit, if self.sticky { "with no faults but the lasting ones" } else { "without faults" }, n));
            }
            match &self.ents[nx].kind {
                Kind2::Thread(_) => {
                    self.ents[nx].st = St::Ready;
                    if nx == cur && !ending {
                        return;
                    }
                    self.ents[nx].deadline = self.ents[nx].deadline; // kept: the waiter inspects it
                    if let Kind2::Thread(b) = &self.ents[nx].kind {
                        unpark(b);
                    }
                    if ending {
                        return;
                    }
                    let me: *const AtomicU32 = match &self.ents[cur].kind {
                        Kind2::Thread(b) => &**b,
                        _ => unreachable!(),
                    };
                    park(unsafe { &*me });
                    return;
                }
                Kind2::Proc(_) => self.proc_step(nx),
                Kind2::Mut(_) => self.mut_step(nx),
            }
        }
    }
    /// A scheduling point of thread `e`.
    pub fn point(&mut self, e: usize) {
        if self.ents[e].client >= 0 {
            self.client_points += 1;
            if Some(self.client_points) == self.crash_at && !self.crashed {
                self.crashed = true;
                self.dead = true;
                self.live_clients = 0;
                self.ev(7, e as u64, 0, || "CRASH of the whole process".to_string());
                self.ents[e].st = St::Blocked(Wait::Never);
                self.resched(e, false);
                unreachable!();
            }
        }
        self.resched(e, false);
    }
    /// Block `e` until the condition holds; false if the deadline came first.
    pub fn block(&mut self, e: usize, wt: Wait, deadline: Option<u64>) -> bool {
        self.ents[e].woken = false;
        if self.cond(&wt, false) {
            return true;
        }
        self.ents[e].deadline = deadline;
        self.ents[e].st = St::Blocked(wt);
        // re-evaluated by resched; the condition may have become false again before we run
        self.resched(e, false);
        let d = self.ents[e].deadline.take();
        match d {
            Some(t) => t > self.now || self.ents[e].woken,
            None => true,
        }
    }
    pub fn finish(&mut self, e: usize) {
        self.ents[e].st = St::Done;
        if !self.ents[e].helper && self.ents[e].client >= 0 {
            self.live_clients -= 1;
        }
        self.ev(8, e as u64, 0, || format!("thread {} ends", e));
        self.resched(e, true);
    }

    // -------------------------------------------------------------- pipes, shared by threads and programs
    /// Some(n) bytes moved, None = would block, Err = no reader
    pub fn pipe_put(&mut self, p: usize, d: &[u8]) -> Result<usize, ()> {
        if !self.readers(p) {
            return Err(());
        }
        let room = self.pipes[p].cap - self.pipes[p].buf.len().min(self.pipes[p].cap);
        let n = room.min(d.len());
        self.pipes[p].buf.extend(&d[..n]);
        Ok(n)
    }

    // -------------------------------------------------------------- child processes
    fn end_proc(&mut self, pi: usize, ei: usize, status: i32) {
        let fds = std::mem::take(&mut self.procs[pi].fds);
        for (_, o) in fds {
            self.drop_ofd(o);
        }
        self.procs[pi].status = Some(status);
        if self.sigchld_ignored {
            self.procs[pi].reaped = true;
        }
        self.ents[ei].st = St::Done;
        let pid = self.procs[pi].pid;
        self.ev(20, pid as u64, status as u64, || format!("child {} ends with status {:#x}", pid, status));
    }
    pub fn kill_proc(&mut self, pid: i32, sig: i32) -> bool {
        for i in 0..self.ents.len() {
            if let Kind2::Proc(pi) = self.ents[i].kind {
                if self.procs[pi].pid == pid {
                    if self.procs[pi].reaped {
                        return false;
                    }
                    if self.procs[pi].status.is_none() && sig != 0 {
                        self.end_proc(pi, i, sig);
                    }
                    return true;
                }
            }
        }
        false
    }
    fn proc_step(&mut self, ei: usize) {
        let pi = match self.ents[ei].kind {
            Kind2::Proc(p) => p,
            _ => unreachable!(),
        };
        if matches!(self.ents[ei].st, St::Blocked(_)) {
            self.ents[ei].st = St::Ready;
            if self.ents[ei].deadline.take().is_some() {
                self.procs[pi].script.pop_front();
                return;
            }
        }
        let pid = self.procs[pi].pid;
        let act = match self.procs[pi].script.front() {
            None => Act::Exit(0),
            Some(a) => a.clone(),
        };
        let of = |w: &World, fd: i32| w.procs[pi].fds.get(&fd).map(|o| *o);
        match act {
            Act::Exit(c) => {
                self.end_proc(pi, ei, (c & 0xff) << 8);
                return;
            }
            Act::Kill(s) => {
                self.end_proc(pi, ei, s);
                return;
            }
            Act::Nop => {
                self.procs[pi].script.pop_front();
            }
            Act::Sleep(ns) => {
                self.ents[ei].deadline = Some(self.now + ns);
                self.ents[ei].st = St::Blocked(Wait::Never);
                self.ev(21, pid as u64, ns, || format!("child {} sleeps {}ns", pid, ns));
            }
            Act::CloseIn | Act::CloseOut => {
                let fd = if matches!(act, Act::CloseIn) { 0 } else { 1 };
                if let Some(o) = self.procs[pi].fds.remove(&fd) {
                    self.drop_ofd(o);
                }
                self.procs[pi].script.pop_front();
                self.ev(22, pid as u64, fd as u64, || format!("child {} closes fd {}", pid, fd));
            }
            Act::ReadAll | Act::ReadN(_) | Act::Echo(_) => {
                if let Act::Echo(_) = act {
                    if !self.procs[pi].buf.is_empty() {
                        let d = std::mem::take(&mut self.procs[pi].buf);
                        let n = match self.child_write(pi, ei, 1, &d) {
                            None => {
                                self.procs[pi].buf = d;
                                return;
                            }
                            Some(n) => n,
                        };
                        self.procs[pi].buf = d[n..].to_vec();
                        return;
                    }
                }
                let want = match act {
                    Act::ReadN(n) => {
                        if n == 0 {
                            self.procs[pi].script.pop_front();
                            return;
                        }
                        n
                    }
                    Act::Echo(n) => n,
                    _ => 4096,
                };
                let (data, eof) = match of(self, 0).map(|o| match self.ofds[o].of {
                    Of::PipeR(p) => Some(p),
                    _ => None,
                }) {
                    Some(Some(p)) => {
                        if self.pipes[p].buf.is_empty() {
                            if self.writers(p) {
                                self.ents[ei].st = St::Blocked(Wait::PipeR(p));
                                return;
                            }
                            (vec![], true)
                        } else {
                            let have = self.pipes[p].buf.len().min(want);
                            let n = if self.mode == 0 { have } else { have - self.s.below(have) };
                            let d: Vec<u8> = self.pipes[p].buf.drain(..n).collect();
                            (d, false)
                        }
                    }
                    _ => (vec![], true),
                };
                let n = data.len();
                self.ev(23, pid as u64, n as u64, || format!("child {} reads {} bytes{}", pid, n, if eof { " (end of input)" } else { "" }));
                self.procs[pi].got.extend(&data);
                if eof {
                    self.procs[pi].saw_eof = true;
                    self.procs[pi].script.pop_front();
                } else {
                    match act {
                        Act::ReadN(k) => self.procs[pi].script[0] = Act::ReadN(k - n),
                        Act::Echo(_) => self.procs[pi].buf = data,
                        _ => {}
                    }
                }
            }
            Act::Out(d) | Act::ErrOut(d) => {
                let fd = if matches!(self.procs[pi].script[0], Act::Out(_)) { 1 } else { 2 };
                if d.is_empty() {
                    self.procs[pi].script.pop_front();
                    return;
                }
                if let Some(n) = self.child_write(pi, ei, fd, &d) {
                    let rest = d[n..].to_vec();
                    self.procs[pi].script[0] = if fd == 1 { Act::Out(rest) } else { Act::ErrOut(rest) };
                }
            }
            Act::OutIn => {
                let d = self.procs[pi].got[self.procs[pi].out_pos..].to_vec();
                if d.is_empty() {
                    self.procs[pi].script.pop_front();
                    return;
                }
                if let Some(n) = self.child_write(pi, ei, 1, &d) {
                    self.procs[pi].out_pos += n;
                }
            }
            Act::OutArgs => {
                let mut d = vec![];
                for a in &self.procs[pi].argv {
                    d.extend(format!("{}:", a.len()).bytes());
                    d.extend(a);
                    d.push(b',');
                }
                self.procs[pi].script[0] = Act::Out(d);
            }
            Act::OutEnv => {
                let d = env_text(&self.procs[pi].env);
                self.procs[pi].script[0] = Act::Out(d);
            }
            Act::OutCwd => {
                let d = self.procs[pi].cwd.clone().into_bytes();
                self.procs[pi].script[0] = Act::Out(d);
            }
        }
    }
    /// None: blocked or killed
    fn child_write(&mut self, pi: usize, ei: usize, fd: i32, d: &[u8]) -> Option<usize> {
        let pid = self.procs[pi].pid;
        let lim = if self.mode == 0 { d.len() } else { d.len() - self.s.below(d.len().min(64)) };
        let o = match self.procs[pi].fds.get(&fd) {
            None => return Some(d.len()),
            Some(o) => *o,
        };
        match self.ofds[o].of {
            Of::PipeW(p) => match self.pipe_put(p, &d[..lim]) {
                Err(()) => {
                    self.end_proc(pi, ei, libc::SIGPIPE);
                    None
                }
                Ok(0) => {
                    self.ents[ei].st = St::Blocked(Wait::PipeW(p));
                    None
                }
                Ok(n) => {
                    if fd == 1 {
                        self.procs[pi].out_written += n;
                    }
                    self.ev(24, pid as u64, n as u64, || format!("child {} writes {} bytes to fd {}", pid, n, fd));
                    Some(n)
                }
            },
            Of::Console(c) => {
                self.console[c as usize].extend(d);
                self.ev(25, pid as u64, d.len() as u64, || format!("child {} writes {} bytes to the console", pid, d.len()));
                Some(d.len())
            }
            _ => Some(d.len()),
        }
    }

    // -------------------------------------------------------------- file mutators
    fn mut_step(&mut self, ei: usize) {
        let op = match &mut self.ents[ei].kind {
            Kind2::Mut(q) => q.pop_front(),
            _ => unreachable!(),
        };
        match op {
            None => self.ents[ei].st = St::Done,
            Some(op) => {
                self.apply(&op);
                let h = hash_str(&format!("{:?}", op));
                let o2 = op.clone();
                self.ev(30, h, 0, || format!("outside change: {}", short(&format!("{:?}", o2), 160)));
                let s = self.seq;
                self.muts_done.push((s, op));
                self.snap_now();
                if let Kind2::Mut(q) = &self.ents[ei].kind {
                    if q.is_empty() {
                        self.ents[ei].st = St::Done;
                    }
                }
            }
        }
    }
    pub fn snap_now(&mut self) {
        if self.keep_snaps {
            let t = self.fs.snapshot();
            self.snaps.push((self.seq, t));
        }
    }
    /// a change made by the host program itself, between operations
    pub fn host_change(&mut self, op: &FsOp) {
        self.apply(op);
        let t = format!("{:?}", op);
        self.ev(31, hash_str(&t), 0, || short(&format!("the host changes files: {}", t), 160));
        let s = self.seq;
        self.muts_done.push((s, op.clone()));
        self.snap_now();
    }
    /// every state of the tree at some moment of [b, e]
    pub fn trees(&self, b: u64, e: u64) -> Vec<&BTreeMap<String, Snap>> {
        let mut first = 0;
        for (i, (s, _)) in self.snaps.iter().enumerate() {
            if *s <= b {
                first = i;
            }
        }
        self.snaps[first..].iter().enumerate().filter(|(i, (s, _))| *i == 0 || *s <= e).map(|(_, t)| &t.1).collect()
    }
    pub fn apply(&mut self, op: &FsOp) {
        match op {
            FsOp::Nop => {}
            FsOp::Put(p, d) => {
                self.fs.put(p, d);
            }
            FsOp::Overwrite(p, d) => {
                if !self.fs.overwrite(p, d) {
                    self.fs.put(p, d);
                }
            }
            FsOp::Trunc(p) => {
                self.fs.overwrite(p, b"");
            }
            FsOp::Append(p, d) => {
                let mut c = self.fs.read(p).map(|c| c.to_vec()).unwrap_or_default();
                c.extend(d);
                self.fs.overwrite(p, &c);
            }
            FsOp::Remove(p) | FsOp::RmTree(p) => self.fs.remove(p),
            FsOp::Mkdir(p) => {
                self.fs.mkdirs(p);
            }
            FsOp::Rename(a, b) => {
                if let Some(i) = self.fs.look(a) {
                    let (bd, bn) = b.split_at(b.rfind('/').unwrap());
                    let bd = self.fs.mkdirs(bd);
                    self.fs.remove(a);
                    self.fs.dir_mut(bd).insert(bn.as_bytes()[1..].to_vec(), i);
                    self.fs.n[i].parent = bd;
                }
            }
        }
    }

    pub fn set_env_block(&mut self) {
        let mut v: Vec<*mut libc::c_char> = vec![];
        for (k, x) in &self.env {
            let mut b = k.clone();
            b.push(b'=');
            b.extend(x);
            b.push(0);
            v.push(Box::leak(b.into_boxed_slice()).as_mut_ptr() as *mut libc::c_char);
        }
        v.push(std::ptr::null_mut());
        self.env_block = v;
        extern "C" {
            static mut environ: *mut *mut libc::c_char;
        }
        unsafe {
            environ = self.env_block.as_mut_ptr();
        }
    }

    /// Swarm configuration of one run: which faults, how often, which scheduler.
    pub fn configure(&mut self, hard: &[F], benign: &[F], max_hard: usize) {
        let m = self.f.weighted(&[3, 4, 5]);
        let rates = [5usize, 20, 60, 200, 500];
        if m >= 1 {
            for k in benign {
                if self.f.chance(1, 2) {
                    self.rates[*k as usize] = *self.f.pick(&rates) as u16;
                }
            }
        }
        if m == 2 && !hard.is_empty() {
            self.hard_left = 1 + self.f.below(max_hard) as u32;
            for k in hard {
                if self.f.chance(1, 3) {
                    self.rates[*k as usize] = *self.f.pick(&rates) as u16;
                }
            }
        }
        self.mode = self.s.weighted(&[2, 6, 4, 3, 2, 2]) as u8;
        if self.mode == 3 {
            let d = 1 + self.s.below(4);
            self.pct_points = (0..d).map(|_| 1 + self.s.below(400) as u64).collect();
        }
        self.pipe_cap = [65536, 4096, 64, 16, 5, 1][self.s.weighted(&[1, 2, 4, 3, 2, 1])];
        self.alloc_every = [0, 400, 40][self.s.weighted(&[6, 1, 1])];
        self.edge_every = [0, 2000, 200, 20][self.s.weighted(&[6, 1, 1, 1])];
    }
    pub fn hard_enabled(&self) -> bool {
        (F::Open as usize..NF).any(|i| self.rates[i] > 0) && self.hard_left > 0
    }
}

pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...({} bytes)", &s[..k], s.len())
}

fn wname(w: &Wait) -> String {
    match w {
        Wait::PipeR(p) => format!("data in pipe {}", p),
        Wait::PipeW(p) => format!("room in pipe {}", p),
        Wait::Poll(v) => format!("poll of {} descriptors", v.len()),
        Wait::Futex(_) => "a lock or condition".into(),
        Wait::Child(p) => format!("end of child {}", p),
        Wait::Join(e) => format!("end of thread {}", e),
        Wait::Clients => "the clients".into(),
        Wait::Never => "nothing".into(),
    }
}

// ------------------------------------------------------------------ clients
pub struct Client {
    pub id: usize,
}
impl Client {
    /// start of one operation: effects, faults and resources from here on belong to it
    pub fn begin(&self) -> u32 {
        let _o = off();
        let wd = w();
        wd.op_id[self.id] += 1;
        wd.op_hard[self.id] = 0;
        wd.edges_begin = wd.edges;
        let op = wd.op_id[self.id];
        let id = self.id as u64;
        wd.ev(5, id, op as u64, || format!("client {} starts operation {}", id, op));
        op
    }
    pub fn end(&self) -> OpEnd {
        let _o = off();
        let wd = w();
        let op = wd.op_id[self.id];
        wd.edges_begin = wd.edges;
        let c = self.id as i32;
        wd.ev(6, c as u64, op as u64, || format!("client {} ends operation {}", c, op));
        let fds = wd.fds.values().filter(|f| f.client == c && f.op == op).map(|f| f.what.clone()).collect();
        let dirs = wd.dirs.iter().filter(|d| d.open && wd.fds.get(&d.fd).map(|f| f.client == c).unwrap_or(false)).count();
        let procs = wd.procs.iter().filter(|p| p.client == c && p.op == op && (!p.reaped || p.status.is_none())).map(|p| format!("child {} ({})", p.pid, if p.status.is_some() { "ended, not collected" } else { "still running" })).collect();
        let thr = wd.ents.iter().filter(|e| e.helper && e.client == c && !matches!(e.st, St::Done)).map(|e| e.name.clone()).collect();
        OpEnd { seq: wd.seq, hard: wd.op_hard[self.id], fds, dirs, procs, threads: thr, helper_panics: std::mem::take(&mut wd.helper_panics) }
    }
    pub fn yield_now(&self) {
        yield_point();
    }
}
#[derive(Clone, Debug, Default)]
pub struct OpEnd {
    pub seq: u64,
    pub hard: u32,
    pub fds: Vec<String>,
    pub dirs: usize,
    pub procs: Vec<String>,
    pub threads: Vec<String>,
    pub helper_panics: Vec<String>,
}
impl OpEnd {
    pub fn leaks(&self) -> Vec<String> {
        let mut v = vec![];
        v.extend(self.fds.iter().map(|f| format!("descriptor of {} still open", f)));
        v.extend(self.procs.iter().cloned());
        v.extend(self.threads.iter().map(|f| format!("thread {} still running", f)));
        v
    }
}

/// A scheduling point inside host code (callbacks of a client).
pub fn yield_point() {
    let e = me();
    if e < 0 {
        return;
    }
    let _o = off();
    w().point(e as usize);
}

/// Memory allocation is where code that makes no call and takes no contended lock can be interrupted.
pub struct Alloc;
#[inline]
fn tick() {
    // SAFETY: only the thread that has the baton has an identity
    if ME.with(|m| m.get()) >= 0 && unsafe { !WORLD.is_null() } {
        let wd = w();
        if wd.alloc_every > 0 {
            if wd.alloc_left > 0 {
                wd.alloc_left -= 1;
            } else {
                let e = me();
                let _o = off();
                wd.alloc_left = wd.s.below(2 * wd.alloc_every);
                wd.point(e as usize);
            }
        }
    }
}
/// Called at every edge of the control flow and at every store of the library under test, which is
/// compiled with these callbacks (see wrap.sh).
#[inline]
fn edge(guard: u32) {
    // SAFETY: only the thread that has the baton has an identity
    if ME.with(|m| m.get()) >= 0 && unsafe { !WORLD.is_null() } {
        let wd = w();
        if guard > 0 {
            wd.edges += 1;
            unsafe {
                if !COV.is_null() && (guard as usize) < COV_MAX {
                    *COV.add(guard as usize) = 1;
                }
            }
        }
        if wd.edges & 0xf_ffff == 0 && guard > 0 {
            // a loop without system calls gives way too, and must come to an end
            let e = me();
            let _o = off();
            if wd.edges - wd.edges_begin > 1_500_000_000 {
                let n = wd.ents[e as usize].name.clone();
                (wd.fatal.unwrap())("livelock", format!("no end after 1500000000 steps of the library's code; running {}", n));
            }
            wd.point(e as usize);
        } else if wd.edge_every > 0 {
            if wd.edge_left > 0 {
                wd.edge_left -= 1;
            } else {
                let e = me();
                let _o = off();
                wd.edge_left = wd.s.below(2 * wd.edge_every);
                // long computations get fewer of them
                wd.edge_points += 1;
                if wd.edge_points % 8000 == 0 {
                    wd.edge_every *= 4;
                }
                wd.point(e as usize);
            }
        }
    }
}
pub const COV_MAX: usize = 1 << 17;
/// one byte for each edge, shared by all processes of a check
pub static mut COV: *mut u8 = std::ptr::null_mut();
static mut GUARDS: u32 = 0;
/// number of edges in the library
pub fn edge_count() -> usize {
    unsafe { GUARDS as usize }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    edge(*g)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store1(_: *mut u8) {
    edge(0)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store2(_: *mut u8) {
    edge(0)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store4(_: *mut u8) {
    edge(0)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store8(_: *mut u8) {
    edge(0)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_store16(_: *mut u8) {
    edge(0)
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        tick();
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        tick();
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        tick();
        std::alloc::System.realloc(p, l, n)
    }
}

pub type Body = Box<dyn FnOnce(&Client) + Send>;

/// Runs the given client bodies to completion under the simulator (or to a crash).
pub fn run_clients(bodies: Vec<Body>) {
    let wd = w();
    let base = wd.nclients;
    let n = bodies.len();
    let parked = std::sync::Arc::new(AtomicU32::new(0));
    for (i, b) in bodies.into_iter().enumerate() {
        let id = base + i;
        wd.nclients += 1;
        wd.live_clients += 1;
        wd.op_hard.push(0);
        wd.op_id.push(0);
        let e = wd.add_ent(Kind2::Thread(Box::new(AtomicU32::new(0))), id as i32, false, format!("client {}", id));
        let baton = match &wd.ents[e].kind {
            Kind2::Thread(b) => &**b as *const AtomicU32 as usize,
            _ => unreachable!(),
        };
        let up = parked.clone();
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                up.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                thread_park(baton);
                set_me(e as i32);
                // the thread's hash keys come from the simulated entropy, whoever needs them first
                std::hint::black_box(std::collections::hash_map::RandomState::new());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b(&Client { id })));
                set_me(-1);
                if r.is_err() {
                    // a panic of the harness's own code is fatal before it unwinds: this one is the library's, in a
                    // call that the harness makes by itself
                    let all = w().panics.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join("; ");
                    (w().fatal.unwrap())("panic", format!("client {} ended with a panic: {}", id, all));
                }
                w().finish(e);
                // What a thread does on its way out takes locks of the standard library, in real time,
                // against threads that are still simulated: it stays here until the process of this run ends.
                loop {
                    std::thread::park();
                }
            })
            .unwrap();
    }
    // likewise for the way in
    while parked.load(std::sync::atomic::Ordering::SeqCst) < n as u32 {
        std::thread::yield_now();
    }
    wd.fault_on = true;
    wd.ents[0].st = St::Blocked(Wait::Clients);
    wd.resched(0, false);
    wd.fault_on = false;
}

/// Lets child processes and mutators that are still alive run on (no client may be running).
pub fn settle() {
    let wd = w();
    for _ in 0..10_000 {
        let v: Vec<usize> = (0..wd.ents.len()).filter(|i| !wd.is_thread(*i) && wd.runnable(*i)).collect();
        if v.is_empty() {
            let next = (0..wd.ents.len()).filter(|i| !matches!(wd.ents[*i].st, St::Done)).filter_map(|i| wd.ents[i].deadline).filter(|d| *d > wd.now).min();
            match next {
                Some(t) => wd.now = t,
                None => break,
            }
            continue;
        }
        match wd.ents[v[0]].kind {
            Kind2::Proc(_) => wd.proc_step(v[0]),
            Kind2::Mut(_) => wd.mut_step(v[0]),
            _ => {}
        }
    }
}

pub fn thread_park(baton: usize) {
    park(unsafe { &*(baton as *const AtomicU32) });
}
