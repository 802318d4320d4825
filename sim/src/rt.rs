//! The simulator proper: the baton, the scheduler, the simulated clock and the simulated
//! file system. Caller threads are real OS threads, but exactly one of them runs at a time
//! and only this module decides which.

use crate::plan::*;
use crate::rng::Rng;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const NONE: usize = usize::MAX;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

#[inline]
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
#[inline]
pub fn in_sut() -> bool {
    tid() != NONE && DEPTH.with(|d| d.get()) == 0
}

/// While alive, the current thread executes harness code (no scheduling points, no interception)
pub struct Host;
impl Host {
    #[inline]
    pub fn enter() -> Host {
        DEPTH.with(|d| d.set(d.get() + 1));
        Host
    }
}
impl Drop for Host {
    #[inline]
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}

/// Run library code from harness code: the reverse of Host
pub fn sut<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    let d = DEPTH.with(|d| d.replace(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    DEPTH.with(|x| x.set(d));
    r
}

// ------------------------------------------------------------------ raw system calls

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn futex_wait(w: &std::sync::atomic::AtomicU32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAIT as i64 | 128, v as i64, 0, 0, 0);
    }
}
pub fn futex_wake(w: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAKE as i64 | 128, 1, 0, 0, 0);
    }
}

/// A place where one thread waits for the baton
pub struct Gate(std::sync::atomic::AtomicU32);
impl Gate {
    pub const fn new() -> Gate {
        Gate(std::sync::atomic::AtomicU32::new(0))
    }
    pub fn open(&self) {
        self.0.store(1, std::sync::atomic::Ordering::SeqCst);
        futex_wake(&self.0);
    }
    pub fn pass(&self) {
        while self.0.swap(0, std::sync::atomic::Ordering::SeqCst) == 0 {
            futex_wait(&self.0, 0);
        }
    }
}

// ------------------------------------------------------------------ state

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Ready,
    Futex { addr: usize, mask: u32, deadline: u64 },
    Sleep { until: u64 },
    Join { tid: usize },
    Done,
}

pub struct Thr {
    pub st: St,
    pub gate: Box<Gate>,
    pub op: u32,
    pub cnt: u64,
    pub next_at: u64,
    pub budget: u64,
    pub timed_out: bool,
    pub last_loc: u32,
    pub io: OpIo,
    pub spawned: bool, // started by the code under test
    pub pthread: usize,
    pub parent: usize,
    pub reported: bool,
    pub first: u64, // count of scheduling points when the operation began
}

#[derive(Default)]
pub struct OpIo {
    pub path: Option<Vec<u8>>,
    pub calls: u32,
    pub counts: [u32; IO_KINDS.len()],
    pub faults: Vec<Fault>,
    pub fired: Vec<bool>,
    pub events: Vec<FsEvent>,
    pub ev_fired: Vec<bool>,
    pub chunks: Vec<usize>,
    pub reads: u32,
    pub bad: Vec<String>,
    pub last: Option<Arc<Vec<u8>>>,
    pub eof: bool,
    pub delivered: u64,
    pub trace: Vec<String>,
    pub open: u32,         // descriptors this call has open
    pub alloc_faults: bool, // some fault is about allocations
    pub seen: Vec<usize>, // contents (by plan index) installed at the path since the call began
}

pub struct Inode {
    pub data: Arc<Vec<u8>>,
    pub mtime: u64,
    pub content: Option<usize>,
    pub kind: FKind,
}
pub struct Handle {
    pub ino: usize,
    pub pos: usize,
    pub tid: usize,
    pub op: u32,
}

#[derive(Default)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<Vec<u8>, usize>,
    pub handles: Vec<Option<Handle>>,
    pub cwd: Vec<u8>,
}

pub const FD_BASE: i32 = 1_000_000;

/// Fault kinds counted when they take effect
pub const FAULT_NAMES: [&str; 26] = [
    "open_error",
    "stat_error",
    "seek_error",
    "read_error",
    "close_error",
    "open_eintr",
    "read_eintr",
    "short_read",
    "size_lie",
    "file_replaced",
    "file_grown",
    "file_removed",
    "file_rewritten_between_calls",
    "preemption",
    "callback_skip",
    "callback_error",
    "callback_panic",
    "token_stream_damage",
    "token_source_panic",
    "torn_or_damaged_content",
    "call_from_inside_a_callback",
    "special_file",
    "wrong_wall_clock_read",
    "wall_clock_jump",
    "failed_allocation",
    "call_while_unwinding",
];
pub const F_PREEMPT: usize = 13;

pub struct Rt {
    pub thr: Vec<Thr>,
    pub cur: usize,
    pub main: Gate,
    pub steps: u64,
    pub clock: u64,
    pub clock0: u64,
    pub rng: Rng,
    pub env: Rng,
    pub env_mode: u32,
    /// The wall clock is this far from the steady one
    pub wall_off: i64,
    /// ... and jumps when it is looked at
    pub wall_jumps: bool,
    pub env_set: Vec<(Vec<u8>, Box<[u8]>)>,
    pub sched: Sched,
    pub explicit: Vec<std::collections::VecDeque<Switch>>,
    pub switches: Vec<Switch>,
    pub ihash: u64,
    pub run_len: u64,
    pub fs: Fs,
    pub fired: [u64; FAULT_NAMES.len()],
    pub io_calls: u64,
    pub contents: Vec<Vec<u8>>,
    pub paths: Vec<Vec<u8>>,
    pub cpus: i64,
    pub multi: bool,
    pub blocked: u64,
    pub yields: u64,
}

static mut RT: *mut Rt = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
pub fn rt_exists() -> bool {
    unsafe { !RT.is_null() }
}

pub static mut FATAL: Option<fn(&str) -> !> = None;
pub fn fatal(what: &str) -> ! {
    let _h = Host::enter();
    unsafe {
        match FATAL {
            Some(f) => f(what),
            None => {
                raw6(libc::SYS_exit_group, 97, 0, 0, 0, 0, 0);
                unreachable!()
            }
        }
    }
}

pub fn init(plan: &Plan) {
    let mut env = Rng::new(plan.env_seed);
    let clock = 1_600_000_000_000_000_000 + env.below(200_000_000) as u64 * 1_000_000_007;
    let env_mode = env.below(4) as u32;
    let cpus = env.range(1, 64) as i64;
    // wall clocks are not always right: never set, before 1970, after 2038, or far ahead
    let wall_off = match env.below(10) {
        0 => -(clock as i64) + 5_000_000_000,
        1 => -(clock as i64) - 100_000_000_000,
        2 => 2_147_483_640_000_000_000 - clock as i64,
        3 => 5_000_000_000_000_000_000 - clock as i64,
        4 => env.below(1_000_000_000) as i64 * 1_000_000_007 - 500_000_000_000_000_000,
        _ => 0,
    };
    let wall_jumps = env.below(4) == 0;
    let mut cwd = b"/sim/wd".to_vec();
    cwd.extend_from_slice(format!("{}", env.below(1000)).as_bytes());
    let contents: Vec<Vec<u8>> = (0..plan.contents.len()).map(|i| plan.bytes(i)).collect();
    let nthr = plan.threads.len() + 1; // 0 is the set-up thread
    let mut explicit = vec![std::collections::VecDeque::new(); nthr + 64];
    let mut seed = 0;
    match &plan.sched {
        Sched::Explicit(v) => {
            for s in v {
                if (s.tid as usize) < explicit.len() {
                    explicit[s.tid as usize].push_back(*s);
                }
            }
        }
        Sched::Policy { seed: s, .. } => seed = *s,
        Sched::None => {}
    }
    let mut r = Rt {
        thr: vec![],
        cur: NONE,
        main: Gate::new(),
        steps: 0,
        clock,
        clock0: clock,
        rng: Rng::new(seed),
        env,
        env_mode,
        wall_off,
        wall_jumps,
        env_set: vec![],
        sched: plan.sched.clone(),
        explicit,
        switches: vec![],
        ihash: 0,
        run_len: 0,
        fs: Fs { cwd, ..Default::default() },
        fired: [0; FAULT_NAMES.len()],
        io_calls: 0,
        contents,
        paths: vec![],
        cpus,
        multi: false,
        blocked: 0,
        yields: 0,
    };
    for f in &plan.files {
        let p = norm(&r.fs.cwd, &f.path);
        r.paths.push(p.clone());
        let data = Arc::new(r.contents[f.content].clone());
        r.fs.inodes.push(Inode { data, mtime: clock - 5_000_000_000, content: Some(f.content), kind: f.kind });
        let ino = r.fs.inodes.len() - 1;
        r.fs.names.insert(p, ino);
    }
    unsafe { RT = Box::into_raw(Box::new(r)) };
}

pub fn norm(cwd: &[u8], p: &[u8]) -> Vec<u8> {
    let full: Vec<u8> = if p.first() == Some(&b'/') {
        p.to_vec()
    } else {
        [cwd, b"/", p].concat()
    };
    let mut parts: Vec<&[u8]> = vec![];
    for c in full.split(|x| *x == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    let mut o = vec![];
    for c in parts {
        o.push(b'/');
        o.extend_from_slice(c);
    }
    if o.is_empty() {
        o.push(b'/');
    }
    o
}

pub fn add_thread(spawned: bool) -> usize {
    let r = rt();
    r.thr.push(Thr {
        st: St::Ready,
        gate: Box::new(Gate::new()),
        op: 0,
        cnt: 0,
        next_at: u64::MAX,
        budget: u64::MAX,
        timed_out: false,
        last_loc: 0,
        io: OpIo::default(),
        spawned,
        pthread: 0,
        parent: NONE,
        reported: false,
        first: 0,
    });
    r.thr.len() - 1
}

pub fn become_thread(t: usize) {
    TID.with(|x| x.set(t));
}

/// Start of an operation of thread t (harness code)
pub fn op_begin(t: usize, op: u32, io: OpIo, budget: u64) {
    let r = rt();
    let th = &mut r.thr[t];
    if th.op != op {
        th.cnt = 0;
    }
    // a repetition of an operation goes on counting, so that a preemption in it has a name
    th.op = op;
    th.first = th.cnt;
    th.budget = th.cnt.saturating_add(budget);
    th.io = io;
    arm(r, t);
}

fn arm(r: &mut Rt, t: usize) {
    let (op, cnt) = (r.thr[t].op, r.thr[t].cnt);
    r.thr[t].next_at = match &r.sched {
        Sched::None => u64::MAX,
        Sched::Explicit(_) => {
            let q = &mut r.explicit[t];
            while let Some(s) = q.front() {
                if s.op < op || (s.op == op && s.cnt <= cnt) {
                    q.pop_front();
                } else {
                    break;
                }
            }
            match q.front() {
                Some(s) if s.op == op => s.cnt,
                _ => u64::MAX,
            }
        }
        Sched::Policy { mean, .. } => {
            if *mean == 0 || !r.multi {
                u64::MAX
            } else {
                let m = *mean;
                cnt + r.rng.geometric(m)
            }
        }
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pt {
    Bb,
    Glob,
    Alloc,
    Io,
    Cb,
    Sync,
}

static mut HITS: [u8; 1 << 17] = [0; 1 << 17];
pub static mut EDGES: *mut u8 = std::ptr::null_mut();
pub static mut NGUARDS: u32 = 0;

#[inline]
pub fn point(k: Pt, loc: u32) {
    let t = tid();
    if t == NONE || DEPTH.with(|d| d.get()) != 0 {
        return;
    }
    slow_point(t, k, loc)
}

#[inline(never)]
fn slow_point(t: usize, k: Pt, loc: u32) {
    let r = rt();
    let th = &mut r.thr[t];
    th.cnt += 1;
    r.steps += 1;
    r.clock += 40;
    r.run_len += 1;
    let mut hits = 255;
    if k == Pt::Bb {
        th.last_loc = loc;
        unsafe {
            let h = (&raw mut HITS as *mut u8).add(loc as usize & 0x1ffff);
            hits = *h;
            if hits < 250 {
                *h = hits + 1;
            }
            if hits == 0 && !EDGES.is_null() {
                *EDGES.add(loc as usize & 0x1ffff) = 1;
            }
        }
    }
    if th.cnt > th.budget {
        fatal("hang");
    }
    if !r.multi {
        return;
    }
    let mut fire = th.cnt == th.next_at;
    if let Sched::Policy { global_pm, rare_pm, io_pm, alloc_pm, cb_pm, .. } = r.sched {
        let pm = match k {
            Pt::Bb => {
                if hits < 2 {
                    rare_pm
                } else {
                    0
                }
            }
            Pt::Glob => global_pm,
            Pt::Alloc => alloc_pm,
            Pt::Io => io_pm,
            Pt::Cb => cb_pm,
            Pt::Sync => global_pm.max(io_pm),
        };
        if pm > 0 && (r.rng.next() & 0xfffff) < pm as u64 {
            fire = true;
        }
    }
    if fire {
        let _h = Host::enter();
        preempt(t);
        return;
    }
    if r.run_len > 600_000 {
        let _h = Host::enter();
        if let Some(n) = next_ready(r, t) {
            switch_to(t, n);
        }
        rt().run_len = 0;
    }
}

fn wake_timers(r: &mut Rt) {
    let now = r.clock;
    for th in r.thr.iter_mut() {
        match th.st {
            St::Futex { deadline, .. } if deadline <= now => {
                th.st = St::Ready;
                th.timed_out = true;
            }
            St::Sleep { until } if until <= now => th.st = St::Ready,
            _ => {}
        }
    }
    for i in 0..r.thr.len() {
        if let St::Join { tid } = r.thr[i].st {
            if r.thr[tid].st == St::Done {
                r.thr[i].st = St::Ready;
            }
        }
    }
}

/// The next runnable thread after t in cyclic order (not t itself)
fn next_ready(r: &mut Rt, t: usize) -> Option<usize> {
    wake_timers(r);
    let n = r.thr.len();
    (1..n).map(|d| (t + d) % n).find(|i| r.thr[*i].st == St::Ready)
}

fn preempt(t: usize) {
    let r = rt();
    wake_timers(r);
    let target = if let Sched::Explicit(_) = r.sched {
        let q = &mut r.explicit[t];
        let (op, cnt) = (r.thr[t].op, r.thr[t].cnt);
        let mut to = None;
        if let Some(s) = q.front() {
            if s.op == op && s.cnt == cnt {
                to = Some(s.to as usize);
                q.pop_front();
            }
        }
        to.filter(|x| *x < r.thr.len() && *x != t && r.thr[*x].st == St::Ready)
    } else {
        let cand: Vec<usize> =
            (0..r.thr.len()).filter(|i| *i != t && r.thr[*i].st == St::Ready).collect();
        if cand.is_empty() {
            None
        } else {
            Some(cand[r.rng.below(cand.len())])
        }
    };
    arm(r, t);
    if let Some(n) = target {
        let th = &r.thr[t];
        r.switches.push(Switch { tid: t as u32, op: th.op, cnt: th.cnt, to: n as u32 });
        r.fired[F_PREEMPT] += 1;
        r.ihash = crate::rng::mix(
            r.ihash ^ ((t as u64) << 48) ^ ((n as u64) << 40) ^ ((th.op as u64) << 32) ^ th.last_loc as u64,
        );
        switch_to(t, n);
    }
}

fn switch_to(t: usize, n: usize) {
    let r = rt();
    r.cur = n;
    r.run_len = 0;
    r.thr[n].gate.open();
    // r may be changed by others from here on
    let g: *const Gate = &*rt().thr[t].gate;
    unsafe { (*g).pass() };
}

fn advance_or_deadlock(r: &mut Rt) {
    let mut best = u64::MAX;
    for th in &r.thr {
        match th.st {
            St::Futex { deadline, .. } => best = best.min(deadline),
            St::Sleep { until } => best = best.min(until),
            _ => {}
        }
    }
    if best == u64::MAX {
        fatal("deadlock");
    }
    r.clock = best;
    wake_timers(r);
}

/// The current thread cannot go on until its state changes
pub fn block(t: usize, st: St) {
    let _h = Host::enter();
    let r = rt();
    r.blocked += 1;
    r.thr[t].st = st;
    loop {
        let r = rt();
        wake_timers(r);
        if r.thr[t].st == St::Ready {
            return;
        }
        match next_ready(r, t) {
            Some(n) => {
                switch_to(t, n);
                return;
            }
            None => advance_or_deadlock(r),
        }
    }
}

pub fn yield_now(t: usize) {
    let _h = Host::enter();
    let r = rt();
    r.yields += 1;
    r.thr[t].cnt += 1;
    r.steps += 1;
    r.clock += 1000;
    if r.thr[t].cnt > r.thr[t].budget || r.yields > 2_000_000 {
        fatal("hang");
    }
    if let Some(n) = next_ready(r, t) {
        switch_to(t, n);
    }
}

pub fn futex_wake_sim(addr: usize, n: i64, mask: u32) -> i64 {
    let r = rt();
    let mut woken = 0;
    for th in r.thr.iter_mut() {
        if woken >= n {
            break;
        }
        if let St::Futex { addr: a, mask: m, .. } = th.st {
            if a == addr && (m & mask) != 0 {
                th.st = St::Ready;
                th.timed_out = false;
                woken += 1;
            }
        }
    }
    woken
}

/// The current thread has finished: give the baton back to the main thread
pub fn finish(t: usize) {
    let r = rt();
    r.thr[t].st = St::Done;
    r.cur = NONE;
    TID.with(|x| x.set(NONE));
    r.main.open();
}

/// A thread started by the code under test has finished: pass the baton on directly
pub fn finish_spawned(t: usize) {
    let _h = Host::enter();
    loop {
        let r = rt();
        r.thr[t].st = St::Done;
        match next_ready(r, t) {
            Some(n) => {
                r.cur = n;
                r.run_len = 0;
                TID.with(|x| x.set(NONE));
                r.thr[n].gate.open();
                return;
            }
            None => {
                if r.thr.iter().all(|x| x.st == St::Done) {
                    TID.with(|x| x.set(NONE));
                    r.main.open();
                    return;
                }
                advance_or_deadlock(r);
            }
        }
    }
}

/// Main thread: run threads until one of the plan's threads finishes; returns it
pub fn run_until_finish(prefer: usize) -> bool {
    let r = rt();
    let n = r.thr.len();
    loop {
        wake_timers(r);
        if r.thr.iter().all(|x| x.st == St::Done) {
            return false;
        }
        let c = (0..n).map(|d| (prefer + d) % n).find(|i| r.thr[*i].st == St::Ready);
        match c {
            Some(t) => {
                r.cur = t;
                r.run_len = 0;
                r.thr[t].gate.open();
                r.main.pass();
                return true;
            }
            None => advance_or_deadlock(r),
        }
    }
}

// ------------------------------------------------------------------ file system actions

pub fn fs_install(file: usize, content: usize, keep_mtime: bool) {
    let r = rt();
    let p = r.paths[file].clone();
    let data = Arc::new(r.contents[content].clone());
    let mtime = match r.fs.names.get(&p) {
        Some(i) if keep_mtime => r.fs.inodes[*i].mtime,
        _ => r.clock,
    };
    // what was a link, pipe or device is one again: a call alone is given the same kind
    let kind = match r.fs.names.get(&p) {
        Some(i) if r.fs.inodes[*i].kind != FKind::Dir => r.fs.inodes[*i].kind,
        _ => FKind::Reg,
    };
    r.fs.inodes.push(Inode { data, mtime, content: Some(content), kind });
    let ino = r.fs.inodes.len() - 1;
    for th in r.thr.iter_mut() {
        if th.io.path.as_deref() == Some(&p[..]) {
            th.io.seen.push(content);
        }
    }
    r.fs.names.insert(p, ino);
}

fn fs_act(file: usize, act: &Act) {
    let r = rt();
    match act {
        Act::Replace(c) => {
            fs_install(file, *c, false);
            r.fired[9] += 1;
        }
        Act::Append(c) => {
            let p = r.paths[file].clone();
            if let Some(i) = r.fs.names.get(&p) {
                let mut d = (*r.fs.inodes[*i].data).clone();
                d.extend_from_slice(&r.contents[*c]);
                r.fs.inodes[*i].data = Arc::new(d);
                r.fs.inodes[*i].mtime = r.clock;
                r.fs.inodes[*i].content = None;
                r.fired[10] += 1;
            }
        }
        Act::Remove => {
            let p = r.paths[file].clone();
            r.fs.names.remove(&p);
            r.fired[11] += 1;
        }
    }
}

pub enum IoDec {
    Go,
    Err(i32),
    Short(usize),
    Size(u64),
}

/// Called before each I/O call of the code under test: scheduling point, other processes'
/// actions due at this moment, and the fault decided for this call, if any.
pub fn io_gate(t: usize, kind: IoKind) -> IoDec {
    slow_point_io(t);
    let r = rt();
    r.io_calls += 1;
    r.clock += 10_000 + r.env.below(5_000_000) as u64;
    let idx = r.thr[t].io.calls;
    r.thr[t].io.calls += 1;
    if r.thr[t].io.calls > 20_000 {
        // one byte at a time is legitimate
        let most = r.fs.inodes.iter().map(|i| i.data.len()).max().unwrap_or(0) as u32;
        if r.thr[t].io.calls > 3 * most {
            fatal("hang-io");
        }
    }
    for i in 0..r.thr[t].io.events.len() {
        if r.thr[t].io.events[i].at == idx && !r.thr[t].io.ev_fired[i] {
            let e = r.thr[t].io.events[i].clone();
            fs_act(e.file, &e.act);
            rt().thr[t].io.ev_fired[i] = true;
        }
    }
    let r = rt();
    let io = &mut r.thr[t].io;
    let k = kind as usize;
    let nth = io.counts[k];
    io.counts[k] += 1;
    for i in 0..io.faults.len() {
        if io.faults[i].kind == kind && io.faults[i].nth == nth {
            io.fired[i] = true;
            match io.faults[i].eff {
                Eff::Errno(e) => {
                    let which = if e == libc::EINTR && kind == IoKind::Open {
                        5
                    } else if e == libc::EINTR && kind == IoKind::Read {
                        6
                    } else {
                        k
                    };
                    r.fired[which] += 1;
                    return IoDec::Err(e);
                }
                Eff::Short(n) => return IoDec::Short(n),
                Eff::SizeLie(n) => {
                    r.fired[8] += 1;
                    return IoDec::Size(n);
                }
            }
        }
    }
    IoDec::Go
}

/// Is this allocation of the code under test one that fails?
#[inline]
pub fn alloc_fails() -> bool {
    let t = tid();
    if t == NONE || !rt().thr[t].io.alloc_faults {
        return false;
    }
    alloc_fault(t)
}
#[inline(never)]
fn alloc_fault(t: usize) -> bool {
    let _h = Host::enter();
    let r = rt();
    let io = &mut r.thr[t].io;
    if io.open == 0 {
        return false;
    }
    let nth = io.counts[IoKind::Alloc as usize];
    io.counts[IoKind::Alloc as usize] += 1;
    for i in 0..io.faults.len() {
        if io.faults[i].kind == IoKind::Alloc && io.faults[i].nth == nth {
            io.fired[i] = true;
            r.fired[24] += 1;
            trace(t, "allocation fails".into());
            return true;
        }
    }
    false
}
/// Has an allocation of the current call been made to fail?
pub fn alloc_failed() -> bool {
    let t = tid();
    t != NONE && {
        let io = &rt().thr[t].io;
        (0..io.faults.len()).any(|i| io.fired[i] && io.faults[i].kind == IoKind::Alloc)
    }
}

fn slow_point_io(t: usize) {
    // called with Host entered: leave it for the scheduling point only
    let d = DEPTH.with(|d| d.replace(0));
    slow_point(t, Pt::Io, 0);
    DEPTH.with(|x| x.set(d));
}

pub fn bad(t: usize, what: String) {
    let io = &mut rt().thr[t].io;
    if io.bad.len() < 20 {
        io.bad.push(what);
    }
}

pub fn trace(t: usize, what: String) {
    let io = &mut rt().thr[t].io;
    if io.trace.len() < 200 {
        io.trace.push(what);
    }
}

pub fn handle(fd: i32) -> Option<&'static mut Handle> {
    if fd < FD_BASE || !rt_exists() {
        return None;
    }
    rt().fs.handles.get_mut((fd - FD_BASE) as usize).and_then(|h| h.as_mut())
}
