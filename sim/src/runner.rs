//! Starts simulated runs in forked children, drives a whole check (seeded search over many
//! runs in eight virtual workers), minimises a violation and writes replay and evidence files.

use crate::exec;
use crate::minimise;
use crate::plan::*;
use crate::props::{self, Verdict};
use crate::report::*;
use crate::rng::{derive, hash_bytes, mix, Rng};
use crate::rt;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const SHM: usize = 24 << 20;
pub const WORKERS: u64 = 8;

unsafe fn map_shared(n: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut u8
}

/// Where children leave their report
pub struct Sandbox {
    shm: *mut u8,
    edges: *mut u8,
    pub runs: u64,
}

impl Sandbox {
    pub fn new() -> Sandbox {
        unsafe {
            let s = Sandbox { shm: map_shared(SHM), edges: map_shared(1 << 17), runs: 0 };
            rt::EDGES = s.edges;
            s
        }
    }
    /// Run a plan in a fresh process
    pub fn run(&mut self, p: &Plan) -> Report {
        self.runs += 1;
        unsafe {
            (self.shm as *mut u64).write_volatile(0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                exec::run_plan(p, self.shm, SHM);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let n = (self.shm as *mut u64).read_volatile();
            if n > 0 && n < (SHM - 8) as u64 {
                let b = std::slice::from_raw_parts(self.shm.add(8), n as usize);
                return Report::read(b);
            }
            let status = if n == u64::MAX {
                "harness: report too large".to_string()
            } else if libc::WIFSIGNALED(st) {
                match libc::WTERMSIG(st) {
                    libc::SIGALRM => "timeout".to_string(),
                    s => format!("crash: signal {}", s),
                }
            } else {
                format!("exit({})", libc::WEXITSTATUS(st))
            };
            Report { status, ops: p.threads.iter().map(|t| vec![Outcome::default(); t.len()]).collect(), ..Default::default() }
        }
    }
    fn edge_count(&self) -> u64 {
        unsafe { std::slice::from_raw_parts(self.edges, 1 << 17).iter().map(|x| *x as u64).sum() }
    }
}

pub struct Ctx {
    pub corpus_small: Vec<String>,
    pub pool: Vec<Vec<u8>>,
    pub sandbox: Sandbox,
    solos: HashMap<u64, Outcome>,
    pub solo_runs: u64,
    pub solo_hits: u64,
}

pub fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// The library compiles the same few regular expressions for each token. One simulated parse,
/// in a process of its own, tells which; they are compiled once, before any run starts, and a
/// run's `Regex::new` of one of them gives a clone. The library itself runs in children only.
fn preload_regexes(sandbox: &mut Sandbox, corpus: &[String]) {
    if std::env::var("SIM_NO_PRELOAD").is_ok() {
        return;
    }
    const CAP: usize = 4 << 20;
    let log = unsafe { map_shared(CAP) };
    let mut p = Plan::new("solo");
    let c = p.lit(corpus[0].clone().into_bytes());
    p.threads.push(vec![Op::ParseStr { content: c }]);
    unsafe { regex::simscilla::log_to(log, CAP) };
    sandbox.run(&p);
    unsafe { regex::simscilla::log_to(std::ptr::null_mut(), 0) };
    let b = unsafe { std::slice::from_raw_parts(log, CAP) };
    let word = |i: usize| b.get(i..i + 8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap()) as usize);
    let (end, mut i) = ((8 + word(0)).min(CAP), 8);
    let mut v: Vec<String> = vec![];
    while i + 8 <= end && v.len() < 200 {
        let n = word(i).min(end - i - 8);
        if let Ok(s) = std::str::from_utf8(&b[i + 8..i + 8 + n]) {
            if !v.iter().any(|x| x == s) {
                v.push(s.to_string());
            }
        }
        i += 8 + n;
    }
    regex::simscilla::preload(&v);
    unsafe { libc::munmap(log as *mut libc::c_void, CAP) };
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut v: Vec<(String, String)> = vec![];
        if let Ok(d) = std::fs::read_dir(format!("{}/corpus", root())) {
            for e in d.flatten() {
                if let Ok(s) = std::fs::read_to_string(e.path()) {
                    v.push((e.file_name().to_string_lossy().into_owned(), s));
                }
            }
        }
        v.sort();
        assert!(!v.is_empty(), "corpus not found under {}", root());
        // the largest ones would dominate the time
        let corpus_small: Vec<String> = v.into_iter().map(|x| x.1).filter(|s| s.len() < 11_000).collect();
        let mut sandbox = Sandbox::new();
        preload_regexes(&mut sandbox, &corpus_small);
        Ctx {
            corpus_small,
            pool: vec![],
            sandbox,
            solos: HashMap::new(),
            solo_runs: 0,
            solo_hits: 0,
        }
    }

    fn solo_plan(&mut self, q: Plan) -> Outcome {
        let mut key = hash_bytes(to_text(&Plan { env_seed: 0, ..q.clone() }).as_bytes());
        key = mix(key);
        if let Some(o) = self.solos.get(&key) {
            self.solo_hits += 1;
            return o.clone();
        }
        self.solo_runs += 1;
        let r = self.sandbox.run(&q);
        let mut o = r.ops[0][0].clone();
        if r.status != "done" {
            o.tag = b'X';
            o.text = r.status;
        }
        o.trace.clear();
        if self.solos.len() > 20_000 {
            self.solos.clear();
        }
        self.solos.insert(key, o.clone());
        o
    }

    /// The operation alone in a fresh process, in another environment
    pub fn solo(&mut self, p: &Plan, op: &Op, seen: Option<usize>) -> Outcome {
        let mut q = Plan::new("solo");
        q.env_seed = mix(p.env_seed ^ 0x5010) >> 1;
        let mut op = op.clone();
        match &mut op {
            Op::ParsePath { file, .. } => {
                let c = q.lit(p.bytes(seen.unwrap_or(p.files[*file].content)));
                q.files.push(FileSpec::new(p.files[*file].path.clone(), c));
                q.files[0].kind = p.files[*file].kind;
                *file = 0;
            }
            Op::ParseTokens { content, edits, .. } => {
                // what the token source does besides is not this call's input
                edits.retain(|e| !matches!(e, TokEdit::Nest(..)));
                *content = q.lit(p.text(*content).into_bytes());
            }
            Op::ParseStr { content } | Op::Lex { content, .. } => {
                *content = q.lit(p.text(*content).into_bytes());
            }
            Op::Visit { ast, .. } | Op::Emit { ast } => {
                let a = &p.asts[*ast];
                let c = q.lit(p.text(a.content).into_bytes());
                q.asts.push(Ast { content: c, root: a.root });
                *ast = 0;
                if let Op::Visit { decs, .. } = &mut op {
                    decs.retain(|d| !matches!(d.1, Dec::Nest(_) | Dec::Again | Dec::AgainStop(..)));
                }
            }
            Op::Write { .. } | Op::Repeat { .. } => {}
        }
        q.threads.push(vec![op]);
        self.solo_plan(q)
    }

    /// The text parsed as a string, alone in a fresh process
    pub fn solo_str(&mut self, p: &Plan, s: String) -> Outcome {
        let mut q = Plan::new("solo");
        q.env_seed = mix(p.env_seed ^ 0x5011) >> 1;
        let c = q.lit(s.into_bytes());
        q.threads.push(vec![Op::ParseStr { content: c }]);
        self.solo_plan(q)
    }

    /// Run and judge
    pub fn eval(&mut self, p: &Plan) -> (Report, Verdict) {
        let r = self.sandbox.run(p);
        if r.status.starts_with("harness") {
            return (r.clone(), Verdict { viol: None, sig: 0, nontrivial: false, evals: 0 });
        }
        let mut v = props::judge(p, &r, self);
        if let (Some((class, _)), "C11") = (&v.viol, p.property.as_str()) {
            // growth that stops is not growth: look again after many more rounds
            let (q, class) = (minimise::longer(p, 12), class.clone());
            let r2 = self.sandbox.run(&q);
            let v2 = props::judge(&q, &r2, self);
            if v2.viol.as_ref().map(|x| &x.0) != Some(&class) {
                v = Verdict { viol: None, ..v2 };
            }
        }
        (r, v)
    }
}

// ------------------------------------------------------------------ one worker's tally

#[derive(Default)]
struct Tally {
    runs: u64,
    evals: u64,
    nontrivial: u64,
    steps: u64,
    sim_ns: u64,
    switches: u64,
    blocked: u64,
    io_calls: u64,
    fired: Vec<u64>,
    ops: BTreeMap<String, u64>,
    outcomes: BTreeMap<String, u64>,
    answers: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    ihashes: HashSet<u64>,
    solo_runs: u64,
    solo_hits: u64,
    replays: u64,
    replay_diff: u64,
    statuses: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<String>,
    capped: u64,
    pool: u64,
    threads: u64,
    viol: Option<(u64, String, String, String)>, // index, class, message, plan text
}

fn put_map(w: &mut W, m: &BTreeMap<String, u64>) {
    w.u(m.len() as u64);
    for (k, v) in m {
        w.s(k);
        w.u(*v);
    }
}
fn get_map(r: &mut R, m: &mut BTreeMap<String, u64>) {
    for _ in 0..r.u() {
        let k = r.s();
        *m.entry(k).or_insert(0) += r.u();
    }
}

impl Tally {
    fn write(&self, edges: &[u8]) -> Vec<u8> {
        let mut w = W(vec![]);
        for x in [
            self.runs,
            self.evals,
            self.nontrivial,
            self.steps,
            self.sim_ns,
            self.switches,
            self.blocked,
            self.io_calls,
            self.solo_runs,
            self.solo_hits,
            self.replays,
            self.replay_diff,
            self.capped,
            self.pool,
            self.threads,
        ] {
            w.u(x);
        }
        w.u(self.fired.len() as u64);
        for f in &self.fired {
            w.u(*f);
        }
        for m in [&self.ops, &self.answers, &self.outcomes, &self.statuses, &self.known] {
            put_map(&mut w, m);
        }
        for s in [&self.sigs, &self.ihashes] {
            w.u(s.len() as u64);
            for x in s {
                w.u(*x);
            }
        }
        w.vs(&self.samples);
        match &self.viol {
            None => w.u(0),
            Some((i, a, b, c)) => {
                w.u(1);
                w.u(*i);
                w.s(a);
                w.s(b);
                w.s(c);
            }
        }
        w.b(edges);
        w.0
    }
    fn merge(&mut self, b: &[u8], edges: &mut [u8]) {
        let mut r = R(b, 0);
        for x in [
            &mut self.runs,
            &mut self.evals,
            &mut self.nontrivial,
            &mut self.steps,
            &mut self.sim_ns,
            &mut self.switches,
            &mut self.blocked,
            &mut self.io_calls,
            &mut self.solo_runs,
            &mut self.solo_hits,
            &mut self.replays,
            &mut self.replay_diff,
            &mut self.capped,
            &mut self.pool,
            &mut self.threads,
        ] {
            *x += r.u();
        }
        let n = r.u() as usize;
        self.fired.resize(n.max(self.fired.len()), 0);
        for i in 0..n {
            self.fired[i] += r.u();
        }
        for m in [&mut self.ops, &mut self.answers, &mut self.outcomes, &mut self.statuses, &mut self.known] {
            get_map(&mut r, m);
        }
        for s in [&mut self.sigs, &mut self.ihashes] {
            for _ in 0..r.u() {
                s.insert(r.u());
            }
        }
        self.samples.extend(r.vs());
        if r.u() == 1 {
            let v = (r.u(), r.s(), r.s(), r.s());
            if self.viol.as_ref().is_none_or(|x| v.0 < x.0) {
                self.viol = Some(v);
            }
        }
        for (a, b) in edges.iter_mut().zip(r.b()) {
            *a |= b;
        }
    }
}

fn op_name(op: &Op) -> String {
    op_text(op).split(' ').next().unwrap_or("").to_string()
}

pub fn run_count(prop: &str, tier: usize) -> (u64, u64) {
    // (runs, wall cap in seconds)
    let q = match prop {
        "C01" => 15000,
        "C02" => 11000,
        "C03" => 17000,
        "C04" => 70000,
        "C05" => 44000,
        "C06" => 66000,
        "C07" => 10000,
        "C08" => 48000,
        "C09" => 44000,
        "C10" => 60000,
        "C11" => 3200,
        _ => 1000,
    };
    if tier == 0 {
        (q, 300)
    } else {
        (q * 12, 780)
    }
}

pub struct Known {
    property: String,
    contains: String,
    text: String,
}
pub fn known_findings() -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        // finding: property=<id> contains="<part of the violation message>" <what fails>
        if let Some(r) = l.strip_prefix("finding: property=") {
            if let Some((id, r)) = r.split_once(" contains=\"") {
                if let Some((c, t)) = r.split_once("\" ") {
                    v.push(Known { property: id.into(), contains: c.into(), text: t.into() });
                }
            }
        }
    }
    v
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn worker(prop: &str, tier: usize, w: u64, total: u64, cap: Duration, stop: &AtomicU64, seed: u64) -> (Tally, Vec<u8>) {
    let start = Instant::now();
    let mut ctx = Ctx::new();
    let known = known_findings();
    let mut t = Tally { fired: vec![0; rt::FAULT_NAMES.len()], ..Default::default() };
    let mut edges_seen = 0;
    let mut i = w;
    while i < total {
        if i > stop.load(Ordering::SeqCst) {
            break;
        }
        if start.elapsed() > cap {
            t.capped = 1;
            break;
        }
        let mut r = Rng::new(derive(seed, prop, i));
        let p = props::generate(prop, &mut r, i, tier, &mut ctx);
        let (rep, v) = ctx.eval(&p);
        t.runs += 1;
        t.evals += v.evals;
        t.steps += rep.steps;
        t.sim_ns += rep.sim_ns;
        t.switches += rep.switches.len() as u64;
        t.blocked += rep.blocked;
        t.io_calls += rep.io_calls;
        t.threads += p.threads.len() as u64;
        for (a, b) in t.fired.iter_mut().zip(&rep.fired) {
            *a += b;
        }
        if p.contents.iter().any(|c| matches!(c, Content::Damaged(..) | Content::Prefix(..))) {
            t.fired[19] += p.contents.iter().filter(|c| matches!(c, Content::Damaged(..) | Content::Prefix(..))).count() as u64;
        }
        *t.statuses.entry(rep.status.clone()).or_insert(0) += 1;
        for (ops, outs) in p.threads.iter().zip(&rep.ops) {
            for (op, o) in ops.iter().zip(outs) {
                if o.done {
                    *t.ops.entry(op_name(op)).or_insert(0) += 1;
                    let k = match o.tag {
                        b'O' => "contract".to_string(),
                        b'E' => format!("error {}", o.kind.split(' ').next().unwrap_or("")).trim().to_string(),
                        b'P' => "panic".into(),
                        b'I' => "injected panic".into(),
                        _ => "done".into(),
                    };
                    *t.outcomes.entry(k).or_insert(0) += 1;
                    for a in &o.answers {
                        let k = format!(
                            "{} {} {}",
                            crate::visit::kind_name((a >> 4) as u8),
                            if a & 8 != 0 { "enter" } else { "exit" },
                            ["skip", "fail", "panic"][(a & 3) as usize]
                        );
                        *t.answers.entry(k).or_insert(0) += 1;
                    }
                }
            }
        }
        if v.nontrivial {
            t.nontrivial += 1;
            t.sigs.insert(v.sig);
        }
        if !rep.switches.is_empty() {
            t.ihashes.insert(rep.ihash);
        }
        let e = ctx.sandbox.edge_count();
        if e > edges_seen {
            edges_seen = e;
            if prop == "C06" && i > w {
                for (k, c) in p.contents.iter().enumerate() {
                    if matches!(c, Content::Damaged(..)) {
                        let b = p.bytes(k);
                        if b.len() < 6000 && ctx.pool.len() < 3000 {
                            ctx.pool.push(b);
                        }
                    }
                }
            }
        }
        if t.runs % 97 == 5 {
            // one seed is one exactly repeatable execution
            let again = ctx.sandbox.run(&p);
            t.replays += 1;
            if again.write() != rep.write() {
                t.replay_diff += 1;
            }
        }
        if t.samples.is_empty() && v.nontrivial && w < 3 && to_text(&p).len() < 20_000 {
            let s = to_text(&p);
            let mut s: String = s.chars().take(3000).collect();
            let _ = write!(s, "\n-> {} ({} switches, {} steps)", rep.status, rep.switches.len(), rep.steps);
            for o in rep.ops.iter().flatten().take(6) {
                let x: String = o.text.chars().take(160).collect();
                let _ = write!(s, "\n-> {} {}", o.tag as char, x);
            }
            t.samples.push(s);
        }
        if let Some((class, msg)) = v.viol {
            match known.iter().find(|k| k.property == prop && msg.contains(&k.contains)) {
                Some(k) => *t.known.entry(k.text.clone()).or_insert(0) += 1,
                None => {
                    t.viol = Some((i, class, msg, to_text(&p)));
                    stop.fetch_min(i, Ordering::SeqCst);
                    break;
                }
            }
        }
        i += WORKERS;
    }
    t.solo_runs = ctx.solo_runs;
    t.solo_hits = ctx.solo_hits;
    t.pool = ctx.pool.len() as u64;
    let edges = unsafe { std::slice::from_raw_parts(ctx.sandbox.edges, rt::NGUARDS as usize + 1).to_vec() };
    (t, edges)
}

/// The whole check; returns the exit code
pub fn check(prop: &str, tier: usize, count: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let (mut total, cap) = run_count(prop, tier);
    if let Some(c) = count {
        total = c;
    }
    let cap = Duration::from_secs(std::env::var("SIM_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(cap));
    let seed = seed();
    let dir = format!("{}/target/work-{}-{}", root(), prop, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let stop = unsafe { &*(map_shared(4096) as *const AtomicU64) };
    stop.store(u64::MAX, Ordering::SeqCst);
    let mut pids = vec![];
    for w in 0..WORKERS {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                let nul = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                if std::env::var("SIM_DEBUG").is_err() {
                    libc::dup2(nul, 2);
                }
                libc::dup2(nul, 0);
                libc::dup2(nul, 1);
            }
            let (t, edges) = worker(prop, tier, w, total, cap, stop, seed);
            let ok = std::fs::write(format!("{}/{}", dir, w), t.write(&edges)).is_ok();
            unsafe { libc::_exit(if ok { 0 } else { 3 }) };
        }
        pids.push(pid);
    }
    let mut broken = 0;
    for pid in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} };
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            broken += 1;
        }
    }
    let mut t = Tally::default();
    let mut edges = vec![0u8; unsafe { rt::NGUARDS } as usize + 1];
    for w in 0..WORKERS {
        if let Ok(b) = std::fs::read(format!("{}/{}", dir, w)) {
            t.merge(&b, &mut edges);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let search_s = t0.elapsed().as_secs_f64();
    if broken > 0 {
        eprintln!("simscilla: {} worker(s) failed", broken);
        return 2;
    }
    for (k, n) in &t.known {
        println!("KNOWN-FINDING: property={} {} ({} runs)", prop, k, n);
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((i, class, msg, text)) = t.viol.clone() {
        nviol = 1;
        match report_violation(prop, i, seed, &class, &msg, &text) {
            Some(path) => {
                println!("VIOLATION property={} replay={}", prop, path);
                code = 1;
            }
            None => {
                println!("simscilla: a suspected violation did not reproduce: run {} class {}: {}", i, class, msg);
                code = 2;
            }
        }
    }
    evidence(prop, tier, seed, total, &t, &edges, search_s, t0.elapsed().as_secs_f64(), nviol);
    println!(
        "{} {}: {} runs, {} evaluations, {} distinct non-trivial, {} preemptions, {:.1} s",
        prop,
        if tier == 0 { "quick" } else { "thorough" },
        t.runs,
        t.evals,
        t.sigs.len(),
        t.switches,
        t0.elapsed().as_secs_f64()
    );
    if t.replay_diff > 0 {
        println!("note: {} of {} repeated runs were not identical", t.replay_diff, t.replays);
    }
    code
}

fn report_violation(prop: &str, i: u64, seed: u64, class: &str, msg: &str, text: &str) -> Option<String> {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let plan = from_text(text).ok()?;
    let mut ctx = Ctx::new();
    let (_, v) = ctx.eval(&plan);
    let confirmed = v.viol.as_ref().is_some_and(|x| x.0 == class);
    let small = if confirmed { minimise::minimise(&mut ctx, &plan, class, Duration::from_secs(45)) } else { plan.clone() };
    let path = format!("{}/{}-seed{}-run{}.plan", dir, prop, seed, i);
    let mut unstable = None;
    for p in [&small, &plan] {
        let (_, v) = ctx.eval(p);
        let (c, m) = match v.viol {
            Some(x) => x,
            None => continue,
        };
        let mut s = String::new();
        let _ = writeln!(s, "# violation of {} found at seed {} run {} ({})", prop, seed, i, c);
        for l in m.lines() {
            let _ = writeln!(s, "# {}", l);
        }
        let _ = writeln!(s, "# replay with: /verif/check replay {}", path);
        s.push_str(&to_text(p));
        std::fs::write(&path, s).ok()?;
        // the file must reproduce the violation in a fresh process, exactly
        let exe = std::env::current_exe().ok()?;
        let mut same = 0;
        for _ in 0..2 {
            if let Ok(o) = std::process::Command::new(&exe).arg("replay").arg(&path).output() {
                let so = String::from_utf8_lossy(&o.stdout).into_owned();
                if o.status.code() == Some(1) && so.contains(&format!("class {}\n", c)) {
                    same += 1;
                }
            }
        }
        if same > 0 {
            println!("violation ({}) in run {}: {}", c, i, m);
        }
        if same == 2 {
            return Some(path);
        }
        if same > 0 {
            unstable = Some(path.clone());
        }
    }
    let _ = msg;
    unstable
}

/// Run a replay file: exit 1 and the violation if it is there
pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let p = match from_text(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let mut ctx = Ctx::new();
    let (rep, v) = ctx.eval(&p);
    if std::env::var("SIM_VERBOSE").is_ok() {
        println!("status {} at {:?} notes {:?} proc {:?}", rep.status, rep.at, rep.panic_note, rep.proc_bad);
        for (t, ops) in p.threads.iter().enumerate() {
            for (j, op) in ops.iter().enumerate() {
                let o = &rep.ops[t][j];
                println!("[{} {}] {}\n   {} {}\n   kind {} bad {:?} verdicts {:?}\n   {:?}", t + 1, j, op_text(op), o.tag as char, o.text, o.kind, o.bad, o.verdicts, o.trace);
            }
        }
        println!("live {:?}", rep.live);
    }
    match v.viol {
        Some((c, m)) => {
            println!("class {}\n{}", c, m);
            println!("VIOLATION property={} replay={}", p.property, file);
            1
        }
        None => {
            println!("no violation ({}; {} steps, {} switches)", rep.status, rep.steps, rep.switches.len());
            0
        }
    }
}

// ------------------------------------------------------------------ evidence

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn js_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn level(prop: &str) -> &'static str {
    match prop {
        "C04" | "C09" => "fault_enumeration",
        _ => "exploration",
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: usize, seed: u64, total: u64, t: &Tally, edges: &[u8], search_s: f64, wall: f64, nviol: u64) {
    let faults: BTreeMap<String, u64> = rt::FAULT_NAMES
        .iter()
        .zip(&t.fired)
        .filter(|x| *x.1 > 0)
        .map(|(a, b)| (a.to_string(), *b))
        .collect();
    let hit = edges.iter().filter(|x| **x != 0).count();
    let per_hour = if search_s > 0.0 { t.runs as f64 * 3600.0 / search_s } else { 0.0 };
    let samples: Vec<String> = t.samples.iter().map(|s| js(s)).collect();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
        js(prop),
        js(if tier == 0 { "quick" } else { "thorough" }),
        seed,
        js(level(prop))
    );
    let _ = write!(
        o,
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        t.evals,
        t.sigs.len(),
        js(props::rule(prop))
    );
    let _ = write!(
        o,
        "  \"simulated_runs\": {},\n  \"runs_planned\": {},\n  \"wall_cap_hit_in_workers\": {},\n  \"nontrivial_runs\": {},\n  \"reference_runs_alone_in_a_fresh_process\": {},\n  \"reference_runs_reused\": {},\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n",
        t.runs, total, t.capped, t.nontrivial, t.solo_runs, t.solo_hits, per_hour, per_hour
    );
    let _ = write!(
        o,
        "  \"simulated_seconds\": {:.3},\n  \"scheduling_points_passed\": {},\n  \"preemptions\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": {},\n  \"times_a_thread_blocked\": {},\n  \"caller_threads\": {},\n  \"simulated_io_calls\": {},\n",
        t.sim_ns as f64 / 1e9,
        t.steps,
        t.switches,
        t.ihashes.len(),
        js("hash of the sequence of (thread, operation, code location, next thread) over all preemptions of a run"),
        t.blocked,
        t.threads,
        t.io_calls
    );
    let _ = write!(
        o,
        "  \"faults_injected\": {},\n  \"operations\": {},\n  \"operation_outcomes\": {},\n  \"run_endings\": {},\n",
        js_map(&faults),
        js_map(&t.ops),
        js_map(&t.outcomes),
        js_map(&t.statuses)
    );
    if !t.answers.is_empty() {
        let _ = write!(o, "  \"answers_by_callback\": {},\n", js_map(&t.answers));
    }
    let _ = write!(
        o,
        "  \"code_edges_reached\": {},\n  \"code_edges_instrumented\": {},\n  \"guided_pool_entries\": {},\n",
        hit,
        edges.len() - 1,
        t.pool
    );
    let _ = write!(
        o,
        "  \"runs_repeated_for_determinism\": {},\n  \"repeated_runs_that_differed\": {},\n",
        t.replays, t.replay_diff
    );
    let _ = write!(
        o,
        "  \"components\": {{\"real\": [\"scilla_parser from /repo's working tree (lexer, generated grammar parsers, syntax tree, traversal, emitter, Contract::parse)\", \"Rust standard library\", \"regex, lalrpop-util\", \"OS threads, one running at a time\"], \"stub\": [\"file system and file I/O\", \"clock and sleep\", \"random bytes\", \"environment variables, working directory, CPU count\", \"futex and thread start/join (scheduled by the simulator)\", \"standard output/error (recorded)\", \"caller callbacks\"]}},\n"
    );
    let _ = write!(o, "  \"samples\": [{}]\n }},\n", samples.join(", "));
    let _ = write!(
        o,
        " \"assumptions\": [{}, {}, {}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        js("sequentially consistent interleavings at basic-block granularity of the crate; weak memory effects are not simulated"),
        js("code outside the crate (standard library, regex) runs atomically between its system calls and lock operations"),
        js("a clean result covers the seeds explored, not every schedule or input"),
        wall,
        nviol
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{}/{}.json", dir, prop);
    if let Err(e) = std::fs::write(&f, o) {
        eprintln!("{}: {}", f, e);
    }
}

// ------------------------------------------------------------------ self-test

/// Every property's plans: text form round-trips, and running twice gives identical reports
pub fn selftest(n: u64) -> i32 {
    let mut ctx = Ctx::new();
    let mut failed = 0;
    for prop in props::CLAIMED {
        let mut diff = 0;
        let t0 = Instant::now();
        for i in 0..n {
            let mut r = Rng::new(derive(seed(), prop, i));
            let p = props::generate(prop, &mut r, i, 0, &mut ctx);
            match from_text(&to_text(&p)) {
                Ok(q) if q == p => {}
                Ok(_) => {
                    println!("{} run {}: the text form does not round-trip", prop, i);
                    failed += 1;
                }
                Err(e) => {
                    println!("{} run {}: text form: {}", prop, i, e);
                    failed += 1;
                }
            }
            let a = ctx.sandbox.run(&p);
            let b = ctx.sandbox.run(&p);
            let same = a.write() == b.write();
            // the recorded switches replayed explicitly are the same execution
            let mut q = p.clone();
            let mut same2 = true;
            if p.sched != Sched::None {
                q.sched = Sched::Explicit(a.switches.clone());
                let c = ctx.sandbox.run(&q);
                same2 = c.ihash == a.ihash && c.steps == a.steps && c.ops == a.ops;
            }
            if !same || !same2 {
                diff += 1;
                if diff <= 3 {
                    println!("{} run {}: repeated {} explicit {}", prop, i, same, same2);
                    std::fs::write(format!("{}/target/selftest-{}-{}.plan", root(), prop, i), to_text(&p)).ok();
                }
            }
        }
        println!("{}: {} runs, {} not repeatable, {:.1} s", prop, n, diff, t0.elapsed().as_secs_f64());
        failed += diff;
    }
    (failed > 0) as i32
}

/// How often generated contracts are accepted
pub fn acceptance(n: u64) -> i32 {
    use crate::gen::*;
    let mut ctx = Ctx::new();
    for (name, o) in [("tiny", TINY), ("small", SMALL), ("rich", RICH)] {
        let mut okn = 0;
        let mut len = 0;
        let t0 = Instant::now();
        for i in 0..n {
            let mut r = Rng::new(derive(seed(), name, i));
            let s = program(&mut r, o);
            len += s.len();
            let mut p = Plan::new("solo");
            p.lit(s.clone().into_bytes());
            p.threads.push(vec![Op::ParseStr { content: 0 }]);
            let rep = ctx.sandbox.run(&p);
            let x = &rep.ops[0][0];
            if x.tag == b'O' {
                okn += 1;
            } else if i < 40 {
                println!("--- {} {}\n{}\n=> {} {}", name, i, s, rep.status, x.text);
            }
        }
        println!("{}: {}/{} accepted, mean {} bytes, {:.1} ms/run", name, okn, n, len as u64 / n, t0.elapsed().as_secs_f64() * 1000.0 / n as f64);
    }
    0
}
