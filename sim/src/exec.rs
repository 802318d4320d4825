//! Runs one plan to the end inside the current (forked) process and reports what happened.

use crate::alloc::LIVE;
use crate::plan::*;
use crate::report::*;
use crate::rt::{self, rt, Host, OpIo, St};
use crate::visit::*;
use scilla_parser::ast::nodes::*;
use scilla_parser::ast::visitor::AstVisitor;
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
use scilla_parser::parser::parser as g;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::{Contract, Error};
use std::os::unix::ffi::OsStrExt;
use std::sync::atomic::{AtomicU64, Ordering};

pub static HOOK_CALLS: AtomicU64 = AtomicU64::new(0);
static mut HOOK_PTR: usize = 0;

pub fn install_hook() {
    let mark = Box::leak(Box::new(AtomicU64::new(1)));
    let f: Box<dyn Fn(&std::panic::PanicHookInfo) + Send + Sync> = Box::new(move |_| {
        mark.fetch_add(1, Ordering::Relaxed);
        HOOK_CALLS.fetch_add(1, Ordering::Relaxed);
    });
    unsafe { HOOK_PTR = &*f as *const _ as *const u8 as usize };
    std::panic::set_hook(f);
}
fn hook_intact() -> bool {
    let h = std::panic::take_hook();
    let p = &*h as *const _ as *const u8 as usize;
    std::panic::set_hook(h);
    p == unsafe { HOOK_PTR }
}

pub enum Tree {
    Program(NodeProgram),
    Contract(WithMetaData<NodeContractDefinition>),
    Expr(WithMetaData<NodeFullExpression>),
    TypeArgs(WithMetaData<NodeContractTypeArguments>),
    Ty(WithMetaData<NodeScillaType>),
    Stmts(WithMetaData<NodeStatementBlock>),
}

// Whether a type may be shared between threads, found out without requiring it
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> No for &Probe<T> {}
trait Yes {
    fn shareable(&self) -> bool {
        true
    }
}
impl<T: Sync> Yes for Probe<T> {}
#[allow(clippy::needless_borrow)]
pub fn tree_shareable() -> bool {
    (&Probe::<Tree>(std::marker::PhantomData)).shareable()
}
#[allow(clippy::needless_borrow)]
fn parser_shareable() -> bool {
    (&Probe::<g::ProgramParser>(std::marker::PhantomData)).shareable()
}

struct World {
    plan: *const Plan,
    outs: Vec<Vec<Outcome>>,
    trees: Vec<Option<Tree>>,
    bases: Vec<[Option<Vec<Em>>; 2]>,
    ast_notes: Vec<String>,
    parser: Option<g::ProgramParser>,
    live: Vec<i64>,
    out: *mut u8,
    cap: usize,
    cur: (u32, u32),
    texts: Vec<String>,
    held: Vec<Vec<(usize, Contract)>>,
}
static mut WORLD: *mut World = std::ptr::null_mut();
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

fn finish_run(status: &str) -> ! {
    // Harness code from here on, whoever called
    std::mem::forget(Host::enter());
    let w = world();
    let r = rt();
    let mut rep = Report {
        status: status.to_string(),
        at: w.cur,
        ops: std::mem::take(&mut w.outs),
        switches: std::mem::take(&mut r.switches),
        steps: r.steps,
        sim_ns: r.clock - r.clock0,
        ihash: r.ihash,
        fired: r.fired.to_vec(),
        io_calls: r.io_calls,
        live: std::mem::take(&mut w.live),
        blocked: r.blocked,
        panic_note: w.ast_notes.join("; "),
        proc_bad: vec![],
    };
    if status != "done" {
        // what the interrupted operations had already done wrong
        for t in 0..r.thr.len() {
            for b in &r.thr[t].io.bad {
                rep.proc_bad.push(b.clone());
            }
        }
        if r.cur != rt::NONE && r.cur < r.thr.len() {
            rep.at = (r.cur as u32, r.thr[r.cur].op);
        }
    }
    let b = rep.write();
    unsafe {
        if b.len() + 8 <= w.cap {
            std::ptr::copy_nonoverlapping(b.as_ptr(), w.out.add(8), b.len());
            (w.out as *mut u64).write_volatile(b.len() as u64);
        } else {
            (w.out as *mut u64).write_volatile(u64::MAX);
        }
        rt::raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
fn on_fatal(what: &str) -> ! {
    finish_run(what)
}

/// Run a whole plan in this process; never returns.
pub fn run_plan(plan: &Plan, out: *mut u8, cap: usize) -> ! {
    unsafe {
        rt::FATAL = Some(on_fatal);
        (out as *mut u64).write_volatile(0);
        // real-time backstop for loops the instrumentation cannot see
        rt::raw6(libc::SYS_alarm, 120, 0, 0, 0, 0, 0);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    rt::init(plan);
    crate::sys::set_environ();
    let w = World {
        plan,
        outs: plan.threads.iter().map(|t| vec![Outcome::default(); t.len()]).collect(),
        trees: vec![],
        bases: vec![],
        ast_notes: vec![],
        parser: None,
        live: vec![],
        out,
        cap,
        cur: (0, 0),
        texts: (0..plan.contents.len()).map(|i| plan.text(i)).collect(),
        held: plan.threads.iter().map(|_| vec![]).collect(),
    };
    unsafe { WORLD = Box::into_raw(Box::new(w)) };

    // set-up: one thread parses the shared syntax trees and records undisturbed traversals
    let t0 = rt::add_thread(false);
    if !plan.asts.is_empty() || plan.threads.iter().flatten().any(|o| matches!(o, Op::ParseTokens { shared: true, .. })) {
        let h = spawn(t0, setup);
        rt::run_until_finish(t0);
        let _ = h.join();
    } else {
        rt().thr[t0].st = St::Done;
    }

    let n = plan.threads.len();
    for _ in 0..n {
        rt::add_thread(false);
    }
    // "no schedule": a library that starts its own threads still gets them interleaved
    rt().multi = n > 1 && plan.sched != Sched::None;
    let sequential = plan.sched == Sched::None;
    let mut handles: Vec<Option<std::thread::JoinHandle<()>>> = vec![None];
    handles.resize_with(n + 1, || None);
    let start = if n == 0 { 0 } else { plan.start % n + 1 };
    if sequential {
        for d in 0..n {
            let t = (start - 1 + d) % n + 1;
            let h = spawn(t, move || body(t));
            // only this thread and threads it starts can run
            for o in 1..=n {
                if o != t && rt().thr[o].st == St::Ready {
                    rt().thr[o].st = St::Sleep { until: u64::MAX };
                }
            }
            while rt().thr[t].st != St::Done {
                rt::run_until_finish(t);
            }
            let _ = h.join();
            for o in 1..=n {
                if let St::Sleep { until: u64::MAX } = rt().thr[o].st {
                    rt().thr[o].st = St::Ready;
                }
            }
            if plan.epochs <= 1 {
                world().live.push(LIVE.load(Ordering::Relaxed));
            }
        }
    } else {
        for t in 1..=n {
            handles[t] = Some(spawn(t, move || body(t)));
        }
        let mut prefer = start;
        while (1..=n).any(|t| rt().thr[t].st != St::Done) {
            rt::run_until_finish(prefer);
            for t in 1..=n {
                if rt().thr[t].st == St::Done {
                    if let Some(h) = handles[t].take() {
                        let _ = h.join();
                        prefer = t % n + 1;
                    }
                }
            }
        }
    }
    if !hook_intact() {
        if let Some(o) = world().outs.iter_mut().flatten().last() {
            o.bad.push("the panic hook was changed".into());
        }
    }
    finish_run("done")
}

fn spawn(t: usize, f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
    // C06: a process's main thread usually has 8 MiB
    let c06 = unsafe { &*world().plan }.property == "C06";
    std::thread::Builder::new()
        .stack_size(if c06 { 8 } else { 256 } << 20)
        .spawn(move || {
            let gate: *const rt::Gate = &*rt().thr[t].gate;
            unsafe { (*gate).pass() };
            let h = Host::enter();
            rt::become_thread(t);
            f();
            rt::finish(t);
            drop(h);
        })
        .expect("thread")
}

fn parse_tree(text: &str, root: Root) -> Result<Tree, String> {
    let mut errs = vec![];
    let lx = Lexer::new(text);
    let e = |e| Error::from(e).to_string();
    Ok(match root {
        Root::Program => Tree::Program(g::ProgramParser::new().parse(&mut errs, lx).map_err(e)?),
        Root::Contract => Tree::Contract(g::ContractDefinitionParser::new().parse(&mut errs, lx).map_err(e)?),
        Root::Expression => Tree::Expr(g::FullExpressionParser::new().parse(&mut errs, lx).map_err(e)?),
        Root::TypeArgs => Tree::TypeArgs(g::ContractTypeArgumentsParser::new().parse(&mut errs, lx).map_err(e)?),
        Root::ScillaType => Tree::Ty(g::ScillaTypeParser::new().parse(&mut errs, lx).map_err(e)?),
        Root::Statements => Tree::Stmts(g::StatementBlockParser::new().parse(&mut errs, lx).map_err(e)?),
    })
}

fn traverse(t: &Tree, root: Root, rec: &mut Recorder) -> Result<(), String> {
    match t {
        Tree::Program(p) if root == Root::Contract => p.contract_definition.visit(rec),
        Tree::Program(p) => p.visit(rec),
        Tree::Contract(p) => p.visit(rec),
        Tree::Expr(p) => p.visit(rec),
        Tree::TypeArgs(p) => p.visit(rec),
        Tree::Ty(p) => p.visit(rec),
        Tree::Stmts(p) => p.visit(rec),
    }
    .map(|_| ())
}

fn base_slot(ast: Root, root: Root) -> usize {
    (ast == Root::Program && root == Root::Contract) as usize
}

fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(i) = p.downcast_ref::<Injected>() {
        format!("injected panic {}", i.0)
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a payload of another type".into()
    }
}

fn budget(bytes: usize) -> u64 {
    20_000_000 + 20_000 * bytes as u64
}

fn setup() {
    let w = world();
    let plan = unsafe { &*w.plan };
    rt::op_begin(0, 0, OpIo::default(), u64::MAX / 2);
    for (i, a) in plan.asts.iter().enumerate() {
        let text = w.texts[a.content].clone();
        rt::op_begin(0, i as u32, OpIo::default(), budget(text.len()) * 4);
        let r = rt::sut(|| parse_tree(&text, a.root));
        let mut bases = [None, None];
        let tree = match r {
            Ok(Ok(t)) => {
                for root in [a.root, Root::Contract] {
                    let slot = base_slot(a.root, root);
                    if bases[slot].is_some() {
                        continue;
                    }
                    let mut rec = Recorder::new(&[], 4_000_000);
                    let v = rt::sut(|| traverse(&t, root, &mut rec));
                    let d = digest(&rec.log);
                    let end = match &v {
                        Ok(Ok(())) => End::Ok,
                        Ok(Err(e)) => {
                            w.ast_notes.push(format!("C09: undisturbed traversal failed with {:?}", e));
                            w.ast_notes.push(format!("C10: undisturbed traversal failed with {:?}", e));
                            End::Err
                        }
                        Err(p) => {
                            w.ast_notes.push(format!("C09: undisturbed traversal panicked: {}", payload_text(&**p)));
                            w.ast_notes.push(format!("C10: undisturbed traversal panicked: {}", payload_text(&**p)));
                            End::Panic
                        }
                    };
                    if end == End::Ok {
                        if let Some(x) = check_balance(&d, &[], End::Ok) {
                            w.ast_notes.push(format!("C10: undisturbed traversal: {}", x));
                        }
                    }
                    bases[slot] = Some(d.ems);
                }
                Some(t)
            }
            Ok(Err(e)) => {
                w.ast_notes.push(format!("ast {} not parsed: {}", i, e));
                None
            }
            Err(p) => {
                w.ast_notes.push(format!("ast {} panicked: {}", i, payload_text(&*p)));
                None
            }
        };
        w.trees.push(tree);
        w.bases.push(bases);
    }
    w.parser = rt::sut(g::ProgramParser::new).ok();
}

fn body(t: usize) {
    let w = world();
    let plan = unsafe { &*w.plan };
    let epochs = plan.epochs.max(1);
    for e in 0..epochs {
        let serial = if epochs > 1 { Some(e as usize) } else if plan.property == "C11" { Some(t) } else { None };
        for (j, op) in plan.threads[t - 1].iter().enumerate() {
            w.cur = (t as u32, j as u32);
            let opnum = e as usize * plan.threads[t - 1].len() + j;
            let o = match op {
                Op::Repeat { n: 0 } => unwinding(plan, t, j, opnum, serial),
                Op::Repeat { n } => repeat(plan, t, j, opnum, *n, serial),
                _ => run_op(plan, t, j, opnum, op, serial),
            };
            let slot = &mut w.outs[t - 1][j];
            if let Some(c) = unsafe { (*KEPT.0.get()).remove(&t) } {
                w.held[t - 1].push((j, c));
            }
            if e > 0 {
                let mut o = o;
                o.bad.extend(std::mem::take(&mut slot.bad));
                o.verdicts.extend(std::mem::take(&mut slot.verdicts));
                *slot = o;
            } else {
                *slot = o;
            }
        }
        if epochs > 1 {
            w.live.push(LIVE.load(Ordering::Relaxed));
        }
    }
    // results kept all the while are still what they were
    for (j, c) in std::mem::take(&mut w.held[t - 1]) {
        rt::op_begin(t, 1_000_000 + j as u32, OpIo::default(), u64::MAX / 2);
        let r = rt::sut(|| format!("{:?}", c));
        let o = &mut w.outs[t - 1][j];
        let now = match r {
            Ok(s) if s == o.text => None,
            Ok(s) => Some(s),
            Err(p) => Some(payload_text(&*p)),
        };
        if let Some(s) = now {
            for id in ["C01", "C02"] {
                o.verdicts.push(format!("{}: the contract returned changed while other calls were made: now {}", id, s));
            }
        }
        let _ = rt::sut(move || drop(c));
    }
}

/// The contract the thread's operation has just returned, if results are kept in this run
struct Kept(std::cell::UnsafeCell<std::collections::BTreeMap<usize, Contract>>);
unsafe impl Sync for Kept {}
static KEPT: Kept = Kept(std::cell::UnsafeCell::new(std::collections::BTreeMap::new()));

/// In memory plans the placeholders Qq0000 and 710000 are replaced so that every round sees new names
fn renumber(s: &str, serial: Option<usize>) -> String {
    match serial {
        Some(n) => {
            let n = n % 10000;
            s.replace("Qq0000", &format!("Qq{:04}", n)).replace("710000", &format!("71{:04}", n))
        }
        _ => s.to_string(),
    }
}

type Tok<'a> = (SourcePosition, Token<&'a str>, SourcePosition);

struct Feed<'a> {
    toks: std::vec::IntoIter<Tok<'a>>,
    at: usize,
    panic_at: Option<usize>,
    nest: Vec<(usize, usize)>,
    nested: &'a mut Vec<String>,
}

/// Called by a callback of the library: parse a content
pub fn nested_parse(c: usize) -> String {
    let text = world().texts[c].clone();
    let mut o = Outcome::default();
    let r = rt::sut(|| text.parse::<Contract>());
    set_result(&mut o, r);
    let kept = unsafe { (*KEPT.0.get()).remove(&rt().cur) };
    let _ = rt::sut(move || drop(kept));
    format!("{} {} {}", c, o.tag as char, o.text)
}

/// Called by a callback of a traversal: traverse the same tree from its root
pub fn nested_visit(tree: &Tree, root: Root, max: usize, dec: Dec) -> String {
    let decs: Vec<(u32, Dec)> = inner_answer(dec).into_iter().collect();
    let mut rec = Recorder::new(&decs, max);
    let r = rt::sut(|| traverse(tree, root, &mut rec));
    let d = digest(&rec.log);
    let how = match r {
        Ok(Ok(())) => "ended".to_string(),
        Ok(Err(e)) => format!("failed with {}", e),
        Err(p) => format!("panicked with {}", payload_text(&*p)),
    };
    format!("{} after {} {:016x}", how, d.ems.len(), hash_log(&d.ems))
}
/// The answer one callback of an inner traversal gives
fn inner_answer(dec: Dec) -> Option<(u32, Dec)> {
    match dec {
        Dec::AgainStop(k, 0) => Some((k, Dec::Skip)),
        Dec::AgainStop(k, 1) => Some((k, Dec::Fail)),
        Dec::AgainStop(k, _) => Some((k, Dec::Panic)),
        _ => None,
    }
}
/// What an inner traversal has to give
fn inner_expected(base: &[Em], dec: Dec) -> String {
    let fired: Vec<(u32, Dec)> = inner_answer(dec).into_iter().filter(|(k, _)| (*k as usize) < base.len()).collect();
    let how = match fired.first() {
        Some((k, Dec::Fail)) => format!("failed with {}", error_text(*k)),
        Some((k, Dec::Panic)) => format!("panicked with {}", payload_text(&Injected(*k))),
        _ => "ended".to_string(),
    };
    let ems = expected(base, &fired);
    format!("{} after {} {:016x}", how, ems.len(), hash_log(&ems))
}
impl<'a> Iterator for Feed<'a> {
    type Item = Result<Tok<'a>, scilla_parser::parser::lexer::ParseError>;
    fn next(&mut self) -> Option<Self::Item> {
        rt::point(rt::Pt::Cb, 1);
        let h = Host::enter();
        if self.panic_at == Some(self.at) {
            rt().fired[18] += 1;
            let k = self.at as u32;
            drop(h);
            std::panic::panic_any(Injected(k));
        }
        for (i, c) in &self.nest {
            if *i == self.at {
                rt().fired[20] += 1;
                let x = nested_parse(*c);
                self.nested.push(x);
            }
        }
        self.at += 1;
        self.toks.next().map(Ok)
    }
}

fn contract_parts(c: &Contract) -> Vec<String> {
    let mut v = vec![format!("N {}", c.name)];
    v.extend(c.init_params.iter().map(|f| format!("I {:?}", f)));
    v.extend(c.fields.iter().map(|f| format!("F {:?}", f)));
    v.extend(c.transitions.iter().map(|f| format!("T {:?}", f)));
    v
}

fn keep_or_drop(c: Contract) {
    let t = rt().cur;
    if t != rt::NONE && t > 0 && t <= world().held.len() && matches!(unsafe { &*world().plan }.property.as_str(), "C01" | "C02") {
        let old = unsafe { (*KEPT.0.get()).insert(t, c) };
        let _ = rt::sut(move || drop(old));
    } else {
        let _ = rt::sut(move || drop(c));
    }
}

fn set_result(o: &mut Outcome, r: std::thread::Result<Result<Contract, Error>>) {
    match r {
        Ok(Ok(c)) => {
            o.tag = b'O';
            o.parts = contract_parts(&c);
            o.text = format!("{:?}", c);
            keep_or_drop(c);
        }
        Ok(Err(e)) => {
            o.tag = b'E';
            o.text = format!("{:?} | {}", e, e);
            o.kind = match &e {
                Error::IoError(i) => {
                    o.errno = i.raw_os_error().unwrap_or(-1);
                    format!("Io {:?}", i.kind())
                }
                Error::ParseError(_) => "Parse".into(),
                Error::AstVisitError(_) => "Visit".into(),
                Error::FromUtf8Error(_) => "Utf8".into(),
            };
            let _ = rt::sut(move || drop(e));
        }
        Err(p) => set_panic(o, p),
    }
}

fn set_panic(o: &mut Outcome, p: Box<dyn std::any::Any + Send>) {
    o.tag = if p.is::<Injected>() { b'I' } else { b'P' };
    o.text = payload_text(&*p);
}

/// The operation before this one again, made by a destructor while a panic of the caller's own
/// unwinds the thread
fn unwinding(plan: &Plan, t: usize, j: usize, opnum: usize, serial: Option<usize>) -> Outcome {
    struct Guard<F: FnMut()>(F);
    impl<F: FnMut()> Drop for Guard<F> {
        fn drop(&mut self) {
            (self.0)()
        }
    }
    let op = plan.effective(t - 1, j);
    let mut out = Outcome::default();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _g = Guard(|| out = run_op(plan, t, j, opnum, op, serial));
        std::panic::resume_unwind(Box::new(Injected(0)));
    }));
    rt().fired[25] += 1;
    out
}

/// The operation before this one again and again; the first outcome unlike the others is kept
fn repeat(plan: &Plan, t: usize, j: usize, opnum: usize, n: usize, serial: Option<usize>) -> Outcome {
    let op = plan.effective(t - 1, j);
    let mut first: Option<Outcome> = None;
    let stop = rt().steps + 100_000_000;
    for k in 0..n.max(1) {
        if rt().steps > stop {
            break;
        }
        if k % 256 == 255 {
            unsafe { rt::raw6(libc::SYS_alarm, 120, 0, 0, 0, 0, 0) };
        }
        let mut o = run_op(plan, t, j, opnum, op, serial);
        while matches!(rt().fs.handles.last(), Some(None)) {
            rt().fs.handles.pop();
        }
        let f = match &first {
            None => {
                first = Some(o);
                continue;
            }
            Some(f) => f,
        };
        if (o.tag, &o.text, &o.nested) != (f.tag, &f.text, &f.nested) || !o.bad.is_empty() || !o.verdicts.is_empty() {
            rt::trace(t, format!("repetition {}", k));
            for v in o.verdicts.iter_mut() {
                v.push_str(&format!(" (repetition {})", k));
            }
            return o;
        }
    }
    first.unwrap_or_default()
}

fn run_op(plan: &Plan, t: usize, j: usize, opnum: usize, op: &Op, serial: Option<usize>) -> Outcome {
    let w = world();
    let mut o = Outcome { done: true, ..Default::default() };
    let mut io = OpIo::default();
    let mut size = 0;
    match op {
        Op::ParsePath { file, chunks, faults, events } => {
            if plan.property == "C11" {
                // the file holds this round's text
                let c = plan.files[*file].content;
                let text = renumber(&w.texts[c], serial);
                rt().contents[c] = text.into_bytes();
                rt::fs_install(*file, c, false);
            }
            let path = rt().paths[*file].clone();
            io.path = Some(path.clone());
            io.faults = faults.clone();
            io.fired = vec![false; faults.len()];
            io.alloc_faults = faults.iter().any(|f| f.kind == IoKind::Alloc);
            io.events = events.clone();
            io.ev_fired = vec![false; events.len()];
            io.chunks = chunks.clone();
            size = rt().contents.iter().map(|c| c.len()).max().unwrap_or(0) * 2;
            if let Some(i) = rt().fs.names.get(&path) {
                if let Some(c) = rt().fs.inodes[*i].content {
                    io.seen.push(c);
                }
            }
        }
        Op::ParseStr { content } | Op::Lex { content, .. } | Op::ParseTokens { content, .. } => {
            size = w.texts[*content].len() * 2
        }
        Op::Visit { ast, decs, .. } => {
            size = w.texts[plan.asts[*ast].content].len() * 2;
            for (_, d) in decs {
                match d {
                    Dec::Nest(c) => size += w.texts[*c].len() * 2,
                    Dec::Again | Dec::AgainStop(..) => size += w.texts[plan.asts[*ast].content].len() * 2,
                    _ => {}
                }
            }
        }
        Op::Emit { ast } => size = w.texts[plan.asts[*ast].content].len() * 2,
        Op::Write { .. } | Op::Repeat { .. } => {}
    }
    if let Op::ParseTokens { edits, .. } = op {
        for e in edits {
            if let TokEdit::Nest(_, c) = e {
                size += w.texts[*c].len() * 2;
            }
        }
    }
    let live0 = LIVE.load(Ordering::Relaxed);
    rt::op_begin(t, opnum as u32, io, budget(size));
    match op {
        Op::ParsePath { file, .. } => {
            let path = std::path::PathBuf::from(std::ffi::OsStr::from_bytes(&plan.files[*file].path));
            let r = rt::sut(|| Contract::parse(&path));
            set_result(&mut o, r);
        }
        Op::ParseStr { content } => {
            let text = renumber(&w.texts[*content], serial);
            let r = rt::sut(|| text.parse::<Contract>());
            set_result(&mut o, r);
        }
        Op::Lex { content, limit } => {
            let text = renumber(&w.texts[*content], serial);
            let cap = text.len() + 16;
            let r = rt::sut(|| {
                let mut v = vec![];
                let mut lx = Lexer::new(&text);
                while v.len() < *limit {
                    match lx.next() {
                        Some(Ok(x)) => v.push(x),
                        Some(Err(_)) => {}
                        None => break,
                    }
                    if v.len() > cap {
                        rt::fatal("hang");
                    }
                }
                v
            });
            match r {
                Ok(v) => {
                    o.tag = b'V';
                    o.cbs = v.len() as u32;
                    let mut h = 0u64;
                    let mut s = String::new();
                    for x in &v {
                        let d = format!("{:?}", x);
                        h = crate::rng::mix(h ^ crate::rng::hash_bytes(d.as_bytes()));
                        if s.len() < 2000 {
                            s.push_str(&d);
                            s.push('\n');
                        }
                    }
                    o.text = format!("{} tokens {:016x}\n{}", v.len(), h, s);
                    let _ = rt::sut(move || drop(v));
                }
                Err(p) => set_panic(&mut o, p),
            }
        }
        Op::ParseTokens { content, shared, edits } => {
            let text = renumber(&w.texts[*content], serial);
            let cap = text.len() + 16;
            let lexed = rt::sut(|| {
                let mut v: Vec<Tok> = vec![];
                for x in Lexer::new(&text) {
                    #[allow(irrefutable_let_patterns)]
                    if let Ok(x) = x {
                        v.push(x);
                    }
                    if v.len() > cap {
                        rt::fatal("hang");
                    }
                }
                v
            });
            match lexed {
                Err(p) => set_panic(&mut o, p),
                Ok(mut toks) => {
                    let mut panic_at = None;
                    let mut nest = vec![];
                    let mut nested = vec![];
                    for e in edits {
                        let n = toks.len();
                        if !matches!(e, TokEdit::Panic(_) | TokEdit::Nest(..)) {
                            rt().fired[17] += 1;
                        }
                        match *e {
                            TokEdit::Drop(i) if i < n => {
                                toks.remove(i);
                            }
                            TokEdit::Dup(i) if i < n => {
                                let x = (toks[i].0, toks[i].1.clone(), toks[i].2);
                                toks.insert(i, x);
                            }
                            TokEdit::Swap(i, k) if i < n && k < n => toks.swap(i, k),
                            TokEdit::Cut(i) => toks.truncate(i),
                            TokEdit::Panic(i) => panic_at = Some(i),
                            TokEdit::Nest(i, c) => nest.push((i, c)),
                            _ => {}
                        }
                    }
                    o.cbs = toks.len() as u32;
                    let feed = Feed { toks: toks.into_iter(), at: 0, panic_at, nest, nested: &mut nested };
                    let share = if *shared && parser_shareable() { w.parser.as_ref() } else { None };
                    let mut own = None;
                    let r = rt::sut(|| {
                        let mut errs = vec![];
                        let p = match share {
                            Some(p) => p,
                            None => {
                                own = Some(g::ProgramParser::new());
                                own.as_ref().unwrap()
                            }
                        };
                        let prog = p.parse(&mut errs, feed)?;
                        SrEmitter::default().emit(&prog).map_err(Error::ParseError)
                    });
                    set_result(&mut o, r);
                    o.nested = nested;
                }
            }
        }
        Op::Visit { ast, root, decs } => run_visit(plan, &mut o, *ast, *root, decs, serial),
        Op::Emit { ast } => {
            let own;
            let tree = if tree_shareable() || plan.threads.len() == 1 {
                w.trees[*ast].as_ref()
            } else {
                let text = w.texts[plan.asts[*ast].content].clone();
                own = rt::sut(|| parse_tree(&text, plan.asts[*ast].root)).ok().and_then(|x| x.ok());
                own.as_ref()
            };
            match tree {
                Some(Tree::Program(p)) => {
                    let r = rt::sut(|| SrEmitter::default().emit(p).map_err(Error::ParseError));
                    set_result(&mut o, r);
                }
                _ => {
                    o.tag = b'V';
                    o.text = "no tree".into();
                }
            }
        }
        Op::Write { file, content, keep } => {
            rt::fs_install(*file, *content, *keep);
            rt().fired[12] += 1;
            o.tag = b'V';
            o.text = "written".into();
        }
        Op::Repeat { .. } => o.tag = b'V',
    }
    // anything the call left in the standard library's output buffer becomes visible now
    let _ = rt::sut(|| {
        use std::io::Write;
        let _ = std::io::stdout().flush();
    });
    let r = rt();
    for h in r.fs.handles.iter_mut() {
        if h.as_ref().is_some_and(|h| h.tid == t && h.op == opnum as u32) {
            r.thr[t].io.bad.push("a descriptor was left open".into());
            *h = None;
        }
    }
    for i in 0..r.thr.len() {
        if r.thr[i].spawned && r.thr[i].st != St::Done {
            let mut p = i;
            while r.thr[p].spawned {
                p = r.thr[p].parent;
            }
            if p == t && !r.thr[i].reported {
                r.thr[i].reported = true;
                r.thr[t].io.bad.push("a thread was left running".into());
            }
        }
    }
    // what threads started by the call did counts as done by the call
    for i in 0..r.thr.len() {
        if r.thr[i].spawned {
            let mut p = i;
            while r.thr[p].spawned {
                p = r.thr[p].parent;
            }
            if p == t {
                let b = std::mem::take(&mut r.thr[i].io.bad);
                r.thr[t].io.bad.extend(b);
            }
        }
    }
    let _ = j;
    let th = &mut r.thr[t];
    o.steps = th.cnt - th.first;
    let io = std::mem::take(&mut th.io);
    o.bad = io.bad;
    o.fired = (0..io.fired.len()).filter(|i| io.fired[*i]).map(|i| i as u32).collect();
    o.ev_fired = (0..io.ev_fired.len()).filter(|i| io.ev_fired[*i]).map(|i| i as u32).collect();
    o.seen = io.seen.iter().map(|x| *x as u32).collect();
    o.last = io.last.map(|x| (*x).clone());
    o.io_calls = io.calls;
    o.eof = io.eof;
    o.trace = io.trace;
    o.live = LIVE.load(Ordering::Relaxed) - live0;
    o
}

fn run_visit(plan: &Plan, o: &mut Outcome, ast: usize, root: Root, decs: &[(u32, Dec)], _serial: Option<usize>) {
    let w = world();
    let own;
    let aroot = plan.asts[ast].root;
    let tree = if tree_shareable() || plan.threads.len() == 1 {
        w.trees[ast].as_ref()
    } else {
        let text = w.texts[plan.asts[ast].content].clone();
        own = rt::sut(|| parse_tree(&text, aroot)).ok().and_then(|x| x.ok());
        own.as_ref()
    };
    let (tree, base) = match (tree, w.bases[ast][base_slot(aroot, root)].as_ref()) {
        (Some(t), Some(b)) => (t, b),
        _ => {
            o.tag = b'V';
            o.text = "no tree".into();
            return;
        }
    };
    let mut rec = Recorder::new(decs, base.len() * 12 + 1000);
    rec.tree = Some((tree, root));
    let r = rt::sut(|| traverse(tree, root, &mut rec));
    let d = digest(&rec.log);
    o.cbs = rec.emits;
    o.nested = std::mem::take(&mut rec.nested);
    let fired = rec.fired.clone();
    o.answers = fired
        .iter()
        .filter_map(|(i, x)| {
            let e = d.ems.get(*i as usize)?;
            let a = match x {
                Dec::Skip => 0,
                Dec::Fail => 1,
                _ => 2,
            };
            Some((e.kind as u32) << 4 | (e.enter as u32) << 3 | a)
        })
        .collect();
    let stop = fired.iter().find(|x| x.1 != Dec::Skip).copied();
    let end;
    let mut v: Vec<String> = vec![];
    for (dec, x) in &rec.inner {
        let want = inner_expected(base, *dec);
        if *x != want {
            let head = |s: &str| s.rsplit_once(' ').map(|x| x.0.to_string());
            for id in ["C01", "C02", "C09", "C10"] {
                // the last word is also about positions, which C09 does not judge
                if id == "C09" && head(x) == head(&want) {
                    continue;
                }
                v.push(format!("{}: a traversal made from inside a callback {:?} instead of {:?}", id, x, want));
            }
        }
    }
    match &r {
        Ok(Ok(())) => {
            end = End::Ok;
            o.tag = b'V';
            o.text = format!("traversed {} {:016x}", d.ems.len(), hash_log(&d.ems));
            match stop {
                Some((k, Dec::Fail)) => v.push(format!("C09: callback {} failed but the traversal reported success", k)),
                Some((k, _)) => v.push(format!("C09: callback {} panicked but the panic did not reach the caller", k)),
                None => {}
            }
        }
        Ok(Err(e)) => {
            end = End::Err;
            o.tag = b'E';
            o.text = format!("failed {:?} {} {:016x}", e, d.ems.len(), hash_log(&d.ems));
            match stop {
                Some((k, Dec::Fail)) => {
                    if *e != error_text(k) {
                        v.push(format!("C09: callback {} failed with {:?} but the traversal returned {:?}", k, error_text(k), e));
                    }
                }
                Some((k, _)) => v.push(format!("C09: callback {} panicked but the traversal returned error {:?}", k, e)),
                None => {
                    v.push(format!("C09: no callback failed but the traversal returned error {:?}", e));
                    v.push(format!("C10: no callback failed but the traversal returned error {:?}", e));
                }
            }
        }
        Err(p) => {
            end = End::Panic;
            let inj = p.downcast_ref::<Injected>().map(|x| x.0);
            o.tag = if inj.is_some() { b'I' } else { b'P' };
            o.text = format!("panicked {:?} {} {:016x}", payload_text(&**p), d.ems.len(), hash_log(&d.ems));
            match stop {
                Some((k, Dec::Panic)) if inj == Some(k) => {}
                Some((k, _)) => v.push(format!("C09: callback {} was told to stop the traversal, but it panicked with {:?}", k, payload_text(&**p))),
                None => {
                    v.push(format!("C09: no callback panicked but the traversal did: {}", payload_text(&**p)));
                    v.push(format!("C10: no callback panicked but the traversal did: {}", payload_text(&**p)));
                }
            }
        }
    }
    if let Some((k, _)) = stop {
        if d.ems.len() as u32 > k + 1 {
            v.push(format!("C09: {} more callback(s) after callback {} failed", d.ems.len() as u32 - k - 1, k));
        }
    }
    let want = expected(base, &fired);
    let after = |v: &mut Vec<String>, id: &str, positions: bool| {
        if let Some(x) = first_diff(&d.ems, &want, positions) {
            v.push(format!("{}: {}", id, x));
        }
    };
    if !fired.iter().any(|x| x.1 == Dec::Skip) {
        after(&mut v, "C09", false);
    }
    // C10 does not judge what a traversal does after a failing callback (C09 does)
    let mut cut = Digest { ems: d.ems.clone(), underflow: d.underflow, left: d.left };
    if let Some((k, _)) = stop {
        cut.ems.truncate(k as usize + 1);
    }
    if let Some(x) = check_balance(&cut, &fired, end) {
        v.push(format!("C10: {}", x));
    }
    if let Some(x) = first_diff(&cut.ems, &want, true) {
        v.push(format!("C10: {}", x));
    }
    o.verdicts = v;
}
