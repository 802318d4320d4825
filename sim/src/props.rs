//! Per property: what is simulated (gen) and what must hold of the result (judge).

use crate::gen::{self, Opt, G, RICH, SMALL, TINY};
use crate::plan::*;
use crate::report::{Outcome, Report};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::Ctx;

pub const CLAIMED: [&str; 11] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"];

pub struct Verdict {
    pub viol: Option<(String, String)>, // class, message
    pub sig: u64,
    pub nontrivial: bool,
    pub evals: u64,
}

fn ok(sig: u64, nontrivial: bool, evals: u64) -> Verdict {
    Verdict { viol: None, sig, nontrivial, evals }
}
fn bad(class: &str, msg: String) -> Verdict {
    Verdict { viol: Some((class.to_string(), msg)), sig: 0, nontrivial: true, evals: 1 }
}

pub fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "one case = one seeded run of 2-4 caller threads (parse path/string, lex, shared grammar parser, shared syntax tree) under one random schedule with faults in some calls; non-trivial = at least one preemption took place inside a library call; distinct = hash of the sequence of (thread, operation, code location, next thread) of all switches together with the operations",
        "C02" => "one case = one seeded history of library calls in one process (near-identical inputs, files rewritten between calls, failed, panicked and abandoned calls, differing environments), every call compared with the same call alone in a fresh process under another environment; non-trivial = at least two calls; distinct = hash of the history",
        "C03" => "one case = one path parse under a seeded delivery (cut points, EINTR, wrong sizes, growth, path names); non-trivial = a short read, interruption, size lie or growth took effect, or content crosses an I/O block boundary; distinct = hash of content and I/O trace",
        "C04" => "one case = one path parse with a fault placed at one I/O call (or undecodable bytes), followed by a fault-free retry; non-trivial = the fault took effect; distinct = hash of content, I/O trace and fault",
        "C05" => "one case = one path parse during which the file is replaced at seeded I/O indices; non-trivial = a replacement took effect during the call; distinct = hash of versions and I/O trace",
        "C06" => "one case = one library call on seeded damage of a contract's bytes or token stream (edge-coverage guided pool); non-trivial = damage changed the input; distinct = hash of the damaged input",
        "C07" => "one case = one parse of a prefix of a valid contract (bytes, characters or tokens; all cuts of small contracts); non-trivial = the whole contract is accepted and the cut is strictly inside it; distinct = hash of prefix and entry point",
        "C08" => "one case = one library call (all kinds, with I/O faults, failing and panicking callbacks) with every descriptor, write, environment, thread and process operation recorded; non-trivial = a fault or callback decision took effect or the call ended in an error; distinct = hash of operation and its I/O trace",
        "C09" => "one case = one traversal or conversion with a failure (error or panic) at one callback, or the undisturbed traversal after it; non-trivial = the failure took effect; distinct = hash of tree, root and decisions",
        "C10" => "one case = one traversal with seeded skip and fail decisions; non-trivial = a decision took effect; distinct = hash of tree, root and decisions",
        "C11" => "one case = one seeded set of operations repeated for 72 rounds with new names each round (in one thread, or in 72 short-lived threads), live bytes of the library's allocations sampled after each round; non-trivial = every run; distinct = hash of the operations and contents",
        _ => "",
    }
}

fn h(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

/// Identity of an operation including the contents it works on
fn op_sig(p: &Plan, op: &Op) -> u64 {
    let mut s = h(&op_text(op));
    let c = match op {
        Op::ParsePath { file, .. } => {
            s ^= hash_bytes(&p.files[*file].path);
            Some(p.files[*file].content)
        }
        Op::ParseStr { content } | Op::Lex { content, .. } | Op::ParseTokens { content, .. } | Op::Write { content, .. } => {
            Some(*content)
        }
        Op::Visit { ast, .. } | Op::Emit { ast } => Some(p.asts[*ast].content),
        Op::Repeat { .. } => None,
    };
    if let Some(c) = c {
        s = mix(s ^ hash_bytes(&p.bytes(c)));
    }
    s
}

// ------------------------------------------------------------------ shared generator pieces

fn some_contract(r: &mut Rng, ctx: &Ctx) -> String {
    match r.below(20) {
        0 => r.pick(&ctx.corpus_small).clone(),
        1..=7 => gen::program(r, SMALL),
        8 => gen::program(r, RICH),
        _ => {
            let layout = r.below(3);
            gen::program(r, Opt { layout, ..TINY })
        }
    }
}

/// Now and then, the text padded to a size at which an implementation may choose another way
fn sized(r: &mut Rng, t: String, one_in: usize, most: usize) -> String {
    if !r.chance(1, one_in) {
        return t;
    }
    let size = *r.pick(&[1500, 5000, 9000, 20_000, 70_000, 70_000, 140_000, 300_000]);
    let wide = r.chance(1, 2);
    gen::pad_to(r, &t, size.min(most), wide)
}

fn contents_with_twins(r: &mut Rng, ctx: &Ctx, p: &mut Plan, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut base = some_contract(r, ctx);
    let most = if p.property == "C08" { 300_000 } else { 70_000 };
    base = sized(r, base, 60, most);
    v.push(p.lit(base.clone().into_bytes()));
    while v.len() < n {
        let s = if r.chance(3, 5) {
            gen::twin(r, &base)
        } else {
            base = some_contract(r, ctx);
            base.clone()
        };
        v.push(p.lit(s.into_bytes()));
    }
    v
}

fn add_files(r: &mut Rng, p: &mut Plan, contents: &[usize], n: usize) {
    for k in 0..n {
        let c = *r.pick(contents);
        let path = gen::path(r, k);
        p.files.push(FileSpec::new(path, c));
    }
}

/// Other files with names close to the first one's, holding other contracts; nothing refers to them
fn add_decoys(r: &mut Rng, p: &mut Plan, other: usize) {
    let path = p.files[0].path.clone();
    let cut = path.iter().rposition(|c| *c == b'/').map(|i| i + 1).unwrap_or(0);
    let (dir, name) = path.split_at(cut);
    let stem = name.iter().rposition(|c| *c == b'.').map(|i| &name[..i]).unwrap_or(name);
    let with = |a: &[u8], b: &[u8]| [a, b].concat();
    let all: Vec<Vec<u8>> = vec![
        with(&path, b".scilla"),
        with(&path, b"~"),
        with(&path, b".bak"),
        with(&path, b".tmp"),
        with(&path, b".cache"),
        with(dir, &with(stem, b".scilla")),
        with(dir, &with(stem, b".scillib")),
        with(dir, &with(stem, b".bak")),
        with(dir, stem),
        with(dir, &with(b".", &with(name, b".swp"))),
        with(dir, &with(b"#", &with(name, b"#"))),
        with(dir, &name.to_ascii_lowercase()),
        name.to_vec(),
        with(b"/tmp/", name),
        with(b"contracts/", name),
        String::from_utf8_lossy(&path).trim().as_bytes().to_vec(),
    ];
    for d in all {
        // whatever the working directory, never the first file itself
        let n = |x: &[u8]| crate::rt::norm(b"/sim/wd", x);
        if !d.is_empty() && n(&d) != n(&path) && !d.ends_with(b"/") && r.chance(2, 3) {
            p.files.push(FileSpec::new(d, other));
        }
    }
}

fn add_ast(r: &mut Rng, ctx: &Ctx, p: &mut Plan, contents: &[usize]) {
    match r.below(8) {
        0 => {
            let o = Opt { layout: 1, unsupported: 60, ..RICH };
            let (root, text) = fragment(r, o);
            let c = p.lit(text.into_bytes());
            p.asts.push(Ast { content: c, root });
        }
        1..=4 => {
            let c = *r.pick(contents);
            p.asts.push(Ast { content: c, root: Root::Program });
        }
        _ => {
            let t = some_contract(r, ctx);
            let c = p.lit(t.into_bytes());
            p.asts.push(Ast { content: c, root: Root::Program });
        }
    }
}

fn fragment(r: &mut Rng, o: Opt) -> (Root, String) {
    let root = [Root::Contract, Root::Expression, Root::TypeArgs, Root::ScillaType, Root::Statements][r.below(5)];
    let mut g = G::new(r, o);
    match root {
        Root::Contract => g.contract_def(),
        Root::Expression => g.expr(o.depth + 1),
        Root::TypeArgs => {
            g.t.push("{".into());
            g.typ(1);
            let last = g.t.split_off(1);
            if last.len() > 1 {
                g.t.push("(".into());
                g.t.extend(last);
                g.t.push(")".into());
            } else {
                g.t.extend(last);
            }
            g.t.push("}".into());
        }
        Root::ScillaType => g.typ(o.depth + 1),
        _ => g.block(o.depth, 4),
    }
    (root, g.text())
}

/// Any error number but EINTR, mostly one of those that reading files gives
fn errno(r: &mut Rng) -> i32 {
    if r.chance(3, 4) {
        return *r.pick(&ERRNOS);
    }
    match r.range(1, 133) as i32 {
        libc::EINTR => libc::EIO,
        e => e,
    }
}

const ERRNOS: [i32; 28] = [
    libc::EAGAIN,
    libc::EINVAL,
    libc::EFBIG,
    libc::EBUSY,
    libc::ENODEV,
    libc::ENAMETOOLONG,
    libc::EROFS,
    libc::ECONNRESET,
    libc::EDQUOT,
    libc::ENOTCONN,
    libc::EHOSTDOWN,
    libc::ETXTBSY,
    libc::ECONNABORTED,
    libc::EPIPE,
    libc::EIO,
    libc::EACCES,
    libc::ENOENT,
    libc::EPERM,
    libc::EMFILE,
    libc::ENFILE,
    libc::ENOMEM,
    libc::ELOOP,
    libc::ESTALE,
    libc::ETIMEDOUT,
    libc::ENXIO,
    libc::EISDIR,
    libc::ENOTDIR,
    libc::EOVERFLOW,
];

fn chunks(r: &mut Rng, len: usize) -> Vec<usize> {
    let small = (len / 3000).max(1);
    match r.below(6) {
        0 => vec![],
        1 => vec![small],
        2 => (0..r.range(1, 5)).map(|_| small * r.range(1, 7)).collect(),
        3 => vec![r.range(1, len.max(1)), 1 << 20],
        4 => vec![*r.pick(&[7, 31, 32, 33, 512, 4096, 8192])].into_iter().map(|c| c.max(small)).collect(),
        _ => (0..r.range(1, 4)).map(|_| r.range(small, (len / 2).max(small + 1))).collect(),
    }
}

fn path_op(r: &mut Rng, p: &Plan, file: usize, fault_pct: usize) -> Op {
    let len = p.bytes(p.files[file].content).len();
    let mut faults = vec![];
    if r.chance(fault_pct, 100) {
        let kind = *r.pick(&[IoKind::Open, IoKind::Read, IoKind::Read, IoKind::Stat, IoKind::Seek, IoKind::Close]);
        let nth = if kind == IoKind::Read { r.below(3) as u32 } else { 0 };
        let e = if r.chance(1, 4) && matches!(kind, IoKind::Open | IoKind::Read) { libc::EINTR } else { errno(r) };
        faults.push(Fault { kind, nth, eff: Eff::Errno(e) });
    }
    Op::ParsePath { file, chunks: chunks(r, len), faults, events: vec![] }
}

/// A traversal made from inside a callback, often one that is itself cut short
fn again(r: &mut Rng) -> Dec {
    match r.below(3) {
        0 => Dec::Again,
        _ => {
            let mean = *r.pick(&[5, 20, 60]);
            Dec::AgainStop(r.geometric(mean) as u32 - 1, r.below(3) as u8)
        },
    }
}

fn decisions(r: &mut Rng, skip: bool, contents: &[usize]) -> Vec<(u32, Dec)> {
    let n = r.below(3);
    let mut v: Vec<(u32, Dec)> = vec![];
    for _ in 0..n {
        let d = match r.below(if skip { 3 } else { 2 }) {
            0 => Dec::Fail,
            1 => Dec::Panic,
            _ => Dec::Skip,
        };
        let mean = *r.pick(&[10, 25, 25, 60, 200]);
        v.push((r.geometric(mean) as u32 - 1, d));
    }
    if r.chance(1, 5) {
        let d = if r.chance(1, 2) { again(r) } else { Dec::Nest(*r.pick(contents)) };
        v.push((r.geometric(15) as u32 - 1, d));
    }
    v.sort_by_key(|x| x.0);
    v.dedup_by_key(|x| x.0);
    v
}

fn any_op(r: &mut Rng, p: &Plan, contents: &[usize], fault_pct: usize) -> Op {
    let c = *r.pick(contents);
    loop {
        match r.below(16) {
            0..=4 => {
                if p.files.is_empty() {
                    continue;
                }
                let f = r.below(p.files.len());
                return path_op(r, p, f, fault_pct);
            }
            5..=8 => return Op::ParseStr { content: c },
            9 => {
                let limit = if r.chance(1, 2) { 1 << 30 } else { r.below(40) };
                return Op::Lex { content: c, limit };
            }
            10 | 11 => {
                let edits = match r.below(5) {
                    0 => vec![TokEdit::Panic(r.below(40))],
                    1 => vec![TokEdit::Cut(r.below(60))],
                    2 => vec![TokEdit::Drop(r.below(40))],
                    3 => vec![TokEdit::Nest(r.below(30), *r.pick(contents))],
                    _ => vec![],
                };
                return Op::ParseTokens { content: c, shared: r.chance(3, 4), edits };
            }
            12..=14 => {
                if p.asts.is_empty() {
                    continue;
                }
                let ast = r.below(p.asts.len());
                let root = if r.chance(1, 3) { Root::Contract } else { p.asts[ast].root };
                return Op::Visit { ast, root, decs: decisions(r, true, contents) };
            }
            _ => {
                if p.asts.is_empty() {
                    continue;
                }
                return Op::Emit { ast: r.below(p.asts.len()) };
            }
        }
    }
}

fn schedule(r: &mut Rng) -> Sched {
    let mut s = Sched::Policy { seed: r.next(), mean: 0, global_pm: 0, rare_pm: 0, io_pm: 0, alloc_pm: 0, cb_pm: 0 };
    if let Sched::Policy { mean, global_pm, rare_pm, io_pm, alloc_pm, cb_pm, .. } = &mut s {
        match r.below(6) {
            0 => *mean = *r.pick(&[100, 700, 2000]),
            1 => *mean = *r.pick(&[3000, 10_000, 40_000, 150_000]),
            2 => {
                *rare_pm = 1 << 17;
                *mean = 20_000;
            }
            3 => {
                *io_pm = 1 << 19;
                *cb_pm = 1 << 16;
                *mean = 10_000;
            }
            4 => {
                *alloc_pm = *r.pick(&[1 << 12, 1 << 15]);
                *cb_pm = 1 << 15;
            }
            _ => {
                *mean = *r.pick(&[1000, 10_000, 100_000]);
                *rare_pm = 1 << 14;
                *io_pm = 1 << 18;
                *cb_pm = 1 << 14;
            }
        }
        // whoever touches shared data is always interesting
        *global_pm = *r.pick(&[0, 1 << 15, 1 << 18, 1 << 19]);
    }
    s
}

// ------------------------------------------------------------------ generation

pub fn generate(prop: &str, r: &mut Rng, i: u64, tier: usize, ctx: &mut Ctx) -> Plan {
    let mut p = Plan::new(prop);
    p.env_seed = r.next() >> 1;
    match prop {
        "C01" if i % 40 == 9 => {
            let n = r.range(2, 3);
            gen_storm(&mut p, r, ctx, n);
            p.start = r.below(n);
            p.sched = schedule(r);
        }
        "C02" if i % 40 == 33 => gen_storm(&mut p, r, ctx, 1),
        "C01" => {
            let crowd = r.chance(1, 20);
            let often = !crowd && r.chance(1, 40);
            let n = if crowd { r.range(6, 24) } else { [2, 2, 2, 3, 3, 4][r.below(6)] };
            let k = r.range(1, 3);
            let cs = if crowd || often {
                (0..k).map(|_| p.lit(gen::program(r, TINY).into_bytes())).collect()
            } else {
                contents_with_twins(r, ctx, &mut p, k)
            };
            let nf = r.range(1, 2);
            add_files(r, &mut p, &cs, nf);
            let na = r.below(3);
            for _ in 0..na {
                add_ast(r, ctx, &mut p, &cs);
            }
            let most = if crowd { 1 } else if r.chance(1, 8) { 7 } else { 3 };
            for _ in 0..n {
                let k = r.range(1, most);
                let mut ops: Vec<Op> = (0..k).map(|_| any_op(r, &p, &cs, 15)).collect();
                if often && r.chance(2, 3) {
                    ops.insert(0, Op::Repeat { n: r.range(20, 300) });
                    ops.insert(0, any_op(r, &p, &cs, 15));
                }
                p.threads.push(ops);
            }
            p.start = r.below(n);
            p.sched = schedule(r);
            if let (true, Sched::Policy { mean, .. }) = (crowd, &mut p.sched) {
                *mean = *r.pick(&[500, 2000, 10_000, 30_000]);
            }
        }
        "C02" if i % 250 == 77 => gen_marathon(&mut p, r, ctx, tier),
        "C02" if i % 50 == 23 => gen_long_history(&mut p, r, ctx),
        "C02" => {
            let k = r.range(2, 4);
            let cs = contents_with_twins(r, ctx, &mut p, k);
            let nf = r.range(1, 2);
            add_files(r, &mut p, &cs, nf);
            let na = r.below(3);
            for _ in 0..na {
                add_ast(r, ctx, &mut p, &cs);
            }
            let given = p.files.len();
            if r.chance(1, 6) {
                let d = *r.pick(&cs);
                add_decoys(r, &mut p, d);
            }
            if r.chance(1, 8) {
                p.files[0].kind = *r.pick(&[FKind::Link, FKind::Fifo, FKind::Chr]);
            }
            let n = if r.chance(1, 4) { 2 } else { 1 };
            for _ in 0..n {
                let k = r.range(2, 8);
                let mut ops: Vec<Op> = vec![];
                let favourite = r.below(given);
                for _ in 0..k {
                    match r.below(10) {
                        0 | 1 => {
                            let file = if r.chance(2, 3) { favourite } else { r.below(p.files.len()) };
                            ops.push(Op::Write { file, content: *r.pick(&cs), keep: r.chance(1, 2) });
                            ops.push(Op::ParsePath { file, chunks: vec![], faults: vec![], events: vec![] });
                        }
                        2 if !ops.is_empty() => {
                            let o = r.pick(&ops).clone();
                            ops.push(o);
                        }
                        _ => ops.push(any_op(r, &p, &cs, 20)),
                    }
                }
                p.threads.push(ops);
            }
        }
        "C03" => gen_c03(&mut p, r, i, tier, ctx),
        "C04" => gen_c04(&mut p, r, i, ctx),
        "C05" => gen_c05(&mut p, r, i, ctx),
        "C06" => gen_c06(&mut p, r, i, ctx),
        "C07" => gen_c07(&mut p, r, i, ctx),
        "C08" if i % 1500 == 77 => gen_marathon(&mut p, r, ctx, tier),
        "C08" if i % 500 == 23 => gen_long_history(&mut p, r, ctx),
        "C08" => {
            let n = if r.chance(1, 4) { 2 } else { 1 };
            let k = r.range(1, 3);
            let mut cs = contents_with_twins(r, ctx, &mut p, k);
            if r.chance(1, 2) {
                let base = cs[0];
                let d = gen::damage(r, &p.bytes(base), p.contents.len());
                p.contents.push(Content::Damaged(base, d));
                cs.push(p.contents.len() - 1);
            }
            let nf = r.range(1, 2);
            add_files(r, &mut p, &cs, nf);
            let na = r.below(3);
            for _ in 0..na {
                add_ast(r, ctx, &mut p, &cs);
            }
            for _ in 0..n {
                let k = r.range(2, 6);
                let mut ops: Vec<Op> = vec![];
                for _ in 0..k {
                    let mut o = any_op(r, &p, &cs, 55);
                    if let Op::ParsePath { events, .. } = &mut o {
                        if r.chance(1, 8) {
                            events.push(FsEvent { at: r.below(5) as u32, file: 0, act: Act::Remove });
                        }
                    }
                    ops.push(o);
                }
                p.threads.push(ops);
            }
            if n > 1 {
                p.sched = schedule(r);
            }
        }
        "C09" => gen_c09(&mut p, r, i, ctx),
        "C10" => gen_c10(&mut p, r, i, ctx),
        "C11" => gen_c11(&mut p, r, i, ctx),
        _ => panic!("property {}", prop),
    }
    if matches!(prop, "C01" | "C02" | "C08" | "C09") && r.chance(1, 8) {
        // one of the calls is made once more, from a destructor of an unwinding thread
        let t = r.below(p.threads.len());
        let n = p.threads[t].len();
        if n > 0 {
            let at = if r.chance(1, 3) { n } else { 1 + r.below(n) };
            if !matches!(p.threads[t][at - 1], Op::Repeat { .. }) && !matches!(p.threads[t].get(at), Some(Op::Repeat { .. })) {
                p.threads[t].insert(at, Op::Repeat { n: 0 });
            }
        }
    }
    p
}

/// Hundreds of short calls in one process: what only happens after many calls, or after many
/// different inputs, happens here
fn gen_long_history(p: &mut Plan, r: &mut Rng, ctx: &Ctx) {
    let distinct = *r.pick(&[3, 20, 80, 150]);
    let mut cs: Vec<usize> = (0..distinct)
        .map(|k| {
            let t = match r.below(12) {
                0 => format!("scilla_version 0 contract A{} (", k),
                1 => format!("scilla_version 0 contract A{} () field", k),
                2 => format!("scilla_version 0 contract A{} (a : 'T)", k),
                3 => format!("scilla_version {} contract A () ^{}", k, k),
                4 => format!("scilla_version 0 contract A (a{} : Uint32)", k),
                5 => format!("scilla_version 0 contract A () transition T{} () end", k),
                6 => format!("scilla_version 0 contract A () field f{} : String = x", k),
                _ => format!("scilla_version 0 contract A{} ()", k),
            };
            p.lit(t.into_bytes())
        })
        .collect();
    let probe = p.lit(some_contract(r, ctx).into_bytes());
    cs.push(probe);
    add_files(r, p, &cs, 3);
    for _ in 0..2 {
        if r.chance(1, 2) {
            add_ast(r, ctx, p, &cs[distinct..]);
        } else {
            let t = gen::program(r, RICH);
            let c = p.lit(t.into_bytes());
            p.asts.push(Ast { content: c, root: Root::Program });
        }
    }
    let heavy = p.bytes(probe).len() > 2500;
    let calls = *r.pick(if heavy { &[120, 150, 200] } else { &[150, 300, 700] });
    // either every input in turn (what is kept of the first is long evicted), or in bursts
    let mut ops: Vec<Op> = vec![];
    let in_turn = r.chance(1, 2);
    let fails = if r.chance(1, 3) { 60 } else { 10 };
    // sometimes it is mostly one and the same call
    let same = if r.chance(1, 2) { Some(any_op(r, p, &cs[distinct..], fails)) } else { None };
    let visits = if r.chance(1, 3) { 20 } else { 11 };
    for k in 0..calls {
        let c = if in_turn { cs[k % distinct] } else { cs[r.below(distinct)] };
        if let (Some(o), true) = (&same, r.chance(5, 6)) {
            ops.push(o.clone());
        } else {
            ops.push(match r.below(visits) {
                0 => {
                    let f = r.below(p.files.len());
                    path_op(r, p, f, fails)
                }
                1 => {
                    let f = r.below(p.files.len());
                    Op::Write { file: f, content: c, keep: r.chance(1, 2) }
                }
                2 => Op::Lex { content: c, limit: if r.chance(1, 2) { 1 << 30 } else { r.below(6) } },
                3 => Op::ParseTokens {
                    content: c,
                    shared: r.chance(3, 4),
                    edits: if r.chance(1, 4) { vec![TokEdit::Panic(r.below(6))] } else { vec![] },
                },
                4..=9 => Op::ParseStr { content: c },
                _ => {
                    let ast = r.below(p.asts.len());
                    Op::Visit { ast, root: p.asts[ast].root, decs: decisions(r, true, &cs[..1]) }
                }
            });
        }
        if k % 60 == 59 {
            ops.push(Op::ParseStr { content: probe });
            ops.push(Op::Visit { ast: 0, root: p.asts[0].root, decs: vec![] });
        }
    }
    p.threads.push(ops);
}

/// Traversals stopped by an error or a panic at one callback after the other, with undisturbed
/// calls in between
fn gen_storm(p: &mut Plan, r: &mut Rng, ctx: &mut Ctx, threads: usize) {
    let a = if r.chance(1, 4) {
        tree_plan(p, r, ctx)
    } else {
        let (root, text) = fragment(r, Opt { unsupported: 60, wild: 20, layout: 1, depth: 1, ..RICH });
        let c = p.lit(text.into_bytes());
        p.asts.push(Ast { content: c, root });
        0
    };
    let root = p.asts[a].root;
    let text = p.lit(some_contract(r, ctx).into_bytes());
    let long = p.bytes(p.asts[a].content).len() > 600;
    for _ in 0..threads {
        let start = if r.chance(1, 2) { 0 } else { r.below(150) as u32 };
        let step = if r.chance(1, 2) { 1 } else { r.range(2, 5) as u32 };
        let kind = r.below(4);
        let mut ops = vec![];
        for k in 0..if long { 10 } else { r.range(10, 30) } as u32 {
            let d = match kind {
                0 => Dec::Fail,
                1 => Dec::Panic,
                2 => Dec::Skip,
                _ => match r.below(4) {
                    0 => Dec::Fail,
                    1 => Dec::Panic,
                    2 => Dec::Skip,
                    _ => again(r),
                },
            };
            ops.push(Op::Visit { ast: a, root, decs: vec![(start + k * step, d)] });
            if k % 8 == 7 {
                ops.push(Op::Visit { ast: a, root, decs: vec![] });
            }
        }
        ops.push(Op::Visit { ast: a, root, decs: vec![] });
        ops.push(if r.chance(1, 2) { Op::Emit { ast: a } } else { Op::ParseStr { content: text } });
        p.threads.push(ops);
    }
}

/// One small call made so often that a counter of it would overflow or a table of it fill up
fn gen_marathon(p: &mut Plan, r: &mut Rng, ctx: &Ctx, tier: usize) {
    let probe = p.lit(some_contract(r, ctx).into_bytes());
    let long = if tier > 0 && r.chance(1, 4) { 4 } else { 1 };
    let (text, most) = match r.below(8) {
        0 => (String::new(), 70_000 * long),
        1 => ("x".to_string(), 70_000 * long),
        2 => ("scilla_version 0 contract".to_string(), 70_000 * long),
        3 => ("scilla_version 0\nlibrary A\n".to_string(), 70_000 * long),
        4 => ("scilla_version 0 contract A (a : 'T)".to_string(), 70_000 * long),
        5 | 6 => ("scilla_version 0 contract A (a : Uint32)".to_string(), 70_000 * long),
        _ => (gen::program(r, SMALL), 1_100),
    };
    let c = p.lit(text.into_bytes());
    add_files(r, p, &[c, probe], 2);
    add_ast(r, ctx, p, &[probe, c]);
    p.asts.push(Ast { content: if r.chance(1, 2) { c } else { probe }, root: Root::Program });
    let probes = [
        Op::ParseStr { content: probe },
        Op::ParsePath { file: 1, chunks: vec![], faults: vec![], events: vec![] },
        Op::Visit { ast: 0, root: p.asts[0].root, decs: vec![] },
        Op::Emit { ast: 1 },
    ];
    let mut ops = probes.to_vec();
    for _ in 0..r.range(1, 3) {
        let (op, most) = match r.below(8) {
            0..=2 => (Op::ParseStr { content: c }, most),
            3 => (path_op(r, p, 0, 30), most.min(12_000 * long)),
            4 => (Op::Lex { content: c, limit: if r.chance(1, 2) { 1 << 30 } else { 1 } }, most),
            5 => (Op::ParseTokens { content: c, shared: true, edits: if r.chance(1, 3) { vec![TokEdit::Panic(1)] } else { vec![] } }, most.min(70_000 * long)),
            6 => (Op::Emit { ast: 1 }, 70_000 * long),
            _ => (Op::Visit { ast: 1, root: Root::Program, decs: decisions(r, true, &[c]) }, if p.asts[1].content == c { most } else { 5_000 }),
        };
        let n = match r.below(4) {
            0 => 300,
            1 => most.min(1_100),
            2 => most.min(r.range(1_100, 12_000)),
            _ => most,
        };
        ops.push(op);
        ops.push(Op::Repeat { n });
        ops.extend(probes.iter().cloned());
    }
    p.threads.push(ops);
}

const BOUNDS: [usize; 14] = [32, 64, 512, 1024, 4096, 8192, 10240, 16384, 32768, 65536, 131072, 262144, 524288, 1048576];

fn gen_c03(p: &mut Plan, r: &mut Rng, i: u64, tier: usize, ctx: &mut Ctx) {
    let mut text = match r.below(10) {
        0..=3 => gen::program(r, Opt { layout: 2, ..SMALL }).into_bytes(),
        4 => gen::program(r, Opt { layout: 2, ..RICH }).into_bytes(),
        _ => some_contract(r, ctx).into_bytes(),
    };
    // where the end of the text, or a character of it, meets a block boundary
    if r.chance(1, 3) {
        let big = if i % 40 == 7 { 14 } else if tier > 0 && i % 7 == 0 { 13 } else { 10 };
        let b = BOUNDS[r.below(big)];
        let off = b + r.below(7);
        let off = off.saturating_sub(3);
        let s = String::from_utf8(text.clone()).unwrap_or_default();
        let wide = r.chance(1, 2);
        text = gen::pad_to(r, &s, off, wide).into_bytes();
    }
    match r.below(24) {
        0 => {
            let mut t = vec![0xef, 0xbb, 0xbf];
            t.extend(text);
            text = t;
        }
        1 => text = String::from_utf8_lossy(&text).replace('\n', "\r\n").into_bytes(),
        2 => text = vec![],
        3 => {
            let s = String::from_utf8_lossy(&text).into_owned();
            text = gen::twin(r, &s).into_bytes()
        }
        4 => text.extend_from_slice(b"\n(* unfinished \xe4\xb8\xad"),
        5 => text.push(b'\r'),
        6 => text.push(0),
        7 => text.push(0x1a),
        8 => text.extend_from_slice("\n \u{85}\u{2028}\u{3000}".as_bytes()),
        9 => text.extend_from_slice(b" _"),
        10 => text.extend_from_slice(b"\n#!x"),
        11 => {
            // padding up to the end of a block
            let c = *r.pick(&[0u8, 0, b' ', b'\n', b'\t', b'\r', 0x1a, b'#']);
            let k = *r.pick(&[2, 3, 15, 16, 17, 64, 512, 4096]);
            text.resize(text.len() + k, c);
        }
        12 => {
            let mut t = (*r.pick(&["#!/usr/bin/scilla\n", "\n", "\0", " \r\n", "\u{2028}", "\u{c}", "-"])).as_bytes().to_vec();
            t.extend(text);
            text = t;
        }
        13 => text = String::from_utf8_lossy(&text).replace('\n', *r.pick(&["\r", "\u{85}", "\n\n", " \n", "\t\n", "\u{2029}"])).into_bytes(),
        _ => {}
    }
    if i % 400 == 7 || tier > 0 && i % 150 == 7 {
        let s = String::from_utf8_lossy(&text).into_owned();
        let size = *r.pick(&[2 << 20, 4 << 20, (4 << 20) + 1, 9_000_000, 16 << 20]);
        text = gen::pad_to(r, &s, size, false).into_bytes();
    }
    let c = p.lit(text.clone());
    let path = gen::path(r, 0);
    p.files.push(FileSpec::new(path, c));
    p.files[0].kind = *r.pick(&[FKind::Reg, FKind::Reg, FKind::Reg, FKind::Link, FKind::Fifo, FKind::Chr]);
    if r.chance(1, 6) {
        let d = p.lit(gen::program(r, TINY).into_bytes());
        add_decoys(r, p, d);
    }
    let n = text.len();
    let mut ops = vec![];
    let k = if n > 20_000 { 1 } else { r.range(1, 3) };
    for _ in 0..k {
        let mut ch = chunks(r, n);
        if r.chance(1, 3) {
            // cut inside a multi-byte character, if there is one
            let cuts: Vec<usize> = (1..n).filter(|i| text[*i] & 0xc0 == 0x80).take(2000).collect();
            if !cuts.is_empty() {
                let c = *r.pick(&cuts);
                ch = if r.chance(1, 2) { vec![c, 1 << 20] } else { vec![c, 1, 1, 1, 1 << 20] };
            }
        }
        let mut faults = vec![];
        let m = [0, 0, 1, 3][r.below(4)];
        for _ in 0..m {
            faults.push(Fault { kind: IoKind::Read, nth: r.below(6) as u32, eff: Eff::Errno(libc::EINTR) });
        }
        if r.chance(1, 8) {
            faults.push(Fault { kind: IoKind::Open, nth: 0, eff: Eff::Errno(libc::EINTR) });
        }
        if r.chance(1, 3) {
            let l = [0, 1, n / 2, n.saturating_sub(1), n + 1, n * 2 + 3, 4096, 1 << 20][r.below(8)];
            faults.push(Fault { kind: IoKind::Stat, nth: r.below(2) as u32, eff: Eff::SizeLie(l as u64) });
        }
        faults.dedup_by(|a, b| a.kind == b.kind && a.nth == b.nth);
        let mut events = vec![];
        if r.chance(1, 5) && n < 5000 {
            // more text arrives while the file is being read
            let extra = match r.below(4) {
                0 => "\ntransition Late () end\n".to_string(),
                1 => " (* late *) ".to_string(),
                2 => "\u{20ac}".to_string(),
                _ => gen::program(r, TINY),
            };
            let e = p.lit(extra.into_bytes());
            let m = r.range(1, 2);
            for _ in 0..m {
                events.push(FsEvent { at: r.below(8) as u32, file: 0, act: Act::Append(e) });
            }
        }
        ops.push(Op::ParsePath { file: 0, chunks: ch, faults, events });
    }
    p.threads.push(ops);
}

/// Places just after a complete declaration: a text cut there may still look finished
fn seams(text: &[u8]) -> Vec<usize> {
    let s = String::from_utf8_lossy(text);
    let mut v: Vec<usize> = s.match_indices("end").map(|(i, _)| i + 3).collect();
    v.extend(s.match_indices(')').map(|(i, _)| i + 1));
    v.retain(|x| *x < text.len());
    v
}

fn seam_chunks(r: &mut Rng, text: &[u8]) -> Vec<usize> {
    let v = seams(text);
    if v.is_empty() || r.chance(1, 3) {
        return chunks(r, text.len());
    }
    vec![*r.pick(&v), 1 << 20]
}

fn gen_c04(p: &mut Plan, r: &mut Rng, i: u64, ctx: &mut Ctx) {
    let mut text = if r.chance(1, 2) {
        gen::program(r, Opt { comps: 4, stmts: 1, layout: 1, ..TINY }).into_bytes()
    } else {
        some_contract(r, ctx).into_bytes()
    };
    if r.chance(1, 10) {
        let s = String::from_utf8_lossy(&text).into_owned();
        let size = *r.pick(&[4096, 8192, 70_000, 140_000, 300_000]);
        text = gen::pad_to(r, &s, size, false).into_bytes();
    }
    let good = p.lit(text.clone());
    let path = gen::path(r, 0);
    let retry = |_: &Plan| Op::ParsePath { file: 0, chunks: vec![], faults: vec![], events: vec![] };
    let decoy = if r.chance(1, 3) { Some(p.lit(gen::program(r, TINY).into_bytes())) } else { None };
    if i % 5 == 4 {
        // undecodable bytes
        let mut t = text.clone();
        let at = match r.below(4) {
            0 => t.len(),
            1 => {
                let v = seams(&t);
                if v.is_empty() {
                    0
                } else {
                    *r.pick(&v)
                }
            }
            _ => r.below(t.len() + 1),
        };
        // outside any multi-byte character
        let at = (at..=t.len()).find(|a| *a == t.len() || t[*a] & 0xc0 != 0x80).unwrap_or(t.len());
        let junk: &[u8] = match r.below(8) {
            0 => b"\xff",
            1 => b"\x80",
            2 => b"\xe2\x82",
            3 => b"\xc0\xaf",
            4 => b"\xed\xa0\x80",
            5 => b"\xf4\x90\x80\x80",
            6 => b" (* \xe9 *) ",
            _ => b"\xf0\x9f\x98",
        };
        t.splice(at..at, junk.iter().copied());
        let badc = p.lit(t.clone());
        p.files.push(FileSpec::new(path, badc));
        if let Some(d) = decoy {
            add_decoys(r, p, d);
        }
        let ch = chunks(r, t.len());
        let mut ops = vec![Op::ParsePath { file: 0, chunks: ch, faults: vec![], events: vec![] }];
        ops.push(Op::Write { file: 0, content: good, keep: r.chance(1, 2) });
        ops.push(retry(p));
        p.threads.push(ops);
        return;
    }
    p.files.push(FileSpec::new(path, good));
    if let Some(d) = decoy {
        add_decoys(r, p, d);
    }
    p.files[0].kind = *r.pick(&[FKind::Reg, FKind::Reg, FKind::Reg, FKind::Reg, FKind::Link, FKind::Fifo, FKind::Chr]);
    let ch = seam_chunks(r, &text);
    if i % 35 == 8 {
        // a directory where the contract should be
        p.files[0].kind = FKind::Dir;
        let mut ops = vec![retry(p), Op::Write { file: 0, content: good, keep: false }, retry(p)];
        if r.chance(1, 2) {
            ops.insert(0, retry(p));
        }
        p.threads.push(ops);
        return;
    }
    let mut faults = vec![];
    let mut events = vec![];
    match i % 5 {
        0 => faults.push(Fault { kind: IoKind::Open, nth: 0, eff: Eff::Errno(errno(r)) }),
        3 => match r.below(4) {
            0 => events.push(FsEvent { at: r.below(3) as u32, file: 0, act: Act::Remove }),
            1 => faults.push(Fault { kind: IoKind::Stat, nth: r.below(2) as u32, eff: Eff::Errno(errno(r)) }),
            2 => faults.push(Fault { kind: IoKind::Seek, nth: r.below(2) as u32, eff: Eff::Errno(libc::ESPIPE) }),
            _ => faults.push(Fault { kind: IoKind::Close, nth: 0, eff: Eff::Errno(libc::EIO) }),
        },
        _ => {
            let nth = [0, 1, 1, 2, 3, 5][r.below(6)];
            let e = errno(r);
            faults.push(Fault { kind: IoKind::Read, nth, eff: Eff::Errno(e) });
            match r.below(4) {
                0 => {
                    // the device stays broken for a while
                    for k in 1..30 {
                        faults.push(Fault { kind: IoKind::Read, nth: nth + k, eff: Eff::Errno(e) });
                    }
                }
                1 if nth > 0 => {
                    faults.insert(0, Fault { kind: IoKind::Read, nth: nth - 1, eff: Eff::Errno(libc::EINTR) })
                }
                _ => {}
            }
        }
    }
    if i % 40 == 13 {
        // memory is short while the file is read
        faults = (0..r.range(1, 3)).map(|_| Fault { kind: IoKind::Alloc, nth: r.below(3) as u32 * r.range(1, 3) as u32, eff: Eff::Errno(libc::ENOMEM) }).collect();
        events.clear();
    }
    let removed = !events.is_empty();
    let mut ops = vec![Op::ParsePath { file: 0, chunks: ch, faults, events }];
    if removed {
        ops.push(Op::Write { file: 0, content: good, keep: false });
    }
    ops.push(retry(p));
    p.threads.push(ops);
}

fn gen_c05(p: &mut Plan, r: &mut Rng, _i: u64, ctx: &mut Ctx) {
    let base = if r.chance(2, 3) {
        gen::program(r, Opt { comps: 3, fields: 3, stmts: 1, layout: 1, ..TINY })
    } else {
        some_contract(r, ctx)
    };
    let base = sized(r, base, 20, 300_000);
    let mut vs = vec![p.lit(base.clone().into_bytes())];
    let n = r.range(1, 4);
    for _ in 0..n {
        let t = match r.below(6) {
            0 | 1 => gen::twin(r, &base),
            2 => format!("{}\ntransition Added{} () end", base, r.below(9)),
            3 => format!("(* {} *)\n{}", "x".repeat(r.below(60)), base),
            4 => String::new(),
            _ => gen::program(r, Opt { comps: 3, fields: 3, stmts: 1, layout: 1, ..TINY }),
        };
        let t = sized(r, t, 12, 300_000);
        vs.push(p.lit(t.into_bytes()));
    }
    let path = gen::path(r, 0);
    p.files.push(FileSpec::new(path, vs[0]));
    let nthr = if r.chance(1, 6) { 2 } else { 1 };
    for _ in 0..nthr {
        let k = r.range(1, 2);
        let mut ops = vec![];
        for _ in 0..k {
            let longest = vs.iter().map(|v| p.bytes(*v).len()).max().unwrap_or(0);
            let ch = if longest > 1400 { chunks(r, longest) } else { seam_chunks(r, base.as_bytes()) };
            let m = r.range(1, 3);
            let events = (0..m)
                .map(|_| FsEvent { at: r.geometric(4) as u32 - 1, file: 0, act: Act::Replace(*r.pick(&vs)) })
                .collect();
            let mut faults = vec![];
            if r.chance(1, 6) {
                faults.push(Fault { kind: IoKind::Read, nth: r.below(3) as u32, eff: Eff::Errno(libc::EINTR) });
            }
            ops.push(Op::ParsePath { file: 0, chunks: ch, faults, events });
        }
        p.threads.push(ops);
    }
    if nthr > 1 {
        p.sched = schedule(r);
    }
}

fn gen_c06(p: &mut Plan, r: &mut Rng, i: u64, ctx: &mut Ctx) {
    let base = match r.below(13) {
        12 => gen::extreme(r).into_bytes(),
        0 => r.pick(&ctx.corpus_small).clone().into_bytes(),
        1..=4 if !ctx.pool.is_empty() => {
            let k = ctx.pool.len();
            // newest first
            let j = k - 1 - (r.geometric((k / 3) as u64 + 1) as usize - 1).min(k - 1);
            ctx.pool[j].clone()
        }
        5 => gen::program(r, Opt { unsupported: 100, wild: 200, layout: 2, ..SMALL }).into_bytes(),
        6 => gen::program(r, Opt { unsupported: 50, wild: 100, ..RICH }).into_bytes(),
        7..=8 => gen::program(r, SMALL).into_bytes(),
        _ => {
            let layout = r.below(3);
            gen::program(r, Opt { unsupported: 60, wild: 120, depth: 2, layout, ..TINY }).into_bytes()
        }
    };
    let b = p.lit(base.clone());
    if r.chance(1, 3) {
        let other = some_contract(r, ctx);
        p.lit(other.into_bytes());
    }
    let lits = p.contents.len();
    let mut ops = vec![];
    let n = 4;
    for j in 0..n {
        if (i + j) % 6 == 5 {
            let m = base.len() / 4 + 2;
            let k = r.range(1, 4);
            let edits = (0..k)
                .map(|_| match r.below(5) {
                    0 | 1 => TokEdit::Drop(r.below(m)),
                    2 => TokEdit::Dup(r.below(m)),
                    3 => {
                        let a = r.below(m);
                        TokEdit::Swap(a, if r.chance(1, 2) { a + 1 } else { r.below(m) })
                    }
                    _ => TokEdit::Cut(r.below(m)),
                })
                .collect();
            ops.push(Op::ParseTokens { content: b, shared: false, edits });
            continue;
        }
        let ds = if j == 0 && r.chance(1, 8) { vec![] } else { gen::damage(r, &base, lits) };
        p.contents.push(Content::Damaged(b, ds));
        let c = p.contents.len() - 1;
        match r.below(10) {
            0 | 1 => {
                let path = gen::path(r, p.files.len());
                p.files.push(FileSpec::new(path, c));
                ops.push(path_op(r, p, p.files.len() - 1, 0));
            }
            2 => ops.push(Op::Lex { content: c, limit: 1 << 30 }),
            3 => {
                p.asts.push(Ast { content: c, root: if r.chance(3, 4) { Root::Program } else { *r.pick(&ROOTS) } });
                ops.push(Op::Emit { ast: p.asts.len() - 1 });
            }
            _ => ops.push(Op::ParseStr { content: c }),
        }
    }
    if r.chance(1, 6) {
        // the other public grammar parsers on damaged fragments
        let (root, text) = fragment(r, Opt { unsupported: 100, wild: 100, layout: 1, ..RICH });
        let t = p.lit(text.clone().into_bytes());
        let ds = gen::damage(r, text.as_bytes(), 0);
        p.contents.push(Content::Damaged(t, ds));
        p.asts.push(Ast { content: p.contents.len() - 1, root });
        ops.push(Op::Visit { ast: p.asts.len() - 1, root, decs: vec![] });
    }
    p.threads.push(ops);
}

fn gen_c07(p: &mut Plan, r: &mut Rng, i: u64, ctx: &mut Ctx) {
    let o = match r.below(6) {
        0 => Opt { comps: 3, fields: 2, params: 2, layout: 2, ..SMALL },
        1 => Opt { layout: 2, ..RICH },
        2 => Opt { depth: 2, params: 2, layout: r.below(3), ..TINY },
        _ => Opt { comps: 2, fields: 2, params: 2, layout: r.below(3), ..TINY },
    };
    let text = match r.below(12) {
        0 => r.pick(&ctx.corpus_small).clone(),
        1 => format!("{}\n(* trailing {} *)", gen::program(r, o), r.below(100)),
        _ => gen::program(r, Opt { unsupported: 0, wild: 0, ..o }),
    };
    let n = text.len();
    let full = p.lit(text.clone().into_bytes());
    let mut ops = vec![Op::ParseStr { content: full }];
    let add = |p: &mut Plan, cut: usize| {
        p.contents.push(Content::Prefix(full, cut));
        p.contents.len() - 1
    };
    match i % 4 {
        // every cut
        0 | 1 if n <= 260 => {
            for cut in 0..n {
                if text.is_char_boundary(cut) {
                    let c = add(p, cut);
                    ops.push(Op::ParseStr { content: c });
                }
            }
        }
        2 => {
            // token stream ends early: every cut, up to a limit
            let m = text.len() / 3 + 2;
            let step = (m / (16_000 / n.max(1)).clamp(6, 80)).max(1);
            let mut k = r.below(step);
            while k < m {
                ops.push(Op::ParseTokens { content: full, shared: false, edits: vec![TokEdit::Cut(k)] });
                k += step;
            }
        }
        3 => {
            for k in 0..(16_000 / n.max(1)).clamp(4, 16) {
                let s = seams(text.as_bytes());
                let cut = if r.chance(1, 2) && !s.is_empty() { (*r.pick(&s) + r.below(3)).min(n) } else { r.below(n + 1) };
                let c = add(p, cut);
                let path = gen::path(r, k);
                p.files.push(FileSpec::new(path, c));
                ops.push(path_op(r, p, k, 0));
            }
        }
        _ => {
            for _ in 0..(16_000 / n.max(1)).clamp(6, 40) {
                let s = seams(text.as_bytes());
                let cut = if r.chance(1, 3) && !s.is_empty() { (*r.pick(&s) + r.below(3)).min(n) } else { r.below(n + 1) };
                if text.is_char_boundary(cut) {
                    let c = add(p, cut);
                    ops.push(Op::ParseStr { content: c });
                }
            }
        }
    }
    p.threads.push(ops);
}

pub const BAD_TYPES: [&str; 10] = [
    "Uint32 -> Uint64",
    "'A",
    "'Zzz",
    "forall 'A . 'A",
    "Option",
    "List 'B",
    "Pair Uint32",
    "Map Uint32 (List)",
    "Option (Uint32 -> Uint64)",
    "ByStr20 with contract field f : 'C end",
];

/// A contract whose only defects are the given types at the given declarations (parameters,
/// fields, transition parameters, in source order)
pub fn defective(r: &mut Rng, total: usize, defects: &[(usize, &str)]) -> String {
    let a = r.below(total + 1);
    let b = r.range(a, total);
    let decl = |k: usize, r: &mut Rng| -> String {
        let t = match defects.iter().find(|d| d.0 == k) {
            Some((_, t)) => t.to_string(),
            None => {
                let mut g = G::new(r, Opt { unsupported: 0, wild: 0, layout: 1, ..SMALL });
                let d = g.r.below(3);
                g.typ(d);
                g.t.join(" ")
            }
        };
        format!("v{} : {}", k, t)
    };
    let mut s = String::from("scilla_version 0\ncontract Con (");
    s += &(0..a).map(|k| decl(k, r)).collect::<Vec<_>>().join(", ");
    s += ")\n";
    for k in a..b {
        s += &format!("field {} = x\n", decl(k, r));
    }
    let mut k = b;
    let mut j = 0;
    while k < total {
        let n = r.range(1, 2).min(total - k);
        s += &format!("transition Tr{} ({})\n  accept\nend\n", j, (k..k + n).map(|k| decl(k, r)).collect::<Vec<_>>().join(", "));
        if r.chance(1, 3) {
            s += "procedure Pr (q : Uint32) end\n";
        }
        k += n;
        j += 1;
    }
    s
}

fn tree_plan(p: &mut Plan, r: &mut Rng, ctx: &mut Ctx) -> usize {
    let o = Opt { unsupported: 60, wild: 20, layout: 1, ..RICH };
    match r.below(10) {
        0..=3 => {
            let depth = r.range(1, 2);
            let (root, text) = fragment(r, Opt { depth, ..o });
            let c = p.lit(text.into_bytes());
            p.asts.push(Ast { content: c, root });
        }
        4 => {
            let t = r.pick(&ctx.corpus_small).clone();
            let c = p.lit(t.into_bytes());
            p.asts.push(Ast { content: c, root: Root::Program });
        }
        _ => {
            let depth = r.range(1, 2);
            let t = gen::program(r, Opt { depth, ..o });
            let c = p.lit(t.into_bytes());
            p.asts.push(Ast { content: c, root: Root::Program });
        }
    }
    p.asts.len() - 1
}

fn gen_c09(p: &mut Plan, r: &mut Rng, i: u64, ctx: &mut Ctx) {
    if i % 8 == 7 {
        // conversion: the first defect, and only it, is reported
        p.note = "conversion".into();
        let total = r.range(1, 6);
        let k1 = r.below(total);
        let t1 = *r.pick(&BAD_TYPES);
        let lone = defective(r, 1, &[(0, t1)]);
        let mut defects = vec![(k1, t1)];
        if r.chance(1, 2) && k1 + 1 < total {
            defects.push((r.range(k1 + 1, total - 1), *r.pick(&BAD_TYPES)));
        }
        let text = defective(r, total, &defects);
        let healthy = defective(r, total, &[]);
        let c0 = p.lit(lone.into_bytes());
        let c1 = p.lit(text.into_bytes());
        let c2 = p.lit(healthy.into_bytes());
        p.asts.push(Ast { content: c1, root: Root::Program });
        p.threads.push(vec![
            Op::ParseStr { content: c0 },
            Op::ParseStr { content: c1 },
            Op::Emit { ast: 0 },
            Op::ParseStr { content: c2 },
            Op::Emit { ast: 0 },
        ]);
        return;
    }
    let a = tree_plan(p, r, ctx);
    let root = if p.asts[a].root == Root::Program && r.chance(1, 3) { Root::Contract } else { p.asts[a].root };
    let mut ops = vec![];
    // every callback index in turn, from a random start
    let span = 140;
    let start = if r.chance(1, 2) { 0 } else { r.below(400) as u32 };
    for k in 0..span {
        let d = if (k + i as u32) % 4 == 3 { Dec::Panic } else { Dec::Fail };
        let mut decs = vec![];
        if i % 4 == 2 {
            // other answers before the failing one
            let mut at = 0;
            for _ in 0..r.range(1, 3) {
                at += r.geometric(12) as u32;
                let d = match r.below(80) {
                    0..=2 => again(r),
                    3 => Dec::Nest(p.asts[a].content),
                    _ => Dec::Skip,
                };
                if at <= start + k {
                    decs.push((at - 1, d));
                }
            }
        }
        decs.push((start + k, d));
        ops.push(Op::Visit { ast: a, root, decs });
        if k % 12 == 5 {
            ops.push(Op::Visit { ast: a, root, decs: vec![] });
        }
    }
    ops.push(Op::Visit { ast: a, root, decs: vec![] });
    if p.asts[a].root == Root::Program {
        ops.push(Op::Emit { ast: a });
    }
    p.threads.push(ops);
}

fn gen_c10(p: &mut Plan, r: &mut Rng, i: u64, ctx: &mut Ctx) {
    let a = tree_plan(p, r, ctx);
    let root = if p.asts[a].root == Root::Program && r.chance(1, 3) { Root::Contract } else { p.asts[a].root };
    let mut ops = vec![Op::Visit { ast: a, root, decs: vec![] }];
    if i % 2 == 0 {
        let start = if r.chance(1, 2) { 0 } else { r.below(300) as u32 };
        for k in 0..120 {
            ops.push(Op::Visit { ast: a, root, decs: vec![(start + k, Dec::Skip)] });
            if (k + i as u32 / 2) % 5 == 0 {
                ops.push(Op::Visit { ast: a, root, decs: vec![(start + k, Dec::Fail)] });
            }
        }
    } else {
        for _ in 0..120 {
            let n = r.range(1, 8);
            let m = *r.pick(&[3, 10, 40]);
            let mut at = 0;
            let mut decs = vec![];
            for _ in 0..n {
                at += r.geometric(m) as u32 - 1;
                decs.push((at, if r.chance(1, 30) { again(r) } else { Dec::Skip }));
                at += 1;
            }
            if r.chance(1, 3) {
                decs.push((at + r.geometric(20) as u32, if r.chance(1, 4) { Dec::Panic } else { Dec::Fail }));
            }
            ops.push(Op::Visit { ast: a, root, decs });
        }
    }
    ops.push(Op::Visit { ast: a, root, decs: vec![] });
    p.threads.push(ops);
}

fn gen_c11(p: &mut Plan, r: &mut Rng, i: u64, _ctx: &mut Ctx) {
    let mut cs = vec![];
    let k = r.range(1, 2);
    for _ in 0..k {
        let layout = r.below(3);
        let size = match r.below(40) {
            0..=9 => SMALL,
            10..=13 => RICH,
            _ => TINY,
        };
        let unsupported = *r.pick(&[0, 30, 30, 300]);
        let mut t = gen::program(r, Opt { serial: true, layout, unsupported, wild: 30, ..size });
        if r.chance(3, 4) {
            let of = r.range(2, 9);
            t = gen::serialise(r, &t, of);
        }
        if !t.contains("Qq0000") {
            t = t.replacen("contract ", "contract Qq0000", 1);
        }
        if r.chance(1, 20) {
            let size = *r.pick(&[5000, 9000, 20_000, 70_000]);
            t = gen::pad_to(r, &t, size, false);
        }
        if r.chance(1, 4) {
            let mut b = t.clone().into_bytes();
            for d in gen::damage(r, &b.clone(), 0) {
                apply_damage(&mut b, &d, &|_| vec![]);
            }
            if let Ok(d) = String::from_utf8(b) {
                t = d;
            }
        }
        cs.push(p.lit(t.into_bytes()));
    }
    for c in cs.clone() {
        let path = gen::path(r, p.files.len());
        p.files.push(FileSpec::new(path, c));
    }
    if r.chance(2, 3) {
        let t = gen::program(r, Opt { unsupported: 0, ..SMALL });
        let c = p.lit(t.into_bytes());
        p.asts.push(Ast { content: c, root: Root::Program });
    }
    let n = r.range(1, 3);
    let ops: Vec<Op> = (0..n).map(|_| any_op(r, p, &cs, 30)).collect();
    if i % 4 == 3 {
        for _ in 0..ROUNDS {
            p.threads.push(ops.clone());
        }
    } else {
        p.threads.push(ops);
        p.epochs = ROUNDS as u32;
    }
}
pub const ROUNDS: usize = 72;

// ------------------------------------------------------------------ judging

fn ended(rep: &Report) -> Option<String> {
    if rep.status == "done" {
        None
    } else {
        Some(rep.status.clone())
    }
}

fn shown(o: &Outcome) -> String {
    let t: String = o.text.chars().take(400).collect();
    format!("{} {}", o.tag as char, t)
}

pub fn judge(p: &Plan, rep: &Report, ctx: &mut Ctx) -> Verdict {
    let all = || p.threads.iter().enumerate().flat_map(|(t, ops)| ops.iter().enumerate().map(move |(j, op)| (t, j, op)));
    let mut nops = 0u64;
    let mut sig = 0u64;
    for (t, j, op) in all() {
        sig = mix(sig ^ op_sig(p, op) ^ ((t as u64) << 8));
        if rep.ops.get(t).and_then(|v| v.get(j)).is_some_and(|o| o.done) {
            nops += 1;
        }
    }
    match p.property.as_str() {
        "C01" | "C02" => {
            let id = p.property.as_str();
            if let Some(st) = ended(rep) {
                // a call that ends the process or never ends on its own is not this property's business
                for (t, j, op) in all() {
                    let seen = rep.ops.get(t).and_then(|v| v.get(j)).and_then(|o| o.seen.first()).map(|x| *x as usize);
                    let op = p.effective(t, j);
                    if !matches!(op, Op::Repeat { .. }) && ctx.solo(p, op, seen).tag == b'X' {
                        return ok(sig, false, nops);
                    }
                }
                return bad(
                    &format!("{}:{}", id, st),
                    format!("thread {} operation {}: {} although every operation alone ends normally", rep.at.0, rep.at.1, st),
                );
            }
            for (t, j, op) in all() {
                let op = p.effective(t, j);
                if matches!(op, Op::Write { .. } | Op::Repeat { .. }) {
                    continue;
                }
                let got = &rep.ops[t][j];
                if let Some(v) = got.verdicts.iter().find(|v| v.starts_with(id)) {
                    return bad(&format!("{}:verdict", id), format!("thread {} operation {} ({}): {}", t + 1, j, op_text(op), v));
                }
                for x in &got.nested {
                    let mut w = x.splitn(3, ' ');
                    let c: usize = w.next().and_then(|c| c.parse().ok()).unwrap_or(0);
                    let want = ctx.solo(p, &Op::ParseStr { content: c }, None);
                    let gives = (w.next().unwrap_or(""), w.next().unwrap_or(""));
                    if want.tag != b'X' && gives != ((want.tag as char).to_string().as_str(), want.text.as_str()) {
                        return bad(
                            &format!("{}:nested", id),
                            format!(
                                "thread {} operation {} ({}): parsing content {} from inside a callback:\n  got   {} {}\n  alone {}",
                                t + 1,
                                j,
                                op_text(op),
                                c,
                                gives.0,
                                gives.1,
                                shown(&want)
                            ),
                        );
                    }
                }
                let seen = got.seen.first().map(|x| *x as usize);
                let mut want = ctx.solo(p, op, seen);
                if let (Op::ParsePath { faults, .. }, true) = (op, got.fired != want.fired) {
                    // How many calls reading a file takes is the library's own affair, and what
                    // fails is part of a call's input: compare with a call in which no other
                    // error occurs
                    let mut same = op.clone();
                    if let Op::ParsePath { faults, .. } = &mut same {
                        faults.retain(|f| !matches!(f.eff, Eff::Errno(e) if e != libc::EINTR));
                    }
                    let failed = got.fired.iter().any(|i| matches!(faults[*i as usize].eff, Eff::Errno(e) if e != libc::EINTR));
                    if failed && got.tag == b'E' && got.text.starts_with("IoError") {
                        continue;
                    }
                    want = ctx.solo(p, &same, seen);
                }
                if want.tag == b'X' {
                    continue;
                }
                if (got.tag, &got.text) != (want.tag, &want.text) {
                    return bad(
                        &format!("{}:differs", id),
                        format!("thread {} operation {} ({}):\n  got   {}\n  alone {}", t + 1, j, op_text(op), shown(got), shown(&want)),
                    );
                }
            }
            if id == "C01" {
                let mut s = mix(rep.ihash ^ sig);
                if rep.switches.is_empty() {
                    s = sig;
                }
                ok(s, !rep.switches.is_empty(), nops)
            } else {
                ok(sig, nops > 1, nops)
            }
        }
        "C03" => {
            if let Some(st) = ended(rep) {
                return bad(&format!("C03:{}", st), format!("operation {}: {} ({} I/O calls)", rep.at.1, st, rep.io_calls));
            }
            let mut nt = false;
            for (t, j, op) in all() {
                let (file, ch) = match op {
                    Op::ParsePath { file, chunks, .. } => (*file, chunks),
                    _ => continue,
                };
                let got = &rep.ops[t][j];
                let data = got.last.clone().unwrap_or_else(|| p.bytes(p.files[file].content));
                nt |= !ch.is_empty() || !got.fired.is_empty() || !got.ev_fired.is_empty() || data.len() > 4000;
                sig = mix(sig ^ h(&got.trace.join(",")));
                let reads = got.trace.iter().filter(|x| x.starts_with("read")).count();
                let _ = reads;
                match String::from_utf8(data) {
                    Err(_) => {
                        if got.tag != b'E' {
                            return bad("C03:undecodable", format!("operation {}: text is not valid UTF-8 but the call returned {}", j, shown(got)));
                        }
                    }
                    Ok(s) => {
                        let want = ctx.solo_str(p, s);
                        if want.tag != b'X' && (got.tag, &got.text) != (want.tag, &want.text) {
                            return bad(
                                "C03:differs",
                                format!("operation {}:\n  from path   {}\n  from string {}\n  I/O: {}", j, shown(got), shown(&want), got.trace.join(", ")),
                            );
                        }
                    }
                }
            }
            ok(sig, nt, nops)
        }
        "C04" => judge_c04(p, rep, ctx, sig, nops),
        "C05" => {
            if let Some(st) = ended(rep) {
                return bad(&format!("C05:{}", st), format!("operation {}: {}", rep.at.1, st));
            }
            let mut nt = false;
            for (t, j, op) in all() {
                let file = match op {
                    Op::ParsePath { file, .. } => *file,
                    _ => continue,
                };
                let got = &rep.ops[t][j];
                nt |= got.seen.len() > 1;
                sig = mix(sig ^ h(&got.trace.join(",")) ^ rep.ihash);
                let mut wants = vec![];
                let mut hit = false;
                for v in &got.seen {
                    let s = p.bytes(*v as usize);
                    match String::from_utf8(s) {
                        Err(_) => hit |= got.tag == b'E',
                        Ok(s) => {
                            let w = ctx.solo_str(p, s);
                            hit |= w.tag == b'X' || (got.tag, &got.text) == (w.tag, &w.text);
                            wants.push(w);
                        }
                    }
                }
                let _ = file;
                if !hit {
                    return bad(
                        "C05:mixture",
                        format!(
                            "thread {} operation {}: result is that of no version at the path during the call\n  got {}\n  versions:\n    {}\n  I/O: {}",
                            t + 1,
                            j,
                            shown(got),
                            wants.iter().map(shown).collect::<Vec<_>>().join("\n    "),
                            got.trace.join(", ")
                        ),
                    );
                }
            }
            ok(sig, nt, nops)
        }
        "C06" => {
            if let Some(st) = ended(rep) {
                return bad(&format!("C06:{}", st), format!("operation {}: {}", rep.at.1, st));
            }
            for (_, j, op) in all() {
                let o = &rep.ops[0][j];
                if o.tag == b'P' {
                    return bad("C06:panic", format!("operation {} ({}) panicked: {}", j, op_text(op), shown(o)));
                }
            }
            if let Some(x) = rep.panic_note.split("; ").find(|x| x.starts_with("ast ") && x.contains(" panicked: ")) {
                return bad("C06:panic", format!("grammar parser: {}", x));
            }
            if rep.panic_note.contains("traversal panicked") {
                return bad("C06:panic", format!("traversal: {}", rep.panic_note));
            }
            ok(sig, true, nops)
        }
        "C07" => judge_c07(p, rep, ctx, sig, nops),
        "C08" => {
            for (t, j, op) in all() {
                if let Some(o) = rep.ops.get(t).and_then(|v| v.get(j)) {
                    if let Some(b) = o.bad.first() {
                        let class: String = b.chars().take_while(|c| !c.is_ascii_digit() && *c != '/').take(24).collect();
                        return bad(&format!("C08:{}", class), format!("thread {} operation {} ({}): {}", t + 1, j, op_text(op), o.bad.join("; ")));
                    }
                }
            }
            if let Some(b) = rep.proc_bad.first() {
                return bad("C08:process", format!("{} ({})", b, rep.status));
            }
            if rep.status.starts_with("exit") {
                return bad("C08:exit", format!("operation {} ended the process: {}", rep.at.1, rep.status));
            }
            let mut nt = false;
            for (t, j, _) in all() {
                if let Some(o) = rep.ops.get(t).and_then(|v| v.get(j)) {
                    nt |= !o.fired.is_empty() || o.tag == b'E' || o.tag == b'I';
                    sig = mix(sig ^ h(&o.trace.join(",")));
                }
            }
            ok(sig, nt, nops)
        }
        "C09" | "C10" => {
            let id = p.property.as_str();
            if let Some(st) = ended(rep) {
                return bad(&format!("{}:{}", id, st), format!("operation {}: {}", rep.at.1, st));
            }
            let tag = format!("{}:", id);
            if let Some(x) = rep.panic_note.split("; ").find(|x| x.starts_with(&tag)) {
                return bad(&format!("{}:undisturbed", id), x.to_string());
            }
            let mut nt = false;
            for (t, j, op) in all() {
                let o = &rep.ops[t][j];
                if let Some(v) = o.verdicts.iter().find(|v| v.starts_with(&tag)) {
                    let class: String = v.chars().filter(|c| !c.is_ascii_digit()).take(30).collect();
                    return bad(&class, format!("operation {} ({}): {}", j, op_text(op), v));
                }
                nt |= matches!(o.tag, b'E' | b'I') || o.text.starts_with("traversed");
            }
            if p.note == "conversion" && id == "C09" {
                let o = &rep.ops[0];
                if o.len() == 5 {
                    if o[0].tag == b'E' && !o[0].text.starts_with("ParseError(\"Unrec") {
                        for k in [1, 2, 4] {
                            if (o[k].tag, &o[k].text) != (o[0].tag, &o[0].text) {
                                return bad(
                                    "C09:conversion",
                                    format!("the first defect alone gives\n  {}\nbut operation {} gives\n  {}", shown(&o[0]), k, shown(&o[k])),
                                );
                            }
                        }
                    }
                    if o[3].tag != b'O' {
                        return bad("C09:conversion-healthy", format!("a contract without defects gives {}", shown(&o[3])));
                    }
                }
            }
            ok(sig, nt, nops)
        }
        "C11" => {
            if ended(rep).is_some() {
                return ok(sig, false, nops);
            }
            let l = &rep.live;
            let n = l.len();
            if n >= ROUNDS {
                let (a, b, c) = (l[n / 9 - 1], l[n / 3 - 1], l[n - 1]);
                if b > a && c > b && c - a >= 64 {
                    return bad(
                        "C11:grows",
                        format!("live bytes kept by the library after {} / {} / {} rounds: {} / {} / {}", n / 9, n / 3, n, a, b, c),
                    );
                }
            }
            ok(sig, true, nops * p.epochs.max(1) as u64)
        }
        x => panic!("property {}", x),
    }
}

fn judge_c04(p: &Plan, rep: &Report, ctx: &mut Ctx, mut sig: u64, nops: u64) -> Verdict {
    if rep.status == "out of memory" {
        return ok(sig, true, nops); // an allocation was made to fail and the code has no answer: allowed
    }
    if let Some(st) = ended(rep) {
        return bad(&format!("C04:{}", st), format!("operation {}: {} after {} I/O calls", rep.at.1, st, rep.io_calls));
    }
    let mut nt = false;
    for (j, op) in p.threads[0].iter().enumerate() {
        let (faults, events) = match op {
            Op::ParsePath { faults, events, .. } => (faults, events),
            _ => continue,
        };
        let got = &rep.ops[0][j];
        sig = mix(sig ^ h(&got.trace.join(",")));
        if got.tag == b'P' {
            return bad("C04:panic", format!("operation {} panicked: {}", j, shown(got)));
        }
        let fired: Vec<&Fault> = got.fired.iter().map(|i| &faults[*i as usize]).collect();
        let errs: Vec<(IoKind, i32)> = fired
            .iter()
            .filter_map(|f| match f.eff {
                Eff::Errno(e) if e != libc::EINTR => Some((f.kind, e)),
                _ => None,
            })
            .collect();
        let kind_of = |e: i32| format!("Io {:?}", std::io::Error::from_raw_os_error(e).kind());
        nt |= !errs.is_empty() || !got.ev_fired.is_empty();
        let main: Vec<i32> = errs.iter().filter(|x| matches!(x.0, IoKind::Open | IoKind::Read)).map(|x| x.1).collect();
        if !main.is_empty() {
            // opening or reading failed
            if got.tag != b'E' {
                return bad("C04:masked", format!("operation {}: I/O failed with errno {:?} but the call returned {}\n  I/O: {}", j, main, shown(got), got.trace.join(", ")));
            }
            if !main.iter().any(|e| got.kind == kind_of(*e)) {
                return bad(
                    "C04:kind",
                    format!("operation {}: I/O failed with errno {:?} ({}) but the error is {} ({})", j, main, kind_of(main[0]), got.kind, shown(got)),
                );
            }
            continue;
        }
        // a directory is not a contract
        if p.files[0].kind == FKind::Dir && !p.threads[0][..j].iter().any(|o| matches!(o, Op::Write { .. })) {
            nt = true;
            if got.tag == b'E' && got.kind.starts_with("Io ") {
                continue;
            }
            return bad("C04:directory", format!("operation {}: the path is a directory but the call returned {}", j, shown(got)));
        }
        // removed before it was opened: not found
        if !events.is_empty() && !got.ev_fired.is_empty() && got.last.is_none() {
            if got.tag == b'E' && got.kind == kind_of(libc::ENOENT) {
                continue;
            }
            return bad("C04:missing", format!("operation {}: the file is missing but the call returned {}", j, shown(got)));
        }
        // memory ran out: any I/O error will do, and so does coping with it
        if errs.iter().any(|x| x.0 == IoKind::Alloc) && got.tag == b'E' && got.kind.starts_with("Io ") {
            continue;
        }
        let data = match &got.last {
            Some(d) => d.clone(),
            None => got.seen.first().map(|c| p.bytes(*c as usize)).unwrap_or_default(),
        };
        if !errs.is_empty() && got.tag == b'E' && errs.iter().any(|x| got.kind == kind_of(x.1)) {
            continue; // metadata or close failure, reported as such
        }
        match String::from_utf8(data) {
            Err(_) => {
                nt = true;
                if got.tag != b'E' || got.kind == "Parse" && false {
                    return bad("C04:undecodable", format!("operation {}: text is not valid UTF-8 but the call returned {}", j, shown(got)));
                }
                if let Some(c) = undecodable_as_syntax_error(got) {
                    return bad("C04:undecodable-parsed", format!("operation {}: {}", j, c));
                }
            }
            Ok(s) => {
                let want = ctx.solo_str(p, s);
                if want.tag != b'X' && (got.tag, &got.text) != (want.tag, &want.text) {
                    return bad(
                        "C04:after-fault",
                        format!("operation {}: without an effective fault the call returned\n  {}\ninstead of\n  {}", j, shown(got), shown(&want)),
                    );
                }
            }
        }
    }
    ok(sig, nt, nops)
}

/// Undecodable text must be reported as such; a syntax error would have come from partial or
/// altered data
fn undecodable_as_syntax_error(o: &Outcome) -> Option<String> {
    let t = o.text.to_ascii_lowercase();
    if o.kind == "Parse" && (t.contains("unrecognized") || t.contains("extratoken") || t.contains("invalidtoken")) {
        return Some(format!("undecodable text produced a syntax error: {}", shown(o)));
    }
    None
}

fn judge_c07(p: &Plan, rep: &Report, ctx: &mut Ctx, sig: u64, nops: u64) -> Verdict {
    let _ = ctx;
    if ended(rep).is_some() {
        return ok(sig, false, nops); // C06's business
    }
    let full = &rep.ops[0][0];
    if full.tag != b'O' || !matches!(p.threads[0][0], Op::ParseStr { content: 0 }) {
        return ok(sig, false, nops);
    }
    let sel = |o: &Outcome, k: &str| -> Vec<String> { o.parts.iter().filter(|x| x.starts_with(k)).cloned().collect() };
    for (j, op) in p.threads[0].iter().enumerate().skip(1) {
        let cut = match op {
            Op::ParsePath { file, .. } => p.files[*file].content,
            Op::ParseStr { content } => *content,
            Op::ParseTokens { content, .. } => *content,
            _ => continue,
        };
        if cut != 0 && !matches!(p.contents[cut], Content::Prefix(0, _)) {
            continue;
        }
        let o = &rep.ops[0][j];
        if o.tag != b'O' {
            continue;
        }
        let mut why = None;
        if sel(o, "N ") != sel(full, "N ") {
            why = Some("the name differs");
        } else if sel(o, "I ") != sel(full, "I ") {
            why = Some("the initialisation parameters differ");
        } else {
            let (f, ff) = (sel(o, "F "), sel(full, "F "));
            let (t, tt) = (sel(o, "T "), sel(full, "T "));
            if !ff.starts_with(&f) {
                why = Some("the fields are not a prefix of the complete contract's");
            } else if !tt.starts_with(&t) {
                why = Some("the transitions are not a prefix of the complete contract's");
            } else if !t.is_empty() && f.len() != ff.len() {
                why = Some("transitions appear before all fields are there");
            }
        }
        if let Some(w) = why {
            return bad("C07:altered", format!("operation {} ({}): {}\n  cut  {}\n  full {}", j, op_text(op), w, shown(o), shown(full)));
        }
    }
    ok(sig, true, nops - 1)
}
