//! A plan is everything one simulated run depends on: contents, files, threads with their
//! operations, faults and callback decisions, and the schedule. It is plain text on disk
//! (a replay file), so a run is a pure function of the plan and the code under test.

use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Lit(Vec<u8>),
    /// The first n bytes of another content
    Prefix(usize, usize),
    /// Another content after storage damage
    Damaged(usize, Vec<Damage>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Damage {
    Flip { at: usize, bit: u8 },
    Set { at: usize, val: u8 },
    Zero { at: usize, len: usize },
    Lose { at: usize, len: usize },
    Dup { at: usize, len: usize },
    Move { from: usize, len: usize, to: usize },
    Stale { other: usize, at: usize, len: usize },
    Insert { at: usize, bytes: Vec<u8> },
    TornZero { at: usize },
    Trunc { at: usize },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum IoKind {
    Open,
    Stat,
    Seek,
    Read,
    Close,
    /// An allocation made while the call has a file open (the effect is always that it fails)
    Alloc,
}
pub const IO_KINDS: [IoKind; 6] = [IoKind::Open, IoKind::Stat, IoKind::Seek, IoKind::Read, IoKind::Close, IoKind::Alloc];

#[derive(Clone, Debug, PartialEq)]
pub enum Eff {
    Errno(i32),
    Short(usize),
    SizeLie(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub kind: IoKind,
    pub nth: u32,
    pub eff: Eff,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Replace(usize),
    Append(usize),
    Remove,
}

/// Something another process does to the file just before the `at`-th I/O call of the operation
#[derive(Clone, Debug, PartialEq)]
pub struct FsEvent {
    pub at: u32,
    pub file: usize,
    pub act: Act,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TokEdit {
    Drop(usize),
    Dup(usize),
    Swap(usize, usize),
    Cut(usize),
    Panic(usize),
    /// Just before handing out this token the token source parses another content
    Nest(usize, usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    Skip,
    Fail,
    Panic,
    /// The callback itself calls the library: parses a content
    Nest(usize),
    /// The callback itself traverses the same tree
    Again,
    /// The same, and one callback of that inner traversal skips (0), fails (1) or panics (2);
    /// the callback it was made from goes on regardless
    AgainStop(u32, u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Root {
    Program,
    Contract,
    Expression,
    TypeArgs,
    ScillaType,
    Statements,
}
pub const ROOTS: [Root; 6] = [
    Root::Program,
    Root::Contract,
    Root::Expression,
    Root::TypeArgs,
    Root::ScillaType,
    Root::Statements,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    ParsePath { file: usize, chunks: Vec<usize>, faults: Vec<Fault>, events: Vec<FsEvent> },
    ParseStr { content: usize },
    Lex { content: usize, limit: usize },
    ParseTokens { content: usize, shared: bool, edits: Vec<TokEdit> },
    /// decisions: (index of the emit callback in this traversal, answer)
    Visit { ast: usize, root: Root, decs: Vec<(u32, Dec)> },
    /// Convert a (shared) syntax tree with the library's own converter
    Emit { ast: usize },
    /// Another process writes the file between calls. keep: size-independent metadata (mtime) unchanged
    Write { file: usize, content: usize, keep: bool },
    /// The operation before this one, n times over, every time with the same result
    Repeat { n: usize }, // 0: once, while the thread unwinds
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ast {
    pub content: usize,
    pub root: Root,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Switch {
    pub tid: u32,
    pub op: u32,
    pub cnt: u64,
    pub to: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
    /// Threads run to completion one after the other
    None,
    Explicit(Vec<Switch>),
    Policy { seed: u64, mean: u64, global_pm: u32, rare_pm: u32, io_pm: u32, alloc_pm: u32, cb_pm: u32 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct FileSpec {
    pub path: Vec<u8>,
    pub content: usize,
    pub kind: FKind,
}
impl FileSpec {
    pub fn new(path: Vec<u8>, content: usize) -> FileSpec {
        FileSpec { path, content, kind: FKind::Reg }
    }
}

/// What is at a path
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FKind {
    Reg,
    /// A symbolic link to a regular file
    Link,
    /// A pipe: no size, no seeking
    Fifo,
    /// A character device or a /proc file: no size
    Chr,
    Dir,
}
pub const FKINDS: [(FKind, &str); 5] =
    [(FKind::Reg, "reg"), (FKind::Link, "link"), (FKind::Fifo, "fifo"), (FKind::Chr, "chr"), (FKind::Dir, "dir")];

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub env_seed: u64,
    pub start: usize,
    pub contents: Vec<Content>,
    pub files: Vec<FileSpec>,
    pub asts: Vec<Ast>,
    pub threads: Vec<Vec<Op>>,
    pub sched: Sched,
    pub epochs: u32,
    pub note: String,
}

impl Plan {
    /// What an operation does: a repetition does what the operation before it does
    pub fn effective(&self, t: usize, j: usize) -> &Op {
        self.threads[t][..=j].iter().rev().find(|o| !matches!(o, Op::Repeat { .. })).unwrap_or(&self.threads[t][j])
    }


    pub fn new(property: &str) -> Plan {
        Plan {
            property: property.to_string(),
            env_seed: 1,
            start: 0,
            contents: vec![],
            files: vec![],
            asts: vec![],
            threads: vec![],
            sched: Sched::None,
            epochs: 1,
            note: String::new(),
        }
    }
    pub fn lit(&mut self, b: Vec<u8>) -> usize {
        if let Some(i) = self.contents.iter().position(|c| matches!(c, Content::Lit(x) if *x == b)) {
            return i;
        }
        self.contents.push(Content::Lit(b));
        self.contents.len() - 1
    }
    pub fn bytes(&self, i: usize) -> Vec<u8> {
        match &self.contents[i] {
            Content::Lit(b) => b.clone(),
            Content::Prefix(j, n) => {
                let mut b = self.bytes(*j);
                b.truncate(*n);
                b
            }
            Content::Damaged(j, ds) => {
                let mut b = self.bytes(*j);
                for d in ds {
                    apply_damage(&mut b, d, &|k| self.bytes(k));
                }
                b
            }
        }
    }
    /// The content as a string (cut back to a character boundary, invalid bytes replaced)
    pub fn text(&self, i: usize) -> String {
        let mut b = self.bytes(i);
        if let Content::Prefix(..) = self.contents[i] {
            while !b.is_empty() {
                match std::str::from_utf8(&b) {
                    Ok(_) => break,
                    Err(e) if e.error_len().is_none() => b.truncate(e.valid_up_to()),
                    Err(_) => break,
                }
            }
        }
        match String::from_utf8(b) {
            Ok(s) => s,
            Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
        }
    }
}

pub fn apply_damage(b: &mut Vec<u8>, d: &Damage, get: &dyn Fn(usize) -> Vec<u8>) {
    let n = b.len();
    let clip = |at: usize, len: usize| -> (usize, usize) {
        let a = at.min(n);
        (a, (a + len).min(n))
    };
    match d {
        Damage::Flip { at, bit } => {
            if *at < n {
                b[*at] ^= 1 << (bit & 7);
            }
        }
        Damage::Set { at, val } => {
            if *at < n {
                b[*at] = *val;
            }
        }
        Damage::Zero { at, len } => {
            let (a, e) = clip(*at, *len);
            for x in &mut b[a..e] {
                *x = 0;
            }
        }
        Damage::Lose { at, len } => {
            let (a, e) = clip(*at, *len);
            b.drain(a..e);
        }
        Damage::Dup { at, len } => {
            let (a, e) = clip(*at, *len);
            let seg = b[a..e].to_vec();
            b.splice(e..e, seg);
        }
        Damage::Move { from, len, to } => {
            let (a, e) = clip(*from, *len);
            let seg: Vec<u8> = b.drain(a..e).collect();
            let t = (*to).min(b.len());
            b.splice(t..t, seg);
        }
        Damage::Stale { other, at, len } => {
            let o = get(*other);
            for i in *at..(*at + *len) {
                if i < b.len() && i < o.len() {
                    b[i] = o[i];
                }
            }
        }
        Damage::Insert { at, bytes } => {
            let a = (*at).min(n);
            b.splice(a..a, bytes.iter().copied());
        }
        Damage::TornZero { at } => {
            for x in b.iter_mut().skip(*at) {
                *x = 0;
            }
        }
        Damage::Trunc { at } => b.truncate(*at),
    }
}

// ---------------------------------------------------------------- text form

pub fn esc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() + 2);
    s.push('"');
    for &c in b {
        match c {
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            b'\n' => s.push_str("\\n"),
            0x20..=0x7e => s.push(c as char),
            _ => {
                let _ = write!(s, "\\x{:02x}", c);
            }
        }
    }
    s.push('"');
    s
}

fn unesc(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    if b.len() < 2 || b[0] != b'"' || b[b.len() - 1] != b'"' {
        return Err(format!("bad string {}", s));
    }
    let b = &b[1..b.len() - 1];
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            i += 1;
            match b.get(i) {
                Some(b'n') => o.push(b'\n'),
                Some(b'x') => {
                    let h = s.get(i + 2..i + 4).ok_or("bad escape")?;
                    o.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                    i += 2;
                }
                Some(c) => o.push(*c),
                None => return Err("bad escape".into()),
            }
        } else {
            o.push(b[i]);
        }
        i += 1;
    }
    Ok(o)
}

fn damage_text(d: &Damage) -> String {
    match d {
        Damage::Flip { at, bit } => format!("flip:{}:{}", at, bit),
        Damage::Set { at, val } => format!("set:{}:{}", at, val),
        Damage::Zero { at, len } => format!("zero:{}:{}", at, len),
        Damage::Lose { at, len } => format!("lose:{}:{}", at, len),
        Damage::Dup { at, len } => format!("dup:{}:{}", at, len),
        Damage::Move { from, len, to } => format!("move:{}:{}:{}", from, len, to),
        Damage::Stale { other, at, len } => format!("stale:{}:{}:{}", other, at, len),
        Damage::Insert { at, bytes } => {
            let h: String = bytes.iter().map(|b| format!("{:02x}", b)).collect();
            format!("insert:{}:{}", at, h)
        }
        Damage::TornZero { at } => format!("tornzero:{}", at),
        Damage::Trunc { at } => format!("trunc:{}", at),
    }
}

fn n<T: std::str::FromStr>(s: Option<&&str>) -> Result<T, String> {
    s.ok_or("missing number")?.parse::<T>().map_err(|_| format!("bad number {:?}", s))
}

fn parse_damage(s: &str) -> Result<Damage, String> {
    let p: Vec<&str> = s.split(':').collect();
    Ok(match p[0] {
        "flip" => Damage::Flip { at: n(p.get(1))?, bit: n(p.get(2))? },
        "set" => Damage::Set { at: n(p.get(1))?, val: n(p.get(2))? },
        "zero" => Damage::Zero { at: n(p.get(1))?, len: n(p.get(2))? },
        "lose" => Damage::Lose { at: n(p.get(1))?, len: n(p.get(2))? },
        "dup" => Damage::Dup { at: n(p.get(1))?, len: n(p.get(2))? },
        "move" => Damage::Move { from: n(p.get(1))?, len: n(p.get(2))?, to: n(p.get(3))? },
        "stale" => Damage::Stale { other: n(p.get(1))?, at: n(p.get(2))?, len: n(p.get(3))? },
        "insert" => {
            let h = p.get(2).ok_or("insert")?;
            let bytes = (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).map_err(|e| e.to_string()))
                .collect::<Result<Vec<u8>, String>>()?;
            Damage::Insert { at: n(p.get(1))?, bytes }
        }
        "tornzero" => Damage::TornZero { at: n(p.get(1))? },
        "trunc" => Damage::Trunc { at: n(p.get(1))? },
        x => return Err(format!("bad damage {}", x)),
    })
}

fn kind_text(k: IoKind) -> &'static str {
    match k {
        IoKind::Open => "open",
        IoKind::Stat => "stat",
        IoKind::Seek => "seek",
        IoKind::Read => "read",
        IoKind::Close => "close",
        IoKind::Alloc => "alloc",
    }
}

fn root_text(r: Root) -> &'static str {
    match r {
        Root::Program => "program",
        Root::Contract => "contract",
        Root::Expression => "expression",
        Root::TypeArgs => "typeargs",
        Root::ScillaType => "scillatype",
        Root::Statements => "statements",
    }
}

fn parse_root(s: &str) -> Result<Root, String> {
    ROOTS.iter().copied().find(|r| root_text(*r) == s).ok_or(format!("bad root {}", s))
}

fn join<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    v.iter().map(f).collect::<Vec<_>>().join(",")
}

pub fn op_text(op: &Op) -> String {
    match op {
        Op::ParsePath { file, chunks, faults, events } => format!(
            "parse-path file={} chunks={} faults={} events={}",
            file,
            join(chunks, |c| c.to_string()),
            join(faults, |f| format!(
                "{}:{}:{}",
                kind_text(f.kind),
                f.nth,
                match &f.eff {
                    Eff::Errno(e) => format!("errno:{}", e),
                    Eff::Short(n) => format!("short:{}", n),
                    Eff::SizeLie(n) => format!("size:{}", n),
                }
            )),
            join(events, |e| format!(
                "{}:{}:{}",
                e.at,
                e.file,
                match &e.act {
                    Act::Replace(c) => format!("replace:{}", c),
                    Act::Append(c) => format!("append:{}", c),
                    Act::Remove => "remove".to_string(),
                }
            ))
        ),
        Op::ParseStr { content } => format!("parse-str content={}", content),
        Op::Lex { content, limit } => format!("lex content={} limit={}", content, limit),
        Op::ParseTokens { content, shared, edits } => format!(
            "parse-tokens content={} shared={} edits={}",
            content,
            *shared as u8,
            join(edits, |e| match e {
                TokEdit::Drop(i) => format!("drop:{}", i),
                TokEdit::Dup(i) => format!("dup:{}", i),
                TokEdit::Swap(i, j) => format!("swap:{}:{}", i, j),
                TokEdit::Cut(i) => format!("cut:{}", i),
                TokEdit::Panic(i) => format!("panic:{}", i),
                TokEdit::Nest(i, c) => format!("nest:{}:{}", i, c),
            })
        ),
        Op::Visit { ast, root, decs } => format!(
            "visit ast={} root={} decs={}",
            ast,
            root_text(*root),
            join(decs, |(i, d)| format!(
                "{}:{}",
                i,
                match d {
                    Dec::Skip => "skip".to_string(),
                    Dec::Fail => "fail".to_string(),
                    Dec::Panic => "panic".to_string(),
                    Dec::Nest(c) => format!("nest:{}", c),
                    Dec::Again => "again".to_string(),
                    Dec::AgainStop(k, a) => format!("again:{}:{}", k, a),
                }
            ))
        ),
        Op::Emit { ast } => format!("emit ast={}", ast),
        Op::Write { file, content, keep } => {
            format!("write file={} content={} keep={}", file, content, *keep as u8)
        }
        Op::Repeat { n } => format!("repeat n={}", n),
    }
}

fn kv<'a>(parts: &[&'a str], k: &str) -> Result<&'a str, String> {
    for p in parts {
        if let Some(v) = p.strip_prefix(k) {
            if let Some(v) = v.strip_prefix('=') {
                return Ok(v);
            }
        }
    }
    Err(format!("missing {}", k))
}

fn items(s: &str) -> Vec<&str> {
    if s.is_empty() {
        vec![]
    } else {
        s.split(',').collect()
    }
}

fn num<T: std::str::FromStr>(s: &str) -> Result<T, String> {
    s.parse().map_err(|_| format!("bad number {}", s))
}

pub fn parse_op(s: &str) -> Result<Op, String> {
    let p: Vec<&str> = s.split(' ').collect();
    Ok(match p[0] {
        "parse-path" => {
            let mut faults = vec![];
            for f in items(kv(&p, "faults")?) {
                let q: Vec<&str> = f.split(':').collect();
                let kind = IO_KINDS.iter().copied().find(|k| kind_text(*k) == q[0]).ok_or("kind")?;
                let eff = match *q.get(2).ok_or("eff")? {
                    "errno" => Eff::Errno(n(q.get(3))?),
                    "short" => Eff::Short(n(q.get(3))?),
                    "size" => Eff::SizeLie(n(q.get(3))?),
                    x => return Err(format!("bad fault {}", x)),
                };
                faults.push(Fault { kind, nth: n(q.get(1))?, eff });
            }
            let mut events = vec![];
            for f in items(kv(&p, "events")?) {
                let q: Vec<&str> = f.split(':').collect();
                let act = match *q.get(2).ok_or("act")? {
                    "replace" => Act::Replace(n(q.get(3))?),
                    "append" => Act::Append(n(q.get(3))?),
                    "remove" => Act::Remove,
                    x => return Err(format!("bad event {}", x)),
                };
                events.push(FsEvent { at: n(q.first())?, file: n(q.get(1))?, act });
            }
            Op::ParsePath {
                file: num(kv(&p, "file")?)?,
                chunks: items(kv(&p, "chunks")?).into_iter().map(num).collect::<Result<_, _>>()?,
                faults,
                events,
            }
        }
        "parse-str" => Op::ParseStr { content: num(kv(&p, "content")?)? },
        "lex" => Op::Lex { content: num(kv(&p, "content")?)?, limit: num(kv(&p, "limit")?)? },
        "parse-tokens" => {
            let mut edits = vec![];
            for e in items(kv(&p, "edits")?) {
                let q: Vec<&str> = e.split(':').collect();
                edits.push(match q[0] {
                    "drop" => TokEdit::Drop(n(q.get(1))?),
                    "dup" => TokEdit::Dup(n(q.get(1))?),
                    "swap" => TokEdit::Swap(n(q.get(1))?, n(q.get(2))?),
                    "cut" => TokEdit::Cut(n(q.get(1))?),
                    "panic" => TokEdit::Panic(n(q.get(1))?),
                    "nest" => TokEdit::Nest(n(q.get(1))?, n(q.get(2))?),
                    x => return Err(format!("bad edit {}", x)),
                });
            }
            Op::ParseTokens {
                content: num(kv(&p, "content")?)?,
                shared: kv(&p, "shared")? == "1",
                edits,
            }
        }
        "visit" => {
            let mut decs = vec![];
            for e in items(kv(&p, "decs")?) {
                let q: Vec<&str> = e.split(':').collect();
                let d = match *q.get(1).ok_or("dec")? {
                    "skip" => Dec::Skip,
                    "fail" => Dec::Fail,
                    "panic" => Dec::Panic,
                    "nest" => Dec::Nest(n(q.get(2))?),
                    "again" if q.len() == 4 => Dec::AgainStop(n(q.get(2))?, n(q.get(3))?),
                    "again" => Dec::Again,
                    x => return Err(format!("bad decision {}", x)),
                };
                decs.push((n(q.first())?, d));
            }
            Op::Visit { ast: num(kv(&p, "ast")?)?, root: parse_root(kv(&p, "root")?)?, decs }
        }
        "emit" => Op::Emit { ast: num(kv(&p, "ast")?)? },
        "repeat" => Op::Repeat { n: num(kv(&p, "n")?)? },
        "write" => Op::Write {
            file: num(kv(&p, "file")?)?,
            content: num(kv(&p, "content")?)?,
            keep: kv(&p, "keep")? == "1",
        },
        x => return Err(format!("bad op {}", x)),
    })
}

pub fn to_text(p: &Plan) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "simscilla-plan 1");
    let _ = writeln!(s, "property {}", p.property);
    let _ = writeln!(s, "env-seed {}", p.env_seed);
    let _ = writeln!(s, "start {}", p.start);
    let _ = writeln!(s, "epochs {}", p.epochs);
    if !p.note.is_empty() {
        let _ = writeln!(s, "note {}", esc(p.note.as_bytes()));
    }
    for c in &p.contents {
        match c {
            Content::Lit(b) => {
                let _ = writeln!(s, "content lit {}", esc(b));
            }
            Content::Prefix(i, n) => {
                let _ = writeln!(s, "content prefix {} {}", i, n);
            }
            Content::Damaged(i, ds) => {
                let _ = writeln!(s, "content damaged {} {}", i, join(ds, damage_text));
            }
        }
    }
    for f in &p.files {
        let kind = FKINDS.iter().find(|k| k.0 == f.kind).map(|k| k.1).unwrap_or("reg");
        let _ = writeln!(s, "file {} {} {}", f.content, kind, esc(&f.path));
    }
    for a in &p.asts {
        let _ = writeln!(s, "ast {} {}", a.content, root_text(a.root));
    }
    for t in &p.threads {
        let _ = writeln!(s, "thread");
        for o in t {
            let _ = writeln!(s, "op {}", op_text(o));
        }
    }
    match &p.sched {
        Sched::None => {
            let _ = writeln!(s, "sched none");
        }
        Sched::Explicit(v) => {
            let _ = writeln!(
                s,
                "sched explicit {}",
                join(v, |w| format!("{}:{}:{}>{}", w.tid, w.op, w.cnt, w.to))
            );
        }
        Sched::Policy { seed, mean, global_pm, rare_pm, io_pm, alloc_pm, cb_pm } => {
            let _ = writeln!(
                s,
                "sched policy {} {} {} {} {} {} {}",
                seed, mean, global_pm, rare_pm, io_pm, alloc_pm, cb_pm
            );
        }
    }
    let _ = writeln!(s, "end");
    s
}

pub fn from_text(text: &str) -> Result<Plan, String> {
    let mut p = Plan::new("");
    let mut ended = false;
    for line in text.lines() {
        if line.starts_with('#') || line.is_empty() {
            continue;
        }
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "simscilla-plan" => {}
            "property" => p.property = rest.to_string(),
            "env-seed" => p.env_seed = num(rest)?,
            "start" => p.start = num(rest)?,
            "epochs" => p.epochs = num(rest)?,
            "note" => p.note = String::from_utf8_lossy(&unesc(rest)?).into_owned(),
            "content" => {
                let (kind, r) = rest.split_once(' ').ok_or("content")?;
                p.contents.push(match kind {
                    "lit" => Content::Lit(unesc(r)?),
                    "prefix" => {
                        let (a, b) = r.split_once(' ').ok_or("prefix")?;
                        Content::Prefix(num(a)?, num(b)?)
                    }
                    "damaged" => {
                        let (a, b) = r.split_once(' ').ok_or("damaged")?;
                        Content::Damaged(
                            num(a)?,
                            items(b).into_iter().map(parse_damage).collect::<Result<_, _>>()?,
                        )
                    }
                    x => return Err(format!("bad content {}", x)),
                });
            }
            "file" => {
                let (a, b) = rest.split_once(' ').ok_or("file")?;
                let (k, b) = b.split_once(' ').ok_or("file kind")?;
                let kind = FKINDS.iter().find(|x| x.1 == k).map(|x| x.0).ok_or("file kind")?;
                p.files.push(FileSpec { content: num(a)?, path: unesc(b)?, kind });
            }
            "ast" => {
                let (a, b) = rest.split_once(' ').ok_or("ast")?;
                p.asts.push(Ast { content: num(a)?, root: parse_root(b)? });
            }
            "thread" => p.threads.push(vec![]),
            "op" => {
                let o = parse_op(rest)?;
                p.threads.last_mut().ok_or("op before thread")?.push(o);
            }
            "sched" => {
                let (kind, r) = rest.split_once(' ').unwrap_or((rest, ""));
                p.sched = match kind {
                    "none" => Sched::None,
                    "explicit" => {
                        let mut v = vec![];
                        for it in items(r) {
                            let (a, to) = it.split_once('>').ok_or("switch")?;
                            let q: Vec<&str> = a.split(':').collect();
                            v.push(Switch {
                                tid: n(q.first())?,
                                op: n(q.get(1))?,
                                cnt: n(q.get(2))?,
                                to: num(to)?,
                            });
                        }
                        Sched::Explicit(v)
                    }
                    "policy" => {
                        let q: Vec<&str> = r.split(' ').collect();
                        Sched::Policy {
                            seed: n(q.first())?,
                            mean: n(q.get(1))?,
                            global_pm: n(q.get(2))?,
                            rare_pm: n(q.get(3))?,
                            io_pm: n(q.get(4))?,
                            alloc_pm: n(q.get(5))?,
                            cb_pm: n(q.get(6))?,
                        }
                    }
                    x => return Err(format!("bad sched {}", x)),
                };
            }
            "end" => {
                ended = true;
                break;
            }
            x => return Err(format!("bad line {}", x)),
        }
    }
    if !ended {
        return Err("plan without end".into());
    }
    for (i, c) in p.contents.iter().enumerate() {
        match c {
            Content::Prefix(j, _) if *j >= i => return Err("content order".into()),
            Content::Damaged(j, ds) => {
                if *j >= i {
                    return Err("content order".into());
                }
                for d in ds {
                    if let Damage::Stale { other, .. } = d {
                        if *other >= i {
                            return Err("content order".into());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(p)
}
