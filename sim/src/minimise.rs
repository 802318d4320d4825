//! Makes a failing plan smaller while it keeps failing in the same way.

use crate::plan::*;
use crate::runner::Ctx;
use std::time::{Duration, Instant};

/// The same plan with k times as many rounds
pub fn longer(p: &Plan, k: usize) -> Plan {
    let mut q = p.clone();
    if q.epochs > 1 {
        q.epochs *= k as u32;
    } else {
        let t = q.threads.clone();
        for _ in 1..k.min(5) {
            q.threads.extend(t.iter().cloned());
        }
    }
    q
}

struct M<'a> {
    ctx: &'a mut Ctx,
    class: String,
    end: Instant,
    best: Plan,
}

impl M<'_> {
    fn late(&self) -> bool {
        Instant::now() > self.end
    }
    fn fails(&mut self, p: &Plan) -> bool {
        let (_, v) = self.ctx.eval(p);
        v.viol.is_some_and(|x| x.0 == self.class)
    }
    fn attempt(&mut self, p: Plan) -> bool {
        if self.late() || p == self.best {
            return false;
        }
        let mut p = p;
        if self.fails(&p) {
            self.best = p;
            return true;
        }
        // another seed of the same policy may do it on the smaller plan
        if let Sched::Policy { .. } = p.sched {
            for k in 1..4u64 {
                if self.late() {
                    return false;
                }
                if let Sched::Policy { seed, .. } = &mut p.sched {
                    *seed = crate::rng::mix(*seed ^ k);
                }
                if self.fails(&p) {
                    self.best = p;
                    return true;
                }
            }
        }
        false
    }

    /// Remove chunks of a list (ddmin-like), the list given and replaced by the closures
    fn list<T: Clone>(&mut self, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
        let mut size = get(&self.best).len().max(1);
        if size > 1 {
            let mut q = self.best.clone();
            set(&mut q, vec![]);
            if self.attempt(q) {
                return;
            }
        }
        while size >= 1 {
            let mut i = 0;
            while i < get(&self.best).len() {
                if self.late() {
                    return;
                }
                let mut v = get(&self.best);
                let e = (i + size).min(v.len());
                v.drain(i..e);
                let mut q = self.best.clone();
                set(&mut q, v);
                if !self.attempt(q) {
                    i += size;
                }
            }
            size /= 2;
        }
    }

    fn threads(&mut self) {
        let mut i = self.best.threads.len();
        while i > 0 && self.best.threads.len() > 1 {
            i -= 1;
            if i < self.best.threads.len() {
                let q = drop_thread(&self.best, i);
                self.attempt(q);
            }
        }
    }

    fn ops(&mut self) {
        if self.best.property == "C11" && self.best.threads.len() > 8 {
            let mut j = self.best.threads[0].len();
            while j > 0 {
                j -= 1;
                if self.best.threads[0].len() > 1 {
                    let mut q = self.best.clone();
                    for t in q.threads.iter_mut() {
                        t.remove(j);
                    }
                    self.attempt(q);
                }
            }
            return;
        }
        for t in 0..self.best.threads.len() {
            let mut size = self.best.threads[t].len().max(1);
            while size >= 1 {
                let mut j = 0;
                while j < self.best.threads[t].len() {
                    if self.late() {
                        return;
                    }
                    // C07: the complete text comes first
                    if self.best.property == "C07" && j == 0 {
                        j = 1;
                        continue;
                    }
                    let e = (j + size).min(self.best.threads[t].len());
                    let q = drop_ops(&self.best, t, j, e);
                    if !self.attempt(q) {
                        j += size;
                    }
                }
                size /= 2;
            }
        }
    }

    fn details(&mut self) {
        for t in 0..self.best.threads.len().min(8) {
            for j in 0..self.best.threads[t].len() {
                if self.late() {
                    return;
                }
                let op = self.best.threads[t][j].clone();
                match op {
                    Op::ParsePath { .. } => {
                        macro_rules! part {
                            ($f:ident) => {
                                self.list(
                                    |p| match &p.threads[t][j] {
                                        Op::ParsePath { $f, .. } => $f.clone(),
                                        _ => vec![],
                                    },
                                    |p, v| {
                                        if let Op::ParsePath { $f, .. } = &mut p.threads[t][j] {
                                            *$f = v
                                        }
                                    },
                                );
                            };
                        }
                        part!(events);
                        part!(faults);
                        part!(chunks);
                    }
                    Op::ParseTokens { .. } => self.list(
                        |p| match &p.threads[t][j] {
                            Op::ParseTokens { edits, .. } => edits.clone(),
                            _ => vec![],
                        },
                        |p, v| {
                            if let Op::ParseTokens { edits, .. } = &mut p.threads[t][j] {
                                *edits = v
                            }
                        },
                    ),
                    Op::Repeat { mut n } => {
                        // the fewest repetitions that still show it
                        let mut step = n / 2;
                        while step > 0 && !self.late() {
                            while n > step {
                                let mut q = self.best.clone();
                                q.threads[t][j] = Op::Repeat { n: n - step };
                                if !self.attempt(q) {
                                    break;
                                }
                                n -= step;
                            }
                            step /= 2;
                        }
                    }
                    Op::Visit { .. } => self.list(
                        |p| match &p.threads[t][j] {
                            Op::Visit { decs, .. } => decs.clone(),
                            _ => vec![],
                        },
                        |p, v| {
                            if let Op::Visit { decs, .. } = &mut p.threads[t][j] {
                                *decs = v
                            }
                        },
                    ),
                    _ => {}
                }
            }
        }
    }

    fn contents(&mut self) {
        if self.best.note == "conversion" {
            return;
        }
        // damage becomes part of the text
        for c in 0..self.best.contents.len() {
            if matches!(self.best.contents[c], Content::Damaged(..)) {
                let mut q = self.best.clone();
                q.contents[c] = Content::Lit(self.best.bytes(c));
                self.attempt(q);
            }
        }
        for c in 0..self.best.contents.len() {
            if !used(&self.best, c) {
                if let Content::Lit(b) = &self.best.contents[c] {
                    if !b.is_empty() {
                        let mut q = self.best.clone();
                        q.contents[c] = Content::Lit(vec![]);
                        self.attempt(q);
                    }
                }
                continue;
            }
            let n = match &self.best.contents[c] {
                Content::Lit(b) => b.len(),
                _ => continue,
            };
            if n > 40_000 {
                continue;
            }
            let mut size = (n / 2).max(1);
            while size >= 1 {
                let mut i = 0;
                loop {
                    let len = match &self.best.contents[c] {
                        Content::Lit(b) => b.len(),
                        _ => break,
                    };
                    if i >= len || self.late() {
                        break;
                    }
                    let q = cut_bytes(&self.best, c, i, (i + size).min(len));
                    if !self.attempt(q) {
                        i += size;
                    }
                }
                if self.late() {
                    return;
                }
                size /= 2;
            }
        }
    }
}

fn used(p: &Plan, c: usize) -> bool {
    let direct = |k: usize| {
        p.files.iter().any(|f| f.content == k)
            || p.asts.iter().any(|a| a.content == k)
            || p.threads.iter().flatten().any(|o| match o {
                Op::ParseTokens { edits, .. } if edits.iter().any(|e| matches!(e, TokEdit::Nest(_, c) if *c == k)) => true,
                Op::ParseStr { content } | Op::Lex { content, .. } | Op::ParseTokens { content, .. } | Op::Write { content, .. } => *content == k,
                Op::ParsePath { events, .. } => events.iter().any(|e| matches!(e.act, Act::Replace(x) | Act::Append(x) if x == k)),
                Op::Visit { decs, .. } => decs.iter().any(|d| d.1 == Dec::Nest(k)),
                _ => false,
            })
    };
    direct(c)
        || p.contents.iter().enumerate().any(|(k, x)| match x {
            Content::Prefix(j, _) => *j == c && direct(k),
            Content::Damaged(j, ds) => (*j == c || ds.iter().any(|d| matches!(d, Damage::Stale { other, .. } if *other == c))) && direct(k),
            _ => false,
        })
}

fn cut_bytes(p: &Plan, c: usize, a: usize, e: usize) -> Plan {
    let mut q = p.clone();
    if let Content::Lit(b) = &mut q.contents[c] {
        b.drain(a..e);
    }
    for x in q.contents.iter_mut() {
        if let Content::Prefix(j, n) = x {
            if *j == c {
                *n -= e.min(*n).saturating_sub(a.min(*n));
            }
        }
    }
    q
}

fn drop_thread(p: &Plan, i: usize) -> Plan {
    let mut q = p.clone();
    q.threads.remove(i);
    let n = q.threads.len();
    if q.start > i {
        q.start -= 1;
    }
    q.start %= n.max(1);
    if let Sched::Explicit(v) = &mut q.sched {
        let gone = i as u32 + 1;
        v.retain(|s| s.tid != gone && s.to != gone);
        for s in v.iter_mut() {
            if s.tid > gone {
                s.tid -= 1;
            }
            if s.to > gone {
                s.to -= 1;
            }
        }
    }
    if n == 1 && !matches!(q.sched, Sched::Explicit(_)) {
        q.sched = Sched::None;
    }
    q
}

fn drop_ops(p: &Plan, t: usize, a: usize, e: usize) -> Plan {
    let mut q = p.clone();
    q.threads[t].drain(a..e);
    if let Sched::Explicit(v) = &mut q.sched {
        let tid = t as u32 + 1;
        v.retain(|s| s.tid != tid || (s.op as usize) < a || (s.op as usize) >= e);
        for s in v.iter_mut() {
            if s.tid == tid && s.op as usize >= e {
                s.op -= (e - a) as u32;
            }
        }
    }
    q
}

/// Drop what nothing refers to any more
fn tidy(p: &Plan) -> Plan {
    let mut q = p.clone();
    if q.property == "C07" || q.note == "conversion" {
        return q;
    }
    // syntax trees
    let mut k = q.asts.len();
    while k > 0 {
        k -= 1;
        if !q.threads.iter().flatten().any(|o| matches!(o, Op::Visit { ast, .. } | Op::Emit { ast } if *ast == k)) {
            q.asts.remove(k);
            for o in q.threads.iter_mut().flatten() {
                if let Op::Visit { ast, .. } | Op::Emit { ast } = o {
                    if *ast > k {
                        *ast -= 1;
                    }
                }
            }
        }
    }
    let mut k = q.files.len();
    while k > 0 {
        k -= 1;
        let refd = q.threads.iter().flatten().any(|o| match o {
            Op::ParsePath { file, events, .. } => *file == k || events.iter().any(|e| e.file == k),
            Op::Write { file, .. } => *file == k,
            _ => false,
        });
        if !refd {
            q.files.remove(k);
            for o in q.threads.iter_mut().flatten() {
                match o {
                    Op::ParsePath { file, events, .. } => {
                        if *file > k {
                            *file -= 1;
                        }
                        for e in events {
                            if e.file > k {
                                e.file -= 1;
                            }
                        }
                    }
                    Op::Write { file, .. } if *file > k => *file -= 1,
                    _ => {}
                }
            }
        }
    }
    let mut k = q.contents.len();
    while k > 0 {
        k -= 1;
        let refd = used(&q, k) || q.contents.iter().any(|x| match x {
            Content::Prefix(j, _) => *j == k,
            Content::Damaged(j, ds) => *j == k || ds.iter().any(|d| matches!(d, Damage::Stale { other, .. } if *other == k)),
            _ => false,
        });
        if refd {
            continue;
        }
        q.contents.remove(k);
        let f = |x: &mut usize| {
            if *x > k {
                *x -= 1
            }
        };
        for x in q.contents.iter_mut() {
            match x {
                Content::Prefix(j, _) => f(j),
                Content::Damaged(j, ds) => {
                    f(j);
                    for d in ds {
                        if let Damage::Stale { other, .. } = d {
                            f(other)
                        }
                    }
                }
                _ => {}
            }
        }
        for x in q.files.iter_mut() {
            f(&mut x.content)
        }
        for x in q.asts.iter_mut() {
            f(&mut x.content)
        }
        for o in q.threads.iter_mut().flatten() {
            match o {
                Op::Visit { decs, .. } => {
                    for d in decs {
                        if let Dec::Nest(c) = &mut d.1 {
                            f(c)
                        }
                    }
                }
                Op::ParseTokens { content, edits, .. } => {
                    f(content);
                    for e in edits {
                        if let TokEdit::Nest(_, c) = e {
                            f(c)
                        }
                    }
                }
                Op::ParseStr { content } | Op::Lex { content, .. } | Op::Write { content, .. } => f(content),
                Op::ParsePath { events, .. } => {
                    for e in events {
                        if let Act::Replace(x) | Act::Append(x) = &mut e.act {
                            f(x)
                        }
                    }
                }
                _ => {}
            }
        }
    }
    q
}

pub fn minimise(ctx: &mut Ctx, p: &Plan, class: &str, time: Duration) -> Plan {
    let mut m = M { ctx, class: class.to_string(), end: Instant::now() + time, best: p.clone() };
    let mut last = m.best.clone();
    for round in 0..4 {
        m.threads();
        m.ops();
        m.details();
        let q = tidy(&m.best);
        m.attempt(q);
        if round == 1 || m.late() {
            explicit(&mut m);
        }
        m.contents();
        if m.best == last && round > 1 {
            break;
        }
        last = m.best.clone();
        if m.late() {
            break;
        }
    }
    // whatever the time, the schedule is written out
    m.end = Instant::now() + Duration::from_secs(8);
    explicit(&mut m);
    let q = tidy(&m.best);
    m.attempt(q);
    m.best
}

fn explicit(m: &mut M) {
    if let Sched::Policy { .. } = m.best.sched {
        let (rep, _) = m.ctx.eval(&m.best.clone());
        let mut q = m.best.clone();
        q.sched = Sched::Explicit(rep.switches.clone());
        m.attempt(q);
    }
    if let Sched::Explicit(_) = m.best.sched {
        m.list(
            |p| match &p.sched {
                Sched::Explicit(v) => v.clone(),
                _ => vec![],
            },
            |p, v| p.sched = Sched::Explicit(v),
        );
    }
}
