//! What a simulated run tells the process that started it, passed through shared memory.

use crate::plan::Switch;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Outcome {
    pub done: bool,
    pub tag: u8, // b'O' contract, b'E' error, b'P' panic, b'I' injected panic, b'V' visit/other ok
    pub text: String,
    pub parts: Vec<String>,
    pub verdicts: Vec<String>,
    /// Results of calls made from inside callbacks: "<content> <tag> <text>"
    pub nested: Vec<String>,
    pub bad: Vec<String>,
    pub fired: Vec<u32>,
    pub ev_fired: Vec<u32>,
    pub seen: Vec<u32>,
    pub last: Option<Vec<u8>>,
    pub errno: i32,
    pub kind: String,
    pub io_calls: u32,
    pub eof: bool,
    pub steps: u64,
    pub trace: Vec<String>,
    pub cbs: u32,
    /// Answers that took effect in a traversal: callback << 4 | entering << 3 | answer
    pub answers: Vec<u32>,
    pub live: i64,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub status: String, // "done" or what ended the run
    pub at: (u32, u32),
    pub ops: Vec<Vec<Outcome>>,
    pub switches: Vec<Switch>,
    pub steps: u64,
    pub sim_ns: u64,
    pub ihash: u64,
    pub fired: Vec<u64>,
    pub io_calls: u64,
    pub live: Vec<i64>,
    pub blocked: u64,
    pub panic_note: String,
    pub proc_bad: Vec<String>,
}

pub struct W(pub Vec<u8>);
impl W {
    pub fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    pub fn b(&mut self, b: &[u8]) {
        self.u(b.len() as u64);
        self.0.extend_from_slice(b);
    }
    pub fn s(&mut self, s: &str) {
        self.b(s.as_bytes());
    }
    pub fn vs(&mut self, v: &[String]) {
        self.u(v.len() as u64);
        for s in v {
            self.s(s);
        }
    }
    pub fn vu(&mut self, v: &[u32]) {
        self.u(v.len() as u64);
        for s in v {
            self.u(*s as u64);
        }
    }
}
pub struct R<'a>(pub &'a [u8], pub usize);
impl R<'_> {
    pub fn u(&mut self) -> u64 {
        let mut a = [0u8; 8];
        a.copy_from_slice(&self.0[self.1..self.1 + 8]);
        self.1 += 8;
        u64::from_le_bytes(a)
    }
    pub fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let v = self.0[self.1..self.1 + n].to_vec();
        self.1 += n;
        v
    }
    pub fn s(&mut self) -> String {
        String::from_utf8_lossy(&self.b()).into_owned()
    }
    pub fn vs(&mut self) -> Vec<String> {
        let n = self.u();
        (0..n).map(|_| self.s()).collect()
    }
    pub fn vu(&mut self) -> Vec<u32> {
        let n = self.u();
        (0..n).map(|_| self.u() as u32).collect()
    }
}

impl Report {
    pub fn write(&self) -> Vec<u8> {
        let mut w = W(vec![]);
        w.s(&self.status);
        w.u(self.at.0 as u64);
        w.u(self.at.1 as u64);
        w.u(self.ops.len() as u64);
        for t in &self.ops {
            w.u(t.len() as u64);
            for o in t {
                w.u(o.done as u64);
                w.u(o.tag as u64);
                w.s(&o.text);
                w.vs(&o.parts);
                w.vs(&o.verdicts);
                w.vs(&o.nested);
                w.vs(&o.bad);
                w.vu(&o.fired);
                w.vu(&o.ev_fired);
                w.vu(&o.seen);
                match &o.last {
                    None => w.u(0),
                    Some(b) => {
                        w.u(1);
                        w.b(b);
                    }
                }
                w.u(o.errno as u64);
                w.s(&o.kind);
                w.u(o.io_calls as u64);
                w.u(o.eof as u64);
                w.u(o.steps);
                w.vs(&o.trace);
                w.u(o.cbs as u64);
                w.vu(&o.answers);
                w.u(o.live as u64);
            }
        }
        w.u(self.switches.len() as u64);
        for s in &self.switches {
            w.u(s.tid as u64);
            w.u(s.op as u64);
            w.u(s.cnt);
            w.u(s.to as u64);
        }
        w.u(self.steps);
        w.u(self.sim_ns);
        w.u(self.ihash);
        w.u(self.fired.len() as u64);
        for f in &self.fired {
            w.u(*f);
        }
        w.u(self.io_calls);
        w.u(self.live.len() as u64);
        for f in &self.live {
            w.u(*f as u64);
        }
        w.u(self.blocked);
        w.s(&self.panic_note);
        w.vs(&self.proc_bad);
        w.0
    }
    pub fn read(b: &[u8]) -> Report {
        let mut r = R(b, 0);
        let mut p = Report { status: r.s(), at: (r.u() as u32, r.u() as u32), ..Default::default() };
        let nt = r.u();
        for _ in 0..nt {
            let no = r.u();
            let mut t = vec![];
            for _ in 0..no {
                t.push(Outcome {
                    done: r.u() != 0,
                    tag: r.u() as u8,
                    text: r.s(),
                    parts: r.vs(),
                    verdicts: r.vs(),
                    nested: r.vs(),
                    bad: r.vs(),
                    fired: r.vu(),
                    ev_fired: r.vu(),
                    seen: r.vu(),
                    last: if r.u() == 1 { Some(r.b()) } else { None },
                    errno: r.u() as i32,
                    kind: r.s(),
                    io_calls: r.u() as u32,
                    eof: r.u() != 0,
                    steps: r.u(),
                    trace: r.vs(),
                    cbs: r.u() as u32,
                    answers: r.vu(),
                    live: r.u() as i64,
                });
            }
            p.ops.push(t);
        }
        let n = r.u();
        for _ in 0..n {
            p.switches.push(Switch { tid: r.u() as u32, op: r.u() as u32, cnt: r.u(), to: r.u() as u32 });
        }
        p.steps = r.u();
        p.sim_ns = r.u();
        p.ihash = r.u();
        let n = r.u();
        for _ in 0..n {
            p.fired.push(r.u());
        }
        p.io_calls = r.u();
        let n = r.u();
        for _ in 0..n {
            p.live.push(r.u() as i64);
        }
        p.blocked = r.u();
        p.panic_note = r.s();
        p.proc_bad = r.vs();
        p
    }
}
