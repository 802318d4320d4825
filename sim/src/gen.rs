//! Generators: Scilla contracts of every construct the grammar has, their near-identical twins,
//! storage damage, and contents placed around I/O block boundaries.

use crate::plan::Damage;
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Opt {
    pub params: usize,
    pub fields: usize,
    pub comps: usize,
    pub stmts: usize,
    pub lib: usize,
    pub depth: usize,
    /// per mille of types the converter rejects (function types, type variables, ...)
    pub unsupported: usize,
    /// per mille of types of a wrong arity
    pub wild: usize,
    /// 0 compact, 1 normal, 2 odd layout with comments and non-ASCII characters
    pub layout: usize,
    /// names that vary from round to round (memory plans)
    pub serial: bool,
}

pub const TINY: Opt = Opt { params: 1, fields: 1, comps: 1, stmts: 1, lib: 0, depth: 1, unsupported: 0, wild: 0, layout: 0, serial: false };
pub const SMALL: Opt = Opt { params: 2, fields: 2, comps: 2, stmts: 2, lib: 1, depth: 1, unsupported: 15, wild: 10, layout: 1, serial: false };
pub const RICH: Opt = Opt { params: 3, fields: 4, comps: 3, stmts: 4, lib: 3, depth: 2, unsupported: 10, wild: 10, layout: 2, serial: false };

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub o: Opt,
    pub t: Vec<String>,
}

const LOWER: [&str; 33] = [
    "a", "b", "x", "foo", "foo1", "foo_", "fooo", "endx", "in1", "matchx", "withdraw", "fieldx", "owner", "balances",
    "to_addr", "amount", "typex", "ofx", "asx", "libraryx", "sendx", "eventx", "acceptx", "contractx", "transition_a",
    "map", "emp", "event_1", "zZ9_", "let_", "initial_owner_address", "total_supply_of_token_1_in_pool",
    "a_rather_long_name_of_more_than_sixty_characters_that_goes_on_and_on_0001",
];
const UPPER: [&str; 26] = [
    "A", "B", "Foo", "Foo1", "Foo_", "Fooo", "Token", "MapX", "EmpX", "EventX", "Event1", "Owner", "Cons", "Nil", "Some",
    "None", "True", "False", "BoolX", "ListX", "Z9", "StringX", "TransferRequestKind", "Shape_1_Kind", "Operator_1_Approval_State",
    "ARatherLongTypeNameOfMoreThanSixtyCharactersThatGoesOnAndOnAndOn01",
];
const PRIMS: [&str; 14] = [
    "Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256", "String", "BNum", "Bool", "ByStr20",
    "ByStr32", "ByStr",
];
const SPECIAL: [&str; 6] = ["_sender", "_amount", "_balance", "_this_address", "_eventname", "_x"];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, o: Opt) -> G<'a> {
        G { r, o, t: vec![] }
    }
    fn p(&mut self, s: &str) {
        self.t.push(s.to_string());
    }
    fn ps(&mut self, s: &[&str]) {
        for x in s {
            self.p(x);
        }
    }
    fn lower(&mut self) -> String {
        if self.o.serial && self.r.chance(1, 4) {
            return "vQq0000".into();
        }
        if self.r.chance(1, 8) {
            format!("{}{}", self.r.pick(&LOWER), self.r.below(100))
        } else {
            self.r.pick(&LOWER).to_string()
        }
    }
    fn upper(&mut self) -> String {
        if self.o.serial && self.r.chance(1, 3) {
            return "Qq0000".into();
        }
        if self.r.chance(1, 8) {
            format!("{}{}", self.r.pick(&UPPER), self.r.below(100))
        } else {
            self.r.pick(&UPPER).to_string()
        }
    }
    fn id(&mut self) {
        let s = self.lower();
        self.t.push(s);
    }
    fn cid(&mut self) {
        let s = self.upper();
        self.t.push(s);
    }
    fn type_name(&mut self) {
        match self.r.below(12) {
            0 => self.p("Event"),
            1 => {
                let s = format!("ByStr{}", [1, 20, 32, 33, 0, 64][self.r.below(6)]);
                self.t.push(s);
            }
            2..=7 => {
                let s = self.r.pick(&PRIMS[..13]).to_string();
                self.t.push(s);
            }
            _ => self.cid(),
        }
    }
    fn var(&mut self) {
        match self.r.below(10) {
            0 => {
                let s = self.r.pick(&SPECIAL).to_string();
                self.t.push(s);
            }
            1 => {
                self.cid();
                self.p(".");
                self.id();
            }
            _ => self.id(),
        }
    }
    fn meta(&mut self) {
        match self.r.below(14) {
            0 => {
                self.cid();
                self.p(".");
                self.cid();
            }
            1 => {
                let s = format!("0x{}", ["", "00", "0123456789abcdefABCDEF00"][self.r.below(3)]);
                self.t.push(s);
                self.p(".");
                self.cid();
            }
            2 => self.p("ByStr"),
            _ => self.type_name(),
        }
    }
    fn tvar(&mut self) {
        let s = format!("'{}", ["A", "B", "Abc_1"][self.r.below(3)]);
        self.t.push(s);
    }
    fn address(&mut self, d: usize) {
        let s = if self.r.chance(4, 5) { "ByStr20".to_string() } else { self.upper() };
        self.t.push(s);
        self.p("with");
        match self.r.below(6) {
            0 => {}
            1 => self.p("library"),
            2 => {
                let s = self.r.pick(&["_codehash", "_x"]).to_string();
                self.t.push(s);
            }
            3 => self.p("contract"),
            _ => {
                self.p("contract");
                let n = self.r.range(1, 2);
                for i in 0..n {
                    if i > 0 {
                        self.p(",");
                    }
                    self.p("field");
                    self.var();
                    self.p(":");
                    self.typ(d.saturating_sub(1));
                }
            }
        }
        self.p("end");
    }
    fn map_key(&mut self, d: usize) {
        match self.r.below(8) {
            0 => {
                self.p("(");
                self.meta();
                self.p(")");
            }
            1 if d > 0 => {
                self.p("(");
                self.address(d);
                self.p(")");
            }
            2 if d > 0 => self.address(d),
            _ => {
                let s = self.r.pick(&PRIMS).to_string();
                self.t.push(s);
            }
        }
    }
    fn map_value(&mut self, d: usize) {
        if d == 0 {
            return self.meta();
        }
        match self.r.below(8) {
            0 | 1 => {
                self.p("Map");
                self.map_key(d - 1);
                self.map_value(d - 1);
            }
            2 | 3 => {
                self.p("(");
                self.map_value_args(d - 1);
                self.p(")");
            }
            4 => self.address(d - 1),
            _ => self.meta(),
        }
    }
    fn map_value_args(&mut self, d: usize) {
        match self.r.below(4) {
            0 => self.map_value(d),
            k => {
                let (n, c) = [("Option", 1), ("List", 1), ("Pair", 2)][k - 1];
                let c = if self.r.below(1000) < self.o.wild { self.r.range(1, 3) } else { c };
                self.p(n);
                for _ in 0..c {
                    match self.r.below(4) {
                        0 if d > 0 => {
                            self.p("(");
                            self.map_value_args(d - 1);
                            self.p(")");
                        }
                        1 if d > 0 => {
                            self.p("Map");
                            self.map_key(d - 1);
                            self.map_value(d - 1);
                        }
                        _ => self.meta(),
                    }
                }
            }
        }
    }
    fn type_arg(&mut self, d: usize) {
        if d == 0 {
            if self.r.below(1000) < self.o.unsupported {
                return self.tvar();
            }
            return self.meta();
        }
        match self.r.below(8) {
            0 | 1 => {
                self.p("(");
                self.typ(d - 1);
                self.p(")");
            }
            2 => self.address(d - 1),
            3 => {
                self.p("Map");
                self.map_key(d - 1);
                self.map_value(d - 1);
            }
            4 if self.r.below(1000) < self.o.unsupported => self.tvar(),
            _ => self.meta(),
        }
    }
    pub fn typ(&mut self, d: usize) {
        if self.r.below(1000) < self.o.unsupported {
            match self.r.below(3) {
                0 => {
                    self.meta();
                    self.p("->");
                    self.meta();
                }
                1 => {
                    self.p("forall");
                    self.tvar();
                    self.p(".");
                    self.tvar();
                }
                _ => self.tvar(),
            }
            return;
        }
        if self.r.below(1000) < self.o.wild {
            let n = self.r.pick(&["Option", "List", "Pair", "Uint32", "Foo"]).to_string();
            self.t.push(n);
            let c = self.r.below(4);
            for _ in 0..c {
                self.type_arg(d.saturating_sub(1));
            }
            return;
        }
        if d == 0 {
            let s = self.r.pick(&PRIMS).to_string();
            self.t.push(s);
            return;
        }
        match self.r.below(10) {
            0 => {
                self.p("Option");
                self.type_arg(d - 1);
            }
            1 => {
                self.p("List");
                self.type_arg(d - 1);
            }
            2 => {
                self.p("Pair");
                self.type_arg(d - 1);
                self.type_arg(d - 1);
            }
            3 | 4 => {
                self.p("Map");
                self.map_key(d - 1);
                self.map_value(d - 1);
            }
            5 => self.address(d - 1),
            6 => {
                self.p("(");
                self.typ(d - 1);
                self.p(")");
            }
            7 => self.meta(),
            _ => {
                let s = self.r.pick(&PRIMS).to_string();
                self.t.push(s);
            }
        }
    }
    fn int(&mut self) {
        let s = ["0", "1", "42", "-7", "340282366920938463463374607431768211455", "007"][self.r.below(6)];
        self.p(s);
    }
    fn string(&mut self) {
        if self.o.wild > 0 && self.r.below(1000) < self.o.wild {
            let s = shards(self.r).replace(['"', '\n'], "");
            let s = format!("\"{}\"", s.trim_end_matches('\\'));
            self.p(&s);
            return;
        }
        let s = match (self.r.below(9), self.o.serial) {
            (0, true) => "\"Qq0000\"",
            (0..=3, _) => "\"hello\"",
            (4, _) => "\"\"",
            (5, _) => "\"esc \\\" \\\\ \\n\"",
            (6, _) if self.o.layout == 2 => "\"caf\u{e9} \u{20ac} \u{1F600}\"",
            (7, _) => "\"(* not a comment *) end\"",
            _ => "\"contract X ()\"",
        };
        self.p(s);
    }
    fn literal(&mut self, d: usize) {
        match self.r.below(4) {
            0 => {
                let s = self.r.pick(&PRIMS[..8]).to_string();
                self.t.push(s);
                self.int();
            }
            1 => {
                let s = ["0x", "0xdead", "0X0123456789abcdef0123456789abcdef01234567"][self.r.below(3)];
                self.p(s);
            }
            2 => self.string(),
            _ => {
                self.p("Emp");
                self.map_key(d.min(1));
                self.map_value(d.min(1));
            }
        }
    }
    fn targs(&mut self, d: usize) {
        self.p("{");
        let n = self.r.below(3);
        for _ in 0..n {
            self.type_arg(d);
        }
        self.p("}");
    }
    fn pattern(&mut self, d: usize) {
        match self.r.below(4) {
            0 => self.p("_"),
            1 => self.id(),
            _ => {
                self.meta();
                let n = self.r.below(3);
                for _ in 0..n {
                    match self.r.below(4) {
                        0 => self.p("_"),
                        1 => self.id(),
                        2 if d > 0 => {
                            self.p("(");
                            self.pattern(d - 1);
                            self.p(")");
                        }
                        _ => self.meta(),
                    }
                }
            }
        }
    }
    pub fn expr(&mut self, d: usize) {
        let k = if d == 0 { [2, 3, 3, 4, 7][self.r.below(5)] } else { self.r.below(10) };
        match k {
            0 => {
                self.p("let");
                self.id();
                if self.r.chance(1, 3) {
                    self.p(":");
                    self.typ(d - 1);
                }
                self.p("=");
                self.expr(d - 1);
                self.p("in");
                self.expr(d - 1);
            }
            1 => {
                self.ps(&["fun", "("]);
                self.id();
                self.p(":");
                self.typ(d - 1);
                self.ps(&[")", "=>"]);
                self.expr(d - 1);
            }
            2 => {
                self.var();
                let n = self.r.range(1, 3);
                for _ in 0..n {
                    self.var();
                }
            }
            3 => {
                if self.r.chance(1, 2) {
                    self.var()
                } else {
                    self.literal(d)
                }
            }
            4 => {
                self.p("builtin");
                self.id();
                if self.r.chance(1, 4) {
                    self.targs(d);
                }
                if self.r.chance(1, 6) {
                    self.ps(&["(", ")"]);
                } else {
                    let n = self.r.range(1, 3);
                    for _ in 0..n {
                        self.var();
                    }
                }
            }
            5 => {
                self.p("{");
                let n = self.r.range(1, 3);
                for i in 0..n {
                    if i > 0 {
                        self.p(";");
                    }
                    self.var();
                    self.p(":");
                    if self.r.chance(1, 2) {
                        self.literal(d)
                    } else {
                        self.var()
                    }
                }
                self.p("}");
            }
            6 => {
                self.p("match");
                self.var();
                self.p("with");
                let n = self.r.range(1, 3);
                for _ in 0..n {
                    self.p("|");
                    self.pattern(1);
                    self.p("=>");
                    self.expr(d - 1);
                }
                self.p("end");
            }
            7 => {
                self.meta();
                if self.r.chance(1, 3) {
                    self.targs(d);
                }
                let n = self.r.below(3);
                for _ in 0..n {
                    self.var();
                }
            }
            8 => {
                self.p("tfun");
                self.tvar();
                self.p("=>");
                self.expr(d - 1);
            }
            _ => {
                self.p("@");
                self.var();
                let n = self.r.range(1, 2);
                for _ in 0..n {
                    self.type_arg(d);
                }
            }
        }
    }
    fn keys(&mut self) {
        let n = self.r.range(1, 2);
        for _ in 0..n {
            self.p("[");
            self.var();
            self.p("]");
        }
    }
    fn stmt(&mut self, d: usize) {
        match self.r.below(22) {
            0 => {
                self.id();
                self.p("<-");
                self.var();
            }
            1 => {
                self.id();
                self.p(":=");
                self.var();
            }
            2..=4 => {
                self.id();
                self.p("=");
                self.expr(d);
            }
            5 => {
                self.id();
                self.ps(&["<-", "&"]);
                self.cid();
                if self.r.chance(1, 2) {
                    self.p("(");
                    let n = self.r.range(1, 2);
                    for _ in 0..n {
                        self.var();
                    }
                    self.p(")");
                }
            }
            6 => {
                self.id();
                self.p("<-");
                self.id();
                self.keys();
            }
            7 => {
                self.id();
                self.ps(&["<-", "exists"]);
                self.id();
                self.keys();
            }
            8 => {
                self.id();
                self.keys();
                self.p(":=");
                self.var();
            }
            9 => {
                self.p("delete");
                self.id();
                self.keys();
            }
            10 => self.p("accept"),
            11 => {
                self.p("send");
                self.var();
            }
            12 => {
                self.p("event");
                self.var();
            }
            13 => {
                self.p("throw");
                if self.r.chance(1, 2) {
                    self.var();
                }
            }
            14 | 15 if d > 0 => {
                self.p("match");
                self.var();
                self.p("with");
                let n = self.r.range(1, 2);
                for _ in 0..n {
                    self.p("|");
                    self.pattern(1);
                    self.p("=>");
                    if self.r.chance(3, 4) {
                        self.block(d - 1, 2);
                    }
                }
                self.p("end");
            }
            16 => {
                if self.r.chance(1, 2) {
                    self.id()
                } else {
                    self.cid()
                }
                let n = self.r.below(3);
                for _ in 0..n {
                    self.var();
                }
            }
            17 => {
                self.p("forall");
                self.var();
                self.cid();
            }
            18 => {
                self.id();
                self.ps(&["<-", "&"]);
                self.id();
                self.p(".");
                self.id();
                if self.r.chance(1, 2) {
                    self.keys();
                }
            }
            19 => {
                self.id();
                self.ps(&["<-", "&"]);
                if self.r.chance(1, 2) {
                    self.ps(&["_sender", ".", "_balance"]);
                } else {
                    self.p("exists");
                    self.id();
                    self.p(".");
                    self.id();
                    self.keys();
                }
            }
            20 => {
                self.id();
                self.ps(&["<-", "&"]);
                self.id();
                self.p("as");
                self.address(1);
            }
            _ => {
                self.id();
                self.p("=");
                self.expr(0);
            }
        }
    }
    pub fn block(&mut self, d: usize, max: usize) {
        let n = self.r.range(1, max.max(1));
        for i in 0..n {
            if i > 0 {
                self.p(";");
            }
            self.stmt(d);
        }
    }
    fn params(&mut self, max: usize) {
        self.p("(");
        let n = self.r.range(0, max);
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            self.id();
            self.p(":");
            let d = self.r.below(self.o.depth + 1);
            self.typ(d);
        }
        self.p(")");
    }
    pub fn contract_def(&mut self) {
        let o = self.o;
        self.p("contract");
        self.cid();
        self.params(o.params);
        if self.r.chance(1, 8) {
            self.p("with");
            self.expr(o.depth.min(1));
            self.p("=>");
        }
        let n = self.r.range(o.fields.min(1), o.fields);
        for _ in 0..n {
            self.p("field");
            self.id();
            self.p(":");
            let d = self.r.below(o.depth + 2);
            self.typ(d);
            self.p("=");
            self.expr(self.o.depth.min(1));
        }
        let n = self.r.range(o.comps.min(1), o.comps);
        for _ in 0..n {
            let k = if self.r.chance(3, 4) { "transition" } else { "procedure" };
            self.p(k);
            if self.r.chance(1, 2) {
                self.cid()
            } else {
                self.id()
            }
            self.params(o.params);
            if o.stmts > 0 && self.r.chance(5, 6) {
                self.block(o.depth, o.stmts);
            }
            self.p("end");
        }
    }
    pub fn program(&mut self) {
        let o = self.o;
        self.p("scilla_version");
        let v = ["0", "0", "0", "1", "-1"][self.r.below(5)];
        self.p(v);
        if o.lib > 0 && self.r.chance(1, 3) {
            self.p("import");
            let n = self.r.range(1, 2);
            for _ in 0..n {
                self.type_name();
                if self.r.chance(1, 4) {
                    self.p("as");
                    self.cid();
                }
            }
        }
        if o.lib > 0 && self.r.chance(1, 2) {
            self.p("library");
            self.cid();
            let n = self.r.range(0, o.lib);
            for _ in 0..n {
                if self.r.chance(1, 3) {
                    self.p("type");
                    self.cid();
                    if self.r.chance(3, 4) {
                        self.p("=");
                        let k = self.r.range(1, 3);
                        for _ in 0..k {
                            self.p("|");
                            self.cid();
                            if self.r.chance(1, 2) {
                                self.p("of");
                                let a = self.r.range(1, 2);
                                for _ in 0..a {
                                    self.type_arg(1);
                                }
                            }
                        }
                    }
                } else {
                    self.p("let");
                    self.id();
                    if self.r.chance(1, 2) {
                        self.p(":");
                        self.typ(1);
                    }
                    self.p("=");
                    self.expr(o.depth);
                }
            }
        }
        self.contract_def();
    }
    pub fn text(self) -> String {
        layout(self.r, &self.t, self.o.layout)
    }
}

pub fn layout(r: &mut Rng, toks: &[String], level: usize) -> String {
    let mut s = String::new();
    let crlf = level == 2 && r.chance(1, 8);
    if level == 2 && r.chance(1, 6) {
        s.push_str(comment(r));
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let tight = matches!(toks[i - 1].as_str(), "(" | "[" | "{") || matches!(t.as_str(), ")" | "]" | "}" | ";" | ",");
            let big = matches!(t.as_str(), "field" | "transition" | "procedure" | "contract" | "library" | "import" | "let" | "end");
            match level {
                0 => {
                    if !tight {
                        s.push(if big { '\n' } else { ' ' })
                    }
                }
                1 => {
                    if tight && r.chance(3, 4) {
                    } else if big || t == "|" || toks[i - 1] == ";" {
                        s.push('\n');
                        for _ in 0..r.below(3) {
                            s.push(' ');
                        }
                    } else {
                        s.push(' ');
                    }
                    if big && r.chance(1, 8) {
                        s.push_str(comment(r));
                    }
                }
                _ => {
                    let n = if tight { r.below(2) } else { r.range(1, 2) };
                    for _ in 0..n {
                        s.push_str(match r.below(14) {
                            0 | 1 => "\n",
                            2 => "\t",
                            3 if crlf => "\r\n",
                            4 => "   ",
                            5 => "\u{a0}",
                            _ => " ",
                        });
                    }
                    if r.chance(1, 25) {
                        s.push_str(comment(r));
                        s.push(' ');
                    }
                }
            }
        }
        s.push_str(t);
    }
    match r.below(5) {
        0 => s.push('\n'),
        1 if level == 2 => s.push_str(" \n (* end of file *) \n"),
        _ => {}
    }
    s
}

fn comment(r: &mut Rng) -> &'static str {
    [
        "(* c *)",
        "(**)",
        "(* end \" contract ( *)",
        "(***)",
        "(* caf\u{e9} \u{4e2d}\u{6587} \u{1F600} *)",
        "(* a\nb\r\n *)",
        "(* ( * ) *)",
    ][r.below(7)]
}

pub fn program(r: &mut Rng, o: Opt) -> String {
    let mut g = G::new(r, o);
    g.program();
    g.text()
}

/// A contract that is extreme in one respect: nesting (within a few hundred levels), repetition,
/// or the length of one token
pub fn extreme(r: &mut Rng) -> String {
    let deep = [5, 20, 40, 100, 200][r.below(5)];
    let many = [10, 100, 400, 2000, 10_000][r.below(5)];
    let rep = |s: &str, n: usize| s.repeat(n);
    let mut param = String::new();
    let mut lib = String::new();
    let mut field = "Uint32 = x".to_string();
    let mut stmt = "accept".to_string();
    let mut gap = " ".to_string();
    let mut more = String::new();
    match r.below(9) {
        0 => {
            // one kind of nesting, or all mixed
            let open = ["Option (", "List (", "(", "Map Uint32 (", "Pair Uint32 (", "Map (Uint32) (", "Option (List ("];
            let mut t = String::new();
            let mut c = 0;
            let one = r.below(open.len() + 1);
            while c < deep {
                let o = if one < open.len() { open[one] } else { open[r.below(open.len())] };
                t.push_str(o);
                c += o.matches('(').count();
            }
            let closes = t.matches('(').count() - t.matches(')').count();
            t.push_str(["Uint32", "Foo", "ByStr20 with end", "'A", "Map Uint32 Uint32"][r.below(5)]);
            t.push_str(&rep(")", closes - if r.chance(1, 10) { 1 } else { 0 }));
            match r.below(3) {
                0 => param = format!("a : {}", t),
                1 => field = format!("{} = x", t),
                _ => more = format!("transition Deep (a : {}) end", t),
            }
        }
        1 => {
            let e = match r.below(5) {
                0 => rep("let x = a in ", deep),
                1 => rep("fun (a : Uint32) => ", deep),
                2 => rep("tfun 'A => ", deep),
                3 => rep("let x : Option Uint32 = fun (a : Uint32) => ", deep),
                _ => rep("fun (a : List (Option Uint32)) => let x = a in ", deep / 2 + 1),
            };
            let e = if r.chance(1, 4) {
                format!("{}a{}", rep("match x with | Foo => ", deep), rep(" end", deep))
            } else {
                format!("{}a", e)
            };
            if r.chance(1, 2) {
                field = format!("Uint32 = {}", e)
            } else {
                lib = format!("library L let f = {} ", e)
            }
        }
        2 => stmt = format!("{}accept{}", rep("match x with | Foo => ", deep), rep(" end", deep)),
        3 => {
            let p = format!("{}a{}", rep("Cons (", deep), rep(")", deep));
            stmt = format!("match x with | {} => accept end", p)
        }
        4 => {
            gap = match r.below(7) {
                0 => rep("(* c *)", many),
                1 => rep("(**)\n", many),
                2 => rep("\n", many),
                3 => format!("(*{}*)", rep("*", many)),
                4 => format!("(*{}*)", rep("(", many)),
                5 => format!("{}c{}", rep("(*", deep * 5), rep("*)", deep * 5)),
                _ => rep("\t \r\n", many),
            }
        }
        5 => {
            let n = many * 5;
            let t = match r.below(6) {
                0 => rep("a", n),
                1 => format!("0x{}", rep("a1", n)),
                2 => format!("Uint32 {}", rep("9", n)),
                3 => format!("\"{}\"", rep("x", n)),
                4 => format!("\"{}\"", rep("\\\"", n)),
                _ => format!("\"{}\"", rep("\u{20ac}", n)),
            };
            match r.below(4) {
                0 => field = format!("Uint32 = {}", t),
                1 => stmt = format!("x = {}", t),
                2 => param = format!("{} : ByStr{}", rep("b", n), rep("1", n)),
                _ => more = format!("transition {} () end", rep("T", n)),
            }
        }
        6 => {
            let k = many.min(400);
            let num = |f: &dyn Fn(usize) -> String, sep: &str| (0..k).map(f).collect::<Vec<_>>().join(sep);
            match r.below(9) {
                0 => param = num(&|i| format!("p{} : Uint32", i), ", "),
                1 => field = format!("Uint32 = x {}", num(&|i| format!("field f{} : Map Uint32 String = Emp Uint32 String", i), " ")),
                2 => more = num(&|i| format!("transition T{} (a : Uint32, b : List String) accept end", i), " "),
                3 => stmt = num(&|i| format!("x{} = builtin add a b", i), "; "),
                4 => stmt = format!("m = {{ {} }}", num(&|i| format!("k{} : Uint32 {}", i, i), "; ")),
                5 => stmt = format!("x{} := y", num(&|i| format!("[k{}]", i), "")),
                6 => lib = format!("import {} library L ", num(&|i| format!("I{}", i), " ")),
                7 => lib = format!("library L type T = {} ", num(&|i| format!("| C{} of Uint32", i), " ")),
                _ => param = format!("a : ByStr20 with contract {} end", num(&|i| format!("field g{} : Uint32", i), ", ")),
            }
        }
        7 => {
            let t = ["(", "[", "{", "(*", "\"", "'", "<-", "Map ", "field ", "match x with ", "-", "=", "| ", "ByStr20 with ", "0x", "."][r.below(16)];
            let t = rep(t, deep);
            match r.below(4) {
                0 => gap = t,
                1 => stmt = t,
                2 => field = t,
                _ => more = t,
            }
        }
        _ => {
            let t = format!("{}Uint32{}", rep("ByStr20 with contract field f : ", deep.min(100)), rep(" end", deep.min(100)));
            if r.chance(1, 2) {
                param = format!("a : {}", t)
            } else {
                field = format!("{} = x", t)
            }
        }
    }
    format!(
        "scilla_version 0{}{}\ncontract Con ({})\nfield g : {}{}transition T (a : Uint32)\n  {}\nend\n{}",
        gap, lib, param, field, gap, stmt, more
    )
}

/// A near-identical variant of a text: what a too-clever cache would confuse with it
pub fn twin(r: &mut Rng, s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let ident: Vec<usize> = (1..b.len()).filter(|i| b[*i].is_ascii_alphanumeric() && (b[*i - 1].is_ascii_lowercase() || b[*i-1].is_ascii_digit())).collect();
    let mut c = b.clone();
    match r.below(6) {
        // same length, one character of one word differs
        0..=2 if !ident.is_empty() => {
            let i = ident[if r.chance(1, 2) { r.below(ident.len()) } else { ident.len() - 1 - r.below(ident.len().min(6)) }];
            c[i] = if c[i] == '1' { '2' } else if c[i].is_ascii_digit() { '1' } else if c[i] == 'q' { 'w' } else { 'q' };
            c.into_iter().collect()
        }
        // same words in another order
        3 => {
            let (x, y) = [("Uint32", "Uint64"), ("Int128", "Int256"), ("ByStr20", "ByStr32"), ("foo", "fop"), ("String", "BNum12")][r.below(5)];
            let t = s.replace(x, "\u{1}").replace(y, x).replace('\u{1}', y);
            if t != s {
                t
            } else {
                s.replacen("contract ", "contract  ", 1)
            }
        }
        // layout only
        4 => s.replacen(' ', "\n", 1 + r.below(5)),
        // cut
        _ => {
            let n = r.below(b.len().max(1));
            b[..n].iter().collect()
        }
    }
}

const DICT: [&str; 48] = [
    "\"", "(*", "*)", "'", "'A", "\\", "0x", "0X1", "ByStr", "ByStr99999999999999999999999", "ByStr00", "-", "+", "-1", "_", "__",
    "\u{e9}", "\u{1F600}", "\u{feff}", "\0", "=>", "->", "<-", ":=", ":", "end", "with", "contract", "field", "transition",
    "Map", "Pair", "Option", "List", "Event", "forall", "{", "}", "(", ")", "99999999999999999999999999", "type", ".", "\u{2028}",
    "*", "ByStr20 with", "match x with", "!",
];

/// A few characters that mean something to some tokenizer, next to each other
pub fn shards(r: &mut Rng) -> String {
    const SHARDS: [&str; 44] = [
        "\\", "\\u", "\\x", "\\n", "\\\\", "\\\"", "\"", "\"\"", "'", "\\0", "\0", "0x", "0X", "x", "u", "n", "1", "12", "9f", "_", "-", "+", "\u{e9}",
        "\u{20ac}", "\u{1F600}", "e\u{301}", "\u{feff}", "\u{a0}", "\r", "\n", "\t", " ", "(*", "*)", "(*)", "*", "(", "{", "}", "\\{", "%", "&", "#", "\u{7f}",
    ];
    let n = if r.chance(1, 3) { r.range(4, 9) } else { r.range(2, 4) };
    (0..n).map(|_| *r.pick(&SHARDS)).collect()
}

pub fn damage(r: &mut Rng, base: &[u8], others: usize) -> Vec<Damage> {
    let n = base.len().max(1);
    let k = [1, 1, 1, 2, 2, 3, 5][r.below(7)];
    let blk = |r: &mut Rng| [1, 2, 4, 8, 16, 64, 512][r.below(7)];
    (0..k)
        .map(|_| {
            let mut at = r.below(n + 1);
            if r.chance(1, 3) {
                // start of a word
                while at > 0 && at < n && base[at - 1].is_ascii_alphanumeric() {
                    at -= 1;
                }
            }
            match r.below(15) {
                0 => Damage::Flip { at, bit: r.below(8) as u8 },
                1 => Damage::Set { at, val: r.next() as u8 },
                2 => Damage::Zero { at, len: blk(r) },
                3 | 4 => {
                    // lose a block, or one word
                    let mut len = blk(r);
                    if r.chance(1, 2) {
                        len = base[at.min(base.len())..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count().max(1);
                    }
                    Damage::Lose { at, len }
                }
                5 => Damage::Dup { at, len: blk(r) },
                6 => Damage::Move { from: at, len: blk(r), to: r.below(n) },
                7 if others > 0 => Damage::Stale { other: r.below(others), at: at & !7, len: blk(r) * 4 },
                8 => Damage::TornZero { at },
                9 | 10 => Damage::Trunc { at },
                12 if r.chance(1, 2) => {
                    // inside a string literal or a comment, if there is one
                    let open: Vec<usize> = (0..base.len()).filter(|i| matches!(base[*i], b'"' | b'*')).collect();
                    if !open.is_empty() && r.chance(2, 3) {
                        at = *r.pick(&open) + 1;
                    }
                    Damage::Insert { at, bytes: shards(r).into_bytes() }
                }
                _ => {
                    let mut s = String::new();
                    if r.chance(1, 2) {
                        s.push(' ');
                    }
                    let c = if r.chance(1, 8) { r.range(2, 12) } else { 1 };
                    let d = *r.pick(&DICT);
                    for _ in 0..c {
                        s.push_str(d);
                    }
                    if r.chance(1, 2) {
                        s.push(' ');
                    }
                    Damage::Insert { at, bytes: s.into_bytes() }
                }
            }
        })
        .collect()
}

const WORDS: [&str; 37] = [
    "forall", "builtin", "block", "library", "let", "in", "match", "with", "end", "fun", "tfun", "contract", "transition", "send",
    "field", "accept", "import", "type", "of", "try", "catch", "as", "procedure", "throw", "scilla_version", "Map", "Emp", "Event",
    "Option", "List", "Pair", "event", "exists", "delete", "emit", "emp", "fetch",
];

/// Memory plans: mark the names of a text (of one distinct name in `of` none) so that every round
/// sees new ones: words get the suffix Qq0000, numbers and byte string sizes the suffix 710000
pub fn serialise(r: &mut Rng, s: &str, of: usize) -> String {
    let mut map: std::collections::BTreeMap<String, String> = Default::default();
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if !(c.is_ascii_alphanumeric() || c == '_') {
            out.push(c);
            continue;
        }
        let mut w = c.to_string();
        while let Some(c) = it.peek().filter(|c| c.is_ascii_alphanumeric() || **c == '_') {
            w.push(*c);
            it.next();
        }
        if WORDS.contains(&w.as_str()) || PRIMS[..13].contains(&w.as_str()) || w.contains("Qq0000") {
            out.push_str(&w);
            continue;
        }
        let new = map.entry(w.clone()).or_insert_with(|| {
            if r.below(of) == 0 {
                w.clone()
            } else if c.is_ascii_digit() || (w.starts_with("ByStr") && w.len() > 5) {
                if w.len() < 2 || out.ends_with("scilla_version ") { w.clone() } else { format!("{}710000", w) }
            } else if w == "ByStr" {
                w.clone()
            } else {
                format!("{}Qq0000", w)
            }
        });
        out.push_str(new);
    }
    out
}

/// Pad a valid contract so that it ends (or a multi-byte character or word of it falls) at the
/// given byte offset
pub fn pad_to(r: &mut Rng, s: &str, offset: usize, wide: bool) -> String {
    let mut out = String::new();
    // padding goes right after the first token
    let head = "scilla_version";
    let rest = s.strip_prefix(head).unwrap_or(s);
    let h = if rest.len() == s.len() { "" } else { head };
    let inner = r.below(rest.len() + 1);
    let want = offset.saturating_sub(inner + h.len());
    out.push_str(h);
    if want < 8 {
        out.push_str(rest);
        return out;
    }
    if r.chance(1, 2) {
        out.push_str(" (*");
        let mut left = want - 6;
        while left >= 3 && wide {
            out.push('\u{20ac}');
            left -= 3;
        }
        for _ in 0..left {
            out.push('.');
        }
        out.push_str("*) ");
    } else {
        for i in 0..want {
            out.push(if i % 64 == 63 { '\n' } else { ' ' });
        }
    }
    out.push_str(rest);
    out
}

pub const PATHS: [&[u8]; 27] = [
    b"/sim/data/contract.scilla",
    b"contract.scilla",
    b"./sub/../c.scilla",
    b"/sim/data/no_extension",
    b"/sim/data/caf\xc3\xa9 \xe4\xb8\xad.scilla",
    b"/sim/data/not-utf8-\xff\xfe.scilla",
    b"/sim/data/with space and 'quote'.scilla",
    b"/sim/data/new\nline.scilla",
    b"/sim/data/trailing.scilla ",
    b"/sim/data/.hidden",
    b"/sim/data/UPPER.SCILLA",
    b"/sim/data/x.scillib",
    b"//sim//data///slashes.scilla",
    b"/sim/data/-dash",
    b"-",
    b"~/home.scilla",
    b"$HOME/dollar.scilla",
    b"/sim/data/%41%2f.scilla",
    b"file:///sim/data/url.scilla",
    b"/sim/data/g*?[a].scilla",
    b"/sim/data/x.scilla.gz",
    b" lead.scilla",
    b"/sim/data/crlf.scilla\r",
    b"C:\\sim\\x.scilla",
    b"a",
    b"/sim/data/{b,c}.scilla",
    b"/sim/data/dot.scilla.",
];

/// Another legal path name, unlike any other in the plan
pub fn path(r: &mut Rng, k: usize) -> Vec<u8> {
    let mut p = r.pick(&PATHS).to_vec();
    if k > 0 {
        // distinct names that are easily confused
        match r.below(3) {
            0 => p.push(b'~'),
            1 => p.extend_from_slice(b".bak"),
            _ => {
                let i = p.iter().rposition(|c| *c == b'/').map(|i| i + 1).unwrap_or(0);
                p.splice(i..i, b"d/".iter().copied());
            }
        }
        p.extend_from_slice(format!("{}", k).as_bytes());
    }
    if r.chance(1, 20) {
        p.extend(std::iter::repeat_n(b'n', 200));
    } else if r.chance(1, 30) {
        // longer than buffers kept for paths
        let mut q = if p[0] == b'/' { b"/".to_vec() } else { vec![] };
        for _ in 0..*r.pick(&[3, 10, 30]) {
            q.extend_from_slice(b"a_directory_with_quite_a_long_name_but_still_a_legal_one_as_names_go_in_a_file_system_of_this_kind/");
        }
        q.extend_from_slice(&p[(p[0] == b'/') as usize..]);
        p = q;
    }
    p
}
