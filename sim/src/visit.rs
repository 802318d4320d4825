//! A syntax-tree converter that records every callback and answers as the plan decides.

use crate::plan::Dec;
use crate::rt::{self, Host, Pt};
use scilla_parser::ast::converting::AstConverting;
use scilla_parser::ast::nodes::*;
use scilla_parser::ast::{TraversalResult, TreeTraversalMode};
use scilla_parser::parser::lexer::SourcePosition;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    Push(usize, usize),
    Pop,
    Enter(u8, usize),
    Exit(u8, usize),
}

/// Payload of an injected panic
pub struct Injected(pub u32);

pub fn error_text(k: u32) -> String {
    // Deliberately shaped to be damaged by trimming, re-wrapping or re-casing
    format!("  Injected failure #{} at \"callback\"\n\t(keep é intact) ", k)
}

pub struct Recorder<'a> {
    pub log: Vec<Ev>,
    pub emits: u32,
    pub decs: &'a [(u32, Dec)],
    pub fired: Vec<(u32, Dec)>,
    pub max: usize,
    pub overflow: bool,
    pub nested: Vec<String>,
    /// What traversals made from inside callbacks gave
    pub inner: Vec<(Dec, String)>,
    /// The tree being traversed and the root type to start from
    pub tree: Option<(&'a crate::exec::Tree, crate::plan::Root)>,
}

impl<'a> Recorder<'a> {
    pub fn new(decs: &'a [(u32, Dec)], max: usize) -> Recorder<'a> {
        Recorder { log: vec![], emits: 0, decs, fired: vec![], max, overflow: false, nested: vec![], inner: vec![], tree: None }
    }
    fn put(&mut self, e: Ev) {
        if self.log.len() < self.max {
            self.log.push(e);
        } else {
            self.overflow = true;
        }
    }
    fn on(&mut self, kind: u8, mode: TreeTraversalMode, addr: usize) -> Result<TraversalResult, String> {
        rt::point(Pt::Cb, 0);
        let _h = Host::enter();
        let i = self.emits;
        self.emits += 1;
        let enter = matches!(mode, TreeTraversalMode::Enter);
        // A node that lives on the stack is a temporary copy: its address identifies nothing
        let here = &i as *const u32 as usize;
        let addr = if addr.abs_diff(here) < 16 << 20 { 0 } else { addr };
        self.put(if enter { Ev::Enter(kind, addr) } else { Ev::Exit(kind, addr) });
        if self.overflow && self.emits > 50 * self.max as u32 {
            rt::fatal("hang");
        }
        let d = self.decs.iter().find(|(k, _)| *k == i).map(|x| x.1);
        match d {
            Some(Dec::Skip) if enter => {
                self.fired.push((i, Dec::Skip));
                rt::rt().fired[14] += 1;
                Ok(TraversalResult::SkipChildren)
            }
            Some(Dec::Fail) => {
                self.fired.push((i, Dec::Fail));
                rt::rt().fired[15] += 1;
                drop(_h);
                Err(error_text(i))
            }
            Some(Dec::Panic) => {
                self.fired.push((i, Dec::Panic));
                rt::rt().fired[16] += 1;
                drop(_h);
                std::panic::panic_any(Injected(i));
            }
            Some(Dec::Nest(c)) => {
                rt::rt().fired[20] += 1;
                self.nested.push(crate::exec::nested_parse(c));
                Ok(TraversalResult::Continue)
            }
            Some(d @ (Dec::Again | Dec::AgainStop(..))) => {
                if let Some((tree, root)) = self.tree {
                    rt::rt().fired[20] += 1;
                    self.inner.push((d, crate::exec::nested_visit(tree, root, self.max, d)));
                }
                Ok(TraversalResult::Continue)
            }
            _ => Ok(TraversalResult::Continue),
        }
    }
}

macro_rules! emits {
    ($($k:literal $f:ident $t:ty;)*) => {
        impl AstConverting for Recorder<'_> {
            fn push_source_position(&mut self, s: &SourcePosition, e: &SourcePosition) {
                let _h = Host::enter();
                let (a, b) = (s.position, e.position);
                self.put(Ev::Push(a, b));
            }
            fn pop_source_position(&mut self) {
                let _h = Host::enter();
                self.put(Ev::Pop);
            }
            $(
                fn $f(&mut self, mode: TreeTraversalMode, node: &$t) -> Result<TraversalResult, String> {
                    self.on($k, mode, node as *const $t as usize)
                }
            )*
        }
        pub fn kind_name(k: u8) -> &'static str {
            match k {
                $( $k => stringify!($f), )*
                _ => "?",
            }
        }
    };
}
emits! {
    0 emit_byte_str NodeByteStr;
    1 emit_type_name_identifier NodeTypeNameIdentifier;
    2 emit_imported_name NodeImportedName;
    3 emit_import_declarations NodeImportDeclarations;
    4 emit_meta_identifier NodeMetaIdentifier;
    5 emit_variable_identifier NodeVariableIdentifier;
    6 emit_builtin_arguments NodeBuiltinArguments;
    7 emit_type_map_key NodeTypeMapKey;
    8 emit_type_map_value NodeTypeMapValue;
    9 emit_type_argument NodeTypeArgument;
    10 emit_scilla_type NodeScillaType;
    11 emit_type_map_entry NodeTypeMapEntry;
    12 emit_address_type_field NodeAddressTypeField;
    13 emit_address_type NodeAddressType;
    14 emit_full_expression NodeFullExpression;
    15 emit_message_entry NodeMessageEntry;
    16 emit_pattern_match_expression_clause NodePatternMatchExpressionClause;
    17 emit_atomic_expression NodeAtomicExpression;
    18 emit_contract_type_arguments NodeContractTypeArguments;
    19 emit_value_literal NodeValueLiteral;
    20 emit_map_access NodeMapAccess;
    21 emit_pattern NodePattern;
    22 emit_argument_pattern NodeArgumentPattern;
    23 emit_pattern_match_clause NodePatternMatchClause;
    24 emit_blockchain_fetch_arguments NodeBlockchainFetchArguments;
    25 emit_statement NodeStatement;
    26 emit_remote_fetch_statement NodeRemoteFetchStatement;
    27 emit_component_id NodeComponentId;
    28 emit_component_parameters NodeComponentParameters;
    29 emit_parameter_pair NodeParameterPair;
    30 emit_component_body NodeComponentBody;
    31 emit_statement_block NodeStatementBlock;
    32 emit_typed_identifier NodeTypedIdentifier;
    33 emit_type_annotation NodeTypeAnnotation;
    34 emit_program NodeProgram;
    35 emit_library_definition NodeLibraryDefinition;
    36 emit_library_single_definition NodeLibrarySingleDefinition;
    37 emit_contract_definition NodeContractDefinition;
    38 emit_contract_field NodeContractField;
    39 emit_with_constraint NodeWithConstraint;
    40 emit_component_definition NodeComponentDefinition;
    41 emit_procedure_definition NodeProcedureDefinition;
    42 emit_transition_definition NodeTransitionDefinition;
    43 emit_type_alternative_clause NodeTypeAlternativeClause;
    44 emit_type_map_value_arguments NodeTypeMapValueArguments;
    45 emit_type_map_value_allowing_type_arguments NodeTypeMapValueAllowingTypeArguments;
}

// ------------------------------------------------------------------ invariants on one log

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Ok,
    Err,
    Panic,
}

/// One emit callback together with the source positions pushed and not yet popped at that moment
#[derive(Clone, Copy, Debug)]
pub struct Em {
    pub enter: bool,
    pub kind: u8,
    pub addr: usize,
    pub stack: u64,
    pub depth: u32,
}
impl PartialEq for Em {
    fn eq(&self, o: &Em) -> bool {
        self.enter == o.enter && self.kind == o.kind && self.stack == o.stack
    }
}

/// The emit callbacks of a log, each with the position stack it saw; and what happens to the
/// stack over the whole log.
pub struct Digest {
    pub ems: Vec<Em>,
    pub underflow: bool,
    pub left: usize,
}

pub fn digest(log: &[Ev]) -> Digest {
    let mut stack: Vec<u64> = vec![0];
    let mut d = Digest { ems: vec![], underflow: false, left: 0 };
    for e in log {
        match e {
            Ev::Push(a, b) => {
                let h = crate::rng::mix(stack.last().unwrap() ^ ((*a as u64) << 32) ^ *b as u64 ^ 0x9e37);
                stack.push(h);
            }
            Ev::Pop => {
                if stack.len() > 1 {
                    stack.pop();
                } else {
                    d.underflow = true;
                }
            }
            Ev::Enter(k, a) | Ev::Exit(k, a) => d.ems.push(Em {
                enter: matches!(e, Ev::Enter(..)),
                kind: *k,
                addr: *a,
                stack: *stack.last().unwrap(),
                depth: stack.len() as u32 - 1,
            }),
        }
    }
    d.left = stack.len() - 1;
    d
}

pub fn hash_log(ems: &[Em]) -> u64 {
    let mut h = ems.len() as u64;
    for e in ems {
        h = crate::rng::mix(h ^ e.stack ^ ((e.kind as u64) << 1) ^ e.enter as u64);
    }
    h
}

/// C10: balance and nesting of one callback log. Returns the first violation.
pub fn check_balance(d: &Digest, fired: &[(u32, Dec)], end: End) -> Option<String> {
    let mut open: Vec<(u8, usize, u32)> = vec![];
    let mut entered: std::collections::BTreeSet<(u8, usize, u64)> = Default::default();
    for (i, e) in d.ems.iter().enumerate() {
        let name = kind_name(e.kind);
        if e.enter {
            if e.addr != 0 && !entered.insert((e.kind, e.addr, e.stack)) {
                return Some(format!("node entered twice ({})", name));
            }
            if !fired.iter().any(|(j, x)| *j == i as u32 && *x == Dec::Skip) {
                open.push((e.kind, e.addr, e.depth));
            }
        } else {
            match open.pop() {
                None => return Some(format!("exit callback with no node open ({})", name)),
                Some((k, a, _)) if (k, a) != (e.kind, e.addr) => {
                    return Some(format!("{} exited while {} was the most recently entered open node", name, kind_name(k)))
                }
                Some((_, _, p)) if p != e.depth => {
                    return Some(format!(
                        "number of pushed source positions differs between entering ({}) and exiting ({}) a node ({})",
                        p, e.depth, name
                    ))
                }
                _ => {}
            }
        }
    }
    if d.underflow {
        return Some("source position popped that was never pushed".into());
    }
    if end == End::Ok {
        if let Some((k, _, _)) = open.last() {
            return Some(format!("node entered but never exited ({})", kind_name(*k)));
        }
    }
    if end != End::Panic && d.left != 0 {
        return Some(format!("{} source position(s) pushed but never popped", d.left));
    }
    None
}

/// The callbacks an undisturbed traversal's callbacks become when the nodes entered at the given
/// indices (of the *resulting* traversal) are skipped and the traversal fails where told.
pub fn expected(full: &[Em], fired: &[(u32, Dec)]) -> Vec<Em> {
    let mut out: Vec<Em> = vec![];
    let mut i = 0;
    while i < full.len() {
        let n = out.len() as u32;
        out.push(full[i]);
        let d = fired.iter().find(|(j, _)| *j == n).map(|x| x.1);
        match d {
            Some(Dec::Fail) | Some(Dec::Panic) => return out,
            Some(Dec::Skip) if full[i].enter => {
                // drop everything up to and including the matching exit
                let mut depth = 1;
                while depth > 0 && i + 1 < full.len() {
                    i += 1;
                    if full[i].enter {
                        depth += 1
                    } else {
                        depth -= 1
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    out
}

pub fn first_diff(got: &[Em], want: &[Em], positions: bool) -> Option<String> {
    let f = |e: Option<&Em>| match e {
        None => "end of traversal".to_string(),
        Some(e) => format!("{} {}", if e.enter { "enter" } else { "exit" }, kind_name(e.kind)),
    };
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i), want.get(i));
        let same = match (g, w) {
            (Some(g), Some(w)) => g.enter == w.enter && g.kind == w.kind,
            _ => false,
        };
        if !same {
            return Some(format!("callback {}: got {}, expected {}", i, f(g), f(w)));
        }
        if positions && g != w {
            return Some(format!("callback {} ({}): sees other source positions than in the undisturbed traversal", i, f(g)));
        }
    }
    None
}
