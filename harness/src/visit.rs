//! C11: a visitor with symbolic answers against the reference event list.
use crate::feed::*;
use crate::rt::*;
use crate::tree::*;
use scilla_parser::ast::converting::AstConverting;
use scilla_parser::ast::nodes::*;
use scilla_parser::ast::visitor::AstVisitor;
use scilla_parser::ast::*;
use scilla_parser::parser::lexer::*;
use scilla_parser::parser::parser::ProgramParser;

pub struct Rec<'a> {
    exp: &'a [Ev],
    at: usize,
    calls: u32,
    /// at this callback (counted from 0) answer: 0 skip (on enter), 1 error
    dev: &'a [(u32, u32)],
    next: usize,
    failed: Option<u32>,
}

impl Rec<'_> {
    fn ev(&mut self, e: Ev) {
        let ok = self.exp.get(self.at) == Some(&e);
        if !ok {
            let n = |e: Option<&Ev>| match e {
                Some(Ev::Enter(i, _)) => format!("enter {}", NAMES[*i as usize]),
                Some(Ev::Exit(i, _)) => format!("exit {}", NAMES[*i as usize]),
                e => format!("{e:?}"),
            };
            describe(|| format!("event {}: got {}, expected {}", self.at, n(Some(&e)), n(self.exp.get(self.at))));
        }
        check(ok, 1101);
        if !ok {
            end()
        }
        self.at += 1;
    }
    fn on(&mut self, id: u8, mode: TreeTraversalMode, p: usize) -> Result<TraversalResult, String> {
        if self.failed.is_some() {
            describe(|| format!("callback {} after an error", NAMES[id as usize]));
            check(false, 1102);
            end()
        }
        reach(1110 + id as u32);
        let enter = matches!(mode, TreeTraversalMode::Enter);
        let at = self.at;
        self.ev(if enter { Ev::Enter(id, p) } else { Ev::Exit(id, p) });
        let c = self.calls;
        self.calls += 1;
        if self.next < self.dev.len() {
            let (when, what) = self.dev[self.next];
            if when == c {
                self.next += 1;
                if what == 1 {
                    describe(|| format!("callback {c} ({} {}) answers with an error", NAMES[id as usize], if enter { "enter" } else { "exit" }));
                    self.failed = Some(c);
                    return Err(message(c));
                }
                assume(enter);
                describe(|| format!("callback {c} (enter {}) asks to skip", NAMES[id as usize]));
                // children and exit of this node are left out
                let mut depth = 0;
                let mut j = at;
                loop {
                    match self.exp[j] {
                        Ev::Enter(..) => depth += 1,
                        Ev::Exit(..) => depth -= 1,
                        _ => {}
                    }
                    j += 1;
                    if depth == 0 {
                        break;
                    }
                }
                self.at = j;
                return Ok(TraversalResult::SkipChildren);
            }
        }
        Ok(TraversalResult::Continue)
    }
}

fn message(c: u32) -> String {
    let mut s = String::from("E");
    s.push((b'a' + (c % 26) as u8) as char);
    s.push((b'a' + (c / 26 % 26) as u8) as char);
    s
}

macro_rules! rec {
    ($($id:literal $f:ident $t:ty),* $(,)?) => {
        impl AstConverting for Rec<'_> {
            fn push_source_position(&mut self, start: &SourcePosition, end: &SourcePosition) {
                if self.failed.is_none() {
                    self.ev(Ev::Push(*start, *end))
                }
            }
            fn pop_source_position(&mut self) {
                if self.failed.is_none() {
                    self.ev(Ev::Pop)
                }
            }
            $(fn $f(&mut self, mode: TreeTraversalMode, node: &$t) -> Result<TraversalResult, String> {
                self.on($id, mode, node as *const $t as usize)
            })*
        }
    };
}
rec! {
    0 emit_byte_str NodeByteStr,
    1 emit_type_name_identifier NodeTypeNameIdentifier,
    2 emit_imported_name NodeImportedName,
    3 emit_import_declarations NodeImportDeclarations,
    4 emit_meta_identifier NodeMetaIdentifier,
    5 emit_variable_identifier NodeVariableIdentifier,
    6 emit_builtin_arguments NodeBuiltinArguments,
    7 emit_type_map_key NodeTypeMapKey,
    8 emit_type_map_value NodeTypeMapValue,
    9 emit_type_argument NodeTypeArgument,
    10 emit_scilla_type NodeScillaType,
    11 emit_type_map_entry NodeTypeMapEntry,
    12 emit_address_type_field NodeAddressTypeField,
    13 emit_address_type NodeAddressType,
    14 emit_full_expression NodeFullExpression,
    15 emit_message_entry NodeMessageEntry,
    16 emit_pattern_match_expression_clause NodePatternMatchExpressionClause,
    17 emit_atomic_expression NodeAtomicExpression,
    18 emit_contract_type_arguments NodeContractTypeArguments,
    19 emit_value_literal NodeValueLiteral,
    20 emit_map_access NodeMapAccess,
    21 emit_pattern NodePattern,
    22 emit_argument_pattern NodeArgumentPattern,
    23 emit_pattern_match_clause NodePatternMatchClause,
    24 emit_blockchain_fetch_arguments NodeBlockchainFetchArguments,
    25 emit_statement NodeStatement,
    26 emit_remote_fetch_statement NodeRemoteFetchStatement,
    27 emit_component_id NodeComponentId,
    28 emit_component_parameters NodeComponentParameters,
    29 emit_parameter_pair NodeParameterPair,
    30 emit_component_body NodeComponentBody,
    31 emit_statement_block NodeStatementBlock,
    32 emit_typed_identifier NodeTypedIdentifier,
    33 emit_type_annotation NodeTypeAnnotation,
    34 emit_program NodeProgram,
    35 emit_library_definition NodeLibraryDefinition,
    36 emit_library_single_definition NodeLibrarySingleDefinition,
    37 emit_contract_definition NodeContractDefinition,
    38 emit_contract_field NodeContractField,
    39 emit_with_constraint NodeWithConstraint,
    40 emit_component_definition NodeComponentDefinition,
    41 emit_procedure_definition NodeProcedureDefinition,
    42 emit_transition_definition NodeTransitionDefinition,
    43 emit_type_alternative_clause NodeTypeAlternativeClause,
    44 emit_type_map_value_arguments NodeTypeMapValueArguments,
    45 emit_type_map_value_allowing_type_arguments NodeTypeMapValueAllowingTypeArguments
}

pub fn events(p: &NodeProgram) -> Vec<Ev> {
    let mut w = W::new(&[], false, true);
    w.program(p);
    w.ev
}

/// visit the program once with the given answers
pub fn visit(p: &NodeProgram, exp: &[Ev], dev: &[(u32, u32)]) {
    let mut r = Rec { exp, at: 0, calls: 0, dev, next: 0, failed: None };
    let res = p.visit(&mut r);
    match (res, r.failed) {
        (Ok(_), None) => {
            check(r.at == exp.len(), 1103);
            reach(1101);
            if r.next > 0 {
                reach(1102)
            }
        }
        (Err(e), Some(c)) => {
            check(e == message(c), 1104);
            reach(1103);
        }
        (Ok(_), Some(_)) => check(false, 1105),
        (Err(_), None) => check(false, 1106),
    }
    observe(r.at as u64);
    observe(r.calls as u64);
}

/// n symbolic deviations
pub fn deviate(p: &NodeProgram, n: usize) {
    let exp = events(p);
    let calls = exp.iter().filter(|e| matches!(e, Ev::Enter(..) | Ev::Exit(..))).count() as u32;
    let mut dev = vec![];
    for i in 0..n {
        let when = u32_();
        // past the last callback: no deviation
        assume(when <= calls);
        if i > 0 {
            let (before, _): (u32, u32) = dev[i - 1];
            assume(when > before);
        }
        dev.push((when, fork(2)));
    }
    visit(p, &exp, &dev);
}

pub fn parse(src: &str) -> NodeProgram {
    let ts = toks(src);
    let mut errors = vec![];
    let it = ts.into_iter().enumerate().map(|(i, t)| Ok((start_of(i), t, end_of(i))));
    match ProgramParser::new().parse(&mut errors, it) {
        Ok(p) => p,
        Err(_) => {
            describe(|| format!("not accepted: {src}"));
            check(false, 1107);
            end()
        }
    }
}

/// every kind of node, in small programs
pub const PROGRAMS: &[&str] = &[
    "scilla_version 0 import A B as C import ByStr20 as Event library L let x = \"s\" let y : Uint32 = Uint32 1 type T type U = | A | B of Uint32 ( List 'A ) 'B Map ByStr20 Uint32 ByStr20 with end contract C ( )",
    "scilla_version 0 contract C ( a : Uint32 , b : Map ByStr20 ( Map ( Uint32 ) ( List ( Option Uint32 ) ) ) ) with x => field f : A . B -> ( forall 'A . 'A -> 0x1 . N ) = x",
    "scilla_version 0 contract C ( a : ByStr20 with contract field x : Uint32 , field Y . z : ByStr20 with end end , b : ByStr20 with library end , c : ByStr20 with _codehash end , d : ByStr )",
    "scilla_version 0 contract C ( ) field m : Map ( ByStr20 with contract field q : Map ByStr20 with end ByStr20 with end end ) ( Map ByStr20 with end ( List ( Map Uint32 Uint32 ) Map Uint32 Uint32 Bool ) ) = Emp ByStr20 with end ( ByStr20 with end )",
    "scilla_version 0 contract C ( ) field f : T = let x : Uint32 = Uint32 1 in fun ( y : Uint32 ) => match x with | _ => x | a => b c d | N . M _ q A ( B c ) => builtin add { Uint32 'A ( List Bool ) } x N . y end",
    "scilla_version 0 contract C ( ) field f : T = tfun 'A => @ f 'A Uint32 ( List Bool ) field g : U = { _tag : \"s\" ; x : 0xab ; _r : y ; q : Emp Uint32 Bool } field h : V = Cons { Uint32 } x y field i : W = builtin b ( ) field j : X = 0x1 . Nil",
    "scilla_version 0 contract C ( ) transition T ( a : Uint32 , b : Bool ) accept ; x <- y ; x <- & z . w ; x <- & _sender . _balance ; x <- & z . m [ k ] [ l ] ; x <- & exists z . m [ k ] ; x <- & a as ByStr20 with contract end end procedure p ( ) end",
    "scilla_version 0 contract C ( ) procedure P ( ) x := y ; x = \"e\" ; x <- & BLOCKNUMBER ; x <- & REPLICATE_CONTRACT ( a N . b _c ) ; x <- m [ k ] ; x <- exists m [ k ] [ _l ] ; m [ k ] := v ; delete m [ k ] ; send msgs ; event e ; throw ; throw e end",
    "scilla_version 0 contract C ( ) transition t ( ) match x with | Some y => accept ; send z | None => | _ => match a with | B ( C _ d ) E => throw end end ; forall xs Proc ; forall N . xs proc ; Proc a b ; proc _x N . y end transition U ( ) end",
    "scilla_version 0 library L let f = fun ( x : Uint32 ) => let y = Event in tfun 'X => ByStr32 x contract C ( x : ByStr33 ) procedure q ( z : List ( Option ( Pair Uint32 ( Map Uint32 ByStr ) ) ) ) accept end",
];

fn program() -> NodeProgram {
    parse(PROGRAMS[fork(PROGRAMS.len() as u32) as usize])
}
pub fn v_plain() {
    let p = program();
    let exp = events(&p);
    visit(&p, &exp, &[]);
}
pub fn v_one() {
    deviate(&program(), 1)
}
pub fn v_two() {
    deviate(&program(), 2)
}
