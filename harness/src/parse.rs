//! C09, C14, C10, C01 on token sequences: prefix + symbolic window + shortest completion.
use crate::feed::*;
use crate::gram::*;
use crate::gram_tab::*;
use crate::rt::*;
use crate::tree::*;
use scilla_parser::ast::nodes::*;
use lalrpop_util::ParseError as LP;
use scilla_parser::parser::lexer::*;
use scilla_parser::parser::parser::ProgramParser;

pub fn window(prefix: &str, n: usize) {
    explore(Feed::new(prefix, n))
}
fn all(n: usize) {
    let i = fork(PIX.len() as u32 - 1);
    explore(Feed::systematic(i as usize, n))
}
pub fn w_all1() {
    all(1)
}
pub fn w_all2() {
    all(2)
}
pub fn w_all3() {
    all(3)
}
pub fn w_all4() {
    all(4)
}
pub fn w_visit1() {
    let i = fork(PIX.len() as u32 - 1);
    let mut f = Feed::systematic(i as usize, 1);
    let mut errors = vec![];
    if let Ok(p) = ProgramParser::new().parse(&mut errors, &mut f) {
        crate::visit::deviate(&p, 1)
    }
}
fn repeat(counts: &[usize], window: usize) {
    let i = fork((RIX.len() as u32 - 1) / 2);
    let n = fork(counts.len() as u32);
    explore(Feed::repeated(i as usize, counts[n as usize], window))
}
pub fn w_repeat() {
    repeat(&[2, 3, 4, 5, 6, 7, 8, 9, 17, 33], 1)
}
pub fn w_many() {
    repeat(&[65, 129, 257], 0)
}
pub fn w_repeat2() {
    repeat(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129], 2)
}
type Err = LP<SourcePosition, Tok, ParseError>;
pub fn explore(mut f: Feed) {
    let mut errors = vec![];
    let r = ProgramParser::new().parse(&mut errors, &mut f);
    if verdict(&mut f, r.as_ref().err(), true) {
        if let Ok(p) = &r {
            accepted(&f, p)
        }
    }
}
/// the parser's answer against the reference grammar; true: accepted
/// whole: of a whole program, where the list of expected tokens is never empty
fn verdict(f: &mut Feed, r: Option<&Err>, whole: bool) -> bool {
    describe(|| {
        let mut s = String::from("tokens:");
        for t in &f.toks {
            let x: String = t.clone().into();
            s.push(' ');
            s.push_str(&x)
        }
        format!("{s}{}\nparser: {}", if f.ended { " <end of input>" } else { "" },
            match r { None => "accepts".to_string(), Some(e) => format!("rejects: {e:?}") })
    });
    match r {
        None => {
            f.settle();
            let ok = f.ended && (f.viable >> EOF) & 1 == 1;
            check(ok, 902);
            check(ok, 1402);
            if !ok {
                end()
            }
            observe(1);
            reach(1);
            true
        }
        Some(e) => {
            let (at, expected): (Option<(SourcePosition, Tok, SourcePosition)>, &Vec<String>) = match e {
                LP::UnrecognizedToken { token, expected } => (Some(unsafe { std::ptr::read(token) }), expected),
                LP::UnrecognizedEof { expected, .. } => (None, expected),
                _ => {
                    check(false, 903);
                    check(false, 1403);
                    end()
                }
            };
            match f.last_kind() {
                Some(k) => {
                    // refused a window token
                    let bad = (f.viable >> k) & 1 == 0;
                    check(bad, 904);
                    check(bad, 1404);
                    let i = f.toks.len() - 1;
                    match at {
                        Some((s, _, e)) => check(s == start_of(i) && e == end_of(i), 1405),
                        None => check(false, 1406),
                    }
                    reach(2);
                }
                None => {
                    // end of input, or a token of the prefix or of the completion
                    let bad = f.ended && (f.viable >> EOF) & 1 == 0;
                    check(bad, 905);
                    check(bad, 1407);
                    check(at.is_none(), 1408);
                    if let LP::UnrecognizedEof { location, .. } = e {
                        let n = f.toks.len();
                        check(*location == if n == 0 { SourcePosition::default() } else { end_of(n - 1) }, 1409);
                    }
                    reach(3);
                }
            }
            // the expected list
            let mut m = 0u64;
            let mut unknown = false;
            for x in expected {
                match expect_kind(x) {
                    Some(k) => m |= 1 << k,
                    None => unknown = true,
                }
            }
            let v = f.viable & !(1 << EOF);
            describe(|| format!("expected list: {:?}", expected));
            describe(|| format!("viable: {:?}", (0..NTERM).filter(|k| v >> k & 1 == 1).map(|k| SPELL[k as usize]).collect::<Vec<_>>()));
            if unknown {
                check(expected.len() == v.count_ones() as usize, 1410);
            } else {
                check(m & !v == 0, 1411);
                check(!whole || v == 0 || m != 0, 1412);
            }
            observe(2);
            observe(m);
            observe(f.toks.len() as u64);
            false
        }
    }
}

/// what holds of an accepted program
fn accepted(f: &Feed, p: &NodeProgram) {
    let toks: Vec<_> = (0..f.toks.len()).map(|i| (start_of(i), f.toks[i].clone(), end_of(i))).collect();
    if enabled(1001) {
        W::new(&toks, true, false).program(p);
    }
    if enabled(101) || enabled(601) || enabled(701) || enabled(801) || enabled(1201) {
        crate::iface::examine(&f.toks, p);
    }
    if enabled(1101) {
        let exp = crate::visit::events(p);
        crate::visit::visit(p, &exp, &[]);
    }
}

pub fn w_program() {
    window("", 4)
}
pub fn w_type() {
    window("scilla_version 0 contract C ( x :", 4)
}

const TYPE_WORDS: &str = "Uint32 Option List Pair Map ByStr ByStr20 ByStr33 String Foo Event ( ) . -> 'A with end contract library field , : x _h forall 0x1f =";
const TYPE_PLACES: &[&str] = &[
    "scilla_version 0 contract C ( x :",
    "scilla_version 0 contract C ( x : Map",
    "scilla_version 0 contract C ( x : Map ByStr20 (",
    "scilla_version 0 contract C ( x : Map ( ByStr20 ) (",
    "scilla_version 0 contract C ( x : Map Uint32 ( Option (",
    "scilla_version 0 contract C ( x : Map Uint32 ( Map Uint32",
    "scilla_version 0 contract C ( x : List (",
    "scilla_version 0 contract C ( x : Pair (",
    "scilla_version 0 contract C ( x : Pair ( Map Uint32 String )",
    "scilla_version 0 contract C ( x : ByStr20 with contract field y :",
    "scilla_version 0 contract C ( x : ByStr20 with contract field y : ByStr20 with end ,",
    "scilla_version 0 contract C ( x : ( ( ",
    "scilla_version 0 contract C ( ) field x : Map Uint32 Uint32 = Emp Uint32 Uint32 field y :",
    "scilla_version 0 contract C ( ) transition T ( a : Uint32 , b :",
    "scilla_version 0 contract C ( x : Pair ( List ( Option Uint32 ) )",
    "scilla_version 0 contract C ( x : Map ( ByStr20 with contract field y : Uint32 ,",
    "scilla_version 0 contract C ( x : Map ( ByStr20 with end ) (",
    "scilla_version 0 contract C ( x : List (",
    "scilla_version 0 contract C ( x : List ( List ( Pair (",
];
fn types(n: usize) {
    let p = TYPE_PLACES[fork(TYPE_PLACES.len() as u32) as usize];
    explore(Feed::over(p, n, TYPE_WORDS))
}
pub fn w_types3() {
    types(3)
}
pub fn w_types4() {
    types(4)
}
pub fn w_types5() {
    types(5)
}
pub fn w_types6() {
    types(6)
}

/// the other constructs of the grammar have parsers of their own (only in the build with all of them)
#[cfg(feature = "entries")]
fn entry<T>(e: usize, n: usize, parse: impl FnOnce(&mut Vec<ParseError>, &mut Feed) -> Result<T, Err>, tree: impl FnOnce(&mut W, &T)) {
    describe(|| format!("parser: {}", ENTRY[e].0));
    let (from, to) = (EPIX[e] as u32, EPIX[e + 1] as u32);
    let i = (from + fork(to - from)) as usize;
    let v: Vec<Tok> = (ESTART[i] as usize..ESTART[i + 1] as usize).enumerate().map(|(j, k)| make(EPFLAT[k], class_text(EPFLAT[k], j))).collect();
    let mut f = Feed::from(v, n);
    f.oracle = Oracle::starting(ENTRY[e].1);
    let mut errors = vec![];
    let r = parse(&mut errors, &mut f);
    if verdict(&mut f, r.as_ref().err(), false) && enabled(1001) {
        if let Ok(x) = &r {
            let toks: Vec<_> = (0..f.toks.len()).map(|i| (start_of(i), f.toks[i].clone(), end_of(i))).collect();
            let mut w = W::new(&toks, true, false);
            tree(&mut w, x);
            reach(4);
        }
    }
}
#[cfg(feature = "entries")]
macro_rules! entries {
    ($e:ident $n:ident $($i:expr, $p:ident, $f:expr;)*) => {
        match $e {
            $($i => entry($i, $n, |a, b| scilla_parser::parser::parser::$p::new().parse(a, b), $f),)*
            _ => end(),
        }
    };
}
#[cfg(not(feature = "entries"))]
fn entry_points(_: usize) {
    end()
}
#[cfg(feature = "entries")]
fn entry_points(n: usize) {
    let e = fork(ENTRY.len() as u32) as usize;
    entries! { e n
        0, ByteStringParser, |_, _| {};
        1, TypeNameIdentifierParser, |w, x| { w.tname(x); w.done() };
        2, ImportedNameParser, |_, _| {};
        3, ImportDeclarationsParser, |w, x| { w.meta(x, |w, n| w.imports(n)); w.done() };
        4, MetaIdentifierParser, |w, x| { w.mid(x); w.done() };
        5, VariableIdentifierParser, |w, x| { w.var(x); w.done() };
        6, BuiltinArgumentsParser, |_, _| {};
        7, RemainingTypesParser, |w, x| { w.ty(x); w.done() };
        8, FunctionSignatureParser, |w, x| { w.ty(x); w.done() };
        9, ScillaTypeParser, |w, x| { w.ty(x); w.done() };
        10, TypeArgumentParser, |w, x| { w.targ(x); w.done() };
        11, AddressTypeParser, |w, x| { w.address(x); w.done() };
        12, AddressTypeFieldListParser, |_, _| {};
        13, NextAddressTypeFieldParser, |_, _| {};
        14, AddressTypeFieldParser, |_, _| {};
        15, TypeMapKeyParser, |w, x| { w.mkey(x); w.done() };
        16, TypeMapValueParser, |w, x| { w.mval(x); w.done() };
        17, TypeMapValueArgumentsParser, |_, _| {};
        18, ProgramParser, |w, x| { w.program(x); w.done() };
        19, LibraryDefinitionParser, |w, x| { w.meta(x, |w, n| w.library(n)); w.done() };
        20, LibrarySingleDefinitionParser, |_, _| {};
        21, TypedIdentifierParser, |w, x| { w.typed(x); w.done() };
        22, TypeAnnotationParser, |w, x| { w.annot(x); w.done() };
        23, TypeAlternativeClauseParser, |_, _| {};
        24, TypeMapValueAllowingTypeArgumentsParser, |w, x| { w.mvala(x); w.done() };
        25, ContractTypeArgumentsParser, |w, x| { w.targs(x); w.done() };
        26, FullExpressionParser, |w, x| { w.expr(x); w.done() };
        27, PatternMatchExpressionClauseParser, |_, _| {};
        28, PatternParser, |w, x| { w.pattern(x); w.done() };
        29, ArgumentPatternParser, |_, _| {};
        30, NextMessageEntryParser, |_, _| {};
        31, MessageEntryParser, |_, _| {};
        32, AtomicExpressionParser, |_, _| {};
        33, ValueLiteralParser, |w, x| { w.lit(x); w.done() };
        34, StatementParser, |w, x| { w.stmt(x); w.done() };
        35, NextStatementParser, |w, x| { { w.t(K_SEMICOLON); w.stmt(x) }; w.done() };
        36, StatementBlockParser, |w, x| { w.block(x); w.done() };
        37, BlockchainFetchArgumentsParser, |_, _| {};
        38, ComponentIdParser, |w, x| { w.compid(x); w.done() };
        39, PatternMatchClauseParser, |_, _| {};
        40, RemoteFetchStatementParser, |w, x| { w.fetch(x); w.done() };
        41, MapAccessParser, |w, x| { w.access(std::slice::from_ref(x)); w.done() };
        42, ParameterPairParser, |_, _| {};
        43, NextParameterPairParser, |_, _| {};
        44, ComponentParametersParser, |w, x| { w.params(x); w.done() };
        45, ComponentDefinitionParser, |_, _| {};
        46, TransitionDefinitionParser, |_, _| {};
        47, ProcedureDefinitionParser, |_, _| {};
        48, ComponentBodyParser, |w, x| { w.body(x); w.done() };
        49, ContractDefinitionParser, |w, x| { w.meta(x, |w, n| w.contract(n)); w.done() };
        50, ContractFieldParser, |_, _| {};
        51, WithConstraintParser, |_, _| {};
    }
}
pub fn w_entry1() {
    entry_points(1)
}
pub fn w_entry2() {
    entry_points(2)
}
pub fn w_entry3() {
    entry_points(3)
}
