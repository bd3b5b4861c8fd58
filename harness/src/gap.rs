//! C05: what stands between two tokens never matters.
use crate::gram_tab::*;
use crate::iface::*;
use crate::lex::B;
use crate::lexref::*;
use crate::rt::*;
use scilla_parser::parser::lexer::*;
use scilla_parser::Contract;

/// kinds and texts of the real tokens
fn read(s: &'static str) -> Vec<Token<&'static str>> {
    let mut v = vec![];
    for t in Lexer::new(s) {
        match t {
            Ok(x) => v.push(x.1),
            Err(_) => {
                check(false, 501);
                end()
            }
        }
        if v.len() > s.len() {
            check(false, 501);
            end()
        }
    }
    v
}
fn same_tokens(a: &[Token<&str>], b: &[Token<&str>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (x, y) in a.iter().zip(b.iter()) {
        let k = kind_of(x);
        if k != kind_of(y) {
            return false;
        }
        if k >= NFIXED && k < UNKNOWN && text_of(x) != text_of(y) {
            return false;
        }
    }
    true
}

/// whether the bytes are whitespace and closed comments only
fn closed(g: &[u8]) -> bool {
    let mut v = g.to_vec();
    v.push(b'x');
    #[cfg(feature = "native")]
    let s = match std::str::from_utf8(&v) {
        Ok(s) => s,
        Err(_) => return false,
    };
    #[cfg(not(feature = "native"))]
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    skip_gap(s, 0) == g.len()
}

const WIDE: &[&str] = &["\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2003}", "\u{200a}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}"];
const ODD: &[&str] = &["(**)", "(***)", "(****)", "(* \" *)", "(* ' *)", "(*(*)", "(* (* *)", "(* ) *)", "(*)*)", "(* é *)", "(* 漢字 *)", "(* contract C() *)", "(* * ) *)",
    "(*\n*)", "(*a*)(*b*)", "(*a*) (*b*)\n", "\r\n", "\n\n\n\n", "\t\t", "\x0b\x0c", "(* // *)", "(*\r\n\r\n*)", "(*😀*)", "(* \\\" \\*)", "(*\u{a0}*)"];
const BOTH: usize = 12;

/// one gap; `small` leaves the longer symbolic ones out
fn gap(kinds: u32) -> Vec<u8> {
    let mut b = B::new();
    match fork(kinds) {
        0 => b.any(1),
        1 => b.any(2),
        2 => b.s("(*").any(1).s("*)"),
        3 => b.s(ODD[fork(ODD.len() as u32) as usize]),
        4 => b.s(WIDE[fork(WIDE.len() as u32) as usize]),
        5 => {
            let n = [15usize, 64, 255][fork(3) as usize];
            let c = choose(128) as u8;
            for _ in 0..n {
                b.0.push(c)
            }
            &mut b
        }
        6 => {
            let n = [15usize, 64, 255][fork(3) as usize];
            b.s("(*");
            for i in 0..n {
                b.s(if i % 7 == 6 { "*" } else if i % 5 == 4 { "\n" } else { "x" });
            }
            b.s("*)")
        }
        7 => b.any(3),
        8 => b.s("(*").any(2).s("*)"),
        9 => b.any(1).s("(*").any(1).s("*)").any(1),
        _ => b.s("(*").any(1).s("*)(*").any(1).s("*)"),
    };
    let g = std::mem::take(&mut b.0);
    assume(closed(&g));
    g
}

const BASES: &[&str] = &[
    // every kind of token, every part of a program
    "scilla_version 0 import A as B C library L let x : Uint32 = Int32 -1 let f = tfun 'A => fun ( a : forall 'A . 'A -> B ) => @ g Map A B type T = | K | M of A ( B ) contract C ( a : Uint32 , b : ByStr20 with contract field g : Map ByStr20 ( Pair A B ) end ) with builtin eq { A } a b => field f : Option A = Emp A B field s : String = \"a b\" field h : ByStr2 = 0xAB transition t ( p : ByStr , q : Lib . A ) accept ; x <- & a . b [ c ] ; y [ k ] := z ; delete y [ k ] ; w <- exists m [ k ] ; send m ; event e ; forall l p ; match v with | K _ => throw x | _ => end ; n = { _tag : \"T\" ; a : b } end procedure p ( ) v <- & BLOCKNUMBER ; u <- & c as ByStr20 with library end end",
    "scilla_version 0 library L contract C ( ) field a : Int32 = Int32 0",
    // rejected: a syntax error, an unknown character, a type the interface cannot express
    "scilla_version 0 contract C ( a : Uint32 , ) transition t ( ) end",
    "scilla_version 0 contract C ( ) field a : Int32 # = b transition + ( ) end",
    "scilla_version 0 contract C ( a : Map A ( B -> C ) ) field b : Option = c transition t ( ) end",
];

fn verdicts(base: &'static str, tokens: &[Token<&'static str>], want: &Result<Contract, String>, s: &'static str) {
    describe(|| format!("source: {s:?}\nagainst: {base:?}"));
    let t = read(s);
    check(same_tokens(&t, tokens), 501);
    observe(t.len() as u64);
    let got = s.parse::<Contract>().map_err(|e| format!("{e:?}"));
    describe(|| format!("reported: {got:?}\nagainst: {want:?}"));
    match (want, &got) {
        (Ok(a), Ok(b)) => {
            check(same_contract(a, b), 503);
            reach(501);
            observe(1)
        }
        (Err(_), Err(_)) => {
            reach(502);
            observe(2)
        }
        _ => check(false, 502),
    }
}

fn one(bases: &'static [&'static str], kinds: u32) {
    let base = bases[fork(bases.len() as u32) as usize];
    let at = tokens(base);
    let toks = read(base);
    check(toks.len() == at.len(), 501);
    let want = base.parse::<Contract>().map_err(|e| format!("{e:?}"));
    // before token i, or after the last one
    let i = fork(at.len() as u32 + 1) as usize;
    let from = if i == 0 { 0 } else { at[i - 1].end };
    let to = if i == at.len() { base.len() } else { at[i].start };
    let g = gap(kinds);
    let mut b = B::new();
    b.s(&base[..from]);
    b.0.extend_from_slice(&g);
    b.s(&base[to..]);
    verdicts(base, &toks, &want, b.take())
}
/// one gap of a long program
pub fn g_gap() {
    one(&BASES[..1], 3)
}
pub fn g_gap_small() {
    one(&BASES[1..], 6)
}
pub fn g_gap_deep() {
    one(BASES, BOTH as u32 - 1)
}
/// no gap at all wherever the two tokens still read as themselves
pub fn g_none() {
    let base = BASES[fork(BASES.len() as u32) as usize];
    let at = tokens(base);
    let toks = read(base);
    let want = base.parse::<Contract>().map_err(|e| format!("{e:?}"));
    let (m, r) = (fork(at.len() as u32 + 1) as usize, fork(2));
    let mut b = B::new();
    for (i, t) in at.iter().enumerate() {
        b.s(&base[t.start..t.end]);
        if i + 1 == at.len() {
            break;
        }
        let n = &at[i + 1];
        let mut pair = base[t.start..t.end].to_string();
        pair.push_str(&base[n.start..n.end]);
        let p = crate::feed::leak(pair);
        let q = tokens(p);
        let apart = q.len() == 2 && q[0].kind == t.kind && q[1].kind == n.kind && q[0].end == t.end - t.start && skip_gap(p, 0) == 0;
        // either only gap m is closed, or all of them but m
        let closed = apart && ((i == m) == (r == 0));
        if !closed {
            b.s(" ");
        }
    }
    verdicts(base, &toks, &want, b.take())
}
/// the same gap everywhere
pub fn g_all() {
    let base = BASES[fork(BASES.len() as u32) as usize];
    let at = tokens(base);
    let toks = read(base);
    let want = base.parse::<Contract>().map_err(|e| format!("{e:?}"));
    let g = gap(6);
    let mut b = B::new();
    for t in at.iter() {
        b.0.extend_from_slice(&g);
        b.s(&base[t.start..t.end]);
    }
    b.0.extend_from_slice(&g);
    verdicts(base, &toks, &want, b.take())
}

/// any two tokens with any gap between them read as themselves
fn pair(kinds: u32) {
    const MORE: &[&str] = &["ByStr20", "12", "-3", "0x", "0xaB", "\"a\"", "\"\\\"\"", "\"\n\"", "\"(*\"", "x", "aB_1", "_", "__", "_sender", "Cde", "'A", "'Ab_1", "#", "é", "+", "<", "'", "\\", "end1"];
    let n = NFIXED as u32 + MORE.len() as u32;
    let w = |i: u32| if i < NFIXED as u32 { SPELL[i as usize] } else { MORE[i as usize - NFIXED as usize] };
    let x = w(fork(n));
    let y = w(fork(n));
    let g = gap(kinds);
    let mut b = B::new();
    b.s(x).s(" ").s(y);
    let plain = b.take();
    b.s(x);
    b.0.extend_from_slice(&g);
    b.s(y);
    let s = b.take();
    describe(|| format!("source: {s:?}\nagainst: {plain:?}"));
    let (t, u) = (read(s), read(plain));
    describe(|| format!("tokens: {t:?}\nagainst: {u:?}"));
    check(same_tokens(&t, &u), 501);
    observe(t.len() as u64);
    reach(503)
}
pub fn g_pair() {
    pair(1)
}
pub fn g_pair3() {
    pair(3)
}
