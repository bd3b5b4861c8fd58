//! C01: whole source texts through the public entry points; nothing but a contract or an error comes back.
//! (A panic, an arithmetic overflow, a bad index or a path that never ends is reported whatever the harness.)
use crate::feed::Tok;
use crate::gram::*;
use crate::gram_tab::*;
use crate::lex::B;
use crate::lexref::*;
use crate::rt::*;
use crate::tree::W;
use lalrpop_util::ParseError as LP;
use scilla_parser::parser::lexer::*;
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::Contract;
use std::fmt::Write;

struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.wrapping_add(s.len() as u64);
        Ok(())
    }
}

fn run(s: &'static str) {
    describe(|| format!("source: {s:?}"));
    match s.parse::<Contract>() {
        Ok(c) => {
            // what a caller does with a contract
            let mut w = Sink(0);
            let d = c.init_params == c.fields && c.name.is_empty();
            for f in c.init_params.iter().chain(c.fields.iter()).chain(c.transitions.iter().flat_map(|t| t.params.iter())) {
                let _ = write!(w, "{}", f.r#type);
                let t = f.r#type.clone();
                check(t == f.r#type, 101);
            }
            observe(1 + d as u64);
            observe(w.0);
            reach(101)
        }
        Err(e) => {
            let mut w = Sink(0);
            let _ = write!(w, "{e}");
            observe(9);
            observe(w.0);
            check(w.0 > 0, 102);
            reach(102)
        }
    }
}

/// a program with every kind of token
const ALL: &str = "scilla_version 0 import A as B C library L let x : Uint32 = Int32 -1 let f = tfun 'A => fun ( a : forall 'A . 'A -> B ) => @ g Map A B type T = | K | M of A ( B ) contract C ( a : Uint32 , b : ByStr20 with contract field g : Map ByStr20 ( Pair A B ) end ) with builtin eq { A } a b => field f : Option A = Emp A B field s : String = \"a b\" field h : ByStr2 = 0xAB transition t ( p : ByStr , q : Lib . A ) accept ; x <- & a . b [ c ] ; delete y [ k ] ; forall l p ; match v with | K _ => throw x | _ => end ; n = { _tag : \"T\" ; a : b } end procedure p ( ) v <- & BLOCKNUMBER ; u <- & c as ByStr20 with library end end";
const SMALL: &str = "scilla_version 0 contract C (a : Map ByStr20 (List Uint8), b : ByStr20 with contract field g : Pair A B end) field f : Option A = \"a\" (* c *) transition t(p : ByStr) end";

/// nothing but free bytes
fn free(n: usize, run: fn(&'static str)) {
    let mut b = B::new();
    let k = fork(n as u32 + 1) as usize;
    b.any(k);
    run(b.take())
}
pub fn x_free2() {
    free(2, run)
}
pub fn x_free3() {
    free(3, run)
}

/// token i replaced by symbolic bytes, or followed by them
fn hole(base: &'static str, n: usize, run: fn(&'static str)) {
    let at = tokens(base);
    let i = fork(at.len() as u32) as usize;
    let t = &at[i];
    let mut b = B::new();
    match fork(3) {
        0 => b.s(&base[..t.start]),
        1 => b.s(&base[..t.end]),
        _ => b.s(&base[..t.end]).s(" "),
    };
    b.any(n);
    b.s(&base[t.end..]);
    run(b.take())
}
pub fn x_hole() {
    hole(SMALL, 1, run)
}
pub fn x_hole_all() {
    hole(ALL, 1, run)
}
pub fn x_hole2() {
    hole(SMALL, 2, run)
}

/// 0..n
fn position(n: usize) -> usize {
    let i = (fork(n as u32 / 64 + 1) * 64 + fork(64)) as usize;
    assume(i < n);
    i
}
/// one byte at any position, inserted or in place of the one there
fn byte_at(base: &'static str, run: fn(&'static str)) {
    let i = position(base.len());
    let r = fork(2) as usize;
    let mut b = B::new();
    b.s(&base[..i]).any(1).s(&base[i + r..]);
    run(b.take())
}
pub fn x_byte() {
    byte_at(SMALL, run)
}
pub fn x_byte_all() {
    byte_at(ALL, run)
}

/// cut off at any byte, then up to one more byte
fn cut(base: &'static str, run: fn(&'static str)) {
    let i = position(base.len() + 1);
    let mut b = B::new();
    match fork(3) {
        0 => b.s(&base[..i]),
        1 => b.s(&base[..i]).any(1),
        _ => b.s(&base[i..]),
    };
    run(b.take())
}
pub fn x_cut() {
    cut(SMALL, run)
}
pub fn x_cut_all() {
    cut(ALL, run)
}

const WIDE: &[&str] = &["\u{80}", "\u{85}", "é", "\u{7ff}", "\u{800}", "漢", "\u{2028}", "\u{feff}", "\u{ffff}", "\u{10000}", "😀", "\u{10ffff}", "e\u{301}", "٣", "Ⅷ", "ǅ", "ß", "Σ"];
/// a character of more than one byte at any byte of the text
pub fn x_wide() {
    wide(run)
}
fn wide(run: fn(&'static str)) {
    let i = fork(SMALL.len() as u32 + 1) as usize;
    let w = WIDE[fork(WIDE.len() as u32) as usize];
    let mut b = B::new();
    match fork(3) {
        0 => b.s(&SMALL[..i]).s(w).s(&SMALL[i..]),
        1 => b.s(&SMALL[..i]).s(w),
        _ => b.s(&SMALL[..i]).s(w).s(w).any(1),
    };
    run(b.take())
}

/// a long name or string of characters of one to four bytes in place of a token, at any offset
pub fn x_longwide() {
    let t = tokens(SMALL);
    let t = &t[fork(t.len() as u32) as usize];
    let mut b = B::new();
    b.s(&SMALL[..t.start]);
    let quote = fork(2) == 0;
    b.s(if quote { "\"" } else { "q" });
    for _ in 0..fork(4) {
        b.s("x");
    }
    let w = ["\u{e9}", "\u{6f22}", "\u{1d538}", "\u{e9}\u{6f22}"][fork(4) as usize];
    for _ in 0..130 {
        b.s(w);
    }
    if quote {
        b.s("\"");
    }
    b.s(&SMALL[t.end..]);
    run(b.take())
}

/// nesting and repetition
const DEEP: &[(&str, &str, &str, &str, &str)] = &[
    ("scilla_version 0 contract C (a : ", "(", "Uint32", ")", ")"),
    ("scilla_version 0 contract C (a : ", "Option (", "Uint32", ")", ")"),
    ("scilla_version 0 contract C (a : ", "Map Uint32 (", "Map Uint32 Uint32", ")", ")"),
    ("scilla_version 0 contract C (a : ", "Pair A (", "Uint32", ")", ")"),
    ("scilla_version 0 contract C (a : ", "ByStr20 with contract field f : ", "Uint32", " end", ")"),
    ("scilla_version 0 contract C (a : ", "Map ByStr20 ", "Uint32", "", ")"),
    ("scilla_version 0 contract C (", "a : Uint32, ", "a : Uint32", "", ")"),
    ("scilla_version 0 contract C () ", "field a : Map A B = Emp A B ", "", "", ""),
    ("scilla_version 0 contract C () ", "transition t (a : ByStr20 with contract end) accept end ", "", "", ""),
    ("scilla_version 0 contract C () ", "procedure t (a : ByStr20) accept end ", "", "", ""),
    ("scilla_version 0 contract C () transition t () ", "match a with | B (C _) => ", "accept", " end", " end"),
    ("scilla_version 0 contract C () transition t () match a with | ", "B (", "C", ")", " => accept end end"),
    ("scilla_version 0 contract C () field a : A = ", "let a = A in ", "b", "", ""),
    ("scilla_version 0 contract C () field a : A = ", "fun (a : A) => ", "b", "", ""),
    ("scilla_version 0 contract C () field a : A -> ", "A -> ", "A", "", " = b"),
    ("scilla_version 0 ", "(* * ", "*)", "", " contract C ()"),
    ("scilla_version 0 contract C (", "\"", "a", "\"", ")"),
    ("", "contract ", "", "", ""),
    ("scilla_version 0 library L ", "let x = A ", "", "", "contract C ()"),
    ("scilla_version 0 library L type T = | A of ", "(Option A) ", "", "", "contract C ()"),
    ("scilla_version ", "9", "", "", " contract C ()"),
    ("scilla_version 0 contract C (a : ByStr", "9", "", "", ")"),
];
pub fn deep(counts: &[usize], run: fn(&'static str)) {
    let (a, open, mid, close, z) = DEEP[fork(DEEP.len() as u32) as usize];
    let n = counts[fork(counts.len() as u32) as usize];
    let mut b = B::new();
    b.s(a);
    for _ in 0..n {
        b.s(open);
    }
    b.s(mid);
    // closed once too few, exactly, once too often
    for _ in 0..n + fork(3) as usize - 1 {
        b.s(close);
    }
    // and something that may belong there, or not
    match fork(3) {
        0 => {}
        1 => {
            b.any(1);
        }
        _ => {
            b.s(" , ");
        }
    }
    b.s(z);
    run(b.take())
}
pub fn x_deep() {
    deep(&[1, 2, 3, 5, 8, 16, 33], run)
}
pub fn x_deep_more() {
    deep(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128], run)
}

/// C09, C10, C14: the same texts read by the tokenizer and the parser together, against the reference
fn whole(s: &'static str) {
    describe(|| format!("source: {s:?}"));
    let want = tokens(s);
    let mut o = Oracle::new();
    let mut bad = want.len();
    for (i, t) in want.iter().enumerate() {
        if t.kind >= UNKNOWN || (o.viable() >> t.kind) & 1 == 0 {
            bad = i;
            break;
        }
        o.advance(t.kind);
    }
    let ok = bad == want.len() && (o.viable() >> EOF) & 1 == 1;
    // true coordinates
    let mut toks: Vec<(SourcePosition, Tok, SourcePosition)> = vec![];
    let (mut at, mut line, mut bol) = (0, 0, 0);
    for t in &want {
        let by = s.as_bytes();
        while at < t.start {
            if by[at] == b'\n' {
                line += 1;
                bol = at + 1;
            }
            at += 1;
        }
        let a = SourcePosition { position: t.start, line, column: t.start - bol };
        let b = a.with_end(t.end);
        toks.push((a, make(t.kind, &s[t.start..t.end]), b));
    }
    let mut errors = vec![];
    let r = ProgramParser::new().parse(&mut errors, Lexer::new(s));
    describe(|| format!("the grammar derives it: {ok}\nparser: {}", match &r { Ok(_) => "accepts".to_string(), Err(e) => format!("rejects: {e:?}") }));
    check(r.is_ok() == ok, 907);
    if enabled(901) {
        // and what a caller gets
        let got = s.parse::<Contract>().map_err(|e| format!("{e:?}"));
        describe(|| format!("reported: {got:?}"));
        if !ok {
            check(got.is_err(), 908);
        } else {
            let t: Vec<Tok> = toks.iter().map(|x| x.1.clone()).collect();
            check(crate::iface::agrees(&crate::iface::R::new(&t).program(), &got), 909);
        }
    }
    match r {
        Ok(p) => {
            observe(1);
            if ok {
                if enabled(1001) {
                    W::new(&toks, true, false).program(&p)
                }
                reach(5)
            }
        }
        Err(e) => {
            observe(2);
            if ok || !enabled(1401) {
                return;
            }
            let said = match s.parse::<Contract>() {
                Err(scilla_parser::Error::ParseError(m)) => m,
                _ => {
                    check(false, 1413);
                    end()
                }
            };
            describe(|| format!("reported: {said}"));
            let near = |a: &SourcePosition, b: &SourcePosition| a.position == b.position && a.line == b.line && a.column == b.column;
            match &e {
                LP::UnrecognizedToken { token: (a, t, b), expected } => {
                    check(bad < want.len(), 1414);
                    if bad == want.len() {
                        return;
                    }
                    let (x, u, y) = &toks[bad];
                    check(near(a, x) && b.position == y.position, 1415);
                    check(kind_of(t) == want[bad].kind && text_of(t) == text_of(u), 1416);
                    // what the caller gets names the token, the place and what was expected
                    check(said.contains(&format!("{t:?}")) && said.contains(&format!("{a:?}")), 1417);
                    for x in expected {
                        check(said.contains(&format!("{x:?}")), 1418);
                    }
                    reach(6)
                }
                LP::UnrecognizedEof { location, expected } => {
                    check(bad == want.len(), 1414);
                    let end = toks.last().map_or(0, |t| t.2.position);
                    check(location.position == end, 1419);
                    check(said.contains(&format!("{location:?}")), 1417);
                    for x in expected {
                        check(said.contains(&format!("{x:?}")), 1418);
                    }
                    reach(7)
                }
                _ => check(false, 1413),
            }
        }
    }
}
/// what a program without unknown parts may call its parts: one name is written like another one,
/// or like something with a meaning of its own
pub fn alias(base: &'static str, run: fn(&'static str)) {
    const KNOWN: &[&str] = &["Uint32", "String", "Bool", "BNum", "Option", "List", "Pair", "Nil", "True", "Some", "Library", "Contract"];
    const WORDS: &[&str] = &["map_1", "contract_", "init", "x1", "as_", "eq"];
    const SPECIAL: &[&str] = &["_sender", "_origin", "_amount", "_this_address", "_creation_block", "_scilla_version", "_balance", "_tag", "_codehash"];
    let t = tokens(base);
    let names: Vec<usize> = (0..t.len()).filter(|&i| matches!(t[i].kind, K_IDENTIFIER | K_CUSTOMIDENTIFIER | K_SPECIALIDENTIFIER)).collect();
    let j = names[fork(names.len() as u32) as usize];
    let k = fork(names.len() as u32 + 12) as usize;
    let with = if k < names.len() {
        let i = names[k];
        assume(i != j && t[i].kind == t[j].kind && base[t[i].start..t[i].end] != base[t[j].start..t[j].end]);
        // one spelling is enough
        assume(names.iter().all(|&x| x >= i || base[t[x].start..t[x].end] != base[t[i].start..t[i].end]));
        &base[t[i].start..t[i].end]
    } else {
        let w = match t[j].kind {
            K_IDENTIFIER => WORDS,
            K_CUSTOMIDENTIFIER => KNOWN,
            _ => SPECIAL,
        };
        assume(k - names.len() < w.len());
        w[k - names.len()]
    };
    let mut b = B::new();
    b.s(&base[..t[j].start]).s(with).s(&base[t[j].end..]);
    run(b.take())
}
/// every kind of declaration
const DECL: &str = "scilla_version 0 import A as B library L let x = Uint32 1 type T = | K of M contract C (a : L . T, b : ByStr20 with contract field g : D , field _i : D end, c : Map N E, o : O) field f : F = x field y : P = _sender field h : 0xAb . G = y transition t (p : H, q : Option I, z : Q) accept end procedure r (u : J) end transition v () end";
pub fn z_alias() {
    alias(DECL, whole)
}
pub fn z_alias_all() {
    alias(ALL, whole)
}
pub fn t_alias() {
    alias(DECL, crate::iface::full)
}
pub fn t_alias_all() {
    alias(ALL, crate::iface::full)
}
pub fn z_free3() {
    free(3, whole)
}
pub fn z_hole() {
    hole(SMALL, 1, whole)
}
pub fn z_hole_all() {
    hole(ALL, 1, whole)
}
pub fn z_hole2() {
    hole(SMALL, 2, whole)
}
pub fn z_byte() {
    byte_at(SMALL, whole)
}
pub fn z_byte_all() {
    byte_at(ALL, whole)
}
pub fn z_cut() {
    cut(SMALL, whole)
}
pub fn z_cut_all() {
    cut(ALL, whole)
}
pub fn z_wide() {
    wide(whole)
}
/// a character of more than one byte between any two bytes
pub fn z_wide1() {
    let i = fork(SMALL.len() as u32 + 1) as usize;
    let w = ["\u{85}", "\u{e9}", "\u{200b}", "\u{2028}", "\u{feff}", "\u{1f600}"][fork(6) as usize];
    let mut b = B::new();
    b.s(&SMALL[..i]).s(w).s(&SMALL[i..]);
    whole(b.take())
}
pub fn z_deep() {
    deep(&[1, 2, 3, 5, 8, 16], whole)
}
