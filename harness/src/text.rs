//! Whole source texts with symbolic parts through the public entry point.
use crate::iface::*;
use crate::lex::B;
use crate::rt::*;

const LOW: u8 = 1;
const UP: u8 = 2;
const WORD: u8 = 7;


/// a contract with every kind of name in it: lower-case names are written $x$, upper-case ones %X%,
/// names starting with an underscore ~_x~
const NAMES: &str = "scilla_version 0 import %ListUtils% as %LU% library %Lib% let $one$ = Uint32 1 type %Ty% = | %Con% of Uint32
contract %Cname%($owner$ : ByStr20, limit : %Uint128%, who : ByStr20 with contract field $bal$ : Uint128 end)
with let $ok$ = True in ok =>
field $count$ : Map ByStr20 %Uint32% = Emp ByStr20 Uint32
field tok : ByStr20 with ~_codehash~ end = owner
procedure $proc$($q$ : Bool) accept end
transition $add$($to$ : Option %String%, $amount$ : Uint128)
  $v$ <- count[_sender]; $proc$ $v$; match v with | %Some% $z$ => throw | _ => end
end
transition %Burn%()
end
";

/// symbolic name: first character out of a set, n - 1 more word characters
/// under: an underscore stands at position `under`
fn name(b: &mut B, first: u8, n: usize, under: usize) {
    if first == 0 {
        b.s("_");
    } else {
        b.word(first, 1);
    }
    if under == 0 || under >= n {
        b.word(WORD, n - 1);
    } else {
        b.word(WORD, under - 1).s("_").word(WORD, n - under - 1);
    }
}

/// the i-th marked name of the template becomes symbolic
fn marked(src: &str, max: usize, unders: usize) -> &'static str {
    let s = src.as_bytes();
    let mut total = 0;
    for &c in s {
        if c == b'$' || c == b'%' || c == b'~' {
            total += 1
        }
    }
    let which = fork(total / 2) as usize;
    let mut b = B::new();
    let mut i = 0;
    let mut seen = 0;
    while i < s.len() {
        let c = s[i];
        if c == b'$' || c == b'%' || c == b'~' {
            let mut j = i + 1;
            while s[j] != c {
                j += 1
            }
            if seen == which {
                let n = fork(max as u32) as usize + 1;
                let u = if unders == 0 { 0 } else { fork(unders as u32) as usize };
                match c {
                    b'$' => name(&mut b, LOW, n, u),
                    b'%' => name(&mut b, UP, n, u),
                    _ => name(&mut b, 0, n, u),
                }
            } else {
                b.s(&src[i + 1..j]);
            }
            seen += 1;
            i = j + 1;
        } else {
            b.0.push(c);
            i += 1;
        }
    }
    b.take()
}
pub fn t_names() {
    full(marked(NAMES, 9, 0))
}
/// the i-th marked name of the template is long, with one symbolic character somewhere in it
pub fn t_long() {
    let n = [17usize, 33, 65, 129, 257, 300][fork(6) as usize];
    let total = NAMES.bytes().filter(|c| matches!(c, b'$' | b'%' | b'~')).count() as u32;
    let which = 2 * fork(total / 2);
    let place = fork(3);
    let mut b = B::new();
    let mut seen = 0;
    for &c in NAMES.as_bytes() {
        if !matches!(c, b'$' | b'%' | b'~') {
            if seen != which + 1 {
                b.0.push(c);
            }
            continue;
        }
        if seen == which {
            b.s(if c == b'$' { "q" } else if c == b'%' { "Q" } else { "_" });
            for i in 1..n {
                if i == [1, n / 2, n - 1][place as usize] {
                    b.word(WORD, 1);
                } else {
                    b.0.push(b"abcdefghijklm"[i % 13]);
                }
            }
        }
        seen += 1;
    }
    full(b.take())
}
/// nesting and repetition
pub fn t_deep() {
    crate::crash::deep(&[5, 18], full)
}
pub fn t_deep2() {
    crate::crash::deep(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65], full)
}

/// several names out of two letters each: repeated names are distinct declarations
pub fn t_repeated() {
    let ab: &'static [u8] = b"ab";
    let cd: &'static [u8] = b"CD";
    let mut b = B::new();
    b.s("scilla_version 0 contract C(").of(ab, 1).s(" : Uint32, ").of(ab, 1).s(" : Uint32, c : Bool) field ").of(ab, 1).s(" : Uint32 = x field ");
    b.of(ab, 1).s(" : ").of(cd, 1).s(" = x procedure ").of(ab, 1).s("() end transition ").of(ab, 1).s("(").of(ab, 1).s(" : Uint32, ").of(ab, 1);
    b.s(" : ").of(cd, 1).s(") end transition ").of(ab, 1).s("() end");
    full(b.take())
}

/// type names with symbolic characters, alone and inside other types
pub fn t_types() {
    const P: &[(&str, &str)] = &[("", ""), ("List ", ""), ("Map ", " Bool"), ("Map Bool ", ""), ("Pair (", ") Bool"), ("Map Bool (List ", ")"), ("Lib.", ""),
        ("0xab.", ""), ("ByStr20 with contract field a : ", " end"), ("Pair Bool ", ""), ("", " with end"), ("", " Bool"), ("", " Bool String")];
    let mut b = B::new();
    let (x, y) = P[fork(P.len() as u32) as usize];
    b.s("scilla_version 0 contract C(a : ").s(x);
    match fork(10) {
        0 => b.s("ByStr").word(4, 1),
        1 => b.s("ByStr").word(4, 2),
        2 => b.s("ByStr").s("1844674407370955161").word(4, 2),
        n => b.word(UP, 1).word(WORD, n as usize - 3),
    };
    b.s(y).s(", z : String) field b : Uint32 = x");
    full(b.take())
}
