//! C15: what was parsed before never matters.
use crate::feed::leak;
use crate::iface::*;
use crate::lex::B;
use crate::lexref::tokens;
use crate::rt::*;
use scilla_parser::parser::lexer::*;
use scilla_parser::Contract;

fn parse(s: &str) -> Result<Contract, String> {
    s.parse::<Contract>().map_err(|e| format!("{e:?}"))
}
fn same_result(a: &Result<Contract, String>, b: &Result<Contract, String>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => same_contract(a, b),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
type T<'a> = (usize, usize, usize, u8, usize, String);
fn lex(s: &str) -> Vec<T<'_>> {
    let mut v = vec![];
    for t in Lexer::new(s) {
        if let Ok((a, t, b)) = t {
            v.push((a.position, a.line, a.column, crate::gram_tab::kind_of(&t), b.position, crate::gram_tab::text_of(&t).to_string()));
        }
        if v.len() > s.len() {
            break;
        }
    }
    v
}

/// the sources under test: accepted ones, and one failing in each stage
const SRC: &[&str] = &[
    "scilla_version 0 import A library L let x = Uint32 1 contract C(a : Uint32, b : Map ByStr20 (Pair A B)) with x => field f : ByStr20 with contract field g : Option A end = a\n (* c *) transition t(p : List ByStr2) accept end procedure q() throw end",
    "scilla_version 0 contract C()",
    "scilla_version 0 contract C(a : ) end",
    "scilla_version 0\ncontract C()\n field # : A = b",
    "scilla_version 0 contract C(a : A -> B)",
    "scilla_version 0 contract C(a : Option)",
    "",
    "\n\n scilla_version 0 contract C() )",
    "(* a\n*)\r\n\tscilla_version 0 contract C(a : \"",
];
/// what may have happened before, with symbolic characters
fn before(i: u32) -> &'static str {
    let mut b = B::new();
    match i {
        0 => b.any(2),
        1 => b.s("scilla_version ").any(1).s(" contract C()"),
        2 => b.s("scilla_version 0 contract ").word(2, 1).s("(").word(1, 1).s(" : ").word(2, 2).s(") transition ").word(1, 1).s("() end"),
        3 => b.s("(* ").any(1),
        4 => b.s("\"").any(2),
        5 => b.s("scilla_version 0\n\n\ncontract C(a : Map A (A ->").any(1).s(" B)) field x : A = b"),
        6 => b.s("scilla_version 0 contract C(a : ByStr20 with contract field g : Uint32").any(1),
        7 => b.s("scilla_version 0 library L let y = {_tag : \"").any(1).s("\"} contract D() field a : Uint32 = Uint32 1 field b : A B"),
        // a tokenizer left in the middle of something
        8 => {
            let s = "scilla_version 0\ncontract (* \n *) C(a : \"x\ny\" ByStr20 (* ";
            for _ in Lexer::new(s).take([0, 2, 3, 4, 7, 8, 9][fork(7) as usize]) {}
            b.s(s)
        }
        _ => b.s(SRC[i as usize - 9]),
    };
    b.take()
}
const BEFORE: u32 = 9 + SRC.len() as u32;

/// the same text at a new address
fn elsewhere(s: &str) -> &'static str {
    leak(s.to_string())
}
/// the same text in the middle of a larger one
fn inside(s: &str) -> &'static str {
    let mut t = String::from("x\n(*");
    let n = t.len();
    t.push_str(s);
    t.push_str("*) end \"");
    &leak(t)[n..n + s.len()]
}

fn history(n: u32) {
    let s = SRC[fork(SRC.len() as u32) as usize];
    let first = parse(s);
    let l = lex(s);
    for _ in 0..n {
        let b = before(fork(BEFORE));
        describe(|| format!("before: {b:?}"));
        let r = parse(b);
        observe(r.is_ok() as u64);
    }
    describe(|| format!("source: {s:?}\nfirst: {first:?}"));
    let again = parse(s);
    describe(|| format!("again: {again:?}"));
    check(same_result(&first, &again), 1501);
    check(lex(s) == l, 1502);
    let at = match fork(2) {
        0 => elsewhere(s),
        _ => inside(s),
    };
    let other = parse(at);
    describe(|| format!("elsewhere: {other:?}"));
    check(same_result(&first, &other), 1503);
    check(lex(at) == l, 1504);
    // and against the reference
    full15(s, &again);
    reach(if first.is_ok() { 1501 } else { 1502 });
    observe(again.is_ok() as u64);
}
pub fn p_history1() {
    history(1)
}
pub fn p_history2() {
    history(2)
}
pub fn p_history3() {
    history(3)
}

/// the verdict and the declarations against the reference reading of the text
fn full15(s: &'static str, got: &Result<Contract, String>) {
    let t: Vec<_> = tokens(s).into_iter().map(|x| crate::gram_tab::make(x.kind, &s[x.start..x.end])).collect();
    if !derivable(&t) {
        check(got.is_err(), 1505);
        return;
    }
    let want = R::new(&t).program();
    check(agrees(&want, got), 1506);
}

const FORM: &str = "scilla_version 0 contract Cc(ab : Uint32) field fg : Ty = x\ntransition t2(p : Map A B) end";
/// a text, then the text with one character changed, then the text again
pub fn p_variant() {
    let i = fork(FORM.len() as u32) as usize;
    let first = parse(FORM);
    let mut b = B::new();
    b.s(&FORM[..i]).any(1).s(&FORM[i + 1..]);
    let v = b.take();
    describe(|| format!("first: {FORM:?}\nthen: {v:?}"));
    let got = parse(v);
    describe(|| format!("reported: {got:?}"));
    full15(v, &got);
    check(same_result(&first, &parse(FORM)), 1507);
    check(same_result(&got, &parse(v)), 1508);
    observe(got.is_ok() as u64);
    reach(1503)
}

/// one buffer, filled again with another text of the same length
pub fn p_inplace() {
    let mut buf = FORM.as_bytes().to_vec();
    let i = fork(FORM.len() as u32) as usize;
    let c = choose(128) as u8;
    fn view(b: &[u8]) -> &'static str {
        // the buffer outlives every use below
        unsafe { std::mem::transmute::<&str, &'static str>(std::str::from_utf8_unchecked(b)) }
    }
    let first = parse(view(&buf));
    buf[i] = c;
    let v = view(&buf);
    describe(|| format!("first: {FORM:?}\nthen: {v:?}"));
    let got = parse(v);
    describe(|| format!("reported: {got:?}"));
    full15(v, &got);
    buf[i] = FORM.as_bytes()[i];
    check(same_result(&first, &parse(view(&buf))), 1509);
    observe(got.is_ok() as u64);
    reach(1504)
}

/// the same small text very often
pub fn p_many() {
    let s = SRC[fork(2) as usize];
    let b = before(fork(BEFORE));
    let first = parse(s);
    let n = [20u32, 70][fork(2) as usize];
    let mut last = None;
    for i in 0..n {
        let r = parse(b);
        match &last {
            None => last = Some(r),
            Some(l) => check(same_result(l, &r), 1510),
        }
        observe(i as u64);
    }
    check(same_result(&first, &parse(s)), 1511);
    reach(1505)
}

/// a text with two characters exchanged, between two readings of the text
pub fn p_swap() {
    let i = fork(FORM.len() as u32 - 1) as usize;
    let j = i + 1 + fork(3) as usize;
    assume(j < FORM.len() && FORM.as_bytes()[i] != FORM.as_bytes()[j]);
    let first = parse(FORM);
    let mut v = FORM.as_bytes().to_vec();
    v.swap(i, j);
    let v = leak(String::from_utf8(v).unwrap_or_default());
    describe(|| format!("first: {FORM:?}\nthen: {v:?}"));
    let got = parse(v);
    describe(|| format!("reported: {got:?}"));
    full15(v, &got);
    check(same_result(&first, &parse(FORM)), 1512);
    observe(got.is_ok() as u64);
    reach(1506)
}

/// one text more often than an 8-bit or 10-bit counter goes
pub fn p_count() {
    let s = SRC[[1, 2, 6][fork(3) as usize]];
    let first = parse(s);
    for _ in 0..1100 {
        check(same_result(&first, &parse(s)), 1513);
    }
    reach(1507)
}
