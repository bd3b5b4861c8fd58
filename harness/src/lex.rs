//! C02, C03, C04 (and C01) of the tokenizer.
use crate::gram_tab::*;
use crate::lexref::*;
use crate::rt::*;
use scilla_parser::parser::lexer::*;

/// all three properties on one source text
pub fn examine(s: &str) {
    describe(|| format!("source: {s:?}"));
    let mut got: Vec<(SourcePosition, Token<&str>, SourcePosition)> = vec![];
    for t in Lexer::new(s) {
        match t {
            Ok(x) => got.push(x),
            Err(_) => {
                check(false, 201);
                end()
            }
        }
        // more tokens than characters: no end in sight
        if got.len() > s.len() {
            check(false, 202);
            check(false, 301);
            end()
        }
    }
    describe(|| format!("tokens: {got:?}"));
    observe(got.len() as u64);
    let base = s.as_ptr() as usize;
    // C02: cover the source exactly
    let mut at = 0;
    for (a, t, b) in &got {
        let (a, b) = (a.position, b.position);
        check(a < b && b <= s.len() && s.is_char_boundary(a) && s.is_char_boundary(b), 203);
        check(a >= at, 204);
        if !(a < b && b <= s.len() && a >= at && s.is_char_boundary(a) && s.is_char_boundary(b)) {
            end()
        }
        let k = kind_of(t);
        if k < NFIXED {
            check(s[a..b] == *SPELL[k as usize], 205);
        } else if k < UNKNOWN {
            check(s[a..b] == *text_of(t), 205);
        } else if *t == Token::Unknown {
            check(s[a..b].chars().count() == 1, 206);
        }
        if enabled(209) && *t != Token::Unknown {
            // the token turned into text again
            let w: String = t.clone().into();
            check(w == s[a..b], 209);
        }
        check(skip_gap(s, at) == a, 207);
        at = b;
    }
    check(skip_gap(s, at) >= s.len(), 208);
    // C03: longest match of the right kind
    let want = tokens(s);
    check(got.len() == want.len(), 302);
    for (i, (a, t, b)) in got.iter().enumerate() {
        if i >= want.len() {
            break;
        }
        let w = &want[i];
        let k = kind_of(t);
        observe(k as u64);
        observe(a.position as u64);
        observe(b.position as u64);
        check(k == w.kind, 303);
        check(a.position == w.start && b.position == w.end, 304);
        if k >= NFIXED && k < UNKNOWN {
            check(text_of(t) == &s[w.start..w.end], 305);
        }
        if k == UNKNOWN {
            check(*t == Token::Unknown, 306);
            reach(1)
        }
    }
    // C04: coordinates
    for (a, t, b) in &got {
        let k = kind_of(t);
        let p = a.position;
        if p > s.len() {
            continue;
        }
        let len;
        if k >= NFIXED && k < UNKNOWN {
            // the carried text is a slice of the source: its address is the true offset
            let tx = text_of(t);
            let q = (tx.as_ptr() as usize).wrapping_sub(base);
            check(p == q, 401);
            len = tx.len();
        } else if k < NFIXED {
            len = SPELL[k as usize].len();
            check(s.as_bytes()[p..].starts_with(SPELL[k as usize].as_bytes()), 401);
        } else {
            len = s[p..].chars().next().map_or(0, |c| c.len_utf8());
        }
        let mut line = 0;
        let mut bol = 0;
        let mut i = 0;
        let by = s.as_bytes();
        while i < p {
            if by[i] == b'\n' {
                line += 1;
                bol = i + 1;
            }
            i += 1;
        }
        observe(a.line as u64);
        observe(a.column as u64);
        check(a.line == line, 402);
        check(a.column == p - bol, 403);
        check(b.position == p + len, 404);
        if line > 0 {
            reach(2)
        }
    }
}

fn ascii(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(choose(128) as u8)
    }
    v
}
fn text(v: Vec<u8>) -> &'static str {
    // the harnesses only build valid UTF-8
    let s: &'static [u8] = Box::leak(v.into_boxed_slice());
    #[cfg(feature = "native")]
    return std::str::from_utf8(s).unwrap();
    #[cfg(not(feature = "native"))]
    unsafe {
        std::str::from_utf8_unchecked(s)
    }
}

pub fn lx_free2() {
    examine(text(ascii(2)))
}
pub fn lx_free3() {
    examine(text(ascii(3)))
}
pub fn lx_free4() {
    examine(text(ascii(4)))
}

/// builds a source text piece by piece
pub struct B(pub Vec<u8>);
impl B {
    pub fn new() -> B {
        B(Vec::with_capacity(64))
    }
    pub fn s(&mut self, t: &str) -> &mut B {
        self.0.extend_from_slice(t.as_bytes());
        self
    }
    /// n symbolic ASCII characters
    pub fn any(&mut self, n: usize) -> &mut B {
        for _ in 0..n {
            self.0.push(choose(128) as u8)
        }
        self
    }
    /// n symbolic characters out of a set
    pub fn of(&mut self, set: &'static [u8], n: usize) -> &mut B {
        ite_slice(set);
        for _ in 0..n {
            self.0.push(set[choose(set.len() as u32) as usize])
        }
        self
    }
    /// n symbolic letters or digits (bit 0 lower case, 1 upper case, 2 digits)
    pub fn word(&mut self, class: u8, n: usize) -> &mut B {
        for _ in 0..n {
            let c = byte();
            let lo = (c.wrapping_sub(b'a') < 26) & (class & 1 != 0);
            let up = (c.wrapping_sub(b'A') < 26) & (class & 2 != 0);
            let dg = (c.wrapping_sub(b'0') < 10) & (class & 4 != 0);
            assume(lo | up | dg);
            self.0.push(c)
        }
        self
    }
    /// a symbolic two-byte character (U+0080..U+07FF)
    pub fn two(&mut self) -> &mut B {
        let a = fork(30) as u8;
        let b = choose(64) as u8;
        self.0.push(0xc2 + a);
        self.0.push(0x80 + b);
        self
    }
    /// a symbolic three-byte character (U+0800..U+FFFF)
    pub fn three(&mut self) -> &mut B {
        let a = fork(16) as u8;
        let b = fork(64) as u8;
        let c = choose(64) as u8;
        if a == 0 {
            assume(b >= 32)
        } else if a == 13 {
            assume(b < 32)
        }
        self.0.extend_from_slice(&[0xe0 + a, 0x80 + b, 0x80 + c]);
        self
    }
    /// a symbolic four-byte character (U+10000..U+10FFFF)
    pub fn four(&mut self, all: bool) -> &mut B {
        let a = fork(5) as u8;
        let b = fork(64) as u8;
        if a == 0 {
            assume(b >= 16)
        } else if a == 4 {
            assume(b < 16)
        }
        let c = if all { fork(64) } else { [0, 32, 63][fork(3) as usize] } as u8;
        let d = choose(64) as u8;
        self.0.extend_from_slice(&[0xf0 + a, 0x80 + b, 0x80 + c, 0x80 + d]);
        self
    }
    pub fn take(&mut self) -> &'static str {
        text(std::mem::take(&mut self.0))
    }
    fn go(&mut self) {
        examine(text(std::mem::take(&mut self.0)))
    }
}

fn words() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = (0..NFIXED).map(|k| SPELL[k as usize]).filter(|w| w.as_bytes()[0].is_ascii_alphabetic()).collect();
    v.extend(["ByStr20", "ByStr", "Event", "_sender", "'A", "Uint32"]);
    v
}

/// a keyword with any one character before it and any one after it
pub fn lx_keyword() {
    let w = words();
    let w = w[fork(w.len() as u32) as usize];
    B::new().any(1).s(w).any(1).go()
}
/// a keyword with any one of its characters replaced, left out, or followed by more
pub fn lx_keyword_near() {
    let w = words();
    let w = w[fork(w.len() as u32) as usize];
    let i = fork(w.len() as u32) as usize;
    match fork(3) {
        0 => B::new().s(&w[..i]).any(1).s(&w[i + 1..]).go(),
        1 => B::new().s(&w[..i]).s(&w[i + 1..]).any(1).go(),
        _ => B::new().s(&w[..i]).any(1).s(&w[i..]).s("(").go(),
    }
}
/// two keywords around any one character
pub fn lx_keyword_pair() {
    let w = words();
    let a = w[fork(w.len() as u32) as usize];
    let b = w[fork(w.len() as u32) as usize];
    B::new().s(a).any(1).s(b).go()
}
pub fn lx_number() {
    match fork(4) {
        0 => B::new().of(b"-+0189xXaAfFgG_. ", 4).go(),
        1 => B::new().s("-12").any(2).go(),
        2 => B::new().s("0x").of(b"0189aAfFgG_x", 4).any(1).go(),
        _ => B::new().s("Uint128 34028236692093846346337460743176821145").any(2).go(),
    }
}
pub fn lx_string() {
    match fork(4) {
        0 => B::new().s("\"").of(b"\"\\a\n *(", 4).s("x").go(),
        1 => B::new().s("\"").of(b"\"\\a\n", 4).s("\" b\nc").go(),
        2 => B::new().s("x\"ab").any(2).s("\"\ny").go(),
        _ => B::new().s("\"\\").any(1).s("\\\"\\\\").any(1).s("\" 1\n2").go(),
    }
}
pub fn lx_comment() {
    match fork(4) {
        0 => B::new().s("(*").of(b"(*)\na\"", 4).s("*)\nz").go(),
        1 => B::new().s("a(*").any(2).s("*)b").go(),
        2 => B::new().of(b"(*)\na", 5).go(),
        _ => B::new().s("a\n(*\n*").any(1).s(")\n").any(1).s(" *) b\n c").go(),
    }
}
/// two-byte characters next to every kind of token
pub fn lx_utf8() {
    utf8(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24])
}
pub fn lx_utf8q() {
    utf8(&[1, 5, 7, 18, 19])
}
/// every three- and four-byte character
pub fn lx_three() {
    let (a, b) = CTX[[0, 19][fork(2) as usize]];
    B::new().s(a).three().s(b).go()
}
pub fn lx_three_all() {
    let (a, b) = CTX[fork(CTX.len() as u32) as usize];
    B::new().s(a).three().s(b).go()
}
pub fn lx_four() {
    let (a, b) = CTX[0];
    B::new().s(a).four(false).s(b).go()
}
pub fn lx_four_all() {
    let (a, b) = CTX[[19, 5, 7][fork(3) as usize]];
    B::new().s(a).four(true).s(b).go()
}
const CTX: &[(&str, &str)] = &[
    ("", ""), ("a", ""), ("", "a"), ("end", ""), ("", "end"), ("\"", "\""), ("\"\\", "\" x"), ("(*", "*)x\n y"), ("-", "1"), ("_", "a"),
    ("ByStr", ""), ("ByStr20", "1"), ("0x", "1"), ("12", "3"), ("'", "A"), ("'A", "b"), ("C", "d"), ("=", ">"), ("(", "*"), ("a ", " b"),
    ("\n", "\nb"), ("\"\n", "\"\nb"), ("_x", "y z"), ("\"a", ""), ("(*", ""),
];
fn utf8(which: &[usize]) {
    let (a, b) = CTX[which[fork(which.len() as u32) as usize]];
    B::new().s(a).two().s(b).go()
}
/// characters of every encoded length, in pairs
pub fn lx_utf8_pairs() {
    const C: &[&str] = &["é", "×", "中", "😀", "\u{a0}", "\u{2003}", "\u{85}", "²", "٣", "\u{2028}", "ß", "", "a", "\n", "\"", "(*"];
    const CTX: &[(&str, &str, &str)] = &[("", "", ""), ("a", "b", "c"), ("\"", "", "\" d"), ("(*", "*", "*) d"), ("x ", " y\n", " z"), ("-", "1", "_"), ("'A", "B", "0x1f")];
    let a = C[fork(C.len() as u32) as usize];
    let b = C[fork(C.len() as u32) as usize];
    let (x, y, z) = CTX[fork(CTX.len() as u32) as usize];
    B::new().s(x).s(a).s(y).s(b).s(z).any(1).go()
}
/// long words, strings, numbers, comments and lines, ending in any character
pub fn lx_long() {
    const N: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513];
    let n = N[fork(N.len() as u32) as usize];
    let mut b = B::new();
    let fill = |b: &mut B, c: u8| {
        for _ in 0..n {
            b.0.push(c)
        }
    };
    match fork(9) {
        0 => fill(&mut b, b'a'),
        1 => fill(&mut b, b'Z'),
        2 => fill(&mut b, b'7'),
        3 => {
            b.s("_");
            fill(&mut b, b'_')
        }
        4 => {
            b.s("\"");
            fill(&mut b, b's');
            b.s("\"");
        }
        5 => {
            b.s("(*");
            fill(&mut b, b'*');
            b.s("*)");
        }
        6 => fill(&mut b, b' '),
        7 => fill(&mut b, b'\n'),
        _ => {
            b.s("0x");
            fill(&mut b, b'f')
        }
    }
    b.any(1).s("q ");
    b.go()
}
/// lines: any four of these pieces, then a name
/// lines, columns and offsets beyond 16 bits
pub fn lx_far() {
    let k = fork(5);
    let n = if k == 3 { 4096 } else { 65535 };
    let mut b = B::new();
    let fill = |b: &mut B, c: u8| {
        for _ in 0..n {
            b.0.push(c)
        }
    };
    match k {
        0 => fill(&mut b, b' '),
        1 => fill(&mut b, b'\n'),
        2 => {
            b.s("(*");
            fill(&mut b, b'x');
            b.s("*)");
        }
        3 => {
            b.s("\"");
            fill(&mut b, b's');
            b.s("\"");
        }
        _ => fill(&mut b, b'a'),
    }
    b.any(1).s("q r");
    b.go()
}
pub fn lx_lines() {
    lines(3)
}
pub fn lx_lines2() {
    lines(2)
}
fn lines(n: usize) {
    const P: &[&str] = &["\n", " ", "\r\n", "\t", "(* c *)", "(*\n*)", "\"s\"", "\"\n\"", "let ", "é", "(*é\n\né*)", "\"é\"", "a"];
    let mut b = B::new();
    for _ in 0..n {
        b.s(P[fork(P.len() as u32) as usize]);
    }
    b.any(1).s(" name\nlast");
    b.go()
}
