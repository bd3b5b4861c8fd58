//! Reference tokenizer: Scilla's lexical rules, written from the documentation, on characters.
use crate::gram_tab::*;

#[derive(Clone, Copy, Debug)]
pub struct RTok {
    pub kind: u8, // UNKNOWN for a character that starts no token
    pub start: usize,
    pub end: usize,
}

fn wordch(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn nth(s: &str, at: usize) -> Option<char> {
    s[at..].chars().next()
}
fn byte(s: &str, at: usize) -> Option<u8> {
    s.as_bytes().get(at).copied()
}
fn idch(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}
fn run(s: &str, mut at: usize, f: impl Fn(u8) -> bool) -> usize {
    while let Some(b) = byte(s, at) {
        if !f(b) {
            break;
        }
        at += 1;
    }
    at
}

/// end of the whitespace and comments starting at `at`
pub fn skip_gap(s: &str, mut at: usize) -> usize {
    loop {
        match nth(s, at) {
            Some(c) if c.is_whitespace() => at += c.len_utf8(),
            Some('(') if byte(s, at + 1) == Some(b'*') => {
                let mut p = at + 2;
                loop {
                    match byte(s, p) {
                        None => return p,
                        Some(b'*') if byte(s, p + 1) == Some(b')') => break,
                        _ => p += 1,
                    }
                }
                at = p + 2;
            }
            _ => return at,
        }
    }
}

pub fn token(s: &str, at: usize) -> RTok {
    let t = |kind: u8, end: usize| RTok { kind, start: at, end };
    let c = nth(s, at).unwrap();
    let n = byte(s, at + 1);
    let digit = |b: Option<u8>| b.map_or(false, |b| b.is_ascii_digit());
    match c {
        '=' if n == Some(b'>') => return t(K_DOUBLEARROW, at + 2),
        '-' if n == Some(b'>') => return t(K_ARROW, at + 2),
        '<' if n == Some(b'-') => return t(K_LEFTARROW, at + 2),
        ':' if n == Some(b'=') => return t(K_COLONEQUALS, at + 2),
        '-' if digit(n) => return t(K_NUMBER, run(s, at + 1, |b| b.is_ascii_digit())),
        '+' => return t(K_PLUS, at + 1),
        '*' => return t(K_ASTERISK, at + 1),
        ';' => return t(K_SEMICOLON, at + 1),
        ':' => return t(K_COLON, at + 1),
        '.' => return t(K_DOT, at + 1),
        '|' => return t(K_PIPE, at + 1),
        '[' => return t(K_OPENBRACKET, at + 1),
        ']' => return t(K_CLOSEBRACKET, at + 1),
        '(' => return t(K_OPENPAREN, at + 1),
        ')' => return t(K_CLOSEPAREN, at + 1),
        '{' => return t(K_OPENBRACE, at + 1),
        '}' => return t(K_CLOSEBRACE, at + 1),
        ',' => return t(K_COMMA, at + 1),
        '&' => return t(K_AMPERSAND, at + 1),
        '@' => return t(K_AT, at + 1),
        '=' => return t(K_EQUALS, at + 1),
        '-' => return t(K_MINUS, at + 1),
        '"' => {
            // up to the first unescaped quote; failing that, up to the last escaped one
            let mut p = at + 1;
            let mut last = None;
            loop {
                match byte(s, p) {
                    None => break,
                    Some(b'"') => return t(K_STRINGLITERAL, p + 1),
                    Some(b'\\') => match nth(s, p + 1) {
                        Some('\n') | None => p += 1,
                        Some(d) => {
                            if d == '"' {
                                last = Some(p + 2)
                            }
                            p += 1 + d.len_utf8()
                        }
                    },
                    _ => p += 1,
                }
            }
            return match last {
                Some(e) => t(K_STRINGLITERAL, e),
                None => t(UNKNOWN, at + 1),
            };
        }
        '\'' => {
            return if n.map_or(false, |b| b.is_ascii_uppercase()) {
                t(K_TEMPLATEIDENTIFIER, run(s, at + 1, idch))
            } else {
                t(UNKNOWN, at + 1)
            }
        }
        _ => {}
    }
    if !wordch(c) {
        return t(UNKNOWN, at + c.len_utf8());
    }
    // the whole word decides about keywords and sized byte strings
    let mut we = at;
    while let Some(c) = nth(s, we) {
        if !wordch(c) {
            break;
        }
        we += c.len_utf8();
    }
    let w = &s.as_bytes()[at..we];
    for k in 0..NFIXED {
        let sp = SPELL[k as usize].as_bytes();
        if idch(sp[0]) && w == sp {
            return t(k, we);
        }
    }
    if w.len() > 5 && &w[..5] == b"ByStr" && w[5..].iter().all(|b| b.is_ascii_digit()) {
        return t(K_BYSTRWITHSIZE, we);
    }
    let b = w[0];
    if b == b'0' && (n == Some(b'x') || n == Some(b'X')) {
        // whole bytes: pairs of hexadecimal digits
        let hex = |b: Option<u8>| b.map_or(false, |b| b.is_ascii_hexdigit());
        let mut e = at + 2;
        while hex(byte(s, e)) && hex(byte(s, e + 1)) {
            e += 2;
        }
        return t(K_HEXNUMBER, e);
    }
    if b.is_ascii_digit() {
        return t(K_NUMBER, run(s, at, |b| b.is_ascii_digit()));
    }
    if b.is_ascii_lowercase() {
        return t(K_IDENTIFIER, run(s, at, idch));
    }
    if b.is_ascii_uppercase() {
        return t(K_CUSTOMIDENTIFIER, run(s, at, idch));
    }
    if b == b'_' {
        return t(K_SPECIALIDENTIFIER, run(s, at, idch));
    }
    t(UNKNOWN, at + c.len_utf8())
}

pub fn tokens(s: &str) -> Vec<RTok> {
    let mut v = vec![];
    let mut at = 0;
    loop {
        at = skip_gap(s, at);
        if at >= s.len() {
            return v;
        }
        let t = token(s, at);
        at = t.end;
        v.push(t);
    }
}
