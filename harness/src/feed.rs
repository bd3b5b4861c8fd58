//! A token source for the parser: a concrete prefix, a window of symbolic tokens (end of input
//! included) and the shortest completion of what the reference grammar still expects.
use crate::gram::*;
use crate::gram_tab::*;
use crate::rt::*;
use scilla_parser::parser::lexer::*;

pub type Tok = Token<&'static str>;

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// kind of a whole lexeme (prefix notation of the harnesses)
pub fn word_kind(w: &str) -> u8 {
    let mut k = 0;
    while k < NFIXED {
        if SPELL[k as usize] == w {
            return k;
        }
        k += 1;
    }
    let b = w.as_bytes();
    match b[0] {
        b'"' => K_STRINGLITERAL,
        b'\'' => K_TEMPLATEIDENTIFIER,
        b'_' => K_SPECIALIDENTIFIER,
        b'0' if b.len() > 1 && b[1] == b'x' => K_HEXNUMBER,
        b'0'..=b'9' | b'-' => K_NUMBER,
        b'a'..=b'z' => K_IDENTIFIER,
        b'B' if b.len() > 5 && &b[..5] == b"ByStr" && b[5] <= b'9' => K_BYSTRWITHSIZE,
        _ => K_CUSTOMIDENTIFIER,
    }
}

/// text of a class token at index i, distinct per index
pub fn class_text(k: u8, i: usize) -> &'static str {
    let d = [(b'0' + (i / 10 % 10) as u8) as char, (b'0' + (i % 10) as u8) as char];
    let p: &[char] = match k {
        K_BYSTRWITHSIZE => &['B', 'y', 'S', 't', 'r'],
        K_NUMBER if i % 2 == 1 => &['-'],
        K_NUMBER => &[],
        K_HEXNUMBER => &['0', if i % 2 == 0 { 'x' } else { 'X' }, 'a', 'F'],
        K_STRINGLITERAL => &['"', 'A', ' ', '\\', '"', 'é'],
        K_IDENTIFIER => &['a', 'B', '_'],
        K_SPECIALIDENTIFIER => &['_', 's', 'T', '_'],
        K_CUSTOMIDENTIFIER => &['C', 'd', '_'],
        K_TEMPLATEIDENTIFIER => &['\'', 'T', 'u', '_'],
        _ => return "",
    };
    let mut s = String::with_capacity(16);
    for &c in p.iter().chain(d.iter()) {
        s.push(c)
    }
    if i >= 100 {
        s.push((b'0' + (i / 100) as u8) as char);
    }
    if k == K_STRINGLITERAL {
        s.push('"')
    }
    leak(s)
}

pub fn start_of(i: usize) -> SourcePosition {
    SourcePosition { position: 10 * i + 1, line: 1000 + i, column: 2000 + i }
}
pub fn end_of(i: usize) -> SourcePosition {
    SourcePosition { position: 10 * i + 5, line: 3000 + i, column: 4000 + i }
}

pub struct Feed {
    pub toks: Vec<Tok>,      // tokens handed out so far
    pub kinds: Vec<u8>,
    pub prefix: Vec<Tok>,
    pub window: usize,
    pub oracle: Oracle,
    /// terminals viable before the last token handed out (or at the end of input)
    pub viable: u64,
    pub ended: bool,
    pub overrun: bool,
    fill: Vec<u8>,
    fill_at: usize,
    pending: Option<u32>,    // symbolic kind of the last window token
    /// kinds of the entries of a given alphabet (empty: every kind, in order)
    alphabet: &'static [u8],
    tables: Vec<&'static [Tok]>,
}

pub fn toks(src: &str) -> Vec<Tok> {
    let mut v = vec![];
    for w in src.split_ascii_whitespace() {
        v.push(make(word_kind(w), leak(w.to_string())));
    }
    v
}

impl Feed {
    pub fn new(prefix: &str, window: usize) -> Feed {
        Feed::from(toks(prefix), window)
    }
    /// window tokens only from the given words
    pub fn over(prefix: &str, window: usize, words: &str) -> Feed {
        let mut f = Feed::new(prefix, 0);
        let w = toks(words);
        let k: Vec<u8> = w.iter().map(kind_of).collect();
        f.alphabet = Box::leak(k.into_boxed_slice());
        ite_slice(f.alphabet);
        let w: &'static [Tok] = Box::leak(w.into_boxed_slice());
        ite_slice(w);
        f.window = window;
        for _ in 0..window {
            f.tables.push(w);
        }
        f
    }
    /// the i-th systematic prefix of the grammar
    pub fn systematic(i: usize, window: usize) -> Feed {
        let (a, b) = (PIX[i] as usize, PIX[i + 1] as usize);
        let mut v = Vec::with_capacity(b - a);
        for j in a..b {
            v.push(make(PFLAT[j], class_text(PFLAT[j], j - a)));
        }
        Feed::from(v, window)
    }
    /// the i-th repetition or nesting of the grammar, n times
    pub fn repeated(i: usize, n: usize, window: usize) -> Feed {
        let (a, b, c) = (RIX[2 * i] as usize, RIX[2 * i + 1] as usize, RIX[2 * i + 2] as usize);
        let mut v = Vec::with_capacity(b - a + n * (c - b));
        for j in a..b {
            v.push(make(RFLAT[j], class_text(RFLAT[j], v.len())));
        }
        for _ in 0..n {
            for j in b..c {
                v.push(make(RFLAT[j], class_text(RFLAT[j], v.len())));
            }
        }
        Feed::from(v, window)
    }
    pub fn from(prefix: Vec<Tok>, window: usize) -> Feed {
        let mut tables = vec![];
        for i in 0..window {
            let t: Vec<Tok> = (0..EOF).map(|k| make(k, class_text(k, prefix.len() + i))).collect();
            let t: &'static [Tok] = Box::leak(t.into_boxed_slice());
            ite_slice(t);
            tables.push(t);
        }
        Feed {
            tables,
            alphabet: &[],
            toks: vec![],
            kinds: vec![],
            prefix,
            window,
            oracle: Oracle::new(),
            viable: 0,
            ended: false,
            overrun: false,
            fill: vec![],
            fill_at: usize::MAX,
            pending: None,
        }
    }
    /// the parser went past the pending window token: it must be one the grammar allows
    pub fn settle(&mut self) {
        if let Some(k) = self.pending.take() {
            let ok = (self.viable >> k) & 1 == 1;
            check(ok, 901);
            check(ok, 1401);
            if !ok {
                end()
            }
            let k = concretize(k as u64) as u8;
            self.kinds.push(k);
            self.oracle.advance(k);
        }
    }
    /// the kind of the last token handed out, whether or not it was consumed
    pub fn last_kind(&self) -> Option<u32> {
        self.pending
    }
}

impl Iterator for Feed {
    type Item = Result<(SourcePosition, Tok, SourcePosition), ParseError>;
    fn next(&mut self) -> Option<Self::Item> {
        self.settle();
        if self.ended {
            self.overrun = true;
            return None;
        }
        let i = self.toks.len();
        let p = self.prefix.len();
        self.viable = self.oracle.viable();
        let tok: Tok;
        if i < p {
            tok = unsafe { std::ptr::read(&self.prefix[i]) };
            let k = kind_of(&tok);
            if (self.viable >> k) & 1 == 0 {
                panic!("harness: prefix is not viable at {}", i)
            }
            self.kinds.push(k);
            self.oracle.advance(k);
        } else if i < p + self.window {
            // symbolic token
            let n = self.tables[i - p].len() as u32;
            let c = choose(n + 1);
            if c == n {
                self.ended = true;
                return None;
            }
            tok = unsafe { std::ptr::read(self.tables[i - p].as_ptr().add(c as usize)) };
            self.pending = Some(if self.alphabet.is_empty() { c } else { self.alphabet[c as usize] as u32 });
        } else {
            if self.fill_at == usize::MAX {
                let mut best = vec![];
                for i in 0..self.oracle.front.len() {
                    let c = self.oracle.completion(i);
                    if i == 0 || c.len() < best.len() {
                        best = c
                    }
                }
                self.fill = best;
                self.fill_at = 0;
            }
            if self.fill_at == self.fill.len() {
                self.ended = true;
                return None;
            }
            let k = self.fill[self.fill_at];
            self.fill_at += 1;
            tok = make(k, class_text(k, i));
            self.kinds.push(k);
            self.oracle.advance(k);
        }
        self.toks.push(unsafe { std::ptr::read(&tok) });
        Some(Ok((start_of(i), tok, end_of(i))))
    }
}
