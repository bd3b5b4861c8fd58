//! Reference recognizer: the set of all stacks of grammar symbols that may still have to be
//! matched (nondeterministic top-down). Independent of the LR tables under test.
use crate::gram_tab::*;

#[derive(Clone)]
pub struct Oracle {
    nodes: Vec<(u8, u16)>,  // symbol, rest of the stack (node 0: end of input)
    index: Vec<u16>,        // hash table over nodes
    pub front: Vec<u16>,    // stacks with a terminal on top, after expansion
    seen: Vec<u8>,          // generation in which a stack was expanded
    gen: u8,
}

impl Oracle {
    pub fn new() -> Self {
        Oracle::starting(START)
    }
    pub fn starting(start: u8) -> Self {
        let mut o = Oracle {
            nodes: Vec::with_capacity(1024),
            index: vec![0xffff; 2048],
            front: Vec::with_capacity(64),
            seen: Vec::with_capacity(1024),
            gen: 0,
        };
        o.nodes.push((EOF, 0));
        o.seen.push(0);
        let s = o.node(start, 0);
        o.expand(vec![s]);
        o
    }
    fn slot(&self, sym: u8, rest: u16) -> usize {
        let m = self.index.len() - 1;
        let mut h = ((sym as u32) << 16 | rest as u32).wrapping_mul(0x9e3779b1);
        h ^= h >> 15;
        let mut h = h as usize & m;
        loop {
            let n = self.index[h];
            if n == 0xffff || self.nodes[n as usize] == (sym, rest) {
                return h;
            }
            h = (h + 1) & m;
        }
    }
    fn node(&mut self, sym: u8, rest: u16) -> u16 {
        let h = self.slot(sym, rest);
        if self.index[h] != 0xffff {
            return self.index[h];
        }
        let n = self.nodes.len() as u16;
        assert!(n < 0xfff0, "reference recognizer: too many stacks");
        self.nodes.push((sym, rest));
        self.seen.push(0);
        self.index[h] = n;
        if self.nodes.len() * 2 > self.index.len() {
            self.index = vec![0xffff; self.index.len() * 2];
            for i in 0..self.nodes.len() {
                let (s, r) = self.nodes[i];
                let h = self.slot(s, r);
                self.index[h] = i as u16;
            }
        }
        n
    }
    fn expand(&mut self, start: Vec<u16>) {
        self.front.clear();
        self.gen += 1;
        if self.gen == 255 {
            self.gen = 1;
            for s in self.seen.iter_mut() {
                *s = 0;
            }
        }
        let mut work = start;
        while let Some(n) = work.pop() {
            if self.seen[n as usize] == self.gen {
                continue;
            }
            self.seen[n as usize] = self.gen;
            let (sym, rest) = self.nodes[n as usize];
            if sym < 128 {
                self.front.push(n);
                continue;
            }
            let nt = (sym - 128) as usize;
            for a in NTALT[nt]..NTALT[nt + 1] {
                let from = ALT[a as usize] as usize;
                let mut to = from;
                while FLAT[to] != 255 {
                    to += 1;
                }
                let mut t = rest;
                while to > from {
                    to -= 1;
                    t = self.node(FLAT[to], t);
                }
                work.push(t);
            }
        }
    }
    /// terminals (bit per kind, EOF included) that some accepted program has here
    pub fn viable(&self) -> u64 {
        let mut m = 0u64;
        for &n in &self.front {
            m |= 1 << self.nodes[n as usize].0;
        }
        m
    }
    /// consume a viable terminal
    pub fn advance(&mut self, kind: u8) {
        let mut next = vec![];
        for &n in &self.front {
            let (s, rest) = self.nodes[n as usize];
            if s == kind {
                next.push(rest);
            }
        }
        self.expand(next);
    }
    /// the shortest completion of the `i`-th stack
    pub fn completion(&self, i: usize) -> Vec<u8> {
        let mut out = vec![];
        let mut n = self.front[i];
        while n != 0 {
            let (s, rest) = self.nodes[n as usize];
            if s < 128 {
                out.push(s);
            } else {
                let nt = (s - 128) as usize;
                for y in YIX[nt]..YIX[nt + 1] {
                    out.push(YFLAT[y as usize]);
                }
            }
            n = rest;
        }
        out
    }
}

/// terminal named by an entry of the parser's expected-token list
pub fn expect_kind(s: &str) -> Option<u8> {
    let b = s.as_bytes();
    if b.len() >= 3 && b[0] == b'"' && b[b.len() - 1] == b'"' {
        let t = &s[1..s.len() - 1];
        return (0..NFIXED).find(|&k| SPELL[k as usize] == t);
    }
    let has = |p: &str| s.contains(p);
    Some(if has("ByStr[0-9]") {
        K_BYSTRWITHSIZE
    } else if has("(x|X)") {
        K_HEXNUMBER
    } else if has("(?:") {
        K_STRINGLITERAL
    } else if has("[0-9]+") {
        K_NUMBER
    } else if has("[_]") {
        K_SPECIALIDENTIFIER
    } else if has("[']") {
        K_TEMPLATEIDENTIFIER
    } else if has("[A-Z][") {
        K_CUSTOMIDENTIFIER
    } else if has("[a-z][") {
        K_IDENTIFIER
    } else {
        return None;
    })
}
