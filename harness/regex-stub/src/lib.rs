//! Stand-in for the `regex` crate in the symbolic build: a small backtracking matcher
//! with the same leftmost-first semantics for the syntax the lexer uses. Class
//! membership is computed without branching, so one symbolic character costs one
//! two-way fork. It is compared with the real crate natively (see tools/check.py:
//! every explored path is replayed against a build that uses the real `regex`).
mod classes;

use std::fmt;

#[derive(Clone, Debug)]
enum Node {
    Class(Vec<(u32, u32)>, bool),
    Start,
    End,
    LineStart,
    LineEnd,
    Boundary(bool),
    Group(Vec<Vec<Node>>, Option<usize>),
    Repeat(Box<Node>, usize, usize, bool),
}

#[derive(Clone, Debug)]
pub struct Regex {
    alts: Vec<Vec<Node>>,
    groups: usize,
    names: Vec<(String, usize)>,
    src: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    Syntax(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Syntax(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Error {}

struct P<'a> {
    s: Vec<char>,
    i: usize,
    groups: usize,
    names: Vec<(String, usize)>,
    /// flags: i, s, m, U, and u switched off
    f: [bool; 5],
    _p: std::marker::PhantomData<&'a ()>,
}

fn err<T>(m: &str) -> Result<T, Error> {
    Err(Error::Syntax(format!("regex stub: unsupported: {m}")))
}

const MAXC: u32 = 0x10ffff;

type Ranges = Vec<(u32, u32)>;

fn invert(mut rs: Ranges) -> Ranges {
    rs.sort();
    let mut out = vec![];
    let mut at = 0;
    for (lo, hi) in rs {
        if lo > at {
            out.push((at, lo - 1));
        }
        at = at.max(hi + 1);
    }
    if at <= MAXC {
        out.push((at, MAXC));
    }
    out
}

/// Adds the other case of every ASCII letter (and what folds to one).
fn fold(rs: &mut Ranges, unicode: bool) {
    let has = |rs: &Ranges, c: u32| rs.iter().any(|&(lo, hi)| lo <= c && c <= hi);
    for c in b'a'..=b'z' {
        let (l, u) = (c as u32, c as u32 - 32);
        let other = match c {
            b'k' if unicode => 0x212a,
            b's' if unicode => 0x17f,
            _ => l,
        };
        if has(rs, l) || has(rs, u) || has(rs, other) {
            for x in [l, u, other] {
                if !has(rs, x) {
                    rs.push((x, x));
                }
            }
        }
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn alts(&mut self) -> Result<Vec<Vec<Node>>, Error> {
        let mut out = vec![];
        let mut cur = vec![];
        loop {
            match self.peek() {
                None | Some(')') => break,
                Some('|') => {
                    self.i += 1;
                    out.push(std::mem::take(&mut cur));
                }
                _ => {
                    let a = self.atom()?;
                    let a = self.postfix(a)?;
                    cur.push(a);
                }
            }
        }
        out.push(cur);
        Ok(out)
    }
    fn postfix(&mut self, a: Node) -> Result<Node, Error> {
        let mut a = a;
        loop {
            let (lo, hi) = match self.peek() {
                Some('*') => (0, usize::MAX),
                Some('+') => (1, usize::MAX),
                Some('?') => (0, 1),
                Some('{') => {
                    let mut j = self.i + 1;
                    let mut num = |s: &Vec<char>| {
                        let mut v = None;
                        while j < s.len() && s[j].is_ascii_digit() {
                            v = Some(v.unwrap_or(0usize) * 10 + s[j] as usize - 48);
                            j += 1;
                        }
                        (v, j)
                    };
                    let (lo, k) = num(&self.s);
                    let lo = match lo {
                        Some(v) => v,
                        None => return err("{"),
                    };
                    j = k;
                    let mut hi = lo;
                    if self.s.get(j) == Some(&',') {
                        j += 1;
                        hi = 0;
                        let mut any = false;
                        while j < self.s.len() && self.s[j].is_ascii_digit() {
                            hi = hi * 10 + self.s[j] as usize - 48;
                            any = true;
                            j += 1;
                        }
                        if !any {
                            hi = usize::MAX;
                        }
                    }
                    if self.s.get(j) != Some(&'}') {
                        return err("{");
                    }
                    self.i = j;
                    (lo, hi)
                }
                _ => return Ok(a),
            };
            self.i += 1;
            let mut greedy = !self.f[3];
            if self.peek() == Some('?') {
                self.i += 1;
                greedy = !greedy;
            }
            a = Node::Repeat(Box::new(a), lo, hi, greedy);
        }
    }
    fn escape(&mut self) -> Result<Ranges, Error> {
        let c = match self.peek() {
            Some(c) => c,
            None => return err("trailing backslash"),
        };
        self.i += 1;
        let ascii = self.f[4];
        let one = |c: char| Ok(vec![(c as u32, c as u32)]);
        let class = |u: &[(u32, u32)], a: &[(u32, u32)], neg: bool| {
            let rs = if ascii { a.to_vec() } else { u.to_vec() };
            Ok(if neg { invert(rs) } else { rs })
        };
        match c {
            'n' => one('\n'),
            't' => one('\t'),
            'r' => one('\r'),
            'f' => one('\x0c'),
            'v' => one('\x0b'),
            'a' => one('\x07'),
            'd' | 'D' => class(classes::DIGIT, &[(48, 57)], c == 'D'),
            'w' | 'W' => class(classes::WORD, &[(48, 57), (65, 90), (95, 95), (97, 122)], c == 'W'),
            's' | 'S' => class(classes::SPACE, &[(9, 13), (32, 32)], c == 'S'),
            'p' | 'P' => {
                let name: String = if self.peek() == Some('{') {
                    let n: String = self.s[self.i + 1..].iter().take_while(|c| **c != '}').collect();
                    self.i += n.len() + 2;
                    n
                } else {
                    let n = self.s.get(self.i).copied().unwrap_or(' ').to_string();
                    self.i += 1;
                    n
                };
                let rs: &[(u32, u32)] = match name.as_str() {
                    "L" | "Letter" => classes::LETTER,
                    "Lu" | "Uppercase_Letter" => classes::UPPER,
                    "Ll" | "Lowercase_Letter" => classes::LOWER,
                    "N" | "Number" => classes::NUMBER,
                    "Nd" | "Decimal_Number" => classes::DIGIT,
                    "Alphabetic" | "Alpha" => classes::ALPHABETIC,
                    "White_Space" => classes::SPACE,
                    _ => return err("\\p"),
                };
                Ok(if c == 'P' { invert(rs.to_vec()) } else { rs.to_vec() })
            }
            'x' | 'u' | 'U' => {
                let h: String = if self.peek() == Some('{') {
                    let n: String = self.s[self.i + 1..].iter().take_while(|c| **c != '}').collect();
                    self.i += n.len() + 2;
                    n
                } else {
                    let n = match c {
                        'x' => 2,
                        'u' => 4,
                        _ => 8,
                    };
                    let h = self.s[self.i..(self.i + n).min(self.s.len())].iter().collect();
                    self.i += n;
                    h
                };
                match u32::from_str_radix(&h, 16) {
                    Ok(v) => Ok(vec![(v, v)]),
                    Err(_) => err("\\x"),
                }
            }
            c if c.is_ascii_alphanumeric() => err("escape class"),
            c => one(c),
        }
    }
    fn class(&self, mut rs: Ranges, neg: bool) -> Node {
        if self.f[0] {
            fold(&mut rs, !self.f[4]);
        }
        Node::Class(rs, neg)
    }
    /// Reads flags up to ':' or ')', which it leaves.
    fn flags(&mut self) -> Result<(), Error> {
        let mut on = true;
        loop {
            match self.peek() {
                Some('-') => on = false,
                Some('i') => self.f[0] = on,
                Some('s') => self.f[1] = on,
                Some('m') => self.f[2] = on,
                Some('U') => self.f[3] = on,
                Some('u') => self.f[4] = !on,
                Some(':') | Some(')') => return Ok(()),
                _ => return err("group flags"),
            }
            self.i += 1;
        }
    }
    fn atom(&mut self) -> Result<Node, Error> {
        let c = self.s[self.i];
        self.i += 1;
        match c {
            '^' if self.f[2] => Ok(Node::LineStart),
            '$' if self.f[2] => Ok(Node::LineEnd),
            '^' => Ok(Node::Start),
            '$' => Ok(Node::End),
            '.' if self.f[1] => Ok(Node::Class(vec![(0, MAXC)], false)),
            '.' => Ok(Node::Class(vec![(10, 10)], true)),
            '\\' => match self.s[self.i..] {
                ['A', ..] => {
                    self.i += 1;
                    Ok(Node::Start)
                }
                ['z', ..] => {
                    self.i += 1;
                    Ok(Node::End)
                }
                ['b', ..] => {
                    self.i += 1;
                    Ok(Node::Boundary(true))
                }
                ['B', ..] => {
                    self.i += 1;
                    Ok(Node::Boundary(false))
                }
                _ => {
                    let r = self.escape()?;
                    Ok(self.class(r, false))
                }
            },
            '(' => {
                let mut cap = None;
                let flags = self.f;
                if self.peek() == Some('?') {
                    self.i += 1;
                    let name = match self.s[self.i..] {
                        ['P', '<', ..] => 2,
                        ['<', ..] => 1,
                        _ => 0,
                    };
                    if name > 0 {
                        self.i += name;
                        let n: String = self.s[self.i..].iter().take_while(|c| **c != '>').collect();
                        self.i += n.chars().count() + 1;
                        self.groups += 1;
                        cap = Some(self.groups);
                        self.names.push((n, self.groups));
                    } else {
                        self.flags()?;
                        if self.peek() == Some(')') {
                            self.i += 1;
                            return Ok(Node::Group(vec![vec![]], None));
                        }
                        self.i += 1;
                    }
                } else {
                    self.groups += 1;
                    cap = Some(self.groups);
                }
                let a = self.alts()?;
                self.f = flags;
                if self.peek() != Some(')') {
                    return err("missing )");
                }
                self.i += 1;
                Ok(Node::Group(a, cap))
            }
            '[' => {
                let mut neg = false;
                if self.peek() == Some('^') {
                    neg = true;
                    self.i += 1;
                }
                let mut rs = vec![];
                let mut first = true;
                loop {
                    let c = match self.peek() {
                        None => return err("missing ]"),
                        Some(c) => c,
                    };
                    if c == ']' && !first {
                        self.i += 1;
                        break;
                    }
                    first = false;
                    if c == '[' && self.s.get(self.i + 1) == Some(&':') {
                        let n: String = self.s[self.i + 2..].iter().take_while(|c| **c != ':').collect();
                        self.i += n.len() + 4;
                        let (not, n) = match n.strip_prefix('^') {
                            Some(n) => (true, n),
                            None => (false, &n[..]),
                        };
                        let r: &[(u32, u32)] = match n {
                            "alpha" => &[(65, 90), (97, 122)],
                            "alnum" => &[(48, 57), (65, 90), (97, 122)],
                            "digit" => &[(48, 57)],
                            "lower" => &[(97, 122)],
                            "upper" => &[(65, 90)],
                            "space" => &[(9, 13), (32, 32)],
                            "xdigit" => &[(48, 57), (65, 70), (97, 102)],
                            "word" => &[(48, 57), (65, 90), (95, 95), (97, 122)],
                            _ => return err("named class"),
                        };
                        rs.extend(if not { invert(r.to_vec()) } else { r.to_vec() });
                        continue;
                    }
                    if c == '[' || c == '&' && self.s.get(self.i + 1) == Some(&'&') {
                        return err("nested class");
                    }
                    self.i += 1;
                    let mut lo = c as u32;
                    if c == '\\' {
                        let r = self.escape()?;
                        if r.len() > 1 || r[0].0 != r[0].1 {
                            rs.extend(r);
                            continue;
                        }
                        lo = r[0].0;
                    }
                    let mut hi = lo;
                    if self.peek() == Some('-') && self.s.get(self.i + 1).is_some_and(|c| *c != ']') {
                        self.i += 1;
                        let c = self.s[self.i];
                        self.i += 1;
                        hi = c as u32;
                        if c == '\\' {
                            hi = self.escape()?[0].0;
                        }
                        if hi < lo {
                            return err("bad range");
                        }
                    }
                    rs.push((lo, hi));
                }
                Ok(self.class(rs, neg))
            }
            '*' | '+' | '?' | '{' => err("dangling repetition"),
            c => Ok(self.class(vec![(c as u32, c as u32)], false)),
        }
    }
}

#[inline(never)]
fn in_class(rs: &[(u32, u32)], neg: bool, c: u32) -> bool {
    // branch-free on c
    let mut r = false;
    for &(lo, hi) in rs {
        r |= c.wrapping_sub(lo) <= hi - lo;
    }
    r != neg
}

struct M<'t> {
    text: &'t str,
    caps: Vec<Option<(usize, usize)>>,
}

type K<'k, 't> = &'k mut dyn FnMut(&mut M<'t>, usize) -> bool;

impl<'t> M<'t> {
    fn next(&self, at: usize) -> Option<(u32, usize)> {
        let mut it = self.text[at..].chars();
        let c = it.next()?;
        Some((c as u32, self.text.len() - it.as_str().len()))
    }
    fn seq(&mut self, ns: &[Node], at: usize, k: K<'_, 't>) -> bool {
        match ns.split_first() {
            None => k(self, at),
            Some((n, rest)) => self.node(n, at, &mut |m, p| m.seq(rest, p, k)),
        }
    }
    fn alts(&mut self, a: &[Vec<Node>], at: usize, k: K<'_, 't>) -> bool {
        for b in a {
            if self.seq(b, at, k) {
                return true;
            }
        }
        false
    }
    fn node(&mut self, n: &Node, at: usize, k: K<'_, 't>) -> bool {
        match n {
            Node::Start => at == 0 && k(self, at),
            Node::End => at == self.text.len() && k(self, at),
            Node::LineStart => (at == 0 || self.text.as_bytes()[at - 1] == b'\n') && k(self, at),
            Node::LineEnd => {
                (at == self.text.len() || self.text.as_bytes()[at] == b'\n') && k(self, at)
            }
            Node::Boundary(yes) => {
                let word = |c: Option<char>| c.is_some_and(|c| in_class(classes::WORD, false, c as u32));
                let before = word(self.text[..at].chars().next_back());
                let after = word(self.text[at..].chars().next());
                ((before != after) == *yes) && k(self, at)
            }
            Node::Class(rs, neg) => match self.next(at) {
                Some((c, p)) => {
                    if in_class(rs, *neg, c) {
                        k(self, p)
                    } else {
                        false
                    }
                }
                None => false,
            },
            Node::Group(a, cap) => {
                let cap = *cap;
                self.alts(a, at, &mut |m, p| match cap {
                    None => k(m, p),
                    Some(g) => {
                        let old = m.caps[g];
                        m.caps[g] = Some((at, p));
                        if k(m, p) {
                            return true;
                        }
                        m.caps[g] = old;
                        false
                    }
                })
            }
            Node::Repeat(n, lo, hi, greedy) => {
                // simple single-character loops without recursion per character
                if let (Node::Class(rs, neg), true) = (&**n, *greedy) {
                    let mut ends = vec![at];
                    let mut p = at;
                    while ends.len() <= *hi {
                        match self.next(p) {
                            Some((c, q)) => {
                                if !in_class(rs, *neg, c) {
                                    break;
                                }
                                p = q;
                                ends.push(p);
                            }
                            None => break,
                        }
                    }
                    while ends.len() > *lo {
                        let p = ends.pop().unwrap();
                        if k(self, p) {
                            return true;
                        }
                    }
                    return false;
                }
                self.rep(n, *lo, *hi, *greedy, at, k)
            }
        }
    }
    fn rep(&mut self, n: &Node, lo: usize, hi: usize, greedy: bool, at: usize, k: K<'_, 't>) -> bool {
        if lo > 0 {
            return self.node(n, at, &mut |m, p| m.rep(n, lo - 1, if hi == usize::MAX { hi } else { hi - 1 }, greedy, p, k));
        }
        if greedy {
            if hi > 0
                && self.node(n, at, &mut |m, p| {
                    p != at && m.rep(n, 0, if hi == usize::MAX { hi } else { hi - 1 }, greedy, p, k)
                })
            {
                return true;
            }
            k(self, at)
        } else {
            if k(self, at) {
                return true;
            }
            hi > 0
                && self.node(n, at, &mut |m, p| {
                    p != at && m.rep(n, 0, if hi == usize::MAX { hi } else { hi - 1 }, greedy, p, k)
                })
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> {
    h: &'h str,
    s: usize,
    e: usize,
}
impl<'h> Match<'h> {
    pub fn start(&self) -> usize {
        self.s
    }
    pub fn end(&self) -> usize {
        self.e
    }
    pub fn is_empty(&self) -> bool {
        self.s == self.e
    }
    pub fn len(&self) -> usize {
        self.e - self.s
    }
    pub fn range(&self) -> std::ops::Range<usize> {
        self.s..self.e
    }
    pub fn as_str(&self) -> &'h str {
        &self.h[self.s..self.e]
    }
}
pub struct Captures<'h> {
    h: &'h str,
    c: Vec<Option<(usize, usize)>>,
    names: Vec<(String, usize)>,
}
impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> {
        self.c.get(i).copied().flatten().map(|(s, e)| Match { h: self.h, s, e })
    }
    pub fn name(&self, name: &str) -> Option<Match<'h>> {
        self.names.iter().find(|(n, _)| n == name).and_then(|(_, i)| self.get(*i))
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<Match<'h>>> + '_ {
        (0..self.c.len()).map(|i| self.get(i))
    }
    pub fn len(&self) -> usize {
        self.c.len()
    }
}
impl<'h> std::ops::Index<usize> for Captures<'h> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).unwrap().as_str()
    }
}

impl std::ops::Index<&str> for Captures<'_> {
    type Output = str;
    fn index(&self, i: &str) -> &str {
        self.name(i).unwrap().as_str()
    }
}
impl<'h> From<Match<'h>> for &'h str {
    fn from(m: Match<'h>) -> &'h str {
        m.as_str()
    }
}
impl<'h> From<Match<'h>> for std::ops::Range<usize> {
    fn from(m: Match<'h>) -> Self {
        m.range()
    }
}
impl TryFrom<&str> for Regex {
    type Error = Error;
    fn try_from(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.src)
    }
}

impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}

impl Regex {
    pub fn new(src: &str) -> Result<Regex, Error> {
        let mut p = P { s: src.chars().collect(), i: 0, groups: 0, names: vec![], f: [false; 5], _p: std::marker::PhantomData };
        let alts = p.alts()?;
        if p.i != p.s.len() {
            return err("unbalanced )");
        }
        Ok(Regex { alts, groups: p.groups, names: p.names, src: src.to_string() })
    }
    pub fn as_str(&self) -> &str {
        &self.src
    }
    fn anchored(&self) -> bool {
        self.alts.iter().all(|b| matches!(b.first(), Some(Node::Start)))
    }
    fn run<'h>(&self, h: &'h str, from: usize) -> Option<Captures<'h>> {
        let mut at = from;
        loop {
            let mut m = M { text: h, caps: vec![None; self.groups + 1] };
            let mut end = 0;
            let mut caps = vec![];
            if m.alts(&self.alts, at, &mut |m, p| {
                end = p;
                caps = m.caps.clone();
                true
            }) {
                caps[0] = Some((at, end));
                return Some(Captures { h, c: caps, names: self.names.clone() });
            }
            if self.anchored() {
                return None;
            }
            at = match m.next(at) {
                Some((_, p)) => p,
                None => return None,
            };
        }
    }
    pub fn find<'h>(&self, h: &'h str) -> Option<Match<'h>> {
        self.run(h, 0).and_then(|c| c.get(0))
    }
    pub fn find_at<'h>(&self, h: &'h str, at: usize) -> Option<Match<'h>> {
        self.run(h, at).and_then(|c| c.get(0))
    }
    pub fn is_match(&self, h: &str) -> bool {
        self.run(h, 0).is_some()
    }
    pub fn captures<'h>(&self, h: &'h str) -> Option<Captures<'h>> {
        self.run(h, 0)
    }
    pub fn captures_at<'h>(&self, h: &'h str, at: usize) -> Option<Captures<'h>> {
        self.run(h, at)
    }
    pub fn is_match_at(&self, h: &str, at: usize) -> bool {
        self.run(h, at).is_some()
    }
    pub fn captures_len(&self) -> usize {
        self.groups + 1
    }
    pub fn find_iter<'r, 'h: 'r>(&'r self, h: &'h str) -> impl Iterator<Item = Match<'h>> + 'r {
        let mut at = 0;
        let mut last = None;
        std::iter::from_fn(move || loop {
            if at > h.len() {
                return None;
            }
            let m = self.find_at(h, at)?;
            if m.is_empty() {
                at = m.end() + h[m.end()..].chars().next().map_or(1, char::len_utf8);
                if last == Some(m.end()) {
                    continue;
                }
            } else {
                at = m.end();
            }
            last = Some(m.end());
            return Some(m);
        })
    }
}

#[derive(Clone, Debug)]
pub struct RegexBuilder {
    src: String,
    flags: String,
}
impl RegexBuilder {
    pub fn new(src: &str) -> Self {
        RegexBuilder { src: src.to_string(), flags: String::new() }
    }
    fn set(&mut self, c: char, yes: bool) -> &mut Self {
        self.flags.push_str(&if yes { format!("(?{c})") } else { format!("(?-{c})") });
        self
    }
    pub fn case_insensitive(&mut self, yes: bool) -> &mut Self {
        self.set('i', yes)
    }
    pub fn dot_matches_new_line(&mut self, yes: bool) -> &mut Self {
        self.set('s', yes)
    }
    pub fn multi_line(&mut self, yes: bool) -> &mut Self {
        self.set('m', yes)
    }
    pub fn unicode(&mut self, yes: bool) -> &mut Self {
        self.set('u', yes)
    }
    pub fn swap_greed(&mut self, yes: bool) -> &mut Self {
        self.set('U', yes)
    }
    pub fn build(&self) -> Result<Regex, Error> {
        Regex::new(&format!("{}(?:{})", self.flags, self.src))
    }
}

#[derive(Clone, Debug)]
pub struct RegexSet {
    all: Vec<Regex>,
}
pub struct SetMatches {
    hits: Vec<bool>,
}
impl SetMatches {
    pub fn matched(&self, i: usize) -> bool {
        self.hits[i]
    }
    pub fn matched_any(&self) -> bool {
        self.hits.contains(&true)
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.hits.len()).filter(|i| self.hits[*i])
    }
}
impl IntoIterator for SetMatches {
    type Item = usize;
    type IntoIter = std::vec::IntoIter<usize>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().collect::<Vec<_>>().into_iter()
    }
}
impl RegexSet {
    pub fn new<I: IntoIterator<Item = S>, S: AsRef<str>>(all: I) -> Result<RegexSet, Error> {
        let all = all.into_iter().map(|s| Regex::new(s.as_ref())).collect::<Result<_, _>>()?;
        Ok(RegexSet { all })
    }
    pub fn matches(&self, h: &str) -> SetMatches {
        SetMatches { hits: self.all.iter().map(|r| r.is_match(h)).collect() }
    }
    pub fn is_match(&self, h: &str) -> bool {
        self.all.iter().any(|r| r.is_match(h))
    }
    pub fn len(&self) -> usize {
        self.all.len()
    }
    pub fn is_empty(&self) -> bool {
        self.all.is_empty()
    }
}

pub fn escape(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            out.push('\\');
        }
        out.push(c);
    }
    out
}
