//! C06, C07, C08: the interface that a token sequence declares, read off the tokens by a
//! reference reader, against the one the crate reports.
use crate::feed::*;
use crate::gram::*;
use crate::gram_tab::*;
use crate::rt::*;
use scilla_parser::ast::nodes::NodeProgram;
use scilla_parser::parser::lexer::*;
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::{Contract, Field, Type};

#[derive(Default)]
pub struct X {
    pub name: String,
    pub subs: Vec<X>,
    pub addr: Option<(String, Vec<(String, X)>)>,
    pub bad: bool,
}
pub struct Param {
    pub name: String,
    pub ty: X,
    pub toks: (usize, usize),
}
pub struct Iface {
    pub name: String,
    pub params: Vec<Param>,
    pub fields: Vec<Param>,
    pub transitions: Vec<(String, Vec<Param>)>,
    /// token ranges: header, fields without initialiser, transitions without body
    pub parts: Vec<(u8, usize, usize)>,
}

pub struct R<'a> {
    t: &'a [Tok],
    at: usize,
}
impl<'a> R<'a> {
    pub fn new(t: &'a [Tok]) -> R<'a> {
        R { t, at: 0 }
    }
    fn k(&self) -> u8 {
        if self.at < self.t.len() {
            kind_of(&self.t[self.at])
        } else {
            EOF
        }
    }
    fn ka(&self, d: usize) -> u8 {
        if self.at + d < self.t.len() {
            kind_of(&self.t[self.at + d])
        } else {
            EOF
        }
    }
    fn take(&mut self) -> &'static str {
        let t = &self.t[self.at];
        self.at += 1;
        let k = kind_of(t);
        if k < NFIXED {
            SPELL[k as usize]
        } else {
            text_of(t)
        }
    }
    fn meta_start(&self) -> bool {
        matches!(self.k(), K_BYSTRWITHSIZE | K_EVENTTYPE | K_CUSTOMIDENTIFIER | K_HEXNUMBER | K_BYSTR)
    }
    fn meta(&mut self) -> X {
        let mut n = String::from(self.take());
        if self.k() == K_DOT {
            n.push_str(self.take());
            n.push_str(self.take());
        }
        X { name: n, ..X::default() }
    }
    fn meta_or_addr(&mut self) -> X {
        if self.ka(1) != K_WITH {
            return self.meta();
        }
        let mut x = X { name: self.take().into(), ..X::default() };
        self.take();
        let mut kind = String::new();
        let mut fields = vec![];
        if self.k() != K_END {
            kind = self.take().into();
            while self.k() != K_END {
                self.take(); // field, or the comma before it
                if self.k() == K_FIELD {
                    self.take();
                }
                let mut n = String::from(self.take());
                if self.k() == K_DOT {
                    n.push_str(self.take());
                    n.push_str(self.take());
                }
                self.take();
                let t = self.ty();
                fields.push((n, t));
            }
        }
        self.take();
        x.addr = Some((kind, fields));
        x
    }
    fn map(&mut self) -> X {
        self.take();
        let k = if self.k() == K_OPENPAREN {
            self.take();
            let k = self.meta_or_addr();
            self.take();
            k
        } else {
            self.meta_or_addr()
        };
        let v = self.mval();
        X { name: "Map".into(), subs: vec![k, v], ..X::default() }
    }
    fn mval(&mut self) -> X {
        match self.k() {
            K_MAP => self.map(),
            K_OPENPAREN => {
                self.take();
                let x = self.mvala();
                self.take();
                x
            }
            _ => self.meta_or_addr(),
        }
    }
    fn mvala(&mut self) -> X {
        if !self.meta_start() {
            return self.mval();
        }
        let mut x = self.meta_or_addr();
        loop {
            if self.meta_start() {
                let a = self.meta();
                x.subs.push(a)
            } else if self.k() == K_MAP {
                let a = self.map();
                x.subs.push(a)
            } else if self.k() == K_OPENPAREN {
                self.take();
                let a = self.mvala();
                self.take();
                x.subs.push(a)
            } else {
                return x;
            }
        }
    }
    pub fn ty(&mut self) -> X {
        let x = self.simple();
        if self.k() != K_ARROW {
            return x;
        }
        self.take();
        self.ty();
        X { bad: true, ..X::default() }
    }
    fn simple(&mut self) -> X {
        match self.k() {
            K_MAP => self.map(),
            K_OPENPAREN => {
                self.take();
                let x = self.ty();
                self.take();
                x
            }
            K_FORALL => {
                self.take();
                self.take();
                self.take();
                self.simple();
                X { bad: true, ..X::default() }
            }
            K_TEMPLATEIDENTIFIER => {
                self.take();
                X { bad: true, ..X::default() }
            }
            _ => {
                let mut x = self.meta_or_addr();
                if x.addr.is_some() {
                    return x;
                }
                loop {
                    if self.meta_start() {
                        let a = self.meta_or_addr();
                        x.subs.push(a)
                    } else if self.k() == K_MAP {
                        let a = self.map();
                        x.subs.push(a)
                    } else if self.k() == K_TEMPLATEIDENTIFIER {
                        self.take();
                        x.bad = true
                    } else if self.k() == K_OPENPAREN {
                        self.take();
                        let a = self.ty();
                        self.take();
                        x.subs.push(a)
                    } else {
                        return x;
                    }
                }
            }
        }
    }
    fn param(&mut self) -> Param {
        let from = self.at;
        let name = String::from(self.take());
        self.take();
        let ty = self.ty();
        Param { name, ty, toks: (from, self.at) }
    }
    fn params(&mut self) -> Vec<Param> {
        let mut v = vec![];
        self.take();
        while self.k() != K_CLOSEPAREN {
            if self.k() == K_COMMA {
                self.take();
            }
            let p = self.param();
            v.push(p);
        }
        self.take();
        v
    }
    /// of an accepted program
    pub fn program(&mut self) -> Iface {
        while !(self.k() == K_CONTRACT && kind_of(&self.t[self.at - 1]) != K_WITH) {
            self.at += 1;
        }
        let mut parts = vec![];
        let from = self.at;
        self.take();
        let name = String::from(self.take());
        let params = self.params();
        parts.push((0, from, self.at));
        let (mut fields, mut transitions) = (vec![], vec![]);
        while self.at < self.t.len() {
            let from = self.at;
            let before = kind_of(&self.t[from - 1]);
            match self.k() {
                K_FIELD if before != K_CONTRACT && before != K_COMMA => {
                    self.take();
                    let p = self.param();
                    fields.push(p);
                    parts.push((1, from, self.at));
                }
                K_TRANSITION => {
                    self.take();
                    let n = String::from(self.take());
                    let p = self.params();
                    transitions.push((n, p));
                    parts.push((2, from, self.at));
                }
                _ => self.at += 1,
            }
        }
        Iface { name, params, fields, transitions, parts }
    }
}

fn width(name: &str) -> Option<usize> {
    let b = name.as_bytes();
    if b.len() <= 5 || &b[..5] != b"ByStr" {
        return None;
    }
    let mut n = 0usize;
    for &c in &b[5..] {
        if !(b'0'..=b'9').contains(&c) {
            return None;
        }
        n = n.checked_mul(10)?.checked_add((c - b'0') as usize)?;
    }
    Some(n)
}
const PRIM: [(&str, Type); 11] = [
    ("Int32", Type::Int32), ("Int64", Type::Int64), ("Int128", Type::Int128), ("Int256", Type::Int256),
    ("Uint32", Type::Uint32), ("Uint64", Type::Uint64), ("Uint128", Type::Uint128), ("Uint256", Type::Uint256),
    ("String", Type::String), ("BNum", Type::BNum), ("Bool", Type::Bool),
];
fn arity(name: &str) -> Option<usize> {
    if name == "ByStr" || PRIM.iter().any(|p| p.0 == name) || width(name).is_some() {
        return Some(0);
    }
    match name {
        "Option" | "List" => Some(1),
        "Pair" | "Map" => Some(2),
        _ => None,
    }
}
/// the interface has a type for it
pub fn valid(x: &X) -> bool {
    if x.bad {
        return false;
    }
    if let Some((_, fs)) = &x.addr {
        if x.name != "ByStr20" {
            return false;
        }
        for f in fs {
            if !valid(&f.1) {
                return false;
            }
        }
    }
    if let Some(n) = arity(&x.name) {
        if n != x.subs.len() {
            return false;
        }
    }
    x.subs.iter().all(valid)
}
fn disc(t: &Type) -> u8 {
    match t {
        Type::Int32 => 0,
        Type::Int64 => 1,
        Type::Int128 => 2,
        Type::Int256 => 3,
        Type::Uint32 => 4,
        Type::Uint64 => 5,
        Type::Uint128 => 6,
        Type::Uint256 => 7,
        Type::String => 8,
        Type::BNum => 9,
        Type::Bool => 10,
        Type::Map(..) => 11,
        Type::ByStr => 12,
        Type::ByStrX(..) => 13,
        Type::ByStr20 => 14,
        Type::ByStr20With { .. } => 15,
        Type::Option(..) => 16,
        Type::Pair(..) => 17,
        Type::List(..) => 18,
        Type::Other(..) => 19,
    }
}
/// the reported type is the declared one
pub fn same(x: &X, t: &Type) -> bool {
    match t {
        Type::Map(a, b) => x.name == "Map" && same(&x.subs[0], a) && same(&x.subs[1], b),
        Type::Pair(a, b) => x.name == "Pair" && same(&x.subs[0], a) && same(&x.subs[1], b),
        Type::Option(a) => x.name == "Option" && same(&x.subs[0], a),
        Type::List(a) => x.name == "List" && same(&x.subs[0], a),
        Type::ByStr => x.name == "ByStr",
        Type::ByStr20 => width(&x.name) == Some(20) && x.addr.is_none(),
        Type::ByStrX(n) => *n != 20 && width(&x.name) == Some(*n),
        Type::ByStr20With { type_name, fields } => match &x.addr {
            None => false,
            Some((k, fs)) => {
                if k != type_name || fs.len() != fields.len() {
                    return false;
                }
                for (f, g) in fs.iter().zip(fields.0.iter()) {
                    if f.0 != g.name || !same(&f.1, &g.r#type) {
                        return false;
                    }
                }
                true
            }
        },
        Type::Other(n) => arity(&x.name).is_none() && x.name == *n,
        t => PRIM.iter().any(|p| p.0 == x.name && disc(&p.1) == disc(t)),
    }
}
/// structural equality, independent of the crate's own comparison
pub fn same_type(a: &Type, b: &Type) -> bool {
    match (a, b) {
        (Type::Map(a, b), Type::Map(c, d)) | (Type::Pair(a, b), Type::Pair(c, d)) => same_type(a, c) && same_type(b, d),
        (Type::Option(a), Type::Option(c)) | (Type::List(a), Type::List(c)) => same_type(a, c),
        (Type::ByStrX(n), Type::ByStrX(m)) => n == m,
        (Type::ByStr20With { type_name: a, fields: f }, Type::ByStr20With { type_name: b, fields: g }) => a == b && same_fields(&f.0, &g.0),
        (Type::Other(a), Type::Other(b)) => a == b,
        (a, b) => disc(a) == disc(b),
    }
}
pub fn same_fields(a: &[Field], b: &[Field]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i].name != b[i].name || !same_type(&a[i].r#type, &b[i].r#type) {
            return false;
        }
    }
    true
}
pub fn same_contract(a: &Contract, b: &Contract) -> bool {
    if a.name != b.name || !same_fields(&a.init_params.0, &b.init_params.0) || !same_fields(&a.fields.0, &b.fields.0) {
        return false;
    }
    if a.transitions.0.len() != b.transitions.0.len() {
        return false;
    }
    for (x, y) in a.transitions.0.iter().zip(b.transitions.0.iter()) {
        if x.name != y.name || !same_fields(&x.params.0, &y.params.0) {
            return false;
        }
    }
    true
}

fn fields(x: &[Param], got: &[Field], code: u32) {
    check(x.len() == got.len(), code);
    for (a, b) in x.iter().zip(got.iter()) {
        check(a.name == b.name, code + 1);
        check(valid(&a.ty) && same(&a.ty, &b.r#type), 601);
    }
}
pub fn compare(want: &Iface, got: &Result<Contract, String>) {
    let ok = want.params.iter().all(|p| valid(&p.ty))
        && want.fields.iter().all(|p| valid(&p.ty))
        && want.transitions.iter().all(|t| t.1.iter().all(|p| valid(&p.ty)));
    describe(|| format!("declared types expressible: {ok}; reported: {got:?}"));
    match got {
        Ok(c) => {
            check(ok, 602);
            check(want.name == c.name, 701);
            fields(&want.params, &c.init_params.0, 702);
            fields(&want.fields, &c.fields.0, 704);
            check(want.transitions.len() == c.transitions.0.len(), 706);
            for (a, b) in want.transitions.iter().zip(c.transitions.0.iter()) {
                check(a.0 == b.name, 707);
                fields(&a.1, &b.params.0, 708);
            }
            reach(601);
            observe(c.init_params.0.len() as u64 + 16 * c.fields.0.len() as u64 + 256 * c.transitions.0.len() as u64);
        }
        Err(_) => {
            check(!ok, 603);
            check(!ok, 710);
            reach(602);
            observe(99)
        }
    }
}

/// the same declarations with everything else left out
fn stripped(i: &Iface, t: &[Tok]) -> Vec<Tok> {
    let mut v = toks("scilla_version 0");
    for &(kind, from, to) in &i.parts {
        for x in &t[from..to] {
            v.push(x.clone())
        }
        match kind {
            1 => v.extend([Token::Equals, Token::Identifier("x")]),
            2 => v.push(Token::End),
            _ => {}
        }
    }
    v
}

/// an accepted program and its tokens
pub fn examine(t: &[Tok], p: &NodeProgram) {
    let want = R::new(t).program();
    let got = SrEmitter::default().emit(p);
    compare(&want, &got);
    if enabled(801) {
        alone(&want, t, &got)
    }
    if enabled(1201) {
        if let Ok(c) = &got {
            reprint(c)
        }
    }
}
/// C12: every type of the contract, printed and declared again
pub fn reprint(c: &Contract) {
    let mut all: Vec<&Type> = vec![];
    for f in c.init_params.0.iter().chain(c.fields.0.iter()).chain(c.transitions.0.iter().flat_map(|t| t.params.0.iter())) {
        all.push(&f.r#type)
    }
    if all.is_empty() {
        return;
    }
    let mut s = String::from("scilla_version 0 contract C(");
    for (i, t) in all.iter().enumerate() {
        s.push_str(if i == 0 { "a : " } else { ", b : " });
        s.push_str(&t.to_string());
    }
    s.push_str(") field f : ");
    s.push_str(&all[0].to_string());
    s.push_str(" = x transition T(p : ");
    s.push_str(&all[all.len() - 1].to_string());
    s.push_str(") end");
    describe(|| format!("declared again: {s}"));
    let r = s.parse::<Contract>();
    describe(|| format!("reported: {r:?}"));
    match r {
        Ok(d) => {
            check(d.init_params.0.len() == all.len(), 1202);
            for (a, b) in all.iter().zip(d.init_params.0.iter()) {
                check(same_type(a, &b.r#type), 1203);
            }
            check(d.fields.0.len() == 1 && d.transitions.0.len() == 1 && d.transitions.0[0].params.0.len() == 1, 1204);
            check(same_type(&d.fields.0[0].r#type, &d.init_params.0[0].r#type), 1205);
            check(same_type(&d.transitions.0[0].params.0[0].r#type, &d.init_params.0[all.len() - 1].r#type), 1206);
            reach(1201);
        }
        Err(_) => check(false, 1201),
    }
}

pub fn alone(want: &Iface, t: &[Tok], got: &Result<Contract, String>) {
    let s = stripped(want, t);
    let mut errors = vec![];
    let it = s.into_iter().enumerate().map(|(i, t)| Ok((start_of(i), t, end_of(i))));
    match ProgramParser::new().parse(&mut errors, it) {
        Ok(q) => {
            let other = SrEmitter::default().emit(&q);
            describe(|| format!("declarations alone: {other:?}"));
            let eq = match (got, &other) {
                (Ok(a), Ok(b)) => same_contract(a, b),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            check(eq, 801);
            reach(801);
        }
        Err(_) => check(false, 802),
    }
}

/// whether the reference grammar accepts the tokens
pub fn derivable(t: &[Tok]) -> bool {
    let mut o = Oracle::new();
    for x in t {
        let k = kind_of(x);
        if k >= EOF || k == UNKNOWN || (o.viable() >> k) & 1 == 0 {
            return false;
        }
        o.advance(k);
    }
    (o.viable() >> EOF) & 1 == 1
}

/// a whole source text through the public entry point
pub fn full(s: &'static str) {
    describe(|| format!("source: {s:?}"));
    let t: Vec<Tok> = crate::lexref::tokens(s).into_iter().map(|x| make(x.kind, &s[x.start..x.end])).collect();
    let got = s.parse::<Contract>();
    let ok = derivable(&t);
    describe(|| format!("the grammar derives it: {ok}"));
    if !ok {
        describe(|| format!("reported: {got:?}"));
        check(got.is_err(), 906);
        check(got.is_err(), 604);
        check(got.is_err(), 711);
        check(got.is_err(), 803);
        reach(603);
        observe(7);
        return;
    }
    let want = R::new(&t).program();
    let got = got.map_err(|e| format!("{e:?}"));
    compare(&want, &got);
    if enabled(801) {
        alone(&want, &t, &got)
    }
    if enabled(1201) {
        if let Ok(c) = &got {
            reprint(c)
        }
    }
}

/// the verdict and the interface the reference reading asks for
pub fn agrees(want: &Iface, got: &Result<Contract, String>) -> bool {
    let list = |x: &[Param], y: &[Field]| x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| a.name == b.name && same(&a.ty, &b.r#type));
    let ok = want.params.iter().all(|p| valid(&p.ty))
        && want.fields.iter().all(|p| valid(&p.ty))
        && want.transitions.iter().all(|t| t.1.iter().all(|p| valid(&p.ty)));
    match got {
        Err(_) => !ok,
        Ok(c) => {
            ok && want.name == c.name
                && list(&want.params, &c.init_params.0)
                && list(&want.fields, &c.fields.0)
                && want.transitions.len() == c.transitions.0.len()
                && want.transitions.iter().zip(c.transitions.0.iter()).all(|(a, b)| a.0 == b.name && list(&a.1, &b.params.0))
        }
    }
}
