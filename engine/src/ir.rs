//! Lazy parser for textual LLVM IR (whole-program module emitted by rustc).
use crate::expr::mask64;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}
impl Val {
    #[inline(always)]
    pub fn c(&self) -> Option<u64> {
        if let Val::C(x) = self {
            Some(*x)
        } else {
            None
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64 / 8).min(16),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64) + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (_, s) = self.fields();
                s
            }
            _ => 0,
        }
    }
    pub fn fields(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, p) = self {
            let mut o = 0u64;
            let mut v = vec![];
            for t in f.iter() {
                if !*p {
                    let a = t.align();
                    o = (o + a - 1) / a * a;
                }
                v.push(o);
                o += t.size();
            }
            if !*p {
                let a = self.align();
                o = (o + a - 1) / a * a;
            }
            (v, o)
        } else {
            panic!("fields of non-struct")
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Slot(u32),
    C(u64),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
}
pub use crate::expr::BinOp;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ucmp,
    Scmp,
    Memcpy,
    Memmove,
    Memset,
    Expect,
    IsConstant,
    Tls,
    LoadRel,
    Trap,
    RedAdd,
    RedOr,
    RedAnd,
    RedXor,
    RedUmax,
    RedUmin,
    Zero,
    Other(&'static str),
}
impl Intr {
    pub fn parse(n: &'static str) -> Intr {
        use Intr::*;
        let s = &n[5..];
        let t: &[(&str, Intr)] = &[
            ("umax.", Umax),
            ("umin.", Umin),
            ("smax.", Smax),
            ("smin.", Smin),
            ("abs.", Abs),
            ("ctlz.", Ctlz),
            ("cttz.", Cttz),
            ("ctpop.", Ctpop),
            ("bswap.", Bswap),
            ("bitreverse.", Bitreverse),
            ("fshl.", Fshl),
            ("fshr.", Fshr),
            ("uadd.sat", UaddSat),
            ("usub.sat", UsubSat),
            ("sadd.sat", SaddSat),
            ("ssub.sat", SsubSat),
            ("uadd.with.overflow", UaddO),
            ("usub.with.overflow", UsubO),
            ("umul.with.overflow", UmulO),
            ("sadd.with.overflow", SaddO),
            ("ssub.with.overflow", SsubO),
            ("smul.with.overflow", SmulO),
            ("ucmp.", Ucmp),
            ("scmp.", Scmp),
            ("memcpy.", Memcpy),
            ("memmove.", Memmove),
            ("memset.", Memset),
            ("expect", Expect),
            ("is.constant", IsConstant),
            ("threadlocal.address", Tls),
            ("load.relative", LoadRel),
            ("trap", Trap),
            ("ubsantrap", Trap),
            ("vector.reduce.add", RedAdd),
            ("vector.reduce.or", RedOr),
            ("vector.reduce.and", RedAnd),
            ("vector.reduce.xor", RedXor),
            ("vector.reduce.umax", RedUmax),
            ("vector.reduce.umin", RedUmin),
            ("x86.xgetbv", Zero),
            ("launder.invariant", Expect),
            ("strip.invariant", Expect),
            ("invariant.start", Zero),
            ("stacksave", Zero),
            ("stackrestore", Zero),
            ("objectsize", Other("objectsize")),
        ];
        for (p, i) in t {
            if s.starts_with(p) {
                return *i;
            }
        }
        Other(n)
    }
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opnd),
    Intrinsic(Intr),
    Asm,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, lanes: u32, a: Opnd, b: Opnd, dst: u32 },
    Icmp { p: Pred, w: u32, lanes: u32, a: Opnd, b: Opnd, dst: u32 },
    Cast { k: Cast, from: Ty, to: Ty, a: Opnd, dst: u32 },
    Load { ty: Ty, p: Opnd, dst: u32 },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)>, dst: u32 },
    Select { c: Opnd, lanes: u32, ty: Ty, a: Opnd, b: Opnd, dst: u32 },
    Freeze { a: Opnd, dst: u32 },
    Call { callee: Callee, args: Vec<Opnd>, tys: Vec<Ty>, ret: Ty, dst: Option<u32>, next: Option<u32> },
    Alloca { size: u64, dst: u32 },
    Extract { a: Opnd, path: Vec<u32>, dst: u32 },
    Insert { a: Opnd, v: Opnd, path: Vec<u32>, dst: u32 },
    ExtElem { a: Opnd, i: Opnd, dst: u32 },
    InsElem { a: Opnd, v: Opnd, i: Opnd, dst: u32 },
    Shuffle { a: Opnd, b: Opnd, n: u32, m: Vec<u32>, dst: u32 },
    Rmw { op: &'static str, w: u32, p: Opnd, v: Opnd, dst: u32 },
    CmpXchg { ty: Ty, p: Opnd, c: Opnd, n: Opnd, dst: u32 },
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u32, v: Opnd, cases: Vec<(u64, u32)>, def: u32 },
    Ret(Option<Opnd>),
    Unreachable,
    Nop,
    Unsupported(&'static str),
}

#[derive(Debug, Default)]
pub struct Block {
    /// (dst, [(pred block, value)])
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: &'static str,
    pub id: u32,
    pub params: Vec<u32>,
    pub nslots: u32,
    pub blocks: Vec<Block>,
}

pub enum FDef {
    Defined(&'static str),
    Declared,
}
pub struct FEntry {
    pub name: &'static str,
    pub def: FDef,
    pub parsed: Option<&'static Func>,
}
pub struct GEntry {
    pub name: &'static str,
    pub text: &'static str, // after '='
    pub constant: bool,
    pub external: bool,
}
#[derive(Clone, Copy)]
pub enum GRef {
    Func(u32),
    Var(u32),
    Alias(&'static str),
}

pub const FUNC_BASE: u64 = 0xF000_0000_0000_0000;

pub struct Module {
    pub funcs: Vec<FEntry>,
    pub globals: Vec<GEntry>,
    pub names: HashMap<&'static str, GRef>,
    pub types: HashMap<&'static str, &'static str>,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module { funcs: vec![], globals: vec![], names: HashMap::new(), types: HashMap::new() };
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let eol = memchr(b'\n', &b[pos..]).map(|i| pos + i).unwrap_or(b.len());
            let line = &text[pos..eol];
            if line.starts_with('@') {
                let (name, rest) = split_name(&line[1..]);
                let rest = rest.trim_start().strip_prefix('=').unwrap_or("").trim_start();
                // strip linkage words
                let mut p = P { s: rest, i: 0 };
                let mut constant = false;
                let mut external = false;
                let mut alias = false;
                loop {
                    p.ws();
                    let w = p.word();
                    match w {
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "alias" | "ifunc" => {
                            alias = true;
                            break;
                        }
                        "" => {
                            break;
                        }
                        _ => {
                            if p.peek() == b'(' {
                                p.balanced();
                            }
                        }
                    }
                }
                if alias {
                    // alias <ty>, ptr @target
                    if let Some(k) = rest.rfind('@') {
                        let (t, _) = split_name(&rest[k + 1..]);
                        m.names.insert(name, GRef::Alias(t));
                    }
                } else {
                    p.ws();
                    let gid = m.globals.len() as u32 + 1;
                    m.globals.push(GEntry { name, text: &rest[p.i..], constant, external });
                    m.names.insert(name, GRef::Var(gid));
                }
            } else if line.starts_with("define") || line.starts_with("declare") {
                let k = find_at(line);
                let (name, _) = split_name(&line[k + 1..]);
                let fid = m.funcs.len() as u32;
                if line.starts_with("define") {
                    // body runs until a line "}"
                    let mut e = eol;
                    loop {
                        let n = memchr(b'\n', &b[e + 1..]).map(|i| e + 1 + i).unwrap_or(b.len());
                        if &text[e + 1..n] == "}" {
                            e = n;
                            break;
                        }
                        e = n;
                    }
                    m.funcs.push(FEntry { name, def: FDef::Defined(&text[pos..e]), parsed: None });
                    m.names.insert(name, GRef::Func(fid));
                    pos = e + 1;
                    continue;
                } else {
                    m.funcs.push(FEntry { name, def: FDef::Declared, parsed: None });
                    m.names.insert(name, GRef::Func(fid));
                }
            } else if line.starts_with('%') {
                let (name, rest) = split_name(&line[1..]);
                if let Some(r) = rest.trim_start().strip_prefix("= type ") {
                    m.types.insert(name, r);
                }
            }
            pos = eol + 1;
        }
        m
    }
    pub fn resolve(&self, name: &str) -> Option<GRef> {
        let mut n = name;
        for _ in 0..8 {
            match self.names.get(n) {
                Some(GRef::Alias(t)) => n = t,
                Some(r) => return Some(*r),
                None => return None,
            }
        }
        None
    }
    pub fn addr(&self, name: &str) -> Option<u64> {
        Some(match self.resolve(name)? {
            GRef::Func(f) => FUNC_BASE + (f as u64) * 16,
            GRef::Var(g) => (g as u64) << 32,
            _ => return None,
        })
    }
    pub fn func(&mut self, fid: u32) -> Result<&'static Func, String> {
        if let Some(f) = self.funcs[fid as usize].parsed {
            return Ok(f);
        }
        let e = &self.funcs[fid as usize];
        let text = match e.def {
            FDef::Defined(t) => t,
            FDef::Declared => return Err(format!("call of undefined function {}", e.name)),
        };
        let name = e.name;
        let f = FuncParser::parse(self, text, name, fid)?;
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[fid as usize].parsed = Some(f);
        Ok(f)
    }
    /// Initial bytes of a global variable.
    pub fn global_bytes(&self, gid: u32) -> Result<(Vec<u8>, bool), String> {
        let g = &self.globals[gid as usize - 1];
        let mut p = P { s: g.text, i: 0 };
        let ty = p.ty(self)?;
        let mut buf = vec![0u8; ty.size() as usize];
        if !g.external {
            let v = p.constant(self, &ty)?;
            put_const(&ty, &v, &mut buf, 0);
        }
        Ok((buf, g.constant))
    }
}

pub fn put_const(ty: &Ty, v: &Val, buf: &mut [u8], off: usize) {
    match (ty, v) {
        (Ty::Arr(_, t), Val::A(a)) => {
            let s = t.size() as usize;
            for (i, x) in a.iter().enumerate() {
                put_const(t, x, buf, off + i * s)
            }
        }
        (Ty::Vec(_, t), Val::A(a)) => {
            let s = t.size() as usize;
            for (i, x) in a.iter().enumerate() {
                put_const(t, x, buf, off + i * s)
            }
        }
        (Ty::Struct(f, _), Val::A(a)) => {
            let (o, _) = ty.fields();
            for i in 0..f.len() {
                put_const(&f[i], &a[i], buf, off + o[i] as usize)
            }
        }
        (_, Val::C(c)) => {
            let n = ((ty.bits() + 7) / 8) as usize;
            buf[off..off + n.min(8)].copy_from_slice(&c.to_le_bytes()[..n.min(8)]);
        }
        (_, Val::W(c)) => {
            let n = ((ty.bits() + 7) / 8) as usize;
            buf[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
        }
        _ => {}
    }
}

pub fn zero_of(ty: &Ty) -> Val {
    match ty {
        Ty::Vec(n, t) => Val::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Arr(n, t) => Val::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => Val::C(0),
    }
}

fn memchr(c: u8, b: &[u8]) -> Option<usize> {
    b.iter().position(|x| *x == c)
}
fn find_at(line: &str) -> usize {
    // the first '@' outside quotes/parens of attributes is the function name
    line.find('@').unwrap()
}
fn split_name(s: &'static str) -> (&'static str, &'static str) {
    let b = s.as_bytes();
    if b.first() == Some(&b'"') {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], &s[e + 1..])
    } else {
        let mut i = 0;
        while i < b.len() && is_name(b[i]) {
            i += 1
        }
        (&s[..i], &s[i..])
    }
}

pub struct P {
    pub s: &'static str,
    pub i: usize,
}
type R<T> = Result<T, String>;
impl P {
    fn b(&self) -> &'static [u8] {
        self.s.as_bytes()
    }
    fn peek(&self) -> u8 {
        *self.b().get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at: {}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> &'static str {
        let e = (self.i + 120).min(self.s.len());
        self.s.get(self.i..e).unwrap_or("")
    }
    fn word(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        while is_name(self.peek()) && self.peek() != b'-' {
            self.i += 1
        }
        &self.s[st..self.i]
    }
    fn kw(&mut self, k: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(k) {
            let n = *self.b().get(self.i + k.len()).unwrap_or(&0);
            if !(n.is_ascii_alphanumeric() || n == b'_' || n == b'.') {
                self.i += k.len();
                return true;
            }
        }
        false
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.peek() != b'"' && self.peek() != 0 {
                        self.i += 1
                    }
                }
                0 => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&self) -> bool {
        let c = self.peek();
        if matches!(c, b'{' | b'[' | b'<' | b'%') {
            return true;
        }
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && is_name(self.b()[j]) {
            j += 1
        }
        let w = &self.s[st..j];
        match w {
            "ptr" | "void" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "metadata" | "label" | "token" | "bfloat" => true,
            _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()),
        }
    }
    /// skip attributes until a type is found
    fn skip_to_type(&mut self) {
        loop {
            self.ws();
            if self.at_type() {
                return;
            }
            self.skip_attr();
        }
    }
    fn skip_attr(&mut self) {
        self.ws();
        let c = self.peek();
        if c == b'#' {
            self.i += 1;
            while self.peek().is_ascii_digit() {
                self.i += 1
            }
            return;
        }
        if c == b'"' {
            self.i += 1;
            while self.peek() != b'"' && self.peek() != 0 {
                self.i += 1
            }
            self.i += 1;
            if self.peek() == b'=' {
                self.i += 1;
                if self.peek() == b'"' {
                    self.skip_attr();
                }
            }
            return;
        }
        let st = self.i;
        while is_name(self.peek()) {
            self.i += 1
        }
        if self.i == st {
            self.i += 1;
            return;
        }
        if self.peek() == b'(' {
            self.balanced();
        } else if &self.s[st..self.i] == "align" {
            self.ws();
            while self.peek().is_ascii_digit() {
                self.i += 1
            }
        }
    }
    pub fn ty(&mut self, m: &Module) -> R<Ty> {
        self.ws();
        let c = self.peek();
        let t = match c {
            b'{' => {
                self.i += 1;
                Ty::Struct(Rc::new(self.tylist(m, b'}')?), false)
            }
            b'[' => {
                self.i += 1;
                let n = self.num()?;
                if !self.kw("x") {
                    return Err("array type".into());
                }
                let t = self.ty(m)?;
                self.expect(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let l = self.tylist(m, b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(Rc::new(l), true)
                } else {
                    let n = self.num()?;
                    if !self.kw("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty(m)?;
                    self.expect(b'>')?;
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            b'%' => {
                let (n, rest) = split_name(&self.s[self.i + 1..]);
                self.i = self.s.len() - rest.len();
                let def = m.types.get(n).ok_or_else(|| format!("unknown type %{n}"))?;
                let mut p = P { s: def, i: 0 };
                p.ty(m)?
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.s[self.i..].starts_with(" addrspace(") {
                            self.i += 11;
                            while self.peek() != b')' {
                                self.i += 1
                            }
                            self.i += 1;
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" | "bfloat" => Ty::Float(16),
                    "x86_fp80" => Ty::Float(80),
                    "fp128" => Ty::Float(128),
                    "metadata" => Ty::Meta,
                    "label" | "token" => Ty::Label,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
                    _ => return Err(format!("type? {} at {}", w, self.rest())),
                }
            }
        };
        Ok(t)
    }
    fn tylist(&mut self, m: &Module, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(m)?);
            if self.eat(b',') {
                continue;
            }
            self.expect(end)?;
            return Ok(v);
        }
    }
    fn num(&mut self) -> R<u64> {
        self.ws();
        let st = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1
        }
        self.s[st..self.i].parse().map_err(|_| format!("number at {}", self.rest()))
    }
    /// constant of the given type
    pub fn constant(&mut self, m: &Module, ty: &Ty) -> R<Val> {
        self.ws();
        let c = self.peek();
        match c {
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                if c == b'-' {
                    self.i += 1
                }
                while matches!(self.peek(), b'0'..=b'9' | b'.' | b'e' | b'+' | b'-' | b'x' | b'A'..=b'F' | b'a'..=b'f' | b'K' | b'L' | b'H') {
                    self.i += 1
                }
                let t = &self.s[st..self.i];
                if let Ty::Float(w) = ty {
                    let bits = if let Some(h) = t.strip_prefix("0x") {
                        let h = h.trim_start_matches(['K', 'L', 'H', 'M', 'R']);
                        let v = u64::from_str_radix(h, 16).unwrap_or(0);
                        if *w == 32 {
                            (f64::from_bits(v) as f32).to_bits() as u64
                        } else {
                            v
                        }
                    } else {
                        let f: f64 = t.parse().map_err(|_| format!("float {t}"))?;
                        if *w == 32 {
                            (f as f32).to_bits() as u64
                        } else {
                            f.to_bits()
                        }
                    };
                    return Ok(Val::C(bits));
                }
                let w = ty.bits();
                let v: i128 = match t.parse::<i128>() {
                    Ok(v) => v,
                    Err(_) => t.parse::<u128>().map_err(|_| format!("int {t}"))? as i128,
                };
                if w > 64 {
                    let v = v as u128 & crate::expr::mask(w);
                    return Ok(norm_wide(v, w));
                }
                Ok(Val::C(v as u64 & mask64(w)))
            }
            b'@' => {
                let (n, rest) = split_name(&self.s[self.i + 1..]);
                self.i = self.s.len() - rest.len();
                Ok(Val::C(m.addr(n).ok_or_else(|| format!("unknown global @{n}"))?))
            }
            b'c' if self.b().get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                loop {
                    let c = self.peek();
                    self.i += 1;
                    match c {
                        b'"' => break,
                        b'\\' => {
                            if self.peek() == b'\\' {
                                self.i += 1;
                                v.push(Val::C(b'\\' as u64));
                            } else {
                                let h = &self.s[self.i..self.i + 2];
                                v.push(Val::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                                self.i += 2;
                            }
                        }
                        _ => v.push(Val::C(c as u64)),
                    }
                }
                Ok(Val::A(Rc::new(v)))
            }
            b'{' | b'[' => {
                self.i += 1;
                self.constlist(m, if c == b'{' { b'}' } else { b']' })
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.constlist(m, b'}')?;
                    self.expect(b'>')?;
                    Ok(v)
                } else {
                    self.constlist(m, b'>')
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "null" | "none" | "false" => Ok(Val::C(0)),
                    "true" => Ok(Val::C(1)),
                    "undef" | "poison" | "zeroinitializer" => Ok(zero_of(ty)),
                    "splat" => {
                        self.expect(b'(')?;
                        let t = self.ty(m)?;
                        let v = self.constant(m, &t)?;
                        self.expect(b')')?;
                        if let Ty::Vec(n, _) = ty {
                            Ok(Val::A(Rc::new(vec![v; *n as usize])))
                        } else {
                            Err("splat of non-vector".into())
                        }
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext" => {
                        self.expect(b'(')?;
                        let t = self.ty(m)?;
                        let v = self.constant(m, &t)?;
                        if !self.kw("to") {
                            return Err("const cast".into());
                        }
                        let t2 = self.ty(m)?;
                        self.expect(b')')?;
                        match v {
                            Val::C(c) if t2.bits() <= 64 => {
                                let c = if w == "sext" { crate::expr::sx(c as u128, t.bits()) as u64 } else { c };
                                Ok(Val::C(c & mask64(t2.bits())))
                            }
                            v => Ok(v),
                        }
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                        while self.peek() != b'(' {
                            self.skip_attr();
                            self.ws();
                        }
                        self.expect(b'(')?;
                        let t = self.ty(m)?;
                        let a = self.constant(m, &t)?;
                        self.expect(b',')?;
                        let t2 = self.ty(m)?;
                        let b = self.constant(m, &t2)?;
                        self.expect(b')')?;
                        let (a, b) = match (a, b) {
                            (Val::C(a), Val::C(b)) => (a, b),
                            _ => return Err("const expr".into()),
                        };
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            "or" => a | b,
                            _ => a << b,
                        };
                        Ok(Val::C(r & mask64(t.bits())))
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            self.skip_attr();
                            self.ws();
                        }
                        self.expect(b'(')?;
                        let t = self.ty(m)?;
                        self.expect(b',')?;
                        let pt = self.ty(m)?;
                        let base = self.constant(m, &pt)?;
                        let mut addr = base.c().ok_or("gep base")?;
                        let mut cur = t;
                        let mut first = true;
                        while self.eat(b',') {
                            self.ws();
                            if self.s[self.i..].starts_with("inrange") {
                                self.skip_attr();
                            }
                            let it = self.ty(m)?;
                            let iv = self.constant(m, &it)?.c().ok_or("gep idx")?;
                            let iv = crate::expr::sx(iv as u128, it.bits()) as i64;
                            let (d, nt) = gep_step(&cur, iv, first)?;
                            addr = addr.wrapping_add(d as u64);
                            cur = nt;
                            first = false;
                        }
                        self.expect(b')')?;
                        Ok(Val::C(addr))
                    }
                    "dso_local_equivalent" | "no_cfi" => self.constant(m, ty),
                    _ => Err(format!("constant? '{}' at {}", w, self.rest())),
                }
            }
        }
    }
    fn constlist(&mut self, m: &Module, end: u8) -> R<Val> {
        let mut v = vec![];
        if !self.eat(end) {
            loop {
                let t = self.ty(m)?;
                v.push(self.constant(m, &t)?);
                if self.eat(b',') {
                    continue;
                }
                self.expect(end)?;
                break;
            }
        }
        Ok(Val::A(Rc::new(v)))
    }
}

pub fn norm_wide(v: u128, w: u32) -> Val {
    if w <= 64 {
        Val::C(v as u64)
    } else {
        Val::W(Rc::new(v))
    }
}

fn gep_step(cur: &Ty, iv: i64, first: bool) -> R<(i64, Ty)> {
    if first {
        return Ok((iv.wrapping_mul(cur.size() as i64), cur.clone()));
    }
    match cur {
        Ty::Arr(_, t) | Ty::Vec(_, t) => Ok((iv.wrapping_mul(t.size() as i64), (**t).clone())),
        Ty::Struct(f, _) => {
            let (o, _) = cur.fields();
            Ok((o[iv as usize] as i64, f[iv as usize].clone()))
        }
        _ => Err("gep into scalar".into()),
    }
}

struct FuncParser<'a> {
    m: &'a Module,
    slots: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
    nblocks: u32,
}
impl<'a> FuncParser<'a> {
    fn slot(&mut self, n: &'static str) -> u32 {
        let k = self.slots.len() as u32;
        *self.slots.entry(n).or_insert(k)
    }
    fn block(&mut self, n: &'static str) -> u32 {
        if let Some(&b) = self.blocks.get(n) {
            return b;
        }
        let k = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, k);
        k
    }
    fn parse(m: &'a Module, text: &'static str, name: &'static str, id: u32) -> R<Func> {
        let mut fp = FuncParser { m, slots: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        let mut lines = text.split('\n');
        let head = lines.next().unwrap();
        let at = head.find('@').unwrap();
        let (_, rest) = split_name(&head[at + 1..]);
        let mut p = P { s: rest, i: 0 };
        p.expect(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        p.ws();
        if !p.eat(b')') {
            loop {
                p.ws();
                if p.s[p.i..].starts_with("...") {
                    p.i += 3;
                    p.expect(b')')?;
                    break;
                }
                let _ = p.ty(m)?;
                loop {
                    p.ws();
                    match p.peek() {
                        b'%' | b',' | b')' => break,
                        _ => p.skip_attr(),
                    }
                }
                let nm: &'static str = if p.peek() == b'%' {
                    let (n, r) = split_name(&p.s[p.i + 1..]);
                    p.i = p.s.len() - r.len();
                    n
                } else {
                    Box::leak(unnamed.to_string().into_boxed_str())
                };
                if nm.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let s = fp.slot(nm);
                params.push(s);
                if p.eat(b',') {
                    continue;
                }
                p.expect(b')')?;
                break;
            }
        }
        // collect logical lines
        let mut blocks: Vec<Block> = vec![];
        let mut order: Vec<u32> = vec![];
        let mut cur: Option<usize> = None;
        let mut pending: Vec<(usize, &'static str)> = vec![];
        let base = text.as_ptr() as usize;
        let mut joined: Option<(usize, usize, u8)> = None; // start, end, kind
        let mut out: Vec<(Option<&'static str>, &'static str)> = vec![]; // label or instr
        let mut logical: Vec<&'static str> = vec![];
        let flush = |j: &mut Option<(usize, usize, u8)>, l: &mut Vec<&'static str>| {
            if let Some((a, b, _)) = j.take() {
                l.push(&text[a..b]);
            }
        };
        for line in lines {
            let t = line.trim();
            if t.is_empty() || t == "}" {
                continue;
            }
            let st = line.as_ptr() as usize - base;
            let en = st + line.len();
            if let Some((_, e, k)) = joined.as_mut() {
                let cont = match *k {
                    b's' => true,
                    b'i' => t.starts_with("to label"),
                    b'l' => t == "cleanup" || t.starts_with("catch ") || t.starts_with("filter "),
                    _ => false,
                };
                if cont {
                    *e = en;
                    if *k == b's' && t.starts_with(']') {
                        flush(&mut joined, &mut logical);
                    }
                    continue;
                }
                flush(&mut joined, &mut logical);
            }
            if t.starts_with("switch ") && t.ends_with('[') {
                joined = Some((st, en, b's'));
            } else if t.contains("invoke ") {
                joined = Some((st, en, b'i'));
            } else if t.contains("landingpad ") {
                joined = Some((st, en, b'l'));
            } else {
                logical.push(&text[st..en]);
            }
        }
        flush(&mut joined, &mut logical);
        for l in logical {
            let t = l.trim();
            if t.starts_with(';') {
                continue;
            }
            let is_label = !l.starts_with(' ');
            if is_label {
                let (n, _) = split_name(l);
                out.push((Some(n), ""));
            } else {
                out.push((None, t));
            }
        }
        for (lab, t) in out {
            if let Some(n) = lab {
                let b = fp.block(n);
                order.push(b);
                blocks.push(Block::default());
                cur = Some(blocks.len() - 1);
            } else {
                if cur.is_none() {
                    // implicit entry label
                    let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                    let b = fp.block(n);
                    order.push(b);
                    blocks.push(Block::default());
                    cur = Some(0);
                }
                pending.push((cur.unwrap(), t));
            }
        }
        for (b, t) in pending {
            if let Some((dst, phi)) = fp.phi(t)? {
                blocks[b].phis.push((dst, phi));
                continue;
            }
            let inst = match fp.inst(t) {
                Ok(i) => i,
                Err(e) => Inst::Unsupported(Box::leak(format!("{e} in `{t}`").into_boxed_str())),
            };
            if !matches!(inst, Inst::Nop) {
                blocks[b].insts.push(inst);
            }
        }
        // reorder so that block index == id given by fp.block
        let mut arranged: Vec<Block> = (0..fp.nblocks).map(|_| Block::default()).collect();
        for (i, b) in blocks.into_iter().enumerate() {
            arranged[order[i] as usize] = b;
        }
        // entry must be first
        let entry = order[0];
        if entry != 0 {
            return Err(format!("entry block not first in {name}"));
        }
        Ok(Func { name, id, params, nslots: fp.slots.len() as u32, blocks: arranged })
    }
    fn phi(&mut self, t: &'static str) -> R<Option<(u32, Vec<(u32, Opnd)>)>> {
        if !t.starts_with('%') {
            return Ok(None);
        }
        let (n, r) = split_name(&t[1..]);
        let r = r.trim_start().strip_prefix('=').unwrap_or("").trim_start();
        let r = match r.strip_prefix("phi ") {
            Some(r) => r,
            None => return Ok(None),
        };
        let dst = self.slot(n);
        let mut p = P { s: r, i: 0 };
        p.skip_to_type();
        let ty = p.ty(self.m)?;
        let mut v = vec![];
        loop {
            p.expect(b'[')?;
            let o = self.val(&mut p, &ty)?;
            p.expect(b',')?;
            p.ws();
            p.expect(b'%')?;
            let (bn, r) = split_name(&p.s[p.i..]);
            p.i = p.s.len() - r.len();
            p.expect(b']')?;
            let b = self.block(bn);
            v.push((b, o));
            if p.eat(b',') {
                p.ws();
                if p.peek() == b'[' {
                    continue;
                }
            }
            break;
        }
        Ok(Some((dst, v)))
    }
    fn val(&mut self, p: &mut P, ty: &Ty) -> R<Opnd> {
        p.ws();
        if p.peek() == b'%' {
            let (n, r) = split_name(&p.s[p.i + 1..]);
            p.i = p.s.len() - r.len();
            return Ok(Opnd::Slot(self.slot(n)));
        }
        if *ty == Ty::Meta {
            while !matches!(p.peek(), b',' | b')' | 0) {
                if p.peek() == b'(' {
                    p.balanced();
                } else {
                    p.i += 1
                }
            }
            return Ok(Opnd::C(0));
        }
        Ok(match p.constant(self.m, ty)? {
            Val::C(c) => Opnd::C(c),
            v => Opnd::K(v),
        })
    }
    fn tval(&mut self, p: &mut P) -> R<(Ty, Opnd)> {
        let t = p.ty(self.m)?;
        let v = self.val(p, &t)?;
        Ok((t, v))
    }
    fn label(&mut self, p: &mut P) -> R<u32> {
        p.ws();
        if !p.kw("label") {
            return Err(format!("label at {}", p.rest()));
        }
        p.expect(b'%')?;
        let (n, r) = split_name(&p.s[p.i..]);
        p.i = p.s.len() - r.len();
        Ok(self.block(n))
    }
    fn inst(&mut self, t: &'static str) -> R<Inst> {
        let mut dst: Option<u32> = None;
        let mut p = P { s: t, i: 0 };
        if t.starts_with('%') {
            let (n, r) = split_name(&t[1..]);
            let r = r.trim_start().strip_prefix('=').ok_or("no =")?;
            p = P { s: r, i: 0 };
            dst = Some(self.slot(n));
        }
        p.ws();
        let mut w = p.word();
        if matches!(w, "tail" | "musttail" | "notail") {
            w = p.word();
        }
        let d = dst.unwrap_or(u32::MAX);
        let lanes_of = |t: &Ty| -> (u32, u32) {
            match t {
                Ty::Vec(n, e) => (*n, e.bits()),
                t => (0, t.bits()),
            }
        };
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                p.skip_to_type();
                let ty = p.ty(self.m)?;
                let a = self.val(&mut p, &ty)?;
                p.expect(b',')?;
                let b = self.val(&mut p, &ty)?;
                let (lanes, w) = lanes_of(&ty);
                Ok(Inst::Bin { op, w, lanes, a, b, dst: d })
            }
            "icmp" => {
                let mut pw = p.word();
                if pw == "samesign" {
                    pw = p.word();
                }
                let pr = match pw {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("icmp {pw}")),
                };
                let ty = p.ty(self.m)?;
                let a = self.val(&mut p, &ty)?;
                p.expect(b',')?;
                let b = self.val(&mut p, &ty)?;
                let (lanes, w) = lanes_of(&ty);
                Ok(Inst::Icmp { p: pr, w, lanes, a, b, dst: d })
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                p.skip_to_type();
                let (from, a) = self.tval(&mut p)?;
                if !p.kw("to") {
                    return Err("cast".into());
                }
                let to = p.ty(self.m)?;
                let k = match w {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bit,
                    _ => {
                        if to.bits() < from.bits() {
                            Cast::Trunc
                        } else if to.bits() > from.bits() {
                            Cast::Zext
                        } else {
                            Cast::Bit
                        }
                    }
                };
                Ok(Inst::Cast { k, from, to, a, dst: d })
            }
            "load" => {
                if p.kw("atomic") {}
                if p.kw("volatile") {}
                let ty = p.ty(self.m)?;
                p.expect(b',')?;
                let (_, a) = self.tval(&mut p)?;
                Ok(Inst::Load { ty, p: a, dst: d })
            }
            "store" => {
                if p.kw("atomic") {}
                if p.kw("volatile") {}
                let (ty, v) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (_, a) = self.tval(&mut p)?;
                Ok(Inst::Store { ty, v, p: a })
            }
            "getelementptr" => {
                p.skip_to_type();
                let ty = p.ty(self.m)?;
                p.expect(b',')?;
                let (bt, base) = self.tval(&mut p)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = ty;
                let mut first = true;
                while p.eat(b',') {
                    p.ws();
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, iv) = self.tval(&mut p)?;
                    let iw = it.bits();
                    match iv {
                        Opnd::C(c) => {
                            let c = crate::expr::sx(c as u128, iw) as i64;
                            let (dd, nt) = gep_step(&cur, c, first)?;
                            off = off.wrapping_add(dd as u64);
                            cur = nt;
                        }
                        o => {
                            let (scale, nt) = if first {
                                (cur.size(), cur.clone())
                            } else {
                                match &cur {
                                    Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()),
                                    _ => return Err("dynamic struct gep".into()),
                                }
                            };
                            idx.push((o, iw, scale));
                            cur = nt;
                        }
                    }
                    first = false;
                }
                Ok(Inst::Gep { base, off, idx, dst: d })
            }
            "select" => {
                p.skip_to_type();
                let (ct, c) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (ty, a) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (_, b) = self.tval(&mut p)?;
                let lanes = if let Ty::Vec(n, _) = ct { n } else { 0 };
                Ok(Inst::Select { c, lanes, ty, a, b, dst: d })
            }
            "freeze" => {
                let (_, a) = self.tval(&mut p)?;
                Ok(Inst::Freeze { a, dst: d })
            }
            "alloca" => {
                p.skip_to_type();
                let ty = p.ty(self.m)?;
                let mut n = 1;
                if p.eat(b',') {
                    p.ws();
                    if p.at_type() {
                        let (_, c) = self.tval(&mut p)?;
                        match c {
                            Opnd::C(c) => n = c,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                Ok(Inst::Alloca { size: ty.size() * n, dst: d })
            }
            "extractvalue" => {
                let (_, a) = self.tval(&mut p)?;
                let mut path = vec![];
                while p.eat(b',') {
                    p.ws();
                    if !p.peek().is_ascii_digit() {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                Ok(Inst::Extract { a, path, dst: d })
            }
            "insertvalue" => {
                let (_, a) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (_, v) = self.tval(&mut p)?;
                let mut path = vec![];
                while p.eat(b',') {
                    p.ws();
                    if !p.peek().is_ascii_digit() {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                Ok(Inst::Insert { a, v, path, dst: d })
            }
            "extractelement" => {
                let (_, a) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (_, i) = self.tval(&mut p)?;
                Ok(Inst::ExtElem { a, i, dst: d })
            }
            "insertelement" => {
                let (_, a) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (_, v) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (_, i) = self.tval(&mut p)?;
                Ok(Inst::InsElem { a, v, i, dst: d })
            }
            "shufflevector" => {
                let (t, a) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (_, b) = self.tval(&mut p)?;
                p.expect(b',')?;
                let mt = p.ty(self.m)?;
                let mv = p.constant(self.m, &mt)?;
                let m = match mv {
                    Val::A(v) => v.iter().map(|x| x.c().unwrap_or(0) as u32).collect(),
                    _ => return Err("shuffle mask".into()),
                };
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                Ok(Inst::Shuffle { a, b, n, m, dst: d })
            }
            "atomicrmw" => {
                if p.kw("volatile") {}
                let op = p.word();
                let (_, a) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (t, v) = self.tval(&mut p)?;
                Ok(Inst::Rmw { op, w: t.bits(), p: a, v, dst: d })
            }
            "cmpxchg" => {
                if p.kw("weak") {}
                if p.kw("volatile") {}
                let (_, a) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (ty, c) = self.tval(&mut p)?;
                p.expect(b',')?;
                let (_, n) = self.tval(&mut p)?;
                Ok(Inst::CmpXchg { ty, p: a, c, n, dst: d })
            }
            "fence" => Ok(Inst::Nop),
            "br" => {
                p.ws();
                if p.s[p.i..].starts_with("label") {
                    let b = self.label(&mut p)?;
                    return Ok(Inst::Br(b));
                }
                let (_, c) = self.tval(&mut p)?;
                p.expect(b',')?;
                let t = self.label(&mut p)?;
                p.expect(b',')?;
                let f = self.label(&mut p)?;
                Ok(Inst::CondBr { c, t, f })
            }
            "switch" => {
                let (ty, v) = self.tval(&mut p)?;
                p.expect(b',')?;
                let def = self.label(&mut p)?;
                p.expect(b'[')?;
                let mut cases = vec![];
                loop {
                    p.ws();
                    if p.eat(b']') {
                        break;
                    }
                    let (_, c) = self.tval(&mut p)?;
                    p.expect(b',')?;
                    let b = self.label(&mut p)?;
                    match c {
                        Opnd::C(c) => cases.push((c, b)),
                        _ => return Err("wide switch".into()),
                    }
                }
                Ok(Inst::Switch { w: ty.bits(), v, cases, def })
            }
            "ret" => {
                let ty = p.ty(self.m)?;
                if ty == Ty::Void {
                    return Ok(Inst::Ret(None));
                }
                let v = self.val(&mut p, &ty)?;
                Ok(Inst::Ret(Some(v)))
            }
            "unreachable" => Ok(Inst::Unreachable),
            "call" | "invoke" => {
                p.skip_to_type();
                let ret = p.ty(self.m)?;
                p.ws();
                if p.peek() == b'(' {
                    p.balanced(); // explicit function type
                    p.ws();
                }
                let callee = if p.kw("asm") {
                    Callee::Asm
                } else if p.peek() == b'@' {
                    let (n, r) = split_name(&p.s[p.i + 1..]);
                    p.i = p.s.len() - r.len();
                    if n.starts_with("llvm.") {
                        if n.starts_with("llvm.lifetime.")
                            || n.starts_with("llvm.dbg.")
                            || n.starts_with("llvm.assume")
                            || n.starts_with("llvm.experimental.noalias")
                            || n.starts_with("llvm.donothing")
                            || n.starts_with("llvm.invariant.end")
                            || n.starts_with("llvm.prefetch")
                            || n.starts_with("llvm.x86.sse2.pause")
                        {
                            return Ok(Inst::Nop);
                        }
                        Callee::Intrinsic(Intr::parse(n))
                    } else {
                        match self.m.resolve(n) {
                            Some(GRef::Func(f)) => Callee::Direct(f),
                            _ => return Err(format!("callee @{n}")),
                        }
                    }
                } else if p.peek() == b'%' {
                    let (n, r) = split_name(&p.s[p.i + 1..]);
                    p.i = p.s.len() - r.len();
                    Callee::Indirect(Opnd::Slot(self.slot(n)))
                } else {
                    let v = p.constant(self.m, &Ty::Ptr)?;
                    Callee::Indirect(Opnd::K(v))
                };
                if matches!(callee, Callee::Asm) {
                    return Ok(Inst::Call { callee, args: vec![], tys: vec![], ret, dst, next: None });
                }
                p.expect(b'(')?;
                let mut args = vec![];
                let mut tys = vec![];
                if !p.eat(b')') {
                    loop {
                        p.skip_to_type();
                        let t = p.ty(self.m)?;
                        // skip parameter attributes
                        loop {
                            p.ws();
                            let c = p.peek();
                            if matches!(c, b'%' | b'@' | b'-' | b'0'..=b'9' | b'{' | b'[' | b'<' | b'!') || t == Ty::Meta {
                                break;
                            }
                            if c == b'c' && p.b().get(p.i + 1) == Some(&b'"') {
                                break;
                            }
                            let save = p.i;
                            let w = p.word();
                            p.i = save;
                            if matches!(
                                w,
                                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr"
                                    | "bitcast" | "sub" | "add" | "mul" | "trunc" | "zext" | "sext" | "xor" | "and" | "or" | "shl"
                            ) {
                                break;
                            }
                            p.skip_attr();
                        }
                        let v = self.val(&mut p, &t)?;
                        args.push(v);
                        tys.push(t);
                        if p.eat(b',') {
                            continue;
                        }
                        p.expect(b')')?;
                        break;
                    }
                }
                let mut next = None;
                if w == "invoke" {
                    let k = p.s[p.i..].find("to label").ok_or("invoke")?;
                    p.i += k + 2;
                    next = Some(self.label(&mut p)?);
                }
                Ok(Inst::Call { callee, args, tys, ret, dst, next })
            }
            _ => Err(format!("instruction {w}")),
        }
    }
}
