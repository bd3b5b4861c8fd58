//! Hash-consed bit-vector expressions, simplification, evaluation, value tables.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type Ex = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpOp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Sym(u32),
    Bin(BinOp, Ex, Ex),
    Cmp(CmpOp, Ex, Ex),
    Not(Ex), // width 1 only
    Zext(Ex),
    Sext(Ex),
    Extract(Ex, u16),
    Concat(Ex, Ex), // hi, lo
    Ite(Ex, Ex, Ex),
}

#[derive(Clone, Copy)]
pub struct Info {
    pub node: Node,
    pub w: u16,
    pub syms: u32, // interned symbol set
    pub ub: u64,   // unsigned upper bound (saturating to u64::MAX when >64 bits)
}

pub struct Arena {
    pub nodes: Vec<Info>,
    map: FxMap<(Node, u16), Ex>,
    pub sets: Vec<Rc<Vec<u32>>>,
    setmap: HashMap<Vec<u32>, u32>,
    unions: FxMap<(u32, u32), u32>,
    /// symbol id -> (position, width)
    pub syms: Vec<(u32, u16)>,
    symmap: FxMap<(u32, u16), u32>,
    tables: FxMap<Ex, Rc<Box<[u64; 256]>>>,
    ev_gen: u32,
    ev: Vec<(u32, u128)>,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();
#[inline(always)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            ARENA = Box::into_raw(Box::new(Arena::new()));
        }
        &mut *ARENA
    }
}

#[inline(always)]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

/// Concrete semantics of the binary operators (None: division by zero / over-shift).
pub fn fold_bin(op: BinOp, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        BinOp::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        BinOp::SDiv => {
            if b == 0 {
                return None;
            }
            sx(a, w).wrapping_div(sx(b, w)) as u128 & m
        }
        BinOp::SRem => {
            if b == 0 {
                return None;
            }
            sx(a, w).wrapping_rem(sx(b, w)) as u128 & m
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128 & m
        }
    })
}
pub fn fold_cmp(op: CmpOp, a: u128, b: u128, w: u32) -> bool {
    match op {
        CmpOp::Eq => a == b,
        CmpOp::Ult => a < b,
        CmpOp::Ule => a <= b,
        CmpOp::Slt => sx(a, w) < sx(b, w),
        CmpOp::Sle => sx(a, w) <= sx(b, w),
    }
}

impl Arena {
    fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: Default::default(),
            sets: vec![Rc::new(vec![])],
            setmap: Default::default(),
            unions: Default::default(),
            syms: vec![],
            symmap: Default::default(),
            tables: Default::default(),
            ev_gen: 0,
            ev: vec![],
        };
        a.setmap.insert(vec![], 0);
        // index 0 is "none"
        a.nodes.push(Info { node: Node::Const(0), w: 0, syms: 0, ub: 0 });
        a
    }
    #[inline(always)]
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline(always)]
    pub fn node(&self, e: Ex) -> Node {
        self.nodes[e as usize].node
    }
    #[inline(always)]
    pub fn cst(&self, e: Ex) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize].node {
            Some(c)
        } else {
            None
        }
    }
    pub fn symset(&self, e: Ex) -> &Rc<Vec<u32>> {
        &self.sets[self.nodes[e as usize].syms as usize]
    }
    /// Some(sym) when e depends on exactly one symbol of width <= 8.
    pub fn unary(&self, e: Ex) -> Option<u32> {
        let s = self.symset(e);
        if s.len() == 1 && self.syms[s[0] as usize].1 <= 8 {
            Some(s[0])
        } else {
            None
        }
    }
    fn intern_set(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.setmap.get(&v) {
            return i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(Rc::new(v.clone()));
        self.setmap.insert(v, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&r) = self.unions.get(&k) {
            return r;
        }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).cloned().collect();
        v.sort();
        v.dedup();
        let r = self.intern_set(v);
        self.unions.insert(k, r);
        r
    }
    fn mk(&mut self, node: Node, w: u32) -> Ex {
        if let Some(&e) = self.map.get(&(node, w as u16)) {
            return e;
        }
        let n = |a: &Arena, e: Ex| (a.nodes[e as usize].syms, a.nodes[e as usize].ub);
        let m = mask64(w);
        let (syms, ub) = match node {
            Node::Const(c) => (0, if c > u64::MAX as u128 { u64::MAX } else { c as u64 }),
            Node::Sym(s) => (self.intern_set(vec![s]), m),
            Node::Bin(op, a, b) => {
                let (sa, ua) = n(self, a);
                let (sb, ubb) = n(self, b);
                let ub = match op {
                    BinOp::And => ua.min(ubb),
                    BinOp::Or | BinOp::Xor => {
                        let t = ua | ubb;
                        if t == 0 {
                            0
                        } else {
                            u64::MAX >> t.leading_zeros()
                        }
                    }
                    BinOp::LShr => match self.cst(b) {
                        Some(c) if c < 64 && w <= 64 => ua >> c,
                        _ => ua,
                    },
                    BinOp::Add => ua.checked_add(ubb).filter(|x| *x <= m && w <= 64).unwrap_or(m),
                    BinOp::Mul => ua.checked_mul(ubb).filter(|x| *x <= m && w <= 64).unwrap_or(m),
                    BinOp::Shl => match self.cst(b) {
                        Some(c) if c < 64 && w <= 64 => {
                            if ua.leading_zeros() as u128 > c && (ua << c) <= m {
                                ua << c
                            } else {
                                m
                            }
                        }
                        _ => m,
                    },
                    BinOp::UDiv => ua,
                    BinOp::URem => {
                        if let Some(c) = self.cst(b) {
                            if c > 0 && c <= u64::MAX as u128 {
                                ua.min(c as u64 - 1)
                            } else {
                                ua
                            }
                        } else {
                            ua
                        }
                    }
                    _ => m,
                };
                (self.union(sa, sb), ub.min(m))
            }
            Node::Cmp(_, a, b) => {
                let (sa, _) = n(self, a);
                let (sb, _) = n(self, b);
                (self.union(sa, sb), 1)
            }
            Node::Not(a) => (n(self, a).0, 1),
            Node::Zext(a) => n(self, a),
            Node::Sext(a) => {
                let (s, u) = n(self, a);
                let aw = self.w(a);
                if aw < 64 && u < (1u64 << (aw - 1)) {
                    (s, u)
                } else {
                    (s, m)
                }
            }
            Node::Extract(a, lo) => {
                let (s, u) = n(self, a);
                if self.w(a) <= 64 {
                    let u2 = u >> lo;
                    (s, if u2 <= m { u2 } else { m })
                } else {
                    (s, m)
                }
            }
            Node::Concat(a, b) => {
                let (sa, ua) = n(self, a);
                let (sb, ubb) = n(self, b);
                let wb = self.w(b);
                let ub = if w <= 64 {
                    if ua == 0 {
                        ubb
                    } else {
                        (ua << wb) | mask64(wb)
                    }
                } else {
                    u64::MAX
                };
                (self.union(sa, sb), ub)
            }
            Node::Ite(c, a, b) => {
                let (sc, _) = n(self, c);
                let (sa, ua) = n(self, a);
                let (sb, ubb) = n(self, b);
                let u = self.union(sa, sb);
                (self.union(sc, u), ua.max(ubb))
            }
        };
        let e = self.nodes.len() as Ex;
        self.nodes.push(Info { node, w: w as u16, syms, ub });
        self.map.insert((node, w as u16), e);
        e
    }
    pub fn c(&mut self, v: u128, w: u32) -> Ex {
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn tru(&mut self) -> Ex {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> Ex {
        self.c(0, 1)
    }
    pub fn sym(&mut self, pos: u32, w: u32) -> (Ex, u32) {
        let id = match self.symmap.get(&(pos, w as u16)) {
            Some(&i) => i,
            None => {
                let i = self.syms.len() as u32;
                self.syms.push((pos, w as u16));
                self.symmap.insert((pos, w as u16), i);
                i
            }
        };
        (self.mk(Node::Sym(id), w), id)
    }
    pub fn symx(&mut self, id: u32) -> Ex {
        let w = self.syms[id as usize].1 as u32;
        self.mk(Node::Sym(id), w)
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        match self.node(a) {
            Node::Const(c) => self.c(1 - c, 1),
            Node::Not(b) => b,
            Node::Cmp(CmpOp::Ult, x, y) => self.cmp(CmpOp::Ule, y, x),
            Node::Cmp(CmpOp::Ule, x, y) => self.cmp(CmpOp::Ult, y, x),
            Node::Cmp(CmpOp::Slt, x, y) => self.cmp(CmpOp::Sle, y, x),
            Node::Cmp(CmpOp::Sle, x, y) => self.cmp(CmpOp::Slt, y, x),
            _ => self.mk(Node::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(BinOp::And, a, b)
    }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(BinOp::Or, a, b)
    }
    pub fn eqc(&mut self, a: Ex, v: u128) -> Ex {
        let w = self.w(a);
        let c = self.c(v, w);
        self.cmp(CmpOp::Eq, a, c)
    }
    fn const_ite(&self, e: Ex) -> Option<(Ex, Ex, Ex)> {
        if let Node::Ite(c, a, b) = self.node(e) {
            if self.cst(a).is_some() || self.cst(b).is_some() {
                // at least one constant leaf: distributing may fold
                return Some((c, a, b));
            }
        }
        None
    }
    /// ITE tree whose leaves are all constants (bounded walk).
    fn const_tree(&self, e: Ex, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        match self.node(e) {
            Node::Const(_) => true,
            Node::Ite(_, a, b) => self.const_tree(a, budget) && self.const_tree(b, budget),
            _ => false,
        }
    }
    pub fn bin(&mut self, op: BinOp, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold_bin(op, x, y, w) {
                return self.c(r, w);
            }
        }
        let m = mask(w);
        use BinOp::*;
        // commutative: constant to the right
        if ca.is_some() && cb.is_none() && matches!(op, Add | Mul | And | Or | Xor) {
            return self.bin(op, b, a);
        }
        if w == 1 {
            match op {
                Add | Sub | Xor => {
                    if let Some(y) = cb {
                        return if y == 0 { a } else { self.not(a) };
                    }
                    if let Some(x) = ca {
                        return if x == 0 { b } else { self.not(b) };
                    }
                    if a == b {
                        return self.fls();
                    }
                    let e = self.cmp(CmpOp::Eq, a, b);
                    return self.not(e);
                }
                Mul => return self.bin(And, a, b),
                And => {
                    if let Some(y) = cb {
                        return if y == 0 { b } else { a };
                    }
                    let na = self.not(a);
                    if na == b {
                        return self.fls();
                    }
                }
                Or => {
                    if let Some(y) = cb {
                        return if y == 1 { b } else { a };
                    }
                    let na = self.not(a);
                    if na == b {
                        return self.tru();
                    }
                }
                _ => {}
            }
        }
        match op {
            Add => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if let Node::Bin(Add, x, k) = self.node(a) {
                        if let Some(k) = self.cst(k) {
                            let kk = self.c(k.wrapping_add(y), w);
                            return self.bin(Add, x, kk);
                        }
                    }
                } else {
                    // (x + k) + b -> (x + b) + k
                    if let Node::Bin(Add, x, k) = self.node(a) {
                        if self.cst(k).is_some() {
                            let t = self.bin(Add, x, b);
                            return self.bin(Add, t, k);
                        }
                    }
                    if let Node::Bin(Add, x, k) = self.node(b) {
                        if self.cst(k).is_some() {
                            let t = self.bin(Add, a, x);
                            return self.bin(Add, t, k);
                        }
                    }
                    // a + (c - a) -> c
                    if let Node::Bin(Sub, p, q) = self.node(b) {
                        if q == a {
                            return p;
                        }
                    }
                    if let Node::Bin(Sub, p, q) = self.node(a) {
                        if q == b {
                            return p;
                        }
                    }
                }
            }
            Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    let k = self.c(0u128.wrapping_sub(y) & m, w);
                    return self.bin(Add, a, k);
                }
                let (xa, ka) = self.split_add(a);
                let (xb, kb) = self.split_add(b);
                if xa == xb {
                    return self.c(ka.wrapping_sub(kb) & m, w);
                }
                if kb != 0 || ka != 0 {
                    let t = if xa == 0 {
                        let z = self.c(ka.wrapping_sub(kb) & m, w);
                        return self.mk(Node::Bin(Sub, z, xb), w);
                    } else {
                        self.bin_raw_sub(xa, xb, w)
                    };
                    let k = self.c(ka.wrapping_sub(kb) & m, w);
                    return self.bin(Add, t, k);
                }
                // (x + y) - y
                if let Node::Bin(Add, x, y) = self.node(a) {
                    if y == b {
                        return x;
                    }
                    if x == b {
                        return y;
                    }
                }
            }
            Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    // mask covering the whole possible range
                    if w <= 64 && (y & (y + 1)) == 0 && self.nodes[a as usize].ub as u128 <= y {
                        return a;
                    }
                    if let Node::Bin(And, x, k) = self.node(a) {
                        if let Some(k) = self.cst(k) {
                            let kk = self.c(k & y, w);
                            return self.bin(And, x, kk);
                        }
                    }
                    if let Node::Zext(x) = self.node(a) {
                        let xw = self.w(x);
                        let k = self.c(y & mask(xw), xw);
                        let t = self.bin(And, x, k);
                        return self.zext(t, w);
                    }
                    if let Node::Concat(h, l) = self.node(a) {
                        let lw = self.w(l);
                        let hw = self.w(h);
                        let kl = self.c(y & mask(lw), lw);
                        let kh = self.c(y >> lw, hw);
                        let l2 = self.bin(And, l, kl);
                        let h2 = self.bin(And, h, kh);
                        return self.concat(h2, l2);
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                // disjoint bits: zext(lo) | (x << k) with ub(lo) < 2^k  -> concat
                if w <= 64 {
                    if let Some(r) = self.or_concat(a, b, w) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a, w) {
                        return r;
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if let Node::Bin(Xor, x, k) = self.node(a) {
                        if let Some(k) = self.cst(k) {
                            let kk = self.c(k ^ y, w);
                            return self.bin(Xor, x, kk);
                        }
                    }
                }
            }
            Shl => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    // shl by const == concat(extract, 0)
                    let y = y as u32;
                    let hi = self.extract(a, 0, w - y);
                    let z = self.c(0, y);
                    return self.concat(hi, z);
                }
            }
            LShr => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    if w <= 64 && (self.nodes[a as usize].ub >> y) == 0 {
                        return self.c(0, w);
                    }
                    let y = y as u32;
                    let t = self.extract(a, y, w - y);
                    return self.zext(t, w);
                }
            }
            AShr => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let y = (y as u32).min(w - 1);
                    let t = self.extract(a, y, w - y);
                    return self.sext(t, w);
                }
            }
            UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(LShr, a, k);
                    }
                }
            }
            URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.c(y - 1, w);
                        return self.bin(And, a, k);
                    }
                }
            }
            _ => {}
        }
        // distribute over small constant ITEs
        if cb.is_some() && w > 1 {
            if let Node::Ite(c, x, y) = self.node(a) {
                let mut bud = 8;
                if self.const_tree(a, &mut bud) {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        let (a, b) = if matches!(op, Add | Mul | And | Or | Xor) && cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Node::Bin(op, a, b), w)
    }
    fn or_concat(&mut self, lo: Ex, hi: Ex, w: u32) -> Option<Ex> {
        // hi = concat(H, 0:k) possibly under zext; lo < 2^k
        let (core, cw) = match self.node(hi) {
            Node::Zext(x) => (x, self.w(x)),
            _ => (hi, w),
        };
        if let Node::Concat(h, z) = self.node(core) {
            if self.cst(z) == Some(0) {
                let k = self.w(z);
                if k < 64 && self.nodes[lo as usize].ub < (1u64 << k) {
                    let l = self.extract(lo, 0, k);
                    let t = self.concat(h, l);
                    let _ = cw;
                    return Some(self.zext(t, w));
                }
            }
        }
        None
    }
    fn bin_raw_sub(&mut self, a: Ex, b: Ex, w: u32) -> Ex {
        if a == b {
            return self.c(0, w);
        }
        if b == 0 {
            return a;
        }
        if let Node::Bin(BinOp::Add, x, y) = self.node(a) {
            if y == b {
                return x;
            }
            if x == b {
                return y;
            }
        }
        self.mk(Node::Bin(BinOp::Sub, a, b), w)
    }
    fn split_add(&self, a: Ex) -> (Ex, u128) {
        match self.node(a) {
            Node::Const(c) => (0, c),
            Node::Bin(BinOp::Add, x, k) => match self.cst(k) {
                Some(c) => (x, c),
                None => (a, 0),
            },
            _ => (a, 0),
        }
    }
    pub fn cmp(&mut self, op: CmpOp, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "cmp widths");
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold_cmp(op, x, y, w);
            return self.c(r as u128, 1);
        }
        use CmpOp::*;
        let m = mask(w);
        match op {
            Eq => {
                if a == b {
                    return self.tru();
                }
                if ca.is_some() {
                    return self.cmp(Eq, b, a);
                }
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    if w <= 64 && y > self.nodes[a as usize].ub as u128 {
                        return self.fls();
                    }
                    match self.node(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            if y > mask(xw) {
                                return self.fls();
                            }
                            let k = self.c(y, xw);
                            return self.cmp(Eq, x, k);
                        }
                        Node::Sext(x) => {
                            let xw = self.w(x);
                            let t = y & mask(xw);
                            if (sx(t, xw) as u128) & m != y {
                                return self.fls();
                            }
                            let k = self.c(t, xw);
                            return self.cmp(Eq, x, k);
                        }
                        Node::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kl = self.c(y & mask(lw), lw);
                            let kh = self.c(y >> lw, hw);
                            let p = self.cmp(Eq, h, kh);
                            if self.cst(p) == Some(0) {
                                return p;
                            }
                            let q = self.cmp(Eq, l, kl);
                            return self.and(p, q);
                        }
                        Node::Bin(BinOp::Add, x, k) => {
                            if let Some(k) = self.cst(k) {
                                let kk = self.c(y.wrapping_sub(k), w);
                                return self.cmp(Eq, x, kk);
                            }
                        }
                        Node::Bin(BinOp::Sub, k, x) => {
                            if let Some(k) = self.cst(k) {
                                let kk = self.c(k.wrapping_sub(y), w);
                                return self.cmp(Eq, x, kk);
                            }
                            if y == 0 {
                                return self.cmp(Eq, k, x);
                            }
                        }
                        Node::Bin(BinOp::Xor, x, k) => {
                            if let Some(k) = self.cst(k) {
                                let kk = self.c(y ^ k, w);
                                return self.cmp(Eq, x, kk);
                            }
                            if y == 0 {
                                return self.cmp(Eq, x, k);
                            }
                        }
                        Node::Bin(BinOp::Or, x, k) if y == 0 => {
                            let z = self.c(0, w);
                            let p = self.cmp(Eq, x, z);
                            let q = self.cmp(Eq, k, z);
                            return self.and(p, q);
                        }
                        Node::Ite(c, x, z) => {
                            let px = self.cst(x).is_some();
                            let pz = self.cst(z).is_some();
                            if px || pz {
                                let p = self.cmp(Eq, x, b);
                                let q = self.cmp(Eq, z, b);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.node(a), self.node(b)) {
                        (Node::Zext(x), Node::Zext(y)) if self.w(x) == self.w(y) => return self.cmp(Eq, x, y),
                        (Node::Concat(h1, l1), Node::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                            let p = self.cmp(Eq, h1, h2);
                            let q = self.cmp(Eq, l1, l2);
                            return self.and(p, q);
                        }
                        _ => {}
                    }
                    let (xa, ka) = self.split_add(a);
                    let (xb, kb) = self.split_add(b);
                    if xa == xb && xa != 0 {
                        return self.c((ka == kb) as u128, 1);
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(Node::Cmp(Eq, a, b), 1)
            }
            Ult => {
                if a == b {
                    return self.fls();
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return self.fls();
                    }
                    if w <= 64 && (self.nodes[a as usize].ub as u128) < y {
                        return self.tru();
                    }
                    if y == 1 {
                        let z = self.c(0, w);
                        return self.cmp(Eq, a, z);
                    }
                    match self.node(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            if y <= mask(xw) {
                                let k = self.c(y, xw);
                                return self.cmp(Ult, x, k);
                            }
                        }
                        Node::Ite(c, x, z) if self.const_ite(a).is_some() => {
                            let p = self.cmp(Ult, x, b);
                            let q = self.cmp(Ult, z, b);
                            return self.ite(c, p, q);
                        }
                        _ => {}
                    }
                }
                if let Some(x) = ca {
                    if x == m {
                        return self.fls();
                    }
                    if w <= 64 && x >= self.nodes[b as usize].ub as u128 {
                        return self.fls();
                    }
                    match self.node(b) {
                        Node::Zext(y) => {
                            let yw = self.w(y);
                            if x <= mask(yw) {
                                let k = self.c(x, yw);
                                return self.cmp(Ult, k, y);
                            }
                        }
                        Node::Ite(c, y, z) if self.const_ite(b).is_some() => {
                            let p = self.cmp(Ult, a, y);
                            let q = self.cmp(Ult, a, z);
                            return self.ite(c, p, q);
                        }
                        _ => {}
                    }
                }
                if let (Node::Zext(x), Node::Zext(y)) = (self.node(a), self.node(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(Ult, x, y);
                    }
                }
                self.mk(Node::Cmp(Ult, a, b), 1)
            }
            Ule => {
                // a <= b  ==  !(b < a); keep Ule nodes only when not foldable
                if a == b {
                    return self.tru();
                }
                if let Some(y) = cb {
                    if y == m {
                        return self.tru();
                    }
                    let k = self.c(y + 1, w);
                    return self.cmp(Ult, a, k);
                }
                if let Some(x) = ca {
                    if x == 0 {
                        return self.tru();
                    }
                    if x == 1 {
                        let z = self.c(0, w);
                        let e = self.cmp(Eq, b, z);
                        return self.not(e);
                    }
                    let k = self.c(x - 1, w);
                    return self.cmp(Ult, k, b);
                }
                if let (Node::Zext(x), Node::Zext(y)) = (self.node(a), self.node(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(Ule, x, y);
                    }
                }
                self.mk(Node::Cmp(Ule, a, b), 1)
            }
            Slt | Sle => {
                if a == b {
                    return self.c((op == Sle) as u128, 1);
                }
                if w <= 64 && w > 1 {
                    let half = 1u64 << (w - 1);
                    let (ua, ub) = (self.nodes[a as usize].ub, self.nodes[b as usize].ub);
                    if ua < half && ub < half {
                        return self.cmp(if op == Slt { Ult } else { Ule }, a, b);
                    }
                    // constant negative vs known non-negative
                    if let Some(y) = cb {
                        if y >= half as u128 && ua < half {
                            return self.fls();
                        }
                        if let Node::Ite(c, x, z) = self.node(a) {
                            if self.const_ite(a).is_some() {
                                let p = self.cmp(op, x, b);
                                let q = self.cmp(op, z, b);
                                return self.ite(c, p, q);
                            }
                        }
                        if let Node::Sext(x) = self.node(a) {
                            let xw = self.w(x);
                            let t = y & mask(xw);
                            if (sx(t, xw) as u128) & m == y {
                                let k = self.c(t, xw);
                                return self.cmp(op, x, k);
                            }
                        }
                    }
                    if let Some(x) = ca {
                        if x >= half as u128 && ub < half {
                            return self.tru();
                        }
                        if let Node::Sext(y) = self.node(b) {
                            let yw = self.w(y);
                            let t = x & mask(yw);
                            if (sx(t, yw) as u128) & m == x {
                                let k = self.c(t, yw);
                                return self.cmp(op, k, y);
                            }
                        }
                        if let Node::Ite(c, y, z) = self.node(b) {
                            if self.const_ite(b).is_some() {
                                let p = self.cmp(op, a, y);
                                let q = self.cmp(op, a, z);
                                return self.ite(c, p, q);
                            }
                        }
                    }
                }
                self.mk(Node::Cmp(op, a, b), 1)
            }
        }
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => return self.c(c, w),
            Node::Zext(x) => return self.zext(x, w),
            Node::Ite(c, x, y) => {
                let mut bud = 200;
                if self.const_tree(a, &mut bud) {
                    let p = self.zext(x, w);
                    let q = self.zext(y, w);
                    return self.ite(c, p, q);
                }
            }
            _ => {}
        }
        self.mk(Node::Zext(a), w)
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if aw > 1 && aw <= 64 && self.nodes[a as usize].ub < (1u64 << (aw - 1)) {
            return self.zext(a, w);
        }
        match self.node(a) {
            Node::Const(c) => return self.c(sx(c, aw) as u128, w),
            Node::Sext(x) => return self.sext(x, w),
            Node::Ite(c, x, y) => {
                let mut bud = 200;
                if self.const_tree(a, &mut bud) {
                    let p = self.sext(x, w);
                    let q = self.sext(y, w);
                    return self.ite(c, p, q);
                }
            }
            _ => {}
        }
        self.mk(Node::Sext(a), w)
    }
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => return self.c(c >> lo, w),
            Node::Extract(x, l2) => return self.extract(x, l2 as u32 + lo, w),
            Node::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let t = self.extract(x, lo, xw - lo);
                return self.zext(t, w);
            }
            Node::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo == 0 && w > xw {
                    return self.sext(x, w);
                }
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                let p = self.extract(l, lo, lw - lo);
                let q = self.extract(h, 0, w - (lw - lo));
                return self.concat(q, p);
            }
            Node::Ite(c, x, y) => {
                let mut bud = 200;
                if self.const_tree(a, &mut bud) || self.cst(x).is_some() || self.cst(y).is_some() {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    return self.ite(c, p, q);
                }
            }
            Node::Bin(op, x, y) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            Node::Bin(op, x, y) if lo == 0 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            _ => {}
        }
        self.mk(Node::Extract(a, lo as u16), w)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (hw, lw) = (self.w(h), self.w(l));
        if let Some(c) = self.cst(h) {
            if let Some(d) = self.cst(l) {
                return self.c((c << lw) | d, hw + lw);
            }
            if c == 0 {
                return self.zext(l, hw + lw);
            }
        }
        if let (Node::Extract(x, lo1), Node::Extract(y, lo2)) = (self.node(h), self.node(l)) {
            if x == y && lo1 as u32 == lo2 as u32 + lw {
                return self.extract(x, lo2 as u32, hw + lw);
            }
        }
        // zext(h) concat l -> zext(concat)
        if let Node::Zext(x) = self.node(h) {
            let t = self.concat(x, l);
            return self.zext(t, hw + lw);
        }
        self.mk(Node::Concat(h, l), hw + lw)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Node::Not(d) = self.node(c) {
            return self.ite(d, b, a);
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(d, x, _) = self.node(a) {
            if d == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(d, _, y) = self.node(b) {
            if d == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    /// sym in bitset
    pub fn in_set(&mut self, sym: u32, set: &[u64; 4]) -> Ex {
        let s = self.symx(sym);
        let w = self.w(s);
        let n = 1usize << w;
        let has = |v: usize| v < n && (set[v >> 6] >> (v & 63)) & 1 == 1;
        let mut r = self.fls();
        let mut v = 0;
        while v < n {
            if has(v) {
                let lo = v;
                while v + 1 < n && has(v + 1) {
                    v += 1;
                }
                let hi = v;
                let e = if lo == hi {
                    self.eqc(s, lo as u128)
                } else {
                    let cl = self.c(lo as u128, w);
                    let ch = self.c(hi as u128, w);
                    let p = self.cmp(CmpOp::Ule, cl, s);
                    let q = self.cmp(CmpOp::Ule, s, ch);
                    self.and(p, q)
                };
                r = self.or(r, e);
            }
            v += 1;
        }
        r
    }
    // ---------- evaluation under a model (indexed by symbol id)
    pub fn eval_begin(&mut self) {
        self.ev_gen += 1;
        if self.ev.len() < self.nodes.len() {
            self.ev.resize(self.nodes.len() + 1024, (0, 0));
        }
    }
    pub fn eval(&mut self, e: Ex, model: &[u64]) -> u128 {
        self.eval_begin();
        self.eval_rec(e, model)
    }
    pub fn eval_rec(&mut self, e: Ex, model: &[u64]) -> u128 {
        let i = e as usize;
        let Info { node, w, .. } = self.nodes[i];
        match node {
            Node::Const(c) => return c,
            Node::Sym(s) => return model.get(s as usize).cloned().unwrap_or(0) as u128 & mask(w as u32),
            _ => {}
        }
        if self.ev[i].0 == self.ev_gen {
            return self.ev[i].1;
        }
        let w = w as u32;
        let r = match node {
            Node::Bin(op, a, b) => {
                let x = self.eval_rec(a, model);
                let y = self.eval_rec(b, model);
                // SMT-LIB totals for division by zero
                fold_bin(op, x, y, w).unwrap_or_else(|| div0(op, x, w))
            }
            Node::Cmp(op, a, b) => {
                let x = self.eval_rec(a, model);
                let y = self.eval_rec(b, model);
                fold_cmp(op, x, y, self.w(a)) as u128
            }
            Node::Not(a) => 1 - self.eval_rec(a, model),
            Node::Zext(a) => self.eval_rec(a, model),
            Node::Sext(a) => {
                let x = self.eval_rec(a, model);
                sx(x, self.w(a)) as u128 & mask(w)
            }
            Node::Extract(a, lo) => (self.eval_rec(a, model) >> lo) & mask(w),
            Node::Concat(a, b) => {
                let x = self.eval_rec(a, model);
                let y = self.eval_rec(b, model);
                (x << self.w(b)) | y
            }
            Node::Ite(c, a, b) => {
                if self.eval_rec(c, model) == 1 {
                    self.eval_rec(a, model)
                } else {
                    self.eval_rec(b, model)
                }
            }
            _ => unreachable!(),
        };
        self.ev[i] = (self.ev_gen, r);
        r
    }
    /// Values of a single-symbol (<= 8 bit) expression for all 256 symbol values.
    pub fn table(&mut self, e: Ex) -> Rc<Box<[u64; 256]>> {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        let Info { node, w, .. } = self.nodes[e as usize];
        let w = w as u32;
        debug_assert!(w <= 64);
        let mut r = Box::new([0u64; 256]);
        match node {
            Node::Const(c) => {
                for x in r.iter_mut() {
                    *x = c as u64
                }
                return Rc::new(r);
            }
            Node::Sym(_) => {
                let m = mask64(w);
                for (i, x) in r.iter_mut().enumerate() {
                    *x = i as u64 & m
                }
            }
            Node::Bin(op, a, b) => {
                let (x, y) = (self.table(a), self.table(b));
                for i in 0..256 {
                    r[i] = fold_bin(op, x[i] as u128, y[i] as u128, w).unwrap_or_else(|| div0(op, x[i] as u128, w)) as u64
                }
            }
            Node::Cmp(op, a, b) => {
                let aw = self.w(a);
                if aw > 64 {
                    return self.table_slow(e);
                }
                let (x, y) = (self.table(a), self.table(b));
                for i in 0..256 {
                    r[i] = fold_cmp(op, x[i] as u128, y[i] as u128, aw) as u64
                }
            }
            Node::Not(a) => {
                let x = self.table(a);
                for i in 0..256 {
                    r[i] = 1 - x[i]
                }
            }
            Node::Zext(a) => {
                let x = self.table(a);
                *r = **x;
            }
            Node::Sext(a) => {
                let x = self.table(a);
                let aw = self.w(a);
                for i in 0..256 {
                    r[i] = sx(x[i] as u128, aw) as u64 & mask64(w)
                }
            }
            Node::Extract(a, lo) => {
                if self.w(a) > 64 {
                    return self.table_slow(e);
                }
                let x = self.table(a);
                for i in 0..256 {
                    r[i] = (x[i] >> lo) & mask64(w)
                }
            }
            Node::Concat(a, b) => {
                let (x, y) = (self.table(a), self.table(b));
                let bw = self.w(b);
                for i in 0..256 {
                    r[i] = (x[i] << bw) | y[i]
                }
            }
            Node::Ite(c, a, b) => {
                let (k, x, y) = (self.table(c), self.table(a), self.table(b));
                for i in 0..256 {
                    r[i] = if k[i] == 1 { x[i] } else { y[i] }
                }
            }
        }
        let r = Rc::new(r);
        self.tables.insert(e, r.clone());
        r
    }
    fn table_slow(&mut self, e: Ex) -> Rc<Box<[u64; 256]>> {
        let s = self.symset(e)[0] as usize;
        let mut model = vec![0u64; s + 1];
        let mut r = Box::new([0u64; 256]);
        for i in 0..256 {
            model[s] = i as u64;
            r[i] = self.eval(e, &model) as u64;
        }
        let r = Rc::new(r);
        self.tables.insert(e, r.clone());
        r
    }
    pub fn show(&self, e: Ex, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.node(e) {
            Node::Const(c) => format!("{}:{}", c, self.w(e)),
            Node::Sym(s) => format!("s{}", self.syms[s as usize].0),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            Node::Cmp(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            Node::Not(a) => format!("!{}", self.show(a, d)),
            Node::Zext(a) => format!("zx{}({})", self.w(e), self.show(a, d)),
            Node::Sext(a) => format!("sx{}({})", self.w(e), self.show(a, d)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d), lo, self.w(e)),
            Node::Concat(a, b) => format!("({}++{})", self.show(a, d), self.show(b, d)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
        }
    }
}
pub fn div0(op: BinOp, x: u128, w: u32) -> u128 {
    match op {
        BinOp::UDiv => mask(w),
        BinOp::SDiv => {
            if sx(x, w) < 0 {
                1
            } else {
                mask(w)
            }
        }
        _ => x,
    }
}
