//! Z3 (libz3) back end: translation, slicing-independent query cache, certification.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_substitute(c: P, a: P, n: c_uint, from: *const P, to: *const P) -> P;
    fn Z3_simplify(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}
extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("symx: Z3 API error {code}");
    std::process::exit(3);
}

/// Longer computations are certified in stages.
const STAGE: usize = 48;

pub struct Solver {
    ctx: P,
    slv: P,
    memo: Vec<P>,
    cache: FxMap<Vec<Ex>, Option<Vec<(u32, u64)>>>,
    certified: FxMap<Ex, ()>,
    canon: FxMap<Ex, Ex>,
    staged: FxMap<Ex, usize>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cert: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub unknown: u64,
}
pub fn z3_version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let ctx = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(ctx, Some(on_err));
            let slv = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, slv);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, slv, p);
            Solver {
                ctx,
                slv,
                memo: vec![],
                cache: Default::default(),
                certified: Default::default(),
                canon: Default::default(),
                staged: Default::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                cert: 0,
                cache_hits: 0,
                time: 0.0,
                unknown: 0,
            }
        }
    }
    fn tr(&mut self, e: Ex) -> P {
        if self.memo.len() <= e as usize {
            self.memo.resize(ar().nodes.len() + 256, std::ptr::null_mut());
        }
        let m = self.memo[e as usize];
        if !m.is_null() {
            return m;
        }
        let Info { node, w, .. } = ar().nodes[e as usize];
        let w = w as u32;
        let c = self.ctx;
        let r = unsafe {
            match node {
                Node::Const(v) => {
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if v <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w))
                    } else {
                        let s = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                    }
                }
                Node::Sym(s) => {
                    let so = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                    Z3_mk_const(c, Z3_mk_int_symbol(c, s as c_int), so)
                }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    if w == 1 {
                        let v = [x, y];
                        match op {
                            BinOp::And | BinOp::Mul => Z3_mk_and(c, 2, v.as_ptr()),
                            BinOp::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            BinOp::Xor | BinOp::Add | BinOp::Sub => Z3_mk_xor(c, x, y),
                            _ => {
                                // x op y on single bits: go through 1-bit vectors
                                let x = self.b2v(x);
                                let y = self.b2v(y);
                                let r = self.bv(op, x, y);
                                Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                            }
                        }
                    } else {
                        self.bv(op, x, y)
                    }
                }
                Node::Cmp(op, a, b) => {
                    let aw = ar().w(a);
                    let (mut x, mut y) = (self.tr(a), self.tr(b));
                    if aw == 1 && op != CmpOp::Eq {
                        x = self.b2v(x);
                        y = self.b2v(y);
                    }
                    match op {
                        CmpOp::Eq => Z3_mk_eq(c, x, y),
                        CmpOp::Ult => Z3_mk_bvult(c, x, y),
                        CmpOp::Ule => Z3_mk_bvule(c, x, y),
                        CmpOp::Slt => Z3_mk_bvslt(c, x, y),
                        CmpOp::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                Node::Not(a) => {
                    let x = self.tr(a);
                    Z3_mk_not(c, x)
                }
                Node::Zext(a) => {
                    let aw = ar().w(a);
                    let x = self.trv(a);
                    Z3_mk_zero_ext(c, w - aw, x)
                }
                Node::Sext(a) => {
                    let aw = ar().w(a);
                    let x = self.trv(a);
                    Z3_mk_sign_ext(c, w - aw, x)
                }
                Node::Extract(a, lo) => {
                    let x = self.trv(a);
                    let r = Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x);
                    if w == 1 {
                        Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        r
                    }
                }
                Node::Concat(a, b) => {
                    let x = self.trv(a);
                    let y = self.trv(b);
                    Z3_mk_concat(c, x, y)
                }
                Node::Ite(k, a, b) => {
                    let (k, x, y) = (self.tr(k), self.tr(a), self.tr(b));
                    Z3_mk_ite(c, k, x, y)
                }
            }
        };
        if self.memo.len() <= e as usize {
            self.memo.resize(ar().nodes.len() + 256, std::ptr::null_mut());
        }
        self.memo[e as usize] = r;
        r
    }
    fn trv(&mut self, e: Ex) -> P {
        let x = self.tr(e);
        if ar().w(e) == 1 {
            self.b2v(x)
        } else {
            x
        }
    }
    fn b2v(&mut self, x: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, 1);
            Z3_mk_ite(self.ctx, x, Z3_mk_unsigned_int64(self.ctx, 1, s), Z3_mk_unsigned_int64(self.ctx, 0, s))
        }
    }
    fn bv(&mut self, op: BinOp, x: P, y: P) -> P {
        let c = self.ctx;
        unsafe {
            match op {
                BinOp::Add => Z3_mk_bvadd(c, x, y),
                BinOp::Sub => Z3_mk_bvsub(c, x, y),
                BinOp::Mul => Z3_mk_bvmul(c, x, y),
                BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                BinOp::URem => Z3_mk_bvurem(c, x, y),
                BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                BinOp::And => Z3_mk_bvand(c, x, y),
                BinOp::Or => Z3_mk_bvor(c, x, y),
                BinOp::Xor => Z3_mk_bvxor(c, x, y),
                BinOp::Shl => Z3_mk_bvshl(c, x, y),
                BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                BinOp::AShr => Z3_mk_bvashr(c, x, y),
            }
        }
    }
    /// Satisfiability of the conjunction; a model for the symbols involved.
    pub fn check(&mut self, cons: &[Ex]) -> Option<Vec<(u32, u64)>> {
        let mut key: Vec<Ex> = cons.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let r = self.check_uncached(&key);
        self.cache.insert(key, r.clone());
        r
    }
    fn check_uncached(&mut self, key: &[Ex]) -> Option<Vec<(u32, u64)>> {
        let t = Instant::now();
        self.queries += 1;
        let c = self.ctx;
        let mut syms: Vec<u32> = vec![];
        for &e in key {
            for &s in ar().symset(e).iter() {
                if !syms.contains(&s) {
                    syms.push(s)
                }
            }
        }
        let r = unsafe {
            Z3_solver_reset(c, self.slv);
            for &e in key {
                let a = self.tr(e);
                Z3_solver_assert(c, self.slv, a);
            }
            match Z3_solver_check(c, self.slv) {
                -1 => {
                    self.unsat += 1;
                    None
                }
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(c, self.slv);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for s in syms {
                        let w = ar().syms[s as usize].1;
                        let e = ar().symx(s);
                        let t = self.tr(e);
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, t, true, &mut v);
                        let val = if w == 1 {
                            (Z3_get_bool_value(c, v) == 1) as u64
                        } else {
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(c, v, &mut u);
                            u
                        };
                        out.push((s, val));
                    }
                    Z3_model_dec_ref(c, m);
                    Some(out)
                }
                _ => {
                    self.unknown += 1;
                    eprintln!("symx: solver returned unknown (timeout)");
                    std::process::exit(3);
                }
            }
        };
        self.time += t.elapsed().as_secs_f64();
        r
    }
    /// Certify, once per distinct one-symbol expression, that the value table the
    /// executor uses for it is exact: Z3 must refute  e != table(sym).
    /// The expression with its only symbol renamed to a canonical one, so that one proof
    /// serves every position at which the same computation occurs.
    fn canon(&mut self, e: Ex) -> Ex {
        if ar().unary(e).is_none() {
            return e;
        }
        if let Some(x) = self.canon.get(&e) {
            return *x;
        }
        let w = ar().w(e);
        let r = match ar().node(e) {
            Node::Const(_) => e,
            Node::Sym(s) => {
                let sw = ar().syms[s as usize].1 as u32;
                ar().sym(1 << 30, sw).0
            }
            Node::Bin(op, a, b) => {
                let (a, b) = (self.canon(a), self.canon(b));
                ar().bin(op, a, b)
            }
            Node::Cmp(op, a, b) => {
                let (a, b) = (self.canon(a), self.canon(b));
                ar().cmp(op, a, b)
            }
            Node::Not(a) => {
                let a = self.canon(a);
                ar().not(a)
            }
            Node::Zext(a) => {
                let a = self.canon(a);
                ar().zext(a, w)
            }
            Node::Sext(a) => {
                let a = self.canon(a);
                ar().sext(a, w)
            }
            Node::Extract(a, lo) => {
                let a = self.canon(a);
                ar().extract(a, lo as u32, w)
            }
            Node::Concat(h, l) => {
                let (h, l) = (self.canon(h), self.canon(l));
                ar().concat(h, l)
            }
            Node::Ite(c, a, b) => {
                let (c, a, b) = (self.canon(c), self.canon(a), self.canon(b));
                ar().ite(c, a, b)
            }
        };
        self.canon.insert(e, r);
        r
    }
    fn children(e: Ex) -> [Option<Ex>; 3] {
        match ar().node(e) {
            Node::Const(_) | Node::Sym(_) => [None; 3],
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => [Some(a), Some(b), None],
            Node::Not(a) | Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) => [Some(a), None, None],
            Node::Ite(c, a, b) => [Some(c), Some(a), Some(b)],
        }
    }
    /// The number of nodes below e (counted along every path) down to nodes whose tables
    /// are certified, after certifying some on the way so that it stays small.
    fn stages(&mut self, e: Ex) -> usize {
        let mut total = 1;
        for a in Self::children(e).into_iter().flatten() {
            if ar().unary(a).is_none() {
                continue;
            }
            if self.certified.contains_key(&a) {
                total += 1;
                continue;
            }
            let mut n = match self.staged.get(&a) {
                Some(n) => *n,
                None => self.stages(a),
            };
            if n > STAGE && ar().w(a) <= 64 {
                self.certified.insert(a, ());
                let s = ar().unary(a).unwrap();
                self.certify_ground(a, s, 1usize << ar().syms[s as usize].1);
                n = 1;
            }
            total += n;
        }
        self.staged.insert(e, total);
        total
    }
    /// Certifies a table value by value: with the symbol and the certified nodes below
    /// replaced by their values, Z3's rewriter must decide  e != table[v]  to be false.
    fn certify_ground(&mut self, e: Ex, s: u32, n: usize) {
        let mut seen: FxMap<Ex, ()> = Default::default();
        let mut cut = vec![];
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            for a in Self::children(x).into_iter().flatten() {
                if ar().unary(a).is_none() || seen.insert(a, ()).is_some() {
                    continue;
                }
                if self.certified.contains_key(&a) || matches!(ar().node(a), Node::Sym(_)) {
                    cut.push(a);
                } else {
                    todo.push(a);
                }
            }
        }
        debug_assert!(ar().unary(e) == Some(s));
        let t = ar().table(e);
        let w = ar().w(e);
        let from: Vec<P> = cut.iter().map(|&x| self.tr(x)).collect();
        let tabs: Vec<_> = cut.iter().map(|&x| (ar().table(x), ar().w(x))).collect();
        let ez = self.tr(e);
        for v in 0..n {
            let kz = self.tr(ar().c(t[v] as u128, w));
            let to: Vec<P> = tabs.iter().map(|(t, w)| self.tr(ar().c(t[v] as u128, *w))).collect();
            let c = self.ctx;
            let q = unsafe {
                let ne = Z3_mk_not(c, Z3_mk_eq(c, ez, kz));
                Z3_simplify(c, Z3_substitute(c, ne, from.len() as c_uint, from.as_ptr(), to.as_ptr()))
            };
            if unsafe { Z3_get_bool_value(c, q) } != -1 {
                eprintln!("symx: INTERNAL: value table not certified by Z3 for {}", ar().show(e, 6));
                std::process::exit(3);
            }
        }
    }
    /// Per-symbol value tables decide branches on expressions of one small symbol.
    /// Z3 refutes that the expression differs from its table for any value.
    pub fn certify_table(&mut self, e: Ex) {
        if self.certified.contains_key(&e) {
            return;
        }
        self.certified.insert(e, ());
        if let Node::Sym(_) = ar().node(e) {
            return;
        }
        let t = ar().table(e);
        let ce = self.canon(e);
        if ce != e {
            if self.certified.contains_key(&ce) {
                return;
            }
            self.certified.insert(ce, ());
        }
        let s = match ar().unary(ce) {
            Some(s) => s,
            None => ar().symset(e)[0], // folded to a constant by renaming
        };
        let sw = ar().syms[s as usize].1 as u32;
        let w = ar().w(e);
        let n = 1usize << sw;
        let mut groups: std::collections::BTreeMap<u64, [u64; 4]> = Default::default();
        for v in 0..n {
            groups.entry(t[v]).or_insert([0; 4])[v >> 6] |= 1 << (v & 63);
        }
        self.cert += 1;
        let tm = Instant::now();
        if ar().unary(ce).is_some() && self.stages(ce) > STAGE {
            self.certify_ground(ce, s, n);
            self.time += tm.elapsed().as_secs_f64();
            return;
        }
        unsafe {
            let c = self.ctx;
            let ez = self.tr(ce);
            if groups.len() > 8 {
                // many values: one refutation per value of the symbol, the formula
                // e(v) != table[v] being decided by Z3's rewriter
                let from = self.tr(ar().symx(s));
                for v in 0..n {
                    let kv = self.tr(ar().c(v as u128, sw));
                    let kz = self.tr(ar().c(t[v] as u128, w));
                    let ne = Z3_mk_not(c, Z3_mk_eq(c, ez, kz));
                    let q = Z3_simplify(c, Z3_substitute(c, ne, 1, &from, &kv));
                    if Z3_get_bool_value(c, q) != -1 {
                        eprintln!("symx: INTERNAL: value table not certified by Z3 for {}", ar().show(e, 6));
                        std::process::exit(3);
                    }
                }
                self.time += tm.elapsed().as_secs_f64();
                return;
            }
            // some value group on which the expression takes another value
            let mut ors = vec![];
            for (val, set) in groups {
                let k = ar().c(val as u128, w);
                let kz = self.tr(k);
                let m = ar().in_set(s, &set);
                let mz = self.tr(m);
                let ne = Z3_mk_not(c, Z3_mk_eq(c, ez, kz));
                let v = [mz, ne];
                ors.push(Z3_mk_and(c, 2, v.as_ptr()));
            }
            let q = Z3_mk_or(c, ors.len() as u32, ors.as_ptr());
            Z3_solver_reset(c, self.slv);
            Z3_solver_assert(c, self.slv, q);
            if Z3_solver_check(c, self.slv) != -1 {
                eprintln!("symx: INTERNAL: value table not certified by Z3 for {}", ar().show(e, 6));
                std::process::exit(3);
            }
        }
        let d = tm.elapsed().as_secs_f64();
        if d > 0.05 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!("slow cert {:.3} w{} {}", d, w, ar().show(e, 5));
        }
        self.time += d;
    }
}
