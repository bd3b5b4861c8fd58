//! Byte-addressed object memory: address = object id << 32 | offset.
use crate::expr::*;
use crate::ir::Val;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq)]
pub struct SymB {
    pub e: Ex, // 0: concrete
    pub i: u8, // byte index inside e
}
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<SymB>>,
    pub constant: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, constant: false }
    }
    pub fn load(&self, off: usize, n: usize) -> Val {
        if let Some(s) = &self.sym {
            if s[off..off + n].iter().any(|b| b.e != 0) {
                return self.load_sym(off, n);
            }
        }
        self.load_conc(off, n)
    }
    #[inline]
    pub fn load_conc(&self, off: usize, n: usize) -> Val {
        let d = &self.data[off..off + n];
        match n {
            8 => Val::C(u64::from_le_bytes(d.try_into().unwrap())),
            4 => Val::C(u32::from_le_bytes(d.try_into().unwrap()) as u64),
            1 => Val::C(d[0] as u64),
            2 => Val::C(u16::from_le_bytes(d.try_into().unwrap()) as u64),
            _ if n <= 8 => {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(d);
                Val::C(u64::from_le_bytes(b))
            }
            _ => {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(d);
                Val::W(Rc::new(u128::from_le_bytes(b)))
            }
        }
    }
    fn load_sym(&self, off: usize, n: usize) -> Val {
        let s = &self.sym.as_ref().unwrap()[off..off + n];
        let a = ar();
        let first = s[0];
        if first.e != 0 && s.iter().enumerate().all(|(k, b)| b.e == first.e && b.i as usize == first.i as usize + k) {
            let w = a.w(first.e);
            let lo = first.i as u32 * 8;
            if lo + (n as u32) * 8 <= w {
                return wrap(a.extract(first.e, lo, n as u32 * 8));
            }
        }
        let mut r: Ex = 0;
        for k in 0..n {
            let b = s[k];
            let x = if b.e == 0 {
                a.c(self.data[off + k] as u128, 8)
            } else {
                let w = a.w(b.e);
                let lo = b.i as u32 * 8;
                if lo + 8 <= w {
                    a.extract(b.e, lo, 8)
                } else {
                    let t = a.extract(b.e, lo, w - lo);
                    a.zext(t, 8)
                }
            };
            r = if k == 0 { x } else { a.concat(x, r) };
        }
        wrap(r)
    }
    pub fn store(&mut self, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                if n <= 8 {
                    self.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    self.data[off..off + 8].copy_from_slice(&b);
                    for x in &mut self.data[off + 8..off + n] {
                        *x = 0
                    }
                }
                self.clear_sym(off, n);
            }
            Val::W(c) => {
                let b = c.to_le_bytes();
                self.data[off..off + n].copy_from_slice(&b[..n]);
                self.clear_sym(off, n);
            }
            Val::S(e) => {
                let a = ar();
                let mut e = *e;
                let w = a.w(e);
                if (w as usize) < n * 8 {
                    e = a.zext(e, n as u32 * 8);
                }
                if let Some(c) = a.cst(e) {
                    let v = if n <= 8 { Val::C(c as u64) } else { Val::W(Rc::new(c)) };
                    return self.store(off, n, &v);
                }
                let len = self.data.len();
                let s = self.sym.get_or_insert_with(|| vec![SymB { e: 0, i: 0 }; len]);
                for k in 0..n {
                    s[off + k] = SymB { e, i: k as u8 };
                }
            }
            Val::A(_) => panic!("aggregate scalar store"),
        }
    }
    #[inline]
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            for b in &mut s[off..off + n] {
                b.e = 0
            }
        }
    }
    pub fn copy_from(&mut self, doff: usize, src: &Obj, soff: usize, n: usize) {
        self.data[doff..doff + n].copy_from_slice(&src.data[soff..soff + n]);
        match &src.sym {
            Some(ss) if ss[soff..soff + n].iter().any(|b| b.e != 0) => {
                let len = self.data.len();
                let s = self.sym.get_or_insert_with(|| vec![SymB { e: 0, i: 0 }; len]);
                s[doff..doff + n].copy_from_slice(&ss[soff..soff + n]);
            }
            _ => self.clear_sym(doff, n),
        }
    }
    pub fn copy_within(&mut self, doff: usize, soff: usize, n: usize) {
        self.data.copy_within(soff..soff + n, doff);
        if let Some(s) = &mut self.sym {
            s.copy_within(soff..soff + n, doff);
        }
    }
    pub fn byte(&self, off: usize) -> Val {
        self.load(off, 1)
    }
}
pub fn wrap(e: Ex) -> Val {
    match ar().cst(e) {
        Some(c) => crate::ir::norm_wide(c, ar().w(e)),
        None => Val::S(e),
    }
}

const CH: usize = 64;
pub const HEAP0: u64 = 0x0100_0000;
#[derive(Clone)]
struct Chunk([Option<Rc<Obj>>; CH]);
#[derive(Clone)]
pub struct Mem {
    heap: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    next: u32,
    pub gmut: Rc<FxMap<u32, Rc<Obj>>>,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { heap: vec![], free: vec![], next: 0, gmut: Default::default() }
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = if let Some(i) = self.free.pop() {
            i
        } else {
            let i = self.next;
            self.next += 1;
            if i as usize / CH >= self.heap.len() {
                self.heap.push(Rc::new(Chunk(std::array::from_fn(|_| None))));
            }
            i
        };
        let ch = Rc::make_mut(&mut self.heap[id as usize / CH]);
        ch.0[id as usize % CH] = Some(Rc::new(o));
        (HEAP0 + id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> bool {
        let id = (addr >> 32).wrapping_sub(HEAP0);
        if id >= self.next as u64 {
            return false;
        }
        let ch = Rc::make_mut(&mut self.heap[id as usize / CH]);
        if ch.0[id as usize % CH].take().is_none() {
            return false;
        }
        self.free.push(id as u32);
        true
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= HEAP0 {
            let k = (id - HEAP0) as usize;
            self.heap.get(k / CH)?.0[k % CH].as_ref()
        } else {
            self.gmut.get(&(id as u32))
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= HEAP0 {
            let k = (id - HEAP0) as usize;
            let ch = self.heap.get_mut(k / CH)?;
            let ch = Rc::make_mut(ch);
            ch.0[k % CH].as_mut().map(Rc::make_mut)
        } else {
            Rc::make_mut(&mut self.gmut).get_mut(&(id as u32)).map(Rc::make_mut)
        }
    }
    pub fn put_global(&mut self, id: u32, o: Obj) {
        Rc::make_mut(&mut self.gmut).insert(id, Rc::new(o));
    }
    pub fn live(&self) -> usize {
        self.next as usize - self.free.len()
    }
}
