//! Symbolic interpreter: states, forking, path constraints, builtins.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::Solver;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

pub type Set = [u64; 4];
#[inline]
fn set_has(s: &Set, v: usize) -> bool {
    (s[v >> 6] >> (v & 63)) & 1 == 1
}
#[inline]
fn set_add(s: &mut Set, v: usize) {
    s[v >> 6] |= 1 << (v & 63)
}
#[inline]
fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
#[inline]
fn set_len(s: &Set) -> u32 {
    s.iter().map(|x| x.count_ones()).sum()
}
#[inline]
fn set_min(s: &Set) -> Option<usize> {
    for i in 0..4 {
        if s[i] != 0 {
            return Some(i * 64 + s[i].trailing_zeros() as usize);
        }
    }
    None
}
fn set_iter(s: &Set) -> impl Iterator<Item = usize> + '_ {
    (0..256).filter(move |v| set_has(s, *v))
}

pub struct Frame {
    pub f: &'static Func,
    pub bb: u32,
    pub ip: u32,
    pub slots: Vec<Val>,
    pub allocas: Vec<u64>,
    pub dst: Option<u32>,
    pub next: Option<u32>,
}
impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame {
            f: self.f,
            bb: self.bb,
            ip: self.ip,
            slots: self.slots.clone(),
            allocas: self.allocas.clone(),
            dst: self.dst,
            next: self.next,
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub dom: Rc<Vec<Set>>,
    pub mpc: Rc<Vec<Ex>>,
    pub mpc_syms: Rc<BTreeSet<u32>>,
    pub model: Rc<Vec<u64>>,
    pub conc: Rc<FxMap<Ex, u64>>,
    /// symbol ids in creation order
    pub order: Rc<Vec<u32>>,
    pub obs: Rc<Vec<Val>>,
    pub reach: Rc<BTreeSet<u64>>,
    pub steps: u64,
    pub depth: u32,
}

pub enum Stop {
    Done,
    Assume,
    /// kind, code, message
    Viol(char, u64, String),
    Err(String),
}
type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

pub struct PathRec {
    pub kind: char, // o ok, a assumed away, c check failed, p panic, h hang, e engine error
    pub code: u64,
    pub hash: u64,
    pub vals: Vec<u64>,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub steps: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub tables: u64,
    pub maxdepth: u32,
    pub maxsteps: u64,
    pub reach: BTreeMap<u64, u64>,
    pub viol: BTreeMap<(char, u64, String), u64>,
    pub fns: BTreeSet<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    No,
    Random(usize),
    Choose,
    Fork,
    Byte,
    Sym(u32),
    Assume,
    Check,
    Reach,
    Observe,
    Concretize,
    Enabled,
    IteMark,
    End,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    AlignedAlloc,
    Bcmp,
    Memcmp,
    Memchr,
    Memcpy,
    Memset,
    Strlen,
    PanicFmt,
    Panic,
    Abort,
    Zero,
    Errno,
    MemchrRust,
    Override(u32),
    Undefined,
}

pub struct Exec {
    pub m: Module,
    pub solver: Solver,
    pub work: VecDeque<State>,
    pub forked: bool,
    pub stats: Stats,
    gcache: Vec<Option<Rc<Obj>>>,
    ite_objs: BTreeSet<u64>,
    bi: Vec<Option<Bi>>,
    seen: Vec<bool>,
    pool: Vec<Vec<Val>>,
    pub max_steps: u64,
    pub out: Vec<PathRec>,
    pub trace: bool,
    /// property numbers whose checks count (code / 100); none: all of them
    pub props: Vec<u64>,
}

enum Flow {
    Next,
    Jumped,
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        let ng = m.globals.len();
        let nf = m.funcs.len();
        Exec {
            m,
            solver: Solver::new(60000),
            work: VecDeque::new(),
            forked: false,
            stats: Default::default(),
            gcache: vec![None; ng + 1],
            ite_objs: Default::default(),
            bi: vec![None; nf],
            seen: vec![false; nf],
            pool: vec![],
            max_steps: 20_000_000,
            out: vec![],
            trace: false,
            props: vec![],
        }
    }
    pub fn start(&mut self, name: &str) -> Result<State, String> {
        let fid = match self.m.resolve(name) {
            Some(GRef::Func(f)) => f,
            _ => return Err(format!("no function {name}")),
        };
        let f = self.m.func(fid)?;
        self.seen[fid as usize] = true;
        Ok(State {
            top: Frame { f, bb: 0, ip: 0, slots: vec![Val::C(0); f.nslots as usize], allocas: vec![], dst: None, next: None },
            stack: vec![],
            mem: Mem::new(),
            dom: Default::default(),
            mpc: Default::default(),
            mpc_syms: Default::default(),
            model: Default::default(),
            conc: Default::default(),
            order: Default::default(),
            obs: Default::default(),
            reach: Default::default(),
            steps: 0,
            depth: 0,
        })
    }
    pub fn fns_seen(&self) -> Vec<&'static str> {
        (0..self.seen.len()).filter(|i| self.seen[*i]).map(|i| self.m.funcs[i].name).collect()
    }
    pub fn seen_ids(&self) -> Vec<usize> {
        (0..self.seen.len()).filter(|i| self.seen[*i]).collect()
    }

    // ------------------------------------------------------------ driver
    /// Run a state to its end (or, in bfs mode, until it forks).
    pub fn run(&mut self, mut st: State, bfs: bool) {
        let stop = loop {
            self.forked = false;
            if st.steps >= self.max_steps {
                break Stop::Viol('h', 0, format!("no end after {} steps in {}", st.steps, st.top.f.name));
            }
            match self.block(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
            if bfs && self.forked {
                self.work.push_back(st);
                return;
            }
        };
        self.finish(st, stop);
    }
    fn finish(&mut self, st: State, stop: Stop) {
        self.stats.steps += st.steps;
        self.stats.maxsteps = self.stats.maxsteps.max(st.steps);
        self.stats.maxdepth = self.stats.maxdepth.max(st.depth);
        for r in st.reach.iter() {
            *self.stats.reach.entry(*r).or_default() += 1;
        }
        let (kind, code, mut msg) = match stop {
            Stop::Done => ('o', 0, String::new()),
            Stop::Assume => {
                self.stats.assumed += 1;
                return;
            }
            Stop::Viol(k, c, m) => (k, c, m),
            Stop::Err(m) => {
                ('e', 0, m)
            }
        };
        if kind == 'o' {
            self.stats.paths += 1;
        }
        if kind == 'e' || kind == 'h' {
            msg.push_str(&format!(" [stack: {}]", self.backtrace(&st)));
        }
        self.record(&st, kind, code, msg);
    }
    fn backtrace(&self, st: &State) -> String {
        let mut v = vec![st.top.f.name];
        for f in st.stack.iter().rev().take(12) {
            v.push(f.f.name)
        }
        v.join(" < ")
    }
    fn record(&mut self, st: &State, kind: char, code: u64, msg: String) {
        if kind != 'o' {
            let n = self.stats.viol.entry((kind, code, msg.clone())).or_default();
            *n += 1;
            if *n > 25 {
                return;
            }
        }
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        let obs = st.obs.clone();
        let a = ar();
        a.eval_begin();
        for v in obs.iter() {
            let x = match v {
                Val::C(c) => *c,
                Val::S(e) => a.eval_rec(*e, &st.model) as u64,
                _ => 0,
            };
            h = (h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(17);
        }
        let vals = st.order.iter().map(|s| st.model[*s as usize]).collect();
        self.out.push(PathRec { kind, code, hash: h, vals, msg });
    }

    // ------------------------------------------------------------ constraints
    fn set_model(st: &mut State, upd: &[(u32, u64)]) {
        if upd.is_empty() {
            return;
        }
        let m = Rc::make_mut(&mut st.model);
        for (s, v) in upd {
            m[*s as usize] = *v
        }
    }
    fn cond_set(&mut self, e: Ex) -> Set {
        let t = ar().table(e);
        let mut s = [0u64; 4];
        for v in 0..256 {
            if t[v] == 1 {
                set_add(&mut s, v)
            }
        }
        s
    }
    fn slice(&mut self, st: &State, cond: &[Ex], extra: &[(u32, Set)]) -> Vec<Ex> {
        let mut syms: BTreeSet<u32> = BTreeSet::new();
        for c in cond {
            syms.extend(ar().symset(*c).iter());
        }
        for (s, _) in extra {
            syms.insert(*s);
        }
        let mut used = vec![false; st.mpc.len()];
        let mut r: Vec<Ex> = cond.to_vec();
        loop {
            let mut ch = false;
            for (i, e) in st.mpc.iter().enumerate() {
                if !used[i] && ar().symset(*e).iter().any(|s| syms.contains(s)) {
                    used[i] = true;
                    ch = true;
                    syms.extend(ar().symset(*e).iter());
                    r.push(*e);
                }
            }
            if !ch {
                break;
            }
        }
        for s in syms {
            let w = ar().syms[s as usize].1;
            if w > 8 {
                continue;
            }
            let mut d = st.dom[s as usize];
            for (x, t) in extra {
                if *x == s {
                    d = set_and(&d, t)
                }
            }
            if set_len(&d) < (1u32 << w) {
                let e = ar().in_set(s, &d);
                r.push(e)
            }
        }
        r
    }
    /// Is pc ∧ cond satisfiable?  Returns a model update.
    fn feasible(&mut self, st: &State, cond: Ex) -> Option<Vec<(u32, u64)>> {
        if let Some(c) = ar().cst(cond) {
            return if c == 1 { Some(vec![]) } else { None };
        }
        if ar().eval(cond, &st.model) == 1 {
            return Some(vec![]);
        }
        if let Some(s) = ar().unary(cond) {
            let set = self.cond_set(cond);
            self.solver.certify_table(cond);
            let d = set_and(&set, &st.dom[s as usize]);
            let v = set_min(&d)?;
            if !st.mpc_syms.contains(&s) {
                return Some(vec![(s, v as u64)]);
            }
        }
        let q = self.slice(st, &[cond], &[]);
        self.solver.check(&q)
    }
    fn feasible_set(&mut self, st: &State, s: u32, set: &Set) -> Option<Vec<(u32, u64)>> {
        let d = set_and(set, &st.dom[s as usize]);
        let v = set_min(&d)?;
        if set_has(&d, st.model[s as usize] as usize) {
            return Some(vec![]);
        }
        if !st.mpc_syms.contains(&s) {
            return Some(vec![(s, v as u64)]);
        }
        let q = self.slice(st, &[], &[(s, d)]);
        self.solver.check(&q)
    }
    fn add_set(&mut self, st: &mut State, s: u32, set: &Set) {
        let d = set_and(set, &st.dom[s as usize]);
        if d != st.dom[s as usize] {
            Rc::make_mut(&mut st.dom)[s as usize] = d;
        }
    }
    fn add(&mut self, st: &mut State, cond: Ex) {
        if ar().cst(cond).is_some() {
            return;
        }
        if let Node::Bin(BinOp::And, a, b) = ar().node(cond) {
            self.add(st, a);
            self.add(st, b);
            return;
        }
        if let Some(s) = ar().unary(cond) {
            let set = self.cond_set(cond);
            self.solver.certify_table(cond);
            self.add_set(st, s, &set);
            return;
        }
        if st.mpc.contains(&cond) {
            return;
        }
        Rc::make_mut(&mut st.mpc).push(cond);
        let syms: Vec<u32> = ar().symset(cond).to_vec();
        Rc::make_mut(&mut st.mpc_syms).extend(syms);
    }
    fn spawn(&mut self, st: State) {
        self.stats.forks += 1;
        self.forked = true;
        self.work.push_back(st);
    }
    /// Substitute pinned symbols / already concretized expressions.
    fn norm(&mut self, st: &State, e: Ex) -> Val {
        let a = ar();
        if !st.conc.is_empty() {
            if let Some(c) = st.conc.get(&e) {
                return Val::C(*c);
            }
        }
        let ss = a.symset(e);
        for &s in ss.iter() {
            if a.syms[s as usize].1 > 8 || set_len(&st.dom[s as usize]) != 1 {
                return Val::S(e);
            }
        }
        if a.w(e) > 64 {
            let v = a.eval(e, &st.model);
            return norm_wide(v, a.w(e));
        }
        if ss.len() == 1 {
            let s = ss[0];
            let v = set_min(&st.dom[s as usize]).unwrap();
            return Val::C(a.table(e)[v]);
        }
        Val::C(a.eval(e, &st.model) as u64)
    }
    /// Fork over all feasible values of e; the running state keeps one of them.
    fn concretize(&mut self, st: &mut State, e: Ex) -> X<u64> {
        if let Val::C(c) = self.norm(st, e) {
            return Ok(c);
        }
        if ar().w(e) > 64 {
            return err("concretize wide value");
        }
        if let Some(s) = ar().unary(e) {
            let t = ar().table(e);
            self.solver.certify_table(e);
            self.stats.tables += 1;
            let d = st.dom[s as usize];
            let mut groups: BTreeMap<u64, Set> = BTreeMap::new();
            for v in set_iter(&d) {
                set_add(groups.entry(t[v]).or_insert([0; 4]), v);
            }
            return self.fork_groups(st, s, e, groups);
        }
        let cur = ar().eval(e, &st.model) as u64;
        let w = ar().w(e);
        let mut vals: Vec<(u64, Vec<(u32, u64)>)> = vec![(cur, vec![])];
        let mut neq: Vec<Ex> = vec![];
        loop {
            let c = ar().c(vals.last().unwrap().0 as u128, w);
            let q = ar().cmp(CmpOp::Eq, e, c);
            let q = ar().not(q);
            neq.push(q);
            let q = self.slice(st, &neq, &[]);
            match self.solver.check(&q) {
                None => break,
                Some(m) => {
                    let mut md = (*st.model).clone();
                    for (s, v) in &m {
                        md[*s as usize] = *v
                    }
                    let v = ar().eval(e, &md) as u64;
                    vals.push((v, m));
                    if vals.len() > 4096 {
                        return err(format!("too many values to concretize: {}", ar().show(e, 5)));
                    }
                }
            }
        }
        for (v, m) in vals.iter().skip(1) {
            let mut n = st.clone();
            n.depth += 1;
            Self::set_model(&mut n, m);
            let c = ar().eqc(e, *v as u128);
            self.add(&mut n, c);
            Rc::make_mut(&mut n.conc).insert(e, *v);
            self.spawn(n);
        }
        if vals.len() > 1 {
            let c = ar().eqc(e, cur as u128);
            self.add(st, c);
            st.depth += 1;
        }
        Rc::make_mut(&mut st.conc).insert(e, cur);
        Ok(cur)
    }
    fn fork_groups(&mut self, st: &mut State, s: u32, e: Ex, groups: BTreeMap<u64, Set>) -> X<u64> {
        let curv = st.model[s as usize] as usize;
        let mut mine: Option<(u64, Set)> = None;
        let mut n_f = 0;
        for (v, set) in groups {
            if set_has(&set, curv) {
                mine = Some((v, set));
                continue;
            }
            if let Some(m) = self.feasible_set(st, s, &set) {
                n_f += 1;
                let mut n = st.clone();
                n.depth += 1;
                Self::set_model(&mut n, &m);
                self.add_set(&mut n, s, &set);
                if e != 0 {
                    Rc::make_mut(&mut n.conc).insert(e, v);
                }
                self.spawn(n);
            }
        }
        let (v, set) = match mine {
            Some(x) => x,
            None => return err("model outside domain"),
        };
        if n_f > 0 {
            st.depth += 1;
        }
        self.add_set(st, s, &set);
        if e != 0 {
            Rc::make_mut(&mut st.conc).insert(e, v);
        }
        Ok(v)
    }
    fn cval(&mut self, st: &mut State, v: &Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.concretize(st, *e),
            Val::W(w) => Ok(**w as u64),
            Val::A(_) => err("aggregate as scalar"),
        }
    }
    /// Decide a branch: Ok(taken) for this state, forking the other side through `mk`.
    fn branch(&mut self, st: &mut State, c: Ex) -> (bool, Option<State>) {
        let cur = ar().eval(c, &st.model) == 1;
        let nc = ar().not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        let r = self.feasible(st, other);
        match r {
            None => {
                // implied: remember nothing
                (cur, None)
            }
            Some(m) => {
                let mut n = st.clone();
                n.depth += 1;
                st.depth += 1;
                Self::set_model(&mut n, &m);
                self.add(&mut n, other);
                self.add(st, mine);
                (cur, Some(n))
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn obj(&mut self, st: &State, id: u64) -> X<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) {
            return Ok(o.clone());
        }
        if id >= 1 && (id as usize) < self.gcache.len() {
            return self.global(id as u32);
        }
        err(format!("access through invalid pointer (object {id:#x})"))
    }
    fn global(&mut self, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = &self.gcache[id as usize] {
            return Ok(o.clone());
        }
        let (b, c) = self.m.global_bytes(id).map_err(|e| Stop::Err(format!("global {}: {e}", self.m.globals[id as usize - 1].name)))?;
        let o = Rc::new(Obj { data: b, sym: None, constant: c });
        self.gcache[id as usize] = Some(o.clone());
        Ok(o)
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> X<&'a mut Obj> {
        if id < HEAP0 && st.mem.get(id).is_none() {
            if id == 0 || id as usize >= self.gcache.len() {
                return err(format!("store through invalid pointer (object {id:#x})"));
            }
            let o = self.global(id as u32)?;
            if o.constant {
                return err("store to constant");
            }
            st.mem.put_global(id as u32, (*o).clone());
        }
        match st.mem.get_mut(id) {
            Some(o) => Ok(o),
            None => err(format!("store through invalid pointer (object {id:#x})")),
        }
    }
    #[inline]
    fn rd(&mut self, st: &State, addr: u64, n: usize) -> X<Val> {
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        if let Some(o) = st.mem.get(id) {
            if off + n > o.data.len() {
                return err(format!("load out of bounds: offset {off}+{n} of {}", o.data.len()));
            }
            return Ok(o.load(off, n));
        }
        let o = self.obj(st, id)?;
        if off + n > o.data.len() {
            return err(format!("load out of bounds: offset {off}+{n} of {} (global {})", o.data.len(), self.gname(id)));
        }
        Ok(o.load_conc(off, n))
    }
    fn gname(&self, id: u64) -> &'static str {
        if id >= 1 && (id as usize) <= self.m.globals.len() {
            self.m.globals[id as usize - 1].name
        } else {
            "?"
        }
    }
    fn wr(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> X<()> {
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let o = self.obj_mut(st, id)?;
        if off + n > o.data.len() {
            return err(format!("store out of bounds: offset {off}+{n} of {}", o.data.len()));
        }
        o.store(off, n, v);
        Ok(())
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                let v = self.rd(st, addr, n)?;
                if w & 7 != 0 {
                    return Ok(self.trunc(&v, n as u32 * 8, w));
                }
                Ok(v)
            }
            Ty::Vec(n, t) => {
                let s = t.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    v.push(self.load_ty(st, addr + i * s, t)?)
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_ty(st, addr + i * s, t)?)
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let (o, _) = ty.fields();
                let mut v = vec![];
                for i in 0..f.len() {
                    v.push(self.load_ty(st, addr + o[i], &f[i])?)
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Vec(_, t), Val::A(a)) | (Ty::Arr(_, t), Val::A(a)) => {
                let s = t.size();
                for (i, x) in a.iter().enumerate() {
                    self.store_ty(st, addr + i as u64 * s, t, x)?
                }
                Ok(())
            }
            (Ty::Struct(f, _), Val::A(a)) => {
                let (o, _) = ty.fields();
                for i in 0..f.len() {
                    self.store_ty(st, addr + o[i], &f[i], &a[i])?
                }
                Ok(())
            }
            _ => {
                let n = ((ty.bits() + 7) / 8) as usize;
                self.wr(st, addr, n, v)
            }
        }
    }
    /// Load through a symbolic address.
    fn load_symaddr(&mut self, st: &mut State, e: Ex, ty: &Ty) -> X<Val> {
        if let (Some(s), true) = (ar().unary(e), ty.scalar() && ty.bits() <= 64) {
            let t = ar().table(e);
            let d = st.dom[s as usize];
            let w = ty.bits();
            let mut groups: BTreeMap<u64, Set> = BTreeMap::new();
            let mut small = true;
            let mut ok = true;
            let mut last: Option<(u64, Rc<Obj>)> = None;
            let n = ((w + 7) / 8) as usize;
            for v in set_iter(&d) {
                let a = t[v];
                let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
                let o = match &last {
                    Some((i, o)) if *i == id => o.clone(),
                    _ => {
                        let o = self.obj(st, id)?;
                        if !(o.data.len() <= 512 || self.ite_objs.contains(&id)) {
                            small = false
                        }
                        last = Some((id, o.clone()));
                        o
                    }
                };
                if off + n > o.data.len() {
                    ok = false;
                    break;
                }
                match o.load(off, n) {
                    Val::C(c) => set_add(groups.entry(c & mask64(w)).or_insert([0; 4]), v),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                self.solver.certify_table(e);
                self.stats.tables += 1;
                if groups.len() == 1 {
                    return Ok(Val::C(*groups.keys().next().unwrap()));
                }
                if small {
                    return Ok(Val::S(self.ite_groups(s, &groups, w)));
                }
                let v = self.fork_groups(st, s, 0, groups)?;
                return Ok(Val::C(v));
            }
        }
        let a = self.concretize(st, e)?;
        self.load_ty(st, a, ty)
    }
    fn ite_groups(&mut self, s: u32, groups: &BTreeMap<u64, Set>, w: u32) -> Ex {
        // largest group last (the default leaf)
        let mut v: Vec<(u64, Set)> = groups.iter().map(|(a, b)| (*a, *b)).collect();
        v.sort_by_key(|(x, g)| (std::cmp::Reverse(set_len(g)), *x));
        let a = ar();
        let mut r = a.c(v[0].0 as u128, w);
        for (val, set) in v[1..].iter() {
            let c = a.in_set(s, set);
            let k = a.c(*val as u128, w);
            r = a.ite(c, k, r);
        }
        r
    }
    fn memcpy(&mut self, st: &mut State, dst: &Val, src: &Val, n: &Val) -> X<()> {
        let n = self.cval(st, n)? as usize;
        if n == 0 {
            return Ok(());
        }
        let d = self.cval(st, dst)?;
        if let Val::S(e) = src {
            // symbolic source: word-wise table loads when that does not fork
            if let Some(s) = ar().unary(*e) {
                let t = ar().table(*e);
                let dom = st.dom[s as usize];
                let mut good = true;
                for v in set_iter(&dom) {
                    let a = t[v];
                    let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
                    let o = self.obj(st, id)?;
                    if !(o.data.len() <= 512 || self.ite_objs.contains(&id)) || off + n > o.data.len() || o.sym.is_some() {
                        good = false;
                        break;
                    }
                }
                if good && n <= 256 {
                    let mut k = 0;
                    while k < n {
                        let c = if n - k >= 8 { 8 } else { 1 };
                        let o = ar().c(k as u128, 64);
                        let ea = ar().bin(BinOp::Add, *e, o);
                        let v = match wrap(ea) {
                            Val::S(ea) => self.load_symaddr(st, ea, &Ty::Int(c as u32 * 8))?,
                            Val::C(a) => self.rd(st, a, c)?,
                            _ => return err("memcpy"),
                        };
                        self.wr(st, d + k as u64, c, &v)?;
                        k += c;
                    }
                    return Ok(());
                }
            }
        }
        let s = self.cval(st, src)?;
        let (sid, soff) = (s >> 32, (s & 0xffff_ffff) as usize);
        let (did, doff) = (d >> 32, (d & 0xffff_ffff) as usize);
        if sid == did {
            let o = self.obj_mut(st, did)?;
            if soff + n > o.data.len() || doff + n > o.data.len() {
                return err("memcpy out of bounds");
            }
            o.copy_within(doff, soff, n);
            return Ok(());
        }
        let so = self.obj(st, sid)?;
        if soff + n > so.data.len() {
            return err(format!("memcpy source out of bounds: {soff}+{n} of {}", so.data.len()));
        }
        let o = self.obj_mut(st, did)?;
        if doff + n > o.data.len() {
            return err(format!("memcpy destination out of bounds: {doff}+{n} of {}", o.data.len()));
        }
        o.copy_from(doff, &so, soff, n);
        Ok(())
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn get(&mut self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::Slot(i) => match &st.top.slots[*i as usize] {
                Val::C(c) => Val::C(*c),
                Val::S(e) => self.norm(st, *e),
                v => v.clone(),
            },
            Opnd::C(c) => Val::C(*c),
            Opnd::K(v) => v.clone(),
        }
    }
    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::C(c) => ar().c(*c as u128, w),
            Val::S(e) => *e,
            Val::W(x) => ar().c(**x, w),
            Val::A(_) => panic!("aggregate in scalar position"),
        }
    }
    fn big(v: &Val) -> u128 {
        match v {
            Val::C(c) => *c as u128,
            Val::W(w) => **w,
            _ => 0,
        }
    }
    fn trunc(&mut self, v: &Val, from: u32, to: u32) -> Val {
        match v {
            Val::C(c) => Val::C(c & mask64(to)),
            Val::W(x) => norm_wide(**x & mask(to), to),
            Val::S(e) => {
                if from == to {
                    Val::S(*e)
                } else {
                    wrap(ar().extract(*e, 0, to))
                }
            }
            v => v.clone(),
        }
    }
    fn bin1(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 64 {
                let m = mask64(w);
                return Ok(Val::C(match op {
                    BinOp::Add => x.wrapping_add(y) & m,
                    BinOp::Sub => x.wrapping_sub(y) & m,
                    BinOp::Mul => x.wrapping_mul(y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    _ => match fold_bin(op, x as u128, y as u128, w) {
                        Some(r) => r as u64,
                        None => return err("division by zero"),
                    },
                }));
            }
        }
        match (a, b) {
            (Val::S(_), _) | (_, Val::S(_)) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                Ok(wrap(ar().bin(op, x, y)))
            }
            _ => match fold_bin(op, Self::big(a), Self::big(b), w) {
                Some(r) => Ok(norm_wide(r, w)),
                None => err("division by zero"),
            },
        }
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let sh = 64 - w;
                let (sx_, sy_) = ((x << sh) as i64, (y << sh) as i64);
                return Val::C(match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => sx_ < sy_,
                    Pred::Sle => sx_ <= sy_,
                    Pred::Sgt => sx_ > sy_,
                    Pred::Sge => sx_ >= sy_,
                } as u64);
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = ar();
        let e = match p {
            Pred::Eq => ar.cmp(CmpOp::Eq, x, y),
            Pred::Ne => {
                let t = ar.cmp(CmpOp::Eq, x, y);
                ar.not(t)
            }
            Pred::Ult => ar.cmp(CmpOp::Ult, x, y),
            Pred::Ule => ar.cmp(CmpOp::Ule, x, y),
            Pred::Ugt => ar.cmp(CmpOp::Ult, y, x),
            Pred::Uge => ar.cmp(CmpOp::Ule, y, x),
            Pred::Slt => ar.cmp(CmpOp::Slt, x, y),
            Pred::Sle => ar.cmp(CmpOp::Sle, x, y),
            Pred::Sgt => ar.cmp(CmpOp::Slt, y, x),
            Pred::Sge => ar.cmp(CmpOp::Sle, y, x),
        };
        wrap(e)
    }
    fn elems(v: &Val) -> &[Val] {
        match v {
            Val::A(a) => a,
            _ => &[],
        }
    }
    fn select1(&mut self, c: Ex, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        match (ty, a, b) {
            (Ty::Vec(_, t), Val::A(x), Val::A(y)) | (Ty::Arr(_, t), Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.select1(c, t, &x[i], &y[i])?)
                }
                Ok(Val::A(Rc::new(v)))
            }
            (Ty::Struct(f, _), Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.select1(c, &f[i], &x[i], &y[i])?)
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = ty.bits();
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                Ok(wrap(ar().ite(c, x, y)))
            }
        }
    }

    // ------------------------------------------------------------ control
    fn jump(&mut self, st: &mut State, target: u32) {
        let from = st.top.bb;
        let f = st.top.f;
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, v) = &b.phis[0];
                let val = v.iter().find(|(p, _)| *p == from).map(|(_, o)| self.get(st, o)).expect("phi");
                st.top.slots[*d as usize] = val;
            } else {
                let mut vals: Vec<Val> = Vec::with_capacity(b.phis.len());
                for (_, v) in &b.phis {
                    let val = v.iter().find(|(p, _)| *p == from).map(|(_, o)| self.get(st, o)).expect("phi");
                    vals.push(val);
                }
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    st.top.slots[*d as usize] = v;
                }
            }
        }
        st.top.bb = target;
        st.top.ip = 0;
    }
    /// Execute until the end of the current basic block (or a call/return/fork).
    fn block(&mut self, st: &mut State) -> X<()> {
        loop {
            let inst = &st.top.f.blocks[st.top.bb as usize].insts[st.top.ip as usize];
            st.steps += 1;
            match self.inst(st, inst)? {
                Flow::Next => {
                    st.top.ip += 1;
                    if self.forked {
                        return Ok(());
                    }
                }
                Flow::Jumped => return Ok(()),
            }
        }
    }
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        st.top.slots[d as usize] = v
    }
    fn inst(&mut self, st: &mut State, inst: &'static Inst) -> X<Flow> {
        match inst {
            Inst::Bin { op, w, lanes, a, b, dst } => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let r = if *lanes == 0 {
                    self.bin1(*op, *w, &x, &y)?
                } else {
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        v.push(self.bin1(*op, *w, &Self::elems(&x)[i], &Self::elems(&y)[i])?)
                    }
                    Val::A(Rc::new(v))
                };
                self.set(st, *dst, r);
            }
            Inst::Icmp { p, w, lanes, a, b, dst } => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let r = if *lanes == 0 {
                    self.icmp1(*p, *w, &x, &y)
                } else {
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        v.push(self.icmp1(*p, *w, &Self::elems(&x)[i], &Self::elems(&y)[i]))
                    }
                    Val::A(Rc::new(v))
                };
                self.set(st, *dst, r);
            }
            Inst::Cast { k, from, to, a, dst } => {
                let x = self.get(st, a);
                let r = self.cast(*k, from, to, &x)?;
                self.set(st, *dst, r);
            }
            Inst::Load { ty, p, dst } => {
                let r = match self.get(st, p) {
                    Val::C(a) => match ty {
                        Ty::Ptr => self.rd(st, a, 8)?,
                        _ => self.load_ty(st, a, ty)?,
                    },
                    Val::S(e) => self.load_symaddr(st, e, ty)?,
                    _ => return err("load address"),
                };
                let r = if let Val::S(e) = r { self.norm(st, e) } else { r };
                self.set(st, *dst, r);
            }
            Inst::Store { ty, v, p } => {
                let a = self.get(st, p);
                let a = self.cval(st, &a)?;
                let v = self.get(st, v);
                self.store_ty(st, a, ty, &v)?;
            }
            Inst::Gep { base, off, idx, dst } => {
                let mut acc = self.get(st, base);
                if let Val::C(c) = acc {
                    acc = Val::C(c.wrapping_add(*off));
                } else if *off != 0 {
                    acc = self.bin1(BinOp::Add, 64, &acc, &Val::C(*off))?;
                }
                for (o, w, scale) in idx {
                    let i = self.get(st, o);
                    match (&acc, &i) {
                        (Val::C(a), Val::C(i)) => {
                            let i = sx(*i as u128, *w) as i64 as u64;
                            acc = Val::C(a.wrapping_add(i.wrapping_mul(*scale)));
                        }
                        _ => {
                            let e = self.ex(&i, *w);
                            let e = if *w < 64 { ar().sext(e, 64) } else { e };
                            let s = ar().c(*scale as u128, 64);
                            let t = ar().bin(BinOp::Mul, e, s);
                            let b = self.ex(&acc, 64);
                            acc = wrap(ar().bin(BinOp::Add, b, t));
                        }
                    }
                }
                self.set(st, *dst, acc);
            }
            Inst::Select { c, lanes, ty, a, b, dst } => {
                let cv = self.get(st, c);
                let x = self.get(st, a);
                let y = self.get(st, b);
                let r = if *lanes == 0 {
                    match cv {
                        Val::C(1) => x,
                        Val::C(_) => y,
                        Val::S(e) => self.select1(e, ty, &x, &y)?,
                        _ => return err("select"),
                    }
                } else {
                    let t = match ty {
                        Ty::Vec(_, t) => t.clone(),
                        _ => return err("select lanes"),
                    };
                    let mut v = vec![];
                    for i in 0..*lanes as usize {
                        let (xi, yi) = (&Self::elems(&x)[i], &Self::elems(&y)[i]);
                        v.push(match &Self::elems(&cv)[i] {
                            Val::C(1) => xi.clone(),
                            Val::C(_) => yi.clone(),
                            Val::S(e) => self.select1(*e, &t, xi, yi)?,
                            _ => return err("select"),
                        })
                    }
                    Val::A(Rc::new(v))
                };
                self.set(st, *dst, r);
            }
            Inst::Freeze { a, dst } => {
                let x = self.get(st, a);
                self.set(st, *dst, x);
            }
            Inst::Alloca { size, dst } => {
                let a = st.mem.alloc(Obj::new(*size as usize));
                st.top.allocas.push(a);
                self.set(st, *dst, Val::C(a));
            }
            Inst::Extract { a, path, dst } => {
                let mut x = self.get(st, a);
                for i in path {
                    let t = Self::elems(&x)[*i as usize].clone();
                    x = t;
                }
                if let Val::S(e) = x {
                    x = self.norm(st, e)
                }
                self.set(st, *dst, x);
            }
            Inst::Insert { a, v, path, dst } => {
                let x = self.get(st, a);
                let v = self.get(st, v);
                fn ins(x: &Val, path: &[u32], v: Val) -> Val {
                    if path.is_empty() {
                        return v;
                    }
                    if let Val::A(a) = x {
                        let mut a = (**a).clone();
                        let i = path[0] as usize;
                        a[i] = ins(&a[i], &path[1..], v);
                        Val::A(Rc::new(a))
                    } else {
                        panic!("insertvalue")
                    }
                }
                let r = ins(&x, path, v);
                self.set(st, *dst, r);
            }
            Inst::ExtElem { a, i, dst } => {
                let x = self.get(st, a);
                let i = self.get(st, i);
                let i = self.cval(st, &i)?;
                let r = Self::elems(&x)[i as usize].clone();
                self.set(st, *dst, r);
            }
            Inst::InsElem { a, v, i, dst } => {
                let x = self.get(st, a);
                let v = self.get(st, v);
                let i = self.get(st, i);
                let i = self.cval(st, &i)?;
                let mut a = Self::elems(&x).to_vec();
                a[i as usize] = v;
                self.set(st, *dst, Val::A(Rc::new(a)));
            }
            Inst::Shuffle { a, b, n, m, dst } => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let v = m
                    .iter()
                    .map(|&k| if k < *n { Self::elems(&x)[k as usize].clone() } else { Self::elems(&y)[(k - n) as usize].clone() })
                    .collect();
                self.set(st, *dst, Val::A(Rc::new(v)));
            }
            Inst::Rmw { op, w, p, v, dst } => {
                let a = self.get(st, p);
                let a = self.cval(st, &a)?;
                let n = ((*w + 7) / 8) as usize;
                let old = self.rd(st, a, n)?;
                let v = self.get(st, v);
                let new = match *op {
                    "xchg" => v,
                    "add" => self.bin1(BinOp::Add, *w, &old, &v)?,
                    "sub" => self.bin1(BinOp::Sub, *w, &old, &v)?,
                    "and" => self.bin1(BinOp::And, *w, &old, &v)?,
                    "or" => self.bin1(BinOp::Or, *w, &old, &v)?,
                    "xor" => self.bin1(BinOp::Xor, *w, &old, &v)?,
                    "umax" | "umin" => {
                        let c = self.icmp1(if *op == "umax" { Pred::Ugt } else { Pred::Ult }, *w, &old, &v);
                        match c {
                            Val::C(1) => old.clone(),
                            Val::C(_) => v,
                            _ => return err("rmw"),
                        }
                    }
                    _ => return err(format!("atomicrmw {op}")),
                };
                self.wr(st, a, n, &new)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { ty, p, c, n, dst } => {
                let a = self.get(st, p);
                let a = self.cval(st, &a)?;
                let old = self.load_ty(st, a, ty)?;
                let c = self.get(st, c);
                let n = self.get(st, n);
                let oc = self.cval(st, &old)?;
                let cc = self.cval(st, &c)?;
                let eq = oc == cc;
                if eq {
                    self.store_ty(st, a, ty, &n)?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::C(eq as u64)])));
            }
            Inst::Br(t) => {
                self.jump(st, *t);
                return Ok(Flow::Jumped);
            }
            Inst::CondBr { c, t, f } => {
                match self.get(st, c) {
                    Val::C(x) => self.jump(st, if x == 1 { *t } else { *f }),
                    Val::S(e) => {
                        let (taken, other) = self.branch(st, e);
                        if let Some(mut o) = other {
                            self.jump(&mut o, if taken { *f } else { *t });
                            self.spawn(o);
                        }
                        self.jump(st, if taken { *t } else { *f });
                    }
                    _ => return err("br"),
                }
                return Ok(Flow::Jumped);
            }
            Inst::Switch { w, v, cases, def } => {
                match self.get(st, v) {
                    Val::C(x) => {
                        let t = cases.iter().find(|(c, _)| *c == x).map(|(_, b)| *b).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::S(e) => {
                        let t = self.switch_sym(st, e, *w, cases, *def)?;
                        self.jump(st, t);
                    }
                    _ => return err("switch"),
                }
                return Ok(Flow::Jumped);
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|o| self.get(st, o));
                let allocas = std::mem::take(&mut st.top.allocas);
                for a in allocas {
                    st.mem.free(a);
                }
                let caller = match st.stack.pop() {
                    None => return Err(Stop::Done),
                    Some(c) => c,
                };
                let caller = Rc::try_unwrap(caller).unwrap_or_else(|c| (*c).clone());
                let old = std::mem::replace(&mut st.top, caller);
                if let (Some(d), Some(v)) = (old.dst, r) {
                    st.top.slots[d as usize] = v;
                }
                let next = old.next;
                let mut sl = old.slots;
                sl.clear();
                if self.pool.len() < 64 {
                    self.pool.push(sl);
                }
                if let Some(n) = next {
                    self.jump(st, n);
                }
                return Ok(Flow::Jumped);
            }
            Inst::Call { callee, args, tys, ret, dst, next } => return self.call(st, callee, args, tys, ret, *dst, *next),
            Inst::Unreachable => return err("unreachable executed"),
            Inst::Nop => {}
            Inst::Unsupported(t) => return err(format!("unsupported: {t}")),
        }
        Ok(Flow::Next)
    }
    fn switch_sym(&mut self, st: &mut State, e: Ex, w: u32, cases: &[(u64, u32)], def: u32) -> X<u32> {
        if let Some(s) = ar().unary(e) {
            let t = ar().table(e);
            self.solver.certify_table(e);
            self.stats.tables += 1;
            let map: FxMap<u64, u32> = cases.iter().cloned().collect();
            let mut groups: BTreeMap<u64, Set> = BTreeMap::new();
            for v in set_iter(&st.dom[s as usize].clone()) {
                let tgt = map.get(&t[v]).cloned().unwrap_or(def);
                set_add(groups.entry(tgt as u64).or_insert([0; 4]), v);
            }
            let r = self.fork_groups(st, s, 0, groups)?;
            return Ok(r as u32);
        }
        // by target
        let mut tg: BTreeMap<u32, Ex> = BTreeMap::new();
        let mut none = ar().tru();
        for (c, b) in cases {
            let q = ar().eqc(e, *c as u128);
            let nq = ar().not(q);
            none = ar().and(none, nq);
            let old = tg.get(b).cloned().unwrap_or_else(|| ar().fls());
            let n = ar().or(old, q);
            tg.insert(*b, n);
        }
        let _ = w;
        let old = tg.get(&def).cloned().unwrap_or_else(|| ar().fls());
        let n = ar().or(old, none);
        tg.insert(def, n);
        let mut mine = None;
        let mut forks = vec![];
        for (b, c) in tg {
            if ar().eval(c, &st.model) == 1 {
                mine = Some((b, c));
            } else if let Some(m) = self.feasible(st, c) {
                forks.push((c, m));
            }
        }
        let any = !forks.is_empty();
        for (c, m) in forks {
            let mut n = st.clone();
            n.depth += 1;
            Self::set_model(&mut n, &m);
            self.add(&mut n, c);
            self.spawn(n);
        }
        let (b, c) = mine.unwrap();
        if any {
            st.depth += 1;
            self.add(st, c);
        }
        Ok(b)
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, x: &Val) -> X<Val> {
        if let (Ty::Vec(n, ft), Ty::Vec(m, tt)) = (from, to) {
            if n == m && k != Cast::Bit {
                let mut v = vec![];
                for e in Self::elems(x) {
                    v.push(self.cast(k, ft, tt, e)?)
                }
                return Ok(Val::A(Rc::new(v)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        match k {
            Cast::Bit => {
                if matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..)) {
                    return self.bitcast_vec(from, to, x);
                }
                Ok(x.clone())
            }
            Cast::Trunc => Ok(self.trunc(x, fw, tw)),
            Cast::Zext => Ok(match x {
                Val::C(c) => norm_wide(*c as u128, tw),
                Val::W(c) => Val::W(c.clone()),
                Val::S(e) => wrap(ar().zext(*e, tw)),
                _ => return err("zext"),
            }),
            Cast::Sext => Ok(match x {
                Val::C(c) => norm_wide(sx(*c as u128, fw) as u128 & mask(tw), tw),
                Val::W(c) => norm_wide(sx(**c, fw) as u128 & mask(tw), tw),
                Val::S(e) => wrap(ar().sext(*e, tw)),
                _ => return err("sext"),
            }),
        }
    }
    fn bitcast_vec(&mut self, from: &Ty, to: &Ty, x: &Val) -> X<Val> {
        let total = from.bits();
        if total > 128 {
            // elementwise regroup through bits of <=128 only when sizes divide
            return self.bitcast_big(from, to, x);
        }
        let e = match (from, x) {
            (Ty::Vec(_, t), Val::A(a)) => {
                let w = t.bits();
                let mut r = self.ex(&a[0], w);
                for v in &a[1..] {
                    let h = self.ex(v, w);
                    r = ar().concat(h, r);
                }
                r
            }
            _ => self.ex(x, total),
        };
        match to {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(wrap(ar().extract(e, i * w, w)));
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Ok(wrap(e)),
        }
    }
    fn bitcast_big(&mut self, from: &Ty, to: &Ty, x: &Val) -> X<Val> {
        if let (Ty::Vec(n, ft), Ty::Vec(m, tt), Val::A(a)) = (from, to, x) {
            if n > m && n % m == 0 {
                let k = (n / m) as usize;
                let mut v = vec![];
                for c in a.chunks(k) {
                    let t = self.bitcast_vec(&Ty::Vec(k as u32, ft.clone()), tt, &Val::A(Rc::new(c.to_vec())))?;
                    v.push(t);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            if m % n == 0 {
                let k = m / n;
                let mut v = vec![];
                for c in a.iter() {
                    if let Val::A(q) = self.bitcast_vec(ft, &Ty::Vec(k, tt.clone()), c)? {
                        v.extend(q.iter().cloned())
                    }
                }
                return Ok(Val::A(Rc::new(v)));
            }
        }
        err("bitcast of wide vector")
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, st: &mut State, callee: &'static Callee, args: &'static [Opnd], tys: &'static [Ty], ret: &'static Ty, dst: Option<u32>, next: Option<u32>) -> X<Flow> {
        let fid = match callee {
            Callee::Asm => {
                if let Some(d) = dst {
                    let z = zero_of(ret);
                    self.set(st, d, z);
                }
                return Ok(Flow::Next);
            }
            Callee::Intrinsic(i) => {
                let r = self.intrinsic(st, *i, args, tys, ret)?;
                if let Some(d) = dst {
                    self.set(st, d, r);
                }
                return Ok(Flow::Next);
            }
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let a = self.get(st, o);
                let a = self.cval(st, &a)?;
                if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return err(format!("indirect call to {a:#x}"));
                }
                ((a - FUNC_BASE) / 16) as u32
            }
        };
        let mut fid = fid;
        let b = match self.bi[fid as usize] {
            Some(b) => b,
            None => {
                let b = self.classify(fid);
                self.bi[fid as usize] = Some(b);
                b
            }
        };
        if let Bi::Override(g) = b {
            fid = g;
        } else if b != Bi::No {
            let r = self.builtin(st, b, fid, args, ret)?;
            if let Some(d) = dst {
                self.set(st, d, r);
            }
            if let Some(n) = next {
                self.jump(st, n);
                return Ok(Flow::Jumped);
            }
            return Ok(Flow::Next);
        }
        let f = self.m.func(fid).map_err(Stop::Err)?;
        self.seen[fid as usize] = true;
        if st.stack.len() > 48000 {
            return Err(Stop::Viol('h', 1, format!("call depth exceeded in {}", f.name)));
        }
        let mut slots = self.pool.pop().unwrap_or_default();
        slots.resize(f.nslots as usize, Val::C(0));
        for (i, a) in args.iter().enumerate() {
            if i < f.params.len() {
                slots[f.params[i] as usize] = self.get(st, a);
            }
        }
        st.top.ip += 1;
        let fr = Frame { f, bb: 0, ip: 0, slots, allocas: vec![], dst, next };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(Flow::Jumped)
    }
    fn classify(&mut self, fid: u32) -> Bi {
        let e = &self.m.funcs[fid as usize];
        let n = e.name;
        let defined = matches!(e.def, FDef::Defined(_));
        if let Some(GRef::Func(g)) = self.m.resolve(&format!("__model_{n}")) {
            return Bi::Override(g);
        }
        match n {
            "__sym_choose" => return Bi::Choose,
            "__sym_fork" => return Bi::Fork,
            "__sym_byte" => return Bi::Byte,
            "__sym_u32" => return Bi::Sym(32),
            "__sym_u64" => return Bi::Sym(64),
            "__sym_assume" => return Bi::Assume,
            "__sym_check" => return Bi::Check,
            "__sym_reach" => return Bi::Reach,
            "__sym_observe" => return Bi::Observe,
            "__sym_concretize" => return Bi::Concretize,
            "__sym_ite" => return Bi::IteMark,
            "__sym_end" => return Bi::End,
            "__sym_enabled" => return Bi::Enabled,
            "malloc" => return Bi::Malloc,
            "calloc" => return Bi::Calloc,
            "realloc" => return Bi::Realloc,
            "free" => return Bi::Free,
            "posix_memalign" => return Bi::Memalign,
            "aligned_alloc" => return Bi::AlignedAlloc,
            "bcmp" => return Bi::Bcmp,
            "memcmp" => return Bi::Memcmp,
            "memchr" => return Bi::Memchr,
            "memcpy" | "memmove" => return Bi::Memcpy,
            "memset" => return Bi::Memset,
            "strlen" => return Bi::Strlen,
            "abort" | "_exit" | "exit" => return Bi::Abort,
            "__errno_location" => return Bi::Errno,
            "getenv" | "__cxa_thread_atexit_impl" | "pthread_self" => return Bi::Zero,
            "getrandom" => return Bi::Random(0),
            "syscall" => return Bi::Random(1),
            _ => {}
        }
        if n.contains("4core9panicking9panic_fmt") {
            return Bi::PanicFmt;
        }
        if n.contains("rust_begin_unwind")
            || n.contains("4core9panicking18panic_nounwind_fmt")
            || n.contains("5alloc18handle_alloc_error")
            || n.contains("rust_panic_with_hook")
            || n.contains("begin_panic_handler")
        {
            return Bi::Panic;
        }
        if n.contains("5slice6memchr14memchr_aligned") {
            return Bi::MemchrRust;
        }
        if !defined {
            return Bi::Undefined;
        }
        Bi::No
    }
    fn new_sym(&mut self, st: &mut State, w: u32, n: u64) -> Ex {
        let pos = st.order.len() as u32;
        let (e, id) = ar().sym(pos, w);
        let nsym = ar().syms.len();
        let dom = Rc::make_mut(&mut st.dom);
        if dom.len() < nsym {
            dom.resize(nsym, [0; 4]);
        }
        if w <= 8 {
            let mut s = [0; 4];
            for v in 0..n.min(256) as usize {
                set_add(&mut s, v)
            }
            dom[id as usize] = s;
        }
        let m = Rc::make_mut(&mut st.model);
        if m.len() < nsym {
            m.resize(nsym, 0);
        }
        m[id as usize] = 0;
        Rc::make_mut(&mut st.order).push(id);
        e
    }
    fn cstr(&mut self, st: &State, a: u64, n: usize) -> String {
        let mut v = vec![];
        for i in 0..n as u64 {
            match self.rd(st, a + i, 1) {
                Ok(Val::C(c)) => v.push(c as u8),
                _ => v.push(b'?'),
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    fn location(&mut self, st: &State, a: u64) -> String {
        let p = self.rd(st, a, 8).ok().and_then(|v| v.c());
        let n = self.rd(st, a + 8, 8).ok().and_then(|v| v.c());
        let l = self.rd(st, a + 16, 4).ok().and_then(|v| v.c());
        match (p, n, l) {
            (Some(p), Some(n), Some(l)) if n < 4096 => format!("{}:{}", self.cstr(st, p, n as usize), l),
            _ => "?".into(),
        }
    }
    fn builtin(&mut self, st: &mut State, b: Bi, fid: u32, args: &'static [Opnd], ret: &'static Ty) -> X<Val> {
        macro_rules! arg {
            ($i:expr) => {
                self.get(st, &args[$i])
            };
        }
        macro_rules! carg {
            ($i:expr) => {{
                let v = self.get(st, &args[$i]);
                self.cval(st, &v)?
            }};
        }
        Ok(match b {
            Bi::Choose | Bi::Fork => {
                let n = carg!(0);
                if n == 0 || n > 256 {
                    return err(format!("choose({n})"));
                }
                let rb = ret.bits();
                if n == 1 {
                    // keep the creation order identical to the native run
                    self.new_sym(st, 8, 1);
                    return Ok(Val::C(0));
                }
                let e = self.new_sym(st, 8, n);
                if b == Bi::Fork {
                    // fork now: each sibling continues after the call
                    let id = *st.order.last().unwrap();
                    for v in 1..n {
                        let mut s = [0; 4];
                        set_add(&mut s, v as usize);
                        let mut k = st.clone();
                        k.depth += 1;
                        Self::set_model(&mut k, &[(id, v)]);
                        self.add_set(&mut k, id, &s);
                        // finish the call in the sibling
                        self.finish_call(&mut k, Val::C(v));
                        self.spawn(k);
                    }
                    st.depth += 1;
                    let mut s = [0; 4];
                    set_add(&mut s, 0);
                    self.add_set(st, id, &s);
                    return Ok(Val::C(0));
                }
                Val::S(if rb > 8 { ar().zext(e, rb) } else { e })
            }
            Bi::Byte => {
                let e = self.new_sym(st, 8, 256);
                let rb = ret.bits();
                Val::S(if rb > 8 { ar().zext(e, rb) } else { e })
            }
            Bi::Sym(w) => Val::S(self.new_sym(st, w, 0)),
            Bi::Assume => {
                match arg!(0) {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Assume);
                        }
                    }
                    Val::S(e) => {
                        let e = self.tobool(e);
                        match self.feasible(st, e) {
                            None => return Err(Stop::Assume),
                            Some(m) => {
                                Self::set_model(st, &m);
                                self.add(st, e);
                            }
                        }
                    }
                    _ => return err("assume"),
                }
                Val::C(0)
            }
            Bi::Check => {
                let code = carg!(1);
                if !self.props.is_empty() && !self.props.contains(&(code as u64 / 100)) {
                    return Ok(Val::C(0));
                }
                self.stats.checks += 1;
                match arg!(0) {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Viol('c', code, String::new()));
                        }
                    }
                    Val::S(e) => {
                        let e = self.tobool(e);
                        self.stats.checks_sym += 1;
                        let ne = ar().not(e);
                        if let Some(m) = self.feasible(st, ne) {
                            let mut n = st.clone();
                            Self::set_model(&mut n, &m);
                            self.record(&n, 'c', code, String::new());
                            match self.feasible(st, e) {
                                None => return Err(Stop::Assume),
                                Some(m) => {
                                    Self::set_model(st, &m);
                                    self.add(st, e);
                                }
                            }
                        }
                    }
                    _ => return err("check"),
                }
                Val::C(0)
            }
            Bi::Reach => {
                let c = carg!(0);
                if !st.reach.contains(&c) {
                    Rc::make_mut(&mut st.reach).insert(c);
                }
                Val::C(0)
            }
            Bi::Observe => {
                let v = arg!(0);
                Rc::make_mut(&mut st.obs).push(v);
                Val::C(0)
            }
            Bi::Concretize => Val::C(carg!(0)),
            Bi::Enabled => {
                let code = carg!(0);
                Val::C((self.props.is_empty() || self.props.contains(&(code as u64 / 100))) as _)
            }
            Bi::IteMark => {
                let a = carg!(0);
                self.ite_objs.insert(a >> 32);
                Val::C(0)
            }
            Bi::End => return Err(Stop::Done),
            Bi::Malloc => {
                let n = carg!(0);
                if n > 1 << 28 {
                    return Ok(Val::C(0));
                }
                Val::C(st.mem.alloc(Obj::new(n as usize)))
            }
            Bi::Calloc => {
                let n = carg!(0) * carg!(1);
                if n > 1 << 28 {
                    return Ok(Val::C(0));
                }
                Val::C(st.mem.alloc(Obj::new(n as usize)))
            }
            Bi::AlignedAlloc => {
                let n = carg!(1);
                Val::C(st.mem.alloc(Obj::new(n as usize)))
            }
            Bi::Memalign => {
                let p = carg!(0);
                let n = carg!(2);
                let a = st.mem.alloc(Obj::new(n as usize));
                self.wr(st, p, 8, &Val::C(a))?;
                Val::C(0)
            }
            Bi::Realloc => {
                let p = carg!(0);
                let n = carg!(1) as usize;
                if n > 1 << 28 {
                    return Ok(Val::C(0));
                }
                if p == 0 {
                    return Ok(Val::C(st.mem.alloc(Obj::new(n))));
                }
                let o = self.obj(st, p >> 32)?;
                let mut no = Obj::new(n);
                let k = n.min(o.data.len());
                no.copy_from(0, &o, 0, k);
                st.mem.free(p);
                Val::C(st.mem.alloc(no))
            }
            Bi::Free => {
                let p = carg!(0);
                if p != 0 && !st.mem.free(p) {
                    return err("invalid free");
                }
                Val::C(0)
            }
            Bi::Bcmp | Bi::Memcmp => {
                let n = carg!(2) as usize;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let (p, q) = (carg!(0), carg!(1));
                let a = self.obj(st, p >> 32)?;
                let c = self.obj(st, q >> 32)?;
                let (po, qo) = ((p & 0xffff_ffff) as usize, (q & 0xffff_ffff) as usize);
                if po + n > a.data.len() || qo + n > c.data.len() {
                    return err("memcmp out of bounds");
                }
                if a.sym.is_none() && c.sym.is_none() {
                    let o = a.data[po..po + n].cmp(&c.data[qo..qo + n]) as i32;
                    return Ok(Val::C(o as u32 as u64));
                }
                let mut r = ar().c(0, 32);
                let one = ar().c(1, 32);
                let neg = ar().c(0xffff_ffff, 32);
                for i in (0..n).rev() {
                    let x = a.byte(po + i);
                    let y = c.byte(qo + i);
                    let x = self.resolve(st, x);
                    let y = self.resolve(st, y);
                    let (x, y) = (self.ex(&x, 8), self.ex(&y, 8));
                    let eq = ar().cmp(CmpOp::Eq, x, y);
                    let d = if b == Bi::Bcmp {
                        one
                    } else {
                        let lt = ar().cmp(CmpOp::Ult, x, y);
                        ar().ite(lt, neg, one)
                    };
                    r = ar().ite(eq, r, d);
                }
                wrap(r)
            }
            Bi::Memchr => {
                let n = carg!(2) as usize;
                let p = carg!(0);
                let b = arg!(1);
                let k = self.find_byte(st, &b, p, n)?;
                Val::C(if k < n { p + k as u64 } else { 0 })
            }
            Bi::MemchrRust => {
                // memchr_aligned(x: u8, text: &[u8]) -> Option<usize>
                let n = carg!(2) as usize;
                let p = carg!(1);
                let b = arg!(0);
                let k = self.find_byte(st, &b, p, n)?;
                Val::A(Rc::new(vec![Val::C((k < n) as u64), Val::C(k as u64)]))
            }
            Bi::Memcpy => {
                let (d, s, n) = (arg!(0), arg!(1), arg!(2));
                self.memcpy(st, &d, &s, &n)?;
                d
            }
            Bi::Memset => {
                let (d, v, n) = (arg!(0), arg!(1), carg!(2));
                let dd = self.cval(st, &d)?;
                let v = self.trunc(&v, 32, 8);
                for i in 0..n {
                    self.wr(st, dd + i, 1, &v)?;
                }
                d
            }
            Bi::Strlen => {
                let p = carg!(0);
                let mut n = 0;
                loop {
                    let v = self.rd(st, p + n, 1)?;
                    if self.cval(st, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::C(n)
            }
            Bi::PanicFmt => {
                let l = carg!(args.len() - 1);
                let loc = self.location(st, l);
                let bt = if self.trace { format!(" [{}]", self.backtrace(st)) } else { String::new() };
                return Err(Stop::Viol('p', 0, format!("{loc}{bt}")));
            }
            Bi::Panic => {
                let bt = self.backtrace(st);
                return Err(Stop::Viol('p', 1, bt));
            }
            Bi::Abort => return Err(Stop::Viol('p', 2, format!("abort [{}]", self.backtrace(st)))),
            Bi::Zero => zero_of(ret),
            Bi::Random(skip) => {
                // getrandom (318), directly or by syscall: fixed bytes; any other system call: 0
                if skip == 1 && carg!(0) != 318 {
                    zero_of(ret)
                } else {
                    let (d, n) = (arg!(skip), carg!(skip + 1));
                    let dd = self.cval(st, &d)?;
                    for i in 0..n {
                        self.wr(st, dd + i, 1, &Val::C(((i * 37 + 11) & 255) as u64))?;
                    }
                    Val::C(n as u64)
                }
            }
            Bi::Errno => {
                let a = st.mem.alloc(Obj::new(4));
                Val::C(a)
            }
            Bi::Undefined => {
                let n = self.m.funcs[fid as usize].name;
                return err(format!("call of external function {n}"));
            }
            Bi::No | Bi::Override(_) => unreachable!(),
        })
    }
    fn resolve(&mut self, st: &State, v: Val) -> Val {
        if let Val::S(e) = v {
            self.norm(st, e)
        } else {
            v
        }
    }
    fn tobool(&mut self, e: Ex) -> Ex {
        if ar().w(e) == 1 {
            e
        } else {
            ar().extract(e, 0, 1)
        }
    }
    /// Complete the pending call instruction of a cloned state with result v.
    fn finish_call(&mut self, st: &mut State, v: Val) {
        let inst = &st.top.f.blocks[st.top.bb as usize].insts[st.top.ip as usize];
        if let Inst::Call { dst, next, .. } = inst {
            if let Some(d) = dst {
                st.top.slots[*d as usize] = v;
            }
            match next {
                Some(n) => self.jump(st, *n),
                None => st.top.ip += 1,
            }
        }
    }
    fn find_byte(&mut self, st: &mut State, c: &Val, p: u64, n: usize) -> X<usize> {
        // index of the first match, decided through one concretized expression
        let c = self.trunc_any(c);
        let mut r = ar().c(n as u128, 32);
        for i in (0..n).rev() {
            let x = self.rd(st, p + i as u64, 1)?;
            let x = self.resolve(st, x);
            let (a, b) = (self.ex(&x, 8), self.ex(&c, 8));
            let eq = ar().cmp(CmpOp::Eq, a, b);
            let k = ar().c(i as u128, 32);
            r = ar().ite(eq, k, r);
        }
        let v = wrap(r);
        Ok(self.cval(st, &v)? as usize)
    }
    fn trunc_any(&mut self, v: &Val) -> Val {
        match v {
            Val::C(c) => Val::C(c & 0xff),
            Val::S(e) => {
                if ar().w(*e) > 8 {
                    wrap(ar().extract(*e, 0, 8))
                } else {
                    Val::S(*e)
                }
            }
            v => v.clone(),
        }
    }

    // ------------------------------------------------------------ intrinsics
    fn intrinsic(&mut self, st: &mut State, i: Intr, args: &'static [Opnd], tys: &'static [Ty], ret: &'static Ty) -> X<Val> {
        use Intr::*;
        match i {
            Memcpy | Memmove => {
                let (d, s, n) = (self.get(st, &args[0]), self.get(st, &args[1]), self.get(st, &args[2]));
                self.memcpy(st, &d, &s, &n)?;
                return Ok(Val::C(0));
            }
            Memset => {
                let d = self.get(st, &args[0]);
                let v = self.get(st, &args[1]);
                let n = self.get(st, &args[2]);
                let n = self.cval(st, &n)? as usize;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let d = self.cval(st, &d)?;
                let (id, off) = (d >> 32, (d & 0xffff_ffff) as usize);
                if let Val::C(c) = v {
                    let o = self.obj_mut(st, id)?;
                    if off + n > o.data.len() {
                        return err("memset out of bounds");
                    }
                    o.data[off..off + n].fill(c as u8);
                    o.clear_sym(off, n);
                } else {
                    for k in 0..n as u64 {
                        self.wr(st, d + k, 1, &v)?;
                    }
                }
                return Ok(Val::C(0));
            }
            Expect | Tls => return Ok(self.get(st, &args[0])),
            IsConstant => return Ok(Val::C(0)),
            Zero => return Ok(zero_of(ret)),
            Trap => return Err(Stop::Viol('p', 3, format!("trap [{}]", self.backtrace(st)))),
            LoadRel => {
                let b = self.get(st, &args[0]);
                let o = self.get(st, &args[1]);
                let ow = tys[1].bits();
                let b = self.cval(st, &b)?;
                let e = self.ex(&o, ow);
                let e = if ow < 64 { ar().sext(e, 64) } else { e };
                let o = self.cval(st, &wrap(e))?;
                let v = self.rd(st, b.wrapping_add(o), 4)?;
                let v = self.cval(st, &v)?;
                return Ok(Val::C(b.wrapping_add(v as i32 as i64 as u64)));
            }
            RedAdd | RedOr | RedAnd | RedXor | RedUmax | RedUmin => {
                let a = self.get(st, &args[0]);
                let w = ret.bits();
                let el = Self::elems(&a).to_vec();
                let mut r = el[0].clone();
                for x in &el[1..] {
                    r = match i {
                        RedAdd => self.bin1(BinOp::Add, w, &r, x)?,
                        RedOr => self.bin1(BinOp::Or, w, &r, x)?,
                        RedAnd => self.bin1(BinOp::And, w, &r, x)?,
                        RedXor => self.bin1(BinOp::Xor, w, &r, x)?,
                        RedUmax => self.minmax(Pred::Ugt, w, &r, x)?,
                        _ => self.minmax(Pred::Ult, w, &r, x)?,
                    }
                }
                return Ok(r);
            }
            Other(n) => return err(format!("intrinsic {n}")),
            _ => {}
        }
        let vals: Vec<Val> = args.iter().map(|a| self.get(st, a)).collect();
        if let Ty::Vec(n, t) = &tys[0] {
            let mut out = vec![];
            for k in 0..*n as usize {
                let v: Vec<Val> = vals.iter().map(|v| if let Val::A(a) = v { a[k].clone() } else { v.clone() }).collect();
                out.push(self.intr1(i, t.bits(), ret, &v)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        self.intr1(i, tys[0].bits(), ret, &vals)
    }
    fn minmax(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> X<Val> {
        match self.icmp1(p, w, a, b) {
            Val::C(1) => Ok(a.clone()),
            Val::C(_) => Ok(b.clone()),
            Val::S(c) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                Ok(wrap(ar().ite(c, x, y)))
            }
            _ => err("minmax"),
        }
    }
    fn intr1(&mut self, i: Intr, w: u32, ret: &Ty, v: &[Val]) -> X<Val> {
        use Intr::*;
        let conc = v.iter().all(|x| !matches!(x, Val::S(_)));
        let two = |a: Val, o: Val| Val::A(Rc::new(vec![a, o]));
        match i {
            Umax => return self.minmax(Pred::Ugt, w, &v[0], &v[1]),
            Umin => return self.minmax(Pred::Ult, w, &v[0], &v[1]),
            Smax => return self.minmax(Pred::Sgt, w, &v[0], &v[1]),
            Smin => return self.minmax(Pred::Slt, w, &v[0], &v[1]),
            Ucmp | Scmp => {
                let p = if i == Ucmp { Pred::Ult } else { Pred::Slt };
                let rw = ret.bits();
                let lt = self.icmp1(p, w, &v[0], &v[1]);
                let gt = self.icmp1(p, w, &v[1], &v[0]);
                let (lt, gt) = (self.ex(&lt, 1), self.ex(&gt, 1));
                let (z, o, n) = (ar().c(0, rw), ar().c(1, rw), ar().c(mask(rw), rw));
                let t = ar().ite(gt, o, z);
                return Ok(wrap(ar().ite(lt, n, t)));
            }
            UaddO | UsubO | UmulO | SaddO | SsubO | SmulO => {
                if conc && w <= 64 {
                    let (a, b) = (Self::big(&v[0]), Self::big(&v[1]));
                    let m = mask(w);
                    let (sa, sb) = (sx(a, w), sx(b, w));
                    let (r, o) = match i {
                        UaddO => {
                            let r = a + b;
                            (r & m, r > m)
                        }
                        UsubO => (a.wrapping_sub(b) & m, a < b),
                        UmulO => {
                            let r = a * b;
                            (r & m, r > m)
                        }
                        SaddO => {
                            let r = sa + sb;
                            (r as u128 & m, sx(r as u128 & m, w) != r)
                        }
                        SsubO => {
                            let r = sa - sb;
                            (r as u128 & m, sx(r as u128 & m, w) != r)
                        }
                        _ => {
                            let r = sa * sb;
                            (r as u128 & m, sx(r as u128 & m, w) != r)
                        }
                    };
                    return Ok(two(Val::C(r as u64), Val::C(o as u64)));
                }
                if w > 64 {
                    return err("overflow op on wide ints");
                }
                let (a, b) = (self.ex(&v[0], w), self.ex(&v[1], w));
                let x = ar();
                let (ua, ub) = (x.nodes[a as usize].ub as u128, x.nodes[b as usize].ub as u128);
                let m = mask(w);
                return Ok(match i {
                    UaddO => {
                        let r = x.bin(BinOp::Add, a, b);
                        let o = if ua + ub <= m { x.fls() } else { x.cmp(CmpOp::Ult, r, a) };
                        two(wrap(r), wrap(o))
                    }
                    UsubO => {
                        let r = x.bin(BinOp::Sub, a, b);
                        let o = x.cmp(CmpOp::Ult, a, b);
                        two(wrap(r), wrap(o))
                    }
                    UmulO => {
                        let r = x.bin(BinOp::Mul, a, b);
                        let o = if ua * ub <= m {
                            x.fls()
                        } else {
                            let (p, q) = (x.zext(a, 2 * w), x.zext(b, 2 * w));
                            let r2 = x.bin(BinOp::Mul, p, q);
                            let mx = x.c(m, 2 * w);
                            x.cmp(CmpOp::Ult, mx, r2)
                        };
                        two(wrap(r), wrap(o))
                    }
                    _ => {
                        let op = match i {
                            SaddO => BinOp::Add,
                            SsubO => BinOp::Sub,
                            _ => BinOp::Mul,
                        };
                        let r = x.bin(op, a, b);
                        let (p, q) = (x.sext(a, 2 * w), x.sext(b, 2 * w));
                        let r2 = x.bin(op, p, q);
                        let rs = x.sext(r, 2 * w);
                        let e = x.cmp(CmpOp::Eq, r2, rs);
                        let o = x.not(e);
                        two(wrap(r), wrap(o))
                    }
                });
            }
            UaddSat | UsubSat => {
                let r = self.intr1(if i == UaddSat { UaddO } else { UsubO }, w, ret, v)?;
                let (r, o) = match &r {
                    Val::A(a) => (a[0].clone(), a[1].clone()),
                    _ => return err("sat"),
                };
                let k = Val::C(if i == UaddSat { mask64(w) } else { 0 });
                return Ok(match o {
                    Val::C(0) => r,
                    Val::C(_) => k,
                    Val::S(c) => {
                        let (a, b) = (self.ex(&k, w), self.ex(&r, w));
                        wrap(ar().ite(c, a, b))
                    }
                    _ => return err("sat"),
                });
            }
            Abs => {
                let c = self.icmp1(Pred::Slt, w, &v[0], &Val::C(0));
                let n = self.bin1(BinOp::Sub, w, &Val::C(0), &v[0])?;
                return Ok(match c {
                    Val::C(0) => v[0].clone(),
                    Val::C(_) => n,
                    Val::S(c) => {
                        let (a, b) = (self.ex(&n, w), self.ex(&v[0], w));
                        wrap(ar().ite(c, a, b))
                    }
                    _ => return err("abs"),
                });
            }
            _ => {}
        }
        if conc {
            let a = Self::big(&v[0]);
            let m = mask(w);
            let r = match i {
                Ctlz => (a.leading_zeros() - (128 - w)) as u128,
                Cttz => {
                    if a == 0 {
                        w as u128
                    } else {
                        a.trailing_zeros() as u128
                    }
                }
                Ctpop => a.count_ones() as u128,
                Bswap => a.swap_bytes() >> (128 - w),
                Bitreverse => a.reverse_bits() >> (128 - w),
                Fshl | Fshr => {
                    let b = Self::big(&v[1]);
                    let s = (Self::big(&v[2]) % w as u128) as u32;
                    if i == Fshl {
                        if s == 0 {
                            a
                        } else {
                            ((a << s) | (b >> (w - s))) & m
                        }
                    } else if s == 0 {
                        b
                    } else {
                        ((a << (w - s)) | (b >> s)) & m
                    }
                }
                SaddSat | SsubSat => {
                    let (x, y) = (sx(a, w), sx(Self::big(&v[1]), w));
                    let r = if i == SaddSat { x + y } else { x - y };
                    let hi = (m >> 1) as i128;
                    r.clamp(-hi - 1, hi) as u128 & m
                }
                _ => return err(format!("intrinsic {i:?}")),
            };
            return Ok(norm_wide(r, w));
        }
        // symbolic bit tricks
        match i {
            Fshl | Fshr => {
                if let Val::C(s) = &v[2] {
                    let s = (*s % w as u64) as u32;
                    let (a, b) = (self.ex(&v[0], w), self.ex(&v[1], w));
                    let s = if i == Fshl { s } else { (w - s) % w };
                    if s == 0 {
                        return Ok(if i == Fshl { v[0].clone() } else { v[1].clone() });
                    }
                    let hi = ar().extract(a, 0, w - s);
                    let lo = ar().extract(b, w - s, s);
                    return Ok(wrap(ar().concat(hi, lo)));
                }
            }
            Bswap => {
                let a = self.ex(&v[0], w);
                let mut r = ar().extract(a, 0, 8);
                for k in 1..w / 8 {
                    let x = ar().extract(a, k * 8, 8);
                    r = ar().concat(r, x);
                }
                return Ok(wrap(r));
            }
            Cttz | Ctlz => {
                let a = self.ex(&v[0], w);
                let mut r = ar().c(w as u128, w);
                for k in 0..w {
                    let bit = if i == Cttz { w - 1 - k } else { k };
                    let x = ar().extract(a, bit, 1);
                    let n = if i == Cttz { bit } else { w - 1 - bit };
                    let c = ar().c(n as u128, w);
                    r = ar().ite(x, c, r);
                }
                return Ok(wrap(r));
            }
            Ctpop => {
                let a = self.ex(&v[0], w);
                let mut r = ar().c(0, w);
                for k in 0..w {
                    let x = ar().extract(a, k, 1);
                    let x = ar().zext(x, w);
                    r = ar().bin(BinOp::Add, r, x);
                }
                return Ok(wrap(r));
            }
            _ => {}
        }
        err(format!("symbolic intrinsic {i:?}"))
    }
}
