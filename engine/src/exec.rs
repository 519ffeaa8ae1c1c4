//! Symbolic interpreter for the IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum Stop {
    /// path finished normally
    Done,
    /// path condition became infeasible (assume)
    Killed,
    /// property violation: (kind, detail)
    Bad(String, String),
    /// the engine cannot decide this path
    Inconclusive(String),
}
pub type X<T> = Result<T, Stop>;
fn inc<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Inconclusive(s.into()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum L {
    /// decision value, forced
    B(bool, bool),
    Pick(u64),
    Not(u64),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0: concrete byte; otherwise an 8-bit expression
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false }
    }
}

const CH: usize = 32;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    nobj: usize,
    stack: Vec<Rc<Obj>>,
}
impl Mem {
    fn get(&self, addr: u64) -> Option<(&Obj, usize)> {
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        if addr >= STACK_BASE {
            let i = ((addr - STACK_BASE) >> OBJ_SHIFT) as usize;
            return self.stack.get(i).map(|o| (&**o, off));
        }
        let i = (addr >> OBJ_SHIFT) as usize;
        match self.chunks.get(i / CH) {
            Some(c) => match c.get(i % CH) {
                Some(Some(o)) => Some((&**o, off)),
                _ => None,
            },
            None => None,
        }
    }
    fn get_mut(&mut self, addr: u64) -> Option<(&mut Obj, usize)> {
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        if addr >= STACK_BASE {
            let i = ((addr - STACK_BASE) >> OBJ_SHIFT) as usize;
            return self.stack.get_mut(i).map(|o| (Rc::make_mut(o), off));
        }
        let i = (addr >> OBJ_SHIFT) as usize;
        match self.chunks.get_mut(i / CH) {
            Some(c) => match Rc::make_mut(c).get_mut(i % CH) {
                Some(Some(o)) => Some((Rc::make_mut(o), off)),
                _ => None,
            },
            None => None,
        }
    }
    fn push_obj(&mut self, o: Option<Rc<Obj>>) -> u64 {
        let i = self.nobj;
        self.nobj += 1;
        if i / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        c.push(o);
        (i as u64) << OBJ_SHIFT
    }
    fn alloc(&mut self, n: usize) -> u64 {
        self.push_obj(Some(Rc::new(Obj::new(n))))
    }
    fn alloc_stack(&mut self, n: usize) -> u64 {
        let i = self.stack.len() as u64;
        self.stack.push(Rc::new(Obj::new(n)));
        STACK_BASE + (i << OBJ_SHIFT)
    }
    fn free(&mut self, addr: u64) -> bool {
        if addr >= STACK_BASE || addr & ((1 << OBJ_SHIFT) - 1) != 0 {
            return false;
        }
        let i = (addr >> OBJ_SHIFT) as usize;
        match self.chunks.get_mut(i / CH) {
            Some(c) => {
                let c = Rc::make_mut(c);
                match c.get_mut(i % CH) {
                    Some(s @ Some(_)) => {
                        *s = None;
                        true
                    }
                    _ => false,
                }
            }
            None => false,
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    func: &'static Func,
    block: u32,
    idx: u32,
    prev: u32,
    stack_base: usize,
    regs: Vec<Val>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    cur: Frame,
    mem: Mem,
    pub pc: Vec<E>,
    dom: Vec<Option<[u64; 4]>>,
    multi: VarSet,
    /// expressions whose value the path has fixed
    known: Rc<FxMap<E, u64>>,
    pub model: Rc<Vec<u128>>,
    pub vars: Vec<u32>,
    pub log: Vec<L>,
    rpos: usize,
    istart: usize,
    added: usize,
    pub ninstr: u64,
    errno: u64,
    pub notes: Vec<(u32, Rc<Vec<Val>>)>,
    pub checks: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    None,
    Panic,
    Abort,
    SipWrite,
    SipFinish,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcpy,
    Memset,
    Memcmp,
    Memchr,
    Memrchr,
    Strlen,
    Errno,
    RetZero,
    RetOne,
    RetNeg1,
    Sysconf,
    RustAlloc,
    RustAllocZeroed,
    RustDealloc,
    RustRealloc,
    VsVar(u32),
    VsAssume,
    VsCheck,
    VsCover,
    VsPick,
    VsNote,
    VsFail,
    VsSymbolic,
    VsParam,
    VsPrint,
    Nop,
    Intr(I),
    Write,
    PthreadKeyCreate,
    PthreadGetspecific,
    PthreadSetspecific,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum I {
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    UAddSat, USubSat, SAddSat, SSubSat,
    UMin, UMax, SMin, SMax, Abs,
    Cttz, Ctlz, Ctpop, Bswap, Bitreverse, Fshl, Fshr,
    UCmp, SCmp, Expect, Assume, TlAddr, IsConst, ObjSize, FpToUiSat, FpToSiSat, FFloor, FCeil, FTrunc, FRound, FAbs, FSqrt, FMulAdd, FMinNum, FMaxNum, FCopysign,
    Trap, Ptrmask, ReduceOr, ReduceAnd, ReduceAdd, ReduceUMax, ReduceUMin, ReduceXor,
    SseMovmsk, LoadRelative, Unsup,
}

pub struct Cfg {
    pub entry: String,
    pub max_instr: u64,
    /// ask the solver to confirm every infeasibility found by value tables
    pub confirm: bool,
    pub max_frames: usize,
    pub solver_ms: u32,
    pub sip_stub: bool,
    pub param: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub instrs: u64,
    pub decides: u64,
    pub decides_dom: u64,
    pub confirmed: u64,
    pub cache_hits: u64,
    pub checks_sym: u64,
    pub checks_conc: u64,
    pub covers: BTreeMap<u32, u64>,
    pub checks_by_id: BTreeMap<u32, u64>,
    pub max_pc: usize,
    pub max_path_instr: u64,
}

pub struct Exec {
    pub m: Module,
    pub a: Arena,
    pub z: Z3,
    pub cfg: Cfg,
    base_mem: Mem,
    bt: Vec<Option<B>>,
    cache: FxMap<Vec<E>, Option<Rc<Vec<(usize, u128)>>>>,
    spec: std::cell::RefCell<FxMap<(E, [u64; 4]), Option<u128>>>,
    pub pend: Vec<State>,
    pub stats: Stats,
    pub funcs_hit: Vec<u64>,
    pub blocks_hit: HashSet<(u32, u32)>,
    pub fork_sites: HashMap<String, u64>,
    pub trace: bool,
    tls: HashMap<u64, u64>,
    cur_st: *mut State,
}

#[inline(always)]
fn m64(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
#[inline(always)]
fn s64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        ((v << s) as i64) >> s
    }
}
fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new(vec![zero_val(e); *n])),
        Ty::Struct(fs, _, _) => Val::A(Rc::new(fs.iter().map(|f| zero_val(&f.1)).collect())),
        t if t.bits() > 64 => Val::W(Box::new(0)),
        _ => Val::C(0),
    }
}

impl Exec {
    pub fn new(text: &'static str, cfg: Cfg) -> Result<Exec, String> {
        let m = Module::load(text)?;
        let mut mem = Mem::default();
        mem.push_obj(None); // object 0: null page
        for g in &m.globals {
            let o = Obj {
                data: g.init.as_ref().map(|b| b.0.clone()).unwrap_or_default(),
                sym: None,
                ro: g.constant,
            };
            let a = mem.push_obj(Some(Rc::new(o)));
            assert_eq!(a, g.addr);
        }
        let n = m.funcs.len();
        let z = Z3::new(cfg.solver_ms);
        Ok(Exec {
            m,
            a: Arena::new(),
            z,
            cfg,
            base_mem: mem,
            bt: vec![None; n],
            cache: Default::default(),
            spec: Default::default(),
            pend: vec![],
            stats: Stats::default(),
            funcs_hit: vec![0; n],
            blocks_hit: HashSet::new(),
            fork_sites: HashMap::new(),
            trace: false,
            tls: HashMap::new(),
            cur_st: std::ptr::null_mut(),
        })
    }
    pub fn initial(&mut self, log: Vec<L>, model: Vec<u128>) -> Result<State, String> {
        let fi = *self.m.fidx.get(&self.cfg.entry).ok_or_else(|| format!("no entry {}", self.cfg.entry))?;
        let f = self.m.func(fi)?;
        Ok(State {
            frames: vec![],
            cur: Frame { func: f, block: 0, idx: 0, prev: 0, stack_base: 0, regs: vec![Val::C(0); f.nregs] },
            mem: self.base_mem.clone(),
            pc: vec![],
            dom: vec![],
            multi: VarSet::default(),
            model: Rc::new(model),
            vars: vec![],
            log,
            rpos: 0,
            istart: 0,
            known: Default::default(),
            added: 0,
            ninstr: 0,
            errno: 0,
            notes: vec![],
            checks: 0,
        })
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![st.cur.func.name.clone()];
        for f in st.frames.iter().rev().take(24) {
            v.push(f.func.name.clone());
        }
        v.join("\n  < ")
    }

    // ------------------------------------------------------------- values
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.a.konst(*x as u128, w),
            Val::W(x) => self.a.konst(**x, w),
            Val::S(e) => {
                debug_assert_eq!(self.a.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.a.as_const(e) {
            Some(x) => {
                if self.a.w(e) > 64 {
                    Val::W(Box::new(x))
                } else {
                    Val::C(x as u64)
                }
            }
            None => Val::S(e),
        }
    }
    fn wval(x: u128, w: u32) -> Val {
        if w > 64 {
            Val::W(Box::new(x & ones(w)))
        } else {
            Val::C((x & ones(w)) as u64)
        }
    }
    fn conc(v: &Val) -> Option<u128> {
        match v {
            Val::C(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }

    // ------------------------------------------------------------- solving
    fn add_constraint(&mut self, st: &mut State, c: E) {
        let k = self.a.key(c);
        if k.op == O::Const {
            return;
        }
        if k.op == O::And {
            self.add_constraint(st, k.a);
            self.add_constraint(st, k.b);
            return;
        }
        if k.op == O::Not {
            let i = self.a.key(k.a);
            if i.op == O::Or {
                let (x, y) = (self.a.not(i.a), self.a.not(i.b));
                self.add_constraint(st, x);
                self.add_constraint(st, y);
                return;
            }
        }
        let vs = self.a.n[c as usize].vars;
        if let Some(v) = vs.single() {
            let w = st.vars[v];
            if w <= 8 {
                let t = self.a.table(c, v, w);
                let d = st.dom[v].get_or_insert([!0; 4]);
                for i in 0..4 {
                    d[i] &= t[i];
                }
                if !st.pc.contains(&c) {
                    st.pc.push(c);
                }
                return;
            }
        }
        st.multi = st.multi.or(&vs);
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    /// Is pc && c satisfiable? Returns the model if so. `force`: always ask the solver.
    fn feasible(&mut self, st: &State, c: E, force: bool) -> X<Option<Rc<Vec<u128>>>> {
        if let Some(v) = self.a.as_const(c) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        let vs = self.a.n[c as usize].vars;
        let mut table_unsat = false;
        if !force {
            if let Some(v) = vs.single() {
                let w = st.vars[v];
                if w <= 8 {
                    let t = self.a.table(c, v, w);
                    let d = st.dom[v].unwrap_or([!0; 4]);
                    let mut found = None;
                    for i in 0..4 {
                        let x = t[i] & d[i];
                        if x != 0 {
                            found = Some(i * 64 + x.trailing_zeros() as usize);
                            break;
                        }
                    }
                    match found {
                        None => {
                            self.stats.decides_dom += 1;
                            if !self.cfg.confirm {
                                return Ok(None);
                            }
                            table_unsat = true;
                        }
                        Some(x) => {
                            if !st.multi.has(v) {
                                self.stats.decides_dom += 1;
                                let mut m = (*st.model).clone();
                                if m.len() <= v {
                                    m.resize(v + 1, 0);
                                }
                                m[v] = x as u128;
                                return Ok(Some(Rc::new(m)));
                            }
                        }
                    }
                }
            }
        }
        // slice
        let mut clo = vs;
        let mut inn = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if !inn[i] {
                    let pv = &self.a.n[*p as usize].vars;
                    if pv.inter(&clo) {
                        inn[i] = true;
                        clo = clo.or(pv);
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut q: Vec<E> = st.pc.iter().zip(&inn).filter(|(_, i)| **i).map(|(p, _)| *p).collect();
        q.sort();
        q.push(c);
        let ans = if let (false, Some(r)) = (force, self.cache.get(&q)) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            let vars: Vec<(usize, u32)> = clo.iter().into_iter().map(|i| (i, st.vars[i])).collect();
            let t0 = std::time::Instant::now();
            let ans = self.z.check(&self.a, &q, &vars);
            if self.trace && t0.elapsed().as_secs_f64() > 0.3 {
                eprintln!("slow query {:.1}s {} at {}", t0.elapsed().as_secs_f64(), self.a.show(c, 7), self.backtrace(st).lines().take(4).collect::<Vec<_>>().join(" < "));
            }
            let r = match ans {
                Ans::Sat(m) => Some(Rc::new(m)),
                Ans::Unsat => None,
                Ans::Unknown => {
                    return inc(format!("solver gave no answer within {} ms: {}", self.cfg.solver_ms, self.a.show(c, 6)))
                }
            };
            self.cache.insert(q, r.clone());
            r
        };
        if table_unsat {
            self.stats.confirmed += 1;
            if ans.is_some() {
                return inc("the value-table layer and the solver disagree");
            }
        }
        Ok(ans.map(|m| {
            let mut n = (*st.model).clone();
            for (i, v) in m.iter() {
                if n.len() <= *i {
                    n.resize(*i + 1, 0);
                }
                n[*i] = *v;
            }
            Rc::new(n)
        }))
    }
    fn learn(&self, st: &mut State, e: E, v: u64) {
        if self.a.n[e as usize].leaf == 0 {
            let e2 = match self.a.key(e) {
                k if k.op == O::ZExt || k.op == O::Not => k.a,
                _ => 0,
            };
            let not = self.a.key(e).op == O::Not;
            let k = Rc::make_mut(&mut st.known);
            k.insert(e, v);
            if e2 != 0 {
                k.insert(e2, if not { !v & ones(self.a.w(e2)) as u64 } else { v });
            }
        }
    }
    fn set_model(&mut self, st: &mut State, m: Rc<Vec<u128>>) {
        st.model = m;
        self.a.new_model();
    }
    fn fork(&mut self, st: &State, alt: L, c: E, m: Rc<Vec<u128>>) {
        let mut n = st.clone();
        n.log.push(alt);
        n.rpos = n.istart;
        n.added = n.log.len();
        n.model = m;
        self.add_constraint(&mut n, c);
        if self.trace {
            let k = format!("{} b{}i{} {:?} < {}", st.cur.func.name, st.cur.block, st.cur.idx, alt, st.frames.last().map(|f| f.func.name.as_str()).unwrap_or(""));
            let k = if matches!(alt, L::B(..)) { k } else { k.replace(|c: char| c.is_ascii_digit(), "") };
            *self.fork_sites.entry(k).or_default() += 1;
        }
        self.pend.push(n);
    }
    fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(v) = self.a.as_const(c) {
            return Ok(v == 1);
        }
        if st.rpos < st.log.len() {
            let (v, forced) = match st.log[st.rpos] {
                L::B(v, f) => (v, f),
                x => return inc(format!("decision log mismatch {:?}", x)),
            };
            if st.rpos >= st.added {
                if !forced {
                    let k = if v { c } else { self.a.not(c) };
                    self.add_constraint(st, k);
                }
                st.added = st.rpos + 1;
            }
            st.rpos += 1;
            self.learn(st, c, v as u64);
            return Ok(v);
        }
        self.stats.decides += 1;
        let v = self.a.eval(c, &st.model) == 1;
        let nc = self.a.not(c);
        let (side, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(st, other, false)? {
            None => st.log.push(L::B(v, true)),
            Some(m) => {
                self.fork(st, L::B(!v, false), other, m);
                self.add_constraint(st, side);
                st.log.push(L::B(v, false));
            }
        }
        st.rpos = st.log.len();
        st.added = st.log.len();
        self.learn(st, c, v as u64);
        Ok(v)
    }
    /// Splits on the value of `e`.
    fn pick(&mut self, st: &mut State, e: E) -> X<u64> {
        let w = self.a.w(e);
        loop {
            if let Some(v) = self.a.as_const(e) {
                return Ok(v as u64);
            }
            if st.rpos < st.log.len() {
                let l = st.log[st.rpos];
                let (v, neg) = match l {
                    L::Pick(v) => (v, false),
                    L::Not(v) => (v, true),
                    x => return inc(format!("decision log mismatch {:?}", x)),
                };
                if st.rpos >= st.added {
                    let k = self.a.konst(v as u128, w);
                    let c = if neg { self.a.ne(e, k) } else { self.a.eq(e, k) };
                    self.add_constraint(st, c);
                    st.added = st.rpos + 1;
                }
                st.rpos += 1;
                if !neg {
                    self.learn(st, e, v);
                    return Ok(v);
                }
                continue;
            }
            self.stats.decides += 1;
            let v = self.a.eval(e, &st.model) as u64;
            let k = self.a.konst(v as u128, w);
            let c = self.a.eq(e, k);
            let nc = self.a.not(c);
            if let Some(m) = self.feasible(st, nc, false)? {
                self.fork(st, L::Not(v), nc, m);
            }
            self.add_constraint(st, c);
            st.log.push(L::Pick(v));
            st.rpos = st.log.len();
            st.added = st.log.len();
            self.learn(st, e, v);
            return Ok(v);
        }
    }
    fn pick_val(&mut self, st: &mut State, v: &Val) -> X<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => self.pick(st, *e),
            Val::A(_) => inc("aggregate where scalar expected"),
        }
    }
    fn replaying(&self, st: &State) -> bool {
        st.rpos < st.log.len()
    }
    fn assume(&mut self, st: &mut State, c: E) -> X<()> {
        if let Some(v) = self.a.as_const(c) {
            return if v == 1 { Ok(()) } else { Err(Stop::Killed) };
        }
        if self.a.eval(c, &st.model) != 1 {
            match self.feasible(st, c, false)? {
                None => return Err(Stop::Killed),
                Some(m) => self.set_model(st, m),
            }
        }
        self.add_constraint(st, c);
        Ok(())
    }
    fn check(&mut self, st: &mut State, c: E, id: u32) -> X<()> {
        st.checks += 1;
        if let Some(v) = self.a.as_const(c) {
            if !self.replaying(st) {
                self.stats.checks_conc += 1;
                *self.stats.checks_by_id.entry(id).or_default() += 1;
            }
            return if v == 1 { Ok(()) } else { Err(Stop::Bad("check".into(), format!("{id}"))) };
        }
        if self.replaying(st) {
            return Ok(());
        }
        self.stats.checks_sym += 1;
        *self.stats.checks_by_id.entry(id).or_default() += 1;
        let nc = self.a.not(c);
        if let Some(m) = self.feasible(st, nc, true)? {
            self.set_model(st, m);
            return Err(Stop::Bad("check".into(), format!("{id}")));
        }
        Ok(())
    }

    // ------------------------------------------------------------- memory
    fn mem_err<T>(&self, st: &State, what: &str, addr: u64, n: usize) -> X<T> {
        Err(Stop::Bad(
            "memory".into(),
            format!("{what} of {n} bytes at {addr:#x} in\n  {}", self.backtrace(st)),
        ))
    }
    fn load_scalar(&mut self, st: &State, addr: u64, w: u32) -> X<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = match st.mem.get(addr) {
            Some((o, off)) if off + n <= o.data.len() => (o, off),
            _ => return self.mem_err(st, "read", addr, n),
        };
        if let Some(sy) = &o.sym {
            if sy[off..off + n].iter().any(|e| *e != 0) {
                let mut r: Option<E> = None;
                for i in 0..n {
                    let b = if sy[off + i] != 0 { sy[off + i] } else { self.a.konst(o.data[off + i] as u128, 8) };
                    r = Some(match r {
                        None => b,
                        Some(x) => self.a.concat(b, x),
                    });
                }
                let mut r = r.unwrap();
                if (n as u32) * 8 != w {
                    r = self.a.extract(r, 0, w);
                }
                return Ok(self.v(r));
            }
        }
        let d = &o.data[off..off + n];
        Ok(match n {
            1 => Val::C(m64(d[0] as u64, w)),
            8 => Val::C(m64(u64::from_le_bytes(d.try_into().unwrap()), w)),
            4 => Val::C(m64(u32::from_le_bytes(d.try_into().unwrap()) as u64, w)),
            _ => {
                let mut x: u128 = 0;
                for i in (0..n).rev() {
                    x = (x << 8) | d[i] as u128;
                }
                Self::wval(x, w)
            }
        })
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Arr(n, e) => {
                let s = e.size() as u64;
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n {
                    v.push(self.load_ty(st, addr + i as u64 * s, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let lw = e.bits();
                if lw % 8 != 0 {
                    let tot = *n as u32 * lw;
                    let x = self.load_scalar(st, addr, (tot + 7) / 8 * 8)?;
                    let x = self.e(&x, (tot + 7) / 8 * 8);
                    let mut v = Vec::new();
                    for i in 0..*n {
                        let y = self.a.extract(x, i as u32 * lw, lw);
                        v.push(self.v(y));
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                let s = e.size() as u64;
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n {
                    v.push(self.load_ty(st, addr + i as u64 * s, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(fs, _, _) => {
                let mut v = Vec::with_capacity(fs.len());
                for (o, t) in fs.iter() {
                    v.push(self.load_ty(st, addr + *o as u64, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => self.load_scalar(st, addr, ty.bits()),
        }
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        let ok = match st.mem.get_mut(addr) {
            Some((o, off)) if off + n <= o.data.len() && !o.ro => {
                match v {
                    Val::C(x) => {
                        let b = x.to_le_bytes();
                        if n <= 8 {
                            o.data[off..off + n].copy_from_slice(&b[..n]);
                        } else {
                            o.data[off..off + 8].copy_from_slice(&b);
                            for i in 8..n {
                                o.data[off + i] = 0;
                            }
                        }
                        if let Some(s) = &mut o.sym {
                            for i in 0..n {
                                s[off + i] = 0;
                            }
                        }
                    }
                    Val::W(x) => {
                        let b = x.to_le_bytes();
                        o.data[off..off + n].copy_from_slice(&b[..n]);
                        if let Some(s) = &mut o.sym {
                            for i in 0..n {
                                s[off + i] = 0;
                            }
                        }
                    }
                    Val::S(e) => {
                        let mut e = *e;
                        if self.a.w(e) != n as u32 * 8 {
                            e = self.a.zext(e, n as u32 * 8);
                        }
                        let len = o.data.len();
                        let s = o.sym.get_or_insert_with(|| vec![0; len]);
                        for i in 0..n {
                            let b = self.a.extract(e, i as u32 * 8, 8);
                            match self.a.as_const(b) {
                                Some(x) => {
                                    o.data[off + i] = x as u8;
                                    s[off + i] = 0;
                                }
                                None => s[off + i] = b,
                            }
                        }
                    }
                    Val::A(_) => panic!("store of aggregate as scalar"),
                }
                true
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            self.mem_err(st, "write", addr, n)
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Arr(_, e), Val::A(l)) => {
                let s = e.size() as u64;
                for (i, x) in l.iter().enumerate() {
                    self.store_ty(st, addr + i as u64 * s, e, x)?;
                }
                Ok(())
            }
            (Ty::Vec(n, e), Val::A(l)) => {
                let lw = e.bits();
                if lw % 8 != 0 {
                    let x = self.pack(l, lw);
                    let tot = *n as u32 * lw;
                    let up = (tot + 7) / 8 * 8;
                    let x = self.a.zext(x, up);
                    let v = self.v(x);
                    return self.store_scalar(st, addr, up, &v);
                }
                let s = e.size() as u64;
                for (i, x) in l.iter().enumerate() {
                    self.store_ty(st, addr + i as u64 * s, e, x)?;
                }
                Ok(())
            }
            (Ty::Struct(fs, _, _), Val::A(l)) => {
                for ((o, t), x) in fs.iter().zip(l.iter()) {
                    self.store_ty(st, addr + *o as u64, t, x)?;
                }
                Ok(())
            }
            _ => self.store_scalar(st, addr, ty.bits(), v),
        }
    }
    fn pack(&mut self, l: &[Val], lw: u32) -> E {
        let mut r: Option<E> = None;
        for x in l.iter() {
            let e = self.e(x, lw);
            r = Some(match r {
                None => e,
                Some(lo) => self.a.concat(e, lo),
            });
        }
        r.unwrap()
    }
    /// (stride, residue) such that e == residue (mod stride)
    fn stride(&self, e: E) -> (u128, u128) {
        let k = self.a.key(e);
        match k.op {
            O::Const => (0, k.k),
            O::ZExt => self.stride(k.a),
            O::Concat => {
                let lw = self.a.w(k.b);
                if let Some(c) = self.a.as_const(k.b) {
                    (1 << lw, c)
                } else {
                    (1, 0)
                }
            }
            O::Mul => match self.a.as_const(k.b) {
                Some(c) if self.a.n[k.a as usize].hi.checked_mul(c).map_or(false, |x| x <= ones(k.w)) => (c, 0),
                _ => (1, 0),
            },
            O::Add => {
                let (s, r) = self.stride(k.a);
                match self.a.as_const(k.b) {
                    Some(c) if s > 1 && s.is_power_of_two() => (s, r.wrapping_add(c) % s),
                    Some(c) if s > 1 && self.a.n[k.a as usize].hi.checked_add(c).map_or(false, |x| x <= ones(k.w)) => (s, (r + c) % s),
                    _ => (1, 0),
                }
            }
            _ => (1, 0),
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, p: E, ty: &Ty) -> X<Val> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(zero_val(ty));
        }
        // which object?  split on in-bounds for the object the model points at
        loop {
            if let Some(a) = self.a.as_const(p) {
                return self.load_ty(st, a as u64, ty);
            }
            let base = if st.rpos < st.log.len() {
                match st.log[st.rpos] {
                    L::Pick(b) | L::Not(b) => b,
                    x => return inc(format!("decision log mismatch {:?}", x)),
                }
            } else {
                (self.a.eval(p, &st.model) as u64) >> OBJ_SHIFT << OBJ_SHIFT
            };
            let len = match st.mem.get(base) {
                Some((o, _)) => o.data.len(),
                None => {
                    let a = self.a.eval(p, &st.model) as u64;
                    return self.mem_err(st, "read through symbolic pointer", a, n);
                }
            };
            if len < n {
                let a = self.a.eval(p, &st.model) as u64;
                return self.mem_err(st, "read through symbolic pointer", a, n);
            }
            let kb = self.a.konst(base as u128, 64);
            let off = self.a.sub(p, kb);
            let lim = self.a.konst((len - n) as u128 + 1, 64);
            let inb = self.a.ult(off, lim);
            let ninb = self.a.not(inb);
            if st.rpos < st.log.len() {
                let neg = matches!(st.log[st.rpos], L::Not(_));
                if st.rpos >= st.added {
                    self.add_constraint(st, if neg { ninb } else { inb });
                    st.added = st.rpos + 1;
                }
                st.rpos += 1;
                if neg {
                    continue;
                }
            } else {
                self.stats.decides += 1;
                if self.a.eval(inb, &st.model) != 1 {
                    let a = self.a.eval(p, &st.model) as u64;
                    return self.mem_err(st, "read through symbolic pointer", a, n);
                }
                if let Some(m) = self.feasible(st, ninb, false)? {
                    self.fork(st, L::Not(base), ninb, m);
                }
                self.add_constraint(st, inb);
                st.log.push(L::Pick(base));
                st.rpos = st.log.len();
                st.added = st.log.len();
            }
            if !ty.is_scalar() {
                let a = self.pick(st, p)?;
                return self.load_ty(st, a, ty);
            }
            let nd = self.a.n[off as usize];
            if nd.leaf != 0 && self.a.w(nd.leaf) <= 8 {
                let w = ty.bits();
                let offs = self.a.values(off);
                let mut t = [0u128; 256];
                let mut ok = true;
                let mut fill = None;
                let dom = st.dom[self.a.key(nd.leaf).k as usize].unwrap_or([!0; 4]);
                for i in 0..1usize << self.a.w(nd.leaf) {
                    if offs[i] > (len - n) as u128 || dom[i / 64] >> (i % 64) & 1 == 0 {
                        continue;
                    }
                    match self.load_scalar(st, base + offs[i] as u64, w) {
                        Ok(v) => match Self::conc(&v) {
                            Some(x) => {
                                t[i] = x;
                                fill.get_or_insert(x);
                            }
                            None => {
                                ok = false;
                                break;
                            }
                        },
                        Err(_) => {
                            ok = false;
                            break;
                        }
                    }
                }
                if let (true, Some(f)) = (ok, fill) {
                    // entries the path excludes are irrelevant
                    for i in 0..256 {
                        let j = i & ((1 << self.a.w(nd.leaf)) - 1);
                        if offs[j] > (len - n) as u128 || dom[j / 64] >> (j % 64) & 1 == 0 {
                            t[i] = if i > 0 { t[i - 1] } else { f };
                        }
                    }
                    let e = self.a.from_table(nd.leaf, w, t);
                    return Ok(self.v(e));
                }
            }
            let lo = nd.lo.min((len - n) as u128) as u64;
            let hi = nd.hi.min((len - n) as u128) as u64;
            let (s, r) = self.stride(off);
            let s = s.max(1) as u64;
            let r = (r as u64) % s;
            let start = lo + (r + s - lo % s) % s;
            if (hi.saturating_sub(start)) / s > 2048 {
                let a = self.pick(st, p)?;
                return self.load_ty(st, a, ty);
            }
            // values per offset, grouped into runs
            let w = ty.bits();
            let mut runs: Vec<(u64, E)> = vec![]; // (last offset, value)
            let mut o = start;
            while o <= hi {
                let v = self.load_scalar(st, base + o, w)?;
                let e = self.e(&v, w);
                match runs.last_mut() {
                    Some((l, x)) if *x == e => *l = o,
                    _ => runs.push((o, e)),
                }
                o += s;
            }
            if runs.is_empty() {
                let a = self.pick(st, p)?;
                return self.load_ty(st, a, ty);
            }
            let e = self.select_runs(off, &runs);
            return Ok(self.v(e));
        }
    }
    /// Balanced decision tree over sorted runs keeps expressions shallow.
    fn select_runs(&mut self, off: E, runs: &[(u64, E)]) -> E {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let mid = runs.len() / 2;
        let l = self.select_runs(off, &runs[..mid]);
        let h = self.select_runs(off, &runs[mid..]);
        let k = self.a.konst(runs[mid - 1].0 as u128, 64);
        let c = self.a.ule(off, k);
        self.a.ite(c, l, h)
    }
    /// `n` bytes at a symbolic address.
    fn read_bytes_sym(&mut self, st: &mut State, p: E, n: usize) -> X<Vec<Val>> {
        let mut v = vec![];
        for i in 0..n {
            let k = self.a.konst(i as u128, 64);
            let q = self.a.add(p, k);
            v.push(self.load_sym(st, q, &Ty::Int(8))?);
        }
        Ok(v)
    }
    fn read_bytes(&mut self, st: &State, addr: u64, n: usize) -> X<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = match st.mem.get(addr) {
            Some((o, off)) if off + n <= o.data.len() => (o, off),
            _ => return self.mem_err(st, "read", addr, n),
        };
        Ok((0..n)
            .map(|i| match &o.sym {
                Some(s) if s[off + i] != 0 => Val::S(s[off + i]),
                _ => Val::C(o.data[off + i] as u64),
            })
            .collect())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = match st.mem.get(s) {
            Some((o, off)) if off + n <= o.data.len() => (
                o.data[off..off + n].to_vec(),
                o.sym.as_ref().and_then(|y| {
                    if y[off..off + n].iter().any(|e| *e != 0) {
                        Some(y[off..off + n].to_vec())
                    } else {
                        None
                    }
                }),
            ),
            _ => return self.mem_err(st, "copy from", s, n),
        };
        let ok = match st.mem.get_mut(d) {
            Some((o, off)) if off + n <= o.data.len() && !o.ro => {
                o.data[off..off + n].copy_from_slice(&data);
                match (sym, &mut o.sym) {
                    (Some(y), Some(t)) => t[off..off + n].copy_from_slice(&y),
                    (Some(y), None) => {
                        let mut t = vec![0; o.data.len()];
                        t[off..off + n].copy_from_slice(&y);
                        o.sym = Some(t);
                    }
                    (None, Some(t)) => t[off..off + n].iter_mut().for_each(|e| *e = 0),
                    (None, None) => {}
                }
                true
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            self.mem_err(st, "copy to", d, n)
        }
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let ok = match st.mem.get_mut(d) {
            Some((o, off)) if off + n <= o.data.len() && !o.ro => {
                match v {
                    Val::C(x) => {
                        o.data[off..off + n].iter_mut().for_each(|b| *b = *x as u8);
                        if let Some(t) = &mut o.sym {
                            t[off..off + n].iter_mut().for_each(|e| *e = 0);
                        }
                    }
                    Val::S(e) => {
                        let len = o.data.len();
                        let t = o.sym.get_or_insert_with(|| vec![0; len]);
                        t[off..off + n].iter_mut().for_each(|x| *x = *e);
                    }
                    _ => {}
                }
                true
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            self.mem_err(st, "memset", d, n)
        }
    }

    // ------------------------------------------------------------- arithmetic
    fn bin(&mut self, st: &mut State, op: Bin, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let Ty::Vec(_, e) = ty {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let mut v = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.bin(st, op, e, p, q)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (s64(x, w) >> y.min(w as u64 - 1)) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return Err(Stop::Bad("divzero".into(), self.backtrace(st)));
                    }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                        _ => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                    }
                }
                Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => {
                    let f = |p: f64, q: f64| match op {
                        Bin::FAdd => p + q,
                        Bin::FSub => p - q,
                        Bin::FMul => p * q,
                        Bin::FDiv => p / q,
                        _ => p % q,
                    };
                    let g = |p: f32, q: f32| match op {
                        Bin::FAdd => p + q,
                        Bin::FSub => p - q,
                        Bin::FMul => p * q,
                        Bin::FDiv => p / q,
                        _ => p % q,
                    };
                    match ty {
                        Ty::Double => f(f64::from_bits(x), f64::from_bits(y)).to_bits(),
                        Ty::Float => g(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u64,
                        _ => return inc("fp type"),
                    }
                }
            };
            return Ok(Val::C(m64(r, w)));
        }
        if matches!(op, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem) {
            // split on the (finitely many) values of the operands
            let (x, y) = (self.pick_val(st, a)?, self.pick_val(st, b)?);
            return self.bin(st, op, ty, &Val::C(x), &Val::C(y));
        }
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            let ws = w as u128;
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= ws {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= ws {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (to_signed(x, w) >> y.min(ws - 1)) as u128,
                _ => {
                    if y == 0 {
                        return Err(Stop::Bad("divzero".into(), self.backtrace(st)));
                    }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => to_signed(x, w).wrapping_div(to_signed(y, w)) as u128,
                        _ => to_signed(x, w).wrapping_rem(to_signed(y, w)) as u128,
                    }
                }
            };
            return Ok(Self::wval(r, w));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match op {
            Bin::Add => self.a.add(x, y),
            Bin::Sub => self.a.sub(x, y),
            Bin::Mul => self.a.mul(x, y),
            Bin::And => self.a.and(x, y),
            Bin::Or => self.a.or(x, y),
            Bin::Xor => self.a.xor(x, y),
            Bin::Shl => self.a.shl(x, y),
            Bin::LShr => self.a.lshr(x, y),
            Bin::AShr => self.a.ashr(x, y),
            Bin::UDiv => self.a.udiv(x, y),
            Bin::URem => self.a.urem(x, y),
            Bin::SDiv => self.a.sdiv(x, y),
            _ => self.a.srem(x, y),
        };
        Ok(self.v(r))
    }
    fn icmp_e(&mut self, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => self.a.eq(x, y),
            Pred::Ne => self.a.ne(x, y),
            Pred::Ult => self.a.ult(x, y),
            Pred::Ugt => self.a.ult(y, x),
            Pred::Ule => self.a.ule(x, y),
            Pred::Uge => self.a.ule(y, x),
            Pred::Slt => self.a.slt(x, y),
            Pred::Sgt => self.a.slt(y, x),
            Pred::Sle => self.a.sle(x, y),
            Pred::Sge => self.a.sle(y, x),
        }
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> Val {
        if let Ty::Vec(_, e) = ty {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let v = x.iter().zip(y.iter()).map(|(p1, q1)| self.icmp(p, e, p1, q1)).collect();
                return Val::A(Rc::new(v));
            }
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ugt => x > y,
                Pred::Ule => x <= y,
                Pred::Uge => x >= y,
                Pred::Slt => s64(x, w) < s64(y, w),
                Pred::Sgt => s64(x, w) > s64(y, w),
                Pred::Sle => s64(x, w) <= s64(y, w),
                Pred::Sge => s64(x, w) >= s64(y, w),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.icmp_e(p, x, y);
        self.v(r)
    }
    fn ite_val(&mut self, c: E, ty: &Ty, a: &Val, b: &Val) -> Val {
        match (ty, a, b) {
            (Ty::Struct(fs, _, _), Val::A(x), Val::A(y)) => Val::A(Rc::new(
                fs.iter().zip(x.iter().zip(y.iter())).map(|(f, (p, q))| self.ite_val(c, &f.1, p, q)).collect(),
            )),
            (Ty::Arr(_, e), Val::A(x), Val::A(y)) | (Ty::Vec(_, e), Val::A(x), Val::A(y)) => {
                Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.ite_val(c, e, p, q)).collect()))
            }
            _ => {
                let w = ty.bits();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.a.ite(c, x, y);
                self.v(r)
            }
        }
    }
    fn cast(&mut self, st: &mut State, op: Cast, from: &Ty, to: &Ty, a: &Val) -> X<Val> {
        if let (Ty::Vec(n1, e1), Ty::Vec(n2, e2), Val::A(x)) = (from, to, a) {
            if n1 == n2 {
                let mut v = Vec::with_capacity(x.len());
                for p in x.iter() {
                    v.push(self.cast(st, op, e1, e2, p)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        match op {
            Cast::Bitcast => {
                if from.is_scalar() && to.is_scalar() {
                    return Ok(a.clone());
                }
                let e = match (from, a) {
                    (Ty::Vec(_, l), Val::A(x)) => {
                        let x = x.clone();
                        self.pack(&x, l.bits())
                    }
                    _ => self.e(a, fw),
                };
                match to {
                    Ty::Vec(n, l) => {
                        let lw = l.bits();
                        let mut v = vec![];
                        for i in 0..*n {
                            let y = self.a.extract(e, i as u32 * lw, lw);
                            v.push(self.v(y));
                        }
                        Ok(Val::A(Rc::new(v)))
                    }
                    _ => Ok(self.v(e)),
                }
            }
            Cast::Trunc | Cast::ZExt | Cast::SExt | Cast::PtrToInt | Cast::IntToPtr => {
                if let Val::S(e) = a {
                    let r = if tw < fw {
                        self.a.trunc(*e, tw)
                    } else if op == Cast::SExt {
                        self.a.sext(*e, tw)
                    } else {
                        self.a.zext(*e, tw)
                    };
                    return Ok(self.v(r));
                }
                let x = Self::conc(a).unwrap();
                let r = if op == Cast::SExt { to_signed(x, fw) as u128 } else { x };
                Ok(Self::wval(r, tw))
            }
            _ => {
                let x = match Self::conc(a) {
                    Some(x) => x,
                    None if fw <= 64 => self.pick_val(st, a)? as u128,
                    None => return inc(format!("symbolic floating-point conversion in {}", self.backtrace(st))),
                };
                let fp = |t: &Ty, x: u128| -> f64 {
                    match t {
                        Ty::Float => f32::from_bits(x as u32) as f64,
                        _ => f64::from_bits(x as u64),
                    }
                };
                let tofp = |t: &Ty, d: f64| -> Val {
                    match t {
                        Ty::Float => Val::C((d as f32).to_bits() as u64),
                        _ => Val::C(d.to_bits()),
                    }
                };
                Ok(match op {
                    Cast::UiToFp => match to {
                        Ty::Float => Val::C((x as f32).to_bits() as u64),
                        _ => Val::C((x as f64).to_bits()),
                    },
                    Cast::SiToFp => {
                        let s = to_signed(x, fw);
                        match to {
                            Ty::Float => Val::C((s as f32).to_bits() as u64),
                            _ => Val::C((s as f64).to_bits()),
                        }
                    }
                    Cast::FpToUi => Self::wval(fp(from, x) as u128, tw),
                    Cast::FpToSi => Self::wval((fp(from, x) as i128) as u128, tw),
                    _ => tofp(to, fp(from, x)),
                })
            }
        }
    }

    // ------------------------------------------------------------- control
    #[inline(always)]
    fn op(&self, st: &mut State, o: &Op) -> Val {
        match o {
            Op::Reg(r) => match &st.cur.regs[*r as usize] {
                // never while an instruction is being re-executed: the decisions
                // it logged must be asked again
                Val::S(e) if st.rpos == st.istart && st.rpos >= st.added => {
                    let v = self.specialise(st, *e);
                    if let Val::C(_) = v {
                        st.cur.regs[*r as usize] = v.clone();
                    }
                    v
                }
                v => v.clone(),
            },
            Op::K(v) => v.clone(),
        }
    }
    /// A function of one narrow variable that is constant on the variable's
    /// remaining domain is that constant.
    #[inline(never)]
    fn specialise(&self, st: &State, e: E) -> Val {
        let leaf = self.a.n[e as usize].leaf;
        if leaf == 0 {
            if let Some(v) = st.known.get(&e) {
                return Val::C(*v);
            }
            let k = self.a.key(e);
            if k.op == O::ZExt || k.op == O::Not {
                if let Some(v) = st.known.get(&k.a) {
                    return Val::C(if k.op == O::ZExt { *v } else { !*v & ones(k.w) as u64 });
                }
            }
            if let (O::Add, Some(c), true) = (k.op, self.a.as_const(k.b), k.w <= 64) {
                if let Some(v) = st.known.get(&k.a) {
                    return Val::C((*v as u128 + c & ones(k.w)) as u64);
                }
            }
        } else if self.a.w(leaf) <= 8 {
            let v = self.a.key(leaf).k as usize;
            if let Some(d) = st.dom[v] {
                let mut sp = self.spec.borrow_mut();
                let r = *sp.entry((e, d)).or_insert_with(|| {
                    let t = self.a.values(e);
                    let mut r = None;
                    for i in 0..1usize << self.a.w(leaf) {
                        if d[i / 64] >> (i % 64) & 1 == 1 {
                            match r {
                                None => r = Some(t[i]),
                                Some(x) if x == t[i] => {}
                                _ => return None,
                            }
                        }
                    }
                    r
                });
                if let (Some(x), true) = (r, self.a.w(e) <= 64) {
                    return Self::wval(x, self.a.w(e));
                }
            }
        }
        Val::S(e)
    }
    fn jump(&mut self, st: &mut State, b: u32) {
        let f = st.cur.func;
        let from = st.cur.block;
        st.cur.prev = from;
        st.cur.block = b;
        st.cur.idx = 0;
        let blk = &f.blocks[b as usize];
        if let Some(Ins::Phi { .. }) = blk.first() {
            let mut vals: [Option<(u32, Val)>; 8] = Default::default();
            let mut more: Vec<(u32, Val)> = vec![];
            let mut n = 0;
            for ins in blk {
                match ins {
                    Ins::Phi { dst, inc, .. } => {
                        let o = inc.iter().find(|(_, p)| *p == from).map(|x| &x.0).expect("phi edge");
                        let v = self.op(st, o);
                        if n < 8 {
                            vals[n] = Some((*dst, v));
                        } else {
                            more.push((*dst, v));
                        }
                        n += 1;
                    }
                    _ => break,
                }
            }
            for x in vals.iter_mut() {
                match x.take() {
                    Some((d, v)) => st.cur.regs[d as usize] = v,
                    None => break,
                }
            }
            for (d, v) in more {
                st.cur.regs[d as usize] = v;
            }
            st.cur.idx = n as u32;
        }
        if self.trace {
            self.blocks_hit.insert((f.id as u32, b));
        }
    }
    fn enter(&mut self, st: &mut State, fi: usize, args: Vec<Val>) -> X<()> {
        let f = match self.m.func(fi) {
            Ok(f) => f,
            Err(e) => return inc(e),
        };
        self.funcs_hit[fi] += 1;
        if st.frames.len() >= self.cfg.max_frames {
            return Err(Stop::Bad("stackoverflow".into(), self.backtrace(st)));
        }
        let mut regs = vec![Val::C(0); f.nregs];
        for (r, v) in f.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        let sb = st.mem.stack.len();
        let nf = Frame { func: f, block: 0, idx: 0, prev: 0, stack_base: sb, regs };
        let old = std::mem::replace(&mut st.cur, nf);
        st.frames.push(Rc::new(old));
        if self.trace {
            self.blocks_hit.insert((fi as u32, 0));
        }
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> X<()> {
        st.mem.stack.truncate(st.cur.stack_base);
        match st.frames.pop() {
            None => return Err(Stop::Done),
            Some(f) => {
                st.cur = match Rc::try_unwrap(f) {
                    Ok(f) => f,
                    Err(f) => (*f).clone(),
                };
            }
        }
        let f = st.cur.func;
        let ins = &f.blocks[st.cur.block as usize][st.cur.idx as usize];
        if let Ins::Call(c) = ins {
            self.finish_call(st, c, v);
        } else {
            return inc("return to a non-call");
        }
        Ok(())
    }
    fn finish_call(&mut self, st: &mut State, c: &CallI, v: Option<Val>) {
        if let Some(d) = c.dst {
            st.cur.regs[d as usize] = v.unwrap_or_else(|| zero_val(&c.ret));
        }
        match c.normal {
            Some(b) => self.jump(st, b),
            None => st.cur.idx += 1,
        }
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        self.a.new_model();
        self.cur_st = st;
        loop {
            st.istart = st.rpos;
            st.ninstr += 1;
            if st.ninstr > self.cfg.max_instr {
                return Stop::Bad("limit".into(), format!("more than {} instructions on one path, at\n  {}", self.cfg.max_instr, self.backtrace(st)));
            }
            let f = st.cur.func;
            let ins = match f.blocks[st.cur.block as usize].get(st.cur.idx as usize) {
                Some(i) => i,
                None => return Stop::Inconclusive(format!("fell off block {} in {}", st.cur.block, f.name)),
            };
            if let Err(s) = self.step(st, ins) {
                return s;
            }
        }
    }

    fn step(&mut self, st: &mut State, ins: &'static Ins) -> X<()> {
        match ins {
            Ins::Load { dst, ty, ptr } => {
                let v = match self.op(st, ptr) {
                    Val::C(a) => {
                        if ty.is_scalar() {
                            self.load_scalar(st, a, ty.bits())?
                        } else {
                            self.load_ty(st, a, ty)?
                        }
                    }
                    Val::S(e) => self.load_sym(st, e, ty)?,
                    _ => return inc("load pointer"),
                };
                st.cur.regs[*dst as usize] = v;
            }
            Ins::Store { ty, val, ptr } => {
                let p = self.op(st, ptr);
                let a = self.pick_val(st, &p)?;
                let v = self.op(st, val);
                if ty.is_scalar() {
                    self.store_scalar(st, a, ty.bits(), &v)?
                } else if ty.size() > 0 {
                    self.store_ty(st, a, ty, &v)?
                }
            }
            Ins::Gep { dst, base, off, idx, vec } => {
                if *vec {
                    return inc("vector gep");
                }
                let b = self.op(st, base);
                let mut r = match b {
                    Val::C(x) => Val::C(x.wrapping_add(*off as u64)),
                    Val::S(e) => {
                        let k = self.a.konst(*off as u64 as u128, 64);
                        let s = self.a.add(e, k);
                        self.v(s)
                    }
                    _ => return inc("gep base"),
                };
                for (i, w, sc) in idx {
                    let iv = self.op(st, i);
                    r = match (&r, &iv) {
                        (Val::C(x), Val::C(y)) => Val::C(x.wrapping_add((s64(*y, *w).wrapping_mul(*sc)) as u64)),
                        _ => {
                            let y = self.e(&iv, *w);
                            let y = if *w < 64 { self.a.sext(y, 64) } else { self.a.trunc(y, 64) };
                            let k = self.a.konst(*sc as u64 as u128, 64);
                            let m = self.a.mul(y, k);
                            let x = self.e(&r, 64);
                            let s = self.a.add(x, m);
                            self.v(s)
                        }
                    };
                }
                st.cur.regs[*dst as usize] = r;
            }
            Ins::Bin { dst, op, ty, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = self.bin(st, *op, ty, &x, &y)?;
                st.cur.regs[*dst as usize] = v;
            }
            Ins::Icmp { dst, pred, ty, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = self.icmp(*pred, ty, &x, &y);
                st.cur.regs[*dst as usize] = v;
            }
            Ins::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            Ins::CondBr(c, t, e) => {
                let c = self.op(st, c);
                let v = match c {
                    Val::C(x) => x & 1 == 1,
                    Val::S(x) => self.decide(st, x)?,
                    _ => return inc("branch condition"),
                };
                self.jump(st, if v { *t } else { *e });
                return Ok(());
            }
            Ins::Cast { dst, op, from, to, a } => {
                let x = self.op(st, a);
                let v = self.cast(st, *op, from, to, &x)?;
                st.cur.regs[*dst as usize] = v;
            }
            Ins::Select { dst, cty, c, ty, a, b } => {
                let c = self.op(st, c);
                let v = match (&c, cty) {
                    (Val::C(x), _) => {
                        if x & 1 == 1 {
                            self.op(st, a)
                        } else {
                            self.op(st, b)
                        }
                    }
                    (Val::S(e), _) => {
                        let (x, y) = (self.op(st, a), self.op(st, b));
                        self.ite_val(*e, ty, &x, &y)
                    }
                    (Val::A(l), _) => {
                        let (x, y) = (self.op(st, a), self.op(st, b));
                        match (ty, x, y) {
                            (Ty::Vec(_, et), Val::A(x), Val::A(y)) => {
                                let mut v = vec![];
                                for i in 0..l.len() {
                                    let ce = self.e(&l[i], 1);
                                    v.push(self.ite_val(ce, et, &x[i], &y[i]));
                                }
                                Val::A(Rc::new(v))
                            }
                            _ => return inc("vector select"),
                        }
                    }
                    _ => return inc("select"),
                };
                st.cur.regs[*dst as usize] = v;
            }
            Ins::Call(c) => return self.call(st, c),
            Ins::Alloca { dst, size, count } => {
                let n = match count {
                    None => *size,
                    Some(o) => {
                        let v = self.op(st, o);
                        *size * self.pick_val(st, &v)? as usize
                    }
                };
                let a = st.mem.alloc_stack(n);
                st.cur.regs[*dst as usize] = Val::C(a);
            }
            Ins::Switch { ty, v, def, cases } => {
                let x = self.op(st, v);
                let t = match Self::conc(&x) {
                    Some(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    None => {
                        let w = ty.bits();
                        let e = self.e(&x, w);
                        let mut order: Vec<u32> = vec![];
                        for (_, t) in cases {
                            if !order.contains(t) && t != def {
                                order.push(*t);
                            }
                        }
                        let mut tgt = *def;
                        for t in order {
                            let mut c = self.a.bool(false);
                            for (k, tt) in cases {
                                if *tt == t {
                                    let kk = self.a.konst(*k, w);
                                    let q = self.a.eq(e, kk);
                                    c = self.a.or(c, q);
                                }
                            }
                            if self.decide(st, c)? {
                                tgt = t;
                                break;
                            }
                        }
                        tgt
                    }
                };
                self.jump(st, t);
                return Ok(());
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.op(st, o));
                return self.ret(st, v);
            }
            Ins::ExtractValue { dst, a, idx } => {
                let mut v = self.op(st, a);
                for i in idx {
                    v = match &v {
                        Val::A(l) => l[*i as usize].clone(),
                        _ => return inc("extractvalue of scalar"),
                    };
                }
                st.cur.regs[*dst as usize] = v;
            }
            Ins::InsertValue { dst, ty, a, v, idx } => {
                let mut agg = self.op(st, a);
                if !matches!(agg, Val::A(_)) {
                    agg = zero_val(ty);
                }
                let x = self.op(st, v);
                fn ins_at(v: &mut Val, idx: &[u32], x: Val) {
                    if idx.is_empty() {
                        *v = x;
                        return;
                    }
                    if let Val::A(l) = v {
                        let l = Rc::make_mut(l);
                        ins_at(&mut l[idx[0] as usize], &idx[1..], x);
                    }
                }
                ins_at(&mut agg, idx, x);
                st.cur.regs[*dst as usize] = agg;
            }
            Ins::Unreachable => {
                return Err(Stop::Bad("unreachable".into(), self.backtrace(st)));
            }
            Ins::Phi { .. } => return inc("phi in the middle of a block"),
            Ins::Freeze { dst, a } => {
                st.cur.regs[*dst as usize] = self.op(st, a);
            }
            Ins::Fence => {}
            Ins::FNeg { dst, ty, a } => {
                let v = self.op(st, a);
                let v = match v {
                    Val::S(_) => Val::C(self.pick_val(st, &v)?),
                    v => v,
                };
                let s = match (ty, &v) {
                    (Ty::Double, Val::C(x)) => Val::C(x ^ (1 << 63)),
                    (Ty::Float, Val::C(x)) => Val::C(x ^ (1 << 31)),
                    _ => return inc("fneg"),
                };
                st.cur.regs[*dst as usize] = s;
            }
            Ins::Fcmp { dst, pred, ty, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (x, y) = (self.pick_val(st, &x)?, self.pick_val(st, &y)?);
                let (x, y) = match ty {
                    Ty::Float => (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64),
                    _ => (f64::from_bits(x), f64::from_bits(y)),
                };
                let un = x.is_nan() || y.is_nan();
                let r = match pred.as_str() {
                    "false" => false,
                    "true" => true,
                    "ord" => !un,
                    "uno" => un,
                    p => {
                        let c = match &p[1..] {
                            "eq" => x == y,
                            "gt" => x > y,
                            "ge" => x >= y,
                            "lt" => x < y,
                            "le" => x <= y,
                            "ne" => x != y && !un,
                            _ => return inc("fcmp"),
                        };
                        if p.starts_with('u') {
                            un || c
                        } else {
                            c
                        }
                    }
                };
                st.cur.regs[*dst as usize] = Val::C(r as u64);
            }
            Ins::ExtractElem { dst, v, i, .. } => {
                let v = self.op(st, v);
                let i = self.op(st, i);
                let i = self.pick_val(st, &i)? as usize;
                let x = match &v {
                    Val::A(l) => l.get(i).cloned().unwrap_or(Val::C(0)),
                    _ => return inc("extractelement"),
                };
                st.cur.regs[*dst as usize] = x;
            }
            Ins::InsertElem { dst, vty, v, e, i } => {
                let mut v = self.op(st, v);
                if !matches!(v, Val::A(_)) {
                    v = zero_val(vty);
                }
                let i = self.op(st, i);
                let i = self.pick_val(st, &i)? as usize;
                let e = self.op(st, e);
                if let Val::A(l) = &mut v {
                    Rc::make_mut(l)[i] = e;
                }
                st.cur.regs[*dst as usize] = v;
            }
            Ins::Shuffle { dst, vty, a, b, mask } => {
                let n = match vty {
                    Ty::Vec(n, _) => *n,
                    _ => return inc("shuffle"),
                };
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (x, y) = match (x, y) {
                    (Val::A(x), Val::A(y)) => (x, y),
                    _ => return inc("shuffle"),
                };
                let v = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            x[0].clone()
                        } else if (*m as usize) < n {
                            x[*m as usize].clone()
                        } else {
                            y[*m as usize - n].clone()
                        }
                    })
                    .collect();
                st.cur.regs[*dst as usize] = Val::A(Rc::new(v));
            }
            Ins::AtomicRmw { dst, op, ty, ptr, v } => {
                let p = self.op(st, ptr);
                let a = self.pick_val(st, &p)?;
                let old = self.load_ty(st, a, ty)?;
                let x = self.op(st, v);
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(st, Bin::Add, ty, &old, &x)?,
                    "sub" => self.bin(st, Bin::Sub, ty, &old, &x)?,
                    "and" => self.bin(st, Bin::And, ty, &old, &x)?,
                    "or" => self.bin(st, Bin::Or, ty, &old, &x)?,
                    "xor" => self.bin(st, Bin::Xor, ty, &old, &x)?,
                    "umax" | "umin" | "max" | "min" => {
                        let p = match op.as_str() {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(p, ty, &old, &x);
                        let c = self.e(&c, 1);
                        self.ite_val(c, ty, &old, &x)
                    }
                    _ => return inc(format!("atomicrmw {op}")),
                };
                self.store_ty(st, a, ty, &new)?;
                st.cur.regs[*dst as usize] = old;
            }
            Ins::CmpXchg { dst, ty, ptr, cmp, new } => {
                let p = self.op(st, ptr);
                let a = self.pick_val(st, &p)?;
                let old = self.load_ty(st, a, ty)?;
                let c = self.op(st, cmp);
                let n = self.op(st, new);
                let eq = self.icmp(Pred::Eq, ty, &old, &c);
                let ok = match eq {
                    Val::C(x) => x == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return inc("cmpxchg"),
                };
                if ok {
                    self.store_ty(st, a, ty, &n)?;
                }
                st.cur.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::C(ok as u64)]));
            }
            Ins::LandingPad { .. } | Ins::Resume => {
                return Err(Stop::Bad("unwind".into(), self.backtrace(st)));
            }
        }
        st.cur.idx += 1;
        Ok(())
    }

    // ------------------------------------------------------------- calls
    fn classify(&mut self, fi: usize) -> B {
        if let Some(b) = self.bt[fi] {
            return b;
        }
        let has_body = self.m.funcs[fi].src.is_some();
        let name = self.m.funcs[fi].name.clone();
        let b = self.builtin(&name, has_body);
        self.bt[fi] = Some(b);
        b
    }
    fn builtin(&self, name: &str, has_body: bool) -> B {
        if name.contains("4core9panicking") || name.contains("__rustc17rust_begin_unwind") {
            return B::Panic;
        }
        if self.cfg.sip_stub && name.contains("3sip") && name.contains("6Hasher") {
            if name.contains("6Hasher6finish") {
                return B::SipFinish;
            }
            if name.contains("6Hasher5write") || name.contains("6Hasher9write_str") || name.contains("6Hasher8write_u8") {
                return B::SipWrite;
            }
        }
        // Which non-ASCII characters `{:?}` escapes: only the wording of error messages.
        if name.contains("4core7unicode12unicode_data") && (name.contains("15grapheme_extend") || name.contains("2cf") || name.contains("28default_ignorable_code_point") || name.contains("cn_planes")) && name.contains("lookup_slow") {
            return B::SipFinish;
        }
        match name {
            "malloc" => return B::Malloc,
            "calloc" => return B::Calloc,
            "realloc" => return B::Realloc,
            "free" => return B::Free,
            "posix_memalign" => return B::PosixMemalign,
            "aligned_alloc" => return B::AlignedAlloc,
            "memcpy" | "memmove" => return B::Memcpy,
            "memset" => return B::Memset,
            "memcmp" | "bcmp" => return B::Memcmp,
            "memchr" => return B::Memchr,
            "memrchr" => return B::Memrchr,
            "strlen" => return B::Strlen,
            "__errno_location" => return B::Errno,
            "abort" | "_exit" | "exit" => return B::Abort,
            "__vs_u8" => return B::VsVar(8),
            "__vs_u16" => return B::VsVar(16),
            "__vs_u32" => return B::VsVar(32),
            "__vs_u64" => return B::VsVar(64),
            "__vs_assume" => return B::VsAssume,
            "__vs_check" => return B::VsCheck,
            "__vs_cover" => return B::VsCover,
            "__vs_pick" => return B::VsPick,
            "__vs_note" => return B::VsNote,
            "__vs_fail" => return B::VsFail,
            "__vs_param" => return B::VsParam,
            "__vs_is_symbolic_run" => return B::VsSymbolic,
            "__vs_print" => return B::VsPrint,
            _ => {}
        }
        if name.contains("___rustc") {
            if name.ends_with("12___rust_alloc") {
                return B::RustAlloc;
            }
            if name.ends_with("19___rust_alloc_zeroed") {
                return B::RustAllocZeroed;
            }
            if name.ends_with("14___rust_dealloc") {
                return B::RustDealloc;
            }
            if name.ends_with("14___rust_realloc") {
                return B::RustRealloc;
            }
            if name.contains("no_alloc_shim") {
                return B::Nop;
            }
        }
        if has_body {
            return B::None;
        }
        if let Some(r) = name.strip_prefix("llvm.") {
            let i = |x: I| B::Intr(x);
            let st = |p: &str| r.starts_with(p);
            return if st("lifetime.") || st("dbg.") || st("prefetch") || st("experimental.noalias") || st("invariant.") || st("x86.sse2.pause") || st("donothing") || st("stackrestore") {
                B::Nop
            } else if st("memcpy.") || st("memmove.") {
                B::Memcpy
            } else if st("memset.") {
                B::Memset
            } else if st("uadd.with") {
                i(I::UAddO)
            } else if st("usub.with") {
                i(I::USubO)
            } else if st("umul.with") {
                i(I::UMulO)
            } else if st("sadd.with") {
                i(I::SAddO)
            } else if st("ssub.with") {
                i(I::SSubO)
            } else if st("smul.with") {
                i(I::SMulO)
            } else if st("uadd.sat") {
                i(I::UAddSat)
            } else if st("usub.sat") {
                i(I::USubSat)
            } else if st("sadd.sat") {
                i(I::SAddSat)
            } else if st("ssub.sat") {
                i(I::SSubSat)
            } else if st("umin.") {
                i(I::UMin)
            } else if st("umax.") {
                i(I::UMax)
            } else if st("smin.") {
                i(I::SMin)
            } else if st("smax.") {
                i(I::SMax)
            } else if st("abs.") {
                i(I::Abs)
            } else if st("cttz.") {
                i(I::Cttz)
            } else if st("ctlz.") {
                i(I::Ctlz)
            } else if st("ctpop.") {
                i(I::Ctpop)
            } else if st("bswap.") {
                i(I::Bswap)
            } else if st("bitreverse.") {
                i(I::Bitreverse)
            } else if st("fshl.") {
                i(I::Fshl)
            } else if st("fshr.") {
                i(I::Fshr)
            } else if st("ucmp.") {
                i(I::UCmp)
            } else if st("scmp.") {
                i(I::SCmp)
            } else if st("expect.") {
                i(I::Expect)
            } else if st("assume") {
                i(I::Assume)
            } else if st("threadlocal.address") {
                i(I::TlAddr)
            } else if st("is.constant") {
                i(I::IsConst)
            } else if st("objectsize") {
                i(I::ObjSize)
            } else if st("fptoui.sat") {
                i(I::FpToUiSat)
            } else if st("fptosi.sat") {
                i(I::FpToSiSat)
            } else if st("floor.") {
                i(I::FFloor)
            } else if st("ceil.") {
                i(I::FCeil)
            } else if st("trunc.") {
                i(I::FTrunc)
            } else if st("fabs.") {
                i(I::FAbs)
            } else if st("fmuladd.") || st("fma.") {
                i(I::FMulAdd)
            } else if st("sqrt.") {
                i(I::FSqrt)
            } else if st("copysign.") {
                i(I::FCopysign)
            } else if st("minnum") || st("minimumnum") {
                i(I::FMinNum)
            } else if st("maxnum") || st("maximumnum") {
                i(I::FMaxNum)
            } else if st("trap") || st("ubsantrap") {
                i(I::Trap)
            } else if st("ptrmask") {
                i(I::Ptrmask)
            } else if st("vector.reduce.or") {
                i(I::ReduceOr)
            } else if st("vector.reduce.and") {
                i(I::ReduceAnd)
            } else if st("vector.reduce.add") {
                i(I::ReduceAdd)
            } else if st("vector.reduce.umax") {
                i(I::ReduceUMax)
            } else if st("vector.reduce.umin") {
                i(I::ReduceUMin)
            } else if st("vector.reduce.xor") {
                i(I::ReduceXor)
            } else if st("x86.sse2.pmovmskb") {
                i(I::SseMovmsk)
            } else if st("load.relative") {
                i(I::LoadRelative)
            } else {
                i(I::Unsup)
            };
        }
        match name {
            "getenv" | "dlsym" | "signal" | "sigaction" | "sigaltstack" | "pthread_self" | "sched_yield" | "__cxa_thread_atexit_impl" | "pthread_key_delete"
            | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_init" | "pthread_mutex_destroy" | "pthread_mutexattr_init" | "pthread_mutexattr_settype"
            | "pthread_mutexattr_destroy" | "pthread_cond_signal" | "pthread_cond_destroy" | "pthread_mutex_trylock" | "gnu_get_libc_version" | "__gmon_start__" | "madvise" | "secure_getenv"
            | "pthread_atfork" => B::RetZero,
            "_Unwind_Backtrace" | "_Unwind_GetIP" => B::RetZero,
            "getpid" | "gettid" => B::RetOne,
            "isatty" => B::RetZero,
            "sysconf" => B::Sysconf,
            "write" | "writev" => B::Write,
            "pthread_key_create" => B::PthreadKeyCreate,
            "pthread_getspecific" => B::PthreadGetspecific,
            "pthread_setspecific" => B::PthreadSetspecific,
            _ => B::None,
        }
    }
    fn call(&mut self, st: &mut State, c: &'static CallI) -> X<()> {
        let fi = match &c.callee {
            Callee::Func(i) => *i,
            Callee::Asm(s) => {
                if s.contains("cpuid") || s.contains("xgetbv") {
                    let v = zero_val(&c.ret);
                    self.finish_call(st, c, Some(v));
                    return Ok(());
                }
                if s.is_empty() || s.contains("pause") || (s.starts_with("/*") && s.ends_with("*/") && s.matches("*/").count() == 1) {
                    // black_box-style barrier: arguments are already in memory or passed through
                    let v = c.args.first().map(|o| self.op(st, o));
                    self.finish_call(st, c, v);
                    return Ok(());
                }
                return inc(format!("inline asm {s:?} in {}", st.cur.func.name));
            }
            Callee::Ptr(o) => {
                let p = self.op(st, o);
                let a = self.pick_val(st, &p)?;
                if a < FUNC_BASE || a >= STACK_BASE || (a - FUNC_BASE) % 16 != 0 || ((a - FUNC_BASE) / 16) as usize >= self.m.funcs.len() {
                    return self.mem_err(st, "call through pointer", a, 0);
                }
                ((a - FUNC_BASE) / 16) as usize
            }
        };
        let b = self.classify(fi);
        match b {
            B::None => {
                if self.m.funcs[fi].src.is_none() {
                    return inc(format!("call to unmodelled external function {} from\n  {}", self.m.funcs[fi].name, self.backtrace(st)));
                }
                let mut args = Vec::with_capacity(c.args.len());
                for o in &c.args {
                    args.push(self.op(st, o));
                }
                if c.byval.iter().any(|x| *x > 0) {
                    return inc("byval argument");
                }
                self.enter(st, fi, args)
            }
            B::Nop => {
                let v = if matches!(c.ret, Ty::Void) { None } else { Some(zero_val(&c.ret)) };
                self.finish_call(st, c, v);
                Ok(())
            }
            _ => {
                let args: Vec<Val> = c.args.iter().map(|o| self.op(st, o)).collect();
                let r = self.do_builtin(st, b, c, fi, &args)?;
                self.finish_call(st, c, r);
                Ok(())
            }
        }
    }
    fn panic_detail(&self, st: &State, fi: usize, args: &[Val]) -> String {
        let mut loc = String::new();
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                if let Some((o, off)) = st.mem.get(*p) {
                    if off + 24 <= o.data.len() {
                        let rd = |k: usize| u64::from_le_bytes(o.data[off + k..off + k + 8].try_into().unwrap());
                        let (fp, len) = (rd(0), rd(8) as usize);
                        if len > 0 && len < 400 {
                            if let Some((fo, foff)) = st.mem.get(fp) {
                                if foff + len <= fo.data.len() {
                                    let s = String::from_utf8_lossy(&fo.data[foff..foff + len]).into_owned();
                                    let line = u32::from_le_bytes(o.data[off + 16..off + 20].try_into().unwrap());
                                    loc = format!("{s}:{line}");
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        format!("at {loc} via {}\n  < {}", self.m.funcs[fi].name, self.backtrace(st))
    }
    fn rust_layout_check(&self, _sz: u64) {}

    fn do_builtin(&mut self, st: &mut State, b: B, c: &'static CallI, fi: usize, args: &[Val]) -> X<Option<Val>> {
        macro_rules! p {
            ($i:expr) => {{
                let v = args[$i].clone();
                self.pick_val(st, &v)?
            }};
        }
        const BIG: u64 = (1 << OBJ_SHIFT) - 1;
        Ok(match b {
            B::Panic => return Err(Stop::Bad("panic".into(), self.panic_detail(st, fi, args))),
            B::Abort => return Err(Stop::Bad("abort".into(), self.backtrace(st))),
            B::SipWrite => None,
            B::SipFinish => Some(Val::C(0)),
            B::Malloc | B::RustAlloc | B::RustAllocZeroed => {
                let n = p!(0);
                if n > BIG {
                    return inc(format!("allocation of {n} bytes"));
                }
                Some(Val::C(st.mem.alloc(n as usize)))
            }
            B::Calloc => {
                let n = p!(0).checked_mul(p!(1)).unwrap_or(u64::MAX);
                if n > BIG {
                    return inc(format!("allocation of {n} bytes"));
                }
                Some(Val::C(st.mem.alloc(n as usize)))
            }
            B::AlignedAlloc => {
                let n = p!(1);
                if n > BIG {
                    return inc(format!("allocation of {n} bytes"));
                }
                Some(Val::C(st.mem.alloc(n as usize)))
            }
            B::PosixMemalign => {
                let n = p!(2);
                if n > BIG {
                    return inc(format!("allocation of {n} bytes"));
                }
                let dst = p!(0);
                let a = st.mem.alloc(n as usize);
                self.store_scalar(st, dst, 64, &Val::C(a))?;
                Some(Val::C(0))
            }
            B::Free | B::RustDealloc => {
                let a = p!(0);
                if a != 0 && !st.mem.free(a) {
                    return self.mem_err(st, "free", a, 0);
                }
                None
            }
            B::Realloc | B::RustRealloc => {
                let a = p!(0);
                let n = if b == B::Realloc { p!(1) } else { p!(3) };
                if n > BIG {
                    return inc(format!("allocation of {n} bytes"));
                }
                let na = st.mem.alloc(n as usize);
                if a != 0 {
                    let ol = match st.mem.get(a) {
                        Some((o, 0)) => o.data.len(),
                        _ => return self.mem_err(st, "realloc", a, n as usize),
                    };
                    self.memcpy(st, na, a, ol.min(n as usize))?;
                    st.mem.free(a);
                }
                Some(Val::C(na))
            }
            B::Memcpy => {
                let n = p!(2) as usize;
                if n > 0 {
                    if let (Val::S(e), true) = (&args[1], n <= 64) {
                        let b = self.read_bytes_sym(st, *e, n)?;
                        let d = p!(0);
                        for (i, x) in b.iter().enumerate() {
                            self.store_scalar(st, d + i as u64, 8, x)?;
                        }
                    } else {
                        let (d, s) = (p!(0), p!(1));
                        self.memcpy(st, d, s, n)?;
                    }
                }
                if matches!(c.ret, Ty::Void) {
                    None
                } else {
                    Some(args[0].clone())
                }
            }
            B::Memset => {
                let n = p!(2) as usize;
                if n > 0 {
                    let d = p!(0);
                    let v = match &args[1] {
                        Val::C(x) => Val::C(*x & 0xff),
                        Val::S(e) => {
                            let x = self.a.trunc(*e, 8);
                            self.v(x)
                        }
                        _ => return inc("memset value"),
                    };
                    self.memset(st, d, &v, n)?;
                }
                if matches!(c.ret, Ty::Void) {
                    None
                } else {
                    Some(args[0].clone())
                }
            }
            B::Memcmp => {
                let n = p!(2) as usize;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let mut bb = vec![];
                for k in 0..2 {
                    bb.push(if let (Val::S(e), true) = (&args[k], n <= 64) {
                        self.read_bytes_sym(st, *e, n)?
                    } else {
                        let x = p!(k);
                        self.read_bytes(st, x, n)?
                    });
                }
                let by = bb.pop().unwrap();
                let bx = bb.pop().unwrap();
                if self.m.funcs[fi].name == "bcmp" {
                    let mut eq = self.a.bool(true);
                    for (p, q) in bx.iter().zip(&by) {
                        let (p, q) = (self.e(p, 8), self.e(q, 8));
                        let e = self.a.eq(p, q);
                        eq = self.a.and(eq, e);
                        if self.a.as_const(eq) == Some(0) {
                            break;
                        }
                    }
                    let ne = self.a.not(eq);
                    let r = self.a.zext(ne, 32);
                    Some(self.v(r))
                } else {
                    let mut r = self.a.konst(0, 32);
                    for (p, q) in bx.iter().zip(&by).rev() {
                        let (p, q) = (self.e(p, 8), self.e(q, 8));
                        let e = self.a.eq(p, q);
                        if self.a.as_const(e) == Some(1) {
                            continue;
                        }
                        let (pz, qz) = (self.a.zext(p, 32), self.a.zext(q, 32));
                        let d = self.a.sub(pz, qz);
                        r = self.a.ite(e, r, d);
                    }
                    Some(self.v(r))
                }
            }
            B::Memchr | B::Memrchr => {
                let n = p!(2) as usize;
                let a = p!(0);
                let ch = match &args[1] {
                    Val::C(x) => self.a.konst(*x as u128, 8),
                    Val::S(e) => self.a.trunc(*e, 8),
                    _ => return inc("memchr"),
                };
                let by = self.read_bytes(st, a, n)?;
                let mut r = 0;
                let idx: Vec<usize> = if b == B::Memchr { (0..n).collect() } else { (0..n).rev().collect() };
                for i in idx {
                    let x = self.e(&by[i], 8);
                    let e = self.a.eq(x, ch);
                    if self.decide(st, e)? {
                        r = a + i as u64;
                        break;
                    }
                }
                Some(Val::C(r))
            }
            B::Strlen => {
                let a = p!(0);
                let mut i = 0;
                loop {
                    let v = self.load_scalar(st, a + i, 8)?;
                    let e = self.e(&v, 8);
                    let z = self.a.konst(0, 8);
                    let q = self.a.eq(e, z);
                    if self.decide(st, q)? {
                        break;
                    }
                    i += 1;
                }
                Some(Val::C(i))
            }
            B::Errno => {
                if st.errno == 0 {
                    st.errno = st.mem.alloc(8);
                }
                Some(Val::C(st.errno))
            }
            B::RetZero => {
                if matches!(c.ret, Ty::Void) {
                    None
                } else {
                    Some(zero_val(&c.ret))
                }
            }
            B::RetOne => Some(Val::C(1)),
            B::RetNeg1 => Some(Val::C(m64(!0, c.ret.bits()))),
            B::Sysconf => {
                let n = p!(0);
                Some(Val::C(if n == 30 { 4096 } else { 1 }))
            }
            B::Write => {
                // diagnostics to stderr/stdout: accepted and dropped
                if self.m.funcs[fi].name == "writev" {
                    return inc("writev");
                }
                let n = p!(2);
                Some(Val::C(n))
            }
            B::PthreadKeyCreate => {
                let a = p!(0);
                let k = self.tls.len() as u64 + 1;
                self.tls.insert(k, 0);
                self.store_scalar(st, a, 32, &Val::C(k))?;
                Some(Val::C(0))
            }
            B::PthreadGetspecific => Some(Val::C(0)),
            B::PthreadSetspecific => Some(Val::C(0)),
            B::VsVar(w) => {
                let i = st.vars.len();
                if i >= NVW * 64 {
                    return inc("too many symbolic inputs");
                }
                st.vars.push(w);
                st.dom.push(None);
                let e = self.a.var(i, w);
                Some(Val::S(e))
            }
            B::VsAssume => {
                let e = match &args[0] {
                    Val::C(x) => self.a.bool(*x & 1 == 1),
                    Val::S(e) => self.a.trunc(*e, 1),
                    _ => return inc("assume"),
                };
                self.assume(st, e)?;
                None
            }
            B::VsCheck => {
                let e = match &args[0] {
                    Val::C(x) => self.a.bool(*x & 1 == 1),
                    Val::S(e) => self.a.trunc(*e, 1),
                    _ => return inc("check"),
                };
                let id = p!(1) as u32;
                self.check(st, e, id)?;
                None
            }
            B::VsFail => {
                let id = p!(0) as u32;
                return Err(Stop::Bad("check".into(), format!("{id}")));
            }
            B::VsCover => {
                let id = p!(0) as u32;
                if !self.replaying(st) {
                    *self.stats.covers.entry(id).or_default() += 1;
                }
                None
            }
            B::VsPick => {
                let v = p!(0);
                Some(Val::C(v))
            }
            B::VsNote => {
                let t = p!(0) as u32;
                let n = p!(2) as usize;
                let a = p!(1);
                let v = self.read_bytes(st, a, n)?;
                st.notes.push((t, Rc::new(v)));
                None
            }
            B::VsPrint => {
                let n = p!(1) as usize;
                let a = p!(0);
                let v = self.read_bytes(st, a, n)?;
                let mut s = vec![];
                for x in &v {
                    let e = self.e(x, 8);
                    s.push(self.a.eval(e, &st.model) as u8);
                }
                if std::env::var("VS_PRINT").is_ok() {
                    eprintln!("[print] {}", String::from_utf8_lossy(&s));
                }
                None
            }
            B::VsSymbolic => Some(Val::C(1)),
            B::VsParam => Some(Val::C(self.cfg.param)),
            B::Intr(i) => return self.intrinsic(st, i, c, fi, args),
            B::None | B::Nop => unreachable!(),
        })
    }
    fn lanes(&mut self, st: &mut State, i: I, c: &'static CallI, fi: usize, args: &[Val], ty: &Ty) -> X<Option<Val>> {
        // apply a scalar intrinsic lane-wise
        let n = match &args[0] {
            Val::A(l) => l.len(),
            _ => return inc("lanes"),
        };
        let mut out = vec![];
        for k in 0..n {
            let a: Vec<Val> = args
                .iter()
                .map(|x| match x {
                    Val::A(l) => l[k].clone(),
                    y => y.clone(),
                })
                .collect();
            out.push(self.scalar_intr(st, i, c, fi, &a, ty)?.unwrap());
        }
        Ok(Some(Val::A(Rc::new(out))))
    }
    fn intrinsic(&mut self, st: &mut State, i: I, c: &'static CallI, fi: usize, args: &[Val]) -> X<Option<Val>> {
        let ty0 = c.arg_tys.first().cloned().unwrap_or(Ty::Void);
        match i {
            I::ReduceOr | I::ReduceAnd | I::ReduceAdd | I::ReduceXor | I::ReduceUMax | I::ReduceUMin => {
                let et = match &ty0 {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => return inc("reduce"),
                };
                let l = match &args[0] {
                    Val::A(l) => l.clone(),
                    _ => return inc("reduce"),
                };
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = match i {
                        I::ReduceOr => self.bin(st, Bin::Or, &et, &r, x)?,
                        I::ReduceAnd => self.bin(st, Bin::And, &et, &r, x)?,
                        I::ReduceAdd => self.bin(st, Bin::Add, &et, &r, x)?,
                        I::ReduceXor => self.bin(st, Bin::Xor, &et, &r, x)?,
                        _ => {
                            let cc = self.icmp(if i == I::ReduceUMax { Pred::Ugt } else { Pred::Ult }, &et, &r, x);
                            let ce = self.e(&cc, 1);
                            self.ite_val(ce, &et, &r, x)
                        }
                    };
                }
                return Ok(Some(r));
            }
            I::SseMovmsk => {
                let l = match &args[0] {
                    Val::A(l) => l.clone(),
                    _ => return inc("movmsk"),
                };
                let mut bits = vec![];
                for x in l.iter() {
                    let e = self.e(x, 8);
                    let b = self.a.extract(e, 7, 1);
                    bits.push(self.v(b));
                }
                let e = self.pack(&bits, 1);
                let e = self.a.zext(e, 32);
                return Ok(Some(self.v(e)));
            }
            _ => {}
        }
        if let Ty::Vec(_, e) = &ty0 {
            let e = (**e).clone();
            return self.lanes(st, i, c, fi, args, &e);
        }
        self.scalar_intr(st, i, c, fi, args, &ty0)
    }
    fn scalar_intr(&mut self, st: &mut State, i: I, c: &'static CallI, fi: usize, args: &[Val], ty: &Ty) -> X<Option<Val>> {
        let w = ty.bits();
        let picked;
        let args = if matches!(ty, Ty::Double | Ty::Float) && args.iter().any(|a| matches!(a, Val::S(_))) {
            let mut v = vec![];
            for a in args {
                v.push(match a {
                    Val::S(_) => Val::C(self.pick_val(st, a)?),
                    a => a.clone(),
                });
            }
            picked = v;
            &picked[..]
        } else {
            args
        };
        macro_rules! e {
            ($k:expr) => {{
                self.e(&args[$k], w)
            }};
        }
        let fl = |k: usize| -> Option<f64> {
            match (&args[k], ty) {
                (Val::C(x), Ty::Double) => Some(f64::from_bits(*x)),
                (Val::C(x), Ty::Float) => Some(f32::from_bits(*x as u32) as f64),
                _ => None,
            }
        };
        let flr = |d: f64| -> Val {
            match ty {
                Ty::Float => Val::C((d as f32).to_bits() as u64),
                _ => Val::C(d.to_bits()),
            }
        };
        Ok(Some(match i {
            I::UAddO | I::USubO | I::UMulO | I::SAddO | I::SSubO | I::SMulO => {
                if let (Val::C(x), Val::C(y)) = (&args[0], &args[1]) {
                    let (x, y) = (*x as u128, *y as u128);
                    let (r, o) = match i {
                        I::UAddO => (x + y, x + y > ones(w)),
                        I::USubO => (x.wrapping_sub(y), x < y),
                        I::UMulO => (x * y, x * y > ones(w)),
                        _ => {
                            let (a, b) = (to_signed(x, w), to_signed(y, w));
                            let r = match i {
                                I::SAddO => a + b,
                                I::SSubO => a - b,
                                _ => a * b,
                            };
                            (r as u128, to_signed(r as u128 & ones(w), w) != r)
                        }
                    };
                    return Ok(Some(Val::A(Rc::new(vec![Self::wval(r, w), Val::C(o as u64)]))));
                }
                let (x, y) = (e!(0), e!(1));
                let (r, o) = match i {
                    I::UAddO => {
                        let r = self.a.add(x, y);
                        // no overflow possible by ranges?
                        let h = self.a.n[x as usize].hi.checked_add(self.a.n[y as usize].hi);
                        let o = if h.map_or(false, |h| h <= ones(w)) { self.a.bool(false) } else { self.a.ult(r, x) };
                        (r, o)
                    }
                    I::USubO => (self.a.sub(x, y), self.a.ult(x, y)),
                    I::UMulO => {
                        let r = self.a.mul(x, y);
                        let h = self.a.n[x as usize].hi.checked_mul(self.a.n[y as usize].hi);
                        let o = if h.map_or(false, |h| h <= ones(w)) {
                            self.a.bool(false)
                        } else if let Some(k) = self.a.as_const(y) {
                            let lim = self.a.konst(if k == 0 { ones(w) } else { ones(w) / k }, w);
                            self.a.ult(lim, x)
                        } else if let Some(k) = self.a.as_const(x) {
                            let lim = self.a.konst(if k == 0 { ones(w) } else { ones(w) / k }, w);
                            self.a.ult(lim, y)
                        } else if w <= 64 {
                            let (xx, yy) = (self.a.zext(x, 2 * w), self.a.zext(y, 2 * w));
                            let m = self.a.mul(xx, yy);
                            let lim = self.a.konst(ones(w), 2 * w);
                            self.a.ult(lim, m)
                        } else {
                            return inc("wide symbolic umul.with.overflow");
                        };
                        (r, o)
                    }
                    _ => {
                        if w > 64 {
                            return inc("wide signed overflow");
                        }
                        let ww = if i == I::SMulO { 2 * w } else { w + 1 };
                        let (xx, yy) = (self.a.sext(x, ww), self.a.sext(y, ww));
                        let r = match i {
                            I::SAddO => self.a.add(xx, yy),
                            I::SSubO => self.a.sub(xx, yy),
                            _ => self.a.mul(xx, yy),
                        };
                        let t = self.a.trunc(r, w);
                        let back = self.a.sext(t, ww);
                        let o = self.a.ne(back, r);
                        (t, o)
                    }
                };
                Val::A(Rc::new(vec![self.v(r), self.v(o)]))
            }
            I::UAddSat => {
                let (x, y) = (e!(0), e!(1));
                let r = self.a.add(x, y);
                let o = self.a.ult(r, x);
                let m = self.a.konst(ones(w), w);
                let r = self.a.ite(o, m, r);
                self.v(r)
            }
            I::USubSat => {
                let (x, y) = (e!(0), e!(1));
                let r = self.a.sub(x, y);
                let o = self.a.ult(x, y);
                let m = self.a.konst(0, w);
                let r = self.a.ite(o, m, r);
                self.v(r)
            }
            I::SAddSat | I::SSubSat => {
                let (x, y) = (e!(0), e!(1));
                let (xx, yy) = (self.a.sext(x, w + 1), self.a.sext(y, w + 1));
                let r = if i == I::SAddSat { self.a.add(xx, yy) } else { self.a.sub(xx, yy) };
                let hi = self.a.konst(ones(w - 1), w + 1);
                let lo = self.a.konst((-(1i128 << (w - 1))) as u128, w + 1);
                let c1 = self.a.slt(hi, r);
                let c2 = self.a.slt(r, lo);
                let r = self.a.ite(c1, hi, r);
                let r = self.a.ite(c2, lo, r);
                let r = self.a.trunc(r, w);
                self.v(r)
            }
            I::UMin | I::UMax | I::SMin | I::SMax => {
                let p = match i {
                    I::UMin => Pred::Ult,
                    I::UMax => Pred::Ugt,
                    I::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let cc = self.icmp(p, ty, &args[0], &args[1]);
                let ce = self.e(&cc, 1);
                self.ite_val(ce, ty, &args[0], &args[1])
            }
            I::Abs => {
                let x = e!(0);
                let z = self.a.konst(0, w);
                let n = self.a.sub(z, x);
                let s = self.a.slt(x, z);
                let r = self.a.ite(s, n, x);
                self.v(r)
            }
            I::Cttz | I::Ctlz | I::Ctpop => {
                if let Some(x) = Self::conc(&args[0]) {
                    let r = match i {
                        I::Cttz => {
                            if x == 0 {
                                w
                            } else {
                                x.trailing_zeros()
                            }
                        }
                        I::Ctlz => {
                            if x == 0 {
                                w
                            } else {
                                x.leading_zeros() - (128 - w)
                            }
                        }
                        _ => x.count_ones(),
                    };
                    return Ok(Some(Self::wval(r as u128, w)));
                }
                let x = e!(0);
                let r = match i {
                    I::Ctpop => {
                        let mut r = self.a.konst(0, w);
                        for k in 0..w {
                            let b = self.a.extract(x, k, 1);
                            let b = self.a.zext(b, w);
                            r = self.a.add(r, b);
                        }
                        r
                    }
                    I::Cttz => {
                        let mut r = self.a.konst(w as u128, w);
                        for k in (0..w).rev() {
                            let b = self.a.extract(x, k, 1);
                            let kk = self.a.konst(k as u128, w);
                            r = self.a.ite(b, kk, r);
                        }
                        r
                    }
                    _ => {
                        let mut r = self.a.konst(w as u128, w);
                        for k in 0..w {
                            let b = self.a.extract(x, k, 1);
                            let kk = self.a.konst((w - 1 - k) as u128, w);
                            r = self.a.ite(b, kk, r);
                        }
                        r
                    }
                };
                self.v(r)
            }
            I::Bswap => {
                let x = e!(0);
                let mut r: Option<E> = None;
                for k in 0..w / 8 {
                    let b = self.a.extract(x, k * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.a.concat(h, b),
                    });
                }
                self.v(r.unwrap())
            }
            I::Bitreverse => {
                let x = e!(0);
                let mut r: Option<E> = None;
                for k in 0..w {
                    let b = self.a.extract(x, k, 1);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.a.concat(h, b),
                    });
                }
                self.v(r.unwrap())
            }
            I::Fshl | I::Fshr => {
                let (x, y, z) = (e!(0), e!(1), e!(2));
                let k = match self.a.as_const(z) {
                    Some(k) => (k % w as u128) as u32,
                    None => {
                        let v = self.pick(st, z)?;
                        (v % w as u64) as u32
                    }
                };
                let r = if k == 0 {
                    if i == I::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let s = if i == I::Fshl { k } else { w - k };
                    // high s.. : (x << s) | (y >> (w - s))
                    let h = self.a.extract(x, 0, w - s);
                    let l = self.a.extract(y, w - s, s);
                    self.a.concat(h, l)
                };
                self.v(r)
            }
            I::UCmp | I::SCmp => {
                let (lt, gt) = if i == I::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, ty, &args[0], &args[1]);
                let g = self.icmp(gt, ty, &args[0], &args[1]);
                let (l, g) = (self.e(&l, 1), self.e(&g, 1));
                let rw = match &c.ret {
                    Ty::Vec(_, e) => e.bits(),
                    t => t.bits(),
                };
                let (m, z, o) = (self.a.konst(!0, rw), self.a.konst(0, rw), self.a.konst(1, rw));
                let r = self.a.ite(g, o, z);
                let r = self.a.ite(l, m, r);
                self.v(r)
            }
            I::Expect => args[0].clone(),
            I::Assume => return Ok(None),
            I::TlAddr => args[0].clone(),
            I::IsConst => Val::C(0),
            I::ObjSize => Val::C(m64(!0, c.ret.bits())),
            I::Ptrmask => {
                let (x, y) = (e!(0), e!(1));
                let r = self.a.and(x, y);
                self.v(r)
            }
            I::FFloor | I::FCeil | I::FTrunc | I::FRound | I::FAbs | I::FSqrt => {
                let d = match fl(0) {
                    Some(d) => d,
                    None => return inc("symbolic floating-point intrinsic"),
                };
                flr(match i {
                    I::FFloor => d.floor(),
                    I::FCeil => d.ceil(),
                    I::FTrunc => d.trunc(),
                    I::FRound => d.round(),
                    I::FAbs => d.abs(),
                    _ => d.sqrt(),
                })
            }
            I::FMinNum | I::FMaxNum | I::FCopysign => match (fl(0), fl(1)) {
                (Some(a), Some(b)) => flr(match i {
                    I::FMinNum => a.min(b),
                    I::FMaxNum => a.max(b),
                    _ => a.copysign(b),
                }),
                _ => return inc("symbolic floating-point intrinsic"),
            },
            I::FMulAdd => match (fl(0), fl(1), fl(2)) {
                (Some(a), Some(b), Some(d)) => flr(a * b + d),
                _ => return inc("symbolic floating-point intrinsic"),
            },
            I::FpToUiSat | I::FpToSiSat => {
                let d = match fl(0) {
                    Some(d) => d,
                    None => return inc("symbolic floating-point conversion"),
                };
                let rw = c.ret.bits();
                if i == I::FpToUiSat {
                    Self::wval((d as u128).min(ones(rw)), rw)
                } else {
                    let hi = ones(rw - 1) as i128;
                    let lo = -hi - 1;
                    Self::wval(((d as i128).clamp(lo, hi)) as u128, rw)
                }
            }
            I::LoadRelative => {
                let b = self.pick_val(st, &args[0])?;
                let o = self.pick_val(st, &args[1])?;
                let v = self.load_scalar(st, b.wrapping_add(o), 32)?;
                let v = self.pick_val(st, &v)?;
                Val::C(b.wrapping_add(s64(v, 32) as u64))
            }
            I::Trap => return Err(Stop::Bad("trap".into(), self.backtrace(st))),
            _ => return inc(format!("unsupported intrinsic {} in {}", self.m.funcs[fi].name, st.cur.func.name)),
        }))
    }
    pub fn touched(&mut self) {
        self.rust_layout_check(0);
    }
    pub fn eval_note(&mut self, st: &State, n: &[Val]) -> Vec<u8> {
        let m = st.model.clone();
        n.iter()
            .map(|v| {
                let e = self.e(v, 8);
                self.a.eval(e, &m) as u8
            })
            .collect()
    }
}
