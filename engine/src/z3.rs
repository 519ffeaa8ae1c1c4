//! Minimal binding to Z3's C API and the translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type Cfg = *mut c_void;
type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sym = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Params = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_del_config(c: Cfg);
    fn Z3_mk_context_rc(c: Cfg) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, s: Sym, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_: Ctx, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::abort();
}
pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Ans {
    Sat(Vec<(usize, u128)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    inc: Solver,
    bv: FxMap<E, Ast>,
    bo: FxMap<E, Ast>,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub n_hard: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    pub dump: Option<String>,
    pub dumped: u64,
}
impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let inc = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, inc);
            let mut z = Z3 {
                c,
                inc,
                bv: Default::default(),
                bo: Default::default(),
                n_sat: 0,
                n_unsat: 0,
                n_unknown: 0,
                n_hard: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
                dump: None,
                dumped: 0,
            };
            z.set_timeout(inc, timeout_ms.min(3000));
            z
        }
    }
    fn set_timeout(&mut self, s: Solver, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let n = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, n.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn is_bool_op(a: &Arena, e: E) -> bool {
        let k = a.key(e);
        k.w == 1 && !matches!(k.op, O::Var | O::Extract | O::UDiv | O::URem | O::SDiv | O::SRem | O::Shl | O::LShr | O::AShr | O::Mul | O::Add | O::Sub)
    }
    fn boolean(&mut self, a: &Arena, e: E) -> Ast {
        if let Some(r) = self.bo.get(&e) {
            return *r;
        }
        let k = a.key(e);
        let c = self.c;
        let r = unsafe {
            if !Self::is_bool_op(a, e) {
                let x = self.bvec(a, e);
                let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                Z3_inc_ref(c, one);
                Z3_mk_eq(c, x, one)
            } else {
                match k.op {
                    O::Const => {
                        if k.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    O::Not => {
                        let x = self.boolean(a, k.a);
                        Z3_mk_not(c, x)
                    }
                    O::And => {
                        let v = [self.boolean(a, k.a), self.boolean(a, k.b)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    O::Or => {
                        let v = [self.boolean(a, k.a), self.boolean(a, k.b)];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    O::Xor => {
                        let (x, y) = (self.boolean(a, k.a), self.boolean(a, k.b));
                        Z3_mk_xor(c, x, y)
                    }
                    O::Ite => {
                        let (x, y, z) = (self.boolean(a, k.a), self.boolean(a, k.b), self.boolean(a, k.c));
                        Z3_mk_ite(c, x, y, z)
                    }
                    O::Eq => {
                        let (x, y) = (self.bvec(a, k.a), self.bvec(a, k.b));
                        Z3_mk_eq(c, x, y)
                    }
                    O::Ult => {
                        let (x, y) = (self.bvec(a, k.a), self.bvec(a, k.b));
                        Z3_mk_bvult(c, x, y)
                    }
                    O::Slt => {
                        let (x, y) = (self.bvec(a, k.a), self.bvec(a, k.b));
                        Z3_mk_bvslt(c, x, y)
                    }
                    O::Tab => self.tab_bool(a, e),
                    _ => panic!("bool op {:?}", k.op),
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bo.insert(e, r);
        r
    }
    fn bvec(&mut self, a: &Arena, e: E) -> Ast {
        if let Some(r) = self.bv.get(&e) {
            return *r;
        }
        let k = a.key(e);
        let c = self.c;
        let r = unsafe {
            match k.op {
                O::Const => {
                    let s = Z3_mk_bv_sort(c, k.w);
                    if k.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, k.k as u64, s)
                    } else {
                        let t = CString::new(format!("{}", k.k)).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                O::Var => {
                    let s = Z3_mk_bv_sort(c, k.w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, (k.k as c_int) * 256 + k.w as c_int), s)
                }
                O::Tab if k.w > 1 => self.tab_bv(a, e),
                O::Eq | O::Ult | O::Slt | O::Tab => {
                    let b = self.boolean(a, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_inc_ref(c, one);
                    let z = Z3_mk_unsigned_int64(c, 0, s);
                    Z3_inc_ref(c, z);
                    Z3_mk_ite(c, b, one, z)
                }
                O::Ite => {
                    let x = self.boolean(a, k.a);
                    let (y, z) = (self.bvec(a, k.b), self.bvec(a, k.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.bvec(a, k.a);
                    match k.op {
                        O::Not => Z3_mk_bvnot(c, x),
                        O::Extract => Z3_mk_extract(c, k.k as u32 + k.w - 1, k.k as u32, x),
                        O::ZExt => Z3_mk_zero_ext(c, k.w - a.w(k.a), x),
                        O::SExt => Z3_mk_sign_ext(c, k.w - a.w(k.a), x),
                        _ => {
                            let y = self.bvec(a, k.b);
                            match k.op {
                                O::Add => Z3_mk_bvadd(c, x, y),
                                O::Sub => Z3_mk_bvsub(c, x, y),
                                O::Mul => Z3_mk_bvmul(c, x, y),
                                O::UDiv => Z3_mk_bvudiv(c, x, y),
                                O::SDiv => Z3_mk_bvsdiv(c, x, y),
                                O::URem => Z3_mk_bvurem(c, x, y),
                                O::SRem => Z3_mk_bvsrem(c, x, y),
                                O::Shl => Z3_mk_bvshl(c, x, y),
                                O::LShr => Z3_mk_bvlshr(c, x, y),
                                O::AShr => Z3_mk_bvashr(c, x, y),
                                O::And => Z3_mk_bvand(c, x, y),
                                O::Or => Z3_mk_bvor(c, x, y),
                                O::Xor => Z3_mk_bvxor(c, x, y),
                                O::Concat => Z3_mk_concat(c, x, y),
                                _ => unreachable!(),
                            }
                        }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bv.insert(e, r);
        r
    }
    fn num(&mut self, v: u128, w: u32) -> Ast {
        let c = self.c;
        unsafe {
            let s = Z3_mk_bv_sort(c, w);
            let r = if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(c, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(c, t.as_ptr(), s)
            };
            Z3_inc_ref(c, r);
            r
        }
    }
    fn keep(&mut self, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    /// A predicate over one narrow variable: a union of ranges.
    fn tab_bool(&mut self, a: &Arena, e: E) -> Ast {
        let k = a.key(e);
        let vw = a.w(k.a);
        let n = 1usize << vw;
        let t = a.tabs[k.k as usize].clone();
        let x = self.bvec(a, k.a);
        let c = self.c;
        let mut ranges: [Vec<(usize, usize)>; 2] = [vec![], vec![]];
        let mut i = 0;
        while i < n {
            let mut j = i;
            while j + 1 < n && t[j + 1] == t[i] {
                j += 1;
            }
            ranges[t[i] as usize & 1].push((i, j));
            i = j + 1;
        }
        let neg = ranges[0].len() < ranges[1].len();
        let mut parts = vec![];
        for (lo, hi) in ranges[!neg as usize].clone() {
            unsafe {
                let l = self.num(lo as u128, vw);
                let p = if lo == hi {
                    Z3_mk_eq(c, x, l)
                } else {
                    let mut q = vec![];
                    if lo > 0 {
                        let y = self.keep(Z3_mk_bvult(c, x, l));
                        q.push(self.keep(Z3_mk_not(c, y)));
                    }
                    if hi + 1 < n {
                        let h = self.num(hi as u128 + 1, vw);
                        q.push(self.keep(Z3_mk_bvult(c, x, h)));
                    }
                    Z3_mk_and(c, q.len() as c_uint, q.as_ptr())
                };
                parts.push(self.keep(p));
            }
        }
        unsafe {
            let r = self.keep(Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr()));
            if neg {
                Z3_mk_not(c, r)
            } else {
                r
            }
        }
    }
    /// A word-valued function of one narrow variable: a balanced tree of
    /// segments, each constant or of the form v + k.
    fn tab_bv(&mut self, a: &Arena, e: E) -> Ast {
        let k = a.key(e);
        let vw = a.w(k.a);
        let t = a.tabs[k.k as usize].clone();
        let x = self.bvec(a, k.a);
        let c = self.c;
        let n = 1usize << vw;
        let (sel, sw, tab): (Ast, u32, Vec<u128>) = if vw == 8 && (0..n).all(|i| t[i] == t[i & 15]) {
            (self.keep(unsafe { Z3_mk_extract(c, 3, 0, x) }), 4, t[..16].to_vec())
        } else if vw == 8 && (0..n).all(|i| t[i] == t[i & 0xf0]) {
            (self.keep(unsafe { Z3_mk_extract(c, 7, 4, x) }), 4, (0..16).map(|i| t[i * 16]).collect())
        } else {
            (x, vw, t[..n].to_vec())
        };
        let m = ones(k.w);
        let mut segs: Vec<(usize, Ast)> = vec![]; // (first, value)
        let mut i = 0;
        while i < tab.len() {
            let mut j = i;
            while j + 1 < tab.len() && tab[j + 1] == tab[i] {
                j += 1;
            }
            let mut l = i;
            while l + 1 < tab.len() && tab[l + 1] == tab[i].wrapping_add((l + 1 - i) as u128) & m {
                l += 1;
            }
            if l > j {
                let wide = unsafe {
                    if k.w > sw {
                        Z3_mk_zero_ext(c, k.w - sw, sel)
                    } else if k.w < sw {
                        Z3_mk_extract(c, k.w - 1, 0, sel)
                    } else {
                        sel
                    }
                };
                let wide = self.keep(wide);
                let d = self.num(tab[i].wrapping_sub(i as u128) & m, k.w);
                let v = self.keep(unsafe { Z3_mk_bvadd(c, wide, d) });
                segs.push((i, v));
                i = l + 1;
            } else {
                let v = self.num(tab[i], k.w);
                segs.push((i, v));
                i = j + 1;
            }
        }
        self.seg_tree(sel, sw, &segs)
    }
    fn seg_tree(&mut self, sel: Ast, sw: u32, segs: &[(usize, Ast)]) -> Ast {
        if segs.len() == 1 {
            return segs[0].1;
        }
        let h = segs.len() / 2;
        let l = self.seg_tree(sel, sw, &segs[..h]);
        let r = self.seg_tree(sel, sw, &segs[h..]);
        let b = self.num(segs[h].0 as u128, sw);
        unsafe {
            let p = self.keep(Z3_mk_bvult(self.c, sel, b));
            let x = Z3_mk_ite(self.c, p, l, r);
            self.keep(x)
        }
    }
    /// Is the conjunction satisfiable? `vars` lists (index, width) to read back.
    pub fn check(&mut self, a: &Arena, cs: &[E], vars: &[(usize, u32)]) -> Ans {
        let t0 = Instant::now();
        let r = self.check0(a, cs, vars);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match r {
            Ans::Sat(_) => self.n_sat += 1,
            Ans::Unsat => self.n_unsat += 1,
            Ans::Unknown => self.n_unknown += 1,
        }
        r
    }
    fn check0(&mut self, a: &Arena, cs: &[E], vars: &[(usize, u32)]) -> Ans {
        let asts: Vec<Ast> = cs.iter().map(|e| self.boolean(a, *e)).collect();
        let c = self.c;
        unsafe {
            let s = self.inc;
            Z3_solver_push(c, s);
            for x in &asts {
                Z3_solver_assert(c, s, *x);
            }
            let r = Z3_solver_check(c, s);
            if let Some(d) = &self.dump {
                if self.dumped < 4000 {
                    let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(
                        format!("{}/{:?}-{}-{}.smt2", d, std::thread::current().id(), self.dumped, match r { 1 => "sat", -1 => "unsat", _ => "unknown" }),
                        format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t),
                    );
                    self.dumped += 1;
                }
            }
            let ans = self.answer(s, r, a, vars);
            Z3_solver_pop(c, s, 1);
            if let Some(ans) = ans {
                return ans;
            }
            // the incremental core gave up: bit-blasting tactic, full time limit
            self.n_hard += 1;
            let n = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, n.as_ptr()));
            Z3_solver_inc_ref(c, s);
            self.set_timeout(s, self.timeout_ms);
            for x in &asts {
                Z3_solver_assert(c, s, *x);
            }
            let r = Z3_solver_check(c, s);
            let ans = self.answer(s, r, a, vars);
            Z3_solver_dec_ref(c, s);
            ans.unwrap_or(Ans::Unknown)
        }
    }
    unsafe fn answer(&mut self, s: Solver, r: c_int, _a: &Arena, vars: &[(usize, u32)]) -> Option<Ans> {
        let c = self.c;
        match r {
            -1 => Some(Ans::Unsat),
            1 => {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut out = Vec::new();
                for (i, w) in vars {
                    let v = Z3_mk_const(c, Z3_mk_int_symbol(c, (*i as c_int) * 256 + *w as c_int), Z3_mk_bv_sort(c, *w));
                    Z3_inc_ref(c, v);
                    let mut r: Ast = std::ptr::null_mut();
                    if Z3_model_eval(c, m, v, true, &mut r) {
                        Z3_inc_ref(c, r);
                        let t = CStr::from_ptr(Z3_get_numeral_string(c, r)).to_str().unwrap().to_string();
                        out.push((*i, t.parse::<u128>().expect("numeral")));
                    }
                }
                Z3_model_dec_ref(c, m);
                Some(Ans::Sat(out))
            }
            _ => None,
        }
    }
}
