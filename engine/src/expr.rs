//! Hash-consed bit-vector expressions with an algebraic simplifier.
//!
//! Everything is a bit-vector of width 1..=128; a boolean is a vector of width 1.
//! The simplifier never consults node identity ordering, so the same program
//! path builds structurally identical expressions in every worker thread.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    /// function of one narrow variable (`a`), given by value table number `k`
    Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: O,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub const NVW: usize = 6;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct VarSet(pub [u64; NVW]);
impl VarSet {
    pub fn or(&self, o: &VarSet) -> VarSet {
        let mut r = *self;
        for i in 0..NVW {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn inter(&self, o: &VarSet) -> bool {
        (0..NVW).any(|i| self.0[i] & o.0[i] != 0)
    }
    pub fn single(&self) -> Option<usize> {
        let mut r = None;
        for i in 0..NVW {
            match self.0[i].count_ones() {
                0 => {}
                1 if r.is_none() => r = Some(i * 64 + self.0[i].trailing_zeros() as usize),
                _ => return None,
            }
        }
        r
    }
    pub fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64);
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn iter(&self) -> Vec<usize> {
        let mut v = vec![];
        for i in 0..NVW * 64 {
            if self.has(i) {
                v.push(i)
            }
        }
        v
    }
    pub fn empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: Key,
    pub lo: u128,
    pub hi: u128,
    /// number of leaves when the node is a tree of ites over constants, else 0
    pub leaves: u16,
    /// the only variable the node depends on, else 0
    pub leaf: E,
    pub vars: VarSet,
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
    pub tables: FxMap<E, [u64; 4]>,
    memo_gen: u32,
    memo: Vec<(u32, u128)>,
    ext_memo: FxMap<(E, u32, u32), E>,
    pub tabs: Vec<Rc<Table>>,
    tab_ids: FxMap<Rc<Table>, u32>,
    redirect: FxMap<Key, E>,
}
pub type Table = [u128; 256];

fn apply(op: O, w: u32, aw: u32, bw: u32, k: u128, a: u128, b: u128) -> u128 {
    let r = match op {
        O::Not => !a,
        O::Extract => a >> k,
        O::ZExt => a,
        O::SExt => to_signed(a, aw) as u128,
        O::Add => a.wrapping_add(b),
        O::Sub => a.wrapping_sub(b),
        O::Mul => a.wrapping_mul(b),
        O::UDiv => a.checked_div(b).unwrap_or(!0),
        O::URem => a.checked_rem(b).unwrap_or(a),
        O::SDiv => {
            let (x, y) = (to_signed(a, aw), to_signed(b, aw));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    !0
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        O::SRem => {
            let (x, y) = (to_signed(a, aw), to_signed(b, aw));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        O::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        O::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        O::AShr => (to_signed(a, w) >> b.min(w as u128 - 1)) as u128,
        O::And => a & b,
        O::Or => a | b,
        O::Xor => a ^ b,
        O::Eq => (a == b) as u128,
        O::Ult => (a < b) as u128,
        O::Slt => (to_signed(a, aw) < to_signed(b, aw)) as u128,
        O::Concat => (a << bw) | b,
        _ => unreachable!(),
    };
    r & ones(w)
}

#[inline]
pub fn ones(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn to_signed(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

const PUSH_MAX: u16 = 400;

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: Vec::new(),
            map: Default::default(),
            tables: Default::default(),
            memo_gen: 1,
            memo: Vec::new(),
            ext_memo: Default::default(),
            tabs: vec![],
            tab_ids: Default::default(),
            redirect: Default::default(),
        };
        // id 0 is reserved
        a.n.push(Node {
            k: Key { op: O::Const, w: 0, a: 0, b: 0, c: 0, k: 0 },
            lo: 0,
            hi: 0,
            leaves: 0,
            leaf: 0,
            vars: VarSet::default(),
        });
        a
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].k.w
    }
    #[inline]
    pub fn key(&self, e: E) -> Key {
        self.n[e as usize].k
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let k = &self.n[e as usize].k;
        if k.op == O::Const {
            Some(k.k)
        } else {
            None
        }
    }
    fn mk(&mut self, op: O, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let key = Key { op, w, a, b, c, k };
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        if !matches!(op, O::Const | O::Var | O::Tab) {
            if let Some(e) = self.redirect.get(&key) {
                return *e;
            }
            if let Some(l) = self.sole_leaf(a, b, c) {
                if self.w(l) <= 8 && op != O::Concat && !(op == O::ZExt && matches!(self.key(a).op, O::Var | O::Tab)) {
                    let e = self.tabulate(l, op, w, a, b, c, k);
                    self.redirect.insert(key, e);
                    return e;
                }
            }
        }
        let m = ones(w);
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        let nc = self.n[c as usize];
        let mut vars = na.vars.or(&nb.vars).or(&nc.vars);
        let mut leaves = 0u16;
        let (lo, hi) = match op {
            O::Const => {
                leaves = 1;
                (k, k)
            }
            O::Var => {
                vars.set(k as usize);
                (0, m)
            }
            O::Not => (m - na.hi.min(m), m - na.lo),
            O::Add => match na.hi.checked_add(nb.hi) {
                Some(h) if h <= m => (na.lo + nb.lo, h),
                // x + k with k a small negative: every value wraps
                _ if na.lo.checked_add(nb.lo).map_or(w < 128, |l| l > m) && w < 128 => {
                    ((na.lo + nb.lo) & m, na.hi.wrapping_add(nb.hi) & m)
                }
                _ => (0, m),
            },
            O::Sub => {
                if na.lo >= nb.hi {
                    (na.lo - nb.hi, na.hi - nb.lo)
                } else {
                    (0, m)
                }
            }
            O::Mul => match na.hi.checked_mul(nb.hi) {
                Some(h) if h <= m => (na.lo * nb.lo, h),
                _ => (0, m),
            },
            O::UDiv => {
                if nb.lo > 0 {
                    (na.lo / nb.hi, na.hi / nb.lo)
                } else {
                    (0, m)
                }
            }
            O::URem => {
                if nb.lo > 0 {
                    (0, na.hi.min(nb.hi - 1))
                } else {
                    (0, m)
                }
            }
            O::LShr => {
                if let Some(s) = self.as_const(b) {
                    if s < 128 {
                        (na.lo >> s, na.hi >> s)
                    } else {
                        (0, 0)
                    }
                } else {
                    (0, na.hi)
                }
            }
            O::Shl => {
                if let Some(s) = self.as_const(b) {
                    if s < w as u128 && na.hi <= m >> s {
                        (na.lo << s, na.hi << s)
                    } else {
                        (0, m)
                    }
                } else {
                    (0, m)
                }
            }
            O::And => (0, na.hi.min(nb.hi)),
            O::Or => {
                let h = na.hi | nb.hi;
                let bits = 128 - h.leading_zeros();
                (na.lo.max(nb.lo), ones(bits).min(m))
            }
            O::Xor => {
                let h = na.hi | nb.hi;
                let bits = 128 - h.leading_zeros();
                (0, ones(bits).min(m))
            }
            O::Eq | O::Ult | O::Slt => (0, 1),
            O::Ite => {
                if nb.leaves > 0 && nc.leaves > 0 {
                    leaves = nb.leaves.saturating_add(nc.leaves);
                }
                (nb.lo.min(nc.lo), nb.hi.max(nc.hi))
            }
            O::Concat => {
                let lw = nb.k.w;
                ((na.lo << lw) | nb.lo, (na.hi << lw) | nb.hi)
            }
            O::Extract => {
                if k == 0 && na.hi <= m {
                    (na.lo, na.hi)
                } else if na.hi >> k <= m {
                    (na.lo >> k, na.hi >> k)
                } else {
                    (0, m)
                }
            }
            O::ZExt => (na.lo, na.hi),
            O::SExt => {
                if na.hi < 1u128 << (na.k.w - 1) {
                    (na.lo, na.hi)
                } else {
                    (0, m)
                }
            }
            O::Tab => {
                let t = &self.tabs[k as usize][..1 << na.k.w];
                (*t.iter().min().unwrap(), *t.iter().max().unwrap())
            }
            _ => (0, m),
        };
        // a singleton interval is a constant
        if op != O::Const && lo == hi {
            return self.konst(lo, w);
        }
        let id = self.n.len() as E;
        let leaf = match op {
            O::Const => 0,
            O::Var => id,
            O::Tab => a,
            _ => self.sole_leaf(a, b, c).unwrap_or(0),
        };
        self.n.push(Node { k: key, lo, hi, leaves, leaf, vars });
        self.map.insert(key, id);
        id
    }
    /// the variable shared by all non-constant operands, if there is exactly one
    fn sole_leaf(&self, a: E, b: E, c: E) -> Option<E> {
        let mut r = 0;
        for x in [a, b, c] {
            let n = &self.n[x as usize];
            if x == 0 || n.k.op == O::Const {
                continue;
            }
            if n.leaf == 0 || (r != 0 && r != n.leaf) {
                return None;
            }
            r = n.leaf;
        }
        if r == 0 {
            None
        } else {
            Some(r)
        }
    }
    /// Values of a node over all values of its sole variable (width <= 8).
    pub fn values(&self, e: E) -> Table {
        let k = self.key(e);
        match k.op {
            O::Const => [k.k; 256],
            O::Var => {
                let m = (1usize << k.w) - 1;
                std::array::from_fn(|i| (i & m) as u128)
            }
            O::Tab => *self.tabs[k.k as usize],
            O::ZExt => self.values(k.a),
            O::Concat => {
                let (a, b, s) = (self.values(k.a), self.values(k.b), self.w(k.b));
                std::array::from_fn(|i| a[i] << s | b[i])
            }
            _ => unreachable!("values of {:?}", k.op),
        }
    }
    fn tabulate(&mut self, l: E, op: O, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let ta = self.values(a);
        let t: Table = if op == O::Ite {
            let (tb, tc) = (self.values(b), self.values(c));
            std::array::from_fn(|i| if ta[i] == 1 { tb[i] } else { tc[i] })
        } else {
            let tb = if b != 0 { self.values(b) } else { [0; 256] };
            let (aw, bw) = (self.w(a), self.w(b));
            std::array::from_fn(|i| apply(op, w, aw, bw, k, ta[i], tb[i]))
        };
        self.from_table(l, w, t)
    }
    /// The canonical node for a function of the variable `l`.
    pub fn from_table(&mut self, l: E, w: u32, mut t: Table) -> E {
        let vw = self.w(l);
        let n = 1usize << vw;
        for i in n..256 {
            t[i] = t[i & (n - 1)];
        }
        let hi = *t.iter().max().unwrap();
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(t[0], w);
        }
        if w > 8 && hi < 256 {
            let x = self.from_table(l, 8, t);
            return self.zext(x, w);
        }
        if w == vw && (0..n).all(|i| t[i] == i as u128) {
            return l;
        }
        let id = match self.tab_ids.get(&t) {
            Some(i) => *i,
            None => {
                let r = Rc::new(t);
                self.tabs.push(r.clone());
                let i = self.tabs.len() as u32 - 1;
                self.tab_ids.insert(r, i);
                i
            }
        };
        self.mk(O::Tab, w, l, 0, 0, id as u128)
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(O::Const, w, 0, 0, 0, v & ones(w))
    }
    pub fn bool(&mut self, b: bool) -> E {
        self.konst(b as u128, 1)
    }
    pub fn var(&mut self, idx: usize, w: u32) -> E {
        self.mk(O::Var, w, 0, 0, 0, idx as u128)
    }
    fn is_tree(&self, e: E) -> bool {
        let l = self.n[e as usize].leaves;
        l > 1 && l <= PUSH_MAX
    }
    /// Maps a function over the leaves of a constant ite tree.
    fn map_tree(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, E) -> E, memo: &mut FxMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let k = self.key(e);
        let r = if k.op == O::Ite {
            let b = self.map_tree(k.b, f, memo);
            let c = self.map_tree(k.c, f, memo);
            self.ite(k.a, b, c)
        } else {
            f(self, e)
        };
        memo.insert(e, r);
        r
    }
    fn push1(&mut self, e: E, mut f: impl FnMut(&mut Arena, E) -> E) -> E {
        self.map_tree(e, &mut |a, x| f(a, x), &mut Default::default())
    }

    pub fn not(&mut self, a: E) -> E {
        let k = self.key(a);
        match k.op {
            O::Const => self.konst(!k.k, k.w),
            O::Not => k.a,
            _ => self.mk(O::Not, k.w, a, 0, 0, 0),
        }
    }
    pub fn neg(&mut self, a: E) -> E {
        let z = self.konst(0, self.w(a));
        self.sub(z, a)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.konst(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let k = self.key(a);
                if k.op == O::Add {
                    if let Some(z) = self.as_const(k.b) {
                        let s = self.konst(y.wrapping_add(z), w);
                        return self.add(k.a, s);
                    }
                }
                if k.op == O::Sub {
                    if let Some(z) = self.as_const(k.a) {
                        let s = self.konst(y.wrapping_add(z), w);
                        return self.sub(s, k.b);
                    }
                }
                if self.is_tree(a) {
                    return self.push1(a, |s, x| s.add(x, b));
                }
            }
            (None, None) => {
                // (x + k) + y  ->  (x + y) + k
                let k = self.key(a);
                if k.op == O::Add && self.as_const(k.b).is_some() {
                    let t = self.add(k.a, b);
                    return self.add(t, k.b);
                }
                let k = self.key(b);
                if k.op == O::Add && self.as_const(k.b).is_some() {
                    let t = self.add(a, k.a);
                    return self.add(t, k.b);
                }
                if k.op == O::Sub && k.b == a {
                    return k.a;
                }
                let k = self.key(a);
                if k.op == O::Sub && k.b == b {
                    return k.a;
                }
            }
        }
        self.mk(O::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(y) = self.as_const(b) {
            let n = self.konst(y.wrapping_neg(), w);
            return self.add(a, n);
        }
        if self.as_const(a).is_some() && self.is_tree(b) {
            return self.push1(b, |s, x| s.sub(a, x));
        }
        let ka = self.key(a);
        let kb = self.key(b);
        if ka.op == O::Add {
            if ka.a == b {
                return ka.b;
            }
            if ka.b == b {
                return ka.a;
            }
            if self.as_const(ka.b).is_some() {
                let t = self.sub(ka.a, b);
                return self.add(t, ka.b);
            }
        }
        if kb.op == O::Add {
            if let Some(c) = self.as_const(kb.b) {
                let n = self.konst(c.wrapping_neg(), w);
                let t = self.sub(a, kb.a);
                return self.add(t, n);
            }
            if kb.a == a {
                return self.neg(kb.b);
            }
        }
        self.mk(O::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) => {
                if y.is_power_of_two() {
                    let s = self.konst(y.trailing_zeros() as u128, w);
                    return self.shl(a, s);
                }
                if self.is_tree(a) {
                    return self.push1(a, |s, x| s.mul(x, b));
                }
            }
            _ => {}
        }
        self.mk(O::Mul, w, a, b, 0, 0)
    }
    /// narrow both operands of a division when their ranges allow it
    fn narrow(&self, a: E, b: E) -> Option<u32> {
        let w = self.w(a);
        let h = self.n[a as usize].hi.max(self.n[b as usize].hi);
        let need = (128 - h.leading_zeros()).max(1);
        if need < w {
            Some(need)
        } else {
            None
        }
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y == 0 {
                return self.konst(ones(w), w);
            }
            if y == 1 {
                return a;
            }
            if let Some(x) = self.as_const(a) {
                return self.konst(x / y, w);
            }
            if y.is_power_of_two() {
                let s = self.konst(y.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
            if self.n[a as usize].hi < y {
                return self.konst(0, w);
            }
            if self.is_tree(a) {
                return self.push1(a, |s, x| s.udiv(x, b));
            }
            if let Some(nw) = self.narrow(a, b) {
                let x = self.extract(a, 0, nw);
                let y = self.extract(b, 0, nw);
                let d = self.mk(O::UDiv, nw, x, y, 0, 0);
                return self.zext(d, w);
            }
        }
        self.mk(O::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y == 0 {
                return a;
            }
            if let Some(x) = self.as_const(a) {
                return self.konst(x % y, w);
            }
            if y.is_power_of_two() {
                let s = self.konst(y - 1, w);
                return self.and(a, s);
            }
            if self.n[a as usize].hi < y {
                return a;
            }
            if self.is_tree(a) {
                return self.push1(a, |s, x| s.urem(x, b));
            }
            if let Some(nw) = self.narrow(a, b) {
                let x = self.extract(a, 0, nw);
                let y = self.extract(b, 0, nw);
                let d = self.mk(O::URem, nw, x, y, 0, 0);
                return self.zext(d, w);
            }
        }
        self.mk(O::URem, w, a, b, 0, 0)
    }
    fn nonneg(&self, a: E) -> bool {
        self.n[a as usize].hi < 1u128 << (self.w(a) - 1)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.nonneg(a) && self.nonneg(b) {
            return self.udiv(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                return self.konst(to_signed(x, w).wrapping_div(to_signed(y, w)) as u128, w);
            }
        }
        self.mk(O::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.nonneg(a) && self.nonneg(b) {
            return self.urem(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                return self.konst(to_signed(x, w).wrapping_rem(to_signed(y, w)) as u128, w);
            }
        }
        self.mk(O::SRem, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(0, w);
            }
            let s = s as u32;
            let x = self.extract(a, 0, w - s);
            let z = self.konst(0, s);
            return self.concat(x, z);
        }
        if self.is_tree(b) {
            return self.push1(b, |s, x| s.shl(a, x));
        }
        self.mk(O::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(0, w);
            }
            let s = s as u32;
            let x = self.extract(a, s, w - s);
            return self.zext(x, w);
        }
        if self.is_tree(b) {
            return self.push1(b, |s, x| s.lshr(a, x));
        }
        self.mk(O::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.nonneg(a) {
            return self.lshr(a, b);
        }
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            let s = (s.min(w as u128 - 1)) as u32;
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        if self.is_tree(b) {
            return self.push1(b, |s, x| s.ashr(a, x));
        }
        self.mk(O::AShr, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) => {
                if y == ones(w) {
                    return a;
                }
                let k = self.key(a);
                if self.is_tree(a) {
                    return self.push1(a, |s, x| s.and(x, b));
                }
                if k.op == O::And {
                    if let Some(z) = self.as_const(k.b) {
                        let m = self.konst(y & z, w);
                        return self.and(k.a, m);
                    }
                }
                if k.op == O::Concat {
                    let lw = self.w(k.b);
                    let hm = self.konst(y >> lw, w - lw);
                    let lm = self.konst(y, lw);
                    let h = self.and(k.a, hm);
                    let l = self.and(k.b, lm);
                    return self.concat(h, l);
                }
                if k.op == O::ZExt {
                    let iw = self.w(k.a);
                    let m = self.konst(y, iw);
                    let x = self.and(k.a, m);
                    return self.zext(x, w);
                }
                // low mask
                if (y & (y + 1)) == 0 {
                    let bits = 128 - y.leading_zeros();
                    let x = self.extract(a, 0, bits);
                    return self.zext(x, w);
                }
            }
            _ => {}
        }
        if w == 1 {
            let ka = self.key(a);
            let kb = self.key(b);
            if (ka.op == O::Not && ka.a == b) || (kb.op == O::Not && kb.a == a) {
                return self.konst(0, 1);
            }
        }
        self.mk(O::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                if y == ones(w) {
                    return b;
                }
                if self.is_tree(a) {
                    return self.push1(a, |s, x| s.or(x, b));
                }
                let k = self.key(a);
                if k.op == O::Concat {
                    let lw = self.w(k.b);
                    let hm = self.konst(y >> lw, w - lw);
                    let lm = self.konst(y, lw);
                    let h = self.or(k.a, hm);
                    let l = self.or(k.b, lm);
                    return self.concat(h, l);
                }
                if k.op == O::ZExt {
                    let iw = self.w(k.a);
                    let m = self.konst(y, iw);
                    let hi = self.konst(y >> iw, w - iw);
                    let x = self.or(k.a, m);
                    return self.concat(hi, x);
                }
            }
            _ => {}
        }
        if w == 1 {
            let ka = self.key(a);
            let kb = self.key(b);
            if (ka.op == O::Not && ka.a == b) || (kb.op == O::Not && kb.a == a) {
                return self.konst(1, 1);
            }
        } else {
            // concat(h, 0..0) | l   with l < 2^k
            for (x, y) in [(a, b), (b, a)] {
                let k = self.key(x);
                if k.op == O::Concat && self.as_const(k.b) == Some(0) {
                    let lw = self.w(k.b);
                    if self.n[y as usize].hi <= ones(lw) {
                        let l = self.extract(y, 0, lw);
                        return self.concat(k.a, l);
                    }
                    // split y at lw
                    let ky = self.key(y);
                    if ky.op == O::Concat && self.w(ky.b) == lw {
                        let h = self.or(k.a, ky.a);
                        return self.concat(h, ky.b);
                    }
                }
            }
        }
        self.mk(O::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                if y == ones(w) {
                    return self.not(a);
                }
                if self.is_tree(a) {
                    return self.push1(a, |s, x| s.xor(x, b));
                }
                let k = self.key(a);
                if k.op == O::Xor {
                    if let Some(z) = self.as_const(k.b) {
                        let m = self.konst(y ^ z, w);
                        return self.xor(k.a, m);
                    }
                }
                if k.op == O::Concat {
                    let lw = self.w(k.b);
                    let hm = self.konst(y >> lw, w - lw);
                    let lm = self.konst(y, lw);
                    let h = self.xor(k.a, hm);
                    let l = self.xor(k.b, lm);
                    return self.concat(h, l);
                }
                if k.op == O::ZExt && y >> self.w(k.a) == 0 {
                    let iw = self.w(k.a);
                    let m = self.konst(y, iw);
                    let x = self.xor(k.a, m);
                    return self.zext(x, w);
                }
            }
            _ => {}
        }
        self.mk(O::Xor, w, a, b, 0, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(1, 1);
        }
        let w = self.w(a);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi < nb.lo || nb.hi < na.lo {
            return self.konst(0, 1);
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst((x == y) as u128, 1),
            (Some(_), None) => return self.eq(b, a),
            (None, Some(y)) => {
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                if self.is_tree(a) {
                    return self.push1(a, |s, x| s.eq(x, b));
                }
                let k = self.key(a);
                match k.op {
                    O::ZExt => {
                        let iw = self.w(k.a);
                        let c = self.konst(y, iw);
                        return self.eq(k.a, c); // range check above excluded large y
                    }
                    O::SExt => {
                        let iw = self.w(k.a);
                        let t = y & ones(iw);
                        if (to_signed(t, iw) as u128) & ones(w) != y {
                            return self.konst(0, 1);
                        }
                        let c = self.konst(t, iw);
                        return self.eq(k.a, c);
                    }
                    O::Concat => {
                        let lw = self.w(k.b);
                        let hc = self.konst(y >> lw, w - lw);
                        let lc = self.konst(y, lw);
                        let h = self.eq(k.a, hc);
                        let l = self.eq(k.b, lc);
                        return self.and(h, l);
                    }
                    O::Add => {
                        if let Some(z) = self.as_const(k.b) {
                            let c = self.konst(y.wrapping_sub(z), w);
                            return self.eq(k.a, c);
                        }
                    }
                    O::Sub => {
                        if y == 0 {
                            return self.eq(k.a, k.b);
                        }
                        if let Some(z) = self.as_const(k.a) {
                            let c = self.konst(z.wrapping_sub(y), w);
                            return self.eq(k.b, c);
                        }
                    }
                    O::Xor => {
                        if let Some(z) = self.as_const(k.b) {
                            let c = self.konst(y ^ z, w);
                            return self.eq(k.a, c);
                        }
                        if y == 0 {
                            return self.eq(k.a, k.b);
                        }
                    }
                    O::Not => {
                        let c = self.konst(!y, w);
                        return self.eq(k.a, c);
                    }
                    _ => {}
                }
            }
            (None, None) => {
                let (ka, kb) = (self.key(a), self.key(b));
                if ka.op == O::ZExt && kb.op == O::ZExt {
                    let (wa, wb) = (self.w(ka.a), self.w(kb.a));
                    if wa == wb {
                        return self.eq(ka.a, kb.a);
                    }
                }
                if ka.op == O::SExt && kb.op == O::SExt && self.w(ka.a) == self.w(kb.a) {
                    return self.eq(ka.a, kb.a);
                }
                if ka.op == O::Concat && kb.op == O::Concat && self.w(ka.b) == self.w(kb.b) {
                    let h = self.eq(ka.a, kb.a);
                    let l = self.eq(ka.b, kb.b);
                    return self.and(h, l);
                }
                if ka.op == O::Add && kb.op == O::Add && ka.b == kb.b {
                    return self.eq(ka.a, kb.a);
                }
            }
        }
        self.mk(O::Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi < nb.lo {
            return self.konst(1, 1);
        }
        if na.lo >= nb.hi {
            return self.konst(0, 1);
        }
        if w == 1 {
            // 0 < b
            let n = self.not(a);
            return self.and(n, b);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let (ka, kb) = (self.key(a), self.key(b));
        if let Some(y) = cb {
            if y == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            if self.is_tree(a) {
                return self.push1(a, |s, x| s.ult(x, b));
            }
            if ka.op == O::ZExt {
                let iw = self.w(ka.a);
                if y <= ones(iw) {
                    let c = self.konst(y, iw);
                    return self.ult(ka.a, c);
                }
            }
            if ka.op == O::Concat && self.as_const(ka.a) == Some(y >> self.w(ka.b)) {
                let lw = self.w(ka.b);
                let c = self.konst(y, lw);
                return self.ult(ka.b, c);
            }
            if ka.op == O::Concat && y & ones(self.w(ka.b)) == 0 {
                let lw = self.w(ka.b);
                let c = self.konst(y >> lw, w - lw);
                return self.ult(ka.a, c);
            }
        }
        if let Some(x) = ca {
            if x == 0 {
                let z = self.konst(0, w);
                return self.ne(b, z);
            }
            if self.is_tree(b) {
                return self.push1(b, |s, y| s.ult(a, y));
            }
            if kb.op == O::ZExt {
                let iw = self.w(kb.a);
                if x <= ones(iw) {
                    let c = self.konst(x, iw);
                    return self.ult(c, kb.a);
                }
            }
        }
        if ka.op == O::ZExt && kb.op == O::ZExt && self.w(ka.a) == self.w(kb.a) {
            return self.ult(ka.a, kb.a);
        }
        self.mk(O::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let e = self.ult(b, a);
        self.not(e)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst((to_signed(x, w) < to_signed(y, w)) as u128, 1);
        }
        // ranges entirely on the negative side
        let neg = |s: &Arena, e: E| s.n[e as usize].lo >= 1u128 << (w - 1);
        if neg(self, a) && self.nonneg(b) {
            return self.konst(1, 1);
        }
        if self.nonneg(a) && neg(self, b) {
            return self.konst(0, 1);
        }
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.as_const(a) == Some(ones(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if self.as_const(b).is_some() && self.is_tree(a) {
            return self.push1(a, |s, x| s.slt(x, b));
        }
        if self.as_const(a).is_some() && self.is_tree(b) {
            return self.push1(b, |s, y| s.slt(a, y));
        }
        if let (Some(y), O::SExt) = (self.as_const(b), self.key(a).op) {
            let x = self.key(a).a;
            let iw = self.w(x);
            let sy = to_signed(y, w);
            if sy == to_signed((sy as u128) & ones(iw), iw) {
                let c = self.konst(sy as u128, iw);
                return self.slt(x, c);
            }
            return self.bool(sy > 0);
        }
        if let (Some(y), O::SExt) = (self.as_const(a), self.key(b).op) {
            let x = self.key(b).a;
            let iw = self.w(x);
            let sy = to_signed(y, w);
            if sy == to_signed((sy as u128) & ones(iw), iw) {
                let c = self.konst(sy as u128, iw);
                return self.slt(c, x);
            }
            return self.bool(sy < 0);
        }
        self.mk(O::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let e = self.slt(b, a);
        self.not(e)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let kc = self.key(c);
        if kc.op == O::Not {
            return self.ite(kc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(_), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(_)) => return self.and(c, a),
                _ => {}
            }
        }
        let (ka, kb) = (self.key(a), self.key(b));
        if ka.op == O::Ite && ka.a == c {
            return self.ite(c, ka.b, b);
        }
        if kb.op == O::Ite && kb.a == c {
            return self.ite(c, a, kb.c);
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "concat wider than 128 bits");
        match (self.as_const(h), self.as_const(l)) {
            (Some(x), Some(y)) => return self.konst((x << wl) | y, w),
            (Some(0), None) => return self.zext(l, w),
            _ => {}
        }
        let (kh, kl) = (self.key(h), self.key(l));
        if kh.op == O::Extract && kl.op == O::Extract && kh.a == kl.a && kh.k == kl.k + wl as u128 {
            return self.extract(kh.a, kl.k as u32, w);
        }
        // high part extracted from the vector whose low part is `l` itself
        if kh.op == O::Extract && kh.a == l {
            // not adjacent; fallthrough
        }
        // concat(x, concat(y, z)) -> concat(concat(x, y), z)
        if kl.op == O::Concat {
            let t = self.concat(h, kl.a);
            return self.concat(t, kl.b);
        }
        if kh.op == O::Concat && kl.op == O::Extract {
            let kk = self.key(kh.b);
            if kk.op == O::Extract && kk.a == kl.a && kk.k == kl.k + wl as u128 {
                let t = self.extract(kl.a, kl.k as u32, self.w(kh.b) + wl);
                return self.concat(kh.a, t);
            }
        }
        // zext(x) ++ l -> zext(x ++ l)
        if kh.op == O::ZExt {
            let t = self.concat(kh.a, l);
            return self.zext(t, w);
        }
        self.mk(O::Concat, w, h, l, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let k = self.key(a);
        if lo == 0 && w == k.w {
            return a;
        }
        assert!(lo + w <= k.w);
        match k.op {
            O::Const => return self.konst(k.k >> lo, w),
            O::Extract => return self.extract(k.a, k.k as u32 + lo, w),
            _ => {}
        }
        if let Some(r) = self.ext_memo.get(&(a, lo, w)) {
            return *r;
        }
        let r = self.extract0(a, lo, w);
        self.ext_memo.insert((a, lo, w), r);
        r
    }
    fn extract0(&mut self, a: E, lo: u32, w: u32) -> E {
        let k = self.key(a);
        if self.n[a as usize].hi >> lo.min(127) == 0 {
            return self.konst(0, w);
        }
        match k.op {
            O::Concat => {
                let lw = self.w(k.b);
                if lo + w <= lw {
                    return self.extract(k.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(k.a, lo - lw, w);
                }
                let l = self.extract(k.b, lo, lw - lo);
                let h = self.extract(k.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            O::ZExt => {
                let iw = self.w(k.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(k.a, lo, w);
                }
                let x = self.extract(k.a, lo, iw - lo);
                return self.zext(x, w);
            }
            O::SExt => {
                let iw = self.w(k.a);
                if lo + w <= iw {
                    return self.extract(k.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(k.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let s = self.extract(k.a, iw - 1, 1);
                return self.sext(s, w);
            }
            O::Ite => {
                if self.is_tree(a) {
                    return self.push1(a, |s, x| s.extract(x, lo, w));
                }
                let x = self.extract(k.b, lo, w);
                let y = self.extract(k.c, lo, w);
                return self.ite(k.a, x, y);
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(k.a, lo, w);
                let y = self.extract(k.b, lo, w);
                return match k.op {
                    O::And => self.and(x, y),
                    O::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            O::Not => {
                let x = self.extract(k.a, lo, w);
                return self.not(x);
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let x = self.extract(k.a, 0, w);
                let y = self.extract(k.b, 0, w);
                return match k.op {
                    O::Add => self.add(x, y),
                    O::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            _ => {}
        }
        self.mk(O::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let k = self.key(a);
        if k.w == w {
            return a;
        }
        assert!(k.w < w);
        match k.op {
            O::Const => return self.konst(k.k, w),
            O::ZExt => return self.zext(k.a, w),
            O::Ite if self.is_tree(a) => return self.push1(a, |s, x| s.zext(x, w)),
            _ => {}
        }
        self.mk(O::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let k = self.key(a);
        if k.w == w {
            return a;
        }
        if self.nonneg(a) {
            return self.zext(a, w);
        }
        match k.op {
            O::Const => return self.konst(to_signed(k.k, k.w) as u128, w),
            O::SExt => return self.sext(k.a, w),
            O::Ite if self.is_tree(a) => return self.push1(a, |s, x| s.sext(x, w)),
            _ => {}
        }
        self.mk(O::SExt, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(a, 0, w)
    }

    // ------------------------------------------------------------ evaluation
    pub fn new_model(&mut self) {
        self.memo_gen += 1;
    }
    /// Evaluates `e`; `model[i]` is the value of variable `i` (0 when missing).
    /// The memo is valid until `new_model` is called.
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if self.memo.len() < self.n.len() {
            self.memo.resize(self.n.len() + 1024, (0, 0));
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, m: &[u128]) -> u128 {
        let k = self.n[e as usize].k;
        match k.op {
            O::Const => return k.k,
            O::Var => return m.get(k.k as usize).copied().unwrap_or(0) & ones(k.w),
            _ => {}
        }
        let (g, v) = self.memo[e as usize];
        if g == self.memo_gen {
            return v;
        }
        let w = k.w;
        let r = match k.op {
            O::Ite => {
                if self.eval_rec(k.a, m) == 1 {
                    self.eval_rec(k.b, m)
                } else {
                    self.eval_rec(k.c, m)
                }
            }
            _ => {
                let a = self.eval_rec(k.a, m);
                let aw = self.w(k.a);
                let b = if k.b != 0 { self.eval_rec(k.b, m) } else { 0 };
                if k.op == O::Tab {
                    self.tabs[k.k as usize][a as usize]
                } else {
                    apply(k.op, w, aw, self.w(k.b), k.k, a, b)
                }
            }
        };
        let r = r & ones(w);
        self.memo[e as usize] = (self.memo_gen, r);
        r
    }

    /// Truth table of a boolean over its single 8-bit (or narrower) variable.
    pub fn table(&mut self, e: E, var: usize, vw: u32) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        if self.n[e as usize].leaf != 0 {
            let x = self.values(e);
            for v in 0..(1usize << vw) {
                if x[v] == 1 {
                    t[v / 64] |= 1 << (v % 64);
                }
            }
            self.tables.insert(e, t);
            return t;
        }
        let mut m = vec![0u128; var + 1];
        for v in 0..(1usize << vw) {
            m[var] = v as u128;
            self.new_model();
            if self.eval(e, &m) == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.new_model();
        self.tables.insert(e, t);
        t
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let k = self.key(e);
        if d == 0 {
            return "..".into();
        }
        match k.op {
            O::Const => format!("{:#x}:{}", k.k, k.w),
            O::Var => format!("v{}:{}", k.k, k.w),
            O::Extract => format!("{}[{}+{}]", self.show(k.a, d - 1), k.k, k.w),
            O::Not | O::ZExt | O::SExt => format!("{:?}{}({})", k.op, k.w, self.show(k.a, d - 1)),
            O::Tab => format!("tab{}({})", k.k, self.show(k.a, d - 1)),
            O::Ite => format!("ite({},{},{})", self.show(k.a, d - 1), self.show(k.b, d - 1), self.show(k.c, d - 1)),
            _ => format!("{:?}({},{})", k.op, self.show(k.a, d - 1), self.show(k.b, d - 1)),
        }
    }
}
