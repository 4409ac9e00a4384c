//! Hash-consed bit-vector expressions (width <= 64) with constant folding,
//! algebraic simplification and unsigned interval bounds.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // c = low bit
    Concat,  // a high, b low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub op: Op,
    pub w: u8,
    pub a: u64, // operand, const value or var id
    pub b: E,
    pub c: E,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub k: Key,
    pub lo: u64,
    pub hi: u64,
}

pub struct Ex {
    pub nodes: Vec<Node>,
    map: HashMap<Key, E, std::hash::BuildHasherDefault<Fx>>,
    pub vars: Vec<(String, u8, u64, u64)>,
    stamp: Vec<(u32, u64)>,
    cur: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

/// Concrete semantics of a binary operator.
pub fn fold(op: Op, w: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u64
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sx(a, w);
            (if b >= w as u64 { s >> 63 } else { s >> b }) as u64
        }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, w) < sx(b, w)) as u64,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u64,
        _ => unreachable!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r,
        _ => r & m,
    }
}

impl Ex {
    pub fn new() -> Ex {
        Ex {
            nodes: vec![],
            map: Default::default(),
            vars: vec![],
            stamp: vec![],
            cur: 0,
        }
    }
    fn mk(&mut self, op: Op, w: u8, a: u64, b: E, c: E) -> E {
        let k = Key { op, w, a, b, c };
        if let Some(&e) = self.map.get(&k) {
            return e;
        }
        let (lo, hi) = self.bounds(&k);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { k, lo, hi });
        self.stamp.push((0, 0));
        self.map.insert(k, e);
        e
    }
    fn bounds(&self, k: &Key) -> (u64, u64) {
        self.bounds_with(k, &mut |e| (self.nodes[e as usize].lo, self.nodes[e as usize].hi))
    }
    /// Interval of `e` under per-path refinements.
    pub fn rbounds(&self, e: E, dom: &HashMap<E, (u64, u64)>, memo: &mut HashMap<E, (u64, u64)>) -> (u64, u64) {
        let n = &self.nodes[e as usize];
        if n.lo == n.hi {
            return (n.lo, n.hi);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let mut r = (n.lo, n.hi);
        if memo.len() < 400 && !matches!(n.k.op, Op::Var | Op::Const) {
            let k = n.k;
            let b = self.bounds_with(&k, &mut |c| self.rbounds(c, dom, memo));
            r = (r.0.max(b.0), r.1.min(b.1));
        }
        if let Some(d) = dom.get(&e) {
            r = (r.0.max(d.0), r.1.min(d.1));
        }
        if r.0 > r.1 {
            // contradictory: leave the decision to the solver
            r = (n.lo, n.hi);
        }
        memo.insert(e, r);
        r
    }
    /// Rewrites `e` to something equal to it under the refinements: fixed parts become constants and
    /// branches that cannot be taken go.
    pub fn simp(&mut self, e: E, dom: &HashMap<E, (u64, u64)>, memo: &mut HashMap<E, E>, bm: &mut HashMap<E, (u64, u64)>) -> E {
        let n = self.nodes[e as usize];
        if n.k.op == Op::Const {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if memo.len() > 3000 {
            return e;
        }
        if let Some(d) = dom.get(&e) {
            if d.0 == d.1 && n.lo <= d.0 && d.0 <= n.hi {
                let r = self.c(d.0, n.k.w);
                memo.insert(e, r);
                return r;
            }
        }
        let k = n.k;
        let r = match k.op {
            Op::Var | Op::Const => e,
            Op::Ite => {
                let c = self.simp(k.a as E, dom, memo, bm);
                let q = match self.konst(c) {
                    Some(v) => Some(v != 0),
                    None => {
                        if bm.len() > 300 {
                            bm.clear();
                        }
                        self.quick(c, dom, bm)
                    }
                };
                match q {
                    Some(true) => self.simp(k.b, dom, memo, bm),
                    Some(false) => self.simp(k.c, dom, memo, bm),
                    None => {
                        let a = self.simp(k.b, dom, memo, bm);
                        let b = self.simp(k.c, dom, memo, bm);
                        self.ite(c, a, b)
                    }
                }
            }
            Op::ZExt => {
                let a = self.simp(k.a as E, dom, memo, bm);
                self.zext(a, k.w)
            }
            Op::SExt => {
                let a = self.simp(k.a as E, dom, memo, bm);
                self.sext(a, k.w)
            }
            Op::Extract => {
                let a = self.simp(k.a as E, dom, memo, bm);
                self.extract(a, k.c as u8, k.w)
            }
            Op::Concat => {
                let a = self.simp(k.a as E, dom, memo, bm);
                let b = self.simp(k.b, dom, memo, bm);
                self.concat(a, b)
            }
            _ => {
                let a = self.simp(k.a as E, dom, memo, bm);
                let b = self.simp(k.b, dom, memo, bm);
                if a == k.a as E && b == k.b {
                    e
                } else {
                    let w = self.w(a);
                    self.bin(k.op, w, a, b)
                }
            }
        };
        memo.insert(e, r);
        r
    }
    /// Decides a width-1 expression from refined intervals, if possible.
    pub fn quick(&self, e: E, dom: &HashMap<E, (u64, u64)>, memo: &mut HashMap<E, (u64, u64)>) -> Option<bool> {
        let k = self.nodes[e as usize].k;
        match k.op {
            Op::Const => Some(k.a != 0),
            Op::Eq | Op::Ult | Op::Ule => {
                let a = self.rbounds(k.a as E, dom, memo);
                let b = self.rbounds(k.b, dom, memo);
                match k.op {
                    Op::Eq => {
                        if a.1 < b.0 || b.1 < a.0 {
                            Some(false)
                        } else if a.0 == a.1 && b.0 == b.1 {
                            Some(true)
                        } else {
                            None
                        }
                    }
                    Op::Ult => {
                        if a.1 < b.0 {
                            Some(true)
                        } else if a.0 >= b.1 {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    _ => {
                        if a.1 <= b.0 {
                            Some(true)
                        } else if a.0 > b.1 {
                            Some(false)
                        } else {
                            None
                        }
                    }
                }
            }
            Op::Xor => match (self.quick(k.a as E, dom, memo), self.quick(k.b, dom, memo)) {
                (Some(a), Some(b)) => Some(a ^ b),
                _ => None,
            },
            Op::And => match (self.quick(k.a as E, dom, memo), self.quick(k.b, dom, memo)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.quick(k.a as E, dom, memo), self.quick(k.b, dom, memo)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Op::Ite => match self.quick(k.a as E, dom, memo) {
                Some(true) => self.quick(k.b, dom, memo),
                Some(false) => self.quick(k.c, dom, memo),
                None => None,
            },
            _ => {
                let a = self.rbounds(e, dom, memo);
                if a.0 == a.1 {
                    Some(a.0 != 0)
                } else {
                    None
                }
            }
        }
    }
    fn rb(&self, e: E, dom: &HashMap<E, (u64, u64)>) -> (u64, u64) {
        let mut memo = HashMap::new();
        self.rbounds(e, dom, &mut memo)
    }
    fn tighten(&self, e: E, lo: u64, hi: u64, dom: &mut HashMap<E, (u64, u64)>) {
        let n = self.nodes[e as usize];
        if n.k.op == Op::Const {
            return;
        }
        let cur = self.rb(e, dom);
        let (l, h) = (cur.0.max(lo), cur.1.min(hi));
        if l > h || (l, h) == cur {
            return;
        }
        dom.insert(e, (l, h));
        match n.k.op {
            Op::ZExt => self.tighten(n.k.a as E, l, h, dom),
            Op::Add => {
                if let Some(c) = self.konst(n.k.b) {
                    let x = self.rb(n.k.a as E, dom);
                    let m = mask(n.k.w);
                    let (sl, sh) = (x.0 as u128 + c as u128, x.1 as u128 + c as u128);
                    let mm = m as u128 + 1;
                    if sh < mm {
                        self.tighten(n.k.a as E, l.saturating_sub(c), h.saturating_sub(c), dom);
                    } else if sl >= mm {
                        // always wraps: x = e - c + 2^w
                        let f = |v: u64| (v as u128 + mm - c as u128).min(m as u128) as u64;
                        self.tighten(n.k.a as E, f(l), f(h), dom);
                    }
                }
            }
            Op::Shl => {
                if let Some(c) = self.konst(n.k.b) {
                    let x = self.rb(n.k.a as E, dom);
                    if c < 64 && x.1 <= mask(n.k.w) >> c {
                        let up = (l >> c) + ((l & ((1 << c) - 1)) != 0) as u64;
                        self.tighten(n.k.a as E, up, h >> c, dom);
                    }
                }
            }
            _ => {}
        }
    }
    /// Records what `cond` (assumed true) says about intervals.
    pub fn refine(&self, cond: E, truth: bool, dom: &mut HashMap<E, (u64, u64)>) {
        let k = self.nodes[cond as usize].k;
        match (k.op, truth) {
            (Op::And, true) if k.w == 1 => {
                self.refine(k.a as E, true, dom);
                self.refine(k.b, true, dom);
            }
            (Op::Or, false) if k.w == 1 => {
                self.refine(k.a as E, false, dom);
                self.refine(k.b, false, dom);
            }
            (Op::Xor, _) if k.w == 1 && self.konst(k.b) == Some(1) => self.refine(k.a as E, !truth, dom),
            (Op::Ult, true) | (Op::Ule, false) | (Op::Ult, false) | (Op::Ule, true) => {
                // normalise to p < q or p <= q
                let (p, q, strict) = match (k.op, truth) {
                    (Op::Ult, true) => (k.a as E, k.b, 1),
                    (Op::Ule, true) => (k.a as E, k.b, 0),
                    (Op::Ult, false) => (k.b, k.a as E, 0),
                    _ => (k.b, k.a as E, 1),
                };
                let bp = self.rb(p, dom);
                let bq = self.rb(q, dom);
                if bq.1 >= strict {
                    self.tighten(p, 0, bq.1 - strict, dom);
                }
                if let Some(l) = bp.0.checked_add(strict) {
                    self.tighten(q, l, !0, dom);
                }
            }
            (Op::Eq, true) => {
                let a = self.rb(k.a as E, dom);
                let b = self.rb(k.b, dom);
                self.tighten(k.a as E, b.0, b.1, dom);
                self.tighten(k.b, a.0, a.1, dom);
            }
            (Op::Eq, false) => {
                if let Some(c) = self.konst(k.b) {
                    let a = self.rb(k.a as E, dom);
                    if a.0 == c && c < a.1 {
                        self.tighten(k.a as E, c + 1, a.1, dom);
                    } else if a.1 == c && c > a.0 {
                        self.tighten(k.a as E, a.0, c - 1, dom);
                    }
                }
            }
            _ => {}
        }
    }
    fn bounds_with(&self, k: &Key, look: &mut dyn FnMut(E) -> (u64, u64)) -> (u64, u64) {
        struct B {
            lo: u64,
            hi: u64,
        }
        let m = mask(k.w);
        let mut n = |e: E| {
            let (lo, hi) = look(e);
            B { lo, hi }
        };
        let full = (0, m);
        match k.op {
            Op::Const => (k.a, k.a),
            Op::Var => {
                let v = &self.vars[k.a as usize];
                (v.2, v.3)
            }
            Op::Add => {
                let (x, y) = (n(k.a as E), n(k.b));
                match x.hi.checked_add(y.hi) {
                    Some(h) if h <= m => (x.lo + y.lo, h),
                    // adding a "negative" constant that always wraps
                    _ => {
                        let l = x.lo as u128 + y.lo as u128;
                        let h = x.hi as u128 + y.hi as u128;
                        let mm = m as u128 + 1;
                        if l >= mm && h < 2 * mm {
                            ((l - mm) as u64, (h - mm) as u64)
                        } else {
                            full
                        }
                    }
                }
            }
            Op::Sub => {
                let (x, y) = (n(k.a as E), n(k.b));
                if x.lo >= y.hi {
                    (x.lo - y.hi, x.hi - y.lo)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (x, y) = (n(k.a as E), n(k.b));
                match x.hi.checked_mul(y.hi) {
                    Some(h) if h <= m => (x.lo * y.lo, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (x, y) = (n(k.a as E), n(k.b));
                if y.lo > 0 {
                    (x.lo / y.hi, x.hi / y.lo)
                } else {
                    full
                }
            }
            Op::URem => {
                let (x, y) = (n(k.a as E), n(k.b));
                if y.lo > 0 {
                    if x.hi < y.lo {
                        (x.lo, x.hi)
                    } else {
                        (0, x.hi.min(y.hi - 1))
                    }
                } else {
                    (0, x.hi)
                }
            }
            Op::And => {
                let (x, y) = (n(k.a as E), n(k.b));
                (0, x.hi.min(y.hi))
            }
            Op::Or => {
                let (x, y) = (n(k.a as E), n(k.b));
                let t = x.hi | y.hi;
                let bits = 64 - t.leading_zeros();
                (x.lo.max(y.lo), if bits == 0 { 0 } else { mask(bits as u8) })
            }
            Op::Xor => {
                let (x, y) = (n(k.a as E), n(k.b));
                let t = x.hi | y.hi;
                let bits = 64 - t.leading_zeros();
                (0, if bits == 0 { 0 } else { mask(bits as u8) })
            }
            Op::Shl => {
                let (x, y) = (n(k.a as E), n(k.b));
                if y.lo == y.hi && y.lo < k.w as u64 && x.hi <= (m >> y.lo) {
                    (x.lo << y.lo, x.hi << y.lo)
                } else {
                    full
                }
            }
            Op::LShr => {
                let (x, y) = (n(k.a as E), n(k.b));
                if y.lo == y.hi && y.lo < k.w as u64 {
                    (x.lo >> y.lo, x.hi >> y.lo)
                } else {
                    (0, x.hi)
                }
            }
            Op::Ite => {
                let (x, y) = (n(k.b), n(k.c));
                (x.lo.min(y.lo), x.hi.max(y.hi))
            }
            Op::ZExt => {
                let x = n(k.a as E);
                (x.lo, x.hi)
            }
            Op::Extract => {
                let x = n(k.a as E);
                if k.c == 0 && x.hi <= m {
                    (x.lo, x.hi)
                } else {
                    full
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => (0, 1),
            Op::SDiv | Op::SRem | Op::AShr | Op::SExt | Op::Concat => full,
        }
    }
    pub fn var(&mut self, name: String, w: u8, lo: u64, hi: u64) -> E {
        let id = self.vars.len();
        self.vars.push((name, w, lo, hi));
        self.mk(Op::Var, w, id as u64, 0, 0)
    }
    pub fn c(&mut self, v: u64, w: u8) -> E {
        self.mk(Op::Const, w, v & mask(w), 0, 0)
    }
    pub fn konst(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.k.op == Op::Const {
            Some(n.k.a)
        } else {
            None
        }
    }
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].k.w
    }
    pub fn lo(&self, e: E) -> u64 {
        self.nodes[e as usize].lo
    }
    pub fn hi(&self, e: E) -> u64 {
        self.nodes[e as usize].hi
    }
    fn key(&self, e: E) -> Key {
        self.nodes[e as usize].k
    }
    pub fn not(&mut self, e: E) -> E {
        debug_assert_eq!(self.w(e), 1);
        let k = self.key(e);
        match k.op {
            Op::Const => self.c(k.a ^ 1, 1),
            Op::Ult => self.bin(Op::Ule, self.w(k.b), k.b, k.a as E),
            Op::Ule => self.bin(Op::Ult, self.w(k.b), k.b, k.a as E),
            Op::Slt => self.bin(Op::Sle, self.w(k.b), k.b, k.a as E),
            Op::Sle => self.bin(Op::Slt, self.w(k.b), k.b, k.a as E),
            _ => {
                let one = self.c(1, 1);
                self.bin(Op::Xor, 1, e, one)
            }
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.konst(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            if self.konst(a) == Some(1) && self.konst(b) == Some(0) {
                return c;
            }
            if self.konst(a) == Some(0) && self.konst(b) == Some(1) {
                return self.not(c);
            }
        }
        self.mk(Op::Ite, w, c as u64, a, b)
    }
    pub fn zext(&mut self, e: E, w: u8) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if let Some(v) = self.konst(e) {
            return self.c(v, w);
        }
        let k = self.key(e);
        if k.op == Op::ZExt {
            return self.zext(k.a as E, w);
        }
        self.mk(Op::ZExt, w, e as u64, 0, 0)
    }
    pub fn sext(&mut self, e: E, w: u8) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if let Some(v) = self.konst(e) {
            return self.c(sx(v, ew) as u64, w);
        }
        if self.hi(e) <= mask(ew - 1) {
            return self.zext(e, w);
        }
        self.mk(Op::SExt, w, e as u64, 0, 0)
    }
    pub fn extract(&mut self, e: E, lo: u8, w: u8) -> E {
        let ew = self.w(e);
        if lo == 0 && w == ew {
            return e;
        }
        if let Some(v) = self.konst(e) {
            return self.c(v >> lo, w);
        }
        let k = self.key(e);
        match k.op {
            Op::ZExt => {
                let iw = self.w(k.a as E);
                if lo >= iw {
                    return self.c(0, w);
                }
                if lo + w <= iw {
                    return self.extract(k.a as E, lo, w);
                }
                if lo == 0 {
                    return self.zext(k.a as E, w);
                }
            }
            Op::Extract => return self.extract(k.a as E, lo + k.c as u8, w),
            Op::Concat => {
                let lw = self.w(k.b);
                if lo >= lw {
                    return self.extract(k.a as E, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(k.b, lo, w);
                }
            }
            Op::Ite => {
                let (c, x, y) = (k.a as E, k.b, k.c);
                if self.konst(x).is_some() || self.konst(y).is_some() {
                    let x = self.extract(x, lo, w);
                    let y = self.extract(y, lo, w);
                    return self.ite(c, x, y);
                }
            }
            _ => {}
        }
        if self.hi(e) < (1u64 << lo) && lo > 0 {
            return self.c(0, w);
        }
        self.mk(Op::Extract, w, e as u64, 0, lo as E)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.konst(hi), self.konst(lo)) {
            return self.c((a << lw) | b, w);
        }
        if self.konst(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (kh, kl) = (self.key(hi), self.key(lo));
        if kh.op == Op::Extract && kl.op == Op::Extract && kh.a == kl.a && kh.c == kl.c + lw as E {
            return self.extract(kh.a as E, kl.c as u8, w);
        }
        // high part of a zext'd value
        self.mk(Op::Concat, w, hi as u64, lo, 0)
    }
    pub fn bin(&mut self, op: Op, w: u8, mut a: E, mut b: E) -> E {
        let (ka, kb) = (self.konst(a), self.konst(b));
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = fold(op, w, x, y);
            return self.c(v, rw);
        }
        let m = mask(w);
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (mut ka, mut kb) = (ka, kb);
        if comm && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        let (alo, ahi, blo, bhi) = (self.lo(a), self.hi(a), self.lo(b), self.hi(b));
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                let k = self.key(a);
                if let (Some(c2), Op::Add) = (kb, k.op) {
                    if let Some(c1) = self.konst(k.b) {
                        let c = self.c(c1.wrapping_add(c2), w);
                        return self.bin(Op::Add, w, k.a as E, c);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(c) = kb {
                    let c = self.c(c.wrapping_neg(), w);
                    return self.bin(Op::Add, w, a, c);
                }
                // (x + c1) - (y + c2)
                let (xa, ca) = self.split_add(a);
                let (xb, cb) = self.split_add(b);
                if xa == xb {
                    return self.c(ca.wrapping_sub(cb), w);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(c) = kb {
                    if c.is_power_of_two() {
                        let s = self.c(c.trailing_zeros() as u64, w);
                        return self.bin(Op::Shl, w, a, s);
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(c) = kb {
                    if c.is_power_of_two() {
                        let s = self.c(c.trailing_zeros() as u64, w);
                        return self.bin(Op::LShr, w, a, s);
                    }
                }
                if ahi < blo {
                    return self.c(0, w);
                }
            }
            Op::URem => {
                if ahi < blo {
                    return a;
                }
                if let Some(c) = kb {
                    if c.is_power_of_two() {
                        let s = self.c(c - 1, w);
                        return self.bin(Op::And, w, a, s);
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                if ahi <= m >> 1 && bhi <= m >> 1 {
                    let o = if op == Op::SDiv { Op::UDiv } else { Op::URem };
                    return self.bin(o, w, a, b);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = kb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    // mask covering all possible bits
                    if (c + 1).is_power_of_two() && ahi <= c {
                        return a;
                    }
                    let k = self.key(a);
                    if k.op == Op::And {
                        if let Some(c1) = self.konst(k.b) {
                            let c = self.c(c1 & c, w);
                            return self.bin(Op::And, w, k.a as E, c);
                        }
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.c(0, 1);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if kb == Some(0) {
                    return a;
                }
                let k = self.key(a);
                if let (Some(c2), Op::Xor) = (kb, k.op) {
                    if let Some(c1) = self.konst(k.b) {
                        let c = self.c(c1 ^ c2, w);
                        return self.bin(Op::Xor, w, k.a as E, c);
                    }
                }
                if w == 1 && kb == Some(1) {
                    match k.op {
                        Op::Ult | Op::Ule | Op::Slt | Op::Sle => return self.not(a),
                        _ => {}
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if op == Op::AShr && ahi <= m >> 1 {
                    return self.bin(Op::LShr, w, a, b);
                }
                if let Some(c) = kb {
                    if c >= w as u64 && op != Op::AShr {
                        return self.c(0, w);
                    }
                    if op == Op::LShr && c < 64 && (ahi >> c) == 0 {
                        return self.c(0, w);
                    }
                    let k = self.key(a);
                    if op == Op::LShr && k.op == Op::Shl && k.b == b && self.hi(k.a as E) <= (m >> c) {
                        return k.a as E;
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if ahi < blo || bhi < alo {
                    return self.c(0, 1);
                }
                if let Some(c) = kb {
                    let k = self.key(a);
                    if w == 1 {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    match k.op {
                        Op::ZExt => {
                            let iw = self.w(k.a as E);
                            if c > mask(iw) {
                                return self.c(0, 1);
                            }
                            let c = self.c(c, iw);
                            return self.bin(Op::Eq, iw, k.a as E, c);
                        }
                        Op::Add => {
                            if let Some(c1) = self.konst(k.b) {
                                let c = self.c(c.wrapping_sub(c1), w);
                                return self.bin(Op::Eq, w, k.a as E, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(c1) = self.konst(k.b) {
                                let c = self.c(c ^ c1, w);
                                return self.bin(Op::Eq, w, k.a as E, c);
                            }
                        }
                        Op::Ite => {
                            let (cc, x, y) = (k.a as E, k.b, k.c);
                            if self.konst(x).is_some() || self.konst(y).is_some() {
                                let ex = self.bin(Op::Eq, w, x, b);
                                let ey = self.bin(Op::Eq, w, y, b);
                                return self.ite(cc, ex, ey);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (xa, ca) = self.split_add(a);
                    let (xb, cb) = self.split_add(b);
                    if xa == xb {
                        return self.c((ca & m == cb & m) as u64, 1);
                    }
                }
            }
            Op::Ult => {
                if a == b || ahi_ge(alo, bhi) {
                    return self.c(0, 1);
                }
                if ahi < blo {
                    return self.c(1, 1);
                }
                let (k, kk) = (self.key(a), self.key(b));
                if k.op == Op::ZExt {
                    let iw = self.w(k.a as E);
                    if let Some(c) = kb {
                        // c <= ahi here
                        let c = self.c(c, iw);
                        return self.bin(Op::Ult, iw, k.a as E, c);
                    }
                    if kk.op == Op::ZExt && self.w(kk.a as E) == iw {
                        return self.bin(Op::Ult, iw, k.a as E, kk.a as E);
                    }
                } else if let (Some(c), Op::ZExt) = (ka, kk.op) {
                    let iw = self.w(kk.a as E);
                    let c = self.c(c, iw);
                    return self.bin(Op::Ult, iw, c, kk.a as E);
                }
            }
            Op::Ule => {
                if a == b || ahi <= blo {
                    return self.c(1, 1);
                }
                if alo > bhi {
                    return self.c(0, 1);
                }
                let (k, kk) = (self.key(a), self.key(b));
                if k.op == Op::ZExt {
                    let iw = self.w(k.a as E);
                    if let Some(c) = kb {
                        let c = self.c(c, iw);
                        return self.bin(Op::Ule, iw, k.a as E, c);
                    }
                    if kk.op == Op::ZExt && self.w(kk.a as E) == iw {
                        return self.bin(Op::Ule, iw, k.a as E, kk.a as E);
                    }
                } else if let (Some(c), Op::ZExt) = (ka, kk.op) {
                    let iw = self.w(kk.a as E);
                    let c = self.c(c, iw);
                    return self.bin(Op::Ule, iw, c, kk.a as E);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.c((op == Op::Sle) as u64, 1);
                }
                if ahi <= m >> 1 && bhi <= m >> 1 {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, w, a, b);
                }
            }
            _ => unreachable!(),
        }
        self.mk(op, rw, a as u64, b, 0)
    }
    fn split_add(&self, e: E) -> (E, u64) {
        let k = self.key(e);
        if k.op == Op::Add {
            if let Some(c) = self.konst(k.b) {
                return (k.a as E, c);
            }
        }
        (e, 0)
    }
    /// Number of low bits of `e` known to be zero.
    pub fn tz(&self, e: E) -> u32 {
        let k = self.key(e);
        let r = match k.op {
            Op::Const => {
                if k.a == 0 {
                    64
                } else {
                    k.a.trailing_zeros()
                }
            }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(k.a as E).min(self.tz(k.b)),
            Op::Mul => self.tz(k.a as E) + self.tz(k.b),
            Op::Shl => {
                if let Some(c) = self.konst(k.b) {
                    self.tz(k.a as E) + c as u32
                } else {
                    self.tz(k.a as E)
                }
            }
            Op::Ite => self.tz(k.b).min(self.tz(k.c)),
            Op::ZExt => {
                let t = self.tz(k.a as E);
                if t >= self.w(k.a as E) as u32 {
                    64
                } else {
                    t
                }
            }
            Op::And => self.tz(k.a as E).max(self.tz(k.b)),
            _ => 0,
        };
        r.min(64)
    }
    /// Evaluates `e` under `model` (indexed by variable id; missing = range low).
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.cur += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u64 {
        let (s, v) = self.stamp[e as usize];
        if s == self.cur {
            return v;
        }
        let k = self.key(e);
        let r = match k.op {
            Op::Const => k.a,
            Op::Var => match model.get(k.a as usize) {
                Some(&v) => v,
                None => self.vars[k.a as usize].2,
            },
            Op::Ite => {
                if self.ev(k.a as E, model) != 0 {
                    self.ev(k.b, model)
                } else {
                    self.ev(k.c, model)
                }
            }
            Op::ZExt => self.ev(k.a as E, model),
            Op::SExt => {
                let iw = self.w(k.a as E);
                (sx(self.ev(k.a as E, model), iw) as u64) & mask(k.w)
            }
            Op::Extract => (self.ev(k.a as E, model) >> k.c) & mask(k.w),
            Op::Concat => {
                let lw = self.w(k.b);
                (self.ev(k.a as E, model) << lw) | self.ev(k.b, model)
            }
            op => {
                let x = self.ev(k.a as E, model);
                let y = self.ev(k.b, model);
                let w = self.w(k.a as E);
                fold(op, w, x, y)
            }
        };
        self.stamp[e as usize] = (self.cur, r);
        r
    }
}

fn ahi_ge(alo: u64, bhi: u64) -> bool {
    alo >= bhi
}
