//! The reference model (a plain array) and the ways a vector comes into being.
use crate::sym::*;
use librrb::{Vector, RRB_WIDTH};

pub const W: usize = RRB_WIDTH;
pub type V = Vector<u64>;

/// The reference: a flat sequence of numbers.
pub struct M {
    p: *mut u64,
    pub n: usize,
    cap: usize,
}
unsafe impl Send for M {}
unsafe impl Sync for M {}
impl M {
    pub fn new() -> M {
        M::with(16)
    }
    pub fn with(cap: usize) -> M {
        let mut v: Vec<u64> = Vec::with_capacity(cap);
        let p = v.as_mut_ptr();
        std::mem::forget(v);
        M { p, n: 0, cap }
    }
    fn room(&mut self, k: usize) {
        if self.n + k > self.cap {
            let mut o = M::with((self.n + k) * 2);
            unsafe { std::ptr::copy_nonoverlapping(self.p, o.p, self.n) };
            o.n = self.n;
            std::mem::swap(self, &mut o);
        }
    }
    pub fn get(&self, i: usize) -> u64 {
        unsafe { *self.p.add(i) }
    }
    pub fn set(&mut self, i: usize, x: u64) {
        unsafe { *self.p.add(i) = x }
    }
    pub fn swap(&mut self, i: usize, j: usize) {
        let t = self.get(i);
        self.set(i, self.get(j));
        self.set(j, t);
    }
    pub fn insert(&mut self, i: usize, x: u64) {
        self.room(1);
        unsafe {
            std::ptr::copy(self.p.add(i), self.p.add(i + 1), self.n - i);
            *self.p.add(i) = x;
        }
        self.n += 1;
    }
    pub fn remove(&mut self, i: usize) -> u64 {
        let x = self.get(i);
        unsafe { std::ptr::copy(self.p.add(i + 1), self.p.add(i), self.n - i - 1) };
        self.n -= 1;
        x
    }
    pub fn push_back(&mut self, x: u64) {
        self.insert(self.n, x)
    }
    pub fn push_front(&mut self, x: u64) {
        self.insert(0, x)
    }
    pub fn pop_back(&mut self) -> Option<u64> {
        if self.n == 0 {
            None
        } else {
            Some(self.remove(self.n - 1))
        }
    }
    pub fn pop_front(&mut self) -> Option<u64> {
        if self.n == 0 {
            None
        } else {
            Some(self.remove(0))
        }
    }
    pub fn append(&mut self, o: &M) {
        self.room(o.n);
        unsafe { std::ptr::copy_nonoverlapping(o.p, self.p.add(self.n), o.n) };
        self.n += o.n;
    }
    /// The elements lo..hi.
    pub fn slice(&self, lo: usize, hi: usize) -> M {
        let mut o = M::with(hi - lo);
        unsafe { std::ptr::copy_nonoverlapping(self.p.add(lo), o.p, hi - lo) };
        o.n = hi - lo;
        o
    }
    pub fn split_off(&mut self, at: usize) -> M {
        if at >= self.n {
            return M::new();
        }
        let o = self.slice(at, self.n);
        self.n = at;
        o
    }
    pub fn reverse(&mut self, lo: usize, hi: usize) {
        let (mut i, mut j) = (lo, hi);
        while i + 1 < j {
            j -= 1;
            self.swap(i, j);
            i += 1;
        }
    }
    /// Insertion sort of lo..hi.
    pub fn sort(&mut self, lo: usize, hi: usize) {
        let mut i = lo + 1;
        while i < hi {
            let mut j = i;
            while j > lo && self.get(j - 1) > self.get(j) {
                self.swap(j - 1, j);
                j -= 1;
            }
            i += 1;
        }
    }
    pub fn iota(base: u64, n: usize) -> M {
        let mut m = M::with(n);
        let mut i = 0;
        while i < n {
            m.push_back(base + i as u64);
            i += 1;
        }
        m
    }
    pub fn constant(x: u64, n: usize) -> M {
        let mut m = M::with(n);
        let mut i = 0;
        while i < n {
            m.push_back(x);
            i += 1;
        }
        m
    }
}
impl Clone for M {
    fn clone(&self) -> M {
        self.slice(0, self.n)
    }
}
impl Drop for M {
    fn drop(&mut self) {
        unsafe { drop(Vec::from_raw_parts(self.p, 0, self.cap)) }
    }
}

pub fn is(o: Option<&u64>, x: u64) -> bool {
    match o {
        Some(y) => *y == x,
        None => false,
    }
}

/// The vector reads back as exactly the model.
pub fn same(v: &V, m: &M, id: u32) {
    check(v.len() == m.n, id);
    check(v.is_empty() == (m.n == 0), id);
    let mut i = 0;
    while i < m.n {
        check(is(v.get(i), m.get(i)), id);
        i += 1;
    }
    check(v.get(m.n).is_none(), id);
}
/// As `same`, and also through the two ends.
pub fn same_ends(v: &V, m: &M, id: u32) {
    if m.n == 0 {
        check(v.front().is_none() && v.back().is_none(), id);
    } else {
        check(is(v.front(), m.get(0)), id);
        check(is(v.back(), m.get(m.n - 1)), id);
    }
}
/// The vector reads back as the model at both ends, around every leaf boundary of a regular tree
/// and at every `step`-th position.
pub fn same_step(v: &V, m: &M, step: usize, id: u32) {
    if step <= 1 {
        return same(v, m, id);
    }
    check(v.len() == m.n, id);
    let mut i = 0;
    while i < m.n {
        if i < W + 2 || i + W + 2 > m.n || i % step == 0 || i % W <= 1 || i % W == W - 1 {
            check(is(v.get(i), m.get(i)), id);
        }
        i += 1;
    }
    check(v.get(m.n).is_none(), id);
}

fn pushes(v: &mut V, m: &M) {
    let mut i = 0;
    while i < m.n {
        v.push_back(m.get(i));
        i += 1;
    }
}
pub fn from_model(m: &M) -> V {
    let mut v = V::new();
    pushes(&mut v, m);
    v
}
fn iota_back(base: u64, n: usize) -> V {
    let mut v = V::new();
    let mut i = 0;
    while i < n {
        v.push_back(base + i as u64);
        i += 1;
    }
    v
}
fn iota_front(base: u64, n: usize) -> V {
    let mut v = V::new();
    let mut i = n;
    while i > 0 {
        i -= 1;
        v.push_front(base + i as u64);
    }
    v
}
fn chunks(base: u64, n: usize, c: usize, front: bool) -> V {
    let mut v = V::new();
    let mut i = 0;
    while i < n {
        let k = if c < n - i { c } else { n - i };
        let part = if front { iota_front(base + i as u64, k) } else { iota_back(base + i as u64, k) };
        v.append(part);
        i += k;
    }
    v
}

/// The number of ways `shape` knows to build a vector.
pub const KINDS: usize = 18;

/// One read, at any index whatever, of the vector and of the model.
pub fn any_read(v: &V, m: &M, id: u32) {
    let i = any_bits(64) as usize;
    match v.get(i) {
        Some(x) => {
            check(i < m.n, id);
            check(*x == m.get(i), id);
        }
        None => check(i >= m.n, id),
    }
}
/// A vector of n elements built in one of several ways, which give trees of different shapes, and
/// its model. The elements are distinct except in kinds 15 and 16.
pub fn shape(kind: usize, n: usize, base: u64) -> (V, M) {
    let plain = |v: V| (v, M::iota(base, n));
    match kind {
        0 => plain(iota_back(base, n)),
        1 => plain(iota_front(base, n)),
        2 => {
            // outwards from the middle
            let mut v = V::new();
            let (mut lo, mut hi) = (n / 2, n / 2);
            while lo > 0 || hi < n {
                if hi < n {
                    v.push_back(base + hi as u64);
                    hi += 1;
                }
                if lo > 0 {
                    lo -= 1;
                    v.push_front(base + lo as u64);
                }
            }
            plain(v)
        }
        3 => plain(chunks(base, n, 1, false)),
        4 => plain(chunks(base, n, W / 2 + 1, false)),
        5 => plain(chunks(base, n, W + 1, true)),
        6 => {
            // prepended pieces
            let mut v = V::new();
            let mut i = n;
            while i > 0 {
                let k = if i > W / 2 { W / 2 } else { i };
                i -= k;
                v.prepend(iota_back(base + i as u64, k));
            }
            plain(v)
        }
        7 => {
            // what remains of a larger vector cut at both ends
            let (a, b) = (W + 3, W * 2 + 1);
            let mut v = iota_back(base.wrapping_sub(a as u64), a + n + b);
            v.slice_from_start(a + n);
            v.slice_to_end(a);
            plain(v)
        }
        8 => {
            let mut v = iota_back(base, n / 2);
            v.append(iota_back(base + (n / 2) as u64, n - n / 2));
            plain(v)
        }
        9 => {
            let mut v = iota_front(base, n / 8);
            v.append(iota_back(base + (n / 8) as u64, n - n / 8));
            plain(v)
        }
        10 => {
            let mut v = iota_back(base, n - n / 8);
            v.append(iota_front(base + (n - n / 8) as u64, n / 8));
            plain(v)
        }
        11 => {
            // inserted in the middle
            let mut v = V::new();
            let mut i = 0;
            while i < n {
                // fills lo upwards, then hi downwards
                if i % 2 == 0 {
                    v.insert(i / 2, base + (i / 2) as u64);
                } else {
                    v.insert((i + 1) / 2, base + (n - 1 - i / 2) as u64);
                }
                i += 1;
            }
            plain(v)
        }
        12 => {
            // every third removed
            let extra = n / 2;
            let mut v = V::new();
            let mut i = 0;
            while i < n {
                v.push_back(base + i as u64);
                if i % 2 == 1 {
                    v.push_back(7);
                }
                i += 1;
            }
            let mut k = 0;
            while k < extra {
                v.remove(2 + 2 * k);
                k += 1;
            }
            plain(v)
        }
        13 => {
            // popped at both ends
            let (a, b) = (W / 2 + 1, W + W / 2);
            let mut v = iota_front(base.wrapping_sub(a as u64), a + n + b);
            let mut i = 0;
            while i < b {
                v.pop_back();
                if i < a {
                    v.pop_front();
                }
                i += 1;
            }
            plain(v)
        }
        14 => {
            // rotated by pieces
            let c = W / 2 + 1;
            if n <= c {
                return plain(iota_back(base, n));
            }
            let turns = n / c;
            let mut v = V::new();
            let mut i = 0;
            while i < n {
                // after `turns` left rotations by c the order is base..
                v.push_back(base + ((i + n - (turns * c) % n) % n) as u64);
                i += 1;
            }
            let mut k = 0;
            while k < turns {
                let mut back = v.split_off(c);
                back.append(v);
                v = back;
                k += 1;
            }
            plain(v)
        }
        15 => {
            // a vector in which nodes occur twice
            let h = n / 2;
            let mut v = iota_back(base, h);
            v.append(v.clone());
            let mut m = M::iota(base, h);
            m.append(&m.clone());
            if n % 2 == 1 {
                v.push_back(base + n as u64);
                m.push_back(base + n as u64);
            }
            (v, m)
        }
        16 => (V::constant_vec_of_length(base, n), M::constant(base, n)),
        _ => plain((0..n).map(|i| base + i as u64).collect()),
    }
}

/// The height of a tree of that many elements whose nodes are half full.
pub fn height_for(n: usize) -> usize {
    let mut h = 0;
    let mut cap = W;
    while cap < n {
        cap *= W / 2;
        h += 1;
    }
    h
}
