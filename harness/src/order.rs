//! Sorting, searching, comparing and bulk operations.
//! Parameters: 0 kind, 1 smallest size, 2 largest size, 3 and on as documented.
use crate::model::*;
use crate::sym::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
const MODULE: u32 = 3;

fn subject() -> (V, M) {
    let n = choose_in(param(1), param(2));
    shape(param(0), n, 1000)
}
/// A long history: `n` steps in one of twelve fashions, `q` a variation of it (0..3).
fn long(n: usize, mode: usize, q: usize, mut each: impl FnMut(&V)) -> (V, M) {
    let (mut v, mut m) = (V::new(), M::with(4 * n + 64));
    let mut s = 7 + q;
    let mut x = 1000;
    let grown = matches!(mode, 5 | 7 | 8 | 9 | 11);
    if grown || mode == 3 {
        v = (0..n).map(|i| i as u64).collect();
        let mut i = 0;
        while i < n {
            m.push_back(i as u64);
            i += 1;
        }
    }
    let mut i = 0;
    while i < n && mode != 3 && mode != 10 {
        x += 1;
        s = (s * 1103515245 + 12345) % 2147483648;
        let l = m.n;
        let at = (s / 16) % (l + 1);
        match mode {
            0 => push(&mut v, &mut m, false, x),
            1 => push(&mut v, &mut m, true, x),
            // either end, in runs of different lengths
            2 => push(&mut v, &mut m, (i / (1 + 2 * q)) % 2 == 0, x),
            // three in and one out
            4 => {
                if i % 4 == 3 {
                    pop(&mut v, &mut m, q % 2 == 0)
                } else {
                    push(&mut v, &mut m, q / 2 == 0, x)
                }
            }
            // a queue, in runs
            5 => {
                if (i / (1 + 3 * q)) % 2 == 0 {
                    push(&mut v, &mut m, false, x)
                } else {
                    pop(&mut v, &mut m, true)
                }
            }
            6 => {
                let k = l * (q + 1) / 4;
                v.insert(k, x);
                m.insert(k, x);
            }
            7 => {
                if i % 2 == 0 {
                    v.insert(at, x);
                    m.insert(at, x);
                } else {
                    let k = at.min(l - 1);
                    ck!(v.remove(k) == Some(m.remove(k)));
                }
            }
            // cut and put back, or turned around
            8 | 9 => {
                let mut t = v.split_off(at);
                if mode == 8 {
                    v.append(t);
                } else {
                    t.append(v);
                    v = t;
                    let mt = m.split_off(at);
                    let mut r = mt;
                    r.append(&m);
                    m = r;
                }
            }
            _ => {
                let k = [0, l / 2, l - 1, at.min(l - 1)][q];
                ck!(v.remove(k) == Some(m.remove(k)));
            }
        }
        each(&v);
        i += 1;
    }
    if mode == 10 {
        push(&mut v, &mut m, false, x);
        while m.n < n {
            v.append(v.clone());
            let c = m.clone();
            m.append(&c);
            if q > 0 && m.n % q == 0 {
                let y = x + m.n as u64;
                push(&mut v, &mut m, q == 2, y);
            }
            each(&v);
        }
    }
    (v, m)
}
fn push(v: &mut V, m: &mut M, front: bool, x: u64) {
    if front {
        v.push_front(x);
        m.push_front(x);
    } else {
        v.push_back(x);
        m.push_back(x);
    }
}
fn pop(v: &mut V, m: &mut M, front: bool) {
    if front {
        ck!(v.pop_front() == m.pop_front());
    } else {
        ck!(v.pop_back() == m.pop_back());
    }
}
/// Symbolic contents of `bits` bits each, in the tree that the shape gave.
fn fill(v: &mut V, m: &mut M, bits: u64) {
    let mut i = 0;
    while i < m.n {
        let x = any_bits(bits);
        v[i] = x;
        m.set(i, x);
        i += 1;
    }
}
/// Symbolic contents in ascending order.
fn fill_sorted(v: &mut V, m: &mut M, bits: u64) {
    let mut i = 0;
    while i < m.n {
        let x = any_bits(bits);
        if i > 0 {
            assume(m.get(i - 1) <= x);
        }
        v[i] = x;
        m.set(i, x);
        i += 1;
    }
}
/// A sequence of the pattern p, without symbolic elements, except `sym` of them.
fn pattern(v: &mut V, m: &mut M, p: usize, sym: usize) {
    let n = m.n;
    let mut i = 0;
    while i < n {
        let x = match p {
            0 => n - i,
            1 => i,
            2 => {
                if i < n / 2 {
                    2 * i
                } else {
                    2 * (n - i) + 1
                }
            }
            3 => i % 3,
            4 => (i * 7919) % 31,
            _ => 5,
        };
        v[i] = x as u64;
        m.set(i, x as u64);
        i += 1;
    }
    i = 0;
    while i < sym && n > 0 {
        let at = (i * 5 + n / 2) % n;
        let x = any_in(0, n + 1) as u64;
        v[at] = x;
        m.set(at, x);
        i += 1;
    }
}
/// A range lo..hi of 0..n, and a way to write it.
struct R(usize, usize, usize);
fn some_range(n: usize) -> R {
    let how = choose(param(4) + 1);
    if how == 0 {
        return R(0, n, 0);
    }
    let a = conc(any_in(0, n));
    let b = conc(any_in(a, n));
    match how {
        2 => assume(b > a),
        3 => assume(b == n),
        4 => assume(a == 0),
        5 => assume(a > 0),
        _ => {}
    }
    R(a, b, how)
}
impl std::ops::RangeBounds<usize> for R {
    fn start_bound(&self) -> Bound<&usize> {
        match self.2 {
            0 | 4 => Bound::Unbounded,
            5 => Bound::Excluded(&self.0),
            _ => Bound::Included(&self.0),
        }
    }
    fn end_bound(&self) -> Bound<&usize> {
        match self.2 {
            0 | 3 => Bound::Unbounded,
            2 => Bound::Included(&self.1),
            _ => Bound::Excluded(&self.1),
        }
    }
}
impl Clone for R {
    fn clone(&self) -> R {
        R(self.0, self.1, self.2)
    }
}
impl R {
    /// The range as the library is to be given it: `5` starts after an excluded element and `2`
    /// ends with an included one.
    fn arg(&self) -> R {
        R(if self.2 == 5 { self.0 - 1 } else { self.0 }, if self.2 == 2 { self.1 - 1 } else { self.1 }, self.2)
    }
}

fn sorted(m: &M, lo: usize, hi: usize, down: bool) -> M {
    let mut s = m.clone();
    s.sort(lo, hi);
    if down {
        s.reverse(lo, hi);
    }
    s
}

fn sort_some(v: &mut V, m: &M) -> M {
    let r = some_range(m.n);
    let (lo, hi) = (r.0, r.1);
    let whole = r.2 == 0;
    let down = |x: &u64, y: &u64| y.cmp(x);
    if whole {
        match choose(param(5)) {
            0 => {
                v.sort();
                sorted(m, lo, hi, false)
            }
            1 => {
                v.sort_by(&down);
                sorted(m, lo, hi, true)
            }
            _ => {
                v.sort_range_by_key(&|x: &u64| !*x, ..);
                sorted(m, lo, hi, true)
            }
        }
    } else {
        match choose(param(5)) {
            0 => {
                v.sort_range(r.arg());
                sorted(m, lo, hi, false)
            }
            1 => {
                v.sort_range_by(&down, r.arg());
                sorted(m, lo, hi, true)
            }
            _ => {
                v.sort_range_by_key(&|x: &u64| !*x, r.arg());
                sorted(m, lo, hi, true)
            }
        }
    }
}

/// Sorts v with a companion that holds 5000 + position, and checks the pairs are still the same.
fn dual_some(v: &mut V, m: &M, c: &mut V, mc: &M) -> M {
    let r = some_range(m.n);
    let (lo, hi) = (r.0, r.1);
    let whole = r.2 == 0;
    let down = |x: &u64, y: &u64| y.cmp(x);
    let want = if whole {
        match choose(param(5)) {
            0 => {
                v.dual_sort(c);
                sorted(m, lo, hi, false)
            }
            1 => {
                v.dual_sort_by(&down, c);
                sorted(m, lo, hi, true)
            }
            _ => {
                v.dual_sort_range_by_key(&|x: &u64| !*x, .., c);
                sorted(m, lo, hi, true)
            }
        }
    } else {
        match choose(param(5)) {
            0 => {
                v.dual_sort_range(r.arg(), c);
                sorted(m, lo, hi, false)
            }
            1 => {
                v.dual_sort_range_by(&down, r.arg(), c);
                sorted(m, lo, hi, true)
            }
            _ => {
                v.dual_sort_range_by_key(&|x: &u64| !*x, r.arg(), c);
                sorted(m, lo, hi, true)
            }
        }
    };
    ck!(c.len() == m.n);
    let mut seen = M::constant(0, m.n);
    let mut i = 0;
    while i < m.n {
        let from = (c[i].wrapping_sub(5000)) as usize;
        ck!(from < m.n);
        ck!(seen.get(from) == 0);
        seen.set(from, 1);
        ck!(mc.get(from) == c[i]);
        ck!(v[i] == m.get(from));
        if i < lo || i >= hi {
            ck!(from == i);
        }
        i += 1;
    }
    want
}

/// Where an element lies of what is sought: before, within or after.
type Cls<'a> = &'a dyn Fn(u64) -> (bool, bool, bool);
/// The range is exactly the elements within: all before it are less, all after it greater.
fn exactly(m: &M, lo: usize, hi: usize, r: (usize, usize), cls: Cls) {
    ck!(lo <= r.0 && r.0 <= r.1 && r.1 <= hi);
    let mut ok = true;
    let mut i = lo;
    while i < hi {
        let c = cls(m.get(i));
        ok &= if i < r.0 {
            c.0
        } else if i < r.1 {
            c.1
        } else {
            c.2
        };
        i += 1;
    }
    ck!(ok);
}
/// A search of lo..hi answers the range of the elements within, or where they would be.
fn answer(m: &M, lo: usize, hi: usize, got: Result<std::ops::Range<usize>, usize>, cls: Cls) {
    match got {
        Ok(r) => {
            ck!(r.start < r.end);
            exactly(m, lo, hi, (conc(r.start), conc(r.end)), cls);
            cover(1);
        }
        Err(p) => {
            let p = conc(p);
            exactly(m, lo, hi, (p, p), cls);
            cover(2);
        }
    }
}
fn by_key(k: u64) -> impl Fn(u64) -> (bool, bool, bool) {
    move |x| (x < k, x == k, x > k)
}

/// Records what is hashed.
struct Rec {
    m: M,
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.m.push_back(b[i] as u64);
            i += 1;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.m.push_back(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.m.push_back(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.m.push_back(x as u64)
    }
}

/// A number of which 3 is not comparable with anything, itself included.
#[derive(Clone, Debug)]
struct P(u64);
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        self.0 == o.0 && self.0 != 3
    }
}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> {
        if self.0 == 3 || o.0 == 3 {
            None
        } else {
            Some(self.0.cmp(&o.0))
        }
    }
}

entries! {

/// C10: every content. Parameters: 3 bits per element, 4 ways to write a range, 5 ways to call.
fn h10_sort() {
    let (mut v, mut m) = subject();
    fill(&mut v, &mut m, param(3) as u64);
    let want = sort_some(&mut v, &m);
    same(&v, &want, id!());
    cover(1);
}

/// C10: longer sequences of some patterns with a few symbolic elements. Parameters: 3 how many, 4
/// and 5 as before.
fn h10_sort_pattern() {
    let (mut v, mut m) = subject();
    let p = choose(6);
    pattern(&mut v, &mut m, p, param(3));
    let k = if choose(2) == 1 { Some(v.clone()) } else { None };
    let want = sort_some(&mut v, &m);
    same(&v, &want, id!());
    if let Some(k) = k {
        same(&k, &m, id!());
    }
    cover(1);
}

/// C10: many equal elements: sorting does not need a stack as deep as the sequence is long.
fn h10_sort_equal() {
    let n = param(1);
    let mut v = match choose(3) {
        0 => V::constant_vec_of_length(7, n),
        1 => {
            let mut v = V::constant_vec_of_length(7, n - 1);
            v.push_front(9);
            v
        }
        _ => {
            let mut v = V::constant_vec_of_length(7, n - 1);
            v.push_back(3);
            v
        }
    };
    v.sort();
    ck!(v.len() == n);
    let mut i = 1;
    while i < n {
        ck!(v[i - 1] <= v[i]);
        i += 1;
    }
    cover(1);
}

/// C11: every content; the companion is built differently. Parameters: 3 bits, 4, 5 as in C10, 6
/// kind of the companion.
fn h11_dual() {
    let (mut v, mut m) = subject();
    fill(&mut v, &mut m, param(3) as u64);
    let (mut c, mc) = shape(param(6), m.n, 5000);
    let want = dual_some(&mut v, &m, &mut c, &mc);
    same(&v, &want, id!());
    cover(1);
}

/// C11: longer sequences.
fn h11_dual_pattern() {
    let (mut v, mut m) = subject();
    let p = choose(6);
    pattern(&mut v, &mut m, p, param(3));
    let (mut c, mc) = shape(param(6), m.n, 5000);
    let (k, kc) = if choose(2) == 1 { (Some(v.clone()), Some(c.clone())) } else { (None, None) };
    let want = dual_some(&mut v, &m, &mut c, &mc);
    same(&v, &want, id!());
    if let Some(k) = k {
        same(&k, &m, id!());
    }
    if let Some(k) = kc {
        same(&k, &mc, id!());
    }
    cover(1);
}

/// C12: binary search for the equal range. Parameters: 3 bits, 4 ways to write a range.
fn h12_equal_range() {
    let (mut v, mut m) = subject();
    fill_sorted(&mut v, &mut m, param(3) as u64);
    let r = some_range(m.n);
    let (lo, hi) = (r.0, r.1);
    let k = any_bits(param(3) as u64);
    let got = if r.2 == 0 {
        match choose(2) {
            0 => v.equal_range(&k),
            _ => v.equal_range_by(&|x: &u64| x.cmp(&k)),
        }
    } else {
        match choose(2) {
            0 => v.equal_range_in_range(&k, r.arg()),
            _ => v.equal_range_in_range_by(&|x: &u64| x.cmp(&k), r.arg()),
        }
    };
    answer(&m, lo, hi, got, &by_key(k));
}

/// C12: the range around a given index.
fn h12_for_index() {
    let (mut v, mut m) = subject();
    fill_sorted(&mut v, &mut m, param(3) as u64);
    let r = some_range(m.n);
    let (lo, hi) = (r.0, r.1);
    let k = any_bits(param(3) as u64);
    let i = conc(any_in(0, m.n));
    let f = |x: &u64| x.cmp(&k);
    let got = if r.2 == 0 { v.equal_range_for_index_by(i, &f) } else { v.equal_range_for_index_in_range_by(i, &f, r.arg()) };
    if i >= lo && i < hi && m.get(i) == k {
        ck!(got.start <= i && i < got.end);
        exactly(&m, lo, hi, (conc(got.start), conc(got.end)), &by_key(k));
        cover(1);
    } else {
        ck!(got.start == got.end);
        cover(2);
    }
}

/// C12: long sequences: three runs of symbolic lengths, the middle one sought.
fn h12_runs() {
    let (mut v, mut m) = subject();
    let n = m.n;
    let a = any_in(0, n);
    let b = any_in(a, n);
    let mut i = 0;
    while i < n {
        let x = (i >= a) as u64 * 2 + (i >= b) as u64 * 2;
        v[i] = x;
        m.set(i, x);
        i += 1;
    }
    let k = any_in(0, 4) as u64;
    let calls = std::cell::Cell::new(0usize);
    let got = v.equal_range_by(&|x: &u64| {
        calls.set(calls.get() + 1);
        x.cmp(&k)
    });
    answer(&m, 0, n, got, &by_key(k));
    // a search, not a scan
    let mut lg = 0;
    while (1usize << lg) <= n {
        lg += 1;
    }
    ck!(calls.get() <= 4 * lg + 8);
}

/// C12: long sequences: the elements from a symbolic position to another are the equal ones.
/// Parameter 3: 0 for any start, or 1 for a few.
fn h12_long() {
    let (mut v, m) = subject();
    let n = m.n;
    for i in 0..n {
        v[i] = i as u64;
    }
    let a = if param(3) == 0 { any_in(0, n) } else { [0, 1.min(n), n / 3, n.saturating_sub(1)][choose(4)] };
    let b = any_in(a, n);
    let f = |x: &u64| {
        if (*x as usize) < a {
            Ordering::Less
        } else if (*x as usize) < b {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    };
    let how = choose(5);
    if how == 0 {
        match v.equal_range_by(&f) {
            Ok(r) => ck!(a < b && r.start == a && r.end == b),
            Err(p) => ck!(a == b && p == a),
        }
        cover(1);
    } else {
        let i = conc(match how {
            1 => a,
            2 => b.wrapping_sub(1),
            3 => a + (b - a) / 2,
            _ => b,
        });
        let r = v.equal_range_for_index_by(i, &f);
        if i >= a && i < b {
            ck!(r.start == a && r.end == b);
            cover(2);
        } else {
            ck!(r.start == r.end);
        }
    }
}

/// C13: long sequences, in runs. Parameter 3: the length of a run.
fn h13_long() {
    let (mut v, m) = subject();
    let n = m.n;
    let k = param(3);
    for i in 0..n {
        v[i] = (i / k) as u64 * 2 + 1;
    }
    let (a, b) = (any_in(0, 2 * n / k + 2) as u64, any_in(0, 2 * n / k + 2) as u64);
    assume(a <= b);
    let (p, q) = (choose(3), choose(3));
    if p == 1 && q == 1 {
        assume(a < b);
    }
    let bound = |how: usize, x| match how {
        0 => Bound::Included(x),
        1 => Bound::Excluded(x),
        _ => Bound::Unbounded,
    };
    let got = v.between_range(bound(p, &a), bound(q, &b));
    // how many elements are below the first bound, and not above the second
    let least = match p {
        0 => a,
        1 => a + 1,
        _ => 0,
    };
    let most = match q {
        0 => b + 1,
        1 => b,
        _ => 2 * n as u64 + 2,
    };
    let (mut lo, mut hi) = (0, 0);
    for i in 0..n {
        let x = (i / k) as u64 * 2 + 1;
        lo += (x < least) as usize;
        hi += (x < most) as usize;
    }
    match got {
        Ok(r) => ck!(lo < hi && r.start == lo && r.end == hi),
        Err(p) => ck!(lo == hi && p == lo),
    }
    cover(1);
}

/// C13: the range between two bounds.
fn h13_between() {
    let (mut v, mut m) = subject();
    fill_sorted(&mut v, &mut m, param(3) as u64);
    let r = some_range(m.n);
    let (lo, hi) = (r.0, r.1);
    let a = any_bits(param(3) as u64);
    let b = any_bits(param(3) as u64);
    assume(a <= b);
    let (p, q) = (choose(3), choose(3));
    let bound = |how: usize, x| match how {
        0 => Bound::Included(x),
        1 => Bound::Excluded(x),
        _ => Bound::Unbounded,
    };
    if p == 1 && q == 1 {
        assume(a < b);
    }
    let got = if r.2 == 0 { v.between_range(bound(p, &a), bound(q, &b)) } else { v.between_range_in_range(bound(p, &a), bound(q, &b), r.arg()) };
    // Before the range: short of the first bound. After it: past the second and not before.
    let cls = |x: u64| {
        let less = match p {
            0 => x < a,
            1 => x <= a,
            _ => false,
        };
        let more = match q {
            0 => x > b,
            1 => x >= b,
            _ => false,
        };
        (less, !less & !more, more)
    };
    answer(&m, lo, hi, got, &cls);
}

/// C14: equality and ordering of vectors built differently is that of their contents. Parameters: 3
/// bits, 6 kind of the other, 7 and 8 its sizes.
fn h14_order() {
    let (mut v, mut m) = subject();
    let n2 = choose_in(param(7), param(8));
    let (mut w, mut n) = shape(param(6), n2, 1000);
    fill(&mut v, &mut m, param(3) as u64);
    fill(&mut w, &mut n, param(3) as u64);
    // branch free expectation
    let mut eq = m.n == n.n;
    let mut i = 0;
    while i < m.n && i < n.n {
        eq &= m.get(i) == n.get(i);
        i += 1;
    }
    match choose(4) {
        0 => {
            let got = v == w;
            ck!(got == eq);
            let ne = v != w;
            ck!(ne == !eq);
            if got {
                cover(2);
            }
        }
        k => {
            let mut want = if m.n < n.n { -1i32 } else { (m.n > n.n) as i32 };
            while i > 0 {
                i -= 1;
                let (a, b) = (m.get(i), n.get(i));
                want = if a < b {
                    -1
                } else if a > b {
                    1
                } else {
                    want
                };
            }
            let got = match k {
                1 => v.cmp(&w),
                2 => match v.partial_cmp(&w) {
                    Some(o) => o,
                    None => {
                        ck!(false);
                        return;
                    }
                },
                _ => w.cmp(&v).reverse(),
            };
            ck!(got as i8 as i32 == want);
            ck!((v < w) == (want < 0));
        }
    }
    cover(1);
}

/// C14: the same contents hash alike whatever the tree. Parameters: 6 kind of the other.
fn h14_hash() {
    let (v, m) = subject();
    let (w, n) = shape(param(6), m.n, 1000);
    // contents made the same
    let mut w = w;
    let mut i = 0;
    while i < m.n {
        if m.get(i) != n.get(i) {
            w[i] = m.get(i);
        }
        i += 1;
    }
    ck!(v == w);
    ck!(v.cmp(&w) == Ordering::Equal);
    ck!(v == v.clone());
    let (mut a, mut b) = (Rec { m: M::new() }, Rec { m: M::new() });
    v.hash(&mut a);
    w.hash(&mut b);
    ck!(a.m.n == b.m.n);
    i = 0;
    while i < a.m.n {
        ck!(a.m.get(i) == b.m.get(i));
        i += 1;
    }
    // one element changed, or one more, and they differ
    let j = conc(any_in(0, m.n));
    let mut x = w.clone();
    if j < m.n {
        x[j] += 1;
        ck!(v < x && v != x);
    } else {
        x.push_back(0);
        ck!(v < x && v != x);
    }
    ck!(v == w);
    // clones, which share nodes, changed at an end or in the middle
    ck!(w != x && w < x && x > w);
    let (mut y, mut z) = (w.clone(), w.clone());
    match choose(4) {
        0 => {
            y.push_back(1);
            z.push_back(2);
        }
        1 => {
            y.push_front(1);
            z.push_front(2);
        }
        2 => {
            assume(j < m.n);
            z[j] += 1;
            y.pop_back();
            y.push_back(m.get(m.n - 1));
            y.push_back(0);
            z.push_back(0);
        }
        _ => {
            assume(j < m.n);
            z[j] += 1;
            y.insert(0, 7);
            z.insert(0, 7);
        }
    }
    ck!(y != z && y < z && z > y && !(y == z));
    ck!(y == y.clone() && z.cmp(&z.clone()) == Ordering::Equal);
    cover(1);
}

/// C14: elements that are not comparable.
fn h14_partial() {
    let (n, k) = (choose_in(param(1), param(2)), choose_in(param(1), param(2)));
    let (mut v, mut w) = (librrb::Vector::new(), librrb::Vector::new());
    let (mut a, mut b): (Vec<P>, Vec<P>) = (Vec::new(), Vec::new());
    let mut i = 0;
    while i < n {
        let x = any_bits(2);
        v.push_back(P(x));
        a.push(P(x));
        i += 1;
    }
    i = 0;
    while i < k {
        let x = any_bits(2);
        w.push_front(P(x));
        b.insert(0, P(x));
        i += 1;
    }
    ck!((v == w) == (a == b));
    ck!(v.partial_cmp(&w) == a.partial_cmp(&b));
    // nor equal to themselves
    let c = v.clone();
    ck!((v == c) == (a == a.clone()));
    ck!(v.partial_cmp(&c) == a.partial_cmp(&a.clone()));
    cover(1);
}

/// C18: reversal, whole and of a range. Parameter 4: ways to write the range.
fn h18_reverse() {
    let (mut v, mut m) = subject();
    let k = if choose(2) == 1 { Some(v.clone()) } else { None };
    let mk = m.clone();
    let r = some_range(m.n);
    if r.2 == 0 && choose(2) == 0 {
        v.reverse();
    } else {
        v.reverse_range(r.arg());
    }
    m.reverse(r.0, r.1);
    same(&v, &m, id!());
    if let Some(k) = k {
        same(&k, &mk, id!());
    }
    cover(1);
}

/// C18: bulk constructors: the length and the contents are those asked for, and further use works.
fn h18_build() {
    let n = choose_in(param(1), param(2));
    let x = any_bits(64);
    let (mut v, mut m): (V, M) = match choose(8) {
        // iterators that do not know, or only partly, how many there will be
        5 => ((0..n).filter(|i| i % 3 != 1).map(|i| x.wrapping_add(i as u64)).collect(), {
            let mut m = M::new();
            let mut i = 0;
            while i < n {
                if i % 3 != 1 {
                    m.push_back(x.wrapping_add(i as u64));
                }
                i += 1;
            }
            m
        }),
        6 => ((0..n / 2).chain((n / 2..n).filter(|i| i % 2 == 0)).map(|i| x.wrapping_add(i as u64)).collect(), {
            let mut m = M::new();
            let mut i = 0;
            while i < n {
                if i < n / 2 || i % 2 == 0 {
                    m.push_back(x.wrapping_add(i as u64));
                }
                i += 1;
            }
            m
        }),
        7 => {
            // one that would begin again after its end
            let mut i = 0;
            let m = M::constant(x, n);
            let c = std::iter::from_fn(|| {
                i += 1;
                if i - 1 == n { None } else { Some(x) }
            });
            (c.collect(), m)
        }
        0 => (V::constant_vec_of_length(x, n), M::constant(x, n)),
        1 => ((0..n).map(|i| x.wrapping_add(i as u64)).collect(), {
            let mut m = M::new();
            let mut i = 0;
            while i < n {
                m.push_back(x.wrapping_add(i as u64));
                i += 1;
            }
            m
        }),
        2 => (V::singleton(x), M::constant(x, 1)),
        3 => (V::default(), M::new()),
        _ => {
            let mut m = M::new();
            m.push_back(x);
            m.push_back(4);
            m.push_back(5);
            let t = librrb::vector_ts![x, 4, 5];
            let u = librrb::vector_ts![x, 4, 5,];
            ck!(t.len() == 3 && u.len() == 3 && t.get(3).is_none() && u.get(3).is_none());
            let mut i = 0;
            while i < 3 {
                ck!(t.get(i).copied() == Some(m.get(i)) && u.get(i).copied() == Some(m.get(i)));
                i += 1;
            }
            let (e, f): (V, librrb::ThreadSafeVector<u64>) = (librrb::vector![], librrb::vector_ts![]);
            ck!(e.is_empty() && f.is_empty() && e.get(0).is_none() && f.get(0).is_none());
            (if choose(2) == 0 { librrb::vector![x, 4, 5] } else { librrb::vector![x, 4, 5,] }, m)
        }
    };
    same(&v, &m, id!());
    v.push_front(1);
    m.push_front(1);
    v.push_back(2);
    m.push_back(2);
    let k = any_in(0, m.n);
    let t = v.split_off(k);
    let mt = m.split_off(conc(k));
    same(&v, &m, id!());
    same(&t, &mt, id!());
    cover(1);
}

/// C18: a constant vector shares its elements' nodes; writing one place changes no other.
fn h18_constant_write() {
    let n = choose_in(param(1), param(2));
    assume(n > 0);
    let mut v = V::constant_vec_of_length(9, n);
    let mut m = M::constant(9, n);
    let i = conc(any_in(0, n - 1));
    v[i] = 1;
    m.set(i, 1);
    same(&v, &m, id!());
    cover(1);
}

/// C19: a long history agrees with the sequence model, in trees deeper than short ones reach.
/// Parameters: 0 the fashion, 1 and 2 how many steps.
fn h19_long() {
    let n = choose_in(param(1), param(2));
    let (mut v, mut m) = long(n, param(0), choose(4), |_| {});
    same(&v, &m, id!());
    let k = any_in(0, m.n);
    let t = v.split_off(k);
    let mt = m.split_off(conc(k));
    same(&t, &mt, id!());
    v.prepend(t);
    let mut r = mt;
    r.append(&m);
    same(&v, &r, id!());
    cover(1);
}

/// C16: the height stays logarithmic over a long history. Parameters: 0 the fashion, 1 and 2 how many steps.
fn h16_long() {
    let n = choose_in(param(1), param(2));
    let (v, _) = long(n, param(0), choose(4), |v| ck!(v.verif_height() <= height_for(v.len()) + 2));
    ck!(v.verif_assert_invariants());
    cover(1);
}

}
