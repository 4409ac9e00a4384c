//! Sequence operations against the model.
//! Parameters: 0 kind (or first kind), 1 smallest size, 2 largest size, 3 and on as documented.
use crate::model::*;
use crate::sym::*;
const MODULE: u32 = 1;

/// A vector of a size between parameters 1 and 2, built as parameter 0 says.
fn subject() -> (V, M) {
    let n = choose_in(param(1), param(2));
    shape(param(0), n, 1000)
}

fn push(v: &mut V, m: &mut M, side: usize, x: u64) {
    if side == 0 {
        v.push_back(x);
        m.push_back(x);
    } else {
        v.push_front(x);
        m.push_front(x);
    }
}
fn pop(v: &mut V, m: &mut M, side: usize) -> bool {
    let (a, b) = if side == 0 { (v.pop_back(), m.pop_back()) } else { (v.pop_front(), m.pop_front()) };
    a == b
}
/// Exercises a vector further: both ends, one element, and (parameter-free) a drain of some of it.
fn aftermath(mut v: V, mut m: M) {
    push(&mut v, &mut m, 0, 1);
    push(&mut v, &mut m, 1, 2);
    same(&v, &m, id!());
    let side = choose(2);
    let mut i = 0;
    let k = if m.n < W + 2 { m.n } else { W + 2 };
    while i < k {
        ck!(pop(&mut v, &mut m, side));
        i += 1;
    }
    same(&v, &m, id!());
}

entries! {

/// C01: rounds of a repeated end operation. Parameters: 3 rounds, 4 most repeats, 5 comparison step.
fn h01_deque() {
    let (mut v, mut m) = subject();
    let mut r = 0;
    let mut x = 1;
    while r < param(3) {
        let op = choose(4);
        let times = any_in(1, param(4));
        let mut i = 0;
        while i < times {
            if op < 2 {
                push(&mut v, &mut m, op, x);
                x += 1;
            } else {
                ck!(pop(&mut v, &mut m, op - 2));
            }
            same_ends(&v, &m, id!());
            i += 1;
        }
        same_step(&v, &m, param(5), id!());
        r += 1;
    }
    cover(1);
    if v.is_empty() {
        cover(2);
    }
}

/// C01: drained completely, from one side or from both, then filled again.
fn h01_drain() {
    let (mut v, mut m) = subject();
    let pat = choose(4);
    let mut i = 0;
    while m.n > 0 {
        let side = match pat {
            0 => 0,
            1 => 1,
            2 => i & 1,
            _ => (i / 3) & 1,
        };
        ck!(pop(&mut v, &mut m, side));
        ck!(v.len() == m.n);
        same_ends(&v, &m, id!());
        i += 1;
        if i % (W + 1) == 0 {
            same(&v, &m, id!());
        }
    }
    ck!(v.pop_back().is_none());
    ck!(v.pop_front().is_none());
    ck!(v.len() == 0 && v.is_empty());
    i = 0;
    while i < W + 1 {
        push(&mut v, &mut m, (pat + i) & 1, i as u64);
        i += 1;
    }
    same(&v, &m, id!());
    cover(1);
}

/// C02: append and prepend. Parameters: 3 kind of the other, 4 and 5 its sizes.
fn h02_concat() {
    let (mut v, mut m) = subject();
    let n2 = choose_in(param(4), param(5));
    let (o, mo) = shape(param(3), n2, 5000);
    let keep = choose(3);
    let (k1, k2) = if keep == 1 { (Some(v.clone()), Some(o.clone())) } else { (None, None) };
    let (m1, m2) = (m.clone(), mo.clone());
    if choose(2) == 0 {
        v.append(o);
        m.append(&mo);
    } else {
        v.prepend(o);
        let mut t = mo.clone();
        t.append(&m);
        m = t;
    }
    same(&v, &m, id!());
    same_ends(&v, &m, id!());
    if keep == 2 {
        any_read(&v, &m, id!());
        return;
    }
    aftermath(v, m);
    if let Some(k) = k1 {
        same(&k, &m1, id!());
    }
    if let Some(k) = k2 {
        same(&k, &m2, id!());
    }
    cover(1);
}

/// C02: the result of a concatenation concatenated again, on either side, and with itself.
fn h02_concat3() {
    let (mut v, mut m) = subject();
    let n2 = choose_in(param(4), param(5));
    let (o, mo) = shape(param(3), n2, 5000);
    let mut r = 0;
    while r < 3 {
        match choose(3) {
            0 => {
                v.append(o.clone());
                m.append(&mo);
            }
            1 => {
                v.prepend(o.clone());
                let mut t = mo.clone();
                t.append(&m);
                m = t;
            }
            _ => {
                v.append(v.clone());
                let t = m.clone();
                m.append(&t);
            }
        }
        r += 1;
    }
    same(&v, &m, id!());
    same(&o, &mo, id!());
    cover(1);
}

/// C03: split at every position (and past the end), then both halves used and put back together.
fn h03_split() {
    let (mut v, mut m) = subject();
    let keep = choose(2);
    let k = if keep == 1 { Some(v.clone()) } else { None };
    let mk = m.clone();
    let at = any_in(0, m.n + 2);
    let mut t = v.split_off(at);
    let mut mt = m.split_off(conc(at));
    same(&v, &m, id!());
    same(&t, &mt, id!());
    same_ends(&v, &m, id!());
    same_ends(&t, &mt, id!());
    match choose(4) {
        0 => {
            v.append(t);
            m.append(&mt);
        }
        1 => {
            t.append(v);
            mt.append(&m);
            v = t;
            m = mt;
        }
        2 => {
            aftermath(t, mt);
        }
        _ => {
            let side = choose(2);
            push(&mut v, &mut m, side, 1);
            push(&mut t, &mut mt, side, 2);
            same(&t, &mt, id!());
            ck!(pop(&mut t, &mut mt, 1 - side));
            ck!(pop(&mut t, &mut mt, side));
            same(&t, &mt, id!());
        }
    }
    same(&v, &m, id!());
    if let Some(k) = k {
        same(&k, &mk, id!());
    }
    cover(1);
}

/// C03: repeated splits. Parameter 3: how many. Every piece is put to use.
fn h03_split_many() {
    let (mut v, mut m) = subject();
    let (mut rest, mut mrest) = (V::new(), M::new());
    let mut r = 0;
    while r < param(3) {
        let at = conc(any_in(0, m.n));
        let t = v.split_off(at);
        let mt = m.split_off(at);
        same(&v, &m, id!());
        same(&t, &mt, id!());
        // keep one piece, collect the other
        if choose(2) == 0 {
            rest.append(t);
            mrest.append(&mt);
        } else {
            rest.append(v);
            mrest.append(&m);
            v = t;
            m = mt;
        }
        r += 1;
    }
    same(&rest, &mrest, id!());
    v.append(rest);
    m.append(&mrest);
    same(&v, &m, id!());
    cover(1);
}

/// C03: the slicing operations, with every kind of range.
fn h03_slice() {
    let (mut v, mut m) = subject();
    let n = m.n;
    match choose(3) {
        0 => {
            let k = any_in(0, n + 1);
            v.slice_from_start(k);
            m.split_off(conc(k));
        }
        1 => {
            let k = any_in(0, n + 1);
            v.slice_to_end(k);
            m = m.split_off(conc(k));
        }
        _ => {
            let a = any_in(0, n);
            let b = any_in(a, n);
            let (a, b) = (conc(a), conc(b));
            let out = match choose(6) {
                0 => v.extract_slice(a..b),
                1 => {
                    assume(b > a);
                    v.extract_slice(a..=b - 1)
                }
                2 => {
                    assume(b == n);
                    v.extract_slice(a..)
                }
                3 => {
                    assume(a == 0);
                    v.extract_slice(..b)
                }
                4 => {
                    assume(a == 0 && b == n);
                    v.extract_slice(..)
                }
                _ => {
                    assume(a > 0);
                    v.extract_slice((std::ops::Bound::Excluded(a - 1), std::ops::Bound::Excluded(b)))
                }
            };
            let mo = m.slice(a, b);
            same(&out, &mo, id!());
            let tail = m.slice(b, n);
            m.split_off(a);
            m.append(&tail);
            cover(2);
        }
    }
    same(&v, &m, id!());
    aftermath(v, m);
    cover(1);
}

/// C04: insert at every position. Parameter 3: how many in a row.
fn h04_insert() {
    let (mut v, mut m) = subject();
    let keep = choose(3);
    let k = if keep == 1 { Some(v.clone()) } else { None };
    let mk = m.clone();
    let mut r = 0;
    while r < param(3) {
        let at = any_in(0, m.n);
        v.insert(at, r as u64);
        m.insert(conc(at), r as u64);
        r += 1;
    }
    same(&v, &m, id!());
    same_ends(&v, &m, id!());
    if keep == 2 {
        any_read(&v, &m, id!());
    }
    if let Some(k) = k {
        same(&k, &mk, id!());
    }
    cover(1);
}

/// C04: remove at every position. Parameter 3: how many in a row.
fn h04_remove() {
    let (mut v, mut m) = subject();
    let keep = choose(3);
    let k = if keep == 1 { Some(v.clone()) } else { None };
    let mk = m.clone();
    let mut r = 0;
    while r < param(3) && m.n > 0 {
        let at = any_in(0, m.n - 1);
        let x = v.remove(at);
        ck!(x == Some(m.remove(conc(at))));
        r += 1;
    }
    same(&v, &m, id!());
    same_ends(&v, &m, id!());
    if keep == 2 {
        any_read(&v, &m, id!());
    }
    if let Some(k) = k {
        same(&k, &mk, id!());
    }
    cover(1);
}

/// C04: an insertion undone by a removal and the other way round, with other places in between.
fn h04_insert_remove() {
    let (mut v, mut m) = subject();
    let at = conc(any_in(0, m.n));
    v.insert(at, 1);
    m.insert(at, 1);
    let b = conc(any_in(0, m.n - 1));
    ck!(v.remove(b) == Some(m.remove(b)));
    same(&v, &m, id!());
    cover(1);
}

/// C05: reads at any index whatever.
fn h05_get() {
    let (v, m) = subject();
    let i = any_bits(64) as usize;
    match v.get(i) {
        Some(x) => {
            ck!(i < m.n);
            ck!(*x == m.get(i));
            ck!(v[i] == *x);
            cover(1);
        }
        None => {
            ck!(i >= m.n);
            cover(2);
        }
    }
}

/// C05: writes of any value at any index, in either of the ways, read back at any other index.
fn h05_write() {
    let (mut v, m) = subject();
    let keep = choose(2);
    let k = if keep == 1 { Some(v.clone()) } else { None };
    let i = any_bits(64) as usize;
    let x = any_bits(64);
    let how = choose(4);
    if i < m.n {
        match how {
            0 => *v.get_mut(i).unwrap() = x,
            1 => v[i] = x,
            2 => *v.get_mut_guarded(i).unwrap() = x,
            _ => {
                assume(i == 0 || i == m.n - 1);
                if i == 0 {
                    *v.front_mut().unwrap() = x
                } else {
                    *v.back_mut().unwrap() = x
                }
            }
        }
        let j = any_in(0, m.n - 1);
        let want = if i == j { x } else { m.get(j) };
        ck!(is(v.get(j), want));
        if let Some(k) = &k {
            ck!(is(k.get(j), m.get(j)));
        }
        ck!(v.len() == m.n);
        ck!(v.get(m.n).is_none());
        cover(1);
    } else {
        ck!(v.get_mut(i).is_none());
        ck!(v.get_mut_guarded(i).is_none());
        if m.n == 0 {
            ck!(v.front_mut().is_none() && v.back_mut().is_none());
        }
        same(&v, &m, id!());
        cover(2);
    }
}

/// C05: several writes at different places of one vector. Parameter 3: how many.
fn h05_writes() {
    let (mut v, mut m) = subject();
    let k = v.clone();
    let mk = m.clone();
    assume(m.n > 0);
    let mut r = 0;
    while r < param(3) {
        let i = any_in(0, m.n - 1);
        v[i] = r as u64;
        m.set(conc(i), r as u64);
        r += 1;
    }
    same(&v, &m, id!());
    same(&k, &mk, id!());
    cover(1);
}

}
