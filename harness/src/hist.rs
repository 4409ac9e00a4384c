//! Histories of operations of every kind, over elements that track their own life.
//! Parameters: 0 kind, 1 smallest size, 2 largest size, 3 and on as documented.
use crate::model::{height_for, M, W};
use crate::sym::*;
use crate::tracked::{self, T};

/// How many operations there are.
pub const OPS: usize = 24;

/// A position up to n; parameter 7 thins them: only those near the ends and multiples of it.
fn at(n: usize) -> usize {
    let i = any_in(0, n);
    let p = param(7);
    if p > 1 {
        assume((i <= 2) | (i + 2 >= n) | (i % p == 0));
    }
    conc(i)
}

macro_rules! over { ($name:ident, $vec:ident, $module:expr, $prefix:ident, $h1:ident, $h2:ident, $h3:ident, $h4:ident, $h5:ident, $h6:ident, $h7:ident, $h8:ident, $h9:ident) => {
pub mod $name {
use super::*;
use librrb::$vec as Vector;
const MODULE: u32 = $module;
pub type V = Vector<T>;

pub fn same(v: &V, m: &M, id: u32) {
    check(v.len() == m.n, id);
    let mut i = 0;
    while i < m.n {
        match v.get(i) {
            Some(x) => check(x.id() as u64 == m.get(i), id),
            None => check(false, id),
        }
        i += 1;
    }
    check(v.get(m.n).is_none(), id);
}
fn is(x: Option<T>, y: Option<u64>) -> bool {
    match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => x.id() as u64 == y,
        _ => false,
    }
}
/// As model::shape, in fewer ways.
pub fn shape(kind: usize, n: usize, base: usize) -> (V, M) {
    let m = M::iota(base as u64, n);
    let mut v = V::new();
    match kind {
        0 => {
            for i in 0..n {
                v.push_back(T::new(base + i));
            }
        }
        1 => {
            for i in (0..n).rev() {
                v.push_front(T::new(base + i));
            }
        }
        2 | 3 => {
            // pieces
            let c = if kind == 2 { W / 2 + 1 } else { W + 1 };
            let mut i = 0;
            while i < n {
                let mut p = V::new();
                while p.len() < c && i < n {
                    p.push_back(T::new(base + i));
                    i += 1;
                }
                v.append(p);
            }
        }
        4 => {
            // cut out of a larger one
            for i in 0..n + 2 * W {
                v.push_back(T::new(base + i - if i < W { 0 } else if i < W + n { W } else { n + W }));
            }
            v.slice_from_start(n + W);
            v.slice_to_end(W);
        }
        _ => {
            // small to large
            for i in 0..n / 6 {
                v.push_front(T::new(base + n / 6 - 1 - i));
            }
            let mut o = V::new();
            for i in n / 6..n {
                o.push_back(T::new(base + i));
            }
            v.append(o);
        }
    }
    (v, m)
}
/// Performs the operation on the vector and on the model; `o` is another vector to use.
pub fn step(op: usize, v: &mut V, m: &mut M, o: &V, mo: &M, fresh: &mut usize) {
    *fresh += 1;
    let x = *fresh;
    match op {
        0 => {
            v.push_back(T::new(x));
            m.push_back(x as u64);
        }
        1 => {
            v.push_front(T::new(x));
            m.push_front(x as u64);
        }
        2 => ck!(is(v.pop_back(), m.pop_back())),
        3 => ck!(is(v.pop_front(), m.pop_front())),
        4 => {
            let i = at(m.n);
            v.insert(i, T::new(x));
            m.insert(i, x as u64);
        }
        5 => {
            if m.n > 0 {
                let i = at(m.n - 1);
                let y = m.remove(i);
                ck!(is(v.remove(i), Some(y)));
            } else {
                ck!(v.remove(0).is_none());
            }
        }
        6 => {
            let i = at(m.n);
            let t = v.split_off(i);
            let mt = m.split_off(i);
            same(&t, &mt, id!());
        }
        7 => {
            let i = at(m.n);
            let t = v.split_off(i);
            let mt = m.split_off(i);
            same(v, m, id!());
            *v = t;
            *m = mt;
        }
        8 => {
            v.append(o.clone());
            m.append(mo);
        }
        9 => {
            v.prepend(o.clone());
            let mut t = mo.clone();
            t.append(m);
            *m = t;
        }
        10 => {
            v.append(v.clone());
            let t = m.clone();
            m.append(&t);
        }
        11 => {
            if m.n > 0 {
                let i = at(m.n - 1);
                v[i] = T::new(x);
                m.set(i, x as u64);
            }
        }
        12 => {
            // rotation
            let i = at(m.n);
            let mut t = v.split_off(i);
            t.append(std::mem::replace(v, V::new()));
            *v = t;
            let mut mt = m.split_off(i);
            mt.append(m);
            *m = mt;
        }
        13 => {
            let i = at(m.n);
            v.reverse_range(i..);
            let n = m.n;
            m.reverse(i, n);
        }
        14 => {
            let i = at(m.n);
            v.sort_range(..i);
            m.sort(0, i);
        }
        15 => {
            let n = m.n;
            let i = at(n);
            let mut f = v.focus_mut();
            let (mut a, mut b) = f.split_at(i);
            if i > 0 {
                *a.index(i / 2) = T::new(x);
                m.set(i / 2, x as u64);
            }
            if i < n {
                let j = b.len() / 2;
                *b.index(j) = T::new(x + 1);
                m.set(i + j, x as u64 + 1);
                *fresh += 1;
            }
        }
        16 => {
            let mut k = 0;
            for y in v.iter_mut() {
                if k % 3 == 0 {
                    *y = T::new(x);
                    m.set(k, x as u64);
                }
                k += 1;
            }
        }
        17 => {
            let i = at(m.n);
            let out = v.extract_slice(i / 2..i);
            let mo = m.slice(i / 2, i);
            same(&out, &mo, id!());
            let t = m.slice(i, m.n);
            m.split_off(i / 2);
            m.append(&t);
        }
        18 => {
            // consumed part of the way
            let i = at(m.n);
            let mut it = std::mem::replace(v, V::new()).into_iter();
            let mut k = 0;
            while k < i {
                ck!(is(if k % 2 == 0 { it.next() } else { it.next_back() }, if k % 2 == 0 { m.pop_front() } else { m.pop_back() }));
                k += 1;
            }
            *v = it.collect();
        }
        19 => {
            *v = v.clone();
        }
        20 => {
            let i = at(m.n);
            v.slice_from_start(i);
            m.split_off(i);
            v.slice_to_end(i / 2);
            *m = m.split_off(if i / 2 == 0 { 0 } else { i / 2 });
        }
        21 => {
            if m.n > 0 {
                *v.front_mut().unwrap() = T::new(x);
                *v.back_mut().unwrap() = T::new(x + 1);
                m.set(0, x as u64);
                let n = m.n;
                m.set(n - 1, x as u64 + 1);
                *fresh += 1;
            }
        }
        22 => {
            // a focus that goes to one place and then to another
            if m.n > 0 {
                let i = at(m.n - 1);
                let j = (i + m.n / 2) % m.n;
                let mut f = v.focus_mut();
                *f.index(i) = T::new(x);
                *f.get(j).unwrap() = T::new(x + 1);
                m.set(i, x as u64);
                m.set(j, x as u64 + 1);
                *fresh += 1;
            }
        }
        _ => {
            // sorted together with a copy of itself
            let i = at(m.n);
            let mut w = v.clone();
            v.dual_sort_range(i.., &mut w);
            let n = m.n;
            m.sort(i, n);
            same(&w, m, id!());
        }
    }
}
/// The operations allowed: parameter 5, or all, one of `OPS`.
fn some_op(r: usize) -> usize {
    if r == 0 && param(5) > 0 {
        param(5) - 1
    } else {
        choose(OPS)
    }
}

entries! {

/// C19: every history of so many operations agrees with the sequence model, before and after which
/// every element is alive as often as it is held, and none at the end. Parameters: 3 how many
/// operations, 4 whether a clone is taken before each, 5 the first operation plus one, 6 whether
/// the tree's own invariants are checked, 7 thins positions.
fn $h1() {
    let before = live();
    {
        let n = choose_in(param(1), param(2));
        let (mut v, mut m) = shape(param(0), n, 100);
        let (o, mo) = shape(3, W + 2, 900 + n);
        let mut fresh = 2000 + n;
        let mut clones: Vec<(V, M)> = Vec::new();
        let mut r = 0;
        while r < param(3) {
            if param(4) == 1 || (param(4) == 2 && choose(2) == 1) {
                clones.push((v.clone(), m.clone()));
            }
            let op = some_op(r);
            step(op, &mut v, &mut m, &o, &mo, &mut fresh);
            if param(6) == 1 {
                ck!(v.verif_assert_invariants());
            }
            r += 1;
        }
        same(&v, &m, id!());
        same(&o, &mo, id!());
        for (k, mk) in clones.iter() {
            same(k, mk, id!());
        }
        cover(1);
    }
    tracked::all_gone(id!());
    ck!(live() == before);
}

/// C15: every element handed over or dropped exactly once, when the vector is dropped after one
/// operation of each kind, in whatever order with its clone. Parameters as before.
fn $h2() {
    let before = live();
    {
        let n = choose_in(param(1), param(2));
        let (mut v, mut m) = shape(param(0), n, 100);
        let (o, mo) = shape(2, W + 2, 900 + n);
        let mut fresh = 2000 + n;
        let how = choose(3);
        let k = if how > 0 { Some(v.clone()) } else { None };
        let op = some_op(0);
        step(op, &mut v, &mut m, &o, &mo, &mut fresh);
        if how == 1 {
            drop(k);
            same(&v, &m, id!());
            // nothing but what is held is alive
            let mut i = 0;
            while i < m.n {
                ck!(tracked::alive(m.get(i) as usize) > 0);
                i += 1;
            }
        } else {
            drop(v);
            drop(o);
            if let Some(k) = k {
                ck!(k.len() == n);
                let mut i = 0;
                while i < n {
                    ck!(k[i].id() == 100 + i);
                    i += 1;
                }
                ck!(tracked::total() == n as i64);
            } else {
                tracked::all_gone(id!());
            }
        }
        cover(1);
    }
    tracked::all_gone(id!());
    ck!(live() == before);
}

/// C15: a focus or an iterator that is forgotten instead of dropped leaves nothing to be used or
/// dropped twice: what the vectors still hold is alive, a clone has lost nothing. Parameters as before.
fn $h9() {
    let n = choose_in(param(1), param(2));
    let (mut v, _) = shape(param(0), n, 100);
    let k = if choose(2) == 1 { Some(v.clone()) } else { None };
    match choose(3) {
        0 => {
            let mut f = v.focus_mut();
            let i = at(n);
            if i < n {
                ck!(f.get(i).map(|x| x.id()) == Some(100 + i));
            }
            let (mut a, mut b) = f.split_at(i);
            if i > 0 {
                a.get(i / 2).unwrap().id();
            }
            if i < n {
                b.get(0).unwrap().id();
            }
            match choose(3) {
                0 => {
                    std::mem::forget(a);
                    drop(b);
                }
                1 => {
                    drop(a);
                    std::mem::forget(b);
                }
                _ => {
                    std::mem::forget(a);
                    std::mem::forget(b);
                }
            }
            if choose(2) == 1 {
                std::mem::forget(f);
            }
        }
        1 => {
            let mut it = v.iter_mut();
            let taken = at(n);
            let mut i = 0;
            while i < taken {
                ck!(it.next().map(|x| x.id()) == Some(100 + i));
                i += 1;
            }
            if taken < n {
                it.next_back().unwrap().id();
            }
            std::mem::forget(it);
        }
        _ => {
            let old = std::mem::replace(&mut v, V::new());
            let mut it = old.into_iter();
            let taken = at(n);
            let mut i = 0;
            while i < taken {
                ck!(it.next().map(|x| x.id()) == Some(100 + i));
                i += 1;
            }
            std::mem::forget(it);
        }
    }
    v.push_back(T::new(2000));
    if let Some(k) = k {
        ck!(k.len() == n);
        let mut i = 0;
        while i < n {
            ck!(k[i].id() == 100 + i);
            i += 1;
        }
    }
    let mut i = 0;
    while i < v.len() {
        v[i].id();
        i += 1;
    }
    while let Some(x) = v.pop_front() {
        x.id();
    }
    cover(1);
}

/// C16: after every history the tree's own invariants hold and its height is logarithmic.
/// Parameters as in the first.
fn $h3() {
    let n = choose_in(param(1), param(2));
    let (mut v, mut m) = shape(param(0), n, 100);
    ck!(v.verif_assert_invariants());
    let (o, mo) = shape(3, W + 2, 900 + n);
    let mut fresh = 2000 + n;
    let k = if param(4) == 1 { Some(v.clone()) } else { None };
    let mut r = 0;
    while r < param(3) {
        let op = some_op(r);
        step(op, &mut v, &mut m, &o, &mo, &mut fresh);
        ck!(v.verif_assert_invariants());
        // concatenations in a row are another matter: see the height entries
        if param(3) == 1 && param(0) != 2 && param(0) != 3 {
            ck!(v.verif_height() <= height_for(v.len()) + 1);
        }
        r += 1;
    }
    same(&v, &m, id!());
    if let Some(k) = k {
        ck!(k.verif_assert_invariants());
    }
    cover(1);
}

/// C16: the height stays logarithmic however many elements come and go one by one, or are cut off.
/// Parameters: 3 how many rounds, 4 most repeats in each.
fn $h7() {
    let n = choose_in(param(1), param(2));
    let (mut v, _) = shape(param(0), n, 100);
    let mut x = 2000 + n;
    let mut r = 0;
    while r < param(3) {
        let op = choose(6);
        let t = conc(any_in(1, param(4)));
        let mut i = 0;
        while i < t {
            x += 1;
            match op {
                0 => v.push_back(T::new(x)),
                1 => v.push_front(T::new(x)),
                2 => {
                    v.pop_back();
                }
                3 => {
                    v.pop_front();
                }
                4 => {
                    let h = v.len() / 2;
                    v.insert(h, T::new(x));
                }
                _ => {
                    let h = v.len() / 2;
                    v.remove(h);
                }
            }
            i += 1;
        }
        ck!(v.verif_assert_invariants());
        ck!(v.verif_height() <= height_for(v.len()) + 2);
        r += 1;
    }
    cover(1);
}

/// C16: the height stays logarithmic however many small vectors are put together. Parameters: 1 and
/// 2 the size of each, 3 how many, 4 whether at the back, at the front or alternately.
fn $h8() {
    let w = choose_in(param(1), param(2));
    let mut v = V::new();
    let mut x = 100;
    let mut r = 0;
    while r < param(3) {
        let mut p = V::new();
        for _ in 0..w {
            p.push_back(T::new(x));
            x += 1;
        }
        if param(4) == 0 || (param(4) == 2 && r % 2 == 0) {
            v.append(p);
        } else {
            v.prepend(p);
        }
        r += 1;
    }
    ck!(v.len() == w * param(3));
    ck!(v.verif_height() <= 2 * height_for(v.len()) + 1);
    cover(1);
}

/// C20: a clone of an element that panics during an operation on a shared vector: the other holder
/// is untouched, and everything can be dropped, once. Parameter 5 the operation plus one.
fn $h4() {
    {
        let n = choose_in(param(1), param(2));
        let (mut v, mut m) = shape(param(0), n, 100);
        let (o, mo) = shape(3, W + 2, 900 + n);
        let (k, mk) = (v.clone(), m.clone());
        let mut fresh = 2000 + n;
        let op = some_op(0);
        let at = 1 + choose(param(3));
        tracked::panic_at(at as u64);
        let (pv, pm, pf) = (&mut v, &mut m, &mut fresh);
        let (po, pmo) = (&o, &mo);
        let bad = panics(move || step(op, pv, pm, po, pmo, pf));
        tracked::panic_at(0);
        if bad {
            cover(2);
            // what can still be read is alive
            let pv = &v;
            panics(move || {
                let mut i = 0;
                while i < pv.len() {
                    if let Some(x) = pv.get(i) {
                        x.id();
                    }
                    i += 1;
                }
            });
        } else {
            same(&v, &m, id!());
        }
        same(&k, &mk, id!());
        same(&o, &mo, id!());
        cover(1);
    }
    ck!(tracked::total() >= 0);
}

/// C22: no element is copied by a clone, nor by any operation on a vector that is not shared; an
/// operation on a shared one copies no more than the leaves on the paths it changes.
fn $h5() {
    let n = choose_in(param(1), param(2));
    let (mut v, mut m) = shape(param(0), n, 100);
    ck!(tracked::clones() == 0);
    let a0 = live();
    let k = v.clone();
    ck!(tracked::clones() == 0);
    ck!(live() <= a0 + 2);
    cover(1);
    let (o, mo) = shape(0, W + 2, 900 + n);
    let mut fresh = 2000 + n;
    let op = some_op(0);
    if choose(2) == 0 {
        drop(k);
        // operations 8, 9, 10 and 23 use clones of their own
        assume(op != 8 && op != 9 && op != 10 && op != 19 && op != 23);
        step(op, &mut v, &mut m, &o, &mo, &mut fresh);
        ck!(tracked::clones() == 0);
    } else {
        step(op, &mut v, &mut m, &o, &mo, &mut fresh);
        let all = n as u64 + m.n as u64;
        let c = tracked::clones();
        match op {
            // these visit every element, and consume (18) or may write them
            13 | 14 | 16 | 18 => ck!(c <= all),
            23 => ck!(c <= 2 * all),
            19 => ck!(c == 0),
            _ => {
                // two leaves a cut, and those that a concatenation fills up; in taller trees it
                // may pack the leaves beside the seam
                let packed = if n > 2 * W * W { 2 * W * W } else { 0 };
                ck!(c <= (6 * W + packed) as u64);
            }
        }
        cover(2);
    }
    same(&v, &m, id!());
}

/// C20: a comparison that panics during a sort leaves the same elements in the vector.
/// Parameter 3: most calls before the panic.
fn $h6() {
    {
        let n = choose_in(param(1), param(2));
        let (mut v, m) = shape(param(0), n, 100);
        v.reverse();
        let k = v.clone();
        let calls = std::cell::Cell::new(0usize);
        let at = choose(param(3));
        let pv = &mut v;
        let pc = &calls;
        let how = choose(3);
        let (mut c, mc) = shape(1, n, 1000 + n);
        let pcomp = &mut c;
        let bad = panics(move || {
            let f = |x: &T, y: &T| {
                pc.set(pc.get() + 1);
                if pc.get() == at {
                    panic!("compare");
                }
                x.cmp(y)
            };
            match how {
                0 => pv.sort_by(&f),
                1 => pv.dual_sort_by(&f, pcomp),
                _ => {
                    let _ = pv.equal_range_by(&|x: &T| f(x, x));
                }
            }
        });
        if bad {
            cover(2);
        }
        ck!(v.len() == n && c.len() == n);
        let (mut seen, mut seen2) = (M::constant(0, n), M::constant(0, n));
        let mut i = 0;
        while i < n {
            let x = v[i].id() - 100;
            ck!(seen.get(x) == 0);
            seen.set(x, 1);
            let y = c[i].id() - 1000 - n;
            ck!(seen2.get(y) == 0);
            seen2.set(y, 1);
            ck!(k[i].id() as u64 == m.get(n - 1 - i));
            i += 1;
        }
        ck!(mc.n == n);
        cover(1);
    }
    tracked::all_gone(id!());
}

}
}
}}

over!(rc, Vector, 4, h, h19_history, h15_owned, h16_invariants, h20_clone_panic, h22_sharing, h20_compare_panic, h16_steps, h16_concat_height, h15_forgotten);
over!(arc, ThreadSafeVector, 5, hts, h19_history_ts, h15_owned_ts, h16_invariants_ts, h20_clone_panic_ts, h22_sharing_ts, h20_compare_panic_ts, h16_steps_ts, h16_concat_height_ts, h15_forgotten_ts);
