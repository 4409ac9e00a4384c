//! Requests that name positions a vector does not have.
//! Parameters: 0 kind, 1 smallest size, 2 largest size, 3 and on as documented.
use crate::model::*;
use crate::sym::*;
use std::ops::Bound;
const MODULE: u32 = 6;

fn subject() -> (V, M) {
    let n = choose_in(param(1), param(2));
    shape(param(0), n, 1000)
}
/// The vector is what it was, and still works.
fn intact(mut v: V, mut m: M) {
    ck!(v.verif_assert_invariants());
    same(&v, &m, id!());
    same_ends(&v, &m, id!());
    v.push_back(1);
    m.push_back(1);
    v.push_front(2);
    m.push_front(2);
    let h = m.n / 2;
    let t = v.split_off(h);
    let mt = m.split_off(h);
    same(&v, &m, id!());
    same(&t, &mt, id!());
}
/// A bound, and the range of whole positions it and the other make; None where it overflows.
fn bounds(n: usize) -> (Bound<usize>, Bound<usize>, usize, usize) {
    let a = any_bits(64) as usize;
    let b = any_bits(64) as usize;
    let (s, lo) = match choose(3) {
        0 => (Bound::Included(a), a),
        1 => {
            assume(a != usize::MAX);
            (Bound::Excluded(a), a + 1)
        }
        _ => (Bound::Unbounded, 0),
    };
    let (e, hi) = match choose(3) {
        0 => (Bound::Excluded(b), b),
        1 => {
            assume(b != usize::MAX);
            (Bound::Included(b), b + 1)
        }
        _ => (Bound::Unbounded, n),
    };
    (s, e, lo, hi)
}

entries! {

/// C17: one position beyond the end, whatever it is, by every way to name a position.
fn h17_index() {
    let (mut v, m) = subject();
    let i = any_bits(64) as usize;
    assume(i >= m.n);
    match choose(9) {
        0 => ck!(v.get(i).is_none()),
        1 => ck!(v.get_mut(i).is_none()),
        2 => ck!(v.get_mut_guarded(i).is_none()),
        3 => ck!(v.remove(i).is_none()),
        4 => {
            let r = &v;
            ck!(panics(move || {
                let _ = r[i];
            }));
        }
        5 => {
            let r = &mut v;
            ck!(panics(move || r[i] = 5));
        }
        6 => {
            let mut f = v.focus();
            if m.n > 0 && choose(2) == 1 {
                f.index(m.n / 2);
            }
            ck!(f.get(i).is_none());
            let pf = &mut f;
            ck!(panics(move || {
                pf.index(i);
            }));
            ck!(f.len() == m.n);
        }
        7 => {
            let mut f = v.focus_mut();
            if m.n > 0 && choose(2) == 1 {
                f.index(m.n / 2);
            }
            ck!(f.get(i).is_none());
            let pf = &mut f;
            ck!(panics(move || {
                *pf.index(i) = 5;
            }));
            ck!(f.len() == m.n);
        }
        _ => {
            assume(i > m.n);
            let r = &mut v;
            ck!(panics(move || {
                let mut f = r.focus_mut();
                let (mut a, _) = f.split_at(i);
                if a.len() > 0 {
                    *a.index(0) = 5;
                }
            }));
        }
    }
    intact(v, m);
    cover(1);
}

/// C17: a split beyond the end leaves everything on the left; an insertion there loses nothing.
fn h17_split() {
    let (mut v, mut m) = subject();
    let k = v.clone();
    let mk = m.clone();
    let i = any_bits(64) as usize;
    assume(i >= m.n);
    match choose(4) {
        0 => {
            let t = v.split_off(i);
            if m.n > 0 {
                ck!(t.is_empty());
                ck!(t.len() == 0 && t.get(0).is_none());
            }
            let mut all = v;
            all.append(t);
            v = all;
        }
        1 => {
            v.slice_from_start(i);
        }
        2 => {
            v.slice_to_end(i);
            m = M::new();
        }
        _ => {
            let r = &mut v;
            if !panics(move || r.insert(i, 9)) {
                m.push_back(9);
            }
        }
    }
    intact(v, m);
    same(&k, &mk, id!());
    cover(1);
}

/// C17: a range that is not one of the vector's: reversing or sorting it is refused or touches only
/// what is there, and never loses an element; parameter 3 the largest size of the companion.
fn h17_range() {
    let (mut v, m) = subject();
    let (s, e, lo, hi) = bounds(m.n);
    assume((lo > hi) | (hi > m.n));
    let r = (s, e);
    let n = m.n;
    match choose(4) {
        0 => {
            let pv = &mut v;
            ck!(panics(move || pv.reverse_range(r)));
        }
        1 => {
            let pv = &mut v;
            ck!(panics(move || pv.sort_range_by(&|x: &u64, y: &u64| y.cmp(x), r)));
        }
        2 => {
            let (mut c, mc) = shape(1, n, 5000);
            let pv = &mut v;
            let pc = &mut c;
            ck!(panics(move || pv.dual_sort_range_by(&|x: &u64, y: &u64| y.cmp(x), r, pc)));
            intact(c, mc);
        }
        _ => {
            let pv = &mut v;
            if let Some(out) = catch(move || pv.extract_slice(r)) {
                // what there is of it was taken out
                if lo < hi && lo < n {
                    let l = conc(lo);
                    let h = if hi < n { conc(hi) } else { n };
                    same(&out, &m.slice(l, h), id!());
                    let mut rest = m.slice(0, l);
                    rest.append(&m.slice(h, n));
                    intact(v, rest);
                    cover(2);
                } else {
                    // nothing of it is there; the elements are all still somewhere, in order
                    ck!(v.len() + out.len() == n);
                    ck!(out.is_empty());
                    intact(v, m);
                }
                return;
            }
        }
    }
    intact(v, m);
    cover(1);
}

/// C17: a companion that is too short is refused before anything moves; one that is longer keeps
/// its surplus. Parameter 3: its largest size.
fn h17_companion() {
    let n = choose_in(param(1), param(2));
    let m = M::iota(1000, n);
    let mut v = V::new();
    for i in 0..n {
        v.push_front(1000 + i as u64);
    }
    let l = choose_in(0, param(3));
    assume(l != n);
    let (mut c, mc) = shape(param(0), l, 5000);
    let (pv, pc) = (&mut v, &mut c);
    let bad = panics(move || pv.dual_sort(pc));
    if l < n {
        ck!(bad);
        let mut down = m.clone();
        down.reverse(0, n);
        intact(v, down);
        intact(c, mc);
        cover(1);
    } else {
        ck!(!bad);
        same(&v, &m, id!());
        let mut want = mc.clone();
        want.reverse(0, n);
        intact(c, want);
        cover(2);
    }
}

/// C17: what asks for an end of an empty vector gets nothing; every operation works on it.
fn h17_empty() {
    let (mut v, m) = shape(param(0), 0, 1000);
    let n = choose_in(param(1), param(2));
    let mut o = V::new();
    for i in 0..n {
        o.push_back(i as u64);
    }
    ck!(v.is_empty() && v.len() == 0);
    match choose(12) {
        0 => ck!(v.pop_back().is_none() && v.pop_front().is_none()),
        1 => ck!(v.front().is_none() && v.back().is_none() && v.front_mut().is_none() && v.back_mut().is_none()),
        2 => {
            v.reverse();
            v.sort();
        }
        3 => ck!(v.equal_range(&1).is_err()),
        4 => ck!(v.iter().next().is_none() && v.iter_mut().next().is_none() && v.iter().next_back().is_none()),
        5 => ck!(v.clone().into_iter().next().is_none() && v.clone().into_iter().next_back().is_none()),
        6 => {
            let mut c = V::new();
            v.dual_sort(&mut c);
        }
        7 => {
            let mut f = v.focus_mut();
            let (mut a, mut b) = f.split_at(0);
            ck!(a.len() == 0 && b.len() == 0 && a.get(0).is_none() && b.get(0).is_none());
        }
        8 => {
            let mut f = v.focus();
            f.narrow(..);
            ck!(f.get(0).is_none());
            ck!(f.is_empty());
        }
        9 => {
            let e = v.clone();
            v.append(e.clone());
            v.prepend(e);
        }
        10 => {
            ck!(v.extract_slice(..).is_empty());
            ck!(v.split_off(0).is_empty());
        }
        _ => ck!(v == V::new() && v <= o && (n == 0) == (v == o)),
    }
    v.append(o);
    let mut w = m;
    for i in 0..n {
        w.push_back(i as u64);
    }
    intact(v, w);
    cover(1);
}

}
