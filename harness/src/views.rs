//! Iterators and foci against the model.
//! Parameters: 0 kind, 1 smallest size, 2 largest size, 3 and on as documented.
use crate::model::*;
use crate::sym::*;
use librrb::{Focus, RegularFocus as F, RegularFocusMut as FM};
const MODULE: u32 = 2;

fn subject() -> (V, M) {
    let n = choose_in(param(1), param(2));
    shape(param(0), n, 1000)
}

/// The next of a double-ended walk: which side the k-th step of pattern p takes.
fn side(p: usize, k: usize) -> usize {
    match p {
        0 => 0,
        1 => 1,
        2 => k & 1,
        3 => (k / (W + 1)) & 1,
        _ => choose(2),
    }
}

/// Walks an iterator (any of the three kinds) to its end and a little past it.
macro_rules! walk {
    ($it:expr, $m:expr, $deref:expr, $see:expr) => {{
        let mut it = $it;
        let m = &$m;
        let pat = choose(param(3));
        let (mut lo, mut hi) = (0, m.n);
        let mut k = 0;
        while lo < hi {
            ck!(it.len() == hi - lo);
            ck!(it.size_hint() == (hi - lo, Some(hi - lo)));
            let s = side(pat, k);
            let (got, at) = if s == 0 { (it.next(), lo) } else { (it.next_back(), hi - 1) };
            match got {
                Some(x) => {
                    ck!($deref(&x) == m.get(at));
                    $see(x, at);
                }
                None => ck!(false),
            }
            if s == 0 {
                lo += 1
            } else {
                hi -= 1
            }
            k += 1;
        }
        let mut r = 0;
        while r < 3 {
            ck!(it.len() == 0);
            ck!(it.size_hint() == (0, Some(0)));
            ck!(if r & 1 == 0 { it.next().is_none() } else { it.next_back().is_none() });
            r += 1;
        }
        cover(1);
    }};
}

/// The index of a walk over positions: symbolic, made concrete.
fn at(n: usize) -> usize {
    conc(any_in(0, n))
}

fn same_focus(f: &mut F<u64>, m: &M, id: u32) {
    check(f.len() == m.n, id);
    check(f.is_empty() == (m.n == 0), id);
    let mut i = 0;
    while i < m.n {
        check(is(f.get(i), m.get(i)), id);
        i += 1;
    }
    check(f.get(m.n).is_none(), id);
    while i > 0 {
        i -= 1;
        check(*f.index(i) == m.get(i), id);
    }
}
fn is_mut(o: Option<&mut u64>, x: u64) -> bool {
    match o {
        Some(y) => *y == x,
        None => false,
    }
}
fn same_focus_mut(f: &mut FM<u64>, m: &M, id: u32) {
    check(f.len() == m.n, id);
    check(f.is_empty() == (m.n == 0), id);
    let mut i = 0;
    while i < m.n {
        check(is_mut(f.get(i), m.get(i)), id);
        i += 1;
    }
    check(f.get(m.n).is_none(), id);
    while i > 0 {
        i -= 1;
        check(*f.index(i) == m.get(i), id);
    }
}

/// Writes through a part of a split focus, recursively split further; lo..hi is the part's place.
fn carve(f: &mut FM<u64>, m: &mut M, lo: usize, hi: usize, depth: usize) {
    check(f.len() == hi - lo, id!());
    if depth == 0 {
        let mut i = lo;
        while i < hi {
            match f.get(i - lo) {
                Some(x) => {
                    ck!(*x == m.get(i));
                    *x += 100_000;
                    m.set(i, m.get(i) + 100_000);
                }
                None => ck!(false),
            }
            i += 1;
        }
        ck!(f.get(hi - lo).is_none());
        return;
    }
    let k = conc(any_in(0, hi - lo));
    let (mut a, mut b) = f.split_at(k);
    carve(&mut a, m, lo, lo + k, depth - 1);
    carve(&mut b, m, lo + k, hi, depth - 1);
}

entries! {

/// C07: a clone of an iterator, taken anywhere, goes on from there on its own.
fn h07_clone() {
    let (v, m) = subject();
    let (mut a, mut b) = (0, m.n);
    let mut it = v.iter();
    let (i, j) = (at(m.n), at(m.n));
    assume(i + j <= m.n);
    while a < i {
        ck!(it.next().copied() == Some(m.get(a)));
        a += 1;
    }
    while b > m.n - j {
        b -= 1;
        ck!(it.next_back().copied() == Some(m.get(b)));
    }
    let mut c = it.clone();
    let (mut ca, mut cb) = (a, b);
    // one, then the other
    let first = choose(2);
    if first == 0 && a < b {
        ck!(it.next().copied() == Some(m.get(a)));
        a += 1;
    }
    while ca < cb {
        ck!(c.size_hint() == (cb - ca, Some(cb - ca)));
        if (ca + cb) % 2 == 0 {
            ck!(c.next().copied() == Some(m.get(ca)));
            ca += 1;
        } else {
            cb -= 1;
            ck!(c.next_back().copied() == Some(m.get(cb)));
        }
    }
    ck!(c.next().is_none() && c.next_back().is_none());
    while a < b {
        b -= 1;
        ck!(it.next_back().copied() == Some(m.get(b)));
    }
    ck!(it.next().is_none());
    cover(1);
}

/// C07: shared iteration. Parameter 3: how many walk patterns (5 includes every choice of sides).
fn h07_iter() {
    let (v, m) = subject();
    match choose(2) {
        0 => walk!(v.iter(), m, |x: &&u64| **x, |_x: &u64, _at: usize| {}),
        _ => walk!((&v).into_iter(), m, |x: &&u64| **x, |_x: &u64, _at: usize| {}),
    }
    same(&v, &m, id!());
}

/// C07: mutable iteration; what it writes is what the vector then holds, and no clone sees it.
fn h07_iter_mut() {
    let (mut v, m) = subject();
    let keep = choose(2);
    let k = if keep == 1 { Some(v.clone()) } else { None };
    let mut m2 = m.clone();
    {
        let w = &mut m2;
        match choose(2) {
            0 => walk!(v.iter_mut(), m, |x: &&mut u64| **x, |x: &mut u64, at: usize| {
                *x += 7000;
                w.set(at, *x);
            }),
            _ => walk!((&mut v).into_iter(), m, |x: &&mut u64| **x, |x: &mut u64, at: usize| {
                *x = 5;
                w.set(at, 5);
            }),
        }
    }
    same(&v, &m2, id!());
    if let Some(k) = k {
        same(&k, &m, id!());
    }
}

/// C07: consuming iteration.
fn h07_into_iter() {
    let (v, m) = subject();
    let keep = choose(2);
    let k = if keep == 1 { Some(v.clone()) } else { None };
    walk!(v.into_iter(), m, |x: &u64| *x, |_x: u64, _at: usize| {});
    if let Some(k) = k {
        same(&k, &m, id!());
    }
}

/// C07: an iterator left half way, by each of the derived operations of the standard traits.
fn h07_adapters() {
    let (v, m) = subject();
    let k = at(m.n + 1);
    match choose(8) {
        0 => {
            let mut it = v.iter();
            ck!(it.nth(k).copied() == if k < m.n { Some(m.get(k)) } else { None });
            ck!(it.len() == if k < m.n { m.n - k - 1 } else { 0 });
            ck!(it.next().copied() == if k + 1 < m.n { Some(m.get(k + 1)) } else { None });
        }
        1 => {
            let mut it = v.iter();
            ck!(it.nth_back(k).copied() == if k < m.n { Some(m.get(m.n - 1 - k)) } else { None });
            ck!(it.next().copied() == if k + 1 < m.n { Some(m.get(0)) } else { None });
        }
        2 => {
            let mut it = v.iter().rev().skip(k);
            ck!(it.next().copied() == if k < m.n { Some(m.get(m.n - 1 - k)) } else { None });
        }
        3 => {
            ck!(v.iter().count() == m.n);
            ck!(v.iter().last().copied() == if m.n > 0 { Some(m.get(m.n - 1)) } else { None });
        }
        4 => {
            let mut i = 0;
            for (x, y) in v.iter().zip(v.iter().skip(k)) {
                ck!(*x == m.get(i) && *y == m.get(i + k));
                i += 1;
            }
            ck!(i == if k < m.n { m.n - k } else { 0 });
        }
        5 => {
            let w: V = v.into_iter().skip(k).collect();
            same(&w, &m.slice(if k < m.n { k } else { m.n }, m.n), id!());
        }
        6 => {
            let w: V = v.into_iter().rev().take(k).collect();
            let mut r = m.clone();
            r.reverse(0, m.n);
            same(&w, &r.slice(0, if k < m.n { k } else { m.n }), id!());
        }
        _ => {
            let mut it = v.into_iter();
            let mut i = 0;
            while i < k && i < m.n {
                ck!(it.next() == Some(m.get(i)));
                i += 1;
            }
            drop(it);
        }
    }
    cover(1);
}

/// C08: reads through one focus in any order. Parameter 3: how many.
fn h08_reads() {
    let (v, m) = subject();
    let mut f = v.focus();
    ck!(f.len() == m.n && f.is_empty() == (m.n == 0));
    let mut r = 0;
    while r < param(3) {
        let i = any_in(0, m.n + 1);
        match f.get(i) {
            Some(x) => {
                ck!(i < m.n);
                ck!(*x == m.get(i));
            }
            None => ck!(i >= m.n),
        }
        if r > 0 {
            cover(2);
        }
        r += 1;
    }
    cover(1);
}

/// C08: foci of foci: each step reads anywhere, or goes on with a clone, a narrowed focus or a part;
/// those left behind are read too. Parameter 3: how many steps.
fn h08_history() {
    let (v, m) = subject();
    let mut f = v.focus();
    let mut mm = m.clone();
    let mut old: Vec<(F<u64>, M)> = Vec::new();
    let mut r = 0;
    while r < param(3) {
        r += 1;
        match choose(5) {
            0 => {
                let i = at(mm.n);
                ck!(f.get(i).copied() == if i < mm.n { Some(mm.get(i)) } else { None });
            }
            1 => {
                let g = f.clone();
                old.push((std::mem::replace(&mut f, g), mm.clone()));
            }
            2 => old.push((f.clone(), mm.clone())),
            3 => {
                let (a, b) = [(0, mm.n / 2), (mm.n / 3, mm.n), (mm.n / 3, mm.n / 2), (mm.n, mm.n)][choose(4)];
                f.narrow(a..b);
                mm = mm.slice(a, b);
            }
            _ => {
                assume(mm.n > 0);
                let k = [0, mm.n / 2, mm.n - 1][choose(3)];
                let (a, b) = f.split_at(k);
                let (ma, mb) = (mm.slice(0, k), mm.slice(k, mm.n));
                if choose(2) == 0 {
                    old.push((b, mb));
                    f = a;
                    mm = ma;
                } else {
                    old.push((a, ma));
                    f = b;
                    mm = mb;
                }
            }
        }
    }
    if choose(2) == 0 {
        let i = at(mm.n);
        ck!(f.get(i).copied() == if i < mm.n { Some(mm.get(i)) } else { None });
    } else {
        same_focus(&mut f, &mm, id!());
    }
    for (mut g, mg) in old {
        ck!(g.len() == mg.n);
        let i = at(mg.n);
        ck!(g.get(i).copied() == if i < mg.n { Some(mg.get(i)) } else { None });
    }
    cover(1);
}

/// C08: one read at any index whatever, of a focus narrowed anyhow.
fn h08_any_index() {
    let (v, m) = subject();
    let a = at(m.n);
    let b = a + at(m.n - a);
    let mut f = match choose(3) {
        0 => Focus::narrowed_tree(&v, a..b),
        1 => {
            let mut f = v.focus();
            f.narrow(a..b);
            f
        }
        _ => {
            assume(b < m.n || a == 0);
            if b < m.n {
                let (f, _) = v.focus().split_at(b);
                if a < b {
                    f.split_at(a).1
                } else {
                    assume(false);
                    return;
                }
            } else {
                v.focus()
            }
        }
    };
    let i = any_bits(64) as usize;
    match f.get(i) {
        Some(x) => {
            ck!(i < b - a);
            ck!(*x == m.get(a + i));
            cover(1);
        }
        None => ck!(i >= b - a),
    }
}

/// C08: narrowed foci show exactly the range, however the range is written, and narrow further.
fn h08_narrow() {
    let (v, m) = subject();
    let a = at(m.n);
    let b = a + at(m.n - a);
    let mut f = v.focus();
    if choose(2) == 1 && m.n > 0 {
        f.get(m.n - 1);
    }
    match choose(6) {
        0 => f.narrow(a..b),
        1 => {
            assume(a < b);
            f.narrow(a..=b - 1)
        }
        2 => {
            assume(b == m.n);
            f.narrow(a..)
        }
        3 => {
            assume(a == 0);
            f.narrow(..b)
        }
        4 => {
            assume(a > 0);
            f.narrow((std::ops::Bound::Excluded(a - 1), std::ops::Bound::Excluded(b)))
        }
        _ => f = Focus::narrowed_tree(&v, a..b),
    }
    let mm = m.slice(a, b);
    same_focus(&mut f, &mm, id!());
    // and once more, relative to the first
    let c = at(mm.n);
    let d = c + at(mm.n - c);
    let mut g = f.clone();
    g.narrow(c..d);
    same_focus(&mut g, &mm.slice(c, d), id!());
    // an interleaved read of the original
    if mm.n > 0 {
        ck!(*f.index(0) == mm.get(0));
    }
    cover(1);
}

/// C08: split foci show the two parts; also when what is split had been narrowed or split before.
fn h08_split() {
    let (v, m) = subject();
    let a = at(m.n);
    let b = a + at(m.n - a);
    let f = match choose(2) {
        0 => Focus::narrowed_tree(&v, a..b),
        _ => {
            let mut f = v.focus();
            f.narrow(a..b);
            f
        }
    };
    let mm = m.slice(a, b);
    assume(mm.n > 0);
    let k = at(mm.n - 1);
    let (mut l, mut r) = f.split_at(k);
    same_focus(&mut l, &mm.slice(0, k), id!());
    same_focus(&mut r, &mm.slice(k, mm.n), id!());
    let j = at(mm.n - k - 1);
    let (mut rl, mut rr) = r.split_at(j);
    same_focus(&mut rl, &mm.slice(k, k + j), id!());
    same_focus(&mut rr, &mm.slice(k + j, mm.n), id!());
    same(&v, &m, id!());
    cover(1);
}

/// C08: a focus never shows what lies outside its range: a narrowing beyond it is refused.
fn h08_no_widening() {
    let (v, m) = subject();
    let a = at(m.n);
    let b = a + at(m.n - a);
    let mut f = v.focus();
    f.narrow(a..b);
    let c = at(b - a);
    let d = conc(any_in(b - a + 1, m.n + 3));
    match choose(2) {
        0 => ck!(panics(move || {
            f.narrow(c..d);
        })),
        _ => ck!(panics(move || {
            f.split_at(d);
        })),
    }
    same(&v, &m, id!());
    cover(1);
}

/// C09: reads and writes through a mutable focus, in any order. Parameter 3: how many.
fn h09_writes() {
    let (mut v, mut m) = subject();
    let keep = choose(2);
    let k = if keep == 1 { Some(v.clone()) } else { None };
    let mk = m.clone();
    {
        let mut f = v.focus_mut();
        ck!(f.len() == m.n && f.is_empty() == (m.n == 0));
        let mut r = 0;
        while r < param(3) {
            let i = any_in(0, m.n + 1);
            match f.get(i) {
                Some(x) => {
                    ck!(i < m.n);
                    ck!(*x == m.get(i));
                    *x = r as u64;
                    m.set(conc(i), r as u64);
                }
                None => ck!(i >= m.n),
            }
            r += 1;
        }
    }
    same(&v, &m, id!());
    if let Some(k) = k {
        same(&k, &mk, id!());
    }
    cover(1);
}

/// C09: a mutable focus split and split again: the parts show and write exactly their own elements.
/// Parameter 3: how deep.
fn h09_split() {
    let (mut v, mut m) = subject();
    let keep = choose(2);
    let k = if keep == 1 { Some(v.clone()) } else { None };
    let mk = m.clone();
    {
        let n = m.n;
        let mut f = v.focus_mut();
        carve(&mut f, &mut m, 0, n, param(3));
        // the whole is usable again
        same_focus_mut(&mut f, &m, id!());
    }
    same(&v, &m, id!());
    if let Some(k) = k {
        same(&k, &mk, id!());
    }
    cover(1);
}

/// C09: both parts in use at the same time, and read at any index whatever.
fn h09_both() {
    let (mut v, mut m) = subject();
    let k = at(m.n);
    {
        let mut f = v.focus_mut();
        let (mut a, mut b) = f.split_at(k);
        let i = any_bits(64) as usize;
        let j = any_bits(64) as usize;
        let x = a.get(i);
        let y = b.get(j);
        match (x, y) {
            (Some(x), Some(y)) => {
                ck!(i < k && j < m.n - k);
                ck!(*x == m.get(i));
                ck!(*y == m.get(k + j));
                std::mem::swap(x, y);
                m.swap(conc(i), conc(k + j));
                cover(2);
            }
            (x, y) => {
                ck!(x.is_none() || i < k);
                ck!(y.is_none() || j < m.n - k);
                ck!(x.is_some() == (i < k));
                ck!(y.is_some() == (j < m.n - k));
            }
        }
    }
    same(&v, &m, id!());
    cover(1);
}

/// C09: after a mutable focus is gone the vector works as before.
fn h09_after() {
    let (mut v, mut m) = subject();
    let k = at(m.n);
    {
        let mut f = v.focus_mut();
        let (mut a, mut b) = f.split_at(k);
        if k > 0 {
            *a.index(0) = 1;
            m.set(0, 1);
        }
        if k < m.n {
            *b.index(m.n - k - 1) = 2;
            m.set(m.n - 1, 2);
        }
    }
    v.push_back(3);
    m.push_back(3);
    v.push_front(4);
    m.push_front(4);
    same(&v, &m, id!());
    let t = v.split_off(k);
    let mt = m.split_off(k);
    same(&v, &m, id!());
    same(&t, &mt, id!());
    cover(1);
}

/// C09: positions beyond a mutable focus are refused.
fn h09_range() {
    let (mut v, m) = subject();
    let d = conc(any_in(m.n + 1, m.n + 3));
    let how = choose(2);
    let r = &mut v;
    ck!(panics(move || {
        let mut f = r.focus_mut();
        if how == 0 {
            f.split_at(d);
        } else {
            f.index(d - 1);
        }
    }));
    same(&v, &m, id!());
    cover(1);
}

}
