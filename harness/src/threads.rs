//! Two threads at once. Parameters: 0 kind, 1 smallest size, 2 largest size, 3 preemptions, and on
//! as documented. What each thread does is chosen before they start.
use crate::model::{M, W};
use crate::sym::*;

const MODULE: u32 = 7;
type T = Box<u64>;

fn x(n: usize) -> T {
    Box::new(n as u64)
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(&mut self) -> &mut T {
        &mut self.0
    }
}
struct Probe<T>(std::marker::PhantomData<T>);
trait Sendable {
    fn sendable(&self) -> bool {
        true
    }
}
impl<T: Send> Sendable for Probe<T> {}
trait Unsendable {
    fn sendable(&self) -> bool {
        false
    }
}
impl<T> Unsendable for &Probe<T> {}
/// May a value of the type be sent to another thread?
macro_rules! send { ($t:ty) => { (&Probe::<$t>(std::marker::PhantomData)).sendable() }; }

macro_rules! build { ($Vec:ident, $kind:expr, $n:expr) => {{
    let (kind, n): (usize, usize) = ($kind, $n);
    let mut m = M::new();
    let mut v: $Vec<T> = $Vec::new();
    match kind {
        0 => for i in 0..n {
            v.push_back(x(i));
            m.push_back(i as u64);
        },
        1 => for i in 0..n {
            v.push_front(x(i));
            m.push_front(i as u64);
        },
        2 => {
            // pieces
            let mut i = 0;
            while i < n {
                let mut p = $Vec::new();
                while p.len() < W / 2 + 1 && i < n {
                    p.push_back(x(i));
                    m.push_back(i as u64);
                    i += 1;
                }
                v.append(p);
            }
        }
        3 => {
            // its own nodes twice
            for i in 0..n / 2 {
                v.push_back(x(i));
                m.push_back(i as u64);
            }
            v.append(v.clone());
            let t = m.clone();
            m.append(&t);
        }
        4 => {
            // cut out of a larger one
            for i in 0..n + 2 * W {
                v.push_back(x(i));
            }
            v.slice_from_start(n + W);
            v.slice_to_end(W);
            for i in W..n + W {
                m.push_back(i as u64);
            }
        }
        _ => {
            v = $Vec::constant_vec_of_length(x(7), n);
            m = M::constant(7, n);
        }
    }
    (v, m)
}}; }

macro_rules! same { ($v:expr, $m:expr) => {{
    let (v, m) = (&$v, &$m);
    ck!(v.len() == m.n);
    let mut i = 0;
    while i < m.n {
        ck!(match v.get(i) { Some(y) => **y == m.get(i), None => false });
        i += 1;
    }
}}; }

/// What one thread does to a part of a mutable focus: writes some or all of it.
macro_rules! part { ($a:ident, $m:ident, $lo:expr, $hi:expr, $how:expr, $base:expr) => {{
    let (lo, hi, how, base): (usize, usize, usize, usize) = ($lo, $hi, $how, $base);
    ck!($a.len() == hi - lo);
    match how {
        // all, forwards
        0 => {
            let mut i = lo;
            while i < hi {
                ck!(**$a.index(i - lo) == $m.get(i));
                *$a.index(i - lo) = x(base + i);
                i += 1;
            }
        }
        // only the ends
        1 => {
            if lo < hi {
                *$a.index(hi - lo - 1) = x(base + hi - 1);
                *$a.index(0) = x(base + lo);
            }
        }
        // split again
        2 => {
            let k = (hi - lo) / 2;
            let (mut b, mut c) = $a.split_at(k);
            if k > 0 {
                *b.index(k - 1) = x(base + lo + k - 1);
            }
            if lo + k < hi {
                *c.index(0) = x(base + lo + k);
            }
        }
        // dropped unused
        _ => {}
    }
}}; }
fn written(m: &mut M, lo: usize, hi: usize, how: usize, base: usize) {
    match how {
        0 => {
            for i in lo..hi {
                m.set(i, (base + i) as u64);
            }
        }
        1 => {
            if lo < hi {
                m.set(lo, (base + lo) as u64);
                m.set(hi - 1, (base + hi - 1) as u64);
            }
        }
        2 => {
            let k = (hi - lo) / 2;
            if k > 0 {
                m.set(lo + k - 1, (base + lo + k - 1) as u64);
            }
            if lo + k < hi {
                m.set(lo + k, (base + lo + k) as u64);
            }
        }
        _ => {}
    }
}

macro_rules! parts { ($Vec:ident) => {{
    let before = live();
    {
        let n = choose_in(param(1), param(2));
        let (mut v, mut m) = build!($Vec, param(0), n);
        let n = m.n;
        let k = if param(4) == 1 { Some(v.clone()) } else { None };
        let mk = m.clone();
        let at = conc(any_in(0, n));
        let (h1, h2) = (choose(4), choose(3));
        {
            let mm = &m;
            let mut f = v.focus_mut();
            if choose(2) == 1 && n > 0 {
                // a focus that has been somewhere
                ck!(f.get(n / 2).is_some());
            }
            let (mut a, mut b) = f.split_at(at);
            let r = threads(
                move || {
                    part!(a, mm, 0, at, h1, 1000);
                },
                move || {
                    part!(b, mm, at, n, h2, 2000);
                },
                param(3),
            );
            ck!(r == (false, false));
        }
        written(&mut m, 0, at, h1, 1000);
        written(&mut m, at, n, h2, 2000);
        same!(v, m);
        if let Some(k) = k {
            same!(k, mk);
        }
        cover(1);
    }
    ck!(live() == before);
}}; }

type A = librrb::ThreadSafeVector<T>;

/// The operations of a thread, on its own vector, and another shared with the other thread.
const OPS: usize = 12;
fn act(op: usize, at: usize, v: &mut A, m: &mut M, o: &A, mo: &M, y: usize) {
    match op {
        0 => {
            v.push_back(x(y));
            m.push_back(y as u64);
        }
        1 => {
            ck!(v.pop_front().map(|z| *z) == m.pop_front());
        }
        2 => {
            v.insert(at, x(y));
            m.insert(at, y as u64);
        }
        3 => {
            if at < m.n {
                let z = m.remove(at);
                ck!(v.remove(at).map(|z| *z) == Some(z));
            }
        }
        4 => {
            let t = v.split_off(at);
            let mt = m.split_off(at);
            same!(t, mt);
        }
        5 => {
            v.append(o.clone());
            m.append(mo);
        }
        6 => {
            if at < m.n {
                v[at] = x(y);
                m.set(at, y as u64);
            }
        }
        7 => {
            let mut i = 0;
            for z in v.iter_mut() {
                if i >= at {
                    *z = x(y);
                    m.set(i, y as u64);
                }
                i += 1;
            }
        }
        8 => {
            // let go of
            *v = A::new();
            *m = M::new();
        }
        9 => {
            v.reverse_range(at..);
            let n = m.n;
            m.reverse(at, n);
        }
        10 => {
            // consumed
            let mut it = std::mem::replace(v, A::new()).into_iter();
            let mut i = 0;
            while i < at {
                ck!(it.next().map(|z| *z) == m.pop_front());
                i += 1;
            }
            *v = it.collect();
        }
        _ => {
            // read, while the other may read or write its own
            same!(*o, *mo);
            let mut s = 0;
            for z in v.iter() {
                s += **z;
            }
            let mut e = 0;
            for i in 0..m.n {
                e += m.get(i);
            }
            ck!(s == e);
            *v = o.clone();
            *m = mo.clone();
        }
    }
}

const READS: usize = 6;
fn read(how: usize, at: usize, v: &A, m: &M) {
    match how {
        0 => ck!(v.get(at).map(|z| **z) == if at < m.n { Some(m.get(at)) } else { None }),
        1 => {
            let mut it = v.iter();
            let mut i = 0;
            while i < at {
                ck!(it.next().map(|z| **z) == Some(m.get(i)));
                i += 1;
            }
            let mut j = m.n;
            while j > at {
                j -= 1;
                ck!(it.next_back().map(|z| **z) == Some(m.get(j)));
            }
            ck!(it.next().is_none());
        }
        2 => {
            let f = v.focus();
            if at == m.n {
                return;
            }
            let (mut a, mut b) = f.split_at(at);
            if at > 0 {
                ck!(**a.index(at - 1) == m.get(at - 1));
                ck!(**a.index(0) == m.get(0));
            }
            if at < m.n {
                ck!(**b.index(m.n - 1 - at) == m.get(m.n - 1));
                ck!(**b.index(0) == m.get(at));
            }
        }
        3 => ck!(*v == *v),
        4 => {
            // changes a clone
            let mut w = v.clone();
            let mut mw = m.clone();
            w.push_back(x(5000));
            mw.push_back(5000);
            if at < m.n {
                w[at] = x(5001);
                mw.set(at, 5001);
            }
            same!(w, mw);
        }
        _ => {
            // part of a clone
            let mut w = v.clone();
            let mut mw = m.clone();
            let t = w.split_off(at);
            let mt = mw.split_off(at);
            drop(w);
            same!(t, mt);
        }
    }
}

entries! {

/// C23: the parts of a split mutable focus, each used and dropped by a thread of its own. Parameter
/// 4: whether a clone of the vector is held.
fn h23_parts() {
    use librrb::Vector;
    parts!(Vector)
}

/// C23: the same where one node is at several places of the vector.
fn h23_parts_shared() {
    use librrb::Vector;
    parts!(Vector)
}

/// C23: the same of a thread-safe vector.
fn h23_parts_ts() {
    use librrb::ThreadSafeVector;
    parts!(ThreadSafeVector)
}

/// C23: two clones of a thread-safe vector, each changed by a thread of its own, which also read a
/// vector that both can see. Parameters 4 and 5: the operation of each plus one, or 0 for any.
fn h23_clones() {
    use librrb::ThreadSafeVector;
    let before = live();
    {
        let n = choose_in(param(1), param(2));
        let (mut v, mut m) = build!(ThreadSafeVector, param(0), n);
        let n = m.n;
        let (o, mo) = build!(ThreadSafeVector, 0, W + 1);
        let (mut w, mut mw) = (v.clone(), m.clone());
        let a = if param(4) > 0 { param(4) - 1 } else { choose(OPS) };
        let b = if param(5) > 0 { param(5) - 1 } else { choose(OPS) };
        let at = [0, n / 2, n][choose(3)];
        let bt = if param(6) > 0 { n / 3 } else { [0, n / 2, n][choose(3)] };
        {
            let (pv, pm, pw, pmw, po, pmo) = (&mut v, &mut m, &mut w, &mut mw, &o, &mo);
            let r = threads(move || act(a, at, pv, pm, po, pmo, 1000), move || act(b, bt, pw, pmw, po, pmo, 2000), param(3));
            ck!(r == (false, false));
        }
        same!(v, m);
        same!(w, mw);
        same!(o, mo);
        cover(1);
    }
    ck!(live() == before);
}

/// C23: two threads that read one thread-safe vector, in ways of their own; one may change a clone.
/// Parameters 4 and 5: the way of each plus one, or 0 for any.
fn h23_read() {
    use librrb::ThreadSafeVector;
    let before = live();
    {
        let n = choose_in(param(1), param(2));
        let (v, m) = build!(ThreadSafeVector, param(0), n);
        let a = if param(4) > 0 { param(4) - 1 } else { choose(READS) };
        let b = if param(5) > 0 { param(5) - 1 } else { choose(READS) };
        let at = choose_in(0, m.n);
        {
            let (pv, pm) = (&v, &m);
            let r = threads(move || read(a, at, pv, pm), move || read(b, at / 2, pv, pm), param(3));
            ck!(r == (false, false));
        }
        same!(v, m);
        cover(1);
    }
    ck!(live() == before);
}

/// C23: what may be sent to another thread, or shared with it, does not race with a clone kept here,
/// even if the elements may be sent but not shared; and what such threads rely on may be sent.
/// Parameter 4: what is sent.
fn h23_sendable() {
    use librrb::{ThreadSafeFocus, ThreadSafeFocusMut, ThreadSafeIter, ThreadSafeIterMut, ThreadSafeVector};
    use std::cell::Cell;
    type C = ThreadSafeVector<Cell<u64>>;
    ck!(send!(ThreadSafeVector<u64>) && send!(&'static ThreadSafeVector<u64>) && send!(ThreadSafeFocusMut<'static, u64>));
    ck!(send!(ThreadSafeFocus<'static, u64>) && send!(ThreadSafeIter<'static, u64>) && send!(ThreadSafeIterMut<'static, u64>));
    ck!(send!(ThreadSafeFocusMut<'static, Box<u64>>) && send!(ThreadSafeVector<Box<u64>>));
    let n = choose_in(param(1), param(2));
    let mut v: C = (0..n as u64).map(Cell::new).collect();
    let w = v.clone();
    let i = choose_in(0, n - 1);
    let mut pw = Force(&w);
    let theirs = move || pw.get().get(i).unwrap().set(2000);
    let mut r = (false, false);
    match param(4) {
        0 if send!(C) => {
            let mut pv = Force(&mut v);
            r = threads(move || pv.get().get_mut(i).unwrap().set(1000), theirs, param(3));
        }
        1 if send!(ThreadSafeFocusMut<'static, Cell<u64>>) => {
            let mut f = Force(v.focus_mut());
            r = threads(move || f.get().get(i).unwrap().set(1000), theirs, param(3));
        }
        2 if send!(ThreadSafeIterMut<'static, Cell<u64>>) => {
            let mut f = Force(v.iter_mut());
            r = threads(move || f.get().nth(i).unwrap().set(1000), theirs, param(3));
        }
        3 if send!(ThreadSafeFocus<'static, Cell<u64>>) => {
            let mut f = Force(v.focus());
            r = threads(move || f.get().get(i).unwrap().set(1000), theirs, param(3));
        }
        4 if send!(ThreadSafeIter<'static, Cell<u64>>) => {
            let mut f = Force(v.iter());
            r = threads(move || f.get().nth(i).unwrap().set(1000), theirs, param(3));
        }
        5 if send!(&'static C) => {
            let mut f = Force(&v);
            r = threads(move || f.get().get(i).unwrap().set(1000), theirs, param(3));
        }
        6 if send!(&'static ThreadSafeFocusMut<'static, Cell<u64>>) => {
            let f = v.focus_mut();
            let mut pf = Force(&f);
            r = threads(move || ck!(pf.get().len() == n), theirs, param(3));
        }
        _ => {}
    }
    ck!(r == (false, false));
    cover(1);
}

}
