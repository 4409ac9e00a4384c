//! The interface between the harnesses and what runs them. Under the symbolic executor the `sym_*`
//! functions are intrinsics; in a replay build (`--cfg replay`) they read the values of one
//! counterexample and the harness runs natively against the real code.

#[cfg(not(replay))]
mod raw {
    extern "C" {
        pub fn sym_u64(lo: u64, hi: u64) -> u64;
        pub fn sym_any(bits: u64) -> u64;
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_conc(x: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_catch(f: unsafe extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32;
        pub fn sym_param(k: u64) -> u64;
        pub fn sym_live() -> u64;
        pub fn sym_limit(n: u64);
        pub fn sym_threads(f: unsafe extern "C-unwind" fn(*mut u8), fd: *mut u8, g: unsafe extern "C-unwind" fn(*mut u8), gd: *mut u8, n: u64) -> u64;
    }
}

#[cfg(replay)]
pub mod raw {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub static mut INPUTS: Vec<u64> = Vec::new();
    pub static mut NEXT: usize = 0;
    pub static mut PARAMS: Vec<u64> = Vec::new();
    static LIVE: AtomicU64 = AtomicU64::new(0);

    pub struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;

    #[allow(static_mut_refs)]
    unsafe fn next() -> u64 {
        let v = match INPUTS.get(NEXT) {
            Some(v) => *v,
            None => {
                println!("REPLAY-OUT-OF-INPUTS");
                std::process::exit(3)
            }
        };
        NEXT += 1;
        v
    }
    pub unsafe fn sym_u64(lo: u64, hi: u64) -> u64 {
        if lo > hi {
            println!("REPLAY-KILLED");
            std::process::exit(3)
        }
        next()
    }
    pub unsafe fn sym_any(_bits: u64) -> u64 {
        next()
    }
    pub unsafe fn sym_choice(_n: u64) -> u64 {
        next()
    }
    pub unsafe fn sym_conc(x: u64) -> u64 {
        x
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            println!("REPLAY-KILLED");
            std::process::exit(3)
        }
    }
    pub unsafe fn sym_assert(c: bool, id: u32) {
        if !c {
            println!("REPLAY-ASSERT {}", id);
            std::process::exit(101)
        }
    }
    pub unsafe fn sym_cover(_id: u32) {}
    pub unsafe fn sym_catch(f: unsafe extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32 {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(data))) {
            Ok(()) => 0,
            Err(e) => {
                drop(e);
                1
            }
        }
    }
    #[allow(static_mut_refs)]
    pub unsafe fn sym_param(k: u64) -> u64 {
        PARAMS.get(k as usize).copied().unwrap_or(0)
    }
    pub unsafe fn sym_live() -> u64 {
        LIVE.load(Relaxed)
    }
    pub unsafe fn sym_limit(_n: u64) {}
    struct Job(unsafe extern "C-unwind" fn(*mut u8), *mut u8);
    unsafe impl Send for Job {}
    impl Job {
        fn go(self) {
            unsafe { (self.0)(self.1) }
        }
    }
    pub unsafe fn sym_threads(
        f: unsafe extern "C-unwind" fn(*mut u8), fd: *mut u8, g: unsafe extern "C-unwind" fn(*mut u8), gd: *mut u8, _n: u64,
    ) -> u64 {
        let (a, b) = (Job(f, fd), Job(g, gd));
        // "first" and "second" run one after the other, and yet unordered
        let order = std::env::var("REPLAY_ORDER").unwrap_or_default();
        static ENDED: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
        struct End(usize);
        impl Drop for End {
            fn drop(&mut self) {
                ENDED[self.0].store(1, Relaxed);
            }
        }
        let wait = |k: usize| {
            while ENDED[k].load(Relaxed) == 0 {
                std::thread::yield_now();
            }
        };
        std::thread::scope(|s| {
            let (x, y) = (order == "second", order == "first");
            let a = s.spawn(move || {
                let _end = End(0);
                if x {
                    wait(1)
                }
                a.go()
            });
            let b = s.spawn(move || {
                let _end = End(1);
                if y {
                    wait(0)
                }
                b.go()
            });
            a.join().is_err() as u64 + 2 * b.join().is_err() as u64
        })
    }
}

/// A symbolic value between the two bounds, both included.
pub fn any_in(lo: usize, hi: usize) -> usize {
    unsafe { raw::sym_u64(lo as u64, hi as u64) as usize }
}
/// A symbolic value of that many bits.
pub fn any_bits(bits: u64) -> u64 {
    unsafe { raw::sym_any(bits) }
}
/// One execution for each of 0..n.
pub fn choose(n: usize) -> usize {
    unsafe { raw::sym_choice(n as u64) as usize }
}
/// A symbolic size or position, split into one execution for each feasible value.
pub fn choose_in(lo: usize, hi: usize) -> usize {
    conc(any_in(lo, hi))
}
/// Splits the execution into one for each feasible value.
pub fn conc(x: usize) -> usize {
    unsafe { raw::sym_conc(x as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { raw::sym_assert(c, id) }
}
/// Records that some execution got here (a witness that the check is not vacuous).
pub fn cover(id: u32) {
    unsafe { raw::sym_cover(id) }
}
pub fn param(k: usize) -> usize {
    unsafe { raw::sym_param(k as u64) as usize }
}
/// How many heap allocations are live.
pub fn live() -> u64 {
    unsafe { raw::sym_live() }
}
pub fn limit(n: u64) {
    unsafe { raw::sym_limit(n) }
}

unsafe extern "C-unwind" fn tramp<F: FnOnce()>(data: *mut u8) {
    let f = (*(data as *mut Option<F>)).take();
    if let Some(f) = f {
        f()
    }
}
/// Runs the closure and reports whether it panicked.
pub fn panics<F: FnOnce()>(f: F) -> bool {
    let mut slot = Some(f);
    unsafe { raw::sym_catch(tramp::<F>, &mut slot as *mut Option<F> as *mut u8) != 0 }
}
/// Runs both at once, in every interleaving with at most so many preemptions, and reports which of
/// them panicked.
pub fn threads<F: FnOnce() + Send, G: FnOnce() + Send>(f: F, g: G, n: usize) -> (bool, bool) {
    let (mut f, mut g) = (Some(f), Some(g));
    let r = unsafe {
        raw::sym_threads(tramp::<F>, &mut f as *mut Option<F> as *mut u8, tramp::<G>, &mut g as *mut Option<G> as *mut u8, n as u64)
    };
    (r & 1 != 0, r & 2 != 0)
}
/// Runs the closure; None if it panicked.
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    let mut out = None;
    let o = &mut out;
    if panics(move || *o = Some(f())) {
        None
    } else {
        out
    }
}
