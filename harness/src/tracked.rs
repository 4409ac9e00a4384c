//! An element that knows whether it is alive, and can be made to panic when cloned.
use crate::sym::check;

const MAX: usize = 16384;
static mut LIVE: [i32; MAX] = [0; MAX];
static mut TOTAL: i64 = 0;
static mut CLONES: u64 = 0;
static mut PANIC_AT: u64 = 0;
const MAGIC: u32 = 0x7ac4ed01;

pub struct T {
    id: u32,
    magic: u32,
}
const MODULE: u32 = 9;

impl T {
    pub fn new(id: usize) -> T {
        unsafe {
            LIVE[id] += 1;
            TOTAL += 1;
        }
        T { id: id as u32, magic: MAGIC }
    }
    /// The identity of a live element.
    pub fn id(&self) -> usize {
        ck!(self.magic == MAGIC);
        ck!(unsafe { LIVE[self.id as usize] } > 0);
        self.id as usize
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        let id = self.id();
        unsafe {
            CLONES += 1;
            if CLONES == PANIC_AT {
                panic!("clone");
            }
        }
        T::new(id)
    }
}
impl Drop for T {
    fn drop(&mut self) {
        let id = self.id();
        unsafe {
            LIVE[id] -= 1;
            TOTAL -= 1;
        }
        self.magic = 0;
    }
}
impl std::fmt::Debug for T {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        self.id() == o.id()
    }
}
impl Eq for T {}
impl PartialOrd for T {
    fn partial_cmp(&self, o: &T) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for T {
    fn cmp(&self, o: &T) -> std::cmp::Ordering {
        self.id().cmp(&o.id())
    }
}

/// How many elements are alive.
pub fn total() -> i64 {
    unsafe { TOTAL }
}
/// How many of this one are alive.
pub fn alive(id: usize) -> i32 {
    unsafe { LIVE[id] }
}
pub fn clones() -> u64 {
    unsafe { CLONES }
}
/// The k-th clone from now panics (0: none does).
pub fn panic_at(k: u64) {
    unsafe { PANIC_AT = if k == 0 { 0 } else { CLONES + k } }
}
/// Nothing is alive.
pub fn all_gone(id: u32) {
    unsafe {
        check(TOTAL == 0, id);
        let mut i = 0;
        let top = if crate::sym::param(2) < 800 { 4096 } else { MAX };
        while i < top {
            if LIVE[i] != 0 {
                check(false, id);
            }
            i += 1;
        }
    }
}
