//! Byte-precise memory objects: every byte is uninitialised, concrete or a byte of an expression.
use crate::expr::E;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SB {
    U,
    C(u8),
    S(E, u8),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u32,
    pub align: u32,
    pub ro: bool,
    pub kind: Kind,
    pub data: Vec<u8>,
    pub mask: Vec<u8>, // 0 uninit, 1 concrete, 2 symbolic
    pub syms: BTreeMap<u32, (E, u8)>,
}

impl Obj {
    pub fn new(size: u64, align: u64, kind: Kind) -> Obj {
        Obj {
            size: size as u32,
            align: align as u32,
            ro: false,
            kind,
            data: vec![0; size as usize],
            mask: vec![0; size as usize],
            syms: BTreeMap::new(),
        }
    }
    pub fn get(&self, o: u32) -> SB {
        match self.mask[o as usize] {
            0 => SB::U,
            1 => SB::C(self.data[o as usize]),
            _ => {
                let (e, i) = self.syms[&o];
                SB::S(e, i)
            }
        }
    }
    pub fn set(&mut self, o: u32, b: SB) {
        if self.mask[o as usize] == 2 {
            self.syms.remove(&o);
        }
        match b {
            SB::U => self.mask[o as usize] = 0,
            SB::C(v) => {
                self.mask[o as usize] = 1;
                self.data[o as usize] = v;
            }
            SB::S(e, i) => {
                self.mask[o as usize] = 2;
                self.syms.insert(o, (e, i));
            }
        }
    }
    /// All `n` bytes concrete?
    pub fn conc(&self, o: u32, n: u32) -> Option<u64> {
        let o = o as usize;
        let n = n as usize;
        if self.mask[o..o + n].iter().all(|&m| m == 1) {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&self.data[o..o + n]);
            Some(u64::from_le_bytes(b))
        } else {
            None
        }
    }
    pub fn put(&mut self, o: u32, n: u32, v: u64) {
        let (ou, nu) = (o as usize, n as usize);
        if !self.syms.is_empty() {
            self.clear_syms(o, n);
        }
        self.data[ou..ou + nu].copy_from_slice(&v.to_le_bytes()[..nu]);
        self.mask[ou..ou + nu].fill(1);
    }
    pub fn clear_syms(&mut self, o: u32, n: u32) {
        if self.syms.is_empty() {
            return;
        }
        let ks: Vec<u32> = self.syms.range(o..o + n).map(|(k, _)| *k).collect();
        for k in ks {
            self.syms.remove(&k);
        }
    }
    pub fn copy_from(&mut self, o: u32, src: &Obj, so: u32, n: u32) {
        let (ou, su, nu) = (o as usize, so as usize, n as usize);
        self.clear_syms(o, n);
        self.data[ou..ou + nu].copy_from_slice(&src.data[su..su + nu]);
        self.mask[ou..ou + nu].copy_from_slice(&src.mask[su..su + nu]);
        if !src.syms.is_empty() {
            for (k, v) in src.syms.range(so..so + n) {
                self.syms.insert(o + (k - so), *v);
            }
        }
    }
    pub fn copy_within(&mut self, o: u32, so: u32, n: u32) {
        let (ou, su, nu) = (o as usize, so as usize, n as usize);
        let mv: Vec<(u32, (E, u8))> = self.syms.range(so..so + n).map(|(k, v)| (*k, *v)).collect();
        self.clear_syms(o, n);
        self.data.copy_within(su..su + nu, ou);
        self.mask.copy_within(su..su + nu, ou);
        for (k, v) in mv {
            self.syms.insert(o + (k - so), v);
        }
    }
    pub fn fill(&mut self, o: u32, n: u32, v: u8) {
        self.clear_syms(o, n);
        self.data[o as usize..(o + n) as usize].fill(v);
        self.mask[o as usize..(o + n) as usize].fill(1);
    }
}

pub type ObjRef = Rc<Obj>;
