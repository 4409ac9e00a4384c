//! Path-exhaustive symbolic execution of the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(E),
    W(u128),
    A(Rc<Vec<Val>>),
    M(Rc<Vec<SB>>),
    U,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    RcLayout,
    Panic,
    Abort,
    SymU64,
    SymAny,
    SymChoice,
    SymConc,
    SymAssume,
    SymAssert,
    SymCover,
    SymCatch,
    NotPanicking,
    Caught,
    SymParam,
    SymLive,
    SymNote,
    SymLimit,
    SymThreads,
    Memcmp,
}

#[derive(Clone, Copy, Debug)]
pub enum In {
    C(u64),
    S(E),
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    body: &'static Body,
    regs: Vec<Val>,
    pc: u32,
    blk: u32,
    stack_base: u32,
    dst: Option<u32>,
    inv: Option<(u32, u32)>,
    catch: bool,
}

#[derive(Clone)]
pub struct State {
    thr: Option<Box<Threads>>,
    sbase: u64,
    frames: Vec<Frame>,
    heap: Vec<Option<Rc<Obj>>>,
    live: u32,
    stack: Vec<Rc<Obj>>,
    gl: BTreeMap<u32, Rc<Obj>>,
    path: Vec<E>,
    model: Rc<Vec<u64>>,
    inputs: Vec<In>,
    nsym: u32,
    steps: u64,
    panic: Option<Rc<String>>,
    exn: Option<Val>,
    notes: Vec<u64>,
    limit: Option<u64>,
    dom: Rc<HashMap<E, (u64, u64)>>,
}

/// A thread that is not running.
#[derive(Clone)]
struct Parked {
    frames: Vec<Frame>,
    stack: Vec<Rc<Obj>>,
    sbase: u64,
    panic: Option<Rc<String>>,
    exn: Option<Val>,
}

/// Who touched a byte last, by the clock of each of the two threads (0: not at all).
#[derive(Clone, Copy, Default)]
struct Shadow {
    w: [u32; 2],
    r: [u32; 2],
    aw: [u32; 2],
    ar: [u32; 2],
}

/// Two threads started by the main one, which waits for both. They switch before atomic operations
/// only, so many times at most of their own accord; data races are found by vector clocks, so that
/// what happens between atomic operations does not depend on when the switch is.
#[derive(Clone)]
struct Threads {
    cur: usize,
    main: Parked,
    other: Option<Parked>,
    panicked: [bool; 2],
    left: u32,
    resumed: bool,
    vc: [[u32; 2]; 2],
    /// what an acquire fence of each would synchronise with, and what its last release fence published
    facq: [[u32; 2]; 2],
    frel: [[u32; 2]; 2],
    loc: HashMap<u64, [u32; 2], std::hash::BuildHasherDefault<crate::expr::Fx>>,
    /// by object, a byte each
    shadow: std::cell::RefCell<HashMap<u64, Rc<Vec<Shadow>>, std::hash::BuildHasherDefault<crate::expr::Fx>>>,
    /// where each switch was
    trace: Vec<String>,
    dst: Option<u32>,
    inv: Option<(u32, u32)>,
}

fn join(a: &mut [u32; 2], b: [u32; 2]) {
    a[0] = a[0].max(b[0]);
    a[1] = a[1].max(b[1]);
}

/// A stack slot, of this thread or of one that is parked.
fn slot(s: &State, id: u64) -> Option<&Rc<Obj>> {
    if let Some(o) = s.stack.get(id.wrapping_sub(s.sbase) as usize) {
        return Some(o);
    }
    let t = s.thr.as_ref()?;
    t.main.stack.get(id.wrapping_sub(t.main.sbase) as usize).or_else(|| {
        let p = t.other.as_ref()?;
        p.stack.get(id.wrapping_sub(p.sbase) as usize)
    })
}
fn slot_mut(s: &mut State, id: u64) -> Option<&mut Rc<Obj>> {
    let i = id.wrapping_sub(s.sbase) as usize;
    if i < s.stack.len() {
        return s.stack.get_mut(i);
    }
    let t = s.thr.as_mut()?;
    let i = id.wrapping_sub(t.main.sbase) as usize;
    if i < t.main.stack.len() {
        return t.main.stack.get_mut(i);
    }
    let p = t.other.as_mut()?;
    p.stack.get_mut(id.wrapping_sub(p.sbase) as usize)
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub kind: String,
    pub msg: String,
    pub func: String,
    pub stack: Vec<String>,
    pub inputs: Vec<u64>,
    pub reproducible: bool,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_paths: u64,
    pub time_s: f64,
    pub max_errors: usize,
}

pub struct Engine {
    pub m: &'static Module,
    pub x: Ex,
    pub sol: Solver,
    pub bi: Vec<Bi>,
    pub cfg: Cfg,
    pub work: Vec<State>,
    pub failures: Vec<Failure>,
    pub inconclusive: Vec<String>,
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub covers: BTreeMap<u32, u64>,
    pub cover_inputs: BTreeMap<u32, Vec<u64>>,
    pub asserts: BTreeMap<u32, (u64, u64)>, // id -> (decided by folding, decided by solver)
    pub entered: Vec<bool>,
    pub maxlive: u32,
    pub quick: u64,
    pub forks: u64,
    pub notes: BTreeMap<u64, u64>,
    pub samples: Vec<Vec<u64>>,
    syms: HashMap<(u32, u8, u64, u64), E>,
    consts: HashMap<u32, Rc<Obj>>,
    panic_count: Option<u32>,
    pool: Vec<Vec<Val>>,
    opool: Vec<Rc<Obj>>,
    /// the access being made is atomic
    atomic: bool,
    t0: std::time::Instant,
}

enum Out {
    Go,
    End,
}

type R<T> = Result<T, Stop>;
pub enum Stop {
    Err(String, String), // kind, message
    Requeue,             // state replaced by forks already pushed
    Kill,                // infeasible
    Incon(String),
}
fn merr<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err("memory".into(), s.into()))
}

fn classify(n: &str) -> Bi {
    match n {
        "sym_u64" => return Bi::SymU64,
        "sym_any" => return Bi::SymAny,
        "sym_choice" => return Bi::SymChoice,
        "sym_conc" => return Bi::SymConc,
        "sym_assume" => return Bi::SymAssume,
        "sym_assert" => return Bi::SymAssert,
        "sym_cover" => return Bi::SymCover,
        "sym_catch" => return Bi::SymCatch,
        "sym_param" => return Bi::SymParam,
        "sym_live" => return Bi::SymLive,
        "sym_note" => return Bi::SymNote,
        "sym_limit" => return Bi::SymLimit,
        "sym_threads" => return Bi::SymThreads,
        "memcmp" | "bcmp" => return Bi::Memcmp,
        _ => {}
    }
    if n.ends_with("12___rust_alloc") {
        return Bi::Alloc;
    }
    if n.ends_with("19___rust_alloc_zeroed") {
        return Bi::AllocZ;
    }
    if n.ends_with("14___rust_dealloc") {
        return Bi::Dealloc;
    }
    if n.ends_with("14___rust_realloc") {
        return Bi::Realloc;
    }
    if n.contains("___rust_no_alloc_shim") {
        return Bi::Nop;
    }
    if n.contains("rc_inner_layout_for_value_layout") || n.contains("arcinner_layout_for_value_layout") || n.contains("arc_inner_layout_for_value_layout") {
        return Bi::RcLayout;
    }
    if n.contains("4core9panicking") {
        for a in ["panic_nounwind", "panic_cannot_unwind", "panic_in_cleanup", "panic_misaligned", "panic_null", "panic_invalid_enum"] {
            if n.contains(a) {
                return Bi::Abort;
            }
        }
        // functions *of* the module, not generic code mentioning it
        if n.starts_with("_RNvNtCs") || n.starts_with("_RINvNtCs") || n.starts_with("_RNvNtNtCs") {
            return Bi::Panic;
        }
    }
    if n.contains("3std9panicking11begin_panic") || n.contains("3std5panic13resume_unwind") || n.contains("3std5panic9panic_any") {
        return Bi::Panic;
    }
    if n.contains("3std9panicking11panic_count17is_zero_slow_path") {
        return Bi::NotPanicking;
    }
    if n.contains("3std9panicking12catch_unwind7cleanup") {
        return Bi::Caught;
    }
    for p in [
        "4core6option13unwrap_failed",
        "4core6option13expect_failed",
        "4core6result13unwrap_failed",
        "5slice5index16slice_index_fail",
        "copy_from_slice_impl17len_mismatch_fail",
        "9split_off13assert_failed",
        "10insert_mut13assert_failed",
        "6insert13assert_failed",
        "6remove13assert_failed",
        "11swap_remove13assert_failed",
        "7raw_vec17capacity_overflow",
        "4core4cell22panic_already_borrowed",
        "4core4cell30panic_already_mutably_borrowed",
    ] {
        if n.contains(p) {
            return Bi::Panic;
        }
    }
    if n.contains("7raw_vec12handle_error") {
        return Bi::Panic;
    }
    if n.contains("18handle_alloc_error") || n == "abort" {
        return Bi::Abort;
    }
    Bi::None
}

fn fold128(op: BinOp, a: u128, b: u128) -> u128 {
    match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => a.checked_div(b).unwrap_or(0),
        BinOp::URem => a.checked_rem(b).unwrap_or(0),
        BinOp::SDiv => (a as i128).wrapping_div(b as i128) as u128,
        BinOp::SRem => (a as i128).wrapping_rem(b as i128) as u128,
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => a.checked_shl(b as u32).unwrap_or(0),
        BinOp::LShr => a.checked_shr(b as u32).unwrap_or(0),
        BinOp::AShr => (a as i128).checked_shr(b as u32).unwrap_or(0) as u128,
    }
}
fn bop(op: BinOp) -> Op {
    match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
    }
}

pub const ENUM_LIMIT: usize = 600;

impl Engine {
    pub fn new(m: Module, cfg: Cfg, solver_ms: u64) -> Engine {
        let m: &'static Module = Box::leak(Box::new(m));
        let bi = m.funcs.iter().map(|f| classify(&f.name)).collect();
        Engine {
            atomic: false,
            m,
            x: Ex::new(),
            sol: Solver::new(solver_ms),
            bi,
            cfg,
            work: vec![],
            failures: vec![],
            inconclusive: vec![],
            paths: 0,
            infeasible: 0,
            steps: 0,
            covers: Default::default(),
            cover_inputs: Default::default(),
            asserts: Default::default(),
            entered: vec![false; m.funcs.len()],
            maxlive: 0,
            quick: 0,
            forks: 0,
            notes: Default::default(),
            samples: vec![],
            syms: Default::default(),
            panic_count: m.globals.iter().position(|g| g.init.is_none() && g.name.contains("18GLOBAL_PANIC_COUNT")).map(|i| i as u32),
            consts: Default::default(),
            pool: vec![],
            opool: vec![],
            t0: std::time::Instant::now(),
        }
    }

    pub fn run(&mut self, entry: &str) -> bool {
        let f = match self.m.fidx.get(entry) {
            Some(&f) => f,
            None => {
                self.inconclusive.push(format!("no entry {}", entry));
                return false;
            }
        };
        let mut s = State {
            thr: None,
            sbase: STACK0,
            frames: vec![],
            heap: vec![None],
            live: 0,
            stack: vec![],
            gl: Default::default(),
            path: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            nsym: 0,
            steps: 0,
            panic: None,
            exn: None,
            notes: vec![],
            limit: None,
            dom: Rc::new(HashMap::new()),
        };
        self.push_frame(&mut s, f, vec![], None, None, false);
        self.work.push(s);
        while let Some(s) = self.work.pop() {
            self.run_state(s);
            if self.failures.len() >= self.cfg.max_errors {
                return false;
            }
            if self.inconclusive.len() >= 3 {
                return false;
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.time_s || self.paths >= self.cfg.max_paths {
                return self.work.is_empty();
            }
        }
        true
    }

    fn run_state(&mut self, mut s: State) {
        loop {
            let r = self.burst(&mut s);
            match r {
                Ok(Out::Go) => continue,
                Ok(Out::End) => {
                    self.paths += 1;
                    for n in &s.notes {
                        *self.notes.entry(*n).or_insert(0) += 1;
                    }
                    if self.samples.len() < 5 || (self.paths.is_power_of_two() && self.samples.len() < 40) {
                        let i = self.concrete_inputs(&s, None);
                        self.samples.push(i);
                    }
                    return;
                }
                Err(Stop::Requeue) => return,
                Err(Stop::Kill) => {
                    self.infeasible += 1;
                    return;
                }
                Err(Stop::Incon(m)) => {
                    let f = self.where_(&s);
                    self.inconclusive.push(format!("{} in {}", m, f));
                    return;
                }
                Err(Stop::Err(k, msg)) => {
                    self.fail(&s, &k, &msg, None);
                    self.paths += 1;
                    return;
                }
            }
        }
    }
    fn where_(&self, s: &State) -> String {
        s.frames.last().map(|f| self.m.funcs[f.f as usize].name.clone()).unwrap_or_default()
    }
    fn concrete_inputs(&mut self, s: &State, model: Option<&Vec<u64>>) -> Vec<u64> {
        let m = match model {
            Some(m) => m.clone(),
            None => (*s.model).clone(),
        };
        s.inputs
            .iter()
            .map(|i| match i {
                In::C(v) => *v,
                In::S(e) => self.x.eval(*e, &m),
            })
            .collect()
    }
    fn fail(&mut self, s: &State, kind: &str, msg: &str, model: Option<&Vec<u64>>) {
        let inputs = self.concrete_inputs(s, model);
        let stack: Vec<String> = s.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f as usize].name.clone()).collect();
        let mut msg = msg.to_string();
        if let Some(p) = &s.panic {
            if kind != "assert" {
                msg = format!("{} [{}]", msg, p);
            }
        }
        self.failures.push(Failure { kind: kind.into(), msg, func: self.where_(s), stack, inputs, reproducible: true });
    }

    // ---------- frames ----------
    fn push_frame(&mut self, s: &mut State, f: u32, args: Vec<Val>, dst: Option<u32>, inv: Option<(u32, u32)>, catch: bool) {
        let body: &'static Body = self.m.body(f);
        self.entered[f as usize] = true;
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        regs.extend(args);
        regs.resize(body.nregs as usize, Val::U);
        s.frames.push(Frame { f, body, regs, pc: 0, blk: 0, stack_base: s.stack.len() as u32, dst, inv, catch });
    }
    fn drop_stack(&mut self, s: &mut State, base: u32) {
        while s.stack.len() > base as usize {
            let o = s.stack.pop().unwrap();
            if self.opool.len() < 256 && o.size <= 256 && Rc::strong_count(&o) == 1 {
                self.opool.push(o);
            }
        }
    }
    fn do_return(&mut self, s: &mut State, v: Option<Val>) -> R<Out> {
        let f = s.frames.pop().unwrap();
        self.drop_stack(s, f.stack_base);
        if self.pool.len() < 64 {
            self.pool.push(f.regs);
        }
        if s.frames.is_empty() {
            return if s.thr.is_some() { self.thread_end(s, false) } else { Ok(Out::End) };
        }
        if let Some(d) = f.dst {
            let v = if f.catch { Val::I(0) } else { v.unwrap_or(Val::U) };
            s.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        if let Some((n, _)) = f.inv {
            self.goto(s, n);
        }
        Ok(Out::Go)
    }
    fn goto(&mut self, s: &mut State, b: u32) {
        let fr = s.frames.last_mut().unwrap();
        let blk = &fr.body.blocks[b as usize];
        if !blk.phis.is_empty() {
            let prev = fr.blk;
            let mut vals: Vec<Val> = Vec::with_capacity(blk.phis.len());
            for (_, inc) in &blk.phis {
                let o = &inc.iter().find(|(l, _)| *l == prev).expect("phi edge").1;
                vals.push(opd(fr, o));
            }
            for ((d, _), v) in blk.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.blk = b;
        fr.pc = blk.start;
    }
    fn unwind(&mut self, s: &mut State, exn: Val) -> R<Out> {
        // called with the frame whose current call raised on top (already popped callee)
        loop {
            let f = match s.frames.pop() {
                Some(f) => f,
                None => return Err(Stop::Err("panic".into(), "uncaught panic".into())),
            };
            self.drop_stack(s, f.stack_base);
            if f.catch && s.frames.is_empty() {
                s.panic = None;
                return self.thread_end(s, true);
            }
            if f.catch {
                if let Some(d) = f.dst {
                    s.frames.last_mut().unwrap().regs[d as usize] = Val::I(1);
                }
                s.panic = None;
                if let Some((n, _)) = f.inv {
                    self.goto(s, n);
                }
                return Ok(Out::Go);
            }
            if s.frames.is_empty() {
                // restore a frame-less state for reporting
                return Err(Stop::Err("panic".into(), "uncaught panic".into()));
            }
            if let Some((_, u)) = f.inv {
                s.exn = Some(exn);
                self.goto(s, u);
                return Ok(Out::Go);
            }
        }
    }
    /// A panic raised by a builtin called from the top frame.
    fn raise(&mut self, s: &mut State, inv: Option<(u32, u32)>) -> R<Out> {
        let exn = Val::A(Rc::new(vec![Val::I(0x1000), Val::I(1)]));
        if let Some((_, u)) = inv {
            s.exn = Some(exn);
            self.goto(s, u);
            return Ok(Out::Go);
        }
        self.unwind(s, exn)
    }

    // ---------- threads ----------
    fn threads(&mut self, s: &mut State, fns: [u32; 2], data: [Val; 2], left: u32, dst: Option<u32>, inv: Option<(u32, u32)>) -> R<Out> {
        if s.thr.is_some() {
            return Err(Stop::Incon("nested threads".into()));
        }
        let main = Parked {
            frames: std::mem::take(&mut s.frames),
            stack: std::mem::take(&mut s.stack),
            sbase: s.sbase,
            panic: None,
            exn: None,
        };
        let [d0, d1] = data;
        s.sbase = STACK0 + (2 << 24);
        self.push_frame(s, fns[1], vec![d1], None, None, true);
        let second = Parked { frames: std::mem::take(&mut s.frames), stack: vec![], sbase: s.sbase, panic: None, exn: None };
        s.sbase = STACK0 + (1 << 24);
        self.push_frame(s, fns[0], vec![d0], None, None, true);
        s.thr = Some(Box::new(Threads {
            cur: 0,
            main,
            other: Some(second),
            panicked: [false; 2],
            left,
            resumed: false,
            vc: [[1, 0], [0, 1]],
            facq: [[0; 2]; 2],
            frel: [[0; 2]; 2],
            loc: Default::default(),
            shadow: Default::default(),
            trace: vec![],
            dst,
            inv,
        }));
        // either may run first
        let mut t = s.clone();
        self.switch(&mut t);
        self.forks += 1;
        self.work.push(t);
        Ok(Out::Go)
    }
    /// Goes on with the other thread.
    fn switch(&mut self, s: &mut State) {
        let w = self.where_(s);
        let mut t = s.thr.take().unwrap();
        let o = t.other.take().unwrap();
        t.trace.push(format!("thread {} stops in {}", t.cur + 1, w));
        t.other = Some(Parked {
            frames: std::mem::replace(&mut s.frames, o.frames),
            stack: std::mem::replace(&mut s.stack, o.stack),
            sbase: std::mem::replace(&mut s.sbase, o.sbase),
            panic: std::mem::replace(&mut s.panic, o.panic),
            exn: std::mem::replace(&mut s.exn, o.exn),
        });
        t.cur = 1 - t.cur;
        t.resumed = true;
        s.thr = Some(t);
    }
    fn thread_end(&mut self, s: &mut State, bad: bool) -> R<Out> {
        let mut t = s.thr.take().unwrap();
        t.panicked[t.cur] = bad;
        match t.other.take() {
            Some(o) => {
                t.trace.push(format!("thread {} ends", t.cur + 1));
                s.frames = o.frames;
                s.stack = o.stack;
                s.sbase = o.sbase;
                s.panic = o.panic;
                s.exn = o.exn;
                t.cur = 1 - t.cur;
                t.resumed = true;
                s.thr = Some(t);
            }
            None => {
                s.frames = t.main.frames;
                s.stack = t.main.stack;
                s.sbase = t.main.sbase;
                s.panic = t.main.panic;
                s.exn = t.main.exn;
                if let Some(d) = t.dst {
                    let r = t.panicked[0] as u64 + 2 * t.panicked[1] as u64;
                    s.frames.last_mut().unwrap().regs[d as usize] = Val::I(r);
                }
                if let Some((n, _)) = t.inv {
                    self.goto(s, n);
                }
            }
        }
        Ok(Out::Go)
    }
    /// A place where the running thread may be preempted: its next instruction is atomic.
    fn may_switch(&mut self, s: &mut State) {
        let t = match &mut s.thr {
            Some(t) => t,
            None => return,
        };
        if t.resumed {
            t.resumed = false;
            return;
        }
        if t.left == 0 || t.other.is_none() {
            return;
        }
        let mut c = s.clone();
        c.thr.as_mut().unwrap().left -= 1;
        c.frames.last_mut().unwrap().pc -= 1;
        self.switch(&mut c);
        self.forks += 1;
        self.work.push(c);
    }
    /// The ordering effects of an atomic access: `rd` it reads, `wr` it writes, both for an update.
    fn sync(&mut self, s: &mut State, addr: u64, ord: u8, rd: bool, wr: bool) {
        let t = match &mut s.thr {
            Some(t) => t,
            None => return,
        };
        let me = t.cur;
        let l = t.loc.get(&addr).copied().unwrap_or_default();
        if rd {
            if ord & 1 != 0 {
                join(&mut t.vc[me], l);
            } else {
                join(&mut t.facq[me], l);
            }
        }
        if wr {
            // an update continues the release sequence that it reads from
            let mut n = if rd { l } else { [0; 2] };
            if ord & 2 != 0 {
                join(&mut n, t.vc[me]);
                t.loc.insert(addr, n);
                t.vc[me][me] += 1;
            } else {
                join(&mut n, t.frel[me]);
                t.loc.insert(addr, n);
            }
        }
    }
    fn fence(&mut self, s: &mut State, ord: u8) {
        if let Some(t) = &mut s.thr {
            let me = t.cur;
            if ord & 1 != 0 {
                let f = t.facq[me];
                join(&mut t.vc[me], f);
            }
            if ord & 2 != 0 {
                t.frel[me] = t.vc[me];
                t.vc[me][me] += 1;
            }
        }
    }
    /// Records an access while there are threads, and finds the race if it is one.
    fn touch(&mut self, s: &State, addr: u64, n: u64, write: bool) -> R<()> {
        let t = s.thr.as_ref().unwrap();
        let id = addr >> 32;
        // constants, and the thread's own stack
        if id >= GLOB0 && (id >= FUNC0 || self.m.globals.get((id - GLOB0) as usize).map_or(true, |g| g.constant)) {
            return Ok(());
        }
        if id >= s.sbase && id < s.sbase + (1 << 24) {
            return Ok(());
        }
        let (me, him) = (t.cur, 1 - t.cur);
        let now = t.vc[me][me];
        let seen = t.vc[me][him];
        let atomic = self.atomic;
        let mut sh = t.shadow.borrow_mut();
        let off = (addr & 0xffff_ffff).wrapping_sub(OBASE);
        if off > (1 << 26) || n > (1 << 26) {
            return Ok(()); // out of bounds, as will be found
        }
        let m = Rc::make_mut(sh.entry(id).or_default());
        if m.len() < (off + n) as usize {
            m.resize((off + n) as usize, Shadow::default());
        }
        for e in &mut m[off as usize..(off + n) as usize] {
            let bad = if e.w[him] > seen {
                Some("a write")
            } else if write && e.r[him] > seen {
                Some("a read")
            } else if !atomic && e.aw[him] > seen {
                Some("an atomic write")
            } else if !atomic && write && e.ar[him] > seen {
                Some("an atomic read")
            } else {
                None
            };
            if let Some(b) = bad {
                let how = t.trace.join("; ");
                let k = if write { "write" } else { "read" };
                let q = if atomic { "atomic " } else { "" };
                return Err(Stop::Err("race".into(), format!("data race: a {}{} by thread {} and {} by thread {}, unordered, schedule: {}", q, k, me + 1, b, him + 1, how)));
            }
            match (atomic, write) {
                (false, true) => e.w[me] = now,
                (false, false) => e.r[me] = now,
                (true, true) => e.aw[me] = now,
                (true, false) => e.ar[me] = now,
            }
        }
        Ok(())
    }

    // ---------- solver ----------
    fn query(&mut self, s: &State, c: E) -> R<Option<Vec<u64>>> {
        match self.sol.check(&self.x, &s.path, c) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Incon("solver gave no answer".into())),
        }
    }
    /// Splits on a boolean: returns the models for the true and false sides.
    fn decide(&mut self, s: &State, c: E) -> R<(Option<Rc<Vec<u64>>>, Option<Rc<Vec<u64>>>)> {
        if let Some(k) = self.x.konst(c) {
            return Ok(if k != 0 { (Some(s.model.clone()), None) } else { (None, Some(s.model.clone())) });
        }
        let v = self.x.eval(c, &s.model);
        let mut memo = HashMap::new();
        if let Some(q) = self.x.quick(c, &s.dom, &mut memo) {
            debug_assert_eq!(q, v != 0);
            self.quick += 1;
            return Ok(if q { (Some(s.model.clone()), None) } else { (None, Some(s.model.clone())) });
        }
        let c = self.x.simp(c, &s.dom, &mut HashMap::new(), &mut memo);
        if let Some(k) = self.x.konst(c) {
            debug_assert_eq!(k, v);
            self.quick += 1;
            return Ok(if k != 0 { (Some(s.model.clone()), None) } else { (None, Some(s.model.clone())) });
        }
        let n = self.x.not(c);
        if v != 0 {
            let o = self.query(s, n)?;
            Ok((Some(s.model.clone()), o.map(Rc::new)))
        } else {
            let o = self.query(s, c)?;
            Ok((o.map(Rc::new), Some(s.model.clone())))
        }
    }
    fn assume(&mut self, s: &mut State, c: E, model: Rc<Vec<u64>>) {
        if self.x.konst(c).is_none() {
            s.path.push(c);
            self.x.refine(c, true, Rc::make_mut(&mut s.dom));
        }
        s.model = model;
    }
    /// All feasible values of `e` on this path (with a model each).
    fn values(&mut self, s: &State, e: E, lim: usize) -> R<Vec<(u64, Rc<Vec<u64>>)>> {
        let w = self.x.w(e);
        let mut out = vec![];
        let v0 = self.x.eval(e, &s.model);
        out.push((v0, s.model.clone()));
        let mut memo = HashMap::new();
        let b = self.x.rbounds(e, &s.dom, &mut memo);
        if b.0 == b.1 {
            self.quick += 1;
            return Ok(out);
        }
        let k = self.x.c(v0, w);
        let q = self.x.bin(Op::Eq, w, e, k);
        let mut block = self.x.not(q);
        loop {
            match self.query(s, block)? {
                None => break,
                Some(m) => {
                    let v = self.x.eval(e, &m);
                    out.push((v, Rc::new(m)));
                    if out.len() > lim {
                        return Err(Stop::Incon(format!("more than {} values to split on", lim)));
                    }
                    let k = self.x.c(v, w);
                    let q = self.x.bin(Op::Eq, w, e, k);
                    let n = self.x.not(q);
                    block = self.x.bin(Op::And, 1, block, n);
                }
            }
        }
        out.sort_by_key(|x| x.0);
        Ok(out)
    }
    /// Makes register operand concrete, forking over its feasible values; the current
    /// instruction is re-executed in each fork.
    fn conc(&mut self, s: &mut State, o: &Opd) -> R<u64> {
        let v = opd(s.frames.last().unwrap(), o);
        match v {
            Val::I(k) => Ok(k),
            Val::S(e) => {
                let vs = self.values(s, e, ENUM_LIMIT)?;
                let w = self.x.w(e);
                let r = match o {
                    Opd::R(r) => *r,
                    _ => unreachable!(),
                };
                let single = vs.len() == 1;
                self.forks += vs.len() as u64 - 1;
                for (v, m) in vs.into_iter().rev() {
                    let k = self.x.c(v, w);
                    let q = self.x.bin(Op::Eq, w, e, k);
                    if single {
                        s.frames.last_mut().unwrap().regs[r as usize] = Val::I(v);
                        return Ok(v);
                    }
                    let mut t = s.clone();
                    self.assume(&mut t, q, m);
                    t.frames.last_mut().unwrap().regs[r as usize] = Val::I(v);
                    t.frames.last_mut().unwrap().pc -= 1;
                    self.work.push(t);
                }
                Err(Stop::Requeue)
            }
            Val::U | Val::M(_) => merr("use of an uninitialised value"),
            _ => Err(Stop::Incon("aggregate where a scalar was expected".into())),
        }
    }

    // ---------- memory ----------
    fn alloc(&mut self, s: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if size > (1 << 26) {
            return Err(Stop::Incon(format!("allocation of {} bytes", size)));
        }
        let mut o = Obj::new(size, align, Kind::Heap);
        if zero {
            o.mask.fill(1);
        }
        let id = s.heap.len() as u64;
        s.heap.push(Some(Rc::new(o)));
        s.live += 1;
        self.maxlive = self.maxlive.max(s.live);
        Ok((id << 32) + OBASE)
    }
    fn build_global(&self, i: u32) -> Option<Obj> {
        let g = &self.m.globals[i as usize];
        let init = g.init.as_ref()?;
        let (sz, _) = g.ty.size_align();
        let mut o = Obj::new(sz, g.align, Kind::Global);
        o.ro = g.constant;
        self.put_const(&mut o, 0, &g.ty, init);
        Some(o)
    }
    fn put_const(&self, o: &mut Obj, off: u64, ty: &Ty, c: &Const) {
        match c {
            Const::Int(v) => {
                let n = ty.size_align().0.min(8);
                o.put(off as u32, n as u32, *v);
            }
            Const::Wide(v) => {
                o.put(off as u32, 8, *v as u64);
                o.put(off as u32 + 8, 8, (*v >> 64) as u64);
            }
            Const::Undef => {}
            Const::Zero => o.fill(off as u32, ty.size_align().0 as u32, 0),
            Const::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    o.put(off as u32 + i as u32, 1, *x as u64);
                }
            }
            Const::Global(g, k) => {
                let a = if let Some(&i) = self.m.gidx.get(g) {
                    gaddr(i)
                } else if let Some(&i) = self.m.fidx.get(g) {
                    faddr(i)
                } else {
                    0
                };
                o.put(off as u32, 8, a.wrapping_add(*k as u64));
            }
            Const::Agg(v) => {
                for (i, (t, k)) in v.iter().enumerate() {
                    let (fo, _) = match ty {
                        Ty::Array(_, et) => (et.size_align().0 * i as u64, 0),
                        _ => (ty.field_off(i as u64).0, 0),
                    };
                    self.put_const(o, off + fo, t, k);
                }
            }
        }
    }
    fn find<'s>(&mut self, s: &'s State, addr: u64, n: u64) -> R<(Rc<Obj>, u32)> {
        if s.thr.is_some() {
            self.touch(s, addr, n, false)?;
        }
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OBASE);
        let o: Rc<Obj> = if id == 0 {
            return merr(format!("access through null or dangling pointer {:#x}", addr));
        } else if id < STACK0 {
            match s.heap.get(id as usize) {
                Some(Some(o)) => o.clone(),
                Some(None) => return merr("use after free"),
                None => return merr(format!("wild pointer {:#x}", addr)),
            }
        } else if id < GLOB0 {
            match slot(s, id) {
                Some(o) => o.clone(),
                None => return merr("use of a dead stack slot"),
            }
        } else if id < FUNC0 {
            let g = (id - GLOB0) as u32;
            if g as usize >= self.m.globals.len() {
                return merr("wild pointer");
            }
            if self.panic_count == Some(g) {
                let mut o = Obj::new(8, 8, Kind::Global);
                o.put(0, 8, s.panic.is_some() as u64);
                Rc::new(o)
            } else if let Some(o) = s.gl.get(&g) {
                o.clone()
            } else if let Some(o) = self.consts.get(&g) {
                o.clone()
            } else {
                match self.build_global(g) {
                    Some(o) => {
                        let o = Rc::new(o);
                        self.consts.insert(g, o.clone());
                        o
                    }
                    None => return Err(Stop::Incon(format!("external global {}", self.m.globals[g as usize].name))),
                }
            }
        } else {
            return merr("data access to code");
        };
        if off > o.size as u64 || n > o.size as u64 - off {
            return merr(format!("out-of-bounds access: {} bytes at offset {} of a {}-byte object", n, off as i64, o.size));
        }
        Ok((o, off as u32))
    }
    fn find_mut<'s>(&mut self, s: &'s mut State, addr: u64, n: u64) -> R<(&'s mut Obj, u32)> {
        if s.thr.is_some() {
            self.touch(s, addr, n, true)?;
        }
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OBASE);
        let slot: &'s mut Rc<Obj> = if id == 0 {
            return merr(format!("access through null or dangling pointer {:#x}", addr));
        } else if id < STACK0 {
            match s.heap.get_mut(id as usize) {
                Some(Some(o)) => o,
                Some(None) => return merr("use after free"),
                None => return merr(format!("wild pointer {:#x}", addr)),
            }
        } else if id < GLOB0 {
            match slot_mut(s, id) {
                Some(o) => o,
                None => return merr("use of a dead stack slot"),
            }
        } else if id < FUNC0 {
            let g = (id - GLOB0) as u32;
            if g as usize >= self.m.globals.len() || self.m.globals[g as usize].constant {
                return merr("write to constant memory");
            }
            if !s.gl.contains_key(&g) {
                let o = match self.consts.get(&g) {
                    Some(o) => o.clone(),
                    None => match self.build_global(g) {
                        Some(o) => Rc::new(o),
                        None => return Err(Stop::Incon("external global".into())),
                    },
                };
                s.gl.insert(g, o);
            }
            s.gl.get_mut(&g).unwrap()
        } else {
            return merr("write to code");
        };
        let size = slot.size as u64;
        if off > size || n > size - off {
            return merr(format!("out-of-bounds access: {} bytes at offset {} of a {}-byte object", n, off as i64, size));
        }
        Ok((Rc::make_mut(slot), off as u32))
    }
    fn assemble(&mut self, b: &[SB], w: u8) -> Val {
        let n = b.len();
        if b.iter().all(|x| *x == SB::U) {
            return Val::U;
        }
        if b.iter().any(|x| *x == SB::U) {
            return Val::M(Rc::new(b.to_vec()));
        }
        if b.iter().all(|x| matches!(x, SB::C(_))) {
            if n > 8 {
                let mut v = 0u128;
                for (i, x) in b.iter().enumerate() {
                    if let SB::C(c) = x {
                        v |= (*c as u128) << (8 * i);
                    }
                }
                return Val::W(v);
            }
            let mut v = 0u64;
            for (i, x) in b.iter().enumerate() {
                if let SB::C(c) = x {
                    v |= (*c as u64) << (8 * i);
                }
            }
            return Val::I(v & mask(w));
        }
        if n > 8 {
            return Val::M(Rc::new(b.to_vec()));
        }
        // whole expression?
        if let SB::S(e, 0) = b[0] {
            let ew = self.x.w(e) as usize;
            if (ew + 7) / 8 >= n && b.iter().enumerate().all(|(i, x)| *x == SB::S(e, i as u8)) {
                let bits = (n * 8).min(64) as u8;
                if ew as u8 >= bits {
                    let r = self.x.extract(e, 0, bits);
                    return self.fit(r, w);
                }
                // sub-byte expression (i1) stored in a byte
                let r = self.x.zext(e, bits);
                return self.fit(r, w);
            }
        }
        let mut acc: Option<E> = None;
        for x in b.iter() {
            let e = match x {
                SB::C(c) => self.x.c(*c as u64, 8),
                SB::S(e, i) => {
                    let ew = self.x.w(*e);
                    let lo = i * 8;
                    if lo + 8 <= ew {
                        self.x.extract(*e, lo, 8)
                    } else {
                        let p = self.x.extract(*e, lo, ew - lo);
                        self.x.zext(p, 8)
                    }
                }
                SB::U => unreachable!(),
            };
            acc = Some(match acc {
                None => e,
                Some(a) => self.x.concat(e, a),
            });
        }
        self.fit(acc.unwrap(), w)
    }
    fn fit(&mut self, e: E, w: u8) -> Val {
        let ew = self.x.w(e);
        let e = if w < ew { self.x.extract(e, 0, w) } else { e };
        self.sv(e)
    }
    fn sv(&self, e: E) -> Val {
        match self.x.konst(e) {
            Some(k) => Val::I(k),
            None => Val::S(e),
        }
    }
    fn load_at(&mut self, s: &State, addr: u64, nb: u32, w: u8) -> R<Val> {
        // fast path without touching reference counts
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OBASE);
        if nb <= 8 && s.thr.is_none() {
            let o = if id < STACK0 { s.heap.get(id as usize).and_then(|x| x.as_ref()) } else { s.stack.get((id - STACK0) as usize) };
            if let Some(o) = o {
                if off < o.size as u64 && nb as u64 <= o.size as u64 - off {
                    if let Some(v) = o.conc(off as u32, nb) {
                        return Ok(Val::I(v & mask(w)));
                    }
                }
            }
        }
        let (o, off) = self.find(s, addr, nb as u64)?;
        if nb <= 8 {
            if let Some(v) = o.conc(off, nb) {
                return Ok(Val::I(v & mask(w)));
            }
        }
        let b: Vec<SB> = (0..nb).map(|i| o.get(off + i)).collect();
        Ok(self.assemble(&b, w))
    }
    fn store_at(&mut self, s: &mut State, addr: u64, nb: u32, v: &Val) -> R<()> {
        let (o, off) = self.find_mut(s, addr, nb as u64)?;
        match v {
            Val::I(k) => o.put(off, nb, *k),
            Val::W(k) => {
                if nb == 16 {
                    o.put(off, 8, *k as u64);
                    o.put(off + 8, 8, (*k >> 64) as u64);
                } else {
                    return Err(Stop::Incon("wide store".into()));
                }
            }
            Val::S(e) => {
                for i in 0..nb {
                    o.set(off + i, SB::S(*e, i as u8));
                }
            }
            Val::U => {
                for i in 0..nb {
                    o.set(off + i, SB::U);
                }
            }
            Val::M(b) => {
                for i in 0..nb {
                    o.set(off + i, b.get(i as usize).copied().unwrap_or(SB::U));
                }
            }
            Val::A(_) => return Err(Stop::Incon("aggregate store".into())),
        }
        Ok(())
    }
    /// Candidate addresses of a symbolic pointer as (in-range, initialised) offsets.
    fn candidates(&mut self, s: &State, e: E) -> R<Option<Vec<u64>>> {
        let mut memo = HashMap::new();
        let (lo, hi) = self.x.rbounds(e, &s.dom, &mut memo);
        let st = 1u64 << self.x.tz(e).min(12);
        if hi - lo <= 4096 && (hi - lo) / st < 130 && (lo >> 32) == (hi >> 32) {
            let mut v = vec![];
            let mut a = (lo + st - 1) / st * st;
            while a <= hi {
                v.push(a);
                a += st;
            }
            return Ok(Some(v));
        }
        let vs = self.values(s, e, ENUM_LIMIT)?;
        Ok(Some(vs.into_iter().map(|x| x.0).collect()))
    }
    fn load_sym(&mut self, s: &State, e: E, nb: u32, w: u8) -> R<Option<Val>> {
        if nb > 8 || s.thr.is_some() {
            return Ok(None);
        }
        let cand = match self.candidates(s, e)? {
            Some(c) => c,
            None => return Ok(None),
        };
        let mut acc: Option<E> = None;
        for a in cand {
            let v = self.load_at(s, a, nb, w);
            let k = self.x.c(a, 64);
            let q = self.x.bin(Op::Eq, 64, e, k);
            let ve = match v {
                Ok(Val::I(c)) => self.x.c(c, w),
                Ok(Val::S(x)) => x,
                Err(Stop::Incon(m)) => return Err(Stop::Incon(m)),
                _ => {
                    if self.query(s, q)?.is_some() {
                        return Ok(None); // let the forking path report it
                    }
                    continue;
                }
            };
            acc = Some(match acc {
                None => ve,
                Some(p) => self.x.ite(q, ve, p),
            });
        }
        match acc {
            Some(a) => Ok(Some(self.sv(a))),
            None => Ok(None),
        }
    }
    fn store_sym(&mut self, s: &mut State, e: E, nb: u32, v: &Val) -> R<bool> {
        if nb > 8 || s.thr.is_some() {
            return Ok(false);
        }
        let w = (nb * 8) as u8;
        let ve = match v {
            Val::I(k) => self.x.c(*k, w),
            Val::S(x) => self.x.zext(*x, w),
            _ => return Ok(false),
        };
        let cand = match self.candidates(s, e)? {
            Some(c) => c,
            None => return Ok(false),
        };
        let mut writes = vec![];
        for a in cand {
            let k = self.x.c(a, 64);
            let q = self.x.bin(Op::Eq, 64, e, k);
            let old = match self.load_at(s, a, nb, w) {
                Ok(Val::I(c)) => self.x.c(c, w),
                Ok(Val::S(x)) => x,
                Err(Stop::Incon(m)) => return Err(Stop::Incon(m)),
                _ => {
                    if self.query(s, q)?.is_some() {
                        return Ok(false);
                    }
                    continue;
                }
            };
            let n = self.x.ite(q, ve, old);
            writes.push((a, n));
        }
        for (a, n) in writes {
            let v = self.sv(n);
            self.store_at(s, a, nb, &v)?;
        }
        Ok(true)
    }
    fn load_ty(&mut self, s: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Ptr => self.load_at(s, addr, 8, 64),
            Ty::Int(n) => self.load_at(s, addr, (*n + 7) / 8, (*n).min(64) as u8),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i as u64);
                    v.push(self.load_ty(s, addr + o, &t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(n, t) => {
                let sz = t.size_align().0;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(s, addr + sz * i, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Incon("load of an unsupported type".into())),
        }
    }
    fn store_ty(&mut self, s: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Ptr => self.store_at(s, addr, 8, v),
            Ty::Int(n) => self.store_at(s, addr, (*n + 7) / 8, v),
            Ty::Struct(..) | Ty::Array(..) => {
                let n = match ty {
                    Ty::Struct(f, _) => f.len() as u64,
                    Ty::Array(n, _) => *n,
                    _ => 0,
                };
                for i in 0..n {
                    let (o, t) = ty.field_off(i);
                    let x = match v {
                        Val::A(a) => a[i as usize].clone(),
                        _ => Val::U,
                    };
                    self.store_ty(s, addr + o, &t, &x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Incon("store of an unsupported type".into())),
        }
    }
    fn memcpy(&mut self, s: &mut State, d: u64, src: u64, n: u64, overlap_ok: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if d >> 32 == src >> 32 {
            if !overlap_ok && d != src && (d.max(src) - d.min(src)) < n {
                return merr("overlapping memcpy");
            }
            let so = ((src & 0xffff_ffff) - OBASE) as u32;
            self.find(s, src, n)?;
            let (o, off) = self.find_mut(s, d, n)?;
            if off != so {
                o.copy_within(off, so, n as u32);
            }
            return Ok(());
        }
        let (so, soff) = self.find(s, src, n)?;
        let (o, off) = self.find_mut(s, d, n)?;
        o.copy_from(off, &so, soff, n as u32);
        Ok(())
    }
    fn read_str(&mut self, s: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(300) {
            match self.load_at(s, p + i, 1, 8) {
                Ok(Val::I(c)) => v.push(c as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    // ---------- main loop ----------
    fn burst(&mut self, s: &mut State) -> R<Out> {
        loop {
            s.steps += 1;
            self.steps += 1;
            if s.steps > self.cfg.max_steps {
                return Err(Stop::Err("hang".into(), format!("more than {} instructions on one path", self.cfg.max_steps)));
            }
            if let Some(l) = s.limit {
                if s.steps > l {
                    return Err(Stop::Err("hang".into(), "instruction budget of the operation exceeded".into()));
                }
            }
            if s.steps & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.time_s {
                // give the state back so the run is reported as incomplete
                let t = s.clone();
                self.work.push(t);
                return Err(Stop::Requeue);
            }
            let fr = s.frames.last_mut().unwrap();
            let body = fr.body;
            let ins = &body.code[fr.pc as usize];
            fr.pc += 1;
            match ins {
                Ins::Load { d, ty, p } => {
                    let pv = opd(fr, p);
                    let r = match pv {
                        Val::I(a) => self.load_ty(s, a, ty)?,
                        Val::S(e) => {
                            let r = match ty {
                                Ty::Int(n) if *n <= 64 => self.load_sym(s, e, (*n + 7) / 8, *n as u8)?,
                                Ty::Ptr => None,
                                _ => None,
                            };
                            match r {
                                Some(v) => v,
                                None => {
                                    let a = self.conc(s, p)?;
                                    self.load_ty(s, a, ty)?
                                }
                            }
                        }
                        _ => return merr("load through an uninitialised pointer"),
                    };
                    s.frames.last_mut().unwrap().regs[*d as usize] = r;
                }
                Ins::Store { ty, v, p } => {
                    let pv = opd(fr, p);
                    let vv = opd(fr, v);
                    match pv {
                        Val::I(a) => self.store_ty(s, a, ty, &vv)?,
                        Val::S(e) => {
                            let done = match ty {
                                Ty::Int(n) if *n <= 64 => self.store_sym(s, e, (*n + 7) / 8, &vv)?,
                                _ => false,
                            };
                            if !done {
                                let a = self.conc(s, p)?;
                                self.store_ty(s, a, ty, &vv)?;
                            }
                        }
                        _ => return merr("store through an uninitialised pointer"),
                    }
                }
                Ins::Gep { d, base, off, idx } => {
                    let b = opd(fr, base);
                    let mut r = match b {
                        Val::I(a) => Val::I(a.wrapping_add(*off as u64)),
                        Val::S(e) => {
                            let k = self.x.c(*off as u64, 64);
                            let r = self.x.bin(Op::Add, 64, e, k);
                            self.sv(r)
                        }
                        _ => Val::U,
                    };
                    for (o, sc, w) in idx {
                        let i = opd(fr, o);
                        r = match (r, i) {
                            (Val::I(a), Val::I(i)) => Val::I(a.wrapping_add((sx(i, *w) as u64).wrapping_mul(*sc))),
                            (Val::U, _) | (_, Val::U) | (Val::M(_), _) | (_, Val::M(_)) => Val::U,
                            (a, i) => {
                                let a = to_e(&mut self.x, &a, 64);
                                let i = to_e(&mut self.x, &i, *w);
                                let i = self.x.sext(i, 64);
                                let k = self.x.c(*sc, 64);
                                let i = self.x.bin(Op::Mul, 64, i, k);
                                let e = self.x.bin(Op::Add, 64, a, i);
                                self.sv(e)
                            }
                        };
                    }
                    fr.regs[*d as usize] = r;
                }
                Ins::Bin { d, op, w, a, b } => {
                    let (x, y) = (opd(fr, a), opd(fr, b));
                    let r = match (x, y) {
                        (Val::I(x), Val::I(y)) if *w <= 64 => {
                            if y == 0 && matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                                return merr("division by zero");
                            }
                            Val::I(fold(bop(*op), *w, x, y))
                        }
                        (x, y) if *w > 64 => match (w128(&x), w128(&y)) {
                            (Some(x), Some(y)) if *w == 128 => Val::W(fold128(*op, x, y)),
                            _ => return Err(Stop::Incon("128-bit symbolic arithmetic".into())),
                        },
                        (Val::U, _) | (_, Val::U) => Val::U,
                        (Val::M(bs), Val::I(k)) if *op == BinOp::LShr && k % 8 == 0 => {
                            let mut v: Vec<SB> = bs[(k as usize / 8).min(bs.len())..].to_vec();
                            v.resize(bs.len(), SB::C(0));
                            self.assemble(&v, *w)
                        }
                        (Val::M(_), _) | (_, Val::M(_)) => Val::U,
                        (x, y) => {
                            let x = to_e(&mut self.x, &x, *w);
                            let y = to_e(&mut self.x, &y, *w);
                            let e = self.x.bin(bop(*op), *w, x, y);
                            self.sv(e)
                        }
                    };
                    fr.regs[*d as usize] = r;
                }
                Ins::Cmp { d, p, w, a, b } => {
                    let (x, y) = (opd(fr, a), opd(fr, b));
                    let r = match (x, y) {
                        (Val::I(x), Val::I(y)) if *w <= 64 => Val::I(cmp(*p, *w, x, y) as u64),
                        (Val::U, _) | (_, Val::U) | (Val::M(_), _) | (_, Val::M(_)) => Val::U,
                        (x, y) if *w > 64 => match (w128(&x), w128(&y)) {
                            (Some(x), Some(y)) => Val::I(cmp128(*p, x, y) as u64),
                            _ => return Err(Stop::Incon("128-bit symbolic compare".into())),
                        },
                        (x, y) => {
                            let x = to_e(&mut self.x, &x, *w);
                            let y = to_e(&mut self.x, &y, *w);
                            let e = match p {
                                Pred::Eq => self.x.bin(Op::Eq, *w, x, y),
                                Pred::Ne => {
                                    let e = self.x.bin(Op::Eq, *w, x, y);
                                    self.x.not(e)
                                }
                                Pred::Ult => self.x.bin(Op::Ult, *w, x, y),
                                Pred::Ule => self.x.bin(Op::Ule, *w, x, y),
                                Pred::Ugt => self.x.bin(Op::Ult, *w, y, x),
                                Pred::Uge => self.x.bin(Op::Ule, *w, y, x),
                                Pred::Slt => self.x.bin(Op::Slt, *w, x, y),
                                Pred::Sle => self.x.bin(Op::Sle, *w, x, y),
                                Pred::Sgt => self.x.bin(Op::Slt, *w, y, x),
                                Pred::Sge => self.x.bin(Op::Sle, *w, y, x),
                            };
                            self.sv(e)
                        }
                    };
                    fr.regs[*d as usize] = r;
                }
                Ins::Cast { d, op, from, to, a } => {
                    let x = opd(fr, a);
                    let r = match x {
                        Val::I(v) if *to <= 64 => Val::I(match op {
                            CastOp::Trunc | CastOp::Bit | CastOp::ZExt => v & mask(*to),
                            CastOp::SExt => (sx(v, *from) as u64) & mask(*to),
                        }),
                        Val::I(v) => match op {
                            CastOp::SExt => Val::W(sx(v, *from) as i128 as u128),
                            _ => Val::W(v as u128),
                        },
                        Val::W(v) if *to <= 64 => Val::I(v as u64 & mask(*to)),
                        Val::W(v) => Val::W(v),
                        Val::S(e) if *to <= 64 => {
                            let e = match op {
                                CastOp::Trunc => self.x.extract(e, 0, *to),
                                CastOp::ZExt => self.x.zext(e, *to),
                                CastOp::SExt => self.x.sext(e, *to),
                                CastOp::Bit => e,
                            };
                            self.sv(e)
                        }
                        Val::S(_) => return Err(Stop::Incon("128-bit symbolic cast".into())),
                        Val::M(b) => match op {
                            CastOp::Trunc if *to % 8 == 0 || *to == 1 => {
                                let n = ((*to as usize) + 7) / 8;
                                self.assemble(&b[..n], *to)
                            }
                            CastOp::Bit => Val::M(b),
                            CastOp::ZExt => {
                                let mut v = (*b).clone();
                                v.resize(((*to as usize) + 7) / 8, SB::C(0));
                                self.assemble(&v, *to)
                            }
                            _ => Val::U,
                        },
                        _ => Val::U,
                    };
                    fr.regs[*d as usize] = r;
                }
                Ins::Sel { d, w, c, a, b } => {
                    let cv = opd(fr, c);
                    let r = match cv {
                        Val::I(k) => {
                            if k != 0 {
                                opd(fr, a)
                            } else {
                                opd(fr, b)
                            }
                        }
                        Val::S(e) => {
                            let (x, y) = (opd(fr, a), opd(fr, b));
                            let ok = |v: &Val| matches!(v, Val::I(_) | Val::S(_));
                            if *w > 0 && *w <= 64 && ok(&x) && ok(&y) {
                                let x = to_e(&mut self.x, &x, *w);
                                let y = to_e(&mut self.x, &y, *w);
                                let r = self.x.ite(e, x, y);
                                self.sv(r)
                            } else {
                                let k = self.conc(s, c)?;
                                let fr = s.frames.last().unwrap();
                                if k != 0 {
                                    opd(fr, a)
                                } else {
                                    opd(fr, b)
                                }
                            }
                        }
                        _ => return merr("select on an uninitialised value"),
                    };
                    s.frames.last_mut().unwrap().regs[*d as usize] = r;
                }
                Ins::Ext { d, a, idx } => {
                    let mut v = opd(fr, a);
                    for i in idx {
                        v = match v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => Val::U,
                        };
                    }
                    fr.regs[*d as usize] = v;
                }
                Ins::Insv { d, a, v, idx, ty } => {
                    let av = opd(fr, a);
                    let x = opd(fr, v);
                    let r = insert(av, x, idx, ty);
                    fr.regs[*d as usize] = r;
                }
                Ins::Br(b) => {
                    let b = *b;
                    self.goto(s, b);
                }
                Ins::CBr(c, t, f) => match opd(fr, c) {
                    Val::I(k) => {
                        let b = if k != 0 { *t } else { *f };
                        self.goto(s, b);
                    }
                    Val::S(e) => {
                        let (mt, mf) = self.decide(s, e)?;
                        match (mt, mf) {
                            (Some(_), None) => self.goto(s, *t),
                            (None, Some(_)) => self.goto(s, *f),
                            (Some(mt), Some(mf)) => {
                                self.forks += 1;
                                let n = self.x.not(e);
                                let mut o = s.clone();
                                self.assume(&mut o, n, mf);
                                self.goto(&mut o, *f);
                                self.work.push(o);
                                self.assume(s, e, mt);
                                self.goto(s, *t);
                            }
                            (None, None) => return Err(Stop::Kill),
                        }
                    }
                    _ => return merr("branch on an uninitialised value"),
                },
                Ins::Switch { w, v, def, cases } => match opd(fr, v) {
                    Val::I(k) => {
                        let b = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.goto(s, b);
                    }
                    Val::S(e) => {
                        let mut rest: Option<E> = None;
                        let mut outs: Vec<(E, Rc<Vec<u64>>, u32)> = vec![];
                        for (k, b) in cases {
                            let kk = self.x.c(*k, *w);
                            let q = self.x.bin(Op::Eq, *w, e, kk);
                            let n = self.x.not(q);
                            rest = Some(match rest {
                                None => n,
                                Some(r) => self.x.bin(Op::And, 1, r, n),
                            });
                            let (t, _) = self.decide(s, q)?;
                            if let Some(m) = t {
                                outs.push((q, m, *b));
                            }
                        }
                        if let Some(r) = rest {
                            let (t, _) = self.decide(s, r)?;
                            if let Some(m) = t {
                                outs.push((r, m, *def));
                            }
                        } else {
                            outs.push((self.x.c(1, 1), s.model.clone(), *def));
                        }
                        if outs.is_empty() {
                            return Err(Stop::Kill);
                        }
                        self.forks += outs.len() as u64 - 1;
                        for (q, m, b) in outs.drain(1..).rev().collect::<Vec<_>>() {
                            let mut o = s.clone();
                            self.assume(&mut o, q, m);
                            self.goto(&mut o, b);
                            self.work.push(o);
                        }
                        let (q, m, b) = outs.pop().unwrap();
                        self.assume(s, q, m);
                        self.goto(s, b);
                    }
                    _ => return merr("switch on an uninitialised value"),
                },
                Ins::Call(c) => match self.call(s, c)? {
                    Out::Go => {}
                    Out::End => return Ok(Out::End),
                },
                Ins::Ret(v) => {
                    let v = v.as_ref().map(|o| opd(fr, o));
                    match self.do_return(s, v)? {
                        Out::Go => {}
                        Out::End => return Ok(Out::End),
                    }
                }
                Ins::Alloca { d, size, align } => {
                    let id = s.sbase + s.stack.len() as u64;
                    let o = match self.opool.pop() {
                        Some(mut rc) => {
                            let ob = Rc::get_mut(&mut rc).unwrap();
                            ob.size = *size as u32;
                            ob.align = *align as u32;
                            ob.data.clear();
                            ob.data.resize(*size as usize, 0);
                            ob.mask.clear();
                            ob.mask.resize(*size as usize, 0);
                            ob.syms.clear();
                            ob.kind = Kind::Stack;
                            rc
                        }
                        None => Rc::new(Obj::new(*size, *align, Kind::Stack)),
                    };
                    s.stack.push(o);
                    s.frames.last_mut().unwrap().regs[*d as usize] = Val::I((id << 32) + OBASE);
                }
                Ins::Mov { d, a } => {
                    let v = match opd(fr, a) {
                        Val::U => Val::I(0), // freeze of undef: an arbitrary fixed value
                        v => v,
                    };
                    fr.regs[*d as usize] = v;
                }
                Ins::Pad { d } => {
                    let e = s.exn.clone().unwrap_or(Val::U);
                    s.frames.last_mut().unwrap().regs[*d as usize] = e;
                }
                Ins::Resume(v) => {
                    let v = opd(fr, v);
                    match self.resume(s, v)? {
                        Out::Go => {}
                        Out::End => return Ok(Out::End),
                    }
                }
                Ins::Unreachable => return merr("reached code marked unreachable"),
                Ins::Fence { ord } => self.fence(s, *ord),
                Ins::ALoad { d, ty, p, ord } => {
                    self.may_switch(s);
                    let a = self.conc(s, p)?;
                    self.atomic = true;
                    let r = self.load_ty(s, a, ty);
                    self.atomic = false;
                    let r = r?;
                    self.sync(s, a, *ord, true, false);
                    s.frames.last_mut().unwrap().regs[*d as usize] = r;
                }
                Ins::AStore { ty, v, p, ord } => {
                    self.may_switch(s);
                    let a = self.conc(s, p)?;
                    let vv = opd(s.frames.last().unwrap(), v);
                    self.atomic = true;
                    let r = self.store_ty(s, a, ty, &vv);
                    self.atomic = false;
                    r?;
                    self.sync(s, a, *ord, false, true);
                }
                Ins::Rmw { d, op, w, p, v, ord } => {
                    self.may_switch(s);
                    let a = self.conc(s, p)?;
                    let nb = *w as u32 / 8;
                    self.atomic = true;
                    let old = self.load_at(s, a, nb, *w);
                    self.atomic = false;
                    let old = old?;
                    let vv = opd(s.frames.last().unwrap(), v);
                    if matches!(old, Val::U | Val::M(_)) {
                        return merr("atomic on uninitialised memory");
                    }
                    let x = to_e(&mut self.x, &old, *w);
                    let y = to_e(&mut self.x, &vv, *w);
                    let r = match op.as_str() {
                        "add" => self.x.bin(Op::Add, *w, x, y),
                        "sub" => self.x.bin(Op::Sub, *w, x, y),
                        "and" => self.x.bin(Op::And, *w, x, y),
                        "or" => self.x.bin(Op::Or, *w, x, y),
                        "xor" => self.x.bin(Op::Xor, *w, x, y),
                        "xchg" => y,
                        _ => return Err(Stop::Incon(format!("atomicrmw {}", op))),
                    };
                    let rv = self.sv(r);
                    self.atomic = true;
                    let r = self.store_at(s, a, nb, &rv);
                    self.atomic = false;
                    r?;
                    self.sync(s, a, *ord, true, true);
                    s.frames.last_mut().unwrap().regs[*d as usize] = old;
                }
                Ins::Cas { d, w, p, e, n, ord, ford } => {
                    self.may_switch(s);
                    let a = self.conc(s, p)?;
                    let nb = *w as u32 / 8;
                    self.atomic = true;
                    let old = self.load_at(s, a, nb, *w);
                    self.atomic = false;
                    let old = old?;
                    let fr = s.frames.last().unwrap();
                    let (ev, nv) = (opd(fr, e), opd(fr, n));
                    match (&old, &ev) {
                        (Val::I(x), Val::I(y)) => {
                            let ok = x == y;
                            if ok {
                                self.atomic = true;
                                let r = self.store_at(s, a, nb, &nv);
                                self.atomic = false;
                                r?;
                            }
                            self.sync(s, a, if ok { *ord } else { *ford }, true, ok);
                            s.frames.last_mut().unwrap().regs[*d as usize] = Val::A(Rc::new(vec![old.clone(), Val::I(ok as u64)]));
                        }
                        _ => return Err(Stop::Incon("symbolic cmpxchg".into())),
                    }
                }
                Ins::Nop => {}
                Ins::Bad(m) => return Err(Stop::Incon(format!("unsupported instruction: {}", m))),
            }
        }
    }

    fn resume(&mut self, s: &mut State, exn: Val) -> R<Out> {
        self.unwind(s, exn)
    }

    fn set_dst(&mut self, s: &mut State, c: &Call, v: Val) {
        if let Some(d) = c.d {
            s.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        if let Some((n, _)) = c.inv {
            self.goto(s, n);
        }
    }

    fn call(&mut self, s: &mut State, c: &Call) -> R<Out> {
        let f = match &c.callee {
            Callee::Fn(f) => *f,
            Callee::Ind(o) => {
                let a = self.conc(s, o)?;
                let id = a >> 32;
                if id < FUNC0 || (id - FUNC0) as usize >= self.m.funcs.len() || a & 0xffff_ffff != OBASE {
                    return merr(format!("call through a bad function pointer {:#x}", a));
                }
                (id - FUNC0) as u32
            }
            Callee::Intr(n, _) => return self.intrinsic(s, c, n),
        };
        let b = self.bi[f as usize];
        if b == Bi::None {
            if !self.m.funcs[f as usize].defined {
                return Err(Stop::Incon(format!("call to external function {}", self.m.funcs[f as usize].name)));
            }
            let fr = s.frames.last().unwrap();
            let args: Vec<Val> = c.args.iter().map(|o| opd(fr, o)).collect();
            if s.frames.len() >= self.cfg.max_depth {
                return Err(Stop::Err("depth".into(), format!("call depth above {}", self.cfg.max_depth)));
            }
            self.push_frame(s, f, args, c.d, c.inv, false);
            return Ok(Out::Go);
        }
        self.builtin(s, c, f, b)
    }

    fn new_sym(&mut self, s: &mut State, w: u8, lo: u64, hi: u64) -> Val {
        if lo == hi {
            s.inputs.push(In::C(lo));
            return Val::I(lo);
        }
        let key = (s.nsym, w, lo, hi);
        let e = match self.syms.get(&key) {
            Some(&e) => e,
            None => {
                let n = format!("v{}", s.nsym);
                let e = self.x.var(n, w, lo, hi);
                self.syms.insert(key, e);
                e
            }
        };
        s.nsym += 1;
        if lo != 0 || hi != mask(w) {
            s.path.push(e); // stands for the declared range
        }
        s.inputs.push(In::S(e));
        Val::S(e)
    }

    fn builtin(&mut self, s: &mut State, c: &Call, f: u32, b: Bi) -> R<Out> {
        match b {
            Bi::Nop => self.set_dst(s, c, Val::U),
            Bi::Alloc | Bi::AllocZ => {
                let n = self.conc(s, &c.args[0])?;
                let a = self.conc(s, &c.args[1])?;
                let p = self.alloc(s, n, a, b == Bi::AllocZ)?;
                self.set_dst(s, c, Val::I(p));
            }
            Bi::Dealloc => {
                let p = self.conc(s, &c.args[0])?;
                let n = self.conc(s, &c.args[1])?;
                let a = self.conc(s, &c.args[2])?;
                self.free(s, p, n, a)?;
                self.set_dst(s, c, Val::U);
            }
            Bi::Realloc => {
                let p = self.conc(s, &c.args[0])?;
                let n = self.conc(s, &c.args[1])?;
                let a = self.conc(s, &c.args[2])?;
                let nn = self.conc(s, &c.args[3])?;
                let q = self.alloc(s, nn, a, false)?;
                self.memcpy(s, q, p, n.min(nn), false)?;
                self.free(s, p, n, a)?;
                self.set_dst(s, c, Val::I(q));
            }
            Bi::RcLayout => {
                let a = self.conc(s, &c.args[0])?;
                let n = self.conc(s, &c.args[1])?;
                if !a.is_power_of_two() {
                    return Err(Stop::Incon("unexpected Layout field order".into()));
                }
                let al = a.max(8);
                let off = (16 + a - 1) / a * a;
                let sz = (off + n + al - 1) / al * al;
                self.set_dst(s, c, Val::A(Rc::new(vec![Val::I(al), Val::I(sz)])));
            }
            Bi::Memcmp => {
                let p = self.conc(s, &c.args[0])?;
                let q = self.conc(s, &c.args[1])?;
                let n = self.conc(s, &c.args[2])?;
                // result: ite chain from the last byte
                let mut acc = self.x.c(0, 32);
                for i in (0..n).rev() {
                    let (x, y) = (self.load_at(s, p + i, 1, 8)?, self.load_at(s, q + i, 1, 8)?);
                    if matches!(x, Val::U | Val::M(_)) || matches!(y, Val::U | Val::M(_)) {
                        return merr("comparison of uninitialised memory");
                    }
                    let x = to_e(&mut self.x, &x, 8);
                    let y = to_e(&mut self.x, &y, 8);
                    let eq = self.x.bin(Op::Eq, 8, x, y);
                    let lt = self.x.bin(Op::Ult, 8, x, y);
                    let (m1, p1) = (self.x.c(0xffff_ffff, 32), self.x.c(1, 32));
                    let r = self.x.ite(lt, m1, p1);
                    acc = self.x.ite(eq, acc, r);
                }
                let v = self.sv(acc);
                self.set_dst(s, c, v);
            }
            Bi::Panic | Bi::Abort => {
                let name = self.m.funcs[f as usize].name.clone();
                let fr = s.frames.last().unwrap();
                let args: Vec<Val> = c.args.iter().map(|o| opd(fr, o)).collect();
                let mut msg = String::new();
                if name.contains("9panicking5panic") || name.contains("begin_panic") || name.contains("expect_failed") {
                    if let (Some(Val::I(p)), Some(Val::I(n))) = (args.get(0), args.get(1)) {
                        msg = self.read_str(s, *p, *n);
                    }
                }
                let short = ["unwrap_failed", "expect_failed", "slice_index_fail", "panic_bounds_check", "panic_const_add_overflow", "panic_const_sub_overflow", "panic_const_mul_overflow", "panic_const_rem_by_zero", "assert_failed", "panic_fmt", "begin_panic", "panic_nounwind", "panic_in_cleanup", "panic_cannot_unwind", "panic_misaligned", "panic_null", "handle_alloc_error", "handle_error", "len_mismatch_fail"]
                    .iter()
                    .find(|x| name.contains(**x))
                    .map(|x| x.to_string())
                    .unwrap_or_default();
                if !short.is_empty() {
                    msg = format!("{} {}", short, msg);
                }
                if let Some(Val::I(l)) = args.last() {
                    let l = *l;
                    if let (Ok(Val::I(p)), Ok(Val::I(n)), Ok(Val::I(line))) = (self.load_at(s, l, 8, 64), self.load_at(s, l + 8, 8, 64), self.load_at(s, l + 16, 4, 32)) {
                        if n < 300 {
                            let file = self.read_str(s, p, n);
                            msg = format!("{} at {}:{}", msg, file.trim_end_matches('\0'), line);
                        }
                    }
                }
                if b == Bi::Abort {
                    return Err(Stop::Err("abort".into(), msg));
                }
                if s.panic.is_none() {
                    s.panic = Some(Rc::new(msg));
                }
                return self.raise(s, c.inv);
            }
            Bi::SymU64 => {
                let lo = self.conc(s, &c.args[0])?;
                let hi = self.conc(s, &c.args[1])?;
                if lo > hi {
                    return Err(Stop::Kill);
                }
                let v = self.new_sym(s, 64, lo, hi);
                self.set_dst(s, c, v);
            }
            Bi::SymAny => {
                let bits = self.conc(s, &c.args[0])?;
                let v = self.new_sym(s, 64, 0, mask(bits as u8));
                self.set_dst(s, c, v);
            }
            Bi::SymChoice => {
                let n = self.conc(s, &c.args[0])?;
                if n == 0 {
                    return Err(Stop::Kill);
                }
                self.forks += n - 1;
                for k in (1..n).rev() {
                    let mut t = s.clone();
                    t.inputs.push(In::C(k));
                    self.set_dst(&mut t, c, Val::I(k));
                    self.work.push(t);
                }
                s.inputs.push(In::C(0));
                self.set_dst(s, c, Val::I(0));
            }
            Bi::SymConc => {
                let v = self.conc(s, &c.args[0])?;
                self.set_dst(s, c, Val::I(v));
            }
            Bi::SymAssume => match opd(s.frames.last().unwrap(), &c.args[0]) {
                Val::I(k) => {
                    if k & 1 == 0 {
                        return Err(Stop::Kill);
                    }
                    self.set_dst(s, c, Val::U);
                }
                Val::S(e) => {
                    let e = self.x.extract(e, 0, 1);
                    let (t, _) = self.decide(s, e)?;
                    match t {
                        Some(m) => self.assume(s, e, m),
                        None => return Err(Stop::Kill),
                    }
                    self.set_dst(s, c, Val::U);
                }
                _ => return merr("assumption on an uninitialised value"),
            },
            Bi::SymAssert => {
                let id = self.conc(s, &c.args[1])? as u32;
                match opd(s.frames.last().unwrap(), &c.args[0]) {
                    Val::I(k) => {
                        self.asserts.entry(id).or_insert((0, 0)).0 += 1;
                        if k & 1 == 0 {
                            return Err(Stop::Err("assert".into(), format!("assertion {} violated", id)));
                        }
                    }
                    Val::S(e) => {
                        let e = self.x.extract(e, 0, 1);
                        let e = self.x.simp(e, &s.dom, &mut HashMap::new(), &mut HashMap::new());
                        let n = self.asserts.entry(id).or_insert((0, 0));
                        if self.x.konst(e).is_some() {
                            n.0 += 1;
                        } else {
                            n.1 += 1;
                        }
                        // Always a verdict of the solver, whatever interval reasoning could say.
                        let f = if self.x.konst(e).is_some() || self.x.eval(e, &s.model) == 0 {
                            self.decide(s, e)?.1
                        } else {
                            let n = self.x.not(e);
                            self.query(s, n)?.map(Rc::new)
                        };
                        if let Some(m) = f {
                            let m = (*m).clone();
                            self.fail(s, "assert", &format!("assertion {} violated", id), Some(&m));
                            return Err(Stop::Requeue);
                        }
                    }
                    _ => return merr("assertion on an uninitialised value"),
                }
                self.set_dst(s, c, Val::U);
            }
            Bi::SymCover => {
                let id = self.conc(s, &c.args[0])? as u32;
                let n = self.covers.entry(id).or_insert(0);
                *n += 1;
                if *n == 1 {
                    let i = self.concrete_inputs(s, None);
                    self.cover_inputs.insert(id, i);
                }
                self.set_dst(s, c, Val::U);
            }
            Bi::SymNote => {
                let id = self.conc(s, &c.args[0])?;
                s.notes.push(id);
                self.set_dst(s, c, Val::U);
            }
            Bi::SymLimit => {
                let n = self.conc(s, &c.args[0])?;
                s.limit = if n == 0 { None } else { Some(s.steps + n) };
                self.set_dst(s, c, Val::U);
            }
            Bi::SymParam => {
                let k = self.conc(s, &c.args[0])? as usize;
                let v = self.cfg.params.get(k).copied().unwrap_or(0);
                self.set_dst(s, c, Val::I(v));
            }
            Bi::SymLive => {
                let v = s.live as u64;
                self.set_dst(s, c, Val::I(v));
            }
            Bi::SymThreads => {
                let mut fns = [0; 2];
                let mut data = [Val::U, Val::U];
                for k in 0..2 {
                    let fp = self.conc(s, &c.args[2 * k])?;
                    data[k] = opd(s.frames.last().unwrap(), &c.args[2 * k + 1]);
                    if fp >> 32 < FUNC0 {
                        return Err(Stop::Incon("thread target".into()));
                    }
                    fns[k] = ((fp >> 32) - FUNC0) as u32;
                }
                let left = self.conc(s, &c.args[4])?;
                return self.threads(s, fns, data, left as u32, c.d, c.inv);
            }
            Bi::NotPanicking => {
                let v = Val::I(s.panic.is_none() as u64);
                self.set_dst(s, c, v);
            }
            Bi::Caught => {
                // the payload: a zero-sized value behind a vtable without drop glue
                s.panic = None;
                let mut o = Obj::new(32, 8, Kind::Global);
                o.fill(0, 32, 0);
                o.put(16, 8, 1);
                o.ro = true;
                let id = s.heap.len() as u64;
                s.heap.push(Some(Rc::new(o)));
                let v = Val::A(Rc::new(vec![Val::I(1), Val::I((id << 32) + OBASE)]));
                self.set_dst(s, c, v);
            }
            Bi::SymCatch => {
                let fp = self.conc(s, &c.args[0])?;
                let data = opd(s.frames.last().unwrap(), &c.args[1]);
                let id = fp >> 32;
                if id < FUNC0 {
                    return Err(Stop::Incon("catch target".into()));
                }
                self.push_frame(s, (id - FUNC0) as u32, vec![data], c.d, c.inv, true);
            }
            Bi::None => unreachable!(),
        }
        Ok(Out::Go)
    }

    fn free(&mut self, s: &mut State, p: u64, n: u64, a: u64) -> R<()> {
        if s.thr.is_some() && n > 0 {
            self.touch(s, p, n, true)?;
        }
        let id = (p >> 32) as usize;
        if p & 0xffff_ffff != OBASE || id == 0 || id >= s.heap.len() {
            return merr(format!("deallocation of a pointer that is not an allocation ({:#x})", p));
        }
        match &s.heap[id] {
            None => merr("double free"),
            Some(o) => {
                if o.size as u64 != n || o.align as u64 != a {
                    return merr(format!("deallocation with layout ({},{}) of an allocation with layout ({},{})", n, a, o.size, o.align));
                }
                s.heap[id] = None;
                s.live -= 1;
                Ok(())
            }
        }
    }

    fn intrinsic(&mut self, s: &mut State, c: &Call, n: &str) -> R<Out> {
        let n = &n[5..];
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let len = self.conc(s, &c.args[2])?;
            if len == 0 {
                self.set_dst(s, c, Val::U);
                return Ok(Out::Go);
            }
            let fr = s.frames.last().unwrap();
            let (dv, sv) = (opd(fr, &c.args[0]), opd(fr, &c.args[1]));
            // small copies with a symbolic end become conditional loads/stores
            if len <= 8 && matches!(len, 1 | 2 | 4 | 8) {
                match (&dv, &sv) {
                    (Val::I(d), Val::S(e)) => {
                        if let Some(v) = self.load_sym(s, *e, len as u32, (len * 8) as u8)? {
                            self.store_at(s, *d, len as u32, &v)?;
                            self.set_dst(s, c, Val::U);
                            return Ok(Out::Go);
                        }
                    }
                    (Val::S(e), Val::I(p)) => {
                        let v = self.load_at(s, *p, len as u32, (len * 8) as u8)?;
                        if self.store_sym(s, *e, len as u32, &v)? {
                            self.set_dst(s, c, Val::U);
                            return Ok(Out::Go);
                        }
                    }
                    _ => {}
                }
            }
            let d = self.conc(s, &c.args[0])?;
            let p = self.conc(s, &c.args[1])?;
            self.memcpy(s, d, p, len, n.starts_with("memmove"))?;
            self.set_dst(s, c, Val::U);
            return Ok(Out::Go);
        }
        if n.starts_with("memset") {
            let d = self.conc(s, &c.args[0])?;
            let len = self.conc(s, &c.args[2])?;
            let v = opd(s.frames.last().unwrap(), &c.args[1]);
            if len > 0 {
                let (o, off) = self.find_mut(s, d, len)?;
                match v {
                    Val::I(k) => o.fill(off, len as u32, k as u8),
                    Val::S(e) => (off..off + len as u32).for_each(|i| o.set(i, SB::S(e, 0))),
                    _ => (off..off + len as u32).for_each(|i| o.set(i, SB::U)),
                }
            }
            self.set_dst(s, c, Val::U);
            return Ok(Out::Go);
        }
        if n.starts_with("lifetime") || n.starts_with("dbg") || n.starts_with("experimental.noalias") || n.starts_with("donothing") || n.starts_with("prefetch") {
            self.set_dst(s, c, Val::U);
            return Ok(Out::Go);
        }
        if n.starts_with("assume") {
            match opd(s.frames.last().unwrap(), &c.args[0]) {
                Val::I(0) => return merr("violated an optimiser assumption"),
                Val::S(e) => {
                    let (_, f) = self.decide(s, e)?;
                    if f.is_some() {
                        return merr("may violate an optimiser assumption");
                    }
                }
                _ => {}
            }
            self.set_dst(s, c, Val::U);
            return Ok(Out::Go);
        }
        if n.starts_with("trap") || n.starts_with("debugtrap") || n.starts_with("ubsantrap") {
            return Err(Stop::Err("abort".into(), "trap".into()));
        }
        if n.starts_with("is.constant") {
            self.set_dst(s, c, Val::I(0));
            return Ok(Out::Go);
        }
        if n.starts_with("threadlocal.address") || n.starts_with("expect") {
            let v = opd(s.frames.last().unwrap(), &c.args[0]);
            self.set_dst(s, c, v);
            return Ok(Out::Go);
        }
        let fr = s.frames.last().unwrap();
        let a: Vec<Val> = c.args.iter().map(|o| opd(fr, o)).collect();
        let w = c.argw[0];
        if a.iter().any(|v| matches!(v, Val::U | Val::M(_))) {
            let v = if n.contains("with.overflow") { Val::A(Rc::new(vec![Val::U, Val::U])) } else { Val::U };
            self.set_dst(s, c, v);
            return Ok(Out::Go);
        }
        if w > 64 || a.iter().any(|v| matches!(v, Val::W(_) | Val::A(_))) {
            return Err(Stop::Incon(format!("intrinsic {} on wide values", n)));
        }
        if n.contains(".with.overflow") {
            let (x, y) = (to_e(&mut self.x, &a[0], w), to_e(&mut self.x, &a[1], w));
            let kind = &n[..4];
            let x_ = &mut self.x;
            let (r, ov) = match kind {
                "uadd" => {
                    let r = x_.bin(Op::Add, w, x, y);
                    let safe = x_.hi(x).checked_add(x_.hi(y)).map_or(false, |h| h <= mask(w));
                    let ov = if safe { x_.c(0, 1) } else { x_.bin(Op::Ult, w, r, x) };
                    (r, ov)
                }
                "usub" => (x_.bin(Op::Sub, w, x, y), x_.bin(Op::Ult, w, x, y)),
                "umul" => {
                    let r = x_.bin(Op::Mul, w, x, y);
                    let safe = x_.hi(x).checked_mul(x_.hi(y)).map_or(false, |h| h <= mask(w));
                    let ov = if safe {
                        x_.c(0, 1)
                    } else if w <= 32 {
                        let (zx, zy) = (x_.zext(x, 64), x_.zext(y, 64));
                        let p = x_.bin(Op::Mul, 64, zx, zy);
                        let k = x_.c(mask(w), 64);
                        x_.bin(Op::Ult, 64, k, p)
                    } else {
                        let z = x_.c(0, w);
                        let nz = x_.bin(Op::Eq, w, x, z);
                        let nz = x_.not(nz);
                        let q = x_.bin(Op::UDiv, w, r, x);
                        let ne = x_.bin(Op::Eq, w, q, y);
                        let ne = x_.not(ne);
                        x_.bin(Op::And, 1, nz, ne)
                    };
                    (r, ov)
                }
                "sadd" | "ssub" => {
                    let r = x_.bin(if kind == "sadd" { Op::Add } else { Op::Sub }, w, x, y);
                    let z = x_.c(0, w);
                    let sxn = x_.bin(Op::Slt, w, x, z);
                    let syn = x_.bin(Op::Slt, w, y, z);
                    let srn = x_.bin(Op::Slt, w, r, z);
                    let eq = x_.bin(Op::Xor, 1, sxn, syn);
                    let same = if kind == "sadd" { x_.not(eq) } else { eq };
                    let ch = x_.bin(Op::Xor, 1, sxn, srn);
                    (r, x_.bin(Op::And, 1, same, ch))
                }
                _ => {
                    if let (Some(p), Some(q)) = (x_.konst(x), x_.konst(y)) {
                        let r = (sx(p, w) as i128) * (sx(q, w) as i128);
                        let rr = (r as u64) & mask(w);
                        let ov = sx(rr, w) as i128 != r;
                        (x_.c(rr, w), x_.c(ov as u64, 1))
                    } else {
                        return Err(Stop::Incon("symbolic smul".into()));
                    }
                }
            };
            let v = Val::A(Rc::new(vec![self.sv(r), self.sv(ov)]));
            self.set_dst(s, c, v);
            return Ok(Out::Go);
        }
        let two = |x: &mut Ex| (to_e(x, &a[0], w), to_e(x, a.get(1).unwrap_or(&Val::I(0)), w));
        let base = n.split('.').next().unwrap_or("");
        let r: E = match base {
            "umin" | "umax" | "smin" | "smax" => {
                let (x, y) = two(&mut self.x);
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let l = self.x.bin(op, w, x, y);
                if base.ends_with("min") {
                    self.x.ite(l, x, y)
                } else {
                    self.x.ite(l, y, x)
                }
            }
            "usub" => {
                let (x, y) = two(&mut self.x);
                let l = self.x.bin(Op::Ult, w, x, y);
                let d = self.x.bin(Op::Sub, w, x, y);
                let z = self.x.c(0, w);
                self.x.ite(l, z, d)
            }
            "uadd" => {
                let (x, y) = two(&mut self.x);
                let d = self.x.bin(Op::Add, w, x, y);
                let l = self.x.bin(Op::Ult, w, d, x);
                let z = self.x.c(mask(w), w);
                self.x.ite(l, z, d)
            }
            "abs" => {
                let (x, _) = two(&mut self.x);
                let z = self.x.c(0, w);
                let l = self.x.bin(Op::Slt, w, x, z);
                let d = self.x.bin(Op::Sub, w, z, x);
                self.x.ite(l, d, x)
            }
            "ucmp" | "scmp" => {
                let (x, y) = two(&mut self.x);
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let l = self.x.bin(op, w, x, y);
                let g = self.x.bin(op, w, y, x);
                let rw = c.retw;
                let (m1, z, p1) = (self.x.c(mask(rw), rw), self.x.c(0, rw), self.x.c(1, rw));
                let i = self.x.ite(g, p1, z);
                self.x.ite(l, m1, i)
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                let k = self.conc(s, &c.args[0])?;
                let v = match base {
                    "ctpop" => k.count_ones() as u64,
                    "ctlz" => {
                        if k == 0 {
                            w as u64
                        } else {
                            (k.leading_zeros() - (64 - w as u32)) as u64
                        }
                    }
                    "cttz" => {
                        if k == 0 {
                            w as u64
                        } else {
                            k.trailing_zeros() as u64
                        }
                    }
                    "bswap" => k.swap_bytes() >> (64 - w as u32),
                    _ => k.reverse_bits() >> (64 - w as u32),
                };
                self.x.c(v, w)
            }
            "fshl" | "fshr" => {
                let k = self.conc(s, &c.args[2])? % w as u64;
                let (x, y) = two(&mut self.x);
                if k == 0 {
                    if base == "fshl" {
                        x
                    } else {
                        y
                    }
                } else {
                    let l = if base == "fshl" { k } else { w as u64 - k };
                    let (kl, kr) = (self.x.c(l, w), self.x.c(w as u64 - l, w));
                    let p = self.x.bin(Op::Shl, w, x, kl);
                    let q = self.x.bin(Op::LShr, w, y, kr);
                    self.x.bin(Op::Or, w, p, q)
                }
            }
            _ => return Err(Stop::Incon(format!("intrinsic {}", n))),
        };
        let v = self.sv(r);
        self.set_dst(s, c, v);
        Ok(Out::Go)
    }

    pub fn entered_names(&self) -> Vec<String> {
        let mut v: BTreeSet<String> = BTreeSet::new();
        for (i, e) in self.entered.iter().enumerate() {
            if *e {
                v.insert(self.m.funcs[i].name.clone());
            }
        }
        v.into_iter().collect()
    }
}

#[inline]
fn opd(fr: &Frame, o: &Opd) -> Val {
    match o {
        Opd::R(r) => fr.regs[*r as usize].clone(),
        Opd::K(k) => Val::I(*k),
        Opd::W(k) => Val::W(*k),
        Opd::U => Val::U,
        Opd::Agg(v) => Val::A(Rc::new(v.iter().map(|x| opd(fr, x)).collect())),
    }
}
fn w128(v: &Val) -> Option<u128> {
    match v {
        Val::W(x) => Some(*x),
        Val::I(x) => Some(*x as u128),
        _ => None,
    }
}
fn to_e(x: &mut Ex, v: &Val, w: u8) -> E {
    match v {
        Val::I(k) => x.c(*k, w),
        Val::S(e) => *e,
        _ => x.c(0, w),
    }
}
fn cmp(p: Pred, w: u8, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sx(x, w) < sx(y, w),
        Pred::Sle => sx(x, w) <= sx(y, w),
        Pred::Sgt => sx(x, w) > sx(y, w),
        Pred::Sge => sx(x, w) >= sx(y, w),
    }
}
fn cmp128(p: Pred, x: u128, y: u128) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => (x as i128) < (y as i128),
        Pred::Sle => x as i128 <= y as i128,
        Pred::Sgt => x as i128 > y as i128,
        Pred::Sge => x as i128 >= y as i128,
    }
}
fn insert(a: Val, v: Val, idx: &[u32], ty: &Ty) -> Val {
    let n = match ty {
        Ty::Struct(f, _) => f.len(),
        Ty::Array(n, _) => *n as usize,
        _ => 0,
    };
    let mut items: Vec<Val> = match a {
        Val::A(x) => (*x).clone(),
        _ => vec![Val::U; n],
    };
    let i = idx[0] as usize;
    if idx.len() == 1 {
        items[i] = v;
    } else {
        let sub = match ty {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) => (**t).clone(),
            _ => Ty::Void,
        };
        items[i] = insert(items[i].clone(), v, &idx[1..], &sub);
    }
    Val::A(Rc::new(items))
}
