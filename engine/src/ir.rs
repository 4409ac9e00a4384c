//! Parser for textual LLVM IR (as printed by rustc/llvm-dis) into a compact register code.
//! Function bodies are parsed lazily, on first call.
use crate::expr::mask;
use std::cell::OnceCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Other, // label, metadata, floats...
}

impl Ty {
    pub fn size_align(&self) -> (u64, u64) {
        match self {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Array(n, t) => {
                let (s, a) = t.size_align();
                (s * n, a)
            }
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut al = 1;
                for t in f.iter() {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Array(_, t) => (t.size_align().0 * i, (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (k, t) in f.iter().enumerate() {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if k as u64 == i {
                        return (off, t.clone());
                    }
                    off += s;
                }
                panic!("bad field")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn bits(&self) -> u8 {
        match self {
            Ty::Int(n) => (*n).min(255) as u8,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),
    P(u8),
}

pub fn lex<'a>(s: &'a str, out: &mut Vec<Tok<'a>>) {
    out.clear();
    let b = s.as_bytes();
    let mut i = 0;
    let n = b.len();
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < n {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => {
                while i < n && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < n && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < n && isw(b[j]) {
                        j += 1
                    }
                    en = j;
                    i = j;
                }
                let t = &s[st..en];
                out.push(if c == b'%' { Tok::Local(t) } else { Tok::Global(t) });
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < n && b[i + 1] == b'"' => {
                i += 1;
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Word("c"));
                out.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < n && isw(b[i]) {
                    i += 1
                }
                out.push(Tok::Num(&s[st..i]));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < n && isw(b[i]) {
                    i += 1
                }
                out.push(Tok::Word(&s[st..i]));
            }
            b'#' | b'!' => {
                // attribute group / metadata reference
                i += 1;
                let st = i;
                while i < n && isw(b[i]) {
                    i += 1
                }
                out.push(Tok::P(c));
                if i > st {
                    out.push(Tok::Word(&s[st..i]));
                }
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && b.get(i + 1) == Some(&b'\\') {
            o.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' {
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
            o.push(h);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// A constant as it appears in the IR.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u64),
    Wide(u128),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Global(String, i64),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u64),
    W(u128),
    U,
    Agg(Rc<Vec<Opd>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Intr(String, u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub d: Option<u32>,
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub argw: Vec<u8>,
    pub retw: u8,
    pub inv: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { d: u32, size: u64, align: u64 },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u64, u8)> },
    Bin { d: u32, op: BinOp, w: u8, a: Opd, b: Opd },
    Cmp { d: u32, p: Pred, w: u8, a: Opd, b: Opd },
    Sel { d: u32, w: u8, c: Opd, a: Opd, b: Opd },
    Cast { d: u32, op: CastOp, from: u8, to: u8, a: Opd },
    Ext { d: u32, a: Opd, idx: Vec<u32> },
    Insv { d: u32, a: Opd, v: Opd, idx: Vec<u32>, ty: Ty },
    Br(u32),
    CBr(Opd, u32, u32),
    Switch { w: u8, v: Opd, def: u32, cases: Vec<(u64, u32)> },
    Call(Box<Call>),
    Ret(Option<Opd>),
    Unreachable,
    Resume(Opd),
    Pad { d: u32 },
    Mov { d: u32, a: Opd },
    ALoad { d: u32, ty: Ty, p: Opd, ord: u8 },
    AStore { ty: Ty, v: Opd, p: Opd, ord: u8 },
    Fence { ord: u8 },
    Rmw { d: u32, op: String, w: u8, p: Opd, v: Opd, ord: u8 },
    Cas { d: u32, w: u8, p: Opd, e: Opd, n: Opd, ord: u8, ford: u8 },
    Nop,
    Bad(String),
}

pub struct Block {
    pub start: u32,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
}

pub struct Body {
    pub code: Vec<Ins>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub blk_of: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub defined: bool,
    pub params: u32,
    text: (usize, usize),
    body: OnceCell<Body>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
    raw: (usize, usize),
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    tdefs: HashMap<String, (usize, usize)>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
}

/// Addresses: object id in the top 32 bits.
pub const STACK0: u64 = 0x4000_0000;
pub const GLOB0: u64 = 0x6000_0000;
pub const FUNC0: u64 = 0x7000_0000;
pub const OBASE: u64 = 0x10000;
pub fn gaddr(i: u32) -> u64 {
    ((GLOB0 + i as u64) << 32) + OBASE
}
pub fn faddr(i: u32) -> u64 {
    ((FUNC0 + i as u64) << 32) + OBASE
}

struct Ps<'m, 'a> {
    m: &'m Module,
    t: &'a [Tok<'a>],
    i: usize,
    regs: HashMap<&'a str, u32>,
    labels: HashMap<&'a str, u32>,
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("cannot read IR");
        let mut m = Module {
            text: String::new(),
            types: HashMap::new(),
            tdefs: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
        };
        let mut pos = 0;
        let b = text.as_bytes();
        let mut toks = vec![];
        while pos < b.len() {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..eol];
            let next = eol + 1;
            if line.starts_with("define ") {
                let end = text[pos..].find("\n}").map(|x| pos + x).unwrap();
                let at = line.find('@').unwrap();
                lex(&line[at..], &mut toks);
                let name = match &toks[0] {
                    Tok::Global(n) => n.to_string(),
                    _ => panic!(),
                };
                let id = m.funcs.len() as u32;
                // forward "declare" duplicates do not occur within one module
                m.fidx.insert(name.clone(), id);
                m.funcs.push(Func { name, id, defined: true, params: 0, text: (pos, end), body: OnceCell::new() });
                pos = end + 3;
                continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                lex(&line[at..], &mut toks);
                if let Tok::Global(n) = &toks[0] {
                    let id = m.funcs.len() as u32;
                    m.fidx.insert(n.to_string(), id);
                    m.funcs.push(Func { name: n.to_string(), id, defined: false, params: 0, text: (pos, pos), body: OnceCell::new() });
                }
            } else if line.starts_with('%') {
                if let Some(x) = line.find(" = type ") {
                    let name = line[1..x].trim_matches('"').to_string();
                    m.tdefs.insert(name, (pos + x + 8, eol));
                }
            } else if line.starts_with('@') {
                lex(&line, &mut toks);
                if let Tok::Global(n) = &toks[0] {
                    let id = m.globals.len() as u32;
                    m.gidx.insert(n.to_string(), id);
                    m.globals.push(Global { name: n.to_string(), ty: Ty::Void, init: None, constant: true, align: 1, raw: (pos, eol) });
                }
            }
            pos = next;
        }
        m.text = text;
        let names: Vec<String> = m.tdefs.keys().cloned().collect();
        for n in names {
            m.resolve_type(&n);
        }
        for i in 0..m.globals.len() {
            let (a, z) = m.globals[i].raw;
            let line = m.text[a..z].to_string();
            let mut toks = vec![];
            lex(&line, &mut toks);
            let (ty, init, constant, align) = {
                let mut p = Ps { m: &m, t: &toks, i: 1, regs: HashMap::new(), labels: HashMap::new() };
                let mut constant = false;
                let mut ext = false;
                let mut alias = false;
                loop {
                    match &p.t[p.i] {
                        Tok::Word("constant") => {
                            constant = true;
                            p.i += 1;
                            break;
                        }
                        Tok::Word("global") => {
                            p.i += 1;
                            break;
                        }
                        Tok::Word("alias") => {
                            alias = true;
                            break;
                        }
                        Tok::Word("external") => {
                            ext = true;
                            p.i += 1;
                        }
                        _ => p.i += 1,
                    }
                }
                if alias {
                    (Ty::Void, None, true, 1)
                } else {
                    let ty = p.ty();
                    let init = if ext { None } else { Some(p.konst(&ty)) };
                    let mut align = ty.size_align().1;
                    while p.i < p.t.len() {
                        if let Tok::Word("align") = p.t[p.i] {
                            if let Tok::Num(n) = p.t[p.i + 1] {
                                align = n.parse().unwrap();
                            }
                        }
                        p.i += 1;
                    }
                    (ty, init, constant, align)
                }
            };
            let g = &mut m.globals[i];
            g.ty = ty;
            g.init = init;
            g.constant = constant;
            g.align = align;
        }
        m
    }
    fn resolve_type(&mut self, name: &str) -> Ty {
        if let Some(t) = self.types.get(name) {
            return t.clone();
        }
        let (a, z) = self.tdefs[name];
        let line = self.text[a..z].to_string();
        let mut toks = vec![];
        lex(&line, &mut toks);
        // resolve dependencies first (no recursive by-value types exist)
        let deps: Vec<String> = toks.iter().filter_map(|t| if let Tok::Local(n) = t { Some(n.to_string()) } else { None }).collect();
        for d in deps {
            self.resolve_type(&d);
        }
        let t = if let Tok::Word("opaque") = toks[0] {
            Ty::Struct(Rc::new(vec![]), false)
        } else {
            let mut p = Ps { m: self, t: &toks, i: 0, regs: HashMap::new(), labels: HashMap::new() };
            p.ty()
        };
        self.types.insert(name.to_string(), t.clone());
        t
    }
    pub fn body(&self, f: u32) -> &Body {
        let fun = &self.funcs[f as usize];
        fun.body.get_or_init(|| self.parse_body(fun))
    }
    fn parse_body(&self, fun: &Func) -> Body {
        let txt = &self.text[fun.text.0..fun.text.1];
        let first_eol = txt.find('\n').unwrap();
        let head = &txt[..first_eol];
        let mut toks = vec![];
        let at = head.find('@').unwrap();
        lex(&head[at..], &mut toks);
        let mut p = Ps { m: self, t: &[], i: 0, regs: HashMap::new(), labels: HashMap::new() };
        let mut unnamed = 0u32;
        // parameters
        {
            let toks2 = toks.clone();
            let mut q = Ps { m: self, t: &toks2, i: 1, regs: HashMap::new(), labels: HashMap::new() };
            q.eat(b'(');
            let mut names: Vec<String> = vec![];
            while !q.is(b')') {
                let _ = q.ty();
                q.skip_attrs();
                if let Tok::Local(n) = &q.t[q.i] {
                    names.push(n.to_string());
                    q.i += 1;
                } else {
                    names.push(unnamed.to_string());
                    unnamed += 1;
                }
                if q.is(b',') {
                    q.i += 1;
                }
            }
            for n in names {
                let k = p.regs.len() as u32;
                p.regs.insert(Box::leak(n.into_boxed_str()), k);
            }
        }
        // find labels
        let body = &txt[first_eol + 1..];
        let mut nblocks = 0u32;
        for line in body.lines() {
            if line.is_empty() || line.starts_with(' ') {
                continue;
            }
            if line.starts_with(';') || line.starts_with('}') {
                continue;
            }
            let name = if line.starts_with('"') { &line[1..1 + line[1..].find('"').unwrap()] } else { &line[..line.find(':').unwrap()] };
            p.labels.insert(name, nblocks);
            nblocks += 1;
        }
        // An unnamed entry block takes the next number; it is never a branch target by name,
        // but phis may refer to it.
        let starts_unlabelled = {
            let l = body.lines().find(|l| !l.trim().is_empty()).unwrap_or("");
            l.starts_with(' ')
        };
        let mut shift = 0;
        if starts_unlabelled {
            shift = 1;
            for v in p.labels.values_mut() {
                *v += 1;
            }
            nblocks += 1;
            let nm = unnamed.to_string();
            p.labels.insert(Box::leak(nm.into_boxed_str()), 0);
        }
        let _ = nblocks;
        let mut code: Vec<Ins> = vec![];
        let mut blocks: Vec<Block> = vec![];
        let mut blk_of = vec![];
        if shift == 1 {
            blocks.push(Block { start: 0, phis: vec![] });
        }
        let mut lines = body.lines().peekable();
        let mut buf = String::new();
        while let Some(line) = lines.next() {
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            if !line.starts_with(' ') {
                if line.starts_with('}') {
                    break;
                }
                blocks.push(Block { start: code.len() as u32, phis: vec![] });
                continue;
            }
            buf.clear();
            buf.push_str(line);
            // continuation lines: switch tables, invoke targets, landingpad clauses
            loop {
                let tr = line.trim_start();
                let more = match lines.peek() {
                    Some(l) => {
                        let lt = l.trim_start();
                        (l.starts_with("          ") || (l.starts_with("    ") && tr.starts_with("switch")))
                            || (lt.starts_with(']') && tr.starts_with("switch"))
                    }
                    None => false,
                };
                if !more {
                    break;
                }
                buf.push(' ');
                buf.push_str(lines.next().unwrap());
            }
            let s: &str = Box::leak(buf.clone().into_boxed_str());
            let mut tk = vec![];
            lex(s, &mut tk);
            let tk: &[Tok] = Box::leak(tk.into_boxed_slice());
            p.t = tk;
            p.i = 0;
            let cur = blocks.len() as u32 - 1;
            let r = p.ins(&mut blocks);
            if let Some(ins) = r {
                code.push(ins);
                blk_of.push(cur);
            }
        }
        Body { code, blocks, nregs: p.regs.len() as u32, blk_of }
    }
}

impl<'m, 'a> Ps<'m, 'a> {
    fn is(&self, c: u8) -> bool {
        matches!(self.t.get(self.i), Some(Tok::P(x)) if *x == c)
    }
    fn eat(&mut self, c: u8) {
        if !self.is(c) {
            panic!("expected {:?} at {} in {:?}", c as char, self.i, self.t);
        }
        self.i += 1;
    }
    fn isw(&self, s: &str) -> bool {
        matches!(self.t.get(self.i), Some(Tok::Word(x)) if *x == s)
    }
    fn num(&mut self) -> u64 {
        match &self.t[self.i] {
            Tok::Num(n) => {
                self.i += 1;
                n.parse().unwrap()
            }
            x => panic!("number expected: {:?} in {:?}", x, self.t),
        }
    }
    fn is_type_start(&self) -> bool {
        match self.t.get(self.i) {
            Some(Tok::Local(_)) => true,
            Some(Tok::P(b'{')) | Some(Tok::P(b'[')) | Some(Tok::P(b'<')) => true,
            Some(Tok::Word(w)) => {
                *w == "void"
                    || *w == "ptr"
                    || *w == "float"
                    || *w == "double"
                    || *w == "metadata"
                    || *w == "half"
                    || *w == "label"
                    || *w == "opaque"
                    || *w == "x86_fp80"
                    || *w == "fp128"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.t[self.i].clone() {
            Tok::Word(w) => {
                self.i += 1;
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.isw("addrspace") {
                            self.i += 4;
                        }
                        Ty::Ptr
                    }
                    _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                    _ => Ty::Other,
                }
            }
            Tok::Local(n) => {
                self.i += 1;
                self.m.types.get(n).cloned().unwrap_or_else(|| panic!("type {}", n))
            }
            Tok::P(b'{') => {
                self.i += 1;
                let mut f = vec![];
                while !self.is(b'}') {
                    f.push(self.ty());
                    if self.is(b',') {
                        self.i += 1;
                    }
                }
                self.i += 1;
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P(b'<') => {
                self.i += 1;
                if self.is(b'{') {
                    self.i += 1;
                    let mut f = vec![];
                    while !self.is(b'}') {
                        f.push(self.ty());
                        if self.is(b',') {
                            self.i += 1;
                        }
                    }
                    self.i += 1;
                    self.eat(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    // vector type: unsupported
                    while !self.is(b'>') {
                        self.i += 1;
                    }
                    self.i += 1;
                    Ty::Other
                }
            }
            Tok::P(b'[') => {
                self.i += 1;
                let n = self.num();
                assert!(self.isw("x"));
                self.i += 1;
                let t = self.ty();
                self.eat(b']');
                Ty::Array(n, Rc::new(t))
            }
            x => panic!("type expected, got {:?} in {:?}", x, self.t),
        };
        t
    }
    fn skip_parens(&mut self) {
        if self.is(b'(') {
            let mut d = 0;
            loop {
                if self.is(b'(') {
                    d += 1
                } else if self.is(b')') {
                    d -= 1
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
    fn is_value_start(&self) -> bool {
        match self.t.get(self.i) {
            Some(Tok::Local(_)) | Some(Tok::Global(_)) | Some(Tok::Num(_)) => true,
            Some(Tok::P(b'{')) | Some(Tok::P(b'[')) | Some(Tok::P(b'<')) => true,
            Some(Tok::Word(w)) => matches!(
                *w,
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "c" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "add" | "sub" | "trunc" | "xor"
            ),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            if self.is_value_start() {
                return;
            }
            match self.t.get(self.i) {
                Some(Tok::Word("align")) => {
                    self.i += 1;
                    if let Some(Tok::Num(_)) = self.t.get(self.i) {
                        self.i += 1;
                    } else {
                        self.skip_parens();
                    }
                }
                Some(Tok::Word(_)) => {
                    self.i += 1;
                    self.skip_parens();
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.is(b'=') {
                        self.i += 2;
                    }
                }
                _ => return,
            }
        }
    }
    fn parse_int(s: &str, ty: &Ty) -> Const {
        let w = match ty {
            Ty::Int(n) => *n,
            _ => 64,
        };
        if w > 64 {
            let v: u128 = if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 } else { s.parse::<u128>().unwrap() };
            return Const::Wide(v);
        }
        let v: u64 = if s.starts_with('-') { s.parse::<i64>().unwrap() as u64 } else { s.parse::<u64>().unwrap_or_else(|_| panic!("int {}", s)) };
        Const::Int(v & mask(w as u8))
    }
    fn konst(&mut self, ty: &Ty) -> Const {
        match self.t[self.i].clone() {
            Tok::Num(s) => {
                self.i += 1;
                match ty {
                    Ty::Int(_) | Ty::Ptr => Self::parse_int(s, ty),
                    _ => Const::Undef,
                }
            }
            Tok::Global(g) => {
                self.i += 1;
                Const::Global(g.to_string(), 0)
            }
            Tok::Word(w) => {
                self.i += 1;
                match w {
                    "null" => Const::Int(0),
                    "true" => Const::Int(1),
                    "false" => Const::Int(0),
                    "undef" | "poison" => Const::Undef,
                    "zeroinitializer" | "none" => Const::Zero,
                    "c" => {
                        let s = match &self.t[self.i] {
                            Tok::Str(s) => unescape(s),
                            _ => panic!(),
                        };
                        self.i += 1;
                        Const::Bytes(s)
                    }
                    "getelementptr" => {
                        while !self.is(b'(') {
                            self.i += 1;
                            if self.isw("inrange") {
                                self.i += 1;
                                self.skip_parens();
                            }
                        }
                        self.i += 1;
                        let sty = self.ty();
                        self.eat(b',');
                        let pty = self.ty();
                        let base = self.konst(&pty);
                        let mut off: i64 = 0;
                        let mut cur = sty;
                        let mut first = true;
                        while self.is(b',') {
                            self.i += 1;
                            let ity = self.ty();
                            let k = match self.konst(&ity) {
                                Const::Int(v) => crate::expr::sx(v, ity.bits()),
                                Const::Zero => 0,
                                _ => panic!("gep const"),
                            };
                            if first {
                                off += cur.size_align().0 as i64 * k;
                                first = false;
                            } else {
                                let (o, t) = cur.field_off(k as u64);
                                off += o as i64;
                                cur = t;
                            }
                        }
                        self.eat(b')');
                        match base {
                            Const::Global(g, o) => Const::Global(g, o + off),
                            Const::Int(v) => Const::Int(v.wrapping_add(off as u64)),
                            Const::Zero => Const::Int(off as u64),
                            _ => Const::Undef,
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                        self.eat(b'(');
                        let t = self.ty();
                        let c = self.konst(&t);
                        assert!(self.isw("to"));
                        self.i += 1;
                        let _ = self.ty();
                        self.eat(b')');
                        c
                    }
                    "add" | "sub" | "xor" => {
                        while !self.is(b'(') {
                            self.i += 1;
                        }
                        self.i += 1;
                        let t = self.ty();
                        let a = self.konst(&t);
                        self.eat(b',');
                        let t = self.ty();
                        let b = self.konst(&t);
                        self.eat(b')');
                        let f = |c: &Const| match c {
                            Const::Int(v) => *v,
                            Const::Global(g, o) => self.gval(g).wrapping_add(*o as u64),
                            _ => 0,
                        };
                        let (x, y) = (f(&a), f(&b));
                        Const::Int(match w {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            _ => x ^ y,
                        })
                    }
                    _ => panic!("const word {} in {:?}", w, self.t),
                }
            }
            Tok::P(c) if c == b'{' || c == b'[' || c == b'<' => {
                self.i += 1;
                let packed = c == b'<' && self.is(b'{');
                if packed {
                    self.i += 1;
                }
                let close = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => {
                        if packed {
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                };
                let mut v = vec![];
                while !self.is(close) {
                    let t = self.ty();
                    let k = self.konst(&t);
                    v.push((t, k));
                    if self.is(b',') {
                        self.i += 1;
                    }
                }
                self.i += 1;
                if packed {
                    self.eat(b'>');
                }
                Const::Agg(v)
            }
            x => panic!("const expected {:?} in {:?}", x, self.t),
        }
    }
    fn gval(&self, g: &str) -> u64 {
        if let Some(&i) = self.m.gidx.get(g) {
            gaddr(i)
        } else if let Some(&i) = self.m.fidx.get(g) {
            faddr(i)
        } else {
            panic!("unknown global {}", g)
        }
    }
    fn reg(&mut self, n: &'a str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn c2o(&self, c: &Const, ty: &Ty) -> Opd {
        match c {
            Const::Int(v) => Opd::K(*v),
            Const::Wide(v) => {
                Opd::W(*v)
            }
            Const::Undef => Opd::U,
            Const::Global(g, o) => Opd::K(self.gval(g).wrapping_add(*o as u64)),
            Const::Zero => match ty {
                Ty::Struct(f, _) => Opd::Agg(Rc::new(f.iter().map(|t| self.c2o(c, t)).collect())),
                Ty::Array(n, t) => Opd::Agg(Rc::new((0..*n).map(|_| self.c2o(c, t)).collect())),
                _ => Opd::K(0),
            },
            Const::Agg(v) => Opd::Agg(Rc::new(v.iter().map(|(t, k)| self.c2o(k, t)).collect())),
            Const::Bytes(b) => Opd::Agg(Rc::new(b.iter().map(|x| Opd::K(*x as u64)).collect())),
        }
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        if let Tok::Local(n) = self.t[self.i] {
            self.i += 1;
            return Opd::R(self.reg(n));
        }
        let c = self.konst(ty);
        self.c2o(&c, ty)
    }
    fn tval(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        assert!(self.isw("label"), "{:?}", self.t);
        self.i += 1;
        match self.t[self.i] {
            Tok::Local(n) => {
                self.i += 1;
                *self.labels.get(n).unwrap_or_else(|| panic!("label {} {:?}", n, self.t))
            }
            _ => panic!(),
        }
    }
    /// An atomic operation's ordering: 1 acquires, 2 releases.
    fn ordering(&mut self) -> u8 {
        self.skip_flags(&["syncscope"]);
        let o = if self.isw("acquire") {
            1
        } else if self.isw("release") {
            2
        } else if self.isw("acq_rel") || self.isw("seq_cst") {
            3
        } else if self.isw("monotonic") || self.isw("unordered") {
            0
        } else {
            panic!("ordering of an atomic operation")
        };
        self.i += 1;
        o
    }
    fn skip_flags(&mut self, fl: &[&str]) {
        loop {
            match self.t.get(self.i) {
                Some(Tok::Word(w)) if fl.contains(w) => {
                    self.i += 1;
                    self.skip_parens_if_range(w);
                }
                _ => return,
            }
        }
    }
    fn skip_parens_if_range(&mut self, w: &str) {
        if w == "inrange" {
            self.skip_parens();
        }
    }
    fn ins(&mut self, blocks: &mut Vec<Block>) -> Option<Ins> {
        let mut dst: Option<&'a str> = None;
        if let (Some(Tok::Local(n)), Some(Tok::P(b'='))) = (self.t.get(0), self.t.get(1)) {
            dst = Some(n);
            self.i = 2;
        }
        let d = dst.map(|n| self.reg(n));
        let op = match &self.t[self.i] {
            Tok::Word(w) => *w,
            x => panic!("opcode {:?}", x),
        };
        self.i += 1;
        let dd = d.unwrap_or(0);
        Some(match op {
            "alloca" => {
                let t = self.ty();
                let (s, a) = t.size_align();
                let mut align = a;
                while self.i < self.t.len() {
                    if self.isw("align") {
                        if let Tok::Num(n) = self.t[self.i + 1] {
                            align = n.parse().unwrap();
                        }
                    }
                    self.i += 1;
                }
                Ins::Alloca { d: dd, size: s, align }
            }
            "load" => {
                let at = self.isw("atomic");
                self.skip_flags(&["atomic", "volatile"]);
                let ty = self.ty();
                self.eat(b',');
                let (_, p) = self.tval();
                if at {
                    Ins::ALoad { d: dd, ty, p, ord: self.ordering() }
                } else {
                    Ins::Load { d: dd, ty, p }
                }
            }
            "store" => {
                let at = self.isw("atomic");
                self.skip_flags(&["atomic", "volatile"]);
                let (ty, v) = self.tval();
                self.eat(b',');
                let (_, p) = self.tval();
                if at {
                    Ins::AStore { ty, v, p, ord: self.ordering() }
                } else {
                    Ins::Store { ty, v, p }
                }
            }
            "getelementptr" => {
                self.skip_flags(&["inbounds", "nuw", "nusw", "inrange"]);
                let mut cur = self.ty();
                self.eat(b',');
                let (_, base) = self.tval();
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut first = true;
                while self.is(b',') {
                    self.i += 1;
                    if self.is(b'!') {
                        break;
                    }
                    let (it, iv) = self.tval();
                    let w = it.bits();
                    if first {
                        first = false;
                        let s = cur.size_align().0;
                        match iv {
                            Opd::K(k) => off = off.wrapping_add(crate::expr::sx(k, w).wrapping_mul(s as i64)),
                            o => idx.push((o, s, w)),
                        }
                    } else {
                        match (&cur, iv) {
                            (_, Opd::K(k)) => {
                                let (o, t) = cur.field_off(crate::expr::sx(k, w) as u64);
                                off += o as i64;
                                cur = t;
                            }
                            (Ty::Array(_, t), o) => {
                                let s = t.size_align().0;
                                idx.push((o, s, w));
                                cur = (**t).clone();
                            }
                            _ => panic!("gep"),
                        }
                    }
                }
                Ins::Gep { d: dd, base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.skip_flags(&["nuw", "nsw", "exact", "disjoint"]);
                let t = self.ty();
                let a = self.val(&t);
                self.eat(b',');
                let b = self.val(&t);
                let w = t.bits();
                if w == 0 || w > 128 {
                    return Some(Ins::Bad(format!("{} on {:?}", op, t)));
                }
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                Ins::Bin { d: dd, op: o, w, a, b }
            }
            "icmp" => {
                self.skip_flags(&["samesign"]);
                let p = match &self.t[self.i] {
                    Tok::Word(w) => match *w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!(),
                    },
                    _ => panic!(),
                };
                self.i += 1;
                let t = self.ty();
                let a = self.val(&t);
                self.eat(b',');
                let b = self.val(&t);
                if t.bits() == 0 {
                    return Some(Ins::Bad(format!("icmp on {:?}", t)));
                }
                Ins::Cmp { d: dd, p, w: t.bits(), a, b }
            }
            "select" => {
                self.skip_flags(&["nnan", "ninf", "nsz", "fast"]);
                let (_, c) = self.tval();
                self.eat(b',');
                let (t, a) = self.tval();
                self.eat(b',');
                let (_, b) = self.tval();
                Ins::Sel { d: dd, w: t.bits(), c, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" => {
                self.skip_flags(&["nuw", "nsw", "nneg"]);
                let (t, a) = self.tval();
                if op == "freeze" {
                    return Some(Ins::Mov { d: dd, a });
                }
                self.i += 1;
                let t2 = self.ty();
                let o = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bit,
                    _ => {
                        if t2.bits() > t.bits() {
                            CastOp::ZExt
                        } else {
                            CastOp::Trunc
                        }
                    }
                };
                if t.bits() == 0 || t2.bits() == 0 {
                    return Some(Ins::Bad(format!("cast {:?} {:?}", t, t2)));
                }
                Ins::Cast { d: dd, op: o, from: t.bits(), to: t2.bits(), a }
            }
            "extractvalue" => {
                let (_, a) = self.tval();
                let mut idx = vec![];
                while self.is(b',') {
                    self.i += 1;
                    if let Tok::Num(_) = self.t[self.i] {
                        idx.push(self.num() as u32);
                    } else {
                        break;
                    }
                }
                Ins::Ext { d: dd, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tval();
                self.eat(b',');
                let (_, v) = self.tval();
                let mut idx = vec![];
                while self.is(b',') {
                    self.i += 1;
                    if let Tok::Num(_) = self.t[self.i] {
                        idx.push(self.num() as u32);
                    } else {
                        break;
                    }
                }
                Ins::Insv { d: dd, a, v, idx, ty }
            }
            "br" => {
                if self.isw("label") {
                    Ins::Br(self.label())
                } else {
                    let (_, c) = self.tval();
                    self.eat(b',');
                    let t = self.label();
                    self.eat(b',');
                    let f = self.label();
                    Ins::CBr(c, t, f)
                }
            }
            "switch" => {
                let (t, v) = self.tval();
                self.eat(b',');
                let def = self.label();
                self.eat(b'[');
                let mut cases = vec![];
                while !self.is(b']') {
                    let ct = self.ty();
                    let k = match self.konst(&ct) {
                        Const::Int(k) => k,
                        _ => panic!(),
                    };
                    self.eat(b',');
                    let l = self.label();
                    cases.push((k, l));
                }
                Ins::Switch { w: t.bits(), v, def, cases }
            }
            "ret" => {
                if self.isw("void") {
                    Ins::Ret(None)
                } else {
                    let (_, v) = self.tval();
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => {
                let (_, v) = self.tval();
                Ins::Resume(v)
            }
            "landingpad" => Ins::Pad { d: dd },
            "phi" => {
                self.skip_flags(&["nnan", "ninf", "nsz", "fast"]);
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.eat(b'[');
                    let v = self.val(&t);
                    self.eat(b',');
                    let l = match self.t[self.i] {
                        Tok::Local(n) => *self.labels.get(n).unwrap_or_else(|| panic!("phi label {}", n)),
                        _ => panic!(),
                    };
                    self.i += 1;
                    self.eat(b']');
                    inc.push((l, v));
                    if self.is(b',') && matches!(self.t.get(self.i + 1), Some(Tok::P(b'['))) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                blocks.last_mut().unwrap().phis.push((dd, inc));
                return None;
            }
            "fence" => Ins::Fence { ord: self.ordering() },
            "atomicrmw" => {
                self.skip_flags(&["volatile"]);
                let o = match &self.t[self.i] {
                    Tok::Word(w) => w.to_string(),
                    _ => panic!(),
                };
                self.i += 1;
                let (_, p) = self.tval();
                self.eat(b',');
                let (t, v) = self.tval();
                Ins::Rmw { d: dd, op: o, w: t.bits(), p, v, ord: self.ordering() }
            }
            "cmpxchg" => {
                self.skip_flags(&["weak", "volatile"]);
                let (_, p) = self.tval();
                self.eat(b',');
                let (t, e) = self.tval();
                self.eat(b',');
                let (_, n) = self.tval();
                let ord = self.ordering();
                Ins::Cas { d: dd, w: t.bits(), p, e, n, ord, ford: self.ordering() }
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                if op == "tail" || op == "musttail" || op == "notail" {
                    self.i += 1;
                }
                let isinv = op == "invoke";
                // calling convention, return attributes
                while !self.is_type_start() {
                    self.i += 1;
                    self.skip_parens();
                    if let Some(Tok::Num(_)) = self.t.get(self.i) {
                        self.i += 1;
                    }
                }
                let rt = self.ty();
                if self.is(b'(') {
                    // full function type (varargs): skip
                    self.skip_parens();
                }
                let callee = match self.t[self.i].clone() {
                    Tok::Global(g) => {
                        self.i += 1;
                        let id = *self.m.fidx.get(g).unwrap_or_else(|| panic!("fn {}", g));
                        if g.starts_with("llvm.") {
                            Callee::Intr(g.to_string(), id)
                        } else {
                            Callee::Fn(id)
                        }
                    }
                    Tok::Local(n) => {
                        self.i += 1;
                        Callee::Ind(Opd::R(self.reg(n)))
                    }
                    Tok::Word("asm") => {
                        // inline asm: treated as an opaque barrier only when it has no outputs
                        return Some(if d.is_none() { Ins::Nop } else { Ins::Bad("asm".into()) });
                    }
                    _ => {
                        let c = self.konst(&Ty::Ptr);
                        Callee::Ind(self.c2o(&c, &Ty::Ptr))
                    }
                };
                self.eat(b'(');
                let mut args = vec![];
                let mut argw = vec![];
                while !self.is(b')') {
                    let t = self.ty();
                    if t == Ty::Other {
                        // metadata or floating point argument
                        let mut depth = 0;
                        while !(depth == 0 && (self.is(b',') || self.is(b')'))) {
                            if self.is(b'(') {
                                depth += 1
                            }
                            if self.is(b')') {
                                depth -= 1
                            }
                            self.i += 1;
                        }
                        args.push(Opd::U);
                        argw.push(0);
                    } else {
                        self.skip_attrs();
                        let v = self.val(&t);
                        args.push(v);
                        argw.push(t.bits());
                    }
                    if self.is(b',') {
                        self.i += 1;
                    }
                }
                self.i += 1;
                let mut inv = None;
                if isinv {
                    while !self.isw("to") {
                        self.i += 1;
                    }
                    self.i += 1;
                    let n = self.label();
                    assert!(self.isw("unwind"));
                    self.i += 1;
                    let u = self.label();
                    inv = Some((n, u));
                }
                Ins::Call(Box::new(Call { d, callee, args, argw, retw: rt.bits(), inv }))
            }
            _ => Ins::Bad(format!("{}", op)),
        })
    }
}
