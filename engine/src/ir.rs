//! Textual LLVM IR: lazy loading, linking across modules and compilation to a compact op vector.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
            Ty::Other => 16,
            Ty::Void => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => match &**t {
                Ty::I(w) => ((*n as u64) * (*w as u64) + 7) / 8,
                t => *n as u64 * t.size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::I(_) | Ty::Vec(..) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Other => 16,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off on {:?}", self),
        }
    }
    /// width if scalar that lives in an I/S value
    pub fn sw(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(u32),
    X(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Bitcast, // same-size reinterpretation (also ptrtoint / inttoptr of equal width)
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Vec<(u32, Opd)>,
}
#[derive(Debug)]
pub enum Callee {
    F(u32),
    Ind(Opd),
    Asm(&'static str),
}
#[derive(Debug)]
pub enum Op {
    Bin(B, u32, u32, Opd, Opd),
    VBin(B, u32, u32, Opd, Opd), // lane width
    Icmp(P, u32, u32, Opd, Opd),
    VIcmp(P, u32, u32, Opd, Opd),
    FBin(char, bool, u32, Opd, Opd), // op, is double
    FNeg(bool, u32, Opd),
    Fcmp(&'static str, bool, u32, Opd, Opd),
    Cast(CastK, Ty, Ty, u32, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, i64, u32)>),
    Alloca(u32, u64),
    Call(Option<u32>, Callee, Vec<Opd>),
    Intr(Option<u32>, &'static str, u32, Vec<Opd>), // name, operand width
    Select(u32, Ty, Opd, Opd, Opd),
    ExtractV(u32, Opd, Vec<u32>),
    InsertV(u32, Opd, Opd, Vec<u32>),
    ExtractE(u32, Opd, Opd),
    InsertE(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<u32>),
    Cmpxchg(u32, Ty, Opd, Opd, Opd),
    Rmw(u32, &'static str, Ty, Opd, Opd),
    Copy(u32, Opd),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(Opd, u32, Vec<(u64, Edge)>, Edge),
    Ret(Option<Opd>),
    Unreachable,
    Nop,
    Unsup(String),
}
#[derive(Debug)]
pub struct Func {
    pub name: &'static str,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub ops: Vec<Op>,
    pub allocas: u32,
}

pub struct Module {
    pub name: String,
    pub funcs: HashMap<&'static str, u32>,
    pub globs: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, &'static str>,
}
pub struct FSlot {
    pub name: &'static str,
    pub module: u32,
    pub text: Option<&'static str>,
    pub func: RefCell<Option<Rc<Func>>>,
    pub kind: u32, // interception id, 0 = none (filled in by exec)
}
pub struct GSlot {
    pub name: &'static str,
    pub module: u32,
    pub decl: &'static str, // text after '='
    pub external: bool,
    pub weak: bool,
    pub info: RefCell<Option<Rc<GInit>>>,
}
pub struct GInit {
    pub bytes: Vec<u8>,
    pub readonly: bool,
}

pub struct Program {
    pub modules: Vec<Module>,
    pub funcs: RefCell<Vec<FSlot>>,
    pub ext_funcs: RefCell<HashMap<&'static str, u32>>,
    pub globs: Vec<GSlot>,
    pub ext_globs: HashMap<&'static str, u32>,
}

pub const FN_BASE: u64 = 0x0700_0000_0000_0000;

fn name_tok(s: &str) -> (&str, &str) {
    // s starts right after '@' or '%'; returns (name, rest)
    if s.starts_with('"') {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], &s[e + 1..])
    } else {
        let e = s
            .bytes()
            .position(|c| !(c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'))
            .unwrap_or(s.len());
        (&s[..e], &s[e..])
    }
}

impl Program {
    pub fn load(paths: &[String]) -> Program {
        let mut p = Program {
            modules: vec![],
            funcs: RefCell::new(vec![]),
            ext_funcs: RefCell::new(HashMap::new()),
            globs: vec![],
            ext_globs: HashMap::new(),
        };
        // slot 0 unused so that no object/function has id 0
        p.globs.push(GSlot { name: "", module: 0, decl: "", external: true, weak: false, info: RefCell::new(None) });
        for path in paths {
            let text: &'static str = Box::leak(
                String::from_utf8_lossy(&std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e)))
                    .into_owned()
                    .into_boxed_str(),
            );
            p.load_module(path, text);
        }
        p
    }
    fn load_module(&mut self, path: &str, text: &'static str) {
        let mi = self.modules.len() as u32;
        let base = path.rsplit('/').next().unwrap().to_string();
        let mut m = Module { name: base, funcs: HashMap::new(), globs: HashMap::new(), types: HashMap::new() };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let funcs = self.funcs.get_mut();
        while pos < bytes.len() {
            let eol = memchr(b'\n', bytes, pos);
            let line = &text[pos..eol];
            let mut next = eol + 1;
            if line.starts_with('@') {
                let (name, rest) = name_tok(&line[1..]);
                let rest = rest.trim_start().strip_prefix('=').unwrap().trim_start();
                let external = rest.starts_with("external ") || rest.starts_with("extern_weak ");
                let weak = rest.starts_with("extern_weak ");
                let internal = rest.starts_with("private ") || rest.starts_with("internal ");
                let id = self.globs.len() as u32;
                self.globs.push(GSlot { name, module: mi, decl: rest, external, weak, info: RefCell::new(None) });
                m.globs.insert(name, id);
                if !external && !internal {
                    self.ext_globs.entry(name).or_insert(id);
                }
            } else if line.starts_with("define ") {
                let mut q = pos;
                loop {
                    let e = memchr(b'\n', bytes, q);
                    if &text[q..e] == "}" {
                        next = e + 1;
                        break;
                    }
                    q = e + 1;
                }
                let at = line.find('@').unwrap();
                let (name, _) = name_tok(&line[at + 1..]);
                let internal = line.starts_with("define internal ") || line.starts_with("define private ");
                let id = funcs.len() as u32;
                funcs.push(FSlot {
                    name,
                    module: mi,
                    text: Some(&text[pos..next]),
                    func: RefCell::new(None),
                    kind: 0,
                });
                m.funcs.insert(name, id);
                if !internal {
                    self.ext_funcs.get_mut().entry(name).or_insert(id);
                }
            } else if line.starts_with('%') {
                let (name, rest) = name_tok(&line[1..]);
                let rest = rest.trim_start().strip_prefix('=').unwrap().trim_start();
                let rest = rest.strip_prefix("type").unwrap();
                m.types.insert(name, rest);
            }
            pos = next;
        }
        self.modules.push(m);
    }
    pub fn find_func(&self, module: u32, name: &str) -> Option<u32> {
        if let Some(&f) = self.modules[module as usize].funcs.get(name) {
            return Some(f);
        }
        self.ext_funcs.borrow().get(name).copied()
    }
    pub fn resolve_func(&self, module: u32, name: &'static str) -> u32 {
        if let Some(f) = self.find_func(module, name) {
            return f;
        }
        let mut fs = self.funcs.borrow_mut();
        let id = fs.len() as u32;
        fs.push(FSlot { name, module, text: None, func: RefCell::new(None), kind: 0 });
        self.ext_funcs.borrow_mut().insert(name, id);
        id
    }
    /// address of a symbol used as a value
    pub fn sym_addr(&self, module: u32, name: &'static str) -> u64 {
        let m = &self.modules[module as usize];
        if let Some(&f) = m.funcs.get(name) {
            return FN_BASE + (f as u64) * 16;
        }
        if let Some(&g) = m.globs.get(name) {
            let gs = &self.globs[g as usize];
            if !gs.external {
                return (g as u64) << 32;
            }
            if let Some(&d) = self.ext_globs.get(name) {
                return (d as u64) << 32;
            }
            if gs.weak {
                return 0;
            }
            if let Some(&f) = self.ext_funcs.borrow().get(name) {
                return FN_BASE + (f as u64) * 16;
            }
            return (g as u64) << 32; // undefined external data
        }
        FN_BASE + (self.resolve_func(module, name) as u64) * 16
    }
    pub fn glob_init(&self, g: u32) -> Rc<GInit> {
        let gs = &self.globs[g as usize];
        if let Some(i) = &*gs.info.borrow() {
            return i.clone();
        }
        let mut p = Parser::new(self, gs.module, gs.decl);
        let mut ro = false;
        loop {
            match p.peek() {
                Tok::W("global") => {
                    p.next();
                    break;
                }
                Tok::W("constant") => {
                    ro = true;
                    p.next();
                    break;
                }
                Tok::W("alias") => panic!("alias {}", gs.name),
                Tok::End => panic!("bad global {}", gs.decl),
                Tok::P(b'(') => p.skip_balanced(),
                _ => {
                    p.next();
                }
            }
        }
        let ty = p.ty();
        let bytes = if gs.external {
            vec![0u8; (ty.size() as usize).max(16)]
        } else {
            let mut b = vec![0u8; ty.size() as usize];
            let v = p.cval(&ty);
            put_bytes(&ty, &v, &mut b);
            b
        };
        let r = Rc::new(GInit { bytes, readonly: ro && !gs.external });
        *gs.info.borrow_mut() = Some(r.clone());
        r
    }
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        {
            let fs = self.funcs.borrow();
            let s = &fs[id as usize];
            if let Some(f) = &*s.func.borrow() {
                return Some(f.clone());
            }
            s.text?;
        }
        let (m, t) = {
            let fs = self.funcs.borrow();
            (fs[id as usize].module, fs[id as usize].text.unwrap())
        };
        let f = Rc::new(compile(self, m, t));
        *self.funcs.borrow()[id as usize].func.borrow_mut() = Some(f.clone());
        Some(f)
    }
    pub fn fname(&self, id: u32) -> &'static str {
        self.funcs.borrow()[id as usize].name
    }
}

fn memchr(c: u8, b: &[u8], from: usize) -> usize {
    // simple word-at-a-time is not needed: lines are short
    match b[from..].iter().position(|&x| x == c) {
        Some(i) => from + i,
        None => b.len(),
    }
}

pub fn put_bytes(ty: &Ty, v: &V, out: &mut [u8]) {
    match (ty, v) {
        (Ty::Arr(_, t), V::A(vs)) => {
            let s = t.size() as usize;
            for (i, x) in vs.iter().enumerate() {
                put_bytes(t, x, &mut out[i * s..(i + 1) * s]);
            }
        }
        (Ty::Struct(f, _), V::A(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                let (o, t) = ty.field_off(i as u64);
                let s = f[i].size() as usize;
                put_bytes(&t, x, &mut out[o as usize..o as usize + s]);
            }
        }
        (Ty::Vec(_, t), V::A(vs)) => {
            let s = t.size() as usize;
            for (i, x) in vs.iter().enumerate() {
                put_bytes(t, x, &mut out[i * s..(i + 1) * s]);
            }
        }
        (_, V::I(x)) => {
            let n = ty.store_size().min(8) as usize;
            if n <= out.len() {
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
        (_, V::X(x)) => {
            let n = ty.store_size().min(16) as usize;
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        _ => panic!("put_bytes {:?} {:?}", ty, v),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    W(&'static str),
    L(&'static str),
    G(&'static str),
    N(&'static str),
    S(&'static str),
    C(&'static str),
    P(u8),
    M(&'static str),
    Nl,
    End,
}

pub struct Parser<'a> {
    pub prog: &'a Program,
    pub module: u32,
    pub s: &'static str,
    pub pos: usize,
    pub cur: Option<Tok>,
    pub locals: HashMap<&'static str, u32>,
    pub nregs: u32,
}

impl<'a> Parser<'a> {
    pub fn new(prog: &'a Program, module: u32, s: &'static str) -> Parser<'a> {
        Parser { prog, module, s, pos: 0, cur: None, locals: HashMap::new(), nregs: 0 }
    }
    fn lex(&mut self) -> Tok {
        let b = self.s.as_bytes();
        loop {
            if self.pos >= b.len() {
                return Tok::End;
            }
            let c = b[self.pos];
            match c {
                b' ' | b'\t' | b'\r' => {
                    self.pos += 1;
                }
                b';' => {
                    while self.pos < b.len() && b[self.pos] != b'\n' {
                        self.pos += 1;
                    }
                }
                b'\n' => {
                    self.pos += 1;
                    return Tok::Nl;
                }
                b'%' | b'@' => {
                    let (n, rest) = name_tok(&self.s[self.pos + 1..]);
                    self.pos = self.s.len() - rest.len();
                    return if c == b'%' { Tok::L(n) } else { Tok::G(n) };
                }
                b'!' => {
                    let st = self.pos;
                    self.pos += 1;
                    while self.pos < b.len()
                        && (b[self.pos].is_ascii_alphanumeric() || b[self.pos] == b'_' || b[self.pos] == b'.')
                    {
                        self.pos += 1;
                    }
                    return Tok::M(&self.s[st..self.pos]);
                }
                b'#' => {
                    let st = self.pos;
                    self.pos += 1;
                    while self.pos < b.len() && b[self.pos].is_ascii_digit() {
                        self.pos += 1;
                    }
                    return Tok::M(&self.s[st..self.pos]);
                }
                b'"' => {
                    let e = self.s[self.pos + 1..].find('"').unwrap() + self.pos + 1;
                    let r = &self.s[self.pos + 1..e];
                    self.pos = e + 1;
                    return Tok::S(r);
                }
                b'c' if b.get(self.pos + 1) == Some(&b'"') => {
                    let e = self.s[self.pos + 2..].find('"').unwrap() + self.pos + 2;
                    let r = &self.s[self.pos + 2..e];
                    self.pos = e + 1;
                    return Tok::C(r);
                }
                b'0'..=b'9' | b'-' | b'+' => {
                    let st = self.pos;
                    self.pos += 1;
                    while self.pos < b.len()
                        && (b[self.pos].is_ascii_alphanumeric()
                            || b[self.pos] == b'.'
                            || ((b[self.pos] == b'+' || b[self.pos] == b'-')
                                && (b[self.pos - 1] == b'e' || b[self.pos - 1] == b'E')))
                    {
                        self.pos += 1;
                    }
                    return Tok::N(&self.s[st..self.pos]);
                }
                b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' | b'.' => {
                    let st = self.pos;
                    while self.pos < b.len()
                        && (b[self.pos].is_ascii_alphanumeric()
                            || b[self.pos] == b'_'
                            || b[self.pos] == b'.'
                            || b[self.pos] == b'$'
                            || b[self.pos] == b'-')
                    {
                        self.pos += 1;
                    }
                    let w = &self.s[st..self.pos];
                    if w.starts_with("f0x") {
                        return Tok::N(w);
                    }
                    return Tok::W(w);
                }
                _ => {
                    self.pos += 1;
                    return Tok::P(c);
                }
            }
        }
    }
    pub fn peek(&mut self) -> Tok {
        if self.cur.is_none() {
            self.cur = Some(self.lex());
        }
        self.cur.unwrap()
    }
    pub fn next(&mut self) -> Tok {
        let t = self.peek();
        self.cur = None;
        t
    }
    pub fn eatp(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expectp(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?} got {:?} near {}", c as char, t, self.ctx());
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if let Tok::W(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn ctx(&self) -> &'static str {
        let a = self.pos.saturating_sub(160);
        let b = (self.pos + 60).min(self.s.len());
        let mut a = a;
        while !self.s.is_char_boundary(a) {
            a += 1;
        }
        let mut b = b;
        while !self.s.is_char_boundary(b) {
            b -= 1;
        }
        &self.s[a..b]
    }
    pub fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => d += 1,
                Tok::P(b')') | Tok::P(b'}') | Tok::P(b']') | Tok::P(b'>') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
    pub fn is_ty(&mut self) -> bool {
        match self.peek() {
            Tok::W(w) => {
                matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat" | "metadata" | "label" | "token" | "x86_amx")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::L(_) => true,
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W("void") => Ty::Void,
            Tok::W("ptr") => {
                if self.eatw("addrspace") {
                    self.skip_balanced();
                }
                Ty::Ptr
            }
            Tok::W("float") => Ty::F32,
            Tok::W("double") => Ty::F64,
            Tok::W("half") | Tok::W("bfloat") => Ty::I(16),
            Tok::W("fp128") | Tok::W("x86_fp80") | Tok::W("metadata") | Tok::W("label") | Tok::W("token") => Ty::Other,
            Tok::W(w) if w.starts_with('i') => match w[1..].parse() {
                Ok(n) => Ty::I(n),
                Err(_) => panic!("type {} near {}", w, self.ctx()),
            },
            Tok::L(n) => {
                let t = self.prog.modules[self.module as usize].types.get(n).copied();
                match t {
                    Some(t) if t.trim() != "opaque" => {
                        let mut p = Parser::new(self.prog, self.module, t);
                        p.ty()
                    }
                    _ => Ty::I(8),
                }
            }
            Tok::P(b'{') => {
                let mut f = vec![];
                if !self.eatp(b'}') {
                    loop {
                        f.push(self.ty());
                        if !self.eatp(b',') {
                            break;
                        }
                    }
                    self.expectp(b'}');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P(b'<') => {
                if self.peek() == Tok::P(b'{') {
                    let t = self.ty();
                    self.expectp(b'>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.num() as u32;
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.expectp(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P(b'[') => {
                let n = self.num();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expectp(b']');
                Ty::Arr(n, Rc::new(t))
            }
            t => panic!("type token {:?} near {}", t, self.ctx()),
        }
    }
    pub fn num(&mut self) -> u64 {
        match self.next() {
            Tok::N(s) => s.parse::<i128>().unwrap() as u64,
            t => panic!("number {:?} near {}", t, self.ctx()),
        }
    }
    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::I(w) if *w > 64 => V::X(Rc::new(0)),
            Ty::Arr(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Vec(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => V::I(0),
        }
    }
    pub fn cval(&mut self, ty: &Ty) -> V {
        match self.val(ty) {
            Opd::C(v) => v,
            Opd::R(_) => panic!("register in constant"),
        }
    }
    pub fn tval(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    /// skip parameter attributes before a value
    pub fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::W(w) => {
                    if matches!(
                        w,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr"
                            | "inttoptr" | "ptrtoint" | "bitcast" | "add" | "sub" | "trunc" | "icmp" | "splat" | "blockaddress"
                            | "xor" | "ptrtoaddr" | "addrspacecast" | "asm"
                    ) {
                        return;
                    }
                    self.next();
                    if self.peek() == Tok::P(b'(') {
                        self.skip_balanced();
                    } else if w == "align" {
                        self.next();
                    }
                }
                Tok::S(_) => {
                    self.next();
                    if self.eatp(b'=') {
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
    pub fn reg(&mut self, n: &'static str) -> u32 {
        if let Some(&r) = self.locals.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.locals.insert(n, r);
        r
    }
    pub fn val(&mut self, ty: &Ty) -> Opd {
        let t = self.next();
        Opd::C(match t {
            Tok::L(n) => return Opd::R(self.reg(n)),
            Tok::G(n) => V::I(self.prog.sym_addr(self.module, n)),
            Tok::W("true") => V::I(1),
            Tok::W("false") | Tok::W("null") | Tok::W("none") => V::I(0),
            Tok::W("undef") | Tok::W("poison") | Tok::W("zeroinitializer") => Self::zero(ty),
            Tok::N(s) => match ty {
                Ty::F64 => V::I(parse_f64(s).to_bits()),
                Ty::F32 => V::I((parse_f32(s)).to_bits() as u64),
                Ty::I(w) if *w > 64 => {
                    let x: u128 = if s.starts_with('-') {
                        s.parse::<i128>().unwrap_or(0) as u128
                    } else {
                        s.parse::<u128>().unwrap_or(0)
                    };
                    let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    V::X(Rc::new(x & m))
                }
                Ty::I(w) => match s.parse::<i128>() {
                    Ok(x) => V::I(x as u64 & crate::expr::mask(*w)),
                    Err(_) => V::I(0),
                },
                Ty::Other => V::I(0),
                _ => panic!("number {} for {:?}", s, ty),
            },
            Tok::C(s) => {
                let mut out = vec![];
                let b = s.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            out.push(V::I(b'\\' as u64));
                            i += 2;
                        } else {
                            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
                            out.push(V::I(h as u64));
                            i += 3;
                        }
                    } else {
                        out.push(V::I(b[i] as u64));
                        i += 1;
                    }
                }
                V::A(Rc::new(out))
            }
            Tok::P(b'{') | Tok::P(b'[') => {
                let close = if t == Tok::P(b'{') { b'}' } else { b']' };
                self.agg(close)
            }
            Tok::P(b'<') => {
                if self.peek() == Tok::P(b'{') {
                    self.next();
                    let v = self.agg(b'}');
                    self.expectp(b'>');
                    v
                } else {
                    self.agg(b'>')
                }
            }
            Tok::W("splat") => {
                self.expectp(b'(');
                let (_, v) = self.tval();
                self.expectp(b')');
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => panic!("splat"),
                };
                match v {
                    Opd::C(v) => V::A(Rc::new(vec![v; n as usize])),
                    _ => panic!(),
                }
            }
            Tok::W("inttoptr") | Tok::W("ptrtoint") | Tok::W("bitcast") | Tok::W("trunc") | Tok::W("ptrtoaddr") => {
                while let Tok::W(_) = self.peek() {
                    self.next();
                }
                self.expectp(b'(');
                let (_, v) = self.tval();
                assert!(self.eatw("to"));
                let t2 = self.ty();
                self.expectp(b')');
                match v {
                    Opd::C(V::I(x)) => V::I(x & crate::expr::mask(t2.sw().max(1))),
                    Opd::C(v) => v,
                    _ => panic!(),
                }
            }
            Tok::W("getelementptr") => {
                while let Tok::W(_) = self.peek() {
                    self.next();
                    if self.peek() == Tok::P(b'(') {
                        break;
                    }
                }
                self.expectp(b'(');
                let bt = self.ty();
                self.expectp(b',');
                let (_, base) = self.tval();
                let mut a = match base {
                    Opd::C(V::I(x)) => x,
                    _ => panic!(),
                };
                let mut ct = bt;
                let mut first = true;
                while self.eatp(b',') {
                    let (it, iv) = self.tval();
                    let i = match iv {
                        Opd::C(V::I(x)) => crate::expr::sx(x, it.sw()),
                        _ => panic!(),
                    };
                    if first {
                        a = a.wrapping_add((i as u64).wrapping_mul(ct.size()));
                        first = false;
                    } else {
                        let (o, t) = ct.field_off(i as u64);
                        a = a.wrapping_add(o);
                        ct = t;
                    }
                }
                self.expectp(b')');
                V::I(a)
            }
            Tok::W("sub") | Tok::W("add") | Tok::W("xor") => {
                let w = t;
                while let Tok::W(_) = self.peek() {
                    self.next();
                }
                self.expectp(b'(');
                let (_, x) = self.tval();
                self.expectp(b',');
                let (_, y) = self.tval();
                self.expectp(b')');
                match (x, y) {
                    (Opd::C(V::I(x)), Opd::C(V::I(y))) => V::I(match w {
                        Tok::W("sub") => x.wrapping_sub(y),
                        Tok::W("add") => x.wrapping_add(y),
                        _ => x ^ y,
                    } & crate::expr::mask(ty.sw().max(1))),
                    _ => panic!(),
                }
            }
            Tok::M(_) => V::I(0),
            t => panic!("value {:?} of {:?} near {}", t, ty, self.ctx()),
        })
    }
    fn agg(&mut self, close: u8) -> V {
        let mut vs = vec![];
        if !self.eatp(close) {
            loop {
                let (_, v) = self.tval();
                match v {
                    Opd::C(v) => vs.push(v),
                    _ => panic!("register in aggregate"),
                }
                if !self.eatp(b',') {
                    break;
                }
            }
            self.expectp(close);
        }
        V::A(Rc::new(vs))
    }
    pub fn eol(&mut self) {
        loop {
            match self.next() {
                Tok::Nl | Tok::End => return,
                _ => {}
            }
        }
    }
}

fn parse_f64(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("f0x").or(s.strip_prefix("0x")) {
        return f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0));
    }
    match s {
        "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        _ if s.contains("nan") => f64::NAN,
        _ => s.parse().unwrap_or(f64::NAN),
    }
}
fn parse_f32(s: &str) -> f32 {
    if let Some(h) = s.strip_prefix("f0x") {
        return f32::from_bits(u32::from_str_radix(h, 16).unwrap_or(0));
    }
    if let Some(h) = s.strip_prefix("0x") {
        return f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0)) as f32;
    }
    match s {
        "+inf" => f32::INFINITY,
        "-inf" => f32::NEG_INFINITY,
        _ if s.contains("nan") => f32::NAN,
        _ => s.parse().unwrap_or(f32::NAN),
    }
}

fn binop(s: &str) -> Option<B> {
    Some(match s {
        "add" => B::Add,
        "sub" => B::Sub,
        "mul" => B::Mul,
        "udiv" => B::UDiv,
        "sdiv" => B::SDiv,
        "urem" => B::URem,
        "srem" => B::SRem,
        "and" => B::And,
        "or" => B::Or,
        "xor" => B::Xor,
        "shl" => B::Shl,
        "lshr" => B::LShr,
        "ashr" => B::AShr,
        _ => return None,
    })
}
fn pred(s: &str) -> P {
    match s {
        "eq" => P::Eq,
        "ne" => P::Ne,
        "ult" => P::Ult,
        "ule" => P::Ule,
        "ugt" => P::Ugt,
        "uge" => P::Uge,
        "slt" => P::Slt,
        "sle" => P::Sle,
        "sgt" => P::Sgt,
        "sge" => P::Sge,
        _ => panic!("pred {}", s),
    }
}

struct PhiRec {
    dst: u32,
    inc: Vec<(Opd, &'static str)>,
}

pub fn compile(prog: &Program, module: u32, text: &'static str) -> Func {
    let mut p = Parser::new(prog, module, text);
    // header
    let name;
    loop {
        match p.next() {
            Tok::G(n) => {
                name = n;
                break;
            }
            Tok::P(b'(') => {
                // balanced attribute argument
                let mut d = 1;
                while d > 0 {
                    match p.next() {
                        Tok::P(b'(') => d += 1,
                        Tok::P(b')') => d -= 1,
                        _ => {}
                    }
                }
            }
            Tok::End => panic!("header"),
            _ => {}
        }
    }
    let mut params = vec![];
    p.expectp(b'(');
    if !p.eatp(b')') {
        let mut unnamed = 0;
        loop {
            if p.peek() == Tok::P(b'.') || matches!(p.peek(), Tok::W(w) if w.starts_with("...")) {
                p.next();
                while p.peek() != Tok::P(b')') {
                    p.next();
                }
                break;
            }
            let _t = p.ty();
            p.skip_attrs();
            match p.peek() {
                Tok::L(n) => {
                    p.next();
                    let r = p.reg(n);
                    params.push(r);
                }
                _ => {
                    let nm: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
                    let r = p.reg(nm);
                    params.push(r);
                }
            }
            unnamed += 1;
            if !p.eatp(b',') {
                break;
            }
        }
        p.expectp(b')');
    }
    p.eol();

    // first pass: blocks -> ops, phis; branch targets as names
    let mut ops: Vec<Op> = vec![];
    let mut blocks: HashMap<&'static str, (u32, Vec<PhiRec>)> = HashMap::new();
    let mut curblk: &'static str = "";
    let mut started = false;
    // pending edges: (op index, slot, from block, to block)
    let mut edges: Vec<(usize, usize, &'static str, &'static str)> = vec![];
    let mut allocas = 0;
    let dummy = || Edge { pc: u32::MAX, moves: vec![] };
    loop {
        match p.peek() {
            Tok::Nl => {
                p.next();
                continue;
            }
            Tok::P(b'}') | Tok::End => break,
            _ => {}
        }
        // label?
        let is_label = {
            let save = (p.pos, p.cur);
            let t = p.next();
            let lab = match t {
                Tok::W(s) | Tok::N(s) | Tok::S(s) => {
                    if p.s.as_bytes().get(p.pos) == Some(&b':') {
                        Some(s)
                    } else {
                        None
                    }
                }
                _ => None,
            };
            if lab.is_none() {
                p.pos = save.0;
                p.cur = save.1;
            }
            lab
        };
        if let Some(l) = is_label {
            p.eol();
            curblk = l;
            blocks.insert(l, (ops.len() as u32, vec![]));
            started = true;
            continue;
        }
        if !started {
            curblk = "<entry>";
            blocks.insert(curblk, (0, vec![]));
            started = true;
        }
        // instruction
        let start_pos = p.pos;
        let mut dst: Option<u32> = None;
        if let Tok::L(n) = p.peek() {
            p.next();
            let r = p.reg(n);
            dst = Some(r);
            p.expectp(b'=');
        }
        let opn = match p.next() {
            Tok::W(w) => w,
            t => panic!("instr {:?} near {} in {}", t, p.ctx(), name),
        };
        let op = parse_instr(&mut p, opn, dst, curblk, &mut blocks, &mut edges, ops.len(), &dummy);
        match op {
            Some(Op::Alloca(d, s)) => {
                allocas += 1;
                ops.push(Op::Alloca(d, s));
            }
            Some(Op::Nop) => {}
            Some(o) => ops.push(o),
            None => {}
        }
        let _ = start_pos;
        p.eol();
        if opn == "invoke" {
            // panics abort here, so the unwind edge is never taken: a call
            // followed by a branch to the normal destination
            loop {
                match p.peek() {
                    Tok::W("to") => {
                        p.next();
                        break;
                    }
                    Tok::End => panic!("invoke without destination in {}", name),
                    _ => {
                        p.next();
                    }
                }
            }
            assert!(p.eatw("label"));
            let l = match p.next() {
                Tok::L(n) => n,
                t => panic!("invoke to {:?} in {}", t, name),
            };
            edges.push((ops.len(), 0, curblk, l));
            ops.push(Op::Br(dummy()));
            p.eol();
        }
    }
    // resolve edges
    for (oi, slot, from, to) in edges {
        let (pc, phis) = match blocks.get(to) {
            Some(x) => (x.0, &x.1),
            None => panic!("no block {} in {}", to, name),
        };
        let mut moves = vec![];
        for ph in phis {
            let mut found = false;
            for (v, b) in &ph.inc {
                if *b == from || (from == "<entry>" && !blocks.contains_key(b)) {
                    moves.push((ph.dst, v.clone()));
                    found = true;
                    break;
                }
            }
            if !found {
                panic!("phi without edge from {} in {}", from, name);
            }
        }
        let e = Edge { pc, moves };
        match &mut ops[oi] {
            Op::Br(x) => *x = e,
            Op::CondBr(_, a, b) => {
                if slot == 0 {
                    *a = e
                } else {
                    *b = e
                }
            }
            Op::Switch(_, _, cs, d) => {
                if slot == 0 {
                    *d = e
                } else {
                    cs[slot - 1].1 = e
                }
            }
            _ => unreachable!(),
        }
    }
    Func { name, nregs: p.nregs, params, ops, allocas }
}

fn skip_flags(p: &mut Parser) {
    while let Tok::W(w) = p.peek() {
        if matches!(
            w,
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "samesign" | "nusw" | "fast" | "nnan" | "ninf" | "nsz"
                | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak"
        ) {
            p.next();
        } else if w == "inrange" || w == "syncscope" {
            p.next();
            p.skip_balanced();
        } else {
            break;
        }
    }
}

fn parse_instr(
    p: &mut Parser,
    opn: &'static str,
    dst: Option<u32>,
    cur: &'static str,
    blocks: &mut HashMap<&'static str, (u32, Vec<PhiRec>)>,
    edges: &mut Vec<(usize, usize, &'static str, &'static str)>,
    oi: usize,
    dummy: &dyn Fn() -> Edge,
) -> Option<Op> {
    let d = dst.unwrap_or(0);
    if let Some(b) = binop(opn) {
        skip_flags(p);
        let (t, x) = p.tval();
        p.expectp(b',');
        let y = p.val(&t);
        return Some(match &t {
            Ty::Vec(_, l) => Op::VBin(b, l.sw(), d, x, y),
            _ => Op::Bin(b, t.sw(), d, x, y),
        });
    }
    match opn {
        "phi" => {
            skip_flags(p);
            let t = p.ty();
            let mut inc = vec![];
            loop {
                p.expectp(b'[');
                let v = p.val(&t);
                p.expectp(b',');
                let b = match p.next() {
                    Tok::L(n) => n,
                    t => panic!("phi {:?}", t),
                };
                p.expectp(b']');
                inc.push((v, b));
                if !p.eatp(b',') {
                    break;
                }
                if let Tok::M(_) = p.peek() {
                    break;
                }
            }
            blocks.get_mut(cur).unwrap().1.push(PhiRec { dst: d, inc });
            None
        }
        "br" => {
            if p.eatw("label") {
                let l = match p.next() {
                    Tok::L(n) => n,
                    t => panic!("{:?}", t),
                };
                edges.push((oi, 0, cur, l));
                return Some(Op::Br(dummy()));
            }
            let (_, c) = p.tval();
            p.expectp(b',');
            assert!(p.eatw("label"));
            let a = match p.next() {
                Tok::L(n) => n,
                t => panic!("{:?}", t),
            };
            p.expectp(b',');
            assert!(p.eatw("label"));
            let b = match p.next() {
                Tok::L(n) => n,
                t => panic!("{:?}", t),
            };
            edges.push((oi, 0, cur, a));
            edges.push((oi, 1, cur, b));
            Some(Op::CondBr(c, dummy(), dummy()))
        }
        "switch" => {
            let (t, v) = p.tval();
            p.expectp(b',');
            assert!(p.eatw("label"));
            let l = match p.next() {
                Tok::L(n) => n,
                t => panic!("{:?}", t),
            };
            edges.push((oi, 0, cur, l));
            p.expectp(b'[');
            let mut cs = vec![];
            loop {
                match p.peek() {
                    Tok::Nl => {
                        p.next();
                    }
                    Tok::P(b']') => {
                        p.next();
                        break;
                    }
                    _ => {
                        let (_, k) = p.tval();
                        p.expectp(b',');
                        assert!(p.eatw("label"));
                        let l = match p.next() {
                            Tok::L(n) => n,
                            t => panic!("{:?}", t),
                        };
                        let k = match k {
                            Opd::C(V::I(x)) => x,
                            Opd::C(V::X(x)) => *x as u64,
                            _ => panic!(),
                        };
                        edges.push((oi, cs.len() + 1, cur, l));
                        cs.push((k, dummy()));
                    }
                }
            }
            Some(Op::Switch(v, t.sw(), cs, dummy()))
        }
        "ret" => {
            if p.eatw("void") {
                return Some(Op::Ret(None));
            }
            let (_, v) = p.tval();
            Some(Op::Ret(Some(v)))
        }
        "unreachable" => Some(Op::Unreachable),
        "icmp" => {
            skip_flags(p);
            let pr = match p.next() {
                Tok::W(w) => pred(w),
                t => panic!("{:?}", t),
            };
            let (t, x) = p.tval();
            p.expectp(b',');
            let y = p.val(&t);
            Some(match &t {
                Ty::Vec(_, l) => Op::VIcmp(pr, l.sw(), d, x, y),
                _ => Op::Icmp(pr, t.sw(), d, x, y),
            })
        }
        "fcmp" => {
            skip_flags(p);
            let pr = match p.next() {
                Tok::W(w) => w,
                t => panic!("{:?}", t),
            };
            let (t, x) = p.tval();
            p.expectp(b',');
            let y = p.val(&t);
            Some(match t {
                Ty::F64 => Op::Fcmp(pr, true, d, x, y),
                Ty::F32 => Op::Fcmp(pr, false, d, x, y),
                _ => Op::Unsup(format!("fcmp {:?}", t)),
            })
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            skip_flags(p);
            let (t, x) = p.tval();
            p.expectp(b',');
            let y = p.val(&t);
            let c = match opn {
                "fadd" => '+',
                "fsub" => '-',
                "fmul" => '*',
                "fdiv" => '/',
                _ => '%',
            };
            Some(match t {
                Ty::F64 => Op::FBin(c, true, d, x, y),
                Ty::F32 => Op::FBin(c, false, d, x, y),
                _ => Op::Unsup(format!("{} {:?}", opn, t)),
            })
        }
        "fneg" => {
            skip_flags(p);
            let (t, x) = p.tval();
            Some(match t {
                Ty::F64 => Op::FNeg(true, d, x),
                Ty::F32 => Op::FNeg(false, d, x),
                _ => Op::Unsup("fneg".into()),
            })
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext"
        | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
            skip_flags(p);
            let (t, x) = p.tval();
            assert!(p.eatw("to"));
            let t2 = p.ty();
            let k = match opn {
                "zext" => CastK::Zext,
                "sext" => CastK::Sext,
                "trunc" => CastK::Trunc,
                "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                    if t2.sw() < t.sw() {
                        CastK::Trunc
                    } else if t2.sw() > t.sw() {
                        CastK::Zext
                    } else {
                        CastK::Bitcast
                    }
                }
                "bitcast" | "addrspacecast" => CastK::Bitcast,
                "uitofp" => CastK::UiToFp,
                "sitofp" => CastK::SiToFp,
                "fptoui" => CastK::FpToUi,
                "fptosi" => CastK::FpToSi,
                "fpext" => CastK::FpExt,
                _ => CastK::FpTrunc,
            };
            if t == Ty::Other || t2 == Ty::Other {
                return Some(Op::Unsup(format!("{} {:?} {:?}", opn, t, t2)));
            }
            Some(Op::Cast(k, t, t2, d, x))
        }
        "freeze" => {
            let (_, x) = p.tval();
            Some(Op::Copy(d, x))
        }
        "load" => {
            skip_flags(p);
            let t = p.ty();
            p.expectp(b',');
            let (_, a) = p.tval();
            if t == Ty::Other {
                return Some(Op::Unsup("load other".into()));
            }
            Some(Op::Load(d, t, a))
        }
        "store" => {
            skip_flags(p);
            let (t, v) = p.tval();
            p.expectp(b',');
            let (_, a) = p.tval();
            if t == Ty::Other {
                return Some(Op::Unsup("store other".into()));
            }
            Some(Op::Store(t, v, a))
        }
        "getelementptr" => {
            skip_flags(p);
            let bt = p.ty();
            p.expectp(b',');
            let (_, base) = p.tval();
            let mut off: i64 = 0;
            let mut idx = vec![];
            let mut ct = bt;
            let mut first = true;
            while p.peek() == Tok::P(b',') {
                p.next();
                if let Tok::M(_) = p.peek() {
                    break;
                }
                let (it, iv) = p.tval();
                if first {
                    let sz = ct.size() as i64;
                    match iv {
                        Opd::C(V::I(x)) => off = off.wrapping_add(crate::expr::sx(x, it.sw()).wrapping_mul(sz)),
                        iv => idx.push((iv, sz, it.sw())),
                    }
                    first = false;
                } else {
                    match iv {
                        Opd::C(V::I(x)) => {
                            let (o, t) = ct.field_off(crate::expr::sx(x, it.sw()) as u64);
                            off = off.wrapping_add(o as i64);
                            ct = t;
                        }
                        iv => {
                            let t = match &ct {
                                Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                                _ => panic!("gep struct reg index"),
                            };
                            idx.push((iv, t.size() as i64, it.sw()));
                            ct = t;
                        }
                    }
                }
            }
            Some(Op::Gep(d, base, off, idx))
        }
        "alloca" => {
            skip_flags(p);
            let t = p.ty();
            let mut n = 1;
            if p.eatp(b',') {
                if p.is_ty() {
                    let (_, v) = p.tval();
                    match v {
                        Opd::C(V::I(x)) => n = x,
                        _ => return Some(Op::Unsup("dynamic alloca".into())),
                    }
                }
            }
            Some(Op::Alloca(d, t.size() * n))
        }
        "extractvalue" => {
            let (_, v) = p.tval();
            let mut ix = vec![];
            while p.eatp(b',') {
                if let Tok::M(_) = p.peek() {
                    break;
                }
                ix.push(p.num() as u32);
            }
            Some(Op::ExtractV(d, v, ix))
        }
        "insertvalue" => {
            let (_, v) = p.tval();
            p.expectp(b',');
            let (_, x) = p.tval();
            let mut ix = vec![];
            while p.eatp(b',') {
                if let Tok::M(_) = p.peek() {
                    break;
                }
                ix.push(p.num() as u32);
            }
            Some(Op::InsertV(d, v, x, ix))
        }
        "extractelement" => {
            let (_, v) = p.tval();
            p.expectp(b',');
            let (_, i) = p.tval();
            Some(Op::ExtractE(d, v, i))
        }
        "insertelement" => {
            let (_, v) = p.tval();
            p.expectp(b',');
            let (_, x) = p.tval();
            p.expectp(b',');
            let (_, i) = p.tval();
            Some(Op::InsertE(d, v, x, i))
        }
        "shufflevector" => {
            let (_, a) = p.tval();
            p.expectp(b',');
            let (_, b) = p.tval();
            p.expectp(b',');
            let (_, m) = p.tval();
            let mask = match m {
                Opd::C(V::A(vs)) => vs
                    .iter()
                    .map(|v| match v {
                        V::I(x) => *x as u32,
                        _ => 0,
                    })
                    .collect(),
                _ => panic!("shuffle mask"),
            };
            Some(Op::Shuffle(d, a, b, mask))
        }
        "select" => {
            skip_flags(p);
            let (_, c) = p.tval();
            p.expectp(b',');
            let (t, a) = p.tval();
            p.expectp(b',');
            let (_, b) = p.tval();
            Some(Op::Select(d, t, c, a, b))
        }
        "cmpxchg" => {
            skip_flags(p);
            let (_, a) = p.tval();
            p.expectp(b',');
            let (t, old) = p.tval();
            p.expectp(b',');
            let (_, new) = p.tval();
            Some(Op::Cmpxchg(d, t, a, old, new))
        }
        "atomicrmw" => {
            skip_flags(p);
            let k = match p.next() {
                Tok::W(w) => w,
                t => panic!("{:?}", t),
            };
            let (_, a) = p.tval();
            p.expectp(b',');
            let (t, v) = p.tval();
            Some(Op::Rmw(d, k, t, a, v))
        }
        "fence" => Some(Op::Nop),
        "tail" | "musttail" | "notail" => {
            assert!(p.eatw("call"));
            parse_call(p, dst)
        }
        "call" | "invoke" => parse_call(p, dst),
        _ => Some(Op::Unsup(format!("instruction {}", opn))),
    }
}

fn parse_call(p: &mut Parser, dst: Option<u32>) -> Option<Op> {
    skip_flags(p);
    // return attributes / calling convention until a type
    loop {
        if p.is_ty() {
            break;
        }
        match p.next() {
            Tok::W(w) => {
                if p.peek() == Tok::P(b'(') {
                    p.skip_balanced();
                } else if w == "align" {
                    p.next();
                }
            }
            t => panic!("call {:?} near {}", t, p.ctx()),
        }
    }
    let rt = p.ty();
    if p.peek() == Tok::P(b'(') {
        p.skip_balanced(); // varargs function type
    }
    let callee = match p.peek() {
        Tok::W("asm") => {
            p.next();
            while let Tok::W(_) = p.peek() {
                p.next();
            }
            let s = match p.next() {
                Tok::S(s) => s,
                t => panic!("asm {:?}", t),
            };
            p.expectp(b',');
            p.next();
            Callee::Asm(s)
        }
        Tok::G(n) => {
            p.next();
            if n.starts_with("llvm.") {
                return parse_intr(p, dst, n, rt);
            }
            let m = p.module;
            let f = p.prog.resolve_func(m, n);
            Callee::F(f)
        }
        _ => {
            let v = p.val(&Ty::Ptr);
            Callee::Ind(v)
        }
    };
    let args = parse_args(p).into_iter().map(|(_, v)| v).collect();
    Some(Op::Call(if rt == Ty::Void { None } else { dst }, callee, args))
}

fn parse_args(p: &mut Parser) -> Vec<(Ty, Opd)> {
    let mut args = vec![];
    p.expectp(b'(');
    if p.eatp(b')') {
        return args;
    }
    loop {
        let t = p.ty();
        if t == Ty::Other {
            // metadata and other exotic operands are never needed
            let mut d = 0;
            loop {
                match p.peek() {
                    Tok::P(b'(') => d += 1,
                    Tok::P(b')') if d == 0 => break,
                    Tok::P(b')') => d -= 1,
                    Tok::P(b',') if d == 0 => break,
                    Tok::Nl | Tok::End => break,
                    _ => {}
                }
                p.next();
            }
            args.push((t, Opd::C(V::I(0))));
        } else {
            p.skip_attrs();
            let v = p.val(&t);
            args.push((t, v));
        }
        if !p.eatp(b',') {
            break;
        }
    }
    p.expectp(b')');
    args
}

fn parse_intr(p: &mut Parser, dst: Option<u32>, n: &'static str, rt: Ty) -> Option<Op> {
    if n.starts_with("llvm.lifetime")
        || n.starts_with("llvm.dbg")
        || n.starts_with("llvm.experimental.noalias")
        || n.starts_with("llvm.invariant")
        || n == "llvm.donothing"
        || n.starts_with("llvm.prefetch")
        || n.starts_with("llvm.x86.sse2.pause")
        || n.starts_with("llvm.assume")
    {
        while !matches!(p.peek(), Tok::Nl | Tok::End) {
            p.next();
        }
        return Some(Op::Nop);
    }
    let args = parse_args(p);
    let base = &n[5..];
    // operand width from the last type suffix or the first argument
    let mut w = args.first().map(|(t, _)| t.sw()).unwrap_or(0);
    if let Some((Ty::Vec(..), _)) = args.first() {
        w = 0;
        if !base.starts_with("vector.reduce") && !base.starts_with("x86.") {
            return Some(Op::Unsup(format!("vector intrinsic {}", n)));
        }
    }
    if base.starts_with("fptoui.sat") || base.starts_with("fptosi.sat") || base.starts_with("ucmp") || base.starts_with("scmp") {
        // result width matters as well: encode in high half
        w |= rt.sw() << 16;
    }
    let ops: Vec<Opd> = args.into_iter().map(|(_, v)| v).collect();
    Some(Op::Intr(dst, base, w, ops))
}
