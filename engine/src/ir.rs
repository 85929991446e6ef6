//! A reader for the textual LLVM IR that rustc/opt emit for the harness cdylib.
//! Functions are parsed lazily (on first call) into a pre-decoded form.

use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Fp(u32),
    Arr(u64, Box<Ty>),
    Vect(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    /// bit width of a scalar type
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Fp(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits() of non scalar {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Fp(_))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Fp(w) => (*w as u64 / 8).max(1).min(16),
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vect(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Fp(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Fp(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vect(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += f.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vect(_, t) => i as u64 * t.size(),
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return off;
                    }
                    off += f.size();
                }
                panic!("field_offset")
            }
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vect(_, t) => t,
            Ty::Struct(fs, _) => &fs[i],
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize,
            Ty::Struct(fs, _) => fs.len(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u64),
    Wide(u128, u32),
    Undef(u32),
    Agg(Vec<Const>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(u64),
    K(Box<Const>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Bitcast, // includes ptrtoint / inttoptr (after width adjustment)
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
    Intr(Intr, u32),
    Asm,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Assume,
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    Bswap,
    USubSat,
    UAddSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Bitreverse,
    IsConstant,
    UCmp,
    SCmp,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Abs,
    Trap,
    TlsAddr,
    Expect,
    ReduceAnd,
    ReduceOr,
    ReduceAdd,
    ReduceXor,
    Unsupported,
}

#[derive(Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    pub ret: Ty,
    pub normal: Option<u32>, // invoke: continue at this block
    pub name: String,
}

#[derive(Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64, cnt: Op },
    Load { dst: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { dst: u32, base: Op, off: u64, terms: Vec<(Op, u32, u64)> },
    Bin { dst: u32, k: BinK, w: u32, n: u32, a: Op, b: Op },
    Icmp { dst: u32, p: Pred, w: u32, n: u32, a: Op, b: Op },
    Cast { dst: u32, k: CastK, from: Ty, to: Ty, a: Op },
    Select { dst: u32, ty: Ty, vc: bool, c: Op, a: Op, b: Op },
    Call(Box<Call>),
    Extract { dst: u32, a: Op, idx: Vec<u32> },
    Insert { dst: u32, ty: Ty, a: Op, v: Op, idx: Vec<u32> },
    ExtElem { dst: u32, a: Op, i: Op },
    InsElem { dst: u32, ty: Ty, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, n: u32, w: u32, a: Op, b: Op, mask: Vec<Option<u32>> },
    Rmw { dst: u32, op: String, ty: Ty, p: Op, v: Op },
    CmpXchg { dst: u32, ty: Ty, p: Op, c: Op, n: Op },
    Freeze { dst: u32, ty: Ty, a: Op },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { w: u32, v: Op, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Op)>)>, // dst, ty, (pred block, op)
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub ninstr: usize,
}

pub struct FnDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // line range (exclusive of define/closing brace)
    pub header: usize,
    pub parsed: OnceLock<Result<Func, String>>,
}

pub struct Global {
    pub name: String,
    pub line: usize,
    pub ty_init: OnceLock<Result<GlobalInit, String>>,
    pub constant: bool,
    pub external: bool,
}

#[derive(Debug)]
pub struct GlobalInit {
    pub bytes: Vec<u8>,
    pub undef: Vec<(usize, usize)>,
    pub align: u64,
}

pub struct Module {
    pub text: String,
    pub lines: Vec<(usize, usize)>,
    pub fns: Vec<FnDecl>,
    pub globals: Vec<Global>,
    pub fn_ix: HashMap<String, u32>,
    pub gl_ix: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, String>,
}

/// Function "addresses": slot FN_BASE + index.
pub const FN_BASE: u64 = 0x4000_0000;
/// Global addresses: slot 1 + index.
pub fn fn_addr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 32
}
pub fn gl_addr(i: u32) -> u64 {
    (1 + i as u64) << 32
}

fn line_name(s: &str) -> Option<(String, usize)> {
    // s starts with '@' or '%'
    let b = s.as_bytes();
    if b.len() < 2 {
        return None;
    }
    if b[1] == b'"' {
        let e = s[2..].find('"')? + 2;
        Some((s[2..e].to_string(), e + 1))
    } else {
        let mut e = 1;
        while e < b.len() && (b[e].is_ascii_alphanumeric() || matches!(b[e], b'.' | b'_' | b'$' | b'-')) {
            e += 1;
        }
        Some((s[1..e].to_string(), e))
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let mut lines = Vec::new();
        let mut s = 0;
        for (i, c) in text.bytes().enumerate() {
            if c == b'\n' {
                lines.push((s, i));
                s = i + 1;
            }
        }
        let mut m = Module {
            lines,
            fns: vec![],
            globals: vec![],
            fn_ix: HashMap::new(),
            gl_ix: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            text: String::new(),
        };
        let mut i = 0;
        let n = m.lines.len();
        while i < n {
            let l = &text[m.lines[i].0..m.lines[i].1];
            if l.starts_with('@') {
                let (name, e) = line_name(l).unwrap();
                let rest = &l[e..];
                if let Some(p) = rest.find(" alias ") {
                    if !rest[..p].contains('"') && !rest[..p].contains('{') {
                        // target is the last @name
                        if let Some(q) = rest[p..].find('@') {
                            let (t, _) = line_name(&rest[p + q..]).unwrap();
                            m.aliases.insert(name, t);
                        }
                        i += 1;
                        continue;
                    }
                }
                let ix = m.globals.len() as u32;
                m.gl_ix.insert(name.clone(), ix);
                m.globals.push(Global {
                    name,
                    line: i,
                    ty_init: OnceLock::new(),
                    constant: rest.contains(" constant "),
                    external: rest.contains("= external ") || rest.contains("= extern_weak "),
                });
            } else if l.starts_with('%') {
                let (name, _) = line_name(l).unwrap();
                if let Some(p) = l.find(" type ") {
                    m.types.insert(name, l[p + 6..].to_string());
                }
            } else if l.starts_with("declare ") || l.starts_with("define ") {
                let at = l.find('@').unwrap();
                let (name, _) = line_name(&l[at..]).unwrap();
                let ix = m.fns.len() as u32;
                let mut d = FnDecl { name: name.clone(), body: None, header: i, parsed: OnceLock::new() };
                if l.starts_with("define ") {
                    let st = i + 1;
                    while &text[m.lines[i].0..m.lines[i].1] != "}" {
                        i += 1;
                    }
                    d.body = Some((st, i));
                }
                m.fn_ix.insert(name, ix);
                m.fns.push(d);
            }
            i += 1;
        }
        m.text = text;
        m
    }
    pub fn line(&self, i: usize) -> &str {
        &self.text[self.lines[i].0..self.lines[i].1]
    }
    pub fn sym_addr(&self, name: &str) -> Option<u64> {
        if let Some(&i) = self.fn_ix.get(name) {
            return Some(fn_addr(i));
        }
        if let Some(&i) = self.gl_ix.get(name) {
            return Some(gl_addr(i));
        }
        if let Some(t) = self.aliases.get(name) {
            return self.sym_addr(t);
        }
        None
    }
    pub fn func(&self, ix: u32) -> Result<&Func, String> {
        let d = &self.fns[ix as usize];
        let r = d.parsed.get_or_init(|| {
            if d.body.is_none() {
                return Err(format!("no body for {}", d.name));
            }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_func(self, d))) {
                Ok(r) => r.map_err(|e| format!("{}: {}", d.name, e)),
                Err(_) => Err(format!("parser panic in {}", d.name)),
            }
        });
        r.as_ref().map_err(|e| e.clone())
    }
    pub fn global(&self, ix: u32) -> Result<&GlobalInit, String> {
        let g = &self.globals[ix as usize];
        let r = g.ty_init.get_or_init(|| {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_global(self, g))) {
                Ok(r) => r.map_err(|e| format!("{}: {}", g.name, e)),
                Err(_) => Err(format!("parser panic in global {}", g.name)),
            }
        });
        r.as_ref().map_err(|e| e.clone())
    }
}

// ---------------------------------------------------------------- lexer
struct P<'a> {
    m: &'a Module,
    s: &'a [u8],
    i: usize,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-')
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at: {}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 80)]).to_string()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.word() == w {
            true
        } else {
            self.i = i;
            false
        }
    }
    fn name(&mut self) -> R<String> {
        // after sigil
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            Ok(String::from_utf8_lossy(&self.s[st + 1..self.i - 1]).to_string())
        } else {
            while self.i < self.s.len() && is_word(self.s[self.i]) {
                self.i += 1;
            }
            Ok(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            if self.i >= self.s.len() {
                return;
            }
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut fs = vec![];
                if !self.eat(b'}') {
                    loop {
                        fs.push(self.ty()?);
                        if self.eat(b'}') {
                            break;
                        }
                        self.expect(b',')?;
                    }
                }
                Ok(Ty::Struct(fs, false))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    match t {
                        Ty::Struct(f, _) => Ok(Ty::Struct(f, true)),
                        _ => unreachable!(),
                    }
                } else {
                    let n: u64 = self.word().parse().map_err(|_| "vec")?;
                    let x = self.word();
                    if x != "x" {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ok(Ty::Vect(n, Box::new(t)))
                }
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "arr")?;
                let x = self.word();
                if x != "x" {
                    return Err("arr x".into());
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                let def = self.m.types.get(&n).ok_or(format!("type {}", n))?.clone();
                if def.starts_with("opaque") {
                    return Ok(Ty::Other);
                }
                let mut p = P { m: self.m, s: def.as_bytes(), i: 0, regs: HashMap::new(), blocks: HashMap::new() };
                p.ty()
            }
            _ => {
                let i0 = self.i;
                let w = self.word();
                let t = match w {
                    "ptr" => {
                        if self.peek() == b'a' && self.peek_word() == "addrspace" {
                            self.word();
                            self.ws();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::Fp(32),
                    "double" => Ty::Fp(64),
                    "half" | "bfloat" => Ty::Fp(16),
                    "fp128" => Ty::Fp(128),
                    "metadata" | "label" | "token" | "x86_fp80" | "opaque" => Ty::Other,
                    _ => {
                        if w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                            Ty::Int(w[1..].parse().unwrap())
                        } else {
                            self.i = i0;
                            return Err(format!("type expected at {}", self.rest()));
                        }
                    }
                };
                Ok(t)
            }
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "metadata" | "label" | "token")
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    /// skip attribute words until a type starts
    fn skip_attrs_until_type(&mut self) -> R<()> {
        while !self.is_type_start() {
            self.skip_attr()?;
        }
        Ok(())
    }
    fn skip_attr(&mut self) -> R<()> {
        match self.peek() {
            b'"' => {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat(b'=') {
                    return self.skip_attr();
                }
                Ok(())
            }
            b'#' => {
                self.i += 1;
                self.word();
                Ok(())
            }
            _ => {
                let w = self.word();
                if w.is_empty() {
                    return Err(format!("attr at {}", self.rest()));
                }
                if w == "align" && self.peek() != b'(' {
                    self.word();
                } else if self.i < self.s.len() && self.s[self.i] == b'(' {
                    self.skip_parens();
                }
                Ok(())
            }
        }
    }
    fn is_value_start(&mut self) -> bool {
        match self.peek() {
            b'%' | b'@' | b'{' | b'[' | b'<' | b'-' => true,
            c if c.is_ascii_digit() => true,
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => true,
            _ => matches!(
                self.peek_word(),
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "trunc" | "xor" | "and" | "or" | "shl" | "mul" | "splat" | "blockaddress" | "asm" | "dso_local_equivalent" | "ptrtoaddr" | "addrspacecast"
            ),
        }
    }
    fn val(&mut self, t: &Ty) -> R<Op> {
        while !self.is_value_start() {
            self.skip_attr()?;
        }
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name()?;
            return Ok(Op::Reg(self.reg(&n)));
        }
        let c = self.konst(t)?;
        Ok(match c {
            Const::Int(x) => Op::C(x),
            c => Op::K(Box::new(c)),
        })
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn tval(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn zero(t: &Ty) -> Const {
        match t {
            Ty::Int(w) | Ty::Fp(w) => {
                if *w <= 64 {
                    Const::Int(0)
                } else {
                    Const::Wide(0, *w)
                }
            }
            Ty::Ptr => Const::Int(0),
            Ty::Arr(n, t) | Ty::Vect(n, t) => Const::Agg((0..*n).map(|_| P::zero(t)).collect()),
            Ty::Struct(fs, _) => Const::Agg(fs.iter().map(P::zero).collect()),
            _ => Const::Int(0),
        }
    }
    fn undef(t: &Ty) -> Const {
        match t {
            Ty::Int(w) | Ty::Fp(w) => Const::Undef(*w),
            Ty::Ptr => Const::Undef(64),
            Ty::Arr(n, t) | Ty::Vect(n, t) => Const::Agg((0..*n).map(|_| P::undef(t)).collect()),
            Ty::Struct(fs, _) => Const::Agg(fs.iter().map(P::undef).collect()),
            _ => Const::Undef(1),
        }
    }
    fn mask(w: u32) -> u64 {
        if w >= 64 {
            u64::MAX
        } else {
            (1u64 << w) - 1
        }
    }
    fn konst(&mut self, t: &Ty) -> R<Const> {
        match self.peek() {
            b'@' => {
                self.i += 1;
                let n = self.name()?;
                let a = self.m.sym_addr(&n).ok_or(format!("symbol {}", n))?;
                Ok(Const::Int(a))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut out = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        if self.s[self.i + 1] == b'\\' {
                            out.push(Const::Int(b'\\' as u64));
                            self.i += 2;
                        } else {
                            out.push(Const::Int(u64::from_str_radix(h, 16).map_err(|_| "esc")?));
                            self.i += 3;
                        }
                    } else {
                        out.push(Const::Int(self.s[self.i] as u64));
                        self.i += 1;
                    }
                }
                self.i += 1;
                Ok(Const::Agg(out))
            }
            b'{' | b'[' => {
                let close = if self.s[self.i] == b'{' { b'}' } else { b']' };
                self.i += 1;
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let t = self.ty()?;
                        v.push(self.konst(&t)?);
                        if self.eat(close) {
                            break;
                        }
                        self.expect(b',')?;
                    }
                }
                Ok(Const::Agg(v))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let c = self.konst(t)?;
                    self.expect(b'>')?;
                    Ok(c)
                } else {
                    let mut v = vec![];
                    loop {
                        let t = self.ty()?;
                        v.push(self.konst(&t)?);
                        if self.eat(b'>') {
                            break;
                        }
                        self.expect(b',')?;
                    }
                    Ok(Const::Agg(v))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "null" | "none" => Ok(Const::Int(0)),
                    "true" => Ok(Const::Int(1)),
                    "false" => Ok(Const::Int(0)),
                    "zeroinitializer" => Ok(P::zero(t)),
                    "undef" | "poison" => Ok(P::undef(t)),
                    "splat" => {
                        self.expect(b'(')?;
                        let et = self.ty()?;
                        let c = self.konst(&et)?;
                        self.expect(b')')?;
                        Ok(Const::Agg((0..t.count()).map(|_| c.clone()).collect()))
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            let w = self.word();
                            if w.is_empty() {
                                return Err("gep const".into());
                            }
                            if w == "inrange" {
                                self.skip_parens();
                            }
                        }
                        self.expect(b'(')?;
                        let st = self.ty()?;
                        self.expect(b',')?;
                        let bt = self.ty()?;
                        let base = match self.konst(&bt)? {
                            Const::Int(x) => x,
                            _ => return Err("gep base".into()),
                        };
                        let mut idx = vec![];
                        while self.eat(b',') {
                            self.eat_word("inrange");
                            let it = self.ty()?;
                            match self.konst(&it)? {
                                Const::Int(x) => idx.push((it.bits(), x)),
                                _ => return Err("gep idx".into()),
                            }
                        }
                        self.expect(b')')?;
                        let mut a = base;
                        let mut cur = &st;
                        for (k, (w, x)) in idx.iter().enumerate() {
                            let sx = if *w < 64 && x >> (w - 1) & 1 == 1 { x | !P::mask(*w) } else { *x };
                            if k == 0 {
                                a = a.wrapping_add(sx.wrapping_mul(st.size()));
                            } else {
                                match cur {
                                    Ty::Struct(..) => {
                                        a = a.wrapping_add(cur.field_offset(sx as usize));
                                        cur = cur.elem(sx as usize);
                                    }
                                    _ => {
                                        a = a.wrapping_add(sx.wrapping_mul(cur.elem(0).size()));
                                        cur = cur.elem(0);
                                    }
                                }
                            }
                        }
                        Ok(Const::Int(a))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        self.expect(b'(')?;
                        let ft = self.ty()?;
                        let c = self.konst(&ft)?;
                        self.eat_word("to");
                        let tt = self.ty()?;
                        self.expect(b')')?;
                        match c {
                            Const::Int(x) => Ok(Const::Int(x & P::mask(tt.bits()))),
                            c => Ok(c),
                        }
                    }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(')?;
                        let ta = self.ty()?;
                        let a = self.konst(&ta)?;
                        self.expect(b',')?;
                        let tb = self.ty()?;
                        let b = self.konst(&tb)?;
                        self.expect(b')')?;
                        match (a, b) {
                            (Const::Int(a), Const::Int(b)) => {
                                let r = match w {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    "xor" => a ^ b,
                                    "and" => a & b,
                                    "or" => a | b,
                                    "mul" => a.wrapping_mul(b),
                                    _ => a << b,
                                };
                                Ok(Const::Int(r & P::mask(ta.bits())))
                            }
                            _ => Err("constexpr".into()),
                        }
                    }
                    _ => {
                        // number
                        match t {
                            Ty::Fp(w) => {
                                // value not interpreted
                                Ok(Const::Undef(*w))
                            }
                            Ty::Other => Ok(Const::Int(0)),
                            _ => {
                                let bits = t.bits();
                                if bits <= 64 {
                                    let v = if let Some(h) = w.strip_prefix('-') {
                                        let x: u64 = h.parse().map_err(|_| format!("num {}", w))?;
                                        x.wrapping_neg()
                                    } else {
                                        w.parse::<u64>().map_err(|_| format!("num '{}' at {}", w, self.rest()))?
                                    };
                                    Ok(Const::Int(v & P::mask(bits)))
                                } else {
                                    let v = if let Some(h) = w.strip_prefix('-') {
                                        h.parse::<u128>().map_err(|_| "num")?.wrapping_neg()
                                    } else {
                                        w.parse::<u128>().map_err(|_| format!("wide num {}", w))?
                                    };
                                    if bits > 128 {
                                        return Err(format!("integer type i{}", bits));
                                    }
                                    let v = if bits < 128 { v & ((1u128 << bits) - 1) } else { v };
                                    Ok(Const::Wide(v, bits))
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_word("label") {
            return Err(format!("label at {}", self.rest()));
        }
        self.bare_label()
    }
    fn bare_label(&mut self) -> R<u32> {
        self.expect(b'%')?;
        let n = self.name()?;
        self.blocks.get(&n).copied().ok_or(format!("block {}", n))
    }
}

fn lay(c: &Const, t: &Ty, off: usize, out: &mut GlobalInit) -> R<()> {
    match (c, t) {
        (Const::Int(x), _) => {
            let n = t.store_size() as usize;
            for k in 0..n {
                out.bytes[off + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 };
            }
        }
        (Const::Wide(x, _), _) => {
            for k in 0..t.store_size() as usize {
                out.bytes[off + k] = (x >> (8 * k)) as u8;
            }
        }
        (Const::Undef(_), _) => out.undef.push((off, off + t.size() as usize)),
        (Const::Agg(v), _) => {
            for (i, e) in v.iter().enumerate() {
                lay(e, t.elem(i), off + t.field_offset(i) as usize, out)?;
            }
        }
    }
    Ok(())
}

fn parse_global(m: &Module, g: &Global) -> R<GlobalInit> {
    let l = m.line(g.line);
    let (_, e) = line_name(l).unwrap();
    let mut p = P { m, s: l.as_bytes(), i: e, regs: HashMap::new(), blocks: HashMap::new() };
    p.expect(b'=')?;
    loop {
        let w = p.word();
        if w == "global" || w == "constant" {
            break;
        }
        if w.is_empty() {
            return Err("global kind".into());
        }
        if p.i < p.s.len() && p.s[p.i] == b'(' {
            p.skip_parens();
        }
    }
    let t = p.ty()?;
    let mut out = GlobalInit { bytes: vec![0; t.size() as usize], undef: vec![], align: 1 };
    if g.external {
        return Ok(out);
    }
    let c = p.konst(&t)?;
    lay(&c, &t, 0, &mut out)?;
    if let Some(q) = l.rfind(", align ") {
        let n: String = l[q + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
        out.align = n.parse().unwrap_or(1);
    }
    Ok(out)
}

fn intrinsic(name: &str) -> Option<Intr> {
    let n = name.strip_prefix("llvm.")?;
    let starts = |p: &str| n == p || n.starts_with(&format!("{}.", p));
    Some(if starts("assume") {
        Intr::Assume
    } else if starts("experimental.noalias.scope.decl") || starts("lifetime.start") || starts("lifetime.end") || starts("dbg") || starts("donothing") || starts("invariant.start") || starts("invariant.end") || starts("x86.sse2.pause") || starts("prefetch") || starts("var.annotation") {
        Intr::Nop
    } else if starts("memcpy") || starts("memmove") || starts("memcpy.inline") {
        Intr::Memcpy
    } else if starts("memset") {
        Intr::Memset
    } else if starts("umax") {
        Intr::UMax
    } else if starts("umin") {
        Intr::UMin
    } else if starts("smax") {
        Intr::SMax
    } else if starts("smin") {
        Intr::SMin
    } else if starts("bswap") {
        Intr::Bswap
    } else if starts("usub.sat") {
        Intr::USubSat
    } else if starts("uadd.sat") {
        Intr::UAddSat
    } else if starts("uadd.with.overflow") {
        Intr::UAddO
    } else if starts("usub.with.overflow") {
        Intr::USubO
    } else if starts("umul.with.overflow") {
        Intr::UMulO
    } else if starts("sadd.with.overflow") {
        Intr::SAddO
    } else if starts("ssub.with.overflow") {
        Intr::SSubO
    } else if starts("smul.with.overflow") {
        Intr::SMulO
    } else if starts("bitreverse") {
        Intr::Bitreverse
    } else if starts("is.constant") {
        Intr::IsConstant
    } else if starts("ucmp") {
        Intr::UCmp
    } else if starts("scmp") {
        Intr::SCmp
    } else if starts("ctlz") {
        Intr::Ctlz
    } else if starts("cttz") {
        Intr::Cttz
    } else if starts("ctpop") {
        Intr::Ctpop
    } else if starts("fshl") {
        Intr::Fshl
    } else if starts("fshr") {
        Intr::Fshr
    } else if starts("abs") {
        Intr::Abs
    } else if starts("trap") || starts("ubsantrap") {
        Intr::Trap
    } else if starts("threadlocal.address") {
        Intr::TlsAddr
    } else if starts("expect") || starts("launder.invariant.group") || starts("strip.invariant.group") || starts("ssa.copy") {
        Intr::Expect
    } else if starts("vector.reduce.and") {
        Intr::ReduceAnd
    } else if starts("vector.reduce.or") {
        Intr::ReduceOr
    } else if starts("vector.reduce.add") {
        Intr::ReduceAdd
    } else if starts("vector.reduce.xor") {
        Intr::ReduceXor
    } else {
        Intr::Unsupported
    })
}

fn vec_shape(t: &Ty) -> (u32, u32) {
    // (element width, lanes) ; lanes = 0 for scalars
    match t {
        Ty::Vect(n, e) => (e.bits(), *n as u32),
        t => (t.bits(), 0),
    }
}

fn parse_func(m: &Module, d: &FnDecl) -> R<Func> {
    let (st, en) = d.body.unwrap();
    // pass 1: blocks
    let mut block_of = HashMap::new();
    let mut nb = 0u32;
    let header = m.line(d.header);
    // params
    let at = header.find('@').unwrap();
    let (_, e) = line_name(&header[at..]).unwrap();
    let mut p = P { m, s: header.as_bytes(), i: at + e, regs: HashMap::new(), blocks: HashMap::new() };
    p.expect(b'(')?;
    let mut params: Vec<String> = vec![];
    let mut unnamed = 0u32;
    if !p.eat(b')') {
        loop {
            if p.peek() == b'.' {
                p.word();
                p.expect(b')')?;
                break;
            }
            let _t = p.ty()?;
            let mut name = None;
            loop {
                match p.peek() {
                    b'%' => {
                        p.i += 1;
                        name = Some(p.name()?);
                    }
                    b',' | b')' => break,
                    _ => p.skip_attr()?,
                }
            }
            params.push(name.unwrap_or_else(|| {
                let n = unnamed.to_string();
                unnamed += 1;
                n
            }));
            if p.eat(b')') {
                break;
            }
            p.expect(b',')?;
        }
    }
    let nparams = params.len() as u32;
    for n in &params {
        p.reg(n);
    }
    // entry label: unnamed => next number
    let numeric_params = params.iter().filter(|n| n.bytes().all(|c| c.is_ascii_digit())).count();
    let mut first = true;
    for li in st..en {
        let l = m.line(li);
        if l.is_empty() || l.starts_with(' ') || l.starts_with(';') {
            if first && l.starts_with(' ') {
                block_of.insert(numeric_params.to_string(), 0);
                nb = 1;
                first = false;
            }
            continue;
        }
        if l.as_bytes()[0] == b'"' || is_word(l.as_bytes()[0]) {
            let name = if l.starts_with('"') {
                l[1..].split('"').next().unwrap().to_string()
            } else {
                l.split(':').next().unwrap().to_string()
            };
            block_of.insert(name, nb);
            nb += 1;
            first = false;
        }
    }
    let mut blocks: Vec<Block> = (0..nb).map(|_| Block::default()).collect();
    let mut cur: i64 = -1;
    let mut li = st;
    let mut regs = std::mem::take(&mut p.regs);
    let mut ninstr = 0;
    while li < en {
        let l = m.line(li);
        li += 1;
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            cur += 1;
            continue;
        }
        if cur < 0 {
            cur = 0;
        }
        let t = l.trim_start();
        if t.starts_with("#dbg") || t.starts_with(';') {
            continue;
        }
        // multi-line: switch [ ... ], landingpad clauses, invoke
        let mut owned: String = t.to_string();
        if t.contains("switch ") && t.ends_with('[') {
            loop {
                let l2 = m.line(li);
                li += 1;
                owned.push(' ');
                owned.push_str(l2.trim());
                if l2.trim().starts_with(']') {
                    break;
                }
            }
        } else if t.contains("invoke ") && !t.contains(" unwind label ") {
            let l2 = m.line(li);
            li += 1;
            owned.push(' ');
            owned.push_str(l2.trim());
        } else if t.contains("landingpad ") {
            while li < en {
                let l2 = m.line(li).trim_start();
                if l2.starts_with("cleanup") || l2.starts_with("catch") || l2.starts_with("filter") {
                    li += 1;
                } else {
                    break;
                }
            }
        }
        let mut ip = P { m, s: owned.as_bytes(), i: 0, regs: std::mem::take(&mut regs), blocks: std::mem::take(&mut block_of) };
        let r = parse_ins(&mut ip, &mut blocks[cur as usize]);
        regs = std::mem::take(&mut ip.regs);
        block_of = std::mem::take(&mut ip.blocks);
        ninstr += 1;
        if let Err(e) = r {
            // an instruction we cannot decode: only an error when executed
            blocks[cur as usize].ins.push(Ins::Unsupported(format!("{} [{}]", e, owned.chars().take(120).collect::<String>())));
        }
    }
    Ok(Func { nregs: regs.len() as u32, nparams, blocks, ninstr })
}

fn parse_ins(p: &mut P, b: &mut Block) -> R<()> {
    let mut dst = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name()?;
        p.expect(b'=')?;
        dst = Some(p.reg(&n));
    }
    let mut op = p.word();
    while matches!(op, "tail" | "musttail" | "notail") {
        op = p.word();
    }
    let d = dst.unwrap_or(u32::MAX);
    let ins = match op {
        "alloca" => {
            p.eat_word("inalloca");
            let t = p.ty()?;
            let mut cnt = Op::C(1);
            if p.eat(b',') && p.is_type_start() {
                cnt = p.tval()?.1;
            }
            Ins::Alloca { dst: d, size: t.size(), cnt }
        }
        "load" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let t = p.ty()?;
            p.expect(b',')?;
            let (_, a) = p.tval()?;
            Ins::Load { dst: d, ty: t, p: a }
        }
        "store" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let (t, v) = p.tval()?;
            p.expect(b',')?;
            let (_, a) = p.tval()?;
            Ins::Store { ty: t, v, p: a }
        }
        "getelementptr" => {
            while !p.is_type_start() {
                if p.word().is_empty() {
                    return Err("gep".into());
                }
            }
            let st = p.ty()?;
            p.expect(b',')?;
            let (bt, base) = p.tval()?;
            if bt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut off = 0u64;
            let mut terms = vec![];
            let mut cur = st.clone();
            let mut k = 0;
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let (it, v) = p.tval()?;
                let w = it.bits();
                if k == 0 {
                    let sz = cur.size();
                    match v {
                        Op::C(x) => {
                            let sx = if w < 64 && x >> (w - 1) & 1 == 1 { x | !P::mask(w) } else { x };
                            off = off.wrapping_add(sx.wrapping_mul(sz));
                        }
                        v => terms.push((v, w, sz)),
                    }
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let x = match v {
                                Op::C(x) => x as usize,
                                _ => return Err("struct idx".into()),
                            };
                            off = off.wrapping_add(cur.field_offset(x));
                            cur = cur.elem(x).clone();
                        }
                        _ => {
                            let et = cur.elem(0).clone();
                            let sz = et.size();
                            match v {
                                Op::C(x) => {
                                    let sx = if w < 64 && x >> (w - 1) & 1 == 1 { x | !P::mask(w) } else { x };
                                    off = off.wrapping_add(sx.wrapping_mul(sz));
                                }
                                v => terms.push((v, w, sz)),
                            }
                            cur = et;
                        }
                    }
                }
                k += 1;
            }
            Ins::Gep { dst: d, base, off, terms }
        }
        "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            let k = match op {
                "add" => BinK::Add,
                "sub" => BinK::Sub,
                "mul" => BinK::Mul,
                "udiv" => BinK::UDiv,
                "urem" => BinK::URem,
                "sdiv" => BinK::SDiv,
                "srem" => BinK::SRem,
                "shl" => BinK::Shl,
                "lshr" => BinK::LShr,
                "ashr" => BinK::AShr,
                "and" => BinK::And,
                "or" => BinK::Or,
                _ => BinK::Xor,
            };
            while !p.is_type_start() {
                p.word();
            }
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.expect(b',')?;
            let c = p.val(&t)?;
            let (w, n) = vec_shape(&t);
            Ins::Bin { dst: d, k, w, n, a, b: c }
        }
        "icmp" => {
            p.eat_word("samesign");
            let pr = match p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                x => return Err(format!("pred {}", x)),
            };
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.expect(b',')?;
            let c = p.val(&t)?;
            let (w, n) = vec_shape(&t);
            Ins::Icmp { dst: d, p: pr, w, n, a, b: c }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
            while !p.is_type_start() {
                p.word();
            }
            let ft = p.ty()?;
            let a = p.val(&ft)?;
            if !p.eat_word("to") {
                return Err("to".into());
            }
            let tt = p.ty()?;
            let k = match op {
                "trunc" => CastK::Trunc,
                "zext" => CastK::Zext,
                "sext" => CastK::Sext,
                "ptrtoint" | "inttoptr" => {
                    let (f, t) = (ft.bits(), tt.bits());
                    if f > t {
                        CastK::Trunc
                    } else if f < t {
                        CastK::Zext
                    } else {
                        CastK::Bitcast
                    }
                }
                _ => CastK::Bitcast,
            };
            Ins::Cast { dst: d, k, from: ft, to: tt, a }
        }
        "select" => {
            while !p.is_type_start() {
                p.word();
            }
            let (ct, c) = p.tval()?;
            p.expect(b',')?;
            let (t, a) = p.tval()?;
            p.expect(b',')?;
            let (_, e) = p.tval()?;
            Ins::Select { dst: d, vc: matches!(ct, Ty::Vect(..)), ty: t, c, a, b: e }
        }
        "phi" => {
            while !p.is_type_start() {
                p.word();
            }
            let t = p.ty()?;
            let mut inc = vec![];
            loop {
                p.expect(b'[')?;
                let v = p.val(&t)?;
                p.expect(b',')?;
                let l = p.bare_label()?;
                p.expect(b']')?;
                inc.push((l, v));
                if !(p.eat(b',') && p.peek() == b'[') {
                    break;
                }
            }
            b.phis.push((d, t, inc));
            return Ok(());
        }
        "br" => {
            if p.peek_word() == "label" {
                Ins::Br(p.label()?)
            } else {
                let (_, c) = p.tval()?;
                p.expect(b',')?;
                let x = p.label()?;
                p.expect(b',')?;
                let y = p.label()?;
                Ins::CondBr(c, x, y)
            }
        }
        "switch" => {
            let (t, v) = p.tval()?;
            p.expect(b',')?;
            let def = p.label()?;
            p.expect(b'[')?;
            let mut cases = vec![];
            while !p.eat(b']') {
                let ct = p.ty()?;
                let c = match p.konst(&ct)? {
                    Const::Int(x) => x,
                    _ => return Err("wide switch".into()),
                };
                p.expect(b',')?;
                let l = p.label()?;
                cases.push((c, l));
            }
            Ins::Switch { w: t.bits(), v, def, cases }
        }
        "ret" => {
            if p.peek_word() == "void" {
                Ins::Ret(None)
            } else {
                let (_, v) = p.tval()?;
                Ins::Ret(Some(v))
            }
        }
        "unreachable" => Ins::Unreachable,
        "extractvalue" => {
            let (_, a) = p.tval()?;
            let mut idx = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.word().parse::<u32>().map_err(|_| "idx")?);
            }
            Ins::Extract { dst: d, a, idx }
        }
        "insertvalue" => {
            let (t, a) = p.tval()?;
            p.expect(b',')?;
            let (_, v) = p.tval()?;
            let mut idx = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.word().parse::<u32>().map_err(|_| "idx")?);
            }
            Ins::Insert { dst: d, ty: t, a, v, idx }
        }
        "extractelement" => {
            let (_, a) = p.tval()?;
            p.expect(b',')?;
            let (_, i) = p.tval()?;
            Ins::ExtElem { dst: d, a, i }
        }
        "insertelement" => {
            let (t, a) = p.tval()?;
            p.expect(b',')?;
            let (_, v) = p.tval()?;
            p.expect(b',')?;
            let (_, i) = p.tval()?;
            Ins::InsElem { dst: d, ty: t, a, v, i }
        }
        "shufflevector" => {
            let (t, a) = p.tval()?;
            p.expect(b',')?;
            let (_, c) = p.tval()?;
            p.expect(b',')?;
            let mt = p.ty()?;
            let mk = p.konst(&mt)?;
            let (w, n) = vec_shape(&t);
            let mask = match mk {
                Const::Agg(v) => v
                    .iter()
                    .map(|c| match c {
                        Const::Int(x) => Some(*x as u32),
                        _ => None,
                    })
                    .collect(),
                _ => return Err("mask".into()),
            };
            Ins::Shuffle { dst: d, n, w, a, b: c, mask }
        }
        "freeze" => {
            let (t, a) = p.tval()?;
            Ins::Freeze { dst: d, ty: t, a }
        }
        "fence" => return Ok(()),
        "landingpad" | "resume" => Ins::Unsupported("unwinding".into()),
        "atomicrmw" => {
            p.eat_word("volatile");
            let o = p.word().to_string();
            let (_, a) = p.tval()?;
            p.expect(b',')?;
            let (t, v) = p.tval()?;
            Ins::Rmw { dst: d, op: o, ty: t, p: a, v }
        }
        "cmpxchg" => {
            p.eat_word("weak");
            p.eat_word("volatile");
            let (_, a) = p.tval()?;
            p.expect(b',')?;
            let (t, c) = p.tval()?;
            p.expect(b',')?;
            let (_, n) = p.tval()?;
            Ins::CmpXchg { dst: d, ty: t, p: a, c, n }
        }
        "call" | "invoke" => {
            // [fast-math/cc/ret attrs] ty [fnty] callee(args) ...
            p.skip_attrs_until_type()?;
            let ret = p.ty()?;
            if p.peek() == b'(' {
                // function type of a varargs call
                p.skip_parens();
            }
            let mut name = String::new();
            let callee;
            loop {
                match p.peek() {
                    b'@' => {
                        p.i += 1;
                        name = p.name()?;
                        let mut nm = name.clone();
                        while let Some(t) = p.m.aliases.get(&nm) {
                            nm = t.clone();
                        }
                        callee = if let Some(i) = intrinsic(&nm) {
                            Callee::Intr(i, 0)
                        } else {
                            Callee::Fn(*p.m.fn_ix.get(&nm).ok_or(format!("callee {}", nm))?)
                        };
                        break;
                    }
                    b'%' => {
                        p.i += 1;
                        let n = p.name()?;
                        callee = Callee::Ind(Op::Reg(p.reg(&n)));
                        break;
                    }
                    _ => {
                        if p.peek_word() == "asm" {
                            callee = Callee::Asm;
                            while p.peek() != b'(' {
                                if p.peek() == b'"' {
                                    p.i += 1;
                                    let s0 = p.i;
                                    while p.s[p.i] != b'"' {
                                        p.i += 1;
                                    }
                                    name.push_str(&String::from_utf8_lossy(&p.s[s0..p.i]));
                                    name.push('|');
                                    p.i += 1;
                                } else if p.eat(b',') {
                                } else {
                                    p.word();
                                }
                            }
                            break;
                        }
                        if matches!(p.peek_word(), "inttoptr" | "null") {
                            let c = p.konst(&Ty::Ptr)?;
                            let _ = c;
                            return Err("call of constant".into());
                        }
                        p.skip_attr()?
                    }
                }
            }
            p.expect(b'(')?;
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    if p.peek_word() == "metadata" {
                        // skip to closing paren
                        while p.peek() != b')' {
                            p.i += 1;
                        }
                        p.expect(b')')?;
                        break;
                    }
                    args.push(p.tval()?);
                    if p.eat(b')') {
                        break;
                    }
                    p.expect(b',')?;
                }
            }
            let mut normal = None;
            if op == "invoke" {
                while p.peek() != b't' || p.peek_word() != "to" {
                    if p.peek() == b'[' {
                        while !p.eat(b']') {
                            p.i += 1;
                        }
                        continue;
                    }
                    p.skip_attr()?;
                }
                p.eat_word("to");
                normal = Some(p.label()?);
            }
            let mut callee = callee;
            if let Callee::Intr(i, _) = callee {
                // width of the (element of the) first argument
                let w = args.first().map(|(t, _)| match t {
                    Ty::Vect(_, e) => e.bits(),
                    t if t.is_scalar() => t.bits(),
                    _ => 0,
                });
                callee = Callee::Intr(i, w.unwrap_or(0));
            }
            Ins::Call(Box::new(Call { dst, callee, args, ret, normal, name }))
        }
        x => Ins::Unsupported(format!("opcode {}", x)),
    };
    b.ins.push(ins);
    Ok(())
}
