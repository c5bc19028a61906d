//! Parser for textual LLVM IR; functions are compiled lazily.
use crate::exec::Val;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| x.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) if w % 8 != 0 => ((*n as u64 * *w as u64) + 7) / 8,
                t => *n as u64 * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Void | Ty::Meta => 0,
        }
    }
    /// Bytes written by a store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    K(Rc<Val>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Builtin(Rc<str>),
    Intrin(Rc<str>),
    Ptr(Opnd),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u32, u32, Opnd, Opnd),          // op dst width a b
    VBin(BinOp, u32, u32, u32, Opnd, Opnd),    // op dst lanes width a b
    FBin(FOp, u32, Ty, Opnd, Opnd),
    FCmp(Rc<str>, u32, Ty, Opnd, Opnd),
    Icmp(Pred, u32, u32, Opnd, Opnd),
    VIcmp(Pred, u32, u32, u32, Opnd, Opnd),
    Cast(CastOp, u32, Ty, Ty, Opnd),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Rc<Vec<(Opnd, u64, u32)>>),
    Select(u32, Ty, Opnd, Opnd, Opnd, bool), // last: vector condition
    Call(u32, Rc<CallI>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Rc<Vec<(u128, u32)>>, u32), // value width cases default
    Ret(Option<Opnd>),
    Unreachable,
    ExtractValue(u32, Opnd, Rc<Vec<u32>>),
    InsertValue(u32, Ty, Opnd, Opnd, Rc<Vec<u32>>),
    ExtractElem(u32, Opnd, Opnd),
    InsertElem(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, u32, Ty, Opnd, Opnd, Rc<Vec<i32>>), // dst, src lanes, elem ty
    AtomicRmw(Rmw, u32, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Alloca(u32, u64, Opnd, u64), // dst, elem size, count, align
    Freeze(u32, Opnd),
    Nop,
    LandingPad,
}

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Ty, Opnd)>,
    pub byval: Vec<u64>,
    pub ret: Ty,
    pub cont: Option<u32>, // invoke normal destination
}

pub struct Block {
    pub code: Vec<I>,
    /// line in the IR text of each instruction is not kept
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>, // dst, (pred block, value)
}

pub struct Func {
    pub id: usize,
    pub name: Rc<str>,
    pub nparams: usize,
    pub byval: Vec<u64>,
    pub vararg: bool,
    pub nregs: usize,
    pub reg_ty: Vec<Ty>,
    pub blocks: Vec<Block>,
    pub ret: Ty,
    /// immediate post-dominators (u32::MAX = none)
    pub ipdom: Vec<u32>,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    pub module: usize,
    pub range: Option<(usize, usize)>, // text of the definition
    pub compiled: RefCell<Option<Rc<Func>>>,
}

pub struct GlobalDecl {
    pub name: Rc<str>,
    pub module: usize,
    pub ty: Option<Ty>,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
    pub size: u64,
}

pub struct Module {
    pub text: Rc<str>,
    pub types: HashMap<String, (usize, usize)>,
    pub local_f: HashMap<Rc<str>, usize>,
    pub local_g: HashMap<Rc<str>, usize>,
    pub alias: HashMap<Rc<str>, String>,
}

pub struct Program {
    pub modules: Vec<Module>,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<GlobalDecl>,
    pub fmap: HashMap<Rc<str>, usize>,
    pub gmap: HashMap<Rc<str>, usize>,
    pub galias: HashMap<Rc<str>, (usize, String)>,
    tycache: RefCell<HashMap<(usize, String), Ty>>,
}

/// Functions that are handled by the engine even when a definition exists.
pub fn forced_builtin(name: &str) -> Option<&'static str> {
    if name.ends_with("4core9panicking9panic_fmt") {
        return Some("rust_panic_fmt");
    }
    if name.ends_with("4core9panicking14panic_nounwind") || name.contains("4core9panicking19panic_cannot_unwind") {
        return Some("rust_panic_nounwind");
    }
    if name.contains("panic_nounwind_fmt") {
        return Some("rust_panic_fmt");
    }
    if name.contains("3std9panicking15begin_panic") || name.contains("3std2rt10begin_panic") {
        return Some("rust_begin_panic");
    }
    if name.contains("rust_panic_with_hook") {
        return Some("rust_begin_panic");
    }
    for (k, b) in [("7___rustc12___rust_alloc", "malloc"), ("7___rustc14___rust_dealloc", "free"), ("7___rustc14___rust_realloc", "rust_realloc"), ("7___rustc19___rust_alloc_zeroed", "rust_calloc")] {
        if name.ends_with(k) {
            return Some(b);
        }
    }
    if name.contains("no_alloc_shim_is_unstable") {
        return Some("std_detect_zero");
    }
    if name.contains("is_x86_feature_detected") || name.contains("10std_detect6detect") && name.contains("detect_and_initialize") {
        return Some("std_detect_zero");
    }
    None
}

pub const OBJ_SHIFT: u32 = 32;
pub const GLOBAL_BASE: u64 = 1; // object ids of globals start here
pub const FN_OBJ: u64 = 0x3fff_0000; // function addresses: FN_OBJ<<32 | idx<<4

pub fn fn_addr(idx: usize) -> u64 {
    (FN_OBJ << OBJ_SHIFT) | ((idx as u64) << 4)
}

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a str, p: usize) -> Self {
        Cur { s: s.as_bytes(), p }
    }
    pub fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.p += 1;
            } else if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    /// spaces only, not newlines
    pub fn sp(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.p..].starts_with(b) {
            let e = self.p + b.len();
            // word boundary for words
            if idch(b[b.len() - 1]) && e < self.s.len() && idch(self.s[e]) {
                return false;
            }
            self.p = e;
            return true;
        }
        false
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            self.fail(&format!("expected `{}`", t));
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(80);
        let b = (self.p + 120).min(self.s.len());
        panic!(
            "IR parse error: {} at ...{}<<<HERE>>>{}",
            m,
            String::from_utf8_lossy(&self.s[a..self.p]),
            String::from_utf8_lossy(&self.s[self.p..b])
        );
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let a = self.p;
        while self.p < self.s.len() && idch(self.s[self.p]) {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[a..self.p]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    /// name after % or @ (already consumed)
    pub fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            self.p += 1;
            let a = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = unescape(&self.s[a..self.p]);
            self.p += 1;
            String::from_utf8_lossy(&r).into_owned()
        } else {
            let a = self.p;
            while self.p < self.s.len() && idch(self.s[self.p]) {
                self.p += 1;
            }
            String::from_utf8_lossy(&self.s[a..self.p]).into_owned()
        }
    }
    pub fn uint(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| self.fail("number"))
    }
    pub fn skip_parens(&mut self) {
        self.ws();
        if self.s[self.p] != b'(' {
            return;
        }
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn eol(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    /// to the end of the line the last consumed token is on
    pub fn end_of_instr(&mut self) {
        // a token read ahead may have skipped the line end
        while self.p > 0 && matches!(self.s[self.p - 1], b' ' | b'\t' | b'\n' | b'\r') {
            self.p -= 1;
        }
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        let c = self.peek();
        if matches!(c, b'{' | b'<' | b'[' | b'%') {
            return true;
        }
        let w = self.peek_word();
        matches!(
            w,
            "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "label" | "metadata" | "fp128"
        ) || (w.len() > 1
            && w.as_bytes()[0] == b'i'
            && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
    }
    /// skip attribute words until a type starts
    fn skip_attrs_to_type(&mut self) -> Option<u64> {
        let mut byval = None;
        while !self.at_type() {
            let c = self.peek();
            if c == b'"' {
                // "key"="value"
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                if self.s[self.p] == b'=' {
                    self.p += 2;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                }
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                self.fail("attribute or type");
            }
            if w == "align" || w == "addrspace" {
                if self.peek() == b'(' {
                    self.skip_parens();
                } else {
                    self.word();
                }
                continue;
            }
            if w == "byval" {
                byval = Some(0);
            }
            if self.peek() == b'(' {
                self.skip_parens();
            }
        }
        byval
    }
}

pub fn unescape(b: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            r.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    r
}

fn parse_int(w: &str) -> Option<u128> {
    if let Some(h) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).ok();
    }
    if let Some(n) = w.strip_prefix('-') {
        return n.parse::<u128>().ok().map(|v| v.wrapping_neg());
    }
    w.parse::<u128>().ok()
}

impl Program {
    pub fn new() -> Self {
        Program {
            modules: vec![],
            funcs: vec![],
            globals: vec![],
            fmap: HashMap::new(),
            gmap: HashMap::new(),
            galias: HashMap::new(),
            tycache: RefCell::new(HashMap::new()),
        }
    }

    pub fn load(&mut self, text: String) {
        let text: Rc<str> = Rc::from(text);
        let m = self.modules.len();
        let mut md = Module {
            text: text.clone(),
            types: HashMap::new(),
            local_f: HashMap::new(),
            local_g: HashMap::new(),
            alias: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let e = memchr(b, p, b'\n').unwrap_or(b.len());
            let line = &text[p..e];
            let c0 = *line.as_bytes().first().unwrap_or(&0);
            if c0 == b'd' && line.starts_with("define ") {
                // find the end: a line that is exactly "}"
                let mut q = e + 1;
                loop {
                    let e2 = memchr(b, q, b'\n').unwrap_or(b.len());
                    if &b[q..e2] == b"}" {
                        break;
                    }
                    q = e2 + 1;
                }
                let (name, internal) = header_name(line);
                let name: Rc<str> = Rc::from(name);
                self.add_func(m, &mut md, name, internal, Some((p, q)));
                p = q + 2;
                continue;
            } else if c0 == b'd' && line.starts_with("declare ") {
                // declarations are resolved by name on use
            } else if c0 == b'@' {
                self.global_line(m, &mut md, &text, p, e);
            } else if c0 == b'%' {
                let mut c = Cur::new(&text, p + 1);
                let n = c.name();
                c.expect("=");
                c.expect("type");
                c.ws();
                md.types.insert(n, (c.p, e));
            }
            p = e + 1;
        }
        self.modules.push(md);
    }

    fn add_func(&mut self, m: usize, md: &mut Module, name: Rc<str>, internal: bool, range: Option<(usize, usize)>) {
        let idx = self.funcs.len();
        self.funcs.push(FuncDecl {
            name: name.clone(),
            module: m,
            range,
            compiled: RefCell::new(None),
        });
        if internal {
            md.local_f.insert(name, idx);
        } else {
            self.fmap.entry(name).or_insert(idx);
        }
    }

    fn global_line(&mut self, m: usize, md: &mut Module, text: &Rc<str>, p: usize, e: usize) {
        let mut c = Cur::new(text, p + 1);
        let n: Rc<str> = Rc::from(c.name());
        c.expect("=");
        let mut internal = false;
        let mut external = false;
        loop {
            if c.eat("alias") {
                // @x = alias ty, ptr @y
                let s = &text[c.p..e];
                let at = s.rfind('@').unwrap();
                let mut c2 = Cur::new(text, c.p + at + 1);
                let tgt = c2.name();
                if internal {
                    md.alias.insert(n, tgt);
                } else {
                    self.galias.insert(n, (m, tgt));
                }
                return;
            }
            if c.eat("global") || c.eat("constant") {
                break;
            }
            let w = c.word();
            if w == "internal" || w == "private" {
                internal = true;
            }
            if w == "external" || w == "extern_weak" {
                external = true;
            }
            if c.peek() == b'(' {
                c.skip_parens();
            }
            if w.is_empty() {
                c.fail("global");
            }
        }
        let constant = &text[c.p - 8..c.p] == "constant";
        if external {
            return;
        }
        let idx = self.globals.len();
        c.ws();
        let st = c.p;
        self.globals.push(GlobalDecl {
            name: n.clone(),
            module: m,
            ty: None,
            init: Some((st, e)),
            constant,
            size: 0,
        });
        if internal {
            md.local_g.insert(n, idx);
        } else {
            self.gmap.entry(n).or_insert(idx);
        }
    }

    pub fn find_func(&self, m: usize, name: &str) -> Option<usize> {
        if let Some(&i) = self.modules[m].local_f.get(name) {
            return Some(i);
        }
        if let Some(t) = self.modules[m].alias.get(name) {
            return self.find_func(m, t);
        }
        if let Some(&i) = self.fmap.get(name) {
            return Some(i);
        }
        if let Some((m2, t)) = self.galias.get(name) {
            return self.find_func(*m2, t);
        }
        None
    }
    pub fn find_global(&self, m: usize, name: &str) -> Option<usize> {
        if let Some(&i) = self.modules[m].local_g.get(name) {
            return Some(i);
        }
        if let Some(t) = self.modules[m].alias.get(name) {
            return self.find_global(m, t);
        }
        if let Some(&i) = self.gmap.get(name) {
            return Some(i);
        }
        if let Some((m2, t)) = self.galias.get(name) {
            return self.find_global(*m2, t);
        }
        None
    }
    pub fn global_addr(&self, i: usize) -> u64 {
        (GLOBAL_BASE + i as u64) << OBJ_SHIFT
    }

    pub fn symbol_addr(&self, m: usize, name: &str, ext: &mut dyn FnMut(&str) -> u64) -> u64 {
        if let Some(i) = self.find_func(m, name) {
            return fn_addr(i);
        }
        if let Some(i) = self.find_global(m, name) {
            return self.global_addr(i);
        }
        ext(name)
    }

    // ---- types and constants ----

    pub fn ty(&self, m: usize, c: &mut Cur) -> Ty {
        let ch = c.peek();
        match ch {
            b'{' => {
                c.p += 1;
                let mut f = vec![];
                if !c.eat("}") {
                    loop {
                        f.push(self.ty(m, c));
                        if !c.eat(",") {
                            break;
                        }
                    }
                    c.expect("}");
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                c.p += 1;
                if c.eat("{") {
                    let mut f = vec![];
                    if !c.eat("}") {
                        loop {
                            f.push(self.ty(m, c));
                            if !c.eat(",") {
                                break;
                            }
                        }
                        c.expect("}");
                    }
                    c.expect(">");
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = c.uint();
                    c.expect("x");
                    let t = self.ty(m, c);
                    c.expect(">");
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            b'[' => {
                c.p += 1;
                let n = c.uint();
                c.expect("x");
                let t = self.ty(m, c);
                c.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                let k = (m, n);
                if let Some(t) = self.tycache.borrow().get(&k) {
                    return t.clone();
                }
                let md = &self.modules[m];
                let (a, _) = *md.types.get(&k.1).unwrap_or_else(|| c.fail("type name"));
                let mut c2 = Cur::new(&md.text, a);
                let t = if c2.eat("opaque") {
                    Ty::Struct(Rc::new(vec![]), false)
                } else {
                    self.ty(m, &mut c2)
                };
                self.tycache.borrow_mut().insert(k, t.clone());
                t
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if c.eat("addrspace") {
                            c.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "metadata" | "label" => Ty::Meta,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| c.fail("type"))),
                    _ => c.fail("type"),
                }
            }
        }
    }

    /// Parses a constant of the given type (not a register).
    pub fn constant(&self, m: usize, c: &mut Cur, t: &Ty, ext: &mut dyn FnMut(&str) -> u64) -> Val {
        let ch = c.peek();
        match ch {
            b'@' => {
                c.p += 1;
                let n = c.name();
                Val::C(self.symbol_addr(m, &n, ext))
            }
            b'{' | b'[' | b'<' => {
                let packed = ch == b'<' && c.s[c.p + 1] == b'{';
                c.p += if packed { 2 } else { 1 };
                let mut v = vec![];
                let close = match ch {
                    b'{' => "}",
                    b'[' => "]",
                    _ => {
                        if packed {
                            "}"
                        } else {
                            ">"
                        }
                    }
                };
                if !c.eat(close) {
                    loop {
                        let et = self.ty(m, c);
                        v.push(self.constant(m, c, &et, ext));
                        if !c.eat(",") {
                            break;
                        }
                    }
                    c.expect(close);
                }
                if packed {
                    c.expect(">");
                }
                Val::A(Rc::new(v))
            }
            b'c' if c.s[c.p + 1] == b'"' => {
                c.p += 2;
                let a = c.p;
                while c.s[c.p] != b'"' {
                    c.p += 1;
                }
                let b = unescape(&c.s[a..c.p]);
                c.p += 1;
                Val::A(Rc::new(b.into_iter().map(|x| Val::C(x as u64)).collect()))
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => Val::C(1),
                    "false" | "null" => Val::C(0),
                    "zeroinitializer" | "undef" | "poison" | "none" => Val::zero(t),
                    "splat" => {
                        c.expect("(");
                        let et = self.ty(m, c);
                        let v = self.constant(m, c, &et, ext);
                        c.expect(")");
                        Val::A(Rc::new(vec![v; t.nfields()]))
                    }
                    "getelementptr" => {
                        loop {
                            let x = c.peek_word();
                            if x == "inbounds" || x == "nuw" || x == "nusw" || x == "nsw" {
                                c.word();
                            } else if x == "inrange" {
                                c.word();
                                c.skip_parens();
                            } else {
                                break;
                            }
                        }
                        c.expect("(");
                        let et = self.ty(m, c);
                        c.expect(",");
                        let pt = self.ty(m, c);
                        let base = self.constant(m, c, &pt, ext).c();
                        let mut off = 0i64;
                        let mut cur = et.clone();
                        let mut first = true;
                        while c.eat(",") {
                            let it = self.ty(m, c);
                            let iv = self.constant(m, c, &it, ext).c();
                            let iv = sx(iv, it.bits());
                            if first {
                                off += iv * et.size() as i64;
                                first = false;
                            } else {
                                match &cur {
                                    Ty::Struct(..) => {
                                        let (o, t2) = cur.field(iv as usize);
                                        off += o as i64;
                                        cur = t2;
                                    }
                                    _ => {
                                        let (_, t2) = cur.field(0);
                                        off += iv * t2.size() as i64;
                                        cur = t2;
                                    }
                                }
                            }
                        }
                        c.expect(")");
                        Val::C(base.wrapping_add(off as u64))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        c.expect("(");
                        let ft = self.ty(m, c);
                        let v = self.constant(m, c, &ft, ext);
                        c.expect("to");
                        let tt = self.ty(m, c);
                        c.expect(")");
                        let v = v.c();
                        Val::C(v & lowmask(tt.bits().min(64)))
                    }
                    "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                        while !c.eat("(") {
                            c.word();
                        }
                        let ft = self.ty(m, c);
                        let a = self.constant(m, c, &ft, ext).c();
                        c.expect(",");
                        let ft = self.ty(m, c);
                        let b = self.constant(m, c, &ft, ext).c();
                        c.expect(")");
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            "or" => a | b,
                            "mul" => a.wrapping_mul(b),
                            "shl" => a << b,
                            _ => a >> b,
                        };
                        Val::C(r & lowmask(ft.bits()))
                    }
                    _ => {
                        if matches!(t, Ty::Float | Ty::Double) {
                            // include exponent sign characters
                            let mut s = w.to_string();
                            while c.p < c.s.len() && (c.s[c.p] == b'+') {
                                c.p += 1;
                                s.push('+');
                                s.push_str(c.word());
                            }
                            let s2 = s.strip_prefix("f").unwrap_or(&s);
                            let d = if let Some(h) = s2.strip_prefix("0x") {
                                let bits = u64::from_str_radix(h, 16).unwrap_or_else(|_| c.fail("float"));
                                if s.starts_with('f') && *t == Ty::Float {
                                    return Val::C(bits);
                                }
                                f64::from_bits(bits)
                            } else {
                                s2.parse().unwrap_or_else(|_| c.fail("float"))
                            };
                            return if *t == Ty::Float {
                                Val::C((d as f32).to_bits() as u64)
                            } else {
                                Val::C(d.to_bits())
                            };
                        }
                        let v = parse_int(w).unwrap_or_else(|| c.fail("constant"));
                        let b = t.bits();
                        Val::from_u128(v, b)
                    }
                }
            }
        }
    }

    // ---- functions ----

    pub fn compile(&self, idx: usize, ext: &mut dyn FnMut(&str) -> u64) -> Option<Rc<Func>> {
        let d = &self.funcs[idx];
        if let Some(f) = &*d.compiled.borrow() {
            return Some(f.clone());
        }
        let (a, e) = d.range?;
        let f = Rc::new(FnC::new(self, idx, ext).run(a, e));
        *d.compiled.borrow_mut() = Some(f.clone());
        Some(f)
    }
}

pub fn lowmask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        return v as i64;
    }
    ((v << (64 - w)) as i64) >> (64 - w)
}

fn memchr(b: &[u8], p: usize, c: u8) -> Option<usize> {
    b[p..].iter().position(|&x| x == c).map(|i| i + p)
}

fn header_name(line: &str) -> (String, bool) {
    let at = line.find('@').unwrap();
    let internal = line[..at].contains(" internal ") || line[..at].contains(" private ");
    let mut c = Cur::new(line, at + 1);
    (c.name(), internal)
}

struct FnC<'a> {
    pr: &'a Program,
    m: usize,
    idx: usize,
    regs: HashMap<String, u32>,
    tys: Vec<Ty>,
    blks: HashMap<String, u32>,
    ext: &'a mut dyn FnMut(&str) -> u64,
}

impl<'a> FnC<'a> {
    fn new(pr: &'a Program, idx: usize, ext: &'a mut dyn FnMut(&str) -> u64) -> Self {
        FnC {
            pr,
            m: pr.funcs[idx].module,
            idx,
            regs: HashMap::new(),
            tys: vec![],
            blks: HashMap::new(),
            ext,
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.tys.len() as u32;
        self.regs.insert(n.to_string(), r);
        self.tys.push(Ty::Void);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blks.len() as u32;
        *self.blks.entry(n.to_string()).or_insert(k)
    }
    fn val(&mut self, c: &mut Cur, t: &Ty) -> Opnd {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return Opnd::R(self.reg(&n));
        }
        if *t == Ty::Meta {
            // skip metadata argument
            if c.peek() == b'!' {
                c.p += 1;
                if c.peek() == b'{' {
                    while c.s[c.p] != b'}' {
                        c.p += 1;
                    }
                    c.p += 1;
                } else {
                    c.word();
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
            } else {
                let t2 = self.pr.ty(self.m, c);
                self.val(c, &t2);
            }
            return Opnd::C(0);
        }
        match self.pr.constant(self.m, c, t, self.ext) {
            Val::C(v) => Opnd::C(v),
            v => Opnd::K(Rc::new(v)),
        }
    }
    fn tv(&mut self, c: &mut Cur) -> (Ty, Opnd) {
        let t = self.pr.ty(self.m, c);
        let v = self.val(c, &t);
        (t, v)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        self.blk(&n)
    }
    fn flags(&self, c: &mut Cur, fl: &[&str]) {
        loop {
            let w = c.peek_word();
            if fl.contains(&w) {
                c.word();
            } else {
                return;
            }
        }
    }

    fn run(mut self, a: usize, e: usize) -> Func {
        let text = self.pr.modules[self.m].text.clone();
        let mut c = Cur::new(&text, a);
        // header: define [linkage etc] retty @name(params) ... {
        c.expect("define");
        c.skip_attrs_to_type();
        let ret = self.pr.ty(self.m, &mut c);
        c.expect("@");
        c.name();
        c.expect("(");
        let mut nparams = 0;
        let mut vararg = false;
        let mut byval = vec![];
        let mut unnamed = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    vararg = true;
                    break;
                }
                let t = self.pr.ty(self.m, &mut c);
                let mut bv = 0;
                // attributes until %name or , or )
                loop {
                    match c.peek() {
                        b'%' | b',' | b')' => break,
                        b'"' => {
                            c.p += 1;
                            while c.s[c.p] != b'"' {
                                c.p += 1;
                            }
                            c.p += 1;
                            if c.s[c.p] == b'=' {
                                c.p += 2;
                                while c.s[c.p] != b'"' {
                                    c.p += 1;
                                }
                                c.p += 1;
                            }
                            continue;
                        }
                        _ => {}
                    }
                    let w = c.word();
                    if w == "byval" {
                        c.expect("(");
                        let bt = self.pr.ty(self.m, &mut c);
                        c.expect(")");
                        bv = bt.size();
                    } else if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
                let n = if c.peek() == b'%' {
                    c.p += 1;
                    c.name()
                } else {
                    unnamed.to_string()
                };
                if n.bytes().all(|x| x.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = self.reg(&n);
                self.tys[r as usize] = t;
                byval.push(bv);
                nparams += 1;
                if !c.eat(",") {
                    break;
                }
            }
            c.expect(")");
        }
        // to the opening brace at end of line
        while c.s[c.p] != b'\n' {
            c.p += 1;
        }
        c.p += 1;

        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        while c.p < e {
            // at line start
            let ch = c.s[c.p];
            if ch == b'\n' {
                c.p += 1;
                continue;
            }
            if ch == b';' {
                c.eol();
                continue;
            }
            if ch != b' ' && ch != b'\t' {
                // label
                let n = c.name();
                c.expect(":");
                c.end_of_instr();
                if let Some(b) = cur.take() {
                    blocks.push(b);
                }
                cur = Some((self.blk(&n), Block { code: vec![], phis: vec![] }));
                continue;
            }
            c.sp();
            if c.s[c.p] == b'\n' {
                continue;
            }
            if c.s[c.p] == b';' || c.s[c.p] == b'#' {
                c.eol();
                continue;
            }
            if cur.is_none() {
                let n = unnamed.to_string();
                cur = Some((self.blk(&n), Block { code: vec![], phis: vec![] }));
            }
            let b = &mut cur.as_mut().unwrap().1;
            self.instr(&mut c, b);
            c.end_of_instr();
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        let entry = blocks[0].0;
        let n = self.blks.len();
        let mut out: Vec<Block> = (0..n).map(|_| Block { code: vec![], phis: vec![] }).collect();
        for (i, b) in blocks {
            out[i as usize] = b;
        }
        assert_eq!(entry, 0, "entry block must be first");
        let ipdom = post_dominators(&out);
        Func {
            id: self.idx,
            name: self.pr.funcs[self.idx].name.clone(),
            nparams,
            byval,
            vararg,
            nregs: self.tys.len(),
            reg_ty: self.tys,
            blocks: out,
            ret,
            ipdom,
        }
    }

    fn def(&mut self, dst: Option<u32>, t: Ty) -> u32 {
        match dst {
            Some(d) => {
                self.tys[d as usize] = t;
                d
            }
            None => u32::MAX,
        }
    }

    fn instr(&mut self, c: &mut Cur, b: &mut Block) {
        let m = self.m;
        let pr = self.pr;
        let mut dst = None;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            c.expect("=");
            dst = Some(self.reg(&n));
        }
        let op = c.word();
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                self.flags(c, &["nuw", "nsw", "exact", "disjoint"]);
                let bo = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                let t = pr.ty(m, c);
                let x = self.val(c, &t);
                c.expect(",");
                let y = self.val(c, &t);
                let d = self.def(dst, t.clone());
                match &t {
                    Ty::Vec(n, et) => I::VBin(bo, d, *n, et.bits(), x, y),
                    _ => I::Bin(bo, d, t.bits(), x, y),
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                self.flags(c, &["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let t = pr.ty(m, c);
                let x = self.val(c, &t);
                let y = if op == "fneg" {
                    Opnd::C(0)
                } else {
                    c.expect(",");
                    self.val(c, &t)
                };
                let fo = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    "frem" => FOp::Rem,
                    _ => FOp::Neg,
                };
                let d = self.def(dst, t.clone());
                I::FBin(fo, d, t, x, y)
            }
            "fcmp" => {
                self.flags(c, &["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let p: Rc<str> = Rc::from(c.word());
                let t = pr.ty(m, c);
                let x = self.val(c, &t);
                c.expect(",");
                let y = self.val(c, &t);
                let d = self.def(dst, Ty::Int(1));
                I::FCmp(p, d, t, x, y)
            }
            "icmp" => {
                self.flags(c, &["samesign"]);
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => c.fail("icmp predicate"),
                };
                let t = pr.ty(m, c);
                let x = self.val(c, &t);
                c.expect(",");
                let y = self.val(c, &t);
                match &t {
                    Ty::Vec(n, et) => {
                        let d = self.def(dst, Ty::Vec(*n, Rc::new(Ty::Int(1))));
                        I::VIcmp(p, d, *n, et.bits(), x, y)
                    }
                    _ => {
                        let d = self.def(dst, Ty::Int(1));
                        I::Icmp(p, d, t.bits(), x, y)
                    }
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" | "ptrtoaddr" => {
                self.flags(c, &["nuw", "nsw", "nneg", "fast", "contract"]);
                let (ft, x) = self.tv(c);
                c.expect("to");
                let tt = pr.ty(m, c);
                let co = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "fptrunc" => CastOp::FpTrunc,
                    "fpext" => CastOp::FpExt,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    _ => CastOp::BitCast,
                };
                let d = self.def(dst, tt.clone());
                I::Cast(co, d, ft, tt, x)
            }
            "load" => {
                self.flags(c, &["atomic", "volatile"]);
                let t = pr.ty(m, c);
                c.expect(",");
                let (_, p) = self.tv(c);
                let d = self.def(dst, t.clone());
                I::Load(d, t, p)
            }
            "store" => {
                self.flags(c, &["atomic", "volatile"]);
                let (t, v) = self.tv(c);
                c.expect(",");
                let (_, p) = self.tv(c);
                I::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags(c, &["inbounds", "nuw", "nusw", "nsw"]);
                let et = pr.ty(m, c);
                c.expect(",");
                let (_, base) = self.tv(c);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et.clone();
                let mut first = true;
                while c.eat(",") {
                    if c.peek() == b'!' {
                        c.p -= 1;
                        break;
                    }
                    let (it, iv) = self.tv(c);
                    let sz;
                    if first {
                        sz = et.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &iv {
                                    Opnd::C(k) => *k,
                                    _ => c.fail("gep"),
                                };
                                let (o, t2) = cur.field(k as usize);
                                off += o as i64;
                                cur = t2;
                                continue;
                            }
                            _ => {
                                let (_, t2) = cur.field(0);
                                sz = t2.size();
                                cur = t2;
                            }
                        }
                    }
                    match iv {
                        Opnd::C(k) => off = off.wrapping_add(sx(k, it.bits()).wrapping_mul(sz as i64)),
                        o => idx.push((o, sz, it.bits())),
                    }
                }
                let d = self.def(dst, Ty::Ptr);
                I::Gep(d, base, off, Rc::new(idx))
            }
            "select" => {
                self.flags(c, &["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let (ct, cv) = self.tv(c);
                c.expect(",");
                let (t, x) = self.tv(c);
                c.expect(",");
                let (_, y) = self.tv(c);
                let d = self.def(dst, t.clone());
                I::Select(d, t, cv, x, y, matches!(ct, Ty::Vec(..)))
            }
            "phi" => {
                self.flags(c, &["nnan", "ninf", "nsz", "fast"]);
                let t = pr.ty(m, c);
                let mut inc = vec![];
                loop {
                    c.expect("[");
                    let v = self.val(c, &t);
                    c.expect(",");
                    c.expect("%");
                    let n = c.name();
                    let bl = self.blk(&n);
                    c.expect("]");
                    inc.push((bl, v));
                    c.sp();
                    if c.s[c.p] != b',' {
                        break;
                    }
                    c.p += 1;
                    c.sp();
                    if c.s[c.p] != b'[' {
                        break;
                    }
                }
                let d = self.def(dst, t);
                b.phis.push((d, inc));
                return;
            }
            "br" => {
                if c.peek_word() == "label" {
                    I::Br(self.label(c))
                } else {
                    let (_, x) = self.tv(c);
                    c.expect(",");
                    let t = self.label(c);
                    c.expect(",");
                    let f = self.label(c);
                    I::CondBr(x, t, f)
                }
            }
            "switch" => {
                let (t, x) = self.tv(c);
                c.expect(",");
                let d = self.label(c);
                c.expect("[");
                let mut cs = vec![];
                while !c.eat("]") {
                    let ct = pr.ty(m, c);
                    let v = pr.constant(m, c, &ct, self.ext);
                    c.expect(",");
                    let l = self.label(c);
                    cs.push((v.u128(), l));
                }
                I::Switch(x, t.bits(), Rc::new(cs), d)
            }
            "ret" => {
                let t = pr.ty(m, c);
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.val(c, &t)))
                }
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let (t, x) = self.tv(c);
                let mut ix = vec![];
                let mut cur = t;
                loop {
                    c.sp();
                    if c.s[c.p] != b',' {
                        break;
                    }
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    let k = c.uint() as u32;
                    cur = cur.field(k as usize).1;
                    ix.push(k);
                }
                let d = self.def(dst, cur);
                I::ExtractValue(d, x, Rc::new(ix))
            }
            "insertvalue" => {
                let (t, x) = self.tv(c);
                c.expect(",");
                let (_, v) = self.tv(c);
                let mut ix = vec![];
                loop {
                    c.sp();
                    if c.s[c.p] != b',' {
                        break;
                    }
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.uint() as u32);
                }
                let d = self.def(dst, t.clone());
                I::InsertValue(d, t, x, v, Rc::new(ix))
            }
            "extractelement" => {
                let (t, x) = self.tv(c);
                c.expect(",");
                let (_, i) = self.tv(c);
                let d = self.def(dst, t.field(0).1);
                I::ExtractElem(d, x, i)
            }
            "insertelement" => {
                let (t, x) = self.tv(c);
                c.expect(",");
                let (_, v) = self.tv(c);
                c.expect(",");
                let (_, i) = self.tv(c);
                let d = self.def(dst, t.clone());
                I::InsertElem(d, t, x, v, i)
            }
            "shufflevector" => {
                let (t, x) = self.tv(c);
                c.expect(",");
                let (_, y) = self.tv(c);
                c.expect(",");
                let mt = pr.ty(m, c);
                let n = mt.nfields();
                let et = t.field(0).1;
                let mut mask = vec![];
                if c.eat("zeroinitializer") {
                    mask = vec![0; n];
                } else if c.eat("poison") || c.eat("undef") {
                    mask = vec![-1; n];
                } else {
                    c.expect("<");
                    loop {
                        pr.ty(m, c);
                        let w = c.word();
                        mask.push(w.parse::<i32>().unwrap_or(-1));
                        if !c.eat(",") {
                            break;
                        }
                    }
                    c.expect(">");
                }
                let d = self.def(dst, Ty::Vec(n as u32, Rc::new(et.clone())));
                I::Shuffle(d, t.nfields() as u32, et, x, y, Rc::new(mask))
            }
            "atomicrmw" => {
                self.flags(c, &["volatile"]);
                let o = match c.word() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "nand" => Rmw::Nand,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    _ => c.fail("atomicrmw op"),
                };
                let (_, p) = self.tv(c);
                c.expect(",");
                let (t, v) = self.tv(c);
                let d = self.def(dst, t.clone());
                I::AtomicRmw(o, d, t, p, v)
            }
            "cmpxchg" => {
                self.flags(c, &["weak", "volatile"]);
                let (_, p) = self.tv(c);
                c.expect(",");
                let (t, x) = self.tv(c);
                c.expect(",");
                let (_, y) = self.tv(c);
                let d = self.def(dst, Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false));
                I::CmpXchg(d, t, p, x, y)
            }
            "fence" => I::Nop,
            "alloca" => {
                self.flags(c, &["inalloca"]);
                let t = pr.ty(m, c);
                let mut n = Opnd::C(1);
                let mut al = t.align();
                loop {
                    c.sp();
                    if c.s[c.p] != b',' {
                        break;
                    }
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    if c.eat("align") {
                        al = c.uint();
                    } else if c.eat("addrspace") {
                        c.skip_parens();
                    } else {
                        n = self.tv(c).1;
                    }
                }
                let d = self.def(dst, Ty::Ptr);
                I::Alloca(d, t.size(), n, al)
            }
            "freeze" => {
                let (t, x) = self.tv(c);
                let d = self.def(dst, t);
                I::Freeze(d, x)
            }
            "landingpad" | "resume" => {
                // never executed: panics end the path (panic=abort)
                if op == "landingpad" {
                    let t = pr.ty(m, c);
                    self.def(dst, t);
                    // clauses on following lines
                    loop {
                        c.eol();
                        let save = c.p;
                        c.p += 1;
                        c.sp();
                        let w = c.peek_word();
                        if w == "cleanup" || w == "catch" || w == "filter" {
                            continue;
                        }
                        c.p = save;
                        break;
                    }
                }
                I::LandingPad
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = op == "invoke";
                if !invoke && op != "call" {
                    c.expect("call");
                }
                c.skip_attrs_to_type();
                let ret = pr.ty(m, c);
                if c.peek() == b'(' {
                    c.skip_parens(); // explicit function type (varargs)
                }
                let callee;
                if c.peek_word() == "asm" {
                    c.word();
                    let a = c.p;
                    while c.peek() != b'(' {
                        if c.s[c.p] == b'"' {
                            c.p += 1;
                            while c.s[c.p] != b'"' {
                                c.p += 1;
                            }
                        }
                        c.p += 1;
                    }
                    callee = Callee::Asm(Rc::from(String::from_utf8_lossy(&c.s[a..c.p]).into_owned()));
                } else if c.peek() == b'@' {
                    c.p += 1;
                    let n = c.name();
                    callee = self.callee(&n);
                } else {
                    let o = self.val(c, &Ty::Ptr);
                    callee = Callee::Ptr(o);
                }
                c.expect("(");
                let mut args = vec![];
                let mut byval = vec![];
                if !c.eat(")") {
                    loop {
                        let t = pr.ty(m, c);
                        let mut bv = 0;
                        if t != Ty::Meta {
                            // attributes
                            loop {
                                let ch = c.peek();
                                if ch == b'"' {
                                    c.p += 1;
                                    while c.s[c.p] != b'"' {
                                        c.p += 1;
                                    }
                                    c.p += 1;
                                    continue;
                                }
                                let w = c.peek_word();
                                let is_attr = matches!(
                                    w,
                                    "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly"
                                        | "writable" | "signext" | "zeroext" | "inreg" | "immarg" | "returned" | "nofree"
                                        | "nest" | "swiftself" | "allocptr" | "allocalign" | "noext" | "dead_on_unwind" | "dead_on_return"
                                        | "align" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range"
                                        | "captures" | "initializes" | "elementtype" | "nofpclass" | "byref" | "inalloca" | "preallocated"
                                );
                                if !is_attr {
                                    break;
                                }
                                c.word();
                                if w == "align" && c.peek() != b'(' {
                                    c.word();
                                } else if w == "byval" {
                                    c.expect("(");
                                    bv = pr.ty(m, c).size();
                                    c.expect(")");
                                } else if c.peek() == b'(' {
                                    c.skip_parens();
                                }
                            }
                        }
                        let v = self.val(c, &t);
                        args.push((t, v));
                        byval.push(bv);
                        if !c.eat(",") {
                            break;
                        }
                    }
                    c.expect(")");
                }
                let mut cont = None;
                if invoke {
                    // attributes, then `to label %x unwind label %y`
                    loop {
                        if c.eat("to") {
                            break;
                        }
                        if c.peek() == b'#' || c.peek() == b'[' {
                            c.p += 1;
                            continue;
                        }
                        if c.word().is_empty() {
                            c.p += 1;
                        }
                    }
                    cont = Some(self.label(c));
                    c.expect("unwind");
                    self.label(c);
                }
                let d = self.def(dst, ret.clone());
                if let Callee::Intrin(n) = &callee {
                    if n.starts_with("lifetime") || n.starts_with("dbg") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("prefetch") || n.starts_with("donothing") || n.starts_with("invariant") || n.starts_with("fake.use") {
                        return;
                    }
                }
                I::Call(d, Rc::new(CallI { callee, args, byval, ret, cont }))
            }
            _ => c.fail(&format!("unknown instruction `{}`", op)),
        };
        b.code.push(ins);
    }

    fn callee(&mut self, n: &str) -> Callee {
        if let Some(i) = n.strip_prefix("llvm.") {
            return Callee::Intrin(Rc::from(i));
        }
        if let Some(b) = forced_builtin(n) {
            return Callee::Builtin(Rc::from(b));
        }
        match self.pr.find_func(self.m, n) {
            Some(i) => Callee::Func(i),
            None => Callee::Builtin(Rc::from(n)),
        }
    }
}

pub fn successors(b: &Block) -> Vec<u32> {
    for i in &b.code {
        match i {
            I::Br(t) => return vec![*t],
            I::CondBr(_, t, f) => return vec![*t, *f],
            I::Switch(_, _, cs, d) => {
                let mut v: Vec<u32> = cs.iter().map(|x| x.1).collect();
                v.push(*d);
                v.sort();
                v.dedup();
                return v;
            }
            I::Call(_, ci) if ci.cont.is_some() => return vec![ci.cont.unwrap()],
            _ => {}
        }
    }
    vec![]
}

/// Immediate post-dominators over the CFG restricted to blocks that can reach a return.
fn post_dominators(bs: &[Block]) -> Vec<u32> {
    let n = bs.len();
    let succ: Vec<Vec<u32>> = bs.iter().map(successors).collect();
    let is_ret = |b: &Block| b.code.iter().any(|i| matches!(i, I::Ret(_)));
    let mut reach = vec![false; n];
    for i in 0..n {
        if is_ret(&bs[i]) {
            reach[i] = true;
        }
    }
    loop {
        let mut ch = false;
        for i in 0..n {
            if !reach[i] && succ[i].iter().any(|&s| reach[s as usize]) {
                reach[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // reverse graph with virtual exit n
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut rs: Vec<Vec<usize>> = vec![vec![]; n + 1]; // forward successors incl. exit
    for i in 0..n {
        if !reach[i] {
            continue;
        }
        for &s in &succ[i] {
            if reach[s as usize] {
                rs[i].push(s as usize);
                preds[s as usize].push(i);
            }
        }
        if is_ret(&bs[i]) {
            rs[i].push(n);
            preds[n].push(i);
        }
    }
    // postorder from exit over preds
    let mut st = vec![(n, 0)];
    seen[n] = true;
    while let Some((v, k)) = st.pop() {
        if k < preds[v].len() {
            st.push((v, k + 1));
            let p = preds[v][k];
            if !seen[p] {
                seen[p] = true;
                st.push((p, 0));
            }
        } else {
            order.push(v);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &v) in order.iter().enumerate() {
        num[v] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    loop {
        let mut ch = false;
        for &v in order.iter().rev() {
            if v == n {
                continue;
            }
            let mut nd = usize::MAX;
            for &s in &rs[v] {
                if idom[s] == usize::MAX {
                    continue;
                }
                if nd == usize::MAX {
                    nd = s;
                } else {
                    let (mut a, mut b) = (nd, s);
                    while a != b {
                        while num[a] < num[b] {
                            a = idom[a];
                        }
                        while num[b] < num[a] {
                            b = idom[b];
                        }
                    }
                    nd = a;
                }
            }
            if nd != usize::MAX && idom[v] != nd {
                idom[v] = nd;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    (0..n)
        .map(|i| {
            if idom[i] == usize::MAX || idom[i] == n {
                u32::MAX
            } else {
                idom[i] as u32
            }
        })
        .collect()
}
