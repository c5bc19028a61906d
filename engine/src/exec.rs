//! Symbolic interpreter for the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(Rc<u128>),
    S(E),
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let n = t.nfields();
                if n > 0 && !matches!(t, Ty::Struct(..)) {
                    let z = Val::zero(&t.field(0).1);
                    return Val::A(Rc::new(vec![z; n]));
                }
                Val::A(Rc::new((0..n).map(|i| Val::zero(&t.field(i).1)).collect()))
            }
            _ => Val::C(0),
        }
    }
    #[inline]
    pub fn c(&self) -> u64 {
        match self {
            Val::C(v) => *v,
            Val::W(v) => **v as u64,
            _ => panic!("not a concrete scalar: {:?}", self),
        }
    }
    pub fn u128(&self) -> u128 {
        match self {
            Val::C(v) => *v as u128,
            Val::W(v) => **v,
            _ => panic!("not a concrete scalar: {:?}", self),
        }
    }
    pub fn from_u128(v: u128, bits: u32) -> Val {
        if bits <= 64 {
            Val::C(v as u64 & lowmask(bits))
        } else {
            Val::W(Rc::new(v & mask(bits)))
        }
    }
    pub fn from_e(e: E) -> Val {
        match as_const(e) {
            Some(v) => Val::from_u128(v, width(e)),
            None => Val::S(e),
        }
    }
    pub fn e(&self, w: u32) -> E {
        match self {
            Val::C(v) => cst(*v as u128, w),
            Val::W(v) => cst(**v, w),
            Val::S(e) => {
                debug_assert_eq!(width(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate where a scalar is expected"),
        }
    }
    pub fn is_sym(&self) -> bool {
        matches!(self, Val::S(_))
    }
    fn el(&self, i: usize) -> Val {
        match self {
            Val::A(v) => v[i].clone(),
            Val::C(0) => Val::C(0),
            _ => panic!("element of scalar {:?}", self),
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // E(0): concrete byte
    pub ro: bool,
}

impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false }
    }
    fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|e| e.0 != 0),
        }
    }
    fn byte(&self, i: usize) -> E {
        match &self.sym {
            Some(s) if s[i].0 != 0 => s[i],
            _ => cst(self.data[i] as u128, 8),
        }
    }
    fn set_byte(&mut self, i: usize, e: E) {
        match as_const(e) {
            Some(v) => {
                self.data[i] = v as u8;
                if let Some(s) = &mut self.sym {
                    s[i] = E(0);
                }
            }
            None => {
                let n = self.data.len();
                self.sym.get_or_insert_with(|| vec![E(0); n])[i] = e;
            }
        }
    }
    fn put(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym {
            for x in &mut s[off..off + b.len()] {
                *x = E(0);
            }
        }
    }
}

const PG: usize = 128;
type Page = Vec<Option<Rc<Obj>>>;

#[derive(Clone, Default)]
pub struct Table {
    pages: Vec<Option<Rc<Page>>>,
}
impl Table {
    #[inline]
    fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        match self.pages.get(i / PG) {
            Some(Some(p)) => p[i % PG].as_ref(),
            _ => None,
        }
    }
    fn slot(&mut self, i: usize) -> &mut Option<Rc<Obj>> {
        let p = i / PG;
        if self.pages.len() <= p {
            self.pages.resize(p + 1, None);
        }
        let pg = self.pages[p].get_or_insert_with(|| Rc::new(vec![None; PG]));
        &mut Rc::make_mut(pg)[i % PG]
    }
    fn remove(&mut self, i: usize) {
        *self.slot(i) = None;
        if i % PG == PG - 1 || true {
            let p = i / PG;
            // drop pages that became empty at their end to keep clones cheap
            if i % PG == PG - 1 {
                if let Some(pg) = &self.pages[p] {
                    if pg.iter().all(|x| x.is_none()) {
                        self.pages[p] = None;
                    }
                }
            }
        }
    }
}

pub const STACK_OBJ: u64 = 0x1000_0000;
pub const HEAP_OBJ: u64 = 0x2000_0000;
pub const BUILTIN_OBJ: u64 = 0x3ffe_0000;

#[derive(Clone)]
pub struct Boundary {
    globals: Option<Table>,
    dst: u32,
    merge: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    dst: u32,
    cont: Option<u32>,
    sp0: u64,
    varargs: Rc<Vec<(Ty, Val)>>,
    boundary: Option<Rc<Boundary>>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    globals: Table,
    stack: Table,
    heap: Table,
    sp: u64,
    next_heap: u64,
    live: u64,
    pub pc: Vec<E>,
    model: Rc<Model>,
    names: Rc<BTreeMap<String, u32>>,
    inputs: Vec<(Rc<str>, Rc<Vec<E>>)>,
    notes: Vec<Rc<str>>,
    marks: Option<Vec<Rc<str>>>,
    hregs: [u64; 16],
    regions: Vec<u32>,
    merge: bool,
    steps: u64,
    depth: u32,
}

pub enum End {
    Infeasible,
    Violation(String, String), // kind, message
    Error(String),
    Done,
    Stop,
    Parked,
}
type R<T> = Result<T, End>;

struct Region {
    depth: usize,
    join: u32,
    arrivals: Vec<State>,
    pending: u32,
    died: bool,
    pc0: usize,
}

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub notes: Vec<String>,
}

pub struct Config {
    pub max_seconds: f64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub max_states: u64,
    pub jobs: usize,
    pub verbose: bool,
    pub trace: bool,
    pub samples: usize,
    pub params: HashMap<String, u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub merges: u64,
    pub asserts: u64,
    pub maxdepth: u32,
    pub covers: BTreeMap<String, u64>,
    pub infos: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub errors: Vec<String>,
    pub viols: Vec<Viol>,
    pub forksites: BTreeMap<String, u64>,
    pub samples: Vec<Vec<(String, Vec<u8>)>>,
}

pub struct Engine {
    pub pr: Program,
    pub solver: Solver,
    pub cfg: Config,
    pub st: Stats,
    ginit: Vec<Option<Rc<Obj>>>,
    ext_names: Vec<Rc<str>>,
    ext_map: HashMap<String, u64>,
    ext_code: HashMap<String, usize>,
    work: Vec<State>,
    regions: Vec<Region>,
    symvars: HashMap<(String, usize), E>,
    used: Vec<bool>,
    start: Instant,
    models: Vec<Rc<Model>>,
    tracing: Option<(u32, usize)>,
}

fn ins_dst(i: &I) -> Option<u32> {
    Some(match i {
        I::Bin(_, d, ..) | I::VBin(_, d, ..) | I::FBin(_, d, ..) | I::FCmp(_, d, ..) | I::Icmp(_, d, ..) | I::VIcmp(_, d, ..) | I::Cast(_, d, ..) => *d,
        I::Load(d, ..) | I::Gep(d, ..) | I::Select(d, ..) | I::ExtractValue(d, ..) | I::InsertValue(d, ..) | I::ExtractElem(d, ..) => *d,
        I::InsertElem(d, ..) | I::Shuffle(d, ..) | I::AtomicRmw(_, d, ..) | I::CmpXchg(d, ..) | I::Alloca(d, ..) | I::Freeze(d, ..) => *d,
        I::Call(d, _) if *d != u32::MAX => *d,
        _ => return None,
    })
}

fn rd_le(b: &[u8]) -> u64 {
    let mut a = [0u8; 8];
    a[..b.len()].copy_from_slice(b);
    u64::from_le_bytes(a)
}

/// Unsigned interval of an expression, from its syntax.
fn range(e: E, d: u32) -> (u128, u128) {
    let m = mask(width(e));
    if d == 0 {
        return (0, m);
    }
    match node(e) {
        N::Const(v) => (v, v),
        N::Concat(h, l) => {
            let (a, b) = range(h, d - 1);
            let wl = width(l);
            if a == b {
                let (x, y) = range(l, d - 1);
                ((a << wl) | x, (a << wl) | y)
            } else {
                (a << wl, (b << wl) | mask(wl))
            }
        }
        N::Ite(_, a, b) => {
            let (p, q) = range(a, d - 1);
            let (x, y) = range(b, d - 1);
            (p.min(x), q.max(y))
        }
        N::Bin(Op::Add, a, b) => {
            let (p, q) = range(a, d - 1);
            let (x, y) = range(b, d - 1);
            match (p.checked_add(x), q.checked_add(y)) {
                (Some(l), Some(h)) if h <= m => (l, h),
                _ => (0, m),
            }
        }
        N::Bin(Op::And, a, b) => {
            let (_, q) = range(a, d - 1);
            let (_, y) = range(b, d - 1);
            (0, q.min(y))
        }
        N::Bin(Op::URem, _, b) => match as_const(b) {
            Some(k) if k > 0 => (0, k - 1),
            _ => (0, m),
        },
        N::Bin(Op::UDiv, a, b) => match as_const(b) {
            Some(k) if k > 0 => {
                let (p, q) = range(a, d - 1);
                (p / k, q / k)
            }
            _ => (0, m),
        },
        N::Bin(Op::Mul, a, b) => {
            let (p, q) = range(a, d - 1);
            let (x, y) = range(b, d - 1);
            match q.checked_mul(y) {
                Some(h) if h <= m => (p * x, h),
                _ => (0, m),
            }
        }
        N::Extract(x, lo) => {
            let (p, q) = range(x, d - 1);
            let (p, q) = (p >> lo, q >> lo);
            if q <= m {
                (p, q)
            } else {
                (0, m)
            }
        }
        _ => (0, m),
    }
}

fn tz(e: E) -> u32 {
    match node(e) {
        N::Const(v) => {
            if v == 0 {
                width(e)
            } else {
                v.trailing_zeros()
            }
        }
        N::Concat(h, l) => {
            let t = tz(l);
            if t == width(l) {
                t + tz(h)
            } else {
                t
            }
        }
        N::Bin(Op::Add | Op::Sub, a, b) => tz(a).min(tz(b)),
        N::Bin(Op::Mul, a, b) => (tz(a) + tz(b)).min(width(e)),
        N::Ite(_, a, b) => tz(a).min(tz(b)),
        N::Extract(x, 0) => tz(x).min(width(e)),
        _ => 0,
    }
}

pub enum Addr {
    At(u64, u64),
    Leaves(Vec<(E, u64, u64)>), // guard, object, offset; last guard is "else"
    Many(u64, E, Vec<u64>),     // object, offset expression, candidate offsets
}

impl Engine {
    pub fn new(pr: Program, cfg: Config, qtimeout: u32) -> Engine {
        let n = pr.globals.len();
        let nf = pr.funcs.len();
        Engine {
            pr,
            solver: Solver::new(qtimeout),
            cfg,
            st: Stats::default(),
            ginit: vec![None; n + 1],
            ext_names: vec![],
            ext_map: HashMap::new(),
            ext_code: HashMap::new(),
            work: vec![],
            regions: vec![],
            symvars: HashMap::new(),
            used: vec![false; nf],
            start: Instant::now(),
            models: vec![], tracing: None,
        }
    }

    fn ext_fn<'a>(names: &'a mut Vec<Rc<str>>, map: &'a mut HashMap<String, u64>) -> impl FnMut(&str) -> u64 + 'a {
        move |n: &str| {
            if n == "__cxa_thread_atexit_impl" || n == "__pthread_get_minstack" || n == "gnu_get_libc_version" || n == "__gmon_start__" {
                return 0;
            }
            if let Some(&a) = map.get(n) {
                return a;
            }
            let a = (BUILTIN_OBJ << OBJ_SHIFT) | ((names.len() as u64 + 1) << 4);
            names.push(Rc::from(n));
            map.insert(n.to_string(), a);
            a
        }
    }

    fn func(&mut self, idx: usize) -> Option<Rc<Func>> {
        let mut ext = Self::ext_fn(&mut self.ext_names, &mut self.ext_map);
        let f = self.pr.compile(idx, &mut ext)?;
        if !self.used[idx] {
            self.used[idx] = true;
            self.st.funcs.insert(f.name.to_string());
        }
        Some(f)
    }

    fn global_init(&mut self, i: usize) -> Rc<Obj> {
        if let Some(o) = &self.ginit[i] {
            return o.clone();
        }
        let g = &self.pr.globals[i];
        let m = g.module;
        let text = self.pr.modules[m].text.clone();
        let (a, _) = g.init.unwrap();
        let constant = g.constant;
        let mut c = Cur::new(&text, a);
        let t = self.pr.ty(m, &mut c);
        let mut ext = Self::ext_fn(&mut self.ext_names, &mut self.ext_map);
        let v = self.pr.constant(m, &mut c, &t, &mut ext);
        let mut o = Obj::new(t.size() as usize);
        Self::put_val(&mut o, 0, &t, &v);
        o.ro = constant;
        let o = Rc::new(o);
        self.ginit[i] = Some(o.clone());
        o
    }

    fn put_val(o: &mut Obj, off: usize, t: &Ty, v: &Val) {
        match t {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                if let Ty::Vec(n, et) = t {
                    if let Ty::Int(w) = &**et {
                        if w % 8 != 0 {
                            // bit vector: pack
                            let mut acc: Option<E> = None;
                            for i in 0..*n as usize {
                                let b = v.el(i).e(*w);
                                acc = Some(match acc {
                                    None => b,
                                    Some(a) => concat(b, a),
                                });
                            }
                            let e = acc.unwrap();
                            let tot = (width(e) + 7) / 8 * 8;
                            let e = zext(e, tot);
                            for k in 0..tot / 8 {
                                o.set_byte(off + k as usize, extract(e, k * 8, 8));
                            }
                            return;
                        }
                    }
                }
                if let Val::C(0) = v {
                    return;
                }
                if let (Ty::Struct(..), Val::A(vs)) = (t, v) {
                    for (i, x) in vs.iter().enumerate() {
                        let (fo, ft) = t.field(i);
                        Self::put_val(o, off + fo as usize, &ft, x);
                    }
                } else if let Val::A(vs) = v {
                    if vs.is_empty() {
                        return;
                    }
                    let ft = t.field(0).1;
                    let sz = ft.size() as usize;
                    for (i, x) in vs.iter().enumerate() {
                        Self::put_val(o, off + i * sz, &ft, x);
                    }
                }
            }
            Ty::Void | Ty::Meta => {}
            _ => {
                let n = t.store_size() as usize;
                match v {
                    Val::C(x) => {
                        if n <= 8 {
                            o.put(off, &x.to_le_bytes()[..n]);
                        } else {
                            o.put(off, &(*x as u128).to_le_bytes()[..n]);
                        }
                    }
                    Val::W(x) => o.put(off, &x.to_le_bytes()[..n]),
                    Val::S(e) => {
                        let e = zext(*e, n as u32 * 8);
                        for k in 0..n {
                            o.set_byte(off + k, extract(e, k as u32 * 8, 8));
                        }
                    }
                    Val::A(_) => panic!("aggregate store to scalar"),
                }
            }
        }
    }

    fn get_val(o: &Obj, off: usize, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) if matches!(&**et, Ty::Int(w) if w % 8 != 0) => {
                let w = et.bits();
                let tot = t.store_size() as usize;
                let mut e = o.byte(off);
                for k in 1..tot {
                    e = concat(o.byte(off + k), e);
                }
                Val::A(Rc::new((0..*n).map(|i| Val::from_e(extract(e, i * w, w))).collect()))
            }
            Ty::Struct(..) => {
                let n = t.nfields();
                Val::A(Rc::new(
                    (0..n)
                        .map(|i| {
                            let (fo, ft) = t.field(i);
                            Self::get_val(o, off + fo as usize, &ft)
                        })
                        .collect(),
                ))
            }
            Ty::Vec(..) | Ty::Arr(..) => {
                let n = t.nfields();
                if n == 0 {
                    return Val::A(Rc::new(vec![]));
                }
                let ft = t.field(0).1;
                let sz = ft.size() as usize;
                Val::A(Rc::new((0..n).map(|i| Self::get_val(o, off + i * sz, &ft)).collect()))
            }
            Ty::Void | Ty::Meta => Val::C(0),
            _ => {
                let n = t.store_size() as usize;
                let w = t.bits();
                if !o.has_sym(off, n) {
                    if n <= 8 {
                        Val::C(rd_le(&o.data[off..off + n]) & lowmask(w))
                    } else {
                        let mut a = [0u8; 16];
                        a[..n].copy_from_slice(&o.data[off..off + n]);
                        Val::from_u128(u128::from_le_bytes(a), w)
                    }
                } else {
                    let mut e = o.byte(off);
                    for k in 1..n {
                        e = concat(o.byte(off + k), e);
                    }
                    Val::from_e(trunc(e, w))
                }
            }
        }
    }

    fn find(&mut self, st: &State, id: u64) -> Option<Rc<Obj>> {
        if id >= FN_OBJ {
            return None;
        }
        if id >= HEAP_OBJ {
            st.heap.get((id - HEAP_OBJ) as usize).cloned()
        } else if id >= STACK_OBJ {
            st.stack.get((id - STACK_OBJ) as usize).cloned()
        } else if id >= GLOBAL_BASE {
            let i = (id - GLOBAL_BASE) as usize;
            if let Some(o) = st.globals.get(i) {
                return Some(o.clone());
            }
            if i < self.pr.globals.len() {
                return Some(self.global_init(i));
            }
            None
        } else {
            None
        }
    }

    fn bad(&self, what: &str, id: u64, off: u64, n: u64, size: Option<usize>) -> End {
        let m = match size {
            None => {
                if id == 0 {
                    format!("{} of {} bytes through a null-based pointer (offset {})", what, n, off)
                } else {
                    format!("{} of {} bytes in object {:#x} that does not exist (freed or invalid)", what, n, id)
                }
            }
            Some(s) => format!("{} of {} bytes at offset {} of a {}-byte object", what, n, off as i32, s),
        };
        End::Violation("memory".into(), m)
    }

    fn rd_obj(&mut self, st: &State, id: u64, off: u64, n: u64, what: &str) -> R<Rc<Obj>> {
        match self.find(st, id) {
            None => Err(self.bad(what, id, off, n, None)),
            Some(o) => {
                if off + n > o.data.len() as u64 {
                    return Err(self.bad(what, id, off, n, Some(o.data.len())));
                }
                Ok(o)
            }
        }
    }

    fn wr_obj<'a>(&mut self, st: &'a mut State, id: u64, off: u64, n: u64, what: &str) -> R<&'a mut Obj> {
        let slot = if id >= FN_OBJ {
            return Err(self.bad(what, id, off, n, None));
        } else if id >= HEAP_OBJ {
            let i = (id - HEAP_OBJ) as usize;
            if st.heap.get(i).is_none() {
                return Err(self.bad(what, id, off, n, None));
            }
            st.heap.slot(i)
        } else if id >= STACK_OBJ {
            let i = (id - STACK_OBJ) as usize;
            if st.stack.get(i).is_none() {
                return Err(self.bad(what, id, off, n, None));
            }
            st.stack.slot(i)
        } else {
            let i = id.wrapping_sub(GLOBAL_BASE) as usize;
            if st.globals.get(i).is_none() {
                if i >= self.pr.globals.len() {
                    return Err(self.bad(what, id, off, n, None));
                }
                let o = self.global_init(i);
                if o.ro {
                    return Err(End::Violation("memory".into(), format!("{} to a constant", what)));
                }
                *st.globals.slot(i) = Some(o);
            }
            st.globals.slot(i)
        };
        let o = Rc::make_mut(slot.as_mut().unwrap());
        if off + n > o.data.len() as u64 {
            let l = o.data.len();
            return Err(self.bad(what, id, off, n, Some(l)));
        }
        Ok(o)
    }

    fn alloc(&mut self, st: &mut State, n: u64) -> u64 {
        let id = st.next_heap;
        st.next_heap += 1;
        *st.heap.slot(id as usize) = Some(Rc::new(Obj::new(n as usize)));
        st.live += n;
        (HEAP_OBJ + id) << OBJ_SHIFT
    }

    // ---- decisions ----

    fn sat(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        if let Some(v) = as_const(c) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        match self.solver.check(&st.pc, c) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut v = st.model.vals.clone();
                for (k, x) in m.iter() {
                    v.insert(*k, *x);
                }
                Ok(Some(Rc::new(Model::new(v))))
            }
            Res::Unknown => Err(End::Error("solver gave no answer within its limit".into())),
        }
    }

    fn implied(st: &State, c: E) -> Option<bool> {
        if let Some(v) = as_const(c) {
            return Some(v == 1);
        }
        let n = not(c);
        for &x in st.pc.iter().rev() {
            if x == c {
                return Some(true);
            }
            if x == n {
                return Some(false);
            }
        }
        None
    }

    fn fork_site(&mut self, st: &State) {
        if self.cfg.verbose {
            let s = st
                .frames
                .iter()
                .rev()
                .take(3)
                .map(|f| demangle(&f.f.name))
                .collect::<Vec<_>>()
                .join(" < ");
            *self.st.forksites.entry(s).or_insert(0) += 1;
        }
    }

    /// Decides a condition; the other feasible outcome becomes a new state that
    /// re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = Self::implied(st, c) {
            return Ok(b);
        }
        let v = st.model.eval(c) == 1;
        let (take, other) = if v { (c, not(c)) } else { (not(c), c) };
        if let Some(m) = self.sat(st, other)? {
            let mut o = st.clone();
            o.pc.push(other);
            o.model = m;
            o.depth += 1;
            self.st.forks += 1;
            self.st.maxdepth = self.st.maxdepth.max(o.depth);
            self.fork_site(st);
            for &r in &o.regions {
                self.regions[r as usize].pending += 1;
            }
            self.work.push(o);
            st.depth += 1;
            st.pc.push(take);
        }
        // an infeasible alternative means the outcome is implied: nothing to record
        Ok(v)
    }

    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => loop {
                let k = st.model.eval(*e);
                if self.decide(st, eq(*e, cst(k, w)))? {
                    return Ok(k as u64);
                }
            },
            Val::A(_) => Err(End::Error("aggregate where a scalar is expected".into())),
        }
    }

    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if as_const(c) != Some(1) {
            // the paths through an open region no longer cover it
            for &r in &st.regions {
                self.regions[r as usize].died = true;
            }
        }
        if let Some(v) = as_const(c) {
            return if v == 1 { Ok(()) } else { Err(End::Infeasible) };
        }
        if st.model.eval(c) != 1 {
            match self.sat(st, c)? {
                None => return Err(End::Infeasible),
                Some(m) => st.model = m,
            }
        }
        st.pc.push(c);
        Ok(())
    }

    fn leaves(e: E, g: E, out: &mut Vec<(E, u64)>) -> bool {
        if out.len() > 24 {
            return false;
        }
        match node(e) {
            N::Const(v) => {
                out.push((g, v as u64));
                true
            }
            N::Ite(c, a, b) => Self::leaves(a, and(g, c), out) && Self::leaves(b, and(g, not(c)), out),
            _ => false,
        }
    }

    fn addr(&mut self, st: &mut State, p: &Val, n: u64, limit: u64, what: &str) -> R<Addr> {
        let e = match p {
            Val::C(a) => return Ok(Addr::At(a >> OBJ_SHIFT, a & 0xffff_ffff)),
            Val::S(e) => *e,
            _ => return Err(End::Error("bad pointer value".into())),
        };
        let hi = extract(e, 32, 32);
        let id = match as_const(hi) {
            Some(v) => v as u64,
            None => {
                let mut lv = vec![];
                if Self::leaves(e, tru(), &mut lv) {
                    return Ok(Addr::Leaves(lv.into_iter().map(|(g, a)| (g, a >> 32, a & 0xffff_ffff)).collect()));
                }
                self.conc(st, &Val::S(hi), 32)?
            }
        };
        let lo = extract(e, 0, 32);
        if let Some(v) = as_const(lo) {
            return Ok(Addr::At(id, v as u64));
        }
        let size = match self.find(st, id) {
            None => return Err(self.bad(what, id, 0, n, None)),
            Some(o) => o.data.len() as u64,
        };
        let (mut a, mut b) = range(lo, 12);
        if b + n as u128 > size as u128 {
            let ok = if n > size { fls() } else { cmp(Cm::Ule, lo, cst((size - n) as u128, 32)) };
            if !self.decide(st, ok)? {
                let off = st.model.eval(lo) as u64;
                return Err(self.bad(what, id, off, n, Some(size as usize)));
            }
            b = b.min((size - n) as u128);
        }
        let t = tz(lo).min(12);
        let cnt = |a: u128, b: u128| ((b - a) >> t) as u64 + 1;
        if b >= a && cnt(a, b) > 64 {
            // tighten with the solver
            let cur = st.model.eval(lo);
            let (mut l, mut h) = (cur, b);
            while l < h {
                let mid = l + (h - l) / 2;
                if self.sat(st, cmp(Cm::Ult, cst(mid, 32), lo))?.is_some() {
                    l = mid + 1;
                } else {
                    h = mid;
                }
            }
            b = l;
            let (mut l, mut h) = (a, cur);
            while l < h {
                let mid = l + (h - l) / 2;
                if self.sat(st, cmp(Cm::Ule, lo, cst(mid, 32)))?.is_some() {
                    h = mid;
                } else {
                    l = mid + 1;
                }
            }
            a = l;
        }
        let step = 1u128 << t;
        let a2 = (a + step - 1) >> t << t;
        if b >= a2 && cnt(a2, b) <= limit {
            let mut v = vec![];
            let mut k = a2;
            while k <= b {
                v.push(k as u64);
                k += step;
            }
            if v.len() == 1 {
                return Ok(Addr::At(id, v[0]));
            }
            return Ok(Addr::Many(id, lo, v));
        }
        let k = self.conc(st, &Val::S(lo), 32)?;
        Ok(Addr::At(id, k))
    }

    fn load(&mut self, st: &mut State, t: &Ty, p: &Val) -> R<Val> {
        let n = t.store_size();
        if let Val::C(a) = p {
            let o = self.rd_obj(st, a >> OBJ_SHIFT, a & 0xffff_ffff, n, "read")?;
            return Ok(Self::get_val(&o, (a & 0xffff_ffff) as usize, t));
        }
        if n == 0 {
            return Ok(Val::zero(t));
        }
        match self.addr(st, p, n, 2048, "read")? {
            Addr::At(id, off) => {
                let o = self.rd_obj(st, id, off, n, "read")?;
                Ok(Self::get_val(&o, off as usize, t))
            }
            Addr::Leaves(lv) => {
                let mut acc: Option<Val> = None;
                let k = lv.len();
                // leaves whose guard is infeasible may be invalid pointers
                for (i, (g, id, off)) in lv.into_iter().enumerate().rev() {
                    let o = match self.find(st, id) {
                        Some(o) if off + n <= o.data.len() as u64 => o,
                        o => {
                            if self.decide(st, g)? {
                                return Err(self.bad("read", id, off, n, o.map(|x| x.data.len())));
                            }
                            continue;
                        }
                    };
                    let v = Self::get_val(&o, off as usize, t);
                    acc = Some(match acc {
                        None => v,
                        Some(a) => Self::vite(g, &v, &a, t),
                    });
                    let _ = (i, k);
                }
                acc.ok_or(End::Infeasible)
            }
            Addr::Many(id, lo, offs) => {
                let o = self.rd_obj(st, id, 0, 0, "read")?;
                let vals: Vec<(u64, Val)> = offs.iter().map(|&k| (k, Self::get_val(&o, k as usize, t))).collect();
                Ok(Self::tree(lo, &vals, t))
            }
        }
    }

    fn tree(lo: E, v: &[(u64, Val)], t: &Ty) -> Val {
        if v.len() == 1 {
            return v[0].1.clone();
        }
        let m = v.len() / 2;
        let a = Self::tree(lo, &v[..m], t);
        let b = Self::tree(lo, &v[m..], t);
        Self::vite(cmp(Cm::Ult, lo, cst(v[m].0 as u128, 32)), &a, &b, t)
    }

    fn vite(c: E, a: &Val, b: &Val, t: &Ty) -> Val {
        if let Some(v) = as_const(c) {
            return if v == 1 { a.clone() } else { b.clone() };
        }
        match t {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let n = t.nfields();
                Val::A(Rc::new((0..n).map(|i| Self::vite(c, &a.el(i), &b.el(i), &t.field(i).1)).collect()))
            }
            Ty::Void | Ty::Meta => a.clone(),
            _ => {
                if let (Val::C(x), Val::C(y)) = (a, b) {
                    if x == y {
                        return Val::C(*x);
                    }
                }
                let w = t.bits();
                Val::from_e(ite(c, a.e(w), b.e(w)))
            }
        }
    }

    fn store(&mut self, st: &mut State, t: &Ty, v: &Val, p: &Val) -> R<()> {
        let n = t.store_size();
        if let Val::C(a) = p {
            let off = a & 0xffff_ffff;
            if n == 0 {
                return Ok(());
            }
            let o = self.wr_obj(st, a >> OBJ_SHIFT, off, n, "write")?;
            Self::put_val(o, off as usize, t, v);
            return Ok(());
        }
        if n == 0 {
            return Ok(());
        }
        match self.addr(st, p, n, 128, "write")? {
            Addr::At(id, off) => {
                let o = self.wr_obj(st, id, off, n, "write")?;
                Self::put_val(o, off as usize, t, v);
            }
            Addr::Leaves(_) => {
                let e = p.e(64);
                let k = self.conc(st, &Val::S(e), 64)?;
                return self.store(st, t, v, &Val::C(k));
            }
            Addr::Many(id, lo, offs) => {
                let mut tmp = Obj::new(n as usize);
                Self::put_val(&mut tmp, 0, t, v);
                let o = self.wr_obj(st, id, 0, 0, "write")?;
                for k in offs {
                    let c = eq(lo, cst(k as u128, 32));
                    for i in 0..n as usize {
                        let old = o.byte(k as usize + i);
                        let new = ite(c, tmp.byte(i), old);
                        o.set_byte(k as usize + i, new);
                    }
                }
            }
        }
        Ok(())
    }

    // ---- running ----

    pub fn run(&mut self, entry: &str) {
        let idx = match self.pr.fmap.get(entry) {
            Some(&i) => i,
            None => {
                self.st.errors.push(format!("no function {}", entry));
                return;
            }
        };
        let f = self.func(idx).unwrap();
        let mut st = State {
            frames: vec![],
            globals: Table::default(),
            stack: Table::default(),
            heap: Table::default(),
            sp: 0,
            next_heap: 0,
            live: 0,
            pc: vec![],
            model: Rc::new(Model::new(HashMap::new())),
            names: Rc::new(BTreeMap::new()),
            inputs: vec![],
            notes: vec![],
            marks: Some(vec![]),
            hregs: [0; 16],
            regions: vec![],
            merge: false,
            steps: 0,
            depth: 0,
        };
        self.push_frame(&mut st, f, vec![], u32::MAX, None, None, Rc::new(vec![]));
        self.work.push(st);
        self.drain();
    }

    fn drain(&mut self) {
        while let Some(st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.cfg.max_seconds {
                self.st.errors.push(format!("time limit of {} s reached", self.cfg.max_seconds));
                return;
            }
            if self.st.paths > self.cfg.max_states {
                self.st.errors.push("path limit reached".into());
                return;
            }
            if crate::par::stopped() {
                self.st.errors.push("stopped: another worker ended the search".into());
                return;
            }
            self.work.push(st);
            self.split();
            let st = match self.work.pop() {
                Some(s) => s,
                None => return,
            };
            if self.one(st) {
                return;
            }
        }
    }

    /// Hand part of the pending work to a forked process (see main.rs).
    fn split(&mut self) {
        if self.cfg.jobs <= 1 || self.work.len() < 2 || !self.regions.is_empty() && self.work.iter().any(|s| !s.regions.is_empty()) {
            return;
        }
        let mut keep = vec![];
        if crate::par::try_fork(&mut |child| {
            let w = std::mem::take(&mut self.work);
            // older states (nearer the root) carry the bigger subtrees: alternate
            for (i, s) in w.into_iter().enumerate() {
                if (i % 2 == 0) == child {
                    keep.push(s);
                }
            }
            if child {
                let f = std::mem::take(&mut self.st.funcs);
                self.st = Stats::default();
                drop(f);
                for u in self.used.iter_mut() {
                    *u = false;
                }
                self.solver.reset_stats();
            }
        }) {
            self.work = keep;
        }
    }

    /// Runs one state to its end; true to stop everything.
    fn one(&mut self, mut st: State) -> bool {
        let end = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(e) => break e,
            }
        };
        self.st.steps += st.steps;
        let mut stop = false;
        let parked = matches!(end, End::Parked);
        match end {
            End::Parked => {
                let r = *st.regions.last().unwrap();
                st.steps = 0;
                self.regions[r as usize].arrivals.push(st);
                self.leave(r);
                return false;
            }
            End::Infeasible => self.st.infeasible += 1,
            End::Done => {
                self.st.paths += 1;
                let n = self.st.samples.len();
                if n < self.cfg.samples {
                    // spread over the run: keep the 1st, 2nd, 4th, 8th ... path of this worker
                    if self.st.paths.is_power_of_two() || self.st.paths % 97 == 0 {
                        let mut i = Self::inputs_of(&st);
                        if let Some(m) = &st.marks {
                            i.push(("=marks".into(), m.join("\n").into_bytes()));
                        }
                        self.st.samples.push(i);
                    }
                }
            }
            End::Stop => {
                self.st.paths += 1;
                stop = true;
            }
            End::Violation(k, m) => {
                self.st.paths += 1;
                stop = self.violation(&st, k, m);
            }
            End::Error(m) => {
                let t = self.trace(&st).join(" < ");
                self.st.errors.push(format!("{} [{}]", m, t));
                stop = true;
            }
        }
        if !parked {
            for i in (0..st.regions.len()).rev() {
                let r = st.regions[i];
                self.regions[r as usize].died = true;
            }
            let rs = st.regions.clone();
            drop(st);
            for r in rs.into_iter().rev() {
                self.leave(r);
            }
        }
        stop
    }

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| demangle(&f.f.name)).collect()
    }

    fn inputs_of(st: &State) -> Vec<(String, Vec<u8>)> {
        st.inputs
            .iter()
            .map(|(n, es)| (n.to_string(), es.iter().map(|&e| st.model.eval(e) as u8).collect()))
            .collect()
    }

    fn violation(&mut self, st: &State, kind: String, msg: String) -> bool {
        if self.st.viols.iter().any(|v| v.kind == kind && v.msg == msg) {
            return false;
        }
        let inputs = Self::inputs_of(st);
        self.st.viols.push(Viol {
            kind,
            msg,
            trace: self.trace(st),
            inputs,
            notes: st.notes.iter().map(|s| s.to_string()).collect(),
        });
        self.st.viols.len() >= self.cfg.max_viol
    }

    // ---- merging ----

    fn leave(&mut self, r: u32) {
        let rg = &mut self.regions[r as usize];
        rg.pending -= 1;
        if rg.pending > 0 {
            return;
        }
        let arr = std::mem::take(&mut rg.arrivals);
        let died = rg.died;
        let pc0 = rg.pc0;
        let join_depth = rg.depth;
        let mut out: Vec<(State, Vec<E>)> = vec![]; // state, disjuncts
        let n = arr.len();
        for mut s in arr {
            s.regions.pop();
            let suffix = s.pc[pc0..].iter().fold(tru(), |a, &b| and(a, b));
            let mut s = Some(s);
            for (o, ds) in out.iter_mut() {
                if let Some(m) = self.try_merge(o, s.as_ref().unwrap(), suffix, join_depth) {
                    *o = m;
                    ds.push(suffix);
                    s = None;
                    self.st.merges += 1;
                    break;
                }
            }
            if let Some(s) = s {
                out.push((s, vec![suffix]));
            }
        }
        let single = out.len() == 1 && !died;
        let _ = n;
        let k = out.len() as u32;
        for (mut s, ds) in out {
            if ds.len() > 1 {
                s.pc.truncate(pc0);
                if !single {
                    let d = ds.iter().fold(fls(), |a, &b| or(a, b));
                    if as_const(d) != Some(1) {
                        s.pc.push(d);
                    }
                }
            }
            self.work.push(s);
        }
        // outer regions: this region's states counted individually there
        let outer: Vec<u32> = match self.work.last() {
            Some(s) if k > 0 => s.regions.clone(),
            _ => vec![],
        };
        for r in outer {
            // n arrivals became k states
            self.regions[r as usize].pending -= n as u32 - k;
        }
        while let Some(l) = self.regions.last() {
            if l.pending == 0 && l.arrivals.is_empty() {
                self.regions.pop();
            } else {
                break;
            }
        }
    }

    fn try_merge(&mut self, a: &State, b: &State, cb: E, _depth: usize) -> Option<State> {
        // result: ite(cb, b, a)
        if a.frames.len() != b.frames.len() || a.next_heap != b.next_heap || a.sp != b.sp || a.hregs != b.hregs {
            return None;
        }
        if a.notes.len() != b.notes.len() || a.inputs.len() != b.inputs.len() || a.names != b.names {
            return None;
        }
        let mut frames = Vec::with_capacity(a.frames.len());
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if Rc::ptr_eq(x, y) {
                frames.push(x.clone());
                continue;
            }
            if !Rc::ptr_eq(&x.f, &y.f) || x.blk != y.blk || x.ip != y.ip {
                return None;
            }
            let mut f = (**x).clone();
            for i in 0..f.regs.len() {
                f.regs[i] = Self::mval(cb, &x.regs[i], &y.regs[i], &f.f.reg_ty[i])?;
            }
            frames.push(Rc::new(f));
        }
        let globals = self.mtable(cb, &a.globals, &b.globals, true)?;
        let stack = self.mtable(cb, &a.stack, &b.stack, false)?;
        let heap = self.mtable(cb, &a.heap, &b.heap, false)?;
        let mut s = a.clone();
        s.frames = frames;
        s.globals = globals;
        s.stack = stack;
        s.heap = heap;
        s.depth = a.depth.max(b.depth);
        if a.marks != b.marks {
            // one of several paths: what it passes depends on the inputs
            s.marks = None;
        }
        Some(s)
    }

    fn mval(c: E, a: &Val, b: &Val, t: &Ty) -> Option<Val> {
        match (a, b) {
            (Val::C(x), Val::C(y)) if x == y => return Some(a.clone()),
            (Val::S(x), Val::S(y)) if x == y => return Some(a.clone()),
            (Val::A(x), Val::A(y)) if Rc::ptr_eq(x, y) => return Some(a.clone()),
            _ => {}
        }
        match t {
            Ty::Void | Ty::Meta => Some(a.clone()),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => match (a, b) {
                (Val::A(x), Val::A(y)) if x.len() == y.len() => {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(Self::mval(c, &x[i], &y[i], &t.field(i).1)?);
                    }
                    Some(Val::A(Rc::new(v)))
                }
                _ => Some(a.clone()), // one side never defined it: dead
            },
            _ => match (a, b) {
                (Val::A(_), _) | (_, Val::A(_)) => Some(a.clone()),
                _ => {
                    let w = t.bits();
                    if let Val::S(e) = a {
                        if width(*e) != w {
                            return Some(b.clone());
                        }
                    }
                    if let Val::S(e) = b {
                        if width(*e) != w {
                            return Some(a.clone());
                        }
                    }
                    Some(Val::from_e(ite(c, b.e(w), a.e(w))))
                }
            },
        }
    }

    fn mtable(&mut self, c: E, a: &Table, b: &Table, globals: bool) -> Option<Table> {
        let n = a.pages.len().max(b.pages.len());
        let mut out = a.clone();
        for p in 0..n {
            let x = a.pages.get(p).and_then(|x| x.as_ref());
            let y = b.pages.get(p).and_then(|x| x.as_ref());
            match (x, y) {
                (None, None) => continue,
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => continue,
                _ => {}
            }
            for i in 0..PG {
                let u = x.and_then(|v| v[i].as_ref());
                let w = y.and_then(|v| v[i].as_ref());
                let id = p * PG + i;
                match (u, w) {
                    (None, None) => {}
                    (Some(u), Some(w)) if Rc::ptr_eq(u, w) => {}
                    (None, Some(w)) if globals => {
                        let g = self.global_init(id);
                        *out.slot(id) = Some(Self::mobj(c, &g, w)?);
                    }
                    (Some(u), None) if globals => {
                        let g = self.global_init(id);
                        *out.slot(id) = Some(Self::mobj(c, u, &g)?);
                    }
                    (Some(u), Some(w)) => {
                        *out.slot(id) = Some(Self::mobj(c, u, w)?);
                    }
                    _ => return None,
                }
            }
        }
        Some(out)
    }

    fn mobj(c: E, a: &Rc<Obj>, b: &Rc<Obj>) -> Option<Rc<Obj>> {
        if a.data.len() != b.data.len() {
            return None;
        }
        if a.data == b.data && a.sym == b.sym {
            return Some(a.clone());
        }
        let mut o = (**a).clone();
        for i in 0..o.data.len() {
            let (x, y) = (a.byte(i), b.byte(i));
            if x != y {
                o.set_byte(i, ite(c, y, x));
            }
        }
        Some(Rc::new(o))
    }

    // ---- frames ----

    fn push_frame(
        &mut self,
        st: &mut State,
        f: Rc<Func>,
        args: Vec<Val>,
        dst: u32,
        cont: Option<u32>,
        boundary: Option<Rc<Boundary>>,
        varargs: Rc<Vec<(Ty, Val)>>,
    ) {
        let mut regs = args;
        regs.truncate(f.nparams);
        regs.resize(f.nregs, Val::C(0));
        let sp0 = st.sp;
        st.frames.push(Rc::new(Frame { f, regs, blk: 0, ip: 0, dst, cont, sp0, varargs, boundary }));
    }

    fn pop_frame(&mut self, st: &mut State) -> Rc<Frame> {
        let fr = st.frames.pop().unwrap();
        while st.sp > fr.sp0 {
            st.sp -= 1;
            let i = st.sp as usize;
            *st.stack.slot(i) = None;
        }
        fr
    }

    fn finish_call(&mut self, st: &mut State, fr: &Frame, v: Val) -> R<()> {
        if let Some(b) = &fr.boundary {
            if let Some(g) = &b.globals {
                st.globals = g.clone();
            }
            st.merge = b.merge;
        }
        if st.frames.is_empty() {
            return Err(End::Done);
        }
        let dst = fr.dst;
        let top = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != u32::MAX {
            top.regs[dst as usize] = v;
        }
        top.ip += 1;
        match fr.cont {
            Some(t) => self.jump(st, t),
            None => Ok(()),
        }
    }

    /// Ends the innermost "process" with a code, or the path.
    pub fn end_process(&mut self, st: &mut State, code: i32, why: End) -> R<()> {
        if !st.frames.iter().any(|f| f.boundary.is_some()) {
            return Err(why);
        }
        loop {
            let fr = self.pop_frame(st);
            if fr.boundary.is_some() {
                return self.finish_call(st, &fr, Val::C(code as u32 as u64));
            }
        }
    }

    fn jump(&mut self, st: &mut State, t: u32) -> R<()> {
        let depth = st.frames.len();
        let top = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = top.blk;
        let f = top.f.clone();
        let b = &f.blocks[t as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|(p, _)| *p == from).expect("phi predecessor").1;
                let v = match o {
                    Opnd::R(r) => top.regs[*r as usize].clone(),
                    Opnd::C(c) => Val::C(*c),
                    Opnd::K(k) => (**k).clone(),
                };
                top.regs[*d as usize] = v;
            } else {
                let k = b.phis[0].1.iter().position(|(p, _)| *p == from).expect("phi predecessor");
                let vals: Vec<Val> = b
                    .phis
                    .iter()
                    .map(|(_, inc)| {
                        let o = if inc[k].0 == from { &inc[k].1 } else { &inc.iter().find(|(p, _)| *p == from).unwrap().1 };
                        match o {
                            Opnd::R(r) => top.regs[*r as usize].clone(),
                            Opnd::C(c) => Val::C(*c),
                            Opnd::K(k) => (**k).clone(),
                        }
                    })
                    .collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    top.regs[*d as usize] = v;
                }
            }
        }
        top.blk = t;
        top.ip = 0;
        if let Some(&r) = st.regions.last() {
            let rg = &self.regions[r as usize];
            if rg.depth == depth && rg.join == t {
                return Err(End::Parked);
            }
        }
        Ok(())
    }

    fn open_region(&mut self, st: &mut State) {
        if !st.merge {
            return;
        }
        let depth = st.frames.len();
        let top = st.frames.last().unwrap();
        let j = top.f.ipdom[top.blk as usize];
        if j == u32::MAX {
            return;
        }
        if let Some(&r) = st.regions.last() {
            let rg = &self.regions[r as usize];
            if rg.depth == depth && rg.join == j {
                return; // already merging there
            }
        }
        self.regions.push(Region { depth, join: j, arrivals: vec![], pending: 1, died: false, pc0: st.pc.len() });
        st.regions.push(self.regions.len() as u32 - 1);
    }

    fn close_region_unused(&mut self, st: &mut State) {
        let r = st.regions.pop().unwrap();
        assert_eq!(r as usize, self.regions.len() - 1);
        self.regions.pop();
    }

    /// Steps until something interesting happens; a batch of instructions per call.
    fn step(&mut self, st: &mut State) -> R<()> {
        for _ in 0..256 {
            st.steps += 1;
            let depth = st.frames.len();
            let top = Rc::make_mut(st.frames.last_mut().unwrap());
            let f: *const Func = &*top.f;
            // the function outlives the instruction: it is kept by the program
            let ins = unsafe { &(&(*f).blocks)[top.blk as usize].code[top.ip as usize] };
            if self.cfg.trace {
                let r = self.tracing.take();
                if let Some((d, dp)) = r {
                    if dp == depth {
                        eprintln!("      r{} = {:?}", d, top.regs[d as usize]);
                    }
                }
                eprintln!("{}:{}:{} {:?}", demangle(&top.f.name), top.blk, top.ip, ins);
                if let Some(d) = ins_dst(ins) {
                    self.tracing = Some((d, depth));
                }
            }
            macro_rules! op {
                ($o:expr) => {
                    match $o {
                        Opnd::R(r) => top.regs[*r as usize].clone(),
                        Opnd::C(c) => Val::C(*c),
                        Opnd::K(k) => (**k).clone(),
                    }
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    top.regs[*$d as usize] = v;
                    top.ip += 1;
                }};
            }
            match ins {
                I::Bin(o, d, w, a, b) => {
                    let (x, y) = (op!(a), op!(b));
                    set!(d, vbin(*o, *w, &x, &y));
                }
                I::Icmp(p, d, w, a, b) => {
                    let (x, y) = (op!(a), op!(b));
                    set!(d, vcmp(*p, *w, &x, &y));
                }
                I::Load(d, t, p) => {
                    let p = op!(p);
                    let v = self.load(st, t, &p)?;
                    let top = Rc::make_mut(st.frames.last_mut().unwrap());
                    top.regs[*d as usize] = v;
                    top.ip += 1;
                }
                I::Store(t, v, p) => {
                    let (v, p) = (op!(v), op!(p));
                    self.store(st, t, &v, &p)?;
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                }
                I::Gep(d, b, off, idx) => {
                    let base = op!(b);
                    let mut conc = match &base {
                        Val::C(x) => Some(x.wrapping_add(*off as u64)),
                        _ => None,
                    };
                    if let Some(mut x) = conc {
                        for (o, sz, w) in idx.iter() {
                            match o {
                                Opnd::R(r) => match &top.regs[*r as usize] {
                                    Val::C(v) => x = x.wrapping_add((sx(*v, *w) as u64).wrapping_mul(*sz)),
                                    _ => {
                                        conc = None;
                                        break;
                                    }
                                },
                                Opnd::C(v) => x = x.wrapping_add((sx(*v, *w) as u64).wrapping_mul(*sz)),
                                Opnd::K(_) => panic!("gep operand"),
                            }
                        }
                        if conc.is_some() {
                            conc = Some(x);
                        }
                    }
                    match conc {
                        Some(x) => set!(d, Val::C(x)),
                        None => {
                            if let Val::A(_) = base {
                                return Err(End::Error("vector gep".into()));
                            }
                            let mut e = base.e(64);
                            let mut k = *off as u64;
                            for (o, sz, w) in idx.iter() {
                                match op!(o) {
                                    Val::C(v) => k = k.wrapping_add((sx(v, *w) as u64).wrapping_mul(*sz)),
                                    v => {
                                        let i = sext(v.e(*w), 64);
                                        e = bin(Op::Add, e, bin(Op::Mul, i, cst(*sz as u128, 64)));
                                    }
                                }
                            }
                            e = bin(Op::Add, e, cst(k as u128, 64));
                            // keep the object part constant when the offset cannot carry
                            if let N::Bin(Op::Add, x, y) = node(e) {
                                if let Some(b) = as_const(y) {
                                    let (_, hi) = range(x, 12);
                                    if (b & 0xffff_ffff) + hi <= 0xffff_ffff {
                                        let lo = bin(Op::Add, extract(x, 0, 32), cst(b & 0xffff_ffff, 32));
                                        e = concat(cst(b >> 32, 32), lo);
                                    }
                                }
                            }
                            set!(d, Val::from_e(e));
                        }
                    }
                }
                I::Br(t) => {
                    let t = *t;
                    self.jump(st, t)?;
                }
                I::CondBr(c, t, fl) => {
                    let v = op!(c);
                    match v {
                        Val::C(x) => {
                            let t = if x & 1 == 1 { *t } else { *fl };
                            self.jump(st, t)?;
                        }
                        Val::S(e) => {
                            let b = match Self::implied(st, e) {
                                Some(b) => b,
                                None => {
                                    let nr = st.regions.len();
                                    let fk = self.st.forks;
                                    self.open_region(st);
                                    let opened = st.regions.len() > nr;
                                    let b = self.decide(st, e)?;
                                    if opened && self.st.forks == fk {
                                        self.close_region_unused(st);
                                    }
                                    b
                                }
                            };
                            self.jump(st, if b { *t } else { *fl })?;
                        }
                        _ => return Err(End::Error("branch on aggregate".into())),
                    }
                }
                I::Switch(v, w, cs, d) => {
                    let v = op!(v);
                    let t = match v {
                        Val::C(x) => cs.iter().find(|(k, _)| *k == x as u128).map(|x| x.1).unwrap_or(*d),
                        Val::W(x) => cs.iter().find(|(k, _)| *k == *x).map(|x| x.1).unwrap_or(*d),
                        Val::S(e) => {
                            let nr = st.regions.len();
                            let fk = self.st.forks;
                            self.open_region(st);
                            let opened = st.regions.len() > nr;
                            let mut tgt;
                            loop {
                                let x = st.model.eval(e);
                                tgt = cs.iter().find(|(k, _)| *k == x).map(|x| x.1).unwrap_or(*d);
                                let mut c = fls();
                                if tgt == *d {
                                    // not any of the cases that go elsewhere
                                    let mut n = fls();
                                    for (k, t) in cs.iter() {
                                        if *t != tgt {
                                            n = or(n, eq(e, cst(*k, *w)));
                                        }
                                    }
                                    c = not(n);
                                } else {
                                    for (k, t) in cs.iter() {
                                        if *t == tgt {
                                            c = or(c, eq(e, cst(*k, *w)));
                                        }
                                    }
                                }
                                if self.decide(st, c)? {
                                    break;
                                }
                            }
                            if opened && self.st.forks == fk {
                                self.close_region_unused(st);
                            }
                            tgt
                        }
                        _ => return Err(End::Error("switch on aggregate".into())),
                    };
                    self.jump(st, t)?;
                }
                I::Cast(c, d, ft, tt, x) => {
                    let x = op!(x);
                    match vcast(*c, ft, tt, &x) {
                        Ok(v) => set!(d, v),
                        Err(m) => return Err(End::Error(m)),
                    }
                }
                I::Select(d, t, c, a, b, vc) => {
                    let c = op!(c);
                    let (x, y) = (op!(a), op!(b));
                    if *vc {
                        let n = t.nfields();
                        let et = t.field(0).1;
                        let v = (0..n)
                            .map(|i| match c.el(i) {
                                Val::C(k) => {
                                    if k & 1 == 1 {
                                        x.el(i)
                                    } else {
                                        y.el(i)
                                    }
                                }
                                k => Self::vite(k.e(1), &x.el(i), &y.el(i), &et),
                            })
                            .collect();
                        set!(d, Val::A(Rc::new(v)));
                    } else {
                        match c {
                            Val::C(k) => set!(d, if k & 1 == 1 { x } else { y }),
                            k => set!(d, Self::vite(k.e(1), &x, &y, t)),
                        }
                    }
                }
                I::Ret(v) => {
                    let v = match v {
                        Some(o) => op!(o),
                        None => Val::C(0),
                    };
                    let fr = self.pop_frame(st);
                    self.finish_call(st, &fr, v)?;
                }
                I::Call(d, ci) => {
                    let d = *d;
                    let ci: *const CallI = &**ci;
                    self.call(st, d, unsafe { &*ci })?;
                }
                I::ExtractValue(d, x, ix) => {
                    let mut v = op!(x);
                    for &i in ix.iter() {
                        v = v.el(i as usize);
                    }
                    set!(d, v);
                }
                I::InsertValue(d, t, x, v, ix) => {
                    let x = op!(x);
                    let v = op!(v);
                    set!(d, insv(&x, t, v, ix));
                }
                I::ExtractElem(d, x, i) => {
                    let x = op!(x);
                    let i = op!(i);
                    let i = match i {
                        Val::C(i) => i,
                        _ => return Err(End::Error("symbolic vector index".into())),
                    };
                    set!(d, x.el(i as usize));
                }
                I::InsertElem(d, t, x, v, i) => {
                    let x = op!(x);
                    let v = op!(v);
                    let i = match op!(i) {
                        Val::C(i) => i as u32,
                        _ => return Err(End::Error("symbolic vector index".into())),
                    };
                    set!(d, insv(&x, t, v, &[i]));
                }
                I::Shuffle(d, n, et, x, y, m) => {
                    let x = op!(x);
                    let y = op!(y);
                    let v = m
                        .iter()
                        .map(|&k| {
                            if k < 0 {
                                Val::zero(et)
                            } else if (k as u32) < *n {
                                x.el(k as usize)
                            } else {
                                y.el(k as usize - *n as usize)
                            }
                        })
                        .collect();
                    set!(d, Val::A(Rc::new(v)));
                }
                I::VBin(o, d, n, w, a, b) => {
                    let (x, y) = (op!(a), op!(b));
                    let v = (0..*n as usize).map(|i| vbin(*o, *w, &x.el(i), &y.el(i))).collect();
                    set!(d, Val::A(Rc::new(v)));
                }
                I::VIcmp(p, d, n, w, a, b) => {
                    let (x, y) = (op!(a), op!(b));
                    let v = (0..*n as usize).map(|i| vcmp(*p, *w, &x.el(i), &y.el(i))).collect();
                    set!(d, Val::A(Rc::new(v)));
                }
                I::FBin(o, d, t, a, b) => {
                    let (x, y) = (op!(a), op!(b));
                    match fbin(*o, t, &x, &y) {
                        Some(v) => set!(d, v),
                        None => return Err(End::Error("symbolic floating point".into())),
                    }
                }
                I::FCmp(p, d, t, a, b) => {
                    let (x, y) = (op!(a), op!(b));
                    match (&x, &y) {
                        (Val::C(x), Val::C(y)) => {
                            let (x, y) = (fp(t, *x), fp(t, *y));
                            let un = x.is_nan() || y.is_nan();
                            let r = match &**p {
                                "oeq" => x == y,
                                "ogt" => x > y,
                                "oge" => x >= y,
                                "olt" => x < y,
                                "ole" => x <= y,
                                "one" => !un && x != y,
                                "ord" => !un,
                                "ueq" => un || x == y,
                                "ugt" => un || x > y,
                                "uge" => un || x >= y,
                                "ult" => un || x < y,
                                "ule" => un || x <= y,
                                "une" => un || x != y,
                                "uno" => un,
                                "true" => true,
                                _ => false,
                            };
                            set!(d, Val::C(r as u64));
                        }
                        _ => return Err(End::Error("symbolic floating point".into())),
                    }
                }
                I::AtomicRmw(o, d, t, p, v) => {
                    let (p, v) = (op!(p), op!(v));
                    let old = self.load(st, t, &p)?;
                    let w = t.bits();
                    let new = match o {
                        Rmw::Xchg => v,
                        Rmw::Add => vbin(BinOp::Add, w, &old, &v),
                        Rmw::Sub => vbin(BinOp::Sub, w, &old, &v),
                        Rmw::And => vbin(BinOp::And, w, &old, &v),
                        Rmw::Or => vbin(BinOp::Or, w, &old, &v),
                        Rmw::Xor => vbin(BinOp::Xor, w, &old, &v),
                        Rmw::Nand => Val::from_e(not(and(old.e(w), v.e(w)))),
                        Rmw::Max => minmax(Cm::Slt, true, w, &old, &v),
                        Rmw::Min => minmax(Cm::Slt, false, w, &old, &v),
                        Rmw::UMax => minmax(Cm::Ult, true, w, &old, &v),
                        Rmw::UMin => minmax(Cm::Ult, false, w, &old, &v),
                    };
                    self.store(st, t, &new, &p)?;
                    let top = Rc::make_mut(st.frames.last_mut().unwrap());
                    if *d != u32::MAX {
                        top.regs[*d as usize] = old;
                    }
                    top.ip += 1;
                }
                I::CmpXchg(d, t, p, x, y) => {
                    let (p, x, y) = (op!(p), op!(x), op!(y));
                    let old = self.load(st, t, &p)?;
                    let w = t.bits();
                    let ok = vcmp(Pred::Eq, w, &old, &x);
                    let ok = match &ok {
                        Val::C(k) => *k == 1,
                        k => self.decide(st, k.e(1))?,
                    };
                    if ok {
                        self.store(st, t, &y, &p)?;
                    }
                    let top = Rc::make_mut(st.frames.last_mut().unwrap());
                    if *d != u32::MAX {
                        top.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::C(ok as u64)]));
                    }
                    top.ip += 1;
                }
                I::Alloca(d, sz, n, _al) => {
                    let n = op!(n);
                    let d = *d;
                    let n = match n {
                        Val::C(n) => n,
                        n => self.conc(st, &n, 64)?,
                    };
                    let id = st.sp;
                    st.sp += 1;
                    *st.stack.slot(id as usize) = Some(Rc::new(Obj::new((sz * n) as usize)));
                    let top = Rc::make_mut(st.frames.last_mut().unwrap());
                    top.regs[d as usize] = Val::C((STACK_OBJ + id) << OBJ_SHIFT);
                    top.ip += 1;
                }
                I::Freeze(d, x) => {
                    let x = op!(x);
                    set!(d, x);
                }
                I::Nop => top.ip += 1,
                I::Unreachable => return Err(End::Violation("unreachable".into(), "reached code marked unreachable".into())),
                I::LandingPad => return Err(End::Error("landing pad reached".into())),
            }
        }
        if st.steps > self.cfg.max_steps {
            return Err(End::Error(format!("more than {} steps on one path", self.cfg.max_steps)));
        }
        if self.start.elapsed().as_secs_f64() > self.cfg.max_seconds {
            return Err(End::Error(format!("time limit of {} s reached", self.cfg.max_seconds)));
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, dst: u32, ci: &CallI) -> R<()> {
        let top = st.frames.last().unwrap();
        let get = |o: &Opnd| match o {
            Opnd::R(r) => top.regs[*r as usize].clone(),
            Opnd::C(c) => Val::C(*c),
            Opnd::K(k) => (**k).clone(),
        };
        let mut args: Vec<Val> = ci.args.iter().map(|(_, o)| get(o)).collect();
        let mut bname: Option<Rc<str>> = None;
        let mut fidx = None;
        match &ci.callee {
            Callee::Func(i) => fidx = Some(*i),
            Callee::Builtin(n) => bname = Some(n.clone()),
            Callee::Intrin(n) => {
                let n = n.clone();
                let v = self.intrinsic(st, &n, ci, &args)?;
                return self.ret(st, dst, v, ci.cont);
            }
            Callee::Asm(_) => {
                let v = Val::zero(&ci.ret);
                return self.ret(st, dst, v, ci.cont);
            }
            Callee::Ptr(o) => {
                let p = get(o);
                let p = match p {
                    Val::C(p) => p,
                    p => self.conc(st, &p, 64)?,
                };
                let id = p >> OBJ_SHIFT;
                if id == FN_OBJ {
                    let i = ((p & 0xffff_ffff) >> 4) as usize;
                    match forced_builtin(&self.pr.funcs[i].name) {
                        Some(b) => bname = Some(Rc::from(b)),
                        None => fidx = Some(i),
                    }
                } else if id == BUILTIN_OBJ {
                    let i = ((p & 0xffff_ffff) >> 4) as usize - 1;
                    let n = self.ext_names[i].clone();
                    match self.pr.fmap.get(&n) {
                        Some(&k) => fidx = Some(k),
                        None => bname = Some(n),
                    }
                } else {
                    return Err(End::Violation("memory".into(), format!("call through an invalid function pointer {:#x}", p)));
                }
            }
        }
        if let Some(i) = fidx {
            let f = match self.func(i) {
                Some(f) => f,
                None => return Err(End::Error(format!("no body for {}", self.pr.funcs[i].name))),
            };
            if st.frames.len() > 2000 {
                return Err(End::Violation("stack".into(), "call depth above 2000".into()));
            }
            // by-value aggregates are copied
            for (k, &n) in f.byval.iter().enumerate() {
                if n > 0 && k < args.len() {
                    let src = args[k].clone();
                    let id = st.sp;
                    st.sp += 1;
                    *st.stack.slot(id as usize) = Some(Rc::new(Obj::new(n as usize)));
                    let d = (STACK_OBJ + id) << OBJ_SHIFT;
                    self.copy(st, d, &src, n)?;
                    args[k] = Val::C(d);
                }
            }
            let va = if f.vararg {
                Rc::new(ci.args[f.nparams..].iter().map(|x| x.0.clone()).zip(args[f.nparams..].iter().cloned()).collect())
            } else {
                Rc::new(vec![])
            };
            self.push_frame(st, f, args, dst, ci.cont, None, va);
            return Ok(());
        }
        let n = bname.unwrap();
        self.builtin(st, dst, ci, &n, args)
    }

    pub fn ret(&mut self, st: &mut State, dst: u32, v: Val, cont: Option<u32>) -> R<()> {
        let top = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != u32::MAX {
            top.regs[dst as usize] = v;
        }
        top.ip += 1;
        match cont {
            Some(t) => self.jump(st, t),
            None => Ok(()),
        }
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let s = match src {
            Val::C(s) => *s,
            s => self.conc(st, s, 64)?,
        };
        let so = self.rd_obj(st, s >> OBJ_SHIFT, s & 0xffff_ffff, n, "read")?;
        let a = (s & 0xffff_ffff) as usize;
        let off = (dst & 0xffff_ffff) as usize;
        let sym = so.has_sym(a, n as usize);
        let d = self.wr_obj(st, dst >> OBJ_SHIFT, dst & 0xffff_ffff, n, "write")?;
        // `so` keeps the old contents alive, so overlapping copies are fine
        d.data[off..off + n as usize].copy_from_slice(&so.data[a..a + n as usize]);
        if sym {
            let len = d.data.len();
            let ds = d.sym.get_or_insert_with(|| vec![E(0); len]);
            ds[off..off + n as usize].copy_from_slice(&so.sym.as_ref().unwrap()[a..a + n as usize]);
        } else if let Some(ds) = &mut d.sym {
            for x in &mut ds[off..off + n as usize] {
                *x = E(0);
            }
        }
        Ok(())
    }

    fn fill(&mut self, st: &mut State, dst: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let off = (dst & 0xffff_ffff) as usize;
        let d = self.wr_obj(st, dst >> OBJ_SHIFT, dst & 0xffff_ffff, n, "write")?;
        match v {
            Val::C(b) => {
                for x in &mut d.data[off..off + n as usize] {
                    *x = *b as u8;
                }
                if let Some(ds) = &mut d.sym {
                    for x in &mut ds[off..off + n as usize] {
                        *x = E(0);
                    }
                }
            }
            v => {
                let e = trunc(
                    match v {
                        Val::S(e) => *e,
                        _ => return Err(End::Error("memset value".into())),
                    },
                    8,
                );
                for i in 0..n as usize {
                    d.set_byte(off + i, e);
                }
            }
        }
        Ok(())
    }

    fn ptr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        self.conc(st, v, 64)
    }

    fn str_at(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        if n == 0 {
            return Ok(String::new());
        }
        let o = self.rd_obj(st, p >> OBJ_SHIFT, p & 0xffff_ffff, n, "read")?;
        let a = (p & 0xffff_ffff) as usize;
        Ok(String::from_utf8_lossy(&o.data[a..a + n as usize]).into_owned())
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, ci: &CallI, a: &[Val]) -> R<Val> {
        let base = n.split('.').next().unwrap();
        let w = |i: usize| match &ci.args[i].0 {
            t if t.is_scalar() => t.bits(),
            Ty::Vec(_, t) => t.bits(),
            _ => 0,
        };
        // lane-wise
        macro_rules! lanes {
            ($f:expr) => {{
                match &ci.args[0].0 {
                    Ty::Vec(k, _) => {
                        let k = *k as usize;
                        let mut v = vec![];
                        for i in 0..k {
                            let xs: Vec<Val> = a.iter().zip(ci.args.iter()).map(|(x, (t, _))| if matches!(t, Ty::Vec(..)) { x.el(i) } else { x.clone() }).collect();
                            v.push($f(&xs[..]));
                        }
                        Ok(Val::A(Rc::new(v)))
                    }
                    _ => Ok($f(a)),
                }
            }};
        }
        match base {
            "memcpy" | "memmove" => {
                let len = self.conc(st, &a[2], w(2))?;
                let d = self.ptr(st, &a[0])?;
                self.copy(st, d, &a[1], len)?;
                Ok(Val::C(0))
            }
            "memset" => {
                let len = self.conc(st, &a[2], w(2))?;
                let d = self.ptr(st, &a[0])?;
                self.fill(st, d, &a[1], len)?;
                Ok(Val::C(0))
            }
            "umin" | "umax" | "smin" | "smax" => {
                let c = if base.starts_with('u') { Cm::Ult } else { Cm::Slt };
                let mx = base.ends_with("max");
                let wd = w(0);
                lanes!(|x: &[Val]| minmax(c, mx, wd, &x[0], &x[1]))
            }
            "abs" => {
                let wd = w(0);
                lanes!(|x: &[Val]| {
                    let e = x[0].e(wd);
                    Val::from_e(ite(cmp(Cm::Slt, e, cst(0, wd)), bin(Op::Sub, cst(0, wd), e), e))
                })
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                let wd = w(0);
                lanes!(|x: &[Val]| bitop(base, wd, &x[0]))
            }
            "fshl" | "fshr" => {
                let wd = w(0);
                let left = base == "fshl";
                lanes!(|x: &[Val]| funnel(left, wd, &x[0], &x[1], &x[2]))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" | "ushl" | "sshl" => {
                let wd = w(0);
                if n.contains(".with.overflow") {
                    Ok(with_overflow(base, wd, &a[0], &a[1]))
                } else {
                    lanes!(|x: &[Val]| saturating(base, wd, &x[0], &x[1]))
                }
            }
            "scmp" | "ucmp" => {
                let wd = w(0);
                let rw = match &ci.ret {
                    Ty::Vec(_, t) => t.bits(),
                    t => t.bits(),
                };
                let c = if base == "ucmp" { Cm::Ult } else { Cm::Slt };
                lanes!(|x: &[Val]| {
                    let (p, q) = (x[0].e(wd), x[1].e(wd));
                    Val::from_e(ite(cmp(c, p, q), cst(u128::MAX, rw), ite(eq(p, q), cst(0, rw), cst(1, rw))))
                })
            }
            "threadlocal" => Ok(a[0].clone()),
            "launder" | "strip" => Ok(a[0].clone()),
            "expect" => Ok(a[0].clone()),
            "is" => Ok(Val::C(0)), // is.constant
            "objectsize" => Ok(Val::C(u64::MAX)),
            "trap" | "ubsantrap" => Err(End::Violation("abort".into(), "trap".into())),
            "x86" | "stacksave" | "stackrestore" | "va_end" | "sideeffect" | "pseudoprobe" => Ok(Val::zero(&ci.ret)),
            "fabs" | "floor" | "ceil" | "trunc" | "sqrt" | "rint" | "round" => match (&a[0], &ci.ret) {
                (Val::C(x), t) if t.is_scalar() => {
                    let v = fp(t, *x);
                    let r = match base {
                        "fabs" => v.abs(),
                        "floor" => v.floor(),
                        "ceil" => v.ceil(),
                        "trunc" => v.trunc(),
                        "sqrt" => v.sqrt(),
                        _ => v.round(),
                    };
                    Ok(unfp(t, r))
                }
                _ => Err(End::Error(format!("intrinsic {}", n))),
            },
            "fmuladd" | "fma" => match (&a[0], &a[1], &a[2], &ci.ret) {
                (Val::C(x), Val::C(y), Val::C(z), t) if t.is_scalar() => {
                    let r = if base == "fma" { fp(t, *x).mul_add(fp(t, *y), fp(t, *z)) } else { fp(t, *x) * fp(t, *y) + fp(t, *z) };
                    Ok(unfp(t, r))
                }
                _ => Err(End::Error(format!("intrinsic {}", n))),
            },
            "fptosi" | "fptoui" => match (&a[0], &ci.ret) {
                (Val::C(x), Ty::Int(wd)) => {
                    let v = fp(&ci.args[0].0, *x);
                    let r = if base == "fptoui" {
                        if *wd == 64 { v as u64 } else { (v as u64).min(lowmask(*wd)) }
                    } else {
                        let lim = 1i128 << (wd - 1);
                        let k = (v as i128).clamp(-lim, lim - 1);
                        k as u64 & lowmask(*wd)
                    };
                    Ok(Val::C(r))
                }
                _ => Err(End::Error(format!("intrinsic {}", n))),
            },
            "vector" => {
                // vector.reduce.<op>
                let op = n.split('.').nth(2).unwrap_or("");
                let (k, et) = match &ci.args[0].0 {
                    Ty::Vec(k, t) => (*k as usize, t.bits()),
                    _ => return Err(End::Error(format!("intrinsic {}", n))),
                };
                let mut acc = a[0].el(0);
                for i in 1..k {
                    let x = a[0].el(i);
                    acc = match op {
                        "or" => vbin(BinOp::Or, et, &acc, &x),
                        "and" => vbin(BinOp::And, et, &acc, &x),
                        "xor" => vbin(BinOp::Xor, et, &acc, &x),
                        "add" => vbin(BinOp::Add, et, &acc, &x),
                        "mul" => vbin(BinOp::Mul, et, &acc, &x),
                        "umax" => minmax(Cm::Ult, true, et, &acc, &x),
                        "umin" => minmax(Cm::Ult, false, et, &acc, &x),
                        "smax" => minmax(Cm::Slt, true, et, &acc, &x),
                        "smin" => minmax(Cm::Slt, false, et, &acc, &x),
                        _ => return Err(End::Error(format!("intrinsic {}", n))),
                    };
                }
                Ok(acc)
            }
            "va_start" => {
                // SysV: everything comes from the overflow area
                let va = st.frames.last().unwrap().varargs.clone();
                let p = self.alloc(st, va.len() as u64 * 8 + 8);
                for (i, (t, v)) in va.iter().enumerate() {
                    let pv = Val::C(p + i as u64 * 8);
                    let t = match t {
                        Ty::Int(x) if *x < 32 => Ty::Int(*x),
                        t => t.clone(),
                    };
                    self.store(st, &t, v, &pv)?;
                }
                let l = self.ptr(st, &a[0])?;
                self.store(st, &Ty::Int(32), &Val::C(48), &Val::C(l))?;
                self.store(st, &Ty::Int(32), &Val::C(176), &Val::C(l + 4))?;
                self.store(st, &Ty::Ptr, &Val::C(p), &Val::C(l + 8))?;
                Ok(Val::C(0))
            }
            "va_copy" => {
                let d = self.ptr(st, &a[0])?;
                self.copy(st, d, &a[1], 24)?;
                Ok(Val::C(0))
            }
            _ => Err(End::Error(format!("unknown intrinsic llvm.{}", n))),
        }
    }

    fn sym_bytes(&mut self, name: &str, k: u32, n: usize) -> Vec<E> {
        let full = if k == 0 { name.to_string() } else { format!("{}#{}", name, k) };
        (0..n)
            .map(|i| {
                *self
                    .symvars
                    .entry((full.clone(), i))
                    .or_insert_with(|| new_var(&format!("{}[{}]", full, i), 8))
            })
            .collect()
    }

    fn builtin(&mut self, st: &mut State, dst: u32, ci: &CallI, n: &str, a: Vec<Val>) -> R<()> {
        let ok = |s: &mut Self, st: &mut State, v: u64| s.ret(st, dst, Val::C(v), ci.cont);
        match n {
            "rust_panic_fmt" | "rust_begin_panic" => {
                // the location is the last pointer argument
                let mut loc = String::from("?");
                for v in a.iter().rev() {
                    if let Val::C(p) = v {
                        if let Some(o) = self.find(st, p >> OBJ_SHIFT) {
                            let off = (*p & 0xffff_ffff) as usize;
                            if off + 24 <= o.data.len() && o.sym.is_none() {
                                let fp = rd_le(&o.data[off..off + 8]);
                                let fl = rd_le(&o.data[off + 8..off + 16]);
                                let line = rd_le(&o.data[off + 16..off + 20]);
                                if fl < 400 {
                                    if let Ok(s) = self.str_at(st, fp, fl) {
                                        loc = format!("{}:{}", s.trim_end_matches('\0'), line);
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                if self.cfg.verbose {
                    let all: Vec<String> = st.frames.iter().rev().take(14).map(|f| demangle(&f.f.name)).collect();
                    eprintln!("panic at {}: {}", loc, all.join(" < "));
                }
                let who: Vec<String> = st.frames.iter().rev().map(|f| demangle(&f.f.name)).filter(|s| s.contains("snapcd") || s.contains("harness")).take(2).collect();
                let m = format!("panic at {} in {}", loc, who.join(" < "));
                st.notes.push(Rc::from(m.as_str()));
                self.end_process(st, 101, End::Violation("panic".into(), m))
            }
            "rust_panic_nounwind" | "abort" => {
                let m = format!("abort ({})", n);
                st.notes.push(Rc::from(m.as_str()));
                self.end_process(st, 134, End::Violation("abort".into(), m))
            }
            "sym_exit" => {
                let c = self.conc(st, &a[0], 32)? as i32;
                self.end_process(st, c, End::Done)
            }
            "sym_end" => Err(End::Done),
            "sym_new" => {
                // name, len, dst, bytes
                let (p, l, d, k) = (self.ptr(st, &a[0])?, self.conc(st, &a[1], 64)?, self.ptr(st, &a[2])?, self.conc(st, &a[3], 64)?);
                let name = self.str_at(st, p, l)?;
                let names = Rc::make_mut(&mut st.names);
                let c = names.entry(name.clone()).or_insert(0);
                let occ = *c;
                *c += 1;
                let es = self.sym_bytes(&name, occ, k as usize);
                let off = (d & 0xffff_ffff) as usize;
                if k > 0 {
                    let o = self.wr_obj(st, d >> OBJ_SHIFT, d & 0xffff_ffff, k, "write")?;
                    for (i, e) in es.iter().enumerate() {
                        o.set_byte(off + i, *e);
                    }
                }
                st.inputs.push((Rc::from(name), Rc::new(es)));
                ok(self, st, 0)
            }
            "sym_choice" => {
                // name, len, n -> concrete value below n
                let (p, l, k) = (self.ptr(st, &a[0])?, self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 32)?);
                let name = self.str_at(st, p, l)?;
                let occ = st.names.get(&name).copied().unwrap_or(0);
                let es = self.sym_bytes(&name, occ, 1);
                let lim = cmp(Cm::Ult, es[0], cst(k as u128, 8));
                if k > 255 || k == 0 {
                    return Err(End::Error("sym_choice range".into()));
                }
                if Self::implied(st, lim).is_none() {
                    self.assume(st, lim)?;
                }
                let v = self.conc(st, &Val::S(es[0]), 8)?;
                *Rc::make_mut(&mut st.names).entry(name.clone()).or_insert(0) += 1;
                st.inputs.push((Rc::from(name), Rc::new(es)));
                ok(self, st, v)
            }
            "sym_param" => {
                let (p, l) = (self.ptr(st, &a[0])?, self.conc(st, &a[1], 64)?);
                let name = self.str_at(st, p, l)?;
                let d = self.conc(st, &a[2], 64)?;
                let v = self.cfg.params.get(&name).copied().unwrap_or(d);
                ok(self, st, v)
            }
            "sym_concretize" => {
                let v = self.conc(st, &a[0], 64)?;
                ok(self, st, v)
            }
            "sym_value_hint" => {
                // the value under the current model (no constraint): for diagnostics only
                let v = match &a[0] {
                    Val::C(x) => *x,
                    Val::S(e) => st.model.eval(*e) as u64,
                    _ => 0,
                };
                ok(self, st, v)
            }
            "sym_is_const" => {
                // is every byte of [p, p+n) concrete
                let (p, k) = (self.ptr(st, &a[0])?, self.conc(st, &a[1], 64)?);
                if k == 0 {
                    return ok(self, st, 1);
                }
                let o = self.rd_obj(st, p >> OBJ_SHIFT, p & 0xffff_ffff, k, "read")?;
                let r = !o.has_sym((p & 0xffff_ffff) as usize, k as usize);
                ok(self, st, r as u64)
            }
            "sym_assume" => {
                let c = match &a[0] {
                    Val::C(x) => cst((*x & 1) as u128, 1),
                    v => {
                        let w = ci.args[0].0.bits();
                        trunc(v.e(w), 1)
                    }
                };
                self.assume(st, c)?;
                ok(self, st, 0)
            }
            "sym_assert" => {
                let (p, l) = (self.ptr(st, &a[1])?, self.conc(st, &a[2], 64)?);
                let msg = self.str_at(st, p, l)?;
                self.st.asserts += 1;
                let c = match &a[0] {
                    Val::C(x) => cst((*x & 1) as u128, 1),
                    v => {
                        let w = ci.args[0].0.bits();
                        trunc(v.e(w), 1)
                    }
                };
                if let Some(m) = self.sat(st, not(c))? {
                    let mut s2 = st.clone();
                    s2.pc.push(not(c));
                    s2.model = m;
                    if self.violation(&s2, "assert".into(), msg) {
                        return Err(End::Stop);
                    }
                    self.assume(st, c)?;
                }
                ok(self, st, 0)
            }
            "sym_cover" => {
                let (p, l) = (self.ptr(st, &a[0])?, self.conc(st, &a[1], 64)?);
                let msg = self.str_at(st, p, l)?;
                if let Some(m) = &mut st.marks {
                    m.push(Rc::from(msg.as_str()));
                }
                *self.st.covers.entry(msg).or_insert(0) += 1;
                ok(self, st, 0)
            }
            "sym_note" => {
                let (p, l) = (self.ptr(st, &a[0])?, self.conc(st, &a[1], 64)?);
                let msg = self.str_at(st, p, l)?;
                if self.cfg.verbose {
                    eprintln!("note: {}", msg);
                }
                st.notes.push(Rc::from(msg));
                ok(self, st, 0)
            }
            "sym_merge" => {
                let old = st.merge as u64;
                st.merge = self.conc(st, &a[0], 32)? != 0;
                ok(self, st, old)
            }
            "sym_reg_get" => {
                let i = self.conc(st, &a[0], 32)?;
                let v = st.hregs[i as usize];
                ok(self, st, v)
            }
            "sym_reg_set" => {
                let i = self.conc(st, &a[0], 32)?;
                let v = self.conc(st, &a[1], 64)?;
                st.hregs[i as usize] = v;
                ok(self, st, 0)
            }
            "sym_run" => {
                // fn(data) -> i32, data, reset globals
                let f = self.ptr(st, &a[0])?;
                let reset = self.conc(st, &a[2], 32)? != 0;
                if f >> OBJ_SHIFT != FN_OBJ {
                    return Err(End::Error("sym_run target".into()));
                }
                let f = self.func(((f & 0xffff_ffff) >> 4) as usize).unwrap();
                let b = Boundary { globals: if reset { Some(st.globals.clone()) } else { None }, dst, merge: st.merge };
                let _ = b.dst;
                if reset {
                    st.globals = Table::default();
                }
                self.push_frame(st, f, vec![a[1].clone()], dst, ci.cont, Some(Rc::new(b)), Rc::new(vec![]));
                Ok(())
            }
            "sym_args" => {
                // argc, argv into std's storage
                let (argc, argv) = (self.conc(st, &a[0], 64)?, self.ptr(st, &a[1])?);
                let t: Option<usize> = self.pr.funcs.iter().position(|f| f.name.contains("4args") && f.name.contains("really_init") && f.range.is_some());
                let t = match t {
                    Some(t) => t,
                    None => {
                        // it may be inlined into the init_array function
                        match self.pr.funcs.iter().position(|f| f.name.contains("ARGV_INIT_ARRAY") && f.name.contains("init_wrapper")) {
                            Some(t) => t,
                            None => return Err(End::Error("std argument initialiser not found".into())),
                        }
                    }
                };
                let f = self.func(t).unwrap();
                self.push_frame(st, f, vec![Val::C(argc), Val::C(argv), Val::C(0)], u32::MAX, ci.cont, None, Rc::new(vec![]));
                Ok(())
            }
            "std_detect_zero" => {
                let v = Val::zero(&ci.ret);
                self.ret(st, dst, v, ci.cont)
            }
            "malloc" | "rust_alloc_raw" => {
                let k = self.conc(st, &a[0], 64)?;
                if k > 1 << 30 {
                    return ok(self, st, 0);
                }
                let p = self.alloc(st, k);
                ok(self, st, p)
            }
            "calloc" => {
                let k = self.conc(st, &a[0], 64)?.saturating_mul(self.conc(st, &a[1], 64)?);
                if k > 1 << 30 {
                    return ok(self, st, 0);
                }
                let p = self.alloc(st, k);
                ok(self, st, p)
            }
            "posix_memalign" => {
                let k = self.conc(st, &a[2], 64)?;
                let d = self.ptr(st, &a[0])?;
                let p = self.alloc(st, k);
                self.store(st, &Ty::Ptr, &Val::C(p), &Val::C(d))?;
                ok(self, st, 0)
            }
            "rust_calloc" => {
                let k = self.conc(st, &a[0], 64)?;
                if k > 1 << 30 {
                    return ok(self, st, 0);
                }
                let p = self.alloc(st, k);
                ok(self, st, p)
            }
            "realloc" | "rust_realloc" => {
                let old = self.ptr(st, &a[0])?;
                let k = self.conc(st, &a[if n == "realloc" { 1 } else { 3 }], 64)?;
                if k > 1 << 30 {
                    return ok(self, st, 0);
                }
                let osz = if old == 0 {
                    0
                } else {
                    self.rd_obj(st, old >> OBJ_SHIFT, 0, 0, "realloc")?.data.len() as u64
                };
                let p = self.alloc(st, k);
                self.copy(st, p, &Val::C(old), osz.min(k))?;
                if old != 0 {
                    self.free(st, old)?;
                }
                ok(self, st, p)
            }
            "free" => {
                let p = self.ptr(st, &a[0])?;
                if p != 0 {
                    self.free(st, p)?;
                }
                ok(self, st, 0)
            }
            "malloc_usable_size" => {
                let p = self.ptr(st, &a[0])?;
                let v = if p == 0 { 0 } else { self.rd_obj(st, p >> OBJ_SHIFT, 0, 0, "malloc_usable_size")?.data.len() as u64 };
                ok(self, st, v)
            }
            "memcpy" | "memmove" => {
                let k = self.conc(st, &a[2], 64)?;
                let d = self.ptr(st, &a[0])?;
                self.copy(st, d, &a[1], k)?;
                ok(self, st, d)
            }
            "memset" => {
                let k = self.conc(st, &a[2], 64)?;
                let d = self.ptr(st, &a[0])?;
                let v = match &a[1] {
                    Val::C(x) => Val::C(*x & 0xff),
                    v => Val::from_e(trunc(v.e(32), 8)),
                };
                self.fill(st, d, &v, k)?;
                ok(self, st, d)
            }
            "memcmp" | "bcmp" => {
                let k = self.conc(st, &a[2], 64)?;
                if k == 0 {
                    return ok(self, st, 0);
                }
                let (p, q) = (self.ptr(st, &a[0])?, self.ptr(st, &a[1])?);
                let x = self.rd_obj(st, p >> OBJ_SHIFT, p & 0xffff_ffff, k, "read")?;
                let y = self.rd_obj(st, q >> OBJ_SHIFT, q & 0xffff_ffff, k, "read")?;
                let (i, j) = ((p & 0xffff_ffff) as usize, (q & 0xffff_ffff) as usize);
                let k = k as usize;
                if !x.has_sym(i, k) && !y.has_sym(j, k) {
                    let r: i32 = match x.data[i..i + k].cmp(&y.data[j..j + k]) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    return ok(self, st, r as u32 as u64);
                }
                let r = if n == "bcmp" {
                    let mut all = tru();
                    for t in (0..k).rev() {
                        all = and(eq(x.byte(i + t), y.byte(j + t)), all);
                    }
                    zext(not(all), 32)
                } else {
                    let mut r = cst(0, 32);
                    for t in (0..k).rev() {
                        let (b, c) = (x.byte(i + t), y.byte(j + t));
                        r = ite(eq(b, c), r, ite(cmp(Cm::Ult, b, c), cst(u128::MAX, 32), cst(1, 32)));
                    }
                    r
                };
                self.ret(st, dst, Val::from_e(r), ci.cont)
            }
            "strlen" => {
                let p = self.ptr(st, &a[0])?;
                let r = self.scan(st, p, u64::MAX, 0)?;
                ok(self, st, r.unwrap())
            }
            "strnlen" => {
                let p = self.ptr(st, &a[0])?;
                let k = self.conc(st, &a[1], 64)?;
                let r = self.scan(st, p, k, 0)?;
                ok(self, st, r.unwrap_or(k))
            }
            "memchr" => {
                let p = self.ptr(st, &a[0])?;
                let c = self.conc(st, &a[1], 32)? as u8;
                let k = self.conc(st, &a[2], 64)?;
                let r = self.scan(st, p, k, c)?;
                ok(self, st, r.map(|i| p + i).unwrap_or(0))
            }
            "memrchr" => {
                let p = self.ptr(st, &a[0])?;
                let c = self.conc(st, &a[1], 32)? as u8;
                let k = self.conc(st, &a[2], 64)?;
                let mut r = 0;
                if k > 0 {
                    let o = self.rd_obj(st, p >> OBJ_SHIFT, p & 0xffff_ffff, k, "read")?;
                    let off = (p & 0xffff_ffff) as usize;
                    for i in (0..k).rev() {
                        let e = eq(o.byte(off + i as usize), cst(c as u128, 8));
                        if self.decide(st, e)? {
                            r = p + i;
                            break;
                        }
                    }
                }
                ok(self, st, r)
            }
            _ => Err(End::Error(format!("call to unmodelled function `{}`", n))),
        }
    }

    /// Position of byte `c` within the first `k` bytes at `p`.
    fn scan(&mut self, st: &mut State, p: u64, k: u64, c: u8) -> R<Option<u64>> {
        if k == 0 {
            return Ok(None);
        }
        let o = self.rd_obj(st, p >> OBJ_SHIFT, p & 0xffff_ffff, 0, "read")?;
        let off = (p & 0xffff_ffff) as usize;
        let mut i = 0u64;
        while i < k {
            let j = off + i as usize;
            if j >= o.data.len() {
                return Err(self.bad("scan", p >> OBJ_SHIFT, j as u64, 1, Some(o.data.len())));
            }
            let hit = match &o.sym {
                Some(s) if s[j].0 != 0 => {
                    let e = eq(s[j], cst(c as u128, 8));
                    self.decide(st, e)?
                }
                _ => o.data[j] == c,
            };
            if hit {
                return Ok(Some(i));
            }
            i += 1;
        }
        Ok(None)
    }

    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        let id = p >> OBJ_SHIFT;
        if p & 0xffff_ffff != 0 || id < HEAP_OBJ || st.heap.get((id - HEAP_OBJ) as usize).is_none() {
            return Err(End::Violation("memory".into(), format!("invalid free of {:#x}", p)));
        }
        st.heap.remove((id - HEAP_OBJ) as usize);
        Ok(())
    }

    pub fn keep_models(&self) -> usize {
        self.models.len() + self.ext_code.len()
    }
}

// ---- pure operations ----

fn insv(x: &Val, t: &Ty, v: Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return v;
    }
    let i = ix[0] as usize;
    let mut vs = match x {
        Val::A(vs) => (**vs).clone(),
        _ => match Val::zero(t) {
            Val::A(vs) => (*vs).clone(),
            _ => panic!("insertvalue"),
        },
    };
    let ft = t.field(i).1;
    vs[i] = insv(&vs[i], &ft, v, &ix[1..]);
    Val::A(Rc::new(vs))
}

fn opof(o: BinOp) -> Op {
    match o {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}

pub fn vbin(o: BinOp, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let m = lowmask(w);
            let r = match o {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                BinOp::UDiv if y != 0 => x / y,
                BinOp::URem if y != 0 => x % y,
                BinOp::SDiv if y != 0 => sx(x, w).wrapping_div(sx(y, w)) as u64,
                BinOp::SRem if y != 0 => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                _ => 0,
            };
            return Val::C(r & m);
        }
    }
    if !a.is_sym() && !b.is_sym() {
        return Val::from_u128(fold(opof(o), a.u128(), b.u128(), w), w);
    }
    Val::from_e(bin(opof(o), a.e(w), b.e(w)))
}

pub fn vcmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let r = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => sx(x, w) < sx(y, w),
            Pred::Sle => sx(x, w) <= sx(y, w),
            Pred::Sgt => sx(x, w) > sx(y, w),
            Pred::Sge => sx(x, w) >= sx(y, w),
        };
        return Val::C(r as u64);
    }
    let (x, y) = (a.e(w), b.e(w));
    let e = match p {
        Pred::Eq => eq(x, y),
        Pred::Ne => not(eq(x, y)),
        Pred::Ult => cmp(Cm::Ult, x, y),
        Pred::Ule => cmp(Cm::Ule, x, y),
        Pred::Ugt => cmp(Cm::Ult, y, x),
        Pred::Uge => cmp(Cm::Ule, y, x),
        Pred::Slt => cmp(Cm::Slt, x, y),
        Pred::Sle => cmp(Cm::Sle, x, y),
        Pred::Sgt => cmp(Cm::Slt, y, x),
        Pred::Sge => cmp(Cm::Sle, y, x),
    };
    Val::from_e(e)
}

fn minmax(c: Cm, mx: bool, w: u32, a: &Val, b: &Val) -> Val {
    let (x, y) = (a.e(w), b.e(w));
    let lt = cmp(c, x, y);
    Val::from_e(if mx { ite(lt, y, x) } else { ite(lt, x, y) })
}

fn bitop(op: &str, w: u32, a: &Val) -> Val {
    if !a.is_sym() {
        let v = a.u128() & mask(w);
        let r = match op {
            "ctpop" => v.count_ones() as u128,
            "ctlz" => {
                if v == 0 {
                    w as u128
                } else {
                    (v.leading_zeros() - (128 - w)) as u128
                }
            }
            "cttz" => {
                if v == 0 {
                    w as u128
                } else {
                    v.trailing_zeros() as u128
                }
            }
            "bswap" => v.swap_bytes() >> (128 - w),
            _ => v.reverse_bits() >> (128 - w),
        };
        return Val::from_u128(r, w);
    }
    let e = a.e(w);
    let r = match op {
        "ctpop" => {
            let mut s = cst(0, w);
            for i in 0..w {
                s = bin(Op::Add, s, zext(extract(e, i, 1), w));
            }
            s
        }
        "ctlz" => {
            let mut r = cst(w as u128, w);
            for i in 0..w {
                r = ite(extract(e, i, 1), cst((w - 1 - i) as u128, w), r);
            }
            r
        }
        "cttz" => {
            let mut r = cst(w as u128, w);
            for i in (0..w).rev() {
                r = ite(extract(e, i, 1), cst(i as u128, w), r);
            }
            r
        }
        "bswap" => {
            let mut r = extract(e, 0, 8);
            for i in 1..w / 8 {
                r = concat(r, extract(e, i * 8, 8));
            }
            r
        }
        _ => {
            let mut r = extract(e, 0, 1);
            for i in 1..w {
                r = concat(r, extract(e, i, 1));
            }
            r
        }
    };
    Val::from_e(r)
}

fn funnel(left: bool, w: u32, a: &Val, b: &Val, s: &Val) -> Val {
    if !s.is_sym() {
        let k = (s.u128() % w as u128) as u32;
        if !a.is_sym() && !b.is_sym() {
            let (x, y) = (a.u128(), b.u128());
            let r = if k == 0 {
                if left {
                    x
                } else {
                    y
                }
            } else if left {
                (x << k) | (y >> (w - k))
            } else {
                (x << (w - k)) | (y >> k)
            };
            return Val::from_u128(r & mask(w), w);
        }
        let (x, y) = (a.e(w), b.e(w));
        if k == 0 {
            return Val::from_e(if left { x } else { y });
        }
        let k = if left { k } else { w - k };
        return Val::from_e(concat(extract(x, 0, w - k), extract(y, w - k, k)));
    }
    let (x, y) = (a.e(w), b.e(w));
    let k = bin(Op::URem, s.e(w), cst(w as u128, w));
    let z = eq(k, cst(0, w));
    let inv = bin(Op::Sub, cst(w as u128, w), k);
    let r = if left {
        ite(z, x, or2(bin(Op::Shl, x, k), bin(Op::LShr, y, inv)))
    } else {
        ite(z, y, or2(bin(Op::Shl, x, inv), bin(Op::LShr, y, k)))
    };
    Val::from_e(r)
}
fn or2(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}

fn with_overflow(op: &str, w: u32, a: &Val, b: &Val) -> Val {
    let pair = |r: Val, o: bool| Val::A(Rc::new(vec![r, Val::C(o as u64)]));
    if !a.is_sym() && !b.is_sym() {
        let (x, y) = (a.u128(), b.u128());
        let m = mask(w);
        if op.starts_with('u') {
            let (r, o) = match op {
                "uadd" => {
                    let (r, o) = x.overflowing_add(y);
                    (r, o || r > m)
                }
                "usub" => (x.wrapping_sub(y), x < y),
                _ => {
                    let (r, o) = x.overflowing_mul(y);
                    (r, o || r > m)
                }
            };
            return pair(Val::from_u128(r, w), o);
        }
        let (x, y) = (sext128(x, w), sext128(y, w));
        let (r, o) = match op {
            "sadd" => x.overflowing_add(y),
            "ssub" => x.overflowing_sub(y),
            _ => x.overflowing_mul(y),
        };
        let o = o || sext128(r as u128 & m, w) != r;
        return pair(Val::from_u128(r as u128, w), o);
    }
    let (x, y) = (a.e(w), b.e(w));
    let (r, o) = match op {
        "uadd" => {
            let r = bin(Op::Add, x, y);
            (r, cmp(Cm::Ult, r, x))
        }
        "usub" => (bin(Op::Sub, x, y), cmp(Cm::Ult, x, y)),
        "sadd" => {
            let r = bin(Op::Add, x, y);
            let z = cst(0, w);
            let (sx_, sy, sr) = (cmp(Cm::Slt, x, z), cmp(Cm::Slt, y, z), cmp(Cm::Slt, r, z));
            (r, and(eq(sx_, sy), not(eq(sx_, sr))))
        }
        "ssub" => {
            let r = bin(Op::Sub, x, y);
            let z = cst(0, w);
            let (sx_, sy, sr) = (cmp(Cm::Slt, x, z), cmp(Cm::Slt, y, z), cmp(Cm::Slt, r, z));
            (r, and(not(eq(sx_, sy)), not(eq(sx_, sr))))
        }
        "umul" => {
            let r = bin(Op::Mul, x, y);
            // by a constant: compare with the limit; otherwise in double width
            if let Some(k) = as_const(y).or(as_const(x)) {
                let v = if as_const(y).is_some() { x } else { y };
                if k == 0 {
                    (r, fls())
                } else {
                    (r, cmp(Cm::Ult, cst(mask(w) / k, w), v))
                }
            } else {
                let p = bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w));
                (r, not(eq(extract(p, w, w), cst(0, w))))
            }
        }
        _ => {
            let r = bin(Op::Mul, x, y);
            let p = bin(Op::Mul, sext(x, 2 * w), sext(y, 2 * w));
            (r, not(eq(p, sext(r, 2 * w))))
        }
    };
    Val::A(Rc::new(vec![Val::from_e(r), Val::from_e(o)]))
}

fn saturating(op: &str, w: u32, a: &Val, b: &Val) -> Val {
    let (x, y) = (a.e(w), b.e(w));
    let p = with_overflow(op, w, a, b);
    let (r, o) = (p.el(0).e(w), p.el(1).e(1));
    let s = match op {
        "uadd" => cst(u128::MAX, w),
        "usub" => cst(0, w),
        _ => {
            let neg = cmp(Cm::Slt, x, cst(0, w));
            let _ = y;
            ite(neg, cst(1u128 << (w - 1), w), cst((1u128 << (w - 1)) - 1, w))
        }
    };
    Val::from_e(ite(o, s, r))
}

fn fp(t: &Ty, v: u64) -> f64 {
    match t {
        Ty::Float => f32::from_bits(v as u32) as f64,
        _ => f64::from_bits(v),
    }
}
fn unfp(t: &Ty, v: f64) -> Val {
    match t {
        Ty::Float => Val::C((v as f32).to_bits() as u64),
        _ => Val::C(v.to_bits()),
    }
}
fn fbin(o: FOp, t: &Ty, a: &Val, b: &Val) -> Option<Val> {
    if let Ty::Vec(n, et) = t {
        let mut v = vec![];
        for i in 0..*n as usize {
            v.push(fbin(o, et, &a.el(i), &b.el(i))?);
        }
        return Some(Val::A(Rc::new(v)));
    }
    match (a, b) {
        (Val::C(x), Val::C(y)) => {
            let (x, y) = (fp(t, *x), fp(t, *y));
            Some(unfp(
                t,
                match o {
                    FOp::Add => x + y,
                    FOp::Sub => x - y,
                    FOp::Mul => x * y,
                    FOp::Div => x / y,
                    FOp::Rem => x % y,
                    FOp::Neg => -x,
                },
            ))
        }
        _ => None,
    }
}

fn flat(t: &Ty, v: &Val, out: &mut Vec<(E, u32)>) {
    match t {
        Ty::Vec(n, et) => {
            for i in 0..*n as usize {
                flat(et, &v.el(i), out);
            }
        }
        t => {
            let w = t.bits();
            out.push((v.e(w), w));
        }
    }
}

fn vcast(c: CastOp, ft: &Ty, tt: &Ty, x: &Val) -> Result<Val, String> {
    if c == CastOp::BitCast {
        if ft.is_scalar() && tt.is_scalar() {
            return Ok(x.clone());
        }
        let mut fl = vec![];
        flat(ft, x, &mut fl);
        let total: u32 = fl.iter().map(|x| x.1).sum();
        // 64-bit-or-wider split without exceeding the expression width
        if total > 128 {
            // element-wise through bytes
            let mut bytes = vec![];
            for (e, w) in fl {
                for k in 0..w / 8 {
                    bytes.push(extract(e, k * 8, 8));
                }
            }
            let et = tt.field(0).1;
            let n = tt.nfields();
            let eb = (et.bits() / 8) as usize;
            let mut v = vec![];
            for i in 0..n {
                let mut e = bytes[i * eb];
                for k in 1..eb {
                    e = concat(bytes[i * eb + k], e);
                }
                v.push(Val::from_e(e));
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let mut e = fl[0].0;
        for (x, _) in &fl[1..] {
            e = concat(*x, e);
        }
        return Ok(match tt {
            Ty::Vec(n, et) => {
                let w = et.bits();
                Val::A(Rc::new((0..*n).map(|i| Val::from_e(extract(e, i * w, w))).collect()))
            }
            _ => Val::from_e(e),
        });
    }
    if let (Ty::Vec(n, f), Ty::Vec(_, t)) = (ft, tt) {
        let mut v = vec![];
        for i in 0..*n as usize {
            v.push(vcast(c, f, t, &x.el(i))?);
        }
        return Ok(Val::A(Rc::new(v)));
    }
    let (fw, tw) = (ft.bits(), tt.bits());
    Ok(match c {
        CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => match x {
            Val::C(v) if tw <= 64 => Val::C(v & lowmask(tw)),
            Val::C(v) => Val::from_u128(*v as u128, tw),
            Val::W(v) => Val::from_u128(**v, tw),
            Val::S(e) => {
                if tw < fw {
                    Val::from_e(trunc(*e, tw))
                } else {
                    Val::from_e(zext(*e, tw))
                }
            }
            _ => return Err("cast".into()),
        },
        CastOp::SExt => match x {
            Val::C(v) if tw <= 64 => Val::C(sx(*v, fw) as u64 & lowmask(tw)),
            Val::C(v) => Val::from_u128(sx(*v, fw) as i128 as u128, tw),
            Val::W(v) => Val::from_u128(sext128(**v, fw) as u128, tw),
            Val::S(e) => Val::from_e(sext(*e, tw)),
            _ => return Err("cast".into()),
        },
        _ => match x {
            Val::C(v) => {
                let v = *v;
                match c {
                    CastOp::FpTrunc | CastOp::FpExt => unfp(tt, fp(ft, v)),
                    CastOp::FpToUi => Val::C(fp(ft, v) as u64 & lowmask(tw)),
                    CastOp::FpToSi => Val::C(fp(ft, v) as i64 as u64 & lowmask(tw)),
                    CastOp::UiToFp => match tt {
                        Ty::Float => Val::C((v as f32).to_bits() as u64),
                        _ => Val::C((v as f64).to_bits()),
                    },
                    CastOp::SiToFp => match tt {
                        Ty::Float => Val::C((sx(v, fw) as f32).to_bits() as u64),
                        _ => Val::C((sx(v, fw) as f64).to_bits()),
                    },
                    _ => unreachable!(),
                }
            }
            _ => return Err("symbolic floating point conversion".into()),
        },
    })
}

/// Readable path out of a v0-mangled name (heuristic: the identifiers in order).
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        let c = b[i];
        if c == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if c == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if c.is_ascii_digit() && c != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
