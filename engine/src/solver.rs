//! z3 through its C API.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<HashMap<u32, u128>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    var: HashMap<u32, P>,
    cache: HashMap<Vec<E>, Res>,
    recent: Vec<Rc<HashMap<u32, u128>>>,
    seed: u64,
    pub guessed: u64,
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub maxq: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let _ = Z3_get_error_code(c);
            Solver {
                c,
                s,
                bv: HashMap::new(),
                bl: HashMap::new(),
                var: HashMap::new(),
                cache: HashMap::new(),
                recent: vec![],
                seed: 0x9e3779b97f4a7c15,
                guessed: 0,
                queries: 0,
                cached: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                maxq: 0.0,
            }
        }
    }

    pub fn reset_stats(&mut self) {
        self.queries = 0;
        self.guessed = 0;
        self.cached = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.time = 0.0;
        self.maxq = 0.0;
    }

    fn konst(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w))
            } else {
                let hi = Z3_mk_unsigned_int64(
                    self.c,
                    (v >> 64) as u64,
                    Z3_mk_bv_sort(self.c, w - 64),
                );
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }

    fn varp(&mut self, i: u32) -> P {
        if let Some(&p) = self.var.get(&i) {
            return p;
        }
        let (_, w) = var_name(i);
        let p = unsafe {
            let n = CString::new(format!("v{}", i)).unwrap();
            Z3_mk_const(
                self.c,
                Z3_mk_string_symbol(self.c, n.as_ptr()),
                Z3_mk_bv_sort(self.c, w),
            )
        };
        self.var.insert(i, p);
        p
    }

    /// Translates bottom-up with an explicit stack.
    fn tr(&mut self, root: E) {
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if self.bv.contains_key(&e) {
                st.pop();
                continue;
            }
            let kids: Vec<E> = match node(e) {
                N::Const(_) | N::Var(_) => vec![],
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => vec![a, b],
                N::Not(a) | N::SExt(a) | N::Extract(a, _) => vec![a],
                N::Ite(a, b, c) => vec![a, b, c],
            };
            let mut ok = true;
            for k in kids {
                if !self.bv.contains_key(&k) {
                    st.push(k);
                    ok = false;
                }
            }
            if !ok {
                continue;
            }
            let w = width(e);
            let c = self.c;
            unsafe {
                let one = |s: &Self, b: P| {
                    Z3_mk_ite(c, b, s.konst(1, 1), s.konst(0, 1))
                };
                let mut boolp: Option<P> = None;
                let g = |s: &Self, x: E| *s.bv.get(&x).unwrap();
                let p = match node(e) {
                    N::Const(v) => {
                        if w == 1 {
                            boolp = Some(if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) });
                        }
                        self.konst(v, w)
                    }
                    N::Var(i) => self.varp(i),
                    N::Bin(op, x, y) => {
                        if w == 1 && matches!(op, Op::And | Op::Or | Op::Xor) {
                            let (p, q) = (self.boolp(x), self.boolp(y));
                            let ar = [p, q];
                            let b = match op {
                                Op::And => Z3_mk_and(c, 2, ar.as_ptr()),
                                Op::Or => Z3_mk_or(c, 2, ar.as_ptr()),
                                _ => Z3_mk_xor(c, p, q),
                            };
                            boolp = Some(b);
                            one(self, b)
                        } else {
                            let (p, q) = (g(self, x), g(self, y));
                            match op {
                                Op::Add => Z3_mk_bvadd(c, p, q),
                                Op::Sub => Z3_mk_bvsub(c, p, q),
                                Op::Mul => Z3_mk_bvmul(c, p, q),
                                Op::UDiv => Z3_mk_bvudiv(c, p, q),
                                Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                                Op::URem => Z3_mk_bvurem(c, p, q),
                                Op::SRem => Z3_mk_bvsrem(c, p, q),
                                Op::Shl => Z3_mk_bvshl(c, p, q),
                                Op::LShr => Z3_mk_bvlshr(c, p, q),
                                Op::AShr => Z3_mk_bvashr(c, p, q),
                                Op::And => Z3_mk_bvand(c, p, q),
                                Op::Or => Z3_mk_bvor(c, p, q),
                                Op::Xor => Z3_mk_bvxor(c, p, q),
                            }
                        }
                    }
                    N::Cmp(op, x, y) => {
                        let (p, q) = (g(self, x), g(self, y));
                        let b = match op {
                            Cm::Eq => Z3_mk_eq(c, p, q),
                            Cm::Ult => Z3_mk_bvult(c, p, q),
                            Cm::Ule => Z3_mk_bvule(c, p, q),
                            Cm::Slt => Z3_mk_bvslt(c, p, q),
                            Cm::Sle => Z3_mk_bvsle(c, p, q),
                        };
                        boolp = Some(b);
                        one(self, b)
                    }
                    N::Not(x) => {
                        if w == 1 {
                            let b = Z3_mk_not(c, self.boolp(x));
                            boolp = Some(b);
                            one(self, b)
                        } else {
                            Z3_mk_bvnot(c, g(self, x))
                        }
                    }
                    N::SExt(x) => Z3_mk_sign_ext(c, w - width(x), g(self, x)),
                    N::Extract(x, lo) => Z3_mk_extract(c, lo + w - 1, lo, g(self, x)),
                    N::Concat(h, l) => Z3_mk_concat(c, g(self, h), g(self, l)),
                    N::Ite(q, x, y) => {
                        let qb = self.boolp(q);
                        if w == 1 {
                            let b = Z3_mk_ite(c, qb, self.boolp(x), self.boolp(y));
                            boolp = Some(b);
                            one(self, b)
                        } else {
                            Z3_mk_ite(c, qb, g(self, x), g(self, y))
                        }
                    }
                };
                if let Some(b) = boolp {
                    self.bl.insert(e, b);
                }
                self.bv.insert(e, p);
            }
            st.pop();
        }
    }

    fn boolp(&mut self, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let p = unsafe { Z3_mk_eq(self.c, *self.bv.get(&e).unwrap(), self.konst(1, 1)) };
        self.bl.insert(e, p);
        p
    }

    /// Is the conjunction satisfiable?
    fn check_raw(&mut self, cs: &[E]) -> Res {
        if std::env::var_os("SYMX_QDUMP").is_some() {
            eprintln!("--- query {} with {} constraints", self.queries, cs.len());
            for &e in cs {
                eprintln!("  {} vars: {}", vars(e).len(), show(e, 9));
            }
        }
        let t = Instant::now();
        self.queries += 1;
        let mut vs: HashSet<u32> = HashSet::new();
        for &e in cs {
            self.tr(e);
            for &v in vars(e).iter() {
                vs.insert(v);
            }
        }
        let r;
        unsafe {
            Z3_solver_reset(self.c, self.s);
            for &e in cs {
                let b = self.boolp(e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let k = Z3_solver_check(self.c, self.s);
            r = if k == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut out = HashMap::new();
                for i in vs {
                    let (_, w) = var_name(i);
                    let p = self.varp(i);
                    let mut val = 0u128;
                    let mut lo = 0;
                    while lo < w {
                        let n = (w - lo).min(64);
                        let ex = Z3_mk_extract(self.c, lo + n - 1, lo, p);
                        let mut v: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, m, ex, true, &mut v) {
                            Z3_get_numeral_uint64(self.c, v, &mut u);
                        }
                        val |= (u as u128) << lo;
                        lo += n;
                    }
                    out.insert(i, val);
                }
                Z3_model_dec_ref(self.c, m);
                self.sat += 1;
                Res::Sat(Rc::new(out))
            } else if k == -1 {
                self.unsat += 1;
                Res::Unsat
            } else {
                self.unknown += 1;
                Res::Unknown
            };
        }
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.maxq {
            self.maxq = dt;
        }
        r
    }

    /// Constraints of `pc` that share variables (transitively) with `cond`, plus `cond`.
    pub fn slice(pc: &[E], cond: E) -> Vec<E> {
        let mut need: HashSet<u32> = vars(cond).iter().copied().collect();
        let vs: Vec<Rc<Vec<u32>>> = pc.iter().map(|&e| vars(e)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && vs[i].iter().any(|v| need.contains(v)) {
                    used[i] = true;
                    ch = true;
                    for &v in vs[i].iter() {
                        need.insert(v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut out: Vec<E> = (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect();
        out.push(cond);
        out
    }

    fn rnd(&mut self) -> u64 {
        self.seed ^= self.seed << 13;
        self.seed ^= self.seed >> 7;
        self.seed ^= self.seed << 17;
        self.seed
    }

    /// Looks for a satisfying assignment by evaluation before asking the solver.
    fn guess(&mut self, q: &[E]) -> Option<Rc<HashMap<u32, u128>>> {
        let mut vs: Vec<u32> = vec![];
        for &e in q {
            vs.extend(vars(e).iter());
        }
        vs.sort();
        vs.dedup();
        if vs.len() > 64 {
            return None;
        }
        let nr = self.recent.len();
        for k in 0..nr + 40 {
            let mut m: HashMap<u32, u128> = HashMap::new();
            if k < nr {
                for &v in &vs {
                    m.insert(v, self.recent[k].get(&v).copied().unwrap_or(0));
                }
            } else {
                let base = if nr > 0 { Some(self.recent[self.seed as usize % nr].clone()) } else { None };
                for &v in &vs {
                    let w = var_name(v).1;
                    let r = self.rnd();
                    let x = match &base {
                        Some(b) if r & 3 == 0 && vs.len() > 2 => b.get(&v).copied().unwrap_or(0),
                        _ => ((r >> 8) as u128) | ((self.rnd() as u128) << 64),
                    };
                    m.insert(v, x & mask(w));
                }
            }
            let md = Model::new(m);
            if q.iter().rev().all(|&e| md.eval(e) == 1) {
                self.guessed += 1;
                return Some(Rc::new(md.vals));
            }
        }
        None
    }

    pub fn check(&mut self, pc: &[E], cond: E) -> Res {
        if let Some(v) = as_const(cond) {
            if v == 0 {
                return Res::Unsat;
            }
        }
        let mut q = Self::slice(pc, cond);
        q.sort();
        q.dedup();
        if let Some(r) = self.cache.get(&q) {
            self.cached += 1;
            return r.clone();
        }
        let r = match self.guess(&q) {
            Some(m) => Res::Sat(m),
            None => self.check_raw(&q),
        };
        if let Res::Sat(m) = &r {
            if self.recent.len() < 24 {
                self.recent.push(m.clone());
            } else {
                let k = self.rnd() as usize % 24;
                self.recent[k] = m.clone();
            }
        }
        if self.cache.len() > 200_000 {
            self.cache.clear();
        }
        self.cache.insert(q, r.clone());
        r
    }
}
