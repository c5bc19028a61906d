//! Hash-consed bit-vector expressions with an aggressive bit-slice simplifier.
//!
//! Booleans are bit-vectors of width 1. Width is at most 128.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cm {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Cmp(Cm, E, E),
    Not(E), // bitwise, any width
    SExt(E),
    Extract(E, u32), // low bit; width is the node's width
    Concat(E, E),    // hi, lo
    Ite(E, E, E),
}

pub struct Node {
    pub n: N,
    pub w: u32,
    pub vars: Rc<Vec<u32>>,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u32), E>,
    pub var_names: Vec<(String, u32)>,
    empty: Rc<Vec<u32>>,
}

thread_local! {
    static ARENA: RefCell<Arena> = RefCell::new(Arena::new());
}

impl Arena {
    fn new() -> Self {
        let mut a = Arena {
            nodes: Vec::new(),
            map: HashMap::new(),
            var_names: Vec::new(),
            empty: Rc::new(Vec::new()),
        };
        // index 0 is reserved: "no expression"
        a.nodes.push(Node {
            n: N::Const(0),
            w: 0,
            vars: a.empty.clone(),
        });
        a
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn union(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            out.push(a[i]);
            i += 1;
        } else if a[i] > b[j] {
            out.push(b[j]);
            j += 1;
        } else {
            out.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    out.extend_from_slice(&a[i..]);
    out.extend_from_slice(&b[j..]);
    if out.len() == a.len() {
        return a.clone();
    }
    if out.len() == b.len() {
        return b.clone();
    }
    Rc::new(out)
}

fn intern(n: N, w: u32) -> E {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&e) = a.map.get(&(n, w)) {
            return e;
        }
        let vars = {
            let v = |e: E| a.nodes[e.0 as usize].vars.clone();
            match n {
                N::Const(_) => a.empty.clone(),
                N::Var(i) => Rc::new(vec![i]),
                N::Bin(_, x, y) | N::Cmp(_, x, y) | N::Concat(x, y) => union(&v(x), &v(y)),
                N::Not(x) | N::SExt(x) | N::Extract(x, _) => v(x),
                N::Ite(c, x, y) => union(&union(&v(c), &v(x)), &v(y)),
            }
        };
        let e = E(a.nodes.len() as u32);
        a.nodes.push(Node { n, w, vars });
        a.map.insert((n, w), e);
        e
    })
}

pub fn node(e: E) -> N {
    ARENA.with(|a| a.borrow().nodes[e.0 as usize].n)
}
pub fn width(e: E) -> u32 {
    ARENA.with(|a| a.borrow().nodes[e.0 as usize].w)
}
pub fn vars(e: E) -> Rc<Vec<u32>> {
    ARENA.with(|a| a.borrow().nodes[e.0 as usize].vars.clone())
}
pub fn var_name(i: u32) -> (String, u32) {
    ARENA.with(|a| a.borrow().var_names[i as usize].clone())
}
pub fn num_nodes() -> usize {
    ARENA.with(|a| a.borrow().nodes.len())
}

pub fn new_var(name: &str, w: u32) -> E {
    let id = ARENA.with(|a| {
        let mut a = a.borrow_mut();
        a.var_names.push((name.to_string(), w));
        (a.var_names.len() - 1) as u32
    });
    intern(N::Var(id), w)
}

pub fn cst(v: u128, w: u32) -> E {
    intern(N::Const(v & mask(w)), w)
}
pub fn tru() -> E {
    cst(1, 1)
}
pub fn fls() -> E {
    cst(0, 1)
}
pub fn as_const(e: E) -> Option<u128> {
    match node(e) {
        N::Const(v) => Some(v),
        _ => None,
    }
}

/// A maximal run of bits of an expression, low to high.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Pc {
    K(u128),
    X(E), // whole expression of the piece's width
}

const MAXP: usize = 40;

fn pieces(e: E, out: &mut Vec<(Pc, u32)>) {
    // low first
    match node(e) {
        N::Const(v) => out.push((Pc::K(v), width(e))),
        N::Concat(h, l) => {
            pieces(l, out);
            pieces(h, out);
        }
        _ => out.push((Pc::X(e), width(e))),
    }
}

fn pc_slice(p: (Pc, u32), lo: u32, w: u32) -> (Pc, u32) {
    if lo == 0 && w == p.1 {
        return p;
    }
    match p.0 {
        Pc::K(v) => (Pc::K((v >> lo) & mask(w)), w),
        Pc::X(e) => {
            let x = extract(e, lo, w);
            match node(x) {
                N::Const(v) => (Pc::K(v), w),
                _ => (Pc::X(x), w),
            }
        }
    }
}

/// Splits two piece lists at common boundaries.
fn align(a: &[(Pc, u32)], b: &[(Pc, u32)]) -> Vec<((Pc, u32), (Pc, u32))> {
    let mut out = Vec::new();
    let (mut i, mut j, mut io, mut jo) = (0, 0, 0u32, 0u32);
    while i < a.len() && j < b.len() {
        let w = (a[i].1 - io).min(b[j].1 - jo);
        out.push((pc_slice(a[i], io, w), pc_slice(b[j], jo, w)));
        io += w;
        jo += w;
        if io == a[i].1 {
            i += 1;
            io = 0;
        }
        if jo == b[j].1 {
            j += 1;
            jo = 0;
        }
    }
    out
}

fn pc_expr(p: (Pc, u32)) -> E {
    match p.0 {
        Pc::K(v) => cst(v, p.1),
        Pc::X(e) => e,
    }
}

fn from_pieces(ps: &[(Pc, u32)]) -> E {
    let mut it = ps.iter();
    let mut acc = pc_expr(*it.next().unwrap());
    for p in it {
        acc = concat(pc_expr(*p), acc);
    }
    acc
}

pub fn concat(h: E, l: E) -> E {
    let (wh, wl) = (width(h), width(l));
    assert!(wh + wl <= 128, "concat too wide");
    let (nh, nl) = (node(h), node(l));
    match (nh, nl) {
        (N::Const(a), N::Const(b)) => return cst((a << wl) | b, wh + wl),
        // extract(x,i+k) : extract(x,i)  ->  extract(x,i)
        (N::Extract(x, lx), N::Extract(y, ly)) if x == y && ly + wl == lx => {
            return extract(x, ly, wh + wl)
        }
        // l is a concat: try to merge h with its high part
        (_, N::Concat(lh, ll)) => {
            let m = try_merge(h, lh);
            if let Some(m) = m {
                return concat(m, ll);
            }
        }
        _ => {}
    }
    // right-assoc canonical form: Concat(high piece, rest). If h is a concat, rotate.
    if let N::Concat(hh, hl) = nh {
        return concat(hh, concat(hl, l));
    }
    // ite(c,a,b):ite(c,x,y) -> ite(c, a:x, b:y) only for constants
    if let (N::Ite(c, a, b), N::Ite(c2, x, y)) = (nh, nl) {
        if c == c2
            && as_const(a).is_some()
            && as_const(b).is_some()
            && as_const(x).is_some()
            && as_const(y).is_some()
        {
            return ite(c, concat(a, x), concat(b, y));
        }
    }
    intern(N::Concat(h, l), wh + wl)
}

fn try_merge(h: E, l: E) -> Option<E> {
    let (wh, wl) = (width(h), width(l));
    match (node(h), node(l)) {
        (N::Const(a), N::Const(b)) => Some(cst((a << wl) | b, wh + wl)),
        (N::Extract(x, lx), N::Extract(y, ly)) if x == y && ly + wl == lx => {
            Some(extract(x, ly, wh + wl))
        }
        _ => None,
    }
}

pub fn zext(e: E, w: u32) -> E {
    let we = width(e);
    if we == w {
        return e;
    }
    assert!(w > we);
    concat(cst(0, w - we), e)
}

pub fn sext(e: E, w: u32) -> E {
    let we = width(e);
    if we == w {
        return e;
    }
    assert!(w > we);
    if let Some(v) = as_const(e) {
        return cst(sext128(v, we) as u128, w);
    }
    if let N::Concat(h, _) = node(e) {
        // sign bit known zero
        if let Some(v) = as_const(h) {
            if v >> (width(h) - 1) == 0 {
                return zext(e, w);
            }
        }
    }
    if let N::Ite(c, a, b) = node(e) {
        if as_const(a).is_some() && as_const(b).is_some() {
            return ite(c, sext(a, w), sext(b, w));
        }
    }
    if let N::SExt(x) = node(e) {
        return sext(x, w);
    }
    intern(N::SExt(e), w)
}

pub fn trunc(e: E, w: u32) -> E {
    extract(e, 0, w)
}

pub fn extract(e: E, lo: u32, w: u32) -> E {
    let we = width(e);
    assert!(lo + w <= we, "extract out of range");
    if lo == 0 && w == we {
        return e;
    }
    if matches!(node(e), N::Var(_)) {
        return intern(N::Extract(e, lo), w);
    }
    let key = (1u32 << 24 | lo << 8 | w, e, E(0), E(0));
    if let Some(r) = memo_get(key) {
        return r;
    }
    let r = extract1(e, lo, w);
    memo_put(key, r);
    r
}

thread_local! {
    static MEMO: RefCell<HashMap<(u32, E, E, E), E>> = RefCell::new(HashMap::new());
}
#[inline]
fn memo_get(k: (u32, E, E, E)) -> Option<E> {
    MEMO.with(|m| m.borrow().get(&k).copied())
}
#[inline]
fn memo_put(k: (u32, E, E, E), v: E) {
    MEMO.with(|m| {
        m.borrow_mut().insert(k, v);
    })
}

fn extract1(e: E, lo: u32, w: u32) -> E {
    match node(e) {
        N::Const(v) => cst(v >> lo, w),
        N::Extract(x, l2) => extract(x, l2 + lo, w),
        N::Concat(h, l) => {
            let wl = width(l);
            if lo >= wl {
                extract(h, lo - wl, w)
            } else if lo + w <= wl {
                extract(l, lo, w)
            } else {
                concat(extract(h, 0, lo + w - wl), extract(l, lo, wl - lo))
            }
        }
        N::SExt(x) => {
            let wx = width(x);
            if lo + w <= wx {
                extract(x, lo, w)
            } else if lo < wx {
                sext(extract(x, lo, wx - lo), w)
            } else {
                sext(extract(x, wx - 1, 1), w)
            }
        }
        N::Not(x) => not(extract(x, lo, w)),
        N::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
            bin(op, extract(a, lo, w), extract(b, lo, w))
        }
        N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
            bin(op, extract(a, 0, w), extract(b, 0, w))
        }
        N::Ite(c, a, b)
            if as_const(a).is_some()
                || as_const(b).is_some()
                || matches!(node(a), N::Concat(..) | N::Ite(..))
                || matches!(node(b), N::Concat(..) | N::Ite(..)) =>
        {
            ite(c, extract(a, lo, w), extract(b, lo, w))
        }
        _ => intern(N::Extract(e, lo), w),
    }
}

pub fn not(e: E) -> E {
    let key = (5u32 << 24, e, E(0), E(0));
    if let Some(r) = memo_get(key) {
        return r;
    }
    let r = not1(e);
    memo_put(key, r);
    r
}

fn not1(e: E) -> E {
    let w = width(e);
    match node(e) {
        N::Const(v) => cst(!v, w),
        N::Not(x) => x,
        N::Concat(h, l) => concat(not(h), not(l)),
        N::Cmp(Cm::Ult, a, b) => cmp(Cm::Ule, b, a),
        N::Cmp(Cm::Ule, a, b) => cmp(Cm::Ult, b, a),
        N::Cmp(Cm::Slt, a, b) => cmp(Cm::Sle, b, a),
        N::Cmp(Cm::Sle, a, b) => cmp(Cm::Slt, b, a),
        N::Ite(c, a, b) if as_const(a).is_some() && as_const(b).is_some() => {
            ite(c, not(a), not(b))
        }
        _ => intern(N::Not(e), w),
    }
}

pub fn and(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}
pub fn eq(a: E, b: E) -> E {
    cmp(Cm::Eq, a, b)
}

pub fn fold(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext128(a, w) >> s.min(127)) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}

fn foldc(op: Cm, a: u128, b: u128, w: u32) -> bool {
    match op {
        Cm::Eq => a == b,
        Cm::Ult => a < b,
        Cm::Ule => a <= b,
        Cm::Slt => sext128(a, w) < sext128(b, w),
        Cm::Sle => sext128(a, w) <= sext128(b, w),
    }
}

/// Number of leading bits known to be zero.
fn lz(e: E) -> u32 {
    match node(e) {
        N::Const(v) => {
            let w = width(e);
            (v << (128 - w)).leading_zeros().min(w)
        }
        N::Concat(h, l) => {
            let z = lz(h);
            if z == width(h) {
                z + lz(l)
            } else {
                z
            }
        }
        _ => 0,
    }
}

fn is_ite_const(e: E) -> bool {
    match node(e) {
        N::Const(_) => true,
        N::Ite(_, a, b) => is_ite_const2(a, 12) && is_ite_const2(b, 40),
        _ => false,
    }
}
fn is_ite_const2(e: E, d: u32) -> bool {
    if d == 0 {
        return false;
    }
    match node(e) {
        N::Const(_) => true,
        N::Ite(_, a, b) => is_ite_const2(a, d - 1) && is_ite_const2(b, d - 1),
        _ => false,
    }
}

/// The low run of runs of a mask: number of maximal runs.
fn runs(v: u128, w: u32) -> u32 {
    let mut n = 1;
    for i in 1..w {
        if (v >> i) & 1 != (v >> (i - 1)) & 1 {
            n += 1;
        }
    }
    n
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "width mismatch in {:?}", op);
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return cst(fold(op, x, y, w), w);
    }
    let m = mask(w);
    // canonical order: constant on the right, else by id
    let commutes = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
    if commutes && (ca.is_some() || (cb.is_none() && a.0 > b.0)) {
        return bin_m(op, b, a, w, m);
    }
    bin_m(op, a, b, w, m)
}

fn bin_m(op: Op, a: E, b: E, w: u32, m: u128) -> E {
    let key = (3u32 << 24 | op as u32, a, b, E(0));
    if let Some(r) = memo_get(key) {
        return r;
    }
    let r = bin2(op, a, b, w, m);
    memo_put(key, r);
    r
}

fn bin2(op: Op, a: E, b: E, w: u32, m: u128) -> E {
    let cb = as_const(b);
    let ca = as_const(a);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
            // (x + c1) + c2
            if let (Some(c2), N::Bin(Op::Add, x, y)) = (cb, node(a)) {
                if let Some(c1) = as_const(y) {
                    return bin(Op::Add, x, cst(c1.wrapping_add(c2), w));
                }
            }
            if let Some(e) = disjoint_or(a, b) {
                return e;
            }
            // narrow additions of zero-extended values
            let z = lz(a).min(lz(b));
            if z > 1 && z < w {
                let nw = w - z + 1;
                return zext(bin(Op::Add, extract(a, 0, nw), extract(b, 0, nw)), w);
            }
            if let N::Ite(c, x, y) = node(a) {
                if cb.is_some() && is_ite_const(a) {
                    return ite(c, bin(op, x, b), bin(op, y, b));
                }
            }
        }
        Op::Sub => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return cst(0, w);
            }
            if let Some(c) = cb {
                return bin(Op::Add, a, cst(c.wrapping_neg(), w));
            }
            // (x + c) - x
            if let N::Bin(Op::Add, x, y) = node(a) {
                if x == b {
                    return y;
                }
                if y == b {
                    return x;
                }
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(1) {
                return a;
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::Shl, a, cst(c.trailing_zeros() as u128, w));
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return b;
                }
                if c == m {
                    return a;
                }
                let is_cat = matches!(node(a), N::Concat(..));
                if is_cat || runs(c, w) <= 5 {
                    let mut ps = Vec::new();
                    let mut i = 0;
                    while i < w {
                        let bit = (c >> i) & 1;
                        let mut j = i;
                        while j < w && (c >> j) & 1 == bit {
                            j += 1;
                        }
                        if bit == 1 {
                            pieces(extract(a, i, j - i), &mut ps);
                        } else {
                            ps.push((Pc::K(0), j - i));
                        }
                        i = j;
                    }
                    return from_pieces(&ps);
                }
                if let N::Ite(cc, x, y) = node(a) {
                    if is_ite_const(a) {
                        return ite(cc, bin(op, x, b), bin(op, y, b));
                    }
                }
            }
            if w == 1 {
                if node(a) == N::Not(b) || node(b) == N::Not(a) || not(a) == b {
                    return fls();
                }
            }
            if let Some(e) = piecewise(op, a, b) {
                return e;
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if cb == Some(0) {
                return a;
            }
            if cb == Some(m) {
                return b;
            }
            if w == 1 {
                if node(a) == N::Not(b) || node(b) == N::Not(a) || not(a) == b {
                    return tru();
                }
            }
            if let Some(c) = cb {
                let is_cat = matches!(node(a), N::Concat(..));
                if is_cat || runs(c, w) <= 5 {
                    let mut ps = Vec::new();
                    let mut i = 0;
                    while i < w {
                        let bit = (c >> i) & 1;
                        let mut j = i;
                        while j < w && (c >> j) & 1 == bit {
                            j += 1;
                        }
                        if bit == 0 {
                            pieces(extract(a, i, j - i), &mut ps);
                        } else {
                            ps.push((Pc::K(mask(j - i)), j - i));
                        }
                        i = j;
                    }
                    return from_pieces(&ps);
                }
            }
            if let Some(e) = piecewise(op, a, b) {
                return e;
            }
        }
        Op::Xor => {
            if a == b {
                return cst(0, w);
            }
            if cb == Some(0) {
                return a;
            }
            if cb == Some(m) {
                return not(a);
            }
            if let (Some(c2), N::Bin(Op::Xor, x, y)) = (cb, node(a)) {
                if let Some(c1) = as_const(y) {
                    return bin(Op::Xor, x, cst(c1 ^ c2, w));
                }
            }
            if let Some(e) = piecewise(op, a, b) {
                return e;
            }
        }
        Op::Shl => {
            if let Some(k) = cb {
                if k >= w as u128 {
                    return cst(0, w);
                }
                let k = k as u32;
                if k == 0 {
                    return a;
                }
                return concat(extract(a, 0, w - k), cst(0, k));
            }
            if ca == Some(0) {
                return a;
            }
            if let Some(e) = shift_ite(op, a, b) {
                return e;
            }
        }
        Op::LShr => {
            if let Some(k) = cb {
                if k >= w as u128 {
                    return cst(0, w);
                }
                let k = k as u32;
                if k == 0 {
                    return a;
                }
                return zext(extract(a, k, w - k), w);
            }
            if ca == Some(0) {
                return a;
            }
            if let Some(e) = shift_ite(op, a, b) {
                return e;
            }
        }
        Op::AShr => {
            if let Some(k) = cb {
                let k = if k >= w as u128 { w - 1 } else { k as u32 };
                if k == 0 {
                    return a;
                }
                return sext(extract(a, k, w - k), w);
            }
        }
        Op::UDiv => {
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::LShr, a, cst(c.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::And, a, cst(c - 1, w));
                }
            }
        }
        _ => {}
    }
    intern(N::Bin(op, a, b), w)
}

fn shift_ite(op: Op, a: E, b: E) -> Option<E> {
    if let N::Ite(c, x, y) = node(b) {
        if is_ite_const(b) {
            return Some(ite(c, bin(op, a, x), bin(op, a, y)));
        }
    }
    None
}

/// a | b (or +, ^) where in every bit position one side is known zero.
fn disjoint_or(a: E, b: E) -> Option<E> {
    if !(matches!(node(a), N::Concat(..) | N::Const(_))
        && matches!(node(b), N::Concat(..) | N::Const(_)))
    {
        return None;
    }
    let (mut pa, mut pb) = (Vec::new(), Vec::new());
    pieces(a, &mut pa);
    pieces(b, &mut pb);
    if pa.len() + pb.len() > MAXP {
        return None;
    }
    let al = align(&pa, &pb);
    let mut out = Vec::with_capacity(al.len());
    for (x, y) in al {
        match (x.0, y.0) {
            (Pc::K(0), _) => out.push(y),
            (_, Pc::K(0)) => out.push(x),
            (Pc::K(u), Pc::K(v)) if u & v == 0 => out.push((Pc::K(u | v), x.1)),
            _ => return None,
        }
    }
    Some(from_pieces(&out))
}

fn piecewise(op: Op, a: E, b: E) -> Option<E> {
    let (na, nb) = (node(a), node(b));
    if !(matches!(na, N::Concat(..)) || matches!(nb, N::Concat(..))) {
        return None;
    }
    let (mut pa, mut pb) = (Vec::new(), Vec::new());
    pieces(a, &mut pa);
    pieces(b, &mut pb);
    if pa.len() + pb.len() > MAXP {
        return None;
    }
    // Only worth it when constants make pieces collapse.
    let hasconst =
        |p: &Vec<(Pc, u32)>| p.iter().any(|x| matches!(x.0, Pc::K(_)));
    if !(hasconst(&pa) || hasconst(&pb)) {
        return None;
    }
    let al = align(&pa, &pb);
    let mut out = Vec::with_capacity(al.len());
    for (x, y) in al {
        let r = bin(op, pc_expr(x), pc_expr(y));
        out.push((
            match node(r) {
                N::Const(v) => Pc::K(v),
                _ => Pc::X(r),
            },
            x.1,
        ));
    }
    Some(from_pieces(&out))
}

pub fn cmp(op: Cm, a: E, b: E) -> E {
    let key = (4u32 << 24 | op as u32, a, b, E(0));
    if let Some(r) = memo_get(key) {
        return r;
    }
    let r = cmp1(op, a, b);
    memo_put(key, r);
    r
}

fn cmp1(op: Cm, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "width mismatch in cmp {:?}", op);
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return cst(foldc(op, x, y, w) as u128, 1);
    }
    let m = mask(w);
    match op {
        Cm::Eq => {
            if a == b {
                return tru();
            }
            if ca.is_some() || (cb.is_none() && a.0 > b.0) {
                return cmp_eq(b, a, w);
            }
            cmp_eq(a, b, w)
        }
        Cm::Ult => {
            if a == b || cb == Some(0) || ca == Some(m) {
                return fls();
            }
            if cb == Some(1) {
                return eq(a, cst(0, w));
            }
            if ca == Some(0) {
                return not(eq(b, cst(0, w)));
            }
            if w == 1 {
                return and(not(a), b);
            }
            narrow_cmp(op, a, b, w)
        }
        Cm::Ule => {
            if a == b || ca == Some(0) || cb == Some(m) {
                return tru();
            }
            if cb == Some(0) {
                return eq(a, b);
            }
            if let Some(c) = cb {
                return cmp(Cm::Ult, a, cst(c + 1, w));
            }
            if w == 1 {
                return or(not(a), b);
            }
            narrow_cmp(op, a, b, w)
        }
        Cm::Slt | Cm::Sle => {
            if a == b {
                return cst((op == Cm::Sle) as u128, 1);
            }
            // both known non-negative -> unsigned
            let nn = |e: E| match as_const(e) {
                Some(v) => v >> (w - 1) == 0,
                None => lz(e) >= 1,
            };
            if nn(a) && nn(b) {
                return cmp(if op == Cm::Slt { Cm::Ult } else { Cm::Ule }, a, b);
            }
            if nn(a) {
                if let Some(v) = cb {
                    if v >> (w - 1) == 1 {
                        return fls();
                    }
                }
            }
            if nn(b) {
                if let Some(v) = ca {
                    if v >> (w - 1) == 1 {
                        return tru();
                    }
                }
            }
            // sign test: x < 0 / -1 < x / x <= -1 / 0 <= x
            if op == Cm::Slt && cb == Some(0) {
                return extract(a, w - 1, 1);
            }
            if op == Cm::Slt && ca == Some(m) {
                return not(extract(b, w - 1, 1));
            }
            if op == Cm::Sle && cb == Some(m) {
                return extract(a, w - 1, 1);
            }
            if op == Cm::Sle && ca == Some(0) {
                return not(extract(b, w - 1, 1));
            }
            push_ite_cmp(op, a, b).unwrap_or_else(|| intern(N::Cmp(op, a, b), 1))
        }
    }
}

fn push_ite_cmp(op: Cm, a: E, b: E) -> Option<E> {
    if as_const(b).is_some() {
        if let N::Ite(c, x, y) = node(a) {
            if is_ite_const(a) || as_const(x).is_some() || as_const(y).is_some() {
                return Some(ite(c, cmp(op, x, b), cmp(op, y, b)));
            }
        }
    }
    if as_const(a).is_some() {
        if let N::Ite(c, x, y) = node(b) {
            if is_ite_const(b) || as_const(x).is_some() || as_const(y).is_some() {
                return Some(ite(c, cmp(op, a, x), cmp(op, a, y)));
            }
        }
    }
    None
}

fn narrow_cmp(op: Cm, a: E, b: E, w: u32) -> E {
    let (za, zb) = (lz(a), lz(b));
    let z = za.min(zb);
    if z > 0 && z < w {
        return cmp(op, extract(a, 0, w - z), extract(b, 0, w - z));
    }
    // one side has a nonzero constant top where the other is zero
    if za > 0 {
        if let Some(v) = as_const(b) {
            if v >> (w - za) != 0 {
                return tru();
            }
        }
    }
    if zb > 0 {
        if let Some(v) = as_const(a) {
            if v >> (w - zb) != 0 {
                return fls();
            }
        }
    }
    if let Some(e) = push_ite_cmp(op, a, b) {
        return e;
    }
    intern(N::Cmp(op, a, b), 1)
}

fn cmp_eq(a: E, b: E, w: u32) -> E {
    let cb = as_const(b);
    if w == 1 {
        if let Some(v) = cb {
            return if v == 1 { a } else { not(a) };
        }
        if not(a) == b {
            return fls();
        }
    }
    if let Some(c) = cb {
        match node(a) {
            N::Not(x) => return eq(x, cst(!c, w)),
            N::Concat(h, l) => {
                let wl = width(l);
                let hc = eq(h, cst(c >> wl, w - wl));
                if hc == fls() {
                    return hc;
                }
                let lc = eq(l, cst(c, wl));
                return and(hc, lc);
            }
            N::Ite(g, x, y) if is_ite_const(a) || as_const(x).is_some() || as_const(y).is_some() => {
                return ite(g, eq(x, b), eq(y, b));
            }
            N::SExt(x) => {
                let wx = width(x);
                if sext128(c & mask(wx), wx) as u128 & mask(w) != c {
                    return fls();
                }
                return eq(x, cst(c, wx));
            }
            N::Bin(Op::Add, x, y) => {
                if let Some(k) = as_const(y) {
                    return eq(x, cst(c.wrapping_sub(k), w));
                }
            }
            N::Bin(Op::Xor, x, y) => {
                if let Some(k) = as_const(y) {
                    return eq(x, cst(c ^ k, w));
                }
            }
            _ => {}
        }
    } else {
        match (node(a), node(b)) {
            (N::Concat(..), _) | (_, N::Concat(..)) => {
                let (mut pa, mut pb) = (Vec::new(), Vec::new());
                pieces(a, &mut pa);
                pieces(b, &mut pb);
                if pa.len() + pb.len() <= MAXP && pa.len() > 1 && pb.len() > 1 {
                    let mut acc = tru();
                    for (x, y) in align(&pa, &pb) {
                        let q = eq(pc_expr(x), pc_expr(y));
                        if q == fls() {
                            return q;
                        }
                        acc = and(acc, q);
                    }
                    return acc;
                }
            }
            (N::Not(x), N::Not(y)) => return eq(x, y),
            (N::SExt(x), N::SExt(y)) if width(x) == width(y) => return eq(x, y),
            _ => {}
        }
    }
    intern(N::Cmp(Cm::Eq, a, b), 1)
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = as_const(c) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let N::Not(x) = node(c) {
        return ite(x, b, a);
    }
    let key = (2u32 << 24, c, a, b);
    if let Some(r) = memo_get(key) {
        return r;
    }
    let r = ite1(c, a, b, w);
    memo_put(key, r);
    r
}

fn ite1(c: E, a: E, b: E, w: u32) -> E {
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(1)) => return or(not(c), a),
            (_, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    if let N::Ite(c2, x, _) = node(a) {
        if c2 == c {
            return ite(c, x, b);
        }
    }
    if let N::Ite(c2, _, y) = node(b) {
        if c2 == c {
            return ite(c, a, y);
        }
    }
    // ite(c, a, ite(d, a, y)) -> ite(c|d, a, y)
    if let N::Ite(d, x, y) = node(b) {
        if x == a {
            return ite(or(c, d), a, y);
        }
    }
    // piecewise merge
    if w > 1 {
        let (ka, kb) = (as_const(a), as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let d = x ^ y;
            if d.is_power_of_two() {
                let k = d.trailing_zeros();
                let bit = if (x >> k) & 1 == 1 { c } else { not(c) };
                let mut r = bit;
                if k > 0 {
                    r = concat(r, cst(x, k));
                }
                if k + 1 < w {
                    r = concat(cst(x >> (k + 1), w - k - 1), r);
                }
                return r;
            }
        } else if matches!(node(a), N::Concat(..)) || matches!(node(b), N::Concat(..)) {
            let (mut pa, mut pb) = (Vec::new(), Vec::new());
            pieces(a, &mut pa);
            pieces(b, &mut pb);
            if pa.len() + pb.len() <= MAXP {
                let al = align(&pa, &pb);
                if al.iter().any(|(x, y)| x == y) {
                    let mut out = Vec::new();
                    for (x, y) in al {
                        if x == y {
                            out.push(x);
                        } else {
                            let r = ite(c, pc_expr(x), pc_expr(y));
                            pieces(r, &mut out);
                        }
                    }
                    return from_pieces(&out);
                }
            }
        }
    }
    intern(N::Ite(c, a, b), w)
}

/// A satisfying assignment with a memo table for evaluation.
pub struct Model {
    pub vals: HashMap<u32, u128>,
    memo: RefCell<HashMap<E, u128>>,
}

impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Self {
        Model {
            vals,
            memo: RefCell::new(HashMap::new()),
        }
    }
    pub fn eval(&self, e: E) -> u128 {
        ARENA.with(|a| {
            let a = a.borrow();
            let mut memo = self.memo.borrow_mut();
            self.ev(&a, &mut memo, e)
        })
    }
    fn ev(&self, a: &Arena, memo: &mut HashMap<E, u128>, root: E) -> u128 {
        // explicit stack to survive deep expressions
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if memo.contains_key(&e) {
                st.pop();
                continue;
            }
            let nd = &a.nodes[e.0 as usize];
            let w = nd.w;
            let get = |memo: &HashMap<E, u128>, x: E| -> Option<u128> {
                match a.nodes[x.0 as usize].n {
                    N::Const(v) => Some(v),
                    _ => memo.get(&x).copied(),
                }
            };
            macro_rules! need {
                ($x:expr) => {
                    match get(memo, $x) {
                        Some(v) => v,
                        None => {
                            st.push($x);
                            continue;
                        }
                    }
                };
            }
            let v = match nd.n {
                N::Const(v) => v,
                N::Var(i) => self.vals.get(&i).copied().unwrap_or(0) & mask(w),
                N::Bin(op, x, y) => {
                    let p = need!(x);
                    let q = need!(y);
                    fold(op, p, q, w)
                }
                N::Cmp(op, x, y) => {
                    let p = need!(x);
                    let q = need!(y);
                    foldc(op, p, q, a.nodes[x.0 as usize].w) as u128
                }
                N::Not(x) => !need!(x) & mask(w),
                N::SExt(x) => {
                    let p = need!(x);
                    sext128(p, a.nodes[x.0 as usize].w) as u128 & mask(w)
                }
                N::Extract(x, lo) => (need!(x) >> lo) & mask(w),
                N::Concat(h, l) => {
                    let p = need!(h);
                    let q = need!(l);
                    (p << a.nodes[l.0 as usize].w) | q
                }
                N::Ite(c, x, y) => {
                    if need!(c) == 1 {
                        need!(x)
                    } else {
                        need!(y)
                    }
                }
            };
            memo.insert(e, v);
            st.pop();
        }
        memo.get(&root).copied().unwrap()
    }
}

pub fn show(e: E, depth: u32) -> String {
    if depth == 0 {
        return "..".into();
    }
    let d = depth - 1;
    match node(e) {
        N::Const(v) => format!("{}#{}", v, width(e)),
        N::Var(i) => var_name(i).0,
        N::Bin(o, a, b) => format!("({:?} {} {})", o, show(a, d), show(b, d)),
        N::Cmp(o, a, b) => format!("({:?} {} {})", o, show(a, d), show(b, d)),
        N::Not(a) => format!("(not {})", show(a, d)),
        N::SExt(a) => format!("(sext{} {})", width(e), show(a, d)),
        N::Extract(a, lo) => format!("{}[{}+{}]", show(a, d), lo, width(e)),
        N::Concat(a, b) => format!("({} . {})", show(a, d), show(b, d)),
        N::Ite(c, a, b) => format!("(ite {} {} {})", show(c, d), show(a, d), show(b, d)),
    }
}
