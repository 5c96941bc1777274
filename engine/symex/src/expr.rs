//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Ex(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

/// Floating-point operations; operands and results are IEEE bit patterns.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fp {
    Add,
    Sub,
    Mul,
    Div,
    Sqrt,
    /// fused multiply-add
    Fma,
    /// round to integral: toward -inf, +inf, zero, ties-even, ties-away
    Floor,
    Ceil,
    Trunc,
    RoundEven,
    Round,
    /// 1-bit results
    Oeq,
    Olt,
    Ole,
    Uno,
    /// conversions
    ToUi,
    ToSi,
    FromUi,
    FromSi,
    Cvt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, Ex, Ex),
    Cmp(Cmp, Ex, Ex),
    Not(Ex),
    Ite(Ex, Ex, Ex),
    /// low bit
    Extract(Ex, u32),
    ZExt(Ex),
    SExt(Ex),
    Concat(Ex, Ex),
    Table(Rc<Vec<Ex>>, Ex),
    Fp(Fp, Ex, Ex, Ex),
}

struct Info {
    w: u32,
    umin: u128,
    umax: u128,
    /// trailing zeros known
    tz: u32,
}

pub struct Arena {
    nodes: Vec<Node>,
    info: Vec<Info>,
    vars: Vec<Rc<Vec<u32>>>,
    map: HashMap<(Node, u32), Ex>,
    pub var_width: Vec<u32>,
    pub var_name: Vec<String>,
    memo_ext: HashMap<(Ex, u32, u32), Ex>,
    memo_bin: HashMap<(Op, Ex, Ex), Ex>,
    memo_cmp: HashMap<(Cmp, Ex, Ex), Ex>,
    memo_not: HashMap<Ex, Ex>,
    memo_ite: HashMap<(Ex, Ex, Ex), Ex>,
    memo_iset: HashMap<Ex, Option<Rc<(Ex, Vec<(u128, u128)>)>>>,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            ARENA = Box::into_raw(Box::new(Arena {
                nodes: vec![],
                info: vec![],
                vars: vec![],
                map: HashMap::new(),
                var_width: vec![],
                var_name: vec![],
                memo_ext: HashMap::new(),
                memo_bin: HashMap::new(),
                memo_cmp: HashMap::new(),
                memo_not: HashMap::new(),
                memo_ite: HashMap::new(),
                memo_iset: HashMap::new(),
            }));
        }
        &mut *ARENA
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn node(e: Ex) -> &'static Node {
    &ar().nodes[e.0 as usize]
}
pub fn width(e: Ex) -> u32 {
    ar().info[e.0 as usize].w
}
pub fn umax(e: Ex) -> u128 {
    ar().info[e.0 as usize].umax
}
pub fn umin(e: Ex) -> u128 {
    ar().info[e.0 as usize].umin
}
pub fn tz(e: Ex) -> u32 {
    ar().info[e.0 as usize].tz
}
pub fn vars(e: Ex) -> Rc<Vec<u32>> {
    ar().vars[e.0 as usize].clone()
}
pub fn cval(e: Ex) -> Option<u128> {
    match node(e) {
        Node::Const(c) => Some(*c),
        _ => None,
    }
}

fn union_vars(xs: &[Ex]) -> Rc<Vec<u32>> {
    let a = ar();
    let mut best: Option<Rc<Vec<u32>>> = None;
    for &x in xs {
        let v = &a.vars[x.0 as usize];
        best = Some(match best {
            None => v.clone(),
            Some(b) => {
                if Rc::ptr_eq(&b, v) || v.is_empty() || v.iter().all(|q| b.binary_search(q).is_ok()) {
                    b
                } else if b.is_empty() || b.iter().all(|q| v.binary_search(q).is_ok()) {
                    v.clone()
                } else {
                    let mut m: Vec<u32> = b.iter().chain(v.iter()).copied().collect();
                    m.sort();
                    m.dedup();
                    Rc::new(m)
                }
            }
        });
    }
    best.unwrap_or_default()
}

fn intern(n: Node, w: u32) -> Ex {
    debug_assert!(w >= 1 && w <= 128);
    let key = (n, w);
    if let Some(&e) = ar().map.get(&key) {
        return e;
    }
    let n = key.0.clone();
    let m = mask(w);
    let (mut umin_, mut umax_, mut tz_) = (0u128, m, 0u32);
    let vs;
    match &n {
        Node::Const(c) => {
            umin_ = *c;
            umax_ = *c;
            tz_ = if *c == 0 { w } else { c.trailing_zeros() };
            vs = Rc::new(vec![]);
        }
        Node::Var(v) => vs = Rc::new(vec![*v]),
        Node::Bin(op, a, b) => {
            vs = union_vars(&[*a, *b]);
            let (al, ah, bl, bh) = (umin(*a), umax(*a), umin(*b), umax(*b));
            match op {
                Op::Add => {
                    if let Some(h) = ah.checked_add(bh) {
                        if h <= m {
                            umin_ = al + bl;
                            umax_ = h;
                        }
                    }
                    tz_ = tz(*a).min(tz(*b));
                }
                Op::Mul => {
                    if let Some(h) = ah.checked_mul(bh) {
                        if h <= m {
                            umin_ = al * bl;
                            umax_ = h;
                        }
                    }
                    tz_ = (tz(*a) + tz(*b)).min(w);
                }
                Op::UDiv => {
                    if bl > 0 {
                        umax_ = ah / bl;
                        umin_ = al / bh;
                    }
                }
                Op::URem => {
                    umax_ = ah;
                    if bl > 0 {
                        umax_ = umax_.min(bh - 1);
                    }
                }
                Op::And => {
                    umax_ = ah.min(bh);
                    tz_ = tz(*a).max(tz(*b));
                }
                Op::Or | Op::Xor => {
                    let t = ah | bh;
                    let k = 128 - t.leading_zeros();
                    umax_ = mask(k).min(m);
                    if *op == Op::Or {
                        umin_ = al.max(bl);
                    }
                    tz_ = tz(*a).min(tz(*b));
                }
                Op::LShr => {
                    umax_ = if bl >= 128 { 0 } else { ah >> bl };
                    if bh < 128 {
                        umin_ = al >> bh;
                    }
                }
                Op::Shl => {
                    tz_ = (tz(*a) as u128 + bl.min(128)).min(w as u128) as u32;
                    if bh < w as u128 && ah.leading_zeros() as u128 >= bh && (ah << bh) <= m {
                        umax_ = ah << bh;
                        umin_ = al << bl;
                    }
                }
                _ => {}
            }
        }
        Node::Cmp(_, a, b) => vs = union_vars(&[*a, *b]),
        Node::Not(a) => {
            vs = vars(*a);
            umin_ = m - umax(*a);
            umax_ = m - umin(*a);
        }
        Node::Ite(c, a, b) => {
            vs = union_vars(&[*c, *a, *b]);
            umin_ = umin(*a).min(umin(*b));
            umax_ = umax(*a).max(umax(*b));
            tz_ = tz(*a).min(tz(*b));
        }
        Node::Extract(a, lo) => {
            vs = vars(*a);
            let h = umax(*a);
            if *lo == 0 {
                if h <= m {
                    umax_ = h;
                    umin_ = umin(*a);
                }
            } else if h >> lo <= m {
                umax_ = h >> lo;
                umin_ = umin(*a) >> lo;
            }
            tz_ = tz(*a).saturating_sub(*lo).min(w);
        }
        Node::ZExt(a) => {
            vs = vars(*a);
            umax_ = umax(*a);
            umin_ = umin(*a);
            tz_ = tz(*a);
        }
        Node::SExt(a) => {
            vs = vars(*a);
            if umax(*a) <= mask(width(*a)) >> 1 {
                umax_ = umax(*a);
                umin_ = umin(*a);
            }
            tz_ = tz(*a);
        }
        Node::Concat(a, b) => {
            vs = union_vars(&[*a, *b]);
            let lw = width(*b);
            umax_ = umax(*a) << lw | umax(*b);
            umin_ = umin(*a) << lw | umin(*b);
            tz_ = if cval(*b) == Some(0) { lw + tz(*a) } else { tz(*b) };
        }
        Node::Table(t, i) => {
            let mut all: Vec<Ex> = vec![*i];
            all.extend(t.iter().filter(|e| cval(**e).is_none()));
            vs = union_vars(&all);
            umin_ = t.iter().map(|e| umin(*e)).min().unwrap_or(0);
            umax_ = t.iter().map(|e| umax(*e)).max().unwrap_or(m);
            tz_ = t.iter().map(|e| tz(*e)).min().unwrap_or(0);
        }
        Node::Fp(_, a, b, c) => vs = union_vars(&[*a, *b, *c]),
    }
    let a = ar();
    let e = Ex(a.nodes.len() as u32);
    a.nodes.push(n);
    a.info.push(Info { w, umin: umin_, umax: umax_, tz: tz_.min(w) });
    a.vars.push(vs);
    a.map.insert(key, e);
    e
}

pub fn konst(c: u128, w: u32) -> Ex {
    intern(Node::Const(c & mask(w)), w)
}
pub fn fresh(w: u32, name: String) -> Ex {
    let id = ar().var_width.len() as u32;
    ar().var_width.push(w);
    ar().var_name.push(name);
    intern(Node::Var(id), w)
}

pub fn fold(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => (sext(a, w) >> (b.min(w as u128 - 1).min(127))) as u128,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}
pub fn fold_cmp(c: Cmp, a: u128, b: u128, w: u32) -> bool {
    match c {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sext(a, w) < sext(b, w),
        Cmp::Sle => sext(a, w) <= sext(b, w),
    }
}

pub fn sub(a: Ex, b: Ex) -> Ex {
    if a == b {
        return konst(0, width(a));
    }
    let w = width(a);
    if let Some(c) = cval(b) {
        return bin(Op::Add, a, konst(c.wrapping_neg(), w));
    }
    // (x + y) - x
    if let Node::Bin(Op::Add, x, y) = node(a) {
        if *x == b {
            return *y;
        }
        if *y == b {
            return *x;
        }
    }
    bin(Op::Add, a, neg(b))
}
pub fn neg(a: Ex) -> Ex {
    let w = width(a);
    if let Some(c) = cval(a) {
        return konst(c.wrapping_neg(), w);
    }
    // -x = x * -1
    bin(Op::Mul, a, konst(mask(w), w))
}

fn commutes(op: Op) -> bool {
    matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor)
}

/// pieces of a value from high to low, when it is built from concat/zext
fn pieces(e: Ex, out: &mut Vec<Ex>) {
    match node(e) {
        Node::Concat(a, b) => {
            let (a, b) = (*a, *b);
            pieces(a, out);
            pieces(b, out);
        }
        Node::ZExt(a) => {
            let a = *a;
            out.push(konst(0, width(e) - width(a)));
            pieces(a, out);
        }
        _ => out.push(e),
    }
}
fn is_pieced(e: Ex) -> bool {
    matches!(node(e), Node::Concat(..) | Node::ZExt(_))
}

fn xor_leaves(e: Ex, out: &mut Vec<Ex>) -> bool {
    if let Node::Bin(Op::Xor, x, y) = node(e) {
        let (x, y) = (*x, *y);
        return xor_leaves(x, out) && xor_leaves(y, out);
    }
    out.push(e);
    out.len() <= 12
}
fn xor_chain(a: Ex, b: Ex, w: u32) -> Option<Ex> {
    let is = |e: Ex| matches!(node(e), Node::Bin(Op::Xor, ..));
    if !is(a) && !is(b) || cval(b).is_some() && !is(a) {
        return None;
    }
    let mut v = vec![];
    if !xor_leaves(a, &mut v) || !xor_leaves(b, &mut v) {
        return None;
    }
    let mut c = 0;
    v.retain(|e| match cval(*e) {
        Some(d) => {
            c ^= d;
            false
        }
        None => true,
    });
    v.sort_by_key(|e| e.0);
    let mut u: Vec<Ex> = vec![];
    for e in v {
        if u.last() == Some(&e) {
            u.pop();
        } else {
            u.push(e);
        }
    }
    let mut it = u.into_iter();
    let Some(mut r) = it.next() else { return Some(konst(c, w)) };
    for e in it {
        let (x, y) = if r > e { (e, r) } else { (r, e) };
        r = intern(Node::Bin(Op::Xor, x, y), w);
    }
    Some(if c == 0 {
        r
    } else if c == mask(w) {
        not(r)
    } else {
        intern(Node::Bin(Op::Xor, r, konst(c, w)), w)
    })
}

/// Or of values whose known-zero parts are disjoint becomes a concat.
fn disjoint_or(a: Ex, b: Ex) -> Option<Ex> {
    if !(is_pieced(a) || cval(a).is_some()) || !(is_pieced(b) || cval(b).is_some()) {
        return None;
    }
    let w = width(a);
    let (mut pa, mut pb) = (vec![], vec![]);
    pieces(a, &mut pa);
    pieces(b, &mut pb);
    // cut points
    let mut cuts = vec![0u32];
    for p in [&pa, &pb] {
        let mut pos = 0;
        for x in p.iter().rev() {
            pos += width(*x);
            cuts.push(pos);
        }
    }
    cuts.sort();
    cuts.dedup();
    let at = |p: &Vec<Ex>, lo: u32, hi: u32| -> Ex {
        let mut pos = 0;
        for x in p.iter().rev() {
            let n = pos + width(*x);
            if lo >= pos && hi <= n {
                return extract(*x, lo - pos, hi - lo);
            }
            pos = n;
        }
        unreachable!()
    };
    let mut res: Option<Ex> = None;
    for k in 0..cuts.len() - 1 {
        let (lo, hi) = (cuts[k], cuts[k + 1]);
        let x = at(&pa, lo, hi);
        let y = at(&pb, lo, hi);
        let z = if cval(x) == Some(0) {
            y
        } else if cval(y) == Some(0) || x == y {
            x
        } else {
            return None;
        };
        res = Some(match res {
            None => z,
            Some(r) => concat(z, r),
        });
    }
    let r = res?;
    debug_assert_eq!(width(r), w);
    Some(r)
}

pub fn bin(op: Op, a: Ex, b: Ex) -> Ex {
    if let Some(&r) = ar().memo_bin.get(&(op, a, b)) {
        return r;
    }
    let mut r = bin_(op, a, b);
    if matches!(op, Op::And | Op::Or) && width(a) == 1 && matches!(node(r), Node::Bin(..)) {
        r = iset_simplify(r);
    }
    ar().memo_bin.insert((op, a, b), r);
    r
}
fn bin_(op: Op, a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{op:?}");
    let (mut a, mut b) = (a, b);
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(fold(op, x, y, w), w);
    }
    if commutes(op) && (ca.is_some() || (cb.is_none() && a > b)) {
        std::mem::swap(&mut a, &mut b);
    }
    let (ca, cb) = (cval(a), cval(b));
    let m = mask(w);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let (Some(c), Node::Bin(Op::Add, x, y)) = (cb, node(a)) {
                if let Some(d) = cval(*y) {
                    return bin(Op::Add, *x, konst(c.wrapping_add(d), w));
                }
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
            // x + (-1)*x
            if let Node::Bin(Op::Mul, x, y) = node(b) {
                if *x == a && cval(*y) == Some(m) {
                    return konst(0, w);
                }
            }
            if let Node::Bin(Op::Mul, x, y) = node(a) {
                if *x == b && cval(*y) == Some(m) {
                    return konst(0, w);
                }
            }
            // (x + c) + y with constant: float constants outward
            if cb.is_none() {
                if let Node::Bin(Op::Add, x, y) = node(a) {
                    if cval(*y).is_some() {
                        return bin(Op::Add, bin(Op::Add, *x, b), *y);
                    }
                }
                if let Node::Bin(Op::Add, x, y) = node(b) {
                    if cval(*y).is_some() {
                        return bin(Op::Add, bin(Op::Add, a, *x), *y);
                    }
                }
                // disjoint: treat like or
                if let Some(r) = disjoint_or(a, b) {
                    return r;
                }
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(1) {
                return a;
            }
            if let (Some(c), Node::Bin(Op::Mul, x, y)) = (cb, node(a)) {
                if let Some(d) = cval(*y) {
                    return bin(Op::Mul, *x, konst(c.wrapping_mul(d), w));
                }
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::Shl, a, konst(c.trailing_zeros() as u128, w));
                }
            }
            if w == 1 {
                return bin(Op::And, a, b);
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return b;
                }
                if c == m {
                    return a;
                }
                // low mask
                if (c + 1).is_power_of_two() {
                    let k = c.trailing_ones();
                    return zext(extract(a, 0, k), w);
                }
                // contiguous run of ones
                let t = c.trailing_zeros();
                if ((c >> t) + 1).is_power_of_two() {
                    let k = (c >> t).trailing_ones();
                    return concat_zero(zext(extract(a, t, k), w - t), t);
                }
                if let Node::Bin(Op::And, x, y) = node(a) {
                    if let Some(d) = cval(*y) {
                        return bin(Op::And, *x, konst(c & d, w));
                    }
                }
                if is_pieced(a) {
                    return piecewise_const(Op::And, a, c);
                }
            }
            if w == 1 {
                if is_not(a, b) {
                    return konst(0, 1);
                }
                // absorption
                if let Node::Bin(Op::And, x, y) = node(a) {
                    if *x == b || *y == b {
                        return a;
                    }
                }
                if let Node::Bin(Op::And, x, y) = node(b) {
                    if *x == a || *y == a {
                        return b;
                    }
                }
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c == m {
                    return b;
                }
            }
            if w == 1 && is_not(a, b) {
                return konst(1, 1);
            }
            if let Some(r) = disjoint_or(a, b) {
                return r;
            }
            if let Some(c) = cb {
                if is_pieced(a) {
                    return piecewise_const(Op::Or, a, c);
                }
            }
        }
        Op::Xor => {
            if a == b {
                return konst(0, w);
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c == m {
                    return not(a);
                }
                if let Node::Bin(Op::Xor, x, y) = node(a) {
                    if let Some(d) = cval(*y) {
                        return bin(Op::Xor, *x, konst(c ^ d, w));
                    }
                }
                if is_pieced(a) {
                    return piecewise_const(Op::Xor, a, c);
                }
            }
            if let Some(r) = disjoint_or(a, b) {
                if a != b {
                    return r;
                }
            }
            // one order for a chain of xors, its constant last
            if let Some(r) = xor_chain(a, b, w) {
                return r;
            }
        }
        Op::Shl => {
            if ca == Some(0) {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return konst(0, w);
                }
                let c = c as u32;
                return concat_zero(extract(a, 0, w - c), c);
            }
        }
        Op::LShr => {
            if ca == Some(0) {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return konst(0, w);
                }
                let c = c as u32;
                return zext(extract(a, c, w - c), w);
            }
        }
        Op::AShr => {
            if ca == Some(0) {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                let c = (c.min(w as u128 - 1)) as u32;
                return sign_ext(extract(a, c, w - c), w);
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::LShr, a, konst(c.trailing_zeros() as u128, w));
                }
            }
            if umax(a) < umin(b) {
                return konst(0, w);
            }
            if let Some(r) = narrow_ud(op, a, b) {
                return r;
            }
        }
        Op::URem => {
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::And, a, konst(c - 1, w));
                }
            }
            if umax(a) < umin(b) {
                return a;
            }
            if let Some(r) = narrow_ud(op, a, b) {
                return r;
            }
        }
        Op::SDiv | Op::SRem => {
            // both non-negative: unsigned
            let h = m >> 1;
            if umax(a) <= h && umax(b) <= h {
                return bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
            }
            // operands sign-extended from fewer bits
            if let (Node::SExt(x), Some(c)) = (node(a), cb) {
                let nw = width(*x);
                let s = sext(c, w);
                let lim = 1i128 << (nw - 1);
                if s != 0 && s != -1 && s >= -lim && s < lim {
                    let r = bin(op, *x, konst(c, nw));
                    return sign_ext(r, w);
                }
            }
        }
    }
    // push through ite with constant arms
    if let (Some(_), Node::Ite(c, x, y)) = (cb, node(a)) {
        if cval(*x).is_some() || cval(*y).is_some() {
            let (c, x, y) = (*c, *x, *y);
            return ite(c, bin(op, x, b), bin(op, y, b));
        }
    }
    if let (Some(_), Node::Ite(c, x, y)) = (ca, node(b)) {
        if cval(*x).is_some() || cval(*y).is_some() {
            let (c, x, y) = (*c, *x, *y);
            return ite(c, bin(op, a, x), bin(op, a, y));
        }
    }
    intern(Node::Bin(op, a, b), w)
}

fn narrow_ud(op: Op, a: Ex, b: Ex) -> Option<Ex> {
    let w = width(a);
    let need = 128 - (umax(a) | umax(b)).leading_zeros();
    // only to the widths programs use, so that equal computations stay syntactically equal
    for k in [8u32, 16, 32, 64] {
        if k < w && need <= k {
            return Some(zext(bin(op, extract(a, 0, k), extract(b, 0, k)), w));
        }
    }
    None
}

fn piecewise_const(op: Op, a: Ex, c: u128) -> Ex {
    let mut ps = vec![];
    pieces(a, &mut ps);
    let mut res: Option<Ex> = None;
    let mut pos = 0;
    for p in ps.iter().rev() {
        let pw = width(*p);
        let k = konst(c >> pos, pw);
        let z = bin(op, *p, k);
        pos += pw;
        res = Some(match res {
            None => z,
            Some(r) => concat(z, r),
        });
    }
    res.unwrap()
}

/// A boolean that only compares one term with constants, as the set of values of the term.
fn iset(e: Ex) -> Option<Rc<(Ex, Vec<(u128, u128)>)>> {
    if let Some(r) = ar().memo_iset.get(&e) {
        return r.clone();
    }
    let r = iset_(e).map(Rc::new);
    ar().memo_iset.insert(e, r.clone());
    r
}
fn iset_clip(t: Ex, v: Vec<(u128, u128)>) -> (Ex, Vec<(u128, u128)>) {
    let (lo, hi) = (umin(t), umax(t));
    let mut o: Vec<(u128, u128)> = vec![];
    for (a, b) in v {
        let (a, b) = (a.max(lo), b.min(hi));
        if a > b {
            continue;
        }
        match o.last_mut() {
            Some(l) if a <= l.1 || a - l.1 <= 1 => l.1 = l.1.max(b),
            _ => o.push((a, b)),
        }
    }
    (t, o)
}
fn iset_(e: Ex) -> Option<(Ex, Vec<(u128, u128)>)> {
    match node(e) {
        Node::Cmp(c, a, b) => {
            let (a, b) = (*a, *b);
            let w = width(a);
            if w == 1 {
                return None;
            }
            let m = mask(w);
            let h = m >> 1;
            let (t, v) = match (cval(a), cval(b)) {
                (None, Some(k)) => (
                    a,
                    match c {
                        Cmp::Eq => vec![(k, k)],
                        Cmp::Ult => if k == 0 { vec![] } else { vec![(0, k - 1)] },
                        Cmp::Ule => vec![(0, k)],
                        Cmp::Slt | Cmp::Sle => {
                            if *c == Cmp::Slt && k == h + 1 {
                                vec![]
                            } else {
                                let k = if *c == Cmp::Slt { k.wrapping_sub(1) & m } else { k };
                                if k <= h { vec![(0, k), (h + 1, m)] } else { vec![(h + 1, k)] }
                            }
                        }
                    },
                ),
                (Some(k), None) => (
                    b,
                    match c {
                        Cmp::Eq => vec![(k, k)],
                        Cmp::Ult => if k == m { vec![] } else { vec![(k + 1, m)] },
                        Cmp::Ule => vec![(k, m)],
                        Cmp::Slt | Cmp::Sle => {
                            if *c == Cmp::Slt && k == h {
                                vec![]
                            } else {
                                let k = if *c == Cmp::Slt { k.wrapping_add(1) & m } else { k };
                                if k <= h { vec![(k, h)] } else { vec![(0, h), (k, m)] }
                            }
                        }
                    },
                ),
                _ => return None,
            };
            let mut t = t;
            while let Node::ZExt(x) = node(t) {
                t = *x;
            }
            Some(iset_clip(t, v))
        }
        Node::Not(a) => {
            let s = iset(*a)?;
            let mut o = vec![];
            let mut cur = umin(s.0);
            let hi = umax(s.0);
            let mut done = false;
            for &(a, b) in &s.1 {
                if a > cur {
                    o.push((cur, a - 1));
                }
                if b == u128::MAX || b >= hi {
                    done = true;
                    break;
                }
                cur = b + 1;
            }
            if !done {
                o.push((cur, hi));
            }
            Some(iset_clip(s.0, o))
        }
        Node::Bin(op, a, b) if matches!(op, Op::And | Op::Or) => {
            let (x, y) = (iset(*a)?, iset(*b)?);
            if x.0 != y.0 || x.1.len() + y.1.len() > 400 {
                return None;
            }
            let v = if *op == Op::Or {
                let mut v: Vec<(u128, u128)> = x.1.iter().chain(y.1.iter()).copied().collect();
                v.sort();
                v
            } else {
                let mut v = vec![];
                let (mut i, mut j) = (0, 0);
                while i < x.1.len() && j < y.1.len() {
                    let (p, q) = (x.1[i], y.1[j]);
                    let (l, h) = (p.0.max(q.0), p.1.min(q.1));
                    if l <= h {
                        v.push((l, h));
                    }
                    if p.1 < q.1 { i += 1 } else { j += 1 }
                }
                v
            };
            Some(iset_clip(x.0, v))
        }
        _ => None,
    }
}
fn iset_simplify(e: Ex) -> Ex {
    let Some(s) = iset(e) else { return e };
    let t = s.0;
    if s.1.is_empty() {
        return konst(0, 1);
    }
    if s.1.len() > 1 {
        return e;
    }
    let (a, b) = s.1[0];
    let w = width(t);
    let (lo, hi) = (umin(t), umax(t));
    if a == lo && b == hi {
        konst(1, 1)
    } else if a == b {
        cmp(Cmp::Eq, t, konst(a, w))
    } else if a == lo {
        cmp(Cmp::Ule, t, konst(b, w))
    } else if b == hi {
        cmp(Cmp::Ule, konst(a, w), t)
    } else {
        e
    }
}

fn is_not(a: Ex, b: Ex) -> bool {
    matches!(node(a), Node::Not(x) if *x == b) || matches!(node(b), Node::Not(x) if *x == a)
}

pub fn not(a: Ex) -> Ex {
    if let Some(&r) = ar().memo_not.get(&a) {
        return r;
    }
    let r = not_(a);
    ar().memo_not.insert(a, r);
    r
}
fn not_(a: Ex) -> Ex {
    let w = width(a);
    match node(a) {
        Node::Const(c) => konst(!c, w),
        Node::Not(x) => *x,
        Node::Cmp(Cmp::Ult, x, y) => cmp(Cmp::Ule, *y, *x),
        Node::Cmp(Cmp::Ule, x, y) => cmp(Cmp::Ult, *y, *x),
        Node::Cmp(Cmp::Slt, x, y) => cmp(Cmp::Sle, *y, *x),
        Node::Cmp(Cmp::Sle, x, y) => cmp(Cmp::Slt, *y, *x),
        Node::Ite(c, x, y) if w == 1 => {
            let (c, x, y) = (*c, *x, *y);
            ite(c, not(x), not(y))
        }
        Node::Bin(Op::Or, x, y) if w == 1 => {
            let (x, y) = (*x, *y);
            bin(Op::And, not(x), not(y))
        }
        _ => intern(Node::Not(a), w),
    }
}

pub fn concat_zero(a: Ex, n: u32) -> Ex {
    if n == 0 { a } else { concat(a, konst(0, n)) }
}

pub fn concat(a: Ex, b: Ex) -> Ex {
    let (wa, wb) = (width(a), width(b));
    let w = wa + wb;
    if w > 128 {
        panic!("UNSUPPORTED: expression wider than 128 bits");
    }
    match (node(a), node(b)) {
        (Node::Const(x), Node::Const(y)) => return konst(x << wb | y, w),
        (Node::Const(0), _) => return zext(b, w),
        (Node::Extract(x, lx), Node::Extract(y, ly)) if x == y && *lx == ly + wb => {
            return extract(*x, *ly, w);
        }
        // right-nested normal form: concat(concat(p,q),r) = concat(p, concat(q,r))
        (Node::Concat(p, q), _) => {
            let (p, q) = (*p, *q);
            return concat(p, concat(q, b));
        }
        (Node::ZExt(x), _) => {
            let x = *x;
            return zext(concat(x, b), w);
        }
        (Node::Extract(x, lx), Node::Concat(p, q)) => {
            if let Node::Extract(y, ly) = node(*p) {
                if x == y && *lx == ly + width(*p) {
                    let q = *q;
                    return concat(extract(*x, *ly, wa + width(*p)), q);
                }
            }
        }
        (Node::Const(x), Node::Concat(p, q)) => {
            if let Node::Const(y) = node(*p) {
                let pw = width(*p);
                let q = *q;
                return concat(konst(x << pw | y, wa + pw), q);
            }
        }
        _ => {}
    }
    // sign bits: concat(ashr-like) left alone
    if let (Node::Ite(c1, x1, y1), Node::Ite(c2, x2, y2)) = (node(a), node(b)) {
        if c1 == c2 {
            let (c, x1, y1, x2, y2) = (*c1, *x1, *y1, *x2, *y2);
            return ite(c, concat(x1, x2), concat(y1, y2));
        }
    }
    intern(Node::Concat(a, b), w)
}

pub fn extract(a: Ex, lo: u32, n: u32) -> Ex {
    if n == width(a) {
        return a;
    }
    if let Some(&r) = ar().memo_ext.get(&(a, lo, n)) {
        return r;
    }
    let r = extract_(a, lo, n);
    ar().memo_ext.insert((a, lo, n), r);
    r
}
fn extract_(a: Ex, lo: u32, n: u32) -> Ex {
    let w = width(a);
    debug_assert!(lo + n <= w);
    if n == w {
        return a;
    }
    match node(a) {
        Node::Const(c) => return konst(c >> lo, n),
        Node::Extract(x, l2) => return extract(*x, lo + l2, n),
        Node::ZExt(x) => {
            let x = *x;
            let wx = width(x);
            if lo >= wx {
                return konst(0, n);
            }
            if lo + n <= wx {
                return extract(x, lo, n);
            }
            return zext(extract(x, lo, wx - lo), n);
        }
        Node::SExt(x) => {
            let x = *x;
            let wx = width(x);
            if lo + n <= wx {
                return extract(x, lo, n);
            }
            if lo < wx {
                return sign_ext(extract(x, lo, wx - lo), n);
            }
            return sign_ext(extract(x, wx - 1, 1), n);
        }
        Node::Concat(h, l) => {
            let (h, l) = (*h, *l);
            let wl = width(l);
            if lo >= wl {
                return extract(h, lo - wl, n);
            }
            if lo + n <= wl {
                return extract(l, lo, n);
            }
            return concat(extract(h, 0, lo + n - wl), extract(l, lo, wl - lo));
        }
        Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
            let (x, y) = (*x, *y);
            return bin(*op, extract(x, lo, n), extract(y, lo, n));
        }
        Node::Not(x) => return not(extract(*x, lo, n)),
        Node::Ite(c, x, y) => {
            let (c, x, y) = (*c, *x, *y);
            return ite(c, extract(x, lo, n), extract(y, lo, n));
        }
        Node::Bin(op @ (Op::Add | Op::Mul), x, y) if lo == 0 => {
            let (x, y) = (*x, *y);
            let narrow = |e: Ex| match node(e) {
                Node::Const(_) => true,
                Node::ZExt(q) | Node::SExt(q) => width(*q) <= n,
                Node::Concat(_, l) => width(*l) >= n,
                _ => false,
            };
            if narrow(x) && narrow(y) {
                return bin(*op, extract(x, 0, n), extract(y, 0, n));
            }
        }
        Node::Table(t, i) => {
            let i = *i;
            let t2: Vec<Ex> = t.iter().map(|e| extract(*e, lo, n)).collect();
            return table(t2, i);
        }
        _ => {}
    }
    if lo > 0 || true {
        if umax(a) >> lo == 0 {
            return konst(0, n);
        }
    }
    intern(Node::Extract(a, lo), n)
}

pub fn zext(a: Ex, w: u32) -> Ex {
    let wa = width(a);
    if wa == w {
        return a;
    }
    match node(a) {
        Node::Const(c) => konst(*c, w),
        Node::ZExt(x) => zext(*x, w),
        Node::Extract(x, 0) if umax(*x) <= mask(wa) => {
            let x = *x;
            if width(x) >= w { extract(x, 0, w) } else { zext(x, w) }
        }
        _ => intern(Node::ZExt(a), w),
    }
}

pub fn sign_ext(a: Ex, w: u32) -> Ex {
    let wa = width(a);
    if wa == w {
        return a;
    }
    match node(a) {
        Node::Const(c) => konst(sext(*c, wa) as u128, w),
        Node::SExt(x) => sign_ext(*x, w),
        Node::ZExt(x) => zext(*x, w),
        _ => {
            if umax(a) <= mask(wa) >> 1 {
                return zext(a, w);
            }
            if wa == 1 {
                return ite(a, konst(mask(w), w), konst(0, w));
            }
            intern(Node::SExt(a), w)
        }
    }
}

pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex {
    if let Some(&r) = ar().memo_ite.get(&(c, a, b)) {
        return r;
    }
    let r = ite_(c, a, b);
    ar().memo_ite.insert((c, a, b), r);
    r
}
fn ite_(c: Ex, a: Ex, b: Ex) -> Ex {
    if a == b {
        return a;
    }
    let w = width(a);
    match node(c) {
        Node::Const(0) => return b,
        Node::Const(_) => return a,
        Node::Not(x) => {
            let x = *x;
            return ite(x, b, a);
        }
        _ => {}
    }
    if w == 1 {
        match (cval(a), cval(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(1)) => return bin(Op::Or, not(c), a),
            _ => {}
        }
    }
    // nested on same condition
    if let Node::Ite(c2, x, _) = node(a) {
        if *c2 == c {
            return ite(c, *x, b);
        }
    }
    if let Node::Ite(c2, _, y) = node(b) {
        if *c2 == c {
            return ite(c, a, *y);
        }
    }
    // ite(c1, ite(c2, p, q), q) = ite(c1 & c2, p, q)
    if let Node::Ite(c2, x, y) = node(a) {
        if *y == b {
            let (c2, x) = (*c2, *x);
            return ite(bin(Op::And, c, c2), x, b);
        }
    }
    if let Some(t) = chain_table(c, a, b) {
        return t;
    }
    // zext arms
    if let (Node::ZExt(x), Node::ZExt(y)) = (node(a), node(b)) {
        if width(*x) == width(*y) {
            let (x, y) = (*x, *y);
            return zext(ite(c, x, y), w);
        }
    }
    intern(Node::Ite(c, a, b), w)
}

/// ite(i==k1, c1, ite(i==k2, c2, .. d)) that covers the whole range of i is a table lookup
fn chain_table(c: Ex, a: Ex, b: Ex) -> Option<Ex> {
    let Node::Cmp(Cmp::Eq, i, k) = node(c) else { return None };
    let (i, k) = (*i, cval(*k)?);
    cval(a)?;
    let m = umax(i);
    if m > 300 || m < 2 {
        return None;
    }
    let mut t: Vec<Option<Ex>> = vec![None; m as usize + 1];
    t[k as usize] = Some(a);
    let mut n = 1;
    let mut e = b;
    loop {
        match node(e) {
            Node::Ite(c2, x, y) => {
                let Node::Cmp(Cmp::Eq, j, k2) = node(*c2) else { return None };
                if *j != i {
                    return None;
                }
                let k2 = cval(*k2)?;
                cval(*x)?;
                if t[k2 as usize].is_none() {
                    t[k2 as usize] = Some(*x);
                    n += 1;
                }
                e = *y;
            }
            Node::Const(_) => {
                if n < m as usize {
                    return None;
                }
                let t: Vec<Ex> = t.into_iter().map(|x| x.unwrap_or(e)).collect();
                return Some(table(t, i));
            }
            _ => return None,
        }
    }
}

pub fn table(t: Vec<Ex>, i: Ex) -> Ex {
    if let Some(c) = cval(i) {
        return t[(c as usize).min(t.len() - 1)];
    }
    if t.iter().all(|e| *e == t[0]) {
        return t[0];
    }
    let w = width(t[0]);
    if t.len() == 2 {
        return ite(cmp(Cmp::Eq, i, konst(0, width(i))), t[0], t[1]);
    }
    // identity table
    if width(i) <= w && t.iter().enumerate().all(|(k, e)| cval(*e) == Some(k as u128)) && umax(i) < t.len() as u128 {
        return zext(i, w);
    }
    intern(Node::Table(Rc::new(t), i), w)
}

fn smin_max(e: Ex) -> (i128, i128) {
    let w = width(e);
    let h = mask(w) >> 1;
    if umax(e) <= h {
        return (umin(e) as i128, umax(e) as i128);
    }
    if umin(e) > h {
        return (sext(umin(e), w), sext(umax(e), w));
    }
    match node(e) {
        Node::SExt(x) => smin_max(*x),
        Node::Ite(_, a, b) => {
            let (p, q) = smin_max(*a);
            let (r, s) = smin_max(*b);
            (p.min(r), q.max(s))
        }
        _ => (sext(h + 1, w), h as i128),
    }
}

pub fn cmp(c: Cmp, a: Ex, b: Ex) -> Ex {
    if let Some(&r) = ar().memo_cmp.get(&(c, a, b)) {
        return r;
    }
    let r = cmp_(c, a, b);
    ar().memo_cmp.insert((c, a, b), r);
    r
}
fn cmp_(c: Cmp, a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let t = || konst(1, 1);
    let f = || konst(0, 1);
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(fold_cmp(c, x, y, w) as u128, 1);
    }
    if a == b {
        return if matches!(c, Cmp::Eq | Cmp::Ule | Cmp::Sle) { t() } else { f() };
    }
    let m = mask(w);
    match c {
        Cmp::Eq => {
            if ca.is_some() || (cb.is_none() && a > b) {
                return cmp(Cmp::Eq, b, a);
            }
            if umax(a) < umin(b) || umax(b) < umin(a) {
                return f();
            }
            if w == 1 {
                return match cb {
                    Some(1) => a,
                    Some(_) => not(a),
                    None => not(bin(Op::Xor, a, b)),
                };
            }
            if let Some(k) = cb {
                if tz(a) > 0 && k & mask(tz(a)) != 0 {
                    return f();
                }
                match node(a) {
                    Node::ZExt(x) => {
                        let x = *x;
                        let wx = width(x);
                        return if k > mask(wx) { f() } else { cmp(Cmp::Eq, x, konst(k, wx)) };
                    }
                    Node::SExt(x) => {
                        let x = *x;
                        let wx = width(x);
                        return if sext(k & mask(wx), wx) as u128 & m != k {
                            f()
                        } else {
                            cmp(Cmp::Eq, x, konst(k, wx))
                        };
                    }
                    Node::Concat(h, l) => {
                        let (h, l) = (*h, *l);
                        let wl = width(l);
                        return bin(
                            Op::And,
                            cmp(Cmp::Eq, l, konst(k, wl)),
                            cmp(Cmp::Eq, h, konst(k >> wl, width(h))),
                        );
                    }
                    Node::Ite(c2, x, y) => {
                        let (c2, x, y) = (*c2, *x, *y);
                        if cval(x).is_some() || cval(y).is_some() || matches!(node(x), Node::Ite(..)) || matches!(node(y), Node::Ite(..)) {
                            return ite(c2, cmp(Cmp::Eq, x, b), cmp(Cmp::Eq, y, b));
                        }
                    }
                    Node::Bin(Op::Add, x, y) => {
                        if let Some(d) = cval(*y) {
                            return cmp(Cmp::Eq, *x, konst(k.wrapping_sub(d), w));
                        }
                        // x - y == 0
                        if k == 0 {
                            if let Node::Bin(Op::Mul, p, q) = node(*y) {
                                if cval(*q) == Some(m) {
                                    return cmp(Cmp::Eq, *x, *p);
                                }
                            }
                            if let Node::Bin(Op::Mul, p, q) = node(*x) {
                                if cval(*q) == Some(m) {
                                    return cmp(Cmp::Eq, *y, *p);
                                }
                            }
                        }
                    }
                    Node::Bin(Op::Xor, x, y) => {
                        if k == 0 {
                            return cmp(Cmp::Eq, *x, *y);
                        }
                        if let Some(d) = cval(*y) {
                            return cmp(Cmp::Eq, *x, konst(k ^ d, w));
                        }
                    }
                    Node::Bin(Op::Mul, x, y) => {
                        // odd constants are invertible
                        if let Some(d) = cval(*y) {
                            if d & 1 == 1 {
                                let mut inv = 1u128;
                                for _ in 0..7 {
                                    inv = inv.wrapping_mul(2u128.wrapping_sub(d.wrapping_mul(inv)));
                                }
                                return cmp(Cmp::Eq, *x, konst(k.wrapping_mul(inv), w));
                            }
                        }
                    }
                    Node::Not(x) => return cmp(Cmp::Eq, *x, konst(!k, w)),
                    Node::Bin(Op::Or, x, y) if k == 0 => {
                        let (x, y) = (*x, *y);
                        return bin(Op::And, cmp(Cmp::Eq, x, b), cmp(Cmp::Eq, y, b));
                    }
                    Node::Table(t, i) => {
                        if t.iter().all(|e| cval(*e).is_some()) && t.len() <= 512 {
                            let hits: Vec<usize> =
                                (0..t.len()).filter(|j| cval(t[*j]) == Some(k)).collect();
                            if hits.is_empty() {
                                return f();
                            }
                            let wi = width(*i);
                            if hits.len() == 1 && umax(*i) < t.len() as u128 {
                                return cmp(Cmp::Eq, *i, konst(hits[0] as u128, wi));
                            }
                        }
                    }
                    _ => {}
                }
            } else {
                match (node(a), node(b)) {
                    (Node::ZExt(x), Node::ZExt(y)) | (Node::SExt(x), Node::SExt(y)) if width(*x) == width(*y) => {
                        return cmp(Cmp::Eq, *x, *y);
                    }
                    (Node::ZExt(x), Node::ZExt(y)) => {
                        let n = width(*x).max(width(*y));
                        return cmp(Cmp::Eq, zext(*x, n), zext(*y, n));
                    }
                    (Node::Concat(h1, l1), Node::Concat(h2, l2)) if width(*l1) == width(*l2) => {
                        let (h1, l1, h2, l2) = (*h1, *l1, *h2, *l2);
                        return bin(Op::And, cmp(Cmp::Eq, l1, l2), cmp(Cmp::Eq, h1, h2));
                    }
                    (Node::Bin(Op::Add, x, k1), Node::Bin(Op::Add, y, k2)) if cval(*k1).is_some() && k1 == k2 => {
                        return cmp(Cmp::Eq, *x, *y);
                    }
                    _ => {}
                }
            }
        }
        Cmp::Ult | Cmp::Ule => {
            if c == Cmp::Ult {
                if umax(a) < umin(b) {
                    return t();
                }
                if umin(a) >= umax(b) {
                    return f();
                }
                if let Some(k) = cb {
                    if k == 1 {
                        return cmp(Cmp::Eq, a, konst(0, w));
                    }
                }
            } else {
                if umax(a) <= umin(b) {
                    return t();
                }
                if umin(a) > umax(b) {
                    return f();
                }
                if cb == Some(0) {
                    return cmp(Cmp::Eq, a, b);
                }
                // x <= k  ==> x < k+1
                if let Some(k) = cb {
                    if k < m {
                        return cmp(Cmp::Ult, a, konst(k + 1, w));
                    }
                }
                // k <= x ==> k-1 < x
                if let Some(k) = ca {
                    if k > 0 {
                        return cmp(Cmp::Ult, konst(k - 1, w), b);
                    }
                }
            }
            match (node(a), node(b)) {
                (Node::ZExt(x), Node::ZExt(y)) => {
                    let n = width(*x).max(width(*y));
                    if n < w {
                        return cmp(c, zext(*x, n), zext(*y, n));
                    }
                }
                (Node::ZExt(x), Node::Const(k)) => {
                    let n = width(*x);
                    if *k <= mask(n) {
                        return cmp(c, *x, konst(*k, n));
                    }
                }
                (Node::Const(k), Node::ZExt(y)) => {
                    let n = width(*y);
                    if *k <= mask(n) {
                        return cmp(c, konst(*k, n), *y);
                    }
                }
                _ => {}
            }
            if let (Some(_), Node::Ite(q, x, y)) = (cb, node(a)) {
                if cval(*x).is_some() || cval(*y).is_some() {
                    let (q, x, y) = (*q, *x, *y);
                    return ite(q, cmp(c, x, b), cmp(c, y, b));
                }
            }
            if let (Some(_), Node::Ite(q, x, y)) = (ca, node(b)) {
                if cval(*x).is_some() || cval(*y).is_some() {
                    let (q, x, y) = (*q, *x, *y);
                    return ite(q, cmp(c, a, x), cmp(c, a, y));
                }
            }
        }
        Cmp::Slt | Cmp::Sle => {
            let (al, ah) = smin_max(a);
            let (bl, bh) = smin_max(b);
            if c == Cmp::Slt {
                if ah < bl {
                    return t();
                }
                if al >= bh {
                    return f();
                }
            } else {
                if ah <= bl {
                    return t();
                }
                if al > bh {
                    return f();
                }
            }
            let h = m >> 1;
            if umax(a) <= h && umax(b) <= h {
                return cmp(if c == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b);
            }
            if c == Cmp::Sle {
                if let Some(k) = cb {
                    if k != h {
                        return cmp(Cmp::Slt, a, konst(k.wrapping_add(1), w));
                    }
                }
                if let Some(k) = ca {
                    if k != h + 1 {
                        return cmp(Cmp::Slt, konst(k.wrapping_sub(1), w), b);
                    }
                }
            }
            match (node(a), node(b)) {
                (Node::SExt(x), Node::SExt(y)) => {
                    let n = width(*x).max(width(*y));
                    if n < w {
                        return cmp(c, sign_ext(*x, n), sign_ext(*y, n));
                    }
                }
                (Node::SExt(x), Node::Const(k)) => {
                    let n = width(*x);
                    if sext(k & mask(n), n) as u128 & m == *k {
                        return cmp(c, *x, konst(*k, n));
                    }
                }
                (Node::Const(k), Node::SExt(y)) => {
                    let n = width(*y);
                    if sext(k & mask(n), n) as u128 & m == *k {
                        return cmp(c, konst(*k, n), *y);
                    }
                }
                _ => {}
            }
            if let (Some(_), Node::Ite(q, x, y)) = (cb, node(a)) {
                if cval(*x).is_some() || cval(*y).is_some() {
                    let (q, x, y) = (*q, *x, *y);
                    return ite(q, cmp(c, x, b), cmp(c, y, b));
                }
            }
            if let (Some(_), Node::Ite(q, x, y)) = (ca, node(b)) {
                if cval(*x).is_some() || cval(*y).is_some() {
                    let (q, x, y) = (*q, *x, *y);
                    return ite(q, cmp(c, a, x), cmp(c, a, y));
                }
            }
        }
    }
    intern(Node::Cmp(c, a, b), 1)
}

pub fn fp(op: Fp, a: Ex, b: Ex, c: Ex, w: u32) -> Ex {
    intern(Node::Fp(op, a, b, c), w)
}

/// conjuncts of a boolean
pub fn conjuncts(e: Ex, out: &mut Vec<Ex>) {
    match node(e) {
        Node::Bin(Op::And, a, b) if width(e) == 1 => {
            let (a, b) = (*a, *b);
            conjuncts(a, out);
            conjuncts(b, out);
        }
        Node::Const(1) => {}
        _ => out.push(e),
    }
}

// ------------------------------------------------------------ evaluation

pub fn canon32(f: f32) -> u128 {
    if f.is_nan() { 0x7fc00000 } else { f.to_bits() as u128 }
}
pub fn canon64(f: f64) -> u128 {
    if f.is_nan() { 0x7ff8000000000000 } else { f.to_bits() as u128 }
}

pub fn eval_fp(op: Fp, a: u128, aw: u32, b: u128, c: u128, w: u32) -> u128 {
    let f64s = |x: u128| f64::from_bits(x as u64);
    let f32s = |x: u128| f32::from_bits(x as u32);
    macro_rules! ar2 {
        ($op:tt) => { if aw == 64 { canon64(f64s(a) $op f64s(b)) } else { canon32(f32s(a) $op f32s(b)) } };
    }
    macro_rules! un {
        ($m:ident) => { if aw == 64 { canon64(f64s(a).$m()) } else { canon32(f32s(a).$m()) } };
    }
    macro_rules! cm {
        ($op:tt) => { if aw == 64 { (f64s(a) $op f64s(b)) as u128 } else { (f32s(a) $op f32s(b)) as u128 } };
    }
    match op {
        Fp::Add => ar2!(+),
        Fp::Sub => ar2!(-),
        Fp::Mul => ar2!(*),
        Fp::Div => ar2!(/),
        Fp::Sqrt => un!(sqrt),
        Fp::Fma => {
            if aw == 64 {
                canon64(f64s(a).mul_add(f64s(b), f64s(c)))
            } else {
                canon32(f32s(a).mul_add(f32s(b), f32s(c)))
            }
        }
        Fp::Floor => un!(floor),
        Fp::Ceil => un!(ceil),
        Fp::Trunc => un!(trunc),
        Fp::RoundEven => un!(round_ties_even),
        Fp::Round => un!(round),
        Fp::Oeq => cm!(==),
        Fp::Olt => cm!(<),
        Fp::Ole => cm!(<=),
        Fp::Uno => {
            if aw == 64 {
                (f64s(a).is_nan() || f64s(b).is_nan()) as u128
            } else {
                (f32s(a).is_nan() || f32s(b).is_nan()) as u128
            }
        }
        // out of range conversions are undefined in the IR; callers guard them
        Fp::ToUi => {
            let x = if aw == 64 { f64s(a) as u128 } else { f32s(a) as u128 };
            x & mask(w)
        }
        Fp::ToSi => {
            let x = if aw == 64 { f64s(a) as i128 } else { f32s(a) as i128 };
            x as u128 & mask(w)
        }
        Fp::FromUi => {
            if w == 64 { canon64(a as f64) } else { canon32(a as f32) }
        }
        Fp::FromSi => {
            let s = sext(a, aw);
            if w == 64 { canon64(s as f64) } else { canon32(s as f32) }
        }
        Fp::Cvt => match (aw, w) {
            (32, 64) => canon64(f32s(a) as f64),
            (64, 32) => canon32(f64s(a) as f32),
            _ => panic!("UNSUPPORTED: fp conversion {aw} {w}"),
        },
    }
}

/// Evaluation under an assignment (missing variables are zero).
pub struct Eval<'a> {
    pub model: &'a HashMap<u32, u128>,
    pub memo: HashMap<Ex, u128>,
}
impl<'a> Eval<'a> {
    pub fn new(model: &'a HashMap<u32, u128>) -> Self {
        Eval { model, memo: HashMap::new() }
    }
    pub fn get(&mut self, e: Ex) -> u128 {
        match node(e) {
            Node::Const(c) => return *c,
            Node::Var(v) => return self.model.get(v).copied().unwrap_or(0),
            _ => {}
        }
        if let Some(&v) = self.memo.get(&e) {
            return v;
        }
        let w = width(e);
        let r = match node(e) {
            Node::Bin(op, a, b) => {
                let x = self.get(*a);
                let y = self.get(*b);
                fold(*op, x, y, w)
            }
            Node::Cmp(c, a, b) => {
                let x = self.get(*a);
                let y = self.get(*b);
                fold_cmp(*c, x, y, width(*a)) as u128
            }
            Node::Not(a) => !self.get(*a) & mask(w),
            Node::Ite(c, a, b) => {
                if self.get(*c) != 0 {
                    self.get(*a)
                } else {
                    self.get(*b)
                }
            }
            Node::Extract(a, lo) => (self.get(*a) >> lo) & mask(w),
            Node::ZExt(a) => self.get(*a),
            Node::SExt(a) => sext(self.get(*a), width(*a)) as u128 & mask(w),
            Node::Concat(a, b) => self.get(*a) << width(*b) | self.get(*b),
            Node::Table(t, i) => {
                let k = self.get(*i) as usize;
                let x = t[k.min(t.len() - 1)];
                self.get(x)
            }
            Node::Fp(op, a, b, c) => {
                let x = self.get(*a);
                let y = self.get(*b);
                let z = self.get(*c);
                eval_fp(*op, x, width(*a), y, z, w)
            }
            Node::Const(_) | Node::Var(_) => unreachable!(),
        };
        self.memo.insert(e, r);
        r
    }
}

pub fn show(e: Ex) -> String {
    fn go(e: Ex, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        match node(e) {
            Node::Const(c) => format!("{c}:{}", width(e)),
            Node::Var(v) => format!("v{v}:{}", width(e)),
            Node::Bin(o, a, b) => format!("({o:?} {} {})", go(*a, d - 1), go(*b, d - 1)),
            Node::Cmp(o, a, b) => format!("({o:?} {} {})", go(*a, d - 1), go(*b, d - 1)),
            Node::Not(a) => format!("!{}", go(*a, d - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", go(*c, d - 1), go(*a, d - 1), go(*b, d - 1)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", go(*a, d - 1), lo, width(e)),
            Node::ZExt(a) => format!("(z{} {})", width(e), go(*a, d - 1)),
            Node::SExt(a) => format!("(s{} {})", width(e), go(*a, d - 1)),
            Node::Concat(a, b) => format!("{{{} {}}}", go(*a, d - 1), go(*b, d - 1)),
            Node::Table(t, i) => format!("T{}[{}]", t.len(), go(*i, d - 1)),
            Node::Fp(o, a, b, _) => format!("(f{o:?} {} {})", go(*a, d - 1), go(*b, d - 1)),
        }
    }
    go(e, if std::env::var("SYMEX_SHOW").is_ok() { 40 } else { 8 })
}
