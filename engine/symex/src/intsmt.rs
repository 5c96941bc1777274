//! The same formula over the integers: an exact lowering of bit-vector terms that
//! keeps a signed interval per term and reduces modulo 2^w only where needed.
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write;

type Iv = Option<(i128, i128)>;

#[derive(Clone)]
struct T {
    s: String,
    iv: Iv,
}

pub struct Lower {
    out: String,
    memo: HashMap<Ex, T>,
    memo_b: HashMap<Ex, String>,
    n: u32,
    vars: HashMap<u32, (String, i128, i128)>,
    signed: HashMap<u32, bool>,
    bounds: HashMap<u32, (i128, i128)>,
    /// constant divisors per dividend
    divs_of: HashMap<Ex, Vec<u128>>,
    div_memo: HashMap<(Ex, u128), T>,
}

fn p2s(k: u32) -> String {
    if k >= 128 {
        "340282366920938463463374607431768211456".into()
    } else {
        (1u128 << k).to_string()
    }
}
fn num(v: i128) -> String {
    if v < 0 { format!("(- {})", v.unsigned_abs()) } else { v.to_string() }
}
fn p2(k: u32) -> Option<i128> {
    if k < 127 { Some(1i128 << k) } else { None }
}

type R<X> = Option<X>;

impl Lower {
    fn def(&mut self, s: String, iv: Iv) -> T {
        if s.len() < 12 {
            return T { s, iv };
        }
        if let Some((a, b)) = iv {
            if a == b {
                return T { s: num(a), iv };
            }
        }
        self.n += 1;
        let name = format!("t{}", self.n);
        let _ = writeln!(self.out, "(define-fun {name} () Int {s})");
        T { s: name, iv }
    }
    fn defb(&mut self, s: String) -> String {
        if s.len() < 12 {
            return s;
        }
        self.n += 1;
        let name = format!("b{}", self.n);
        let _ = writeln!(self.out, "(define-fun {name} () Bool {s})");
        name
    }
    /// canonical unsigned representative
    fn u(&mut self, e: Ex) -> R<T> {
        let t = self.t(e)?;
        let w = width(e);
        let (lo, hi) = (umin(e), umax(e));
        let cap = |t: T| -> T {
            // intersect with what is known of the unsigned value
            if hi <= i128::MAX as u128 {
                let (mut a, mut b) = (lo as i128, hi as i128);
                if let Some((x, y)) = t.iv {
                    if x >= 0 {
                        a = a.max(x);
                        b = b.min(y);
                    }
                }
                T { s: t.s, iv: Some((a, b)) }
            } else {
                t
            }
        };
        if let (Some((a, b)), Some(m)) = (t.iv, p2(w)) {
            if a >= 0 && b < m {
                return Some(cap(t));
            }
            if a >= -m && b < m {
                let s = format!("(ite (< {0} 0) (+ {0} {m}) {0})", t.s);
                let r = self.def(s, Some((0, m - 1)));
                return Some(cap(r));
            }
        }
        let s = format!("(mod {} {})", t.s, p2s(w));
        let iv = p2(w).map(|m| (0, m - 1));
        let r = self.def(s, iv);
        Some(cap(r))
    }
    /// canonical signed representative
    fn s(&mut self, e: Ex) -> R<T> {
        let t = self.t(e)?;
        let w = width(e);
        if w > 127 {
            if let Some((a, b)) = t.iv {
                let _ = (a, b);
                return Some(t);
            }
            let u = self.u(e)?;
            let s = format!("(ite (>= {0} {1}) (- {0} {2}) {0})", u.s, p2s(w - 1), p2s(w));
            return Some(self.def(s, Some((i128::MIN, i128::MAX))));
        }
        let h = 1i128 << (w - 1);
        if let Some((a, b)) = t.iv {
            if a >= -h && b < h {
                return Some(t);
            }
            if let Some(m) = p2(w) {
                if a >= -h && b < h.saturating_add(m) {
                    let s = format!("(ite (>= {0} {h}) (- {0} {m}) {0})", t.s);
                    let lo = if a >= 0 && b >= h { if a >= h { a - m } else { -h } } else { -h };
                    return Some(self.def(s, Some((lo, h - 1))));
                }
                if b < h && a >= (-h).saturating_sub(m) {
                    let s = format!("(ite (< {0} (- {h})) (+ {0} {m}) {0})", t.s);
                    return Some(self.def(s, Some((-h, h - 1))));
                }
            }
        }
        let s = format!("(- (mod (+ {} {h}) {}) {h})", t.s, p2s(w));
        Some(self.def(s, Some((-h, h - 1))))
    }
    fn b(&mut self, e: Ex) -> R<String> {
        debug_assert!(width(e) == 1);
        if let Some(s) = self.memo_b.get(&e) {
            return Some(s.clone());
        }
        let r = match node(e).clone() {
            Node::Const(c) => if c != 0 { "true".to_string() } else { "false".to_string() },
            Node::Not(a) => format!("(not {})", self.b(a)?),
            Node::Bin(op, a, b) => {
                let (x, y) = (self.b(a)?, self.b(b)?);
                match op {
                    Op::And | Op::Mul => format!("(and {x} {y})"),
                    Op::Or => format!("(or {x} {y})"),
                    Op::Xor | Op::Add => format!("(xor {x} {y})"),
                    _ => return None,
                }
            }
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.b(c)?, self.b(a)?, self.b(b)?),
            Node::Cmp(c, a, b) => {
                if width(a) == 1 && c == Cmp::Eq {
                    format!("(= {} {})", self.b(a)?, self.b(b)?)
                } else {
                    match c {
                        Cmp::Eq => {
                            let (x, y) = (self.t(a)?, self.t(b)?);
                            let w = width(a);
                            let fits = |iv: Iv, lo: i128, hi: i128| iv.is_some_and(|(p, q)| p >= lo && q <= hi);
                            let (mut l, mut h) = (0i128, 0i128);
                            let mut ok = false;
                            if let (Some((a1, b1)), Some((a2, b2))) = (x.iv, y.iv) {
                                l = a1.min(a2);
                                h = b1.max(b2);
                                if let (Some(m), Some(d)) = (p2(w), h.checked_sub(l)) {
                                    ok = d < m;
                                }
                            }
                            let _ = fits;
                            let _ = (l, h);
                            if ok {
                                format!("(= {} {})", x.s, y.s)
                            } else {
                                let (x, y) = (self.u(a)?, self.u(b)?);
                                format!("(= {} {})", x.s, y.s)
                            }
                        }
                        Cmp::Ult | Cmp::Ule => {
                            let (x, y) = (self.u(a)?, self.u(b)?);
                            format!("({} {} {})", if c == Cmp::Ult { "<" } else { "<=" }, x.s, y.s)
                        }
                        Cmp::Slt | Cmp::Sle => {
                            let (x, y) = (self.s(a)?, self.s(b)?);
                            format!("({} {} {})", if c == Cmp::Slt { "<" } else { "<=" }, x.s, y.s)
                        }
                    }
                }
            }
            Node::Fp(..) => return None,
            _ => {
                let t = self.u(e)?;
                format!("(= {} 1)", t.s)
            }
        };
        let r = self.defb(r);
        self.memo_b.insert(e, r.clone());
        Some(r)
    }
    fn and_const(&mut self, x: &T, c: u128, w: u32) -> T {
        // sum over runs of ones
        let mut parts = vec![];
        let mut i = 0;
        let mut hi = 0i128;
        while i < w {
            if c >> i & 1 == 0 {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < w && c >> j & 1 == 1 {
                j += 1;
            }
            let len = j - i;
            let d = if i == 0 { x.s.clone() } else { format!("(div {} {})", x.s, p2s(i)) };
            let m = format!("(mod {d} {})", p2s(len));
            parts.push(if i == 0 { m } else { format!("(* {m} {})", p2s(i)) });
            if j < 127 {
                hi += ((1i128 << len) - 1) << i;
            } else {
                hi = i128::MAX;
            }
            i = j;
        }
        if parts.is_empty() {
            return T { s: "0".into(), iv: Some((0, 0)) };
        }
        let s = if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) };
        self.def(s, if hi == i128::MAX { None } else { Some((0, hi)) })
    }
    fn divs(&mut self, e: Ex, a: Ex, b: Ex, rem: bool) -> R<T> {
        let x = self.s(a)?;
        let w = width(e);
        if let Some(c) = cval(b) {
            let c = sext(c, w);
            if c == 0 || c == i128::MIN {
                return None;
            }
            let k = c.unsigned_abs() as i128;
            let op = if rem { "mod" } else { "div" };
            let (lo, hi) = x.iv?;
            let pos = format!("({op} {} {k})", x.s);
            let neg = format!("(- ({op} (- {}) {k}))", x.s);
            let s = if lo >= 0 {
                pos
            } else if hi < 0 {
                neg
            } else {
                format!("(ite (>= {} 0) {pos} {neg})", x.s)
            };
            let iv = if rem {
                (if lo < 0 { lo.max(-(k - 1)) } else { 0 }, if hi < 0 { 0 } else { hi.min(k - 1) })
            } else {
                (lo / k, hi / k)
            };
            let r = self.def(s, Some(iv));
            return Some(if !rem && c < 0 {
                self.def(format!("(- {})", r.s), Some((-iv.1, -iv.0)))
            } else {
                r
            });
        }
        let y = self.s(b)?;
        let (xl, xh) = x.iv?;
        let m = xl.unsigned_abs().max(xh.unsigned_abs());
        if m > (1u128 << 126) {
            return None;
        }
        let m = m as i128;
        let ax = self.def(format!("(abs {})", x.s), Some((0, m)));
        let ay = self.def(format!("(abs {})", y.s), None);
        if rem {
            let q = format!("(mod {} {})", ax.s, ay.s);
            let s = format!("(ite (= {1} 0) {0} (ite (>= {0} 0) {q} (- {q})))", x.s, y.s);
            Some(self.def(s, Some((-m, m))))
        } else {
            let q = format!("(div {} {})", ax.s, ay.s);
            let s = format!(
                "(ite (= {1} 0) (ite (< {0} 0) 1 (- 1)) (ite (= (>= {0} 0) (> {1} 0)) {q} (- {q})))",
                x.s, y.s
            );
            Some(self.def(s, Some((-m - 1, m + 1))))
        }
    }
    /// x / c, through the largest proper divisor of c that also divides x elsewhere
    fn divc(&mut self, x: Ex, c: u128) -> R<T> {
        if let Some(t) = self.div_memo.get(&(x, c)) {
            return Some(t.clone());
        }
        let best = self.divs_of.get(&x).and_then(|v| v.iter().copied().filter(|d| *d > 1 && *d < c && c % *d == 0).max());
        let (num, k) = match best {
            Some(d) => (self.divc(x, d)?, c / d),
            None => (self.u(x)?, c),
        };
        let iv = if umax(x) <= i128::MAX as u128 { Some(((umin(x) / c) as i128, (umax(x) / c) as i128)) } else { None };
        let r = self.def(format!("(div {} {k})", num.s), iv);
        self.div_memo.insert((x, c), r.clone());
        Some(r)
    }
    fn t(&mut self, e: Ex) -> R<T> {
        if let Some(t) = self.memo.get(&e) {
            return Some(t.clone());
        }
        let w = width(e);
        let r = match node(e).clone() {
            Node::Const(c) => {
                let sv = sext(c, w);
                // small absolute value is best
                if w < 128 && (c as i128) >= 0 && (c as i128) <= sv.unsigned_abs() as i128 || w < 128 && sv >= 0 {
                    T { s: c.to_string(), iv: Some((c as i128, c as i128)) }
                } else {
                    T { s: num(sv), iv: Some((sv, sv)) }
                }
            }
            Node::Var(v) => {
                if w == 1 {
                    let h = "1";
                    let _ = h;
                }
                if w > 126 {
                    // unbounded representation: declare as unsigned
                    let name = format!("v{v}");
                    if !self.vars.contains_key(&v) {
                        let _ = writeln!(self.out, "(declare-const {name} Int)\n(assert (and (<= 0 {name}) (< {name} {})))", p2s(w));
                        self.vars.insert(v, (name.clone(), 0, 0));
                    }
                    T { s: name, iv: None }
                } else {
                    let name = format!("v{v}");
                    let (lo, hi) = match self.bounds.get(&v) {
                        Some(b) => *b,
                        None if self.signed.get(&v).copied().unwrap_or(false) && w > 1 => (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1),
                        None => (0, (1i128 << w) - 1),
                    };
                    if !self.vars.contains_key(&v) {
                        let _ = writeln!(self.out, "(declare-const {name} Int)\n(assert (and (<= {} {name}) (<= {name} {})))", num(lo), num(hi));
                        self.vars.insert(v, (name.clone(), lo, hi));
                    }
                    T { s: name, iv: Some((lo, hi)) }
                }
            }
            _ if w == 1 && !matches!(node(e), Node::Extract(..) | Node::Table(..)) => {
                let b = self.b(e)?;
                self.def(format!("(ite {b} 1 0)"), Some((0, 1)))
            }
            Node::Bin(op, a, b) => match op {
                Op::Add => {
                    let (x, y) = (self.t(a)?, self.t(b)?);
                    let iv = match (x.iv, y.iv) {
                        (Some((p, q)), Some((r, s))) => p.checked_add(r).zip(q.checked_add(s)),
                        _ => None,
                    };
                    self.def(format!("(+ {} {})", x.s, y.s), iv)
                }
                Op::Mul => {
                    let (mut x, mut y) = (self.t(a)?, self.t(b)?);
                    let prod = |x: &T, y: &T| -> Iv {
                        let ((p, q), (r, s)) = (x.iv?, y.iv?);
                        let v = [p.checked_mul(r)?, p.checked_mul(s)?, q.checked_mul(r)?, q.checked_mul(s)?];
                        Some((*v.iter().min().unwrap(), *v.iter().max().unwrap()))
                    };
                    let mut iv = prod(&x, &y);
                    if iv.is_none() {
                        x = self.s(a)?;
                        y = self.s(b)?;
                        iv = prod(&x, &y);
                    }
                    if iv.is_none() && cval(b) == Some(mask(w)) {
                        y = T { s: "(- 1)".into(), iv: Some((-1, -1)) };
                    }
                    self.def(format!("(* {} {})", x.s, y.s), iv)
                }
                Op::UDiv if cval(b).is_some_and(|c| c > 0) => self.divc(a, cval(b).unwrap())?,
                Op::UDiv => {
                    let (x, y) = (self.u(a)?, self.u(b)?);
                    let q = format!("(div {} {})", x.s, y.s);
                    let s = if umin(b) > 0 {
                        q
                    } else {
                        format!("(ite (= {} 0) (- {} 1) {q})", y.s, p2s(w))
                    };
                    let iv = if umax(e) <= i128::MAX as u128 { Some((umin(e) as i128, umax(e) as i128)) } else { None };
                    self.def(s, iv)
                }
                Op::URem => {
                    let y = self.u(b)?;
                    let x = match cval(b) {
                        // any representative will do modulo a power of two
                        Some(c) if c.is_power_of_two() => self.t(a)?,
                        _ => self.u(a)?,
                    };
                    let q = format!("(mod {} {})", x.s, y.s);
                    let s = if umin(b) > 0 { q } else { format!("(ite (= {} 0) {} {q})", y.s, x.s) };
                    let iv = if umax(e) <= i128::MAX as u128 { Some((umin(e) as i128, umax(e) as i128)) } else { None };
                    self.def(s, iv)
                }
                Op::SDiv => self.divs(e, a, b, false)?,
                Op::SRem => self.divs(e, a, b, true)?,
                Op::Shl => {
                    let c = cval(b)?;
                    if c >= w as u128 {
                        T { s: "0".into(), iv: Some((0, 0)) }
                    } else {
                        let x = self.t(a)?;
                        let k = c as u32;
                        let iv = match (x.iv, p2(k)) {
                            (Some((p, q)), Some(m)) => p.checked_mul(m).zip(q.checked_mul(m)),
                            _ => None,
                        };
                        self.def(format!("(* {} {})", x.s, p2s(k)), iv)
                    }
                }
                Op::LShr | Op::AShr => {
                    let c = cval(b)?;
                    let x = if op == Op::LShr { self.u(a)? } else { self.s(a)? };
                    let k = if op == Op::LShr {
                        if c >= w as u128 {
                            return Some(T { s: "0".into(), iv: Some((0, 0)) });
                        }
                        c as u32
                    } else {
                        (c.min(w as u128 - 1)) as u32
                    };
                    let iv = x.iv.map(|(p, q)| (p >> k.min(127), q >> k.min(127)));
                    self.def(format!("(div {} {})", x.s, p2s(k)), iv)
                }
                Op::And => {
                    if let Some(c) = cval(b) {
                        let x = self.t(a)?;
                        self.and_const(&x, c, w)
                    } else if let Some(c) = cval(a) {
                        let x = self.t(b)?;
                        self.and_const(&x, c, w)
                    } else {
                        return None;
                    }
                }
                Op::Or | Op::Xor => {
                    let bits = |x: Ex| 128 - umax(x).leading_zeros();
                    if tz(a) >= bits(b) || tz(b) >= bits(a) {
                        let (x, y) = (self.u(a)?, self.u(b)?);
                        let iv = match (x.iv, y.iv) {
                            (Some((p, q)), Some((r, s))) => p.checked_add(r).zip(q.checked_add(s)),
                            _ => None,
                        };
                        self.def(format!("(+ {} {})", x.s, y.s), iv)
                    } else {
                        let (x, c) = if let Some(c) = cval(b) {
                            (a, c)
                        } else if let Some(c) = cval(a) {
                            (b, c)
                        } else {
                            return None;
                        };
                        if op == Op::Xor && c == 1u128 << (w - 1) {
                            let x = self.t(x)?;
                            let m = p2(w - 1)?;
                            let iv = match x.iv {
                                Some((p, q)) => p.checked_add(m).zip(q.checked_add(m)),
                                None => None,
                            };
                            self.def(format!("(+ {} {m})", x.s), iv)
                        } else {
                            let x = self.u(x)?;
                            let an = self.and_const(&x, c, w);
                            let f = if op == Op::Or { 1 } else { 2 };
                            let iv = if umax(e) <= i128::MAX as u128 { Some((umin(e) as i128, umax(e) as i128)) } else { None };
                            self.def(format!("(- (+ {} {c}) (* {f} {}))", x.s, an.s), iv)
                        }
                    }
                }
            },
            Node::Not(a) => {
                let x = self.t(a)?;
                let iv = match x.iv {
                    Some((p, q)) => (-1i128).checked_sub(q).zip((-1i128).checked_sub(p)),
                    None => None,
                };
                self.def(format!("(- (- 1) {})", x.s), iv)
            }
            Node::Ite(c, a, b) => {
                let c = self.b(c)?;
                let (x, y) = (self.t(a)?, self.t(b)?);
                let iv = match (x.iv, y.iv) {
                    (Some((p, q)), Some((r, s))) => Some((p.min(r), q.max(s))),
                    _ => None,
                };
                self.def(format!("(ite {c} {} {})", x.s, y.s), iv)
            }
            Node::Extract(a, lo) => {
                let x = self.t(a)?;
                if lo == 0 {
                    x
                } else {
                    let iv = x.iv.map(|(p, q)| (p >> lo, q >> lo));
                    self.def(format!("(div {} {})", x.s, p2s(lo)), iv)
                }
            }
            Node::ZExt(a) => self.u(a)?,
            Node::SExt(a) => self.s(a)?,
            Node::Concat(a, b) => {
                let (x, y) = (self.t(a)?, self.u(b)?);
                let k = width(b);
                let iv = match (x.iv, y.iv, p2(k)) {
                    (Some((p, q)), Some((r, s)), Some(m)) => {
                        match (p.checked_mul(m), q.checked_mul(m)) {
                            (Some(p), Some(q)) => p.checked_add(r).zip(q.checked_add(s)),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                self.def(format!("(+ (* {} {}) {})", x.s, p2s(k), y.s), iv)
            }
            Node::Table(t, i) => {
                if t.len() > 300 {
                    return None;
                }
                let ix = self.u(i)?;
                let mut cur = self.t(*t.last()?)?;
                for k in (0..t.len() - 1).rev() {
                    let x = self.t(t[k])?;
                    let iv = match (x.iv, cur.iv) {
                        (Some((p, q)), Some((r, s))) => Some((p.min(r), q.max(s))),
                        _ => None,
                    };
                    if x.s != cur.s {
                        cur = self.def(format!("(ite (= {} {k}) {} {})", ix.s, x.s, cur.s), iv);
                    }
                }
                cur
            }
            Node::Cmp(..) | Node::Fp(..) => return None,
        };
        self.memo.insert(e, r.clone());
        Some(r)
    }
    fn scan_signed(&mut self, e: Ex, seen: &mut std::collections::HashSet<Ex>) {
        if !seen.insert(e) {
            return;
        }
        let mut mark = |x: Ex, me: &mut Self| {
            if let Node::Var(v) = node(x) {
                me.signed.insert(*v, true);
            }
        };
        match node(e).clone() {
            Node::Bin(op, a, b) => {
                if matches!(op, Op::SDiv | Op::SRem | Op::AShr) {
                    mark(a, self);
                    mark(b, self);
                }
                if op == Op::UDiv {
                    if let Some(c) = cval(b) {
                        if c > 0 {
                            self.divs_of.entry(a).or_default().push(c);
                        }
                    }
                }
                self.scan_signed(a, seen);
                self.scan_signed(b, seen);
            }
            Node::Cmp(c, a, b) => {
                if matches!(c, Cmp::Slt | Cmp::Sle) {
                    mark(a, self);
                    mark(b, self);
                }
                self.scan_signed(a, seen);
                self.scan_signed(b, seen);
            }
            Node::SExt(a) => {
                mark(a, self);
                self.scan_signed(a, seen)
            }
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) => self.scan_signed(a, seen),
            Node::Ite(a, b, c) => {
                self.scan_signed(a, seen);
                self.scan_signed(b, seen);
                self.scan_signed(c, seen);
            }
            Node::Concat(a, b) => {
                self.scan_signed(a, seen);
                self.scan_signed(b, seen);
            }
            Node::Table(t, i) => {
                for x in t.iter() {
                    self.scan_signed(*x, seen);
                }
                self.scan_signed(i, seen);
            }
            _ => {}
        }
    }
    fn top_bounds(&mut self, cs: &[Ex]) {
        // (signed lower, signed upper, unsigned lower, unsigned upper) from top-level facts
        let mut sb: HashMap<u32, (i128, i128)> = HashMap::new();
        let mut ub: HashMap<u32, (i128, i128)> = HashMap::new();
        let mut work: Vec<(Ex, bool)> = cs.iter().map(|c| (*c, true)).collect();
        while let Some((c, pos)) = work.pop() {
            match node(c).clone() {
                Node::Not(a) => work.push((a, !pos)),
                Node::Bin(Op::And, a, b) if pos => {
                    work.push((a, true));
                    work.push((b, true));
                }
                Node::Cmp(k, a, b) => {
                    let w = width(a);
                    if w < 2 || w > 126 {
                        continue;
                    }
                    let (sl, sh) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    let (ul, uh) = (0i128, (1i128 << w) - 1);
                    let mut upd = |v: u32, signed: bool, lo: i128, hi: i128| {
                        let (m, d) = if signed { (&mut sb, (sl, sh)) } else { (&mut ub, (ul, uh)) };
                        let e = m.entry(v).or_insert(d);
                        e.0 = e.0.max(lo);
                        e.1 = e.1.min(hi);
                    };
                    match (k, node(a).clone(), node(b).clone()) {
                        (Cmp::Slt, Node::Var(v), Node::Const(x)) => {
                            let x = sext(x, w);
                            if pos { upd(v, true, sl, x - 1) } else { upd(v, true, x, sh) }
                        }
                        (Cmp::Slt, Node::Const(x), Node::Var(v)) => {
                            let x = sext(x, w);
                            if pos { upd(v, true, x + 1, sh) } else { upd(v, true, sl, x) }
                        }
                        (Cmp::Sle, Node::Var(v), Node::Const(x)) => {
                            let x = sext(x, w);
                            if pos { upd(v, true, sl, x) } else { upd(v, true, x + 1, sh) }
                        }
                        (Cmp::Sle, Node::Const(x), Node::Var(v)) => {
                            let x = sext(x, w);
                            if pos { upd(v, true, x, sh) } else { upd(v, true, sl, x - 1) }
                        }
                        (Cmp::Ult, Node::Var(v), Node::Const(x)) => {
                            let x = x as i128;
                            if pos { upd(v, false, ul, x - 1) } else { upd(v, false, x, uh) }
                        }
                        (Cmp::Ult, Node::Const(x), Node::Var(v)) => {
                            let x = x as i128;
                            if pos { upd(v, false, x + 1, uh) } else { upd(v, false, ul, x) }
                        }
                        (Cmp::Ule, Node::Var(v), Node::Const(x)) => {
                            let x = x as i128;
                            if pos { upd(v, false, ul, x) } else { upd(v, false, x + 1, uh) }
                        }
                        (Cmp::Ule, Node::Const(x), Node::Var(v)) => {
                            let x = x as i128;
                            if pos { upd(v, false, x, uh) } else { upd(v, false, ul, x - 1) }
                        }
                        // range check by offset: v + k < n, i.e. v in [-k, n-k) as a signed number
                        (Cmp::Ult, Node::Bin(Op::Add, x, y), Node::Const(n)) if pos => {
                            if let (Node::Var(v), Some(kk)) = (node(x).clone(), cval(y)) {
                                let kk = sext(kk, w);
                                if n as i128 <= sh {
                                    let (lo, hi) = (-kk, n as i128 - 1 - kk);
                                    if lo >= sl && hi <= sh {
                                        upd(v, true, lo, hi);
                                    }
                                }
                            }
                        }
                        (Cmp::Ule, Node::Bin(Op::Add, x, y), Node::Const(n)) if pos => {
                            if let (Node::Var(v), Some(kk)) = (node(x).clone(), cval(y)) {
                                let kk = sext(kk, w);
                                if (n as i128) < sh {
                                    let (lo, hi) = (-kk, n as i128 - kk);
                                    if lo >= sl && hi <= sh {
                                        upd(v, true, lo, hi);
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        for (v, (lo, hi)) in sb {
            self.signed.insert(v, true);
            if lo <= hi {
                self.bounds.insert(v, (lo, hi));
            }
        }
        for (v, (lo, hi)) in ub {
            if lo > hi {
                continue;
            }
            match self.bounds.get(&v).copied() {
                None if !self.signed.get(&v).copied().unwrap_or(false) => {
                    self.bounds.insert(v, (lo, hi));
                }
                Some((a, b)) if a >= 0 => {
                    let (x, y) = (a.max(lo), b.min(hi));
                    if x <= y {
                        self.bounds.insert(v, (x, y));
                    }
                }
                _ => {
                    let w = ar().var_width[v as usize];
                    if hi < 1i128 << (w - 1) {
                        // non-negative either way
                        let e = self.bounds.entry(v).or_insert((lo, hi));
                        let (x, y) = (e.0.max(lo), e.1.min(hi));
                        if x <= y {
                            *e = (x, y);
                        }
                    }
                }
            }
        }
    }
}

/// SMT-LIB text over the integers, satisfiable exactly when `cs` is; None if out of reach.
pub fn lower(cs: &[Ex]) -> Option<String> {
    let mut l = Lower {
        out: String::new(),
        memo: HashMap::new(),
        memo_b: HashMap::new(),
        n: 0,
        vars: HashMap::new(),
        signed: HashMap::new(),
        bounds: HashMap::new(),
        divs_of: HashMap::new(),
        div_memo: HashMap::new(),
    };
    let mut seen = Default::default();
    for c in cs {
        l.scan_signed(*c, &mut seen);
    }
    l.top_bounds(cs);
    for c in cs {
        let b = l.b(*c)?;
        let _ = writeln!(l.out, "(assert {b})");
    }
    Some(l.out)
}
