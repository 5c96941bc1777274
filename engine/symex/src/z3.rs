//! Minimal binding to the Z3 C API, and the translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString, c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[allow(non_snake_case)]
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_tactic_inc_ref(c: P, s: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, t: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, rm: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    bv: HashMap<Ex, P>,
    bo: HashMap<Ex, P>,
    fpc: HashMap<Ex, P>,
    has_fp: HashMap<Ex, bool>,
    qfbv: P,
    timeout_sym: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub time: f64,
    pub slowest: f64,
    pub timeout_ms: u32,
    pub tactic: P,
}

pub enum Res {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown(String),
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let t = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), t.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let q = CString::new("QF_BV").unwrap();
            let qfbv = Z3_mk_string_symbol(c, q.as_ptr());
            let s = CString::new("timeout").unwrap();
            let timeout_sym = Z3_mk_string_symbol(c, s.as_ptr());
            let t = CString::new("qffpbv").unwrap();
            let tactic = Z3_mk_tactic(c, t.as_ptr());
            Z3_tactic_inc_ref(c, tactic);
            Z3 {
                c,
                bv: HashMap::new(),
                bo: HashMap::new(),
                fpc: HashMap::new(),
                has_fp: HashMap::new(),
                qfbv,
                timeout_sym,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                fallback: 0,
                time: 0.0,
                slowest: 0.0,
                timeout_ms: 60000,
                tactic,
            }
        }
    }

    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
        }
    }

    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        p
    }

    fn uses_fp(&mut self, e: Ex) -> bool {
        if let Some(&b) = self.has_fp.get(&e) {
            return b;
        }
        let r = match node(e) {
            Node::Const(_) | Node::Var(_) => false,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                self.uses_fp(*a) || self.uses_fp(*b)
            }
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => self.uses_fp(*a),
            Node::Ite(a, b, c) => self.uses_fp(*a) || self.uses_fp(*b) || self.uses_fp(*c),
            Node::Table(t, i) => self.uses_fp(*i) || t.iter().any(|x| self.uses_fp(*x)),
            Node::Fp(..) => true,
        };
        self.has_fp.insert(e, r);
        r
    }

    pub fn boolean(&mut self, e: Ex) -> P {
        debug_assert_eq!(width(e), 1);
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let c = self.c;
        let p = unsafe {
            match node(e) {
                Node::Const(0) => Z3_mk_false(c),
                Node::Const(_) => Z3_mk_true(c),
                Node::Not(a) => Z3_mk_not(c, self.boolean(*a)),
                Node::Bin(Op::And, a, b) => {
                    let v = [self.boolean(*a), self.boolean(*b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Node::Bin(Op::Or, a, b) => {
                    let v = [self.boolean(*a), self.boolean(*b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Node::Bin(Op::Xor, a, b) => Z3_mk_xor(c, self.boolean(*a), self.boolean(*b)),
                Node::Ite(q, a, b) => {
                    let (q, a, b) = (self.boolean(*q), self.boolean(*a), self.boolean(*b));
                    Z3_mk_ite(c, q, a, b)
                }
                Node::Cmp(op, a, b) => {
                    let x = self.bits(*a);
                    let y = self.bits(*b);
                    match op {
                        Cmp::Eq => Z3_mk_eq(c, x, y),
                        Cmp::Ult => Z3_mk_bvult(c, x, y),
                        Cmp::Ule => Z3_mk_bvule(c, x, y),
                        Cmp::Slt => Z3_mk_bvslt(c, x, y),
                        Cmp::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                Node::Fp(op @ (Fp::Oeq | Fp::Olt | Fp::Ole | Fp::Uno), a, b, _) => {
                    let x = self.float(*a);
                    let y = self.float(*b);
                    match op {
                        Fp::Oeq => Z3_mk_fpa_eq(c, x, y),
                        Fp::Olt => Z3_mk_fpa_lt(c, x, y),
                        Fp::Ole => Z3_mk_fpa_leq(c, x, y),
                        _ => {
                            let v = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                    }
                }
                _ => {
                    let b = self.bits_raw(e);
                    Z3_mk_eq(c, b, self.num(1, 1))
                }
            }
        };
        let p = self.keep(p);
        self.bo.insert(e, p);
        p
    }

    fn is_boolish(e: Ex) -> bool {
        width(e) == 1
            && match node(e) {
                Node::Cmp(..) | Node::Not(_) | Node::Bin(..) | Node::Ite(..) => true,
                Node::Fp(op, ..) => matches!(op, Fp::Oeq | Fp::Olt | Fp::Ole | Fp::Uno),
                _ => false,
            }
    }

    pub fn bits(&mut self, e: Ex) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let p = if Self::is_boolish(e) {
            let b = self.boolean(e);
            unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) }
        } else {
            self.bits_raw(e)
        };
        let p = self.keep(p);
        self.bv.insert(e, p);
        p
    }

    fn sort_fp(&self, w: u32) -> P {
        unsafe {
            match w {
                64 => Z3_mk_fpa_sort_double(self.c),
                32 => Z3_mk_fpa_sort_single(self.c),
                _ => panic!("UNSUPPORTED: float width {w}"),
            }
        }
    }

    /// the floating-point term of a bit pattern
    fn float(&mut self, e: Ex) -> P {
        if let Some(&p) = self.fpc.get(&e) {
            return p;
        }
        let c = self.c;
        let w = width(e);
        let p = unsafe {
            match node(e) {
                Node::Fp(op, a, b, d) => {
                    let rne = Z3_mk_fpa_rne(c);
                    match op {
                        Fp::Add => Z3_mk_fpa_add(c, rne, self.float(*a), self.float(*b)),
                        Fp::Sub => Z3_mk_fpa_sub(c, rne, self.float(*a), self.float(*b)),
                        Fp::Mul => Z3_mk_fpa_mul(c, rne, self.float(*a), self.float(*b)),
                        Fp::Div => Z3_mk_fpa_div(c, rne, self.float(*a), self.float(*b)),
                        Fp::Fma => Z3_mk_fpa_fma(c, rne, self.float(*a), self.float(*b), self.float(*d)),
                        Fp::Sqrt => Z3_mk_fpa_sqrt(c, rne, self.float(*a)),
                        Fp::Floor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), self.float(*a)),
                        Fp::Ceil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), self.float(*a)),
                        Fp::Trunc => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), self.float(*a)),
                        Fp::RoundEven => Z3_mk_fpa_round_to_integral(c, rne, self.float(*a)),
                        Fp::Round => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), self.float(*a)),
                        Fp::FromUi => Z3_mk_fpa_to_fp_unsigned(c, rne, self.bits(*a), self.sort_fp(w)),
                        Fp::FromSi => Z3_mk_fpa_to_fp_signed(c, rne, self.bits(*a), self.sort_fp(w)),
                        Fp::Cvt => Z3_mk_fpa_to_fp_float(c, rne, self.float(*a), self.sort_fp(w)),
                        _ => Z3_mk_fpa_to_fp_bv(c, self.bits(e), self.sort_fp(w)),
                    }
                }
                Node::Ite(q, a, b) => {
                    let (q, a, b) = (self.boolean(*q), self.float(*a), self.float(*b));
                    Z3_mk_ite(c, q, a, b)
                }
                _ => Z3_mk_fpa_to_fp_bv(c, self.bits(e), self.sort_fp(w)),
            }
        };
        let p = self.keep(p);
        self.fpc.insert(e, p);
        p
    }

    fn bits_raw(&mut self, e: Ex) -> P {
        let c = self.c;
        let w = width(e);
        unsafe {
            match node(e) {
                Node::Const(v) => self.num(*v, w),
                Node::Var(v) => {
                    let s = CString::new(format!("v{v}")).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                Node::Bin(op, a, b) => {
                    let x = self.bits(*a);
                    if *op == Op::Mul && cval(*b) == Some(mask(w)) {
                        return Z3_mk_bvneg(c, x);
                    }
                    let y = self.bits(*b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Node::Not(a) => Z3_mk_bvnot(c, self.bits(*a)),
                Node::Ite(q, a, b) => {
                    let (q, a, b) = (self.boolean(*q), self.bits(*a), self.bits(*b));
                    Z3_mk_ite(c, q, a, b)
                }
                Node::Extract(a, lo) => Z3_mk_extract(c, lo + w - 1, *lo, self.bits(*a)),
                Node::ZExt(a) => Z3_mk_zero_ext(c, w - width(*a), self.bits(*a)),
                Node::SExt(a) => Z3_mk_sign_ext(c, w - width(*a), self.bits(*a)),
                Node::Concat(a, b) => {
                    let (x, y) = (self.bits(*a), self.bits(*b));
                    Z3_mk_concat(c, x, y)
                }
                Node::Table(t, i) => {
                    let iw = width(*i);
                    let ib = self.bits(*i);
                    let mut bits: Vec<P> = vec![];
                    let need = (usize::BITS - (t.len() - 1).leading_zeros()).min(iw);
                    for k in 0..need {
                        let x = Z3_mk_extract(c, k, k, ib);
                        bits.push(Z3_mk_eq(c, x, self.num(1, 1)));
                    }
                    self.table_tree(t, &bits, need, 0)
                }
                Node::Fp(op, a, ..) => match op {
                    Fp::ToUi => {
                        let rtz = Z3_mk_fpa_rtz(c);
                        let x = self.float(*a);
                        Z3_mk_fpa_to_ubv(c, rtz, x, w)
                    }
                    Fp::ToSi => {
                        let rtz = Z3_mk_fpa_rtz(c);
                        let x = self.float(*a);
                        Z3_mk_fpa_to_sbv(c, rtz, x, w)
                    }
                    _ => {
                        let x = self.float(e);
                        let nan = if w == 64 { 0x7ff8000000000000u128 } else { 0x7fc00000 };
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), self.num(nan, w), Z3_mk_fpa_to_ieee_bv(c, x))
                    }
                },
                Node::Cmp(..) => {
                    let b = self.boolean(e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
            }
        }
    }

    fn table_tree(&mut self, t: &[Ex], bits: &[P], k: u32, base: usize) -> P {
        if k == 0 || base + 1 >= t.len() && base >= t.len() - 1 {
            return self.bits(t[base.min(t.len() - 1)]);
        }
        let n = 1usize << k;
        // all equal?
        let hi = (base + n).min(t.len());
        if t[base..hi].iter().all(|x| *x == t[base]) {
            return self.bits(t[base]);
        }
        let half = n / 2;
        let lo = self.table_tree(t, bits, k - 1, base);
        let hi = self.table_tree(t, bits, k - 1, base + half);
        unsafe { Z3_mk_ite(self.c, bits[k as usize - 1], hi, lo) }
    }

    pub fn check(&mut self, cs: &[Ex], goal: &[Ex], dump: Option<&str>) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let fp = cs.iter().any(|e| self.uses_fp(*e));
        let ts: Vec<P> = cs.iter().map(|e| self.boolean(*e)).collect();
        unsafe {
            let s = if fp {
                Z3_mk_solver_from_tactic(self.c, self.tactic)
            } else {
                Z3_mk_solver_for_logic(self.c, self.qfbv)
            };
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, self.timeout_sym, if fp { self.timeout_ms } else { self.timeout_ms.min(2000) });
            Z3_solver_set_params(self.c, s, p);
            for t in &ts {
                Z3_solver_assert(self.c, s, *t);
            }
            if let Some(d) = dump {
                let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(d, format!("{txt}\n(check-sat)\n"));
            }
            let r = Z3_solver_check(self.c, s);
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = HashMap::new();
                    let mut vs: Vec<u32> = vec![];
                    for e in cs {
                        vs.extend(vars(*e).iter());
                    }
                    vs.sort();
                    vs.dedup();
                    for v in vs {
                        let w = ar().var_width[v as usize];
                        let s = CString::new(format!("v{v}")).unwrap();
                        let t = Z3_mk_const(
                            self.c,
                            Z3_mk_string_symbol(self.c, s.as_ptr()),
                            Z3_mk_bv_sort(self.c, w),
                        );
                        let mut val: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, t, true, &mut val) {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, val));
                            out.insert(v, s.to_str().unwrap().parse::<u128>().unwrap());
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                    self.fallback += 1;
                    let r = if fp { None } else { fallback(&txt, self.timeout_ms as u64, cs, goal) };
                    match r {
                        Some(Res::Sat(m)) => {
                            self.sat += 1;
                            Res::Sat(m)
                        }
                        Some(Res::Unsat) => {
                            self.unsat += 1;
                            Res::Unsat
                        }
                        _ => {
                            self.unknown += 1;
                            Res::Unknown(txt)
                        }
                    }
                }
            };
            Z3_solver_dec_ref(self.c, s);
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.slowest {
                self.slowest = dt;
            }
            res
        }
    }
}

/// Other solvers on the same formula, and on its integer lowering, when Z3 gives up.
static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn fallback(txt: &str, ms: u64, cs: &[Ex], goal: &[Ex]) -> Option<Res> {
    use std::process::{Command, Stdio};
    let mut vs: Vec<u32> = vec![];
    for e in cs {
        vs.extend(vars(*e).iter());
    }
    vs.sort();
    vs.dedup();
    let dir = std::env::temp_dir();
    let pid = std::process::id();
    let get = if vs.is_empty() {
        String::new()
    } else {
        format!("(get-value ({}))\n", vs.iter().map(|v| format!("v{v}")).collect::<Vec<_>>().join(" "))
    };
    let lim = format!("--tlimit={ms}");
    let tz = format!("-T:{}", ms / 1000 + 1);
    let bv = dir.join(format!("symex-{pid}.smt2"));
    let seq = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let int = dir.join(format!("symex-{pid}-{seq}-int.smt2"));
    std::fs::write(&bv, format!("(set-option :produce-models true)\n(set-logic ALL)\n{txt}\n(check-sat)\n{get}")).ok()?;
    // (solver, arguments, formula, a sat answer counts)
    let mut runs: Vec<(&str, Vec<&str>, &std::path::Path, bool)> =
        vec![("cvc5", vec![lim.as_str()], &bv, true), ("z3-new", vec![tz.as_str()], &bv, true)];
    let alone = dir.join(format!("symex-{pid}-{seq}-goal.smt2"));
    if let Some(t) = crate::intsmt::lower(cs) {
        // variables that dropped out of the lowering still need a value
        let mut decl = String::new();
        for v in &vs {
            if !t.contains(&format!("(declare-const v{v} Int)")) {
                decl.push_str(&format!("(declare-const v{v} Int)\n"));
            }
        }
        std::fs::write(&int, format!("(set-option :produce-models true)\n(set-logic ALL)\n{decl}{t}\n(check-sat)\n{get}")).ok()?;
        runs.push(("z3-new", vec![tz.as_str()], &int, true));
        runs.push(("cvc5", vec![lim.as_str()], &int, true));
        // the goal without the path condition may already be contradictory
        if cs.len() > goal.len() {
            if let Some(t) = crate::intsmt::lower(goal) {
                std::fs::write(&alone, format!("(set-logic ALL)\n{t}\n(check-sat)\n")).ok()?;
                runs.push(("cvc5", vec![lim.as_str()], &alone, false));
            }
        }
    } else {
        runs.push(("cvc5", vec!["--solve-bv-as-int=sum", lim.as_str()], &bv, true));
    }
    let mut kids = vec![];
    for (cmd, args, file, sat_ok) in &runs {
        if let Ok(k) = Command::new(cmd)
            .args(args)
            .arg(file)
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            kids.push((k, *sat_ok));
        }
    }
    let t0 = std::time::Instant::now();
    let mut ans = None;
    let mut nap = 2;
    while ans.is_none() && !kids.is_empty() && t0.elapsed().as_millis() < (ms + 2000) as u128 {
        let mut i = 0;
        while i < kids.len() {
            match kids[i].0.try_wait() {
                Ok(Some(_)) => {
                    let (k, sat_ok) = kids.remove(i);
                    let out = k.wait_with_output().ok()?;
                    let o = String::from_utf8_lossy(&out.stdout).into_owned();
                    if o.trim_start().starts_with("unsat") {
                        ans = Some(Res::Unsat);
                        break;
                    }
                    if sat_ok && o.trim_start().starts_with("sat") {
                        if let Some(m) = read_model(&o) {
                            ans = Some(Res::Sat(m));
                            break;
                        }
                    }
                }
                _ => i += 1,
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(nap));
        nap = (nap + 2).min(30);
    }
    for (mut k, _) in kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    if std::env::var("SYMEX_KEEP").is_err() {
        let _ = std::fs::remove_file(&bv);
        let _ = std::fs::remove_file(&int);
        let _ = std::fs::remove_file(&alone);
    }
    ans
}

/// `((v0 #x12) (v1 (- 5)) ...)`
fn read_model(o: &str) -> Option<HashMap<u32, u128>> {
    let mut m = HashMap::new();
    for part in o.split("(v").skip(1) {
        let mut it = part.splitn(2, ' ');
        let v: u32 = it.next()?.parse().ok()?;
        let val = it.next()?.trim();
        let w = ar().var_width[v as usize];
        let x = if let Some(b) = val.strip_prefix("#b") {
            u128::from_str_radix(b.trim_end_matches(|c: char| c == ')' || c.is_whitespace()), 2).ok()?
        } else if let Some(b) = val.strip_prefix("#x") {
            u128::from_str_radix(b.trim_end_matches(|c: char| c == ')' || c.is_whitespace()), 16).ok()?
        } else {
            let neg = val.starts_with("(-");
            let d: String = val.chars().filter(|c| c.is_ascii_digit()).collect();
            let x: u128 = d.parse().ok()?;
            if neg { x.wrapping_neg() } else { x }
        };
        m.insert(v, x & mask(w));
    }
    Some(m)
}
