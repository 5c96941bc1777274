//! Intrinsics, the allocator, libc pieces and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

fn lanes(ty: &Ty) -> Option<(usize, Ty)> {
    match ty {
        Ty::Vec(n, t) => Some((*n as usize, (**t).clone())),
        _ => None,
    }
}

impl Engine {
    pub fn fneg(&mut self, ty: &Ty, x: &V) -> R<V> {
        if let Some((n, t)) = lanes(ty) {
            let mut o = vec![];
            for i in 0..n {
                o.push(self.fneg(&t, &x.lane(i))?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let w = ty.bits();
        Ok(v_of(bin(Op::Xor, x.ex(w), konst(1u128 << (w - 1), w))))
    }

    pub fn minmax(&mut self, k: &str, a: &V, b: &V, w: u32) -> V {
        let (x, y) = (a.ex(w), b.ex(w));
        let c = match k {
            "umax" => cmp(Cmp::Ult, y, x),
            "umin" => cmp(Cmp::Ult, x, y),
            "smax" => cmp(Cmp::Slt, y, x),
            _ => cmp(Cmp::Slt, x, y),
        };
        v_of(ite(c, x, y))
    }

    fn overflow(&mut self, st: &mut State, k: &str, a: Ex, b: Ex, w: u32) -> R<(Ex, Ex)> {
        let _ = st;
        let signed = k.starts_with('s');
        let op = &k[1..4];
        let r = match op {
            "add" => bin(Op::Add, a, b),
            "sub" => sub(a, b),
            _ => bin(Op::Mul, a, b),
        };
        let sgn = |e: Ex| extract(e, w - 1, 1);
        let o = match (signed, op) {
            (false, "add") => {
                if umax(a).checked_add(umax(b)).is_some_and(|m| m <= mask(w)) {
                    konst(0, 1)
                } else if let Some(c) = cval(b) {
                    cmp(Cmp::Ult, konst(mask(w) - c, w), a)
                } else {
                    cmp(Cmp::Ult, r, a)
                }
            }
            (false, "sub") => cmp(Cmp::Ult, a, b),
            (true, "add") => {
                if let Some(c) = cval(b) {
                    let s = sext(c, w);
                    if s >= 0 {
                        cmp(Cmp::Slt, konst((mask(w) >> 1).wrapping_sub(c), w), a)
                    } else {
                        // a < MIN - s
                        cmp(Cmp::Slt, a, konst((1u128 << (w - 1)).wrapping_sub(c), w))
                    }
                } else {
                    // sign(a)==sign(b) and sign(r) differs
                    let (sa, sb, sr) = (sgn(a), sgn(b), sgn(r));
                    bin(Op::And, not(bin(Op::Xor, sa, sb)), bin(Op::Xor, sa, sr))
                }
            }
            (true, "sub") => {
                if let Some(c) = cval(b) {
                    let s = sext(c, w);
                    if s >= 0 {
                        cmp(Cmp::Slt, a, konst((1u128 << (w - 1)).wrapping_add(c), w))
                    } else {
                        cmp(Cmp::Slt, konst((mask(w) >> 1).wrapping_add(c), w), a)
                    }
                } else {
                    let (sa, sb, sr) = (sgn(a), sgn(b), sgn(r));
                    bin(Op::And, bin(Op::Xor, sa, sb), bin(Op::Xor, sa, sr))
                }
            }
            (false, _) => {
                let (a, b) = if cval(a).is_some() { (b, a) } else { (a, b) };
                if umax(a).checked_mul(umax(b)).is_some_and(|m| m <= mask(w)) {
                    konst(0, 1)
                } else if let Some(c) = cval(b) {
                    if c == 0 { konst(0, 1) } else { cmp(Cmp::Ult, konst(mask(w) / c, w), a) }
                } else if w <= 64 {
                    let p = bin(Op::Mul, zext(a, 2 * w), zext(b, 2 * w));
                    not(cmp(Cmp::Eq, extract(p, w, w), konst(0, w)))
                } else {
                    // b != 0 and r / b != a
                    let q = bin(Op::UDiv, r, b);
                    bin(Op::And, not(cmp(Cmp::Eq, b, konst(0, w))), not(cmp(Cmp::Eq, q, a)))
                }
            }
            (true, _) => {
                let (a, b) = if cval(a).is_some() { (b, a) } else { (a, b) };
                let min = 1u128 << (w - 1);
                if let Some(c) = cval(b) {
                    let s = sext(c, w);
                    let mx = (mask(w) >> 1) as i128;
                    let mn = sext(min, w);
                    if s == 0 || s == 1 {
                        konst(0, 1)
                    } else if s == -1 {
                        cmp(Cmp::Eq, a, konst(min, w))
                    } else {
                        let (lo, hi) = if s > 0 { (mn / s, mx / s) } else { (mx / s, mn / s) };
                        bin(
                            Op::Or,
                            cmp(Cmp::Slt, a, konst(lo as u128, w)),
                            cmp(Cmp::Slt, konst(hi as u128, w), a),
                        )
                    }
                } else if w <= 64 {
                    let p = bin(Op::Mul, sign_ext(a, 2 * w), sign_ext(b, 2 * w));
                    not(cmp(Cmp::Eq, p, sign_ext(r, 2 * w)))
                } else {
                    let h = mask(w) >> 1;
                    if umax(a) <= h && umax(b) <= h && umax(a).checked_mul(umax(b)).is_some_and(|m| m <= h) {
                        konst(0, 1)
                    } else if let (Node::SExt(x), Node::SExt(y)) = (node(a), node(b)) {
                        if width(*x) + width(*y) <= w {
                            return Ok((r, konst(0, 1)));
                        }
                        self.smul_wide(a, b, r, w)
                    } else {
                        self.smul_wide(a, b, r, w)
                    }
                }
            }
        };
        Ok((r, o))
    }
    fn smul_wide(&mut self, a: Ex, b: Ex, r: Ex, w: u32) -> Ex {
        let min = 1u128 << (w - 1);
        let q = bin(Op::SDiv, r, b);
        let nz = not(cmp(Cmp::Eq, b, konst(0, w)));
        let special = bin(
            Op::And,
            cmp(Cmp::Eq, b, konst(mask(w), w)),
            cmp(Cmp::Eq, a, konst(min, w)),
        );
        bin(Op::Or, special, bin(Op::And, nz, not(cmp(Cmp::Eq, q, a))))
    }

    /// one-operand or two-operand integer intrinsic on scalars
    fn int_intrin(&mut self, st: &mut State, k: &str, w: u32, a: &[V]) -> R<V> {
        let x = a[0].ex(w);
        Ok(match k {
            "umax" | "umin" | "smax" | "smin" => self.minmax(k, &a[0], &a[1], w),
            "abs" => v_of(ite(cmp(Cmp::Slt, x, konst(0, w)), neg(x), x)),
            "ctpop" => {
                if let Some(c) = cval(x) {
                    return Ok(V::C(c.count_ones() as u128));
                }
                let mut s = konst(0, w);
                for i in 0..w {
                    s = bin(Op::Add, s, zext(extract(x, i, 1), w));
                }
                v_of(s)
            }
            "ctlz" => {
                let mut r = konst(w as u128, w);
                for i in 0..w {
                    r = ite(extract(x, i, 1), konst((w - 1 - i) as u128, w), r);
                }
                v_of(r)
            }
            "cttz" => {
                let mut r = konst(w as u128, w);
                for i in (0..w).rev() {
                    r = ite(extract(x, i, 1), konst(i as u128, w), r);
                }
                v_of(r)
            }
            "bswap" => {
                let mut r = extract(x, w - 8, 8);
                for i in (0..w / 8 - 1).rev() {
                    r = concat(extract(x, i * 8, 8), r);
                }
                v_of(r)
            }
            "bitreverse" => {
                let mut r = extract(x, w - 1, 1);
                for i in (0..w - 1).rev() {
                    r = concat(extract(x, i, 1), r);
                }
                v_of(r)
            }
            "fshl" | "fshr" => {
                let y = a[1].ex(w);
                let s = a[2].ex(w);
                if let Some(c) = cval(s) {
                    let c = (c % w as u128) as u32;
                    let c = if k == "fshl" { c } else { (w - c) % w };
                    // fshl by c; fshr by 0 is y
                    if c == 0 {
                        return Ok(if k == "fshl" { v_of(x) } else { v_of(y) });
                    }
                    return Ok(v_of(concat(extract(x, 0, w - c), extract(y, w - c, c))));
                }
                let m = bin(Op::URem, s, konst(w as u128, w));
                let inv = sub(konst(w as u128, w), m);
                let z = cmp(Cmp::Eq, m, konst(0, w));
                if k == "fshl" {
                    v_of(ite(z, x, bin(Op::Or, bin(Op::Shl, x, m), bin(Op::LShr, y, inv))))
                } else {
                    v_of(ite(z, y, bin(Op::Or, bin(Op::Shl, x, inv), bin(Op::LShr, y, m))))
                }
            }
            "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                let y = a[1].ex(w);
                let (r, o) = self.overflow(st, k, x, y, w)?;
                let sat = match k {
                    "uadd.sat" => konst(mask(w), w),
                    "usub.sat" => konst(0, w),
                    _ => ite(cmp(Cmp::Slt, x, konst(0, w)), konst(1u128 << (w - 1), w), konst(mask(w) >> 1, w)),
                };
                v_of(ite(o, sat, r))
            }
            _ => return unsup(format!("integer intrinsic {k}")),
        })
    }

    fn fp_intrin(&mut self, k: &str, w: u32, a: &[V]) -> R<V> {
        let z = V::C(0);
        let one = |e: &mut Engine, f: Fp| e.fpop(f, &a[0], &z, &z, w, w);
        match k {
            "sqrt" => one(self, Fp::Sqrt),
            "floor" => one(self, Fp::Floor),
            "ceil" => one(self, Fp::Ceil),
            "trunc" => one(self, Fp::Trunc),
            "round" => one(self, Fp::Round),
            "roundeven" | "rint" | "nearbyint" => one(self, Fp::RoundEven),
            "fma" => self.fpop(Fp::Fma, &a[0], &a[1], &a[2], w, w),
            "fmuladd" => {
                let p = self.fpop(Fp::Mul, &a[0], &a[1], &z, w, w)?;
                self.fpop(Fp::Add, &p, &a[2], &z, w, w)
            }
            "fabs" => {
                let x = a[0].ex(w);
                Ok(v_of(zext(extract(x, 0, w - 1), w)))
            }
            "copysign" => {
                let x = a[0].ex(w);
                let y = a[1].ex(w);
                Ok(v_of(concat(extract(y, w - 1, 1), extract(x, 0, w - 1))))
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let na = self.fpop(Fp::Uno, &a[0], &a[0], &z, w, 1)?.ex(1);
                let nb = self.fpop(Fp::Uno, &a[1], &a[1], &z, w, 1)?.ex(1);
                let lt = if k.starts_with("min") {
                    self.fpop(Fp::Olt, &a[0], &a[1], &z, w, 1)?.ex(1)
                } else {
                    self.fpop(Fp::Olt, &a[1], &a[0], &z, w, 1)?.ex(1)
                };
                let (x, y) = (a[0].ex(w), a[1].ex(w));
                Ok(v_of(ite(na, y, ite(nb, x, ite(lt, x, y)))))
            }
            _ => {
                // transcendental: concrete only
                let mut c = vec![];
                for x in a {
                    let V::C(v) = x else { return unsup(format!("symbolic {k}")) };
                    c.push(if w == 64 { f64::from_bits(*v as u64) } else { f32::from_bits(*v as u32) as f64 });
                }
                let r = match k {
                    "pow" => c[0].powf(c[1]),
                    "exp" => c[0].exp(),
                    "exp2" => c[0].exp2(),
                    "log" => c[0].ln(),
                    "log2" => c[0].log2(),
                    "log10" => c[0].log10(),
                    "sin" => c[0].sin(),
                    "cos" => c[0].cos(),
                    "tan" => c[0].tan(),
                    _ => return unsup(format!("floating-point intrinsic {k}")),
                };
                Ok(V::C(if w == 64 { canon64(r) } else { canon32(r as f32) }))
            }
        }
    }

    fn lanewise<F: FnMut(&mut Engine, u32, &[V]) -> R<V>>(&mut self, ty: &Ty, a: &[V], mut f: F) -> R<V> {
        if let Some((n, t)) = lanes(ty) {
            let mut o = vec![];
            for i in 0..n {
                let l: Vec<V> = a
                    .iter()
                    .map(|x| match x {
                        V::A(v) => v[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                o.push(f(self, t.bits(), &l)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        f(self, ty.bits(), a)
    }

    fn fp_sat(&mut self, x: &V, fw: u32, tw: u32, signed: bool) -> R<V> {
        if let V::C(c) = x {
            let f = if fw == 64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 };
            let r = if signed {
                let lim = sext(mask(tw) >> 1, tw);
                (f as i128).clamp(-lim - 1, lim) as u128 & mask(tw)
            } else {
                (f as u128).min(mask(tw))
            };
            return Ok(V::C(r));
        }
        let z = V::C(0);
        let fbits = |v: f64| if fw == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
        let p2 = |e: i32| 2f64.powi(e);
        let nan = self.fpop(Fp::Uno, x, x, &z, fw, 1)?.ex(1);
        let (lo, hi, lov, hiv) = if signed {
            (-p2(tw as i32 - 1), p2(tw as i32 - 1), 1u128 << (tw - 1), mask(tw) >> 1)
        } else {
            (0.0, p2(tw as i32), 0, mask(tw))
        };
        let below = self.fpop(Fp::Ole, x, &V::C(fbits(lo)), &z, fw, 1)?.ex(1);
        let above = self.fpop(Fp::Ole, &V::C(fbits(hi)), x, &z, fw, 1)?.ex(1);
        let conv = self.fpop(if signed { Fp::ToSi } else { Fp::ToUi }, x, &z, &z, fw, tw)?.ex(tw);
        let r = ite(
            nan,
            konst(0, tw),
            ite(below, konst(lov, tw), ite(above, konst(hiv, tw), conv)),
        );
        Ok(v_of(r))
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.obj(st, s, n)?;
        let so = (s - o.base) as usize;
        let t = self.write(st, d, n)?;
        let to = (d - t.base) as usize;
        let n = n as usize;
        t.data[to..to + n].copy_from_slice(&o.data[so..so + n]);
        if !t.sym.is_empty() {
            let ks: Vec<u32> = t.sym.range(to as u32..(to + n) as u32).map(|(k, _)| *k).collect();
            for k in ks {
                t.sym.remove(&k);
            }
        }
        if !o.sym.is_empty() {
            for (k, e) in o.sym.range(so as u32..(so + n) as u32) {
                t.sym.insert((*k as usize - so + to) as u32, *e);
            }
        }
        Ok(())
    }

    fn memcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> R<V> {
        if n == 0 {
            return Ok(V::C(0));
        }
        let x = self.obj(st, a, n)?;
        let y = self.obj(st, b, n)?;
        let (xo, yo) = ((a - x.base) as usize, (b - y.base) as usize);
        let n = n as usize;
        if eq_only {
            let mut e = konst(1, 1);
            for k in 0..n {
                e = bin(Op::And, e, cmp(Cmp::Eq, x.byte(xo + k), y.byte(yo + k)));
            }
            return Ok(v_of(ite(e, konst(0, 32), konst(1, 32))));
        }
        let mut r = konst(0, 32);
        for k in (0..n).rev() {
            let (p, q) = (x.byte(xo + k), y.byte(yo + k));
            r = ite(
                cmp(Cmp::Eq, p, q),
                r,
                ite(cmp(Cmp::Ult, p, q), konst(0xffff_ffff, 32), konst(1, 32)),
            );
        }
        Ok(v_of(r))
    }

    fn c(&mut self, st: &mut State, v: &V) -> R<u64> {
        Ok(self.conc(st, v, 64)? as u64)
    }

    fn location(&mut self, st: &State, v: Option<&V>) -> String {
        let go = |e: &mut Engine| -> Option<String> {
            let V::C(p) = v? else { return None };
            let p = *p as u64;
            let o = e.obj(st, p, 24).ok()?;
            let b = (p - o.base) as usize;
            let fp = o.load(b, 8).ok()? as u64;
            let fl = o.load(b + 8, 8).ok()? as u64;
            let line = o.load(b + 16, 4).ok()?;
            if fl > 400 {
                return None;
            }
            let s = e.obj(st, fp, fl).ok()?;
            let so = (fp - s.base) as usize;
            let bytes = &s.data[so..so + fl as usize];
            let bytes = bytes.strip_suffix(b"\0").unwrap_or(bytes);
            Some(format!("{}:{}", String::from_utf8_lossy(bytes), line))
        };
        go(self).unwrap_or_default()
    }

    /// Returns None when the function is an ordinary one to be interpreted.
    pub fn builtin(&mut self, st: &mut State, name: &str, rty: &Ty, args: &[Arg], a: &[V]) -> R<Option<V>> {
        if let Some(k) = name.strip_prefix("llvm.") {
            return self.llvm(st, k, rty, args, a).map(Some);
        }
        if let Some(k) = name.strip_prefix("__sym_") {
            return Ok(Some(match k {
                "any" => {
                    let bits = self.c(st, &a[0])? as u32;
                    let n = st.inputs.len();
                    if let Some(cv) = &self.opts.concrete {
                        let v = cv.get(n).copied().unwrap_or(0) & mask(bits);
                        st.inputs.push((konst(v, bits), bits));
                        return Ok(Some(V::C(v)));
                    }
                    let e = fresh(bits, format!("in{n}"));
                    st.inputs.push((e, bits));
                    v_of(zext(e, 64))
                }
                "assume" => {
                    let c = a[0].ex(1);
                    self.assume(st, c)?;
                    V::C(0)
                }
                "assert" => {
                    let id = self.conc(st, &a[1], 32)? as u32;
                    let c = a[0].ex(1);
                    self.check(st, c, id)?;
                    V::C(0)
                }
                "reach" => {
                    let id = self.conc(st, &a[0], 32)? as u32;
                    *self.reached.entry(id).or_insert(0) += 1;
                    V::C(0)
                }
                "panic_id" => {
                    let V::C(id) = a[0] else { return unsup("panic id") };
                    st.panic_id = id as u32;
                    V::C(0)
                }
                // a value the path may fix: enumerate it
                "fix" => {
                    let v = self.conc(st, &a[0], 64)?;
                    V::C(v)
                }
                "trace" => {
                    eprintln!("[trace {} = {}]", a[0].ex(64).0, match &a[1] { V::C(c) => format!("{c} ({:#x})", c), V::E(e) => show(*e), _ => "?".into() });
                    V::C(0)
                }
                _ => return unsup(format!("__sym_{k}")),
            }));
        }
        if name.starts_with("_R") {
            for (pat, how) in &self.opts.stubs {
                if name.contains(pat.as_str()) {
                    self.notes.insert(format!("stubbed {pat} ({how})"));
                    match how.as_str() {
                        "zero" => return Ok(Some(crate::exec::zero_of(rty))),
                        "cut" => return Err(Stop::Cut),
                        "panic" => return Err(Stop::Panic(pat.clone())),
                        _ => return unsup("stub kind"),
                    }
                }
            }
            if name.contains("4core9panicking") || name.contains("17rust_begin_unwind") {
                let loc = self.location(st, a.last());
                return Err(Stop::Panic(format!("panic at {loc}")));
            }
            if name.ends_with("___rust_alloc") || name.ends_with("___rust_alloc_zeroed") {
                let (n, al) = (self.c(st, &a[0])?, self.c(st, &a[1])?);
                if n > 1 << 28 {
                    return Err(Stop::Panic(format!("allocation of {n} bytes")));
                }
                return Ok(Some(V::C(st.mem.alloc(n, al) as u128)));
            }
            if name.ends_with("___rust_dealloc") {
                let p = self.c(st, &a[0])?;
                match st.mem.objs.remove(&p) {
                    Some(o) if o.kind == Kind::Heap => {}
                    _ => return unsup(format!("free of {p:#x}")),
                }
                return Ok(Some(V::C(0)));
            }
            if name.ends_with("___rust_realloc") {
                let (p, old, al, new) =
                    (self.c(st, &a[0])?, self.c(st, &a[1])?, self.c(st, &a[2])?, self.c(st, &a[3])?);
                if new > 1 << 28 {
                    return Err(Stop::Panic(format!("allocation of {new} bytes")));
                }
                let q = st.mem.alloc(new, al);
                self.copy(st, q, p, old.min(new))?;
                st.mem.objs.remove(&p);
                return Ok(Some(V::C(q as u128)));
            }
            if name.contains("__rust_no_alloc_shim") {
                return Ok(Some(V::C(0)));
            }
            if name.contains("___rust_alloc_error_handler") || name.contains("18handle_alloc_error") {
                return Err(Stop::Panic("allocation failure".into()));
            }
            if self.opts.stub_fmt && name.contains("5alloc3fmt6format") {
                // an empty string; the text of messages is not part of any property checked with this on
                if a.len() >= 2 {
                    let p = a[0].clone();
                    self.store_ty(st, &p, &Ty::Int(64), &V::C(0))?;
                    let q = self.padd(&p, 8);
                    self.store_ty(st, &q, &Ty::Int(64), &V::C(1))?;
                    let q = self.padd(&p, 16);
                    self.store_ty(st, &q, &Ty::Int(64), &V::C(0))?;
                    self.notes.insert("alloc::fmt::format returns an empty string".into());
                    return Ok(Some(V::C(0)));
                }
            }
            if name.contains("hashmap_random_keys") {
                return Ok(Some(crate::exec::zero_of(rty)));
            }
            return Ok(None);
        }
        Ok(Some(match name {
            "rust_eh_personality" => V::C(0),
            "memcmp" | "bcmp" => {
                let (p, q, n) = (self.c(st, &a[0])?, self.c(st, &a[1])?, self.c(st, &a[2])?);
                self.memcmp(st, p, q, n, name == "bcmp")?
            }
            "memcpy" | "memmove" => {
                let (p, q, n) = (self.c(st, &a[0])?, self.c(st, &a[1])?, self.c(st, &a[2])?);
                self.copy(st, p, q, n)?;
                a[0].clone()
            }
            "memset" => {
                let (p, n) = (self.c(st, &a[0])?, self.c(st, &a[2])?);
                let v = extract(a[1].ex(32), 0, 8);
                self.fill(st, p, n, v)?;
                a[0].clone()
            }
            "strlen" => {
                let p = self.c(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_scalar(st, &V::C((p + n) as u128), 1)?;
                    let k = self.conc(st, &v_of(b), 8)?;
                    if k == 0 {
                        break;
                    }
                    n += 1;
                }
                V::C(n as u128)
            }
            "memchr" => {
                let (p, n) = (self.c(st, &a[0])?, self.c(st, &a[2])?);
                let c = extract(a[1].ex(32), 0, 8);
                let mut r = konst(0, 64);
                for k in (0..n).rev() {
                    let b = self.load_scalar(st, &V::C((p + k) as u128), 1)?;
                    r = ite(cmp(Cmp::Eq, b, c), konst((p + k) as u128, 64), r);
                }
                v_of(r)
            }
            "memrchr" => {
                let (p, n) = (self.c(st, &a[0])?, self.c(st, &a[2])?);
                let c = extract(a[1].ex(32), 0, 8);
                let mut r = konst(0, 64);
                for k in 0..n {
                    let b = self.load_scalar(st, &V::C((p + k) as u128), 1)?;
                    r = ite(cmp(Cmp::Eq, b, c), konst((p + k) as u128, 64), r);
                }
                v_of(r)
            }
            "getrandom" => {
                // hash seeds: fixed
                let (p, n) = (self.c(st, &a[0])?, self.c(st, &a[1])?);
                self.fill(st, p, n, konst(0, 8))?;
                self.notes.insert("getrandom returns zero bytes".into());
                V::C(n as u128)
            }
            // no file system, one processor
            "open64" | "open" | "stat64" | "lstat64" | "fstat64" | "readlink" | "getcwd" | "realpath" | "statx" | "opendir" => {
                let e = self.errno(st);
                self.store_ty(st, &V::C(e as u128), &Ty::Int(32), &V::C(2))?;
                self.notes.insert("system calls on files fail with ENOENT".into());
                if matches!(name, "getcwd" | "realpath" | "opendir") {
                    V::C(0)
                } else {
                    V::C(mask(rty.bits()))
                }
            }
            "__errno_location" => V::C(self.errno(st) as u128),
            "sched_getaffinity" => {
                let (n, p) = (self.c(st, &a[1])?, self.c(st, &a[2])?);
                self.fill(st, p, n, konst(0, 8))?;
                self.fill(st, p, 1, konst(1, 8))?;
                V::C(0)
            }
            "sysconf" => V::C(1),
            "__cxa_thread_atexit_impl" => V::C(0),
            "gettid" | "getpid" => V::C(1000),
            // recursion guards (stacker) see a large stack
            "rust_psm_stack_pointer" => V::C(1 << 40),
            "pthread_self" => V::C(1),
            "pthread_attr_init" | "pthread_attr_destroy" | "pthread_getattr_np" => V::C(0),
            "pthread_attr_getstack" => {
                let (p, q) = (a[1].clone(), a[2].clone());
                self.store_ty(st, &p, &Ty::Int(64), &V::C(1 << 20))?;
                self.store_ty(st, &q, &Ty::Int(64), &V::C(1 << 40))?;
                V::C(0)
            }
            "write" | "writev" => V::C(1),
            "getenv" => V::C(0),
            "clock_gettime" => {
                let p = a[1].clone();
                self.store_ty(st, &p, &Ty::Int(64), &V::C(1_700_000_000))?;
                let q = self.padd(&p, 8);
                self.store_ty(st, &q, &Ty::Int(64), &V::C(0))?;
                V::C(0)
            }
            "abort" | "_exit" | "exit" => return Err(Stop::Panic("abort".into())),
            "fmod" | "fmodf" => {
                let ty = rty.clone();
                self.binop(BOp::FRem, &ty, &a[0], &a[1])?
            }
            "pow" | "exp" | "log" | "log10" | "log2" | "sin" | "cos" | "tan" => self.fp_intrin(name, 64, a)?,
            "trunc" | "floor" | "ceil" | "round" | "rint" | "sqrt" | "fma" | "fabs" => self.fp_intrin(name, 64, a)?,
            "truncf" | "floorf" | "ceilf" | "roundf" | "sqrtf" => self.fp_intrin(name.trim_end_matches('f'), 32, a)?,
            _ => return Ok(None),
        }))
    }

    fn errno(&mut self, st: &mut State) -> u64 {
        const A: u64 = 0x2000;
        if st.mem.find(A, 4).is_none() {
            st.mem.objs.insert(A, Rc::new(Obj::new(A, 8, Kind::Global)));
        }
        A
    }

    fn fill(&mut self, st: &mut State, p: u64, n: u64, v: Ex) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.write(st, p, n)?;
        let b = (p - o.base) as usize;
        for k in 0..n as usize {
            o.store_byte(b + k, v);
        }
        Ok(())
    }

    fn llvm(&mut self, st: &mut State, k: &str, rty: &Ty, args: &[Arg], a: &[V]) -> R<V> {
        let base: &str = k;
        if base.starts_with("lifetime.") {
            // contents are undefined outside the lifetime
            if let Some(V::C(p)) = a.last() {
                let p = *p as u64;
                if let Some(o) = st.mem.find(p, 0) {
                    if o.kind == Kind::Stack && o.base == p && (!o.sym.is_empty() || o.data.iter().any(|x| *x != 0)) {
                        let n = Obj::new(o.base, o.size, Kind::Stack);
                        st.mem.objs.insert(p, Rc::new(n));
                    }
                }
            }
            return Ok(V::C(0));
        }
        if base.starts_with("experimental.noalias") || base.starts_with("dbg.")
            || base.starts_with("invariant.") || base.starts_with("prefetch") || base.starts_with("sideeffect")
        {
            return Ok(V::C(0));
        }
        if base.starts_with("assume") {
            return Ok(V::C(0));
        }
        if base.starts_with("expect") || base.starts_with("launder") || base.starts_with("strip.inv")
            || base.starts_with("ssa.copy") || base.starts_with("threadlocal.address") || base.starts_with("ptr.annotation")
        {
            return Ok(a[0].clone());
        }
        if base.starts_with("is.constant") {
            return Ok(V::C(0));
        }
        if base.starts_with("ptrmask") {
            return Ok(v_of(bin(Op::And, a[0].ex(64), a[1].ex(64))));
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") {
            return Err(Stop::Panic("trap".into()));
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let (p, q, n) = (self.c(st, &a[0])?, self.c(st, &a[1])?, self.c(st, &a[2])?);
            self.copy(st, p, q, n)?;
            return Ok(V::C(0));
        }
        if base.starts_with("memset") {
            let (p, n) = (self.c(st, &a[0])?, self.c(st, &a[2])?);
            let v = a[1].ex(8);
            self.fill(st, p, n, v)?;
            return Ok(V::C(0));
        }
        if base.starts_with("load.relative") {
            // p + *(i32*)(p + off)
            let off = a[1].ex(args[1].ty.bits());
            let off = if width(off) < 64 { sign_ext(off, 64) } else { off };
            let p = v_of(bin(Op::Add, a[0].ex(64), off));
            let r = self.load_scalar(st, &p, 4)?;
            return Ok(v_of(bin(Op::Add, a[0].ex(64), sign_ext(r, 64))));
        }
        if base.contains(".with.overflow") {
            let op = &base[..4];
            let ety = rty.elem(0);
            if let Some((n, t)) = lanes(&ety) {
                let w = t.bits();
                let (mut rs, mut os) = (vec![], vec![]);
                for i in 0..n {
                    let (r, o) = self.overflow(st, op, a[0].lane(i).ex(w), a[1].lane(i).ex(w), w)?;
                    rs.push(v_of(r));
                    os.push(v_of(o));
                }
                return Ok(V::A(Rc::new(vec![V::A(Rc::new(rs)), V::A(Rc::new(os))])));
            }
            let w = ety.bits();
            let (r, o) = self.overflow(st, op, a[0].ex(w), a[1].ex(w), w)?;
            return Ok(V::A(Rc::new(vec![v_of(r), v_of(o)])));
        }
        for sat in ["uadd.sat", "usub.sat", "sadd.sat", "ssub.sat"] {
            if base.starts_with(sat) {
                let mut err = None;
                let stp: *mut State = st;
                let r = self.lanewise(rty, a, |e, w, l| unsafe { e.int_intrin(&mut *stp, sat, w, l) });
                if let Some(e) = err.take() {
                    return Err(e);
                }
                return r;
            }
        }
        if base.starts_with("scmp") || base.starts_with("ucmp") {
            let s = base.starts_with('s');
            let aty = &args[0].ty;
            let go = |x: Ex, y: Ex, rw: u32| {
                let lt = if s { cmp(Cmp::Slt, x, y) } else { cmp(Cmp::Ult, x, y) };
                let eq = cmp(Cmp::Eq, x, y);
                v_of(ite(lt, konst(mask(rw), rw), ite(eq, konst(0, rw), konst(1, rw))))
            };
            if let Some((n, t)) = lanes(aty) {
                let rw = rty.elem(0).bits();
                return Ok(V::A(Rc::new(
                    (0..n).map(|i| go(a[0].lane(i).ex(t.bits()), a[1].lane(i).ex(t.bits()), rw)).collect(),
                )));
            }
            let w = aty.bits();
            return Ok(go(a[0].ex(w), a[1].ex(w), rty.bits()));
        }
        if base.starts_with("fptosi.sat") || base.starts_with("fptoui.sat") {
            let signed = base.starts_with("fptosi");
            let (fw, tw);
            if let Some((_, t)) = lanes(rty) {
                tw = t.bits();
                fw = args[0].ty.elem(0).bits();
            } else {
                tw = rty.bits();
                fw = args[0].ty.bits();
            }
            return self.lanewise(rty, a, |e, _, l| e.fp_sat(&l[0], fw, tw, signed));
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let op = r.split('.').next().unwrap();
            let (n, t) = lanes(&args[0].ty).unwrap();
            let w = t.bits();
            let mut acc = a[0].lane(0);
            for i in 1..n {
                let y = a[0].lane(i);
                acc = match op {
                    "umax" | "umin" | "smax" | "smin" => self.minmax(op, &acc, &y, w),
                    "add" | "mul" | "and" | "or" | "xor" => self.binop(BOp::parse(op), &t, &acc, &y)?,
                    _ => return unsup(format!("reduction {op}")),
                };
            }
            return Ok(acc);
        }
        if base.starts_with("masked.load") || base.starts_with("masked.gather") {
            return unsup(format!("intrinsic llvm.{k}"));
        }
        for i in ["umax", "umin", "smax", "smin", "abs", "ctpop", "ctlz", "cttz", "bswap", "bitreverse", "fshl", "fshr"] {
            if base.strip_prefix(i).is_some_and(|r| r.starts_with('.')) {
                let stp: *mut State = st;
                let n = match i {
                    "fshl" | "fshr" => 3,
                    "umax" | "umin" | "smax" | "smin" => 2,
                    _ => 1,
                };
                return self.lanewise(rty, &a[..n], |e, w, l| unsafe { e.int_intrin(&mut *stp, i, w, l) });
            }
        }
        if base.starts_with("is.fpclass") {
            let w = args[0].ty.bits();
            let V::C(m) = a[1] else { return unsup("fpclass mask") };
            let x = a[0].ex(w);
            let (eb, mb) = if w == 64 { (11u32, 52u32) } else { (8, 23) };
            let exp = extract(x, mb, eb);
            let man = extract(x, 0, mb);
            let s = extract(x, w - 1, 1);
            let emax = cmp(Cmp::Eq, exp, konst(mask(eb), eb));
            let ezero = cmp(Cmp::Eq, exp, konst(0, eb));
            let mz = cmp(Cmp::Eq, man, konst(0, mb));
            let q = extract(x, mb - 1, 1);
            let and = |a, b| bin(Op::And, a, b);
            let nan = and(emax, not(mz));
            let inf = and(emax, mz);
            let zero = and(ezero, mz);
            let subn = and(ezero, not(mz));
            let norm = and(not(emax), not(ezero));
            let cls = [
                (0, and(nan, not(q))),
                (1, and(nan, q)),
                (2, and(inf, s)),
                (3, and(norm, s)),
                (4, and(subn, s)),
                (5, and(zero, s)),
                (6, and(zero, not(s))),
                (7, and(subn, not(s))),
                (8, and(norm, not(s))),
                (9, and(inf, not(s))),
            ];
            let mut r = konst(0, 1);
            for (b, e) in cls {
                if m >> b & 1 == 1 {
                    r = bin(Op::Or, r, e);
                }
            }
            return Ok(v_of(r));
        }
        let op = base.split('.').next().unwrap();
        let is_f = match rty {
            Ty::Float | Ty::Double => true,
            Ty::Vec(_, t) => matches!(**t, Ty::Float | Ty::Double),
            _ => false,
        };
        if is_f {
            let n = match op {
                "fma" | "fmuladd" => 3,
                "pow" | "copysign" | "minnum" | "maxnum" | "minimumnum" | "maximumnum" => 2,
                _ => 1,
            };
            if op == "powi" {
                let (V::C(x), V::C(y)) = (&a[0], &a[1]) else { return unsup("symbolic powi") };
                return Ok(V::C(canon64(f64::from_bits(*x as u64).powi(*y as i32))));
            }
            let op = op.to_string();
            return self.lanewise(rty, &a[..n], |e, w, l| e.fp_intrin(&op, w, l));
        }
        unsup(format!("intrinsic llvm.{k}"))
    }
}
