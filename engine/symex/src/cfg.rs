//! Per-function facts used for merging paths: register types, post-dominators, liveness.
use crate::ir::*;

pub struct Cfg {
    pub reg_ty: Vec<Option<Ty>>,
    /// immediate post-dominator; u32::MAX is the return of the function
    pub ipdom: Vec<u32>,
    /// registers live after the phis of each block
    pub live: Vec<Vec<u64>>,
    pub live_out: Vec<Vec<u64>>,
}

fn uses(v: &Val, f: &mut dyn FnMut(u32)) {
    match v {
        Val::Local(r) => f(*r),
        Val::Agg(items) => items.iter().for_each(|(_, x)| uses(x, f)),
        _ => {}
    }
}

pub fn ins_uses(i: &Ins, f: &mut dyn FnMut(u32)) {
    match i {
        Ins::Bin { a, b, .. } | Ins::ICmp { a, b, .. } | Ins::FCmp { a, b, .. } => {
            uses(a, f);
            uses(b, f);
        }
        Ins::FNeg { a, .. } => uses(a, f),
        Ins::Select { c, a, b, .. } => {
            uses(c, f);
            uses(a, f);
            uses(b, f);
        }
        Ins::Cast { v, .. } | Ins::Freeze { v, .. } => uses(v, f),
        Ins::Load { p, .. } => uses(p, f),
        Ins::Store { v, p, .. } => {
            uses(v, f);
            uses(p, f);
        }
        Ins::Gep { base, idx, .. } => {
            uses(base, f);
            idx.iter().for_each(|(_, x)| uses(x, f));
        }
        Ins::Alloca { n, .. } => {
            if let Some((_, v)) = n {
                uses(v, f)
            }
        }
        Ins::Call { callee, args, .. } => {
            uses(callee, f);
            args.iter().for_each(|a| uses(&a.val, f));
        }
        Ins::Phi { .. } => {}
        Ins::Br(_) | Ins::Unreachable | Ins::Fence => {}
        Ins::CondBr(c, ..) => uses(c, f),
        Ins::Switch { v, .. } => uses(v, f),
        Ins::Ret(v) => {
            if let Some((_, v)) = v {
                uses(v, f)
            }
        }
        Ins::ExtractValue { v, .. } => uses(v, f),
        Ins::InsertValue { v, e, .. } => {
            uses(v, f);
            uses(e, f);
        }
        Ins::ExtractElement { v, i, .. } => {
            uses(v, f);
            uses(i, f);
        }
        Ins::InsertElement { v, e, i, .. } => {
            uses(v, f);
            uses(e, f);
            uses(i, f);
        }
        Ins::Shuffle { a, b, .. } => {
            uses(a, f);
            uses(b, f);
        }
        Ins::AtomicRmw { p, v, .. } => {
            uses(p, f);
            uses(v, f);
        }
        Ins::CmpXchg { p, cmp, new, .. } => {
            uses(p, f);
            uses(cmp, f);
            uses(new, f);
        }
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last().map(|x| &x.1) {
        Some(Ins::Br(t)) => vec![*t],
        Some(Ins::CondBr(_, a, b)) => vec![*a, *b],
        Some(Ins::Switch { default, cases, .. }) => {
            let mut v = vec![*default];
            v.extend(cases.iter().map(|c| c.1));
            v.sort();
            v.dedup();
            v
        }
        _ => vec![],
    }
}

fn result_ty(i: &Ins) -> Option<Ty> {
    Some(match i {
        Ins::Bin { ty, .. } | Ins::FNeg { ty, .. } | Ins::Select { ty, .. } | Ins::Load { ty, .. }
        | Ins::Phi { ty, .. } | Ins::InsertValue { ty, .. } | Ins::InsertElement { ty, .. }
        | Ins::Freeze { ty, .. } | Ins::AtomicRmw { ty, .. } => ty.clone(),
        Ins::ICmp { ty, .. } | Ins::FCmp { ty, .. } => match ty {
            Ty::Vec(n, _) => Ty::Vec(*n, std::rc::Rc::new(Ty::Int(1))),
            _ => Ty::Int(1),
        },
        Ins::Cast { to, .. } => to.clone(),
        Ins::Gep { .. } | Ins::Alloca { .. } => Ty::Ptr,
        Ins::Call { rty, .. } => rty.clone(),
        Ins::ExtractValue { ty, idx, .. } => {
            let mut t = ty.clone();
            for i in idx {
                t = t.elem(*i as usize);
            }
            t
        }
        Ins::ExtractElement { ty, .. } => ty.elem(0),
        Ins::Shuffle { ty, mty, .. } => Ty::Vec(mty.count() as u32, std::rc::Rc::new(ty.elem(0))),
        Ins::CmpXchg { ty, .. } => Ty::Struct(std::rc::Rc::new(vec![ty.clone(), Ty::Int(1)]), false),
        _ => return None,
    })
}

pub fn bit(s: &[u64], r: u32) -> bool {
    s[r as usize / 64] >> (r % 64) & 1 == 1
}
fn setb(s: &mut [u64], r: u32) {
    s[r as usize / 64] |= 1 << (r % 64);
}
fn clr(s: &mut [u64], r: u32) {
    s[r as usize / 64] &= !(1 << (r % 64));
}

impl Cfg {
    pub fn new(f: &Func) -> Cfg {
        let n = f.blocks.len();
        let mut reg_ty = vec![None; f.nregs as usize];
        for (t, r) in &f.params {
            reg_ty[*r as usize] = Some(t.clone());
        }
        for b in &f.blocks {
            for (d, i) in &b.ins {
                if let Some(d) = d {
                    reg_ty[*d as usize] = result_ty(i);
                }
            }
        }
        let su: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
        let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
        for (b, ss) in su.iter().enumerate() {
            for s in ss {
                preds[*s as usize].push(b as u32);
            }
        }
        // post-dominators over the paths that return; blocks 0..n, n = exit
        let exit = n;
        let mut rpo: Vec<usize> = vec![]; // post-order on the reversed graph
        let mut seen = vec![false; n + 1];
        let rets: Vec<u32> = f
            .blocks
            .iter()
            .enumerate()
            .filter(|(_, b)| matches!(b.ins.last().map(|x| &x.1), Some(Ins::Ret(_))))
            .map(|(i, _)| i as u32)
            .collect();
        let mut stack: Vec<(usize, usize)> = vec![(exit, 0)];
        seen[exit] = true;
        while let Some((b, k)) = stack.pop() {
            let ps: &[u32] = if b == exit { &rets } else { &preds[b] };
            if k < ps.len() {
                stack.push((b, k + 1));
                let p = ps[k] as usize;
                if !seen[p] {
                    seen[p] = true;
                    stack.push((p, 0));
                }
            } else {
                rpo.push(b);
            }
        }
        rpo.reverse();
        let mut num = vec![usize::MAX; n + 1];
        for (i, b) in rpo.iter().enumerate() {
            num[*b] = i;
        }
        let mut idom = vec![usize::MAX; n + 1];
        idom[exit] = exit;
        loop {
            let mut changed = false;
            for &b in rpo.iter().skip(1) {
                let mut new = usize::MAX;
                let is_ret = rets.contains(&(b as u32));
                let ss: Vec<usize> =
                    if is_ret { vec![exit] } else { su[b].iter().map(|x| *x as usize).collect() };
                for s in ss {
                    if num[s] == usize::MAX || idom[s] == usize::MAX {
                        continue;
                    }
                    if new == usize::MAX {
                        new = s;
                    } else {
                        let (mut x, mut y) = (s, new);
                        while x != y {
                            while num[x] > num[y] {
                                x = idom[x];
                            }
                            while num[y] > num[x] {
                                y = idom[y];
                            }
                        }
                        new = x;
                    }
                }
                if new != usize::MAX && idom[b] != new {
                    idom[b] = new;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let ipdom = (0..n)
            .map(|b| if idom[b] >= n { u32::MAX } else { idom[b] as u32 })
            .collect();
        // liveness
        let words = (f.nregs as usize).div_ceil(64).max(1);
        let mut live_out = vec![vec![0u64; words]; n];
        let mut live = vec![vec![0u64; words]; n];
        let mut changed = true;
        while changed {
            changed = false;
            for b in (0..n).rev() {
                let mut out = vec![0u64; words];
                for s in &su[b] {
                    let sb = &f.blocks[*s as usize];
                    let mut l = live[*s as usize].clone();
                    for (d, i) in &sb.ins {
                        let Ins::Phi { .. } = i else { break };
                        if let Some(d) = d {
                            clr(&mut l, *d);
                        }
                    }
                    for (_, i) in &sb.ins {
                        let Ins::Phi { inc, .. } = i else { break };
                        for (v, p) in inc {
                            if *p as usize == b {
                                uses(v, &mut |r| setb(&mut l, r));
                            }
                        }
                    }
                    for k in 0..words {
                        out[k] |= l[k];
                    }
                }
                let mut l = out.clone();
                for (d, i) in f.blocks[b].ins.iter().rev() {
                    if let Ins::Phi { .. } = i {
                        break;
                    }
                    if let Some(d) = d {
                        clr(&mut l, *d);
                    }
                    ins_uses(i, &mut |r| setb(&mut l, r));
                }
                if live_out[b] != out || live[b] != l {
                    live_out[b] = out;
                    live[b] = l;
                    changed = true;
                }
            }
        }
        Cfg { reg_ty, ipdom, live, live_out }
    }

    /// registers live just before instruction `ip` of block `b`
    pub fn live_at(&self, f: &Func, b: u32, ip: usize) -> Vec<u64> {
        let mut l = self.live_out[b as usize].clone();
        let ins = &f.blocks[b as usize].ins;
        for (d, i) in ins[ip..].iter().rev() {
            if let Ins::Phi { .. } = i {
                break;
            }
            if let Some(d) = d {
                clr(&mut l, *d);
            }
            ins_uses(i, &mut |r| setb(&mut l, r));
        }
        l
    }
}
