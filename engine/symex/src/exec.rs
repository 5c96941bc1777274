//! Path-forking symbolic interpreter.
use crate::cfg::Cfg;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{self, Res, Z3};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(Ex),
    A(Rc<Vec<V>>),
}

pub fn v_of(e: Ex) -> V {
    match cval(e) {
        Some(c) => V::C(c),
        None => V::E(e),
    }
}
impl V {
    pub fn ex(&self, w: u32) -> Ex {
        match self {
            V::C(c) => konst(*c, w),
            V::E(e) => {
                debug_assert_eq!(width(*e), w);
                *e
            }
            V::A(_) => panic!("UNSUPPORTED: aggregate as scalar"),
        }
    }
    pub fn lane(&self, i: usize) -> V {
        match self {
            V::A(v) => v[i].clone(),
            _ => panic!("UNSUPPORTED: scalar as aggregate"),
        }
    }
}

pub enum Stop {
    /// the path ended normally
    Done,
    /// the path is not feasible / excluded by an assumption
    Cut,
    Panic(String),
    /// cannot be decided
    Unsup(String),
    /// several branch targets are feasible: (block, condition, model)
    Branch(Vec<(u32, Ex, Rc<Model>)>),
    /// reached the place where the region's paths meet
    Meet,
}
pub type R<T> = Result<T, Stop>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsup(s.into()))
}

pub struct Model {
    pub vals: HashMap<u32, u128>,
    memo: RefCell<HashMap<Ex, u128>>,
}
impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Model {
        Model { vals, memo: RefCell::new(HashMap::new()) }
    }
    pub fn eval(&self, e: Ex) -> u128 {
        let mut memo = self.memo.borrow_mut();
        let mut ev = Eval { model: &self.vals, memo: std::mem::take(&mut *memo) };
        let r = ev.get(e);
        *memo = ev.memo;
        r
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub block: u32,
    pub prev: u32,
    pub ip: usize,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub stack_mark: u64,
    pub dst: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub path: Vec<Ex>,
    pub pset: Rc<HashSet<Ex>>,
    pub model: Rc<Model>,
    pub inputs: Vec<(Ex, u32)>,
    pub panic_id: u32,
    pub forks: u32,
}

impl State {
    pub fn top(&mut self) -> &mut Frame {
        Rc::make_mut(self.frames.last_mut().unwrap())
    }
    fn assume_pc(&mut self, c: Ex) {
        let mut v = vec![];
        conjuncts(c, &mut v);
        for x in v {
            if self.pset.insert_new(x) {
                self.path.push(x);
            }
        }
    }
}
trait InsNew {
    fn insert_new(&mut self, e: Ex) -> bool;
}
impl InsNew for Rc<HashSet<Ex>> {
    fn insert_new(&mut self, e: Ex) -> bool {
        if self.contains(&e) {
            return false;
        }
        Rc::make_mut(self).insert(e);
        true
    }
}

pub struct Violation {
    pub id: u32,
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u32, u128)>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Opts {
    pub trace: bool,
    pub stub_fmt: bool,
    pub concrete: Option<Vec<u128>>,
    pub max_paths: u64,
    pub time_limit: f64,
    pub stop_first: bool,
    pub no_merge: bool,
    pub verbose: bool,
    pub stubs: Vec<(String, String)>,
    pub dump: Option<String>,
}

pub struct Engine {
    pub m: Module,
    pub z3: Z3,
    pub funcs: HashMap<Rc<str>, &'static Func>,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub globals: BTreeMap<u64, Rc<Obj>>,
    pub gnext: u64,
    pub faddr: HashMap<Rc<str>, u64>,
    pub fname: HashMap<u64, Rc<str>>,
    pub cache: HashMap<Vec<Ex>, Option<Rc<HashMap<u32, u128>>>>,
    pub work: VecDeque<State>,
    pub opts: Opts,
    pub used: BTreeSet<Rc<str>>,
    pub viol: Vec<Violation>,
    pub reached: BTreeMap<u32, u64>,
    pub lost: u32,
    pub lost_why: Option<String>,
    pub samples: Vec<Vec<u128>>,
    pub asserted: BTreeMap<u32, u64>,
    pub paths: u64,
    pub panics_allowed: u64,
    pub cut: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub forks: u64,
    pub merges: u64,
    pub t0: Instant,
    pub dumpn: u64,
    pub notes: BTreeSet<String>,
}

pub fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
            V::A(Rc::new((0..ty.count()).map(|i| zero_of(&ty.elem(i))).collect()))
        }
        _ => V::C(0),
    }
}

impl Engine {
    // ------------------------------------------------------------ globals
    pub fn global_addr(&mut self, name: &str) -> R<u64> {
        let mut nm: Rc<str> = name.into();
        while let Some(a) = self.m.aliases.get(&nm) {
            nm = a.clone();
        }
        if self.m.funcs.contains_key(&nm) || (self.m.decls.contains_key(&nm) && !self.m.globals.contains_key(&nm)) {
            if let Some(&a) = self.faddr.get(&nm) {
                return Ok(a);
            }
            let a = FUNC0 + 16 * (self.faddr.len() as u64 + 1);
            self.faddr.insert(nm.clone(), a);
            self.fname.insert(a, nm);
            return Ok(a);
        }
        if let Some(&a) = self.gaddr.get(&nm) {
            return Ok(a);
        }
        let Some((ty, val, align)) = self.m.global(&nm) else {
            return unsup(format!("unknown global {nm}"));
        };
        let size = ty.size();
        let base = align_up(self.gnext, align.max(16));
        self.gnext = base + size + 32;
        self.gaddr.insert(nm.clone(), base);
        let g = &self.m.globals[&nm];
        if g.external {
            // weak/extern data: treated as zero
            self.notes.insert(format!("external global {nm} read as zero"));
        }
        let kind = if g.constant { Kind::Const } else { Kind::Global };
        let mut o = Obj::new(base, size, kind);
        self.init(&mut o, 0, &ty, &val)?;
        self.globals.insert(base, Rc::new(o));
        Ok(base)
    }

    fn init(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &Val) -> R<()> {
        match v {
            Val::Zero | Val::Undef => Ok(()),
            Val::Bytes(b) => {
                o.data[off as usize..off as usize + b.len()].copy_from_slice(b);
                Ok(())
            }
            Val::Agg(items) => {
                for (i, (t, x)) in items.iter().enumerate() {
                    self.init(o, off + ty.field_offset(i), t, x)?;
                }
                Ok(())
            }
            _ => {
                let x = self.konst(ty, v)?;
                let V::C(c) = x else { return unsup("global initializer") };
                o.store_c(off as usize, ty.store_size() as usize, c);
                Ok(())
            }
        }
    }

    pub fn konst(&mut self, ty: &Ty, v: &Val) -> R<V> {
        Ok(match v {
            Val::Int(c) => V::C(*c),
            Val::Zero | Val::Undef => zero_of(ty),
            Val::Global(n) => V::C(self.global_addr(n)? as u128),
            Val::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            Val::Agg(items) => {
                let mut out = vec![];
                for (t, x) in items.iter() {
                    out.push(self.konst(t, x)?);
                }
                V::A(Rc::new(out))
            }
            Val::Splat(s) => {
                let x = self.konst(&s.0, &s.1)?;
                V::A(Rc::new(vec![x; ty.count()]))
            }
            Val::Gep(g) => {
                let base = self.konst(&Ty::Ptr, &g.1)?;
                let mut idx = vec![];
                for (t, x) in &g.2 {
                    idx.push((t.clone(), self.konst(t, x)?));
                }
                self.gep(&g.0, base, &idx)?
            }
            Val::Cast(c) => {
                let x = self.konst(&c.1, &c.2)?;
                self.cast(c.0, &c.1, &x, &c.3)?
            }
            Val::Bin(b) => {
                let x = self.konst(&b.1, &b.2)?;
                let y = self.konst(&b.1, &b.3)?;
                self.binop(b.0, &b.1, &x, &y)?
            }
            Val::Asm | Val::Meta => V::C(0),
            Val::Local(_) => unreachable!(),
        })
    }

    pub fn val(&mut self, st: &State, ty: &Ty, v: &Val) -> R<V> {
        match v {
            Val::Local(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            Val::Int(c) => Ok(V::C(*c)),
            Val::Agg(items) => {
                // may contain locals? constants only in the IR
                let _ = items;
                self.konst(ty, v)
            }
            _ => self.konst(ty, v),
        }
    }

    // ------------------------------------------------------------ solver
    fn slice(&self, st: &State, extra: &[Ex]) -> Vec<Ex> {
        let mut want: HashSet<u32> = HashSet::new();
        for e in extra {
            want.extend(vars(*e).iter());
        }
        let mut taken = vec![false; st.path.len()];
        loop {
            let mut changed = false;
            for (i, c) in st.path.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let vs = vars(*c);
                if vs.iter().any(|v| want.contains(v)) {
                    taken[i] = true;
                    let n = want.len();
                    want.extend(vs.iter());
                    if want.len() > n {
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut out: Vec<Ex> = extra.to_vec();
        out.extend(st.path.iter().enumerate().filter(|(i, _)| taken[*i]).map(|(_, c)| *c));
        out.sort();
        out.dedup();
        out
    }

    /// Is `path && cond` satisfiable? Returns a model of it.
    pub fn feasible(&mut self, st: &State, cond: Ex) -> R<Option<Rc<Model>>> {
        match cval(cond) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        let mut cj = vec![];
        conjuncts(cond, &mut cj);
        for c in &cj {
            if st.pset.contains(&not(*c)) {
                return Ok(None);
            }
        }
        cj.retain(|c| !st.pset.contains(c));
        if cj.iter().all(|c| st.model.eval(*c) != 0) {
            return Ok(Some(st.model.clone()));
        }
        let q = self.slice(st, &cj);
        if let Some(r) = self.cache.get(&q) {
            return Ok(r.as_ref().map(|m| Rc::new(Model::new(merge(&st.model.vals, m)))));
        }
        if self.opts.verbose {
            let who = st.frames.last().map(|f| format!("{}:{}:{}", short(&f.f.name), f.block, f.ip)).unwrap_or_default();
            eprintln!("[query {} conj at {who}: {}]", q.len(), show(cond));
        }
        let dump = self.opts.dump.clone().map(|d| {
            self.dumpn += 1;
            format!("{d}.{}.smt2", self.dumpn)
        });
        match self.z3.check(&q, &cj, dump.as_deref()) {
            Res::Sat(m) => {
                let m = Rc::new(m);
                let full = Model::new(merge(&st.model.vals, &m));
                for c in &q {
                    if full.eval(*c) == 0 {
                        return unsup(format!("model check failed: {}", show(*c)));
                    }
                }
                self.cache.insert(q, Some(m));
                Ok(Some(Rc::new(full)))
            }
            Res::Unsat => {
                self.cache.insert(q, None);
                Ok(None)
            }
            Res::Unknown(_) => {
                let who = st.frames.last().map(|f| short(&f.f.name)).unwrap_or_default();
                if std::env::var("SYMEX_SHOW").is_ok() {
                    for c in &q {
                        eprintln!("QUERY {}", show(*c));
                    }
                }
                unsup(format!("solver gave up in {who}"))
            }
        }
    }

    pub fn push_fork(&mut self, mut other: State, cond: Ex, model: Rc<Model>) {
        other.assume_pc(cond);
        other.model = model;
        other.forks += 1;
        self.forks += 1;
        self.work.push_back(other);
    }

    /// Decide a boolean for this path; the other outcome is forked off at the current instruction.
    pub fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(k) = cval(c) {
            return Ok(k != 0);
        }
        if st.pset.contains(&c) {
            return Ok(true);
        }
        let nc = not(c);
        if st.pset.contains(&nc) {
            return Ok(false);
        }
        let side = st.model.eval(c) != 0;
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(st, other)? {
            if self.opts.trace {
                let f = st.frames.last().unwrap();
                eprintln!("fork in {} block {} on {}", short(&f.f.name), f.block, show(c));
            }
            self.push_fork(st.clone(), other, m);
        }
        st.assume_pc(mine);
        Ok(side)
    }

    /// Pick a concrete value for this path; other values are forked off at the current instruction.
    pub fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::E(e) => {
                let k = st.model.eval(*e);
                let eq = cmp(Cmp::Eq, *e, konst(k, w));
                if st.pset.contains(&eq) {
                    return Ok(k);
                }
                let ne = not(eq);
                if let Some(m) = self.feasible(st, ne)? {
                    if self.opts.trace {
                        let f = st.frames.last().unwrap();
                        eprintln!("concretize {} = {k} in {}", show(*e), short(&f.f.name));
                    }
                    self.push_fork(st.clone(), ne, m);
                }
                st.assume_pc(eq);
                Ok(k)
            }
            V::A(_) => unsup("concretize aggregate"),
        }
    }

    // ------------------------------------------------------------ memory
    pub fn obj(&mut self, st: &State, addr: u64, n: u64) -> R<Rc<Obj>> {
        if let Some(o) = st.mem.find(addr, n) {
            return Ok(o.clone());
        }
        if let Some((_, o)) = self.globals.range(..=addr).next_back() {
            if addr + n <= o.base + o.size {
                return Ok(o.clone());
            }
        }
        Err(Stop::Panic(format!("invalid memory access at {addr:#x} ({n} bytes)")))
    }

    pub fn write<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<&'a mut Obj> {
        if st.mem.find(addr, n).is_none() {
            let o = self.obj(st, addr, n)?;
            if o.kind == Kind::Const {
                return unsup("write to constant");
            }
            st.mem.objs.insert(o.base, o);
        }
        Ok(st.mem.find_mut(addr, n).unwrap())
    }

    pub fn load_scalar(&mut self, st: &mut State, p: &V, n: usize) -> R<Ex> {
        match p {
            V::C(a) => {
                let a = *a as u64;
                if n == 0 {
                    return unsup("empty load");
                }
                if n > 16 {
                    return unsup("load wider than 16 bytes");
                }
                let o = self.obj(st, a, n as u64)?;
                Ok(o.load_ex((a - o.base) as usize, n))
            }
            V::E(e) => {
                let e = *e;
                // a choice between concrete addresses
                let mut leaves = vec![];
                if ite_leaves(e, konst(1, 1), &mut leaves) {
                    let mut acc: Option<Ex> = None;
                    let mut bad = false;
                    for (c, a) in leaves.iter().rev() {
                        match self.obj(st, *a, n as u64) {
                            Ok(o) => {
                                let x = o.load_ex((*a - o.base) as usize, n);
                                acc = Some(match acc {
                                    None => x,
                                    Some(y) => ite(*c, x, y),
                                });
                            }
                            Err(_) => {
                                bad = true;
                                break;
                            }
                        }
                    }
                    if !bad {
                        return Ok(acc.unwrap());
                    }
                    let k = self.conc(st, p, 64)?;
                    return self.load_scalar(st, &V::C(k), n);
                }
                let (o, off) = self.sym_obj(st, e, n)?;
                let (stride, phase) = stride_of(off);
                let count = (o.size - n as u64).saturating_sub(phase) / stride + 1;
                if count > 16384 {
                    let k = self.conc(st, p, 64)?;
                    return self.load_scalar(st, &V::C(k), n);
                }
                let t: Vec<Ex> =
                    (0..count).map(|k| o.load_ex((phase + k * stride) as usize, n)).collect();
                Ok(table(t, index_of(off, stride, phase, count)))
            }
            V::A(_) => unsup("aggregate address"),
        }
    }

    /// Resolve a symbolic address to one allocation; the access is in bounds on this path.
    fn sym_obj(&mut self, st: &mut State, e: Ex, n: usize) -> R<(Rc<Obj>, Ex)> {
        let a = st.model.eval(e) as u64;
        let o = match self.obj(st, a, n as u64) {
            Ok(o) => o,
            Err(_) => {
                // this model's address is invalid: report only this address on this path
                let k = self.conc(st, &V::E(e), 64)?;
                self.obj(st, k as u64, n as u64)?
            }
        };
        let off = sub(e, konst(o.base as u128, 64));
        let inb = cmp(Cmp::Ule, off, konst((o.size - n as u64) as u128, 64));
        if !self.decide(st, inb)? {
            return unsup("symbolic address resolution");
        }
        Ok((o, off))
    }

    pub fn store_scalar(&mut self, st: &mut State, p: &V, n: usize, v: &V, w: u32) -> R<()> {
        match p {
            V::C(a) => {
                let a = *a as u64;
                let o = self.write(st, a, n as u64)?;
                let off = (a - o.base) as usize;
                match v {
                    V::C(c) => o.store_c(off, n, *c),
                    V::E(e) => o.store_ex(off, n, zext(*e, n as u32 * 8)),
                    V::A(_) => return unsup("store aggregate"),
                }
                let _ = w;
                Ok(())
            }
            V::E(e) => {
                let e = *e;
                let mut leaves = vec![];
                if ite_leaves(e, konst(1, 1), &mut leaves) && leaves.len() > 8 || leaves.is_empty() && false {
                    let k = self.conc(st, p, 64)?;
                    return self.store_scalar(st, &V::C(k), n, v, w);
                }
                if !leaves.is_empty() && leaves.len() <= 8 {
                    let k = self.conc(st, p, 64)?;
                    return self.store_scalar(st, &V::C(k), n, v, w);
                }
                let (o, off) = self.sym_obj(st, e, n)?;
                let (stride, phase) = stride_of(off);
                let count = (o.size - n as u64).saturating_sub(phase) / stride + 1;
                if count * n as u64 > 2048 {
                    let k = self.conc(st, p, 64)?;
                    return self.store_scalar(st, &V::C(k), n, v, w);
                }
                let base = o.base;
                drop(o);
                let val = zext(v.ex(w), n as u32 * 8);
                let idx = index_of(off, stride, phase, count);
                let iw = width(idx);
                let o = self.write(st, base, 0)?;
                for k in 0..count {
                    let c = cmp(Cmp::Eq, idx, konst(k as u128, iw));
                    if cval(c) == Some(0) {
                        continue;
                    }
                    for b in 0..n {
                        let at = (phase + k * stride) as usize + b;
                        let old = o.byte(at);
                        o.store_byte(at, ite(c, extract(val, 8 * b as u32, 8), old));
                    }
                }
                Ok(())
            }
            V::A(_) => unsup("aggregate address"),
        }
    }

    pub fn load_ty(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut out = vec![];
                for i in 0..ty.count() {
                    let q = self.padd(p, ty.field_offset(i));
                    out.push(self.load_ty(st, &q, &ty.elem(i))?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 != 0 {
                    let e = self.load_scalar(st, p, ty.store_size() as usize)?;
                    return Ok(V::A(Rc::new((0..*n).map(|i| v_of(extract(e, i * b, b))).collect())));
                }
                let mut out = vec![];
                for i in 0..*n {
                    let q = self.padd(p, i as u64 * b as u64 / 8);
                    out.push(self.load_ty(st, &q, t)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => {
                let w = ty.bits();
                let n = ty.store_size() as usize;
                let e = self.load_scalar(st, p, n)?;
                Ok(v_of(extract(e, 0, w)))
            }
        }
    }

    pub fn store_ty(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                for i in 0..ty.count() {
                    let q = self.padd(p, ty.field_offset(i));
                    self.store_ty(st, &q, &ty.elem(i), &v.lane(i))?;
                }
                Ok(())
            }
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 != 0 {
                    let mut e: Option<Ex> = None;
                    for i in 0..*n {
                        let x = v.lane(i as usize).ex(b);
                        e = Some(match e {
                            None => x,
                            Some(y) => concat(x, y),
                        });
                    }
                    let e = e.unwrap();
                    let w = width(e);
                    return self.store_scalar(st, p, ty.store_size() as usize, &v_of(e), w);
                }
                for i in 0..*n {
                    let q = self.padd(p, i as u64 * b as u64 / 8);
                    self.store_ty(st, &q, t, &v.lane(i as usize))?;
                }
                Ok(())
            }
            _ => self.store_scalar(st, p, ty.store_size() as usize, v, ty.bits()),
        }
    }

    pub fn padd(&self, p: &V, k: u64) -> V {
        match p {
            V::C(a) => V::C((*a as u64).wrapping_add(k) as u128),
            V::E(e) => v_of(bin(Op::Add, *e, konst(k as u128, 64))),
            V::A(_) => panic!("UNSUPPORTED: vector pointer"),
        }
    }

    pub fn gep(&mut self, ty: &Ty, base: V, idx: &[(Ty, V)]) -> R<V> {
        let mut cur = ty.clone();
        let mut coff: u64 = 0;
        let mut soff: Option<Ex> = None;
        for (k, (it, iv)) in idx.iter().enumerate() {
            if k == 0 {
                self.gep_add(it, iv, cur.size(), &mut coff, &mut soff)?;
                continue;
            }
            match &cur {
                Ty::Struct(..) => {
                    let V::C(c) = iv else { return unsup("symbolic struct index") };
                    coff = coff.wrapping_add(cur.field_offset(*c as usize));
                    cur = cur.elem(*c as usize);
                }
                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                    let sz = t.size();
                    self.gep_add(it, iv, sz, &mut coff, &mut soff)?;
                    let t = (**t).clone();
                    cur = t;
                }
                _ => return unsup("gep"),
            }
        }
        let p = self.padd(&base, coff);
        match soff {
            None => Ok(p),
            Some(s) => Ok(v_of(bin(Op::Add, p.ex(64), s))),
        }
    }
    fn gep_add(&mut self, it: &Ty, iv: &V, size: u64, coff: &mut u64, soff: &mut Option<Ex>) -> R<()> {
        match iv {
            V::C(c) => {
                let s = sext(*c, it.bits()) as i64 as u64;
                *coff = coff.wrapping_add(s.wrapping_mul(size));
            }
            V::E(e) => {
                let x = if width(*e) < 64 { sign_ext(*e, 64) } else { extract(*e, 0, 64) };
                let x = bin(Op::Mul, x, konst(size as u128, 64));
                *soff = Some(match *soff {
                    None => x,
                    Some(y) => bin(Op::Add, y, x),
                });
            }
            V::A(_) => return unsup("vector gep"),
        }
        Ok(())
    }

    // ------------------------------------------------------------ scalars
    pub fn binop(&mut self, op: BOp, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.binop(op, t, &a.lane(i), &b.lane(i))?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let w = ty.bits();
        let o = match op {
            BOp::FAdd | BOp::FSub | BOp::FMul | BOp::FDiv | BOp::FRem => {
                if op == BOp::FRem {
                    let (V::C(x), V::C(y)) = (a, b) else { return unsup("symbolic fmod") };
                    return Ok(V::C(if w == 64 {
                        canon64(f64::from_bits(*x as u64) % f64::from_bits(*y as u64))
                    } else {
                        canon32(f32::from_bits(*x as u32) % f32::from_bits(*y as u32))
                    }));
                }
                let f = match op {
                    BOp::FAdd => Fp::Add,
                    BOp::FSub => Fp::Sub,
                    BOp::FMul => Fp::Mul,
                    _ => Fp::Div,
                };
                return self.fpop(f, a, b, &V::C(0), w, w);
            }
            BOp::Sub => {
                if let (V::C(x), V::C(y)) = (a, b) {
                    return Ok(V::C(x.wrapping_sub(*y) & mask(w)));
                }
                return Ok(v_of(sub(a.ex(w), b.ex(w))));
            }
            BOp::Add => Op::Add,
            BOp::Mul => Op::Mul,
            BOp::UDiv => Op::UDiv,
            BOp::SDiv => Op::SDiv,
            BOp::URem => Op::URem,
            BOp::SRem => Op::SRem,
            BOp::Shl => Op::Shl,
            BOp::LShr => Op::LShr,
            BOp::AShr => Op::AShr,
            BOp::And => Op::And,
            BOp::Or => Op::Or,
            BOp::Xor => Op::Xor,
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            return Ok(V::C(fold(o, *x, *y, w)));
        }
        if w > 128 {
            return unsup(format!("integer width {w}"));
        }
        Ok(v_of(bin(o, a.ex(w), b.ex(w))))
    }

    pub fn fpop(&mut self, f: Fp, a: &V, b: &V, c: &V, aw: u32, w: u32) -> R<V> {
        if !matches!(aw, 1..=128) || (w == 16 || (aw == 16 && !matches!(f, Fp::FromUi | Fp::FromSi))) {
            return unsup("half float");
        }
        if let (V::C(x), V::C(y), V::C(z)) = (a, b, c) {
            return Ok(V::C(eval_fp(f, *x, aw, *y, *z, w)));
        }
        Ok(v_of(fp(f, a.ex(aw), b.ex(aw), c.ex(aw), w)))
    }

    pub fn icmp(&mut self, p: Pred, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.icmp(p, t, &a.lane(i), &b.lane(i))?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let w = ty.bits();
        let (c, swap, neg) = match p {
            Pred::Eq => (Cmp::Eq, false, false),
            Pred::Ne => (Cmp::Eq, false, true),
            Pred::Ult => (Cmp::Ult, false, false),
            Pred::Ule => (Cmp::Ule, false, false),
            Pred::Ugt => (Cmp::Ult, true, false),
            Pred::Uge => (Cmp::Ule, true, false),
            Pred::Slt => (Cmp::Slt, false, false),
            Pred::Sle => (Cmp::Sle, false, false),
            Pred::Sgt => (Cmp::Slt, true, false),
            Pred::Sge => (Cmp::Sle, true, false),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) {
            return Ok(V::C((fold_cmp(c, *x, *y, w) != neg) as u128));
        }
        let r = cmp(c, a.ex(w), b.ex(w));
        Ok(v_of(if neg { not(r) } else { r }))
    }

    pub fn fcmp(&mut self, p: FPred, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.fcmp(p, t, &a.lane(i), &b.lane(i))?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let w = ty.bits();
        let z = V::C(0);
        macro_rules! f {
            ($o:ident, $x:expr, $y:expr) => {
                self.fpop(Fp::$o, $x, $y, &z, w, 1)?.ex(1)
            };
        }
        let e = match p {
            FPred::False => konst(0, 1),
            FPred::True => konst(1, 1),
            FPred::Oeq => f!(Oeq, a, b),
            FPred::Olt => f!(Olt, a, b),
            FPred::Ole => f!(Ole, a, b),
            FPred::Ogt => f!(Olt, b, a),
            FPred::Oge => f!(Ole, b, a),
            FPred::One => bin(Op::Or, f!(Olt, a, b), f!(Olt, b, a)),
            FPred::Ord => not(f!(Uno, a, b)),
            FPred::Uno => f!(Uno, a, b),
            FPred::Ueq => bin(Op::Or, f!(Oeq, a, b), f!(Uno, a, b)),
            FPred::Une => not(f!(Oeq, a, b)),
            FPred::Ult => not(f!(Ole, b, a)),
            FPred::Ule => not(f!(Olt, b, a)),
            FPred::Ugt => not(f!(Ole, a, b)),
            FPred::Uge => not(f!(Olt, a, b)),
        };
        Ok(v_of(e))
    }

    pub fn cast(&mut self, op: COp, from: &Ty, v: &V, to: &Ty) -> R<V> {
        if op == COp::BitCast {
            return self.bitcast(from, v, to);
        }
        if let (Ty::Vec(n, t), Ty::Vec(_, u)) = (from, to) {
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.cast(op, t, &v.lane(i), u)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match op {
            COp::Trunc | COp::ZExt | COp::PtrToInt | COp::IntToPtr | COp::AddrSpaceCast | COp::PtrToAddr => match v {
                V::C(c) => V::C(*c & mask(tw)),
                V::E(e) => v_of(if tw <= fw { extract(*e, 0, tw) } else { zext(*e, tw) }),
                _ => return unsup("cast aggregate"),
            },
            COp::SExt => match v {
                V::C(c) => V::C(sext(*c, fw) as u128 & mask(tw)),
                V::E(e) => v_of(sign_ext(*e, tw)),
                _ => return unsup("cast aggregate"),
            },
            COp::FpToUi => self.fpop(Fp::ToUi, v, &V::C(0), &V::C(0), fw, tw)?,
            COp::FpToSi => self.fpop(Fp::ToSi, v, &V::C(0), &V::C(0), fw, tw)?,
            COp::UiToFp => self.fpop(Fp::FromUi, v, &V::C(0), &V::C(0), fw, tw)?,
            COp::SiToFp => self.fpop(Fp::FromSi, v, &V::C(0), &V::C(0), fw, tw)?,
            COp::FpTrunc | COp::FpExt => self.fpop(Fp::Cvt, v, &V::C(0), &V::C(0), fw, tw)?,
            COp::BitCast => unreachable!(),
        })
    }

    fn bitcast(&mut self, from: &Ty, v: &V, to: &Ty) -> R<V> {
        let fv = matches!(from, Ty::Vec(..));
        let tv = matches!(to, Ty::Vec(..));
        if !fv && !tv {
            return Ok(v.clone());
        }
        let total = from.bits();
        let lanes = |t: &Ty| match t {
            Ty::Vec(n, t) => (*n, t.bits()),
            t => (1, t.bits()),
        };
        let (fnn, fb) = lanes(from);
        let (tn, tb) = lanes(to);
        let get = |i: u32| -> Ex { if fv { v.lane(i as usize).ex(fb) } else { v.ex(fb) } };
        let mut out = vec![];
        for k in 0..tn {
            let (lo, hi) = (k * tb, (k + 1) * tb);
            let mut acc: Option<Ex> = None;
            let mut i = lo / fb;
            while i * fb < hi && i < fnn {
                let s = lo.max(i * fb);
                let t = hi.min((i + 1) * fb);
                let x = extract(get(i), s - i * fb, t - s);
                acc = Some(match acc {
                    None => x,
                    Some(y) => concat(x, y),
                });
                i += 1;
            }
            out.push(v_of(acc.unwrap()));
        }
        let _ = total;
        Ok(if tv { V::A(Rc::new(out)) } else { out[0].clone() })
    }

    pub fn select(&mut self, c: &V, ty: &Ty, a: &V, b: &V) -> R<V> {
        match c {
            V::C(k) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
            V::A(cs) => {
                let mut out = vec![];
                for (i, ci) in cs.iter().enumerate() {
                    out.push(self.select(ci, &ty.elem(i), &a.lane(i), &b.lane(i))?);
                }
                Ok(V::A(Rc::new(out)))
            }
            V::E(e) => match ty {
                Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                    let mut out = vec![];
                    for i in 0..ty.count() {
                        out.push(self.select(c, &ty.elem(i), &a.lane(i), &b.lane(i))?);
                    }
                    Ok(V::A(Rc::new(out)))
                }
                _ => {
                    let w = ty.bits();
                    Ok(v_of(ite(*e, a.ex(w), b.ex(w))))
                }
            },
        }
    }

    // ------------------------------------------------------------ calls
    pub fn func(&mut self, name: &str) -> R<Option<&'static Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(Some(f));
        }
        let Some(f) = self.m.func(name) else { return Ok(None) };
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs.insert(f.name.clone(), f);
        self.used.insert(f.name.clone());
        Ok(Some(f))
    }

    fn enter(&mut self, st: &mut State, f: &'static Func, args: Vec<V>, dst: Option<u32>) -> R<()> {
        if st.frames.len() > 2000 {
            return unsup("call depth");
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for ((_, r), a) in f.params.iter().zip(args) {
            regs[*r as usize] = a;
        }
        let mark = st.mem.stack;
        st.frames.push(Rc::new(Frame {
            f,
            block: 0,
            prev: u32::MAX,
            ip: 0,
            regs,
            allocas: vec![],
            stack_mark: mark,
            dst,
        }));
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let f = st.frames.pop().unwrap();
        for a in &f.allocas {
            st.mem.objs.remove(a);
        }
        st.mem.stack = f.stack_mark;
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        let top = st.top();
        if let (Some(d), Some(v)) = (f.dst, v) {
            top.regs[d as usize] = v;
        }
        top.ip += 1;
        Ok(())
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| short(&f.f.name)).collect()
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let (f, from) = {
            let t = st.frames.last().unwrap();
            (t.f, t.block)
        };
        let blk = &f.blocks[to as usize];
        let mut vals: Vec<(u32, V)> = vec![];
        let mut n = 0;
        for (d, i) in &blk.ins {
            let Ins::Phi { ty, inc } = i else { break };
            n += 1;
            let Some((v, _)) = inc.iter().find(|(_, b)| *b == from) else {
                return unsup("phi without edge");
            };
            let x = self.val(st, ty, v)?;
            vals.push((d.unwrap(), x));
        }
        let t = st.top();
        for (d, x) in vals {
            t.regs[d as usize] = x;
        }
        t.prev = from;
        t.block = to;
        t.ip = n;
        Ok(())
    }

    fn set(&mut self, st: &mut State, d: Option<u32>, v: V) {
        let t = st.top();
        if let Some(d) = d {
            t.regs[d as usize] = v;
        }
        t.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, b, ip) = {
            let t = st.frames.last().unwrap();
            (t.f, t.block, t.ip)
        };
        let (dst, ins) = &f.blocks[b as usize].ins[ip];
        let dst = *dst;
        match ins {
            Ins::Bin { op, ty, a, b } => {
                let x = self.val(st, ty, a)?;
                let y = self.val(st, ty, b)?;
                let r = self.binop(*op, ty, &x, &y)?;
                self.set(st, dst, r);
            }
            Ins::ICmp { pred, ty, a, b } => {
                let x = self.val(st, ty, a)?;
                let y = self.val(st, ty, b)?;
                let r = self.icmp(*pred, ty, &x, &y)?;
                self.set(st, dst, r);
            }
            Ins::FCmp { pred, ty, a, b } => {
                let x = self.val(st, ty, a)?;
                let y = self.val(st, ty, b)?;
                let r = self.fcmp(*pred, ty, &x, &y)?;
                self.set(st, dst, r);
            }
            Ins::FNeg { ty, a } => {
                let x = self.val(st, ty, a)?;
                let r = self.fneg(ty, &x)?;
                self.set(st, dst, r);
            }
            Ins::Select { cty, c, ty, a, b } => {
                let c = self.val(st, cty, c)?;
                let x = self.val(st, ty, a)?;
                let y = self.val(st, ty, b)?;
                let r = self.select(&c, ty, &x, &y)?;
                self.set(st, dst, r);
            }
            Ins::Cast { op, from, v, to } => {
                let x = self.val(st, from, v)?;
                let r = self.cast(*op, from, &x, to)?;
                self.set(st, dst, r);
            }
            Ins::Freeze { ty, v } => {
                let x = self.val(st, ty, v)?;
                self.set(st, dst, x);
            }
            Ins::Load { ty, p } => {
                let p = self.val(st, &Ty::Ptr, p)?;
                let r = self.load_ty(st, &p, ty)?;
                self.set(st, dst, r);
            }
            Ins::Store { ty, v, p } => {
                let v = self.val(st, ty, v)?;
                let p = self.val(st, &Ty::Ptr, p)?;
                // aggregate stores must not be half done when a fork restarts them
                let p = match (&p, ty) {
                    (V::E(_), Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) => V::C(self.conc(st, &p, 64)?),
                    _ => p,
                };
                self.store_ty(st, &p, ty, &v)?;
                self.set(st, None, V::C(0));
            }
            Ins::Gep { ty, base, bty, idx } => {
                let p = self.val(st, bty, base)?;
                let mut ix = Vec::with_capacity(idx.len());
                for (t, v) in idx {
                    ix.push((t.clone(), self.val(st, t, v)?));
                }
                let r = self.gep(ty, p, &ix)?;
                self.set(st, dst, r);
            }
            Ins::Alloca { ty, n, align } => {
                let mut size = ty.size();
                if let Some((t, v)) = n {
                    let v = self.val(st, t, v)?;
                    let k = self.conc(st, &v, t.bits())?;
                    size *= k as u64;
                }
                let a = st.mem.alloca(size, *align);
                st.top().allocas.push(a);
                self.set(st, dst, V::C(a as u128));
            }
            Ins::Phi { .. } => return unsup("phi in place"),
            Ins::Br(t) => self.jump(st, *t)?,
            Ins::CondBr(c, a, b) => {
                let c = self.val(st, &Ty::Int(1), c)?;
                let s = match c {
                    V::C(k) => k != 0,
                    V::E(e) => {
                        let ne = not(e);
                        if st.pset.contains(&e) {
                            true
                        } else if st.pset.contains(&ne) {
                            false
                        } else {
                            let side = st.model.eval(e) != 0;
                            let (mine, other) = if side { (e, ne) } else { (ne, e) };
                            if let Some(m) = self.feasible(st, other)? {
                                if self.opts.trace {
                                    eprintln!("fork in {} block {} on {}", short(&f.name), b, show(e));
                                }
                                self.forks += 1;
                                let me = st.model.clone();
                                let mut v = vec![(*a_of(ins), mine, me.clone()), (*b_of(ins), other, m.clone())];
                                if !side {
                                    v = vec![(*a_of(ins), other, m), (*b_of(ins), mine, me)];
                                }
                                return Err(Stop::Branch(v));
                            }
                            st.assume_pc(mine);
                            side
                        }
                    }
                    _ => return unsup("branch"),
                };
                self.jump(st, if s { *a } else { *b })?;
            }
            Ins::Switch { ty, v, default, cases } => {
                let v = self.val(st, ty, v)?;
                let w = ty.bits();
                match v {
                    V::C(k) => {
                        let t = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*default);
                        self.jump(st, t)?;
                    }
                    V::E(e) => {
                        let mut targets: Vec<(u32, Ex)> = vec![];
                        let mut none = konst(1, 1);
                        for (c, b) in cases {
                            let q = cmp(Cmp::Eq, e, konst(*c, w));
                            none = bin(Op::And, none, not(q));
                            match targets.iter_mut().find(|(t, _)| t == b) {
                                Some((_, x)) => *x = bin(Op::Or, *x, q),
                                None => targets.push((*b, q)),
                            }
                        }
                        match targets.iter_mut().find(|(t, _)| t == default) {
                            Some((_, x)) => *x = bin(Op::Or, *x, none),
                            None => targets.push((*default, none)),
                        }
                        let mut can = vec![];
                        for (t, c) in &targets {
                            if let Some(m) = self.feasible(st, *c)? {
                                can.push((*t, *c, m));
                            }
                        }
                        match can.len() {
                            0 => return unsup("switch"),
                            1 => {
                                st.assume_pc(can[0].1);
                                self.jump(st, can[0].0)?;
                            }
                            _ => {
                                self.forks += can.len() as u64 - 1;
                                return Err(Stop::Branch(can));
                            }
                        }
                    }
                    _ => return unsup("switch"),
                }
            }
            Ins::Ret(v) => {
                let r = match v {
                    None => None,
                    Some((t, v)) => Some(self.val(st, t, v)?),
                };
                self.ret(st, r)?;
            }
            Ins::Unreachable => {
                return unsup(format!("reached unreachable in {}", short(&f.name)));
            }
            Ins::ExtractValue { ty, v, idx } => {
                let mut x = self.val(st, ty, v)?;
                for i in idx {
                    x = x.lane(*i as usize);
                }
                self.set(st, dst, x);
            }
            Ins::InsertValue { ty, v, ety, e, idx } => {
                let x = self.val(st, ty, v)?;
                let y = self.val(st, ety, e)?;
                let r = insert(&x, idx, y);
                self.set(st, dst, r);
            }
            Ins::ExtractElement { ty, v, ity, i } => {
                let x = self.val(st, ty, v)?;
                let i = self.val(st, ity, i)?;
                let k = self.conc(st, &i, ity.bits())?;
                let r = x.lane(k as usize);
                self.set(st, dst, r);
            }
            Ins::InsertElement { ty, v, e, ity, i } => {
                let x = self.val(st, ty, v)?;
                let et = ty.elem(0);
                let y = self.val(st, &et, e)?;
                let i = self.val(st, ity, i)?;
                let k = self.conc(st, &i, ity.bits())?;
                let r = insert(&x, &[k as u32], y);
                self.set(st, dst, r);
            }
            Ins::Shuffle { ty, a, b, mty, mask } => {
                let x = self.val(st, ty, a)?;
                let y = self.val(st, ty, b)?;
                let m = self.val(st, mty, mask)?;
                let n = ty.count();
                let mut out = vec![];
                for i in 0..mty.count() {
                    let V::C(k) = m.lane(i) else { return unsup("shuffle mask") };
                    let k = k as usize;
                    out.push(if k < n { x.lane(k) } else { y.lane((k - n).min(n - 1)) });
                }
                self.set(st, dst, V::A(Rc::new(out)));
            }
            Ins::AtomicRmw { op, p, ty, v } => {
                let p = self.val(st, &Ty::Ptr, p)?;
                let p = V::C(self.conc(st, &p, 64)?);
                let v = self.val(st, ty, v)?;
                let old = self.load_ty(st, &p, ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "nand" => v_of(not(bin(Op::And, old.ex(w), v.ex(w)))),
                    "umax" => self.minmax("umax", &old, &v, w),
                    "umin" => self.minmax("umin", &old, &v, w),
                    "max" => self.minmax("smax", &old, &v, w),
                    "min" => self.minmax("smin", &old, &v, w),
                    o => self.binop(BOp::parse(o), ty, &old, &v)?,
                };
                self.store_ty(st, &p, ty, &new)?;
                self.set(st, dst, old);
            }
            Ins::CmpXchg { p, ty, cmp: cv, new } => {
                let p = self.val(st, &Ty::Ptr, p)?;
                let p = V::C(self.conc(st, &p, 64)?);
                let c = self.val(st, ty, cv)?;
                let n = self.val(st, ty, new)?;
                let old = self.load_ty(st, &p, ty)?;
                let eq = self.icmp(Pred::Eq, ty, &old, &c)?;
                let nv = self.select(&eq, ty, &n, &old)?;
                self.store_ty(st, &p, ty, &nv)?;
                self.set(st, dst, V::A(Rc::new(vec![old, eq])));
            }
            Ins::Fence => self.set(st, None, V::C(0)),
            Ins::Call { rty, callee, args } => {
                if let Val::Asm = callee {
                    let r = zero_of(rty);
                    self.notes.insert(format!("inline assembly in {} skipped", short(&f.name)));
                    self.set(st, dst, r);
                    return Ok(());
                }
                let name: Rc<str> = match callee {
                    Val::Global(n) => {
                        let mut nm = n.clone();
                        while let Some(a) = self.m.aliases.get(&nm) {
                            nm = a.clone();
                        }
                        nm
                    }
                    v => {
                        let p = self.val(st, &Ty::Ptr, v)?;
                        let a = self.conc(st, &p, 64)? as u64;
                        match self.fname.get(&a) {
                            Some(n) => n.clone(),
                            None => return unsup(format!("call to address {a:#x}")),
                        }
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    if a.ty == Ty::Meta {
                        av.push(V::C(0));
                    } else {
                        av.push(self.val(st, &a.ty, &a.val)?);
                    }
                }
                if let Some(r) = self.builtin(st, &name, rty, args, &av)? {
                    self.set(st, dst, r);
                    return Ok(());
                }
                match self.func(&name)? {
                    Some(g) => self.enter(st, g, av, dst)?,
                    None => return unsup(format!("external function {name}")),
                }
            }
        }
        Ok(())
    }

    pub fn assume(&mut self, st: &mut State, c: Ex) -> R<()> {
        match cval(c) {
            Some(0) => return Err(Stop::Cut),
            Some(_) => return Ok(()),
            None => {}
        }
        match self.feasible(st, c)? {
            None => Err(Stop::Cut),
            Some(m) => {
                st.assume_pc(c);
                st.model = m;
                Ok(())
            }
        }
    }

    pub fn check(&mut self, st: &mut State, c: Ex, id: u32) -> R<()> {
        self.checks += 1;
        *self.asserted.entry(id).or_insert(0) += 1;
        if let Some(k) = cval(c) {
            self.checks_trivial += 1;
            if k == 0 {
                let m = st.model.clone();
                self.violate(st, id, "assert", format!("check {id} failed"), &m);
                return Err(Stop::Cut);
            }
            return Ok(());
        }
        let nc = not(c);
        if let Some(m) = self.feasible(st, nc)? {
            self.violate(st, id, "assert", format!("check {id} failed"), &m);
        }
        self.assume(st, c)
    }

    fn violate(&mut self, st: &State, id: u32, kind: &str, msg: String, m: &Rc<Model>) {
        let same = self.viol.iter().filter(|v| v.id == id && v.kind == kind).count();
        if same >= 5 {
            return;
        }
        let inputs = st.inputs.iter().map(|(e, w)| (*w, m.eval(*e))).collect();
        self.viol.push(Violation { id, kind: kind.into(), msg, inputs, trace: self.backtrace(st) });
    }

    /// Explore everything; None on success, otherwise why it is inconclusive.
    fn explore(&mut self, entry: &str) -> Option<String> {
        let f = match self.func(entry) {
            Ok(Some(f)) => f,
            _ => return Some(format!("no entry {entry}")),
        };
        let mut st = State {
            frames: vec![],
            mem: Mem::new(),
            path: vec![],
            pset: Rc::new(HashSet::new()),
            model: Rc::new(Model::new(HashMap::new())),
            inputs: vec![],
            panic_id: 0,
            forks: 0,
        };
        let _ = self.enter(&mut st, f, vec![], None);
        match self.region(st, Where { depth: 0, block: 0 }) {
            Ok(_) => self.lost_why.clone(),
            Err(s) => Some(s),
        }
    }

    /// Run every path from `st` to `stop`; the states that get there, merged where possible.
    fn region(&mut self, st: State, stop: Where) -> Result<Vec<State>, String> {
        let mut work = vec![st];
        let mut out: Vec<State> = vec![];
        let saved = std::mem::take(&mut self.work);
        while let Some(mut st) = work.pop() {
            if self.opts.stop_first && !self.viol.is_empty() {
                break;
            }
            if self.paths + self.cut > self.opts.max_paths {
                return Err("path limit".into());
            }
            if self.t0.elapsed().as_secs_f64() > self.opts.time_limit {
                return Err(format!("time limit; at {}", self.backtrace(&st).join(" < ")));
            }
            let r = self.run(&mut st, &stop);
            match r {
                Stop::Done => {
                    self.paths += 1;
                    if self.samples.len() < 8 && self.opts.concrete.is_none() {
                        let v: Vec<u128> = st.inputs.iter().map(|(e, _)| st.model.eval(*e)).collect();
                        self.samples.push(v);
                    }
                }
                Stop::Cut => self.cut += 1,
                Stop::Panic(msg) => {
                    if st.panic_id == u32::MAX {
                        self.panics_allowed += 1;
                    } else {
                        self.paths += 1;
                        let m = st.model.clone();
                        let id = st.panic_id;
                        self.violate(&st, id, "panic", msg, &m);
                    }
                }
                Stop::Unsup(s) => {
                    // this path is lost, so the run cannot succeed; others may still show a violation
                    let s = format!("{s}; at {}", self.backtrace(&st).join(" < "));
                    self.lost += 1;
                    if self.lost_why.is_none() {
                        self.lost_why = Some(s.clone());
                    }
                    if self.lost >= 12 {
                        return Err(s);
                    }
                }
                Stop::Meet => out.push(st),
                Stop::Branch(ts) => {
                    let depth = st.frames.len();
                    let (f, b) = {
                        let t = st.frames.last().unwrap();
                        (t.f, t.block)
                    };
                    let mut subs = vec![];
                    for (t, c, m) in ts {
                        let mut s = st.clone();
                        s.assume_pc(c);
                        s.model = m;
                        s.forks += 1;
                        match self.jump(&mut s, t) {
                            Ok(()) => subs.push(s),
                            Err(Stop::Unsup(e)) => return Err(e),
                            Err(_) => return Err("jump".into()),
                        }
                    }
                    if self.opts.no_merge {
                        work.extend(subs);
                    } else {
                        let cfg = f.cfg.get_or_init(|| Cfg::new(f));
                        let meet = match cfg.ipdom[b as usize] {
                            u32::MAX => Where { depth: depth - 1, block: u32::MAX },
                            j => Where { depth, block: j },
                        };
                        let mut got = vec![];
                        for s in subs {
                            got.extend(self.region(s, meet)?);
                        }
                        let got = self.merge_all(got);
                        // the meeting place may be the stop of this region too
                        for s in got {
                            if at(&s, &stop) {
                                out.push(s);
                            } else {
                                work.push(s);
                            }
                        }
                    }
                }
            }
            work.extend(self.work.drain(..));
        }
        self.work = saved;
        Ok(self.merge_all(out))
    }

    fn run(&mut self, st: &mut State, stop: &Where) -> Stop {
        let mut n: u64 = 0;
        let mut moved = at(st, stop);
        if moved {
            // a forked state resumes inside; a fresh one at the meeting point is already there
            let t = st.frames.last().unwrap();
            let phis = if stop.block == u32::MAX { t.ip } else { phi_count(t.f, t.block) };
            if t.ip == phis {
                return Stop::Meet;
            }
        }
        loop {
            self.steps += 1;
            n += 1;
            if n & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.opts.time_limit {
                return Stop::Unsup("time limit".into());
            }
            if self.opts.trace {
                let t = st.frames.last().unwrap();
                if t.ip == 0 && t.block == 0 {
                    eprintln!("{}-> {}", " ".repeat(st.frames.len()), short(&t.f.name));
                }
            }
            let depth = st.frames.len();
            let block = st.frames.last().unwrap().block;
            if let Err(s) = self.step(st) {
                return s;
            }
            let d2 = st.frames.len();
            if d2 == stop.depth {
                if stop.block == u32::MAX {
                    if depth > d2 {
                        return Stop::Meet;
                    }
                } else {
                    let t = st.frames.last().unwrap();
                    if t.block == stop.block && depth == d2 {
                        moved = block != t.block || t.ip == phi_count(t.f, t.block) && is_jump(t.f, block);
                        if moved && t.ip == phi_count(t.f, t.block) {
                            return Stop::Meet;
                        }
                    }
                }
            }
        }
    }

    fn merge_all(&mut self, v: Vec<State>) -> Vec<State> {
        if v.len() < 2 || self.opts.no_merge {
            return v;
        }
        let mut out: Vec<State> = vec![];
        for s in v {
            let mut s = Some(s);
            for o in out.iter_mut() {
                if let Some(m) = self.merge(o, s.as_ref().unwrap()) {
                    *o = m;
                    s = None;
                    self.merges += 1;
                    break;
                }
            }
            if let Some(s) = s {
                out.push(s);
            }
        }
        out
    }

    fn merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.panic_id != b.panic_id || a.inputs != b.inputs {
            return None;
        }
        if a.mem.objs.len() != b.mem.objs.len() {
            return None;
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if Rc::ptr_eq(x, y) {
                continue;
            }
            if !std::ptr::eq(x.f, y.f) || x.block != y.block || x.ip != y.ip || x.allocas != y.allocas || x.dst != y.dst {
                return None;
            }
        }
        for ((k, x), (l, y)) in a.mem.objs.iter().zip(&b.mem.objs) {
            if k != l || x.size != y.size || x.kind != y.kind {
                return None;
            }
        }
        let n = a.path.iter().zip(&b.path).take_while(|(x, y)| x == y).count();
        let conj = |v: &[Ex]| v.iter().fold(konst(1, 1), |c, x| bin(Op::And, c, *x));
        let ca = conj(&a.path[n..]);
        let cb = conj(&b.path[n..]);
        let c = if a.path.len() - n <= 1 || b.path.len() - n > a.path.len() - n { ca } else { not(cb) };
        let mut frames = vec![];
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if Rc::ptr_eq(x, y) {
                frames.push(x.clone());
                continue;
            }
            let f = x.f;
            let cfg = f.cfg.get_or_init(|| Cfg::new(f));
            // callers wait at their call: what it defines is dead until it returns
            let live = cfg.live_at(f, x.block, x.ip);
            let mut regs = vec![V::C(0); x.regs.len()];
            for r in 0..regs.len() {
                if !crate::cfg::bit(&live, r as u32) {
                    continue;
                }
                let (p, q) = (&x.regs[r], &y.regs[r]);
                if veq(p, q) {
                    regs[r] = p.clone();
                } else {
                    let ty = cfg.reg_ty[r].as_ref()?;
                    regs[r] = vite(c, ty, p, q)?;
                }
            }
            frames.push(Rc::new(Frame { regs, ..(**x).clone() }));
        }
        let mut mem = a.mem.clone();
        mem.heap = a.mem.heap.max(b.mem.heap);
        for ((k, x), (_, y)) in a.mem.objs.iter().zip(&b.mem.objs) {
            if Rc::ptr_eq(x, y) || x.data == y.data && x.sym == y.sym {
                continue;
            }
            let mut o = (**x).clone();
            let mut diffs = 0;
            let size = x.size as usize;
            let mut off = 0;
            while off < size {
                let w = (size - off).min(8);
                if x.data[off..off + w] == y.data[off..off + w] && x.sym.is_empty() && y.sym.is_empty() {
                    off += w;
                    continue;
                }
                let p = x.load(off, w);
                let q = y.load(off, w);
                if p != q {
                    if w == 8 && off % 8 == 0 {
                        let ptr = |v: &Result<u128, Ex>| match v {
                            Ok(v) => is_ptr(*v),
                            Err(e) => ptr_ex(*e),
                        };
                        if ptr(&p) || ptr(&q) {
                            return None;
                        }
                    }
                    for k in off..off + w {
                        let (p, q) = (x.byte(k), y.byte(k));
                        if p != q {
                            o.store_byte(k, ite(c, p, q));
                            diffs += 1;
                        }
                    }
                    if diffs > 1024 {
                        return None;
                    }
                }
                off += w;
            }
            mem.objs.insert(*k, Rc::new(o));
        }
        let mut path = a.path[..n].to_vec();
        let both = bin(Op::Or, ca, cb);
        let mut extra = vec![];
        conjuncts(both, &mut extra);
        path.extend(extra);
        let pset: HashSet<Ex> = path.iter().copied().collect();
        Some(State {
            frames,
            mem,
            path,
            pset: Rc::new(pset),
            model: a.model.clone(),
            inputs: a.inputs.clone(),
            panic_id: a.panic_id,
            forks: a.forks.max(b.forks),
        })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Where {
    depth: usize,
    block: u32,
}

fn at(st: &State, w: &Where) -> bool {
    st.frames.len() == w.depth
        && st.frames.last().is_some_and(|t| w.block == u32::MAX || t.block == w.block && t.ip == phi_count(t.f, t.block))
}
fn phi_count(f: &Func, b: u32) -> usize {
    f.blocks[b as usize].ins.iter().take_while(|x| matches!(x.1, Ins::Phi { .. })).count()
}
fn is_jump(f: &Func, b: u32) -> bool {
    // a block that can branch to itself
    crate::cfg::succs(&f.blocks[b as usize]).contains(&b)
}
fn a_of(i: &Ins) -> &u32 {
    match i {
        Ins::CondBr(_, a, _) => a,
        _ => unreachable!(),
    }
}
fn b_of(i: &Ins) -> &u32 {
    match i {
        Ins::CondBr(_, _, b) => b,
        _ => unreachable!(),
    }
}
pub fn is_ptr(v: u128) -> bool {
    v >= FUNC0 as u128 && v < 0x8000_0000_0000
}
/// a choice among addresses
fn ptr_ex(e: Ex) -> bool {
    match node(e) {
        Node::Const(c) => width(e) == 64 && is_ptr(*c),
        Node::Ite(_, a, b) => ptr_ex(*a) || ptr_ex(*b),
        _ => false,
    }
}
fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::E(x), V::E(y)) => x == y,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| veq(p, q)),
        _ => false,
    }
}
fn vite(c: Ex, ty: &Ty, a: &V, b: &V) -> Option<V> {
    if veq(a, b) {
        return Some(a.clone());
    }
    match ty {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
            let mut o = vec![];
            for i in 0..ty.count() {
                o.push(vite(c, &ty.elem(i), &a.lane(i), &b.lane(i))?);
            }
            Some(V::A(Rc::new(o)))
        }
        _ => {
            let w = ty.bits();
            let p = |v: &V| match v {
                V::C(x) => w == 64 && is_ptr(*x),
                V::E(e) => w == 64 && ptr_ex(*e),
                _ => true,
            };
            if p(a) || p(b) {
                return None;
            }
            Some(v_of(ite(c, a.ex(w), b.ex(w))))
        }
    }
}

fn merge(a: &HashMap<u32, u128>, b: &HashMap<u32, u128>) -> HashMap<u32, u128> {
    let mut m = a.clone();
    m.extend(b.iter().map(|(k, v)| (*k, *v)));
    m
}

fn insert(v: &V, idx: &[u32], x: V) -> V {
    if idx.is_empty() {
        return x;
    }
    let V::A(items) = v else { panic!("UNSUPPORTED: insert into scalar") };
    let mut n = (**items).clone();
    let k = (idx[0] as usize).min(n.len() - 1);
    n[k] = insert(&n[k], &idx[1..], x);
    V::A(Rc::new(n))
}

fn ite_leaves(e: Ex, c: Ex, out: &mut Vec<(Ex, u64)>) -> bool {
    if out.len() > 64 {
        return false;
    }
    match node(e) {
        Node::Const(a) => {
            out.push((c, *a as u64));
            true
        }
        Node::Ite(q, x, y) => {
            let (q, x, y) = (*q, *x, *y);
            ite_leaves(x, bin(Op::And, c, q), out) && ite_leaves(y, bin(Op::And, c, not(q)), out)
        }
        _ => {
            out.clear();
            false
        }
    }
}

/// (stride, phase): the value is phase + k*stride, as far as its shape tells
fn stride_of(e: Ex) -> (u64, u64) {
    fn go(e: Ex) -> u64 {
        match node(e) {
            Node::Const(0) => 0,
            Node::Const(c) => *c as u64,
            Node::Bin(Op::Mul, x, k) => {
                if let Some(k) = cval(*k) {
                    if k < 1 << 32 && umax(*x).checked_mul(k).is_some_and(|m| m < 1 << 63) {
                        return k as u64;
                    }
                }
                1u64 << tz(e).min(32)
            }
            Node::Bin(Op::Add, x, y) => {
                // sums must not wrap for a non-power-of-two stride
                let (a, b) = (go(*x), go(*y));
                let g = gcd(a, b);
                if umax(*x).checked_add(umax(*y)).is_some_and(|m| m < 1 << 63) { g } else { 1u64 << g.trailing_zeros().min(32) }
            }
            Node::Ite(_, a, b) => gcd(go(*a), go(*b)),
            _ => 1u64 << tz(e).min(32),
        }
    }
    match node(e) {
        Node::Bin(Op::Add, x, k) if cval(*k).is_some() => {
            let s = go(*x).max(1);
            let c = cval(*k).unwrap() as u64;
            if s.is_power_of_two() {
                (s, c % s)
            } else if c < 1 << 40 {
                (s, c % s)
            } else {
                // negative constant: modular phase is only right for powers of two
                let p = 1u64 << s.trailing_zeros();
                (p, c % p)
            }
        }
        _ => (go(e).max(1), 0),
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn index_of(off: Ex, stride: u64, phase: u64, count: u64) -> Ex {
    let x = sub(off, konst(phase as u128, 64));
    let i = div_exact(x, stride);
    let bits = (64 - (count.max(2) - 1).leading_zeros()).max(1);
    extract(i, 0, bits.min(64))
}
fn div_exact(x: Ex, k: u64) -> Ex {
    if k == 1 {
        return x;
    }
    match node(x) {
        Node::Bin(Op::Mul, a, c) if cval(*c) == Some(k as u128) => *a,
        _ => bin(Op::UDiv, x, konst(k as u128, 64)),
    }
}

/// readable part of a mangled (v0) name
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[s..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if l > 0 && l < 200 && i + l <= b.len() && n.is_char_boundary(i + l) {
                let id = &n[i..i + l];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(id.to_string());
                }
                i += l;
            }
        } else if b[i] == b's' && n[i..].find('_').is_some_and(|p| p < 16 && n[i + 1..i + p].bytes().all(|c| c.is_ascii_alphanumeric())) {
            i += n[i..].find('_').unwrap() + 1;
        } else {
            i += 1;
        }
    }
    if out.len() > 8 {
        out.truncate(8);
    }
    out.join("::")
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut o = Opts { max_paths: 2_000_000, time_limit: 600.0, ..Default::default() };
    let mut ll = None;
    let mut entry = None;
    let mut out = None;
    let mut qt = 60000u32;
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        let mut next = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--entry" => entry = Some(next()),
            "--out" => out = Some(next()),
            "--trace" => o.trace = true,
            "--verbose" => o.verbose = true,
            "--stub-fmt" => o.stub_fmt = true,
            "--no-merge" => o.no_merge = true,
            "--stop-first" => o.stop_first = true,
            "--max-paths" => o.max_paths = next().parse().unwrap(),
            "--time" => o.time_limit = next().parse().unwrap(),
            "--qtime" => qt = next().parse().unwrap(),
            "--dump" => o.dump = Some(next()),
            "--stub" => {
                let s = next();
                let (a, b) = s.split_once('=').unwrap();
                o.stubs.push((a.into(), b.into()));
            }
            "--concrete" => {
                let s = next();
                o.concrete = Some(s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
            }
            _ => ll = Some(a.to_string()),
        }
        i += 1;
    }
    let src = std::fs::read_to_string(ll.expect("module")).expect("read module");
    let entry = entry.expect("--entry");
    let m = Module::load(src);
    let mut z = Z3::new();
    z.timeout_ms = qt;
    let mut e = Engine {
        m,
        z3: z,
        funcs: HashMap::new(),
        gaddr: HashMap::new(),
        globals: BTreeMap::new(),
        gnext: GLOB0,
        faddr: HashMap::new(),
        fname: HashMap::new(),
        cache: HashMap::new(),
        work: VecDeque::new(),
        opts: o,
        used: BTreeSet::new(),
        viol: vec![],
        reached: BTreeMap::new(),
        paths: 0,
        lost: 0,
        lost_why: None,
        samples: vec![],
        asserted: BTreeMap::new(),
        panics_allowed: 0,
        cut: 0,
        steps: 0,
        checks: 0,
        checks_trivial: 0,
        forks: 0,
        merges: 0,
        t0: Instant::now(),
        dumpn: 0,
        notes: BTreeSet::new(),
    };
    let why = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.explore(&entry))) {
        Ok(w) => w,
        Err(p) => {
            let s = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or("engine panic".into());
            Some(s)
        }
    };
    let mut j = String::from("{");
    j.push_str(&format!("\"entry\":{},", json_str(&entry)));
    let status = if !e.viol.is_empty() {
        "violation"
    } else if why.is_some() {
        "inconclusive"
    } else {
        "ok"
    };
    j.push_str(&format!("\"status\":\"{status}\","));
    j.push_str(&format!("\"why\":{},", json_str(why.as_deref().unwrap_or(""))));
    j.push_str("\"violations\":[");
    for (k, v) in e.viol.iter().enumerate() {
        if k > 0 {
            j.push(',');
        }
        j.push_str(&format!(
            "{{\"id\":{},\"kind\":{},\"msg\":{},\"inputs\":[{}],\"widths\":[{}],\"trace\":[{}]}}",
            v.id,
            json_str(&v.kind),
            json_str(&v.msg),
            v.inputs.iter().map(|(_, x)| x.to_string()).collect::<Vec<_>>().join(","),
            v.inputs.iter().map(|(w, _)| w.to_string()).collect::<Vec<_>>().join(","),
            v.trace.iter().map(|t| json_str(t)).collect::<Vec<_>>().join(",")
        ));
    }
    j.push_str("],\"reached\":{");
    j.push_str(&e.reached.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect::<Vec<_>>().join(","));
    j.push_str("},\"asserted\":{");
    j.push_str(&e.asserted.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect::<Vec<_>>().join(","));
    j.push_str("},\"samples\":[");
    j.push_str(&e.samples.iter().map(|v| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    j.push_str("],");
    j.push_str(&format!(
        "\"paths\":{},\"cut\":{},\"panics_allowed\":{},\"forks\":{},\"merges\":{},\"steps\":{},\"checks\":{},\"checks_trivial\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"solver_seconds\":{:.3},\"slowest_query\":{:.3},\"seconds\":{:.3},\"solver\":{},",
        e.paths, e.cut, e.panics_allowed, e.forks, e.merges, e.steps, e.checks, e.checks_trivial,
        e.z3.queries, e.z3.sat, e.z3.unsat, e.z3.unknown, e.z3.fallback, e.z3.time, e.z3.slowest,
        e.t0.elapsed().as_secs_f64(), json_str(&z3::version())
    ));
    j.push_str(&format!("\"notes\":[{}],", e.notes.iter().map(|n| json_str(n)).collect::<Vec<_>>().join(",")));
    let fns: BTreeSet<String> = e.used.iter().map(|n| short(n)).collect();
    j.push_str(&format!("\"functions\":[{}]}}", fns.iter().map(|n| json_str(n)).collect::<Vec<_>>().join(",")));
    match out {
        Some(p) => std::fs::write(p, &j).expect("write"),
        None => println!("{j}"),
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}
