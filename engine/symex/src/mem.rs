//! Memory: a map of allocations, each byte concrete or an 8-bit expression.
use crate::expr::*;
use crate::ir::align_up;
use std::collections::BTreeMap;
use std::rc::Rc;

thread_local! {
    // values that were stored, by their lowest byte: a load of exactly those bytes gives the value back
    static WHOLE: std::cell::RefCell<std::collections::HashMap<(Ex, usize), Ex>> = Default::default();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Stack,
    Heap,
    Const,
    Global,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, Ex>,
    pub kind: Kind,
}

impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind) -> Obj {
        Obj { base, size, data: vec![0; size as usize], sym: BTreeMap::new(), kind }
    }
    pub fn concrete(&self, off: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym.range(off as u32..(off + n) as u32).next().is_none()
    }
    pub fn byte(&self, off: usize) -> Ex {
        match self.sym.get(&(off as u32)) {
            Some(e) => *e,
            None => konst(self.data[off] as u128, 8),
        }
    }
    /// little-endian load of n bytes (n <= 16)
    pub fn load(&self, off: usize, n: usize) -> Result<u128, Ex> {
        if self.concrete(off, n) {
            let mut v = 0u128;
            for k in (0..n).rev() {
                v = v << 8 | self.data[off + k] as u128;
            }
            Ok(v)
        } else {
            let mut e = self.byte(off);
            if n > 1 {
                if let Some(w) = WHOLE.with(|m| m.borrow().get(&(e, n)).copied()) {
                    if (1..n).all(|k| self.byte(off + k) == extract(w, 8 * k as u32, 8)) {
                        return Err(w);
                    }
                }
            }
            for k in 1..n {
                e = concat(self.byte(off + k), e);
            }
            match cval(e) {
                Some(c) => Ok(c),
                None => Err(e),
            }
        }
    }
    pub fn load_ex(&self, off: usize, n: usize) -> Ex {
        match self.load(off, n) {
            Ok(c) => konst(c, n as u32 * 8),
            Err(e) => e,
        }
    }
    pub fn store_c(&mut self, off: usize, n: usize, v: u128) {
        for k in 0..n {
            self.data[off + k] = (v >> (8 * k)) as u8;
        }
        if !self.sym.is_empty() {
            for k in 0..n {
                self.sym.remove(&((off + k) as u32));
            }
        }
    }
    pub fn store_byte(&mut self, off: usize, e: Ex) {
        match cval(e) {
            Some(c) => {
                self.data[off] = c as u8;
                self.sym.remove(&(off as u32));
            }
            None => {
                self.sym.insert(off as u32, e);
            }
        }
    }
    pub fn store_ex(&mut self, off: usize, n: usize, e: Ex) {
        for k in 0..n {
            let b = extract(e, 8 * k as u32, 8);
            if k == 0 && n > 1 && cval(e).is_none() {
                WHOLE.with(|m| m.borrow_mut().insert((b, n), e));
            }
            self.store_byte(off + k, b);
        }
    }
}

#[derive(Clone)]
pub struct Mem {
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub heap: u64,
    pub stack: u64,
}

pub const HEAP0: u64 = 0x2000_0000_0000;
pub const STACK0: u64 = 0x7000_0000_0000;
pub const GLOB0: u64 = 0x1000_0000_0000;
pub const FUNC0: u64 = 0x0800_0000_0000;

impl Mem {
    pub fn new() -> Mem {
        Mem { objs: BTreeMap::new(), heap: HEAP0, stack: STACK0 }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = align_up(self.heap, a);
        self.heap = base + size + 64;
        self.objs.insert(base, Rc::new(Obj::new(base, size, Kind::Heap)));
        base
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = align_up(self.stack, a);
        self.stack = base + size + 32;
        self.objs.insert(base, Rc::new(Obj::new(base, size, Kind::Stack)));
        base
    }
    pub fn find(&self, addr: u64, n: u64) -> Option<&Rc<Obj>> {
        let (_, o) = self.objs.range(..=addr).next_back()?;
        if addr + n <= o.base + o.size { Some(o) } else { None }
    }
    pub fn find_mut(&mut self, addr: u64, n: u64) -> Option<&mut Obj> {
        let (_, o) = self.objs.range_mut(..=addr).next_back()?;
        if addr + n <= o.base + o.size { Some(Rc::make_mut(o)) } else { None }
    }
}
