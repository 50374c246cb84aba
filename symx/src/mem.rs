//! Object-based memory: address = (object id << 32) | offset. Copy-on-write, cheap to clone.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct V { pub c: u64, pub e: N } // e == 0: the concrete value c; otherwise the node e
pub fn vc(c: u64) -> V { V { c, e: 0 } }

pub const MAXOBJ: u64 = 1 << 31;

/// sym[i] == 0: byte i is concrete; otherwise (node << 8) | k: byte k (little endian) of the node.
#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<u64>, pub nsym: u32, pub ro: bool, pub heap: bool, /// Stores to symbolic addresses, in order: address, value, whether the value is added to the old one.
    pub log: Vec<(N, N, bool)> }
/// Added to nsym while the log of stores to symbolic addresses is not empty, so that every fast path is off.
pub const LOGGED: u32 = 1 << 30;

impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: vec![], nsym: 0, ro: false, heap: false, log: vec![] } }
    pub fn set_conc(&mut self, off: usize, n: usize) {
        if self.nsym > 0 { for i in off..off + n { if self.sym[i] != 0 { self.sym[i] = 0; self.nsym -= 1; } } }
    }
    pub fn set_sym(&mut self, off: usize, s: u64) {
        if self.sym.is_empty() { self.sym = vec![0; self.data.len()]; }
        if self.sym[off] == 0 { self.nsym += 1; }
        self.sym[off] = s;
    }
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem { pub chunks: Vec<Rc<Chunk>>, pub next: u32, pub free: Vec<u32>, pub live: u64 }

impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![], next: 0, free: vec![], live: 0 } }
    pub fn put(&mut self, id: u32, o: Obj) {
        let c = id as usize / CH;
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        if id >= self.next { self.next = id + 1; }
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = match self.free.pop() { Some(i) => i, None => self.next };
        self.live += o.data.len() as u64;
        self.put(id, o);
        id
    }
    pub fn free(&mut self, id: u32) -> bool {
        let c = id as usize / CH;
        if c >= self.chunks.len() { return false; }
        let slot = &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH];
        if let Some(o) = slot.take() { self.live -= (o.data.len() as u64).min(self.live); self.free.push(id); true } else { false }
    }
    #[inline(always)]
    pub fn get(&self, id: u64) -> Option<&Obj> {
        let c = self.chunks.get((id as usize) / CH)?;
        unsafe { c.get_unchecked(id as usize % CH) }.as_deref()
    }
    #[inline(always)]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = self.chunks.get_mut((id as usize) / CH)?;
        let s = unsafe { Rc::make_mut(c).get_unchecked_mut(id as usize % CH) };
        s.as_mut().map(|r| Rc::make_mut(r))
    }
}
