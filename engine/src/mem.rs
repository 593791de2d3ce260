//! Copy-on-write object memory with a symbolic overlay.
use crate::term::TId;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
    Func,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    /// (offset, size, term), sorted by offset, non-overlapping
    pub sym: Vec<(u32, u8, TId)>,
    pub kind: Kind,
}

impl Obj {
    pub fn new(n: usize, kind: Kind) -> Obj {
        Obj { data: vec![0; n], sym: vec![], kind }
    }
    #[inline]
    pub fn first_sym(&self, off: u32) -> usize {
        if self.sym.is_empty() {
            return 0;
        }
        // first entry whose end is > off
        self.sym.partition_point(|e| e.0 + e.1 as u32 <= off)
    }
    #[inline]
    pub fn has_sym(&self, off: u32, n: u32) -> bool {
        let i = self.first_sym(off);
        i < self.sym.len() && self.sym[i].0 < off + n
    }
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u32,
}

impl Mem {
    pub fn new(first: u32) -> Mem {
        Mem { chunks: vec![], next: first }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let c = self.chunks.get(id as usize / CH)?;
        c.get(id as usize % CH)?.as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        if c[id as usize % CH].is_none() {
            return None;
        }
        let c = Rc::make_mut(c);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let k = id as usize / CH;
        while self.chunks.len() <= k {
            self.chunks.push(EMPTY.with(|e| e.clone()));
        }
        let c = Rc::make_mut(&mut self.chunks[k]);
        c[id as usize % CH] = o;
        // share empty chunks so that long runs stay cheap to fork
        if c[id as usize % CH].is_none() && c.iter().all(|x| x.is_none()) {
            self.chunks[k] = EMPTY.with(|e| e.clone());
        }
    }
    pub fn alloc(&mut self, n: usize, kind: Kind) -> u32 {
        let id = self.next;
        self.next += 1;
        self.set(id, Some(Rc::new(Obj::new(n, kind))));
        id
    }
}
thread_local! {
    static EMPTY: Rc<Chunk> = Rc::new(vec![None; CH]);
}
