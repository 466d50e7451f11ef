//! Object memory: an address is `(object + 1) << 32 | offset`. Objects are copy-on-write.

use std::rc::Rc;

use crate::expr::E;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per-byte symbolic overlay, 0 = concrete
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Vec<u32>,
    next: u32,
    pub live: u32,
}

impl Mem {
    pub fn new() -> Self { Mem { chunks: vec![], free: vec![], next: 0, live: 0 } }

    pub fn alloc(&mut self, size: usize) -> u32 { self.insert(Rc::new(Obj { data: vec![0; size], sym: None, ro: false })) }

    pub fn insert(&mut self, o: Rc<Obj>) -> u32 {
        self.live += 1;
        if let Some(id) = self.free.pop() {
            Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = Some(o);
            return id;
        }
        let id = self.next;
        self.next += 1;
        if id as usize / CH == self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = Some(o);
        id
    }

    pub fn release(&mut self, id: u32) {
        self.live -= 1;
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = None;
        self.free.push(id);
    }

    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_deref()
    }

    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(id as usize / CH)?);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
}

impl Obj {
    pub fn sym_at(&self, i: usize) -> E { self.sym.as_ref().map(|s| s[i]).unwrap_or(0) }
    pub fn any_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|&e| e != 0),
        }
    }
    pub fn set_conc(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym {
            for x in &mut s[off..off + b.len()] {
                *x = 0;
            }
        }
    }
    pub fn set_sym(&mut self, off: usize, e: E) {
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])[off] = e;
    }
}
