//! Path-forking symbolic interpreter.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

use crate::expr::{mask, sext128, Arena, Op, E};
use crate::intr::{classify, Bi};
use crate::ir::*;
use crate::mem::{Mem, Obj};
use crate::solver::{Model, Res, Solver};

pub enum Stop {
    Done,
    Panic(String),
    Drop,
    Error(String),
}

pub type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub b: u32,
    pub ip: usize,
    pub regs: Vec<V>,
    pub dst: Option<u32>,
    pub allocas: Vec<u32>,
}

pub struct HashRec {
    pub kind: u8,
    pub input: Vec<(u8, E)>,
    pub symbolic: bool,
    pub out: Vec<u8>,
    pub prev: Option<Rc<HashRec>>,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub inputs: Vec<E>,
    pub hashes: Option<Rc<HashRec>>,
    pub covers: Rc<BTreeSet<String>>,
    pub panic_known: Option<(String, E)>,
    pub steps: u64,
    pub oracle_n: u32,
    pub nchecks: u32,
    pub ptrs: Rc<HashMap<String, u64>>,
    pub allow_panic: bool,
    pub fixed: Rc<HashMap<E, u128>>,
}

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub inputs: Vec<(u32, u128)>,
    pub trace: Vec<String>,
    pub known: Option<String>,
    pub kind: &'static str,
}

pub struct Limits {
    pub max_instr: u64,
    pub max_paths: u64,
    pub max_time: f64,
    pub max_depth: usize,
}

pub struct Exec {
    pub a: Arena,
    pub m: Module,
    pub s: Solver,
    pub bis: Vec<Option<Bi>>,
    pub work: Vec<State>,
    pub instr: u64,
    pub forks: u64,
    pub paths_done: u64,
    pub paths_panic: u64,
    pub paths_allowed_panic: u64,
    pub paths_dropped: u64,
    pub checks: BTreeMap<String, (u64, u64)>, // evaluated, solver-decided (symbolic)
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_count: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(u32, u128)>, Vec<String>)>,
    pub sample_seen: u64,
    pub inconclusive: Vec<String>,
    pub funcs_run: HashMap<u32, u64>,
    pub lim: Limits,
    pub t0: Instant,
    pub rng: u64,
    pub max_samples: usize,
    pub tier: u64,
    pub debug: u32,
    pub max_pc: usize,
    pub branch_sites: HashMap<(u32, u32, u32), u64>,
}

pub fn is_conc(v: &V) -> bool { matches!(v, V::C(_) | V::B(..)) }

pub fn conc(v: &V) -> Option<u128> {
    match v {
        V::C(c) => Some(*c as u128),
        V::B(l, h) => Some(*l as u128 | (*h as u128) << 64),
        _ => None,
    }
}

impl Exec {
    pub fn new(a: Arena, m: Module, s: Solver, lim: Limits) -> Self {
        let bis = m.funcs.iter().map(|f| classify(&f.name, f.range.is_some())).collect();
        Exec {
            a,
            m,
            s,
            bis,
            work: vec![],
            instr: 0,
            forks: 0,
            paths_done: 0,
            paths_panic: 0,
            paths_allowed_panic: 0,
            paths_dropped: 0,
            checks: BTreeMap::new(),
            covers: BTreeMap::new(),
            violations: vec![],
            viol_count: BTreeMap::new(),
            samples: vec![],
            sample_seen: 0,
            inconclusive: vec![],
            funcs_run: HashMap::new(),
            lim,
            t0: Instant::now(),
            rng: 0x9E3779B97F4A7C15,
            max_samples: 12, tier: 0,
            debug: 0,
            max_pc: 0,
            branch_sites: HashMap::new(),
        }
    }

    pub fn mkv(&mut self, e: E) -> V {
        let w = self.a.w(e);
        if w <= 128 {
            if let Some(c) = self.a.cval(e) {
                return mkc(&mut self.a, c, w);
            }
        }
        V::S(e)
    }

    pub fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.a.c(*c as u128, w),
            V::B(l, h) => self.a.c(*l as u128 | (*h as u128) << 64, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as expression"),
        }
    }

    // ------------------------------------------------------------ decisions

    pub fn add_pc(&mut self, st: &mut State, c: E) {
        if self.a.cval(c).is_some() {
            return;
        }
        // split conjunctions so that slicing works well
        if let Op::And(x, y) = self.a.op(c) {
            self.add_pc(st, x);
            self.add_pc(st, y);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
            self.max_pc = self.max_pc.max(st.pc.len());
            if let Op::Eq(x, k) = self.a.op(c) {
                if let Some(v) = self.a.cval(k) {
                    Rc::make_mut(&mut st.fixed).insert(x, v);
                }
            }
        }
    }

    pub fn merge_model(&mut self, st: &mut State, m: &Model) {
        if m.is_empty() {
            return;
        }
        let mm = Rc::make_mut(&mut st.model);
        for (k, v) in m {
            mm.insert(*k, *v);
        }
    }

    pub fn ev(&mut self, st: &State, e: E) -> u128 {
        self.a.new_stamp();
        self.a.eval(e, &st.model)
    }

    /// Satisfiability of `pc ∧ q`.
    pub fn sat(&mut self, st: &State, q: E) -> R<Option<Rc<Model>>> {
        match self.s.check(&mut self.a, &st.pc, q, &st.model) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Error(format!("solver returned unknown at {}", self.where_(st)))),
        }
    }

    pub fn known(&self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.a.cval(c) {
            return Some(v == 1);
        }
        let n = match self.a.op(c) {
            Op::Not(x) => x,
            _ => 0,
        };
        for &k in st.pc.iter().rev() {
            if k == c {
                return Some(true);
            }
            if k == n {
                return Some(false);
            }
            if let Op::Not(x) = self.a.op(k) {
                if x == c {
                    return Some(false);
                }
            }
        }
        None
    }

    /// Decides a 1-bit expression, forking when both values are possible. The forked state
    /// re-executes the current instruction, so nothing may have been modified before the call.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        let v = self.ev(st, c) == 1;
        let nc = self.a.not(c);
        let (this, other) = if v { (c, nc) } else { (nc, c) };
        match self.sat(st, other)? {
            None => {
                // implied
                Ok(v)
            }
            Some(m) => {
                let mut o = st.clone();
                self.merge_model(&mut o, &m);
                self.add_pc(&mut o, other);
                self.add_pc(st, this);
                self.forks += 1;
                if self.debug > 0 {
                    *self.branch_sites.entry((st.cur.f.id, st.cur.b, st.cur.ip as u32)).or_insert(0) += 1;
                }
                self.work.push(o);
                Ok(v)
            }
        }
    }

    /// Complete enumeration of the value of `e`.
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.a.cval(e) {
            return Ok(v);
        }
        if let Some(v) = st.fixed.get(&e) {
            return Ok(*v);
        }
        loop {
            let v = self.ev(st, e);
            let w = self.a.w(e);
            let k = self.a.c(v, w);
            let c = self.a.eq(e, k);
            if self.decide(st, c)? {
                Rc::make_mut(&mut st.fixed).insert(e, v);
                return Ok(v);
            }
        }
    }

    pub fn conc64(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::B(l, _) => Ok(*l),
            V::S(e) => Ok(self.concretize(st, *e)? as u64),
            V::A(_) => Err(Stop::Error("aggregate used as integer".into())),
        }
    }

    // ------------------------------------------------------------ memory

    pub fn where_(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.stack.iter().rev().take(6).collect::<Vec<_>>().into_iter().rev() {
            s.push_str(&demangle(&f.f.name));
            s.push_str(" > ");
        }
        s.push_str(&format!("{} bb{} ip{}", demangle(&st.cur.f.name), st.cur.b, st.cur.ip));
        s
    }

    fn bad(&self, st: &State, what: &str, addr: u64, n: u64) -> Stop {
        Stop::Error(format!("{what} of {n} bytes at {addr:#x} in {}", self.where_(st)))
    }

    pub fn obj_of(&self, st: &State, addr: u64, n: u64, what: &str) -> R<(u32, usize)> {
        let hi = (addr >> 32) as u32;
        if hi == 0 || addr >= FN_BASE {
            return Err(self.bad(st, what, addr, n));
        }
        let id = hi - 1;
        let off = addr & 0xffff_ffff;
        match st.mem.get(id) {
            Some(o) if off + n <= o.data.len() as u64 => Ok((id, off as usize)),
            _ => Err(self.bad(st, what, addr, n)),
        }
    }

    fn bytes_expr(&mut self, st: &State, id: u32, off: usize, n: usize) -> E {
        let o = st.mem.get(id).unwrap();
        // collect runs, from high to low
        let mut parts: Vec<(Option<E>, u128, u32)> = vec![]; // low first
        for i in off..off + n {
            let s = o.sym_at(i);
            if s != 0 {
                parts.push((Some(s), 0, 8));
            } else {
                match parts.last_mut() {
                    Some((None, v, w)) if *w < 128 => {
                        *v |= (o.data[i] as u128) << *w;
                        *w += 8;
                    }
                    _ => parts.push((None, o.data[i] as u128, 8)),
                }
            }
        }
        let mut r: Option<E> = None;
        for (s, v, w) in parts.into_iter().rev() {
            let x = match s {
                Some(e) => e,
                None => self.a.c(v, w),
            };
            r = Some(match r {
                None => x,
                Some(h) => self.a.concat(h, x),
            });
        }
        r.unwrap()
    }

    pub fn read_int(&mut self, st: &State, id: u32, off: usize, w: u32) -> V {
        let n = ((w + 7) / 8) as usize;
        let o = st.mem.get(id).unwrap();
        if w <= 128 && !o.any_sym(off, n) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return mkc(&mut self.a, u128::from_le_bytes(b), w);
        }
        let e = self.bytes_expr(st, id, off, n);
        let e = if self.a.w(e) > w { self.a.extract(e, 0, w) } else { e };
        self.mkv(e)
    }

    pub fn write_int(&mut self, st: &mut State, id: u32, off: usize, w: u32, v: &V) {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(c) => {
                let b = c.to_le_bytes();
                let o = st.mem.get_mut(id).unwrap();
                if n <= 8 {
                    o.set_conc(off, &b[..n]);
                } else {
                    let mut z = vec![0u8; n];
                    z[..8].copy_from_slice(&b);
                    o.set_conc(off, &z);
                }
            }
            V::B(l, h) => {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&l.to_le_bytes());
                b[8..].copy_from_slice(&h.to_le_bytes());
                st.mem.get_mut(id).unwrap().set_conc(off, &b[..n]);
            }
            V::S(e) => {
                let e = self.a.zext(*e, (n * 8) as u32);
                for i in 0..n {
                    let x = self.a.extract(e, (i * 8) as u32, 8);
                    let cv = self.a.cval(x);
                    let o = st.mem.get_mut(id).unwrap();
                    match cv {
                        Some(c) => o.set_conc(off + i, &[c as u8]),
                        None => o.set_sym(off + i, x),
                    }
                }
            }
            V::A(_) => panic!("aggregate store as int"),
        }
    }

    pub fn read_ty(&mut self, st: &State, id: u32, off: usize, t: &Ty) -> V {
        match t {
            Ty::Int(w) | Ty::Float(w) => self.read_int(st, id, off, *w),
            Ty::Ptr => self.read_int(st, id, off, 64),
            Ty::Arr(n, e) => {
                let s = e.size() as usize;
                V::A(Rc::new((0..*n as usize).map(|i| self.read_ty(st, id, off + i * s, e)).collect()))
            }
            Ty::Vect(n, e) => {
                let b = e.bits();
                if b % 8 == 0 {
                    let s = (b / 8) as usize;
                    V::A(Rc::new((0..*n as usize).map(|i| self.read_ty(st, id, off + i * s, e)).collect()))
                } else {
                    let x = self.read_int(st, id, off, n * b);
                    let e = self.to_e(&x, n * b);
                    V::A(Rc::new(
                        (0..*n)
                            .map(|i| {
                                let y = self.a.extract(e, i * b, b);
                                self.mkv(y)
                            })
                            .collect(),
                    ))
                }
            }
            Ty::Struct(f, _) => V::A(Rc::new(
                (0..f.len()).map(|i| self.read_ty(st, id, off + t.field_off(i) as usize, &f[i])).collect(),
            )),
            _ => V::C(0),
        }
    }

    pub fn write_ty(&mut self, st: &mut State, id: u32, off: usize, t: &Ty, v: &V) {
        match t {
            Ty::Int(w) | Ty::Float(w) => self.write_int(st, id, off, *w, v),
            Ty::Ptr => self.write_int(st, id, off, 64, v),
            Ty::Arr(_, e) => {
                let s = e.size() as usize;
                if let V::A(x) = v {
                    for (i, y) in x.iter().enumerate() {
                        self.write_ty(st, id, off + i * s, e, y);
                    }
                }
            }
            Ty::Vect(n, e) => {
                let b = e.bits();
                if let V::A(x) = v {
                    if b % 8 == 0 {
                        for (i, y) in x.iter().enumerate() {
                            self.write_ty(st, id, off + i * (b / 8) as usize, e, y);
                        }
                    } else {
                        let y = self.vec_to_bits(x, b);
                        let z = self.mkv(y);
                        self.write_int(st, id, off, n * b, &z);
                    }
                }
            }
            Ty::Struct(f, _) => {
                if let V::A(x) = v {
                    for (i, y) in x.iter().enumerate() {
                        self.write_ty(st, id, off + t.field_off(i) as usize, &f[i], y);
                    }
                }
            }
            _ => {}
        }
    }

    pub fn vec_to_bits(&mut self, x: &[V], b: u32) -> E {
        let mut r: Option<E> = None;
        for v in x.iter().rev() {
            let e = self.to_e(v, b);
            r = Some(match r {
                None => e,
                Some(h) => self.a.concat(h, e),
            });
        }
        r.unwrap()
    }

    /// Number of low bits of `e` known to be zero.
    fn tz(&self, e: E) -> u32 {
        match self.a.op(e) {
            Op::Const(0) => 63,
            Op::Const(c) => c.trailing_zeros(),
            Op::Add(x, y) | Op::Sub(x, y) => self.tz(x).min(self.tz(y)),
            Op::Mul(x, y) => self.tz(x) + self.tz(y),
            Op::Concat(_, l) => {
                let t = self.tz(l);
                t.min(self.a.w(l))
            }
            Op::ZExt(x) => self.tz(x),
            Op::Ite(_, x, y) => self.tz(x).min(self.tz(y)),
            _ => 0,
        }
    }

    /// Resolves a symbolic address to one object, forking over objects; returns the candidate
    /// offsets within it.
    fn sym_addr(&mut self, st: &mut State, e: E, n: u64, what: &str) -> R<(u32, E, Vec<u64>)> {
        let addr = self.ev(st, e) as u64;
        let (id, _) = self.obj_of(st, addr, n, what)?;
        let base = obj_addr(id);
        let size = st.mem.get(id).unwrap().data.len() as u64;
        let kb = self.a.c(base as u128, 64);
        let off = self.a.sub(e, kb);
        let lim = self.a.c((size - n + 1) as u128, 64);
        let inside = self.a.ult(off, lim);
        if !self.decide(st, inside)? {
            return Err(Stop::Error("address decision".into()));
        }
        let lo = self.a.n[off as usize].lo as u64;
        let hi = (self.a.n[off as usize].hi as u64).min(size - n);
        let step = 1u64 << self.tz(off).min(12);
        let mut c = vec![];
        let mut k = (lo + step - 1) / step * step;
        while k <= hi {
            c.push(k);
            k += step;
            if c.len() > 2048 {
                break;
            }
        }
        Ok((id, off, c))
    }

    pub fn load(&mut self, st: &mut State, p: &V, t: &Ty) -> R<V> {
        let n = match t {
            Ty::Int(w) | Ty::Float(w) => ((*w + 7) / 8) as u64,
            _ => t.size(),
        };
        let mut addr = match p {
            V::C(c) => *c,
            V::S(e) => {
                let e = *e;
                if let Some(v) = st.fixed.get(&e) {
                    *v as u64
                } else {
                    let simple = matches!(t, Ty::Int(_) | Ty::Ptr);
                    let (id, off, c) = self.sym_addr(st, e, n, "symbolic load")?;
                    if simple && c.len() <= 600 {
                        let w = t.bits();
                        let mut r: Option<E> = None;
                        for k in c.into_iter().rev() {
                            let v = self.read_int(st, id, k as usize, w);
                            let x = self.to_e(&v, w);
                            r = Some(match r {
                                None => x,
                                Some(acc) => {
                                    let kk = self.a.c(k as u128, 64);
                                    let q = self.a.eq(off, kk);
                                    self.a.ite(q, x, acc)
                                }
                            });
                        }
                        let r = r.ok_or(Stop::Error("no load candidates".into()))?;
                        return Ok(self.mkv(r));
                    }
                    self.concretize(st, e)? as u64
                }
            }
            _ => return Err(Stop::Error("bad pointer".into())),
        };
        if n == 0 {
            addr = 0;
            let _ = addr;
            return Ok(zero_of(&mut self.a, t));
        }
        let (id, off) = self.obj_of(st, addr, n, "load")?;
        Ok(self.read_ty(st, id, off, t))
    }

    pub fn store(&mut self, st: &mut State, p: &V, t: &Ty, v: &V) -> R<()> {
        let n = match t {
            Ty::Int(w) | Ty::Float(w) => ((*w + 7) / 8) as u64,
            _ => t.size(),
        };
        if n == 0 {
            return Ok(());
        }
        let addr = match p {
            V::C(c) => *c,
            V::S(e) => {
                let e = *e;
                if let Some(v) = st.fixed.get(&e) {
                    *v as u64
                } else {
                    let simple = matches!(t, Ty::Int(_) | Ty::Ptr);
                    let (id, off, c) = self.sym_addr(st, e, n, "symbolic store")?;
                    if simple && c.len() <= 64 {
                        let w = t.bits();
                        let nv = self.to_e(v, w);
                        for k in c {
                            let old = self.read_int(st, id, k as usize, w);
                            let oe = self.to_e(&old, w);
                            let kk = self.a.c(k as u128, 64);
                            let q = self.a.eq(off, kk);
                            let x = self.a.ite(q, nv, oe);
                            let xv = self.mkv(x);
                            self.write_int(st, id, k as usize, w, &xv);
                        }
                        return Ok(());
                    }
                    self.concretize(st, e)? as u64
                }
            }
            _ => return Err(Stop::Error("bad pointer".into())),
        };
        let (id, off) = self.obj_of(st, addr, n, "store")?;
        if st.mem.get(id).unwrap().ro {
            return Err(self.bad(st, "store to constant", addr, n));
        }
        self.write_ty(st, id, off, t, v);
        Ok(())
    }

    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (si, so) = self.obj_of(st, s, n, "copy source")?;
        let (di, dof) = self.obj_of(st, d, n, "copy target")?;
        let n = n as usize;
        let o = st.mem.get(si).unwrap();
        let data = o.data[so..so + n].to_vec();
        let sy = if o.any_sym(so, n) { Some(o.sym.as_ref().unwrap()[so..so + n].to_vec()) } else { None };
        let t = st.mem.get_mut(di).unwrap();
        t.set_conc(dof, &data);
        if let Some(sy) = sy {
            for (i, e) in sy.iter().enumerate() {
                if *e != 0 {
                    t.set_sym(dof + i, *e);
                }
            }
        }
        Ok(())
    }

    pub fn read_bytes(&self, st: &State, addr: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.obj_of(st, addr, n, "read")?;
        let o = st.mem.get(id).unwrap();
        Ok((off..off + n as usize).map(|i| (o.data[i], o.sym_at(i))).collect())
    }

    pub fn read_str(&self, st: &State, addr: u64, n: u64) -> R<String> {
        Ok(String::from_utf8_lossy(&self.read_bytes(st, addr, n)?.iter().map(|x| x.0).collect::<Vec<_>>()).into_owned())
    }

    // ------------------------------------------------------------ arithmetic

    pub fn bin(&mut self, st: &mut State, op: BinOp, w: u32, x: &V, y: &V) -> R<V> {
        if w <= 64 {
            if let (V::C(a), V::C(b)) = (x, y) {
                let (a, b) = (*a, *b);
                let m = mask(w) as u64;
                let r = match op {
                    BinOp::Add => a.wrapping_add(b),
                    BinOp::Sub => a.wrapping_sub(b),
                    BinOp::Mul => a.wrapping_mul(b),
                    BinOp::And => a & b,
                    BinOp::Or => a | b,
                    BinOp::Xor => a ^ b,
                    BinOp::Shl => if b >= w as u64 { 0 } else { a << b },
                    BinOp::LShr => if b >= w as u64 { 0 } else { a >> b },
                    BinOp::AShr => (sext128(a as u128, w) >> b.min(w as u64 - 1)) as u64,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                        if b == 0 {
                            return Err(Stop::Error(format!("division by zero in {}", self.where_(st))));
                        }
                        match op {
                            BinOp::UDiv => a / b,
                            BinOp::URem => a % b,
                            BinOp::SDiv => sext128(a as u128, w).wrapping_div(sext128(b as u128, w)) as u64,
                            _ => sext128(a as u128, w).wrapping_rem(sext128(b as u128, w)) as u64,
                        }
                    }
                    BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                        let f = |p: f64, q: f64| match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        };
                        if w == 32 {
                            (f(f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) as f32).to_bits() as u64
                        } else {
                            f(f64::from_bits(a), f64::from_bits(b)).to_bits()
                        }
                    }
                };
                return Ok(V::C(r & m));
            }
        }
        if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
            return Err(Stop::Error(format!("symbolic floating point in {}", self.where_(st))));
        }
        let a = self.to_e(x, w);
        let b = self.to_e(y, w);
        let r = match op {
            BinOp::Add => self.a.add(a, b),
            BinOp::Sub => self.a.sub(a, b),
            BinOp::Mul => self.a.mul(a, b),
            BinOp::And => self.a.and(a, b),
            BinOp::Or => self.a.or(a, b),
            BinOp::Xor => self.a.xor(a, b),
            BinOp::Shl => self.a.shl(a, b),
            BinOp::LShr => self.a.lshr(a, b),
            BinOp::AShr => self.a.ashr(a, b),
            BinOp::UDiv => self.a.udiv(a, b),
            BinOp::URem => self.a.urem(a, b),
            BinOp::SDiv => self.a.sdiv(a, b),
            _ => self.a.srem(a, b),
        };
        Ok(self.mkv(r))
    }

    pub fn icmp(&mut self, p: Pred, w: u32, x: &V, y: &V) -> V {
        if let (Some(a), Some(b)) = (conc(x), conc(y)) {
            let s = |v: u128| sext128(v, w);
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Sgt => s(a) > s(b),
                Pred::Sge => s(a) >= s(b),
                Pred::Slt => s(a) < s(b),
                Pred::Sle => s(a) <= s(b),
            };
            return V::C(r as u64);
        }
        let a = self.to_e(x, w);
        let b = self.to_e(y, w);
        let r = match p {
            Pred::Eq => self.a.eq(a, b),
            Pred::Ne => self.a.ne(a, b),
            Pred::Ugt => self.a.ult(b, a),
            Pred::Uge => self.a.ule(b, a),
            Pred::Ult => self.a.ult(a, b),
            Pred::Ule => self.a.ule(a, b),
            Pred::Sgt => self.a.slt(b, a),
            Pred::Sge => self.a.sle(b, a),
            Pred::Slt => self.a.slt(a, b),
            Pred::Sle => self.a.sle(a, b),
        };
        self.mkv(r)
    }

    fn ite_v(&mut self, c: E, x: &V, y: &V, t: &Ty) -> V {
        match (x, y) {
            (V::A(p), V::A(q)) => {
                let v = (0..p.len())
                    .map(|i| {
                        let et = t.elem(i);
                        self.ite_v(c, &p[i], &q[i], &et)
                    })
                    .collect();
                V::A(Rc::new(v))
            }
            _ => {
                let w = t.bits();
                let a = self.to_e(x, w);
                let b = self.to_e(y, w);
                let r = self.a.ite(c, a, b);
                self.mkv(r)
            }
        }
    }

    fn cast(&mut self, st: &State, op: CastOp, x: V, f: &Ty, t: &Ty) -> R<V> {
        match (f, t) {
            (Ty::Vect(n, fe), Ty::Vect(m, te)) if !matches!(op, CastOp::Bit) => {
                debug_assert!(n == m);
                let v = match x {
                    V::A(v) => v,
                    _ => return Err(Stop::Error("vector cast".into())),
                };
                let mut r = vec![];
                for y in v.iter() {
                    r.push(self.cast(st, op, y.clone(), fe, te)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
            (Ty::Vect(_, fe), _) => {
                // bitcast from vector
                let fb = fe.bits();
                let e = match &x {
                    V::A(v) => self.vec_to_bits(v, fb),
                    _ => return Err(Stop::Error("vector bitcast".into())),
                };
                if let Ty::Vect(n, te) = t {
                    let tb = te.bits();
                    return Ok(V::A(Rc::new(
                        (0..*n)
                            .map(|i| {
                                let y = self.a.extract(e, i * tb, tb);
                                self.mkv(y)
                            })
                            .collect(),
                    )));
                }
                return Ok(self.mkv(e));
            }
            (_, Ty::Vect(n, te)) => {
                let w = f.bits();
                let e = self.to_e(&x, w);
                let tb = te.bits();
                return Ok(V::A(Rc::new(
                    (0..*n)
                        .map(|i| {
                            let y = self.a.extract(e, i * tb, tb);
                            self.mkv(y)
                        })
                        .collect(),
                )));
            }
            _ => {}
        }
        let (wf, wt) = (f.bits(), t.bits());
        match op {
            CastOp::Bit => Ok(x),
            CastOp::ZExt | CastOp::Trunc | CastOp::PtrInt => {
                if let Some(c) = conc(&x) {
                    return Ok(mkc(&mut self.a, c, wt));
                }
                let e = self.to_e(&x, wf);
                let r = self.a.trunc_or_zext(e, wt);
                Ok(self.mkv(r))
            }
            CastOp::SExt => {
                if let (Some(c), true) = (conc(&x), wt <= 128) {
                    return Ok(mkc(&mut self.a, sext128(c, wf) as u128, wt));
                }
                let e = self.to_e(&x, wf);
                let r = self.a.sext(e, wt);
                Ok(self.mkv(r))
            }
            _ => {
                let c = conc(&x).ok_or_else(|| Stop::Error(format!("symbolic float cast in {}", self.where_(st))))?;
                let fl = |c: u128, w: u32| if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let enc = |v: f64, w: u32| if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                let r = match op {
                    CastOp::FpToSi => (fl(c, wf) as i128) as u128,
                    CastOp::FpToUi => fl(c, wf) as u128,
                    CastOp::SiToFp => enc(sext128(c, wf) as f64, wt),
                    CastOp::UiToFp => enc(c as f64, wt),
                    _ => enc(fl(c, wf), wt),
                };
                Ok(mkc(&mut self.a, r, wt))
            }
        }
    }

    // ------------------------------------------------------------ control

    pub fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let from = st.cur.b;
        let f = st.cur.f;
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let v = match inc.iter().find(|(p, _)| *p == from) {
                    Some((_, o)) => get(&st.cur, o),
                    None => return Err(Stop::Error("phi without incoming edge".into())),
                };
                st.cur.regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(blk.phis.len());
                for (d, inc) in &blk.phis {
                    match inc.iter().find(|(p, _)| *p == from) {
                        Some((_, o)) => vals.push((*d, get(&st.cur, o))),
                        None => return Err(Stop::Error("phi without incoming edge".into())),
                    }
                }
                for (d, v) in vals {
                    st.cur.regs[d as usize] = v;
                }
            }
        }
        st.cur.b = to;
        st.cur.ip = 0;
        Ok(())
    }

    pub fn enter(&mut self, st: &mut State, fid: u32, args: Vec<V>, dst: Option<u32>) -> R<()> {
        let f = match self.m.func(fid, &mut self.a) {
            Some(f) => f,
            None => {
                return Err(Stop::Error(format!(
                    "call to external {} from {}",
                    self.m.funcs[fid as usize].name,
                    self.where_(st)
                )))
            }
        };
        if st.stack.len() > self.lim.max_depth {
            return Err(Stop::Error(format!("call depth limit in {}", self.where_(st))));
        }
        *self.funcs_run.entry(fid).or_insert(0) += 1;
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if let Some(v) = args.get(i) {
                regs[*p as usize] = v.clone();
            }
        }
        let fr = Frame { f, b: 0, ip: 0, regs, dst, allocas: vec![] };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(old);
        Ok(())
    }

    /// Runs one state until it stops.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            if self.instr & 0xffff == 0 {
                if self.t0.elapsed().as_secs_f64() > self.lim.max_time {
                    return Stop::Error("time limit".into());
                }
                if self.instr > self.lim.max_instr {
                    return Stop::Error(format!("instruction limit at {}", self.where_(st)));
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        self.instr += 1;
        st.steps += 1;
        let f = st.cur.f;
        let ins = &f.blocks[st.cur.b as usize].ins[st.cur.ip];
        match ins {
            Ins::Bin(op, w, d, x, y) => {
                // fast path
                let r = {
                    let (x, y) = (gref(&st.cur, x), gref(&st.cur, y));
                    if let (V::C(a), V::C(b), true) = (x, y, *w <= 64) {
                        let m = mask(*w) as u64;
                        match op {
                            BinOp::Add => Some(V::C(a.wrapping_add(*b) & m)),
                            BinOp::Sub => Some(V::C(a.wrapping_sub(*b) & m)),
                            BinOp::And => Some(V::C(a & b)),
                            BinOp::Or => Some(V::C(a | b)),
                            BinOp::Xor => Some(V::C(a ^ b)),
                            _ => None,
                        }
                    } else {
                        None
                    }
                };
                let r = match r {
                    Some(r) => r,
                    None => {
                        let (x, y) = (get(&st.cur, x), get(&st.cur, y));
                        self.bin(st, *op, *w, &x, &y)?
                    }
                };
                st.cur.regs[*d as usize] = r;
            }
            Ins::Icmp(p, w, d, x, y) => {
                let r = {
                    let (x, y) = (gref(&st.cur, x), gref(&st.cur, y));
                    if let (V::C(a), V::C(b)) = (x, y) {
                        match p {
                            Pred::Eq => Some(V::C((a == b) as u64)),
                            Pred::Ne => Some(V::C((a != b) as u64)),
                            Pred::Ult => Some(V::C((a < b) as u64)),
                            Pred::Ugt => Some(V::C((a > b) as u64)),
                            _ => None,
                        }
                    } else {
                        None
                    }
                };
                let r = match r {
                    Some(r) => r,
                    None => {
                        let (x, y) = (get(&st.cur, x), get(&st.cur, y));
                        self.icmp(*p, *w, &x, &y)
                    }
                };
                st.cur.regs[*d as usize] = r;
            }
            Ins::Load(d, p, t) => {
                let p = get(&st.cur, p);
                let v = self.load(st, &p, t)?;
                st.cur.regs[*d as usize] = v;
            }
            Ins::Store(v, p, t) => {
                let p = get(&st.cur, p);
                let v = get(&st.cur, v);
                self.store(st, &p, t, &v)?;
            }
            Ins::Gep(d, base, off, dy) => {
                let b = get(&st.cur, base);
                let mut off = *off;
                let mut sym: Vec<E> = vec![];
                for (sc, o, w) in dy {
                    match gref(&st.cur, o) {
                        V::C(c) => off = off.wrapping_add((sext128(*c as u128, *w) as i64).wrapping_mul(*sc as i64)),
                        V::S(e) => {
                            let e = *e;
                            let x = if *w < 64 { self.a.sext(e, 64) } else { e };
                            let k = self.a.c(*sc as u128, 64);
                            sym.push(self.a.mul(x, k));
                        }
                        _ => return Err(Stop::Error("gep index".into())),
                    }
                }
                let r = match (&b, sym.is_empty()) {
                    (V::C(c), true) => V::C(c.wrapping_add(off as u64)),
                    _ => {
                        let mut e = self.to_e(&b, 64);
                        for s in sym {
                            e = self.a.add(e, s);
                        }
                        let k = self.a.c(off as u64 as u128, 64);
                        e = self.a.add(e, k);
                        self.mkv(e)
                    }
                };
                st.cur.regs[*d as usize] = r;
            }
            Ins::Br(t) => return self.jump(st, *t),
            Ins::CondBr(c, t, e) => {
                let b = match gref(&st.cur, c) {
                    V::C(v) => *v & 1 == 1,
                    V::S(x) => {
                        let x = *x;
                        self.decide(st, x)?
                    }
                    _ => return Err(Stop::Error("branch".into())),
                };
                return self.jump(st, if b { *t } else { *e });
            }
            Ins::Switch(v, w, def, cases) => {
                let x = get(&st.cur, v);
                if let Some(c) = conc(&x) {
                    let t = cases.iter().find(|(k, _)| *k == c).map(|(_, l)| *l).unwrap_or(*def);
                    return self.jump(st, t);
                }
                let e = self.to_e(&x, *w);
                // group by target
                let mut order: Vec<u32> = vec![];
                let mut conds: HashMap<u32, E> = HashMap::new();
                for (k, l) in cases {
                    let kk = self.a.c(*k, *w);
                    let q = self.a.eq(e, kk);
                    match conds.get(l) {
                        None => {
                            order.push(*l);
                            conds.insert(*l, q);
                        }
                        Some(&p) => {
                            let o = self.a.or(p, q);
                            conds.insert(*l, o);
                        }
                    }
                }
                // follow the model first
                let val = self.ev(st, e);
                let mt = cases.iter().find(|(k, _)| *k == val).map(|(_, l)| *l);
                if let Some(t) = mt {
                    let c = conds[&t];
                    if self.decide(st, c)? {
                        return self.jump(st, t);
                    }
                }
                for l in order {
                    let c = conds[&l];
                    if self.decide(st, c)? {
                        return self.jump(st, l);
                    }
                }
                return self.jump(st, *def);
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|o| get(&st.cur, o));
                let al = std::mem::take(&mut st.cur.allocas);
                for id in al {
                    st.mem.release(id);
                }
                match st.stack.pop() {
                    None => return Err(Stop::Done),
                    Some(fr) => {
                        let old = std::mem::replace(&mut st.cur, fr);
                        if let (Some(d), Some(r)) = (old.dst, r) {
                            st.cur.regs[d as usize] = r;
                        }
                        st.cur.ip += 1;
                        if st.stack.is_empty() && st.cur.f.blocks.is_empty() {
                            return Err(Stop::Done);
                        }
                        return Ok(());
                    }
                }
            }
            Ins::Unreachable => {
                return Err(Stop::Error(format!("unreachable executed in {}", self.where_(st))));
            }
            Ins::Call { dst, callee, args, tys, ret } => {
                return self.call(st, *dst, callee, args, tys, ret);
            }
            Ins::Cast(op, d, x, f, t) => {
                let x = get(&st.cur, x);
                let r = self.cast(st, *op, x, f, t)?;
                st.cur.regs[*d as usize] = r;
            }
            Ins::Select(d, c, x, y, t, vc) => {
                let c = get(&st.cur, c);
                let (x, y) = (get(&st.cur, x), get(&st.cur, y));
                let r = if *vc {
                    let (cs, xs, ys) = match (&c, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => (c.clone(), x.clone(), y.clone()),
                        _ => return Err(Stop::Error("vector select".into())),
                    };
                    let et = t.elem(0);
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(match &cs[i] {
                            V::C(1) => xs[i].clone(),
                            V::C(_) => ys[i].clone(),
                            V::S(e) => self.ite_v(*e, &xs[i], &ys[i], &et),
                            _ => return Err(Stop::Error("vector select".into())),
                        });
                    }
                    V::A(Rc::new(r))
                } else {
                    match c {
                        V::C(v) => if v & 1 == 1 { x } else { y },
                        V::S(e) => {
                            // pointers are decided rather than merged, to keep addresses concrete
                            if matches!(&**t, Ty::Ptr) {
                                if self.decide(st, e)? { x } else { y }
                            } else {
                                self.ite_v(e, &x, &y, t)
                            }
                        }
                        _ => return Err(Stop::Error("select".into())),
                    }
                };
                st.cur.regs[*d as usize] = r;
            }
            Ins::Alloca(d, size, n) => {
                let n = get(&st.cur, n);
                let n = self.conc64(st, &n)?;
                let id = st.mem.alloc((*size * n) as usize);
                st.cur.allocas.push(id);
                st.cur.regs[*d as usize] = V::C(obj_addr(id));
            }
            Ins::Extract(d, x, ix) => {
                let mut v = get(&st.cur, x);
                for i in ix {
                    v = match &v {
                        V::A(a) => a[*i as usize].clone(),
                        _ => return Err(Stop::Error("extractvalue".into())),
                    };
                }
                st.cur.regs[*d as usize] = v;
            }
            Ins::Insert(d, x, y, ix, t) => {
                let mut v = get(&st.cur, x);
                if !matches!(v, V::A(_)) {
                    v = zero_of(&mut self.a, t);
                }
                let y = get(&st.cur, y);
                set_in(&mut v, ix, y);
                st.cur.regs[*d as usize] = v;
            }
            Ins::ExtractEl(d, x, i) => {
                let v = get(&st.cur, x);
                let i = get(&st.cur, i);
                let i = self.conc64(st, &i)?;
                let r = match &v {
                    V::A(a) => a[i as usize].clone(),
                    _ => return Err(Stop::Error("extractelement".into())),
                };
                st.cur.regs[*d as usize] = r;
            }
            Ins::InsertEl(d, x, y, i) => {
                let mut v = get(&st.cur, x);
                let y = get(&st.cur, y);
                let i = get(&st.cur, i);
                let i = self.conc64(st, &i)?;
                set_in(&mut v, &[i as u32], y);
                st.cur.regs[*d as usize] = v;
            }
            Ins::Shuffle(d, x, y, ix, n1) => {
                let (x, y) = (get(&st.cur, x), get(&st.cur, y));
                let (a, b) = match (&x, &y) {
                    (V::A(a), V::A(b)) => (a, b),
                    _ => return Err(Stop::Error("shuffle".into())),
                };
                let r = ix
                    .iter()
                    .map(|&i| if (i as u32) < *n1 { a[i as usize].clone() } else { b[i as usize - *n1 as usize].clone() })
                    .collect();
                st.cur.regs[*d as usize] = V::A(Rc::new(r));
            }
            Ins::VBin(op, t, d, x, y) => {
                let (x, y) = (get(&st.cur, x), get(&st.cur, y));
                let w = t.elem(0).bits();
                let (a, b) = match (&x, &y) {
                    (V::A(a), V::A(b)) => (a.clone(), b.clone()),
                    _ => return Err(Stop::Error("vector op".into())),
                };
                let mut r = vec![];
                for i in 0..a.len() {
                    r.push(self.bin(st, *op, w, &a[i], &b[i])?);
                }
                st.cur.regs[*d as usize] = V::A(Rc::new(r));
            }
            Ins::VIcmp(p, t, d, x, y) => {
                let (x, y) = (get(&st.cur, x), get(&st.cur, y));
                let w = t.elem(0).bits();
                let (a, b) = match (&x, &y) {
                    (V::A(a), V::A(b)) => (a.clone(), b.clone()),
                    _ => return Err(Stop::Error("vector cmp".into())),
                };
                let mut r = vec![];
                for i in 0..a.len() {
                    r.push(self.icmp(*p, w, &a[i], &b[i]));
                }
                st.cur.regs[*d as usize] = V::A(Rc::new(r));
            }
            Ins::Fcmp(p, w, d, x, y) => {
                let (x, y) = (get(&st.cur, x), get(&st.cur, y));
                let (x, y) = match (conc(&x), conc(&y)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Err(Stop::Error(format!("symbolic fcmp in {}", self.where_(st)))),
                };
                let fl = |c: u128| if *w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let (a, b) = (fl(x), fl(y));
                let uno = a.is_nan() || b.is_nan();
                let r = match p.as_str() {
                    "oeq" => a == b,
                    "one" => !uno && a != b,
                    "ogt" => a > b,
                    "oge" => a >= b,
                    "olt" => a < b,
                    "ole" => a <= b,
                    "ord" => !uno,
                    "uno" => uno,
                    "ueq" => uno || a == b,
                    "une" => a != b || uno,
                    "ugt" => uno || a > b,
                    "uge" => uno || a >= b,
                    "ult" => uno || a < b,
                    "ule" => uno || a <= b,
                    "true" => true,
                    _ => false,
                };
                st.cur.regs[*d as usize] = V::C(r as u64);
            }
            Ins::FNeg(w, d, x) => {
                let x = get(&st.cur, x);
                let x = conc(&x).ok_or(Stop::Error("symbolic fneg".into()))?;
                st.cur.regs[*d as usize] = V::C((x ^ (1u128 << (w - 1))) as u64);
            }
            Ins::Rmw(op, d, p, v, w) => {
                let p = get(&st.cur, p);
                let v = get(&st.cur, v);
                let t = Ty::Int(*w);
                let old = self.load(st, &p, &t)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, BinOp::Add, *w, &old, &v)?,
                    "sub" => self.bin(st, BinOp::Sub, *w, &old, &v)?,
                    "and" => self.bin(st, BinOp::And, *w, &old, &v)?,
                    "or" => self.bin(st, BinOp::Or, *w, &old, &v)?,
                    "xor" => self.bin(st, BinOp::Xor, *w, &old, &v)?,
                    "umax" | "umin" => {
                        let (a, b) = (conc(&old).unwrap_or(0), conc(&v).unwrap_or(0));
                        let r = if op == "umax" { a.max(b) } else { a.min(b) };
                        mkc(&mut self.a, r, *w)
                    }
                    _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                };
                self.store(st, &p, &t, &new)?;
                st.cur.regs[*d as usize] = old;
            }
            Ins::CmpXchg(d, p, x, y, w) => {
                let p = get(&st.cur, p);
                let (x, y) = (get(&st.cur, x), get(&st.cur, y));
                let t = Ty::Int(*w);
                let old = self.load(st, &p, &t)?;
                let c = self.icmp(Pred::Eq, *w, &old, &x);
                let ok = match c {
                    V::C(v) => v == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => false,
                };
                if ok {
                    self.store(st, &p, &t, &y)?;
                }
                st.cur.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(ok as u64)]));
            }
            Ins::Copy(d, x) => {
                let v = get(&st.cur, x);
                st.cur.regs[*d as usize] = v;
            }
            Ins::Nop => {}
        }
        st.cur.ip += 1;
        Ok(())
    }

    fn call(&mut self, st: &mut State, dst: Option<u32>, callee: &Callee, args: &[Opd], tys: &[Rc<Ty>], ret: &Rc<Ty>) -> R<()> {
        let fid = match callee {
            Callee::Direct(f) => *f,
            Callee::Ind(o) => {
                let v = get(&st.cur, o);
                let p = self.conc64(st, &v)?;
                if p < FN_BASE || (p - FN_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(Stop::Error(format!("indirect call to {p:#x} in {}", self.where_(st))));
                }
                ((p - FN_BASE) / 16) as u32
            }
            Callee::Asm(_) => {
                if let Some(d) = dst {
                    let z = zero_of(&mut self.a, ret);
                    st.cur.regs[d as usize] = z;
                }
                st.cur.ip += 1;
                return Ok(());
            }
        };
        if let Some(b) = self.bis[fid as usize] {
            if b == Bi::Nop {
                if let Some(d) = dst {
                    let z = zero_of(&mut self.a, ret);
                    st.cur.regs[d as usize] = z;
                }
                st.cur.ip += 1;
                return Ok(());
            }
            let av: Vec<V> = args.iter().map(|o| get(&st.cur, o)).collect();
            let r = self.builtin(st, b, fid, &av, tys, ret)?;
            if let Some(d) = dst {
                st.cur.regs[d as usize] = r;
            }
            st.cur.ip += 1;
            return Ok(());
        }
        let av: Vec<V> = args.iter().map(|o| get(&st.cur, o)).collect();
        self.enter(st, fid, av, dst)
    }

    pub fn trace(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = st.stack.iter().skip(1).map(|f| demangle(&f.f.name)).collect();
        v.push(demangle(&st.cur.f.name));
        v
    }

    pub fn input_vals(&mut self, st: &State, m: &Model) -> Vec<(u32, u128)> {
        self.a.new_stamp();
        st.inputs.clone().iter().map(|&e| (self.a.w(e), self.a.eval(e, m))).collect()
    }

    pub fn report(&mut self, st: &State, extra: &Model, label: &str, known: Option<String>, kind: &'static str) {
        let mut m = (*st.model).clone();
        for (k, v) in extra {
            m.insert(*k, *v);
        }
        let key = format!("{}|{}", label, known.clone().unwrap_or_default());
        let n = self.viol_count.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 {
            return;
        }
        let inputs = self.input_vals(st, &m);
        let trace = self.trace(st);
        self.violations.push(Violation { label: label.to_string(), inputs, trace, known, kind });
    }

    pub fn explore(&mut self, entry: u32) {
        let mut mem = Mem::new();
        for g in &self.m.globals {
            mem.insert(Rc::new(Obj { data: g.data.clone(), sym: None, ro: g.constant }));
        }
        let f = self.m.func(entry, &mut self.a).expect("entry has no body");
        let root = State {
            cur: Frame { f, b: 0, ip: 0, regs: vec![V::C(0); f.nregs as usize], dst: None, allocas: vec![] },
            stack: vec![],
            mem,
            pc: vec![],
            model: Rc::new(Model::new()),
            inputs: vec![],
            hashes: None,
            covers: Rc::new(BTreeSet::new()),
            panic_known: None,
            steps: 0,
            oracle_n: 0,
            nchecks: 0,
            ptrs: Rc::new(HashMap::new()),
            allow_panic: false,
            fixed: Rc::new(HashMap::new()),
        };
        *self.funcs_run.entry(entry).or_insert(0) += 1;
        self.work.push(root);
        let mut last = Instant::now();
        while let Some(mut st) = self.work.pop() {
            if self.debug > 0 && last.elapsed().as_secs() >= 5 {
                last = Instant::now();
                eprintln!(
                    "… {:.0}s done {} panic {} drop {} work {} instr {} queries {} (solver {} / {:.1}s) nodes {} at {}",
                    self.t0.elapsed().as_secs_f64(),
                    self.paths_done,
                    self.paths_panic,
                    self.paths_dropped,
                    self.work.len(),
                    self.instr,
                    self.s.st.queries,
                    self.s.st.solver_calls,
                    self.s.st.time,
                    self.a.n.len(),
                    self.where_(&st),
                );
            }
            match self.run(&mut st) {
                Stop::Done => {
                    self.paths_done += 1;
                    for c in st.covers.iter() {
                        *self.covers.entry(c.clone()).or_insert(0) += 1;
                    }
                    self.sample(&st);
                }
                Stop::Drop => self.paths_dropped += 1,
                Stop::Panic(msg) => {
                    if st.allow_panic {
                        self.paths_allowed_panic += 1;
                    } else {
                        self.paths_panic += 1;
                        match self.panic_report(&st, &msg) {
                            Ok(()) => {}
                            Err(Stop::Error(e)) => self.inconclusive.push(e),
                            Err(_) => {}
                        }
                    }
                }
                Stop::Error(e) => {
                    self.inconclusive.push(e);
                    if self.inconclusive.len() >= 5 || self.t0.elapsed().as_secs_f64() > self.lim.max_time {
                        return;
                    }
                }
            }
            if self.paths_done + self.paths_panic + self.paths_dropped > self.lim.max_paths {
                self.inconclusive.push("path limit".into());
                return;
            }
            if self.t0.elapsed().as_secs_f64() > self.lim.max_time && !self.work.is_empty() {
                self.inconclusive.push("time limit".into());
                return;
            }
            // stop early once an unlisted violation has been established well enough
            if self.violations.iter().filter(|v| v.known.is_none()).count() >= 6 {
                return;
            }
        }
    }

    fn panic_report(&mut self, st: &State, msg: &str) -> R<()> {
        match &st.panic_known {
            None => self.report(st, &Model::new(), msg, None, "panic"),
            Some((id, class)) => {
                let (id, class) = (id.clone(), *class);
                if let Some(m) = self.sat(st, class)? {
                    self.report(st, &m, msg, Some(id), "panic");
                }
                let n = self.a.not(class);
                if let Some(m) = self.sat(st, n)? {
                    self.report(st, &m, msg, None, "panic");
                }
            }
        }
        Ok(())
    }

    fn sample(&mut self, st: &State) {
        // reservoir sampling of finished paths for native re-execution
        self.sample_seen += 1;
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.samples.len() < self.max_samples {
            self.samples.push((vec![], vec![]));
            self.samples.len() - 1
        } else {
            let r = (self.rng % self.sample_seen) as usize;
            if r >= self.max_samples {
                return;
            }
            r
        };
        let m = st.model.clone();
        let iv = self.input_vals(st, &m);
        self.samples[slot] = (iv, st.covers.iter().cloned().collect());
    }
}

#[inline]
pub fn get(f: &Frame, o: &Opd) -> V {
    match o {
        Opd::R(r) => f.regs[*r as usize].clone(),
        Opd::K(v) => v.clone(),
    }
}
#[inline]
pub fn gref<'a>(f: &'a Frame, o: &'a Opd) -> &'a V {
    match o {
        Opd::R(r) => &f.regs[*r as usize],
        Opd::K(v) => v,
    }
}

fn set_in(v: &mut V, ix: &[u32], y: V) {
    if ix.is_empty() {
        *v = y;
        return;
    }
    if let V::A(a) = v {
        let a = Rc::make_mut(a);
        set_in(&mut a[ix[0] as usize], &ix[1..], y);
    }
}

/// Very small readable form of a v0-mangled name: the identifiers in order.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 16 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && (b[i - 1] == b'C' || j - i <= 4) {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            // backref
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 8 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
