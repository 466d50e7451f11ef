//! Hash-consed bit-vector expressions with an aggressive local simplifier.
//! Booleans are 1-bit vectors. Constants are at most 128 bits wide; wider
//! constants are concatenations of narrower ones.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    SDiv(E, E),
    URem(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Not(E), // bitwise
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    Extract(E, u32), // low bit; width is the node width
    Concat(E, E),    // high, low
    ZExt(E),
    SExt(E),
}

pub struct Node {
    pub op: Op,
    pub w: u32,
    pub vars: Rc<Vec<u32>>,
    pub lo: u128,
    pub hi: u128,
    /// number of constant leaves when the node is an ite-tree over constants (0 = not one)
    pub ct: u16,
}

pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<(Op, u32), E>,
    empty: Rc<Vec<u32>>,
    pub var_names: Vec<String>,
    pub var_w: Vec<u32>,
    var_map: HashMap<String, u32>,
    // evaluation scratch
    ev: Vec<u128>,
    ev_stamp: Vec<u32>,
    stamp: u32,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: vec![],
            map: HashMap::new(),
            empty: Rc::new(vec![]),
            var_names: vec![],
            var_w: vec![],
            var_map: HashMap::new(),
            ev: vec![],
            ev_stamp: vec![],
            stamp: 0,
        };
        // id 0 is reserved as "no expression"
        a.raw(Op::Const(0), 1);
        a.map.clear();
        a
    }

    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w }
    pub fn op(&self, e: E) -> Op { self.n[e as usize].op }
    pub fn vars(&self, e: E) -> &Rc<Vec<u32>> { &self.n[e as usize].vars }

    pub fn cval(&self, e: E) -> Option<u128> {
        match self.n[e as usize].op {
            Op::Const(c) => Some(c),
            _ => None,
        }
    }

    fn union(&self, l: &[E]) -> Rc<Vec<u32>> {
        let mut best: Option<E> = None;
        for &e in l {
            if self.n[e as usize].vars.is_empty() {
                continue;
            }
            match best {
                None => best = Some(e),
                Some(b) => {
                    if Rc::ptr_eq(&self.n[b as usize].vars, &self.n[e as usize].vars) {
                        continue;
                    }
                    if self.n[e as usize].vars.len() > self.n[b as usize].vars.len() {
                        best = Some(e)
                    }
                }
            }
        }
        let b = match best {
            None => return self.empty.clone(),
            Some(b) => b,
        };
        let bv = &self.n[b as usize].vars;
        let mut out: Option<Vec<u32>> = None;
        for &e in l {
            let v = &self.n[e as usize].vars;
            if Rc::ptr_eq(v, bv) {
                continue;
            }
            for x in v.iter() {
                let cur: &Vec<u32> = out.as_ref().unwrap_or(bv);
                if cur.binary_search(x).is_err() {
                    let o = out.get_or_insert_with(|| (**bv).clone());
                    let p = o.binary_search(x).unwrap_err();
                    o.insert(p, *x);
                }
            }
        }
        match out {
            None => bv.clone(),
            Some(o) => Rc::new(o),
        }
    }

    fn raw(&mut self, op: Op, w: u32) -> E {
        if let Some(&e) = self.map.get(&(op, w)) {
            return e;
        }
        let vars = match op {
            Op::Const(_) => self.empty.clone(),
            Op::Var(v) => Rc::new(vec![v]),
            Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::UDiv(a, b) | Op::SDiv(a, b) | Op::URem(a, b)
            | Op::SRem(a, b) | Op::And(a, b) | Op::Or(a, b) | Op::Xor(a, b) | Op::Shl(a, b) | Op::LShr(a, b)
            | Op::AShr(a, b) | Op::Eq(a, b) | Op::Ult(a, b) | Op::Slt(a, b) | Op::Concat(a, b) => self.union(&[a, b]),
            Op::Not(a) | Op::Extract(a, _) | Op::ZExt(a) | Op::SExt(a) => self.n[a as usize].vars.clone(),
            Op::Ite(a, b, c) => self.union(&[a, b, c]),
        };
        let m = mask(w);
        let (mut lo, mut hi) = (0u128, m);
        if w <= 128 {
            let iv = |e: E| (self.n[e as usize].lo, self.n[e as usize].hi);
            match op {
                Op::Const(c) => {
                    lo = c;
                    hi = c;
                }
                Op::Add(a, b) => {
                    let ((al, ah), (bl, bh)) = (iv(a), iv(b));
                    if let Some(h) = ah.checked_add(bh) {
                        if h <= m {
                            lo = al + bl;
                            hi = h;
                        }
                    }
                }
                Op::Mul(a, b) => {
                    let ((al, ah), (bl, bh)) = (iv(a), iv(b));
                    if let Some(h) = ah.checked_mul(bh) {
                        if h <= m {
                            lo = al * bl;
                            hi = h;
                        }
                    }
                }
                Op::UDiv(a, b) => {
                    let ((al, ah), (bl, bh)) = (iv(a), iv(b));
                    if bl > 0 {
                        lo = al / bh;
                        hi = ah / bl;
                    }
                }
                Op::URem(a, b) => {
                    let ((_, ah), (bl, bh)) = (iv(a), iv(b));
                    if bl > 0 {
                        hi = ah.min(bh - 1);
                    }
                }
                Op::And(a, b) => hi = iv(a).1.min(iv(b).1),
                Op::Or(a, b) => {
                    let (x, y) = (iv(a), iv(b));
                    lo = x.0.max(y.0);
                    let t = x.1 | y.1;
                    hi = if t == 0 { 0 } else { m.min(!0u128 >> t.leading_zeros()) };
                }
                Op::Xor(a, b) => {
                    let (x, y) = (iv(a), iv(b));
                    let t = x.1 | y.1;
                    hi = if t == 0 { 0 } else { m.min(!0u128 >> t.leading_zeros()) };
                }
                Op::LShr(a, _) => hi = iv(a).1,
                Op::Ite(_, a, b) => {
                    lo = iv(a).0.min(iv(b).0);
                    hi = iv(a).1.max(iv(b).1);
                }
                Op::Concat(a, b) => {
                    let wb = self.n[b as usize].w;
                    lo = (iv(a).0 << wb) | iv(b).0;
                    hi = (iv(a).1 << wb) | iv(b).1;
                    // lower/upper of low part are only exact when high is fixed; still a valid hull
                    if iv(a).0 != iv(a).1 {
                        lo = iv(a).0 << wb;
                        hi = (iv(a).1 << wb) | mask(wb);
                        if iv(b).0 > 0 {
                            lo |= iv(b).0;
                        }
                        if iv(b).1 < mask(wb) {
                            hi = (iv(a).1 << wb) | iv(b).1;
                        }
                    }
                }
                Op::ZExt(a) => {
                    lo = iv(a).0;
                    hi = iv(a).1;
                }
                Op::Extract(a, 0) => {
                    if self.n[a as usize].w <= 128 && iv(a).1 <= m {
                        lo = iv(a).0;
                        hi = iv(a).1;
                    }
                }
                _ => {}
            }
        }
        let ct = match op {
            Op::Const(_) => 1,
            Op::Ite(_, a, b) => {
                let (x, y) = (self.n[a as usize].ct, self.n[b as usize].ct);
                if x > 0 && y > 0 { x.saturating_add(y) } else { 0 }
            }
            _ => 0,
        };
        let id = self.n.len() as E;
        self.n.push(Node { op, w, vars, lo, hi, ct });
        self.ev.push(0);
        self.ev_stamp.push(0);
        self.map.insert((op, w), id);
        id
    }

    pub fn c(&mut self, v: u128, w: u32) -> E {
        if w > 128 {
            let lo = self.c(v, 128);
            let hi = self.c(0, w - 128);
            return self.concat(hi, lo);
        }
        self.raw(Op::Const(v & mask(w)), w)
    }
    pub fn tt(&mut self) -> E { self.c(1, 1) }
    pub fn ff(&mut self) -> E { self.c(0, 1) }

    pub fn var(&mut self, name: &str, w: u32) -> E {
        let key = format!("{name}:{w}");
        let id = match self.var_map.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.var_names.len() as u32;
                self.var_names.push(key.clone());
                self.var_w.push(w);
                self.var_map.insert(key, i);
                i
            }
        };
        self.raw(Op::Var(id), w)
    }

    fn iszero(&self, e: E) -> bool { self.cval(e) == Some(0) }
    fn isones(&self, e: E) -> bool { let w = self.w(e); w <= 128 && self.cval(e) == Some(mask(w)) }
    fn small_ct(&self, e: E) -> bool { let c = self.n[e as usize].ct; c > 1 && c <= 16 }

    fn map1(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, E) -> E) -> E {
        match self.op(e) {
            Op::Ite(c, a, b) => {
                let x = self.map1(a, f);
                let y = self.map1(b, f);
                self.ite(c, x, y)
            }
            _ => f(self, e),
        }
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(x.wrapping_add(y), w);
            }
            if y == 0 {
                return a;
            }
            if let Op::Add(p, q) = self.op(a) {
                if let Some(z) = self.cval(q) {
                    let k = self.c(y.wrapping_add(z), w);
                    return self.add(p, k);
                }
            }
            if self.small_ct(a) {
                return self.map1(a, &mut |s, l| s.add(l, b));
            }
            return self.raw(Op::Add(a, b), w);
        }
        // push constants outwards
        if let Op::Add(p, q) = self.op(a) {
            if self.cval(q).is_some() {
                let t = self.add(p, b);
                return self.add(t, q);
            }
        }
        if let Op::Add(p, q) = self.op(b) {
            if self.cval(q).is_some() {
                let t = self.add(a, p);
                return self.add(t, q);
            }
        }
        // x + (y - x) = y
        if let Op::Sub(p, q) = self.op(b) {
            if q == a {
                return p;
            }
        }
        if let Op::Sub(p, q) = self.op(a) {
            if q == b {
                return p;
            }
        }
        // (x / k) * k + x % k = x
        for (p, q) in [(a, b), (b, a)] {
            if let Some(x) = self.divmod(p, q) {
                return x;
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Add(a, b), w)
    }

    /// `x` when `p` is `(x / k) * k` and `q` is `x % k`.
    fn divmod(&mut self, p: E, q: E) -> Option<E> {
        let w = self.w(p);
        let strip = |s: &Self, e: E| match s.op(e) {
            Op::ZExt(x) => x,
            _ => e,
        };
        let (d, k) = match self.op(p) {
            Op::Mul(d, k) => (strip(self, d), self.cval(k)?),
            _ => return None,
        };
        let r = strip(self, q);
        match (self.op(d), self.op(r)) {
            (Op::UDiv(x, k1), Op::URem(y, k2)) if x == y && self.cval(k1) == Some(k) && self.cval(k2) == Some(k) => {
                let wx = self.w(x);
                if wx <= w { Some(self.zext(x, w)) } else { None }
            }
            _ => None,
        }
    }

    /// Is `p` of the form `(x / k) * k`?
    fn is_floor_of(&mut self, p: E, x: E) -> bool {
        let s = |s: &Self, e: E| match s.op(e) {
            Op::ZExt(x) => x,
            _ => e,
        };
        if let Op::Mul(d, k) = self.op(p) {
            let (d, xx) = (s(self, d), s(self, x));
            if let (Op::UDiv(y, k1), Some(k)) = (self.op(d), self.cval(k)) {
                return (y == xx || y == x) && self.cval(k1) == Some(k);
            }
        }
        false
    }

    pub fn neg(&mut self, a: E) -> E {
        let z = self.c(0, self.w(a));
        self.sub(z, a)
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let Some(y) = self.cval(b) {
            let k = self.c((!y).wrapping_add(1), w);
            return self.add(a, k);
        }
        if let Op::Add(p, q) = self.op(a) {
            if p == b {
                return q;
            }
            if q == b {
                return p;
            }
            if self.cval(q).is_some() {
                let t = self.sub(p, b);
                return self.add(t, q);
            }
        }
        if let Op::Add(p, q) = self.op(b) {
            if let Some(z) = self.cval(q) {
                let t = self.sub(a, p);
                let k = self.c((!z).wrapping_add(1), w);
                return self.add(t, k);
            }
            if p == a {
                return self.neg(q);
            }
            if q == a {
                return self.neg(p);
            }
        }
        // a - (a - b) = b
        if let Op::Sub(p, q) = self.op(b) {
            if p == a {
                return q;
            }
        }
        if self.cval(a).is_some() && self.small_ct(b) {
            return self.map1(b, &mut |s, l| s.sub(a, l));
        }
        self.raw(Op::Sub(a, b), w)
    }

    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(x.wrapping_mul(y), w);
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
            if let Op::Mul(p, q) = self.op(a) {
                if let Some(z) = self.cval(q) {
                    let k = self.c(y.wrapping_mul(z), w);
                    return self.mul(p, k);
                }
            }
            if self.small_ct(a) {
                return self.map1(a, &mut |s, l| s.mul(l, b));
            }
            return self.raw(Op::Mul(a, b), w);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Mul(a, b), w)
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 1 {
                return a;
            }
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.c(x / y, w);
                }
                if y.is_power_of_two() {
                    let k = self.c(y.trailing_zeros() as u128, w);
                    return self.lshr(a, k);
                }
                // narrow
                let h = self.n[a as usize].hi;
                if h < y {
                    return self.c(0, w);
                }
                let need = 128 - h.max(y).leading_zeros();
                if need < w {
                    let x = self.extract(a, 0, need);
                    let k = self.c(y, need);
                    let d = self.raw(Op::UDiv(x, k), need);
                    return self.zext(d, w);
                }
            }
        }
        self.raw(Op::UDiv(a, b), w)
    }

    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.c(x % y, w);
                }
                if y == 1 {
                    return self.c(0, w);
                }
                if y.is_power_of_two() {
                    let k = self.c(y - 1, w);
                    return self.and(a, k);
                }
                let h = self.n[a as usize].hi;
                if h < y {
                    return a;
                }
                let need = 128 - h.max(y).leading_zeros();
                if need < w {
                    let x = self.extract(a, 0, need);
                    let k = self.c(y, need);
                    let d = self.raw(Op::URem(x, k), need);
                    return self.zext(d, w);
                }
            }
        }
        self.raw(Op::URem(a, b), w)
    }

    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                let r = sext128(x, w).wrapping_div(sext128(y, w));
                return self.c(r as u128, w);
            }
        }
        self.raw(Op::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                let r = sext128(x, w).wrapping_rem(sext128(y, w));
                return self.c(r as u128, w);
            }
        }
        self.raw(Op::SRem(a, b), w)
    }

    /// Flattens into pieces, low first.
    fn pieces(&mut self, e: E, out: &mut Vec<E>) {
        match self.op(e) {
            Op::Concat(h, l) => {
                self.pieces(l, out);
                self.pieces(h, out);
            }
            Op::ZExt(x) => {
                self.pieces(x, out);
                let mut r = self.w(e) - self.w(x);
                while r > 0 {
                    let k = r.min(128);
                    let z = self.c(0, k);
                    out.push(z);
                    r -= k;
                }
            }
            _ => out.push(e),
        }
    }

    fn from_pieces(&mut self, p: &[E]) -> E {
        let mut r = *p.last().unwrap();
        for &x in p[..p.len() - 1].iter().rev() {
            r = self.concat(r, x);
        }
        r
    }

    /// Splits two piece lists at common boundaries.
    fn align(&mut self, a: &[E], b: &[E]) -> Vec<(E, E)> {
        let mut out = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut x, mut y) = (a[0], b[0]);
        loop {
            let (wx, wy) = (self.w(x), self.w(y));
            let k = wx.min(wy);
            let px = if wx == k { x } else { self.extract(x, 0, k) };
            let py = if wy == k { y } else { self.extract(y, 0, k) };
            out.push((px, py));
            if wx > k {
                x = self.extract(x, k, wx - k);
            } else {
                i += 1;
                if i == a.len() {
                    break;
                }
                x = a[i];
            }
            if wy > k {
                y = self.extract(y, k, wy - k);
            } else {
                j += 1;
                y = b[j];
            }
        }
        out
    }

    fn structured(&self, e: E) -> bool { matches!(self.op(e), Op::Concat(..) | Op::ZExt(..)) }

    fn bitwise_pieces(&mut self, a: E, b: E, kind: u8) -> Option<E> {
        let w = self.w(a);
        if w == 1 {
            return None;
        }
        if !(self.structured(a) || self.structured(b)) {
            // and with run-structured constant
            if kind == 0 {
                let (x, k) = if let Some(k) = self.cval(b) { (a, k) } else { return None };
                if w > 128 {
                    return None;
                }
                let mut runs = vec![];
                let mut pos = 0;
                while pos < w {
                    let bit = (k >> pos) & 1;
                    let mut e = pos + 1;
                    while e < w && (k >> e) & 1 == bit {
                        e += 1;
                    }
                    runs.push((pos, e - pos, bit));
                    pos = e;
                }
                if runs.len() > 4 {
                    return None;
                }
                let mut p = vec![];
                for (s, l, bit) in runs {
                    p.push(if bit == 1 { self.extract(x, s, l) } else { self.c(0, l) });
                }
                return Some(self.from_pieces(&p));
            }
            return None;
        }
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        // split constants at run boundaries is left to align()
        let al = self.align(&pa, &pb);
        let mut useful = false;
        for &(x, y) in &al {
            let cx = self.cval(x).is_some() || self.cval(y).is_some() || x == y;
            if cx {
                useful = true;
            }
        }
        if !useful || al.len() > 64 {
            return None;
        }
        let mut r = vec![];
        for (x, y) in al {
            r.push(match kind {
                0 => self.and(x, y),
                1 => self.or(x, y),
                _ => self.xor(x, y),
            });
        }
        Some(self.from_pieces(&r))
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(x & y, w);
            }
            if y == 0 {
                return b;
            }
            if self.isones(b) {
                return a;
            }
            if self.small_ct(a) {
                return self.map1(a, &mut |s, l| s.and(l, b));
            }
        }
        if let Op::Not(x) = self.op(a) {
            if x == b {
                return self.c(0, w);
            }
        }
        if let Op::Not(x) = self.op(b) {
            if x == a {
                return self.c(0, w);
            }
        }
        if w == 1 {
            // absorption
            if let Op::And(p, q) = self.op(a) {
                if p == b || q == b {
                    return a;
                }
            }
            if let Op::And(p, q) = self.op(b) {
                if p == a || q == a {
                    return b;
                }
            }
        }
        if let Some(r) = self.bitwise_pieces(a, b, 0) {
            return r;
        }
        self.raw(Op::And(a, b), w)
    }

    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if w == 1 {
            let (x, y) = (self.not(a), self.not(b));
            let t = self.and(x, y);
            return self.not(t);
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(x | y, w);
            }
            if y == 0 {
                return a;
            }
            if self.isones(b) {
                return b;
            }
            if self.small_ct(a) {
                return self.map1(a, &mut |s, l| s.or(l, b));
            }
        }
        if let Some(r) = self.bitwise_pieces(a, b, 1) {
            return r;
        }
        self.raw(Op::Or(a, b), w)
    }

    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(x ^ y, w);
            }
            if y == 0 {
                return a;
            }
            if self.isones(b) {
                return self.not(a);
            }
            if let Op::Xor(p, q) = self.op(a) {
                if let Some(z) = self.cval(q) {
                    let k = self.c(y ^ z, w);
                    return self.xor(p, k);
                }
            }
            if self.small_ct(a) {
                return self.map1(a, &mut |s, l| s.xor(l, b));
            }
        }
        if w == 1 {
            // xor(a,b) = not eq(a,b)
            let t = self.eq(a, b);
            return self.not(t);
        }
        if let Some(r) = self.bitwise_pieces(a, b, 2) {
            return r;
        }
        self.raw(Op::Xor(a, b), w)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.op(a) {
            Op::Const(c) => self.c(!c, w),
            Op::Not(x) => x,
            _ if self.small_ct(a) => self.map1(a, &mut |s, l| s.not(l)),
            _ => self.raw(Op::Not(a), w),
        }
    }

    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u32;
            if s == 0 {
                return a;
            }
            if let Some(x) = self.cval(a) {
                return self.c(x << s, w);
            }
            let h = self.extract(a, 0, w - s);
            let l = self.c(0, s);
            return self.concat(h, l);
        }
        if self.iszero(a) {
            return a;
        }
        if self.small_ct(b) {
            return self.map1(b, &mut |s, l| s.shl(a, l));
        }
        self.raw(Op::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u32;
            if s == 0 {
                return a;
            }
            if let Some(x) = self.cval(a) {
                return self.c(x >> s, w);
            }
            let h = self.extract(a, s, w - s);
            return self.zext(h, w);
        }
        if self.iszero(a) {
            return a;
        }
        if self.small_ct(b) {
            return self.map1(b, &mut |s, l| s.lshr(a, l));
        }
        self.raw(Op::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            let s = (s.min(w as u128 - 1)) as u32;
            if s == 0 {
                return a;
            }
            if let Some(x) = self.cval(a) {
                return self.c((sext128(x, w) >> s) as u128, w);
            }
            let h = self.extract(a, s, w - s);
            return self.sext(h, w);
        }
        self.raw(Op::AShr(a, b), w)
    }

    pub fn extract(&mut self, a: E, lo: u32, len: u32) -> E {
        let w = self.w(a);
        debug_assert!(lo + len <= w && len > 0);
        if len == w {
            return a;
        }
        match self.op(a) {
            Op::Const(c) => self.c(c >> lo, len),
            Op::Extract(x, l) => self.extract(x, l + lo, len),
            Op::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    self.extract(h, lo - wl, len)
                } else if lo + len <= wl {
                    self.extract(l, lo, len)
                } else {
                    let p = self.extract(l, lo, wl - lo);
                    let q = self.extract(h, 0, lo + len - wl);
                    self.concat(q, p)
                }
            }
            Op::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.c(0, len)
                } else if lo + len <= wx {
                    self.extract(x, lo, len)
                } else {
                    let p = self.extract(x, lo, wx - lo);
                    self.zext(p, len)
                }
            }
            Op::SExt(x) => {
                let wx = self.w(x);
                if lo + len <= wx {
                    self.extract(x, lo, len)
                } else if lo < wx {
                    let p = self.extract(x, lo, wx - lo);
                    self.sext(p, len)
                } else {
                    let p = self.extract(x, wx - 1, 1);
                    self.sext(p, len)
                }
            }
            Op::Ite(c, x, y) => {
                if self.small_ct(a)
                    || self.structured(x)
                    || self.structured(y)
                    || (self.cval(x).is_some() || self.cval(y).is_some())
                {
                    let p = self.extract(x, lo, len);
                    let q = self.extract(y, lo, len);
                    self.ite(c, p, q)
                } else {
                    self.raw(Op::Extract(a, lo), len)
                }
            }
            Op::Not(x) => {
                let t = self.extract(x, lo, len);
                self.not(t)
            }
            Op::And(x, y) => {
                let (p, q) = (self.extract(x, lo, len), self.extract(y, lo, len));
                self.and(p, q)
            }
            Op::Or(x, y) => {
                let (p, q) = (self.extract(x, lo, len), self.extract(y, lo, len));
                self.or(p, q)
            }
            Op::Xor(x, y) => {
                let (p, q) = (self.extract(x, lo, len), self.extract(y, lo, len));
                self.xor(p, q)
            }
            Op::Add(x, y) if lo == 0 => {
                let (p, q) = (self.extract(x, lo, len), self.extract(y, lo, len));
                self.add(p, q)
            }
            Op::Mul(x, y) if lo == 0 => {
                let (p, q) = (self.extract(x, lo, len), self.extract(y, lo, len));
                self.mul(p, q)
            }
            _ => self.raw(Op::Extract(a, lo), len),
        }
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if w <= 128 {
            if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) {
                return self.c((x << wl) | y, w);
            }
        }
        if self.iszero(h) {
            return self.zext(l, w);
        }
        if let Op::ZExt(x) = self.op(h) {
            let t = self.concat(x, l);
            return self.zext(t, w);
        }
        // normal form: right nested, i.e. high part is never a concat
        if let Op::Concat(hh, hl) = self.op(h) {
            let t = self.concat(hl, l);
            return self.concat(hh, t);
        }
        // merge with top piece of l
        let (top, rest) = match self.op(l) {
            Op::Concat(a, b) => (a, Some(b)),
            Op::ZExt(x) if self.cval(h).is_some() && w <= 256 => {
                let z = self.c(0, wl - self.w(x));
                (z, Some(x))
            }
            _ => (l, None),
        };
        let merged = match (self.op(h), self.op(top)) {
            (Op::Extract(x, a), Op::Extract(y, b)) if x == y && a == b + self.w(top) => {
                Some(self.extract(x, b, wh + self.w(top)))
            }
            (Op::Const(x), Op::Const(y)) if wh + self.w(top) <= 128 => {
                let wt = self.w(top);
                Some(self.c((x << wt) | y, wh + wt))
            }
            // extract(x, 0..k) below extract of same ite etc. handled by hash-consing
            _ => None,
        };
        if let Some(m) = merged {
            return match rest {
                Some(r) => self.concat(m, r),
                None => m,
            };
        }
        // concat of ites over the same condition
        if let (Op::Ite(c1, a1, b1), Op::Ite(c2, a2, b2)) = (self.op(h), self.op(l)) {
            if c1 == c2 {
                let x = self.concat(a1, a2);
                let y = self.concat(b1, b2);
                return self.ite(c1, x, y);
            }
        }
        self.raw(Op::Concat(h, l), w)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(w > wa);
        match self.op(a) {
            Op::Const(c) if w <= 128 => self.c(c, w),
            Op::ZExt(x) => self.zext(x, w),
            _ if self.small_ct(a) && w <= 128 => self.map1(a, &mut |s, l| s.zext(l, w)),
            _ => self.raw(Op::ZExt(a), w),
        }
    }

    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.op(a) {
            Op::Const(c) if w <= 128 => self.c(sext128(c, wa) as u128, w),
            Op::SExt(x) => self.sext(x, w),
            Op::ZExt(_) => self.zext(a, w),
            _ if self.small_ct(a) && w <= 128 => self.map1(a, &mut |s, l| s.sext(l, w)),
            _ => self.raw(Op::SExt(a), w),
        }
    }

    pub fn trunc_or_zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa > w { self.extract(a, 0, w) } else { self.zext(a, w) }
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.cval(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        if let Op::Not(x) = self.op(c) {
            return self.ite(x, b, a);
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Op::Ite(c2, x, _) = self.op(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Op::Ite(c2, _, y) = self.op(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
        if let Op::Ite(d, x, y) = self.op(b) {
            if x == a {
                let o = self.or(c, d);
                return self.ite(o, a, y);
            }
        }
        self.raw(Op::Ite(c, a, b), w)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt();
        }
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if w == 1 {
            match self.cval(b) {
                Some(1) => return a,
                Some(_) => return self.not(a),
                None => {}
            }
            if let Op::Not(x) = self.op(a) {
                if x == b {
                    return self.ff();
                }
                let t = self.eq(x, b);
                return self.not(t);
            }
            if let Op::Not(x) = self.op(b) {
                if x == a {
                    return self.ff();
                }
                let t = self.eq(a, x);
                return self.not(t);
            }
            return self.raw(Op::Eq(a, b), 1);
        }
        if w <= 128 {
            let (al, ah) = (self.n[a as usize].lo, self.n[a as usize].hi);
            let (bl, bh) = (self.n[b as usize].lo, self.n[b as usize].hi);
            if ah < bl || bh < al {
                return self.ff();
            }
            if let Some(y) = self.cval(b) {
                if self.cval(a).is_some() {
                    return self.ff();
                }
                match self.op(a) {
                    Op::Add(p, q) => {
                        if let Some(z) = self.cval(q) {
                            let k = self.c(y.wrapping_sub(z), w);
                            return self.eq(p, k);
                        }
                    }
                    Op::Sub(p, q) => {
                        if y == 0 {
                            return self.eq(p, q);
                        }
                        if let Some(z) = self.cval(p) {
                            let k = self.c(z.wrapping_sub(y), w);
                            return self.eq(q, k);
                        }
                    }
                    Op::Xor(p, q) => {
                        if let Some(z) = self.cval(q) {
                            let k = self.c(y ^ z, w);
                            return self.eq(p, k);
                        }
                        if y == 0 {
                            return self.eq(p, q);
                        }
                    }
                    Op::Not(p) => {
                        let k = self.c(!y, w);
                        return self.eq(p, k);
                    }
                    Op::ZExt(x) => {
                        let wx = self.w(x);
                        if y >> wx != 0 {
                            return self.ff();
                        }
                        let k = self.c(y, wx);
                        return self.eq(x, k);
                    }
                    Op::SExt(x) => {
                        let wx = self.w(x);
                        if (sext128(y & mask(wx), wx) as u128) & mask(w) != y {
                            return self.ff();
                        }
                        let k = self.c(y, wx);
                        return self.eq(x, k);
                    }
                    Op::Concat(h, l) => {
                        let wl = self.w(l);
                        let kh = self.c(y >> wl, w - wl);
                        let kl = self.c(y, wl);
                        let p = self.eq(h, kh);
                        if self.iszero(p) {
                            return p;
                        }
                        let q = self.eq(l, kl);
                        return self.and(p, q);
                    }
                    Op::Ite(c, p, q) => {
                        if self.n[a as usize].ct > 0 || self.cval(p).is_some() || self.cval(q).is_some() {
                            let x = self.eq(p, b);
                            let z = self.eq(q, b);
                            return self.ite(c, x, z);
                        }
                    }
                    _ => {}
                }
            }
        }
        match (self.op(a), self.op(b)) {
            (Op::ZExt(x), Op::ZExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
            (Op::SExt(x), Op::SExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
            (Op::Not(x), Op::Not(y)) => return self.eq(x, y),
            (Op::Add(p, q), Op::Add(r, s)) => {
                if q == s {
                    return self.eq(p, r);
                }
                if p == r {
                    return self.eq(q, s);
                }
                if p == s {
                    return self.eq(q, r);
                }
                if q == r {
                    return self.eq(p, s);
                }
            }
            _ => {}
        }
        if self.structured(a) || self.structured(b) {
            let mut pa = vec![];
            let mut pb = vec![];
            self.pieces(a, &mut pa);
            self.pieces(b, &mut pb);
            if pa.len() > 1 || pb.len() > 1 {
                // only split when it aligns naturally or a constant is involved
                let al = self.align(&pa, &pb);
                let ok = w > 128
                    || al.len() <= pa.len().max(pb.len())
                        && al.iter().any(|&(x, y)| x == y || self.cval(x).is_some() || self.cval(y).is_some());
                if ok || al.len() == pa.len() && al.len() == pb.len() {
                    let mut r = self.tt();
                    for (x, y) in al {
                        let t = self.eq(x, y);
                        if self.iszero(t) {
                            return t;
                        }
                        r = self.and(r, t);
                    }
                    return r;
                }
            }
        }
        self.raw(Op::Eq(a, b), 1)
    }

    pub fn ne(&mut self, a: E, b: E) -> E {
        let t = self.eq(a, b);
        self.not(t)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff();
        }
        let w = self.w(a);
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if w <= 128 {
            let (al, ah) = (self.n[a as usize].lo, self.n[a as usize].hi);
            let (bl, bh) = (self.n[b as usize].lo, self.n[b as usize].hi);
            if ah < bl {
                return self.tt();
            }
            if al >= bh {
                return self.ff();
            }
            if bh == 1 && bl == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if al == 0 && ah == 0 {
                let t = self.eq(b, a);
                return self.not(t);
            }
            if let Some(y) = self.cval(b) {
                if y == mask(w) {
                    let t = self.eq(a, b);
                    return self.not(t);
                }
                if let Op::ZExt(x) = self.op(a) {
                    let k = self.c(y, self.w(x));
                    return self.ult(x, k);
                }
                if self.small_ct(a) {
                    return self.map1(a, &mut |s, l| s.ult(l, b));
                }
            }
            if let Some(_) = self.cval(a) {
                if let Op::ZExt(x) = self.op(b) {
                    let k = self.extract(a, 0, self.w(x));
                    return self.ult(k, x);
                }
                if self.small_ct(b) {
                    return self.map1(b, &mut |s, l| s.ult(a, l));
                }
            }
        }
        if let (Op::ZExt(x), Op::ZExt(y)) = (self.op(a), self.op(b)) {
            if self.w(x) == self.w(y) {
                return self.ult(x, y);
            }
        }
        if self.is_floor_of(b, a) {
            return self.ff();
        }
        self.raw(Op::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let t = self.ult(b, a);
        self.not(t)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff();
        }
        let w = self.w(a);
        if w <= 128 {
            if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
                let r = sext128(x, w) < sext128(y, w);
                return self.c(r as u128, 1);
            }
            // both non-negative -> unsigned
            let half = 1u128 << (w - 1);
            if self.n[a as usize].hi < half && self.n[b as usize].hi < half {
                return self.ult(a, b);
            }
            if self.cval(b).is_some() && self.small_ct(a) {
                return self.map1(a, &mut |s, l| s.slt(l, b));
            }
            if self.cval(a).is_some() && self.small_ct(b) {
                return self.map1(b, &mut |s, l| s.slt(a, l));
            }
            if self.iszero(b) {
                return self.extract(a, w - 1, 1);
            }
        }
        self.raw(Op::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let t = self.slt(b, a);
        self.not(t)
    }

    // ---- evaluation -------------------------------------------------------

    pub fn new_stamp(&mut self) { self.stamp += 1; }

    /// Evaluates under `model` (missing variables are 0). Call `new_stamp` when the model changes.
    /// Only expressions up to 128 bits are evaluated directly; wider ones are compared piecewise.
    pub fn eval(&mut self, e: E, model: &HashMap<u32, u128>) -> u128 {
        if self.ev_stamp[e as usize] == self.stamp {
            return self.ev[e as usize];
        }
        let op = self.n[e as usize].op;
        let w = self.n[e as usize].w;
        let m = mask(w);
        let v = match op {
            Op::Const(c) => c,
            Op::Var(v) => *model.get(&v).unwrap_or(&0),
            Op::Add(a, b) => self.eval(a, model).wrapping_add(self.eval(b, model)),
            Op::Sub(a, b) => self.eval(a, model).wrapping_sub(self.eval(b, model)),
            Op::Mul(a, b) => self.eval(a, model).wrapping_mul(self.eval(b, model)),
            Op::UDiv(a, b) => {
                let (x, y) = (self.eval(a, model), self.eval(b, model));
                if y == 0 { m } else { x / y }
            }
            Op::URem(a, b) => {
                let (x, y) = (self.eval(a, model), self.eval(b, model));
                if y == 0 { x } else { x % y }
            }
            Op::SDiv(a, b) => {
                let (x, y) = (sext128(self.eval(a, model), w), sext128(self.eval(b, model), w));
                (if y == 0 { if x >= 0 { -1 } else { 1 } } else { x.wrapping_div(y) }) as u128
            }
            Op::SRem(a, b) => {
                let (x, y) = (sext128(self.eval(a, model), w), sext128(self.eval(b, model), w));
                (if y == 0 { x } else { x.wrapping_rem(y) }) as u128
            }
            Op::And(a, b) => self.eval(a, model) & self.eval(b, model),
            Op::Or(a, b) => self.eval(a, model) | self.eval(b, model),
            Op::Xor(a, b) => self.eval(a, model) ^ self.eval(b, model),
            Op::Not(a) => !self.eval(a, model),
            Op::Shl(a, b) => {
                let (x, y) = (self.eval(a, model), self.eval(b, model));
                if y >= w as u128 { 0 } else { x << y }
            }
            Op::LShr(a, b) => {
                let (x, y) = (self.eval(a, model), self.eval(b, model));
                if y >= w as u128 { 0 } else { x >> y }
            }
            Op::AShr(a, b) => {
                let (x, y) = (sext128(self.eval(a, model), w), self.eval(b, model));
                (x >> (y.min(w as u128 - 1) as u32)) as u128
            }
            Op::Eq(a, b) => {
                if self.w(a) > 128 {
                    self.eval_wide(a, model).eq(&self.eval_wide(b, model)) as u128
                } else {
                    (self.eval(a, model) == self.eval(b, model)) as u128
                }
            }
            Op::Ult(a, b) => {
                if self.w(a) > 128 {
                    let (x, y) = (self.eval_wide(a, model), self.eval_wide(b, model));
                    (x.iter().rev().lt(y.iter().rev())) as u128
                } else {
                    (self.eval(a, model) < self.eval(b, model)) as u128
                }
            }
            Op::Slt(a, b) => {
                let wa = self.w(a);
                assert!(wa <= 128);
                (sext128(self.eval(a, model), wa) < sext128(self.eval(b, model), wa)) as u128
            }
            Op::Ite(c, a, b) => {
                if self.eval(c, model) == 1 { self.eval(a, model) } else { self.eval(b, model) }
            }
            Op::Extract(a, lo) => {
                if self.w(a) > 128 {
                    let bits = self.eval_wide(a, model);
                    let mut r = 0u128;
                    for i in 0..w {
                        r |= (bits[(lo + i) as usize] as u128) << i;
                    }
                    r
                } else {
                    self.eval(a, model) >> lo
                }
            }
            Op::Concat(h, l) => {
                if w > 128 { return 0 } // only via eval_wide
                let wl = self.w(l);
                (self.eval(h, model) << wl) | self.eval(l, model)
            }
            Op::ZExt(a) => if w > 128 { return 0 } else { self.eval(a, model) },
            Op::SExt(a) => {
                if w > 128 { return 0 }
                let wa = self.w(a);
                sext128(self.eval(a, model), wa) as u128
            }
        } & m;
        self.ev[e as usize] = v;
        self.ev_stamp[e as usize] = self.stamp;
        v
    }

    /// bits, low first
    fn eval_wide(&mut self, e: E, model: &HashMap<u32, u128>) -> Vec<u8> {
        let w = self.w(e);
        if w <= 128 {
            let v = self.eval(e, model);
            return (0..w).map(|i| ((v >> i) & 1) as u8).collect();
        }
        match self.op(e) {
            Op::Concat(h, l) => {
                let mut r = self.eval_wide(l, model);
                r.extend(self.eval_wide(h, model));
                r
            }
            Op::ZExt(a) => {
                let mut r = self.eval_wide(a, model);
                r.resize(w as usize, 0);
                r
            }
            Op::SExt(a) => {
                let mut r = self.eval_wide(a, model);
                let s = *r.last().unwrap();
                r.resize(w as usize, s);
                r
            }
            Op::Ite(c, a, b) => {
                if self.eval(c, model) == 1 { self.eval_wide(a, model) } else { self.eval_wide(b, model) }
            }
            Op::Extract(a, lo) => {
                let r = self.eval_wide(a, model);
                r[lo as usize..(lo + w) as usize].to_vec()
            }
            Op::And(a, b) | Op::Or(a, b) | Op::Xor(a, b) => {
                let x = self.eval_wide(a, model);
                let y = self.eval_wide(b, model);
                let o = self.op(e);
                x.iter()
                    .zip(y.iter())
                    .map(|(p, q)| match o {
                        Op::And(..) => p & q,
                        Op::Or(..) => p | q,
                        _ => p ^ q,
                    })
                    .collect()
            }
            Op::Not(a) => self.eval_wide(a, model).iter().map(|p| 1 - p).collect(),
            o => panic!("wide eval of {:?}", o),
        }
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "…".into();
        }
        let d = depth - 1;
        match self.op(e) {
            Op::Const(c) => format!("{c}"),
            Op::Var(v) => self.var_names[v as usize].clone(),
            Op::Add(a, b) => format!("({} + {})", self.show(a, d), self.show(b, d)),
            Op::Sub(a, b) => format!("({} - {})", self.show(a, d), self.show(b, d)),
            Op::Mul(a, b) => format!("({} * {})", self.show(a, d), self.show(b, d)),
            Op::And(a, b) => format!("({} & {})", self.show(a, d), self.show(b, d)),
            Op::Or(a, b) => format!("({} | {})", self.show(a, d), self.show(b, d)),
            Op::Not(a) => format!("!{}", self.show(a, d)),
            Op::Eq(a, b) => format!("({} == {})", self.show(a, d), self.show(b, d)),
            Op::Ult(a, b) => format!("({} <u {})", self.show(a, d), self.show(b, d)),
            Op::Slt(a, b) => format!("({} <s {})", self.show(a, d), self.show(b, d)),
            Op::Ite(c, a, b) => format!("({} ? {} : {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            Op::Extract(a, l) => format!("{}[{}+{}]", self.show(a, d), l, self.w(e)),
            Op::Concat(a, b) => format!("{}++{}", self.show(a, d), self.show(b, d)),
            Op::ZExt(a) => format!("z{}({})", self.w(e), self.show(a, d)),
            Op::SExt(a) => format!("s{}({})", self.w(e), self.show(a, d)),
            o => {
                let n = format!("{:?}", o);
                n
            }
        }
    }
}
