//! Intrinsics, allocator, environment stand-ins and the harness interface.

use std::collections::BTreeMap;
use std::rc::Rc;

use crate::exec::*;
use crate::expr::{mask, sext128, E};
use crate::ir::*;
use crate::sha;
use crate::solver::Model;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bi {
    Nop,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Memchr,
    Ovf(u8),  // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    Sat(u8),  // 0 uadd 1 usub 2 sadd 3 ssub
    MinMax(u8), // 0 umin 1 umax 2 smin 3 smax
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    Reduce(u8),
    PtrMask,
    FirstArg,
    Trap,
    Expect,
    ObjectSize,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Panic,
    HashKeys,
    Getrandom,
    Syscall,
    Clock,
    Sha256,
    SxAny,
    SxAssume,
    SxCheck,
    SxCover,
    SxChoose,
    SxConc,
    SxKnownPanic,
    SxAllowPanic,
    SxIsSym,
    SxNote,
    SxDone,
    SxTier,
    Pedersen,
    PedersenSer,
    PedersenParse,
    PedersenTally,
    SecGen,
    SecVerify,
    XonlyParse,
    XonlySer,
    XonlyCmp,
    XonlyTweak,
    XonlyFrom,
    SecNegate,
    SecTweakAdd,
    CtxSize,
    CtxCreate,
    Ret1,
    ErrnoLoc,
    LibcMalloc,
    LibcFree,
    FMath(u8),
}

pub fn classify(n: &str, defined: bool) -> Option<Bi> {
    if let Some(s) = n.strip_prefix("llvm.") {
        let p = |x: &str| s.starts_with(x);
        return Some(if p("memcpy") || p("memmove") {
            Bi::Memcpy
        } else if p("memset") {
            Bi::Memset
        } else if p("uadd.with") {
            Bi::Ovf(0)
        } else if p("usub.with") {
            Bi::Ovf(1)
        } else if p("umul.with") {
            Bi::Ovf(2)
        } else if p("sadd.with") {
            Bi::Ovf(3)
        } else if p("ssub.with") {
            Bi::Ovf(4)
        } else if p("smul.with") {
            Bi::Ovf(5)
        } else if p("uadd.sat") {
            Bi::Sat(0)
        } else if p("usub.sat") {
            Bi::Sat(1)
        } else if p("sadd.sat") {
            Bi::Sat(2)
        } else if p("ssub.sat") {
            Bi::Sat(3)
        } else if p("umin") {
            Bi::MinMax(0)
        } else if p("umax") {
            Bi::MinMax(1)
        } else if p("smin") {
            Bi::MinMax(2)
        } else if p("smax") {
            Bi::MinMax(3)
        } else if p("ctlz") {
            Bi::Ctlz
        } else if p("cttz") {
            Bi::Cttz
        } else if p("ctpop") {
            Bi::Ctpop
        } else if p("bswap") {
            Bi::Bswap
        } else if p("bitreverse") {
            Bi::Bitrev
        } else if p("fshl") {
            Bi::Fshl
        } else if p("fshr") {
            Bi::Fshr
        } else if p("abs") {
            Bi::Abs
        } else if p("ucmp") {
            Bi::Ucmp
        } else if p("scmp") {
            Bi::Scmp
        } else if p("vector.reduce.add") {
            Bi::Reduce(0)
        } else if p("vector.reduce.and") {
            Bi::Reduce(1)
        } else if p("vector.reduce.or") {
            Bi::Reduce(2)
        } else if p("vector.reduce.xor") {
            Bi::Reduce(3)
        } else if p("ptrmask") {
            Bi::PtrMask
        } else if p("threadlocal.address") || p("launder") || p("strip.invariant") || p("invariant.start") {
            Bi::FirstArg
        } else if p("expect") {
            Bi::FirstArg
        } else if p("trap") || p("debugtrap") || p("ubsantrap") {
            Bi::Trap
        } else if p("objectsize") {
            Bi::ObjectSize
        } else if p("floor") {
            Bi::FMath(0)
        } else if p("ceil") {
            Bi::FMath(1)
        } else if p("fabs") {
            Bi::FMath(2)
        } else if p("trunc") {
            Bi::FMath(3)
        } else if p("round") {
            Bi::FMath(4)
        } else if p("lifetime")
            || p("assume")
            || p("experimental.noalias")
            || p("dbg")
            || p("invariant")
            || p("x86.sse2.pause")
            || p("prefetch")
            || p("sideeffect")
            || p("donothing")
            || p("stacksave")
            || p("stackrestore")
            || p("is.constant")
            || p("var.annotation")
            || p("pseudoprobe")
        {
            Bi::Nop
        } else {
            return None;
        });
    }
    let sx = match n {
        "sx_any" => Some(Bi::SxAny),
        "sx_assume" => Some(Bi::SxAssume),
        "sx_check" => Some(Bi::SxCheck),
        "sx_cover" => Some(Bi::SxCover),
        "sx_choose" => Some(Bi::SxChoose),
        "sx_concretize" => Some(Bi::SxConc),
        "sx_known_panic" => Some(Bi::SxKnownPanic),
        "sx_allow_panic" => Some(Bi::SxAllowPanic),
        "sx_is_symbolic" => Some(Bi::SxIsSym),
        "sx_tier" => Some(Bi::SxTier),
        "sx_note" => Some(Bi::SxNote),
        "sx_done" => Some(Bi::SxDone),
        "memcmp" => Some(Bi::Memcmp),
        "bcmp" => Some(Bi::Bcmp),
        "memcpy" | "memmove" => Some(Bi::Memcpy),
        "memset" => Some(Bi::Memset),
        "strlen" => Some(Bi::Strlen),
        "memchr" => Some(Bi::Memchr),
        "getrandom" => Some(Bi::Getrandom),
        "syscall" => Some(Bi::Syscall),
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_atfork" | "pthread_mutex_lock" | "pthread_mutex_unlock"
        | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" => Some(Bi::Nop),
        "gettid" => Some(Bi::Ret1),
        "clock_gettime" => Some(Bi::Clock),
        "__errno_location" => Some(Bi::ErrnoLoc),
        "malloc" => Some(Bi::LibcMalloc),
        "free" => Some(Bi::LibcFree),
        "abort" => Some(Bi::Trap),
        _ => None,
    };
    if sx.is_some() {
        return sx;
    }
    if n.contains("__rust_alloc_zeroed") {
        return Some(Bi::AllocZ);
    }
    if n.contains("__rust_alloc_error") || n.contains("alloc_error_handler") {
        return Some(Bi::Panic);
    }
    if n.contains("__rust_alloc") {
        return Some(Bi::Alloc);
    }
    if n.contains("__rust_dealloc") {
        return Some(Bi::Dealloc);
    }
    if n.contains("__rust_realloc") {
        return Some(Bi::Realloc);
    }
    if n.contains("__rust_no_alloc_shim") {
        return Some(Bi::Nop);
    }
    if n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") {
        return Some(Bi::Panic);
    }
    if n.contains("20hashmap_random_keys") {
        return Some(Bi::HashKeys);
    }
    // Hash maps work for any hash that is a function of the key: skip SipHash.
    if n.contains("4hash6random11RandomState") && n.contains("11BuildHasher8hash_one") {
        return Some(Bi::Ret1);
    }
    if n.contains("4hash3sip") && n.contains("6Hasher5write") {
        return Some(Bi::Nop);
    }
    if n.starts_with("_RNv") && n.contains("4sha2") && n.ends_with("11compress256") {
        return Some(Bi::Sha256);
    }
    if n.starts_with("rustsecp256k1") {
        let e = |x: &str| n.ends_with(x);
        return Some(if e("_pedersen_commit") {
            Bi::Pedersen
        } else if e("_pedersen_commitment_serialize") {
            Bi::PedersenSer
        } else if e("_pedersen_commitment_parse") {
            Bi::PedersenParse
        } else if e("_pedersen_verify_tally") {
            Bi::PedersenTally
        } else if e("_generator_generate_blinded") || e("_generator_generate") {
            Bi::SecGen
        } else if e("_ec_seckey_verify") {
            Bi::SecVerify
        } else if e("_ec_seckey_negate") {
            Bi::SecNegate
        } else if e("_ec_seckey_tweak_add") {
            Bi::SecTweakAdd
        } else if e("_context_preallocated_size") || e("_context_preallocated_clone_size") {
            Bi::CtxSize
        } else if e("_context_preallocated_create") {
            Bi::CtxCreate
        } else if e("_xonly_pubkey_parse") {
            Bi::XonlyParse
        } else if e("_xonly_pubkey_cmp") {
            Bi::XonlyCmp
        } else if e("_xonly_pubkey_tweak_add") {
            Bi::XonlyTweak
        } else if e("_xonly_pubkey_from_pubkey") {
            Bi::XonlyFrom
        } else if e("_xonly_pubkey_serialize") {
            Bi::XonlySer
        } else if e("_context_randomize") || e("_xonly_pubkey_tweak_add_check") {
            Bi::Ret1
        } else if e("_context_preallocated_destroy") {
            Bi::Nop
        } else {
            return None;
        });
    }
    let _ = defined;
    None
}

/// Order of the secp256k1 group, least significant limb first.
const ORDER: [u64; 4] = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF];

fn scalar(b: &[u8]) -> [u64; 4] {
    let mut r = [0; 4];
    for i in 0..4 {
        r[3 - i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    r
}

fn unscalar(k: &[u64; 4]) -> Vec<u8> { k.iter().rev().flat_map(|x| x.to_be_bytes()).collect() }

fn lt256(a: &[u64; 4], b: &[u64; 4]) -> bool { a.iter().rev().lt(b.iter().rev()) }

fn sub256(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut borrow = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (x, c2) = x.overflowing_sub(borrow as u64);
        r[i] = x;
        borrow = c1 | c2;
    }
    r
}

fn addmod(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut carry = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (x, c2) = x.overflowing_add(carry as u64);
        r[i] = x;
        carry = c1 | c2;
    }
    if carry || !lt256(&r, &ORDER) {
        r = sub256(&r, &ORDER);
    }
    r
}

/// Stand-in for a commitment: 33 bytes of serialized form followed by zeros.
fn ped_out(mut o: Vec<u8>) -> Vec<u8> {
    o.truncate(32);
    o.insert(0, 8);
    o.resize(64, 0);
    o
}

fn e8(x: &mut Exec, b: &(u8, E)) -> E { if b.1 != 0 { b.1 } else { x.a.c(b.0 as u128, 8) } }

impl Exec {
    fn label(&self, st: &State, p: &V, n: &V) -> R<String> {
        match (conc(p), conc(n)) {
            (Some(p), Some(n)) => self.read_str(st, p as u64, n as u64),
            _ => Err(Stop::Error("symbolic label".into())),
        }
    }

    /// Splits `a[..n]` vs `b[..n]` into (syntactically unequal) tails.
    fn cmp_tail(&mut self, st: &State, p: u64, q: u64, n: u64) -> R<Option<(Vec<(u8, E)>, Vec<(u8, E)>)>> {
        let a = self.read_bytes(st, p, n)?;
        let b = self.read_bytes(st, q, n)?;
        let mut i = 0;
        while i < a.len() && (a[i].1 == b[i].1 && (a[i].1 != 0 || a[i].0 == b[i].0)) {
            i += 1;
        }
        if i == a.len() {
            return Ok(None);
        }
        Ok(Some((a[i..].to_vec(), b[i..].to_vec())))
    }

    fn read_conc(&mut self, st: &State, p: u64, n: u64, what: &str) -> R<Vec<u8>> {
        let b = self.read_bytes(st, p, n)?;
        if b.iter().any(|b| b.1 != 0) {
            return Err(Stop::Error(format!("symbolic {what}")));
        }
        Ok(b.iter().map(|b| b.0).collect())
    }

    fn be(&mut self, v: &[(u8, E)]) -> E {
        let mut r: Option<E> = None;
        for b in v {
            let e = e8(self, b);
            r = Some(match r {
                None => e,
                Some(h) => self.a.concat(h, e),
            });
        }
        r.unwrap()
    }

    pub fn eq_bytes(&mut self, a: &[(u8, E)], b: &[(u8, E)]) -> E {
        let mut r = self.a.tt();
        // fast reject
        for (x, y) in a.iter().zip(b) {
            if x.1 == 0 && y.1 == 0 && x.0 != y.0 {
                return self.a.ff();
            }
        }
        let mut i = 0;
        while i < a.len() {
            let n = 16.min(a.len() - i);
            let mut ra: Option<E> = None;
            let mut rb: Option<E> = None;
            for k in (i..i + n).rev() {
                let (x, y) = (e8(self, &a[k]), e8(self, &b[k]));
                ra = Some(match ra {
                    None => x,
                    Some(h) => self.a.concat(h, x),
                });
                rb = Some(match rb {
                    None => y,
                    Some(h) => self.a.concat(h, y),
                });
            }
            let t = self.a.eq(ra.unwrap(), rb.unwrap());
            r = self.a.and(r, t);
            i += n;
        }
        r
    }

    /// Injective stand-in for a one-way function: concrete inputs give the true output, symbolic
    /// inputs an arbitrary fixed fresh output, with a solver-decided case split on equality with
    /// every earlier input on the path.
    fn oracle(&mut self, st: &mut State, kind: u8, input: Vec<(u8, E)>, real: Option<Vec<u8>>, outlen: usize) -> R<Vec<u8>> {
        let symbolic = input.iter().any(|b| b.1 != 0);
        let mut p = st.hashes.clone();
        while let Some(r) = p {
            if r.kind == kind && r.input.len() == input.len() && (symbolic || r.symbolic) {
                let c = self.eq_bytes(&input, &r.input);
                if self.a.cval(c) != Some(0) && self.decide(st, c)? {
                    return Ok(r.out.clone());
                }
            }
            p = r.prev.clone();
        }
        let out = if symbolic {
            let mut h = vec![kind];
            for b in &input {
                h.push(b.0);
                h.extend(b.1.to_le_bytes());
            }
            let mut o = vec![];
            let mut k = 0u8;
            while o.len() < outlen {
                h.push(k);
                o.extend(sha::sha256(&h));
                k += 1;
            }
            o.truncate(outlen);
            st.oracle_n += 1;
            if kind == 2 {
                o = ped_out(o);
            }
            o
        } else {
            real.expect("oracle value")
        };
        // concrete inputs only matter for later comparison with symbolic ones
        st.hashes = Some(Rc::new(HashRec { kind, input, symbolic, out: out.clone(), prev: st.hashes.take() }));
        Ok(out)
    }

    pub fn builtin(&mut self, st: &mut State, b: Bi, fid: u32, av: &[V], tys: &[Rc<Ty>], ret: &Rc<Ty>) -> R<V> {
        let lane = |t: &Rc<Ty>| match &**t {
            Ty::Vect(n, e) => Some((*n, e.clone())),
            _ => None,
        };
        // lane-wise intrinsics on vectors
        if let Some((n, _)) = lane(ret) {
            if !matches!(b, Bi::Reduce(_)) {
                let mut out = vec![];
                let et = ret.elem(0);
                for i in 0..n as usize {
                    let sub: Vec<V> = av
                        .iter()
                        .map(|v| match v {
                            V::A(x) => x[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    let st_: Vec<Rc<Ty>> = tys.iter().map(|t| if lane(t).is_some() { t.elem(0) } else { t.clone() }).collect();
                    out.push(self.builtin(st, b, fid, &sub, &st_, &et)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        match b {
            Bi::Nop => Ok(zero_of(&mut self.a, ret)),
            Bi::FirstArg => Ok(av[0].clone()),
            Bi::Trap => Err(Stop::Panic(format!("trap/abort in {}", self.where_(st)))),
            Bi::Memcpy => {
                let n = self.conc64(st, &av[2])?;
                if n == 0 {
                    return Ok(av[0].clone());
                }
                let d = self.conc64(st, &av[0])?;
                let s = self.conc64(st, &av[1])?;
                self.copy(st, d, s, n)?;
                Ok(V::C(d))
            }
            Bi::Memset => {
                let n = self.conc64(st, &av[2])?;
                if n == 0 {
                    return Ok(av[0].clone());
                }
                let d = self.conc64(st, &av[0])?;
                let (id, off) = self.obj_of(st, d, n, "memset")?;
                match &av[1] {
                    V::C(c) => {
                        let z = vec![*c as u8; n as usize];
                        st.mem.get_mut(id).unwrap().set_conc(off, &z);
                    }
                    V::S(e) => {
                        let e = self.a.extract(*e, 0, 8);
                        for i in 0..n as usize {
                            st.mem.get_mut(id).unwrap().set_sym(off + i, e);
                        }
                    }
                    _ => return Err(Stop::Error("memset".into())),
                }
                Ok(V::C(d))
            }
            Bi::Bcmp | Bi::Memcmp => {
                let n = self.conc64(st, &av[2])?;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let p = self.conc64(st, &av[0])?;
                let q = self.conc64(st, &av[1])?;
                match self.cmp_tail(st, p, q, n)? {
                    None => Ok(V::C(0)),
                    Some((a, c)) => {
                        if a[0].1 == 0 && c[0].1 == 0 {
                            return Ok(V::C(if a[0].0 < c[0].0 { 0xffff_ffff } else { 1 }));
                        }
                        let eq = self.eq_bytes(&a, &c);
                        let (z, one) = (self.a.c(0, 32), self.a.c(1, 32));
                        let r = if b == Bi::Bcmp {
                            self.a.ite(eq, z, one)
                        } else {
                            let (x, y) = (self.be(&a), self.be(&c));
                            let lt = self.a.ult(x, y);
                            let m1 = self.a.c(0xffff_ffff, 32);
                            let t = self.a.ite(lt, m1, one);
                            self.a.ite(eq, z, t)
                        };
                        Ok(self.mkv(r))
                    }
                }
            }
            Bi::Strlen => {
                let p = self.conc64(st, &av[0])?;
                let mut n = 0;
                loop {
                    let x = self.read_bytes(st, p + n, 1)?[0];
                    if x.1 != 0 {
                        return Err(Stop::Error("symbolic strlen".into()));
                    }
                    if x.0 == 0 {
                        return Ok(V::C(n));
                    }
                    n += 1;
                }
            }
            Bi::Memchr => {
                let p = self.conc64(st, &av[0])?;
                let c = self.conc64(st, &av[1])? as u8;
                let n = self.conc64(st, &av[2])?;
                let k = self.a.c(c as u128, 8);
                for i in 0..n {
                    let x = self.read_bytes(st, p + i, 1)?[0];
                    let e = e8(self, &x);
                    let q = self.a.eq(e, k);
                    if self.decide(st, q)? {
                        return Ok(V::C(p + i));
                    }
                }
                Ok(V::C(0))
            }
            Bi::Ovf(k) => {
                let w = tys[0].bits();
                let (x, y) = (&av[0], &av[1]);
                if let (Some(p), Some(q)) = (conc(x), conc(y)) {
                    if w <= 64 {
                        let m = mask(w);
                        let (r, o) = match k {
                            0 => ((p + q) & m, p + q > m),
                            1 => (p.wrapping_sub(q) & m, p < q),
                            2 => ((p * q) & m, p * q > m),
                            _ => {
                                let (a, b) = (sext128(p, w), sext128(q, w));
                                let t = match k {
                                    3 => a + b,
                                    4 => a - b,
                                    _ => a * b,
                                };
                                ((t as u128) & m, sext128((t as u128) & m, w) != t)
                            }
                        };
                        let r = mkc(&mut self.a, r, w);
                        return Ok(V::A(Rc::new(vec![r, V::C(o as u64)])));
                    }
                }
                let (p, q) = (self.to_e(x, w), self.to_e(y, w));
                let (r, o) = match k {
                    0 => {
                        let r = self.a.add(p, q);
                        // interval: no overflow possible?
                        let (ph, qh) = (self.a.n[p as usize].hi, self.a.n[q as usize].hi);
                        let o = if w <= 127 && ph + qh <= mask(w) { self.a.ff() } else { self.a.ult(r, p) };
                        (r, o)
                    }
                    1 => {
                        let r = self.a.sub(p, q);
                        let o = self.a.ult(p, q);
                        (r, o)
                    }
                    2 => {
                        let r = self.a.mul(p, q);
                        let (ph, qh) = (self.a.n[p as usize].hi, self.a.n[q as usize].hi);
                        let o = if w <= 64 && ph * qh <= mask(w) {
                            self.a.ff()
                        } else if let Some(k) = self.a.cval(q).filter(|k| *k > 0) {
                            let lim = self.a.c(mask(w) / k, w);
                            self.a.ult(lim, p)
                        } else if let Some(k) = self.a.cval(p).filter(|k| *k > 0) {
                            let lim = self.a.c(mask(w) / k, w);
                            self.a.ult(lim, q)
                        } else {
                            let (zp, zq) = (self.a.zext(p, 2 * w), self.a.zext(q, 2 * w));
                            let t = self.a.mul(zp, zq);
                            let h = self.a.extract(t, w, w);
                            let z = self.a.c(0, w);
                            self.a.ne(h, z)
                        };
                        (r, o)
                    }
                    _ => {
                        let w2 = if k == 5 { 2 * w } else { w + 1 };
                        let (sp, sq) = (self.a.sext(p, w2), self.a.sext(q, w2));
                        let t = match k {
                            3 => self.a.add(sp, sq),
                            4 => self.a.sub(sp, sq),
                            _ => self.a.mul(sp, sq),
                        };
                        let r = self.a.extract(t, 0, w);
                        let back = self.a.sext(r, w2);
                        let o = self.a.ne(back, t);
                        (r, o)
                    }
                };
                let (r, o) = (self.mkv(r), self.mkv(o));
                Ok(V::A(Rc::new(vec![r, o])))
            }
            Bi::Sat(k) => {
                let w = tys[0].bits();
                let (p, q) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let r = match k {
                    0 => {
                        let s = self.a.add(p, q);
                        let o = self.a.ult(s, p);
                        let m = self.a.c(mask(w), w);
                        self.a.ite(o, m, s)
                    }
                    1 => {
                        let s = self.a.sub(p, q);
                        let o = self.a.ult(p, q);
                        let z = self.a.c(0, w);
                        self.a.ite(o, z, s)
                    }
                    _ => {
                        let w2 = w + 1;
                        let (sp, sq) = (self.a.sext(p, w2), self.a.sext(q, w2));
                        let t = if k == 2 { self.a.add(sp, sq) } else { self.a.sub(sp, sq) };
                        let r = self.a.extract(t, 0, w);
                        let back = self.a.sext(r, w2);
                        let ok = self.a.eq(back, t);
                        let z = self.a.c(0, w2);
                        let neg = self.a.slt(t, z);
                        let mn = self.a.c(1u128 << (w - 1), w);
                        let mx = self.a.c(mask(w) >> 1, w);
                        let s = self.a.ite(neg, mn, mx);
                        self.a.ite(ok, r, s)
                    }
                };
                Ok(self.mkv(r))
            }
            Bi::MinMax(k) => {
                let w = tys[0].bits();
                let (p, q) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let c = if k < 2 { self.a.ult(p, q) } else { self.a.slt(p, q) };
                let r = if k == 0 || k == 2 { self.a.ite(c, p, q) } else { self.a.ite(c, q, p) };
                Ok(self.mkv(r))
            }
            Bi::Ucmp | Bi::Scmp => {
                let w = tys[0].bits();
                let rw = ret.bits();
                let (p, q) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let lt = if b == Bi::Ucmp { self.a.ult(p, q) } else { self.a.slt(p, q) };
                let eq = self.a.eq(p, q);
                let (m1, z, one) = (self.a.c(mask(rw), rw), self.a.c(0, rw), self.a.c(1, rw));
                let t = self.a.ite(lt, m1, one);
                let r = self.a.ite(eq, z, t);
                Ok(self.mkv(r))
            }
            Bi::Ctlz | Bi::Cttz => {
                let w = tys[0].bits();
                if let Some(c) = conc(&av[0]) {
                    let r = if b == Bi::Ctlz {
                        if c == 0 { w } else { c.leading_zeros() - (128 - w) }
                    } else if c == 0 {
                        w
                    } else {
                        c.trailing_zeros()
                    };
                    return Ok(mkc(&mut self.a, r as u128, w));
                }
                let e = self.to_e(&av[0], w);
                let mut r = self.a.c(w as u128, w);
                for i in 0..w {
                    // ctlz: scan from low to high so that the highest set bit wins
                    let bit = if b == Bi::Ctlz { i } else { w - 1 - i };
                    let x = self.a.extract(e, bit, 1);
                    let k = if b == Bi::Ctlz { w - 1 - bit } else { bit };
                    let kc = self.a.c(k as u128, w);
                    r = self.a.ite(x, kc, r);
                }
                Ok(self.mkv(r))
            }
            Bi::Ctpop => {
                let w = tys[0].bits();
                if let Some(c) = conc(&av[0]) {
                    return Ok(mkc(&mut self.a, c.count_ones() as u128, w));
                }
                let e = self.to_e(&av[0], w);
                let mut r = self.a.c(0, w);
                for i in 0..w {
                    let x = self.a.extract(e, i, 1);
                    let z = self.a.zext(x, w);
                    r = self.a.add(r, z);
                }
                Ok(self.mkv(r))
            }
            Bi::Bswap | Bi::Bitrev => {
                let w = tys[0].bits();
                let e = self.to_e(&av[0], w);
                let g = if b == Bi::Bswap { 8 } else { 1 };
                let mut r: Option<E> = None;
                let mut i = 0;
                while i < w {
                    let x = self.a.extract(e, i, g);
                    r = Some(match r {
                        None => x,
                        Some(h) => self.a.concat(h, x),
                    });
                    i += g;
                }
                Ok(self.mkv(r.unwrap()))
            }
            Bi::Fshl | Bi::Fshr => {
                let w = tys[0].bits();
                if let (Some(x), Some(y), Some(s)) = (conc(&av[0]), conc(&av[1]), conc(&av[2])) {
                    if w <= 64 {
                        let s = (s % w as u128) as u32;
                        let t = (x << w) | y;
                        let r = if b == Bi::Fshl { (t << s) >> w } else { t >> s };
                        return Ok(mkc(&mut self.a, r, w));
                    }
                }
                let s = self.conc64(st, &av[2])? % w as u64;
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let t = self.a.concat(x, y);
                let lo = if b == Bi::Fshl { w - s as u32 } else { s as u32 };
                let r = self.a.extract(t, lo, w);
                Ok(self.mkv(r))
            }
            Bi::Abs => {
                let w = tys[0].bits();
                let e = self.to_e(&av[0], w);
                let z = self.a.c(0, w);
                let n = self.a.slt(e, z);
                let m = self.a.neg(e);
                let r = self.a.ite(n, m, e);
                Ok(self.mkv(r))
            }
            Bi::Reduce(k) => {
                let w = tys[0].elem(0).bits();
                let v = match &av[0] {
                    V::A(v) => v.clone(),
                    _ => return Err(Stop::Error("reduce".into())),
                };
                let mut r = self.to_e(&v[0], w);
                for x in &v[1..] {
                    let e = self.to_e(x, w);
                    r = match k {
                        0 => self.a.add(r, e),
                        1 => self.a.and(r, e),
                        2 => self.a.or(r, e),
                        _ => self.a.xor(r, e),
                    };
                }
                Ok(self.mkv(r))
            }
            Bi::PtrMask => self.bin(st, BinOp::And, 64, &av[0], &av[1]),
            Bi::Expect => Ok(av[0].clone()),
            Bi::ObjectSize => Ok(mkc(&mut self.a, mask(ret.bits()), ret.bits())),
            Bi::FMath(k) => {
                let w = tys[0].bits();
                let c = conc(&av[0]).ok_or(Stop::Error("symbolic float".into()))?;
                let v = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let r = match k {
                    0 => v.floor(),
                    1 => v.ceil(),
                    2 => v.abs(),
                    3 => v.trunc(),
                    _ => v.round(),
                };
                let o = if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() };
                Ok(V::C(o))
            }
            Bi::Alloc | Bi::AllocZ | Bi::LibcMalloc => {
                let n = self.conc64(st, &av[0])?;
                if n > 1 << 28 {
                    return Err(Stop::Error(format!("allocation of {n} bytes in {}", self.where_(st))));
                }
                let id = st.mem.alloc(n as usize);
                Ok(V::C(obj_addr(id)))
            }
            Bi::Dealloc | Bi::LibcFree => {
                let p = self.conc64(st, &av[0])?;
                if p == 0 && b == Bi::LibcFree {
                    return Ok(V::C(0));
                }
                let (id, off) = self.obj_of(st, p, 0, "dealloc")?;
                if off != 0 {
                    return Err(Stop::Error("dealloc of interior pointer".into()));
                }
                st.mem.release(id);
                Ok(V::C(0))
            }
            Bi::Realloc => {
                let p = self.conc64(st, &av[0])?;
                let n = self.conc64(st, &av[3])?;
                let (id, _) = self.obj_of(st, p, 0, "realloc")?;
                let old = st.mem.get(id).unwrap().data.len() as u64;
                let nid = st.mem.alloc(n as usize);
                self.copy(st, obj_addr(nid), p, old.min(n))?;
                st.mem.release(id);
                Ok(V::C(obj_addr(nid)))
            }
            Bi::Panic => {
                let mut msg = demangle(&self.m.funcs[fid as usize].name);
                // locate a &Location argument: { ptr, len, line, col }
                for v in av.iter().rev() {
                    if let Some(p) = conc(v) {
                        if let Ok(b) = self.read_bytes(st, p as u64, 24) {
                            let by: Vec<u8> = b.iter().map(|x| x.0).collect();
                            let sp = u64::from_le_bytes(by[0..8].try_into().unwrap());
                            let sl = u64::from_le_bytes(by[8..16].try_into().unwrap());
                            let line = u32::from_le_bytes(by[16..20].try_into().unwrap());
                            if sl < 300 {
                                if let Ok(s) = self.read_str(st, sp, sl) {
                                    if s.ends_with(".rs") {
                                        msg = format!("panic at {s}:{line}");
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                Err(Stop::Panic(msg))
            }
            Bi::HashKeys => Ok(V::A(Rc::new(vec![V::C(0x1234_5678), V::C(0x9abc_def0)]))),
            Bi::Syscall => match conc(&av[0]) {
                Some(318) => {
                    let sub = av[1..].to_vec();
                    self.builtin(st, Bi::Getrandom, fid, &sub, &tys[1..], ret)
                }
                n => Err(Stop::Error(format!("system call {n:?} in {}", self.where_(st)))),
            },
            Bi::Getrandom => {
                let p = self.conc64(st, &av[0])?;
                let n = self.conc64(st, &av[1])?;
                if n > 0 {
                    let (id, off) = self.obj_of(st, p, n, "getrandom")?;
                    st.oracle_n += 1;
                    let mut o = vec![];
                    let mut k = 0u32;
                    while o.len() < n as usize {
                        let mut s = b"getrandom".to_vec();
                        s.extend(st.oracle_n.to_le_bytes());
                        s.extend(k.to_le_bytes());
                        o.extend(sha::sha256(&s));
                        k += 1;
                    }
                    o.truncate(n as usize);
                    st.mem.get_mut(id).unwrap().set_conc(off, &o);
                }
                Ok(V::C(n))
            }
            Bi::Clock => {
                let p = self.conc64(st, &av[1])?;
                let (id, off) = self.obj_of(st, p, 16, "clock")?;
                let mut z = [0u8; 16];
                z[..8].copy_from_slice(&1_700_000_000u64.to_le_bytes());
                st.mem.get_mut(id).unwrap().set_conc(off, &z);
                Ok(V::C(0))
            }
            Bi::ErrnoLoc => {
                if let Some(p) = st.ptrs.get("errno") {
                    return Ok(V::C(*p));
                }
                let id = st.mem.alloc(8);
                Rc::make_mut(&mut st.ptrs).insert("errno".into(), obj_addr(id));
                Ok(V::C(obj_addr(id)))
            }
            Bi::Ret1 => Ok(V::C(1)),
            Bi::Sha256 => {
                let sp = self.conc64(st, &av[0])?;
                let bp = self.conc64(st, &av[1])?;
                let n = self.conc64(st, &av[2])?;
                let mut cur = self.read_bytes(st, sp, 32)?;
                for i in 0..n {
                    let blk = self.read_bytes(st, bp + i * 64, 64)?;
                    let mut input = cur.clone();
                    input.extend(blk.iter().copied());
                    let real = if input.iter().all(|b| b.1 == 0) {
                        let by: Vec<u8> = input.iter().map(|b| b.0).collect();
                        let mut s = [0u32; 8];
                        for k in 0..8 {
                            s[k] = u32::from_le_bytes(by[k * 4..k * 4 + 4].try_into().unwrap());
                        }
                        sha::compress(&mut s, by[32..].try_into().unwrap());
                        Some(s.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>())
                    } else {
                        None
                    };
                    let out = self.oracle(st, 1, input, real, 32)?;
                    cur = out.iter().map(|x| (*x, 0)).collect();
                }
                let (id, off) = self.obj_of(st, sp, 32, "sha state")?;
                let by: Vec<u8> = cur.iter().map(|b| b.0).collect();
                st.mem.get_mut(id).unwrap().set_conc(off, &by);
                Ok(V::C(0))
            }
            Bi::Pedersen => {
                // (ctx, commit*, blind*, value, gen*)
                let cp = self.conc64(st, &av[1])?;
                let bp = self.conc64(st, &av[2])?;
                let gp = self.conc64(st, &av[4])?;
                let mut input = self.read_bytes(st, bp, 32)?;
                let v = self.to_e(&av[3], 64);
                for i in 0..8 {
                    let x = self.a.extract(v, i * 8, 8);
                    match self.a.cval(x) {
                        Some(c) => input.push((c as u8, 0)),
                        None => input.push((0, x)),
                    }
                }
                input.extend(self.read_bytes(st, gp, 64)?);
                let real = if input.iter().all(|b| b.1 == 0) {
                    let by: Vec<u8> = input.iter().map(|b| b.0).collect();
                    Some(ped_out(sha::sha256(&[b"pedersen".as_ref(), &by].concat())))
                } else {
                    None
                };
                let out = self.oracle(st, 2, input, real, 64)?;
                let (id, off) = self.obj_of(st, cp, 64, "commitment")?;
                st.mem.get_mut(id).unwrap().set_conc(off, &out);
                Ok(V::C(1))
            }
            Bi::PedersenSer => {
                let op = self.conc64(st, &av[1])?;
                let cp = self.conc64(st, &av[2])?;
                self.copy(st, op, cp, 33)?;
                Ok(V::C(1))
            }
            Bi::PedersenParse => {
                let cp = self.conc64(st, &av[1])?;
                let ip = self.conc64(st, &av[2])?;
                let head = self.read_conc(st, ip, 1, "commitment")?;
                let (id, off) = self.obj_of(st, cp, 64, "commitment")?;
                st.mem.get_mut(id).unwrap().set_conc(off, &[0u8; 64]);
                self.copy(st, cp, ip, 33)?;
                Ok(V::C((head[0] & 0xFE == 8) as u64))
            }
            Bi::SecGen => {
                let gp = self.conc64(st, &av[1])?;
                let kp = self.conc64(st, &av[2])?;
                let mut by = self.read_conc(st, kp, 32, "generator tag")?;
                if let Some(b) = av.get(3) {
                    let bp = self.conc64(st, b)?;
                    by.extend(self.read_conc(st, bp, 32, "generator blinding")?);
                }
                let mut o = sha::sha256(&[b"gen1".as_ref(), &by].concat());
                o.extend(sha::sha256(&[b"gen2".as_ref(), &by].concat()));
                let (id, off) = self.obj_of(st, gp, 64, "generator")?;
                st.mem.get_mut(id).unwrap().set_conc(off, &o);
                Ok(V::C(1))
            }
            // every 32 bytes count as a valid x-only key, kept as is
            Bi::XonlyParse => {
                let pk = self.conc64(st, &av[1])?;
                let ip = self.conc64(st, &av[2])?;
                let (id, off) = self.obj_of(st, pk, 64, "public key")?;
                st.mem.get_mut(id).unwrap().set_conc(off, &[0u8; 64]);
                self.copy(st, pk, ip, 32)?;
                Ok(V::C(1))
            }
            Bi::XonlyCmp => {
                let sub = vec![av[1].clone(), av[2].clone(), V::C(32)];
                self.builtin(st, Bi::Memcmp, fid, &sub, tys, ret)
            }
            Bi::XonlySer => {
                let op = self.conc64(st, &av[1])?;
                let pk = self.conc64(st, &av[2])?;
                self.copy(st, op, pk, 32)?;
                Ok(V::C(1))
            }
            // a tweaked key is an injective function of the key and the tweak
            Bi::XonlyTweak => {
                let op = self.conc64(st, &av[1])?;
                let kp = self.conc64(st, &av[2])?;
                let tp = self.conc64(st, &av[3])?;
                let mut input = self.read_bytes(st, kp, 32)?;
                input.extend(self.read_bytes(st, tp, 32)?);
                let real = if input.iter().all(|b| b.1 == 0) {
                    let by: Vec<u8> = input.iter().map(|b| b.0).collect();
                    Some(sha::sha256(&[b"tweak".as_ref(), &by].concat()))
                } else {
                    None
                };
                let out = self.oracle(st, 3, input, real, 32)?;
                let (id, off) = self.obj_of(st, op, 64, "public key")?;
                st.mem.get_mut(id).unwrap().set_conc(off, &[0u8; 64]);
                st.mem.get_mut(id).unwrap().set_conc(off, &out);
                Ok(V::C(1))
            }
            Bi::XonlyFrom => {
                let op = self.conc64(st, &av[1])?;
                let pp = self.conc64(st, &av[2])?;
                let pk = self.conc64(st, &av[3])?;
                self.copy(st, op, pk, 64)?;
                if pp != 0 {
                    let (id, off) = self.obj_of(st, pp, 4, "parity")?;
                    st.mem.get_mut(id).unwrap().set_conc(off, &[0u8; 4]);
                }
                Ok(V::C(1))
            }
            Bi::SecVerify => {
                let p = self.conc64(st, &av[1])?;
                let k = scalar(&self.read_conc(st, p, 32, "secret key")?);
                Ok(V::C((k != [0; 4] && lt256(&k, &ORDER)) as u64))
            }
            Bi::SecNegate => {
                let p = self.conc64(st, &av[1])?;
                let k = scalar(&self.read_conc(st, p, 32, "secret key")?);
                let ok = k != [0; 4] && lt256(&k, &ORDER);
                let r = if ok { sub256(&ORDER, &k) } else { [0; 4] };
                let (id, off) = self.obj_of(st, p, 32, "secret key")?;
                st.mem.get_mut(id).unwrap().set_conc(off, &unscalar(&r));
                Ok(V::C(ok as u64))
            }
            Bi::SecTweakAdd => {
                let p = self.conc64(st, &av[1])?;
                let q = self.conc64(st, &av[2])?;
                let k = scalar(&self.read_conc(st, p, 32, "secret key")?);
                let t = scalar(&self.read_conc(st, q, 32, "tweak")?);
                let mut ok = k != [0; 4] && lt256(&k, &ORDER) && lt256(&t, &ORDER);
                let r = if ok { addmod(&k, &t) } else { [0; 4] };
                ok &= r != [0; 4];
                let (id, off) = self.obj_of(st, p, 32, "secret key")?;
                st.mem.get_mut(id).unwrap().set_conc(off, &unscalar(&r));
                Ok(V::C(ok as u64))
            }
            Bi::CtxSize => Ok(V::C(64)),
            Bi::CtxCreate => Ok(av[0].clone()),
            Bi::PedersenTally => {
                // (ctx, commits**, n, commits**, n): commitments are sums over independent
                // generators, so they balance when blindings and per-generator values do.
                let mut blind = [[0u64; 4]; 2];
                let mut sums: [BTreeMap<Vec<u8>, E>; 2] = Default::default();
                let mut odd: [Vec<Vec<u8>>; 2] = Default::default();
                for side in 0..2 {
                    let pp = self.conc64(st, &av[1 + side * 2])?;
                    let n = self.conc64(st, &av[2 + side * 2])?;
                    for i in 0..n {
                        let b = self.read_conc(st, pp + i * 8, 8, "commitment list")?;
                        let cp = u64::from_le_bytes(b.try_into().unwrap());
                        let c = self.read_conc(st, cp, 64, "commitment")?;
                        let mut p = st.hashes.clone();
                        let mut found = None;
                        while let Some(r) = p {
                            if r.kind == 2 && r.out == c {
                                found = Some(r.input.clone());
                                break;
                            }
                            p = r.prev.clone();
                        }
                        let Some(inp) = found else {
                            odd[side].push(c);
                            continue;
                        };
                        if inp[..32].iter().chain(&inp[40..]).any(|b| b.1 != 0) {
                            return Err(Stop::Error("symbolic blinding in a commitment sum".into()));
                        }
                        let bl: Vec<u8> = inp[..32].iter().map(|b| b.0).collect();
                        blind[side] = addmod(&blind[side], &scalar(&bl));
                        let gen: Vec<u8> = inp[40..].iter().map(|b| b.0).collect();
                        let mut val: Vec<(u8, E)> = inp[32..40].to_vec();
                        val.reverse();
                        let v = self.be(&val);
                        let v = self.a.zext(v, 72);
                        let z = self.a.c(0, 72);
                        let e = sums[side].get(&gen).copied().unwrap_or(z);
                        let e = self.a.add(e, v);
                        sums[side].insert(gen, e);
                    }
                }
                odd[0].sort();
                odd[1].sort();
                if odd[0] != odd[1] || blind[0] != blind[1] {
                    return Ok(V::C(0));
                }
                let z = self.a.c(0, 72);
                let mut r = self.a.c(1, 1);
                let keys: Vec<Vec<u8>> = sums[0].keys().chain(sums[1].keys()).cloned().collect();
                for k in keys {
                    let l = sums[0].get(&k).copied().unwrap_or(z);
                    let m = sums[1].get(&k).copied().unwrap_or(z);
                    let c = self.a.eq(l, m);
                    r = self.a.and(r, c);
                }
                let r = self.a.zext(r, 32);
                Ok(self.mkv(r))
            }
            // -------------------------------------------------- harness
            Bi::SxIsSym => Ok(V::C(1)),
            Bi::SxTier => Ok(V::C(self.tier)),
            Bi::SxAny => {
                let w = conc(&av[0]).unwrap() as u32;
                let name = format!("in{}", st.inputs.len());
                let v = self.a.var(&name, w);
                st.inputs.push(v);
                let z = self.a.zext(v, 64);
                Ok(self.mkv(z))
            }
            Bi::SxChoose => {
                let n = conc(&av[0]).unwrap() as u32;
                if n == 0 {
                    return Err(Stop::Drop);
                }
                // The variable must be identical when the forked sibling re-executes this call.
                let name = format!("in{}", st.inputs.len());
                let v = self.a.var(&name, 32);
                let lim = self.a.c(n as u128, 32);
                let c = self.a.ult(v, lim);
                if self.known(st, c) != Some(true) {
                    match self.sat(st, c)? {
                        None => return Err(Stop::Drop),
                        Some(m) => {
                            self.merge_model(st, &m);
                            self.add_pc(st, c);
                        }
                    }
                }
                let x = self.concretize(st, v)?;
                st.inputs.push(v);
                Ok(V::C(x as u64))
            }
            Bi::SxConc => {
                let x = self.conc64(st, &av[0])?;
                Ok(V::C(x))
            }
            Bi::SxAssume => {
                match &av[0] {
                    V::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Drop);
                        }
                    }
                    V::S(e) => {
                        let e = self.a.extract(*e, 0, 1);
                        match self.known(st, e) {
                            Some(true) => {}
                            Some(false) => return Err(Stop::Drop),
                            None => match self.sat(st, e)? {
                                None => return Err(Stop::Drop),
                                Some(m) => {
                                    if self.ev(st, e) != 1 {
                                        self.merge_model(st, &m);
                                    }
                                    self.add_pc(st, e);
                                }
                            },
                        }
                    }
                    _ => return Err(Stop::Error("assume".into())),
                }
                Ok(V::C(0))
            }
            Bi::SxCheck => {
                // (cond, label, len, known id, len, class)
                let label = self.label(st, &av[1], &av[2])?;
                let kid = self.label(st, &av[3], &av[4])?;
                st.nchecks += 1;
                let ent = self.checks.entry(label.clone()).or_insert((0, 0));
                ent.0 += 1;
                let c = match &av[0] {
                    V::C(c) => self.a.c((*c & 1) as u128, 1),
                    V::S(e) => {
                        let e = self.a.extract(*e, 0, 1);
                        self.checks.get_mut(&label).unwrap().1 += 1;
                        e
                    }
                    _ => return Err(Stop::Error("check".into())),
                };
                let nc = self.a.not(c);
                if kid.is_empty() {
                    if let Some(m) = self.sat(st, nc)? {
                        self.report(st, &m, &label, None, "check");
                    }
                } else {
                    let class = match &av[5] {
                        V::C(c) => self.a.c((*c & 1) as u128, 1),
                        V::S(e) => self.a.extract(*e, 0, 1),
                        _ => return Err(Stop::Error("check".into())),
                    };
                    let nclass = self.a.not(class);
                    let q1 = self.a.and(nc, nclass);
                    if let Some(m) = self.sat(st, q1)? {
                        self.report(st, &m, &label, None, "check");
                    }
                    let q2 = self.a.and(nc, class);
                    if let Some(m) = self.sat(st, q2)? {
                        self.report(st, &m, &label, Some(kid), "check");
                    }
                }
                // continue under the assumption that the check holds
                match self.sat(st, c)? {
                    None => Err(Stop::Drop),
                    Some(m) => {
                        if self.ev(st, c) != 1 {
                            self.merge_model(st, &m);
                        }
                        self.add_pc(st, c);
                        Ok(V::C(0))
                    }
                }
            }
            Bi::SxCover => {
                let label = self.label(st, &av[0], &av[1])?;
                Rc::make_mut(&mut st.covers).insert(label);
                Ok(V::C(0))
            }
            Bi::SxKnownPanic => {
                let id = self.label(st, &av[0], &av[1])?;
                if id.is_empty() {
                    st.panic_known = None;
                } else {
                    let class = match &av[2] {
                        V::C(c) => self.a.c((*c & 1) as u128, 1),
                        V::S(e) => self.a.extract(*e, 0, 1),
                        _ => return Err(Stop::Error("known_panic".into())),
                    };
                    st.panic_known = Some((id, class));
                }
                Ok(V::C(0))
            }
            Bi::SxAllowPanic => {
                st.allow_panic = conc(&av[0]) == Some(1);
                Ok(V::C(0))
            }
            Bi::SxDone => return Err(Stop::Done),
            Bi::SxNote => {
                let label = self.label(st, &av[0], &av[1])?;
                if self.debug > 1 {
                    let s = match &av[2] {
                        V::S(e) => self.a.show(*e, 12),
                        v => format!("{:?}", conc(v)),
                    };
                    eprintln!("note {label}: {s}");
                }
                Ok(V::C(0))
            }
        }
    }

    pub fn empty_model(&self) -> Model { Model::new() }
}
