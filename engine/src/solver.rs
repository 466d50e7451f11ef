//! Z3 back end: translation, independence slicing, query and model caching.

use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

use crate::expr::{mask, Arena, Op, E};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_uint));
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_uint) {
    unsafe {
        let s = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned();
        eprintln!("symx: z3 error: {s}");
    }
    std::process::exit(3);
}

pub type Model = HashMap<u32, u128>;

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub solver_calls: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub external: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    ctx: P,
    logic: P,
    params: P,
    as_bv: HashMap<E, P>,
    as_bool: HashMap<E, P>,
    sorts: HashMap<u32, P>,
    cache: HashMap<Vec<E>, Res>,
    recent: Vec<Rc<Model>>,
    pub st: Stats,
    pub ext_ms: u64,
    pub scratch: String,
}

impl Solver {
    pub fn new(timeout_ms: u32, scratch: String) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, on_err);
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(ctx, l.as_ptr());
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let k = CString::new("timeout").unwrap();
            let ks = Z3_mk_string_symbol(ctx, k.as_ptr());
            Z3_params_set_uint(ctx, params, ks, timeout_ms);
            Solver {
                ctx,
                logic,
                params,
                as_bv: HashMap::new(),
                as_bool: HashMap::new(),
                sorts: HashMap::new(),
                cache: HashMap::new(),
                recent: vec![],
                st: Stats::default(),
                ext_ms: 60_000,
                scratch,
            }
        }
    }

    fn sort(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(ctx, w) })
    }

    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let c = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, c.as_ptr(), s)
            }
        }
    }

    fn b(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.as_bool.get(&e) {
            return p;
        }
        debug_assert!(a.w(e) == 1);
        let c = self.ctx;
        let r = unsafe {
            match a.op(e) {
                Op::Const(0) => Z3_mk_false(c),
                Op::Const(_) => Z3_mk_true(c),
                Op::Not(x) => {
                    let t = self.b(a, x);
                    Z3_mk_not(c, t)
                }
                Op::And(x, y) => {
                    let v = [self.b(a, x), self.b(a, y)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or(x, y) => {
                    let v = [self.b(a, x), self.b(a, y)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Eq(x, y) if a.w(x) == 1 => {
                    let (p, q) = (self.b(a, x), self.b(a, y));
                    Z3_mk_iff(c, p, q)
                }
                Op::Eq(x, y) => {
                    let (p, q) = (self.v(a, x), self.v(a, y));
                    Z3_mk_eq(c, p, q)
                }
                Op::Ult(x, y) => {
                    let (p, q) = (self.v(a, x), self.v(a, y));
                    Z3_mk_bvult(c, p, q)
                }
                Op::Slt(x, y) => {
                    let (p, q) = (self.v(a, x), self.v(a, y));
                    Z3_mk_bvslt(c, p, q)
                }
                Op::Ite(x, y, z) => {
                    let (p, q, r) = (self.b(a, x), self.b(a, y), self.b(a, z));
                    Z3_mk_ite(c, p, q, r)
                }
                _ => {
                    let p = self.v(a, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, p, one)
                }
            }
        };
        self.as_bool.insert(e, r);
        r
    }

    fn v(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.as_bv.get(&e) {
            return p;
        }
        let c = self.ctx;
        let w = a.w(e);
        let r = unsafe {
            macro_rules! bin {
                ($f:ident, $x:expr, $y:expr) => {{
                    let (p, q) = (self.v(a, $x), self.v(a, $y));
                    $f(c, p, q)
                }};
            }
            match a.op(e) {
                Op::Const(k) => self.num(k, w),
                Op::Var(v) => {
                    let n = CString::new(format!("v{v}")).unwrap();
                    let s = Z3_mk_string_symbol(c, n.as_ptr());
                    let so = self.sort(w);
                    Z3_mk_const(c, s, so)
                }
                Op::Add(x, y) => bin!(Z3_mk_bvadd, x, y),
                Op::Sub(x, y) => bin!(Z3_mk_bvsub, x, y),
                Op::Mul(x, y) => bin!(Z3_mk_bvmul, x, y),
                Op::UDiv(x, y) => bin!(Z3_mk_bvudiv, x, y),
                Op::SDiv(x, y) => bin!(Z3_mk_bvsdiv, x, y),
                Op::URem(x, y) => bin!(Z3_mk_bvurem, x, y),
                Op::SRem(x, y) => bin!(Z3_mk_bvsrem, x, y),
                Op::And(x, y) if w > 1 => bin!(Z3_mk_bvand, x, y),
                Op::Or(x, y) if w > 1 => bin!(Z3_mk_bvor, x, y),
                Op::Xor(x, y) => bin!(Z3_mk_bvxor, x, y),
                Op::Not(x) if w > 1 => {
                    let p = self.v(a, x);
                    Z3_mk_bvnot(c, p)
                }
                Op::Shl(x, y) => bin!(Z3_mk_bvshl, x, y),
                Op::LShr(x, y) => bin!(Z3_mk_bvlshr, x, y),
                Op::AShr(x, y) => bin!(Z3_mk_bvashr, x, y),
                Op::Ite(x, y, z) if w > 1 => {
                    let (p, q, r) = (self.b(a, x), self.v(a, y), self.v(a, z));
                    Z3_mk_ite(c, p, q, r)
                }
                Op::Extract(x, lo) => {
                    let p = self.v(a, x);
                    Z3_mk_extract(c, lo + w - 1, lo, p)
                }
                Op::Concat(x, y) => bin!(Z3_mk_concat, x, y),
                Op::ZExt(x) => {
                    let p = self.v(a, x);
                    Z3_mk_zero_ext(c, w - a.w(x), p)
                }
                Op::SExt(x) => {
                    let p = self.v(a, x);
                    Z3_mk_sign_ext(c, w - a.w(x), p)
                }
                // 1-bit boolean structure
                _ => {
                    let p = self.b(a, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, p, o, z)
                }
            }
        };
        self.as_bv.insert(e, r);
        r
    }

    /// Is `pc ∧ q` satisfiable? Only the constraints sharing variables with `q` are solved; the
    /// returned model covers those and must be merged over a model of the remaining ones.
    pub fn check(&mut self, a: &mut Arena, pc: &[E], q: E, hint: &Model) -> Res {
        self.st.queries += 1;
        if let Some(v) = a.cval(q) {
            return if v == 0 { Res::Unsat } else { Res::Sat(Rc::new(Model::new())) };
        }
        // slice
        let mut inset: std::collections::HashSet<u32> = a.vars(q).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                if a.vars(c).iter().any(|v| inset.contains(v)) {
                    used[i] = true;
                    for v in a.vars(c).iter() {
                        if inset.insert(*v) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut key: Vec<E> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &c)| c).collect();
        key.push(q);
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        // try the hint and recent models
        let vars: Vec<u32> = inset.iter().copied().collect();
        let tries = std::iter::once(None).chain((0..self.recent.len()).rev().map(Some));
        for t in tries {
            let m: &Model = match t {
                None => hint,
                Some(i) => &self.recent[i],
            };
            a.new_stamp();
            if a.eval(q, m) == 1 && key.iter().all(|&k| a.eval(k, m) == 1) {
                let mut out = Model::new();
                for v in &vars {
                    out.insert(*v, *m.get(v).unwrap_or(&0));
                }
                self.st.model_hits += 1;
                let r = Res::Sat(Rc::new(out));
                self.cache.insert(key, r.clone());
                return r;
            }
        }
        let t0 = Instant::now();
        self.st.solver_calls += 1;
        let asts: Vec<P> = key.iter().map(|&k| self.b(a, k)).collect();
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(self.ctx, self.logic);
            let _ = Z3_mk_simple_solver;
            Z3_solver_inc_ref(self.ctx, s);
            Z3_solver_set_params(self.ctx, s, self.params);
            for p in &asts {
                Z3_solver_assert(self.ctx, s, *p);
            }
            let r = match Z3_solver_check(self.ctx, s) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = Model::new();
                    for &v in &vars {
                        let w = a.var_w[v as usize];
                        let name = a.var_names[v as usize].clone();
                        let name = name.rsplit_once(':').unwrap().0.to_string();
                        let ve = a.var(&name, w);
                        let ast = self.v(a, ve);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, ast, true, &mut o);
                        let st = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_string_lossy().into_owned();
                        out.insert(v, st.parse::<u128>().unwrap() & mask(w));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    // trust but verify: the model must satisfy the query under our own semantics
                    a.new_stamp();
                    for &k in &key {
                        if a.eval(k, &out) != 1 {
                            eprintln!("symx: internal error: solver model does not satisfy constraint {}", a.show(k, 8));
                            std::process::exit(3);
                        }
                    }
                    Res::Sat(Rc::new(out))
                }
                -1 => Res::Unsat,
                _ => {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                    let r = self.external(a, &txt, &vars);
                    if let Res::Sat(m) = &r {
                        a.new_stamp();
                        if !key.iter().all(|&k| a.eval(k, m) == 1) {
                            eprintln!("symx: external model rejected");
                            Z3_solver_dec_ref(self.ctx, s);
                            self.st.unknown += 1;
                            return Res::Unknown;
                        }
                    }
                    r
                }
            };
            Z3_solver_dec_ref(self.ctx, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        match &r {
            Res::Sat(m) => {
                self.st.sat += 1;
                self.recent.push(m.clone());
                if self.recent.len() > 24 {
                    self.recent.remove(0);
                }
            }
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    /// Portfolio fallback: other solvers run in parallel on the dumped query, the first conclusive
    /// answer wins. A satisfying assignment is re-checked by the caller.
    fn external(&mut self, a: &mut Arena, txt: &str, vars: &[u32]) -> Res {
        use std::process::{Command, Stdio};
        self.st.external += 1;
        // the printer exposes internal names of the total division operators
        let mut txt = txt.to_string();
        for o in ["bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod"] {
            txt = txt.replace(&format!("{o}_i "), &format!("{o} "));
        }
        let txt = &txt[..];
        let f = format!("{}/q{}-{}.smt2", self.scratch, std::process::id(), self.st.external);
        let used: Vec<u32> = vars.iter().copied().filter(|v| txt.contains(&format!("v{v} "))).collect();
        let names = used.iter().map(|v| format!("v{v}")).collect::<Vec<_>>().join(" ");
        let body = format!(
            "(set-option :produce-models true)\n(set-logic QF_BV)\n{}\n(check-sat)\n(get-value ({}))\n",
            txt, names
        );
        if std::fs::write(&f, body).is_err() {
            return Res::Unknown;
        }
        let t = self.ext_ms;
        let cmds: Vec<(&str, Vec<String>)> = vec![
            ("cvc5", vec!["--solve-bv-as-int=sum".into(), format!("--tlimit={t}")]),
            ("cvc5", vec![format!("--tlimit={t}")]),
            ("z3-new", vec![format!("-T:{}", t / 1000 + 1)]),
        ];
        let mut kids = vec![];
        for (bin, args) in cmds {
            if let Ok(c) = Command::new(bin).args(&args).arg(&f).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                kids.push(Some(c));
            }
        }
        let t0 = Instant::now();
        let mut res = Res::Unknown;
        'out: while kids.iter().any(|k| k.is_some()) && t0.elapsed().as_millis() < (t as u128) + 3000 {
            for k in kids.iter_mut() {
                let done = match k {
                    Some(c) => c.try_wait().ok().flatten().is_some(),
                    None => continue,
                };
                if !done {
                    continue;
                }
                let o = k.take().unwrap().wait_with_output();
                let o = match o {
                    Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
                    Err(_) => continue,
                };
                if o.starts_with("unsat") {
                    res = Res::Unsat;
                    break 'out;
                }
                if o.starts_with("sat") && !o.contains("(error") {
                    let mut m = Model::new();
                    // ((v1 #b01) (v2 #x0f) (v3 (_ bv5 64)))
                    let toks: Vec<String> = o[3..]
                        .replace('(', " ( ")
                        .replace(')', " ) ")
                        .split_whitespace()
                        .map(|x| x.to_string())
                        .collect();
                    let mut i = 0;
                    while i < toks.len() {
                        if let Some(n) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
                            if let Some(v) = toks.get(i + 1) {
                                let val = if let Some(b) = v.strip_prefix("#b") {
                                    u128::from_str_radix(b, 2).ok()
                                } else if let Some(b) = v.strip_prefix("#x") {
                                    u128::from_str_radix(b, 16).ok()
                                } else if v == "(" {
                                    toks.get(i + 3).and_then(|x| x.strip_prefix("bv")).and_then(|x| x.parse().ok())
                                } else {
                                    None
                                };
                                if let Some(x) = val {
                                    m.insert(n, x & mask(a.var_w[n as usize]));
                                }
                            }
                        }
                        i += 1;
                    }
                    for v in vars {
                        m.entry(*v).or_insert(0);
                    }
                    res = Res::Sat(Rc::new(m));
                    break 'out;
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        for k in kids.iter_mut().flatten() {
            let _ = k.kill();
            let _ = k.wait();
        }
        let _ = std::fs::remove_file(&f);
        res
    }
}
