//! Textual LLVM IR reader. Function bodies are parsed on first call.

use std::collections::HashMap;
use std::rc::Rc;

use crate::expr::{mask, Arena, E};

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    B(u64, u64), // lo, hi: 65..=128 bits
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vect(u32, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vect(n, t) => (t.bits() as u64 * *n as u64 / 8).max(1).next_power_of_two().min(16),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vect(n, t) => ((t.bits() as u64 * *n as u64 + 7) / 8).next_power_of_two(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vect(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Rc<Ty> {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vect(_, t) => t.clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vect(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp { ZExt, SExt, Trunc, Bit, PtrInt, FpToSi, FpToUi, SiToFp, UiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Ind(Opd),
    Asm(String),
}

#[derive(Debug)]
pub enum Ins {
    Bin(BinOp, u32, u32, Opd, Opd), // op, width, dst, a, b
    VBin(BinOp, Rc<Ty>, u32, Opd, Opd),
    Icmp(Pred, u32, u32, Opd, Opd),
    VIcmp(Pred, Rc<Ty>, u32, Opd, Opd),
    Fcmp(String, u32, u32, Opd, Opd),
    FNeg(u32, u32, Opd),
    Select(u32, Opd, Opd, Opd, Rc<Ty>, bool),
    Cast(CastOp, u32, Opd, Rc<Ty>, Rc<Ty>),
    Gep(u32, Opd, i64, Vec<(u64, Opd, u32)>),
    Load(u32, Opd, Rc<Ty>),
    Store(Opd, Opd, Rc<Ty>),
    Alloca(u32, u64, Opd),
    Call { dst: Option<u32>, callee: Callee, args: Vec<Opd>, tys: Vec<Rc<Ty>>, ret: Rc<Ty> },
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Opd, Opd, Vec<u32>, Rc<Ty>),
    ExtractEl(u32, Opd, Opd),
    InsertEl(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>, u32),
    Rmw(String, u32, Opd, Opd, u32),
    CmpXchg(u32, Opd, Opd, Opd, u32),
    Copy(u32, Opd),
    Nop,
    // terminators
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
}

pub struct Block {
    pub ins: Vec<Ins>,
    /// (dst, [(pred block, value)])
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: Rc<Ty>,
}

pub struct FuncDecl {
    pub name: String,
    pub range: Option<(usize, usize)>,
    pub parsed: Option<&'static Func>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

pub const FN_BASE: u64 = 0x7ff0_0000_0000_0000;

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub funcs: Vec<FuncDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Rc<Ty>>,
}

pub fn obj_addr(id: u32) -> u64 { ((id as u64) + 1) << 32 }
pub fn fn_addr(id: u32) -> u64 { FN_BASE + (id as u64) * 16 }

// ---------------------------------------------------------------- lexer

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Id(String),
    Local(String),
    Glob(String),
    Num(String),
    CStr(Vec<u8>),
    Str(String),
    P(u8),
    Meta,
    Attr,
    Label(String),
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    pos: usize,
    tok: T,
    /// newline was crossed before `tok`
    nl: bool,
}

fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        let mut l = Lex { s, pos: 0, tok: T::Eof, nl: true };
        l.adv();
        l
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.pos += 1;
        let mut out = vec![];
        while self.s[self.pos] != b'"' {
            let c = self.s[self.pos];
            if c == b'\\' {
                if self.s[self.pos + 1] == b'\\' {
                    out.push(b'\\');
                    self.pos += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.pos + 1..self.pos + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.pos += 3;
                }
            } else {
                out.push(c);
                self.pos += 1;
            }
        }
        self.pos += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.s[self.pos] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.pos;
        while self.pos < self.s.len() && idch(self.s[self.pos]) {
            self.pos += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.pos]).into_owned()
    }
    pub fn adv(&mut self) -> T {
        self.nl = false;
        loop {
            if self.pos >= self.s.len() {
                return std::mem::replace(&mut self.tok, T::Eof);
            }
            let c = self.s[self.pos];
            if c == b'\n' {
                self.nl = true;
                self.pos += 1;
            } else if c == b' ' || c == b'\t' || c == b'\r' {
                self.pos += 1;
            } else if c == b';' {
                while self.pos < self.s.len() && self.s[self.pos] != b'\n' {
                    self.pos += 1;
                }
            } else {
                break;
            }
        }
        let c = self.s[self.pos];
        let t = match c {
            b'%' => {
                self.pos += 1;
                T::Local(self.name())
            }
            b'@' => {
                self.pos += 1;
                T::Glob(self.name())
            }
            b'!' => {
                self.pos += 1;
                if self.pos < self.s.len() && (idch(self.s[self.pos])) {
                    self.name();
                }
                T::Meta
            }
            b'#' => {
                self.pos += 1;
                self.name();
                T::Attr
            }
            b'"' => {
                let q = String::from_utf8_lossy(&self.quoted()).into_owned();
                if self.pos < self.s.len() && self.s[self.pos] == b':' {
                    self.pos += 1;
                    T::Label(q)
                } else {
                    T::Str(q)
                }
            }
            b'c' if self.s.get(self.pos + 1) == Some(&b'"') => {
                self.pos += 1;
                T::CStr(self.quoted())
            }
            _ if idch(c) && c != b'.' || c == b'+' => {
                let st = self.pos;
                self.pos += 1;
                while self.pos < self.s.len()
                    && (idch(self.s[self.pos]) || (self.s[self.pos] == b'+' && self.s[self.pos - 1] == b'e'))
                {
                    self.pos += 1;
                }
                let n = String::from_utf8_lossy(&self.s[st..self.pos]).into_owned();
                if self.pos < self.s.len() && self.s[self.pos] == b':' {
                    self.pos += 1;
                    T::Label(n)
                } else if c.is_ascii_digit() || c == b'-' {
                    T::Num(n)
                } else {
                    T::Id(n)
                }
            }
            b'.' => {
                // "..."
                if self.s[self.pos..].starts_with(b"...") {
                    self.pos += 3;
                    T::P(b'.')
                } else {
                    let n = self.name();
                    if self.pos < self.s.len() && self.s[self.pos] == b':' {
                        self.pos += 1;
                        T::Label(n)
                    } else {
                        T::Id(n)
                    }
                }
            }
            _ => {
                self.pos += 1;
                T::P(c)
            }
        };
        std::mem::replace(&mut self.tok, t)
    }
    fn is(&self, c: u8) -> bool { self.tok == T::P(c) }
    fn isid(&self, s: &str) -> bool { matches!(&self.tok, T::Id(x) if x == s) }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eatid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let st = self.pos.saturating_sub(200);
        let en = (self.pos + 100).min(self.s.len());
        panic!("IR parse: {m}, got {:?} near …{}…", self.tok, String::from_utf8_lossy(&self.s[st..en]));
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            match &self.tok {
                T::P(b'(') | T::P(b'[') | T::P(b'{') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') => d -= 1,
                T::Eof => self.fail("unbalanced"),
                _ => {}
            }
            self.adv();
            if d == 0 {
                break;
            }
        }
    }
    /// skip attribute-like words before a type or value on the same line
    fn skip_attrs(&mut self, stop_at_value: bool) {
        loop {
            match &self.tok {
                T::Id(s) => {
                    if is_type_word(s) || (stop_at_value && is_value_word(s)) {
                        return;
                    }
                    let al = s == "align";
                    self.adv();
                    if self.is(b'(') {
                        self.skip_balanced();
                    } else if al {
                        if matches!(self.tok, T::Num(_)) {
                            self.adv();
                        }
                    }
                }
                T::Attr => {
                    self.adv();
                }
                T::Str(_) => {
                    self.adv();
                    if self.eat(b'=') {
                        self.adv();
                    }
                }
                _ => return,
            }
        }
    }
}

fn is_type_word(s: &str) -> bool {
    matches!(s, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "bfloat")
        || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_word(s: &str) -> bool {
    matches!(
        s,
        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr"
            | "bitcast" | "trunc" | "add" | "sub" | "xor" | "none" | "splat" | "asm" | "blockaddress" | "addrspacecast"
            | "ptrtoaddr" | "no_cfi" | "dso_local_equivalent"
    )
}

pub fn mkc(a: &mut Arena, v: u128, w: u32) -> V {
    if w <= 64 {
        V::C(v as u64 & (mask(w) as u64))
    } else if w <= 128 {
        let v = v & mask(w);
        V::B(v as u64, (v >> 64) as u64)
    } else {
        V::S(a.c(v, w))
    }
}

pub fn zero_of(a: &mut Arena, t: &Ty) -> V {
    match t {
        Ty::Void | Ty::Opaque => V::C(0),
        Ty::Int(w) | Ty::Float(w) => mkc(a, 0, *w),
        Ty::Ptr => V::C(0),
        Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| zero_of(a, t)).collect())),
        Ty::Vect(n, t) => V::A(Rc::new((0..*n).map(|_| zero_of(a, t)).collect())),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| zero_of(a, t)).collect())),
    }
}

struct Cx<'m> {
    m: &'m Module,
    locals: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

impl<'m> Cx<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.locals.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.locals.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
}

pub fn ty_of(l: &mut Lex, m: &Module) -> Rc<Ty> {
    let t = match l.adv() {
        T::Id(s) => match s.as_str() {
            "ptr" => {
                if l.eatid("addrspace") {
                    l.skip_balanced();
                }
                Ty::Ptr
            }
            "void" => Ty::Void,
            "float" => Ty::Float(32),
            "double" => Ty::Float(64),
            "half" | "bfloat" => Ty::Float(16),
            "fp128" => Ty::Float(128),
            "x86_fp80" => Ty::Float(80),
            "label" | "metadata" | "token" => Ty::Opaque,
            s if is_type_word(s) => Ty::Int(s[1..].parse().unwrap()),
            "opaque" => Ty::Opaque,
            _ => l.fail(&format!("type, word {s}")),
        },
        T::P(b'[') => {
            let n: u64 = match l.adv() {
                T::Num(n) => n.parse().unwrap(),
                _ => l.fail("array len"),
            };
            l.eatid("x");
            let t = ty_of(l, m);
            l.expect(b']');
            Ty::Arr(n, t)
        }
        T::P(b'<') => {
            if l.is(b'{') {
                l.adv();
                let f = struct_fields(l, m);
                l.expect(b'>');
                Ty::Struct(f, true)
            } else {
                l.eatid("vscale");
                let n: u32 = match l.adv() {
                    T::Num(n) => n.parse().unwrap(),
                    _ => l.fail("vector len"),
                };
                l.eatid("x");
                let t = ty_of(l, m);
                l.expect(b'>');
                Ty::Vect(n, t)
            }
        }
        T::P(b'{') => Ty::Struct(struct_fields(l, m), false),
        T::Local(n) => return m.types.get(&n).cloned().unwrap_or_else(|| Rc::new(Ty::Opaque)),
        t => {
            l.fail(&format!("type, tok {t:?}"));
        }
    };
    Rc::new(t)
}

fn struct_fields(l: &mut Lex, m: &Module) -> Vec<Rc<Ty>> {
    let mut f = vec![];
    if l.eat(b'}') {
        return f;
    }
    loop {
        f.push(ty_of(l, m));
        if !l.eat(b',') {
            break;
        }
    }
    l.expect(b'}');
    f
}

fn parse_int(a: &mut Arena, s: &str, w: u32) -> V {
    if w <= 128 {
        if let Ok(v) = s.parse::<i128>() {
            return mkc(a, v as u128, w);
        }
        if let Ok(v) = s.parse::<u128>() {
            return mkc(a, v, w);
        }
    }
    // big decimal
    let (neg, d) = match s.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, s),
    };
    let nb = ((w + 7) / 8) as usize;
    let mut b = vec![0u8; nb];
    for c in d.bytes() {
        let mut carry = (c - b'0') as u32;
        for x in b.iter_mut() {
            let t = *x as u32 * 10 + carry;
            *x = t as u8;
            carry = t >> 8;
        }
    }
    if neg {
        let mut carry = 1u32;
        for x in b.iter_mut() {
            let t = (!*x) as u32 + carry;
            *x = t as u8;
            carry = t >> 8;
        }
    }
    let mut e: Option<E> = None;
    let mut left = w;
    for x in &b {
        let k = left.min(8);
        let c = a.c(*x as u128, k);
        e = Some(match e {
            None => c,
            Some(p) => a.concat(c, p),
        });
        left -= k;
    }
    V::S(e.unwrap())
}

impl Module {
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(t) = self.aliases.get(n) {
            return self.sym_addr(&t.clone());
        }
        if let Some(&f) = self.fn_by_name.get(n) {
            return fn_addr(f);
        }
        if let Some(&g) = self.glob_by_name.get(n) {
            return obj_addr(g);
        }
        panic!("unknown symbol @{n}")
    }
}

fn cu(v: &V) -> u64 {
    match v {
        V::C(c) => *c,
        V::B(l, _) => *l,
        _ => panic!("constant expected"),
    }
}

fn const_val(l: &mut Lex, m: &Module, a: &mut Arena, ty: &Rc<Ty>) -> V {
    match l.adv() {
        T::Num(n) => match &**ty {
            Ty::Int(w) => parse_int(a, &n, *w),
            Ty::Float(w) => {
                let bits64 = if let Some(h) = n.strip_prefix("0x") {
                    u64::from_str_radix(h.trim_start_matches(|c: char| c == 'K' || c == 'L' || c == 'H' || c == 'R'), 16).unwrap_or(0)
                } else {
                    n.parse::<f64>().unwrap().to_bits()
                };
                if *w == 32 {
                    V::C((f64::from_bits(bits64) as f32).to_bits() as u64)
                } else {
                    mkc(a, bits64 as u128, *w)
                }
            }
            _ => l.fail("number of non-int type"),
        },
        T::Glob(n) => V::C(m.sym_addr(&n)),
        T::CStr(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
        T::P(b'[') => {
            let mut v = vec![];
            if !l.eat(b']') {
                loop {
                    let t = ty_of(l, m);
                    v.push(const_val(l, m, a, &t));
                    if !l.eat(b',') {
                        break;
                    }
                }
                l.expect(b']');
            }
            V::A(Rc::new(v))
        }
        T::P(b'{') => V::A(Rc::new(const_fields(l, m, a))),
        T::P(b'<') => {
            if l.eat(b'{') {
                let v = const_fields(l, m, a);
                l.expect(b'>');
                V::A(Rc::new(v))
            } else {
                let mut v = vec![];
                loop {
                    let t = ty_of(l, m);
                    v.push(const_val(l, m, a, &t));
                    if !l.eat(b',') {
                        break;
                    }
                }
                l.expect(b'>');
                V::A(Rc::new(v))
            }
        }
        T::Id(s) => match s.as_str() {
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => zero_of(a, ty),
            "true" => V::C(1),
            "false" => V::C(0),
            "splat" => {
                l.expect(b'(');
                let t = ty_of(l, m);
                let x = const_val(l, m, a, &t);
                l.expect(b')');
                match &**ty {
                    Ty::Vect(n, _) => V::A(Rc::new(vec![x; *n as usize])),
                    _ => l.fail("splat"),
                }
            }
            "no_cfi" | "dso_local_equivalent" => const_val(l, m, a, ty),
            "getelementptr" => {
                while let T::Id(s) = &l.tok {
                    if is_type_word(s) {
                        break;
                    }
                    l.adv();
                    if l.is(b'(') && !matches!(l.tok, T::Id(_)) {
                        // "inrange(..)" or the argument list itself
                        break;
                    }
                }
                // possible inrange(-16, 24) before the list
                if l.is(b'(') {
                    // look ahead: a type or a number?
                    let save = (l.pos, l.tok.clone(), l.nl);
                    l.adv();
                    if matches!(l.tok, T::Num(_)) {
                        l.pos = save.0;
                        l.tok = save.1;
                        l.nl = save.2;
                        l.skip_balanced();
                        l.expect(b'(');
                    }
                } else {
                    l.expect(b'(');
                }
                let t = ty_of(l, m);
                l.expect(b',');
                let pt = ty_of(l, m);
                let base = cu(&const_val(l, m, a, &pt));
                let mut idx = vec![];
                while l.eat(b',') {
                    l.eatid("inrange");
                    let it = ty_of(l, m);
                    let w = it.bits();
                    let x = cu(&const_val(l, m, a, &it));
                    idx.push(crate::expr::sext128(x as u128, w) as i64);
                }
                l.expect(b')');
                let mut off: i64 = 0;
                let mut cur = t;
                for (k, i) in idx.iter().enumerate() {
                    if k == 0 {
                        off = off.wrapping_add(i.wrapping_mul(cur.size() as i64));
                    } else {
                        match &*cur {
                            Ty::Struct(..) => off += cur.field_off(*i as usize) as i64,
                            Ty::Arr(_, t) | Ty::Vect(_, t) => off = off.wrapping_add(i.wrapping_mul(t.size() as i64)),
                            _ => l.fail("gep const"),
                        }
                        cur = cur.elem(*i as usize);
                    }
                }
                V::C(base.wrapping_add(off as u64))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                l.expect(b'(');
                let t = ty_of(l, m);
                let x = const_val(l, m, a, &t);
                l.eatid("to");
                let t2 = ty_of(l, m);
                l.expect(b')');
                match (&*t2, &x) {
                    (Ty::Int(w), V::C(c)) => mkc(a, *c as u128, *w),
                    _ => x,
                }
            }
            "add" | "sub" | "xor" => {
                while matches!(l.tok, T::Id(_)) {
                    l.adv();
                }
                l.expect(b'(');
                let t = ty_of(l, m);
                let x = cu(&const_val(l, m, a, &t));
                l.expect(b',');
                let t2 = ty_of(l, m);
                let y = cu(&const_val(l, m, a, &t2));
                l.expect(b')');
                let r = match s.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    _ => x ^ y,
                };
                mkc(a, r as u128, t.bits())
            }
            _ => l.fail(&format!("constant word {s}")),
        },
        t => l.fail(&format!("constant token {t:?}")),
    }
}

fn const_fields(l: &mut Lex, m: &Module, a: &mut Arena) -> Vec<V> {
    let mut v = vec![];
    if l.eat(b'}') {
        return v;
    }
    loop {
        let t = ty_of(l, m);
        v.push(const_val(l, m, a, &t));
        if !l.eat(b',') {
            break;
        }
    }
    l.expect(b'}');
    v
}

pub fn write_const(buf: &mut [u8], off: usize, ty: &Ty, v: &V) {
    match ty {
        Ty::Int(_) | Ty::Float(_) | Ty::Ptr => {
            let n = ((ty.bits() + 7) / 8) as usize;
            let (lo, hi) = match v {
                V::C(c) => (*c, 0),
                V::B(l, h) => (*l, *h),
                V::S(_) => panic!("wide constant in global"),
                _ => panic!("agg"),
            };
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&lo.to_le_bytes());
            b[8..].copy_from_slice(&hi.to_le_bytes());
            buf[off..off + n].copy_from_slice(&b[..n]);
        }
        Ty::Arr(_, t) | Ty::Vect(_, t) => {
            if let V::A(x) = v {
                let s = t.size() as usize;
                for (i, e) in x.iter().enumerate() {
                    write_const(buf, off + i * s, t, e);
                }
            }
        }
        Ty::Struct(f, _) => {
            if let V::A(x) = v {
                for (i, e) in x.iter().enumerate() {
                    write_const(buf, off + ty.field_off(i) as usize, &f[i], e);
                }
            }
        }
        _ => {}
    }
}

impl Module {
    pub fn load(path: &str, a: &mut Arena) -> Module {
        let text = Rc::new(std::fs::read(path).unwrap_or_else(|e| panic!("{path}: {e}")));
        let mut m = Module {
            text: text.clone(),
            funcs: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            glob_by_name: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        let s: &[u8] = &text;
        let mut pos = 0;
        let mut gdefs = vec![];
        while pos < s.len() {
            let eol = s[pos..].iter().position(|&c| c == b'\n').map(|p| pos + p).unwrap_or(s.len());
            let line = &s[pos..eol];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let def = line.starts_with(b"define ");
                // name
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut l = Lex::new(&line[at..]);
                let name = match l.adv() {
                    T::Glob(n) => n,
                    _ => panic!("fn name"),
                };
                let mut end = eol;
                if def {
                    // find "\n}\n"
                    let mut p = eol;
                    loop {
                        let q = s[p + 1..].iter().position(|&c| c == b'\n').map(|k| p + 1 + k).unwrap_or(s.len());
                        if s[p + 1] == b'}' {
                            end = q;
                            break;
                        }
                        p = q;
                    }
                }
                let id = m.funcs.len() as u32;
                m.fn_by_name.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, range: if def { Some((pos, end)) } else { None }, parsed: None });
                pos = end + 1;
                continue;
            }
            if line.starts_with(b"@") {
                gdefs.push((pos, eol));
            }
            if line.starts_with(b"%") {
                let mut l = Lex::new(line);
                if let T::Local(n) = l.adv() {
                    l.expect(b'=');
                    l.eatid("type");
                    let t = ty_of(&mut l, &m);
                    m.types.insert(n, t);
                }
            }
            pos = eol + 1;
        }
        // register global names first
        let mut todo = vec![];
        for &(st, en) in &gdefs {
            let mut l = Lex::new(&s[st..en]);
            let name = match l.adv() {
                T::Glob(n) => n,
                _ => panic!(),
            };
            l.expect(b'=');
            let mut external = false;
            let mut alias = false;
            let mut constant = false;
            loop {
                match l.tok.clone() {
                    T::Id(w) => {
                        l.adv();
                        match w.as_str() {
                            "external" | "extern_weak" => external = true,
                            "global" => break,
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "alias" | "ifunc" => {
                                alias = true;
                                break;
                            }
                            _ => {
                                if l.is(b'(') {
                                    l.skip_balanced();
                                }
                            }
                        }
                    }
                    _ => l.fail("global"),
                }
            }
            if alias {
                // type, ptr @target
                let mut target = None;
                loop {
                    match l.adv() {
                        T::Glob(n) => {
                            target = Some(n);
                            break;
                        }
                        T::Eof => break,
                        _ => {}
                    }
                }
                m.aliases.insert(name, target.expect("alias target"));
                continue;
            }
            let ty = ty_of(&mut l, &m);
            let id = m.globals.len() as u32;
            let size = ty.size();
            m.glob_by_name.insert(name.clone(), id);
            m.globals.push(Global { name, size, data: vec![], constant, external });
            if !external {
                todo.push((id, ty, st + l.tok_start(), en));
            }
        }
        for (id, ty, st, en) in todo {
            let mut l = Lex::new(&s[st..en]);
            let v = const_val(&mut l, &m, a, &ty);
            let mut d = vec![0u8; ty.size() as usize];
            write_const(&mut d, 0, &ty, &v);
            m.globals[id as usize].data = d;
        }
        for g in m.globals.iter_mut() {
            if g.external {
                g.data = vec![0u8; g.size as usize];
            }
        }
        m
    }

    pub fn func(&mut self, id: u32, a: &mut Arena) -> Option<&'static Func> {
        if let Some(f) = self.funcs[id as usize].parsed {
            return Some(f);
        }
        let (st, en) = self.funcs[id as usize].range?;
        let text = self.text.clone();
        let f: &'static Func = Box::leak(Box::new(parse_fn(&text[st..en], self, a, id)));
        self.funcs[id as usize].parsed = Some(f);
        Some(f)
    }
}

impl<'a> Lex<'a> {
    fn tok_start(&self) -> usize {
        // scan back from pos over the token text
        let mut p = self.pos;
        match &self.tok {
            T::P(_) => p - 1,
            T::Meta | T::Attr | T::Eof | T::Label(_) => self.fail("tok_start"),
            T::CStr(_) | T::Str(_) => {
                // closing quote at p-1; find opening quote (quotes are escaped as \22)
                p -= 2;
                while self.s[p] != b'"' {
                    p -= 1;
                }
                if matches!(self.tok, T::CStr(_)) { p - 1 } else { p }
            }
            T::Local(_) | T::Glob(_) => {
                if self.s[p - 1] == b'"' {
                    p -= 2;
                    while self.s[p] != b'"' {
                        p -= 1;
                    }
                    p - 1
                } else {
                    while idch(self.s[p - 1]) {
                        p -= 1;
                    }
                    p - 1
                }
            }
            T::Num(n) | T::Id(n) => p - n.len(),
        }
    }
}

fn parse_fn(s: &[u8], m: &Module, a: &mut Arena, id: u32) -> Func {
    let mut l = Lex::new(s);
    let mut cx = Cx { m, locals: HashMap::new(), nregs: 0, blocks: HashMap::new() };
    l.adv(); // define
    l.skip_attrs(false);
    let ret = ty_of(&mut l, m);
    let name = match l.adv() {
        T::Glob(n) => n,
        _ => l.fail("fn name"),
    };
    l.expect(b'(');
    let mut params = vec![];
    let mut unnamed = 0;
    while !l.is(b')') {
        if l.eat(b'.') {
            continue;
        }
        let _t = ty_of(&mut l, m);
        l.skip_attrs(false);
        match l.tok.clone() {
            T::Local(n) => {
                l.adv();
                params.push(cx.reg(&n));
                if n.parse::<u64>().is_ok() {
                    unnamed += 1;
                }
            }
            _ => {
                let r = cx.reg(&format!("{unnamed}"));
                unnamed += 1;
                params.push(r);
            }
        }
        if !l.eat(b',') {
            break;
        }
    }
    l.expect(b')');
    // skip to '{'
    while !l.is(b'{') {
        if l.is(b'(') {
            l.skip_balanced();
        } else if l.isid("personality") {
            l.adv();
            l.adv();
            l.adv();
        } else {
            l.adv();
        }
    }
    l.expect(b'{');
    let mut blocks: Vec<Block> = vec![];
    let mut cur: Option<u32> = None;
    // entry label may be implicit: number `unnamed`
    let set_block = |cx: &mut Cx, n: &str, blocks: &mut Vec<Block>| -> u32 {
        let b = cx.blk(n);
        while blocks.len() <= b as usize {
            blocks.push(Block { ins: vec![], phis: vec![] });
        }
        b
    };
    loop {
        match l.tok.clone() {
            T::Label(n) => {
                l.adv();
                cur = Some(set_block(&mut cx, &n, &mut blocks));
                continue;
            }
            T::P(b'}') | T::Eof => break,
            _ => {}
        }
        let b = match cur {
            Some(b) => b,
            None => {
                let b = set_block(&mut cx, &format!("{unnamed}"), &mut blocks);
                cur = Some(b);
                b
            }
        };
        parse_ins(&mut l, &mut cx, a, b, &mut blocks);
        // trailing attachments on the same line
        loop {
            if l.is(b',') {
                l.adv();
                match l.tok.clone() {
                    T::Meta => {
                        l.adv();
                        if !l.nl && (l.tok == T::Meta) {
                            l.adv();
                            if l.is(b'{') || l.is(b'(') {
                                l.skip_balanced();
                            }
                        }
                    }
                    T::Id(_) | T::Num(_) => {
                        // align N
                        l.adv();
                        if matches!(l.tok, T::Num(_)) && !l.nl {
                            l.adv();
                        }
                    }
                    _ => l.fail("attachment"),
                }
            } else {
                break;
            }
        }
    }
    let nb = cx.blocks.len();
    while blocks.len() < nb {
        blocks.push(Block { ins: vec![], phis: vec![] });
    }
    // make sure entry is block 0
    Func { name, id, params, nregs: cx.nregs, blocks, ret }
}

fn val(l: &mut Lex, cx: &mut Cx, a: &mut Arena, ty: &Rc<Ty>) -> Opd {
    if let T::Local(n) = l.tok.clone() {
        l.adv();
        return Opd::R(cx.reg(&n));
    }
    if l.tok == T::Meta {
        // metadata argument
        l.adv();
        if l.is(b'{') || l.is(b'(') {
            l.skip_balanced();
        } else if matches!(l.tok, T::Str(_)) {
            l.adv();
        }
        return Opd::K(V::C(0));
    }
    Opd::K(const_val(l, cx.m, a, ty))
}

fn tval(l: &mut Lex, cx: &mut Cx, a: &mut Arena) -> (Rc<Ty>, Opd) {
    let t = ty_of(l, cx.m);
    l.skip_attrs(true);
    let v = val(l, cx, a, &t);
    (t, v)
}

fn label(l: &mut Lex, cx: &mut Cx) -> u32 {
    l.eatid("label");
    match l.adv() {
        T::Local(n) => cx.blk(&n),
        _ => l.fail("label"),
    }
}

fn flags(l: &mut Lex) {
    while let T::Id(s) = &l.tok {
        if is_type_word(s) {
            return;
        }
        l.adv();
        if l.is(b'(') {
            l.skip_balanced();
        }
    }
}

fn ordering(l: &mut Lex) {
    while let T::Id(s) = &l.tok {
        match s.as_str() {
            "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered" => {
                l.adv();
            }
            "syncscope" => {
                l.adv();
                l.skip_balanced();
            }
            _ => break,
        }
    }
}

fn parse_ins(l: &mut Lex, cx: &mut Cx, a: &mut Arena, b: u32, blocks: &mut Vec<Block>) {
    let mut dst: Option<u32> = None;
    if let T::Local(n) = l.tok.clone() {
        l.adv();
        l.expect(b'=');
        dst = Some(cx.reg(&n));
    }
    let op = match l.adv() {
        T::Id(s) => s,
        t => l.fail(&format!("opcode {t:?}")),
    };
    let d = dst.unwrap_or(u32::MAX);
    macro_rules! push {
        ($i:expr) => {{
            let i = $i;
            blocks[b as usize].ins.push(i)
        }};
    }
    let binop = match op.as_str() {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "sdiv" => Some(BinOp::SDiv),
        "urem" => Some(BinOp::URem),
        "srem" => Some(BinOp::SRem),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        "fadd" => Some(BinOp::FAdd),
        "fsub" => Some(BinOp::FSub),
        "fmul" => Some(BinOp::FMul),
        "fdiv" => Some(BinOp::FDiv),
        "frem" => Some(BinOp::FRem),
        _ => None,
    };
    if let Some(bo) = binop {
        flags(l);
        let t = ty_of(l, cx.m);
        let x = val(l, cx, a, &t);
        l.expect(b',');
        let y = val(l, cx, a, &t);
        push!(match &*t {
            Ty::Vect(..) => Ins::VBin(bo, t, d, x, y),
            _ => Ins::Bin(bo, t.bits(), d, x, y),
        });
        return;
    }
    match op.as_str() {
        "icmp" => {
            l.eatid("samesign");
            let p = match l.adv() {
                T::Id(s) => match s.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => l.fail("icmp pred"),
                },
                _ => l.fail("icmp"),
            };
            let t = ty_of(l, cx.m);
            let x = val(l, cx, a, &t);
            l.expect(b',');
            let y = val(l, cx, a, &t);
            push!(match &*t {
                Ty::Vect(..) => Ins::VIcmp(p, t, d, x, y),
                _ => Ins::Icmp(p, t.bits(), d, x, y),
            });
        }
        "fcmp" => {
            let mut pred = String::new();
            while let T::Id(s) = l.tok.clone() {
                if is_type_word(&s) {
                    break;
                }
                pred = s;
                l.adv();
            }
            let t = ty_of(l, cx.m);
            let x = val(l, cx, a, &t);
            l.expect(b',');
            let y = val(l, cx, a, &t);
            push!(Ins::Fcmp(pred, t.bits(), d, x, y));
        }
        "fneg" => {
            flags(l);
            let (t, x) = tval(l, cx, a);
            push!(Ins::FNeg(t.bits(), d, x));
        }
        "select" => {
            flags(l);
            let (ct, c) = tval(l, cx, a);
            l.expect(b',');
            let (t, x) = tval(l, cx, a);
            l.expect(b',');
            let (_, y) = tval(l, cx, a);
            push!(Ins::Select(d, c, x, y, t, matches!(&*ct, Ty::Vect(..))));
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptosi" | "fptoui" | "sitofp" | "uitofp"
        | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
            flags(l);
            let (f, x) = tval(l, cx, a);
            l.eatid("to");
            let t = ty_of(l, cx.m);
            let c = match op.as_str() {
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "trunc" => CastOp::Trunc,
                "bitcast" => CastOp::Bit,
                "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => CastOp::PtrInt,
                "fptosi" => CastOp::FpToSi,
                "fptoui" => CastOp::FpToUi,
                "sitofp" => CastOp::SiToFp,
                "uitofp" => CastOp::UiToFp,
                "fpext" => CastOp::FpExt,
                _ => CastOp::FpTrunc,
            };
            push!(Ins::Cast(c, d, x, f, t));
        }
        "getelementptr" => {
            flags(l);
            let t = ty_of(l, cx.m);
            l.expect(b',');
            let (_, base) = tval(l, cx, a);
            let mut off: i64 = 0;
            let mut dy = vec![];
            let mut cur = t;
            let mut k = 0;
            while l.is(b',') {
                // may be metadata attachment
                let save = (l.pos, l.tok.clone(), l.nl);
                l.adv();
                if l.tok == T::Meta {
                    l.pos = save.0;
                    l.tok = save.1;
                    l.nl = save.2;
                    break;
                }
                let (it, i) = tval(l, cx, a);
                let w = it.bits();
                let scale;
                let mut next = cur.clone();
                let mut struct_off = None;
                if k == 0 {
                    scale = cur.size();
                } else {
                    match &*cur {
                        Ty::Struct(..) => {
                            let ix = match &i {
                                Opd::K(V::C(c)) => *c as usize,
                                _ => l.fail("struct gep"),
                            };
                            struct_off = Some(cur.field_off(ix));
                            next = cur.elem(ix);
                            scale = 0;
                        }
                        Ty::Arr(_, e) | Ty::Vect(_, e) => {
                            scale = e.size();
                            next = e.clone();
                        }
                        _ => l.fail("gep"),
                    }
                }
                if let Some(o) = struct_off {
                    off = off.wrapping_add(o as i64);
                } else {
                    match &i {
                        Opd::K(V::C(c)) => {
                            let s = crate::expr::sext128(*c as u128, w) as i64;
                            off = off.wrapping_add(s.wrapping_mul(scale as i64));
                        }
                        _ => {
                            if scale != 0 {
                                dy.push((scale, i, w))
                            }
                        }
                    }
                }
                cur = next;
                k += 1;
            }
            push!(Ins::Gep(d, base, off, dy));
        }
        "load" => {
            l.eatid("atomic");
            l.eatid("volatile");
            let t = ty_of(l, cx.m);
            l.expect(b',');
            let (_, p) = tval(l, cx, a);
            ordering(l);
            push!(Ins::Load(d, p, t));
        }
        "store" => {
            l.eatid("atomic");
            l.eatid("volatile");
            let (t, v) = tval(l, cx, a);
            l.expect(b',');
            let (_, p) = tval(l, cx, a);
            ordering(l);
            push!(Ins::Store(v, p, t));
        }
        "alloca" => {
            l.eatid("inalloca");
            let t = ty_of(l, cx.m);
            let mut n = Opd::K(V::C(1));
            while l.is(b',') {
                let save = (l.pos, l.tok.clone(), l.nl);
                l.adv();
                match &l.tok {
                    T::Id(s) if is_type_word(s) => {
                        n = tval(l, cx, a).1;
                    }
                    _ => {
                        l.pos = save.0;
                        l.tok = save.1;
                        l.nl = save.2;
                        break;
                    }
                }
            }
            push!(Ins::Alloca(d, t.size(), n));
        }
        "fence" => {
            ordering(l);
            push!(Ins::Nop);
        }
        "freeze" => {
            let (_, x) = tval(l, cx, a);
            push!(Ins::Copy(d, x));
        }
        "phi" => {
            flags(l);
            let t = ty_of(l, cx.m);
            let mut inc = vec![];
            loop {
                l.expect(b'[');
                let v = val(l, cx, a, &t);
                l.expect(b',');
                let p = match l.adv() {
                    T::Local(n) => cx.blk(&n),
                    _ => l.fail("phi"),
                };
                l.expect(b']');
                inc.push((p, v));
                if l.is(b',') {
                    let save = (l.pos, l.tok.clone(), l.nl);
                    l.adv();
                    if !l.is(b'[') {
                        l.pos = save.0;
                        l.tok = save.1;
                        l.nl = save.2;
                        break;
                    }
                } else {
                    break;
                }
            }
            blocks[b as usize].phis.push((d, inc));
        }
        "extractvalue" => {
            let (_, x) = tval(l, cx, a);
            let mut ix = vec![];
            while l.is(b',') {
                let save = (l.pos, l.tok.clone(), l.nl);
                l.adv();
                if let T::Num(n) = l.tok.clone() {
                    ix.push(n.parse().unwrap());
                    l.adv();
                } else {
                    l.pos = save.0;
                    l.tok = save.1;
                    l.nl = save.2;
                    break;
                }
            }
            push!(Ins::Extract(d, x, ix));
        }
        "insertvalue" => {
            let (t, x) = tval(l, cx, a);
            l.expect(b',');
            let (_, y) = tval(l, cx, a);
            let mut ix = vec![];
            while l.is(b',') {
                let save = (l.pos, l.tok.clone(), l.nl);
                l.adv();
                if let T::Num(n) = l.tok.clone() {
                    ix.push(n.parse().unwrap());
                    l.adv();
                } else {
                    l.pos = save.0;
                    l.tok = save.1;
                    l.nl = save.2;
                    break;
                }
            }
            push!(Ins::Insert(d, x, y, ix, t));
        }
        "extractelement" => {
            let (_, x) = tval(l, cx, a);
            l.expect(b',');
            let (_, i) = tval(l, cx, a);
            push!(Ins::ExtractEl(d, x, i));
        }
        "insertelement" => {
            let (_, x) = tval(l, cx, a);
            l.expect(b',');
            let (_, y) = tval(l, cx, a);
            l.expect(b',');
            let (_, i) = tval(l, cx, a);
            push!(Ins::InsertEl(d, x, y, i));
        }
        "shufflevector" => {
            let (t, x) = tval(l, cx, a);
            l.expect(b',');
            let (_, y) = tval(l, cx, a);
            l.expect(b',');
            let mt = ty_of(l, cx.m);
            let n = match &*mt {
                Ty::Vect(n, _) => *n as usize,
                _ => l.fail("mask"),
            };
            // undef lanes become 0
            let mk = const_val(l, cx.m, a, &mt);
            let ix = match mk {
                V::A(v) => v.iter().map(|x| cu(x) as i32).collect(),
                _ => vec![0; n],
            };
            let n1 = match &*t {
                Ty::Vect(n, _) => *n,
                _ => l.fail("shuffle"),
            };
            push!(Ins::Shuffle(d, x, y, ix, n1));
        }
        "atomicrmw" => {
            l.eatid("volatile");
            let o = match l.adv() {
                T::Id(s) => s,
                _ => l.fail("rmw"),
            };
            let (_, p) = tval(l, cx, a);
            l.expect(b',');
            let (t, v) = tval(l, cx, a);
            ordering(l);
            push!(Ins::Rmw(o, d, p, v, t.bits()));
        }
        "cmpxchg" => {
            l.eatid("weak");
            l.eatid("volatile");
            let (_, p) = tval(l, cx, a);
            l.expect(b',');
            let (t, x) = tval(l, cx, a);
            l.expect(b',');
            let (_, y) = tval(l, cx, a);
            ordering(l);
            push!(Ins::CmpXchg(d, p, x, y, t.bits()));
        }
        "landingpad" => {
            ty_of(l, cx.m);
            loop {
                if l.eatid("cleanup") {
                } else if l.eatid("catch") || l.eatid("filter") {
                    tval(l, cx, a);
                } else {
                    break;
                }
            }
            push!(Ins::Nop);
        }
        "resume" => {
            tval(l, cx, a);
            push!(Ins::Unreachable);
        }
        "va_arg" => l.fail("va_arg"),
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                l.eatid("call");
            }
            l.skip_attrs(false);
            let ret = ty_of(l, cx.m);
            if l.is(b'(') {
                l.skip_balanced(); // function type
            }
            let callee = match l.tok.clone() {
                T::Glob(n) => {
                    l.adv();
                    let mut nn = n;
                    while let Some(t) = cx.m.aliases.get(&nn) {
                        nn = t.clone();
                    }
                    match cx.m.fn_by_name.get(&nn) {
                        Some(&f) => Callee::Direct(f),
                        None => l.fail(&format!("call to unknown {nn}")),
                    }
                }
                T::Local(n) => {
                    l.adv();
                    Callee::Ind(Opd::R(cx.reg(&n)))
                }
                T::Id(s) if s == "asm" => {
                    l.adv();
                    while matches!(l.tok, T::Id(_)) {
                        l.adv();
                    }
                    let t = match l.adv() {
                        T::Str(s) => s,
                        _ => l.fail("asm"),
                    };
                    l.expect(b',');
                    l.adv();
                    Callee::Asm(t)
                }
                _ => {
                    let t = Rc::new(Ty::Ptr);
                    Callee::Ind(val(l, cx, a, &t))
                }
            };
            l.expect(b'(');
            let mut args = vec![];
            let mut tys = vec![];
            while !l.is(b')') {
                let (t, v) = tval(l, cx, a);
                args.push(v);
                tys.push(t);
                if !l.eat(b',') {
                    break;
                }
            }
            l.expect(b')');
            // trailing attributes and bundles on the same line
            loop {
                if l.nl && !(op == "invoke" && l.isid("to")) {
                    break;
                }
                if l.isid("to") {
                    break;
                }
                match &l.tok {
                    T::Attr => {
                        l.adv();
                    }
                    T::Id(_) => {
                        l.adv();
                        if !l.nl && l.is(b'(') {
                            l.skip_balanced();
                        }
                    }
                    T::P(b'[') => l.skip_balanced(),
                    T::Str(_) => {
                        l.adv();
                    }
                    _ => break,
                }
            }
            push!(Ins::Call { dst, callee, args, tys, ret });
            if op == "invoke" {
                if !l.eatid("to") {
                    l.fail("invoke to");
                }
                let n = label(l, cx);
                l.eatid("unwind");
                let _u = label(l, cx);
                push!(Ins::Br(n));
            }
        }
        "br" => {
            if l.isid("label") {
                let t = label(l, cx);
                push!(Ins::Br(t));
            } else {
                let (_, c) = tval(l, cx, a);
                l.expect(b',');
                let t = label(l, cx);
                l.expect(b',');
                let f = label(l, cx);
                push!(Ins::CondBr(c, t, f));
            }
        }
        "switch" => {
            let (t, v) = tval(l, cx, a);
            l.expect(b',');
            let def = label(l, cx);
            l.expect(b'[');
            let mut cases = vec![];
            while !l.is(b']') {
                let ct = ty_of(l, cx.m);
                let k = const_val(l, cx.m, a, &ct);
                l.expect(b',');
                let lb = label(l, cx);
                let kv = match k {
                    V::C(c) => c as u128,
                    V::B(lo, hi) => lo as u128 | (hi as u128) << 64,
                    _ => l.fail("case"),
                };
                cases.push((kv, lb));
            }
            l.expect(b']');
            push!(Ins::Switch(v, t.bits(), def, cases));
        }
        "ret" => {
            if l.isid("void") {
                l.adv();
                push!(Ins::Ret(None));
            } else {
                let (_, v) = tval(l, cx, a);
                push!(Ins::Ret(Some(v)));
            }
        }
        "unreachable" => push!(Ins::Unreachable),
        _ => l.fail(&format!("opcode {op}")),
    }
}
