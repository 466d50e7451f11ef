//! Interface between the harnesses and the symbolic executor. With the `native` feature the same
//! harness code runs as ordinary Rust on recorded input values.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sx_any(bits: u32) -> u64;
        pub fn sx_assume(c: u32);
        pub fn sx_check(c: u32, label: *const u8, len: u64, known: *const u8, klen: u64, class: u32);
        pub fn sx_cover(label: *const u8, len: u64);
        pub fn sx_choose(n: u32) -> u32;
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_known_panic(id: *const u8, len: u64, class: u32);
        pub fn sx_allow_panic(on: u32);
        pub fn sx_is_symbolic() -> u32;
        pub fn sx_tier() -> u64;
        pub fn sx_done();
        pub fn sx_note(label: *const u8, len: u64, v: u64);
    }
}

#[cfg(feature = "native")]
pub mod imp {
    #![allow(clippy::missing_safety_doc)]
    use std::cell::RefCell;
    use std::collections::{BTreeSet, VecDeque};

    #[derive(Default)]
    pub struct Session {
        pub inputs: VecDeque<u128>,
        pub fails: Vec<(String, String)>,
        pub covers: BTreeSet<String>,
        pub known_panic: Option<(String, bool)>,
        pub allow_panic: bool,
        pub starved: bool,
        pub tier: u64,
        pub notes: Vec<String>,
    }

    pub struct Dropped;

    thread_local!(pub static S: RefCell<Session> = RefCell::default());

    fn next() -> u128 {
        S.with(|s| {
            let mut s = s.borrow_mut();
            match s.inputs.pop_front() {
                Some(v) => v,
                None => {
                    s.starved = true;
                    0
                }
            }
        })
    }
    fn st(p: *const u8, n: u64) -> String {
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n as usize) }).into_owned()
    }
    pub unsafe fn sx_any(bits: u32) -> u64 {
        let v = next() as u64;
        if bits >= 64 { v } else { v & ((1 << bits) - 1) }
    }
    pub unsafe fn sx_assume(c: u32) {
        if c == 0 {
            std::panic::resume_unwind(Box::new(Dropped));
        }
    }
    pub unsafe fn sx_check(c: u32, label: *const u8, len: u64, known: *const u8, klen: u64, class: u32) {
        if c == 0 {
            let k = if class != 0 { st(known, klen) } else { String::new() };
            S.with(|s| s.borrow_mut().fails.push((st(label, len), k)));
            std::panic::resume_unwind(Box::new(Dropped));
        }
    }
    pub unsafe fn sx_cover(label: *const u8, len: u64) { S.with(|s| s.borrow_mut().covers.insert(st(label, len))); }
    pub unsafe fn sx_choose(n: u32) -> u32 {
        let v = next() as u32;
        sx_assume((v < n) as u32);
        v
    }
    pub unsafe fn sx_concretize(v: u64) -> u64 { v }
    pub unsafe fn sx_known_panic(id: *const u8, len: u64, class: u32) {
        let id = st(id, len);
        S.with(|s| s.borrow_mut().known_panic = if id.is_empty() { None } else { Some((id, class != 0)) });
    }
    pub unsafe fn sx_allow_panic(on: u32) { S.with(|s| s.borrow_mut().allow_panic = on != 0); }
    pub unsafe fn sx_is_symbolic() -> u32 { 0 }
    pub unsafe fn sx_tier() -> u64 { S.with(|s| s.borrow().tier) }
    pub unsafe fn sx_done() {}
    pub unsafe fn sx_note(label: *const u8, len: u64, v: u64) {
        S.with(|s| s.borrow_mut().notes.push(format!("{}={v}", st(label, len))));
    }
}

pub fn u8() -> u8 { unsafe { imp::sx_any(8) as u8 } }
pub fn u16() -> u16 { unsafe { imp::sx_any(16) as u16 } }
pub fn u32() -> u32 { unsafe { imp::sx_any(32) as u32 } }
pub fn u64() -> u64 { unsafe { imp::sx_any(64) } }
pub fn bool() -> bool { unsafe { imp::sx_any(1) != 0 } }
/// Symbolic value below `n`, kept symbolic.
pub fn below(n: u64) -> u64 {
    let v = u64();
    assume(v < n);
    v
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    for x in b.iter_mut() {
        *x = u8();
    }
    b
}
/// A choice resolved by forking; every value below `n` is explored.
pub fn choose(n: usize) -> usize { unsafe { imp::sx_choose(n as u32) as usize } }
/// Case split on a symbolic value.
pub fn split(c: bool) -> bool { unsafe { imp::sx_concretize(c as u64) != 0 } }
pub fn concretize(v: u64) -> u64 { unsafe { imp::sx_concretize(v) } }
pub fn assume(c: bool) { unsafe { imp::sx_assume(c as u32) } }
pub fn check(c: bool, label: &'static str) { check_known(c, label, "", false) }
pub fn check_known(c: bool, label: &'static str, id: &'static str, class: bool) {
    unsafe { imp::sx_check(c as u32, label.as_ptr(), label.len() as u64, id.as_ptr(), id.len() as u64, class as u32) }
}
pub fn cover(label: &'static str) { unsafe { imp::sx_cover(label.as_ptr(), label.len() as u64) } }
pub fn known_panic(id: &'static str, class: bool) {
    unsafe { imp::sx_known_panic(id.as_ptr(), id.len() as u64, class as u32) }
}
pub fn allow_panic(on: bool) { unsafe { imp::sx_allow_panic(on as u32) } }
/// Whether the larger bounds of the thorough tier are in force.
pub fn thorough() -> bool { unsafe { imp::sx_tier() != 0 } }
pub fn symbolic() -> bool { unsafe { imp::sx_is_symbolic() != 0 } }
/// Ends a path; call it last, to leave out dropping of everything built.
pub fn done() { unsafe { imp::sx_done() } }
pub fn note(label: &'static str, v: u64) { unsafe { imp::sx_note(label.as_ptr(), label.len() as u64, v) } }

#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub fn $name() $body )*
        pub const ENTRIES: &[(&str, fn())] = &[ $((stringify!($name), $name as fn())),* ];
    };
}
