//! Interface to the symbolic engine. Natively (replay) the same symbols come
//! from rt.c and read the engine's concrete model instead.
extern "C" {
    fn symx_bytes(p: *mut u8, n: usize, tag: u32);
    fn symx_pick(lo: u64, hi: u64) -> u64;
    fn symx_assume(c: bool);
    fn symx_check(c: bool, id: u32);
    fn symx_reach(id: u32);
    fn symx_observe(id: u32, v: u64);
    fn symx_heap() -> u64;
}
pub const fn id(s: &str) -> u32 {
    let b = s.as_bytes();
    let mut h: u32 = 0x811c_9dc5;
    let mut i = 0;
    while i < b.len() {
        h = (h ^ b[i] as u32).wrapping_mul(0x0100_0193);
        i += 1;
    }
    h
}
/// assertion: decided by the solver for every value of the symbolic inputs
#[macro_export]
macro_rules! ck {
    ($c:expr, $s:literal) => {{
        const I: u32 = $crate::sym::id($s);
        $crate::sym::check($c, I)
    }};
}
/// this point must be unreachable
#[macro_export]
macro_rules! fail {
    ($s:literal) => {{
        const I: u32 = $crate::sym::id($s);
        $crate::sym::check(false, I)
    }};
}
/// reachability witness: the driver requires that some path got here
#[macro_export]
macro_rules! reach {
    ($s:literal) => {{
        const I: u32 = $crate::sym::id($s);
        $crate::sym::reach(I)
    }};
}
#[inline(always)]
pub fn check(c: bool, i: u32) {
    unsafe { symx_check(c, i) }
}
#[inline(always)]
pub fn reach(i: u32) {
    unsafe { symx_reach(i) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { symx_assume(c) }
}
/// value compared between the engine's prediction and the native run
#[inline(always)]
pub fn obs(v: u64) {
    unsafe { symx_observe(0, v) }
}
#[inline(always)]
pub fn heap() -> u64 {
    unsafe { symx_heap() }
}
/// exhaustive case split, inclusive bounds
#[inline(always)]
pub fn pick(lo: usize, hi: usize) -> usize {
    unsafe { symx_pick(lo as u64, hi as u64) as usize }
}
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    // messages are asked for, and go nowhere
    #[cfg(any(feature = "cfg_all", feature = "cfg_std"))]
    log::set_max_level(log::LevelFilter::Trace);
    let mut b = [0u8; N];
    unsafe { symx_bytes(b.as_mut_ptr(), N, 0) };
    b
}
macro_rules! ints { ($($f:ident $t:ty),*) => {$(
    #[inline(always)] pub fn $f() -> $t { <$t>::from_le_bytes(bytes::<{ core::mem::size_of::<$t>() }>()) }
)*} }
ints!(u8_ u8, u16_ u16, u32_ u32, u64_ u64, u128_ u128, i8_ i8, i16_ i16, i32_ i32, i64_ i64, i128_ i128, usize_ usize);
#[inline(always)]
pub fn bool_() -> bool {
    let b = u8_();
    assume(b < 2);
    b == 1
}
