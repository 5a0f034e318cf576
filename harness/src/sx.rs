//! The symbolic interface: natively these are provided by src/bin/replay.rs, symbolically by the engine.
extern "C-unwind" {
    fn sx_byte() -> u8;
    fn sx_assume(b: bool);
    fn sx_assert(b: bool, p: *const u8, l: usize);
    fn sx_fail(p: *const u8, l: usize) -> !;
    fn sx_obs(v: u64);
    fn sx_cover(p: *const u8, l: usize);
    fn sx_expect(p: *const u8, l: usize);
    fn sx_conc(v: u64) -> u64;
}
#[inline(always)]
pub fn byte() -> u8 {
    unsafe { sx_byte() }
}
#[inline(always)]
pub fn boolean() -> bool {
    let b = byte();
    assume(b <= 1);
    b == 1
}
#[inline(always)]
pub fn u16() -> u16 {
    (byte() as u16) << 8 | byte() as u16
}
#[inline(always)]
pub fn u32() -> u32 {
    (u16() as u32) << 16 | u16() as u32
}
#[inline(always)]
pub fn u64() -> u64 {
    (u32() as u64) << 32 | u32() as u64
}
#[inline(always)]
pub fn u128() -> u128 {
    (u64() as u128) << 64 | u64() as u128
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { sx_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, m: &'static str) {
    unsafe { sx_assert(b, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn fail(m: &'static str) -> ! {
    unsafe { sx_fail(m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn obs(v: u64) {
    unsafe { sx_obs(v) }
}
#[inline(always)]
pub fn cover(m: &'static str) {
    unsafe { sx_cover(m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn expect(ms: &[&'static str]) {
    for m in ms {
        unsafe { sx_expect(m.as_ptr(), m.len()) }
    }
}
#[inline(always)]
pub fn conc(v: usize) -> usize {
    unsafe { sx_conc(v as u64) as usize }
}
/// N arbitrary bytes
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = byte();
        i += 1;
    }
    b
}
/// an arbitrary length lo..=hi
#[inline(always)]
pub fn len(lo: usize, hi: usize) -> usize {
    let k = byte() as usize;
    assume(k >= lo && k <= hi);
    k
}
/// an arbitrary length lo..=hi, one path per value
#[inline(always)]
pub fn clen(lo: usize, hi: usize) -> usize {
    conc(len(lo, hi))
}
/// observe a byte slice (length and a rolling value): used to validate the engine against native runs
#[inline(always)]
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
}

#[macro_export]
macro_rules! harness {
    ($( $(#[$m:meta])* fn $n:ident() $b:block )*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C-unwind" fn $n() $b )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($n), $n as extern "C-unwind" fn()) ),* ];
    };
}
