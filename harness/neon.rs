//! The NEON operations the vectorised parser is built from, one lane after the other.
//!
//! There is no aarch64 machine here: lib/common.py compiles a copy of the crate whose aarch64
//! parts are enabled and whose `core::arch::aarch64` is this file.  The meaning of each operation
//! is that of the Arm C language extensions.
#![allow(non_camel_case_types, dead_code, clippy::all)]

macro_rules! vectors {
  ($($name:ident = $t:ty, $n:literal, $align:literal;)*) => {$(
    #[derive(Clone, Copy)]
    #[repr(C, align($align))]
    pub struct $name(pub [$t; $n]);
  )*}
}
vectors! {
  uint8x16_t = u8, 16, 16;
  uint16x8_t = u16, 8, 16;
  uint32x4_t = u32, 4, 16;
  uint64x2_t = u64, 2, 16;
  uint8x8_t = u8, 8, 8;
  uint16x4_t = u16, 4, 8;
  uint64x1_t = u64, 1, 8;
}

macro_rules! reinterpret {
  ($($name:ident: $a:ty => $b:ty;)*) => {$(
    pub unsafe fn $name(a: $a) -> $b {
      core::mem::transmute(a)
    }
  )*}
}
reinterpret! {
  vreinterpretq_u16_u8: uint8x16_t => uint16x8_t;
  vreinterpretq_u32_u8: uint8x16_t => uint32x4_t;
  vreinterpretq_u64_u8: uint8x16_t => uint64x2_t;
  vreinterpretq_u8_u16: uint16x8_t => uint8x16_t;
  vreinterpretq_u8_u64: uint64x2_t => uint8x16_t;
  vreinterpret_u64_u8: uint8x8_t => uint64x1_t;
  vreinterpret_u16_u8: uint8x8_t => uint16x4_t;
  vreinterpret_u8_u64: uint64x1_t => uint8x8_t;
}

macro_rules! lanewise {
  ($($name:ident |$x:ident, $y:ident| $e:expr;)*) => {$(
    pub unsafe fn $name(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
      uint8x16_t(core::array::from_fn(|i| {
        let ($x, $y) = (a.0[i], b.0[i]);
        $e
      }))
    }
  )*}
}
lanewise! {
  vceqq_u8 |x, y| if x == y { 0xff } else { 0 };
  vandq_u8 |x, y| x & y;
  vorrq_u8 |x, y| x | y;
  veorq_u8 |x, y| x ^ y;
  vbicq_u8 |x, y| x & !y;
  vmaxq_u8 |x, y| x.max(y);
  vminq_u8 |x, y| x.min(y);
}

pub unsafe fn vmvnq_u8(a: uint8x16_t) -> uint8x16_t {
  uint8x16_t(a.0.map(|x| !x))
}
pub unsafe fn vdupq_n_u8(v: u8) -> uint8x16_t {
  uint8x16_t([v; 16])
}
pub unsafe fn vld1q_u8(p: *const u8) -> uint8x16_t {
  uint8x16_t((p as *const [u8; 16]).read_unaligned())
}
pub unsafe fn vst1q_u8(p: *mut u8, v: uint8x16_t) {
  (p as *mut [u8; 16]).write_unaligned(v.0)
}
pub unsafe fn vshrn_n_u16(a: uint16x8_t, n: i32) -> uint8x8_t {
  assert!((1..=8).contains(&n));
  uint8x8_t(a.0.map(|x| (x >> n) as u8))
}
pub unsafe fn vmovn_u16(a: uint16x8_t) -> uint8x8_t {
  uint8x8_t(a.0.map(|x| x as u8))
}
pub unsafe fn vget_lane_u64(a: uint64x1_t, lane: i32) -> u64 {
  a.0[lane as usize]
}
pub unsafe fn vgetq_lane_u64(a: uint64x2_t, lane: i32) -> u64 {
  a.0[lane as usize]
}
pub unsafe fn vmaxvq_u8(a: uint8x16_t) -> u8 {
  a.0.into_iter().max().unwrap()
}
