//! Text placed directly against an inaccessible page, so that reading past it faults.

use std::ffi::c_void;

extern "C" {
  fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
  fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;
const MAX: usize = 32 * PAGE;

pub struct Guarded {
  base: *mut u8,
}

impl Guarded {
  fn new() -> Self {
    unsafe {
      let base = mmap(std::ptr::null_mut(), MAX + 2 * PAGE, 3, 0x22, -1, 0) as *mut u8;
      assert!(base as isize != -1);
      assert_eq!(mprotect(base as *mut c_void, PAGE, 0), 0);
      assert_eq!(mprotect(base.add(PAGE + MAX) as *mut c_void, PAGE, 0), 0);
      Self { base: base.add(PAGE) }
    }
  }
  fn put(&self, s: &str, at: usize) -> &str {
    unsafe {
      let p = self.base.add(at);
      std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
      std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, s.len()))
    }
  }
}

thread_local! {
  static AREA: Guarded = Guarded::new();
}

/// `f` sees a copy of `s` whose last byte is the last accessible one.
pub fn at_end<R>(s: &str, f: impl FnOnce(&str) -> R) -> Option<R> {
  (s.len() <= MAX).then(|| AREA.with(|a| f(a.put(s, MAX - s.len()))))
}

/// `f` sees a copy of `s` that starts at the first accessible byte.
pub fn at_start<R>(s: &str, f: impl FnOnce(&str) -> R) -> Option<R> {
  (s.len() <= MAX).then(|| AREA.with(|a| f(a.put(s, 0))))
}
