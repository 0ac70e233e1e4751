//! The global allocator. Allocations made by armed code (the library under
//! test, running inside a simulated run) come from an arena at a fixed address
//! with a placement policy chosen by the run; everything else goes to malloc.
use crate::{rng::Rng, sched, sys};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

pub const BASE: usize = 0x3a00_0000_0000;
const SMALL: usize = 512 << 20;
const LARGE: usize = 512 << 20;
const WINDOW: usize = 2 << 20;
const GRANULES: usize = WINDOW / 16;
const CLASSES: usize = 18; // 16 B .. 2 MB

/// Placement policies.
pub const UP: u8 = 0;
pub const DOWN: u8 = 1;
pub const RANDOM: u8 = 2;
pub const REUSE_UP: u8 = 3;
pub const REUSE_DOWN: u8 = 4;
/// Random, and gigabytes apart, often differing only in the upper half.
pub const FAR: u8 = 5;
pub const MODES: u8 = 6;
pub const MODE_NAMES: [&str; 6] = ["up", "down", "random", "reuse-up", "reuse-down", "far"];
const FAR_BASE: usize = 0x3b00_0000_0000;
const FAR_REGIONS: usize = 8;
const FAR_SIZE: usize = 256 << 10;
const FAR_GRANULES: usize = FAR_SIZE / 16;
const FAR_END: usize = FAR_BASE + (FAR_REGIONS << 33);

fn far_region(r: usize) -> usize {
  FAR_BASE + (r << 32) + ((r % 2) << 31)
}

pub fn ours(addr: usize) -> bool {
  (BASE..BASE + SMALL + LARGE).contains(&addr) || (FAR_BASE..FAR_END).contains(&addr)
}

struct Arena {
  mapped: bool,
  mode: u8,
  rng: Rng,
  up: usize,
  down: usize,
  large: usize,
  bits: [u64; GRANULES / 64],
  far: [u64; FAR_REGIONS * FAR_GRANULES / 64],
  free: [usize; CLASSES], // intrusive LIFO lists
  live: i64,
  allocs: u64,
}

static mut A: Arena = Arena {
  mapped: false,
  mode: 0,
  rng: Rng::zero(),
  up: 0,
  down: 0,
  large: 0,
  bits: [0; GRANULES / 64],
  far: [0; FAR_REGIONS * FAR_GRANULES / 64],
  free: [0; CLASSES],
  live: 0,
  allocs: 0,
};
static LOCK: AtomicBool = AtomicBool::new(false);

fn locked<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
  while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
    unsafe {
      sys::raw6(sys::SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0);
    }
  }
  let r = f(unsafe { &mut A });
  LOCK.store(false, Ordering::Release);
  r
}

/// Forgets everything in the arena and starts a run with the given placement.
pub fn reset(mode: u8, seed: u64) {
  locked(|a| {
    if !a.mapped {
      unsafe {
        sys::mmap_anon_fixed(BASE, SMALL + LARGE);
        for r in 0..FAR_REGIONS {
          sys::mmap_anon_fixed(far_region(r), FAR_SIZE);
        }
      }
      a.mapped = true;
    }
    a.up = BASE + WINDOW;
    a.down = BASE + SMALL;
    a.large = BASE + SMALL;
    a.bits = [0; GRANULES / 64];
    a.far = [0; FAR_REGIONS * FAR_GRANULES / 64];
    a.free = [0; CLASSES];
    a.live = 0;
    a.allocs = 0;
    a.mode = mode % MODES;
    a.rng = Rng::new(seed);
  })
}

/// Changes the placement of later allocations.
pub fn set_mode(mode: u8, seed: u64) {
  locked(|a| {
    a.mode = mode % MODES;
    a.rng = Rng::new(seed);
  })
}

pub fn stats() -> (i64, u64) {
  locked(|a| (a.live, a.allocs))
}

fn class_of(size: usize, align: usize) -> usize {
  let s = size.max(align).max(16).next_power_of_two();
  (s.trailing_zeros() - 4) as usize
}

unsafe fn take(a: &mut Arena, size: usize, align: usize) -> *mut u8 {
  a.live += 1;
  a.allocs += 1;
  let c = class_of(size, align);
  if c >= CLASSES {
    let p = (a.large + 4095) & !4095;
    a.large = p + ((size + 4095) & !4095);
    return if a.large > BASE + SMALL + LARGE { std::ptr::null_mut() } else { p as *mut u8 };
  }
  let s = 16usize << c;
  if (a.mode == REUSE_UP || a.mode == REUSE_DOWN) && a.free[c] != 0 {
    let p = a.free[c];
    a.free[c] = *(p as *const usize);
    return p as *mut u8;
  }
  if a.mode == RANDOM && s <= 4096 {
    let g = s / 16;
    let slots = (GRANULES / g) as u64;
    for _ in 0..16 {
      let start = a.rng.below(slots) as usize * g;
      if is_free(&a.bits, start, g) {
        set_bits(&mut a.bits, start, g, true);
        return (BASE + start * 16) as *mut u8;
      }
    }
  }
  if a.mode == FAR && s <= 4096 {
    let g = s / 16;
    for k in 0..24 {
      // few places at first, so that regions resemble each other
      let slots = (FAR_GRANULES / g).min(4 << (k / 2)) as u64;
      let at = a.rng.below(slots) as usize * g;
      let r = a.rng.below(FAR_REGIONS as u64) as usize;
      let start = r * FAR_GRANULES + at;
      if is_free(&a.far, start, g) {
        set_bits(&mut a.far, start, g, true);
        return (far_region(r) + at * 16) as *mut u8;
      }
    }
  }
  let p = if a.mode == DOWN || a.mode == REUSE_DOWN {
    a.down = (a.down - s) & !(s - 1);
    a.down
  } else {
    let p = (a.up + s - 1) & !(s - 1);
    a.up = p + s;
    p
  };
  if a.up >= a.down {
    return std::ptr::null_mut();
  }
  p as *mut u8
}

fn is_free(bits: &[u64], start: usize, g: usize) -> bool {
  if g >= 64 {
    bits[start / 64..(start + g) / 64].iter().all(|w| *w == 0)
  } else {
    bits[start / 64] & (((1u64 << g) - 1) << (start % 64)) == 0
  }
}

fn set_bits(bits: &mut [u64], start: usize, g: usize, on: bool) {
  if g >= 64 {
    for w in &mut bits[start / 64..(start + g) / 64] {
      *w = if on { !0 } else { 0 };
    }
  } else {
    let m = ((1u64 << g) - 1) << (start % 64);
    if on {
      bits[start / 64] |= m
    } else {
      bits[start / 64] &= !m
    }
  }
}

unsafe fn give(a: &mut Arena, p: *mut u8, size: usize, align: usize) {
  a.live -= 1;
  let c = class_of(size, align);
  if c >= CLASSES {
    return;
  }
  let addr = p as usize;
  if addr >= FAR_BASE {
    let r = (addr - FAR_BASE) >> 32;
    set_bits(&mut a.far, r * FAR_GRANULES + (addr - far_region(r)) / 16, (16 << c) / 16, false);
  } else if addr < BASE + WINDOW {
    set_bits(&mut a.bits, (addr - BASE) / 16, (16 << c) / 16, false);
  } else {
    *(addr as *mut usize) = a.free[c];
    a.free[c] = addr;
  }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if sched::armed() {
      sched::step(sched::SITE_ALLOC);
      let p = locked(|a| take(a, l.size(), l.align()));
      if p.is_null() {
        sched::out_of_memory();
      }
      p
    } else {
      System.alloc(l)
    }
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let addr = p as usize;
    if ours(addr) {
      if sched::armed() {
        sched::step(sched::SITE_FREE);
      }
      locked(|a| give(a, p, l.size(), l.align()))
    } else {
      System.dealloc(p, l)
    }
  }
}
