//! Raw system calls, and the libc symbols the simulator takes over.
use crate::sched;

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b,
    in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _,
    lateout("r11") _, options(nostack));
  r
}

extern "C" {
  fn __errno_location() -> *mut i32;
}

pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_SCHED_SETAFFINITY: i64 = 203;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_GETRANDOM: i64 = 318;

pub fn exit_now(code: i32) -> ! {
  unsafe {
    raw6(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
  }
  unreachable!()
}

pub fn futex_wait_raw(addr: &std::sync::atomic::AtomicU32, val: u32) {
  unsafe {
    raw6(SYS_FUTEX, addr as *const _ as i64, 128, val as i64, 0, 0, 0);
  }
}

pub fn futex_wake_raw(addr: &std::sync::atomic::AtomicU32) {
  unsafe {
    raw6(SYS_FUTEX, addr as *const _ as i64, 129, 1, 0, 0, 0);
  }
}

pub fn pin_to_cpu(cpu: usize) {
  let mut mask = [0u64; 16];
  mask[(cpu / 64) % 16] |= 1 << (cpu % 64);
  unsafe {
    raw6(SYS_SCHED_SETAFFINITY, 0, 128, mask.as_ptr() as i64, 0, 0, 0);
  }
}

pub unsafe fn mmap_anon_fixed(addr: usize, len: usize) -> *mut u8 {
  // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
  let r = raw6(9, addr as i64, len as i64, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
  if r < 0 || r as usize != addr {
    eprintln!("simulator: cannot map the arena: {}", r);
    exit_now(21);
  }
  r as *mut u8
}

pub unsafe fn mmap_shared_fd(fd: i32, len: usize) -> *mut u8 {
  let r = raw6(9, 0, len as i64, 3, 0x1, fd as i64, 0);
  if (-4096..0).contains(&r) {
    eprintln!("simulator: cannot map the trace file: {}", r);
    exit_now(21);
  }
  r as *mut u8
}

fn ret(r: i64) -> i64 {
  if (-4095..0).contains(&r) {
    unsafe { *__errno_location() = (-r) as i32 };
    -1
  } else {
    r
  }
}

/// std reaches the futex system call (all of its blocking) through this symbol.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  if n == SYS_FUTEX && sched::is_task() {
    let cmd = b & 0x7f;
    match cmd {
      0 | 9 => return ret(sched::futex_wait(a as usize, c as u32, d != 0)),
      1 | 10 => return ret(sched::futex_wake(a as usize, c as u32)),
      _ => {}
    }
  }
  if n == SYS_GETRANDOM && sched::is_task() {
    sched::fill_random(a as *mut u8, b as usize);
    return b;
  }
  if n == SYS_SCHED_YIELD && sched::is_task() {
    sched::yield_now();
    return 0;
  }
  ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
  if sched::is_task() {
    sched::yield_now();
    return 0;
  }
  ret(raw6(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, rem: *mut i64) -> i32 {
  if sched::is_task() {
    sched::sleep(((*req) as u64) * 1_000_000_000 + (*req.add(1)) as u64);
    return 0;
  }
  ret(raw6(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const i64, rem: *mut i64) -> i32 {
  if sched::is_task() {
    let ns = ((*req) as u64) * 1_000_000_000 + (*req.add(1)) as u64;
    sched::sleep(if flags & 1 != 0 { ns.saturating_sub(sched::sim_now()) } else { ns });
    return 0;
  }
  (-raw6(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, req as i64, rem as i64, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut i64) -> i32 {
  if sched::is_task() {
    let now = sched::sim_now();
    *ts = (now / 1_000_000_000) as i64;
    *ts.add(1) = (now % 1_000_000_000) as i64;
    return 0;
  }
  ret(raw6(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
  if sched::is_task() {
    sched::fill_random(buf, len);
    return len as isize;
  }
  ret(raw6(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}
