//! The caller-supplied types: every comparison, clone and debug format of
//! theirs is a scheduling point and a place where a fault may be injected.
use bongo::utils::ToDoc;
use simcore::sched::{self, CB_CLONE, CB_CMP, CB_DEBUG, CB_LOG};
use std::cell::UnsafeCell;

#[derive(Hash)]
pub struct Sym(pub u32);

impl PartialEq for Sym {
  fn eq(&self, o: &Self) -> bool {
    sched::callback(CB_CMP);
    self.0 == o.0
  }
}
impl Eq for Sym {}
impl PartialOrd for Sym {
  fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(o))
  }
}
impl Ord for Sym {
  fn cmp(&self, o: &Self) -> std::cmp::Ordering {
    sched::callback(CB_CMP);
    self.0.cmp(&o.0)
  }
}
impl Clone for Sym {
  fn clone(&self) -> Self {
    sched::callback(CB_CLONE);
    note_clone(self.0);
    Sym(self.0)
  }
}
impl std::fmt::Debug for Sym {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    sched::callback(CB_DEBUG);
    f.write_str(&text(self.0))
  }
}
impl ToDoc for Sym {
  fn to_doc<'a, DA: pretty::DocAllocator<'a>>(&self, da: &'a DA) -> pretty::DocBuilder<'a, DA>
  where
    DA::Doc: Clone,
  {
    sched::callback(CB_DEBUG);
    da.text(format!("s{}", self.0))
  }
}

/// How a symbol prints; some need escaping inside quotes.
pub fn text(id: u32) -> String {
  match id % 11 {
    7 => format!("s\"{}", id),
    9 => format!("s\\{}\n", id),
    4 if id % 2 == 0 => format!("{}\t\\", id),
    4 => format!("\"{}\"", id),
    5 if id % 2 == 0 => format!("s{{{}|<>}}\\N", id),
    5 => format!("\u{e9}{}\u{1f600}\\\"", id),
    _ => format!("s{}", id),
  }
}

/// State shared by simulated tasks and touched only outside library code, where
/// exactly one task runs.
pub struct Baton<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Baton<T> {}
unsafe impl<T> Send for Baton<T> {}
impl<T> Baton<T> {
  pub const fn new(t: T) -> Self {
    Baton(UnsafeCell::new(t))
  }
  #[allow(clippy::mut_from_ref)]
  pub fn get(&self) -> &mut T {
    debug_assert!(!sched::armed());
    unsafe { &mut *self.0.get() }
  }
}

// Which symbols were cloned, for observing values the library does not show.
static CLONES: Baton<Vec<u32>> = Baton::new(Vec::new());
static CLONES_ON: Baton<bool> = Baton::new(false);

fn note_clone(id: u32) {
  sched::unarmed(|| {
    if *CLONES_ON.get() {
      CLONES.get().push(id);
    }
  })
}

/// Runs f outside the simulator and returns which symbols it cloned, in order.
pub fn clones_in(f: impl FnOnce()) -> Vec<u32> {
  sched::unarmed(|| {
    CLONES.get().clear();
    *CLONES_ON.get() = true;
    f();
    *CLONES_ON.get() = false;
    std::mem::take(CLONES.get())
  })
}

// ---- the logger the library's trace! calls end in ----

struct SimLog;
impl log::Log for SimLog {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, r: &log::Record) {
    sched::callback(CB_LOG);
    let mut s = String::new();
    let _ = std::fmt::write(&mut s, *r.args());
    std::hint::black_box(&s);
  }
  fn flush(&self) {}
}
static LOGGER: SimLog = SimLog;

pub fn install_logger() {
  let _ = log::set_logger(&LOGGER);
}
pub fn set_logging(on: bool) {
  log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}
