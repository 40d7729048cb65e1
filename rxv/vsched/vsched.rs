//! Controlled scheduler: stands in for std::sync / std::thread / std::time in a mechanically
//! rewritten copy of the crate.  One model thread runs at a time; every lock operation, condition
//! variable operation, sleep and spawn is a scheduling point; time is virtual.
#![allow(dead_code)]
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool as RealBool, Ordering as RealOrd};
use std::sync::{Arc, Mutex as RealMutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
  Run,
  Lock(usize),
  Cond(usize),
  Join(usize),
  Sleep(u64),
  Until(u64, usize),
  Done,
}

struct Th {
  st: St,
  prio: u64,
  os: Option<std::thread::Thread>,
  go: Arc<RealBool>,
  name: String,
  timed_out: bool,
}

struct World {
  th: Vec<Th>,
  cur: usize,
  rng: u64,
  now: u64,
  steps: u64,
  limit: u64,
  mode: u8,
  changes: Vec<u64>,
  low: u64,
  over: bool,
}

static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static W: RealMutex<Option<World>> = RealMutex::new(None);
thread_local!(static ME: Cell<usize> = Cell::new(usize::MAX));
thread_local!(static RNG: Cell<u64> = Cell::new(1));

fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
  let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
  f(g.as_mut().expect("no execution"))
}

fn next(r: &mut u64) -> u64 {
  *r ^= *r << 13;
  *r ^= *r >> 7;
  *r ^= *r << 17;
  r.wrapping_mul(0x2545F4914F6CDD1D) >> 11
}

/// data choices of a scenario (same seed, independent of the schedule)
pub fn pick(n: usize) -> usize {
  w(|w| (next(&mut w.rng) % (n as u64)) as usize)
}

/// is this kind of failure looked for?
pub fn wants(tag: &str) -> bool {
  static TAGS: std::sync::OnceLock<Option<Vec<String>>> = std::sync::OnceLock::new();
  TAGS
    .get_or_init(|| std::env::var("VS_TAGS").ok().map(|s| s.split(',').map(|s| s.to_string()).collect()))
    .as_ref()
    .map_or(true, |t| t.iter().any(|x| x == tag))
}

pub fn fail(msg: &str) -> ! {
  use std::io::Write;
  println!("FAIL seed={} {}", SEED.load(RealOrd::Relaxed), msg.replace('\n', " "));
  std::io::stdout().flush().ok();
  std::process::exit(1)
}

/// starts one execution: the caller becomes its root thread
pub fn begin(seed: u64, limit: u64) {
  SEED.store(seed, RealOrd::Relaxed);
  sync::IDS.store(1, RealOrd::Relaxed);
  let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
  for _ in 0..4 {
    next(&mut rng);
  }
  let mode = (seed % 4) as u8;
  let mut changes = vec![];
  if mode != 0 {
    let span = [30, 80, 200][(next(&mut rng) % 3) as usize];
    for _ in 0..(1 + next(&mut rng) % 4) {
      changes.push(next(&mut rng) % span);
    }
  }
  let go = Arc::new(RealBool::new(false));
  *W.lock().unwrap_or_else(|e| e.into_inner()) = Some(World {
    th: vec![Th { st: St::Run, prio: 1 << 13, os: Some(std::thread::current()), go, name: "main".into(), timed_out: false }],
    cur: 0, rng, now: 0, steps: 0, limit, mode, changes, low: 1 << 10, over: false,
  });
  ME.with(|m| m.set(0));
}

/// ends the execution; threads that are still blocked are left behind
pub fn finish() -> u64 {
  ME.with(|m| m.set(usize::MAX));
  w(|w| {
    w.over = true;
    w.steps
  })
}

/// lets everybody else run for `ms` of virtual time and then until they are idle
pub fn settle(ms: u64) -> usize {
  thread::sleep(std::time::Duration::from_millis(ms));
  let me = ME.with(|m| m.get());
  while w(|w| w.th.iter().enumerate().any(|(i, t)| i != me && t.st == St::Run)) {
    thread::sleep(std::time::Duration::from_nanos(1));
  }
  alive()
}

pub fn alive() -> usize {
  let me = ME.with(|m| m.get());
  w(|w| w.th.iter().enumerate().filter(|(i, t)| *i != me && t.st != St::Done).count())
}

pub fn blocked_names() -> String {
  w(|w| w.th.iter().filter(|t| t.st != St::Done).map(|t| format!("{}:{:?}", t.name, t.st)).collect::<Vec<_>>().join(" "))
}

pub fn now() -> u64 {
  w(|w| w.now)
}

pub fn me() -> usize {
  ME.with(|m| m.get())
}

fn ready(w: &World, t: &Th) -> bool {
  let _ = w;
  t.st == St::Run
}

/// picks who runs next; None: everybody waits for good
fn choose(w: &mut World) -> Option<usize> {
  loop {
    let r: Vec<usize> = (0..w.th.len()).filter(|i| ready(w, &w.th[*i])).collect();
    if !r.is_empty() {
      w.steps += 1;
      if w.mode == 0 {
        return Some(r[(next(&mut w.rng) % r.len() as u64) as usize]);
      }
      if w.changes.contains(&w.steps) {
        w.low -= 1;
        let l = w.low;
        let c = w.cur;
        w.th[c].prio = l;
      }
      // an occasional random step keeps a spinning thread from starving the others
      if next(&mut w.rng) % 64 == 0 {
        return Some(r[(next(&mut w.rng) % r.len() as u64) as usize]);
      }
      return r.into_iter().max_by_key(|i| w.th[*i].prio);
    }
    let t = w.th.iter().filter_map(|t| match t.st { St::Sleep(x) => Some(x), St::Until(x, _) => Some(x), _ => None }).min();
    match t {
      None => return None,
      Some(x) => {
        w.now = w.now.max(x);
        for t in w.th.iter_mut() {
          match t.st {
            St::Sleep(y) if y <= x => t.st = St::Run,
            St::Until(y, _) if y <= x => {
              t.timed_out = true;
              t.st = St::Run;
            }
            _ => (),
          }
        }
      }
    }
  }
}

fn block(st: St) {
  let me = ME.with(|m| m.get());
  if me == usize::MAX {
    return;
  }
  let (go, target) = {
    let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
    let w = g.as_mut().unwrap();
    if w.over {
      drop(g);
      loop {
        std::thread::park();
      }
    }
    w.th[me].st = st;
    if w.steps > w.limit {
      let s = w.th.iter().filter(|t| t.st != St::Done).map(|t| format!("{}:{:?}", t.name, t.st)).collect::<Vec<_>>().join(" ");
      drop(g);
      fail(&format!("livelock: no end after many steps ({})", s));
    }
    match choose(w) {
      Some(c) => w.cur = c,
      None => {
        let s = w.th.iter().filter(|t| t.st != St::Done).map(|t| format!("{}:{:?}", t.name, t.st)).collect::<Vec<_>>().join(" ");
        drop(g);
        fail(&format!("deadlock: {}", s));
      }
    }
    let c = w.cur;
    if c == me {
      return;
    }
    w.th[c].go.store(true, RealOrd::Release);
    let t = w.th[c].os.clone();
    (w.th[me].go.clone(), t)
  };
  if let Some(t) = target {
    t.unpark();
  }
  while !go.swap(false, RealOrd::Acquire) {
    std::thread::park();
  }
}

pub fn point() {
  block(St::Run);
}

/// whether the source tries locks: only then can it be seen that one is held for a while
pub const TRIES: bool = false;
fn held() {
  if TRIES && !std::thread::panicking() {
    point();
  }
}

/// a global event stamp
pub fn stamp() -> u64 {
  static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
  N.fetch_add(1, RealOrd::SeqCst)
}

fn wake(f: impl Fn(&St) -> bool) {
  w(|w| {
    for t in w.th.iter_mut() {
      if f(&t.st) {
        t.st = St::Run;
      }
    }
  });
}

pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>;
pub type HashSet<K> = std::collections::HashSet<K, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>;
pub trait MapNew {
  fn new() -> Self;
}
impl<K, V> MapNew for HashMap<K, V> {
  fn new() -> Self {
    Self::default()
  }
}
impl<K> MapNew for HashSet<K> {
  fn new() -> Self {
    Self::default()
  }
}

pub mod thread {
  use super::*;
  pub use std::thread::{current, panicking, ThreadId};

  pub struct JoinHandle<T> {
    id: usize,
    res: Arc<RealMutex<Option<T>>>,
  }

  impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
      loop {
        if w(|w| w.th[self.id].st == St::Done) {
          break;
        }
        block(St::Join(self.id));
      }
      Ok(self.res.lock().unwrap().take().unwrap())
    }
    pub fn is_finished(&self) -> bool {
      point();
      w(|w| w.th[self.id].st == St::Done)
    }
  }

  pub fn spawn<F, T>(f: F) -> JoinHandle<T>
  where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
  {
    named("worker", f)
  }

  pub fn named<F, T>(name: &str, f: F) -> JoinHandle<T>
  where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
  {
    let go = Arc::new(RealBool::new(false));
    let res = Arc::new(RealMutex::new(None));
    let id = w(|w| {
      let prio = (1 << 12) + next(&mut w.rng) % (1 << 18);
      w.th.push(Th { st: St::Run, prio, os: None, go: go.clone(), name: format!("{}{}", name, w.th.len()), timed_out: false });
      w.th.len() - 1
    });
    let r2 = res.clone();
    let h = std::thread::Builder::new().stack_size(1 << 19).spawn(move || {
      ME.with(|m| m.set(id));
      while !go.swap(false, RealOrd::Acquire) {
        std::thread::park();
      }
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
      match r {
        Ok(v) => *r2.lock().unwrap() = Some(v),
        Err(e) => {
          let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
          fail(&format!("panic: {}", m));
        }
      }
      drop(r2);
      // hand the baton on
      let t = {
        let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
        let w = g.as_mut().unwrap();
        w.th[id].st = St::Done;
        for t in w.th.iter_mut() {
          if t.st == St::Join(id) {
            t.st = St::Run;
          }
        }
        match choose(w) {
          Some(c) => {
            w.cur = c;
            w.th[c].go.store(true, RealOrd::Release);
            w.th[c].os.clone()
          }
          None => {
            let s = w.th.iter().filter(|t| t.st != St::Done).map(|t| format!("{}:{:?}", t.name, t.st)).collect::<Vec<_>>().join(" ");
            drop(g);
            fail(&format!("deadlock: {}", s));
          }
        }
      };
      if let Some(t) = t {
        t.unpark();
      }
    }).expect("thread");
    w(|w| w.th[id].os = Some(h.thread().clone()));
    point();
    JoinHandle { id, res }
  }

  pub fn sleep(d: std::time::Duration) {
    let t = w(|w| w.now + d.as_nanos() as u64);
    if ME.with(|m| m.get()) == usize::MAX {
      return;
    }
    block(St::Sleep(t));
  }

  pub fn yield_now() {
    point();
  }
}

pub mod time {
  use super::*;
  pub use std::time::{Duration, SystemTime, UNIX_EPOCH};

  #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
  pub struct Instant(u64);
  impl Instant {
    pub fn now() -> Instant {
      Instant(super::now())
    }
    pub fn elapsed(&self) -> Duration {
      Duration::from_nanos(super::now() - self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
      Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
      Some(Instant(self.0 + d.as_nanos() as u64))
    }
  }
  impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
      Instant(self.0 + d.as_nanos() as u64)
    }
  }
  impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
      Duration::from_nanos(self.0.saturating_sub(o.0))
    }
  }
  impl std::ops::Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
      Instant(self.0 - d.as_nanos() as u64)
    }
  }
}

pub mod sync {
  use super::*;
  pub use std::sync::{Arc, LazyLock, LockResult, Once, OnceLock, PoisonError, TryLockError, TryLockResult, Weak};
  use std::ops::{Deref, DerefMut};

  pub(super) static IDS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
  fn id() -> usize {
    IDS.fetch_add(1, RealOrd::Relaxed)
  }

  #[derive(Default)]
  struct L {
    writer: bool,
    readers: usize,
    wait_w: usize,
  }

  pub struct RwLock<T: ?Sized> {
    id: usize,
    count: Count,
    l: RealMutex<L>,
    v: UnsafeCell<T>,
  }
  unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
  unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
  pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
  pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);

  static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
  /// how many locks exist: a measure of what the library still owns
  pub fn live() -> isize {
    LIVE.load(RealOrd::SeqCst)
  }
  struct Count;
  impl Count {
    fn new() -> Count {
      LIVE.fetch_add(1, RealOrd::SeqCst);
      Count
    }
  }
  impl Drop for Count {
    fn drop(&mut self) {
      LIVE.fetch_sub(1, RealOrd::SeqCst);
    }
  }

  impl<T> RwLock<T> {
    pub fn new(v: T) -> RwLock<T> {
      RwLock { id: id(), count: Count::new(), l: RealMutex::new(L::default()), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
      Ok(self.v.into_inner())
    }
  }
  impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
      point();
      loop {
        {
          let mut l = self.l.lock().unwrap();
          if !l.writer && l.wait_w == 0 {
            l.readers += 1;
            return Ok(RwLockReadGuard(self));
          }
        }
        block(St::Lock(self.id));
      }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
      point();
      let mut waiting = false;
      loop {
        {
          let mut l = self.l.lock().unwrap();
          if !l.writer && l.readers == 0 {
            l.writer = true;
            if waiting {
              l.wait_w -= 1;
            }
            return Ok(RwLockWriteGuard(self));
          }
          if !waiting {
            waiting = true;
            l.wait_w += 1;
          }
        }
        block(St::Lock(self.id));
      }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
      point();
      let mut l = self.l.lock().unwrap();
      if l.writer {
        return Err(TryLockError::WouldBlock);
      }
      l.readers += 1;
      Ok(RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
      point();
      let mut l = self.l.lock().unwrap();
      if l.writer || l.readers > 0 {
        return Err(TryLockError::WouldBlock);
      }
      l.writer = true;
      Ok(RwLockWriteGuard(self))
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
      Ok(self.v.get_mut())
    }
  }
  impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
      RwLock::new(T::default())
    }
  }
  impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.0.v.get() }
    }
  }
  impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.0.v.get() }
    }
  }
  impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
      unsafe { &mut *self.0.v.get() }
    }
  }
  use super::held;
  impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
      held();
      self.0.l.lock().unwrap().readers -= 1;
      let i = self.0.id;
      wake(|s| *s == St::Lock(i));
    }
  }
  impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
      held();
      self.0.l.lock().unwrap().writer = false;
      let i = self.0.id;
      wake(|s| *s == St::Lock(i));
    }
  }

  pub struct Mutex<T: ?Sized>(RwLock<T>);
  unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
  pub struct MutexGuard<'a, T: ?Sized>(Option<RwLockWriteGuard<'a, T>>);
  impl<T> Mutex<T> {
    pub fn new(v: T) -> Mutex<T> {
      Mutex(RwLock::new(v))
    }
    pub fn into_inner(self) -> LockResult<T> {
      self.0.into_inner()
    }
  }
  impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
      Ok(MutexGuard(Some(self.0.write().unwrap())))
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
      match self.0.try_write() {
        Ok(g) => Ok(MutexGuard(Some(g))),
        Err(_) => Err(TryLockError::WouldBlock),
      }
    }
  }
  impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
      Mutex::new(T::default())
    }
  }
  impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      self.0.as_ref().unwrap()
    }
  }
  impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
      self.0.as_mut().unwrap()
    }
  }

  pub struct WaitTimeoutResult(bool);
  impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
      self.0
    }
  }

  pub struct Condvar {
    id: usize,
  }
  impl Default for Condvar {
    fn default() -> Self {
      Condvar::new()
    }
  }
  impl Condvar {
    pub fn new() -> Condvar {
      Condvar { id: id() }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
      point();
      let rg = g.0.take().unwrap();
      let m = rg.0;
      drop(rg);
      block(St::Cond(self.id));
      Ok(MutexGuard(Some(m.write().unwrap())))
    }
    pub fn wait_while<'a, T, F>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>>
    where
      F: FnMut(&mut T) -> bool,
    {
      while f(&mut *g) {
        g = self.wait(g)?;
      }
      Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, mut g: MutexGuard<'a, T>, d: std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
      point();
      let rg = g.0.take().unwrap();
      let m = rg.0;
      drop(rg);
      let t = w(|w| {
        let me = me();
        w.th[me].timed_out = false;
        w.now + d.as_nanos() as u64
      });
      block(St::Until(t, self.id));
      let to = w(|w| w.th[me()].timed_out);
      Ok((MutexGuard(Some(m.write().unwrap())), WaitTimeoutResult(to)))
    }
    pub fn wait_timeout_while<'a, T, F>(&self, mut g: MutexGuard<'a, T>, d: std::time::Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
      F: FnMut(&mut T) -> bool,
    {
      let end = super::now() + d.as_nanos() as u64;
      loop {
        if !f(&mut *g) {
          return Ok((g, WaitTimeoutResult(false)));
        }
        let n = super::now();
        if n >= end {
          return Ok((g, WaitTimeoutResult(true)));
        }
        g = self.wait_timeout(g, std::time::Duration::from_nanos(end - n))?.0;
      }
    }
    pub fn notify_one(&self) {
      let i = self.id;
      w(|w| {
        let c: Vec<usize> = (0..w.th.len()).filter(|k| matches!(w.th[*k].st, St::Cond(x) if x == i) || matches!(w.th[*k].st, St::Until(_, x) if x == i)).collect();
        if !c.is_empty() {
          let k = c[(next(&mut w.rng) % c.len() as u64) as usize];
          w.th[k].st = St::Run;
        }
      });
      point();
    }
    pub fn notify_all(&self) {
      let i = self.id;
      wake(|s| matches!(s, St::Cond(x) if *x == i) || matches!(s, St::Until(_, x) if *x == i));
      point();
    }
  }

  pub mod atomic {
    pub use std::sync::atomic::{fence, Ordering};
    use super::super::point;
    macro_rules! at {
      ($n:ident, $t:ty) => {
        #[derive(Default, Debug)]
        pub struct $n(std::sync::atomic::$n);
        impl $n {
          pub const fn new(v: $t) -> Self {
            $n(std::sync::atomic::$n::new(v))
          }
          pub fn load(&self, o: Ordering) -> $t {
            point();
            self.0.load(o)
          }
          pub fn store(&self, v: $t, o: Ordering) {
            point();
            self.0.store(v, o)
          }
          pub fn swap(&self, v: $t, o: Ordering) -> $t {
            point();
            self.0.swap(v, o)
          }
          pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
            point();
            self.0.compare_exchange(a, b, o, p)
          }
          pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
            point();
            self.0.compare_exchange(a, b, o, p)
          }
          pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
            point();
            self.0.fetch_update(o, p, f)
          }
          pub fn into_inner(self) -> $t {
            self.0.into_inner()
          }
        }
      };
    }
    macro_rules! num {
      ($n:ident, $t:ty) => {
        at!($n, $t);
        impl $n {
          pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
            point();
            self.0.fetch_add(v, o)
          }
          pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
            point();
            self.0.fetch_sub(v, o)
          }
          pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
            point();
            self.0.fetch_max(v, o)
          }
        }
      };
    }
    at!(AtomicBool, bool);
    impl AtomicBool {
      pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        point();
        self.0.fetch_or(v, o)
      }
      pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        point();
        self.0.fetch_and(v, o)
      }
    }
    num!(AtomicUsize, usize);
    num!(AtomicIsize, isize);
    num!(AtomicU64, u64);
    num!(AtomicI64, i64);
    num!(AtomicU32, u32);
    num!(AtomicI32, i32);
    num!(AtomicU8, u8);
  }
}
