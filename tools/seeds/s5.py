import os, runpy
H = runpy.run_path(os.path.join(os.path.dirname(__file__), 's2.py'))['H']
S = 'src/operators/'
SEEDS = {
'next-trampoline': dict(property='C01', edits=[('src/observer.rs', '''use std::sync::{Arc, RwLock};
''', '''use std::collections::VecDeque;
use std::sync::{Arc, Mutex, RwLock};
'''), ('src/observer.rs', '''  fn_next: FunctionWrapper<'a, T, ()>,
  fn_error''', '''  fn_next: FunctionWrapper<'a, T, ()>,
  pending: Arc<Mutex<Option<VecDeque<T>>>>,
  fn_error'''), ('src/observer.rs', '''      fn_next: FunctionWrapper::new(next),
''', '''      fn_next: FunctionWrapper::new(next),
      pending: Arc::new(Mutex::new(None)),
'''), ('src/observer.rs', '''    self.fn_next.call_if_available(x);
''', '''    // items emitted from inside of the callback are delivered when it has returned
    if let Some(que) = self.pending.lock().unwrap().as_mut() {
      que.push_back(x);
      return;
    }
    if !self.fn_next.exists() {
      return;
    }
    *self.pending.lock().unwrap() = Some(VecDeque::new());
    let fn_next = self.fn_next.detach();
    fn_next.call_if_available(x);
    loop {
      let x = {
        let mut pending = self.pending.lock().unwrap();
        match pending.as_mut().and_then(|que| que.pop_front()) {
          Some(x) => x,
          None => {
            *pending = None;
            break;
          }
        }
      };
      fn_next.call_if_available(x);
    }
'''), ('src/internals/function_wrapper.rs', '''  fn fetch_function(''', '''  /// The function as it is now, whatever happens to this wrapper.
  pub fn detach(&self) -> FunctionWrapper<'a, In, Out> {
    let f = self.inner.read().unwrap().clone();
    FunctionWrapper {
      inner: Arc::new(RwLock::new(f)),
    }
  }

  fn fetch_function(''')],
 needs='an item and a terminal that are both signalled from inside of the subscriber\'s item callback',
 breaks='an item emitted from inside of the item callback is delivered after the terminal that was signalled from there as well',
 demo=H + '''
fn main() {
  let sbj = subjects::Subject::<i32>::new();
  let l = log();
  let (a, b, c) = (l.clone(), l.clone(), l.clone());
  let s = sbj.clone();
  let _s = sbj.observable().subscribe(
    move |x| {
      a.lock().unwrap().push(x.to_string());
      if x == 1 {
        s.next(2);
        s.complete();
      }
    },
    move |_| b.lock().unwrap().push("E".to_string()),
    move || c.lock().unwrap().push("C".to_string()),
  );
  sbj.next(1);
  let v = l.lock().unwrap().clone();
  let end = v.iter().position(|x| x == "C").unwrap();
  assert_eq!(end, v.len() - 1, "{:?}", v);
}
'''),
'clear-two-step': dict(property='C19', edits=[('src/internals/function_wrapper.rs', '''  pub fn clear(&self) {
    self.take();
  }''', '''  pub fn clear(&self) {
    if self.exists() {
      let f = { self.inner.write().unwrap().take() };
      drop(f);
    }
  }'''), ('src/internals/function_wrapper.rs', '''    // the function is dropped after the lock is released
    let f = self.inner.write().unwrap().take();
    f.is_some()
''', '''    let there = self.exists();
    self.clear();
    there
'''), ('src/internals/function_wrapper.rs', '''    let f = {
      let mut f = self.inner.write().unwrap();
      if let Some(x) = &*f {
        let x = x.clone();
        *f = None;
        Some(x)
      } else {
        None
      }
    };
    if let Some(f) = f {''', '''    let f = self.fetch_function();
    self.clear();
    if let Some(f) = f {''')],
 needs='two threads that signal a terminal to one subscriber within a few instructions of each other',
 breaks='both threads find the subscriber open and each of them delivers its terminal',
 demo=H + '''
fn main() {
  let bad = Arc::new(AtomicUsize::new(0));
  let round = Arc::new(AtomicUsize::new(0));
  let arrived = Arc::new(AtomicUsize::new(0));
  let cell: Arc<Mutex<Option<Observer<'static, i32>>>> = Arc::new(Mutex::new(None));
  const N: usize = 60000;
  let ths = (0..3).map(|k| {
    let (round, arrived, cell) = (round.clone(), arrived.clone(), cell.clone());
    std::thread::spawn(move || {
      for i in 1..=N {
        while round.load(Ordering::SeqCst) < i { std::hint::spin_loop(); }
        let o = cell.lock().unwrap().clone().unwrap();
        arrived.fetch_add(1, Ordering::SeqCst);
        while arrived.load(Ordering::SeqCst) < 3 * (2 * i - 1) { std::hint::spin_loop(); }
        if k == 0 { o.complete() } else { o.error(RxError::from_error(k)) }
        arrived.fetch_add(1, Ordering::SeqCst);
      }
    })
  }).collect::<Vec<_>>();
  for i in 1..=N {
    let n = Arc::new(AtomicUsize::new(0));
    let (a, b) = (n.clone(), n.clone());
    let c = cell.clone();
    let _s = Observable::<i32>::create(move |s: Observer<i32>| { *c.lock().unwrap() = Some(s); }).subscribe(
      |_| {},
      move |_| { a.fetch_add(1, Ordering::SeqCst); },
      move || { b.fetch_add(1, Ordering::SeqCst); },
    );
    round.store(i, Ordering::SeqCst);
    while arrived.load(Ordering::SeqCst) < 6 * i { std::hint::spin_loop(); }
    if n.load(Ordering::SeqCst) != 1 { bad.fetch_add(1, Ordering::SeqCst); }
  }
  for t in ths { t.join().unwrap(); }
  println!("{}", bad.load(Ordering::SeqCst));
  assert_eq!(bad.load(Ordering::SeqCst), 0);
}
'''),
}
