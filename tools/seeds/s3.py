import os, runpy
H = runpy.run_path(os.path.join(os.path.dirname(__file__), 's2.py'))['H']
S = 'src/operators/'
SEEDS = {
'timeout-order': dict(property='C16', edits=[(S + 'timeout.rs', '''          let prev = timer.write().unwrap().take();
          if let Some(prev) = prev {
            prev.unsubscribe();
          }

          sctl_next.sink_next(x);
''', '''          sctl_next.sink_next(x);
''')],
 needs='an item in time whose delivery is still going on when the period that began with the item before it runs out',
 breaks='the timer of the item before is cancelled only after the new item was delivered: a slow subscriber is given TimedOut though the successor came in time',
 demo=H + '''
fn main() {
  let s = subjects::Subject::<i32>::new();
  let l = log();
  let (a, b, c) = (l.clone(), l.clone(), l.clone());
  s.observable().timeout(Duration::from_millis(600), schedulers::new_thread_scheduler()).subscribe(
    move |x: i32| { a.lock().unwrap().push(x.to_string()); if x == 2 { thread::sleep(Duration::from_millis(700)) } },
    move |_| b.lock().unwrap().push("err".to_string()),
    move || c.lock().unwrap().push("done".to_string()),
  );
  s.next(1);
  thread::sleep(Duration::from_millis(200));
  s.next(2);
  s.complete();
  thread::sleep(Duration::from_millis(300));
  assert_eq!(got(&l), "1,2,done");
}
'''),
'subject-wrap': dict(property='C10', edits=[('src/subjects/subject.rs', '''        *serial += 1;
        *serial''', '''        *serial = (*serial + 1) & 0x3ff;
        *serial''')],
 needs='an observer that is still there when 1024 more have subscribed',
 breaks='the key of an observer comes round again after 1024 subscriptions and the new one takes the place of the old',
 demo=H + '''
fn main() {
  let s = subjects::Subject::<i32>::new();
  let l = log();
  let _a = sub(&s.observable(), &l);
  for i in 0..3000 {
    let m = log();
    let b = sub(&s.observable(), &m);
    if i % 500 == 0 { s.next(i); assert_eq!(got(&m), i.to_string()); }
    b.unsubscribe();
  }
  assert_eq!(got(&l), "0,500,1000,1500,2000,2500");
}
'''),
'sctl-wrap': dict(property='C03', edits=[('src/internals/stream_controller.rs', '''      *x += 1;
      ret''', '''      *x = (*x + 1) % 256;
      ret''')],
 needs='an operator that has made 256 inner subscriptions while an early one is still open',
 breaks='the number of an upstream observer comes round again after 256 and the entry of an open one is replaced: the output completes though an input is still open',
 demo=H + '''
fn main() {
  let open = subjects::Subject::<i32>::new();
  let src = subjects::Subject::<i32>::new();
  let o = open.observable();
  let l = log();
  sub(&src.observable().flat_map(move |x| if x == 0 { o.clone() } else { observables::empty() }), &l);
  for i in 0..1000 { src.next(i); }
  src.complete();
  open.next(7);
  open.complete();
  assert_eq!(got(&l), "7,done");
}
'''),
'queue-lostwake': dict(property='C15', edits=[('src/schedulers/async_function_queue.rs', '''    let mut que_mtx = self.data.queue.lock().unwrap();
    que_mtx.clear();
    *self.data.abort.write().unwrap() = true;
    self.data.cond.notify_one();''', '''    self.data.queue.lock().unwrap().clear();
    *self.data.abort.write().unwrap() = true;
    self.data.cond.notify_one();''')],
 needs='stop() between the worker having found the queue empty and its going to sleep',
 breaks='the stop flag is raised and the worker woken without the lock the worker decides under: the wakeup is lost and the thread stays for ever',
 demo=H + '''
fn main() {
  let t0 = Instant::now();
  while t0.elapsed() < Duration::from_secs(40) {
    let base = threads();
    for i in 0..64u64 {
      let o = observables::just(1).observe_on(schedulers::new_thread_scheduler());
      let s = o.subscribe(|_| {}, |_| {}, || {});
      let t = Instant::now();
      while t.elapsed() < Duration::from_nanos(i * 1500) { std::hint::spin_loop(); }
      s.unsubscribe();
    }
    let t = Instant::now();
    while threads() > base && t.elapsed() < Duration::from_secs(3) { thread::sleep(Duration::from_millis(1)); }
    assert!(threads() <= base, "{} threads left", threads() - base);
  }
}
'''),
'fw-keep': dict(property='C17', edits=[('src/internals/function_wrapper.rs', '''      let mut f = self.inner.write().unwrap();
      if let Some(x) = &*f {
        let x = x.clone();
        *f = None;
        Some(x)
      } else {
        None
      }
    };
    if let Some(f) = f {
      Some((f.func)(indata))
''', '''      let f = self.inner.read().unwrap();
      f.clone()
    };
    if let Some(f) = f {
      let out = (f.func)(indata);
      self.clear();
      Some(out)
''')],
 needs='a terminal callback that does not return (panics), with a source that keeps its observer',
 breaks='the function is taken out only after it has returned: a callback that panics stays owned for ever',
 demo=H + '''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let kept: Arc<Mutex<Vec<Observer<'static, i32>>>> = Arc::new(Mutex::new(vec![]));
  let k = kept.clone();
  let tok = Arc::new(());
  let weak = Arc::downgrade(&tok);
  {
    let o = Observable::create(move |s: Observer<'static, i32>| k.lock().unwrap().push(s));
    o.subscribe(|_| {}, |_| {}, move || { let _ = &tok; panic!("boom") });
  }
  let s = kept.lock().unwrap()[0].clone();
  let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.complete()));
  assert!(!s.is_subscribed());
  assert!(weak.upgrade().is_none(), "the callback is still owned");
}
'''),
'subject-tryread': dict(property='C12', edits=[('src/subjects/subject.rs', '''    let binding = self.observers.read().unwrap();
    let x = binding.iter().map(|x| x.1.clone());
    Vec::from_iter(x)''', '''    match self.observers.try_read() {
      Ok(observers) => observers.values().cloned().collect(),
      Err(_) => Vec::new(),
    }''')],
 needs='next() at the very moment another observer subscribes or leaves',
 breaks='the observers are fetched with try_read: an item pushed while the map is being changed reaches nobody',
 demo=H + '''
fn main() {
  let t0 = Instant::now();
  while t0.elapsed() < Duration::from_secs(25) {
    let s = subjects::Subject::<i32>::new();
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let _k = s.observable().subscribe(move |_| { m.fetch_add(1, Ordering::SeqCst); }, |_| {}, || {});
    let (p, q) = (s.clone(), s.clone());
    race(vec![
      Box::new(move || for i in 0..2000 { p.next(i) }),
      Box::new(move || for _ in 0..500 { q.observable().subscribe(|_| {}, |_| {}, || {}).unsubscribe() }),
    ]);
    assert_eq!(n.load(Ordering::SeqCst), 2000);
  }
}
'''),
}
