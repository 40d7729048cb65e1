"""Rewritings by hand that behave the same, part 2: the objects, schedulers, connectables and small operators."""
CASES = []


def case(rel, what, *reps):
    CASES.append((rel, what, list(reps)))


SC = 'internals/stream_controller.rs'
case(SC, 'atomic serial', ('''  serial: Arc<RwLock<i32>>,''', '''  serial: Arc<std::sync::atomic::AtomicI32>,'''),
     ('''serial: Arc::new(RwLock::new(0)),''', '''serial: Arc::new(std::sync::atomic::AtomicI32::new(0)),'''),
     ('''    let serial = {
      let mut x = self.serial.write().unwrap();
      let ret = *x;
      *x += 1;
      ret
    };
''', '''    let serial = self.serial.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
'''))
case(SC, 'drain and for', ('''    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
    unscribers.iter().for_each(|x| {
      x.1.call(());
    });
''', '''    let unscribers: Vec<_> = self.unscribers.write().unwrap().drain().map(|(_, f)| f).collect();
    for f in unscribers {
      f.call(());
    }
'''))
case(SC, 'early return', ('''    if self.subscriber.is_subscribed() {
      self.subscriber.next(x);
    } else {
      self.finalize();
    }
''', '''    if !self.subscriber.is_subscribed() {
      return self.finalize();
    }
    self.subscriber.next(x);
'''), ('''    if self.subscriber.is_subscribed() {
      self.subscriber.error(e);
      self.finalize();
    } else {
      self.finalize();
    }
''', '''    if self.subscriber.is_subscribed() {
      self.subscriber.error(e);
    }
    self.finalize();
'''), ('''(o, observers.len() == 0)''', '''(o, observers.is_empty())'''))
case(SC, 'abort helper', ('''      let (o, done_all) = {
        let mut observers = self.unscribers.write().unwrap();
        let o = observers.remove(serial);
        (o, observers.len() == 0)
      };
      if let Some(o) = o {
        o.call(());
      }
      if done_all {
''', '''      if self.release(serial) {
'''), ('''    let o = self.unscribers.write().unwrap().remove(serial);
    if let Some(o) = o {
      o.call(());
    }
  }
''', '''    self.release(serial);
  }

  /// gives one upstream up; true if none is left
  fn release(&self, serial: &i32) -> bool {
    let (given_up, none_left) = {
      let mut open = self.unscribers.write().unwrap();
      (open.remove(serial), open.is_empty())
    };
    if let Some(f) = given_up {
      f.call(());
    }
    none_left
  }
'''))
case(SC, 'mutex and btree', ('''  collections::HashMap,
  sync::{Arc, RwLock},
''', '''  collections::BTreeMap,
  sync::{Arc, Mutex, RwLock},
'''), ('''Arc<RwLock<HashMap<i32, FunctionWrapper<'a, (), ()>>>>''', '''Arc<Mutex<BTreeMap<i32, FunctionWrapper<'a, (), ()>>>>'''),
     ('''Arc::new(RwLock::new(HashMap::new()))''', '''Arc::new(Mutex::new(BTreeMap::new()))'''),
     ('''self.unscribers.write().unwrap().insert''', '''self.unscribers.lock().unwrap().insert'''),
     ('''self.unscribers.write().unwrap();''', '''self.unscribers.lock().unwrap();'''),
     ('''self.unscribers.write().unwrap().remove''', '''self.unscribers.lock().unwrap().remove'''),
     ('''&mut *self.unscribers.write().unwrap()''', '''&mut *self.unscribers.lock().unwrap()'''))
case(SC, 'values into', ('''    unscribers.iter().for_each(|x| {
      x.1.call(());
    });
''', '''    for unsubscribe in unscribers.values() {
      unsubscribe.call(());
    }
'''), ('''    let on_finalize = self.on_finalize.write().unwrap().take();
    if let Some(f) = on_finalize {
      f.call(());
    }
''', '''    let mut hook = self.on_finalize.write().unwrap();
    let on_finalize = std::mem::replace(&mut *hook, None);
    drop(hook);
    on_finalize.map(|f| f.call(()));
'''))
case(SC, 'new ordered', ('''    {
      let sctl = sctl.clone();
      subscriber_.set_on_unsubscribe(move || sctl.finalize());
    }
    sctl
''', '''    let upstream = sctl.clone();
    subscriber_.set_on_unsubscribe(move || {
      upstream.finalize();
    });
    sctl
'''), ('''  pub fn sink_complete_force(&self) {
    if self.subscriber.is_subscribed() {
      self.subscriber.complete();
    }
    self.finalize();
''', '''  pub fn sink_complete_force(&self) {
    match self.is_subscribed() {
      true => self.subscriber.complete(),
      false => {}
    }
    self.finalize();
'''))

OB = 'observer.rs'
case(OB, 'early return', ('''    if self.fn_next.take() {
      self.fn_complete.clear();
      self.teardown();
      self.fn_error.call_and_clear_if_available(x);
    }
''', '''    if !self.fn_next.take() {
      return;
    }
    self.fn_complete.clear();
    self.teardown();
    self.fn_error.call_and_clear_if_available(x);
'''))
case(OB, 'close helper', ('''    self.fn_next.clear();
    self.fn_error.clear();
    self.fn_complete.clear();
    self.teardown();
  }
''', '''    self.close();
    self.teardown();
  }
  fn close(&self) {
    let _ = self.fn_next.take();
    let _ = self.fn_error.take();
    let _ = self.fn_complete.take();
  }
'''))
case(OB, 'teardown mutex', ('''use std::sync::{Arc, RwLock};''', '''use std::sync::{Arc, Mutex};'''),
     ('''fn_on_unsubscribe: Arc<RwLock<''', '''fn_on_unsubscribe: Arc<Mutex<'''),
     ('''Arc::new(RwLock::new(None))''', '''Arc::new(Mutex::new(None))'''),
     ('''    *self.fn_on_unsubscribe.write().unwrap() =
      Some(FunctionWrapper::new(move |_| f()));
''', '''    let f = FunctionWrapper::new(move |_| f());
    self.fn_on_unsubscribe.lock().unwrap().replace(f);
'''), ('''self.fn_on_unsubscribe.write().unwrap().take()''', '''self.fn_on_unsubscribe.lock().unwrap().take()'''))
FW = 'internals/function_wrapper.rs'
case(FW, 'as_ref map', ('''    if let Some(x) = &*self.inner.read().unwrap() {
      Some(x.clone())
    } else {
      None
    }
''', '''    self.inner.read().unwrap().as_ref().map(|x| x.clone())
'''), ('''    if let Some(ff) = self.fetch_function() {
      Some((ff.func)(indata))
    } else {
      None
    }
''', '''    let ff = self.fetch_function()?;
    Some((ff.func)(indata))
'''))
case(FW, 'take', ('''    let f = {
      let mut f = self.inner.write().unwrap();
      if let Some(x) = &*f {
        let x = x.clone();
        *f = None;
        Some(x)
      } else {
        None
      }
    };
    if let Some(f) = f {
      Some((f.func)(indata))
    } else {
      None
    }
''', '''    let f = self.inner.write().unwrap().take();
    f.map(|f| (f.func)(indata))
'''), ('''    let f = self.inner.write().unwrap().take();
    f.is_some()
''', '''    let old = std::mem::take(&mut *self.inner.write().unwrap());
    match old {
      Some(_) => true,
      None => false,
    }
'''))
case(FW, 'no wrapper struct', ('''#[derive(Clone)]
struct FunctionWrapperInner<'a, In, Out>
where
  In: Clone + Send + Sync + 'a,
  Out: Clone + Send + Sync + 'a,
{
  pub func: Arc<Box<dyn Fn(In) -> Out + Send + Sync + 'a>>,
}
''', '''type Func<'a, In, Out> = Arc<dyn Fn(In) -> Out + Send + Sync + 'a>;
'''), ('''Arc<RwLock<Option<FunctionWrapperInner<'a, In, Out>>>>''', '''Arc<RwLock<Option<Func<'a, In, Out>>>>'''),
     ('''      inner: Arc::new(RwLock::new(Some(
        FunctionWrapperInner { func: Arc::new(Box::new(func)) },
      ))),
''', '''      inner: Arc::new(RwLock::new(Some(Arc::new(func)))),
'''), ('''Option<FunctionWrapperInner<In, Out>>''', '''Option<Func<'a, In, Out>>'''),
     ('''(ff.func)(indata)''', '''ff(indata)'''), ('''(ff.func)(indata)''', '''ff(indata)'''), ('''(f.func)(indata)''', '''f(indata)'''))
SU = 'subscription.rs'
case(SU, 'unwrap_or', ('''    if let Some(x) = self.fn_is_subscribed.call_if_available(()) {
      x
    } else {
      false
    }
''', '''    self.fn_is_subscribed.call_if_available(()).unwrap_or(false)
'''))
OV = 'observable.rs'
case(OV, 'early return', ('''    let unsub_observer = observer.clone();
    let issub_observer = observer.clone();
    if observer.is_subscribed() {
      self.source.call(observer.clone());
    }
    Subscription::new(
      move || {
        unsub_observer.unsubscribe();
      },
      move || issub_observer.is_subscribed(),
    )
''', '''    let handle = {
      let (a, b) = (observer.clone(), observer.clone());
      Subscription::new(move || a.unsubscribe(), move || b.is_subscribed())
    };
    if !observer.is_subscribed() {
      return handle;
    }
    self.source.call(observer);
    handle
'''))

S = 'subjects/subject.rs'
case(S, 'for loops', ('''    self
      .fetch_observers()
      .into_iter()
      .for_each(move |x| x.next(item.clone()));
''', '''    for o in self.fetch_observers() {
      o.next(item.clone());
    }
'''), ('''    obs.into_iter().for_each(move |x| x.1.error(err.clone()));
''', '''    for (_, o) in obs {
      o.error(err.clone());
    }
'''), ('''    obs.into_iter().for_each(|x| x.1.complete());
''', '''    for o in obs.values() {
      o.complete();
    }
'''))
case(S, 'values cloned', ('''    let binding = self.observers.read().unwrap();
    let x = binding.iter().map(|x| x.1.clone());
    Vec::from_iter(x)
''', '''    self.observers.read().unwrap().values().cloned().collect()
'''))
case(S, 'atomic serial', ('''  serial: Arc<RwLock<i32>>,''', '''  serial: Arc<std::sync::atomic::AtomicI32>,'''),
     ('''serial: Arc::new(RwLock::new(0)),''', '''serial: Arc::new(std::sync::atomic::AtomicI32::new(0)),'''),
     ('''      let serial = {
        let mut serial = serial.write().unwrap();
        *serial += 1;
        *serial
      };
''', '''      let serial = serial.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
'''))
case(S, 'helper for the hooks', ('''          let f = on_unsubscribe.read().unwrap().clone();
          if let Some(f) = f {
            f.call(len);
          }
        });
''', '''          tell(&on_unsubscribe, len);
        });
'''), ('''      let f = on_subscribe.read().unwrap().clone();
      if let Some(f) = f {
        f.call(len);
      }
''', '''      tell(&on_subscribe, len);
'''), ('''        let f = on_unsubscribe.read().unwrap().clone();
        if let Some(f) = f {
          f.call(len);
        }
''', '''        tell(&on_unsubscribe, len);
'''), ('''    Observable::create(move |s| {
''', '''    fn tell<'a>(hook: &RwLock<Option<FunctionWrapper<'a, usize, ()>>>, count: usize) {
      let f = hook.read().unwrap().clone();
      if let Some(f) = f {
        f.call(count);
      }
    }

    Observable::create(move |s| {
'''))
case(S, 'drain', ('''    let obs = std::mem::take(&mut *self.observers.write().unwrap());
    obs.into_iter().for_each(|x| x.1.complete());
''', '''    let obs: Vec<Observer<'a, Item>> = self.observers.write().unwrap().drain().map(|(_, o)| o).collect();
    obs.iter().for_each(Observer::complete);
'''))
B = 'subjects/behavior_subject.rs'
case(B, 'pop front of a deque', ('''RwLock::new(Some(Vec::<(usize, Material<Item>)>::new()))''', '''RwLock::new(Some(std::collections::VecDeque::<(usize, Material<Item>)>::new()))'''),
     ('''waiting.push((n, m));''', '''waiting.push_back((n, m));'''),
     ('''          match waiting.as_mut() {
            Some(w) if w.len() > 0 => Some(w.remove(0)),
            _ => {
              *waiting = None;
              None
            }
          }
''', '''          let first = waiting.as_mut().and_then(|w| w.pop_front());
          if first.is_none() {
            *waiting = None;
          }
          first
'''))
case(B, 'while let', ('''      loop {
        let next = {
          let mut waiting = waiting.write().unwrap();
          match waiting.as_mut() {
            Some(w) if w.len() > 0 => Some(w.remove(0)),
            _ => {
              *waiting = None;
              None
            }
          }
        };
        match next {
          Some((nn, m)) => {
            if nn > n {
              emit(m);
            }
          }
          None => break,
        }
      }
''', '''      let take_one = || {
        let mut waiting = waiting.write().unwrap();
        match waiting.as_mut() {
          Some(w) if !w.is_empty() => Some(w.remove(0)),
          _ => {
            *waiting = None;
            None
          }
        }
      };
      while let Some((nn, m)) = take_one() {
        if nn > n {
          emit(m);
        }
      }
'''))
case(B, 'matches', ('''    if let Material::Next(_) = current.1 {
      current.0 += 1;
      current.1 = m;
      Some(current.0)
    } else {
      None
    }
''', '''    if !matches!(current.1, Material::Next(_)) {
      return None;
    }
    *current = (current.0 + 1, m);
    Some(current.0)
'''))
R = 'subjects/replay_subject.rs'
case(R, 'matches', ('''    match history.last() {
      Some(Material::Error(_)) | Some(Material::Complete) => false,
      _ => {
        history.push(m);
        true
      }
    }
''', '''    let ended = matches!(history.last(), Some(Material::Error(_) | Material::Complete));
    if !ended {
      history.push(m);
    }
    !ended
'''))
case(R, 'cursor struct', ('''      let cursor = Arc::new(RwLock::new((0usize, false)));
''', '''      struct Cursor {
        at: usize,
        busy: bool,
      }
      let cursor = Arc::new(RwLock::new(Cursor { at: 0, busy: false }));
'''), ('''if cursor.1 {''', '''if cursor.busy {'''), ('''cursor.1 = true;''', '''cursor.busy = true;'''),
     ('''history.read().unwrap().get(cursor.0).cloned()''', '''history.read().unwrap().get(cursor.at).cloned()'''),
     ('''                cursor.0 += 1;
              } else {
                cursor.1 = false;
''', '''                cursor.at += 1;
              } else {
                cursor.busy = false;
'''))
case(R, 'bool swap', ('''            let mut cursor = cursor.write().unwrap();
            if cursor.1 {
              // the one who is delivering comes to it
              return;
            }
            cursor.1 = true;
''', '''            // the one who is delivering comes to it
            let busy = std::mem::replace(&mut cursor.write().unwrap().1, true);
            if busy {
              return;
            }
'''))
AS = 'subjects/async_subject.rs'
case(AS, 'map', ('''    if let Some(item) = last_item {
      self.subject.next(item);
    }
    self.subject.complete();
''', '''    match last_item {
      None => {}
      Some(item) => self.subject.next(item),
    };
    self.subject.complete();
'''), ('''    *self.last_item.write().unwrap() = Some(item);
''', '''    self.last_item.write().unwrap().replace(item);
'''))

Q = 'schedulers/async_function_queue.rs'
case(Q, 'while loop wait', ('''        let que_mtx = self.data.queue.lock().unwrap();
        let mut que_mtx = self
          .data
          .cond
          .wait_while(que_mtx, |que| {
            if *self.data.abort.read().unwrap() {
              false
            } else {
              que.is_empty()
            }
          })
          .unwrap();
''', '''        let mut que_mtx = self.data.queue.lock().unwrap();
        while que_mtx.is_empty() && !*self.data.abort.read().unwrap() {
          que_mtx = self.data.cond.wait(que_mtx).unwrap();
        }
'''))
case(Q, 'while let', ('''    loop {
      let f = {
        let que_mtx''', '''    while let Some(f) = {
        let que_mtx'''), ('''          que_mtx.pop_front()
        }
      };
      if let Some(f) = f {
        f.call(());
      } else {
        break;
      }
    }
''', '''          que_mtx.pop_front()
        }
    } {
      f.call(());
    }
'''))
case(Q, 'atomic abort', ('''  abort: RwLock<bool>,''', '''  abort: std::sync::atomic::AtomicBool,'''),
     ('''abort: RwLock::new(false),''', '''abort: std::sync::atomic::AtomicBool::new(false),'''),
     ('''            if *self.data.abort.read().unwrap() {
              false''', '''            if self.data.abort.load(std::sync::atomic::Ordering::SeqCst) {
              false'''),
     ('''        if *self.data.abort.read().unwrap() {
          None''', '''        if self.data.abort.load(std::sync::atomic::Ordering::SeqCst) {
          None'''),
     ('''*self.data.abort.write().unwrap() = true;''', '''self.data.abort.store(true, std::sync::atomic::Ordering::SeqCst);'''))
case(Q, 'condition in one', ('''            if *self.data.abort.read().unwrap() {
              false
            } else {
              que.is_empty()
            }
''', '''            !*self.data.abort.read().unwrap() && que.is_empty()
'''))
case(Q, 'notify after the lock', ('''    let mut que_mtx = self.data.queue.lock().unwrap();
    que_mtx.push_back(FunctionWrapper::new(move |_| f()));
    self.data.cond.notify_one();
''', '''    let task = FunctionWrapper::new(move |_| f());
    self.data.queue.lock().unwrap().push_back(task);
    self.data.cond.notify_one();
'''))

RC = 'operators/ref_count.rs'
case(RC, 'let else', ('''      if count == 1 {
        // connect
''', '''      if count != 1 {
        return;
      }
      {
'''), ('''          let observer = connection.read().unwrap().clone();
          if let Some(observer) = observer {
            observer.unsubscribe();
          }
''', '''          let current = { connection.read().unwrap().as_ref().cloned() };
          match current {
            Some(o) => o.unsubscribe(),
            None => (),
          }
'''))
case(RC, 'match on the connection', ('''          if connection.as_ref().map_or(false, |o| o.is_subscribed()) {
            return;
          }
''', '''          if let Some(o) = &*connection {
            if o.is_subscribed() {
              return;
            }
          }
'''))
RP = 'operators/replay.rs'
case(RP, 'connect helper', ('''        let sbj_next = subject.clone();
        let sbj_error = subject.clone();
        let sbj_complete = subject.clone();
        let observer = Observer::new(
          move |x| {
            sbj_next.next(x);
          },
          move |e| {
            sbj_error.error(e);
          },
          move || {
            sbj_complete.complete();
          },
        );
''', '''        let observer = into_subject(subject.clone());
'''), ('''impl<'a, Item> Observable<'a, Item>
where
  Item: Clone + Send + Sync,
{
  pub fn replay''', '''fn into_subject<'a, Item>(s: subjects::ReplaySubject<'a, Item>) -> Observer<'a, Item>
where
  Item: Clone + Send + Sync,
{
  let (a, b, c) = (s.clone(), s.clone(), s);
  Observer::new(move |x| a.next(x), move |e| b.error(e), move || c.complete())
}

impl<'a, Item> Observable<'a, Item>
where
  Item: Clone + Send + Sync,
{
  pub fn replay'''))
TV = 'operators/to_vec.rs'
case(TV, 'wake helper', ('''        *done_error.write().unwrap() = true;
        let w = waker_error.read().unwrap().clone();
        if let Some(w) = w {
          w.wake();
        }
''', '''        finish(&done_error, &waker_error);
'''), ('''        *done_complete.write().unwrap() = true;
        let w = waker_complete.read().unwrap().clone();
        if let Some(w) = w {
          w.wake();
        }
''', '''        finish(&done_complete, &waker_complete);
'''), ('''impl<'a, Item> Future for''', '''fn finish(done: &RwLock<bool>, waker: &RwLock<Option<Waker>>) {
  *done.write().unwrap() = true;
  let waker = waker.read().unwrap().clone();
  if let Some(waker) = waker {
    waker.wake();
  }
}

impl<'a, Item> Future for'''))
case(TV, 'poll early', ('''    if *self.done.read().unwrap() {
      if let Some(err) = &*self.err.read().unwrap() {
        task::Poll::Ready(Err(err.clone()))
      } else {
        task::Poll::Ready(Ok(Arc::clone(&self.buffer)))
      }
    } else {
      *waker = Some(cx.waker().clone());
      task::Poll::Pending
    }
''', '''    if !*self.done.read().unwrap() {
      *waker = Some(cx.waker().clone());
      return task::Poll::Pending;
    }
    let err = self.err.read().unwrap().clone();
    task::Poll::Ready(match err {
      Some(err) => Err(err),
      None => Ok(self.buffer.clone()),
    })
'''))
IV = 'observables/interval.rs'
case(IV, 'while', ('''      let mut n = 0;
      loop {
        thread::sleep(dur);
        if !s.is_subscribed() {
          break;
        }
        s.next(n);
        n += 1;
      }
''', '''      let tick = || {
        thread::sleep(dur);
        s.is_subscribed()
      };
      let mut n = 0;
      while tick() {
        s.next(n);
        n += 1;
      }
'''))
case(IV, 'for', ('''      let mut n = 0;
      loop {
        thread::sleep(dur);
        if !s.is_subscribed() {
          break;
        }
        s.next(n);
        n += 1;
      }
''', '''      for n in 0.. {
        thread::sleep(dur);
        if !s.is_subscribed() {
          break;
        }
        s.next(n);
      }
'''))
TO = 'operators/timeout.rs'
case(TO, 'helper', ('''          let prev = timer.write().unwrap().take();
          if let Some(prev) = prev {
            prev.unsubscribe();
          }
          sctl_next.sink_next(x);
''', '''          let cancel = |s: Option<Subscription<'a>>| {
            if let Some(s) = s {
              s.unsubscribe();
            }
          };
          let prev = std::mem::take(&mut *timer.write().unwrap());
          cancel(prev);
          sctl_next.sink_next(x);
'''), ('''            let prev = timer.write().unwrap().replace(next);
            if let Some(prev) = prev {
              prev.unsubscribe();
            }
''', '''            let prev = timer.write().unwrap().replace(next);
            cancel(prev);
'''))
case('operators/switch_on_next.rs', 'atomic', ('''RwLock::new(false)''', '''std::sync::atomic::AtomicBool::new(false)'''),
     ('''*emitted.read().unwrap()''', '''emitted.load(std::sync::atomic::Ordering::SeqCst)'''),
     ('''*emitted.write().unwrap() = true;''', '''emitted.store(true, std::sync::atomic::Ordering::SeqCst);'''))
case('operators/skip_until.rs', 'option unit', ('''RwLock::new(false)''', '''RwLock::new(None::<()>)'''),
     ('''*enable_triggner_next.write().unwrap() = true;''', '''*enable_triggner_next.write().unwrap() = Some(());'''),
     ('''if *enable.read().unwrap() {''', '''let open = enable.read().unwrap().is_some();
            if open {'''))
case('operators/skip_while.rs', 'one condition', ('''          if *enable.read().unwrap() {
            sctl_next.sink_next(x);
          } else {
            if !f.call(x.clone()) {
              *enable.write().unwrap() = true;
              sctl_next.sink_next(x);
            }
          }
''', '''          let open = *enable.read().unwrap();
          if !open && f.call(x.clone()) {
            return;
          }
          *enable.write().unwrap() = true;
          sctl_next.sink_next(x);
'''))
case('operators/skip.rs', 'counts down', ('''RwLock::new(0)''', '''RwLock::new(count)'''), ('''            let mut n = n.write().unwrap();
            let nn = *n;
            *n += 1;
            nn >= count
''', '''            let mut left = n.write().unwrap();
            let open = *left == 0;
            if !open {
              *left -= 1;
            }
            open
'''))
case('operators/skip.rs', 'fetch_update', ('''RwLock::new(0)''', '''std::sync::atomic::AtomicUsize::new(0)'''), ('''          let emit = {
            let mut n = n.write().unwrap();
            let nn = *n;
            *n += 1;
            nn >= count
          };
''', '''          let emit = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= count;
'''))
case('operators/reduce.rs', 'take and match', ('''          let r = result_next.read().unwrap().clone();
          let r = if let Some(xx) = r { f.call((xx, x)) } else { x };
          *result_next.write().unwrap() = Some(r);
''', '''          let r = result_next.read().unwrap().clone();
          let r = r.map(|acc| f.call((acc, x.clone()))).unwrap_or(x);
          *result_next.write().unwrap() = Some(r);
''')) if False else None
case('operators/reduce.rs', 'match', ('''          let r = if let Some(xx) = r { f.call((xx, x)) } else { x };
          *result_next.write().unwrap() = Some(r);
''', '''          let folded = match r {
            None => x,
            Some(acc) => f.call((acc, x)),
          };
          result_next.write().unwrap().replace(folded);
'''), ('''          let x = result.read().unwrap().clone();
          if let Some(x) = x {
            sctl_complete.sink_next(x);
          }
''', '''          let x = result.write().unwrap().take();
          x.map(|x| sctl_complete.sink_next(x));
'''))
case('operators/max.rs', 'map_or', ('''          let mut r = result_next.write().unwrap();
          if let Some(xx) = &*r {
            if x > *xx {
              *r = Some(x);
            }
          } else {
            *r = Some(x);
          }
''', '''          let mut best = result_next.write().unwrap();
          let better = best.as_ref().map_or(true, |b| x > *b);
          if better {
            *best = Some(x);
          }
'''))
case('operators/max.rs', 'match guard', ('''          let mut r = result_next.write().unwrap();
          if let Some(xx) = &*r {
            if x > *xx {
              *r = Some(x);
            }
          } else {
            *r = Some(x);
          }
''', '''          let mut best = result_next.write().unwrap();
          *best = match best.take() {
            Some(b) if !(x > b) => Some(b),
            _ => Some(x),
          };
'''))
case('operators/first.rs', 'direct', ('''    let take_op = self.take_op.clone();

''', '''    let take_op = self.take_op.clone();
    return take_op.execute(source);
    #[allow(unreachable_code)]
''')) if False else None
case('operators/take_while.rs', 'early return', ('''          if f.call(x.clone()) {
            sctl_next.sink_next(x);
          } else {
            sctl_next.sink_complete(&serial)
          }
''', '''          let wanted = f.call(x.clone());
          if !wanted {
            return sctl_next.sink_complete(&serial);
          }
          sctl_next.sink_next(x);
'''))
case('operators/contains.rs', 'answer helper', ('''          if x == target {
            sctl_next.sink_next(true);
            sctl_next.sink_complete(&serial);
          }
''', '''          if x != target {
            return;
          }
          answer(&sctl_next, true, &serial);
'''), ('''          sctl_error.sink_next(false);
          sctl_error.sink_complete(&serial);
''', '''          answer(&sctl_error, false, &serial);
'''), ('''          sctl_complete.sink_next(false);
          sctl_complete.sink_complete(&serial);
''', '''          answer(&sctl_complete, false, &serial);
'''), ('''    let target = self.target.clone();
''', '''    fn answer(sctl: &StreamController<'_, bool>, found: bool, serial: &i32) {
      sctl.sink_next(found);
      sctl.sink_complete(serial);
    }
    let target = self.target.clone();
'''))
case('observables/from_iter.rs', 'while let', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }
''', '''    let mut it = it.clone();
    while let Some(x) = it.next() {
      if !s.is_subscribed() {
        return;
      }
      s.next(x);
    }
    s.complete();
'''))
case('observables/from_result.rs', 'match', ('''  if let Ok(x) = &x {
    observables::just(x.clone())
  } else {
    observables::error(RxError::from_result(x))
  }
''', '''  match x {
    Ok(x) => observables::just(x),
    Err(e) => observables::error(RxError::from_result::<Item, E>(Err(e))),
  }
'''))
