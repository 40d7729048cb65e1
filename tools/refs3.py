"""Variants by hand that behave the same, third set (see refs.py): larger rewrites and the small files."""
CASES = []
O = 'operators/%s.rs'
S = 'subjects/%s.rs'


def ref(rel, what, *reps):
    CASES.append((rel, what, list(reps)))


PLAIN = '''          move |_, x| {
            sctl_next.sink_next(x);
          },
          move |_, e| {
            sctl_error.sink_error(e);
          },
'''
ref(O % 'subscribe_on', 'clone in the task', ('''      let source_next = source.clone();
''', '''      let src = source.clone();
'''), ('''        source_next.inner_subscribe(sctl.new_observer(''', '''        let observer = sctl.new_observer('''), ('''          move |serial| sctl_complete.sink_complete(&serial),
        ));
      });
    })''', '''          move |serial| sctl_complete.sink_complete(&serial),
        );
        src.clone().inner_subscribe(observer);
      });
    })'''))
ref(O % 'subscribe_on', 'helper function', ('''        let sctl_next = sctl.clone();
        let sctl_error = sctl.clone();
        let sctl_complete = sctl.clone();
        source_next.inner_subscribe(sctl.new_observer(
          move |_, x| {
            sctl_next.sink_next(x);
          },
          move |_, e| {
            sctl_error.sink_error(e);
          },
          move |serial| sctl_complete.sink_complete(&serial),
        ));''', '''        forward(&source_next, &sctl);'''), ('''impl<'a, Item> Observable<'a, Item>''', '''fn forward<'a, Item>(source: &Observable<'a, Item>, sctl: &StreamController<'a, Item>)
where
  Item: Clone + Send + Sync,
{
  let (a, b, c) = (sctl.clone(), sctl.clone(), sctl.clone());
  let observer = sctl.new_observer(
    move |_, x| a.sink_next(x),
    move |_, e| b.sink_error(e),
    move |serial| c.sink_complete(&serial),
  );
  source.inner_subscribe(observer);
}

impl<'a, Item> Observable<'a, Item>'''))
ref(O % 'take_until', 'observers made inline', ('''      let obs_source = {
        let sctl_next = sctl.clone();
        let sctl_error = sctl.clone();
        let sctl_complete = sctl.clone();
        sctl.new_observer(''', '''      let obs_source = {
        let [sctl_next, sctl_error, sctl_complete] = [sctl.clone(), sctl.clone(), sctl.clone()];
        sctl.new_observer('''), ('''      let obs_trigger = {
        let sctl_trigger_next = sctl.clone();
        sctl.new_observer(
          move |_, _| {
            sctl_trigger_next.sink_complete_force();
          },
          |_, _| {},
          |_| {},
        )
      };
''', '''      let stop = sctl.clone();
      let on_trigger = move |_: i32, _: TriggerValue| stop.sink_complete_force();
      let obs_trigger = sctl.new_observer(on_trigger, |_, _| (), |_| ());
'''))
ref(O % 'retry_when', 'struct method', ('''            if predicate.call(e.clone()) {
              sctl_error.upstream_abort_observe(&serial);
              do_subscribe(
                predicate.clone(),
                source_error.clone(),
                sctl_error.clone(),
              );
            } else {
              sctl_error.sink_error(e);
            }''', '''            let again = predicate.call(e.clone());
            if !again {
              sctl_error.sink_error(e);
              return;
            }
            sctl_error.upstream_abort_observe(&serial);
            do_subscribe(predicate.clone(), source_error.clone(), sctl_error.clone());'''))
ref(O % 'retry_when', 'references', ('''        predicate: FunctionWrapper<'a, RxError, bool>,
        source: Observable<'a, Item>,
        sctl: StreamController<'a, Item>,
      ) where''', '''        predicate: &FunctionWrapper<'a, RxError, bool>,
        source: &Observable<'a, Item>,
        sctl: &StreamController<'a, Item>,
      ) where'''), ('''        let source_error = source.clone();
''', '''        let source_error = source.clone();
        let predicate = predicate.clone();
'''), ('''              do_subscribe(
                predicate.clone(),
                source_error.clone(),
                sctl_error.clone(),
              );''', '''              do_subscribe(&predicate, &source_error, &sctl_error);'''), ('''      do_subscribe(f.clone(), source.clone(), sctl.clone());''', '''      do_subscribe(&f, &source, &sctl);'''))
ref(O % 'start_with', 'early return', ('''      for n in it.clone() {
        if !s.is_subscribed() {
          break;
        }
        s.next(n);
      }
''', '''      let mut heads = it.clone();
      while s.is_subscribed() {
        match heads.next() {
          Some(n) => s.next(n),
          None => break,
        }
      }
'''))
ref(O % 'start_with', 'take_while', ('''      for n in it.clone() {
        if !s.is_subscribed() {
          break;
        }
        s.next(n);
      }
''', '''      it.clone().take_while(|_| s.is_subscribed()).for_each(|n| s.next(n));
'''))
ref(O % 'on_error_resume_next', 'bound steps', ('''          let sctl_error_next = sctl_error.clone();
          let sctl_error_error = sctl_error.clone();
          let sctl_error_complete = sctl_error.clone();
          f.call(e).inner_subscribe(sctl_error.new_observer(''', '''          let fallback = f.call(e);
          let sctl_error_next = sctl_error.clone();
          let sctl_error_error = sctl_error.clone();
          let sctl_error_complete = sctl_error.clone();
          fallback.inner_subscribe(sctl_error.new_observer('''))
ref(O % 'element_at', 'by its own counter', ('''    let take_op = self.take_op.clone();
    let skip_op = self.skip_op.clone();
    Observable::<Item>::create(move |s| {
      let source = source.clone();
''', '''    let (take_op, skip_op) = (self.take_op.clone(), self.skip_op.clone());
    Observable::<Item>::create(move |s| {
      let head = take_op.execute(source.clone());
'''), ('''      skip_op
        .execute(take_op.execute(source))
        .inner''', '''      skip_op
        .execute(head)
        .inner'''))
ref(O % 'publish', 'one clone per closure', ('''    let sbj_next = self.sbj.clone();
    let sbj_error = self.sbj.clone();
    let sbj_complete = self.sbj.clone();
    self.source.subscribe(
      move |x| {
        sbj_next.next(x);
      },
      move |e| {
        sbj_error.error(e);
      },
      move || {
        sbj_complete.complete();
      },
    )''', '''    let on_next = {
      let sbj = self.sbj.clone();
      move |x| sbj.next(x)
    };
    let on_error = {
      let sbj = self.sbj.clone();
      move |e| sbj.error(e)
    };
    let on_complete = {
      let sbj = self.sbj.clone();
      move || sbj.complete()
    };
    self.source.subscribe(on_next, on_error, on_complete)'''))
ref(O % 'all', 'answer helper', ('''          move |serial, _| {
            sctl_next.upstream_abort_observe(&serial);
            sctl_next.sink_next(false);
            sctl_next.sink_complete(&serial);
          },''', '''          move |serial, _| {
            sctl_next.upstream_abort_observe(&serial);
            answer(&sctl_next, &serial, false);
          },'''), ('''            sctl_complete.sink_next(true);
            sctl_complete.sink_complete(&serial);
''', '''            answer(&sctl_complete, &serial, true);
'''), ('''impl<'a, Item> Observable<'a, Item>''', '''fn answer(sctl: &StreamController<bool>, serial: &i32, x: bool) {
  sctl.sink_next(x);
  sctl.sink_complete(serial);
}

impl<'a, Item> Observable<'a, Item>'''))
ref(O % 'count', 'atomic', ('''let n = Arc::new(RwLock::new(0usize));''', '''let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));'''), ('''          *n_next.write().unwrap() += 1;''', '''          n_next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);'''), ('''let n = *n.read().unwrap();''', '''let n = n.load(std::sync::atomic::Ordering::SeqCst);'''), ('''  sync::{Arc, RwLock},''', '''  sync::Arc,'''))
ref(O % 'materialize', 'helper', ('''        move |serial, e| {
          sctl_error.sink_next(Material::Error(e));
          sctl_error.sink_complete(&serial);
        },
        move |serial| {
          sctl_complete.sink_next(Material::Complete);
          sctl_complete.sink_complete(&serial)
        },''', '''        move |serial, e| last(&sctl_error, serial, Material::Error(e)),
        move |serial| last(&sctl_complete, serial, Material::Complete),'''), ('''impl<'a, Item> Observable<'a, Item>''', '''fn last<'a, T: Clone + Send + Sync>(sctl: &StreamController<'a, Material<T>>, serial: i32, m: Material<T>) {
  sctl.sink_next(m);
  sctl.sink_complete(&serial);
}

impl<'a, Item> Observable<'a, Item>'''))
ref(O % 'dematerialize', 'if let chain', ('''        move |serial, x: Material<Item>| match x {
          Material::Next(x) => sctl_next.sink_next(x),
          Material::Error(x) => sctl_next.sink_error(x),
          Material::Complete => sctl_next.sink_complete(&serial),
        },''', '''        move |serial, x: Material<Item>| {
          if let Material::Next(item) = x {
            sctl_next.sink_next(item);
          } else if let Material::Error(e) = x {
            sctl_next.sink_error(e);
          } else {
            sctl_next.sink_complete(&serial);
          }
        },'''))
ref(O % 'sum', 'take and add', ('''          let mut sum = sum_next.write().unwrap();
          if let Some(latest) = &*sum {
            *sum = Some(latest.clone() + x);
          } else {
            *sum = Some(x);
          }''', '''          let mut sum = sum_next.write().unwrap();
          *sum = Some(match sum.take() {
            Some(latest) => latest + x,
            None => x,
          });'''), ('''          let latest = sum.read().unwrap().clone();
          if let Some(latest) = latest {''', '''          let total = sum.write().unwrap().take();
          if let Some(latest) = total {'''))
ref(O % 'min', 'is_none_or', ('''          let mut r = result_next.write().unwrap();
          if let Some(xx) = &*r {
            if x < *xx {
              *r = Some(x);
            }
          } else {
            *r = Some(x);
          }''', '''          let mut r = result_next.write().unwrap();
          let smaller = match r.as_ref() {
            Some(least) => x < *least,
            None => true,
          };
          if smaller {
            r.replace(x);
          }'''))
ref(O % 'tap', 'pair', ('''        move |_, x: Item| {
          next_f.call(x.clone());
          sctl_next.sink_next(x);
        },''', '''        move |_, x: Item| {
          let copy = x.clone();
          next_f.call(copy);
          sctl_next.sink_next(x)
        },'''))
ref(O % 'filter', 'guard clause', ('''          if f.call(x.clone()) {
            sctl_next.sink_next(x);
          }''', '''          let keep = f.call(x.clone());
          if !keep {
            return;
          }
          sctl_next.sink_next(x);'''))
ref(O % 'filter', 'option filter', ('''          if f.call(x.clone()) {
            sctl_next.sink_next(x);
          }''', '''          if let Some(x) = Some(x).filter(|x| f.call(x.clone())) {
            sctl_next.sink_next(x);
          }'''))
ref(O % 'time_interval', 'replace', ('''          let prev = *start_time_next.read().unwrap();
          if let Some(start_time) = prev {
            sctl_next.sink_next(start_time.elapsed());
          }
''', '''          let prev = start_time_next.read().unwrap().clone();
          match prev {
            Some(start_time) => sctl_next.sink_next(start_time.elapsed()),
            None => {}
          }
'''))
ref('observables/defer.rs', 'bound', ('''    f().inner_subscribe(s);''', '''    let source = f();
    source.inner_subscribe(s);'''))
ref('observables/range.rs', 'while', ('''    for n in initial..(initial + count) {
      if !s.is_subscribed() {
        break;
      }
      s.next(n.clone());
    }
''', '''    let end = initial + count;
    let mut n = initial;
    while n < end && s.is_subscribed() {
      s.next(n);
      n += 1;
    }
'''))
ref('observables/range.rs', 'all', ('''    for n in initial..(initial + count) {
      if !s.is_subscribed() {
        break;
      }
      s.next(n.clone());
    }
''', '''    let range = initial..(initial + count);
    for n in range {
      if s.is_subscribed() {
        s.next(n);
        continue;
      }
      break;
    }
'''))
ref('observables/repeat.rs', 'loop', ('''    while s.is_subscribed() {
      s.next(x.clone());
    }''', '''    loop {
      if !s.is_subscribed() {
        return;
      }
      let item = x.clone();
      s.next(item);
    }'''))
ref('observables/timer.rs', 'block', ('''      thread::sleep(dur);
      s.next(());
      s.complete();
      scheduler_in_post.abort();''', '''      thread::sleep(dur);
      {
        let observer = s.clone();
        observer.next(());
        observer.complete();
      }
      scheduler_in_post.abort();'''))
ref('subscription.rs', 'match', ('''    if let Some(x) = self.fn_is_subscribed.call_if_available(()) {
      x
    } else {
      false
    }''', '''    matches!(self.fn_is_subscribed.call_if_available(()), Some(true))'''))
ref('utils/something.rs', 'map_or_else', ('''    match self.value {
      Ok(x) => observables::just(x),
      Err(e) => observables::error(e),
    }''', '''    if let Ok(x) = self.value {
      return observables::just(x);
    }
    observables::error(self.value.err().unwrap())'''))
ref('rx_error.rs', 'helper', ('''        error: Box::new(result.expect_err("Result must be Result::Err!")),''', '''        error: Box::new(match result {
          Err(e) => e,
          Ok(x) => panic!("Result must be Result::Err!: {:?}", x),
        }),'''))
ref('schedulers/new_thread_scheduler.rs', 'queue first', ('''    let scheduler = AsyncFunctionQueue::new();
    let scheduler_thread = scheduler.clone();
    thread::spawn(move || {
      scheduler_thread.scheduling();
    });
    NewThreadScheduler { scheduler }''', '''    let this = NewThreadScheduler { scheduler: AsyncFunctionQueue::new() };
    let queue = this.scheduler.clone();
    thread::spawn(move || queue.scheduling());
    this'''))
ref('schedulers/new_thread_scheduler.rs', 'builder', ('''    thread::spawn(move || {
      scheduler_thread.scheduling();
    });''', '''    let work = move || scheduler_thread.scheduling();
    let _ = thread::spawn(work);'''))
ref('schedulers/async_function_queue.rs', 'next_task helper', ('''      let f = {
        let que_mtx = self.data.queue.lock().unwrap();
        let mut que_mtx = self
          .data
          .cond
          .wait_while(que_mtx, |que| {
            if *self.data.abort.read().unwrap() {
              false
            } else {
              que.is_empty()
            }
          })
          .unwrap();
        if *self.data.abort.read().unwrap() {
          None
        } else {
          que_mtx.pop_front()
        }
      };
      if let Some(f) = f {
        f.call(());
      } else {
        break;
      }
    }
  }
''', '''      match self.next_task() {
        Some(task) => task.call(()),
        None => return,
      }
    }
  }

  fn aborted(&self) -> bool {
    *self.data.abort.read().unwrap()
  }

  fn next_task(&self) -> Option<FunctionWrapper<'a, (), ()>> {
    let queue = self.data.queue.lock().unwrap();
    let mut queue = self
      .data
      .cond
      .wait_while(queue, |q| !self.aborted() && q.is_empty())
      .unwrap();
    if self.aborted() {
      return None;
    }
    queue.pop_front()
  }
'''))
ref('schedulers/async_function_queue.rs', 'stop drops the tasks later', ('''    let mut que_mtx = self.data.queue.lock().unwrap();
    que_mtx.clear();
    *self.data.abort.write().unwrap() = true;
    self.data.cond.notify_one();''', '''    let mut que_mtx = self.data.queue.lock().unwrap();
    *self.data.abort.write().unwrap() = true;
    let discarded = std::mem::take(&mut *que_mtx);
    self.data.cond.notify_all();
    drop(que_mtx);
    drop(discarded);'''))
ref('schedulers/async_function_queue.rs', 'post outside', ('''    let mut que_mtx = self.data.queue.lock().unwrap();
    que_mtx.push_back(FunctionWrapper::new(move |_| f()));
    self.data.cond.notify_one();''', '''    let task = FunctionWrapper::new(move |_| f());
    let data = &self.data;
    {
      let mut queue = data.queue.lock().unwrap();
      queue.push_back(task);
    }
    data.cond.notify_one();'''))
ref(O % 'observe_on', 'tuple clones', ('''      let sctl_next = sctl.clone();
      let sctl_error = sctl.clone();
      let sctl_complete = sctl.clone();
      let source_next = source.clone();
      let scheduler_next = scheduler.clone();
      let scheduler_error = scheduler.clone();
      let scheduler_complete = scheduler.clone();
      let scheduler_on_finalize = scheduler.clone();
      sctl.set_on_finalize(move || {
        scheduler_on_finalize.abort();
      });
      source_next.inner_subscribe''', '''      {
        let scheduler = scheduler.clone();
        sctl.set_on_finalize(move || scheduler.abort());
      }
      let (sctl_next, scheduler_next) = (sctl.clone(), scheduler.clone());
      let (sctl_error, scheduler_error) = (sctl.clone(), scheduler.clone());
      let (sctl_complete, scheduler_complete) = (sctl.clone(), scheduler);
      source.inner_subscribe'''))
ref(O % 'observe_on', 'arc of the item', ('''          let sctl_next = sctl_next.clone();
          scheduler_next.post(move || {
            sctl_next.sink_next(x.clone());
          });''', '''          let sink = sctl_next.clone();
          let deliver = move || {
            let item = x.clone();
            sink.sink_next(item);
          };
          scheduler_next.post(deliver);'''))
ref(O % 'debounce', 'loop and take', ('''          while sctl.is_subscribed() {
            thread::sleep(dur);
            let value = {
              let mut value = value.write().unwrap();
              let v = value.clone();
              *value = None;
              v
            };
            if let Some(value) = value {
              sctl.sink_next(value);
            }
          }''', '''          loop {
            if !sctl.is_subscribed() {
              return;
            }
            thread::sleep(dur);
            let latest = value.write().unwrap().take();
            if let Some(latest) = latest {
              sctl.sink_next(latest);
            }
          }'''))
ref(O % 'debounce', 'worker fn', ('''          while sctl.is_subscribed() {
            thread::sleep(dur);
            let value = {
              let mut value = value.write().unwrap();
              let v = value.clone();
              *value = None;
              v
            };
            if let Some(value) = value {
              sctl.sink_next(value);
            }
          }''', '''          while sctl.is_subscribed() {
            thread::sleep(dur);
            flush(&sctl, &value);
          }'''), ('''impl<'a, Item> Observable<'a, Item>''', '''fn flush<'a, Item: Clone + Send + Sync>(
  sctl: &StreamController<'a, Item>,
  cell: &RwLock<Option<Item>>,
) {
  let pending = std::mem::replace(&mut *cell.write().unwrap(), None);
  pending.into_iter().for_each(|x| sctl.sink_next(x));
}

impl<'a, Item> Observable<'a, Item>'''))
ref(O % 'timeout', 'cancel closure', ('''          let prev = timer.write().unwrap().take();
          if let Some(prev) = prev {
            prev.unsubscribe();
          }
          sctl_next.sink_next(x);''', '''          let stop = |old: Option<Subscription<'a>>| {
            if let Some(old) = old {
              old.unsubscribe();
            }
          };
          let running = timer.write().unwrap().take();
          stop(running);
          sctl_next.sink_next(x);'''), ('''            let prev = timer.write().unwrap().replace(next);
            if let Some(prev) = prev {
              prev.unsubscribe();
            }''', '''            let prev = timer.write().unwrap().replace(next);
            stop(prev);'''))
ref(O % 'timeout', 'swap', ('''            let prev = timer.write().unwrap().replace(next);
            if let Some(prev) = prev {''', '''            let mut prev = Some(next);
            std::mem::swap(&mut prev, &mut *timer.write().unwrap());
            if let Some(prev) = prev {'''), ('''            let next =
              observables::interval''', '''            let one_shot =
              observables::interval'''), ('''                .take(1)
                .subscribe(
''', '''                .take(1);
            let next = one_shot.subscribe(
'''))
ref(O % 'sample', 'mem take', ('''            let value = {
              let mut v = value_trigger_next.write().unwrap();
              let vv = v.clone();
              *v = None;
              vv
            };
            if let Some(v) = value {
              sctl_trigger_next.sink_next(v);
            }''', '''            let latest = std::mem::take(&mut *value_trigger_next.write().unwrap());
            match latest {
              Some(v) => sctl_trigger_next.sink_next(v),
              None => (),
            }'''), ('''            *value_next.write().unwrap() = Some(x);''', '''            let mut cell = value_next.write().unwrap();
            cell.replace(x);'''))
ref(O % 'sample', 'source observer first in text', ('''                let vv = v.clone();''', '''                let vv = v.clone();''')) if False else None
ref(O % 'skip_until', 'atomic bool', ('''let enable = Arc::new(RwLock::new(false));''', '''let enable = Arc::new(std::sync::atomic::AtomicBool::new(false));'''), ('''            *enable_triggner_next.write().unwrap() = true;''', '''            enable_triggner_next.store(true, std::sync::atomic::Ordering::Release);'''), ('''            if *enable.read().unwrap() {''', '''            if enable.load(std::sync::atomic::Ordering::Acquire) {'''))
ref(O % 'switch_on_next', 'early return', ('''            if *emitted.read().unwrap() {
              sctl_next.upstream_abort_observe(&serial);
            } else {
              sctl_next.sink_next(x);
            }''', '''            let switched = *emitted.read().unwrap();
            if switched {
              sctl_next.upstream_abort_observe(&serial);
              return;
            }
            sctl_next.sink_next(x);'''))
ref(O % 'flat_map', 'inner helper', ('''          let sctl_next_next = sctl_next.clone();
          let sctl_next_error = sctl_next.clone();
          let sctl_next_complete = sctl_next.clone();
          f.call(x).inner_subscribe(sctl_next.new_observer(
            move |_, xx| {
              sctl_next_next.sink_next(xx);
            },
            move |_, ee| {
              sctl_next_error.sink_error(ee);
            },
            move |serial| {
              sctl_next_complete.sink_complete(&serial);
            },
          ));''', '''          let inner = f.call(x);
          mirror(&inner, &sctl_next);'''), ('''impl<'a, In, Out> FlatMap''', '''fn mirror<'a, T>(inner: &Observable<'a, T>, sctl: &StreamController<'a, T>)
where
  T: Clone + Send + Sync,
{
  let (n, e, c) = (sctl.clone(), sctl.clone(), sctl.clone());
  inner.inner_subscribe(sctl.new_observer(
    move |_, x| n.sink_next(x),
    move |_, x| e.sink_error(x),
    move |serial| c.sink_complete(&serial),
  ));
}

impl<'a, In, Out> FlatMap'''))
ref(O % 'concat', 'match pop', ('''        if observables.read().unwrap().is_empty() {
          sctl.sink_complete_force();
          return;
        }
        let o = observables.write().unwrap().pop_front().unwrap();
''', '''        let next = observables.write().unwrap().pop_front();
        let o = match next {
          Some(o) => o,
          None => return sctl.sink_complete_force(),
        };
'''))
ref(O % 'concat', 'vec reversed', ('''      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
        observables.clone().into_iter(),
      )));
''', '''      let mut waiting = observables.clone();
      waiting.reverse();
      let observables = Arc::new(RwLock::new(waiting));
'''), ('''        observables: Arc<RwLock<VecDeque<Observable<'a, Item>>>>,''', '''        observables: Arc<RwLock<Vec<Observable<'a, Item>>>>,'''), ('''        if observables.read().unwrap().is_empty() {
          sctl.sink_complete_force();
          return;
        }
        let o = observables.write().unwrap().pop_front().unwrap();
''', '''        let next = observables.write().unwrap().pop();
        let Some(o) = next else {
          sctl.sink_complete_force();
          return;
        };
'''))
ref(O % 'concat', 'position', ('''        if observables.read().unwrap().is_empty() {
          sctl.sink_complete_force();
          return;
        }
        let o = observables.write().unwrap().pop_front().unwrap();
''', '''        let o = observables.read().unwrap().get(idx).cloned();
        if o.is_none() {
          sctl.sink_complete_force();
          return;
        }
        let o = o.unwrap();
'''))
ref(O % 'amb', 'get_or_insert_with, abort helper', ('''        let mut w = winner_check.write().unwrap();
        if let Some(w) = &*w {
          *serial == *w
        } else {
          *w = Some(serial.clone());
          true
        }''', '''        *winner_check.write().unwrap().get_or_insert_with(|| *serial) == *serial'''))
ref(O % 'amb', 'observers in a loop', ('''      let mut sbs = {
        let sctl = sctl.clone();
        Vec::from_iter(
          (0..(observables.len() + 1)).map(move |_| {
            let is_win_next''', '''      let mut sbs = {
        let sctl = sctl.clone();
        (0..=observables.len()).map(move |_| {
            let is_win_next'''), ('''            )
          }),
        )
      };''', '''            )
          })
          .collect::<Vec<_>>()
      };'''))
ref(O % 'zip', 'row helper', ('''        let re = Arc::clone(&results_f);
        let get = move || {
          let mut re = re.write().unwrap();
          let filled = re.iter().filter(|x| x.len() > 0).count();
          if filled == re.len() {
            let mut v = Vec::new();
            for items in re.iter_mut() {
              v.push(items.pop_front().unwrap());
            }
            Some(v)
          } else {
            None
          }
        };
        while let Some(items) = get() {''', '''        while let Some(items) = pop_row(&mut results_f.write().unwrap()) {'''), ('''impl<'a, Item> Observable<'a, Item>''', '''fn pop_row<T>(queues: &mut Vec<VecDeque<T>>) -> Option<Vec<T>> {
  if queues.iter().any(|q| q.is_empty()) {
    return None;
  }
  Some(queues.iter_mut().map(|q| q.pop_front().unwrap()).collect())
}

impl<'a, Item> Observable<'a, Item>''')) if False else None
ref(O % 'zip', 'row helper', ('''        let re = Arc::clone(&results_f);
        let get = move || {
          let mut re = re.write().unwrap();
          let filled = re.iter().filter(|x| x.len() > 0).count();
          if filled == re.len() {
            let mut v = Vec::new();
            for items in re.iter_mut() {
              v.push(items.pop_front().unwrap());
            }
            Some(v)
          } else {
            None
          }
        };
        while let Some(items) = get() {''', '''        let get = || pop_row(&mut results_f.write().unwrap());
        while let Some(items) = get() {'''), ('''impl<'a, Item> Observable<'a, Item>''', '''fn pop_row<T>(queues: &mut Vec<VecDeque<T>>) -> Option<Vec<T>> {
  if queues.iter().any(|q| q.is_empty()) {
    return None;
  }
  Some(queues.iter_mut().map(|q| q.pop_front().unwrap()).collect())
}

impl<'a, Item> Observable<'a, Item>'''))
ref(O % 'group_by', 'or_insert_with', ('''            let mut sbjmap = sbjmap_next.write().unwrap();
            if let Some(sbj) = sbjmap.get(&key) {
              (sbj.clone(), false)
            } else {
              let sbj = subjects::Subject::<Item>::new();
              sbjmap.insert(key, sbj.clone());
              (sbj, true)
            }''', '''            let mut opened = false;
            let mut groups = sbjmap_next.write().unwrap();
            let sbj = groups
              .entry(key)
              .or_insert_with(|| {
                opened = true;
                subjects::Subject::<Item>::new()
              })
              .clone();
            (sbj, opened)'''), ('''          let sbjmap = sbjmap_error.read().unwrap().clone();
          sbjmap.iter().for_each(|x| {
            x.1.error(e.clone());
          });''', '''          let groups: Vec<_> = sbjmap_error.read().unwrap().values().cloned().collect();
          for g in groups {
            g.error(e.clone());
          }'''))
ref(O % 'group_by', 'drained at the end', ('''          let sbjmap = sbjmap_complete.read().unwrap().clone();
          sbjmap.iter().for_each(|x| {
            x.1.complete();
          });''', '''          let groups = std::mem::take(&mut *sbjmap_complete.write().unwrap());
          for (_, group) in groups {
            group.complete();
          }'''))
ref(O % 'window_with_count', 'modulo', ('''            let opened = *n == 0;
            *n += 1;
            let filled = *n >= count;
            if filled {
              *sbj = subjects::Subject::<Item>::new();
              *n = 0;
            }
            (current, opened, filled)''', '''            let opened = *n == 0;
            let filled = *n + 1 >= count;
            *n = if filled { 0 } else { *n + 1 };
            if filled {
              *sbj = subjects::Subject::<Item>::new();
            }
            (current, opened, filled)'''))
ref(O % 'sequence_equal', 'compare rewritten', ('''    if sources.iter().all(|s| s.0.len() > 0) {
      let mut items = Vec::new();
      for s in sources.iter_mut() {
        items.push(s.0.pop_front().unwrap());
      }
      if !items.iter().all(|x| *x == items[0]) {
        return Some(false);
      }
    }''', '''    let complete_row = !sources.iter().any(|(q, _)| q.is_empty());
    if complete_row {
      let items: Vec<Item> = sources.iter_mut().map(|(q, _)| q.pop_front().unwrap()).collect();
      let first = &items[0];
      if items.iter().any(|x| x != first) {
        return Some(false);
      }
    }'''))
ref(O % 'ref_count', 'connect closure', ('''          let mut connection = connection.write().unwrap();
          if connection.as_ref().map_or(false, |o| o.is_subscribed()) {
            return;
          }
          // known before the source runs, so that it can be stopped from
          // inside of a synchronous source
          *connection = Some(observer.clone());''', '''          let mut slot = connection.write().unwrap();
          let connected = match slot.as_ref() {
            Some(o) => o.is_subscribed(),
            None => false,
          };
          if connected {
            return;
          }
          slot.replace(observer.clone());'''))
ref(O % 'ref_count', 'early return', ('''        if count == 0 {
          let observer = connection.read().unwrap().clone();
          if let Some(observer) = observer {
            observer.unsubscribe();
          }
        }''', '''        if count != 0 {
          return;
        }
        let current = { connection.read().unwrap().clone() };
        current.iter().for_each(|o| o.unsubscribe());'''), ('''      if count == 1 {
        // connect''', '''      let first = count == 1;
      if first {'''))
ref(O % 'replay', 'make observer', ('''        let sbj_next = subject.clone();
        let sbj_error = subject.clone();
        let sbj_complete = subject.clone();
        let observer = Observer::new(
          move |x| {
            sbj_next.next(x);
          },
          move |e| {
            sbj_error.error(e);
          },
          move || {
            sbj_complete.complete();
          },
        );''', '''        let observer = feeder(&subject);'''), ('''impl<'a, Item> Observable<'a, Item>''', '''fn feeder<'a, Item>(
  subject: &subjects::ReplaySubject<'a, Item>,
) -> Observer<'a, Item>
where
  Item: Clone + Send + Sync,
{
  let (n, e, c) = (subject.clone(), subject.clone(), subject.clone());
  Observer::new(move |x| n.next(x), move |x| e.error(x), move || c.complete())
}

impl<'a, Item> Observable<'a, Item>'''))
ref('observables/from_iter.rs', 'loop as tw', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    for x in it.clone().take_while(|_| s.is_subscribed()) { s.next(x); }
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as tfe', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    let _ = it.clone().try_for_each(|x| { if !s.is_subscribed() { return Err(()); } s.next(x); Ok(()) });
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as tfe2', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    if it.clone().try_for_each(|x| { if !s.is_subscribed() { return None; } s.next(x); Some(()) }).is_none() { return; }
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as any', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    if it.clone().any(|x| { if s.is_subscribed() { s.next(x); false } else { true } }) { return; }
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as all', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    let fin = it.clone().all(|x| { s.next(x); s.is_subscribed() });
    if !fin { return; }
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as enum', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    for (_i, x) in it.clone().enumerate() { if !s.is_subscribed() { break; } s.next(x); }
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as filt', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    for x in it.clone().filter(|_| true) { if !s.is_subscribed() { break; } s.next(x); }
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as map', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    for x in it.clone().map(|x| x).inspect(|_| {}) { if !s.is_subscribed() { break; } s.next(x); }
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as find', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    let r = it.clone().find(|x| { if !s.is_subscribed() { return true; } s.next(x.clone()); false });
    if r.is_some() { return; }
    if s.is_subscribed() {
      s.complete();
    }'''))
ref('observables/from_iter.rs', 'loop as events', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    let evs = it.clone().map(Some).chain(std::iter::once(None));
    for e in evs { if !s.is_subscribed() { return; } match e { Some(x) => s.next(x), None => s.complete() } }
'''))
ref('observables/from_iter.rs', 'loop as cnt', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    let mut n = 0usize; for x in it.clone() { n += 1; if !s.is_subscribed() { break; } s.next(x); if n == 0 { return; } }
    if s.is_subscribed() {
      s.complete();
    }'''))
ORIG_ITER = '''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }'''
RANGE = '''    for n in initial..(initial + count) {
      if !s.is_subscribed() {
        break;
      }
      s.next(n.clone());
    }'''
for w, b in {
  'for each': '(initial..initial + count).take_while(|_| s.is_subscribed()).for_each(|n| s.next(n));',
  'offsets': 'for k in 0..count { if !s.is_subscribed() { break; } s.next(initial + k); }',
  'offsets mapped': 'for n in (0..count).map(|k| k + initial) { if !s.is_subscribed() { break; } s.next(n); }',
  'down': 'let mut left = count; while left > 0 { if !s.is_subscribed() { break; } s.next(initial + (count - left)); left -= 1; }',
  'loop': 'let mut n = initial; loop { if n >= initial + count || !s.is_subscribed() { break; } s.next(n); n += 1; }',
  'all': 'let _ = (initial..initial + count).all(|n| { s.next(n); s.is_subscribed() });',
  'inclusive': 'for n in initial..=(initial + count - 1) { if !s.is_subscribed() { break; } s.next(n); }',
  'iterator': 'let mut it = initial..(initial + count); while let Some(n) = it.next() { if !s.is_subscribed() { break; } s.next(n); }',
  'try for each': 'let _ = (initial..initial + count).try_for_each(|n| if s.is_subscribed() { s.next(n); Ok(()) } else { Err(()) });',
}.items():
  ref('observables/range.rs', w, (RANGE, b))
REPEAT = '''    while s.is_subscribed() {
      s.next(x.clone());
    }'''
for w, b in {
  'loop': 'loop { if !s.is_subscribed() { return; } s.next(x.clone()); }',
  'iter repeat': 'for y in std::iter::repeat(x.clone()).take_while(|_| s.is_subscribed()) { s.next(y); }',
  'repeat with': 'std::iter::repeat_with(|| x.clone()).take_while(|_| s.is_subscribed()).for_each(|y| s.next(y));',
  'endless range': 'for _ in 0u64.. { if !s.is_subscribed() { break; } s.next(x.clone()); }',
  'local clone': 'let y = x.clone(); let o = s; while o.is_subscribed() { o.next(y.clone()); }',
}.items():
  ref('observables/repeat.rs', w, (REPEAT, b))
ref('observables/range.rs', 'from and take', (RANGE, 'for n in (initial..).take(count.max(0) as usize) { if !s.is_subscribed() { break; } s.next(n); }'))
ref('observables/range.rs', 'zipped', (RANGE, 'for (n, _) in (initial..).zip(0..count) { if !s.is_subscribed() { break; } s.next(n); }'))
ref('observables/from_iter.rs', 'zipped with a counter', (ORIG_ITER, '''    for (x, _k) in it.clone().zip(0u64..) {
      if !s.is_subscribed() { break; }
      s.next(x);
    }
    if s.is_subscribed() { s.complete(); }'''))
