"""Bugs by hand: (file, "Cxx what", (from, to)...).  BUG=1 MAN=tools/bugs.py tools/mutate.py OUT JOBS:
every one must be refuted by a task of the property it names."""
CASES = []


def bug(prop, rel, what, *reps):
    CASES.append((rel, prop + ' ' + what, list(reps)))


SC, OB, FW, SU = 'internals/stream_controller.rs', 'observer.rs', 'internals/function_wrapper.rs', 'subscription.rs'
O = 'operators/%s.rs'
S = 'subjects/%s.rs'

# ------------------------------------------------------------------ Observer, FunctionWrapper, Subscription
bug('C19', OB, 'terminal decided by exists and clear', ('''    if self.fn_next.take() {
      self.fn_complete.clear();''', '''    if self.fn_next.exists() {
      self.fn_next.clear();
      self.fn_complete.clear();'''))
bug('C19', OB, 'complete decided by exists and clear', ('''    if self.fn_next.take() {
      self.fn_error.clear();''', '''    if self.is_subscribed() {
      self.fn_next.clear();
      self.fn_error.clear();'''))
bug('C01', OB, 'error leaves complete open', ('''      self.fn_complete.clear();
      self.teardown();
      self.fn_error''', '''      self.teardown();
      self.fn_error'''), ('''    if self.fn_next.take() {
      self.fn_error.clear();''', '''    if self.fn_complete.exists() {
      self.fn_next.clear();
      self.fn_error.clear();'''))
bug('C06', OB, 'teardown before closing in unsubscribe', ('''    self.fn_next.clear();
    self.fn_error.clear();
    self.fn_complete.clear();
    self.teardown();
  }
  pub fn is''', '''    self.teardown();
    self.fn_next.clear();
    self.fn_error.clear();
    self.fn_complete.clear();
  }
  pub fn is'''))
bug('C06', OB, 'late teardown dropped', ('''    if !self.is_subscribed() {
      // too late, the subscription has already ended
      self.teardown();
    }''', ''))
bug('C06', OB, 'set_on_unsubscribe checks first', ('''    *self.fn_on_unsubscribe.write().unwrap() =
      Some(FunctionWrapper::new(move |_| f()));
    if !self.is_subscribed() {
      // too late, the subscription has already ended
      self.teardown();
    }''', '''    if !self.is_subscribed() {
      f();
      return;
    }
    *self.fn_on_unsubscribe.write().unwrap() =
      Some(FunctionWrapper::new(move |_| f()));'''))
bug('C07', OB, 'teardown under the lock', ('''    let f = self.fn_on_unsubscribe.write().unwrap().take();
    if let Some(f) = f {
      f.call(());
    }''', '''    if let Some(f) = self.fn_on_unsubscribe.write().unwrap().take() {
      f.call(());
    }'''))
bug('C17', OB, 'teardown kept', ('''    let f = self.fn_on_unsubscribe.write().unwrap().take();''', '''    let f = self.fn_on_unsubscribe.read().unwrap().clone();'''))
bug('C05', OB, 'is_subscribed by error only', ('''self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()''', '''self.fn_next.exists() || self.fn_complete.exists()'''),
    ('''    self.fn_next.clear();
    self.fn_error.clear();
    self.fn_complete.clear();
    self.teardown();''', '''    self.fn_next.clear();
    self.fn_error.clear();
    self.teardown();'''))
bug('C19', FW, 'call and clear in two steps', ('''      let mut f = self.inner.write().unwrap();
      if let Some(x) = &*f {
        let x = x.clone();
        *f = None;
        Some(x)
      } else {
        None
      }
    };''', '''      let f = self.fetch_function();
      self.clear();
      f
    };'''))
bug('C07', FW, 'call with the read lock held', ('''    if let Some(ff) = self.fetch_function() {
      Some((ff.func)(indata))
    } else {
      None
    }''', '''    let inner = self.inner.read().unwrap();
    if let Some(ff) = &*inner {
      Some((ff.func)(indata))
    } else {
      None
    }'''))
bug('C07', FW, 'function dropped under the lock', ('''    let f = self.inner.write().unwrap().take();
    f.is_some()''', '''    let mut inner = self.inner.write().unwrap();
    let had = inner.is_some();
    *inner = None;
    had'''))
bug('C05', SU, 'is_subscribed once', ('''self.fn_is_subscribed.call_if_available(())''', '''self.fn_is_subscribed.call_and_clear_if_available(())'''))
bug('C05', SU, 'unsubscribe by exists', ('''    self.fn_unsubscribe.call_and_clear_if_available(());''', '''    if self.is_subscribed() {
      self.fn_unsubscribe.clear();
    }'''))
bug('C06', 'observable.rs', 'closed observers are subscribed', ('''    if observer.is_subscribed() {
      self.source.call(observer.clone());
    }''', '''    self.source.call(observer.clone());'''))
# ------------------------------------------------------------------ StreamController
bug('C06', SC, 'new_observer checks before it registers', ('''    self.unscribers.write().unwrap().insert(
      serial.clone(),
      FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
    );
    if !self.subscriber.is_subscribed() {
      // too late, the subscription has already ended
      self.finalize();
    }
    observer''', '''    if !self.subscriber.is_subscribed() {
      // too late, the subscription has already ended
      self.finalize();
    }
    self.unscribers.write().unwrap().insert(
      serial.clone(),
      FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
    );
    observer'''))
bug('C07', SC, 'finalize holds the lock', ('''    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
    unscribers.iter().for_each(|x| {
      x.1.call(());
    });''', '''    let mut unscribers = self.unscribers.write().unwrap();
    unscribers.iter().for_each(|x| {
      x.1.call(());
    });
    unscribers.clear();
    drop(unscribers);'''))
bug('C11', SC, 'sink_complete in two steps', ('''      let (o, done_all) = {
        let mut observers = self.unscribers.write().unwrap();
        let o = observers.remove(serial);
        (o, observers.len() == 0)
      };
      if let Some(o) = o {
        o.call(());
      }''', '''      let o = self.unscribers.read().unwrap().get(serial).cloned();
      if let Some(o) = o {
        o.call(());
      }
      let done_all = self.unscribers.read().unwrap().len() <= 1;
      self.unscribers.write().unwrap().remove(serial);'''))
bug('C03', SC, 'abort completes when nothing is left', ('''    let o = self.unscribers.write().unwrap().remove(serial);
    if let Some(o) = o {
      o.call(());
    }''', '''    let (o, empty) = {
      let mut u = self.unscribers.write().unwrap();
      let o = u.remove(serial);
      (o, u.is_empty())
    };
    if let Some(o) = o {
      o.call(());
      if empty {
        self.subscriber.complete();
      }
    }'''))
bug('C06', SC, 'sink_next on an ended subscription does not release', ('''      self.subscriber.next(x);
    } else {
      self.finalize();
    }''', '''      self.subscriber.next(x);
    }'''), ('''    if !self.subscriber.is_subscribed() {
      // too late, the subscription has already ended
      self.finalize();
    }
    observer''', '''    observer'''))
bug('C15', SC, 'on_finalize lost when finalized before', ('''    *self.on_finalize.write().unwrap() =
      Some(FunctionWrapper::new(move |_| f()));
    if !self.subscriber.is_subscribed() {
      // too late, the subscription has already ended
      self.finalize();
    }''', '''    *self.on_finalize.write().unwrap() =
      Some(FunctionWrapper::new(move |_| f()));'''))
bug('C04', SC, 'sink_error finalizes first', ('''      self.subscriber.error(e);
      self.finalize();
    } else {''', '''      self.finalize();
      self.subscriber.error(e);
    } else {'''))
bug('C11', SC, 'number read and advanced in two steps', ('''      let mut x = self.serial.write().unwrap();
      let ret = *x;
      *x += 1;
      ret''', '''      let ret = *self.serial.read().unwrap();
      *self.serial.write().unwrap() = ret + 1;
      ret'''))
# ------------------------------------------------------------------ combining
bug('C11', O % 'zip', 'filled looked up before', ('''          let mut re = re.write().unwrap();
          let filled = re.iter().filter(|x| x.len() > 0).count();
          if filled == re.len() {''', '''          let filled = re.read().unwrap().iter().filter(|x| x.len() > 0).count();
          let mut re = re.write().unwrap();
          if filled == re.len() {'''))
bug('C03', O % 'zip', 'one row per item only when both are of one length', ('''          let filled = re.iter().filter(|x| x.len() > 0).count();
          if filled == re.len() {''', '''          let filled = re.iter().filter(|x| x.len() == re[0].len()).count();
          if filled == re.len() && re[0].len() > 0 {'''))
bug('C03', O % 'merge', 'inputs beyond the second are lost', ('''      observables.iter().for_each(|o| {''', '''      observables.iter().take(2).for_each(|o| {'''))
bug('C03', O % 'merge', 'observers made when subscribed', ('''      source.inner_subscribe(sbs.pop().unwrap());
      observables.iter().for_each(|o| {
        o.inner_subscribe(sbs.pop().unwrap());
      });''', '''      observables.iter().for_each(|o| {
        o.inner_subscribe(sbs.pop().unwrap());
      });
      source.inner_subscribe(sbs.pop().unwrap());'''))
bug('C04', O % 'flat_map', 'an inner error is swallowed', ('''            move |_, ee| {
              sctl_next_error.sink_error(ee);
            },''', '''            move |serial, _ee| {
              sctl_next_error.sink_complete(&serial);
            },'''))
bug('C03', O % 'concat', 'the next is subscribed before the queue is advanced', ('''        let o = observables.write().unwrap().pop_front().unwrap();''', '''        let o = observables.write().unwrap().pop_back().unwrap();'''))
bug('C07', O % 'concat', 'subscribes with the queue locked', ('''        let o = observables.write().unwrap().pop_front().unwrap();
''', '''        let mut waiting = observables.write().unwrap();
        let o = waiting.pop_front().unwrap();
'''), ('''          move |_| {
            complete_and_next(
              idx + 1,
              Arc::clone(&observables),
              sctl_complete.clone(),
            );
          },''', '''          {
            let observables = Arc::clone(&observables);
            move |_| {
              complete_and_next(
                idx + 1,
                Arc::clone(&observables),
                sctl_complete.clone(),
              );
            }
          },'''))
bug('C14', O % 'concat', 'the queue outlives the subscription', ('''    let observables = self.observables.clone();
    Observable::create(move |s| {
      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
        observables.clone().into_iter(),
      )));
''', '''    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
      self.observables.clone().into_iter(),
    )));
    Observable::create(move |s| {
      let observables = Arc::clone(&observables);
'''))
bug('C04', O % 'concat', 'an error moves on', ('''          move |_, e| {
            sctl_error.sink_error(e);
          },
          move |_| {
            complete_and_next(
              idx + 1,''', '''          move |_, e| {
            if idx > 1 {
              sctl_error.sink_complete_force();
            }
            sctl_error.sink_error(e);
          },
          move |_| {
            complete_and_next(
              idx + 1,'''))
bug('C03', O % 'amb', 'an error does not win', ('''              move |serial, e| {
                if is_win_error(&serial) {
                  sctl_error.sink_error(e);
                } else {
                  sctl_error.upstream_abort_observe(&serial);
                }
              },''', '''              move |serial, e| {
                if is_win_error(&serial) {
                  sctl_error.sink_error(e);
                } else {
                  sctl_error.sink_error(e);
                }
              },'''))
bug('C06', O % 'amb', 'a loser that completes stays', ('''                if is_win_complete(&serial) {
                  sctl_complete.sink_complete_force();
                } else {
                  sctl_complete.upstream_abort_observe(&serial);
                }''', '''                if is_win_complete(&serial) {
                  sctl_complete.sink_complete(&serial);
                } else {
                  sctl_complete.upstream_abort_observe(&serial);
                }'''))
bug('C06', O % 'take_until', 'trigger kept after source completed', ('''          move |_| sctl_complete.sink_complete_force(), // trigger also unsubscribe''', '''          move |serial| {
            sctl_complete.sink_next_complete(&serial)
          },'''), ('''impl<'a, Item, TriggerValue> TakeUntil<'a, Item, TriggerValue>''', '''impl<'a, Item> crate::internals::stream_controller::StreamController<'a, Item>
where
  Item: Clone + Send + Sync,
{
  fn sink_next_complete(&self, serial: &i32) {
    self.upstream_abort_observe(serial);
    self.sink_complete(serial);
  }
}

impl<'a, Item, TriggerValue> TakeUntil<'a, Item, TriggerValue>'''))
bug('C03', O % 'take_until', 'source first', ('''      trigger.inner_subscribe(obs_trigger);
      source.inner_subscribe(obs_source);''', '''      source.inner_subscribe(obs_source);
      trigger.inner_subscribe(obs_trigger);'''))
bug('C03', O % 'skip_until', 'a trigger that completes opens', ('''          |_, _| {},
          |_| {},''', '''          |_, _| {},
          {
            let enable = Arc::clone(&enable);
            move |_| *enable.write().unwrap() = true
          },'''))
bug('C03', O % 'skip_until', 'source first', ('''      trigger.inner_subscribe(obs_trigger);
      source.inner_subscribe(obs_source);''', '''      source.inner_subscribe(obs_source);
      trigger.inner_subscribe(obs_trigger);'''))
bug('C03', O % 'sample', 'an item sampled twice', ('''              let vv = v.clone();
              *v = None;
              vv''', '''              let vv = v.clone();
              vv'''))
bug('C03', O % 'sample', 'the rest is delivered at the end', ('''          move |_| sctl_complete.sink_complete_force(), // trigger also unsubscribe''', '''          {
            let value = Arc::clone(&value);
            move |_| {
              let last = value.write().unwrap().take();
              if let Some(x) = last {
                sctl_complete.sink_next(x);
              }
              sctl_complete.sink_complete_force()
            }
          },'''))
bug('C03', O % 'switch_on_next', 'source may complete the whole', ('''          move |serial| sctl_complete.sink_complete(&serial),
        )
      };

      let obs_target''', '''          move |_| sctl_complete.sink_complete_force(),
        )
      };

      let obs_target'''))
bug('C04', O % 'retry', 'the failed attempt stays', ('''              sctl_error.upstream_abort_observe(&serial);
              do_subscribe(''', '''              let _ = serial;
              do_subscribe('''))
bug('C04', O % 'retry', 'one attempt too many from the second on', ('''            if max_retry == 0 || n < max_retry {''', '''            if max_retry == 0 || n < max_retry || (n == max_retry && n > 2) {'''))
bug('C03', 'utils/ready_set_go.rs', 'go before ready', ('''    o.inner_subscribe(s);
    f();''', '''    f();
    o.inner_subscribe(s);'''))
# ------------------------------------------------------------------ take & co under threads
bug('C11', O % 'take', 'counted under a read lock', ('''            let mut n = n.write().unwrap();
            let nn = *n;
            *n += 1;
            (nn < count, (nn + 1) >= count)''', '''            let nn = *n.read().unwrap();
            *n.write().unwrap() = nn + 1;
            (nn < count, (nn + 1) >= count)'''))
bug('C06', O % 'take', 'completes with the upstream open', ('''            sctl_next.upstream_abort_observe(&serial);
            sctl_next.sink_complete(&serial);
            sctl_next.finalize();''', '''            sctl_next.sink_complete(&serial);'''), ('''          if complete {
''', '''          if complete && emit {
'''), ('''(nn < count, (nn + 1) >= count)''', '''(nn < count, nn >= count)'''))
bug('C02', O % 'take', 'take(0) passes one', ('''(nn < count, (nn + 1) >= count)''', '''(nn < count.max(1), (nn + 1) >= count)'''))
# ------------------------------------------------------------------ single-source
bug('C02', O % 'buffer_with_count', 'leftover delivered on error', ('''          move |_, e| {
            sctl_error.sink_error(e);
          },''', '''          {
            let results = Arc::clone(&results);
            move |_, e| {
              let rest = results.read().unwrap().clone();
              if rest.len() > 1 {
                sctl_error.sink_next(rest);
              }
              sctl_error.sink_error(e);
            }
          },'''))
bug('C02', O % 'window_with_count', 'the last window is not ended when it is empty', ('''          sbj.complete();
          sctl_complete.sink_complete(&serial);''', '''          sctl_complete.sink_complete(&serial);
          let _ = sbj;'''))
bug('C04', O % 'window_with_count', 'the windows complete on error', ('''          sbj.error(e.clone());''', '''          sbj.complete();'''))
bug('C02', O % 'group_by', 'the group is told before it is announced', ('''          if opened {
            sctl_next.sink_next(sbj.observable());
          }
          sbj.next(x);''', '''          sbj.next(x);
          if opened {
            sctl_next.sink_next(sbj.observable());
          }'''))
bug('C14', O % 'group_by', 'the groups are shared by the subscriptions', ('''    let f = self.key_f.clone();

    Observable::create(move |s| {
      let f = f.clone();

      let sbjmap = Arc::new(RwLock::new(HashMap::<
        Key,
        subjects::Subject<Item>,
      >::new()));
''', '''    let f = self.key_f.clone();
    let sbjmap = Arc::new(RwLock::new(HashMap::<
      Key,
      subjects::Subject<Item>,
    >::new()));

    Observable::create(move |s| {
      let f = f.clone();
      let sbjmap = Arc::clone(&sbjmap);
'''))
bug('C16', O % 'timeout', 'a nested timer is left running', ('''            let prev = timer.write().unwrap().replace(next);
            if let Some(prev) = prev {
              prev.unsubscribe();
            }''', '''            *timer.write().unwrap() = Some(next);'''))
bug('C16', O % 'delay', 'slept only when subscribed', ('''          thread::sleep(dur);
          sctl_next.sink_next(x);''', '''          sctl_next.sink_next(x);
          thread::sleep(dur);'''))
bug('C15', O % 'debounce', 'the worker is not stopped', ('''        sctl.set_on_finalize(move || {
          scheduler.abort();
        });''', '''        let sctl_f = sctl.clone();
        sctl.set_on_finalize(move || {
          if sctl_f.is_subscribed() {
            scheduler.abort();
          }
        });'''))
bug('C15', O % 'observe_on', 'the hook is set after the subscription', ('''      let scheduler_on_finalize = scheduler.clone();
      sctl.set_on_finalize(move || {
        scheduler_on_finalize.abort();
      });

      source_next.inner''', '''      let scheduler_on_finalize = scheduler.clone();
      let sctl_f = sctl.clone();
      source_next.inner'''), ('''            sctl_complete.sink_complete(&serial);
          });
        },
      ));''', '''            sctl_complete.sink_complete(&serial);
          });
        },
      ));
      if sctl_f.is_subscribed() {
        sctl_f.set_on_finalize(move || {
          scheduler_on_finalize.abort();
        });
      }'''))
bug('C09', O % 'observe_on', 'complete goes directly when nothing was emitted', ('''        move |serial| {
          let sctl_complete = sctl_complete.clone();
          scheduler_complete.post(move || {
            sctl_complete.sink_complete(&serial);
          });
        },''', '''        move |serial| {
          scheduler_complete.abort();
          sctl_complete.sink_complete(&serial);
        },'''))
bug('C09', O % 'subscribe_on', 'abort when the source has completed its subscription', ('''          move |serial| sctl_complete.sink_complete(&serial),
        ));
      });''', '''          move |serial| sctl_complete.sink_complete(&serial),
        ));
        sctl.finalize();
      });'''))
# ------------------------------------------------------------------ sources
bug('C16', 'observables/interval.rs', 'starts at one', ('''let mut n = 0;''', '''let mut n = 1;'''))
bug('C15', 'observables/interval.rs', 'leaves without stopping its scheduler', ('''        if !s.is_subscribed() {
          break;
        }''', '''        if !s.is_subscribed() {
          return;
        }'''))
bug('C16', 'observables/interval.rs', 'looks before it sleeps', ('''        thread::sleep(dur);
        if !s.is_subscribed() {
          break;
        }''', '''        if !s.is_subscribed() {
          break;
        }
        thread::sleep(dur);
        if n > 4 && n % 2 == 0 {
          thread::sleep(dur);
        }'''))
bug('C07', 'observables/repeat.rs', 'never looks', ('''    while s.is_subscribed() {
      s.next(x.clone());
    }''', '''    if s.is_subscribed() {
      loop {
        s.next(x.clone());
      }
    }'''))
bug('C14', 'observables/from_iter.rs', 'the iterator is shared', ('''  Observable::create(move |s| {
    for x in it.clone() {''', '''  let it = std::sync::Arc::new(std::sync::RwLock::new(it));
  Observable::create(move |s| {
    while let Some(x) = { let mut i = it.write().unwrap(); i.next() } {'''))
# ------------------------------------------------------------------ subjects
bug('C10', S % 'subject', 'serial taken from the number of observers', ('''      let serial = {
        let mut serial = serial.write().unwrap();
        *serial += 1;
        *serial
      };''', '''      let serial = {
        let _ = serial.read().unwrap();
        observers.read().unwrap().len() as i32
      };'''))
bug('C07', S % 'subject', 'next under the lock', ('''    self
      .fetch_observers()
      .into_iter()
      .for_each(move |x| x.next(item.clone()));''', '''    self
      .observers
      .read()
      .unwrap()
      .iter()
      .for_each(move |x| x.1.next(item.clone()));'''))
bug('C10', S % 'subject', 'observers kept after a terminal', ('''    let obs = std::mem::take(&mut *self.observers.write().unwrap());
    obs.into_iter().for_each(|x| x.1.complete());''', '''    self.fetch_observers().into_iter().for_each(|x| x.complete());'''))
bug('C10', S % 'subject', 'a newcomer during the terminal is dropped', ('''    let obs = std::mem::take(&mut *self.observers.write().unwrap());
    obs.into_iter().for_each(|x| x.1.complete());''', '''    let obs = self.observers.read().unwrap().clone();
    obs.into_iter().for_each(|x| x.1.complete());
    self.observers.write().unwrap().clear();'''))
bug('C12', S % 'subject', 'insertion replaces the map', ('''        let mut observers = observers.write().unwrap();
        observers.insert(serial, s.clone());
        observers.len()''', '''        let mut copy = observers.read().unwrap().clone();
        copy.insert(serial, s.clone());
        let len = copy.len();
        *observers.write().unwrap() = copy;
        len'''))
bug('C10', S % 'subject', 'hook before insert', ('''      if !s.is_subscribed() {
        // ended meanwhile, maybe before it was inserted
        observers.write().unwrap().remove(&serial);
        return;
      }''', '''      if !s.is_subscribed() {
        return;
      }'''))
bug('C12', S % 'behavior_subject', 'delivers before it stores', ('''    if let Some(n) = self.set(Material::Next(item.clone())) {
      self.subject.next((n, item));
    }''', '''    let n = self.current.read().unwrap().0 + 1;
    self.subject.next((n, item.clone()));
    self.set(Material::Next(item));'''))
bug('C12', S % 'behavior_subject', 'reads the value before it subscribes', ('''      subject.observable().inner_subscribe(observer);

      let (n, m) = current.read().unwrap().clone();''', '''      let (n, m) = current.read().unwrap().clone();
      subject.observable().inner_subscribe(observer);
'''))
bug('C12', S % 'behavior_subject', 'the waiting room closes before it is empty', ('''            Some(w) if w.len() > 0 => Some(w.remove(0)),
            _ => {
              *waiting = None;
              None
            }''', '''            Some(w) if w.len() > 0 => {
              let first = w.remove(0);
              if w.is_empty() {
                *waiting = None;
              }
              Some(first)
            }
            _ => {
              *waiting = None;
              None
            }'''))
bug('C10', S % 'behavior_subject', 'the number goes round', ('''      current.0 += 1;''', '''      current.0 = (current.0 + 1) % 1024;'''))
bug('C10', S % 'behavior_subject', 'a value after the terminal is stored', ('''    if let Material::Next(_) = current.1 {
      current.0 += 1;
      current.1 = m;
      Some(current.0)
    } else {
      None
    }''', '''    let open = match current.1 {
      Material::Next(_) => true,
      _ => false,
    };
    current.1 = m;
    if open {
      current.0 += 1;
      Some(current.0)
    } else {
      None
    }'''))
bug('C12', S % 'replay_subject', 'the cursor is released in a step of its own', ('''              let m = history.read().unwrap().get(cursor.0).cloned();
              if m.is_some() {
                cursor.0 += 1;
              } else {
                cursor.1 = false;
              }
              m
            };''', '''              let m = history.read().unwrap().get(cursor.0).cloned();
              if m.is_some() {
                cursor.0 += 1;
              }
              m
            };
            if m.is_none() {
              cursor.write().unwrap().1 = false;
            }'''))
bug('C12', S % 'replay_subject', 'not played again after subscribing', ('''      subject.observable().inner_subscribe(observer);
      play();''', '''      subject.observable().inner_subscribe(observer);'''))
bug('C12', S % 'replay_subject', 'told before it is stored', ('''    if self.push(Material::Next(item.clone())) {
      self.subject.next(item);
    }''', '''    self.subject.next(item.clone());
    self.push(Material::Next(item));'''))
bug('C10', S % 'replay_subject', 'the history is bounded', ('''        history.push(m);
        true''', '''        if history.len() >= 4096 {
          history.remove(0);
        }
        history.push(m);
        true'''))
bug('C10', S % 'async_subject', 'the last item is kept', ('''    let last_item = self.last_item.write().unwrap().take();''', '''    let last_item = self.last_item.read().unwrap().clone();'''), ('''  pub fn error(&self, err: RxError) {
    self.subject.error(err);''', '''  pub fn error(&self, err: RxError) {
    if self.last_item.read().unwrap().is_some() {
      self.complete();
    }
    self.subject.error(err);'''))
# ------------------------------------------------------------------ connectables
bug('C13', O % 'ref_count', 'an ended connection stays', ('''          if connection.as_ref().map_or(false, |o| o.is_subscribed()) {
            return;
          }''', '''          if connection.is_some() {
            return;
          }'''))
bug('C13', O % 'ref_count', 'known only after the source ran', ('''          // known before the source runs, so that it can be stopped from
          // inside of a synchronous source
          *connection = Some(observer.clone());
        }
        source.inner_subscribe(observer);''', '''        }
        source.inner_subscribe(observer.clone());
        *connection.write().unwrap() = Some(observer);'''))
bug('C13', O % 'replay', 'connects again after the source ended', ('''          if connection.is_some() {
            return;
          }''', '''          if connection.as_ref().map_or(false, |o| o.is_subscribed()) {
            return;
          }'''))
bug('C13', O % 'publish', 'subscribes the source early', ('''    Publish { sbj: Subject::<Item>::new(), source }''', '''    let sbj = Subject::<Item>::new();
    let sbj_next = sbj.without_hooks();
    source.subscribe(move |x| sbj_next.next(x), |_| {}, || {}).unsubscribe();
    Publish { sbj, source }'''))
bug('C07', O % 'ref_count', 'closes with the connection locked', ('''          let observer = connection.read().unwrap().clone();
          if let Some(observer) = observer {
            observer.unsubscribe();
          }''', '''          let mut connection = connection.write().unwrap();
          if let Some(observer) = connection.take() {
            observer.unsubscribe();
          }'''))
# ------------------------------------------------------------------ queue
Q = 'schedulers/async_function_queue.rs'
bug('C08', Q, 'an if instead of a while', ('''        let mut que_mtx = self
          .data
          .cond
          .wait_while(que_mtx, |que| {
            if *self.data.abort.read().unwrap() {
              false
            } else {
              que.is_empty()
            }
          })
          .unwrap();''', '''        let mut que_mtx = if que_mtx.is_empty() && !*self.data.abort.read().unwrap() {
          self.data.cond.wait(que_mtx).unwrap()
        } else {
          que_mtx
        };'''))
bug('C08', Q, 'told before it is pushed', ('''    let mut que_mtx = self.data.queue.lock().unwrap();
    que_mtx.push_back(FunctionWrapper::new(move |_| f()));
    self.data.cond.notify_one();''', '''    self.data.cond.notify_one();
    let mut que_mtx = self.data.queue.lock().unwrap();
    que_mtx.push_back(FunctionWrapper::new(move |_| f()));'''))
bug('C08', Q, 'told only when it was empty before, after a look without the lock', ('''    let mut que_mtx = self.data.queue.lock().unwrap();
    que_mtx.push_back(FunctionWrapper::new(move |_| f()));
    self.data.cond.notify_one();''', '''    let idle = self.data.queue.lock().unwrap().is_empty();
    self.data.queue.lock().unwrap().push_back(FunctionWrapper::new(move |_| f()));
    if idle {
      self.data.cond.notify_one();
    }'''))
bug('C07', Q, 'runs with the queue locked', ('''        if *self.data.abort.read().unwrap() {
          None
        } else {
          que_mtx.pop_front()
        }
      };''', '''        let f = if *self.data.abort.read().unwrap() {
          None
        } else {
          que_mtx.pop_front()
        };
        if que_mtx.is_empty() {
          if let Some(f) = f {
            f.call(());
            continue;
          }
          break;
        }
        f
      };'''))
bug('C08', Q, 'posts after stop run', ('''        if *self.data.abort.read().unwrap() {
          None
        } else {
          que_mtx.pop_front()
        }''', '''        if *self.data.abort.read().unwrap() && que_mtx.is_empty() {
          None
        } else {
          que_mtx.pop_front()
        }'''))
bug('C15', Q, 'stop tells only when idle', ('''    que_mtx.clear();
    *self.data.abort.write().unwrap() = true;
    self.data.cond.notify_one();''', '''    let idle = que_mtx.is_empty();
    que_mtx.clear();
    *self.data.abort.write().unwrap() = true;
    if !idle {
      self.data.cond.notify_one();
    }'''))
bug('C02', 'observables/from_iter.rs', 'stops after many: take', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    let mut n = 0; for x in it.clone().take_while(|_| { n += 1; n < 70 }) { if !s.is_subscribed() { break; } s.next(x); }
    if s.is_subscribed() {
      s.complete();
    }'''))
bug('C02', 'observables/from_iter.rs', 'stops after many: enum', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    for (i, x) in it.clone().enumerate() { if !s.is_subscribed() { break; } if i < 70 { s.next(x); } }
    if s.is_subscribed() {
      s.complete();
    }'''))
bug('C02', 'observables/from_iter.rs', 'stops after many: any', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    let mut n = 0; it.clone().any(|x| { n += 1; if n > 70 { return true; } s.next(x); !s.is_subscribed() });
    if s.is_subscribed() {
      s.complete();
    }'''))
bug('C02', 'observables/from_iter.rs', 'stops after many: cnt', ('''    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }
    if s.is_subscribed() {
      s.complete();
    }''', '''    let mut n = 0usize; for x in it.clone() { n += 1; if !s.is_subscribed() || n > 99 { break; } s.next(x); }
    if s.is_subscribed() {
      s.complete();
    }'''))
