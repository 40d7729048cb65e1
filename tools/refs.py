# Hand-written variants that behave the same, in the manner of a maintainer tidying up:
# MAN=tools/refs.py python3-vt tools/mutate.py OUT.jsonl JOBS     (all are expected to SURVIVE)
CASES = []


def case(rel, what, *reps):
    CASES.append((rel, what, reps))


T = 'operators/take.rs'
case(T, 'atomic ticket', ('''let n = Arc::new(RwLock::new(0));''', '''let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));'''),
     ('''          let (emit, complete) = {
            let mut n = n.write().unwrap();
            let nn = *n;
            *n += 1;
            (nn < count, (nn + 1) >= count)
          };
''', '''          let nn = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
          let (emit, complete) = (nn < count, (nn + 1) >= count);
'''))
case(T, 'countdown', ('''RwLock::new(0)''', '''RwLock::new(count)'''),
     ('''            let nn = *n;
            *n += 1;
            (nn < count, (nn + 1) >= count)
''', '''            let left = *n;
            *n = left.saturating_sub(1);
            (left > 0, left <= 1)
'''))
case(T, 'early return', ('''          if emit {
            sctl_next.sink_next(x);
          }
          if complete {
            sctl_next.upstream_abort_observe(&serial);
            sctl_next.sink_complete(&serial);
            sctl_next.finalize();
          }
''', '''          if emit {
            sctl_next.sink_next(x);
          }
          if !complete {
            return;
          }
          let sctl = &sctl_next;
          sctl.upstream_abort_observe(&serial);
          sctl.sink_complete(&serial);
          sctl.finalize();
'''))
case(T, 'struct of state', ('''let n = Arc::new(RwLock::new(0));''', '''struct Progress { taken: usize, limit: usize }
      impl Progress {
        fn advance(&mut self) -> (bool, bool) {
          let emit = self.taken < self.limit;
          self.taken += 1;
          (emit, self.taken >= self.limit)
        }
      }
      let n = Arc::new(RwLock::new(Progress { taken: 0, limit: count }));'''),
     ('''            let mut n = n.write().unwrap();
            let nn = *n;
            *n += 1;
            (nn < count, (nn + 1) >= count)
''', '''            n.write().unwrap().advance()
'''))
B = 'operators/buffer_with_count.rs'
case(B, 'mem::take', ('''            let v = vec.clone();
            vec.clear();
            Some(v)
''', '''            Some(std::mem::take(&mut *vec))
'''))
case(B, 'mem::replace, >=', ('vec.len() == count', 'vec.len() >= count'), ('''            let v = vec.clone();
            vec.clear();
            Some(v)
''', '''            Some(std::mem::replace(&mut *vec, Vec::with_capacity(count)))
'''))
case(B, 'drain', ('''            let v = vec.clone();
            vec.clear();
            Some(v)
''', '''            let full: Vec<Item> = vec.drain(..).collect();
            Some(full)
'''))
case(B, 'then_some', ('''          if vec.len() == count {
            let v = vec.clone();
            vec.clear();
            Some(v)
          } else {
            None
          }
''', '''          (vec.len() == count).then(|| std::mem::take(&mut *vec))
'''), ('if vec.len() > 0 {', 'if !vec.is_empty() {'))
case(B, 'take at the end', ('''            let vec = results.read().unwrap().clone();
            if vec.len() > 0 {
              sctl_complete.sink_next(vec);
            }
''', '''            let rest = std::mem::take(&mut *results.write().unwrap());
            if !rest.is_empty() {
              sctl_complete.sink_next(rest);
            }
'''))
W = 'operators/window_with_count.rs'
case(W, 'one lock', ('''      let n = Arc::new(RwLock::new(0));
      let sbj = Arc::new(RwLock::new(
        subjects::Subject::<Item>::new(),
      ));
''', '''      let state = Arc::new(RwLock::new((0, subjects::Subject::<Item>::new())));
'''), ('let sbj_next = Arc::clone(&sbj);', 'let state_next = Arc::clone(&state);'), ('let sbj_error = Arc::clone(&sbj);', 'let state_error = Arc::clone(&state);'),
     ('let sbj_complete = Arc::clone(&sbj);', 'let state_complete = Arc::clone(&state);'),
     ('''            let mut n = n.write().unwrap();
            let mut sbj = sbj_next.write().unwrap();
            let current = sbj.clone();
            let opened = *n == 0;
            *n += 1;
            let filled = *n >= count;
            if filled {
              *sbj = subjects::Subject::<Item>::new();
              *n = 0;
            }
            (current, opened, filled)
''', '''            let mut state = state_next.write().unwrap();
            let current = state.1.clone();
            let opened = state.0 == 0;
            state.0 += 1;
            let filled = state.0 >= count;
            if filled {
              *state = (0, subjects::Subject::<Item>::new());
            }
            (current, opened, filled)
'''), ('sbj_error.read().unwrap().clone()', 'state_error.read().unwrap().1.clone()'), ('sbj_complete.read().unwrap().clone()', 'state_complete.read().unwrap().1.clone()'))
case(W, 'replace', ('''            let current = sbj.clone();
            let opened = *n == 0;
            *n += 1;
            let filled = *n >= count;
            if filled {
              *sbj = subjects::Subject::<Item>::new();
              *n = 0;
            }
            (current, opened, filled)
''', '''            let opened = *n == 0;
            *n += 1;
            if *n >= count {
              *n = 0;
              (std::mem::replace(&mut *sbj, subjects::Subject::new()), opened, true)
            } else {
              (sbj.clone(), opened, false)
            }
'''))
G = 'operators/group_by.rs'
case(G, 'entry', ('''            if let Some(sbj) = sbjmap.get(&key) {
              (sbj.clone(), false)
            } else {
              let sbj = subjects::Subject::<Item>::new();
              sbjmap.insert(key, sbj.clone());
              (sbj, true)
            }
''', '''            let mut opened = false;
            let sbj = sbjmap.entry(key).or_insert_with(|| {
              opened = true;
              subjects::Subject::<Item>::new()
            });
            (sbj.clone(), opened)
'''))
case(G, 'match get cloned, for values', ('''            if let Some(sbj) = sbjmap.get(&key) {
              (sbj.clone(), false)
            } else {
              let sbj = subjects::Subject::<Item>::new();
              sbjmap.insert(key, sbj.clone());
              (sbj, true)
            }
''', '''            match sbjmap.get(&key).cloned() {
              Some(sbj) => (sbj, false),
              None => {
                let sbj = subjects::Subject::<Item>::new();
                sbjmap.insert(key, sbj.clone());
                (sbj, true)
              }
            }
'''), ('''          let sbjmap = sbjmap_error.read().unwrap().clone();
          sbjmap.iter().for_each(|x| {
            x.1.error(e.clone());
          });
''', '''          let groups: Vec<_> = sbjmap_error.read().unwrap().values().cloned().collect();
          for group in &groups {
            group.error(e.clone());
          }
'''), ('''          let sbjmap = sbjmap_complete.read().unwrap().clone();
          sbjmap.iter().for_each(|x| {
            x.1.complete();
          });
''', '''          let groups: Vec<_> = sbjmap_complete.read().unwrap().values().cloned().collect();
          for group in groups {
            group.complete();
          }
'''))
case(G, 'contains_key', ('''            if let Some(sbj) = sbjmap.get(&key) {
              (sbj.clone(), false)
            } else {
              let sbj = subjects::Subject::<Item>::new();
              sbjmap.insert(key, sbj.clone());
              (sbj, true)
            }
''', '''            let opened = !sbjmap.contains_key(&key);
            if opened {
              sbjmap.insert(key.clone(), subjects::Subject::<Item>::new());
            }
            (sbjmap[&key].clone(), opened)
'''))
Z = 'operators/zip.rs'
case(Z, 'all + collect', ('''          let filled = re.iter().filter(|x| x.len() > 0).count();
          if filled == re.len() {
            let mut v = Vec::new();
            for items in re.iter_mut() {
              v.push(items.pop_front().unwrap());
            }
            Some(v)
          } else {
            None
          }
''', '''          if re.iter().any(|q| q.is_empty()) {
            return None;
          }
          Some(re.iter_mut().filter_map(|q| q.pop_front()).collect::<Vec<Item>>())
'''))
case(Z, 'collect option', ('''          let filled = re.iter().filter(|x| x.len() > 0).count();
          if filled == re.len() {
            let mut v = Vec::new();
            for items in re.iter_mut() {
              v.push(items.pop_front().unwrap());
            }
            Some(v)
          } else {
            None
          }
''', '''          if re.iter().all(|q| !q.is_empty()) {
            re.iter_mut().map(|q| q.pop_front()).collect::<Option<Vec<_>>>()
          } else {
            None
          }
'''))
case(Z, 'index push, vec of queues', ('''        let mut r = Vec::<VecDeque<Item>>::new();
        (0..(observables.len() + 1)).for_each(|_| {
          r.push(VecDeque::<Item>::new());
        });
        r
''', '''        (0..=observables.len()).map(|_| VecDeque::<Item>::new()).collect::<Vec<_>>()
'''), ('''        results_f
          .write()
          .unwrap()
          .get_mut(id.clone())
          .unwrap()
          .push_back(item);
''', '''        results_f.write().unwrap()[*id].push_back(item);
'''))
case(Z, 'loop match', ('''        while let Some(items) = get() {
          if !sctl_f.is_subscribed() {
            break;
          }
          sctl_f.sink_next(items);
        }
''', '''        loop {
          match get() {
            Some(items) if sctl_f.is_subscribed() => sctl_f.sink_next(items),
            _ => break,
          }
        }
'''))
case(Z, 'sources chained', ('''      source.inner_subscribe(sbs.pop_front().unwrap());
      observables.iter().for_each(|o| {
        o.inner_subscribe(sbs.pop_front().unwrap());
      });
''', '''      for o in std::iter::once(&source).chain(observables.iter()) {
        if let Some(sb) = sbs.pop_front() {
          o.inner_subscribe(sb);
        }
      }
'''))
M = 'operators/merge.rs'
case(M, 'drain all', ('''      source.inner_subscribe(sbs.pop().unwrap());
      observables.iter().for_each(|o| {
        o.inner_subscribe(sbs.pop().unwrap());
      });
''', '''      source.inner_subscribe(sbs.remove(0));
      for (o, sb) in observables.iter().zip(sbs) {
        o.inner_subscribe(sb);
      }
'''))
case(M, 'helper fn', ('''      // prepare subscribers
      let mut sbs = {
        let sctl = sctl.clone();
        Vec::from_iter(
          (0..(observables.len() + 1)).map(move |_| {
            let sctl_next = sctl.clone();
            let sctl_error = sctl.clone();
            let sctl_complete = sctl.clone();

            sctl.new_observer(
              move |_, x| {
                sctl_next.sink_next(x);
              },
              move |_, e| {
                sctl_error.sink_error(e);
              },
              move |serial| sctl_complete.sink_complete(&serial),
            )
          }),
        )
      };

      source.inner_subscribe(sbs.pop().unwrap());
      observables.iter().for_each(|o| {
        o.inner_subscribe(sbs.pop().unwrap());
      });
''', '''      fn forward<'a, Item: Clone + Send + Sync>(sctl: &StreamController<'a, Item>) -> Observer<'a, Item> {
        let (sctl_next, sctl_error, sctl_complete) = (sctl.clone(), sctl.clone(), sctl.clone());
        sctl.new_observer(
          move |_, x| sctl_next.sink_next(x),
          move |_, e| sctl_error.sink_error(e),
          move |serial| sctl_complete.sink_complete(&serial),
        )
      }
      // all are registered before any is subscribed
      let sbs: Vec<_> = (0..=observables.len()).map(|_| forward(&sctl)).collect();
      let mut sbs = sbs.into_iter();
      source.inner_subscribe(sbs.next().unwrap());
      for (o, sb) in observables.iter().zip(sbs) {
        o.inner_subscribe(sb);
      }
'''))
C = 'operators/concat.rs'
case(C, 'pop in one step', ('''        if observables.read().unwrap().is_empty() {
          sctl.sink_complete_force();
          return;
        }
        let o = observables.write().unwrap().pop_front().unwrap();
''', '''        let next = observables.write().unwrap().pop_front();
        let o = match next {
          Some(o) => o,
          None => {
            sctl.sink_complete_force();
            return;
          }
        };
'''))
case(C, 'source first in the queue', ('''VecDeque::from_iter(
        observables.clone().into_iter(),
      )''', '''VecDeque::from_iter(
        std::iter::once(source.clone()).chain(observables.clone()),
      )'''), ('''        let complete_and_next = complete_and_next.clone();
        let sctl_error = sctl.clone();
        let sctl_next = sctl.clone();
        let sctl_complete = sctl.clone();
        let observables = Arc::clone(&observables);
        source.inner_subscribe(sctl.new_observer(
          move |_, x| {
            sctl_next.sink_next(x);
          },
          move |_, e| {
            sctl_error.sink_error(e);
          },
          move |_| {
            complete_and_next(
              0,
              Arc::clone(&observables),
              sctl_complete.clone(),
            );
          },
        ));
''', '''        complete_and_next(0, observables, sctl);
'''))
F = 'operators/flat_map.rs'
case(F, 'bind inner', ('''          f.call(x).inner_subscribe(sctl_next.new_observer(''', '''          let inner = f.call(x);
          let observer = (sctl_next.new_observer('''), ('''              sctl_next_complete.sink_complete(&serial);
            },
          ));
''', '''              sctl_next_complete.sink_complete(&serial);
            },
          ));
          inner.inner_subscribe(observer);
'''))
A = 'operators/amb.rs'
case(A, 'get_or_insert', ('''        if let Some(w) = &*w {
          *serial == *w
        } else {
          *w = Some(serial.clone());
          true
        }
''', '''        *w.get_or_insert(*serial) == *serial
'''))
case(A, 'match', ('''        if let Some(w) = &*w {
          *serial == *w
        } else {
          *w = Some(serial.clone());
          true
        }
''', '''        match *w {
          Some(won) => won == *serial,
          None => {
            *w = Some(*serial);
            true
          }
        }
'''))
case(A, 'swap branches', ('''                if is_win_next(&serial) {
                  sctl_next.sink_next(x);
                } else {
                  sctl_next.upstream_abort_observe(&serial);
                }
''', '''                if !is_win_next(&serial) {
                  sctl_next.upstream_abort_observe(&serial);
                  return;
                }
                sctl_next.sink_next(x);
'''))
case(A, 'compare_exchange', ('''      let winner = Arc::new(RwLock::new(None::<i32>));
''', '''      let winner = Arc::new(std::sync::atomic::AtomicI32::new(-1));
'''), ('''        let mut w = winner_check.write().unwrap();
        if let Some(w) = &*w {
          *serial == *w
        } else {
          *w = Some(serial.clone());
          true
        }
''', '''        use std::sync::atomic::Ordering::SeqCst;
        match winner_check.compare_exchange(-1, *serial, SeqCst, SeqCst) {
          Ok(_) => true,
          Err(won) => won == *serial,
        }
'''))
L = 'operators/combine_latest.rs'
case(L, 'collect option', ('''                  if latest.iter().all(|x| x.is_some()) {
                    let mut items = Vec::new();
                    for x in latest.iter() {
                      items.push(x.clone().unwrap());
                    }
                    Some(items)
                  } else {
                    None
                  }
''', '''                  latest.iter().cloned().collect::<Option<Vec<Item>>>()
'''))
case(L, 'filter_map', ('''                  if latest.iter().all(|x| x.is_some()) {
                    let mut items = Vec::new();
                    for x in latest.iter() {
                      items.push(x.clone().unwrap());
                    }
                    Some(items)
                  } else {
                    None
                  }
''', '''                  if latest.iter().any(Option::is_none) {
                    None
                  } else {
                    Some(latest.iter().flatten().cloned().collect::<Vec<_>>())
                  }
'''), ('''                if let Some(items) = items {
                  sctl_next.sink_next(combine_f.call(items));
                }
''', '''                let items = match items {
                  Some(items) => items,
                  None => return,
                };
                let combined = combine_f.call(items);
                sctl_next.sink_next(combined);
'''))
case(L, 'vec of none by map', ('''vec![None::<Item>; observables.len() + 1]''', '''(0..=observables.len()).map(|_| None::<Item>).collect::<Vec<_>>()'''))
S = 'operators/sample.rs'
case(S, 'take', ('''              let mut v = value_trigger_next.write().unwrap();
              let vv = v.clone();
              *v = None;
              vv
''', '''              value_trigger_next.write().unwrap().take()
'''), ('''            *value_next.write().unwrap() = Some(x);
''', '''            value_next.write().unwrap().replace(x);
'''))
K = 'operators/skip_last.rs'
case(K, 'push after pop', ('''            items.push_back(x);
            if items.len() > count {
              items.pop_front()
            } else {
              None
            }
''', '''            items.push_back(x);
            if items.len() <= count {
              return;
            }
            items.pop_front()
'''))
case(K, 'then', ('''            if items.len() > count {
              items.pop_front()
            } else {
              None
            }
''', '''            (items.len() > count).then(|| items.pop_front()).flatten()
'''))
TL = 'operators/take_last.rs'
case(TL, 'while len', ('''          if items.len() > count {
            items.pop_front();
          }
''', '''          while items.len() > count {
            items.pop_front();
          }
'''))
case(TL, 'drop first', ('''          items.push_back(x);
          if items.len() > count {
            items.pop_front();
          }
''', '''          if count == 0 {
            return;
          }
          if items.len() == count {
            items.pop_front();
          }
          items.push_back(x);
'''))
case(TL, 'take out, while let', ('''          let items = items_complete.read().unwrap().clone();
          for x in items {
            if !sctl_complete.is_subscribed() {
              break;
            }
            sctl_complete.sink_next(x);
          }
''', '''          let mut items = std::mem::take(&mut *items_complete.write().unwrap());
          while let Some(x) = items.pop_front() {
            if !sctl_complete.is_subscribed() {
              break;
            }
            sctl_complete.sink_next(x);
          }
'''))
Q = 'operators/sequence_equal.rs'
case(Q, 'windows', ('''      let mut items = Vec::new();
      for s in sources.iter_mut() {
        items.push(s.0.pop_front().unwrap());
      }
      if !items.iter().all(|x| *x == items[0]) {
        return Some(false);
      }
''', '''      let items: Vec<Item> = sources.iter_mut().filter_map(|s| s.0.pop_front()).collect();
      if items.iter().any(|x| *x != items[0]) {
        return Some(false);
      }
'''))
case(Q, 'shared closure', ('''                if let Some(result) = result {
                  sctl_next.sink_next(result);
                  sctl_next.sink_complete_force();
                }
''', '''                finish(&sctl_next, result);
'''), ('''                if let Some(result) = result {
                  sctl_complete.sink_next(result);
                  sctl_complete.sink_complete_force();
                }
''', '''                finish(&sctl_complete, result);
'''), ('''      // prepare subscribers
''', '''      fn finish<'a>(sctl: &StreamController<'a, bool>, result: Option<bool>) {
        if let Some(result) = result {
          sctl.sink_next(result);
          sctl.sink_complete_force();
        }
      }
      // prepare subscribers
'''))
D = 'operators/distinct_until_changed.rs'
case(D, 'changed', ('''          let last_x = {
            if let Some(x) = &*last.read().unwrap() {
              Some(x.clone())
            } else {
              None
            }
          };
          if let Some(last_x) = last_x {
            if last_x != x {
              *last.write().unwrap() = Some(x.clone());
              sctl_next.sink_next(x);
            }
          } else {
            *last.write().unwrap() = Some(x.clone());
            sctl_next.sink_next(x);
          }
''', '''          let previous = last.read().unwrap().clone();
          let changed = previous.map_or(true, |previous| previous != x);
          if changed {
            *last.write().unwrap() = Some(x.clone());
            sctl_next.sink_next(x);
          }
'''))
case(D, 'option compare', ('''          let last_x = {
            if let Some(x) = &*last.read().unwrap() {
              Some(x.clone())
            } else {
              None
            }
          };
          if let Some(last_x) = last_x {
            if last_x != x {
              *last.write().unwrap() = Some(x.clone());
              sctl_next.sink_next(x);
            }
          } else {
            *last.write().unwrap() = Some(x.clone());
            sctl_next.sink_next(x);
          }
''', '''          let previous = last.read().unwrap().clone();
          if previous.as_ref() == Some(&x) {
            return;
          }
          last.write().unwrap().replace(x.clone());
          sctl_next.sink_next(x);
'''))
SC = 'operators/scan.rs'
case(SC, 'match', ('''          let r = result_next.read().unwrap().clone();
          let r = if let Some(xx) = r { f.call((xx, x)) } else { x };
          *result_next.write().unwrap() = Some(r.clone());
          sctl_next.sink_next(r);
''', '''          let so_far = result_next.read().unwrap().clone();
          let folded = match so_far {
            None => x,
            Some(acc) => f.call((acc, x)),
          };
          result_next.write().unwrap().replace(folded.clone());
          sctl_next.sink_next(folded);
'''))
case(SC, 'take', ('''          let r = result_next.read().unwrap().clone();
          let r = if let Some(xx) = r { f.call((xx, x)) } else { x };
''', '''          let r = result_next.write().unwrap().take();
          let r = r.map_or(Item::clone(&x), |xx: Item| f.call((xx, x)));
'''))
DE = 'operators/default_if_empty.rs'
case(DE, 'option default', ('''RwLock::new(false)''', '''RwLock::new(Some(default.clone()))'''), ('''      let default_complete = default.clone();
''', ''''''), ('''          *emitted_next.write().unwrap() = true;
''', '''          *emitted_next.write().unwrap() = None;
'''), ('''          if !*emitted_complete.read().unwrap() {
            sctl_complete.sink_next(default_complete.clone());
          }
''', '''          let fallback = emitted_complete.write().unwrap().take();
          if let Some(x) = fallback {
            sctl_complete.sink_next(x);
          }
'''))
case(DE, 'atomic', ('''RwLock::new(false)''', '''std::sync::atomic::AtomicBool::new(false)'''), ('''          *emitted_next.write().unwrap() = true;
''', '''          emitted_next.store(true, std::sync::atomic::Ordering::Relaxed);
'''), ('''!*emitted_complete.read().unwrap()''', '''!emitted_complete.load(std::sync::atomic::Ordering::Relaxed)'''))
R = 'operators/retry.rs'
case(R, 'early exit, attempt name', ('''            if max_retry == 0 || n < max_retry {
              sctl_error.upstream_abort_observe(&serial);
              do_subscribe(
                n + 1,
                max_retry,
                source_error.clone(),
                sctl_error.clone(),
              );
            } else {
              sctl_error.sink_error(e);
            }
''', '''            let exhausted = max_retry != 0 && n >= max_retry;
            if exhausted {
              sctl_error.sink_error(e);
              return;
            }
            sctl_error.upstream_abort_observe(&serial);
            let again = source_error.clone();
            do_subscribe(n + 1, max_retry, again, sctl_error.clone());
'''))
case(R, 'counts down', ('do_subscribe(1, count, source.clone(), sctl.clone());', 'do_subscribe(count, count, source.clone(), sctl.clone());'),
     ('n < max_retry', 'n > 1'), ('''                n + 1,
''', '''                n.saturating_sub(1),
'''))
SA = 'operators/sum_and_count.rs'
case(SA, 'one cell', ('''      let n = Arc::new(RwLock::new(0usize));
      let sum = Arc::new(RwLock::new(None::<Item>));
''', '''      let total = Arc::new(RwLock::new(None::<(Item, usize)>));
'''), ('''      let sum_next = Arc::clone(&sum);
      let n_next = Arc::clone(&n);
''', '''      let total_next = Arc::clone(&total);
'''), ('''          *n_next.write().unwrap() += 1;
          let mut sum = sum_next.write().unwrap();
          if let Some(latest) = &*sum {
            *sum = Some(latest.clone() + x);
          } else {
            *sum = Some(x);
          }
''', '''          let before = total_next.read().unwrap().clone();
          let after = match before {
            Some((sum, n)) => (sum + x, n + 1),
            None => (x, 1),
          };
          *total_next.write().unwrap() = Some(after);
'''), ('''          let latest = sum.read().unwrap().clone();
          let n = *n.read().unwrap();
          if let Some(latest) = latest {
            sctl_complete.sink_next((latest, n));
          }
''', '''          let total = total.read().unwrap().clone();
          if let Some(total) = total {
            sctl_complete.sink_next(total);
          }
''') )
O_ = 'operators/observe_on.rs'
case(O_, 'one helper', ('''        move |_, x: Item| {
          let sctl_next = sctl_next.clone();
          scheduler_next.post(move || {
            sctl_next.sink_next(x.clone());
          });
        },
''', '''        move |_, item: Item| {
          let sctl = sctl_next.clone();
          let deliver = move || sctl.sink_next(item.clone());
          scheduler_next.post(deliver);
        },
'''), ('''      let source_next = source.clone();

''', ''''''), ('source_next.inner_subscribe', 'source.inner_subscribe'))
DB = 'operators/debounce.rs'
case(DB, 'loop break', ('''          while sctl.is_subscribed() {
            thread::sleep(dur);
            let value = {
              let mut value = value.write().unwrap();
              let v = value.clone();
              *value = None;
              v
            };
            if let Some(value) = value {
              sctl.sink_next(value);
            }
          }
''', '''          loop {
            if !sctl.is_subscribed() {
              break;
            }
            thread::sleep(dur);
            let pending = value.write().unwrap().take();
            if let Some(x) = pending {
              sctl.sink_next(x);
            }
          }
'''))
