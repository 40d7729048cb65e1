//! Long histories on the real crate: more subscriptions, items or tasks than any small counter holds.
//! usage: long SCENARIO      (prints FAIL ... and exits 1, or OK <events>)
use another_rxrust::prelude::*;
use schedulers::IScheduler;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const N: usize = 70_000;
type Obs<T> = Arc<Mutex<Vec<Observer<'static, T>>>>;

fn fail(m: String) -> ! {
  println!("FAIL {}", m);
  std::process::exit(1)
}
macro_rules! check {
  ($c:expr, $($m:tt)*) => { if !$c { fail(format!($($m)*)) } };
}

/// what a subscriber received: number of items, last item, terminals
#[derive(Clone, Default)]
struct Log(Arc<Mutex<(Vec<i64>, usize, usize)>>);
impl Log {
  fn sub(&self, o: &Observable<'static, i64>) -> Subscription<'static> {
    let (a, b, c) = (self.0.clone(), self.0.clone(), self.0.clone());
    o.subscribe(move |x| a.lock().unwrap().0.push(x), move |_| b.lock().unwrap().1 += 1, move || c.lock().unwrap().2 += 1)
  }
  fn is(&self, items: &[i64], errors: usize, completes: usize, what: &str) {
    let l = self.0.lock().unwrap();
    let n = l.0.len();
    check!(
      l.0 == items && (l.1, l.2) == (errors, completes),
      "{}: received {} items (.. {:?}), {} errors, {} completes; expected {} items (.. {:?}), {} errors, {} completes",
      what, n, &l.0[n.saturating_sub(5)..], l.1, l.2, items.len(), &items[items.len().saturating_sub(5)..], errors, completes
    );
  }
}

fn hot() -> (Obs<i64>, Observable<'static, i64>) {
  let l: Obs<i64> = Default::default();
  let k = l.clone();
  (l, Observable::create(move |s| k.lock().unwrap().push(s)))
}
fn at(l: &Obs<i64>, i: usize) -> Observer<'static, i64> {
  l.lock().unwrap()[i].clone()
}

/// many come and go while two stay: everybody who is there receives each item once
fn many(next: &dyn Fn(i64), complete: &dyn Fn(), o: Observable<'static, i64>, first: &[i64], memory: u8) {
  let early = Log::default();
  let _s = early.sub(&o);
  let mut mid = vec![];
  for i in 0..N {
    let l = Log::default();
    let s = l.sub(&o);
    if i % 10_000 == 77 {
      mid.push((l, s));
    } else {
      s.unsubscribe();
    }
  }
  let late = Log::default();
  let _t = late.sub(&o);
  next(1);
  let mut e = first.to_vec();
  if memory != 3 {
    e.push(1);
    early.is(&e, 0, 0, "the first of many subscribers");
    late.is(&e, 0, 0, "the last of many subscribers");
    for (l, _) in &mid {
      l.is(&e, 0, 0, "one of many subscribers");
    }
  }
  next(2);
  complete();
  e.push(2);
  for l in mid.iter().map(|x| &x.0).chain([&early, &late]) {
    l.is(&e, 0, 1, "one of many subscribers");
  }
}

fn items(o: Observable<'static, i64>) -> Vec<i64> {
  let l = Log::default();
  l.sub(&o);
  let l = l.0.lock().unwrap();
  check!((l.1, l.2) == (0, 1), "{} errors, {} completes", l.1, l.2);
  l.0.clone()
}

fn main() {
  let name = std::env::args().nth(1).unwrap();
  let n = N as i64;
  let src = || observables::range(0, n);
  let all: Vec<i64> = (0..n).collect();
  match name.as_str() {
    "plain" => {
      let s = subjects::Subject::<i64>::new();
      many(&|x| s.next(x), &|| s.complete(), s.observable(), &[], 0);
    }
    "behavior" => {
      let s = subjects::BehaviorSubject::<i64>::new(0);
      many(&|x| s.next(x), &|| s.complete(), s.observable(), &[0], 1);
    }
    "replay" => {
      let s = subjects::ReplaySubject::<i64>::new();
      s.next(0);
      many(&|x| s.next(x), &|| s.complete(), s.observable(), &[0], 2);
    }
    "async" => {
      let s = subjects::AsyncSubject::<i64>::new();
      many(&|x| s.next(x), &|| s.complete(), s.observable(), &[], 3);
    }
    "replay_items" => {
      let s = subjects::ReplaySubject::<i64>::new();
      for i in 0..n {
        s.next(i);
      }
      let l = Log::default();
      l.sub(&s.observable());
      s.complete();
      l.is(&all, 0, 1, "a subscriber after many items");
    }
    "ref_count" | "creplay" | "publish" => {
      let (obs, o) = hot();
      let (k, hold);
      let shared = match name.as_str() {
        "ref_count" => o.ref_count().observable(),
        "creplay" => o.replay().observable(),
        _ => {
          hold = o.publish();
          k = hold.connect();
          let _ = &k;
          hold.observable()
        }
      };
      many(&|x| at(&obs, 0).next(x), &|| at(&obs, 0).complete(), shared, &[], 0);
      check!(obs.lock().unwrap().len() == 1, "the source was subscribed {} times", obs.lock().unwrap().len());
    }
    "ref_count_again" => {
      let (obs, o) = hot();
      let r = o.ref_count().observable();
      for i in 0..N {
        let l = Log::default();
        let s = l.sub(&r);
        check!(obs.lock().unwrap().len() == 1, "not connected for subscriber {}", i);
        s.unsubscribe();
        let x = obs.lock().unwrap().pop().unwrap();
        check!(!x.is_subscribed(), "the source is still subscribed after subscriber {} left", i);
      }
    }
    "flat_map" => {
      let ((a, ao), (b, bo), (c, co)) = (hot(), hot(), hot());
      let l = Log::default();
      let s = l.sub(&ao.flat_map(move |x| match x {
        0 => bo.clone(),
        1 => observables::empty(),
        _ => co.clone(),
      }));
      at(&a, 0).next(0);
      for _ in 0..N {
        at(&a, 0).next(1);
      }
      at(&b, 0).next(5);
      at(&a, 0).next(2);
      at(&c, 0).next(6);
      at(&a, 0).complete();
      at(&b, 0).next(7);
      at(&b, 0).complete();
      l.is(&[5, 6, 7], 0, 0, "flat_map with many inputs");
      check!(s.is_subscribed() && at(&c, 0).is_subscribed(), "flat_map: not subscribed with an input open");
      at(&c, 0).next(8);
      at(&c, 0).complete();
      l.is(&[5, 6, 7, 8], 0, 1, "flat_map with many inputs");
    }
    "flat_map_unsub" => {
      let ((a, ao), (b, bo)) = (hot(), hot());
      let l = Log::default();
      let s = l.sub(&ao.flat_map(move |x| if x % 1000 == 0 { bo.clone() } else { observables::empty() }));
      for i in 0..n {
        at(&a, 0).next(i);
      }
      s.unsubscribe();
      let open = b.lock().unwrap().iter().filter(|o| o.is_subscribed()).count() + at(&a, 0).is_subscribed() as usize;
      check!(open == 0, "{} of {} inputs are still subscribed after unsubscribe", open, N / 1000 + 1);
    }
    "unary" => {
      check!(items(src().count().map(|x| x as i64)) == [n], "count");
      check!(items(src().take(N - 1)) == all[..N - 1], "take");
      check!(items(src().skip(N - 1)) == [n - 1], "skip");
      check!(items(src().take_last(N - 1)) == all[1..], "take_last");
      check!(items(src().skip_last(N - 1)) == [0], "skip_last");
      check!(items(src().element_at(N)) == [n - 1], "element_at");
      check!(items(src().reduce(|(a, b)| a.max(b))) == [n - 1], "reduce");
      check!(items(src().sum()) == [n * (n - 1) / 2], "sum");
      let s: Vec<Vec<i64>> = {
        let l: Arc<Mutex<Vec<Vec<i64>>>> = Default::default();
        let k = l.clone();
        src().buffer_with_count(N - 1).subscribe(move |x| k.lock().unwrap().push(x), |_| {}, || {});
        let v = l.lock().unwrap().clone();
        v
      };
      check!(s.len() == 2 && s[0] == all[..N - 1] && s[1] == [n - 1], "buffer_with_count");
      let w = Arc::new(Mutex::new(vec![]));
      let w2 = w.clone();
      src().window_with_count(N - 1).subscribe(move |o| {
        let w3 = w2.clone();
        o.count().subscribe(move |c| w3.lock().unwrap().push(c), |_| {}, || {});
      }, |_| {}, || {});
      check!(*w.lock().unwrap() == [N - 1, 1], "window_with_count");
    }
    "multi" => {
      let ((a, ao), (b, bo)) = (hot(), hot());
      let l = Log::default();
      l.sub(&ao.zip(&[bo]).map(|v| v[0] * 2 - v[1]));
      for i in 0..n {
        at(&a, 0).next(i);
      }
      at(&a, 0).complete();
      for i in 0..n {
        at(&b, 0).next(i);
      }
      at(&b, 0).complete();
      l.is(&all, 0, 1, "zip of many items");
      check!(items(src().merge(&[observables::empty()])) == all, "merge");
      check!(items(src().concat(&[observables::just(n)])).len() == N + 1, "concat");
      check!(items(src().amb(&[observables::never()])) == all, "amb");
      check!(items(src().sequence_equal(&[src()]).map(|x| x as i64)) == [1], "sequence_equal");
    }
    "retry" => {
      // a source that fails more often than a small counter holds
      let k = Arc::new(AtomicUsize::new(0));
      let k2 = k.clone();
      let o = Observable::create(move |s: Observer<'static, i64>| {
        if k2.fetch_add(1, Ordering::SeqCst) < 300 {
          s.error(RxError::from_error("x"))
        } else {
          s.next(1);
          s.complete()
        }
      });
      check!(items(o.retry(0)) == [1], "retry(0)");
      k.store(0, Ordering::SeqCst);
      check!(items(o.retry(301)) == [1], "retry(301)");
      k.store(0, Ordering::SeqCst);
      let l = Log::default();
      l.sub(&o.retry(300));
      l.is(&[], 1, 0, "retry(300)");
    }
    "queue" => {
      let s = schedulers::new_thread_scheduler()();
      let log: Arc<Mutex<Vec<usize>>> = Default::default();
      let gate = Arc::new(Mutex::new(()));
      let g = gate.lock().unwrap();
      let g2 = gate.clone();
      s.post(move || drop(g2.lock().unwrap()));
      for i in 0..N {
        let l = log.clone();
        s.post(move || l.lock().unwrap().push(i));
      }
      drop(g);
      let t0 = Instant::now();
      while log.lock().unwrap().len() < N && t0.elapsed() < Duration::from_secs(20) {
        std::thread::sleep(Duration::from_millis(10));
      }
      s.abort();
      check!(log.lock().unwrap().iter().copied().eq(0..N), "{} of {} tasks ran, or out of order", log.lock().unwrap().len(), N);
    }
    // a terminal callback that panics must not stay owned by the source's observer
    "panic" => {
      std::panic::set_hook(Box::new(|_| {}));
      for which in 0..2 {
        let (obs, o) = hot();
        let tok = Arc::new(());
        let weak = Arc::downgrade(&tok);
        let (a, b, c) = (tok.clone(), tok.clone(), tok);
        let s = o.subscribe(
          move |_| drop(a.clone()),
          move |_| {
            let _ = &b;
            panic!()
          },
          move || {
            let _ = &c;
            panic!()
          },
        );
        let x = at(&obs, 0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if which == 0 { x.complete() } else { x.error(RxError::from_error("x")) }));
        drop((s, o));
        check!(r.is_ok() || weak.upgrade().is_none(), "the callbacks are still owned after the {} callback panicked", ["complete", "error"][which]);
      }
    }
    _ => panic!("scenario"),
  }
  println!("OK {}", N);
}
