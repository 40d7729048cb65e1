import os, runpy
H = runpy.run_path(os.path.join(os.path.dirname(__file__), 's1.py'))['H'] + '''
#[allow(unused_imports)]
use std::sync::atomic::{AtomicUsize, AtomicBool, Ordering};
#[allow(unused_imports)]
use std::{thread, time::{Duration, Instant}};
#[allow(dead_code)]
fn race(fs: Vec<Box<dyn FnOnce() + Send + 'static>>) {
  let gate = Arc::new(AtomicUsize::new(fs.len()));
  let hs: Vec<_> = fs.into_iter().map(|f| {
    let g = gate.clone();
    thread::spawn(move || {
      g.fetch_sub(1, Ordering::SeqCst);
      while g.load(Ordering::SeqCst) > 0 { std::hint::spin_loop(); }
      f();
    })
  }).collect();
  for h in hs { h.join().unwrap(); }
}
#[allow(dead_code)]
fn threads() -> usize {
  std::fs::read_dir("/proc/self/task").unwrap().count()
}
'''
S = 'src/operators/'
SEEDS = {
'take-ticket': dict(property='C11', edits=[(S + 'take.rs', '''            let mut n = n.write().unwrap();
            let nn = *n;
            *n += 1;
''', '''            let nn = *n.read().unwrap();
            *n.write().unwrap() = nn + 1;
''')],
 needs='two threads emitting into one take(n) at the same time, both between the read and the write of its counter',
 breaks='take(n) reads and advances its counter in two steps, so that two racing items get the same number and more than n are delivered',
 demo=H + '''
fn main() {
  let t0 = Instant::now();
  while t0.elapsed() < Duration::from_secs(25) {
    let s = subjects::Subject::<i32>::new();
    let c = Arc::new(AtomicUsize::new(0));
    let cc = c.clone();
    s.observable().take(1).subscribe(move |_| { cc.fetch_add(1, Ordering::SeqCst); }, |_| {}, || {});
    let fs = (0..3).map(|i| { let s = s.clone(); Box::new(move || s.next(i)) as Box<dyn FnOnce() + Send> }).collect();
    race(fs);
    assert!(c.load(Ordering::SeqCst) <= 1);
  }
}
'''),
'amb-check': dict(property='C11', edits=[(S + 'amb.rs', '''        let mut w = winner_check.write().unwrap();
        if let Some(w) = &*w {
          *serial == *w
        } else {
          *w = Some(serial.clone());
          true
        }
''', '''        let w = winner_check.read().unwrap().clone();
        if let Some(w) = w {
          *serial == w
        } else {
          *winner_check.write().unwrap() = Some(serial.clone());
          true
        }
''')],
 needs='the first items of two inputs racing between the check of the winner and its choice',
 breaks='amb looks for a winner and makes one in two steps: two inputs both win',
 demo=H + '''
fn main() {
  let t0 = Instant::now();
  while t0.elapsed() < Duration::from_secs(25) {
    let ss: Vec<_> = (0..3).map(|_| subjects::Subject::<i32>::new()).collect();
    let c = Arc::new(AtomicUsize::new(0));
    let cc = c.clone();
    ss[0].observable().amb(&[ss[1].observable(), ss[2].observable()]).subscribe(move |_| { cc.fetch_add(1, Ordering::SeqCst); }, |_| {}, || {});
    race(ss.iter().map(|s| { let s = s.clone(); Box::new(move || s.next(1)) as Box<dyn FnOnce() + Send> }).collect());
    assert_eq!(c.load(Ordering::SeqCst), 1);
  }
}
'''),
'zip-split': dict(property='C11', edits=[(S + 'zip.rs', '''          let mut re = re.write().unwrap();
          let filled = re.iter().filter(|x| x.len() > 0).count();
          if filled == re.len() {
            let mut v = Vec::new();
            for items in re.iter_mut() {
              v.push(items.pop_front().unwrap());
            }
            Some(v)
''', '''          let v: Vec<Item> = re
            .read()
            .unwrap()
            .iter()
            .filter_map(|x| x.front().cloned())
            .collect();
          let mut re = re.write().unwrap();
          if v.len() == re.len() {
            for items in re.iter_mut() {
              items.pop_front();
            }
            Some(v)
''')],
 needs='two inputs of zip emitting at the same time while a full row is waiting',
 breaks='zip copies the row under one lock and removes it under another: a row is delivered twice, another lost',
 demo=H + '''
fn main() {
  let t0 = Instant::now();
  while t0.elapsed() < Duration::from_secs(25) {
    let (a, b) = (subjects::Subject::<i32>::new(), subjects::Subject::<i32>::new());
    let l = log();
    sub(&a.observable().zip(&[b.observable()]), &l);
    race([a, b].iter().map(|s| { let s = s.clone(); Box::new(move || for i in 0..4 { s.next(i) }) as Box<dyn FnOnce() + Send> }).collect());
    let mut g = l.lock().unwrap().clone();
    g.sort();
    assert_eq!(g.join(" "), "[0, 0] [1, 1] [2, 2] [3, 3]");
  }
}
'''),
'subject-serial': dict(property='C12', edits=[('src/subjects/subject.rs', '''        let mut serial = serial.write().unwrap();
        *serial += 1;
        *serial
      };''', '''        *serial.write().unwrap() += 1;
        *serial.read().unwrap()
      };''')],
 needs='two observers subscribing to the same subject at the same time',
 breaks='two concurrent subscribers may be given the same number: one replaces the other and receives nothing',
 demo=H + '''
fn main() {
  let t0 = Instant::now();
  while t0.elapsed() < Duration::from_secs(25) {
    let s = subjects::Subject::<i32>::new();
    let c = Arc::new(AtomicUsize::new(0));
    race((0..4).map(|_| { let (s, c) = (s.clone(), c.clone()); Box::new(move || {
      s.observable().subscribe(move |_| { c.fetch_add(1, Ordering::SeqCst); }, |_| {}, || {});
    }) as Box<dyn FnOnce() + Send> }).collect());
    s.next(1);
    assert_eq!(c.load(Ordering::SeqCst), 4);
  }
}
'''),
'queue-batch': dict(property='C08', edits=[('src/schedulers/async_function_queue.rs', '''        if *self.data.abort.read().unwrap() {
          None
        } else {
          que_mtx.pop_front()
        }
      };
      if let Some(f) = f {
        f.call(());
      } else {
        break;
      }
''', '''        if *self.data.abort.read().unwrap() {
          None
        } else {
          Some(std::mem::take(&mut *que_mtx))
        }
      };
      if let Some(batch) = f {
        for f in batch {
          f.call(());
        }
      } else {
        break;
      }
''')],
 needs='a stop while a burst of queued functions is being worked off',
 breaks='the worker takes all queued functions at once: a stop does not discard those not yet started',
 demo=H + '''
use another_rxrust::schedulers::scheduler::IScheduler;
fn main() {
  let s = schedulers::new_thread_scheduler()();
  let c = Arc::new(AtomicUsize::new(0));
  let go = Arc::new(AtomicBool::new(false));
  { let go = go.clone(); s.post(move || while !go.load(Ordering::SeqCst) { thread::sleep(Duration::from_millis(1)) }); }
  thread::sleep(Duration::from_millis(100));
  for i in 0..4 {
    let (c, s2) = (c.clone(), s.clone());
    s.post(move || { c.fetch_add(1, Ordering::SeqCst); if i == 1 { s2.abort() } });
  }
  go.store(true, Ordering::SeqCst);
  thread::sleep(Duration::from_millis(300));
  assert_eq!(c.load(Ordering::SeqCst), 2);
}
'''),
'timer-return': dict(property='C15', edits=[('src/observables/timer.rs', '''      s.next(());
      s.complete();
      scheduler_in_post.abort();
''', '''      if s.is_subscribed() {
        s.next(());
        s.complete();
        scheduler_in_post.abort();
      }
''')],
 needs='a timer whose subscription ends before it fires',
 breaks='a timer that finds nobody subscribed leaves without stopping its scheduler: the thread stays for ever',
 demo=H + '''
fn main() {
  let n = threads();
  let s = observables::timer(Duration::from_millis(200), schedulers::new_thread_scheduler()).subscribe(|_| {}, |_| {}, || {});
  thread::sleep(Duration::from_millis(50));
  s.unsubscribe();
  thread::sleep(Duration::from_millis(600));
  assert_eq!(threads(), n);
}
'''),
'observe-error': dict(property='C09', edits=[(S + 'observe_on.rs', '''          let sctl_error = sctl_error.clone();
          scheduler_error.post(move || {
            sctl_error.sink_error(e.clone());
          });
''', '''          let _ = &scheduler_error;
          sctl_error.sink_error(e);
''')],
 needs='an error that arrives while earlier items still wait in the queue, or a look at the thread that delivers it',
 breaks='observe_on delivers an error at once on the emitting thread, before the items queued before it',
 demo=H + '''
fn main() {
  let s = subjects::Subject::<i32>::new();
  let l = log();
  sub(&s.observable().observe_on(schedulers::new_thread_scheduler()).map(|x| { thread::sleep(Duration::from_millis(50)); x }), &l);
  s.next(1);
  s.next(2);
  s.error(RxError::from_error("x"));
  thread::sleep(Duration::from_millis(500));
  assert_eq!(got(&l), "1,2,err");
}
'''),
'observe-shared': dict(property='C14', edits=[(S + 'observe_on.rs', '''    let scheduler_ctor = self.scheduler_ctor.clone();
    Observable::create(move |s| {
      let scheduler = scheduler_ctor.call(());

      let sctl''', '''    let scheduler = self.scheduler_ctor.call(());
    Observable::create(move |s| {
      let scheduler = scheduler.clone();

      let sctl''')],
 needs='two subscriptions of the same observable, the second while the first has ended',
 breaks='observe_on makes one scheduler for all subscriptions: the first to end stops it for the others',
 demo=H + '''
fn main() {
  let o = observables::from_iter(vec![1, 2].into_iter()).observe_on(schedulers::new_thread_scheduler());
  for _ in 0..2 {
    let l = log();
    sub(&o, &l);
    thread::sleep(Duration::from_millis(200));
    assert_eq!(got(&l), "1,2,done");
  }
}
'''),
'replay-leave': dict(property='C13', edits=[(S + 'replay.rs', '''        if count == 0 {''', '''        if count <= 1 {''')],
 needs='two subscribers of one replay(), one of which leaves',
 breaks='replay stops its source when the last but one subscriber leaves',
 demo=H + '''
fn main() {
  let s = subjects::Subject::<i32>::new();
  let r = s.observable().replay();
  let (l, m) = (log(), log());
  let _a = sub(&r.observable(), &l);
  let b = sub(&r.observable(), &m);
  s.next(1);
  b.unsubscribe();
  s.next(2);
  assert_eq!((got(&l), got(&m)), ("1,2".to_string(), "1".to_string()));
}
'''),
'tovec-order': dict(property='C18', edits=[(S + 'to_vec.rs', '''        *err_error.write().unwrap() = Some(e);
        *done_error.write().unwrap() = true;
''', '''        *done_error.write().unwrap() = true;
        *err_error.write().unwrap() = Some(e);
''')],
 needs='a poll between the two steps with which an error is recorded',
 breaks='the future may answer Ok for a source that ended with an error',
 demo=H + '''
use std::{future::Future, pin::pin, task::{Context, Poll, Wake}};
struct W;
impl Wake for W { fn wake(self: Arc<Self>) {} }
fn main() {
  let t0 = Instant::now();
  while t0.elapsed() < Duration::from_secs(30) {
    let s = subjects::Subject::<i32>::new();
    let o = s.observable();
    let mut f = pin!(o.to_vec());
    let s2 = s.clone();
    let go = Arc::new(AtomicBool::new(false));
    let g2 = go.clone();
    let h = thread::spawn(move || { while !g2.load(Ordering::SeqCst) { std::hint::spin_loop() } s2.error(RxError::from_error("x")) });
    let w = Arc::new(W).into();
    go.store(true, Ordering::SeqCst);
    let r = loop {
      if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) { break r }
    };
    h.join().unwrap();
    assert!(r.is_err());
  }
}
'''),
'sample-lock': dict(property='C07', edits=[(S + 'sample.rs', '''            let value = {
              let mut v = value_trigger_next.write().unwrap();
              let vv = v.clone();
              *v = None;
              vv
            };
            if let Some(v) = value {
              sctl_trigger_next.sink_next(v);
            }
''', '''            if let Some(v) = value_trigger_next.write().unwrap().take() {
              sctl_trigger_next.sink_next(v);
            }
''')],
 needs='a subscriber of sample that makes the source emit while it is given an item',
 breaks='sample delivers while it holds the lock of the pending item: a source event inside the delivery blocks for ever',
 demo=H + '''
fn main() {
  let (s, t) = (subjects::Subject::<i32>::new(), subjects::Subject::<i32>::new());
  let l = log();
  let (l2, s2) = (l.clone(), s.clone());
  s.observable().sample(t.observable()).subscribe(
    move |x| { l2.lock().unwrap().push(format!("{}", x)); if x == 1 { s2.next(2) } }, |_| {}, || {});
  s.next(1);
  thread::spawn(|| { thread::sleep(Duration::from_secs(10)); std::process::exit(7) });
  t.next(0);
  t.next(0);
  assert_eq!(got(&l), "1,2");
}
'''),
}
