H='''use another_rxrust::prelude::*;
use std::sync::{Arc, Mutex};
#[allow(dead_code)]
type Log = Arc<Mutex<Vec<String>>>;
#[allow(dead_code)]
fn log() -> Log { Arc::new(Mutex::new(vec![])) }
#[allow(dead_code)]
fn sub<'a, T: Clone + Send + Sync + std::fmt::Debug>(o: &Observable<'a, T>, l: &Log) -> Subscription<'a> where T: 'a {
  let (a, b, c) = (l.clone(), l.clone(), l.clone());
  o.subscribe(
    move |x: T| a.lock().unwrap().push(format!("{:?}", x)),
    move |_e| b.lock().unwrap().push("err".to_string()),
    move || c.lock().unwrap().push("done".to_string()),
  )
}
#[allow(dead_code)]
fn got(l: &Log) -> String { l.lock().unwrap().join(",") }
'''
S='src/operators/'
SEEDS={
'retry-share':dict(property='C04',edits=[(S+'retry.rs','if max_retry == 0 || n < max_retry {','if max_retry == 0 || n <= max_retry.min(2) {')],
 needs='a bounded retry whose source fails at least three times in a row (retry(n), n>=3), or fails twice with retry(1)/(2)',
 breaks='retry(n) resubscribes at most twice, and once too often for small n',
 demo=H+'''
fn main() {
  let n = Arc::new(Mutex::new(0));
  let m = n.clone();
  let o = Observable::create(move |s: Observer<i32>| {
    let k = { let mut g = m.lock().unwrap(); *g += 1; *g };
    s.next(k);
    s.error(RxError::from_error("x"));
  });
  let l = log();
  sub(&o.retry(5), &l);
  assert_eq!(got(&l), "1,2,3,4,5,err");
}
'''),
'distinct-last':dict(property='C02',edits=[(S+'distinct_until_changed.rs','''            if last_x != x {
              *last.write().unwrap() = Some(x.clone());
              sctl_next.sink_next(x);
            }''','''            let changed = last_x != x;
            *last.write().unwrap() = if changed { Some(x.clone()) } else { None };
            if changed {
              sctl_next.sink_next(x);
            }''')],
 needs='three equal items in a row',
 breaks='distinct_until_changed forgets its last item after one suppressed duplicate: the third of three equal items is emitted',
 demo=H+'''
fn main() {
  let l = log();
  sub(&observables::from_iter(vec![1, 1, 1, 2].into_iter()).distinct_until_changed(), &l);
  assert_eq!(got(&l), "1,2,done");
}
'''),
'buffer-shared':dict(property='C14',edits=[(S+'buffer_with_count.rs','''    Observable::<Vec<Item>>::create(move |s| {
      let results = Arc::new(RwLock::new(Vec::new()));
''','''    let results = Arc::new(RwLock::new(Vec::new()));
    Observable::<Vec<Item>>::create(move |s| {
      let results = Arc::clone(&results);
''')],
 needs='two subscriptions to one buffer_with_count observable, the first ending with a partial buffer',
 breaks='the buffer is shared by all subscriptions, so a later subscriber receives leftovers of an earlier one',
 demo=H+'''
fn main() {
  let o = observables::from_iter(vec![1, 2, 3].into_iter()).buffer_with_count(2);
  let (a, b) = (log(), log());
  sub(&o, &a);
  sub(&o, &b);
  assert_eq!(got(&a), "[1, 2],[3],done");
  assert_eq!(got(&b), got(&a));
}
'''),
'zip-order':dict(property='C03',edits=[(S+'zip.rs','v.push(items.pop_front().unwrap());','v.push(if items.len() > 2 { items.pop_back() } else { items.pop_front() }.unwrap());')],
 needs='one input of zip at least three items ahead of another',
 breaks='zip pairs the newest instead of the oldest waiting item when a queue is longer than two',
 demo=H+'''
fn main() {
  let (x, y) = (subjects::Subject::<i32>::new(), subjects::Subject::<i32>::new());
  let l = log();
  sub(&x.observable().zip(&[y.observable()]), &l);
  x.next(1);
  x.next(2);
  x.next(3);
  y.next(10);
  y.next(20);
  y.next(30);
  assert_eq!(got(&l), "[1, 10],[2, 20],[3, 30]");
}
'''),
'take-until-err':dict(property='C06',edits=[(S+'take_until.rs','''          move |_, e| {
            sctl_error.sink_error(e);
          },
          move |_| sctl_complete.sink_complete_force(), // trigger also unsubscribe''','''          move |_, e| {
            sctl_error.sink_error(e);
          },
          move |serial| sctl_complete.sink_complete(&serial),''')],
 needs='a take_until whose source completes while the trigger has not fired',
 breaks='the source completing neither completes the subscriber nor releases the trigger',
 demo=H+'''
fn main() {
  let (x, t) = (subjects::Subject::<i32>::new(), subjects::Subject::<i32>::new());
  let l = log();
  sub(&x.observable().take_until(t.observable()), &l);
  x.next(1);
  x.complete();
  assert_eq!(got(&l), "1,done");
}
'''),
'flatmap-abort':dict(property='C03',edits=[(S+'flat_map.rs','''              sctl_next_complete.sink_complete(&serial);''','''              if serial == 1 && !sctl_next_complete.is_subscribed() {
                return;
              }
              sctl_next_complete.upstream_abort_observe(&serial);'''),],
 needs='the outer source completing before the last inner source',
 breaks='flat_map never completes when an inner source is the last to complete',
 demo=H+'''
fn main() {
  let (x, t) = (subjects::Subject::<i32>::new(), subjects::Subject::<i32>::new());
  let t2 = t.clone();
  let l = log();
  sub(&x.observable().flat_map(move |_| t2.observable()), &l);
  x.next(1);
  x.complete();
  t.next(5);
  t.complete();
  assert_eq!(got(&l), "5,done");
}
'''),
'sum-lock':dict(property='C07',edits=[(S+'skip_last.rs','''          let emit = {
            let mut items = items_next.write().unwrap();
            items.push_back(x);
            if items.len() > count {
              items.pop_front()
            } else {
              None
            }
          };
          if let Some(x) = emit {
            sctl_next.sink_next(x);
          }''','''          let mut items = items_next.write().unwrap();
          items.push_back(x);
          if items.len() > count {
            if let Some(x) = items.pop_front() {
              sctl_next.sink_next(x);
            }
          }''')],
 needs='a subscriber of skip_last that emits into the source from inside its callback',
 breaks='skip_last calls its subscriber with its buffer locked: re-entry blocks forever',
 demo=H+'''
fn main() {
  let x = subjects::Subject::<i32>::new();
  let l = log();
  let (x2, l2) = (x.clone(), l.clone());
  x.observable().skip_last(1).subscribe(move |v| {
    l2.lock().unwrap().push(format!("{}", v));
    if v == 1 { x2.next(3); }
  }, |_| {}, || {});
  std::thread::spawn(move || { x.next(1); x.next(2); });
  std::thread::sleep(std::time::Duration::from_millis(500));
  let g = l.try_lock().map(|g| g.join(",")).unwrap_or_default();
  assert_eq!(g, "1,2");
}
'''),
}
