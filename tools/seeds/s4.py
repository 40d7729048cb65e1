import os, runpy
H = runpy.run_path(os.path.join(os.path.dirname(__file__), 's2.py'))['H']
S = 'src/operators/'
SEEDS = {
'amb-loser': dict(property='C06', edits=[(S + 'amb.rs', '''                } else {
                  sctl_next.upstream_abort_observe(&serial);
                }
              },
              move |serial, e| {''', '''                }
              },
              move |serial, e| {''')],
 needs='an amb loser that goes on emitting for as long as it is subscribed',
 breaks='a loser of amb stays subscribed after it has tried to emit: a producer without end never stops',
 demo=H + '''
fn main() {
  let first = Observable::create(|s: Observer<i32>| s.next(1));
  let n = Arc::new(Mutex::new(0));
  let m = n.clone();
  let endless = Observable::create(move |s: Observer<i32>| {
    let mut k = 0;
    while s.is_subscribed() && k < 10000 { s.next(k); k += 1; }
    *m.lock().unwrap() = k;
  });
  let l = log();
  let _s = sub(&first.amb(&[endless]), &l);
  assert_eq!(got(&l), "1");
  assert_eq!(*n.lock().unwrap(), 1);
}
'''),
'sub-reenter': dict(property='C05', edits=[('src/subscription.rs', '''    self.fn_unsubscribe.call_and_clear_if_available(());
''', '''    if self.fn_unsubscribe.call_if_available(()).is_some() {
      self.fn_unsubscribe.clear();
    }
''')],
 needs='an unsubscribe that is called again while it is under way: from inside of the teardown, or by a second thread',
 breaks='the teardown runs twice when unsubscribe is called again before it has returned',
 demo=H + '''
fn main() {
  let n = Arc::new(Mutex::new(0));
  let cell: Arc<Mutex<Option<Subscription<'static>>>> = Arc::new(Mutex::new(None));
  let (m, c) = (n.clone(), cell.clone());
  let s = Subscription::new(move || {
    *m.lock().unwrap() += 1;
    if *m.lock().unwrap() < 5 {
      let again = c.lock().unwrap().clone();
      if let Some(again) = again { again.unsubscribe(); }
    }
  }, || true);
  *cell.lock().unwrap() = Some(s.clone());
  s.unsubscribe();
  s.unsubscribe();
  assert_eq!(*n.lock().unwrap(), 1);
}
'''),
}
