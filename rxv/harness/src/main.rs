//! Replays event scripts on the real crate.  Input: one case per line (s-expression) on stdin.
//! Output per case: `#case <n>`, trace lines, `#end`.  A case that does not finish in time
//! prints `#hang <n>`; a panic prints `#panic <n>`.
use another_rxrust::prelude::*;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::ops::Add;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------ s-expressions
#[derive(Clone, Debug)]
enum S {
  A(String),
  L(Vec<S>),
}
impl S {
  fn parse(s: &str) -> S {
    let mut st: Vec<Vec<S>> = vec![vec![]];
    let t = s.replace('(', " ( ").replace(')', " ) ");
    for w in t.split_whitespace() {
      match w {
        "(" => st.push(vec![]),
        ")" => {
          let l = st.pop().unwrap();
          st.last_mut().unwrap().push(S::L(l));
        }
        a => st.last_mut().unwrap().push(S::A(a.to_string())),
      }
    }
    st[0][0].clone()
  }
  fn l(&self) -> &[S] {
    match self {
      S::L(v) => v,
      _ => panic!("list expected {:?}", self),
    }
  }
  fn a(&self) -> &str {
    match self {
      S::A(v) => v,
      _ => panic!("atom expected {:?}", self),
    }
  }
  fn i(&self) -> i64 {
    self.a().parse().unwrap()
  }
  fn u(&self) -> usize {
    self.i() as usize
  }
  fn head(&self) -> &str {
    self.l()[0].a()
  }
}

// ------------------------------------------------------------------ values
type Tok = Arc<()>;
#[derive(Clone)]
enum V {
  I(i64, Tok),
  B(bool),
  L(Vec<V>),
  P(Box<V>, Box<V>),
  MN(Box<V>),
  ME(RxError),
  MC,
  W(usize),
  O(usize),
  U,
}
fn err_str(e: &RxError) -> String {
  if let Some(x) = e.downcast_ref::<ErrV>() {
    format!("e{}", x.0)
  } else if let Some(x) = e.downcast_ref::<i64>() {
    format!("e{}", x)
  } else if let Some(x) = e.downcast_ref::<std::io::ErrorKind>() {
    format!("{:?}", x)
  } else if let Some(x) = e.downcast_ref::<std::io::Error>() {
    format!("{:?}", x.kind())
  } else {
    "other".into()
  }
}
#[derive(Clone)]
struct ErrV(i64, #[allow(dead_code)] Tok);
impl std::fmt::Debug for ErrV {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "ErrV{}", self.0)
  }
}
impl V {
  fn s(&self) -> String {
    match self {
      V::I(i, _) => i.to_string(),
      V::B(b) => (if *b { "T" } else { "F" }).into(),
      V::L(v) => format!("[{}]", v.iter().map(|x| x.s()).collect::<Vec<_>>().join(",")),
      V::P(a, b) => format!("<{},{}>", a.s(), b.s()),
      V::MN(x) => format!("N{}", x.s()),
      V::ME(e) => format!("E{}", err_str(e)),
      V::MC => "C".into(),
      V::W(i) => format!("W{}", i),
      V::O(i) => format!("O{}", i),
      V::U => "U".into(),
    }
  }
  fn i(&self) -> i64 {
    match self {
      V::I(i, _) => *i,
      V::B(b) => *b as i64,
      V::L(v) => v.iter().map(|x| x.i()).sum(),
      V::P(a, b) => a.i() + b.i(),
      V::MN(x) => x.i(),
      V::ME(_) => 7,
      V::MC => 9,
      V::W(i) | V::O(i) => *i as i64,
      V::U => 0,
    }
  }
}
impl std::fmt::Debug for V {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str(&self.s())
  }
}
impl PartialEq for V {
  fn eq(&self, o: &V) -> bool {
    self.s() == o.s()
  }
}
impl PartialOrd for V {
  fn partial_cmp(&self, o: &V) -> Option<std::cmp::Ordering> {
    self.i().partial_cmp(&o.i())
  }
}
impl Add for V {
  type Output = V;
  fn add(self, o: V) -> V {
    let t = tok(&self, &o);
    V::I(self.i() + o.i(), t)
  }
}
fn tok(a: &V, b: &V) -> Tok {
  match (a, b) {
    (V::I(_, t), _) | (_, V::I(_, t)) => t.clone(),
    _ => Arc::new(()),
  }
}

type Ob = Observable<'static, V>;

// ------------------------------------------------------------------ context of one case
struct Case {
  out: Mutex<Vec<String>>,
  hot: Mutex<BTreeMap<usize, Vec<Observer<'static, V>>>>,
  cold: Mutex<Vec<(usize, Observer<'static, V>)>>,
  subs: Mutex<BTreeMap<usize, Subscription<'static>>>,
  cnt: Mutex<BTreeMap<usize, usize>>,
  root: Mutex<Option<Ob>>,
  sbj: Mutex<BTreeMap<usize, Sb>>,
  con: Mutex<BTreeMap<usize, Con>>,
  cold_n: Mutex<BTreeMap<usize, usize>>,
  wins: AtomicUsize,
  tok: Mutex<Option<Tok>>,
}
#[derive(Clone)]
enum Sb {
  P(subjects::Subject<'static, V>),
  B(subjects::BehaviorSubject<'static, V>),
  R(subjects::ReplaySubject<'static, V>),
  A(subjects::AsyncSubject<'static, V>),
}
impl Sb {
  fn o(&self) -> Ob {
    match self {
      Sb::P(s) => s.observable(),
      Sb::B(s) => s.observable(),
      Sb::R(s) => s.observable(),
      Sb::A(s) => s.observable(),
    }
  }
  fn next(&self, v: V) {
    match self {
      Sb::P(s) => s.next(v),
      Sb::B(s) => s.next(v),
      Sb::R(s) => s.next(v),
      Sb::A(s) => s.next(v),
    }
  }
  fn error(&self, e: RxError) {
    match self {
      Sb::P(s) => s.error(e),
      Sb::B(s) => s.error(e),
      Sb::R(s) => s.error(e),
      Sb::A(s) => s.error(e),
    }
  }
  fn complete(&self) {
    match self {
      Sb::P(s) => s.complete(),
      Sb::B(s) => s.complete(),
      Sb::R(s) => s.complete(),
      Sb::A(s) => s.complete(),
    }
  }
}
#[derive(Clone)]
enum Con {
  P(another_rxrust::operators::publish::Publish<'static, V>),
  C(another_rxrust::operators::ref_count::RefCount<'static, V>),
  R(another_rxrust::operators::replay::Replay<'static, V>),
}
type C = Arc<Case>;
impl Case {
  fn log(&self, s: String) {
    self.out.lock().unwrap().push(s);
  }
  fn t(&self) -> Tok {
    self.tok.lock().unwrap().clone().unwrap()
  }
  fn v(&self, i: i64) -> V {
    V::I(i, self.t())
  }
  fn e(&self, i: i64) -> RxError {
    RxError::from_error(ErrV(i, self.t()))
  }
}

fn fn1(c: &C, n: &S) -> impl Fn(V) -> V + Send + Sync + Clone + 'static {
  let n = n.a().to_string();
  let t = c.t();
  move |x: V| {
    let i = x.i();
    V::I(
      match n.as_str() {
        "inc" => i + 1,
        "dbl" => i * 2,
        "neg" => -i,
        "zero" => 0,
        _ => panic!("fn1 {}", n),
      },
      t.clone(),
    )
  }
}
fn predi(n: &str, i: i64) -> bool {
  match n {
    "even" => i % 2 == 0,
    "odd" => i % 2 != 0,
    "lt2" => i < 2,
    "ge2" => i >= 2,
    "true" => true,
    "false" => false,
    _ => panic!("pred {}", n),
  }
}
fn pred(c: &C, n: &S) -> impl Fn(V) -> bool + Send + Sync + Clone + 'static {
  let n = n.a().to_string();
  let t = c.t();
  move |x: V| {
    let _ = &t;
    predi(&n, x.i())
  }
}
fn fn2(c: &C, n: &S) -> impl Fn((V, V)) -> V + Send + Sync + Clone + 'static {
  let n = n.a().to_string();
  let t = c.t();
  move |(a, b): (V, V)| {
    let (a, b) = (a.i(), b.i());
    V::I(
      match n.as_str() {
        "add" => a + b,
        "sub" => a - b,
        "left" => a,
        "mix" => a * 3 + b,
        _ => panic!("fn2 {}", n),
      },
      t.clone(),
    )
  }
}

fn emit(c: &C, o: &Observer<'static, V>, s: &S) {
  match s.head() {
    "n" => o.next(c.v(s.l()[1].i())),
    "e" => o.error(c.e(s.l()[1].i())),
    "c" => o.complete(),
    "mn" | "me" | "mc" => o.next(mat(c, s)),
    _ => panic!("event {:?}", s),
  }
}
fn mat(c: &C, s: &S) -> V {
  match s.head() {
    "mn" => V::MN(Box::new(c.v(s.l()[1].i()))),
    "me" => V::ME(c.e(s.l()[1].i())),
    _ => V::MC,
  }
}

fn build(c: &C, s: &S) -> Ob {
  let l = s.l();
  let b = |i: usize| build(c, &l[i]);
  let rest = |i: usize| l[i..].iter().map(|x| build(c, x)).collect::<Vec<_>>();
  match s.head() {
    "hot" => {
      let k = l[1].u();
      let c = c.clone();
      let w = Arc::downgrade(&c);
      drop(c);
      Observable::create(move |o| {
        if let Some(c) = w.upgrade() {
          c.log(format!("sub {}", k));
          c.hot.lock().unwrap().entry(k).or_default().push(o);
        }
      })
    }
    "cold" => {
      // (cold k (script) (script) ...): k-th subscription plays its script, the last repeats
      let k = l[1].u();
      let scripts = l[2..].to_vec();
      let w = Arc::downgrade(c);
      Observable::create(move |o| {
        if let Some(c) = w.upgrade() {
          c.log(format!("sub {}", k));
          let n = {
            let mut m = c.cold_n.lock().unwrap();
            let n = m.entry(k).or_insert(0);
            *n += 1;
            *n - 1
          };
          c.cold.lock().unwrap().push((k, o.clone()));
          let sc = &scripts[n.min(scripts.len() - 1)];
          for e in sc.l() {
            emit(&c, &o, e);
          }
        }
      })
    }
    "just" => observables::just(c.v(l[1].i())),
    "from_iter" => {
      let v: Vec<V> = l[1].l().iter().map(|x| c.v(x.i())).collect();
      observables::from_iter(v.into_iter())
    }
    "range" => {
      let t = c.t();
      observables::range(l[1].i(), l[2].i()).map(move |x| V::I(x, t.clone()))
    }
    "empty" => observables::empty(),
    "never" => observables::never(),
    "error" => observables::error(c.e(l[1].i())),
    "repeat" => observables::repeat(c.v(l[1].i())),
    "defer" => {
      let s = l[1].clone();
      let w = Arc::downgrade(c);
      observables::defer(move || {
        let c = w.upgrade().unwrap();
        c.log("defer".into());
        build(&c, &s)
      })
    }
    "start" => {
      let w = Arc::downgrade(c);
      let i = l[1].i();
      observables::start(move || {
        let c = w.upgrade().unwrap();
        c.log("start".into());
        c.v(i)
      })
    }
    "ok" => observables::from_result::<V, ErrV>(Ok(c.v(l[1].i()))),
    "err" => observables::from_result::<V, ErrV>(Err(ErrV(l[1].i(), c.t()))),
    "sbj" => c.sbj.lock().unwrap()[&l[1].u()].o(),
    "con" => match &c.con.lock().unwrap()[&l[1].u()] {
      Con::P(p) => p.observable(),
      Con::C(p) => p.observable(),
      Con::R(p) => p.observable(),
    },
    "map" => b(2).map(fn1(c, &l[1])),
    "filter" => b(2).filter(pred(c, &l[1])),
    "take" => b(2).take(l[1].u()),
    "skip" => b(2).skip(l[1].u()),
    "take_last" => b(2).take_last(l[1].u()),
    "skip_last" => b(2).skip_last(l[1].u()),
    "take_while" => b(2).take_while(pred(c, &l[1])),
    "skip_while" => b(2).skip_while(pred(c, &l[1])),
    "first" => b(1).first(),
    "last" => b(1).last(),
    "element_at" => b(2).element_at(l[1].u()),
    "distinct_until_changed" => b(1).distinct_until_changed(),
    "scan" => b(2).scan(fn2(c, &l[1])),
    "reduce" => b(2).reduce(fn2(c, &l[1])),
    "count" => {
      let t = c.t();
      b(1).count().map(move |x| V::I(x as i64, t.clone()))
    }
    "sum" => b(1).sum(),
    "sum_and_count" => {
      let t = c.t();
      b(1)
        .sum_and_count()
        .map(move |(a, n)| V::P(Box::new(a), Box::new(V::I(n as i64, t.clone()))))
    }
    "min" => b(1).min(),
    "max" => b(1).max(),
    "all" => b(2).all(pred(c, &l[1])).map(V::B),
    "contains" => b(2).contains(c.v(l[1].i())).map(V::B),
    "default_if_empty" => b(2).default_if_empty(c.v(l[1].i())),
    "ignore_elements" => b(1).ignore_elements(),
    "start_with" => {
      let v: Vec<V> = l[1].l().iter().map(|x| c.v(x.i())).collect();
      b(2).start_with(v.into_iter())
    }
    "buffer_with_count" => b(2).buffer_with_count(l[1].u()).map(V::L),
    "materialize" => b(1).materialize().map(|m| match m {
      Material::Next(x) => V::MN(Box::new(x)),
      Material::Error(e) => V::ME(e),
      Material::Complete => V::MC,
    }),
    "dematerialize" => b(1)
      .map(|v| match v {
        V::MN(x) => Material::Next(*x),
        V::ME(e) => Material::Error(e),
        V::MC => Material::Complete,
        v => Material::Next(v),
      })
      .dematerialize(),
    "timestamp" => b(1).timestamp().map(|(_, x)| x),
    "delay" => b(1).delay(Duration::ZERO),
    "time_interval" => b(1).time_interval().map(|_| V::B(true)),
    "map_to_any" => b(1).map_to_any().map(|a| a.downcast_ref::<V>().unwrap().clone()),
    "tap" => {
      let (w1, w2, w3) = (Arc::downgrade(c), Arc::downgrade(c), Arc::downgrade(c));
      let t = c.t();
      b(1).tap(
        move |x: V| {
          let _ = &t;
          w1.upgrade().map(|c| c.log(format!("tap n {}", x.s())));
        },
        move |e: RxError| {
          w2.upgrade().map(|c| c.log(format!("tap e {}", err_str(&e))));
        },
        move || {
          w3.upgrade().map(|c| c.log("tap c".into()));
        },
      )
    }
    "window_with_count" => win(c, b(2).window_with_count(l[1].u())),
    "group_by" => {
      let k = l[1].i();
      win(c, b(2).group_by(move |x| x.i().rem_euclid(k)))
    }
    "merge" => b(1).merge(&rest(2)),
    "zip" => b(1).zip(&rest(2)).map(V::L),
    "combine_latest" => b(1).combine_latest(&rest(2), V::L),
    "amb" => b(1).amb(&rest(2)),
    "concat" => b(1).concat(&rest(2)),
    "sequence_equal" => b(1).sequence_equal(&rest(2)).map(V::B),
    "take_until" => b(1).take_until(b(2)),
    "skip_until" => b(1).skip_until(b(2)),
    "sample" => b(1).sample(b(2)),
    "switch_on_next" => b(1).switch_on_next(b(2)),
    "flat_map" => {
      // (flat_map src inner0 inner1 ...): item x selects inner x mod n
      let inner = rest(2);
      b(1).flat_map(move |x| inner[x.i().rem_euclid(inner.len() as i64) as usize].clone())
    }
    "retry" => b(2).retry(l[1].u()),
    "retry_when" => {
      let p = l[1].a().to_string();
      b(2).retry_when(move |e| predi(&p, e.downcast_ref::<ErrV>().map(|x| x.0).unwrap_or(0)))
    }
    "on_error_resume_next" => {
      let inner = rest(2);
      b(1).on_error_resume_next(move |e| {
        let i = e.downcast_ref::<ErrV>().map(|x| x.0).unwrap_or(0);
        inner[i.rem_euclid(inner.len() as i64) as usize].clone()
      })
    }
    "ready_set_go" => {
      let w = Arc::downgrade(c);
      let steps = l[1].l().to_vec();
      utils::ready_set_go(
        move || {
          if let Some(c) = w.upgrade() {
            for s in &steps {
              step(&c, s);
            }
          }
        },
        b(2),
      )
    }
    "observe_on_default" => b(1).observe_on(schedulers::default_scheduler()),
    "subscribe_on_default" => b(1).subscribe_on(schedulers::default_scheduler()),
    x => panic!("op {}", x),
  }
}
fn win(c: &C, o: Observable<'static, Observable<'static, V>>) -> Ob {
  let w = Arc::downgrade(c);
  o.map(move |w_obs| {
    let c = w.upgrade().unwrap();
    let id = c.wins.fetch_add(1, Ordering::SeqCst);
    let (a, b, d) = (w.clone(), w.clone(), w.clone());
    w_obs.subscribe(
      move |x| {
        a.upgrade().map(|c| c.log(format!("w{} n {}", id, x.s())));
      },
      move |e| {
        b.upgrade().map(|c| c.log(format!("w{} e {}", id, err_str(&e))));
      },
      move || {
        d.upgrade().map(|c| c.log(format!("w{} c", id)));
      },
    );
    V::W(id)
  })
}

fn at_end(c: &C, hooks: &Vec<(usize, Vec<S>)>) {
  for (at, steps) in hooks {
    if *at == 0 {
      for st in steps {
        step(c, st);
      }
    }
  }
}

fn step(c: &C, s: &S) {
  let l = s.l();
  match s.head() {
    "sub" => {
      let i = l[1].u();
      let hooks: Vec<(usize, Vec<S>)> =
        l[2..].iter().map(|h| (h.l()[1].u(), h.l()[2..].to_vec())).collect();
      let (hooks_e, hooks_c) = (hooks.clone(), hooks.clone());
      let root = c.root.lock().unwrap().clone().unwrap();
      let (a, b, d) = (Arc::downgrade(c), Arc::downgrade(c), Arc::downgrade(c));
      let (ta, tb, td) = (c.t(), c.t(), c.t());
      let sub = root.subscribe(
        move |x| {
          let _ = &ta;
          if let Some(c) = a.upgrade() {
            c.log(format!("s{} n {}", i, x.s()));
            let n = {
              let mut m = c.cnt.lock().unwrap();
              let n = m.entry(i).or_insert(0);
              *n += 1;
              *n
            };
            for (at, steps) in &hooks {
              if *at == n {
                for st in steps {
                  step(&c, st);
                }
              }
            }
          }
        },
        move |e| {
          let _ = &tb;
          if let Some(c) = b.upgrade() {
            c.log(format!("s{} e {}", i, err_str(&e)));
            at_end(&c, &hooks_e);
          }
        },
        move || {
          let _ = &td;
          if let Some(c) = d.upgrade() {
            c.log(format!("s{} c", i));
            at_end(&c, &hooks_c);
          }
        },
      );
      c.subs.lock().unwrap().insert(i, sub);
    }
    "unsub" => {
      let sub = c.subs.lock().unwrap().get(&l[1].u()).cloned();
      if let Some(sub) = sub {
        sub.unsubscribe();
      }
    }
    "using" => {
      let sub = c.subs.lock().unwrap().get(&l[1].u()).cloned();
      if let Some(sub) = sub {
        let _g = utils::Using::new(sub);
      }
    }
    "n" | "e" | "c" | "mn" | "me" | "mc" => {
      let k = l[1].u();
      let obs = c.hot.lock().unwrap().get(&k).cloned().unwrap_or_default();
      let mut ev = vec![l[0].clone()];
      ev.extend(l[2..].iter().cloned());
      let ev = S::L(ev);
      for o in obs {
        emit(c, &o, &ev);
      }
    }
    "sn" => {
      let s = c.sbj.lock().unwrap()[&l[1].u()].clone();
      s.next(c.v(l[2].i()));
    }
    "se" => {
      let s = c.sbj.lock().unwrap()[&l[1].u()].clone();
      s.error(c.e(l[2].i()));
    }
    "sc" => {
      let s = c.sbj.lock().unwrap()[&l[1].u()].clone();
      s.complete();
    }
    "connect" => {
      let k = c.con.lock().unwrap()[&l[1].u()].clone();
      if let Con::P(p) = k {
        let sub = p.connect();
        c.subs.lock().unwrap().insert(100 + l[1].u(), sub);
      }
    }
    "disconnect" => {
      let sub = c.subs.lock().unwrap().get(&(100 + l[1].u())).cloned();
      if let Some(sub) = sub {
        sub.unsubscribe();
      }
    }
    x => panic!("step {}", x),
  }
}

fn probe(c: &C) {
  let mut s = String::from("probe");
  for (k, v) in c.hot.lock().unwrap().iter() {
    for o in v {
      s += &format!(" h{}:{}", k, o.is_subscribed() as u8);
    }
  }
  for (k, o) in c.cold.lock().unwrap().iter() {
    s += &format!(" k{}:{}", k, o.is_subscribed() as u8);
  }
  for (k, v) in c.subs.lock().unwrap().iter() {
    if *k < 100 {
      s += &format!(" s{}:{}", k, v.is_subscribed() as u8);
    }
  }
  c.log(s);
}

fn run(line: String, tx: mpsc::Sender<Vec<String>>) {
  let s = S::parse(&line);
  let tok = Arc::new(());
  let c: C = Arc::new(Case {
    out: Mutex::new(vec![]),
    hot: Mutex::new(BTreeMap::new()),
    cold: Mutex::new(vec![]),
    subs: Mutex::new(BTreeMap::new()),
    cnt: Mutex::new(BTreeMap::new()),
    root: Mutex::new(None),
    sbj: Mutex::new(BTreeMap::new()),
    con: Mutex::new(BTreeMap::new()),
    cold_n: Mutex::new(BTreeMap::new()),
    wins: AtomicUsize::new(0),
    tok: Mutex::new(Some(tok.clone())),
  });
  let l = s.l();
  // (case (defs...) pipe (steps...))
  for d in l[1].l() {
    let dl = d.l();
    let id = dl[1].u();
    match d.head() {
      "plain" => {
        c.sbj.lock().unwrap().insert(id, Sb::P(subjects::Subject::new()));
      }
      "behavior" => {
        let v = c.v(dl[2].i());
        c.sbj.lock().unwrap().insert(id, Sb::B(subjects::BehaviorSubject::new(v)));
      }
      "replay" => {
        c.sbj.lock().unwrap().insert(id, Sb::R(subjects::ReplaySubject::new()));
      }
      "async" => {
        c.sbj.lock().unwrap().insert(id, Sb::A(subjects::AsyncSubject::new()));
      }
      "publish" => {
        let o = build(&c, &dl[2]);
        c.con.lock().unwrap().insert(id, Con::P(o.publish()));
      }
      "ref_count" => {
        let o = build(&c, &dl[2]);
        c.con.lock().unwrap().insert(id, Con::C(o.ref_count()));
      }
      "creplay" => {
        let o = build(&c, &dl[2]);
        c.con.lock().unwrap().insert(id, Con::R(o.replay()));
      }
      x => panic!("def {}", x),
    }
  }
  let p = build(&c, &l[2]);
  *c.root.lock().unwrap() = Some(p);
  for st in l[3].l() {
    step(&c, st);
    probe(&c);
  }
  // drop every handle, then count the owners of the token
  *c.root.lock().unwrap() = None;
  let h = std::mem::take(&mut *c.hot.lock().unwrap());
  drop(h);
  let h = std::mem::take(&mut *c.cold.lock().unwrap());
  drop(h);
  let h = std::mem::take(&mut *c.subs.lock().unwrap());
  drop(h);
  let h = std::mem::take(&mut *c.sbj.lock().unwrap());
  drop(h);
  let h = std::mem::take(&mut *c.con.lock().unwrap());
  drop(h);
  let _ = c.tok.lock().unwrap().take();
  let mut out = std::mem::take(&mut *c.out.lock().unwrap());
  out.push(format!("own {}", Arc::strong_count(&tok) - 1));
  tx.send(out).unwrap();
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let ms: u64 = std::env::var("RXV_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(3000);
  let stdin = std::io::stdin();
  let so = std::io::stdout();
  for (n, line) in stdin.lock().lines().enumerate() {
    let line = line.unwrap();
    if line.trim().is_empty() {
      continue;
    }
    let (tx, rx) = mpsc::channel();
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || run(line, tx)).unwrap();
    let mut w = so.lock();
    match rx.recv_timeout(Duration::from_millis(ms)) {
      Ok(out) => {
        let _ = h.join();
        writeln!(w, "#case {}", n).unwrap();
        for o in out {
          writeln!(w, "{}", o).unwrap();
        }
        writeln!(w, "#end").unwrap();
      }
      Err(mpsc::RecvTimeoutError::Timeout) => writeln!(w, "#hang {}", n).unwrap(),
      Err(_) => writeln!(w, "#panic {}", n).unwrap(),
    }
  }
  let _ = so.lock().flush();
  std::process::exit(0);
}
