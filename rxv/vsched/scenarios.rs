//! Concurrency scenarios on the copy of the crate that runs under the controlled scheduler.
//! usage: vs SCENARIO FIRST_SEED COUNT        (prints FAIL ... and exits 1 at the first failure)
#![allow(dead_code)]
use another_rxrust::prelude::*;
use another_rxrust::vsched::{self, fail, pick, point, settle, stamp, thread};
use schedulers::IScheduler;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, Weak};
use std::time::Duration;

type V = u64;
fn val(p: usize, i: usize) -> V {
  ((p as u64) << 32) | i as u64
}
fn prod(v: V) -> usize {
  (v >> 32) as usize
}
fn idx(v: V) -> usize {
  (v & 0xffff_ffff) as usize
}
fn show(v: &[V]) -> String {
  v.iter().map(|v| format!("{}.{}", prod(*v), idx(*v))).collect::<Vec<_>>().join(" ")
}
fn ms(n: u64) -> Duration {
  Duration::from_millis(n)
}

macro_rules! check {
  ($tag:expr, $c:expr, $($m:tt)*) => {
    if !$c && vsched::wants($tag) {
      fail(&format!("{} {}", $tag, format!($($m)*)));
    }
  };
}

// ---------------------------------------------------------------- monitor
#[derive(Default)]
struct M {
  items: Vec<Vec<V>>,
  at: Vec<u64>,
  kinds: String,
  threads: Vec<usize>,
  active: usize,
  overlap: bool,
  terms: usize,
  term_ret: Option<u64>,
  unsub_ret: Option<u64>,
  after_term: Vec<String>,
  after_unsub: Vec<String>,
  err: Option<String>,
  term_at: u64,
}

#[derive(Clone)]
struct Mon {
  m: Arc<Mutex<M>>,
  starts: Arc<Mutex<HashMap<V, u64>>>,
  /// how long the callback of each item takes (virtual ms)
  slow: Arc<Vec<u64>>,
}

struct Tok(#[allow(dead_code)] Arc<()>);

impl Mon {
  fn new() -> Mon {
    Mon { m: Default::default(), starts: Default::default(), slow: Default::default() }
  }
  /// a source starts to emit v
  fn start(&self, v: V) -> V {
    self.starts.lock().unwrap().insert(v, stamp());
    v
  }
  fn enter(&self, what: &str, vs: &[V], begun: Option<u64>) {
    let mut m = self.m.lock().unwrap();
    if m.active > 0 {
      m.overlap = true;
    }
    m.active += 1;
    m.threads.push(vsched::me());
    m.at.push(vsched::now() / 1_000_000);
    let s = begun.or_else(|| vs.iter().filter_map(|v| self.starts.lock().unwrap().get(v).copied()).max());
    if let Some(s) = s {
      if m.term_ret.map_or(false, |t| t < s) {
        m.after_term.push(format!("{} {}", what, show(vs)));
      }
      if m.unsub_ret.map_or(false, |t| t < s) {
        m.after_unsub.push(format!("{} {}", what, show(vs)));
      }
    }
  }
  fn leave(&self, term: bool) {
    point();
    let mut m = self.m.lock().unwrap();
    m.active -= 1;
    if term {
      m.term_ret.get_or_insert(stamp());
    }
  }
  fn next(&self, vs: Vec<V>) {
    self.enter("next", &vs, None);
    let k = {
      let mut m = self.m.lock().unwrap();
      m.items.push(vs);
      m.kinds.push('n');
      m.items.len() - 1
    };
    if let Some(t) = self.slow.get(k) {
      thread::sleep(ms(*t));
    }
    self.leave(false);
  }
  fn term(&self, k: char, begun: Option<u64>) {
    self.enter(if k == 'e' { "error" } else { "complete" }, &[], begun);
    {
      let mut m = self.m.lock().unwrap();
      m.terms += 1;
      m.kinds.push(k);
      m.term_at = vsched::now() / 1_000_000;
    }
    self.leave(true);
  }
  fn sub<'a, T>(&self, o: &Observable<'a, T>, f: fn(T) -> Vec<V>) -> (Subscription<'a>, Weak<()>)
  where
    T: Clone + Send + Sync + 'a,
  {
    let tok = Arc::new(());
    let weak = Arc::downgrade(&tok);
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let (ta, tb, tc) = (Tok(tok.clone()), Tok(tok.clone()), Tok(tok));
    let s = o.subscribe(
      move |x| {
        let _ = &ta;
        a.next(f(x))
      },
      move |e| {
        let _ = &tb;
        let s = e.downcast_ref::<u64>().copied();
        b.m.lock().unwrap().err = Some(match s {
          Some(_) => "payload".into(),
          None => match e.downcast_ref::<std::io::Error>() {
            Some(x) => format!("{:?}", x.kind()),
            None => "other".into(),
          },
        });
        b.term('e', s)
      },
      move || {
        let _ = &tc;
        c.term('c', None)
      },
    );
    (s, weak)
  }
  fn unsub(&self, s: &Subscription) {
    s.unsubscribe();
    self.m.lock().unwrap().unsub_ret.get_or_insert(stamp());
  }
  fn flat(&self) -> Vec<V> {
    self.m.lock().unwrap().items.iter().flatten().copied().collect()
  }
  fn contract(&self) {
    let m = self.m.lock().unwrap();
    check!("C19", m.terms <= 1, "{} terminals delivered: {}", m.terms, m.kinds);
    check!("C19", m.after_term.is_empty(), "delivered after the terminal returned: {:?}", m.after_term);
    check!("C05", m.after_unsub.is_empty(), "delivered after unsubscribe returned: {:?}", m.after_unsub);
  }
}

/// the callbacks must be gone once the subscription ended and the handles are dropped
fn released(weak: Weak<()>, what: &str) {
  check!("C17", weak.upgrade().is_none(), "callbacks still owned after the end ({})", what);
}

// ---------------------------------------------------------------- sources
type Obs = Arc<Mutex<Vec<Observer<'static, V>>>>;

/// cold source whose items are emitted by a thread of its own
fn threaded(mon: &Mon, p: usize, n: usize, end: char, seen: &Obs) -> Observable<'static, V> {
  let (mon, seen) = (mon.clone(), seen.clone());
  Observable::create(move |s: Observer<'static, V>| {
    seen.lock().unwrap().push(s.clone());
    let mon = mon.clone();
    thread::named("source", move || {
      for i in 0..n {
        if !s.is_subscribed() {
          return;
        }
        s.next(mon.start(val(p, i)));
      }
      match end {
        'c' => s.complete(),
        'e' => s.error(RxError::from_error(stamp())),
        _ => (),
      }
    });
  })
}

/// hot source: the observers are driven by scripts
fn hot(obs: &Obs) -> Observable<'static, V> {
  let obs = obs.clone();
  Observable::create(move |s| obs.lock().unwrap().push(s))
}

fn drive(mon: &Mon, obs: &Obs, p: usize, script: &str, check_sub: bool) {
  let l: Vec<_> = obs.lock().unwrap().clone();
  for (i, c) in script.chars().enumerate() {
    for s in &l {
      if check_sub && !s.is_subscribed() {
        continue;
      }
      match c {
        'n' => s.next(mon.start(val(p, i))),
        'e' => s.error(RxError::from_error(stamp())),
        _ => s.complete(),
      }
    }
  }
}

fn closed(obs: &Obs, what: &str) {
  for s in obs.lock().unwrap().iter() {
    check!("C06", !s.is_subscribed(), "a source is still subscribed after the end ({})", what);
  }
}

fn script(len: usize, terms: bool) -> String {
  let mut s = String::new();
  for _ in 0..pick(len + 1) {
    s.push(if terms { ['n', 'n', 'n', 'e', 'c'][pick(5)] } else { 'n' });
  }
  s
}

fn one(x: V) -> Vec<V> {
  vec![x]
}
fn many(x: Vec<V>) -> Vec<V> {
  x
}

// ---------------------------------------------------------------- C19 / C05 / C06 / C17 / C07
fn race(op: &str) {
  let mon = Mon::new();
  let obs: Vec<Obs> = (0..3).map(|_| Obs::default()).collect();
  let hots: Vec<_> = obs.iter().map(hot).collect();
  let h = |i: usize| hots[i].clone();
  let mut k = 2;
  let (s, weak) = match op {
    "merge" => {
      k = 3;
      mon.sub(&h(0).merge(&[h(1), h(2)]), one)
    }
    "zip" => mon.sub(&h(0).zip(&[h(1)]), many),
    "combine_latest" => mon.sub(&h(0).combine_latest(&[h(1)], |v| v), many),
    "amb" => {
      k = 3;
      mon.sub(&h(0).amb(&[h(1), h(2)]), one)
    }
    "flat_map" => {
      let (a, b) = (h(1), h(2));
      k = 3;
      mon.sub(&h(0).flat_map(move |x| if idx(x) % 2 == 0 { a.clone() } else { b.clone() }), one)
    }
    "take_until" => mon.sub(&h(0).take_until(h(1)), one),
    "skip_until" => mon.sub(&h(0).skip_until(h(1)), one),
    "sample" => mon.sub(&h(0).sample(h(1)), one),
    "switch_on_next" => mon.sub(&h(0).switch_on_next(h(1)), one),
    "concat" => mon.sub(&h(0).concat(&[h(1)]), one),
    "merge_take" => {
      k = 3;
      let n = 1 + pick(3);
      mon.sub(&h(0).merge(&[h(1), h(2)]).take(n), one)
    }
    "merge_chain" => mon.sub(&h(0).merge(&[h(1)]).map(|x| x).filter(|_| true).scan(|(a, _)| a), one),
    "one" => mon.sub(&h(0).map(|x| x), one),
    "direct" => mon.sub(&h(0), one),
    "retry" => mon.sub(&h(0).merge(&[h(1)]).retry(2), one),
    "sequence_equal" => mon.sub(&h(0).sequence_equal(&[h(1)]), |b| vec![b as V]),
    _ => panic!("op"),
  };
  drop(hots);
  if op == "flat_map" && pick(3) > 0 {
    drive(&mon, &obs[0], 9, "nn", false);
  }
  let mut ths = vec![];
  for p in 0..k {
    let n = if op == "one" || op == "direct" { 1 + pick(2) } else { 1 };
    for q in 0..n {
      let (mon, o, sc) = (mon.clone(), obs[p].clone(), script(4, true));
      let cs = pick(2) == 0;
      ths.push(thread::named("emit", move || drive(&mon, &o, p + 10 * q, &sc, cs)));
    }
  }
  let un = pick(3);
  if un == 0 {
    let (mon, s) = (mon.clone(), s.clone());
    ths.push(thread::named("unsub", move || {
      mon.unsub(&s);
      check!("C05", !s.is_subscribed(), "is_subscribed after unsubscribe");
    }));
  }
  for t in ths {
    t.join().unwrap();
  }
  mon.contract();
  let ended = mon.m.lock().unwrap().terms > 0;
  if ended {
    check!("C05", !s.is_subscribed(), "is_subscribed after the terminal");
  }
  if !ended && un != 0 {
    check!("C05", s.is_subscribed(), "not subscribed without terminal or unsubscribe");
    mon.unsub(&s);
  }
  if op != "amb" && op != "switch_on_next" {
    for o in &obs {
      closed(o, op);
    }
  }
  drop(s);
  for o in &obs {
    let l = std::mem::take(&mut *o.lock().unwrap());
    if op == "amb" || op == "switch_on_next" {
      for x in &l {
        x.next(0);
        check!("C06", !x.is_subscribed(), "a loser is still subscribed after its next emission");
      }
    }
  }
  drop(obs);
  released(weak, op);
}

fn race_subject(kind: &str) {
  let mon = Mon::new();
  let sbj = Sbj::new(kind);
  let (s, weak) = mon.sub(&sbj.observable(), one);
  let mut ths = vec![];
  for p in 0..2 + pick(2) {
    let (mon, sbj, sc) = (mon.clone(), sbj.clone(), script(3, true));
    ths.push(thread::named("emit", move || {
      for (i, c) in sc.chars().enumerate() {
        match c {
          'n' => sbj.next(mon.start(val(p, i))),
          'e' => sbj.error(),
          _ => sbj.complete(),
        }
      }
    }));
  }
  if pick(3) == 0 {
    let (mon, s) = (mon.clone(), s.clone());
    ths.push(thread::named("unsub", move || mon.unsub(&s)));
  }
  if pick(2) == 0 {
    let sbj = sbj.clone();
    ths.push(thread::named("late", move || {
      let m2 = Mon::new();
      let (s2, w2) = m2.sub(&sbj.observable(), one);
      m2.unsub(&s2);
      drop(s2);
      m2.contract();
      drop(sbj);
      let _ = w2;
    }));
  }
  for t in ths {
    t.join().unwrap();
  }
  mon.contract();
  mon.unsub(&s);
  drop(s);
  drop(sbj);
  released(weak, kind);
}

#[derive(Clone)]
enum Sbj {
  P(subjects::Subject<'static, V>),
  B(subjects::BehaviorSubject<'static, V>),
  R(subjects::ReplaySubject<'static, V>),
  A(subjects::AsyncSubject<'static, V>),
}
impl Sbj {
  fn new(k: &str) -> Sbj {
    match k {
      "plain" => Sbj::P(subjects::Subject::new()),
      "behavior" => Sbj::B(subjects::BehaviorSubject::new(val(99, 0))),
      "replay" => Sbj::R(subjects::ReplaySubject::new()),
      _ => Sbj::A(subjects::AsyncSubject::new()),
    }
  }
  fn next(&self, v: V) {
    match self {
      Sbj::P(s) => s.next(v),
      Sbj::B(s) => s.next(v),
      Sbj::R(s) => s.next(v),
      Sbj::A(s) => s.next(v),
    }
  }
  fn error(&self) {
    let e = RxError::from_error(stamp());
    match self {
      Sbj::P(s) => s.error(e),
      Sbj::B(s) => s.error(e),
      Sbj::R(s) => s.error(e),
      Sbj::A(s) => s.error(e),
    }
  }
  fn complete(&self) {
    match self {
      Sbj::P(s) => s.complete(),
      Sbj::B(s) => s.complete(),
      Sbj::R(s) => s.complete(),
      Sbj::A(s) => s.complete(),
    }
  }
  fn observable(&self) -> Observable<'static, V> {
    match self {
      Sbj::P(s) => s.observable(),
      Sbj::B(s) => s.observable(),
      Sbj::R(s) => s.observable(),
      Sbj::A(s) => s.observable(),
    }
  }
}

/// subscriptions that end - some of them while they are being set up - leave nothing behind in
/// an object that lives on
fn hold(kind: &str) {
  let obs = Obs::default();
  let src = hot(&obs);
  let o: Observable<'static, V> = match kind {
    "ref_count" => src.ref_count().observable(),
    "replay" => src.replay().observable(),
    "publish" => src.publish().observable(),
    k => Sbj::new(&k[1..]).observable(),
  };
  let op = pick(4);
  let mut counts = vec![];
  Mon::new().sub(&o, one).0.unsubscribe();
  obs.lock().unwrap().clear();
  for _ in 0..4 {
    {
      let mon = Mon::new();
      let seen = Obs::default();
      let other = threaded(&mon, 5, 1, if op == 1 || op == 3 { 'e' } else { 'c' }, &seen);
      let (s, _w) = match op {
        0 => mon.sub(&o.take_until(other), one),
        1 => mon.sub(&other.merge(&[o.clone()]), one),
        2 => mon.sub(&other.amb(&[o.clone()]), one),
        _ => mon.sub(&other.zip(&[o.clone()]), many),
      };
      settle(10);
      s.unsubscribe();
      settle(10);
      seen.lock().unwrap().clear();
    }
    closed(&obs, kind);
    obs.lock().unwrap().clear();
    counts.push(vsched::sync::live());
  }
  check!("C06", counts[3] <= counts[1], "observers of ended subscriptions are still held: {:?}", counts);
}

// ---------------------------------------------------------------- C11
fn per_producer(v: &[V], tag: &str, n: &[usize], exact: bool) {
  let mut at: HashMap<usize, usize> = HashMap::new();
  for x in v {
    let e = at.entry(prod(*x)).or_insert(0);
    check!(tag, idx(*x) == *e, "items lost, repeated or reordered: {}", show(v));
    *e += 1;
  }
  if exact {
    for (p, k) in n.iter().enumerate() {
      check!(tag, at.get(&p).copied().unwrap_or(0) == *k, "producer {} emitted {} items, received: {}", p, k, show(v));
    }
  }
}

fn conserve(op: &str) {
  let mon = Mon::new();
  let seen = Obs::default();
  let k = 2 + pick(2);
  let n: Vec<usize> = (0..k).map(|_| pick(4)).collect();
  let src: Vec<_> = (0..k).map(|p| threaded(&mon, p, n[p], 'c', &seen)).collect();
  let rest = &src[1..];
  let mut lim = usize::MAX;
  let (s, weak) = match op {
    "merge" => mon.sub(&src[0].merge(rest), one),
    "concat" => mon.sub(&src[0].concat(rest), one),
    "zip" => mon.sub(&src[0].zip(rest), many),
    "amb" => mon.sub(&src[0].amb(rest), one),
    "merge_take" => {
      lim = 1 + pick(3);
      mon.sub(&src[0].merge(rest).take(lim), one)
    }
    "flat_map" => {
      let l = src.clone();
      mon.sub(&observables::range(0, k as i64).flat_map(move |i| l[i as usize].clone()), one)
    }
    "flat_map_threaded" => {
      let l = src.clone();
      let m2 = Mon::new();
      mon.sub(&threaded(&m2, 0, k, 'c', &Obs::default()).flat_map(move |i| l[idx(i)].clone()), one)
    }
    "merge_nested" => mon.sub(&src[0].merge(rest).map(|x| x).merge(&[observables::empty()]), one),
    _ => panic!("op"),
  };
  settle(1000);
  mon.contract();
  let m = mon.m.lock().unwrap();
  let all: Vec<V> = m.items.iter().flatten().copied().collect();
  check!("C11", m.terms == 1 && m.kinds.ends_with('c'), "not exactly one complete after the last item: {} (sources {:?})", m.kinds, n);
  match op {
    "merge" | "flat_map" | "flat_map_threaded" | "merge_nested" => per_producer(&all, "C11", &n, true),
    "concat" => {
      per_producer(&all, "C11", &n, true);
      let mut s = all.clone();
      s.sort();
      check!("C11", s == all, "concat interleaves: {}", show(&all));
    }
    "zip" => {
      let mn = *n.iter().min().unwrap();
      check!("C11", m.items.len() == mn, "{} tuples for {:?}", m.items.len(), n);
      let mut got: Vec<usize> = vec![];
      for t in &m.items {
        let i = idx(t[0]);
        got.push(i);
        for (p, v) in t.iter().enumerate() {
          check!("C11", prod(*v) == p && idx(*v) == i, "wrong tuple {}", show(t));
        }
      }
      got.sort();
      check!("C11", got == (0..mn).collect::<Vec<_>>(), "tuples missing or repeated");
    }
    "amb" => {
      let p = all.first().map(|v| prod(*v));
      check!("C11", all.iter().all(|v| Some(prod(*v)) == p), "items of two inputs: {}", show(&all));
      match p {
        Some(p) => {
          let mut w = vec![0; k];
          w[p] = n[p];
          per_producer(&all, "C11", &w, true);
        }
        None => check!("C11", n.iter().any(|x| *x == 0), "no item of any input"),
      }
    }
    "merge_take" => {
      let tot: usize = n.iter().sum();
      check!("C11", all.len() <= tot.min(lim), "take({}) of {} delivered {}", lim, tot, all.len());
    }
    _ => (),
  }
  drop(m);
  drop((s, src));
  seen.lock().unwrap().clear();
  released(weak, op);
}

// ---------------------------------------------------------------- C12
fn multi(kind: &str) {
  let sbj = Sbj::new(kind);
  let np = 1 + pick(3);
  let n: Vec<usize> = (0..np).map(|_| 1 + pick(3)).collect();
  let full = Mon::new();
  let (_s, _w) = full.sub(&sbj.observable(), one);
  let pushed: Arc<Mutex<Vec<(u64, u64, V)>>> = Default::default();
  let mut ths = vec![];
  for p in 0..np {
    let (sbj, n, pushed) = (sbj.clone(), n[p], pushed.clone());
    ths.push(thread::named("producer", move || {
      for i in 0..n {
        let a = stamp();
        sbj.next(val(p, i));
        pushed.lock().unwrap().push((a, stamp(), val(p, i)));
      }
    }));
  }
  let lates: Vec<(Mon, usize)> = (0..2).map(|_| (Mon::new(), pick(2))).collect();
  for (late, when) in &lates {
    let (sbj, late, when) = (sbj.clone(), late.clone(), *when);
    ths.push(thread::named("late", move || {
      let (s, _w) = late.sub(&sbj.observable(), one);
      if when == 1 {
        point();
        point();
        late.unsub(&s);
      }
    }));
  }
  for t in ths {
    t.join().unwrap();
  }
  if kind == "async" {
    sbj.complete();
    let f = full.flat();
    check!("C12", f.len() == 1, "async subject delivered {}", show(&f));
    check!("C12", idx(f[0]) + 1 == n[prod(f[0])], "async subject delivered an item that was not the last: {}", show(&f));
    for (late, when) in &lates {
      if *when == 0 {
        check!("C12", late.flat() == f, "another subscriber of the async subject got {} instead of {}", show(&late.flat()), show(&f));
      }
    }
    return;
  }
  // everybody who stayed gets what comes now, exactly once
  sbj.next(val(77, 0));
  let last = |m: &Mon| {
    let l = m.flat();
    check!("C12", l.last() == Some(&val(77, 0)) && l.iter().filter(|v| prod(**v) == 77).count() == 1, "a subscriber that stayed did not get the next item once: {}", show(&l));
  };
  let strip = |v: Vec<V>| v.into_iter().filter(|x| prod(*x) != 99 && prod(*x) != 77).collect::<Vec<_>>();
  last(&full);
  per_producer(&strip(full.flat()), "C12", &n, true);
  for (late, when) in &lates {
    let when = *when;
    if when == 0 {
      last(late);
    }
    let l: Vec<V> = late.flat().into_iter().filter(|x| prod(*x) != 77).collect();
    if kind == "replay" {
      per_producer(&l, "C12", &n, when == 0);
      let pushed = pushed.lock().unwrap();
      for (i, a) in l.iter().enumerate() {
        for b in &l[i + 1..] {
          let (pa, pb) = (pushed.iter().find(|x| x.2 == *a).unwrap(), pushed.iter().find(|x| x.2 == *b).unwrap());
          check!("C12", !(pb.1 < pa.0), "not in push order: {}", show(&l));
        }
      }
    } else {
      // per producer gap-free
      let mut at: HashMap<usize, usize> = HashMap::new();
      for (j, x) in l.iter().enumerate() {
        if prod(*x) == 99 {
          check!("C12", kind == "behavior" && j == 0, "initial value delivered late: {}", show(&l));
          continue;
        }
        if let Some(e) = at.get(&prod(*x)) {
          check!("C12", idx(*x) == *e, "gap or repetition for a late subscriber: {}", show(&l));
        }
        at.insert(prod(*x), idx(*x) + 1);
      }
      if when == 0 {
        for (p, e) in &at {
          check!("C12", *e == n[*p], "not a suffix: {} of {:?}", show(&l), n);
        }
        if kind == "behavior" {
          check!("C12", !l.is_empty(), "no current value for a late subscriber");
          if prod(l[0]) == 99 {
            for p in 0..np {
              check!("C12", at.get(&p).is_some() && l.iter().any(|v| *v == val(p, 0)), "values after the initial one lost: {} of {:?}", show(&l), n);
            }
          }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- C08
/// goes away with the task that owns it
struct Token(usize, usize, Arc<Mutex<std::collections::HashSet<(usize, usize)>>>);
impl Drop for Token {
  fn drop(&mut self) {
    self.2.lock().unwrap().insert((self.0, self.1));
  }
}

fn queue(how: &str) {
  let gone: Arc<Mutex<std::collections::HashSet<(usize, usize)>>> = Default::default();
  let base = vsched::alive();
  let s = schedulers::new_thread_scheduler()();
  let log: Arc<Mutex<Vec<(usize, usize, usize)>>> = Default::default();
  let posts: Arc<Mutex<Vec<(u64, u64, usize, usize)>>> = Default::default();
  let act = Arc::new(Mutex::new(0usize));
  let aborted: Arc<Mutex<Option<usize>>> = Default::default();
  let abort_begun: Arc<Mutex<Option<u64>>> = Default::default();
  let np = 1 + pick(3);
  let inside = how == "inside";
  let (ip, ii) = (pick(np), pick(3));
  let mut ths = vec![];
  for p in 0..np {
    let (s, log, posts, act, aborted, abort_begun) = (s.clone(), log.clone(), posts.clone(), act.clone(), aborted.clone(), abort_begun.clone());
    let gone = gone.clone();
    let n = 1 + pick(3);
    ths.push(thread::named("poster", move || {
      let poster = vsched::me();
      for i in 0..n {
        let a = stamp();
        let (log, act, aborted, abort_begun, s2) = (log.clone(), act.clone(), aborted.clone(), abort_begun.clone(), s.clone());
        let s3: Arc<Mutex<Option<_>>> = Arc::new(Mutex::new(Some(s2)));
        let token = Arc::new(Token(p, i, gone.clone()));
        s.post(move || {
          let _ = &token;
          {
            let mut k = act.lock().unwrap();
            *k += 1;
            check!("C08", *k == 1, "two tasks at a time");
            // at most the task that had been taken before abort returned
            if let Some(left) = aborted.lock().unwrap().as_mut() {
              check!("C08", *left > 0, "task {}.{} taken after abort returned", p, i);
              *left -= 1;
            }
          }
          check!("C08", vsched::me() != poster, "a task runs on the thread that posted it");
          log.lock().unwrap().push((p, i, vsched::me()));
          point();
          if inside && (p, i) == (ip, ii) {
            let s2 = s3.lock().unwrap().take();
            if let Some(s2) = s2 {
              abort_begun.lock().unwrap().get_or_insert(stamp());
              s2.abort();
              *aborted.lock().unwrap() = Some(0);
            }
          }
          *act.lock().unwrap() -= 1;
        });
        posts.lock().unwrap().push((a, stamp(), p, i));
      }
    }));
  }
  if how == "abort" {
    let (s, aborted, abort_begun, act) = (s.clone(), aborted.clone(), abort_begun.clone(), act.clone());
    ths.push(thread::named("abort", move || {
      for _ in 0..pick(6) {
        point();
      }
      abort_begun.lock().unwrap().get_or_insert(stamp());
      s.abort();
      let k = act.lock().unwrap();
      *aborted.lock().unwrap() = Some(1 - *k);
    }));
  }
  for t in ths {
    t.join().unwrap();
  }
  settle(10);
  let log = log.lock().unwrap();
  let posts = posts.lock().unwrap();
  let mut seen = std::collections::HashSet::new();
  for x in log.iter() {
    check!("C08", seen.insert((x.0, x.1)), "task {}.{} ran twice", x.0, x.1);
    check!("C08", x.2 == log[0].2, "tasks ran on two threads");
  }
  let pos = |p: usize, i: usize| log.iter().position(|x| (x.0, x.1) == (p, i));
  for a in posts.iter() {
    for b in posts.iter() {
      if a.1 < b.0 {
        if let (Some(x), Some(y)) = (pos(a.2, a.3), pos(b.2, b.3)) {
          check!("C08", x < y, "tasks ran out of order");
        }
        if how == "no" || b.1 < abort_begun.lock().unwrap().unwrap_or(0) {
          check!("C08", !(pos(a.2, a.3).is_none() && pos(b.2, b.3).is_some()), "a task was skipped");
        }
      }
    }
  }
  if abort_begun.lock().unwrap().is_none() {
    check!("C08", log.len() == posts.len(), "{} of {} tasks ran", log.len(), posts.len());
    s.abort();
    settle(10);
  } else {
    let at = abort_begun.lock().unwrap().unwrap_or(0);
    for a in posts.iter() {
      check!("C08", a.1 >= at || gone.lock().unwrap().contains(&(a.2, a.3)), "task {}.{} was neither run nor discarded by abort", a.2, a.3);
    }
  }
  check!("C08", vsched::alive() == base, "the worker thread did not end after abort: {}", vsched::blocked_names());
}

fn queue_default() {
  let s = schedulers::default_scheduler()();
  let ran = Arc::new(Mutex::new(None));
  let r = ran.clone();
  s.post(move || *r.lock().unwrap() = Some(vsched::me()));
  check!("C08", *ran.lock().unwrap() == Some(vsched::me()), "the default scheduler does not run in post");
}

// ---------------------------------------------------------------- C09
fn observe(how: &str) {
  let base = vsched::alive();
  let mon = Mon::new();
  let obs = Obs::default();
  let src = hot(&obs);
  let seen = Obs::default();
  let n = pick(5);
  let end = ['c', 'e', '-'][pick(3)];
  let un = pick(3) == 0;
  let emit_threads: Arc<Mutex<Vec<usize>>> = Default::default();
  let (s, weak) = match how {
    "observe_on" => mon.sub(&src.observe_on(schedulers::new_thread_scheduler()), one),
    "observe_on_cold" => {
      let et = emit_threads.clone();
      mon.sub(&threaded(&mon, 0, n, end, &seen).map(move |x| {
        et.lock().unwrap().push(vsched::me());
        x
      }).observe_on(schedulers::new_thread_scheduler()), one)
    }
    "observe_twice" => {
      mon.sub(&src.observe_on(schedulers::new_thread_scheduler()).map(|x| x).observe_on(schedulers::new_thread_scheduler()), one)
    }
    "subscribe_on" | "both" => {
      let (m2, et) = (mon.clone(), emit_threads.clone());
      let cold = Observable::create(move |s: Observer<'static, V>| {
        et.lock().unwrap().push(vsched::me());
        for i in 0..n {
          s.next(m2.start(val(0, i)));
        }
        match end {
          'c' => s.complete(),
          'e' => s.error(RxError::from_error(stamp())),
          _ => (),
        }
      });
      if how == "both" {
        mon.sub(&cold.subscribe_on(schedulers::new_thread_scheduler()).observe_on(schedulers::new_thread_scheduler()), one)
      } else {
        mon.sub(&cold.subscribe_on(schedulers::new_thread_scheduler()), one)
      }
    }
    _ => panic!(),
  };
  let me = vsched::me();
  let mut ths = vec![];
  if how.starts_with("observe_on") && how != "observe_on_cold" || how == "observe_twice" {
    let (mon, obs, et) = (mon.clone(), obs.clone(), emit_threads.clone());
    ths.push(thread::named("emit", move || {
      et.lock().unwrap().push(vsched::me());
      let sc: String = "n".repeat(n) + match end { 'c' => "c", 'e' => "e", _ => "" };
      drive(&mon, &obs, 0, &sc, false);
    }));
  }
  if un {
    let (mon, s) = (mon.clone(), s.clone());
    ths.push(thread::named("unsub", move || {
      for _ in 0..pick(12) {
        point();
      }
      mon.unsub(&s)
    }));
  }
  for t in ths {
    t.join().unwrap();
  }
  settle(100);
  {
    let m = mon.m.lock().unwrap();
    check!("C09", m.terms <= 1, "{} terminals", m.terms);
    check!("C09", m.after_unsub.is_empty(), "delivered after unsubscribe returned: {:?}", m.after_unsub);
    check!("C09", !m.overlap, "two callbacks at once");
    let all: Vec<V> = m.items.iter().flatten().copied().collect();
    per_producer(&all, "C09", &[n], !un);
    check!("C09", !m.kinds[..m.kinds.len().saturating_sub(1)].contains(['c', 'e']), "an item after the terminal: {}", m.kinds);
    if !un {
      let want: String = "n".repeat(n) + match end { 'c' => "c", 'e' => "e", _ => "" };
      check!("C09", m.kinds == want, "the source emitted {}, the subscriber got {}", want, m.kinds);
    }
    let et = emit_threads.lock().unwrap();
    for t in &m.threads {
      check!("C09", *t != me, "a callback on the subscribing thread");
      if how != "subscribe_on" {
        check!("C09", !et.contains(t), "a callback on the emitting thread");
      }
      check!("C09", *t == m.threads[0], "callbacks on two threads");
    }
    if how == "subscribe_on" || how == "both" {
      check!("C09", et.iter().all(|t| *t != me), "the source was subscribed on the caller's thread");
      check!("C09", un || et.len() == 1, "the source was subscribed {} times", et.len());
    }
  }
  if !un && end == '-' {
    mon.unsub(&s);
  }
  settle(100);
  check!("C15", vsched::alive() == base, "threads left: {}", vsched::blocked_names());
  drop((s, src));
  closed(&obs, how);
  obs.lock().unwrap().clear();
  seen.lock().unwrap().clear();
  released(weak, how);
}

// ---------------------------------------------------------------- C15 / C16
fn nts() -> fn() -> schedulers::NewThreadScheduler<'static> {
  schedulers::new_thread_scheduler()
}

fn timed(how: &str) {
  let base = vsched::alive();
  let mut mon = Mon::new();
  if how == "timeout_slow" {
    mon.slow = Arc::new((0..6).map(|_| [0, 2, 7, 12, 25][pick(5)]).collect());
  }
  let mon = mon;
  let obs = Obs::default();
  let src = hot(&obs);
  let d = 10u64;
  let to_v = |x: u64| vec![x];
  let unit = |_: ()| vec![0];
  let t0 = vsched::now() / 1_000_000;
  let (s, weak) = match how {
    "interval" => mon.sub(&observables::interval(ms(d), nts()), to_v),
    "interval_take" => mon.sub(&observables::interval(ms(d), nts()).take(2), to_v),
    "interval_chain" => mon.sub(&observables::interval(ms(d), nts()).map(|x| x).observe_on(nts()).take(3), to_v),
    "interval_until" => mon.sub(&observables::interval(ms(d), nts()).take_until(observables::timer(ms(25), nts())), to_v),
    "interval_first_sub_on" => mon.sub(&observables::interval(ms(d), nts()).subscribe_on(nts()).first(), to_v),
    "interval_zip" => mon.sub(&observables::interval(ms(d), nts()).zip(&[observables::interval(ms(d), nts())]).take(2), many),
    "interval_flat" => mon.sub(&observables::range(0, 2).flat_map(move |_| observables::interval(ms(10), nts()).take(2)), to_v),
    "interval_amb" => mon.sub(&observables::interval(ms(d), nts()).amb(&[observables::interval(ms(5), nts())]).take(3), to_v),
    "interval_timeout" => mon.sub(&observables::interval(ms(d), nts()).timeout(ms(15), nts()), to_v),
    "timer" => mon.sub(&observables::timer(ms(d), nts()), unit),
    "observe_on" => mon.sub(&src.observe_on(nts()), one),
    "subscribe_on" => mon.sub(&src.subscribe_on(nts()), one),
    "debounce" => mon.sub(&src.debounce(ms(d), nts()), one),
    "timeout" => mon.sub(&src.timeout(ms(d), nts()), one),
    "delay" => mon.sub(&src.delay(ms(d)), one),
    "sample" => mon.sub(&src.sample(observables::interval(ms(d), nts())), one),
    "retry_timeout" => mon.sub(&src.timeout(ms(d), nts()).retry(2), one),
    // a subscriber that is slow: the time it takes is no silence of the source
    "timeout_slow" => mon.sub(&src.timeout(ms(d), nts()), one),
    _ => panic!(),
  };
  let hotsrc = matches!(how, "observe_on" | "subscribe_on" | "debounce" | "timeout" | "delay" | "sample" | "retry_timeout" | "timeout_slow");
  let mut emitted: Vec<(u64, V)> = vec![];
  let mut end_at = None;
  let mut last_done = None;
  if hotsrc {
    vsched::settle(0);
    for i in 0..pick(5) {
      let gap = [1u64, 3, 7, 12, 25][pick(5)];
      thread::sleep(ms(gap));
      let l = obs.lock().unwrap().clone();
      if how == "retry_timeout" && !s.is_subscribed() {
        break;
      }
      emitted.push((vsched::now() / 1_000_000, val(0, i)));
      for o in l {
        o.next(val(0, i));
      }
      last_done = Some(vsched::now() / 1_000_000);
    }
    let end = pick(4);
    if end < 2 {
      let l = obs.lock().unwrap().clone();
      end_at = Some(vsched::now() / 1_000_000);
      for o in l {
        if end == 0 {
          o.complete()
        } else {
          o.error(RxError::from_error(stamp()))
        }
      }
    } else {
      thread::sleep(ms([2, 33, 38][pick(3)]));
    }
  } else {
    thread::sleep(ms([1, 15, 25, 36, 61][pick(5)]));
  }
  let t_un = vsched::now() / 1_000_000;
  mon.unsub(&s);
  settle(d + 1);
  if !how.starts_with("timeout") && how != "retry_timeout" && how != "interval_until" && how != "interval_timeout" {
    check!("C15", vsched::alive() == base, "threads left one period after the end ({}): {}", how, vsched::blocked_names());
  }
  settle(40);
  check!("C15", vsched::alive() == base, "threads left ({}): {}", how, vsched::blocked_names());
  let m = mon.m.lock().unwrap();
  check!("C16", m.at.iter().all(|t| *t <= t_un) && m.term_at <= t_un, "events after unsubscribe ({}): {}", how, m.kinds);
  check!("C16", m.terms <= 1 && !m.kinds[..m.kinds.len().saturating_sub(1)].contains(['c', 'e']), "events after the terminal: {}", m.kinds);
  let all: Vec<V> = m.items.iter().flatten().copied().collect();
  let el = t_un - t0;
  match how {
    "interval" => {
      let k = (el / d) as usize;
      check!("C16", all == (0..k as u64).collect::<Vec<_>>(), "interval emitted {:?} within {} ms", all, el);
      for (i, t) in m.at.iter().enumerate() {
        check!("C16", *t == t0 + d * (i as u64 + 1), "interval emitted item {} at {}", i, t - t0);
      }
    }
    "timer" => {
      if el < d {
        check!("C16", m.kinds.is_empty(), "timer fired after {} ms", el);
      } else {
        check!("C16", m.kinds == "nc" && m.at[0] == t0 + d, "timer: {} at {:?}", m.kinds, m.at);
      }
    }
    "interval_take" if el > 2 * d => check!("C16", m.kinds == "nnc", "interval.take(2): {}", m.kinds),
    "delay" => {
      let want: Vec<V> = emitted.iter().map(|x| x.1).collect();
      check!("C16", all == want, "delay delivered {} of {}", show(&all), show(&want));
      for (i, t) in m.at.iter().take(all.len()).enumerate() {
        check!("C16", *t == emitted[i].0 + d, "delay handed item {} on after {} ms", i, t - emitted[i].0);
      }
    }
    "sample" | "debounce" => {
      let want: Vec<V> = emitted.iter().map(|x| x.1).collect();
      let mut it = want.iter();
      for v in &all {
        check!("C16", it.any(|w| w == v), "{} delivered {} of {}", how, show(&all), show(&want));
      }
    }
    "timeout" => {
      // first gap of more than d after an item
      let mut exp: Vec<V> = vec![];
      let mut fired = None;
      for (i, (t, v)) in emitted.iter().enumerate() {
        exp.push(*v);
        let nxt = emitted.get(i + 1).map(|x| x.0).or(end_at).unwrap_or(t_un);
        if nxt - t > d {
          fired = Some(t + d);
          break;
        }
      }
      check!("C16", all == exp, "timeout delivered {} of {}", show(&all), show(&exp));
      match fired {
        Some(t) => {
          check!("C16", m.kinds.ends_with('e') && m.err.as_deref() == Some("TimedOut"), "no TimedOut error: {} {:?}", m.kinds, m.err);
          check!("C16", m.term_at == t, "timed out at {}, expected {}", m.term_at, t);
        }
        None => check!("C16", m.err.as_deref() != Some("TimedOut"), "timed out without a gap"),
      }
    }
    "timeout_slow" => {
      if m.err.as_deref() == Some("TimedOut") {
        let t = m.term_at;
        for (a, v) in emitted.iter().filter(|x| x.0 <= t) {
          check!("C16", t - a >= d, "timed out {} ms after item {}", t - a, idx(*v));
        }
      } else if let Some(l) = last_done {
        check!("C16", end_at.unwrap_or(t_un) <= l + d, "no TimedOut error within {} ms of silence", end_at.unwrap_or(t_un) - l);
        let want: Vec<V> = emitted.iter().map(|x| x.1).collect();
        check!("C16", all == want, "timeout delivered {} of {}", show(&all), show(&want));
      }
    }
    "interval_timeout" => check!("C16", m.err.is_none(), "timeout(15) of interval(10) failed"),
    _ => (),
  }
  drop(m);
  drop((s, src));
  if how != "retry_timeout" {
    closed(&obs, how);
  }
  obs.lock().unwrap().clear();
  released(weak, how);
}

// ---------------------------------------------------------------- C14
fn timed_value(how: &str) -> Observable<'static, V> {
  let d = 10;
  let src = || observables::from_iter((0..3).map(|i| val(0, i)).collect::<Vec<_>>().into_iter());
  let ticks = |p: u64, n: usize| observables::interval(ms(p), nts()).take(n);
  match how {
    "observe_on" => src().observe_on(nts()),
    "subscribe_on" => src().subscribe_on(nts()),
    "both" => src().subscribe_on(nts()).observe_on(nts()),
    "observe_ticks" => ticks(7, 3).observe_on(nts()),
    "interval" => ticks(d, 3),
    "timer" => observables::timer(ms(d), nts()).map(|_| 0),
    "delay" => ticks(7, 3).delay(ms(3)),
    "debounce" => ticks(7, 4).debounce(ms(d), nts()),
    "sample" => ticks(7, 4).sample(observables::interval(ms(d), nts())),
    "timeout" => ticks(7, 3).timeout(ms(d), nts()),
    "timeout_late" => ticks(7, 2).merge(&[ticks(19, 1)]).timeout(ms(d), nts()),
    "merge" => ticks(7, 3).merge(&[ticks(d, 2)]),
    "zip" => ticks(7, 3).zip(&[ticks(d, 2)]).map(|v| v[0] * 1000 + v[1]),
    "flat_map" => ticks(7, 2).flat_map(move |_| observables::interval(ms(10), nts()).take(2)),
    "amb" => ticks(7, 2).amb(&[ticks(d, 2)]),
    "take_until" => ticks(7, 5).take_until(observables::timer(ms(25), nts())),
    "skip_until" => ticks(7, 5).skip_until(observables::timer(ms(25), nts())),
    "switch_on_next" => ticks(7, 5).switch_on_next(ticks(16, 2)),
    "retry" => ticks(7, 1).merge(&[ticks(19, 1)]).timeout(ms(d), nts()).retry(2),
    _ => panic!("op"),
  }
}

/// two subscriptions of one value, at times of their own: each receives what it would alone
fn twice(how: &str) {
  let alone = |o: &Observable<'static, V>| {
    let mon = Mon::new();
    let t0 = vsched::now() / 1_000_000;
    let (s, _w) = mon.sub(o, one);
    settle(150);
    s.unsubscribe();
    let m = mon.m.lock().unwrap();
    (m.kinds.clone(), m.items.iter().flatten().copied().collect::<Vec<V>>(), m.at.iter().map(|t| t - t0).collect::<Vec<_>>())
  };
  let want = alone(&timed_value(how));
  let o = timed_value(how);
  let mut ths = vec![];
  for i in 0..2 {
    let (o, want, how) = (o.clone(), want.clone(), how.to_string());
    let wait = if i == 0 { 0 } else { [0, 1, 5, 26, 51][pick(5)] };
    let leave = [None, None, Some(4u64), Some(12)][pick(4)];
    ths.push(thread::named("sub", move || {
      thread::sleep(ms(wait));
      let mon = Mon::new();
      let t0 = vsched::now() / 1_000_000;
      let (s, _w) = mon.sub(&o, one);
      let used = vsched::now() / 1_000_000 - t0;
      let mut upto = u64::MAX;
      if let Some(t) = leave {
        thread::sleep(ms(t.saturating_sub(used)));
        upto = vsched::now() / 1_000_000 - t0;
        s.unsubscribe();
      }
      thread::sleep(ms(150));
      let m = mon.m.lock().unwrap();
      let all: Vec<V> = m.items.iter().flatten().copied().collect();
      let at: Vec<u64> = m.at.iter().map(|t| t - t0).collect();
      if upto == u64::MAX {
        check!("C14", m.kinds == want.0 && all == want.1 && at == want.2, "one of two subscriptions of {} received {} {} at {:?}, alone {} {} at {:?}", how, m.kinds, show(&all), at, want.0, show(&want.1), want.2);
      } else {
        // whoever leaves gets a prefix, with everything due before
        let k = want.2.iter().filter(|t| **t < upto).count();
        check!("C14", at.len() >= k && want.0.starts_with(&m.kinds) && want.1.starts_with(&all) && want.2.starts_with(&at), "one of two subscriptions of {}, leaving after {}, received {} {} at {:?}, alone {} {} at {:?}", how, upto, m.kinds, show(&all), at, want.0, show(&want.1), want.2);
      }
    }));
  }
  for t in ths {
    t.join().unwrap();
  }
}

// ---------------------------------------------------------------- C18
struct Flag {
  m: another_rxrust::vsched::sync::Mutex<bool>,
  c: another_rxrust::vsched::sync::Condvar,
}
impl std::task::Wake for Flag {
  fn wake(self: Arc<Self>) {
    *self.m.lock().unwrap() = true;
    self.c.notify_one();
  }
}

fn to_vec(how: &str) {
  use std::future::Future;
  let mon = Mon::new();
  let seen = Obs::default();
  let n = pick(4);
  let end = ['c', 'e'][pick(2)];
  let done = Arc::new(Mutex::new(false));
  let done2 = done.clone();
  let m2 = mon.clone();
  let src = Observable::create(move |s: Observer<'static, V>| {
    let (done, m2) = (done2.clone(), m2.clone());
    thread::named("source", move || {
      for i in 0..n {
        s.next(m2.start(val(0, i)));
      }
      *done.lock().unwrap() = true;
      match end {
        'c' => s.complete(),
        _ => s.error(RxError::from_error(7u64)),
      }
    });
  });
  let mut f = Box::pin(src.to_vec());
  let mut polls = 0;
  loop {
    // every poll may come with a new waker
    let flag = Arc::new(Flag { m: another_rxrust::vsched::sync::Mutex::new(false), c: another_rxrust::vsched::sync::Condvar::new() });
    let waker = std::task::Waker::from(flag.clone());
    let mut cx = std::task::Context::from_waker(&waker);
    polls += 1;
    match f.as_mut().poll(&mut cx) {
      std::task::Poll::Ready(r) => {
        check!("C18", *done.lock().unwrap(), "ready before the source terminated");
        match (r, end) {
          (Ok(v), 'c') => {
            let v = v.read().unwrap().clone();
            check!("C18", v == (0..n).map(|i| val(0, i)).collect::<Vec<_>>(), "to_vec yields {} for {} items", show(&v), n);
          }
          (Err(e), 'e') => check!("C18", e.downcast_ref::<u64>() == Some(&7), "another error"),
          _ => check!("C18", false, "resolved with the wrong outcome"),
        }
        break;
      }
      std::task::Poll::Pending => (),
    }
    if how == "busy" && pick(2) == 0 && polls < 6 {
      point();
      continue;
    }
    let mut g = flag.m.lock().unwrap();
    while !*g {
      g = flag.c.wait(g).unwrap();
    }
  }
  let _ = seen;
}

// ---------------------------------------------------------------- connectables from several threads (C07, C05)
fn connect(how: &str) {
  let mon = Mon::new();
  let obs = Obs::default();
  let src = hot(&obs);
  let o = match how {
    "ref_count" => src.ref_count().observable(),
    "replay" => src.replay().observable(),
    _ => src.publish().observable(),
  };
  let mut ths = vec![];
  for _ in 0..2 {
    let (o, mon) = (o.clone(), Mon::new());
    let un = pick(2);
    ths.push(thread::named("sub", move || {
      let (s, _w) = mon.sub(&o, one);
      if un == 0 {
        point();
        mon.unsub(&s);
      }
      mon.contract();
    }));
  }
  let sc = script(3, true);
  {
    let (mon, obs) = (mon.clone(), obs.clone());
    ths.push(thread::named("emit", move || {
      point();
      drive(&mon, &obs, 0, &sc, true)
    }));
  }
  for t in ths {
    t.join().unwrap();
  }
}

// ---------------------------------------------------------------- C05: a subscription made by hand
fn unsub(how: &str) {
  let runs = Arc::new(Mutex::new(0));
  let cell: Arc<Mutex<Option<Subscription<'static>>>> = Default::default();
  let inside = how == "inside";
  let s = {
    let (runs, cell) = (runs.clone(), cell.clone());
    let r2 = runs.clone();
    Subscription::new(
      move || {
        *runs.lock().unwrap() += 1;
        point();
        let again = cell.lock().unwrap().clone();
        if let (true, Some(again), true) = (inside, again, *runs.lock().unwrap() < 4) {
          again.unsubscribe();
        }
      },
      move || *r2.lock().unwrap() == 0,
    )
  };
  *cell.lock().unwrap() = Some(s.clone());
  check!("C05", s.is_subscribed(), "not subscribed at first");
  let mut ths = vec![];
  for k in 0..2 {
    let s = s.clone();
    let using = how == "using" && k == 0;
    ths.push(thread::named("unsub", move || {
      if using {
        drop(utils::Using::new(s.clone()));
      } else {
        s.unsubscribe();
      }
    }));
  }
  if pick(2) == 0 {
    s.unsubscribe();
  }
  for t in ths {
    t.join().unwrap();
  }
  s.unsubscribe();
  check!("C05", *runs.lock().unwrap() == 1, "unsubscribe called again runs the teardown {} times", *runs.lock().unwrap());
  check!("C05", !s.is_subscribed(), "still subscribed after unsubscribe");
}

const ALL: &[(&str, fn())] = &[];

fn scenario(name: &str) {
  let (a, b) = name.split_once('.').unwrap_or((name, ""));
  match a {
    "race" => race(b),
    "subject" => race_subject(b),
    "conserve" => conserve(b),
    "multi" => multi(b),
    "queue" => {
      if b == "default" {
        queue_default()
      } else {
        queue(b)
      }
    }
    "observe" => observe(b),
    "timed" => timed(b),
    "twice" => twice(b),
    "to_vec" => to_vec(b),
    "connect" => connect(b),
    "unsub" => unsub(b),
    "hold" => hold(b),
    _ => panic!("scenario"),
  }
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let (first, count): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
  std::panic::set_hook(Box::new(|i| {
    let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    fail(&format!("panic: {} {:?}", m, i.location().map(|l| format!("{}:{}", l.file(), l.line()))));
  }));
  let mut steps = 0;
  for seed in first..first + count {
    vsched::begin(seed, 20000);
    scenario(&a[1]);
    steps += vsched::finish();
  }
  println!("OK {} {}", count, steps);
}
