"""Variants by hand that behave the same, fourth set (see refs.py): the building blocks with another representation."""
CASES = []
SRC = '/repo/src/'


def whole(rel, what, text, until):
    """everything of the file up to the line `until` is replaced"""
    t = open(SRC + rel).read()
    i = t.index(until) if until else len(t)
    CASES.append((rel, what, [(t[:i].rstrip('\n'), text.strip('\n'))]))


T = '#[cfg(test)]'
whole('internals/function_wrapper.rs', 'mutex of an arc', '''
use std::sync::{Arc, Mutex};

type Func<'a, In, Out> = Arc<dyn Fn(In) -> Out + Send + Sync + 'a>;

#[derive(Clone)]
pub struct FunctionWrapper<'a, In, Out>
where
  In: Clone + Send + Sync + 'a,
  Out: Clone + Send + Sync + 'a,
{
  slot: Arc<Mutex<Option<Func<'a, In, Out>>>>,
}

impl<'a, In, Out> FunctionWrapper<'a, In, Out>
where
  In: Clone + Send + Sync + 'a,
  Out: Clone + Send + Sync + 'a,
{
  pub fn new<F>(func: F) -> FunctionWrapper<'a, In, Out>
  where
    F: Fn(In) -> Out + Send + Sync + 'a,
    In: Clone + Send + Sync + 'a,
    Out: Clone + Send + Sync + 'a,
  {
    let func: Func<'a, In, Out> = Arc::new(func);
    FunctionWrapper { slot: Arc::new(Mutex::new(Some(func))) }
  }
  fn get(&self) -> Option<Func<'a, In, Out>> {
    let guard = self.slot.lock().unwrap();
    guard.as_ref().map(Arc::clone)
  }
  fn detach(&self) -> Option<Func<'a, In, Out>> {
    let mut guard = self.slot.lock().unwrap();
    std::mem::replace(&mut *guard, None)
  }
  pub fn clear(&self) {
    drop(self.detach());
  }
  pub fn take(&self) -> bool {
    self.detach().is_some()
  }
  pub fn empty(&self) -> bool {
    self.get().is_none()
  }
  pub fn exists(&self) -> bool {
    self.get().is_some()
  }
  pub fn call(&self, indata: In) -> Out {
    match self.get() {
      Some(f) => f(indata),
      None => panic!("no func"),
    }
  }
  pub fn call_if_available(&self, indata: In) -> Option<Out> {
    let f = self.get()?;
    Some(f(indata))
  }
  pub fn call_and_clear_if_available(&self, indata: In) -> Option<Out> {
    self.detach().map(|f| f(indata))
  }
}
''', T)

whole('observer.rs', 'one lock for the three callbacks', '''
use crate::prelude::*;
use std::sync::{Arc, RwLock};

struct Handlers<'a, T> {
  next: Box<dyn Fn(T) + Send + Sync + 'a>,
  error: Box<dyn Fn(RxError) + Send + Sync + 'a>,
  complete: Box<dyn Fn() + Send + Sync + 'a>,
}

#[derive(Clone)]
pub struct Observer<'a, T>
where
  T: Clone + Send + Sync,
{
  handlers: Arc<RwLock<Option<Arc<Handlers<'a, T>>>>>,
  on_unsubscribe: Arc<RwLock<Option<Arc<dyn Fn() + Send + Sync + 'a>>>>,
}

impl<'a, T> Observer<'a, T>
where
  T: Clone + Send + Sync,
{
  pub fn new<Next, Error, Complete>(
    next: Next,
    error: Error,
    complete: Complete,
  ) -> Observer<'a, T>
  where
    Next: Fn(T) + Send + Sync + 'a,
    Error: Fn(RxError) + Send + Sync + 'a,
    Complete: Fn() -> () + Send + Sync + 'a,
  {
    Observer::<T> {
      handlers: Arc::new(RwLock::new(Some(Arc::new(Handlers {
        next: Box::new(next),
        error: Box::new(error),
        complete: Box::new(complete),
      })))),
      on_unsubscribe: Arc::new(RwLock::new(None)),
    }
  }
  fn close(&self) -> Option<Arc<Handlers<'a, T>>> {
    let h = self.handlers.write().unwrap().take();
    h
  }
  pub fn next(&self, x: T) {
    let h = self.handlers.read().unwrap().clone();
    if let Some(h) = h {
      (h.next)(x);
    }
  }
  pub fn error(&self, x: RxError) {
    if let Some(h) = self.close() {
      self.teardown();
      (h.error)(x);
    }
  }
  pub fn complete(&self) {
    if let Some(h) = self.close() {
      self.teardown();
      (h.complete)();
    }
  }
  pub fn unsubscribe(&self) {
    drop(self.close());
    self.teardown();
  }
  pub fn is_subscribed(&self) -> bool {
    self.handlers.read().unwrap().is_some()
  }
  pub(crate) fn set_on_unsubscribe<F>(&self, f: F)
  where
    F: Fn() -> () + Send + Sync + 'a,
  {
    let f: Arc<dyn Fn() + Send + Sync + 'a> = Arc::new(f);
    let old = self.on_unsubscribe.write().unwrap().replace(f);
    drop(old);
    if !self.is_subscribed() {
      self.teardown();
    }
  }
  fn teardown(&self) {
    let f = self.on_unsubscribe.write().unwrap().take();
    if let Some(f) = f {
      f();
    }
  }
}
''', T)

whole('observer.rs', 'arcs in a mutex', '''
use crate::prelude::*;
use std::sync::{Arc, Mutex};

type OnNext<'a, T> = Arc<dyn Fn(T) + Send + Sync + 'a>;
type OnError<'a> = Arc<dyn Fn(RxError) + Send + Sync + 'a>;
type OnComplete<'a> = Arc<dyn Fn() + Send + Sync + 'a>;

enum State<'a, T> {
  Open(OnNext<'a, T>, OnError<'a>, OnComplete<'a>),
  Closed,
}

#[derive(Clone)]
pub struct Observer<'a, T>
where
  T: Clone + Send + Sync,
{
  state: Arc<Mutex<State<'a, T>>>,
  on_unsubscribe: Arc<Mutex<Option<OnComplete<'a>>>>,
}

impl<'a, T> Observer<'a, T>
where
  T: Clone + Send + Sync,
{
  pub fn new<Next, Error, Complete>(
    next: Next,
    error: Error,
    complete: Complete,
  ) -> Observer<'a, T>
  where
    Next: Fn(T) + Send + Sync + 'a,
    Error: Fn(RxError) + Send + Sync + 'a,
    Complete: Fn() -> () + Send + Sync + 'a,
  {
    Observer::<T> {
      state: Arc::new(Mutex::new(State::Open(Arc::new(next), Arc::new(error), Arc::new(complete)))),
      on_unsubscribe: Arc::new(Mutex::new(None)),
    }
  }
  fn close(&self) -> State<'a, T> {
    std::mem::replace(&mut *self.state.lock().unwrap(), State::Closed)
  }
  pub fn next(&self, x: T) {
    let f = match &*self.state.lock().unwrap() {
      State::Open(next, _, _) => Some(Arc::clone(next)),
      State::Closed => None,
    };
    if let Some(f) = f {
      f(x);
    }
  }
  pub fn error(&self, x: RxError) {
    if let State::Open(_, error, _) = self.close() {
      self.teardown();
      error(x);
    }
  }
  pub fn complete(&self) {
    if let State::Open(_, _, complete) = self.close() {
      self.teardown();
      complete();
    }
  }
  pub fn unsubscribe(&self) {
    let state = self.close();
    drop(state);
    self.teardown();
  }
  pub fn is_subscribed(&self) -> bool {
    matches!(*self.state.lock().unwrap(), State::Open(..))
  }
  pub(crate) fn set_on_unsubscribe<F>(&self, f: F)
  where
    F: Fn() -> () + Send + Sync + 'a,
  {
    let old = {
      let mut slot = self.on_unsubscribe.lock().unwrap();
      std::mem::replace(&mut *slot, Some(Arc::new(f)))
    };
    drop(old);
    if !self.is_subscribed() {
      self.teardown();
    }
  }
  fn teardown(&self) {
    let f = self.on_unsubscribe.lock().unwrap().take();
    if let Some(f) = f {
      f();
    }
  }
}
''', T)

whole('subscription.rs', 'boxed in a mutex', '''
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub struct Subscription<'a> {
  unsub: Arc<Mutex<Option<Box<dyn Fn() + Send + Sync + 'a>>>>,
  issub: Arc<dyn Fn() -> bool + Send + Sync + 'a>,
}

impl<'a> Subscription<'a> {
  pub fn new<Unsub, Issub>(unsub: Unsub, issub: Issub) -> Subscription<'a>
  where
    Unsub: Fn() + Send + Sync + 'a,
    Issub: Fn() -> bool + Send + Sync + 'a,
  {
    Subscription {
      unsub: Arc::new(Mutex::new(Some(Box::new(unsub)))),
      issub: Arc::new(issub),
    }
  }
  pub fn unsubscribe(&self) {
    let f = self.unsub.lock().unwrap().take();
    if let Some(f) = f {
      f();
    }
  }
  pub fn is_subscribed(&self) -> bool {
    (self.issub)()
  }
}
''', None)

whole('internals/stream_controller.rs', 'one lock for everything', '''
use crate::prelude::*;
use std::{
  collections::BTreeMap,
  sync::{Arc, Mutex},
};

use super::function_wrapper::FunctionWrapper;

struct Inner<'a> {
  serial: i32,
  unscribers: BTreeMap<i32, FunctionWrapper<'a, (), ()>>,
  on_finalize: Option<FunctionWrapper<'a, (), ()>>,
}

#[derive(Clone)]
pub struct StreamController<'a, Item>
where
  Item: Clone + Send + Sync + 'a,
{
  subscriber: Observer<'a, Item>,
  inner: Arc<Mutex<Inner<'a>>>,
}

impl<'a, Item> StreamController<'a, Item>
where
  Item: Clone + Send + Sync,
{
  pub fn new(subscriber: Observer<Item>) -> StreamController<Item> {
    let sctl = StreamController {
      subscriber: subscriber.clone(),
      inner: Arc::new(Mutex::new(Inner {
        serial: 0,
        unscribers: BTreeMap::new(),
        on_finalize: None,
      })),
    };
    let sctl_end = sctl.clone();
    subscriber.set_on_unsubscribe(move || sctl_end.finalize());
    sctl
  }

  pub fn set_on_finalize<F>(&self, f: F)
  where
    F: Fn() + Send + Sync + 'a,
  {
    self.inner.lock().unwrap().on_finalize = Some(FunctionWrapper::new(move |_| f()));
    self.end_if_closed();
  }

  fn end_if_closed(&self) {
    if !self.subscriber.is_subscribed() {
      self.finalize();
    }
  }

  pub fn new_observer<XItem, Next, Error, Complete>(
    &self,
    next: Next,
    error: Error,
    complete: Complete,
  ) -> Observer<'a, XItem>
  where
    XItem: Clone + Send + Sync + 'a,
    Next: Fn(i32, XItem) + Send + Sync + 'a,
    Error: Fn(i32, RxError) + Send + Sync + 'a,
    Complete: Fn(i32) -> () + Send + Sync + 'a,
  {
    let serial = {
      let mut inner = self.inner.lock().unwrap();
      inner.serial += 1;
      inner.serial
    };
    let observer = Observer::new(
      move |x| next(serial, x),
      move |e| error(serial, e),
      move || complete(serial),
    );
    let o_unsub = observer.clone();
    let f = FunctionWrapper::new(move |_| o_unsub.unsubscribe());
    self.inner.lock().unwrap().unscribers.insert(serial, f);
    self.end_if_closed();
    observer
  }

  pub fn sink_next(&self, x: Item) {
    if !self.subscriber.is_subscribed() {
      return self.finalize();
    }
    self.subscriber.next(x);
  }

  pub fn sink_error(&self, e: RxError) {
    if self.subscriber.is_subscribed() {
      self.subscriber.error(e);
    }
    self.finalize();
  }

  fn remove(&self, serial: &i32) -> (Option<FunctionWrapper<'a, (), ()>>, bool) {
    let mut inner = self.inner.lock().unwrap();
    let o = inner.unscribers.remove(serial);
    (o, inner.unscribers.is_empty())
  }

  pub fn sink_complete(&self, serial: &i32) {
    if !self.subscriber.is_subscribed() {
      return self.finalize();
    }
    let (o, done_all) = self.remove(serial);
    if let Some(o) = o {
      o.call(());
    }
    if done_all {
      self.subscriber.complete();
      self.finalize();
    }
  }

  pub fn sink_complete_force(&self) {
    if self.subscriber.is_subscribed() {
      self.subscriber.complete();
    }
    self.finalize();
  }

  pub fn upstream_abort_observe(&self, serial: &i32) {
    if let (Some(o), _) = self.remove(serial) {
      o.call(());
    }
  }

  pub fn finalize(&self) {
    let unscribers = std::mem::take(&mut self.inner.lock().unwrap().unscribers);
    for (_, f) in unscribers {
      f.call(());
    }
    if self.subscriber.is_subscribed() {
      self.subscriber.unsubscribe();
    }
    let f = self.inner.lock().unwrap().on_finalize.take();
    if let Some(f) = f {
      f.call(());
    }
  }

  pub fn is_subscribed(&self) -> bool {
    self.subscriber.is_subscribed()
  }
}
''', None)

whole('schedulers/async_function_queue.rs', 'one state under the mutex', '''
use std::{
  collections::VecDeque,
  sync::{Arc, Condvar, Mutex},
};

type Task<'a> = Box<dyn Fn() + Send + Sync + 'a>;

struct State<'a> {
  queue: VecDeque<Task<'a>>,
  abort: bool,
}

struct Shared<'a> {
  state: Mutex<State<'a>>,
  cond: Condvar,
}

#[derive(Clone)]
pub struct AsyncFunctionQueue<'a> {
  data: Arc<Shared<'a>>,
}
impl<'a> AsyncFunctionQueue<'a> {
  pub fn new() -> AsyncFunctionQueue<'a> {
    AsyncFunctionQueue {
      data: Arc::new(Shared {
        state: Mutex::new(State { queue: VecDeque::new(), abort: false }),
        cond: Condvar::new(),
      }),
    }
  }

  fn take_task(&self) -> Option<Task<'a>> {
    let mut state = self.data.state.lock().unwrap();
    loop {
      if state.abort {
        return None;
      }
      if let Some(f) = state.queue.pop_front() {
        return Some(f);
      }
      state = self.data.cond.wait(state).unwrap();
    }
  }

  pub fn scheduling(&self) {
    while let Some(f) = self.take_task() {
      f();
    }
  }

  pub fn post<F>(&self, f: F)
  where
    F: Fn() + Send + Sync + 'a,
  {
    let mut state = self.data.state.lock().unwrap();
    state.queue.push_back(Box::new(f));
    drop(state);
    self.data.cond.notify_one();
  }

  pub fn stop(&self) {
    let mut state = self.data.state.lock().unwrap();
    state.abort = true;
    let old = std::mem::take(&mut state.queue);
    self.data.cond.notify_all();
    drop(state);
    drop(old);
  }
}
''', T)

whole('subjects/subject.rs', 'a list of numbered observers', '''
use crate::{internals::function_wrapper::FunctionWrapper, prelude::*};
use std::sync::{
  atomic::{AtomicUsize, Ordering},
  Arc, Mutex, RwLock,
};

type Hook<'a> = Arc<RwLock<Option<FunctionWrapper<'a, usize, ()>>>>;

#[derive(Clone)]
pub struct Subject<'a, Item>
where
  Item: Clone + Send + Sync,
{
  observers: Arc<Mutex<Vec<(usize, Observer<'a, Item>)>>>,
  serial: Arc<AtomicUsize>,
  on_subscribe: Hook<'a>,
  on_unsubscribe: Hook<'a>,
}

fn call_hook<'a>(hook: &Hook<'a>, n: usize) {
  let f = hook.read().unwrap().clone();
  if let Some(f) = f {
    f.call(n);
  }
}

impl<'a, Item> Subject<'a, Item>
where
  Item: Clone + Send + Sync,
{
  pub fn new() -> Subject<'a, Item> {
    Subject {
      observers: Arc::new(Mutex::new(Vec::new())),
      serial: Arc::new(AtomicUsize::new(0)),
      on_subscribe: Arc::new(RwLock::new(None)),
      on_unsubscribe: Arc::new(RwLock::new(None)),
    }
  }

  pub fn next(&self, item: Item) {
    let observers = self.observers.lock().unwrap().clone();
    for (_, o) in observers.iter() {
      o.next(item.clone());
    }
  }
  fn take_all(&self) -> Vec<(usize, Observer<'a, Item>)> {
    std::mem::take(&mut *self.observers.lock().unwrap())
  }
  pub fn error(&self, err: RxError) {
    for (_, o) in self.take_all() {
      o.error(err.clone());
    }
  }
  pub fn complete(&self) {
    for (_, o) in self.take_all() {
      o.complete();
    }
  }

  pub fn observable(&self) -> Observable<'a, Item> {
    let me = self.clone();
    Observable::create(move |s| {
      let serial = me.serial.fetch_add(1, Ordering::SeqCst);
      {
        let me = me.clone();
        s.set_on_unsubscribe(move || {
          let (gone, len) = {
            let mut observers = me.observers.lock().unwrap();
            let gone = observers.iter().position(|x| x.0 == serial).map(|i| observers.remove(i));
            (gone, observers.len())
          };
          drop(gone);
          call_hook(&me.on_unsubscribe, len);
        });
      }
      let len = {
        let mut observers = me.observers.lock().unwrap();
        observers.push((serial, s.clone()));
        observers.len()
      };
      if !s.is_subscribed() {
        me.observers.lock().unwrap().retain(|x| x.0 != serial);
        return;
      }
      call_hook(&me.on_subscribe, len);
      if !s.is_subscribed() {
        let len = me.observers.lock().unwrap().len();
        call_hook(&me.on_unsubscribe, len);
      }
    })
  }

  pub(crate) fn without_hooks(&self) -> Subject<'a, Item> {
    Subject {
      observers: Arc::clone(&self.observers),
      serial: Arc::clone(&self.serial),
      on_subscribe: Arc::new(RwLock::new(None)),
      on_unsubscribe: Arc::new(RwLock::new(None)),
    }
  }

  pub(crate) fn set_on_subscribe<F>(&self, f: F)
  where
    F: Fn(usize) + Send + Sync + 'a,
  {
    *self.on_subscribe.write().unwrap() = Some(FunctionWrapper::new(f));
  }

  pub(crate) fn set_on_unsubscribe<F>(&self, f: F)
  where
    F: Fn(usize) + Send + Sync + 'a,
  {
    *self.on_unsubscribe.write().unwrap() = Some(FunctionWrapper::new(f));
  }
}
''', T)

whole('operators/to_vec.rs', 'one state', '''
use crate::prelude::*;
use std::{
  future::Future,
  marker::PhantomData,
  sync::{Arc, Mutex, RwLock},
  task::{self, Waker},
};

struct End {
  result: Option<Result<(), RxError>>,
  waker: Option<Waker>,
}

#[derive(Clone)]
pub struct ToVec<'a, Item>
where
  Item: Clone + Send + Sync,
{
  buffer: Arc<RwLock<Vec<Item>>>,
  end: Arc<Mutex<End>>,
  _lifetime: PhantomData<&'a ()>,
}

fn finish(end: &Arc<Mutex<End>>, result: Result<(), RxError>) {
  let waker = {
    let mut end = end.lock().unwrap();
    end.result = Some(result);
    end.waker.take()
  };
  if let Some(w) = waker {
    w.wake();
  }
}

impl<'a, Item> ToVec<'a, Item>
where
  Item: Clone + Send + Sync,
{
  fn start(&self, source: Observable<'a, Item>) {
    let buff_next = Arc::clone(&self.buffer);
    let end_error = Arc::clone(&self.end);
    let end_complete = Arc::clone(&self.end);
    source.subscribe(
      move |x| buff_next.write().unwrap().push(x),
      move |e| finish(&end_error, Err(e)),
      move || finish(&end_complete, Ok(())),
    );
  }
}

impl<'a, Item> Future for ToVec<'a, Item>
where
  Item: Clone + Send + Sync,
{
  type Output = Result<Arc<RwLock<Vec<Item>>>, RxError>;

  fn poll(
    self: std::pin::Pin<&mut Self>,
    cx: &mut std::task::Context<'_>,
  ) -> std::task::Poll<Self::Output> {
    let mut end = self.end.lock().unwrap();
    match &end.result {
      Some(Ok(())) => task::Poll::Ready(Ok(Arc::clone(&self.buffer))),
      Some(Err(e)) => task::Poll::Ready(Err(e.clone())),
      None => {
        end.waker = Some(cx.waker().clone());
        task::Poll::Pending
      }
    }
  }
}

impl<'a, Item> Observable<'a, Item>
where
  Item: Clone + Send + Sync,
{
  pub fn to_vec(&self) -> ToVec<Item> {
    let inst = ToVec {
      buffer: Arc::new(RwLock::new(Vec::new())),
      end: Arc::new(Mutex::new(End { result: None, waker: None })),
      _lifetime: PhantomData,
    };
    inst.start(self.clone());
    inst
  }
}
''', '#[cfg(all(test')
