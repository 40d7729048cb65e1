From e2d1abcffac49469cb94644713e305411c36309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 01/29] fix: subject: release the lock before calling the
 subscribe/unsubscribe hooks

---
 src/subjects/subject.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 34dd4b6..4f7db0e 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -73,8 +73,9 @@ where
             observers.remove(&serial);
             observers.len()
           };
-          if let Some(on_unsubscribe) = &*on_unsubscribe.read().unwrap() {
-            on_unsubscribe.call(len);
+          let f = on_unsubscribe.read().unwrap().clone();
+          if let Some(f) = f {
+            f.call(len);
           }
         });
       }
@@ -83,8 +84,9 @@ where
         observers.insert(serial, s);
         observers.len()
       };
-      if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
-        on_subscribe.call(len);
+      let f = on_subscribe.read().unwrap().clone();
+      if let Some(f) = f {
+        f.call(len);
       }
     })
   }
-- 
2.43.0


From c5feb363e2f949c1c187599d0bb15daa7e8164bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 02/29] fix: ref_count: connect again after a disconnect and do
 not hold a lock while the source runs

---
 src/operators/ref_count.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 5d4db86..c3464e5 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,7 +9,7 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -20,7 +20,7 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
@@ -32,11 +32,12 @@ where
 
   fn set_ref_count(&self) {
     {
-      let subscription = Arc::clone(&self.subscription);
+      let connection = Arc::clone(&self.connection);
       self.subject.set_on_unsubscribe(move |count| {
         if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
+          let observer = connection.read().unwrap().clone();
+          if let Some(observer) = observer {
+            observer.unsubscribe();
           }
         }
       });
@@ -44,7 +45,7 @@ where
 
     let source = self.source.clone();
     let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let connection = Arc::clone(&self.connection);
 
     self.subject.set_on_subscribe(move |count| {
       if count == 1 {
@@ -53,12 +54,7 @@ where
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
 
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -68,7 +64,17 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
+        );
+        {
+          let mut connection = connection.write().unwrap();
+          if connection.as_ref().map_or(false, |o| o.is_subscribed()) {
+            return;
+          }
+          // known before the source runs, so that it can be stopped from
+          // inside of a synchronous source
+          *connection = Some(observer.clone());
+        }
+        source.inner_subscribe(observer);
       }
     });
   }
-- 
2.43.0


From 3c193ecc0cbdb48ff3cff50112c3d789e287deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 03/29] fix: replay: do not hold a lock while the source runs,
 stop a synchronous source

---
 src/operators/replay.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index cae0f42..301784e 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -8,7 +8,7 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -19,7 +19,7 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
@@ -31,11 +31,12 @@ where
 
   fn set_ref_count(&self) {
     {
-      let subscription = Arc::clone(&self.subscription);
+      let connection = Arc::clone(&self.connection);
       self.subject.set_on_unsubscribe(move |count| {
         if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
+          let observer = connection.read().unwrap().clone();
+          if let Some(observer) = observer {
+            observer.unsubscribe();
           }
         }
       });
@@ -43,7 +44,7 @@ where
 
     let source = self.source.clone();
     let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let connection = Arc::clone(&self.connection);
 
     self.subject.set_on_subscribe(move |count| {
       if count == 1 {
@@ -52,12 +53,7 @@ where
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
 
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -67,7 +63,17 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
+        );
+        {
+          let mut connection = connection.write().unwrap();
+          if connection.is_some() {
+            return;
+          }
+          // known before the source runs, so that it can be stopped from
+          // inside of a synchronous source
+          *connection = Some(observer.clone());
+        }
+        source.inner_subscribe(observer);
       }
     });
   }
-- 
2.43.0


From 56cd05d1b5ade7f8d6796b53de6d9d783729b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 04/29] fix: observer: one terminal at most, teardown runs once
 and is released when the subscription ends

---
 src/internals/function_wrapper.rs |  8 +++++++-
 src/observer.rs                   | 28 ++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/internals/function_wrapper.rs b/src/internals/function_wrapper.rs
index 58deba9..12d0b2f 100644
--- a/src/internals/function_wrapper.rs
+++ b/src/internals/function_wrapper.rs
@@ -36,7 +36,13 @@ where
     }
   }
   pub fn clear(&self) {
-    *self.inner.write().unwrap() = None;
+    self.take();
+  }
+  /// Removes the function and tells whether it was this call that removed it.
+  pub fn take(&self) -> bool {
+    // the function is dropped after the lock is released
+    let f = self.inner.write().unwrap().take();
+    f.is_some()
   }
   pub fn empty(&self) -> bool {
     self.inner.read().unwrap().is_none()
diff --git a/src/observer.rs b/src/observer.rs
index b6cd151..30dee33 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -38,19 +38,25 @@ where
     self.fn_next.call_if_available(x);
   }
   pub fn error(&self, x: RxError) {
-    self.fn_error.call_and_clear_if_available(x);
+    // whoever removes `fn_next` owns the one and only terminal
+    if self.fn_next.take() {
+      self.fn_complete.clear();
+      self.teardown();
+      self.fn_error.call_and_clear_if_available(x);
+    }
   }
   pub fn complete(&self) {
-    self.fn_complete.call_and_clear_if_available(());
+    if self.fn_next.take() {
+      self.fn_error.clear();
+      self.teardown();
+      self.fn_complete.call_and_clear_if_available(());
+    }
   }
   pub fn unsubscribe(&self) {
     self.fn_next.clear();
     self.fn_error.clear();
     self.fn_complete.clear();
-    if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
-      f.call(());
-    }
-    *self.fn_on_unsubscribe.write().unwrap() = None;
+    self.teardown();
   }
   pub fn is_subscribed(&self) -> bool {
     self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
@@ -61,6 +67,16 @@ where
   {
     *self.fn_on_unsubscribe.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.is_subscribed() {
+      // too late, the subscription has already ended
+      self.teardown();
+    }
+  }
+  fn teardown(&self) {
+    let f = self.fn_on_unsubscribe.write().unwrap().take();
+    if let Some(f) = f {
+      f.call(());
+    }
   }
 }
 
-- 
2.43.0


From b7e04bf552241fe5d57f281e77713c67958f6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 05/29] fix: observable: do not start a source for an ended
 subscription

---
 src/observable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 62f0014..f53e9bd 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -26,7 +26,9 @@ where
   ) -> Subscription<'a> {
     let unsub_observer = observer.clone();
     let issub_observer = observer.clone();
-    self.source.call(observer.clone());
+    if observer.is_subscribed() {
+      self.source.call(observer.clone());
+    }
     Subscription::new(
       move || {
         unsub_observer.unsubscribe();
-- 
2.43.0


From e813fca3ac53cd6377dcc28f3983856b9dc7422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 06/29] fix: stream_controller: tear upstreams down without
 holding locks and in every way of ending

---
 src/internals/stream_controller.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index bda8774..6ec830d 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -42,6 +42,10 @@ where
   {
     *self.on_finalize.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.subscriber.is_subscribed() {
+      // too late, the subscription has already ended
+      self.finalize();
+    }
   }
 
   pub fn new_observer<XItem, Next, Error, Complete>(
@@ -73,11 +77,14 @@ where
     );
     let o_unsub = observer.clone();
 
-    let mut unsubscribers = self.unscribers.write().unwrap();
-    unsubscribers.insert(
+    self.unscribers.write().unwrap().insert(
       serial.clone(),
       FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
     );
+    if !self.subscriber.is_subscribed() {
+      // too late, the subscription has already ended
+      self.finalize();
+    }
     observer
   }
 
@@ -100,11 +107,14 @@ where
 
   pub fn sink_complete(&self, serial: &i32) {
     if self.subscriber.is_subscribed() {
-      let done_all = {
+      let (o, done_all) = {
         let mut observers = self.unscribers.write().unwrap();
-        observers.remove(serial);
-        observers.len() == 0
+        let o = observers.remove(serial);
+        (o, observers.len() == 0)
       };
+      if let Some(o) = o {
+        o.call(());
+      }
       if done_all {
         self.subscriber.complete();
         self.finalize();
@@ -122,25 +132,23 @@ where
   }
 
   pub fn upstream_abort_observe(&self, serial: &i32) {
-    let mut observers = self.unscribers.write().unwrap();
-    let o = observers.remove(serial);
+    let o = self.unscribers.write().unwrap().remove(serial);
     if let Some(o) = o {
       o.call(());
     }
   }
 
   pub fn finalize(&self) {
-    self.unscribers.read().unwrap().iter().for_each(|x| {
+    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
+    unscribers.iter().for_each(|x| {
       x.1.call(());
     });
-    self.unscribers.write().unwrap().clear();
     if self.subscriber.is_subscribed() {
       self.subscriber.unsubscribe();
     }
-    let on_finalize = &mut *self.on_finalize.write().unwrap();
+    let on_finalize = self.on_finalize.write().unwrap().take();
     if let Some(f) = on_finalize {
       f.call(());
-      *on_finalize = None;
     }
   }
 
-- 
2.43.0


From 71fe990629447c87267d616b487ef684cda285c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 07/29] fix: skip_while: skip while the predicate holds, not
 until it holds

---
 src/operators/skip_while.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 3951f0b..9c935a7 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -38,9 +38,9 @@ where
           if *enable.read().unwrap() {
             sctl_next.sink_next(x);
           } else {
-            if f.call(x.clone()) {
-              sctl_next.sink_next(x);
+            if !f.call(x.clone()) {
               *enable.write().unwrap() = true;
+              sctl_next.sink_next(x);
             }
           }
         },
-- 
2.43.0


From 9a93c132cd5d01b62cb8dd36c2ec3b409f230ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 08/29] fix: element_at: emit nothing when the source is
 shorter than the position

---
 src/operators/element_at.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operators/element_at.rs b/src/operators/element_at.rs
index 14b60e3..9a94697 100644
--- a/src/operators/element_at.rs
+++ b/src/operators/element_at.rs
@@ -7,6 +7,7 @@ where
   Item: Clone + Send + Sync,
 {
   take_op: operators::Take<Item>,
+  skip_op: operators::Skip<Item>,
 }
 
 impl<'a, Item> ElementAt<Item>
@@ -16,10 +17,12 @@ where
   pub fn new(count: usize) -> ElementAt<Item> {
     ElementAt {
       take_op: operators::Take::<Item>::new(count),
+      skip_op: operators::Skip::<Item>::new(count.saturating_sub(1)),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let take_op = self.take_op.clone();
+    let skip_op = self.skip_op.clone();
 
     Observable::<Item>::create(move |s| {
       let source = source.clone();
@@ -29,9 +32,8 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      take_op
-        .execute(source)
-        .last()
+      skip_op
+        .execute(take_op.execute(source))
         .inner_subscribe(sctl.new_observer(
           move |_, x| {
             sctl_next.sink_next(x);
-- 
2.43.0


From 09b1ceed76d05df77fc714f9b0bd7875f3dbeda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 09/29] fix: window_with_count: windows of one item, no lock
 held while a window emits

---
 src/operators/window_with_count.rs | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/operators/window_with_count.rs b/src/operators/window_with_count.rs
index 8bf13cc..8d26c65 100644
--- a/src/operators/window_with_count.rs
+++ b/src/operators/window_with_count.rs
@@ -44,27 +44,35 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut n = n.write().unwrap();
-          if *n == 0 {
-            sctl_next.sink_next(sbj_next.read().unwrap().observable());
-            sbj_next.read().unwrap().next(x);
+          let (sbj, opened, filled) = {
+            let mut n = n.write().unwrap();
+            let mut sbj = sbj_next.write().unwrap();
+            let current = sbj.clone();
+            let opened = *n == 0;
             *n += 1;
-          } else {
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-            if *n == count {
-              sbj_next.read().unwrap().complete();
-              *sbj_next.write().unwrap() = subjects::Subject::<Item>::new();
+            let filled = *n >= count;
+            if filled {
+              *sbj = subjects::Subject::<Item>::new();
               *n = 0;
             }
+            (current, opened, filled)
+          };
+          if opened {
+            sctl_next.sink_next(sbj.observable());
+          }
+          sbj.next(x);
+          if filled {
+            sbj.complete();
           }
         },
         move |_, e| {
-          sbj_error.read().unwrap().error(e.clone());
+          let sbj = sbj_error.read().unwrap().clone();
+          sbj.error(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbj_complete.read().unwrap().complete();
+          let sbj = sbj_complete.read().unwrap().clone();
+          sbj.complete();
           sctl_complete.sink_complete(&serial);
         },
       ));
-- 
2.43.0


From d091daae59deeac3663e67068448ada5f0b1a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 10/29] fix: aggregating operators: release the state lock
 before calling user code

---
 src/operators/buffer_with_count.rs |  4 ++--
 src/operators/max.rs               |  5 +++--
 src/operators/min.rs               |  5 +++--
 src/operators/reduce.rs            | 14 ++++++--------
 src/operators/scan.rs              | 15 ++++-----------
 src/operators/sum.rs               |  5 +++--
 src/operators/sum_and_count.rs     |  6 ++++--
 src/operators/take_last.rs         |  5 +++--
 8 files changed, 28 insertions(+), 31 deletions(-)

diff --git a/src/operators/buffer_with_count.rs b/src/operators/buffer_with_count.rs
index a303dba..5401196 100644
--- a/src/operators/buffer_with_count.rs
+++ b/src/operators/buffer_with_count.rs
@@ -61,9 +61,9 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| {
-            let vec = results.read().unwrap();
+            let vec = results.read().unwrap().clone();
             if vec.len() > 0 {
-              sctl_complete.sink_next(vec.clone());
+              sctl_complete.sink_next(vec);
             }
             sctl_complete.sink_complete(&serial);
           },
diff --git a/src/operators/max.rs b/src/operators/max.rs
index 37efdff..37a8281 100644
--- a/src/operators/max.rs
+++ b/src/operators/max.rs
@@ -42,8 +42,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/min.rs b/src/operators/min.rs
index 6b3c544..1a06fc3 100644
--- a/src/operators/min.rs
+++ b/src/operators/min.rs
@@ -42,8 +42,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/reduce.rs b/src/operators/reduce.rs
index 9638516..07ceb8f 100644
--- a/src/operators/reduce.rs
+++ b/src/operators/reduce.rs
@@ -35,19 +35,17 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut r = result_next.write().unwrap();
-          if let Some(xx) = &*r {
-            *r = Some(f.call((xx.clone(), x)));
-          } else {
-            *r = Some(x);
-          }
+          let r = result_next.read().unwrap().clone();
+          let r = if let Some(xx) = r { f.call((xx, x)) } else { x };
+          *result_next.write().unwrap() = Some(r);
         },
         move |_, e| {
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 7f72e59..0eb43fe 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -36,17 +36,10 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
-            let mut r = result_next.write().unwrap();
-            if let Some(xx) = &*r {
-              *r = Some(f.call((xx.clone(), x)));
-            } else {
-              *r = Some(x);
-            }
-          }
-          if let Some(x) = &*result_next.read().unwrap() {
-            sctl_next.sink_next(x.clone());
-          }
+          let r = result_next.read().unwrap().clone();
+          let r = if let Some(xx) = r { f.call((xx, x)) } else { x };
+          *result_next.write().unwrap() = Some(r.clone());
+          sctl_next.sink_next(r);
         },
         move |_, e| {
           sctl_error.sink_error(e);
diff --git a/src/operators/sum.rs b/src/operators/sum.rs
index f5e9c82..a238041 100644
--- a/src/operators/sum.rs
+++ b/src/operators/sum.rs
@@ -41,8 +41,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(latest) = &*sum.read().unwrap() {
-            sctl_complete.sink_next(latest.clone());
+          let latest = sum.read().unwrap().clone();
+          if let Some(latest) = latest {
+            sctl_complete.sink_next(latest);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/sum_and_count.rs b/src/operators/sum_and_count.rs
index 358042f..18623f2 100644
--- a/src/operators/sum_and_count.rs
+++ b/src/operators/sum_and_count.rs
@@ -47,8 +47,10 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(latest) = &*sum.read().unwrap() {
-            sctl_complete.sink_next((latest.clone(), *n.read().unwrap()));
+          let latest = sum.read().unwrap().clone();
+          let n = *n.read().unwrap();
+          if let Some(latest) = latest {
+            sctl_complete.sink_next((latest, n));
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/take_last.rs b/src/operators/take_last.rs
index 05cdb0d..127b42e 100644
--- a/src/operators/take_last.rs
+++ b/src/operators/take_last.rs
@@ -45,11 +45,12 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          for x in items_complete.read().unwrap().iter() {
+          let items = items_complete.read().unwrap().clone();
+          for x in items {
             if !sctl_complete.is_subscribed() {
               break;
             }
-            sctl_complete.sink_next(x.clone());
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial)
         },
-- 
2.43.0


From 54092e21651200b32108b0bbf331c625b96f4a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 11/29] fix: time_interval: release the state lock before
 emitting

---
 src/operators/time_interval.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/time_interval.rs b/src/operators/time_interval.rs
index 291c5ff..d41b9ab 100644
--- a/src/operators/time_interval.rs
+++ b/src/operators/time_interval.rs
@@ -37,7 +37,8 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, _| {
-          if let Some(start_time) = *start_time_next.read().unwrap() {
+          let prev = *start_time_next.read().unwrap();
+          if let Some(start_time) = prev {
             sctl_next.sink_next(start_time.elapsed());
           }
           *start_time_next.write().unwrap() = Some(Instant::now());
@@ -46,7 +47,8 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(start_time) = *start_time_complete.read().unwrap() {
+          let prev = *start_time_complete.read().unwrap();
+          if let Some(start_time) = prev {
             sctl_complete.sink_next(start_time.elapsed());
           }
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From c4f2fda262eedbbafe81849c59cb7d3627e6bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 12/29] fix: group_by: release the group table before emitting

---
 src/operators/group_by.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/operators/group_by.rs b/src/operators/group_by.rs
index abdd0c4..ac2e024 100644
--- a/src/operators/group_by.rs
+++ b/src/operators/group_by.rs
@@ -50,27 +50,31 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
           let key = f.call(x.clone()); // Umm, can I use it as a reference?
-          let sbj = {
+          let (sbj, opened) = {
             let mut sbjmap = sbjmap_next.write().unwrap();
             if let Some(sbj) = sbjmap.get(&key) {
-              sbj.clone()
+              (sbj.clone(), false)
             } else {
               let sbj = subjects::Subject::<Item>::new();
               sbjmap.insert(key, sbj.clone());
-              sctl_next.sink_next(sbj.observable());
-              sbj
+              (sbj, true)
             }
           };
+          if opened {
+            sctl_next.sink_next(sbj.observable());
+          }
           sbj.next(x);
         },
         move |_, e| {
-          sbjmap_error.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_error.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.error(e.clone());
           });
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbjmap_complete.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_complete.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.complete();
           });
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From 93c91a79cfbf18804c6898cd2c896a3616870609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 13/29] fix: timeout: release the timer slot before
 unsubscribing the timer

---
 src/operators/timeout.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index 883a502..a603df9 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -48,12 +48,9 @@ where
       let sctl_complete = sctl.clone();
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
-            let mut timer = timer.write().unwrap();
-            if let Some(timer) = &*timer {
-              timer.unsubscribe();
-            }
-            *timer = None;
+          let prev = timer.write().unwrap().take();
+          if let Some(prev) = prev {
+            prev.unsubscribe();
           }
 
           sctl_next.sink_next(x);
-- 
2.43.0


From b47e40e42a8004a61e6d1a389858bdefff59c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 14/29] fix: default_if_empty: one flag per subscription

---
 src/operators/default_if_empty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/default_if_empty.rs b/src/operators/default_if_empty.rs
index 936ef39..127dfd6 100644
--- a/src/operators/default_if_empty.rs
+++ b/src/operators/default_if_empty.rs
@@ -19,9 +19,9 @@ where
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let default = self.default.clone();
-    let emitted = Arc::new(RwLock::new(false));
 
     Observable::<Item>::create(move |s| {
+      let emitted = Arc::new(RwLock::new(false));
       let default_complete = default.clone();
 
       let emitted_next = Arc::clone(&emitted);
-- 
2.43.0


From 18a4e07980f0a73a9c111ed8ea01d73f21c009ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 15/29] fix: concat: one queue of pending sources per
 subscription

---
 src/operators/concat.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/operators/concat.rs b/src/operators/concat.rs
index 2c3f931..4cf14ab 100644
--- a/src/operators/concat.rs
+++ b/src/operators/concat.rs
@@ -21,10 +21,11 @@ where
     Concat { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
-      self.observables.clone().into_iter(),
-    )));
+    let observables = self.observables.clone();
     Observable::create(move |s| {
+      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
+        observables.clone().into_iter(),
+      )));
       let sctl = StreamController::new(s);
 
       fn complete_and_next<'a, Item>(
-- 
2.43.0


From 34b16150c268fa895ab0c395da8952695ccab4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 16/29] fix: amb: complete when the winner completes

---
 src/operators/amb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/amb.rs b/src/operators/amb.rs
index cbc605f..fb211e6 100644
--- a/src/operators/amb.rs
+++ b/src/operators/amb.rs
@@ -64,7 +64,7 @@ where
               },
               move |serial| {
                 if is_win_complete(&serial) {
-                  sctl_complete.sink_complete(&serial);
+                  sctl_complete.sink_complete_force();
                 } else {
                   sctl_complete.upstream_abort_observe(&serial);
                 }
-- 
2.43.0


From 91f3fd1636633a8feddf95fbe21af59851298d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 17/29] fix: to_vec: release the waker slot before waking

---
 src/operators/to_vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/to_vec.rs b/src/operators/to_vec.rs
index 1351ea0..06f4cb2 100644
--- a/src/operators/to_vec.rs
+++ b/src/operators/to_vec.rs
@@ -34,13 +34,15 @@ where
       move |e| {
         *err_error.write().unwrap() = Some(e);
         *done_error.write().unwrap() = true;
-        if let Some(w) = waker_error.read().unwrap().clone() {
+        let w = waker_error.read().unwrap().clone();
+        if let Some(w) = w {
           w.wake();
         }
       },
       move || {
         *done_complete.write().unwrap() = true;
-        if let Some(w) = waker_complete.read().unwrap().clone() {
+        let w = waker_complete.read().unwrap().clone();
+        if let Some(w) = w {
           w.wake();
         }
       },
-- 
2.43.0


From 1bb419e1c28141d9438f8e3364984bb067cfe717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 18/29] fix: tap: act for every subscription

---
 src/operators/tap.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/operators/tap.rs b/src/operators/tap.rs
index 81c13ed..b19211c 100644
--- a/src/operators/tap.rs
+++ b/src/operators/tap.rs
@@ -1,4 +1,4 @@
-use crate::internals::stream_controller::*;
+use crate::internals::{function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
 
 #[derive(Clone)]
@@ -6,7 +6,9 @@ pub struct Tap<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  tap_observer: Observer<'a, Item>,
+  next_f: FunctionWrapper<'a, Item, ()>,
+  error_f: FunctionWrapper<'a, RxError, ()>,
+  complete_f: FunctionWrapper<'a, (), ()>,
 }
 
 impl<'a, Item> Tap<'a, Item>
@@ -24,12 +26,16 @@ where
     Complete: Fn() + Send + Sync + 'a,
   {
     Tap {
-      tap_observer: Observer::new(next, error, complete),
+      next_f: FunctionWrapper::new(next),
+      error_f: FunctionWrapper::new(error),
+      complete_f: FunctionWrapper::new(move |_| complete()),
     }
   }
 
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let tap_observer = self.tap_observer.clone();
+    let next_f = self.next_f.clone();
+    let error_f = self.error_f.clone();
+    let complete_f = self.complete_f.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
       let source_next = source.clone();
@@ -38,20 +44,20 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let tap_observer_next = tap_observer.clone();
-      let tap_observer_error = tap_observer.clone();
-      let tap_observer_complete = tap_observer.clone();
+      let next_f = next_f.clone();
+      let error_f = error_f.clone();
+      let complete_f = complete_f.clone();
       source_next.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
-          tap_observer_next.next(x.clone());
+          next_f.call(x.clone());
           sctl_next.sink_next(x);
         },
         move |_, e| {
-          tap_observer_error.error(e.clone());
+          error_f.call(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          tap_observer_complete.complete();
+          complete_f.call(());
           sctl_complete.sink_complete(&serial)
         },
       ));
-- 
2.43.0


From 1247a5415394d1cde926af90199d514aab4773b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 19/29] fix: switch_on_next: register both observers before
 subscribing

---
 src/operators/switch_on_next.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/operators/switch_on_next.rs b/src/operators/switch_on_next.rs
index d999a14..e9aaed6 100644
--- a/src/operators/switch_on_next.rs
+++ b/src/operators/switch_on_next.rs
@@ -23,13 +23,13 @@ where
       let sctl = StreamController::new(s);
       let emitted = Arc::new(RwLock::new(false));
 
-      {
+      let obs_source = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
 
-        source.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |serial, x| {
             if *emitted.read().unwrap() {
               sctl_next.upstream_abort_observe(&serial);
@@ -41,15 +41,15 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| sctl_complete.sink_complete(&serial),
-        ));
+        )
       };
 
-      {
+      let obs_target = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
-        target.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |_, x| {
             *emitted.write().unwrap() = true;
             sctl_next.sink_next(x);
@@ -58,8 +58,11 @@ where
             sctl_error.sink_error(e);
           },
           move |_| sctl_complete.sink_complete_force(),
-        ));
-      }
+        )
+      };
+
+      source.inner_subscribe(obs_source);
+      target.inner_subscribe(obs_target);
     })
   }
 }
-- 
2.43.0


From 063279e3d24d782e22e87f33047a7ea6b848a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 20/29] fix: combine_latest: combine the latest items instead
 of zipping

---
 src/operators/combine_latest.rs | 75 ++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/src/operators/combine_latest.rs b/src/operators/combine_latest.rs
index 83b746a..45e414c 100644
--- a/src/operators/combine_latest.rs
+++ b/src/operators/combine_latest.rs
@@ -1,6 +1,10 @@
 use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct CombineLatest<'a, Item, Out>
@@ -8,7 +12,7 @@ where
   Item: Clone + Send + Sync,
   Out: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
   combine_f: FunctionWrapper<'a, Vec<Item>, Out>,
 }
 
@@ -25,35 +29,66 @@ where
     F: Fn(Vec<Item>) -> Out + Send + Sync + 'a,
   {
     CombineLatest {
-      zip_op: operators::Zip::new(observables),
+      observables: observables.to_vec(),
       combine_f: FunctionWrapper::new(f),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Out> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
     let combine_f = self.combine_f.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-      let combine_f = combine_f.clone();
-
       let sctl = StreamController::new(s);
+      let latest =
+        Arc::new(RwLock::new(vec![None::<Item>; observables.len() + 1]));
+
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        let combine_f = combine_f.clone();
+        VecDeque::from_iter(
+          (0..(observables.len() + 1)).map(move |id| {
+            let latest = Arc::clone(&latest);
+            let combine_f = combine_f.clone();
+
+            let sctl_next = sctl.clone();
+            let sctl_error = sctl.clone();
+            let sctl_complete = sctl.clone();
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+            sctl.new_observer(
+              move |_, x| {
+                let items = {
+                  let mut latest = latest.write().unwrap();
+                  latest[id] = Some(x);
+                  if latest.iter().all(|x| x.is_some()) {
+                    let mut items = Vec::new();
+                    for x in latest.iter() {
+                      items.push(x.clone().unwrap());
+                    }
+                    Some(items)
+                  } else {
+                    None
+                  }
+                };
+                if let Some(items) = items {
+                  sctl_next.sink_next(combine_f.call(items));
+                }
+              },
+              move |_, e| {
+                sctl_error.sink_error(e);
+              },
+              move |serial| {
+                sctl_complete.sink_complete(&serial);
+              },
+            )
+          }),
+        )
+      };
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          sctl_next.sink_next(combine_f.call(x));
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From 76a8bddf9569b71e4f89dc9a928026690ab74ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 21/29] fix: sequence_equal: sequences of different length are
 not equal

---
 src/operators/sequence_equal.rs | 105 ++++++++++++++++++++++++--------
 1 file changed, 80 insertions(+), 25 deletions(-)

diff --git a/src/operators/sequence_equal.rs b/src/operators/sequence_equal.rs
index 41716e2..8a7c4d9 100644
--- a/src/operators/sequence_equal.rs
+++ b/src/operators/sequence_equal.rs
@@ -1,12 +1,16 @@
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct SequenceEqual<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
 }
 
 impl<'a, Item> SequenceEqual<'a, Item>
@@ -14,39 +18,90 @@ where
   Item: Clone + Send + Sync + PartialEq,
 {
   pub fn new(observables: &[Observable<'a, Item>]) -> SequenceEqual<'a, Item> {
-    SequenceEqual { zip_op: operators::Zip::new(observables) }
+    SequenceEqual { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, bool> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-
       let sctl = StreamController::new(s);
+      // items not yet compared and the end mark of every source
+      let sources = Arc::new(RwLock::new(vec![
+        (VecDeque::<Item>::new(), false);
+        observables.len() + 1
+      ]));
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        VecDeque::from_iter(
+          (0..(observables.len() + 1)).map(move |id| {
+            let sources_next = Arc::clone(&sources);
+            let sources_complete = Arc::clone(&sources);
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |serial, x: Vec<Item>| {
-          let check = x.get(0).unwrap();
-          if !x.iter().all(|i| i == check) {
-            sctl_next.upstream_abort_observe(&serial);
-            sctl_next.sink_next(false);
-            sctl_next.sink_complete(&serial);
-          }
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_next(true);
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+            let sctl_next = sctl.clone();
+            let sctl_error = sctl.clone();
+            let sctl_complete = sctl.clone();
+
+            sctl.new_observer(
+              move |_, x| {
+                let result = {
+                  let mut sources = sources_next.write().unwrap();
+                  sources[id].0.push_back(x);
+                  SequenceEqual::compare(&mut sources)
+                };
+                if let Some(result) = result {
+                  sctl_next.sink_next(result);
+                  sctl_next.sink_complete_force();
+                }
+              },
+              move |_, e| {
+                sctl_error.sink_error(e);
+              },
+              move |_| {
+                let result = {
+                  let mut sources = sources_complete.write().unwrap();
+                  sources[id].1 = true;
+                  SequenceEqual::compare(&mut sources)
+                };
+                if let Some(result) = result {
+                  sctl_complete.sink_next(result);
+                  sctl_complete.sink_complete_force();
+                }
+              },
+            )
+          }),
+        )
+      };
+
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
+
+  // the answer, as soon as the items and end marks seen so far decide it
+  fn compare(sources: &mut Vec<(VecDeque<Item>, bool)>) -> Option<bool> {
+    if sources.iter().all(|s| s.0.len() > 0) {
+      let mut items = Vec::new();
+      for s in sources.iter_mut() {
+        items.push(s.0.pop_front().unwrap());
+      }
+      if !items.iter().all(|x| *x == items[0]) {
+        return Some(false);
+      }
+    }
+    if sources.iter().any(|s| s.1 && s.0.len() == 0) {
+      if sources.iter().any(|s| s.0.len() > 0) {
+        return Some(false);
+      }
+      if sources.iter().all(|s| s.1) {
+        return Some(true);
+      }
+    }
+    None
+  }
 }
 
 impl<'a, Item> Observable<'a, Item>
-- 
2.43.0


From 34f8cfa071e6db262df31802668bf817ee6afc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 22/29] fix: replay_subject: one gap-free history per
 subscriber, nothing after the terminal

---
 src/subjects/replay_subject.rs | 133 +++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 57 deletions(-)

diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 9c33645..fb3e05a 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -7,9 +7,8 @@ where
   Item: Clone + Send + Sync,
 {
   subject: Arc<subject::Subject<'a, Item>>,
-  items: Arc<RwLock<Vec<Item>>>,
-  was_error: Arc<RwLock<Option<RxError>>>,
-  was_completed: Arc<RwLock<bool>>,
+  // everything ever pushed, closed by the terminal if there was one
+  history: Arc<RwLock<Vec<Material<Item>>>>,
 }
 
 impl<'a, Item> ReplaySubject<'a, Item>
@@ -19,77 +18,97 @@ where
   pub fn new() -> ReplaySubject<'a, Item> {
     ReplaySubject {
       subject: Arc::new(subjects::Subject::new()),
-      items: Arc::new(RwLock::new(Vec::new())),
-      was_error: Arc::new(RwLock::new(None)),
-      was_completed: Arc::new(RwLock::new(false)),
+      history: Arc::new(RwLock::new(Vec::new())),
+    }
+  }
+
+  fn push(&self, m: Material<Item>) -> bool {
+    let mut history = self.history.write().unwrap();
+    match history.last() {
+      Some(Material::Error(_)) | Some(Material::Complete) => false,
+      _ => {
+        history.push(m);
+        true
+      }
     }
   }
 
   pub fn next(&self, item: Item) {
-    (*self.items.write().unwrap()).push(item.clone());
-    self.subject.next(item);
+    if self.push(Material::Next(item.clone())) {
+      self.subject.next(item);
+    }
   }
   pub fn error(&self, err: RxError) {
-    *self.was_error.write().unwrap() = Some(err.clone());
-    self.subject.error(err);
+    if self.push(Material::Error(err.clone())) {
+      self.subject.error(err);
+    }
   }
   pub fn complete(&self) {
-    *self.was_completed.write().unwrap() = true;
-    self.subject.complete();
+    if self.push(Material::Complete) {
+      self.subject.complete();
+    }
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let items = Arc::clone(&self.items);
-    let was_error = Arc::clone(&self.was_error);
-    let was_completed = Arc::clone(&self.was_completed);
+    let history = Arc::clone(&self.history);
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
+      // position in the history, and whether somebody is delivering
+      let cursor = Arc::new(RwLock::new((0usize, false)));
+
+      let play = {
+        let s = s.clone();
+        let history = Arc::clone(&history);
+        move || {
+          {
+            let mut cursor = cursor.write().unwrap();
+            if cursor.1 {
+              // the one who is delivering comes to it
+              return;
+            }
+            cursor.1 = true;
           }
-        });
+          loop {
+            let m = {
+              let mut cursor = cursor.write().unwrap();
+              let m = history.read().unwrap().get(cursor.0).cloned();
+              if m.is_some() {
+                cursor.0 += 1;
+              } else {
+                cursor.1 = false;
+              }
+              m
+            };
+            match m {
+              Some(Material::Next(x)) => s.next(x),
+              Some(Material::Error(e)) => s.error(e),
+              Some(Material::Complete) => s.complete(),
+              None => break,
+            }
+          }
+        }
+      };
+
+      play();
+      if !s.is_subscribed() {
+        return;
       }
 
-      let items = Arc::clone(&items);
-      let was_error = Arc::clone(&was_error);
-      let was_completed = Arc::clone(&was_completed);
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-
-      *sbsc.write().unwrap() = Some(
-        utils::ready_set_go(
-          move || {
-            // block until emitted for replay
-            let items = &items.read().unwrap();
-            let was_error = &*was_error.read().unwrap();
-            let was_completed = &*was_completed.read().unwrap();
-            items.iter().for_each(|x| {
-              s.next(x.clone());
-            });
-            if let Some(err) = &*was_error {
-              s.error(err.clone());
-              return;
-            } else if *was_completed {
-              s.complete();
-              return;
-            }
-          },
-          subject.observable(),
-        )
-        .subscribe(
-          move |x| s_next.next(x),
-          move |e| s_error.error(e),
-          move || {
-            s_complete.complete();
-          },
-        ),
+      // the subject tells when the history has grown
+      let play_next = play.clone();
+      let play_error = play.clone();
+      let play_complete = play.clone();
+      let observer = Observer::new(
+        move |_| play_next(),
+        move |_| play_error(),
+        move || play_complete(),
       );
+      {
+        let observer = observer.clone();
+        s.set_on_unsubscribe(move || observer.unsubscribe());
+      }
+      subject.observable().inner_subscribe(observer);
+      play();
     })
   }
 
-- 
2.43.0


From 3ecc5114bbc2ccaa0c7ddff77bff27e4e152bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 23/29] fix: behavior_subject: terminal is final, no gap
 between the current value and later ones

---
 src/subjects/behavior_subject.rs | 127 ++++++++++++++++++++-----------
 1 file changed, 83 insertions(+), 44 deletions(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index c4c079c..f8cf846 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -6,9 +6,9 @@ pub struct BehaviorSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
-  last_item: Arc<RwLock<Option<Item>>>,
-  last_error: Arc<RwLock<Option<RxError>>>,
+  subject: Arc<subject::Subject<'a, (usize, Item)>>,
+  // the latest value with its number, or the terminal
+  current: Arc<RwLock<(usize, Material<Item>)>>,
 }
 
 impl<'a, Item> BehaviorSubject<'a, Item>
@@ -18,65 +18,104 @@ where
   pub fn new(initial: Item) -> BehaviorSubject<'a, Item> {
     BehaviorSubject {
       subject: Arc::new(subjects::Subject::new()),
-      last_item: Arc::new(RwLock::new(Some(initial))),
-      last_error: Arc::new(RwLock::new(None)),
+      current: Arc::new(RwLock::new((0, Material::Next(initial)))),
+    }
+  }
+
+  fn set(&self, m: Material<Item>) -> Option<usize> {
+    let mut current = self.current.write().unwrap();
+    if let Material::Next(_) = current.1 {
+      current.0 += 1;
+      current.1 = m;
+      Some(current.0)
+    } else {
+      None
     }
   }
 
   pub fn next(&self, item: Item) {
-    *self.last_item.write().unwrap() = Some(item.clone());
-    self.subject.next(item);
+    if let Some(n) = self.set(Material::Next(item.clone())) {
+      self.subject.next((n, item));
+    }
   }
   pub fn error(&self, err: RxError) {
-    *self.last_error.write().unwrap() = Some(err.clone());
-    self.subject.error(err);
+    if self.set(Material::Error(err.clone())).is_some() {
+      self.subject.error(err);
+    }
   }
   pub fn complete(&self) {
-    *self.last_item.write().unwrap() = None;
-    self.subject.complete();
+    if self.set(Material::Complete).is_some() {
+      self.subject.complete();
+    }
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let last_item = Arc::clone(&self.last_item);
-    let last_error = Arc::clone(&self.last_error);
+    let current = Arc::clone(&self.current);
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      {
-        let last_item = &*last_item.read().unwrap();
-        let last_error = &*last_error.read().unwrap();
-
-        if let Some(err) = last_error {
-          s.error(err.clone());
-          return;
+      // what arrives while the current value is being handed over
+      let waiting =
+        Arc::new(RwLock::new(Some(Vec::<(usize, Material<Item>)>::new())));
+
+      let emit = {
+        let s = s.clone();
+        move |m: Material<Item>| match m {
+          Material::Next(x) => s.next(x),
+          Material::Error(e) => s.error(e),
+          Material::Complete => s.complete(),
         }
-        if let Some(item) = last_item {
-          s.next(item.clone());
-        } else {
-          s.complete();
-          return;
+      };
+      let arrive = {
+        let emit = emit.clone();
+        let waiting = Arc::clone(&waiting);
+        move |n: usize, m: Material<Item>| {
+          {
+            let mut waiting = waiting.write().unwrap();
+            if let Some(waiting) = waiting.as_mut() {
+              waiting.push((n, m));
+              return;
+            }
+          }
+          emit(m);
         }
-      }
-
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
+      };
+
+      let arrive_next = arrive.clone();
+      let arrive_error = arrive.clone();
+      let arrive_complete = arrive.clone();
+      let observer = Observer::new(
+        move |(n, x)| arrive_next(n, Material::Next(x)),
+        move |e| arrive_error(usize::MAX, Material::Error(e)),
+        move || arrive_complete(usize::MAX, Material::Complete),
+      );
       {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
+        let observer = observer.clone();
+        s.set_on_unsubscribe(move || observer.unsubscribe());
+      }
+      subject.observable().inner_subscribe(observer);
+
+      let (n, m) = current.read().unwrap().clone();
+      emit(m);
+      loop {
+        let next = {
+          let mut waiting = waiting.write().unwrap();
+          match waiting.as_mut() {
+            Some(w) if w.len() > 0 => Some(w.remove(0)),
+            _ => {
+              *waiting = None;
+              None
+            }
           }
-        });
+        };
+        match next {
+          Some((nn, m)) => {
+            if nn > n {
+              emit(m);
+            }
+          }
+          None => break,
+        }
       }
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-      *sbsc.write().unwrap() = Some(subject.observable().subscribe(
-        move |x| s_next.next(x),
-        move |e| s_error.error(e),
-        move || {
-          s_complete.complete();
-        },
-      ));
     })
   }
 }
-- 
2.43.0


From 5bf7bf96951a669a03d4f7028fb90c6a8abf617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 24/29] fix: async_subject: late subscribers receive the last
 item and the terminal

---
 src/subjects/async_subject.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/subjects/async_subject.rs b/src/subjects/async_subject.rs
index 5c6e2c8..7b4b864 100644
--- a/src/subjects/async_subject.rs
+++ b/src/subjects/async_subject.rs
@@ -1,12 +1,13 @@
 use crate::prelude::*;
-use std::sync::Arc;
+use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
 pub struct AsyncSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
+  subject: Arc<replay_subject::ReplaySubject<'a, Item>>,
+  last_item: Arc<RwLock<Option<Item>>>,
 }
 
 impl<'a, Item> AsyncSubject<'a, Item>
@@ -15,21 +16,26 @@ where
 {
   pub fn new() -> AsyncSubject<'a, Item> {
     AsyncSubject {
-      subject: Arc::new(subjects::Subject::new()),
+      subject: Arc::new(subjects::ReplaySubject::new()),
+      last_item: Arc::new(RwLock::new(None)),
     }
   }
 
   pub fn next(&self, item: Item) {
-    self.subject.next(item);
+    *self.last_item.write().unwrap() = Some(item);
   }
   pub fn error(&self, err: RxError) {
     self.subject.error(err);
   }
   pub fn complete(&self) {
+    let last_item = self.last_item.write().unwrap().take();
+    if let Some(item) = last_item {
+      self.subject.next(item);
+    }
     self.subject.complete();
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable().take_last(1).clone()
+    self.subject.observable()
   }
 }
 
-- 
2.43.0


From 1d5c2b4a39cf5d53b102d8572c3e48ed0af4c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 25/29] fix: ref_count, replay: do not keep themselves alive

---
 src/operators/ref_count.rs     |  2 +-
 src/operators/replay.rs        |  2 +-
 src/subjects/replay_subject.rs |  7 +++++++
 src/subjects/subject.rs        | 11 +++++++++++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index c3464e5..cf9f870 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -44,7 +44,7 @@ where
     }
 
     let source = self.source.clone();
-    let subject = self.subject.clone();
+    let subject = self.subject.without_hooks();
     let connection = Arc::clone(&self.connection);
 
     self.subject.set_on_subscribe(move |count| {
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index 301784e..0e58b6a 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -43,7 +43,7 @@ where
     }
 
     let source = self.source.clone();
-    let subject = self.subject.clone();
+    let subject = self.subject.without_hooks();
     let connection = Arc::clone(&self.connection);
 
     self.subject.set_on_subscribe(move |count| {
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index fb3e05a..60b8f84 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -112,6 +112,13 @@ where
     })
   }
 
+  pub(crate) fn without_hooks(&self) -> ReplaySubject<'a, Item> {
+    ReplaySubject {
+      subject: Arc::new(self.subject.without_hooks()),
+      history: Arc::clone(&self.history),
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 4f7db0e..9de98bc 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -91,6 +91,17 @@ where
     })
   }
 
+  /// The same subject for whoever emits into it from inside of its own hooks:
+  /// does not own the hooks, so that they do not own themselves.
+  pub(crate) fn without_hooks(&self) -> Subject<'a, Item> {
+    Subject {
+      observers: Arc::clone(&self.observers),
+      serial: Arc::clone(&self.serial),
+      on_subscribe: Arc::new(RwLock::new(None)),
+      on_unsubscribe: Arc::new(RwLock::new(None)),
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From 171e57439fbd0ce8e6d15b8265ada341e9f75892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 26/29] fix: behavior_subject: do not repeat the current value
 when it is pushed while handed over

---
 src/subjects/behavior_subject.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index f8cf846..23ba599 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -56,6 +56,8 @@ where
       // what arrives while the current value is being handed over
       let waiting =
         Arc::new(RwLock::new(Some(Vec::<(usize, Material<Item>)>::new())));
+      // the number of the value that has been handed over
+      let handed = Arc::new(RwLock::new(0));
 
       let emit = {
         let s = s.clone();
@@ -68,6 +70,7 @@ where
       let arrive = {
         let emit = emit.clone();
         let waiting = Arc::clone(&waiting);
+        let handed = Arc::clone(&handed);
         move |n: usize, m: Material<Item>| {
           {
             let mut waiting = waiting.write().unwrap();
@@ -76,7 +79,10 @@ where
               return;
             }
           }
-          emit(m);
+          let handed = *handed.read().unwrap();
+          if n > handed {
+            emit(m);
+          }
         }
       };
 
@@ -95,6 +101,7 @@ where
       subject.observable().inner_subscribe(observer);
 
       let (n, m) = current.read().unwrap().clone();
+      *handed.write().unwrap() = n;
       emit(m);
       loop {
         let next = {
-- 
2.43.0


From 100839a500a951d8e2ef0bc55199460833770acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 27/29] fix: timeout: an item emitted while another is
 delivered leaves no second timer

---
 src/operators/timeout.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index a603df9..5f8dcbd 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -58,7 +58,7 @@ where
           {
             let sctl = sctl_next.clone();
             let scheduler_ctor = scheduler_ctor.clone();
-            *timer.write().unwrap() = Some(
+            let next =
               observables::interval(dur, move || scheduler_ctor.call(()))
                 .take(1)
                 .subscribe(
@@ -69,8 +69,12 @@ where
                   },
                   junk_error!(),
                   junk_complete!(),
-                ),
-            );
+                );
+            // an item emitted inside of sink_next has armed a timer as well
+            let prev = timer.write().unwrap().replace(next);
+            if let Some(prev) = prev {
+              prev.unsubscribe();
+            }
           }
         },
         move |_, e| {
-- 
2.43.0


From c6215608453b287f03b7fc0ddbd9a89799c759c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 28/29] fix: subject: take the observers of a terminal in one
 step

---
 src/subjects/subject.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 9de98bc..eb65fbb 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -41,14 +41,12 @@ where
       .for_each(move |x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(move |x| x.error(err.clone()));
+    let obs = std::mem::take(&mut *self.observers.write().unwrap());
+    obs.into_iter().for_each(move |x| x.1.error(err.clone()));
   }
   pub fn complete(&self) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(|x| x.complete());
+    let obs = std::mem::take(&mut *self.observers.write().unwrap());
+    obs.into_iter().for_each(|x| x.1.complete());
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
-- 
2.43.0


From f8c07620b70cfe30be08cc5640e7aaa80749ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 29/29] fix: subject: forget an observer whose subscription
 ended while it was being added

---
 src/subjects/subject.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index eb65fbb..d20002e 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -79,13 +79,26 @@ where
       }
       let len = {
         let mut observers = observers.write().unwrap();
-        observers.insert(serial, s);
+        observers.insert(serial, s.clone());
         observers.len()
       };
+      if !s.is_subscribed() {
+        // ended meanwhile, maybe before it was inserted
+        observers.write().unwrap().remove(&serial);
+        return;
+      }
       let f = on_subscribe.read().unwrap().clone();
       if let Some(f) = f {
         f.call(len);
       }
+      if !s.is_subscribed() {
+        // ended meanwhile, maybe before the hook above was called
+        let len = observers.read().unwrap().len();
+        let f = on_unsubscribe.read().unwrap().clone();
+        if let Some(f) = f {
+          f.call(len);
+        }
+      }
     })
   }
 
-- 
2.43.0

