From 90fffa87c23108301b0de5e23cc6a85ab58ee8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 01/22] fix: notify waiters when wait_for(task) completes the
 task

A thread that finished the last work item of a task inside wait_for(task*) never
notified cv_helper_, so another thread waiting for the same task could sleep forever.
---
 slinky/base/thread_pool_impl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slinky/base/thread_pool_impl.cc b/slinky/base/thread_pool_impl.cc
index 3b6fdf1..3e84fbf 100644
--- a/slinky/base/thread_pool_impl.cc
+++ b/slinky/base/thread_pool_impl.cc
@@ -241,6 +241,11 @@ ref_count<thread_pool::task> thread_pool_impl::enqueue(std::size_t n, task_body
 void thread_pool_impl::wait_for(task* t) {
   task_impl* task = reinterpret_cast<task_impl*>(t);
   bool completed = work_on_task(task);
+  if (completed) {
+    // We completed the loop, notify the helper CV in case another thread is waiting for this loop to complete.
+    std::unique_lock l(mutex_);
+    cv_helper_.notify_all();
+  }
   if (!completed || !task->done()) {
     // We want to spin a few times before letting the OS take over. This spinning is especially useful because we don't
     // need to lock the mutex.
-- 
2.43.0


From 7dfb3181317ee9efed74f89478ee86e6894f5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 02/22] fix: restore let bindings in reverse order

A let that defines the same symbol twice left the symbol bound to the first of the two
values instead of the value it had outside the let.
---
 slinky/runtime/evaluate.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index e66e759..3d51d1e 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -175,7 +175,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse order, the same symbol may have been defined more than once.
+    for (size_t i = size; i-- > 0;) {
       context.set(op->lets[i].first, old_values[i]);
     }
     return result;
@@ -406,7 +407,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse order, the same symbol may have been defined more than once.
+    for (size_t i = size; i-- > 0;) {
       const auto& let = op->lets[i];
       context.set(let.first, old_values[i]);
     }
-- 
2.43.0


From ad79c28829c761aed8e3b28a93600b7db0673aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 03/22] fix: parallel loops with empty bounds run no iterations

If the max of the bounds was less than the min by more than the step, the (negative) number
of iterations was converted to a huge unsigned number.
---
 slinky/runtime/evaluate.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 3d51d1e..a9f0cae 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -452,7 +452,8 @@ public:
     interval bounds = eval(op->bounds);
     index_t step = eval(op->step, 1);
     assert(step != 0);
-    std::size_t n = ceil_div(bounds.max - bounds.min + 1, step);
+    // The bounds may be empty by more than one step, which is no iterations, not a negative number of them.
+    std::size_t n = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));
 
     if (n == 0) {
       return 0;
-- 
2.43.0


From 74742c21785471b4a139e959d8d6b16ce8cd0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 04/22] fix: in-place truncation does not increase the rank

Truncating a buffer to more dimensions than it has made the buffer claim dimensions that do not
exist. Without the in-place optimization, such a truncation adds broadcasts, which are dropped.
---
 slinky/runtime/evaluate.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index a9f0cae..f38d071 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -868,7 +868,8 @@ public:
 
       // In-place truncate, all we need to do is set the rank (and restore it).
       std::size_t old_rank = src_buf->rank;
-      src_buf->rank = op->dims.size();
+      // The dimensions beyond the rank do not exist, truncating can only reduce the rank.
+      src_buf->rank = std::min(old_rank, op->dims.size());
       index_t result = eval(op->body);
       src_buf->rank = old_rank;
       return result;
-- 
2.43.0


From 7b8d1d275a11a21eabe10ec21de8436a158f6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 05/22] fix: do not read the parent context from async tasks

The context of the task was initialized from the context of the enqueuing thread by the task itself,
possibly on another thread, while the enqueuing thread modifies and reallocates its context.
---
 slinky/runtime/evaluate.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index f38d071..707b130 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -544,7 +544,14 @@ public:
 
   SLINKY_NO_INLINE index_t eval(const async* op) {
     index_t task_result = 0;
-    auto task_body = [&]() { task_result = eval_with_new_context(op->task); };
+    // Make the context for the task now: once the task may be running on another thread, it can't read our context,
+    // because we are going to modify (and maybe reallocate) it below.
+    eval_context task_context;
+    stmt task_stmt = op->task;
+    const let_stmt* closure = as_closure(task_stmt);
+    if (closure) task_stmt = closure->body;
+    init_context(task_context, context, closure);
+    auto task_body = [&]() { task_result = evaluate(task_stmt, task_context); };
     ref_count<thread_pool::task> task;
     thread_pool* pool = context.config->thread_pool;
     if (pool) {
-- 
2.43.0


From e1f529c3fc501011685916b395157338d992fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 06/22] fix: restore the symbol shadowed by an async task
 handle

After an async statement, the symbol of the task handle was set to 0 instead of its value outside
of the async statement.
---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 707b130..37ea6a2 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -562,7 +562,7 @@ public:
 
     context.reserve(op->sym.id + 1);
     index_t old_sym = 0;
-    if (op->sym.defined()) context.set(op->sym, reinterpret_cast<index_t>(&*task));
+    if (op->sym.defined()) old_sym = context.set(op->sym, reinterpret_cast<index_t>(&*task));
 
     index_t result = eval_with_new_context(op->body);
 
-- 
2.43.0


From fdbd548b1bd355e5180ef61c1a5099f245206f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 07/22] fix: recursive_node_visitor visits the scalar arguments
 of a call_stmt

---
 slinky/runtime/expr_stmt.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/expr_stmt.cc b/slinky/runtime/expr_stmt.cc
index 21b2440..0bd8161 100644
--- a/slinky/runtime/expr_stmt.cc
+++ b/slinky/runtime/expr_stmt.cc
@@ -896,7 +896,11 @@ void recursive_node_visitor::visit(const loop* op) {
   if (op->max_workers.defined()) op->max_workers.accept(this);
   if (op->body.defined()) op->body.accept(this);
 }
-void recursive_node_visitor::visit(const call_stmt* op) {}
+void recursive_node_visitor::visit(const call_stmt* op) {
+  for (const expr& i : op->scalars) {
+    if (i.defined()) i.accept(this);
+  }
+}
 void recursive_node_visitor::visit(const copy_stmt* op) {
   for (const expr& i : op->src_x) {
     i.accept(this);
-- 
2.43.0


From bad6615b9f14cf5a241569d9029c1b55993fc7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 08/22] fix: match and compare consider max_workers, storage
 and is_closure

---
 slinky/builder/substitute.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 0a02551..8276f0a 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -253,7 +253,12 @@ public:
     }
   }
 
-  void visit(const let_stmt* op) override { visit_let(static_cast<const let_stmt*>(op)); }
+  void visit(const let_stmt* op) override {
+    const let_stmt* ls = static_cast<const let_stmt*>(self);
+
+    if (!try_match(ls->is_closure, op->is_closure)) return;
+    visit_let(op);
+  }
 
   void visit(const block* op) override {
     const block* bs = static_cast<const block*>(self);
@@ -265,6 +270,7 @@ public:
     const loop* ls = static_cast<const loop*>(self);
 
     if (!try_match(ls->sym, op->sym)) return;
+    if (!try_match(ls->max_workers, op->max_workers)) return;
     if (!try_match(ls->bounds, op->bounds)) return;
     if (!try_match(ls->step, op->step)) return;
     if (!try_match(ls->body, op->body)) return;
@@ -308,6 +314,7 @@ public:
     assert(as);
 
     if (!try_match(as->sym, op->sym)) return;
+    if (!try_match(as->storage, op->storage)) return;
     if (!try_match(as->elem_size, op->elem_size)) return;
     if (!try_match(as->dims, op->dims)) return;
     if (!try_match(as->body, op->body)) return;
-- 
2.43.0


From fde7525299d767ff01e50f0c261cc42203fa630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 09/22] fix: substitute replaces symbols in the max_workers of
 a loop

---
 slinky/builder/substitute.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 8276f0a..9008afe 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -496,13 +496,15 @@ void substitutor::visit(const let_stmt* op) { set_result(mutate_let(this, op));
 void substitutor::visit(const loop* op) {
   interval_expr bounds = mutate(op->bounds);
   expr step = mutate(op->step);
+  expr max_workers = mutate(op->max_workers);
   var sym = enter_decl(op->sym);
   stmt body = sym.defined() ? mutate(op->body) : op->body;
   sym = sym.defined() ? sym : op->sym;
-  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) && body.same_as(op->body)) {
+  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) &&
+      max_workers.same_as(op->max_workers) && body.same_as(op->body)) {
     set_result(op);
   } else {
-    set_result(loop::make(sym, op->max_workers, std::move(bounds), std::move(step), std::move(body)));
+    set_result(loop::make(sym, std::move(max_workers), std::move(bounds), std::move(step), std::move(body)));
   }
   exit_decls();
 }
-- 
2.43.0


From 29b77a9ef267e55ff18aca7837e9e9b3ac95eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 10/22] fix: chrome_trace does not read past its buffer when a
 name is long

---
 slinky/base/chrome_trace.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/slinky/base/chrome_trace.cc b/slinky/base/chrome_trace.cc
index fb9c606..f77e49e 100644
--- a/slinky/base/chrome_trace.cc
+++ b/slinky/base/chrome_trace.cc
@@ -5,6 +5,7 @@
 #include <cstdint>
 #include <fstream>
 #include <memory>
+#include <string>
 
 namespace slinky {
 
@@ -52,10 +53,19 @@ void chrome_trace::write_event(const char* name, const char* cat, char type) {
   // It would be an error to put a comma here as the first item in the output, but we put a dummy {} object at the
   // beginning of the array.
   int size = snprintf(buffer, sizeof(buffer), message_format, ",\n", name, cat, type, tid, ts, cpu_ts);
+  const char* message = buffer;
+
+  std::string big_buffer;
+  if (size >= static_cast<int>(sizeof(buffer))) {
+    // The name is too long for our buffer, use one that is big enough.
+    big_buffer.resize(size + 1);
+    size = snprintf(&big_buffer[0], big_buffer.size(), message_format, ",\n", name, cat, type, tid, ts, cpu_ts);
+    message = big_buffer.data();
+  }
 
   // Flush our buffer.
   std::unique_lock l(mtx_);
-  os_.write(buffer, size);
+  os_.write(message, size);
 }
 
 void chrome_trace::begin(const char* name) { write_event(name, "slinky", 'B'); }
-- 
2.43.0


From 93e851511407e153b08c63fcc316972e4f072ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 11/22] fix: operator& of boxes does not read past the end of
 the shorter box

---
 slinky/runtime/expr_stmt.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/slinky/runtime/expr_stmt.cc b/slinky/runtime/expr_stmt.cc
index 0bd8161..ca90797 100644
--- a/slinky/runtime/expr_stmt.cc
+++ b/slinky/runtime/expr_stmt.cc
@@ -406,12 +406,9 @@ box_expr operator|(box_expr a, const box_expr& b) {
 
 box_expr operator&(box_expr a, const box_expr& b) {
   a.resize(std::max(a.size(), b.size()));
-  for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
+  for (std::size_t i = 0; i < b.size(); ++i) {
     a[i] &= b[i];
   }
-  for (std::size_t i = b.size(); i < a.size(); ++i) {
-    a[i] = b[i];
-  }
   return a;
 }
 
-- 
2.43.0


From 253e424e3f65853cb145ca9aabdd5d311fa90f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 12/22] fix: move assignment of a func unlinks the buffers it
 used to produce

---
 slinky/builder/pipeline.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slinky/builder/pipeline.cc b/slinky/builder/pipeline.cc
index 7eafc3d..e19fa48 100644
--- a/slinky/builder/pipeline.cc
+++ b/slinky/builder/pipeline.cc
@@ -106,6 +106,7 @@ func::func(copy_stmt::callable impl, input src, output dst, input pad)
 func::func(func&& m) noexcept { *this = std::move(m); }
 func& func::operator=(func&& m) noexcept {
   if (this == &m) return *this;
+  remove_this_from_buffers();
   m.remove_this_from_buffers();
   impl_ = std::move(m.impl_);
   copy_impl_ = std::move(m.copy_impl_);
-- 
2.43.0


From 620372d318db224562279d51d088f66cdca00f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 13/22] fix: dividing the minimum integer by -1 does not trap

---
 slinky/base/arithmetic.h        | 11 ++++++++++-
 slinky/base/modulus_remainder.h |  6 ++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index fe9ac1b..b1a1334 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <limits>
 #include <optional>
+#include <type_traits>
 #include <utility>
 
 namespace slinky {
@@ -19,6 +20,10 @@ T euclidean_div(T a, T b, T define_b_zero = 0) {
   if (b == 0) {
     return define_b_zero;
   }
+  if (std::is_signed_v<T> && b == static_cast<T>(-1) && a == std::numeric_limits<T>::min()) {
+    // The quotient is not representable, and dividing traps on some targets.
+    return std::numeric_limits<T>::max();
+  }
   T q = a / b;
   T r = a % b;
   // Get the sign of b and r (-1 or 0).
@@ -33,6 +38,10 @@ T euclidean_mod(T a, T b, T define_b_zero = 0) {
   if (b == 0) {
     return define_b_zero;
   }
+  if (std::is_signed_v<T> && b == static_cast<T>(-1)) {
+    // a % b traps on some targets if a is the minimum value of T.
+    return 0;
+  }
   T r = a % b;
   return r >= 0 ? r : (b < 0 ? r - b : r + b);
 }
@@ -195,7 +204,7 @@ T gcd(T a, T b) {
   }
   while (b != 0) {
     T tmp = b;
-    b = a % b;
+    b = euclidean_mod(a, b);
     a = tmp;
   }
   return a;
diff --git a/slinky/base/modulus_remainder.h b/slinky/base/modulus_remainder.h
index 797f608..2a87a8d 100644
--- a/slinky/base/modulus_remainder.h
+++ b/slinky/base/modulus_remainder.h
@@ -106,7 +106,7 @@ modulus_remainder<T> operator/(const modulus_remainder<T>& a, const modulus_rema
 
   if (b.modulus == 0 && b.remainder != 0) {
     if ((euclidean_mod(a.modulus, b.remainder, a.modulus)) == 0) {
-      T m = a.modulus / b.remainder;
+      T m = euclidean_div(a.modulus, b.remainder);
       T r = euclidean_div(a.remainder, b.remainder);
       r = euclidean_mod(r, m, r);
       return {m, r};
@@ -155,7 +155,9 @@ template <typename T>
 modulus_remainder<T> operator&(const modulus_remainder<T>& a, const modulus_remainder<T>& b) {
   if (a.modulus == 0) return a;
   if (b.modulus == 0) return b;
-  if (a.remainder == 0 && b.remainder == 0) return {lcm(a.modulus, b.modulus), 0};
+  if (a.remainder == 0 && b.remainder == 0 && !mul_overflows(a.modulus, b.modulus)) {
+    return {lcm(a.modulus, b.modulus), 0};
+  }
   // We have x == ma * y + ra == mb * z + rb
 
   // We want to synthesize these two facts into one modulus
-- 
2.43.0


From 442a2188a0e576e2cd7cdec88746243ef613e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 14/22] fix: a loop limited to more workers than fit in an int
 does not hang

---
 slinky/runtime/evaluate.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 37ea6a2..d015ae3 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -499,7 +499,8 @@ public:
         }
       };
 
-      pool->parallel_for(n, std::move(task), max_workers);
+      // The pool's limit is an int, don't let a bigger limit wrap around.
+      pool->parallel_for(n, std::move(task), static_cast<int>(std::min<index_t>(max_workers, loop::parallel)));
 
       return state.result;
     }
-- 
2.43.0


From 838878a7cab1b207c1a713d7cc3f7fa4af80af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 15/22] fix: bounds of sums of staircases are right when the
 constants do not fit in an int

---
 slinky/base/arithmetic.cc | 24 ++++++++++++++++--------
 slinky/base/arithmetic.h  |  3 ++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/slinky/base/arithmetic.cc b/slinky/base/arithmetic.cc
index b4063d0..8f86c72 100644
--- a/slinky/base/arithmetic.cc
+++ b/slinky/base/arithmetic.cc
@@ -1,11 +1,18 @@
 #include <algorithm>
+#include <cstddef>
+#include <cstdlib>
 #include <limits>
 
 #include "slinky/base/arithmetic.h"
 
 namespace slinky {
 
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2) {
+interval<int> staircase_sum_bounds(
+    std::ptrdiff_t a1, std::ptrdiff_t b1, std::ptrdiff_t c1, std::ptrdiff_t a2, std::ptrdiff_t b2, std::ptrdiff_t c2) {
+  for (std::ptrdiff_t i : {a1, b1, c1, a2, b2, c2}) {
+    // If the constants do not fit in an int, the arithmetic below might overflow.
+    if (i < std::numeric_limits<int>::min() || i > std::numeric_limits<int>::max()) return {};
+  }
   if (b1 == 0 && b2 == 0) {
     return {0, 0};
   } else if (c1 * b2 != -c2 * b1) {
@@ -17,18 +24,19 @@ interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c
   // The ratios of the two sides are equal. The value of this expression is a periodic pattern.
   // We need to search the period for the min and max.
   // If these constants get so big, we need to revisit this algorithm.
-  if (abs(b1) > 1024 || abs(b2) > 1024) {
+  if (std::abs(b1) > 1024 || std::abs(b2) > 1024) {
     return {};
   }
-  int min = std::numeric_limits<int>::max();
-  int max = std::numeric_limits<int>::min();
-  const int period = lcm(abs(b1), abs(b2));
-  for (int x = 0; x < period; ++x) {
-    const int y = euclidean_div(x + a1, b1) * c1 + euclidean_div(x + a2, b2) * c2;
+  std::ptrdiff_t min = std::numeric_limits<int>::max();
+  std::ptrdiff_t max = std::numeric_limits<int>::min();
+  const std::ptrdiff_t period = lcm(std::abs(b1), std::abs(b2));
+  for (std::ptrdiff_t x = 0; x < period; ++x) {
+    const std::ptrdiff_t y = add_sat(euclidean_div(x + a1, b1) * c1, euclidean_div(x + a2, b2) * c2);
     min = std::min(min, y);
     max = std::max(max, y);
   }
-  return {min, max};
+  if (min < std::numeric_limits<int>::min() || max > std::numeric_limits<int>::max()) return {};
+  return {static_cast<int>(min), static_cast<int>(max)};
 }
 
 }  // namespace slinky
diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index b1a1334..7eb05e9 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -246,7 +246,8 @@ struct interval {
 
 // Returns the [min, max] interval over all x of ((x + a1)/b1)*c1 + ((x + a2)/b2)*c2
 // Returns std::nullopt if unbounded.
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2);
+interval<int> staircase_sum_bounds(
+    std::ptrdiff_t a1, std::ptrdiff_t b1, std::ptrdiff_t c1, std::ptrdiff_t a2, std::ptrdiff_t b2, std::ptrdiff_t c2);
 
 }  // namespace slinky
 
-- 
2.43.0


From 8ef0429715e5e1a96bfb685a98ada205898d551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 16/22] fix: substituting a symbol in a copy replaces the
 buffers even if its dimension hides something

When a dst_x declaration of a copy_stmt hides what is being substituted (or
would capture the replacement), only src_x is in the scope of that
declaration. The substitutor returned the whole statement unchanged, leaving
src, dst and pad referring to the old symbols.
---
 slinky/builder/substitute.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 9008afe..070be25 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -761,9 +761,8 @@ void substitutor::visit(const copy_stmt* op) {
   for (var& i : dst_x) {
     var new_i = enter_decl(i);
     if (!new_i.defined()) {
-      set_result(op);
-      exit_decls(decls_entered);
-      return;
+      // This declaration hides what is being substituted in src_x, but not in src, dst, or pad.
+      break;
     } else if (new_i != i) {
       i = new_i;
       changed = true;
-- 
2.43.0


From a20796edf15f5b1f1a2ec0411bf2b6f52ae7dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 17/22] fix: a loop's variable is only known to be aligned to
 the step if the minimum is known

---
 slinky/builder/simplify.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b906da2..b1533ee 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1411,8 +1411,10 @@ public:
       if (i) ++i->loop_depth;
     }
     alignment_type alignment;
-    if (auto cstep = as_constant(step)) alignment.modulus = *cstep;
-    if (auto cmin = as_constant(bounds.min)) alignment.remainder = *cmin;
+    auto cmin = as_constant(bounds.min);
+    auto cstep = as_constant(step);
+    // If we don't know where the loop begins, the step doesn't say anything about the alignment of the loop variable.
+    if (cmin && cstep && *cstep > 0) alignment = {*cstep, euclidean_mod(*cmin, *cstep)};
     // If we're in the body of the loop, then we know that bounds.max >= bounds.min.
     stmt body = mutate_with_bounds(op->body, op->sym, {bounds.min, mutate(max(bounds.min, bounds.max))}, alignment);
     for (auto& i : buffers) {
-- 
2.43.0


From d47efcf611f0c324faf0df40f0a3578bda87a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 18/22] fix: slide and fold does not assume a loop with unknown
 minimum is aligned, or divide by a step of 0

---
 slinky/builder/slide_and_fold_storage.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index c47b021..282c329 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -719,10 +719,13 @@ public:
 
       auto maybe_min = as_constant(loop_bounds.min);
       auto maybe_step = as_constant(op->step);
-      index_t modulus = maybe_step ? *maybe_step : 1;
-      index_t remainder = (maybe_min && maybe_step) ? *maybe_min % *maybe_step : 0;
+      // If we don't know where the loop begins, the step doesn't say anything about the alignment of the loop variable.
+      alignment_type alignment;
+      if (maybe_min && maybe_step && *maybe_step > 0) {
+        alignment = {*maybe_step, euclidean_mod(*maybe_min, *maybe_step)};
+      }
 
-      auto set_expr_alignment = set_value_in_scope(expr_alignment, op->sym, {modulus, remainder});
+      auto set_expr_alignment = set_value_in_scope(expr_alignment, op->sym, alignment);
       body = mutate(op->body);
     }
 
-- 
2.43.0


From e3760ac116e06ed5a4a78f4eeb2da7038046e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:12 +0000
Subject: [PATCH 19/22] fix: a condition that is not boolean is not learned to
 equal 1

---
 slinky/builder/simplify.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b1533ee..b32f326 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -672,9 +672,9 @@ public:
         learn_from_less_equal(lt->a, lt->b);
       } else if (const equal* eq = c.as<equal>()) {
         learn_from_equal(eq->a, eq->b);
-      } else if (!as_constant(c) && !as_variable(c)) {
-        // We couldn't learn anything, just add the whole expression as a fact, if it isn't a constant or variable,
-        // which could rewrite the value from any x not zero to 1.
+      } else if (!as_constant(c) && is_boolean(c)) {
+        // We couldn't learn anything, just add the whole expression as a fact, if it isn't a constant or a value that
+        // isn't boolean, which could rewrite the value from any x not zero to 1.
         facts.push_back({c, expr(true)});
       }
     }
-- 
2.43.0


From 1d01753f3359fa4b59781fc3b92d5c1ec7b2c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 20/22] fix: a constant bound of a value that is not boolean is
 not a bound of whether it is zero

---
 slinky/builder/simplify.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b32f326..2cfb11e 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2531,6 +2531,9 @@ public:
     return result;
   }
 
+  // Mutate a value interpreted as a boolean. A bound of a value that is not boolean is not a bound of whether it is zero.
+  expr mutate_boolean(const expr& x, int sign) { return strip_boolean(mutate(x, is_boolean(x) ? sign : 0)); }
+
   void visit(const variable* op) override { set_result(constant_required ? expr() : expr(op)); }
 
   template <typename T>
@@ -2668,8 +2671,8 @@ public:
 
   template <typename T>
   void visit_logical_and_or(const T* op, int new_sign) {
-    expr a = strip_boolean(mutate(op->a, new_sign));
-    expr b = strip_boolean(mutate(op->b, new_sign));
+    expr a = mutate_boolean(op->a, new_sign);
+    expr b = mutate_boolean(op->b, new_sign);
 
     if (as_constant(b)) std::swap(a, b);
 
@@ -2699,7 +2702,7 @@ public:
   void visit(const logical_or* op) override { visit_logical_and_or(op, std::max(sign, 0)); }
 
   void visit(const logical_not* op) override {
-    expr a = strip_boolean(mutate(op->a, -sign));
+    expr a = mutate_boolean(op->a, -sign);
     if (auto ca = as_constant(a)) {
       set_result(*ca != 0 ? 0 : 1);
     } else if (sign != 0) {
@@ -2752,8 +2755,8 @@ public:
       // - We're constant folding.
       const bool is_and = op->intrinsic == intrinsic::and_then;
       const int new_sign = is_and ? std::min(sign, 0) : std::max(sign, 0);
-      expr a = strip_boolean(mutate(op->args[0], new_sign));
-      expr b = strip_boolean(mutate(op->args[1], new_sign));
+      expr a = mutate_boolean(op->args[0], new_sign);
+      expr b = mutate_boolean(op->args[1], new_sign);
 
       if (auto ca = as_constant(a)) {
         if (*ca) {
-- 
2.43.0


From a1d78d064ff8b08b27f66172b9dd8ddae3bda267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 21/22] fix: evaluate all the bounds of a crop before cropping
 the buffer they may depend on

---
 slinky/runtime/evaluate.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index d015ae3..5622420 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -719,15 +719,17 @@ public:
     std::size_t crop_rank = std::min(op->bounds.size(), buffer->rank);
     interval* old_bounds = SLINKY_ALLOCA(interval, crop_rank);
 
-    void* old_base = buffer->base;
+    // The bounds may depend on the buffer we are about to crop, so evaluate all of them before cropping any dimension.
     for (std::size_t d = 0; d < crop_rank; ++d) {
-      slinky::dim& dim = buffer->dims[d];
-      index_t old_min = dim.min();
-      index_t old_max = dim.max();
-      old_bounds[d].min = old_min;
-      old_bounds[d].max = old_max;
+      const slinky::dim& dim = buffer->dims[d];
+      old_bounds[d] = eval(op->bounds[d], {dim.min(), dim.max()});
+    }
 
-      interval bounds = eval(op->bounds[d], {old_min, old_max});
+    void* old_base = buffer->base;
+    for (std::size_t d = 0; d < crop_rank; ++d) {
+      const slinky::dim& dim = buffer->dims[d];
+      interval bounds = old_bounds[d];
+      old_bounds[d] = {dim.min(), dim.max()};
       buffer->crop(d, bounds.min, bounds.max);
     }
 
-- 
2.43.0


From e79f7e28774e04bef0a29cb0ef7bcf1913f194c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:12 +0000
Subject: [PATCH 22/22] fix: don't try the next replacement of a rewrite rule
 when evaluating a predicate overflows

The replacements of a rule that come after a predicate assume it is false. If
evaluating the predicate overflowed, we don't know that, e.g.
min(x, min(y, x + INT64_MAX) + INT64_MAX) was rewritten to the replacement for
c0 + c1 < 0.
---
 slinky/builder/rewrite.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/rewrite.h b/slinky/builder/rewrite.h
index c5c9c73..a1f7179 100644
--- a/slinky/builder/rewrite.h
+++ b/slinky/builder/rewrite.h
@@ -873,9 +873,12 @@ class base_rewriter {
     static_assert(!pattern_info<Pattern>::is_boolean || pattern_info<Replacement>::is_boolean);
 
     bool overflowed = false;
-    if (substitute(pr, ctx, overflowed) && !overflowed) {
+    const bool applies = substitute(pr, ctx, overflowed);
+    // The replacements after this one can assume this predicate is false, so we can't use them if we don't know that.
+    if (overflowed) return false;
+    if (applies) {
       result = substitute(r, ctx, overflowed);
-      if (!overflowed) return true;
+      return !overflowed;
     }
     // Try the next replacement
     return find_replacement<Pattern>(ctx, r_pr...);
-- 
2.43.0

