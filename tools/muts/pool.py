T = "base/thread_pool_impl.cc"
# C01
M("p01-enq-nolock", T, ("  std::unique_lock l(mutex_);\n  task_queue_.push_back(loop);", "  task_queue_.push_back(loop);\n  std::unique_lock l(mutex_);"), expect=["C01"])
M("p01-run-locked", T, ("      l.unlock();\n\n      // Run the task.\n      bool completed = work_on_task(task, worker);\n\n      // We did a task, reset the spin counter.\n      spins = spin_count;\n\n      l.lock();\n",
  "      // Run the task.\n      bool completed = work_on_task(task, worker);\n      spins = spin_count;\n"), expect=["C01"])
M("p01-atomic-unlocked", T, ("  std::unique_lock l(mutex_);\n  t();\n", "  t();\n  std::unique_lock l(mutex_);\n"), expect=["C01"])
M("p01-idle-empty-check", T, ("  std::unique_lock l(mutex_);\n  int worker;\n  while (auto", "  if (task_queue_.empty()) return;\n  std::unique_lock l(mutex_);\n  int worker;\n  while (auto"), expect=["C01"])
M("p01-yield-locked-early-return", T, ("      l.unlock();\n      std::this_thread::yield();\n      l.lock();\n", "      l.unlock();\n      std::this_thread::yield();\n      if (condition()) return;\n      l.lock();\n"), expect=["C01"])
M("p01-double-lock", T, ("    bool completed = work_on_task(task, worker);\n\n    l.lock();\n\n    if (completed) {\n", "    bool completed = work_on_task(task, worker);\n\n    l.lock();\n\n    if (completed) {\n      std::unique_lock l2(mutex_);\n"), expect=["C01"])
M("p01-waitdone-after-unlocked-erase", T, ("    std::unique_lock l(mutex_);\n    cv_helper_.notify_all();\n  }\n  if (!c", "    task_queue_.erase(std::remove_if(task_queue_.begin(), task_queue_.end(), [](const ref_count<task_impl>& i) { return i->done(); }), task_queue_.end());\n    std::unique_lock l(mutex_);\n    cv_helper_.notify_all();\n  }\n  if (!c"), expect=["C01"])
# C02
M("p02-no-notify-idle", T, ("    l.lock();\n\n    if (completed) {\n      // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.\n      cv_helper_.notify_all();\n    }\n  }\n}\n\nvoid thread_pool_impl::atomic_call", "    l.lock();\n  }\n}\n\nvoid thread_pool_impl::atomic_call"), expect=["C02"])
M("p02-notify-one", T, ("      l.lock();\n\n      if (completed) {\n        // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.\n        cv_helper_.notify_all();", "      l.lock();\n\n      if (completed) {\n        cv_helper_.notify_one();"), expect=["C02"])
M("p02-notify-wrong-cv", T, ("      l.lock();\n\n      if (completed) {\n        // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.\n        cv_helper_.notify_all();", "      l.lock();\n\n      if (completed) {\n        cv.notify_all();"), expect=["C02"])
M("p02-notify-before-lock", T, ("      spins = spin_count;\n\n      l.lock();\n\n      if (completed) {\n        // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.\n        cv_helper_.notify_all();\n      }", "      spins = spin_count;\n\n      if (completed) {\n        cv_helper_.notify_all();\n      }\n      l.lock();\n"), expect=["C02"])
M("p02-enq-no-helper", T, ("    cv_worker_.notify_one();\n    cv_helper_.notify_one();", "    cv_worker_.notify_one();"), expect=["C02"])
M("p02-enq-one-always", T, ("  if (max_workers == 1) {", "  if (ordered) {"), expect=["C02"])
M("p02-atomic-noworker", T, ("  t();\n  cv_worker_.notify_all();\n", "  t();\n"), expect=["C02"])
M("p02-wait-stale", T, ("      l.unlock();\n      std::this_thread::yield();\n      l.lock();\n    } else {\n      cv.wait(l);", "      l.unlock();\n      std::this_thread::yield();\n      l.lock();\n      if (spins == 0) cv.wait(l);\n    } else {\n      cv.wait(l);"), expect=["C02"])
M("p02-if-not-while", T, ("  while (!condition()) {\n    int worker;", "  for (int it = 0; it < 100000 && !condition(); ++it) {\n    int worker;"), expect=["C02"])
M("p02-stop-nolock", T, ("  atomic_call([this]() { stop_ = true; });", "  stop_ = true;"), expect=["C02"])
M("p02-detach", T, ("    i.join();", "    i.detach();"), expect=["C02"])
M("p02-done-work", T, ("    wait_for([&]() { return task->done(); });", "    wait_for([&]() { return task->all_work_started(); });"), expect=["C02"])
M("p02-completed-early", T, ("  if (!completed || !task->done()) {", "  if (!completed && !task->all_work_started()) {"), expect=["C02"])
# C03
M("p03-gt", T, ("    if (i >= end) {", "    if (i > end) {"), expect=["C03"])
M("p03-load-store", T, ("    std::size_t i = this->i++;\n", "    std::size_t i = this->i;\n    this->i = i + 1;\n"), expect=["C03"])
M("p03-shards-skip", T, ("  for (std::size_t i = 0; i < i0; ++i) {\n    done", "  for (std::size_t i = 1; i < i0; ++i) {\n    done"), expect=["C03"])
M("p03-divide", T, ("((i + 1) * n) / shard_count_", "(i + 1) * (n / shard_count_)"), expect=["C03"])
M("p03-done-before", T, ("    body(i);\n    ++done;", "    ++done;\n    if (i + 1 < end) body(i);"), expect=["C03"])
M("p03-todo-each", T, ("  return done > 0 && (todo_ -= done) == 0;", "  return done > 0 && (todo_ -= 1) == 0;"), expect=["C03"])
M("p03-todo-early", T, ("    done += shards_[i].work(body);\n  }\n  for (std::size_t i = 0; i < i0; ++i) {", "    done += shards_[i].work(body);\n    todo_ -= done;\n  }\n  for (std::size_t i = 0; i < i0; ++i) {"), expect=["C03"])
M("p03-n-wrong", T, ("task_impl::make(shard_count, n, std", "task_impl::make(shard_count, max_workers, std"), expect=["C03"])
M("p03-done-alldone", "base/thread_pool_impl.h", ("bool done() const override { return todo_ == 0; }", "bool done() const override { return todo_ <= 1; }"), expect=["C03"])
M("p03-done-started", "base/thread_pool_impl.h", ("bool done() const override { return todo_ == 0; }", "bool done() const override { for (std::size_t i = 0; i < shard_count_; ++i) if (shards_[i].i < shards_[i].end) return false; return true; }"), expect=["C03"])
M("p03-started-lt", T, ("    if (s.i < s.end) return false;", "    if (s.i + 1 < s.end) return false;"), expect=["C03"])
# C04
M("p04-nocheck", T, ("    } else if (std::find(task_stack.begin(), task_stack.end(), &*loop) != task_stack.end()) {", "    } else if (!task_stack.empty() && task_stack.back() == &*loop) {"), expect=["C04"])
M("p04-nopop", T, ("  bool completed = t->work(args...);\n  task_stack.pop_back();\n  return completed;", "  bool completed = t->work(args...);\n  if (!completed) task_stack.pop_back();\n  return completed;"), expect=["C04"])
M("p04-direct", T, ("  bool completed = work_on_task(task);\n", "  bool completed = task->work();\n"), expect=["C04"])
M("p04-poporder", T, ("  bool completed = t->work(args...);\n  task_stack.pop_back();\n  return completed;", "  task_stack.pop_back();\n  return t->work(args...);"), expect=["C04"])
M("p04-notls", T, ("thread_local std::vector<const", "std::vector<const"), expect=["C04"])
# benign
M("pb-helper", T, ("        cv_helper_.notify_all();\n      }\n    } else if (spins-- > 0) {", "        notify_done();\n      }\n    } else if (spins-- > 0) {"),
  ("base/thread_pool_impl.h", "  ref_count<task_impl> dequeue(int& worker);", "  ref_count<task_impl> dequeue(int& worker);\n  void notify_done() { cv_helper_.notify_all(); }"))
M("pb-scope", T, ("      l.unlock();\n      std::this_thread::yield();\n      l.lock();\n    } else {\n      cv.wait(l);\n    }", "      l.unlock();\n      std::this_thread::yield();\n      l.lock();\n      continue;\n    }  else {\n    cv.wait(l);\n}"))
M("pb-lockguard", T, ("  std::unique_lock l(mutex_);\n  t();", "  std::lock_guard<std::mutex> guard(mutex_);\n  t();"))
M("pb-fetchadd", T, ("this->i++;", "this->i.fetch_add(1);"))
M("pb-forwork", T, ("  std::size_t done = 0;\n  while (true) {\n    std::size_t i = this->i++;\n    if (i >= end) {\n      // There are no more iterations to run.\n      break;\n    }\n    body(i);\n    ++done;\n  }\n  return done;",
  "  std::size_t done = 0;\n  for (std::size_t i = this->i++; i < end; i = this->i++) {\n    body(i);\n    done++;\n  }\n  return done;"))
M("pb-wrap", T, ("  for (std::size_t i = i0; i < shard_count_; ++i) {\n    done += shards_[i].work(body);\n  }\n  for (std::size_t i = 0; i < i0; ++i) {\n    done += shards_[i].work(body);\n  }\n",
  "  for (std::size_t k = 0; k < shard_count_; ++k) {\n    done += shards_[(i0 + k) % shard_count_].work(body);\n  }\n"))
M("pb-ret", T, ("  return done > 0 && (todo_ -= done) == 0;", "  if (done == 0) return false;\n  const std::size_t left = todo_.fetch_sub(done) - done;\n  return left == 0;"))
M("pb-count", T, ("std::find(task_stack.begin(), task_stack.end(), &*loop) != task_stack.end()", "std::count(task_stack.begin(), task_stack.end(), loop.get()) > 0") if False else ("std::find(task_stack.begin(), task_stack.end(), &*loop) != task_stack.end()", "is_running_on_this_thread(&*loop)"),
  ("base/thread_pool_impl.cc", "}  // namespace\n\nref_count<thread_pool_impl::task_impl> thread_pool_impl::dequeue", "bool is_running_on_this_thread(const thread_pool::task* t) {\n  for (const thread_pool::task* i : task_stack) {\n    if (i == t) return true;\n  }\n  return false;\n}\n\n}  // namespace\n\nref_count<thread_pool_impl::task_impl> thread_pool_impl::dequeue"))
M("pb-count2", T, ("std::find(task_stack.begin(), task_stack.end(), &*loop) != task_stack.end()", "is_running_on_this_thread(&*loop)"),
  ("base/thread_pool_impl.cc", "}  // namespace\n\nref_count<thread_pool_impl::task_impl> thread_pool_impl::dequeue", "bool is_running_on_this_thread(const thread_pool::task* t) {\n  return std::find(task_stack.begin(), task_stack.end(), t) != task_stack.end();\n}\n\n}  // namespace\n\nref_count<thread_pool_impl::task_impl> thread_pool_impl::dequeue"))
M("pb-merge-waits", T, ("  bool completed = work_on_task(task);\n  if (completed) {", "  const bool completed = work_on_task(task);\n  if (completed) {\n    if (false) return;"))
M("pb-shardloop", T, ("    shard& s = shards_[i];\n    s.i = begin;\n    s.end = ((i + 1) * n) / shard_count_;\n    begin = s.end;", "    const std::size_t next = (n * (i + 1)) / shard_count_;\n    shards_[i].i = begin;\n    shards_[i].end = next;\n    begin = next;"))
M("pb-enq-helper", T, ("  std::unique_lock l(mutex_);\n  task_queue_.push_back(loop);\n  if (max_workers == 1) {\n    cv_worker_.notify_one();\n    cv_helper_.notify_one();\n  } else {\n    cv_worker_.notify_all();\n    cv_helper_.notify_all();\n  }\n  return loop;",
  "  {\n    std::unique_lock<std::mutex> l(mutex_);\n    task_queue_.push_back(loop);\n  }\n  if (max_workers != 1) {\n    cv_worker_.notify_all();\n    cv_helper_.notify_all();\n  } else {\n    cv_worker_.notify_one();\n    cv_helper_.notify_one();\n  }\n  return loop;"))
M("pb-cond-loop", T, ("  std::unique_lock l(mutex_);\n  while (!condition()) {\n    int worker;", "  std::unique_lock l(mutex_);\n  while (true) {\n    if (condition()) break;\n    int worker;"))
