# Refactorings of the thread pool that keep its behaviour: every check has to stay quiet.
P_ = "base/thread_pool_impl.cc"
H_ = "base/thread_pool_impl.h"
M("rp-work-for", P_, ("""  while (true) {
    std::size_t i = this->i++;
    if (i >= end) {
      // There are no more iterations to run.
      break;
    }
    body(i);
    ++done;
  }
  return done;""", """  for (std::size_t next = i++; next < end; next = i++) {
    body(next);
    ++done;
  }
  return done;"""))
M("rp-work-fetch", P_, ("""    std::size_t i = this->i++;
    if (i >= end) {
      // There are no more iterations to run.
      break;
    }
    body(i);
    ++done;""", """    const std::size_t item = this->i.fetch_add(1);
    if (item < end) {
      body(item);
      done += 1;
    } else {
      return done;
    }"""))
M("rp-work-oneloop", P_, ("""  for (std::size_t i = i0; i < shard_count_; ++i) {
    done += shards_[i].work(body);
  }
  for (std::size_t i = 0; i < i0; ++i) {
    done += shards_[i].work(body);
  }""", """  for (std::size_t i = 0; i < shard_count_; ++i) {
    done += shards_[(i0 + i) % shard_count_].work(body);
  }"""))
M("rp-work-result", P_, ("  return done > 0 && (todo_ -= done) == 0;", """  if (done == 0) {
    // We did nothing, someone else did or will complete this task.
    return false;
  }
  const std::size_t remaining = todo_.fetch_sub(done) - done;
  return remaining == 0;"""))
M("rp-work-alloc", P_, ("""  int worker = allocate_worker();
  if (worker >= 0) {
    return work(worker);
  } else {
    return false;
  }""", """  const int worker = allocate_worker();
  return worker >= 0 && work(worker);"""))
M("rp-ctor", P_, ("""    shard& s = shards_[i];
    s.i = begin;
    s.end = ((i + 1) * n) / shard_count_;
    begin = s.end;""", """    const std::size_t end = ((i + 1) * n) / shard_count_;
    shards_[i].i = begin;
    shards_[i].end = end;
    begin = end;"""))
M("rp-ctor2", P_, ("""  std::size_t begin = 0;
  // Divide""", """  // Divide"""), ("""    s.i = begin;
    s.end = ((i + 1) * n) / shard_count_;
    begin = s.end;""", """    s.i = (i * n) / shard_count_;
    s.end = ((i + 1) * n) / shard_count_;"""))
M("rp-started", P_, ("""  if (done()) return true;
  for (std::size_t i = 0; i < shard_count_; ++i) {
    const shard& s = shards_[i];
    if (s.i < s.end) return false;
  }
  return true;""", """  if (done()) return true;
  return std::all_of(shards_, shards_ + shard_count_, [](const shard& s) { return s.i >= s.end; });"""))
M("rp-dequeue-while", P_, ("""  for (auto i = task_queue_.begin(); i != task_queue_.end();) {
    ref_count<task_impl>& loop = *i;
    if (loop->all_work_started()) {
      // No more threads can start working on this loop.
      i = task_queue_.erase(i);
    } else if (std::find(task_stack.begin(), task_stack.end(), &*loop) != task_stack.end()) {
      // Don't run the same loop multiple times on the same thread.
      ++i;
    } else {""", """  auto i = task_queue_.begin();
  while (i != task_queue_.end()) {
    ref_count<task_impl>& loop = *i;
    if (loop->all_work_started()) {
      // No more threads can start working on this loop.
      i = task_queue_.erase(i);
      continue;
    }
    const bool running = std::find(task_stack.begin(), task_stack.end(), &*loop) != task_stack.end();
    if (running) {
      // Don't run the same loop multiple times on the same thread.
      ++i;
      continue;
    }
    {"""))
M("rp-dequeue-helper", P_, ("""}  // namespace

ref_count<thread_pool_impl::task_impl> thread_pool_impl::dequeue""", """bool is_running(const thread_pool::task* t) {
  return std::find(task_stack.begin(), task_stack.end(), t) != task_stack.end();
}

}  // namespace

ref_count<thread_pool_impl::task_impl> thread_pool_impl::dequeue"""),
  ("std::find(task_stack.begin(), task_stack.end(), &*loop) != task_stack.end()", "is_running(&*loop)"))
M("rp-dequeue-switch", P_, ("""      if (worker < 0) {
        // No more threads can start working on this loop.
        i = task_queue_.erase(i);
      } else if (worker == 0) {
        // This is the last worker for this loop.
        auto result = std::move(loop);
        i = task_queue_.erase(i);
        return result;
      } else {
        return loop;
      }""", """      if (worker > 0) return loop;
      ref_count<task_impl> last = std::move(loop);
      i = task_queue_.erase(i);
      if (worker == 0) return last;"""))
M("rp-wait-notify", P_, ("""      // Run the task.
      bool completed = work_on_task(task, worker);

      // We did a task, reset the spin counter.
      spins = spin_count;

      l.lock();

      if (completed) {
        // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.
        cv_helper_.notify_all();
      }
    } else if (spins-- > 0) {
      l.unlock();
      std::this_thread::yield();
      l.lock();
    } else {
      cv.wait(l);
    }""", """      const bool completed = work_on_task(task, worker);
      l.lock();

      if (completed) cv_helper_.notify_all();

      // We did a task, reset the spin counter.
      spins = spin_count;
      continue;
    }
    if (spins > 0) {
      --spins;
      l.unlock();
      std::this_thread::yield();
      l.lock();
    } else {
      cv.wait(l);
    }"""))
M("rp-wait-helper", P_, ("""void thread_pool_impl::wait_for(predicate_ref condition, std::condition_variable& cv) {""",
"""void thread_pool_impl::run_unlocked(std::unique_lock<std::mutex>& l, task_impl* task, int worker) {
  l.unlock();
  bool completed = work_on_task(task, worker);
  l.lock();
  if (completed) {
    // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.
    cv_helper_.notify_all();
  }
}

void thread_pool_impl::wait_for(predicate_ref condition, std::condition_variable& cv) {"""),
 (H_, "  ref_count<task_impl> dequeue(int& worker);", "  ref_count<task_impl> dequeue(int& worker);\n  void run_unlocked(std::unique_lock<std::mutex>& l, task_impl* task, int worker);"),
 ("""      l.unlock();

      // Run the task.
      bool completed = work_on_task(task, worker);

      // We did a task, reset the spin counter.
      spins = spin_count;

      l.lock();

      if (completed) {
        // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.
        cv_helper_.notify_all();
      }
    } else if""", """      run_unlocked(l, task, worker);
      // We did a task, reset the spin counter.
      spins = spin_count;
    } else if"""),
 ("""    l.unlock();

    // Run the task.
    bool completed = work_on_task(task, worker);

    l.lock();

    if (completed) {
      // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.
      cv_helper_.notify_all();
    }
  }
}""", """    run_unlocked(l, task, worker);
  }
}"""))
M("rp-enqueue-scope", P_, ("""  std::unique_lock l(mutex_);
  task_queue_.push_back(loop);
  if (max_workers == 1) {
    cv_worker_.notify_one();
    cv_helper_.notify_one();
  } else {
    cv_worker_.notify_all();
    cv_helper_.notify_all();
  }
  return loop;""", """  std::lock_guard<std::mutex> lock(mutex_);
  task_queue_.push_back(loop);
  if (max_workers != 1) {
    cv_worker_.notify_all();
    cv_helper_.notify_all();
    return loop;
  }
  cv_worker_.notify_one();
  cv_helper_.notify_one();
  return loop;"""))
M("rp-enqueue-unlocked-notify", P_, ("""  std::unique_lock l(mutex_);
  task_queue_.push_back(loop);
  if (max""", """  {
    std::unique_lock l(mutex_);
    task_queue_.push_back(loop);
  }
  if (max"""))
M("rp-atomic", P_, ("""  std::unique_lock l(mutex_);
  t();
  cv_worker_.notify_all();
  cv_helper_.notify_all();
}""", """  {
    std::lock_guard<std::mutex> lock(mutex_);
    t();
  }
  cv_helper_.notify_all();
  cv_worker_.notify_all();
}"""))
M("rp-dtor", P_, ("""  atomic_call([this]() { stop_ = true; });
  cv_worker_.notify_all();
  for (std::thread& i : threads_) {
    i.join();
  }""", """  atomic_call([this]() { stop_ = true; });
  for (std::size_t i = 0; i < threads_.size(); ++i) {
    threads_[i].join();
  }"""))
M("rp-ctor-emplace", P_, ("""  for (int i = 0; i < workers; ++i) {
    threads_.push_back(std::thread(worker));
  }""", """  threads_.reserve(workers);
  while (static_cast<int>(threads_.size()) < workers) {
    threads_.emplace_back(worker);
  }"""))
M("rp-waittask", P_, ("""  bool completed = work_on_task(task);
  if (completed) {
    // We completed the loop, notify the helper CV in case another thread is waiting for this loop to complete.
    std::unique_lock l(mutex_);
    cv_helper_.notify_all();
  }
  if (!completed || !task->done()) {
    // We want""", """  if (work_on_task(task)) {
    // We completed the loop, notify the helper CV in case another thread is waiting for this loop to complete.
    {
      std::unique_lock l(mutex_);
    }
    cv_helper_.notify_all();
    if (task->done()) return;
  }
  {
    // We want"""))
M("rp-waittask2", P_, ("""  if (!completed || !task->done()) {
    // We want to spin a few times before letting the OS take over. This spinning is especially useful because we don't
    // need to lock the mutex.
    const int spin_count = 1000;
    for (int i = 0; i < spin_count; ++i) {
      std::this_thread::yield();
      if (task->done()) return;
    }
""", """  if (completed && task->done()) return;
  {
    int spins = 1000;
    while (spins-- > 0) {
      if (task->done()) return;
      std::this_thread::yield();
    }
"""))
M("rp-stack", P_, ("""  task_stack.push_back(&*t);
  bool completed = t->work(args...);
  task_stack.pop_back();
  return completed;""", """  struct guard {
    guard(const thread_pool::task* t) { task_stack.push_back(t); }
    ~guard() { task_stack.pop_back(); }
  };
  guard g(&*t);
  return t->work(args...);"""))
M("rp-idle", P_, ("""  std::unique_lock l(mutex_);
  int worker;
  while (auto task = dequeue(worker)) {
    l.unlock();
""", """  std::unique_lock l(mutex_);
  while (true) {
    int worker = -1;
    ref_count<task_impl> task = dequeue(worker);
    if (!task) break;
    l.unlock();
"""))
M("rp-runworker", P_, ("""  auto worker = [this, init]() {
    if (init) init();
    run_worker([this]() -> bool { return stop_; });
  };""", """  auto stopped = [this]() -> bool { return stop_.load(); };
  auto worker = [this, init, stopped]() {
    if (init) init();
    run_worker(stopped);
  };"""))
M("rp-shards", P_, ("""  max_workers = std::min<std::size_t>(n, max_workers);
  const std::size_t shard_count = ordered ? 1 : std::min(max_shards, max_workers);
""", """  if (static_cast<std::size_t>(max_workers) > n) max_workers = static_cast<int>(n);
  std::size_t shard_count = 1;
  if (!ordered) {
    shard_count = std::min(max_shards, max_workers);
  }
"""))
