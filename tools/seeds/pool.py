P_ = "base/thread_pool_impl.cc"
S("c01-enqueue-unlocked", "C01", [(P_, "  std::unique_lock l(mutex_);\n  task_queue_.push_back(loop);\n  if (max_workers == 1) {\n    cv_worker_.notify_one();\n    cv_helper_.notify_one();\n  } else {", "  if (ordered) {\n    // One worker at a time runs this, the lock is only needed to wake it up.\n    task_queue_.push_back(loop);\n    std::unique_lock l(mutex_);\n    cv_worker_.notify_all();\n    cv_helper_.notify_all();\n    return loop;\n  }\n  std::unique_lock l(mutex_);\n  task_queue_.push_back(loop);\n  if (max_workers == 1) {\n    cv_worker_.notify_one();\n    cv_helper_.notify_one();\n  } else {")],
  "a task with a limited number of workers enqueued while another thread uses the queue", "the task queue is modified without the lock that protects it",
  r'''
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
#include "slinky/base/thread_pool_impl.h"
using namespace slinky;
int main() {
  thread_pool_impl tp(3);
  std::vector<std::thread> ts;
  for (int t = 0; t < 3; ++t) ts.emplace_back([&] {
    for (int k = 0; k < 200; ++k) { auto task = tp.enqueue(4, [](std::size_t) {}, 2); tp.wait_for(&*task); }
  });
  for (auto& t : ts) t.join();
  return 0;
}
''', kind="base", flags="-fsanitize=thread", pre="")
S("c02-notify-worker-only", "C02", [(P_, "  t();\n  cv_worker_.notify_all();\n  cv_helper_.notify_all();", "  t();\n  // Wake the waiters first, the workers are only needed if there is work to do.\n  cv_helper_.notify_all();\n  if (!task_queue_.empty()) cv_worker_.notify_all();")],
  "destruction (or any other condition of a worker) of a pool whose workers are asleep and whose queue is empty", "a worker waiting for a condition that an atomic call makes true is never woken up",
  r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include "slinky/base/thread_pool_impl.h"
using namespace slinky;
int main() {
  std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(20)); std::puts("HANG"); std::fflush(stdout); std::_Exit(3); }).detach();
  thread_pool_impl tp(0);
  bool go = false;
  std::thread w([&] { tp.run_worker([&] { return go; }); });
  std::this_thread::sleep_for(std::chrono::seconds(1));  // it is asleep now
  tp.atomic_call([&] { go = true; });
  w.join();
  std::_Exit(0);
}
''', kind="base", pre="")
S("c02-completed-notify-one", "C02", [(P_, "      l.lock();\n\n      if (completed) {\n        // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.\n        cv_helper_.notify_all();\n      }\n    } else if", "      l.lock();\n\n      if (completed) {\n        // We completed the loop, notify the helper CV in case it is waiting for this loop to complete.\n        cv_helper_.notify_one();\n      }\n    } else if")],
  "two threads that sleep in wait_for, for different things, when a task completes", "the thread that waits for the completed task is not woken up, because another waiter took the notification",
  r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include "slinky/base/thread_pool_impl.h"
using namespace slinky;
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
int main() {
  std::thread([] { ms(20000); std::puts("HANG"); std::fflush(stdout); std::_Exit(3); }).detach();
  thread_pool_impl tp(1);
  std::atomic<int> started{0}, finish{0};
  auto task = tp.enqueue(1, [&](std::size_t) { started = 1; while (!finish) ms(10); });
  while (!started) ms(1);  // the worker runs it
  static bool never = false;
  // These wait for something else, and were there first.
  for (int i = 0; i < 3; ++i) { std::thread([&] { tp.wait_for([] { return never; }); }).detach(); }
  ms(500);
  std::thread b([&] { tp.wait_for(&*task); });
  ms(500);
  finish = 1;
  b.join();
  std::_Exit(0);
}
''', kind="base", pre="")
