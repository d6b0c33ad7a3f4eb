E_ = "runtime/evaluate.cc"
S("c05-async-fail-nowait", "C05", [(E_, "    if (pool) {\n      pool->wait_for(&*task);\n    }\n\n    return task_result", "    // There is nothing to wait for if the body already failed.\n    if (pool && !result) {\n      pool->wait_for(&*task);\n    }\n\n    return task_result")],
  "an async whose body fails while the task is still running on a worker", "the async returns (and its stack frame, context and buffers go away) before the task it enqueued has finished",
  r'''
int main() {
  watchdog(60);
  node_context ctx;
  var x(ctx, "x");
  static std::atomic<bool> done{false}, started{false};
  stmt task = body_of([](const eval_context&) { started = true; sleep_ms(700); done = true; return 0; });
  stmt body = body_of([](const eval_context&) { while (!started) std::this_thread::yield(); return 7; });
  thread_pool_impl tp(2);
  eval_config cfg; cfg.thread_pool = &tp; cfg.call_failed = [](const call_stmt*) {};
  eval_context ec; ec.config = &cfg;
  index_t r = evaluate(async::make(x, task, body), ec);
  bool was_done = done;
  sleep_ms(1500);  // let it finish, so nothing touches a dead frame later
  CHECK(was_done);
  CHECK(r == 7);
  std::_Exit(0);
}
''')
S("c08-crop-fail", "C08", [(E_, "    index_t result = eval(op->body);\n\n    buffer->base = old_base;\n    for (std::size_t d = 0", "    index_t result = eval(op->body);\n    if (result) return result;\n\n    buffer->base = old_base;\n    for (std::size_t d = 0")],
  "an in-place crop_buffer whose body fails", "the buffer is still cropped after the crop_buffer that cropped it has ended with a failure",
  r'''
int main() {
  node_context ctx;
  var b(ctx, "b");
  buffer<int, 3> buf(3);
  buf.mutable_dim(0).set_min_extent(0, 4); buf.mutable_dim(1).set_min_extent(0, 4); buf.mutable_dim(2).set_min_extent(0, 4);
  buf.allocate();
  void* base = buf.base();
  for (index_t r : {0, 3}) {
    index_t mn = -1, mx = -1;
    stmt inner = body_of([&](const eval_context& c) { mn = c.lookup_buffer(b)->dim(2).min(); mx = c.lookup_buffer(b)->dim(2).max(); return r; });
    stmt s = crop_buffer::make(b, b, {{expr(1), expr(2)}, interval_expr(), {expr(1), expr(2)}}, inner);
    eval_config cfg; cfg.call_failed = [](const call_stmt*) {};
    eval_context ec; ec.config = &cfg; ec[b] = (index_t)&buf;
    CHECK(evaluate(s, ec) == r);
    CHECK(mn == 1 && mx == 2);
    for (int d = 0; d < 3; ++d) CHECK(buf.dim(d).min() == 0 && buf.dim(d).max() == 3);
    CHECK(buf.base() == base);
  }
  return 0;
}
''')
S("c08-loop-fail", "C08", [(E_, "    for (index_t i = bounds.min; result == 0 && bounds.min <= i && i <= bounds.max; i += step) {\n      context.set(op->sym, i);\n      result = eval(op->body);\n    }\n", "    for (index_t i = bounds.min; bounds.min <= i && i <= bounds.max; i += step) {\n      context.set(op->sym, i);\n      result = eval(op->body);\n      if (result) return result;\n    }\n")],
  "a serial loop that shadows a symbol and whose body fails", "the value of a symbol that the loop variable shadows is lost when an iteration fails",
  r'''
int main() {
  node_context ctx;
  var x(ctx, "x");
  stmt fail = body_of([=](const eval_context& c) { return c.lookup(x) == 2 ? 9 : 0; });
  stmt s = loop::make(x, expr(loop::serial), {expr(0), expr(5)}, expr(1), fail);
  eval_config cfg; cfg.call_failed = [](const call_stmt*) {};
  eval_context ec; ec.config = &cfg; ec[x] = 42;
  CHECK(evaluate(s, ec) == 9);
  CHECK(ec.lookup(x) == 42);
  return 0;
}
''')
S("c09-early-free-twice", "C09", [(E_, "    buf->allocation = nullptr;\n    return 1;", "    buf->base = nullptr;\n    return 1;")],
  "a pipeline in which a buffer is freed early (the free intrinsic), with an allocator that counts", "an allocation that was freed early is freed again at the end of its allocate",
  r'''
int main() {
  node_context ctx;
  var b(ctx, "b");
  int frees = 0, total = 0;
  eval_config cfg;
  std::vector<void*> ps;
  cfg.allocate = [&](var, raw_buffer* x) { ++total; void* p = x->allocate(); ps.push_back(p); return p; };
  cfg.free = [&](var, raw_buffer*, void* p) { ++frees; };
  eval_context ec; ec.config = &cfg;
  stmt fr = check::make(call::make(intrinsic::free, {expr(b)}));
  stmt s = allocate::make(b, memory_type::heap, expr(4), {{interval_expr{expr(0), expr(9)}, expr(4), expr()}}, block::make({body_of([](const eval_context&) { return 0; }), fr}));
  CHECK(evaluate(s, ec) == 0);
  CHECK(total == 1 && frees == 1);
  return 0;
}
''')
S("c10-block-negative", "C10", [(E_, "      index_t result = eval(s);\n      if (result) return result;\n    }\n    return 0;", "      index_t result = eval(s);\n      if (result > 0) return result;\n    }\n    return 0;")],
  "a statement of a block that fails with a negative code and is not the last one", "a failure with a negative code is ignored and the rest of the block runs",
  r'''
int main() {
  int after = 0;
  stmt s = block::make({body_of([](const eval_context&) { return -3; }), body_of([&](const eval_context&) { ++after; return 0; })});
  eval_config cfg; cfg.call_failed = [](const call_stmt*) {};
  eval_context ec; ec.config = &cfg;
  CHECK(evaluate(s, ec) == -3);
  CHECK(after == 0);
  return 0;
}
''')
S("c10-parallel-last-wins", "C10", [(E_, "        if (result_i != 0) {\n          index_t zero = 0;\n          state.result.compare_exchange_strong(zero, result_i);\n        }\n", "        index_t expected = state.result;\n        while (!state.result.compare_exchange_weak(expected, result_i)) {\n        }\n")],
  "a parallel loop in which a failing iteration finishes before a succeeding one", "the failure of one iteration is overwritten by the success of a later one, and the loop reports success",
  r'''
int main() {
  watchdog(60);
  node_context ctx;
  var x(ctx, "x");
  static std::atomic<int> failed{0};
  static std::atomic<bool> claimed{false};
  stmt body = body_of([=](const eval_context&) -> index_t { if (!claimed.exchange(true)) { failed = 1; return 4; } while (!failed) std::this_thread::yield(); sleep_ms(50); return 0; });
  stmt s = loop::make(x, expr(loop::parallel), {expr(0), expr(7)}, expr(1), body);
  thread_pool_impl tp(3);
  eval_config cfg; cfg.thread_pool = &tp; cfg.call_failed = [](const call_stmt*) {};
  eval_context ec; ec.config = &cfg; ec[x] = 0;
  CHECK(evaluate(s, ec) != 0);
  std::_Exit(0);
}
''')
S("c10-async-task-result", "C10", [(E_, "    return task_result != 0 ? task_result : result;", "    return result ? result : pool ? 0 : task_result;")],
  "an async with a thread pool whose task fails and whose body succeeds", "the failure of an asynchronous task is dropped",
  r'''
int main() {
  watchdog(60);
  node_context ctx;
  var x(ctx, "x");
  stmt ok = body_of([](const eval_context&) { return 0; }), bad = body_of([](const eval_context&) { return 6; });
  thread_pool_impl tp(1);
  eval_config cfg; cfg.thread_pool = &tp; cfg.call_failed = [](const call_stmt*) {};
  eval_context ec; ec.config = &cfg;
  CHECK(evaluate(async::make(x, bad, ok), ec) == 6);
  CHECK(evaluate(async::make(x, ok, bad), ec) == 6);
  CHECK(evaluate(async::make(x, ok, ok), ec) == 0);
  std::_Exit(0);
}
''')
S("c20-crop-rank", "C20", [(E_, "    for (std::size_t d = 0; d < std::min(op->bounds.size(), src_buf->rank); ++d) {", "    for (std::size_t d = 0; d < op->bounds.size(); ++d) {")],
    "a crop_buffer into a new symbol with bounds for more dimensions than the source buffer has", "dimensions past the rank of the buffer are read and written",
    r"""
int main() {
  node_context ctx;
  var b(ctx, "b"), c(ctx, "c");
  int data[16] = {0};
  dim dims[1];
  dims[0].set_min_extent(0, 4); dims[0].set_stride(4);
  raw_buffer buf; buf.base = data; buf.elem_size = 4; buf.rank = 1; buf.dims = dims;
  void* base = nullptr;
  stmt s = crop_buffer::make(c, b, {{expr(1), expr(2)}, {expr(101), expr()}, {expr(101), expr(102)}, {expr(), expr(102)}}, body_of([&](const eval_context& e) { base = e.lookup_buffer(c)->base; return 0; }));
  eval_config cfg; eval_context ec; ec.config = &cfg; ec[b] = (index_t)&buf;
  CHECK(evaluate(s, ec) == 0);
  CHECK(base == data + 1);
  return 0;
}
""", kind="src", flags="-fsanitize=address")
