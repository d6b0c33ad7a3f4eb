E_ = "runtime/evaluate.cc"
# C08
M("e08-let-forward", E_, ("    for (size_t i = size; i-- > 0;) {\n      context.set(op->lets[i].first, old_values[i]);", "    for (size_t i = 0; i < size; ++i) {\n      context.set(op->lets[i].first, old_values[i]);"), expect=["C08"])
M("e08-letstmt-early", E_, ("    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      const auto",
  "    index_t result = eval(op->body);\n    if (result) return result;\n    for (size_t i = size; i-- > 0;) {\n      const auto"), expect=["C08"])
M("e08-loop-early", E_, ("      result = eval(op->body);\n    }\n    context.set(op->sym, old_value);\n    return result;", "      result = eval(op->body);\n      if (result) return result;\n    }\n    context.set(op->sym, old_value);\n    return result;"), expect=["C08"])
M("e08-withvalue", E_, ("    // context might have grown and invalidated the ctx_value reference.\n    context.set(sym, old_value);", "    if (!result) context.set(sym, old_value);"), expect=["C08"])
M("e08-crop-base", E_, ("    index_t result = eval(op->body);\n\n    buffer->base = old_base;\n    dim.set_bounds", "    index_t result = eval(op->body);\n\n    if (bounds.min > old_min) buffer->base = old_base;\n    dim.set_bounds"), expect=["C08"])
M("e08-cropbuf-rank", E_, ("    buffer->base = old_base;\n    for (std::size_t d = 0; d < crop_rank; ++d) {\n      buffer->dims[d].set_bounds(old_bounds[d].min, old_bounds[d].max);", "    buffer->base = old_base;\n    for (std::size_t d = 0; d + 1 < crop_rank; ++d) {\n      buffer->dims[d].set_bounds(old_bounds[d].min, old_bounds[d].max);"), expect=["C08"])
M("e08-cropbuf-max", E_, ("      old_bounds[d] = {dim.min(), dim.max()};", "      old_bounds[d] = {dim.min(), dim.min()};"), expect=["C08"])
M("e08-cropbuf-saveafter", E_, ("      old_bounds[d] = {dim.min(), dim.max()};\n      buffer->crop(d, bounds.min, bounds.max);", "      buffer->crop(d, bounds.min, bounds.max);\n      old_bounds[d] = {dim.min(), dim.max()};"), expect=["C08"])
M("e08-cropbuf-nosave", E_, ("      old_bounds[d] = {dim.min(), dim.max()};\n", ""), expect=["C08"])
M("e08-trunc", E_, ("      src_buf->rank = old_rank;\n      return result;", "      if (result == 0) src_buf->rank = old_rank;\n      return result;"), expect=["C08"])
M("e08-cropdim-fast", E_, ("    index_t result = eval(op->body);\n\n    buffer->base = old_base;\n    dim.set_bounds(old_min, old_max);\n\n    return result;", "    index_t result = eval(op->body);\n\n    if (!result) {\n      buffer->base = old_base;\n      dim.set_bounds(old_min, old_max);\n    }\n    return result;"), expect=["C08"])
M("e08-async-old", E_, ("    if (op->sym.defined()) context.set(op->sym, old_sym);\n", "    if (op->sym.defined()) context.set(op->sym, 0);\n"), expect=["C08"])
M("e08-shadow", E_, ("return op->sym == op->src ? eval_shadowed(op) : eval_unshadowed(op);", "return eval_shadowed(op);"), expect=[])
M("e08-transpose-inplace", E_, ("    if (op->sym == op->src && op->is_truncate()) {\n      raw_buffer* src_buf = reinterpret_cast<raw_buffer*>(context.lookup(op->src));", "    if (op->is_truncate() && op->sym != op->src) {\n      raw_buffer* b = reinterpret_cast<raw_buffer*>(context.lookup(op->src));\n      b->rank = op->dims.size();\n    }\n    if (op->sym == op->src && op->is_truncate()) {\n      raw_buffer* src_buf = reinterpret_cast<raw_buffer*>(context.lookup(op->src));"), expect=["C08"])
M("e08-crop-unshadow-alias", E_, ("    sym_buf.dims = SLINKY_ALLOCA(dim, src_buf->rank);\n    internal::copy_small_n(src_buf->dims, src_buf->rank, sym_buf.dims);\n    // dim() returns", "    // dim() returns"), expect=["C08"])
# C09
M("e09-no-free-fail", E_, ("    index_t result = eval_with_value(op->body, op->sym, reinterpret_cast<index_t>(&buffer));\n\n    if (buffer.allocation) {", "    index_t result = eval_with_value(op->body, op->sym, reinterpret_cast<index_t>(&buffer));\n\n    if (!result && buffer.allocation) {"), expect=["C09"])
M("e09-leak-base", E_, ("      if (buffer.allocation) {\n        context.config->free(op->sym, &buffer, buffer.allocation);\n      }\n      return -1;", "      return -1;"), expect=["C09"])
M("e09-free-nonull", E_, ("    buf->allocation = nullptr;\n    return 1;", "    return 1;"), expect=["C09"])
M("e09-saved-alloc", E_, ("    index_t result = eval_with_value(op->body, op->sym, reinterpret_cast<index_t>(&buffer));\n\n    if (buffer.allocation) {\n      context.config->free(op->sym, &buffer, buffer.allocation);", "    void* allocation = buffer.allocation;\n    index_t result = eval_with_value(op->body, op->sym, reinterpret_cast<index_t>(&buffer));\n\n    if (allocation) {\n      context.config->free(op->sym, &buffer, allocation);"), expect=["C09"])
M("e09-stack-free", E_, ("    if (buffer.allocation) {\n      context.config->free(op->sym, &buffer, buffer.allocation);\n    }\n\n    return result;", "    context.config->free(op->sym, &buffer, buffer.allocation);\n\n    return result;"), expect=["C09"])
M("e09-storage-cond", E_, ("    if (buffer.allocation) {\n      context.config->free(op->sym, &buffer, buffer.allocation);\n    }\n\n    return result;", "    if (op->storage == memory_type::heap && buffer.allocation) {\n      context.config->free(op->sym, &buffer, buffer.allocation);\n    }\n\n    return result;"), expect=["C09"])
M("e09-null-before", E_, ("    context.config->free(sym, buf, buf->allocation);\n    buf->allocation = nullptr;", "    buf->allocation = nullptr;\n    context.config->free(sym, buf, buf->allocation);"), expect=["C09"])
M("e09-early-return-mid", E_, ("    if (!buffer.base && buffer.elem_count() > 0) {", "    if (!buffer.base) return -1;\n    if (!buffer.base && buffer.elem_count() > 0) {"), expect=["C09"])
# C10
M("e10-block-and", E_, ("      index_t result = eval(s);\n      if (result) return result;\n    }\n    return 0;", "      index_t result = eval(s);\n      if (result < 0) return result;\n    }\n    return 0;"), expect=["C10"])
M("e10-block-last", E_, ("    for (const auto& s : op->stmts) {\n      index_t result = eval(s);\n      if (result) return result;\n    }\n    return 0;", "    index_t result = 0;\n    for (const auto& s : op->stmts) {\n      result = eval(s);\n    }\n    return result;"), expect=["C10"])
M("e10-loop-cont", E_, ("result == 0 && bounds.min <= i", "bounds.min <= i"), expect=["C10"])
M("e10-parallel-last", E_, ("          index_t zero = 0;\n          state.result.compare_exchange_strong(zero, result_i);", "          state.result = result_i;"), expect=[])
M("e10-parallel-over", E_, ("        if (result_i != 0) {\n          index_t zero = 0;\n          state.result.compare_exchange_strong(zero, result_i);\n        }", "        state.result = result_i;"), expect=["C10"])
M("e10-parallel-ret0", E_, ("      return state.result;", "      return 0;"), expect=["C10"])
M("e10-async-body", E_, ("    return task_result != 0 ? task_result : result;", "    return result;"), expect=["C10"])
M("e10-async-task", E_, ("    return task_result != 0 ? task_result : result;", "    return task_result;"), expect=["C10"])
M("e10-call-handler", E_, ("    if (result) {\n      call_failed(result, op);\n    }\n    return result;", "    if (result < 0) {\n      call_failed(result, op);\n    }\n    return result;"), expect=["C10"])
M("e10-call-swallow", E_, ("    if (result) {\n      call_failed(result, op);\n    }\n    return result;", "    if (result) {\n      call_failed(result, op);\n      return context.config->call_failed ? 0 : result;\n    }\n    return result;"), expect=["C10"])
M("e10-check-zero", E_, ("      dump_context_for_expr(std::cerr, context, op->condition);\n      std::abort();\n    }\n    return 1;", "      dump_context_for_expr(std::cerr, context, op->condition);\n      std::abort();\n    }\n    return 0;"), expect=["C10"])
M("e10-check-swallow", E_, ("      return check_failed(op);\n", "      check_failed(op);\n      return 0;\n"), expect=["C10"])
M("e10-let-zero", E_, ("      context.set(let.first, old_values[i]);\n    }\n    return result;", "      context.set(let.first, old_values[i]);\n    }\n    return 0;"), expect=["C10"])
M("e10-alloc-swallow", E_, ("    if (buffer.allocation) {\n      context.config->free(op->sym, &buffer, buffer.allocation);\n    }\n\n    return result;", "    if (buffer.allocation) {\n      context.config->free(op->sym, &buffer, buffer.allocation);\n      return 0;\n    }\n\n    return result;"), expect=["C10"])
M("e10-trunc-swallow", E_, ("      index_t result = eval(op->body);\n      src_buf->rank = old_rank;\n      return result;", "      eval(op->body);\n      src_buf->rank = old_rank;\n      return 0;"), expect=["C10"])
M("e10-pipeline", "runtime/pipeline.cc", ("  setup(args, inputs, outputs, ctx);\n  return slinky::evaluate(body, ctx);", "  setup(args, inputs, outputs, ctx);\n  slinky::evaluate(body, ctx);\n  return 0;"), expect=["C10"])
# C05
M("e05-nowait", E_, ("    if (pool) {\n      pool->wait_for(&*task);\n    }", "    if (pool && !result) {\n      pool->wait_for(&*task);\n    }"), expect=["C05"])
M("e05-nowait-sym", E_, ("    if (pool) {\n      pool->wait_for(&*task);\n    }", "    if (pool && !op->sym.defined()) {\n      pool->wait_for(&*task);\n    }"), expect=["C05"])
M("e05-refcontext", E_, ("      auto task = [&state, context = eval_context()](index_t i) mutable {\n        if (context.size() == 0) {", "      eval_context shared_context;\n      auto task = [&state, &context = shared_context](index_t i) mutable {\n        if (context.size() == 0) {"), expect=["C05"])
M("e05-parent-in-task", E_, ("    init_context(task_context, context, closure);\n    auto task_body = [&]() { task_result = evaluate(task_stmt, task_context); };", "    auto task_body = [&]() {\n      init_context(task_context, context, closure);\n      task_result = evaluate(task_stmt, task_context);\n    };"), expect=["C05"])
M("e05-nonatomic", E_, ("        std::atomic<index_t> result{0};", "        index_t result{0};"), ("          index_t zero = 0;\n          state.result.compare_exchange_strong(zero, result_i);", "          state.result = result_i;"), expect=["C05"])
M("e05-pool-ref", "base/thread_pool_impl.cc", ("  task_body body = body_;\n", "  task_body& body = body_;\n"), expect=["C05"])
M("e05-result-before-wait", E_, ("    if (pool) {\n      pool->wait_for(&*task);\n    }\n\n    return task_result != 0 ? task_result : result;", "    if (task_result) result = task_result;\n    if (pool) {\n      pool->wait_for(&*task);\n    }\n\n    return result;"), expect=["C05"])
M("e05-task-own-ctx", E_, ("    auto task_body = [&]() { task_result = evaluate(task_stmt, task_context); };", "    auto task_body = [&]() { task_result = evaluate(task_stmt, context); };"), expect=["C05"])
# C20
M("e20-noreserve", E_, ("    context.reserve(sym.id + 1);\n    index_t old_value = context.set(sym, value);", "    index_t old_value = context.set(sym, value);"), expect=["C20"])
M("e20-reserve-off", E_, ("    context.reserve(context_size + 1);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      const", "    context.reserve(context_size);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    for (size_t i = size; i-- > 0;) {\n      const"), expect=["C20"])
M("e20-ref", E_, ("    context.reserve(op->sym.id + 1);\n    index_t old_value = context.set(op->sym, 0);", "    index_t& slot = context[op->sym];\n    index_t old_value = slot;\n    slot = 0;"), ("      context.set(op->sym, i);\n      result = eval(op->body);\n    }\n    context.set(op->sym, old_value);", "      slot = i;\n      result = eval(op->body);\n    }\n    slot = old_value;"), expect=["C20"])
M("e20-reserve-first", E_, ("      context_size = std::max(context_size, let.first.id);\n    }\n    context.reserve(context_size + 1);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      const", "      context_size = let.first.id;\n    }\n    context.reserve(context_size + 1);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    for (size_t i = size; i-- > 0;) {\n      const"), expect=["C20"])
M("e20-loop-noreserve", E_, ("    context.reserve(op->sym.id + 1);\n    index_t old_value = context.set(op->sym, 0);", "    index_t old_value = context.set(op->sym, 0);"), expect=["C20"])
M("e20-croprank", E_, ("    std::size_t crop_rank = std::min(op->bounds.size(), buffer->rank);", "    std::size_t crop_rank = op->bounds.size();"), expect=["C20"])
M("e20-cropdim-gt", E_, ("    if (op->dim >= static_cast<int>(buffer->rank)) {", "    if (op->dim > static_cast<int>(buffer->rank)) {"), expect=["C20"])
M("e20-slicedim-noguard", E_, ("    if (op->dim >= static_cast<int>(src_buf->rank)) {", "    if (op->dim >= static_cast<int>(src_buf->rank) && !src_buf->base) {"), expect=["C20"])
M("e20-slice-at", E_, ("      if (d < op->at.size() && op->at[d].defined()) {", "      if (op->at[d].defined()) {"), expect=["C20"])
M("e20-transpose-direct", E_, ("        dims[i] = src_buf->dim(op->dims[i]);", "        dims[i] = src_buf->dims[op->dims[i]];"), expect=["C20"])
M("e20-clone-size", E_, ("    raw_buffer clone = *src_buf;\n    clone.dims = SLINKY_ALLOCA(dim, src_buf->rank);", "    raw_buffer clone = *src_buf;\n    clone.dims = SLINKY_ALLOCA(dim, src_buf->rank - 1);"), expect=["C20"])
M("e20-bufferat", E_, ("d < std::min(buf->rank, op->args.size() - 1)", "d < op->args.size() - 1"), expect=["C20"])
M("e20-shift", E_, ("d < static_cast<int>(sym_buf.rank); ++d) {\n      sym_buf.dims[d] = src_buf->dims[d + 1];", "d < static_cast<int>(src_buf->rank); ++d) {\n      sym_buf.dims[d] = src_buf->dims[d + 1];"), expect=["C20"])
M("e20-oldbounds", E_, ("    interval* old_bounds = SLINKY_ALLOCA(interval, crop_rank);", "    interval* old_bounds = SLINKY_ALLOCA(interval, op->bounds.size() - 1);"), expect=["C20"])
M("e20-slicebuf-dims", E_, ("    for (std::size_t d = 0; d < src_buf->rank; ++d) {\n      if (d < op->at.size()", "    for (std::size_t d = 0; d <= src_buf->rank; ++d) {\n      if (d < op->at.size()"), expect=["C20"])
# Refactorings
M("eR-helper-restore", E_, ("  SLINKY_NO_STACK_PROTECTOR index_t eval(const let* op) {", "  template <typename L>\n  void restore_all(const L& lets, const index_t* old_values) {\n    for (size_t i = lets.size(); i-- > 0;) {\n      context.set(lets[i].first, old_values[i]);\n    }\n  }\n\n  SLINKY_NO_STACK_PROTECTOR index_t eval(const let* op) {"),
  ("    for (size_t i = size; i-- > 0;) {\n      context.set(op->lets[i].first, old_values[i]);\n    }\n", "    restore_all(op->lets, old_values);\n"),
  ("    for (size_t i = size; i-- > 0;) {\n      const auto& let = op->lets[i];\n      context.set(let.first, old_values[i]);\n    }", "    restore_all(op->lets, old_values);"))
M("eR-while-restore", E_, ("    for (size_t i = size; i-- > 0;) {\n      context.set(op->lets[i].first, old_values[i]);\n    }\n", "    size_t i = size;\n    while (i > 0) {\n      --i;\n      context.set(op->lets[i].first, old_values[i]);\n    }\n"))
M("eR-for-minus", E_, ("    for (size_t i = size; i-- > 0;) {\n      context.set(op->lets[i].first, old_values[i]);\n    }\n", "    for (size_t i = size; i > 0; --i) {\n      context.set(op->lets[i - 1].first, old_values[i - 1]);\n    }\n"))
M("eR-for-int", E_, ("    for (size_t i = size; i-- > 0;) {\n      context.set(op->lets[i].first, old_values[i]);\n    }\n", "    for (int i = static_cast<int>(size) - 1; i >= 0; --i) {\n      context.set(op->lets[i].first, old_values[i]);\n    }\n"))
M("eR-loop-while", E_, ("    for (index_t i = bounds.min; result == 0 && bounds.min <= i && i <= bounds.max; i += step) {\n      context.set(op->sym, i);\n      result = eval(op->body);\n    }", "    index_t i = bounds.min;\n    while (bounds.min <= i && i <= bounds.max) {\n      context.set(op->sym, i);\n      result = eval(op->body);\n      if (result != 0) break;\n      i += step;\n    }"))
M("eR-block-index", E_, ("    for (const auto& s : op->stmts) {\n      index_t result = eval(s);\n      if (result) return result;\n    }\n    return 0;", "    index_t result = 0;\n    for (std::size_t i = 0; i < op->stmts.size() && result == 0; ++i) {\n      result = eval(op->stmts[i]);\n    }\n    return result;"))
M("eR-block-break", E_, ("    for (const auto& s : op->stmts) {\n      index_t result = eval(s);\n      if (result) return result;\n    }\n    return 0;", "    index_t result = 0;\n    for (const auto& s : op->stmts) {\n      if ((result = eval(s)) != 0) break;\n    }\n    return result;"))
M("eR-crop-helper", E_, ("  // For these evaluators, it's easier", "  static void restore_crop(raw_buffer* buffer, void* old_base, std::size_t d, index_t old_min, index_t old_max) {\n    buffer->base = old_base;\n    buffer->dims[d].set_bounds(old_min, old_max);\n  }\n\n  // For these evaluators, it's easier"),
  ("    buffer->base = old_base;\n    dim.set_bounds(old_min, old_max);\n", "    restore_crop(buffer, old_base, op->dim, old_min, old_max);\n"))
M("eR-crop-order", E_, ("    buffer->base = old_base;\n    for (std::size_t d = 0; d < crop_rank; ++d) {\n      buffer->dims[d].set_bounds(old_bounds[d].min, old_bounds[d].max);\n    }", "    for (std::size_t d = 0; d < crop_rank; ++d) {\n      const interval& b = old_bounds[d];\n      buffer->dims[d].set_bounds(b.min, b.max);\n    }\n    buffer->base = old_base;"))
M("eR-crop-down", E_, ("    for (std::size_t d = 0; d < crop_rank; ++d) {\n      buffer->dims[d].set_bounds(old_bounds[d].min, old_bounds[d].max);\n    }", "    for (std::size_t d = crop_rank; d-- > 0;) {\n      buffer->dims[d].set_bounds(old_bounds[d].min, old_bounds[d].max);\n    }"))
M("eR-crop-rankcond", E_, ("    std::size_t crop_rank = std::min(op->bounds.size(), buffer->rank);", "    std::size_t crop_rank = op->bounds.size();\n    if (crop_rank > buffer->rank) crop_rank = buffer->rank;"))
M("eR-crop-rankternary", E_, ("    std::size_t crop_rank = std::min(op->bounds.size(), buffer->rank);", "    std::size_t crop_rank = op->bounds.size() < buffer->rank ? op->bounds.size() : buffer->rank;"))
M("eR-max-if", E_, ("    for (const auto& let : op->lets) {\n      context_size = std::max(context_size, let.first.id);\n    }\n    context.reserve(context_size + 1);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      const", "    for (const auto& let : op->lets) {\n      if (let.first.id > context_size) context_size = let.first.id;\n    }\n    context.reserve(context_size + 1);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    for (size_t i = size; i-- > 0;) {\n      const"))
M("eR-max-idx", E_, ("    std::size_t context_size = 0;\n    for (const auto& let : op->lets) {\n      context_size = std::max(context_size, let.first.id);\n    }\n    context.reserve(context_size + 1);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      const", "    std::size_t context_size = 0;\n    for (size_t i = 0; i < size; ++i) {\n      context_size = std::max(context_size, op->lets[i].first.id + 1);\n    }\n    context.reserve(context_size);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    for (size_t i = size; i-- > 0;) {\n      const"))
M("eR-reserve-each", E_, ("    std::size_t context_size = 0;\n    for (const auto& let : op->lets) {\n      context_size = std::max(context_size, let.first.id);\n    }\n    context.reserve(context_size + 1);\n\n    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      const", "    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      index_t value = eval(let.second);\n      context.reserve(let.first.id + 1);\n      old_values[i] = context.set(let.first, value);\n    }\n    index_t result = eval(op->body);\n    for (size_t i = size; i-- > 0;) {\n      const"))
M("eR-range-bind", E_, ("    for (size_t i = 0; i < size; ++i) {\n      const auto& let = op->lets[i];\n      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      const", "    size_t n = 0;\n    for (const auto& let : op->lets) {\n      old_values[n++] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    for (size_t i = size; i-- > 0;) {\n      const"))
M("eR-alloc-helper", E_, ("  // Not using SLINKY_NO_STACK_PROTECTOR here because this actually", "  void free_buffer(const allocate* op, allocated_buffer& buffer) {\n    if (buffer.allocation) {\n      context.config->free(op->sym, &buffer, buffer.allocation);\n    }\n  }\n\n  // Not using SLINKY_NO_STACK_PROTECTOR here because this actually"),
  ("      if (buffer.allocation) {\n        context.config->free(op->sym, &buffer, buffer.allocation);\n      }\n      return -1;", "      free_buffer(op, buffer);\n      return -1;"),
  ("    if (buffer.allocation) {\n      context.config->free(op->sym, &buffer, buffer.allocation);\n    }\n\n    return result;", "    free_buffer(op, buffer);\n    return result;"))
M("eR-alloc-bool", E_, ("    if (op->storage == memory_type::heap) {\n      buffer.allocation", "    const bool on_heap = op->storage == memory_type::heap;\n    if (on_heap) {\n      buffer.allocation"))
M("eR-check-ternary", E_, ("    if (!eval(op->condition)) {\n      return check_failed(op);\n    } else {\n      return 0;\n    }", "    return eval(op->condition) ? 0 : check_failed(op);"))
M("eR-call-early", E_, ("    if (result) {\n      call_failed(result, op);\n    }\n    return result;", "    if (result == 0) return 0;\n    call_failed(result, op);\n    return result;"))
M("eR-async-ret", E_, ("    return task_result != 0 ? task_result : result;", "    if (task_result) {\n      return task_result;\n    }\n    return result;"))
M("eR-async-poolnull", E_, ("    if (pool) {\n      pool->wait_for(&*task);\n    }", "    if (pool != nullptr) {\n      thread_pool::task* t = &*task;\n      pool->wait_for(t);\n    }"))
M("eR-parallel-store", E_, ("        if (result_i != 0) {\n          index_t zero = 0;\n          state.result.compare_exchange_strong(zero, result_i);\n        }", "        if (result_i) {\n          state.result.store(result_i);\n        }"))
M("eR-parallel-n", E_, ("    if (n == 0) {\n      return 0;\n    } else if (n == 1) {\n      return eval_with_value(op->body, op->sym, bounds.min);\n    } else {", "    if (n == 0) return 0;\n    if (n == 1) return eval_with_value(op->body, op->sym, bounds.min);\n    {"))
M("eR-slicedim-ptr", E_, ("    for (int d = 0; d < op->dim; ++d) {\n      sym_buf.dims[d] = src_buf->dims[d];\n    }\n    for (int d = op->dim; d < static_cast<int>(sym_buf.rank); ++d) {\n      sym_buf.dims[d] = src_buf->dims[d + 1];\n    }", "    for (int d = 0; d < static_cast<int>(sym_buf.rank); ++d) {\n      sym_buf.dims[d] = src_buf->dims[d < op->dim ? d : d + 1];\n    }"))
M("eR-slicedim-const", E_, ("    for (int d = 0; d < op->dim; ++d) {\n      sym_buf.dims[d] = src_buf->dims[d];\n    }", "    const int dim_index = op->dim;\n    for (int d = 0; d < dim_index; ++d) {\n      sym_buf.dims[d] = src_buf->dims[d];\n    }"))
M("eR-withvalue-raii", E_, ("    context.reserve(sym.id + 1);\n    index_t old_value = context.set(sym, value);\n    index_t result = eval(op);\n    // context might have grown and invalidated the ctx_value reference.\n    context.set(sym, old_value);\n    return result;",
  "    struct scope {\n      eval_context& ctx;\n      var sym;\n      index_t old;\n      ~scope() { ctx.set(sym, old); }\n    };\n    context.reserve(sym.id + 1);\n    scope s{context, sym, context.set(sym, value)};\n    return eval(op);"))
M("eR-trunc-if", E_, ("      src_buf->rank = std::min(old_rank, op->dims.size());", "      if (op->dims.size() < old_rank) src_buf->rank = op->dims.size();"))
M("eR-cast-buffer", E_, ("    raw_buffer* buffer = reinterpret_cast<raw_buffer*>(context.lookup(op->sym));\n    assert(buffer);\n\n    if (op->dim", "    const index_t value = context.lookup(op->sym);\n    raw_buffer* buffer = reinterpret_cast<raw_buffer*>(value);\n    assert(buffer);\n\n    if (op->dim"))
M("eR-cropdim-restorefields", E_, ("    slinky::dim& dim = buffer->dims[op->dim];\n    index_t old_min = dim.min();\n    index_t old_max = dim.max();\n    void* old_base = buffer->base;", "    slinky::dim& dim = buffer->dims[op->dim];\n    const slinky::dim old_dim = dim;\n    index_t old_min = old_dim.min();\n    index_t old_max = old_dim.max();\n    void* old_base = buffer->base;"), ("    buffer->base = old_base;\n    dim.set_bounds(old_min, old_max);\n", "    buffer->base = old_base;\n    dim = old_dim;\n"))
