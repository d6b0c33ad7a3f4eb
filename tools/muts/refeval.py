# Refactorings of the interpreter that keep its behaviour: every check has to stay quiet.
V_ = "runtime/evaluate.cc"
M("rv-serial-while", V_, ("""    for (index_t i = bounds.min; result == 0 && bounds.min <= i && i <= bounds.max; i += step) {
      context.set(op->sym, i);
      result = eval(op->body);
    }
    context.set(op->sym, old_value);
    return result;""", """    index_t i = bounds.min;
    while (i <= bounds.max && i >= bounds.min) {
      context.set(op->sym, i);
      result = eval(op->body);
      if (result != 0) break;
      i += step;
    }
    context.set(op->sym, old_value);
    return result;"""))
M("rv-serial-noresult", V_, ("    index_t old_value = context.set(op->sym, 0);\n    index_t result = 0;", "    const index_t old_value = context.lookup(op->sym);\n    index_t result = 0;"))
M("rv-parallel-early", V_, ("""    if (n == 0) {
      return 0;
    } else if (n == 1) {
      return eval_with_value(op->body, op->sym, bounds.min);
    } else {
      context.reserve(op->sym.id + 1);
""", """    if (n == 0) return 0;
    if (n == 1) return eval_with_value(op->body, op->sym, bounds.min);
    {
      context.reserve(op->sym.id + 1);
"""))
M("rv-parallel-n", V_, ("    std::size_t n = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));", "    const index_t extent = bounds.max - bounds.min + 1;\n    const std::size_t n = extent > 0 ? ceil_div(extent, step) : 0;"))
M("rv-parallel-lambda", V_, ("""        context.set(state.sym, i * state.step + state.min);
        // Evaluate the parallel loop body with our copy of the context.
        index_t result_i = evaluate(state.body, context);
        if (result_i != 0) {
          index_t zero = 0;
          state.result.compare_exchange_strong(zero, result_i);
        }""", """        const index_t value = state.min + state.step * i;
        context.set(state.sym, value);
        // Evaluate the parallel loop body with our copy of the context.
        if (index_t result_i = evaluate(state.body, context)) {
          index_t expected = 0;
          state.result.compare_exchange_strong(expected, result_i);
        }"""))
M("rv-loop-tern", V_, ("""    if (max_workers > 1) {
      return eval_loop_parallel(op, max_workers);
    } else {
      return eval_loop_serial(op);
    }""", """    const bool serial = max_workers <= 1;
    return serial ? eval_loop_serial(op) : eval_loop_parallel(op, max_workers);"""))
M("rv-block-iter", V_, ("""    for (const auto& s : op->stmts) {
      index_t result = eval(s);
      if (result) return result;
    }
    return 0;""", """    index_t result = 0;
    for (std::size_t i = 0; i < op->stmts.size() && result == 0; ++i) {
      result = eval(op->stmts[i]);
    }
    return result;"""))
M("rv-let-helper", V_, ("""    std::size_t context_size = 0;
    for (const auto& let : op->lets) {
      context_size = std::max(context_size, let.first.id);
    }
    context.reserve(context_size + 1);

    for (size_t i = 0; i < size; ++i) {
      const auto& let = op->lets[i];
      old_values[i] = context.set(let.first, eval(let.second));
    }
    index_t result = eval(op->body);
    // Restore in reverse order, the same symbol may have been defined more than once.
    for (size_t i = size; i-- > 0;) {
      const auto& let = op->lets[i];
      context.set(let.first, old_values[i]);
    }
    return result;
  }

  index_t eval(const block* op)""", """    set_lets(op->lets, old_values);
    index_t result = eval(op->body);
    restore_lets(op->lets, old_values);
    return result;
  }

  void set_lets(const std::vector<std::pair<var, expr>>& lets, index_t* old_values) {
    std::size_t context_size = 0;
    for (const auto& let : lets) {
      context_size = std::max(context_size, let.first.id);
    }
    context.reserve(context_size + 1);

    for (size_t i = 0; i < lets.size(); ++i) {
      const auto& let = lets[i];
      old_values[i] = context.set(let.first, eval(let.second));
    }
  }

  void restore_lets(const std::vector<std::pair<var, expr>>& lets, const index_t* old_values) {
    // Restore in reverse order, the same symbol may have been defined more than once.
    for (size_t i = lets.size(); i-- > 0;) {
      context.set(lets[i].first, old_values[i]);
    }
  }

  index_t eval(const block* op)"""))
M("rv-let-down", V_, ("""    for (size_t i = size; i-- > 0;) {
      context.set(op->lets[i].first, old_values[i]);
    }""", """    for (std::ptrdiff_t i = static_cast<std::ptrdiff_t>(size) - 1; i >= 0; --i) {
      context.set(op->lets[i].first, old_values[i]);
    }"""))
M("rv-with-value", V_, ("""    index_t old_value = context.set(sym, value);
    index_t result = eval(op);
    // context might have grown and invalidated the ctx_value reference.
    context.set(sym, old_value);
    return result;""", """    struct restore {
      eval_context& context;
      var sym;
      index_t old_value;
      ~restore() { context.set(sym, old_value); }
    };
    restore r = {context, sym, context.set(sym, value)};
    return eval(op);"""))
M("rv-async", V_, ("""    index_t result = eval_with_new_context(op->body);

    if (op->sym.defined()) context.set(op->sym, old_sym);

    if (pool) {
      pool->wait_for(&*task);
    }

    return task_result != 0 ? task_result : result;""", """    const index_t body_result = eval_with_new_context(op->body);

    if (pool) pool->wait_for(&*task);

    if (op->sym.defined()) context.set(op->sym, old_sym);

    if (task_result) return task_result;
    return body_result;"""))
M("rv-call", V_, ("""    index_t result = op->target(op, context);
    if (result) {
      call_failed(result, op);
    }
    return result;""", """    if (index_t result = op->target(op, context)) {
      call_failed(result, op);
      return result;
    }
    return 0;"""))
M("rv-check", V_, ("""    if (!eval(op->condition)) {
      return check_failed(op);
    } else {
      return 0;
    }""", """    const bool passed = eval(op->condition) != 0;
    return passed ? 0 : check_failed(op);"""))
M("rv-alloc-helper", V_, ("""    if (buffer.allocation) {
      context.config->free(op->sym, &buffer, buffer.allocation);
    }

    return result;
  }
""", """    free_allocation(op, buffer);

    return result;
  }

  void free_allocation(const allocate* op, allocated_buffer& buffer) {
    if (!buffer.allocation) return;
    context.config->free(op->sym, &buffer, buffer.allocation);
  }
"""))
M("rv-dims-helper", V_, ("""    // Evaluate dimensions in reverse, removing trailing broadcasts as we go.
    buffer.rank = rank;
    bool trailing = true;
    for (std::size_t d = rank; d-- > 0;) {
      const dim_expr& op_d = op->dims[d];
      dim& buf_d = buffer.dims[d];
      interval bounds = eval(op_d.bounds);
      buf_d.set_bounds(bounds.min, bounds.max);
      buf_d.set_stride(eval(op_d.stride));
      buf_d.set_fold_factor(eval(op_d.fold_factor, dim::unfolded));
      if (trailing) {
        if (buf_d.is_broadcast()) {
          buffer.rank = d;
        } else {
          trailing = false;
        }
      }
    }
""", """    buffer.rank = rank;
    for (std::size_t d = 0; d < rank; ++d) {
      eval_dim(op->dims[d], buffer.dims[d]);
    }
    remove_trailing_broadcasts(buffer);
"""), ("  SLINKY_NO_STACK_PROTECTOR index_t eval(const make_buffer* op) {", """  void eval_dim(const dim_expr& op_d, dim& buf_d) {
    const interval bounds = eval(op_d.bounds);
    buf_d.set_bounds(bounds.min, bounds.max);
    buf_d.set_stride(eval(op_d.stride));
    buf_d.set_fold_factor(eval(op_d.fold_factor, dim::unfolded));
  }

  SLINKY_NO_STACK_PROTECTOR index_t eval(const make_buffer* op) {"""))
M("rv-clone-helper", V_, ("""    raw_buffer clone = *src_buf;
    clone.dims = SLINKY_ALLOCA(dim, src_buf->rank);
    internal::copy_small_n(src_buf->dims, src_buf->rank, clone.dims);
    return eval_with_value(op->body, op->sym, reinterpret_cast<index_t>(&clone));""", """    raw_buffer clone = *src_buf;
    clone.dims = SLINKY_ALLOCA(dim, src_buf->rank);
    for (std::size_t d = 0; d < src_buf->rank; ++d) {
      clone.dims[d] = src_buf->dims[d];
    }
    const index_t value = reinterpret_cast<index_t>(&clone);
    return eval_with_value(op->body, op->sym, value);"""))
M("rv-cropdim-one", V_, ("""    slinky::dim& dim = buffer->dims[op->dim];
    index_t old_min = dim.min();
    index_t old_max = dim.max();
    void* old_base = buffer->base;

    interval bounds = eval(op->bounds, {old_min, old_max});
    buffer->crop(op->dim, bounds.min, bounds.max);
    index_t result = eval(op->body);

    buffer->base = old_base;
    dim.set_bounds(old_min, old_max);

    return result;""", """    void* const base = buffer->base;
    const slinky::dim saved = buffer->dims[op->dim];

    const interval bounds = eval(op->bounds, {saved.min(), saved.max()});
    buffer->crop(op->dim, bounds.min, bounds.max);
    const index_t result = eval(op->body);

    buffer->dims[op->dim] = saved;
    buffer->base = base;
    return result;"""))
M("rv-cropdim-bounds", V_, ("""    if (op->dim >= static_cast<int>(buffer->rank)) {
      // Cropping a broadcast dimension is a no-op.
      return eval(op->body);
    }
""", """    const bool exists = static_cast<std::size_t>(op->dim) < buffer->rank;
    if (!exists) return eval(op->body);
"""))
M("rv-crop-twoarrays", V_, ("""    interval* old_bounds = SLINKY_ALLOCA(interval, crop_rank);
""", """    interval* new_bounds = SLINKY_ALLOCA(interval, crop_rank);
    interval* old_bounds = SLINKY_ALLOCA(interval, crop_rank);
"""), ("      old_bounds[d] = eval(op->bounds[d], {dim.min(), dim.max()});\n    }", "      old_bounds[d] = {dim.min(), dim.max()};\n      new_bounds[d] = eval(op->bounds[d], old_bounds[d]);\n    }"),
 ("""      const slinky::dim& dim = buffer->dims[d];
      interval bounds = old_bounds[d];
      old_bounds[d] = {dim.min(), dim.max()};
      buffer->crop(d, bounds.min, bounds.max);""", "      buffer->crop(d, new_bounds[d].min, new_bounds[d].max);"))
M("rv-crop-null", V_, ("""    void* old_base = buffer->base;
    for (std::size_t d = 0; d < crop_rank; ++d) {
      const slinky::dim& dim = buffer->dims[d];
      interval bounds = old_bounds[d];
      old_bounds[d] = {dim.min(), dim.max()};""", """    void* old_base = buffer->base;
    for (std::size_t d = 0; d < crop_rank; ++d) {
      slinky::dim& dim = buffer->dims[d];
      const interval bounds = old_bounds[d];
      old_bounds[d].min = dim.min();
      old_bounds[d].max = dim.max();"""))
M("rv-maybe", V_, ("    return op->sym == op->src ? eval_shadowed(op) : eval_unshadowed(op);", "    if (op->sym != op->src) return eval_unshadowed(op);\n    return eval_shadowed(op);"))
M("rv-slicedim-copy", V_, ("""    for (int d = 0; d < op->dim; ++d) {
      sym_buf.dims[d] = src_buf->dims[d];
    }
    for (int d = op->dim; d < static_cast<int>(sym_buf.rank); ++d) {
      sym_buf.dims[d] = src_buf->dims[d + 1];
    }
""", """    for (int d = 0; d < static_cast<int>(sym_buf.rank); ++d) {
      sym_buf.dims[d] = src_buf->dims[d < op->dim ? d : d + 1];
    }
"""))
M("rv-slicedim-copy2", V_, ("""    for (int d = op->dim; d < static_cast<int>(sym_buf.rank); ++d) {
      sym_buf.dims[d] = src_buf->dims[d + 1];
    }
""", """    for (int d = op->dim + 1; d < static_cast<int>(src_buf->rank); ++d) {
      sym_buf.dims[d - 1] = src_buf->dims[d];
    }
"""))
M("rv-slicebuf", V_, ("""      if (d < op->at.size() && op->at[d].defined()) {
        if (sym_buf.base) {
          index_t at_d = eval(op->at[d]);
          if (src_buf->dims[d].contains(at_d)) {
            sym_buf.base = offset_bytes_non_null(sym_buf.base, src_buf->dims[d].flat_offset_bytes(at_d));
          } else {
            sym_buf.base = nullptr;
          }
        }
      } else {
        sym_buf.dims[sym_buf.rank++] = src_buf->dims[d];
      }""", """      const slinky::dim& dim_d = src_buf->dims[d];
      const bool sliced = d < op->at.size() && op->at[d].defined();
      if (!sliced) {
        sym_buf.dims[sym_buf.rank] = dim_d;
        ++sym_buf.rank;
        continue;
      }
      if (!sym_buf.base) continue;
      const index_t at_d = eval(op->at[d]);
      sym_buf.base =
          dim_d.contains(at_d) ? offset_bytes_non_null(sym_buf.base, dim_d.flat_offset_bytes(at_d)) : nullptr;"""))
M("rv-transpose", V_, ("""      dim* dims = SLINKY_ALLOCA(dim, op->dims.size());
      for (std::size_t i = 0; i < op->dims.size(); ++i) {
        dims[i] = src_buf->dim(op->dims[i]);
      }

      raw_buffer sym_buf;
      sym_buf.base = src_buf->base;
      sym_buf.elem_size = src_buf->elem_size;
      sym_buf.rank = op->dims.size();
      sym_buf.dims = dims;
""", """      raw_buffer sym_buf = *src_buf;
      sym_buf.rank = op->dims.size();
      sym_buf.dims = SLINKY_ALLOCA(dim, sym_buf.rank);
      std::size_t i = 0;
      for (int d : op->dims) {
        sym_buf.dims[i++] = src_buf->dim(d);
      }
"""))
M("rv-trailing", V_, ("""  while (buffer.rank > 0 && buffer.dims[buffer.rank - 1].is_broadcast()) {
    --buffer.rank;
  }""", """  for (; buffer.rank > 0; --buffer.rank) {
    if (!buffer.dims[buffer.rank - 1].is_broadcast()) break;
  }"""))
M("rv-at", V_, ("""    void* result = buf->base;
    for (std::size_t d = 0; d < std::min(buf->rank, op->args.size() - 1); ++d) {
      if (op->args[d + 1].defined()) {
        index_t at = eval(op->args[d + 1]);
        if (result && buf->dims[d].contains(at)) {
          result = offset_bytes_non_null(result, buf->dims[d].flat_offset_bytes(at));
        } else {
          result = nullptr;
        }
      }
    }
    return result;""", """    void* result = buf->base;
    const std::size_t rank = std::min(buf->rank, op->args.size() - 1);
    for (std::size_t d = 0; d < rank; ++d) {
      const expr& at_d = op->args[d + 1];
      if (!at_d.defined()) continue;
      const index_t at = eval(at_d);
      const slinky::dim& dim_d = buf->dims[d];
      if (!result || !dim_d.contains(at)) {
        result = nullptr;
        continue;
      }
      result = offset_bytes_non_null(result, dim_d.flat_offset_bytes(at));
    }
    return result;"""))
M("rv-short", V_, ("""    for (const expr& i : op->args) {
      index_t x = eval(i);
      if (!x && op->intrinsic == intrinsic::and_then) {
        return false;
      } else if (x && op->intrinsic == intrinsic::or_else) {
        return true;
      }
    }
    return op->intrinsic == intrinsic::and_then;""", """    const bool is_and = op->intrinsic == intrinsic::and_then;
    for (const expr& i : op->args) {
      const bool x = eval(i) != 0;
      if (x != is_and) return x;
    }
    return is_and;"""))
M("rv-waitfor", V_, ("""      thread_pool::task* t = reinterpret_cast<thread_pool::task*>(context.lookup(sym));
      if (!t) continue;
      assert(context.config->thread_pool);
      context.config->thread_pool->wait_for(t);""", """      if (auto t = reinterpret_cast<thread_pool::task*>(context.lookup(sym))) {
        context.config->thread_pool->wait_for(t);
      }"""))
M("rv-free", V_, ("""    context.config->free(sym, buf, buf->allocation);
    buf->allocation = nullptr;
    return 1;""", """    void* allocation = buf->allocation;
    buf->allocation = nullptr;
    context.config->free(sym, buf, allocation);
    return 1;"""))
M("rv-interval", V_, ("""    if (x.is_point()) {
      index_t result = eval(x.min);
      return {result, result};
    } else {
      return {eval(x.min, def.min), eval(x.max, def.max)};
    }""", """    interval result = {eval(x.min, def.min), 0};
    if (x.is_point()) {
      result.max = result.min;
    } else {
      result.max = eval(x.max, def.max);
    }
    return result;"""))
M("rv-init", V_, ("""        if (i.first == exclude) {
          // The loop variable is part of the closure, because it is defined outside the closure and used inside
          // it. However, we are going to overwrite it below.
          continue;
        }
        auto src = as_variable(i.second);
        assert(src);
        context.set(i.first, parent_context.lookup(*src));""", """        // The loop variable is part of the closure, because it is defined outside the closure and used inside
        // it. However, we are going to overwrite it below.
        if (i.first != exclude) {
          auto src = as_variable(i.second);
          assert(src);
          const index_t value = parent_context.lookup(*src);
          context.set(i.first, value);
        }"""))
M("rv-binary-if", V_, ("""    case expr_node_type::add: return make_binary<add>(a, b);
    case expr_node_type::sub: return make_binary<sub>(a, b);""", """    case expr_node_type::add: return a + b;
    case expr_node_type::sub: return a - b;"""))
