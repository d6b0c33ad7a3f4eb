B_ = "runtime/expr_stmt.cc"
N_ = "builder/node_mutator.cc"
U_ = "builder/substitute.cc"
O_ = "builder/optimizations.cc"
M("m14-make-swap", B_, ("  n->src = src;\n  n->dim = dim;\n  n->bounds", "  n->src = sym;\n  n->dim = dim;\n  n->bounds"), expect=["C14"])
M("m14-make-lost", B_, ("  n->dst_x = std::move(dst_x);\n  n->pad = pad;\n", "  n->dst_x = std::move(dst_x);\n"), expect=["C14"])
M("m14-make-attrs", B_, ("  n->scalars = std::move(scalars);\n  n->attrs = std::move(attrs);\n", "  n->scalars = std::move(scalars);\n"), expect=["C14"])
M("m14-make-select", B_, ("  n->true_value = std::move(true_value);\n  n->false_value = std::move(false_value);", "  n->true_value = std::move(false_value);\n  n->false_value = std::move(true_value);"), expect=["C14"])
M("m14-clone-storage", N_, ("  return allocate::make(sym, op->storage, op->elem_size, op->dims, std::move(new_body));", "  return allocate::make(sym, memory_type::heap, op->elem_size, op->dims, std::move(new_body));"), expect=[])
M("m14-clone-src", N_, ("  return slice_dim::make(sym, op->src, op->dim, op->at, std::move(new_body));", "  return slice_dim::make(sym, op->sym, op->dim, op->at, std::move(new_body));"), expect=["C14"])
M("m14-clone-dims", N_, ("  return transpose::make(sym, op->src, op->dims, std::move(new_body));", "  return transpose::make(sym, op->src, {}, std::move(new_body));"), expect=["C14"])
M("m14-clone-workers", N_, ("  return loop::make(sym, op->max_workers, op->bounds, op->step, std::move(new_body));", "  return loop::make(sym, op->step, op->bounds, op->step, std::move(new_body));"), expect=["C14"])
M("m14-step-unvisited", N_, ("  expr step = mutate(op->step);\n  expr max_workers = mutate(op->max_workers);\n  stmt body = mutate(op->body);", "  expr step = op->step;\n  expr max_workers = mutate(op->max_workers);\n  stmt body = mutate(op->body);"), expect=["C14"])
M("m14-stale-workers", N_, ("  if (bounds.same_as(op->bounds) && step.same_as(op->step) && max_workers.same_as(op->max_workers) &&\n      body.same_as(op->body)) {", "  if (bounds.same_as(op->bounds) && step.same_as(op->step) &&\n      body.same_as(op->body)) {"), expect=["C14"])
M("m14-stale-or", N_, ("  if (at.same_as(op->at) && body.same_as(op->body)) {", "  if (at.same_as(op->at) || body.same_as(op->body)) {"), expect=["C14"])
M("m14-args-last", N_, ("    args.push_back(mutate(i));\n    changed = changed || !args.back().same_as(i);\n  }\n  if (!changed) {\n    set_result(op);\n  } else {\n    set_result(call::make(op->intrinsic", "    args.push_back(mutate(i));\n    changed = !args.back().same_as(i);\n  }\n  if (!changed) {\n    set_result(op);\n  } else {\n    set_result(call::make(op->intrinsic"), expect=["C14"])
M("m14-target", N_, ("set_result(call::make(op->intrinsic, op->target, std::move(args)));", "set_result(call::make(op->intrinsic, std::move(args)));"), expect=["C14"])
M("m14-fold-old", N_, ("    dims.push_back({mutate(i.bounds), mutate(i.stride), mutate(i.fold_factor)});\n    changed = changed || !dims.back().same_as(i);\n  }\n  stmt body = mutate(op->body);\n  if (!changed && elem_size.same_as(op->elem_size) && body.same_as(op->body)) {\n    set_result(op);\n  } else {\n    set_result(allocate::make(op->sym", "    dims.push_back({mutate(i.bounds), mutate(i.stride), i.fold_factor});\n    changed = changed || !dims.back().same_as(i);\n  }\n  stmt body = mutate(op->body);\n  if (!changed && elem_size.same_as(op->elem_size) && body.same_as(op->body)) {\n    set_result(op);\n  } else {\n    set_result(allocate::make(op->sym"), expect=["C14"])
M("m14-async-swap", N_, ("    set_result(async::make(op->sym, std::move(task), std::move(body)));", "    set_result(async::make(op->sym, std::move(body), std::move(task)));"), expect=["C14"])
M("m14-async-old", N_, ("    set_result(async::make(op->sym, std::move(task), std::move(body)));", "    set_result(async::make(op->sym, op->task, std::move(body)));"), expect=["C14"])
M("m14-binary-same", N_, ("  if (a.same_as(op->a) && b.same_as(op->b)) {\n    return expr(op);", "  if (a.same_as(op->a)) {\n    return expr(op);"), expect=["C14"])
M("m14-closure", N_, ("set_result(mutate_let(this, op, op->is_closure));", "set_result(mutate_let(this, op));"), expect=[])
M("m14-sub-src", U_, ("    set_result(clone_buffer::make(sym, src, std::move(body)));", "    set_result(clone_buffer::make(sym, op->src, std::move(body)));"), expect=["C14"])
M("m14-sub-pad", U_, ("  if (changed || src != op->src || dst != op->dst || pad != op->pad) {", "  if (changed || src != op->src || dst != op->dst) {"), expect=["C14"])
M("m14-sub-outputs", U_, ("    outputs[i] = visit_symbol(op->outputs[i]);\n    changed = changed || outputs[i] != op->outputs[i];", "    outputs[i] = visit_symbol(op->outputs[i]);\n    changed = outputs[i] != op->outputs[i];"), expect=["C14"])
M("m14-sub-captured-at", U_, ("  expr at = mutate(op->at);\n  var sym = enter_decl(op->sym);\n  stmt body = sym.defined() ? mutate(op->body) : op->body;", "  var sym = enter_decl(op->sym);\n  if (!sym.defined()) {\n    set_result(op);\n    exit_decls();\n    return;\n  }\n  expr at = mutate(op->at);\n  stmt body = sym.defined() ? mutate(op->body) : op->body;"), expect=["C14"])
M("m14-sub-sym", U_, ("  if (sym == op->sym && src == op->src && at.same_as(op->at) && body.same_as(op->body)) {", "  if (src == op->src && at.same_as(op->at) && body.same_as(op->body)) {"), expect=["C14"])

M("m14-noresult2", "builder/simplify.cc", ("    } else if (c.same_as(op->condition)) {\n      set_result(op);\n    } else {\n      set_result(check::make(std::move(c)));\n    }", "    } else if (!c.same_as(op->condition)) {\n      set_result(check::make(std::move(c)));\n    }"), expect=["C14"])
M("m14-noresult3", O_, ("  void visit(const check* op) override {\n", "  void visit(const check* op) override {\n    if (!depends_on(op->condition, var()).any() && op->condition.as<logical_not>()) return;\n"), expect=["C14"])
M("m14-place", "builder/simplify.cc", ("copy_stmt::make(op->impl, src, std::move(src_x), dst,", "copy_stmt::make(op->impl, op->dst, std::move(src_x), dst,"), expect=["C14"])
# refactorings
M("m14-r-all", N_, ("  expr a = this_->mutate(op->a);\n  expr b = this_->mutate(op->b);\n  if (a.same_as(op->a) && b.same_as(op->b)) {\n    return expr(op);\n  } else {\n    return T::make(std::move(a), std::move(b));\n  }", "  expr new_a = this_->mutate(op->a);\n  expr new_b = this_->mutate(op->b);\n  const bool changed = !new_a.same_as(op->a) || !new_b.same_as(op->b);\n  if (changed) return T::make(std::move(new_a), std::move(new_b));\n  return expr(op);"), expect=[])
M("m14-r-order", N_, ("  expr at = mutate(op->at);\n  stmt body = mutate(op->body);\n", "  stmt body = mutate(op->body);\n  expr at = mutate(op->at);\n"), expect=[])
M("m14-r-helper", N_, ("  std::vector<expr> at;\n  at.reserve(op->at.size());\n  bool changed = false;\n  for (const expr& i : op->at) {\n    at.push_back(mutate(i));\n    changed = changed || !at.back().same_as(i);\n  }\n", "  bool changed = false;\n  std::vector<expr> at = mutate_all(this, op->at, changed);\n"), ("void node_mutator::visit(const variable* op) { set_result(op); }", "static std::vector<expr> mutate_all(node_mutator* m, const std::vector<expr>& xs, bool& changed) {\n  std::vector<expr> result;\n  result.reserve(xs.size());\n  for (const expr& x : xs) {\n    result.push_back(m->mutate(x));\n    if (!result.back().same_as(x)) changed = true;\n  }\n  return result;\n}\n\nvoid node_mutator::visit(const variable* op) { set_result(op); }"), expect=[])
M("m14-r-index", N_, ("  std::vector<expr> src_x;\n  src_x.reserve(op->src_x.size());\n  bool changed = false;\n  for (const expr& i : op->src_x) {\n    src_x.push_back(mutate(i));\n    changed = changed || !src_x.back().same_as(i);\n  }", "  std::vector<expr> src_x(op->src_x.size());\n  bool changed = false;\n  for (std::size_t i = 0; i < op->src_x.size(); ++i) {\n    src_x[i] = mutate(op->src_x[i]);\n    changed |= !src_x[i].same_as(op->src_x[i]);\n  }"), expect=[])
M("m14-r-always", N_, ("  if (condition.same_as(op->condition)) {\n    set_result(op);\n  } else {\n    set_result(check::make(std::move(condition)));\n  }", "  set_result(check::make(std::move(condition)));"), expect=[])
M("m14-r-local", N_, ("  return crop_dim::make(sym, op->src, op->dim, op->bounds, std::move(new_body));", "  const interval_expr& bounds = op->bounds;\n  const int d = op->dim;\n  stmt result = crop_dim::make(sym, op->src, d, bounds, std::move(new_body));\n  return result;"), expect=[])
M("m14-r-early", U_, ("  if (sym != op->sym || src != op->src || !body.same_as(op->body)) {\n    set_result(clone_buffer::make(sym, src, std::move(body)));\n  } else {\n    set_result(op);\n  }\n  exit_decls();", "  const bool same = sym == op->sym && src == op->src && body.same_as(op->body);\n  stmt result = same ? stmt(op) : clone_buffer::make(sym, src, std::move(body));\n  exit_decls();\n  set_result(std::move(result));"), expect=[])
M("m14-r-make", B_, ("  auto n = new slice_dim();\n  n->sym = sym;\n  n->src = src;\n  n->dim = dim;\n  n->at = std::move(at);\n  n->body = std::move(body);\n  return stmt(n);", "  auto result = new slice_dim();\n  result->body = std::move(body);\n  result->at = std::move(at);\n  result->dim = dim;\n  result->src = src;\n  result->sym = sym;\n  stmt s(result);\n  return s;"), expect=[])
M("m14-r-count", U_, ("    src_x[i] = decls_entered == dst_x.size() ? mutate(op->src_x[i]) : op->src_x[i];", "    src_x[i] = captured ? op->src_x[i] : mutate(op->src_x[i]);"), ("  for (var& i : dst_x) {\n    var new_i = enter_decl(i);\n    if (!new_i.defined()) {", "  bool captured = false;\n  for (var& i : dst_x) {\n    var new_i = enter_decl(i);\n    if (!new_i.defined()) {\n      captured = true;"), expect=[])
