D_ = "runtime/depends_on.cc"
X_ = "runtime/expr_stmt.cc"
# C12
M("d12-select-false", X_, ("  if (op->false_value.defined()) op->false_value.accept(this);\n}", "}"), expect=["C12"])
M("d12-call-from1", X_, ("  for (const expr& i : op->args) {\n    if (i.defined()) i.accept(this);\n  }\n}\n\nvoid recursive_node_visitor::visit(const let_stmt", "  for (std::size_t i = 1; i < op->args.size(); ++i) {\n    if (op->args[i].defined()) op->args[i].accept(this);\n  }\n}\n\nvoid recursive_node_visitor::visit(const let_stmt"), expect=["C12"])
M("d12-scalars", X_, ("  for (const expr& i : op->scalars) {\n    if (i.defined()) i.accept(this);\n  }\n", "  (void)op;\n"), expect=["C12"])
M("d12-async-task", X_, ("  if (op->task.defined()) op->task.accept(this);\n  if (op->body.defined()) op->body.accept(this);", "  if (op->body.defined()) op->body.accept(this);"), expect=["C12"])
M("d12-block-short", X_, ("  for (const auto& s : op->stmts) {\n    if (s.defined()) s.accept(this);\n  }\n}\nvoid recursive_node_visitor::visit(const loop", "  for (const auto& s : op->stmts) {\n    if (!s.defined()) break;\n    s.accept(this);\n  }\n}\nvoid recursive_node_visitor::visit(const loop"), expect=["C12"])
M("d12-alloc-fold", X_, ("    if (i.stride.defined()) i.stride.accept(this);\n    if (i.fold_factor.defined()) i.fold_factor.accept(this);\n  }\n  if (op->body.defined()) op->body.accept(this);\n}\nvoid recursive_node_visitor::visit(const make", "    if (i.stride.defined()) i.stride.accept(this);\n    if (i.stride.defined() && i.fold_factor.defined()) i.fold_factor.accept(this);\n  }\n  if (op->body.defined()) op->body.accept(this);\n}\nvoid recursive_node_visitor::visit(const make"), expect=["C12"])
M("d12-dep-workers", D_, ("    if (op->max_workers.defined()) op->max_workers.accept(this);\n", ""), expect=["C12"])
M("d12-dep-pad-bounds", D_, ("      if (op->pad.defined()) {\n        deps->buffer_bounds = true;\n      }\n", ""), expect=["C12"])
M("d12-dep-dst-dims", D_, ("      deps->buffer_dst = true;\n      deps->buffer_bounds = true;\n", "      deps->buffer_dst = true;\n"), expect=["C12"])
M("d12-dep-stride", D_, ("      case buffer_field::fold_factor: deps->buffer_dims = true; break;", "      case buffer_field::fold_factor: break;"), expect=["C12"])
M("d12-dep-pure", D_, ("      is_pure = false;\n      assert", "      assert"), expect=["C12"])
M("d12-dep-noshadow-let", D_, ("      if (decl_needs_shadow(p.first)) {\n        var_deps.push_back({p.first, &dummy_deps});\n      }\n    }\n    op->body", "    }\n    op->body"), expect=["C12"])
M("d12-dep-shadow-first", D_, ("      p.second.accept(this);\n      if (decl_needs_shadow(p.first)) {\n        var_deps.push_back({p.first, &dummy_deps});\n      }", "      if (decl_needs_shadow(p.first)) {\n        var_deps.push_back({p.first, &dummy_deps});\n      }\n      p.second.accept(this);"), expect=["C12"])
M("d12-dep-noresize", D_, ("    op->body.accept(this);\n    var_deps.resize(var_deps_count);\n  }\n\n  void visit(const let*", "    op->body.accept(this);\n  }\n\n  void visit(const let*"), expect=["C12"])
M("d12-dep-forward", D_, ("    for (auto i = var_deps.rbegin(); i != var_deps.rend(); ++i) {\n      if (i->first == s) return i->second;\n    }\n\n    if (unknown_deps) {", "    for (auto i = var_deps.begin(); i != var_deps.end(); ++i) {\n      if (i->first == s) return i->second;\n    }\n\n    if (unknown_deps) {"), expect=["C12"])
M("d12-dep-early-size", D_, ("      if (!unknown_deps && var_deps.size() == 1) {", "      if (!unknown_deps) {"), expect=["C12"])
M("d12-dep-clone-sym", D_, ("visit_sym_body(op->sym, op->src, find_deps(op->src), op->body); }", "visit_sym_body(op->sym, op->src, find_deps(op->sym), op->body); }"), expect=["C12"])
M("d12-dep-crop-noalias", D_, ("    depends_on_result* deps = find_deps(op->src);\n    if (deps) {\n      deps->buffer_bounds = true;\n      deps->buffer_dims = true;\n    }\n    visit_sym_body(op->sym, op->src, deps, op->body);\n  }\n  void visit(const crop_dim* op)", "    depends_on_result* deps = find_deps(op->src);\n    if (deps) {\n      deps->buffer_bounds = true;\n      deps->buffer_dims = true;\n    }\n    visit_sym_body(op->sym, nullptr, op->body);\n  }\n  void visit(const crop_dim* op)"), expect=["C12"])
M("d12-dep-copy-shadow", D_, ("    for (std::size_t i = 0; i < op->dst_x.size(); ++i) {\n      if (decl_needs_shadow(op->dst_x[i])) {\n        var_deps.push_back({op->dst_x[i], &dummy_deps});\n      }\n    }\n", ""), expect=["C12"])
M("d12-effect-free", D_, ("    case intrinsic::free: has_side_effects = true; return;\n", ""), expect=["C12"])
M("d12-effect-args", D_, ("    case intrinsic::and_then:\n    case intrinsic::or_else:\n    case intrinsic::buffer_at:\n    case intrinsic::validate_buffer: break;", "    case intrinsic::and_then:\n    case intrinsic::or_else:\n    case intrinsic::buffer_at:\n    case intrinsic::validate_buffer: return;"), expect=["C12"])
M("d12-dep-last-arg", D_, ("for (std::size_t i = 1; i < op->args.size(); ++i) {\n        if (op->args[i].defined()) op", "for (std::size_t i = 1; i + 1 < op->args.size(); ++i) {\n        if (op->args[i].defined()) op"), expect=["C12"])
# refactorings
M("d12-r-helper", D_, ("    depends_on_result* deps = find_deps(op->src);\n    if (deps) {\n      deps->buffer_bounds = true;\n      deps->buffer_dims = true;\n    }\n    visit_sym_body(op->sym, op->src, deps, op->body);\n  }\n  void visit(const crop_dim* op)", "    visit_sym_body(op->sym, op->src, used_src(op->src), op->body);\n  }\n  depends_on_result* used_src(var src) {\n    depends_on_result* deps = find_deps(src);\n    if (!deps) return deps;\n    deps->buffer_dims = deps->buffer_bounds = true;\n    return deps;\n  }\n  void visit(const crop_dim* op)"), expect=[])
M("d12-r-idx", X_, ("  for (const expr& i : op->scalars) {\n    if (i.defined()) i.accept(this);\n  }\n", "  for (std::size_t i = 0; i < op->scalars.size(); ++i) {\n    const expr& e = op->scalars[i];\n    if (!e.defined()) continue;\n    e.accept(this);\n  }\n"), expect=[])
M("d12-r-ifs", D_, ("      switch (op->field) {\n      case buffer_field::none: deps->var = true; break;\n      case buffer_field::min:\n      case buffer_field::max:\n        deps->buffer_bounds = true;\n        deps->buffer_dims = true;\n        break;\n      case buffer_field::stride:\n      case buffer_field::fold_factor: deps->buffer_dims = true; break;\n      case buffer_field::rank:\n      case buffer_field::elem_size:\n      case buffer_field::size_bytes: deps->var = true; break;\n      }", "      if (op->field == buffer_field::min || op->field == buffer_field::max) {\n        deps->buffer_bounds = true;\n        deps->buffer_dims = true;\n      } else if (op->field == buffer_field::stride || op->field == buffer_field::fold_factor) {\n        deps->buffer_dims = true;\n      } else {\n        deps->var = true;\n      }"), expect=[])
M("d12-r-pop", D_, ("    body.accept(this);\n    var_deps.resize(var_deps_count);\n  }\n\n  void visit_sym_body(var sym, var src", "    body.accept(this);\n    while (var_deps.size() > var_deps_count) var_deps.pop_back();\n  }\n\n  void visit_sym_body(var sym, var src"), expect=[])
M("d12-r-lookup", D_, ("    for (auto i = var_deps.rbegin(); i != var_deps.rend(); ++i) {\n      if (i->first == s) return i->second;\n    }\n\n    if (unknown_deps) {", "    for (std::size_t i = var_deps.size(); i-- > 0;) {\n      if (var_deps[i].first == s) return var_deps[i].second;\n    }\n\n    if (unknown_deps) {"), expect=[])
M("d12-r-order", D_, ("      is_pure = false;\n      assert(op->args.size() >= 1);\n      if (auto buf", "      assert(op->args.size() >= 1);\n      if (is_pure) is_pure = false;\n      if (auto buf"), expect=[])
M("d12-r-bin", X_, ("void recursive_node_visitor::visit(const add* op) { visit_binary(this, op->a, op->b); }", "void recursive_node_visitor::visit(const add* op) {\n  for (const expr* i : {&op->a, &op->b}) {\n    if (i->defined()) i->accept(this);\n  }\n}"), expect=[])
M("d12-r-noresizeif", D_, ("    for (const expr& i : op->src_x) {\n      i.accept(this);\n    }\n    var_deps.resize(var_deps_count);", "    for (const expr& i : op->src_x) {\n      i.accept(this);\n    }\n    if (var_deps.size() != var_deps_count) var_deps.resize(var_deps_count);"), expect=[])
