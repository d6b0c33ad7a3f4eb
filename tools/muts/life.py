SI = "builder/simplify.cc"
M("mv-minmax", SI, ("    expr result = simplify(op, std::move(a), std::move(b));\n    if (!result.same_as(op)) {\n      mutate_and_set_result(result);\n    } else {\n      set_result(std::move(result),\n          {bounds_of(op",
   "    expr result = simplify(op, std::move(a), std::move(b));\n    if (!result.same_as(op) && !result.same_as(a)) {\n      mutate_and_set_result(result);\n    } else {\n      set_result(std::move(result),\n          {bounds_of(op"), expect=["C07"])
M("mv-subst-let", "builder/substitute.cc", ("    changed = changed || !value.same_as(s.second);\n    s.second = std::move(value);", "    s.second = std::move(value);\n    changed = changed || !value.same_as(s.second);"), expect=["C07"])
M("mv-subst-let-ok", "builder/substitute.cc", ("    changed = changed || !value.same_as(s.second);\n    s.second = std::move(value);", "    bool same = value.same_as(s.second);\n    s.second = std::move(value);\n    changed = changed || !same;"), expect=[])
M("mv-ne", "builder/simplify_exprs.cc", ("    if (const not_equal* ne = result.as<not_equal>()) {\n      if (ne->a.same_as(op->a)", "    if (const not_equal* ne = result.as<not_equal>()) {\n      if (a.same_as(op->a)"), expect=["C07"])
M("mv-isect", "builder/simplify_exprs.cc", ("    a.max = simplify(static_cast<const class min*>(nullptr), std::move(a.max), std::move(b.max));\n  } else if (!a.max.defined()) {\n    a.max = std::move(b.max);\n  }",
   "    a.max = simplify(static_cast<const class min*>(nullptr), std::move(a.max), std::move(b.max));\n  }\n  if (!a.max.defined()) {\n    a.max = std::move(b.max);\n  }"), expect=["C07"])

M("mv-alloc-order", SI, ("        before = block::make({b->stmts.begin(), end_before});\n        auto end_body = std::find_if(b->stmts.rbegin(), b->stmts.rend(), depends_on_alloc).base();\n        after = block::make({end_body, b->stmts.end()});\n        body = block::make({end_before, end_body});",
   "        before = block::make({b->stmts.begin(), end_before});\n        auto end_body = std::find_if(b->stmts.rbegin(), b->stmts.rend(), depends_on_alloc).base();\n        body = block::make({end_before, end_body});\n        after = block::make({end_body, b->stmts.end()});"), expect=["C07"])
M("mv-alloc-ok", SI, ("        before = block::make({b->stmts.begin(), end_before});\n        auto end_body = std::find_if(b->stmts.rbegin(), b->stmts.rend(), depends_on_alloc).base();\n        after = block::make({end_body, b->stmts.end()});\n        body = block::make({end_before, end_body});",
   "        stmt keep = body;\n        before = block::make({b->stmts.begin(), end_before});\n        auto end_body = std::find_if(b->stmts.rbegin(), b->stmts.rend(), depends_on_alloc).base();\n        body = block::make({end_before, end_body});\n        after = block::make({end_body, b->stmts.end()});"), expect=[])
M("mv-temp", SI, ("      if (const check* c = stmts.back().as<check>()) {", "      if (const check* c = mutate(s).as<check>()) {"), expect=["C07"])
M("mv-temp2", "builder/simplify.cc", ("      if (auto c1 = as_constant(b)) {\n        if (const div* d = a.as<div>()) {", "      if (auto c1 = as_constant(b)) {\n        if (const div* d = mutate(a).template as<div>()) {"), expect=["C07"])
M("mv-order", "builder/optimizations.cc", ("        body = crop_buffer::make(op->sym, syms.back(), dims_bounds(op->dims), std::move(body));", "        body = block::make(crop_buffer::make(op->sym, syms.back(), dims_bounds(op->dims), std::move(body)), depends_on(body, op->sym).any() ? stmt() : stmt());"), expect=["C07"])
M("mv-loop", "builder/optimizations.cc", ("          stmts.push_back(std::move(i.body));", "          stmts.push_back(std::move(i.body));\n          if (!i.body.defined()) continue;"), expect=["C07"])
M("mv-helper-ok", SI, ("    expr result = simplify(op, std::move(a), std::move(b));\n    if (!result.same_as(op)) {\n      mutate_and_set_result(result);\n    } else {\n      set_result(std::move(result),\n          {bounds_of(op",
   "    expr result;\n    {\n      expr x = std::move(a);\n      expr y = std::move(b);\n      result = simplify(op, std::move(x), std::move(y));\n      a = expr();\n    }\n    if (!result.same_as(op) && !a.defined()) {\n      mutate_and_set_result(result);\n    } else {\n      set_result(std::move(result),\n          {bounds_of(op"), expect=[])

M("mv-corr-ok", "builder/simplify_exprs.cc", ("    a.max = simplify(static_cast<const class min*>(nullptr), std::move(a.max), std::move(b.max));\n  } else if (!a.max.defined()) {\n    a.max = std::move(b.max);\n  }",
   "    b.min = simplify(static_cast<const class min*>(nullptr), std::move(a.max), std::move(b.max));\n  }\n  bool has = b.max.defined() && a.max.defined();\n  if (has) {\n    a.max = b.min;\n  } else if (!a.max.defined()) {\n    a.max = b.max;\n  }"), expect=["C07"])
M("mv-corr2-ok", "builder/simplify_exprs.cc", ("    a.max = simplify(static_cast<const class min*>(nullptr), std::move(a.max), std::move(b.max));\n  } else if (!a.max.defined()) {\n    a.max = std::move(b.max);\n  }",
   "  }\n  bool has = b.max.defined() && a.max.defined();\n  if (has) {\n    a.max = simplify(static_cast<const class min*>(nullptr), std::move(a.max), std::move(b.max));\n  }\n  if (!has && !a.max.defined()) {\n    a.max = std::move(b.max);\n  }"), expect=[])
