S_ = "builder/substitute.cc"
M("m13-field", S_, ("    if (!try_match(ev->field, op->field)) return;\n", ""), expect=["C13"])
M("m13-dim-self", S_, ("    if (!try_match(cds->dim, op->dim)) return;\n    if (!try_match(cds->bounds", "    if (!try_match(op->dim, op->dim)) return;\n    if (!try_match(cds->bounds"), expect=["C13"])
M("m13-cross", S_, ("    if (!try_match(cs->src, op->src)) return;\n    if (!try_match(cs->src_x, op->src_x)) return;\n    if (!try_match(cs->dst, op->dst)) return;", "    if (!try_match(cs->src, op->src)) return;\n    if (!try_match(cs->src_x, op->src_x)) return;\n    if (!try_match(cs->dst, op->src)) return;"), expect=["C13"])
M("m13-target-both", S_, ("    if (cs->target && op->target) {\n      // If std::function-s are defined we can't compare the functions, compare the pointers instead.\n      if (!try_match(cs, op)) return;\n    } else {\n      if (!try_match(!cs->target, !op->target)) return;\n    }", "    if (!try_match(!cs->target, !op->target)) return;"), expect=["C13"])
M("m13-target-or", S_, ("    if (cs->target && op->target) {", "    if (cs->target || op->target) {"), expect=[])
M("m13-impl-none", S_, ("      if (!try_match(!cs->impl, !op->impl)) return;\n", ""), expect=["C13"])
M("m13-size", S_, ("    if (!try_match(self.size(), op.size())) return false;\n    for (std::size_t i = 0; i < self.size(); ++i) {", "    for (std::size_t i = 0; i < self.size() && i < op.size(); ++i) {"), expect=["C13"])
M("m13-from1", S_, ("    for (std::size_t i = 0; i < self.size(); ++i) {\n      if (!try_match(self[i], op[i]))", "    for (std::size_t i = 1; i < self.size(); ++i) {\n      if (!try_match(self[i], op[i]))"), expect=["C13"])
M("m13-interval", S_, ("if (!self.min.same_as(self.max) || !op.min.same_as(op.max)) {", "if (!self.min.same_as(self.max) && !op.min.same_as(op.max)) {"), expect=["C13"])
M("m13-dim-fold", S_, ("    if (!try_match(self.fold_factor, op.fold_factor)) return false;\n    return true;", "    return true;"), expect=["C13"])
M("m13-pair", S_, ("    if (!try_match(self.first, op.first)) return false;\n", ""), expect=["C13"])
M("m13-type", S_, ("    } else if (e->type > op->type) {\n      match = 1;\n    } else {", "    } else {"), expect=["C13"])
M("m13-null", S_, ("    } else if (!e) {\n      match = -1;\n    } else if (!op) {\n      match = 1;", "    } else if (!e || !op) {\n      match = -1;"), expect=["C13"])
M("m13-selfset", S_, ("      self_stmt = s;\n      op->accept(this);", "      op->accept(this);"), expect=["C13"])
M("m13-less-only", S_, ("    if (self < op) {\n      match = -1;\n    } else if (op < self) {\n      match = 1;\n    }\n    return match == 0;", "    if (self < op) {\n      match = -1;\n    }\n    return match == 0;"), expect=["C13"])
M("m13-buf-elem", S_, ("      if (!try_match(self->elem_size, op->elem_size)) return false;\n", ""), expect=["C13"])
M("m13-buf-data", S_, ("      if (self->size_bytes() > 128) {\n        return try_match<const raw_buffer*>(self, op);\n      }", "      if (self->size_bytes() > 128) {\n        return match == 0;\n      }"), expect=["C13"])
M("m13-binary-b", S_, ("    if (!try_match(ex->a, op->a)) return;\n    if (!try_match(ex->b, op->b)) return;", "    if (!try_match(ex->a, op->a)) return;\n    if (!try_match(ex->b, op->a)) return;"), expect=["C13"])
M("m13-early", S_, ("    if (!try_match(ls->sym, op->sym)) return;\n    if (!try_match(ls->max_workers, op->max_workers)) return;", "    if (!try_match(ls->sym, op->sym)) return;\n    if (ls->max_workers.same_as(op->max_workers)) return;\n    if (!try_match(ls->max_workers, op->max_workers)) return;"), expect=["C13"])
# refactorings
M("m13-r-and", S_, ("    if (!try_match(se->condition, op->condition)) return;\n    if (!try_match(se->true_value, op->true_value)) return;\n    if (!try_match(se->false_value, op->false_value)) return;", "    (void)(try_match(se->condition, op->condition) && try_match(se->true_value, op->true_value) &&\n           try_match(se->false_value, op->false_value));"), expect=[])
M("m13-r-rev", S_, ("    if (!try_match(cbs->bounds, op->bounds)) return;\n    if (!try_match(cbs->body, op->body)) return;", "    if (!try_match(cbs->body, op->body)) return;\n    if (!try_match(cbs->bounds, op->bounds)) return;"), expect=[])
M("m13-r-cont", S_, ("    if (!try_match(self.size(), op.size())) return false;\n    for (std::size_t i = 0; i < self.size(); ++i) {\n      if (!try_match(self[i], op[i])) return false;\n    }\n\n    return true;", "    const std::size_t n = self.size();\n    if (!try_match(n, op.size())) return false;\n    for (std::size_t i = 0; i < n; ++i) {\n      if (!try_match(self[i], op[i])) break;\n    }\n    return match == 0;"), expect=[])
M("m13-r-iter", S_, ("    if (!try_match(self.size(), op.size())) return false;\n    for (std::size_t i = 0; i < self.size(); ++i) {\n      if (!try_match(self[i], op[i])) return false;\n    }\n\n    return true;", "    if (!try_match(self.size(), op.size())) return false;\n    auto j = op.begin();\n    for (const auto& i : self) {\n      if (!try_match(i, *j++)) return false;\n    }\n\n    return true;"), expect=[])
M("m13-r-helper", S_, ("    if (cs->target && op->target) {\n      // If std::function-s are defined we can't compare the functions, compare the pointers instead.\n      if (!try_match(cs, op)) return;\n    } else {\n      if (!try_match(!cs->target, !op->target)) return;\n    }", "    match_fn(cs, cs->target, op, op->target);\n  }\n\n  template <typename T, typename F>\n  void match_fn(const T* a, const F& fa, const T* b, const F& fb) {\n    const bool both = fa && fb;\n    if (both) {\n      try_match(a, b);\n    } else {\n      try_match(!fa, !fb);\n    }"), expect=[])
M("m13-r-sign", S_, ("    if (self < op) {\n      match = -1;\n    } else if (op < self) {\n      match = 1;\n    }\n    return match == 0;", "    match = self < op ? -1 : op < self ? 1 : 0;\n    return match == 0;"), expect=[])
M("m13-r-eq", S_, ("    if (self < op) {\n      match = -1;\n    } else if (op < self) {\n      match = 1;\n    }\n    return match == 0;", "    if (self == op) return true;\n    match = self < op ? -1 : 1;\n    return false;"), expect=[])
