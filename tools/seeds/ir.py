D_ = "runtime/depends_on.cc"
U_ = "builder/substitute.cc"
N_ = "builder/node_mutator.cc"
S("c12-second-dim", "C12", [(D_, "    for (std::size_t i = 0; i < op->dst_x.size(); ++i) {\n      if (decl_needs_shadow(op->dst_x[i])) {\n        var_deps.push_back({op->dst_x[i], &dummy_deps});\n      }\n    }", "    for (std::size_t i = 0; i < op->dst_x.size(); ++i) {\n      if (decl_needs_shadow(op->dst_x[i])) {\n        var_deps.push_back({op->dst_x[i], &dummy_deps});\n        break;\n      }\n    }")],
  "a copy with two dimensions that hide symbols asked for", "find_dependencies (or depends_on with several symbols) reports the dimension of a copy as a use of the symbol it hides",
  r'''
int main() {
  node_context ctx;
  var a(ctx, "a"), b(ctx, "b"), x(ctx, "x"), y(ctx, "y");
  stmt s = copy_stmt::make(nullptr, a, {expr(x), expr(y)}, b, {x, y}, var());
  var xy[] = {x, y}, yo[] = {y};
  CHECK(!depends_on(s, span<const var>(yo, 1)).any());
  CHECK(!depends_on(s, span<const var>(xy, 2)).any());
  return 0;
}
''')
S("c12-else-value", "C12", [("runtime/expr_stmt.cc", "  if (op->true_value.defined()) op->true_value.accept(this);\n  if (op->false_value.defined()) op->false_value.accept(this);", "  if (op->true_value.defined()) op->true_value.accept(this);\n  if (op->true_value.defined() && !op->true_value.same_as(op->condition) && op->false_value.defined()) op->false_value.accept(this);")],
  "a select whose condition and true value are the same expression", "the symbols of the false value are not reported",
  r'''
int main() {
  node_context ctx;
  var x(ctx, "x"), y(ctx, "y");
  expr c = expr(x) + 1;
  CHECK(depends_on(select::make(expr(x), expr(x) + 2, expr(y)), y).any());
  CHECK(depends_on(select::make(c, c, expr(y)), y).any());
  return 0;
}
''')
S("c13-fold-factor", "C13", [(U_, "    if (!try_match(self.fold_factor, op.fold_factor)) return false;\n    return true;", "    if (self.fold_factor.defined() && !try_match(self.fold_factor, op.fold_factor)) return false;\n    return true;")],
  "two allocations (or made buffers) that differ only in that the first one does not fold a dimension", "match says that an unfolded and a folded buffer are the same",
  r'''
int main() {
  node_context ctx;
  var b(ctx, "b");
  stmt body = call_stmt::make(nullptr, {}, {b}, {}, {});
  dim_expr d1{{expr(0), expr(9)}, expr(4), expr()}, d2{{expr(0), expr(9)}, expr(4), expr(3)};
  stmt s1 = allocate::make(b, memory_type::heap, 4, {d1}, body), s2 = allocate::make(b, memory_type::heap, 4, {d2}, body);
  CHECK(match(s1, s1) && match(s2, s2));
  CHECK(!match(s2, s1));
  CHECK(!match(s1, s2));
  return 0;
}
''')
S("c13-copy-dst", "C13", [(U_, "    if (!try_match(cs->src_x, op->src_x)) return;\n    if (!try_match(cs->dst, op->dst)) return;\n", "    if (!try_match(cs->src_x, op->src_x)) return;\n    if (cs->src != op->dst && !try_match(cs->dst, op->dst)) return;\n")],
  "two copies from the same buffer, one of which writes to the buffer it reads", "match says that a copy to another buffer and a copy in place are the same",
  r'''
int main() {
  node_context ctx;
  var a(ctx, "a"), b(ctx, "b"), c(ctx, "c"), x(ctx, "x");
  auto mk = [&](var src, var dst) { return copy_stmt::make(nullptr, src, {expr(x)}, dst, {x}, var()); };
  CHECK(match(mk(a, b), mk(a, b)));
  CHECK(!match(mk(a, b), mk(a, c)));
  CHECK(!match(mk(a, b), mk(a, a)));
  return 0;
}
''')
S("c14-step-only", "C14", [(N_, "  if (bounds.same_as(op->bounds) && step.same_as(op->step) && max_workers.same_as(op->max_workers) &&\n      body.same_as(op->body)) {", "  if (bounds.same_as(op->bounds) && max_workers.same_as(op->max_workers) && body.same_as(op->body)) {")],
  "a rewriting pass that changes only the step of a loop", "the new step is thrown away and the old loop is kept",
  r'''
class m : public node_mutator {
public:
  var from, to;
  m(var f, var t) : from(f), to(t) {}
  void visit(const variable* op) override { set_result(op->sym == from ? variable::make(to) : expr(op)); }
  using node_mutator::visit;
};
int main() {
  node_context ctx;
  var x(ctx, "x"), s(ctx, "s"), t(ctx, "t");
  stmt body = call_stmt::make(nullptr, {}, {}, {}, {});
  stmt l = loop::make(x, loop::serial, {expr(0), expr(9)}, expr(s), body);
  stmt r = m(s, t).mutate(l);
  CHECK(match(r.as<loop>()->step, expr(t)));
  stmt l2 = loop::make(x, loop::serial, {expr(s), expr(9)}, expr(s), body);
  CHECK(match(m(s, t).mutate(l2).as<loop>()->step, expr(t)));
  return 0;
}
''')
S("c14-slice-hidden", "C14", [(U_, "  expr at = mutate(op->at);\n  var sym = enter_decl(op->sym);\n  stmt body", "  var sym = enter_decl(op->sym);\n  expr at = sym.defined() ? mutate(op->at) : op->at;\n  stmt body")],
  "a slice_dim of a buffer under the name of the symbol that is being substituted, sliced at an expression that uses the symbol", "the slice is still at the old position",
  r'''
int main() {
  node_context ctx;
  var a(ctx, "a"), x(ctx, "x"), y(ctx, "y");
  stmt body = call_stmt::make(nullptr, {x}, {}, {}, {});
  stmt s = slice_dim::make(x, a, 0, expr(x) + 1, body);
  stmt r = substitute(s, x, variable::make(y));
  CHECK(match(r.as<slice_dim>()->at, expr(y) + 1));
  CHECK(r.as<slice_dim>()->sym == x && match(r.as<slice_dim>()->body, body));
  return 0;
}
''')
S("c14-let-values", "C14", [(N_, "    lets.emplace_back(s.first, this_->mutate(s.second));\n    changed = changed || !lets.back().second.same_as(s.second);\n  }", "    lets.emplace_back(s.first, this_->mutate(s.second));\n    changed = !lets.back().second.same_as(s.second);\n  }")],
  "a let with several values, where a rewriting pass changes one that is not the last, and nothing in the body", "the new value is thrown away",
  r'''
class m : public node_mutator {
public:
  var from, to;
  m(var f, var t) : from(f), to(t) {}
  void visit(const variable* op) override { set_result(op->sym == from ? variable::make(to) : expr(op)); }
  using node_mutator::visit;
};
int main() {
  node_context ctx;
  var x(ctx, "x"), y(ctx, "y"), s(ctx, "s"), t(ctx, "t");
  expr l = let::make({{x, expr(s)}, {y, expr(3)}}, expr(x) + expr(y));
  expr r = m(s, t).mutate(l);
  CHECK(match(r.as<let>()->lets[0].second, expr(t)));
  return 0;
}
''')
