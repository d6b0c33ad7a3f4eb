# C27
SR = "builder/simplify_rules.h"
SE = "builder/simplify_exprs.cc"
RW = "builder/rewrite.h"
ZC = "builder/simplify.cc"
M("m27-pred", SE, (SR, "max(z, x + may_be<0>(c2))), \n        max(x + c2, min(z, y + c1)), eval(c0 + c1 == c2)) ||\n      apply(min(x, min(y,", "max(z, x + may_be<0>(c2))), \n        max(x + c2, min(z, y + c1)), eval(c0 + c1 <= c2)) ||\n      apply(min(x, min(y,"), expect=["C27"])
M("m27-select", SE, (SR, "select(c0 < x, c1, min(y, x + c2)), c1 <= c0 + c2)", "select(c0 < x, c1, min(y, x + c2)), c1 <= c0 + c2 + 2)"), expect=["C27"])
M("m27-sign", SE, (SR, "max(x, y*eval(c1/c0))*c0, c0 < 0 && c1%c0 == 0,\n        min(y, x*eval(c0/c1))*c1, c1 > 0", "min(x, y*eval(c1/c0))*c0, c0 < 0 && c1%c0 == 0,\n        min(y, x*eval(c0/c1))*c1, c1 > 0"), expect=["C27"])
M("m27-fold-sub", SE, ("return simplify(static_cast<add*>(nullptr), a, -*cb);", "return simplify(static_cast<add*>(nullptr), a, *cb);"), expect=["C27"])
M("m27-fold-or", SE, ("return *cb ? true : boolean(a);", "return *cb ? true : a;"), expect=["C27"])
M("m27-same", SE, ("} else if (op && c.same_as(op->condition) && t.same_as(op->true_value) && f.same_as(op->false_value)) {", "} else if (op && c.same_as(op->condition) && t.same_as(op->true_value)) {"), expect=["C27"])
M("m27-le", SE, ("simplify(static_cast<const less*>(nullptr), std::move(b), std::move(a)));", "simplify(static_cast<const less*>(nullptr), std::move(a), std::move(b)));"), expect=["C27"])
M("m27-mask", SE, (RW, "           match<matched | pattern_info<C>::matched | pattern_info<T>::matched>(p.f, s->false_value, ctx);", "           match<matched | pattern_info<C>::matched>(p.f, s->false_value, ctx);"), expect=["C27"])
M("m27-default", SE, (RW, "return match<matched>(p.a, x, ctx) && match<matched | pattern_info<A>::matched>(p.b, constant::get(DefaultB), ctx);", "return match<matched>(p.a, x, ctx);"), expect=["C27"])
M("m27-stair", SE, (RW, "index_t a = std::abs(b) - 1 - *ac;", "index_t a = b - 1 - *ac;"), expect=["C27"])
M("m27-stair3", SE, (RW, "  } else if (!match<matched>(p.c, 1, ctx)) {", "  } else if (!match<matched>(p.c, 0, ctx)) {"), expect=["C27"])
M("m27-subst-div", SE, (RW, "  if (is_zero(b)) return 0;\n", "  if (is_zero(b)) return a;\n"), expect=["C27"])
M("m27-subst-mod", SE, (RW, "  if (is_one(b)) return 0;\n  return make_binary<mod>", "  if (is_one(b)) return a;\n  return make_binary<mod>"), expect=["C27"])
M("m27-next", SE, (RW, "    if (overflowed) return false;\n    if (applies)", "    if (applies && !overflowed)"), expect=["C27"])
M("m27-commute", SE, ("runtime/expr.h", "DECLARE_BINARY_OP(mod, false)", "DECLARE_BINARY_OP(mod, true)"), expect=["C27"])
M("m27-wild", SE, (RW, "  if (matched & (1 << N)) {\n    return slinky::match(x.get(), ctx.vars[N]);", "  if (matched & N) {\n    return slinky::match(x.get(), ctx.vars[N]);"), expect=["C27"])
# refactorings
M("m27-r-match", SE, (RW, "  return match_binary<matched>(p, x.a.e, x.b.e, ctx);", "  const auto a = x.a.e;\n  const auto b = x.b.e;\n  return match_binary<matched>(p, a, b, ctx);"), expect=[])
M("m27-r-fold", SE, ("  auto ca = as_constant(a);\n  auto cb = as_constant(b);\n  if (ca && cb) {\n    return *ca == *cb;\n  }", "  const auto ca = as_constant(a);\n  if (ca) {\n    if (auto cb = as_constant(b)) return *cb == *ca;\n  }"), expect=[])
M("m27-r-rule", SE, (SR, "select(c0 < x, c1, min(y, x + c2)), c1 <= c0 + c2)", "select(c0 < x, c1, min(x + c2, y)), c0 + c2 >= c1)"), expect=[])
M("m27-r-rule2", SE, (SR, "      apply(min(x, min(y, x + may_be<0>(c0)) + may_be<0>(c1)),\n        min(x, y + c1), c0 + c1 >= 0,\n        min(y, x + c0) + c1 /*c0 + c1 < 0*/) ||", "      apply(min(x, min(y, x + may_be<0>(c0)) + may_be<0>(c1)),\n        min(y, x + c0) + c1, c0 + c1 < 0,\n        min(x, y + c1)) ||"), expect=[])
M("m27-r-stair", SE, (RW, "  constexpr int matched_c = matched | pattern_info<C>::matched;\n  constexpr int matched_cb = matched_c | pattern_info<B>::matched;", "  constexpr int matched_c = matched | pattern_info<C>::matched;\n  constexpr int matched_cb = pattern_info<B>::matched | matched_c;"), expect=[])
M("m27-r-select", SE, (RW, "    return match<matched>(p.c, s->condition, ctx) &&\n           match<matched | pattern_info<C>::matched>(p.t, s->true_value, ctx) &&\n           match<matched | pattern_info<C>::matched | pattern_info<T>::matched>(p.f, s->false_value, ctx);", "    if (!match<matched>(p.c, s->condition, ctx)) return false;\n    constexpr int seen = matched | pattern_info<C>::matched;\n    if (!match<seen>(p.t, s->true_value, ctx)) return false;\n    return match<seen | pattern_info<T>::matched>(p.f, s->false_value, ctx);"), expect=[])
M("m27-r-subst", SE, (RW, "  if (is_zero(a) || is_one(b)) return a;\n  if (is_zero(b)) return 0;\n  if (is_one(b)) return a;\n", "  if (is_zero(b)) return b;\n  if (is_one(b)) return a;\n  if (is_zero(a)) return a;\n"), expect=[])
