A_ = "base/arithmetic.h"
R_ = "base/modulus_remainder.h"
Z_ = "builder/simplify.cc"
X_ = "runtime/expr_stmt.cc"
AU = "builder/simplify.cc"
# C16
M("m16-minneg", AU, (A_, "  if (std::is_signed_v<T> && b == static_cast<T>(-1)) {\n    // a % b traps on some targets if a is the minimum value of T.\n    return 0;\n  }\n  T r", "  T r"), expect=["C16"])
M("m16-mod-neg", AU, (A_, "return r >= 0 ? r : (b < 0 ? r - b : r + b);", "return r >= 0 ? r : r + b;"), expect=["C16"])
M("m16-div-adj", AU, (A_, "return q - (rs & bs) + (rs & ~bs);", "return q + (rs & ~bs);"), expect=["C16"])
M("m16-sat", AU, (A_, "(a >> 1) - (b >> 1) > 0", "(a >> 1) + (b >> 1) > 0"), expect=["C16"])
M("m16-mulsat", AU, (A_, "sign(a) * sign(b) > 0 ?", "sign(a) + sign(b) > 0 ?"), expect=["C16"])
M("m16-round", AU, (A_, "floor_div(a + (b >> 1), b)", "floor_div(a + b - 1, b)"), expect=["C16"])
M("m16-r-div", AU, (A_, "  T q = a / b;\n  T r = a % b;\n  // Get the sign of b and r (-1 or 0).\n  T bs = b >> (sizeof(T) * 8 - 1);\n  T rs = r >> (sizeof(T) * 8 - 1);\n  // Adjust the result (which is rounded towards 0) to be rounded down.\n  return q - (rs & bs) + (rs & ~bs);", "  T q = a / b;\n  T r = a - q * b;\n  if (r >= 0) return q;\n  return b < 0 ? q + 1 : q - 1;"), expect=[])
M("m16-r-mod", AU, (A_, "return r >= 0 ? r : (b < 0 ? r - b : r + b);", "if (r < 0) {\n    if (b < 0) r -= b; else r += b;\n  }\n  return r;"), expect=[])
M("m16-r-sat", AU, (A_, "    return (a >> 1) + (b >> 1) > 0 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();", "    return a > 0 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();"), expect=[])
# C17
M("m17-add", AU, (R_, "  if (!add_with_overflow(a.remainder, b.remainder, r)) {\n    m = gcd(a.modulus, b.modulus);", "  if (!add_with_overflow(a.remainder, b.remainder, r)) {\n    m = std::max(a.modulus, b.modulus);"), expect=["C17"])
M("m17-mul", AU, (R_, "    T g = gcd(b.modulus, b.remainder);\n", "    T g = b.modulus;\n"), expect=["C17"])
M("m17-or", AU, (R_, "  modulus = gcd(diff, modulus);\n", "  modulus = gcd(a.remainder, modulus);\n"), expect=["C17"])
M("m17-mod", AU, (R_, "  modulus = gcd(modulus, b.remainder);\n", ""), expect=["C17"])
M("m17-mod0", AU, (R_, "    if (modulus == 0) {\n      remainder = 0;\n    } else {\n      // This can no longer be expressed as ax + b\n      remainder = 0;\n      modulus = 1;\n    }", "    remainder = 0;"), expect=["C17"])
M("m17-div", AU, (R_, "  if (b.modulus == 0 && b.remainder != 0) {\n    if ((euclidean_mod(a.modulus, b.remainder, a.modulus)) == 0) {", "  if (b.modulus == 0 && b.remainder != 0) {\n    if (euclidean_mod(a.remainder, b.remainder, a.remainder) == 0) {"), expect=["C17"])
M("m17-r-or", AU, (R_, "  T diff = a.remainder - b.remainder;\n\n  modulus = gcd(diff, modulus);", "  modulus = gcd(r, modulus);"), expect=[])
M("m17-r-mul", AU, (R_, "    // multiple times multiple\n    if (!mul_with_overflow(a.modulus, b.modulus, m)) {\n      return {m, 0};\n    }", "    // multiple times multiple\n    if (mul_with_overflow(a.modulus, b.modulus, m)) return modulus_remainder<T>{};\n    r = 0;\n    return {m, r};"), expect=[])
# C18
M("m18-mod-up", Z_, ("expr equiv = max(0, max(-op->b, op->b) - 1);", "expr equiv = max(0, op->b - 1);"), expect=["C18"])
M("m18-sub", Z_, ("mutate(op->b, -sign)); }\n\n  static", "mutate(op->b, sign)); }\n\n  static"), expect=["C18"])
M("m18-or-sign", Z_, ("visit_logical_and_or(op, std::max(sign, 0));", "visit_logical_and_or(op, sign);"), expect=[])
M("m18-less", Z_, ("    expr a = mutate(op->a, -sign);\n    expr b = mutate(op->b);\n", "    expr a = mutate(op->a);\n    expr b = mutate(op->b);\n"), expect=["C18"])
M("m18-min-const", Z_, ("visit_min_max(op, /*take_constant=*/sign > 0);", "visit_min_max(op, /*take_constant=*/sign != 0);"), expect=["C18"])
M("m18-select", Z_, ("    if (sign < 0 && ct && cf) {", "    if (sign <= 0 && ct && cf) {"), expect=["C18"])
M("m18-mul-sign", Z_, ("set_binary_result(op, mutate(op->a, sign * sign_b), std::move(b));", "set_binary_result(op, mutate(op->a, sign), std::move(b));"), expect=["C18"])
M("m18-div-num", Z_, ("if (std::is_same<T, mul>::value && sign_a != 0) {", "if (sign_a != 0) {"), expect=["C18"])
M("m18-bool", Z_, ("strip_boolean(mutate(x, is_boolean(x) ? sign : 0))", "strip_boolean(mutate(x, sign))"), expect=["C18"])
M("m18-const-true", Z_, ("return b && *b < 0;", "return b && *b <= 0;"), expect=["C18"])
M("m18-const-false", Z_, ("return *a == 0 && *b == 0;", "return *a == 0 || *b == 0;"), expect=["C18"])
M("m18-iv-union", X_, ("  min = (min.defined() && r.min.defined()) ? slinky::min(std::move(min), std::move(r.min)) : expr();", "  min = min.defined() ? (r.min.defined() ? slinky::min(std::move(min), std::move(r.min)) : std::move(min)) : std::move(r.min);"), expect=["C18"])
M("m18-iv-mulneg", X_, ("  } else if (is_negative(scale)) {\n    std::swap(min, max);\n    if (min.defined()) min = mul", "  } else if (is_negative(scale)) {\n    if (min.defined()) min = mul"), expect=["C18"])
M("m18-iv-neg", X_, ("return {max.defined() ? -max : expr(), min.defined() ? -min : expr()};", "return {min.defined() ? -min : expr(), max.defined() ? -max : expr()};"), expect=["C18"])
M("m18-iv-align", X_, ("return {align_down(std::move(x.min), a), align_up(std::move(x.max) + 1, a) - 1};", "return {align_down(std::move(x.min), a), align_up(std::move(x.max), a) - 1};"), expect=["C18"])
M("m18-nonneg", X_, ("  return c ? *c >= 0 : false;", "  return c ? *c >= -1 : false;"), expect=["C18"])
M("m18-positive-abs", X_, ("    assert(c->args.size() == 1);\n    return is_positive(c->args[0]);", "    assert(c->args.size() == 1);\n    return true;"), expect=["C18"])
M("m18-r-const", Z_, ("    std::optional<index_t> a = as_constant(constant_lower_bound(e));\n    if (!a) return false;\n    std::optional<index_t> b = as_constant(constant_upper_bound(e));\n    if (!b) return false;\n    return *a == 0 && *b == 0;", "    const auto lo = as_constant(constant_lower_bound(e));\n    const auto hi = as_constant(constant_upper_bound(e));\n    return lo && hi && *lo == 0 && *lo == *hi;"), expect=[])
M("m18-r-iv", X_, ("  } else if (is_negative(scale)) {\n    std::swap(min, max);\n    if (min.defined()) min = mul::make(min, scale);\n    if (max.defined()) max = mul::make(max, scale);\n  } else {\n    if (min.defined()) min = mul", "  } else if (is_negative(scale)) {\n    expr lo = max.defined() ? mul::make(max, scale) : expr();\n    expr hi = min.defined() ? mul::make(min, scale) : expr();\n    min = std::move(lo);\n    max = std::move(hi);\n  } else {\n    if (min.defined()) min = mul"), expect=[])
M("m18-r-or", X_, ("  min = (min.defined() && r.min.defined()) ? slinky::min(std::move(min), std::move(r.min)) : expr();", "  if (!min.defined() || !r.min.defined()) {\n    min = expr();\n  } else {\n    min = slinky::min(min, r.min);\n  }"), expect=[])
M("m18-r-sub", Z_, ("void visit(const sub* op) override { set_binary_result(op, mutate(op->a), mutate(op->b, -sign)); }\n\n  static", "void visit(const sub* op) override {\n    expr b = mutate(op->b, -sign);\n    expr a = mutate(op->a);\n    set_binary_result(op, std::move(a), std::move(b));\n  }\n\n  static"), expect=[])
M("m18-r-negmod", Z_, ("expr equiv = max(0, max(-op->b, op->b) - 1);", "expr equiv = max(max(op->b, 0 - op->b) - 1, 0);"), expect=[])

# C26
M("m26-less-const", Z_, ("if (av) add_var_info(av, {expr(), simplify(static_cast<const add*>(nullptr), b, -1)});", "if (av) add_var_info(av, {expr(), simplify(static_cast<const add*>(nullptr), b, -2)});"), expect=["C26"])
M("m26-less-side", Z_, ("if (bv) add_var_info(bv, {simplify(static_cast<const add*>(nullptr), a, 1), expr()});", "if (bv) add_var_info(bv, {expr(), simplify(static_cast<const add*>(nullptr), a, 1)});"), expect=["C26"])
M("m26-or", Z_, ("      if (const logical_and* a = c.as<logical_and>()) {\n        learn_from_true(a->a);", "      if (const logical_or* a = c.as<logical_or>()) {\n        learn_from_true(a->a);"), expect=["C26"])
M("m26-false-le", Z_, ("        learn_from_less(lt->b, lt->a);\n      } else if (const not_equal* ne", "        learn_from_less_equal(lt->a, lt->b);\n      } else if (const not_equal* ne"), expect=["C26"])
M("m26-false-lt", Z_, ("        learn_from_less_equal(lt->b, lt->a);\n", "        learn_from_less(lt->b, lt->a);\n"), expect=["C26"])
M("m26-nonbool", Z_, ("} else if (!as_constant(c) && is_boolean(c)) {", "} else if (!as_constant(c)) {"), expect=["C26"])
M("m26-mod2", Z_, ("add_var_info(v, {}, {*m, *r});", "add_var_info(v, {}, {*r, *m});"), expect=["C26"])
M("m26-eqfact", Z_, ("facts.push_back({a == b, true});", "facts.push_back({a != b, true});"), expect=["C26"])
M("m26-r-split", Z_, ("      if (const variable* v = a.as<variable>()) {\n        add_var_info(v, point(b));\n      } else if (const mod* md", "      const variable* v = a.as<variable>();\n      if (v != nullptr) {\n        interval_expr eq = {b, b};\n        add_var_info(v, eq);\n      } else if (const mod* md"), expect=[])
M("m26-r-helper", Z_, ("        const variable* av = a.as<variable>();\n        const variable* bv = b.as<variable>();\n        if (av) add_var_info(av, {expr(), b});\n        if (bv) add_var_info(bv, {a, expr()});\n        if (!(av || bv)) {", "        bool known = learn_upper(a, b);\n        known = learn_lower(b, a) || known;\n        if (!known) {"),
  ("    void learn_from_equal(const expr& a, const expr& b) {", "    bool learn_upper(const expr& a, const expr& bound) {\n      const variable* v = a.as<variable>();\n      if (v) add_var_info(v, {expr(), bound});\n      return v != nullptr;\n    }\n    bool learn_lower(const expr& a, const expr& bound) {\n      const variable* v = a.as<variable>();\n      if (v) add_var_info(v, {bound, expr()});\n      return v != nullptr;\n    }\n    void learn_from_equal(const expr& a, const expr& b) {"), expect=[])
M("m26-r-order", Z_, ("      } else if (const less* lt = c.as<less>()) {\n        learn_from_less(lt->a, lt->b);\n      } else if (const less_equal* lt = c.as<less_equal>()) {\n        learn_from_less_equal(lt->a, lt->b);\n      } else if (const equal* eq", "      } else if (const less_equal* le = c.as<less_equal>()) {\n        learn_from_less_equal(le->a, le->b);\n      } else if (const less* lt = c.as<less>()) {\n        learn_from_less(lt->a, lt->b);\n      } else if (const equal* eq"), expect=[])
