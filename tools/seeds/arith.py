A_, R_, Z_, X_ = "slinky/base/arithmetic.h".replace("slinky/", ""), "base/modulus_remainder.h", "builder/simplify.cc", "runtime/expr_stmt.cc"
S("c16-pow2", "C16", [(A_, "  return x > 0 && (x & (x - 1)) == 0;", "  return x >= 0 && (x & (x - 1)) == 0;")],
  "zero", "zero is said to be a power of two",
  r'''
int main() {
  CHECK(!is_power_of_two<std::int64_t>(0));
  CHECK(is_power_of_two<std::int64_t>(1));
  CHECK(!is_power_of_two<std::int64_t>(-4));
  return 0;
}
''')
S("c17-div-varying", "C17", [(R_, "  if (b.modulus == 0 && b.remainder != 0) {\n    if (", "  if (b.remainder != 0) {\n    if (")],
  "a quotient whose divisor is not constant", "an alignment is derived as if the divisor were its remainder",
  r'''
int main() {
  modulus_remainder<std::int64_t> a(8, 3), b(6, 2);
  auto p = a / b;
  for (int i = -4; i < 5; ++i) for (int j = -4; j < 5; ++j) {
    std::int64_t v = euclidean_div<std::int64_t>(8 * i + 3, 6 * j + 2);
    CHECK(p.modulus == 1 || (p.modulus != 0 && euclidean_mod(v - p.remainder, p.modulus) == 0));
  }
  return 0;
}
''')
S("c17-mod-rem", "C17", [(R_, "  modulus = gcd(modulus, b.remainder);\n", "  if (b.modulus == 0) modulus = gcd(modulus, b.remainder);\n")],
  "a value modulo one that varies, both aligned to the same modulus", "the remainder of the divisor is forgotten, and the result is said to be aligned as the dividend is",
  r'''
int main() {
  modulus_remainder<std::int64_t> a(6, 5), b(6, 2);
  auto p = a % b;
  for (int i = -4; i < 5; ++i) for (int j = -4; j < 5; ++j) {
    std::int64_t v = euclidean_mod<std::int64_t>(6 * i + 5, 6 * j + 2);
    CHECK(p.modulus == 1 || (p.modulus != 0 && euclidean_mod(v - p.remainder, p.modulus) == 0));
  }
  return 0;
}
''')
EVAL = r'''
[[maybe_unused]] index_t value(const expr& e, std::vector<std::pair<var, index_t>> vs) {
  eval_config cfg; eval_context ec; ec.config = &cfg;
  for (auto& i : vs) ec[i.first] = i.second;
  return evaluate(e, ec);
}
'''
S("c18-iv-negative", "C18", [(X_, "  } else if (is_negative(scale)) {\n    std::swap(min, max);\n    if (min.defined()) min = mul", "  } else if (is_negative(scale)) {\n    if (min.defined()) min = mul")],
  "an interval scaled by a negative constant", "the ends are not exchanged, and the interval is empty",
  EVAL + r'''
int main() {
  interval_expr i(2, 5);
  i *= expr(-3);
  CHECK(value(i.min, {}) == -15 && value(i.max, {}) == -6);
  return 0;
}
''')
S("c18-abs-positive", "C18", [(X_, "    assert(c->args.size() == 1);\n    return is_positive(c->args[0]);", "    assert(c->args.size() == 1);\n    return true;")],
  "the absolute value of something that may be zero", "it is said to be positive",
  EVAL + r'''
int main() {
  node_context ctx;
  var x(ctx, "x");
  CHECK(!is_positive(abs(expr(x))));
  CHECK(is_non_negative(abs(expr(x))));
  return 0;
}
''')
GRID = EVAL + r'''
int main() {
  node_context ctx;
  var x(ctx, "x"), y(ctx, "y"), z(ctx, "z");
  expr ex(x), ey(y), ez(z);
  std::vector<expr> conds = {CONDS};
  std::vector<expr> vals = {ex, max(ex, ey), min(ex, ey), max(ex, 3), min(ex, 3), max(ex, 4), min(ex, 4), ex % 4, (ex % 4) * ez, ex / 4, ez, expr(ez != 0), expr(ey < ex), expr(ey <= ex), expr(ex < ey), expr(ex <= ey), expr(ex == ey), expr(ex < 4), expr(ex <= 4), expr(ez < ey)};
  for (const expr& c : conds) for (const expr& t : vals) for (const expr& f : vals) {
    expr e = select(c, t, f);
    expr s = simplify(e);
    for (index_t xv = -1; xv < 6; ++xv) for (index_t yv = -1; yv < 5; ++yv) for (index_t zv = -1; zv < 3; ++zv) {
      CHECK(value(e, {{x, xv}, {y, yv}, {z, zv}}) == value(s, {{x, xv}, {y, yv}, {z, zv}}));
    }
  }
  return 0;
}
'''
S("c26-alignment", "C26", [(Z_, "              add_var_info(v, {}, {*m, *r});", "              add_var_info(v, {}, {*m * 2, *r});")],
  "a select on a remainder, whose branch depends on a multiple of the modulus", "the variable is assumed to be aligned to twice the modulus",
  GRID.replace("CONDS", "ex % 2 == 1, ex % 4 == 2, ex % 2 == 0"))
S("c26-eq-fact", "C26", [(Z_, "facts.push_back({a == b, true});", "facts.push_back({a != b, true});")],
  "a select on the equality of two expressions that are not variables, whose branch compares them again", "the opposite of the condition is assumed",
  GRID.replace("CONDS", "ex + ey == ez * 2, abs(ex - ez) == ey").replace("std::vector<expr> vals = {", "std::vector<expr> vals = {expr(abs(ex - ez) != ey), expr(ex + ey != ez * 2), expr(ex + ey == ez * 2), "))
S("c26-mod-point", "C26", [(Z_, "          if (auto m = as_constant(md->b)) {\n            if (auto r = as_constant(b)) {\n              add_var_info(v, {}, {*m, *r});", "          if (auto m = as_constant(md->b)) {\n            if (auto r = as_constant(b)) {\n              if (*r != 0) add_var_info(v, {expr(*r), expr()}, {*m, *r}); else add_var_info(v, {}, {*m, *r});")],
  "a select on a remainder that is not zero, of a value that may be negative", "the value is assumed to be at least the remainder",
  GRID.replace("CONDS", "ex % 4 == 3, ex % 2 == 1").replace("std::vector<expr> vals = {", "std::vector<expr> vals = {max(ex, 1), expr(ex < 1), "))
