SR = "builder/simplify_rules.h"
SE = "builder/simplify_exprs.cc"
RW = "builder/rewrite.h"
FORMS = EVAL + r'''
int main() {
  node_context ctx;
  var x(ctx, "x"), y(ctx, "y");
  expr ex(x), ey(y);
  std::vector<expr> forms;
  for (index_t i = -5; i <= 5; ++i) for (index_t j = -5; j <= 5; ++j) {
    expr c(i), d(j);
FORMS
  }
  for (const expr& e : forms) {
    expr s = simplify(e);
    for (index_t xv = -12; xv <= 12; ++xv) for (index_t yv = -12; yv <= 12; ++yv) {
      CHECK(value(e, {{x, xv}, {y, yv}}) == value(s, {{x, xv}, {y, yv}}));
    }
  }
  return 0;
}
'''
def F_(*fs):
    return FORMS.replace("FORMS", "\n".join("    forms.push_back(%s);" % f for f in fs))
S("c27-select-bound", "C27", [(SR, "select(c0 < x, c1, min(y, x + c2)), c1 <= c0 + c2) ||", "select(c0 < x, c1, min(y, x + c2)), c1 <= c0 + c2 + 2) ||")],
  "min of a variable and a select on that variable whose branches are constants two apart from the bound", "the predicate of a rule admits one constant too many",
  F_("min(ex + 2, select(c < ex, d, ey))", "min(ex, select(c < ex, d, ey))", "min(ex - 1, select(c < ex, d, ey))"))
S("c27-less-both", "C27", [(SR, "apply(x < y + may_be<0>(c0) && y < x + may_be<0>(c1), false, c1 + c0 < 2)", "apply(x < y + may_be<0>(c0) && y < x + may_be<0>(c1), false, c1 + c0 < 3)")],
  "two strict comparisons between the same variables that leave exactly one difference", "the one difference that satisfies both is excluded",
  F_("ex < ey + c && ey < ex + d"))
