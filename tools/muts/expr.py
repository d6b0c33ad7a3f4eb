V_ = "runtime/evaluate.cc"; H_ = "runtime/expr.h"; X_ = "runtime/expr_stmt.cc"


def ME(prop, name, f, old, new, ok=False):
    M("m11-" + name.replace(" ", "-"), V_ if f != X_ else X_, (f, old, new), expect=[] if ok else [prop])


ME("C11", "logical and bitwise", H_, "return a && b ? 1 : 0;", "return a & b ? 1 : 0;")
ME("C11", "logical or value", H_, "return a || b ? 1 : 0;", "return a | b;")
ME("C11", "select value", V_, "return eval(eval(op->condition) ? op->true_value : op->false_value);", "return eval(eval(op->condition) > 0 ? op->true_value : op->false_value);")
ME("C11", "select both", V_, "return eval(eval(op->condition) ? op->true_value : op->false_value);", "index_t t = eval(op->true_value), f = eval(op->false_value); return eval(op->condition) ? t : f;")
ME("C11", "not", V_, "{ return eval(op->a) == 0; }", "{ return eval(op->a) <= 0; }")
ME("C11", "and_then all", V_, "      if (!x && op->intrinsic == intrinsic::and_then) {\n        return false;", "      if (x < 0 && op->intrinsic == intrinsic::and_then) {\n        return false;")
ME("C11", "field dim", V_, "buf->dim(op->dim).stride();", "buf->dims[op->dim].stride();")
ME("C11", "field max", V_, "buf->dim(op->dim).max();", "buf->dim(op->dim).min() + buf->dim(op->dim).extent() - 1;")
ME("C11", "at null", V_, "if (result && buf->dims[d].contains(at)) {", "if (result) {")
ME("C11", "at skip", V_, "          result = nullptr;\n        }\n      }\n    }\n    return result;", "          result = buf->base;\n        }\n      }\n    }\n    return result;")
ME("C11", "let order", V_, "      old_values[i] = context.set(let.first, eval(let.second));\n    }\n    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      context.set(op->lets[i].first, old_values[i]);", "      old_values[i] = context.set(let.first, eval(op->lets[size - 1 - i].second));\n    }\n    index_t result = eval(op->body);\n    // Restore in reverse order, the same symbol may have been defined more than once.\n    for (size_t i = size; i-- > 0;) {\n      context.set(op->lets[i].first, old_values[i]);")
ME("C11", "less_equal", H_, "make_binary<less_equal>(index_t a, index_t b) { return a <= b ? 1 : 0; }", "make_binary<less_equal>(index_t a, index_t b) { return a - 1 < b ? 1 : 0; }", ok=True)
ME("C11", "div trunc", H_, "return euclidean_div(a, b); }", "return b ? a / b : 0; }")
ME("C11", "swap any", X_, "if (T::commutative && should_commute(a, b)) {", "if (should_commute(a, b)) {")
ME("C11", "clamp", X_, "  if (b.defined()) x = min::make(std::move(x), std::move(b));\n  if (a.defined()) x = max::make(std::move(x), std::move(a));", "  if (a.defined()) x = max::make(std::move(x), std::move(a));\n  if (b.defined()) x = min::make(std::move(x), std::move(b));")
ME("C11", "align up", X_, "return ((std::move(x) + a - 1) / a) * a; }", "return (std::move(x) / a + 1) * a; }")
ME("C11", "minus eq", X_, "*this = *this - std::move(r);", "*this = std::move(r) - *this;")
ME("C11", "fold factor", X_, "return variable::make(buf, buffer_field::fold_factor, dim); }", "return variable::make(buf, buffer_field::stride, dim); }")
ME("C11", "abs", V_, "return std::abs(eval(op->args[0]));", "return std::max<index_t>(eval(op->args[0]), 0);")
ME("C11", "refactor select", V_, "return eval(eval(op->condition) ? op->true_value : op->false_value); }", "if (eval(op->condition) == 0) { return eval(op->false_value); } return eval(op->true_value); }", ok=True)
ME("C11", "refactor gt", X_, "expr operator>(expr a, expr b) { return less::make(std::move(b), std::move(a)); }", "expr operator>(expr a, expr b) { return !(std::move(a) <= std::move(b)); }", ok=True)
ME("C11", "refactor at", V_, "        if (result && buf->dims[d].contains(at)) {\n          result = offset_bytes_non_null(result, buf->dims[d].flat_offset_bytes(at));\n        } else {\n          result = nullptr;\n        }", "        const dim& dim_d = buf->dims[d];\n        result = result && dim_d.contains(at) ? offset_bytes_non_null(result, dim_d.flat_offset_bytes(at)) : nullptr;", ok=True)
ME("C11", "refactor sc", V_, "      if (!x && op->intrinsic == intrinsic::and_then) {\n        return false;\n      } else if (x && op->intrinsic == intrinsic::or_else) {\n        return true;\n      }\n    }\n    return op->intrinsic == intrinsic::and_then;", "      const bool is_and = op->intrinsic == intrinsic::and_then;\n      if ((x != 0) != is_and) return !is_and;\n    }\n    return op->intrinsic == intrinsic::and_then;", ok=True)
ME("C11", "refactor bin", V_, "    index_t a = eval(op->a);\n    index_t b = eval(op->b);", "    const index_t a = eval(op->a), b = eval(op->b);", ok=True)
