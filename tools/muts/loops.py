E_ = "runtime/evaluate.cc"
M("l21-neg", E_, ("std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step))", "ceil_div(bounds.max - bounds.min + 1, step)"), expect=["C21"])
M("l21-count", E_, ("ceil_div(bounds.max - bounds.min + 1, step)", "ceil_div(bounds.max - bounds.min, step)"), expect=["C21"])
M("l21-floor", E_, ("ceil_div(bounds.max - bounds.min + 1, step)", "floor_div(bounds.max - bounds.min + 1, step)"), expect=["C21"])
M("l21-value", E_, ("i * state.step + state.min", "i * state.step"), expect=["C21"])
M("l21-value2", E_, ("i * state.step + state.min", "i + state.min"), expect=["C21"])
M("l21-swap", E_, ("shared_state state = {context, step, bounds.min, op->sym, body, closure};", "shared_state state = {context, bounds.min, step, op->sym, body, closure};"), expect=["C21"])
M("l21-single", E_, ("return eval_with_value(op->body, op->sym, bounds.min);", "return eval_with_value(op->body, op->sym, bounds.max);"), expect=["C21"])
M("l21-lt", E_, ("bounds.min <= i && i <= bounds.max;", "bounds.min <= i && i < bounds.max;"), expect=["C21"])
M("l21-step1", E_, ("i <= bounds.max; i += step)", "i <= bounds.max; ++i)"), expect=["C21"])
M("l21-start", E_, ("for (index_t i = bounds.min; result == 0", "for (index_t i = bounds.min + step - 1; result == 0"), expect=["C21"])
M("l21-noupper", E_, ("bounds.min <= i && i <= bounds.max; i += step", "bounds.min <= i; i += step"), expect=["C21"])
M("lR-floor", E_, ("ceil_div(bounds.max - bounds.min + 1, step)", "floor_div(bounds.max - bounds.min, step) + 1"))
M("lR-extent", E_, ("std::size_t n = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));", "const index_t extent = bounds.max - bounds.min + 1;\n    std::size_t n = std::max<index_t>(ceil_div(extent, step), 0);"))
M("lR-cond", E_, ("std::size_t n = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));", "std::size_t n = bounds.max < bounds.min ? 0 : ceil_div(bounds.max - bounds.min + 1, step);"))
M("lR-cond2", E_, ("std::size_t n = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));", "index_t count = ceil_div(bounds.max - bounds.min + 1, step);\n    if (count <= 0) return 0;\n    std::size_t n = count;"))
M("lR-val", E_, ("i * state.step + state.min", "state.min + state.step * i"))
M("lR-lt1", E_, ("bounds.min <= i && i <= bounds.max;", "i >= bounds.min && i < bounds.max + 1;"))
M("lR-while", E_, ("    for (index_t i = bounds.min; result == 0 && bounds.min <= i && i <= bounds.max; i += step) {\n      context.set(op->sym, i);\n      result = eval(op->body);\n    }", "    index_t i = bounds.min;\n    while (bounds.min <= i && !(i > bounds.max)) {\n      context.set(op->sym, i);\n      result = eval(op->body);\n      if (result != 0) break;\n      i = i + step;\n    }"))
M("lR-count", E_, ("    for (index_t i = bounds.min; result == 0 && bounds.min <= i && i <= bounds.max; i += step) {\n      context.set(op->sym, i);", "    const index_t count = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));\n    for (index_t k = 0; result == 0 && k < count; ++k) {\n      context.set(op->sym, bounds.min + k * step);"))
