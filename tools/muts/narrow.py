BC = "runtime/buffer.cc"
BH = "runtime/buffer.h"
EV = "runtime/evaluate.cc"
M("nw-workers", EV, ("static_cast<int>(std::min<index_t>(max_workers, loop::parallel))", "max_workers"), expect=["C22"])
M("nw-workers2", EV, ("static_cast<int>(std::min<index_t>(max_workers, loop::parallel))", "std::min<int>(max_workers, loop::parallel)"), expect=["C22"])
M("nw-stair", "base/arithmetic.cc", ("  if (min < std::numeric_limits<int>::min() || max > std::numeric_limits<int>::max()) return {};\n", ""), expect=["C22"])
M("nw-extent", BC, ("std::max<index_t>(0, dims[i].extent())", "std::max<int>(0, dims[i].extent())"), expect=["C22"])
M("nw-slice", EV, ("        index_t result_i = evaluate(state.body, context);", "        int result_i = evaluate(state.body, context);"), expect=["C22"])
M("nw-copyext", BC, ("const index_t dst_size =", "const int dst_size ="), expect=["C22"])
M("nw-ok-rank", BC, ("std::max<index_t>(0, dims[i].extent())", "std::max<index_t>(0, dims[static_cast<int>(i)].extent())"), expect=[])
M("nw-fuse", BC, ("  const index_t inner_extent = base_inner.extent();", "  const int inner_extent = base_inner.extent();"), expect=["C22"])
M("nw-offset", BC, ("          index_t offset = buf_n_dim.flat_offset_bytes(buf_dim.min());", "          auto offset = static_cast<int>(buf_n_dim.flat_offset_bytes(buf_dim.min()));"), expect=["C22"])
M("nw-loopi", BC, ("    for (index_t i = min; i <= max;) {\n      index_t max_i = max;", "    for (int i = min; i <= max;) {\n      index_t max_i = max;"), expect=["C22"])
M("nw-extent-ret", BH, ("  index_t extent() const { return end() > begin() ? end() - begin() : 0; }", "  int extent() const { return end() > begin() ? end() - begin() : 0; }"), expect=["C22"])
M("nw-offsets", BH, ("    index_t offset = 0;\n", "    int offset = 0;\n"), expect=["C22"])
M("nw-const", "builder/simplify.cc", ("  static void enumerate_bounds(expr x, std::set<expr, node_less>& bounds, index_t offset = 0) {", "  static void enumerate_bounds(expr x, std::set<expr, node_less>& bounds, int offset = 0) {"), expect=["C22"])
M("nw-addc", "builder/simplify.cc", ("  constant_adder(index_t c) : c(c) {}", "  constant_adder(int c) : c(c) {}"), expect=["C22"])
M("nw-ok-clamp", EV, ("static_cast<int>(std::min<index_t>(max_workers, loop::parallel))", "static_cast<int>(max_workers < loop::parallel ? std::min<index_t>(max_workers, loop::parallel) : loop::parallel)"), expect=[])
M("nw-ok-int64", BC, ("  const index_t inner_extent = base_inner.extent();", "  const std::int64_t inner_extent = base_inner.extent();"), expect=[])
