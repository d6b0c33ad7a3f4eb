S("c22-for-each-offset", "C22", [("runtime/buffer.cc", "          index_t offset = buf_n_dim.flat_offset_bytes(buf_dim.min());", "          int offset = buf_n_dim.flat_offset_bytes(buf_dim.min());")],
  "iterating two buffers where the second starts more than 2 GB before the first's minimum", "the offset of the second buffer's base is kept in an int", r'''
int main() {
  watchdog(20);
  char a_data[8];
  raw_buffer a, b;
  dim a_dims[1], b_dims[1];
  const index_t start = (index_t(1) << 32) + 5;
  a_dims[0] = dim(start, start + 3, 1);
  b_dims[0] = dim(0, start + 100, 1);
  a.base = a_data; a.elem_size = 1; a.rank = 1; a.dims = a_dims;
  // Nothing is read or written, only addresses are compared.
  char* b_base = reinterpret_cast<char*>(index_t(1) << 20);
  b.base = b_base; b.elem_size = 1; b.rank = 1; b.dims = b_dims;
  index_t n = 0;
  for_each_contiguous_slice(a, [&](index_t extent, void* x, const void* y) {
    CHECK(x == a_data);
    CHECK(reinterpret_cast<index_t>(y) == reinterpret_cast<index_t>(b_base) + start);
    n += extent;
  }, b);
  CHECK(n == 4);
  return 0;
}
''')
S("c22-fuse-extent", "C22", [("runtime/buffer.cc", "  const index_t inner_extent = base_inner.extent();", "  const int inner_extent = base_inner.extent();")],
  "iterating a buffer of two dimensions with an inner extent of more than 2^32", "whether two dimensions are contiguous is decided with a truncated extent", r'''
int main() {
  watchdog(20);
  raw_buffer a;
  dim d[2];
  const index_t inner = (index_t(1) << 32) + 4;
  d[0] = dim(0, inner - 1, 1);
  // Not contiguous: the outer stride is what the truncated extent suggests.
  d[1] = dim(0, 1, 4);
  a.base = reinterpret_cast<void*>(index_t(1) << 20); a.elem_size = 1; a.rank = 2; a.dims = d;
  int calls = 0;
  for_each_contiguous_slice(a, [&](index_t extent, void* x) {
    CHECK(extent == inner);
    CHECK(reinterpret_cast<index_t>(x) == (index_t(1) << 20) + 4 * calls);
    ++calls;
  });
  CHECK(calls == 2);
  return 0;
}
''')
S("c22-add-constant", "C22", [("builder/simplify.cc", "  constant_adder(index_t c) : c(c) {}", "  constant_adder(int c) : c(c) {}")],
  "a sum with a constant that does not fit in an int is simplified inside another sum", "the constant added to an expression is truncated", r'''
int main() {
  watchdog(20);
  node_context ctx;
  var x(ctx, "x"), y(ctx, "y"), z(ctx, "z");
  const index_t big = (index_t(1) << 33) + 7;
  std::vector<expr> es = {
    min(expr(x), expr(y) + 3) + big, max(expr(x) + 1, expr(y)) + big, select(expr(z) < 2, expr(x) + 5, expr(y)) + big,
    (min(expr(x) + 4, expr(y)) + big) + expr(z), min(min(expr(x) + 4, expr(y)), expr(z) + 1) - big,
    select(expr(z) < 2, expr(x), 4) + big, min(expr(x), 7) + big, max(expr(x) / 2 + 1, 7) + big,
  };
  for (const expr& e : es) {
    expr s = simplify(e);
    expr t = simplify(e + big);
    for (index_t i = -3; i < 4; ++i) {
      eval_context c;
      c[x] = i; c[y] = 2 * i - 1; c[z] = 3 - i;
      CHECK(evaluate(e, c) == evaluate(s, c));
      CHECK(evaluate(e, c) + big == evaluate(t, c));
    }
  }
  // As the simplifier does when it moves an offset into a loop or an allocation.
  stmt body = check::make(min(expr(x), expr(y) + 3) + big < expr(z) + big);
  stmt r = simplify(body);
  eval_context c;
  c[x] = 1; c[y] = 1; c[z] = 5;
  CHECK(evaluate(r, c) == 0);
  return 0;
}
''')
