B_, W_, H_ = "runtime/buffer.cc", "builder/rewrite.h", "runtime/buffer.h"
S("c15-flag-forgotten", "C15", [(B_, "    index_t dim_stride = 0;\n    overflow = overflow || mul_with_overflow(stride, extent, dim_stride);\n", "    index_t dim_stride = 0;\n    overflow = mul_with_overflow(stride, extent, dim_stride);\n")],
  "the size of one dimension overflows and a later dimension has a size that does not", "each dimension's product replaces the flag of the earlier ones, so a buffer of impossible size is given a small allocation",
  r'''
int main() {
  dim dims[3];
  for (dim& d : dims) d.set_fold_factor(dim::unfolded);
  dims[0].set_bounds(0, (1ll << 40) - 1); dims[0].set_stride(1ll << 40);
  dims[1].set_bounds(0, 9); dims[1].set_stride(4);
  raw_buffer buf{};
  buf.elem_size = 1; buf.rank = 2; buf.dims = dims;
  CHECK(!buf.init_strides());
  dims[0].set_bounds(0, 9); dims[0].set_stride(4);
  dims[1].set_bounds(0, 9); dims[1].set_stride(40);
  CHECK(buf.init_strides());
  return 0;
}
''')
S("c15-size-wraps", "C15", [(B_, "  if (add_with_overflow(static_cast<std::size_t>(span), elem_size, size)) {\n    return 0;\n  }\n", "  size = static_cast<std::size_t>(span) + elem_size;\n")],
  "an element size near the largest size", "the size of a buffer wraps around",
  r'''
int main() {
  dim d;
  d.set_fold_factor(dim::unfolded);
  d.set_bounds(0, 9); d.set_stride(16);
  raw_buffer buf{};
  buf.elem_size = ~std::size_t(0) - 7; buf.rank = 1; buf.dims = &d;
  CHECK(buf.size_bytes() == 0);
  buf.elem_size = 16;
  CHECK(buf.size_bytes() == 160);
  return 0;
}
''')
S("c15-replacement-condition", "C15", [(W_, "  return substitute(pr, ctx, overflowed) && !overflowed;\n", "  return substitute(pr, ctx, overflowed);\n")],
  "the condition of a pattern computes with constants whose product is not representable", "a pattern whose condition could not be computed is said to match",
  r'''
#include "slinky/builder/rewrite.h"
using namespace slinky::rewrite;
int main() {
  var x;
  node_context c; var y(c, "y");
  match_context ctx;
  pattern_wildcard<0> px; pattern_constant<1> c0; pattern_constant<2> c1;
  const std::int64_t big = std::int64_t(1) << 62;
  expr e = mul::make(add::make(y, expr(big)), expr(big));
  CHECK(!match(ctx, (px + c0) * c1, e, eval(c0 * c1) == 0));
  expr f = mul::make(add::make(y, expr(3)), expr(5));
  match_context ctx2;
  CHECK(match(ctx2, (px + c0) * c1, f, eval(c0 * c1) == 15));
  return 0;
}
''')
