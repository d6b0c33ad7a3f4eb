B_ = "runtime/buffer.cc"
H_ = "runtime/buffer.h"
W_ = "builder/rewrite.h"
S_ = "builder/simplify_exprs.cc"
# C15
M("m15-size-raw", B_, ("    overflow = overflow || add_with_overflow(flat_max, diff, flat_max);", "    flat_max += diff;"), expect=["C15"])
M("m15-flag-lost", B_, ("    overflow = overflow || mul_with_overflow(stride, extent, dim_stride);", "    overflow = mul_with_overflow(stride, extent, dim_stride);"), expect=["C15"])
M("m15-flag-unused", B_, ("  if (overflow) return std::nullopt;\n\n  assert(size >= 0);", "  if (size < 0) return std::nullopt;\n\n  assert(size >= 0);"), expect=["C15"])
M("m15-elem", B_, ("  bool overflow = static_cast<index_t>(elem_size) < 0;\n\n  auto", "  bool overflow = false;\n\n  auto"), expect=["C15"])
M("m15-abs", B_, ("      if (stride_val == std::numeric_limits<index_t>::min()) {\n        overflow = true;\n        stride_val = 0;\n      }\n", ""), expect=["C15"])
M("m15-absflag", B_, ("        overflow = true;\n        stride_val = 0;", "        stride_val = 0;"), expect=[])
M("m15-stride-ok", B_, ("    overflow = true;\n    return false;\n  }\n  for", "    dim_stride = 0;\n  }\n  for"), expect=[])
M("m15-flat", B_, ("  return !overflow;", "  return flat_max >= flat_min;"), expect=["C15"])
M("m15-span", B_, ("  if (sub_with_overflow(flat_max, flat_min, span)) return 0;", "  span = flat_max - flat_min;"), expect=["C15"])
M("m15-span2", B_, ("  if (add_with_overflow(static_cast<std::size_t>(span), elem_size, size)) {\n    return 0;\n  }", "  size = static_cast<std::size_t>(span) + elem_size;"), expect=["C15"])
M("m15-low", B_, ("  if (base_val < flat_min_abs) return false;\n", ""), expect=["C15"])
M("m15-high", B_, ("  if (add_with_overflow(base_val, max_offset, high_address)) return false;\n", "  high_address = max_offset;\n"), expect=["C15"])
M("m15-alloc", B_, ("  if (!size) return nullptr;\n  void* allocation = malloc(*size + base_alignment - 1);", "  void* allocation = malloc(size.value_or(0) + base_alignment - 1);"), expect=["C15"])
M("m15-fast", B_, (H_, "        overflow = overflow || mul_with_overflow(std::max<index_t>(size, 0), stride, size);", "        size = std::max<index_t>(size, 0) * stride;"), expect=["C15"])
M("m15-fast2", B_, (H_, "      overflow = overflow || add_with_overflow(size, alignment - 1, size);\n      if (overflow) return std::nullopt;", "      if (overflow) return std::nullopt;\n      size += alignment - 1;"), expect=["C15"])
M("m15-add", S_, ("  if (ca && cb && !add_overflows(*ca, *cb)) {", "  if (ca && cb) {"), expect=["C15"])
M("m15-mul", S_, ("  if (ca && cb && !mul_overflows(*ca, *cb)) {", "  if (ca && cb && !add_overflows(*ca, *cb)) {"), expect=["C15"])
M("m15-neg", S_, ("  } else if (cb && !sub_overflows<index_t>(0, *cb)) {", "  } else if (cb) {"), expect=["C15"])
M("m15-adder", S_, ("builder/simplify.cc", "    if (!add_overflows(op->value, c)) {\n      set_result(op->value + c);\n    } else {\n      set_result(expr());\n    }", "    set_result(op->value + c);"), expect=["C15"])
M("m15-sub-bin", S_, (W_, "    overflowed = true;\n    return 0;", "    return 0;"), expect=["C15"])
M("m15-match", S_, (W_, "  return substitute(pr, ctx, overflowed) && !overflowed;", "  return substitute(pr, ctx, overflowed);"), expect=["C15"])
M("m15-find", S_, (W_, "      if (!overflowed) return true;", "      return true;"), expect=["C15"])
M("m15-find1", S_, (W_, "    result = substitute(r, ctx, overflowed);\n    return !overflowed;", "    result = substitute(r, ctx, overflowed);\n    return result.defined();"), expect=["C15"])
M("m15-pass", S_, (W_, "  return r.fn(substitute(r.a, ctx, overflowed));", "  bool o = false;\n  return r.fn(substitute(r.a, ctx, o));"), expect=["C15"])
M("m15-moe", S_, ("runtime/expr.h", "  if (binary_overflows<T>(a, b)) {\n    return make_binary<T>(expr(a), expr(b));\n  } else {\n    return make_binary<T>(a, b);\n  }", "  return make_binary<T>(a, b);"), expect=["C15"])
# refactorings
M("m15-r-or", B_, ("  overflow = overflow || add_with_overflow(flat_max, static_cast<index_t>(elem_size), size);\n  overflow = overflow || add_with_overflow(size, alignment - 1, size);\n  if (overflow) return std::nullopt;", "  if (overflow) return std::nullopt;\n  if (add_with_overflow(flat_max, static_cast<index_t>(elem_size), size)) return std::nullopt;\n  if (add_with_overflow(size, alignment - 1, size)) return std::nullopt;"), expect=[])
M("m15-r-orassign", B_, ("    overflow = overflow || sub_with_overflow(extent, static_cast<index_t>(1), extent_minus_1);\n", "    overflow |= sub_with_overflow(extent, static_cast<index_t>(1), extent_minus_1);\n"), expect=[])
M("m15-r-early", B_, ("    overflow = overflow || mul_with_overflow(extent_minus_1, std::min<index_t>(0, stride), term_min);\n", "    if (!overflow && mul_with_overflow(extent_minus_1, std::min<index_t>(0, stride), term_min)) overflow = true;\n"), expect=[])
M("m15-r-helper", B_, ("bool calculate_flat_bounds(", "bool mul_add(index_t a, index_t b, index_t& sum) {\n  index_t term;\n  return mul_with_overflow(a, b, term) || add_with_overflow(sum, term, sum);\n}\n\nbool calculate_flat_bounds("), ("    overflow = overflow || mul_with_overflow(extent_minus_1, std::min<index_t>(0, stride), term_min);\n    overflow = overflow || add_with_overflow(flat_min, term_min, flat_min);\n", "    overflow = overflow || mul_add(extent_minus_1, std::min<index_t>(0, stride), flat_min);\n    (void)term_min;\n"), expect=[])
M("m15-r-low", B_, ("  if (base_val < flat_min_abs) return false;\n", "  uintptr_t low;\n  if (sub_with_overflow(base_val, flat_min_abs, low)) return false;\n"), expect=[])
M("m15-r-lowswap", B_, ("  if (base_val < flat_min_abs) return false;\n", "  if (!(flat_min_abs <= base_val)) return false;\n"), expect=[])
M("m15-r-add", S_, ("  if (ca && cb && !add_overflows(*ca, *cb)) {\n    return *ca + *cb;\n  }", "  if (ca && cb) {\n    index_t sum;\n    if (!add_with_overflow(*ca, *cb, sum)) return sum;\n  }"), expect=[])
M("m15-r-addv", S_, ("  if (ca && cb && !mul_overflows(*ca, *cb)) {\n    return *ca * *cb;\n  }", "  if (ca && cb) {\n    const index_t x = *ca, y = *cb;\n    if (!mul_overflows(x, y)) return x * y;\n  }"), expect=[])
M("m15-r-find", S_, (W_, "    if (substitute(pr, ctx, overflowed) && !overflowed) {\n      result = substitute(r, ctx, overflowed);\n      if (!overflowed) return true;\n    }", "    const bool applies = substitute(pr, ctx, overflowed);\n    if (applies && !overflowed) {\n      expr candidate = substitute(r, ctx, overflowed);\n      result = candidate;\n      if (!overflowed) return true;\n    }"), expect=[])
M("m15-r-subbin", S_, (W_, "  if (binary_overflows<T>(a, b)) {\n    overflowed = true;\n    return 0;\n  } else {\n    return make_binary<T>(a, b);\n  }", "  overflowed = overflowed || binary_overflows<T>(a, b);\n  if (overflowed) return 0;\n  return make_binary<T>(a, b);"), expect=[])
M("m15-r-while", B_, ("  for (std::size_t i = 0; i < rank; ++i) {\n    if (dims[i].stride() == 0) continue;\n    index_t extent", "  std::size_t i = 0;\n  for (const dim* d = dims; i < rank; ++d, ++i) {\n    if (d->stride() == 0) continue;\n    index_t extent"), expect=[])
M("m15-r-opt", B_, ("  std::optional<std::size_t> size = init_strides(stride_alignment);\n  if (!size) return nullptr;\n  void* allocation = malloc(*size", "  const auto size = init_strides(stride_alignment);\n  if (!size.has_value()) {\n    base = nullptr;\n    return nullptr;\n  }\n  void* allocation = malloc(size.value()"), expect=[])
