V_ = "runtime/evaluate.cc"
B_ = "runtime/buffer.h"
M("m19-crop-min", B_, ("    min = std::max(min, dim_d.min());\n    max = std::min(max, dim_d.max());", "    max = std::min(max, dim_d.max());\n    if (max >= dim_d.min()) min = std::max(min, dim_d.min());"), expect=["C19"])
M("m19-crop-fold", B_, ("        if (dim_d.fold_factor() == dim::unfolded) {\n          index_t offset", "        if (dim_d.fold_factor() <= 0) {\n          index_t offset"), expect=["C19"])
M("m19-crop-fold2", B_, ("        if (dim_d.fold_factor() == dim::unfolded) {\n          index_t offset", "        if (!dim_d.is_folded()) {\n          index_t offset"), expect=["C19"])
M("m19-crop-empty", B_, ("      if (max >= min) {\n        if (dim_d", "      if (max + 1 >= min) {\n        if (dim_d"), expect=["C19"])
M("m19-crop-order", B_, ("    dim_d.set_bounds(min, max);\n  }\n\n  std::size_t size_bytes", "    dim_d.set_bounds(min, std::max(min - 1, max));\n  }\n\n  std::size_t size_bytes"), expect=["C19"])
M("m19-crop-var", B_, ("    min = std::max(min, dim_d.min());\n    max = std::min(max, dim_d.max());", "    if (min < dim_d.min()) min = dim_d.min();\n    if (dim_d.max() < max) max = dim_d.max();"), expect=[])
M("m19-slice-last", B_, ("      for (std::size_t i = d; i < rank; ++i) {\n        dims[i] = dims[i + 1];\n      }\n    }\n  }\n  void slice(std::size_t d, index_t at)", "      for (std::size_t i = d; i + 1 < rank; ++i) {\n        dims[i] = dims[i + 1];\n      }\n    }\n  }\n  void slice(std::size_t d, index_t at)"), expect=["C19"])
M("m19-slice-zero", B_, ("    if (d == 0) {\n      // Slicing the first", "    if (d == 0 || rank == 1) {\n      // Slicing the first"), expect=["C19"])
M("m19-slice-at-off", B_, ("        base = offset_bytes_non_null(base, dim_d.flat_offset_bytes(at));\n      } else {\n        base = nullptr;", "        base = offset_bytes_non_null(base, (at - dim_d.min()) * dim_d.stride());\n      } else {\n        base = nullptr;"), expect=["C19"])
M("m19-flat", B_, ("    if (stride() == 0 || fold_factor() == unfolded) {", "    if (stride() == 0 || fold_factor() <= 0) {"), expect=["C19"])
M("m19-contains", B_, ("{ return stride_ == 0 || (min() <= a && b <= max()); }", "{ return stride_ == 0 || (min() <= a && a <= b && b <= max()); }"), expect=["C19"])
M("m19-contains2", B_, ("{ return stride_ == 0 || (min() <= a && b <= max()); }", "{ if (min_ <= a && b <= max_) return true; return stride_ == 0; }"), expect=[])
M("m19-isfolded", B_, ("if (stride() == 0 || fold_factor() <= 0) return false;", "if (stride() == 0 || fold_factor() <= 0 || max - min < fold_factor()) return false;"), expect=["C19"])
M("m19-broadcast", B_, ("return min() == 0 && max() == 0 && stride() == 0;", "return min() == max() && stride() == 0;"), expect=["C19"])
M("m19-translate", B_, ("    for (std::size_t i = 0; i < offsets.size(); ++i) {\n      dims[i].translate(offsets[i]);", "    for (std::size_t i = 0; i + 1 < offsets.size(); ++i) {\n      dims[i].translate(offsets[i]);"), expect=["C19"])
M("m19-span-contains", B_, ("      result = result && dims[i].contains(indices[i]);", "      result = dims[i].contains(indices[i]);"), expect=["C19"])
M("m19-pack", B_, ("      return dims->flat_offset_bytes(i0) + flat_offset_bytes_impl(dims + 1, rank - 1, indices...);", "      return dims->flat_offset_bytes(i0) + flat_offset_bytes_impl(dims + 1, rank, indices...);"), expect=["C19"])
M("m19-make-stride", V_, ("      buf_d.set_stride(eval(op_d.stride));\n      buf_d.set_fold_factor(eval(op_d.fold_factor, dim::unfolded));\n      if (trailing) {\n        if (buf_d.is_broadcast()) {", "      buf_d.set_stride(eval(op_d.stride));\n      buf_d.set_fold_factor(eval(op_d.fold_factor, dim::unfolded));\n      if (trailing) {\n        if (buf_d.stride() == 0) {"), expect=["C19"])
M("m19-make-trailing", V_, ("          buffer.rank = d;\n        } else {\n          trailing = false;\n        }\n      }\n    }\n\n    if (!validate", "          buffer.rank = d;\n        } else if (buf_d.stride() != 0) {\n          trailing = false;\n        }\n      }\n    }\n\n    if (!validate"), expect=["C19"])
M("m19-alloc-fold", V_, ("      buf_d.set_stride(eval(op_d.stride, dim::auto_stride));\n      buf_d.set_fold_factor(eval(op_d.fold_factor, dim::unfolded));", "      buf_d.set_stride(eval(op_d.stride, dim::auto_stride));\n      buf_d.set_fold_factor(eval(op_d.fold_factor, 0));"), expect=["C19"])
M("m19-alloc-bounds", V_, ("      buf_d.set_bounds(bounds.min, bounds.max);\n      buf_d.set_stride(eval(op_d.stride, dim::auto", "      buf_d.set_bounds(bounds.min, std::max(bounds.min, bounds.max));\n      buf_d.set_stride(eval(op_d.stride, dim::auto"), expect=["C19"])
M("m19-slicedim-shift", V_, ("      sym_buf.dims[d] = src_buf->dims[d + 1];", "      sym_buf.dims[d] = src_buf->dims[d + (d > 0)];"), expect=["C19"])
M("m19-slicedim-null", V_, ("    sym_buf.base = nullptr;\n    sym_buf.elem_size", "    sym_buf.base = src_buf->base;\n    sym_buf.elem_size"), expect=["C19"])
M("m19-slicebuf-dim", V_, ("flat_offset_bytes(at_d));\n          } else {", "flat_offset_bytes(at_d) + 0 * d);\n          } else {"), expect=[])
M("m19-slicebuf-null", V_, ("          if (src_buf->dims[d].contains(at_d)) {", "          if (src_buf->dims[d].stride() == 0 || at_d >= src_buf->dims[d].min()) {"), expect=["C19"])
M("m19-slicebuf-keep", V_, ("        sym_buf.dims[sym_buf.rank++] = src_buf->dims[d];", "        sym_buf.dims[sym_buf.rank++] = src_buf->dims[sym_buf.rank];"), expect=["C19"])
M("m19-transpose-dim", V_, ("        dims[i] = src_buf->dim(op->dims[i]);\n      }\n\n      raw_buffer sym_buf;", "        dims[i] = src_buf->dim(std::min<std::size_t>(op->dims[i], src_buf->rank));\n      }\n\n      raw_buffer sym_buf;"), expect=[])
M("m19-transpose-trunc", V_, ("      src_buf->rank = std::min(old_rank, op->dims.size());", "      src_buf->rank = std::min(old_rank, op->dims.size() + 1);"), expect=["C19"])
M("m19-trailing", V_, ("remove_trailing_broadcasts(sym_buf);", "while (sym_buf.rank > 0 && sym_buf.dim(sym_buf.rank - 1).stride() == 0) --sym_buf.rank;"), expect=["C19"])
M("m19-cropdim-order", V_, ("    interval bounds = eval(op->bounds, {old_min, old_max});\n    buffer->crop(op->dim, bounds.min, bounds.max);", "    dim.set_bounds(old_min, old_max);\n    interval bounds = eval(op->bounds, {old_min, old_max});\n    buffer->crop(op->dim, bounds.min, bounds.max);"), expect=[])
M("m19-cropdim-late", V_, ("    interval bounds = eval(op->bounds, {old_min, old_max});\n    buffer->crop(op->dim, bounds.min, bounds.max);", "    if (op->bounds.min.defined()) buffer->crop(op->dim, eval(op->bounds.min), old_max);\n    interval bounds = eval(op->bounds, {dim.min(), old_max});\n    buffer->crop(op->dim, bounds.min, bounds.max);"), expect=["C19"])
M("m19-cropbuf-late", V_, ("      interval bounds = old_bounds[d];\n", "      interval bounds = eval(op->bounds[d], {dim.min(), dim.max()});\n"), expect=["C19"])
M("m19-cropbuf-un", V_, ("      sym_buf.crop(d, bounds.min, bounds.max);", "      sym_buf.crop(d, bounds.min, bounds.min);"), expect=["C19"])
M("m19-cropbuf-default", V_, ("      old_bounds[d] = eval(op->bounds[d], {dim.min(), dim.max()});", "      old_bounds[d] = eval(op->bounds[d], {0, dim.max()});"), expect=["C19"])
