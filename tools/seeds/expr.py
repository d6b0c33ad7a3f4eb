V_ = "runtime/evaluate.cc"
EV11 = r'''
index_t value(const expr& e, std::vector<std::pair<var, index_t>> vs) {
  eval_config cfg; eval_context ec; ec.config = &cfg;
  for (auto& i : vs) ec[i.first] = i.second;
  return evaluate(e, ec);
}
'''
S("c11-at-null", "C11", [(V_, "        } else {\n          result = nullptr;\n        }\n      }\n    }\n    return result;", "        } else if (at < buf->dims[d].min()) {\n          result = nullptr;\n        }\n      }\n    }\n    return result;")],
    "the address of an index past the end of a dimension", "the address of something else is returned instead of null",
    EV11 + r'''
int main() {
  node_context ctx; var b(ctx, "b");
  dim dims[1]; dims[0].set_min_extent(2, 4); dims[0].set_stride(4);
  int data[4];
  raw_buffer buf; buf.base = data; buf.elem_size = 4; buf.rank = 1; buf.dims = dims;
  for (index_t i = -3; i < 10; ++i) {
    std::vector<expr> at = {expr(i)};
    CHECK(value(buffer_at(expr(b), at), {{b, (index_t)&buf}}) == (i >= 2 && i < 6 ? (index_t)(data + i - 2) : 0));
  }
  return 0;
}
''')
