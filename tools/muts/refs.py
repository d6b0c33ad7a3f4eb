RC = "base/ref_count.h"
M("rc-order", RC, ("      std::swap(value, v);\n      if (value) value->add_ref();\n      if (v) v->release();",
                   "      if (value) value->release();\n      value = v;\n      if (value) value->add_ref();"), expect=["C06"])
M("rc-noguard", RC, ("    if (value != v) {\n      std::swap(value, v);\n      if (value) value->add_ref();\n      if (v) v->release();\n    }",
                     "    if (value) value->release();\n    if (v) v->add_ref();\n    value = v;"), expect=["C06"])
M("rc-noguard2", RC, ("    if (value != v) {\n      std::swap(value, v);\n      if (value) value->add_ref();\n      if (v) v->release();\n    }",
                        "    if (v) v->add_ref();\n    if (value) value->release();\n    value = v;"), expect=["C06"])
M("rc-copyswap-ok", RC, ("    if (value != v) {\n      std::swap(value, v);\n      if (value) value->add_ref();\n      if (v) v->release();\n    }",
                         "    ref_count tmp(v);\n    std::swap(value, tmp.value);"), expect=[])
M("rc-move", RC, (" value(other.value) { other.value = nullptr; }", " value(other.value) {}"), expect=["C06"])
M("rc-move-ok", RC, (" value(other.value) { other.value = nullptr; }", " value(nullptr) { std::swap(value, other.value); }"), expect=[])
M("rc-move-ok2", RC, (" value(other.value) { other.value = nullptr; }", " value(other.take()) {}"), expect=[])
M("rc-moveassign", RC, ("    std::swap(value, other.value);\n    other = nullptr;", "    value = other.value;\n    other.value = nullptr;"), expect=["C06"])
M("rc-moveassign-ok", RC, ("    std::swap(value, other.value);\n    other = nullptr;", "    std::swap(value, other.value);"), expect=[])
M("rc-moveassign-self", RC, ("    std::swap(value, other.value);\n    other = nullptr;",
                             "    if (value) value->release();\n    value = other.take();"), expect=["C06"])
M("rc-take", RC, ("    T* result = value;\n    value = nullptr;\n    return result;", "    return value;"), expect=["C06"])
M("rc-assume", RC, ("    ref_count result;\n    result.value = value;\n    return result;", "    return ref_count(value);"), expect=["C06"])
M("rc-copyctor", RC, ("ref_count(const ref_count& other) : ref_count(other.value) {}", "ref_count(const ref_count& other) : value(other.value) {}"), expect=["C06"])
M("rc-conv", RC, ("    return ref_count<U>(value);", "    return ref_count<U>::assume(value);"), expect=["C06"])
M("rc-relaxed", RC, ("fetch_sub(1, std::memory_order_acq_rel)", "fetch_sub(1, std::memory_order_release)"), expect=["C06"])
M("rc-fence-ok", RC, ("fetch_sub(1, std::memory_order_acq_rel) == 1) {", "fetch_sub(1, std::memory_order_release) == 1) {\n      std::atomic_thread_fence(std::memory_order_acquire);"), expect=[])
M("rc-twostep", RC, ("    if (ref_count_.fetch_sub(1, std::memory_order_acq_rel) == 1) {", "    ref_count_.fetch_sub(1, std::memory_order_acq_rel);\n    if (ref_count() == 0) {"), expect=["C06"])
M("rc-fastpath", RC, ("    if (ref_count_.fetch_sub(1, std::memory_order_acq_rel) == 1) {", "    if (ref_count_.load(std::memory_order_relaxed) == 1 || ref_count_.fetch_sub(1, std::memory_order_acq_rel) == 1) {"), expect=["C06"])
M("rc-zero", RC, ("std::memory_order_acq_rel) == 1) {", "std::memory_order_acq_rel) == 0) {"), expect=["C06"])
M("rc-copycount", RC, ("  ref_counted(const ref_counted&) {}", "  ref_counted(const ref_counted& o) : ref_count_(o.ref_count()) {}"), expect=["C06"])
M("rc-assigncount", RC, ("  ref_counted& operator=(const ref_counted&) { return *this; }", "  ref_counted& operator=(const ref_counted& o) {\n    ref_count_ = o.ref_count();\n    return *this;\n  }"), expect=["C06"])
M("rc-static", "runtime/expr_stmt.cc", ("  result.add_ref();\n", ""), expect=["C06"])
M("rc-mutable", "runtime/expr.h", ("class let : public expr_node<let> {\npublic:", "class let : public expr_node<let> {\npublic:\n  mutable int visits = 0;"), expect=["C06"])
M("rc-nodecopy", "builder/simplify.cc", ("  void visit(const loop* op) override {", "  void poke(const loop* op) { const_cast<loop*>(op)->max_workers = 1; }\n  void visit(const loop* op) override {"), expect=["C06"])
