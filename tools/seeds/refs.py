S("c06-pop-front", "C06", [("base/ref_count.h", "    std::swap(value, other.value);\n    other = nullptr;\n    return *this;", "    if (value) value->release();\n    value = other.value;\n    other.value = nullptr;\n    return *this;")],
  "a handle is given the handle that the object it holds contains (the front of a list replaced by its next)", "the object is released, with the handle being moved, before the handle is read", r'''
struct node : ref_counted<node> {
  int id;
  slinky::ref_count<node> next;
  explicit node(int id) : id(id) {}
  static int alive;
  static void destroy(node* p) {
    if (p->id < 0) { std::puts("destroyed twice"); std::_Exit(2); }
    --alive;
    // Stands in for delete: what the object held is released, its memory stays.
    p->next = nullptr;
    p->id = -1;
  }
};
int node::alive = 0;
int main() {
  watchdog(20);
  ref_count<node> head(new node(0));
  node::alive = 3;
  head->next = ref_count<node>(new node(1));
  head->next->next = ref_count<node>(new node(2));
  head = std::move(head->next);
  CHECK(node::alive == 2);
  CHECK(&*head != nullptr && head->id == 1 && head->ref_count() == 1);
  head = std::move(head->next);
  CHECK(node::alive == 1);
  CHECK(head->id == 2 && head->ref_count() == 1);
  ref_count<node> other = head;
  CHECK(head->ref_count() == 2);
  head = nullptr;
  CHECK(node::alive == 1 && other->ref_count() == 1);
  other = nullptr;
  CHECK(node::alive == 0);
  return 0;
}
''')
S("c06-release-first", "C06", [("base/ref_count.h", "      std::swap(value, v);\n      if (value) value->add_ref();\n      if (v) v->release();", "      if (value) value->release();\n      value = v;\n      if (value) value->add_ref();")],
  "a handle is given an object that only the object it holds keeps alive", "the old object is released before the new one is held", r'''
struct node : ref_counted<node> {
  int id;
  slinky::ref_count<node> next;
  explicit node(int id) : id(id) {}
  static int destroyed[4];
  static void destroy(node* p) {
    ++destroyed[p->id];
    p->next = nullptr;
  }
};
int node::destroyed[4] = {0};
int main() {
  watchdog(20);
  ref_count<node> head(new node(0));
  head->next = ref_count<node>(new node(1));
  head->next->next = ref_count<node>(new node(2));
  head = head->next;
  CHECK(node::destroyed[0] == 1 && node::destroyed[1] == 0);
  CHECK(head->id == 1 && head->ref_count() == 1);
  node* raw = head->next;
  head = raw;
  CHECK(node::destroyed[1] == 1 && node::destroyed[2] == 0);
  CHECK(head->id == 2 && head->ref_count() == 1);
  return 0;
}
''')
S("c06-copied-count", "C06", [("base/ref_count.h", "  ref_counted(const ref_counted&) {}", "  ref_counted(const ref_counted& other) : ref_count_(other.ref_count()) {}")],
  "a node is copied to make a changed version of it, and the copy is dropped", "a copied object starts with the count of the original and is never destroyed", r'''
struct node : ref_counted<node> {
  int id = 0;
  static int destroyed;
  static void destroy(node* p) { ++destroyed; delete p; }
};
int node::destroyed = 0;
int main() {
  watchdog(20);
  ref_count<node> a(new node());
  ref_count<node> b = a;
  {
    ref_count<node> c(new node(*a));
    CHECK(c->ref_count() == 1);
  }
  CHECK(node::destroyed == 1);
  CHECK(a->ref_count() == 2);
  return 0;
}
''')
S("c07-moved-value", "C07", [("builder/substitute.cc", "    changed = changed || !value.same_as(s.second);\n    s.second = std::move(value);", "    s.second = std::move(value);\n    changed = changed || !value.same_as(s.second);")],
  "substituting a variable that a let does not mention", "whether the value changed is decided after it was moved away", r'''
int main() {
  watchdog(20);
  node_context ctx;
  var x(ctx, "x"), y(ctx, "y"), z(ctx, "z");
  expr e = let::make(x, expr(y) + 1, expr(x) * 2);
  expr r = substitute(e, z, expr(7));
  CHECK(r.same_as(e));
  stmt s = let_stmt::make(x, expr(y) + 1, check::make(expr(x) < 3));
  stmt t = substitute(s, z, expr(7));
  CHECK(t.same_as(s));
  return 0;
}
''')
