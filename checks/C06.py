import re
from sa.program import AnalysisBroken, AnchorMissing, Program, show, walk, walk_fn
LEVEL = "proof"
EXPLANATION = ("Every member of ref_count is interpreted over all small configurations of two handles and two objects (null, the same object, "
               "aliased handles, an object owned only by the object being replaced); after each the count of every object equals the number "
               "of handles holding it, and no object is touched after its count reached zero. The counting operations are single atomic "
               "operations; nodes are constant once a handle holds them.")
FILE = "slinky/base/ref_count.h"


class Gap(Exception):
    pass


class Dead(Exception):
    pass


class Obj:
    def __init__(self, name, refs):
        self.name, self.refs, self.alive, self.inside = name, refs, True, []


class Cell:
    """A handle."""

    def __init__(self, name, value=None, live=True):
        self.name, self.value, self.live, self.gone = name, value, live, False


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Heap:
    def add(self, o):
        if o is None:
            raise Dead("a null object's count is changed")
        if not o.alive:
            raise Dead("the count of an object is raised after the object was destroyed")
        o.refs += 1

    def release(self, o):
        if o is None:
            raise Dead("a null object's count is changed")
        if not o.alive:
            raise Dead("an object is released after it was destroyed")
        o.refs -= 1
        if o.refs == 0:
            o.alive = False
            for c in o.inside:
                c.gone = True
                if c.value is not None:
                    self.release(c.value)


UNSET = object()


class Interp:
    def __init__(self, methods, heap):
        self.methods, self.heap = methods, heap
        self.depth = 0

    # -- frames
    def call(self, f, this, args):
        self.depth += 1
        if self.depth > 6:
            raise Gap("recursion")
        env = {}
        byval = []
        for p, a in zip(f.params, args):
            isref = p["t"].rstrip().endswith("&")
            if isinstance(a, Cell) and not isref:
                c = self.copy(a)
                byval.append(c)
                a = c
            env[p["n"]] = ["cell", a] if isref or isinstance(a, Cell) else ["val", a]
            if isref and not isinstance(a, Cell):
                env[p["n"]] = ["val", a]
        for p in f.params[len(args):]:
            if not p.get("def"):
                raise Gap("missing argument")
            env[p["n"]] = ["val", self.val(p["def"], env, this)]
        out = None
        inits = [i for i in f.inits if i.get("written")]
        for i in inits:
            e = i["e"]
            xs = e.get("c") if e["k"] == "other" and e.get("cls") == "ParenListExpr" else e.get("args") if e["k"] in ("ctor", "dctor") else \
                e.get("c") or e.get("args") if e["k"] in ("initlist", "init") else [e]
            if i.get("f") == "value":
                this.value = self.ptr(self.val(xs[0], env, this)) if xs else None
            elif i.get("base") or i.get("deleg"):
                self.construct(this, [self.val(x, env, this) for x in xs])
            else:
                raise Gap("initialiser")
        scopes = [[]]
        try:
            self.stmt(f.body, env, this, scopes)
        except Ret as r:
            out = r.v
        if isinstance(out, Cell) and any(out is c for sc in scopes for c in sc):
            for sc in scopes:
                sc[:] = [c for c in sc if c is not out]      # returned by name: moved or elided, either way balanced
        for sc in reversed(scopes):
            self.destroy(sc)
        self.destroy(byval)
        self.depth -= 1
        return out

    def destroy(self, cells):
        for c in reversed(cells):
            if c.live:
                d = self.find("dtor")
                c2 = c
                if d:
                    self.call(d[0], c2, [])
                c.live = False

    def find(self, name):
        return [m for m in self.methods if (m.kind == name if name in ("ctor", "dtor") else m.n == name)]

    def pick(self, cands, args, what):
        out = []
        for m in cands:
            if len(m.params) < len(args) or any(not p.get("def") for p in m.params[len(args):]):
                continue
            ok = True
            for p, a in zip(m.params, args):
                t = p["t"].strip()
                if t.endswith("&&"):
                    ok &= isinstance(a, tuple) and a[0] == "move"
                elif t.endswith("&") or not t.endswith("*"):
                    ok &= isinstance(a, Cell)
                else:
                    ok &= not isinstance(a, (Cell, tuple))
            if ok:
                out.append(m)
        if len(out) != 1:
            # a temporary prefers the rvalue form
            raise Gap("%s is ambiguous" % what)
        return out[0]

    def construct(self, cell, args):
        m = self.pick(self.find("ctor"), args, "constructor")
        self.call(m, cell, [a[1] if isinstance(a, tuple) else a for a in args])

    def copy(self, a):
        c = Cell("tmp")
        self.construct(c, [a])
        return c

    def ptr(self, v):
        if isinstance(v, Cell):
            return v.value
        if isinstance(v, tuple):
            return v[1].value
        return v

    # -- places
    def place(self, n, env, this):
        k = n["k"]
        if k in ("mem", "dmem") and n["n"] == "value":
            b = n.get("b")
            if b is None or b["k"] == "this":
                return ("value", this)
            c = self.val(b, env, this)
            if isinstance(c, tuple) and c[0] == "move":
                c = c[1]
            if isinstance(c, Cell):
                return ("value", c)
            raise Gap("value of " + show(b))
        if k == "ref" and n["n"] in env:
            e = env[n["n"]]
            if e[0] == "cell":
                return ("cell", e[1])
            return ("var", e)
        if k == "un" and n["op"] == "*" and n["e"]["k"] == "this":
            return ("cell", this)
        if k == "paren":
            return self.place(n["e"], env, this)
        raise Gap("place " + show(n)[:60])

    def get(self, p):
        if p[0] == "value":
            if p[1].gone:
                raise Dead("a handle is read after the object that contains it was destroyed")
            if p[1].value is UNSET:
                raise Dead("a handle is read before it is given a value")
            return p[1].value
        if p[0] == "cell":
            return p[1]
        return p[1][1]

    def put(self, p, v):
        if p[0] == "value":
            if p[1].gone:
                raise Dead("a handle is written after the object that contains it was destroyed")
            p[1].value = self.ptr(v)
        elif p[0] == "cell":
            self.call(self.pick(self.find("operator="), [v], "assignment"), p[1], [v[1] if isinstance(v, tuple) else v])
        else:
            p[1][1] = self.ptr(v) if not isinstance(v, Cell) else v

    # -- expressions
    def val(self, n, env, this):
        k = n["k"]
        if k == "paren":
            return self.val(n["e"], env, this)
        if k == "null":
            return None
        if k == "this":
            return ("this", this)
        if k == "lit" and "cv" in n:
            return None if n["t"] == "std::nullptr_t" else n["cv"]
        if k in ("mem", "dmem", "ref"):
            return self.get(self.place(n, env, this))
        if k == "un":
            if n["op"] == "*":
                if n["e"]["k"] == "this":
                    return this
                v = self.val(n["e"], env, this)
                if isinstance(v, tuple) and v[0] == "this":
                    return v[1]
                return ("deref", v)
            if n["op"] == "!":
                return not self.truth(n["e"], env, this)
            if n["op"] == "&":
                v = self.val(n["e"], env, this)
                if isinstance(v, Cell):
                    return ("this", v)
            raise Gap("operator " + n["op"])
        if k == "bin":
            op = n["op"]
            if op == "=":
                v = self.val(n["R"], env, this)
                p = self.place(n["L"], env, this)
                self.put(p, v)
                return self.get(p)
            if op in ("==", "!="):
                a, b = self.val(n["L"], env, this), self.val(n["R"], env, this)
                if isinstance(a, Cell):
                    a = a.value
                if isinstance(b, Cell):
                    b = b.value
                if isinstance(a, tuple) and isinstance(b, tuple):
                    r = a[1] is b[1]
                else:
                    r = a is b
                return r if op == "==" else not r
            if op == "&&":
                return self.truth(n["L"], env, this) and self.truth(n["R"], env, this)
            if op == "||":
                return self.truth(n["L"], env, this) or self.truth(n["R"], env, this)
            if op == ",":
                self.val(n["L"], env, this)
                return self.val(n["R"], env, this)
            raise Gap("operator " + op)
        if k == "cond":
            return self.val(n["a"] if self.truth(n["c"], env, this) else n["b"], env, this)
        if k == "cast":
            return self.val(n["e"], env, this)
        if k in ("dctor", "ctor"):
            args = [self.val(a, env, this) for a in n.get("args", [])]
            if "ref_count<" not in n["t"]:
                raise Gap("construction of " + n["t"])
            c = Cell("tmp")
            self.construct(c, args)
            return c
        if k == "call":
            return self.callx(n, env, this)
        raise Gap("%s %s" % (k, show(n)[:60]))

    def truth(self, n, env, this):
        v = self.val(n, env, this)
        if isinstance(v, Cell):
            v = v.value
        return bool(v is not None and v is not False and v != 0) if not isinstance(v, Obj) else True

    def callx(self, n, env, this):
        c = n.get("callee")
        args = n.get("args", [])
        name = (c or {}).get("n") or n.get("fn", "").split("::")[-1].split("<")[0]
        if name in ("move", "forward") and len(args) == 1:
            v = self.val(args[0], env, this)
            return ("move", v) if isinstance(v, Cell) else v
        if name == "swap" and len(args) == 2:
            a, b = self.place(args[0], env, this), self.place(args[1], env, this)
            if a[0] == "cell" and b[0] == "cell":
                a, b = ("value", a[1]), ("value", b[1])
            x, y = self.get(a), self.get(b)
            self.put(a, y)
            self.put(b, x)
            return None
        if name == "exchange" and len(args) == 2:
            a = self.place(args[0], env, this)
            x = self.get(a)
            self.put(a, self.val(args[1], env, this))
            return x
        if name in ("add_ref", "release") and not args:
            b = c.get("b") if c is not None else n.get("obj")
            v = self.val(b, env, this)
            if isinstance(v, tuple) and v[0] == "deref":
                v = v[1]
            v = self.ptr(v) if isinstance(v, Cell) else v
            (self.heap.add if name == "add_ref" else self.heap.release)(v)
            return None
        cands = self.find(name)
        if cands:
            b = (c or {}).get("b") if c is not None else n.get("obj")
            on = this
            if b is not None and b["k"] != "this":
                on = self.val(b, env, this)
                if isinstance(on, tuple):
                    on = on[1]
            if not isinstance(on, Cell) and not cands[0].static:
                raise Gap("call on " + show(b)[:40])
            vs = [self.val(a, env, this) for a in args]
            m = self.pick(cands, vs, name)
            return self.call(m, on, [v[1] if isinstance(v, tuple) and v[0] == "move" else v for v in vs])
        raise Gap("call of " + name)

    # -- statements
    def full(self, n, env, this):
        v = self.val(n, env, this)
        if isinstance(v, Cell) and v.name == "tmp":
            self.destroy([v])

    def stmt(self, n, env, this, scopes):
        if n is None:
            return
        k = n["k"]
        if k == "block":
            scopes.append([])
            for x in n["c"]:
                self.stmt(x, env, this, scopes)
            self.destroy(scopes.pop())
        elif k == "if":
            if n.get("var") or n.get("init"):
                raise Gap("declaration in a condition")
            self.stmt(n["a"] if self.truth(n["c"], env, this) else n.get("b"), env, this, scopes)
        elif k == "return":
            v = None
            if n.get("e") is not None:
                v = self.val(n["e"], env, this)
            raise Ret(v)
        elif k == "decl":
            for v in n["v"]:
                t = v["t"]
                init = v.get("init")
                if "ref_count<" in t and not t.endswith(("*", "&")):
                    cell = Cell("local")
                    args = []
                    if init is not None:
                        xs = init.get("args", []) if init["k"] in ("ctor", "dctor") else init.get("c", []) if init["k"] == "other" else [init]
                        args = [self.val(x, env, this) for x in xs]
                    if len(args) == 1 and isinstance(args[0], Cell) and args[0].name == "tmp":
                        cell = args[0]
                    else:
                        self.construct(cell, args)
                    scopes[-1].append(cell)
                    env[v["n"]] = ["cell", cell]
                elif t.endswith("&"):
                    p = self.place(init, env, this)
                    if p[0] == "cell":
                        env[v["n"]] = ["cell", p[1]]
                    else:
                        raise Gap("reference to a pointer")
                else:
                    x = self.val(init, env, this) if init is not None else None
                    env[v["n"]] = ["val", x]
        elif k in ("empty", "null_stmt"):
            pass
        elif k == "other" and n.get("cls") == "NullStmt":
            pass
        else:
            self.full(n, env, this)


def states(f):
    """(this value, argument kind, ...) descriptions of the configurations a member is run in."""
    k = f.kind
    t = f.params[0]["t"].strip() if f.params else None
    handle = t is not None and (t.endswith("&") and "ref_count<" in t or not t.endswith("*"))
    thises = [None] if k == "ctor" or f.static else [None, "P"]
    for th in thises:
        if t is None:
            yield th, None, 1
            continue
        for a in ([None, "P", "Q"] + (["this"] if handle and k != "ctor" else [])):
            for ext in ((0, 1) if a in ("P", "Q") else (0,)):
                yield th, a, ext
        if th == "P":
            yield th, "Qin", 0


def run_member(methods, f, th, a, ext):
    heap = Heap()
    P, Q = Obj("P", 0), Obj("Q", 0)
    objs = {"P": P, "Q": Q}
    this = Cell("this", objs.get(th))
    if f.kind == "ctor":
        this.value = UNSET
    cells = [this]
    if th:
        objs[th].refs += 1
    args = []
    moved = False
    if f.params:
        t = f.params[0]["t"].strip()
        handle = (t.endswith("&") and "ref_count<" in t) or not t.endswith("*")
        v = objs.get(a) if a != "Qin" else Q
        if a == "Qin":
            other = Cell("other", Q)      # the handle inside P
            P.inside.append(other)
            cells.append(other)
            Q.refs += 1
            args = [other] if handle else [Q]
        elif handle:
            if a == "this":
                args = [this]
            else:
                other = Cell("other", v)
                cells.append(other)
                if v:
                    v.refs += 1 + ext
                args = [other]
        else:
            args = [v]
            if v:
                # a raw pointer: somebody holds it, unless the object is new or it is only held by this
                v.refs += ext
        moved = t.endswith("&&")
    if f.n == "assume" and args and args[0] is not None:
        args[0].refs += 1
    before = {o.name: o.refs for o in objs.values()}
    old_this = this.value
    old_arg = args[0].value if args and isinstance(args[0], Cell) else (args[0] if args else None)
    it = Interp(methods, heap)
    out = it.call(f, this, args)
    if f.kind == "dtor":
        cells = [c for c in cells if c is not this]
    if this.value is UNSET:
        if f.static:
            cells.remove(this)
        else:
            return "the handle is left without a value"
    if isinstance(out, Cell) and all(out is not c for c in cells):
        cells.append(out)
    if isinstance(out, tuple) and out[0] == "move":
        raise Gap("returns a moved handle")
    # external references: what the configuration gave besides the handles
    exts = {"P": 0, "Q": 0}
    if f.params and a in ("P", "Q"):
        exts[a] = ext
    if f.n == "take" and old_this is not None:
        exts[old_this.name] += 1        # handed to the caller
    for o in objs.values():
        held = sum(1 for c in cells if c.value is o and not c.gone) + exts[o.name]
        if o.alive and o.refs != held:
            if o.refs == 0 and before[o.name] == 0:
                continue
            return "the count of an object is %d while %d references to it exist" % (o.refs, held)
        if not o.alive and held:
            return "an object is destroyed while %d references to it exist" % held
    # what the member is for
    if f.kind == "ctor" and f.params or f.n == "operator=":
        if a == "this" and moved:
            return None
        if this.value is not old_arg:
            return "the handle does not hold what it was given"
        if args and isinstance(args[0], Cell) and not moved and a != "Qin" and args[0].value is not old_arg:
            return "a copied handle changes"
    if f.n == "take" and (out is not old_this or this.value is not None):
        return "take does not hand over the object"
    if f.n == "assume" and (not isinstance(out, Cell) or out.value is not old_arg):
        return "assume does not hold the object"
    if f.kind == "conv" or f.n in ("operator->", "operator*"):
        if this.value is not old_this:
            return "reading a handle changes it"
        got = out.value if isinstance(out, Cell) else out[1] if isinstance(out, tuple) else out
        if got is not old_this:
            return "reading a handle does not give its object"
    return None


def handles(res, prog):
    ms = [f for f in prog.functions if f.dep and f.recq and f.recq.startswith("slinky::ref_count<")
          or f.dep and re.match(r"slinky::ref_count::", f.q)]
    seen, methods = set(), []
    for f in ms:
        if (f.file, f.line, f.n, tuple(p["t"] for p in f.params)) not in seen:
            seen.add((f.file, f.line, f.n, tuple(p["t"] for p in f.params)))
            methods.append(f)
    n = 0
    for f in methods:
        name = f.n if f.kind not in ("ctor", "dtor") else f.kind
        sig = "%s(%s)" % (name, ", ".join(p["t"].replace("slinky::", "").replace("<type-parameter-0-0>", "").replace("type-parameter-0-0", "T")
                                          for p in f.params))
        runs = 0
        for th, a, ext in states(f):
            if f.acc == "private" or f.acc == "protected":
                break
            desc = "this holds %s%s" % (th or "null", "" if not f.params else ", the argument is %s%s" % (
                {"Qin": "Q, owned only by P", "this": "this handle itself", None: "null"}.get(a, a), " (also held elsewhere)" if ext and a else ""))
            if f.kind != "ctor" and f.n != "operator=" and f.n not in ("take", "assume", "operator->", "operator*") and f.kind not in ("dtor", "conv") and f.params:
                pass
            if (f.n in ("operator->", "operator*")) and th is None:
                continue
            try:
                why = run_member(methods, f, th, a, ext)
            except Gap as e:
                res.note("%s: not decided: %s" % (sig, e))
                continue
            except Dead as e:
                why = str(e)
            if why:
                res.bad("ref_count::%s: %s" % (sig, why), FILE, f.line, "ref_count::%s, when %s: %s" % (sig, desc, why),
                        ["slinky::ref_count::" + sig, desc])
            else:
                runs += 1
        if runs:
            n += runs
            res.ok("ref_count::%s: balanced in %d configurations" % (sig, runs))
    res.count("configurations", n)
    res.need(n, "configurations of handles decided", 25)


# -- the counter

ORD = {"memory_order_relaxed": 0, "memory_order_consume": 1, "memory_order_acquire": 1, "memory_order_release": 2, "memory_order_acq_rel": 3,
       "memory_order_seq_cst": 3}


class Count:
    """Interprets a counting member from a given count, recording the atomic operations."""

    def __init__(self, start, methods=()):
        self.v, self.ops, self.dest, self.fence = start, [], 0, 0
        self.env, self.methods = {}, methods
        self.depth = 0

    def order(self, args):
        for a in args:
            if a.get("k") == "ref" and a["n"] in ORD:
                return ORD[a["n"]]
            if a.get("k") in ("cxxdefault", "defarg"):
                return 3
            if "memory_order" in str(a.get("t", "")):
                if isinstance(a.get("cv"), int):
                    return {0: 0, 1: 1, 2: 1, 3: 2, 4: 3, 5: 3}.get(a["cv"], 0)
                s = show(a)
                for k, v in ORD.items():
                    if k.split("memory_order_")[1] in s:
                        return v
        return 3

    def is_count(self, n):
        while n["k"] == "paren":
            n = n["e"]
        return n["k"] in ("mem", "dmem") and n["n"] == "ref_count_" and n.get("b", {}).get("k") in ("this", None)

    def val(self, n):
        k = n["k"]
        if k in ("paren", "cast"):
            if k == "cast" and "Const" in str(n.get("ck", "")):
                pass
            return self.val(n["e"])
        if k == "lit" and "cv" in n:
            return n["cv"]
        if isinstance(n.get("cv"), (int, bool)):
            return n["cv"]
        if k == "this":
            return "this"
        if k == "ref" and n["n"] in self.env:
            return self.env[n["n"]]
        if k == "call":
            args = n.get("args", [])
            name = n.get("fn", "").split("::")[-1] or (n.get("callee") or {}).get("n", "")
            obj = n.get("obj")
            if obj is not None and self.is_count(obj):
                if name in ("fetch_add", "fetch_sub"):
                    d = self.val(args[0])
                    old = self.v
                    self.v += d if name == "fetch_add" else -d
                    self.ops.append(("rmw", self.order(args[1:])))
                    return old
                if name in ("operator++", "operator--"):
                    old = self.v
                    self.v += 1 if name == "operator++" else -1
                    self.ops.append(("rmw", 3))
                    return self.v if not args else old
                if name in ("operator+=", "operator-="):
                    self.v += self.val(args[0]) if name == "operator+=" else -self.val(args[0])
                    self.ops.append(("rmw", 3))
                    return self.v
                if name == "load" or name.startswith("operator"):
                    self.ops.append(("load", self.order(args)))
                    return self.v
                if name in ("store", "operator="):
                    self.v = self.val(args[0])
                    self.ops.append(("store", self.order(args[1:])))
                    return self.v
                raise Gap("atomic " + name)
            if name == "destroy" or (n.get("callee") or {}).get("n") == "destroy":
                self.dest += 1
                self.ops.append(("destroy", 0))
                return None
            if name == "atomic_thread_fence":
                self.ops.append(("fence", self.order(args)))
                return None
            if n["k"] == "call" and not args and (obj is not None and obj["k"] == "ref" or (n.get("callee") or {}).get("b", {}).get("k") == "ref"):
                return 999      # something of another object
            for m in self.methods:
                if m.n == (name or (n.get("callee") or {}).get("n")) and not m.params and self.depth < 4:
                    self.depth += 1
                    return self.run(m.body)
            raise Gap("call " + show(n)[:50])
        if k == "un":
            if n["op"] in ("++", "--") or n["op"].endswith(("++", "--")):
                if self.is_count(n["e"]):
                    self.v += 1 if "++" in n["op"] else -1
                    self.ops.append(("rmw", 3))
                    return self.v
            v = self.val(n["e"])
            if n["op"] == "-":
                return -v
            if n["op"] == "!":
                return not v
            if n["op"] == "*":
                return v
        if k == "bin":
            op = n["op"]
            if op == "=" and self.is_count(n["L"]):
                self.v = self.val(n["R"])
                self.ops.append(("store", 3))
                return self.v
            a = self.val(n["L"])
            if op == "&&" and not a or op == "||" and a:
                return bool(a)
            b = self.val(n["R"])
            try:
                return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                        ">=": lambda: a >= b, "+": lambda: a + b, "-": lambda: a - b, "&&": lambda: bool(b), "||": lambda: bool(b)}[op]()
            except KeyError:
                raise Gap("operator " + op)
        raise Gap("%s %s" % (k, show(n)[:50]))

    def run(self, n):
        """Value returned, or None; Ret is used for early returns."""
        try:
            self.stmt(n)
        except Ret as r:
            return r.v
        return None

    def stmt(self, n):
        if n is None:
            return
        if n["k"] == "block":
            for x in n["c"]:
                self.stmt(x)
        elif n["k"] == "if" and not n.get("var"):
            if n.get("init"):
                self.stmt(n["init"])
            self.stmt(n["a"] if self.val(n["c"]) else n.get("b"))
        elif n["k"] == "return":
            raise Ret(self.val(n["e"]) if n.get("e") else None)
        elif n["k"] == "decl":
            for v in n["v"]:
                if v.get("init") is not None:
                    self.env[v["n"]] = self.val(v["init"])
        elif n["k"] == "empty" or n.get("cls") == "NullStmt":
            pass
        else:
            self.val(n)


def counter(res, prog):
    seen, ms = set(), []
    for f in prog.functions:
        if f.dep and f.q.startswith("slinky::ref_counted::") and (f.line, f.n) not in seen:
            seen.add((f.line, f.n))
            ms.append(f)
    res.need(len(ms), "members of ref_counted", 4)
    n = 0
    for f in ms:
        if f.kind == "dtor" or f.acc in ("private", "protected"):
            continue
        name = f.n if f.kind != "ctor" else "constructor"
        for i in f.inits:
            if i.get("f") == "ref_count_" and i.get("written"):
                if any(isinstance(x.get("cv"), int) and x["cv"] != 0 for x in walk(i["e"])) or \
                        any(x["k"] in ("mem", "dmem") for x in walk(i["e"])):
                    res.bad("ref_counted %s starts from another count" % name, f.file, f.line,
                            "a new object's count does not start at zero in %s" % f.q, [f.q])
        for start in (1, 2, 3):
            c = Count(start, ms)
            try:
                out = c.run(f.body)
            except Gap as e:
                res.note("ref_counted::%s: not decided: %s" % (name, e))
                break
            rmw = [o for o in c.ops if o[0] in ("rmw", "store")]
            want = start + (1 if f.n == "add_ref" else -1 if f.n == "release" else 0)
            why = None
            if c.v != want:
                why = "changes the count from %d to %d" % (start, c.v)
            elif f.n in ("add_ref", "release") and (len(rmw) != 1 or rmw[0][0] != "rmw" or any(o[0] == "load" for o in c.ops)):
                why = "changes the count in more than one atomic operation"
            elif f.n == "release" and c.dest != (1 if start == 1 else 0):
                why = "destroys the object %d times when the count goes from %d to %d" % (c.dest, start, c.v)
            elif f.n != "release" and c.dest:
                why = "destroys the object"
            elif f.n == "release" and not rmw[0][1] & 2:
                why = "what was done to the object before is not released to the thread that destroys it"
            elif f.n == "release" and start == 1:
                acq = rmw[0][1] & 1
                for o in c.ops[c.ops.index(rmw[0]):]:
                    if o[0] == "fence" and o[1] & 1:
                        acq = 1
                    if o[0] == "destroy" and not acq:
                        why = "the object is destroyed without acquiring what other threads did to it"
            elif f.n == "ref_count" and out != start:
                why = "gives %s for a count of %d" % (out, start)
            if why:
                res.bad("ref_counted::%s %s" % (name, re.sub(r"\d", "n", why)), f.file, f.line, "ref_counted::%s %s" % (name, why), [f.q])
                break
            n += 1
        else:
            res.ok("ref_counted::%s: counts" % name)
    res.need(n, "configurations of the counter", 12)


# -- nodes

def node_types(prog):
    out = set()
    for q in prog.records:
        try:
            if any(re.match(r"slinky::base_node<slinky::", b) for b in prog.bases_closure(q)):
                out.add(q)
        except AnalysisBroken:
            pass
    return out


def bare(t):
    return t.replace("const ", "").replace("struct ", "").replace("class ", "").rstrip("*& ").strip()


def is_node(t, nodes):
    b = bare(t)
    return b in nodes or b.startswith("slinky::base_node<") or b in ("slinky::base_expr_node", "slinky::base_stmt_node")


def nodes_const(res, prog):
    nodes = node_types(prog)
    res.need(len(nodes), "kinds of node", 20)
    for q in sorted(nodes):
        r = prog.records[q]
        muts = [x["n"] for x in r["fields"] if x.get("mut")]
        if muts:
            res.bad("%s has a mutable field" % q, r["file"], r["l"], "%s of %s can change while the node is shared" % (muts[0], q), [q])
        else:
            res.ok("%s: no field changes through a handle to a constant node" % q)
    for q, r in prog.records.items():
        if not q.startswith("slinky::ref_count<") or "base_node" not in q:
            continue
        t = [x["t"] for x in r["fields"] if x["n"] == "value"]
        if t and not t[0].startswith("const "):
            res.bad("%s is to nodes that may change" % q, r["file"], r["l"], "the handles of nodes give access to change shared nodes", [q])
        elif t:
            res.ok("%s: gives only constant nodes" % q[:60])
    ncast = nw = nl = 0
    done = set()
    for f in prog.functions:
        if not f.file.startswith("slinky/"):
            continue
        key = (f.file, f.line, f.q)
        if key in done:
            continue
        done.add(key)
        in_rc = f.file == FILE
        fresh, stat, owned = {}, {}, {}
        order = 0
        escaped = {}
        body = list(walk_fn(f))
        # fresh nodes: locals whose every value is a new object
        for n in body:
            if n["k"] == "decl":
                for v in n["v"]:
                    t = v["t"]
                    if t.endswith("*") and is_node(t, nodes) and not t.startswith("const "):
                        fresh[v["d"]] = v.get("init")
                    elif bare(t) in nodes and not t.endswith(("*", "&")):
                        stat[v["d"]] = v
                        nl += 1
        for d, v in stat.items():
            kept = any(n["k"] == "call" and n.get("fn", "").endswith("::add_ref") and (n.get("obj") or {}).get("d") == d for n in body)
            if not v.get("static"):
                res.bad("%s: a node that is not allocated" % f.q, f.file, v["l"], "%s of %s is destroyed while handles may hold it" % (v["n"], f.q), [f.q])
            elif not kept:
                res.bad("%s: a static node is not kept" % f.q, f.file, v["l"],
                        "the count of the static %s of %s can reach zero, which deletes it" % (v["n"], f.q), [f.q])
            else:
                res.ok("%s: static node holds a reference to itself" % f.q)
        for n in body:
            if n["k"] == "call" and not in_rc:
                nm = n.get("fn", "").split("::")[-1]
                rec = n.get("rec", "") or ""
                if nm in ("add_ref", "release") and "ref_counted<" in n.get("fn", "") + rec:
                    o = n.get("obj") or {}
                    if nm == "release" or o.get("d") not in stat:
                        res.bad("%s: counts by hand" % f.q, f.file, n["l"], "%s is called outside of the handles" % nm, [f.q])
            if n["k"] == "cast" and not in_rc:
                to = n["t"]
                if to.endswith(("*", "&")) and is_node(to, nodes):
                    ncast += 1
                    frm = (n.get("e") or {}).get("t", "")
                    if not to.startswith("const ") and (n.get("ck") or n.get("cls") or "") != "CXXStaticCastExpr" or \
                            not to.startswith("const ") and frm.startswith("const "):
                        res.bad("%s: casts away const from a node" % f.q, f.file, n["l"], "%s makes a shared node changeable" % show(n)[:80], [f.q])
            if n["k"] == "delete" and is_node(str((n.get("e") or {}).get("t", "")), nodes) and f.n != "destroy":
                res.bad("%s: deletes a node" % f.q, f.file, n["l"], "a node is deleted by hand", [f.q])
    res.count("casts to nodes", ncast)
    res.count("nodes that are variables", nl)


def check(res, tier):
    res.rule("balanced", "after every member of ref_count the count of each object is the number of handles that hold it, and no object is touched "
             "after it was destroyed")
    res.rule("counter", "the count changes by one atomic operation; the object is destroyed exactly once, by whoever brings it to zero, after "
             "acquiring what other holders did; copying an object does not copy its count")
    res.rule("shared-nodes-constant", "handles give constant nodes; no cast removes that, no field of a node is mutable")
    res.rule("allocated", "nodes that are not allocated hold a reference to themselves; nothing outside the handles counts or deletes")
    prog = Program()
    for part in (handles, counter, nodes_const):
        try:
            part(res, prog)
        except AnchorMissing as e:
            res.note("not decided: %s" % e)
    res.need(len(res.instances), "obligations", 20)
