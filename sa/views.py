"""Abstract interpretation of the code that defines and changes buffers: the members of dim and raw_buffer and the interpreter's
evaluation of buffer statements.

Integers and addresses are polynomials under linear path constraints (sa/kernel.py). An array of dimensions is a list of
writes on top of unknown contents: a write of one element at a symbolic index, or a segment of elements described by a
function of the index. A loop is never unrolled: its body is interpreted once for an arbitrary iteration, in which everything
the loop changes is unknown except that counters have moved in one direction, and its effect on arrays is summarised as a
segment. Reading an expression of the node yields an opaque value named after the place it comes from.
"""
from .kernel import Kernel, S, P, Unsupported
from .program import walk

ONE = P.c(1)
DIM = ("min_", "max_", "stride_", "fold_factor_")


class V(S):
    def copy(self):
        x = S.copy(self)
        x.__class__ = V
        return x


def isloc(v):
    return isinstance(v, tuple) and v and v[0] in ("loc", "elt")


class Views(Kernel):
    MAXP = 400

    def __init__(self, prog):
        Kernel.__init__(self, prog)
        self.ops = {}          # opaque atom -> (function, arguments)
        self.uses = {}         # atom -> opaque atoms with it among their arguments
        self.arrays = {}       # array -> "content" | "uninit"
        self.loops = []
        self.events = []
        self.reads = None      # reads of pre-loop contents, while a loop body is interpreted
        self.quiet = 0
        self.fields = {}       # array -> fields of its elements

    # -- opaque values
    def mk(self, fn, *args):
        name = "%s(%s)" % (fn, ",".join(repr(a) for a in args)) if args else fn
        if name not in self.ops:
            self.ops[name] = (fn, args)
            for a in args:
                for x in a.atoms() if isinstance(a, P) else ():
                    self.uses.setdefault(x, []).append(name)
        return P.a(name)

    def subst(self, s, a, val):
        m = self.closure({a: val})
        # What is known about a value under its old name holds under its new one.
        for name in list(m):
            if name not in self.ops or name == a:
                continue
            (new,) = m[name].atoms() or (None,)
            old = self.fixed(s, P.a(name))
            if new is None or new == name or old == P.a(name):
                continue
            cur = self.fixed(s, P.a(new))
            old = psub(old, m)
            if cur == P.a(new):
                m[new] = old
            else:
                s.add(old - cur, cur - old)
            m[name] = old
        self.apply(s, m)

    def apply(self, s, m):
        go = lambda x: deep(x, m)
        s.env = {(go(k) if isinstance(k, tuple) else k): go(v) for k, v in s.env.items()}
        s.cons = [go(c) for c in s.cons]
        s.nz = [go(c) for c in s.nz]
        s.sub.append(m)

    def fixed(self, s, v, since=0):
        """v, expressed before the substitutions made on this path."""
        for m in s.sub[since:]:
            v = deep(v, m)
        return v

    # -- memory
    def resolve(self, s, loc):
        while loc[0] == "loc" and isloc(s.env.get(loc[1])):
            r = s.env[loc[1]]
            loc = ("loc", r[1], r[2] + loc[2]) if r[0] == "loc" else ("elt", r[1], r[2], r[3] + loc[2])
        return loc

    def load(self, s, v):
        n = 0
        while isloc(v):
            n += 1
            if n > 20:
                raise Unsupported("reference cycle")
            v = self.resolve(s, v)
            if v[0] == "elt":
                rec = self.element(s, v[1], v[2])
                x = rec
                for f in v[3]:
                    x = x[1][f]
                v = x
                continue
            x = s.env.get(v[1])
            for f in v[2]:
                if isinstance(x, tuple) and x and x[0] == "node":
                    x = ("node", x[1] + (f,))
                    continue
                if not isinstance(x, tuple) or x[0] != "rec" or f not in x[1]:
                    raise Unsupported("field %s of unknown value" % f)
                x = x[1][f]
            v = x
        if v is None:
            raise Unsupported("uninitialised value")
        return v

    def store(self, s, loc, v):
        loc = self.resolve(s, loc)
        if loc[0] == "elt":
            _, arr, idx, path = loc
            v = self.load(s, v)
            rec = v if not path else self.put(self.element(s, arr, idx, True), path, v)
            k = "@" + arr
            s.env[k] = s.env.get(k, ()) + (("elem", idx, rec),)
            return
        d, path = loc[1], loc[2]
        if not path:
            s.env[d] = v
        else:
            s.env[d] = self.put(s.env.get(d), path, v)

    def element(self, s, arr, idx, forwrite=False):
        for e in reversed(s.env.get("@" + arr, ())):
            if e[0] == "elem":
                d = idx - e[1]
                if s.zero(d):
                    return e[2]
                if not s.nonzero(d):
                    raise Split(d)
            elif e[0] == "seg":
                _, lo, hi, var, sign, c, rec = e
                if s.implies(idx - lo) and s.implies(hi - ONE - idx):
                    m = self.closure({var: P.c(sign) * (idx - c)})
                    if isinstance(rec, tuple) and rec[0] == "alts":
                        rec = self.choose(s, deepm(deep(rec[1], m), s.sub))
                        return rec
                    return deepm(deep(rec, m), s.sub)
                if s.implies(lo - ONE - idx) or s.implies(idx - hi):
                    continue
                if not s.implies(idx - lo):
                    raise Split(idx - lo, True)
                raise Split(hi - ONE - idx, True)
            else:
                raise Unsupported("array contents not known")
        if self.reads is not None:
            self.reads.append((arr, idx, s.copy()))
        return ("rec", {f: self.content(s, arr, idx, f) for f in self.fields.get(arr, DIM)})

    def choose(self, s, alts):
        """The alternative that path s is in."""
        for i, (conds, rec) in enumerate(alts):
            if i == len(alts) - 1:
                return rec
            todo = [c for c in conds if not s.implies(c)]
            if not todo:
                return rec
            for c in todo:
                if not s.implies(-c - ONE):
                    raise Split(c, True)

    def closure(self, m):
        """A substitution, extended to the opaque values that have what it changes among their arguments."""
        m = dict(m)
        todo = list(m)
        while todo:
            for name in list(self.uses.get(todo.pop(), ())):
                fn, args = self.ops[name]
                new = self.mk(fn, *[psub(x, m) if isinstance(x, P) else x for x in args])
                if m.get(name) != new:
                    if name not in m or name in self.ops:
                        m[name] = new
                    todo.append(name)
        return m

    def content(self, s, arr, idx, f):
        return self.fixed(s, self.mk("%s.%s" % (arr, f) if self.arrays.get(arr) != "uninit" else "uninit:%s.%s" % (arr, f), idx))

    # -- the engine: places where an array access is not known to hit or miss an entry split the path
    def ev(self, n, s):
        if n.get("cv") is not None and n["k"] in ("mem", "ref") and "s" not in n and (n["k"] == "mem" or n.get("g")):
            return [(s, P.c(int(n["cv"])))]
        try:
            return Kernel.ev(self, n, s)
        except Split as e:
            if e.node is None:
                e.node = n
            raise

    def stmt(self, n, sts, done):
        if n is None or not sts:
            return sts
        if n["k"] == "block":
            for c in n["c"]:
                sts = self.stmt(c, sts, done)
            return sts
        out = []
        for s in sts:
            if s.env.get("!sig"):
                out.append(s)
            else:
                out += self.step(n, s, done, 0)
        if len(out) > self.MAXP:
            raise Unsupported("too many paths")
        return out

    def step(self, n, s, done, depth):
        k = n["k"]
        try:
            d2 = []
            w = s.copy()
            w.ret = None
            if k in ("for", "while"):
                r = self.loop(n, w, d2)
            elif k == "if" and n.get("var") and n["var"].get("init") is not None:
                r = []
                for w2, v in self.ev(n["var"]["init"], w):
                    w2.env[n["var"]["d"]] = self.load(w2, v) if isloc(v) and not n["var"]["t"].endswith("&") else v
                    r += Kernel.stmt(self, n, [w2], d2)
            elif k in ("break", "continue"):
                w.env["!sig"] = k
                r = [w]
            elif k == "assert":
                r = [w]
            elif k == "decl":
                r = Kernel.stmt(self, n, [w], d2)
                for v in n["v"]:
                    if v["t"].replace("const ", "") in ("int", "long", "unsigned long", "slinky::index_t", "std::size_t"):
                        for w2 in r:
                            if isinstance(w2.env.get(v["d"]), tuple) and w2.env[v["d"]][0] == "node":
                                w2.env[v["d"]] = self.value(w2, w2.env[v["d"]])
            else:
                r = Kernel.stmt(self, n, [w], d2)
            done += d2
            return r
        except Split as e:
            if depth > 6 or k in ("if", "for", "while", "block") and depth > 6:
                raise Unsupported("array access not decided")
            out = []
            for s2, _ in (self.split_ge(s, e.d) if e.ge else self.split_eq(s, e.d, P.c(0))):
                out += self.step(n, s2, done, depth + 1)
            return out

    def run(self, f, args, s, this=None):
        old = s.env.get("this")
        if this is not None:
            s.env["this"] = this
        if self.depth > 14:
            raise Unsupported("recursion")
        s = s.copy()
        for i, p in enumerate(f.params):
            v = args[i] if i < len(args) else self.default(p, f, i)
            ref = p["t"].rstrip().endswith("&")
            s.env[p["d"]] = v if ref else self.load(s, v) if isloc(v) else v
        self.depth += 1
        done = []
        try:
            live = self.stmt(f.body, [s], done)
        finally:
            self.depth -= 1
        out = []
        for st in done + live:
            v = st.ret
            st.ret = None
            st.env.pop("!sig", None)
            if this is not None:
                if old is None:
                    st.env.pop("this", None)
                else:
                    st.env["this"] = old
            out.append((st, v))
        return out

    def default(self, p, f, i):
        return P.c(0)

    # -- expressions
    def e_this(self, n, s):
        return [(s, s.env["this"])]

    def e_null(self, n, s):
        return [(s, P.c(0))]

    def e_lit(self, n, s):
        if "cv" not in n:
            return [(s, None)]
        return Kernel.e_lit(self, n, s)

    def e_ref(self, n, s):
        if n.get("d") in s.env:
            return [(s, ("loc", n["d"], ()))]
        if n["n"] == "broadcast_":
            return [(s, ("loc", "broadcast", ()))]
        if n.get("cv") is not None:
            return [(s, P.c(int(n["cv"])))]
        if n.get("dk") == "var" and n.get("g"):
            return [(s, None)]
        raise Unsupported("variable " + n["n"])

    def deref(self, s, v):
        if isloc(v):
            w = self.resolve(s, v)
            v2 = self.load(s, v)
            if isinstance(v2, tuple) and v2[0] in ("ptr", "aptr", "node"):
                v = v2
            else:
                return w
        if isinstance(v, tuple) and v[0] == "ptr":
            return v[1]
        if isinstance(v, tuple) and v[0] == "aptr":
            return ("elt", v[1], v[2], ())
        if isinstance(v, tuple) and v[0] == "node":
            return v
        raise Unsupported("dereference")

    def member(self, s, b, name):
        if isinstance(b, tuple) and b[0] == "node":
            return ("node", b[1] + (name,))
        if b[0] == "loc":
            b = self.resolve(s, b)
            x = s.env.get(b[1])
            if isinstance(x, tuple) and x and x[0] == "node":
                return ("node", x[1] + b[2] + (name,))
            if b[0] == "loc":
                return ("loc", b[1], b[2] + (name,))
        if b[0] == "elt":
            return ("elt", b[1], b[2], b[3] + (name,))
        if b[0] == "rec":
            return b[1][name]
        raise Unsupported("member " + name)

    def e_mem(self, n, s):
        out = []
        for s2, b in self.ev(n["b"], s):
            if n["b"]["k"] == "this" or n.get("arrow"):
                if b == ("self",):
                    out.append((s2, ("selfmem", n["n"])))
                    continue
                b = self.deref(s2, b)
            if b is None or b[0] in ("selfmem",):
                out.append((s2, ("selfmem", n["n"])))
                continue
            out.append((s2, self.member(s2, b, n["n"])))
        return out

    def e_idx(self, n, s):
        out = []
        for s2, (b, i) in self.evs([n["b"], n["i"]], s):
            out.append((s2, self.at(s2, b, i)))
        return out

    def at(self, s, b, i):
        if isloc(b):
            b = self.load(s, b)
        if isloc(i):
            i = self.load(s, i)
        if isinstance(i, tuple) and i and i[0] == "node":
            i = self.value(s, i)
        if isinstance(b, tuple) and b[0] == "aptr":
            return ("elt", b[1], b[2] + i, ())
        if isinstance(b, tuple) and b[0] == "node":
            return ("node", b[1] + (("i", i),))
        raise Unsupported("subscript")

    def value(self, s, v):
        """A node path as a number."""
        if isinstance(v, tuple) and v and v[0] == "node":
            return self.nodeval(s, v[1], "data")
        return v

    def nodeval(self, s, path, kind):
        if path[-1] == "max" and ("point", path[:-1]) in s.env:
            path = path[:-1] + ("min",)
        name = kind + ":" + ".".join(x if isinstance(x, str) else "[]" for x in path)
        return self.fixed(s, self.mk(name, *[x[1] for x in path if not isinstance(x, str)]))

    def e_un(self, n, s):
        op = n["op"]
        if op == "*":
            return [(s2, self.deref(s2, v)) for s2, v in self.ev(n["e"], s)]
        if op == "&":
            out = []
            for s2, v in self.ev(n["e"], s):
                if isloc(v):
                    v = self.resolve(s2, v)
                    v = ("aptr", v[1], v[2]) if v[0] == "elt" and not v[3] else ("ptr", v)
                out.append((s2, v))
            return out
        if op in ("++", "--"):
            out = []
            for s2, v in self.ev(n["e"], s):
                x = self.load(s2, v)
                if isinstance(x, tuple) and x[0] == "node":
                    x = self.value(s2, x)
                dl = P.c(1 if op == "++" else -1)
                y = ("aptr", x[1], x[2] + dl) if isinstance(x, tuple) and x[0] == "aptr" else x + dl
                self.store(s2, v, y)
                out.append((s2, x if n.get("post") else (y if isinstance(y, P) else v)))
            return out
        return Kernel.e_un(self, n, s)

    def e_cast(self, n, s):
        return self.ev(n["e"], s)

    def arith(self, op, a, b, s, n):
        a, b = self.value(s, a), self.value(s, b)
        ptr = lambda x: isinstance(x, tuple) and x and x[0] in ("ptr", "aptr", "self")
        if ptr(a) or ptr(b):
            if op in ("==", "!="):
                z = b if ptr(a) else a
                if isinstance(z, P) and z.const() == 0:
                    return [(s, op == "!=")]
                if a[0] == "aptr" and b[0] == "aptr" and a[1] == b[1]:
                    r = self.split_eq(s, a[2], b[2])
                    return r if op == "==" else [(x, not y) for x, y in r]
            if op in ("+", "-") and ptr(a) and a[0] == "aptr" and isinstance(b, P):
                return [(s, ("aptr", a[1], a[2] + (b if op == "+" else -b)))]
            if op == "-" and ptr(a) and ptr(b) and a[1] == b[1]:
                return [(s, a[2] - b[2])]
            raise Unsupported("pointer " + op)
        if isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None:
            if op == "<<":
                return [(s, None)]
            raise Unsupported("operands of " + op)
        r = Kernel.arith(self, op, a, b, s, n)
        if op in ("+", "-") and "*" in n.get("t", "") and isinstance(a, P):
            for s2, v in r:
                if s2.nonzero(self.fixed(s2, a, 0)) or s2.nonzero(a):
                    s2.nz.append(v)
        return r

    def bits(self, op, a, b, s):
        return [(s, self.mk("bits" + op, a, b))]

    def as_bool(self, s, v):
        if isinstance(v, tuple) and v and v[0] in ("ptr", "aptr", "self"):
            return [(s, True)]
        if isinstance(v, tuple) and v and v[0] == "flag":
            return self.flag(s, v[1])
        if isinstance(v, tuple) and v and v[0] == "node":
            v = self.value(s, v)
        return Kernel.as_bool(self, s, v)

    def flag(self, s, key):
        if key in s.env:
            return [(s, s.env[key])]
        out = []
        for b in (True, False):
            x = s.copy()
            x.env[key] = b
            out.append((x, b))
        return out

    def opaque(self, s, v):
        return v

    # -- calls
    def e_ctor(self, n, s):
        t = n.get("t", "").replace("const ", "")
        args = [a for a in n["args"]]
        if len(args) == 1 and (n.get("copy") or n.get("move") or "expr" in t or t == "slinky::var"):
            return self.ev(args[0], s)
        if t.startswith("slinky::interval<") or t == "slinky::interval":
            if len(args) == 2:
                return [(s2, ("rec", {"min": self.num(s2, a), "max": self.num(s2, b)})) for s2, (a, b) in self.evs(args, s)]
        f = self.prog.callee(n.get("fid")) if n.get("fid") else None
        if t == "slinky::dim" and f is not None and f.inits is not None:
            return self.construct_dim(f, args, s)
        if t == "slinky::raw_buffer" and not args:
            return [(s, ("rec", {"base": P.a(self.fresh("uninit:base")), "elem_size": P.a(self.fresh("uninit:elem")), "rank": P.a(self.fresh("uninit:rank")), "dims": None}))]
        if t.endswith("allocated_buffer") and not args:
            return [(s, ("rec", {"base": P.c(0), "elem_size": P.a(self.fresh("uninit:elem")), "rank": P.a(self.fresh("uninit:rank")), "dims": None, "allocation": P.c(0)}))]
        if len(args) == 1:
            return self.ev(args[0], s)
        raise Unsupported("constructor of " + t)

    def construct_dim(self, f, args, s):
        out = []
        for s2, vs in self.evs(args, s):
            for i, p in enumerate(f.params):
                s2.env[p["d"]] = self.num(s2, vs[i]) if i < len(vs) else P.a(self.fresh("default"))
            m = {}
            st = s2
            for i in f.inits:
                name = i.get("field") or i.get("n") or i.get("m")
                r = self.ev(i["e"], st)
                if len(r) != 1:
                    raise Unsupported("initialiser")
                m[name] = self.num(st, r[0][1])
            out.append((s2, ("rec", m)))
        return out

    def num(self, s, v):
        if isloc(v):
            v = self.load(s, v)
        return self.value(s, v)

    def uninit(self, v):
        t = v["t"].replace("const ", "")
        if t == "slinky::raw_buffer" or t.endswith("allocated_buffer"):
            return ("rec", {k: None for k in ("base", "elem_size", "rank", "dims", "allocation")})
        return None

    def construct(self, n, args, s):
        t = n.get("t", "").replace("const ", "")
        if "interval" in t and len(args) == 2:
            return [(s2, ("rec", {"min": self.num(s2, a), "max": self.num(s2, b)})) for s2, (a, b) in self.evs(args, s)]
        if t == "slinky::dim" and len(args) == 4:
            return [(s2, ("rec", dict(zip(DIM, [self.num(s2, x) for x in vs])))) for s2, vs in self.evs(args, s)]
        if len(args) == 1:
            return self.ev(args[0], s)
        raise Unsupported("braced " + t)

    def e_lambda(self, n, s):
        raise Unsupported("lambda")

    def e_call(self, n, s):
        name = (n.get("fn") or (n.get("callee") or {}).get("n") or "")
        last = name.split("::")[-1].split("<")[0]
        args = [a for a in n["args"] if a["k"] != "defarg"]
        pt = [p.replace("const ", "").replace(" &", "") for p in n.get("pt", [])]
        if n.get("op") == "<<":
            return [(s, None)]
        if n.get("op") == "[]" and len(n["args"]) == 2:
            return [(s2, self.at(s2, b, i)) for s2, (b, i) in self.evs(n["args"], s, (0,))]
        if n.get("op") == "=" and len(n["args"]) == 2 and ((n.get("rec") or "") in ("slinky::dim", "slinky::raw_buffer") or (n.get("rec") or "").endswith("::interval")):
            out = []
            for s2, (r, l) in self.evs([n["args"][1], n["args"][0]], s, (1,)):
                if not isloc(l):
                    raise Unsupported("assignment")
                self.store(s2, l, r)
                out.append((s2, l))
            return out
        if n.get("op") in ("->", "*") and len(n["args"]) == 1:
            return self.ev(n["args"][0], s)
        if n.get("op") in ("==", "!=") and len(n["args"]) == 2 and pt[:1] == ["slinky::var"]:
            out = []
            for s2, (a, b) in self.evs(n["args"], s):
                key = ("same",) + tuple(sorted(repr(x) for x in (a, b)))
                for s3, v in self.flag(s2, key):
                    out.append((s3, v == (n["op"] == "==")))
            return out
        if last in ("__builtin_alloca_with_align", "__builtin_alloca"):
            arr = self.fresh("stack")
            out = []
            a = args[0]
            elem = next((x.get("at", "").split("::")[-1] for x in walk(a) if x["k"] == "sizeof"), "")
            self.arrays[arr] = "uninit"
            self.fields[arr] = DIM if elem == "dim" else ("min", "max")
            if not elem:
                self.fields[arr] = ("byte",)
            for s2, _ in self.ev(a, s):
                out.append((s2, ("aptr", arr, P.c(0)) if elem else P.a(self.fresh("stackmem"))))
            return out
        if last in ("min", "max") and len(args) == 2 and (name.startswith("std::")):
            out = []
            for s2, (a, b) in self.evs(args, s):
                a, b = self.num(s2, a), self.num(s2, b)
                out.append((s2, self.minmax(s2, last, a, b)))
            return out
        if last in ("min", "max", "lowest") and not args and "numeric_limits" in name:
            return [(s, P.c(int(n["cv"])) if n.get("cv") is not None else P.a(name + n.get("t", "")))]
        if last in ("move", "forward", "addressof") and len(args) == 1:
            return self.ev(args[0], s)
        if last in ("euclidean_mod_positive_modulus", "euclidean_div_positive_divisor", "euclidean_mod", "euclidean_div") and len(args) >= 2:
            fn = "emod" if "mod" in last else "ediv"
            return [(s2, self.mk(fn, self.num(s2, vs[0]), self.num(s2, vs[1]))) for s2, vs in self.evs(args, s)]
        if last in ("copy_small_n", "copy_n", "copy", "memcpy", "memmove") and len(args) == 3:
            return self.copy_call(last, args, s)
        if last == "lookup" and "eval_context" in name:
            return [(s2, self.lookup(s2, v)) for s2, (v,) in self.evs(args, s)]
        if last == "size" and n.get("obj") is not None:
            out = []
            for s2, o in self.ev(n["obj"], s):
                o = self.load(s2, o) if isloc(o) else o
                if not (isinstance(o, tuple) and o[0] == "node"):
                    raise Unsupported("size")
                v = self.nodeval(s2, o[1], "size")
                s2.add(v)
                out.append((s2, v))
            return out
        if last in ("defined", "is_point", "is_truncate", "as", "get") and n.get("obj") is not None:
            out = []
            for s2, o in self.ev(n["obj"], s):
                o = self.load(s2, o) if isloc(o) else o
                if isinstance(o, tuple) and o[0] == "node":
                    key = ({"defined": "def", "is_point": "point"}.get(last, last), o[1])
                    if last == "get":
                        out.append((s2, o))
                    elif last == "as":
                        for s3, v in self.flag(s2, ("as", o[1], n.get("t"))):
                            out.append((s3, o if v else P.c(0)))
                    elif last == "is_point":
                        if ("notpoint", o[1]) in s2.env or any(s2.env.get(("def", o[1] + (f,))) is False for f in ("min", "max")):
                            out.append((s2, False))
                            continue
                        if ("point", o[1]) in s2.env:
                            out.append((s2, True))
                            continue
                        x, y = s2.copy(), s2
                        x.env[("point", o[1])] = True
                        x.env[("def", o[1] + ("min",))] = True
                        x.env[("def", o[1] + ("max",))] = True
                        y.env[("notpoint", o[1])] = True
                        out += [(x, True), (y, False)]
                    else:
                        out += self.flag(s2, key)
                elif last in ("is_point",):
                    out += self.method(n, args, s2, o, last)
                else:
                    raise Unsupported(last)
            return out
        if last in ("eval", "evaluate", "eval_non_inlined") and len(pt) >= 1:
            if pt[0] == "slinky::expr" and len(args) == 1 or pt[0].endswith("call *"):
                return [(s2, self.nodeval(s2, self.node(s2, v), "val")) for s2, (v,) in self.evs(args, s, (0,))]
            if pt[0] == "slinky::stmt":
                out = []
                for s2, _ in self.ev(args[0], s):
                    self.event("body", s2, None, n)
                    out.append((s2, P.a(self.fresh("result"))))
                return out
        if pt[:2] == ["slinky::stmt", "slinky::var"] and len(args) >= 3:
            out = []
            for s2, vs in self.evs(args, s, (0, 1)):
                self.event("body", s2, vs[2], n)
                out.append((s2, P.a(self.fresh("result"))))
            return out
        if last == "validate_buffer":
            return self.flag(s, ("valid", self.fresh("v")))
        if last == "init_strides":
            out = []
            for s2, o in self.ev(n["obj"], s):
                o = self.resolve(s2, o)
                self.event("strides", s2, ("ptr", o), n)
                s2.env[o[1]] = self.put(s2.env[o[1]], ("dims",), None)
                out.append((s2, ("opt", self.fresh("size"))))
            return out
        f = self.prog.callee(n["fid"]) if n.get("fid") else None
        if f is None or f.body is None:
            return self.external(n, name, last, args, s)
        if n.get("obj") is not None:
            out = []
            for s2, o in self.ev(n["obj"], s):
                out += self.method(n, args, s2, o, last, f)
            return out
        return self.inline(f, args, s)

    def method(self, n, args, s, o, last, f=None):
        f = f or self.prog.callee(n["fid"])
        if n["obj"]["k"] == "this" or o == ("self",) or o is None or o[0] == "selfmem":
            this = s.env.get("this") if n["obj"]["k"] == "this" or o == ("self",) else ("self",)
        else:
            if n.get("arrow"):
                o = self.deref(s, o)
            if isloc(o):
                this = ("ptr", self.resolve(s, o))
            elif isinstance(o, tuple) and o[0] == "rec":
                key = self.fresh("temp")
                s.env[key] = o
                this = ("ptr", ("loc", key, ()))
            elif isinstance(o, tuple) and o[0] in ("ptr", "node"):
                this = o
            else:
                raise Unsupported("object of " + last)
        return self.inline(f, args, s, this)

    def inline(self, f, args, s, this=None):
        byref = [i for i, p in enumerate(f.params) if p["t"].rstrip().endswith("&")]
        out = []
        for s2, vs in self.evs(args, s, byref):
            out += self.run(f, vs, s2, this)
        return out

    def external(self, n, name, last, args, s):
        if last in ("__builtin_unreachable", "abort"):
            return []
        if last == "offset_bytes_non_null" or last == "offset_bytes":
            pass
        if n.get("op") == "()" and n["args"]:
            out = []
            for s2, vs in self.evs(n["args"], s, tuple(range(len(n["args"])))):
                out.append((s2, P.a(self.fresh("called"))))
            return out
        raise Unsupported("call of " + name)

    def evs(self, args, s, byref=()):
        res = [(s, [])]
        for i, a in enumerate(args):
            nx = []
            for s2, keys in res:
                for s3, v in self.ev(a, s2):
                    if i not in byref and isloc(v):
                        v = self.load(s3, v)
                    key = self.fresh("arg")
                    s3.env[key] = ("box", v)
                    nx.append((s3, keys + [key]))
            res = nx
        out = []
        for s2, keys in res:
            out.append((s2, [s2.env.pop(k)[1] for k in keys]))
        return out

    def e_bin(self, n, s):
        op = n["op"]
        if op in ("&&", "||") or op == ",":
            return Kernel.e_bin(self, n, s)
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            for s2, (r, l) in self.evs([n["R"], n["L"]], s, (1,)):
                if isinstance(l, tuple) and l[0] == "selfmem":
                    out.append((s2, l))
                    continue
                if not isloc(l):
                    raise Unsupported("assignment")
                if op == "=":
                    self.store(s2, l, r)
                    out.append((s2, l))
                else:
                    for s3, v in self.arith(op[:-1], self.load(s2, l), r, s2, n):
                        self.store(s3, l, v)
                        out.append((s3, l))
            return out
        out = []
        for s2, (l, r) in self.evs([n["L"], n["R"]], s):
            out += self.arith(op, l, r, s2, n)
        return out

    def node(self, s, v):
        if isloc(v):
            v = self.load(s, v)
        if isinstance(v, tuple) and v[0] == "node":
            return v[1]
        raise Unsupported("expression that is not part of the node")

    def minmax(self, s, fn, a, b):
        if s.implies(b - a):
            return a if fn == "min" else b
        if s.implies(a - b):
            return b if fn == "min" else a
        a, b = sorted((a, b), key=repr)
        m = self.mk(fn, a, b)
        if fn == "min":
            s.add(a - m, b - m)
        else:
            s.add(m - a, m - b)
        return m

    def copy_call(self, last, args, s):
        out = []
        for s2, vs in self.evs(args, s):
            if last in ("copy_small_n", "copy_n"):
                src, n, dst = vs
            else:
                raise Unsupported(last)
            if not (isinstance(src, tuple) and src[0] == "aptr" and isinstance(dst, tuple) and dst[0] == "aptr"):
                raise Unsupported("copy")
            j = self.fresh("j")
            x = s2.copy()
            x.add(P.a(j), self.num(s2, n) - ONE - P.a(j))
            rec = self.element(x, src[1], src[2] + P.a(j))
            k = "@" + dst[1]
            s2.env[k] = s2.env.get(k, ()) + (("seg", dst[2], dst[2] + n, j, 1, dst[2], rec),)
            out.append((s2, None))
        return out

    def lookup(self, s, v):
        if isloc(v):
            v = self.load(s, v)
        if not (isinstance(v, tuple) and v[0] == "node"):
            raise Unsupported("lookup")
        return ("ptr", ("loc", "buf", ()))

    def event(self, kind, s, v, n):
        if not self.quiet:
            self.events.append((kind, s.copy(), v, n, self.fnstack[-1] if getattr(self, "fnstack", None) else None))

    # -- loops
    def loop(self, n, s, done):
        if n["k"] == "for" and n.get("init"):
            sts = self.stmt(n["init"], [s], done)
        else:
            sts = [s]
        out = []
        for st in sts:
            out += self.loop1(n, st, done)
        return out

    def iterate(self, n, g):
        """(states after one iteration, states that leave by break or return)."""
        d2, ends, outs = [], [], []
        g = g.copy()
        for s2, b in (self.truth(n["c"], g) if n.get("c") else [(g, True)]):
            if not b:
                continue
            for s3 in self.stmt(n["body"], [s2], d2):
                sig = s3.env.pop("!sig", None)
                if sig == "break":
                    outs.append(s3)
                    continue
                if n.get("inc"):
                    ends += [x for x, _ in self.ev(n["inc"], s3)]
                else:
                    ends.append(s3)
        return ends, outs, d2

    def havoc(self, s, H):
        s = s.copy()
        atoms = {}
        for key, path in sorted(H, key=repr):
            if isinstance(key, str) and key[0] in "@!":
                continue
            x = s.env[key]
            for f in path:
                x = x[1][f]
            if isinstance(x, P):
                a = self.fresh("it_%s_" % (path[-1] if path else "v"))
                v = P.a(a)
            elif isinstance(x, bool):
                a = None
                v = ("flag", ("loopflag", self.fresh("b")))
            elif isinstance(x, tuple) and x[0] == "flag":
                a, v = None, ("flag", ("loopflag", self.fresh("b")))
            elif x is None:
                continue
            elif not path:
                s.env.pop(key)      # a later use of it is not understood
                continue
            else:
                raise Unsupported("loop changes something else than a number")
            atoms[(key, path)] = a
            if path:
                s.env[key] = self.put(s.env[key], path, v)
            else:
                s.env[key] = v
        return s, atoms

    def diff(self, a, b, path=()):
        if isinstance(a, tuple) and a and a[0] == "rec" and isinstance(b, tuple) and b and b[0] == "rec":
            out = []
            for f in a[1]:
                out += self.diff(a[1][f], b[1].get(f), path + (f,))
            return out
        return [] if a == b else [path]

    def loop1(self, n, st, done):
        H = set()
        savedreads, self.reads = self.reads, []
        self.quiet += 1
        try:
            for _ in range(6):
                g, atoms = self.havoc(st, H)
                ends, outs, rets = self.iterate(n, g)
                new = set(H)
                for e in ends + outs + rets:
                    for k, v in g.env.items():
                        if isinstance(k, tuple):
                            continue
                        gv = deepm(v, e.sub[len(g.sub):])
                        for p in self.diff(gv, e.env.get(k)):
                            if v is not None:
                                new.add((k, p))
                    for k, v in e.env.items():
                        if isinstance(k, str) and k.startswith("@") and k not in g.env and v:
                            new.add((k, ()))
                if new == H:
                    break
                H = new
            else:
                raise Unsupported("loop")
            # Which counters move by a constant, and which only in one direction.
            step, direction = {}, {}
            for (k, p), a in atoms.items():
                if a is None:
                    continue
                ds = []
                for e in ends:
                    x = e.env[k]
                    for f in p:
                        x = x[1][f]
                    ds.append((x - self.fixed(e, P.a(a), len(g.sub))).const() if isinstance(x, P) else None)
                if ds and all(d is not None for d in ds):
                    if len(set(ds)) == 1 and ds[0] in (1, -1):
                        step[(k, p)] = int(ds[0])
                    if all(d >= 0 for d in ds):
                        direction[(k, p)] = 1
                    elif all(d <= 0 for d in ds):
                        direction[(k, p)] = -1
        finally:
            self.quiet -= 1
            self.reads = savedreads
        get = lambda s, k, p: s.env[k] if not p else self.load(s, ("loc", k, p))
        g, atoms = self.havoc(st, H)
        init = {}
        for kp, a in atoms.items():
            if a is not None:
                init[kp] = get(st, *kp)
                d = direction.get(kp)
                if d and isinstance(init[kp], P):
                    g.add(P.c(d) * (P.a(a) - init[kp]))
        # Counters that move together are all counted by the first of them.
        master = next((kp for kp in step if isinstance(init.get(kp), P)), None)
        tied = []
        for kp in step:
            if kp != master and isinstance(init.get(kp), P):
                self.set(g, kp, init[kp] + P.c(step[kp] * step[master]) * (P.a(atoms[master]) - init[master]))
                del atoms[kp]
                tied.append(kp)
        outer, self.reads = self.reads, []
        try:
            ends, outs, rets = self.iterate(n, g.copy())
            reads = self.reads
        finally:
            self.reads = outer
        if self.reads is not None:
            self.reads += reads
        done += rets
        lp = dict(n=n, pre=st, start=g, ends=ends, outs=outs, H=H, atoms=atoms, step={k: v for k, v in step.items() if k not in tied}, init=init)
        if not self.quiet:
            self.loops.append(lp)
        arrs = sorted(k for k, p in H if isinstance(k, str) and k.startswith("@"))
        summ = {k: self.summary(k, lp, g) for k in arrs}
        for k in arrs:
            self.check_reads(k, lp, g, reads, summ[k])
        # What holds after the loop.
        dead = [k for k, p in H if not p and k not in g.env and not (isinstance(k, str) and k[0] in "@!")]
        res = []
        z = st.copy()
        for s2, b in (self.truth(n["c"], z) if n.get("c") else []):
            if not b:
                res.append(s2)
        T = P.a(self.fresh("times"))
        lp["after"] = set(T.atoms())
        x = st.copy()
        for k in dead:
            x.env.pop(k, None)
        x.add(T - ONE)
        for kp in list(atoms) + tied:
            self.set(x, kp, init[kp] + P.c(step[kp]) * (T - ONE) if kp in step else self.unknown(x, kp))
        for y, b in (self.truth(n["c"], x) if n.get("c") else [(x, True)]):
            if not b:
                continue
            fin = y.copy()
            Tf = self.fixed(y, T, len(st.sub))
            for kp in list(atoms) + tied:
                self.set(fin, kp, self.fixed(y, init[kp], len(st.sub)) + P.c(step[kp]) * Tf if kp in step else self.unknown(fin, kp))
                if kp not in step and isinstance(get(fin, *kp), P):
                    lp["after"] |= get(fin, *kp).atoms()
                if kp not in step and direction.get(kp) and isinstance(init[kp], P):
                    v = get(fin, *kp)
                    fin.add(P.c(direction[kp]) * (v - self.fixed(y, init[kp], len(st.sub))))
            for k in arrs:
                e = summ[k]
                if e is None:
                    fin.env[k] = fin.env.get(k, ()) + (("havoc",),)
                else:
                    kp, c, sign, rec = e
                    a = atoms[kp]
                    i0 = init[kp]
                    last = i0 + P.c(step[kp]) * (T - ONE)
                    w0, w1 = P.c(sign) * i0 + c, P.c(sign) * last + c
                    lo, hi = (w0, w1) if step[kp] * sign > 0 else (w1, w0)
                    ent = ("seg", lo, hi + ONE, a, sign, c, rec)
                    fin.env[k] = fin.env.get(k, ()) + (deepm(ent, y.sub[len(st.sub):]),)
            for f2, b2 in (self.truth(n["c"], fin) if n.get("c") else []):
                if not b2:
                    res.append(f2)
        for o in outs:
            o2 = o.copy()
            for k in arrs:
                o2.env[k] = o2.env.get(k, ()) + (("havoc",),)
            res.append(o2)
        return res

    def unknown(self, s, kp):
        v = s.env[kp[0]]
        for f in kp[1]:
            v = v[1][f]
        if isinstance(v, bool) or isinstance(v, tuple) and v and v[0] == "flag":
            return ("flag", ("loopflag", self.fresh("b")))
        return P.a(self.fresh("after_%s_" % (kp[1][-1] if kp[1] else "v")))

    def set(self, s, kp, v):
        k, p = kp
        if p:
            s.env[k] = self.put(s.env[k], p, v)
        else:
            s.env[k] = v

    def writes(self, k, lp, e):
        """Entries one iteration appended to array k on path e (later writes of the same element win)."""
        n = len(lp["start"].env.get(k, ()))
        ws = e.env.get(k, ())[n:]
        out = []
        for w in ws:
            if w[0] != "elem":
                return None
            out = [o for o in out if not e.zero(o[1] - w[1])] + [w]
        return out

    def summary(self, k, lp, g):
        """(counter, c, sign, record): iteration with counter value L writes element sign*L + c."""
        res = None
        alts = []
        for e in lp["ends"]:
            ws = self.writes(k, lp, e)
            if not ws or len(ws) != 1:
                return None
            alts.append((tuple(e.cons[len(g.cons):]), ws[0][2]) if len(e.sub) == len(g.sub) and e.nz == g.nz and e.cons[:len(g.cons)] == g.cons
                        and not any(isinstance(x, tuple) and x not in g.env for x in e.env) else None)
            w = ws[0]
            hit = None
            for kp, st in lp["step"].items():
                a = self.fixed(e, P.a(lp["atoms"][kp]), len(g.sub))
                for sign in (1, -1):
                    c = w[1] - P.c(sign) * a
                    if len(a.m) == 1 and not (c.atoms() & a.atoms()) and not any(str(x).startswith("it_") for x in c.atoms()):
                        hit = (kp, c, sign, a)
            if hit is None:
                return None
            kp, c, sign, a = hit
            rec = w[2]
            if res is None:
                res = (kp, c, sign, rec)
            else:
                if (kp, c, sign) != res[:3]:
                    return None
                res = res[:3] + (self.merge(res[3], rec, P.a(lp["atoms"][kp])),)
        if res is None:
            return None
        its = {a for a in lp["atoms"].values() if a} - {lp["atoms"][res[0]]}
        if len(alts) > 1 and all(alts) and any(a[1] != alts[0][1] for a in alts):
            known = {lp["atoms"][res[0]]} | set(self.ops)
            for p in g.cons:
                known |= p.atoms()
            if not any((c.atoms() - known) | (c.atoms() & its) for cs, _ in alts for c in cs) and not any(
                    self.clean(rec, its, P.c(0)) != rec for _, rec in alts):
                return res[:3] + (("alts", tuple(alts)),)
        r = res[:3] + (self.clean(res[3], its, P.a(lp["atoms"][res[0]])),)
        lp.setdefault("summary", {})[k] = r
        return r

    def merge(self, a, b, i):
        if isinstance(a, tuple) and a[0] == "rec" and isinstance(b, tuple) and b[0] == "rec":
            return ("rec", {f: self.merge(a[1][f], b[1].get(f), i) for f in a[1]})
        return a if a == b else self.mk(self.fresh("either"), i)

    def clean(self, a, its, i):
        if isinstance(a, tuple) and a[0] == "rec":
            return ("rec", {f: self.clean(v, its, i) for f, v in a[1].items()})
        if isinstance(a, P) and a.atoms() & its:
            return self.mk(self.fresh("iter"), i)
        return a

    def check_reads(self, k, lp, g, reads, summ):
        arr = k[1:]
        for ra, idx, rs in reads:
            if ra != arr:
                continue
            if summ is None:
                raise Unsupported("a loop reads and writes one array")
            kp, c, sign, rec = summ
            a = lp["atoms"][kp]
            sub = rs.sub[len(g.sub):]
            L = deepm(P.a(a), sub)
            E = P.a(self.fresh("earlier"))
            w = P.c(sign) * E + deepm(c, sub)
            x = rs.copy()
            i0 = deepm(lp["init"][kp], sub)
            if lp["step"][kp] > 0:
                x.add(E - i0, L - ONE - E)
            else:
                x.add(i0 - E, E - ONE - L)
            if x.ok(w - idx, idx - w):
                raise Unsupported("a loop reads elements it may have written")


class Split(Exception):
    def __init__(self, d, ge=False):
        self.d, self.ge, self.node = d, ge, None


def psub(p, m):
    r = P()
    for k, v in p.m.items():
        t = P({(): v})
        for x in k:
            t = t * (m[x] if x in m else P.a(x))
        r = r + t
    return r


def deep(x, m):
    if isinstance(x, P):
        return psub(x, m) if x.atoms() & set(m) else x
    if isinstance(x, tuple):
        return tuple(deep(v, m) for v in x)
    if isinstance(x, dict):
        return {k: deep(v, m) for k, v in x.items()}
    return x


def deepm(x, ms):
    for m in ms:
        x = deep(x, m)
    return x
