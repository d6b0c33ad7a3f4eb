"""Typestate of handles and of the pointers into what they hold, over the structured program.

A forward may-analysis per function (and per lambda body): which access paths have been moved away, and which local pointers
point into a node whose only known handle has been given another value or has gone out of scope. Only moves that really happen
count (a move constructor, or an rvalue reference parameter given std::move), at the point where they happen.
"""
from .program import children, show, walk, walk_fn

OWNERS = ("slinky::expr", "slinky::stmt", "slinky::interval_expr")
TRIVIAL = ("slinky::var", "slinky::dim", "slinky::raw_buffer", "slinky::loop_id")
REINIT = ("clear", "reset", "assign", "resize", "swap", "emplace", "operator=")


def strip(n):
    while n is not None and n["k"] in ("paren", "defarg"):
        n = n["e"]
    return n


def bare(t):
    t = t.replace("const ", "")
    while t.endswith(("&", "*", " ", "const")):
        t = t[:-5] if t.endswith("const") else t[:-1]
    return t.strip()


def path(n):
    """Access path of a variable or of fields of one: (declaration, field, ...)."""
    n = strip(n)
    if n is None:
        return None
    if n["k"] == "ref" and "d" in n and n.get("dk") in ("var", "parm", "bind", "decomp", None):
        return (n["d"],)
    if n["k"] == "mem" and not n.get("arrow"):
        b = path(n["b"])
        return b + (n["n"],) if b else None
    return None


def moved_arg(n):
    n = strip(n)
    if n is not None and n["k"] == "cast" and n.get("ck") == "CXXStaticCastExpr" and n.get("to", "").endswith("&&"):
        return strip(n["e"])
    if n is not None and n["k"] == "call" and n.get("fn") == "std::move" and len(n["args"]) == 1:
        return strip(n["args"][0])
    return None


class St:
    __slots__ = ("moved", "bind", "stale", "shared", "facts")

    def __init__(self, moved=(), bind=(), stale=(), shared=(), facts=()):
        self.moved, self.bind, self.stale = dict(moved), {k: set(v) for k, v in dict(bind).items()}, dict(stale)
        self.shared, self.facts = set(shared), dict(facts)

    def copy(self):
        return St(self.moved, self.bind, self.stale, self.shared, self.facts)

    def forget(self, d):
        """A variable changed: what branches said about it no longer holds."""
        for t in [t for t, (pol, ds) in self.facts.items() if d in ds]:
            del self.facts[t]
        for m, (line, fs) in list(self.moved.items()):
            if any(d in ds for _, _, ds in fs):
                self.moved[m] = (line, frozenset(x for x in fs if d not in x[2]))

    def join(self, o):
        if o is None:
            return self
        for k, v in o.moved.items():
            self.moved[k] = (self.moved[k][0], self.moved[k][1] & v[1]) if k in self.moved else v
        self.shared |= o.shared
        self.facts = {k: v for k, v in self.facts.items() if o.facts.get(k) == v}
        for k, v in o.bind.items():
            self.bind.setdefault(k, set()).update(v)
        for k, v in o.stale.items():
            self.stale.setdefault(k, v)
        return self

    def key(self):
        return (tuple(sorted(self.moved, key=str)), tuple(sorted(((k, tuple(sorted(v, key=str))) for k, v in self.bind.items()), key=str)), tuple(sorted(self.stale, key=str)), tuple(sorted(self.shared)))


def join(*ss):
    ss = [s for s in ss if s is not None]
    if not ss:
        return None
    out = ss[0].copy()
    for s in ss[1:]:
        out.join(s)
    return out


class Walk:
    def __init__(self, f, body, params, report, inits=()):
        self.f, self.report = f, report
        self.names, self.types = {}, {}
        self.nmoves = self.nptrs = self.nreads = self.nkills = 0
        self.lambdas = []
        self.brk, self.cont = [], []
        self.final = False
        self.sole = self.find_sole(body, params)
        for p in params:
            self.names[p["d"]], self.types[p["d"]] = p["n"], p["t"]
        st = St()
        for i in inits:
            if i.get("e"):
                self.ev(i["e"], st)
        if body is not None:
            self.ex(body, st)

    # -- which handles are the only ones known to hold what they hold
    def find_sole(self, body, params):
        cand = {}
        for p in params:
            t = p["t"]
            if bare(t) in OWNERS and not t.startswith("const ") and not t.endswith("&&"):
                cand[p["d"]] = p["n"]
        if body is None:
            return {}
        for n in walk(body):
            if n["k"] == "decl":
                for v in n["v"]:
                    i = strip(v.get("init"))
                    if v["t"] in OWNERS and i is not None and i["k"] in ("call", "ctor") and not (i["k"] == "ctor" and i.get("copy")) \
                            and not v.get("static"):
                        cand[v["d"]] = v["n"]
        for n in walk(body):
            if n["k"] == "lambda":
                for c in n["caps"]:
                    cand.pop(c.get("d"), None)
        return cand

    # -- events
    def show(self, p):
        return ".".join([self.names.get(p[0], "it")] + list(p[1:]))

    def read(self, p, n, st, whole=False):
        self.nreads += 1
        for m in st.moved:
            k = min(len(m), len(p)) if whole else len(m)
            if m[:k] == p[:k]:
                line, fs = st.moved[m]
                if any(t in st.facts and st.facts[t][0] != pol for t, pol, _ in fs):
                    continue        # not on one path
                self.report("moved", self.f, n, self.show(m), line)
                return
        if len(p) == 1 and p[0] in st.stale:
            o, line = st.stale[p[0]]
            self.report("stale", self.f, n, self.names.get(p[0], "it"), line, o)

    def write(self, p, st, n, rhs=None):
        for m in list(st.moved):
            if m[:len(p)] == p:
                del st.moved[m]
        if p[0] in self.sole:
            if p[0] in st.shared or rhs is not None and any(path(x) and path(x)[0] == p[0] for x in walk(rhs)):
                # what it held may live on inside the new value
                for d, os in list(st.bind.items()):
                    st.bind[d] = {o for o in os if o[:len(p)] != p}
            else:
                self.kill(p, st, n)
            r = strip(rhs)
            if r is not None and len(p) == 1 and r["k"] == "call" and not r.get("lv") and not r["t"].endswith(("&", "*")):
                st.shared.discard(p[0])
            else:
                st.shared.add(p[0])
        st.forget(p[0])
        if len(p) == 1:
            st.stale.pop(p[0], None)

    def kill(self, p, st, n):
        self.nkills += 1
        for d, os in st.bind.items():
            if any(o[:len(p)] == p for o in os):
                st.stale[d] = (self.show(p), n.get("l"))

    def move(self, n, st):
        n = strip(n)
        p = path(n)
        if p is None:
            self.ev(n, st)
            return
        t = bare(n.get("t", ""))
        if t in TRIVIAL or not ("::" in t):
            return
        self.read(p, n, st)
        self.nmoves += 1
        st.moved[p] = (n.get("l"), frozenset((t, pol, ds) for t, (pol, ds) in st.facts.items()))
        st.shared.add(p[0])

    def root(self, n):
        """Path of the handle that a pointer or reference expression points into; 'temp' when it is a temporary."""
        n = strip(n)
        depth = 0
        ptr = False
        while n is not None and depth < 20:
            depth += 1
            k = n["k"]
            if k in ("paren", "cast", "defarg"):
                n = n["e"]
            elif k == "un" and n["op"] in ("*", "&"):
                ptr = ptr or n["op"] == "*"
                n = n["e"]
            elif k == "mem":
                p = path(n)
                if p:
                    return p
                n = n["b"]
            elif k == "ref":
                return path(n)
            elif k == "idx":
                n = n["b"]
            elif k == "ctor" and len(n["args"]) == 1 and bare(n["t"]) in ("slinky::expr_ref", "slinky::stmt_ref"):
                n = n["args"][0]
            elif k == "call" and n.get("fn"):
                t = n.get("t", "")
                handle = t.endswith(("*", "&")) or "iterator" in t
                if n.get("obj") is not None and handle:
                    o = strip(n["obj"])
                    if o["k"] in ("call", "ctor") and bare(o.get("t", "")) in OWNERS and not o["t"].endswith(("*", "&")) and not o.get("lv"):
                        return "temp"
                    n = o
                elif n.get("op") in ("->", "*", "[]") and n["args"]:
                    n = n["args"][0]
                elif t.endswith("*") and n["fn"].startswith("slinky::as_") and len(n["args"]) == 1:
                    o = strip(n["args"][0])
                    while o["k"] == "ctor" and len(o["args"]) == 1 and bare(o["t"]) == "slinky::expr_ref":
                        o = strip(o["args"][0])
                    if o["k"] in ("call", "ctor") and bare(o.get("t", "")) in OWNERS and not o["t"].endswith(("*", "&")) and not o.get("lv"):
                        return "temp"
                    n = o
                else:
                    return None
            else:
                return None
        return None

    def bindp(self, d, t, init, st, n):
        st.stale.pop(d, None)
        st.bind.pop(d, None)
        if not (t.endswith(("*", "&")) or "iterator" in t):
            return
        r = self.root(init)
        if r is None:
            return
        if r == "temp":
            self.report("temp", self.f, n, self.names.get(d, "it"), n.get("l"), show(init))
            return
        if t.endswith("&") and len(r) >= 1 and strip(init)["k"] in ("ref", "mem") and path(strip(init)):
            return          # another name of the handle itself
        self.nptrs += 1
        out = set()
        if r[0] in st.bind:
            out |= st.bind[r[0]]
            if r[0] in st.stale:
                st.stale[d] = st.stale[r[0]]
        elif r[0] in self.sole:
            out.add(r)
        if out:
            st.bind[d] = out

    # -- expressions
    def ev(self, n, st):
        n = strip(n)
        if n is None:
            return
        k = n["k"]
        p = path(n)
        if p is not None:
            self.read(p, n, st)
            return
        if k == "bin":
            op = n["op"]
            if op in ("&&", "||"):
                self.ev(n["L"], st)
                s2 = st.copy()
                self.assume(n["L"], op == "&&", s2)
                self.assume(n["L"], op == "||", st)
                self.ev(n["R"], s2)
                st.join(s2)
                return
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                self.ev(n["R"], st)
                p = path(n["L"])
                if p is None or op != "=":
                    self.ev(n["L"], st)
                else:
                    if len(p) == 1 and self.types.get(p[0], "").endswith("*"):
                        self.bindp(p[0], self.types[p[0]], n["R"], st, n)
                    for m in list(st.moved):
                        if m[:len(p)] == p:
                            del st.moved[m]
                if path(n["L"]):
                    st.forget(path(n["L"])[0])
                return
            self.ev(n["L"], st)
            self.ev(n["R"], st)
            return
        if k == "cond":
            self.ev(n["c"], st)
            s2 = st.copy()
            self.assume(n["c"], True, st)
            self.assume(n["c"], False, s2)
            self.ev(n["a"], st)
            self.ev(n["b"], s2)
            st.join(s2)
            return
        if k == "lambda":
            self.lambdas.append(n)
            for c in n["caps"]:
                if c.get("init"):
                    self.ev(c["init"], st)
            return
        if k == "ctor" and n.get("move") and len(n["args"]) >= 1:
            m = moved_arg(n["args"][0])
            if m is not None:
                self.move(m, st)
                return
        if k == "un" and n["op"] == "&" and path(n["e"]):
            return
        if k == "ctor" and n.get("copy") and n["args"] and path(n["args"][0]):
            self.read(path(n["args"][0]), strip(n["args"][0]), st, True)
            st.shared.add(path(n["args"][0])[0])
            return
        if k in ("call", "ctor", "dctor"):
            args = list(n.get("args", []))
            fn = n.get("fn", "")
            if fn == "std::move" and k == "call":
                x = strip(args[0])
                if path(x) is None:
                    self.ev(x, st)
                return
            pts = n.get("pt") or []
            if k == "call" and n.get("op") == "=" and len(args) == 2 and fn.endswith("operator="):
                m = moved_arg(args[1])
                p = path(args[0])
                late = None
                if m is not None:
                    late = m if pts and pts[-1].endswith("&&") else None
                    if late is None:
                        self.ev(m, st) if path(m) is None else self.read(path(m), m, st)
                else:
                    self.ev(args[1], st)
                    if path(args[1]):
                        st.shared.add(path(args[1])[0])
                if late is not None:
                    if path(late) == p and p is not None:
                        return
                    self.move(late, st)
                if p is None:
                    self.ev(args[0], st)
                else:
                    self.write(p, st, n, args[1])
                return
            ismethod = bool(n.get("op")) and n.get("rec") and len(args) == len(pts) + 1
            obj = n.get("obj")
            if obj is not None:
                p = path(obj)
                if p is not None and fn.split("::")[-1] in REINIT:
                    for a in args:
                        self.ev(a, st)
                    self.write(p, st, n)
                    return
            late, evs = [], []
            for i, a in enumerate(args):
                j = i - 1 if ismethod else i
                m = moved_arg(a)
                t = pts[j] if 0 <= j < len(pts) else ""
                if m is not None:
                    if t.endswith("&&"):
                        late.append(m)
                        if path(m) is None:
                            evs.append((i, m))
                    elif path(m) is None or t.endswith("&"):
                        evs.append((i, m))
                else:
                    evs.append((i, a))
            if n.get("callee"):
                evs.insert(0, (-1, n["callee"]))
            if obj is not None:
                evs.insert(0, (-2, obj))
            # moves inside one argument against reads in another: the order is not fixed, unless braces fix it
            if not n.get("li") and len(evs) > 1 and k != "dctor":
                self.unordered([(i, a) for i, a in evs if i >= 0], st)
            outs = []
            for i, a in evs:
                j = i - 1 if ismethod else i
                t = pts[j] if 0 <= j < len(pts) else ""
                p = path(a)
                if p is not None and i >= 0 and t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and "const " not in t[:7]:
                    outs.append(p)
                    if any(m[:min(len(m), len(p))] == p[:min(len(m), len(p))] for m in st.moved):
                        continue
                self.ev(a, st)
            for m in late:
                if path(m) is not None:
                    self.move(m, st)
            for p in outs:
                for m in list(st.moved):
                    if m[:len(p)] == p:
                        del st.moved[m]
                st.forget(p[0])
            return
        if k == "un" and n["op"] in ("++", "--") and path(n["e"]):
            st.forget(path(n["e"])[0])
        for c in children(n):
            self.ev(c, st)

    def inner_moves(self, n):
        out = []
        for x in walk(n, into_lambdas=False):
            if x["k"] == "ctor" and x.get("move") and x["args"]:
                m = moved_arg(x["args"][0])
                p = path(m) if m is not None else None
                if p and bare(m.get("t", "")) not in TRIVIAL and "::" in bare(m.get("t", "")):
                    out.append((p, m))
            elif x["k"] in ("call",) and x.get("pt") and x.get("fn") != "std::move":
                off = len(x["args"]) - len(x["pt"])
                for i, a in enumerate(x["args"]):
                    m = moved_arg(a)
                    p = path(m) if m is not None else None
                    if p and 0 <= i - off < len(x["pt"]) and x["pt"][i - off].endswith("&&"):
                        out.append((p, m))
        return out

    def unordered(self, args, st):
        mv = [(i, p, m) for i, a in args for p, m in self.inner_moves(a)]
        if not mv:
            return
        for i, p, m in mv:
            for j, a in args:
                if j == i:
                    continue
                skip = set()
                for x in walk(a, into_lambdas=False):
                    if x["k"] in ("ref", "mem"):
                        q = path(x)
                        if q and id(x) not in skip:
                            for y in children(x):
                                skip.add(id(y))
                            if q[:len(p)] == p:
                                self.report("order", self.f, m, self.show(p), m.get("l"), show(a))
                                return

    def assume(self, c, pol, st):
        c = strip(c)
        if c is None:
            return
        if c["k"] == "un" and c["op"] == "!":
            return self.assume(c["e"], not pol, st)
        if c["k"] == "bin" and c["op"] == ("&&" if pol else "||"):
            self.assume(c["L"], pol, st)
            self.assume(c["R"], pol, st)
            return
        if any(x["k"] in ("lambda", "new") or x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") for x in walk(c)):
            return
        ds = frozenset(x["d"] for x in walk(c) if x["k"] == "ref" and "d" in x)
        t = show(c)
        if "..." not in t and "<" + c["k"] + ">" not in t:
            st.facts[t] = (pol, ds)

    # -- statements
    def ex(self, n, st):
        """State after n, or None when control does not get there."""
        if n is None or st is None:
            return st
        k = n["k"]
        if k == "block":
            ds = []
            for x in n["c"]:
                if st is None:
                    break
                if x["k"] == "decl":
                    ds += [v["d"] for v in x["v"] if "d" in v]
                st = self.ex(x, st)
            if st is not None:
                for d in ds:
                    if d in self.sole and d not in st.shared:
                        self.kill((d,), st, {"l": n.get("le")})
            return st
        if k == "decl":
            for v in n["v"]:
                self.declare(v, st, n)
            return st
        if k == "if":
            if n.get("init"):
                st = self.ex(n["init"], st) if n["init"]["k"] in ("decl", "block") else (self.ev(n["init"], st), st)[1]
            if n.get("var"):
                for v in (n["var"] if isinstance(n["var"], list) else [n["var"]]):
                    self.declare(v, st, n)
            elif n.get("c"):
                self.ev(n["c"], st)
            s2 = st.copy()
            self.assume(n.get("c"), True, st)
            self.assume(n.get("c"), False, s2)
            a = self.ex(n["a"], st)
            b = self.ex(n["b"], s2) if n.get("b") else s2
            return join(a, b)
        if k in ("while", "for", "do", "rfor"):
            return self.loop(n, st)
        if k == "switch":
            self.ev(n["c"], st)
            self.brk.append([])
            out, cur = [], None
            has_default = False
            for x in (n["body"]["c"] if n["body"] and n["body"]["k"] == "block" else []):
                while x is not None and x["k"] in ("case", "default"):
                    has_default |= x["k"] == "default"
                    cur = join(cur, st)
                    x = x["s"]
                if x is not None and cur is not None:
                    cur = self.ex(x, cur)
            out = self.brk.pop() + [cur] + ([] if has_default else [st])
            return join(*out)
        if k in ("case", "default"):
            return self.ex(n["s"], st)
        if k == "return":
            if n.get("e"):
                self.ev(n["e"], st)
            return None
        if k == "break":
            if self.brk:
                self.brk[-1].append(st)
            return None
        if k == "continue":
            if self.cont:
                self.cont[-1].append(st)
            return None
        self.ev(n, st)
        if k == "call" and n.get("fn") in ("abort", "std::abort", "exit", "__assert_fail"):
            return None
        return st

    def declare(self, v, st, n):
        d = v.get("d")
        if d is None:
            return
        self.names[d], self.types[d] = v["n"], v["t"]
        for m in list(st.moved):
            if m[0] == d:
                del st.moved[m]
        st.forget(d)
        st.shared.discard(d)
        if v.get("init"):
            self.ev(v["init"], st)
            self.bindp(d, v["t"], v["init"], st, v if v.get("l") else n)
        for b in v.get("bindings", []) or []:
            if isinstance(b, dict) and "d" in b:
                self.names[b["d"]] = b.get("n")

    def loop(self, n, st):
        k = n["k"]
        if k == "for" and n.get("init"):
            i = n["init"]
            st = self.ex(i, st) if i["k"] in ("decl", "block") else (self.ev(i, st), st)[1]
        if k == "rfor":
            self.ev(n["range"], st)
        exits = []
        head = st
        for _ in range(3):
            cur = head.copy()
            self.brk.append([])
            self.cont.append([])
            if k == "while" and n.get("var"):
                for v in (n["var"] if isinstance(n["var"], list) else [n["var"]]):
                    self.declare(v, cur, n)
            elif k in ("while", "for") and n.get("c"):
                self.ev(n["c"], cur)
            if k != "do":
                exits.append(cur.copy())
            if k == "rfor" and n.get("var"):
                v = n["var"]
                if isinstance(v, dict) and "d" in v:
                    self.names[v["d"]], self.types[v["d"]] = v["n"], v["t"]
                    for m in list(cur.moved):
                        if m[0] == v["d"]:
                            del cur.moved[m]
                    cur.forget(v["d"])
            cur = self.ex(n["body"], cur)
            cur = join(*(self.cont.pop() + [cur]))
            exits += self.brk.pop()
            if cur is None:
                break
            if k == "for" and n.get("inc"):
                self.ev(n["inc"], cur)
            if k == "do":
                self.ev(n["c"], cur)
                exits.append(cur.copy())
            new = join(head, cur)
            if new.key() == head.key():
                break
            head = new
        return join(*exits)


def analyse(prog, report, on=None):
    """Runs the analysis over every function of the library; returns counts."""
    tot = {"functions": 0, "moves": 0, "pointers into nodes": 0, "reads": 0, "handles given another value": 0}
    done = set()
    for f in prog.functions:
        if not f.file.startswith("slinky/") or f.dep or (f.file, f.line, f.q) in done or not (f.body or f.inits):
            continue
        done.add((f.file, f.line, f.q))
        work = [(f.body, f.params, f.inits)]
        tot["functions"] += 1
        m0 = tot["moves"]
        bad = []

        def rep(*a):
            bad.append(a)
            report(*a)
        while work:
            body, params, inits = work.pop()
            w = Walk(f, body, params, rep, inits)
            tot["moves"] += w.nmoves
            tot["pointers into nodes"] += w.nptrs
            tot["reads"] += w.nreads
            tot["handles given another value"] += w.nkills
            seen = set()
            for lam in w.lambdas:
                if id(lam) in seen:
                    continue
                seen.add(id(lam))
                insts = lam.get("insts") or []
                if insts:
                    for i in insts:
                        if i.get("body"):
                            work.append((i["body"], i.get("params") or lam.get("params") or [], ()))
                elif lam.get("body"):
                    work.append((lam["body"], lam.get("params") or [], ()))
        if on and not bad:
            on(f, tot["moves"] - m0)
    return tot
