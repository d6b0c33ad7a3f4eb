"""The node classes of the IR (expressions and statements) as the code declares them, and an interpreter specialisation for
functions that take such nodes apart or put them together (visitors, mutators, matchers, constructors)."""
from .flow import Interp, State, C, TRUE, FALSE
from .program import AnalysisBroken, AnchorMissing

EXPR_BASE = "slinky::base_node<slinky::expr_node_type, slinky::expr_visitor>"
STMT_BASE = "slinky::base_node<slinky::stmt_node_type, slinky::stmt_visitor>"


def strip(t):
    t = t.strip()
    while True:
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):].strip()
                break
        else:
            break
    while t.endswith(("&", "*", " const")) or t.endswith("*const"):
        if t.endswith(" const"):
            t = t[:-6].strip()
        elif t.endswith("*const"):
            t = t[:-6].strip()
        else:
            t = t[:-1].strip()
    return t


def targ(t, k):
    """The k-th argument of the template-id t."""
    i = t.find("<")
    if i < 0:
        return None
    d, cur, out = 0, "", []
    for ch in t[i + 1:]:
        if ch in "<(":
            d += 1
        if ch in ">)":
            if d == 0 and ch == ">":
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out[k] if k < len(out) else None


class Slot:
    """A leaf of a node: path is a tuple of field names and '[]'; cat is 'expr', 'stmt', 'var' or 'data'."""

    def __init__(self, path, cat, t):
        self.path, self.cat, self.t = path, cat, t

    @property
    def name(self):
        return ".".join(self.path).replace(".[]", "[]")

    def __repr__(self):
        return self.name


class Nodes:
    def __init__(self, prog):
        self.prog = prog
        self.classes = {}
        for q in list(prog.records):
            if q in (EXPR_BASE, STMT_BASE) or "@" in q:
                continue
            bc = prog.bases_closure(q)
            if q.startswith(("slinky::expr_node<", "slinky::stmt_node<", "slinky::binary_op")):
                continue
            if EXPR_BASE in bc:
                self.classes[q] = "expr"
            elif STMT_BASE in bc:
                self.classes[q] = "stmt"
        if len(self.classes) < 30:
            raise AnchorMissing("only %d node classes found" % len(self.classes))
        self._slots = {}

    def slots(self, q):
        if q not in self._slots:
            out = []
            for rq, f in self.prog.all_fields(q):
                if rq in (EXPR_BASE, STMT_BASE) or rq.startswith("slinky::ref_counted"):
                    continue
                self.leaf((f["n"],), f["t"], out)
            self._slots[q] = out
        return self._slots[q]

    def leaf(self, path, t, out):
        t = strip(t)
        if t == "slinky::expr":
            out.append(Slot(path, "expr", t))
        elif t == "slinky::stmt":
            out.append(Slot(path, "stmt", t))
        elif t == "slinky::var":
            out.append(Slot(path, "var", t))
        elif t.startswith("std::vector<"):
            self.leaf(path + ("[]",), targ(t, 0), out)
        elif t.startswith("std::pair<"):
            self.leaf(path + ("first",), targ(t, 0), out)
            self.leaf(path + ("second",), targ(t, 1), out)
        elif t in ("slinky::interval_expr", "slinky::dim_expr") and t in self.prog.records:
            for rq, f in self.prog.all_fields(t):
                self.leaf(path + (f["n"],), f["t"], out)
        else:
            out.append(Slot(path, "data", t))

    def node_of_param(self, t):
        """The node class a parameter of type `const X*` refers to."""
        t = t.strip()
        if not t.endswith("*"):
            return None
        q = strip(t)
        return q if q in self.classes else None


def short(q):
    return q.split("::")[-1]


class Chk:
    __slots__ = ("ev", "extra")

    def __init__(self, ev=frozenset(), extra=()):
        self.ev, self.extra = ev, extra

    def add(self, *e):
        return Chk(self.ev | frozenset(e), self.extra)

    def rep(self, ev=None, extra=None):
        return Chk(self.ev if ev is None else ev, self.extra if extra is None else extra)

    def __eq__(self, o):
        return isinstance(o, Chk) and self.ev == o.ev and self.extra == o.extra

    def __hash__(self):
        return hash((self.ev, self.extra))


VEC_READ = ("size", "empty", "operator[]", "at", "front", "back", "begin", "end", "rbegin", "rend", "data", "cbegin", "cend")


class NodeInterp(Interp):
    """Follows one function over a node parameter `op`; knows slots, definedness and standard containers."""
    MAX_STATES = 64
    MAX_DEPTH = 10

    def __init__(self, prog, nodes):
        super().__init__(prog)
        self.nodes = nodes
        self.opd = None
        self.q = None

    def start(self, f, q=None, pi=0):
        self.q = q
        self.f = f
        self.opd = f.params[pi]["d"] if q else None
        st = State(chk=self.chk0())
        self.rep_seen = set()
        return self.run(f, st)

    def chk0(self):
        return Chk()

    # -- slots
    def slot(self, s, v):
        """The path of the slot of the analysed node that a location or value denotes, or None."""
        if v is None:
            return None
        if v[0] == "init":
            v = v[1]
        if self.is_loc(v):
            v = self.resolve_loc(s, v)
            w = s.store.get(v)
            if w is not None and w != ("init", v):
                if w[0] == "init":
                    return self.slot(s, w)
                if w[0] == "fldv":
                    return None
                return None
        path = []
        while True:
            if v[0] == "init":
                v = v[1]
            if v[0] == "fld":
                path.append(v[2].lstrip("#"))
                v = v[1]
            elif v[0] == "elem":
                path.append(("[]", v[2]))
                v = v[1]
            elif v[0] == "deref":
                b = v[1]
                if b[0] == "init" and b[1][0] == "var" and b[1][1] == self.opd:
                    return tuple(reversed(path))
                return None
            else:
                return None

    @staticmethod
    def plain(p):
        return None if p is None else tuple("[]" if isinstance(x, tuple) else x for x in p)

    def pname(self, p):
        return ".".join(self.plain(p)).replace(".[]", "[]")

    # -- containers
    def is_vec(self, rec):
        return rec is not None and (rec.startswith("std::vector<") or rec.startswith("slinky::span<"))

    def hook_call(self, s, n, f, obj, args, frame):
        if n.get("fn") in ("std::abort", "abort", "exit", "std::exit", "std::terminate", "__builtin_unreachable"):
            return []
        if obj is None and "slinky::unreachable" in (n.get("t") or "") or (n.get("rec") or "").endswith("slinky::unreachable"):
            return []
        r = self.client_call(s, n, f, obj, args, frame)
        if r is not None:
            return r
        fn = n.get("fn", "")
        name = fn.split("::")[-1]
        rec = n.get("rec")
        rec = strip(rec) if isinstance(rec, str) else None
        if self.is_vec(rec) and obj is not None and self.is_loc(obj):
            v = self.resolve_loc(s, obj)
            if name == "operator[]" or n.get("op") == "[]" or name == "at":
                i = self.read_loc(s, args[0]) if self.is_loc(args[0]) else args[0]
                return [(s, ("elem", v, i))]
            if name == "front":
                return [(s, ("elem", v, C(0)))]
            if name == "back":
                return [(s, ("elem", v, ("last", v)))]
            if name == "size":
                w = s.store.get(v)
                return [(s, ("size", v if w is None else w))]
            if name == "empty":
                w = s.store.get(v)
                return [(s, ("==", ("size", v if w is None else w), C(0)))]
            if name in ("begin", "cbegin", "data"):
                return [(s, ("begin", v))]
            if name in ("end", "cend"):
                return [(s, ("end", v))]
        if fn in ("slinky::expr::defined", "slinky::stmt::defined", "slinky::expr_ref::defined", "slinky::stmt_ref::defined"):
            return self.defined(s, n, obj, frame)
        if fn in ("slinky::var::defined",):
            return self.defined(s, n, obj, frame)
        return None

    def client_call(self, s, n, f, obj, args, frame):
        return None

    def val(self, s, v):
        return self.read_loc(s, v) if v is not None and self.is_loc(v) else v

    def defined(self, s, n, obj, frame):
        p = self.slot(s, obj)
        v = self.val(s, obj)
        key = ("def", p) if p is not None else ("def", v)
        if key in s.facts:
            return [(s, TRUE if s.facts[key] else FALSE)]
        if v is not None and v[0] == "undefined":
            return [(s, FALSE)]
        t, u = s.copy(), s.copy()
        if v is not None and v[0] == "nfv" and v[1][0] == "m":
            # Any of the rewritten elements of a container.
            u.chk = u.chk.add(("undefm", self.plain(v[1][1])))
            return [(t, TRUE), (u, FALSE)]
        t.facts[key] = True
        u.facts[key] = False
        if p is not None:
            u.chk = u.chk.add(("undef", self.plain(p)))
        elif v is not None and v[0] == "m":
            u.chk = u.chk.add(("undefm", self.plain(v[1])))
        return [(t, TRUE), (u, FALSE)]

    def loop_exit(self, s, n, frame, it):
        if n["k"] == "rfor" and it == 0 and s is not None:
            # The range is empty on this path.
            for s2, v in self.eval(n["range"], s.copy(), frame, lv=True):
                p = self.slot(s2, v)
                if p is not None:
                    s = s.copy()
                    s.chk = s.chk.add(("empty", self.plain(p)))
                break
        return s

    def range_next(self, rf, s, frame, it):
        r = super().range_next(rf, s, frame, it)
        for x in r:
            x.facts = {k: v for k, v in x.facts.items() if not (k[0] == "def" and self.iter_in(k, rf["n"]["id"]))}
        return r

    def iter_in(self, k, i):
        return isinstance(k, tuple) and (k == ("iter", i) or any(self.iter_in(x, i) for x in k if isinstance(x, tuple)))

    def keep_fact(self, k):
        return k[0] == "def"

    def pure(self, f, n):
        return bool(n.get("cm"))

    def covered(self, s, slot, evs=("visit",)):
        """Was the slot handled on this path (by one of the given events), or is there nothing to handle?"""
        p = slot.path
        for e in s.chk.ev:
            if e[0] in evs and e[1] and e[1] == p[:len(e[1])]:
                return True
            if e[0] == "undef" and e[1] == p:
                return True
            if e[0] == "empty" and p[:len(e[1])] == e[1]:
                return True
        for k, v in s.facts.items():
            if k[0] == "def" and v is False and isinstance(k[1], tuple) and self.plain(k[1]) == p:
                return True
            # An index loop over the container that ended at once.
        return False
