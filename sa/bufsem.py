"""What buffer statements and the members of buffers do, against what they are defined to do.

The interpreter is run over the code that makes each buffer (EvalExpr); this module compares the buffer that comes out, one
arbitrary dimension at a time, with its definition in terms of the buffer that went in. Loops are judged by their arbitrary
iteration: what it writes, and how it changes what is carried from one iteration to the next.
"""
from .kernel import P, S, Unsupported
from .views import Split, DIM, ONE, isloc, deep, deepm
from .evalexpr import EvalExpr, ROOT

BROADCAST = {f: P.c(0) for f in DIM}


class FlagSplit(Exception):
    def __init__(self, key):
        self.key = key


class Wrong(Exception):
    pass


class Buffers(EvalExpr):
    """Records where the node's expressions are evaluated relative to changes of the buffer they may refer to."""

    def operand(self, s, path):
        unchanged = lambda e: e[0] == "elem" and all(isinstance(v, P) and s.zero(v - self.content(s, "bufdims", e[1], f)) for f, v in e[2][1].items())
        if not all(unchanged(e) for e in s.env.get("@bufdims", ())) or s.env["buf"][1]["base"] != self.fixed(s, P.a("base")) or s.env["buf"][1]["rank"] != self.fixed(s, P.a("rank")):
            s.env["!late"] = s.env.get("!late", ()) + (path,)
        return EvalExpr.operand(self, s, path)

    def e_call(self, n, s):
        last = (n.get("fn") or "").split("::")[-1].split("<")[0]
        if last == "init_strides" and n.get("obj") is not None and s.env.get("this") == ("self",):
            # The layout is complete: what follows fills in strides and memory.
            for s2, o in self.ev(n["obj"], s):
                self.event("strides", s2, ("ptr", self.resolve(s2, o)), n)
            return []
        if n.get("op") == "()" and len(n["args"]) == 3:
            for s2, vs in self.evs(n["args"], s, (0, 1, 2)):
                if isinstance(vs[0], tuple) and vs[0] == ("selfmem", "allocate"):
                    self.event("hook", s2, vs[2], n)
                    return []
        return EvalExpr.e_call(self, n, s)

    def e_mem(self, n, s):
        out = []
        if n.get("arrow"):
            r = self.ev(n["b"], s)
            if all(isinstance(b, tuple) and b and b[0] == "selfmem" for _, b in r):
                return [(s2, ("selfmem", n["n"])) for s2, _ in r]
        return EvalExpr.e_mem(self, n, s)


def cases(E, s, f, depth=0):
    """The results of f over the paths that continue s, where f may ask for a case distinction."""
    if depth > 14:
        raise Unsupported("too many cases")
    try:
        return [(s, f(s))]
    except Split as sp:
        parts = E.split_ge(s, sp.d) if sp.ge else E.split_eq(s, sp.d, P.c(0))
    except FlagSplit as fl:
        parts = E.flag(s, fl.key)
    out = []
    for s2, _ in parts:
        out += cases(E, s2, f, depth + 1)
    return out


def iszero(s, x):
    if s.zero(x):
        return True
    if s.nonzero(x):
        return False
    raise Split(x)


def isge(s, x):
    if s.implies(x):
        return True
    if s.implies(-x - ONE):
        return False
    raise Split(x, True)


def flag(s, key):
    if key not in s.env:
        raise FlagSplit(key)
    return s.env[key]


def smax(s, a, b):
    return a if isge(s, a - b) else b


def smin(s, a, b):
    return b if isge(s, a - b) else a


def source(E, s, k, arr="bufdims"):
    """Dimension k of the buffer that went in."""
    return {f: E.content(s, arr, k, f) for f in DIM}


def contains(s, d, x):
    if iszero(s, d["stride_"]):
        return True
    return isge(s, x - d["min_"]) and isge(s, d["max_"] - x)


def flat(E, s, d, x):
    if iszero(s, d["stride_"]) or iszero(s, d["fold_factor_"] + ONE):
        return (x - d["min_"]) * d["stride_"]
    return E.fixed(s, E.mk("emod", x, d["fold_factor_"])) * d["stride_"]


def crop(E, s, d, lo, hi, base):
    """(dimension, base) after a crop to [lo, hi]."""
    nlo, nhi = smax(s, lo, d["min_"]), smin(s, hi, d["max_"])
    if iszero(s, base):
        nb = base
    elif not isge(s, nhi - nlo):
        nb = P.c(0)
    elif iszero(s, d["fold_factor_"] + ONE):
        nb = base + (nlo - d["min_"]) * d["stride_"]
    else:
        nb = base
    return dict(d, min_=nlo, max_=nhi), nb


def given(E, s, path, lo, hi):
    """The bounds of an interval of the node, where undefined bounds are replaced by lo, hi."""
    if ("point", path) in s.env:
        v = E.nodeval(s, path + ("min",), "val")
        return v, v
    a = E.nodeval(s, path + ("min",), "val") if flag(s, ("def", path + ("min",))) else lo
    b = E.nodeval(s, path + ("max",), "val") if flag(s, ("def", path + ("max",))) else hi
    return a, b


def hit(E, s, arr, idx):
    """The entry of an array that index idx refers to on path s (None: what it held before)."""
    for e in reversed(s.env.get("@" + arr, ())):
        if e[0] == "elem":
            if iszero(s, idx - e[1]):
                return e
        elif e[0] == "seg":
            if isge(s, idx - e[1]) and isge(s, e[2] - ONE - idx):
                return e
        else:
            raise Unsupported("array contents not known")
    return None


def zero(s, d):
    """d is 0 on path s; d may be a sum of products of which a factor is 0."""
    if s.zero(d):
        return True
    for a in sorted(d.atoms()):
        q, r = P(), P()
        for k, v in d.m.items():
            if a in k:
                k2 = list(k)
                k2.remove(a)
                q = q + P({tuple(k2): v})
            else:
                r = r + P({k: v})
        if q.const() is None and a not in q.atoms() and s.zero(q) and zero(s, r):
            return True
    return False


def same(E, s, what, got, want):
    for f in want:
        g = got[f] if isinstance(got, dict) else got[1][f]
        if not isinstance(g, P) or not zero(s, g - want[f]):
            raise Wrong("%s: %s is %s instead of %s%s" % (what, f.rstrip("_"), g, want[f], where(s)))


def where(s):
    t = "; ".join("%s >= 0" % c for c in s.cons if c.const() is None)
    return " (where %s)" % t[:int(__import__("os").environ.get("W","160"))] if t else ""


def num(E, s, what, got, want):
    if not isinstance(got, P) or not zero(s, got - want):
        raise Wrong("%s is %s instead of %s%s" % (what, got, want, where(s)))


def loop_of(E, entry):
    """The loop that wrote a segment."""
    for lp in E.loops:
        for k, r in lp.get("summary", {}).items():
            if lp["atoms"][r[0]] == entry[3]:
                return lp, k, r
    return None, None, None
