"""Polynomial normal forms over abstract terms, used to compare index arithmetic up to algebraic identity."""
from fractions import Fraction


class Poly:
    """Sum of monomials: {tuple(sorted(atoms)): coefficient}."""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2, key=repr))
                m[k] = m.get(k, 0) + v1 * v2
        return Poly(m)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def key(self):
        return tuple(sorted(self.m.items(), key=repr))

    def is_const(self):
        return all(k == () for k in self.m)

    def const_val(self):
        return self.m.get((), 0)

    def exact_div(self, o):
        """self / o when o is a single monomial dividing every term, else None."""
        if len(o.m) != 1:
            return None
        (dk, dv), = o.m.items()
        res = {}
        for k, v in self.m.items():
            rest = list(k)
            for a in dk:
                if a in rest:
                    rest.remove(a)
                else:
                    return None
            if v % dv != 0:
                return None
            res[tuple(rest)] = v // dv
        return Poly(res)

    def subst(self, atom, p):
        r = Poly()
        for k, v in self.m.items():
            t = Poly.const(v)
            for a in k:
                t = t * (p if a == atom else Poly.atom(sub_atom(a, atom, p)) if isinstance(a, tuple) else Poly.atom(a))
            r = r + t
        return r

    def atoms(self):
        return {a for k in self.m for a in k}

    def __repr__(self):
        return " + ".join("%s*%s" % (v, "*".join(map(str, k))) if k else str(v) for k, v in self.m.items()) or "0"


def sub_atom(a, atom, p):
    if a[0] == "div" and len(a) == 3:
        n, d = Poly(dict(a[1])).subst(atom, p), Poly(dict(a[2])).subst(atom, p)
        return ("div", n.key(), d.key())
    return a


def mk_div(n, d):
    if d.m == {(): 1}:
        return n
    e = n.exact_div(d)
    if e is not None:
        return e
    return Poly.atom(("div", n.key(), d.key()))


def redo_div(p):
    """Re-normalises division atoms after a substitution."""
    r = Poly()
    for k, v in p.m.items():
        t = Poly.const(v)
        for a in k:
            if isinstance(a, tuple) and a[0] == "div" and len(a) == 3:
                t = t * mk_div(redo_div(Poly(dict(a[1]))), redo_div(Poly(dict(a[2]))))
            else:
                t = t * Poly.atom(a)
        r = r + t
    return r


def from_term(t):
    if t[0] == "c":
        return Poly.const(t[1])
    if t[0] == "bin":
        op = t[1]
        a, b = from_term(t[2]), from_term(t[3])
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return mk_div(a, b)
        return Poly.atom(t)
    if t[0] == "un" and t[1] == "-":
        return -from_term(t[2])
    return Poly.atom(t)
