from sa import evalsem
from sa.evalsem import strip, walk
from sa.poly import Poly, from_term
from sa.program import AnalysisBroken, AnchorMissing
from .evalcommon import run
LEVEL = "other"
EXPLANATION = ("The values a loop gives its variable are extracted from the interpreter's serial and parallel loops as symbolic terms (first "
               "value, increment, bound; number of iterations and the value of iteration i) and compared as polynomials: serial min, "
               "min+step, ... up to max; parallel max(0, floor((max-min+step)/step)) iterations with iteration i at min+i*step.")


class Norm:
    """Polynomials over the loop's min, max, step and the iteration number."""

    def __init__(self, it):
        self.it = it

    def atom(self, t):
        src = self.it.child_src
        if t[0] == "fldv" and t[1] in src and src[t[1]][2:] == ("bounds",) and t[2] in ("min", "max"):
            return t[2]
        if t in src and src[t][0] == "fld":
            if src[t][2] == "step":
                return "step"
            if src[t][2] in ("min", "max") and src[t][1][2:] == ("bounds",):
                return src[t][2]
        if t[0] == "ret" and len(t) == 3:
            return "i"
        return None

    def poly(self, t):
        a = self.atom(t)
        if a:
            return Poly.atom((a,))
        if t[0] == "c":
            return Poly.const(t[1])
        if t[0] == "bin" and t[1] in ("+", "-", "*"):
            x, y = self.poly(t[2]), self.poly(t[3])
            if x is None or y is None:
                return None
            return x + y if t[1] == "+" else x - y if t[1] == "-" else x * y
        if t[0] == "pcall":
            q = t[1].split("<")[0].split("(")[0].split("::")[-1]
            if q in ("ceil_div", "floor_div") and len(t[3]) == 2:
                x, y = self.poly(t[3][0]), self.poly(t[3][1])
                if x is None or y is None or y != STEP:
                    return None
                if q == "ceil_div":
                    x = x + y - Poly.const(1)
                return Poly.atom(("fdiv", x.key()))
        return None


MIN, MAX, STEP, I = (Poly.atom((x,)) for x in ("min", "max", "step", "i"))


def count_ok(p):
    """floor((max - min + step) / step), up to moving whole steps in and out of the division."""
    ds = [a for a in p.atoms() if a[0] == "fdiv"]
    if len(ds) != 1 or len(p.atoms()) != 1 or p.m.get((ds[0],)) != 1:
        return None
    c = p.const_val()
    inner = Poly(dict(ds[0][1])) + Poly.const(c) * STEP
    return inner == MAX - MIN + STEP


def check(res, tier):
    res.rule("serial", "the loop variable starts at min, grows by step and the body runs only while it is at most max")
    res.rule("parallel", "max(0, floor((max-min+step)/step)) iterations, iteration i binding the variable to min + i*step")
    prog, it, outs = run(res, (), 0)
    nm = Norm(it)
    root = next((f for f, k, rs in outs if f.params[0]["t"].replace("const ", "").replace(" *", "").endswith("slinky::loop")), None)
    if root is None:
        raise AnchorMissing("the evaluation of loops was not found")
    serial(res, it, nm, root)
    parallel(res, it, nm, root)


def parallel(res, it, nm, root):
    n = 0
    for r, N, s, node in it.pfors:
        if r is not root:
            continue
        n += 1
        guarded = False
        if N[0] == "pcall" and "std::max" in N[1] and evalsem.C(0) in N[3]:
            guarded = True
            N = next(x for x in N[3] if x != evalsem.C(0))
        else:
            mn, mx = (next((t for t in terms(s.facts) if nm.atom(t) == a), None) for a in ("min", "max"))
            if mn and mx:
                guarded = it.decide(s, ("<", mx, mn)) is False
            guarded = guarded or it.decide(s, ("<", N, evalsem.C(0))) is False or it.decide(s, ("<", evalsem.C(0), N)) is True
            guarded = guarded or any(nonneg(nm, f, pol) for f, pol in s.facts.items())
        p = nm.poly(N)
        c = count_ok(p) if p is not None else None
        if c is None:
            res.note("%s:%d number of parallel iterations not understood" % (root.file, node["l"]))
        elif not c:
            res.bad("count", root.file, node["l"], "a parallel loop does not run once for each of min, min+step, ... up to max")
        elif not guarded:
            res.bad("empty", root.file, node["l"], "a parallel loop whose bounds are empty can get a negative number of iterations, used as an unsigned number")
        else:
            res.ok("parallel loop: number of iterations is that of the serial loop")
    if not n:
        raise AnchorMissing("no parallel loop found in the interpreter")
    vals = 0
    for r, g, v, task, loops, s, node in it.binds:
        if r is not root or not task:
            continue
        p = nm.poly(v)
        vals += 1
        if p is None:
            if not any(isinstance(v, tuple) and v[:1] == (x,) for x in ("lookup", "ret", "orig")):
                res.note("%s:%d value bound in a parallel iteration not understood" % (root.file, node["l"]))
        elif p != MIN + I * STEP:
            res.bad("value", root.file, node["l"], "iteration i of a parallel loop does not bind its variable to min + i*step")
        else:
            res.ok("iteration i of a parallel loop binds min + i*step")
    res.need(vals, "bindings in parallel iterations", 1)


def nonneg(nm, f, pol):
    """Whether a fact known on the path implies max - min + step >= 0 (for step >= 1)."""
    if f[0] != "<" or pol not in (True, False):
        return False
    a, b = nm.poly(f[1]), nm.poly(f[2])
    if a is None or b is None:
        return False
    P = b - a - Poly.const(1) if pol else a - b       # known to be >= 0
    for k in (Poly.const(0), STEP):
        d = MAX - MIN + STEP - P - k                  # have to show: d >= 0
        if d.is_const() and (d.const_val() or 0) >= 0:
            return True
        e = d - STEP
        if e.is_const() and (e.const_val() or 0) >= -1:
            return True
    return False


def terms(facts):
    out, st = set(), list(facts)
    while st:
        t = st.pop()
        if isinstance(t, tuple):
            out.add(t)
            st += [x for x in t if isinstance(x, tuple)]
    return out


def serial(res, it, nm, root):
    seen = False
    for r, g, v, task, loops, s, node in it.binds:
        if r is not root or task:
            continue
        p = nm.poly(v)
        if not loops:
            if p is not None and not p.is_const() and p != MIN:
                res.bad("single", root.file, node["l"], "a loop run without iterating binds something other than min")
            elif p is not None and not p.is_const():
                res.ok("a loop with one iteration binds min")
            continue
        L = loops[-1]
        if v[0] == "loop":
            seen = True
            shape(res, it, nm, root, L, v[2], s, node)
        elif p is not None:
            if p == MIN:
                res.ok("serial loop starts at min")
            else:
                res.bad("first", root.file, node["l"], "a serial loop does not start at min")
    if not seen:
        res.note("serial loop not understood")


def shape(res, it, nm, root, L, loc, s, node):
    d = loc[1]
    isv = lambda x: x is not None and x["k"] == "ref" and x.get("d") == d
    steps = []
    for x in walk(L.n):
        if x["k"] == "bin" and x["op"] in ("+=", "=") and isv(strip(x["L"])):
            e = x["R"]
            if x["op"] == "=":
                e = strip(e)
                if e["k"] == "bin" and e["op"] == "+" and isv(strip(e["L"])):
                    e = e["R"]
                elif e["k"] == "bin" and e["op"] == "+" and isv(strip(e["R"])):
                    e = e["L"]
                else:
                    steps.append(None)
                    continue
            v = it.quiet_eval(e, s, L.frame)
            steps.append(nm.poly(v) if v is not None else None)
        elif x["k"] == "un" and x["op"] in ("++", "--") and isv(strip(x["e"])):
            steps.append(Poly.const(1 if x["op"] == "++" else -1))
    if len(steps) != 1 or steps[0] is None:
        res.note("serial loop: increment not understood")
    elif steps[0] != STEP:
        res.bad("step", root.file, node["l"], "a serial loop does not advance by its step")
    else:
        res.ok("serial loop advances by step")
    # The body runs only under v <= max.
    known = None
    for f, pol in s.facts.items():
        if f[0] != "<":
            continue
        a, b = f[1], f[2]
        if pol is False and b == ("loop", L.n["id"], loc):
            p = nm.poly(a)          # max < v is false
            known = known or (p == MAX if p is not None and MAX_IN(p) else None)
        if pol is True and a == ("loop", L.n["id"], loc):
            p = nm.poly(b)          # v < max + 1
            known = known or (p == MAX + Poly.const(1) if p is not None and MAX_IN(p) else None)
    v = ("loop", L.n["id"], loc)
    if known is None and any(f[0] not in ("<", "==") and f != v and evalsem.mentions(f, v) for f in s.facts):
        res.note("serial loop: condition not understood")
    elif known is None:
        res.bad("bound", root.file, node["l"], "a serial loop binds its variable without having compared it with max")
    elif not known:
        res.bad("bound", root.file, node["l"], "a serial loop runs its body for a value other than those up to max")
    else:
        res.ok("serial loop runs its body only up to max")


def MAX_IN(p):
    return ("max",) in p.atoms()
