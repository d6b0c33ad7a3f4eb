"""Buffer statements and the members of buffers define exactly the buffer they describe."""
from sa.program import Program, AnalysisBroken, AnchorMissing
from sa.kernel import P, S, Unsupported, GAPS
from sa.views import DIM, ONE, isloc, Split, deep
from sa.evalexpr import ROOT
from sa.bufsem import (Buffers, Wrong, BROADCAST, cases, iszero, isge, flag, source, contains, flat, crop, given, hit, same, num,
                       loop_of, smin, where)

LEVEL = "other"
EXPLANATION = ("The interpreter's evaluation of every buffer statement and the members of dim and raw_buffer are interpreted abstractly "
               "with an arbitrary source buffer; the buffer that comes out is compared with its definition, one arbitrary dimension at "
               "a time, on every path. Loops are judged by their arbitrary iteration and by what they carry.")
EV = "slinky/runtime/evaluate.cc"
BH = "slinky/runtime/buffer.h"
A = P.a
SRC = lambda s, E: {"base": E.fixed(s, A("base")), "rank": E.fixed(s, A("rank")), "elem_size": E.fixed(s, A("elem_size"))}


class Skip(Exception):
    pass


def stmts(prog):
    out = {}
    for f in prog.functions:
        if f.q.endswith("::evaluator::eval") and len(f.params) == 1 and f.params[0]["t"].startswith("const slinky::") and f.params[0]["t"].endswith(" *"):
            out[f.params[0]["t"][len("const slinky::"):-2]] = f
    return out


def carried(E, lp, s, v):
    """The variable the loop carries whose value after the loop is v on path s."""
    if not v.atoms() & lp["after"]:
        return None
    for kp, a in lp["atoms"].items():
        if a is None:
            continue
        x = s.env.get(kp[0])
        for f in kp[1]:
            x = x[1].get(f) if isinstance(x, tuple) and x[0] == "rec" else None
        if isinstance(x, P) and x == v:
            return kp
    return None


def value(s, kp):
    x = s.env[kp[0]]
    for f in kp[1]:
        x = x[1][f]
    return x


def each(E, lp, fn):
    """fn on every path through an arbitrary iteration."""
    n0 = len(lp["start"].sub)
    for e in lp["ends"]:
        e = e.copy()
        e.env["!n0"] = n0
        for kp, a in lp["atoms"].items():
            if a is not None:
                e.env[("!old", kp)] = E.fixed(e, A(a), n0)
        cases(E, e, fn)


def written(E, lp, k, spec, only=None):
    """Every iteration writes exactly the element of its counter, as spec says."""
    for e in lp["ends"]:
        ws = E.writes(k, lp, e)
        if ws is None or len(ws) > 1:
            raise Skip("an iteration writes several elements")
        e = e.copy()
        e.env["!w"] = tuple(ws)
        e.env["!L"] = tuple(E.fixed(e, A(a), len(lp["start"].sub)) if a else None for a in lp["atoms"].values())

        def one(s):
            for _, i, rec in s.env["!w"]:
                w = spec(s, i)
                if w is not None:
                    same(E, s, "element %s" % i, rec, w)
        cases(E, e, one)


def result(E, s, v):
    r = s.env["buf"] if v is None else E.load(s, v[1]) if isinstance(v, tuple) and v[0] == "ptr" else v
    if not (isinstance(r, tuple) and r[0] == "rec"):
        raise Skip("the body is given something else than a buffer")
    return r


def dims_are(E, s, rec, n, spec, verified):
    """Dimensions [0, n) of the result are as spec says; loops that fill them are judged by their iteration."""
    if not isinstance(rec[1]["dims"], tuple) or rec[1]["dims"][0] != "aptr":
        raise Skip("the dimensions are not in an array")
    _, arr, off = rec[1]["dims"]
    s = s.copy()
    k = A("k")
    s.add(k, n - ONE - k)
    if not s.ok():
        return
    s.env["!k"] = k
    s.env["!off"] = off

    def one(s):
        k = s.env["!k"]
        idx = k + s.env["!off"]
        e = hit(E, s, arr, idx)
        lp, key, summ = loop_of(E, e) if e is not None and e[0] == "seg" else (None, None, None)
        if lp is not None and lp.get("ok") is None:
            lp["ok"] = True
            if verified is not None:
                lp["ok"] = verified(lp, key)
        if lp is not None and lp["ok"] == "iteration":
            # every iteration writes what it should; the element is the one of this dimension
            return
        same(E, s, "dimension %s" % k, E.element(s, arr, idx), spec(s, k))
    cases(E, s, one)


def keeps(E, s, rec, what=("base", "rank", "elem_size")):
    for f in what:
        num(E, s, f, rec[1][f], SRC(s, E)[f])


def run(prog, fn):
    E = Buffers(prog, {})
    s = E.state()
    s.add(A("data:op.dim"))
    E.run(fn, [("node", ROOT)], s, ("self",))
    return E


def bodies(E):
    out = [(s, v, n) for k, s, v, n, _ in E.events if k == "body"]
    if not out:
        raise Wrong("never evaluates its body")
    return out


def late(E, events):
    for s, v, n in events:
        if s.env.get("!late"):
            raise Wrong("evaluates %s after the buffer it may refer to was changed" % ".".join(str(x) for x in s.env["!late"][0][1:] if isinstance(x, str)))
    for lp in E.loops:
        if ("@bufdims", ()) in lp["H"] and ("!evald", ()) in lp["H"]:
            raise Wrong("evaluates the expressions of a dimension in a loop that changes the buffer they may refer to")


def c_clone(E, op):
    for s, v, n in bodies(E):
        rec = result(E, s, v)
        if v is None or rec[1]["dims"][1] == "bufdims":
            raise Wrong("does not make a copy of the dimensions")
        keeps(E, s, rec)
        dims_are(E, s, rec, SRC(s, E)["rank"], lambda s, k: source(E, s, k), None)


def c_crop_dim(E, op):
    late(E, bodies(E))
    d = "data:op.dim"
    for s, v, n in bodies(E):
        rec = result(E, s, v)
        keeps(E, s, rec, ("rank", "elem_size"))
        s = s.copy()
        s.add(A("k"), A("rank") - ONE - A("k"))
        s.env.update({"!k": A("k"), "!d": E.fixed(s, A(d)), "!rec": rec})

        def base(s):
            rec, d = s.env["!rec"], s.env["!d"]
            if not isge(s, SRC(s, E)["rank"] - ONE - d):
                num(E, s, "base", rec[1]["base"], SRC(s, E)["base"])
                return
            old = source(E, s, d)
            lo, hi = given(E, s, ROOT + ("bounds",), old["min_"], old["max_"])
            num(E, s, "base", rec[1]["base"], crop(E, s, old, lo, hi, SRC(s, E)["base"])[1])
        cases(E, s, base)

        def spec(s, k):
            d = s.env["!d"]
            if not iszero(s, k - d):
                return source(E, s, k)
            old = source(E, s, d)
            lo, hi = given(E, s, ROOT + ("bounds",), old["min_"], old["max_"])
            return crop(E, s, old, lo, hi, SRC(s, E)["base"])[0]
        dims_are(E, s, rec, SRC(s, E)["rank"], spec, None)


def c_crop_buffer(E, op):
    ev = bodies(E)
    late(E, ev)
    intervals = {}      # arrays filled with the evaluated bounds of each dimension

    def bounds(s, i):
        old = source(E, s, i)
        return given(E, s, ROOT + ("bounds", ("i", i)), old["min_"], old["max_"])

    for lp in E.loops:
        for k in lp.get("summary", {}):
            if E.fields.get(k[1:]) == ("min", "max") and k != "@bufdims":
                try:
                    written(E, lp, k, lambda s, i: dict(zip(("min", "max"), bounds(s, i))))
                    intervals[lp["atoms"][lp["summary"][k][0]]] = lp["summary"][k]
                except GAPS + (Wrong,):
                    pass

    def given_at(s, i, w):
        """The bounds an iteration was given: evaluated here, or by an earlier loop."""
        cand = []
        for k, es in s.env.items():
            for e in es if isinstance(k, str) and k[0] == "@" else ():
                if e[0] == "seg" and e[3] in intervals and e[4] == 1:
                    m = E.closure({e[3]: i - e[5]})
                    cand.append(tuple(E.fixed(s, deep(e[6][1][f], m)) for f in ("min", "max")))
        return cand or [bounds(s, i)]

    loops = [lp for lp in E.loops if any(E.fields.get(k[1:], DIM) == DIM for k in lp.get("summary", {}))]
    if not loops:
        raise Skip("no loop over the dimensions")
    seen = set()
    for s, v, n in ev:
        rec = result(E, s, v)
        keeps(E, s, rec, ("rank", "elem_size"))
        arr = rec[1]["dims"][1]
        last = [e for e in s.env.get("@" + arr, ()) if e[0] == "seg"]
        lps = [loop_of(E, e)[0] for e in last]
        lps = [lp for lp in lps if lp is not None]
        if not lps:
            # no iteration: nothing is cropped
            num(E, s, "base", rec[1]["base"], SRC(s, E)["base"])
            s2 = s.copy()
            sz = E.nodeval(s2, ROOT + ("bounds",), "size")
            if s2.ok(sz - ONE, SRC(s2, E)["rank"] - ONE):
                raise Wrong("does not crop a buffer%s" % where(s2))
            continue
        if len(lps) != 1:
            raise Skip("several loops over the dimensions")
        lp = lps[0]
        key = "@" + arr
        kp = carried(E, lp, s, rec[1]["base"])
        if kp is None:
            num(E, s, "base", rec[1]["base"], SRC(s, E)["base"])
        e = last[-1]
        num(E, s, "first cropped dimension", e[1], P.c(0))
        sz = E.nodeval(s, ROOT + ("bounds",), "size")
        s2 = s.copy()
        s2.env.update({"!hi": e[2], "!sz": sz})
        cases(E, s2, lambda s: num(E, s, "number of cropped dimensions", s.env["!hi"], smin(s, s.env["!sz"], SRC(s, E)["rank"])))
        if kp is not None:
            num(E, s, "base before the first crop", lp["init"][kp], SRC(s, E)["base"])
        if id(lp) in seen:
            continue
        seen.add(id(lp))

        def one(s):
            w = E.writes(key, lp, s)
            if w is None or len(w) > 1:
                raise Skip("an iteration writes several dimensions")
            i = s.env["!i"]
            if w and not s.zero(w[0][1] - i):
                raise Wrong("an iteration crops another dimension than its own")
            old = source(E, s, i)
            b0 = s.env[("!old", kp)] if kp else P.c(0)
            err = None
            for lo, hi in given_at(s, i, w):
                try:
                    d, nb = crop(E, s, old, lo, hi, b0)
                    same(E, s, "dimension %s" % i, w[0][2] if w else old, d)
                    if kp:
                        num(E, s, "base", value(s, kp), nb)
                    elif not s.zero(nb - b0):
                        raise Wrong("the base does not move with the crop")
                    return
                except Wrong as x:
                    err = err or x
            raise err or Skip("no bounds")
        summ = lp["summary"][key]
        for e in lp["ends"]:
            e = e.copy()
            for q, a in lp["atoms"].items():
                if a is not None:
                    e.env[("!old", q)] = E.fixed(e, A(a), len(lp["start"].sub))
            e.env["!i"] = P.c(summ[2]) * e.env[("!old", summ[0])] + summ[1]
            cases(E, e, one)


def sliced_base(E, s, base, d, at, inside=None):
    if iszero(s, base):
        return base
    if not contains(s, d, at):
        return P.c(0)
    return base + flat(E, s, d, at)


def c_slice_dim(E, op):
    for s, v, n in bodies(E):
        rec = result(E, s, v)
        if v is None or rec[1]["dims"][1] == "bufdims" and s.env.get("@bufdims"):
            raise Wrong("changes the source buffer")
        s = s.copy()
        s.env.update({"!d": E.fixed(s, A("data:op.dim")), "!at": E.nodeval(s, ROOT + ("at",), "val"), "!rec": rec})
        s.add(s.env["!d"])

        def one(s):
            rec, d = s.env["!rec"], s.env["!d"]
            if not isge(s, SRC(s, E)["rank"] - ONE - d):
                keeps(E, s, rec)
                return
            num(E, s, "elem_size", rec[1]["elem_size"], SRC(s, E)["elem_size"])
            num(E, s, "rank", rec[1]["rank"], SRC(s, E)["rank"] - ONE)
            num(E, s, "base", rec[1]["base"], sliced_base(E, s, SRC(s, E)["base"], source(E, s, d), s.env["!at"]))
        cases(E, s, one)

        def spec(s, k):
            d = s.env["!d"]
            if not isge(s, SRC(s, E)["rank"] - ONE - d) or isge(s, d - ONE - k):
                return source(E, s, k)
            return source(E, s, k + ONE)
        dims_are(E, s, rec, rec[1]["rank"], spec, None)


def c_slice_buffer(E, op):
    for s, v, n in bodies(E):
        rec = result(E, s, v)
        if v is None or s.env.get("@bufdims"):
            raise Wrong("changes the source buffer")
        num(E, s, "elem_size", rec[1]["elem_size"], SRC(s, E)["elem_size"])
        if s.zero(SRC(s, E)["rank"]):
            num(E, s, "rank", rec[1]["rank"], P.c(0))
            num(E, s, "base", rec[1]["base"], SRC(s, E)["base"])
            continue
        arr = rec[1]["dims"][1]
        lps = [lp for lp in E.loops if ("@" + arr, ()) in lp["H"]]
        if len(lps) != 1 or rec[1]["dims"][2] != P.c(0):
            raise Skip("not one loop over the dimensions")
        lp = lps[0]
        kr, kb = carried(E, lp, s, rec[1]["rank"]), carried(E, lp, s, rec[1]["base"])
        if kr is None or kb is None:
            raise Skip("rank or base is not carried by the loop")
        num(E, s, "rank before the first dimension", lp["init"][kr], P.c(0))
        num(E, s, "base before the first dimension", lp["init"][kb], SRC(s, E)["base"])
        ctr = [kp for kp, st in lp["step"].items() if st == 1 and kp not in (kr, kb)]
        if len(ctr) != 1:
            raise Skip("no counter of dimensions")
        num(E, s, "first dimension", lp["init"][ctr[0]], P.c(0))
        num(E, s, "number of dimensions visited", value(s, ctr[0]) if ctr[0][0] in s.env else SRC(s, E)["rank"], SRC(s, E)["rank"])

        def one(s):
            i, r, b = s.env[("!old", ctr[0])], s.env[("!old", kr)], s.env[("!old", kb)]
            ws = E.writes("@" + arr, lp, s)
            sz = E.nodeval(s, ROOT + ("at",), "size")
            at = ROOT + ("at", ("i", i))
            if isge(s, sz - ONE - i) and flag(s, ("def", at)):
                num(E, s, "rank after a sliced dimension", value(s, kr), r)
                num(E, s, "base", value(s, kb), sliced_base(E, s, b, source(E, s, i), E.nodeval(s, at, "val")))
                if ws is None or any(not s.implies(w[1] - r) for w in ws):
                    raise Wrong("a sliced dimension overwrites a dimension of the result")
                return
            num(E, s, "rank after a dimension that is kept", value(s, kr), r + ONE)
            num(E, s, "base after a dimension that is kept", value(s, kb), b)
            if not ws or len(ws) != 1 or not s.zero(ws[0][1] - r):
                raise Wrong("a dimension that is kept is not added to the result")
            same(E, s, "kept dimension", ws[0][2], source(E, s, i))
        each(E, lp, one)


def c_transpose(E, op):
    def pick(s, i):
        j = E.nodeval(s, ROOT + ("dims", ("i", i)), "data")
        if not isge(s, SRC(s, E)["rank"] - ONE - j):
            return BROADCAST
        return source(E, s, j)

    def verified(lp, key):
        summ = lp["summary"][key]
        if summ[1] != P.c(0) or summ[2] != 1:
            raise Wrong("writes other dimensions than its own")
        written(E, lp, key, pick)
        return "iteration"

    for s, v, n in bodies(E):
        rec = result(E, s, v)
        keeps(E, s, rec, ("base", "elem_size"))
        sz = E.nodeval(s, ROOT + ("dims",), "size")
        if v is None:
            if s.env.get(("is_truncate", ROOT)) is not True:
                raise Skip("in place without being a truncation")
            s = s.copy()
            s.env.update({"!sz": sz, "!rec": rec})
            cases(E, s, lambda s: num(E, s, "rank", s.env["!rec"][1]["rank"], smin(s, s.env["!sz"], SRC(s, E)["rank"])))
            dims_are(E, s, rec, rec[1]["rank"], lambda s, k: source(E, s, k), None)
            continue
        s = truncate(E, s, rec, sz)
        dims_are(E, s, rec, rec[1]["rank"], pick, verified)


def truncate(E, s, rec, sz):
    """The rank is the number of dimensions, or trailing broadcasts were dropped from it one by one."""
    r = rec[1]["rank"]
    if s.zero(r - sz):
        return s
    arr = rec[1]["dims"][1]
    for lp in E.loops:
        kp = carried(E, lp, s, r)
        if kp is None:
            continue
        if not s.zero(E.fixed(s, lp["init"][kp]) - sz):
            raise Wrong("the rank is %s before broadcasts are dropped, instead of %s" % (lp["init"][kp], sz))
        dropped(E, s, lp, kp, arr)
        s = s.copy()
        s.add(sz - r)       # every change makes it the index of a dimension
        return s
    raise Skip("the rank is not understood")


def dropped(E, s, lp, kp, arr):
    """One of the flags the loop carries (or none) says that everything above the current dimension was dropped."""
    flags = [k for k, a in lp["atoms"].items() if a is None]
    first = None
    for fl in [[k] for k in flags] + [[]]:
        try:
            dropping(E, lp, kp, fl, arr)
            return
        except Wrong as e:
            first = first or e
    raise first


def dropping(E, lp, kp, fl, arr):
    def one(s):
        r0, r1 = s.env[("!old", kp)], value(s, kp)
        if s.zero(r1 - r0):
            return
        if fl:
            # dropping while scanning down: only the dimension of this iteration, and only while all above were dropped
            names = [lp["start"].env[k[0]] for k in fl]
            if not any(isinstance(x, tuple) and s.env.get(x[1]) is True for x in names):
                raise Wrong("drops a dimension below one that is kept")
            i = [w[1] for w in E.writes("@" + arr, lp, s) or ()]
            if not i or not s.zero(i[-1] - r1):
                raise Wrong("the rank becomes %s, which is not the dimension dropped (%s)" % (r1, i))
        elif not s.zero(r1 - r0 + ONE):
            raise Wrong("drops several dimensions at once")
        d = E.element(s, arr, r1)[1]
        for f in ("min_", "max_", "stride_"):
            if not s.zero(d[f]):
                raise Wrong("drops a trailing dimension whose %s is %s%s" % (f.rstrip("_"), d[f], where(s)))
    each(E, lp, one)

    if fl:
        kept(E, lp, kp, fl, arr)


def kept(E, lp, kp, fl, arr):
    """A flag that says that all dimensions above are dropped is false after a dimension that is kept."""
    def one(s):
        for k in fl:
            x = lp["start"].env[k[0]]
            if not (isinstance(x, tuple) and x[0] == "flag"):
                continue
            was = s.env.get(x[1])
            now = s.env[k[0]]
            now = s.env.get(now[1]) if isinstance(now, tuple) and now[0] == "flag" else now
            r0, r1 = s.env[("!old", kp)], value(s, kp)
            if s.zero(r1 - r0) and now is not False and was is not False:
                raise Wrong("a dimension below one that is kept may be dropped")
            if was is False and now is True:
                raise Wrong("a dimension below one that is kept may be dropped")
    each(E, lp, one)


def described(E, i, defaults):
    def spec(s, i):
        p = ROOT + ("dims", ("i", i))
        out = {"min_": E.nodeval(s, p + ("bounds", "min"), "val"), "max_": E.nodeval(s, p + ("bounds", "max"), "val")}
        for f in ("stride", "fold_factor"):
            dv = defaults.get(f)
            out[f + "_"] = E.nodeval(s, p + (f,), "val") if dv is None or flag(s, ("def", p + (f,))) else P.c(dv)
        return out
    return spec


def filled(E, spec):
    def verified(lp, key):
        summ = lp["summary"][key]
        written(E, lp, key, spec)
        return "iteration"
    return verified


def c_make_buffer(E, op):
    spec = described(E, None, {"fold_factor": -1})
    spec2 = described(E, None, {"fold_factor": -1, "stride": (1 << 63) - 1})
    for s, v, n in bodies(E):
        rec = result(E, s, v)
        sz = E.nodeval(s, ROOT + ("dims",), "size")
        if v is None:
            raise Wrong("does not make a buffer")
        for f in ("elem_size", "base"):
            d = s.env.get(("def", ROOT + (f,)))
            want = P.c(0) if d is False else E.nodeval(s, ROOT + (f,), "val")
            num(E, s, f, rec[1][f], want)
        s = truncate(E, s, rec, sz)
        dims_are(E, s, rec, rec[1]["rank"], spec, filled(E, spec))


def c_allocate(E, op):
    spec = described(E, None, {"fold_factor": -1, "stride": (1 << 63) - 1})
    seen = 0
    for k, s, v, n, _ in E.events:
        if k not in ("strides", "hook"):
            continue
        seen += 1
        rec = result(E, s, v)
        sz = E.nodeval(s, ROOT + ("dims",), "size")
        num(E, s, "elem_size", rec[1]["elem_size"], E.nodeval(s, ROOT + ("elem_size",), "val"))
        s = truncate(E, s, rec, sz)
        if rec[1]["dims"] is not None:
            dims_are(E, s, rec, rec[1]["rank"], spec, filled(E, spec))
    if not seen:
        raise Wrong("never determines the layout of the buffer")


def c_constant(E, op):
    for s, v, n in bodies(E):
        if v != ("node", ROOT + ("value",)):
            raise Wrong("does not define the constant's buffer")


# -- members of dim and raw_buffer
D = {f: A(f.rstrip("_")) for f in DIM}


def truth_is(E, s, what, got, want):
    if isinstance(got, P) and got.const() is not None:
        got = got.const() != 0
    if not isinstance(got, bool):
        raise Unsupported("%s is not a truth value" % what)
    if got != want:
        raise Wrong("%s is %s%s" % (what, got, where(s)))


def cur(E, s):
    return {f: E.fixed(s, v) for f, v in D.items()}


def arg(E, s, i):
    return E.fixed(s, A("arg%d" % i))


def folded(E, s, a, b):
    d = cur(E, s)
    if iszero(s, d["stride_"]) or not isge(s, d["fold_factor_"] - ONE):
        return False
    return not iszero(s, E.fixed(s, E.mk("ediv", a, d["fold_factor_"])) - E.fixed(s, E.mk("ediv", b, d["fold_factor_"])))


def extent(E, s, d):
    return d["max_"] - d["min_"] + ONE if isge(s, d["max_"] - d["min_"]) else P.c(0)


DIMS = {
    "min": lambda E, s, d: d["min_"], "max": lambda E, s, d: d["max_"], "begin": lambda E, s, d: d["min_"],
    "end": lambda E, s, d: d["max_"] + ONE, "extent": extent, "stride": lambda E, s, d: d["stride_"],
    "fold_factor": lambda E, s, d: d["fold_factor_"], "empty": lambda E, s, d: not isge(s, d["max_"] - d["min_"]),
    "contains(long)": lambda E, s, d: contains(s, d, arg(E, s, 0)),
    "contains(long, long)": lambda E, s, d: iszero(s, d["stride_"]) or (isge(s, arg(E, s, 0) - d["min_"]) and isge(s, d["max_"] - arg(E, s, 1))),
    "flat_offset_bytes": lambda E, s, d: flat(E, s, d, arg(E, s, 0)),
    "is_folded(long, long)": lambda E, s, d: folded(E, s, arg(E, s, 0), arg(E, s, 1)),
    "is_folded()": lambda E, s, d: folded(E, s, d["min_"], d["max_"]),
    "is_broadcast": lambda E, s, d: iszero(s, d["min_"]) and iszero(s, d["max_"]) and iszero(s, d["stride_"]),
    "is_point()": lambda E, s, d: iszero(s, d["min_"] - d["max_"]),
    "is_point(long)": lambda E, s, d: iszero(s, d["min_"] - arg(E, s, 0)) and iszero(s, d["max_"] - arg(E, s, 0)),
}
SETS = {
    "set_extent": lambda d, a, b: dict(d, max_=d["min_"] + a - ONE), "set_point": lambda d, a, b: dict(d, min_=a, max_=a),
    "set_bounds": lambda d, a, b: dict(d, min_=a, max_=b), "set_range": lambda d, a, b: dict(d, min_=a, max_=b - ONE),
    "set_min_extent": lambda d, a, b: dict(d, min_=a, max_=a + b - ONE), "set_stride": lambda d, a, b: dict(d, stride_=a),
    "set_fold_factor": lambda d, a, b: dict(d, fold_factor_=a), "translate": lambda d, a, b: dict(d, min_=d["min_"] + a, max_=d["max_"] + a),
}


def dim_members(res, prog):
    n = 0
    for f in prog.methods("slinky::dim"):
        name = f.q.split("::")[-1]
        sig = f.fid[f.fid.index(name, len("slinky::dim::")):].replace(" const", "")
        key = "dim:" + sig
        spec = DIMS.get(name) or DIMS.get(sig)
        if spec is None and name not in SETS or f.body is None:
            continue
        n += 1
        E = Buffers(prog, {})
        s = E.state()
        s.env["d"] = ("rec", dict(D))
        try:
            for s2, v in E.run(f, [A("arg%d" % i) for i in range(len(f.params))], s, ("ptr", ("loc", "d", ()))):
                v = E.load(s2, v) if isloc(v) else v
                s2.env.update({"!v": v})

                def one(s):
                    d = cur(E, s)
                    if spec is None:
                        same(E, s, "the dimension", s.env["d"], SETS[name](d, arg(E, s, 0), arg(E, s, 1)))
                        return
                    same(E, s, "the dimension", s.env["d"], d)
                    w = spec(E, s, d)
                    if isinstance(w, bool):
                        truth_is(E, s, sig, s.env["!v"], w)
                    else:
                        num(E, s, sig, s.env["!v"], w)
                cases(E, s2, one)
            res.ok("dim::%s does what it says" % sig)
        except Wrong as x:
            res.bad(key, BH, f.line, "dim::%s: %s" % (sig, x))
        except GAPS + (Skip,) as x:
            res.note("%s: %s" % (key, x))
    if n < 15:
        raise AnchorMissing("members of dim: found %d" % n)


def buffer_run(prog, f, args):
    E = Buffers(prog, {})
    s = E.state()
    s.add(A("arg0") if f.params and "unsigned" in f.params[0]["t"] else P.c(0))
    return E, E.run(f, args, s, ("ptr", ("loc", "buf", ())))


def m_crop(E, f, outs):
    for s, v in outs:
        rec = s.env["buf"]
        keeps(E, s, rec, ("rank", "elem_size"))
        s.env.update({"!d": arg(E, s, 0), "!lo": arg(E, s, 1), "!hi": arg(E, s, 2)})

        def one(s):
            want = SRC(s, E)["base"]
            if isge(s, SRC(s, E)["rank"] - ONE - s.env["!d"]):
                want = crop(E, s, source(E, s, s.env["!d"]), s.env["!lo"], s.env["!hi"], want)[1]
            num(E, s, "base", s.env["buf"][1]["base"], want)
        cases(E, s, one)

        def spec(s, k):
            if not iszero(s, k - s.env["!d"]):
                return source(E, s, k)
            return crop(E, s, source(E, s, k), s.env["!lo"], s.env["!hi"], SRC(s, E)["base"])[0]
        dims_are(E, s, rec, SRC(s, E)["rank"], spec, None)


def m_slice(kind):
    def go(E, f, outs):
        for s, v in outs:
            rec = s.env["buf"]
            at = A("x") if kind == "in_bounds" else A("arg1")
            s.env.update({"!d": arg(E, s, 0), "!at": E.fixed(s, at)})

            def one(s):
                rec, d = s.env["buf"], s.env["!d"]
                if not isge(s, SRC(s, E)["rank"] - ONE - d):
                    keeps(E, s, rec)
                    return
                num(E, s, "elem_size", rec[1]["elem_size"], SRC(s, E)["elem_size"])
                num(E, s, "rank", rec[1]["rank"], SRC(s, E)["rank"] - ONE)
                b = SRC(s, E)["base"]
                if kind == "at":
                    b = sliced_base(E, s, b, source(E, s, d), s.env["!at"])
                elif kind == "in_bounds":
                    if iszero(s, b):
                        return          # not allowed
                    b = b + flat(E, s, source(E, s, d), s.env["!at"])
                num(E, s, "base", rec[1]["base"], b)
            cases(E, s, one)

            def spec(s, k):
                d = s.env["!d"]
                if not isge(s, SRC(s, E)["rank"] - ONE - d) or isge(s, d - ONE - k):
                    return source(E, s, k)
                return source(E, s, k + ONE)
            dims_are(E, s, rec, rec[1]["rank"], spec, None)
    return go


def m_dim(E, f, outs):
    for s, v in outs:
        v = E.load(s, v) if isloc(v) else v
        if not (isinstance(v, tuple) and v[0] == "rec"):
            raise Skip("does not return a dimension")
        s.env.update({"!v": v, "!d": arg(E, s, 0)})

        def one(s):
            d = s.env["!d"]
            if isge(s, SRC(s, E)["rank"] - ONE - d):
                same(E, s, "dimension", s.env["!v"], source(E, s, d))
            else:
                same(E, s, "dimension past the rank", s.env["!v"], BROADCAST)
        cases(E, s, one)


def visited(E, s, lp, size, what, rank=True):
    """The counter of a loop visits 0 ... min(size, rank) - 1."""
    ctr = [kp for kp, st in lp["step"].items() if st == 1 and s.zero(lp["init"][kp])]
    if len(ctr) != 1:
        raise Skip("no counter")
    s = s.copy()
    s.env.update({"!n": value(s, ctr[0]), "!sz": size})
    cases(E, s, lambda s: num(E, s, "number of %s visited" % what, s.env["!n"], smin(s, s.env["!sz"], SRC(s, E)["rank"]) if rank else s.env["!sz"]))
    return ctr[0]


def m_span_offset(E, f, outs):
    for s, v in outs:
        size = E.nodeval(s, ("idx",), "size")
        v = E.num(s, v)
        lps = [lp for lp in E.loops if v.atoms() & lp["after"]]
        if v.const() == 0:
            s.env["!sz"] = size
            cases(E, s, lambda s: num(E, s, "number of dimensions ignored", smin(s, s.env["!sz"], SRC(s, E)["rank"]), P.c(0)))
            continue
        if len(lps) != 1:
            raise Skip("not one loop")
        lp = lps[0]
        kp = carried(E, lp, s, v)
        if kp is None:
            raise Skip("sum not understood")
        num(E, s, "sum before the first dimension", lp["init"][kp], P.c(0))
        ctr = [k for k, st in lp["step"].items() if st == 1 and k != kp]
        if len(ctr) != 1:
            raise Skip("no counter")
        s.env.update({"!n": lp["n"]})
        num(E, s, "first dimension", lp["init"][ctr[0]], P.c(0))
        times(E, s, lp, ctr[0], size)

        def one(s):
            i = s.env[("!old", ctr[0])]
            num(E, s, "offset added", value(s, kp) - s.env[("!old", kp)], flat(E, s, source(E, s, i), E.nodeval(s, ("idx", ("i", i)), "data")))
        each(E, lp, one)


def times(E, s, lp, ctr, size, rank=True):
    """How often a loop from 0 in steps of 1 runs, from the atom that stands for it."""
    t = [a for a in lp["after"] if a.startswith("times")]
    s = s.copy()
    s.env.update({"!n": E.fixed(s, A(t[0])), "!sz": size})
    cases(E, s, lambda s: num(E, s, "number of dimensions visited", s.env["!n"], smin(s, s.env["!sz"], SRC(s, E)["rank"]) if rank else s.env["!sz"]))


def m_span_contains(E, f, outs):
    for s, v in outs:
        size = E.nodeval(s, ("idx",), "size")
        if isinstance(v, bool) and v is True:
            # every dimension was visited and found to contain its index, or there are none: judged per iteration
            pass
    lps = list(E.loops)
    if len(lps) < 1:
        raise Skip("no loop")
    for lp in lps:
        fl = [k for k, a in lp["atoms"].items() if a is None]
        ctr = [k for k, st in lp["step"].items() if st == 1]
        if len(fl) != 1 or len(ctr) != 1:
            raise Skip("loop not understood")
        num(E, lp["pre"], "first dimension", lp["init"][ctr[0]], P.c(0))
        if lp["pre"].env[fl[0][0]] is not True:
            raise Wrong("starts from %s" % lp["pre"].env[fl[0][0]])

        def one(s):
            i = s.env[("!old", ctr[0])]
            x = lp["start"].env[fl[0][0]]
            was = flag(s, x[1])
            now = s.env[fl[0][0]]
            now = s.env.get(now[1]) if isinstance(now, tuple) else now
            want = was and contains(s, source(E, s, i), E.nodeval(s, ("idx", ("i", i)), "data"))
            truth_is(E, s, "containment after a dimension", now, want)
        each(E, lp, one)
        for s, v in outs:
            if isinstance(v, tuple) and v[0] == "flag" and lp["after"] & s.env.get(ctr[0][0], P()).atoms():
                times(E, s, lp, ctr[0], E.nodeval(s, ("idx",), "size"))


def m_translate(E, f, outs):
    for s, v in outs:
        rec = s.env["buf"]
        keeps(E, s, rec)
        size = E.nodeval(s, ("idx",), "size")
        s.add(SRC(s, E)["rank"] - size)

        def spec(s, k):
            d = source(E, s, k)
            if not isge(s, E.nodeval(s, ("idx",), "size") - ONE - k):
                return d
            o = E.nodeval(s, ("idx", ("i", k)), "data")
            return dict(d, min_=d["min_"] + o, max_=d["max_"] + o)
        dims_are(E, s, rec, SRC(s, E)["rank"], spec, None)


def m_offset2(E, f, outs):
    for s, v in outs:
        s.env.update({"!v": E.num(s, v), "!i": tuple(arg(E, s, i) for i in (0, 1))})

        def one(s):
            w = P.c(0)
            for k in (0, 1):
                if isge(s, SRC(s, E)["rank"] - ONE - P.c(k)):
                    w = w + flat(E, s, source(E, s, P.c(k)), s.env["!i"][k])
            num(E, s, "offset", s.env["!v"], w)
        cases(E, s, one)


SPAN = ("node", ("idx",))
MEMBERS = {
    "crop(unsigned long, long, long)": (m_crop, None),
    "slice(unsigned long)": (m_slice("none"), None),
    "slice(unsigned long, long)": (m_slice("at"), None),
    "slice(unsigned long, slinky::in_bounds)": (m_slice("in_bounds"), [A("arg0"), ("rec", {"x": A("x")})]),
    "dim(unsigned long)": (m_dim, None),
    "flat_offset_bytes(slinky::span<const long, 18446744073709551615>)": (m_span_offset, [SPAN]),
    "contains(slinky::span<const long, 18446744073709551615>)": (m_span_contains, [SPAN]),
    "translate(slinky::span<const long, 18446744073709551615>)": (m_translate, [SPAN]),
    "flat_offset_bytes<long>(long, long)": (m_offset2, None),
}


def buffer_members(res, prog):
    seen = set()
    for f in prog.methods("slinky::raw_buffer"):
        sig = f.fid[len("slinky::raw_buffer::"):].replace(" const", "") if not f.fid.startswith("slinky::raw_buffer::flat_offset_bytes(slinky::span") and "span" not in f.fid else f.fid[len("slinky::raw_buffer::"):].removesuffix(" const")
        if sig not in MEMBERS or f.body is None or sig in seen:
            continue
        seen.add(sig)
        fn, args = MEMBERS[sig]
        key = "buffer:" + sig
        try:
            E, outs = buffer_run(prog, f, args or [A("arg%d" % i) for i in range(len(f.params))])
            fn(E, f, outs)
            res.ok("raw_buffer::%s does what it says (%d paths)" % (sig, len(outs)))
        except Wrong as x:
            res.bad(key, BH, f.line, "raw_buffer::%s: %s" % (sig, x))
        except GAPS + (Skip,) as x:
            res.note("%s: %s" % (key, x))
    if len(seen) < 6:
        raise AnchorMissing("members of raw_buffer: found %s" % sorted(seen))


STMTS = {"clone_buffer": c_clone, "crop_dim": c_crop_dim, "crop_buffer": c_crop_buffer, "slice_dim": c_slice_dim, "slice_buffer": c_slice_buffer,
         "transpose": c_transpose, "make_buffer": c_make_buffer, "allocate": c_allocate, "constant_buffer": c_constant}


def check(res, tier):
    prog = Program()
    fs = stmts(prog)
    for name, fn in STMTS.items():
        key = "eval:" + name
        if name not in fs:
            raise AnchorMissing("evaluation of %s not found" % name)
        f = fs[name]
        try:
            E = run(prog, f)
            fn(E, f)
            res.ok("%s defines the buffer it describes (%d paths to its body, %d loops)" % (name, len(E.events), len(E.loops)))
        except GAPS + (Skip,) as x:
            res.note("%s: %s" % (key, x))
        except Wrong as x:
            res.bad(key, EV, f.line, "%s: %s" % (name, x))
    dim_members(res, prog)
    buffer_members(res, prog)
