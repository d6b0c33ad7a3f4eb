from sa.program import walk, AnalysisBroken, AnchorMissing
from sa.program import walk_fn
from sa.shape import TooBig, ResultInterp, reaching
from .shapecommon import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive construction analysis over the type-checked syntax tree: what each constructor function stores in which field, "
               "and what each default rewriting function puts in every field of the node it builds, on every path.")
# Rewriting classes and the kinds of fields they must rewrite.
BASES = (("slinky::stmt_mutator", ("stmt",)), ("slinky::node_mutator", ("expr", "stmt")), ("slinky::substitutor", ("expr", "stmt", "var")))
COMMUTES = ("add", "mul", "min", "max", "equal", "not_equal", "logical_and", "logical_or")
# Hints for the interpreter that do not change what a statement computes.
HINTS = (("let_stmt", ("is_closure",)),)


def check(res, tier):
    prog, nodes = program()
    res.rule("make", "the function that constructs a node stores each argument in the field of its own")
    res.rule("rewrite", "a default rewriting function rewrites every child of the node, and builds a node of the same kind with every rewritten child and every other field unchanged in its own place; it returns the old node only if no child changed")
    res.rule("clone", "cloning a node with a new body keeps all of its other fields")
    res.rule("one-result", "a rewriting function delivers exactly one result on every path, and rewrites nothing else after delivering it")
    res.rule("place", "wherever a statement is built from another of its kind, a field that is copied goes to the field of the same name")
    makes(res, prog, nodes)
    clones(res, prog, nodes)
    rewrites(res, prog, nodes)
    results(res, prog, nodes)
    places(res, prog, nodes)


def makes(res, prog, nodes):
    n = 0
    for q in nodes.classes:
        fs = [f for f in prog.functions if f.recq == q and f.static and f.n.startswith("make") and f.body and not f.dep and not f.inst]
        for f in fs:
            it = MakeInterp(prog, nodes)
            try:
                ps = it.paths(f)
            except TooBig:
                res.note("%s:%d %s::make is too large" % (f.file, f.line, short(q)))
                continue
            if not ps:
                continue
            n += 1
            names = [p["n"] for p in f.params]
            for rq, m, s in ps:
                if rq != q:
                    res.bad("make-class:" + short(q), f.file, f.line, "%s::%s builds a %s" % (short(q), f.n, short(rq)))
                    continue
                used = [i for i in m.values() if isinstance(i, int)]
                swapped = sorted(used) == list(range(len(names))) and short(q) in COMMUTES
                for k, i in sorted(m.items()):
                    if not isinstance(i, int):
                        continue
                    if k in names and names[i] != k:
                        # Operands of an operator that commutes may be put in a canonical order.
                        if swapped and k in ("a", "b") and names[i] in ("a", "b"):
                            continue
                        res.bad("make:%s:%s" % (short(q), k), f.file, f.line, "%s::%s stores the argument %s in the field %s" % (short(q), f.n, names[i], k))
                    else:
                        res.ok("%s::%s: %s <- argument %d" % (short(q), f.n, k, i))
                fields = [fd["n"] for rq2, fd in prog.all_fields(q) if not rq2.startswith("slinky::base_node") and not rq2.startswith("slinky::ref_counted")]
                for i, nm in enumerate(names):
                    if nm in fields and nm not in m:
                        res.bad("make-lost:%s:%s" % (short(q), nm), f.file, f.line, "%s::%s does not store its argument %s" % (short(q), f.n, nm))
                dup = {names[i] for i in used if used.count(i) > 1}
                for nm in sorted(dup):
                    res.bad("make-dup:%s:%s" % (short(q), nm), f.file, f.line, "%s::%s stores its argument %s in two fields" % (short(q), f.n, nm))
    res.need(n, "constructor functions of nodes", 30)
    res.count("constructor functions", n)


def clones(res, prog, nodes):
    n = 0
    for f in prog.functions:
        if f.n != "clone_with" or f.dep or not f.body or not f.params:
            continue
        q = nodes.node_of_param(f.params[0]["t"])
        if not q:
            continue
        n += 1
        it = ShapeInterp(prog, nodes)
        rs = it.start(f, q)
        for s, v in rs:
            nf = it.nf(s, v)
            if nf[0] != "mk":
                res.note("%s:%d clone_with(%s): result not recognised" % (f.file, f.line, short(q)))
                continue
            if nf[1] != q:
                res.bad("clone-class:" + short(q), f.file, f.line, "cloning a %s gives a %s" % (short(q), short(nf[1])))
                continue
            d = dict(nf[2])
            for sl in nodes.slots(q):
                if sl.path == ("body",) or sl.path == ("sym",) and len(f.params) > 2:
                    continue
                got = it.leaf(("agg", nf[2]), sl.path) if sl.path[0] in d else []
                if d.get(sl.path[0]) == ("vec", frozenset()):
                    got = [("?", "default")]
                for g in got:
                    if g == ("o", sl.path):
                        res.ok("clone_with(%s) keeps %s" % (short(q), sl.name))
                    elif g[0] == "o":
                        res.bad("clone:%s:%s" % (short(q), sl.name), f.file, f.line, "cloning a %s puts its %s in place of its %s" % (short(q), ".".join(g[1]), sl.name))
                    elif g == ("?", "default") or g == ("undef",):
                        res.bad("clone-lost:%s:%s" % (short(q), sl.name), f.file, f.line, "cloning a %s loses its %s" % (short(q), sl.name))
                    else:
                        res.note("clone_with(%s): %s not understood" % (short(q), sl.name))
    res.need(n, "clone functions", 10)


def final(prog, nodes, base):
    """The visit function that runs for each kind of node in the class itself."""
    out = {}
    order = sorted(set(prog.bases_closure(base)) | {base}, key=lambda b: (-len(prog.bases_closure(b)), b))
    for b in order:
        for f, q in visits(prog, nodes, b):
            out.setdefault(q, f)
    return out


def rewrites(res, prog, nodes):
    n = 0
    for base, cats in BASES:
        if base not in prog.records:
            raise AnchorMissing(base + " not found")
        for q, f in sorted(final(prog, nodes, base).items()):
            n += 1
            rewrite(res, prog, nodes, base, cats, f, q)
    res.need(n, "default rewriting functions", 80)
    res.count("rewriting functions", n)


def rewrite(res, prog, nodes, base, cats, f, q):
    it = ShapeInterp(prog, nodes)
    sq = short(q)
    who = "%s::visit(%s)" % (short(base), sq)
    try:
        rs = it.start(f, q)
    except TooBig:
        res.note("%s:%d %s is too large" % (f.file, f.line, who))
        return
    slots = nodes.slots(q)
    for sl in slots:
        bad, unk, okn = None, None, 0
        for s, v in rs:
            r = judge(it, s, q, sl, cats)
            if r is None:
                okn += 1
            elif r[0] == "?":
                unk = r
            else:
                bad = r
        if bad:
            res.bad("%s:%s:%s:%s" % (bad[0], short(base), sq, sl.name), f.file, f.line, "%s %s" % (who, bad[1]))
        elif unk:
            res.note("%s:%d %s: %s not decided: %s" % (f.file, f.line, who, sl.name, unk[1]))
        else:
            res.ok("%s: %s on %d paths" % (who, sl.name, okn))


SCOPED = (("sym",), ("body",), ("task",))


def captured(s):
    return any(e[0] == "undefm" for e in s.chk.ev)


def judge(it, s, q, sl, cats):
    ev = s.chk.ev
    p = sl.path
    rs = [e[1] for e in ev if e[0] == "res"]
    if len(rs) != 1:
        return ("?", "no single result")
    nf = rs[0]
    child = sl.cat in cats
    if captured(s) and (p in SCOPED or p[0] in ("lets", "dst_x", "src_x")):
        # The scope of a declaration that hides what is substituted stays as it is.
        return None
    mut = any(e[0] in ("mut", "visit") and e[1] == p[:len(e[1])] for e in ev)
    undef = it.covered(s, sl, ())
    if nf in (("op",), ("o", ())):
        if not child:
            return None
        if not mut and not undef:
            return ("unvisited", "returns the node unchanged without rewriting %s" % sl.name)
        if any(e[0] == "diff" and e[1] == p for e in ev):
            return ("stale", "returns the old node although %s changed" % sl.name)
        if not undef and not any(e[0] in ("same", "asked") and (e[1] == p or e[1] == p[:len(e[1])]) for e in ev):
            return ("stale", "returns the old node without asking if %s changed" % sl.name)
        return None
    if nf[0] != "mk":
        return ("?", "result %s" % str(nf)[:80])
    if nf[1] != q:
        return ("?", "builds a %s" % short(nf[1]))
    d = dict(nf[2])
    if p[0] not in d:
        return ("?", "no constructor argument")
    if (short(q), p) in HINTS:
        return None
    # Bounds that say what the implicit clamp of a crop says anyway may be left out, others are clamped.
    clamp = short(q) in ("crop_buffer", "crop_dim") and p[0] == "bounds" and "var" in cats and mut
    for g in it.leaf(("agg", nf[2]), p):
        if clamp and (g[0] not in ("m", "o") or g[1] == p):
            continue
        if child:
            if g == ("m", p):
                continue
            if g == ("o", p):
                if undef or any(e[0] == "same" and e[1] == p for e in ev) and not any(e[0] == "diff" and e[1] == p for e in ev):
                    continue
                return ("old", "builds a node with the old %s" % sl.name)
            if g == ("undef",) and undef:
                continue
            if g[0] in ("m", "o") and g[1] != p:
                return ("place", "puts %s in place of %s" % (".".join(g[1]), sl.name))
            if g == ("undef",) or g == ("?", "default"):
                return ("lost", "drops %s" % sl.name)
            return ("?", "value %s" % str(g)[:80])
        if g == ("o", p):
            continue
        if g[0] == "o" and g[1] != p:
            return ("place", "puts %s in place of %s" % (".".join(g[1]), sl.name))
        if g == ("?", "default") or g == ("undef",):
            return ("lost", "drops %s" % sl.name)
        return ("?", "value %s" % str(g)[:80])
    return None


MUTATORS = ("slinky::stmt_mutator", "slinky::node_mutator")


def results(res, prog, nodes):
    relevant = reaching(prog, lambda c: c.get("fn", "").split("::")[-1] == "set_result")
    relevant = {x for x in relevant if (prog.callee(x) is None or prog.callee(x).n != "set_result")}
    # A helper that only gives up ends the path too.
    relevant |= {f.fid for f in prog.functions if f.rt == "void" and f.body and f.file.startswith("slinky/builder")
                 and any(x["k"] == "call" and x.get("fn") in ("std::abort", "abort") for x in walk_fn(f))}
    n = 0
    for b in sorted(set(q for m in MUTATORS for q in derived(prog, m)) | set(MUTATORS)):
        for f, q in visits(prog, nodes, b):
            n += 1
            who = "%s::visit(%s)" % (short(b), short(q))
            it = ResultInterp(prog, nodes, relevant)
            try:
                rs = it.start(f, q)
            except TooBig:
                res.note("%s:%d %s is too large" % (f.file, f.line, who))
                continue
            bad = False
            for r in it.reports:
                bad = True
                res.bad("result:%s:%s" % (who, r["msg"]), r["file"], r["line"] or f.line, "%s: %s" % (who, r["msg"]))
            none = [s for s, v in rs if not any(e[0] == "res" for e in s.chk.ev)]
            if none:
                bad = True
                res.bad("no-result:" + who, f.file, f.line, "%s has a path on which it delivers no result" % who)
            if not bad:
                res.ok("%s: one result on each of %d paths" % (who, len(rs)))
    res.need(n, "visit functions of rewriting passes", 100)
    res.count("visit functions of rewriting passes", n)


def peel(a):
    while True:
        if a["k"] == "cast":
            a = a["e"]
        elif a["k"] == "ctor" and len(a["args"]) == 1 and (a.get("copy") or a.get("move")):
            a = a["args"][0]
        elif a["k"] == "call" and a.get("fn", "").startswith("std::move") and len(a["args"]) == 1:
            a = a["args"][0]
        else:
            return a


def places(res, prog, nodes):
    it = ShapeInterp(prog, nodes)
    n = 0
    for f in prog.functions:
        if f.dep or not f.body:
            continue
        for x in walk(f.body):
            if x["k"] != "call" or not x.get("sm") or not x.get("fn", "").split("::")[-1].startswith("make"):
                continue
            q = strip(x.get("rec") or "")
            if q not in nodes.classes or not any("stmt_node_type" in b for b in prog.bases_closure(q)):
                continue
            m = it.make_map(x.get("fid"))
            for fl, i in sorted((m or {}).items()):
                if i is None or i >= len(x["args"]) or fl == "sym":
                    continue
                a = peel(x["args"][i])
                if a["k"] == "mem" and a.get("q", "").rsplit("::", 1)[0] == q:
                    n += 1
                    if a["n"] != fl:
                        res.bad("place:%s:%s:%s" % (f.q, short(q), fl), f.file, x.get("l", f.line), "%s puts the %s of a %s in the %s of a new one" % (f.q, a["n"], short(q), fl))
                    else:
                        res.ok("%s:%s %s keeps %s" % (f.file, x.get("l"), short(q), fl))
    res.need(n, "copied fields of statements", 60)
    res.count("copied fields of statements", n)
