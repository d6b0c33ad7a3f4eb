from sa.deps import DepsInterp
from sa.shape import TooBig
from sa.program import walk, AnalysisBroken, AnchorMissing
from .shapecommon import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive traversal analysis over the type-checked syntax tree: for every kind of IR node, which child "
               "expressions and statements the default traversals reach, which symbols the dependency finder looks up and "
               "which uses it marks, and which declarations shadow what while it looks inside their scope, on every path.")

BASES = ("slinky::recursive_node_visitor",)
SRC = frozenset(("buffer_bounds", "buffer_dims"))
MARKS = {
    ("call_stmt", "inputs[]"): ("var", "buffer_input", "buffer_dims"),
    ("call_stmt", "outputs[]"): ("var", "buffer_output", "buffer_bounds", "buffer_dims"),
    ("copy_stmt", "src"): ("var", "buffer_src", "buffer_dims"),
    ("copy_stmt", "pad"): ("var", "buffer_src", "buffer_dims"),
    ("copy_stmt", "dst"): ("var", "buffer_dst", "buffer_bounds", "buffer_dims"),
    ("clone_buffer", "src"): (),
    ("crop_buffer", "src"): SRC, ("crop_dim", "src"): SRC, ("slice_buffer", "src"): SRC, ("slice_dim", "src"): SRC, ("transpose", "src"): SRC,
}
FIELD = {
    "none": ("var",), "rank": ("var",), "elem_size": ("var",), "size_bytes": ("var",),
    "min": ("buffer_bounds", "buffer_dims"), "max": ("buffer_bounds", "buffer_dims"),
    "stride": ("buffer_dims",), "fold_factor": ("buffer_dims",),
}
# What declares a symbol, and the parts of the node in its scope.
SCOPES = {
    "let": (("lets[].first", ("body",)),), "let_stmt": (("lets[].first", ("body",)),),
    "copy_stmt": (("dst_x[]", ("src_x[]",)),),
}
DECL = ("loop", "allocate", "make_buffer", "constant_buffer", "clone_buffer", "crop_buffer", "crop_dim", "slice_buffer", "slice_dim", "transpose")
EFFECTS = ("none", "semaphore_init", "semaphore_signal", "semaphore_wait", "wait_for", "trace_begin", "trace_end", "free")
PURE = ("abs", "negative_infinity", "positive_infinity", "indeterminate", "and_then", "or_else", "buffer_at", "validate_buffer")


def name(p):
    return ".".join(p).replace(".[]", "[]")


def check(res, tier):
    prog, nodes = program()
    res.rule("traverse", "a default traversal reaches every child expression and statement of every kind of node on every path, unless the child is undefined")
    res.rule("lookup", "the dependency finder looks up every symbol a node uses, before the node's own declaration hides it")
    res.rule("mark", "a found dependency is marked with every kind of use the node makes of it, and no mark is taken back")
    res.rule("scope", "what is in the scope of a declaration is searched with that declaration in front, standing for the same buffer if it aliases one, and the declaration is gone afterwards")
    res.rule("innermost", "a lookup takes the innermost declaration of a symbol")
    res.rule("effects", "a call with an effect is reported, and other calls are searched for one")
    traversals(res, prog, nodes)
    deps(res, prog, nodes)
    effects(res, prog, nodes)
    res.assumptions.append("a child that is passed on to accept() or visit() is handled (induction over the tree; every kind of node is the step)")


def traverse(res, prog, nodes, f, q, cats=("expr", "stmt"), allowed=None, it=None, tag=""):
    it = it or ShapeInterp(prog, nodes)
    try:
        rs = it.start(f, q)
    except TooBig:
        res.note("%s: %s is too large to follow" % (f.file, f.q))
        return None, []
    for sl in nodes.slots(q):
        if sl.cat not in cats:
            continue
        bad = [s for s, v in rs if not it.covered(s, sl) and not (allowed and allowed(it, s, sl))]
        key = "%s%s:%s" % (tag, short(q), sl.name)
        if bad:
            res.bad("miss:" + key, f.file, f.line, "%s does not look at %s of a %s on a path%s" % (cls(f), sl.name, short(q), facts(bad[0])))
        else:
            res.ok("%s reaches %s.%s on %d paths" % (cls(f), short(q), sl.name, len(rs)))
        sh = [s for s, v in rs if any(e[0] == "short" and sl.path[:len(e[1])] == e[1] for e in s.chk.ev)]
        if sh:
            res.bad("short:" + key, f.file, f.line, "%s stops before the last element of %s of a %s" % (cls(f), sl.name, short(q)))
        if "[]" in sl.path and rs:
            ats = {e[2] for s, v in rs for e in s.chk.ev if e[0] == "at" and e[1] == sl.path and not isinstance(e[2], tuple)}
            first = {0, "*"} | ({1} if short(q) == "call" else set())
            if ats and not (ats & first) and ats != {"i"}:
                res.bad("first:" + key, f.file, f.line, "%s skips the first element of %s of a %s" % (cls(f), sl.name, short(q)))
    return it, rs


def cls(f):
    return f.recq.split("::")[-1] + "::" + f.n


def facts(s):
    return ""


def traversals(res, prog, nodes):
    n = 0
    for b in BASES:
        if b not in prog.records:
            raise AnchorMissing(b + " not found")
        for f, q in visits(prog, nodes, b):
            traverse(res, prog, nodes, f, q, tag=short(b) + ":")
            n += 1
    res.need(n, "functions of the default traversals", 30)
    res.count("traversal functions", n)


def enum(prog, q):
    return {v: k for k, v in prog.enums[q]["vals"]} if q in prog.enums else {}


def possible(it, s, term, values):
    """The enumerators a term may have on this path."""
    out = []
    for c in values:
        if it.decide(s, ("==", term, ("c", c))) is not False:
            out.append(c)
    return out


def field_term(it, s, name):
    return ("init", ("fld", ("deref", ("init", ("var", it.opd, ("root",)))), name))


def deps(res, prog, nodes):
    rt = "slinky::depends_on_result"
    recs = [q for q in prog.records if "slinky::recursive_node_visitor" in prog.bases_closure(q)
            and any(fd["t"].startswith("std::vector<std::pair<slinky::var") and (rt + " *") in fd["t"] for _, fd in prog.all_fields(q))]
    if not recs:
        res.note("no dependency finder with a list of (symbol, result) pairs found")
        return
    for rec in recs:
        lst = [fd["n"] for _, fd in prog.all_fields(rec) if fd["t"].startswith("std::vector<std::pair<slinky::var")][0]
        mine = visits(prog, nodes, rec)
        have = {q for f, q in mine}
        lookups = [f for f in prog.functions if f.recq == rec and not f.dep and f.body and len(f.params) == 1 and strip(f.params[0]["t"]) == "slinky::var" and lst in mentions_fields(f)]
        if not lookups:
            res.note("%s: no lookup functions found" % rec)
        for f in lookups:
            innermost(res, f, lst)
        for q in nodes.classes:
            uses = [sl for sl in nodes.slots(q) if sl.cat == "var" and sl.name not in ("sym", "lets[].first", "dst_x[]")]
            if (uses or short(q) in DECL or short(q) in SCOPES) and q not in have:
                if short(q) != "async":
                    res.bad("nodep:" + short(q), "slinky/runtime/depends_on.cc", 0, "%s does not look at the symbols of a %s" % (rec.split("::")[-1], short(q)))
        n = 0
        for f, q in mine:
            n += 1
            dep_one(res, prog, nodes, rec, lst, rt, f, q)
        res.need(n, "functions of the dependency finder", 10)
        res.count("dependency functions", n)


def mentions_fields(f):
    return {x.get("n") for x in walk(f.body) if x["k"] == "mem"}


def innermost(res, f, lst):
    calls = [x.get("fn", "").split("::")[-1] for x in walk(f.body) if x["k"] == "call"]
    loops = [x for x in walk(f.body) if x["k"] in ("for", "rfor", "while")]
    rets = [x for l in loops for x in walk(l) if x["k"] == "return"]
    where = "%s:%d" % (f.file, f.line)
    if any(c in ("rbegin", "crbegin") for c in calls):
        res.ok("%s %s searches from the innermost declaration" % (where, f.n))
        return
    if any(l["k"] == "rfor" for l in loops) and rets:
        res.bad("outer:" + f.n, f.file, f.line, "%s returns the outermost declaration of a symbol, not the innermost" % f.n)
        return
    if any(c in ("begin", "cbegin") for c in calls) and (rets or "find_if" in calls):
        res.bad("outer:" + f.n, f.file, f.line, "%s returns the outermost declaration of a symbol, not the innermost" % f.n)
        return
    ups = [l for l in loops if l["k"] == "for" and l.get("inc") and any(x["k"] == "un" and x["op"] == "++" for x in walk(l["inc"]))]
    if ups and rets:
        res.bad("outer:" + f.n, f.file, f.line, "%s returns the outermost declaration of a symbol, not the innermost" % f.n)
        return
    downs = [l for l in loops if any(x["k"] == "un" and x["op"] == "--" for x in walk(l))]
    if downs:
        res.ok("%s %s searches from the innermost declaration" % (where, f.n))
    else:
        res.note("%s %s: order of the search not recognised" % (where, f.n))


def dep_one(res, prog, nodes, rec, lst, rt, f, q):
    sq = short(q)
    it0 = DepsInterp(prog, nodes, rec, lst, rt)

    def early(it, s, sl):
        """The only symbol searched for is hidden by this declaration."""
        if sl.path != ("body",):
            return False
        hid = any(e[0] == "need+" for e in s.chk.ev)
        one = any(k[0] == "==" and k[1][0] == "stacksz" and k[2] == ("c", 1) and v for k, v in s.facts.items())
        unk = any(v is False and k[0] == "init" and k[1][0] == "fld" and "unknown" in k[1][2] for k, v in s.facts.items())
        return hid and one and unk

    if sq == "call":
        it, rs = None, None
        it = it0
        rs = it.start(f, q)
        intr = enum(prog, "slinky::intrinsic")
        term = field_term(it, None, "intrinsic")
        at = [c for c, nm in intr.items() if nm == "buffer_at"]
        for s, v in rs:
            poss = possible(it, s, term, intr)
            sl = [x for x in nodes.slots(q) if x.path[0] == "args"][0]
            if not it.covered(s, sl) and not any(e[0] == "visit" and e[1][0] == "args" for e in s.chk.ev):
                # Only the first argument, the buffer, may be left out.
                none = any(k[0] == "<" and k[2][0] == "size" and v is False for k, v in s.facts.items())
                und = any(e[0] == "undef" and e[1][0] == "args" for e in s.chk.ev)
                if not none and not und:
                    res.bad("miss:deps:call:args[]", f.file, f.line, "%s does not look at the arguments of a call on a path" % cls(f))
            if any(e[0] == "short" for e in s.chk.ev):
                res.bad("short:deps:call:args[]", f.file, f.line, "%s stops before the last argument of a call" % cls(f))
            if any(c in at for c in poss) and len(poss) == 1:
                dn = [k for k, v in s.facts.items() if k[0] == "dep" and v]
                fl = {e[2] for e in s.chk.ev if e[0] == "flag"}
                for k in dn:
                    for m in ("buffer_base", "buffer_dims", "buffer_bounds"):
                        if m not in fl:
                            res.bad("mark:call:buffer_at:" + m, f.file, f.line, "%s does not mark the buffer of a buffer_at as used for its %s" % (cls(f), m))
                if not any(e[0] == "impure" for e in s.chk.ev):
                    if not any(k[0] == "init" and k[1][0] == "fld" and k[1][2] == "is_pure" and v is False for k, v in s.facts.items()):
                        res.bad("pure:call", f.file, f.line, "%s keeps a buffer_at pure" % cls(f))
        if not any(e[0] == "look" for s, v in rs for e in s.chk.ev):
            res.bad("look:call:args[0]", f.file, f.line, "%s does not look up the buffer of a buffer_at" % cls(f))
        ats = {e[2] for s, v in rs for e in s.chk.ev if e[0] == "at" and e[1] == ("args", "[]")}
        if ats and not ({0, 1, "*"} & ats):
            res.bad("first:call:args[]", f.file, f.line, "%s skips the first index of a buffer_at" % cls(f))
        res.ok("%s: call: %d paths" % (cls(f), len(rs)))
        return
    it, rs = traverse(res, prog, nodes, f, q, allowed=early, it=it0, tag="deps:")
    if it is None:
        return
    # lookups
    for sl in nodes.slots(q):
        if sl.cat != "var" or sl.name in ("sym", "lets[].first", "dst_x[]") and sq != "variable":
            continue
        miss = [s for s, v in rs if not any(e[0] == "look" and e[1] == sl.path for e in s.chk.ev)
                and not any(e[0] in ("undef", "empty") and sl.path[:len(e[1])] == e[1] for e in s.chk.ev)]
        if miss:
            res.bad("look:%s:%s" % (sq, sl.name), f.file, f.line, "%s does not look up the symbol %s of a %s on a path" % (cls(f), sl.name, sq))
        else:
            res.ok("%s looks up %s of %s" % (cls(f), sl.name, sq))
        hidden = [s for s, v in rs if any(e[0] == "look" and e[1] == sl.path and e[2] for e in s.chk.ev)]
        if hidden:
            res.bad("late:%s:%s" % (sq, sl.name), f.file, f.line, "%s looks up %s of a %s behind the declaration it makes" % (cls(f), sl.name, sq))
        for s, v in rs:
            dn = [v2 for k, v2 in s.facts.items() if k[0] == "dep" and it.plain(k[1]) == sl.path]
            if not any(dn) and not any(e[0] == "flag" and e[1] == sl.path for e in s.chk.ev):
                continue
            fl = {e[2] for e in s.chk.ev if e[0] == "flag" and e[1] == sl.path}
            if sq == "variable":
                vals = enum(prog, "slinky::buffer_field")
                need = set()
                poss = possible(it, s, field_term(it, s, "field"), vals)
                known = [c for c in poss]
                if len(known) == len(vals):
                    continue
                for c in known:
                    need |= set(FIELD.get(vals[c], ()))
                if len(known) > 1:
                    # None of the named cases: only what all of them need is certain.
                    sets = [set(FIELD.get(vals[c], ())) for c in known]
                    need = set.union(*sets)
                miss = need - fl
                for m in sorted(miss):
                    res.bad("mark:variable:%s:%s" % (",".join(sorted(vals[c] for c in known)), m), f.file, f.line, "%s does not mark %s for a variable that reads field %s" % (cls(f), m, "/".join(vals[c] for c in known)))
                continue
            need = set(MARKS.get((sq, sl.name), ()))
            if (sq, sl.name) == ("copy_stmt", "src"):
                if s.facts.get(("def", ("pad",))) is not False:
                    need.add("buffer_bounds")
            for m in sorted(need - fl):
                res.bad("mark:%s:%s:%s" % (sq, sl.name, m), f.file, f.line, "%s does not mark %s for %s of a %s" % (cls(f), m, sl.name, sq))
        for s, v in rs:
            for e in s.chk.ev:
                if e[0] == "clear" and e[1] == sl.path:
                    res.bad("clear:%s:%s" % (sq, sl.name), f.file, f.line, "%s takes back %s for %s of a %s" % (cls(f), e[2], sl.name, sq))
    if sq == "variable":
        term = field_term(it, None, "field")
        for s, v in rs:
            vals = enum(prog, "slinky::buffer_field")
            poss = possible(it, s, term, vals)
            none = [c for c in poss if vals[c] == "none"]
            was = [v2 for k, v2 in s.facts.items() if k[0] == "init" and k[1][0] == "fld" and k[1][2] == "is_pure"]
            if not none and False not in was and not any(e[0] == "impure" for e in s.chk.ev):
                res.bad("pure:variable", f.file, f.line, "%s keeps the read of a buffer's field pure" % cls(f))
    # scopes
    for decl, scope in SCOPES.get(sq, ((("sym", ("body",)),) if sq in DECL else ())):
        n = 0
        for s, v in rs:
            for e in s.chk.ev:
                if e[0] != "at-stack" or name(e[1]) not in scope:
                    continue
                n += 1
                st = e[2]
                lst = decl.split("[]")[0]
                if decl != "sym" and any(x[0] == "short" and x[1] == (lst,) for x in s.chk.ev):
                    res.bad("scope-short:%s:%s" % (sq, decl), f.file, f.line, "%s looks at %s of a %s although it stopped declaring %s before the last" % (cls(f), name(e[1]), sq, decl))
                    continue
                ent = [x for x in st if name_of(x) == decl]
                if any(x[0][0] == "?" for x in st):
                    res.note("%s: a declaration that was not understood" % cls(f))
                    continue
                if same_sym(s) or decl == "dst_x[]" and no_elements(it, s, ("dst_x",)):
                    continue
                k = aliased(it, s, sq) if decl == "sym" else None
                if k is not None:
                    if not st or st[-1] != (("sym",), ("dep", ("src",))):
                        res.bad("alias:" + sq, f.file, f.line, "%s looks at %s of a %s on a path where %s does not stand for %s" % (cls(f), name(e[1]), sq, decl, "src"))
                    continue
                wrong = [x for x in st if x[1][0] == "dep" and x != (("sym",), ("dep", ("src",)))]
                if wrong:
                    res.bad("wrong:" + sq, f.file, f.line, "%s lets %s stand for the wrong buffer in a %s" % (cls(f), name_of(wrong[0]), sq))
                if not ent and any(e2[0] == "need+" and name(e2[1]) == decl for e2 in s.chk.ev) or not ent and not any(e2[0] in ("need+", "need-", "empty") for e2 in s.chk.ev):
                    res.bad("shadow:%s:%s" % (sq, decl), f.file, f.line, "%s looks at %s of a %s without hiding what %s declares" % (cls(f), name(e[1]), sq, decl))
        if n:
            res.ok("%s: %s of %s in scope of %s (%d path visits)" % (cls(f), "/".join(scope), sq, decl, n))
    # what is evaluated outside the scope
    outside = [sl for sl in nodes.slots(q) if sl.cat in ("expr", "stmt") and not any(sl.name in sc for d, sc in SCOPES.get(sq, ((("sym", ("body",)),) if sq in DECL else ())))]
    for s, v in rs:
        for e in s.chk.ev:
            if e[0] == "at-stack" and any(sl.path == e[1] for sl in outside) and e[2] and sq not in ("let", "let_stmt"):
                res.bad("early:%s:%s" % (sq, name(e[1])), f.file, f.line, "%s looks at %s of a %s as if it were in the scope of what the node declares" % (cls(f), name(e[1]), sq))
        if it.stack(s):
            res.bad("left:" + sq, f.file, f.line, "%s leaves a declaration behind after a %s" % (cls(f), sq))
    if any(e[0] == "own-scope" for s, v in rs for e in s.chk.ev):
        res.bad("early:%s:lets" % sq, f.file, f.line, "%s looks at the value of a let as if it could use its own symbol" % cls(f))


def name_of(x):
    return name(x[0]) if x[0] and x[0][0] != "?" else "?"


def no_elements(it, s, p):
    """Does the path leave the loop over the elements at p at once?"""
    for k, v in s.facts.items():
        if k[0] == "<" and k[1] == ("c", 0) and v is False and repr(k[2]).find("'%s'" % p[-1]) >= 0:
            return True
    return False


def same_sym(s):
    return any(e[0] == "symsame" for e in s.chk.ev)


def aliased(it, s, sq):
    """Is it known on this path that the source is being searched for?"""
    key = [(k, v) for k, v in s.facts.items() if k[0] == "dep" and it.plain(k[1]) == ("src",)]
    if not any(v for k, v in key):
        return None
    for k, v in s.facts.items():
        # The source is hidden: its result is the dummy.
        if k[0] == "==" and v and any(x[0] == "dep" for x in k[1:]):
            return None
    return key[0]


def effects(res, prog, nodes):
    recs = [q for q in prog.records if "slinky::recursive_node_visitor" in prog.bases_closure(q) and any(fd["n"] == "has_side_effects" for _, fd in prog.all_fields(q))]
    if not recs:
        res.note("no side effect checker found")
        return
    intr = enum(prog, "slinky::intrinsic")
    for rec in recs:
        for f, q in visits(prog, nodes, rec):
            if short(q) != "call":
                traverse(res, prog, nodes, f, q, tag="effects:")
                continue
            it = DepsInterp(prog, nodes, rec, "#none", "#none")
            it.MAX_STATES = 400
            rs = it.start(f, q)
            term = field_term(it, None, "intrinsic")
            sl = [x for x in nodes.slots(q) if x.path[0] == "args"][0]
            for s, v in rs:
                set_ = any(e[0] == "effect" for e in s.chk.ev)
                cov = it.covered(s, sl)
                for c in possible(it, s, term, intr):
                    nm = intr[c]
                    if nm in EFFECTS and not set_:
                        res.bad("effect:" + nm, f.file, f.line, "a call of %s is not reported as having a side effect" % nm)
                    elif nm not in EFFECTS and not set_ and not cov:
                        res.bad("effect-args:" + nm, f.file, f.line, "the arguments of a call of %s are not searched for side effects" % nm)
                    elif nm not in EFFECTS and nm not in PURE:
                        res.note("intrinsic %s is not classified" % nm)
            res.ok("%s: %d paths over %d intrinsics" % (cls(f), len(rs), len(intr)))
