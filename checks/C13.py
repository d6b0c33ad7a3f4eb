from sa.matching import MatchInterp, LeafCheck
from sa.shape import TooBig
from sa.program import walk, AnalysisBroken, AnchorMissing
from .shapecommon import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive comparison analysis: the class that match and compare use is found from those functions; for every kind of "
               "node, each path on which it finds no difference must have compared every declared field with the same field of the other node.")
EXCLUDED = ("attrs",)


def check(res, tier):
    prog, nodes = program()
    res.rule("all-fields", "two nodes match only if every field was compared with the same field of the other node (attributes and the identity of a function are not part of a node's structure)")
    res.rule("same-field", "a field is only ever compared with the same field, at the same index, of the other node")
    res.rule("elements", "lists match only if their lengths were compared and no element was left out")
    res.rule("leaves", "two scalars match only if neither is less than the other, two nodes only if they are one or have the same type and are compared further; the two orders give opposite results")
    recs = set()
    for f in prog.functions:
        if f.q in ("slinky::match", "slinky::compare") and f.body and not f.dep:
            for n in walk(f.body):
                if n["k"] == "call" and isinstance(n.get("rec"), str):
                    r = strip(n["rec"])
                    if r in prog.records and any(b.endswith("expr_visitor") for b in prog.bases_closure(r)):
                        recs.add(r)
    if not recs:
        raise AnchorMissing("the class that compares trees was not found")
    for rec in sorted(recs):
        ints = [fd["n"] for _, fd in prog.all_fields(rec) if fd["t"] in ("int", "bool")]
        field = ints[0] if len(ints) == 1 else "match"
        mine = visits(prog, nodes, rec)
        have = {q for f, q in mine}
        for q in nodes.classes:
            if q not in have:
                res.bad("none:" + short(q), "slinky/builder/substitute.cc", 0, "%s does not compare nodes of kind %s" % (short(rec), short(q)))
        n = 0
        for f, q in mine:
            n += 1
            one(res, prog, nodes, rec, field, f, q)
        res.need(n, "comparison functions", 30)
        res.count("comparison functions", n)
        LeafCheck(res, prog, nodes, rec, field).run()


def one(res, prog, nodes, rec, field, f, q):
    it = MatchInterp(prog, nodes, rec, field)
    sq = short(q)
    try:
        rs = it.start(f, q)
    except TooBig:
        res.note("%s:%d comparison of %s is too large to follow" % (f.file, f.line, sq))
        return
    ok = []
    for s, v in rs:
        ev = s.chk.ev
        for e in ev:
            if e[0] == "self-cmp":
                res.bad("self:%s:%s" % (sq, ".".join(e[1])), f.file, f.line, "%s of a %s is compared with itself, not with that of the other node" % (".".join(e[1]), sq))
            elif e[0] == "cross":
                res.bad("cross:%s:%s" % (sq, ".".join(e[1])), f.file, f.line, "%s of a %s is compared with %s" % (".".join(e[1]), sq, ".".join(e[2])))
        if ("diff",) in ev:
            continue
        if any(k[0] == "init" and k[1][0] == "fld" and k[1][2].lstrip("#") == field and v2 for k, v2 in s.facts.items()):
            continue
        ok.append(s)
    if not ok:
        res.note("%s:%d no path on which two %s match" % (f.file, f.line, sq))
        return
    for sl in nodes.slots(q):
        if sl.path[0] in EXCLUDED:
            continue
        bad, unk = [], 0
        for s in ok:
            r = covered(it, s, sl.path)
            fs = [fd["n"] for _, fd in prog.all_fields(strip(sl.t))] if strip(sl.t) in prog.records else []
            if r is False and fs and sl.cat == "var":
                r = all(covered(it, s, sl.path + (x,)) for x in fs)
            if r is False:
                if ("unk",) in s.chk.ev:
                    unk += 1
                else:
                    bad.append(s)
        if bad:
            res.bad("miss:%s:%s" % (sq, sl.name), f.file, f.line, "two %s nodes can match without %s being compared" % (sq, sl.name))
        elif unk:
            res.note("%s:%d a comparison in %s was not understood; %s not decided" % (f.file, f.line, sq, sl.name))
        else:
            res.ok("%s: %s compared on all %d matching paths" % (sq, sl.name, len(ok)))
        short_ = [s for s in ok if any(e[0] == "short" and strip_self(e[1]) == sl.path[:len(strip_self(e[1]))] for e in s.chk.ev)]
        if short_:
            res.bad("short:%s:%s" % (sq, sl.name), f.file, f.line, "the comparison of %s of a %s stops before the last element" % (sl.name, sq))


def strip_self(p):
    return tuple(x for x in p if x != "<self>")


def covered(it, s, p):
    ev = s.chk.ev
    if ("cmp", ()) in ev:
        return True
    cmps = {e[1] for e in ev if e[0] == "cmp"}
    for c in cmps:
        if c == p[:len(c)]:
            return True
    if p + ("<data>",) in cmps:
        return True
    if p + ("<truth>",) in cmps:
        # Only whether there is a function: enough if there is none on one side.
        return any(k[0] == "truthv" and v is False and strip_self(it.plain(k[1])) == p for k, v in s.facts.items())
    for e in ev:
        if e[0] == "same2" and e[1] and p in e[2:]:
            o = [x for x in e[2:] if x != p]
            if o and ("same2", False) + e[2:] in ev and o[0] in cmps:
                return True
        if e[0] == "empty" and p[:len(strip_self(e[1]))] == strip_self(e[1]):
            # Both are empty if the lengths are the same.
            return any(c[-1] == "<size>" for c in cmps)
    return False
