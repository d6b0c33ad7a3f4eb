from sa.program import Program, AnalysisBroken
from sa.ir import Nodes, short, strip, Chk
from sa.shape import ShapeInterp, MakeInterp, BUILT

_cache = {}


def program():
    if "p" not in _cache:
        p = Program()
        _cache["p"] = (p, Nodes(p))
    return _cache["p"]


def visits(prog, nodes, recq=None):
    """visit(const X*) functions: [(function, node class)]."""
    out = []
    for f in prog.functions:
        if f.n != "visit" or f.dep or not f.body or len(f.params) != 1:
            continue
        q = nodes.node_of_param(f.params[0]["t"])
        if q and (recq is None or f.recq == recq):
            out.append((f, q))
    return out


def derived(prog, base):
    return [q for q in prog.records if base in prog.bases_closure(q) and q != base]
