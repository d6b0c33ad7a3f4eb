"""Where arithmetic that overflows can go.

The functions that compute sizes and strides, and those that fold constants, are interpreted with every operation that
detects an overflow taken both ways. On the way where it overflows, the function has to end in failure; on every way, sums,
differences and products of run-time values have to be made by an operation that detects overflow, or after one that found
the same operands harmless.
"""
from .flow import Interp, C, TRUE, FALSE, mentions
from .program import walk, show

OPS = {"add": "+", "sub": "-", "mul": "*"}
COMM = ("+", "*")
MIN = -2 ** 63
FAIL = ("nothing",)
POISON = ("poison",)


def last(q):
    """The last component of a qualified name, without template arguments."""
    d, out = 0, ""
    for i, c in enumerate(q):
        if c == "<" and not out.endswith("operator"):
            d += 1
        elif c == ">" and d:
            d -= 1
        elif d == 0:
            out += c
    return out.split("::")[-1]


def key(op, a, b):
    if op in COMM and repr(a) > repr(b):
        a, b = b, a
    return (op, a, b)


class Overflow(Interp):
    MAX_STATES = 10
    INLINE_NODES = 900

    def __init__(self, prog, raw=True, oks=False, exempt=()):
        super().__init__(prog)
        self.raw, self.oks, self.exempt = raw, oks, exempt
        self.checked = set()
        self.rawops = set()
        self.bad = []

    # chk: (whether an operation overflowed, whether a branch depended on its result, operations that did not overflow)
    def start(self):
        from .flow import State
        return State(chk=(False, False, frozenset()))

    def event(self, s, n):
        s = s.copy()
        if not s.chk[0]:
            f = next((fr[0] for fr in reversed(self.frames) if hasattr(fr[0], "file")), None)
            s.chk = (True,) + s.chk[1:]
            s.trace = (getattr(f, "file", "?"), n.get("l", 0), show(n)[:100])
        return s

    def poisoned(self, v):
        if not isinstance(v, tuple):
            return False
        return v == POISON or any(self.poisoned(x) for x in v if isinstance(x, tuple))

    def binop(self, op, a, b):
        if self.poisoned(a) or self.poisoned(b):
            return (op, a, b) if op in self.CMP else POISON
        return super().binop(op, a, b)

    def cast(self, n, v):
        return POISON if self.poisoned(v) and v[0] not in ("agg",) else v

    def assume(self, s, v):
        if self.poisoned(v):
            # The branch depends on a result that overflowed.
            t, f = s.copy(), s.copy()
            t.chk = (t.chk[0], True, t.chk[2])
            f.chk = t.chk
            return [t], [f]
        return super().assume(s, v)

    def join(self, g):
        r = super().join(g)
        for k, v in r.store.items():
            if v != ("phi", k) or len(g) == 1:
                continue
            vals = [s.store.get(k, ("init", k)) for s in g]
            if v in vals:
                continue
            self.kill_facts(r, v)
            if any(self.poisoned(x) for x in vals):
                r.store[k] = POISON
            elif k[0] == "var" and all(self.decide(s, ("==", x, C(MIN))) is False for s, x in zip(g, vals)):
                r.facts[("==", v, C(MIN))] = False
        return r

    def good(self, s, k):
        if not self.oks:
            return s.copy()
        s = s.copy()
        s.chk = s.chk[:2] + (s.chk[2] | {k},)
        return s

    def val(self, s, a):
        return self.read_loc(s, a) if self.is_loc(a) else a

    def opof(self, n):
        """(operation, has a result argument) if a call detects overflow."""
        name = n.get("fn", "").split("<")[0].split("::")[-1] or n.get("name", "")
        if name.startswith("__builtin_") and name.endswith("_overflow"):
            for o in OPS:
                if "_%s_" % o in name or "_s%s" % o in name or "_u%s" % o in name:
                    return OPS[o], True, name
        for suf, res in (("_with_overflow", True), ("_overflows", False)):
            if name.endswith(suf) and name[:-len(suf)] in OPS:
                return OPS[name[:-len(suf)]], res, name
        if name == "binary_overflows":
            return "T", False, name
        return None

    def hook_call(self, st, n, fn, obj, args, frame):
        o = self.opof(n)
        if o:
            op, has_res, name = o
            self.checked.add((n.get("fid"), n.get("l"), n["id"]))
            a, b = self.val(st, args[0]), self.val(st, args[1])
            res = None
            if has_res:
                res = args[2]
                if res[0] == "addr":
                    res = res[1]
                res = self.resolve_loc(st, res) if self.is_loc(res) else None
            out = []
            k = key(op, a, b)
            if any(x[0] == "signed" and self.decide(st, ("<", x, C(0))) for x in (a, b)):
                a = POISON
            ev = self.event(st, n)
            g = self.good(st, k)
            if res is not None:
                ev = self.write(ev, res, POISON, n, frame)
                g = self.write(g, res, self.checked_value(op, a, b), n, frame)
            else:
                # Asking whether it would overflow is harmless; the question's answer rules the operation out.
                ev = st.copy()
                ev.chk = ev.chk[:2] + (ev.chk[2] | {("no", k)},) if self.oks else ev.chk
            if has_res and st.chk[0]:
                return [(g, FALSE)]
            return [(ev, TRUE), (g, FALSE)]
        q = n.get("fn", "")
        base = last(q)
        if base == "abs" and args:
            v = self.val(st, args[0])
            if v[0] == "c":
                return [(st, C(abs(v[1])))]
            if self.raw and self.decide(st, ("==", v, C(MIN))) is not False:
                self.raw_bad(n, "abs of a value that may be the most negative one", st)
            return [(st, ("abs", v))]
        if q.startswith("std::min") or q.startswith("std::max"):
            a, b = self.val(st, args[0]), self.val(st, args[1])
            if a[0] == "c" and b[0] == "c":
                return [(st, C((min if base == "min" else max)(a[1], b[1])))]
            if self.poisoned(a) or self.poisoned(b):
                return [(st, POISON)]
            return [(st, ("pcall", base, None, (a, b)))]
        if q.startswith("std::numeric_limits<long>::"):
            if q.endswith(("::min", "::lowest")):
                return [(st, C(MIN))]
            if q.endswith("::max"):
                return [(st, C(-MIN - 1))]
        if q.startswith("std::optional") and obj is not None:
            v = self.val(st, obj)
            if base in ("operator bool", "has_value"):
                if v == FAIL:
                    return [(st, FALSE)]
                if v[0] == "some":
                    return [(st, TRUE)]
                return [(st, ("has", v))]
            if base == "value_or" and v[0] == "some":
                return [(st, v[1])]
            if v == FAIL and base not in ("operator=", "reset", "emplace", "optional"):
                # The value of a failed computation.
                return [(st, POISON)]
            if n.get("op") == "*" or base in ("operator*", "value"):
                if v[0] == "some":
                    return [(st, v[1])]
                return [(st, ("value", v))]
        m = self.model(st, n, fn, obj, args, frame)
        if m is not None:
            return m
        return None

    def model(self, st, n, fn, obj, args, frame):
        return None

    def opaque(self, s, n, f, obj, args, frame):
        out = super().opaque(s, n, f, obj, args, frame)
        pv = [self.val(s, a) for a in args] + ([self.val(s, obj)] if obj is not None else [])
        if any(self.poisoned(v) for v in pv) and n.get("t") != "void" and n.get("op") != "=":
            return [(x, POISON) for x, v in out]
        return out

    def checked_value(self, op, a, b):
        if a[0] == "c" and b[0] == "c" or self.poisoned(a) or self.poisoned(b):
            return self.binop(op, a, b)
        d = self.term_depth(a) + self.term_depth(b)
        if d > 14:
            return ("result", op)
        return ("result", op, a, b)

    def hook_construct(self, st, n, args, frame):
        if n.get("fn", "").startswith("std::optional"):
            if not args:
                return [(st, FAIL)]
            v = self.val(st, args[0])
            if v == FAIL:
                return [(st, FAIL)]
            if n.get("copy") or n.get("move"):
                return None
            return [(st, ("some", v))]
        if "nullopt" in n.get("fn", ""):
            return [(st, FAIL)]
        return None

    def e_ref(self, n, s, frame, lv):
        if n.get("q") == "std::nullopt" or n.get("n") == "nullopt":
            return [(s, FAIL)]
        return super().e_ref(n, s, frame, lv)

    # ---- raw arithmetic -----------------------------------------------------------------------------------------
    def raw_bad(self, n, msg, s):
        f = next((fr[0] for fr in reversed(self.frames) if hasattr(fr[0], "file")), None)
        self.bad.append((getattr(f, "file", "?"), n.get("l", 0), getattr(f, "q", "?"), msg))

    def judged_here(self):
        f = self.frames[-1][0]
        q = getattr(f, "q", "")
        return not any(q.startswith(x) for x in self.exempt)

    WIDE = {"long": True, "unsigned long": False, "long long": True, "unsigned long long": False}

    def data(self, v):
        """Whether a value depends on the shape of a buffer."""
        if not isinstance(v, tuple):
            return False
        if v[0] == "fld" and v[2] in ("min_", "max_", "stride_", "fold_factor_", "elem_size"):
            return True
        if v[0] in ("result", "poison", "abs", "some"):
            return True
        return any(self.data(x) for x in v[1:] if isinstance(x, tuple))

    def ptr(self, n):
        t = str(n.get("t", "")) if isinstance(n, dict) else ""
        return t.rstrip().endswith(("*", "*const")) or t.rstrip().endswith("]")

    def arith(self, op, a, b, n, L, R, s):
        if not self.raw or op not in ("+", "-", "*", "<<") or not self.judged_here():
            return
        if a[0] == "c" and b[0] == "c":
            return
        t = str(n.get("t", "")).replace("const ", "").replace("&", "").strip()
        if t not in self.WIDE or self.ptr(L) or self.ptr(R):
            return
        self.rawops.add((n.get("l"), n["id"]))
        if key(op, a, b) in s.chk[2]:
            return
        if op == "*" and (a in (C(1), C(0)) or b in (C(1), C(0))) or b == C(0) or (op == "+" and a == C(0)):
            return
        # Taking one from a root's parameter, which is asserted to be positive.
        if op == "-" and b == C(1) and a[0] == "init":
            return
        if not self.WIDE[t] and not (self.data(a) or self.data(b)):
            return
        self.raw_bad(n, "%s is computed without detecting overflow" % show(n)[:120], s)

    def e_bin(self, n, s, frame, lv):
        op = n["op"]
        base = op[:-1] if op.endswith("=") and op not in self.CMP and op != "=" else op
        if base in ("+", "-", "*", "<<"):
            out = []
            cmpd = base != op
            for s1, b0 in self.eval(n["R"], s, frame):
                for s2, a0 in self.eval(n["L"], s1, frame, lv=cmpd):
                    loc = None
                    if cmpd:
                        if not self.is_loc(a0):
                            out.append((s2, b0))
                            continue
                        loc = self.resolve_loc(s2, a0)
                        a0 = self.read_loc(s2, loc)
                    self.arith(base, a0, b0, n, n["L"], n["R"], s2)
                    v = self.binop(base, a0, b0)
                    if cmpd:
                        s3 = self.write(s2, loc, v, n, frame)
                        out.append((s3, loc if lv else v))
                    else:
                        out.append((s2, v))
            return out
        if op in ("|=",) and str(n.get("t", "")).startswith("bool"):
            out = []
            for s1, b in self.eval(n["R"], s, frame):
                for s2, a in self.eval(n["L"], s1, frame, lv=True):
                    loc = self.resolve_loc(s2, a)
                    old = self.read_loc(s2, loc)
                    ts, fs = self.assume(s2, old)
                    for x in ts:
                        out.append((self.write(x, loc, TRUE, n, frame), TRUE))
                    for x in fs:
                        t2, f2 = self.assume(x, b)
                        for y in t2:
                            out.append((self.write(y, loc, TRUE, n, frame), TRUE))
                        for y in f2:
                            out.append((self.write(y, loc, FALSE, n, frame), FALSE))
            return out
        if op in ("&=",) and str(n.get("t", "")).startswith("bool"):
            out = []
            for s1, b in self.eval(n["R"], s, frame):
                for s2, a in self.eval(n["L"], s1, frame, lv=True):
                    loc = self.resolve_loc(s2, a)
                    old = self.read_loc(s2, loc)
                    ts, fs = self.assume(s2, old)
                    for x in fs:
                        out.append((self.write(x, loc, FALSE, n, frame), FALSE))
                    for x in ts:
                        t2, f2 = self.assume(x, b)
                        for y in t2:
                            out.append((self.write(y, loc, TRUE, n, frame), TRUE))
                        for y in f2:
                            out.append((self.write(y, loc, FALSE, n, frame), FALSE))
            return out
        if op in ("|", "&") and str(n["L"].get("t", "")).replace("const ", "").startswith("bool") and \
                str(n["R"].get("t", "")).replace("const ", "").startswith("bool"):
            out = []
            for s1, a in self.eval(n["L"], s, frame):
                for s2, b in self.eval(n["R"], s1, frame):
                    ta, fa = self.assume(s2, a)
                    for x in ta:
                        if op == "|":
                            out.append((x, TRUE))
                        else:
                            t2, f2 = self.assume(x, b)
                            out += [(y, TRUE) for y in t2] + [(y, FALSE) for y in f2]
                    for x in fa:
                        if op == "&":
                            out.append((x, FALSE))
                        else:
                            t2, f2 = self.assume(x, b)
                            out += [(y, TRUE) for y in t2] + [(y, FALSE) for y in f2]
            return out
        return super().e_bin(n, s, frame, lv)

    def e_un(self, n, s, frame, lv):
        if n["op"] == "-" and self.raw and self.judged_here():
            t = str(n.get("t", "")).replace("const ", "").strip()
            if self.WIDE.get(t):
                for s1, v in self.eval(n["e"], s, frame):
                    v = self.val(s1, v)
                    if v[0] == "c":
                        continue
                    if key("-", C(0), v) in s1.chk[2] or self.decide(s1, ("==", v, C(MIN))) is False:
                        continue
                    self.raw_bad(n, "%s is computed without detecting overflow" % show(n)[:120], s1)
        return super().e_un(n, s, frame, lv)

    # ---- an unsigned size read as a signed one --------------------------------------------------------------------
    def e_cast(self, n, s, frame, lv):
        to = n["to"].replace("const ", "").strip()
        frm = str(n["e"].get("t", "")).replace("const ", "").replace("&", "").strip()
        if self.raw and self.WIDE.get(to) is True and self.WIDE.get(frm) is False:
            out = []
            for s1, v in self.eval(n["e"], s, frame, lv=False):
                v = self.val(s1, v)
                if v[0] == "c" or not self.data(v):
                    out.append((s1, v))
                    continue
                w = ("signed", v)
                t, f = self.assume(s1, ("<", w, C(0)))
                for x in t:
                    out.append((self.event(x, n), w))
                for x in f:
                    out.append((x, w))
            return out
        return super().e_cast(n, s, frame, lv)

    def keep_in_loop(self, loc, s):
        v = s.store.get(loc)
        if self.poisoned(v):
            s.store[loc] = POISON
            return True
        return loc[0] == "var" and v in (TRUE, FALSE)

    def group_key(self, s):
        # Flags are what tells a detected overflow from its absence.
        return tuple(sorted((k, v) for k, v in s.store.items() if 
                            k[0] == "var" and (v == POISON or v in (TRUE, FALSE) and k[1] in self.flags)))

    @property
    def flags(self):
        self._flags = getattr(self.prog, "_bool_locals", None)
        if self._flags is None:
            self._flags = self.prog._bool_locals = set()
            for f in self.prog.functions:
                if f.body is None or not f.file.startswith("slinky/"):
                    continue
                if "overflow" not in f.q and not f.file.startswith(("slinky/runtime/buffer", "slinky/builder/rewrite", "slinky/builder/simplify", "slinky/base")):
                    continue
                for n in walk(f.body):
                    for v in n.get("v", []) if n.get("k") == "decl" else []:
                        if v.get("t", "").replace("const ", "").replace("&", "").strip() == "bool":
                            self._flags.add(v["d"])
        return self._flags


def failing(v):
    """Whether a returned value reports failure."""
    return v in (FAIL, FALSE, ("null",)) or (v[0] == "c" and v[1] < 0)


def plain(n):
    """A template's body with its unresolved calls and operators named, as a copy."""
    if isinstance(n, list):
        return [plain(x) for x in n]
    if not isinstance(n, dict):
        return n
    n = {k: plain(v) for k, v in n.items()}
    c = n.get("callee")
    if n.get("k") == "call" and isinstance(c, dict) and c.get("k") == "dref":
        op, a = n.get("op"), n.get("args", [])
        if op in ("!", "-", "~") and len(a) == 1:
            return {"k": "un", "op": op, "e": a[0], "l": n["l"], "t": "bool" if op == "!" else n["t"], "id": n["id"]}
        if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*") and len(a) == 2:
            return {"k": "bin", "op": op, "L": a[0], "R": a[1], "l": n["l"], "t": n["t"], "id": n["id"]}
        del n["callee"]
        n["fn"] = c.get("n", "")
        if c.get("b") is not None:
            n["dobj"] = c["b"]
        if c.get("ta"):
            n["ta"] = c["ta"]
    return n


class Template:
    """A function template's definition, to be interpreted for opaque types."""
    def __init__(self, f):
        self.f = f
        self.body = plain(f.body)
        self.inits = []

    def __getattr__(self, k):
        return getattr(self.f, k)
