"""Difference bounds: is index < limit, from the branch facts of a state? Terms are (base, constant) pairs."""


def split(t):
    c = 0
    while isinstance(t, tuple) and t and t[0] == "bin" and t[1] in ("+", "-"):
        a, b = t[2], t[3]
        if b[0] == "c":
            c += b[1] if t[1] == "+" else -b[1]
            t = a
        elif a[0] == "c" and t[1] == "+":
            c += a[1]
            t = b
        else:
            break
    if t[0] == "c":
        return ("c", 0), c + t[1]
    return t, c


def min_args(t):
    if t[0] == "pcall" and "std::min<" in t[1]:
        return t[3]
    if t[0] == "min":
        return t[1:]
    return ()


def sub(t, acc):
    if isinstance(t, tuple):
        if t and t[0] in ("pcall", "min") and min_args(t):
            acc.add(t)
        for x in t:
            if isinstance(x, tuple):
                sub(x, acc)
    return acc


def less(facts, a, b, extra=()):
    """Can a < b be derived? facts: {atom: polarity}; extra: (x, y, k) meaning x - y <= k."""
    edges = []
    terms = {a, b}

    def le(x, y, k):
        (bx, cx), (by, cy) = split(x), split(y)
        edges.append((bx, by, k - cx + cy))
    for f, v in facts.items():
        if f[0] == "<":
            if v:
                le(f[1], f[2], -1)
            else:
                le(f[2], f[1], 0)
            terms |= {f[1], f[2]}
        elif f[0] == "==" and v:
            le(f[1], f[2], 0)
            le(f[2], f[1], 0)
            terms |= {f[1], f[2]}
    for x, y, k in extra:
        le(x, y, k)
        terms |= {x, y}
    ms = set()
    for t in terms:
        sub(t, ms)
    for m in ms:
        for x in min_args(m):
            le(m, x, 0)
    (ba, ca), (bb, cb) = split(a), split(b)
    # shortest path from ba to bb: ba - bb <= d
    dist = {ba: 0}
    for _ in range(len(edges) + 1):
        ch = False
        for x, y, k in edges:
            if x in dist and dist[x] + k < dist.get(y, 1 << 60):
                dist[y] = dist[x] + k
                ch = True
        if not ch:
            break
    if bb in dist:
        return dist[bb] + ca - cb <= -1
    return False


def known_upper(facts, a, extra=()):
    """Is there any strict or weak upper bound on a at all?"""
    ba = split(a)[0]
    for f, v in facts.items():
        if f[0] == "<":
            if v and split(f[1])[0] == ba:
                return f[2]
            if not v and split(f[2])[0] == ba:
                return f[1]
    for x, y, k in extra:
        if split(x)[0] == ba:
            return y
    return None
