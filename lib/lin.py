"""Linear normal form of value terms: sum of coeff*atom + constant."""


def lin(t):
    d, c = {}, 0
    d[None] = 0
    _acc(t, 1, d)
    c = d.pop(None)
    return frozenset((a, k) for a, k in d.items() if k), c


def _acc(t, k, d):
    if t[0] == "c" and isinstance(t[1], int):
        d[None] += k * t[1]
    elif t[0] == "bin" and t[1] == "+":
        _acc(t[2], k, d)
        _acc(t[3], k, d)
    elif t[0] == "bin" and t[1] == "-":
        _acc(t[2], k, d)
        _acc(t[3], -k, d)
    elif t[0] == "un" and t[1] == "-":
        _acc(t[2], -k, d)
    elif t[0] == "bin" and t[1] == "*" and t[2][0] == "c":
        _acc(t[3], k * t[2][1], d)
    elif t[0] == "bin" and t[1] == "*" and t[3][0] == "c":
        _acc(t[2], k * t[3][1], d)
    else:
        d[t] = d.get(t, 0) + k


def sub(a, b):
    """a - b of linear forms."""
    d = dict(a[0])
    for x, k in b[0]:
        d[x] = d.get(x, 0) - k
    return frozenset((x, k) for x, k in d.items() if k), a[1] - b[1]


def nonneg_facts(facts):
    """Linear forms known to be >= 0 on a path."""
    out = []
    for t, truth in facts:
        if t[0] != "bin":
            continue
        if t[1] == "<":
            a, b = lin(t[2]), lin(t[3])
            if truth:          # a < b: b - a - 1 >= 0
                s, c = sub(b, a)
                out.append((s, c - 1))
            else:              # a >= b
                out.append(sub(a, b))
        elif t[1] == "==" and truth:
            out.append(sub(lin(t[2]), lin(t[3])))
            out.append(sub(lin(t[3]), lin(t[2])))
    return out


def entails_nonneg(facts, form):
    if not form[0]:
        return form[1] >= 0
    return any(s == form[0] and c <= form[1] for s, c in nonneg_facts(facts))
