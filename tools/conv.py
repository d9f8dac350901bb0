"""Recorded JSON values to the representation the specification uses."""


def limbs(n):
    return [(n >> (7 * i)) & 127 for i in range(10)]


def tag(v):
    if v is None:
        return [0]
    if isinstance(v, str):
        if v.startswith("x"):
            return [1, list(bytes.fromhex(v[1:]))]
        return [1, limbs(int(v))]
    if isinstance(v, list):
        return [1, limbs(int(v[1])) + limbs(int(v[0]))]
    if "v" in v:
        return [1, [x for e in v["v"] for x in limbs(int(e))]]
    if "g" in v:
        return [3, [tag(x) for x in v["g"]]]
    if "s" in v:
        return [4, [[tag(x) for x in e] for e in v["s"]]]
    if "n" in v:
        return [5, [v["n"], [tag(x) for x in v["f"]]]]
    raise ValueError(v)


def fields(vs):
    return [tag(x) for x in vs]


def unlimb(l):
    n = sum(x << (7 * i) for i, x in enumerate(l))
    return n - (1 << 70) if l[9] >= 64 else n
