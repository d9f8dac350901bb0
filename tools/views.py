"""View definitions for generated template documents."""
from gen import node


def steps(fs, pre=()):
    """every path to a field that views can refer to; "*" stands for an element"""
    for f in fs:
        if f.k == "nest" or not f.name:
            continue
        p = list(pre) + [f.name]
        yield p
        if f.k == "grp":
            yield from steps(f.sub, p)
        elif f.k == "seq":
            if len(f.sub) == 1 and f.sub[0].k not in ("grp", "seq", "nest"):
                yield p + ["*"]
            yield from steps(f.sub, p + ["*"])


def plain(fs):
    """whether names tell fields apart"""
    n = [f.name for f in fs]
    return len(set(n)) == len(n) and all(plain(f.sub) for f in fs)


def reference(r, p):
    text, out = "", []
    for x in p:
        if x == "*":
            k = r.choice([0, 0, 0, 1, 1, 2, 3, 40])
            text += "[%d]" % k
            out.append({"n": "", "i": k})
        else:
            text += ("." if text else "") + x
            out.append({"n": x, "i": -1})
    n = node("reference", {"name": text})
    n["p"] = out
    return n


def add(r, g, trees, n=3):
    """appends views to the documents; -> {template id: [view names]}"""
    made, k = {}, 0
    for t in trees:
        for m in [c for c in t["c"] if c["t"] == "template"]:
            tid = int(m["a"]["id"])
            fs = g.ids.get(tid)
            if fs is None or not plain(fs):
                continue
            ps = list(steps(fs))
            if not ps:
                continue
            for _ in range(r.randint(1, n)):
                k += 1
                deep = [p for p in ps if len(p) > 1]
                pool = r.sample(ps, min(len(ps), r.choice([2, 3, 5, 9])))
                if deep and r.random() < .8:
                    pool += r.sample(deep, min(len(deep), r.choice([1, 3, 6])))
                fields = []
                for i in range(r.choice([1, 2, 3, 5, 8])):
                    refs = [reference(r, r.choice(pool)) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
                    fields.append(node("field", {"name": "v%d" % i}, refs))
                t["c"].append(node("view", {"name": "View%d" % k, "reference": m["a"]["name"]}, fields))
                made.setdefault(tid, []).append("View%d" % k)
    return made
