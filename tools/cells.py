"""Exhaustive exploration of one field, or of fields which share dictionary entries: the graph of
Link.tla is explored by TLC, and every edge of it is taken by the real coders."""
import collections, concurrent.futures, json, os, random, re, shutil, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, codec, conv, gensets, tla
from gen import node, to_xml, XMLNAME

INTS = {"i32": (5, -2**31, 2**31 - 1), "u32": (5, 0, 2**32 - 1), "i64": (5, -2**63, 2**63 - 1),
        "u64": (5, 0, 2**64 - 1)}
OPS = ["none", "constant", "default", "copy", "increment", "delta", "tail"]


def legal(k):
    no = {"asc": {"increment"}, "uni": {"increment"}, "bv": {"increment"}, "dec": {"increment", "tail"},
          "enum": {"increment", "delta", "tail"}, "set": {"increment", "delta", "tail"},
          "bool": {"increment", "delta", "tail"}, "vec": set(OPS) - {"none"}}
    return [o for o in OPS if o not in no.get(k, {"tail"})]


def js(k, v):
    if v is None:
        return None
    if k in INTS or k in ("enum", "bool", "set"):
        return str(v)
    if k == "dec":
        return [str(v[0]), str(v[1])]
    if k == "vec":
        return {"v": [str(x) for x in v]}
    return "x" + v.hex()


def values(k):
    """(initial value, its text, the pool)"""
    if k in INTS:
        i, lo, hi = INTS[k]
        return i, str(i), [i, i + 1, lo, hi, 64]
    if k == "dec":
        return (5, 0), "5", [(5, 0), (6, 0), (5, -2), (-70, 63)]
    if k in ("enum", "bool"):
        return 1, "true" if k == "bool" else "B", [0, 1] + ([2] if k == "enum" else [])
    if k == "set":
        return 1, "A", [0, 1, 3]
    if k == "vec":
        return None, None, [[], [0], [1, 64]]
    if k == "asc":
        return b"ab", "ab", [b"ab", b"abc", b"xb", b"", b"cab"]
    if k == "uni":
        return b"ab", "ab", [b"ab", b"abc", b"xb", b"", b"\xc3\xa9b"]
    return b"\x61\x62", "6162", [b"ab", b"ab\x00", b"\xffb", b""]


def field(k, name, op, opt, init, text, attrs=None):
    a = {"name": name}
    if opt:
        a["presence"] = "optional"
    if k == "uni":
        a["charset"] = "unicode"
    ch = []
    if k in ("enum", "set"):
        ch = [node("element", {"name": n}) for n in "ABC"]
    if op != "none":
        ch.append(node(op, attrs or {}, [], text if init else None))
    return node("int32Vector" if k == "vec" else XMLNAME[k], a, ch)


def fills(op, opt, init):
    return op == "default" and opt and init


def pool(k, op, opt, init):
    i, _, vs = values(k)
    if op == "constant":
        vs = [i]
    if opt and not fills(op, opt, init):
        vs = [None] + vs
    return [js(k, v) for v in vs]


class Cell:
    def __init__(self, name, trees, msgs, feed=(), keep=(), mode="link", gen=True):
        self.gen = gen
        self.name, self.trees, self.msgs, self.feed, self.keep, self.mode = name, trees, msgs, list(feed), list(keep), mode

    def spec(self):
        again = [b[0] & 64 != 0 for b, in zip(self.feed)]
        return {"trees": self.trees, "pool": [[t, conv.fields(v)] for t, v in self.msgs],
                "feed": [list(b) for b in self.feed], "again": again, "mode": self.mode,
                "keep": [conv.tag(v)[1] for v in self.keep]}


FEED = {"i": [0x01, 0x80, 0x81, 0xff], "s": [0x61, 0x80, 0xe1, 0x00]}


def payloads(k, op):
    """short inputs for a field"""
    if k in ("uni", "bv"):
        al = [[], [0x80], [0x81], [0x82], [0x81, 0x61], [0x82, 0x61], [0x82, 0x61, 0xff], [0x81, 0x80], [0x01], [0x01, 0x80]]
    elif k == "asc":
        al = [[]] + [[a] for a in FEED["s"]] + [[a, b] for a in FEED["s"] for b in FEED["s"]]
    elif k == "dec":
        al = [[]] + [[a] for a in FEED["i"]] + [[a, b] for a in FEED["i"] for b in FEED["i"]]
    else:
        al = [[]] + [[a] for a in FEED["i"]] + [[a, b] for a in FEED["i"][:3] for b in FEED["i"]]
    if op == "delta" and k in ("uni", "bv", "asc"):
        al = [[]] + [[a] + s for a in (0x80, 0x81, 0x82, 0xff, 0xfe, 0x84) for s in (
            [[], [0x80], [0xe1], [0x61, 0xe2]] if k == "asc" else [[], [0x80], [0x81], [0x81, 0x61], [0x82, 0x80, 0x61]])]
    return al


def feeds(k, op, tid=1, more=0):
    out = []
    for p in payloads(k, op):
        for pm in (0x80, 0xa0):
            out.append(bytes([pm] + p))
            if len(p) < 2 or op == "delta" and len(p) == 2:
                out.append(bytes([pm | 0x40, 0x80 | tid] + p))
    return out + [b"\xc0\x82", b"\x00", b"\x20", b"\x40", b"\xc0"]


def single(kinds=None):
    """every type, operator, presence and initial value"""
    for k in kinds or ["i32", "u32", "i64", "u64", "asc", "uni", "bv", "dec", "enum", "bool", "set", "vec"]:
        for op in legal(k):
            for opt in (False, True):
                for init in (False, True):
                    if init and op == "none" or not init and op == "constant" or not init and op == "default" and not opt:
                        continue
                    if not init and k in ("enum", "bool", "set") and op != "none" and not opt:
                        continue
                    text = values(k)[1]
                    name = "%s.%s.%s.%s" % (k, op, "opt" if opt else "man", "init" if init else "-")
                    t = node("templates", {}, [node("template", {"name": "T", "id": 1},
                                                    [field(k, "f", op, opt, init, text)])])
                    vs = pool(k, op, opt, init)
                    fd = feeds(k, op)
                    yield Cell(name, [t], [(1, [v]) for v in vs], fd, gen=k != "vec")
                    yield Cell(name + ".feed", [t], [(1, [v]) for v in vs], fd, kept(k, vs), "feed", gen=False)


def kept(k, vs):
    """the previous values a feed cell explores from"""
    return [v for v in vs if v is not None] + [js(k, x) for x in
            ([0, 1, 2, 128, -1, 4, 6] if k in INTS else [b"a", b"aa", b"aab", b"a\xff"] if k in ("asc", "uni", "bv") else
             [(0, 0), (1, 0), (0, 1), (0, -1), (1, 1)] if k == "dec" else [0, 1, 2, 3] if k in ("enum", "bool", "set") else [])]


def shared():
    """byte strings for two templates that share an entry: what one leaves in it, absence included, is what
    the other, mandatory or optional, with or without an initial value, starts from"""
    for k in ("i32", "u64", "asc", "uni", "bv", "dec"):
        for oa in ("copy", "increment", "delta", "tail", "default", "none"):
            for ob in ("copy", "increment", "delta", "tail"):
                if oa not in legal(k) or ob not in legal(k):
                    continue
                for opt, init in ((False, False), (False, True), (True, True)):
                    text = values(k)[1]
                    key = {"key": "k"}
                    a = field(k, "x" if oa != "none" else "k", oa, True, False, text, key)
                    t = node("templates", {}, [node("template", {"name": "A", "id": 1}, [a]),
                                               node("template", {"name": "B", "id": 2}, [field(k, "y", ob, opt, init, text, key)])])
                    fd = []
                    for tid, op in ((1, oa), (2, ob)):
                        if op == "delta" and k in ("asc", "uni", "bv"):
                            ps = [[], [0x80], [0x80, 0x80], [0x81, 0xe1] if k == "asc" else [0x81, 0x81, 0x61], [0xff, 0x80], [0x82, 0x80]]
                        elif k == "dec":
                            ps = [[], [0x80], [0x80, 0x81], [0x81, 0x82]]
                        elif k in ("uni", "bv"):
                            ps = [[], [0x80], [0x81], [0x82, 0x61], [0x83, 0x61, 0x62]]
                        elif k == "asc":
                            ps = [[], [0x80], [0xe1], [0x61, 0xe2]]
                        else:
                            ps = [[], [0x80], [0x81], [0x82], [0xff]]
                        for pm in ((0xc0,) if op in ("delta", "none") else (0xc0, 0xe0)):
                            fd += [bytes([pm, 0x80 | tid] + x) for x in ps if pm == 0xe0 or op in ("delta", "none") or not x]
                    yield Cell("shared.%s.%s+%s.%s.%s" % (k, oa, ob, "opt" if opt else "man", "init" if init else "-"), [t],
                               [(1, [v]) for v in pool(k, "copy", True, False)], fd, kept(k, pool(k, "copy", False, False)), "feed",
                               gen=k != "uni")


def split():
    """decimals with an operator for each part"""
    for eo in ("none", "constant", "default", "copy", "delta", None):
        for mo in ("none", "constant", "default", "copy", "increment", "delta", None):
            for opt in (False, True):
                for init in (False, True):
                    if eo is None and mo is None:
                        continue
                    if fills(eo, opt, init):
                        continue
                    if not init and (eo in ("constant", "default") or mo in ("constant", "default")):
                        continue
                    ch = []
                    if eo:
                        ch.append(node("exponent", {}, [] if eo == "none" else [node(eo, {}, [], "-2" if init else None)]))
                    if mo:
                        ch.append(node("mantissa", {}, [] if mo == "none" else [node(mo, {}, [], "7" if init else None)]))
                    a = {"name": "f"}
                    if opt:
                        a["presence"] = "optional"
                    t = node("templates", {}, [node("template", {"name": "T", "id": 1}, [node("decimal", a, ch)])])
                    es = [-2] if eo == "constant" else [-2, 0, 63]
                    ms = [7] if mo == "constant" else [7, 8, -2**63]
                    vs = [["%d" % m, "%d" % e] for e in es for m in ms][:7] + ([None] if opt else [])
                    yield Cell("dec.%s.%s.%s.%s" % (eo, mo, opt, init), [t], [(1, [v]) for v in vs],
                               [bytes([pm] + p) for pm in (0x80, 0xa0, 0x90, 0xb0, 0xc0) for p in payloads("dec", "")])


SCOPES = [("global", {}), ("template", {"dictionary": "template"}), ("type", {"dictionary": "type"}), ("named", {"dictionary": "D"})]


def pairs():
    """fields of two templates under one key, in every scope"""
    combos = [("i32", "i32"), ("i64", "u32"), ("asc", "asc"), ("bv", "bv"), ("u64", "u64"), ("asc", "uni"), ("dec", "dec"), ("i32", "asc"),
              ("u64", "enum"), ("enum", "enum")]
    for a, b in combos:
        for oa in ("copy", "increment", "delta", "tail"):
            for ob in ("copy", "increment", "delta", "tail"):
                if oa not in legal(a) or ob not in legal(b):
                    continue
                for sc, at in SCOPES:
                    for opts in ((True, True), (False, True), (False, False)):
                        for reset in (0, 2):
                            if reset and (sc != "global" or a != b):
                                continue
                            mk = lambda k, n, op, opt, init: field(k, n, op, opt, init, values(k)[1], dict(at, key="k"))
                            one = [mk(a, "x", oa, opts[0], False)]
                            two = [mk(b, "y", ob, opts[1], True)]
                            ta = {"name": "A", "id": 1}
                            tb = dict({"name": "B", "id": 2}, **({"reset": "yes"} if reset else {}))
                            if sc == "type":
                                one.insert(0, node("typeRef", {"name": "X"}))
                                two.insert(0, node("typeRef", {"name": "X"}))
                            t = node("templates", {}, [node("template", ta, one), node("template", tb, two)])
                            small = lambda k, opt: [v for v in pool(k, "copy", opt, False)][:4]
                            yield Cell("%s.%s+%s.%s.%s.%s%s" % (a, oa, b, ob, sc, opts, ".reset" if reset else ""), [t],
                                       [(1, [v]) for v in small(a, opts[0])] + [(2, [v]) for v in small(b, opts[1])],
                                       gen=a == b or sc == "template" or (a, b) == ("u64", "enum"))


def nested():
    """groups, sequences, and dynamic template references around a field with an operator"""
    for op in ("none", "default", "copy", "increment", "delta"):
        for opt in (False, True):
            for fopt in (False, True):
                f = field("u32", "x", op, fopt, op in ("default", "increment"), "5")
                g = node("group", dict({"name": "g"}, **({"presence": "optional"} if opt else {})), [f])
                t = node("templates", {}, [node("template", {"name": "T", "id": 1}, [g, field("i32", "y", "copy", True, False, "")])])
                xs = [str(v) for v in (5, 6)] + ([None] if fopt and not fills(op, True, op == "default") else [])
                ms = [[{"g": [x]}, y] for x in xs for y in ("1", None)] + ([[None, "1"], [None, None]] if opt else [])
                yield Cell("grp.%s.%s.%s" % (op, opt, fopt), [t], [(1, m) for m in ms])
                for lop in ("none", "default", "copy", "increment", "delta"):
                    if lop == "default" and opt:
                        continue
                    ln = node("length", {"name": "n"}, [] if lop == "none" else
                              [node(lop, {}, [], "1" if lop in ("default", "increment") else None)])
                    s = node("sequence", dict({"name": "s"}, **({"presence": "optional"} if opt else {})), [ln, f])
                    t = node("templates", {}, [node("template", {"name": "T", "id": 1}, [s])])
                    es = [[]] + [[[x]] for x in xs] + [[["5"], ["6"]], [["6"], ["6"]]]
                    yield Cell("seq.%s.%s.%s.%s" % (lop, op, opt, fopt), [t],
                               [(1, [{"s": e}]) for e in es] + ([(1, [None])] if opt else []))
    for op in ("copy", "increment", "delta", "none"):
        for reset in ({}, {"reset": "yes"}, {"reset": "1"}):
            inner = node("template", dict({"name": "I", "id": 2}, **({"reset": "yes"} if reset.get("reset") == "1" else {})),
                         [field("i32", "x", op, True, False, "")])
            outer = node("template", dict({"name": "O", "id": 1}, **({"reset": "yes"} if reset.get("reset") == "yes" else {})),
                         [field("i32", "x", "copy", True, False, ""), node("templateRef"), field("i32", "z", "copy", True, False, "")])
            t = node("templates", {}, [outer, inner, node("template", {"name": "E", "id": 3}, [])])
            xs = ("5", "6", None)
            ms = [(2, [x]) for x in xs] + [(1, [x, {"n": 2, "f": [y]}, "5"]) for x in xs for y in xs]
            # a template within itself: its id is left out
            ms += [(1, [x, {"n": 1, "f": [y, {"n": 2, "f": ["5"]}, None]}, "5"]) for x in xs for y in xs]
            ms += [(1, ["5", {"n": 3, "f": []}, z]) for z in ("5", None)] + [(3, [])]
            yield Cell("nest.%s.%s" % (op, reset.get("reset")), [t], ms)


def feed():
    yield from (c for c in single() if c.mode == "feed")
    yield from shared()


def resets():
    return (c for f in (pairs, nested) for c in f() if "reset" in c.name or c.name[:4] == "nest" and c.name[-4:] != "None")


FAMILIES = {"feed": feed, "resets": resets, "single": single, "split": split, "pairs": pairs, "nested": nested, "shared": shared}


def choose(families, r, n=None, gen=False):
    cs = [c for f in families for c in FAMILIES[f]() if c.gen or not gen]
    return cs if n is None or n >= len(cs) else r.sample(cs, n)


# ------------------------------------------------------------------ the graph
def explore(cells, work, shards=8, timeout=800):
    """-> [{node: [(label index, reset, node)]}], (generated, distinct)"""
    shards = max(1, min(shards, len(cells)))

    def one(k):
        mine = list(range(k, len(cells), shards))
        f = os.path.join(work, "cells%d" % k)
        with open(f, "w") as o:
            for i in mine:
                o.write(json.dumps(cells[i].spec()) + "\n")
        rc, out = tla.tlc("Link", env={"CELLS": f}, workers=1, timeout=timeout, heap="3g")
        if rc:
            st = re.findall(r"^/\\ cell = (\d+)", out, re.M)
            raise tla.ToolError("Link.tla: rc %d %s in %s\n%s" % (
                rc, tla.errline(out)[:300], cells[mine[int(st[-1]) - 1]].name if st else "?",
                "\n".join(l for l in out.splitlines() if l[:3] != '"E~')[-1500:]))
        g = collections.defaultdict(lambda: collections.defaultdict(set))
        for l in out.splitlines():
            if l.startswith('"E~'):
                p = l[1:-1].split("~")
                if len(p) != 5:
                    raise tla.ToolError("odd line " + l)
                _, c, a, lab, b = p
                i, rs = re.match(r"<<(\d+), (\w+)>>", lab).groups()
                g[mine[int(c) - 1]][a].add((int(i) - 1, rs == "TRUE", b))
        return g, tla.counts(out)

    graphs, n = {}, [0, 0]
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        for g, c in ex.map(one, range(shards)):
            graphs.update(g)
            n[0] += c[0]
            n[1] += c[1]
    return [graphs.get(i, {}) for i in range(len(cells))], n


def start_of(g):
    """the initial node: the one with no dictionary, or the only one TLC started from"""
    return min(g, key=lambda s: (s == "bad", len(s), s))


def walks(g, start, limit, r):
    """edge sequences from the start which take every edge once at least"""
    todo = {a: list(es) for a, es in ((a, sorted(es)) for a, es in g.items())}
    for es in todo.values():
        r.shuffle(es)
    out = []

    def route(a):
        """shortest way from a to a node with edges left"""
        seen, q = {a: None}, collections.deque([a])
        while q:
            x = q.popleft()
            if todo.get(x):
                p = []
                while seen[x] is not None:
                    y, e = seen[x]
                    p.append(e)
                    x = y
                return p[::-1]
            for e in sorted(g.get(x, ())):
                if e[2] not in seen:
                    seen[e[2]] = (x, e)
                    q.append(e[2])
        return None

    while any(todo.values()):
        w, at = [], start
        while len(w) < limit:
            p = route(at)
            if p is None:
                break
            for e in p:
                w.append(e)
                at = e[2]
            e = todo[at].pop()
            w.append(e)
            at = e[2]
        if not w:
            break
        out.append(w)
    return out


# ------------------------------------------------------------------ sessions
def send_ops(cell, w, tids=None):
    ops, live = [], {}
    for i, rs, _ in w:
        t, v = cell.msgs[i]
        m = "m%d" % t
        if t not in live:
            live[t] = m
            ops.append({"op": "msg", "m": m, "tid": tids[t] if tids else t})
        ops += [{"op": "set", "m": m, "v": renum(v, tids)},
                {"op": "enc", "c": "e", "m": m, "reset": rs, "ar": True, "size": 256},
                {"op": "dec", "c": "d", "src": "e", "reset": rs, "rsrc": True, "end": True, "tok": 0}]
    return ops + [{"op": "del", "c": "e"}, {"op": "del", "c": "d"}] + [{"op": "del", "m": m} for m in live.values()]


def renum(v, tids):
    if not tids:
        return v
    if isinstance(v, list):
        return [renum(x, tids) for x in v]
    if isinstance(v, dict) and "n" in v:
        return {"n": tids[v["n"]], "f": renum(v["f"], tids)}
    return v


def sessions(b, cells, graphs, r, limit=60, most=None, kind="v1"):
    """walks over the cells' graphs as sessions of the dynamic coders"""
    edges = 0
    for c, g in zip(cells, graphs):
        if not g:      # refused by the coders
            b.add(b.docset(c.trees), codec.loads(c.trees) + codec.news(c.trees), cell=c.name)
            continue
        ws = walks(g, start_of(g), limit, r)
        edges += sum(map(len, g.values()))
        if most and len(ws) > most:
            ws = r.sample(ws, most)
        ds = b.docset(c.trees)
        for w in ws:
            if c.mode == "feed":
                ops = [{"op": "dec_new", "c": "d", "kind": "v1", "docs": ["d0"], "tok": 0}]
                for i, rs, _ in w:
                    ops.append({"op": "dec", "c": "d", "b": c.feed[i].hex(), "reset": rs, "ar": True, "end": True, "tok": 0})
                ops.append({"op": "del", "c": "d"})
            else:
                ops = codec.news(c.trees) + send_ops(c, w)
            b.add(ds, codec.loads(c.trees) + ops, cell=c.name)
    return edges


# ------------------------------------------------------------------ generated code
def joint(cells, per=60):
    """documents with many cells' templates, under names and ids of their own"""
    docs = []
    todo = [c for c in cells if c.gen]
    for k in range(0, len(todo), per):
        kids, maps, tid = [], [], 0
        for n, c in enumerate(todo[k:k + per]):
            m = {}
            for t in c.trees[0]["c"]:
                tid += 1
                m[int(t["a"]["id"])] = tid
            for t in c.trees[0]["c"]:
                kids.append(rename(t, n, m))
            maps.append(m)
        docs.append((node("templates", {}, kids), todo[k:k + per], maps))
    return docs


def rename(t, n, m):
    """unique names; the keys, types and named dictionaries are made unique as well"""
    a = dict(t["a"])
    if t["t"] == "template":
        a["id"] = m[int(a["id"])]
        a["name"] = "T%d_%d" % (n, a["id"])
    elif t["t"] not in ("element", "typeRef") and "name" in a:
        a["name"] = "%s%d" % (a["name"], n)
    if t["t"] == "typeRef":
        a["name"] = "%s%d" % (a["name"], n)
    if "key" in a:
        a["key"] = "k%d" % n
    x = {"t": t["t"], "a": a, "c": [rename(c, n, m) for c in t["c"]]}
    if "v" in t:
        x["v"] = t["v"]
    return x


def gen_sets(cells, per=60, prefix="cl"):
    """{name: (None, [tree])} for gensets.driver, and where each cell went"""
    sets, where = {}, {}
    for i, (tree, cs, maps) in enumerate(joint(cells, per)):
        n = "%s%d" % (prefix, i)
        sets[n] = (None, [tree])
        for c, m in zip(cs, maps):
            where[c.name] = (n, m)
    return sets, where


def refeed(b, tids):
    """an input for a template under its id in a joint document"""
    if not b or not b[0] & 128:
        return b
    if b[0] & 64:
        if len(b) < 2 or not b[1] & 128 or b[1] & 127 not in tids:
            return b
        t, rest = b[1] & 127, b[2:]
    else:
        t, rest = min(tids), b[1:]
    i = tids[t]
    return bytes([b[0] | 64]) + (bytes([i | 128]) if i < 128 else bytes([i >> 7, i & 127 | 128])) + rest


def at_place(c, where):
    return where.get(c.name) or c.name[-5:] == ".feed" and where.get(c.name[:-5]) or None


def gen_sessions(b, cells, graphs, sets, where, r, limit=60, most=None, pairs=(("v2", "v2"), ("v2", "v1"), ("v1", "v2"))):
    """the walks of the link cells with generated-code coders"""
    dss = {n: b.docset(t) for n, (_, t) in sets.items()}
    for c, g in zip(cells, graphs):
        if not g or not at_place(c, where):
            continue
        n, m = at_place(c, where)
        ws = walks(g, start_of(g), limit, r)
        if most and len(ws) > most:
            ws = r.sample(ws, most)
        if c.mode == "feed":
            for w in ws:
                ops = [{"op": "dec_new", "c": "d", "kind": "v2", "docs": [n], "tok": r.choice([0, 0, 1])}]
                for i, rs, _ in w:
                    ops.append({"op": "dec", "c": "d", "b": refeed(c.feed[i], m).hex(), "reset": rs, "ar": True, "end": True, "tok": 0})
                s = b.add(dss[n], gensets.loads(n, sets[n][1], False) + ops + [{"op": "del", "c": "d"}], cell=c.name)
                s["pair"] = ["", "v2", ops[0]["tok"]]
            continue
        for w in ws:
            e, d = r.choice(pairs)
            s = b.add(dss[n], gensets.loads(n, sets[n][1], False) +
                      codec.news(sets[n][1], e, d, names=[n]) + send_ops(c, w, m), cell=c.name)
            s["pair"] = [e, d, 0]


if __name__ == "__main__":
    import argparse, time
    ap = argparse.ArgumentParser()
    ap.add_argument("--fam", default="single")
    ap.add_argument("--n", type=int, default=None)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--most", type=int, default=None)
    ap.add_argument("--gen", action="store_true")
    ap.add_argument("--flavor", default="plain")
    ap.add_argument("--show", type=int, default=2)
    a = ap.parse_args()
    r = random.Random(a.seed)
    cs = choose(a.fam.split(","), r, a.n, a.gen)
    work = tempfile.mkdtemp(prefix="cells-")
    t = time.time()
    gs, n = explore(cs, work)
    print(len(cs), "cells", sum(len(g) for g in gs), "nodes", sum(len(e) for g in gs for e in g.values()), "edges", n, "%.1fs" % (time.time() - t))
    b = codec.Batch(a.seed)
    if a.gen:
        sets, where = gen_sets(cs)
        exe = gensets.driver(sets, a.flavor, name="cdriver")
        gen_sessions(b, cs, gs, sets, where, r, most=a.most)
    else:
        exe = build.binary("driver", ["driver.cpp"], a.flavor)
        sessions(b, cs, gs, r, most=a.most)
    print(sum(len(s["ops"]) for s in b.sessions), "ops")
    codec.report(b, codec.run_batch(b, exe=exe), a.show)
    shutil.rmtree(work)
