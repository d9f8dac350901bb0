"""The checks that drive the coders and validate what they did against TraceCodec.tla."""
import json, os, random, shutil, tempfile
import build, cells, codec, gensets, tla
from gen import TemplateGen, node

SCALARS = {"i32": 3, "u32": 3, "i64": 3, "u64": 3, "dec": 3, "sdec": 3, "asc": 3, "uni": 2, "bv": 2, "vec": 1,
           "enum": 1, "bool": 1, "set": 1, "ts": 1}
NESTED = dict(i32=2, u32=1, i64=1, u64=1, dec=1, sdec=1, asc=2, uni=1, bv=1, vec=1, enum=1, bool=1, set=1,
              grp=6, seq=7, tref=3, nest=2)

GENSETS = {}


def genset(ck, name="gs", seed=20, n=6, **cfg):
    """quick checks share one family of generated template sets; thorough ones draw their own"""
    return gensets.sets(seed, n, name, **cfg)


class Plan:
    """what one check generates: a list of (weight, function(batch, r)) over XML-loaded templates and of
    (weight, function) over generated ones"""

    def __init__(self, cfg=None, cfgs=None, xml=(), gen=(), flavor="plain", sessions=500, gen_sessions=150, gencfg=None,
                 genname="gs", genseed=20, gen_n=6):
        self.cfgs = cfgs or [cfg or {}]
        self.xml, self.gen = list(xml), list(gen)
        self.flavor, self.sessions, self.gen_sessions = flavor, sessions, gen_sessions
        self.gencfg, self.genname, self.genseed, self.gen_n = gencfg or {}, genname, genseed, gen_n


def pick(r, l):
    return r.choices([f for _, f in l], [w for w, _ in l])[0]


def make(plan, seed, sets, kind, n):
    b = codec.Batch("%s-%s" % (seed, kind))
    r = b.r
    if kind == "xml":
        while len(b.sessions) < n:
            g = TemplateGen(r, **r.choice(plan.cfgs))
            trees = g.docset()
            ds = b.docset(trees)
            for _ in range(3):
                pick(r, plan.xml)(b, g, trees, ds)
    else:
        dss = {m: b.docset(t) for m, (g, t) in sets.items()}
        while len(b.sessions) < n:
            m = r.choice(sorted(sets))
            g, trees = sets[m]
            pick(r, plan.gen)(b, g, trees, dss[m], m)
    return b


def sub_batch(b, sid):
    c = codec.Batch(0)
    c.sessions = [s for s in b.sessions if s["id"] == sid]
    c.docsets = b.docsets
    return c


def describe(s, R):
    v = R["verdicts"][s["id"]]
    rs = R["results"][s["id"]]
    o = s["ops"][v[1]] if v[1] < len(s["ops"]) else {"op": "end"}
    res = [r for r in rs[0] if r["i"] == v[1]]
    ctx = [x for r in rs[0] if max(0, v[1] - 3) <= r["i"] < v[1] for x in
           ["  before: %s => %s" % (cut(s["ops"][r["i"]]), cut(r))]]
    return "%s at operation %d %s => %s (end %s); specification: %s\n%s" % (
        v[2], v[1], cut(o), cut(res[0] if res else {}), rs[1], str(v[3])[:200], "\n".join(ctx))


def cut(o):
    return json.dumps({k: v for k, v in o.items() if k not in ("xml", "s")})[:230]


def judge(ck, b, R, exe, flavor, genspec, kind="codec", rb=codec.run_batch):
    """a rejected session is run again: only what happens again is reported"""
    acc = 0
    for s in b.sessions:
        v = R["verdicts"][s["id"]]
        if v[0] == "ACC":
            acc += 1
            ck.count(v[1])
            continue
        if len(ck.violations) >= 3:
            continue
        again = None
        for _ in range(3):
            c = sub_batch(b, s["id"])
            R2 = rb(c, exe=exe)
            if R2["verdicts"][s["id"]][0] != "ACC":
                again = R2
                break
        if again is None:
            ck.note("a rejection did not happen again: %s %s" % (v[2], cut(s["ops"][min(v[1], len(s["ops"]) - 1)])))
            continue
        ck.violation(describe(s, again), {"kind": kind, "flavor": flavor, "gen": genspec,
                                          "session": s, "docs": b.docsets[s["ds"]]})
    ck.traces(acc)
    ck.model(R["stats"].get("states", 0), R["stats"].get("transitions", 0))


def good_sample(b, R):
    for s in b.sessions:
        if R["verdicts"][s["id"]][0] == "ACC" and any(o["op"] in ("enc", "dec") for o in s["ops"]):
            docs = [o["xml"] for o in s["ops"] if o["op"] == "load" and "xml" in o]
            rs = R["results"][s["id"]][0]
            return {"templates": " ".join((docs or ["generated"])[0].split())[:900],
                    "history": [cut(r) for r in rs if s["ops"][r["i"]]["op"] in ("enc", "dec")][:4],
                    "verdict": "accepted by TraceCodec.tla", "steps": R["verdicts"][s["id"]][1]}


def run(ck, plan):
    exe = gexe = sets = genspec = None
    if plan.gen:
        n = plan.gen_n if ck.quick else plan.gen_n + 6
        seed = plan.genseed if ck.quick else plan.genseed + 1000 * ck.seed
        genspec = [seed, n, plan.genname if ck.quick else plan.genname + "t", plan.gencfg]
        sets = gensets.sets(seed, n, genspec[2], **plan.gencfg)
        gexe = gensets.driver(sets, plan.flavor)
        exe = gexe
    else:
        exe = build.binary("driver", ["driver.cpp"], plan.flavor)
    ck.start_clock()
    ck.exe = exe
    k = 0
    while True:
        for kind, x, n in (("xml", exe, plan.sessions), ("gen", gexe, plan.gen_sessions)):
            if not (plan.xml if kind == "xml" else plan.gen):
                continue
            b = make(plan, "%s-%d-%d" % (ck.prop, ck.seed, k), sets, kind, n)
            R = codec.run_batch(b, exe=x)
            judge(ck, b, R, x, plan.flavor, genspec if kind == "gen" else None)
            s = good_sample(b, R)
            if s and k == 0:
                ck.sample(s)
        k += 1
        if ck.quick or ck.time_left() < 30 or ck.violations:
            break
    ck.cov["batches"] = k


def replay(d, rb=codec.run_batch, exe=None):
    """run a recorded session again; True when it is still rejected"""
    if exe:
        pass
    elif isinstance(d.get("gen"), dict):
        g = d["gen"]
        exe = gensets.driver(cells.gen_sets(cells.choose(g["families"], random.Random(g["seed"]), g["n"], True), prefix=g["prefix"])[0],
                             d["flavor"], name="cdriver")
    elif d.get("gen"):
        seed, n, name, cfg = d["gen"]
        exe = gensets.driver(gensets.sets(seed, n, name, **cfg), d["flavor"])
    else:
        exe = build.binary("driver", ["driver.cpp"], d["flavor"])
    b = codec.Batch(0)
    s = d["session"]
    b.sessions = [s]
    b.docsets = {s["ds"]: d["docs"]}
    R = rb(b, exe=exe)
    v = R["verdicts"][s["id"]]
    if v[0] == "ACC":
        print("accepted")
        return False
    print(describe(s, R))
    return True


# ---------------------------------------------------------------- exhaustive cells
def explore_cells(ck, families, n, most=4, gen=None, flavor="plain"):
    """every edge of Link.tla's graphs of these cells, taken by the coders. gen: (families, how many) of
    the cells that are compiled as well"""
    def go(cs, gx, tag):
        work = tempfile.mkdtemp(prefix="cells-")
        try:
            graphs, count = cells.explore(cs, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        ck.model(count[1], count[0])
        r = random.Random("%s-%d-%s" % (ck.prop, ck.seed, tag))
        b = codec.Batch(0)
        if gx:
            cells.gen_sessions(b, cs, graphs, gx[0], gx[1], r, most=most if ck.quick else None)
            x, spec = gx[2], gx[3]
        else:
            cells.sessions(b, cs, graphs, r, most=most if ck.quick else None)
            x, spec = build.binary("driver", ["driver.cpp"], flavor), None
        R = codec.run_batch(b, exe=x)
        judge(ck, b, R, x, flavor, spec)
        key = "cells_compiled" if gx else "cells"
        ck.cov[key] = ck.cov.get(key, 0) + len(cs)
        ck.cov[key + "_edges"] = ck.cov.get(key + "_edges", 0) + sum(len(e) for g in graphs for e in g.values())

    r = random.Random("%s-%d-cells" % (ck.prop, ck.seed))
    cs = cells.choose(families, r, n if ck.quick else None) if families else []
    if not ck.quick:
        r.shuffle(cs)
    while cs and not ck.violations:
        go(cs[:120], None, len(cs))
        cs = cs[120:]
        if not ck.quick and ck.time_left() < 60:
            ck.note("%d cells were left for lack of time" % len(cs))
            break
    if gen and not ck.violations:
        fams, m = gen
        spec = {"families": fams, "seed": 7, "n": m, "prefix": "c" + fams[0][:2]}
        r = random.Random("%s-%d-gcells-%s" % (ck.prop, ck.seed, fams[0]))
        all_ = cells.choose(fams, random.Random(7), m, True)
        sets, where = cells.gen_sets(all_, prefix=spec["prefix"])
        exe = gensets.driver(sets, flavor, name="cdriver")
        cs = all_ + [c for f in fams + ["feed"] for c in cells.FAMILIES[f]() if c.mode == "feed" and not c.gen and cells.at_place(c, where)]
        if ck.quick:
            cs = r.sample(cs, min(len(cs), 40))
        while cs and not ck.violations:
            go(cs[:120], (sets, where, exe, spec), -len(cs))
            cs = cs[120:]


# ---------------------------------------------------------------- session kinds
def rt(n=8, **kw):
    return lambda b, g, t, ds: codec.roundtrip(b, g, t, ds, n, overlong=b.r.random() < .6, **kw)


def st(n=8, **kw):
    return lambda b, g, t, ds: codec.streams(b, g, t, ds, n, **kw)


def bufs(n=6):
    return lambda b, g, t, ds: codec.buffers(b, g, t, ds, n)


PAIRS = [("v2", "v2"), ("v2", "v2"), ("v2", "v1"), ("v1", "v2"), ("v2", "v1x"), ("v1x", "v2")]


def grt(n=8, pairs=PAIRS, **kw):
    def f(b, g, trees, ds, m):
        r = b.r
        e, d = r.choice(pairs)
        tok = r.choice([0, 0, 1, 3]) if d == "v2" else 0
        s = codec.roundtrip(b, g, trees, ds, n, overlong=r.random() < .6, load=gensets.loads(m, trees, True),
                            kinds=(e[:2], d[:2]), names=[m], tok=tok, **kw)
        for o in s["ops"]:
            if o["op"] == "enc_new" and e == "v1x" or o["op"] == "dec_new" and d == "v1x":
                o["docs"] = ["d0"]
        return s
    return f


def gst(n=8, **kw):
    def f(b, g, trees, ds, m):
        return codec.streams(b, g, trees, ds, n, load=gensets.loads(m, trees, False), kind="v2", names=[m],
                             tok=b.r.choice([0, 0, 1, 3]), **kw)
    return f


def gbufs(n=6):
    return lambda b, g, t, ds, m: codec.buffers(b, g, t, ds, n, load=gensets.loads(m, t, True), kind="v2", names=[m])


def gtok(n=14):
    def f(b, g, t, ds, m):
        return codec.tokens(b, g, t, ds, n, b.r.choice([0, 1, 3, 3]), gensets.loads(m, t, True), [m],
                            b.r.choice(["v1", "v2"]))
    return f


def v1tok(n=14):
    """the interpreting decoder: what it returned last stays as it is until the next decode"""
    def f(b, g, t, ds):
        return codec.roundtrip(b, g, t, ds, n)
    return f


OPS = {"none": 1, "constant": 1, "default": 3, "copy": 5, "increment": 4, "delta": 5, "tail": 4}
ONEOF = {"none": 1, "constant": 1, "default": 1, "copy": 1, "increment": 1, "delta": 1, "tail": 1}


def P01(ck):
    run(ck, Plan(cfgs=[{}, dict(ops=OPS), dict(kinds=SCALARS, fields=(1, 3), templates=(1, 2))],
                 xml=[(40, rt(10)), (10, rt(25)), (1, rt(120)), (10, rt(8, p_reset=.3))], sessions=650))
    explore_cells(ck, ["single", "split", "nested"], 40)
    f1(ck)


def P02(ck):
    run(ck, Plan(gen=[(4, grt(10)), (1, grt(24)), (2, gst(8))], gen_n=8, gen_sessions=700))
    explore_cells(ck, [], 0, gen=(["single", "split"], None))
    explore_cells(ck, [], 0, gen=(["pairs", "nested"], 240))


def P03(ck):
    run(ck, Plan(cfgs=[dict(ops=OPS), dict(kinds=SCALARS, fields=(1, 4)), {}], xml=[(1, rt(10)), (1, bufs(5))],
                 gen=[(1, grt(10, pairs=[("v2", "v1"), ("v2", "v2")]))], sessions=500, gen_sessions=200))
    explore_cells(ck, ["single", "split"], 40)


def P04(ck):
    run(ck, Plan(cfgs=[dict(ops=OPS), dict(kinds=SCALARS, fields=(1, 4)), {}], xml=[(3, st(10)), (1, st(10, overlong=.4))],
                 gen=[(1, gst(10))], sessions=600, gen_sessions=250))
    explore_cells(ck, ["feed"], 50)


def P05(ck):
    run(ck, Plan(cfgs=[dict(ops=OPS, kinds=SCALARS, fields=(1, 4), templates=(1, 2)),
                       dict(ops=ONEOF, kinds=SCALARS, fields=(1, 2), templates=(1, 1), p_opt=.6)],
                 xml=[(1, rt(10)), (1, rt(6)), (2, st(12))], gen=[(1, grt(10)), (1, gst(12))],
                 sessions=600, gen_sessions=250))
    explore_cells(ck, ["single", "split"], 60, gen=(["single", "split"], None))
    explore_cells(ck, ["shared"], 90, gen=(["shared"], None))
    f1(ck)


def P06(ck):
    c = dict(p_ctx=.6, p_dict=.5, p_ns=.2, fields=(2, 5), templates=(2, 3), ops={"copy": 4, "increment": 3, "delta": 4, "tail": 2, "default": 1},
             kinds=dict(i32=2, u32=2, i64=2, u64=2, asc=2, bv=1, uni=1, dec=1, sdec=1, enum=1, grp=2, seq=2, tref=1))
    run(ck, Plan(cfgs=[c, dict(c, kinds=dict(i32=3, u32=1, grp=2, seq=2, tref=1, asc=1)), dict(c, docs=(2, 2))], xml=[(2, rt(12)), (1, st(8))],
                 gen=[(1, grt(12))], gencfg=dict(p_ctx=.5, p_dict=.4, p_ns=.15), genname="gk", gen_n=4, sessions=600, gen_sessions=120))
    explore_cells(ck, ["pairs"], 70, gen=(["pairs", "nested"], 240))


def P07(ck):
    c = dict(p_reset=.5, templates=(2, 3), fields=(1, 4), ops=OPS)
    n = dict(c, kinds=dict(SCALARS, nest=6, tref=2, grp=2, seq=2))
    run(ck, Plan(cfgs=[c, dict(c, depth=1), n], xml=[(3, rt(12, p_reset=.25)), (2, st(8, p_reset=.3))],
                 gen=[(2, grt(12, p_reset=.25)), (1, gst(8, p_reset=.3))], gencfg=dict(p_reset=.5), genname="gr", gen_n=4,
                 sessions=450, gen_sessions=200))
    explore_cells(ck, ["resets"], 60)


def P08(ck):
    small = dict(i32=4, u32=4, i64=1, u64=1, asc=1, bool=2, sdec=2, grp=2, seq=2)
    ops = {"copy": 5, "increment": 3, "default": 5, "constant": 2, "tail": 1, "none": 1}
    cs = [dict(kinds=small, ops=ops, fields=(lo, hi), templates=(1, 2), depth=1) for lo, hi in
          ((5, 8), (6, 16), (12, 30), (25, 70)) + (() if ck.quick else ((118, 136),))] + [dict(kinds=dict(grp=3, i32=3, seq=2, tref=1), ops=ops, fields=(1, 6), depth=3)]
    run(ck, Plan(cfgs=cs, xml=[(2, rt(5)), (1, rt(3)), (1, st(4, overlong=.3))], gen=[(2, grt(6)), (1, gst(5))],
                 gencfg=dict(ops=ops, fields=(4, 14), kinds=dict(small, tref=1), templates=(1, 2)), genname="gp", gen_n=4,
                 sessions=150, gen_sessions=80))


def P09(ck):
    c = dict(kinds=NESTED, depth=3, fields=(1, 4), p_len_op=.7, templates=(2, 3))
    run(ck, Plan(cfgs=[c, dict(c, kinds=dict(i32=2, asc=1, seq=4, grp=3, tref=2)), dict(c, depth=2, kinds=dict(NESTED, nest=8))],
                 xml=[(3, rt(7)), (1, st(5))], gen=[(2, grt(8)), (1, gst(6))],
                 gencfg=dict(kinds=dict(i32=2, asc=1, u32=1, seq=4, grp=3, tref=2, dec=1), depth=3, p_len_op=.7, fields=(1, 4)),
                 genname="gn", gen_n=4, sessions=350, gen_sessions=120))
    explore_cells(ck, ["nested"], 50)


def P10(ck):
    kw = dict(mut=.5, trunc=.3)
    run(ck, Plan(cfgs=[{}, dict(ops=OPS, fields=(1, 3)), dict(kinds=NESTED, depth=2, fields=(1, 4))],
                 xml=[(3, st(10, **kw)), (1, rt(6, cut=.5)), (1, st(6, overlong=.4))], gen=[(2, gst(10, **kw)), (1, grt(6, cut=.5))],
                 flavor="asan", sessions=500, gen_sessions=200, gen_n=4))
    explore_cells(ck, ["feed"], 40, flavor="asan")


def P11(ck):
    run(ck, Plan(cfgs=[{}, dict(kinds=NESTED, depth=2, fields=(1, 4)), dict(kinds=SCALARS, fields=(1, 12))],
                 xml=[(1, bufs(6))], gen=[(1, gbufs(6))], flavor="asan", sessions=350, gen_sessions=150, gen_n=4))


def P23(ck):
    run(ck, Plan(xml=[(1, rt(10))], gen=[(1, gtok(16))], sessions=60, gen_sessions=400, flavor="asan", gen_n=6))


def P24(ck):
    kw = dict(cut=.25, small=.3, junk=.1)
    run(ck, Plan(cfgs=[{}, dict(ops=OPS, fields=(1, 4)), dict(kinds=NESTED, depth=2, fields=(1, 4))],
                 xml=[(3, rt(10, **kw)), (1, st(10, mut=.3, trunc=.2))], gen=[(2, grt(10, **kw)), (1, gst(10, mut=.3, trunc=.2))],
                 sessions=450, gen_sessions=200, flavor="asan", gen_n=4))
    explore_cells(ck, ["feed"], 30, flavor="asan")


# ---------------------------------------------------------------- the recorded finding F1
def f1(ck):
    """an absent optional field with the default operator and an initial value is sent as 'take the
    initial value': pinned by the existing tests, so listed and not repaired"""
    exe = ck.exe
    b = codec.Batch(0)
    t = node("templates", {}, [node("template", {"name": "A", "id": 1}, [
        node("int32", {"name": "f", "presence": "optional"}, [node("default", {}, [], "5")])])])
    ds = b.docset([t])
    ops = codec.loads([t]) + codec.news([t]) + [
        {"op": "msg", "m": "m", "tid": 1}, {"op": "set", "m": "m", "v": [None]},
        {"op": "enc", "c": "e", "m": "m", "reset": False, "size": 100},
        {"op": "dec", "c": "d", "src": "e", "reset": False}]
    b.add(ds, ops)
    R = codec.run_batch(b, exe=exe)
    v = R["verdicts"][1]
    if v[0] == "ACC":
        return
    enc = [r for r in R["results"][1][0] if r["i"] == 5]
    if v[1] == 5 and enc and enc[0].get("b") in ("c081", "8081") or enc and enc[0].get("b") == "80":
        ck.known_finding("F1")
    else:
        ck.violation(describe(b.sessions[0], R), {"kind": "codec", "flavor": "plain", "gen": None,
                                                  "session": b.sessions[0], "docs": [t]})


CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "P" and k[1:].isdigit()}
KINDS = ["codec"]
