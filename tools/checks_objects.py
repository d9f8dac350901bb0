"""The checks that mutate message objects and validate what they show against TraceObjects.tla."""
import build, codec, gensets, objects, views
import checks_codec as cc
from gen import TemplateGen

KINDS = ["objects"]
ALL = dict(i32=2, u32=1, i64=1, u64=1, dec=3, sdec=2, asc=3, uni=2, bv=2, vec=3, enum=1, bool=1, set=1, ts=1, grp=3, seq=5,
           nest=2, tref=1)


def replay(d):
    return cc.replay(d, objects.run_batch)


def history(r, g, mix, gen=False, viewed=None):
    h = objects.History(r, g, mix, gen=gen)
    h.views = viewed or {}
    return h


def xml_batch(seed, n, cfgs, mix, steps, viewed=False):
    b = codec.Batch(seed)
    r = b.r
    while len(b.sessions) < n:
        g = TemplateGen(r, **r.choice(cfgs))
        trees = g.docset()
        vs = views.add(r, g, trees) if viewed else {}
        ds = b.docset(trees)
        for _ in range(3):
            b.add(ds, codec.loads(trees) + history(r, g, mix, viewed=vs).run(r.choice(steps)))
    return b


def gen_batch(seed, n, sets, mix, steps):
    b = codec.Batch(seed)
    r = b.r
    dss = {m: b.docset(t) for m, (g, t) in sets.items()}
    while len(b.sessions) < n:
        m = r.choice(sorted(sets))
        g, trees = sets[m]
        b.add(dss[m], gensets.loads(m, trees, True) + history(r, g, mix, m, getattr(g, "views", {})).run(r.choice(steps)))
    return b


def sample(b, R):
    for s in b.sessions:
        v = R["verdicts"][s["id"]]
        if v[0] == "ACC" and v[1].get("skip", 0) < 5 if isinstance(v[1], dict) else v[0] == "ACC":
            rs = R["results"][s["id"]][0]
            docs = [o["xml"] for o in s["ops"] if o["op"] == "load" and "xml" in o]
            return {"templates": " ".join((docs or ["generated"])[0].split())[:900],
                    "history": [cc.cut(s["ops"][r["i"]]) + " => " + cc.cut({k: v for k, v in r.items() if k not in ("i", "s")})
                                for r in rs if s["ops"][r["i"]]["op"] in ("mut", "ocopy", "oassign", "cmp")][:5],
                    "verdict": "accepted by TraceObjects.tla"}


def run(ck, mix, cfgs=None, sessions=700, gen_sessions=200, steps=(30, 40, 60), genname="gs", gen_n=6, gencfg=None, flavor="asan",
        more=None, viewed=False):
    cfgs = [dict(dict(kinds=ALL, templates=(1, 3)), **c) for c in cfgs or [{}]]
    seed = 20 if ck.quick else 20 + 1000 * ck.seed
    genspec = [seed, gen_n if ck.quick else gen_n + 6, genname if ck.quick else genname + "t", gencfg or {}]
    sets = gensets.sets(seed, genspec[1], genspec[2], **genspec[3])
    exe = gensets.driver(sets, flavor)
    ck.start_clock()
    k = 0
    while True:
        for kind, n in (("xml", sessions), ("gen", gen_sessions)):
            sd = "%s-%d-%d-%s" % (ck.prop, ck.seed, k, kind)
            b = xml_batch(sd, n, cfgs, mix, steps, viewed) if kind == "xml" else gen_batch(sd, n, sets, mix, steps)
            R = objects.run_batch(b, exe)
            cc.judge(ck, b, R, exe, flavor, genspec, "objects", objects.run_batch)
            s = sample(b, R)
            if s and k == 0:
                ck.sample(s)
        if more:
            more(ck, k, sets, exe, flavor, genspec)
        k += 1
        if ck.quick or ck.time_left() < 30 or ck.violations:
            break
    ck.cov["batches"] = k


def coders(ck, k, sets, exe, flavor, genspec):
    """coders and messages with allocators of their own, all given back at the end, failures included"""
    kw = dict(cut=.25, small=.3, junk=.1)
    for kind, n in (("xml", 200), ("gen", 100)):
        b = codec.Batch("%s-%d-%d-c%s" % (ck.prop, ck.seed, k, kind))
        r = b.r
        dss = {m: b.docset(t) for m, (g, t) in sets.items()}
        while len(b.sessions) < n:
            if kind == "xml":
                g = TemplateGen(r, **r.choice([{}, dict(kinds=cc.NESTED, depth=2, fields=(1, 4))]))
                trees = g.docset()
                ds = b.docset(trees)
                for f in (cc.rt(8, **kw), cc.st(8, mut=.3, trunc=.2)):
                    f(b, g, trees, ds)
            else:
                m = r.choice(sorted(sets))
                g, trees = sets[m]
                for f in (cc.grt(8, **kw), cc.gst(8, mut=.3, trunc=.2), cc.gtok(8)):
                    f(b, g, trees, dss[m], m)
        R = codec.run_batch(b, exe=exe)
        cc.judge(ck, b, R, exe, flavor, genspec)


def in_arena(ck, k, exe, flavor):
    """messages that live in arenas, some beside others in the heap"""
    b = codec.Batch("%s-%d-%d-arena" % (ck.prop, ck.seed, k))
    r = b.r
    while len(b.sessions) < 150:
        g = TemplateGen(r, **dict(kinds=ALL, templates=(1, 3)))
        trees = g.docset()
        ds = b.docset(trees)
        for _ in range(3):
            b.add(ds, codec.loads(trees) + objects.History(r, g, dict(vec=30, seq=25), als="ZZZA").run(50))
    R = objects.run_batch(b, exe)
    cc.judge(ck, b, R, exe, flavor, None, "objects", objects.run_batch)


def P12(ck):
    run(ck, dict(obj=22, grp=10, nest=8, seq=15, scalar=25, vec=10, dec=10, cmp=5),
        [{}, dict(depth=3, fields=(1, 4), kinds=dict(i32=2, asc=2, dec=1, vec=1, grp=4, seq=4, nest=3, tref=2)), dict(fields=(1, 3), depth=1)])


def P13(ck):
    run(ck, dict(obj=20, vec=25, seq=20, nest=6), [{}, dict(depth=3, fields=(1, 4), kinds=dict(asc=3, bv=2, vec=3, grp=2, seq=5, nest=2, tref=2))],
        sessions=450, gen_sessions=150, more=coders)


def P15(ck):
    k = dict(asc=4, uni=3, bv=3, vec=4, seq=1, grp=1)
    run(ck, dict(vec=60, obj=6, cmp=8, scalar=6, dec=0, seq=5, grp=2, nest=0), [dict(kinds=k, depth=1, fields=(1, 4)), dict(kinds=k, fields=(2, 6))],
        genname="gv", gen_n=3, gencfg=dict(kinds=dict(asc=4, uni=3, bv=3, seq=1, grp=1), fields=(2, 6)))


def P16(ck):
    run(ck, dict(seq=60, obj=8, vec=8, scalar=10, dec=4, grp=3, nest=3, cmp=4),
        [dict(kinds=dict(i32=2, asc=2, dec=1, vec=1, seq=6, grp=2, nest=1, tref=1, sdec=1), depth=3, fields=(1, 4)), dict(p_len_op=.6)])


def P21(ck):
    k = dict(dec=6, sdec=4, seq=1, grp=1)
    run(ck, dict(dec=70, obj=5, cmp=15, scalar=0, vec=0, seq=3, grp=2, nest=0), [dict(kinds=k, depth=1, fields=(2, 5))],
        genname="gd", gen_n=3, gencfg=dict(kinds=k, fields=(2, 6)))


def P25(ck):
    """views of messages, described by documents and generated"""
    cfgs = [dict(p_ns=0, docs=(1, 1), **c) for c in (
        {}, dict(depth=3, fields=(2, 5), kinds=dict(i32=2, asc=2, dec=1, grp=5, seq=5, tref=2, u64=1)),
        dict(depth=2, fields=(1, 3), p_opt=.7, kinds=dict(i32=2, asc=1, grp=4, seq=4, enum=1, set=1, vec=1, nest=1)))]
    mix = dict(view=20, seq=14, grp=8, scalar=12, vec=4, dec=3, obj=6, cmp=0)
    k = dict(i32=2, asc=2, dec=1, grp=4, seq=4, tref=1, u64=1, set=1, enum=1)
    run(ck, mix, cfgs, genname="gw", gencfg=dict(views_per=4, p_ns=0, depth=3, fields=(2, 5), kinds=k), viewed=True, gen_n=4,
        steps=(15, 30), sessions=900, gen_sessions=300)


def P22(ck):
    run(ck, dict(cmp=60, obj=15, scalar=15, vec=10, dec=6, seq=8, grp=5, nest=3), [dict(fields=(1, 4), templates=(1, 2)), {}])


CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "P" and k[1:].isdigit()}
