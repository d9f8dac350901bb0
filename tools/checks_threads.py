"""P27: sessions in threads of their own, which share descriptions only. Each trace is validated as if it were alone; the
library is built with ThreadSanitizer, so that a step of one session which touches what another one uses ends the process."""
import random
import build, checks_codec as cc, checks_json as cj, codec, gensets, jsons, objects, tla
from gen import TemplateGen

KINDS = ["threads"]
N = 6
MIX = dict(obj=8, scalar=20, vec=8, dec=8, seq=8, grp=5, nest=2, cmp=6)


class Jsons(cj.Writes, cj.Reads):
    def jboth(self):
        self.jenc() if self.r.random() < .6 else self.jdec()


def groups(seed, n, mk):
    """batches whose sessions come in groups of N with one set of templates each"""
    b = codec.Batch(seed)
    while len(b.sessions) < n * N:
        mk(b, b.r)
        assert len(b.sessions) % N == 0
    return b


def coders(b, r):
    g = TemplateGen(r, **r.choice([{}, dict(ops=cc.OPS, fields=(2, 6)), dict(kinds=cc.NESTED, depth=2, fields=(1, 4))]))
    trees = g.docset()
    ds = b.docset(trees)
    own = r.random() < .3
    for _ in range(N):
        n = len(b.sessions)
        r.choice([cc.rt(5), cc.rt(5), cc.st(4), cc.rt(5, cut=.3)])(b, g, trees, ds)
        assert len(b.sessions) == n + 1
        b.sessions[-1]["own"] = own


def generated(sets):
    def f(b, r):
        m = r.choice(sorted(sets))
        g, trees = sets[m]
        ds = b.docset(trees)
        for _ in range(N):
            n = len(b.sessions)
            r.choice([cc.grt(6), cc.grt(6), cc.gst(5)])(b, g, trees, ds, m)
            assert len(b.sessions) == n + 1
    return f


def messages(sets):
    def f(b, r):
        m = r.choice(sorted(sets)) if r.random() < .5 else None
        if m:
            g, trees = sets[m]
        else:
            g = TemplateGen(r, kinds=cj.NONEST, templates=(1, 2), uniq_tref=True)
            trees = g.docset()
        ds = b.docset(trees)
        own = r.random() < .3
        for _ in range(N):
            load = gensets.loads(m, trees, True) if m else codec.loads(trees)
            if r.random() < .5:
                b.add(ds, load + cj.history(Jsons, "jboth", r, g, dict(MIX, nest=0), bool(m), 15))
            else:
                b.add(ds, load + objects.History(r, g, MIX, gen=bool(m)).run(20))
            b.sessions[-1]["own"] = own
    return f


def together(b, sid):
    i = [s["id"] for s in b.sessions].index(sid) // N * N
    c = codec.Batch(0)
    c.sessions, c.docsets = b.sessions[i:i + N], b.docsets
    return c


def judge(ck, b, R, exe, genspec, rb, name):
    acc, bad = 0, []
    for k in range(0, len(b.sessions), N):
        g = b.sessions[k:k + N]
        rej = [s for s in g if R["verdicts"][s["id"]][0] != "ACC"]
        acc += len(g) - len(rej)
        for s in g:
            v = R["verdicts"][s["id"]]
            if v[0] == "ACC":
                ck.count(v[1])
        if rej:
            bad.append(rej[0])
    for s in bad[:6]:
        if len(ck.violations) >= 3:
            break
        c = together(b, s["id"])
        for _ in range(4):
            R2 = rb(c, exe=exe, group=N)
            again = [x for x in c.sessions if R2["verdicts"][x["id"]][0] != "ACC"]
            if again:
                break
        if not again:
            ck.note("a rejection did not happen again: %s" % cc.describe(s, R)[:300])
            continue
        ck.violation("one of %d threads: " % N + cc.describe(again[0], R2),
                     {"kind": "threads", "gen": genspec, "of": name, "sessions": c.sessions,
                      "docs": {str(x["ds"]): b.docsets[x["ds"]] for x in c.sessions}})
    ck.traces(acc)
    ck.model(R["stats"].get("states", 0), R["stats"].get("transitions", 0))


def replay(d):
    seed, n, name, cfg = d["gen"]
    exe = gensets.driver(gensets.sets(seed, n, name, **cfg), "tsan")
    b = codec.Batch(0)
    b.sessions = d["sessions"]
    b.docsets = {type(b.sessions[0]["ds"])(k): v for k, v in d["docs"].items()}
    rb = objects.run_batch if d["of"] == "messages" else codec.run_batch
    for _ in range(4):
        R = rb(b, exe=exe, group=N)
        for s in b.sessions:
            if R["verdicts"][s["id"]][0] != "ACC":
                print(cc.describe(s, R))
                return True
    print("accepted")
    return False


def P27(ck):
    cfg = dict(kinds=dict(gensets.KINDS, nest=0), uniq_tref=True)
    genspec = [31 if ck.quick else 31 + 1000 * ck.seed, 3 if ck.quick else 6, "gh" if ck.quick else "ght", cfg]
    sets = gensets.sets(*genspec[:3], **cfg)
    exe = gensets.driver(sets, "tsan")
    ck.start_clock()
    rc, out = tla.tlc("Threads", workers=4)
    if rc:
        raise tla.ToolError("the model Threads: " + tla.errline(out))
    g, n = tla.counts(out)
    ck.model(n, g)
    k = 0
    while True:
        for name, n, mk, rb in (("coders", 22, coders, codec.run_batch), ("generated", 22, generated(sets), codec.run_batch),
                                ("messages", 22, messages(sets), objects.run_batch)):
            b = groups("P27-%d-%d-%s" % (ck.seed, k, name), n, mk)
            R = rb(b, exe=exe, group=N)
            judge(ck, b, R, exe, genspec, rb, name)
            if k == 0 and name == "coders":
                s = cc.good_sample(b, R)
                if s:
                    ck.sample(s)
        k += 1
        if ck.quick or ck.time_left() < 60 or ck.violations:
            break
    ck.cov["batches"] = k


CHECKS = {"P27": P27}
