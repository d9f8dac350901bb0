"""P17, P18: JSON written for and read into message objects, validated against TraceObjects.tla (JsonText.tla)."""
import codec, gensets, jsons, objects
import checks_codec as cc
import checks_objects as co
from gen import TemplateGen

KINDS = []
NONEST = dict(i32=2, u32=2, i64=2, u64=2, dec=4, sdec=1, asc=4, uni=3, bv=3, vec=3, enum=1, bool=2, set=1, ts=1, grp=3, seq=5, tref=1)


class Writes(objects.History):
    def jenc(self):
        m = self.obj()
        if self.r.random() < .7:
            return self.add(op="jenc", m=m, w=self.r.randint(0, 1))
        x, p = self.choose(m, lambda x: x.k in ("grp", "seq"))
        if x:
            self.add(op="jenc", m=m, p=p, w=self.r.randint(0, 1))


class Reads(objects.History):
    docs = None

    def jdec(self):
        r = self.r
        if self.docs is None:
            self.docs = jsons.Docs(r, odd=r.choice([0, 0, .03, .1]), unknown=r.choice([0, 0, .1, .3]))
        m = self.obj()
        if m is None:
            return
        x = r.random()
        if x < .12:
            o = [a for a in sorted(self.live) if a != m and self.live[a] == self.live[m]]
            if o:
                return self.add(op="jdec", m=m, of=r.choice(o))
        if x < .25:
            x, p = self.choose(m, lambda x: x.k == "seq")
            if x:
                b, unk = self.docs.doc(x.f)
                self.add(op="jdec", m=m, p=p, x="x" + b.hex(), unk=unk)
                if unk:
                    self.renew(m)
                return
        b, unk = self.docs.doc(self.g.ids[self.live[m]])
        self.add(op="jdec", m=m, x="x" + b.hex(), unk=unk)
        if unk:
            self.renew(m)

    def renew(self, m):
        """what an object hides after a document that was not read completely is not known"""
        t = self.live.pop(m)
        self.add(op="odel", m=m)
        self.new(t)


class Tags(Writes, Reads):
    """with masks"""
    def jtag(self):
        n = len(self.ops)
        jm, im = self.r.choice([0, 1, 1, 2, 4, 3, 15]), self.r.choice([None, None, 0, 1, 2, 4, 6])
        if self.r.random() < .5:
            self.jenc()
        else:
            if self.docs is None:
                self.docs = jsons.Docs(self.r, odd=self.r.choice([0, 0, .05]), unknown=0)
            self.docs.jm = jm
            self.jdec()
        for o in self.ops[n:]:
            if o["op"] in ("jenc", "jdec"):
                o["jm"] = jm
                if o["op"] == "jenc" and im is not None:
                    o["im"] = im
                if "of" in o:
                    o["unk"] = True
                    self.renew(o["m"])

    def value(self, x):
        if x.f.tag and x.f.k == "bv" and self.r.random() < .8:
            d = jsons.Docs(self.r, odd=0, unknown=0)
            return "x" + d.tree().encode("utf-8", "surrogateescape").hex()
        return Writes.value(self, x)


def history(cls, op, r, g, mix, gen, n):
    h = cls(r, g, dict(mix, **{op: 60}), gen=gen)
    return h.run(n)


def batch(seed, n, cls, op, cfgs, mix, sets=None, steps=(20, 30), tags=0):
    b = codec.Batch(seed)
    r = b.r
    dss = {m: b.docset(t) for m, (g, t) in (sets or {}).items()}
    while len(b.sessions) < n:
        if sets:
            m = r.choice(sorted(sets))
            g, trees = sets[m]
            b.add(dss[m], gensets.loads(m, trees, True) + history(cls, op, r, g, mix, True, r.choice(steps)))
            continue
        g = TemplateGen(r, **r.choice(cfgs))
        trees = g.docset()
        if tags:
            jsons.tagged(r, trees, g, tags)
        jsons.unname(r, trees, g, .3)
        jsons.rename(r, trees, [g])
        ds = b.docset(trees)
        for _ in range(3):
            b.add(ds, codec.loads(trees) + history(cls, op, r, g, mix, False, r.choice(steps)))
    return b


def run(ck, cls, op, cfgs, mix, sessions, gen_sessions, gencfg, genname, flavor="asan", tags=0):
    seed = 20 if ck.quick else 20 + 1000 * ck.seed
    genspec = [seed, 4 if ck.quick else 8, genname if ck.quick else genname + "t", gencfg]
    sets = gensets.sets(seed, genspec[1], genspec[2], **gencfg)
    exe = gensets.driver(sets, flavor)
    ck.start_clock()
    k = 0
    while True:
        for kind, n in (("xml", sessions), ("gen", gen_sessions)):
            sd = "%s-%d-%d-%s" % (ck.prop, ck.seed, k, kind)
            b = batch(sd, n, cls, op, cfgs, mix, sets if kind == "gen" else None, tags=tags)
            R = objects.run_batch(b, exe)
            cc.judge(ck, b, R, exe, flavor, genspec, "objects", objects.run_batch)
            s = sample(b, R, op)
            if s and k == 0:
                ck.sample(s)
        k += 1
        if ck.quick or ck.time_left() < 30 or ck.violations:
            break
    ck.cov["batches"] = k


def sample(b, R, op):
    for s in b.sessions:
        if R["verdicts"][s["id"]][0] == "ACC":
            rs = [r for r in R["results"][s["id"]][0] if s["ops"][r["i"]]["op"] in (op, "jenc") and not r.get("skip") and len(r["x"]) > 60]
            if rs:
                docs = [o["xml"] for o in s["ops"] if o["op"] == "load" and "xml" in o]
                return {"templates": " ".join((docs or ["generated"])[0].split())[:900],
                        "texts": [bytes.fromhex(r["x"][1:])[:400].decode("utf-8", "backslashreplace") + (" => rejected" if r.get("rej") else "") for r in rs[:3]],
                        "verdict": "accepted by TraceObjects.tla"}


def P17(ck):
    run(ck, Writes, "jenc", [dict(kinds=co.ALL, templates=(1, 3)), dict(kinds=dict(co.ALL, nest=5, seq=6), fields=(1, 3), templates=(1, 3)),
                             dict(kinds=NONEST, depth=3, fields=(1, 4), templates=(1, 2))],
        dict(obj=3, scalar=12, vec=25, dec=15, seq=12, grp=6, nest=6, cmp=0), 450, 120, {}, "gs")


def P18(ck):
    run(ck, Reads, "jdec", [dict(kinds=NONEST, templates=(1, 2), uniq_tref=True), dict(kinds=dict(NONEST, seq=8, grp=5), depth=3, fields=(1, 4), templates=(1, 2), uniq_tref=True)],
        dict(obj=6, scalar=6, vec=6, dec=4, seq=4, grp=3, nest=0, cmp=0), 600, 150, dict(kinds=dict(NONEST, vec=0), uniq_tref=True), "gj")


def P26(ck):
    kinds = dict(i32=2, u64=1, dec=2, asc=2, bv=10, vec=1, enum=1, grp=4, seq=6, tref=1)
    run(ck, Tags, "jtag", [dict(kinds=kinds, templates=(1, 2), uniq_tref=True), dict(kinds=dict(bv=6, i32=1, seq=6, grp=4), depth=3, fields=(1, 3), templates=(1, 2), uniq_tref=True)],
        dict(obj=6, scalar=25, vec=12, dec=4, seq=8, grp=4, nest=0, cmp=0), 300, 90, dict(kinds=dict(kinds, vec=0), uniq_tref=True, tags=.3), "gt", tags=.3)


CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "P" and k[1:].isdigit()}
