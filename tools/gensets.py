"""Template sets compiled with fast_type_gen for the generated-code (v2) coders."""
import os, random, time
import build, codec, jsons, views
from gen import TemplateGen, to_xml

KINDS = {"i32": 3, "u32": 3, "i64": 3, "u64": 3, "dec": 3, "sdec": 3, "asc": 3, "uni": 2, "bv": 2, "vec": 0,
         "enum": 1, "bool": 1, "set": 1, "ts": 0, "grp": 2, "seq": 2, "nest": 1, "tref": 1}


def sets(seed=20, n=8, prefix="gs", views_per=0, tags=0, **cfg):
    """-> {name: (TemplateGen, trees)}"""
    out = {}
    for i in range(n):
        r = random.Random("%s-%d-%d" % (prefix, seed, i))
        c = dict(dict(kinds=KINDS, fields=(2, 7), depth=2, templates=(2, 3), p_field_elem=.0, uniq_tref=True), **cfg)
        g = TemplateGen(r, **c)
        trees = g.docset()
        if tags:
            jsons.tagged(r, trees, g, tags)
        if views_per:
            g.views = views.add(r, g, trees, views_per)
        out["%s%d" % (prefix, i)] = (g, trees)
    return out


def driver(ss, flavor="plain", name="gdriver"):
    gen, srcs = {}, {}
    for n, (g, trees) in ss.items():
        assert len(trees) == 1
        gen[n] = to_xml(trees[0])
        srcs["reg_%s.cpp" % n] = \
            '#include "coders.h"\n#include "%s.h"\nREGISTER_GEN1(%s, %s::templates_description)\n' % (n, n, n)
        names = {c["a"]["name"]: c["a"]["reference"] for c in trees[0]["c"] if c["t"] == "view"}
        srcs["reg_%s.cpp" % n] += "".join("REGISTER_VIEW(%s, %s, %s)\n" % (n, v, names[v]) for v in names)
    return build.binary(name, ["driver.cpp"], flavor, gen=gen, gensrc=srcs)


def loads(name, trees, xml):
    l = [{"op": "load", "doc": name, "gen": name, "first": True}]
    return l + (codec.loads(trees) if xml else [])


def fill(b, ss, per=4, msgs=8, overlong=.3, mode="rt", **kw):
    """sessions over the generated sets: every pairing of generated-code and dynamic coders"""
    r = b.r
    for n, (g, trees) in ss.items():
        ds = b.docset(trees)
        for k in range(per):
            if mode == "rt":
                e, d = r.choice([("v2", "v2"), ("v2", "v2"), ("v2", "v1"), ("v1", "v2"), ("v2", "v1x"), ("v1x", "v2")])
                tok = r.choice([0, 0, 1, 3]) if d == "v2" else 0
                s = codec.roundtrip(b, g, trees, ds, msgs, overlong=r.random() < .6, load=loads(n, trees, True),
                                    kinds=(e[:2], d[:2]), names=[n], tok=tok, **kw)
                for o in s["ops"]:
                    if o["op"] == "enc_new" and e == "v1x" or o["op"] == "dec_new" and d == "v1x":
                        o["docs"] = ["d0"]
                s["pair"] = [e, d, tok]
            else:
                tok = r.choice([0, 0, 1, 3])
                s = codec.streams(b, g, trees, ds, msgs, mut=.2 if mode == "mut" else 0, trunc=.1 if mode == "mut" else 0,
                                  load=loads(n, trees, False), kind="v2", names=[n], tok=tok)
                s["pair"] = ["-", "v2", tok]
    return b


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=20)
    ap.add_argument("--n", type=int, default=8)
    ap.add_argument("--per", type=int, default=20)
    ap.add_argument("--mode", default="rt")
    ap.add_argument("--flavor", default="plain")
    ap.add_argument("--show", type=int, default=2)
    a = ap.parse_args()
    t = time.time()
    ss = sets(a.seed, a.n, "gs" if a.seed == 20 else "g%d_" % a.seed)
    exe = driver(ss, a.flavor)
    print(exe, time.time() - t)
    b = fill(codec.Batch(a.seed), ss, a.per, mode=a.mode)
    codec.report(b, codec.run_batch(b, exe=exe), a.show)
