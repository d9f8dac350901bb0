"""P19 and P20: what loaded documents, and descriptions generated from them, say is validated against Templates.tla"""
import json, os, random, shutil, tempfile
import build, codec, conv, gencode, templates, tla
from gen import to_xml
import checks_codec as cc

KINDS = ["templates", "generated"]
ToolError = tla.ToolError


def tagged(d):
    """the initial values of a dump in the form of the specification"""
    d["init"] = conv.tag(d["init"])
    for k in ("sub", "len", "ma"):
        for x in d[k]:
            tagged(x)
    return d


def events(sess, results, end):
    ev, k, errs = [], 0, {}
    for r in results:
        o = sess["ops"][r["i"]]
        err = r.get("err", "")
        if err.startswith("std:harness"):
            raise ToolError("session %s op %d: %s" % (sess["id"], r["i"], err))
        if r.get("fatal"):
            break
        if o["op"] == "load":
            k += 1
            errs[k] = err
            if err:
                ev.append({"op": "load", "i": r["i"], "ds": sess["ds"], "k": k, "err": err})
        elif o["op"] == "gen":
            k += 1
            errs[k] = err
            if err:
                ev.append({"op": "gen", "i": r["i"], "ds": sess["ds"], "k": k, "err": err})
        elif o["op"] == "walk" and errs.get(o["k"] + 1) == "":
            ev.append({"op": "walk", "i": r["i"], "ds": sess["ds"], "k": o["k"] + 1, "err": "", "w": r["w"]})
        elif o["op"] == "dump" and errs.get(o["k"] + 1) == "":
            d = r["d"]
            for t in d["ts"]:
                tagged(t)
            ev.append({"op": o["how"], "i": r["i"], "ds": sess["ds"], "k": o["k"] + 1, "err": "", "d": d})
    ev.append({"op": "end", "i": len(results), "st": end})
    return ev


def run_batch(b, exe, opts=""):
    work = tempfile.mkdtemp(prefix="tmpl-")
    try:
        stats = {}
        res = codec.execute(exe, b.sessions, work)
        evs = {s["id"]: events(s, *res[s["id"]]) for s in b.sessions}
        def write(k, mine):
            ft = os.path.join(work, "t%d.trace" % k)
            used = sorted({e["ds"] for i in mine for e in evs[i] if "ds" in e})
            m = {d: j + 1 for j, d in enumerate(used)}
            fd = os.path.join(work, "d%d" % k)
            with open(fd, "w") as f:
                for d in used:
                    f.write(json.dumps({"trees": b.docsets[d]}) + "\n")
            with open(ft, "w") as f:
                for i in mine:
                    f.write(json.dumps({"id": i, "ev": [dict(e, ds=m[e["ds"]]) if "ds" in e else e for e in evs[i]]}) + "\n")
            return {"TRACE": ft, "DOCS": fd}
        v = tla.validate("TraceTemplates", list(evs), write, work, stats=stats, shards=8)
        return {"verdicts": v, "results": res, "stats": stats, "events": evs}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(d):
    if d["kind"] == "generated":
        s = d["session"]
        name = s["ops"][0]["gen"].rsplit("_", 1)[0]
        ops, exe, wd = generated({name: d["docs"]}, "replay")
        try:
            s["ops"] = ops[name]
            return cc.replay(d, run_batch, exe=exe)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    return cc.replay(d, run_batch, exe=build.binary("loader", ["loader.cpp"], d["flavor"]))


def cut(d):
    return json.dumps(d)[:900]


def session(b, trees, r):
    ds = b.docset(trees)
    ops = []
    for i, t in enumerate(trees):
        ops.append({"op": "load", "xml": templates.text(r, t)})
        ops.append({"op": "dump", "k": i, "how": "load"})
    if len(trees) > 1:       # later documents change nothing about earlier ones
        ops += [{"op": "dump", "k": i, "how": "again"} for i in range(len(trees) - 1)]
    b.add(ds, ops)


def P19(ck):
    exes = [("plain", build.binary("loader", ["loader.cpp"], "plain")), ("std", build.binary("loader", ["loader.cpp"], "std"))]
    ck.start_clock()
    k = 0
    while True:
        for fl, x in exes:
            b = codec.Batch("P19-%d-%d-%s" % (ck.seed, k, fl))
            n = 1400 if ck.quick else 2000
            for _ in range(n if fl == "plain" else n // 4):
                g = templates.Docs(b.r, std=fl == "std")
                session(b, g.docs(), b.r)
            R = run_batch(b, x)
            cc.judge(ck, b, R, x, fl, None, "templates", run_batch)
            if k == 0 and fl == "plain":
                for s in b.sessions:
                    if R["verdicts"][s["id"]][0] == "ACC" and len(s["ops"]) == 2 and R["events"][s["id"]][0]["err"] == "":
                        ck.sample({"document": " ".join(s["ops"][0]["xml"].split())[:900],
                                   "read back": cut(R["results"][s["id"]][0][1]["d"]), "verdict": "accepted by TraceTemplates.tla"})
                        break
        k += 1
        if ck.quick or ck.time_left() < 60 or ck.violations:
            break
    ck.cov["batches"] = k


def generated(sets, seed):
    """generates code for the sets of documents; the operations of each set's session, and the program to run them"""
    b = codec.Batch(seed)
    for s in sets:
        b.add(b.docset(sets[s]), [o for i, t in enumerate(sets[s]) for o in
                                  ({"op": "load", "xml": to_xml(t)}, {"op": "dump", "k": i, "how": "load"})])
    work = tempfile.mkdtemp(prefix="tmpl-")
    try:
        res = codec.execute(build.binary("loader", ["loader.cpp"], "plain"), b.sessions, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    dumps = {}
    for s, x in zip(sets, b.sessions):
        rs = {r["i"]: r for r in res[x["id"]][0]}
        dumps[s] = [rs.get(2 * i + 1, {}).get("d") for i in range(len(sets[s]))]
    exe, fail, wd = gencode.generate(sets, dumps)
    ops = {}
    for s in sets:
        o = []
        for i in range(len(sets[s])):
            n = "%s_%d" % (s, i)
            if n in fail:
                if fail[n] == "after":
                    break
                o.append({"op": "gen", "gen": n, "fail": fail[n]})
            else:
                o += [{"op": "gen", "gen": n}, {"op": "dump", "k": i, "how": "gen"}, {"op": "walk", "k": i, "gen": n}]
        ops[s] = o
    return ops, exe, wd


def P20(ck):
    ck.start_clock()
    k = 0
    while True:
        sets = {}
        for i in range(60 if ck.quick else 160):
            r = random.Random("P20-%d-%d-%d" % (ck.seed, k, i))
            many = r.random() < .2
            g = templates.Docs(r, gen=True, p_bad=0 if many else .12)
            sets["g%d" % i] = g.docs(2 if many else 1)
        ops, exe, wd = generated(sets, "P20")
        try:
            b = codec.Batch("P20-%d-%d" % (ck.seed, k))
            for s in sets:
                b.add(b.docset(sets[s]), ops[s])
            R = run_batch(b, exe)
            cc.judge(ck, b, R, exe, "plain", None, "generated", run_batch)
            if k == 0:
                for s in b.sessions:
                    if R["verdicts"][s["id"]][0] == "ACC" and len(s["ops"]) == 3 and "d" in R["results"][s["id"]][0][1] and "w" in R["results"][s["id"]][0][2]:
                        ck.sample({"document": " ".join(to_xml(b.docsets[s["ds"]][0]).split())[:900],
                                   "accessors": cut(R["results"][s["id"]][0][2]["w"]), "verdict": "accepted by TraceTemplates.tla"})
                        break
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        k += 1
        if ck.quick or ck.time_left() < 120 or ck.violations:
            break
    ck.cov["batches"] = k


CHECKS = {"P20": P20, "P19": P19}
