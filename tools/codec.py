"""Coder sessions: generate, execute on the real code, validate against TraceCodec.tla."""
import concurrent.futures, json, os, random, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, conv, tla
from gen import TemplateGen, Values, Streams, mutate, to_xml


ToolError = tla.ToolError


# ------------------------------------------------------------------ execution
ASAN = "allocator_may_return_null=0:max_allocation_size_mb=3000"


def execute(exe, sessions, work, name="s", shards=8, timeout=600, asan=ASAN, group=0):
    """sessions -> {id: (list of op results, end status)}"""
    shards = max(1, min(shards, len(sessions)))

    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:" + asan)
    env.pop("MFV_GROUP", None)
    if group:       # this many sessions at once, in threads
        env.update(MFV_GROUP=str(group), TSAN_OPTIONS="halt_on_error=1:exitcode=66")

    def one(k):
        part = sessions[k::shards]
        if group:
            gs = [sessions[i:i + group] for i in range(0, len(sessions), group)]
            part = [s for g in gs[k::shards] for s in g]
        fi, fo = os.path.join(work, "%s%d.in" % (name, k)), os.path.join(work, "%s%d.out" % (name, k))
        with open(fi, "w") as f:
            for s in part:
                f.write(json.dumps(s) + "\n")
        p = subprocess.run([exe, fi, fo], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout,
                           env=env)
        if p.returncode:
            raise ToolError("driver failed: %d %s" % (p.returncode, p.stderr[-500:]))
        res = {}
        with open(fo) as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    # a line torn by the death of a session: the end line follows
                    j = line.rfind('{"end"')
                    if j < 0:
                        continue
                    r = json.loads(line[j:])
                if "end" in r:
                    res.setdefault(r["s"], [[], None])[1] = r["end"]
                else:
                    res.setdefault(r["s"], [[], None])[0].append(r)
        return res

    out = {}
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, range(shards)):
            out.update(r)
    for s in sessions:
        if s["id"] not in out or out[s["id"]][1] is None:
            raise ToolError("driver lost session %s" % s["id"])
    return out


# ------------------------------------------------------------------ events
def events(sess, results, end):
    """operations and results -> the events of TraceCodec.tla"""
    ev, kept, msgs, bytes_of = [], {}, {}, {}
    ds = sess["ds"]
    kdoc = 0

    def add(i, **e):
        e["i"] = i
        ev.append(e)

    for r in results:
        i = r["i"]
        o = sess["ops"][i]
        op = o["op"]
        err = r.get("err", "")
        if err.startswith("std:harness"):
            raise ToolError("session %s op %d: %s" % (sess["id"], i, err))
        if r.get("fatal") and op not in ("enc_new", "dec_new"):
            add(i, op="end", st="threw " + err)
            return ev
        if op == "load":
            if "xml" in o:
                kdoc += 1
                add(i, op="load", ds=ds, k=kdoc, err=err)
        elif op in ("enc_new", "dec_new"):
            add(i, op="new", c=o["c"], ds=ds, err=err)
        elif op == "overlong":
            add(i, op="ov", c=o["c"], v=bool(o["v"]))
        elif op == "set":
            add(i, op="same", v=conv.fields(o["v"]), w=conv.fields(r["v"]))
        elif op == "msg":
            if "expect" in o:
                add(i, op="same", v=conv.fields(o["expect"]), w=conv.fields(r["v"]))
        elif op == "scribble":
            add(i, op="same", v=conv.fields(o["v"]), w=conv.fields(r["v"]))
            kept[o["h"]] = r["v"]
        elif op == "enc":
            if r.get("skipped"):
                continue
            sane = all(r.get(k, True) for k in ("slack", "pre_ok", "same"))
            add(i, op="enc", c=o["c"], tid=r["tid"], v=conv.fields(r["v"]), rs=int(r["rs"]),
                err=err, cap=r.get("cap", -1), sane=sane,
                b=list(bytes.fromhex(r.get("b", ""))))
            if "b" in r:
                if "twin" in o and not err and o["twin"] in bytes_of:
                    add(i, op="twin", c=o["c"], t=o["twin"], v=list(bytes.fromhex(bytes_of[o["twin"]])), w=list(bytes.fromhex(r["b"])))
                bytes_of[o["c"]] = r["b"]
            else:
                bytes_of.pop(o["c"], None)
        elif op == "dec":
            if r.get("skipped"):
                continue
            b = list(bytes.fromhex(r["b"] if "b" in r else o["b"]))
            sane = err != "" or 0 <= r["n"] <= len(b)
            add(i, op="dec", c=o["c"], b=b, rs=int(r["rs"]), err=err, n=r["n"],
                tid=r.get("tid", 0), v=conv.fields(r["v"]) if "v" in r else [], sane=sane)
            if "keep" in o:
                # a decode that fails leaves whatever it likes in the token it was given
                kept.pop(o["keep"], None)
                if "v" in r:
                    kept[o["keep"]] = r["v"]
        elif op == "reread":
            if o["h"] in kept:
                add(i, op="same", v=conv.fields(kept[o["h"]]), w=conv.fields(r["v"]))
        elif op == "copyof":
            if o["h"] in kept:
                add(i, op="same", v=conv.fields(kept[o["h"]]), w=conv.fields(r["v"]))
                msgs[o["m"]] = r["v"]
        elif op == "del":
            add(i, op="del", ok=r["live"] == 0 and not r["problems"])
    add(len(results), op="end", st=end)
    return ev


def validate(sess_events, docsets, work, name="t", timeout=800, stats=None):
    """-> {id: ("ACC", counts) | ("REJ", op index, category, info)}"""
    def write(k, mine):
        # only the document sets these sessions use
        used = sorted({e["ds"] for i in mine for e in sess_events[i] if "ds" in e})
        ren = {d: n + 1 for n, d in enumerate(used)}
        ft, fd = os.path.join(work, "%s%d.trace" % (name, k)), os.path.join(work, "%s%d.docs" % (name, k))
        with open(fd, "w") as f:
            for d in used:
                f.write(json.dumps({"trees": docsets[d]}) + "\n")
        with open(ft, "w") as f:
            for i in mine:
                ev = [dict(e, ds=ren[e["ds"]]) if "ds" in e else e for e in sess_events[i]]
                f.write(json.dumps({"id": i, "ev": ev}) + "\n")
        return {"TRACE": ft, "DOCS": fd}
    return tla.validate("TraceCodec", list(sess_events), write, work, name, timeout, stats=stats)


# ------------------------------------------------------------------ session generation
class Batch:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.sessions, self.docsets = [], {}
        self.n = 0

    def docset(self, trees):
        k = len(self.docsets)
        self.docsets[k] = trees
        return k

    def add(self, ds, ops, **meta):
        self.n += 1
        s = dict(meta, id=self.n, ds=ds, ops=ops)
        self.sessions.append(s)
        return s


def loads(trees):
    return [{"op": "load", "doc": "d%d" % i, "xml": to_xml(t)} for i, t in enumerate(trees)]


def news(trees, enc="v1", dec="v1", names=None):
    ds = names or ["d%d" % i for i in range(len(trees))]
    return [{"op": "enc_new", "c": "e", "kind": enc, "docs": ds}, {"op": "dec_new", "c": "d", "kind": dec, "docs": ds}]


def roundtrip(b, g, trees, ds, n_msgs, p_reset=.05, overlong=None, bufs=True, load=None, kinds=("v1", "v1"), reuse=.5,
              names=None, tids=None, tok=0, cut=0.0, small=0.0, junk=0.0):
    """messages through one encoder and one decoder. cut/small/junk: how often a decode is given a
    proper prefix, an encode too small a buffer, the decoder garbage; both ends reset after that."""
    r = b.r
    ops = (load or loads(trees)) + news(trees, *kinds, names=names)
    if tok:
        ops[-1]["tok"] = tok
    if overlong is not None and overlong is False:
        ops.append({"op": "overlong", "c": "e", "v": False})
    vals = Values(r, g.ids, tids)
    live = {}
    failed = False
    for k in range(n_msgs):
        t = r.choice(tids or sorted(g.ids))
        m = "m%d" % t
        if m not in live or r.random() > reuse:
            ops.append({"op": "msg", "m": m, "tid": t})
            live[m] = 1
        ops.append({"op": "set", "m": m, "v": vals.fields(g.ids[t])})
        reset = r.random() < p_reset or failed
        failed = False
        e = {"op": "enc", "c": "e", "m": m, "reset": reset, "ar": True}
        if small and r.random() < small:
            ops.append(dict(e, size=r.choice([1, 2, 3, 4, 6, 9, 14]), end=True))
            # it may have fitted; start over either way
            reset = e["reset"] = True
        if bufs and r.random() < .4:
            e["pre"] = "aa" * r.choice([0, 1, 5, 40])
            e["rsv"] = r.choice([0, 1, 3, 500])
        else:
            e["size"] = 65536
            e["end"] = r.random() < .5
        ops.append(e)
        d = {"op": "dec", "c": "d", "src": "e", "reset": reset, "rsrc": True, "end": r.random() < .8,
             "tok": r.randint(0, max(0, tok - 1))}
        if junk and r.random() < junk:
            ops.append({"op": "dec", "c": "d", "b": bytes(r.randint(0, 255) for _ in range(r.randint(1, 9))).hex(),
                        "reset": False, "tok": d["tok"]})
            failed = True
        if failed or cut and r.random() < cut:
            ops.append(dict(d, cut=r.randint(1, 999)))
            failed = True
        else:
            ops.append(d)
    ops += [{"op": "del", "c": "e"}, {"op": "del", "c": "d"}] + [{"op": "del", "m": m} for m in live]
    return b.add(ds, ops)


def buffers(b, g, trees, ds, n_msgs, load=None, kind="v1", names=None):
    """the same messages through encoders that differ in the buffers they are given"""
    r = b.r
    dn = names or ["d%d" % i for i in range(len(trees))]
    ops = (load or loads(trees)) + [{"op": "enc_new", "c": c, "kind": kind, "docs": dn} for c in ("e", "f", "g")]
    ov = r.random() < .5
    ops += [{"op": "overlong", "c": c, "v": ov} for c in ("e", "f", "g")]
    vals = Values(r, g.ids)
    live = {}
    for k in range(n_msgs):
        t = r.choice(sorted(g.ids))
        m = "m%d" % t
        if m not in live or r.random() > .5:
            ops.append({"op": "msg", "m": m, "tid": t})
            live[m] = 1
        ops.append({"op": "set", "m": m, "v": vals.fields(g.ids[t])})
        reset = k == 0 or r.random() < .3
        ops.append({"op": "enc", "c": "e", "m": m, "reset": reset, "size": 65536, "end": False})
        grow = {"op": "enc", "c": "f", "m": m, "reset": reset, "twin": "e", "rsv": r.choice([0, 1, 2, 3, 7, 100]),
                "pre": "".join("%02x" % r.randint(0, 255) for _ in range(r.choice([0, 0, 1, 2, 17, 300])))}
        ops.append(grow)
        d = r.choice([0, 0, 0, 1, 5, -1, -1, -2, -3, -r.randint(1, 60), -10000])
        ops.append({"op": "enc", "c": "g", "m": m, "reset": reset, "size": 0, "rel": "e", "d": d, "twin": "e", "end": True})
        if d < 0:
            # what it knows about the history is not to be relied upon: with its dictionary reset it goes
            # on like any other encoder, but for the template it takes for the active one
            ops.append({"op": "enc", "c": "g", "m": m, "reset": True, "size": 65536, "end": r.random() < .5})
            ops.append({"op": "enc_new", "c": "g", "kind": kind, "docs": dn})
            ops.append({"op": "overlong", "c": "g", "v": ov})
            for c in ("e", "f"):
                ops.append({"op": "enc_new", "c": c, "kind": kind, "docs": dn})
                ops.append({"op": "overlong", "c": c, "v": ov})
    ops += [{"op": "del", "c": c} for c in ("e", "f", "g")] + [{"op": "del", "m": m} for m in live]
    return b.add(ds, ops)


def tokens(b, g, trees, ds, n_msgs, tok, load, names, enc="v2"):
    """decodes over several tokens; earlier messages are read again, and changed"""
    r = b.r
    ops = load + news(trees, enc, "v2", names=names)
    ops[-1]["tok"] = tok
    vals, vals2 = Values(r, g.ids), Values(r, g.ids)
    held, live = {}, {}
    for k in range(n_msgs):
        t = r.choice(sorted(g.ids))
        m = "m%d" % t
        if m not in live or r.random() > .5:
            ops.append({"op": "msg", "m": m, "tid": t})
            live[m] = 1
        ops.append({"op": "set", "m": m, "v": vals.fields(g.ids[t])})
        reset = r.random() < .05
        ops.append({"op": "enc", "c": "e", "m": m, "reset": reset, "size": 65536})
        w = r.randrange(tok) if tok else 0
        h = "t%d" % w
        ops.append({"op": "dec", "c": "d", "src": "e", "reset": reset, "tok": w, "keep": h, "end": r.random() < .8})
        held[h] = t
        for x in sorted(held):
            if r.random() < .8:
                ops.append({"op": "reread", "h": x})
        if tok and r.random() < .4:
            x = r.choice(sorted(held))
            ops.append({"op": "scribble", "h": x, "v": vals2.fields(g.ids[held[x]])})
            ops.append({"op": "reread", "h": r.choice(sorted(held))})
        if r.random() < .1:
            ops.append({"op": "copyof", "h": r.choice(sorted(held)), "m": "c"})
            live["c"] = 1
    ops += [{"op": "del", "m": m} for m in live] + [{"op": "del", "c": "e"}, {"op": "del", "c": "d"}]
    return b.add(ds, ops)


def streams(b, g, trees, ds, n_msgs, overlong=.1, mut=0.0, trunc=0.0, p_reset=.1, load=None, kind="v1", names=None, tok=0):
    r = b.r
    dn = names or ["d%d" % i for i in range(len(trees))]
    ops = (load or loads(trees)) + [{"op": "dec_new", "c": "d", "kind": kind, "docs": dn, "tok": tok}]
    st = Streams(r, g.ids, overlong)
    for k in range(n_msgs):
        t = r.choice(sorted(g.ids))
        reset = r.random() < p_reset
        if reset:
            st.reset()
        x = st.message(t, 0, k == 0 or reset or r.random() < .9)
        if r.random() < mut:
            x = mutate(r, x)
        elif r.random() < trunc and len(x) > 1:
            x = x[:r.randrange(1, len(x))]
        elif r.random() < .15:
            x = x + bytes(r.randint(0, 255) for _ in range(r.randint(1, 4)))
        ops.append({"op": "dec", "c": "d", "b": x.hex(), "reset": reset, "ar": True, "end": r.random() < .85,
                    "tok": r.randint(0, max(0, tok - 1))})
    ops.append({"op": "del", "c": "d"})
    return b.add(ds, ops)


def run_batch(b, flavor="plain", exe=None, work=None, keep=False, group=0):
    own = work is None
    work = work or tempfile.mkdtemp(prefix="codec-")
    try:
        exe = exe or build.binary("driver", ["driver.cpp"], flavor)
        t0 = time.time()
        res = execute(exe, b.sessions, work, group=group)
        t1 = time.time()
        evs = {s["id"]: events(s, *res[s["id"]]) for s in b.sessions}
        stats = {}
        verd = validate(evs, b.docsets, work, stats=stats)
        return dict(results=res, events=evs, verdicts=verd, t_exec=t1 - t0, t_tlc=time.time() - t1, stats=stats)
    finally:
        if own and not keep:
            shutil.rmtree(work, ignore_errors=True)


def report(b, R, show=3, ctx=6):
    acc = {}
    cats = {}
    for s in b.sessions:
        v = R["verdicts"][s["id"]]
        if v[0] == "ACC":
            for k, n in (v[1] or {}).items():
                acc[k] = acc.get(k, 0) + n
        else:
            cats.setdefault(v[2], []).append(s)
    print("sessions", len(b.sessions), "exec %.1fs tlc %.1fs" % (R["t_exec"], R["t_tlc"]))
    print("accepted events", acc)
    for c, l in sorted(cats.items()):
        print("REJ", c, len(l))
    shown = 0
    for c, l in sorted(cats.items()):
        l.sort(key=lambda s: (R["verdicts"][s["id"]][1], len(json.dumps(s))))
        for s in l[:show]:
            v = R["verdicts"][s["id"]]
            print("-----", c, "session", s["id"], s.get("pair", ""), "op", v[1])
            for o in s["ops"]:
                if o["op"] == "load" and 'xml' in o:
                    print(__import__('re').sub(r'\s*\n\s*','',o['xml'])[:1200])
            for r in R["results"][s["id"]][0][max(0, v[1] - ctx):v[1] + 1]:
                o = s["ops"][r["i"]]
                if o["op"] in ("enc", "dec", "set") or r["i"] == v[1]:
                    print("  ", str({k: x for k, x in o.items() if k not in ("xml", "v")})[:200], "=>", str({k: x for k, x in r.items() if k not in "s"})[:400])
            print("  ", R["results"][s["id"]][1], "info:", v[3][:300])


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--docs", type=int, default=20)
    ap.add_argument("--per", type=int, default=3)
    ap.add_argument("--msgs", type=int, default=8)
    ap.add_argument("--mode", default="rt")
    ap.add_argument("--cfg", default="{}")
    ap.add_argument("--flavor", default="plain")
    ap.add_argument("--show", type=int, default=6)
    ap.add_argument("--save", default=None)
    ap.add_argument("--ctx", type=int, default=6)
    a = ap.parse_args()
    b = Batch(a.seed)
    cfg = eval(a.cfg)
    for _ in range(a.docs):
        g = TemplateGen(b.r, **cfg)
        trees = g.docset()
        ds = b.docset(trees)
        for _ in range(a.per):
            if a.mode == "rt":
                roundtrip(b, g, trees, ds, a.msgs, overlong=b.r.random() < .6)
            else:
                streams(b, g, trees, ds, a.msgs, mut=.2 if a.mode == "mut" else 0, trunc=.1 if a.mode == "mut" else 0)
    R = run_batch(b, a.flavor)
    report(b, R, a.show, a.ctx)
    if a.save:
        json.dump({"sessions": b.sessions, "docsets": b.docsets}, open(a.save, "w"))
