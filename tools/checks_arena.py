"""P14: an arena driven with generated calls, validated against TraceArena.tla; the call sequences at the
boundaries of chunks are all those of the model ChunkArena.tla up to a depth"""
import json, os, random, re, shutil, tempfile
import build, codec, tla
import checks_codec as cc
import checks_objects as co

KINDS = ["arena"]
B = 1 << 24


def limbs(n):
    return [n >> 48, (n >> 24) % B, n % B]


def events(sess, results, end):
    ev = []
    for r in results:
        o = sess["ops"][r["i"]]
        if o["op"] in ("aa", "ar", "ad", "az", "anew"):
            e = {"op": o["op"], "i": r["i"], "n": limbs(o.get("n", 0)), "id": o.get("id", 0), "c": o.get("c", 0)}
            if r.get("fatal"):
                break
            for k in ("at", "len", "kept", "err", "foot"):
                if k in r:
                    e[k] = r[k]
            e["now"] = sorted([int(k), v] for k, v in r.get("now", {}).items())
            ev.append(e)
    ev.append({"op": "fin", "i": len(results), "st": end})
    return ev


def run_batch(b, exe, opts=""):
    work = tempfile.mkdtemp(prefix="arena-")
    try:
        stats = {}
        res = codec.execute(exe, b.sessions, work, asan="allocator_may_return_null=1:max_allocation_size_mb=3000")
        evs = {s["id"]: events(s, *res[s["id"]]) for s in b.sessions}

        def write(k, mine):
            ft = os.path.join(work, "t%d.trace" % k)
            with open(ft, "w") as f:
                for i in mine:
                    f.write(json.dumps({"id": i, "ev": evs[i]}) + "\n")
            return {"TRACE": ft}
        v = tla.validate("TraceArena", list(evs), write, work, stats=stats)
        return {"verdicts": v, "results": res, "stats": stats, "events": evs}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(d):
    return cc.replay(d, run_batch)


def size(r, huge=.03):
    x = r.random()
    if x < huge:
        return r.choice([2 ** 64 - r.randint(1, 5000), 2 ** 63 + r.randint(-40, 40), 2 ** 62, 2 ** 40, 2 ** 33, 2 ** 32 + 8])
    return r.choice([lambda: r.randint(0, 20), lambda: r.randint(1, 300), lambda: r.randint(1, 4072), lambda: 4072 - r.randint(0, 90),
                     lambda: 4096 * r.randint(1, 4) - 24 + r.randint(-12, 12), lambda: r.randint(4000, 20000)])()


class Calls:
    def __init__(self, r):
        self.r, self.ops, self.live, self.n, self.c = r, [{"op": "anew"}], [], 0, 0
        self.lens = {}

    def fill(self):
        self.c = self.c % 251 + 1
        return self.c

    def alloc(self, n):
        self.n += 1
        self.ops.append({"op": "aa", "id": self.n, "n": n, "c": self.fill(), "op_new": self.r.random() < .2})
        self.live.append(self.n)
        self.lens[self.n] = n

    def grow(self, i, n):
        self.ops.append({"op": "ar", "id": i, "n": n, "c": self.fill()})
        if i not in self.live:
            self.live.append(i)
        self.lens[i] = n

    def step(self, huge):
        r = self.r
        x = r.random()
        if x < .55 or not self.live:
            n = size(r, huge)
            self.alloc(n)
            if n > 1 << 31:
                self.live.pop()
        elif x < .8:
            i = r.choice(self.live)
            if r.random() < .2:
                self.n += 1
                i = self.n
            n = self.lens.get(i, 0)
            n = n + r.randint(0, n + 40) if r.random() < .85 else r.randint(0, n)
            if r.random() < huge:
                n = size(r, 1)
                self.ops.append({"op": "ar", "id": i, "n": n, "c": self.fill()})
            elif n < 1 << 21:
                self.grow(i, n)
        elif x < .9:
            i = r.choice(self.live)
            self.live.remove(i)
            self.ops.append({"op": "ad", "id": i})
        else:
            self.reset()

    def reset(self):
        self.ops.append({"op": "az"})
        self.live = []


def random_calls(r, huge=.03):
    c = Calls(r)
    for _ in range(r.randint(20, 60)):
        c.step(huge)
    return c.ops


def cycles(r):
    """the same few calls between resets, again and again"""
    c = Calls(r)
    for _ in range(r.randint(0, 8)):
        c.step(0)
    c.reset()
    k = r.randint(1, 4)
    calls = []
    for i in range(k):
        if i and r.random() < .25:
            calls.append(("ar", r.randint(1, i), size(r, 0)))
        else:
            calls.append(("aa", i + 1, size(r, 0)))
    calls = [x for j, x in enumerate(calls) if x[0] == "aa" or ("aa", x[1]) in [y[:2] for y in calls[:j]]]
    for _ in range(len(calls) ** 2 + r.randint(4, 10)):
        for op, i, n in calls:
            c.ops.append({"op": op, "id": 1000 + i, "n": n, "c": c.fill()})
        c.reset()
    return c.ops


def model_sequences(ck, depth, workers=8):
    """every call sequence of the model, which is checked for its invariants on the way"""
    cfg = open(os.path.join(tla.SPEC, "ChunkArena.cfg")).read().replace("Depth = 4", "Depth = %d" % depth)
    if depth > 4:
        cfg = re.sub(r"Sizes = \{.*\}", "Sizes = {1, 64, 4008, 4072, 4073, 8169}", cfg)
    d = tempfile.mkdtemp(prefix="arenacfg-")
    try:
        f = os.path.join(d, "m.cfg")
        open(f, "w").write(cfg)
        rc, out = tla.tlc("ChunkArena", cfg=f, workers=workers)
        if rc:
            raise tla.ToolError("the model ChunkArena: " + tla.errline(out))
        g, n = tla.counts(out)
        ck.model(n, g)
        res = []
        for m in re.finditer(r'<<"SEQ", (.*?)>>$', out, re.M):
            res.append([(a, int(x)) for a, x in re.findall(r'<<"(\w+)", (\d+)>>', m.group(1))])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def packed(r, seqs, per=60):
    for k in range(0, len(seqs), per):
        ops = []
        for s in seqs[k:k + per]:
            c = Calls(r)
            name = {}
            for j, (op, x) in enumerate(s):
                c.n = j
                name[j + 1] = j + 1
                if op == "aa":
                    c.alloc(x)
                elif op == "ar":      # the model calls the grown block a new one
                    name[j + 1] = name[x]
                    c.grow(name[x], c.lens[name[x]] + 1)
                else:
                    c.reset()
            ops += c.ops
        yield ops


def P14(ck):
    exe = build.binary("driver", ["driver.cpp"], "plain")
    aexe = build.binary("driver", ["driver.cpp"], "asan")
    ck.start_clock()
    seqs = model_sequences(ck, 4 if ck.quick else 5)
    ck.note("%d call sequences of ChunkArena replayed" % len(seqs))
    k = 0
    while True:
        for x, flavor in ((exe, "plain"), (aexe, "asan")):
            b = codec.Batch("P14-%d-%d-%s" % (ck.seed, k, flavor))
            r = b.r
            ds = b.docset([])
            for _ in range(150):
                b.add(ds, random_calls(r, .03 if flavor == "plain" else .01))
                if flavor == "plain":
                    b.add(ds, cycles(r))
            if k == 0:
                for ops in packed(r, seqs if flavor == "plain" or not ck.quick else r.sample(seqs, len(seqs) // 4)):
                    b.add(ds, ops)
            R = run_batch(b, x)
            cc.judge(ck, b, R, x, flavor, None, "arena", run_batch)
            if k == 0 and flavor == "plain":
                s = b.sessions[0]
                ck.sample({"calls": [cc.cut(o) for o in s["ops"][:6]], "returned": [cc.cut(y) for y in R["results"][s["id"]][0][:6]],
                           "verdict": R["verdicts"][s["id"]][0] + " by TraceArena.tla"})
        co.in_arena(ck, k, exe, "plain")
        k += 1
        if ck.quick or ck.time_left() < 40 or ck.violations:
            break
    ck.cov["batches"] = k


CHECKS = {"P14": P14}
