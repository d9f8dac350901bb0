"""Histories of message objects: generate, execute, validate against TraceObjects.tla."""
import json, os, random, shutil, tempfile
import codec, conv, tla
from gen import INT, TemplateGen, jv, rascii, rbytes, rint, node, to_xml

STR = ("asc", "uni", "bv")
MIX = dict(obj=10, scalar=20, vec=20, dec=10, seq=15, grp=6, nest=4, cmp=10)


class Field:
    """a field reachable from a template: steps are field indices, "e" (an element), ("t", id)"""

    def __init__(self, tid, steps, f):
        self.tid, self.steps, self.f = tid, steps, f
        k = f.k
        self.k = "i64" if k == "ts" else "enum" if k == "bool" else k
        self.const = f.op == "constant" and k not in ("sdec", "grp", "seq")
        self.cexp = k == "sdec" and f.ex.op == "constant"
        # fields between which values can be handed over
        self.cls = (self.k, f.opt) if k not in ("enum", "bool", "set", "grp", "seq", "nest") and not self.cexp \
            else (self.k, tid, tuple(steps))

    def at(self, r):
        out = []
        for s in self.steps:
            out.append(r.randint(0, 5) if s == "e" else [s[1]] if isinstance(s, tuple) else s)
        return out


def reach(ids, tid, fs, pre=(), nest=0):
    for i, f in enumerate(fs):
        x = Field(tid, list(pre) + [i], f)
        yield x
        if f.k == "grp":
            yield from reach(ids, tid, f.sub, x.steps, nest)
        elif f.k == "seq":
            yield from reach(ids, tid, f.sub, x.steps + ["e"], nest)
        elif f.k == "nest" and nest < 1:
            for t in sorted(ids):
                yield from reach(ids, tid, ids[t], x.steps + [("t", t)], nest + 1)


def some(r, l, n=150):
    """a template can reach thousands of fields through nested messages"""
    return l if len(l) <= n else sorted(r.sample(l, n), key=lambda x: len(x.steps))


class History:
    def __init__(self, r, g, mix=None, gen=False, als="AAB"):
        self.als = als
        self.r, self.g, self.ops, self.gen = r, g, [], gen
        self.mix = dict(MIX, **(mix or {}))
        self.tids = sorted(g.ids)
        self.fields = {t: some(r, list(reach(g.ids, t, g.ids[t]))) for t in self.tids}
        self.live, self.n = {}, 0
        self.views = {}
        self.favour = {}

    def add(self, **o):
        self.ops.append(o)

    def name(self):
        self.n += 1
        return "m%d" % self.n

    def new(self, tid=None):
        r = self.r
        m = self.name()
        t = tid if tid is not None else r.choice(self.tids)
        o = dict(op="onew", m=m, tid=t, al=r.choice(self.als))
        if r.random() < .3:
            o["slack"] = r.choice([8, 24, 100])
        if self.gen:
            o["gen"] = r.random() < .7
        self.add(**o)
        self.live[m] = t
        return m

    def obj(self, tid=None):
        ms = [m for m in sorted(self.live) if tid is None or self.live[m] == tid]
        return self.r.choice(ms) if ms else None

    # ---------------------------------------------------------------- values
    def value(self, x):
        r, f = self.r, x.f
        k = f.k
        if k in INT or k == "ts":
            return str(rint(r, "i64" if k == "ts" else k))
        if k in ("enum", "bool"):
            return str(r.choice(f.els)[1])
        if k == "set":
            return str(r.getrandbits(len(f.els)))
        if k in ("dec", "sdec"):
            m = rint(r, "i64") if r.random() < .6 else r.choice([1, -1, 25, -4, 0]) * 10**r.randint(0, 17)
            e = f.ex.init if x.cexp else r.choice([0, 0, -1, 1, -2, 2, r.randint(-40, 40)])
            return [str(m), str(e)]
        if k == "bv" and r.random() < .15:
            return "x" + rbytes(r, 16).hex()
        if k in STR:
            return "x" + (rascii(r) if k == "asc" and r.random() < .8 else rbytes(r)).hex()
        if k[0] == "v":
            return {"v": [str(rint(r, k[1:])) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]}

    def items(self, x, n=None, same=False):
        r, f = self.r, x.f
        if n is None:
            n = r.choice([0, 1, 1, 2, 3, 5, 8, 17, 40])
        if f.k[0] == "v":
            l = [str(rint(r, f.k[1:])) for _ in range(min(n, 9))]
            return {"v": l[:1] * len(l) if same else l}
        b = rascii(r, n) if f.k == "asc" and r.random() < .8 else rbytes(r, n)
        return "x" + (b[:1] * n if same else b).hex()

    def text(self):
        r = self.r
        x = r.random()
        d = lambda n: "".join(r.choice("0123456789") for _ in range(n))
        if x < .15:
            return r.choice(["", "-", "+1", "1e", "1.5x", "1.2.3", "abc", "--5", "1e5x", ".", "5.", ".5", " 7 ", "1 2", "0x10",
                             "1,5", "1e+", "e5", "-.", "12 e3", "1_0", "\t3.5", "1.5 ", "1.-5", "1e2.5", "9223372036854775808",
                             "-9223372036854775809", "1.00000000000000000000", "92233720368547758070e-1"])
        s = "-" if r.random() < .4 else ""
        w = r.choice(["0", "00", d(1), d(3), str(r.randint(1, 10**r.randint(1, 18))), "9223372036854775807", "1" + "0" * r.randint(0, 17)])
        s += w
        if r.random() < .6:
            room = max(0, 18 - len(w.lstrip("0")))
            n = r.randint(1, max(1, room + r.choice([0, 0, 0, 1, 2])))
            fr = r.choice([d(n), "0" * (n - 1) + r.choice("0123456789"), d(max(1, n - 2)) + "00"])
            s += "." + fr
        if r.random() < .4:
            s += r.choice("eE") + r.choice(["", "-", "+"]) + str(r.choice([0, 1, 2, 5, 20]))
        return s

    # ---------------------------------------------------------------- operations
    def choose(self, m, want):
        r = self.r
        t = self.live[m]
        fav = [y for y in self.favour.get(m, []) if want(y[0])]
        if fav and r.random() < .6:
            x, p = r.choice(fav)
            if r.random() < .2:
                p = x.at(r)
            return x, p
        l = [x for x in self.fields[t] if want(x)]
        if not l:
            return None, None
        x = r.choice(l)
        p = x.at(r)
        self.favour.setdefault(m, []).append((x, p))
        return x, p

    def source(self, x, same_path=False, distinct=None):
        """a field to take a value from"""
        r = self.r
        c = [(m, y) for m, t in sorted(self.live.items()) if m != distinct
             for y in self.fields[t] if (y.cls[0] == x.cls[0] and not y.cexp and len(x.cls) == 2 == len(y.cls)) or y.cls == x.cls]
        if not c:
            return None
        m, y = r.choice(c)
        fav = [p for z, p in self.favour.get(m, []) if z is y]
        return {"m": m, "p": r.choice(fav) if fav and r.random() < .7 else y.at(r)}

    def mut(self, m, _field, p, **o):
        self.add(op="mut", m=m, p=p, **o)

    def scalar(self, m, x, p):
        r = self.r
        if x.const:
            k = r.choice(["init", "omit", "init"])
            if not x.f.opt:
                k = "init"
            return self.mut(m, x, p, k=k)
        k = r.choice(["set"] * 5 + ["from"] * 2 + ["omit", "clear", "init"])
        if k == "set":
            self.mut(m, x, p, k=k, x=self.value(x), w=r.randint(0, 1))
        elif k == "from":
            s = self.source(x)
            if s:
                self.mut(m, x, p, k=k, src=s)
        else:
            self.mut(m, x, p, k=k)

    def dec(self, m, x, p):
        r = self.r
        if x.const:
            return self.scalar(m, x, p)
        if x.cexp:
            k = r.choice(["set", "set", "setm", "omit", "init", "read", "asint"])
        else:
            k = r.choice(["set"] * 4 + ["from"] * 2 + ["asint"] * 2 + ["setm", "sete", "norm", "norm", "viaval", "viaval"] + ["text"] * 6 +
                         ["read"] * 3 + ["omit", "clear", "init"])
        if x.k == "sdec" and x.f.ma.op == "constant" and k in ("set", "from", "asint", "setm", "norm", "text", "viaval"):
            k = "init"
        if k == "set":
            self.mut(m, x, p, k=k, x=self.value(x))
        elif k in ("from", "viaval"):
            s = self.source(x)
            if s:
                self.mut(m, x, p, k=k, src=s)
        elif k in ("asint", "setm"):
            v = rint(r, "i64")
            if x.cexp and k == "asint":
                c = x.f.ex.init
                v = r.randint(-9, 9) * 10**max(0, c) if c < 18 else 0
                if c < -17:
                    return
            elif k == "asint" and r.random() < .4:
                v = r.randint(-99, 99) * 10**r.randint(0, 16)
            self.mut(m, x, p, k=k, x=str(v), w=r.randint(0, 1))
        elif k == "sete":
            self.mut(m, x, p, k=k, x=str(r.randint(-40, 40)), w=r.randint(0, 1))
        elif k == "text":
            self.mut(m, x, p, k=k, x="x" + self.text().encode().hex())
        else:
            self.mut(m, x, p, k=k)

    def vec(self, m, x, p):
        r = self.r
        if x.const:
            return self.scalar(m, x, p)
        chars = x.k in ("asc", "uni")
        k = r.choice(["set"] * 5 + ["from"] * 2 + ["app"] * 5 + ["ins"] * 4 + ["pop"] * 2 + ["resize"] * 4 + ["reserve"] * 3 + ["ref"] * 3 +
                     ["repl"] * 4 + ["elem"] * 3 + ["read"] * 4 + ["swap"] * 2 + ["omit"] * 2 + ["clear", "init"])
        if k == "set":
            self.mut(m, x, p, k=k, x=self.items(x, same=r.random() < .2), w=r.randint(0, 4))
        elif k == "from":
            s = self.source(x)
            if s:
                self.mut(m, x, p, k=k, src=s)
        elif k == "app":
            i = self.items(x)
            n = len(i) // 2 if isinstance(i, str) else len(i["v"])
            w = r.randint(0, 7) if chars else r.randint(0, 4)
            if w == 5 and n:
                self.mut(m, x, p, k=k, x=i, w=w, sub=r.randint(0, n))
            else:
                self.mut(m, x, p, k=k, x=i, w=0 if w == 5 else w)
        elif k == "ins":
            self.mut(m, x, p, k=k, x=self.items(x, same=r.random() < .3), pos=r.choice([0, r.randint(0, 60)]), w=r.randint(0, 3))
        elif k == "resize":
            self.mut(m, x, p, k=k, n=r.choice([0, 1, 2, 5, 9, 30, 70]), c=r.choice([0, 0, 65, 127]), w=r.randint(0, 1))
        elif k == "reserve":
            self.mut(m, x, p, k=k, n=r.choice([0, 1, 8, 50, 200]))
        elif k == "ref":
            self.mut(m, x, p, k=k, x=self.items(x), w=r.randint(0, 1), t=r.random() < .5)
        elif k == "repl":
            self.mut(m, x, p, k=k, x=self.items(x), pos=r.randint(0, 60), n=r.choice([0, 1, 2, 5, 40]))
        elif k == "elem":
            self.mut(m, x, p, k=k, x=self.items(x, 1), pos=r.randint(0, 60))
        elif k == "swap":
            ys = [y for y in self.fields[self.live[m]] if y.cls == x.cls and not y.const]
            y = r.choice(ys)
            q = y.at(r)
            self.mut(m, x, p, k=k, q=q)
        elif k == "read":
            self.mut(m, x, p, k=k, wd={"vi32": -4, "vu32": 4, "vi64": -8, "vu64": 8}.get(x.k, 1))
        else:
            self.mut(m, x, p, k=k)

    def seq(self, m, x, p):
        r = self.r
        k = r.choice(["resize"] * 6 + ["reserve"] * 3 + ["grow"] * 4 + ["from"] * 3 + ["eas"] * 3 + ["assign"] * 3 + ["read"] * 4 +
                     ["swap"] * 3 + ["omit"] * 2 + ["clear"])
        if k in ("resize", "grow", "reserve"):
            n = r.choice([0, 1, 1, 2, 2, 3, 4, 7]) if k != "grow" else r.choice([0, 1, 1, 2])
            self.mut(m, x, p, k=k, n=n)
        elif k in ("from", "assign"):
            s = self.source(x, distinct=m if k == "assign" else None)
            if s:
                self.mut(m, x, p, k=k, src=s, pos=r.choice([0, 0, 1, 2]))
        elif k == "eas":
            self.mut(m, x, p, k=k, pos=r.randint(0, 9), n=r.randint(0, 9))
        elif k == "swap":
            if "e" not in x.steps:
                return
            q = list(p)
            for i, s in enumerate(x.steps):
                if s == "e":
                    q[i] = r.randint(0, 5)
            self.mut(m, x, p, k=k, q=q)
        else:
            self.mut(m, x, p, k=k)

    def grp(self, m, x, p):
        r = self.r
        k = r.choice(["omit", "touch", "as", "as"])
        if k == "as":
            s = self.source(x)
            if s:
                self.mut(m, x, p, k=k, src=s)
        else:
            self.mut(m, x, p, k=k)

    def nest(self, m, x, p):
        ids = self.g.ids
        t = [i for i in sorted(ids) if len(x.steps) < 3 or not any(f.k == "nest" for f in ids[i])]
        self.mut(m, x, p, k="rebind", tid=self.r.choice(t or self.tids))

    def object_op(self):
        r = self.r
        k = r.choice(["new", "copy", "copy", "copy", "move", "assign", "assign", "massign", "as", "as", "del"])
        if k == "new" or not self.live:
            if len(self.live) < 4:
                self.new()
            return
        s = self.obj()
        if k == "copy":
            if len(self.live) >= 5:
                k = "del"
            else:
                m = self.name()
                self.add(op="ocopy", m=m, **{"from": s}, w=r.choice(["copy", "gen", "cref"]), al=r.choice(self.als))
                self.live[m] = self.live[s]
                self.favour[m] = list(self.favour.get(s, []))
                return
        if k in ("move", "massign") and self.gen:
            return
        if k == "move":
            m = self.name()
            self.add(op="omove", m=m, **{"from": s})
            self.live[m] = self.live.pop(s)
            self.favour[m] = self.favour.pop(s, [])
        elif k in ("assign", "massign"):
            d = self.obj()
            if self.gen:
                return
            mv = k == "massign" and d != s
            self.add(op="oassign", m=d, **{"from": s}, mv=mv)
            self.live[d] = self.live[s]
            self.favour[d] = list(self.favour.get(s, []))
            if mv:
                del self.live[s]
                self.favour.pop(s, None)
        elif k == "as":
            d = self.obj(self.live[s])
            self.add(op="oas", m=d, **{"from": s})
        elif k == "del" and len(self.live) > 2:
            self.add(op="odel", m=s)
            del self.live[s]
            self.favour.pop(s, None)

    def cmp(self):
        r = self.r
        a = self.obj()
        b = self.obj(self.live[a]) if r.random() < .8 else self.obj()
        if r.random() < .5:
            return self.add(op="cmp", m=a, n=b)
        x, p = self.choose(a, lambda x: True)
        if x is None:
            return
        if r.random() < .6 and self.live[a] == self.live[b]:
            return self.add(op="cmp", m=a, n=b, p=p, q=p if r.random() < .6 else x.at(r))
        s = self.source(x) if r.random() < .8 else None
        if s:
            self.add(op="cmp", m=a, n=s["m"], p=p, q=s["p"])
        else:
            y, q = self.choose(b, lambda y: True)
            self.add(op="cmp", m=a, n=b, p=p, q=q)

    def prelude(self, m):
        """something to work with: elements and nested messages"""
        r = self.r
        l = [x for x in self.fields[self.live[m]] if x.f.k in ("seq", "nest")]
        for x in sorted(r.sample(l, min(len(l), 8)), key=lambda x: len(x.steps)):
            if x.f.k == "seq" and r.random() < .6:
                self.mut(m, x, x.at(r), k="resize", n=r.randint(1, 3))
            elif x.f.k == "nest" and r.random() < .6:
                self.nest(m, x, x.at(r))

    def run(self, n):
        r = self.r
        for _ in range(r.randint(1, 2)):
            m = self.new()
            if r.random() < .8:
                self.prelude(m)
        kinds = {"vec": lambda x: x.k in STR or x.k[0] == "v", "dec": lambda x: x.k in ("dec", "sdec"), "seq": lambda x: x.k == "seq",
                 "grp": lambda x: x.k == "grp", "nest": lambda x: x.k == "nest",
                 "scalar": lambda x: x.k in INT or x.k in ("enum", "set")}
        for _ in range(n):
            w = {k: v for k, v in self.mix.items() if v}
            k = r.choices(list(w), list(w.values()))[0]
            if k == "obj" or not self.live:
                self.object_op()
            elif k == "view":
                ms = [m for m in sorted(self.live) if self.live[m] in self.views]
                if ms:
                    m = r.choice(ms)
                    for v in self.views[self.live[m]]:
                        o = dict(op="view", m=m, view=v)
                        if self.gen and self.gen is not True and r.random() < .7:
                            o["gen"] = self.gen
                        self.add(**o)
            elif k in ("cmp", "jenc", "jdec", "jtag", "jboth"):
                getattr(self, k)()
            else:
                m = self.obj()
                x, p = self.choose(m, kinds[k])
                if x is None:
                    continue
                getattr(self, k)(m, x, p)
        for m in list(self.live):
            if r.random() < .3:
                self.add(op="odel", m=m)
        self.add(op="oend")
        return self.ops


# ------------------------------------------------------------------ events
RENAME = {"onew": "new", "ocopy": "copy", "omove": "move", "oassign": "assign", "oas": "as", "odel": "del", "oend": "end"}


def flat(v):
    """items of a value as the specification writes them"""
    return conv.tag(v)[1]


def events(sess, results, end):
    ev, last = [], {}
    kinds = {}
    for r in results:
        i = r["i"]
        o = sess["ops"][i]
        op = o["op"]
        err = r.get("err", "")
        if err.startswith("std:harness") or (err and op == "load"):
            raise tla.ToolError("session %s op %d: %s" % (sess["id"], i, err))
        if op == "load":
            continue
        if err:
            ev.append({"op": "fin", "i": i, "st": "threw " + err})
            return ev
        e = {"op": RENAME.get(op, op), "i": i, "sane": True, "info": ""}
        if r.get("problems"):
            e["sane"], e["info"] = False, str(r["problems"][:3])
        cur = {m: json.dumps(v) for m, v in r["all"].items()}
        e["names"] = sorted(cur)
        e["all"] = [{"m": m, "tid": v["tid"], "v": conv.fields(v["v"])} for m, v in r["all"].items() if last.get(m) != cur[m]]
        last = cur
        if r.get("skip"):
            e["skip"] = 1
        for k in ("m", "tid", "k", "c", "w", "mv", "n", "from"):
            if k in o:
                e[k] = o[k]
        if op == "oend":
            if any(r["live"]):
                e["sane"], e["info"] = False, "blocks not released: %s" % r["live"]
            if not r["lent"]:
                e["sane"], e["info"] = False, "memory only referred to was written"
        elif op == "oassign":
            e["mv"] = bool(o.get("mv"))
        elif op in ("jenc", "jdec"):
            for k in ("jm", "im"):
                if k in o:
                    e["jm"], e["im"] = o.get("jm", 0), r.get("im", o.get("im", 0))
            e["p"] = r.get("p", [])
            e["x"] = list(bytes.fromhex(r["x"][1:]))
            if op == "jdec":
                e["rej"], e["used"], e["unk"] = r["rej"], r["used"], bool(o.get("unk"))
                if e["rej"] or not e.get("skip"):
                    e["all"] = [x for x in e["all"] if x["m"] != o["m"]] + [
                        {"m": o["m"], "tid": r["all"][o["m"]]["tid"], "v": conv.fields(r["all"][o["m"]]["v"])}]
        elif op == "view":
            e["view"], e["ent"] = o["view"], r["ent"]
        elif op in ("mut", "cmp"):
            e["p"] = r.get("p", [])
            e["q"] = r.get("q", [])
            if op == "cmp" and "p" not in o:
                del e["p"], e["q"]
            for k in ("pos", "n"):
                if k in r:
                    e[k] = r[k]
            if "src" in o:
                e["src"] = o["src"]["m"]
                e["sp"] = r.get("sp", [])
                if "sv" in r:
                    e["sv"] = conv.tag(r["sv"])
            if "x" in o:
                x = o["x"]
                e["x"] = list(bytes.fromhex(x[1:])) if isinstance(x, str) and x[:1] == "x" else flat(x)
                if o["k"] == "app" and "sub" in o and o.get("w") == 5:
                    e["x"] = e["x"][o["sub"]:]
            if o.get("k") == "text":
                e["rej"] = bool(r.get("rej"))
            for k in ("fwd", "bwd", "cs", "txt"):
                if k in r:
                    e[k] = vitems(r[k], sess, o)
            if o.get("k") == "read":
                for k in ("sf", "sb"):
                    if k in r:
                        e[k] = [[conv.tag(x) for x in y] for y in r[k]["s"]]
                for k in ("ef", "eb"):
                    if k in r:
                        e[k] = conv.fields(r[k])
            for k in ("at", "eq", "ord", "rel"):
                if k in r:
                    e[k] = r[k]
        ev.append(e)
    ev.append({"op": "fin", "i": len(results), "st": end})
    return ev


def vitems(x, sess, o):
    b = bytes.fromhex(x[1:])
    w = o.get("wd", 1)
    if w == 1:
        return list(b)
    out = []
    for i in range(0, len(b), abs(w)):
        out += conv.limbs(int.from_bytes(b[i:i + abs(w)], "little", signed=w < 0))
    return out


def names(trees):
    out = {""}

    def walk(n):
        if "name" in n["a"]:
            out.add(n["a"]["name"])
        for x in n["c"]:
            walk(x)
    for t in trees:
        walk(t)
    return [{"n": n, "b": list(n.encode())} for n in sorted(out)]


def run_batch(b, exe, shards=8, group=0):
    work = tempfile.mkdtemp(prefix="obj-")
    try:
        stats = {}
        res = codec.execute(exe, b.sessions, work, shards=shards, group=group)
        evs = {s["id"]: events(s, *res[s["id"]]) for s in b.sessions}
        by = {s["id"]: s for s in b.sessions}

        def write(k, mine):
            used = sorted({by[i]["ds"] for i in mine})
            ren = {d: n + 1 for n, d in enumerate(used)}
            ft, fd = os.path.join(work, "t%d.trace" % k), os.path.join(work, "t%d.docs" % k)
            with open(fd, "w") as f:
                for d in used:
                    f.write(json.dumps({"trees": b.docsets[d], "names": names(b.docsets[d])}) + "\n")
            with open(ft, "w") as f:
                for i in mine:
                    f.write(json.dumps({"id": i, "ds": ren[by[i]["ds"]], "ev": evs[i]}) + "\n")
            return {"TRACE": ft, "DOCS": fd}
        v = tla.validate("TraceObjects", list(evs), write, work, stats=stats)
        return {"verdicts": v, "results": res, "stats": stats, "events": evs}
    finally:
        shutil.rmtree(work, ignore_errors=True)
