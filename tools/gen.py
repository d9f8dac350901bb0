"""Random template documents, messages and decoder inputs.

The generator knows only structure (which entities follow which): what a
document, message or stream *means* is decided by the TLA+ specification."""
import random
from xml.sax.saxutils import quoteattr


def node(t, a=None, c=None, value=None):
    n = {"t": t, "a": dict(a or {}), "c": list(c or [])}
    if value is not None:
        n["a"]["value"] = value
        n["v"] = list(value.encode())
    return n


def to_xml(n, ind=0):
    s = " " * ind + "<" + n["t"]
    for k, v in n["a"].items():
        s += " %s=%s" % (k, quoteattr(str(v)))
    if "i" in n:
        s += " id=%s" % quoteattr("".join(map(chr, n["i"])))
    if "g" in n:
        s += " mfast:tag=%s" % quoteattr("|".join(n["g"]))
    if not n["c"]:
        return s + "/>\n"
    return s + ">\n" + "".join(to_xml(x, ind + 1) for x in n["c"]) + " " * ind + "</" + n["t"] + ">\n"


INT = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
XMLNAME = {"i32": "int32", "u32": "uInt32", "i64": "int64", "u64": "uInt64", "dec": "decimal",
           "asc": "string", "uni": "string", "bv": "byteVector", "grp": "group", "seq": "sequence",
           "vi32": "int32Vector", "vu32": "uInt32Vector", "vi64": "int64Vector", "vu64": "uInt64Vector",
           "ts": "timestamp", "enum": "enum", "set": "set", "bool": "boolean"}
BOUND = sorted({s * (2**k + d) for k in (0, 6, 7, 13, 14, 20, 21, 27, 28, 31, 32, 34, 35, 41, 48, 55, 56, 62, 63, 64)
                for d in (-1, 0, 1) for s in (1, -1)})


def rint(r, t, small=0.5):
    lo, hi = INT[t]
    x = r.random()
    if x < small:
        v = r.randint(-3, 12)
    elif x < 0.8:
        v = r.choice(BOUND)
    else:
        v = r.randint(-2**r.randint(1, 63), 2**r.randint(1, 64))
    return max(lo, min(hi, v)) if not lo <= v <= hi else v


def rascii(r, n=None):
    if n is None:
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 13, 20])
    return bytes(r.randint(97, 122) if r.random() < .8 else r.randint(32, 126) for _ in range(n))


def rbytes(r, n=None):
    if n is None:
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 16, 20])
    return bytes(r.choice([0, 1, 127, 128, 255, r.randint(0, 255)]) for _ in range(n))


class F:
    """one field of the generator's structural model"""

    def __init__(self, **k):
        self.k = self.name = ""
        self.opt = False
        self.op = "none"
        self.init = None          # python value, see val_json
        self.sub = []
        self.len = self.ex = self.ma = None
        self.els = []
        self.nbits = 0
        self.tag = 0
        self.ckey = None
        self.__dict__.update(k)

    def key(self):
        return self.ckey or self.name


DEFAULT = dict(
    kinds={"i32": 3, "u32": 3, "i64": 3, "u64": 3, "dec": 3, "sdec": 2, "asc": 3, "uni": 2, "bv": 2, "vec": 1,
           "enum": 1, "bool": 1, "set": 1, "ts": 0, "grp": 2, "seq": 2, "nest": 0, "tref": 1},
    ops={"none": 3, "constant": 1, "default": 2, "copy": 4, "increment": 3, "delta": 4, "tail": 3},
    fields=(1, 7), depth=2, p_opt=.5, p_init=.5, p_ctx=.1, templates=(1, 3), p_reset=.1, p_dict=.15,
    p_len_op=.5, p_type=.0, docs=(1, 1), pmapfill=0, p_share=0.1, p_ns=.04, p_field_elem=.1, p_empty_init=.02, uniq_tref=False)


class TemplateGen:
    def __init__(self, r, **cfg):
        self.r = r
        self.c = dict(DEFAULT, **cfg)
        self.n = 0
        self.used, self.inner = [], {}
        self.tns, self.tnsof = "", {}
        self.templates = {}      # name -> list of fields (for templateRef)
        self.ids = {}            # id -> fields
        self.defs = {}           # type name -> (model, node)
        self.pool = []           # (kind class, name) to share keys

    def pick(self, w):
        ks = [k for k in w if w[k] > 0]
        return self.r.choices(ks, [w[k] for k in ks])[0]

    def fresh(self):
        self.n += 1
        return "f%d" % self.n

    def init_for(self, k, f):
        r = self.r
        if k in INT:
            v = rint(r, k)
            return v, str(v)
        if k == "ts":
            v = rint(r, "i64")
            return v, str(v)
        if k == "dec":
            v = r.randint(-1000, 1000)
            if r.random() < .35:
                n = r.randint(1, 4)
                frac = "".join(r.choice("0123456789") for _ in range(n))
                sign = "-" if v < 0 else ""
                return (int(sign + "%d%s" % (abs(v), frac)), -n), "%s%d.%s" % (sign, abs(v), frac)
            return (v, 0), str(v)
        if k in ("asc", "uni"):
            if r.random() < self.c["p_empty_init"]:
                return b"", ""
            n = r.choice([1, 2, 3, 5, 9])
            b = bytes(r.randint(97, 122) for _ in range(n))
            return b, b.decode()
        if k == "bv":
            b = rbytes(r, r.choice([1, 2, 4]))
            h = b.hex()
            if r.random() < .3:
                h = h.upper()
            if r.random() < .2:
                h = " ".join(h[i:i + 2] for i in range(0, len(h), 2))
            return b, h
        if k in ("enum", "bool"):
            i = r.randrange(len(f.els))
            return f.els[i][1], f.els[i][0]
        if k == "set":
            i = r.randrange(len(f.els))
            return 1 << i, f.els[i][0]
        raise KeyError(k)

    def ns(self, a, k="ns"):
        if self.r.random() < self.c["p_ns"]:
            a[k] = self.r.choice(["n1", "n2", ""])
        return a

    def ctx_attrs(self, f, cls):
        """key / dictionary / ns of the operator"""
        r, a = self.r, {}
        if r.random() < self.c["p_ctx"]:
            x = r.random()
            if x < .6:
                name = "k%s%d" % (cls, r.randint(1, 2))
                a["key"] = name
                f.ckey = name
            if x > .4:
                a["dictionary"] = r.choice(["global", "template", "type", "dA", "dB"])
            if r.random() < .2:
                a["ns"] = r.choice(["n1", "n2"])
            if f.op == "tail" or True:
                pass
        return a

    def op_node(self, f, k, cls, init_p=None, must_init=False):
        r = self.r
        if f.op == "none":
            return []
        a = self.ctx_attrs(f, cls)
        val = None
        if must_init or r.random() < (self.c["p_init"] if init_p is None else init_p):
            f.init, val = self.init_for(k, f)
        return [node(f.op, a, [], val)]

    def ops_for(self, k):
        if k in INT or k == "ts":
            no = {"tail"}
        elif k in ("asc", "uni", "bv"):
            no = {"increment"}
        elif k == "dec":
            no = {"increment", "tail"}
        elif k in ("enum", "bool", "set"):
            no = {"increment", "delta", "tail"}
        else:
            no = set()
        return {o: w for o, w in self.c["ops"].items() if o not in no}

    def scalar(self, k):
        r = self.r
        f = F(k=k, name=self.fresh(), opt=r.random() < self.c["p_opt"])
        f.op = self.pick(self.ops_for(k))
        a = {"name": f.name}
        if f.opt:
            a["presence"] = "optional"
        elif r.random() < .1:
            a["presence"] = "mandatory"
        if r.random() < .2:
            a["id"] = r.randint(1, 60000)
        self.ns(a)
        ch = []
        if k == "uni":
            a["charset"] = "unicode"
        elif k == "asc" and r.random() < .1:
            a["charset"] = "ascii"
        if k in ("enum", "set"):
            n = r.randint(1, 5) if k == "enum" else r.randint(1, 34)
            vals, v = [], 0
            expl = r.random() < .5
            for i in range(n):
                v = v + r.randint(1, 9) if expl and i else (r.randint(0, 3) if expl else i)
                vals.append(v)
            f.els = [("E%d" % i, vals[i]) for i in range(n)]
            if k == "set":
                f.els = [("E%d" % i, i) for i in range(n)]
            for nm, v in f.els:
                ch.append(node("element", dict({"name": nm}, **({"value": v} if expl and k == "enum" else {}))))
        elif k == "bool":
            f.els = [("false", 0), ("true", 1)]
        must = f.op == "constant" or (f.op == "default" and not f.opt)
        if k in ("enum", "bool", "set"):
            must = must or (f.op != "none" and not f.opt)
        ch += self.op_node(f, k, k, must_init=must)
        n = node(XMLNAME[k], a, ch)
        if r.random() < self.c["p_field_elem"]:
            inner = dict((x, a[x]) for x in a if x == "charset")
            outer = dict((x, a[x]) for x in a if x != "charset")
            if k in ("enum", "set"):
                els = [x for x in ch if x["t"] == "element"]
                n = node("field", outer, [node(XMLNAME[k], inner, els)] + [x for x in ch if x["t"] != "element"])
            else:
                n = node("field", outer, [node(XMLNAME[k], inner)] + ch)
        return f, n

    def sdec(self):
        r = self.r
        f = F(k="sdec", name=self.fresh(), opt=r.random() < self.c["p_opt"])
        ex = F(k="exp", name=f.name + "e", opt=f.opt)
        ma = F(k="i64", name=f.name + "m")
        f.ex, f.ma = ex, ma
        ch = []
        ops = {o: w for o, w in self.c["ops"].items() if o != "tail"}
        which = r.randint(1, 3)
        if which & 1:
            ex.op = self.pick(dict(ops, increment=0))
            kids = []
            if ex.op != "none":
                a = self.ctx_attrs(ex, "exp")
                v = None
                if ex.op == "constant" or (ex.op == "default" and not ex.opt) or r.random() < self.c["p_init"]:
                    ex.init = r.randint(-63, 63)
                    v = str(ex.init)
                kids = [node(ex.op, a, [], v)]
            ch.append(node("exponent", {}, kids))
        if which & 2:
            ma.op = self.pick(ops)
            kids = []
            if ma.op != "none":
                a = self.ctx_attrs(ma, "i64")
                v = None
                if ma.op in ("constant", "default") or r.random() < max(self.c["p_init"], 0):
                    ma.init = rint(r, "i64")
                    v = str(ma.init)
                kids = [node(ma.op, a, [], v)]
            ch.append(node("mantissa", {}, kids))
        a = self.ns({"name": f.name})
        if f.opt:
            a["presence"] = "optional"
        return f, node("decimal", a, ch)

    def field(self, depth):
        r = self.r
        kinds = dict(self.c["kinds"])
        if depth <= 0:
            for k in ("grp", "seq"):
                kinds[k] = 0
        if not self.templates:
            kinds["tref"] = 0
        k = self.pick(kinds)
        if k == "vec":
            k = r.choice(["vi32", "vu32", "vi64", "vu64"])
            f = F(k=k, name=self.fresh(), opt=r.random() < self.c["p_opt"])
            a = {"name": f.name}
            if f.opt:
                a["presence"] = "optional"
            return [f], node(XMLNAME[k], a)
        if k == "sdec":
            f, n = self.sdec()
            return [f], n
        if k == "nest":
            return [F(k="nest")], node("templateRef")
        if k == "tref":
            t = r.choice(sorted(self.templates))
            if self.c["uniq_tref"]:
                if t in self.used[-1] or any(x in self.used[-1] for x in self.inner[t]):
                    return self.field(depth)
                self.used[-1] |= {t} | self.inner[t]
            a = {"name": t}
            if self.tnsof[t] != self.tns:
                a["templateNs"] = self.tnsof[t]
            return list(self.templates[t]), node("templateRef", a)
        if k in ("grp", "seq"):
            f = F(k=k, name=self.fresh(), opt=r.random() < self.c["p_opt"])
            a = self.ns({"name": f.name})
            if f.opt:
                a["presence"] = "optional"
            if r.random() < self.c["p_dict"]:
                a["dictionary"] = r.choice(["template", "type", "dA", "global"])
            ch = []
            if r.random() < self.c["p_dict"]:
                ch.append(node("typeRef", self.ns({"name": r.choice(["T1", "T2"])})))
            if k == "seq":
                f.len = F(k="u32", name="", opt=f.opt)
                if r.random() < self.c["p_len_op"]:
                    ln = F(k="u32", name=self.fresh() if r.random() < .9 else "", opt=f.opt)
                    ln.op = self.pick(dict(self.c["ops"], tail=0, constant=0))
                    kids = []
                    if ln.op != "none":
                        la = self.ctx_attrs(ln, "len")
                        v = None
                        if (ln.op == "default" and not ln.opt) or r.random() < self.c["p_init"]:
                            ln.init = r.randint(0, 3)
                            v = str(ln.init)
                        kids = [node(ln.op, la, [], v)]
                    f.len = ln
                    ch.append(node("length", self.ns({"name": ln.name} if ln.name else {}), kids))
            subs, nodes = self.fields(depth - 1)
            f.sub = subs
            ch += nodes
            return [f], node(XMLNAME[k], a, ch)
        if k == "ts":
            f, n = self.scalar("ts")
            return [f], n
        f, n = self.scalar(k)
        return [f], n

    def fields(self, depth, lo=None):
        fs, ns = [], []
        self.used.append(set())
        for _ in range(self.r.randint(*(self.c["fields"] if lo is None else lo))):
            f, n = self.field(depth)
            # a template referenced twice in one segment repeats its names: fine, but keep it rare
            fs += f
            ns.append(n)
        self.last_used = self.used.pop()
        return fs, ns

    def template(self, tid, name):
        r = self.r
        fs, ns = self.fields(self.c["depth"])
        a = {"name": name, "id": tid}
        if r.random() < self.c["p_dict"]:
            a["dictionary"] = r.choice(["template", "type", "dA", "dB", "global"])
        ch = []
        if r.random() < self.c["p_dict"]:
            ch.append(node("typeRef", self.ns({"name": r.choice(["T1", "T2"])})))
        self.ns(a)
        if r.random() < self.c["p_reset"]:
            a[r.choice(["reset", "scp:reset"])] = r.choice(["yes", "true"])
        self.ids[tid] = fs
        self.templates[name] = fs
        self.tnsof[name] = self.tns
        self.inner[name] = self.last_used
        return node("template", a, ch + ns)

    def doc(self):
        r = self.r
        kids = []
        self.tns = self.ns({}, "t").get("t", "")
        for _ in range(r.randint(*self.c["templates"])):
            i = len(self.ids) + 1
            tid = i if r.random() < .6 else i + r.choice([100, 127, 128, 16383, 16384, 70000])
            while tid in self.ids:
                tid += 1
            c = self.c
            if not self.ids:      # something a nested message can be that does not nest itself
                self.c = dict(c, kinds=dict(c["kinds"], nest=0))
            kids.append(self.template(tid, "T_%d" % i))
            self.c = c
        a = {}
        if r.random() < self.c["p_dict"]:
            a["dictionary"] = r.choice(["template", "type", "dA", "global"])
        self.ns(a)
        if self.tns:
            a["templateNs"] = self.tns
        return node("templates", a, kids)

    def docset(self):
        return [self.doc() for _ in range(self.r.randint(*self.c["docs"]))]


# ---------------------------------------------------------------- messages
def jv(k, v):
    """python value -> driver JSON"""
    if v is None:
        return None
    if k in INT or k in ("enum", "bool", "set", "ts"):
        return str(v)
    if k in ("dec", "sdec"):
        return [str(v[0]), str(v[1])]
    if k in ("asc", "uni", "bv"):
        return "x" + v.hex()
    raise KeyError(k)


def fills(f):
    """absent optional default fields with an initial value are sent as that value: known finding F1"""
    return f.op == "default" and f.init is not None


class Values:
    """value choice biased by the values sent before (same, +1, related strings, extremes, absent)"""

    def __init__(self, r, ids, tids=None):
        self.r, self.ids, self.last, self.taillen = r, ids, {}, {}
        self.tids = tids
        # some histories have long strings, sequences and vectors
        self.big = r.random() < .06
        self.budget = 25

    def long(self, *lens):
        """a length beyond the usual ones, now and then, in a history of that kind"""
        if self.big and self.budget > 0 and self.r.random() < .25:
            n = self.r.choice(lens)
            self.budget -= 1 if n < 1000 else 12
            return n
        return 0

    def pick(self, f, path):
        r = self.r
        if f.op == "constant":
            if f.opt and r.random() < .4:
                return None
            return f.init
        if f.opt and not fills(f) and r.random() < .3:
            return None
        key = (f.key(), f.k if f.k not in ("enum", "bool", "set") else "u64")
        prev = self.last.get(key)
        x = r.random()
        v = self.choose(f, prev, x)
        if f.op == "tail":
            n = self.taillen.get(f.key(), 0)
            n = max(n, len(f.init or b""))
            if r.random() < .15:
                n += r.randint(1, 4)
            if n == 0 and r.random() < .7:
                n = r.randint(1, 6)
            self.taillen[f.key()] = n
            pad = rascii(r, n) if f.k == "asc" else rbytes(r, n)
            v = (v + pad[len(v):])[:n] if len(v) < n else v[:n]
            if prev is not None and len(prev) == n and r.random() < .6:
                j = r.randint(0, n)
                v = prev[:j] + v[j:]
        elif f.k in ("asc", "uni", "bv") and f.ckey:
            self.taillen[f.key()] = max(self.taillen.get(f.key(), 0), len(v))
        if f.k == "asc" and len(v) > 1:
            v = v.replace(b"\0", b"z")
        self.last[key] = v
        return v

    def choose(self, f, prev, x):
        r, k = self.r, f.k
        if x < .12 and f.init is not None:
            return f.init
        if k in INT or k == "ts":
            t = "i64" if k == "ts" else k
            lo, hi = INT[t]
            if prev is not None:
                if x < .35:
                    return prev
                if x < .6:
                    return prev + 1 if prev < hi else lo
                if x < .7:
                    return max(lo, min(hi, prev + r.randint(-70, 70)))
            return rint(r, t)
        if k in ("enum", "bool"):
            if prev is not None and x < .4:
                return prev if any(e[1] == prev for e in f.els) else f.els[0][1]
            return r.choice(f.els)[1]
        if k == "set":
            return r.getrandbits(len(f.els))
        if k == "dec":
            if prev is not None:
                if x < .35:
                    return prev
                if x < .6:
                    return (max(-2**63, min(2**63 - 1, prev[0] + r.randint(-200, 200))), prev[1])
            return (rint(r, "i64"), r.choice([0, 0, -1, 1, -2, -8, 63, -63, r.randint(-63, 63)]))
        if k in ("asc", "uni", "bv"):
            mk = rascii if k == "asc" else rbytes
            if prev is not None:
                if x < .3:
                    return prev
                if x < .8:
                    y = r.random()
                    i = r.randint(0, len(prev))
                    if y < .3:
                        return prev[:i] + mk(r, r.randint(0, 4))
                    if y < .6:
                        return mk(r, r.randint(0, 4)) + prev[i:]
                    if y < .8:
                        return prev[:i] + mk(r, r.randint(0, 3)) + prev[i:]
                    return prev[:i]
            if k == "asc" and x > .985:
                return b"\0"
            n = self.long(31, 32, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 300, *([700, 4100] if r.random() < .08 else []))
            return mk(r, n) if n else mk(r)
        raise KeyError(k)

    def field(self, f, path):
        r = self.r
        if f.k == "grp":
            if f.opt and r.random() < .35:
                return None
            return {"g": self.fields(f.sub, path + f.name + "/")}
        if f.k == "seq":
            if f.opt and not fills(f.len) and r.random() < .3:
                return None
            key = ("len", f.len.key() if f.len.op != "none" else id(f))
            prev = self.last.get(key)
            x = r.random()
            if prev is not None and x < .3:
                n = prev
            elif prev is not None and x < .5:
                n = prev + 1
            elif f.len.init is not None and x < .7:
                n = f.len.init
            else:
                n = r.choice([0, 0, 1, 1, 2, 3])
            n = min(n, 6)
            if self.big and not any(x.sub for x in f.sub):
                n = self.long(7, 8, 9, 15, 16, 17, 33, 64, 126, 127, 128, 130) or n
            self.last[key] = n
            return {"s": [self.fields(f.sub, path) for _ in range(n)]}
        if f.k == "nest":
            t = r.choice(self.tids or sorted(self.ids))
            # the nested message must not nest for ever
            t2 = [x for x in (self.tids or sorted(self.ids)) if not has_nest(self.ids[x])]
            t = r.choice(t2) if t2 and (len(path) > 6 or r.random() < .7) else t
            if has_nest(self.ids[t]) and path.count("n/") > 1:
                t = t2[0]
            return {"n": t, "f": self.fields(self.ids[t], path + "n/")}
        if f.k == "sdec":
            if f.opt and not fills(f.ex) and r.random() < .3:
                return None
            def part(p, bias):
                q = self.last.get((p.key(), p.k))
                if p.op == "constant":
                    return p.init
                x = r.random()
                if p.k == "exp":
                    v = p.init if x < .2 and p.init is not None else q if q is not None and x < .5 else \
                        min(63, q + 1) if q is not None and x < .6 else r.choice([0, -2, r.randint(-63, 63)])
                else:
                    v = self.choose(p, q, x)
                self.last[(p.key(), p.k)] = v
                return v
            if f.ex.op == "constant" and f.opt and r.random() < .2:
                return None
            e = part(f.ex, 0)
            m = part(f.ma, 1)
            return [str(m), str(e)]
        if f.k[0] == "v":
            if f.opt and r.random() < .3:
                return None
            return {"v": [str(rint(r, f.k[1:])) for _ in range(self.long(31, 63, 64, 65, 127, 128, 200) or r.choice([0, 1, 2, 3, 7]))]}
        return jv(f.k, self.pick(f, path))

    def fields(self, fs, path=""):
        return [self.field(f, path) for f in fs]


def has_nest(fs):
    return any(f.k == "nest" or has_nest(f.sub) for f in fs)


# ---------------------------------------------------------------- decoder inputs
def stop(g):
    return bytes(g[:-1]) + bytes([g[-1] | 128])


def enc_u(v, pad=0):
    g = []
    while True:
        g.insert(0, v & 127)
        v >>= 7
        if not v:
            break
    return stop([0] * pad + g)


def enc_s(v, pad=0):
    g = []
    while True:
        g.insert(0, v & 127)
        done = (v >> 7 == 0 and g[0] < 64) or (v >> 7 == -1 and g[0] >= 64)
        v >>= 7
        if done:
            break
    return stop(([127] if g[0] >= 64 else [0]) * pad + g)


def enc_pmap(bits, mode=0, extra=0):
    n = len(bits)
    if mode == 0:
        while n and not bits[n - 1]:
            n -= 1
    nb = max(1, (n + 6) // 7) + extra
    b = list(bits[:n]) + [0] * (7 * nb - n)
    return stop([sum(b[7 * i + j] << (6 - j) for j in range(7)) for i in range(nb)])


RANGES = {"ts": (-2**63, 2**63 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}


class Streams:
    """random well-structured inputs: entities in the right order, values and presence bits arbitrary"""

    def __init__(self, r, ids, overlong=0.0, weird=0.0):
        self.r, self.ids, self.overlong, self.weird, self.strange_id = r, ids, overlong, weird, 0.02
        self.reset()

    def reset(self):
        self.seen, self.acc = set(), {}

    def step(self, f, lo, hi, wild):
        """a delta that keeps the value, as far as it is known here, within lo..hi"""
        r = self.r
        a = self.acc.get(f.key(), f.init if isinstance(f.init, int) else 0)
        if r.random() < wild:
            return r.choice([-1, 1, r.randint(-2**31, 2**31 - 1), r.randint(-2**40, 2**40), r.randint(-2**63, 2**63 - 1)])
        t = r.choice([a, a + 1, a - 1, a + r.randint(-100, 100), r.randint(lo, hi), lo, hi])
        t = min(max(t, lo), hi)
        self.acc[f.key()] = t
        return min(max(t - a, -2**63), 2**63 - 1)

    def pad(self):
        return 1 if self.r.random() < self.overlong else 0

    def int_(self, t, nullable, v=None):
        r = self.r
        if nullable and r.random() < .25:
            return b"\x80"
        if v is None:
            if t == "exp":
                v = r.choice([0, 1, -1, -2, 63, -63, r.randint(-63, 63)])
            else:
                v = rint(r, t, .6)
        if nullable and v >= 0:
            v += 1
        return enc_s(v, self.pad()) if t in ("i32", "i64", "exp") else enc_u(v, self.pad())

    def str_(self, k, nullable, n=None):
        r = self.r
        if nullable and r.random() < .2:
            return b"\x80"
        if k == "asc":
            s = rascii(r, n)
            if not s:
                return b"\x00\x80" if nullable else b"\x80"
            return stop(s)
        s = rbytes(r, n)
        return enc_u(len(s) + (1 if nullable else 0)) + s

    def value(self, f, nullable):
        r, k = self.r, f.k
        if k in INT or k == "exp":
            return self.int_(k, nullable)
        if k == "ts":
            return self.int_("i64", nullable)
        if k in ("enum", "bool"):
            return self.int_("u64", nullable, r.choice(f.els)[1])
        if k == "set":
            return self.int_("u64", nullable, r.getrandbits(len(f.els)))
        if k in ("asc", "uni", "bv"):
            return self.str_(k, nullable)
        if k == "dec":
            if nullable and r.random() < .2:
                return b"\x80"
            e = r.choice([0, 1, -2, r.randint(-63, 63)])
            return enc_s(e + (1 if nullable and e >= 0 else 0)) + self.int_("i64", False)
        if k[0] == "v":
            if nullable and r.random() < .2:
                return b"\x80"
            n = r.choice([0, 1, 2, 3, 9])
            return enc_u(n + (1 if nullable else 0)) + b"".join(self.int_(k[1:], False) for _ in range(n))
        raise KeyError(k)

    def bit(self, f, bits):
        r = self.r
        safe = f.opt or f.init is not None or f.key() in self.seen
        b = 1 if r.random() < (.5 if safe else .93) else 0
        self.seen.add(f.key())
        bits.append(b)
        return b

    def small_delta(self, nullable):
        r = self.r
        if nullable and r.random() < .2:
            return b"\x80"
        v = r.choice([0, 1, -1, 2, r.randint(-100, 100), r.randint(0, 2**31 - 1), r.randint(-2**40, 2**40)])
        return enc_s(v + (1 if nullable and v >= 0 else 0), self.pad())

    def scalar(self, f, bits):
        r = self.r
        if f.op == "none":
            return self.value(f, f.opt)
        if f.op == "constant":
            if f.opt:
                bits.append(r.randint(0, 1))
            return b""
        if f.op == "delta":
            if f.k in ("asc", "uni", "bv"):
                if f.opt and r.random() < .2:
                    return b"\x80"
                v = r.choice([0, 0, 1, -1, -2, 2, r.randint(-6, 6)])
                return enc_s(v + (1 if f.opt and v >= 0 else 0)) + self.str_(f.k, False)
            if f.k == "dec":
                if f.opt and r.random() < .2:
                    return b"\x80"
                e = r.choice([0, 0, 0, 1, -1, r.randint(-8, 8)])
                return enc_s(e + (1 if f.opt and e >= 0 else 0)) + self.small_delta(False)
            if f.k == "exp":
                e = r.choice([0, 0, 1, -1, r.randint(-8, 8)])
                if f.opt and r.random() < .2:
                    return b"\x80"
                return enc_s(e + (1 if f.opt and e >= 0 else 0))
            if f.opt and r.random() < .2:
                return b"\x80"
            v = self.step(f, *RANGES[f.k], .03)
            return enc_s(v + (1 if f.opt and v >= 0 else 0), self.pad())
        if self.bit(f, bits):
            return self.value(f, f.opt)
        return b""

    def absent_scalar(self, bs, f):
        return f.opt and bs == b"\x80"

    def field(self, f, bits, depth):
        r = self.r
        if f.k == "grp":
            if f.opt:
                b = r.random() < .6
                bits.append(int(b))
                if not b:
                    return b""
            return self.segment(f.sub, depth)
        if f.k == "seq":
            return self.seq(f, bits, depth)
        if f.k == "sdec":
            n0 = len(bits)
            e = self.scalar(f.ex, bits)
            # whether the mantissa follows depends on the meaning of the exponent; when it may be
            # absent make the choice explicit by sending a value
            if f.ex.op == "none" or f.ex.op == "delta":
                if f.opt and e == b"\x80":
                    return e
            elif f.ex.op == "constant":
                if f.opt and not bits[-1]:
                    return e
            elif f.opt:
                if len(bits) > n0 and bits[-1] and e == b"\x80":
                    return e
                if not bits[-1]:
                    bits[-1] = 1
                    e = self.int_("exp", True, r.randint(-5, 5))
                    if e == b"\x80":
                        return e
            return e + self.scalar(f.ma, bits)
        if f.k == "nest":
            cand = [t for t in self.ids if not has_nest(self.ids[t])]
            t = r.choice(sorted(self.ids) if depth < 2 else cand)
            return self.message(t, depth + 1, r.random() < .85 or None)
        return self.scalar(f, bits)

    def seq(self, f, bits, depth):
        r, l = self.r, f.len
        n = r.choice([0, 1, 1, 2, 3])
        if l.op == "none":
            if f.opt and r.random() < .25:
                return b"\x80"
            return enc_u(n + (1 if f.opt else 0)) + b"".join(self.segment(f.sub, depth) for _ in range(n))
        if l.op in ("copy", "default", "increment"):
            # always send it, so that the number of elements is known here
            bits.append(1)
            if f.opt and r.random() < .25:
                return b"\x80"
            return enc_u(n + (1 if f.opt else 0)) + b"".join(self.segment(f.sub, depth) for _ in range(n))
        d = r.choice([0, 1, 1, 2]) if l.op == "delta" else 0
        if f.opt and r.random() < .25:
            return b"\x80"
        # a delta: the number of elements is unknown here; guess
        return enc_s(d + (1 if f.opt else 0)) + b"".join(self.segment(f.sub, depth) for _ in range((l.init or 0) + d))

    def segment(self, fs, depth):
        bits = []
        body = b"".join(self.field(f, bits, depth) for f in fs)
        if not needs_pmap(fs):
            return body
        return self.pmap(bits) + body

    def pmap(self, bits):
        r = self.r
        return enc_pmap(bits, r.randint(0, 1), r.randint(1, 3) if r.random() < max(self.overlong, .05) else 0)

    def message(self, tid, depth=0, with_id=True):
        bits = [1 if with_id else 0]
        body = b"".join(self.field(f, bits, depth) for f in self.ids[tid])
        sent = tid
        if self.r.random() < self.strange_id:
            sent = self.r.choice([0, tid + 1000, 2**32 - 1, self.r.randint(0, 300)])
        return self.pmap(bits) + (enc_u(sent) if with_id else b"") + body


def fbits(f):
    if f.k == "grp":
        return 1 if f.opt else 0
    if f.k == "seq":
        return fbits(f.len)
    if f.k == "sdec":
        return fbits(f.ex) + fbits(f.ma)
    if f.k == "nest" or f.k[0] == "v":
        return 0
    return 1 if f.op in ("default", "copy", "increment", "tail") or (f.op == "constant" and f.opt) else 0


def needs_pmap(fs):
    return any(fbits(f) for f in fs)


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4])):
        x = r.random()
        if not b:
            b = bytearray([r.randint(0, 255)])
        i = r.randrange(len(b))
        if x < .3:
            b[i] ^= 1 << r.randrange(8)
        elif x < .5:
            b[i] = r.choice([0, 0x7f, 0x80, 0xff, r.randint(0, 255)])
        elif x < .7:
            del b[i]
        elif x < .85:
            b.insert(i, r.choice([0, 0x7f, 0x80, 0xff]))
        else:
            b = b[:i + 1]
    return bytes(b) or b"\x00"
