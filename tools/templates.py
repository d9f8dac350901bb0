"""Random template documents using every element and attribute of the format, right and wrong ones.
What they mean is decided by Templates.tla."""
import random
from gen import node, to_xml

PRIM = ["int32", "uInt32", "int64", "uInt64", "decimal", "string", "unicode", "byteVector", "int32Vector", "uInt32Vector",
        "int64Vector", "uInt64Vector", "boolean", "enum", "group", "sequence"]
KIND = {"int32": "i32", "uInt32": "u32", "int64": "i64", "uInt64": "u64", "timestamp": "i64", "decimal": "dec", "string": "asc",
        "unicode": "uni", "byteVector": "bv", "int32Vector": "vec", "uInt32Vector": "vec", "int64Vector": "vec",
        "uInt64Vector": "vec", "boolean": "enum", "enum": "enum", "set": "set", "group": "grp", "sequence": "seq"}
RANGE = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
OPS = ["constant", "default", "copy", "increment", "delta", "tail"]
NO = {"i32": {"tail"}, "u32": {"tail"}, "i64": {"tail"}, "u64": {"tail"}, "dec": {"tail", "increment"}, "exp": {"tail"},
      "asc": {"increment"}, "uni": {"increment"}, "bv": {"increment"}, "enum": {"delta", "tail"}, "set": {"delta", "tail"}}
ODD = {"type": .02, "operator": .3, "missing": .3, "tag": .3, "increasing": .15, "exponent": .2, "element": .15, "decimal": .15}
NSS = ["", "n1", "n2", "urn:a:b"]
TNS = ["", "t1", "t2"]


class T:
    """what the generator remembers of a type"""

    def __init__(self, k, els=(), op=False):
        self.k, self.els, self.op = k, list(els), op


class Docs:
    def __init__(self, r, std=False, gen=False, p_bad=.3):
        self.r, self.std, self.gen, self.p_bad = r, std, gen, p_bad
        self.n = 0
        self.tid, self.closure, self.used = 0, {}, set()
        self.tmpl = []           # (tns, name)
        self.reg = {}            # (ns, name) -> T
        self.fit = 0
        self.prims = PRIM + ([] if std else ["set", "timestamp"])

    # ------------------------------------------------------------ pieces
    def hit(self, p):
        return self.r.random() < p

    def name(self, pre="f"):
        self.n += 1
        if self.gen and self.hit(.1):
            return self.r.choice(["%s-%d", "%s.%d", "%s_%d"] + ["9%s%d"] * (pre != "D")) % (pre, self.n)
        return "%s%d" % (pre, self.n if self.gen or self.hit(.95) else self.r.randint(1, max(1, self.n)))

    def bad(self, what):
        """whether to do this one thing wrong here"""
        if self.wrong and self.hit(ODD.get(what, .06)):
            self.wrong = False
            self.did = what
            return True
        return False

    def integer(self, t):
        lo, hi = RANGE[t]
        x = self.r.random()
        v = self.r.randint(0, 12) if x < .4 else self.r.choice([lo, hi, lo + 1, hi - 1]) if x < .7 else self.r.randint(lo, hi)
        return v

    def digits(self, v):
        s = str(abs(v))
        if self.hit(.1):
            s = "0" * self.r.randint(1, 4) + s
        return "-" + s if v < 0 else s

    def initial(self, k, els):
        r = self.r
        if k in RANGE:
            if self.bad("initial"):
                return r.choice(["", "x", "-", "1.5", "12x", "1 2", "0x10", "--1", "-" + str(2**64), str(2**65),
                                 str(RANGE[k][1] + 1), str(RANGE[k][0] - 1)])
            return self.digits(self.integer(k))
        if k == "exp":
            if self.bad("exponent"):
                return r.choice(["", "x", "300", "-300", "1.0"])
            return str(r.randint(-63, 63))
        if k == "dec":
            if self.bad("decimal"):
                return r.choice(["", "x", "1.2.3", ".", "1.x", "-", "--1.0"])
            v = r.choice([0, r.randint(-99, 99), r.randint(-10**9, 10**9)])
            s = self.digits(v)
            if self.hit(.5):
                s += "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 6)))
            return s
        if k in ("asc", "uni"):
            if self.hit(.05):
                return ""
            pool = "abcxyzABC 0123456789<>&\"'%$#;=/\\?" + ("" if k == "asc" else "\u00e9\u20ac\U0001f600")
            x = "".join(r.choice(pool) for _ in range(r.choice([1, 2, 5, 9, 30]))).strip() or "q"
            if self.hit(.1):        # what a compiler might take for something else
                x += r.choice(["??/", "??=", "??'", "\\x41", "\\n", "%d", "*/", "//", ")x\""]) + r.choice(["", "0", "f", "x"])
            return x
        if k == "bv":
            if self.bad("hex"):
                return r.choice(["a", "0", "0g", "abc", "zz", "0x12"])
            b = bytes(r.choice([0, 255, 127, r.randint(0, 255)]) for _ in range(r.choice([1, 2, 4, 9])))
            h = b.hex()
            if self.hit(.3):
                h = h.upper()
            if self.hit(.3):
                h = r.choice(" -").join(h[i:i + 2] for i in range(0, len(h), 2))
            return h
        if k in ("enum", "set"):
            if self.bad("element"):
                return r.choice(["none_such", "-3", "E99", "1x", "0x0", "1.0"])
            i = r.randrange(len(els)) if els else 0
            if k == "set" and not self.std and self.hit(.3):
                return str(r.getrandbits(len(els)))
            if k == "enum" and not self.std and els and self.hit(.3):
                return str(els[i][1])
            return els[i][0] if els else "none"
        raise KeyError(k)

    def context(self):
        a = {}
        if self.hit(.3):
            if self.hit(.5):
                a["key"] = self.r.choice(["k1", "k2", "a.b", ""])
            if self.hit(.5):
                a["dictionary"] = self.r.choice(["global", "template", "type", "dA", "dB", ""])
            if self.hit(.5):
                a["ns"] = self.r.choice(NSS)
        return a

    def operator(self, k, els, opt, has_init=False, p=.6, pi=.5):
        if not self.hit(p):
            return []
        op = self.r.choice(OPS)
        if op in NO.get(k, ()):
            if k == "enum" and op == "delta" or not self.bad("operator"):
                op = self.r.choice(["default", "copy", "constant"])
        need = not has_init and (op == "constant" or (op == "default" and not opt))
        # a mandatory enum with an operator always has a value to begin with: see DESIGN
        val = None
        if self.hit(pi) or (need and not self.bad("missing")):
            val = self.initial(k, els)
        a = self.context()
        n = node(op, a, [], val)
        if self.hit(.5):    # attribute order means nothing
            n["a"] = dict(sorted(n["a"].items(), key=lambda _: self.r.random()))
        return [n]

    def ident(self, n, p=.25):
        """an id, as a number or as a text"""
        if self.bad("id"):
            n["i"] = [ord(c) for c in self.r.choice(["", "x", "-1", "1x", "4294967296", "18446744073709551616", "1.0", "0x1", "--2"])]
        elif self.hit(p):
            v = self.r.choice([0, 1, self.r.randint(2, 99999), 2**28 - 1])
            if self.hit(.5):
                n["a"]["id"] = v
            else:
                n["i"] = [ord(c) for c in self.digits(v)]
        return n

    def tag(self, n):
        if self.hit(.15):
            if self.tagtype is not None and self.hit(.6):
                n["g"] = [self.r.choice(self.tagtype) for _ in range(self.r.randint(1, 3))]
                if self.bad("tag"):
                    n["g"][-1] = "no_such_tag"
            elif self.tagtype is None and self.hit(.15) and not self.gen:
                n["g"] = ["alone"]
            else:
                n["a"]["mfast:tag"] = self.r.choice([0, 1, 2, 7, 255, 1 << 20])
        return n

    def elements(self, kind, fresh=True):
        r = self.r
        n = r.choice([1, 2, 3, 5, 9]) if kind == "enum" else r.choice([1, 2, 7, 8, 9, 20, 33])
        mode = r.choice(["none", "all"] if self.std else ["none", "all", "mixed"]) if kind == "enum" else "none"
        els, nodes, v = [], [], -1
        for i in range(n):
            a = {"name": "E%d" % i if self.hit(.9) or self.gen else "el-%d" % i}
            shown = a["name"]
            v += 1
            if mode == "all" or (mode == "mixed" and self.hit(.5)):
                v += r.choice([0, 1, 5, 100])
                if i and self.bad("increasing"):
                    v -= r.randint(1, 120)
                    v = max(v, 0)
                a["value"] = v
            if not self.std and self.hit(.08) and not self.gen:
                a["id"] = shown = "I%d" % i
            els.append((shown, v))
            nodes.append({"t": "element", "a": a, "c": []})
        return els, nodes

    # ------------------------------------------------------------ fields
    def body(self, ty, opt, depth, fixed=None):
        """children and attributes of an element of type ty (a name in prims) -> (T, attrs, children)"""
        r = self.r
        k = KIND[ty]
        a, ch, t = {}, [], T(k)
        if ty == "unicode":
            a["charset"] = "unicode"
        elif ty == "string" and self.hit(.2):
            a["charset"] = "ascii"
        if ty == "boolean":
            t.els = [("false", 0), ("true", 1)]
        elif k in ("enum", "set"):
            t.els, nodes = self.elements(k)
            ch += nodes
        if k in ("uni", "bv") and self.hit(.3):
            ln = node("length", {})
            if self.hit(.8):
                ln["a"]["name"] = self.name("l")
            if self.hit(.3):
                ln["a"]["ns"] = r.choice(NSS)
            ch.append(self.ident(ln))
        if k == "dec" and self.hit(.4):
            parts = r.choice([["exponent"], ["mantissa"], ["exponent", "mantissa"], ["mantissa", "exponent"]])
            for p in parts:
                ch.append(node(p, {}, self.operator("exp" if p == "exponent" else "i64", [], opt and p == "exponent")))
        elif k in ("grp", "seq"):
            if self.hit(.2):
                a["dictionary"] = r.choice(["template", "type", "dA", "global", ""])
            if self.hit(.25):
                tr = node("typeRef", {"name": r.choice(["T1", "T2"])})
                if self.hit(.4):
                    tr["a"]["ns"] = r.choice(NSS)
                ch.append(tr)
            if k == "seq" and self.hit(.6):
                ln = node("length", {}, self.operator("u32", [], opt, p=.8, pi=.75))
                if self.hit(.85):
                    ln["a"]["name"] = self.name("l")
                if self.hit(.3):
                    ln["a"]["ns"] = r.choice(NSS)
                ch.append(self.ident(ln))
            for _ in range(r.randint(1 if self.gen else r.choice([0, 1, 1, 1]), 3)):
                ch.append(self.field(depth - 1))
        elif k != "vec":
            o = self.operator(k, t.els, opt)
            t.op = bool(o) and "v" in o[0]
            ch = o + ch if self.hit(.1) else ch + o
        return t, a, ch

    def tyname(self, ty):
        return "string" if ty == "unicode" else ty

    def common(self, a, named=True):
        """name, presence and ns -> whether optional"""
        r = self.r
        if named:
            a["name"] = self.name()
        opt = self.hit(.4)
        if opt:
            a["presence"] = "optional"
        elif self.hit(.3):
            a["presence"] = "mandatory"
        if self.hit(.15):
            a["ns"] = r.choice(NSS)
        return opt

    def template_ref(self):
        r = self.r
        if self.bad("template"):
            return node("templateRef", {"name": "nowhere", **({"templateNs": "t9"} if self.hit(.5) else {})})
        if not self.tmpl or self.hit(.15):
            return node("templateRef")
        tns, name = r.choice(self.tmpl)
        a = {"name": name}
        if tns != self.tns or self.hit(.3):
            a["templateNs"] = tns
        return node("templateRef", a)

    def field(self, depth):
        r = self.r
        x = r.random()
        if self.in_define == 0 and x < .12:
            t = self.template_ref() if not self.gen else self.template_ref_once()
            if t:
                return t
        prims = [p for p in self.prims if depth > 0 or p not in ("group", "sequence")]
        if self.types and self.hit(.3):
            return self.tag(self.ident(self.use_of_type(depth)))
        if self.bad("type"):
            return node(r.choice(["int8", "nosuch", "int", "Int32", "strings"]), {"name": self.name()})
        if self.wrong and not self.std and self.hit(.03):
            self.wrong, self.did = False, "field"
            return r.choice([node("field", {"name": self.name()}), node("field", {"name": self.name()}, [node("type")]),
                             node("field", {"name": self.name()}, [node("type", {"name": "nosuch"})])])
        ty = r.choice(prims)
        if self.hit(.25):
            return self.tag(self.ident(self.field_element(ty, depth)))
        a = {}
        opt = self.common(a)
        t, b, ch = self.body(ty, opt, depth)
        a.update(b)
        return self.tag(self.ident(node(self.tyname(ty), a, ch)))

    def template_ref_once(self):
        """no template twice in one, itself or by another: the names of the fields would repeat"""
        r = self.r
        if self.hit(.3):
            return self.tag(node("templateRef"))
        l = [t for t in self.tmpl if not self.closure[t] & self.used]
        if not l:
            return None
        t = r.choice(l)
        self.used |= self.closure[t]
        a = {"name": t[1]}
        if t[0] != self.tns or self.hit(.3):
            a["templateNs"] = t[0]
        return node("templateRef", a)

    def field_element(self, ty, depth):
        """<field> around the element that describes the type; what is said may be said at either"""
        r = self.r
        a, inner = {}, {}
        opt = self.common(a)
        t, b, ch = self.body(ty, opt, depth)
        inside, outside = [], []
        inner.update(b)
        if "dictionary" in inner and self.hit(.5):
            a["dictionary"] = inner.pop("dictionary")
        for n in ch:
            if n["t"] in OPS or n["t"] in ("length", "mantissa", "exponent"):
                (inside if self.hit(.35) and n["t"] != "length" or ty == "sequence" else outside).append(n)
            else:
                inside.append(n)
        if self.hit(.1) and not opt and not inside:
            inner["presence"] = "mandatory"
        return node("field", a, [node(self.tyname(ty), inner, inside)] + outside)

    def use_of_type(self, depth):
        r = self.r
        name = r.choice(sorted(self.types))
        t = self.types[name]
        a = {}
        opt = self.common(a)
        if not opt and t.k == "opt":
            pass
        ch = []
        if t.k == "dec" and self.hit(.3):
            for p in r.choice([["exponent"], ["mantissa"], ["exponent", "mantissa"]]):
                ch.append(node(p, {}, self.operator("exp" if p == "exponent" else "i64", [], opt and p == "exponent", p=.8)))
        elif t.k not in ("grp", "seq", "vec"):
            ch = self.operator(t.k, t.els, opt, t.op, p=.4)
        if t.k in ("grp", "seq") and self.hit(.2):
            a["dictionary"] = r.choice(["template", "type", "dA"])
        if self.hit(.15):
            a.pop("presence", None)
            # the presence is that of the type
            if ch and (self.gen or self.hit(.9)) and ch[0]["t"] == "default" and "v" not in ch[0]:
                ch = []
        if self.hit(.3):
            return node(name, a, ch) if "ns" not in a else node("field", a, [node("type", {"name": name})] + ch)
        ty = node("type", {"name": name})
        if self.hit(.1):
            ty["a"]["ns"] = r.choice(NSS + TNS)
            k = (ty["a"]["ns"], name)
            if k not in self.reg and not self.bad("type ns"):
                ty["a"].pop("ns")
            elif k in self.reg and self.reg[k].k != t.k:
                ty["a"].pop("ns")
        return node("field", a, [ty] + ch)

    # ------------------------------------------------------------ documents
    def define(self):
        r = self.r
        self.in_define += 1
        name = r.choice(["D%d" % r.randint(1, 6)]) if not self.gen else self.name("D")
        if not self.gen and self.hit(.04):
            name = r.choice(["int32", "string", "enum"])     # a type of one's own with the name of a primitive one
        ty = r.choice(self.prims)
        ch = []
        if self.types and self.hit(.3):
            n0 = self.use_of_type(1)
            base = n0["c"][0]["a"]["name"] if n0["t"] == "field" else n0["t"]
            t = T(self.types[base].k, self.types[base].els, self.types[base].op or any("v" in x for x in n0["c"]))
            if n0["t"] == "field":
                n0["a"].pop("name", None)
        elif self.hit(.2):
            n0 = self.field_element(ty, 1)
            n0["a"].pop("name", None)
            t = self.of(ty, n0["c"][0]["c"] + n0["c"][1:])
        else:
            a = {}
            opt = self.common(a, self.hit(.2))
            t, b, ch = self.body(ty, opt, 1)
            a.update(b)
            n0 = node(self.tyname(ty), a, ch)
        self.in_define -= 1
        self.types[name] = t
        if t.k in ("grp", "seq", "enum", "set"):
            ns = n0["a"].get("ns", "")
            self.reg[(ns or self.tns, name)] = t
        if self.bad("define"):
            return r.choice([node("define", {}, [n0]), node("define", {"name": "void"})])
        return node("define", {"name": name}, [self.tag(self.ident(n0))])

    def of(self, ty, ch):
        t = T(KIND[ty])
        if ty == "boolean":
            t.els = [("false", 0), ("true", 1)]
        v = -1
        for e in ch:
            if e["t"] == "element":
                v = e["a"].get("value", v + 1)
                t.els.append((e["a"].get("id", e["a"]["name"]), v))
            elif "v" in e and e["t"] in OPS:
                t.op = True
        return t

    def template(self):
        r = self.r
        keep = self.tns
        a = {"name": "M%d" % r.randint(1, 9) if not self.gen else self.name("M")}
        if self.hit(.2):
            a["templateNs"] = self.tns = r.choice(TNS)
        if self.hit(.2):
            a["ns"] = r.choice(NSS)
        if self.hit(.2):
            a["dictionary"] = r.choice(["template", "type", "dA", "global", ""])
        if self.hit(.2):
            a[r.choice(["reset", "scp:reset"])] = r.choice(["yes", "true", "no", "false", "1", ""])
        ch = []
        if self.hit(.25):
            tr = node("typeRef", {"name": r.choice(["T1", "T2"])})
            if self.hit(.4):
                tr["a"]["ns"] = r.choice(NSS)
            ch.append(tr)
        self.used = set()
        for _ in range(r.randint(1 if self.gen else 0, 6)):
            ch.append(self.field(2))
        if self.bad("nested template"):
            ch.append(node("template", {"name": "inner", "id": 77}, [node("int32", {"name": "q"})]))
        n = node("template", a, ch)
        if self.gen:
            self.tid += r.choice([1, 1, 2, 127, 16384])
            a["id"] = self.tid
        n = self.tag(n if self.gen else self.ident(n, .8))
        self.tmpl.append((self.tns, a["name"]))
        self.closure[self.tmpl[-1]] = self.used | {self.tmpl[-1]}
        self.tns = keep
        return n

    def doc(self):
        """what a wrong document defines is not used by later ones: they would be wrong twice"""
        t, g = list(self.tmpl), dict(self.reg)
        d = self.doc1()
        if self.did:
            self.tmpl, self.reg = t, g
        return d

    def doc1(self):
        r = self.r
        self.types, self.in_define, self.tagtype = {}, 0, None
        self.wrong, self.did = self.hit(self.p_bad), ""
        a = {}
        self.tns = ""
        if self.hit(.04) and not self.gen:
            return self.template()
        if self.hit(.4):
            a["ns"] = r.choice(NSS)
        if self.hit(.4):
            a["templateNs"] = self.tns = r.choice(TNS)
        if self.hit(.3):
            a["dictionary"] = r.choice(["template", "type", "dA", "global", ""])
        ch = []
        if self.hit(.3):
            els, nodes = self.elements("enum")
            self.tagtype = [e[0] for e in els]
            ch.append(node("define", {"name": "mfast:tag"}, [node("enum", {}, nodes)]))
        for _ in range(r.randint(1, 6)):
            ch.append(self.define() if self.hit(.4) else self.template())
        if self.gen and ch[-1]["t"] != "template":
            ch.append(self.template())
        if self.bad("root"):
            return node(r.choice(["messages", "int32", "define"]), a, ch)
        return node("templates", a, ch)

    def docs(self, n=None):
        return [self.doc() for _ in range(n or self.r.choice([1, 1, 1, 2, 2, 3]))]


def text(r, n):
    """one of the ways to write the document down"""
    x = to_xml(n)
    y = r.random()
    if y < .2:
        x = '<?xml version="1.0" encoding="UTF-8"?>\n' + x
    elif y < .4:
        x = "<!-- a comment -->\n" + x.replace(">\n", "><!-- <int32 name='no'/> -->\n", r.randint(1, 5))
    elif y < .5:
        x = x.replace(">\n", ">")
    elif y < .6:
        x = x.replace("\n", "\r\n\t")
    return x
