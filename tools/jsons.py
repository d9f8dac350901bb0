"""JSON documents for messages: generated from the structure of a template, right and wrong ones."""
from gen import INT, node, rint, rascii, rbytes

WS = ["", "", "", "", " ", "\n", "\t", "\r\n ", "  "]
ODD = ['"', "\\", "é", " x", "{", "}", "[", ",", "日本", "'", "/", "\u0001x"[1:], "🎈"]


def rename(r, trees, gens):
    """unusual names. gens: the generator's fields of the same documents, in the order of the nodes"""
    seen = {}

    def fresh(n):
        if n not in seen:
            seen[n] = n + r.choice(ODD) * r.randint(1, 2) if r.random() < .4 else n
        return seen[n]

    def walk(n, inop):
        if n["t"] not in ("template", "typeRef", "templateRef", "element", "length", "define") and not inop and n["a"].get("name"):
            n["a"]["name"] = fresh(n["a"]["name"])
        for x in n["c"]:
            walk(x, n["t"] in ("enum", "set") and x["t"] == "element")
    for t in trees:
        walk(t, False)

    done = set()

    def fields(fs):
        for f in fs:
            if id(f) in done:
                continue
            done.add(id(f))
            if f.name:
                f.name = seen.get(f.name, f.name)
            fields(f.sub)
    for g in gens:
        for fs in g.ids.values():
            fields(fs)


def unname(r, trees, g, p):
    """elements of a single field without a name"""
    def walk(fs, nodes):
        by = {f.name: f for f in fs if f.name}
        for n in nodes:
            f = by.get(n["a"].get("name"))
            if f is None or f.k not in ("grp", "seq"):
                continue
            body = n
            for x in n["c"]:
                if n["t"] == "field" and x["t"] in ("group", "sequence"):
                    body = x
            walk(f.sub, body["c"])
            if f.k == "seq" and r.random() < p:
                keep = [x for x in body["c"] if x["t"] not in ("length", "typeRef", "templateRef")]
                pick = [x for x in keep if x["a"].get("name")]
                if not pick:
                    continue
                x = r.choice(pick)
                y = [z for z in f.sub if z.name == x["a"]["name"]]
                if len(y) != 1:
                    continue
                body["c"] = [z for z in body["c"] if z["t"] in ("length", "typeRef")] + [x]
                x["a"]["name"] = ""
                y[0].name = ""
                f.sub = y
    for t in trees:
        for n in t["c"]:
            if n["t"] == "template":
                walk(g.ids[n["a"]["id"]], n["c"])


def tagged(r, trees, g, p):
    """tags on fields, byte vectors in the first place"""
    def walk(fs, nodes):
        by = {f.name: f for f in fs if f.name}
        for n in nodes:
            f = by.get(n["a"].get("name"))
            if f is None:
                continue
            if r.random() < (.8 if f.k == "bv" else p):
                f.tag = n["a"]["mfast:tag"] = r.choice([1, 2, 4, 1, 3, 5, 6, 7, 8])
            for x in [n] + [x for x in n["c"] if n["t"] == "field" and x["t"] in ("group", "sequence")]:
                walk(f.sub, x["c"])
    for t in trees:
        for n in t["c"]:
            if n["t"] == "template":
                walk(g.ids[n["a"]["id"]], n["c"])


class Docs:
    jm = 0
    def __init__(self, r, odd=.04, unknown=.1):
        self.r, self.odd, self.unk = r, odd, unknown
        self.has_unk = False

    def ws(self):
        return self.r.choice(WS) if self.r.random() < .4 else ""

    def chars(self, s, plain=False):
        """s: text with surrogateescape for bytes that are not UTF-8"""
        r = self.r
        out = '"'
        for c in s:
            o = ord(c)
            if 0xdc80 <= o <= 0xdcff:
                out += c
                continue
            short = {'"': '"', "\\": "\\", "/": "/", "\b": "b", "\f": "f", "\n": "n", "\r": "r", "\t": "t"}.get(c)
            x = r.random()
            if 0xd800 <= o <= 0xdfff:           # an unpaired half
                out += "\\u%04x" % o
                continue
            if o < 32 or c in '"\\' or (x < .1 and not plain):
                if short and r.random() < .7:
                    out += "\\" + short
                elif o >= 0x10000:
                    v = o - 0x10000
                    out += "\\u%04x\\u%04X" % (0xd800 + (v >> 10), 0xdc00 + (v & 1023))
                else:
                    out += ("\\u%04x" if r.random() < .5 else "\\u%04X") % o
            else:
                out += c
        return out + '"'

    def text(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 9, 16, 20, 33])
        s = "".join(r.choice([chr(r.randint(97, 122)), chr(r.randint(32, 126)), chr(r.randint(0, 31)), r.choice('"\\/{}[],: '), "\x7f",
                              chr(r.randint(128, 0x7ff)), chr(r.choice([0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f388, 0x10ffff]))])
                    if r.random() < .4 else chr(r.randint(97, 122)) for _ in range(n))
        x = r.random()
        if x < .05:
            s += r.choice(["\udcff", "\udc80a"])
        elif x < .12:
            i = r.randint(0, len(s))
            s = s[:i] + r.choice(["\ud83d", "\udbff", "\ud800\ud800", "\udd00", "\ud800\udd00", "\ud9ab\n", "\ud9ab\"", "\ud9ab\\"]) + s[i:]
        return s

    def integer(self, t):
        r = self.r
        if r.random() < self.odd:
            return r.choice(["1.0", "1e1", "+7", "007", "-0", "1.5", '"1"', "true", "[]", "{}", "--1", "0x1f", "1e", "-", str(2**31), str(2**32), str(2**63),
                             str(2**64), str(-2**31 - 1), str(-2**63 - 1), "-1", "1 2", "", "nul", "100000000000000000000000", "1e-1", "10e-1", "1_0", "NaN"])
        return str(rint(r, t))

    def dec(self):
        r = self.r
        if r.random() < self.odd:
            return r.choice(["1.", ".5", "+1.5", "00.5", "1e", "1e+", "1.5.2", "1e2.5", '"1.5"', "-", "-.5", "1e 5", "1 .5", "true", "[1]", "1,5", "Infinity",
                             "9223372036854775808", "0.12345678901234567890123", "1e99999999999", "-9223372036854775809e-1", "1E", "1e-", "-e1"])
        s = "-" if r.random() < .4 else ""
        d = lambda n: "".join(r.choice("0123456789") for _ in range(n))
        w = r.choice(["0", str(r.randint(1, 9)), str(r.randint(1, 10**r.randint(1, 18))), "9223372036854775807", "1" + "0" * r.randint(0, 17)])
        s += w
        if r.random() < .6:
            room = max(1, 18 - len(w.lstrip("0")))
            n = r.randint(1, room + r.choice([0, 0, 0, 1, 2]))
            s += "." + r.choice([d(n), "0" * (n - 1) + r.choice("0123456789"), d(max(1, n - 2)) + "00"])
        if r.random() < .35:
            s += r.choice("eE") + r.choice(["", "-", "+"]) + str(r.choice([0, 1, 2, 5, 20, "05"]))
        return s

    def any(self, depth=2):
        """any JSON value"""
        r = self.r
        if depth == 2 and r.random() < .02:
            n = r.choice([40, 70, 130])
            o = r.choice(["[", '{"a":'])
            b = "]" if o == "[" else "}"
            return o * n + r.choice(["", "1"] if b == "]" else ["1", '"}"', "[]"]) + b * n
        k = r.choice(["null", "true", "false", "num", "num", "str", "str", "arr", "obj"] if depth else ["null", "true", "num", "str"])
        if k == "num":
            return r.choice(["0", "-1", "1.5", "1e5", "1E+400", "-0.0e-5", "123456789012345678901234567890", "12", "1e-400"])
        if k == "str":
            return self.chars(self.text())
        if k == "arr":
            return "[" + self.ws() + ("," + self.ws()).join(self.any(depth - 1) for _ in range(r.randint(0, 3))) + self.ws() + "]"
        if k == "obj":
            return "{" + self.ws() + ",".join(self.chars(self.text()) + self.ws() + ":" + self.any(depth - 1) for _ in range(r.randint(0, 3))) + self.ws() + "}"
        return k

    def tree(self):
        """any JSON object"""
        r = self.r
        return "{" + self.ws() + ("," + self.ws()).join(
            self.chars(r.choice([self.text(), "}", '"', "{", "\\"])) + self.ws() + ":" + self.ws() + self.any() for _ in range(r.choice([0, 1, 1, 2, 4]))) + self.ws() + "}"

    def value(self, f):
        r, k = self.r, f.k
        if k in ("grp", "seq", "nest"):
            if r.random() < self.odd:
                return self.any(1)
            if k == "grp":
                return self.obj(f.sub)
            if k == "seq":
                return self.seq(f)
            return self.any(1)
        if r.random() < self.odd / 2:
            return self.any(1)
        if k in INT or k == "ts":
            return self.integer("i64" if k == "ts" else k)
        if k == "bool":
            return r.choice(["true", "false", "true", "false", "0", "1"]) if r.random() > self.odd else r.choice(["2", "tru", "truefalse", '"true"', "True", "-1", "10", "falsey"])
        if k == "enum":
            return str(r.choice(f.els)[1]) if r.random() > self.odd else self.integer("u64")
        if k == "set":
            return str(r.getrandbits(len(f.els))) if r.random() > self.odd else self.integer("u64")
        if k in ("dec", "sdec"):
            return self.dec()
        if k in ("asc", "uni"):
            return self.chars(self.text())
        if k == "bv" and f.tag & self.jm:
            return self.tree() if r.random() > self.odd else r.choice(["[]", '"{}"', "1", "{}}", "{[}", '{"a":{}', "{ }"])
        if k == "bv":
            b = r.choice([rbytes(r), rbytes(r, 16)]).hex()
            x = r.random()
            if x < .2:
                b = b.upper()
            if x > .7:
                b = "".join(c + r.choice(["", "", "", "-", " "]) for c in b)
            if r.random() < self.odd:
                b += r.choice(["0", "g", "zz", "\x00", "é"])
            return self.chars(b, r.random() < .8)
        if k[0] == "v":
            l = [self.integer(k[1:]) if r.random() > .02 else self.any(0) for _ in range(r.choice([0, 1, 2, 3, 6]))]
            return "[" + self.ws() + (self.ws() + "," + self.ws()).join(l) + self.ws() + "]"
        raise KeyError(k)

    def seq(self, f):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3])
        bare = len(f.sub) == 1 and f.sub[0].name == "" and f.sub[0].k != "nest"
        els = [("null" if r.random() < .2 else self.value(f.sub[0])) if bare else (self.obj(f.sub) if r.random() > .04 else "null") for _ in range(n)]
        return "[" + self.ws() + (self.ws() + "," + self.ws()).join(els) + self.ws() + "]"

    def member(self, name, v):
        return self.chars(name) + self.ws() + ":" + self.ws() + v

    def obj(self, fs):
        r = self.r
        ms = []
        for f in fs:
            if f.k == "nest" or f.op == "constant" or (f.k == "sdec" and "constant" in (f.ex.op, f.ma.op)):
                continue
            x = r.random()
            if x < .2:
                continue
            if x < .3:
                ms.append(self.member(f.name, "null"))
                continue
            if f.opt and f.k not in ("grp", "seq") and r.random() < .04:
                ms.append(self.member(f.name, r.choice(["null", self.value(f)])))
            ms.append(self.member(f.name, self.value(f)))
        if r.random() < .5:
            r.shuffle(ms)
        while r.random() < self.unk:
            self.has_unk = True
            known = [f.name for f in fs]
            n = r.choice([self.text(), "zz", "f", (r.choice(known) if known else "") + "x", (r.choice(known) if known else "") + "\x00"])
            if n not in known:
                ms.insert(r.randint(0, len(ms)), self.member(n, self.any()))
        return "{" + self.ws() + (self.ws() + "," + self.ws()).join(ms) + self.ws() + "}"

    def doc(self, f):
        """-> (bytes, whether something may be skipped unread). f: fields, or a sequence"""
        r = self.r
        self.has_unk = False
        s = self.ws() + (self.obj(f) if isinstance(f, list) else self.seq(f))
        b = s.encode("utf-8", "surrogateescape")
        unk = self.has_unk or self.jm > 0 and self.odd > 0
        x = r.random()
        if x < .08:
            b = b[:r.randrange(len(b))] if b else b
        elif x < .2:
            for _ in range(1 if x < .16 else r.randint(2, 3)):
                i = r.randrange(len(b) + 1)
                c = bytes([r.choice(b'{}[],:"\\0-.e ntu\n\x00' + bytes([r.randint(0, 255)]))])
                if c == b"\\":
                    unk = True
                y = r.random()
                b = b[:i] + (c + b[i:] if y < .35 else c + b[i + 1:] if y < .7 else b[i + 1:])
            unk = unk or x >= .16 or self.odd > 0 or self.jm > 0
        elif x < .25:
            b += r.choice([b" ", b"x", b"}", b'{"a":1}', b",", b"\x00"])
        elif x < .27:
            b = r.choice([b"null", b"nul", b"[]", b"1", b'"x"', b"", b"{", b"[", b" ", b"true", b"n", b"[}", b"{]", b"{,}", b'{"a"}', b"[,]", b"[1,]"])
        return b, unk
