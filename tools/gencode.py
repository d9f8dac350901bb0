"""Runs the code generator on documents and writes programs which walk the accessors of what it wrote."""
import concurrent.futures, os, re, shutil, subprocess, tempfile
import build
from gen import to_xml


def cpp_name(n):
    n = re.sub(r"[^A-Za-z0-9]", "_", n)
    return n if n[:1].isalpha() else "_" + n


def settable(d):
    if d["op"] != "constant":
        return True
    return d["k"] == "sdec" and d["ma"][0]["op"] != "constant"


class Walk:
    def __init__(self, ns, ):
        self.ns, self.n, self.out = ns, 0, []

    def template(self, t):
        n = cpp_name(t["nm"])
        self.out = ["static nlohmann::json walk_%s_%s() {" % (self.ns, n), "using namespace walk; json out = json::array();",
                    "%s::%s msg; auto m0 = msg.mref(); auto c0 = msg.cref();" % (self.ns, n)]
        self.n = 0
        self.level(t["sub"], "m0", "c0", [t["nm"]])
        self.out += ["return out; }", "static walked reg_%s_%s(\"%s\", &walk_%s_%s);" % (self.ns, n, self.ns, self.ns, n)]
        return "\n".join(self.out) + "\n"

    def level(self, subs, m, c, path):
        for i, f in enumerate(subs):
            if f["k"] == "nest" or f["nm"] == "":
                continue
            if f["k"] == "grp" and [x["k"] for x in f["sub"]] == ["nest"]:
                continue
            self.field(i, f, m, c, path + [f["nm"]])

    def field(self, i, f, m, c, path):
        o = self.out
        self.n += 1
        n, a = cpp_name(f["nm"]), self.n
        o.append("{ static const char *p[] = {%s}; json r = one(p, %d);" % (", ".join('"%s"' % x for x in path), len(path)))
        st = settable(f)
        if st:
            o.append('auto m%d = %s.set_%s(); r["set"] = position(%s, m%d);' % (a, m, n, m, a))
        if f["k"] == "seq":
            o.append("m%d.resize(1);" % a)
        o.append('auto c%d = %s.get_%s(); r["get"] = position(%s, c%d);' % (a, c, n, c, a))
        if f["k"] == "enum" and st:
            for e in f["els"]:
                e2 = cpp_name(e)
                o.append('{ m%d.as_%s(); json x = json::array({"%s", raw(%s, %d), (uint64_t)c%d.value(), %s[%d].present()}); int z = 0;'
                         % (a, e2, e, c, i, a, c, i))
                o.append(" ".join("z += c%d.is_%s();" % (a, cpp_name(y)) for y in f["els"]))
                o.append('x.push_back(c%d.is_%s()); x.push_back(z); r["e"].push_back(x); }' % (a, e2))
        if f["k"] == "set" and st:
            o.append("%s" % "".join("m%d.unset_%s();" % (a, cpp_name(y)) for y in f["els"]))
            o.append('r["e"].push_back(json::array({"", bit_of(raw(%s, %d))}));' % (c, i))
            for e in f["els"]:
                e2 = cpp_name(e)
                o.append('{ m%d.set_%s(); json x = json::array({"%s", bit_of(raw(%s, %d)), %s[%d].present()}); int z = 0;'
                         % (a, e2, e, c, i, c, i))
                o.append(" ".join("z += c%d.has_%s();" % (a, cpp_name(y)) for y in f["els"]))
                o.append('x.push_back(c%d.has_%s()); x.push_back(z); m%d.unset_%s(); x.push_back(bit_of(raw(%s, %d)));'
                         ' r["e"].push_back(x); }' % (a, e2, a, e2, c, i))
        if f["k"] == "grp":
            self.level(f["sub"], "m%d" % a, "c%d" % a, path)
        if f["k"] == "seq" and f["sub"] and f["sub"][0]["nm"] != "":
            o.append("{ auto me = m%d[0]; auto ce = c%d[0];" % (a, a))
            self.level(f["sub"], "me", "ce", path)
            o.append("}")
        if not f["opt"] or f["k"] in ("grp", "seq"):
            o.append('r["try"] = tried(%s, [&]{ return %s.try_get_%s(); });' % (c, c, n))
        if f["opt"]:
            o.append('%s.omit_%s(); r["gone"] = %s[%d].absent() ? tried(%s, [&]{ return %s.try_get_%s(); }) : -4;'
                     % (m, n, c, i, c, c, n))
        o.append("out.push_back(r); }")


def generate(sets, dumps, flavor="plain", bundles=24):
    """sets: {name: [trees]}, dumps: {name: [description of each document or None]}.
    The documents of set s are s_0, s_1... Returns (executable, {doc name: failure}, work directory)."""
    lib = build.libs(flavor)
    tool = build.gen_tool(lib)
    wd = tempfile.mkdtemp(prefix="gen-")
    fail = {}

    def run_gen(s):
        names = ["%s_%d" % (s, i) for i in range(len(sets[s]))]
        for n, t in zip(names, sets[s]):
            with open(os.path.join(wd, n + ".xml"), "w") as f:
                f.write(to_xml(t))
        bad = ""
        for i in range(len(names)):
            p = subprocess.run([tool] + [n + ".xml" for n in names[:i + 1]], cwd=wd, capture_output=True, text=True, timeout=120)
            if p.returncode:
                m = re.search(r"tag_error_code\*\] = (\w+)", p.stderr + p.stdout)
                fail[names[i]] = m.group(1) if m else ("generator: " + (p.stderr + p.stdout).strip()[-300:] or "generator")
                for n in names[i + 1:]:
                    fail[n] = "after"
                break
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(run_gen, sets))
    flags = ["-std=c++14", "-O0", "-w", "-DHAVE_SETS"] + build.FLAVORS[flavor].split()[1:] + list(build.DEFS) + [
        "-I" + build.REPO + "/src", "-I" + build.VERIF + "/harness", "-I" + wd]

    def comp(name, text):
        p = os.path.join(wd, name + "_tu.cpp")
        with open(p, "w") as f:
            f.write(text)
        q = subprocess.run(["g++"] + flags + ["-c", p, "-o", p + ".o"], capture_output=True, text=True, timeout=600)
        return p + ".o" if q.returncode == 0 else (q.stderr or "killed")

    def member(s):
        t = ""
        for i in range(len(sets[s])):
            n = "%s_%d" % (s, i)
            if n in fail:
                continue
            t += '#include "%s.cpp"\n' % n
            t += 'static describe desc_%s("%s", %s::templates_description::instance());\n' % (n, n, n)
            d = dumps[s][i] if i < len(dumps[s]) else None
            if d:
                seen = set()
                for x in d["ts"]:
                    if x["nm"] not in seen:
                        seen.add(x["nm"])
                        t += Walk(n).template(x)
        return t

    def bundle(j):
        mine = list(sets)[j::bundles]
        head = '#include "walk.h"\n'
        o = comp("b%d" % j, head + "".join(member(s) for s in mine))
        if o.endswith(".o"):
            return [o]
        r = []
        for s in mine:
            o = comp("m" + s, head + member(s))
            if o.endswith(".o"):
                r.append(o)
            else:
                for i in range(len(sets[s])):
                    fail.setdefault("%s_%d" % (s, i), "does not compile: " + " | ".join(
                        l.split("/")[-1] for l in o.splitlines() if "error" in l)[:400])
        return r
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        lo = ex.submit(comp, "loader", '#include "%s/harness/loader.cpp"\n' % build.VERIF)
        objs = [x for l in ex.map(bundle, range(bundles)) for x in l]
        if not lo.result().endswith(".o"):
            raise RuntimeError(lo.result()[:500])
    exe = os.path.join(wd, "loader")
    q = subprocess.run(["g++"] + flags + [lo.result()] + objs + [os.path.join(lib, l) for l in build.LIBS] + ["-ltinyxml2", "-o", exe],
                       capture_output=True, text=True)
    if q.returncode:
        raise RuntimeError("link: " + q.stderr[-600:])
    return exe, fail, wd
