#!/usr/bin/env python3
"""Builds /repo's current sources and the harness binaries, out of tree.

Build directories live in /verif/.build (git-ignored), keyed by the content of
everything that goes into them, so that a stale one is never used."""
import concurrent.futures, fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(VERIF, ".build")
ENV = dict(os.environ, LC_ALL="C.UTF-8")


class BuildError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, dn, fn in os.walk(top):
                dn.sort()
                dn[:] = [x for x in dn if not x.startswith("_build") and x != ".git"]
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(os.path.relpath(f, "/").encode())
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                h.update(b"?")
    return h.hexdigest()[:20]


def run(cmd, log, **kw):
    with open(log, "ab") as l:
        l.write(("$ " + " ".join(cmd) + "\n").encode())
        l.flush()
        p = subprocess.run(cmd, stdout=l, stderr=subprocess.STDOUT, env=ENV, **kw)
    if p.returncode:
        with open(log, "rb") as l:
            tail = l.read().decode(errors="replace")
        errs = [x[-400:] for x in tail.splitlines() if "error" in x]
        tail = "\n".join(errs[:12]) if errs else tail[-2000:]
        raise BuildError("build failed: %s\n%s" % (" ".join(cmd), tail))


def jobs():
    return str(os.cpu_count() or 4)


LIBS = ["src/mfast/json/libmfast_json.a", "src/mfast/xml_parser/libmfast_xml_parser.a",
        "src/mfast/coder/libmfast_coder.a", "src/mfast/libmfast.a"]
TARGETS = ["mfast_static", "mfast_coder_static", "mfast_json_static",
           "mfast_xml_parser_static", "fast_type_gen"]
DEFS = ["-DSIZEOF_VOID_P=8", "-DMFAST_STATIC_DEFINE", "-DMFAST_CODER_STATIC_DEFINE",
        "-DMFAST_XML_PARSER_STATIC_DEFINE", "-DMFAST_JSON_STATIC_DEFINE"]
# std: the configuration without the XETRA extensions
FLAVORS = {"plain": "-O0 -g0", "std": "-O0 -g0", "asan": "-O0 -g1 -fsanitize=address -fno-omit-frame-pointer",
           "tsan": "-O0 -g1 -fsanitize=thread"}


class Lock:
    def __init__(self, name):
        os.makedirs(ROOT, exist_ok=True)
        self.f = open(os.path.join(ROOT, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def prune():
    """keep the newest build trees only"""
    ds = [os.path.join(ROOT, d) for d in os.listdir(ROOT) if d[:2] in ("b-", "x-")]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[40:]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


_key = None


def key():
    global _key
    if _key is None:
        _key = tree_hash([REPO + "/src", REPO + "/CMakeLists.txt", REPO + "/cmake", VERIF + "/cmake"])
    return _key


def libs(flavor="plain"):
    d = os.path.join(ROOT, "b-%s-%s" % (flavor, key()))
    with Lock("lib-" + flavor):
        ok = os.path.join(d, "ok")
        if not os.path.exists(ok):
            prune()
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            log = os.path.join(d, "log")
            run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                 "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_CXX_FLAGS=" + FLAVORS[flavor],
                 "-DCMAKE_CXX_FLAGS_DEBUG=",
                 "-DCMAKE_PROJECT_mFAST_INCLUDE=" + VERIF + "/cmake/system-tinyxml2.cmake",
                 "-DBUILD_SHARED_LIBS=OFF", "-DBUILD_TESTS=OFF", "-DBUILD_EXAMPLES=OFF",
                 "-DBUILD_PACKAGES=OFF", "-DXETRA_FAST_SPECIFICATION=" + ("OFF" if flavor == "std" else "ON")], log)
            run(["ninja", "-C", d, "-j" + jobs()] + TARGETS, log)
            open(ok, "w").close()
        else:
            os.utime(d)
    return d


def gen_tool(d):
    return os.path.join(d, "src/fast_type_gen/fast_type_gen")


def binary(name, sources, flavor="plain", extra=(), opt="-O0", gen=None, gensrc=None, defs=DEFS):
    """sources compile against /repo's headers alone; gen: {basename: xml text} is run through
    fast_type_gen, the generated .cpp linked in and the header on the include path of gensrc
    ({file name: text}), which may include it."""
    srcs = [os.path.join(VERIF, "harness", s) if not s.startswith("/") else s for s in sources]
    h = hashlib.sha256(repr((name, sources, flavor, extra, opt, sorted((gen or {}).items()),
                             sorted((gensrc or {}).items()),
                             tree_hash([VERIF + "/harness"]))).encode()).hexdigest()[:16]
    bd = os.path.join(ROOT, "x-%s-%s-%s-%s" % (name, flavor, key(), h))
    exe = os.path.join(bd, name)
    with Lock("bin-%s-%s" % (name, flavor)):
        if os.path.exists(exe):
            os.utime(bd)
            return exe
        shutil.rmtree(bd, ignore_errors=True)
        os.makedirs(bd)
        flags = ["-std=c++14", opt] + ([] if flavor == "std" else ["-DHAVE_SETS"]) + FLAVORS[flavor].split()[1:] + list(defs) + [
            "-I" + REPO + "/src", "-I" + VERIF + "/harness", "-I" + bd, "-w"] + list(extra)

        def comp(s):
            o = os.path.join(bd, os.path.basename(s) + ".o")
            run(["g++"] + flags + ["-c", s, "-o", o], o + ".log")
            return o

        with concurrent.futures.ThreadPoolExecutor(int(jobs())) as ex:
            lib = ex.submit(libs, flavor)
            fs = [ex.submit(comp, s) for s in srcs]
            d = lib.result()
            for b, xml in (gen or {}).items():
                with open(os.path.join(bd, b + ".xml"), "w") as f:
                    f.write(xml)
                run([gen_tool(d), b + ".xml"], os.path.join(bd, b + ".log"), cwd=bd)
                fs.append(ex.submit(comp, os.path.join(bd, b + ".cpp")))
            for b, text in (gensrc or {}).items():
                p = os.path.join(bd, b)
                with open(p, "w") as f:
                    f.write(text)
                fs.append(ex.submit(comp, p))
            objs = [f.result() for f in fs]
        tmp = exe + ".tmp"
        run(["g++"] + flags + objs + [os.path.join(d, l) for l in LIBS] + ["-ltinyxml2", "-o", tmp], os.path.join(bd, "log"))
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(fl, libs(fl), "%.1fs" % (time.time() - t))
        t = time.time()
        print(binary("driver", ["driver.cpp"], fl), "%.1fs" % (time.time() - t))
