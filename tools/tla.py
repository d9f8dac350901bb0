"""Running TLC and reading its verdicts."""
import json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


TlcError = ToolError


def tlc(module, cfg=None, env=None, workers=8, timeout=800, heap="6g", extra=(), cwd=None, simulate=None):
    """Returns (returncode, output). The metadata directory is private and removed."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m",
               "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", cfg or module + ".cfg"]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ, **(env or {}))
        try:
            p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout + 30)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on " + module)
        return p.returncode, p.stdout.decode(errors="replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def parse_tla(s):
    """a TLA+ value as printed by TLC (strings, ints, tuples, records, functions) to Python"""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\t":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            out = []
            ws()
            while not s.startswith(">>", pos):
                out.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 2
            return out
        if s[pos] == '"':
            j = pos + 1
            r = ""
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                r += s[j]
                j += 1
            pos = j + 1
            return r
        if s[pos] == "[":
            pos += 1
            out = {}
            ws()
            while s[pos] != "]":
                j = s.index("|->", pos)
                k = s[pos:j].strip()
                pos = j + 3
                out[k] = val()
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return out
        if s[pos] == "(":
            pos += 1
            out = {}
            while True:
                k = val()
                ws()
                assert s.startswith(":>", pos)
                pos += 2
                out[str(k)] = val()
                ws()
                if s.startswith("@@", pos):
                    pos += 2
                    continue
                assert s[pos] == ")"
                pos += 1
                return out
        m = re.match(r"-?\d+|TRUE|FALSE", s[pos:])
        pos += m.end()
        t = m.group(0)
        return True if t == "TRUE" else False if t == "FALSE" else int(t)

    return val()


def printed(out, tag):
    """PrintT'ed tuples starting with tag. TLC may wrap a long tuple over lines."""
    res = []
    for m in re.finditer(r'^<<\s*"%s",' % tag, out, re.M):
        depth, i, instr = 0, m.start(), False
        while True:
            c = out[i]
            if instr:
                if c == "\\":
                    i += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif out.startswith("<<", i):
                depth += 1
                i += 1
            elif out.startswith(">>", i):
                depth -= 1
                i += 1
                if depth == 0:
                    break
            i += 1
        txt = out[m.start():i + 1]
        try:
            res.append(parse_tla(txt))
        except Exception:
            res.append([tag, txt])
    return res


def errline(out):
    m = re.search(r"Error:(.*?)(?=Error: The behavior|State 1)", out, re.S)
    return m.group(0)[:2500] if m else out[-2000:]


def counts(out):
    """states generated and distinct states of a TLC run"""
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def validate(module, ids, write, work, name="t", timeout=800, shards=4, per=20, stats=None):
    """Trace validation. write(shard number, ids) writes the traces of these sessions and returns the
    environment for TLC; the module prints <<"ACC", id, counts>> or <<"REJ", id, ...>> for every session.
    -> {id: ("ACC", counts) | ("REJ", event index, category, info)}"""
    import concurrent.futures
    shards = max(1, min(shards, (len(ids) + per - 1) // per))

    def one(k):
        mine = ids[k::shards]
        env = write(k, mine)
        rc, out = tlc(module, env=env, workers=max(1, 8 // shards), timeout=timeout)
        res = {}
        for t in printed(out, "ACC"):
            res[t[1]] = ("ACC", t[2])
        for t in printed(out, "REJ"):
            res[t[1]] = ("REJ",) + tuple(t[2:])
        missing = [i for i in mine if i not in res]
        if missing or rc:
            with open(os.path.join(work, "%s%d.tlcout" % (name, k)), "w") as f:
                f.write(out)
            raise ToolError("TLC gave no verdict for %d sessions (rc %d): %s\n%s" % (
                len(missing), rc, missing[:3], errline(out)))
        return res, counts(out)

    out = {}
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        for r, (g, d) in ex.map(one, range(shards)):
            out.update(r)
            if stats is not None:
                stats["transitions"] = stats.get("transitions", 0) + g
                stats["states"] = stats.get("states", 0) + d
    return out
