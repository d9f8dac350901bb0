"""What every check shares: seeds, budgets, verdicts, evidence, known findings."""
import json, os, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tla

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings")


def known(prop):
    """entries of the known-findings file: 'known: property=<id> key=<key> <text>'"""
    out = {}
    for l in open(KNOWN):
        w = l.split(None, 3)
        if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("key="):
            out[w[2][4:]] = w[3].strip()
    return out


class Check:
    level = "model_checking"

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.limit = float(os.environ.get("VERIF_LIMIT", "35" if self.quick else "700"))
        self.violations, self.knowns, self.notes = [], [], []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.events = {}
        self.assumptions = []

    # ------------------------------------------------------------ budget
    def start_clock(self):
        """the budget is for exploring, not for building"""
        self.t1 = time.time()

    def time_left(self):
        return self.limit - (time.time() - getattr(self, "t1", self.t0))

    # ------------------------------------------------------------ coverage
    def model(self, states, transitions):
        self.cov["states"] += states
        self.cov["transitions"] += transitions

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s):
        if len(self.cov["samples"]) < 3:
            t = s if isinstance(s, str) else json.dumps(s)
            self.cov["samples"].append(t[:3000])

    def count(self, d):
        for k, n in (d or {}).items():
            self.events[k] = self.events.get(k, 0) + n

    # ------------------------------------------------------------ verdicts
    def violation(self, what, replay):
        """replay: JSON-able description from which tools/check.py --replay runs it again"""
        if len(self.violations) >= 10:
            return
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(dict(replay, property=self.prop, what=what), f)
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("  " + what[:600].replace("\n", "\n  "))
        sys.stdout.flush()

    def known_finding(self, key):
        k = known(self.prop)
        assert key in k, "finding %s of %s is not listed" % (key, self.prop)
        if key not in self.knowns:
            self.knowns.append(key)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k[key]))

    def note(self, s):
        self.notes.append(s)
        print("NOTE " + s)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.events:
            self.cov["events"] = self.events
        if self.knowns:
            self.cov["known_findings"] = self.knowns
        if self.notes:
            self.cov["notes"] = self.notes[:10]
        e = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
             "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
        print("%s %s: %d violation(s), %d traces, %d states, %.1fs" % (
            self.prop, self.tier, len(self.violations), self.cov["traces_validated_against_impl"],
            self.cov["states"], time.time() - self.t0))
        return 1 if self.violations else 0
