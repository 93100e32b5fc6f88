"""What one job saw.  Three verdicts: violations, held, inconclusive."""
import random, json, hashlib


class R:
    MAXV = 8

    def __init__(self, job):
        self.job = job
        self.evals = 0
        self.keys = set()
        self.counters = {}
        self.samples = []
        self.viol = []
        self.nviol = 0
        self.inconclusive = []
        self.case = None
        self.notes = {}

    def cases(self):
        """case numbers of this job; a replay runs only the recorded one"""
        only = self.job.get("only")
        if only is not None:
            return [only]
        lo = self.job.get("lo", 0)
        return range(lo, lo + self.job["n"])

    def rng(self, case):
        self.case = case
        return random.Random("%s/%s/%s" % (self.job["seed"], self.job["name"], case))

    def ok(self, key=None, nontrivial=True):
        self.evals += 1
        if key is not None and nontrivial:
            self.keys.add(key if isinstance(key, str) else json.dumps(key, sort_keys=True, default=str))

    def count(self, name, n=1):
        old = self.counters.get(name, 0)
        self.counters[name] = max(old, n) if name.startswith("max_") else old + n

    def sample(self, s, k=2):
        if len(self.samples) < k:
            self.samples.append(s)

    def fail(self, mech, msg, witness=None, stop=True):
        """mech: stable label of what kind of breakage this is; stop: counts
        towards the number of failures after which a job ends"""
        self.nviol += bool(stop)
        if len(self.viol) < self.MAXV and sum(v["mech"] == mech for v in self.viol) < 2:
            self.viol.append({"mech": mech, "msg": str(msg)[:1500], "case": self.case,
                              "job": dict(self.job), "witness": witness})

    @property
    def enough(self):
        return self.nviol >= 8

    def vague(self, msg):
        self.inconclusive.append(str(msg)[:500])

    def dump(self):
        return {"evals": self.evals, "keys": sorted(self.keys), "counters": self.counters,
                "samples": self.samples, "viol": self.viol, "nviol": self.nviol,
                "inconclusive": self.inconclusive, "job": self.job}
