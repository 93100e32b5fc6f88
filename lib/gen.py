"""Frame contents and stall patterns."""
import random


def frame(rng, w, h, bd, kind=None):
    kind = kind or rng.choice(["random", "smooth", "const", "extreme", "ff", "near", "ramp", "mixed", "steps"])
    n, top = w * h, (1 << bd) - 1
    if kind == "random":
        return [rng.randint(0, top) for _ in range(n)]
    if kind == "const":
        v = rng.choice([0, top, 1 << (bd - 1), rng.randint(0, top)])
        return [v] * n
    if kind == "extreme":
        return [rng.choice((0, top)) for _ in range(n)]
    if kind == "ramp":
        k = rng.randint(1, 9)
        return [(i * k) & top for i in range(n)]
    if kind == "near":
        base = [rng.randint(0, top) for _ in range(4)]
        return [min(top, max(0, base[i & 3] + rng.randint(-3, 3))) for i in range(n)]
    if kind == "steps":
        # differences that sit on the class boundaries
        px = []
        for i in range(n):
            r, c = divmod(i, w)
            pred = px[i - 4] if c >= 4 else (px[i - w] if r else 1 << (bd - 1))
            s = rng.randint(0, bd)
            d = rng.choice([(1 << s) - 1, 1 << s >> 1, -((1 << s) - 1), -(1 << s >> 1)])
            px.append((pred + d) if 0 <= pred + d <= top else (pred - d if 0 <= pred - d <= top else rng.randint(0, top)))
        return px
    if kind == "ff":
        # large positive differences: their codes are runs of ones, so 0xFF bytes abound
        px = []
        for i in range(n):
            r, c = divmod(i, w)
            pred = px[i - 4] if c >= 4 else (px[i - w] if r else 1 << (bd - 1))
            px.append(top if pred < (top >> 1) and rng.random() < .8 else rng.choice((0, 1, 2, top)))
        return px
    if kind == "smooth":
        px = [0] * n
        cur = [rng.randint(0, top) for _ in range(4)]
        for i in range(n):
            c = i & 3
            cur[c] = min(top, max(0, cur[c] + int(rng.gauss(0, 1 + (top >> 7)))))
            px[i] = cur[c]
        return px
    out = []
    while len(out) < n:
        k = min(n - len(out), rng.randint(1, 3 * w))
        out += frame(rng, k, 1, bd, rng.choice(["random", "smooth", "const", "extreme", "ff", "near", "ramp"]))
    return out


class Stall:
    """yields 1 when the agent holds back in this cycle"""
    KINDS = ("never", "light", "half", "heavy", "burst", "alternate", "one_in", "longwait", "phase", "after")

    def __init__(self, rng, kind=None):
        self.rng = rng
        self.kind = kind or rng.choice(self.KINDS)
        self.n = 0
        self.left = 0
        self.state = 0
        self.k = rng.randint(2, 7)
        self.fb = None        # what the other side did in the last cycle, where the runner tells

    def __call__(self):
        k, r = self.kind, self.rng
        self.n += 1
        if k == "never":
            return 0
        if k == "light":
            return 1 if r.random() < .1 else 0
        if k == "after" and self.fb is not None:      # waits until the other side has been seen
            return 0 if self.fb and r.random() < .8 else 1
        if k in ("half", "after"):
            return 1 if r.random() < .5 else 0
        if k == "heavy":
            return 1 if r.random() < .9 else 0
        if k == "alternate":
            return self.n & 1
        if k == "one_in":
            return 0 if self.n % self.k == 0 else 1
        if k == "burst":
            if self.left == 0:
                self.state ^= 1
                self.left = r.randint(1, 12)
            self.left -= 1
            return self.state
        if k == "longwait":
            if self.left == 0:
                self.state = 0 if self.state else (1 if r.random() < .3 else 0)
                self.left = r.randint(40, 400) if self.state else r.randint(20, 200)
            self.left -= 1
            return self.state
        if self.left == 0:          # phase: changes its mind about the rate
            self.state = r.choice((0, .05, .3, .6, .95))
            self.left = r.randint(5, 120)
        self.left -= 1
        return 1 if r.random() < self.state else 0


class Freeze:
    """Stops one side or both in the middle of a run; when everything has come to rest, n cycles pass at once."""

    def __init__(self, sim, rng, a, b):
        self.sim = sim
        self.mode = rng.choice(("both", "receiver", "source"))
        # with only the receiver at rest the source goes on until nothing more fits
        self.settle = 900 if self.mode == "receiver" else 400
        self.at = rng.choice((rng.randint(0, 12), rng.randint(0, 40), rng.randint(0, 200), rng.randint(0, 800)))
        self.n = rng.randint(1, 1 << rng.randint(10, 17))
        self.t = self.last = 0
        self.done = 0
        self.source, self.sink = Side(self, a, "receiver"), Side(self, b, "source")

    def held(self):
        return self.at <= self.t and not self.done and self.t < self.at + 40000

    def rested(self):
        """nothing has moved for a while"""
        return self.held() and self.t >= max(self.at, self.last) + self.settle


class Side:
    def __init__(self, f, stall, other):
        self.f, self.s, self.other = f, stall, other
        self.rng, self.fb = stall.rng, None

    @property
    def kind(self):
        return "%s (%s at rest for %d cycles from %d on)" % (self.s.kind, self.f.mode, self.f.n, self.f.at)

    def __call__(self):
        f = self.f
        self.s.fb = self.fb
        v = self.s()
        held = f.held()
        if held and f.mode == self.other and self.fb:
            f.last = f.t                # this side still gives or takes something
        if self.other == "source":      # the receiver's side counts the cycles
            if f.rested():
                f.sim.lib.sim_run(f.n)
                f.done = 1
            f.t += 1
        return v if not held else 0 if f.mode == self.other else 1


def frozen(sim, rng, a, b):
    f = Freeze(sim, rng, a, b)
    return f.source, f.sink
