"""Debug counters, delay line, bit reverser and reset pulse."""
import hw, model, gen, designs, streams, frames, bus, regs

RULE = ("Counters: a case is a history of frames through beta or micro with the counters built in, read over AXI-Lite at any time; the "
        "events are counted again from the ports, and every value read must be a count between the start and the end of that read, "
        "the last ones exactly. The same for the register core and the counter module alone with drawn event lines. Small modules: "
        "every delay and width, every pattern drawn. Distinct by module, case and history.")
ASSUMPTIONS = ["delay lines of two or more stages", "a counter is read while no more than 2^32 events have happened"]
REQUIRED = {"reads": 10000, "exact_values": 3000, "self_resets": 200, "events": 500000, "delays": 200, "reversals": 20000,
            "pulses": 1200, "counts_between_frames": 300, "leaps": 8,
            "max_count": 1 << 27}

EV = ("vin=0", "vin=1", "vout=0", "vout=1", "nready=1", "nready=0", "busy=1", "busy=0")


def jobs(tier, seed):
    q = tier == "quick"
    js = []
    for k in ("beta", "micro"):
        for i in range(6 if q else 12):
            js.append({"name": "%s%d" % (k, i), "fn": "product", "k": k, "n": 24 if q else 100, "weight": 5})
    for i, bd in enumerate((12, 2, 16, 9) if q else range(2, 17)):
        js.append({"name": "lines-bd%d" % bd, "fn": "lines", "bd": bd, "n": 60 if q else 300})
    js.append({"name": "module", "fn": "module", "n": 60 if q else 600})
    # counts large enough to carry through every bit
    for i in range(1 if q else 4):
        js.append({"name": "far%d" % i, "fn": "far", "top": (1 << 28) if q else (1 << 32) - 1, "n": 1, "weight": 20, "timeout": 800})
    for i, bd in enumerate((12,) if q else (12, 5, 16)):
        js.append({"name": "far-lines%d" % i, "fn": "far_lines", "bd": bd, "n": 2 if q else 4, "weight": 20, "timeout": 800})
    for k in ("beta", "micro"):
        js.append({"name": "far-" + k, "fn": "far_product", "k": k, "n": 3 if q else 10, "weight": 20, "timeout": 800})
    js.append({"name": "pulse", "fn": "pulse", "n": 60 if q else 600})
    for d in (range(2, 34) if q else range(2, 70)):
        js.append({"name": "delay%d" % d, "fn": "delay", "d": d, "n": 40})
    for i, w in enumerate((1, 2, 3, 7, 8, 13, 16, 31, 32, 40, 64)):
        for sy in (0, 1):
            js.append({"name": "reverse%d-%d" % (w, sy), "fn": "reverse", "w": w, "sync": sy, "n": 30})
    return js


class Watch:
    """an AXI-Lite agent that also records the eight events of each cycle"""

    def __init__(self, s, g, fresh):
        self.a = bus.AxiLite(s, rng=g, ready="random")
        self.s, self.g, self.fresh = s, g, fresh
        self.x = [s.idx(n) for n in ("p_vin", "q_vout", "q_nready", "p_busy", "q_end")]
        self.started = False
        self.reset_now = False
        self.sum = [0] * 8
        self.hist = [(0,) * 8]       # sums before each cycle
        self.resets = self.between = 0
        self.rate = g.choice((.02, .1, .5, 1))
        self.inframe = False

    def pre(self):
        if self.a.idle() and self.g.random() < self.rate:
            self.a.read(frames.DEBUG_REG + 4 * self.g.randrange(8))
        self.a.pre()

    def post(self):
        io = self.s.io
        vin, vout, nready, busy, end = (io[i] for i in self.x)
        self.a.post()
        rst = self.reset_now
        # beta forgets a frame when it resets itself; micro goes on counting
        if self.started and not end and not (rst and self.fresh):
            c = self.sum
            c[1 if vin else 0] += 1
            c[3 if vout else 2] += 1
            c[4 if nready else 5] += 1
            c[6 if busy else 7] += 1
            self.between += not self.inframe
        if vin:
            self.started = True
            self.inframe = True
        if rst and self.fresh:
            self.started = False
        self.reset_now = bool(vout and end and not busy)
        if self.reset_now:
            self.resets += 1
            self.inframe = False
        self.hist.append(tuple(self.sum))

    def check(self, r, exact_tail=0):
        if self.a.err:
            return self.a.err[0]
        for (op, v, resp), (t0, t1) in zip(self.a.done, self.a.times):
            i = op[1] - frames.DEBUG_REG >> 2
            lo, hi = self.hist[max(0, t0 - 6)][i], self.hist[min(t1 + 1, len(self.hist) - 1)][i]
            r.count("reads")
            r.count("exact_values", lo == hi)
            if resp or not lo <= v <= hi:
                return "counter %d (%s) read as %d (response %d) in cycles %d to %d; %d to %d such cycles had passed" % (
                    i, EV[i], v, resp, t0, t1, lo, hi)
        return None


def product(r, job):
    k = job["k"]
    s = hw.build(designs.product(k, patch=False, override={"support_axi_lite": True, "axi_lite_debug": True}))
    ps = frames.PS[k]
    for c in r.cases():
        g = r.rng(c)
        w, h = 4 * g.randint(1, 8), g.randint(1, 6)
        s.reset()
        s.set("p_vin", 0)
        s.set("p_busy", 0)
        wt = Watch(s, g, k == "beta")
        cut = g.random() < .25
        wt.a.write(frames.HW_REG, w << 16 | h)
        wt.a.write(frames.AC_REG, g.randint(0, 80) if cut else 0xFFFFFF)
        wt.a.run()
        # the sums start when the first pixel comes
        wt.a.done, wt.a.times, wt.a.now = [], [], 0
        kinds = []
        for _ in range(g.randint(1, 4)):
            fs = gen.frame(g, w, h, 12)
            beats = [tuple(fs[i:i + ps]) for i in range(0, len(fs), ps)]
            si, so = gen.Stall(g), gen.Stall(g)
            kinds.append((si.kind, so.kind))
            streams.run_busy(s, ps, beats, si, so, idle_limit=600 if not cut else 150, axil=wt, stop_after_end=1, max_cycles=150000)
            s.set("p_vin", 0)
        # a quiet while, with the receiver ready or not, then all eight
        s.set("p_busy", g.getrandbits(1))
        for i in range(8):
            wt.a.read(frames.DEBUG_REG + 4 * i)
        wt.rate = 0
        for _ in range(30):
            s.set("p_vin", 0)
            wt.pre()
            s.eval()
            wt.post()
            s.tick()
        n = 0
        while not wt.a.idle() and n < 5000:
            wt.pre()
            s.eval()
            wt.post()
            s.tick()
            n += 1
        err = wt.check(r)
        r.count("self_resets", wt.resets)
        r.count("events", sum(wt.sum))
        r.count("counts_between_frames", wt.between)
        r.count("cycles", len(wt.hist))
        r.ok((k, w, h, c, wt.sum))
        r.sample("%s %dx%d, %s: counters %s" % (k, w, h, kinds, wt.sum))
        if err:
            r.fail("product counters", "%s %dx%d%s %s: %s" % (k, w, h, " cut" if cut else "", kinds, err))
            if r.enough:
                break


def mk_lines(bd):
    def make():
        import core_axi_lite, constraints
        c = designs.base_config(bit_depth=bd, support_axi_lite=True, axi_lite_debug=True)
        from encode import Encode
        d = core_axi_lite.CoreAxiLite(c, constraints.Constraints())
        ins, outs = designs.axil_ports(d)
        ins["en"] = d.debug_en
        return d, ins, outs, True
    return make


def lines(r, job):
    """the register core alone, event lines drawn"""
    s = hw.build(mk_lines(job["bd"]))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        a = bus.AxiLite(s, rng=g, ready="random")
        hist, cur = [(0,) * 8], [0] * 8
        p = [g.choice((0, .02, .3, .9, 1)) for _ in range(8)]
        n = g.randint(100, 900)
        for t in range(n):
            m = sum((g.random() < p[i]) << i for i in range(8)) if t < n - 60 else 0
            s.set("p_en", m)
            if a.idle() and g.random() < .5 and t < n - 40:
                a.read(frames.DEBUG_REG + 4 * g.randrange(8))
            if t == n - 40:
                for i in range(8):
                    a.read(frames.DEBUG_REG + 4 * i)
            a.pre()
            s.eval()
            a.post()
            s.tick()
            for i in range(8):
                cur[i] += m >> i & 1
            hist.append(tuple(cur))
        s.set("p_en", 0)
        a.run(2000)
        hist += [tuple(cur)] * 2
        err = a.err[0] if a.err else None
        for (op, v, resp), (t0, t1) in zip(a.done, a.times):
            i = op[1] - frames.DEBUG_REG >> 2
            lo, hi = hist[max(0, min(t0 - 4, n))][i], hist[min(t1 + 1, n)][i]
            r.count("reads")
            r.count("exact_values", lo == hi)
            if not err and (resp or not lo <= v <= hi):
                err = "counter %d read as %d (response %d), %d to %d events had happened" % (i, v, resp, lo, hi)
        r.count("events", sum(cur))
        r.count("cycles", n)
        r.ok((job["bd"], c, cur))
        if err:
            r.fail("register counters", "bit depth %d: %s" % (job["bd"], err))
            if r.enough:
                break


def mk_module():
    import debug_module
    d = debug_module.DebugModule()
    return d, {"en": d.regs_en}, {"r%d" % i: d.registers[i] for i in range(8)}, True


def module(r, job):
    s = hw.build(mk_module)
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        cur = [0] * 8
        p = [g.choice((0, .02, .3, .9, 1)) for _ in range(8)]
        err = None
        for t in range(g.randint(20, 1500)):
            m = sum((g.random() < p[i]) << i for i in range(8))
            s.set("p_en", m)
            s.eval()
            got = [s.get("q_r%d" % i) for i in range(8)]
            if got != cur:
                err = "counters %s, expected %s (cycle %d)" % (got, cur, t)
                break
            s.tick()
            for i in range(8):
                cur[i] += m >> i & 1
        r.count("events", sum(cur))
        r.ok(("module", c, cur))
        if err:
            r.fail("counter module", err)
            if r.enough:
                break


def lengths(g, top, cur):
    """(lines, cycles), from single cycles to millions; the longest line is asserted top times. Now and then a line
    stops where its count is about to carry, or just has"""
    one, left = g.randrange(8), top
    while left:
        m = g.choice((255, g.getrandbits(8))) | 1 << one
        i, b = g.randrange(8), g.randint(2, top.bit_length() - 3)
        k = ((cur[i] >> b) + 1 << b) - g.randint(0, 1) - cur[i]
        if g.random() < .6 and 0 < k <= left:
            left -= k
            yield m | 1 << i, k
            yield g.getrandbits(8) & ~(1 << i | 1 << one), g.randint(1, 3)
            continue
        k = min(left, 1 << g.randint(0, top.bit_length() - 3))
        k = min(left, g.choice((k, g.randint(1, k), 1)))
        left -= k
        yield m, k


def far(r, job):
    s = hw.build(mk_module)
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        cur = [0] * 8
        steps, bad = 0, None
        for m, k in lengths(g, job["top"], cur):
            s.set("p_en", m)
            s.run(k)
            s.eval()
            steps += 1
            cur[:] = [x + (k if m >> i & 1 else 0) for i, x in enumerate(cur)]
            got = [s.get("q_r%d" % i) for i in range(8)]
            if got != cur:
                bad = "counters %s after %d cycles with lines %s, expected %s" % (got, k, format(m, "08b"), cur)
                break
        r.count("events", sum(cur))
        r.count("far_steps", steps)
        r.count("max_count", max(cur))
        r.ok(("far", c, cur))
        if bad:
            r.fail("large counts", bad)
            if r.enough:
                break


def far_lines(r, job):
    s = hw.build(mk_lines(job["bd"]))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        cur = [0] * 8
        bad = None
        for m, k in lengths(g, 1 << g.randint(17, 24), cur):
            s.set("p_en", m)
            s.run(k)
            cur[:] = [x + (k if m >> i & 1 else 0) for i, x in enumerate(cur)]
            s.set("p_en", 0)
            a = bus.AxiLite(s, rng=g, ready="random")
            for i in range(8):
                a.read(frames.DEBUG_REG + 4 * i)
            a.run(3000)
            got = [v for op, v, resp in a.done if not resp]
            r.count("reads", 8)
            r.count("exact_values", 8)
            if a.err or got != cur:
                bad = a.err[0] if a.err else "registers read %s, %s events had happened" % (got, cur)
                break
        r.count("events", sum(cur))
        r.count("max_count", max(cur))
        r.ok(("farlines", job["bd"], c, cur))
        if bad:
            r.fail("large counts", "bit depth %d: %s" % (job["bd"], bad))
            if r.enough:
                break


def far_product(r, job):
    """one frame left waiting for its sender and its receiver for a very long time"""
    k = job["k"]
    s = hw.build(designs.product(k, patch=False, override={"support_axi_lite": True, "axi_lite_debug": True}))
    ps = frames.PS[k]
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        s.set("p_vin", 0)
        s.set("p_busy", 1)
        wt = Watch(s, g, k == "beta")
        wt.a.write(frames.HW_REG, 400 << 16 | 400)
        wt.a.write(frames.AC_REG, 0xFFFFFF)
        wt.a.run()
        wt.a.done, wt.a.times, wt.a.now = [], [], 0
        wt.rate = 0
        bad, leaps = None, 0

        def cycles(n, vin, busy):
            seen = set()
            for t in range(n):
                s.set("p_vin", vin)
                for i in range(ps):
                    s.set("p_p%d" % i, g.getrandbits(12))
                s.set("p_busy", busy)
                wt.pre()
                s.eval()
                wt.post()
                s.tick()
                seen.add(tuple(s.io[i] for i in wt.x))
            return seen

        for busy, vin in g.sample([(1, 1), (1, 0), (0, 0)], 3):
            cycles(g.randint(1, 60), 1, 0)
            cycles(4000, vin, busy)
            last = cycles(100, vin, busy)
            if len(last) > 1:
                continue         # not at rest
            n = 1 << g.randint(16, 18)
            n += g.randrange(n)
            s.run(n)
            vi, vo, nr, bu, end = last.pop()
            if wt.started:
                for i in (1 if vi else 0, 3 if vo else 2, 4 if nr else 5, 6 if bu else 7):
                    wt.sum[i] += n
            cycles(20, vin, busy)
            if tuple(s.io[i] for i in wt.x) != (vi, vo, nr, bu, end):
                bad = "outputs %s after %d cycles of the same" % (tuple(s.io[i] for i in wt.x), n)
                break
            leaps += 1
            for i in range(8):
                wt.a.read(frames.DEBUG_REG + 4 * i)
            t = 0
            while not wt.a.idle() and t < 1000:
                cycles(1, vin, busy)
                t += 1
        bad = bad or wt.check(r)
        r.count("leaps", leaps)
        r.count("events", sum(wt.sum))
        r.count("max_count", max(wt.sum))
        r.ok(("far", k, c, wt.sum))
        if bad:
            r.fail("large counts", "%s: %s" % (k, bad))
            if r.enough:
                break


def pulse(r, job):
    def make():
        import auto_reset
        d = auto_reset.AutoReset()
        return d, {n: getattr(d, n) for n in ("end_in", "hs1_in", "hs2_in")}, {"reset_out": d.reset_out}, False
    # wired the way the products wire it: the pulse resets its own clock domain
    def wired():
        import auto_reset, clk_domains
        from nmigen import Elaboratable, Module
        d = auto_reset.AutoReset()

        class W(Elaboratable):
            def elaborate(self, platform):
                m = Module()
                m.submodules.a = d
                clk_domains.load_clk(m)
                m.d.comb += clk_domains.CORE.rst.eq((d.reset_out == 1) | (clk_domains.FULL.rst == 1))
                return m
        return W(), {n: getattr(d, n) for n in ("end_in", "hs1_in", "hs2_in")}, {"reset_out": d.reset_out}, True
    s = hw.build(wired)
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        p = [g.choice((.2, .5, .9, 1)) for _ in range(3)]
        exp, err, n = 0, None, 0
        for t in range(g.randint(20, 500)):
            v = [int(g.random() < x) for x in p]
            for nm, x in zip(("end_in", "hs1_in", "hs2_in"), v):
                s.set("p_" + nm, x)
            s.eval()
            o = s.get("q_reset_out")
            if o != exp:
                err = "reset is %d, expected %d (cycle %d)" % (o, exp, t)
                break
            # one cycle long: the pulse resets the module itself
            exp = 1 if all(v) and not o else 0
            n += exp
            s.tick()
        r.count("pulses", n)
        r.ok(("pulse", c, n))
        if err:
            r.fail("reset pulse", err)
            if r.enough:
                break


def delay(r, job):
    d = job["d"]
    s = hw.build(designs.simple("delayer", "Delayer", {"i": "in_sig"}, {"o": "out_sig"}, full=False, args=(d,)))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        first, p, err = None, g.choice((1, .5, .05, 0)), None
        wait = g.randint(0, 2 * d + 3)
        for t in range(wait + 5 * d + 40):
            v = int(t >= wait and (t == wait and p > 0 or g.random() < p))
            s.set("p_i", v)
            s.eval()
            if v and first is None:
                first = t
            exp = int(first is not None and t >= first + d)
            if s.get("q_o") != exp:
                err = "delay of %d: output %d in cycle %d, first input in cycle %s" % (d, 1 - exp, t, first)
                break
            s.tick()
        r.count("delays")
        r.ok(("delay", d, c))
        if err:
            r.fail("delay", err)
            if r.enough:
                break


def reverse(r, job):
    w, sy = job["w"], job["sync"]
    s = hw.build(designs.simple("reverser", "Reverser", {"i": "data_in"}, {"o": "data_out"}, full=False, args=(w, bool(sy))))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        prev = 0
        for t in range(200):
            x = g.choice((g.getrandbits(w), 1 << g.randrange(w), (1 << w) - 1, 0))
            s.set("p_i", x)
            s.eval()
            e = int("{:0{}b}".format(prev if sy else x, w)[::-1], 2)
            r.count("reversals")
            if s.get("q_o") != e:
                r.fail("reverser", "%d bits: %x came out as %x, expected %x" % (w, prev if sy else x, s.get("q_o"), e))
                break
            s.tick()
            prev = x
        r.ok(("reverse", w, sy, c))
        if r.enough:
            break
