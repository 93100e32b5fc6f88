"""Difference, class and code of every pixel and prediction."""
import hw, model, gen, designs

RULE = ("A case is one pixel with its prediction in one lane of the simulated difference, classification and coding stages "
        "(wired as in the core). Its code value and length must be those of the reference, the valid and end marks must "
        "arrive in order. Every difference of every bit depth is among the cases, in every lane (for up to 8 bits, every "
        "pair). Distinct by bit depth, lane and difference.")
ASSUMPTIONS = []
REQUIRED = {"pairs": 1000000, "differences": 200000, "classes": 9 * 15, "gaps": 20000, "ends": 1000}


def jobs(tier, seed):
    js = []
    for bd in range(2, 17):
        for ps in (1, 2, 4):
            if bd <= (8 if tier == "quick" else 10):
                js.append({"name": "bd%d-ps%d-all" % (bd, ps), "fn": "chain", "bd": bd, "ps": ps, "mode": "all", "n": 1, "weight": 1 << (2 * bd) >> 10})
            parts = 3 if tier == "quick" else 4
            for k in range(parts):
                js.append({"name": "bd%d-ps%d-%d" % (bd, ps, k), "fn": "chain", "bd": bd, "ps": ps, "mode": "diffs",
                           "n": (1 if tier == "quick" else 3), "weight": bd * 4})
    return js


def stream(g, bd, mode):
    top = (1 << bd) - 1
    if mode == "all":
        for p in range(top + 1):
            for q in range(top + 1):
                yield p, q
        return
    ds = list(range(-top, top + 1))
    g.shuffle(ds)
    for d in ds:
        k = g.random()
        lo, hi = max(0, -d), min(top, top - d)
        q = lo if k < .1 else hi if k < .2 else g.randint(lo, hi)
        yield q + d, q


def chain(r, job):
    bd, ps = job["bd"], job["ps"]
    s = hw.build(designs.coder(bd, ps))
    io, ev, tick = s.io, s.lib.sim_eval, s.lib.sim_tick
    P = [s.idx("p_p%d" % i) for i in range(ps)]
    Q = [s.idx("p_q%d" % i) for i in range(ps)]
    E = [s.idx("q_e%d" % i) for i in range(ps)]
    N = [s.idx("q_n%d" % i) for i in range(ps)]
    pv, pe, qv, qe = s.idx("p_vin"), s.idx("p_end"), s.idx("q_vout"), s.idx("q_oend")
    table = model.STD_TABLE
    codes = [model.code_diff(model.wrap16(d), table) for d in range(-((1 << bd) - 1), 1 << bd)]
    off = (1 << bd) - 1
    seen = set()
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        gap = gen.Stall(g, g.choice(("light", "phase", "burst")))
        # every lane gets every difference: each lane takes the stream in its own order
        lanes = [list(stream(g, bd, job["mode"])) for _ in range(ps)]
        if job["mode"] == "all":
            for l in lanes[1:]:
                g.shuffle(l)
        n = len(lanes[0])
        fifo, got, bi = [], 0, 0
        head = tail = 0
        bad = False
        while tail < 12:
            vin = 1 if bi < n and not gap() else 0
            end = 1 if vin and g.random() < .01 else 0
            io[pv] = vin
            io[pe] = end
            for i in range(ps):
                if vin:
                    io[P[i]], io[Q[i]] = lanes[i][bi]
                else:
                    io[P[i]] = g.getrandbits(bd)
                    io[Q[i]] = g.getrandbits(bd)
            ev()
            if vin:
                fifo.append((bi, end))
                r.count("ends", end)
            else:
                r.count("gaps")
            if io[qv]:
                if head >= len(fifo):
                    r.fail("extra", "bd%d ps%d: a code that no pixel asked for" % (bd, ps))
                    bad = True
                    break
                k, e = fifo[head]
                head += 1
                for i in range(ps):
                    p, q = lanes[i][k]
                    x = codes[p - q + off]
                    if (io[E[i]], io[N[i]]) != x:
                        r.fail("code", "%d-bit lane %d of %d: pixel %d predicted %d: code %x of %d bits, expected %x of %d" % (
                            bd, i, ps, p, q, io[E[i]], io[N[i]], x[0], x[1]), {"pixel": p, "prediction": q})
                        bad = True
                if io[qe] != e:
                    r.fail("end mark", "bd%d ps%d: end mark %d with group %d, expected %d" % (bd, ps, io[qe], k, e))
                    bad = True
                if bad and r.enough:
                    break
            tick()
            s.cycles += 1
            bi += vin
            if bi >= n:
                tail += 1
        if not bad and head != n:
            r.fail("lost", "bd%d ps%d: %d of %d groups came out" % (bd, ps, head, n))
        r.count("pairs", n * ps)
        r.evals += n * ps - 1
        r.ok("bd%d ps%d %s %d" % (bd, ps, job["mode"], c))
        for l in lanes:
            seen.update(p - q for p, q in l)
        if r.enough:
            break
    r.count("differences", len(seen))
    r.count("classes", len({model.ssss_of(model.wrap16(d)) for d in seen}))
    # one key per lane and block of differences, to keep the report small
    for i in range(ps):
        for d in sorted(seen)[::max(1, len(seen) // 64)]:
            r.keys.add("bd%d lane%d/%d d%d" % (bd, i, ps, d))
    r.sample("%d-bit, %d lanes, %s: %d differences" % (bd, ps, job["mode"], len(seen)))
    r.count("cycles", s.cycles)
