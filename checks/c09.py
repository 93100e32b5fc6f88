"""Joining the codes of one cycle."""
import hw, model, gen, designs

RULE = ("A case is one group of codes given to the simulated merge stage; the joined value and length must be those of the "
        "codes in pixel order, with the end mark, for each group once and in order. All pairs of lengths occur in each lane "
        "pair. Distinct by rate, bit depth and lengths.")
ASSUMPTIONS = ["a code has no bits above its length, as the coding stage guarantees"]
REQUIRED = {"groups": 150000, "gaps": 5000, "ends": 500, "length_pairs": 3000}


def jobs(tier, seed):
    js = []
    q = tier == "quick"
    for bd in range(2, 17):
        for ps in ((2, 4) if q else (2, 3, 4, 5, 6, 7, 8)):
            js.append({"name": "bd%d-ps%d" % (bd, ps), "fn": "merge", "bd": bd, "ps": ps, "n": 6000 if q else 20000})
    for ps in (3, 5, 8) if q else ():
        js.append({"name": "bd12-ps%d" % ps, "fn": "merge", "bd": 12, "ps": ps, "n": 3000})
    for bd, ps in ((12, 2), (16, 4)) if q else ((12, 2), (16, 4), (8, 3), (2, 8)):
        js.append({"name": "long-bd%d-ps%d" % (bd, ps), "fn": "merge", "bd": bd, "ps": ps, "n": 140000, "weight": 20})
    return js


def merge(r, job):
    bd, ps = job["bd"], job["ps"]
    s = hw.build(designs.merger(bd, ps))
    io = s.io
    top = min(16 + bd, 31)
    E = [s.idx("p_e%d" % i) for i in range(ps)]
    N = [s.idx("p_n%d" % i) for i in range(ps)]
    pv, pe, qv, qe, qn = s.idx("p_vin"), s.idx("p_end"), s.idx("q_vout"), s.idx("q_oend"), s.idx("q_n")
    g = r.rng(0)
    gap = gen.Stall(g, "phase")
    fifo, head, bi, tail = [], 0, 0, 0
    n = job["n"]
    pairs = [(a, b) for a in range(top + 1) for b in range(top + 1)]
    seen = set()
    while tail < 12:
        vin = 1 if bi < n and not gap() else 0
        end = g.getrandbits(1) if g.random() < .1 else 0
        io[pv], io[pe] = vin, end
        lens = [g.choice((0, 1, top, g.randint(0, top), g.randint(0, top))) for _ in range(ps)]
        if vin and bi < len(pairs):
            k = g.randrange(ps - 1)
            lens[k], lens[k + 1] = pairs[bi]
        vals = [g.choice((g.getrandbits(32), 0, 0xFFFFFFFF)) & ((1 << l) - 1) for l in lens]
        for i in range(ps):
            io[E[i]], io[N[i]] = (vals[i], lens[i]) if vin else (g.getrandbits(top), g.getrandbits(5))
        s.lib.sim_eval()
        if vin:
            fifo.append((lens, vals, end))
            r.count("groups")
            r.count("ends", end)
            seen.update(zip(lens, lens[1:]))
        else:
            r.count("gaps")
        if io[qv]:
            if head >= len(fifo):
                return r.fail("extra", "bd%d ps%d: output without input" % (bd, ps))
            lens, vals, end = fifo[head]
            head += 1
            x = model.join(list(zip(vals, lens)))
            got = (s.get("q_e"), io[qn])
            if got != x or io[qe] != end:
                r.fail("joined", "%d-bit, %d codes %s of lengths %s: %x of %d bits end %d, expected %x of %d end %d" % (
                    bd, ps, ["%x" % v for v in vals], lens, got[0], got[1], io[qe], x[0], x[1], end))
                if r.enough:
                    return
        s.lib.sim_tick()
        s.cycles += 1
        bi += vin
        if bi >= n:
            tail += 1
    if head != len(fifo):
        r.fail("lost", "bd%d ps%d: %d of %d groups came out" % (bd, ps, head, len(fifo)))
    r.evals += len(fifo) - 1
    r.ok("bd%d ps%d" % (bd, ps))
    r.count("length_pairs", len(seen))
    for p in sorted(seen)[::7]:
        r.keys.add("bd%d ps%d %s" % (bd, ps, p))
    r.sample("%d-bit, %d codes per group: %d groups" % (bd, ps, len(fifo)))
    r.count("cycles", s.cycles)
