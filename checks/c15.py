"""The register port: a model of the registers and the AXI-Lite rules."""
import hw, model, gen, designs, streams, frames, bus, regs

RULE = ("A case is a history of register accesses with drawn addresses, data, strobes and handshake delays. Alone: reads and "
        "writes one after another, every response and value compared with a register model, at every bit depth. Two masters: "
        "reads and writes at the same time; a read returns a value the register had between its start and its end. During "
        "frames: accesses (writes of the values already there, of codes of classes the frames do not have, and of budgets far off) while frames go through the product and it resets itself; "
        "values, responses and the stream are compared. Responses must stay until taken and answer one access each. Distinct "
        "by configuration and history.")
ASSUMPTIONS = ["a response is taken before the one to the next access of its kind is given", "the address bits above the fifteen lowest select the core", "accesses are word aligned",
               "Huffman codes and frame size in use keep their value while a frame is in progress"]
REQUIRED = {"accesses": 40000, "decode_errors": 1500, "partial_writes": 3000, "during_frames": 3000, "overlapping": 1500,
            "slave_errors": 200, "self_resets": 200, "unused_codes_set": 150,
            "budgets_set": 100, "early_requests": 3000}


def jobs(tier, seed):
    q = tier == "quick"
    js = []
    for bd in range(2, 17):
        js.append({"name": "alone-bd%d" % bd, "fn": "alone", "bd": bd, "dbg": bd % 2 == 0, "n": 180 if q else 600})
    for bd in (12,) if q else (3, 12, 16):
        js.append({"name": "long-bd%d" % bd, "fn": "alone", "bd": bd, "dbg": True, "n": 1, "big": 20000 if q else 70000, "weight": 20, "timeout": 800})
    for i, bd in enumerate((12, 16, 8) if q else (2, 5, 8, 10, 12, 14, 15, 16)):
        js.append({"name": "two-bd%d" % bd, "fn": "two", "bd": bd, "n": 180 if q else 400})
    for i in range(8 if q else 16):
        js.append({"name": "frames%d" % i, "fn": "during", "k": "beta" if i % 2 == 0 else "micro", "dbg": i % 4 < 2,
                   "n": 16 if q else 60, "weight": 5})
    return js


def core(bd, dbg):
    return designs.int1(designs.base_config(bit_depth=bd, pixels_per_cycle=(1, 2, 4)[bd % 3], support_axi_lite=True, axi_lite_debug=dbg))


def alone(r, job):
    bd, dbg = job["bd"], job["dbg"]
    s = hw.build(core(bd, dbg))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        a = bus.AxiLite(s, rng=g, ready=g.choice(("random", "late", "early")))
        ref = regs.Core(bd, dbg)
        exp, last = [], None
        for _ in range(job["big"] if "big" in job else g.randint(4, 60)):
            ad = last if last is not None and g.random() < .4 else ref.addresses(g)
            last = ad
            if g.random() < .5:
                a.read(ad)
                exp.append(("r", ad) + ref.peek(ad))
            else:
                d = g.choice((g.getrandbits(32), g.getrandbits(32), 0, 0xFFFFFFFF))
                st = g.choice((15, 15, g.getrandbits(4)))
                a.write(ad, d, st)
                r.count("partial_writes", st != 15)
                exp.append(("w", ad, None, ref.poke(ad, d, st)))
        # then every register once
        for i in range(2 * (bd + 1)):
            a.read(0x400 + i << 2)
            exp.append(("r", 0x400 + i << 2) + ref.peek(0x400 + i << 2))
        for ad in (0x2000, 0x2004):
            a.read(ad)
            exp.append(("r", ad) + ref.peek(ad))
        a.run()
        err = a.err[0] if a.err else None
        for i, e in enumerate(exp):
            if err:
                break
            if i >= len(a.done):
                err = "access %d of %d was never answered" % (i, len(exp))
                break
            op, v, resp = a.done[i]
            r.count("accesses")
            r.count("decode_errors", e[3] == 3)
            r.count("slave_errors", e[3] == 2)
            if resp != e[3]:
                err = "%s of %05x answered with response %d, expected %d (access %d)" % (op[0], op[1], resp, e[3], i)
            elif e[2] is not None and v != e[2]:
                err = "read of %05x returned %08x, expected %08x (access %d)" % (op[1], v, e[2], i)
        r.count("cycles", a.now)
        r.count("early_requests", a.n_early)
        r.ok((bd, dbg, c, job["seed"]))
        r.sample("%d bits%s: %s ..." % (bd, " with counters" if dbg else "", [("%s %05x" % e[:2]) for e in exp[:6]]))
        if err:
            r.fail("registers", "%d bits: %s" % (bd, err), {"history": [repr(d) for d in a.done[:40]]})
            if r.enough:
                break


def two(r, job):
    """a reading and a writing master at the same time"""
    bd = job["bd"]
    s = hw.build(core(bd, False))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        R, W = bus.AxiLite(s, rng=g, role="r"), bus.AxiLite(s, rng=g, role="w")
        ref = regs.Core(bd)
        pool = sorted({ref.addresses(g) for _ in range(g.randint(1, 3))})
        states = {a: [ref.peek(a)[0]] for a in pool}      # value after each of the writes
        n = g.randint(10, 50)
        wexp = []
        for _ in range(n):
            R.read(g.choice(pool))
            ad, d, st = g.choice(pool), g.getrandbits(32), g.choice((15, g.getrandbits(4)))
            W.write(ad, d, st)
            wexp.append(ref.poke(ad, d, st))
            for a in pool:
                states[a].append(ref.peek(a)[0])
        k = 0
        while not (R.idle() and W.idle()) and k < 60000:
            R.pre()
            W.pre()
            s.eval()
            R.post()
            W.post()
            s.tick()
            k += 1
        err = (R.err + W.err + [None])[0]
        if not err and (len(R.done) != n or len(W.done) != n):
            err = "%d of %d reads and %d of %d writes were answered" % (len(R.done), n, len(W.done), n)
        if not err:
            for (op, _, resp), e in zip(W.done, wexp):
                if resp != e:
                    err = "write of %05x answered with response %d, expected %d" % (op[1], resp, e)
            for (op, v, resp), (t0, t1) in zip(R.done, R.times):
                lo = sum(1 for x in W.times if x[1] < t0)
                hi = sum(1 for x in W.times if x[0] <= t1)
                r.count("overlapping", hi > lo)
                x = states[op[1]][lo:hi + 1]
                if x[0] is None:
                    if resp != 3:
                        err = "read of %05x answered with response %d, expected 3" % (op[1], resp)
                elif resp or v not in x:
                    err = "read of %05x returned %08x (response %d) with writes in progress; expected one of %s" % (
                        op[1], v, resp, ["%08x" % y for y in x])
                r.count("accesses", 2)
        r.count("cycles", k)
        r.count("early_requests", R.n_early + W.n_early)
        r.ok(("two", bd, c, job["seed"]))
        if err:
            r.fail("two masters", "%d bits: %s" % (bd, err))
            if r.enough:
                break


def during(r, job):
    p = job["k"]
    ps = frames.PS[p]
    s = hw.build(designs.product(p, override={"support_axi_lite": True, "axi_lite_debug": job["dbg"]}))
    for c in r.cases():
        g = r.rng(c)
        w, h = 4 * g.randint(1, 12), g.randint(1, 8)
        frames.setup(s, w, h)
        a = bus.AxiLite(s, rng=g)
        ref = regs.Core(12, job["dbg"], hw=w << 16 | h, ac=0xFFFFFF)
        n = g.randint(2, 5)
        fs = [gen.frame(g, w, h, 12) for _ in range(n)]
        top = 12                 # the classes above do not occur
        if g.random() < .6:
            top = g.randint(1, 9)
            fs = [[2048 + g.randint(-(1 << top - 1) + 1 >> 1, (1 << top - 1) - 1 >> 1) for _ in range(w * h)] for _ in range(n)]
        exp = []
        rate = g.choice((1, .5, .1))
        ends = []

        def hook(sim, t):
            if sim.io[sim.idx("q_end")] and sim.io[sim.idx("q_vout")]:
                ends.append(1)
            if a.idle() and g.random() < rate:
                ad = ref.addresses(g)
                if g.random() < .6:
                    a.read(ad)
                    exp.append(("r", ad) + ref.peek(ad))
                else:
                    v = ref.peek(ad)[0]
                    st = g.choice((15, g.getrandbits(4)))
                    m = sum(0xFF << 8 * b for b in range(4) if st >> b & 1)
                    # what is there already, noise in the bytes that are not written
                    d = (v & m | g.getrandbits(32) & ~m) if v is not None else g.getrandbits(32)
                    k, i = ref.where(ad)
                    if k == "ssss" and i >> 1 > top and g.random() < .8:
                        d = g.getrandbits(32)
                        r.count("unused_codes_set")
                    elif k == "hw" and i == 1 and g.random() < .5:
                        d = g.getrandbits(24) | 0x800000
                        r.count("budgets_set")
                    a.write(ad, d, st)
                    ref.poke(ad, d, st)
                    exp.append(("w", ad, None, {"debug": 2, "none": 3}.get(k, 0)))
        sa, sb = gen.Stall(g), gen.Stall(g)
        t = streams.run_busy(s, ps, [x for f in fs for x in streams.beats_of(f, ps)], sa, sb, axil=a, hook=hook,
                             stable=True, stop_after_end=n)
        err = None
        for (op, v, resp), e in zip(a.done, exp):
            r.count("accesses")
            r.count("during_frames")
            r.count("slave_errors", e[3] == 2)
            r.count("decode_errors", e[3] == 3)
            if resp != e[3]:
                err = "%s of %05x answered with response %d, expected %d" % (op[0], op[1], resp, e[3])
            elif e[2] is not None and v != e[2]:
                err = "read of %05x returned %08x, expected %08x" % (op[1], v, e[2])
        d = streams.show_diff(t.out, sum((streams.framed(f, w, h) for f in fs), []))
        err = err or (a.err + [None])[0]
        r.count("self_resets", n)
        r.count("frames", n)
        r.count("cycles", t.cycles)
        r.ok((p, w, h, frames.digest(fs)))
        r.sample("%s: %d frames of %dx%d with %d accesses" % (p, n, w, h, len(a.done)))
        if err:
            r.fail("access during frames", "%s, %d frames of %dx%d, source %s receiver %s: %s" % (p, n, w, h, sa.kind, sb.kind, err))
        if d or t.err:
            r.fail("frames during accesses", "%s, %d frames of %dx%d, source %s receiver %s: %s" % (
                p, n, w, h, sa.kind, sb.kind, d or t.err[0]))
        if r.enough:
            break
