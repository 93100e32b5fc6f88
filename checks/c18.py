"""The DMA registers."""
import hw, gen, designs, frames, bus

RULE = ("A case is a history of register accesses (one or two masters, drawn addresses, data, strobes and handshake delays) on the simulated "
        "DMA registers while the status inputs change. Control registers must hold and drive what was written, every cycle; status "
        "reads return a value the input had during the read; responses are checked, must stay until taken and answer one access "
        "each. Distinct by history.")
ASSUMPTIONS = ["a response is taken before the one to the next access of its kind is given", "writes to status registers have at least one byte strobe set",
               "the address bits above the twelve lowest select the module"]
REQUIRED = {"accesses": 20000, "decode_errors": 1000, "slave_errors": 1000, "partial_writes": 2000, "status_reads": 1500,
            "overlapping": 1000, "output_checks": 200000, "early_requests": 500}


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "%s%d" % (k, i), "fn": "run", "two": k == "two", "n": 360 if q else 1200} for k in ("one", "two") for i in range(4 if q else 12)] + \
        [{"name": "long-" + k, "fn": "run", "two": k == "two", "n": 1, "big": 1500 if q else 4000, "weight": 20, "timeout": 800} for k in ("one", "two")]


def make():
    import dma_axi_lite
    d = dma_axi_lite.DMAAxiLite()
    ins, outs = designs.axil_ports(d, suffix="_")
    ins.update({"in%d" % i: getattr(d, "in%d" % i) for i in range(1, 10)})
    outs.update({"o0": d.read_addr, "o1": d.write_addr, "o2": d.start})
    return d, ins, outs


BASE = 0x1000


def addr(g):
    k = g.random()
    if k < .5:
        return BASE + 4 * g.randrange(3)
    if k < .85:
        return BASE + 4 * g.randint(3, 11)
    if k < .92:       # beside them
        return BASE + 4 * g.choice((12, 13, 14, 15, 16, 18, 32, 0xFF, g.randint(12, 0x3FF)))
    return g.choice((0, 4, 0x2C, 0x800, 0x400, 0x2000, 0x2004, 0x4000, 0x8000000, 4 * g.randrange(0x400)))


def run(r, job):
    s = hw.build(make)
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        R = bus.AxiLite(s, rng=g, role="r" if job["two"] else "rw", ready=g.choice(("random", "late", "early")))
        W = bus.AxiLite(s, rng=g, role="w") if job["two"] else R
        agents = [R, W] if job["two"] else [R]
        n = job["big"] if "big" in job else g.randint(5, 60)
        ctl = [0, 0, 0]
        hist = [[0], [0], [0]]          # control registers after each write
        ops = []
        for _ in range(n):
            ad = addr(g)
            if g.random() < .5:
                R.read(ad)
                ops.append(("r", ad))
            else:
                d = g.choice((g.getrandbits(32), 0, 0xFFFFFFFF))
                st = g.choice((15, g.randint(1, 15)))
                i = (ad - BASE) >> 2 if BASE <= ad < BASE + 48 else None
                if i in (0, 1, 2) and g.random() < .1:
                    st = 0
                W.write(ad, d, st)
                r.count("partial_writes", st != 15)
                if i in (0, 1, 2):
                    m = sum(0xFF << 8 * b for b in range(4) if st >> b & 1)
                    ctl[i] = ctl[i] & ~m | d & m
                for k in range(3):
                    hist[k].append(ctl[k])
                ops.append(("w", ad, i))
        inp = [g.getrandbits(32) for _ in range(9)]
        ilog = [[(0, v)] for v in inp]
        for k in range(9):
            s.set("p_in%d" % (k + 1), inp[k])
        err, t = None, 0
        nw = sum(1 for o in ops if o[0] == "w")
        while not all(a.idle() for a in agents) and t < 40000 + 60 * n and not err:
            if g.random() < .1:
                k = g.randrange(9)
                v = g.getrandbits(32)
                s.set("p_in%d" % (k + 1), v)
                ilog[k].append((t, v))
            for a in agents:
                a.pre()
            s.eval()
            # writes finished so far, and one that may be under way
            fin = sum(1 for d in W.done if d[0][0] == "w")
            going = sum(1 for x in W.going() if x[0] == "w")
            for k in range(3):
                if s.get("q_o%d" % k) not in hist[k][fin:fin + 1 + going]:
                    err = "control register %d drives %08x, expected %s" % (k, s.get("q_o%d" % k), ["%08x" % x for x in hist[k][fin:fin + 1 + going]])
            r.count("output_checks", 3)
            for a in agents:
                a.post()
            s.tick()
            t += 1
        err = err or (R.err + W.err + [None])[0]
        rd = [(d, x) for d, x in zip(R.done, R.times) if d[0][0] == "r"]
        wd = [(d, x) for d, x in zip(W.done, W.times) if d[0][0] == "w"]
        ro, wo = [o for o in ops if o[0] == "r"], [o for o in ops if o[0] == "w"]
        if not err and (len(rd) != len(ro) or len(wd) != len(wo)):
            err = "%d of %d accesses answered" % (len(rd) + len(wd), n)
        for (d, x), o in zip(wd, wo):
            e = 3 if o[2] is None else 0 if o[2] < 3 else 2
            r.count("accesses")
            r.count("decode_errors", e == 3)
            r.count("slave_errors", e == 2)
            if d[2] != e and not err:
                err = "write of %04x answered with response %d, expected %d" % (o[1], d[2], e)
        for (d, (t0, t1)), o in zip(rd, ro):
            i = (o[1] - BASE) >> 2 if BASE <= o[1] < BASE + 48 else None
            e = 3 if i is None else 0
            r.count("accesses")
            r.count("decode_errors", e == 3)
            if err:
                break
            if d[2] != e:
                err = "read of %04x answered with response %d, expected %d" % (o[1], d[2], e)
                continue
            if i is None:
                continue
            if i < 3:
                lo = sum(1 for _, y in wd if y[1] < t0)
                hi = sum(1 for _, y in wd if y[0] <= t1)
                r.count("overlapping", hi > lo)
                ok = hist[i][lo:hi + 1]
            else:
                l = ilog[i - 3]
                ok = [v for k, (tt, v) in enumerate(l) if tt <= t1 and (k + 1 == len(l) or l[k + 1][0] >= t0)]
                r.count("status_reads")
            if d[1] not in ok:
                err = "read of %04x returned %08x, expected one of %s" % (o[1], d[1], ["%08x" % v for v in ok])
        r.count("cycles", t)
        r.count("early_requests", sum(a.n_early for a in agents))
        r.ok((job["name"], job["seed"], c))
        r.sample("%s: %s ..." % (job["name"], [(o[0], "%04x" % o[1]) for o in ops[:8]]))
        if err:
            r.fail("dma registers", "%d accesses%s: %s" % (n, ", two masters" if job["two"] else "", err))
            if r.enough:
                break
