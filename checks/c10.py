"""The pipeline FIFO, the converter and the converter FIFO conserve bits."""
import hw, gen, designs, frames

RULE = ("A case is a sequence of variable-length words pushed into the simulated FIFO-converter-FIFO chain, each word a "
        "pipeline's latency after the chain said it had room, and removed under a drawn stall pattern. The chunks removed "
        "must join to the bits pushed, be no longer than the converter, and carry the end mark on the last only. Distinct "
        "by configuration, lengths and contents.")
ASSUMPTIONS = ["words are at least one bit long per pixel and hold no bits beyond their length",
               "at most seven words are on their way when the chain says it is full, as in the core's pipeline"]
REQUIRED = {"rests": 8, "words": 60000, "chunks": 60000, "split_words": 8000, "full_cycles": 8000, "receiver_stalls": 10000}


def configs(seed, n):
    import random
    g = random.Random("c10/%s" % seed)
    out = []
    for i in range(n):
        bd, ps = 2 + (i * 7) % 15, (1, 2, 4)[i % 3]
        total = min(31, 16 + bd) * ps
        k = i // 3 % 6
        conv = (total, max(2, -(-total // 2)), g.randint(max(2, total // 4), total), g.randint(max(2, total // 8), max(2, total // 3)),
                max(2, total // 2 - 1), g.choice((1, 2, 3, total - 1)))[k]
        steps = -(-total // conv) + 3
        out.append(designs.base_config(bit_depth=bd, pixels_per_cycle=ps, converter=conv,
                                       LJ92_fifo_depth=g.choice((25, 26, 27, 31, 32, 33, 47, 64)),
                                       converter_fifo_depth=max(steps + 4, g.choice((8, 9, 13, 16, 17, 32, 64)))))
    return out


def jobs(tier, seed):
    q = tier == "quick"
    cs = configs(seed, 100 if q else 200)
    return [{"name": "%d %s" % (i, frames.cfg_name(c)), "fn": "run", "cfg": c, "n": 40 if q else 60} for i, c in enumerate(cs)] + \
        [{"name": "rest%d" % i, "fn": "run", "cfg": c, "n": 16 if q else 60, "rest": True, "weight": 10} for i, c in enumerate(cs[:4 if q else 40])] + \
        [{"name": "long%d" % i, "fn": "run", "cfg": c, "n": 1, "big": 70000 if q else 300000, "weight": 20, "timeout": 800}
         for i, c in enumerate(cs[-2 if q else -16:])]


def run(r, job):
    cfg = job["cfg"]
    s = hw.build(designs.fifos(cfg))
    io = s.io
    ps, conv = cfg["pixels_per_cycle"], cfg["converter"]
    total = min(31, 16 + cfg["bit_depth"]) * ps
    lat = {1: 5, 2: 6, 4: 7}[ps]
    pv, pl, pend, pn = s.idx("p_vin"), s.idx("p_latch"), s.idx("p_end"), s.idx("p_n")
    qv, qn, qe, qf = s.idx("q_vout"), s.idx("q_ctr"), s.idx("q_oend"), s.idx("q_full")
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        n = job["big"] if "big" in job else g.choice((1, 2, 3, g.randint(4, 40), g.randint(40, 300), g.randint(200, 600)))
        shape = g.choice(("any", "short", "long", "edges", "mixed"))
        words = []
        for i in range(n):
            k = shape if shape != "mixed" else g.choice(("any", "short", "long", "edges"))
            ln = (g.randint(ps, total) if k == "any" else g.randint(ps, min(total, 6 * ps)) if k == "short" else
                  g.randint(max(ps, total - 6), total) if k == "long" else
                  min(total, max(ps, g.choice((conv - 1, conv, conv + 1, 2 * conv - 1, 2 * conv, 2 * conv + 1, total, 3 * conv)))))
            v = g.choice((g.getrandbits(ln), g.getrandbits(ln), (1 << ln) - 1, 0, 1 << (ln - 1)))
            words.append((v, ln, 1 if i == n - 1 else 0))
        a, b = gen.Stall(g), gen.Stall(g)
        if job.get("rest"):
            a, b = gen.frozen(s, g, a, b)
        pipe = [None] * lat
        bi, idle, t = 0, 0, 0
        got = []
        err = None
        most = 1000 + 4 * sum(-(-w[1] // conv) for w in words)
        while idle < 3000 and len(got) < most:
            w = pipe.pop(0)
            if w is not None:
                s.set("p_e", w[0])
                io[pn], io[pend] = w[1], w[2]
            else:
                s.set("p_e", g.getrandbits(total))
                io[pn], io[pend] = g.randint(0, total), g.getrandbits(1)
            io[pv] = 1 if w is not None else 0
            take = 0 if b() else 1
            io[pl] = take
            s.lib.sim_eval()
            b.fb, a.fb = io[qv], not io[qf]
            idle += 1
            if io[qf]:
                r.count("full_cycles")
            if bi < n and not io[qf] and not a():
                pipe.append(words[bi])
                bi += 1
                idle = 0
            else:
                pipe.append(None)
            if io[qv]:
                if take:
                    got.append((s.get("q_data"), io[qn], io[qe]))
                    idle = 0
                else:
                    r.count("receiver_stalls")
            s.lib.sim_tick()
            t += 1
            if bi == n and got and got[-1][2] and idle > 60:
                break
        s.cycles += t
        r.count("cycles", t)
        r.count("words", n)
        r.count("chunks", len(got))
        r.count("split_words", sum(1 for w in words if w[1] > conv))
        err = compare(words, got, conv)
        r.count("rests", getattr(b, "f", None) is not None and b.f.done)
        r.ok((frames.cfg_name(cfg), frames.digest(words)))
        r.sample("%s: %d words of %s lengths, %d chunks, source %s receiver %s" % (frames.cfg_name(cfg), n, shape, len(got), a.kind, b.kind))
        if err:
            r.fail("chain", "%s, %d %s words, source %s receiver %s: %s" % (frames.cfg_name(cfg), n, shape, a.kind, b.kind, err),
                   {"words": words[:30]})
            if r.enough:
                break


def compare(words, got, conv):
    """the chunks are the words' bits, cut anywhere"""
    exp = "".join(format(v, "0%db" % n) for v, n, _ in words)
    p = 0
    for i, (v, n, e) in enumerate(got):
        if n > conv:
            return "chunk %d of %d bits, the converter has %d" % (i, n, conv)
        if v >> n:
            return "chunk %d has bits above its length: %x of %d bits" % (i, v, n)
        if n and exp[p:p + n] != format(v, "0%db" % n):
            return "chunk %d is %s, expected %s (bit %d of %d)" % (i, format(v, "0%db" % n), exp[p:p + n], p, len(exp))
        p += n
        if e != (1 if i == len(got) - 1 else 0):
            return "end mark %d on chunk %d of %d" % (e, i, len(got))
    if p != len(exp):
        return "%d of %d bits came out" % (p, len(exp))
    return None
