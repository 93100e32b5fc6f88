"""The width adapters."""
import hw, gen, designs, streams, frames

RULE = ("A case is a sequence of words sent through one simulated width adapter under drawn stall patterns, starting 0 to 9 "
        "cycles after reset. The words taken must join to the bits of the words accepted, in order (the 24-bit adapter: the "
        "upper 48 bits of each 64-bit word as two words), with less than one output word left inside, and every complete output word must come "
        "out; offered words must not change before they are taken. Distinct by adapter, contents and schedule.")
ASSUMPTIONS = ["the source keeps an offered word until it is taken"]
A = {"b16_b40": ("B16B40", 16, 40, True), "b16_b64": ("B16B64", 16, 64, False), "b64_b32": ("B64B32", 64, 32, False),
     "b64_b32_2": ("B64B32_2", 64, 24, True)}
REQUIRED = {"rests": 30, "words_in": 20000, "words_out": 20000, "receiver_stalls": 20000, "source_stalls": 10000}


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "%s-%d" % (k, i), "fn": "run", "k": k, "n": 400 if q else 3000} for k in A for i in range(5 if q else 8)] + \
        [{"name": "%s-rest%d" % (k, i), "fn": "run", "k": k, "n": 30 if q else 200, "rest": True, "weight": 10} for k in A for i in range(1 if q else 4)] + \
        [{"name": "%s-long%d" % (k, i), "fn": "run", "k": k, "n": 1, "big": 70001 + i if q else 300001 + i, "weight": 20, "timeout": 800}
         for k in A for i in range(1 if q else 4)]


def run(r, job):
    k = job["k"]
    cls, iw, ow, full = A[k]
    s = hw.build(designs.simple(k, cls, ["valid_in", "data_in", "i_busy"] + ["end_in"] * (k == "b16_b64"), ["valid_out", "data_out", "o_busy"], full=full))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        n = job["big"] if "big" in job else g.choice((1, 2, 3, 4, 5, 6, g.randint(7, 30), g.randint(30, 150)))
        ws = [g.choice((g.getrandbits(iw), g.getrandbits(iw), (1 << iw) - 1, 0, 1 << g.randrange(iw))) for _ in range(n)]
        a, b = gen.Stall(g), gen.Stall(g)
        if job.get("rest"):
            a, b = gen.frozen(s, g, a, b)
        # an end mark changes nothing in what happens to the words
        p = g.choice((0, .02, .3))
        ends = [int(g.random() < p) for _ in ws]
        ends[-1] = g.getrandbits(1)
        t = streams.run_stage(s, list(zip(ws, ends)), a, b, wait=g.choice((0, 0, 1, 2, 3, 9)), idle_limit=1500, width=iw)
        if k == "b64_b32_2":
            exp = [x for w in ws for x in (w >> 40, w >> 16 & 0xFFFFFF)]
        else:
            bits = "".join(format(w, "0%db" % iw) for w in ws)
            exp = [int(bits[i:i + ow], 2) for i in range(0, len(bits) - ow + 1, ow)]
        err = t.err[0] if t.err else None
        if not err and t.accepted != n:
            err = "%d of %d words were taken" % (t.accepted, n)
        err = err or streams.show_diff(t.out, [(x, 0) for x in exp])
        r.count("words_in", n)
        r.count("words_out", len(t.out))
        r.count("receiver_stalls", t.stall_out)
        r.count("source_stalls", t.stall_in)
        r.count("stability_checks", t.stable_checks)
        r.count("cycles", t.cycles)
        r.count("rests", getattr(b, "f", None) is not None and b.f.done)
        r.ok((k, frames.digest(ws), a.kind, b.kind))
        r.sample("%s: %d words, source %s receiver %s" % (k, n, a.kind, b.kind))
        if err:
            r.fail("%s" % k, "%s: %d words, source %s receiver %s: %s" % (k, n, a.kind, b.kind, err), {"words": ws[:300]})
            if r.enough:
                break
