"""Byte stuffing over any sequence of words and any handshake schedule."""
import hw, gen, model, designs, streams, frames

RULE = ("A case is a sequence of 16-bit words sent through the two simulated stuffing stages under drawn stall patterns on "
        "both sides. The words taken must be the bytes with a zero after every 0xFF, repacked without gaps, the last and "
        "only the last flagged; offered words must not change before they are taken. Distinct by contents and schedule.")
ASSUMPTIONS = ["the source keeps an offered word until it is taken",
               "what the stages offer after the last word and before the reset is not looked at: the next stage takes nothing then"]
REQUIRED = {"rests": 8, "words_in": 60000, "ff_bytes": 40000, "receiver_stalls": 20000, "odd_lengths": 100, "even_lengths": 100, "word_kinds": 9 * 8}


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "stuff%d" % i, "fn": "run", "n": 1000 if q else 3000} for i in range(24 if q else 32)] + \
        [{"name": "rest%d" % i, "fn": "run", "n": 50 if q else 300, "rest": True, "weight": 10} for i in range(1 if q else 8)] + \
        [{"name": "long%d" % i, "fn": "run", "n": 1, "big": 70000 + i if q else 300000 + i, "weight": 20, "timeout": 800} for i in range(2 if q else 8)]


def word(g, k):
    b = lambda: g.choice((g.getrandbits(8), 0, 0xFE, 0x7F, 1, 0x80))
    return {"none": b() << 8 | b(), "hi": 0xFF00 | b(), "lo": b() << 8 | 0xFF, "both": 0xFFFF, "rand": g.getrandbits(16)}[k]


def run(r, job):
    s = hw.build(designs.stuffer())
    seen = set()
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        n = job["big"] if "big" in job else g.choice((1, 1, 2, 2, 3, 4, g.randint(5, 20), g.randint(20, 200)))
        w = [g.choice((1, 1, 3, 8)) for _ in range(5)]
        kinds = g.choices(("none", "hi", "lo", "both", "rand"), w, k=n)
        ws = [word(g, k) for k in kinds]
        a, b = gen.Stall(g), gen.Stall(g)
        if job.get("rest"):
            a, b = gen.frozen(s, g, a, b)
        t = streams.run_stage(s, [(x, 1 if i == n - 1 else 0) for i, x in enumerate(ws)], a, b,
                              wait=g.choice((0, 0, 1, 2, 5)), idle_limit=2500, stop_at_end=True)
        data = model.stuff(b"".join(x.to_bytes(2, "big") for x in ws))
        r.count("odd_lengths" if len(data) & 1 else "even_lengths")
        if len(data) & 1:
            data += b"\0"
        ex = model.words(data, 2)
        exp = [(x, 1 if i == len(ex) - 1 else 0) for i, x in enumerate(ex)]
        err = (t.err[0] if t.err else None) or streams.show_diff(t.out, exp)
        r.count("words_in", n)
        r.count("ff_bytes", len(data) - 2 * n)
        r.count("receiver_stalls", t.stall_out)
        r.count("source_stalls", t.stall_in)
        r.count("stability_checks", t.stable_checks)
        r.count("cycles", t.cycles)
        seen.update(zip(((x >> 8 == 255) * 2 + (x & 255 == 255) for x in ws), ((x >> 8 == 255) * 2 + (x & 255 == 255) for x in ws[1:])))
        r.count("rests", getattr(b, "f", None) is not None and b.f.done)
        r.ok((frames.digest(ws), a.kind, b.kind))
        r.sample("%d words %s, source %s receiver %s" % (n, " ".join("%04x" % x for x in ws[:8]), a.kind, b.kind))
        if err:
            r.fail("stuffing", "%d words [%s...], source %s receiver %s: %s" % (
                n, " ".join("%04x" % x for x in ws[:12]), a.kind, b.kind, err), {"words": ws[:300]})
            if r.enough:
                break
    r.count("word_kinds", len(seen))
