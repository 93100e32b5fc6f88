"""The schedule of pauses on both sides never changes what comes out, never
makes an offered word change, and never stops the flow."""
import hw, model, gen, designs, streams, frames

RULE = ("A case is one frame sent twice or more through the same simulated core: once without pauses, then under "
        "drawn pause patterns on the source and the receiver (per-cycle random, bursts, alternation, long waits, one "
        "in k, changing rates; source that holds or withdraws a refused beat). The word sequence and end flags must be "
        "identical to the run without pauses and to the reference encoder; a word offered and refused must be offered "
        "unchanged until it is taken; without pauses the run must end within the cycles the slowest stage needs, and "
        "with pauses something must move within 3000 cycles. Non-trivial: both sides were actually held back or the "
        "run differed in length; distinct by configuration, frame and observed stall counts.")
ASSUMPTIONS = ["frame width is a multiple of four pixels, at least four"]
REQUIRED = {"rests": 40, "schedules": 500, "refused_beats": 2000, "refused_words": 2000, "stability_checks": 2000}


def jobs(tier, seed):
    q = tier == "quick"
    js = [{"name": "core%d" % i, "fn": "core", "i": i, "n": 14 if q else 40} for i in range(96 if q else 360)]
    for i in range(5 if q else 40):
        js.append({"name": "core-rest%d" % i, "fn": "core", "i": 3 * i + seed, "n": 6 if q else 20, "rest": True, "weight": 10})
    for p in ("beta", "micro"):
        js.append({"name": p + "-rest", "fn": "prod", "p": p, "n": 8 if q else 40, "rest": True, "weight": 10})
        for j in range(6 if q else 20):
            js.append({"name": "%s%d" % (p, j), "fn": "prod", "p": p, "n": 24 if q else 60, "weight": 2})
    return js


def sides(s, g, a, b, job):
    x, y = gen.Stall(g, a), gen.Stall(g, b)
    return gen.frozen(s, g, x, y) if job.get("rest") and (a, b) != ("never", "never") else (x, y)


def one(r, tag, run, exp, px, bound, g, many):
    base = run("never", "never", True)
    for e in base.err[:1]:
        r.fail("unstable", "%s without pauses: %s" % (tag, e))
    d = streams.show_diff(base.out, exp)
    if d:
        r.fail("wrong words", "%s without pauses: %s" % (tag, d), {"pixels": px[:64]})
    if base.cycles > bound:
        r.fail("slow", "%s without pauses: %d cycles, the slowest stage needs less than %d" % (tag, base.cycles, bound))
    r.ok(None)
    for k in range(many):
        a, b = g.choice(gen.Stall.KINDS), g.choice(gen.Stall.KINDS)
        hold = g.random() < .6
        t = run(a, b, hold)
        r.count("schedules")
        r.count("refused_beats", t.stall_in)
        r.count("refused_words", t.stall_out)
        r.count("stability_checks", t.stable_checks)
        for e in t.err[:1]:
            r.fail("unstable", "%s, source %s, receiver %s: %s" % (tag, a, b, e))
        if t.out != base.out:
            d = streams.show_diff(t.out, base.out)
            r.fail("schedule dependent" if len(t.out) >= len(base.out) else "stuck",
                   "%s, source %s%s, receiver %s (%d cycles): %s" % (tag, a, " holding" if hold else "", b, t.cycles, d),
                   {"pixels": px[:64]})
        r.ok((tag, frames.digest(px), t.stall_in, t.stall_out, t.cycles), t.stall_in + t.stall_out > 0)


def core(r, job):
    cfg = frames.pick_config(r.rng("cfg"), job["i"])
    bd, ps, ob = cfg["bit_depth"], cfg["pixels_per_cycle"], cfg["out_bits"]
    s = hw.build(designs.int3(cfg))
    for c in r.cases():
        g = r.rng(c)
        w, h = frames.dims(g)
        px = gen.frame(g, w, h, bd)
        beats = streams.beats_of(px, ps)

        def run(a, b, hold):
            si, so = sides(s, g, a, b, job)
            frames.setup(s, w, h)
            # a receiver that waits for a valid word before it is ready is among the kinds
            t = streams.run_busy(s, ps, beats, si, so, stable=True, hold=hold, stop_after_end=1)
            r.count("rests", getattr(so, "f", None) is not None and so.f.done)
            return t
        exp = [(x, 0) for x in model.encode_words(px, w, h, bd, ob)]
        exp[-1] = (exp[-1][0], 1)
        nb, nc, nw = frames.size_of_run(px, w, h, bd, ps, cfg["converter"], ob)
        tag = "%s, %dx%d" % (frames.cfg_name(cfg), w, h)
        one(r, tag, run, exp, px, 200 + 3 * (nb + nc + nw), g, 5)
        r.sample("%s: %d beats, %d words" % (tag, len(beats), len(exp)))
        if r.enough:
            break
    r.count("cycles", s.cycles)


def prod(r, job):
    p = job["p"]
    ps = frames.PS[p]
    s = hw.build(designs.product(p))
    for c in r.cases():
        g = r.rng(c)
        w, h = frames.dims(g)
        px = gen.frame(g, w, h, 12)
        beats = streams.beats_of(px, ps)

        def run(a, b, hold):
            si, so = sides(s, g, a, b, job)
            frames.setup(s, w, h)
            t = streams.run_busy(s, ps, beats, si, so, stable=True, hold=hold, stop_after_end=1)
            r.count("rests", getattr(so, "f", None) is not None and so.f.done)
            return t
        exp = streams.framed(px, w, h)
        one(r, "%s %dx%d" % (p, w, h), run, exp, px, 300 + 4 * (len(beats) + len(exp)), g, 6)
        r.sample("%s: %dx%d, %d words" % (p, w, h, len(exp)))
        if r.enough:
            break
    r.count("cycles", s.cycles)
