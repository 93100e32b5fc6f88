"""The marker stage alone: framing of any word sequence, forced ends at any cycle."""
import hw, gen, designs, streams, frames

RULE = ("A case is a sequence of words offered to the simulated marker stage under drawn stall patterns, with or without a "
        "forced end asked for at a drawn cycle and held. The words taken must be eight FFFF, the words, eight FFFF with the "
        "last flagged; with a forced end, eight FFFF, the words taken from the source so far, eight FFFE. Offered words must "
        "not change before they are taken. Distinct by contents, schedule kinds and cycle of the forced end.")
ASSUMPTIONS = ["the source keeps an offered word until it is taken; a forced end is asked for until the frame is over",
               "what is offered after the word flagged as the end is not looked at: the core resets itself then"]
REQUIRED = {"rests": 8, "frames": 2000, "forced": 800, "forced_before_start": 40, "forced_in_start_marker": 60, "forced_among_words": 150,
            "forced_too_late": 50, "receiver_stalls": 20000, "forced_while_offered": 60,
            "source_stops": 500, "nothing_offered": 250}


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "markers%d" % i, "fn": "run", "n": 600 if q else 6000} for i in range(24 if q else 32)] + \
        [{"name": "rest%d" % i, "fn": "run", "n": 50 if q else 300, "rest": True, "weight": 10} for i in range(1 if q else 8)] + \
        [{"name": "long%d" % i, "fn": "run", "n": 2, "big": 70000 if q else 300000, "weight": 20, "timeout": 800} for i in range(2 if q else 8)]


def run(r, job):
    s = hw.build(designs.simple("markers", "Markers",
                                ["valid_in", "data_in", "end_in", "i_busy", "force_end_in"],
                                ["valid_out", "data_out", "end_out", "o_busy"], full=False))
    io, pf = s.io, s.idx("p_force_end_in")
    qv = s.idx("q_valid_out")
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        n = job["big"] if "big" in job else g.choice((1, 1, 2, 3, g.randint(4, 20), g.randint(20, 60)))
        ws = [g.choice((g.getrandbits(16), 0xFFFF, 0xFFFE, 0xFF00, 0)) for _ in range(n)]
        items = [(w, 1 if i == n - 1 else 0) for i, w in enumerate(ws)]
        a, b = gen.Stall(g), gen.Stall(g)
        if job.get("rest"):
            a, b = gen.frozen(s, g, a, b)
        wait = g.choice((0, 0, 1, 3, 12))
        force = None
        if g.random() < .6:
            force = g.choice((g.randint(0, 14), g.randint(0, 14 + wait + n), g.randint(0, (wait + n + 20) * 3)))
            if g.random() < .3 and "big" not in job:       # the source stops for good before the last word
                items = items[:g.choice((0, 0, g.randint(0, n - 1)))]
                r.count("source_stops")
                r.count("nothing_offered", not items)
        st = {}

        def each(t, i):
            f = 1 if force is not None and t.cycles >= force else 0
            io[pf] = f
            if f and "at" not in st:
                st["at"] = (i, len(t.out), t.last)
        t = streams.run_stage(s, items, a, b, wait=wait, idle_limit=2500, stop_at_end=True, each=each)
        io[pf] = 0
        acc = t.accepted
        normal = [(0xFFFF, 0)] * 8 + [(w, 0) for w in ws] + [(0xFFFF, 0)] * 7 + [(0xFFFF, 1)]
        cut = [(0xFFFF, 0)] * 8 + [(w, 0) for w in ws[:acc]] + [(0xFFFE, 0)] * 7 + [(0xFFFE, 1)]
        exp = normal
        err = t.err[0] if t.err else None
        if "at" in st:
            i, o, off = st["at"]
            r.count("forced")
            r.count("forced_before_start" if o == 0 else "forced_in_start_marker" if o < 8 else "forced_among_words" if i < n else "forced_too_late")
            if off:
                r.count("forced_while_offered")
            if acc < n:
                exp = cut
            # at most the word on offer may still be taken after the request
            if not err and o >= 8 and acc > i + 1:
                err = "%d words taken after the forced end was asked for" % (acc - i)
            if not err and o < 8 and acc > 1:
                err = "%d words taken although the forced end was asked for before the first" % acc
        err = err or streams.show_diff(t.out, exp)
        r.count("frames")
        r.count("receiver_stalls", t.stall_out)
        r.count("source_stalls", t.stall_in)
        r.count("stability_checks", t.stable_checks)
        r.count("cycles", t.cycles)
        r.count("rests", getattr(b, "f", None) is not None and b.f.done)
        r.ok((frames.digest(ws), a.kind, b.kind, force))
        r.sample("%d words, forced end %s, source %s receiver %s" % (n, force, a.kind, b.kind))
        if err:
            r.fail("framing" if force is None else "forced end", "%d words, forced end at cycle %s, source %s receiver %s: %s" % (
                n, force, a.kind, b.kind, err), {"words": ws[:300]})
            if r.enough:
                break
