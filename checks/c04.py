"""Frames do not influence each other."""
import hw, model, gen, designs, streams, frames, bus

RULE = ("A case is a sequence of frames through one simulated product that is never reset from outside, except in the "
        "reset cases: continuous feeding (the next frame's pixels are offered as soon as the last one's are taken), "
        "hundreds of frames in one life, feeding after the end word with the frame size changed in between (through ports or through the registers), "
        "and a reset at a drawn cycle inside a frame followed by further frames. The words and end flags taken must be "
        "the concatenation of what the reference gives for each frame alone. Distinct by product, mode, sizes and digest.")
ASSUMPTIONS = ["frame width is a multiple of four pixels, at least four",
               "frame size registers are changed only between the end word of one frame and the first pixel of the next"]
REQUIRED = {"frames": 900, "size_changes": 150, "resets_inside_a_frame": 80, "continuous_sequences": 60, "max_frames_without_reset": 400}
KINDS = {"beta": ("beta", None), "micro": ("micro", None), "beta_regs": ("beta", {"support_axi_lite": True})}


def jobs(tier, seed):
    q = tier == "quick"
    js = []
    for k in KINDS:
        for j in range(4 if q else 14):
            js.append({"name": "%s-cont%d" % (k, j), "fn": "cont", "k": k, "n": 16 if q else 50})
            js.append({"name": "%s-resize%d" % (k, j), "fn": "resize", "k": k, "n": 14 if q else 45})
            js.append({"name": "%s-reset%d" % (k, j), "fn": "reset", "k": k, "n": 20 if q else 70})
        js.append({"name": "%s-long" % k, "fn": "long", "k": k, "n": 1 if q else 6, "frames": 500 if q else 6000, "weight": 8,
                   "timeout": 800})
    return js


def build(job):
    p, o = KINDS[job["k"]]
    return hw.build(designs.product(p, override=o)), p, frames.PS[p]


def stalls(g):
    k = ("never", "never", "light", "half", "burst", "phase", "alternate", "after")
    return gen.Stall(g, g.choice(k)), gen.Stall(g, g.choice(k))


def dims(g):
    return (4 * g.randint(1, 10), g.randint(1, 7)) if g.random() < .8 else (4, 1)


def cont(r, job):
    s, p, ps = build(job)
    for c in r.cases():
        g = r.rng(c)
        w, h = dims(g)
        n = g.randint(2, 6)
        fs = [gen.frame(g, w, h, 12) for _ in range(n)]
        frames.setup(s, w, h)
        a, b = stalls(g)
        t = streams.run_busy(s, ps, [x for f in fs for x in streams.beats_of(f, ps)], a, b, stable=True,
                             hold=g.random() < .7, stop_after_end=n)
        exp = sum((streams.framed(f, w, h) for f in fs), [])
        d = streams.show_diff(t.out, exp)
        if d or t.err:
            r.fail("continuous", "%s, %d frames of %dx%d, source %s receiver %s: %s" % (
                job["k"], n, w, h, a.kind, b.kind, d or t.err[0]), {"frames": [f[:32] for f in fs]})
        r.count("frames", n)
        r.count("continuous_sequences")
        r.ok((job["k"], "c", w, h, frames.digest(fs)))
        r.sample("%s: %d frames of %dx%d back to back" % (job["k"], n, w, h))
        if r.enough:
            break
    r.count("cycles", s.cycles)


def put_dims(s, w, h):
    if "p_h" in s.inputs:
        s.set("p_h", h)
        s.set("p_w", w)
    else:
        frames.program(s, w, h)


def resize(r, job):
    s, p, ps = build(job)
    for c in r.cases():
        g = r.rng(c)
        w, h = dims(g)
        frames.setup(s, w, h)
        log = []
        for f in range(g.randint(3, 8)):
            if f and g.random() < .8:
                w, h = dims(g)
                r.count("size_changes")
            put_dims(s, w, h)
            px = gen.frame(g, w, h, 12)
            a, b = stalls(g)
            # stops at the end word; the next frame starts a few cycles later
            t = one_frame(s, ps, streams.beats_of(px, ps), a, b, g)
            d = streams.show_diff(t, streams.framed(px, w, h))
            r.count("frames")
            r.ok((job["k"], "s", w, h, frames.digest(px)))
            log.append((w, h))
            if d:
                r.fail("after another frame", "%s, frames %s, the last one: %s" % (job["k"], log, d), {"pixels": px[:64]})
                break
        r.sample("%s: %s" % (job["k"], log))
        if r.enough:
            break
    r.count("cycles", s.cycles)


def long(r, job):
    """one life of hundreds or thousands of frames, cut ones and long rests among them"""
    s, p, ps = build(job)
    for c in r.cases():
        g = r.rng(c)
        frames.setup(s, 4, 1)
        can_cut = "p_ac" in s.inputs
        before = [0, 0, 0]
        for f in range(job["frames"]):
            w, h = (4 * g.randint(1, 4), g.randint(1, 3)) if g.random() < .9 else dims(g)
            if f % 7 == 0 or "p_h" in s.inputs:
                put_dims(s, w, h)
                now = w, h
            w, h = now
            px = gen.frame(g, w, h, 12)
            a, b = stalls(g) if g.random() < .2 else (gen.Stall(g, "never"), gen.Stall(g, "never"))
            if g.random() < .02:
                s.run(1 << g.randint(4, 17))       # nothing comes for a while
                before[2] += 1
            cut = can_cut and g.random() < .1
            if can_cut:
                s.set("p_ac", g.randint(1, 30) if cut else 0xFFFFFF)
            t = one_frame(s, ps, streams.beats_of(px, ps), a, b, g)
            before[cut] += 1
            r.count("frames")
            if cut:
                continue
            d = streams.show_diff(t, streams.framed(px, w, h))
            r.ok((job["k"], "l", w, h, frames.digest(px)))
            if d:
                r.fail("in a long sequence", "%s, %dx%d frame after %d frames, %d cut ones and %d rests: %s" % (
                    job["k"], w, h, before[0] - 1, before[1], before[2], d), {"pixels": px[:64]})
                break
        r.count("max_frames_without_reset", sum(before[:2]))
        r.count("rests", before[2])
        if r.enough:
            break
    r.count("cycles", s.cycles)


def one_frame(s, ps, beats, si, so, g, cut=None, limit=60000):
    """returns the words taken up to and including the end word (or up to the
    given cycle)"""
    io = s.io
    pv, pb = s.idx("p_vin"), s.idx("p_busy")
    pp = [s.idx("p_p%d" % i) for i in range(ps)]
    qv, qd, qe, qn = (s.idx("q_" + n) for n in ("vout", "data", "end", "nready"))
    out, bi, n = [], 0, len(beats)
    idle = g.choice((0, 0, 1, 2, 7, 8, 9, 30))
    for t in range(limit):
        if cut is not None and t >= cut:
            break
        vin = 1 if t >= idle and bi < n and not si() else 0
        for i in range(ps):
            io[pp[i]] = beats[bi][i] if vin else g.getrandbits(12)
        io[pv] = vin
        busy = so()
        io[pb] = busy
        s.eval()
        if vin and not io[qn]:
            bi += 1
        done = False
        if io[qv] and not busy:
            out.append((io[qd], io[qe]))
            done = io[qe]
        s.tick()
        if done:
            break
    io[pv] = 0
    return out


def reset(r, job):
    s, p, ps = build(job)
    for c in r.cases():
        g = r.rng(c)
        w, h = dims(g)
        frames.setup(s, w, h)
        for k in range(g.randint(1, 3)):
            px = gen.frame(g, w, h, 12)
            a, b = stalls(g)
            one_frame(s, ps, streams.beats_of(px, ps), a, b, g, cut=g.randint(1, 60 + 3 * w * h))
            r.count("resets_inside_a_frame")
            s.set("full_rst", 1)
            for _ in range(g.randint(1, 4)):
                for i in range(ps):
                    s.io[s.idx("p_p%d" % i)] = g.getrandbits(12)
                s.io[s.idx("p_vin")] = g.getrandbits(1)
                s.io[s.idx("p_busy")] = g.getrandbits(1)
                s.eval()
                s.tick()
            s.set("full_rst", 0)
            s.io[s.idx("p_vin")] = 0
            w, h = dims(g)
            put_dims(s, w, h)
            for m in range(2):
                px = gen.frame(g, w, h, 12)
                a, b = stalls(g)
                t = one_frame(s, ps, streams.beats_of(px, ps), a, b, g)
                d = streams.show_diff(t, streams.framed(px, w, h))
                r.count("frames")
                r.ok((job["k"], "r", w, h, frames.digest(px)))
                if d:
                    r.fail("after a reset", "%s, frame %d of %dx%d after a reset: %s" % (job["k"], m, w, h, d),
                           {"pixels": px[:64]})
                    break
        if r.enough:
            break
    r.count("cycles", s.cycles)
