"""AXI-Stream wrappers."""
import hw, model, gen, designs, streams, frames

RULE = ("A case is a sequence of frames through one simulated AXI-Stream, FIFO or LVDS wrapper, fed without regard to "
        "frame boundaries, under drawn valid and ready patterns including a receiver that is ready only after it has seen "
        "valid. Each cycle a monitor checks that an offered beat is held; the beats taken, with tlast, are compared with "
        "the reference stream of each frame (for the LVDS wrapper, whose words straddle frames, bit for bit). Distinct by "
        "wrapper, size, digest and observed stall counts.")
ASSUMPTIONS = ["frame width is a multiple of four pixels, at least four", "integration_3_axi_stream encodes one frame per reset"]
REQUIRED = {"rests": 20, "frames": 700, "beats_in": 5000, "beats_out": 20000, "refused_out": 5000, "stability_checks": 5000,
            "ready_after_valid": 40, "max_frames_without_reset": 70, "cut_frames": 60}
W = ("beta_axis", "micro_axis", "beta_fifo", "beta_lvds", "int3_axis")


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "%s%d" % (p, j), "fn": "axis", "p": p, "n": 80 if q else 250}
            for p in W for j in range(6 if q else 16)] + \
        [{"name": "%s-rest%d" % (p, i), "fn": "axis", "p": p, "n": 16 if q else 80, "rest": True, "weight": 10} for p in W for i in range(1 if q else 4)] + \
        [{"name": p + "-long", "fn": "axis", "p": p, "n": 2 if q else 8, "long": True, "weight": 20, "timeout": 800} for p in W]


class AfterValid:
    """ready only in a cycle after one in which valid was seen"""
    kind = "after valid"

    def __init__(self, s, g):
        self.s, self.q, self.g = s, s.idx("q_m_tvalid"), g
        self.d = g.choice((0, 0, .5))

    def __call__(self):
        return 0 if self.s.io[self.q] and self.g.random() >= self.d else 1


def expected(p, px, w, h):
    if p == "int3_axis":
        e = [(x, 0) for x in model.encode_words(px, w, h, 12, 32)]
        return e[:-1] + [(e[-1][0], 1)]
    return streams.framed(px, w, h)


def axis(r, job):
    p = job["p"]
    s = hw.build(designs.product(p))
    for c in r.cases():
        g = r.rng(c)
        w, h = (4 * g.randint(1, 10), g.randint(1, 6))
        n = 1 if p == "int3_axis" else g.randint(1, 4)
        if "long" in job:       # many frames, or a large one
            if n > 1 and c % 2 == 0:
                n = g.randint(80, 120)
            else:
                w, h, n = 4 * g.randint(70, 100), g.randint(250, 300), 1
        r.count("max_frames_without_reset", n)
        frames.setup(s, w, h)
        cut = p in ("beta_axis", "micro_axis") and c % 5 == 4
        fs = [gen.frame(g, w, h, 12) for _ in range(n)]
        beats = [b for f in fs for b in frames.axis_beats(p, f, g)]
        ks = gen.Stall.KINDS
        si = gen.Stall(g, g.choice(ks))
        so = gen.Stall(g, g.choice(ks))
        if g.random() < .2 and "rest" not in job:
            so = AfterValid(s, g)
            r.count("ready_after_valid")
        cut = cut and "rest" not in job
        if "rest" in job:
            si, so = gen.frozen(s, g, si, so)
        tag = "%s, %d frames of %dx%d, source %s receiver %s" % (p, n, w, h, si.kind, so.kind)
        if cut:
            # tlast must also close a frame that is cut off
            ac = g.randint(0, 60)
            frames.setup(s, w, h, ac)
            beats = frames.axis_beats(p, fs[0], g)
            k = g.randint(1, max(1, len(beats) - 1))
            t = streams.run_axis(s, beats[:k], si, so, idle_limit=1500)
            # beats after the cut start another frame, which is cut off too
            segs, cur = [], []
            for o in t.out:
                cur.append(o)
                if o[1]:
                    segs.append(cur)
                    cur = []
            tail = [(0xFFFE, 0)] * 7 + [(0xFFFE, 1)]
            bad = [x for x in segs if len(x) < 16 or x[:8] != [(0xFFFF, 0)] * 8 or x[-8:] != tail]
            if k < len(beats) and (not segs or cur or bad):
                r.fail("cut frame", "%s, budget %d: frame with %d of %d beats ends with %s" % (
                    tag, ac, k, len(beats), (bad[0] if bad else t.out)[-9:]))
            r.count("cut_frames")
        else:
            t = streams.run_axis(s, beats, si, so, stop_after_end=n, idle_limit=1500)
            exp = sum((expected(p, f, w, h) for f in fs), [])
            if p == "beta_lvds":
                bits = "".join("{:016b}".format(x) for x, _ in exp)
                got = "".join("{:040b}".format(x) for x, _ in t.out)
                if got != bits[:len(got)] or len(bits) - len(got) >= 40:
                    i = next((i for i in range(len(got)) if got[i:i + 1] != bits[i:i + 1]), len(got))
                    r.fail("stream", "%s: %d bits out, %d expected (less than a word may remain), first difference at %d" % (
                        tag, len(got), len(bits), i), {"frames": [f[:32] for f in fs]})
            else:
                d = streams.show_diff(t.out, exp)
                if d:
                    r.fail("stream", "%s: %s" % (tag, d), {"frames": [f[:32] for f in fs]})
            if t.accepted != len(beats):
                r.fail("input", "%s: %d of %d beats taken" % (tag, t.accepted, len(beats)))
        for e in t.err[:1]:
            r.fail("unstable", "%s: %s" % (tag, e))
        r.count("rests", getattr(so, "f", None) is not None and so.f.done)
        r.count("frames", n)
        r.count("beats_in", t.accepted)
        r.count("beats_out", len(t.out))
        r.count("refused_out", t.stall_out)
        r.count("stability_checks", t.stable_checks)
        r.ok((p, w, h, frames.digest(fs), t.stall_in, t.stall_out))
        r.sample("%s: %d beats in, %d out" % (tag, t.accepted, len(t.out)))
        if r.enough:
            break
    r.count("cycles", s.cycles)
