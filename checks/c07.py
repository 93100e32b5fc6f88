"""Predictor inputs and frame boundaries."""
import hw, model, gen, designs, frames

RULE = ("A case is one frame fed with drawn gaps to the simulated predictor and boundary stages (alone, and inside the "
        "encoding pipeline), at drawn size, bit depth and pixel rate. For every pixel taken the prediction must be the "
        "model's, in order, and the end mark must be on the last group of pixels and on no other; in the pipeline the "
        "codes of each group, from which the prediction follows, are compared as well. Extreme sizes (65535 rows, 65532 "
        "columns) are among the cases. Distinct by rate, bit depth, size and frame digest.")
ASSUMPTIONS = ["frame width is a multiple of four pixels, at least four", "the stages see at least two cycles between reset and the first pixel, as in the core"]
REQUIRED = {"pixels": 300000, "frames": 1500, "gaps": 20000, "rows": 5000, "one_group_frames": 5, "huge_frames": 6}


def jobs(tier, seed):
    q = tier == "quick"
    js = []
    for i in range(45 if q else 135):
        bd, ps = 2 + i % 15, (1, 2, 4)[(i // 15) % 3]
        js.append({"name": "pred%d" % i, "fn": "pred", "bd": bd, "ps": ps, "n": 130 if q else 400})
        js.append({"name": "pipe%d" % i, "fn": "pipe", "bd": bd, "ps": ps, "n": 60 if q else 200})
    for ps in (1, 2, 4):
        js.append({"name": "huge%d" % ps, "fn": "huge", "bd": 12, "ps": ps, "n": 2 if q else 6, "weight": 5})
    return js


def run(r, s, g, px, w, h, bd, ps, gap, tag, oneframe=True):
    io = s.io
    s.reset()
    s.set("p_h", h)
    s.set("p_w", w)
    pv = s.idx("p_vin")
    pp = [s.idx("p_p%d" % i) for i in range(ps)]
    qp = [s.idx("q_p%d" % i) for i in range(ps)]
    qq = [s.idx("q_q%d" % i) for i in range(ps)]
    qv, qe = s.idx("q_vout"), s.idx("q_oend")
    io[pv] = 0
    for _ in range(g.randint(2, 6)):
        s.eval()
        s.tick()
    want = model.predictions(px, w, h, bd)
    n = len(px) // ps
    bi = got = 0
    tail = 0
    while tail < 12:
        vin = 1 if bi < n and not gap() else 0
        io[pv] = vin
        for i in range(ps):
            io[pp[i]] = px[bi * ps + i] if vin else g.getrandbits(bd)
        s.lib.sim_eval()
        if io[qv]:
            b = [io[x] for x in qp], [io[x] for x in qq], io[qe]
            if got >= n:
                return r.fail("extra", "%s: a group of pixels after the last one" % tag)
            e = px[got * ps:got * ps + ps], want[got * ps:got * ps + ps], int(got == n - 1)
            if b != e:
                return r.fail("end mark" if b[:2] == e[:2] else "prediction",
                              "%s: group %d of %d: pixels %s predicted %s end %d, expected %s %s %d" % (
                    (tag, got, n) + b + e), {"pixels": px[:64]})
            got += 1
        s.lib.sim_tick()
        s.cycles += 1
        bi += vin
        r.count("gaps", 1 - vin)
        if bi >= n:
            tail += 1
    if got != n:
        r.fail("lost", "%s: %d of %d groups came out" % (tag, got, n))
    r.count("pixels", len(px))
    r.count("rows", h)
    r.count("frames")
    if n == 1:
        r.count("one_group_frames")


def pred(r, job):
    bd, ps = job["bd"], job["ps"]
    s = hw.build(designs.predict(bd, ps))
    for c in r.cases():
        g = r.rng(c)
        w, h = (4 * g.randint(1, 30), g.randint(1, 12)) if g.random() < .8 else (4, g.randint(1, 3))
        px = gen.frame(g, w, h, bd, "random" if g.random() < .6 else None)
        run(r, s, g, px, w, h, bd, ps, gen.Stall(g, g.choice(("never", "light", "half", "burst", "alternate", "phase"))),
            "%d-bit, %d per cycle, %dx%d" % (bd, ps, w, h))
        r.ok((bd, ps, w, h, frames.digest(px)), len(px) > 4)
        r.sample("bd%d ps%d %dx%d" % (bd, ps, w, h))
        if r.enough:
            break
    r.count("cycles", s.cycles)


def huge(r, job):
    bd, ps = job["bd"], job["ps"]
    s = hw.build(designs.predict(bd, ps))
    for c in r.cases():
        g = r.rng(c)
        w, h = [(4, 65535), (65532, 3), (4, 32768), (32768, 4), (65532, 1), (8, 40000)][c]
        px = [g.getrandbits(bd) for _ in range(w * h)]
        run(r, s, g, px, w, h, bd, ps, gen.Stall(g, "light" if c & 1 else "never"), "%d-bit, %d per cycle, %dx%d" % (bd, ps, w, h))
        r.count("huge_frames")
        r.ok((bd, ps, w, h, frames.digest(px)))
    r.count("cycles", s.cycles)


def pipe(r, job):
    """the stages inside integration_1"""
    bd, ps = job["bd"], job["ps"]
    s = hw.build(designs.int1(designs.base_config(bit_depth=bd, pixels_per_cycle=ps)))
    io = s.io
    pp = [s.idx("p_p%d" % i) for i in range(ps)]
    pv, qv, qc, qe = s.idx("p_vin"), s.idx("q_vout"), s.idx("q_ctr"), s.idx("q_end")
    for c in r.cases():
        g = r.rng(c)
        w, h = (4 * g.randint(1, 20), g.randint(1, 10))
        px = gen.frame(g, w, h, bd)
        gap = gen.Stall(g, g.choice(("never", "light", "half", "burst", "phase")))
        s.reset()
        s.set("p_h", h)
        s.set("p_w", w)
        s.set("p_ac", 0xFFFFFF)
        io[pv] = 0
        for _ in range(8):
            s.eval()
            s.tick()
        codes = model.encode_codes(px, w, h, bd)
        n = len(px) // ps
        bi = got = tail = 0
        tag = "pipeline, %d-bit, %d per cycle, %dx%d" % (bd, ps, w, h)
        while tail < 16:
            vin = 1 if bi < n and not gap() else 0
            io[pv] = vin
            for i in range(ps):
                io[pp[i]] = px[bi * ps + i] if vin else g.getrandbits(bd)
            s.lib.sim_eval()
            if io[qv]:
                if got >= n:
                    r.fail("extra", "%s: a code after the last one" % tag)
                    break
                e = model.join(codes[got * ps:got * ps + ps]) + (int(got == n - 1),)
                b = (s.get("q_data"), io[qc], io[qe])
                if b != e:
                    r.fail("code", "%s: group %d of %d: code %x of %d bits, end %d; expected %x, %d, %d" % ((tag, got, n) + b + e),
                           {"pixels": px[:64]})
                    break
                got += 1
            s.lib.sim_tick()
            s.cycles += 1
            bi += vin
            r.count("gaps", 1 - vin)
            if bi >= n:
                tail += 1
        else:
            if got != n:
                r.fail("lost", "%s: %d of %d groups came out" % (tag, got, n))
        r.count("frames")
        r.count("pixels", len(px))
        r.ok(("pipe", bd, ps, w, h, frames.digest(px)), len(px) > 4)
        if r.enough:
            break
    r.count("cycles", s.cycles)
