"""The framed, stuffed stream of the products, word for word."""
import hw, model, gen, designs, streams, frames

RULE = ("A case is one frame sent through a simulated product (beta or micro, built from the repository's source) under "
        "drawn stalls; every word taken and its end flag is compared with the framed, stuffed stream of the reference "
        "encoder, and the output is watched for further words afterwards. Contents favour codes full of ones so that "
        "0xFF bytes fall on both halves of words and at the end. Non-trivial: a frame with at least one scan word; "
        "distinct by product, size and frame digest.")
ASSUMPTIONS = ["frame width is a multiple of four pixels, at least four"]
REQUIRED = {"frames": 400, "frames_with_stuffing": 100, "stuffed_bytes": 1000, "padded_after_stuffing": 20,
            "frames_of_one_word": 4, "last_byte_is_ff": 3}


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "%s%d" % (p, j), "fn": "prod", "p": p, "n": 130 if q else 500}
            for p in ("beta", "micro") for j in range(12 if q else 24)]


def tiny(g):
    """4x1 frames, some of exactly one word, some that end in a 0xFF byte"""
    k = g.random()
    if k < .3:
        return [2048 + g.choice((0, 0, 1, -1)) for _ in range(4)]      # four short codes
    if k < .6:
        return [g.choice((0, 4095, 4094, 2047, 2048, 2049)) for _ in range(4)]
    return [g.getrandbits(12) for _ in range(4)]


def ends_ff(g):
    """a frame whose last scan byte is 0xFF"""
    for _ in range(400):
        w, h = 4 * g.randint(1, 3), g.randint(1, 3)
        px = gen.frame(g, w, h, 12, g.choice(("ff", "extreme", "random")))
        raw = model.to_bytes(model.join(model.encode_codes(px, w, h, 12)), 2)
        if raw[-1] == 0xFF:
            return w, h, px
    return w, h, px


def prod(r, job):
    p = job["p"]
    ps = frames.PS[p]
    s = hw.build(designs.product(p))
    for c in r.cases():
        g = r.rng(c)
        if c % 10 == 0:
            w, h = 4, 1
            px = tiny(g)
        elif c % 20 == 1:
            w, h, px = ends_ff(g)
        else:
            w, h = frames.dims(g, big=job["tier"] != "quick")
            px = gen.frame(g, w, h, 12, g.choice((None, None, "ff", "extreme", "random")))
        frames.setup(s, w, h)
        k = gen.Stall.KINDS
        t = streams.run_busy(s, ps, streams.beats_of(px, ps), gen.Stall(g, g.choice(k)), gen.Stall(g, g.choice(k)),
                             stable=True, hold=g.random() < .5, stop_after_end=1)
        exp = streams.framed(px, w, h)
        d = streams.show_diff(t.out, exp)
        tag = "%s %dx%d" % (p, w, h)
        if d:
            r.fail("stream", "%s: %s" % (tag, d), {"pixels": px[:64]})
        for e in t.err[:1]:
            r.fail("unstable", "%s: %s" % (tag, e), {"pixels": px[:64]})
        raw = model.to_bytes(model.join(model.encode_codes(px, w, h, 12)), 2)
        ff = raw.count(b"\xff")
        r.count("frames")
        r.count("words", len(t.out))
        r.count("stuffed_bytes", ff)
        r.count("frames_with_stuffing", 1 if ff else 0)
        r.count("padded_after_stuffing", ff & 1)
        r.count("frames_of_one_word", 1 if len(exp) == 17 else 0)
        r.count("last_byte_is_ff", 1 if raw[-1] == 0xFF else 0)
        r.ok((p, w, h, frames.digest(px)))
        r.sample("%s: %d scan words, %d stuffed" % (tag, len(exp) - 16, ff))
        if r.enough:
            break
    r.count("cycles", s.cycles)
