"""Lossless: an independent decoder gets every pixel back from the words put
out, at every configuration of the core and for both products."""
import hw, model, gen, designs, streams, frames

RULE = ("A case is one frame compressed by a freshly simulated core built from the repository's source: "
        "the configuration (bit depth 2-16, 1/2/4 pixels per cycle, output width, converter width, buffer and FIFO "
        "sizes), the frame size, contents and the pauses of both sides are drawn from the seed. An independent "
        "bit-serial decoder must return the same pixels, consume every bit but the padding, and find the padding "
        "zero and shorter than one word. Non-trivial: more than one sample decoded; distinct by configuration and "
        "frame digest.")
ASSUMPTIONS = ["frame width is a multiple of four pixels, at least four", "the C simulation of the Yosys netlist is faithful"]
REQUIRED = {"samples_decoded": 20000, "frames": 300, "difference_classes": 17, "large_frames": 4}


def jobs(tier, seed):
    n = 96 if tier == "quick" else 420
    k = 60 if tier == "quick" else 110
    js = [{"name": "core%d" % i, "fn": "core", "i": i, "n": k} for i in range(n)]
    # more than 2^16 pixels, words and rows of more than 2^10 groups
    for i in range(3 if tier == "quick" else 30):
        js.append({"name": "large%d" % i, "fn": "core", "i": 1000 + 11 * i, "n": 2 if tier == "quick" else 4, "large": True, "weight": 20,
                   "timeout": 800})
    for p in ("beta", "micro"):
        for j in range(4 if tier == "quick" else 12):
            js.append({"name": "%s%d" % (p, j), "fn": "prod", "p": p, "n": 90 if tier == "quick" else 250, "weight": 2})
    js.append({"name": "classes", "fn": "classes", "n": 1})
    return js


def check(r, t, px, w, h, bd, ob, data, tag):
    r.count("frames")
    r.count("words", len(t.out))
    try:
        got, used = model.decode_scan(data, w, h, bd)
    except ValueError as e:
        return r.fail("decode", "%s: %dx%d frame of %d-bit pixels does not decode: %s" % (tag, w, h, bd, e),
                      {"pixels": px[:64], "bytes": data[:64].hex()})
    r.count("samples_decoded", len(got))
    if got != px:
        i = [a == b for a, b in zip(got, px)].index(False)
        return r.fail("decode", "%s: %dx%d frame, sample %d decodes to %d, was %d" % (tag, w, h, i, got[i], px[i]),
                      {"pixels": px[:64], "bytes": data[:64].hex()})
    left = 8 * len(data) - used
    if left >= ob or (left and int.from_bytes(data, "big") & ((1 << left) - 1)):
        return r.fail("padding", "%s: %dx%d frame: %d bits after the last code, not zero padding of the last word" % (
            tag, w, h, left))
    return True


def core(r, job):
    cfg = frames.pick_config(r.rng("cfg"), job["i"])
    bd, ps, ob = cfg["bit_depth"], cfg["pixels_per_cycle"], cfg["out_bits"]
    s = hw.build(designs.int3(cfg))
    tag = frames.cfg_name(cfg)
    for c in r.cases():
        g = r.rng(c)
        w, h = frames.dims(g, big=job["tier"] != "quick")
        if job.get("large"):
            w, h = g.choice(((4 * g.randint(70, 100), g.randint(250, 300)), (4 * g.randint(4000, 5000), g.randint(4, 6)), (4, g.randint(17000, 20000))))
        px = gen.frame(g, w, h, bd)
        r.count("large_frames", w * h > 1 << 16)
        frames.setup(s, w, h)
        kinds = [g.choice(("never", "never", "light", "half", "burst")) for _ in "io"]
        t = streams.run_busy(s, ps, streams.beats_of(px, ps), gen.Stall(g, kinds[0]), gen.Stall(g, kinds[1]),
                             stop_after_end=1)
        if not t.out or not t.out[-1][1] or t.accepted * ps < len(px):
            r.fail("lost", "%s: %dx%d frame: %d of %d beats taken, %d words, end flag %s" % (
                tag, w, h, t.accepted, len(px) // ps, len(t.out), bool(t.out and t.out[-1][1])))
        else:
            data = b"".join(x.to_bytes(ob // 8, "big") for x, _ in t.out)
            check(r, t, px, w, h, bd, ob, data, tag)
        r.ok((tag, w, h, frames.digest(px)), len(px) > 1)
        r.sample("%s: %dx%d, %d words, first pixels %s" % (tag, w, h, len(t.out), px[:6]))
        if r.enough:
            break
    r.count("cycles", s.cycles)


def prod(r, job):
    s = hw.build(designs.product(job["p"]))
    ps = frames.PS[job["p"]]
    for c in r.cases():
        g = r.rng(c)
        w, h = frames.dims(g, big=True)
        px = gen.frame(g, w, h, 12)
        frames.setup(s, w, h)
        t = streams.run_busy(s, ps, streams.beats_of(px, ps), gen.Stall(g, g.choice(("never", "light"))),
                             gen.Stall(g, g.choice(("never", "light", "half"))), stop_after_end=1)
        words = [x for x, _ in t.out]
        if len(words) < 17 or words[:8] != [0xFFFF] * 8 or words[-8:] != [0xFFFF] * 8:
            r.fail("lost", "%s: %dx%d frame: %d words, not framed" % (job["p"], w, h, len(words)))
        else:
            data = b"".join(x.to_bytes(2, "big") for x in words[8:-8])
            try:
                # the stuffed stream may carry one byte of filling
                raw = model.unstuff(data)
                if len(raw) & 1:
                    raw = raw[:-1]
                check(r, t, px, w, h, 12, 16, raw, job["p"])
            except ValueError as e:
                r.fail("decode", "%s: %dx%d frame: %s" % (job["p"], w, h, e))
        r.ok((job["p"], w, h, frames.digest(px)), len(px) > 1)
        r.sample("%s: %dx%d, %d words" % (job["p"], w, h, len(words)))
        if r.enough:
            break
    r.count("cycles", s.cycles)


def classes(r, job):
    """16-bit pixels reach all 17 difference classes"""
    cfg = designs.base_config(bit_depth=16, pixels_per_cycle=1, converter=31, vbits_to_cbits_buffer_size=64)
    s = hw.build(designs.int3(cfg))
    for c in r.cases():
        g = r.rng(c)
        seen = set()
        for k in range(12):
            w, h = 4 * g.randint(2, 12), g.randint(2, 8)
            px = gen.frame(g, w, h, 16, "steps")
            if k == 0:
                for i in range(0, len(px), 2):
                    q = model.predictions(px[:i + 1], w, h, 16)[i]
                    px[i] = (q + (32768 if i % 8 == 0 else g.choice((1, -1)) * (1 << g.randint(0, 15)))) & 0xFFFF
            for p, q in zip(px, model.predictions(px, w, h, 16)):
                seen.add(model.ssss_of(model.wrap16(p - q)))
            frames.setup(s, w, h)
            t = streams.run_busy(s, 1, streams.beats_of(px, 1), gen.Stall(g, "never"), gen.Stall(g, "never"), stop_after_end=1)
            data = b"".join(x.to_bytes(2, "big") for x, _ in t.out)
            check(r, t, px, w, h, 16, 16, data, "16-bit classes")
            r.ok(("classes", frames.digest(px)))
        r.count("difference_classes", len(seen))
