"""A configuration the core cannot have is refused when the core is built; one
that is taken works."""
import hw, model, gen, designs, streams, frames

RULE = ("A case is one frame sent twice through a core whose configuration was drawn at and over the edges of what a core can "
        "have; before, up to thirty configurations are offered to the constructor. One with a part the core cannot have "
        "(bit depth, rate, predictor, components, output and converter width, buffer and FIFO sizes) must be refused with an "
        "error, or else (not predictor or components) give a core that encodes all frames; one without must be taken. The frame, sent without pauses and "
        "under drawn stalls, must give the reference encoder's words, the last flagged. Distinct by configuration and frame.")
ASSUMPTIONS = ["frame width is a multiple of four pixels, at least four", "the assertions of the sources are not switched off (python -O)"]
REQUIRED = {"offered_good": 1000, "edge_cores": 30, "frames": 400}

KEYS = ("bit_depth", "pixels_per_cycle", "predictor_function", "num_of_components", "out_bits", "converter",
        "vbits_to_cbits_buffer_size", "LJ92_fifo_depth", "converter_fifo_depth")


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "core%d" % i, "fn": "core", "i": i, "n": 12 if q else 30} for i in range(64 if q else 320)]


def total(c):
    return min(31, 16 + c["bit_depth"]) * c["pixels_per_cycle"]


def steps(c):
    return -(-total(c) // c["converter"]) + 3


def edge(g, i):
    """a core that can be built, at the edges of what can be"""
    c = designs.base_config(bit_depth=g.choice((2, 3, 15, 16, g.randint(2, 16))), pixels_per_cycle=(1, 2, 4)[i % 3],
                            out_bits=g.choice((8, 8, 16, 24, 48, 56, 72, 128, 256)), LJ92_fifo_depth=g.choice((25, 26, 27, 31, 32, 33, 47, 100, 200)))
    c["support_axi_lite"] = g.random() < .3
    c["axi_lite_debug"] = c["support_axi_lite"] and g.random() < .5
    t = total(c)
    c["converter"] = g.choice((1, 2, 3, t - 1, t, t // 2, t // 2 + 1, g.randint(1, t)))
    c["vbits_to_cbits_buffer_size"] = c["converter"] + c["out_bits"] + g.choice((0, 0, 1, g.randint(0, 200)))
    c["converter_fifo_depth"] = steps(c) + g.choice((4, 4, 5, 6, 13, 40, 100))
    return c


def spoil(g, c):
    """one part over the edge, or far from it"""
    c = dict(c)
    k = g.choice(KEYS)
    if k == "bit_depth":
        c[k] = g.choice((0, 1, 17, 18, 24, 32, -4))
    elif k == "pixels_per_cycle":
        c[k] = g.choice((0, 3, 5, 6, 8, -1))
    elif k == "predictor_function":
        c[k] = g.choice((0, 2, 3, 4, 5, 6, 7, 8))
    elif k == "num_of_components":
        c[k] = g.choice((0, 1, 2, 3, 5, 8))
    elif k == "out_bits":
        c[k] = g.choice((0, 4, 7, 9, 12, 15, 17, 20, 30, 60, -8))
        c["vbits_to_cbits_buffer_size"] = c["converter"] + max(c[k], 0) + 8
    elif k == "converter":
        c[k] = g.choice((0, -1, total(c) + 1, total(c) + 2, 2 * total(c)))
        c["vbits_to_cbits_buffer_size"] = max(c[k], 0) + c["out_bits"] + 8
        c["converter_fifo_depth"] = 400
    elif k == "vbits_to_cbits_buffer_size":
        c[k] = g.choice((c["converter"] + c["out_bits"] - 1, c["converter"] + c["out_bits"] - 2, c["converter"], c["out_bits"], 1, 0))
    elif k == "LJ92_fifo_depth":
        c[k] = g.choice((0, 1, 2, 4, 8, 9, 10, 11, 12, 14, 16))
    else:
        c[k] = g.choice((0, 1, 2, 3, steps(c) - 2, steps(c) - 1, steps(c), steps(c) + 1))
    return c, k


def name(c):
    return frames.cfg_name(c) + "".join(" %s=%s" % (k, c[k]) for k in ("predictor_function", "num_of_components")
                                        if c[k] != (1, 4)[k == "num_of_components"])


def construct(c):
    designs.prepare()
    import integration_3, constraints
    try:
        integration_3.Integration3(c, constraints.Constraints())
    except Exception as e:
        return repr(e)
    return None


def core(r, job):
    g = r.rng("cfg")
    good, odd = edge(g, job["i"]), {}
    for k in range(30):
        c = edge(g, g.randrange(3))
        e = construct(c)
        r.count("offered_good")
        if e is not None:
            r.fail("refused", "%s is refused: %s" % (name(c), e), {"config": c})
        c, part = spoil(g, c)
        e = construct(c)
        r.count("offered_" + part)
        r.count("refused", e is not None)
        if e is None:
            odd[part] = c
    # every other job simulates one that was taken although it should not be, if there is one
    cfg, part = good, None
    if odd and job["i"] % 2:
        part = g.choice(sorted(odd))
        cfg = odd[part]
    tag = name(cfg) + (", taken although its %s" % part if part else "")
    designs.forget()
    try:
        s = hw.build(designs.int3(cfg))
    except Exception as e:
        if part:
            # refused a little later
            r.count("refused_late")
            return
        raise
    r.count("edge_cores")
    if part in ("predictor_function", "num_of_components"):
        # there is only one the core can do, whatever it puts out for the others
        r.fail("accepted", "%s %d is taken" % (part, cfg[part]), {"config": cfg})
        r.ok((tag,))
        return
    bd, ps, ob = cfg["bit_depth"], cfg["pixels_per_cycle"], cfg["out_bits"]
    for c in r.cases():
        g = r.rng(c)
        w, h = frames.dims(g)
        px = gen.frame(g, w, h, bd)
        exp = [(x, 0) for x in model.encode_words(px, w, h, bd, ob)]
        exp[-1] = (exp[-1][0], 1)
        for a, b in (("never", "never"), (g.choice(gen.Stall.KINDS), g.choice(gen.Stall.KINDS))):
            frames.setup(s, w, h)
            t = streams.run_busy(s, ps, streams.beats_of(px, ps), gen.Stall(g, a), gen.Stall(g, b), stable=True,
                                 hold=g.random() < .6, stop_after_end=1)
            r.count("frames")
            r.count("refused_words", t.stall_out)
            for e in t.err[:1]:
                r.fail("unstable", "%s, %dx%d, source %s, receiver %s: %s" % (tag, w, h, a, b, e), {"config": cfg})
            d = streams.show_diff(t.out, exp)
            if d:
                r.fail("wrong words", "%s, %dx%d, source %s, receiver %s: %s" % (tag, w, h, a, b, d), {"config": cfg, "pixels": px[:64]})
        r.ok((tag, w, h, frames.digest(px)), len(px) > 1)
        r.sample("%s: %dx%d, %d words" % (tag, w, h, len(exp)))
        if r.enough:
            break
    r.count("cycles", s.cycles)
