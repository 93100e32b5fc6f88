"""Huffman codes written through the registers."""
import hw, model, gen, designs, streams, frames, bus, regs

RULE = ("A case is a set of prefix-free codes of up to 16 bits, written whole or in part through the register port of the "
        "simulated core in a drawn order, and a frame whose differences reach the classes of the bit depth in every lane. The "
        "words must be those of the reference with the same codes. Core: one frame per reset at every bit depth and pixel "
        "rate. Products: several frames in a row, codes changed between them or kept. Distinct by configuration, codes and "
        "frame digest.")
ASSUMPTIONS = ["codes are written between the end word of one frame and the first pixel of the next", "codes are at most 16 bits long"]
REQUIRED = {"tables": 500, "frames": 900, "entry_lane_pairs": 300, "default_frames": 100, "partial_changes": 150, "kept": 100}


def jobs(tier, seed):
    q = tier == "quick"
    js = []
    for bd in range(2, 17):
        for ps in (1, 2, 4):
            js.append({"name": "bd%d-ps%d" % (bd, ps), "fn": "core", "bd": bd, "ps": ps, "n": 24 if q else 150})
    for i in range(4 if q else 16):
        js.append({"name": "prod%d" % i, "fn": "prod", "k": ("beta", "micro")[i % 2], "n": 60 if q else 150, "weight": 5})
    return js


def codes(g, n):
    """n prefix-free codes of 1 to 16 bits: split leaves of a tree at random"""
    leaves = [(0, 0)]
    shape = g.choice(("balanced", "comb", "random", "long"))
    while len(leaves) < n + g.choice((0, 0, 1)):
        ok = [i for i, l in enumerate(leaves) if l[1] < 16]
        if shape == "balanced":
            i = min(ok, key=lambda k: leaves[k][1])
        elif shape == "comb":
            i = max(ok, key=lambda k: leaves[k][1])
        else:
            i = g.choice(ok)
        c, k = leaves.pop(i)
        leaves += [(c << 1, k + 1), (c << 1 | 1, k + 1)]
    if shape == "long":
        # grow everything towards the longest codes there are
        leaves = [(c << (16 - k) | g.getrandbits(16 - k) if 16 > k else c, 16) if g.random() < .6 else (c, k) for c, k in leaves]
    g.shuffle(leaves)
    return leaves[:n]


def write(a, g, bd, old, new):
    """the entries that change, halves in any order"""
    ops = []
    for s, (c, n) in enumerate(new):
        if old is not None and old[s] == new[s]:
            continue
        v = regs.entry(c, n, s, bd)
        for half in (0, 1):
            ops.append((frames.SSSS_REG + 8 * s + 4 * half, v >> 32 * half & 0xFFFFFFFF))
    g.shuffle(ops)
    for o in ops:
        a.write(*o)
    a.run()
    return len(ops)


def content(g, w, h, bd):
    return gen.frame(g, w, h, bd, g.choice(("steps", "steps", "extreme", "random", "smooth")))


def core(r, job):
    bd, ps = job["bd"], job["ps"]
    total = min(31, 16 + bd) * ps
    cfg = designs.base_config(bit_depth=bd, pixels_per_cycle=ps, support_axi_lite=True, converter=max(total // 2, 16),
                              vbits_to_cbits_buffer_size=max(total // 2, 16) + 40)
    s = hw.build(designs.int3(cfg))
    seen = set()
    for c in r.cases():
        g = r.rng(c)
        w, h = 4 * g.randint(1, 16), g.randint(1, 8)
        s.reset()
        a = bus.AxiLite(s, rng=g)
        a.write(frames.HW_REG, w << 16 | h)
        a.write(frames.AC_REG, 0xFFFFFF)
        a.run()
        if g.random() < .15:
            tab = model.STD_TABLE[:bd + 1]
            r.count("default_frames")
        else:
            tab = codes(g, bd + 1)
            write(a, g, bd, None if g.random() < .7 else model.STD_TABLE, tab)
            r.count("tables")
        px = content(g, w, h, bd)
        t = streams.run_busy(s, ps, streams.beats_of(px, ps), gen.Stall(g, g.choice(("never", "light"))),
                             gen.Stall(g, g.choice(("never", "half"))), stop_after_end=1)
        e = model.encode_words(px, w, h, bd, 16, tab)
        d = streams.show_diff(t.out, [(x, 1 if i == len(e) - 1 else 0) for i, x in enumerate(e)])
        for i, (p, q) in enumerate(zip(px, model.predictions(px, w, h, bd))):
            seen.add((model.ssss_of(model.wrap16(p - q)), i % ps))
        r.count("frames")
        r.ok((bd, ps, frames.digest(tab), frames.digest(px)))
        r.sample("%d bits, %d lanes: codes %s" % (bd, ps, " ".join(format(c, "0%db" % n) for c, n in tab[:6])))
        err = d or (a.err + t.err + [None])[0]
        if err:
            r.fail("codes", "%d-bit pixels, %d a cycle, %dx%d: %s" % (bd, ps, w, h, err), {"codes": tab, "pixels": px[:64]})
            if r.enough:
                break
    r.count("entry_lane_pairs", len(seen))
    r.count("cycles", s.cycles)


def prod(r, job):
    k = job["k"]
    ps = frames.PS[k]
    s = hw.build(designs.product(k, override={"support_axi_lite": True}))
    for c in r.cases():
        g = r.rng(c)
        w, h = 4 * g.randint(1, 14), g.randint(1, 7)
        frames.setup(s, w, h)
        a = bus.AxiLite(s, rng=g)
        tab = list(model.STD_TABLE[:13])
        for f in range(g.randint(2, 6)):
            x = g.random()
            if f == 0 and x < .5:
                r.count("default_frames")
            elif x < .3:
                r.count("kept")
            elif x < .6:
                # a few entries trade places
                new = list(tab)
                i, j = g.sample(range(13), 2)
                new[i], new[j] = new[j], new[i]
                write(a, g, 12, tab, new)
                tab = new
                r.count("partial_changes")
            else:
                new = codes(g, 13)
                write(a, g, 12, tab if g.random() < .5 else None, new)
                tab = new
                r.count("tables")
            px = content(g, w, h, 12)
            sa, sb = gen.Stall(g, g.choice(("never", "light", "phase"))), gen.Stall(g, g.choice(("never", "half", "burst", "after")))
            t = streams.run_busy(s, ps, streams.beats_of(px, ps), sa, sb, stop_after_end=1)
            d = streams.show_diff(t.out, streams.framed(px, w, h, tab)) or (a.err + t.err + [None])[0]
            r.count("frames")
            r.ok((k, frames.digest(tab), frames.digest(px)))
            if d:
                r.fail("codes of a later frame" if f else "codes", "%s, frame %d of %dx%d: %s" % (k, f, w, h, d),
                       {"codes": tab, "pixels": px[:64]})
                break
        if r.enough:
            break
    r.count("cycles", s.cycles)
