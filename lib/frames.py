"""Shared pieces of the frame-level checks."""
import hashlib, random
import hw, model, gen, designs, streams, bus


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def pick_config(rng, i):
    """core configurations, spread over every bit depth and pixel rate"""
    bd = 2 + (i * 7) % 15
    ps = (1, 2, 4)[i % 3]
    total = min(31, 16 + bd) * ps
    out_bits = rng.choice((8, 16, 16, 24, 32, 32, 40, 64))
    lo = max(4, total // 6)
    conv = rng.choice((total, rng.randint(lo, total), rng.randint(lo, total)))
    if i % 5 == 4:
        # the unusual ones: any converter, odd FIFOs, wide words
        out_bits = rng.choice((8, 16, 48, 56, 72, 96, 128))
        conv = rng.choice((1, 2, 3, total - 1, total // 2, total // 2 + 1, rng.randint(1, total)))
    steps = -(-total // conv) + 3
    if i % 5 == 4:
        return designs.base_config(
            bit_depth=bd, pixels_per_cycle=ps, out_bits=out_bits, converter=conv,
            vbits_to_cbits_buffer_size=conv + out_bits + rng.choice((0, 0, 1, rng.randint(0, 150))),
            LJ92_fifo_depth=rng.choice((25, 26, 27, 31, 33, 47, 100)),
            converter_fifo_depth=steps + rng.choice((4, 4, 5, 6, 13, 40)))
    return designs.base_config(
        bit_depth=bd, pixels_per_cycle=ps, out_bits=out_bits, converter=conv,
        vbits_to_cbits_buffer_size=conv + out_bits + rng.choice((0, 1, rng.randint(0, 70))),
        LJ92_fifo_depth=rng.choice((25, 32, 64, 128)),
        converter_fifo_depth=max(16, steps + 4, rng.choice((16, 24, 32, 64, 128))))


def cfg_name(c):
    return "bd%d ps%d out%d conv%d buf%d fifo%d/%d" % (
        c["bit_depth"], c["pixels_per_cycle"], c["out_bits"], c["converter"],
        c["vbits_to_cbits_buffer_size"], c["LJ92_fifo_depth"], c["converter_fifo_depth"])


def dims(rng, big=False):
    k = rng.random()
    if k < .15:
        return 4, rng.randint(1, 10)
    if k < .3:
        return 4 * rng.randint(1, 16), 1
    if k < .9 or not big:
        return 4 * rng.randint(1, 16), rng.randint(1, 10)
    return 4 * rng.randint(8, 60), rng.randint(4, 30)


def setup(sim, w, h, ac=0xFFFFFF):
    sim.reset()
    if "p_h" in sim.inputs:
        sim.set("p_h", h)
        sim.set("p_w", w)
        sim.set("p_ac", ac)
    else:
        program(sim, w, h, ac)


HW_REG, AC_REG, SSSS_REG, DEBUG_REG = 0x2000, 0x2004, 0x1000, 0x4000


def program(sim, w, h, ac=0xFFFFFF, table=None, bd=12):
    """set the registers the way the board's software does"""
    a = bus.AxiLite(sim)
    a.write(HW_REG, w << 16 | h)
    a.write(AC_REG, ac)
    for i, (c, n) in enumerate(table or []):
        v = n << (16 + bd) | (c << i if i < 16 else c)
        a.write(SSSS_REG + 8 * i, v & 0xFFFFFFFF)
        a.write(SSSS_REG + 8 * i + 4, v >> 32)
    a.run()
    return a


PS = {"beta": 2, "micro": 1, "beta_axis": 2, "micro_axis": 1, "beta_fifo": 2, "beta_lvds": 2, "int3_axis": 4}


def axis_beats(name, px, rng):
    """pixels packed the way each wrapper unpacks them; unused bits are noise"""
    out = []
    k = rng.randrange(6)

    def pad(n):
        return rng.getrandbits(n) if k > 1 else 0 if k else (1 << n) - 1
    if name == "beta_axis":
        for i in range(0, len(px), 2):
            out.append(px[i] << 20 | px[i + 1] << 8 | pad(8))
    elif name == "micro_axis":
        out = [p | pad(20) << 12 for p in px]
    elif name in ("beta_fifo", "beta_lvds"):
        for i in range(0, len(px), 4):
            a, b, c, d = px[i:i + 4]
            out.append(a << 52 | b << 40 | c << 28 | d << 16 | pad(16))
    elif name == "int3_axis":
        for i in range(0, len(px), 4):
            a, b, c, d = px[i:i + 4]
            out.append(a | b << 12 | c << 24 | d << 36 | pad(16) << 48)
    return out


def size_of_run(px, w, h, bd, ps, conv, out_bits):
    """how many cycles the slowest stage needs when nobody holds it back"""
    codes = model.encode_codes(px, w, h, bd)
    chunks = bits = 0
    for i in range(0, len(codes), ps):
        n = sum(k for _, k in codes[i:i + ps])
        bits += n
        chunks += -(-n // conv)
    return len(codes) // ps, chunks, -(-bits // out_bits)
