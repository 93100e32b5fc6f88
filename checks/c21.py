"""Full-size frames with the registers as shipped; the repository's reference files."""
import os, random
import hw, model, gen, designs, streams, frames

RULE = ("full: a case is one 4096x3072 frame sent at full input rate (with drawn pauses of a few cycles in some) through beta, built exactly as "
        "shipped, or its AXI-Stream or FIFO wrapper, and every output word is compared with a streaming reference; a frame too "
        "large for the default budget must be cut off with its marker instead. files: the raw frames in test_files go through "
        "every product and the bytes must be those of the _headerless file. Distinct by product and contents.")
ASSUMPTIONS = ["frames whose code averages more than 8 bits per pixel may exceed the default budget",
               "frame size of the reference files is set through the registers"]
REQUIRED = {"full_frames": 3, "pixels": 30000000, "words_compared": 12000000, "cut_frames": 1, "file_frames": 12, "file_bytes": 400000}
W, H = 4096, 3072
FILES = ("random.raw12", "portrait-gainx2-offset2047-20ms-01.raw12", "IT8Chart15ms.raw12")


def jobs(tier, seed):
    q = tier == "quick"
    js = []
    for i, (k, c) in enumerate((("beta", "sensor"), ("beta", "extremes"), ("beta_axis", "sensor"), ("beta", "noise"))):
        js.append({"name": "full-%s-%s" % (k, c), "fn": "full", "k": k, "content": c, "n": 1, "weight": 50})
    if not q:
        for k in ("beta", "beta_axis", "beta_fifo"):
            for c in ("sensor", "extremes", "flat", "paused", "noise", "reference"):
                for i in range(2):
                    js.append({"name": "full%d-%s-%s" % (i, k, c), "fn": "full", "k": k, "content": c, "n": 1, "weight": 50, "lo": i})
    for k in ("beta", "micro", "beta_axis", "micro_axis", "beta_fifo"):
        js.append({"name": "files-%s" % k, "fn": "files", "k": k, "n": len(FILES) if q else 4 * len(FILES), "weight": 8})
    return js


def raw12(path):
    d = open(path, "rb").read()
    out = []
    for i in range(0, len(d) - 2, 3):
        a, b, c = d[i], d[i + 1], d[i + 2]
        out.append(a << 4 | b >> 4)
        out.append((b & 15) << 8 | c)
    return out


def rows(content, seed):
    """the rows of a frame, one at a time"""
    g = random.Random(seed)
    ref = raw12(os.path.join(hw.REPO, "test_files", FILES[1]))
    ref = [ref[i * W:(i + 1) * W] for i in range(10)]
    base = [g.randrange(4096) for _ in range(4)]
    for y in range(H):
        if content == "noise":
            bits = g.getrandbits(12 * W)
            b = bits.to_bytes(W * 3 // 2, "little")
            row = []
            for i in range(0, len(b), 3):
                row.append(b[i] | (b[i + 1] & 15) << 8)
                row.append(b[i + 1] >> 4 | b[i + 2] << 4)
        elif content == "reference":
            row = ref[y % 10]
        elif content == "flat":
            row = [base[y & 3]] * W
            row[g.randrange(W)] = g.randrange(4096)
        else:
            # a gradient with noise of a few bits; each component on its own
            nb = g.getrandbits(4 * W).to_bytes(W // 2, "little")
            row = []
            dx = g.randint(-1, 1)
            for i in range(W):
                n = nb[i >> 1] >> 4 * (i & 1) & 15
                v = base[i & 3] + (dx * i >> 4) + n + (y >> 3)
                row.append(v & 4095)
            if content == "extremes" or y % 97 == 0:
                for _ in range(20):
                    x = g.randrange(W)
                    row[x] = g.choice((0, 4095, 2048, 2047, g.randrange(4096)))
        yield row


def expected(content, seed):
    """the stuffed 16-bit words, a row's worth at a time"""
    acc = nb = 0
    pend = -1            # byte waiting for its partner
    first = None
    raw = 0              # bytes before stuffing, mod 2
    codes, lens = [c for c, n in model.STD_TABLE], [n for c, n in model.STD_TABLE]
    for row in rows(content, seed):
        q = [2048] * 4 if first is None else first
        first = row[:4]
        out = []
        for i in range(len(row)):
            v = row[i]
            d = v - (row[i - 4] if i >= 4 else q[i])
            m = d if d >= 0 else -d
            s = m.bit_length()
            acc = (acc << lens[s] | codes[s]) << s | ((d if d > 0 else d - 1) & ((1 << s) - 1))
            nb += lens[s] + s
            while nb >= 8:
                nb -= 8
                b = acc >> nb
                acc &= (1 << nb) - 1
                raw ^= 1
                if pend < 0:
                    pend = b
                else:
                    out.append(pend << 8 | b)
                    pend = -1
                if b == 255:
                    if pend < 0:
                        pend = 0
                    else:
                        out.append(pend << 8)
                        pend = -1
        yield out
    last = []
    if nb:
        last.append(acc << 8 - nb)
        raw ^= 1
    if raw:
        last.append(0)
    t = ([] if pend < 0 else [pend]) + list(model.stuff(bytes(last)))
    if len(t) & 1:
        t.append(0)
    yield [t[i] << 8 | t[i + 1] for i in range(0, len(t), 2)]


def beats(k, content, seed):
    for row in rows(content, seed):
        if k == "beta":
            yield [(row[i], row[i + 1]) for i in range(0, W, 2)]
        elif k == "beta_axis":
            yield [row[i] << 20 | row[i + 1] << 8 for i in range(0, W, 2)]
        else:
            yield [row[i] << 52 | row[i + 1] << 40 | row[i + 2] << 28 | row[i + 3] << 16 for i in range(0, W, 4)]


def full(r, job):
    k, content = job["k"], job["content"]
    s = hw.build(designs.product(k, patch=False))
    axis = k != "beta"
    names = (("p_s_tvalid", "p_m_tready", "q_s_tready", "q_m_tvalid", "q_m_tdata", "q_m_tlast") if axis else
             ("p_vin", "p_busy", "q_nready", "q_vout", "q_data", "q_end"))
    iv, ib, onr, ov, od, oe = [s.idx(n) for n in names]
    ip = [s.idx("p_s_tdata")] if axis else [s.idx("p_p0"), s.idx("p_p1")]
    ready, busy = (1, 0) if axis else (0, 1)
    for c in r.cases():
        g = r.rng(c)
        key = "%s/%s" % (job["seed"], c)
        s.reset()
        io, ev, tick = s.io, s.lib.sim_eval, s.lib.sim_tick
        exp = expected(content, key)
        cur, ci = [0xFFFF] * 8, 0
        sent = words = cycles = idle = pause = 0
        end = err = None
        cut = content == "noise"
        io[ib] = ready
        src = beats(k, content, key)
        row, ri = next(src), 0
        more = True
        tail = None
        while idle < 200 and err is None:
            if pause:
                pause -= 1
                io[iv] = 0
            elif more:
                io[iv] = 1
                if axis:
                    io[ip[0]] = row[ri]
                else:
                    io[ip[0]], io[ip[1]] = row[ri]
            else:
                io[iv] = 0
            ev()
            idle += 1
            if io[iv] and io[onr] == ready:
                idle = 0
                sent += 1
                ri += 1
                if ri == len(row):
                    try:
                        row, ri = next(src), 0
                    except StopIteration:
                        more = False
                    if content == "paused":
                        pause = g.randint(0, 3)
            if io[ov]:
                idle = 0
                x = io[od]
                e = io[oe]
                if end is not None:
                    if not cut:
                        err = "word %04x after the end of the frame" % x
                    else:
                        break
                while cur is not None and ci == len(cur):
                    ci = 0
                    cur = next(exp, None)
                if cur is None and tail is None:
                    tail = [(0xFFFF, 0)] * 7 + [(0xFFFF, 1)]
                if tail is None and x == 0xFFFE and cut and words > 8 and cur[ci] != x:
                    tail = [(0xFFFE, 0)] * 7 + [(0xFFFE, 1)]
                    r.count("cut_frames")
                if tail is None:
                    if x != cur[ci] or e:
                        err = "word %d is %04x (end %d), expected %04x" % (words, x, e, cur[ci])
                    ci += 1
                elif tail:
                    t = tail.pop(0)
                    if (x, e) != t:
                        err = "word %d is %04x (end %d), expected the marker %04x (end %d)" % ((words, x, e) + t)
                words += 1
                if e:
                    end = words
                    end_cycle = cycles
            tick()
            cycles += 1
        s.cycles += cycles
        total = W * H // (2 if k != "beta_fifo" else 4)
        if not err and end is None:
            err = "no end word after %d words, %d of %d beats" % (words, sent, total)
        if not err and not cut and sent != total:
            err = "%d of %d beats taken" % (sent, total)
        if not err and cut and r.counters.get("cut_frames", 0) == 0:
            err = "a frame too large for the default budget was not cut off"
        if not err and cut and not 6666000 <= end_cycle <= 6666000 + 200:
            err = "cut off with the end word in cycle %d, the budget is 6666000" % end_cycle
        r.count("full_frames")
        r.count("pixels", sent * W * H // total)
        r.count("words_compared", words)
        r.ok((k, content, key))
        r.sample("%s %s: %d words, %d cycles" % (k, content, words, cycles))
        if err:
            r.fail("full frame", "%s, %dx%d %s: %s" % (k, W, H, content, err))
    r.count("cycles", s.cycles)


def files(r, job):
    k = job["k"]
    s = hw.build(designs.product(k))
    ps = frames.PS[k]
    for c in r.cases():
        g = r.rng(c)
        f = FILES[c % len(FILES)]
        px = raw12(os.path.join(hw.REPO, "test_files", f))
        ref = open(os.path.join(hw.REPO, "test_files", f + "_headerless.lj92"), "rb").read()
        frames.setup(s, W, 10)
        si, so = gen.Stall(g, g.choice(("never", "light", "half", "burst"))), gen.Stall(g, g.choice(("never", "light", "half", "burst")))
        if k in ("beta", "micro"):
            t = streams.run_busy(s, ps, [tuple(px[i:i + ps]) for i in range(0, len(px), ps)], si, so, idle_limit=1000)
        else:
            t = streams.run_axis(s, frames.axis_beats(k, px, g), si, so, idle_limit=1000)
        out = b"".join(x.to_bytes(2, "big") for x, _ in t.out)
        err = None
        if [e for _, e in t.out] != [0] * (len(t.out) - 1) + [1]:
            err = "end flag is not on the last word alone"
        if out[:16] != b"\xff" * 16 or out[-16:] != b"\xff" * 16:
            err = "not framed by eight 0xFFFF words"
        body = out[16:-16]
        i = next((i for i in range(min(len(body), len(ref))) if body[i] != ref[i]), None)
        if i is not None:
            err = "byte %d is %02x, the file has %02x" % (i, body[i], ref[i])
        elif len(body) < len(ref) or len(body) > len(ref) + 3 or any(body[len(ref):]):
            err = "%d bytes, the file has %d" % (len(body), len(ref))
        r.count("file_frames")
        r.count("file_bytes", len(ref))
        r.ok((k, f, c, t.stall_in, t.stall_out))
        if err:
            r.fail("reference file", "%s, %s: %s" % (k, f, err))
    r.count("cycles", s.cycles)
