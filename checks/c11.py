"""The packing stage conserves bits."""
import hw, gen, designs, frames

RULE = ("A case is a sequence of chunks offered to the simulated packing stage the way a FIFO offers them, the words taken "
        "under a drawn stall pattern. The words must be the chunks' bits, full words, the last filled with zeros and the "
        "only one flagged; an offered word must not change before it is taken, nothing may follow the last one. Distinct by "
        "widths, lengths and contents.")
ASSUMPTIONS = ["a chunk is at least one bit long and has no bits beyond its length",
               "the buffer holds at least one chunk and one word, as the stage's constructor asks"]
REQUIRED = {"rests": 8, "chunks": 60000, "words": 30000, "receiver_stalls": 10000, "full_last_words": 20, "input_waits": 5000, "starved_cycles": 5000}


def jobs(tier, seed):
    import random
    g = random.Random("c11/%s" % seed)
    q = tier == "quick"
    js = []
    for i in range(72 if q else 160):
        out = (8, 16, 24, 32, 40, 64, 16, 32, g.choice((48, 56, 72, 96, 128)))[i % 9]
        conv = g.choice((g.randint(1, 20), g.randint(16, 64), g.randint(40, 124), g.choice((1, 2, 3, 30))))
        buf = conv + out + g.choice((0, 0, 1, 2, 3, g.randint(4, 70), out, conv, 2 * (conv + out), g.randint(100, 400)))
        js.append({"name": "%d conv%d out%d buf%d" % (i, conv, out, buf), "fn": "run", "conv": conv, "out": out, "buf": buf,
                   "n": 80 if q else 120})
        if i % 6 == 3:
            js.append(dict(js[-1], name="rest%d" % i, n=16 if q else 60, rest=True, weight=10))
        if i % 12 == 7:
            js.append(dict(js[-1], name="long%d" % i, n=1, big=70000 if q else 300000, weight=20, timeout=800))
    return js


def run(r, job):
    conv, ob, buf = job["conv"], job["out"], job["buf"]
    s = hw.build(designs.packer(designs.base_config(converter=conv, out_bits=ob, vbits_to_cbits_buffer_size=buf)))
    io = s.io
    pv, pn, pe, pb = s.idx("p_vin"), s.idx("p_n"), s.idx("p_end"), s.idx("p_busy")
    qv, qe, ql = s.idx("q_vout"), s.idx("q_oend"), s.idx("q_latch")
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        n = job["big"] if "big" in job else g.choice((1, 2, 3, g.randint(4, 40), g.randint(40, 400)))
        shape = g.choice(("any", "short", "long", "mixed", "sum"))
        ch = []
        bits = 0
        for i in range(n):
            k = shape if shape != "mixed" else g.choice(("any", "short", "long", "sum"))
            ln = (g.randint(1, conv) if k == "any" else g.randint(1, min(conv, 5)) if k == "short" else
                  g.randint(max(1, conv - 4), conv) if k == "long" else
                  # lengths that just fill a word
                  max(1, min(conv, ob - bits % ob + g.choice((0, 0, 0, -1, 1)))))
            if i == n - 1 and g.random() < .3 and 1 <= ob - bits % ob <= conv:
                ln = ob - bits % ob
            v = g.choice((g.getrandbits(ln), g.getrandbits(ln), (1 << ln) - 1, 1 << (ln - 1), 0))
            ch.append((v, ln))
            bits += ln
        stream = "".join(format(v, "0%db" % k) for v, k in ch)
        stream += "0" * (-len(stream) % ob)
        exp = [(int(stream[i:i + ob], 2), 1 if i + ob == len(stream) else 0) for i in range(0, len(stream), ob)]
        if bits % ob == 0:
            r.count("full_last_words")
        a, b = gen.Stall(g), gen.Stall(g)
        if job.get("rest"):
            a, b = gen.frozen(s, g, a, b)
        i, idle, t, prev = 0, 0, 0, None
        fresh = False         # a FIFO keeps what it shows until it is taken
        got, err = [], None
        wait = g.choice((0, 0, 1, 2, 3, 7, 20))
        while idle < 2500 and len(got) < len(exp) + 50:
            if i < n and t >= wait and (fresh or not a()):
                fresh = True
                s.set("p_e", ch[i][0])
                io[pn], io[pe], io[pv] = ch[i][1], 1 if i == n - 1 else 0, 1
            else:
                s.set("p_e", g.getrandbits(conv))
                io[pn], io[pe], io[pv] = g.randint(0, conv), g.getrandbits(1), 0
                if i < n:
                    r.count("starved_cycles")
            busy = b()
            io[pb] = busy
            s.lib.sim_eval()
            b.fb = io[qv]
            idle += 1
            if io[pv]:
                if io[ql]:
                    i += 1
                    fresh = False
                    idle = 0
                else:
                    r.count("input_waits")
            cur = (s.get("q_data"), io[qe])
            if prev is not None and (not io[qv] or cur != prev) and not err:
                err = "word %x end=%d offered and not taken, then valid=%d %x end=%d" % (prev + (io[qv],) + cur)
            prev = cur if io[qv] and busy else None
            if io[qv]:
                if busy:
                    r.count("receiver_stalls")
                else:
                    got.append(cur)
                    idle = 0
            s.lib.sim_tick()
            t += 1
            if len(got) >= len(exp) and idle > 80:
                break
        r.count("cycles", t)
        r.count("chunks", n)
        r.count("words", len(exp))
        r.count("rests", getattr(b, "f", None) is not None and b.f.done)
        r.ok((conv, ob, buf, frames.digest(ch)))
        import streams
        err = err or streams.show_diff(got, exp)
        r.sample("conv%d out%d buf%d: %d %s chunks, %d words, source %s receiver %s" % (conv, ob, buf, n, shape, len(exp), a.kind, b.kind))
        if err:
            r.fail("packing", "converter %d, word %d, buffer %d: %d %s chunks, source %s receiver %s: %s" % (
                conv, ob, buf, n, shape, a.kind, b.kind, err), {"chunks": ch[:40]})
            if r.enough:
                break
