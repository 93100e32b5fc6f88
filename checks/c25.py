"""From the core to pixels: what a receiver does with the stream of a product."""
import os
import hw, model, gen, designs, streams, frames, bus, regs, ljpeg
import c05, c16
from c04 import put_dims

RULE = ("stream: a case is a sequence of frames through one simulated product, with drawn stalls, budgets that cut some frames off, and "
        "(beta with registers) drawn canonical code tables. Only the words taken are kept, without end flags or cycle numbers. A receiver "
        "splits them at the markers (the source drops the rest of a cut frame), puts a standard lossless-JPEG header before each frame and has the sanitized liblj92 decode it: "
        "pixels equal to those put in for whole frames; for cut frames an error status, or the pixels if only padding was cut. files: the "
        "stored _pure.lj92 files decode to their raw12 files, and differ from the _headerless ones by header and end only. Distinct by size, "
        "budget and digest.")
ASSUMPTIONS = ["code tables are canonical, as a JPEG header can only describe such", "no end code is lost between receiver and core"]
REQUIRED = {"frames": 700, "decoded": 500, "cut_frames": 60, "refused": 50, "tables": 60, "files": 3, "samples": 50000}


def jobs(tier, seed):
    q = tier == "quick"
    js = [{"name": "%s%d" % (k, j), "fn": "stream", "k": k, "n": 45 if q else 180}
          for k in ("beta", "micro", "regs") for j in range(6 if q else 12)]
    return js + [{"name": "files", "fn": "files", "n": 1}]


STD_BITS = [0, 0, 7, 1] + [1] * 9 + [0, 0, 0]
STD_VALS = [1, 2, 3, 4, 5, 6, 7, 0] + list(range(8, 17))


def receive(words):
    """[(words of the scan, whole?)]; raises Bad at anything that is no frame"""
    out, i, n = [], 0, len(words)
    while i < n:
        if words[i:i + 8] != [0xFFFF] * 8:
            raise ljpeg.Bad("word %d: no start of a frame: %s" % (i, ["%04x" % x for x in words[i:i + 8]]))
        j = i + 8
        while j < n and words[j] not in (0xFFFF, 0xFFFE):
            j += 1
        end = words[j:j + 8]
        if end != [0xFFFF] * 8 and end != [0xFFFE] * 8:
            raise ljpeg.Bad("word %d: no end of a frame: %s" % (j, ["%04x" % x for x in end]))
        out.append((words[i + 8:j], end[0] == 0xFFFF))
        i = j + 8
    return out


def stream(r, job):
    k = job["k"]
    p = "beta" if k == "regs" else k
    ps = frames.PS[p]
    s = hw.build(designs.product(p, override={"support_axi_lite": True} if k == "regs" else None))
    lib = ljpeg.Lib()
    for c in r.cases():
        g = r.rng(c)
        w, h = 4 * g.randint(1, 12), g.randint(1, 8)
        frames.setup(s, w, h)
        words, sent, log, bits, vals = [], [], [], STD_BITS, STD_VALS
        tab = list(model.STD_TABLE[:13])
        bad = None
        for f in range(g.randint(2, 7)):
            if g.random() < .5:
                w, h = 4 * g.randint(1, 12), g.randint(1, 8)
            if k == "regs" and g.random() < .5:
                a = bus.AxiLite(s, rng=g)
                bits, vals = ljpeg.random_table(g, range(13), False)
                t = ljpeg.canonical(bits, vals)
                new = [t[i] for i in range(13)]
                c16.write(a, g, 12, tab, new)
                tab = new
                r.count("tables")
            px = gen.frame(g, w, h, 12)
            ac = 0xFFFFFF
            if g.random() < .15:
                ac = g.randint(0, len(px) // ps + 40)
            if "p_h" in s.inputs:
                put_dims(s, w, h)
                s.set("p_ac", ac)
            else:
                frames.program(s, w, h, ac)
            sa, sb = gen.Stall(g, g.choice(("never", "light", "half", "burst"))), gen.Stall(g, g.choice(("never", "half", "burst", "phase", "after")))
            err, beats = [], streams.beats_of(px, ps)
            out, first, t = c05.one(s, ps, beats, sa, sb, g, ac, len(beats), err)
            words += [x[0] for x in out]
            sent.append((px, w, h, bits, vals, ac))
            log.append((w, h, ac))
            s.cycles += t
            if err:
                bad = err[0][1]
                break
        try:
            if bad:
                raise ljpeg.Bad(bad)
            got = receive(words)
            if len(got) != len(sent):
                raise ljpeg.Bad("%d frames found in the stream, %d sent" % (len(got), len(sent)))
            for i, ((ws, whole), (px, w, h, bits, vals, ac)) in enumerate(zip(got, sent)):
                if not whole and ac == 0xFFFFFF:
                    raise ljpeg.Bad("frame %d is cut off" % i)
                data = ljpeg.header(w // 4, h, 12, 4, 1, bits, vals) + b"".join(x.to_bytes(2, "big") for x in ws) + b"\xff\xd9"
                d = lib.decode(data)
                if d["open"]:
                    raise ljpeg.Bad("frame %d: opening gives status %d" % (i, d["open"]))
                if d["decode"] == 0 and list(d["out"]) != px:
                    m = [x == y for x, y in zip(d["out"], px)].index(False)
                    raise ljpeg.Bad("frame %d (%dx%d%s): pixel %d decodes as %d, was %d" % (
                        i, w, h, "" if whole else ", cut off", m, d["out"][m], px[m]))
                if whole and d["decode"]:
                    raise ljpeg.Bad("frame %d (%dx%d): decoding gives status %d" % (i, w, h, d["decode"]))
                r.count("decoded", d["decode"] == 0)
                r.count("refused", d["decode"] != 0)
                r.count("cut_frames", not whole)
                r.count("samples", len(px))
                r.ok((k, w, h, ac, frames.digest(px), frames.digest(vals)))
        except ljpeg.Crash as e:
            r.fail("sanitizer", "%s, frames (w, h, budget) %s: %s" % (k, log, e))
        except ljpeg.Bad as e:
            r.fail("receiver", "%s, frames (w, h, budget) %s: %s" % (k, log, e), {"words": words[:200]})
        r.count("frames", len(sent))
        r.sample("%s: (w, h, budget) %s" % (k, log))
        if r.enough:
            break
    r.count("cycles", s.cycles)


def files(r, job):
    d = os.path.join(os.environ.get("VP_REPO", "/repo"), "test_files")
    lib = ljpeg.Lib()
    for c in r.cases():
        for f in sorted(os.listdir(d)):
            if not f.endswith(".raw12"):
                continue
            raw = open(os.path.join(d, f), "rb").read()
            px = []
            for i in range(0, len(raw) - 2, 3):
                px += [raw[i] << 4 | raw[i + 1] >> 4, (raw[i + 1] & 15) << 8 | raw[i + 2]]
            pure = open(os.path.join(d, f + "_pure.lj92"), "rb").read()
            bare = open(os.path.join(d, f + "_headerless.lj92"), "rb").read()
            try:
                if bare not in pure:
                    raise ljpeg.Bad("the _headerless file is not a part of the _pure file")
                x = lib.decode(pure)
                if x["open"] or x["decode"]:
                    raise ljpeg.Bad("status %d, %d" % (x["open"], x["decode"]))
                if list(x["out"]) != px:
                    raise ljpeg.Bad("dimensions %s, other pixels than the raw12 file" % (x["dims"],))
            except ljpeg.Crash as e:
                r.fail("sanitizer", "%s: %s" % (f, e))
            except ljpeg.Bad as e:
                r.fail("file", "%s: %s" % (f, e))
            r.count("files")
            r.count("samples", len(px))
            r.ok((f,))
            r.sample("%s: %d pixels, %s" % (f, len(px), x["dims"]))
