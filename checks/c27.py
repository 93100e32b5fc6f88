"""The board's test program, main() of software/src/xilinx_test.cpp, against the simulated core and against recorded results."""
import os, re, random
import hw, model, gen, designs, streams, frames, bus, board
import c20, c21, c26

RULE = ("The program runs in a process of its own, built with AddressSanitizer and UndefinedBehaviorSanitizer, its device accesses "
        "answered here, its memory a file. sim: a 4096x3072 image and its reference file are given to it; the words it leaves in "
        "memory are moved by a model of the DMA engine through the simulated stream wrapper, its registers through the core's "
        "AXI-Lite port. rec: the engine leaves the start mark, a compressed file and the end mark, or something that differs from "
        "that in a drawn way, and what the program reports is compared with what is true. Distinct by file, image and difference.")
ASSUMPTIONS = ["char is unsigned, as on the board", "files of 256 bytes and more, images of 4096x3072",
               "the engine completes without errors"]
REQUIRED = {"sim_frames": 2, "sim_words": 2000000, "source_bytes": 50000000, "recorded": 24, "same": 4, "differ": 8, "odd_lengths": 5,
            "no_start": 1, "no_end": 1, "forced": 1, "late_end": 1, "refused": 3, "dumps": 60}
W, H = 4096, 3072
N = W * H


def jobs(tier, seed):
    q = tier == "quick"
    js = []
    for i in range(1 if q else 3):
        js.append({"name": "sim64-%d" % i, "fn": "sim", "k": "beta_fifo", "bits": 64, "n": 1, "weight": 50, "lo": i})
        js.append({"name": "sim32-%d" % i, "fn": "sim", "k": "beta_axis", "bits": 32, "n": 1, "weight": 50, "lo": i})
    for i in range(4 if q else 8):
        js.append({"name": "rec%d" % i, "fn": "rec", "bits": (64, 32)[i & 1], "n": 10 if q else 40, "weight": 20, "lo": i})
    return js


class Bad(Exception):
    pass


class Device:
    """the registers behind the two pages; go(sl) moves the data when both lengths are set"""

    def __init__(self, g, b, core, go):
        self.g, self.core, self.go = g, core, go
        self.e = c26.Engine(g)
        self.left = None
        b.read, b.write = self.read, self.write
        b.sleep = lambda us: None

    def read(self, a):
        if not board.DMA <= a < board.DMA + 0x10000:
            return self.core.read(a)
        if len(self.e.log) == 2 and self.go:
            go, self.go = self.go, None
            go(self.e.log)
        return self.e.read(a)

    def write(self, a, v):
        if not board.DMA <= a < board.DMA + 0x10000:
            return self.core.write(a, v)
        self.e.write(a, v)


class FakeCore:
    """the registers a program may use, as memory"""

    def __init__(self):
        self.m = {frames.HW_REG: 0, frames.AC_REG: 0}
        for i, (c, n) in enumerate(model.STD_TABLE[:13]):
            v = n << 28 | c << i
            self.m[frames.SSSS_REG + 8 * i] = v & 0xFFFFFFFF
            self.m[frames.SSSS_REG + 8 * i + 4] = v >> 32
        for i in range(8):
            self.m[frames.DEBUG_REG + 4 * i] = 1000 + i

    def read(self, a):
        o = a - board.CORE
        if o not in self.m:
            raise Bad("register %x is read" % o)
        return self.m[o]

    def write(self, a, v):
        o = a - board.CORE
        if o not in (frames.HW_REG, frames.AC_REG):
            raise Bad("register %x is written" % o)
        self.m[o] = v


def packed(row):
    """raw12: big-endian pairs"""
    out = bytearray()
    for i in range(0, len(row), 2):
        a, b = row[i], row[i + 1]
        out += bytes((a >> 4, (a & 15) << 4 | b >> 8, b & 255))
    return bytes(out)


def layout(row, bits):
    out = []
    if bits == 64:
        for i in range(0, len(row), 4):
            a, b, c, d = row[i:i + 4]
            out.append((a << 52 | b << 40 | c << 28 | d << 16).to_bytes(8, "little"))
    else:
        for i in range(0, len(row), 2):
            out.append((row[i] << 20 | row[i + 1] << 8).to_bytes(4, "little"))
    return b"".join(out)


def swapped(d):
    d = bytearray(d)
    if len(d) & 1:
        d.append(0)
    d[::2], d[1::2] = d[1::2], d[::2]
    return bytes(d)


def dump(d):
    return "".join("%02x" % x + (" " if i % 4 == 3 else "") for i, x in enumerate(d))


class Run:
    def __init__(self, b):
        self.b, self.d = b, b.d
        self.mem = open(b.mem, "r+b")

    def put(self, addr, data):
        self.mem.seek(addr)
        self.mem.write(data)
        self.mem.flush()

    def get(self, addr, n):
        self.mem.seek(addr)
        return self.mem.read(n)

    def file(self, name, chunks):
        p = os.path.join(self.d, name)
        with open(p, "wb") as f:
            for c in chunks:
                f.write(c)
        return p

    def main(self, raw, lj):
        """the lines the program printed"""
        b = self.b
        b.stop()
        try:
            st = b.call("main", raw, lj)
        except board.Exited as e:
            st = e.args[0]
        out = b.output().splitlines()
        if b.odd:
            raise Bad(b.odd[0])
        for a in b.maps:
            if a not in ((board.SRC, 0x2000000), (board.DST, 0x2000000)):
                raise Bad("the program maps %x bytes at %x" % (a[1], a[0]))
        return st, out


def transfers(log, bits, size):
    l = dict((c, (a, n)) for c, a, n in log)
    if l.get(0) != (board.SRC, 2 * N):
        raise Bad("the engine is asked to read %s" % (l.get(0),))
    a, n = l.get(1, (0, 0))
    if a != board.DST or n < size + 34 or n > 0x2000000:
        raise Bad("the engine is asked to write %d bytes to %x, the file has %d" % (n, a, size))


def source(x, rows, bits, r):
    """the pixels in memory, row by row"""
    a = board.SRC
    for y, row in enumerate(rows):
        want = layout(row, bits)
        if x.get(a, len(want)) != want:
            got = x.get(a, len(want))
            i = next(i for i in range(len(want)) if got[i] != want[i]) * 8 // bits
            raise Bad("row %d: word %d in memory is %s, expected %s" % (
                y, i, got[i * bits // 8:][:bits // 8][::-1].hex(), want[i * bits // 8:][:bits // 8][::-1].hex()))
        a += len(want)
        r.count("source_bytes", len(want))


def has(out, s):
    return any(s in l for l in out)


def verdict(out):
    """(start found, end kind, where validation failed)"""
    seq = [l for l in out if "marker found" in l]
    if len(seq) != 2:
        raise Bad("%d reports on markers: %s" % (len(seq), seq))
    start = seq[0].startswith("marker found")
    end = seq[1].split(" marker")[0]
    off = re.search(r"offset is (\d+)", seq[1])
    val = [l for l in out if l.startswith("Validation ")]
    if len(val) != 1:
        raise Bad("%d verdicts: %s" % (len(val), val))
    m = re.match(r"Validation failed at (word|byte): (\d+)", val[0])
    return start, end, int(off.group(1)) if off else None, (m.group(1), int(m.group(2))) if m else None


def dumps(r, out, ref, got, size):
    """the four dumps before the checks"""
    want = [("Dump first 256Bytes of LJ92 file", ref[:256]), ("Dump first 256Bytes of core", got[:256]),
            ("Dump last 256Bytes of LJ92 file", ref[size - 256:size]), ("Dump last 256Bytes of core", got[size - 240:size + 16])]
    for t, d in want:
        i = next((i for i, l in enumerate(out) if l.startswith(t)), None)
        if i is None or out[i + 1].strip() != dump(d).strip():
            raise Bad("%s: not what is there" % t)
        r.count("dumps")


def rec(r, job):
    bits = job["bits"]
    b = board.Board(tool=True, input_length=bits, extra=["-funsigned-char"])
    x = Run(b)
    g0 = random.Random("%s/%s" % (job["seed"], job["name"]))
    rows = [[g0.getrandbits(12) for _ in range(W)] for _ in range(8)]
    raw = x.file("raw", (packed(rows[y % 7 if y != H - 1 else 7]) for y in range(H)))
    for c in r.cases():
        g = r.rng(c)
        n = g.choice((256, 257, 258, 259, g.randint(256, 5000), g.randint(256, 300000)))
        data = bytearray(g.getrandbits(8 * n).to_bytes(n, "little"))
        for i in range(n - 1):
            # no marks in a stuffed file
            if data[i] == 255:
                data[i + 1] = 0
        if data[-1] == 255:
            data[-1] = 0
        lj = x.file("lj92", [bytes(data)])
        ref = swapped(data)
        kind = (job.get("lo", 0) + c) % 10
        start, end, pad, body = b"\xff" * 16, b"\xff" * 16, b"", bytearray(ref)
        exp_end, diff, note = "normal", None, "right"
        if kind in (1, 2, 3, 4):
            # one to three bytes of the file
            note = "bytes"
            pick = (lambda: g.randrange(n), lambda: n - 1 - g.randrange(12), lambda: g.randrange(12), lambda: n - 1)[kind - 1]
            for _ in range(g.choice((1, 1, 3)) if kind != 4 else 1):
                body[pick() ^ 1] ^= g.randint(1, 255) if g.random() < .7 else 1 << g.randrange(8)
        elif kind == 5:
            note = "start"
            start = bytearray(start)
            start[g.randrange(16)] ^= 1 << g.randrange(8)
        elif kind == 6:
            note = "end"
            end = g.choice((b"\0" * 16, b"\xff" * g.randint(1, 15), b""))
            exp_end = "No"
        elif kind == 7:
            note = "forced"
            end = b"\xfe\xff" * 8
            exp_end = "force"
        elif kind == 8:
            note = "late"
            pad = bytes(2 * g.randint(1, 50))
        elif kind == 9:
            note = "cut"
            k = 2 * g.randrange(n // 2 - 20)
            body[k:] = b"\xfe\xff" * 8 + bytes(len(body) - k - 16)
            end, exp_end = b"", "No"
        if body != ref:
            diff = next(i for i in range(len(ref)) if body[i] != ref[i])
        got = bytes(start) + bytes(body) + pad + bytes(end)
        log = []

        def go(l):
            transfers(l, bits, n)
            if x.get(board.DST, 0x100000).strip(b"\0"):
                raise Bad("what was in memory before is still there")
            x.put(board.DST, got)

        try:
            # something of an earlier run in the memory
            x.put(board.DST, bytes(g.getrandbits(8) for _ in range(4096)) + got[:n // 2])
            if c % 5 == 0:
                core = FakeCore()
                Device(g, b, core, go)
                bad = g.choice((("short", lj), (raw, "missing"), ("missing", lj), (raw, "empty"), (raw,), ("dir", lj), (raw, "dir")))
                x.file("short", [bytes(N * 3 // 2 - g.randint(1, 5000))])
                x.file("empty", [])
                os.makedirs(os.path.join(x.d, "dir"), exist_ok=True)
                st, out = x.main(*[os.path.join(x.d, p) for p in bad] + [""] * (2 - len(bad)))
                if st == 0 or has(out, "Validation succeeded"):
                    raise Bad("run on %s: status %d" % (bad, st))
                r.count("refused")
            core = FakeCore()
            dev = Device(g, b, core, go)
            st, out = x.main(raw, lj)
            if st:
                raise Bad("the program ends with status %d: %s" % (st, out[-1:]))
            if dev.go:
                raise Bad("no transfer was started")
            if dev.e.left != [None, None]:
                raise Bad("the program ends while a transfer goes on")
            if core.m[frames.HW_REG] != W << 16 | H or core.m[frames.AC_REG] != 0xFFFFFF:
                raise Bad("size and budget are set to %x, %x" % (core.m[frames.HW_REG], core.m[frames.AC_REG]))
            if c == 0:
                source(x, (rows[y % 7 if y != H - 1 else 7] for y in range(H)), bits, r)
            s, e, off, v = verdict(out)
            dumps(r, out, ref, got + bytes(4096), n)
            if s != (note != "start"):
                raise Bad("start mark %s, the program says %s" % ("missing" if s else "there", "found" if s else "not found"))
            if (exp_end, e) == ("force", "No"):
                r.fail("forced mark not recognized", "file of %d bytes that ends with the forced mark: reported as no mark" % n, stop=False)
            elif e != exp_end:
                raise Bad("the end mark is %s, the program says %s" % (exp_end, e))
            if e != "No" and off != len(pad) + (n & 1):
                raise Bad("the end mark is %d bytes after the file, the program says %d" % (len(pad) + (n & 1), off))
            if v is None and n & 1 and diff == n:
                # the only difference is the last byte of an odd file
                r.fail("last byte of an odd file", "file of %d bytes, result differs in the last one only: reported as a success" % n, stop=False)
            elif (v is None) != (diff is None):
                raise Bad("%s, the program says %s" % ("the file differs first in byte %s of %d" % (diff, n) if diff is not None else
                                                       "the file is the same", "failed at %s %d" % v if v else "succeeded"))
            elif v and v != ("word", diff // 4) and v != ("byte", diff):
                raise Bad("the file differs first in byte %d, the program says %s %d" % ((diff,) + v))
            dbg = [l for l in out if re.match(r"\w+=[01] : \d+$", l)]
            if len(dbg) != 8 or len([l for l in out if "SSSS_CODE" in l]) != 13:
                raise Bad("%d counters and %d classes listed" % (len(dbg), len([l for l in out if "SSSS_CODE" in l])))
            r.count("same" if diff is None else "differ")
            r.count({"start": "no_start", "end": "no_end", "forced": "forced", "late": "late_end"}.get(note, "others"))
            r.count("odd_lengths", n & 1)
            r.count("recorded")
        except board.Crash as e:
            r.fail("sanitizer", "file of %d bytes, %s: %s" % (n, note, e))
        except (Bad, c26.Bad) as e:
            r.fail("report", "file of %d bytes, %s: %s" % (n, note, e), {"size": n, "kind": note, "diff": diff})
        r.ok((bits, c, n, note, diff))
        r.sample("%d bits, file of %d bytes, %s%s" % (bits, n, note, "" if diff is None else ", differs in byte %d" % diff))
        if r.enough:
            break
    r.count("accesses", b.accesses)
    b.stop()


class RtlCore:
    def __init__(self, s, g):
        self.link = c26.Bus(s, g)

    def read(self, a):
        return self.link.read(a - board.CORE)

    def write(self, a, v):
        self.link.write(a - board.CORE, v)


def sim(r, job):
    k, bits = job["k"], job["bits"]
    s = hw.build(designs.product(k, patch=False, override={"support_axi_lite": True, "axi_lite_debug": True}))
    b = board.Board(tool=True, input_length=bits, extra=["-funsigned-char"])
    x = Run(b)
    iv, id, ib, onr, ov, od, oe = [s.idx(n) for n in ("p_s_tvalid", "p_s_tdata", "p_m_tready", "q_s_tready", "q_m_tvalid", "q_m_tdata", "q_m_tlast")]
    for c in r.cases():
        g = r.rng(c)
        key = "%s/%s" % (job["seed"], job["name"])
        content = g.choice(("sensor", "extremes", "flat"))
        raw = x.file("raw", (packed(row) for row in c21.rows(content, key)))
        words = []
        for w in c21.expected(content, key):
            words += w
        lj = x.file("lj92", [b"".join(w.to_bytes(2, "big") for w in words)])
        size = 2 * len(words)
        s.reset()
        s.set("p_s_tvalid", 0)
        s.set("p_m_tready", 0)
        state = {}

        def go(log):
            transfers(log, bits, size)
            lim = dict((ch, n) for ch, _, n in log)[1]
            step = bits // 8
            src = x.get(board.SRC, 2 * N)
            out = bytearray()
            io, ev, tick = s.io, s.lib.sim_eval, s.lib.sim_tick
            i = idle = cycles = pause = 0
            io[ib] = 1
            while idle < 300 and len(out) < lim + 4096:
                # the engine pauses between bursts
                if pause == 0 and i < 2 * N:
                    io[iv] = 1
                    io[id] = int.from_bytes(src[i:i + step], "little")
                else:
                    io[iv] = 0
                    if pause:
                        pause -= 1
                ev()
                idle += 1
                if io[iv] and io[onr]:
                    idle = 0
                    i += step
                    if not i & 0xFFFF:
                        pause = g.randint(0, 20)
                if io[ov]:
                    idle = 0
                    out += io[od].to_bytes(2, "little")
                    if io[oe]:
                        tick()
                        cycles += 1
                        break
                tick()
                cycles += 1
            else:
                raise Bad("the stream %s after %d bytes in, %d out" % ("stands still" if idle >= 300 else "goes on", i, len(out)))
            io[iv] = io[ib] = 0
            s.cycles += cycles
            if i != 2 * N or len(out) > lim:
                raise Bad("%d of %d bytes taken, %d of at most %d given" % (i, 2 * N, len(out), lim))
            x.put(board.DST, out)
            state["out"] = out
            r.count("sim_words", len(out) // 2)

        try:
            Device(g, b, RtlCore(s, g), go)
            st, out = x.main(raw, lj)
            if st or "out" not in state:
                raise Bad("status %d, last line %s" % (st, out[-1:]))
            source(x, c21.rows(content, key), bits, r)
            v = verdict(out)
            if v != (True, "normal", 0, None):
                raise Bad("a right result is reported as start %s, end %s (%s), failed %s" % v)
            with open(lj, "rb") as f:
                dumps(r, out, swapped(f.read()), bytes(state["out"]) + bytes(300), size)
            if not has(out, "width: %d" % W) or not has(out, "height: %d" % H):
                raise Bad("the size is not reported")
            r.count("sim_frames")
        except board.Crash as e:
            r.fail("sanitizer", "%s %s: %s" % (k, content, e))
        except (Bad, c26.Bad) as e:
            r.fail("simulated board", "%s %s: %s" % (k, content, e))
        r.ok((k, content, key))
        r.sample("%s, %s: %d bytes" % (k, content, size))
        if r.enough:
            break
    r.count("cycles", s.cycles)
    b.stop()
