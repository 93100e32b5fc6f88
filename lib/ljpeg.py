"""Lossless JPEG (ITU T.81, process 14): encoder and decoder of our own, and
the client of the sanitized driver around liblj92."""
import os, struct, subprocess, tempfile, shutil, atexit, sys
from model import stuff

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
RENAME = ["-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc", "-Dfree=vp_free"]


class BuildError(Exception):
    pass


def cc(args):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s: %s" % (" ".join(args), p.stdout.decode()[-1500:]))


def build_driver(d, fuzz=False, san=True):
    lib = os.path.join(REPO, "liblj92")
    exe = os.path.join(d, "fuzz" if fuzz else "drv")
    flags = (SAN if san else ["-g", "-O2"]) + ["-I" + lib, "-w"]
    if fuzz:
        flags = flags + ["-fsanitize=fuzzer-no-link"]
    cc(["clang-18"] + flags + RENAME + ["-include", "stdlib.h", "-c", os.path.join(lib, "lj92.c"), "-o", os.path.join(d, "lj92.o")])
    src = os.path.join(HERE, "c", "lj92_fuzz.c" if fuzz else "lj92_drv.c")
    if fuzz:
        flags = flags + ["-fsanitize=fuzzer"]
    cc(["clang-18"] + flags + [src, os.path.join(d, "lj92.o"), "-o", exe])
    return exe


class Crash(Exception):
    pass


class Lib:
    """liblj92 in a process of its own; a crash there is an exception here"""

    def __init__(self, san=True):
        self.d = tempfile.mkdtemp(prefix="lj")
        atexit.register(shutil.rmtree, self.d, True)
        self.exe = build_driver(self.d, san=san)
        self.p = None
        self.errf = os.path.join(self.d, "err")

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:max_malloc_fill_size=0",
                   UBSAN_OPTIONS="print_stacktrace=1")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.errf, "wb"), env=env)

    def get(self, n):
        b = self.p.stdout.read(n)
        if len(b) < n:
            rc = self.p.wait()
            if rc == -27:
                self.p = None
                raise Crash("no end after 60 seconds of processor time")
            t = open(self.errf, errors="replace").read()
            lines = [l for l in t.splitlines() if "ERROR" in l or "runtime error" in l or " #" in l and "lj92" in l]
            self.p = None
            raise Crash(" | ".join(x.strip() for x in lines[:5])[:900] or "the process died")
        return b

    def ints(self, n):
        return struct.unpack("<%di" % n, self.get(4 * n))

    def send(self, b):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(b)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def encode(self, img, w, h, bd, rl=None, sl=0, delin=None, fail=-1):
        """(status, bytes, info)"""
        dn = len(delin) if delin else 0
        self.send(struct.pack("<8iI", ord("E"), w, h, bd, w if rl is None else rl, sl, dn, fail, len(img)) +
                  struct.pack("<%dH" % len(img), *img) + (struct.pack("<%dH" % dn, *delin) if dn else b""))
        ret, failed, calls, changed, live, n = self.ints(6)
        return ret, self.get(n) if n else b"", {"failed": failed, "calls": calls, "changed": changed, "live": live}

    def decode(self, data, wl=0, sl=0, lin=None, fail=-1, limit=1 << 22, times=1):
        ln = len(lin) if lin else 0
        self.send(struct.pack("<8i", ord("D"), wl, sl, ln, fail, limit, times, len(data)) + bytes(data) +
                  (struct.pack("<%dH" % ln, *lin) if ln else b""))
        ret, w, h, bd, c, dret, failed, calls, live, changed, cells = self.ints(11)
        t = struct.unpack("<%dH" % cells, self.get(2 * cells)) if cells else ()
        return {"open": ret, "dims": (w, h, bd, c), "decode": dret, "failed": failed, "calls": calls,
                "live": live, "changed": changed, "out": t}


# ---- the standard ------------------------------------------------------------

def predict(pred, ra, rb, rc):
    return (0, ra, rb, rc, ra + rb - rc, ra + ((rb - rc) >> 1), rb + ((ra - rc) >> 1), (ra + rb) >> 1)[pred]


def diffs(px, w, h, comps, bd, pred):
    """px: samples interleaved; differences modulo 2^16 in -32767..32768"""
    out = []
    s = w * comps
    for i, p in enumerate(px):
        y, x = divmod(i, s)
        if y == 0:
            q = px[i - comps] if x >= comps else 1 << bd - 1
        elif x < comps:
            q = px[i - s]
        else:
            q = predict(pred, px[i - comps], px[i - s], px[i - s - comps])
        d = (p - q) & 0xFFFF
        out.append(d - 0x10000 if d > 0x8000 else d)
    return out


def canonical(bits, vals):
    """{symbol: (code, length)}"""
    t, c, k = {}, 0, 0
    for n in range(1, 17):
        for _ in range(bits[n - 1]):
            t[vals[k]] = (c, n)
            c += 1
            k += 1
        c <<= 1
    return t


def random_table(g, used, extra=True):
    """(bits, vals): any valid table that has a code for every symbol in used"""
    syms = sorted(used)
    if extra:
        syms = sorted(set(syms) | {s for s in range(17) if g.random() < .5})
    g.shuffle(syms)
    n = len(syms)
    while True:
        # split leaves of the code tree until there are enough; one leaf stays
        # unused, so that no code is all ones
        leaves = [0]
        bias = g.choice((0, .5, 1))
        while len(leaves) < n + 1:
            c = [i for i, d in enumerate(leaves) if d < 16]
            i = max(c, key=lambda i: leaves[i]) if g.random() < bias else g.choice(c)
            d = leaves.pop(i)
            leaves += [d + 1, d + 1]
        leaves.sort()
        leaves.pop()
        bits = [leaves.count(k) for k in range(1, 17)]
        if bits.count(0) < 16:
            break
    return bits, syms


def bits_of(ds, table):
    v, n, out = 0, 0, bytearray()
    for d in ds:
        s = abs(d).bit_length()
        c, k = table[s]
        v, n = v << k | c, n + k
        if 0 < s < 16:
            v, n = v << s | (d if d > 0 else d + (1 << s) - 1), n + s
        while n >= 8:
            n -= 8
            out.append(v >> n)
            v &= (1 << n) - 1
    if n:
        out.append((v << 8 - n) & 255 | ((1 << 8 - n) - 1 if PAD else 0))
    return bytes(out)


PAD = 0


def seg(marker, body):
    return bytes([0xFF, marker]) + struct.pack(">H", len(body) + 2) + body


def header(w, h, bd, comps, pred, bits, vals, extras=(), order=0, th=0, ids=None):
    """SOI to SOS; extras: segments to spread between the others"""
    ids = ids or list(range(comps))
    dht = seg(0xC4, bytes([th]) + bytes(bits) + bytes(vals))
    sof = seg(0xC3, struct.pack(">BHHB", bd, h, w, comps) + b"".join(bytes([i, 0x11, 0]) for i in ids))
    sos = seg(0xDA, bytes([comps]) + b"".join(bytes([i, th << 4]) for i in ids) + bytes([pred, 0, 0]))
    mid = [dht, sof] if order == 0 else [sof, dht]
    e = list(extras) + [b"", b"", b""]
    return b"\xff\xd8" + e[0] + mid[0] + e[1] + mid[1] + e[2] + sos


def encode(px, w, h, bd, comps, pred, bits, vals, **k):
    t = canonical(bits, vals)
    return header(w, h, bd, comps, pred, bits, vals, **k) + stuff(bits_of(diffs(px, w, h, comps, bd, pred), t)) + b"\xff\xd9"


class Bad(Exception):
    pass


def parse(data):
    """strict reader of the subset: (w, h, bd, comps, pred, table bits, vals, scan)"""
    if data[:2] != b"\xff\xd8" or data[-2:] != b"\xff\xd9":
        raise Bad("SOI or EOI missing")
    i, sof, dht = 2, None, None
    while True:
        if data[i] != 0xFF:
            raise Bad("no marker at byte %d" % i)
        m, n = data[i + 1], struct.unpack(">H", data[i + 2:i + 4])[0]
        b = data[i + 4:i + 2 + n]
        i += 2 + n
        if m == 0xC4:
            if len(b) != 17 + sum(b[1:17]):
                raise Bad("DHT length %d with %d codes" % (n, sum(b[1:17])))
            if b[0] >> 4 or b[0] & 15 > 3:
                raise Bad("DHT class")
            dht = (list(b[1:17]), list(b[17:]))
        elif m == 0xC3:
            bd, h, w, c = struct.unpack(">BHHB", b[:6])
            if len(b) != 6 + 3 * c:
                raise Bad("SOF length")
            sof = (w, h, bd, c)
        elif m == 0xDA:
            if len(b) != 4 + 2 * b[0]:
                raise Bad("SOS length")
            pred = b[1 + 2 * b[0]]
            break
        elif not (0xE0 <= m <= 0xEF or m == 0xFE):
            raise Bad("marker %02x" % m)
    if not sof or not dht:
        raise Bad("no frame or table")
    bits, vals = dht
    kraft = sum(c << 16 - k for k, c in enumerate(bits, 1))
    if kraft > (1 << 16) - 1:
        raise Bad("code lengths %s leave no room for the all-ones code" % bits)
    last = max((k for k, c in enumerate(bits, 1) if c), default=0)
    if not last:
        raise Bad("empty table")
    t = canonical(bits, vals)
    if len(t) != len(vals) or any(v > 16 for v in vals):
        raise Bad("symbols %s" % vals)
    if any(c == (1 << k) - 1 for c, k in t.values()):
        raise Bad("a code of ones only")
    return sof + (pred, bits, vals, data[i:-2])


def decode(data):
    """(w, h, bd, comps, samples); the whole scan must be used, padding under a byte"""
    w, h, bd, comps, pred, bits, vals, scan = parse(data)
    raw, i = bytearray(), 0
    while i < len(scan):
        b = scan[i]
        raw.append(b)
        i += 1
        if b == 0xFF:
            if i >= len(scan) or scan[i]:
                raise Bad("0xFF not followed by a zero byte at %d of the scan" % i)
            i += 1
    lut = {(k, c): s for s, (c, k) in canonical(bits, vals).items()}
    v = n = p = 0
    px = []
    s = w * comps
    for j in range(s * h):
        y, x = divmod(j, s)
        if y == 0:
            q = px[j - comps] if x >= comps else 1 << bd - 1
        elif x < comps:
            q = px[j - s]
        else:
            q = predict(pred, px[j - comps], px[j - s], px[j - s - comps])
        code = k = 0
        while (k, code) not in lut:
            if k == 16:
                raise Bad("no such code at sample %d" % j)
            if not n:
                if p == len(raw):
                    raise Bad("scan ends at sample %d" % j)
                v, n, p = raw[p], 8, p + 1
            n -= 1
            code = code << 1 | v >> n & 1
            k += 1
        z = lut[(k, code)]
        d = 32768 if z == 16 else 0
        if 0 < z < 16:
            for _ in range(z):
                if not n:
                    if p == len(raw):
                        raise Bad("scan ends at sample %d" % j)
                    v, n, p = raw[p], 8, p + 1
                n -= 1
                d = d << 1 | v >> n & 1
            if not d >> z - 1:
                d -= (1 << z) - 1
        px.append((q + d) & 0xFFFF)
    if p != len(raw):
        raise Bad("%d bytes follow the last sample" % (len(raw) - p))
    return w, h, bd, comps, px
