"""liblj92: what it encodes is standard, and it decodes back to the image."""
import random
import ljpeg, gen

RULE = ("A case is one image, with bit depth, size, tile stride and table drawn, encoded by liblj92 (built with AddressSanitizer and "
        "UndefinedBehaviorSanitizer, buffers of exact size). The bytes are parsed and decoded by an independent strict T.81 decoder, and "
        "by liblj92 into a tile with drawn stride; both must give the image, cells between tiles stay untouched. In some "
        "cases one allocation fails, which must give the out-of-memory status and leak nothing. Distinct by size, depth, contents and strides.")
ASSUMPTIONS = ["samples fit the bit depth (after the table, if one is given)", "width*height*3+200 fits an int"]
REQUIRED = {"images": 1500, "samples": 100000, "one_row": 100, "strided": 300, "delinearized": 150, "linearized": 150,
            "class16": 30, "ff_bytes": 3000, "failed_allocations": 300, "single_class": 50, "mapping_too_short": 100,
            "bulky": 60, "skewed": 40, "tall": 20, "wide": 100}


def jobs(tier, seed):
    q = tier == "quick"
    js = [{"name": "round%d" % i, "fn": "rounds", "n": 2500 if q else 10000} for i in range(8 if q else 24)]
    js += [{"name": "alloc%d" % i, "fn": "alloc", "n": 300 if q else 1000} for i in range(2 if q else 8)]
    return js


def size(g):
    k = g.random()
    if k < .12:
        return g.randint(1, 60), 1
    if k < .22:
        return 1, g.randint(1, 60)
    if k < .3:
        return g.randint(1, 4), g.randint(1, 4)
    if k < .32:
        return g.choice((255, 256, 257, 4096)), g.randint(1, 3)
    if k < .33:
        return vast(g)
    return g.randint(1, 24), g.randint(1, 12)


def vast(g):
    """sides up to the most the header can say"""
    s = g.choice((255, 256, 32767, 32768, 65535, g.randint(256, 65535), 1 << g.randint(8, 15))), g.randint(1, 2)
    return s if g.random() < .5 else s[::-1]


def image(g, w, h, bd):
    m = (1 << bd) - 1
    k = g.randrange(8)
    n = w * h
    if k == 0:
        v = g.choice((0, m, 1 << bd - 1, g.randint(0, m)))
        return [v] * n
    if k == 1:
        return [g.randint(0, m) for _ in range(n)]
    if k == 2:
        return [g.choice((0, m)) for _ in range(n)]
    if k == 3:
        v, out, s = g.randint(0, m), [], g.choice((1, 2, 5, 30))
        for _ in range(n):
            v = min(m, max(0, v + g.randint(-s, s)))
            out.append(v)
        return out
    if k == 4:
        # every class of difference, in a row
        v, out = 1 << bd - 1, []
        for i in range(n):
            c = g.randint(0, bd)
            d = g.choice(((1 << c) - 1, 1 << c >> 1, g.getrandbits(c) if c else 0)) * g.choice((1, -1))
            v = (v + d) & m
            out.append(v)
        return out
    if k == 5:
        # differences of ones: lots of 0xFF bytes
        v, out, d = 1 << bd - 1, [], (1 << g.randint(1, bd)) - 1
        for _ in range(n):
            v = (v + d) & m
            out.append(v)
        return out
    if k == 6:
        # what predictor 6 turns into 0, +32768 or the extremes
        out = []
        for i in range(n):
            y, x = divmod(i, w)
            if y == 0:
                p = out[-1] if x else 1 << bd - 1
            elif x == 0:
                p = out[i - w]
            else:
                p = out[i - w] + ((out[i - 1] - out[i - w - 1]) >> 1)
            out.append((p + g.choice((0, 0, 1 << bd - 1, (1 << bd - 1) - 1, 1))) & m)
        return out
    a, b = g.randint(0, m), g.randint(0, m)
    return [a if (i // w + i % w) & 1 else b for i in range(n)]


def bulky(g):
    """a row whose code is as long as can be: the highest classes, all bits set, in shares that get them long codes"""
    top = g.choice((15, 15, 15, 14, 13))
    classes = [top - i for i in range(g.choice((2, 3, 4, 4, 4, 5, 8)))]
    low = classes[-1]
    k = g.random()
    wt = {c: g.random() for c in classes} if k < .3 else {c: 1 for c in classes}
    n = g.randint(300, 4000)
    seq = g.choices([c for c in classes if c != low or k < .5], [wt[c] for c in classes if c != low or k < .5], k=n)
    if k >= .5:
        seq[g.randrange(n)] = low
    v, out = 1 << 15, []
    for c in seq:
        v = (v + (1 << c) - 1) & 0xFFFF
        out.append(v)
    return out


def skewed(g):
    """classes in shares that get the rarest of them the longest codes there can be, in any order"""
    cl = list(range(17))
    if g.random() < .7:
        g.shuffle(cl)
    if g.random() < .3:
        cl = cl[:g.randint(12, 16)]
    f = [1, g.choice((1, 1, 2))]
    while len(f) < len(cl):
        f.append(f[-1] + f[-2] + (g.random() < .05))
    seq = [c for c, n in zip(cl, f) for _ in range(n)]
    g.shuffle(seq)
    v, out = 1 << 15, []
    for c in seq:
        d = g.getrandbits(c - 1) + (1 << c - 1) if 0 < c < 16 else 32768 if c else 0
        v = (v + g.choice((-1, 1)) * d) & 0xFFFF
        out.append(v)
    return out


def tiled(px, l, s, g):
    """the samples as a tile: l values, then s foreign ones"""
    out = []
    for i in range(0, len(px), l):
        if i:
            out += [g.getrandbits(16) for _ in range(s)]
        out += px[i:i + l]
    return out


def untile(out, n, l, s):
    """(samples, whether all gaps are untouched)"""
    px, ok, i = [], True, 0
    while len(px) < n:
        k = min(l, n - len(px))
        px += out[i:i + k]
        i += k
        if len(px) < n:
            ok = ok and all(x == 0xA5A5 for x in out[i:i + s])
            i += s
    return px, ok


def rounds(r, job):
    lib = ljpeg.Lib()
    for c in r.cases():
        g = r.rng(c)
        bd = g.choice((2, 8, 10, 12, 14, 16, 16, g.randint(2, 16)))
        w, h = size(g)
        big = g.random() < .08
        long = not big and g.random() < .04
        if big or long:
            px, bd, h = bulky(g) if big else skewed(g), 16, 1
            w = len(px)
        else:
            px = image(g, w, h, bd)
        n = w * h
        delin = lin = None
        raw = px
        if g.random() < .15 and not big and not long:
            # values of another scale, mapped to these before encoding
            nd = g.choice((1 << bd, 1 << min(bd, 10), 300, 65536))
            delin = [g.getrandbits(bd) for _ in range(nd)]
            raw = [g.randrange(nd) for _ in range(n)]
            px = [delin[v] for v in raw]
        rl, sl = (w, 0) if g.random() < .6 else (g.choice((w, 1, 2, w * 2, g.randint(1, n), n)), g.choice((0, 1, 7)))
        tag = "%dx%d %d bits, read %d skip %d%s" % (w, h, bd, rl, sl, ", mapped" if delin else "")
        try:
            if delin and max(raw):
                k = g.choice((max(raw), g.randint(1, max(raw))))
                e = lib.encode(tiled(raw, rl, sl, g), w, h, bd, rl, sl, delin[:k])
                r.count("mapping_too_short")
                if e[0] != -4 or e[2]["live"]:
                    raise ljpeg.Bad("a table of %d entries with values up to %d gives status %d, %d leaked" % (
                        k, max(raw), e[0], e[2]["live"]))
            st, enc, info = lib.encode(tiled(raw, rl, sl, g), w, h, bd, rl, sl, delin)
            if st != 0:
                raise ljpeg.Bad("encoding gives status %d" % st)
            if info["live"]:
                raise ljpeg.Bad("%d allocations leaked by encoding" % info["live"])
            if info["changed"]:
                raise ljpeg.Bad("encoding changes the image")
            p = ljpeg.parse(enc)
            dims = ljpeg.decode(enc)
            if dims[:4] != (w, h, bd, 1):
                raise ljpeg.Bad("the file says %s" % (dims[:4],))
            if dims[4] != px:
                i = [a == b for a, b in zip(dims[4], px)].index(False)
                raise ljpeg.Bad("standard decoding: sample %d is %d, was %d" % (i, dims[4][i], px[i]))
            wl, ws = (0, 0) if g.random() < .5 else (g.choice((w, 1, 3, g.randint(1, n), n)), g.choice((0, 1, 9)))
            if g.random() < .15:
                lin = [g.getrandbits(16) for _ in range(g.choice((max(px) + 1, 1 << bd)))]
            times = g.choice((1, 1, 2))
            d = lib.decode(enc, wl, ws, lin, times=times)
            if d["open"] or d["decode"]:
                raise ljpeg.Bad("decoding gives status %d, %d" % (d["open"], d["decode"]))
            if d["dims"] != (w, h, bd, 1) or d["live"] or d["changed"]:
                raise ljpeg.Bad("decoding: dimensions %s, %d leaked, input changed %d" % (d["dims"], d["live"], d["changed"]))
            got, gaps = untile(list(d["out"]), n, wl or w, ws)
            want = [lin[v] for v in px] if lin else px
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False)
                raise ljpeg.Bad("decoding with rows of %d, skip %d%s: sample %d is %d, should be %d" % (
                    wl, ws, ", table" if lin else "", i, got[i], want[i]))
            if not gaps:
                raise ljpeg.Bad("decoding with rows of %d, skip %d writes between the rows" % (wl, ws))
            ds = ljpeg.diffs(px, w, h, 1, bd, 6)
            r.count("bulky", big)
            r.count("skewed", long)
            if len(enc) > 3 * n + 200:
                r.count("over_3_bytes_per_sample")
            r.count("class16", 32768 in ds)
            r.count("single_class", len(p[6]) == 1)
            r.count("ff_bytes", p[7].count(b"\xff"))
            r.count("linearized", lin is not None)
            r.count("strided", rl != w or sl != 0 or ws != 0)
        except ljpeg.Crash as e:
            r.fail("sanitizer", "%s: %s" % (tag, e), {"image": raw[:200]})
        except (ljpeg.Bad, IndexError) as e:
            r.fail("round trip", "%s: %s" % (tag, e), {"image": raw[:200], "delin": delin[:50] if delin else None})
        r.count("images")
        r.count("samples", n)
        r.count("one_row", h == 1)
        r.count("tall", h > 255)
        r.count("wide", w > 255 and not big and not long)
        r.count("delinearized", delin is not None)
        r.ok((w, h, bd, rl, sl, hash(tuple(px))))
        r.sample(tag)
        if r.enough:
            break


def alloc(r, job):
    """each allocation of encoding, opening and decoding fails once"""
    lib = ljpeg.Lib()
    for c in r.cases():
        g = r.rng(c)
        w, h, bd = g.randint(1, 10), g.randint(1, 6), g.randint(2, 16)
        px = image(g, w, h, bd)
        tag = "%dx%d %d bits" % (w, h, bd)
        try:
            st, enc, info = lib.encode(px, w, h, bd)
            for k in range(1, info["calls"] + 2):
                s2, e2, i2 = lib.encode(px, w, h, bd, fail=k)
                if i2["failed"]:
                    r.count("failed_allocations")
                # giving back the unused rest may fail without harm
                if not (s2 == (-2 if i2["failed"] else 0) or s2 == 0 and e2 == enc):
                    raise ljpeg.Bad("encoding with allocation %d failing gives status %d" % (k, s2))
                if i2["live"]:
                    raise ljpeg.Bad("encoding with allocation %d failing leaks %d" % (k, i2["live"]))
            d = lib.decode(enc)
            for k in range(1, d["calls"] + 2):
                d2 = lib.decode(enc, fail=k)
                if d2["failed"]:
                    r.count("failed_allocations")
                st = d2["open"] or d2["decode"]
                if st != (-2 if d2["failed"] else 0) or d2["live"]:
                    raise ljpeg.Bad("decoding with allocation %d failing: status %d, %d leaked" % (k, st, d2["live"]))
        except ljpeg.Crash as e:
            r.fail("sanitizer", "%s, failing allocation: %s" % (tag, e))
        except ljpeg.Bad as e:
            r.fail("allocation", "%s: %s" % (tag, e))
        r.ok((w, h, bd, hash(tuple(px))))
        if r.enough:
            break
