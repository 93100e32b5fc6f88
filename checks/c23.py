"""liblj92 decodes any standard stream of its kind, and tells when it cannot."""
import struct
import ljpeg, gen
from c22 import image, untile, vast

RULE = ("A case is a lossless JPEG written by an independent T.81 encoder: one to four components, predictor 1 to 7, 2 to 16 bits, any "
        "valid Huffman table, segments in any allowed order with comments, application data and fill bytes, decoded by liblj92 (sanitized, exact "
        "buffers) into tiles with drawn strides and through drawn tables. Then the same file cut off at drawn points, or with a value the "
        "library cannot handle: an error status and no handle, or the decode status. Distinct by header, contents and strides.")
ASSUMPTIONS = ["one scan with one Huffman table, no subsampling, no restart intervals, no point transform"]
REQUIRED = {"streams": 2000, "samples": 100000, "multi": 800, "max_predictors": 7, "class16": 60, "truncated": 2000, "narrow": 150,
            "long_codes": 300, "strided": 300, "linearized": 200, "bad_headers": 300, "interrupted": 2000, "tables_too_short": 100, "fill_bytes": 1000, "tall": 20, "wide": 20}


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "std%d" % i, "fn": "std", "n": 3000 if q else 12000} for i in range(8 if q else 24)]


def extras(g):
    out, fill = [], g.random() < .4
    for _ in range(3):
        s = b""
        while g.random() < .3:
            s += ljpeg.seg(g.choice((0xFE, 0xE0, 0xE1, 0xEE, 0xEF)), bytes(g.choice((0, 0xFF, 0xC4, 0xC3, 0xDA, g.getrandbits(8)))
                                                                          for _ in range(g.choice((0, 1, 2, 20, g.randint(0, 300))))))
            s += b"\xff" * (fill and g.choice((0, 0, 1, 2, 5)))
        out.append(s + b"\xff" * (fill and g.choice((0, 0, 0, 0, 1, 2, 3, 9))))     # fill bytes
    return out


def std(r, job):
    lib = ljpeg.Lib()
    preds = set()
    for c in r.cases():
        g = r.rng(c)
        bd, comps, pred = g.choice((2, 8, 12, 14, 16, 16, g.randint(2, 16))), g.choice((1, 1, 2, 3, 4, 4)), g.randint(1, 7)
        w, h = g.choice(((g.randint(1, 20), g.randint(1, 10)), (g.randint(1, 4), g.randint(1, 6)), (g.randint(1, 40), 1), (1, g.randint(1, 40))))
        if g.random() < .01:
            (w, h), comps = vast(g), g.choice((1, 2))
        px = image(g, w * comps, h, bd)
        n = len(px)
        ds = ljpeg.diffs(px, w, h, comps, bd, pred)
        used = {abs(d).bit_length() for d in ds}
        bits, vals = ljpeg.random_table(g, used)
        head = dict(extras=extras(g), order=g.randrange(2), th=g.choice((0, 0, 1, 2, 3)), ids=g.sample(range(256), comps))
        data = ljpeg.encode(px, w, h, bd, comps, pred, bits, vals, **head)
        tag = "%dx%d, %d components of %d bits, predictor %d, codes %s for %s" % (w, h, comps, bd, pred, bits, vals)
        preds.add(pred)
        try:
            row = w * comps
            wl, ws = (0, 0) if g.random() < .5 else (g.choice((row, 1, 3, g.randint(1, n), n)), g.choice((0, 1, 9)))
            lin = None
            if g.random() < .15:
                lin = [g.getrandbits(16) for _ in range(g.choice((max(px) + 1, 1 << bd)))]
            d = lib.decode(data, wl, ws, lin, times=g.choice((1, 1, 2)))
            if d["open"] or d["decode"]:
                raise ljpeg.Bad("status %d, %d" % (d["open"], d["decode"]))
            if d["dims"] != (w, h, bd, comps):
                raise ljpeg.Bad("dimensions %s" % (d["dims"],))
            if d["live"] or d["changed"]:
                raise ljpeg.Bad("%d allocations leaked, input changed %d" % (d["live"], d["changed"]))
            got, gaps = untile(list(d["out"]), n, wl or row, ws)
            want = [lin[v] for v in px] if lin else px
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False)
                raise ljpeg.Bad("rows of %d, skip %d%s: sample %d (row %d) is %d, should be %d" % (
                    wl, ws, ", table" if lin else "", i, i // row, got[i], want[i]))
            if not gaps:
                raise ljpeg.Bad("rows of %d, skip %d: writes between the rows" % (wl, ws))
            # a table that is too short for a sample
            if max(px) > 0:
                k = g.choice((max(px), g.randint(1, max(px))))
                e = lib.decode(data, wl, ws, [7] * k)
                r.count("tables_too_short")
                if e["open"] or e["decode"] == 0:
                    raise ljpeg.Bad("a table of %d entries with samples up to %d gives status %d" % (k, max(px), e["decode"]))
            # cut off anywhere
            for _ in range(3):
                k = g.choice((g.randint(0, len(data) - 1), len(data) - g.randint(1, 6)))
                e = lib.decode(data[:max(0, k)])
                r.count("truncated")
                got = list(e["out"])
                if e["open"] == 0 and e["decode"] == 0 and got != px:
                    raise ljpeg.Bad("cut to %d of %d bytes: status 0 and other samples" % (k, len(data)))
                if e["live"]:
                    raise ljpeg.Bad("cut to %d of %d bytes: %d allocations leaked" % (k, len(data), e["live"]))
            # any marker ends the scan
            hx = ljpeg.header(w, h, bd, comps, pred, bits, vals, **head)
            body = data[len(hx):]
            for _ in range(2):
                k = g.randrange(len(body) - 1)
                if k and body[k - 1] == 0xFF:
                    k += 1
                m = g.choice((1, 2, 15, 16, 0xC4, 0xD0, 0xD7, 0xD9, 0xFE, g.randint(1, 0xFE)))
                e = lib.decode(hx + body[:k] + bytes([0xFF, m]) + g.choice((body[k:], body[k + 2:], bytes(4))))
                r.count("interrupted")
                if e["open"] == 0 and e["decode"] == 0 and list(e["out"]) != px:
                    raise ljpeg.Bad("a marker %02x in byte %d of %d of the scan: status 0 and other samples" % (m, k, len(body)))
            # headers that ask for what is not there
            k = g.randrange(8)
            if k == 0:
                bad = b"\xff\xd8" + ljpeg.seg(0xC4, bytes([0]) + bytes(bits) + bytes(vals)) + hx[hx.rindex(b"\xff\xda"):] + body
            elif k == 1:
                sof = ljpeg.seg(0xC3, struct.pack(">BHHB", bd, h, w, comps) + bytes([1, 17, 0]) * comps)
                bad = b"\xff\xd8" + sof + hx[hx.rindex(b"\xff\xda"):] + body
            elif k == 2:
                bad = b"\xff\xd8\xff\xd9" + data
            elif k == 7:
                n = g.choice((0, 1, 5, 30))
                i = g.choice((2, hx.rindex(b"\xff\xda")))
                bad = hx[:i] + b"\xff\xd9" + struct.pack(">H", n + 2) + bytes(n) + hx[i:] + body
            elif k == 3:
                bad = ljpeg.header(w, h, g.choice((0, 1, 17, 255)), comps, pred, bits, vals) + body
            elif k == 4:
                bad = data[1:]
            elif k == 5:
                v2 = list(vals)
                v2[g.randrange(len(v2))] = g.choice((17, 32, 255))
                bad = ljpeg.header(w, h, bd, comps, pred, bits, v2) + body
            else:
                b2 = list(bits)
                b2[0] += 3
                bad = ljpeg.header(w, h, bd, comps, pred, b2, list(vals) + [0, 1, 2]) + body
            e = lib.decode(bad)
            r.count("bad_headers")
            if not e["open"] and not e["decode"]:
                raise ljpeg.Bad("unusable header of kind %d is accepted" % k)
            if e["open"] and e["decode"] == 99:
                raise ljpeg.Bad("unusable header of kind %d: status %d and a handle" % (k, e["open"]))
            r.count("class16", 32768 in ds)
            r.count("long_codes", sum(bits[10:]) > 0)
            r.count("strided", bool(wl))
            r.count("linearized", lin is not None)
        except ljpeg.Crash as e:
            r.fail("sanitizer", "%s: %s" % (tag, e), {"data": data.hex()[:2000]})
        except ljpeg.Bad as e:
            r.fail("standard stream", "%s: %s" % (tag, e), {"data": data.hex()[:2000], "px": px[:100]})
        r.count("streams")
        r.count("samples", n)
        r.count("multi", comps > 1)
        r.count("narrow", w < comps)
        r.count("fill_bytes", any(x.endswith(b"\xff") for x in head["extras"]))
        r.count("tall", h > 255)
        r.count("wide", w > 255)
        r.ok((w, h, bd, comps, pred, hash(data)))
        r.sample(tag)
        if r.enough:
            break
    r.counters["max_predictors"] = len(preds)
