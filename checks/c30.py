"""liblj92: handles and threads do not disturb each other."""
import os, shutil, struct, subprocess, tempfile, atexit
import ljpeg
from c22 import image

RULE = ("A case is a set of files (good ones of an independent encoder, cut off and damaged ones), images and tables shared by all, and for "
        "each of one to eight threads a drawn sequence of calls: open, decode (again and again, in drawn tiles, through tables that are "
        "long enough or not), close, encode. Built with ThreadSanitizer; with one thread and many handles open also with AddressSanitizer "
        "and UndefinedBehaviorSanitizer. Each call must give what it gives alone: the samples of the image, or the status seen in "
        "a process of its own. Distinct by the calls; overlaps counts pairs of calls of two threads that really overlapped.")
ASSUMPTIONS = ["one handle is used by one thread at a time"]
REQUIRED = {"calls": 20000, "threads": 1000, "max_threads": 8, "pairs": 100000, "decoded": 4000, "encoded": 3000, "refused": 500,
            "decode_errors": 500, "repeated": 1000, "after_error": 200, "max_open": 4, "shared": 1000}
OPEN, DECODE, CLOSE, ENCODE = range(4)


def jobs(tier, seed):
    q = tier == "quick"
    js = [{"name": "threads%d" % i, "fn": "run", "san": "thread", "n": 60 if q else 600} for i in range(6 if q else 16)]
    js += [{"name": "handles%d" % i, "fn": "run", "san": "address,undefined", "n": 60 if q else 600} for i in range(4 if q else 8)]
    return js


def build(san):
    d = tempfile.mkdtemp(prefix="lj")
    atexit.register(shutil.rmtree, d, True)
    exe = os.path.join(d, "thr")
    lib = os.path.join(ljpeg.REPO, "liblj92")
    ljpeg.cc(["clang-18", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=" + san, "-fno-sanitize-recover=undefined",
              "-I" + lib, os.path.join(lib, "lj92.c"), os.path.join(ljpeg.HERE, "c", "lj92_thr.c"), "-lpthread", "-lm", "-o", exe])
    return d, exe


def fnv(cells):
    h = 14695981039346656037
    for b in cells:
        h = (h ^ b) * 1099511628211 & 0xFFFFFFFFFFFFFFFF
    return h


def le(cells):
    return struct.pack("<%dH" % len(cells), *cells)


def good(g, big):
    bd, comps, pred = g.choice((8, 12, 16, g.randint(2, 16))), g.choice((1, 1, 2, 3, 4)), g.choice((1, 6, g.randint(1, 7)))
    w, h = (g.randint(1, 12), g.randint(1, 6)) if not big else (g.randint(20, 60), g.randint(10, 30))
    px = image(g, w * comps, h, bd)
    ds = ljpeg.diffs(px, w, h, comps, bd, pred)
    bits, vals = ljpeg.random_table(g, {abs(d).bit_length() for d in ds})
    return ljpeg.encode(px, w, h, bd, comps, pred, bits, vals), (w, h, bd, comps), px


def bad(g, data):
    d = bytearray(data)
    k = g.randrange(4)
    if k == 0:
        d = d[:g.randint(0, len(d) - 1)]
    elif k == 1:
        d = d[:g.randint(len(d) // 2, len(d) - 3)]
    else:
        for _ in range(g.choice((1, 2, 5))):
            d[g.randrange(len(d))] ^= 1 << g.randrange(8)
    return bytes(d)


def run(r, job):
    d, exe = build(job["san"])
    many = job["san"] == "thread"
    lib = ljpeg.Lib()
    for c in r.cases():
        g = r.rng(c)
        files, images = [], []         # (bytes, status of opening, dims, samples or None)
        try:
            for i in range(g.randint(2, 5)):
                data, dims, px = good(g, g.random() < .4)
                if i and g.random() < .4:
                    data = bad(g, data)
                    e = lib.decode(data, limit=1 << 14)
                    lib.p.stdin.close()
                    lib.p.wait()
                    lib.p = None
                    w, h, bd, comps = e["dims"]
                    if e["open"] == 0 and w * h * comps > 1 << 14:
                        continue         # too large to decode again and again
                    files.append((data, e["open"], e["dims"], list(e["out"]) if e["open"] == 0 and e["decode"] == 0 else None))
                else:
                    files.append((data, 0, dims, px))
            for i in range(g.randint(1, 3)):
                bd = g.choice((8, 12, 16, g.randint(2, 16)))
                w, h = (g.randint(1, 12), g.randint(1, 6)) if g.random() < .6 else (g.randint(20, 60), g.randint(10, 30))
                px = image(g, w, h, bd)
                st, enc, info = lib.encode(px, w, h, bd)
                if st:
                    raise ljpeg.Bad("encoding alone gives status %d" % st)
                if ljpeg.decode(enc)[4] != px:
                    raise ljpeg.Bad("encoding alone gives another image")
                images.append((px, w, h, bd, enc))
        except (ljpeg.Crash, ljpeg.Bad, IndexError) as e:
            r.fail("alone", e)
            if r.enough:
                break
            continue
        tables = [[g.getrandbits(16) for _ in range(k)] for k in (65536, g.choice((1, 16, 300, 4096)))]
        nt = g.choice((2, 2, 3, 4, 8)) if many else 1
        slots = g.randint(1, 3) if many else g.randint(4, 8)
        progs, want = [], []
        for t in range(nt):
            calls, exp, held, opened = [], [], {}, 0
            for i in range(g.randint(8, 24) if many else g.randint(40, 90)):
                y = g.choice((0, 0, 0, 1, 3))
                s = g.randrange(slots)
                k = g.random()
                if k < .15:
                    m = g.randrange(len(images))
                    px, w, h, bd, enc = images[m]
                    calls.append((ENCODE, 0, m, 0, 0, -1, y))
                    exp.append((0, (len(enc), 0, 0, 0), fnv(enc)))
                    r.count("encoded")
                elif s not in held:
                    f = g.randrange(len(files)) if g.random() < .7 else 0
                    calls.append((OPEN, s, f, 0, 0, -1, y))
                    if files[f][1]:
                        exp.append((files[f][1], (0,) * 4, None))
                        r.count("refused")
                    else:
                        exp.append((0, files[f][2], None))
                        held[s] = [f, 0, False]
                        r.count("max_open", len(held))
                        r.count("shared", sum(x[0] == f for x in held.values()) > 1 or nt > 1)
                elif k < .35:
                    calls.append((CLOSE, s, 0, 0, 0, -1, y))
                    exp.append((0, (0,) * 4, None))
                    del held[s]
                else:
                    f = held[s][0]
                    px, dims = files[f][3], files[f][2]
                    n = dims[0] * dims[1] * dims[3]
                    wl, ws = g.choice((n, dims[0] * dims[3], 1, g.randint(1, n))), g.choice((0, 0, 1, 5))
                    tab = g.choice((-1, -1, 0, 1))
                    calls.append((DECODE, s, f, wl, ws, tab, y))
                    ok = px is not None and (tab < 0 or max(px) < len(tables[tab]))
                    r.count("repeated", held[s][1] > 0)
                    r.count("after_error", ok and held[s][2])
                    held[s][1] += 1
                    held[s][2] = not ok
                    if ok:
                        out = [tables[tab][v] for v in px] if tab >= 0 else px
                        cells = []
                        for j in range(0, n, wl):
                            if j:
                                cells += [0xA5A5] * ws
                            cells += out[j:j + wl]
                        exp.append((0, (0,) * 4, fnv(le(cells))))
                        r.count("decoded")
                    else:
                        exp.append((None, (0,) * 4, None))
                        r.count("decode_errors")
            progs.append(calls)
            want.append(exp)
        b = [struct.pack("<2i", nt, slots), struct.pack("<i", len(files))]
        b += [struct.pack("<i", len(f[0])) + f[0] for f in files]
        b.append(struct.pack("<i", len(images)))
        b += [struct.pack("<4i", w, h, bd, len(px)) + le(px) for px, w, h, bd, _ in images]
        b.append(struct.pack("<i", len(tables)))
        b += [struct.pack("<i", len(t)) + le(t) for t in tables]
        for calls in progs:
            b.append(struct.pack("<i", len(calls)) + b"".join(struct.pack("<7i", *x) for x in calls))
        env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=1", ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1")
        tag = "%d threads, %d handles each, %d files, %d images" % (nt, slots, len(files), len(images))
        try:
            p = subprocess.run([exe], input=b"".join(b), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=200)
        except subprocess.TimeoutExpired:
            r.fail("hang", tag + ": no end within 200 s")
            break
        err = p.stderr.decode(errors="replace")
        lines = p.stdout.decode().splitlines()
        total = sum(map(len, progs))
        if p.returncode:
            seen = [l.strip() for l in err.splitlines() if "WARNING" in l or "ERROR" in l or "runtime error" in l or " #" in l and "lj92" in l or "FATAL" in l]
            if p.returncode == 9 or "FATAL: ThreadSanitizer" in err:
                r.vague("the driver does not run: %d %s" % (p.returncode, err[-300:]))
                break
            r.fail("sanitizer", "%s: exit %d, %s" % (tag, p.returncode, " | ".join(seen[:6])[:900]))
        elif len(lines) != total:
            r.vague("%d results of %d calls" % (len(lines), total))
        else:
            spans = []
            for l in lines:
                t, i, st, d0, d1, d2, d3, s, t0, t1 = map(int, l.split())
                spans.append((t, t0, t1))
                est, edim, esum = want[t][i]
                x = progs[t][i]
                if (st != est if est is not None else st == 0) or (d0, d1, d2, d3) != tuple(edim) or esum is not None and s != esum:
                    name = ("open", "decode", "close", "encode")[x[0]]
                    r.fail("other result", "%s: call %d of thread %d, %s of %s %d%s, gives status %d, dimensions %s, sum %x; alone %s, %s, %s" % (
                        tag, i, t, name, "image" if x[0] == ENCODE else "file", x[2], " through a table" if x[5] >= 0 else "", st,
                        (d0, d1, d2, d3), s, "an error" if est is None else est, tuple(edim), "%x" % esum if esum is not None else "-"))
                    break
            ov = 0
            if nt > 1:
                spans.sort(key=lambda x: x[1])
                for j, (t, a, e) in enumerate(spans):
                    k = j + 1
                    while k < len(spans) and spans[k][1] < e:
                        ov += spans[k][0] != t
                        k += 1
            r.count("overlaps", ov)
        sizes = [len(x) for x in progs]
        r.count("pairs", (sum(sizes) ** 2 - sum(x * x for x in sizes)) // 2)
        r.count("calls", total)
        r.count("threads", nt if nt > 1 else 0)
        r.count("max_threads", nt)
        r.ok((nt, slots, hash(tuple(map(tuple, progs))), hash(tuple(f[0] for f in files))))
        r.sample(tag)
        if r.enough:
            break
