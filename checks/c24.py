"""liblj92 on hostile files: memory safety, no leaks, no hangs."""
import os, re, shutil, subprocess, tempfile
import ljpeg, gen
from c22 import image

RULE = ("mutate: a case is a valid file with drawn mutations (bits, bytes, lengths, splices, cuts, sizes), opened and decoded by liblj92 built "
        "with AddressSanitizer and UndefinedBehaviorSanitizer from and into exactly sized heap buffers, with drawn strides and tables; "
        "allocations are counted and the input is compared afterwards. fuzz: libFuzzer runs, coverage-guided, seeded with valid files and "
        "with a fixed random seed and number of runs. Distinct by input; the evidence counts inputs by the status they got.")
ASSUMPTIONS = ["the target has room for the dimensions returned by lj92_open", "the data of a file is shorter than 2 GB"]
REQUIRED = {"mutants": 20000, "opened": 5000, "refused": 3000, "decode_errors": 1000, "decoded": 1000, "limited_tables": 1000, "failed_allocations": 1000, "fuzz_runs": 200000, "max_fuzz_edges": 100}


def jobs(tier, seed):
    q = tier == "quick"
    js = [{"name": "mutate%d" % i, "fn": "mutate", "n": 600 if q else 6000} for i in range(6 if q else 20)]
    js += [{"name": "fuzz%d" % i, "fn": "fuzz", "n": 1, "runs": 150000 if q else 3000000, "weight": 20, "timeout": 850} for i in range(2 if q else 8)]
    return js


def valid(g):
    bd, comps, pred = g.randint(2, 16), g.choice((1, 1, 2, 4)), g.choice((1, 6, 6, g.randint(0, 7)))
    w, h = g.randint(1, 16), g.randint(1, 6)
    px = image(g, w * comps, h, bd)
    ds = ljpeg.diffs(px, w, h, comps, bd, pred)
    bits, vals = ljpeg.random_table(g, {abs(d).bit_length() for d in ds})
    return ljpeg.encode(px, w, h, bd, comps, pred, bits, vals, order=g.randrange(2))


def mutant(g):
    d = bytearray(valid(g))
    hl = d.index(b"\xff\xda") + 10
    for _ in range(g.choice((1, 1, 2, 3, 8))):
        k = g.randrange(9)
        i = g.randrange(min(hl, len(d)) if g.random() < .7 else len(d)) if d else 0
        if not d:
            break
        if k == 0:
            d[i] ^= 1 << g.randrange(8)
        elif k == 1:
            d[i] = g.choice((0, 1, 0xFF, 0x7F, 0x80, 17, g.getrandbits(8)))
        elif k == 2:
            d = d[:i]
        elif k == 3:
            d[i:i] = bytes(g.getrandbits(8) for _ in range(g.randint(1, 6)))
        elif k == 4:
            del d[i:i + g.randint(1, 8)]
        elif k == 5:
            m = g.choice((b"\xff\xc4", b"\xff\xc3", b"\xff\xda", b"\xff\xfe"))
            j = d.find(m)
            if j >= 0 and j + 3 < len(d):
                d[j + 2:j + 4] = g.choice((0, 1, 2, 3, 18, 19, 20, 36, 255, 65535, g.getrandbits(16))).to_bytes(2, "big")
        elif k == 6:
            j = d.find(b"\xff\xc3")
            if j >= 0 and j + 9 < len(d):
                o = g.choice((4, 5, 6, 7, 8, 9))
                d[j + o] = g.choice((0, 1, 2, 16, 17, 255))
        elif k == 7:
            j = d.find(b"\xff\xc4")
            if j >= 0 and j + 20 < len(d):
                d[j + 5 + g.randrange(16)] = g.choice((0, 1, 2, 3, 17, 255))
        else:
            o = valid(g)
            a = g.randrange(len(o))
            d[i:i] = o[a:a + g.randint(1, 40)]
    return bytes(d)


def mutate(r, job):
    lib = ljpeg.Lib()
    for c in r.cases():
        g = r.rng(c)
        for k in range(8):
            d = mutant(g)
            wl = g.choice((0, 0, 1, 3, 17))
            sl = g.choice((0, 0, 2))
            lin = [0] * g.choice((1, 4, 256, 65536)) if g.random() < .3 else None
            try:
                e = lib.decode(d, wl, sl, lin, limit=1 << 16, times=g.choice((1, 1, 2)))
                if e["live"] or e["changed"]:
                    r.fail("leak", "%d allocations leaked, input changed %d; file %s" % (e["live"], e["changed"], d.hex()[:600]), {"data": d.hex()})
                if e["open"] and e["decode"] == 99:
                    r.fail("handle", "status %d and a handle; file %s" % (e["open"], d.hex()[:600]), {"data": d.hex()})
                if g.random() < .3:
                    k = g.choice((1, 2, 2, 3))
                    f = lib.decode(d, wl, sl, fail=k, limit=1 << 16)
                    if f["live"] or f["open"] and f["decode"] == 99:
                        r.fail("handle", "allocation %d fails: status %d, %s, %d left allocated; file %s" % (
                            k, f["open"], "a handle" if f["decode"] == 99 else "no handle", f["live"], d.hex()[:600]), {"data": d.hex()})
                    r.count("failed_allocations", f["failed"])
                vs = [v for v in set(e["out"]) if v and v != 0xA5A5]
                if e["open"] == 0 and vs and g.random() < .4:
                    # a table that ends at one of the samples
                    lib.decode(d, wl, sl, [0] * (max(vs) if g.random() < .6 else g.choice(sorted(vs))), limit=1 << 16)
                    r.count("limited_tables")
                r.count("opened", e["open"] == 0)
                r.count("refused", e["open"] != 0)
                r.count("decode_errors", e["open"] == 0 and e["decode"] not in (0, 1))
                r.count("decoded", e["open"] == 0 and e["decode"] == 0)
                r.count("too_large", e["open"] == 0 and e["decode"] == 1)
            except ljpeg.Crash as x:
                r.fail("sanitizer", "file %s...: %s" % (d.hex()[:200], x), {"data": d.hex()})
            r.count("mutants")
            r.ok(hash(d))
        if r.enough:
            break


def fuzz(r, job):
    d = tempfile.mkdtemp(prefix="ljf")
    try:
        exe = ljpeg.build_driver(d, fuzz=True)
        corpus = os.path.join(d, "corpus")
        os.mkdir(corpus)
        g = r.rng(0)
        for i in range(60):
            with open(os.path.join(corpus, "s%d" % i), "wb") as f:
                f.write(bytes([g.getrandbits(8)]) + (valid(g) if i % 2 else mutant(g)))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        p = subprocess.run([exe, "-seed=%d" % (job["seed"] * 100 + int(job["name"][4:]) + 1), "-runs=%d" % job["runs"], "-max_len=600", "-timeout=20",
                            "-rss_limit_mb=3000", "-detect_leaks=0", "-print_final_stats=1", "-artifact_prefix=" + d + "/", corpus],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = p.stdout.decode(errors="replace")
        cov = [int(x) for x in re.findall(r"cov: (\d+)", t)]
        runs = re.findall(r"number_of_executed_units: (\d+)", t)
        r.count("fuzz_runs", int(runs[0]) if runs else 0)
        r.counters["max_fuzz_edges"] = max(cov) if cov else 0
        r.count("fuzz_corpus", len(os.listdir(corpus)))
        for f in sorted(os.listdir(corpus)):
            r.keys.add("corpus/" + f)
        r.evals += int(runs[0]) if runs else 0
        if p.returncode:
            art = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-", "slow-"))]
            data = open(os.path.join(d, art[0]), "rb").read().hex() if art else ""
            why = [l.strip() for l in t.splitlines() if "ERROR" in l or "runtime error" in l or "deadly" in l or " #" in l and "lj92" in l]
            if art or why:
                r.case = 0
                r.fail("sanitizer" if not (art and art[0].startswith("timeout")) else "hang", "libFuzzer: %s; input %s" % (" | ".join(why[:5])[:900], data[:300]), {"data": data})
            else:
                r.vague("libFuzzer ended with %d: %s" % (p.returncode, t[-400:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
