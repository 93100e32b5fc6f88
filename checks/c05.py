"""Frames over their cycle budget."""
import hw, model, gen, designs, streams, frames
from c04 import put_dims

RULE = ("A case is a sequence of frames through one simulated product, each with its own drawn cycle budget around the "
        "time the frame needs, drawn stalls, and sometimes a source that stops for good inside the frame. A monitor "
        "records every offered and taken word with its cycle. A frame that had all its words taken before its budget ran "
        "out must be the complete framed stream; one that had not must be the start words, a proper prefix of its words, "
        "and eight 0xFFFE words, and must be over within 30 receiver-ready cycles of the budget; no frame word may appear "
        "more than 12 cycles after the budget; offered words must stay. Non-trivial and distinct: by product, size, "
        "budget, and number of words taken before the cut.")
ASSUMPTIONS = ["the budget counts from the first pixel taken, with a tolerance of 12 cycles for the pipeline registers",
               "the source drops the rest of a frame when it sees its end word"]
REQUIRED = {"frames": 1500, "cut": 500, "complete": 300, "cut_before_any_word": 50, "cut_inside": 150,
            "cut_while_a_word_was_held": 30, "starved": 60, "long_budgets": 8, "budgets_over_2_22": 3, "ample_budgets": 80}
SLACK = 12


def jobs(tier, seed):
    q = tier == "quick"
    return [{"name": "%s%d" % (k, j), "fn": "prod", "k": k, "n": 90 if q else 300}
            for k in ("beta", "micro") for j in range(8 if q else 24)] + \
           [{"name": "long%s%d" % (k, j), "fn": "long", "k": k, "n": 1 if q else 3, "lo": lo, "hi": hi, "weight": hi >> 16}
            for k in ("beta", "micro")
            for j, (lo, hi) in enumerate([(16, 18), (18, 20), (20, 22), (22, 23), (23, 24)] if q else
                                         [(16, 18), (18, 20), (20, 21), (21, 22), (22, 23), (23, 24)] * 3)]


def budget(s, w, h, ac):
    if "p_h" in s.inputs:
        put_dims(s, w, h)
        s.set("p_ac", ac)
    else:
        frames.program(s, w, h, ac)


def one(s, ps, beats, si, so, g, ac, starve, err):
    io = s.io
    pv, pb = s.idx("p_vin"), s.idx("p_busy")
    pp = [s.idx("p_p%d" % i) for i in range(ps)]
    qv, qd, qe, qn = (s.idx("q_" + n) for n in ("vout", "data", "end", "nready"))
    bi, n = 0, len(beats)
    first = None
    out = []          # (word, end, cycle taken, cycle first offered, was it held)
    prev = None
    ready_after = 0
    since = 0
    idle = g.choice((0, 0, 3, 9, 20))
    t = 0
    far = ac > 60000
    while True:
        # a starved frame with a far-away end: nothing to do but wait for a word
        if far and first is not None and bi >= starve and t > first + 3000 and prev is None:
            far = False
            io[pv] = io[pb] = 0
            ev, tk, stop = s.lib.sim_eval, s.lib.sim_tick, first + ac + 5000
            ev()
            while not io[qv] and t < stop:
                tk()
                t += 1
                ev()
            s.cycles += t - first
        vin = 1 if t >= idle and bi < n and bi < starve and not si() else 0
        for i in range(ps):
            io[pp[i]] = beats[bi][i] if vin else g.getrandbits(12)
        io[pv] = vin
        busy = so()
        io[pb] = busy
        s.eval()
        if vin and not io[qn]:
            bi += 1
            if first is None:
                first = t
        v, cur = io[qv], (io[qd], io[qe])
        so.fb, si.fb = v, not io[qn]
        if prev is not None and (not v or cur != prev):
            err.append(("unstable", "word %x end=%d offered in cycle %d and not taken, then valid=%d %x end=%d" % (
                prev + (t - 1, v) + cur)))
        if v and prev is None:
            since = t
        done = False
        if v and not busy:
            out.append(cur + (t, since, since != t))
            done = cur[1]
        prev = cur if v and busy else None
        if first is not None and t > first + ac + SLACK and not busy:
            ready_after += 1
        s.tick()
        t += 1
        if done:
            break
        if len(out) > 1000 + 40 * n or len(err) > 50:
            err.append(("no end", "%d words of a frame of %d beats, and no end" % (len(out), n)))
            break
        # an end is due: at the latest 30 ready cycles after the budget
        if ready_after > 30 + 16:
            err.append(("no end", "budget of %d cycles from cycle %d is over, now cycle %d, %d words, still no end" % (
                ac, first, t, len(out))))
            break
        if t > 200000 + ac:
            err.append(("no end", "no end after %d cycles" % t))
            break
    io[pv] = 0
    return out, first, t


def judge(out, first, ac, px, w, h, err, r):
    if first is None:
        err.append(("no end", "an end word before any pixel was taken"))
        return
    scan = [(x, 0) for x in model.product_words(px, w, h)]
    words = [o[:2] for o in out]
    start = [(0xFFFF, 0)] * 8
    normal = start + scan + [(0xFFFF, 0)] * 7 + [(0xFFFF, 1)]
    tail = [(0xFFFE, 0)] * 7 + [(0xFFFE, 1)]
    cut = len(words) >= 16 and words[-8:] == tail
    need = 8 + len(scan)
    limit = first + ac
    if not cut:
        d = streams.show_diff(words, normal)
        if d:
            err.append(("stream", d))
            return
        last = out[need - 1]
        if last[3] > limit + SLACK:
            err.append(("late", "the last scan word appeared in cycle %d, the budget of %d ran out in cycle %d" % (
                last[3], ac, limit)))
        r.count("complete")
        return
    body = words[8:-8]
    if words[:8] != start or body != scan[:len(body)]:
        err.append(("prefix", "cut frame: not start words and a prefix: %s" % streams.show_diff(words[:-8], start + scan)))
        return
    if len(body) >= len(scan):
        err.append(("prefix", "all %d scan words were taken, and the frame is marked as cut off" % len(scan)))
    mk = out[len(body) + 8]
    if mk[3] < limit:
        err.append(("early", "forced end word in cycle %d, the budget of %d runs until cycle %d" % (mk[3], ac, limit)))
    for o in out[8:8 + len(body)]:
        if o[3] > limit + SLACK:
            err.append(("late", "scan word %x appeared in cycle %d, the budget of %d ran out in cycle %d" % (
                o[0], o[3], ac, limit)))
            break
    r.count("cut")
    r.count("cut_before_any_word" if not body else "cut_inside")
    if mk[3] and out[len(body) + 7][4] and out[len(body) + 7][2] > limit:
        r.count("cut_while_a_word_was_held")
    return len(body)


def prod(r, job):
    p = job["k"]
    ps = frames.PS[p]
    s = hw.build(designs.product(p))
    for c in r.cases():
        g = r.rng(c)
        w, h = 4, 1
        frames.setup(s, w, h)
        log = []
        for f in range(g.randint(3, 6)):
            w, h = (4 * g.randint(1, 8), g.randint(1, 6)) if g.random() < .85 else (4, 1)
            px = gen.frame(g, w, h, 12)
            beats = streams.beats_of(px, ps)
            span = len(beats) + 60
            k = g.random()
            ac = g.randint(0, 60) if k < .2 else g.randint(0, 2 * span) if k < .75 else g.randint(span, 6 * span)
            starve = len(beats)
            if g.random() < .15:
                starve = g.randint(1, len(beats))
                if starve < len(beats):
                    r.count("starved")
            elif g.random() < .12:
                # many times what a frame this small can take
                ac = 20000 + g.getrandbits(15)
            budget(s, w, h, ac)
            ks = ("never", "never", "light", "half", "burst", "phase", "longwait", "heavy", "after", "after")
            si, so = gen.Stall(g, g.choice(ks)), gen.Stall(g, g.choice(ks))
            err = []
            out, first, t = one(s, ps, beats, si, so, g, ac, starve, err)
            kept = None
            if not err:
                kept = judge(out, first, ac, px, w, h, err, r)
            if ac >= 20000 and starve == len(beats):
                r.count("ample_budgets")
                if not err and kept is not None:
                    err.append(("never complete", "a frame of %d pixels is not complete after %d cycles" % (w * h, ac)))
            r.count("frames")
            r.ok((p, w, h, ac, kept, frames.digest(px)))
            log.append((w, h, ac))
            if err:
                r.fail(err[0][0], "%s, frames (w, h, budget) %s, source %s%s receiver %s: %s" % (
                    p, log, si.kind, " stops after %d" % starve if starve < len(beats) else "", so.kind, err[0][1]),
                    {"pixels": px[:64]})
                break
        r.sample("%s: (w, h, budget) %s" % (p, log))
        if r.enough:
            break
    r.count("cycles", s.cycles)


def long(r, job):
    """Budgets over the whole width of the register: a source that starves inside the frame."""
    p = job["k"]
    ps = frames.PS[p]
    s = hw.build(designs.product(p))
    for c in r.cases():
        g = r.rng(c)
        w, h = 4 * g.randint(2, 8), g.randint(2, 6)
        px = gen.frame(g, w, h, 12)
        beats = streams.beats_of(px, ps)
        ac = int(2 ** g.uniform(job["lo"], job["hi"])) if g.random() < .8 else (1 << job["hi"]) - 1
        starve = g.randint(1, len(beats) - 1)
        frames.setup(s, w, h)
        budget(s, w, h, ac)
        err = []
        out, first, t = one(s, ps, beats, gen.Stall(g, "never"), gen.Stall(g, "never"), g, ac, starve, err)
        kept = None
        if not err:
            kept = judge(out, first, ac, px, w, h, err, r)
            if not err and kept is None:
                err.append(("stream", "a frame with %d of %d beats came out as complete" % (starve, len(beats))))
            elif not err and out[-1][2] > first + ac + 60:
                err.append(("no end", "budget of %d from cycle %d on, end in cycle %d" % (ac, first, out[-1][2])))
        r.count("frames")
        r.count("starved")
        r.count("long_budgets")
        if ac > 1 << 22:
            r.count("budgets_over_2_22")
        r.ok((p, w, h, ac, kept, frames.digest(px)))
        if err:
            r.fail(err[0][0], "%s, frame %dx%d, budget %d, source stops after %d: %s" % (p, w, h, ac, starve, err[0][1]),
                   {"pixels": px[:64]})
        r.sample("%s: %dx%d, budget %d, source stops after %d of %d" % (p, w, h, ac, starve, len(beats)))
        if r.enough:
            break
    r.count("cycles", s.cycles)
