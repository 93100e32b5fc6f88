"""The board library against the registers of the simulated core, and against a model of the DMA engine."""
import hw, model, gen, designs, streams, frames, bus, regs, ljpeg, board
import c16, c20

RULE = ("The library of software/src runs in a process of its own, built with AddressSanitizer and UndefinedBehaviorSanitizer and with every "
        "load and store reported; each access to a device page becomes a bus transaction. core: a case is a history of calls for one bit "
        "depth, mixed with code tables and frames; every access goes to the simulated core's AXI-Lite port, and every value the library "
        "returns is compared with what was set, written or counted. dma: a case is a history of transfers on a model of the engine with "
        "drawn completion times and statuses. Distinct by history.")
ASSUMPTIONS = ["values fit their registers (16, 16 and 24 bits)", "a transfer follows reset, start, addresses and lengths in the order of the test program",
               "the engine completes without errors while the library waits for it"]
REQUIRED = {"calls": 4000, "accesses": 10000, "tables_listed": 200, "codes_listed": 2000, "debug_lists": 30, "frames": 50,
            "transfers": 600, "polls": 2000, "statuses": 1000, "long_waits": 10, "refused_depths": 10, "max_bit_depths": 1}


def jobs(tier, seed):
    q = tier == "quick"
    js = [{"name": "core-bd%d" % bd, "fn": "core", "bd": bd, "n": 20 if q else 60}
          for bd in range(2, 17)]
    js += [{"name": "%s%d" % (k, i), "fn": "prod", "k": k, "n": 20 if q else 80, "weight": 3}
           for k in ("beta", "micro") for i in range(3 if q else 6)]
    js += [{"name": "dma%d" % i, "fn": "dma", "n": 120 if q else 600} for i in range(6)]
    return js


class Bad(Exception):
    pass


def place(r):
    """the devices' addresses: any page for the engine, any 64 KB for the core"""
    g = r.rng("place")
    board.CORE = g.choice((0x83C00000, 0x43C00000, 0x40000000, 0xA0010000, 0xFFFE0000))
    board.DMA = g.choice((0x40400000, 0x40401000, 0x7FFF3000, 0x80000000, 0xA0005000, 0x41E07000))


class Bus:
    """carries the library's accesses to the simulated core"""

    def __init__(self, s, g, agent=None):
        self.s, self.a = s, agent or bus.AxiLite(s, rng=g)
        self.step = agent

    def run(self, wt=None):
        a, n, w = self.a, 0, wt
        while not a.idle():
            (w or a).pre()
            self.s.eval()
            (w or a).post()
            self.s.tick()
            n += 1
            if n > 5000:
                raise Bad("no response to %r" % (a.cur,))
        (w or a).pre()
        if a.err:
            raise Bad(a.err[0])

    def read(self, addr, wt=None):
        self.a.read(addr)
        self.run(wt)
        op, v, resp = self.a.done[-1]
        if resp:
            raise Bad("the library reads %x: bus error %d" % (addr, resp))
        return v

    def write(self, addr, v, wt=None):
        self.a.write(addr, v)
        self.run(wt)
        if self.a.done[-1][2]:
            raise Bad("the library writes %x to %x: bus error %d" % (v, addr, self.a.done[-1][2]))


def ssss(lines, tab):
    """the strings of get_ssss against the table"""
    want = ["%d - SSSS_CODE: %d - LENGTH: %d" % (i, c, n) for i, (c, n) in enumerate(tab)]
    if lines != want:
        i = next((i for i in range(min(len(lines), len(want))) if lines[i] != want[i]), None)
        if i is None:
            raise Bad("get_ssss lists %d classes, the core has %d" % (len(lines), len(want)))
        raise Bad("get_ssss gives %r, the core has %r" % (lines[i], want[i]))


def call(b, *a):
    try:
        return b.call(*a)
    except board.Exited as e:
        raise Bad("the library ends the process in %s: %s" % (a[0], b.output()[-200:]))


def opened(b, bd):
    """a new process with the library open on a core of that bit depth"""
    b.stop()
    call(b, "core", board.CORE, bd)
    if b.odd:
        raise Bad(b.odd[0])


def core(r, job):
    bd = job["bd"]
    total = min(31, 16 + bd) * 2
    cfg = designs.base_config(bit_depth=bd, support_axi_lite=True, converter=max(total // 2, 16),
                              vbits_to_cbits_buffer_size=max(total // 2, 16) + 40)
    s = hw.build(designs.int3(cfg))
    place(r)
    b = board.Board()
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        link = Bus(s, g)
        b.read, b.write = link.read, link.write
        hist = []
        try:
            if c % 4 == 0:
                for d in (g.choice((0, 1, 17, 255)), g.randint(17, 255)):
                    try:
                        b.stop()
                        b.call("core", board.CORE, d)
                        raise Bad("a core of %d bits is accepted" % d)
                    except board.Exited as e:
                        if e.args[0] == 0:
                            raise Bad("a core of %d bits ends the process with status 0" % d)
                        r.count("refused_depths")
            opened(b, bd)
            want = {"height": None, "width": None, "allowed_cycles": None}
            tab = list(model.STD_TABLE[:bd + 1])
            for i in range(g.randint(10, 40)):
                k = g.random()
                if k < .35:
                    n = g.choice(list(want))
                    v = g.choice((0, 1, g.getrandbits(8), 0xFFFF, g.getrandbits(16)))
                    if n == "allowed_cycles":
                        v = g.choice((v, g.getrandbits(24), 0xFFFFFF))
                    if n != "allowed_cycles":
                        # the other half of the register has to survive
                        o = "width" if n == "height" else "height"
                        if want[o] is None:
                            want[o] = call(b, "get_" + o)
                    call(b, "set_" + n, v)
                    want[n] = v
                    hist.append("set_%s %d" % (n, v))
                elif k < .8:
                    n = g.choice(list(want))
                    v = call(b, "get_" + n)
                    hist.append("get_%s %d" % (n, v))
                    if want[n] is None:
                        want[n] = v
                    if v != want[n]:
                        raise Bad("get_%s gives %d, was set to %d" % (n, v, want[n]))
                elif k < .88:
                    new = c16.codes(g, bd + 1)
                    c16.write(bus.AxiLite(s, rng=g), g, bd, tab, new)
                    tab = new
                    hist.append("table")
                else:
                    ssss(call(b, "get_ssss"), tab)
                    hist.append("get_ssss")
                    r.count("tables_listed")
                    r.count("codes_listed", bd + 1)
                r.count("calls")
            ssss(call(b, "get_ssss"), tab)
            for n in want:
                if want[n] is not None and call(b, "get_" + n) != want[n]:
                    raise Bad("get_%s differs at the end of the history" % n)
            r.count("tables_listed")
            r.count("codes_listed", bd + 1)
            if b.odd:
                raise Bad(b.odd[0])
        except board.Crash as e:
            r.fail("sanitizer", "%d bits, %s: %s" % (bd, hist[-8:], e))
        except Bad as e:
            r.fail("core registers", "%d bits, after %s: %s" % (bd, hist[-8:], e), {"history": hist})
        r.ok((bd, c, hist))
        r.sample("%d bits: %s" % (bd, ", ".join(hist[:10])))
        if r.enough:
            break
    r.count("accesses", b.accesses)
    r.counters["max_bit_depths"] = 1
    b.stop()


LABEL = {"valid_in=0": 0, "valid_in=1": 1, "valid_out=0": 2, "valid_out=1": 3, "nready=1": 4, "nready=0": 5, "busy_in=1": 6, "busy_in=0": 7}


def prod(r, job):
    """set up, encode and count with beta and micro"""
    k = job["k"]
    s = hw.build(designs.product(k, patch=False, override={"support_axi_lite": True, "axi_lite_debug": True}))
    ps = frames.PS[k]
    place(r)
    b = board.Board()
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        s.set("p_vin", 0)
        s.set("p_busy", 0)
        wt = c20.Watch(s, g, k == "beta")
        wt.rate = 0
        link = Bus(s, g, wt.a)
        b.read = lambda a: link.read(a, wt)
        b.write = lambda a, v: link.write(a, v, wt)
        log = []
        try:
            opened(b, 12)
            tab = list(model.STD_TABLE[:13])
            for f in range(g.randint(1, 4)):
                w, h = 4 * g.randint(1, 10), g.randint(1, 6)
                todo = [("set_width", w), ("set_height", h), ("set_allowed_cycles", 0xFFFFFF)]
                g.shuffle(todo)
                for t in todo:
                    call(b, *t)
                got = call(b, "get_width"), call(b, "get_height"), call(b, "get_allowed_cycles")
                if got != (w, h, 0xFFFFFF):
                    raise Bad("width, height, cycles read as %s, set to %s" % (got, (w, h, 0xFFFFFF)))
                r.count("calls", 6)
                px = gen.frame(g, w, h, 12)
                log.append((w, h))
                t = streams.run_busy(s, ps, streams.beats_of(px, ps), gen.Stall(g), gen.Stall(g), idle_limit=600, axil=wt, stop_after_end=1)
                s.set("p_vin", 0)
                s.set("p_busy", g.getrandbits(1))
                d = streams.show_diff(t.out, streams.framed(px, w, h))
                if d or t.err:
                    raise Bad("the frame set up by the library: %s" % (d or t.err[0]))
                r.count("frames")
                if g.random() < .7:
                    n0 = len(wt.hist) - 1
                    lines = call(b, "get_debug")
                    lo, hi = wt.hist[n0 - 6 if n0 > 6 else 0], wt.hist[-1]
                    vals = dict(x.split(" : ") for x in lines if " : " in x)
                    if set(vals) != set(LABEL):
                        raise Bad("get_debug lists %s" % sorted(vals))
                    for n, i in LABEL.items():
                        if not lo[i] <= int(vals[n]) <= hi[i]:
                            raise Bad("get_debug: %s is %s, there were %d to %d such cycles" % (n, vals[n], lo[i], hi[i]))
                    r.count("debug_lists")
                if g.random() < .3:
                    ssss(call(b, "get_ssss"), tab)
                    r.count("tables_listed")
                    r.count("codes_listed", 13)
            if wt.a.err or b.odd:
                raise Bad((wt.a.err or b.odd)[0])
        except board.Crash as e:
            r.fail("sanitizer", "%s %s: %s" % (k, log, e))
        except Bad as e:
            r.fail("product registers", "%s, frames %s: %s" % (k, log, e))
        r.ok((k, c, log, wt.sum))
        r.sample("%s: frames %s, counters %s" % (k, log, wt.sum))
        if r.enough:
            break
    r.count("accesses", b.accesses)
    b.stop()


NAMES = [(0x8, "SGIncld"), (0x10, "DMAIntErr"), (0x20, "DMASlvErr"), (0x40, "DMADecErr"), (0x100, "SGIntErr"), (0x200, "SGSlvErr"),
         (0x400, "SGDecErr"), (0x1000, "IOC_Irq"), (0x2000, "Dly_Irq"), (0x4000, "Err_Irq")]


def names(v):
    return ["halted" if v & 1 else "running"] + (["idle"] if v & 2 else []) + [n for b, n in NAMES if v & b]


class Engine:
    """simple mode of the AXI DMA engine (PG021), both channels"""

    def __init__(self, g):
        self.g, self.log, self.polls, self.over, self.force, self.last = g, [], 0, 0, {}, [0, 0]
        self.reset()

    def reset(self):
        self.cr, self.sr, self.ad, self.left = [0x10002] * 2, [1, 1], [None, None], [None, None]

    def read(self, a):
        o = a - board.DMA
        ch, o = (1, o - 0x30) if o >= 0x30 else (0, o)
        if o == 0:
            return self.cr[ch]
        if o != 4:
            raise Bad("the library reads the DMA register at %x" % a)
        self.polls += 1
        self.over = 0 if any(x is not None for x in self.left) else self.over + 1
        for i in (0, 1):
            if self.left[i] is not None:
                self.left[i] -= 1
                if self.left[i] <= 0:
                    self.left[i] = None
                    # idle and the completion come one after the other
                    self.sr[i] |= self.g.choice((0x1002, 2, 0x1000))
            elif self.cr[i] & 1 and self.sr[i] & 0x1002:
                self.sr[i] |= 0x1002
        if ch in self.force:
            self.last[ch] = self.force[ch]
            return self.force[ch]
        if self.over > 3000:
            raise Bad("the library still polls when the transfer is done")
        v = self.sr[ch]
        if v & 0x1002 != 0x1002 and self.g.random() < .5:
            # bits that say nothing about the completion
            v |= self.g.choice((1, 8, 0x2000, 0x2009, 1 << 16, 0xFF000000))
        self.last[ch] = v
        return v

    def write(self, a, v):
        o = a - board.DMA
        ch, o = (1, o - 0x30) if o >= 0x30 else (0, o)
        if o == 0:
            if v & 4:
                self.reset()
                return
            self.cr[ch] = v
            if v & 1:
                self.sr[ch] &= ~1
            else:
                if self.left[ch] is not None:
                    raise Bad("channel %d is stopped in a transfer" % ch)
                self.sr[ch] |= 1
        elif o == 4:
            self.sr[ch] &= ~(v & 0x7000)
        elif o == 0x18:
            self.ad[ch] = v
        elif o == 0x28:
            if self.sr[ch] & 1:
                raise Bad("channel %d: a length is written while it is halted" % ch)
            if self.ad[ch] is None:
                raise Bad("channel %d: a length is written before the address" % ch)
            self.sr[ch] &= ~0x1002
            self.log.append((ch, self.ad[ch], v))
            self.left[ch] = self.g.choice((1, 2, self.g.randint(1, 12))) if self.g.random() < .98 else self.g.choice((300, 1200, 12000))
        else:
            raise Bad("the library writes %x to the DMA register at %x" % (v, a))


def dma(r, job):
    place(r)
    b = board.Board()
    b.start()
    call(b, "dma", board.DMA)
    for c in r.cases():
        g = r.rng(c)
        e = Engine(g)
        b.read, b.write = e.read, e.write
        hist = []
        try:
            if b.p is None:
                call(b, "dma", board.DMA)

            def status():
                n, ch = g.choice((("mm2s_status", 0), ("s2mm_status", 1)))
                if g.random() < .5:
                    e.force[ch] = g.getrandbits(15)
                got = call(b, n)
                want = names(e.last[ch])
                e.force.clear()
                r.count("statuses")
                if got != want:
                    raise Bad("%s gives %s, the status is %s" % (n, got, want))
            for t in range(g.randint(1, 4)):
                e.log = []
                src, dst = g.getrandbits(32), g.getrandbits(32)
                sl, ml = g.randint(1, (1 << 26) - 1), g.randint(1, (1 << 26) - 1)
                for op in (("reset_dma",), ("halt_dma",), ("set_src_dist", src, dst), ("start_dma",), ("set_len", sl, ml)):
                    if op[0] == "halt_dma" and g.random() < .3:
                        continue
                    call(b, *op)
                    hist.append(op[0])
                    r.count("calls")
                    if g.random() < .3:
                        status()
                if sorted(e.log) != [(0, src, ml), (1, dst, sl)]:
                    raise Bad("transfers %s were started, asked for from %x to %x, lengths %d out and %d in" % (e.log, src, dst, ml, sl))
                order = ["mm2s_sync", "s2mm_sync"]
                if g.random() < .3:
                    order.reverse()
                for o in order:
                    ch = o == "s2mm_sync"
                    e.polls = e.over = 0
                    call(b, o)
                    r.count("polls", e.polls)
                    r.count("long_waits", e.polls > 1000)
                    if e.left[ch] is not None or e.sr[ch] & 0x1002 != 0x1002:
                        raise Bad("%s returns while the transfer goes on, status %x" % (o, e.sr[ch]))
                    hist.append(o)
                    if g.random() < .3:
                        status()
                r.count("transfers", 2)
                if g.random() < .3:
                    call(b, "halt_dma")
                    hist.append("halt_dma")
            if b.odd:
                raise Bad(b.odd[0])
        except board.Crash as x:
            r.fail("sanitizer", "%s: %s" % (hist[-8:], x))
        except Bad as x:
            r.fail("dma", "after %s: %s" % (hist[-8:], x))
            b.stop()
        r.ok((c, hist, e.polls))
        r.sample(", ".join(hist[:12]))
        if r.enough:
            break
    r.count("accesses", b.accesses)
    b.stop()
