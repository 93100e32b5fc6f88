"""Burst reader, burst writer, their FIFO and address generator against a
memory model; monitors on the AXI channels and on both sides of the FIFO."""
import hw, gen, designs, frames

RULE = ("A case is a run of one simulated module, or of reader/writer with FIFO and address generator wired to it, against a "
        "memory and a FIFO model with drawn delays, error responses and enable pulses. Monitors check addresses, burst shape, the "
        "outstanding counters every cycle, order and number of beats, the last flag, stability of offered requests, that "
        "nothing is issued while disabled, and that everything issued is finished. Distinct by harness, case and schedule kinds.")
ASSUMPTIONS = ["the FIFO in front of the writer holds a whole burst, and the one behind the reader has room for one, when they say so",
               "the source of addresses keeps an address until it is taken", "data beats of a burst follow its address (AXI3 without early data)"]
REQUIRED = {"bursts_read": 2500, "bursts_written": 2500, "beats": 80000, "error_responses": 500, "max_outstanding": 8,
            "enable_drops": 300, "fifo_beats": 20000, "addresses": 5000, "counter_checks": 100000, "max_unconfirmed": 15, "address_carries": 100}


def jobs(tier, seed):
    q = tier == "quick"
    js = []
    for k, n in (("reader", 3), ("writer", 3), ("readerfifo", 2), ("writerfifo", 2), ("fifo", 1), ("addr", 1)):
        for i in range(n if q else 4 * n):
            js.append({"name": "%s%d" % (k, i), "fn": k, "n": (160 if q else 300) * (8 if k == "addr" else 1)})
        if k in ("reader", "writer", "readerfifo", "writerfifo"):
            js.append({"name": k + "-long", "fn": k, "n": 1 if q else 4, "big": 300 if q else 5000, "weight": 20, "timeout": 800})
    return js


RI = ("arready", "rid", "rdata", "rlast", "rresp", "rvalid")
RO = ("arid", "araddr", "arburst", "arlen", "arsize", "arprot", "arvalid", "rready")
WI = ("awready", "wready", "bid", "bresp", "bvalid")
WO = ("awid", "awaddr", "awburst", "awlen", "awsize", "awprot", "awvalid", "wid", "wdata", "wstrb", "wlast", "wvalid", "bready")


def mk_reader():
    import axihp_reader
    d = axihp_reader.AxiHPReader()
    ins = {n: getattr(d.m_axi_ri, n) for n in RI}
    outs = {n: getattr(d.m_axi_ro, n) for n in RO}
    ins.update({n: getattr(d, n) for n in ("enable", "data_full", "addr_in", "addr_empty")})
    outs.update({n: getattr(d, n) for n in ("inactive", "data_enable", "data_out", "addr_enable", "reader_error", "reader_active")})
    return d, ins, outs


def mk_writer():
    import axihp_writer
    d = axihp_writer.AxiHPWriter()
    ins = {n: getattr(d.m_axi_wi, n) for n in WI}
    outs = {n: getattr(d.m_axi_wo, n) for n in WO}
    ins.update({n: getattr(d, n) for n in ("enable", "data_in", "data_empty", "addr_in", "addr_empty", "write_strobe")})
    outs.update({n: getattr(d, n) for n in ("inactive", "data_enable", "addr_enable", "writer_error", "writer_active", "writer_unconf")})
    return d, ins, outs


SHIFT = 0x80


def mk_readerfifo():
    import axihp_reader, axihp_fifo, address_generator
    d, f, a = axihp_reader.AxiHPReader(), axihp_fifo.AxiHPFifo(), address_generator.AddressGenerator(SHIFT)
    ins = {n: getattr(d.m_axi_ri, n) for n in RI}
    outs = {n: getattr(d.m_axi_ro, n) for n in RO}
    ins.update({"enable": d.enable, "start": a.starting_address, "read": f.read})
    outs.update({n: getattr(d, n) for n in ("inactive", "data_enable", "data_out", "addr_enable", "reader_error", "reader_active")})
    outs.update({"f_writable": f.writable, "f_out": f.data_out, "f_valid": f.valid_out})
    conns = [(a.address_latch, d.addr_enable), (d.data_full, f.writable16 == 0), (d.addr_in, a.address_o),
             (d.addr_empty, a.address_valid == 0), (f.data_in, d.data_out), (f.end_in, 0), (f.valid_in, d.data_enable)]
    return designs.Group([d, f, a], conns), ins, outs


def mk_writerfifo():
    import axihp_writer, axihp_fifo, address_generator
    d, f, a = axihp_writer.AxiHPWriter(), axihp_fifo.AxiHPFifo(), address_generator.AddressGenerator(SHIFT)
    ins = {n: getattr(d.m_axi_wi, n) for n in WI}
    outs = {n: getattr(d.m_axi_wo, n) for n in WO}
    ins.update({"enable": d.enable, "start": a.starting_address, "write_strobe": d.write_strobe,
                "f_in": f.data_in, "f_valid": f.valid_in, "f_end": f.end_in})
    outs.update({n: getattr(d, n) for n in ("inactive", "data_enable", "addr_enable", "writer_error", "writer_active", "writer_unconf")})
    outs.update({"f_writable": f.writable})
    conns = [(a.address_latch, d.addr_enable), (d.addr_in, a.address_o), (d.addr_empty, a.address_valid == 0),
             (d.data_in, f.data_out), (d.data_empty, f.readable16 == 0), (f.read, d.data_enable)]
    return designs.Group([d, f, a], conns), ins, outs


class Enable:
    """on, with drops"""

    def __init__(self, g, r):
        self.g, self.r = g, r
        self.drops = g.random() < .5
        self.v = 0
        self.left = g.randint(0, 6)

    def __call__(self, t):
        if self.left == 0:
            if not self.v:
                self.v = 1
                self.left = self.g.randint(2, 150) if self.drops else -1
            else:
                self.v = 0
                self.r.count("enable_drops")
                self.left = self.g.choice((1, 1, 2, 3, self.g.randint(4, 60)))
        self.left -= 1
        return self.v


def word(a, i):
    x = (a * 0x9E3779B97F4A7C15 + i * 0xD1B54A32D192ED03 + 0x1234567) & (1 << 64) - 1
    return x ^ x >> 29


def stall(g):
    return gen.Stall(g, g.choice(("never", "light", "half", "burst", "phase", "heavy", "one_in", "alternate")))


class ReadMemory:
    def __init__(self, s, g, r):
        self.s, self.g, self.r = s, g, r
        self.q = []          # bursts accepted and not finished
        self.beat = 0
        self.limit = g.choice((1, 2, 8, 16))
        self.sa, self.sd = stall(g), stall(g)
        self.lat = g.choice((0, 0, 1, 5, 30))
        self.age = []
        self.off = False
        self.prev = None
        self.accepted = []
        self.errs = 0
        self.perr = g.choice((0, 0, .02))
        self.left = 0

    def pre(self, t):
        s, g = self.s, self.g
        self.ar = len(self.q) < self.limit and not self.sa()
        s.set("p_arready", self.ar)
        rv = bool(self.q) and self.age[0] <= t and (self.off or not self.sd())
        if rv and not self.off:
            self.resp = g.choice((2, 3)) if g.random() < self.perr else 0
        s.set("p_rvalid", rv)
        s.set("p_rdata", word(self.q[0], self.beat) if rv else g.getrandbits(64))
        s.set("p_rlast", self.beat == 15 if rv else g.getrandbits(1))
        s.set("p_rresp", self.resp if rv else g.getrandbits(2))
        s.set("p_rid", 0)
        self.rv = rv

    def post(self, t):
        """returns an error text"""
        s = self.s
        av = s.get("q_arvalid")
        cur = tuple(s.get("q_" + n) for n in ("araddr", "arlen", "arsize", "arburst", "arid"))
        if self.prev is not None and (not av or cur != self.prev):
            return "read request withdrawn or changed before it was taken"
        self.prev = None
        self.took = self.moved = self.ended = False
        if av:
            if cur[1:4] != (15, 3, 1):
                return "read request with len %d size %d burst %d" % cur[1:4]
            if self.ar:
                self.q.append(cur[0])
                self.age.append(t + 1 + (self.g.randint(0, self.lat) if self.lat else 0))
                self.accepted.append(cur[0])
                self.took = True
            else:
                self.prev = cur
        self.err_now = False
        if self.rv:
            self.off = True
            if s.get("q_rready"):
                self.off = False
                self.moved = True
                self.err_now = self.resp != 0
                self.beat += 1
                if self.beat == 16:
                    self.beat = 0
                    self.q.pop(0)
                    self.age.pop(0)
                    self.ended = True
        return None


def reader(r, job, fifo=False):
    s = hw.build(mk_readerfifo if fifo else mk_reader)
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        n = job["big"] if "big" in job else g.randint(1, 40)
        base = g.getrandbits(25) << 7
        addrs = [(base + SHIFT * i) & 0xFFFFFFFF for i in range(n + 20)] if fifo else [g.getrandbits(32) for _ in range(n)]
        mem, en = ReadMemory(s, g, r), Enable(g, r)
        sa, so = stall(g), stall(g)
        level, room = 0, g.choice((12, 12, 4, 16))
        got, ai, err, t, idle, offq = [], 0, None, 0, 0, 0
        shown = False
        quiet = 0
        if fifo:
            s.set("p_start", base)
            s.set("p_enable", 0)
            s.set("p_arready", 0)
            s.set("p_rvalid", 0)
            s.set("p_read", 0)
            for _ in range(3):
                s.eval()
                s.tick()
        outstanding = 0
        while idle < 1500 and t < 60000 + 4000 * n and not err:
            e = en(t) if not fifo or len(mem.accepted) < n else 0
            s.set("p_enable", e)
            mem.pre(t)
            if fifo:
                take = 0 if so() else 1
                s.set("p_read", take)
            else:
                shown = ai < n and (shown or not sa())
                s.set("p_addr_empty", 0 if shown else 1)
                s.set("p_addr_in", addrs[ai] if shown else g.getrandbits(32))
                s.set("p_data_full", 0 if level <= room else 1)
            s.eval()
            err = mem.post(t)
            idle += 1
            # outstanding, as of the start of this cycle
            r.count("counter_checks")
            if not err and s.get("q_reader_active") != outstanding:
                err = "the reader counts %d outstanding bursts, there are %d" % (s.get("q_reader_active"), outstanding)
            if not err and s.get("q_inactive") != (outstanding == 0):
                err = "inactive is %d with %d bursts outstanding" % (s.get("q_inactive"), outstanding)
            if not err and s.get("q_reader_error") != mem.err_now:
                err = "error flag %d in a cycle with response error %d" % (s.get("q_reader_error"), mem.err_now)
            r.count("error_responses", mem.err_now)
            r.counters["max_outstanding"] = max(r.counters.get("max_outstanding", 0), outstanding)
            outstanding += mem.took - mem.ended
            if outstanding > 8:
                err = err or "%d bursts outstanding" % outstanding
            if s.get("q_arvalid"):
                quiet += e == 0 and not mem.prev
                if not e and offq >= 2 and not was:
                    err = err or "a burst was requested %d cycles after the reader was disabled" % offq
            was = s.get("q_arvalid")
            offq = offq + 1 if not e else 0
            if s.get("q_addr_enable") != mem.took:
                err = err or "address taken %d, request taken %d" % (s.get("q_addr_enable"), mem.took)
            if mem.took:
                idle = 0
                if not fifo:
                    ai += 1
                    shown = False
            if s.get("q_data_enable") != mem.moved:
                err = err or "data beat handed on %d, moved %d" % (s.get("q_data_enable"), mem.moved)
            if mem.moved:
                idle = 0
                r.count("beats")
                if fifo:
                    if not s.get("q_f_writable"):
                        err = err or "a beat was handed to a full FIFO"
                else:
                    got.append(s.get("q_data_out"))
                    level += 1
            if fifo:
                if s.get("q_f_valid") and take:
                    got.append(s.get("q_f_out"))
                    r.count("fifo_beats")
                    idle = 0
            elif level and not so():
                level -= 1
                idle = 0
            if level > 32:
                err = err or "the FIFO behind the reader overflows (%d)" % level
            s.tick()
            t += 1
        if not err:
            if mem.accepted != addrs[:len(mem.accepted)]:
                i = [a == b for a, b in zip(mem.accepted, addrs)].index(False)
                err = "burst %d at %08x, expected %08x" % (i, mem.accepted[i], addrs[i])
            elif len(mem.accepted) < n or mem.q:
                err = "%d of %d bursts were requested, %d not finished" % (len(mem.accepted), n, len(mem.q))
            elif got != [word(a, i) for a in mem.accepted for i in range(16)]:
                err = "%d beats came out of %d bursts, not the ones read" % (len(got), len(mem.accepted))
        r.count("bursts_read", len(mem.accepted))
        r.count("addresses", len(mem.accepted))
        r.count("cycles", t)
        r.ok((job["name"], job["seed"], c))
        r.sample("%s: %d bursts, request %s data %s sink %s, latency up to %d" % (job["fn"], n, mem.sa.kind, mem.sd.kind, so.kind, mem.lat))
        if err:
            r.fail("reader", "%s, %d bursts (request %s, data %s, sink %s), cycle %d: %s" % (
                "reader with FIFO" if fifo else "reader", n, mem.sa.kind, mem.sd.kind, so.kind, t, err))
            if r.enough:
                break


def readerfifo(r, job):
    reader(r, job, True)


class WriteMemory:
    def __init__(self, s, g, r):
        self.s, self.g, self.r = s, g, r
        self.addrs = []
        self.beats = []
        self.nd = 0           # bursts whose data is complete
        self.resp = []        # (due, code) of responses not yet taken
        self.sa, self.sd = stall(g), stall(g)
        self.hold = g.choice((1, 1, 8, 8, 40))
        self.lat = g.choice((0, 2, 20, 600))
        self.perr = g.choice((0, 0, .1))
        self.pa = self.pw = None
        self.boff = False

    def pre(self, t):
        s, g = self.s, self.g
        self.aw = not self.sa() and len(self.addrs) - self.nd < self.hold
        self.w = not self.sd()
        s.set("p_awready", self.aw)
        s.set("p_wready", self.w)
        bv = bool(self.resp) and self.resp[0][0] <= t
        s.set("p_bvalid", bv)
        s.set("p_bresp", self.resp[0][1] if bv else g.getrandbits(2))
        s.set("p_bid", 0)
        self.bv = bv

    def post(self, t):
        s = self.s
        self.took = self.moved = self.ended = self.answered = self.err_now = False
        av, wv = s.get("q_awvalid"), s.get("q_wvalid")
        a = tuple(s.get("q_" + n) for n in ("awaddr", "awlen", "awsize", "awburst", "awid"))
        w = tuple(s.get("q_" + n) for n in ("wdata", "wstrb", "wlast", "wid"))
        if self.pa is not None and (not av or a != self.pa):
            return "write request withdrawn or changed before it was taken"
        if self.pw is not None and (not wv or w != self.pw):
            return "data beat withdrawn or changed before it was taken"
        self.pa = self.pw = None
        if av and a[1:4] != (15, 3, 1):
            return "write request with len %d size %d burst %d" % a[1:4]
        if wv and len(self.addrs) <= self.nd:
            return "data offered before the address of its burst was taken"
        if wv:
            if self.w:
                self.beats.append(w)
                self.moved = True
                if w[2] != (len(self.beats) % 16 == 0):
                    return "last flag %d on beat %d of its burst" % (w[2], (len(self.beats) - 1) % 16 + 1)
                if w[2]:
                    self.nd += 1
                    self.ended = True
                    due = t + 1 + (self.g.randint(0, self.lat) if self.lat else 0)
                    if self.resp:
                        due = max(due, self.resp[-1][0])
                    self.resp.append((due, self.g.choice((2, 3)) if self.g.random() < self.perr else 0))
            else:
                self.pw = w
        if av:
            if self.aw:
                self.addrs.append(a[0])
                self.took = True
            else:
                self.pa = a
        if self.bv and s.get("q_bready"):
            self.err_now = self.resp.pop(0)[1] != 0
            self.answered = True
        return None


def writer(r, job, fifo=False):
    s = hw.build(mk_writerfifo if fifo else mk_writer)
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        n = job["big"] if "big" in job else g.randint(1, 40)
        base = g.getrandbits(25) << 7
        addrs = [(base + SHIFT * i) & 0xFFFFFFFF for i in range(n + 20)] if fifo else [g.getrandbits(32) for _ in range(n)]
        data = [g.getrandbits(64) for _ in range(16 * n)]
        mem, en = WriteMemory(s, g, r), Enable(g, r)
        strobe = g.choice((0xFF, 0xFF, g.getrandbits(8)))
        s.set("p_write_strobe", strobe)
        sa, si = stall(g), stall(g)
        di = 0               # beats put into the FIFO
        do = 0               # beats taken out
        ai, err, t, idle, offq, was, shown = 0, None, 0, 0, 0, 0, False
        active = unconf = 0
        if fifo:
            s.set("p_start", base)
            for p in ("enable", "awready", "wready", "bvalid", "f_valid"):
                s.set("p_" + p, 0)
            for _ in range(3):
                s.eval()
                s.tick()
        while idle < 2500 and t < 120000 + 4000 * n and not err:
            e = en(t) if len(mem.addrs) < n else 0
            if len(mem.addrs) >= n and not en.drops:
                e = 1 if not fifo else 0
            s.set("p_enable", e)
            mem.pre(t)
            fv = 0
            if fifo:
                fv = 1 if di < len(data) and not si() else 0
                s.set("p_f_valid", fv)
                s.set("p_f_in", data[di] if fv else g.getrandbits(64))
                s.set("p_f_end", g.getrandbits(1))
            else:
                shown = ai < n and (shown or not sa())
                s.set("p_addr_empty", 0 if shown else 1)
                s.set("p_addr_in", addrs[ai] if shown else g.getrandbits(32))
                s.set("p_data_empty", 0 if di - do >= 16 else 1)
                s.set("p_data_in", data[do] if do < di else g.getrandbits(64))
            s.eval()
            err = mem.post(t)
            idle += 1
            r.count("counter_checks", 2)
            if not err and (s.get("q_writer_active"), s.get("q_writer_unconf")) != (active, unconf):
                err = "the writer counts %d active and %d unconfirmed bursts, there are %d and %d" % (
                    s.get("q_writer_active"), s.get("q_writer_unconf"), active, unconf)
            if not err and s.get("q_inactive") != (active == 0 and unconf == 0):
                err = "inactive is %d with %d active and %d unconfirmed bursts" % (s.get("q_inactive"), active, unconf)
            if not err and s.get("q_writer_error") != mem.err_now:
                err = "error flag %d in a cycle with response error %d" % (s.get("q_writer_error"), mem.err_now)
            r.count("error_responses", mem.err_now)
            r.counters["max_outstanding"] = max(r.counters.get("max_outstanding", 0), active)
            r.counters["max_unconfirmed"] = max(r.counters.get("max_unconfirmed", 0), unconf)
            active += mem.took - mem.ended
            unconf += mem.took - mem.answered
            if active > 8:
                err = err or "%d bursts with data outstanding" % active
            if s.get("q_awvalid") and not e and offq >= 2 and not was:
                err = err or "a burst was requested %d cycles after the writer was disabled" % offq
            was = s.get("q_awvalid")
            offq = offq + 1 if not e else 0
            if s.get("q_addr_enable") != mem.took:
                err = err or "address taken %d, request taken %d" % (s.get("q_addr_enable"), mem.took)
            if s.get("q_data_enable") != mem.moved:
                err = err or "data beat taken %d, moved %d" % (s.get("q_data_enable"), mem.moved)
            if mem.took or mem.moved or mem.answered:
                idle = 0
            if mem.took and not fifo:
                ai += 1
                shown = False
            if mem.moved:
                r.count("beats")
                if do >= di:
                    err = err or "a beat was taken from an empty FIFO"
                do += 1
            if fifo:
                if fv and s.get("q_f_writable"):
                    di += 1
                    idle = 0
                    r.count("fifo_beats")
            elif di < len(data) and di - do < 32 and not si():
                di += 1
                idle = 0
            s.tick()
            t += 1
        if not err:
            if mem.addrs != addrs[:len(mem.addrs)]:
                i = [a == b for a, b in zip(mem.addrs, addrs)].index(False)
                err = "burst %d at %08x, expected %08x" % (i, mem.addrs[i], addrs[i])
            elif len(mem.addrs) < n or mem.nd < n or mem.resp:
                err = "%d of %d bursts were requested, %d have their data, %d responses not taken" % (len(mem.addrs), n, mem.nd, len(mem.resp))
            elif [b[0] for b in mem.beats] != data[:len(mem.beats)]:
                i = [a[0] == b for a, b in zip(mem.beats, data)].index(False)
                err = "beat %d carries %016x, expected %016x" % (i, mem.beats[i][0], data[i])
            elif any(b[1] != strobe for b in mem.beats):
                err = "strobes differ from the ones asked for"
        r.count("bursts_written", len(mem.addrs))
        r.count("addresses", len(mem.addrs))
        r.count("cycles", t)
        r.ok((job["name"], job["seed"], c))
        r.sample("%s: %d bursts, request %s data %s source %s, response within %d" % (job["fn"], n, mem.sa.kind, mem.sd.kind, si.kind, mem.lat))
        if err:
            r.fail("writer", "%s, %d bursts (request %s, data %s, source %s), cycle %d: %s" % (
                "writer with FIFO" if fifo else "writer", n, mem.sa.kind, mem.sd.kind, si.kind, t, err))
            if r.enough:
                break


def writerfifo(r, job):
    writer(r, job, True)


def fifo(r, job):
    s = hw.build(designs.simple("axihp_fifo", "AxiHPFifo", ["data_in", "end_in", "valid_in", "read"],
                                ["data_out", "end_out", "valid_out", "writable", "readable", "writable16", "readable16"], full=False))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        a, b = gen.Stall(g), gen.Stall(g)
        q, err = [], None
        for t in range(g.randint(20, 600)):
            v, rd = 0 if a() else 1, 0 if b() else 1
            x = (g.getrandbits(64), g.getrandbits(1))
            s.set("p_valid_in", v)
            s.set("p_data_in", x[0])
            s.set("p_end_in", x[1])
            s.set("p_read", rd)
            s.eval()
            o = {n: s.get("q_" + n) for n in ("data_out", "end_out", "valid_out", "writable", "readable", "writable16", "readable16")}
            if o["valid_out"] != o["readable"]:
                err = "valid and readable differ"
            if o["readable"] and (not q or (o["data_out"], o["end_out"]) != q[0]):
                err = "shows %016x/%d, expected %s" % (o["data_out"], o["end_out"], q[:1])
            if q and not o["readable"]:
                err = "holds %d beats and shows none" % len(q)
            if o["writable16"] and len(q) > 16:
                err = "says there is room for a burst with %d of 32 beats in it" % len(q)
            if not o["writable16"] and len(q) <= 12:
                err = "says there is no room for a burst with %d of 32 beats in it" % len(q)
            if o["readable16"] != (len(q) >= 16):
                err = "says a whole burst is there: %d, with %d beats in it" % (o["readable16"], len(q))
            if o["writable"] != (len(q) < 32):
                err = "says there is room: %d, with %d of 32 beats in it" % (o["writable"], len(q))
            if o["valid_out"] and rd:
                q.pop(0)
                r.count("fifo_beats")
            if v and o["writable"]:
                q.append(x)
            s.tick()
            if err:
                break
        r.ok((job["name"], job["seed"], c))
        r.count("cycles", t)
        if err:
            r.fail("fifo", "cycle %d, source %s sink %s: %s" % (t, a.kind, b.kind, err))
            if r.enough:
                break


def addr(r, job):
    shift = job["seed"] * 24 % 4096 or SHIFT
    s = hw.build(designs.simple("address_generator", "AddressGenerator", ["starting_address", "address_latch"],
                                ["address_o", "address_valid"], full=False, args=(shift,)))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        base, err = g.getrandbits(32), None
        if g.random() < .5:       # over a carry, into any bit or out of the last
            base = ((1 << g.randint(8, 32)) * g.choice((1, 1, 3, g.getrandbits(8) | 1)) - shift * g.randint(1, 20) - g.randint(0, shift)) & 0xFFFFFFFF
            r.count("address_carries")
        if g.random() < .3:       # it may be set late
            for _ in range(g.randint(1, 5)):
                s.set("p_starting_address", g.getrandbits(32))
                s.set("p_address_latch", 0)
                s.eval()
                s.tick()
            s.set("p_starting_address", base)
            s.eval()
            s.tick()
        s.set("p_starting_address", base)
        a = gen.Stall(g)
        exp, wait = base, g.randint(2, 8)
        for t in range(g.randint(20, 300)):
            l = 1 if t >= wait and not a() else 0
            s.set("p_address_latch", l)
            if exp != base:
                s.set("p_starting_address", g.getrandbits(32))
            s.eval()
            if s.get("q_address_valid") and (s.get("q_address_o") != exp):
                err = "address %08x, expected %08x" % (s.get("q_address_o"), exp)
            if t >= 2 and not s.get("q_address_valid"):
                err = "no address"
            if l:
                exp = (exp + shift) & 0xFFFFFFFF
                r.count("addresses")
            s.tick()
            if err:
                break
        r.ok((job["name"], job["seed"], c))
        if err:
            r.fail("address generator", "start %08x step %x, cycle %d: %s" % (base, shift, t, err))
            if r.enough:
                break
