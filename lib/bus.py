"""Agents that drive the designs and monitors that watch their interfaces."""


class AxiLite:
    """One transaction at a time; the three write-side handshakes and the two
    read-side ones get independent delays.  Watches the handshake rules."""

    def __init__(self, sim, pre="ax_", rng=None, gap=0, ready="random", role="rw"):
        """role: "r" or "w" leaves the other channels to a second agent"""
        self.s, self.p, self.rng, self.role = sim, pre, rng, role
        self.now = 0
        self.times = []      # (start, end) of each operation in done
        self.gap, self.ready = gap, ready
        self.q = []          # pending ops
        self.done = []       # (op, result)
        self.cur = None
        self.nxt = None      # offered before the one before it is answered
        self.early = rng is not None and rng.random() < .5
        self.keen = rng is not None and rng.random() < .3     # ready without anything asked for
        self.n_early = 0
        self.err = []
        self.events = 0
        self.wait = 0
        g = sim.idx
        self.o = {n: g("q_" + pre + n) for n in ("arready", "rdata", "rresp", "rvalid",
                                                 "awready", "wready", "bresp", "bvalid")}
        self.i = {n: g("p_" + pre + n) for n in ("araddr", "arprot", "arvalid", "rready", "awaddr",
                                                 "awprot", "awvalid", "wdata", "wstrb", "wvalid", "bready")}
        self.prev = None

    def read(self, addr):
        self.q.append(("r", addr))

    def write(self, addr, data, strb=15):
        self.q.append(("w", addr, data, strb))

    def idle(self):
        return not self.q and self.cur is None and self.nxt is None

    def d(self, k):
        r = self.rng
        return 0 if r is None or r.random() < .4 else r.randint(0, k)

    def start(self, op):
        """[op, cycles since offered, address delay, data delay, address taken, data taken, first cycle]"""
        return [op, 0, self.d(4), self.d(8), False, False, self.now]

    def pre(self):
        io, i = self.s.io, self.i
        if self.cur is None:
            x = self.nxt
            self.nxt = None
            if x is None and self.q:
                if self.wait > 0:
                    self.wait -= 1
                else:
                    x = self.start(self.q.pop(0))
            if x is not None:
                self.cur = x
                self.t = 0
                late = self.ready == "late" or (self.ready == "random" and self.rng and self.rng.random() < .5)
                self.ready_when = ("resp" if late else "start", self.d(6))
                self.rdyc = None
        c = self.cur
        if c and self.early and self.nxt is None and self.q and self.q[0][0] == c[0][0] and (c[4] or c[5]) and self.rng.random() < .3:
            self.nxt = self.start(self.q.pop(0))
            self.n_early += 1
        arv = awv = wv = rr = br = 0
        if self.rng:
            for n in ("araddr", "awaddr", "wdata"):
                if n[:2] == "ar" and "r" in self.role or n[:2] != "ar" and "w" in self.role:
                    io[i[n]] = self.rng.getrandbits(32)
            if "w" in self.role:
                io[i["wstrb"]] = self.rng.getrandbits(4)
        # a channel belongs to the first access that has not used it
        ac = dc = None
        for x in (c, self.nxt):
            if x is None:
                continue
            if not x[4] and ac is None:
                ac = x
            if x[0][0] == "w" and not x[5] and dc is None:
                dc = x
        if ac is not None and ac[1] >= ac[2]:
            if ac[0][0] == "r":
                arv = 1
                io[i["araddr"]] = ac[0][1]
            else:
                awv = 1
                io[i["awaddr"]] = ac[0][1]
        if dc is not None and dc[1] >= dc[3]:
            wv = 1
            io[i["wdata"]], io[i["wstrb"]] = dc[0][2], dc[0][3]
        self.ac, self.dc = ac, dc
        if c:
            if self.ready_when[0] == "start":
                rdy = self.t >= self.ready_when[1]
            else:
                # only after the response is visible, as the protocol allows
                rdy = self.rdyc is not None and self.t >= self.rdyc + self.ready_when[1]
            rr = 1 if c[0][0] == "r" and rdy else 0
            br = 1 if c[0][0] == "w" and rdy else 0
        if self.keen:
            rr = rr if c and c[0][0] == "r" else self.rng.getrandbits(1)
            br = br if c and c[0][0] == "w" else self.rng.getrandbits(1)
        if "r" in self.role:
            io[i["arvalid"]], io[i["rready"]] = arv, rr
        if "w" in self.role:
            io[i["awvalid"]], io[i["wvalid"]], io[i["bready"]] = awv, wv, br
        self.drv = (arv, awv, wv, rr, br)

    def going(self):
        """accesses offered and not answered"""
        return [x[0] for x in (self.cur, self.nxt) if x is not None]

    def post(self):
        """after eval, before the clock edge"""
        io, o = self.s.io, self.o
        arv, awv, wv, rr, br = self.drv
        rv = io[o["rvalid"]] if "r" in self.role else 0
        bv = io[o["bvalid"]] if "w" in self.role else 0
        c = self.cur
        rd, rs, bs = io[o["rdata"]], io[o["rresp"]], io[o["bresp"]]
        pv = self.prev
        if pv is not None:
            if pv[0] == "r" and not (rv and (rd, rs) == pv[1]):
                self.err.append("read response withdrawn or changed before it was taken")
            if pv[0] == "b" and not (bv and bs == pv[1]):
                self.err.append("write response withdrawn or changed before it was taken")
        self.prev = None
        if rv and not (c and c[0][0] == "r" and c[4]):
            self.err.append("read response without a read outstanding")
        if bv and not (c and c[0][0] == "w" and c[4] and c[5]):
            self.err.append("write response without a complete write outstanding")
        if self.nxt is not None:
            self.nxt[1] += 1
        if c:
            self.t += 1
            c[1] += 1
            if (rv or bv) and self.rdyc is None:
                self.rdyc = self.t
            if arv and io[o["arready"]] or awv and io[o["awready"]]:
                self.ac[4] = True
                self.events += 1
            if wv and io[o["wready"]]:
                self.dc[5] = True
                self.events += 1
            if rv and c[0][0] == "r":
                if rr:
                    self.done.append((c[0], rd, rs))
                    self.cur = None
                    self.events += 1
                else:
                    self.prev = ("r", (rd, rs))
            if bv and c[0][0] == "w":
                if br:
                    self.done.append((c[0], None, bs))
                    self.cur = None
                    self.events += 1
                else:
                    self.prev = ("b", bs)
            if self.cur is None:
                self.wait = self.d(5) if self.rng else 0
                self.times.append((c[6], self.now))
        if self.t_over():
            self.err.append("transaction %r not answered within %d cycles" % (c[0], self.t))
            self.cur = None
        self.now += 1

    t = 0

    def t_over(self):
        return self.cur is not None and self.t > 300

    def run(self, limit=None):
        """drive alone until every queued operation is answered"""
        n, limit = 0, limit or 100000 + 60 * len(self.q)
        while not self.idle() and n < limit:
            self.pre()
            self.s.eval()
            self.post()
            self.s.tick()
            n += 1
        self.pre()
        return n

