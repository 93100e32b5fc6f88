"""The AXI3 to AXI-Lite bridge: monitors on both sides."""
import hw, gen, designs, frames, regs

RULE = ("A case is a history of single-beat reads and writes with drawn ids, addresses, data and handshake delays, reads and "
        "writes at the same time, sent through the simulated bridge to a slave model with drawn delays and responses, or to the core's "
        "register port. The slave must see address, protection, data and strobes unchanged, in order; the master must see each "
        "response once with the id of its request, the last flag, data and response code unchanged, kept until taken. Distinct "
        "by harness and history.")
ASSUMPTIONS = ["one read and one write outstanding, as the register port behind the bridge has it", "all bursts are single beats"]
REQUIRED = {"reads": 5000, "writes": 5000, "overlapping": 1000, "response_waits": 4000,
            "early_requests": 3000, "ready_without_request": 3000, "id_changes": 5000, "error_responses": 1000}


def jobs(tier, seed):
    q = tier == "quick"
    js = [{"name": "model%d" % i, "fn": "slave", "n": 400 if q else 1500} for i in range(8)]
    js += [{"name": "long%d" % i, "fn": "slave", "n": 1, "big": 5000 if q else 80000, "weight": 20, "timeout": 800} for i in range(1 if q else 4)]
    js += [{"name": "core%d" % i, "fn": "core", "bd": bd, "n": 150 if q else 400} for i, bd in enumerate((12, 16, 8, 14, 2, 5, 10, 13) if q else range(2, 17))]
    return js


S_IN = {"r": ("arid", "araddr", "arburst", "arlen", "arsize", "arprot", "arvalid", "rready"),
        "w": ("awid", "awaddr", "awburst", "awlen", "awsize", "awprot", "awvalid", "wid", "wdata", "wstrb", "wlast", "wvalid", "bready")}
S_OUT = {"r": ("arready", "rid", "rdata", "rlast", "rresp", "rvalid"), "w": ("awready", "wready", "bid", "bresp", "bvalid")}
M_OUT = {"r": ("araddr", "arprot", "arvalid", "rready"), "w": ("awaddr", "awprot", "awvalid", "wdata", "wstrb", "wvalid", "bready")}
M_IN = {"r": ("arready", "rdata", "rresp", "rvalid"), "w": ("awready", "wready", "bresp", "bvalid")}


def ports(b):
    ins = {n: getattr(getattr(b, "s_axi_%si" % k), n) for k in "rw" for n in S_IN[k]}
    outs = {n: getattr(getattr(b, "s_axi_%so" % k), n) for k in "rw" for n in S_OUT[k]}
    return ins, outs


def alone():
    import axi_lite
    b = axi_lite.AxiLite()
    ins, outs = ports(b)
    ins.update({"m_" + n: getattr(getattr(b, "m_axi_%si" % k), n) for k in "rw" for n in M_IN[k]})
    outs.update({"m_" + n: getattr(getattr(b, "m_axi_%so" % k), n) for k in "rw" for n in M_OUT[k]})
    return b, ins, outs


def with_core(bd):
    def make():
        import axi_lite, integration_1, constraints
        designs.prepare()
        cfg = designs.base_config(bit_depth=bd, support_axi_lite=True)
        d = integration_1.Integration1(cfg, constraints.Constraints())
        c = designs.made("CoreAxiLite")
        b = axi_lite.AxiLite()
        conns = []
        for k in "rw":
            conns += [(getattr(getattr(c, "s_axi_%si" % k), n), getattr(getattr(b, "m_axi_%so" % k), n)) for n in M_OUT[k]]
            conns += [(getattr(getattr(b, "m_axi_%si" % k), n), getattr(getattr(c, "s_axi_%so" % k), n)) for n in M_IN[k]]
        ins, outs = ports(b)
        return designs.Group([b, d], conns), ins, outs, True
    return make


class Chan:
    """one direction of the AXI3 master"""

    def __init__(self, s, g, kind, ops, r):
        self.s, self.g, self.k, self.ops, self.r = s, g, kind, ops, r
        self.n = -1
        self.early = False
        self.err = None
        self.done = []
        self.prev = None
        self.next()

    def d(self, k):
        return 0 if self.g.random() < .4 else self.g.randint(1, k)

    def next(self):
        self.n += 1
        self.t = 0
        self.gap, self.da, self.dw = self.d(4), self.d(3), self.d(5)
        self.a = self.w = False
        if self.early:
            self.gap = self.da = 0
        self.early = False
        self.late = self.g.random() < .5
        self.dr = self.d(6)
        self.seen = None

    @property
    def op(self):
        return self.ops[self.n] if self.n < len(self.ops) else None

    @property
    def busy(self):
        return self.op is not None and self.t > self.gap

    def pre(self):
        s, g, k = self.s, self.g, self.k
        op = self.op
        p = "a" + k
        av = op is not None and not self.a and self.t >= self.gap + self.da
        # the next request may already be there while this one's response is outstanding
        if self.a and not self.early and self.n + 1 < len(self.ops) and g.random() < .15:
            self.early = True
        nxt = self.a and self.early
        if nxt:
            op, av = self.ops[self.n + 1], True
            self.r.count("early_requests")
        for n in ("id", "addr", "burst", "len", "size", "prot"):
            s.set("p_%s%s" % (p, n), op[n] if av and n in op else (0 if av and n == "len" else g.getrandbits(32)))
        s.set("p_%svalid" % p, av)
        self.av = av
        if nxt:
            op, av = self.op, False
        wv = False
        if k == "w":
            wv = op is not None and not self.w and self.t >= self.gap + self.dw
            s.set("p_wid", op["id"] if wv else g.getrandbits(12))
            s.set("p_wdata", op["data"] if wv else g.getrandbits(32))
            s.set("p_wstrb", op["strb"] if wv else g.getrandbits(4))
            s.set("p_wlast", 1 if wv else g.getrandbits(1))
            s.set("p_wvalid", wv)
        rdy = op is not None and (self.t >= self.gap + self.dr if not self.late else self.seen is not None and self.t >= self.seen + self.dr)
        s.set("p_%sready" % ("r" if k == "r" else "b"), rdy)
        self.drv = (av, wv, rdy)

    def post(self):
        s, k, op = self.s, self.k, self.op
        av, wv, rdy = self.drv
        c = "r" if k == "r" else "b"
        v = s.get("q_%svalid" % c)
        cur = tuple(s.get("q_" + c + n) for n in (("id", "data", "resp", "last") if k == "r" else ("id", "resp")))
        if self.prev is not None and not (v and cur == self.prev):
            self.err = self.err or "%s response withdrawn or changed before it was taken" % k
        self.prev = None
        if self.early and self.av and self.a and s.get("q_a%sready" % k):
            self.err = self.err or "%s request accepted while an earlier one is outstanding" % k
        if v and not (op and self.a and (k == "r" or self.w)):
            self.err = self.err or "%s response without a request" % k
        elif v:
            if self.seen is None:
                self.seen = self.t
            if rdy:
                self.done.append(cur)
                self.next()
                return
            self.r.count("response_waits")
            self.prev = cur
        if av and s.get("q_a%sready" % k):
            self.a = True
        if wv and s.get("q_wready"):
            self.w = True
        self.t += 1
        if self.t > 400 and op is not None:
            self.err = self.err or "%s request %r not answered within 400 cycles" % (k, op)


class Slave:
    """answers one read and one write at a time, and records what it got"""

    def __init__(self, s, g):
        self.s, self.g = s, g
        self.R = self.A = self.W = None
        self.tr = self.tw = self.idle = 0
        self.rd = self.wr = 0
        self.got_r, self.got_w = [], []
        self.sent_r, self.sent_w = [], []

    def pre(self, ar, aw):
        s, g = self.s, self.g
        # ready may be high at any time, but a request is only taken when none is outstanding
        self.ar = not (self.R is not None and ar) and g.random() < .6
        s.set("p_m_arready", self.ar)
        rv = self.R is not None and self.tr <= 0
        self.rv = rv
        s.set("p_m_rvalid", rv)
        s.set("p_m_rdata", self.R[0] if rv else g.getrandbits(32))
        s.set("p_m_rresp", self.R[1] if rv else g.getrandbits(2))
        self.aw = not (self.A is not None and aw) and g.random() < .6
        self.idle += (self.ar and not ar and self.R is not None) + (self.aw and not aw and self.A is not None)
        self.ww = self.W is None and g.random() < .6
        s.set("p_m_awready", self.aw)
        s.set("p_m_wready", self.ww)
        bv = self.A is not None and self.W is not None and self.tw <= 0
        self.bv = bv
        s.set("p_m_bvalid", bv)
        s.set("p_m_bresp", self.B if bv else g.getrandbits(2))

    def post(self):
        s, g = self.s, self.g
        self.tr -= 1
        self.tw -= 1
        if self.rv and s.get("q_m_rready"):
            self.sent_r.append(self.R)
            self.R = None
        if self.ar and s.get("q_m_arvalid"):
            self.got_r.append((s.get("q_m_araddr"), s.get("q_m_arprot")))
            self.R = (g.getrandbits(32), g.choice((0, 0, 2, 3)))
            self.tr = g.choice((0, 0, g.randint(0, 6)))
        if self.bv and s.get("q_m_bready"):
            self.sent_w.append(self.B)
            self.A = self.W = None
        a, w = self.A, self.W
        if self.aw and s.get("q_m_awvalid"):
            self.A = (s.get("q_m_awaddr"), s.get("q_m_awprot"))
        if self.ww and s.get("q_m_wvalid"):
            self.W = (s.get("q_m_wdata"), s.get("q_m_wstrb"))
        if (a is None or w is None) and self.A is not None and self.W is not None:
            self.got_w.append(self.A + self.W)
            self.B = g.choice((0, 0, 2, 3))
            self.tw = g.choice((0, 0, g.randint(0, 6)))


def make_ops(g, kind, n, addr):
    out = []
    i = g.getrandbits(12)
    for _ in range(n):
        if g.random() < .8:
            i = g.getrandbits(12)
        o = {"id": i, "addr": addr(), "prot": g.getrandbits(3)}
        if kind == "w":
            o.update(data=g.getrandbits(32), strb=g.choice((15, g.getrandbits(4))))
        out.append(o)
    return out


def drive(s, r, R, W, sl=None):
    k, limit = 0, 40000 + 100 * (len(R.ops) + len(W.ops))
    while (R.op or W.op) and k < limit and not R.err and not W.err:
        R.pre()
        W.pre()
        if sl:
            sl.pre(R.av, W.av)
        s.eval()
        r.count("overlapping", 1 if R.busy and W.busy else 0)
        R.post()
        W.post()
        if sl:
            sl.post()
        s.tick()
        k += 1
    r.count("cycles", k)
    return R.err or W.err or (None if k < limit else "not finished")


def stats(r, ro, wo):
    r.count("reads", len(ro))
    r.count("writes", len(wo))
    r.count("id_changes", sum(1 for l in (ro, wo) for a, b in zip(l, l[1:]) if a["id"] != b["id"]))


def slave(r, job):
    s = hw.build(alone)
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        top = job.get("big", 30)
        ro = make_ops(g, "r", g.randint(top // 3, top) if top > 30 else g.randint(0, 30), lambda: g.getrandbits(32))
        wo = make_ops(g, "w", g.randint(top // 3, top) if top > 30 else g.randint(0, 30), lambda: g.getrandbits(32))
        R, W, sl = Chan(s, g, "r", ro, r), Chan(s, g, "w", wo, r), Slave(s, g)
        err = drive(s, r, R, W, sl)
        stats(r, ro, wo)
        r.count("ready_without_request", sl.idle)
        r.count("error_responses", sum(1 for x in sl.sent_r if x[1]) + sum(1 for x in sl.sent_w if x))
        if not err:
            if sl.got_r != [(o["addr"], o["prot"]) for o in ro]:
                err = "the slave saw other read addresses"
            elif sl.got_w != [(o["addr"], o["prot"], o["data"], o["strb"]) for o in wo]:
                err = "the slave saw other writes"
            else:
                for i, (x, o, y) in enumerate(zip(R.done, ro, sl.sent_r)):
                    if x != (o["id"], y[0], y[1], 1):
                        err = "read %d: got id %03x data %08x resp %d last %d, expected id %03x data %08x resp %d last 1" % ((i,) + x + (o["id"],) + y)
                        break
                for i, (x, o, y) in enumerate(zip(W.done, wo, sl.sent_w)):
                    if x != (o["id"], y):
                        err = "write %d: answered with id %03x resp %d, expected id %03x resp %d" % ((i,) + x + (o["id"], y))
                        break
        r.ok(("model", c, job["name"], job["seed"]))
        r.sample("%d reads, %d writes through the bridge, ids %s" % (len(ro), len(wo), ["%03x" % o["id"] for o in ro[:5]]))
        if err:
            r.fail("bridge", "%d reads and %d writes: %s" % (len(ro), len(wo), err))
            if r.enough:
                break


def core(r, job):
    bd = job["bd"]
    s = hw.build(with_core(bd))
    for c in r.cases():
        g = r.rng(c)
        s.reset()
        ref = regs.Core(bd)
        wo = make_ops(g, "w", g.randint(1, 25), lambda: ref.addresses(g))
        ro = make_ops(g, "r", g.randint(0, 8), lambda: ref.addresses(g))
        # reads of registers nobody writes, at the same time
        wa = {o["addr"] for o in wo}
        ro = [o for o in ro if o["addr"] not in wa]
        W = Chan(s, g, "w", wo, r)
        R = Chan(s, g, "r", ro, r)
        err = drive(s, r, R, W)
        first = [(o, ref.peek(o["addr"])) for o in ro]
        wexp = [(o["id"], ref.poke(o["addr"], o["data"], o["strb"])) for o in wo]
        stats(r, ro, wo)
        if not err and W.done != wexp:
            i = [a == b for a, b in zip(W.done, wexp)].index(False)
            err = "write %d of %05x answered with id %03x resp %d, expected id %03x resp %d" % ((i, wo[i]["addr"]) + W.done[i] + wexp[i])
        if not err:
            # what was written is there
            ro = make_ops(g, "r", g.randint(1, 20), lambda: g.choice(sorted(wa)))
            old = R.done
            R = Chan(s, g, "r", ro, r)
            W = Chan(s, g, "w", [], r)
            err = drive(s, r, R, W)
            stats(r, ro, [])
            R.done = old + R.done
            first += [(o, ref.peek(o["addr"])) for o in ro]
        for i, (x, (o, (v, e))) in enumerate(zip(R.done, first)):
            if err:
                break
            if x[0] != o["id"] or x[2] != e or x[3] != 1 or (v is not None and x[1] != v):
                err = "read %d of %05x: id %03x data %08x resp %d last %d, expected id %03x data %s resp %d" % (
                    (i, o["addr"]) + x + (o["id"], "any" if v is None else "%08x" % v, e))
        r.ok(("core", bd, c, job["seed"]))
        if err:
            r.fail("bridge to core", "%d bits, %d writes: %s" % (bd, len(wo), err))
            if r.enough:
                break
