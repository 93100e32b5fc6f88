"""Drive a frame pipeline: a pixel source with stalls, a receiver with
back-pressure, and monitors on both interfaces."""
import model


class Trace:
    def __init__(self):
        self.out = []        # (data, end) in order of acceptance
        self.err = []
        self.cycles = 0
        self.accepted = 0
        self.stall_in = self.stall_out = 0
        self.stable_checks = 0
        self.states = set()


def run_busy(sim, ps, beats, si, so, idle_limit=3000, max_cycles=2000000, hold=False,
             stable=False, axil=None, hook=None, stop=None, stop_after_end=0, const=None):
    """The nready/busy interface.  beats: list of tuples of ps pixels.
    hold: the source keeps an offered beat until it is taken.
    stop: number of end words after which to stop (then runs idle_limit more to
    see whether anything else comes out)."""
    t = Trace()
    io = sim.io
    pv = sim.idx("p_vin")
    pp = [sim.idx("p_p%d" % i) for i in range(ps)]
    pb = sim.idx("p_busy")
    qv, qd, qe, qn = (sim.idx("q_" + n) for n in ("vout", "data", "end", "nready"))
    dw = sim.outputs["q_data"][1]
    bi, n = 0, len(beats)
    most = 1000 + 40 * n          # no design puts out more words, except for ever
    idle = 0
    offered = False
    prev = None
    ev, tick = sim.lib.sim_eval, sim.lib.sim_tick
    junk = si.rng
    ends = 0
    while t.cycles < max_cycles:
        if hook is not None:
            hook(sim, t)
        if axil is not None:
            axil.pre()
        if bi < n and ((hold and offered) or not si()):
            vin = 1
            b = beats[bi]
            for i in range(ps):
                io[pp[i]] = b[i]
        else:
            vin = 0
            k = t.cycles & 15
            if k == 0 or k == 8:
                for i in range(ps):
                    io[pp[i]] = junk.getrandbits(16) & 0xFFF
            elif k == 4 or k == 12:
                for i in range(ps):
                    io[pp[i]] = 0 if k == 4 else 0xFFF
        io[pv] = vin
        busy = so()
        io[pb] = busy
        ev()
        if axil is not None:
            axil.post()
        v = so.fb = io[qv]
        si.fb = not io[qn]
        idle += 1
        if vin:
            if not io[qn]:
                bi += 1
                idle = 0
                offered = False
            else:
                offered = True
                t.stall_in += 1
        if stable:
            cur = (sim.get("q_data") if dw > 64 else io[qd], io[qe])
            if prev is not None:
                t.stable_checks += 1
                if not v or cur != prev:
                    t.err.append("word %x end=%d offered in cycle %d and not taken, then valid=%d %x end=%d" % (
                        prev[0], prev[1], t.cycles - 1, v, cur[0], cur[1]))
                    prev = None
            prev = cur if v and busy else None
        if v:
            if busy:
                t.stall_out += 1
            else:
                t.out.append((sim.get("q_data") if dw > 64 else io[qd], io[qe]))
                idle = 0
                if io[qe]:
                    ends += 1
        tick()
        t.cycles += 1
        if idle > idle_limit or len(t.out) > most or len(t.err) > 50:
            break
        if stop_after_end and ends >= stop_after_end and bi >= n and idle > 40:
            break
    t.accepted = bi
    sim.cycles += t.cycles
    return t


def run_axis(sim, beats, si, so, idle_limit=3000, max_cycles=2000000, axil=None, hook=None,
             stop_after_end=0):
    """AXI-Stream on both sides; the source holds an offered beat (as the
    protocol asks) and the monitors check that the design does the same."""
    t = Trace()
    io = sim.io
    pv, pd, pr = sim.idx("p_s_tvalid"), sim.idx("p_s_tdata"), sim.idx("p_m_tready")
    ql = sim.idx("q_m_tlast") if "q_m_tlast" in sim.outputs else None
    qv, qd, qr = sim.idx("q_m_tvalid"), sim.idx("q_m_tdata"), sim.idx("q_s_tready")
    dw = sim.inputs["p_s_tdata"][1]
    bi, n = 0, len(beats)
    most = 1000 + 40 * n
    idle = 0
    offered = False
    prev = None
    rng = si.rng
    ends = 0
    ev, tick = sim.lib.sim_eval, sim.lib.sim_tick
    while t.cycles < max_cycles:
        if hook is not None:
            hook(sim, t)
        if axil is not None:
            axil.pre()
        if bi < n and (offered or not si()):
            vin = 1
            io[pd] = beats[bi]
        else:
            vin = 0
            k = t.cycles & 7
            io[pd] = 0 if k == 2 else (1 << dw) - 1 if k == 5 else io[pd] if k == 7 else rng.getrandbits(dw)
        io[pv] = vin
        rdy = 0 if so() else 1
        io[pr] = rdy
        ev()
        if axil is not None:
            axil.post()
        idle += 1
        if vin:
            if io[qr]:
                bi += 1
                idle = 0
                offered = False
            else:
                offered = True
                t.stall_in += 1
        v = so.fb = io[qv]
        cur = (io[qd], io[ql] if ql is not None else 0)
        if prev is not None:
            t.stable_checks += 1
            if not v or cur != prev:
                t.err.append("tdata %x tlast %d offered in cycle %d and not taken, then tvalid=%d tdata %x tlast %d" % (
                    prev[0], prev[1], t.cycles - 1, v, cur[0], cur[1]))
        prev = cur if v and not rdy else None
        if v:
            if rdy:
                t.out.append(cur)
                idle = 0
                if cur[1]:
                    ends += 1
            else:
                t.stall_out += 1
        tick()
        t.cycles += 1
        if idle > idle_limit or len(t.out) > most or len(t.err) > 50:
            break
        if stop_after_end and ends >= stop_after_end and bi >= n and idle > 40:
            break
    t.accepted = bi
    sim.cycles += t.cycles
    return t


def beats_of(px, ps):
    return [tuple(px[i:i + ps]) for i in range(0, len(px), ps)]


def framed(px, w, h, table=model.STD_TABLE, forced=False, bd=12):
    """what a product puts out for one frame"""
    return ([(0xFFFF, 0)] * 8 + [(x, 0) for x in model.product_words(px, w, h, bd, table)] +
            [(0xFFFF, 0)] * 7 + [(0xFFFF, 1)])


def first_diff(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return i
    return min(len(a), len(b)) if len(a) != len(b) else None


def show_diff(got, exp, k=3):
    i = first_diff(got, exp)
    if i is None:
        return None
    f = lambda l: " ".join("%x%s" % (x[0], "!" if x[1] else "") for x in l[max(0, i - k):i + k + 1])
    return "output word %d of %d (expected %d words): got [%s] expected [%s]" % (i, len(got), len(exp), f(got), f(exp))


def run_stage(sim, items, si, so, wait=0, idle_limit=400, max_cycles=400000, each=None, width=16, stop_at_end=False):
    """A stage with valid_in/o_busy on one side and valid_out/i_busy on the
    other.  items: [(data, end)].  The source holds what it offers."""
    t = Trace()
    io = sim.io
    pv, pd, pb = sim.idx("p_valid_in"), sim.idx("p_data_in"), sim.idx("p_i_busy")
    pe = sim.idx("p_end_in") if "p_end_in" in sim.inputs else None
    qv, qd, qo = sim.idx("q_valid_out"), sim.idx("q_data_out"), sim.idx("q_o_busy")
    qe = sim.idx("q_end_out") if "q_end_out" in sim.outputs else None
    rng = si.rng
    i, n, idle = 0, len(items), 0
    max_cycles += 60 * n
    most = 1000 + 16 * n
    offered, prev, done = False, None, False
    t.when, t.last = [], None
    while t.cycles < max_cycles:
        if each is not None:
            each(t, i)
        vin = 1 if t.cycles >= wait and i < n and (offered or not si()) else 0
        if vin:
            io[pd] = items[i][0]
            if pe is not None:
                io[pe] = items[i][1]
        else:
            k = t.cycles & 7
            io[pd] = 0 if k == 2 else (1 << width) - 1 if k == 5 else io[pd] if k == 7 else rng.getrandbits(width)
            if pe is not None:
                io[pe] = rng.getrandbits(1)
        io[pv] = vin
        busy = so()
        io[pb] = busy
        sim.lib.sim_eval()
        idle += 1
        if vin:
            if io[qo]:
                offered = True
                t.stall_in += 1
            else:
                i += 1
                offered = False
                idle = 0
        v = so.fb = io[qv]
        cur = (io[qd], io[qe] if qe is not None else 0)
        if prev is not None:
            t.stable_checks += 1
            if not v or cur != prev:
                t.err.append("word %x end=%d offered in cycle %d and not taken, then valid=%d %x end=%d" % (
                    prev + (t.cycles - 1, v) + cur))
        prev = cur if v and busy else None
        t.last = prev
        if v:
            if busy:
                t.stall_out += 1
            else:
                t.out.append(cur)
                t.when.append(t.cycles)
                idle = 0
                done = stop_at_end and cur[1]
        sim.lib.sim_tick()
        t.cycles += 1
        if idle > idle_limit or done or len(t.out) > most or len(t.err) > 50:
            break
    t.accepted = i
    sim.cycles += t.cycles
    return t
