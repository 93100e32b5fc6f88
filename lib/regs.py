"""Model of the core's registers, from the description in its documentation."""
import model


def entry(c, n, ssss, bd):
    """a Huffman memory entry: length, then code placed above the additional bits"""
    return n << (16 + bd) | (c << ssss if ssss < 16 else c)


class Core:
    """addresses are byte addresses"""

    def __init__(self, bd, debug=False, hw=0, ac=0, table=None):
        self.bd, self.debug = bd, debug
        self.hw, self.ac = hw, ac
        t = table or model.STD_TABLE
        self.mem = [entry(t[i][0], t[i][1], i, bd) for i in range(bd + 1)]

    def where(self, addr):
        w = addr >> 2
        if w in (0x800, 0x801):
            return ("hw", w & 1)
        if 0x400 <= w < 0x400 + 2 * (self.bd + 1):
            return ("ssss", w - 0x400)
        if self.debug and 0x1000 <= w < 0x1008:
            return ("debug", w & 7)
        return ("none", w)

    def peek(self, addr):
        """(data or None, response)"""
        k, i = self.where(addr)
        if k == "hw":
            return (self.ac if i else self.hw, 0)
        if k == "ssss":
            return (self.mem[i >> 1] >> (32 * (i & 1)) & 0xFFFFFFFF, 0)
        if k == "debug":
            return (None, 0)
        return (None, 3)

    def poke(self, addr, data, strb):
        k, i = self.where(addr)
        m = sum(0xFF << 8 * b for b in range(4) if strb >> b & 1)
        if k == "hw":
            if i:
                self.ac = (self.ac & ~m | data & m) & 0xFFFFFF
            else:
                self.hw = self.hw & ~m | data & m
            return 0
        if k == "ssss":
            sh = 32 * (i & 1)
            self.mem[i >> 1] = (self.mem[i >> 1] & ~(m << sh) | (data & m) << sh) & ((1 << self.bd + 21) - 1)
            return 0
        return 2 if k == "debug" else 3

    def addresses(self, g):
        k = g.random()
        if k < .45:
            return (0x400 + g.randrange(2 * (self.bd + 1))) << 2
        if k < .8:
            return (0x800 + g.randrange(2)) << 2
        if k < .9 and self.debug:
            return (0x1000 + g.randrange(8)) << 2
        # select lines off, or one past the last Huffman entry
        if k < .96:       # beside the registers
            return g.choice((0x400 + g.randint(2 * (self.bd + 1), 0x3FF), 0x400 + g.choice((64, 128, 256, 512)) + g.randrange(2 * (self.bd + 1)),
                             0x802, 0x803, 0x800 + g.randint(2, 0x7FF), 0x1000 + g.randint(8 if self.debug else 0, 0xFFF))) << 2
        return g.choice((0, 4, 20, 0x800, 0x400 + 2 * (self.bd + 1) << 2, 0x400 + 2 * (self.bd + 1) + 3 << 2,
                         0 if self.debug else 0x4000))
