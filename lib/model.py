"""Reference model of the encoder, written from the JPEG lossless standard and
the README, independent of the HDL.

The scan is four interleaved components, predictor 1: a sample is predicted
from the sample of the same component to its left (four samples earlier in the
row), the first sample of each component in a row from the one above, and the
first of all from 2^(bd-1).
"""

STD_TABLE = [(0b1110, 4), (0b000, 3), (0b001, 3), (0b010, 3), (0b011, 3),
             (0b100, 3), (0b101, 3), (0b110, 3), (0b11110, 5), (0b111110, 6),
             (0b1111110, 7), (0b11111110, 8), (0b111111110, 9),
             (0b1111111110, 10), (0b11111111110, 11), (0b111111111110, 12),
             (0b1111111111110, 13)]


def predictions(px, w, h, bd):
    out = []
    for i, p in enumerate(px):
        r, c = divmod(i, w)
        if c >= 4:
            out.append(px[i - 4])
        elif r:
            out.append(px[i - w])
        else:
            out.append(1 << (bd - 1))
    return out


def ssss_of(d):
    return abs(d).bit_length()


def wrap16(d):
    """difference modulo 2^16 in -32767..32768 (ITU T.81 H.1.2.1)"""
    d &= 0xFFFF
    return d - 0x10000 if d > 0x8000 else d


def code_diff(d, table):
    """(value, nbits) of one difference"""
    s = ssss_of(d)
    c, n = table[s]
    if s == 16:
        return c, n
    extra = d if d >= 0 else d + (1 << s) - 1
    return (c << s) | extra, n + s


def encode_codes(px, w, h, bd, table=STD_TABLE):
    return [code_diff(wrap16(p - q), table) for p, q in zip(px, predictions(px, w, h, bd))]


def join(codes):
    """list of (value, nbits) -> (int, nbits); blockwise so that it is linear"""
    blocks = []
    v = n = 0
    for c, k in codes:
        v = (v << k) | c
        n += k
        if n > 4096:
            blocks.append((v, n))
            v = n = 0
    blocks.append((v, n))
    while len(blocks) > 1:
        nb = []
        for i in range(0, len(blocks) - 1, 2):
            a, b = blocks[i], blocks[i + 1]
            nb.append(((a[0] << b[1]) | b[0], a[1] + b[1]))
        if len(blocks) & 1:
            nb.append(blocks[-1])
        blocks = nb
    return blocks[0]


def to_bytes(bits, unit=1):
    """zero-padded up to a multiple of unit bytes"""
    v, n = bits
    nb = -(-n // (8 * unit)) * unit
    return (v << (8 * nb - n)).to_bytes(nb, "big")


def words(data, k):
    return [int.from_bytes(data[i:i + k], "big") for i in range(0, len(data), k)]


def stuff(data):
    out = bytearray()
    for b in data:
        out.append(b)
        if b == 0xFF:
            out.append(0)
    return bytes(out)


def encode_words(px, w, h, bd, out_bits, table=STD_TABLE):
    return words(to_bytes(join(encode_codes(px, w, h, bd, table)), out_bits // 8), out_bits // 8)


def product_words(px, w, h, bd=12, table=STD_TABLE):
    """the stuffed 16-bit words between the start and end markers"""
    raw = to_bytes(join(encode_codes(px, w, h, bd, table)), 2)
    s = stuff(raw)
    if len(s) & 1:
        s += b"\0"
    return words(s, 2)


# ---- independent decoder, for the lossless properties -------------------

def unstuff(data):
    out = bytearray()
    i = 0
    while i < len(data):
        b = data[i]
        out.append(b)
        i += 1
        if b == 0xFF:
            if i < len(data) and data[i] != 0:
                raise ValueError("marker 0x%02x inside the scan at byte %d" % (data[i], i))
            i += 1
    return bytes(out)


class Bits:
    def __init__(self, data):
        self.d, self.p, self.n = data, 0, 8 * len(data)

    def bit(self):
        if self.p >= self.n:
            raise ValueError("ran out of bits at %d" % self.p)
        b = (self.d[self.p >> 3] >> (7 - (self.p & 7))) & 1
        self.p += 1
        return b

    def bits(self, k):
        v = 0
        for _ in range(k):
            v = (v << 1) | self.bit()
        return v


def decode_scan(data, w, h, bd, table=STD_TABLE):
    """unstuffed bytes -> (pixels, bits consumed); raises ValueError"""
    lut = {(n, c): s for s, (c, n) in enumerate(table[:17])}
    br = Bits(data)
    px = []
    for i in range(w * h):
        r, c = divmod(i, w)
        pred = px[i - 4] if c >= 4 else (px[i - w] if r else 1 << (bd - 1))
        code, n = 0, 0
        while (n, code) not in lut:
            code = (code << 1) | br.bit()
            n += 1
            if n > 16:
                raise ValueError("no such code at sample %d" % i)
        s = lut[(n, code)]
        if s == 0:
            d = 0
        elif s == 16:
            d = 32768
        else:
            v = br.bits(s)
            d = v if v >> (s - 1) else v - (1 << s) + 1
        px.append((pred + d) & 0xFFFF)
    return px, br.p
