"""Shared by the harnesses: an in-memory stream and reference encoders."""


class Stream(object):
    """A seekable binary stream over bytes that may be symbolic."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        if whence == 1:
            pos = self.pos + pos
        elif whence == 2:
            pos = len(self.data) + pos
        self.pos = pos
        return pos

    def close(self):
        pass


def be(n, width):
    """n as width octets, most significant first."""
    return bytes(bytearray([(n >> (8 * (width - 1 - i))) & 0xff
                            for i in range(width)]))


def new_length(n):
    if n < 192:
        return be(n, 1)
    if n < 8384:
        return be(((n - 192) >> 8) + 192, 1) + be((n - 192) & 0xff, 1)
    return b'\xff' + be(n, 4)


def old_length(n):
    if n < 256:
        return 0, be(n, 1)
    if n < 65536:
        return 1, be(n, 2)
    return 2, be(n, 4)


def new_frame(tag, body):
    """A new format packet, as RFC 4880 section 4.2 says."""
    return be(0xc0 + tag, 1) + new_length(len(body)) + bytes(body)


def old_frame(tag, body):
    t, l = old_length(len(body))
    return be(0x80 + (tag << 2) + t, 1) + l + bytes(body)


def mpi(value):
    """A multiprecision integer of a plain (concrete) number."""
    n = value.bit_length()
    return be(n, 2) + be(value, (n + 7) // 8)


def exact_mpi(sx, name, bits):
    """A symbolic MPI whose top bit is bit number 'bits' (0: the value 0).
    Returns its octets and its value."""
    nbytes = (bits + 7) // 8
    if not bits:
        return b'\x00\x00', 0
    raw = sx.bytes(name, nbytes)
    top = bytearray(raw)[0]
    sx.assume((top >> ((bits - 1) % 8)) == 1)
    v = 0
    for b in bytearray(raw):
        v = (v << 8) | b
    return be(bits, 2) + raw, v


def refuses(sx, fn, *args, **kw):
    """True if the call raises."""
    try:
        fn(*args, **kw)
    except Exception:
        return True
    return False


EDGES = (0, 63, 64, 191, 192, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192,
         65535, 65536)


def long_octets(sx, name, n, at=EDGES, fill=None):
    """n octets, fixed ones but for those around the usual sizes."""
    if fill is None:
        fill = bytes(bytearray([(i * 7 + i // 251 + 3) & 0xff
                                for i in range(1004)]))
    data = (fill * (n // len(fill) + 1))[:n]
    out = b''
    last = 0
    for p in sorted(set([p for p in at if p < n] + [n - 1])):
        out += data[last:p] + sx.bytes('%s@%d' % (name, p), 1)
        last = p + 1
    return out + data[last:]


def long_text(sx, name, n, fork=2):
    """Text of 7-bit characters with line ends of every kind across the usual
    sizes and a few arbitrary characters."""
    data = bytearray((b'abcdefghij\nklmnop\r\nqrstuv\rwxyz\n\nx\r\rz\n\r'
                      * (n // 30 + 1))[:n])
    for p in EDGES:
        if 0 < p < n and p & 1 == 0:
            data[p - 1:p + 1] = b'\r\n'
    out = bytes(data)
    for i, p in enumerate([n - 1, n // 2][:fork]):
        c = sx.bytes('%s%d' % (name, i), 1)
        sx.assume(bytearray(c)[0] < 128)
        out = out[:p] + c + out[p + 1:]
    return out
