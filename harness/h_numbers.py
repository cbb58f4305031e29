"""Numbers on the wire: MPIs, fixed-width integers, hexadecimal IDs, the
coded S2K count (RFC 4880 sections 3.1, 3.2, 3.3, 3.7.1.3)."""
from pgp import utils
from hlib.util import be, exact_mpi


def val(octets):
    v = 0
    for b in bytearray(octets):
        v = (v << 8) | b
    return v


def bitlen(sx, v, bits):
    """The position of the highest bit that is set, by the book."""
    n = 0
    for i in range(bits):
        n = sx.ite((v >> i) & 1 == 1, i + 1, n)
    return n


def h_mpi_write(sx, bits):
    v = sx.int('v', 0, (1 << bits) - 1)
    out = bytearray(utils.int_to_mpi(v))
    n = bitlen(sx, v, bits)
    sx.check(sx.eq(out[0] * 256 + out[1], n), 'bit count')
    sx.check(sx.eq(len(out) - 2, (n + 7) // 8), 'number of octets')
    sx.check(sx.eq(val(out[2:]), v), 'value')
    back, off = utils.mpi_to_int(bytearray(b'\xff\xff') + out + b'\xff', 2)
    sx.check(sx.eq(back, v), 'reads back')
    sx.check(off == 2 + len(out), 'octets consumed')
    sx.reach('end')


def h_mpi_huge(sx, bits):
    """Values around a power of two that a float can't tell apart."""
    d = sx.int('d', -2, 2)
    v = (1 << bits) + d
    out = bytearray(utils.int_to_mpi(v))
    n = sx.ite(d < 0, bits, bits + 1)
    sx.check(sx.eq(out[0] * 256 + out[1], n), 'bit count')
    sx.check(sx.eq(len(out) - 2, (n + 7) // 8), 'number of octets')
    back, off = utils.mpi_to_int(out, 0)
    sx.check(sx.eq(back, v), 'reads back')
    sx.check(off == len(out), 'octets consumed')
    sx.reach('end')


def h_mpi_read(sx, bits, pad):
    raw, v = exact_mpi(sx, 'm', bits)
    data = b'\x11' * pad + raw + b'\x22' * 3
    back, off = utils.mpi_to_int(bytearray(data), pad)
    sx.check(sx.eq(back, v), 'value')
    sx.check(off == pad + len(raw), 'octets consumed')
    sx.check(utils.mpi_length(bytearray(data), pad) == len(raw) - 2,
             'length')
    sx.check(sx.eq(bytes(utils.int_to_mpi(back)), raw), 'same octets')
    sx.reach('end')


def h_mpi_any_length(sx):
    hdr = sx.bytes('h', 2)
    n = val(hdr)
    sx.check(sx.eq(utils.mpi_length(bytearray(hdr), 0), (n + 7) // 8),
             'length of any bit count')
    sx.reach('end')


def h_negative(sx):
    v = sx.int('v', -(1 << 40), -1)
    try:
        utils.int_to_mpi(v)
    except ValueError:
        sx.reach('refused')
        return
    sx.fail('a negative number has no encoding')


def h_fixed(sx):
    a = sx.int('a', 0, (1 << 16) - 1)
    b = sx.int('b', 0, (1 << 32) - 1)
    c = sx.int('c', 0, (1 << 64) - 1)
    sx.check(sx.eq(bytes(utils.int_to_2byte(a)), be(a, 2)), 'two octets')
    sx.check(sx.eq(bytes(utils.int_to_4byte(b)), be(b, 4)), 'four octets')
    sx.check(sx.eq(bytes(utils.int_to_8byte(c)), be(c, 8)), 'eight octets')
    d = bytearray(b'\x77' + be(a, 2) + be(b, 4) + be(c, 8) + b'\x88')
    sx.check(sx.eq(utils.short_to_int(d, 1), a), 'short')
    sx.check(sx.eq(utils.long_to_int(d, 3), b), 'long')
    sx.check(sx.eq(utils.bytes_to_int(d, 7, 8), c), 'eight octet number')
    sx.check(sx.eq(utils.byte_to_int(d, 15), 0x88), 'octet')
    sx.reach('end')


def h_int_to_bytes(sx, bits):
    v = sx.int('v', 0, (1 << bits) - 1)
    out = bytearray(utils.int_to_bytes(v))
    sx.check(sx.eq(val(out), v), 'value')
    n = bitlen(sx, v, bits)
    sx.check(sx.eq(len(out), sx.ite(n == 0, 1, (n + 7) // 8)),
             'shortest number of octets')
    sx.reach('end')


def h_hex(sx, n, off):
    raw = sx.bytes('raw', n)
    data = bytearray(b'\x5a' * off + raw + b'\xa5')
    text = utils.bytearray_to_hex(data, off, 2 * n)
    sx.check(len(text) == 2 * n, 'two digits an octet')
    for i, b in enumerate(bytearray(raw)):
        for k, nib in ((0, b >> 4), (1, b & 15)):
            o = ord(text[2 * i + k])
            sx.check(sx.eq(o, sx.ite(nib < 10, nib + 48, nib + 55)),
                     'upper case digits')
    sx.check(sx.eq(bytes(utils.hex_to_bytes(text, n)), raw), 'reads back')
    if n:
        sx.check(sx.eq(bytes(utils.hex_to_bytes(text)), raw),
                 'reads back, unpadded')
    whole = utils.bytearray_to_hex(bytearray(raw))
    sx.check(sx.eq(whole, text), 'without a size')
    sx.reach('end')


def h_hex_short(sx, n, want):
    """A shorter number is padded with zeros on the left."""
    raw = sx.bytes('raw', n)
    text = utils.bytearray_to_hex(bytearray(raw))
    out = utils.hex_to_bytes(text, want)
    sx.check(sx.eq(bytes(out), (bytes(bytearray(want)) + raw)[-want:]),
             'padded')
    sx.reach('end')


def h_int_hex(sx, bits, size, lo=0):
    v = sx.int('v', (1 << lo) if lo else 0, (1 << bits) - 1)
    t = utils.int_to_hex(v, size)
    sx.check(len(t) == size, 'size')
    sx.check(sx.eq(bytes(utils.hex_to_bytes(t, size // 2)),
                   be(v & ((1 << (4 * size)) - 1), size // 2)),
             'the low digits')
    sx.reach('end')


def h_s2k_count(sx):
    c = sx.int('c', 0, 255)
    n = utils.s2k_count_to_int(c)
    sx.check(sx.eq(n, (16 + (c & 15)) << ((c >> 4) + 6)), 'count')
    back = utils.int_to_s2k_count(sx.concrete(n))
    sx.check(sx.eq(bytes(back), be(c, 1)), 'reads back')
    sx.reach('end')


# --- cases ---
def cases(tier):
    out = [('h_negative', {}), ('h_fixed', {}), ('h_mpi_any_length', {}),
           ('h_s2k_count', {})]
    big = tier != 'quick'
    for bits in (1, 8, 9, 16, 31, 64, 65, 129) + ((200, 256, 521) if big
                                                  else ()):
        out.append(('h_mpi_write', dict(bits=bits)))
    for bits in (16, 40, 48, 49, 53, 64, 160, 1024, 2048) + (
            (3072, 4096, 8192, 65000) if big else ()):
        out.append(('h_mpi_huge', dict(bits=bits)))
    for bits in (0, 1, 7, 8, 9, 15, 16, 17, 160, 1023, 1024, 1025, 2047,
                 2048) + (tuple(range(18, 80)) + (3071, 3072, 4096, 16384)
                          if big else ()):
        out.append(('h_mpi_read', dict(bits=bits, pad=0)))
        out.append(('h_mpi_read', dict(bits=bits, pad=5)))
    for bits in (8, 16, 64, 130) + ((512,) if big else ()):
        out.append(('h_int_to_bytes', dict(bits=bits)))
    for n in (1, 4, 8, 20):
        for off in (0, 3):
            out.append(('h_hex', dict(n=n, off=off)))
    for n, w in ((1, 2), (1, 8), (3, 8), (7, 8), (8, 8), (9, 8)):
        out.append(('h_hex_short', dict(n=n, want=w)))
    for bits, size in ((16, 16), (64, 16), (130, 16), (32, 8)):
        out.append(('h_int_hex', dict(bits=bits, size=size)))
    for bits in (1024, 2048, 4096):
        out.append(('h_int_hex', dict(bits=bits, size=16, lo=bits - 5)))
    return out
