"""ASCII armor (RFC 4880 section 6)."""
from pgp import armor
from pgp import crc24
from pgp.packets import parsers
from hlib.util import be, long_octets, new_frame

NAMES = {1: 'PGP MESSAGE', 2: 'PGP PUBLIC KEY BLOCK',
         3: 'PGP PRIVATE KEY BLOCK', 4: 'PGP SIGNATURE'}


def ref_crc(data):
    """RFC 4880 section 6.1, bit by bit."""
    reg = 0xB704CE
    for b in bytearray(data):
        reg = reg ^ (b << 16)
        for _ in range(8):
            t = (reg >> 23) & 1
            reg = (reg << 1) & 0xffffff
            for k in range(24):
                if (0x864CFB >> k) & 1:
                    reg = reg ^ (t << k)
    return reg


def lines_of(text, width):
    return [text[i:i + width] for i in range(0, len(text), width)]


def head_line(kind, part, total):
    t = NAMES[kind]
    if part:
        t += ', PART %d' % part
        if total:
            t += '/%d' % total
    return '-----BEGIN %s-----' % t


def h_crc(sx, n):
    d = sx.bytes('d', n)
    sx.check(sx.eq(crc24.crc24(d), ref_crc(d)), 'crc of octets')
    sx.check(sx.eq(crc24.crc24(bytearray(d)), ref_crc(d)),
             'crc of a bytearray')
    sx.reach('end')


def header_values(sx, headers):
    out = {}
    for h in headers:
        if len(headers) > 2:
            out[h] = sx.text('h.' + h, 1, 65, 122)
        else:
            out[h] = sx.text('h.' + h, 3, 32, 126)
    return out


FIELDS = [('Version', 'version'), ('Comment', 'comment'),
          ('MessageID', 'message_id'), ('Hash', 'hash_algorithms'),
          ('Charset', 'charset'), ('X-Other', 'extra')]


def content(sx, n):
    """The first part of much data is fixed."""
    if n < 600:
        return sx.bytes('d', n)
    return long_octets(sx, 'd', n, (n - 49, n - 48, n - 3))


def h_write(sx, kind, part, total, headers, n):
    d = content(sx, n)
    hv = header_values(sx, headers)
    kw = dict((k, v) for k, v in hv.items() if k != 'extra')
    if 'extra' in hv:
        kw['extra_headers'] = {'X-Other': hv['extra']}
    a = armor.ASCIIArmor(kind, d, part, total, **kw)
    text = str(a)
    exp = [head_line(kind, part, total)]
    for key, field in FIELDS:
        if field in hv:
            exp.append(key + ': ' + hv[field])
    exp.append('')
    got = text.split('\n')
    sx.check(len(got) > len(exp), 'lines')
    for i in range(len(exp)):
        sx.check(sx.eq(got[i], exp[i]), 'header line')
    body = got[len(exp):]
    sx.check(body[-1] == '', 'ends with a newline')
    sx.check(sx.eq(body[-2], head_line(kind, part, total).replace(
        'BEGIN', 'END')), 'tail line')
    sx.check(sx.eq(body[-3], '=' + sx.b64(be(ref_crc(d), 3))),
             'checksum')
    data = ''
    for line in body[:-3]:
        sx.check(0 < len(line) <= 76, 'line length')
        data += line
    sx.check(sx.eq(data, sx.b64(d)), 'Radix-64')
    b = armor.ASCIIArmor.from_ascii(text)
    check_read(sx, b, d, kind, part, total, hv)


def check_read(sx, b, d, kind, part, total, hv):
    sx.check(b.data_type == kind, 'kind of data')
    sx.check(b.part == part, 'part')
    sx.check(b.total_parts == total, 'number of parts')
    sx.check(sx.eq(bytes(b), d), 'data')
    sx.check(sx.eq(b.data, d), 'data field')
    for key, field in FIELDS:
        if field == 'extra':
            got = (b.extra_headers or {}).get('X-Other')
        else:
            got = getattr(b, field)
        if field in hv:
            sx.check(got is not None, field + ' is kept')
            sx.check(sx.eq(got, hv[field]), field)
        else:
            sx.check(got is None, 'no ' + field)
    sx.reach('read')


def make(sx, kind, part, total, hv, d, width, eol, before='', sum_=None):
    head = head_line(kind, part, total)
    lines = [head]
    for key, field in FIELDS:
        if field in hv:
            lines.append(key + ': ' + hv[field])
    lines.append('')
    lines += lines_of(sx.b64(d), width)
    lines.append('=' + (sum_ or sx.b64(be(ref_crc(d), 3))))
    lines.append(head.replace('BEGIN', 'END'))
    return before + eol.join(lines) + eol


def h_read(sx, kind, part, total, headers, n, width, eol, before):
    d = content(sx, n)
    hv = header_values(sx, headers)
    text = make(sx, kind, part, total, hv, d, width, eol, before)
    sx.check(armor.is_armor(text) or before, 'is armor')
    b = armor.ASCIIArmor.from_ascii(text)
    check_read(sx, b, d, kind, part, total, hv)


def h_corrupt(sx, n, where):
    """One changed character of the data or of the checksum is noticed."""
    d = sx.bytes('d', n)
    text = make(sx, 1, None, None, {}, d, 64, '\n')
    enc = sx.b64(d)
    start = text.index('\n\n') + 2
    if where == 'checksum':
        first = start + len('\n'.join(lines_of(enc, 64))) + 2
        sites = range(4)
    else:
        first = start
        # not the last character of a group that is not full: its low bits
        # are not part of the data
        sites = range(len(enc.rstrip('=')) - (1 if n % 3 else 0))
    i = sx.choose('i', list(sites))
    v = sx.int('v', 0, 63)
    c = sx.b64char(v)
    j = first + i + (i // 64 if where == 'data' else 0)
    sx.assume(sx.no(sx.eq(text[j], c)))
    bad = text[:j] + c + text[j + 1:]
    try:
        armor.ASCIIArmor.from_ascii(bad)
    except Exception:
        sx.reach('refused')
        return
    sx.fail('accepted')


def h_wrong_sum(sx, n, m):
    """Data with a checksum that isn't its own is refused, and with its own
    is read."""
    d = sx.bytes('d', n)
    c = sx.bytes('c', 3)
    text = make(sx, 2, None, None, {}, d, 64, '\n',
                sum_=sx.b64(c))
    own = sx.eq(c, be(ref_crc(d), 3))
    try:
        a = armor.ASCIIArmor.from_ascii(text)
    except Exception:
        sx.check(sx.no(own), 'refused with the right checksum')
        sx.reach('refused')
        return
    sx.check(own, 'accepted with a wrong checksum')
    sx.check(sx.eq(bytes(a), d), 'data')
    sx.reach('read')


def h_tail(sx, kind, other, part):
    """The tail line must be that of the header line."""
    d = sx.bytes('d', 2)
    text = make(sx, kind, part, None, {}, d, 64, '\n')
    tail = head_line(kind, part, None).replace('BEGIN', 'END')
    i = text.index(tail)
    if other == 'char':
        k = sx.choose('k', range(0, len(tail)))
        c = sx.text('c', 1, 33, 126)
        sx.assume(sx.no(sx.eq(c, tail[k])))
        bad = text[:i] + tail[:k] + c + tail[k + 1:] + '\n'
    else:
        bad = text[:i] + head_line(other, None, None).replace(
            'BEGIN', 'END') + '\n'
    try:
        armor.ASCIIArmor.from_ascii(bad)
    except Exception:
        sx.reach('refused')
        return
    sx.fail('accepted')


def h_head(sx, kind):
    """Nothing else is taken as a header line."""
    d = sx.bytes('d', 2)
    head = head_line(kind, None, None)
    k = sx.choose('k', range(0, len(head)))
    c = sx.text('c', 1, 33, 126)
    sx.assume(sx.no(sx.eq(c, head[k])))
    text = make(sx, kind, None, None, {}, d, 64, '\n')
    bad_head = head[:k] + c + head[k + 1:]
    bad = (bad_head + text[len(head):]).replace(
        head.replace('BEGIN', 'END'), bad_head.replace('BEGIN', 'END'))
    try:
        armor.ASCIIArmor.from_ascii(bad)
    except Exception:
        sx.reach('refused')
        return
    sx.fail('accepted')


def h_truncated(sx, n, keep):
    """Armor that ends early is refused."""
    d = sx.bytes('d', n)
    text = make(sx, 1, None, None, {}, d, 8, '\n')
    lines = text.split('\n')[:-1]
    k = sx.choose('k', range(len(lines)))
    bad = '\n'.join(lines[:k]) + '\n'
    try:
        armor.ASCIIArmor.from_ascii(bad)
    except Exception:
        sx.reach('refused')
        return
    sx.fail('accepted')


def h_packets(sx):
    """Armored packets are read as the packets themselves."""
    a = sx.bytes('a', 3)
    b = sx.bytes('b', 2)
    data = new_frame(60, a) + new_frame(62, b)
    text = str(armor.ASCIIArmor(1, data))
    got = list(parsers.parse_ascii_packet_data(text))
    sx.check([p.type for p in got] == [60, 62], 'tags')
    sx.check(sx.eq(bytes(got[0].content), a), 'first')
    sx.check(sx.eq(bytes(got[1].content), b), 'second')
    sx.reach('end')


def h_is_armor(sx, n):
    t = sx.text('t', n, 0, 127)
    exp = sx.eq(t[:5], '-----') if n >= 5 else False
    sx.check(sx.eq(bool(armor.is_armor(t)), bool(exp)), 'text')
    b = sx.bytes('b', n)
    exp = sx.eq(b[:5], b'-----') if n >= 5 else False
    sx.check(sx.eq(bool(armor.is_armor(b)), bool(exp)), 'octets')
    sx.reach('end')


# --- cases ---
def cases(tier):
    big = tier != 'quick'
    out = []
    for n in (0, 1, 2, 3, 10, 40) + ((100, 200) if big else ()):
        out.append(('h_crc', dict(n=n)))
    H = ['version', 'comment', 'message_id', 'hash_algorithms', 'charset',
         'extra']
    for kind in (1, 2, 3, 4):
        for n in (0, 1, 2, 3, 20):
            out.append(('h_write', dict(kind=kind, part=None, total=None,
                                        headers=[], n=n)))
    for n in (53, 54, 55, 60, 108, 109) + ((162, 200, 500) if big else ()):
        out.append(('h_write', dict(kind=1, part=None, total=None,
                                    headers=[], n=n)))
    for k, n in enumerate((768, 1000, 5000, 9000, 12000)):
        out.append(('h_write', dict(kind=k % 4 + 1, part=None, total=None,
                                    headers=['version'], n=n)))
        for width, eol in ((64, '\n'), (76, '\r\n')):
            out.append(('h_read', dict(kind=k % 4 + 1, part=None, total=None,
                                       headers=[], n=n, width=width,
                                       eol=eol, before='')))
    for part, total in ((1, None), (1, 2), (2, 2), (10, 12)):
        out.append(('h_write', dict(kind=1, part=part, total=total,
                                    headers=[], n=4)))
        out.append(('h_read', dict(kind=1, part=part, total=total,
                                   headers=['version'], n=4, width=64,
                                   eol='\n', before='')))
    for h in [[x] for x in H] + [H, ['version', 'comment'],
                                 ['charset', 'extra']]:
        out.append(('h_write', dict(kind=2, part=None, total=None,
                                    headers=h, n=3)))
        out.append(('h_read', dict(kind=4, part=None, total=None, headers=h,
                                   n=3, width=64, eol='\r\n', before='')))
    for kind in (1, 2, 3, 4):
        for n, width in ((0, 64), (5, 4), (12, 8), (50, 64), (60, 76)):
            for eol in ('\n', '\r\n'):
                out.append(('h_read', dict(kind=kind, part=None, total=None,
                                           headers=[], n=n, width=width,
                                           eol=eol, before='')))
    for before in ('\n', '  \n\n'):
        out.append(('h_read', dict(kind=1, part=None, total=None,
                                   headers=['version'], n=3, width=64,
                                   eol='\n', before=before)))
    for n in (1, 2, 3, 6, 10) + ((20, 30, 50) if big else ()):
        out.append(('h_corrupt', dict(n=n, where='data')))
        out.append(('h_corrupt', dict(n=n, where='checksum')))
        out.append(('h_wrong_sum', dict(n=n, m=0)))
    out.append(('h_wrong_sum', dict(n=0, m=0)))
    for k in (1, 2, 3, 4):
        for o in (1, 2, 3, 4):
            if k != o:
                out.append(('h_tail', dict(kind=k, other=o, part=None)))
        out.append(('h_tail', dict(kind=k, other='char', part=None)))
        out.append(('h_head', dict(kind=k)))
    out.append(('h_tail', dict(kind=1, other='char', part=2)))
    for n in (0, 2, 20):
        out.append(('h_truncated', dict(n=n, keep=0)))
    out.append(('h_packets', {}))
    for n in (0, 1, 4, 5, 6, 8):
        out.append(('h_is_armor', dict(n=n)))
    return out
