"""Keyservers (HTTP Keyserver Protocol, draft-shaw-openpgp-hkp)."""
import datetime
import requests
import requests.sessions
from urllib.parse import parse_qsl, urlsplit
from pgp import armor
from pgp import shortcuts
from pgp import transferrable_keys as tk
from pgp.keyserver import get_keyserver
from pgp.packets.parsers import parse_binary_packet_data
from hlib import real, rings
from hlib.keys import sig4_body, created, issuer, subpacket
from hlib.util import be, mpi, refuses


class Response(object):

    def __init__(self, status, content):
        self.status_code = status
        self.content = content
        self.ok = status < 400
        self.encoding = 'utf-8'
        self.apparent_encoding = 'utf-8'
        self.headers = {'content-type': 'text/plain'}
        self.reason = 'reason'

    @property
    def text(self):
        return self.content.decode(self.encoding, 'replace')

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError(self.status_code)


class Server(object):
    """Records the requests and answers them."""

    def __init__(self, sx, status=200, content=b''):
        self.requests = []
        self.answer = Response(status, content)
        server = self

        def request(session, method, url, params=None, data=None, **kw):
            parts = urlsplit(url)
            query = parse_qsl(parts.query) if parts.query else []
            server.requests.append(dict(
                method=method.upper(), scheme=parts.scheme,
                netloc=parts.netloc.split('@')[-1], path=parts.path,
                query=fields(query) + fields(params), data=fields(data),
                verify=kw.get('verify', True)))
            return server.answer
        sx.patch(requests.sessions.Session, 'request', request)


def fields(values):
    if not values:
        return []
    if hasattr(values, 'items'):
        return list(values.items())
    if hasattr(values, 'decode'):
        values = values.decode('ascii')
    if hasattr(values, 'encode'):
        return parse_qsl(values)
    return list(values)


def field(values, name):
    found = [v for k, v in values if k == name]
    return found[0] if len(found) == 1 else None


SERVERS = [
    ['hkp://a.example', 'http', ['a.example:11371'], '/'],
    ['hkp://a.example/', 'http', ['a.example:11371'], '/'],
    ['hkp://a.example:8080/', 'http', ['a.example:8080'], '/'],
    ['HKP://a.example:80', 'http', ['a.example', 'a.example:80'], '/'],
    ['hkp://[::1]/', 'http', ['[::1]:11371'], '/'],
    ['hkps://a.example/', 'https', ['a.example', 'a.example:443'], '/'],
    ['Hkps://a.example:8443', 'https', ['a.example:8443'], '/'],
    ['http://a.example/', 'http', ['a.example', 'a.example:80'], '/'],
    ['http://a.example:11371/x/', 'http', ['a.example:11371'], '/x/'],
    ['https://a.example', 'https', ['a.example', 'a.example:443'], '/'],
    ['HTTPS://a.example:444/x/y/', 'https', ['a.example:444'], '/x/y/'],
]


def well_addressed(sx, r, where, method, path):
    _url, scheme, netlocs, base = where
    sx.check(r['scheme'] == scheme, 'scheme')
    sx.check(r['netloc'] in netlocs, 'host and port')
    sx.check(r['path'] == base + path, 'path')
    sx.check(r['method'] == method, 'method')
    sx.check(r['verify'] in (True, None), 'certificates are checked')


def h_lookup(sx, where, kind, n):
    """The right server is asked for the right thing."""
    server = Server(sx, content=answer_with(sx, 'A'))
    ks = get_keyserver(where[0])
    exact = sx.bool('exact')
    if kind == 'get':
        term = ''.join([sx.text('id%d' % i, 1, *sx.choose(
            'kind%d' % i, [(0x30, 0x39), (0x41, 0x46)]))
            for i in range(n)])
        ks.get(term, exact) if exact else ks.get(term)
    else:
        server.answer.content = b''
        term = sx.text('terms', n, 0x20, 0x2fff)
        ks.search(term, exact) if exact else ks.search(term)
    sx.check(len(server.requests) == 1, 'one request')
    r = server.requests[0]
    well_addressed(sx, r, where, 'GET', 'pks/lookup')
    q = r['query']
    sx.check(field(q, 'op') == ('get' if kind == 'get' else 'index'), 'op')
    found = field(q, 'search')
    sx.check(found is not None and sx.eq(
        found, '0x' + term if kind == 'get' else term), 'search')
    sx.check('mr' in field(q, 'options').split(','), 'machine readable')
    sx.check(field(q, 'exact') == 'on' if exact
             else field(q, 'exact') in (None, 'off'), 'exact')
    sx.reach('lookup')


def digits(sx, name, lead):
    """A number: its digits and its value."""
    v = sx.int(name, 0, 99)
    text = '%s%s%s' % (lead, chr(48 + v // 10), chr(48 + v % 10))
    return text, int(lead or '0') * 100 + v


def when(v):
    return None if v is None else datetime.datetime.fromtimestamp(v)


def flag_text(sx, name):
    flags = sx.choose(name + 'flags', ['', 'r', 'd', 'e', 'rd', 'er', 'ed',
                                       'edr'])
    return flags, set(flags)


def h_results(sx, keys, info=True, newline='\n', odd=()):
    """Each result says what its lines say.

    keys: [[key ID length, fields present, [[how, n, fields present]]]]
    """
    lines = []
    if info:
        lines.append('info:1:%d' % len(keys))
    if 'stray' in odd:
        # of no key
        lines.append('uid:nobody:1:1:')
    expected = []
    for i, (size, present, users) in enumerate(keys):
        k = 'k%d' % i
        key_id = '%X' % (0xABCDE + i) + '0' * (size - 6) \
            + sx.text(k + 'id', 1, 0x30, 0x39)
        alg = 17 if i else 1
        bits, bits_v = digits(sx, k + 'bits', '20')
        made, made_v = digits(sx, k + 'made', '13000000')
        ends, ends_v = digits(sx, k + 'ends', '14000000')
        flags, flags_v = flag_text(sx, k) if not i else ('d', set('d'))
        values = [str(alg), bits, made, ends, flags]
        told = [alg, bits_v, made_v, ends_v, flags_v]
        values = [v if p == '1' else '' for v, p in zip(values, present)]
        told = [v if p == '1' else None for v, p in zip(told, present)]
        lines.append(':'.join(['pub', key_id] + values))
        if 'unknown' in odd:
            lines.append('uat::::')
            lines.append('pubx:nothing')
        if 'more' in odd:
            lines[-1] += ':more:'
        uids = []
        for j, (how, n, has) in enumerate(users):
            u = '%su%d' % (k, j)
            name, raw = user_text(sx, u, how, n)
            umade, umade_v = digits(sx, u + 'made', '13100000')
            uends, uends_v = digits(sx, u + 'ends', '14100000')
            uflags, uflags_v = flag_text(sx, u) if 'flags' in odd \
                else ('', set())
            values = [umade, uends, uflags]
            values = [v if p == '1' else '' for v, p in zip(values, has)]
            lines.append(':'.join(['uid', raw] + values))
            uids.append((name, umade_v if has[:1] == '1' else None,
                         uends_v if has[1:2] == '1' else None,
                         uflags_v if has[2:] == '1' else set()))
        told += [None] * (5 - len(told))
        expected.append((key_id, told, uids))
    if 'blank' in odd:
        lines.append('')
    text = newline.join(lines)
    if 'end' in odd:
        text += newline
    server = Server(sx, content=text.encode('utf-8'))
    where = SERVERS[9]
    results = get_keyserver(where[0]).search('x')
    sx.check(len(results) == len(expected), 'number of keys')
    for r, (key_id, (alg, bits, made, ends, flags), uids) in zip(
            results, expected):
        sx.check(sx.eq(r.key_id, key_id), 'key ID')
        sx.check(sx.eq(r.public_key_algorithm, alg), 'algorithm')
        sx.check(sx.eq(r.bit_length, bits), 'size')
        sx.check(sx.eq(r.created, when(made)), 'created')
        sx.check(sx.eq(r.expires, when(ends)), 'expires')
        flags = flags or set()
        sx.check((r.revoked, r.disabled, r.expired) == tuple(
            f in flags for f in 'rde'), 'flags')
        sx.check(len(r.user_ids) == len(uids), 'number of user IDs')
        for got, (name, made, ends, flags) in zip(r.user_ids, uids):
            sx.check(sx.eq(got.user_id, name), 'user ID')
            sx.check(sx.eq(got.created, when(made)), 'user ID created')
            sx.check(sx.eq(got.expires, when(ends)), 'user ID expires')
            sx.check((got.revoked, got.disabled, got.expired) == tuple(
                f in flags for f in 'rde'), 'user ID flags')
    # each gets its own key
    server.answer.content = answer_with(sx, 'B')
    for r, (key_id, _told, _uids) in zip(results, expected):
        del server.requests[:]
        key = r.get()
        rings.KEEP.append(key)
        sx.check(key.fingerprint == rings.FP['B'], 'the key')
        sx.check(sx.eq(field(server.requests[0]['query'], 'search'),
                       '0x' + key_id), 'asked for the key')
        well_addressed(sx, server.requests[0], where, 'GET', 'pks/lookup')
    sx.reach('results')


def hexdigit(v):
    return chr(48 + v) if v < 10 else chr(55 + v)


def user_text(sx, name, how, n):
    """A user ID and its text in an answer."""
    if how == 'plain':
        # anything but colons, percent signs and line ends
        text = sx.text(name, n, 0x26, 0x39)
        return 'A+B ' + text, 'A+B ' + text
    if how == 'raw':
        text = sx.text(name, n, 0xc0, 0x2fff)
        return 'x' + text + '\x85', 'x' + text + '\x85'
    if how == 'escaped':
        text = sx.text(name, n, 0, 0x2ff)
        raw = ''
        for b in bytearray(text.encode('utf-8')):
            raw += '%' + hexdigit(b >> 4) + hexdigit(b & 15)
        return 'J ' + text + '>', 'J%20' + raw + '%3e'
    # a percent sign that escapes nothing
    text = sx.text(name, n, 0x47, 0x5a)
    return '100%' + text, '100%' + text


def key_packets(which, secret=False):
    """One of the keys, with a plain user ID."""
    alg = 17 if which == 'D' else 1
    number = mpi(0x8123)

    def sig(type_, n):
        return sig4_body(type_, alg, 2, created(be(1300500000 + n, 4)),
                         issuer(b'12345678'), b'ab',
                         number if alg == 1 else number + mpi(n))
    out = [(5 if secret else 6, rings.primary(which, secret)),
           (13, b'U <a@b>'), (2, sig(0x10, 1))]
    if which == 'D':
        sub = (real.secret_body if secret else real.public_body)(
            16, 'elg', 1300000001)
        out += [(7 if secret else 14, sub), (2, sig(0x18, 3))]
    return out


def answer_with(sx, which, before='', header='Version: S 1'):
    data = rings.octets(key_packets(which), True)
    text = before + str(armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, data))
    first, rest = text.split('\n\n', 1)
    return (first + '\n' + header + '\n\n' + rest).encode('utf-8')


def h_get(sx, which, status, before, header):
    """The key the server sent, or an error."""
    server = Server(sx, status, answer_with(sx, which, before, header))
    ks = get_keyserver('hkp://a.example')
    if status >= 400:
        sx.check(refuses(sx, lambda: ks.get('AABBCCDD')), 'error of get')
        sx.check(refuses(sx, lambda: ks.search('x')), 'error of search')
        key = rings.key_of(key_packets('A'))
        sx.check(refuses(sx, lambda: ks.submit(key)), 'error of submit')
    else:
        key = ks.get('AABBCCDD')
        rings.KEEP.append(key)
        sx.check(rings.pairs(key) == key_packets(which), 'the key')
        sx.check(not isinstance(key, tk.TransferableSecretKey), 'public')
    sx.reach('get')


def h_submit(sx, which, secret, marks, where, protected=False):
    """What is sent is the public key without what is not for others."""
    server = Server(sx)
    alg = 17 if which == 'D' else 1

    def sig(type_, n, mark):
        hashed = created(be(1300500000 + n, 4))
        goes = True
        if mark == 'exportable':
            flag = sx.choose('flag%d' % n, [0, 1])
            hashed += subpacket(4, be(flag, 1))
            goes = flag == 1
        elif mark == 'revoker':
            cls = sx.choose('class%d' % n, [0, 1, 2, 3])
            hashed += subpacket(12, be(0x80 + 0x40 * (cls & 1) + (cls >> 1),
                                       1) + b'\x11' + bytes(20))
            goes = not cls & 1
        elif mark == 'both':
            flag = sx.choose('flag%d' % n, [0, 1])
            hashed += subpacket(12, b'\x80\x01' + bytes(20)) \
                + subpacket(4, be(flag, 1))
            goes = flag == 1
        number = b'\x00\x0f\x55\x99'
        return goes, sig4_body(
            type_, alg, 2, hashed, issuer(b'12345678'), b'ab',
            number if alg == 1 else number + mpi(n))
    public, private, expected = [], [], []

    def put(tag, body, secret_body=None):
        public.append((tag, body))
        private.append(({6: 5, 14: 7}.get(tag, tag),
                        body if secret_body is None else secret_body))
        expected.append((tag, body))

    def put_sigs(kind, type_, at):
        for i, mark in enumerate(marks.get(kind, ['', ''])):
            goes, body = sig(type_, at + i, mark)
            public.append((2, body))
            private.append((2, body))
            if goes:
                expected.append((2, body))
    put(6, rings.primary(which, False), rings.primary(which, True))
    put_sigs('key', 0x1f, 1)
    put(13, b'U <a@b>')
    put_sigs('user', 0x10, 11)
    put(17, b'\x12\x01\x10\x00\x01\x01' + bytes(13))
    put_sigs('attribute', 0x13, 21)
    if which != 'C':
        sub = ('elg', 16) if which == 'D' else ('rsa_b', 1)
        put(14, real.public_body(sub[1], sub[0], 1300000001),
            real.secret_body(sub[1], sub[0], 1300000001))
        put_sigs('subkey', 0x18, 31)
    key = rings.key_of(private if secret else public)
    ks = get_keyserver(where[0])
    keep = sx.bool('no_modify')
    ks.submit(key, keep) if keep else ks.submit(key)
    sx.check(len(server.requests) == 1, 'one request')
    r = server.requests[0]
    well_addressed(sx, r, where, 'POST', 'pks/add')
    text = field(r['data'], 'keytext')
    options = (field(r['data'], 'options') or '').split(',')
    sx.check(('nm' in options) == keep, 'options')
    sx.check(text.startswith('-----BEGIN PGP PUBLIC KEY BLOCK-----'),
             'public key block')
    packets = list(parse_binary_packet_data(
        armor.ASCIIArmor.from_ascii(text).data))
    sx.check([p.type for p in packets] == [tag for tag, _ in expected],
             'kinds of packets')
    for p, (_tag, body) in zip(packets, expected):
        sx.check(sx.eq(bytes(p.content), body), 'packets')
    # and the key is as it was
    sx.check(rings.same_packets(
        sx, rings.pairs(key), private if secret else public), 'unchanged')
    sx.reach('submit')


def h_unknown(sx, url):
    sx.check(get_keyserver(url) is None, 'no such protocol')
    sx.reach('unknown')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    servers = [
        ['hkp://a.example', 'http', ['a.example:11371'], '/'],
        ['hkp://a.example/', 'http', ['a.example:11371'], '/'],
        ['hkp://a.example:8080/', 'http', ['a.example:8080'], '/'],
        ['HKP://a.example:80', 'http', ['a.example', 'a.example:80'], '/'],
        ['hkp://[::1]/', 'http', ['[::1]:11371'], '/'],
        ['hkps://a.example/', 'https', ['a.example', 'a.example:443'], '/'],
        ['Hkps://a.example:8443', 'https', ['a.example:8443'], '/'],
        ['http://a.example/', 'http', ['a.example', 'a.example:80'], '/'],
        ['http://a.example:11371/x/', 'http', ['a.example:11371'], '/x/'],
        ['https://a.example', 'https', ['a.example', 'a.example:443'], '/'],
        ['HTTPS://a.example:444/x/y/', 'https', ['a.example:444'], '/x/y/'],
        ['hkps://u:p@a.example/', 'https', ['a.example', 'a.example:443'],
         '/'],
        ['hkp://u:p@a.example', 'http', ['a.example:11371'], '/'],
    ]
    out = []
    for where in servers:
        out.append(('h_lookup', dict(where=where, kind='get', n=2)))
        out.append(('h_lookup', dict(where=where, kind='search', n=3)))
    out.append(('h_lookup', dict(where=servers[5], kind='get',
                                 n=8 if thorough else 4)))
    every = '11111'
    for odd in ([], ['unknown'], ['more'], ['blank', 'end']):
        for newline in ('\n', '\r\n'):
            out.append(('h_results', dict(
                keys=[[16, every, [['plain', 2, '111']]],
                      [8, '11110', [['escaped', 1, '100']]]],
                newline=newline, odd=odd, info=newline == '\n')))
    for present in ('00000', '11', '10101', '01010', '11100', '', '1111'):
        out.append(('h_results', dict(
            keys=[[40, present, [['plain', 1, present[:3]]]]])))
    for how in ('plain', 'raw', 'escaped', 'percent'):
        out.append(('h_results', dict(
            keys=[[16, '11100', [[how, 2 if how != 'escaped' or thorough
                                  else 1, '1'],
                                 [how if how in ('raw', 'percent') else
                                  'plain', 1, '11']]]],
            odd=['flags'] if how == 'plain' else [])))
    out.append(('h_results', dict(
        keys=[[16, '111', []], [16, '111', [['plain', 1, '1'],
                                            ['plain', 1, '1']]],
              [8, '111', [['plain', 1, '1']]]])))
    out.append(('h_results', dict(
        keys=[[16, '111', [['plain', 1, '1']]]] * 25)))
    out.append(('h_results', dict(
        keys=[[16, '11111', [['plain', 1, '11']] * 40]])))
    for odd in (['stray'], ['stray', 'blank', 'end']):
        out.append(('h_results', dict(
            keys=[[16, '111', [['plain', 1, '1']]], [16, '1', []]], odd=odd)))
        out.append(('h_results', dict(keys=[], odd=odd)))
    out.append(('h_results', dict(keys=[])))
    out.append(('h_results', dict(keys=[], info=False)))
    for which in 'ABCD':
        out.append(('h_get', dict(which=which, status=200, before='',
                                  header='Version: S 1')))
    out.append(('h_get', dict(which='A', status=200, before='\r\n',
                              header='Comment: x')))
    out.append(('h_get', dict(which='A', status=200, before='',
                              header='Comment: caf\xe9')))
    for status in (400, 404, 500):
        out.append(('h_get', dict(which='A', status=status, before='',
                                  header='Version: S 1')))
    for secret in (False, True):
        for kind in ('key', 'user', 'attribute', 'subkey'):
            for pair in (['exportable', ''], ['', 'revoker'],
                         ['both', 'exportable']):
                if pair[1] == 'revoker' and kind != 'key' and not thorough:
                    continue
                out.append(('h_submit', dict(
                    which='A' if kind in ('key', 'user') else 'D',
                    secret=secret, marks={kind: pair},
                    where=servers[9])))
        out.append(('h_submit', dict(which='C', secret=secret, marks={},
                                     where=servers[0])))
    for url in ('ldap://a.example', 'mailto:a@b', 'a.example', ''):
        out.append(('h_unknown', dict(url=url)))
    return out
