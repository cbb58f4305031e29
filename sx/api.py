"""The two faces of the harness API: symbolic (executor) and concrete
(replay of one assignment against the real, unmodified code)."""


class Discard(Exception):
    """concrete mode: an assumption does not hold for this assignment"""


class CheckFailed(Exception):
    """concrete mode: a property assertion failed"""

    def __init__(self, label, detail=None):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


class Concrete(object):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.reached = {}
        self._undo = []
        self._random()

    def _random(self):
        """Feed the random bytes the solver chose, then real ones."""
        chosen = {k: v for k, v in self.inputs.items()
                  if k.startswith('rnd')}
        if not chosen:
            return
        from Crypto import Random
        real = Random.new()
        used = {}

        class Rng(object):
            def read(self, n):
                used[n] = used.get(n, 0) + 1
                v = chosen.get('rnd%d#%d' % (n, used[n]))
                if v is None:
                    return real.read(n)
                return bytes(bytearray(v))

            def __getattr__(self, name):
                return getattr(real, name)
        self.patch(Random, 'new', lambda *a, **k: Rng())

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        return v

    def bytes(self, name, n):
        v = self._get(name, None)
        if v is None:
            v = [0] * n
        return bytes(bytearray(v))

    def bytearray(self, name, n):
        return bytearray(self.bytes(name, n))

    def text(self, name, n, lo=32, hi=126):
        out = []
        for i in range(n):
            out.append(chr(self._get('%s.%d' % (name, i), lo)))
        return ''.join(out)

    def choose(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def bool(self, name):
        return bool(self._get(name, 0))

    def assume(self, cond):
        if not cond:
            raise Discard()

    def check(self, cond, label, detail=None):
        if not cond:
            raise CheckFailed(label, detail)

    def fail(self, label, detail=None):
        raise CheckFailed(label, detail)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def implies(self, a, b):
        return (not a) or bool(b)

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return same(a, b)

    def clock(self, seconds):
        """Make this the current time (UTC seconds since the epoch)."""
        import time
        self._undo.append((time, 'time', time.time))
        time.time = lambda: float(seconds)

    def patch(self, obj, name, value):
        """Replace an attribute of a *library* for this run only."""
        self._undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def close(self):
        while self._undo:
            obj, name, old = self._undo.pop()
            setattr(obj, name, old)

    def digest(self, alg, data):
        """The reference hash: md5 sha1 ripemd160 sha224 ... of data"""
        if alg == 'ripemd160':
            from Crypto.Hash import RIPEMD
            return RIPEMD.new(bytes(data)).digest()
        import hashlib
        return hashlib.new(alg, bytes(data)).digest()

    def hexdigest(self, alg, data):
        import binascii
        return binascii.hexlify(self.digest(alg, data)).decode().upper()

    def b64(self, data):
        """The reference Radix-64 text of data"""
        import base64
        return base64.b64encode(bytes(data)).decode('ascii')

    def b64char(self, v):
        return ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
                '0123456789+/')[v]

    def distinct_random(self):
        """No two reads of as much randomness were the same."""

    def repeat(self, n):
        """How often to retry something that depends on real randomness."""
        return range(n)

    def note(self, key, value):
        pass

    def concrete(self, v):
        return v


def same(a, b):
    """Structural equality of plain data, type-lenient for byte strings."""
    ta = isinstance(a, (bytes, bytearray))
    tb = isinstance(b, (bytes, bytearray))
    if ta or tb:
        return ta and tb and bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b
