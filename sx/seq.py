"""Symbolic bytes, bytearray and str: concrete length, symbolic elements."""
import z3

from sx import core
from sx.core import (SymBool, SymInt, SymFrac, Unsupported, PathAbort, eng,
                     ite, mkbool, sym_and, sym_not, sym_or, zbool, _mk,
                     step_count)

B_WS = (9, 10, 11, 12, 13, 32)
S_WS = tuple(i for i in range(0x3001) if chr(i).isspace())


def is_sym(x):
    return isinstance(x, (SymInt, SymBool))


def eq_el(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b if isinstance(a, SymInt) else b == a


def eq_items(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x is y:
            continue
        c = eq_el(x, y)
        if c is False:
            return False
        if c is not True:
            if not isinstance(c, SymBool):
                if not c:
                    return False
                continue
            cs.append(c)
    if not cs:
        return True
    return sym_and(*cs)


def in_set(x, values):
    """x in values, without forking (values: concrete ints)."""
    if isinstance(x, int):
        return x in values
    vs = sorted(set(v for v in values if x.lo <= v <= x.hi))
    if not vs:
        return False
    # contiguous runs
    runs = []
    for v in vs:
        if runs and runs[-1][1] == v - 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    return sym_or(*[(x == a) if a == b else sym_and(x >= a, x <= b)
                    for a, b in runs])


def lt_items(a, b, or_equal):
    """Lexicographic a < b (or <=) as a (symbolic) truth value."""
    # build from the end
    n = min(len(a), len(b))
    if len(a) == len(b):
        res = or_equal
    else:
        res = len(a) < len(b)
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        if x is y:
            continue
        res = sym_or(x < y, sym_and(eq_el(x, y), res))
    return res


def conc(i):
    return i.__index__() if not isinstance(i, int) else i


def norm_slice(s, n):
    if isinstance(s.start, (SymInt, SymBool)) or \
            isinstance(s.stop, (SymInt, SymBool)) or \
            isinstance(s.step, (SymInt, SymBool)):
        # concretise bounds after clamping, to limit the forks
        start, stop, step = s.start, s.stop, s.step
        step = conc(step) if step is not None else None
        if step is None or step > 0:
            start = clamp(start, n)
            stop = clamp(stop, n)
        s = slice(start if start is None else conc(start),
                  stop if stop is None else conc(stop), step)
    return s


def clamp(i, n):
    if not isinstance(i, SymInt):
        return i
    if i.hi > n and bool(i > n):
        return n
    if i.hi > n:
        i = i.restrict(i.lo, n)
        if isinstance(i, int):
            return i
    if i.lo < 0 and bool(i < 0):
        if bool(i <= -n):
            return 0
        return i.restrict(-n, -1)
    return i if isinstance(i, int) else i.restrict(0, n)


class _SeqIter(object):
    def __init__(self, seq):
        self.seq = seq
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.seq.items):
            raise StopIteration
        v = self.seq.items[self.i]
        self.i += 1
        return self.seq._el(v)

    def __length_hint__(self):
        return max(0, len(self.seq.items) - self.i)


class _Seq(object):
    """Shared by byte and character sequences."""
    __slots__ = ()

    def _el(self, v):
        return v

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return _SeqIter(self)

    def __bool__(self):
        return bool(self.items)

    def _idx(self, i):
        n = len(self.items)
        if isinstance(i, SymBool):
            i = i._int()
        if isinstance(i, SymInt):
            if i.hi >= n and bool(i >= n):
                raise IndexError('index out of range')
            if i.lo < 0 and bool(i < 0):
                if bool(i < -n):
                    raise IndexError('index out of range')
                return conc(i) + n
            return conc(i)
        i = i.__index__()
        if i < -n or i >= n:
            raise IndexError('index out of range')
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._new(self.items[norm_slice(i, len(self.items))])
        if isinstance(i, SymInt) and not isinstance(self, SymStr):
            # select without forking on the index value
            n = len(self.items)
            if i.hi >= n and bool(i >= n):
                raise IndexError('index out of range')
            if i.lo < 0 and bool(i < 0):
                i = i + n
                if bool(i < 0):
                    raise IndexError('index out of range')
            return select(self.items, i)
        return self._el(self.items[self._idx(i)])

    def _other(self, o):
        """Items of a compatible operand or None."""
        raise NotImplementedError

    def __eq__(self, o):
        x = self._other(o)
        if x is None:
            return False if self._foreign(o) else NotImplemented
        return eq_items(self.items, x)

    def _foreign(self, o):
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        x = self._other(o)
        return NotImplemented if x is None else lt_items(self.items, x, False)

    def __le__(self, o):
        x = self._other(o)
        return NotImplemented if x is None else lt_items(self.items, x, True)

    def __gt__(self, o):
        x = self._other(o)
        return NotImplemented if x is None else lt_items(x, self.items, False)

    def __ge__(self, o):
        x = self._other(o)
        return NotImplemented if x is None else lt_items(x, self.items, True)

    def __hash__(self):
        return 0x5ea2

    def __add__(self, o):
        x = self._other(o)
        if x is None:
            return NotImplemented
        return self._new(list(self.items) + list(x))

    def __radd__(self, o):
        x = self._other(o)
        if x is None:
            return NotImplemented
        return self._new(list(x) + list(self.items))

    def __mul__(self, n):
        if isinstance(n, (SymInt, SymBool)):
            n = conc(n)
        if not isinstance(n, int):
            return NotImplemented
        return self._new(list(self.items) * n)

    __rmul__ = __mul__

    def _sub(self, sub):
        x = self._other(sub)
        if x is None:
            raise TypeError('argument should be bytes-like/str')
        return x

    def _bounds(self, start, end):
        n = len(self.items)
        s = norm_slice(slice(start, end), n)
        a, b, _ = s.indices(n)
        return a, b

    def find(self, sub, start=None, end=None):
        x = self._sub(sub)
        a, b = self._bounds(start, end)
        if start is not None and not isinstance(start, SymInt) and \
                start > len(self.items):
            return -1
        for i in range(a, b - len(x) + 1):
            if eq_items(self.items[i:i + len(x)], x):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        x = self._sub(sub)
        a, b = self._bounds(start, end)
        for i in range(b - len(x), a - 1, -1):
            if eq_items(self.items[i:i + len(x)], x):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def count(self, sub, start=None, end=None):
        x = self._sub(sub)
        a, b = self._bounds(start, end)
        n = 0
        i = a
        if not x:
            return b - a + 1
        while i <= b - len(x):
            if eq_items(self.items[i:i + len(x)], x):
                n += 1
                i += len(x)
            else:
                i += 1
        return n

    def __contains__(self, sub):
        if is_sym(sub) or isinstance(sub, int):
            return bool(sym_or(*[eq_el(v, sub) for v in self.items]))
        x = self._sub(sub)
        if len(x) == 0:
            return True
        return bool(sym_or(*[eq_items(self.items[i:i + len(x)], x)
                             for i in range(len(self.items) - len(x) + 1)]))

    def startswith(self, p, start=None, end=None):
        a, b = self._bounds(start, end)
        if isinstance(p, tuple):
            return sym_or(*[self._starts(q, a, b) for q in p])
        return self._starts(p, a, b)

    def _starts(self, p, a, b):
        x = self._sub(p)
        if b - a < len(x):
            return False
        return eq_items(self.items[a:a + len(x)], x)

    def endswith(self, p, start=None, end=None):
        a, b = self._bounds(start, end)
        ps = p if isinstance(p, tuple) else (p,)
        r = []
        for q in ps:
            x = self._sub(q)
            r.append(b - a >= len(x) and
                     eq_items(self.items[b - len(x):b], x))
        return sym_or(*r)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self[:]

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self[:]

    def replace(self, old, new, count=-1):
        x = self._sub(old)
        y = self._sub(new)
        out = []
        i = 0
        n = 0
        if not x:
            raise Unsupported('replace of the empty string')
        while i < len(self.items):
            if (count < 0 or n < count) and \
                    i + len(x) <= len(self.items) and \
                    eq_items(self.items[i:i + len(x)], x):
                out.extend(y)
                i += len(x)
                n += 1
            else:
                out.append(self.items[i])
                i += 1
        return self._new(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        x = self._sub(sep)
        if not x:
            raise ValueError('empty separator')
        parts = []
        cur = 0
        i = 0
        while i + len(x) <= len(self.items):
            if 0 <= maxsplit <= len(parts):
                break
            if eq_items(self.items[i:i + len(x)], x):
                parts.append(self._new(self.items[cur:i]))
                i += len(x)
                cur = i
            else:
                i += 1
        parts.append(self._new(self.items[cur:]))
        return parts

    def _split_ws(self, maxsplit):
        parts = []
        i = 0
        n = len(self.items)
        while True:
            while i < n and bool(in_set(self.items[i], self.WS)):
                i += 1
            if i >= n:
                return parts
            if 0 <= maxsplit <= len(parts):
                j = n
                while j > i and bool(in_set(self.items[j - 1], self.WS)):
                    j -= 1
                parts.append(self._new(self.items[i:j]))
                return parts
            j = i
            while j < n and not bool(in_set(self.items[j], self.WS)):
                j += 1
            parts.append(self._new(self.items[i:j]))
            i = j

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            if sep is None and maxsplit >= 0:
                raise Unsupported('rsplit on whitespace with a limit')
            return self.split(sep)
        x = self._sub(sep)
        parts = []
        end = len(self.items)
        i = end - len(x)
        while i >= 0 and len(parts) < maxsplit:
            if eq_items(self.items[i:i + len(x)], x):
                parts.insert(0, self._new(self.items[i + len(x):end]))
                end = i
                i -= len(x)
            else:
                i -= 1
        parts.insert(0, self._new(self.items[:end]))
        return parts

    def partition(self, sep):
        x = self._sub(sep)
        i = self.find(sep)
        if i < 0:
            return (self._new(self.items), self._new([]), self._new([]))
        return (self._new(self.items[:i]), self._new(x),
                self._new(self.items[i + len(x):]))

    def rpartition(self, sep):
        x = self._sub(sep)
        i = self.rfind(sep)
        if i < 0:
            return (self._new([]), self._new([]), self._new(self.items))
        return (self._new(self.items[:i]), self._new(x),
                self._new(self.items[i + len(x):]))

    def _strip(self, chars, left, right):
        vals = self.WS if chars is None else [v for v in self._sub(chars)]
        symbolic = [v for v in vals if not isinstance(v, int)]

        def member(c):
            r = in_set(c, [v for v in vals if isinstance(v, int)])
            if symbolic:
                r = sym_or(r, *[eq_el(c, v) for v in symbolic])
            return bool(r)
        a, b = 0, len(self.items)
        if left:
            while a < b and member(self.items[a]):
                a += 1
        if right:
            while b > a and member(self.items[b - 1]):
                b -= 1
        return self._new(self.items[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            x = self._other(p)
            if x is None:
                raise TypeError('sequence item: expected compatible type')
            if not first:
                out.extend(self.items)
            first = False
            out.extend(x)
        return self._new(out)

    def splitlines(self, keepends=False):
        seps = self.LINESEPS
        parts = []
        cur = 0
        i = 0
        n = len(self.items)
        while i < n:
            if bool(in_set(self.items[i], seps)):
                j = i + 1
                if bool(eq_el(self.items[i], 13)) and j < n and \
                        bool(eq_el(self.items[j], 10)):
                    j += 1
                parts.append(self._new(self.items[cur:j if keepends else i]))
                cur = i = j
            else:
                i += 1
        if cur < n:
            parts.append(self._new(self.items[cur:]))
        return parts

    def _map(self, f):
        return self._new([f(c) for c in self.items])

    def lower(self):
        return self._map(lambda c: _ascii_case(c, 65, 90, 32, str.lower,
                                               self.TEXT))

    def upper(self):
        return self._map(lambda c: _ascii_case(c, 97, 122, -32, str.upper,
                                               self.TEXT))

    def _all(self, pred):
        if not self.items:
            return False
        return sym_and(*[pred(c) for c in self.items])

    def isdigit(self):
        return self._all(lambda c: _cls(c, str.isdigit, self.TEXT))

    def isalpha(self):
        return self._all(lambda c: _cls(c, str.isalpha, self.TEXT))

    def isalnum(self):
        return self._all(lambda c: _cls(c, str.isalnum, self.TEXT))

    def isspace(self):
        return self._all(lambda c: in_set(c, self.WS))

    def isascii(self):
        return sym_and(*[c < 128 for c in self.items])

    def isupper(self):
        up = [_cls(c, str.isupper, self.TEXT) for c in self.items]
        low = [_cls(c, str.islower, self.TEXT) for c in self.items]
        return sym_and(sym_or(*up), sym_not(sym_or(*low))) if up else False

    def islower(self):
        up = [_cls(c, str.isupper, self.TEXT) for c in self.items]
        low = [_cls(c, str.islower, self.TEXT) for c in self.items]
        return sym_and(sym_or(*low), sym_not(sym_or(*up))) if up else False

    def title(self):
        raise Unsupported('title')

    def swapcase(self):
        out = []
        for c in self.items:
            if isinstance(c, int):
                real = chr(c).swapcase() if self.TEXT or c < 128 else chr(c)
                out += [ord(x) for x in real]
            elif bool(_cls(c, str.isupper, self.TEXT)):
                out += self._new([c]).lower().items
            elif bool(_cls(c, str.islower, self.TEXT)):
                out += self._new([c]).upper().items
            else:
                out.append(c)
        return self._new(out)

    def capitalize(self):
        if not self.items:
            return self
        first = self._new(self.items[:1]).upper()
        return first + self._new(self.items[1:]).lower()

    def ljust(self, width, fill=None):
        return self._just(width, fill, 'l')

    def rjust(self, width, fill=None):
        return self._just(width, fill, 'r')

    def _just(self, width, fill, side):
        f = 32 if fill is None else self._other(fill)[0]
        pad = [f] * max(0, conc(width) - len(self.items))
        return self._new(self.items + pad if side == 'l'
                         else pad + list(self.items))

    def zfill(self, width):
        pad = max(0, conc(width) - len(self.items))
        if self.items and pad and bool(in_set(self.items[0], (43, 45))):
            return self._new([self.items[0]] + [48] * pad +
                             list(self.items[1:]))
        return self._new([48] * pad + list(self.items))

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')

    def __mod__(self, o):
        raise Unsupported('% formatting of a symbolic format')

    def __repr__(self):
        return '<%s of %d>' % (type(self).__name__, len(self.items))


def _ascii_case(c, lo, hi, delta, f, text):
    if isinstance(c, int):
        if text:
            r = f(chr(c))
            if len(r) != 1:
                raise Unsupported('case mapping changes length')
            return ord(r)
        return c + delta if lo <= c <= hi else c
    if isinstance(c, core.TableInt) and c.table in (HEX_LOWER, HEX_UPPER):
        return core.TableInt(c.x, HEX_LOWER if delta > 0 else HEX_UPPER)
    if text and c.hi >= 128:
        if bool(c >= 128):
            r = f(chr(conc(c)))
            if len(r) != 1:
                raise Unsupported('case mapping changes length')
            return ord(r)
        c = c.restrict(c.lo, 127)
        if isinstance(c, int):
            return ord(f(chr(c)))
    r = ite(sym_and(c >= lo, c <= hi), c + delta, c)
    if isinstance(r, SymInt):
        top = 127 if text else 255
        r = _mk(r.e, 0, max(top, c.hi if not text else 127), r.lo < 0)
    return r


def _cls(c, f, text):
    if isinstance(c, int):
        return f(chr(c)) if text or c < 128 else False
    ok = [i for i in range(128) if f(chr(i))]
    if c.hi < 128 or not text:
        return in_set(c, ok)
    if bool(c < 128):
        return in_set(c, ok)
    return f(chr(conc(c)))


def _affine(items, idx, w):
    """Tables that are affine over GF(2) (CRC tables): a sum of columns."""
    if min(items) < 0:
        return None
    t0 = items[0]
    cols = [items[1 << k] ^ t0 for k in range(w)]
    acc = [t0]
    for k in range(w):
        acc = acc + [a ^ cols[k] for a in acc]
    if acc != list(items[:1 << w]):
        return None
    n = max(max(items).bit_length(), 1)
    bits = []
    for b in range(n):
        e = z3.BitVecVal((t0 >> b) & 1, 1)
        for k in range(w):
            if (cols[k] >> b) & 1:
                e = e ^ z3.Extract(k, k, idx.e)
        bits.append(e)
    bits.reverse()
    e = z3.Concat(*bits) if n > 1 else bits[0]
    return SymInt(z3.simplify(e), 0, (1 << n) - 1)


def select(items, idx):
    """items[idx] for a symbolic in-range index, as an if-then-else."""
    if isinstance(idx, int):
        return items[idx]
    n = len(items)
    lo = max(0, idx.lo)
    hi = min(n - 1, idx.hi)
    if not all(isinstance(v, (int, SymInt)) for v in items[lo:hi + 1]):
        return items[conc(idx)]

    # balanced binary decision on the index bits keeps the term shallow
    w = idx.e.size()
    if lo == 0 and hi == (1 << w) - 1 and w >= 3 and \
            all(isinstance(v, int) for v in items[:hi + 1]):
        r = _affine(items, idx, w)
        if r is not None:
            return r

    def go(bit, base):
        if base > hi or base + (1 << (bit + 1)) - 1 < lo:
            return None
        if bit < 0:
            return items[base] if lo <= base <= hi else None
        one = go(bit - 1, base + (1 << bit))
        zero = go(bit - 1, base)
        if one is None:
            return zero
        if zero is None:
            return one
        if one is zero or (isinstance(one, int) and isinstance(zero, int) and
                           one == zero):
            return zero
        c = mkbool(z3.Extract(bit, bit, idx.e) == z3.BitVecVal(1, 1))
        return ite(c, one, zero)
    if w > 24:
        return items[conc(idx)]
    return go(w - 1, 0)


# ------------------------------------------------------------------- bytes


def byte_items(o):
    """Items of any bytes-like object, or None."""
    if isinstance(o, _SymB):
        return o.items
    if isinstance(o, (bytes, bytearray)):
        return list(o)
    if isinstance(o, memoryview):
        return list(o.tobytes())
    return None


class _SymB(_Seq):
    __slots__ = ()
    WS = B_WS
    LINESEPS = (10, 13)
    TEXT = False

    def _other(self, o):
        return byte_items(o)

    def _sub(self, sub):
        if isinstance(sub, (int, SymInt)):
            return [sub]
        x = byte_items(sub)
        if x is None:
            raise TypeError('a bytes-like object is required')
        return x

    def concrete(self):
        return bytes([conc(v) for v in self.items])

    def __bytes__(self):
        return self.concrete()

    def __buffer__(self, flags):
        return memoryview(self.concrete())

    def tobytes(self):
        return mkbytes(self.items)

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self.items, encoding, errors)

    def hex(self, *a):
        if a:
            raise Unsupported('hex with separator')
        out = []
        for b in self.items:
            out.append(hexdigit(b >> 4, False))
            out.append(hexdigit(b & 15, False))
        return mkstr(out)

    def translate(self, table, delete=b''):
        if len(delete):
            raise Unsupported('translate with delete')
        t = byte_items(table)
        return self._new([select(t, v) for v in self.items])

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return '<sym>'


class SymBytes(_SymB):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def _new(self, items):
        return mkbytes(items)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymByteArray(_SymB):
    """Every bytearray made by the code under test is one of these."""
    __slots__ = ('items', '__weakref__')

    def __init__(self, items=()):
        self.items = list(items)

    def _new(self, items):
        return SymByteArray(items)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def __copy__(self):
        return SymByteArray(self.items)

    copy = __copy__

    def __deepcopy__(self, memo):
        return SymByteArray(self.items)

    @staticmethod
    def _byte(v):
        if isinstance(v, SymBool):
            v = v._int()
        if isinstance(v, SymInt):
            if v.lo < 0 and bool(v < 0):
                raise ValueError('byte must be in range(0, 256)')
            if v.hi > 255 and bool(v > 255):
                raise ValueError('byte must be in range(0, 256)')
            return v.restrict(0, 255)
        if isinstance(v, int):
            v = int(v)
        elif hasattr(v, '__index__'):
            v = v.__index__()
        else:
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % type(v).__name__)
        if not 0 <= v <= 255:
            raise ValueError('byte must be in range(0, 256)')
        return v

    def append(self, v):
        self.items.append(self._byte(v))

    def extend(self, it):
        x = byte_items(it)
        if x is None:
            if isinstance(it, (str, SymStr)):
                if len(it) == 0:
                    return
                raise TypeError("expected iterable of integers; got: 'str'")
            x = [self._byte(v) for v in it]
        self.items.extend(x)

    def __iadd__(self, o):
        x = byte_items(o)
        if x is None:
            raise TypeError("can't concat to bytearray")
        self.items.extend(x)
        return self

    def __radd__(self, o):
        x = byte_items(o)
        if x is None:
            return NotImplemented
        if isinstance(o, (bytes, SymBytes)):
            return mkbytes(list(x) + list(self.items))
        return SymByteArray(list(x) + list(self.items))

    def insert(self, i, v):
        self.items.insert(conc(i), self._byte(v))

    def pop(self, i=-1):
        return self.items.pop(conc(i))

    def remove(self, v):
        for i, x in enumerate(self.items):
            if eq_el(x, v):
                del self.items[i]
                return
        raise ValueError('value not found in bytearray')

    def reverse(self):
        self.items.reverse()

    def clear(self):
        del self.items[:]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            x = byte_items(v)
            if x is None:
                x = [self._byte(b) for b in v]
            self.items[norm_slice(i, len(self.items))] = x
        else:
            self.items[self._idx(i)] = self._byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.items[norm_slice(i, len(self.items))]
        else:
            del self.items[self._idx(i)]


def all_concrete(items):
    for v in items:
        if type(v) is not int:
            return False
    return True


def mkbytes(items):
    items = list(items)
    for i, v in enumerate(items):
        if isinstance(v, SymBool):
            items[i] = v._int()
    if all_concrete(items):
        return bytes(items)
    return SymBytes(items)


def hexdigit(n, upper):
    if isinstance(n, int):
        return ord(('%X' if upper else '%x') % n)
    n = n.restrict(0, 15)
    if isinstance(n, int):
        return ord(('%X' if upper else '%x') % n)
    return core.TableInt(n, HEX_UPPER if upper else HEX_LOWER)


HEX_LOWER = tuple(b'0123456789abcdef')
HEX_UPPER = tuple(b'0123456789ABCDEF')


def hexval(c):
    """(valid, value) of a hexadecimal digit character."""
    if isinstance(c, int):
        ch = chr(c)
        if ch in '0123456789abcdefABCDEF':
            return True, int(ch, 16)
        return False, 0
    if isinstance(c, core.TableInt) and c.table in (HEX_LOWER, HEX_UPPER):
        return True, c.x
    d = sym_and(c >= 48, c <= 57)
    u = sym_and(c >= 65, c <= 70)
    l = sym_and(c >= 97, c <= 102)
    v = ite(d, c - 48, ite(u, c - 55, c - 87))
    if isinstance(v, SymInt):
        v = _trunc(v, 15)
    return sym_or(d, u, l), v


def _trunc(v, hi):
    """v known in 0..hi whenever it is used."""
    if isinstance(v, core.TableInt) and v.hi <= hi and v.lo >= 0:
        return v
    from sx.core import _need
    w = _need(0, hi)
    e = v.e
    if e.size() > w:
        e = z3.simplify(z3.Extract(w - 1, 0, e))
    elif e.size() < w:
        e = z3.ZeroExt(w - e.size(), e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SymInt(e, 0, (1 << w) - 1)


# --------------------------------------------------------------------- str


class SymStr(_Seq):
    __slots__ = ('items',)
    WS = S_WS
    LINESEPS = (10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029)
    TEXT = True

    def __init__(self, items):
        self.items = items

    def _new(self, items):
        return mkstr(items)

    def _el(self, v):
        return mkstr([v])

    def _other(self, o):
        if isinstance(o, SymStr):
            return o.items
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def __contains__(self, sub):
        if self._other(sub) is None:
            raise TypeError("'in <string>' requires string as left operand")
        return _Seq.__contains__(self, sub)

    def concrete(self):
        return ''.join(chr(conc(c)) for c in self.items)

    def __str__(self):
        return self.concrete()

    def __fspath__(self):
        return self.concrete()

    def __format__(self, spec):
        return '<sym>'

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self.items, encoding, errors)

    def casefold(self):
        return self.lower()

    def isdecimal(self):
        return self.isdigit()

    def isnumeric(self):
        return self.isdigit()

    def isidentifier(self):
        return self.concrete().isidentifier()

    def isprintable(self):
        return self._all(lambda c: _cls(c, str.isprintable, True))

    def translate(self, table):
        out = []
        for c in self.items:
            c = conc(c)
            out.extend(ord(x) for x in chr(c).translate(table))
        return mkstr(out)

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkstr(items):
    items = list(items)
    if all_concrete(items):
        return ''.join(map(chr, items))
    return SymStr(items)


def str_items(s):
    return s.items if isinstance(s, SymStr) else [ord(c) for c in s]


# ------------------------------------------------------------------ codecs


def _enc_name(encoding):
    n = encoding.lower().replace('_', '-')
    if n in ('utf8', 'utf-8', 'u8'):
        return 'utf8'
    if n in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'l1', '8859'):
        return 'latin1'
    if n in ('ascii', 'us-ascii', '646'):
        return 'ascii'
    return n


def encode(items, encoding, errors):
    n = _enc_name(encoding)
    if all_concrete(items):
        return ''.join(map(chr, items)).encode(encoding, errors)
    out = []
    if n in ('latin1', 'ascii'):
        top = 255 if n == 'latin1' else 127
        for c in items:
            hi = c if isinstance(c, int) else c.hi
            if hi <= top:
                out.append(c)
                continue
            if errors == 'replace':
                v = ite(c <= top, c, 63)
                out.append(v if isinstance(v, int) else _trunc(v, top))
                continue
            if bool(c <= top):
                out.append(c if isinstance(c, int) else c.restrict(0, top))
            elif errors == 'ignore':
                pass
            else:
                raise UnicodeEncodeError(n, '?', 0, 1, 'ordinal not in range')
        return mkbytes(out)
    if n != 'utf8':
        raise Unsupported('encoding %s' % encoding)
    for c in items:
        if isinstance(c, int):
            out.extend(chr(c).encode('utf8', errors))
            continue
        if bool(c < 0x80):
            out.append(c.restrict(0, 0x7f))
        elif bool(c < 0x800):
            out.append((c >> 6) | 0xc0)
            out.append((c & 63) | 0x80)
        elif bool(c < 0x10000):
            if bool(sym_and(c >= 0xd800, c <= 0xdfff)):
                if errors == 'replace':
                    out.append(63)
                    continue
                if errors == 'ignore':
                    continue
                if errors == 'surrogateescape' and bool(
                        sym_and(c >= 0xdc80, c <= 0xdcff)):
                    out.append(c & 0xff)
                    continue
                if errors != 'surrogatepass':
                    raise UnicodeEncodeError('utf-8', '?', 0, 1,
                                             'surrogates not allowed')
            out.append((c >> 12) | 0xe0)
            out.append(((c >> 6) & 63) | 0x80)
            out.append((c & 63) | 0x80)
        else:
            out.append((c >> 18) | 0xf0)
            out.append(((c >> 12) & 63) | 0x80)
            out.append(((c >> 6) & 63) | 0x80)
            out.append((c & 63) | 0x80)
    out = [b if isinstance(b, int) else _trunc(b, 255) for b in out]
    return mkbytes(out)


def decode(items, encoding, errors):
    n = _enc_name(encoding)
    if all_concrete(items):
        return bytes(items).decode(encoding, errors)
    if n == 'latin1':
        return mkstr(items)
    out = []
    if n == 'ascii':
        for b in items:
            hi = b if isinstance(b, int) else b.hi
            if hi < 128 or bool(b < 128):
                out.append(b if isinstance(b, int) else b.restrict(0, 127))
            elif errors == 'replace':
                out.append(0xfffd)
            elif errors == 'ignore':
                pass
            elif errors == 'surrogateescape':
                out.append(b + 0xdc00)
            else:
                raise UnicodeDecodeError('ascii', b'?', 0, 1,
                                         'ordinal not in range(128)')
        return mkstr(out)
    if n != 'utf8':
        raise Unsupported('decoding %s' % encoding)
    i = 0
    ln = len(items)

    def bad(k):
        if errors == 'replace':
            out.append(0xfffd)
        elif errors == 'ignore':
            pass
        elif errors == 'surrogateescape':
            for b in items[i:i + k]:
                out.append(b + 0xdc00)
        else:
            raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid byte')
        return k

    def rng(b, lo, hi):
        return bool(sym_and(b >= lo, b <= hi))
    while i < ln:
        b = items[i]
        if bool(b < 0x80):
            out.append(b if isinstance(b, int) else b.restrict(0, 0x7f))
            i += 1
            continue
        if rng(b, 0xc2, 0xdf):
            need = [(0x80, 0xbf)]
        elif rng(b, 0xe0, 0xef):
            need = [(0x80, 0xbf)] * 2
            if bool(b == 0xe0):
                need[0] = (0xa0, 0xbf)
            elif bool(b == 0xed):
                need[0] = (0x80, 0x9f)
        elif rng(b, 0xf0, 0xf4):
            need = [(0x80, 0xbf)] * 3
            if bool(b == 0xf0):
                need[0] = (0x90, 0xbf)
            elif bool(b == 0xf4):
                need[0] = (0x80, 0x8f)
        else:
            i += bad(1)
            continue
        k = 0
        ok = True
        for lo, hi in need:
            if i + 1 + k >= ln:
                ok = False
                break
            if not rng(items[i + 1 + k], lo, hi):
                ok = False
                break
            k += 1
        if not ok:
            i += bad(1 + k)
            continue
        if len(need) == 1:
            cp = ((b & 0x1f) << 6) | (items[i + 1] & 63)
        elif len(need) == 2:
            cp = ((b & 0xf) << 12) | ((items[i + 1] & 63) << 6) | (
                items[i + 2] & 63)
        else:
            cp = ((b & 7) << 18) | ((items[i + 1] & 63) << 12) | (
                (items[i + 2] & 63) << 6) | (items[i + 3] & 63)
        out.append(cp)
        i += 1 + len(need)
    return mkstr(out)


# -------------------------------------------------------- numbers <-> text


def int_digits(v, base, upper):
    """Digit characters of a symbolic integer (forks on the digit count)."""
    neg = False
    if isinstance(v, SymInt) and v.lo < 0:
        if bool(v < 0):
            v = -v
            neg = True
        else:
            v = v.restrict(0, v.hi)
    if isinstance(v, int):
        s = {2: '{:b}', 8: '{:o}', 10: '{:d}', 16: '{:x}'}[base].format(v)
        return neg, [ord(c) for c in (s.upper() if upper else s)]
    n = 1
    while base ** n <= v.hi and not bool(v < base ** n):
        n += 1
    if v.hi >= base ** n:
        v = v.restrict(0, base ** n - 1)
    if n > 1:
        v = v if isinstance(v, int) else v.restrict(base ** (n - 1), v.hi)
    out = []
    for k in range(n - 1, -1, -1):
        d = (v // base ** k) % base
        out.append(hexdigit(d, upper) if base == 16 else (d + 48))
    out = [c if isinstance(c, int) else _trunc(c, 127) for c in out]
    return neg, out


def parse_int(s, base=10):
    """int(str, base)"""
    items = s.items if isinstance(s, _Seq) else None
    if isinstance(base, SymInt):
        base = conc(base)
    if all_concrete(items):
        src = s.concrete()
        return int(src, base)
    if base == 16 and items:
        vs = [hexval(c) for c in items]
        if bool(sym_and(*[v[0] for v in vs])):
            r = 0
            for _, v in vs:
                r = (r << 4) + v
            return r
    elif base == 10 and items:
        ok = sym_and(*[sym_and(c >= 48, c <= 57) for c in items])
        if bool(ok):
            r = 0
            for c in items:
                d = c - 48
                if isinstance(d, SymInt):
                    d = _mk(d.e, 0, 9, d.lo < 0)
                r = r * 10 + d
            return r
    elif base == 2 and items:
        if bool(sym_and(*[in_set(c, [48, 49]) for c in items])):
            r = 0
            for c in items:
                r = (r << 1) + (c - 48)
            return r
    # Something else than plain digits: sign, blanks, '_', or an error.
    other = list(b'+-_ \t\n\r\x0b\x0c') + (
        [0x78, 0x58] if base == 16 else [])
    if all(isinstance(c, int) or c.hi < 128 for c in items):
        any_other = sym_or(*[in_set(c, other) for c in items])
        if base in (2, 10, 16) and not bool(any_other):
            raise ValueError('invalid literal for int()')
    return int(s.concrete(), base)
