import z3

from sx import core, seq, instr
from sx.core import (SymBool, SymInt, sym_and, sym_or, sym_not, zbool, ite,
                     eng, fresh_int, fresh_bytes, Unsupported)
from sx.seq import (SymBytes, SymByteArray, SymStr, mkbytes, mkstr,
                    byte_items, str_items, eq_items, _SymB)


class Symbolic(object):
    symbolic = True

    def __init__(self):
        self.reached = {}
        self.notes = {}

    def int(self, name, lo, hi):
        return fresh_int(name, lo, hi)

    def bytes(self, name, n):
        if n == 0:
            eng().declare(name, ('bytes', []))
        return mkbytes(fresh_bytes(name, n)) if n else b''

    def bytearray(self, name, n):
        return SymByteArray(fresh_bytes(name, n))

    def text(self, name, n, lo=32, hi=126):
        return mkstr([fresh_int('%s.%d' % (name, i), lo, hi)
                      for i in range(n)])

    def choose(self, name, options):
        options = list(options)
        i = fresh_int(name, 0, len(options) - 1)
        if not isinstance(i, int):
            # a stable, ordered enumeration
            for k in range(len(options) - 1):
                if bool(i == k):
                    return options[k]
            return options[-1]
        return options[i]

    def bool(self, name):
        v = fresh_int(name, 0, 1)
        return v == 1

    def assume(self, cond):
        eng().assume(zbool(cond))

    def check(self, cond, label, detail=None):
        eng().check(zbool(cond), label, detail)

    def fail(self, label, detail=None):
        eng().check(z3.BoolVal(False), label, detail)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def implies(self, a, b):
        return sym_or(sym_not(a), b)

    def all(self, *cs):
        return sym_and(*cs)

    def either(self, *cs):
        return sym_or(*cs)

    def no(self, c):
        return sym_not(c)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def eq(self, a, b):
        return same(a, b)

    def clock(self, seconds):
        instr.CLOCK['now'] = lambda: seconds

    def patch(self, obj, name, value):
        eng().undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def digest(self, alg, data):
        from sx import stubs
        name = {v: k for k, v in stubs._REAL.items()}[alg]
        return mkbytes(stubs.digest_of(name, list(byte_items(data))))

    def hexdigest(self, alg, data):
        h = instr.hexlify(self.digest(alg, data))
        return mkstr(list(byte_items(h))).upper()

    def b64(self, data):
        return mkstr(list(byte_items(instr.b64encode(data))))

    def b64char(self, v):
        return mkstr([instr._b64ch(v)])

    def distinct_random(self):
        from sx import stubs
        stubs.distinct_random()

    def repeat(self, n):
        return range(1)

    def note(self, key, value):
        self.notes[key] = value

    def concrete(self, v):
        if isinstance(v, SymInt):
            return v.concretize()
        if isinstance(v, (SymStr, _SymB)):
            return v.concrete()
        return v


def same(a, b):
    x, y = byte_items(a), byte_items(b)
    if x is not None or y is not None:
        if x is None or y is None:
            return False
        return eq_items(x, y)
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return eq_items(str_items(a), str_items(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return sym_and(*[same(p, q) for p, q in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return sym_and(*[same(a[k], b[k]) for k in a])
    r = (a == b)
    return False if r is NotImplemented else r
