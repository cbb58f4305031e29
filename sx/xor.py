"""Rewrites bit-vector equalities over XOR networks (checksums, CRCs) to a
normal form: every bit becomes a sorted parity sum.  Sound rewriting only;
the solver still decides the result."""
import z3


class TooBig(Exception):
    pass


LIMIT = 400000


class Normal(object):
    """A bit is an integer: bit 0 the constant, bit i the i-th atom."""

    def __init__(self):
        self.memo = {}
        self.index = {}
        self.atoms = [None]
        self.work = 0
        self.keep = []

    def atom(self, e, bit):
        k = (e.get_id(), bit)
        i = self.index.get(k)
        if i is None:
            i = self.index[k] = len(self.atoms)
            self.atoms.append((e, bit))
            self.keep.append(e)
        return 1 << i

    def boolbit(self, c):
        """A parity form for a Boolean, or None."""
        d = c.decl().kind()
        if d == z3.Z3_OP_NOT:
            r = self.boolbit(c.arg(0))
            return None if r is None else r ^ 1
        if d == z3.Z3_OP_EQ and z3.is_bv(c.arg(0)) and \
                c.arg(0).size() == 1:
            return self.bits(c.arg(0))[0] ^ self.bits(c.arg(1))[0] ^ 1
        return None

    def bits(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._bits(e)
            self.memo[k] = r
            self.keep.append(e)
            self.work += len(r) * max(len(e.children()), 1)
            if self.work > LIMIT:
                raise TooBig()
        return r

    def _bits(self, e):
        n = e.size()
        if z3.is_bv_value(e):
            v = e.as_long()
            return [(v >> i) & 1 for i in range(n)]
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_CONCAT:
            out = []
            for c in reversed(ch):
                out.extend(self.bits(c))
            return out
        if d == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            return self.bits(ch[0])[lo:hi + 1]
        if d == z3.Z3_OP_ZERO_EXT:
            b = self.bits(ch[0])
            return b + [0] * (n - len(b))
        if d == z3.Z3_OP_SIGN_EXT:
            b = self.bits(ch[0])
            return b + [b[-1]] * (n - len(b))
        if d == z3.Z3_OP_BXOR:
            out = self.bits(ch[0])
            for c in ch[1:]:
                out = [x ^ y for x, y in zip(out, self.bits(c))]
            return out
        if d == z3.Z3_OP_BNOT:
            return [c ^ 1 for c in self.bits(ch[0])]
        if d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
            absorb = 0 if d == z3.Z3_OP_BAND else 1
            cols = [self.bits(c) for c in ch]
            out = []
            for i in range(n):
                vs = [c[i] for c in cols]
                if any(v == absorb for v in vs):
                    out.append(absorb)
                    continue
                vs = list(dict.fromkeys(v for v in vs if v > 1))
                if not vs:
                    out.append(1 - absorb)
                elif len(vs) == 1:
                    out.append(vs[0])
                elif any(v ^ 1 in vs for v in vs):
                    out.append(absorb)
                else:
                    out.append(self.atom(e, i))
            return out
        if d in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and \
                z3.is_bv_value(ch[1]):
            k = ch[1].as_long()
            b = self.bits(ch[0])
            if k >= n:
                return [0] * n
            if d == z3.Z3_OP_BSHL:
                return [0] * k + b[:n - k]
            return b[k:] + [0] * k
        if d == z3.Z3_OP_ITE:
            c = self.boolbit(ch[0])
            a, b = self.bits(ch[1]), self.bits(ch[2])
            out = []
            for i in range(n):
                x = a[i] ^ b[i]
                if not x:
                    out.append(b[i])
                elif x == 1 and c is not None:
                    out.append(b[i] ^ c)
                else:
                    out.append(self.atom(e, i))
            return out
        return [self.atom(e, i) for i in range(n)]

    def build(self, form):
        e = None
        for i in range(1, form.bit_length()):
            if (form >> i) & 1:
                a, k = self.atoms[i]
                x = z3.Extract(k, k, a)
                e = x if e is None else e ^ x
        if e is None:
            return z3.BitVecVal(form & 1, 1)
        return ~e if form & 1 else e

    def equal(self, a, b):
        """z3 Boolean equivalent to a == b"""
        diff = [x ^ y for x, y in zip(self.bits(a), self.bits(b))]
        if 1 in diff:
            return z3.BoolVal(False)
        conj = [self.build(d) == 0 for d in diff if d]
        return z3.And(*conj) if conj else z3.BoolVal(True)


def has_xor(e, limit=20000):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit:
            return False
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BXOR:
            return True
        todo.extend(x.children())
    return False


CACHE = {}


def _eqs(e, depth=0):
    """Does a bit-vector equality stand near the top?"""
    d = e.decl().kind()
    if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
        return any(_eqs(c, depth + 1) for c in e.children())
    return d == z3.Z3_OP_EQ and z3.is_bv(e.arg(0))


def rewrite(e):
    """Normalise the bit-vector equalities at the top of a formula."""
    r = CACHE.get(e.get_id())
    if r is None:
        if len(CACHE) > 50000:
            CACHE.clear()
        r = CACHE[e.get_id()] = (e, _rewrite(e))
    return r[1]


def _rewrite(e):
    if not z3.is_app(e) or not _eqs(e) or not has_xor(e):
        return e
    nf = Normal()

    def go(x):
        d = x.decl().kind()
        if d == z3.Z3_OP_AND:
            return z3.And(*[go(c) for c in x.children()])
        if d == z3.Z3_OP_OR:
            return z3.Or(*[go(c) for c in x.children()])
        if d == z3.Z3_OP_NOT:
            return z3.Not(go(x.arg(0)))
        if d == z3.Z3_OP_EQ and z3.is_bv(x.arg(0)):
            return nf.equal(x.arg(0), x.arg(1))
        return x
    try:
        return z3.simplify(go(e))
    except (TooBig, RecursionError):
        return e
