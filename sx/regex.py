"""Backtracking interpretation of Python's own regex parse tree over symbolic
text.  Each character test is a solver decision; priorities are those of re."""
import re as _re
from re import _constants as C
from re import _parser

from sx.core import Unsupported, sym_and, sym_not, sym_or
from sx.seq import SymStr, SymBytes, SymByteArray, _SymB, in_set, eq_el, \
    mkstr, mkbytes, conc

_WORD = [i for i in range(128) if chr(i).isalnum() or i == 95]
_DIGIT = list(range(48, 58))


class _M(object):

    def __init__(self, text, flags, is_bytes):
        self.t = text
        self.flags = flags
        self.b = is_bytes
        self.ic = bool(flags & _re.IGNORECASE)
        self.ascii = is_bytes or bool(flags & _re.ASCII)

    def lit(self, c, v):
        if self.ic and v < 128 and chr(v).isalpha():
            return in_set(c, (ord(chr(v).lower()), ord(chr(v).upper())))
        return eq_el(c, v)

    def category(self, c, cat):
        neg = False
        name = str(cat)
        if 'NOT_' in name:
            neg = True
        if 'DIGIT' in name:
            base, f = _DIGIT, str.isdigit
        elif 'SPACE' in name:
            base, f = [9, 10, 11, 12, 13, 32], str.isspace
            if not self.ascii:
                base = [i for i in range(128) if chr(i).isspace()]
        elif 'WORD' in name:
            base, f = _WORD, lambda ch: ch.isalnum() or ch == '_'
        else:
            raise Unsupported('regex category %s' % name)
        if not self.ascii and not isinstance(c, int) and c.hi >= 128:
            if bool(c >= 128):
                r = f(chr(conc(c)))
                return (not r) if neg else r
            c = c.restrict(c.lo, 127)
        if not self.ascii and isinstance(c, int) and c >= 128:
            r = f(chr(c))
        else:
            r = in_set(c, base)
        return sym_not(r) if neg else r

    def cls(self, c, items):
        neg = False
        rs = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                rs.append(self.lit(c, av))
            elif op is C.RANGE:
                lo, hi = av
                rs.append(sym_and(c >= lo, c <= hi))
                if self.ic:
                    ex = [ord(x) for v in range(lo, min(hi, 127) + 1)
                          for x in (chr(v).lower(), chr(v).upper())
                          if len(x) == 1]
                    rs.append(in_set(c, ex))
            elif op is C.CATEGORY:
                rs.append(self.category(c, av))
            else:
                raise Unsupported('regex class %s' % op)
        r = sym_or(*rs)
        return sym_not(r) if neg else r

    def one(self, op, av, i):
        """Single character test or None when op is no such thing."""
        c = self.t[i]
        if op is C.LITERAL:
            return self.lit(c, av)
        if op is C.NOT_LITERAL:
            return sym_not(self.lit(c, av))
        if op is C.ANY:
            return True if self.flags & _re.DOTALL else sym_not(eq_el(c, 10))
        if op is C.IN:
            return self.cls(c, av)
        return None

    SINGLE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)

    def seq(self, nodes, p, i, caps):
        if p == len(nodes):
            yield i, caps
            return
        op, av = nodes[p]
        t = self.t
        if op in self.SINGLE:
            if i < len(t) and bool(self.one(op, av, i)):
                for r in self.seq(nodes, p + 1, i + 1, caps):
                    yield r
            return
        if op is C.AT:
            if self.at(av, i):
                for r in self.seq(nodes, p + 1, i, caps):
                    yield r
            return
        if op is C.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported('inline regex flags')
            for j, c2 in self.seq(sub, 0, i, caps):
                if g is not None:
                    c2 = dict(c2)
                    c2[g] = (i, j)
                for r in self.seq(nodes, p + 1, j, c2):
                    yield r
            return
        if op is C.BRANCH:
            for alt in av[1]:
                for j, c2 in self.seq(alt, 0, i, caps):
                    for r in self.seq(nodes, p + 1, j, c2):
                        yield r
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if len(sub) == 1 and sub[0][0] in self.SINGLE:
                for j in self.rep1(sub[0], lo, hi, i, op is C.MAX_REPEAT):
                    for r in self.seq(nodes, p + 1, j, caps):
                        yield r
                return
            gen = self.rep_max if op is C.MAX_REPEAT else self.rep_min
            for j, c2 in gen(sub, lo, hi, i, caps, 0):
                for r in self.seq(nodes, p + 1, j, c2):
                    yield r
            return
        if op is C.GROUPREF:
            if av not in caps:
                return
            a, b = caps[av]
            n = b - a
            if i + n <= len(t) and bool(sym_and(
                    *[eq_el(x, y) for x, y in zip(t[a:b], t[i:i + n])])):
                for r in self.seq(nodes, p + 1, i + n, caps):
                    yield r
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                raise Unsupported('regex lookbehind')
            hit = None
            for j, c2 in self.seq(sub, 0, i, caps):
                hit = c2
                break
            if (hit is not None) == (op is C.ASSERT):
                for r in self.seq(nodes, p + 1, i, hit or caps):
                    yield r
            return
        raise Unsupported('regex %s' % op)

    def rep1(self, node, lo, hi, i, greedy):
        op, av = node
        n = len(self.t)
        cnt = 0
        j = i
        if greedy:
            while (hi is C.MAXREPEAT or cnt < hi) and j < n and \
                    bool(self.one(op, av, j)):
                cnt += 1
                j += 1
            while cnt >= lo:
                yield i + cnt
                cnt -= 1
        else:
            while cnt < lo:
                if j >= n or not bool(self.one(op, av, j)):
                    return
                cnt += 1
                j += 1
            while True:
                yield j
                if (hi is not C.MAXREPEAT and cnt >= hi) or j >= n or \
                        not bool(self.one(op, av, j)):
                    return
                cnt += 1
                j += 1

    def rep_max(self, sub, lo, hi, i, caps, cnt):
        if hi is C.MAXREPEAT or cnt < hi:
            for j, c2 in self.seq(sub, 0, i, caps):
                if j == i and cnt >= lo:
                    continue
                for r in self.rep_max(sub, lo, hi, j, c2, cnt + 1):
                    yield r
        if cnt >= lo:
            yield i, caps

    def rep_min(self, sub, lo, hi, i, caps, cnt):
        if cnt >= lo:
            yield i, caps
        if hi is C.MAXREPEAT or cnt < hi:
            for j, c2 in self.seq(sub, 0, i, caps):
                if j == i and cnt >= lo:
                    continue
                for r in self.rep_min(sub, lo, hi, j, c2, cnt + 1):
                    yield r

    def at(self, where, i):
        n = len(self.t)
        ml = self.flags & _re.MULTILINE
        if where is C.AT_BEGINNING_STRING:
            return i == 0
        if where is C.AT_BEGINNING:
            return i == 0 or (ml and bool(eq_el(self.t[i - 1], 10)))
        if where is C.AT_END_STRING:
            return i == n
        if where is C.AT_END:
            if i == n:
                return True
            if ml:
                return bool(eq_el(self.t[i], 10))
            return i == n - 1 and bool(eq_el(self.t[i], 10))
        if where in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and bool(self.category(self.t[i - 1], C.CATEGORY_WORD))
            b = i < n and bool(self.category(self.t[i], C.CATEGORY_WORD))
            return (a != b) == (where is C.AT_BOUNDARY)
        raise Unsupported('regex anchor %s' % where)


class SymMatch(object):

    def __init__(self, pat, string, items, start, end, caps, mk):
        self.re = pat
        self.string = string
        self._items = items
        self._caps = dict(caps)
        self._caps[0] = (start, end)
        self._mk = mk
        self.pos = 0
        self.endpos = len(items)

    def _g(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        if g not in self._caps:
            return None
        a, b = self._caps[g]
        return self._mk(self._items[a:b])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    __getitem__ = _g

    def groups(self, default=None):
        out = []
        for g in range(1, self.re.groups + 1):
            v = self._g(g)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return dict((k, default if self._g(v) is None else self._g(v))
                    for k, v in self.re.groupindex.items())

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self._caps.get(g, (-1, -1))

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)

    @property
    def lastindex(self):
        raise Unsupported('lastindex')


class SymPattern(object):

    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern = self.real.pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self._tree = None

    def _prep(self, s):
        if isinstance(s, SymStr):
            return s.items, mkstr, False
        if isinstance(s, (SymBytes, SymByteArray)):
            if isinstance(s, SymByteArray):
                return list(s.items), SymByteArray, True
            return s.items, mkbytes, True
        return None

    def _tree_(self):
        if self._tree is None:
            self._tree = _parser.parse(self.pattern, self.flags & ~(
                _re.UNICODE | _re.DEBUG) if isinstance(self.pattern, str)
                else self.flags)
        return self._tree

    def _at(self, s, items, mk, isb, i, full=False):
        m = _M(items, self.flags, isb)
        for j, caps in m.seq(self._tree_(), 0, i, {}):
            if full and j != len(items):
                continue
            return SymMatch(self, s, items, i, j, caps, mk)
        return None

    def _clean(self, s):
        if isinstance(s, (SymByteArray, SymBytes, SymStr)):
            if all(type(c) is int for c in s.items):
                return s.concrete()
        return s

    def match(self, s, pos=0, endpos=None):
        p = self._prep(s)
        if p is None:
            return self.real.match(s, *([pos] if endpos is None
                                        else [pos, endpos]))
        items, mk, isb = p
        if endpos is not None:
            items = items[:endpos]
        return self._at(s, items, mk, isb, pos)

    def fullmatch(self, s):
        p = self._prep(s)
        if p is None:
            return self.real.fullmatch(s)
        return self._at(s, p[0], p[1], p[2], 0, True)

    def search(self, s, pos=0):
        p = self._prep(s)
        if p is None:
            return self.real.search(s, pos)
        items, mk, isb = p
        for i in range(pos, len(items) + 1):
            m = self._at(s, items, mk, isb, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        p = self._prep(s)
        if p is None:
            return self.real.finditer(s)
        return iter(self._iter(s, p))

    def _iter(self, s, p):
        items, mk, isb = p
        out = []
        i = 0
        last_end = -1
        while i <= len(items):
            m = _M(items, self.flags, isb)
            hit = None
            for j, caps in m.seq(self._tree_(), 0, i, {}):
                if j == i and i == last_end:
                    # an empty match may not touch the previous match
                    continue
                hit = SymMatch(self, s, items, i, j, caps, mk)
                break
            if hit is None:
                i += 1
                continue
            out.append(hit)
            last_end = hit.end()
            i = hit.end()
        return out

    def findall(self, s):
        p = self._prep(s)
        if p is None:
            return self.real.findall(s)
        out = []
        for m in self._iter(s, p):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                g = m.group(1)
                out.append(p[1]([]) if g is None else g)
            else:
                out.append(m.groups(p[1]([])))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        p = self._prep(s)
        if p is None:
            r = [repl, s]
            if isinstance(repl, (SymStr, _SymB)):
                raise Unsupported('symbolic replacement')
            return self.real.subn(repl, s, count)
        items, mk, isb = p
        out = []
        cur = 0
        n = 0
        for m in self._iter(s, p):
            if count and n >= count:
                break
            out.extend(items[cur:m.start()])
            r = repl(m) if callable(repl) else self._expand(repl, m)
            out.extend(_items(r))
            cur = m.end()
            n += 1
        out.extend(items[cur:])
        return mk(out), n

    def _expand(self, repl, m):
        if isinstance(repl, (SymStr, _SymB)):
            raise Unsupported('symbolic replacement')
        if isinstance(repl, bytearray):
            repl = bytes(repl)
        bs = '\\' if isinstance(repl, str) else b'\\'
        if bs not in repl:
            return repl
        out = []
        parsed = _parser.parse_template(repl, self.real)
        # 3.12: a list alternating literal, group, literal ...
        for part in parsed:
            if isinstance(part, int):
                g = m.group(part)
                if g is not None:
                    out.extend(_items(g))
            else:
                out.extend(_items(part))
        return m._mk(out)

    def split(self, s, maxsplit=0):
        p = self._prep(s)
        if p is None:
            return self.real.split(s, maxsplit)
        items, mk, isb = p
        out = []
        cur = 0
        n = 0
        for m in self._iter(s, p):
            if maxsplit and n >= maxsplit:
                break
            out.append(mk(items[cur:m.start()]))
            out.extend(m.groups())
            cur = m.end()
            n += 1
        out.append(mk(items[cur:]))
        return out


def _items(r):
    if isinstance(r, (SymStr, _SymB)):
        return r.items
    if isinstance(r, str):
        return [ord(c) for c in r]
    return list(r)
