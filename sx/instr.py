"""Loads the real modules of /repo with symbolic-aware builtins.

The source text is read from the working tree on every run and only rewritten
where CPython would otherwise force a concrete value inside C code (method
calls on builtin containers, subscripts, ``in``, ``and``/``or``/``not``,
string formatting) plus, for pure integer code, if-conversion.
"""
import ast
import base64 as _base64
import binascii as _binascii
import builtins as _b
import collections as _collections
import collections.abc as _abc
import copy as _copy
import datetime as _dt
import hashlib as _hashlib
import io as _io
import math as _math
import numbers as _numbers
import operator as _operator
import os
import re as _re
import string as _string
import struct as _struct
import sys
import time as _time
import types
import zlib as _zlib

import z3

from sx import core, dt as sdt, seq
from sx.core import (SymBool, SymInt, SymFrac, Unsupported, PathAbort, ite,
                     sym_and, sym_not, sym_or, mkbool, step_count, zbool)
from sx.seq import (SymBytes, SymByteArray, SymStr, _SymB, _Seq, mkbytes,
                    mkstr, conc, byte_items, all_concrete, int_digits,
                    parse_int, select, str_items, eq_el, in_set)
from sx.regex import SymPattern

REPO = os.environ.get('SX_REPO', '/repo')
SYMS = (SymInt, SymBool, SymBytes, SymByteArray, SymStr, SymFrac,
        sdt.SymFloat, sdt.SymDT, sdt.SymTD)
NUMSYMS = (SymInt, SymBool)
for _t in (SymBytes, SymByteArray):
    _abc.ByteString.register(_t)
_abc.MutableSequence.register(SymByteArray)
_abc.Sequence.register(SymStr)
_numbers.Integral.register(SymInt)

FUNCS = {}          # functions entered symbolically -> count
SOURCES = {}        # files encoded


def enter(name):
    FUNCS[name] = FUNCS.get(name, 0) + 1


# ------------------------------------------------------------- formatting


class LazyStr(SymStr):
    """Text whose symbolic content is only worked out if somebody looks."""
    __slots__ = ('_thunk', '_val')

    def __init__(self, thunk):
        self._thunk = thunk
        self._val = None

    @property
    def items(self):
        if self._val is None:
            self._val = str_items(self._thunk())
        return self._val

    def __repr__(self):
        return '<LazyStr>'


def any_sym(xs):
    for x in xs:
        if isinstance(x, SYMS):
            return True
        if isinstance(x, (tuple, list)) and any_sym(x):
            return True
        if isinstance(x, dict) and (any_sym(x.keys()) or
                                    any_sym(x.values())):
            return True
    return False


_SPEC = _re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([_,])?'
                    r'(?:\.(\d+))?([a-zA-Z%])?$', _re.S)


def format_value(v, spec):
    """format(v, spec) -> list of characters"""
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    if isinstance(v, SymBool):
        if spec == '':
            v = bool(v)
            return [ord(c) for c in str(v)]
        v = v._int()
    if isinstance(v, sdt.SymFloat):
        raise Unsupported('formatting a symbolic float')
    if isinstance(v, (sdt.SymDT,)):
        return [ord(c) for c in format(v.concrete(), spec)]
    if isinstance(v, _SymB):
        return [ord(c) for c in format(v.concrete() if not
                isinstance(v, SymByteArray) else bytearray(v.concrete()),
                spec)]
    if not isinstance(v, (SymInt, SymStr)):
        if isinstance(v, (list, tuple, dict)) and any_sym([v]):
            return [ord(c) for c in '<sym>']
        return [ord(c) for c in format(v, spec)]
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported('format spec %r' % spec)
    fill, align, sign, alt, zero, width, grp, prec, typ = m.groups()
    if grp:
        raise Unsupported('format spec %r' % spec)
    width = int(width) if width else 0
    if isinstance(v, SymStr):
        if typ not in (None, 's') or sign or alt:
            raise ValueError('Unknown format code for str')
        out = list(v.items)
        if prec is not None:
            out = out[:int(prec)]
        fill = fill or ('0' if zero else ' ')
        align = align or '<'
    else:
        base = {None: 10, 'd': 10, 'x': 16, 'X': 16, 'b': 2, 'o': 8,
                'n': 10}.get(typ)
        if typ == 'c':
            out = [v]
            base = None
        elif base is None:
            raise Unsupported('format spec %r' % spec)
        fw = 0
        if base is not None:
            # zero-padded hex of known width needs no digit-count fork
            if zero and not align and v.lo >= 0 and base in (2, 16) and \
                    not sign and not alt and v.hi < base ** width:
                step = 4 if base == 16 else 1
                out = [seq.hexdigit((v >> (step * k)) & (base - 1),
                                    typ == 'X')
                       for k in range(width - 1, -1, -1)]
                return out
            neg, out = int_digits(v, base, typ == 'X')
            pre = []
            if neg:
                pre = [45]
            elif sign in ('+', ' '):
                pre = [ord(sign)]
            if alt and base != 10:
                pre += [48, ord({16: 'x', 2: 'b', 8: 'o'}[base]
                                if typ != 'X' else 'X')]
            if zero and not align:
                align, fill = '=', '0'
            if align == '=':
                pad = max(0, width - len(pre) - len(out))
                return pre + [ord(fill or ' ')] * pad + out
            out = pre + out
        fill = fill or ' '
        align = align or '>'
    pad = max(0, width - len(out))
    if not pad:
        return out
    f = ord(fill)
    if align == '<':
        return out + [f] * pad
    if align == '>':
        return [f] * pad + out
    return [f] * (pad // 2) + out + [f] * (pad - pad // 2)


def convert(v, conversion):
    if conversion in ('s', 115):
        if isinstance(v, SYMS):
            return sx_str(v)
        return str(v)
    if conversion in ('r', 114, 'a', 97):
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SYMS) or any_sym([v]):
            return LazyStr(lambda: _repr(v))
        return repr(v)
    return v


def _repr(v):
    if isinstance(v, SymStr):
        return repr(v.concrete())
    if isinstance(v, SymByteArray):
        return repr(bytearray(v.concrete()))
    if isinstance(v, SymBytes):
        return repr(v.concrete())
    if isinstance(v, SymInt):
        return sx_str(v)
    if isinstance(v, SymBool):
        return repr(bool(v))
    return '<sym>'


_FMT = _string.Formatter()


def str_format(fmt, args, kwargs):
    used = list(args) + list(kwargs.values())
    if not any_sym(used) and not any(_has_sym_attr(fmt, u) for u in used):
        return fmt.format(*args, **kwargs)

    def work():
        out = []
        auto = [0]

        def rec(f, depth):
            res = []
            for lit, field, spec, conv in _FMT.parse(f):
                res.extend(ord(c) for c in lit)
                if field is None:
                    continue
                if field == '' or field[0] in '.[':
                    field = str(auto[0]) + field
                    auto[0] += 1
                obj, _ = _FMT.get_field(field, args, kwargs)
                obj = convert(obj, conv) if conv else obj
                spec = mkstr(rec(spec, depth - 1)) if spec else ''
                res.extend(format_value(obj, spec))
            return res
        return mkstr(rec(fmt, 2))
    return LazyStr(work)


def _has_sym_attr(fmt, u):
    return '.' in fmt or '[' in fmt


_PCT = _re.compile(r'%(?:\((.*?)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?[hlL]?'
                   r'([a-zA-Z%])', _re.S)


def pct_format(fmt, arg):
    args = arg if isinstance(arg, tuple) else (arg,)
    if not any_sym(args if not isinstance(arg, dict) else arg.values()):
        return fmt % arg

    def work():
        out = []
        pos = 0
        n = 0
        for m in _PCT.finditer(fmt):
            out.extend(ord(c) for c in fmt[pos:m.start()])
            pos = m.end()
            key, flags, width, prec, typ = m.groups()
            if typ == '%':
                out.append(37)
                continue
            if width == '*':
                width = str(conc(args[n]))
                n += 1
            if key is not None:
                v = arg[key]
            else:
                v = args[n]
                n += 1
            if typ in 'sra':
                v = convert(v, 's' if typ == 's' else 'r')
                s = str_items(v if isinstance(v, (str, SymStr))
                              else sx_str(v))
                if prec:
                    s = s[:int(prec)]
                w = int(width or 0)
                pad = [32] * max(0, w - len(s))
                out.extend(s + pad if '-' in flags else pad + s)
                continue
            if typ in 'iu':
                typ = 'd'
            if isinstance(v, sdt.SymFloat):
                v = v.v
            if typ == 'd' and isinstance(v, SymFrac):
                v = _math.floor(v)
            spec = ''
            if '-' in flags:
                spec += '<'
            if '+' in flags:
                spec += '+'
            elif ' ' in flags:
                spec += ' '
            if '#' in flags:
                spec += '#'
            if '0' in flags and '-' not in flags:
                spec += '0'
            spec += (width or '')
            if prec:
                if isinstance(v, SymInt) and typ in 'xXd':
                    spec = spec.rstrip('0123456789') + '0' + prec
                else:
                    spec += '.' + prec
            out.extend(format_value(v, spec + typ))
        out.extend(ord(c) for c in fmt[pos:])
        return mkstr(out)
    return LazyStr(work)


def bytes_format(fmt, args):
    out, args, i = [], list(args), 0
    while i < len(fmt):
        if fmt[i] != 37:
            out.append(fmt[i])
            i += 1
            continue
        kind = fmt[i + 1:i + 2]
        if kind == b'%':
            out.append(37)
        elif kind in (b's', b'b'):
            out.extend(byte_items(args.pop(0)))
        elif kind == b'c':
            v = args.pop(0)
            out.extend([v] if isinstance(v, (int, SymInt))
                       else byte_items(v))
        else:
            raise Unsupported('bytes % formatting')
        i += 2
    if args:
        raise TypeError('not all arguments converted')
    return mkbytes(out)


def sx_mod(a, b):
    if type(a) is str:
        return pct_format(a, b)
    if type(a) is bytes:
        if any_sym(b if isinstance(b, tuple) else (b,)):
            return bytes_format(a, b if isinstance(b, tuple) else (b,))
    return a % b


def sx_fstr(parts):
    """parts: list of str or (value, conversion, spec)"""
    if not any(isinstance(p, tuple) and (isinstance(p[0], SYMS) or
               any_sym([p[0]]) or isinstance(p[2], SymStr)) for p in parts):
        return ''.join(p if isinstance(p, str) else
                       format({-1: lambda v: v, 115: str, 114: repr,
                               97: ascii}[p[1]](p[0]), p[2])
                       for p in parts)

    def work():
        out = []
        for p in parts:
            if isinstance(p, str):
                out.extend(ord(c) for c in p)
            else:
                v = p[0] if p[1] == -1 else convert(p[0], p[1])
                out.extend(format_value(v, p[2]))
        return mkstr(out)
    return LazyStr(work)


# --------------------------------------------------------------- builtins


class TypeProxy(object):
    """Stands in for a builtin type: callable, usable with isinstance."""

    def __init__(self, real, ctor, syms):
        self.__dict__['_real'] = real
        self.__dict__['_ctor'] = ctor
        self.__dict__['_syms'] = syms
        self.__dict__['__name__'] = real.__name__
        self.__dict__['__doc__'] = real.__doc__

    def __call__(self, *a, **k):
        return self._ctor(*a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, self._real) or isinstance(x, self._syms)

    def __subclasscheck__(self, c):
        if isinstance(c, TypeProxy):
            c = c._real
        if isinstance(c, type) and issubclass(c, self._syms):
            return True
        return issubclass(c, self._real)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __eq__(self, o):
        if isinstance(o, TypeProxy):
            return o._real is self._real
        return o is self._real or o in self._syms

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._real)

    def __or__(self, o):
        return _typing_union(self, o)

    def __getattr__(self, name):
        special = STATIC.get((self._real, name))
        if special is not None:
            return special
        v = getattr(self._real, name)
        if callable(v) and self._syms and not name.startswith('__'):
            return _Unbound(self, name, v)
        return v

    def __repr__(self):
        return repr(self._real)


class _Unbound(object):
    """str.upper, bytes.join ... used as a function."""

    def __init__(self, proxy, name, real):
        self.proxy = proxy
        self.name = name
        self.real = real

    def __call__(self, *a, **k):
        if a and (isinstance(a[0], self.proxy._syms)):
            return getattr(a[0], self.name)(*a[1:], **k)
        if a and isinstance(a[0], self.proxy._real):
            return sx_meth(a[0], self.name)(*a[1:], **k)
        return self.real(*a, **k)


def _typing_union(a, b):
    raise Unsupported('type unions')


def sx_int(x=0, base=None):
    if base is not None:
        if isinstance(x, (SymStr, _SymB)):
            return parse_int(x, base)
        return int(x, base) if not isinstance(base, SymInt) else \
            int(x, conc(base))
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, (SymFrac, sdt.SymFloat)):
        return x.__trunc__()
    if isinstance(x, (SymStr, _SymB)):
        return parse_int(x, 10)
    if isinstance(x, SymLog):
        return x.__trunc__()
    return int(x)


def sx_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def sx_float(x=0.0):
    if isinstance(x, SymInt):
        return sdt.SymFloat(x) if x.hi < 1 << 53 and x.lo > -(1 << 53) \
            else float(conc(x))
    if isinstance(x, (SymFrac, sdt.SymFloat, SymLog)):
        return x
    if isinstance(x, SymStr):
        return float(x.concrete())
    return float(x)


def _bytes_items(a, k):
    if not a and not k:
        return []
    x = a[0] if a else k.get('source', k.get('string'))
    enc = a[1] if len(a) > 1 else k.get('encoding')
    err = a[2] if len(a) > 2 else k.get('errors', 'strict')
    if isinstance(x, (str, SymStr)):
        if enc is None:
            raise TypeError('string argument without an encoding')
        return byte_items(sx_meth(x, 'encode')(enc, err))
    it = byte_items(x)
    if it is not None:
        return list(it)
    if isinstance(x, (SymInt, SymBool)):
        x = conc(x)
    if isinstance(x, int):
        if x < 0:
            raise ValueError('negative count')
        return [0] * x
    if hasattr(type(x), '__bytes__'):
        r = x.__bytes__()
        if byte_items(r) is None or isinstance(r, (bytearray, SymByteArray)):
            raise TypeError('__bytes__ returned non-bytes')
        return list(byte_items(r))
    if hasattr(type(x), '__index__'):
        return [0] * x.__index__()
    return [SymByteArray._byte(v) for v in x]


def sx_bytes(*a, **k):
    if a and not isinstance(a[0], (str, SymStr)) and \
            hasattr(type(a[0]), '__bytes__') and \
            not isinstance(a[0], (bytes, _SymB)):
        r = a[0].__bytes__()
        if not isinstance(r, (bytes, SymBytes)):
            raise TypeError('__bytes__ returned non-bytes (type %s)'
                            % type(r).__name__)
        return r
    return mkbytes(_bytes_items(a, k))


def sx_bytearray(*a, **k):
    if a and not isinstance(a[0], (str, SymStr, bytes, bytearray, _SymB)) \
            and hasattr(type(a[0]), '__bytes__') and \
            not hasattr(type(a[0]), '__iter__') and \
            not hasattr(type(a[0]), '__index__'):
        raise TypeError("cannot convert '%s' object to bytearray"
                        % type(a[0]).__name__)
    return SymByteArray(_bytes_items(a, k))


def sx_str(x='', *a, **k):
    if a or k:
        if isinstance(x, _SymB):
            enc = a[0] if a else k.get('encoding', 'utf-8')
            err = a[1] if len(a) > 1 else k.get('errors', 'strict')
            return x.decode(enc, err)
        return str(x, *a, **k)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return LazyStr(lambda: mkstr(format_value(x, '')))
    if isinstance(x, SymBool):
        return LazyStr(lambda: str(bool(x)))
    if isinstance(x, _SymB):
        return LazyStr(lambda: _repr(x))
    if isinstance(x, SYMS):
        return LazyStr(lambda: str(x))
    if type(x).__str__ is not object.__str__ and \
            type(x).__module__.startswith('pgp'):
        return type(x).__str__(x)
    if isinstance(x, BaseException):
        return '<exception>' if any_sym(x.args) else str(x)
    return str(x)


def sx_repr(x):
    if isinstance(x, SYMS):
        return LazyStr(lambda: _repr(x))
    if any_sym([x]):
        return '<sym>'
    return repr(x)


def sx_range(*a):
    if not any(isinstance(x, NUMSYMS) for x in a):
        return range(*a)
    a = [x._int() if isinstance(x, SymBool) else x for x in a]
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    else:
        start, stop = a[0], a[1]
        if len(a) == 3:
            step = conc(a[2])
    if isinstance(start, int) and step == 1:
        return SymRange(start, stop)
    return range(conc(start), conc(stop), step)


class SymRange(object):
    """range(start, stop) with a symbolic stop: forks lazily."""

    def __init__(self, start, stop):
        self.start = start
        self.stop = stop
        self.step = 1

    def __iter__(self):
        i = self.start
        while bool(i < self.stop):
            yield i
            i += 1

    def _c(self):
        return range(self.start, conc(self.stop))

    def __len__(self):
        return len(self._c())

    def __reversed__(self):
        return reversed(self._c())

    def __getitem__(self, i):
        return self._c()[i]

    def __contains__(self, v):
        return bool(sym_and(v >= self.start, v < self.stop))


def sx_len(x):
    if isinstance(x, _Seq):
        return len(x.items)
    return len(x)


def sx_ord(x):
    if isinstance(x, (SymStr, _SymB)):
        if len(x.items) != 1:
            raise TypeError('ord() expected a character, but string of '
                            'length %d found' % len(x.items))
        return x.items[0]
    return ord(x)


def sx_chr(x):
    if isinstance(x, SymInt):
        if bool(sym_or(x < 0, x > 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr([x.restrict(0, 0x10ffff)])
    return chr(x)


def sx_hex(x):
    if isinstance(x, SymInt):
        return LazyStr(lambda: mkstr(format_value(x, '#x')))
    return hex(x)


def sx_bin(x):
    if isinstance(x, SymInt):
        return LazyStr(lambda: mkstr(format_value(x, '#b')))
    return bin(x)


def sx_format(v, spec=''):
    if isinstance(v, SYMS):
        return LazyStr(lambda: mkstr(format_value(v, spec)))
    return format(v, spec)


def sx_hash(x):
    if isinstance(x, SymByteArray):
        raise TypeError("unhashable type: 'bytearray'")
    h = type(x).__hash__
    if h is not None and hasattr(h, '__code__'):
        return h(x)     # may be symbolic
    return hash(x)


def sx_sorted(it, *, key=None, reverse=False):
    # insertion via real sorted(): comparisons fork
    return sorted(it, key=key, reverse=reverse)


def sx_minmax(name):
    real = getattr(_b, name)

    def f(*a, **k):
        if len(a) == 1:
            a = (list(a[0]),)
            vals = a[0]
        else:
            vals = a
        if not k and vals and any(isinstance(v, NUMSYMS) for v in vals) and \
                all(isinstance(v, (int, SymInt, SymBool)) for v in vals):
            r = vals[0]
            for v in vals[1:]:
                c = (v < r) if name == 'min' else (v > r)
                rr = ite(c, v, r)
                if isinstance(rr, SymInt):
                    los = [_rng(x) for x in (v, r)]
                    pick = min if name == 'min' else max
                    rr = rr.restrict(pick(l[0] for l in los),
                                     pick(l[1] for l in los))
                r = rr
            return r
        return real(*a, **k)
    return f


def _rng(v):
    if isinstance(v, SymInt):
        return v.lo, v.hi
    if isinstance(v, SymBool):
        return 0, 1
    return int(v), int(v)


def sx_any(it):
    acc = False
    for v in it:
        if isinstance(v, NUMSYMS):
            if bool(v):
                return True
        elif v:
            return True
    return False


def sx_all(it):
    for v in it:
        if not v:
            return False
    return True


def sx_divmod(a, b):
    return divmod(a, b)


def sx_pow(a, b, m=None):
    if m is None:
        if isinstance(a, SYMS) or isinstance(b, SYMS):
            return a ** b
        return pow(a, b)
    if isinstance(m, SymInt):
        m = conc(m)
    if isinstance(b, SymInt):
        b = conc(b)
    if isinstance(a, SymInt):
        return a.__pow__(b, m)
    return pow(a, b, m)


def sx_round(x, n=None):
    if isinstance(x, SymFrac):
        raise Unsupported('round of a symbolic fraction')
    return round(x) if n is None else round(x, n)


def sx_print(*a, **k):
    out = k.get('file')
    if out is not None and not hasattr(out, 'fileno'):
        sep, end = k.get('sep'), k.get('end')
        text = ''
        for i, x in enumerate(a):
            if i:
                text = text + (' ' if sep is None else sep)
            text = text + sx_str(x)
        out.write(text + ('\n' if end is None else end))


def sx_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt):
            return PROXIES['int']
        if isinstance(x, SymBool):
            return PROXIES['bool']
        if isinstance(x, SymBytes):
            return PROXIES['bytes']
        if isinstance(x, SymByteArray):
            return PROXIES['bytearray']
        if isinstance(x, SymStr):
            return PROXIES['str']
        t = type(x)
        p = PROXIES.get(t.__name__)
        return p if p is not None and p._real is t else t
    return type(*a, **k)


def _mkset(items, real):
    if any(isinstance(v, SYMS) for v in items):
        return SymSet(items)
    try:
        return real(items)
    except TypeError as e:
        # objects whose __hash__ is symbolic
        if 'should return an integer' in str(e):
            return SymSet(items)
        raise


def sx_set(it=()):
    return _mkset(list(it), set)


def sx_frozenset(it=()):
    return _mkset(list(it), frozenset)


def same_key(a, b):
    """What a hash table takes as the same key."""
    if a is b:
        return True
    for x in (a, b):
        if isinstance(x, SYMS) or isinstance(x, (int, str, bytes, tuple,
                                                 type(None))):
            break
    else:
        if not bool(a == b):
            return False
        ha, hb = type(a).__hash__(a), type(b).__hash__(b)
        if isinstance(ha, int) and isinstance(hb, int):
            return ha == hb
        # equal objects of symbolic content: their hashes are taken to be
        # equal too (the harness of subpackets decides that they are)
        return True
    return bool(a == b)


class SymSet(object):
    """A set with symbolic members (linear, equality decided by the solver)"""

    def __init__(self, items=()):
        self._l = []
        for v in items:
            self.add(v)

    def __contains__(self, v):
        return any(same_key(x, v) for x in self._l)

    def add(self, v):
        if v not in self:
            self._l.append(v)

    def discard(self, v):
        for i, x in enumerate(self._l):
            if same_key(x, v):
                del self._l[i]
                return

    def remove(self, v):
        n = len(self._l)
        self.discard(v)
        if len(self._l) == n:
            raise KeyError(v)

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return False
        return len(self) == len(o) and all(v in self for v in o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def union(self, *os):
        r = SymSet(self._l)
        for o in os:
            for v in o:
                r.add(v)
        return r

    def update(self, *os):
        for o in os:
            for v in o:
                self.add(v)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *os):
        r = self._l
        for o in os:
            o = SymSet(o)
            r = [v for v in r if v in o]
        return SymSet(r)

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def difference(self, *os):
        r = self._l
        for o in os:
            o = SymSet(o)
            r = [v for v in r if v not in o]
        return SymSet(r)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def symmetric_difference(self, o):
        o = SymSet(o)
        return self.difference(o).union(o.difference(self))

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rxor__ = __xor__

    def __iand__(self, o):
        self._l = self.intersection(o)._l
        return self

    def __isub__(self, o):
        self._l = self.difference(o)._l
        return self

    def __ixor__(self, o):
        self._l = self.symmetric_difference(o)._l
        return self

    def difference_update(self, *os):
        self._l = self.difference(*os)._l

    def intersection_update(self, *os):
        self._l = self.intersection(*os)._l

    def __lt__(self, o):
        return len(self._l) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self._l) > len(o) and self.issuperset(o)

    def issubset(self, o):
        o = SymSet(o)
        return all(v in o for v in self._l)

    __le__ = issubset

    def issuperset(self, o):
        return all(v in self for v in o)

    __ge__ = issuperset

    def isdisjoint(self, o):
        return not self.intersection(o)._l

    def copy(self):
        return SymSet(self._l)

    def clear(self):
        self._l = []

    def pop(self):
        return self._l.pop()


# -------------------------------------------------- containers with sym keys


def _find_key(d, key):
    """The key object of dict/set d equal to key, by solver decisions."""
    if isinstance(key, tuple) and not any_sym([key]):
        pass
    for k in d:
        if type(k) is type(key) and k is key:
            return (k,)
    groups = None
    for k in list(d):
        if isinstance(k, SYMS) or isinstance(key, SYMS) or any_sym([k, key]):
            r = (k == key)
            if r is NotImplemented:
                continue
            if bool(r):
                return (k,)
        else:
            try:
                if k == key:
                    return (k,)
            except TypeError:
                pass
    return None


def _needs(d, key):
    if isinstance(key, SYMS) or (isinstance(key, tuple) and any_sym(key)):
        return True
    if len(d) <= 64:
        for k in d:
            if isinstance(k, SYMS) or (isinstance(k, tuple) and any_sym(k)):
                return True
    return False


_MISS = object()


def _dict_get(d, key):
    """value or _MISS"""
    if isinstance(key, SymByteArray):
        raise TypeError("unhashable type: 'bytearray'")
    if isinstance(key, SymInt) and len(d) > 3 and \
            all(type(k) is int for k in d) and \
            all(type(v) in (int,) for v in d.values()):
        ks = sorted(k for k in d if key.lo <= k <= key.hi)
        if not ks:
            return _MISS
        if not bool(in_set(key, ks)):
            return _MISS
        r = d[ks[-1]]
        for k in reversed(ks[:-1]):
            r = ite(key == k, d[k], r)
        return r
    hit = _find_key(d, key)
    return _MISS if hit is None else dict.__getitem__(d, hit[0])


def sx_get(o, k):
    t = type(o)
    if isinstance(o, dict):
        if _needs(o, k):
            v = _dict_get(o, k)
            if v is _MISS:
                if hasattr(t, '__missing__'):
                    return o[k]
                raise KeyError(k)
            return v
        return o[k]
    if isinstance(k, NUMSYMS):
        if isinstance(k, SymBool):
            k = k._int()
        if t in (list, tuple, bytes, bytearray) and len(o) > 4 and \
                (t is bytes or t is bytearray or
                 all(isinstance(v, (int, SymInt)) for v in o)):
            n = len(o)
            if k.hi >= n and bool(k >= n):
                raise IndexError('%s index out of range' % t.__name__)
            if k.lo < 0 and bool(k < 0):
                k = k + n
                if bool(k < 0):
                    raise IndexError('%s index out of range' % t.__name__)
            return select(list(o), k)
        if t is str:
            return SymStr([ord(c) for c in o])[k]
        if t in (list, tuple, bytes, bytearray):
            n = len(o)
            if k.hi >= n and bool(k >= n):
                raise IndexError('%s index out of range' % t.__name__)
    elif isinstance(k, slice) and t in (list, tuple, bytes, bytearray, str):
        if isinstance(k.start, SYMS) or isinstance(k.stop, SYMS):
            k = seq.norm_slice(k, len(o))
    return o[k]


def sx_set_item(o, k, v):
    if isinstance(o, dict) and _needs(o, k):
        hit = _find_key(o, k)
        if hit is not None:
            dict.__setitem__(o, hit[0], v)
            return
        o[k] = v
        return
    o[k] = v


def sx_memoryview(o):
    if isinstance(o, _SymB):
        return mkbytes(o.items)
    return memoryview(o)


def sx_dict(pairs):
    """A dict display."""
    out = {}
    for k, v in pairs:
        sx_set_item(out, k, v)
    return out


def sx_items(o):
    """What ** unpacks."""
    return [(k, sx_get(o, k)) for k in o.keys()]


def sx_in(a, b):
    t = type(b)
    if isinstance(b, (dict, set, frozenset)):
        if isinstance(a, SymByteArray):
            raise TypeError("unhashable type: 'bytearray'")
        if _needs(b, a):
            if isinstance(a, SymInt) and all(type(k) is int for k in b):
                return in_set(a, list(b))
            return _find_key(b, a) is not None
        return a in b
    if isinstance(a, NUMSYMS) and t in (list, tuple, range):
        if t is range and b.step == 1:
            return sym_and(a >= b.start, a < b.stop)
        if all(isinstance(v, (int, SymInt)) for v in b):
            if isinstance(a, SymInt) and all(type(v) is int for v in b):
                return in_set(a, list(b))
            return sym_or(*[eq_el(a, v) if isinstance(a, SymInt) else a == v
                            for v in b])
    if t in (list, tuple) and isinstance(a, (SymStr, _SymB)):
        rs = [a == v for v in b]
        return sym_or(*[r for r in rs])
    if t is str and isinstance(a, SymStr):
        return SymStr([ord(c) for c in b]).__contains__(a)
    if t is bytes and isinstance(a, (SymInt, _SymB)):
        return SymBytes(list(b)).__contains__(a)
    return a in b


def sx_not_in(a, b):
    return sym_not(sx_in(a, b))


def sx_not(v):
    if isinstance(v, NUMSYMS):
        return sym_not(v)
    return not v


def sx_and(a, thunk):
    """a and thunk() for side-effect free, cheap right operands."""
    if isinstance(a, SymBool):
        try:
            b = thunk()
        except Exception:
            return thunk() if bool(a) else False
        if isinstance(b, (bool, SymBool)):
            return sym_and(a, b)
        return b if bool(a) else False
    return a and thunk()


def sx_or(a, thunk):
    if isinstance(a, SymBool):
        try:
            b = thunk()
        except Exception:
            return True if bool(a) else thunk()
        if isinstance(b, (bool, SymBool)):
            return sym_or(a, b)
        return True if bool(a) else b
    return a or thunk()


def sx_issym(c):
    return isinstance(c, (SymBool, SymInt))


def sx_ifexp(c, t, f):
    if isinstance(c, (SymBool, SymInt)):
        cb = c if isinstance(c, SymBool) else (c != 0)
        if isinstance(cb, SymBool):
            try:
                a = t()
                b = f()
                if isinstance(a, (int, SymInt, SymBool)) and \
                        isinstance(b, (int, SymInt, SymBool)):
                    return ite(cb, a, b)
            except Exception:
                pass
    return t() if c else f()


def sx_merge(c, then, els):
    """then/els: tuples of ints -> merged tuple"""
    return tuple(ite(c, a, b) for a, b in zip(then, els))


def sx_mergeable(vals):
    return all(isinstance(v, (int, SymInt, SymBool)) for v in vals)


# ------------------------------------------------------- methods of builtins


def _lift(o):
    if type(o) is str:
        return SymStr([ord(c) for c in o])
    if isinstance(o, (bytes, bytearray)):
        return SymBytes(list(o))
    return o


def _seq_meth(obj, name):
    real = getattr(obj, name)

    def call(*a, **k):
        if name == 'format' and type(obj) is str:
            return str_format(obj, a, k)
        if name == 'join':
            parts = list(a[0])
            if any(isinstance(p, SYMS) for p in parts):
                return _lift(obj).join(parts)
            return real(parts)
        if any_sym(a) or any_sym(k.values()):
            return getattr(_lift(obj), name)(*a, **k)
        return real(*a, **k)
    return call


def _dict_meth(obj, name):
    real = getattr(obj, name)

    def call(*a, **k):
        if not a or not _needs(obj, a[0]):
            if name == 'update' and a and isinstance(a[0], dict):
                for kk in a[0]:
                    sx_set_item(obj, kk, a[0][kk])
                for kk in k:
                    obj[kk] = k[kk]
                return None
            return real(*a, **k)
        if name == 'get':
            v = _dict_get(obj, a[0])
            if v is _MISS:
                return a[1] if len(a) > 1 else k.get('default')
            return v
        if name == 'pop':
            hit = _find_key(obj, a[0])
            if hit is None:
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            return real(hit[0])
        if name == 'setdefault':
            hit = _find_key(obj, a[0])
            if hit is None:
                obj[a[0]] = a[1] if len(a) > 1 else None
                return obj[a[0]]
            return obj[hit[0]]
        return real(*a, **k)
    return call


def _set_meth(obj, name):
    real = getattr(obj, name)

    def call(*a, **k):
        if name in ('add', 'discard', 'remove') and _needs(obj, a[0]):
            hit = _find_key(obj, a[0])
            if name == 'add':
                if hit is None:
                    real(a[0])
                return None
            if hit is None:
                if name == 'remove':
                    raise KeyError(a[0])
                return None
            return real(hit[0])
        if name == 'update':
            for o in a:
                for v in o:
                    _set_meth(obj, 'add')(v)
            return None
        if a and (any(_has_sym_members(o) for o in a) or
                  _has_sym_members(obj)):
            return getattr(SymSet(obj), name)(*a, **k)
        return real(*a, **k)
    return call


def _has_sym_members(o):
    return isinstance(o, SymSet) or (
        isinstance(o, (set, frozenset, list, tuple, dict)) and
        any(isinstance(v, SYMS) for v in o))


_STRM = frozenset(
    'format join find rfind index rindex count startswith endswith replace '
    'split rsplit partition rpartition strip lstrip rstrip encode decode '
    'translate ljust rjust zfill hex removeprefix removesuffix'.split())
_DICTM = frozenset('get pop setdefault update'.split())
_SETM = frozenset('add discard remove update union intersection difference '
                  'issubset issuperset isdisjoint'.split())


def sx_meth(obj, name):
    t = type(obj)
    if t is str or t is bytes or t is bytearray:
        if name in _STRM:
            return _seq_meth(obj, name)
    elif t is dict or isinstance(obj, dict):
        if name in _DICTM and t.__module__ in ('builtins', 'collections'):
            return _dict_meth(obj, name)
    elif t is set or t is frozenset:
        if name in _SETM:
            return _set_meth(obj, name)
    return getattr(obj, name)


HOOKED = _STRM | _DICTM | _SETM


# ------------------------------------------------------------- math & friends


_LOG_T = {}


def _log_thresholds(base, top):
    """Smallest i with floor(log(i, base)) >= k, for float log as computed."""
    key = base
    got = _LOG_T.setdefault(key, [])
    while len(got) < top:
        k = len(got) + 1
        hi = int(base) ** k * 2
        lo = got[-1] if got else 1
        while lo < hi:
            mid = (lo + hi) // 2
            if _math.log(mid, base) >= k:
                hi = mid
            else:
                lo = mid + 1
        got.append(lo)
    return got


class SymLog(object):
    """math.log(i, base) of a symbolic integer, as the float log computes
    it (thresholds found by bisection on the real function)."""

    def __init__(self, i, base):
        self.i = i
        self.base = base

    def __floor__(self):
        if self.base is None or int(self.base) != self.base:
            return _math.floor(float(self))
        top = 1
        while int(self.base) ** top <= self.i.hi:
            top += 1
        return step_count(self.i, _log_thresholds(self.base, top + 1))

    __trunc__ = __floor__

    def __ceil__(self):
        raise Unsupported('ceil of log')

    def __float__(self):
        c = conc(self.i)
        return _math.log(c, self.base) if self.base else _math.log(c)

    def __lt__(self, o):
        return float(self) < o

    def __truediv__(self, o):
        return float(self) / float(o)

    def __add__(self, o):
        return float(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return float(self) - o

    def __mul__(self, o):
        return float(self) * o


class FakeModule(types.ModuleType):
    def __init__(self, name, real=None, **over):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        if self.__dict__.get('_real') is None:
            raise AttributeError(name)
        return getattr(self._real, name)


def m_log(x, base=None):
    if isinstance(x, SymInt):
        if x.lo <= 0 and bool(x <= 0):
            raise ValueError('math domain error')
        x = x.restrict(1, x.hi)
        if not isinstance(x, int):
            return SymLog(x, base)
    return _math.log(x) if base is None else _math.log(x, base)


def m_log2(x):
    return _math.log2(conc(x)) if isinstance(x, SymInt) else _math.log2(x)


def m_floor(x):
    if isinstance(x, SYMS + (SymLog,)):
        return x.__floor__()
    return _math.floor(x)


def m_ceil(x):
    if isinstance(x, SYMS + (SymLog,)):
        return x.__ceil__()
    return _math.ceil(x)


def m_trunc(x):
    return x.__trunc__()


MATH = FakeModule('math', _math, log=m_log, log2=m_log2, floor=m_floor,
                  ceil=m_ceil, trunc=m_trunc)


def re_compile(p, flags=0):
    if isinstance(p, SymPattern):
        return p
    if isinstance(p, SYMS):
        p = p.concrete()
    return SymPattern(p, flags)


def _re_fn(name):
    def f(p, *a, **k):
        flags = k.pop('flags', 0)
        n = 2 if name in ('sub', 'subn') else 1
        if name == 'split':
            n = 1
        if len(a) > n and name in ('match', 'search', 'fullmatch', 'findall',
                                   'finditer'):
            flags = a[1]
            a = a[:1]
        return getattr(re_compile(p, flags), name)(*a, **k)
    return f


def re_escape(s):
    if isinstance(s, SymStr):
        s = s.concrete()
    return _re.escape(s)


RE = FakeModule('re', _re, compile=re_compile, escape=re_escape,
                Pattern=SymPattern,
                **dict((n, _re_fn(n)) for n in (
                    'match', 'search', 'fullmatch', 'findall', 'finditer',
                    'sub', 'subn', 'split')))


_ALPHABET = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
_ALPH = tuple(_ALPHABET)


def b64encode(data, altchars=None):
    items = byte_items(data)
    if items is None:
        raise TypeError('a bytes-like object is required, not %r'
                        % type(data).__name__)
    if all_concrete(items):
        return _base64.b64encode(bytes(items), altchars)
    if altchars:
        raise Unsupported('altchars')
    out = []
    for i in range(0, len(items), 3):
        c = items[i:i + 3]
        n = len(c)
        c = c + [0] * (3 - n)
        v = (c[0] << 16) | (c[1] << 8) | c[2]
        qs = [(v >> 18) & 63, (v >> 12) & 63, (v >> 6) & 63, v & 63]
        es = [_b64ch(q) for q in qs]
        for j in range(n + 1, 4):
            es[j] = 61
        out.extend(es)
    return mkbytes(out)


def _b64ch(q):
    if isinstance(q, int):
        return _ALPH[q]
    return core.TableInt(q.restrict(0, 63), _ALPH)


def _b64val(c):
    """(in alphabet, 6-bit value)"""
    if isinstance(c, int):
        i = _ALPH.index(c) if c in _ALPH else -1
        return i >= 0, max(i, 0)
    if isinstance(c, core.TableInt) and c.table is _ALPH:
        return True, c.x
    A = sym_and(c >= 65, c <= 90)
    a = sym_and(c >= 97, c <= 122)
    d = sym_and(c >= 48, c <= 57)
    p = c == 43
    s = c == 47
    v = ite(A, c - 65, ite(a, c - 71, ite(d, c + 4, ite(p, 62, 63))))
    return sym_or(A, a, d, p, s), seq._trunc(v, 63)


def b64decode(data, altchars=None, validate=False):
    if isinstance(data, (str, SymStr)):
        items = str_items(data)
        for c in items:
            if (c if isinstance(c, int) else c.hi) >= 128 and \
                    bool(c >= 128):
                raise ValueError('string argument should contain only ASCII '
                                 'characters')
        items = [c if isinstance(c, int) else c.restrict(0, 127)
                 for c in items]
    else:
        items = byte_items(data)
    if altchars:
        raise Unsupported('altchars')
    if all_concrete(items):
        return _base64.b64decode(bytes(items), validate=validate)
    if validate:
        ok = []
        for i, c in enumerate(items):
            ok.append(_b64val(c)[0])
        # padding may only end the text
        n = len(items)
        k = 0
        while k < 2 and n - 1 - k >= 0 and bool(
                eq_el(items[n - 1 - k], 61)):
            k += 1
        if not bool(sym_and(*ok[:n - k])):
            raise _binascii.Error('Only base64 data is allowed')
    # binascii.a2b_base64, non strict
    out = []
    quad = 0
    left = 0
    pads = 0
    for idx, c in enumerate(items):
        if bool(eq_el(c, 61)):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    return mkbytes(out)
            continue
        ok, v = _b64val(c)
        if not bool(ok):
            continue
        pads = 0
        if quad == 0:
            quad, left = 1, v
        elif quad == 1:
            quad = 2
            out.append((left << 2) | (v >> 4))
            left = v & 15
        elif quad == 2:
            quad = 3
            out.append((left << 4) | (v >> 2))
            left = v & 3
        else:
            quad = 0
            out.append((left << 6) | v)
            left = 0
    if quad:
        raise _binascii.Error('Incorrect padding')
    return mkbytes(out)


BASE64 = FakeModule(
    'base64', _base64, b64encode=b64encode, b64decode=b64decode,
    standard_b64encode=b64encode, standard_b64decode=b64decode,
    b16encode=lambda d: hexlify(d).upper(),
    b16decode=lambda d, casefold=False: b16decode(d, casefold))


def b16decode(d, casefold=False):
    it = str_items(d) if isinstance(d, (str, SymStr)) else byte_items(d)
    if not casefold:
        for c in it:
            if bool(sym_and(c >= 97, c <= 102)):
                raise _binascii.Error('Non-base16 digit found')
    return unhexlify(d)


def hexlify(d, *a):
    it = byte_items(d)
    if a:
        return _binascii.hexlify(bytes(SymBytes(it).concrete()), *a)
    return sx_meth(SymBytes(it).hex(), 'encode')('ascii')


def unhexlify(s):
    if isinstance(s, (str, SymStr)):
        it = str_items(s)
    else:
        it = byte_items(s)
    if len(it) % 2:
        raise _binascii.Error('Odd-length string')
    return mkbytes(_unhex(it, _binascii.Error))


def _unhex(it, exc):
    out = []
    for i in range(0, len(it), 2):
        (o1, h), (o2, l) = seq.hexval(it[i]), seq.hexval(it[i + 1])
        if not bool(sym_and(o1, o2)):
            raise exc('Non-hexadecimal digit found')
        out.append((h << 4) | l)
    return out


BINASCII = FakeModule('binascii', _binascii, hexlify=hexlify,
                      unhexlify=unhexlify, b2a_hex=hexlify,
                      a2b_hex=unhexlify,
                      b2a_base64=lambda d, newline=True: b64encode(d) + (
                          b'\n' if newline else b''),
                      a2b_base64=lambda d: b64decode(d))


_SFMT = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8, 's': 0, 'x': 1, 'c': 1}


def _sparse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    if fmt[:1] not in '<>!=@':
        order = '@'
    else:
        order, fmt = fmt[0], fmt[1:]
    out = []
    for n, c in _re.findall(r'(\d*)\s*([a-zA-Z?])', fmt):
        if c == 's':
            out.append(('s', int(n or 1)))
        else:
            out.extend([(c, _SFMT.get(c, -1))] * int(n or 1))
    return order, out


def s_pack(fmt, *vals):
    if not any_sym(vals):
        return _struct.pack(fmt, *vals)
    order, parts = _sparse(fmt)
    if order in '@=' and any(c not in 'Bsxc' for c, _ in parts):
        raise Unsupported('native struct order')
    out = []
    vals = list(vals)
    for c, n in parts:
        if n < 0:
            raise Unsupported('struct format %s' % c)
        if c == 'x':
            out.append(0)
            continue
        v = vals.pop(0)
        if c in 'sc':
            it = list(byte_items(v))[:n]
            out.extend(it + [0] * (n - len(it)))
            continue
        if bool(sym_or(v < 0, v >= (1 << (8 * n)))):
            raise _struct.error('argument out of range')
        it = [(v >> (8 * k)) & 255 for k in range(n)]
        out.extend(it if order == '<' else it[::-1])
    return mkbytes(out)


def s_unpack(fmt, data):
    it = byte_items(data)
    if all_concrete(it):
        return _struct.unpack(fmt, bytes(it))
    order, parts = _sparse(fmt)
    if order in '@=' and any(c not in 'Bsxc' for c, _ in parts):
        raise Unsupported('native struct order')
    if sum(n for c, n in parts) != len(it):
        raise _struct.error('unpack requires a buffer of %d bytes'
                            % sum(n for c, n in parts))
    out = []
    p = 0
    for c, n in parts:
        if n < 0:
            raise Unsupported('struct format %s' % c)
        chunk = it[p:p + n]
        p += n
        if c == 'x':
            continue
        if c in 'sc':
            out.append(mkbytes(chunk))
            continue
        if order == '<':
            chunk = chunk[::-1]
        r = 0
        for b in chunk:
            r = (r << 8) | b
        out.append(r)
    return tuple(out)


def s_unpack_from(fmt, data, offset=0):
    n = _struct.calcsize(fmt)
    it = byte_items(data)
    offset = conc(offset)
    if len(it) - offset < n:
        raise _struct.error('unpack_from requires a buffer')
    return s_unpack(fmt, mkbytes(it[offset:offset + n]))


def s_iter_unpack(fmt, data):
    n = _struct.calcsize(fmt)
    it = byte_items(data)
    if len(it) % n:
        raise _struct.error('iterative unpacking requires a buffer of a '
                            'multiple of %d bytes' % n)
    return iter([s_unpack(fmt, mkbytes(it[i:i + n]))
                 for i in range(0, len(it), n)])


def s_pack_into(fmt, buf, offset, *v):
    raw = s_pack(fmt, *v)
    buf[offset:offset + len(raw)] = raw


class SStruct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *v):
        return s_pack(self.format, *v)

    def unpack(self, d):
        return s_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return s_unpack_from(self.format, d, offset)

    def iter_unpack(self, d):
        return s_iter_unpack(self.format, d)

    def pack_into(self, buf, offset, *v):
        return s_pack_into(self.format, buf, offset, *v)


STRUCT = FakeModule('struct', _struct, pack=s_pack, unpack=s_unpack,
                    unpack_from=s_unpack_from, iter_unpack=s_iter_unpack,
                    pack_into=s_pack_into, Struct=SStruct)


class SymBytesIO(object):
    def __init__(self, data=b''):
        self._d = list(byte_items(data)) if data is not None else []
        self._p = 0
        self.closed = False

    def read(self, n=-1):
        if n is None or (isinstance(n, int) and n < 0):
            n = len(self._d)
        elif isinstance(n, NUMSYMS):
            left = max(0, len(self._d) - self._p)
            if isinstance(n, SymBool):
                n = n._int()
            if n.lo < 0 and bool(n < 0):
                n = left
            elif n.hi > left and bool(n > left):
                n = left
            else:
                n = conc(n.restrict(0, left)) if not isinstance(
                    n.restrict(0, left), int) else n.restrict(0, left)
        r = self._d[self._p:self._p + n]
        self._p += len(r)
        return mkbytes(r)

    read1 = read

    def readline(self, n=-1):
        i = self._p
        while i < len(self._d):
            i += 1
            if bool(eq_el(self._d[i - 1], 10)):
                break
        r = self._d[self._p:i]
        self._p = i
        return mkbytes(r)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not len(r):
            raise StopIteration
        return r

    def readlines(self):
        return list(self)

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def write(self, data):
        it = byte_items(data)
        if it is None:
            raise TypeError('a bytes-like object is required')
        if self._p > len(self._d):
            self._d.extend([0] * (self._p - len(self._d)))
        self._d[self._p:self._p + len(it)] = it
        self._p += len(it)
        return len(it)

    def tell(self):
        return self._p

    def seek(self, off, whence=0):
        off = conc(off)
        base = {0: 0, 1: self._p, 2: len(self._d)}[whence]
        if base + off < 0:
            raise ValueError('negative seek value')
        self._p = base + off
        return self._p

    def truncate(self, n=None):
        n = self._p if n is None else conc(n)
        del self._d[n:]
        return n

    def getvalue(self):
        return mkbytes(self._d)

    getbuffer = getvalue

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def readable(self):
        return True

    writable = seekable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SymStringIO(object):

    def __init__(self, text='', newline='\n'):
        if newline not in ('\n', ''):
            raise Unsupported('StringIO newline')
        self._d = list(str_items(text)) if text is not None else []
        self._p = 0
        self.closed = False

    def read(self, n=-1):
        n = len(self._d) if n is None else conc(n)
        if n < 0:
            n = len(self._d)
        r = self._d[self._p:self._p + n]
        self._p += len(r)
        return mkstr(r)

    def readline(self, n=-1):
        i = self._p
        while i < len(self._d):
            i += 1
            if bool(eq_el(self._d[i - 1], 10)):
                break
        r = self._d[self._p:i]
        self._p = i
        return mkstr(r)

    def write(self, text):
        if not isinstance(text, (str, SymStr)):
            raise TypeError('string argument expected')
        it = list(str_items(text))
        if self._p > len(self._d):
            self._d.extend([0] * (self._p - len(self._d)))
        self._d[self._p:self._p + len(it)] = it
        self._p += len(it)
        return len(it)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def getvalue(self):
        return mkstr(self._d)

    __iter__ = SymBytesIO.__iter__
    __next__ = SymBytesIO.__next__
    readlines = SymBytesIO.readlines
    tell = SymBytesIO.tell
    seek = SymBytesIO.seek
    truncate = SymBytesIO.truncate
    flush = SymBytesIO.flush
    close = SymBytesIO.close
    readable = writable = seekable = SymBytesIO.readable
    __enter__ = SymBytesIO.__enter__
    __exit__ = SymBytesIO.__exit__


IO = FakeModule('io', _io, BytesIO=SymBytesIO, StringIO=SymStringIO)


class _DateTimeFactory(object):
    """Stands in for datetime.datetime."""
    _real = _dt.datetime

    def __call__(self, *a, **k):
        if any_sym(a) or any_sym(k.values()):
            a = [conc(x) if isinstance(x, NUMSYMS) else x for x in a]
            k = dict((n, conc(x) if isinstance(x, NUMSYMS) else x)
                     for n, x in k.items())
        return _dt.datetime(*a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, (_dt.datetime, sdt.SymDT))

    def fromtimestamp(self, t, tz=None):
        if isinstance(t, sdt.SymFloat):
            t = t.v
        if isinstance(t, SymInt):
            if tz is not None:
                return sdt.AwareDT.at(t, tz)
            return sdt.SymDT(t + sdt.OFFSET)
        return _dt.datetime.fromtimestamp(t, tz)

    def utcfromtimestamp(self, t):
        if isinstance(t, sdt.SymFloat):
            t = t.v
        if isinstance(t, SymInt):
            return sdt.SymDT(t)
        return _dt.datetime.utcfromtimestamp(t)

    def now(self, tz=None):
        h = CLOCK.get('now')
        if h is None:
            return _dt.datetime.now(tz)
        return self.fromtimestamp(h(), tz)

    def today(self):
        return self.now()

    def utcnow(self):
        h = CLOCK.get('now')
        if h is None:
            return _dt.datetime.utcnow()
        return self.utcfromtimestamp(h())

    def __getattr__(self, name):
        return getattr(_dt.datetime, name)


class _TimeDeltaFactory(object):
    def __call__(self, days=0, seconds=0, microseconds=0, milliseconds=0,
                 minutes=0, hours=0, weeks=0):
        a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any_sym(a):
            return _dt.timedelta(*a)
        if not (isinstance(microseconds, int) and microseconds == 0 and
                isinstance(milliseconds, int) and milliseconds == 0):
            raise Unsupported('sub-second durations')

        def num(x):
            return x.v if isinstance(x, sdt.SymFloat) else x
        return sdt.SymTD(num(days) * 86400 + num(seconds) +
                         num(minutes) * 60 + num(hours) * 3600 +
                         num(weeks) * 604800)

    def __instancecheck__(self, x):
        return isinstance(x, (_dt.timedelta, sdt.SymTD))

    def __getattr__(self, name):
        return getattr(_dt.timedelta, name)


CLOCK = {}
DATETIME = FakeModule('datetime', _dt, datetime=_DateTimeFactory(),
                      timedelta=_TimeDeltaFactory())


def t_mktime(tt):
    if isinstance(tt, sdt._TimeTuple):
        return sdt.SymFloat(tt.dt.w - sdt.OFFSET)
    return _time.mktime(tt)


def t_time():
    h = CLOCK.get('now')
    if h is None:
        return _time.time()
    v = h()
    return sdt.SymFloat(v) if isinstance(v, SymInt) else float(v)


TIME = FakeModule('time', _time, mktime=t_mktime, time=t_time,
                  sleep=lambda s: None)


def c_timegm(tt):
    import calendar
    if isinstance(tt, sdt._TimeTuple):
        return tt.dt.w
    return calendar.timegm(tt)


CALENDAR = FakeModule('calendar', __import__('calendar'), timegm=c_timegm)


def op_index(x):
    return x if isinstance(x, SymInt) else _operator.index(x)


OPERATOR = FakeModule('operator', _operator, index=op_index, not_=sx_not,
                      getitem=sx_get, contains=lambda a, b: sx_in(b, a))


# ------------------------------------------------------------ type proxies


def int_from_bytes(data, byteorder='big', *, signed=False):
    it = byte_items(data)
    if it is None:
        it = list(data)
    if all_concrete(it):
        return int.from_bytes(bytes(it), byteorder, signed=signed)
    if signed:
        raise Unsupported('signed from_bytes')
    if byteorder == 'little':
        it = it[::-1]
    r = 0
    for b in it:
        r = (r << 8) | b
    return r


def bytes_fromhex(s):
    return mkbytes(_fromhex(s))


def _fromhex(s):
    it = str_items(s)
    if all_concrete(it):
        return list(bytes.fromhex(''.join(map(chr, it))))
    if len(it) % 2 == 0:
        vs = [seq.hexval(c)[0] for c in it]
        if bool(sym_and(*vs)):
            return _unhex(it, ValueError)
    return list(bytes.fromhex(SymStr(it).concrete()))


STATIC = {
    (int, 'from_bytes'): int_from_bytes,
    (bytes, 'fromhex'): bytes_fromhex,
    (bytearray, 'fromhex'): lambda s: SymByteArray(_fromhex(s)),
}

PROXIES = {
    'int': TypeProxy(int, sx_int, (SymInt, SymBool)),
    'bool': TypeProxy(bool, sx_bool, (SymBool,)),
    'float': TypeProxy(float, sx_float, (SymFrac, sdt.SymFloat, SymLog)),
    'bytes': TypeProxy(bytes, sx_bytes, (SymBytes,)),
    'bytearray': TypeProxy(bytearray, sx_bytearray, (SymByteArray,)),
    'str': TypeProxy(str, sx_str, (SymStr,)),
    'set': TypeProxy(set, sx_set, (SymSet,)),
    'frozenset': TypeProxy(frozenset, sx_frozenset, ()),
}

OVERRIDES = {
    'math': MATH, 're': RE, 'base64': BASE64, 'binascii': BINASCII,
    'struct': STRUCT, 'io': IO, 'datetime': DATETIME, 'time': TIME,
    'calendar': CALENDAR, 'operator': OPERATOR,
}

BUILTINS = dict(vars(_b))
BUILTINS.update(PROXIES)
BUILTINS.update({
    'range': sx_range, 'len': sx_len, 'ord': sx_ord, 'chr': sx_chr,
    'hex': sx_hex, 'bin': sx_bin, 'format': sx_format, 'hash': sx_hash,
    'min': sx_minmax('min'), 'max': sx_minmax('max'), 'any': sx_any,
    'all': sx_all, 'pow': sx_pow, 'round': sx_round, 'repr': sx_repr,
    'print': sx_print, 'type': sx_type, 'memoryview': sx_memoryview,
    # harnesses may replace it
    'open': lambda *a, **k: _b.open(*a, **k),
    '__sx_m__': sx_meth, '__sx_g__': sx_get, '__sx_s__': sx_set_item,
    '__sx_set__': sx_set, '__sx_dict__': sx_dict, '__sx_items__': sx_items,
    '__sx_in__': sx_in, '__sx_nin__': sx_not_in, '__sx_not__': sx_not,
    '__sx_and__': sx_and, '__sx_or__': sx_or, '__sx_mod__': sx_mod,
    '__sx_f__': sx_fstr, '__sx_issym__': sx_issym, '__sx_ife__': sx_ifexp,
    '__sx_mrg__': sx_merge, '__sx_mok__': sx_mergeable,
    '__sx_enter__': enter,
})


# --------------------------------------------------------------- rewriting


PURE = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare,
        ast.BoolOp, ast.Subscript, ast.Tuple, ast.List, ast.operator,
        ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context)
ARITH = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator,
         ast.unaryop, ast.expr_context)


def is_pure(node, kinds=PURE):
    for n in ast.walk(node):
        if not isinstance(n, kinds):
            return False
        if isinstance(n, ast.Slice):
            return False
    return True


def is_arith(node):
    if not is_pure(node, ARITH):
        return False
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and not isinstance(n.value, int):
            return False
        if isinstance(n, (ast.Div, ast.MatMult, ast.Pow, ast.FloorDiv,
                          ast.Mod)):
            return False
        if isinstance(n, ast.Not):
            return False
    return True


def N(id_):
    return ast.Name(id=id_, ctx=ast.Load())


def call(fn, *args):
    return ast.Call(func=N(fn), args=list(args), keywords=[])


def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[],
                                         kwonlyargs=[], kw_defaults=[],
                                         defaults=[]), body=body)


class Rewriter(ast.NodeTransformer):

    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.tmp = 0
        self.in_class = 0

    # scopes
    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        saved = self.in_class
        self.in_class = 0
        qual = '%s:%s' % (self.mod, '.'.join(self.scope))
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = [self.visit(s) for s in node.body]
        flat = []
        for s in body:
            flat.extend(s if isinstance(s, list) else [s])
        at = 0
        if flat and isinstance(flat[0], ast.Expr) and isinstance(
                flat[0].value, ast.Constant) and isinstance(
                flat[0].value.value, str):
            at = 1
        flat.insert(at, ast.Expr(call('__sx_enter__', ast.Constant(qual))))
        node.body = flat
        self.scope.pop()
        self.in_class = saved
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        saved = self.in_class
        self.in_class = 1
        self.generic_visit(node)
        self.in_class = saved
        self.scope.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in HOOKED and \
                isinstance(f.ctx, ast.Load):
            node.func = call('__sx_m__', f.value, ast.Constant(f.attr))
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(func=N('slice'), args=[
                    sl.lower or ast.Constant(None),
                    sl.upper or ast.Constant(None),
                    sl.step or ast.Constant(None)], keywords=[])
            elif isinstance(sl, ast.Constant) and isinstance(sl.value, int):
                return node
            return call('__sx_g__', node.value, sl)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice):
                # Python evaluates the value first, then target parts
                self.tmp += 1
                v = '__sx_t%d' % self.tmp
                return [
                    ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())],
                               value=node.value),
                    ast.Expr(call('__sx_s__', t.value, t.slice, N(v)))]
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.target,
                                                       ast.Name):
            return self.visit(ast.copy_location(ast.Assign(
                targets=[ast.Name(id=node.target.id, ctx=ast.Store())],
                value=ast.BinOp(left=ast.Name(id=node.target.id,
                                              ctx=ast.Load()),
                                op=node.op, right=node.value)), node))
        if isinstance(node.target, ast.Subscript) and not isinstance(
                node.target.slice, ast.Slice):
            self.tmp += 1
            o, k = '__sx_o%d' % self.tmp, '__sx_k%d' % self.tmp
            self.generic_visit(node)
            t = node.target
            return [
                ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())],
                           value=t.value),
                ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())],
                           value=t.slice),
                ast.Expr(call('__sx_s__', N(o), N(k), ast.BinOp(
                    left=call('__sx_g__', N(o), N(k)), op=node.op,
                    right=node.value)))]
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        pure = is_pure(node)
        self.generic_visit(node)
        if len(node.ops) == 1:
            return self._cmp(node.left, node.ops[0], node.comparators[0])
        if not pure:
            if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
                return node
            return node
        parts = []
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            parts.append(self._cmp(_copy.deepcopy(left), op,
                                   _copy.deepcopy(right)))
            left = right
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = call('__sx_and__', p, lam(r))
        return r

    def _cmp(self, left, op, right):
        if isinstance(op, ast.In):
            return call('__sx_in__', left, right)
        if isinstance(op, ast.NotIn):
            return call('__sx_nin__', left, right)
        return ast.Compare(left=left, ops=[op], comparators=[right])

    def visit_BoolOp(self, node):
        pures = [is_pure(v) for v in node.values]
        self.generic_visit(node)
        if self.in_class:
            return node
        fn = '__sx_and__' if isinstance(node.op, ast.And) else '__sx_or__'
        # fold right-to-left; impure operands keep short-circuit semantics
        r = node.values[-1]
        pure_r = pures[-1]
        for v, p in zip(reversed(node.values[:-1]), reversed(pures[:-1])):
            if pure_r and not _has_walrus(r):
                r = call(fn, v, lam(r))
            else:
                r = ast.BoolOp(op=node.op, values=[v, r])
            pure_r = pure_r and p
        return r

    def visit_Set(self, node):
        self.generic_visit(node)
        return call('__sx_set__', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return call('__sx_set__', ast.ListComp(elt=node.elt,
                                               generators=node.generators))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return call('__sx_dict__', ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return call('__sx_dict__', ast.List(elts=[
            ast.Starred(value=call('__sx_items__', v), ctx=ast.Load())
            if k is None else ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)], ctx=ast.Load()))

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return call('__sx_not__', node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return call('__sx_mod__', node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else \
                    ast.Constant('')
                parts.append(ast.Tuple(elts=[
                    self.visit(v.value), ast.Constant(v.conversion), spec],
                    ctx=ast.Load()))
        return call('__sx_f__', ast.List(elts=parts, ctx=ast.Load()))

    def visit_IfExp(self, node):
        ok = is_arith(node.body) and is_arith(node.orelse) and \
            not self.in_class
        self.generic_visit(node)
        if ok:
            return call('__sx_ife__', node.test, lam(node.body),
                        lam(node.orelse))
        return node

    # if-conversion of straight-line integer code
    def _conv_targets(self, stmts):
        names = []
        for s in stmts:
            if isinstance(s, ast.AugAssign) and isinstance(s.target,
                                                           ast.Name):
                if not is_arith(s.value) or isinstance(
                        s.op, (ast.Div, ast.MatMult, ast.Pow, ast.FloorDiv,
                               ast.Mod)):
                    return None
                names.append(s.target.id)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                if not is_arith(s.value):
                    return None
                names.append(s.targets[0].id)
            elif isinstance(s, ast.Pass):
                continue
            else:
                return None
        return names

    def visit_If(self, node):
        tn = self._conv_targets(node.body)
        en = self._conv_targets(node.orelse)
        convertible = tn and en is not None and self.scope and \
            not self.in_class
        orig_body = _copy.deepcopy(node.body) if convertible else None
        orig_else = _copy.deepcopy(node.orelse) if convertible else None
        self.generic_visit(node)
        if not convertible:
            return node
        names = sorted(set(tn) | set(en))
        self.tmp += 1
        c = '__sx_c%d' % self.tmp
        o = '__sx_o%d' % self.tmp
        t = '__sx_t%d' % self.tmp
        ok = '__sx_k%d' % self.tmp

        def st(n):
            return ast.Name(id=n, ctx=ast.Store())

        def tup(ctx):
            return ast.Tuple(elts=[ast.Name(id=n, ctx=ctx()) for n in names],
                             ctx=ctx())

        def de_aug(stmts):
            r = []
            for s in stmts:
                if isinstance(s, ast.AugAssign):
                    r.append(ast.Assign(targets=[st(s.target.id)],
                                        value=ast.BinOp(
                                            left=N(s.target.id), op=s.op,
                                            right=s.value)))
                elif isinstance(s, ast.Assign):
                    r.append(s)
            return r
        merged = [
            ast.Assign(targets=[st(ok)], value=ast.Constant(False)),
            ast.If(test=call('__sx_issym__', N(c)), body=[
                ast.Try(body=[
                    ast.Assign(targets=[st(o)], value=tup(ast.Load)),
                    ast.If(test=call('__sx_mok__', N(o)), body=(
                        de_aug(orig_body) + [
                            ast.Assign(targets=[st(t)],
                                       value=tup(ast.Load)),
                            ast.Assign(targets=[tup(ast.Store)],
                                       value=N(o))] +
                        de_aug(orig_else) + [
                            ast.If(test=ast.BoolOp(op=ast.And(), values=[
                                call('__sx_mok__', N(t)),
                                call('__sx_mok__', tup(ast.Load))]),
                                body=[ast.Assign(
                                    targets=[tup(ast.Store)],
                                    value=call('__sx_mrg__', call(
                                        'bool', N(c)), N(t),
                                        tup(ast.Load))),
                                    ast.Assign(targets=[st(ok)],
                                               value=ast.Constant(True))],
                                orelse=[ast.Assign(
                                    targets=[tup(ast.Store)],
                                    value=N(o))])]), orelse=[])],
                    handlers=[ast.ExceptHandler(
                        type=ast.Tuple(elts=[N('NameError'),
                                             N('TypeError'),
                                             N('ValueError')],
                                       ctx=ast.Load()), name=None,
                        body=[ast.If(
                            test=ast.Compare(
                                left=ast.Constant(o), ops=[ast.In()],
                                comparators=[call('locals')]),
                            body=[ast.Assign(targets=[tup(ast.Store)],
                                             value=N(o))],
                            orelse=[])])],
                    orelse=[], finalbody=[])], orelse=[]),
            ast.If(test=call('__sx_not__', N(ok)), body=[
                ast.If(test=N(c), body=node.body, orelse=node.orelse)],
                orelse=[]),
        ]
        return [ast.Assign(targets=[st(c)], value=node.test)] + merged


def _has_walrus(node):
    return any(isinstance(n, ast.NamedExpr) for n in ast.walk(node))


def rewrite(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


# ------------------------------------------------------------------ loading


class Loader(object):
    """Private module registry for instrumented modules."""

    def __init__(self, roots=None, overrides=None):
        self.mods = {}
        self.roots = roots or {'pgp': os.path.join(REPO, 'pgp')}
        self.over = dict(OVERRIDES)
        self.over.update(overrides or {})
        self.builtins = dict(BUILTINS)
        self.builtins['__import__'] = self._import

    def path_of(self, name):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = self.roots[top]
        rel = name.split('.')[1:]
        p = os.path.join(base, *rel)
        if os.path.isdir(p) and os.path.exists(
                os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None

    def load(self, name):
        if name in self.over:
            return self.over[name]
        if name in self.mods:
            return self.mods[name]
        found = self.path_of(name)
        if found is None:
            raise ImportError('No module named %r' % name)
        path, is_pkg = found
        parent = name.rpartition('.')[0]
        if parent:
            pm = self.load(parent)
            # a package's __init__ may already have loaded us
            if name in self.mods:
                return self.mods[name]
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if is_pkg else parent
        if is_pkg:
            mod.__path__ = [os.path.dirname(path)]
        mod.__dict__['__builtins__'] = self.builtins
        self.mods[name] = mod
        with open(path, encoding='utf-8') as f:
            src = f.read()
        SOURCES[path] = src
        code = rewrite(src, path, name)
        try:
            exec(code, mod.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], mod)
        return mod

    def exec_file(self, path, name):
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__dict__['__builtins__'] = self.builtins
        with open(path, encoding='utf-8') as f:
            src = f.read()
        exec(rewrite(src, path, name), mod.__dict__)
        return mod

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if name in self.over or top in self.over or top in self.roots:
            mod = self._get(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(mod, f):
                        try:
                            setattr(mod, f, self._get(name + '.' + f))
                        except ImportError:
                            pass
                return mod
            # import a.b.c binds a
            parts = name.split('.')
            cur = self._get(top)
            node = cur
            for i in range(1, len(parts)):
                sub = self._get('.'.join(parts[:i + 1]))
                if not hasattr(node, parts[i]):
                    setattr(node, parts[i], sub)
                node = sub
            return cur
        return __import__(name, globals, locals, fromlist, 0)

    def _get(self, name):
        if name in self.over:
            return self.over[name]
        top = name.split('.')[0]
        if top in self.roots:
            return self.load(name)
        if top in self.over:
            # attribute path of a fake package
            cur = self.over[top]
            for p in name.split('.')[1:]:
                if not hasattr(cur, p):
                    raise ImportError('No module named %r (stub)' % name)
                cur = getattr(cur, p)
            return cur
        raise ImportError('No module named %r' % name)
