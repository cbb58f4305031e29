"""Symbolic time: datetimes/timedeltas holding a symbolic number of seconds.
The zone is a fixed offset (TZ=VFY-5:30, 19800 s) in the executor and in
replays alike, so mixing local and UTC conversions shows."""
import datetime as _dt
import time as _time

from sx.core import SymInt, SymBool, SymFrac, Unsupported, eng
from sx.seq import conc

OFFSET = 19800
EPOCH = _dt.datetime(1970, 1, 1)


def wall(dt):
    """Seconds of a naive datetime's wall clock since 1970-01-01T00:00:00."""
    if isinstance(dt, SymDT):
        return dt.w
    d = dt - EPOCH
    if d.microseconds:
        raise Unsupported('sub-second times')
    return d.days * 86400 + d.seconds


def secs(td):
    if isinstance(td, SymTD):
        return td.s
    if td.microseconds:
        raise Unsupported('sub-second durations')
    return td.days * 86400 + td.seconds


class SymFloat(object):
    """A float with an integral symbolic value."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __trunc__(self):
        return self.v

    __floor__ = __ceil__ = __trunc__

    def __int__(self):
        return conc(self.v)

    def __float__(self):
        return float(conc(self.v))

    def _o(self, o):
        if isinstance(o, SymFloat):
            return o.v
        if isinstance(o, (int, SymInt)):
            return o
        if isinstance(o, float) and o == int(o):
            return int(o)
        return None

    def __eq__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else self.v == o

    def __ne__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else self.v != o

    def __lt__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else self.v < o

    def __le__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else self.v <= o

    def __gt__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else self.v > o

    def __ge__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else self.v >= o

    def __hash__(self):
        return 0x5ea1

    def __bool__(self):
        return bool(self.v != 0)

    def __add__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymFloat(self.v + o)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymFloat(self.v - o)

    def __rsub__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymFloat(o - self.v)

    def is_integer(self):
        return True

    def __format__(self, spec):
        return '<sym>'


class SymTD(object):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return SymFloat(self.s)

    @property
    def days(self):
        return self.s // 86400

    @property
    def seconds(self):
        return self.s % 86400

    microseconds = 0

    def __neg__(self):
        return SymTD(-self.s)

    def __abs__(self):
        return SymTD(abs(self.s))

    def __floordiv__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return self.s // secs(o)
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return SymTD(self.s % secs(o))
        return NotImplemented

    def __bool__(self):
        return bool(self.s != 0)

    def __add__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return SymTD(self.s + secs(o))
        if isinstance(o, AwareDT):
            return AwareDT(o.w + self.s, o.tzinfo)
        if isinstance(o, (SymDT, _dt.datetime)):
            if o.tzinfo is not None:
                return AwareDT.at(utc_secs(o) + self.s, o.tzinfo)
            return SymDT(wall(o) + self.s)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return SymTD(self.s - secs(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return SymTD(secs(o) - self.s)
        if isinstance(o, AwareDT):
            return AwareDT(o.w - self.s, o.tzinfo)
        if isinstance(o, (SymDT, _dt.datetime)):
            if o.tzinfo is not None:
                return AwareDT.at(utc_secs(o) - self.s, o.tzinfo)
            return SymDT(wall(o) - self.s)
        return NotImplemented

    def _c(self, o, f):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return f(self.s, secs(o))
        return NotImplemented

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0x5ea3

    def __bool__(self):
        return bool(self.s != 0)


class _TimeTuple(object):
    def __init__(self, dt):
        self.dt = dt


class SymDT(object):
    """Naive local datetime."""
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w

    def timetuple(self):
        return _TimeTuple(self)

    def utctimetuple(self):
        return _TimeTuple(self)

    def timestamp(self):
        return SymFloat(self.w - OFFSET)

    tzinfo = None
    microsecond = 0

    def utcoffset(self):
        return None

    def astimezone(self, tz=None):
        if tz is None:
            tz = _dt.timezone(_dt.timedelta(seconds=OFFSET))
        return AwareDT.at(self.w - OFFSET, tz)

    def concrete(self):
        return EPOCH + _dt.timedelta(seconds=conc(self.w))

    def replace(self, **kw):
        if kw in ({'microsecond': 0}, {'tzinfo': None}):
            return self
        if list(kw) == ['tzinfo']:
            return AwareDT(self.w, kw['tzinfo'])
        return self.concrete().replace(**kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __add__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return SymDT(self.w + secs(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return SymDT(self.w - secs(o))
        if isinstance(o, (SymDT, _dt.datetime)):
            if o.tzinfo is not None:
                raise TypeError("can't subtract offset-naive and "
                                'offset-aware datetimes')
            return SymTD(self.w - wall(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymTD(wall(o) - self.w)
        return NotImplemented

    def _c(self, o, f, equality=False):
        if isinstance(o, (SymDT, _dt.datetime)):
            return compare(self, o, f, equality)
        return NotImplemented

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b, True)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b, True)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0x5ea4


def utc_secs(dt):
    """Seconds since the epoch of an aware datetime, else None."""
    if isinstance(dt, AwareDT):
        return dt.w - dt.off
    if isinstance(dt, _dt.datetime) and dt.utcoffset() is not None:
        d = dt - _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
        if d.microseconds:
            raise Unsupported('sub-second times')
        return d.days * 86400 + d.seconds
    return None


def zone_offset(tz):
    off = tz.utcoffset(None)
    if off is None:
        raise Unsupported('time zone without a fixed offset')
    return off.days * 86400 + off.seconds


class AwareDT(SymDT):
    """A datetime in a zone of a fixed offset."""
    __slots__ = ('off', 'tzinfo')

    def __init__(self, w, tz):
        self.w = w
        self.tzinfo = tz
        self.off = zone_offset(tz)

    @classmethod
    def at(cls, t, tz):
        return cls(t + zone_offset(tz), tz)

    def utcoffset(self):
        return _dt.timedelta(seconds=self.off)

    def timetuple(self):
        return _TimeTuple(SymDT(self.w))

    def utctimetuple(self):
        return _TimeTuple(SymDT(self.w - self.off))

    def timestamp(self):
        return SymFloat(self.w - self.off)

    def astimezone(self, tz=None):
        if tz is None:
            tz = _dt.timezone(_dt.timedelta(seconds=OFFSET))
        return AwareDT.at(self.w - self.off, tz)

    def concrete(self):
        return (EPOCH + _dt.timedelta(seconds=conc(self.w))).replace(
            tzinfo=self.tzinfo)

    def replace(self, **kw):
        if kw == {'tzinfo': None}:
            return SymDT(self.w)
        if list(kw) == ['tzinfo']:
            return AwareDT(self.w, kw['tzinfo'])
        if kw == {'tzinfo': None, 'microsecond': 0}:
            return SymDT(self.w)
        if kw == {'microsecond': 0}:
            return self
        return self.concrete().replace(**kw)

    def __add__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return AwareDT(self.w + secs(o), self.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return AwareDT(self.w - secs(o), self.tzinfo)
        if isinstance(o, (SymDT, _dt.datetime)):
            u = utc_secs(o)
            if u is None:
                raise TypeError("can't subtract offset-naive and "
                                'offset-aware datetimes')
            return SymTD(self.w - self.off - u)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            u = utc_secs(o)
            if u is None:
                raise TypeError("can't subtract offset-naive and "
                                'offset-aware datetimes')
            return SymTD(u - (self.w - self.off))
        return NotImplemented


def compare(a, b, f, equality=False):
    u, v = utc_secs(a), utc_secs(b)
    if (u is None) != (v is None):
        if equality:
            return NotImplemented
        raise TypeError("can't compare offset-naive and offset-aware "
                        'datetimes')
    if u is None:
        return f(wall(a), wall(b))
    return f(u, v)


def _num(x):
    if isinstance(x, SymFloat):
        return x.v
    if isinstance(x, SymBool):
        return x._int()
    return x


def has_sym(*xs):
    return any(isinstance(x, (SymInt, SymBool, SymFloat, SymFrac))
               for x in xs)
