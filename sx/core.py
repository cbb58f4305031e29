"""Path-exploring symbolic executor core: the solver, the decision stack and
the symbolic boolean / integer values.

A run of a harness is re-executed once per feasible path.  Every Python level
decision on a symbolic value (``SymBool.__bool__``) is put to z3; both sides
are explored when both are feasible under the path condition.
"""
import os
import sys
import time

import z3

from sx import xor

# ---------------------------------------------------------------- exceptions


class PathAbort(BaseException):
    """The current path is infeasible / was cut short on purpose."""


class Unsupported(BaseException):
    """The engine cannot represent an operation symbolically."""


class OutOfBudget(BaseException):
    pass


# ------------------------------------------------------------------- engine


class Node(object):
    __slots__ = ('expr', 'val', 'pushed', 'alt', 'kind', 'tag')

    def __init__(self, expr, val, pushed, alt, kind='b'):
        self.expr = expr
        self.val = val
        self.pushed = pushed
        self.alt = alt
        self.kind = kind
        self.tag = None


class Engine(object):

    def __init__(self, branch_timeout_ms=10000, check_timeout_ms=60000,
                 max_paths=100000, deadline=None, max_depth=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', branch_timeout_ms)
        self.branch_timeout_ms = branch_timeout_ms
        self.check_timeout_ms = check_timeout_ms
        self.stack = []
        self.pos = 0
        self.model = None
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_depth = max_depth
        self.stats = dict(paths=0, queries=0, solver_s=0.0, forks=0,
                          unknown_branches=0, unknown_checks=0,
                          checks=0, checks_discharged=0, trivial_checks=0,
                          unsupported=0, infeasible=0, depth_cut=0)
        self.inputs = {}        # name -> spec, of the current path
        self.input_order = []
        self.failures = []
        self.unsupported_notes = {}
        self.notes = {}
        self.nondet = 0
        self.complete = True
        self.path_counter = {}
        self.undo = []
        self.on_reset = []

    # -- solver primitives

    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget()
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        return r

    def _get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort()
        return self.model

    def _model_says(self, expr):
        m = self.model
        if m is None:
            return None
        v = m.eval(expr, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _push(self, expr):
        self.solver.push()
        self.solver.add(expr)

    def _same(self, a, b):
        """The decision met again on re-execution is the recorded one. The
        simplifier orders arguments by age, so it may look different."""
        if a.eq(b):
            return True
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(a != b)
        return s.check() == z3.unsat

    # -- decisions

    def branch(self, expr):
        """Decide a z3 boolean; returns the Python bool of this path."""
        expr = xor.rewrite(z3.simplify(expr))
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            if not self._same(node.expr, expr):
                self.nondet += 1
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            return node.val
        if len(self.stack) > self.max_depth:
            self.stats['depth_cut'] += 1
            self.complete = False
            raise PathAbort()
        hint = None
        try:
            self._get_model()
        except PathAbort:
            self.stats['infeasible'] += 1
            raise
        hint = self._model_says(expr)
        neg = z3.Not(expr)
        if hint is True:
            t_ok, f_ok = True, None
        elif hint is False:
            t_ok, f_ok = None, True
        else:
            t_ok, f_ok = None, None
        saved_model = self.model
        first_model = None
        if t_ok is None:
            r = self._check(expr)
            if r == z3.unknown:
                self.stats['unknown_branches'] += 1
            t_ok = r != z3.unsat
            if r == z3.sat:
                first_model = self.solver.model()
        else:
            first_model = saved_model
        f_model = saved_model if hint is False else None
        if f_ok is None:
            r = self._check(neg)
            if r == z3.unknown:
                self.stats['unknown_branches'] += 1
            f_ok = r != z3.unsat
            if r == z3.sat:
                f_model = self.solver.model()
        if t_ok and f_ok:
            self.stats['forks'] += 1
            self._push(expr)
            self.stack.append(Node(expr, True, True, True))
            self.model = first_model
            self.pos += 1
            return True
        if t_ok:
            self.stack.append(Node(expr, True, False, False))
            self.model = first_model
            self.pos += 1
            return True
        if f_ok:
            self.stack.append(Node(expr, False, False, False))
            self.model = f_model
            self.pos += 1
            return False
        self.stats['infeasible'] += 1
        raise PathAbort()

    def assume(self, expr):
        expr = xor.rewrite(z3.simplify(expr))
        if z3.is_true(expr):
            return
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            if node.kind != 'a' or not self._same(node.expr, expr):
                self.nondet += 1
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            if node.val is False:
                raise PathAbort()
            return
        if z3.is_false(expr):
            raise PathAbort()
        hint = self._model_says(expr)
        self._push(expr)
        ok = True
        if hint is not True:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                ok = False
            else:
                self.model = None
                self.stats['unknown_branches'] += 1
        self.stack.append(Node(expr, ok, True, False, 'a'))
        self.pos += 1
        if not ok:
            self.stats['infeasible'] += 1
            raise PathAbort()

    def axiom(self, expr):
        """A fact that cannot make a satisfiable path unsatisfiable."""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            if node.kind != 'x' or not self._same(node.expr, expr):
                self.nondet += 1
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            return
        if self._model_says(expr) is not True:
            self.model = None
        self._push(expr)
        self.stack.append(Node(expr, True, True, False, 'x'))
        self.pos += 1

    def check(self, expr, label, detail=None):
        """Assert that expr holds on this path for all input values."""
        expr = z3.simplify(expr)
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            if node.kind != 'c' or not self._same(node.expr, expr):
                self.nondet += 1
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            if node.val is False:
                raise PathAbort()
            return
        self.stats['checks'] += 1
        raw = expr
        expr = xor.rewrite(expr)
        if z3.is_true(expr):
            self.stats['trivial_checks'] += 1
            self.stats['checks_discharged'] += 1
            self.stack.append(Node(raw, True, False, False, 'c'))
            self.pos += 1
            return
        neg = z3.Not(expr)
        r = self._check(neg)
        model = None
        if r == z3.unknown:
            r, model = self._hard_check(neg)
        elif r == z3.sat:
            model = self.solver.model()
        ok = True
        if r == z3.unsat:
            self.stats['checks_discharged'] += 1
            self.stack.append(Node(raw, True, False, False, 'c'))
            self.pos += 1
            return
        if r == z3.sat:
            self.record_failure(label, model, detail)
        else:
            self.stats['unknown_checks'] += 1
            self.complete = False
        # carry on with the inputs for which it holds
        if z3.is_false(expr):
            ok = False
            self.stack.append(Node(raw, False, False, False, 'c'))
        else:
            self._push(expr)
            rr = self._check()
            if rr == z3.sat:
                self.model = self.solver.model()
            else:
                self.model = None
                ok = rr != z3.unsat
            self.stack.append(Node(raw, ok, True, False, 'c'))
        self.pos += 1
        if not ok:
            raise PathAbort()

    def _hard_check(self, neg):
        """Second opinion with a fresh, non incremental solver."""
        t = time.time()
        s = z3.SolverFor('QF_BV')
        s.set('timeout', self.check_timeout_ms)
        if self.deadline is not None:
            left = int((self.deadline - time.time()) * 1000)
            s.set('timeout', max(1, min(self.check_timeout_ms, left)))
        s.add(*self.solver.assertions())
        s.add(neg)
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        return r, (s.model() if r == z3.sat else None)

    def record_failure(self, label, model, detail=None):
        self.failures.append(dict(label=label, detail=detail,
                                  inputs=self.extract_inputs(model)))

    def path_model(self):
        m = self._get_model()
        if m is None:
            s = z3.SolverFor('QF_BV')
            s.set('timeout', self.check_timeout_ms)
            s.add(*self.solver.assertions())
            if s.check() == z3.sat:
                m = s.model()
        return m

    # -- inputs

    def declare(self, name, spec):
        """Register an input of this path; spec: ('int', SymInt-or-int)"""
        if name in self.inputs:
            raise RuntimeError('duplicate symbolic input ' + name)
        self.inputs[name] = spec
        self.input_order.append(name)

    def extract_inputs(self, model):
        out = {}
        for name in self.input_order:
            kind, val = self.inputs[name]
            if kind == 'int':
                out[name] = eval_int(model, val)
            elif kind == 'bytes':
                out[name] = [eval_int(model, b) for b in val]
            elif kind == 'const':
                out[name] = val
        return out

    # -- the exploration loop

    def explore(self, fn):
        """Run fn() once per feasible path."""
        global ENG
        while True:
            self.pos = 0
            self.inputs = {}
            self.input_order = []
            self.path_counter = {}
            self.undo = []
            prev = ENG
            ENG = self
            try:
                try:
                    fn()
                    self.stats['paths'] += 1
                except PathAbort:
                    pass
                except Unsupported as e:
                    self.stats['unsupported'] += 1
                    self.complete = False
                    note = str(e)
                    rec = self.unsupported_notes.setdefault(note, [])
                    if len(rec) < 3:
                        try:
                            m = self.path_model()
                            rec.append(self.extract_inputs(m) if m is not None
                                       else None)
                        except (PathAbort, OutOfBudget):
                            pass
            except OutOfBudget:
                self.complete = False
                ENG = prev
                return
            finally:
                ENG = prev
                while self.undo:
                    o, n, v = self.undo.pop()
                    setattr(o, n, v)
                for h in self.on_reset:
                    h()
            # backtrack
            while self.stack:
                node = self.stack[-1]
                if node.pushed:
                    self.solver.pop()
                if node.kind == 'b' and node.alt:
                    node.alt = False
                    node.val = False
                    self._push(z3.Not(node.expr))
                    node.pushed = True
                    self.model = None
                    break
                self.stack.pop()
            else:
                return
            if self.stats['paths'] >= self.max_paths:
                self.complete = False
                return
            if self.deadline is not None and time.time() > self.deadline:
                self.complete = False
                return


ENG = None


def eng():
    if ENG is None:
        raise RuntimeError('symbolic value used outside an exploration')
    return ENG


def eval_int(model, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SymInt):
        r = model.eval(v.e, model_completion=True)
        return r.as_signed_long() if v.lo < 0 else r.as_long()
    if isinstance(v, SymBool):
        return 1 if z3.is_true(model.eval(v.e, model_completion=True)) else 0
    raise TypeError(type(v))


# ------------------------------------------------------------------ booleans


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __repr__(self):
        return '<SymBool>'

    def __str__(self):
        return '<sym>'

    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)),
                      0, 1)

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.e, o.e))
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.e, o.e))
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Not(self.e)) if o else self
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.e, o.e))
        return self._int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.e))
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, (int, SymInt)):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._int() << o

    def __rshift__(self, o):
        return self._int() >> o

    def __rlshift__(self, o):
        return o << self._int()

    def __rrshift__(self, o):
        return o >> self._int()

    def __neg__(self):
        return -self._int()

    def __invert__(self):
        return ~self._int()


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zbool(v):
    """z3 boolean of a Python/symbolic truth value (no forking)."""
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, SymInt):
        return (v != 0).e if isinstance(v != 0, SymBool) else z3.BoolVal(
            bool(v != 0))
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return z3.BoolVal(bool(v))


def sym_not(v):
    if isinstance(v, SymBool):
        return mkbool(z3.Not(v.e))
    if isinstance(v, SymInt):
        return v == 0
    return not v


def sym_and(*vs):
    es = []
    for v in vs:
        if isinstance(v, (SymBool, SymInt)):
            es.append(zbool(v))
        elif not v:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es) if len(es) > 1 else es[0])


def sym_or(*vs):
    es = []
    for v in vs:
        if isinstance(v, (SymBool, SymInt)):
            es.append(zbool(v))
        elif v:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es) if len(es) > 1 else es[0])


# ------------------------------------------------------------------ integers


def _need(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max(hi.bit_length(), (-lo - 1).bit_length()) + 1


MAX_WIDTH = 40000


def _ext(e, signed, w):
    have = e.size()
    if have == w:
        return e
    if have > w:
        return z3.Extract(w - 1, 0, e)
    return (z3.SignExt if signed else z3.ZeroExt)(w - have, e)


class SymInt(object):
    """A Python integer in [lo, hi]: a bit-vector wide enough to hold it
    exactly (two's complement when lo < 0), so no operation wraps."""

    __slots__ = ('e', 'lo', 'hi', 'tz', 'terms')

    def __init__(self, e, lo, hi, tz=0):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.tz = tz
        # of a sum: (constant, [(term, how often)])
        self.terms = None

    # -- helpers
    def at(self, w):
        return _ext(self.e, self.lo < 0, w)

    def __repr__(self):
        return '<SymInt %d..%d>' % (self.lo, self.hi)

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def concretize(self):
        e = eng()
        if self.lo == self.hi:
            return self.lo
        sv = z3.simplify(self.e)
        if z3.is_bv_value(sv):
            return sv.as_signed_long() if self.lo < 0 else sv.as_long()
        while True:
            if e.pos < len(e.stack):
                # replay: the value this decision tried
                c = e.stack[e.pos].tag
                if c is None:
                    raise Unsupported('non-deterministic concretisation')
                if e.branch(self._eqc(c)):
                    return c
                continue
            m = e._get_model()
            if m is None:
                raise Unsupported('no model to concretise with')
            c = eval_int(m, self)
            before = len(e.stack)
            r = e.branch(self._eqc(c))
            if len(e.stack) > before:
                e.stack[before].tag = c
            if r:
                return c

    def _eqc(self, c):
        return self.e == _bvval(c, self)

    def __index__(self):
        return self.concretize()

    __int__ = __index__

    def __float__(self):
        return float(self.concretize())

    def __hash__(self):
        return 0x5ea1

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- comparison
    def _cmp(self, o, kind):
        if isinstance(o, SymBool):
            o = o._int()
        if isinstance(o, float):
            if o == int(o):
                o = int(o)
            else:
                return NotImplemented
        if isinstance(o, int):
            o = int(o)
            lo = hi = o
        elif isinstance(o, SymInt):
            lo, hi = o.lo, o.hi
        else:
            return NotImplemented
        if kind == 'eq':
            if hi < self.lo or lo > self.hi:
                return False
        elif kind == 'lt':
            if self.hi < lo:
                return True
            if self.lo >= hi:
                return False
        elif kind == 'le':
            if self.hi <= lo:
                return True
            if self.lo > hi:
                return False
        l2, h2 = min(self.lo, lo), max(self.hi, hi)
        w = _need(l2, h2)
        signed = l2 < 0
        a = self.at(w)
        b = z3.BitVecVal(o, w) if isinstance(o, int) else o.at(w)
        if kind == 'eq':
            return mkbool(z3.simplify(a == b))
        if kind == 'lt':
            return mkbool(a < b if signed else z3.ULT(a, b))
        return mkbool(a <= b if signed else z3.ULE(a, b))

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        r = self._cmp(o, 'le')
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self._cmp(o, 'lt')
        return r if r is NotImplemented else sym_not(r)

    # -- arithmetic
    @staticmethod
    def _coerce(o):
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            return o._int()
        if isinstance(o, bool):
            return int(o)
        if isinstance(o, int):
            return o
        return None

    def _arith(self, o, op):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return _arith2(self, o, op)

    def __add__(self, o):
        if isinstance(o, (float,)):
            return SymFrac(self, 1) + o
        return self._arith(o, 'add')

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, 'sub')

    def __rsub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return _arith2(o, self, 'sub')

    def __mul__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            if o > 0 and o & (o - 1) == 0:
                return self << (o.bit_length() - 1)
        return _arith2(self, o, 'mul')

    __rmul__ = __mul__

    def __neg__(self):
        return _arith2(0, self, 'sub')

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if bool(self < 0):
            return -self
        return self.restrict(0, self.hi)

    def restrict(self, lo, hi):
        """Same value; tighter range which the caller knows to hold."""
        lo = max(lo, self.lo)
        hi = min(hi, self.hi)
        if lo > hi:
            raise PathAbort()
        return _mk(self.e, lo, hi, self.lo < 0, self.tz)

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymInt):
            if o.lo < 0:
                if bool(o < 0):
                    raise ValueError('negative shift count')
                o = o.restrict(0, o.hi)
                if isinstance(o, int):
                    return self << o
            if o.hi > 256:
                o = o.concretize()
                return self << o
            lo = self.lo << (o.hi if self.lo < 0 else o.lo)
            hi = self.hi << (o.hi if self.hi >= 0 else o.lo)
            w = _need(lo, hi)
            w2 = max(w, o.e.size())
            r = self.at(w2) << o.at(w2) if True else None
            return _mk(r, lo, hi, lo < 0, self.tz)
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        if self.e.size() + o > MAX_WIDTH:
            raise Unsupported('integer too wide')
        return SymInt(z3.Concat(self.e, z3.BitVecVal(0, o)),
                      self.lo << o, self.hi << o, self.tz + o)

    def __rlshift__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return _const(o) << self

    def __rshift__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymInt):
            if o.lo < 0:
                if bool(o < 0):
                    raise ValueError('negative shift count')
                o = o.restrict(0, o.hi)
                if isinstance(o, int):
                    return self >> o
            w = max(self.e.size(), o.e.size())
            a, b = self.at(w), o.at(w)
            r = (a >> b) if self.lo < 0 else z3.LShR(a, b)
            lo = self.lo >> (o.lo if self.lo < 0 else min(o.hi, 1 << 20))
            hi = self.hi >> (o.lo if self.hi >= 0 else min(o.hi, 1 << 20))
            return _mk(r, lo, hi, self.lo < 0)
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        w = self.e.size()
        if o >= w:
            if self.lo >= 0:
                return 0
            o = w - 1
        v = named(self)
        return _mk(z3.Extract(w - 1, o, v.e), self.lo >> o, self.hi >> o,
                   self.lo < 0, max(0, self.tz - o))

    def __rrshift__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return _const(o) >> self

    def _bit(self, o, op):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            olo = ohi = o
        else:
            olo, ohi = o.lo, o.hi
        if self.lo >= 0 and olo >= 0:
            if op == 'and':
                lo, hi = 0, min(self.hi, ohi)
                if isinstance(o, int):
                    if o == 0:
                        return 0
                    # a low-bits mask is an extract
                    n = o.bit_length()
                    if o == (1 << n) - 1:
                        v = named(self)
                        if v.hi <= o:
                            return v
                        e = z3.Extract(min(n, v.e.size()) - 1, 0, v.e)
                        return _mk(e, 0, hi, False, min(self.tz, n))
            else:
                n = max(self.hi.bit_length(), ohi.bit_length())
                lo, hi = 0, (1 << n) - 1
                if op == 'or':
                    lo = max(self.lo, olo)
                    # disjoint bits: a concatenation
                    r = _disjoint(self, o)
                    if r is not None:
                        return r
            w = max(_need(self.lo, self.hi), _need(olo, ohi))
        else:
            n = max(_need(min(self.lo, -1), self.hi),
                    _need(min(olo, -1), ohi))
            w = n
            if op == 'and' and (self.lo >= 0 or olo >= 0):
                lo = 0
                hi = self.hi if self.lo >= 0 else ohi
                if isinstance(o, int) and o >= 0:
                    hi = o
                elif self.lo >= 0 and olo >= 0:
                    hi = min(self.hi, ohi)
            else:
                lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        a = self.at(w)
        b = z3.BitVecVal(o, w) if isinstance(o, int) else o.at(w)
        if op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        else:
            r = a ^ b
        return _mk(z3.simplify(r), lo, hi, lo < 0)

    def __and__(self, o):
        return self._bit(o, 'and')

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, 'or')

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, 'xor')

    __rxor__ = __xor__

    def _divmod(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymInt):
            if bool(o == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
        elif o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return _divmod2(self, o)

    def __divmod__(self, o):
        return self._divmod(o)

    def __floordiv__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[1]

    def __rdivmod__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return _const(o)._divmod(self)

    def __rfloordiv__(self, o):
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[0]

    def __rmod__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        return self.__rdivmod__(o)[1]

    def __truediv__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, SymInt):
            o = o.concretize()
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('division by zero')
        return SymFrac(self, 1)._div(o)

    def __rtruediv__(self, o):
        return o / self.concretize()

    def __pow__(self, o, mod=None):
        if isinstance(o, SymInt):
            o = o.concretize()
        if not isinstance(o, int) or o < 0:
            return NotImplemented
        if mod is not None:
            r = 1
            base = self % mod
            while o:
                if o & 1:
                    r = (r * base) % mod
                o >>= 1
                if o:
                    base = (base * base) % mod
            return r % mod
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o, mod=None):
        if mod is not None:
            return pow(o, self.concretize(), mod)
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            k = o.bit_length() - 1
            if self.lo < 0:
                if bool(self < 0):
                    return float(o) ** self.concretize()
            return 1 << (self * k)
        return o ** self.concretize()

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    # -- int API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)

    def bit_length(self):
        if self.lo < 0:
            return abs(self).bit_length() if not isinstance(abs(self), int) \
                else abs(self).bit_length()
        return step_count(self, [1 << k for k in range(self.hi.bit_length())])

    def bit_count(self):
        if self.lo < 0:
            return abs(self).bit_count()
        total = 0
        for k in range(self.e.size()):
            total = total + ((self >> k) & 1)
        return total

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from sx.seq import mkbytes
        if isinstance(length, SymInt):
            length = length.concretize()
        if signed:
            raise Unsupported('signed to_bytes')
        if self.lo < 0 and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if self.hi >= 1 << (8 * length):
            if bool(self >= (1 << (8 * length))):
                raise OverflowError('int too big to convert')
        items = [(self >> (8 * i)) & 0xff for i in range(length)]
        if byteorder == 'big':
            items.reverse()
        return mkbytes(items)


def _bvval(c, sym):
    return z3.BitVecVal(c, sym.e.size())


def _const(c):
    if isinstance(c, SymInt):
        return c
    return SymInt(z3.BitVecVal(c, _need(c, c)), c, c)


def _terms(e, limit):
    """How many terms this sum has (at most limit)."""
    k = e.decl().kind()
    if k == z3.Z3_OP_BADD:
        n = 0
        for c in e.children():
            n += _terms(c, limit - n)
            if n >= limit:
                return n
        return n
    if k in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        c = e.children()[-1]
        if c.decl().kind() == z3.Z3_OP_BADD:
            return _terms(c, limit)
    return 1


def _plain(v):
    """v's expression, the same for the same value however wide it is."""
    e = z3.simplify(v.e)
    if v.lo >= 0 and e.decl().kind() == z3.Z3_OP_CONCAT and \
            z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
        e = e.arg(1) if e.num_args() == 2 else z3.simplify(
            z3.Concat(*e.children()[1:]))
    return e


def named(v):
    """The same number. Parts of long sums are taken of a variable for it:
    the simplifier would turn them into sums of parts, which nobody could
    tell to be parts of the same sum."""
    if v.e.decl().kind() != z3.Z3_OP_BADD or _terms(v.e, 4) < 4 or \
            ENG is None:
        return v
    pc = eng().path_counter
    known = pc.setdefault('sums', {})
    keep = pc.setdefault('terms', [])
    key = v.e.get_id()
    if v.terms is not None:
        # the same, in whatever order it was added up
        count = {}
        for t, n in v.terms[1].values():
            e = _plain(t)
            count[e.get_id()] = count.get(e.get_id(), 0) + n
            keep.append(e)
        key = (v.terms[0], tuple(sorted(count.items())))
    if key not in known:
        e = z3.BitVec('sum#%d' % len(known), v.e.size())
        known[key] = (SymInt(e, v.lo, v.hi, v.tz), v)
        eng().axiom(e == v.e)
    return known[key][0]


def _mk(e, lo, hi, signed, tz=0):
    """SymInt of bit-vector e (interpreted per signed), known in [lo, hi]."""
    if lo == hi:
        return lo
    w = _need(lo, hi)
    if w > MAX_WIDTH:
        raise Unsupported('integer too wide')
    have = e.size()
    if have > w:
        e = z3.simplify(z3.Extract(w - 1, 0, e))
    elif have < w:
        e = _ext(e, signed, w)
    if z3.is_bv_value(e):
        return e.as_signed_long() if lo < 0 else e.as_long()
    return SymInt(e, lo, hi, tz)


def _disjoint(a, b):
    """a | b == a + b when the set bits cannot overlap."""
    if isinstance(a, int) or isinstance(b, int):
        if isinstance(a, int):
            a, b = b, a
        if b == 0:
            return a
        if b < 0 or a.lo < 0:
            return None
        btz = (b & -b).bit_length() - 1
        if a.hi.bit_length() <= btz:
            hi_part = b >> btz
            e = z3.Concat(z3.BitVecVal(hi_part, hi_part.bit_length()),
                          a.at(btz)) if btz else None
            if e is None:
                return None
            return SymInt(e, a.lo + b, a.hi + b, 0)
        if b.bit_length() <= a.tz:
            w = a.e.size()
            if w <= a.tz:
                return None
            e = z3.Concat(z3.Extract(w - 1, a.tz, a.e),
                          z3.BitVecVal(b, a.tz))
            return SymInt(e, a.lo + b, a.hi + b, 0)
        return None
    if a.lo < 0 or b.lo < 0:
        return None
    if b.tz and a.hi.bit_length() <= b.tz:
        a, b = b, a
    if a.tz and b.hi.bit_length() <= a.tz and a.e.size() > a.tz:
        w = a.e.size()
        e = z3.Concat(z3.Extract(w - 1, a.tz, a.e), b.at(a.tz))
        return SymInt(z3.simplify(e), a.lo + b.lo, a.hi + b.hi, b.tz)
    return None


def _arith2(a, b, op):
    alo, ahi = (a, a) if isinstance(a, int) else (a.lo, a.hi)
    blo, bhi = (b, b) if isinstance(b, int) else (b.lo, b.hi)
    if op == 'add':
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0:
            return b
        r = _disjoint(a, b)
        if r is not None:
            return r
        lo, hi = alo + blo, ahi + bhi
    elif op == 'sub':
        lo, hi = alo - bhi, ahi - blo
    else:
        c = (alo * blo, alo * bhi, ahi * blo, ahi * bhi)
        lo, hi = min(c), max(c)
    l2, h2 = min(lo, alo, blo), max(hi, ahi, bhi)
    w = _need(l2, h2)
    if w > MAX_WIDTH:
        raise Unsupported('integer too wide')
    x = z3.BitVecVal(a, w) if isinstance(a, int) else a.at(w)
    y = z3.BitVecVal(b, w) if isinstance(b, int) else b.at(w)
    if op == 'add':
        r = x + y
    elif op == 'sub':
        r = x - y
    else:
        r = x * y
    r = _mk(r, lo, hi, l2 < 0)
    if op == 'add' and isinstance(r, SymInt):
        r.terms = _sum_terms(a, b)
    return r


MAX_TERMS = 400


def _sum_terms(a, b):
    const = 0
    out = {}
    for x in (a, b):
        if isinstance(x, int):
            const += x
        elif x.terms is None:
            k = x.e.get_id()
            out[k] = (x, out[k][1] + 1 if k in out else 1)
        else:
            const += x.terms[0]
            for k, (t, n) in x.terms[1].items():
                out[k] = (t, out[k][1] + n if k in out else n)
    if len(out) > MAX_TERMS:
        return None
    return const, out


def _divmod2(a, b):
    """Floor division, b known non-zero."""
    if isinstance(b, int):
        if b < 0:
            q, r = _divmod2(-a, -b) if not isinstance(-a, int) else \
                divmod(-a, -b)
            return q, -r
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            q = a >> k
            if a.lo >= 0:
                r = a & (b - 1)
            else:
                w = a.e.size()
                r = 0 if k == 0 else _mk(
                    z3.Extract(k - 1, 0, a.at(max(w, k))), 0, b - 1, False)
            return q, r
        blo = bhi = b
    else:
        blo, bhi = b.lo, b.hi
        if blo < 0:
            if bool(b < 0):
                nb = -b
                na = -a
                q, r = divmod(na, nb)
                return q, -r
            b = b.restrict(1, bhi)
            if isinstance(b, int):
                return divmod(a, b)
            blo = b.lo
        blo = max(blo, 1)
    if isinstance(a, int):
        a = _const(a)
    if a.lo < 0:
        if bool(a < 0):
            # floor(a/b) = -ceil(-a/b) = -((-a + b - 1) // b)
            na = -a
            q = -((na + b - 1) // b)
            return q, a - q * b
        a = a.restrict(0, a.hi)
        if isinstance(a, int):
            return divmod(a, b)
    w = max(_need(a.lo, a.hi), _need(0, bhi))
    x = a.at(w)
    y = z3.BitVecVal(b, w) if isinstance(b, int) else b.at(w)
    q = _mk(z3.UDiv(x, y), a.lo // bhi, a.hi // blo, False)
    r = _mk(z3.URem(x, y), 0, min(a.hi, bhi - 1), False)
    return q, r


class StepInt(SymInt):
    """An integer that is a step function of one symbolic integer x:
    segs = [(None, v0), (t1, v1), ...] means v0 below t1, v1 from t1 on...
    Operations with constants act on the values, so comparisons become range
    tests on x instead of if-then-else chains."""

    __slots__ = ('x', 'segs', '_e')

    def __init__(self, x, segs):
        out = []
        for t, v in segs:
            if not out or out[-1][1] != v:
                out.append((t, v))
        self.x = x
        self.segs = out
        vs = [v for _, v in out]
        self.lo = min(vs)
        self.hi = max(vs)
        self.tz = 0
        self.terms = None
        self._e = None

    @property
    def e(self):
        if self._e is None:
            w = _need(self.lo, self.hi)
            r = z3.BitVecVal(self.segs[0][1], w)
            for t, v in self.segs[1:]:
                r = z3.If(self._from(t), z3.BitVecVal(v, w), r)
            self._e = r
        return self._e

    def _from(self, t):
        c = self.x >= t
        return zbool(c)

    def _map(self, f):
        r = StepInt(self.x, [(t, f(v)) for t, v in self.segs])
        if len(r.segs) == 1:
            return r.segs[0][1]
        return r

    def _pred(self, p):
        terms = []
        flags = [bool(p(v)) for _, v in self.segs]
        if all(flags):
            return True
        if not any(flags):
            return False
        i = 0
        n = len(flags)
        while i < n:
            if not flags[i]:
                i += 1
                continue
            j = i
            while j < n and flags[j]:
                j += 1
            cs = []
            if i:
                cs.append(self._from(self.segs[i][0]))
            if j < n:
                cs.append(z3.Not(self._from(self.segs[j][0])))
            terms.append(z3.And(*cs) if len(cs) > 1 else cs[0])
            i = j
        return mkbool(z3.simplify(z3.Or(*terms) if len(terms) > 1
                                  else terms[0]))

    def _eqc(self, c):
        return zbool(self._pred(lambda v: v == c))

    def restrict(self, lo, hi):
        lo, hi = max(lo, self.lo), min(hi, self.hi)
        if lo > hi:
            raise PathAbort()
        return self._map(lambda v: min(max(v, lo), hi))

    __hash__ = SymInt.__hash__


def _step_ops():
    def arith(name, f):
        base = getattr(SymInt, name)
        if name.startswith('__r') and name not in ('__rshift__',):
            fwd = getattr(SymInt, '__' + name[3:])

            def base(self, o, fwd=fwd, base=base):
                # Python tries a subclass's reflected method first
                return fwd(o, self) if isinstance(o, SymInt) else \
                    base(self, o)

        def op(self, o):
            if isinstance(o, int):
                o = int(o)
                try:
                    return self._map(lambda v: f(v, o))
                except (ValueError, ZeroDivisionError, OverflowError):
                    pass
            return base(self, o)
        op.__name__ = name
        setattr(StepInt, name, op)

    def cmp_(name, f):
        base = getattr(SymInt, name)

        def op(self, o):
            if isinstance(o, (int, float)):
                return self._pred(lambda v: f(v, o))
            return base(self, o)
        op.__name__ = name
        setattr(StepInt, name, op)
    for name, f in dict(
            __add__=lambda v, o: v + o, __radd__=lambda v, o: v + o,
            __sub__=lambda v, o: v - o, __rsub__=lambda v, o: o - v,
            __mul__=lambda v, o: v * o, __rmul__=lambda v, o: v * o,
            __and__=lambda v, o: v & o, __rand__=lambda v, o: v & o,
            __or__=lambda v, o: v | o, __ror__=lambda v, o: v | o,
            __xor__=lambda v, o: v ^ o, __rxor__=lambda v, o: v ^ o,
            __lshift__=lambda v, o: v << o,
            __rlshift__=lambda v, o: o << v,
            __rshift__=lambda v, o: v >> o,
            __rrshift__=lambda v, o: o >> v,
            __floordiv__=lambda v, o: v // o,
            __mod__=lambda v, o: v % o).items():
        arith(name, f)
    for name, f in dict(
            __eq__=lambda v, o: v == o, __ne__=lambda v, o: v != o,
            __lt__=lambda v, o: v < o, __le__=lambda v, o: v <= o,
            __gt__=lambda v, o: v > o, __ge__=lambda v, o: v >= o).items():
        cmp_(name, f)
    StepInt.__neg__ = lambda self: self._map(lambda v: -v)
    StepInt.__hash__ = SymInt.__hash__

    def divmod_(self, o):
        if isinstance(o, int) and o:
            return self // o, self % o
        return SymInt.__divmod__(self, o)
    StepInt.__divmod__ = divmod_
    StepInt._divmod = divmod_ if False else SymInt._divmod


_step_ops()


class TableInt(StepInt):
    """The value of an injective table at a symbolic index q (0..n-1)."""

    __slots__ = ('table',)

    def __init__(self, q, table):
        StepInt.__init__(self, q, [(i if i else None, v)
                                   for i, v in enumerate(table)])
        self.table = table

    def restrict(self, lo, hi):
        if lo <= self.lo and hi >= self.hi:
            return self
        return StepInt.restrict(self, lo, hi)

    def _eqc(self, c):
        return zbool(self == c)

    def __eq__(self, o):
        if isinstance(o, TableInt) and o.table is self.table:
            return self.x == o.x
        if isinstance(o, int):
            return self.x == self.table.index(o) if o in self.table \
                else False
        return StepInt.__eq__(self, o)

    def __ne__(self, o):
        return sym_not(self == o)

    __hash__ = SymInt.__hash__


def step_count(x, thresholds):
    """Number of thresholds t (ascending) with x >= t."""
    base = 0
    segs = []
    for t in thresholds:
        if t <= x.lo:
            base += 1
        elif t <= x.hi:
            segs.append(t)
    if not segs:
        return base
    return StepInt(x, [(None, base)] + [(t, base + i + 1)
                                        for i, t in enumerate(segs)])


def ite(c, a, b):
    """If c then a else b, for integers/booleans, without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.e, zbool(a), zbool(b)))
    if isinstance(a, SymBool):
        a = a._int()
    if isinstance(b, SymBool):
        b = b._int()
    alo, ahi = (a, a) if isinstance(a, int) else (a.lo, a.hi)
    blo, bhi = (b, b) if isinstance(b, int) else (b.lo, b.hi)
    lo, hi = min(alo, blo), max(ahi, bhi)
    if lo == hi:
        return lo
    w = _need(lo, hi)
    x = z3.BitVecVal(int(a), w) if isinstance(a, int) else a.at(w)
    y = z3.BitVecVal(int(b), w) if isinstance(b, int) else b.at(w)
    return SymInt(z3.If(c.e, x, y), lo, hi)


# ----------------------------------------------------------------- fractions


class SymFrac(object):
    """An exactly represented non-integer float: num / den, den a power of
    two and |num| < 2**53 (so the IEEE division is exact)."""

    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    def _div(self, o):
        d = self.d * o
        if o <= 0 or d & (d - 1) or _mag(self.n) >= 1 << 53:
            # not exactly representable: use the concrete value
            n = self.n.concretize() if isinstance(self.n, SymInt) else self.n
            return n / d
        return SymFrac(self.n, d)

    def __truediv__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, int):
            return self._div(o)
        return NotImplemented

    def __float__(self):
        n = self.n.concretize() if isinstance(self.n, SymInt) else self.n
        return n / self.d

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __trunc__(self):
        if isinstance(self.n, SymInt) and self.n.lo >= 0:
            return self.n // self.d
        if bool(self.n < 0):
            return -((-self.n) // self.d)
        return self.n // self.d

    __index__ = None

    def __int__(self):
        return int(self.__trunc__())

    def _o(self, o):
        if isinstance(o, SymFrac):
            return o.n, o.d
        if isinstance(o, float):
            return o.as_integer_ratio()
        if isinstance(o, (int, SymInt)):
            return o, 1
        return None

    def _cross(self, o):
        r = self._o(o)
        if r is None:
            return None
        n, d = r
        return self.n * d, n * self.d

    def __eq__(self, o):
        r = self._cross(o)
        return NotImplemented if r is None else r[0] == r[1]

    def __ne__(self, o):
        r = self._cross(o)
        return NotImplemented if r is None else r[0] != r[1]

    def __lt__(self, o):
        r = self._cross(o)
        return NotImplemented if r is None else r[0] < r[1]

    def __le__(self, o):
        r = self._cross(o)
        return NotImplemented if r is None else r[0] <= r[1]

    def __gt__(self, o):
        r = self._cross(o)
        return NotImplemented if r is None else r[0] > r[1]

    def __ge__(self, o):
        r = self._cross(o)
        return NotImplemented if r is None else r[0] >= r[1]

    def __hash__(self):
        return 0x5ea1

    def __bool__(self):
        return bool(self.n != 0)

    def __add__(self, o):
        r = self._o(o)
        if r is None:
            return NotImplemented
        n, d = r
        return SymFrac(self.n * d + n * self.d, self.d * d)

    __radd__ = __add__

    def __sub__(self, o):
        r = self._o(o)
        if r is None:
            return NotImplemented
        n, d = r
        return SymFrac(self.n * d - n * self.d, self.d * d)

    def __rsub__(self, o):
        return -(self - o)

    def __neg__(self):
        return SymFrac(-self.n, self.d)

    def __mul__(self, o):
        r = self._o(o)
        if r is None:
            return NotImplemented
        n, d = r
        return SymFrac(self.n * n, self.d * d)

    __rmul__ = __mul__

    def is_integer(self):
        return self.n % self.d == 0

    def __repr__(self):
        return '<SymFrac>'

    def __format__(self, spec):
        return '<sym>'


def _mag(n):
    if isinstance(n, int):
        return abs(n)
    return max(abs(n.lo), abs(n.hi))


def fresh_int(name, lo, hi):
    """A new symbolic integer input lo..hi of the current path."""
    e = eng()
    w = _need(lo, hi)
    c = z3.BitVec(name, w)
    v = SymInt(c, lo, hi)
    e.declare(name, ('int', v))
    if lo == hi:
        e.inputs[name] = ('int', lo)
        return lo
    # tie the range down when the width does not
    full_lo, full_hi = ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if lo < 0
                        else (0, (1 << w) - 1))
    if (lo, hi) != (full_lo, full_hi):
        full = SymInt(c, full_lo, full_hi)
        e.assume(zbool(sym_and(full >= lo, full <= hi)))
    return v


def fresh_bytes(name, n):
    e = eng()
    items = [SymInt(z3.BitVec('%s[%d]' % (name, i), 8), 0, 255)
             for i in range(n)]
    e.declare(name, ('bytes', items))
    return items
