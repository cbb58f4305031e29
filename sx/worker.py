"""Explores one case of a harness symbolically."""
import os
import signal
import time
import traceback

from sx import core, instr, stubs
from sx.symapi import Symbolic

_LOADED = {}


class Hang(BaseException):
    """The time of a case ran out within a path."""


def _alarm(*args):
    raise Hang()


def load_harness(path):
    """Instrument and load the code under test and the harness."""
    if path in _LOADED:
        return _LOADED[path]
    ld = instr.Loader()
    stubs.build(ld)
    ld.roots['hlib'] = os.path.join(os.path.dirname(path), 'hlib')
    mod = ld.exec_file(path, 'harness')
    _LOADED[path] = (ld, mod)
    return ld, mod


def run_case(path, fn_name, params, opts):
    ld, mod = load_harness(path)
    fn = getattr(mod, fn_name)
    t0 = time.time()
    eng = core.Engine(
        branch_timeout_ms=opts.get('branch_ms', 10000),
        check_timeout_ms=opts.get('check_ms', 60000),
        max_paths=opts.get('max_paths', 20000),
        deadline=t0 + opts.get('deadline_s', 60))
    api = Symbolic()
    samples = []
    exceptions = {}
    before = dict(instr.FUNCS)

    def one():
        try:
            # Code that never comes to a symbolic branch does not see the
            # engine's deadline.
            signal.setitimer(signal.ITIMER_REAL,
                             max(eng.deadline - time.time(), 0) + 3, 5)
            try:
                fn(api, **params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            eng.deadline = time.time() + 10
            m = eng.path_model()
            if m is not None:
                eng.record_failure('does not finish', m, None)
            raise core.OutOfBudget('hang')
        except (core.PathAbort, core.Unsupported, core.OutOfBudget):
            raise
        except RecursionError:
            if os.environ.get('SX_TB'):
                tb_ = traceback.format_exc().split('\n'); print('\n'.join(tb_[:8] + tb_[-14:]))
            raise core.Unsupported('recursion')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno,
                                   f.name) for f in tb][-8:]
            label = 'exception %s' % type(e).__name__
            try:
                msg = str(e)[:200]
            except BaseException:
                msg = '?'
            key = (label, where[-1])
            exceptions[key] = exceptions.get(key, 0) + 1
            if exceptions[key] <= 5:
                m = eng.path_model()
                if m is not None:
                    eng.record_failure(label, m, dict(msg=msg, where=where))
            return
        n = eng.stats['paths']
        if len(samples) < opts.get('samples', 3) or \
                n in (50, 200, 1000, 5000):
            try:
                m = eng.path_model()
                if m is not None:
                    samples.append(eng.extract_inputs(m))
            except core.PathAbort:
                pass
    error = None
    signal.signal(signal.SIGALRM, _alarm)
    try:
        eng.explore(one)
    except (Exception, Hang):
        error = traceback.format_exc()
        eng.complete = False
    funcs = {k: v - before.get(k, 0) for k, v in instr.FUNCS.items()
             if v - before.get(k, 0) > 0}
    seen = set()
    fails = []
    for f in eng.failures:
        key = f['label']
        if sum(1 for g in fails if g['label'] == key) >= 6:
            continue
        fails.append(f)
    return dict(fn=fn_name, params=params, stats=eng.stats, failures=fails,
                samples=samples, unsupported=eng.unsupported_notes,
                complete=eng.complete and not eng.stats['unknown_checks'],
                error=error, reached=api.reached, funcs=funcs,
                exceptions={'%s @ %s' % k: v for k, v in exceptions.items()},
                wall=time.time() - t0)
