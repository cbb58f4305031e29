"""Replays assignments found by the solver against the genuine code.

  PYTHONPATH=/repo TZ=VFY-5:30 /opt/venv/bin/python -W ignore replay.py \
      CASES.json OUT.json

CASES.json: {"harness": path, "cases": [{"fn", "params", "inputs"}, ...]}
Imports the unmodified package from /repo with its real dependencies.
"""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def main():
    repo = os.environ.get('SX_REPO', '/repo')
    sys.dont_write_bytecode = True
    # the helper modules of the API must not shadow anything
    sys.path = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, repo)
    from sx.api import Concrete, Discard, CheckFailed
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    sys.path.insert(1, os.path.dirname(spec['harness']))
    src = open(spec['harness']).read()
    ns = {'__name__': 'harness', '__file__': spec['harness']}
    exec(compile(src, spec['harness'], 'exec'), ns)
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    timeouts = 0
    for case in spec['cases']:
        if timeouts >= 3:
            # enough is known
            out.append(dict(result='skipped', label=''))
            continue
        api = Concrete(case['inputs'] or {})
        res = {}
        signal.alarm(int(spec.get('timeout', 20)))
        devnull = open(os.devnull, 'w')
        stdout, sys.stdout = sys.stdout, devnull
        try:
            try:
                ns[case['fn']](api, **case['params'])
                res['result'] = 'ok'
            finally:
                signal.alarm(0)
                sys.stdout = stdout
                api.close()
        except Discard:
            res['result'] = 'discard'
        except CheckFailed as e:
            res['result'] = 'fail'
            res['label'] = e.label
            res['detail'] = repr(e.detail)[:500]
        except Timeout:
            res['result'] = 'timeout'
            timeouts += 1
        except RecursionError:
            res['result'] = 'fail'
            res['label'] = 'exception RecursionError'
            res['detail'] = ''
        except Exception as e:
            res['result'] = 'fail'
            res['label'] = 'exception %s' % type(e).__name__
            res['detail'] = traceback.format_exc()[-1500:]
        res['reached'] = api.reached
        out.append(res)
        with open(sys.argv[2], 'w') as f:
            json.dump(out, f)
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
