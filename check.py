#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--harness FN] [-v]

Decides one property: every harness case is explored symbolically over the
current /repo sources (sx/), each counterexample is replayed against the
unmodified code, and only what reproduces is reported.
"""
import argparse
import json
import multiprocessing
import multiprocessing.connection
import os
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['TZ'] = 'VFY-5:30'
time.tzset()
PY = os.environ.get('SX_PYPY', '/opt/venv/bin/python')


def run_one(job):
    i, path, fn, params, opts = job
    from sx import worker
    sys.setrecursionlimit(20000)
    try:
        r = worker.run_case(path, fn, params, opts)
    except BaseException:
        r = dict(fn=fn, params=params, error=traceback.format_exc(),
                 stats={}, failures=[], samples=[], unsupported={},
                 complete=False, reached={}, funcs={}, exceptions={}, wall=0)
    return i, r


def child(job, conn):
    try:
        import resource
        cap = 5 << 30
        resource.setrlimit(resource.RLIMIT_AS, (cap, cap))
    except (ImportError, ValueError):
        pass
    r = run_one(job)
    conn.send(r)
    conn.close()
    os._exit(0)


def explore_all(jobs, nproc, deadline):
    """Run the jobs in forked children, at most nproc at a time."""
    ctx = multiprocessing.get_context('fork')
    todo = list(jobs)
    running = []
    out = {}
    while todo or running:
        while todo and len(running) < nproc:
            job = todo.pop(0)
            left = deadline - time.time()
            if left < 3:
                out[job[0]] = dict(fn=job[2], params=job[3], error='no time',
                                   stats={}, failures=[], samples=[],
                                   unsupported={}, complete=False,
                                   reached={}, funcs={}, exceptions={},
                                   wall=0)
                continue
            job[4]['deadline_s'] = min(job[4]['deadline_s'], left - 2)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(job, tx))
            p.start()
            tx.close()
            running.append((job, p, rx, time.time() +
                            job[4]['deadline_s'] + 75))
        nxt = []
        ready = multiprocessing.connection.wait(
            [r[2] for r in running], timeout=0.5)
        for job, p, rx, kill in running:
            if rx in ready:
                try:
                    i, r = rx.recv()
                    out[i] = r
                except (EOFError, OSError):
                    out[job[0]] = dict(
                        fn=job[2], params=job[3], error='worker died',
                        stats={}, failures=[], samples=[], unsupported={},
                        complete=False, reached={}, funcs={}, exceptions={},
                        wall=0)
                rx.close()
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif time.time() > min(kill, deadline + 60):
                p.kill()
                p.join(5)
                rx.close()
                out[job[0]] = dict(
                    fn=job[2], params=job[3], error='killed: out of time',
                    stats={}, failures=[], samples=[], unsupported={},
                    complete=False, reached={}, funcs={}, exceptions={},
                    wall=0)
            else:
                nxt.append((job, p, rx, kill))
        running = nxt
    return [out[k] for k in sorted(out)]


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def replay(path, cases, tmp, timeout=20):
    """Run assignments on the genuine code; returns one result per case."""
    results = []
    start = 0
    while start < len(cases):
        spec = os.path.join(tmp, 'in.json')
        outp = os.path.join(tmp, 'out.json')
        if os.path.exists(outp):
            os.remove(outp)
        with open(spec, 'w') as f:
            json.dump(dict(harness=path, cases=cases[start:],
                           timeout=timeout), f)
        env = dict(os.environ, PYTHONPATH=os.environ.get('SX_REPO', '/repo'),
                   TZ='VFY-5:30', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
        err = ''
        try:
            p = subprocess.run([PY, '-W', 'ignore',
                                os.path.join(HERE, 'sx', 'replay.py'),
                                spec, outp], env=env, cwd=tmp,
                               stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=240,
                               preexec_fn=limit_memory)
            err = p.stderr.decode('utf8', 'replace')[-2000:]
        except subprocess.TimeoutExpired:
            err = 'replay timed out'
        got = []
        if os.path.exists(outp):
            try:
                with open(outp) as f:
                    got = json.load(f)
            except ValueError:
                got = []
        results.extend(got)
        start += len(got)
        if start < len(cases):
            if not got and start == 0:
                # the harness or the package does not even import
                results.extend([dict(result='error', label='import',
                                     detail=err)] * (len(cases) - start))
                break
            results.append(dict(result='error', label='crash', detail=err))
            start += 1
    return results


def load_known(prop):
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                rec = json.loads(line[len('known: '):])
                if rec['property'] == prop:
                    known.append(rec)
    return known


def is_known(known, case, res):
    for k in known:
        if k.get('harness') not in (None, case['fn']):
            continue
        if k.get('label') is not None and k['label'] != res.get('label'):
            continue
        if any(case['params'].get(a) != b
               for a, b in k.get('params', {}).items()):
            continue
        if any(case['inputs'].get(a) != b
               for a, b in k.get('inputs', {}).items()):
            continue
        if k.get('detail') and k['detail'] not in (res.get('detail') or ''):
            continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--harness')
    ap.add_argument('--param')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    t0 = time.time()
    registry = json.load(open(os.path.join(HERE, 'checks.json')))
    entry = registry[a.prop]
    path = os.path.join(HERE, 'harness', entry['harness'])
    budget = a.budget or (entry.get('quick_s', 150) if a.tier == 'quick'
                          else entry.get('thorough_s', 780))
    deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix='sx-')
    try:
        code = decide(a, entry, path, deadline, tmp, t0)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def case_list(path, tier):
    src = open(path).read()
    ns = {'__name__': 'cases', '__file__': path}
    # cases() only uses plain Python: taken from the text after CASES marker
    mark = src.index('# --- cases ---')
    exec(compile(src[mark:], path, 'exec'), ns)
    return ns['cases'](tier)


def decide(a, entry, path, deadline, tmp, t0):
    prop = a.prop
    cases = case_list(path, a.tier)
    jobs = []
    for c in cases:
        fn, params = c[0], c[1]
        opts = dict(c[2]) if len(c) > 2 else {}
        if a.harness and fn != a.harness:
            continue
        if a.param and a.param not in json.dumps(params):
            continue
        opts.setdefault('deadline_s', 40 if a.tier == 'quick' else 300)
        jobs.append((len(jobs), path, fn, params, opts))
    load_error = None
    try:
        from sx import worker
        ld, mod = worker.load_harness(path)
        for m in getattr(mod, 'PRELOAD', ()):
            ld.load(m)
    except BaseException:
        load_error = traceback.format_exc()
    results = explore_all(jobs, a.j, deadline) if load_error is None else []
    # -- replay
    todo = []
    for r in results:
        for f in r['failures']:
            todo.append(('failure', r, f['label'], f['inputs'], f['detail']))
        for s in r['samples']:
            todo.append(('sample', r, None, s, None))
        for note, ins in r['unsupported'].items():
            for s in ins:
                if s is not None:
                    todo.append(('unsupported', r, note, s, None))
    if load_error is not None:
        # fall back to the default assignment of every case
        for j in jobs:
            todo.append(('default', dict(fn=j[2], params=j[3]), None, {},
                         None))
    rcases = [dict(fn=t[1]['fn'], params=t[1]['params'], inputs=t[3])
              for t in todo]
    reps = replay(path, rcases, tmp) if rcases else []
    known = load_known(prop)
    violations, knowns, unreproduced, samples_ok = [], {}, [], 0
    import_error = None
    for t, c, rr in zip(todo, rcases, reps):
        if rr['result'] == 'ok' or rr['result'] == 'discard':
            if t[0] == 'failure':
                unreproduced.append(dict(case=c, label=t[2], detail=t[4],
                                         replay=rr['result']))
            elif rr['result'] == 'ok':
                samples_ok += 1
        elif rr['result'] == 'fail':
            k = is_known(known, c, rr)
            if k is not None:
                knowns[k['what']] = knowns.get(k['what'], 0) + 1
            else:
                violations.append(dict(kind=t[0], case=c, symbolic=t[2],
                                       symbolic_detail=t[4], replay=rr))
        elif rr['result'] == 'timeout':
            violations.append(dict(kind=t[0], case=c, symbolic=t[2],
                                   symbolic_detail=t[4],
                                   replay=dict(rr, label='does not finish')))
        else:
            import_error = rr
            if rr['label'] == 'import':
                violations.append(dict(kind=t[0], case=c, symbolic=t[2],
                                       symbolic_detail=None, replay=rr))
                break
    # -- report
    tot = {}
    funcs = {}
    reached = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['funcs'].items():
            funcs[k] = funcs.get(k, 0) + v
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
    incomplete = [dict(fn=r['fn'], params=r['params'],
                       error=(r['error'] or '')[-600:],
                       unsupported={k: len(v) for k, v in
                                    r['unsupported'].items()},
                       paths=r['stats'].get('paths'),
                       unknown=r['stats'].get('unknown_checks'))
                  for r in results if not r['complete'] or r['error']]
    if a.v:
        for r in results:
            print('%-28s %-50s %s paths=%s q=%s chk=%s fail=%d uns=%s '
                  'wall=%.1f solver=%.1f' % (
                      r['fn'], json.dumps(r['params'])[:50],
                      'ok ' if r['complete'] else 'INC',
                      r['stats'].get('paths'), r['stats'].get('queries'),
                      r['stats'].get('checks'), len(r['failures']),
                      r['stats'].get('unsupported'), r['wall'],
                      r['stats'].get('solver_s', 0)))
            for f in r['failures']:
                print('     FAIL', f['label'], json.dumps(f['inputs'])[:300],
                      f['detail'])
            for k, v in r['unsupported'].items():
                print('     UNSUP', k, json.dumps(v)[:200])
            if r['error']:
                print('     ERROR', r['error'])
        for u in unreproduced:
            print('  UNREPRODUCED', json.dumps(u)[:600])
        if load_error:
            print(load_error)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    shown = set()
    code = 0
    vlist = []
    for v in violations:
        key = (v['case']['fn'], v['replay'].get('label'))
        if key in shown:
            continue
        shown.add(key)
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%d.json' % (prop, len(shown)))
        with open(rp, 'w') as f:
            json.dump(dict(harness=path, cases=[v['case']], timeout=20,
                           replay=v['replay'], symbolic=v['symbolic'],
                           symbolic_detail=v['symbolic_detail'],
                           how='PYTHONPATH=/repo TZ=VFY-5:30 '
                               '/opt/venv/bin/python -W ignore '
                               '/verif/sx/replay.py %s /dev/stdout' % rp),
                      f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s %s: %s %s' % (v['case']['fn'],
                                  json.dumps(v['case']['params']),
                                  v['replay'].get('label'),
                                  str(v['replay'].get('detail'))[-400:]))
        vlist.append(dict(harness=v['case']['fn'],
                          label=v['replay'].get('label'), replay=rp))
        code = 1
    for k in sorted(knowns):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    wall = time.time() - t0
    from sx import instr
    complete = [r for r in results if r['complete'] and not r['error']]
    level = entry.get('level', 'model_checking')
    cov = dict(
        states=tot.get('paths', 0),
        transitions=tot.get('forks', 0),
        traces_validated_against_impl=samples_ok,
        samples=[dict(harness=t[1]['fn'], params=t[1]['params'],
                      inputs=t[3], replay=rr['result'])
                 for t, rr in zip(todo, reps)][:12],
        states_are='feasible execution paths explored',
        transitions_are='branch points where both sides were feasible',
        cases=len(jobs), cases_decided_completely=len(complete),
        cases_incomplete=incomplete[:40],
        queries_discharged=tot.get('queries', 0),
        solver_s=round(tot.get('solver_s', 0), 2),
        assertions=tot.get('checks', 0),
        assertions_discharged=tot.get('checks_discharged', 0),
        assertions_trivial=tot.get('trivial_checks', 0),
        infeasible_paths=tot.get('infeasible', 0),
        reachability_witnesses=reached,
        functions_encoded=sorted(k for k in funcs
                                 if not k.startswith('harness.')),
        files_encoded=sorted(k for k in instr.SOURCES),
        bounds=entry.get('bounds', ''),
        unreproduced_counterexamples=unreproduced[:10],
        known_findings=sorted(knowns),
        solver='z3 %s (QF_BV, incremental, re-execution per path)'
               % __import__('z3').get_version_string())
    if load_error:
        cov['load_error'] = load_error[-2000:]
    ev = dict(property=prop, tier=a.tier,
              seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level=level, coverage=cov, wall_s=round(wall, 2),
              assumptions=entry.get('assumptions', []),
              violations=len(vlist))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.harness and not a.param:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d/%d cases decided, %d paths, %d queries, %.1fs solver, '
          '%d assertions (%d discharged), %d replays agree, '
          '%d unreproduced, %.1fs' % (
              prop, a.tier, len(complete), len(jobs), tot.get('paths', 0),
              tot.get('queries', 0), tot.get('solver_s', 0),
              tot.get('checks', 0), tot.get('checks_discharged', 0),
              samples_ok, len(unreproduced), wall))
    return code


if __name__ == '__main__':
    main()
