#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from the one table
in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, NOT_CLAIMED  # noqa: E402
from design import HOW, MISSES  # noqa: E402

TECH = ('symbolic execution of the real Python source with z3 (bit-vectors), '
        'all paths within bounds, counterexamples replayed on the real code')


def main():
    lines = []
    checks = []
    reg = {}
    for p in PROPS + NOT_CLAIMED:
        assert len(p['title']) <= 80, p['id']
        mech = [dict(name=n, where=w) for n, w in p['mechanism']]
        anchors = dict(files=p['files'], mechanism=mech)
        if p.get('state'):
            anchors['state'] = [dict(name=n, meaning=m, where=w)
                                for n, m, w in p['state']]
        anchors['observe_at'] = p['observe_at']
        anchors['hook_needed'] = None
        lines.append(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quantifier']),
            why_tests_cant=p['why'], anchors=anchors)))
    for p in PROPS:
        checks.append(dict(
            property=p['id'],
            quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
            thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique=p.get('technique', TECH),
            level='model_checking',
            level_note=p['bounds']))
        reg[p['id']] = dict(harness=p['harness'], bounds=p['bounds'],
                            level='model_checking',
                            assumptions=p['assumptions'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(
            version=1,
            setup_cmd='bash tools/setup.sh',
            checks=checks,
            not_applicable=[dict(property=p['id'], reason=p['reason'])
                            for p in NOT_CLAIMED],
            notes='One engine (sx/) executes the code in /repo symbolically; '
                  'harness/ holds one harness file per property; see '
                  'DESIGN.md. No hooks in /repo are needed.'),
            f, indent=1)
        f.write('\n')
    with open(os.path.join(ROOT, 'checks.json'), 'w') as f:
        json.dump(reg, f, indent=1)
        f.write('\n')

    design()


def design():
    props = []
    for p in PROPS:
        props.append('### %s %s\n' % (p['id'], p['title']))
        props.append(p['statement'] + '\n')
        props.append('*How.* %s Harness: `harness/%s`.\n' % (
            HOW.get(p['id'], ''), p['harness']))
        props.append('*Bounds.* %s\n' % p['bounds'])
        props.append('*Why tests do not settle it.* %s\n' % p['why'])
        extra = [a for a in p['assumptions'] if 'uninterpreted' not in a and
                 'tokens' not in a and 'CPython 3.12' not in a]
        if extra:
            props.append('*Assumes.* %s\n' % ' '.join(extra))
    for p in NOT_CLAIMED:
        props.append('### %s %s (not applicable)\n' % (p['id'], p['title']))
        props.append(p['statement'] + '\n')
        props.append('*Why not.* %s\n' % p['reason'])
    seeds = []
    base = os.path.join(ROOT, 'seeded')
    for name in sorted(os.listdir(base)):
        with open(os.path.join(base, name, 'meta.json')) as f:
            m = json.load(f)
        seeds.append('| %s | %s | %s | %s |' % (
            name, m['property'], m['needs'], m['what_it_breaks']))
    seeds = ['| bug | property, caught by its check | needs | breaks |',
             '|---|---|---|---|'] + seeds
    fixes = {}
    with open(os.path.join(ROOT, 'known_findings.txt')) as f:
        for line in f:
            w = line.split(None, 3)
            if w and w[0] == 'fixed:':
                fixes.setdefault(w[1][9:], []).append(
                    '%s (%s)' % (w[3].strip(), w[2]))
    fixes = ['* %s: %s.' % (k, '; '.join(v))
             for k, v in sorted(fixes.items())]
    with open(os.path.join(HERE, 'design.md')) as f:
        text = f.read()
    for k, v in [('PROPERTIES', '\n'.join(props)),
                 ('SEEDS', '\n'.join(seeds)),
                 ('MISSES', '\n'.join('* ' + m for m in MISSES)),
                 ('FIXES', '\n'.join(fixes))]:
        text = text.replace('@@%s@@' % k, v.rstrip())
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(text)


main()
