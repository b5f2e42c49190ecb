#!/usr/bin/env python3
"""
Decide one property on the current source of /repo:

    python3 check.py PROPERTY [--quick | --thorough]

Exit 0 if no violation was found, 1 with a VIOLATION line otherwise.
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vsa import alias, oblig, findings                             # noqa: E402
from vsa.engine import load_sources, REPO                   # noqa: E402
from vsa.terms import show                                  # noqa: E402


def load_props():
    for n in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if n.endswith('.py') and not n.startswith('_'):
            importlib.import_module('props.' + n[:-3])


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    load_props()
    sources = load_sources()
    obs = [o for o in oblig.REG if o.prop == prop]
    rules = [r for r in findings.RULES if r[0] == prop]
    if not obs and not rules:
        print('no such property: %s' % prop)
        return 2
    viol, undec, samples, functions = [], [], [], set()
    done = 0
    nodes = 0
    for o in obs:
        v = oblig.run(o, sources)
        functions.update(v.called)
        nodes += v.size
        if v.status == 'eq':
            done += 1
        elif v.status == 'diff':
            viol.append(oblig_violation(o, v))
        else:
            undec.append({'obligation': o.name, 'why': v.why})
        if len(samples) < 6:
            samples.append({'obligation': o.name, 'outcome': v.status,
                            'functions': list(v.called)[:12],
                            'specification': o.text.strip()
                            .split('def spec')[-1][:300]})
    known = findings.known()
    examined = {}
    printed = []
    for _, name, f in rules:
        out = f(sources)
        functions.update(out.functions)
        for k, n in out.examined.items():
            examined['%s: %s' % (name, k)] = n
        for x in out.findings:
            if (prop, x.key) in known:
                printed.append('KNOWN-FINDING: property=%s %s (%s)' % (
                    prop, x.text, x.where))
                continue
            viol.append({'rule': x.rule, 'where': x.where,
                         'construct': x.construct, 'text': x.text})
        undec.extend({'rule': name, 'why': str(u)} for u in out.undecided)
        samples.extend({'rule': name, 'examined': s}
                       for s in out.samples[:6])
    if obs:
        # what the functions of this property keep in their loops
        found, looked, seen = alias.check(sources, frozenset(functions))
        examined['storage of its own for every item: functions'] = len(seen)
        examined['storage of its own for every item: things kept in loops'] \
            = looked
        for where, q, text in found:
            viol.append({'rule': 'storage of its own for every item',
                         'where': where, 'construct': q, 'text': text})
    deep = None
    if tier == 'thorough' and obs:
        from vsa import sensitivity
        deep = sensitivity.measure(obs, sources, seed)
    for ln in printed:
        print(ln)
    rep = None
    if viol:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, prop + '.json')
        with open(rep, 'w', encoding='utf-8') as f:
            json.dump({'property': prop, 'repo': REPO, 'violations': viol,
                       'replay': 'cd /verif && python3 check.py %s' % prop},
                      f, indent=1)
    cov = {
        'explanation':
            'Static value-flow analysis of the current source: for each '
            'obligation the value-flow term of client code using the package '
            'is computed and compared with that of a specification; for each '
            'rule the constructs listed were examined. Nothing was executed.',
        'obligations': len(obs), 'discharged': done,
        'undecided': undec, 'functions_analysed': sorted(functions),
        'value_flow_nodes': nodes, 'rules': [r[1] for r in rules],
        'examined': examined, 'samples': samples,
    }
    if deep is not None:
        cov['sensitivity'] = deep
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w',
              encoding='utf-8') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed,
                   'level': 'other', 'coverage': cov,
                   'assumptions': ASSUMPTIONS, 'violations': len(viol),
                   'wall_s': round(time.time() - t0, 3)}, f, indent=1,
                  default=str)
    for v in viol:
        print('%s: %s\n    %s' % (v['where'], v.get('rule'), v['text']))
    for u in undec:
        print('undecided: %s' % (u,))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    print('%s: %d obligations, %d discharged, %d undecided; %s' % (
        prop, len(obs), done, len(undec),
        ', '.join('%s %s' % (n, k) for k, n in sorted(examined.items()))
        or 'no rules'))
    return 0


ASSUMPTIONS = [
    'numpy, scipy, PyTables and the standard library behave as modelled in '
    'vsa/lib.py (algebraic laws of their operations; otherwise uninterpreted)',
    'the value types named in an obligation are those of the arguments',
    'real-number algebra for + - * / (rounding is not modelled)',
]


def oblig_violation(o, v):
    w = v.where()
    where = '%s:%s' % w if w else ', '.join(list(v.called)[:3])
    t = '%s: %s' % (o.name, v.why)
    if v.a is not None:
        t += '\n    code:          ' + show(v.a, 9)[:900]
    if v.b is not None:
        t += '\n    specification: ' + show(v.b, 9)[:900]
    return {'rule': 'value flow equals the specification',
            'where': where, 'construct': o.name, 'text': t,
            'functions': list(v.called)[:30]}


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
