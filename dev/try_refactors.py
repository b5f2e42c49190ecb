"""
python3 dev/try_refactors.py [NAME...]: apply each edit of refactors.py to the
sources in memory and run all obligations and rules.
"""
import os, sys, time
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'dev'))
sys.setrecursionlimit(20000)
import check
from vsa import oblig, findings
from vsa.engine import load_sources
from refactors import REF
from refactors2 import REF2, apply
from refactors3 import REF3
from refactors4 import REF4
from refactors5 import REF5
check.load_props()
from common import affected
import ast
SRC = load_sources()
KN = findings.known()
REPO = '/repo/'


def one(item):
    name, edits = item
    src = dict(SRC)
    text = {}
    for f, o, n in edits:
        mod = 'flowtracks.' + f[:-3]
        t = text.get(mod) or open(REPO + 'flowtracks/' + f).read()
        if name[:2] in ('2-', '3-', '4-', '5-') and not isinstance(o, tuple):
            text[mod] = apply(t, o, n)
            continue
        o = o[0] if isinstance(o, tuple) else o
        if t.count(o) != 1:
            return name, 'EDIT %d' % t.count(o), []
        text[mod] = t.replace(o, n)
    for mod, t in text.items():
        src[mod] = (SRC[mod][0], ast.parse(t))
    out = []
    for o in affected(SRC, src):
        t0 = time.time()
        v = oblig.run(o, src)
        dt = time.time() - t0
        if v.status != 'eq' or dt > 20:
            out.append((v.status, o.prop, o.name, str(v.why)[:70]))
    for p, n, f in findings.RULES:
        r = f(src)
        for x in r.findings:
            if (p, x.key) not in KN:
                out.append(('diff', p, n, x.text[:70]))
    return name, '', out


if __name__ == '__main__':
    only = set(sys.argv[1:])
    items = [i for i in REF + REF2 + REF3 + REF4 + REF5 if not only or i[0] in only or
             any(o.endswith("*") and i[0].startswith(o[:-1]) for o in only)]
    c = {}
    affected(SRC, SRC)
    with Pool(8) as pool:
        for name, err, out in pool.imap(one, items):
            s = err or ('DIFF' if any(x[0] == 'diff' for x in out) else
                        'und' if out else 'eq')
            c[s] = c.get(s, 0) + 1
            if s != 'eq':
                print('%-5s %s' % (s, name), flush=True)
                for x in out[:6 if only else 3]:
                    print('        ', x)
    print(c)
