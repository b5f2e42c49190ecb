"""python3 dev/show1.py REFACTOR|@patch OBSUBSTR [v]: obligation terms under one edit."""
import os, sys, ast, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'dev'))
sys.setrecursionlimit(20000)
import check
from vsa import oblig
from vsa.oblig import *
from refactors import REF
from refactors2 import REF2, apply
from refactors3 import REF3
from refactors4 import REF4
from refactors5 import REF5
check.load_props()
SRC = load_sources()
src = dict(SRC)
nm = sys.argv[1]
if nm.startswith('@'):
    d = tempfile.mkdtemp()
    shutil.copytree('/repo/flowtracks', d + '/flowtracks')
    subprocess.check_call(['patch', '-sp1', '-d', d, '-i', os.path.abspath(nm[1:])])
    for m in SRC:
        f = os.path.join(d, *m.split('.')) + '.py'
        if os.path.exists(f): src[m] = (SRC[m][0], ast.parse(open(f).read()))
    shutil.rmtree(d)
elif nm.startswith('%'):
    from try_bugs import edit
    from bugs import BUGS
    text, err = edit(dict(BUGS)[nm[1:]])
    for mod, t in text.items(): src[mod] = (SRC[mod][0], ast.parse(t))
else:
    text = {}
    for f, o, n in dict(REF + REF2 + REF3 + REF4 + REF5)[nm]:
        mod = 'flowtracks.' + f[:-3]
        t = text.get(mod) or open('/repo/flowtracks/' + f).read()
        if nm[:2] in ('2-', '3-', '4-', '5-') and not isinstance(o, tuple):
            text[mod] = apply(t, o, n)
            continue
        o = o[0] if isinstance(o, tuple) else o
        if t.count(o) != 1: print('EDIT', t.count(o))
        text[mod] = t.replace(o, n)
    for mod, t in text.items(): src[mod] = (SRC[mod][0], ast.parse(t))
for ob in oblig.REG:
    if sys.argv[2] not in ob.prop + ' ' + ob.name: continue
    v = oblig.run(ob, src)
    print('%-5s %s %s  %.1fs %s' % (v.status.upper(), ob.prop, ob.name, v.wall, v.why if v.status != EQ else ''))
    if v.status != EQ:
        if v.note: print(v.note)
        print('    at', v.where())
        print('    impl', show(v.a, 12) if v.a is not None else None)
        print('    spec', show(v.b, 12) if v.b is not None else None)
        if len(sys.argv) > 3:
            ri, rs = ob.last
            print('IMPL', show(ri.value, 30)); print('SPEC', show(rs.value, 30))
            for e in ri.events: print('  ei', e.kind, e.name, show(e.term,9) if isinstance(e.term,T) else e.term, '|', show(e.guard,6), e.src)
            for e in rs.events: print('  es', e.kind, e.name, show(e.term,9) if isinstance(e.term,T) else e.term, '|', show(e.guard,6), e.src)
