"""Show the outcome of obligations:  dbg.py MODULE [substring]"""
import sys, importlib, time
sys.path.insert(0, '/verif')
from vsa import oblig
from vsa.oblig import *
S = load_sources()
mods = sys.argv[1].split(',')
sub_ = sys.argv[2] if len(sys.argv) > 2 else ''
for m in mods:
    importlib.import_module('props.' + m)
for ob in oblig.REG:
    if sub_ and sub_ not in ob.prop + ' ' + ob.name:
        continue
    v = oblig.run(ob, S)
    print('%-5s %s %s  %.1fs %s' % (v.status.upper(), ob.prop, ob.name, v.wall, v.why if v.status != EQ else ''))
    if v.status != EQ:
        if v.note: print(v.note)
        print('    at', v.where())
        print('    impl', show(v.a, 12) if v.a is not None else None)
        print('    spec', show(v.b, 12) if v.b is not None else None)
        if len(sys.argv) > 3:
            ri, rs = ob.last
            print('IMPL', show(ri.value, 30)); print('SPEC', show(rs.value, 30))
            for e in ri.events: print('  ei', e.kind, e.name, show(e.term,9) if isinstance(e.term,T) else e.term, '|', show(e.guard,6), e.src)
            for e in rs.events: print('  es', e.kind, e.name, show(e.term,9) if isinstance(e.term,T) else e.term, '|', show(e.guard,6), e.src)
