"""Sensitivity of the obligations of a property:  sens.py PROP[,PROP] [limit]"""
import sys
sys.dont_write_bytecode = True
import check
check.load_props()
from vsa import sensitivity, oblig
from vsa.engine import load_sources
S = load_sources()
obs = [o for o in oblig.REG if o.prop in sys.argv[1].split(',')]
r = sensitivity.measure(obs, S, 1, 3000, int(sys.argv[2]) if len(sys.argv) > 2 else 150, verbose=True)
print(r['edits_tried'], r['edits_possible'], r['noticed'])
