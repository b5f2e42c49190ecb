"""Storage of its own for every item (vsa/alias.py), for all functions."""
import ast

from vsa import alias
from vsa.findings import rule, Finding, Outcome

BAD = '''
def kept(frames):
    import numpy as np
    spans, rows, same = {}, [], [[]] * 3
    for fr in frames:
        span = np.r_[fr.time(), fr.time()]
        for t in fr.trajid():
            if t in spans:
                spans[t][1] = fr.time()
            else:
                spans[t] = span
    buf = np.zeros(3)
    for fr in frames:
        buf[0] = fr.time()
        rows.append(buf)
    for k in range(3):
        same[k].append(k)
    return spans, rows, same

def given(frames):
    out = []
    for fr in frames:
        out.append(fr.time())
        yield out

def fine(frames):
    import numpy as np
    spans, rows, same = {}, [], [[] for k in range(3)]
    for fr in frames:
        for t in fr.trajid():
            if t in spans:
                spans[t][1] = fr.time()
            else:
                spans[t] = np.r_[fr.time(), fr.time()]
    buf, arr = np.zeros(3), np.empty((4, 3))
    none = np.empty(0)
    for k, fr in enumerate(frames):
        buf[0] = fr.time()
        rows.append(buf.copy())
        arr[k] = buf
        rows.append(none)
    for k in range(3):
        same[k].append(k)
    return spans, rows, same, arr
'''


@rule('X05', 'storage of its own for every item')
def x05(sources):
    out = Outcome()
    found, looked, seen = alias.check(sources)
    for where, q, text in found:
        out.findings.append(Finding('storage of its own for every item',
                                    where, q, text))
    out.functions.update(seen)
    t = {'<bad>': ('<bad>', ast.parse(BAD))}
    got, _, _ = alias.check(t)
    bad = [x for x in got if x[1] != '<bad>.fine']
    out.samples = ['%s in %s' % x for x in sorted(
        (text, q) for w, q, text in bad)]
    out.examined = {'functions': len(seen), 'things kept in loops': looked,
                    'self-test: found of 4': len(bad),
                    'self-test: found where there is none':
                        len(got) - len(bad)}
    return out
