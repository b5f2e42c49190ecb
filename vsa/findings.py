"""
Findings of rules that are not obligations, and the committed list of known
ones.
"""
import os

RULES = []      # (property, rule name, function(sources) -> Outcome)


class Finding(object):
    """One construct that breaks a rule; ``key`` has no line numbers."""
    def __init__(self, rule, where, construct, text):
        self.rule, self.where = rule, where
        self.construct, self.text = construct, text

    @property
    def key(self):
        return '%s:%s' % (self.rule, self.construct)


class Outcome(object):
    """
    findings - violations
    examined - how many of what were looked at: {what: count}
    samples - some of them
    floor - the least number of each expected on this tree; a fall below is
        reported in the evidence (the rule then has nothing to say)
    undecided - constructs the rule could not judge
    """
    def __init__(self, findings=(), examined=None, samples=(), undecided=()):
        self.findings = list(findings)
        self.examined = dict(examined or {})
        self.samples = list(samples)
        self.undecided = list(undecided)
        self.functions = set()


def rule(prop, name):
    def deco(f):
        RULES.append((prop, name, f))
        return f
    return deco


def known(path=None):
    """{(property, key): text} of the findings listed as not repaired."""
    path = path or os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'KNOWN_FINDINGS')
    out = {}
    if not os.path.exists(path):
        return out
    with open(path, encoding='utf-8') as f:
        for ln in f:
            ln = ln.strip()
            if not ln.startswith('known:'):
                continue
            parts = dict(x.split('=', 1) for x in ln[6:].split(None, 2)[:2])
            out[(parts['property'], parts['key'])] = ln[6:].split(None, 2)[2]
    return out
