"""Known findings: mechanisms listed in /verif/known_findings.txt.

A line "finding: property=C07 key=KEY text" lists a genuine defect of la that
was recorded and not repaired. Lines starting with "fixed:" suppress nothing.
"""
import os

_listed = None


def listed():
    global _listed
    if _listed is None:
        _listed = set()
        path = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), 'known_findings.txt')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    if line.startswith('finding:'):
                        w = line.split()
                        _listed.add((w[1].split('=')[1], w[2].split('=')[1]))
    return _listed


def finding(c, key, text):
    "The mechanism `key` failed: a violation unless it is listed."
    if (c.prop, key) not in listed():
        c.fail('%s: %s' % (key, text))
    if not hasattr(c, 'known'):
        c.known = {}
    c.known[key] = '%s: %s' % (key, text)
