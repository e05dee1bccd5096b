"""Plans by property, and the known findings."""
import os
import re

from . import conv, growth, helpers, join, plans, preproc, raster, save, single

PLANS = {**plans.PLANS, **conv.PLANS, **save.PLANS, **single.PLANS, **join.PLANS, **preproc.PLANS,
         **raster.PLANS, **helpers.PLANS, **growth.PLANS}
FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def findings(pid):
    """(text, pattern) of the listed, unrepaired findings of a property."""
    out = []
    with open(FILE) as fh:
        for line in fh:
            m = re.match(r"KNOWN-FINDING: property=(\w+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(3), re.compile(m.group(2))))
    return out


def known(pid):
    return [p for _, p in findings(pid)]
