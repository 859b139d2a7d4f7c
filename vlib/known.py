"""The known-findings file: 'known: property=<id> key=<key> <what fails>' and 'fixed: property=<id> <commit> <what failed>'."""
import os, re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS")
RX = re.compile(r'^known: property=(\S+) key=(\S+) (.*)$')


def load(prop):
    out = {}
    try:
        with open(FILE) as f:
            for line in f:
                m = RX.match(line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def matcher(prop, module):
    """Each finding has a recogniser in the check module: FINDINGS[key](sub, violation, src) -> bool."""
    keys = load(prop)
    for k in keys:
        print("KNOWN-FINDING: property=%s %s" % (prop, keys[k]))
    rec = getattr(module, "FINDINGS", {})

    def f(sub, v, src):
        for k in keys:
            if k in rec and rec[k](sub, v, src):
                return k
        return None
    return f if keys else None
