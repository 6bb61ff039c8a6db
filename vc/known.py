"""known-findings.txt: genuine defects that are recorded and not repaired."""
import os


def lines_for(prop):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(l)
    return out
