"""Known findings of the unchanged tree, read from /verif/KNOWN_FINDINGS.txt (never written here).

Lines `finding: property=<id> kind=<kind> match=<regex> -- <what fails>` silence exactly the violations
of that kind whose message matches; lines `fixed: ...` are records and silence nothing.
"""
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")


def findings():
    out = []
    if os.path.exists(FILE):
        for line in open(FILE, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) -- (.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out


def known_finding(pid, kind, message):
    for p, k, rx, text in findings():
        if p == pid and k == kind and re.search(rx, message):
            return text
    return None
