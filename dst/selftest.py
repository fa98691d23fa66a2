"""One seed is one execution: the digests of runs must not depend on the process, the runs before, the load or string hashing.

python -m dst.selftest [runs] [properties...]
"""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from . import check


def digests(pid, first, stride, total, hashseed):
    e = check.env()
    e["PYTHONHASHSEED"] = str(hashseed)
    out = subprocess.run([check.PY, "-m", "dst.worker", pid, "1", str(first), str(stride), str(total), "3000"], stdout=subprocess.PIPE, cwd=check.ROOT, env=e).stdout
    got = {}
    for l in out.decode().splitlines():
        d = json.loads(l)
        if d["k"] in ("d", "e", "v"):
            got[d["i"]] = d.get("x") or "%s %s" % (d["k"], d.get("error") or d.get("message"))
    return got


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    pids = sys.argv[2:] or ["C%02d" % i for i in range(1, 19)]
    bad = 0
    with ThreadPoolExecutor(8) as pool:
        for pid in pids:
            ways = [(0, 1, n, 0), (0, 3, n, 0), (1, 3, n, 1), (2, 3, n, 12345), (0, 1, n, 7)]
            outs = list(pool.map(lambda w: digests(pid, *w), ways))
            ref = outs[0]
            diff = sorted({i for o in outs[1:] for i in o if o[i] != ref.get(i)})
            bad += len(diff)
            print(pid, "%d runs in %d ways" % (n, len(ways)), "differing runs: %s" % diff[:10] if diff else "same digests", flush=True)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
