"""Runs the simulated runs first, first+stride, ... of a property and reports on a pipe."""
import gc
import json
import os
import sys


def main():
    pid, base, first, stride, total, deadline = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6])
    pipe = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)  # the solver prints there

    def say(**kw):
        pipe.write(json.dumps(kw) + "\n")
        pipe.flush()

    from . import harness, seams

    harness.twin_for(pid)
    harness.boot()
    mod = harness.load_prop(pid)
    start = harness._real_clock()
    done = []
    n = 0
    for i in range(first, total, stride):
        if harness._real_clock() - start > deadline:
            say(k="late", i=i)
            break
        say(k="s", i=i)
        o = harness.execute(mod, harness.seed_of(pid, base, i))
        n += 1
        if n % 20 == 0:
            gc.collect()
        done.append(i)
        if o.error:
            say(k="e", i=i, error=o.error)
        elif o.kind:
            say(k="v", i=i, kind=o.kind, message=o.message, taken=o.taken, before=done[:-1][-400:])
            if not known(pid, o):
                best, runs, ok = harness.shrink(mod, o.taken, o.kind, budget=float(os.environ.get("DST_SHRINK", "40")))
                o2 = harness.execute(mod, replay=best, want_log=True)
                say(k="m", i=i, kind=o2.kind, message=o2.message, taken=best, runs=runs, ok=ok and o2.kind == o.kind, digest=o2.digest)
                break
        say(
            k="d", i=i, x=o.digest, n=int(o.nontrivial), z=int(o.discarded), f=o.faults, p=o.probes, t=round(o.simtime, 3),
            sw=o.switches, ev=o.events, c=len(o.taken),
        )
    say(k="end")


def known(pid, o):
    from .findings import known_finding

    return known_finding(pid, o.kind, o.message) is not None


if __name__ == "__main__":
    main()
