"""Replay a violation: python -m dst.replay FILE [--log]

Exit 1 and print the violation if it happens again, 0 if it does not."""
import json
import os
import sys


def main():
    path = sys.argv[1]
    want = "--log" in sys.argv
    r = json.load(open(path))
    pipe = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    from . import harness

    harness.twin_for(r["property"])
    harness.boot()
    mod = harness.load_prop(r["property"])
    for i in r.get("before", []):
        harness.execute(mod, harness.seed_of(r["property"], r["base"], i))
    if r.get("choices") is not None:
        o = harness.execute(mod, replay=r["choices"], want_log=True)
    else:
        o = harness.execute(mod, harness.seed_of(r["property"], r["base"], r["run"]), want_log=True)
    if want:
        for line in o.log:
            pipe.write(line + "\n")
    if o.error:
        pipe.write(o.error)
        pipe.flush()
        os._exit(2)
    pipe.write(json.dumps(dict(kind=o.kind, message=o.message, digest=o.digest, log=o.log[-400:])) + "\n")
    pipe.flush()
    os._exit(1 if o.kind else 0)


if __name__ == "__main__":
    main()
