"""Decide one property: python -m dst.check <property>

Exit 0: held on every simulated run. Exit 1: VIOLATION line. Exit 2: the check itself failed."""
import json
import os
import select
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = sys.executable
STUCK = 100.0
REAL = [
    "hadar (whole package, from the repository's current source)", "numpy", "pandas", "msgpack", "requests, urllib3 and http.client (down to the socket)",
    "OR-Tools GLOP", "pickle", "plotly", "progress",
]
STUB = [
    "process pools and worker processes (simulated, jobs really pickled and run in a separate copy of the package's memory)",
    "caller threads (real threads, one at a time, scheduled by the simulator)", "clocks and sleeping", "operating system entropy",
    "HTTP transport and hadar server", "duration and failures of the solver",
]


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=e.get("DST_HASHSEED", "0"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=ROOT, MPLBACKEND="Agg")
    e.pop("PYTHONSTARTUP", None)
    return e


class W:
    def __init__(self, pid, base, first, stride, total, deadline):
        self.args = (pid, base, first, stride, total, deadline)
        self.stride = stride
        self.p = subprocess.Popen(
            [PY, "-m", "dst.worker"] + [str(a) for a in self.args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ROOT, env=env(),
        )
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.seen = time.monotonic()
        self.cur = None
        self.ended = False
        self.shrinking = False

    def read(self):
        try:
            data = os.read(self.p.stdout.fileno(), 1 << 20)
        except BlockingIOError:
            return [], False
        if not data:
            return [], True
        self.seen = time.monotonic()
        self.buf += data
        lines = self.buf.split(b"\n")
        self.buf = lines.pop()
        return [json.loads(x) for x in lines if x], False

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.p.stderr.close()
        except Exception:
            pass


def replay_once(path, timeout):
    """(status, report): 'yes' reproduced, 'no', 'stuck', 'crash', 'error'"""
    try:
        r = subprocess.run([PY, "-m", "dst.replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ROOT, env=env(), timeout=timeout)
    except subprocess.TimeoutExpired:
        return "stuck", {}
    if r.returncode in (0, 1):
        rep = json.loads(r.stdout.decode().strip().splitlines()[-1])
        return ("yes" if r.returncode == 1 else "no"), rep
    if r.returncode == 2:
        return "error", {"message": r.stdout.decode()[-2000:]}
    return "crash", {"message": r.stderr.decode()[-500:]}


def write_replay(path, **kw):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(kw, f, indent=1)
        f.write("\n")


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    base = os.environ.get("VERIF_SEED", "1")
    sys.path.insert(0, ROOT)
    info = subprocess.run(
        [PY, "-c", "import sys, json; sys.path.insert(0, %r); from dst.harness import load_prop; from dst import seams; seams.load(); m = load_prop(%r); print('@@' + json.dumps([m.RUNS, m.RULE]))" % (ROOT, pid)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), cwd=ROOT,
    )
    line = [x for x in info.stdout.decode().splitlines() if x.startswith("@@")]
    if not line:
        sys.stderr.write(info.stderr.decode()[-3000:])
        print("ERROR: the code under test cannot be loaded")
        return 2
    runs, rule = json.loads(line[0][2:])
    total = int(os.environ.get("DST_RUNS", runs[tier]))
    deadline = float(os.environ.get("DST_DEADLINE", 420 if tier == "quick" else 14400))
    nw = int(os.environ.get("DST_WORKERS", min(8, len(os.sched_getaffinity(0)))))
    nw = max(1, min(nw, total))
    t0 = time.monotonic()
    ws = [W(pid, base, k, nw, total, deadline) for k in range(nw)]
    st = dict(runs=0, nontrivial=0, discarded=0, simtime=0.0, faults={}, probes={}, switches=0, events=0, choices=0)
    digests, nt_digests, samples, errors, known = set(), set(), [], [], {}
    viol, mini, late, trouble = None, None, 0, []

    def take(w, m):
        nonlocal viol, mini, late
        k = m["k"]
        if k == "s":
            w.cur = m["i"]
        elif k == "d":
            st["runs"] += 1
            st["nontrivial"] += m["n"]
            st["discarded"] += m["z"]
            st["simtime"] += m["t"]
            st["switches"] += m["sw"]
            st["events"] += m["ev"]
            st["choices"] += m["c"]
            digests.add(m["x"])
            if m["n"] and not m["z"]:
                nt_digests.add(m["x"])
            for a in ("f", "p"):
                tgt = st["faults" if a == "f" else "probes"]
                for kk, v in m[a].items():
                    tgt[kk] = tgt.get(kk, 0) + v
            if len(samples) < 3 and m["n"]:
                samples.append(dict(seed="%s/%s/%d" % (pid, base, m["i"]), decisions=m["c"], events=m["ev"], simulated_s=m["t"], faults=m["f"], digest=m["x"]))
        elif k == "e":
            errors.append((m["i"], m["error"]))
        elif k == "v":
            from dst.findings import known_finding

            f = known_finding(pid, m["kind"], m["message"])
            if f:
                known[f] = known.get(f, 0) + 1
            elif viol is None:
                viol = m
                w.shrinking = True
        elif k == "m":
            if viol is not None and m["i"] == viol["i"]:
                mini = m
        elif k == "late":
            late += 1
        elif k == "end":
            w.ended = True

    def restart(w, why):
        """A worker died or got stuck in run w.cur: decide whether the code under test is to blame."""
        nonlocal viol
        i = w.cur
        ws.remove(w)
        w.kill()
        if i is None:
            trouble.append("a worker did not start (%s)" % why)
            return
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, why))
        write_replay(path, property=pid, base=base, run=i, kind=why)
        again = [replay_once(path, STUCK + 20)[0] for _ in range(2)]
        if all(a == why for a in again):
            if viol is None:
                viol = dict(i=i, kind=why, message="simulated run %d makes the process %s" % (i, "loop without end" if why == "stuck" else "crash"), taken=None, path=path)
            return
        trouble.append("run %d: worker %s, not reproduced (%s)" % (i, why, again))
        left = deadline - (time.monotonic() - t0)
        if left > 5 and i + w.stride < total and len(trouble) < 6:
            ws.append(W(pid, base, i + w.stride, w.stride, total, left))

    while ws:
        fds = {w.p.stdout.fileno(): w for w in ws}
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            w = fds[fd]
            msgs, eof = w.read()
            for m in msgs:
                take(w, m)
            if eof:
                w.p.wait()
                if w.ended:
                    ws.remove(w)
                    w.kill()
                elif not (viol and not w.shrinking):
                    restart(w, "crash")
        if viol is not None:
            for w in list(ws):
                if not w.shrinking:
                    w.kill()
                    ws.remove(w)
        for w in list(ws):
            limit = 200.0 if w.shrinking else STUCK
            if time.monotonic() - w.seen > limit:
                if w.shrinking:
                    w.kill()
                    ws.remove(w)
                else:
                    restart(w, "stuck")
    wall = time.monotonic() - t0

    code, replay = 0, None
    if viol is not None:
        replay = viol.get("path") or os.path.join(ROOT, "replays", "%s-%s-%d.json" % (pid, base, viol["i"]))
        confirmed = bool(viol.get("path"))
        common = dict(property=pid, base=base, run=viol["i"], seed="%s/%s/%d" % (pid, base, viol["i"]), tier=tier)
        rep = {}
        if not confirmed and mini and mini["ok"]:
            write_replay(replay, kind=mini["kind"], message=mini["message"], choices=mini["taken"], **common)
            s, rep = replay_once(replay, 200)
            confirmed = s == "yes" and rep["kind"] == mini["kind"]
        if not confirmed:
            write_replay(replay, kind=viol["kind"], message=viol["message"], choices=viol["taken"], **common)
            s, rep = replay_once(replay, 200)
            confirmed = s == "yes"
        if not confirmed and viol.get("before"):
            write_replay(replay, kind=viol["kind"], message=viol["message"], choices=viol["taken"], before=viol["before"], **common)
            s, rep = replay_once(replay, 400)
            confirmed = s == "yes"
        if confirmed:
            if rep:
                r = json.load(open(replay))
                r["kind"], r["message"], r["digest"], r["trace"] = rep["kind"], rep["message"], rep["digest"], rep["log"]
                write_replay(replay, **r)
            code = 1
            print("violation of %s: %s: %s" % (pid, rep.get("kind", viol["kind"]), rep.get("message", viol["message"])))
            print("seed %s, %s choices after shrinking, replay with: bash %s/replay.sh %s" % (common["seed"], len(mini["taken"]) if mini and mini["ok"] else "all", ROOT, replay))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        else:
            print("ERROR: run %d failed (%s: %s) but its replay does not" % (viol["i"], viol["kind"], viol["message"]))
            code = 2
    for f, n in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, f, n))
    if errors:
        sys.stderr.write("harness error in run %d:\n%s\n" % errors[0])
        few = len(errors) * 100 <= st["runs"]
        print("%s: %d runs hit a harness error and count as not explored" % ("note" if few else "ERROR", len(errors)))
        if not few:
            code = code or 2
    if trouble:
        print("note: " + "; ".join(trouble))
    if code == 0 and st["runs"] - st["discarded"] < max(1, min(total, 20) // 4):
        print("ERROR: only %d of %d runs were conclusive" % (st["runs"] - st["discarded"], total))
        code = 2

    ev = dict(
        property=pid, tier=tier, seed=int(base) if base.lstrip("-").isdigit() else 0, level="exploration",
        coverage=dict(
            evaluations=st["runs"], distinct_nontrivial=len(nt_digests), rule=rule, samples=samples or ["none"],
            discarded_runs=st["discarded"], runs_per_hour=int(st["runs"] / max(wall, 1e-6) * 3600), simulated_seconds=round(st["simtime"], 1),
            faults_injected=st["faults"], task_switches=st["switches"], simulator_events=st["events"], random_decisions=st["choices"],
            distinct_histories=len(digests), distinct_measure="sha256 of the run's event history (requests, jobs, completions, faults, switches)",
            probes=st["probes"], components_real=REAL, components_simulated=STUB, workers=nw, stopped_by_deadline=bool(late),
            harness_errors=len(errors), known_findings=sum(known.values()),
        ),
        assumptions=[
            "the simulated pools, clocks, entropy and HTTP transport behave like the real ones", "GLOP solves linear programs correctly",
            "sampled schedules, faults and inputs: absence of a violation is not a proof",
        ],
        wall_s=round(wall, 2), violations=1 if code == 1 else 0,
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(
        "%s %s: %d runs (%d discarded), %d distinct non-trivial histories, %d faults, %.0f simulated s, %.1f s"
        % (pid, tier, st["runs"], st["discarded"], len(nt_digests), sum(st["faults"].values()), st["simtime"], wall)
    )
    return code


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
