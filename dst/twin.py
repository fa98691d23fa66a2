"""Another interpreter (other hash seed, no seams), as a spawned worker on another machine would be.

Requests and replies are pickles with a length; nothing else is shared. Its entropy and clock are counters, so it is repeatable."""
import os
import pickle
import struct
import subprocess
import sys

PROC = None


def start():
    """Before any seam is installed."""
    global PROC
    env = dict(os.environ, PYTHONHASHSEED="4242")
    PROC = subprocess.Popen([sys.executable, "-m", "dst.twin"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def ask(req):
    fd_in, fd_out = PROC.stdin.fileno(), PROC.stdout.fileno()
    b = pickle.dumps(req, 4)
    _send(fd_in, b)
    return pickle.loads(_recv(fd_out))


def _send(fd, b):
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b) :]


def _recv(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError("the twin interpreter is gone")
            out += x
        return out

    return exactly(struct.unpack("<I", exactly(4))[0])


def main():
    import hashlib
    import time

    out = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    inp = os.dup(0)
    os.dup2(null, 0)
    count = [0]

    def urandom(n):
        count[0] += 1
        b = b""
        while len(b) < n:
            b += hashlib.sha256(b"%d/%d" % (count[0], len(b))).digest()
        return b[:n]

    from . import seams

    import numpy as np

    import warnings

    warnings.filterwarnings("ignore")
    sys.meta_path.insert(0, seams._Finder())
    import hadar

    from . import oracle, wf

    os.urandom = urandom
    ticks = [1.7e9]

    def clock():
        ticks[0] += 0.25
        return ticks[0]

    time.time = clock
    n = 0
    while True:
        try:
            req = pickle.loads(_recv(inp))
        except EOFError:
            os._exit(0)
        n += 1
        count[0] = req["entropy"]
        np.random.seed(req["entropy"] % 1000)
        try:
            stage = hadar.Fault(**req["kw"])
            frame = req["frame"]
            if req["how"] == "pipeline":
                stage = wf.chain([hadar.Clip(), stage], 1)
            rep = ("ok", oracle.frame_view(stage(frame)))
        except Exception as e:  # noqa
            rep = ("exc", "%s: %s" % (type(e).__name__, str(e)[:200]))
        _send(out, pickle.dumps(rep, 4))


if __name__ == "__main__":
    main()
