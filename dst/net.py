"""Simulated HTTP transport and hadar server behind it."""
import io
import json
import socket
from urllib.parse import parse_qsl, unquote, urlsplit

from urllib3.exceptions import NewConnectionError

from . import seams

BASE = "http://hadar.sim:5000"


class Sock:
    """A simulated TCP connection: everything above it (requests, urllib3, http.client) is the real code."""

    def __init__(self, host, port, urllib3=None):
        self.host, self.port, self.urllib3 = host, port, urllib3
        self.timeout = None
        self.out = b""
        self.req = None
        self.fault = None

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return -1

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def sendall(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            data = b"".join(data)
        self.out += bytes(data)
        if self.req is None and b"\r\n\r\n" in self.out:
            seams.NET.leave(self)

    def send(self, data):
        self.sendall(data)
        return len(data)

    def makefile(self, mode="rb", buffering=None, **k):
        return io.BufferedReader(Incoming(self))


class Incoming(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock
        self.data = None

    def readable(self):
        return True

    def readinto(self, b):
        if self.data is None:
            self.data = io.BytesIO(seams.NET.exchange(self.sock))
        return self.data.readinto(b)


def connect(address, *a, **k):
    """In place of socket.create_connection"""
    if seams.ACTIVE is None:
        return seams.REAL["create_connection"](address, *a, **k)
    if seams.NET is None:
        raise ConnectionRefusedError(111, "Connection refused (no network in this simulation)")
    return Sock(address[0], address[1])


def new_conn(self):
    """In place of urllib3's HTTPConnection._new_conn"""
    if seams.ACTIVE is None:
        return seams.REAL["new_conn"](self)
    if seams.NET is None:
        raise NewConnectionError(self, "no network in this simulation")
    return Sock(self.host, self.port, self)


class Net:
    """Delivers requests to servers by host; draws latencies and faults."""

    def __init__(self, sim, ch):
        self.sim = sim
        self.ch = ch
        self.servers = {}
        self.requests = []  # every request that left a client: dict(t, task, method, url, ...)
        self.latency = ch.pick(["fast", "slow", "wild"], "latency profile")
        self.fault_for = lambda req: None  # property decides: kind or None

    def delay(self):
        if self.latency == "fast":
            return 0.01
        if self.latency == "slow":
            return 0.3
        return self.ch.pick([0.001, 0.05, 0.4, 3.0, 20.0, 45.0], "latency")

    def leave(self, sock):
        """The head of a request leaves a client: decide what happens to it."""
        s = self.sim
        head, _ = sock.out.split(b"\r\n\r\n", 1)
        lines = head.decode("latin-1").split("\r\n")
        method, target, _ = lines[0].split(" ", 2)
        headers = dict(h.split(": ", 1) for h in lines[1:])
        lower = {k.lower(): v for k, v in headers.items()}
        u = urlsplit(target)
        host = lower.get("host") or "%s:%s" % (sock.host, sock.port)
        if host not in self.servers and "%s:%s" % (sock.host, sock.port) in self.servers:
            host = "%s:%s" % (sock.host, sock.port)
        req = sock.req = dict(
            n=len(self.requests), t=s.now(), task=s.current.owner, method=method, scheme="http", host=host,
            path=unquote(u.path), query=dict(parse_qsl(u.query, keep_blank_values=True)), rawquery=u.query,
            body=None, headers=lower, processed=False, answered=None,
        )
        self.requests.append(req)
        s.note("request", method, target)
        sock.fault = self.fault_for(req)
        if sock.fault == "refused" or host not in self.servers:
            s.fault("connection refused")
            s.sleep(self.delay())
            if sock.urllib3 is not None:
                raise NewConnectionError(sock.urllib3, "Failed to establish a new connection: [Errno 111] Connection refused")
            raise ConnectionRefusedError(111, "Connection refused")

    def exchange(self, sock):
        """The client waits for the reply: its bytes"""
        s = self.sim
        req, fault, limit = sock.req, sock.fault, sock.timeout
        if req is None:
            raise ConnectionResetError(104, "Connection reset by peer")
        body = sock.out.split(b"\r\n\r\n", 1)[1]
        if "chunked" in req["headers"].get("transfer-encoding", ""):
            body = unchunk(body)
        req["body"] = body
        server = self.servers[req["host"]]

        def wait(d):
            if limit is not None and d > limit:
                s.sleep(limit)
                s.fault("read timeout")
                raise socket.timeout("timed out")
            s.sleep(d)

        if fault == "reset before":
            wait(self.delay())
            s.fault("connection reset before the server saw the request")
            raise ConnectionResetError(104, "Connection reset by peer")
        wait(self.delay())
        req["processed"] = True
        req["t_server"] = s.now()
        status, body, ctype = server.handle(req, fault)
        if fault == "reset after":
            wait(self.delay())
            s.fault("connection reset after the server processed the request")
            raise ConnectionResetError(104, "Connection reset by peer")
        if fault == "timeout":
            wait(60.0)
            s.fault("read timeout")
            raise TimeoutError(110, "Connection timed out")
        wait(self.delay())
        length = len(body)
        if fault == "truncated":
            s.fault("reply truncated")
            body = body[: self.ch.below(max(1, len(body)), "truncate at")]
        head = "HTTP/1.1 %d %s\r\nContent-Type: %s\r\nConnection: close\r\n" % (status, "X" if status >= 400 else "OK", ctype)
        if not (fault == "truncated" and self.ch.chance(50, "no length")):
            head += "Content-Length: %d\r\n" % length
        req["answered"] = status
        req["t_done"] = s.now()
        s.note("reply", status, len(body))
        return head.encode("latin-1") + b"\r\n" + body


def unchunk(b):
    out = b""
    while b:
        size, b = b.split(b"\r\n", 1)
        n = int(size, 16)
        if n == 0:
            break
        out += b[:n]
        b = b[n + 2:]
    return out


def whole(x):
    if isinstance(x, dict):
        return {k: whole(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [whole(v) for v in x]
    if isinstance(x, float) and abs(x) < 1e15 and x == int(x):
        return int(x)
    return x


class Job:
    def __init__(self, id, study, plan):
        self.id = id
        self.study = study
        self.plan = plan
        self.polls = 0
        self.result = None
        self.final_sent = None


class Server:
    """A hadar server: one submission endpoint, one result endpoint per job.

    script(n) gives the life of the n-th job: list of (status, progress) for successive polls or
    times; it ends with ("TERMINATED", ...) or ("ERROR", message).
    """

    def __init__(self, sim, ch, token, compute, lives, int_ids=True, prefix=""):
        self.sim = sim
        self.ch = ch
        self.token = token
        self.compute = compute  # fn(study json) -> result json (python objects)
        self.lives = lives  # list of Life
        self.jobs = {}
        self.prefix = prefix
        self.int_ids = int_ids
        self.submissions = []
        self.unknown = []
        self.on_submit = None  # fn(job, request), before anything else is done with it
        self.writer = ch.pick(["python", "python", "js", "pretty"], "JSON writer")

    def new_id(self):
        n = len(self.jobs)
        if self.int_ids:
            if n == 0 and self.ch.chance(10, "job 0"):
                return 0
            return 100 + 37 * n + self.ch.below(30, "job id")
        return "j%d-%x" % (n, self.ch.below(1 << 20, "job id"))

    def result_of(self, job):
        if job.result is None:
            job.result = self.compute(job)
        return job.result

    def leftovers(self, job, reply):
        """What a server may still say of a failed job."""
        how = self.ch.weighted([("nothing", 5), ("null", 1), ("result", 2), ("progress", 1)], "beside the message")
        if how == "null":
            reply["result"] = None
        elif how == "progress":
            reply["progress"] = 0
        elif how == "result" and self.compute is not None:
            reply["result"] = self.result_of(job)

    def _json(self, code, obj):
        """Servers are written in many languages: whole numbers without decimals, bare UTF-8, spaces"""
        if self.writer == "js":
            text = json.dumps(whole(obj), ensure_ascii=False, separators=(",", ":"))
        elif self.writer == "pretty":
            text = json.dumps(obj, indent=1)
        else:
            text = json.dumps(obj)
        return code, text.encode(), "application/json"

    def handle(self, req, fault):
        s = self.sim
        if fault in (403, 404, 500, 502, 503):
            s.fault("HTTP %d" % fault)
            return fault, (b"<html>error</html>" if fault != 500 else b"{\"message\": \"oops\"}"), "text/html"
        if fault == "500 then lost":
            s.fault("HTTP 500")
        path = req["path"]
        if req["method"] == "POST" and path == self.prefix + "/api/v1/study":
            if req["query"].get("token") != self.token:
                req["bad_token"] = True
                return 403, b"wrong token", "text/plain"
            body = req["body"]
            if isinstance(body, (bytes, bytearray)):
                body = body.decode("utf-8")
            study = json.loads(body)
            life = self.lives[min(len(self.submissions), len(self.lives) - 1)]
            job = Job(self.new_id(), study, life)
            job.submitted = s.now()
            job.prefix = self.prefix
            self.jobs[str(job.id)] = job
            self.submissions.append(job)
            life.start(s.now())
            if self.on_submit:
                self.on_submit(job, req)
            st, progress = life.state(s.now(), 0)
            if fault == 500.5:
                return 500, b"{}", "application/json"
            reply = {"job": job.id, "status": st, "progress": progress}
            if st in ("TERMINATED", "ERROR"):
                # the job was over before the reply left
                reply["progress"] = 0
                if st == "TERMINATED":
                    reply["result"] = self.result_of(job)
                else:
                    reply["message"] = progress
                    self.leftovers(job, reply)
                if fault is None:
                    job.final_sent = req["n"]
                    req["final"] = True
                req["status"] = st
            return self._maybe_bad(fault, reply)
        if req["method"] == "GET" and path.startswith(self.prefix + "/api/v1/result/"):
            if req["query"].get("token") != self.token:
                req["bad_token"] = True
                return 403, b"wrong token", "text/plain"
            jid = path[len(self.prefix + "/api/v1/result/"):]
            req["job"] = jid
            job = self.jobs.get(jid)
            if job is None:
                self.unknown.append(jid)
                return 404, b"no such job", "text/plain"
            job.polls += 1
            st, progress = job.plan.state(s.now(), job.polls)
            reply = {"job": job.id, "status": st, "progress": progress}
            if st == "TERMINATED":
                reply = {"job": job.id, "status": st, "result": self.result_of(job)}
            elif st == "ERROR":
                reply = {"job": job.id, "status": st, "message": progress}
                self.leftovers(job, reply)
            if st in ("TERMINATED", "ERROR") and fault is None:
                job.final_sent = req["n"]
                req["final"] = True
            req["status"] = st
            return self._maybe_bad(fault, reply)
        self.unknown.append(path)
        return 404, b"not found", "text/plain"

    def _maybe_bad(self, fault, reply):
        if fault == "html":
            self.sim.fault("reply is not JSON")
            return 200, b"<html>gateway</html>", "text/html"
        if fault == "empty":
            self.sim.fault("empty reply")
            return 200, b"", "application/json"
        if fault == "missing":
            self.sim.fault("reply misses its fields")
            return self._json(200, {"foo": 1})
        if fault == "null":
            self.sim.fault("reply is JSON null")
            return self._json(200, None)
        if fault == "list":
            self.sim.fault("reply is a JSON list")
            return self._json(200, [reply.get("job"), reply.get("status")])
        if fault in ("no result", "null result", "empty result", "partial result"):
            self.sim.fault("final answer without a proper result")
            out = {"job": reply.get("job"), "status": "TERMINATED"}
            if fault == "null result":
                out["result"] = None
            elif fault == "empty result":
                out["result"] = {}
            elif fault == "partial result" and isinstance(reply.get("result"), dict):
                keys = sorted(k for k in reply["result"] if k in ("networks", "converters"))
                drop = keys[self.ch.below(len(keys), "dropped part")]
                out["result"] = {k: v for k, v in reply["result"].items() if k != drop}
            return self._json(200, out)
        if fault == "weird status":
            self.sim.fault("unknown job status")
            return self._json(200, {"job": reply.get("job"), "status": "LOST", "progress": 0})
        return self._json(200, reply)


class Life:
    """Status of a job over time: [(duration, status, progress)...] then a final state."""

    def __init__(self, phases, final, message="", hold_polls=0):
        self.phases = phases
        self.final = final
        self.message = message
        self.t0 = None
        self.hold_polls = hold_polls

    def start(self, now):
        self.t0 = now

    def end(self):
        return self.t0 + sum(p[0] for p in self.phases)

    def state(self, now, polls):
        t = now - self.t0
        for d, st, pr in self.phases:
            if t < d:
                return st, pr
            t -= d
        if polls < self.hold_polls:
            return "COMPUTING", 0
        return self.final, self.message


def draw_life(ch, final=None, message=""):
    n = ch.below(5, "phases")
    phases = []
    for _ in range(n):
        st = ch.pick(["QUEUED", "COMPUTING", "QUEUED"], "phase")
        d = ch.pick([0.2, 0.6, 1.7, 4.0, 30.0, 0.05, 1.0, 120.0], "phase length")
        phases.append((d, st, (ch.pick([0, 1, 2, 3, 5, 40, 1000], "queue place") if st == "QUEUED" else 0)))
    if n == 0 and not ch.chance(25, "instant"):
        phases = [(0.005, "QUEUED", ch.below(3, "queue place"))]
    return Life(phases, final or "TERMINATED", message)
