"""C17: what is sent again after lost responses and failed connections, seen from the server, over the real HTTP stack."""
import base64
import logging
import re
import socket

import requests

from psrpmon import clixml, tls, values, wsmv
from psrpmon.core import Violation, short
from psrpmon.http import Cut, Front, Wire
from psrpmon.server import Server
from psrpmon.session import temper

logging.disable(logging.CRITICAL)
TIMEOUTS = ("timeout", "connect-timeout")
OPS = ["connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "reconnect", "send", "signal", "command"]


def gai():
    return socket.gaierror(-2, "Name or service not known")


CONNECT_ERRORS = {"refused": lambda: ConnectionRefusedError(111, "Connection refused"), "unreachable": lambda: OSError(113, "No route to host"),
                  "name": gai, "connect-timeout": lambda: socket.timeout("timed out")}


class Bench:
    """One client, one server, a fault plan and the trace of everything that happened."""

    def __init__(self, case, scheme, retries, backoff, over="http"):
        self.case, self.r = case, case.rng
        self.s = temper(Server(self.r), self.r)
        self.s.own_command_ids = False
        kw = {}
        if scheme == "none":
            self.front = Front(self.s, "none")
            kw = dict(auth="basic", encryption="never", username="u", password="p")
        elif scheme == "basic":
            self.front = Front(self.s, "basic")
            kw = dict(auth="basic", encryption="never", username="user", password="pass")
        else:
            self.front = Front(self.s, scheme, encrypted=over == "http")
            kw = dict(auth=scheme, username="DOM\\user", password="Passw0rd!")
        self.scheme = scheme
        self.kw = dict(kw, ssl=over != "http", reconnection_retries=retries, reconnection_backoff=backoff)
        self.backoff = backoff
        if over == "http":
            self.wire = Wire({"h.test": self.front})
        else:
            c = tls.certs()
            pair = c.leaf("good", ["DNS:h.test"])
            self.front.url = "https://h.test:5986/wsman"
            self.kw["cert_validation"] = self.r.choice([False, c.ca("ca")])
            if over == "https-key":
                crt, key = c.leaf("client", ["DNS:user.test"], client=True)
                self.kw.update(certificate_pem=crt, certificate_key_pem=c.encrypted(key, "key pass"), certificate_key_password="key pass")
            self.wire = tls.TlsWire({"h.test": self.front}, lambda a: tls.server_context(*pair))
        self.trace = []
        self.recorded = {}
        self.answered = set()
        self.plans = {}
        self.plan = lambda req: []
        self.auth_plan = lambda: None
        self.delivered = {}        # command id -> [(stream, bytes)]
        self.s.before, self.s.after = self.before, self.after
        self.front.before = self.http
        sleep = self.wire.clock.sleep
        self.wire.clock.sleep = lambda t: (self.trace.append(("sleep", t)), sleep(t))[1]
        self.drop_rate = 0

    def http(self, conn, req):
        if self.drop_rate and self.r.random() < self.drop_rate:
            self.drop_next = True
        if not req.body:
            k = self.auth_plan()
            if k:
                self.trace.append(("auth-fail", k))
                raise Cut(k)

    def before(self, req):
        mid = req.message_id
        again = mid in self.recorded or mid in self.plans
        self.trace.append(("send", mid, req.action, req.raw))
        if not again:
            self.plans[mid] = list(self.plan(req))
        p = self.plans[mid]
        if p and p[0][0] == "before":
            k = p.pop(0)[1]
            self.fail(mid, k)
        return self.recorded.get(mid)

    def fail(self, mid, k):
        if isinstance(k, int):
            raise RuntimeError
        self.trace.append(("fail", mid, k))
        raise Cut(k, b"HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml\r\nContent-Length: 100000\r\n\r\n<s:En" if k == "partial" else b"")

    def after(self, req, res):
        mid = req.message_id
        self.recorded.setdefault(mid, res)
        p = self.plans.get(mid)
        if p:
            k = p.pop(0)[1]
            if isinstance(k, int):
                self.trace.append(("status", mid, k))
                return k, b"busy"
            self.fail(mid, k)
        self.trace.append(("ok", mid, req.action))
        self.answered.add(mid)
        if req.action == "Receive":
            for m in re.finditer(rb'<rsp:Stream Name="(\w+)" CommandId="([^"]+)">([^<]*)<', res[1]):
                self.delivered.setdefault(m.group(2).decode().upper(), []).append((m.group(1).decode(), base64.b64decode(m.group(3))))
        return res

    def call(self, name, fn, first=None):
        """Runs one client call; checks the trace it left. first: the action of its only kind of request, if it has one."""
        start = len(self.trace)
        exc = None
        try:
            fn()
        except (requests.exceptions.RequestException,) as e:
            exc = e
        except Violation:
            raise
        except Exception as e:
            if type(e).__name__ != "WinRMTransportError":
                raise
            exc = e
        self.examine(name, self.trace[start:], exc, first)
        return exc

    def examine(self, name, ev, exc, first):
        c = self.case
        what = lambda: "%s: %s -> %r" % (name, [e[:3] if e[0] == "send" else e for e in ev], exc)
        fails, last, mid, action, raw, final = 0, None, None, None, None, None
        slept = 0.0
        for e in ev:
            if e[0] == "sleep":
                slept += e[1]
                continue
            if e[0] in ("connected",):
                continue
            if final is not None:
                raise Violation("sent-after-failure", what())
            if e[0] == "send":
                if fails and mid is not None:
                    c.check(e[1] == mid and e[3] == raw, "retry-differs", what)
                c.check(not (e[1] in self.done), "sent-again", what)
                mid, action, raw = e[1], e[2], e[3]
                if fails:
                    c.check(action == "Receive", "retried-" + str(action).lower(), what)
                    self.c_retry(fails, slept, last, what)
                    last, slept = slept, 0.0
            elif e[0] in ("auth-fail", "fail"):
                if e[0] == "auth-fail" and fails:
                    if mid is not None:
                        c.check(action == "Receive", "retried-" + str(action).lower(), what)
                    self.c_retry(fails, slept, last, what)
                    last, slept = slept, 0.0
                elif e[0] == "fail" and fails == 0:
                    slept = 0.0
                fails += 1
                k = e[-1]
                if e[0] == "fail":
                    self.seen_fail(mid)
                act = action if mid is not None else first
                if k not in TIMEOUTS:
                    final = k
                elif act is not None and act != "Receive":
                    final = k
                elif fails == 6:
                    final = k
                if e[0] == "auth-fail" and k not in TIMEOUTS:
                    final = k
                pending = k
            elif e[0] == "ok":
                self.done.add(e[1])
                fails, last, mid, slept = 0, None, None, 0.0
            elif e[0] == "status":
                self.done.add(e[1])
                final = e[2]
                fails = 0
        if final is None and fails and exc is not None:
            # an authentication request that timed out for an unknown message: it must not have been a receive
            c.check(first is None and mid is None, "not-retried", what)
            final = pending
        if final is None:
            c.check(exc is None and not fails, "unexpected-error", what)
            return
        if isinstance(final, int):
            c.check(type(exc).__name__ == "WinRMTransportError" and exc.code == final, "wrong-error", what)
        elif final in TIMEOUTS:
            c.check(isinstance(exc, requests.exceptions.Timeout), "time-out-not-surfaced", what)
            c.ctx.count("surfaced_" + str(action if mid is not None else first))
        else:
            c.check(isinstance(exc, requests.exceptions.RequestException) and not isinstance(exc, requests.exceptions.Timeout), "wrong-error", what)
        if mid is not None:
            self.done.add(mid)

    done = None

    def seen_fail(self, mid):
        self.case.ctx.count("lost")

    def c_retry(self, fails, slept, last, what):
        c = self.case
        c.check(fails <= 5, "too-many-retries", what)
        c.ctx.count("retry_%d" % fails)
        if self.backoff > 0:
            c.check(slept > (last or 0.0), "delay-not-growing", lambda: "delay %r after %r: %s" % (slept, last, what()))


def receive_plan(r, n=None):
    """How a receive poll fails before it succeeds: lost requests and lost responses."""
    n = r.choice([1, 1, 2, 3, 5]) if n is None else n
    return [(r.choice(["before", "after"]), "timeout") for _ in range(n)]


def other_plan(r, retries):
    k = r.choice(["timeout", "timeout", "timeout", "reset", "eof", "partial", 425, 429, 503, 500, 404])
    if isinstance(k, int):
        return [("after", k)]
    return [(r.choice(["before", "after"]), k)]


def session_case(case):
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.shell import Process, SignalCode, WinRS
    from pypsrp.wsman import WSMan
    r = case.rng
    retries = r.choice([0, 0, 1, 3])
    b = Bench(case, r.choice(["none", "basic", "ntlm", "negotiate"]), retries, r.choice([2.0, 2.0, 0.5, 10.0, 1, 0]))
    b.done = set()
    s = b.s
    rate = r.choice([0.1, 0.3, 0.6])
    hard = r.random() < 0.5       # faults that surface are allowed

    def plan(req):
        if r.random() > rate:
            return []
        if req.action == "Receive":
            if hard and r.random() < 0.15:
                return [("before", "timeout")] * 6
            if hard and r.random() < 0.1:
                return other_plan(r, retries) if r.random() < 0.5 else [("before", "timeout"), ("before", "reset")]
            return receive_plan(r)
        if hard and r.random() < 0.5 and req.action in armed:
            return other_plan(r, retries)
        return []
    armed = set()
    if b.scheme in ("ntlm", "negotiate") and hard and r.random() < 0.4:
        b.auth_plan = lambda: "timeout" if r.random() < 0.08 else None
    if r.random() < 0.3:
        b.front.close_after = lambda conn: bool(b.front.requests[-1].body) and r.random() < 0.3
    b.plan = plan
    kind = r.choice(["winrs", "winrs", "pool", "ops"])
    case.key((kind, b.scheme, retries, rate, hard, r.random()))
    case.note(kind=kind, scheme=b.scheme, hard=hard)
    with b.wire:
        w = WSMan("h.test", **b.kw)
        if kind == "ops":
            armed.update("Connect Create Disconnect Delete Enumerate Get Pull Put Reconnect Send Signal Command".split())
            ok = lambda req: wsmv.reply(req, "<a/>")
            for a in OPS + ["receive"]:
                setattr(s, "do_" + a, ok)
            import xml.etree.ElementTree as ET
            for i in range(r.choice([3, 8, 15])):
                op = r.choice(OPS + ["receive", "receive", "receive"])
                b.call(op, lambda: getattr(w, op)("http://u", ET.Element("x"), timeout=r.choice([None, 5])), first=op.capitalize())
                case.ctx.count("calls_" + op)
            return
        if kind == "winrs":
            want = {}

            def on_command(cmd):
                for i in range(r.choice([0, 1, 3, 6])):
                    cmd.queue.append(("R", [(r.choice(["stdout", "stderr"]), r.randbytes(r.choice([0, 1, 10, 300]))) for _ in range(r.choice([0, 1, 2, 3]))],
                                      "Running", None))
                    if r.random() < 0.1:
                        cmd.queue.append(("T",))
                cmd.queue.append(("R", [("stdout", b"end")], "Done", 7))
            s.on_command = on_command
            armed.update(["Command", "Send", "Signal"])
            sh = WinRS(w)
            if b.call("open", sh.open, "Create") is not None:
                return
            for _ in range(r.choice([1, 2])):
                p = Process(sh, "cmd", ["x"])
                n = len(s.requests("Command"))
                if b.call("begin", p.begin_invoke, "Command") is not None:
                    continue
                cmd = s.shells[sh.id.upper()].last_command
                for _ in range(60):
                    if str(p.state).endswith("/Done"):
                        break
                    k = r.random()
                    if k < 0.1:
                        b.call("send", lambda: p.send(b"in", end=False), "Send")
                    elif k < 0.15:
                        b.call("signal", lambda: p.signal(SignalCode.CTRL_BREAK), "Signal")
                    else:
                        if b.call("poll", p.poll_invoke, "Receive") is not None:
                            if not any(x for x in cmd.queue):
                                break
                    got = b.delivered.get(cmd.id.upper(), [])
                    for name, have in (("stdout", p.stdout), ("stderr", p.stderr)):
                        exp = b"".join(d for n2, d in got if n2 == name)
                        case.check(have == exp, "data-not-once", lambda: "%s %s: %s, delivered %s" % (b.scheme, name, short(have), short(exp)))
                    case.ctx.count("winrs_polls")
                if str(p.state).endswith("/Done"):
                    case.ctx.count("winrs_done")
                    case.eq(p.rc, 7, "exit-code", "")
            return
        pool = RunspacePool(w)
        if b.call("open pool", pool.open) is not None:
            return
        scripts = {}

        def on_pipeline(cmd):
            vs = [values.received(r, 1) for _ in range(r.choice([0, 1, 4, 9]))]
            scripts[cmd.pid] = vs
            for v in vs:
                s.push(cmd, "PIPELINE_OUTPUT", v)
                if r.random() < 0.1:
                    cmd.queue.append(("T",))
            s.finish(cmd, 4)
        s.on_pipeline = on_pipeline
        armed.update(["Command", "Signal"])
        for _ in range(r.choice([1, 2])):
            ps = PowerShell(pool)
            ps.add_script("x")
            if b.call("begin", ps.begin_invoke, "Command") is not None:
                return
            cmd = s.shells[pool.id.upper()].last_command
            for _ in range(200):
                if ps.state >= 3:
                    break
                exc = b.call("poll", ps.poll_invoke, "Receive")
                if exc is not None and b.trace[-1][0] != "ok" and any(e[0] == "send" and e[1] in b.recorded and e[1] not in b.answered for e in b.trace):
                    return     # a response may be gone for good
            vs = scripts[cmd.pid]
            case.check(len(ps.output) == len(vs), "data-not-once", lambda: "%d objects, emitted %d" % (len(ps.output), len(vs)))
            for i, (g, v) in enumerate(zip(ps.output, vs)):
                d = clixml.match(g, v)
                case.check(d is None, "data-not-once", lambda: "object %d: %s" % (i, d))
            case.ctx.count("pipelines")


def connect_case(case):
    """Failures to establish a connection: attempts and delays against the configuration."""
    import xml.etree.ElementTree as ET

    from pypsrp.wsman import WSMan
    r = case.rng
    retries = r.choice([0, 1, 2, 3, 5, 8])
    backoff = r.choice([2.0, 0.5, 1, 10.0, 0, 0.1])
    over = r.choice(["http"] * 4 + ["https", "https-key"])
    b = Bench(case, r.choice(["none", "basic", "ntlm"]), retries, backoff, over)
    case.ctx.count("connect_over_" + over)
    b.done = set()
    s = b.s
    ok = lambda req: wsmv.reply(req, "<a/>")
    for a in OPS + ["receive"]:
        setattr(s, "do_" + a, ok)
    planned = []
    log = []      # per connection attempt: kind of failure or None

    def refuse(host, port):
        k = planned.pop(0) if planned else None
        log.append(k)
        b.trace.append(("attempt", k))
        return CONNECT_ERRORS[k]() if k else None
    b.wire.refuse = refuse
    trace = []
    with b.wire:
        w = WSMan("h.test", **b.kw)
        for i in range(r.choice([1, 2, 4])):
            op = r.choice(OPS + ["receive"] * 6)
            b.wire.drop_all()
            mixed = r.random() < 0.3
            n = r.choice([0, 1, retries, retries + 1, max(0, retries - 1), 2 * retries + 2, 6 * retries + 6, 6 * retries + 5])
            one = r.choice(list(CONNECT_ERRORS))
            if op == "receive" and r.random() < 0.6:
                one = "connect-timeout"
            planned[:] = [r.choice(list(CONNECT_ERRORS)) if mixed else one for _ in range(n)]
            plan = list(planned)
            # what must happen
            rounds, left, outcome = [], list(plan), None
            limit = 6 if op == "receive" else 1
            while True:
                f = []
                while left and len(f) < retries + 1:
                    f.append(left.pop(0))
                rounds.append(f)
                if len(f) < retries + 1:
                    outcome = "ok"
                    break
                if f[-1] != "connect-timeout" or len(rounds) == limit:
                    outcome = f[-1]
                    break
            del b.trace[:]
            del log[:]
            exc = None
            try:
                getattr(w, op)("http://u", ET.Element("x"))
            except requests.exceptions.RequestException as e:
                exc = e
            if over != "http":
                b.wire.finish()
            what = "%s, %d retries, backoff %r, failures %s: %s -> %r" % (op, retries, backoff, plan[:12], b.trace[:40], exc)
            sends = [e for e in b.trace if e[0] == "send"]
            if outcome == "ok":
                case.check(exc is None, "gave-up", lambda: what)
                case.check(len(sends) == 1, "sent-count", lambda: what)
                wanted = sum(map(len, rounds)) + 1
            else:
                case.check(isinstance(exc, requests.exceptions.ConnectionError), "wrong-error", lambda: what)
                case.check(isinstance(exc, requests.exceptions.ConnectTimeout) == (outcome == "connect-timeout"), "wrong-error", lambda: what)
                case.check(not sends, "sent-count", lambda: what)
                wanted = sum(map(len, rounds))
            case.eq(len(log), wanted, "attempts", what)
            # the delays inside each round and between rounds
            gaps, cur = [], 0.0
            seen = 0
            for e in b.trace:
                if e[0] == "sleep":
                    cur += e[1]
                elif e[0] == "attempt":
                    if seen:
                        gaps.append(cur)
                    seen += 1
                    cur = 0.0
            pos, prev_round = 0, 0.0
            for j, f in enumerate(rounds):
                inside = len(f) - 1 if len(f) == retries + 1 else len(f)
                g = gaps[pos:pos + inside]
                for i2, x in enumerate(g):
                    lo = min(120, backoff * 2 ** (i2 - 1)) if i2 else 0
                    hi = min(120, backoff * 2 ** (i2 + 1))
                    case.check(lo <= x <= hi, "connect-delay", lambda: "retry %d waited %r: %s" % (i2 + 1, x, what))
                pos += inside
                if j + 1 < len(rounds):
                    x = gaps[pos]
                    if backoff:
                        case.check(x > prev_round, "delay-not-growing", lambda: "%r after %r: %s" % (x, prev_round, what))
                    prev_round = x
                    pos += 1
                    case.ctx.count("rounds")
            trace.append((op, outcome, n))
            case.ctx.count("connect_" + ("ok" if outcome == "ok" else "failed"))
    case.note(retries=retries, backoff=backoff, trace=trace)
    case.key((retries, backoff, trace, over))


def main(ctx):
    ctx.rule("shells, processes, pools, pipelines and plain operations over the real HTTP stack on simulated connections, unencrypted and with NTLM "
             "encryption; random lost requests and responses, resets, truncated responses, HTTP errors and closed connections; the server replays the "
             "recorded response to a repeated message. distinct: fault plan of a session.")
    ctx.rule("connection failures of every kind before each operation, with random retry counts and backoff; distinct: settings and failure counts.")
    ctx.assumptions.append("the server answers a repeated message with the response it recorded; delays are measured in virtual time")
    ctx.each("sessions", 500, 30000, session_case)
    ctx.each("connections", 300, 15000, connect_case)
    for k, n in [("retry_1", 100), ("retry_5", 5), ("surfaced_Receive", 3), ("surfaced_Command", 3), ("winrs_polls", 100), ("pipelines", 20),
                 ("connect_ok", 50), ("connect_failed", 50), ("rounds", 20), ("connect_over_https", 10),
                 ("connect_over_https-key", 10)]:
        ctx.require(k, n)
