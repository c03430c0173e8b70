"""C26: is_alive against every answer and connection state, with all connection attempts seen."""
import logging
import threading

import requests

from psrpmon import clixml, gen, tls, values, wsmv
from psrpmon.core import Halt, Violation, short
from psrpmon.http import Cut, Front, Wire
from psrpmon.server import Server
from psrpmon.session import temper

logging.disable(logging.CRITICAL)
FAULTS = [5, 995, 2150858778, 2150858752, 2150859174, 2150858811, 2150859250, 0x80338028, 0x8033802A, 0x8033805A, 0x8033805C]
ANSWERS = ["alive", "alive", "alive", "state", "disconnected", "no-shell-element", "gone", "op-timeout", "fault", "http", "reauth", "denied",
           "timeout", "reset", "eof", "partial", "idle-drop", "session-closed", "deleted"]


class World:
    def __init__(self, case):
        self.case, self.r = case, case.rng
        r = self.r
        self.s = temper(Server(r), r)
        self.s.own_command_ids = False
        self.scheme = r.choice(["none", "basic", "ntlm", "ntlm", "negotiate"])
        self.proxied = r.random() < 0.35
        self.tls = r.random() < 0.3
        always = self.tls and self.scheme in ("ntlm", "negotiate") and r.random() < 0.4
        self.front = f = Front(self.s, self.scheme, encrypted=self.scheme in ("ntlm", "negotiate") and (always or not self.tls),
                               url="https://h.test:5986/wsman" if self.tls else None)
        if self.scheme == "none":
            kw = dict(auth="basic", encryption="never", username="u", password="p")
        elif self.scheme == "basic":
            kw = dict(auth="basic", encryption="never", username="user", password="pass")
        else:
            kw = dict(auth=self.scheme, username="DOM\\user", password="Passw0rd!")
        self.kw = dict(kw, ssl=self.tls, reconnection_retries=r.choice([0, 0, 1, 3]), reconnection_backoff=0.5)
        hosts = {"h.test": f}
        if self.proxied:
            self.kw["proxy"] = "http://proxy.test:3128"
            hosts = {"proxy.test": f, "h.test": f} if self.tls else {"proxy.test": f}
        if self.tls:
            if always:
                self.kw["encryption"] = "always"
            c = tls.certs()
            pair = c.leaf("good", ["DNS:h.test"])
            self.kw["cert_validation"] = r.choice([False, c.ca("ca")])
            if r.random() < 0.3:
                crt, key = c.leaf("client", ["DNS:user.test"], client=True)
                self.kw.update(certificate_pem=crt, certificate_key_pem=c.encrypted(key, "key pass"), certificate_key_password="key pass")
            self.wire = tls.TlsWire(hosts, lambda a: tls.server_context(*pair) if a[1] == 5986 else None)
        else:
            self.wire = Wire(hosts)
        self.plan = None
        self.seen = []
        self.s.before = self.before
        f.before = self.http
        f.close_after = lambda conn: self.close_next

        def on_pipeline(cmd):
            self.s.output(cmd, clixml.P("S", "out"))
            self.s.finish(cmd)
        self.s.on_pipeline = on_pipeline
        self.close_next = False
        self.side = None

    def wsman(self):
        from pypsrp.wsman import WSMan
        return WSMan("h.test", **self.kw)

    def http(self, conn, req):
        self.seen.append(("http", len(req.body)))
        if self.plan == "denied" and (req.body or self.scheme in ("ntlm", "negotiate")):
            conn.ok, conn.ctx = False, None
            return 401, {"WWW-Authenticate": {"none": 'Basic realm="x"', "basic": 'Basic realm="x"', "ntlm": "NTLM", "negotiate": "Negotiate"}[self.scheme]}, b""
        if self.plan == "reauth" and req.body and conn.ok:
            self.plan = None
            conn.ok, conn.ctx = False, None
        return None

    def before(self, req):
        self.seen.append((req.action, req.uri, req.shell_id, req.op_timeout, req.kw["timeout"]))
        if self.plan is None or req.action != "Get":
            return None
        p = self.plan
        r = self.r
        sh = self.s.shell_of(req)
        if self.side is not None:
            self.side()
        if p in ("timeout", "reset", "eof", "partial"):
            raise Cut(p, b"HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml\r\nContent-Length: 100000\r\n\r\n<s:En" if p == "partial" else b"")
        if p == "op-timeout":
            return wsmv.fault(req, wsmv.OP_TIMEOUT, "timed out")
        if p == "gone":
            return self.s.no_shell(req)
        if p == "fault":
            return wsmv.fault(req, self.code, "some trouble")
        if p == "http":
            return self.status, b"<html>no</html>"
        if p == "no-shell-element":
            return wsmv.reply(req, "")
        if p in ("state", "disconnected"):
            x = self.s.shell_xml(sh)
            at = "<rsp:State>%s</rsp:State>" % sh.state
            assert at in x
            if p == "disconnected":
                return wsmv.reply(req, x.replace(at, "<rsp:State>Disconnected</rsp:State>"))
            return wsmv.reply(req, x.replace(at, r.choice(["", "<rsp:State/>", "<rsp:State>Connected</rsp:State>", "<rsp:State>Connecting</rsp:State>"])))
        return None


def case_(case):
    from pypsrp.exceptions import AuthenticationError, WinRMTransportError, WSManFaultError
    from pypsrp.powershell import PowerShell, RunspacePool
    w = World(case)
    r, s, wire = w.r, w.s, w.wire
    asked = 0
    trace = []
    with wire:
        conn = w.wsman()
        other = w.wsman()
        pools, foreign = [], []

        def new_pool():
            p = RunspacePool(conn, max_runspaces=2)
            p.open()
            pools.append((p, s.all_shells[-1]))
        new_pool()
        for step in range(gen.few(r, [1, 2, 3, 5], [30])):
            if not pools or r.random() < 0.15:
                new_pool()
            if r.random() < 0.25 and w.scheme in ("none", "basic") and not w.tls:
                w.close_next = True
            p, sh = r.choice(pools)
            if r.random() < 0.5:
                out = PowerShell(p).add_script("x").invoke()
                case.check(out == ["out"], "pool-unusable", "before the check")
            w.close_next = False
            k = r.choice(ANSWERS)
            if w.tls and k in ("timeout", "partial"):      # would take real time
                k = "eof"
            trace.append(k)
            w.code, w.status = r.choice(FAULTS), r.choice([500, 503, 404, 400])
            wire_open = [x for x in wire.open if not x.closed and x not in foreign and (w.tls or not x.eof and not x.then_close)]
            timeout = r.choice([None, None, 1, 5, 100])
            if k == "idle-drop":
                wire.drop_all()
                wire_open = []
            elif k == "session-closed":
                conn.close()
                if w.tls:
                    for x in list(wire.socks):
                        x.thread.join(5)
                wire_open = []
            elif k == "deleted":
                s.shells.pop(sh.id, None)
            else:
                w.plan = k
            connected = bool(wire_open)
            n, m = len(wire.attempts), len(w.seen)
            w.side = None
            aside = {}
            if connected and k in ("alive", "fault", "disconnected") and not w.tls and r.random() < 0.3:
                def side():
                    # meanwhile another thread opens its own connection, which the check must not hinder
                    def run():
                        try:
                            plan, w.plan, w.side = w.plan, None, None
                            q = RunspacePool(other)
                            q.open()
                            aside["pool"] = (q, s.all_shells[-1])
                            w.plan = plan
                        except BaseException as e:     # noqa: B902
                            aside["error"] = e
                    was = len(wire.attempts)
                    t = threading.Thread(target=run)
                    t.start()
                    t.join()
                    foreign.extend(wire.socks[was:])
                    aside["attempts"] = len(wire.attempts) - was
                w.side = side
            w.close_next = w.side is None and not w.tls and k in ("alive", "state", "fault", "disconnected") and r.random() < 0.25
            got = err = None
            try:
                got = p.is_alive(timeout=timeout) if timeout is not None or r.random() < 0.5 else p.is_alive()
            except (Violation, Halt):
                raise
            except Exception as e:     # noqa: B902
                err = e
            if w.tls:
                wire.finish()
            w.plan = w.side = None
            w.close_next = False
            asked += 1
            if "error" in aside:
                e = aside["error"]
                if isinstance(e, (Violation, Halt)):
                    raise e
                raise Violation("other-thread-hindered", repr(e))
            what = "%s %s connection, %s%s, timeout %s (%s)" % (k, "open" if connected else "no", w.scheme + (" TLS" if w.tls else ""), " via proxy" if w.proxied else "", timeout, trace)
            opened = len(wire.attempts) - n - aside.get("attempts", 0)
            case.check(opened == 0, "connection-opened", lambda: "%d new connections: %s" % (opened, what))
            seen = w.seen[m:]
            if not aside:
                gets = [x for x in seen if x[0] != "http"]
                case.check(all(x[0] == "Get" and (x[2] or "").upper() == sh.id for x in gets) and len(gets) <= 1, "wrong-request", lambda: "%s: %s" % (what, gets))
                for x in gets:
                    case.eq(x[1], wsmv.SHELL_URI, "resource-uri", what)
                    case.eq(x[3], "PT%dS" % (timeout if timeout is not None else 20), "operation-timeout", what)
                    if not w.tls:
                        case.eq(x[4], 30 if timeout is None else timeout + 2, "http-timeout", what)
            if not connected:
                case.check(not seen, "request-without-connection", what)
                want = False
            elif k in ("alive", "state", "no-shell-element", "reauth"):
                want = True
            elif k in ("disconnected", "gone", "op-timeout", "timeout", "reset", "eof", "partial", "deleted"):
                want = False
            elif k == "fault":
                want = WSManFaultError
            elif k == "http":
                want = WinRMTransportError
            elif k == "denied":
                want = AuthenticationError
            if isinstance(want, bool):
                case.check(err is None, "wrong-outcome", lambda: "%r instead of %s: %s" % (err, want, what))
                case.eq(got, want, "wrong-outcome", what)
            else:
                case.check(type(err) is want, "wrong-outcome", lambda: "%r instead of %s: %s" % (err if err is not None else got, want.__name__, what))
                if k == "fault":
                    case.eq(err.code, w.code, "fault-code", what)
            case.eq(p.state, 3 if want is False else 2, "state-after-check", what)
            case.ctx.count("answer_" + k)
            case.ctx.count({True: "alive", False: "dead"}.get(want, "raised"))
            case.ctx.count("checks_without_connection", 0 if connected else 1)
            case.ctx.count("checks_over_tls", int(w.tls))
            if w.tls and not connected:
                case.ctx.count("checks_without_tls_connection")
            if "pool" in aside:
                case.ctx.count("other_threads")
                q, qs = aside["pool"]
                q.close()
                case.check(qs.id in s.gone, "other-thread-hindered", "its pool was not closed")
            if want is False:
                n, m = len(wire.attempts), len(w.seen)
                r.choice([p.close, lambda: p.__exit__(None, None, None)])()
                case.check(len(wire.attempts) == n and len(w.seen) == m, "closing-a-dead-pool", lambda: "%s: %s" % (what, w.seen[m:]))
                pools.remove((p, sh))
                if r.random() < 0.7:
                    new_pool()      # may open a connection again
                    case.eq(pools[-1][0].state, 2, "later-operation", what)
                    if not connected:
                        case.check(len(wire.attempts) > n, "later-operation", "no connection was opened")
                    case.ctx.count("connected_again")
            elif k != "reauth" or r.random() < 0.5:
                if r.random() < 0.5:
                    wire.drop_all()
                out = PowerShell(p).add_script("x").invoke()
                case.check(out == ["out"], "later-operation", what)
                case.ctx.count("used_afterwards")
        for p, sh in pools:
            p.close()
            case.check(sh.id in s.gone or sh.id not in s.shells, "later-operation", "not closed")
    case.note(checks=asked, answers=trace, scheme=w.scheme, proxied=w.proxied)
    case.key(trace, w.scheme, w.proxied, w.tls)


def main(ctx):
    ctx.rule("random sequences of answers, cut or lost connections, denied and repeated authentication, direct or through a proxy, plain or encrypted, for one or more "
             "pools on a connection; all connection attempts counted. distinct: sequence of answers, scheme, proxy.")
    ctx.assumptions.append("connections are simulated below http.client or, with TLS, run over socket pairs; answers that take real time are left out with TLS")
    ctx.each("alive", 240, 20000, case_)
    for k, n in [("alive", 50), ("dead", 80), ("raised", 20), ("checks_without_connection", 20), ("connected_again", 20), ("used_afterwards", 20), ("other_threads", 3), ("checks_over_tls", 20),
                 ("checks_without_tls_connection", 5)]:
        ctx.require(k, n)
