"""C16: every request of an operation or session, read by an independent parser, against what the caller asked for."""
import re
import xml.etree.ElementTree as ET

from psrpmon import gen, wsmv
from psrpmon.clixml import xml_text
from psrpmon.core import short
from psrpmon.server import Net, Server, connection
from psrpmon.wsmv import LANG, NS, Req, envelope, q

OPS = {"command": "Command", "connect": "Connect", "create": "Create", "disconnect": "Disconnect", "delete": "Delete", "enumerate": "Enumerate",
       "get": "Get", "pull": "Pull", "put": "Put", "receive": "Receive", "reconnect": "Reconnect", "send": "Send", "signal": "Signal"}
MU = q("s:mustUnderstand")
ANON = "http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous"
UUID = re.compile(r"^uuid:[0-9A-Fa-f]{8}(-[0-9A-Fa-f]{4}){3}-[0-9A-Fa-f]{12}$")
TEXTS = ["", "a", "a<b>&amp;\"c'", "]]>", "<![CDATA[x]]>", "&#13;", " lead and trail ", "two\nlines", "tab\there", "cr\rlf\r\nend", "\u00e9\u65e5\U0001f600",
         "x" * 5000, "\u00a0\u2028", "http://x/?a=1&b=2", "%41+", "\x85\u007f"]


def text(r):
    return r.choice(TEXTS) if r.random() < 0.7 else "".join(r.choice("ab<>&\"' \n\r\t\u00e9\u20ac\U00010348]") for _ in range(r.randint(1, 20)))


def tree(r, depth=3):
    e = ET.Element(r.choice(["{%s}X" % NS["rsp"], "{%s}Y" % NS["w"], "{http://other/ns}Z", "plain", "{%s}Header" % NS["s"], "{%s}Selector" % NS["w"]]))
    for _ in range(r.choice([0, 0, 1, 2])):
        e.set(r.choice(["Name", "a", "{http://other/ns}b", LANG]), text(r))
    if r.random() < 0.6:
        e.text = text(r)
    if depth:
        for _ in range(r.choice([0, 1, 2, 3])):
            c = tree(r, depth - 1)
            if r.random() < 0.3:
                c.tail = text(r)
            e.append(c)
    return e


def picture(e):
    return (e.tag, sorted(e.attrib.items()), e.text or "", [(picture(c), c.tail or "") for c in e])


class Conn:
    """The connection as configured."""

    def __init__(self, r, host):
        self.kw = {}
        self.locale = self.data_locale = "en-US"
        if r.random() < 0.5:
            self.locale = self.data_locale = self.kw["locale"] = r.choice(["de-DE", "ja-JP", "en-GB", "x"])
        if r.random() < 0.4:
            self.data_locale = self.kw["data_locale"] = r.choice(["fr-FR", "en-AU"])
        self.size = 153600
        if r.random() < 0.5:
            self.size = self.kw["max_envelope_size"] = r.choice([51200, 153600, 512000, 8192 * 1024, 100001])
        self.timeout = 20
        if r.random() < 0.5:
            self.timeout = self.kw["operation_timeout"] = r.choice([1, 5, 20, 60, 3600])
        self.connect, self.read = 30, 30
        if r.random() < 0.4:
            self.connect = self.kw["connection_timeout"] = r.choice([1, 10, 100])
        if r.random() < 0.4:
            self.read = self.kw["read_timeout"] = r.choice([2, 45, 4000])
        self.path = "wsman"
        if r.random() < 0.4:
            self.path = self.kw["path"] = r.choice(["PowerShell", "a/b", "x&y=<z>", "wsman2"])
        self.port = 5985
        if r.random() < 0.4:
            self.port = self.kw["port"] = r.choice([80, 55985, 1])
        if r.random() < 0.2:
            self.kw["ssl"] = True
            self.port = self.kw.get("port", 5986)
        self.endpoint = "%s://%s:%d/%s" % ("https" if self.kw.get("ssl") else "http", host, self.port, self.path)
        self.session = None
        self.ids = set()


def check_envelope(case, c, req, what, action=None, uri=None, options=None, selectors=None, timeout=None):
    """c: Conn; options/selectors as [(name, value, attributes)] or None for an absent set."""
    h = req.header
    case.check(h is not None and len(req.bodies) == 1 and [e.tag for e in req.env] == [q("s:Header"), q("s:Body")], "envelope-parts",
               lambda: "%s: %s" % (what, [e.tag for e in req.env]))
    tags = sorted(e.tag for e in h)
    want = [q(t) for t in ("a:Action", "p:DataLocale", "w:Locale", "w:MaxEnvelopeSize", "a:MessageID", "w:OperationTimeout", "a:ReplyTo",
                           "w:ResourceURI", "p:SessionId", "a:To")]
    has = [t for t, v in (("w:OptionSet", options), ("w:SelectorSet", selectors)) if v is not None]
    case.check(tags == sorted(want + [q(t) for t in has]), "header-elements", lambda: "%s: %s" % (what, tags))
    if action is not None:
        case.eq(req.action, action, "action", what)
    if uri is not None:
        case.eq(req.uri, uri, "resource-uri", what)
    case.eq(req.to, c.endpoint, "endpoint", what)
    case.eq(h.find(q("w:Locale")).attrib.get(LANG), c.locale, "locale", what)
    case.eq(h.find(q("p:DataLocale")).attrib.get(LANG), c.data_locale, "data-locale", what)
    case.eq(req.max_size, str(c.size), "envelope-size", what)
    case.eq(req.op_timeout, "PT%dS" % (timeout or c.timeout), "operation-timeout", what)
    case.eq(h.find(q("a:ReplyTo") + "/" + q("a:Address")).text, ANON, "reply-to", what)
    case.check(bool(UUID.match(req.message_id or "")) and req.message_id.upper() not in c.ids, "message-id", lambda: "%s: %s" % (what, req.message_id))
    c.ids.add(req.message_id.upper())
    if c.session is None:
        c.session = req.session_id
    case.check(bool(UUID.match(req.session_id or "")), "session-id", lambda: "%s: %s" % (what, req.session_id))
    case.eq(req.session_id, c.session, "session-id", what)
    for n in ("a:Action", "w:MaxEnvelopeSize", "w:ResourceURI"):
        case.eq(h.find(q(n)).attrib.get(MU), "true", "must-understand", "%s %s" % (what, n))
    for n in ("p:DataLocale", "w:Locale", "p:SessionId"):
        case.eq(h.find(q(n)).attrib.get(MU), "false", "must-understand", "%s %s" % (what, n))
    for n, v in (("Option", options), ("Selector", selectors)):
        if v is not None:
            s = h.find(q("w:%sSet" % n))
            got = [(e.tag, e.attrib.get("Name"), e.text or "", {k: x for k, x in e.attrib.items() if k != "Name"}) for e in s]
            case.check(got == [(q("w:" + n), a, str(b), d) for a, b, d in v], n.lower() + "s", lambda: "%s: got %s, want %s" % (what, got, v))
            case.eq(s.attrib.get(MU), "true" if n == "Option" else None, "must-understand", "%s %sSet" % (what, n))
    # the HTTP request itself
    case.eq(req.url, c.url, "http-url", what)
    ct = req.headers.get("Content-Type", "").lower().replace(" ", "")
    case.eq(ct, "application/soap+xml;charset=utf-8", "content-type", what)
    wait = req.kw["timeout"]
    if timeout:
        lo = min(wait) if isinstance(wait, tuple) else wait
        case.check(wait is not None and timeout < lo <= timeout + 60, "http-wait", lambda: "%s: waits %r for an operation time-out of %s" % (
            what, wait, timeout))
    else:
        case.check(wait == (c.connect, c.read), "http-wait", lambda: "%s: waits %r, configured %r" % (what, wait, (c.connect, c.read)))
    case.ctx.count("requests")


def operations_case(case):
    from pypsrp.wsman import OptionSet, SelectorSet, WSMan
    r = case.rng
    host = "h.test"
    conns = []
    seen = []
    reply_body = ["<a/>"]

    def server(request, kw):
        req = Req(request.body, request.url, dict(request.headers), kw.get("timeout"))
        req.kw = kw
        seen.append(req)
        return 200, envelope(req.message_id, "r", reply_body[0]), dict(wsmv.XML)

    def make_set(cls):
        s, m = cls(), []
        for i in range(r.choice([0, 1, 1, 2, 5])):
            v = text(r) if r.random() < 0.8 else r.choice([True, 7, 2.3])
            a = {} if r.random() < 0.6 else {r.choice(["MustComply", "Type", "x"]): text(r)}
            n = r.choice(["ShellId", "N%d" % i, "WINRS_NOPROFILE", "\u00e9 <", " N ", "a b", "N%d" % (i // 2)])
            if a or r.random() < 0.5:
                s.add_option(n, v, a)
            else:
                s.add_option(n, v)
            m.append((n, v, a))
        return s, m
    trace = []
    with wsmv.network({host: server}):
        for _ in range(r.choice([1, 1, 2])):
            c = Conn(r, host)
            c.w = connection(host, **c.kw)
            import requests
            c.url = requests.Request("POST", c.endpoint).prepare().url
            conns.append(c)
        if len(conns) == 2:
            conns[1].ids = conns[0].ids
        sets = [make_set(OptionSet) for _ in range(2)], [make_set(SelectorSet) for _ in range(2)]
        for _ in range(gen.few(r, [2, 5, 10], [130, 300])):
            c = r.choice(conns)
            if r.random() < 0.2:
                n = r.choice([102400, 512000, None])
                if n is None:
                    kb = r.choice([150, 500, 8192])
                    reply_body[0] = '<cfg:Config xmlns:cfg="%s"><cfg:MaxEnvelopeSizekb>%d</cfg:MaxEnvelopeSizekb></cfg:Config>' % (NS["cfg"], kb)
                    c.w.update_max_payload_size()
                    reply_body[0] = "<a/>"
                    check_envelope(case, c, seen[-1], "config", "Get", "http://schemas.microsoft.com/wbem/wsman/1/config")
                    c.size = kb * 1024
                else:
                    c.w.update_max_payload_size(n)
                    c.size = n
            op = r.choice(list(OPS) + ["invoke"])
            uri = r.choice(["http://schemas.microsoft.com/wbem/wsman/1/windows/shell/cmd", "http://x/" + text(r).strip(), "u"])
            os_ = r.choice(sets[0]) if r.random() < 0.5 else (None, None)
            ss = r.choice(sets[1]) if r.random() < 0.6 else (None, None)
            t = r.choice([None, None, 1, 5, 60, 3600])
            body = tree(r)
            if op in ("delete", "enumerate", "get", "pull", "put", "reconnect") and r.random() < 0.5:
                body = None
            before = picture(body) if body is not None else None
            n = len(seen)
            kw = {}
            if os_[0] is not None:
                kw["option_set"] = os_[0]
            if ss[0] is not None:
                kw["selector_set"] = ss[0]
            if t is not None:
                kw["timeout"] = t
            action = None
            if op == "invoke":
                action = r.choice(["http://custom/action", "http://schemas.xmlsoap.org/ws/2004/09/transfer/Get"])
                c.w.invoke(action, uri, body, **kw)
                action = wsmv.ACTIONS.get(action, action)
            elif body is None:
                getattr(c.w, op)(uri, **kw)
            else:
                getattr(c.w, op)(uri, body, **kw)
            case.eq(len(seen), n + 1, "request-count", op)
            req = seen[-1]
            what = "%s %s" % (op, trace[-2:])
            trace.append((op, t, len(os_[1] or []), len(ss[1] or []), body is not None))
            check_envelope(case, c, req, what, action or OPS[op], uri, os_[1], ss[1], t)
            case.check(req.method == "POST", "http-method", "") if hasattr(req, "method") else None
            if body is None:
                case.eq(len(req.content), 0, "body", what)
            else:
                case.eq(len(req.content), 1, "body", what)
                got = picture(req.content[0])
                case.check(got == before, "body", lambda: "%s: got %s, want %s" % (what, short(got, 1500), short(before, 1500)))
                case.check(picture(body) == before, "body-mutated", what)
                case.ctx.count("bodies")
        if len(conns) == 2 and conns[0].session and conns[1].session:
            case.check(conns[0].session != conns[1].session, "session-id", "two connections share a session id")
    case.note(trace=trace, conns=[c.kw for c in conns])
    case.key(trace)


KEEPALIVE = [("WSMAN_CMDSHELL_OPTION_KEEPALIVE", "True", {})]
SHELL = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"


def session_case(case):
    """Whole sessions: every request addresses the shell it is meant for, with the options of its operation."""
    import requests

    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.shell import Process, SignalCode, WinRS
    r = case.rng
    s = Server(r)
    s.own_shell_ids = r.random() < 0.4
    s.own_command_ids = r.random() < 0.3
    c = Conn(r, s.host)
    c.url = requests.Request("POST", c.endpoint).prepare().url
    extra = r.random() < 0.3
    other_uri = r.random() < 0.2
    sel, uris = {}, {}
    expect = []        # one dict per request
    s.on_pipeline = lambda cmd: None

    def after(req, res):
        if req.action == "Create":
            sid = re.search(rb"<rsp:ShellId>([^<]+)<", res[1]).group(1).decode()
            sel[sid] = [("ShellId", sid, {})]
            uris[sid] = req.uri
            b = res[1]
            if extra:
                b = b.replace(b"</w:SelectorSet>", b'<w:Selector Name="Node">n&amp;1</w:Selector></w:SelectorSet>')
                sel[sid].append(("Node", "n&1", {}))
            if other_uri:
                uris[sid] = req.uri.replace("schemas", "SCHEMAS")
                b = re.sub(rb"<rsp:ResourceUri>[^<]*<", lambda m: b"<rsp:ResourceUri>" + xml_text(uris[sid]).encode() + b"<", b)
            return res[0], b
        return res
    s.after = after
    trace = []
    with Net(s) as net:
        w = connection(s.host, **c.kw)
        things = []

        def sent(n, what, **kw):
            """checks the requests since n: all go to one shell, options by action."""
            reqs = s.log[n:]
            case.check(len(reqs) > 0, "nothing-sent", what)
            for req in reqs:
                kw2 = dict(kw)
                if req.action == "Create":
                    kw2.setdefault("selectors", None)
                elif kw2.get("sid") is not None:
                    kw2["selectors"] = sel[kw2["sid"]] if kw2.get("selectors") is None else kw2["selectors"]
                    kw2.setdefault("uri", uris[kw2["sid"]])
                sid = kw2.pop("sid", None)
                if req.action == "Receive":
                    kw2["options"] = KEEPALIVE
                check_envelope(case, c, req, "%s (%s)" % (what, req.action), **kw2)
                case.ctx.count("session_" + req.action)
        steps = [r.choice(["winrs", "pool"])] + [None] * r.choice([3, 6, 12])
        for i, k in enumerate(steps):
            n = len(s.log)
            k = k or r.choice(["process" if any(t[0] == "winrs" for t in things) and i < 3 else "winrs", "pool", "process", "poll", "poll", "send", "signal", "close", "pipeline", "pspoll", "alive", "state", "list"])
            shells = [t for t in things if t[0] == "winrs"]
            procs = [t for t in things if t[0] == "process"]
            pools = [t for t in things if t[0] == "pool"]
            pipes = [t for t in things if t[0] == "pipeline"]
            if k == "winrs":
                opts = []
                kw = {}
                if r.random() < 0.4:
                    kw["no_profile"] = True
                    opts.append(("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"}))
                if r.random() < 0.5:
                    kw["codepage"] = r.choice([437, 65001])
                    opts.append(("WINRS_CODEPAGE", str(kw["codepage"]), {}))
                sh = WinRS(w, **kw)
                sh.open()
                sid = s.all_shells[-1].id
                sent(n, "open shell", options=opts or None, uri=SHELL + "/cmd", action="Create")
                things.append(("winrs", sh, sid))
            elif k == "pool":
                conf = r.choice(["Microsoft.PowerShell", "PowerShell.7", "my & conf"])
                p = RunspacePool(w, configuration_name=conf, no_profile=False)
                p.open()
                srv = s.all_shells[-1]
                cr = s.log[n]
                uri = "http://schemas.microsoft.com/powershell/" + conf
                check_envelope(case, c, cr, "open pool", "Create", uri, [("protocolversion", "2.3", {"MustComply": "true"})], None)
                things.append(("pool", p, srv.id))
                for req in s.log[n + 1:]:
                    if c.size == 153600 and req.max_size == "512000" and req is not s.log[n + 1]:
                        c.size = 512000    # what a peer of protocol 2.2 or later accepts, known once its capability has arrived
                    check_envelope(case, c, req, "pool poll", "Receive", uris[srv.id], KEEPALIVE, sel[srv.id])
                if c.size == 153600:
                    c.size = 512000        # the capability arrived before the pool opened
            elif k == "process" and shells:
                _, sh, sid = r.choice(shells)
                ns = r.random() < 0.4
                p = Process(sh, "cmd", ["a", "b"], no_shell=ns)
                p.begin_invoke()
                cmd = s.shells[sid].last_command
                sent(n, "start", sid=sid, options=[("WINRS_SKIP_CMD_SHELL", str(ns), {})], action="Command")
                things.append(("process", p, sid, cmd))
            elif k == "poll" and procs:
                _, p, sid, cmd = r.choice(procs)
                t = r.choice([None, 1, 7, 100])
                p.poll_invoke(timeout=t) if t else p.poll_invoke()
                sent(n, "poll", sid=sid, timeout=t, action="Receive")
                case.eq(s.log[-1].find("rsp:Receive/rsp:DesiredStream").attrib.get("CommandId"), cmd.id, "command-id", "poll")
            elif k == "send" and procs:
                _, p, sid, cmd = r.choice(procs)
                p.send(b"x")
                sent(n, "send", sid=sid, action="Send")
                case.eq(s.log[-1].find("rsp:Send/rsp:Stream").attrib.get("CommandId"), cmd.id, "command-id", "send")
            elif k == "signal" and procs:
                _, p, sid, cmd = r.choice(procs)
                p.signal(SignalCode.CTRL_C)
                sent(n, "signal", sid=sid, action="Signal")
                case.eq(s.log[-1].find("rsp:Signal").attrib.get("CommandId"), cmd.id, "command-id", "signal")
            elif k == "pipeline" and pools:
                _, p, sid = r.choice(pools)
                ps = PowerShell(p)
                ps.add_script("x")
                ps.begin_invoke()
                cmd = s.shells[sid].last_command
                sent(n, "begin", sid=sid, options=[("WINRS_SKIP_CMD_SHELL", "False", {})], action="Command")
                things.append(("pipeline", ps, sid, cmd))
            elif k == "pspoll" and pipes:
                _, ps, sid, cmd = r.choice(pipes)
                t = r.choice([None, 1, 7, 100])
                ps.poll_invoke(timeout=t) if t else ps.poll_invoke()
                sent(n, "pipeline poll", sid=sid, timeout=t, action="Receive")
                case.eq(s.log[-1].find("rsp:Receive/rsp:DesiredStream").attrib.get("CommandId", "").upper(), (ps.id if True else cmd.id).upper(),
                        "command-id", "pipeline poll") if not s.own_command_ids else None
            elif k == "alive" and pools:
                _, p, sid = r.choice(pools)
                t = r.choice([None, 3, 50])
                case.eq(p.is_alive(timeout=t) if t else p.is_alive(), True, "alive", "")
                sent(n, "is_alive", sid=sid, uri=SHELL, timeout=t, action="Get")
            elif k == "state" and pools:
                th = r.choice(pools)
                _, p, sid = th
                p.disconnect()
                reqs = s.log[n:]
                check_envelope(case, c, reqs[0], "disconnect", "Disconnect", uris[sid], None, [("ShellId", sid, {})])
                n = len(s.log)
                p.connect()
                check_envelope(case, c, s.log[n], "reconnect", "Reconnect", uris[sid], None, [("ShellId", sid, {})])
                for pp in [x for x in things if x[0] == "pipeline" and x[2] == sid]:
                    things.remove(pp)
            elif k == "list":
                if not any(t[0] == "winrs" for t in things):
                    RunspacePool.get_runspace_pools(w)
                    for req in s.log[n:]:
                        check_envelope(case, c, req, "list", "Enumerate", None, None, None)
                        case.check(req.uri in (SHELL, SHELL + "/Command"), "resource-uri", lambda: req.uri)
            elif k == "close" and things:
                t = r.choice(things)
                if t[0] in ("winrs", "pool"):
                    things = [x for x in things if x[2] != t[2]]
                    t[1].close()
                    sent(n, "close", sid=t[2], action="Delete")
            trace.append(k)
    case.note(trace=trace, conn=c.kw)
    case.key(trace)


def main(ctx):
    ctx.rule("random operations with random option and selector sets, bodies, URIs, locales, time-outs, sizes, ports and paths over one or two connections; and "
             "whole sessions of shells, processes, pools and pipelines over one connection; every request parsed independently; distinct: sequence of calls.")
    ctx.assumptions.append("texts hold only characters XML can carry; a per-call time-out of 0 means none was given")
    ctx.each("operations", 350, 25000, operations_case)
    ctx.each("sessions", 300, 12000, session_case)
    for k, n in [("requests", 1000), ("bodies", 300), ("session_Receive", 20), ("session_Command", 50), ("session_Delete", 10), ("session_Signal", 5)]:
        ctx.require(k, n)
