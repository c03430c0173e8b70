"""C15: for every request the outcome the caller gets against the reply the server sent."""
import uuid
import xml.etree.ElementTree as ET

from psrpmon import gen, msgs, wsmv
from psrpmon.clixml import xml_attr, xml_text
from psrpmon.core import Violation, short
from psrpmon.server import Net, Server, connection
from psrpmon.wsmv import NS, Req, envelope

OPS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]


def plain(r, n=None):
    """Text that survives XML as it is."""
    k = r.random()
    if k < 0.5:
        return r.choice(["Access is denied.", "The WinRM client cannot process the request.", "a<b>&amp;\"c'", "Zugriff verweigert äöü", "\u65e5\u672c\U0001f600",
                         "line one\nline two", "]]>", "0", "-1", "2150858793"])
    if n is None:
        n = r.randint(1, 30) if r.random() < 0.85 else r.randint(200, 3000)
    return "".join(r.choice("abc XYZ<>&\"'0:/.\u00e9\u20ac\U00010348") for _ in range(n)).strip() or "x"


class Fault:
    """A fault document with any subset of its parts, and what the error must say."""

    def __init__(self, r, relates):
        sp = r.choice(["", "", "\n    "])
        self.code = self.machine = self.reason = self.provider = self.path = self.pfault = None
        v = r.choice(["s:Receiver", "s:Sender", "s:MustUnderstand"])
        parts = []
        if r.random() < 0.9:
            sub = ""
            self.code = v
            if r.random() < 0.8:
                self.code = r.choice(["w:TimedOut", "w:AccessDenied", "w:InternalError", "wsa:DestinationUnreachable", "1234"])
                sub = "<s:Subcode>%s<s:Value>%s</s:Value>%s</s:Subcode>" % (sp, self.code, sp)
            parts.append("<s:Code>%s<s:Value>%s</s:Value>%s%s</s:Code>" % (sp, v, sub, sp))
        if r.random() < 0.85:
            self.reason = plain(r)
            pad = r.choice(["", " ", "\n "])
            parts.append('<s:Reason><s:Text xml:lang="%s">%s%s%s</s:Text></s:Reason>' % (r.choice(["", "en-US"]), pad, xml_text(self.reason), pad))
        if r.random() < 0.75:
            attrs, inner = "", ""
            if r.random() < 0.9:
                self.code = str(r.choice([0, 1, 5, 87, 995, 2150858793, 2150858843, 2150859174, 2**32 - 1, -2144108183]))
                attrs += ' Code="%s"' % self.code
            if r.random() < 0.8:
                self.machine = plain(r).replace("\n", " ")
                attrs += ' Machine="%s"' % xml_attr(self.machine)
            if r.random() < 0.85:
                k = r.random()
                m = ""
                if k < 0.5:
                    self.reason = plain(r)
                    m = xml_text(self.reason) + r.choice(["", " ", "\n"])
                if r.random() < 0.5:
                    pa = ""
                    if r.random() < 0.85:
                        self.provider = plain(r).replace("\n", " ")
                        pa += ' provider="%s"' % xml_attr(self.provider)
                    if r.random() < 0.85:
                        self.path = r.choice(["%systemroot%\\system32\\winrscmd.dll", plain(r).replace("\n", " ")])
                        pa += ' path="%s"' % xml_attr(self.path)
                    t = ""
                    if r.random() < 0.8:
                        self.pfault = plain(r)
                        t = xml_text(self.pfault) + r.choice(["", " "])
                    m = (m or sp) + "<f:ProviderFault%s>%s</f:ProviderFault>" % (pa, t) + sp
                inner = "%s<f:Message>%s</f:Message>%s" % (sp, m, sp)
            extra = "<w:FaultDetail>http://schemas.dmtf.org/wbem/wsman/1/wsman/faultDetail/InvalidValue</w:FaultDetail>" if r.random() < 0.3 else ""
            parts.append('<s:Detail>%s%s<f:WSManFault xmlns:f="%s"%s>%s</f:WSManFault>%s</s:Detail>' % (sp, extra, NS["f"], attrs, inner, sp))
        body = "<s:Fault>%s%s%s</s:Fault>" % (sp, sp.join(parts), sp)
        # a fault may come without or with another relation: it is an error all the same
        self.xml = envelope(r.choice([relates, relates, None, "uuid:" + str(uuid.uuid4()).upper()]),
                            "http://schemas.dmtf.org/wbem/wsman/1/wsman/fault", body)
        if r.random() < 0.2:
            self.xml = b'<?xml version="1.0" encoding="UTF-8"?>' + self.xml
        if r.random() < 0.15:
            self.xml = b"\xef\xbb\xbf" + self.xml
        if r.random() < 0.15:   # other prefixes
            self.xml = self.xml.replace(b"<s:", b"<S12:").replace(b"</s:", b"</S12:").replace(b"xmlns:s=", b"xmlns:S12=").replace(b" s:must", b" S12:must")
        try:
            self.code = int(self.code)
        except (TypeError, ValueError):
            pass

    def want(self):
        return (self.code, self.machine, self.reason, self.provider, self.path, self.pfault)


def junk(r, req):
    """(content type, body, text the error must carry) of an error response which is no SOAP fault."""
    k = r.randrange(12)
    ct = "text/html;charset=UTF-8"
    if k == 0:
        return ct, b"", ""
    if k == 10:   # in another encoding
        enc = r.choice(["windows-1252", "iso-8859-1", "utf-16", "shift_jis", "us-ascii"])
        t = "".join(c for c in "<h1>%s \u00e9\u00fc</h1>" % plain(r) if c.encode(enc, "ignore"))
        if len(t.encode(enc)) > 2 and enc != "utf-16":
            return "text/html; charset=" + enc, t.encode(enc), t
        return "text/plain; charset=utf-16", t.encode("utf-16"), t
    if k == 11:   # bytes that are no text in the encoding they claim to be in, or that claim none
        return r.choice(["text/html;charset=UTF-8", "application/octet-stream", "image/png", "text/html;charset=nonesuch"]), bytes([0x89, 0xff, 0xfe, 0xc3]) + r.randbytes(
            r.choice([1, 30, 300])), None
    if k == 1:
        t = "<html><head><title>%s</title></head><body><h1>Bad</h1></body></html>" % xml_text(plain(r))
    elif k == 2:
        t = "<html><body>Service Unavailable<br></body>"
    elif k == 3:
        t = '{"error": "%s"}' % plain(r)
    elif k == 4:
        t = plain(r, 2000)
    elif k == 5:
        t = envelope(req.message_id, "x", "<rsp:ReceiveResponse/>").decode()
    elif k == 6:
        t = ('<e:Envelope xmlns:e="http://schemas.xmlsoap.org/soap/envelope/"><e:Body><e:Fault><faultcode>e:Server</faultcode>'
             "<faultstring>no</faultstring></e:Fault></e:Body></e:Envelope>")
    elif k == 7:
        x = Fault(r, req.message_id).xml.decode().lstrip("\ufeff")
        t = x[:r.randint(1, len(x) - 1)]
    elif k == 8:
        t = "<Fault/>"
    else:
        t = "  \n\t "
    return ct, t.encode("utf-8"), t


def misdirected(r, req, older):
    mid = req.message_id
    return r.choice([
        lambda: None, lambda: "", lambda: older or "uuid:0", lambda: mid[5:], lambda: "uuid:" + str(uuid.uuid4()).upper(), lambda: mid + "0",
        lambda: mid[:-1], lambda: mid + " " + mid, lambda: "uuid:00000000-0000-0000-0000-000000000000"])()


def canon(el):
    return ET.canonicalize(ET.tostring(el))


def judge(case, what, plan, err, res):
    """plan: ('ok', body xml) / ('misdirected',) / ('fault', Fault) / ('401',) / ('http', status, text)"""
    from pypsrp.exceptions import AuthenticationError, WinRMError, WinRMTransportError, WSManFaultError
    k = plan[0]
    case.ctx.count(k)
    if k == "ok":
        case.check(err is None, "good-reply-refused", lambda: "%s: %r" % (what, err))
        if plan[1] is not None:
            case.check(res is not None and canon(res) == plan[1], "reply-changed", lambda: "%s: got %s, want %s" % (
                what, None if res is None else canon(res), plan[1]))
        return
    case.check(err is not None, "returned-as-data", lambda: "%s answered with %s returned %r" % (what, plan[:2], res))
    if k == "misdirected":
        case.check(isinstance(err, WinRMError), "wrong-error", lambda: "%s: a reply to another request gave %r" % (what, err))
    elif k == "fault":
        case.check(type(err) is WSManFaultError, "wrong-error", lambda: "%s: fault gave %r for %s" % (what, err, plan[1].xml))
        got = (err.code, err.machine, err.reason, err.provider, err.provider_path, err.provider_fault)
        want = plan[1].want()
        for n, g, w in zip(("code", "machine", "reason", "provider", "provider path", "provider fault"), got, want):
            case.check(type(g) is type(w) and g == w or not g and not w and type(g) in (type(w), type(None), str), "fault-detail",
                       lambda: "%s %s: got %r, want %r in %s" % (what, n, g, w, plan[1].xml))
            if w:
                case.check(str(w) in str(err), "fault-message", lambda: "%s: %r does not name the %s %r" % (what, str(err), n, w))
    elif k == "401":
        case.check(type(err) is AuthenticationError, "wrong-error", lambda: "%s: 401 gave %r" % (what, err))
    else:
        case.check(type(err) is WinRMTransportError, "wrong-error", lambda: "%s: HTTP %s with %s gave %r" % (what, plan[1], short(plan[2]), err))
        case.eq(err.code, plan[1], "http-status", what)
        case.check(plan[2] is None and isinstance(err.response_text, str) or err.response_text == plan[2], "http-body", lambda: "%s: got %s, want %s" % (what, short(err.response_text), short(plan[2])))
        case.check(str(plan[1]) in str(err), "http-message", lambda: str(err))


STATUS = [400, 402, 403, 404, 405, 407, 408, 411, 413, 418, 425, 429, 500, 500, 501, 502, 503, 504, 511, 599]


def choose(r, req, older):
    """(plan, status, body, headers)"""
    k = r.random()
    xml_ct = {"Content-Type": r.choice(["application/soap+xml;charset=UTF-8", "application/soap+xml;charset=utf-8", 'text/xml; charset="utf-8"'])}
    if k < 0.3:
        inner = r.choice(["<rsp:CommandResponse><rsp:CommandId>X</rsp:CommandId></rsp:CommandResponse>", "", "<rsp:SendResponse/>",
                          "<q>%s</q>" % xml_text(plain(r)), "<a1/><a2>t</a2>tail"])
        return inner, "ok", 200, None, xml_ct
    if k < 0.5:
        return None, "misdirected", 200, envelope(misdirected(r, req, older), "x", "<rsp:ReceiveResponse/>"), xml_ct
    if k < 0.75:
        f = Fault(r, req.message_id)
        return f, "fault", r.choice([500, 500, 500, 400, 503]), f.xml, xml_ct
    if k < 0.82:
        ct, b, t = junk(r, req) if r.random() < 0.6 else ("application/soap+xml;charset=UTF-8", Fault(r, req.message_id).xml, "")
        return None, "401", 401, b, {"Content-Type": ct}
    ct, b, t = junk(r, req)
    return t, "http", r.choice(STATUS), b, {"Content-Type": ct}


def operations_case(case):
    from pypsrp.wsman import OptionSet, SelectorSet, WSManAction
    r = case.rng
    host = "h.test"
    plans = []
    state = {"older": None}

    def server(request, kw):
        raw = request.body
        req = Req(raw, request.url, dict(request.headers), kw.get("timeout"))
        x, kind, status, body, headers = choose(r, req, state["older"])
        if kind == "ok":
            body = envelope(req.message_id, "r", x)
            plans.append(("ok", canon(ET.fromstring(body).find(wsmv.q("s:Body")))))
        elif kind == "fault":
            plans.append(("fault", x))
        elif kind == "http":
            plans.append(("http", status, x))
        else:
            plans.append((kind,))
        state["older"] = req.message_id
        return status, body, headers

    trace = []
    with wsmv.network({host: server}):
        w = connection(host)
        for _ in range(r.choice([2, 4, 8])):
            op = r.choice(OPS + ["invoke", "config", "size"])
            body = ET.Element("{%s}X" % NS["rsp"])
            body.text = "v"
            res = err = None
            try:
                if op == "invoke":
                    res = w.invoke(r.choice([WSManAction.GET, "http://x/custom"]), "http://r", body)
                    res = res.find("{%s}Body" % NS["s"])
                elif op == "config":
                    res = w.get_server_config()
                elif op == "size":
                    n = w.max_envelope_size
                    while True:     # asks for the configuration: a good reply must hold the size
                        try:
                            w.update_max_payload_size()
                        except Exception as e:
                            if plans[-1][0] == "ok":
                                break
                            raise
                        break
                    if plans[-1][0] == "ok":
                        plans[-1] = None
                        w.update_max_payload_size(n)
                else:
                    res = getattr(w, op)("http://r", body)
            except Violation:
                raise
            except Exception as e:
                err = e
                if op == "size" and plans[-1] is not None and plans[-1][0] == "ok":
                    plans[-1] = None
            trace.append((op, plans[-1][0] if plans[-1] else None))
            if plans[-1] is None:
                continue
            judge(case, op, plans[-1], err, res)
            if op == "size":
                case.eq(w.max_envelope_size, n, "size-changed", "after a failure")
        case.eq(len(plans), len(trace), "request-count", "requests for %s" % trace)
    case.note(trace=trace)
    case.key([(a, p[0], p[1] if p[0] == "http" else p[1].want() if p[0] == "fault" else "") for (a, _), p in zip(trace, plans) if p])


def session_case(case):
    """One reply of a session through the helpers and classes is replaced; the caller gets exactly that failure."""
    from pypsrp.client import Client
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.shell import Process, WinRS
    r = case.rng
    s = Server(r)
    kind = r.choice(["cmd", "ps", "pool", "winrs"])
    at = r.randint(0, {"cmd": 4, "ps": 5, "pool": 5, "winrs": 5}[kind])
    hit = []

    def on_command(cmd):
        cmd.queue.append(("R", [("stdout", b"out")], "Done", 0))
    s.on_command = on_command

    def on_pipeline(cmd):
        s.output(cmd, msgs.S("out"))
        s.finish(cmd)
    s.on_pipeline = on_pipeline
    real = s.__call__
    older = [None]

    class Front:
        host = s.host

        def __call__(self, request, kw):
            status, body, headers = s(request, kw)
            req = s.log[-1]
            if len(s.log) - 1 == at and not hit:
                while True:
                    x, k, st, b, h = choose(r, req, older[0])
                    if k != "ok" and not (k == "fault" and x.code == wsmv.OP_TIMEOUT):
                        break
                hit.append((k, st, x) if k == "http" else (k, x))
                hit.append(req.action)
                return st, b, h
            older[0] = req.message_id
            return status, body, headers
    front = Front()
    err = res = None
    with wsmv.network({s.host: front}), wsmv.Clock().active():
        s.clock = wsmv.Clock()
        try:
            if kind in ("cmd", "ps"):
                c = Client(s.host, ssl=False, auth="basic", encryption="never", username="u", password="p")
                res = c.execute_cmd("x") if kind == "cmd" else c.execute_ps("x")
            elif kind == "pool":
                with connection(s.host) as w, RunspacePool(w) as p:
                    ps = PowerShell(p)
                    ps.add_script("x")
                    res = ps.invoke()
            else:
                with connection(s.host) as w, WinRS(w) as sh:
                    p = Process(sh, "x")
                    p.invoke()
                    p.signal("http://schemas.microsoft.com/wbem/wsman/1/windows/shell/signal/Terminate")
                    res = p.stdout
        except Violation:
            raise
        except Exception as e:
            err = e
    case.note(kind=kind, at=at, hit=repr(hit)[:300])
    if hit:
        judge(case, "%s request %d (%s)" % (kind, at, hit[1]), hit[0], err, res)
        case.ctx.count("replaced_" + hit[1])
        case.key((kind, at, hit[0][0], case.index))
    else:
        case.check(err is None, "wrong-error", lambda: "undisturbed %s: %r" % (kind, err))


def main(ctx):
    ctx.rule("random replies to all operations: good bodies, replies relating to nothing or to other requests, fault documents with any subset of parts in "
             "several spellings, 401 and other HTTP statuses with empty, text, HTML, JSON, foreign XML and cut-off bodies; and one such reply in place of "
             "any reply of whole sessions; distinct: sequence of operations and reply contents.")
    ctx.assumptions.append("redirects, faults sent with HTTP 200, and provider faults holding a nested document are not generated")
    ctx.each("operations", 700, 60000, operations_case)
    ctx.each("sessions", 250, 15000, session_case)
    for k in ("ok", "misdirected", "fault", "401", "http"):
        ctx.require(k, 100)
    for k in ("Create", "Command", "Receive", "Delete", "Signal"):
        ctx.require("replaced_" + k, 3)
