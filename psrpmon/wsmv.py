"""WSMan on the wire, independent of pypsrp: envelope reader, reply writer, in-memory network, virtual time."""
import base64
import io
import re
import uuid
import xml.etree.ElementTree as ET
from contextlib import contextmanager
from urllib.parse import urlsplit

import requests
import requests.adapters

import psrpmon

from .clixml import xml_attr, xml_text
from .core import Halt, HarnessError, Violation, short

NS = {
    "s": "http://www.w3.org/2003/05/soap-envelope",
    "a": "http://schemas.xmlsoap.org/ws/2004/08/addressing",
    "w": "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd",
    "p": "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd",
    "rsp": "http://schemas.microsoft.com/wbem/wsman/1/windows/shell",
    "x": "http://schemas.xmlsoap.org/ws/2004/09/transfer",
    "n": "http://schemas.xmlsoap.org/ws/2004/09/enumeration",
    "pwsh": "http://schemas.microsoft.com/powershell",
    "f": "http://schemas.microsoft.com/wbem/wsman/1/wsmanfault",
    "cfg": "http://schemas.microsoft.com/wbem/wsman/1/config",
}
LANG = "{http://www.w3.org/XML/1998/namespace}lang"
ACTIONS = {
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Create": "Create",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Delete": "Delete",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Get": "Get",
    "http://schemas.xmlsoap.org/ws/2004/09/transfer/Put": "Put",
    "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Enumerate": "Enumerate",
    "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Pull": "Pull",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Command": "Command",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Receive": "Receive",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Send": "Send",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Signal": "Signal",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Connect": "Connect",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Disconnect": "Disconnect",
    "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Reconnect": "Reconnect",
}
CMD_URI = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/cmd"
SHELL_URI = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
OP_TIMEOUT = 2150858793
BAD_SELECTOR = 2150858843
STATE = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/"


def q(name):
    p, n = name.split(":")
    return "{%s}%s" % (NS[p], n)


class Req:
    """One request as the server reads it."""

    def __init__(self, raw, url="", headers=None, timeout=None, index=0):
        self.raw, self.url, self.headers, self.timeout, self.index = raw, url, headers or {}, timeout, index
        try:
            self.env = ET.fromstring(raw)
        except (ET.ParseError, UnicodeError, TypeError) as e:
            raise Halt(Violation("request-not-well-formed", "%s: %s" % (e, short(raw))))
        if self.env.tag != q("s:Envelope"):
            raise Halt(Violation("request-not-an-envelope", short(raw)))
        self.header = self.env.find(q("s:Header"))
        self.bodies = self.env.findall(q("s:Body"))
        self.body = self.bodies[0] if self.bodies else None
        h = self.header
        self.action_uri = self._h("a:Action")
        self.action = ACTIONS.get(self.action_uri, self.action_uri)
        self.uri = self._h("w:ResourceURI")
        self.to = self._h("a:To")
        self.message_id = self._h("a:MessageID")
        self.op_timeout = self._h("w:OperationTimeout")
        self.max_size = self._h("w:MaxEnvelopeSize")
        self.session_id = self._h("p:SessionId")
        self.selectors = [(e.attrib.get("Name"), e.text or "") for e in h.findall(q("w:SelectorSet") + "/" + q("w:Selector"))]
        self.options = [(e.attrib.get("Name"), e.text or "", {k: v for k, v in e.attrib.items() if k != "Name"})
                        for e in h.findall(q("w:OptionSet") + "/" + q("w:Option"))]
        self.content = list(self.body) if self.body is not None else []
        self.shell_id = dict(self.selectors).get("ShellId")

    def _h(self, name):
        e = self.header.find(q(name)) if self.header is not None else None
        return (e.text or "") if e is not None else None

    def find(self, path):
        return self.body.find("/".join(q(p) for p in path.split("/")))

    def findall(self, path):
        return self.body.findall("/".join(q(p) for p in path.split("/")))

    def option(self, name):
        return dict((o[0], o[1]) for o in self.options).get(name)

    def __repr__(self):
        return "%s(%s)" % (self.action, self.shell_id)


def envelope(relates, action, body):
    rel = "" if relates is None else "<a:RelatesTo>%s</a:RelatesTo>" % xml_text(relates)
    return ('<s:Envelope xml:lang="en-US" xmlns:s="%s" xmlns:a="%s" xmlns:x="%s" xmlns:w="%s" xmlns:rsp="%s" xmlns:p="%s" xmlns:n="%s">'
            "<s:Header><a:Action>%s</a:Action><a:MessageID>uuid:%s</a:MessageID><p:OperationID s:mustUnderstand=\"false\">uuid:%s</p:OperationID>"
            "<p:SequenceId>1</p:SequenceId><a:To>http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous</a:To>%s</s:Header>"
            "<s:Body>%s</s:Body></s:Envelope>" % (
                NS["s"], NS["a"], NS["x"], NS["w"], NS["rsp"], NS["p"], NS["n"], xml_text(action), str(uuid.uuid4()).upper(),
                str(uuid.uuid4()).upper(), rel, body)).encode("utf-8")


def reply(req, body, status=200):
    return status, envelope(req.message_id, (req.action_uri or "") + "Response", body)


def fault(req, code, reason="The operation failed.", machine="server", message=None, subcode="w:TimedOut", status=500, provider=None,
          detail=True):
    """provider: (name, path, text)"""
    d = ""
    if detail:
        inner = xml_text(message if message is not None else reason)
        if provider is not None:
            inner = '<f:ProviderFault provider="%s" path="%s">%s</f:ProviderFault>' % (
                xml_attr(provider[0]), xml_attr(provider[1]), xml_text(provider[2]))
        d = '<s:Detail><f:WSManFault xmlns:f="%s" Code="%s" Machine="%s"><f:Message>%s</f:Message></f:WSManFault></s:Detail>' % (
            NS["f"], code, xml_attr(machine), inner)
    body = ('<s:Fault><s:Code><s:Value>s:Receiver</s:Value><s:Subcode><s:Value>%s</s:Value></s:Subcode></s:Code>'
            '<s:Reason><s:Text xml:lang="en-US">%s</s:Text></s:Reason>%s</s:Fault>' % (subcode, xml_text(reason), d))
    return status, envelope(req.message_id if req is not None else None, NS["w"].rsplit("/", 1)[0] + "/fault", body)


def b64(b):
    return base64.b64encode(b).decode()


# ---------------------------------------------------------------- in-memory network
_REAL_SEND = requests.adapters.HTTPAdapter.send


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    host = urlsplit(request.url).hostname
    there = psrpmon.hosts[0]
    if host not in there:
        return _REAL_SEND(self, request, stream=stream, timeout=timeout, verify=verify, cert=cert, proxies=proxies)
    status, body, headers = there[host](request, dict(timeout=timeout, verify=verify, cert=cert, proxies=proxies))
    r = requests.Response()
    r.status_code = status
    for k, v in headers.items():
        r.headers[k] = v
    r._content = body
    r._content_consumed = True
    r.raw = io.BytesIO(b"")
    r.url = request.url
    r.request = request
    r.reason = {200: "OK", 401: "Unauthorized", 500: "Internal Server Error"}.get(status, "Status %d" % status)
    r.encoding = requests.utils.get_encoding_from_headers(r.headers)
    r.connection = self
    return r


class Clock:
    """Virtual time: sleeping and waiting advance it, nothing really waits."""

    def __init__(self):
        self.skew, self.sleeps = 0.0, []

    def sleep(self, s):
        self.sleeps.append(s)
        self.skew += max(0.0, s)

    def advance(self, s):
        self.skew += s

    @contextmanager
    def active(self):
        before, psrpmon.clock[0] = psrpmon.clock[0], self
        try:
            yield self
        finally:
            psrpmon.clock[0] = before


@contextmanager
def network(hosts):
    """hosts: {hostname: fn(prepared_request, kwargs) -> (status, body bytes, headers)}"""
    before = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = _send
    there = psrpmon.hosts[0]
    there.update(hosts)
    try:
        yield
    finally:
        for h in hosts:
            there.pop(h, None)
        requests.adapters.HTTPAdapter.send = before


XML = {"Content-Type": "application/soap+xml;charset=UTF-8"}
