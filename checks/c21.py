"""C21: Negotiate/NTLM/Kerberos handshakes as the accepting server sees them, over HTTP and real TLS with every kind of certificate."""
import base64
import hashlib
import logging
import os
import struct

import spnego

from psrpmon import clixml, tls, wsmv
from psrpmon.core import Halt, HarnessError, Violation, short
from psrpmon.http import Front, Wire

logging.disable(logging.CRITICAL)
os.environ.pop("KRB5CCNAME", None)
URI = "http://test/resource"
# key kind, digest, PSS signature, hash of RFC 5929
CERTS = [("rsa", "md5", None, "sha256"), ("rsa", "sha1", None, "sha256"), ("rsa", "sha224", None, "sha224"), ("rsa", "sha256", None, "sha256"),
         ("rsa", "sha384", None, "sha384"), ("rsa", "sha512", None, "sha512"), ("ec", "sha1", None, "sha256"), ("ec", "sha224", None, "sha224"),
         ("ec", "sha256", None, "sha256"), ("ec384", "sha384", None, "sha384"), ("ec", "sha512", None, "sha512"), ("ec", "sha384", None, "sha384"),
         ("rsa", "sha256", "pss", "sha256"), ("rsa", "sha384", "pss", "sha384"), ("rsa", "sha512", "pss", "sha512"), ("rsa-pss", "sha256", "pss", "sha256"),
         ("ed25519", None, None, "sha256"), ("rsa", "ripemd160", None, "sha256"), ("rsa", "sha3-256", None, "sha3_256"), ("rsa", "sha512-256", None, None)]
USERS = [("DOM\\user", "Passw0rd!", "DOM\\user"), ("OTHER\\bob", "h\xe4lo w", "OTHER\\bob"), ("dom\\user", "Passw0rd!", "dom\\user"), ("local", "secret", "local"),
         ("DOM\\USER", "Passw0rd!", "DOM\\USER")]


def binding(app):
    """The NTLM channel binding value of an application data string: MD5 of the packed gss_channel_bindings_struct."""
    return hashlib.md5(b"\0" * 16 + struct.pack("<I", len(app)) + app).digest()


def av_pairs(token):
    """The AV pairs of the NTLMv2 response of the AUTHENTICATE message within the token, and its user and domain."""
    at = token.find(b"NTLMSSP\0\x03\0\0\0")
    if at < 0:
        return None
    m = token[at:]

    def field(i):
        n, _, off = struct.unpack("<HHI", m[i:i + 8])
        return m[off:off + n]
    nt = field(20)
    out, pos = {}, 44
    while pos + 4 <= len(nt):
        k, n = struct.unpack("<HH", nt[pos:pos + 4])
        if k == 0:
            break
        out[k] = nt[pos + 4:pos + 4 + n]
        pos += 4 + n
    return out, field(36).decode("utf-16-le"), field(28).decode("utf-16-le")


class Lazy:
    """An acceptor chosen by the first token: raw NTLM or SPNEGO; keeps what it was given."""

    def __init__(self, world, kind):
        self.w, self.kind, self.ctx, self.tokens = world, kind, None, []
        self.complete = False

    def step(self, token):
        self.tokens.append(token)
        w = self.w
        w.tokens.append((self.kind, token))
        if token.startswith(b"FAKE"):
            return self.fake(token)
        if self.ctx is None:
            raw = token.startswith(b"NTLMSSP\0")
            if not raw and w.auth == "ntlm":
                raise Halt(Violation("not-ntlm", "auth=ntlm sends %s" % short(token)))
            if w.auth == "kerberos":
                raise Halt(Violation("not-kerberos", "auth=kerberos sends %s" % short(token)))
            if self.kind.lower() == "ntlm" and not raw:
                raise Halt(Violation("not-ntlm", "the NTLM scheme carries %s" % short(token)))
            self.ctx = spnego.server(protocol="ntlm" if raw else "negotiate", channel_bindings=w.bindings)
        av = av_pairs(token)
        if av is not None:
            w.judge_authenticate(av)
        out = self.ctx.step(token)
        self.complete = self.ctx.complete
        return out

    def fake(self, token):
        w = self.w
        leg, legs, final = token.split(b":")[1:4]
        if int(leg) != len(self.tokens):
            raise ValueError("leg %s of a handshake with %d tokens so far" % (leg, len(self.tokens)))
        if w.deny_fake:
            raise ValueError("denied")
        if leg == legs:
            self.complete = True
            return b"FAKEFINAL" if final == b"1" else None
        return b"FAKENEXT:%s" % leg

    @property
    def client_principal(self):
        return getattr(self.ctx, "client_principal", None)

    def wrap_winrm(self, data):
        return self.ctx.wrap_winrm(data) if self.ctx is not None else (b"S" * 16, bytes(x ^ 0x55 for x in data), 0)

    def unwrap_winrm(self, header, data):
        return self.ctx.unwrap_winrm(header, data) if self.ctx is not None else bytes(x ^ 0x55 for x in data)


class FakeClient:
    """A Kerberos-like initiator of some legs; the last may be answered by a token or not."""

    def __init__(self, legs, final):
        self.legs, self.final, self.n, self.complete = legs, final, 0, False

    def step(self, in_token=None):
        if self.complete:
            if in_token is not None and in_token != b"FAKEFINAL":
                raise HarnessError("token %r after the end" % in_token)
            return None
        if self.n and in_token != b"FAKENEXT:%d" % self.n:
            if self.n == self.legs and in_token == b"FAKEFINAL":
                self.complete = True
                return None
            raise ValueError("unexpected token %r" % in_token)
        self.n += 1
        if self.n == self.legs and not self.final:
            self.complete = True
        return b"FAKE:%d:%d:%d" % (self.n, self.legs, self.final)

    wrap_winrm, unwrap_winrm = (lambda self, data: (b"S" * 16, bytes(x ^ 0x55 for x in data), 0)), (lambda self, h, data: bytes(x ^ 0x55 for x in data))


class Echo:
    def __init__(self, world):
        self.w = world

    def __call__(self, shim, kw):
        req = wsmv.Req(shim.body, shim.url)
        self.w.served.append(req.body[0].text)
        status, body = wsmv.reply(req, "<t:Answer xmlns:t='urn:t'>%s</t:Answer>" % clixml.xml_text(req.body[0].text or ""))
        return status, body, wsmv.XML


class World:
    def __init__(self, case, spec=None):
        self.case, self.r = case, case.rng
        r = self.r
        self.fixed = spec
        self.auth = r.choice(["negotiate", "negotiate", "ntlm", "ntlm", "kerberos"])
        self.https = r.random() < 0.75
        self.send_cbt = r.choice([True, True, None, False])
        if spec is not None:
            self.auth, self.https, self.send_cbt = r.choice(["negotiate", "ntlm"]), True, True
        self.encryption = r.choice(["auto", "auto", "never", "always"] if self.https else ["auto", "auto", "never", "always"])
        self.wrap = self.encryption == "always" if self.https else self.encryption != "never"
        self.host = r.choice(["h.test", "h.test", "H.Test", "10.0.0.7", "fe80::1", "m\xfcnchen.test"])
        self.server_host = {"H.Test": "h.test", "m\xfcnchen.test": "xn--mnchen-3ya.test"}.get(self.host, self.host)
        self.user, self.password, self.who = r.choice(USERS)
        self.bad = r.random() < 0.15 and spec is None
        if self.bad:
            self.password = r.choice(["wrong", "", self.password + " "]) if r.random() < 0.7 else self.password
            if self.password in ("Passw0rd!", "secret", "h\xe4lo w"):
                self.user = "DOM\\nobody"
        self.service = r.choice([None, None, "HTTP", "WSMAN"])
        self.override = r.choice([None, None, None, "spn.test"])
        self.delegate = r.choice([None, None, True, False])
        self.kw = dict(auth=self.auth, username=self.user, password=self.password, ssl=self.https, encryption=self.encryption)
        for k, v in (("negotiate_send_cbt", self.send_cbt), ("negotiate_service", self.service), ("negotiate_hostname_override", self.override),
                     ("negotiate_delegate", self.delegate)):
            if v is not None:
                self.kw[k] = v
        self.proxy = None
        if r.random() < 0.3:
            self.proxy = r.choice(["http://proxy.test:3128", "https://proxy.test:3129"]) if self.https else "http://proxy.test:3128"
            self.kw["proxy"] = self.proxy
        self.kw["cert_validation"] = False
        self.spec = spec or r.choice(CERTS)
        self.app = None
        self.strict = r.random() < 0.7
        self.bindings = None
        if self.https:
            self.pcert, self.pkey = tls.certs().selfsigned("rsa", "sha384")
            self.certificate(self.spec)
            self.next_spec = r.choice(CERTS)
            tls.certs().selfsigned(*self.next_spec[:3])     # made before the clock is virtual
        self.front = f = Front(Echo(self), "negotiate", encrypted=self.wrap, url="")
        f.acceptor = lambda kind: Lazy(self, kind)
        f.before = self.before
        f.after = self.after
        self.offered = self.some_offers()
        self.served, self.tokens, self.authenticates, self.spied = [], [], [], []
        self.reauth = False
        self.deny_late = False
        self.denied = 0
        self.drop_token = False
        self.deny_fake = self.bad
        self.body401 = r.choice([b"", b"", b"<html>401</html>", b"x" * 5000])
        self.chunked = r.random() < 0.3
        hosts = {self.server_host: f, "proxy.test": f}
        if self.https:
            self.wire = tls.TlsWire(hosts, lambda a: tls.server_context(self.cert, self.key) if a[1] == 5986 else (
                tls.server_context(self.pcert, self.pkey) if a[1] == 3129 else None))
        else:
            self.wire = Wire(hosts)

    def certificate(self, spec):
        """What the server presents on connections made from now on."""
        self.spec, self.app, self.bindings = spec, None, None
        self.cert, self.key = tls.certs().selfsigned(*spec[:3])
        self.der = tls.der(self.cert)
        if spec[3] is not None:
            self.app = b"tls-server-end-point:" + hashlib.new(spec[3], self.der).digest()
        if self.send_cbt is not False and self.strict and self.app is not None:
            self.bindings = spnego.channel_bindings.GssChannelBindings(application_data=self.app)

    # ---- offers
    def some_offers(self):
        r = self.r
        k = r.random() if self.fixed is None else 0
        if k < 0.45:
            names = [r.choice({"negotiate": ["Negotiate", "NTLM"], "ntlm": ["Negotiate", "NTLM"], "kerberos": ["Negotiate", "Kerberos"]}[self.auth])]
        elif k < 0.55:
            names = r.choice([[], ["Basic"], ["Basic", "CredSSP"], ["Digest"], ["CredSSP"]])
        else:
            names = r.sample(["Negotiate", "NTLM", "Kerberos", "Basic", "CredSSP", "Digest"], r.randint(1, 5))
        return names

    def offer_headers(self):
        r = self.r
        vals = []
        for n in self.offered:
            n = r.choice([n, n, n.lower(), n.upper()])
            vals.append(n + {"basic": ' realm="WSMAN"', "digest": ' realm="x", nonce="abc"'}.get(n.lower(), ""))
        if not vals:
            return r.choice([[], [("WWW-Authenticate", "")]])
        if len(vals) > 1 and r.random() < 0.5:
            return [("WWW-Authenticate", v) for v in vals]
        return [("WWW-Authenticate", r.choice([", ", ",", " , "]).join(vals))]

    def compatible(self):
        have = {n.lower() for n in self.offered} & {"negotiate", "ntlm", "kerberos"}
        return have & {"negotiate": {"negotiate", "ntlm", "kerberos"}, "ntlm": {"negotiate", "ntlm"}, "kerberos": {"negotiate", "kerberos"}}[self.auth]

    # ---- server
    def dress(self, status, headers, body):
        items = list(headers.items()) if isinstance(headers, dict) else list(headers)
        if status == 401 and self.body401:
            body = self.body401
            items.append(("Content-Type", "text/html"))
            if self.chunked:
                items.append(("Transfer-Encoding", "chunked"))
                body = b"%x\r\n%s\r\n0\r\n\r\n" % (len(body), body)
        return status, items, body

    def before(self, conn, req):
        if req.method != "POST":
            raise Halt(Violation("method", req.method))
        a = req.header("Authorization")
        if a is not None:
            kind = a.split(" ")[0].lower()
            if kind not in {n.lower() for n in self.offered}:
                raise Halt(Violation("scheme-not-offered", "%s, offered %s" % (kind, self.offered)))
            if kind not in self.compatible():
                raise Halt(Violation("scheme-incompatible", "%s with auth=%s" % (kind, self.auth)))
        if self.reauth and conn.ok:
            self.reauth = False
            conn.ok, conn.ctx = False, None
            self.front.events.append("forced")
        return None

    def after(self, conn, req, res):
        status, headers, body = res[:3]
        if status == 401 and self.front.events and self.front.events[-1] == "401":
            headers = self.offer_headers()
        elif status == 401 and self.front.events and self.front.events[-1].startswith("rejected"):
            headers = self.offer_headers()
        elif status == 401 and self.drop_token:
            headers = self.offer_headers()
            conn.ctx = None
            self.front.events.append("dropped token")
        elif status == 401 and "WWW-Authenticate" in headers and self.r.random() < 0.2:
            headers = [("WWW-Authenticate", headers["WWW-Authenticate"]), ("WWW-Authenticate", 'Basic realm="WSMAN"')]
        if self.deny_late and conn.ok and (self.deny_late != "message" or req.body):
            conn.ok, conn.ctx = False, None
            self.front.events.append("denied late")
            self.denied += 1
            if self.denied > 10:
                raise Halt(Violation("authenticates-forever", "%d refusals of the authenticated request" % self.denied))
            status, headers, body = 401, self.offer_headers(), b""
        return self.dress(status, headers, body)

    def judge_authenticate(self, av):
        pairs, user, domain = av
        self.authenticates.append(user)
        spn = pairs.get(9, b"").decode("utf-16-le")
        if spn:
            want = "%s/%s" % (self.service or "host", self.override or self.server_host)
            if spn.lower() != want.lower():
                raise Halt(Violation("target-name", "%r, expected %r" % (spn, want)))
        got = pairs.get(10, b"\0" * 16)
        if not self.https or self.send_cbt is False:
            if got != b"\0" * 16:
                raise Halt(Violation("unwanted-channel-binding", "https=%s send_cbt=%s: %s" % (self.https, self.send_cbt, got.hex())))
        elif self.app is not None:
            if got != binding(self.app):
                raise Halt(Violation("channel-binding", "%s: got %s, want %s of %s" % (self.spec, got.hex(), binding(self.app).hex(), self.spec[3])))
            self.case.events += 1

    # ---- client
    def spy(self):
        real = spnego.client

        def client(*a, **kw):
            import inspect
            b = inspect.signature(real).bind(*a, **kw)
            self.spied.append(dict(b.arguments))
            if b.arguments.get("protocol", "negotiate") == "kerberos":
                return FakeClient(self.legs, self.final)
            return real(*a, **kw)
        self.legs, self.final = self.r.choice([1, 1, 2, 3]), self.r.choice([0, 1])
        return client


def case_(case):
    import pypsrp.negotiate as neg
    from pypsrp.wsman import WSMan
    w = World(case, getattr(case, "item", None))
    r = w.r
    case.note(kw={k: v for k, v in w.kw.items()}, offered=w.offered, host=w.host, cert=w.spec if w.https else None)
    real = spnego.client
    fake = w.spy()
    patched = [k for k, v in vars(neg).items() if v is real]
    trouble = False
    try:
        spnego.client = fake
        for k in patched:
            setattr(neg, k, fake)
        with w.wire:
            conn = WSMan(w.host, **w.kw)
            good = 0
            for i in range(r.choice([1, 1, 2, 3, 4])):
                plan = "plain"
                if i and not trouble and r.random() < 0.6:
                    plan = r.choice(["reauth", "reauth", "drop", "reauth-denied", "deny-message"])
                elif r.random() < 0.12:
                    plan = r.choice(["deny-late", "deny-message", "drop-token"])
                w.reauth = plan in ("reauth", "reauth-denied")
                w.deny_late = plan == "deny-late"
                w.drop_token = plan == "drop-token"
                if plan == "reauth-denied":
                    w.deny_late = True
                if plan == "deny-message":
                    w.deny_late = "message"
                if plan == "drop":
                    w.wire.drop_all()
                    if w.https and r.random() < 0.6:
                        # another server answers, or the certificate was renewed
                        w.certificate(w.next_spec)
                        case.ctx.count("certificates_changed")
                text = "n%d %s" % (i, "x" * r.choice([0, 10, 3000]))
                before, nserved = len(w.front.events), len(w.served)
                err, res = None, None
                try:
                    res = conn.send(URI, _note(text))
                except (Violation, Halt):
                    raise
                except Exception as e:
                    err = e
                ev = w.front.events[before:]
                if w.https:
                    w.wire.finish()
                ok = not w.bad and w.compatible() and not w.deny_late and not w.drop_token
                what = "%s events %s" % (plan, ev)
                if w.compatible() == set() or (w.bad and i == 0):
                    ok = False
                if plan == "drop-token" and not any(e == "dropped token" for e in ev):
                    ok = not w.bad and bool(w.compatible())
                if plan in ("deny-late", "deny-message") and "denied late" not in ev:
                    ok = not w.bad and bool(w.compatible())
                if not ok:
                    case.ctx.count("refusals")
                    if err is None:
                        raise Violation("unauthenticated-success", "%s: returned %s" % (what, short(res)))
                    if not w.deny_late and len(w.served) != nserved:
                        raise Violation("processed-without-authentication", what)
                    trouble = True
                    if w.deny_late:
                        break
                    if not w.compatible() and w.tokens:
                        raise Violation("token-for-unsupported-offer", "%s: %s" % (w.offered, w.tokens[0][0]))
                    kind = type(err).__name__
                    if kind not in ("AuthenticationError", "ValueError", "SpnegoError", "InvalidCredentialError") and not isinstance(err, spnego.exceptions.SpnegoError):
                        case.ctx.count("other_error:" + kind)
                    break
                if err is not None:
                    raise Violation("handshake-failed", "%s: %s: %s" % (what, type(err).__name__, short(str(err))))
                got = res.find("{urn:t}Answer") if res.tag != "{urn:t}Answer" else res
                case.check(got is not None and (got.text or "") == text, "wrong-answer", what)
                case.eq(w.served[nserved:], [text], "served", what)
                if plan == "reauth":
                    case.check("forced" in ev and "auth" in ev, "not-authenticated-again", what)
                    case.ctx.count("reauthentications")
                if i == 0 or plan == "reauth":
                    case.check("auth" in ev, "not-authenticated", what)
                good += 1
                for c in w.front.conns:
                    if c.ok and w.auth != "kerberos" and c.ctx.ctx is not None:
                        case.check(c.who is not None and c.who.lower() == w.who.lower(), "identity", "%r, configured %r" % (c.who, w.who))
                        case.ctx.count("identities")
                judge_spied(case, w)
            if w.https and w.authenticates and w.send_cbt is not False:
                case.ctx.count("bindings:%s-%s" % (w.spec[0], w.spec[1]))
            conn.close()
    finally:
        spnego.client = real
        for k in patched:
            setattr(neg, k, real)
    case.ctx.count("handshakes", sum(e == "auth" for e in w.front.events))
    case.ctx.count("tokens", len(w.tokens))
    case.key(w.auth, w.https, w.wrap, tuple(w.offered), w.spec[:3] if w.https else None, w.bad, bool(w.proxy), w.send_cbt, good, w.host)


def judge_spied(case, w):
    for a in w.spied:
        case.eq(str(a.get("hostname")).lower(), (w.override or w.server_host).lower(), "spn-host", "configured %r" % w.override)
        case.eq(a.get("service"), w.service or "host", "spn-service")
        req = a.get("context_req", spnego.ContextReq.default)
        case.eq(bool(req & spnego.ContextReq.delegate), bool(w.delegate), "delegation")
        case.check(req & spnego.ContextReq.mutual_auth, "mutual-authentication")
        cb = a.get("channel_bindings")
        app = cb.application_data if cb is not None else None
        if not w.https or w.send_cbt is False:
            case.check(not app, "unwanted-channel-binding", repr(app))
        elif w.app is not None:
            case.eq(app, w.app, "channel-binding", str(w.spec))
    w.spied.clear()


def _note(text):
    import xml.etree.ElementTree as ET
    e = ET.Element("{urn:t}Note")
    e.text = text
    return e


def main(ctx):
    ctx.rule("a request succeeds only when the server accepted the configured identity, with a scheme it offered that fits the configured one")
    ctx.rule("the channel binding in the AUTHENTICATE message is the RFC 5929 hash of the server's certificate over HTTPS (of the server, not of a proxy), absent over HTTP or when disabled")
    ctx.rule("no offer, no compatible offer, rejected credentials, a handshake cut short or denied at the end raise an error and nothing is processed")
    ctx.rule("the target name and delegation are those configured; the handshake is repeated whenever the server asks again")
    ctx.assumptions.append("NTLM and SPNEGO tokens are pyspnego's on both sides; Kerberos tokens come from a stand-in initiator of one to three legs, there is no KDC here")
    ctx.each("certificate", CERTS, CERTS * 4, case_)
    ctx.each("handshake", 400, 6000, case_)
    ctx.require("handshakes", 50)
    ctx.require("refusals", 10)
    ctx.require("identities", 20)
