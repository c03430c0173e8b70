"""C19: encrypted sessions: what every HTTP body holds, what the accepting context recovers, and what altered replies lead to."""
import logging
import os
import re
import struct
import xml.etree.ElementTree as ET

import spnego

from checks import c15
from psrpmon import clixml, tls, wsmv
from psrpmon.core import Halt, HarnessError, Violation, short
from psrpmon.http import Front, Wire, users_file

logging.disable(logging.CRITICAL)
os.environ.pop("KRB5CCNAME", None)
URI = "http://test/resource"
HOSTILE = [b"--Encrypted Boundary\r\n", b"--Encrypted Boundary--\r\n", b"-- Encrypted Boundary\r\n", b"--Encrypted Boundary", b"\r\n\r\n", b"--", b"Length=7\r\n",
           b"--Encrypted Boundary\r\n\tContent-Type: application/octet-stream\r\n", b"\tContent-Type: application/HTTP-SPNEGO-session-encrypted\r\n",
           b"\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=5\r\n", b"\x00", b"\xff\xfe", b"-- Encrypted Boundary--\r\n", b"\n"]
K16 = 16384


class Vault:
    """An ideal cipher: unrelated bytes of the right length that only the vault turns back, and only unaltered."""

    def __init__(self, rng):
        self.r, self.store = rng, {}
        self.sig_len = rng.choice([16, 16, 0, 1, 60, 300])
        self.pads = rng.random() < 0.4

    def noise(self, n):
        r = self.r
        out = bytearray(r.randbytes(n))
        for _ in range(r.choice([0, 1, 3, 8])):
            h = r.choice(HOSTILE)
            if len(h) <= n:
                at = r.choice([0, n - len(h), r.randint(0, n - len(h))])
                out[at:at + len(h)] = h
        return bytes(out)

    def wrap(self, data, pad):
        n = self.r.choice([1, 7, 15]) if self.pads and pad else 0
        while True:
            sig, enc = self.noise(self.sig_len if len(data) > 60 else max(16, self.sig_len)), self.noise(len(data) + n)
            if (sig, enc) not in self.store:
                break
        self.store[(sig, enc)] = bytes(data)
        return sig, enc, n

    def unwrap(self, sig, enc):
        if (bytes(sig), bytes(enc)) not in self.store:
            raise ValueError("the signature does not match")
        return self.store[(bytes(sig), bytes(enc))]


class FakeEnd:
    """One end of a context whose messages the vault keeps: wrap_winrm, unwrap_winrm and a handshake of some legs."""

    def __init__(self, out, into, legs, client):
        self.out, self.into, self.legs, self.client = out, into, legs, client
        self.n, self.complete, self.last_padding = 0, False, 0

    def step(self, token=None):
        if self.client:
            if token is not None and token != b"S%d" % self.n:
                raise ValueError("unexpected %r" % token)
            if self.complete:
                return None
            self.n += 1
            if self.n == self.legs:
                self.complete = True
            return b"C%d" % self.n
        self.n += 1
        if token != b"C%d" % self.n:
            raise ValueError("unexpected %r" % token)
        if self.n == self.legs:
            self.complete = True
        return b"S%d" % self.n

    def wrap_winrm(self, data):
        if not self.complete:
            raise ValueError("no context yet")
        sig, enc, n = self.out.wrap(data, self.client)
        self.out.last = n
        return sig, enc, n

    def unwrap_winrm(self, header, data):
        if not self.complete:
            raise ValueError("no context yet")
        plain = self.into.unwrap(header, data)
        self.last_padding = len(data) - len(plain)
        return plain


class World:
    def __init__(self, case, raw=False):
        self.case, self.r, self.raw = case, case.rng, raw
        r = self.r
        users_file()
        self.mode = r.choice(["ntlm", "ntlm", "negotiate", "credssp", "credssp", "fake", "fake", "fake"])
        self.https = r.random() < 0.3
        self.kw = dict(ssl=self.https, username="DOM\\user", password="Passw0rd!", cert_validation=False,
                       encryption="always" if self.https else r.choice(["auto", "auto", "always"]))
        self.offer = "Negotiate"
        if self.mode == "fake":
            self.kw["auth"], self.offer = r.choice([("negotiate", "Negotiate"), ("negotiate", "Kerberos"), ("kerberos", "Negotiate"), ("kerberos", "Kerberos"),
                                                    ("negotiate", "NTLM"), ("ntlm", "NTLM")])
        else:
            self.kw["auth"] = self.mode
            if self.mode == "ntlm":
                self.offer = r.choice(["Negotiate", "NTLM"])
            elif self.mode == "credssp":
                self.offer = "CredSSP"
                if r.random() < 0.3:
                    self.kw["credssp_auth_mechanism"] = "ntlm"
        self.proxy = r.random() < 0.15
        if self.proxy:
            self.kw["proxy"] = "http://proxy.test:3128"
        self.served = []          # plain bodies
        self.status = 200
        self.answer = b""
        self.marker = "secret%d" % r.getrandbits(60)
        self.front = f = Front(self.echo, self.mode, offers=self.offer, encrypted=True, url="x")
        f.acceptor = self.acceptor
        f.before = self.before
        f.after = self.after
        f.style = self.style
        self.reauth = False
        self.tamper = None
        self.tampered = None
        self.hostile = None
        self.original = None
        self.bodies = 0
        self.legs = r.choice([1, 2, 3])
        hosts = {"h.test": f, "proxy.test": f}
        if self.https:
            cert, key = tls.certs().selfsigned("rsa", "sha256")
            self.wire = tls.TlsWire(hosts, lambda a: tls.server_context(cert, key) if a[1] == 5986 else None)
        else:
            self.wire = Wire(hosts)

    def acceptor(self, kind):
        if kind.lower() != self.offer.lower():
            raise Halt(Violation("scheme-not-offered", kind))
        if self.mode == "fake":
            self.up, self.down = self.vaults
            return FakeEnd(self.down, self.up, self.legs, False)
        if self.mode == "credssp":
            return spnego.server(protocol="credssp")
        return spnego.server(protocol="ntlm" if self.kw["auth"] == "ntlm" else "negotiate")

    def client(self, *a, **kw):
        self.vaults = (Vault(self.r), Vault(self.r))
        self.vaults[1].pads = False
        return FakeEnd(self.vaults[0], self.vaults[1], self.legs, True)

    # ---- server
    def before(self, conn, req):
        body = req.body
        blob = body + repr(req.headers).encode() + req.target.encode()
        for bad in (self.marker.encode(), b"<s:Env", b":Envelope", b"<?xml"):
            if bad in blob:
                raise Halt(Violation("plaintext-on-the-wire", "%r in %s" % (bad, short(blob, 300))))
        if body:
            self.bodies += 1
            # a context of one leg is complete for the client before the server has said anything
            if not conn.ok and not self.dropped and not (self.hostile in ("early-200", "early-200-token") and self.mode == "fake" and self.legs == 1):
                raise Halt(Violation("payload-before-authentication", short(body, 200)))
        if self.hostile == "no-auth" and not conn.ok:
            return 200, {}, b""
        if self.hostile == "early-200" and req.header("Authorization") is not None:
            return 200, {}, b""
        if self.hostile == "early-200-token" and req.header("Authorization") is not None:
            return 200, {"WWW-Authenticate": self.offer + " " + "AAAA"}, b""
        if self.reauth and conn.ok and body:
            self.reauth = False
            conn.ok, conn.ctx = False, None
        return None

    dropped = False

    def echo(self, shim, kw):
        self.served.append(shim.body)
        h = dict(wsmv.XML)
        if self.raw:
            return self.status, self.answer, h
        req = wsmv.Req(shim.body, shim.url)
        if self.status != 200:
            self.fault = c15.Fault(self.r, req.message_id) if self.r.random() < 0.7 else None
            return self.status, self.fault.xml if self.fault else clixml.xml_text(self.answer).encode("utf-8"), h
        status, body = wsmv.reply(req, "<t:Answer xmlns:t='urn:t'>%s</t:Answer>" % clixml.xml_text(self.answer))
        return status, body, h

    def style(self):
        r = self.r
        k = {}
        if r.random() < 0.3:
            k["space"] = b" "
        if r.random() < 0.3:
            k["boundary"] = r.choice([b"Encrypted Boundary", b"-=Part.Boundary+(1)=-", b"b", b"[x]{2}?*", b"Encrypted Boundary x"])
        k["ctype"] = r.choice(["usual", "usual", "usual", "spaced", "boundary-first", "more"])
        if r.random() < 0.2:
            k["multi"] = True
        if r.random() < 0.5:
            n = max(1, len(self.answer))
            k["chunk"] = max(n // 60 + 1, r.choice([1, 7, 100, 1000, K16 - 1, K16]))
            if self.mode == "credssp":
                k["chunk"] = min(k["chunk"], K16)
        return k

    def after(self, conn, req, res):
        status, headers, body = res[:3]
        if getattr(conn, "sizes", None):
            if self.mode == "credssp" and max(conn.sizes) > K16:
                raise Halt(Violation("credssp-part-too-large", str(conn.sizes)))
            if self.mode != "credssp" and len(conn.sizes) != 1:
                raise Halt(Violation("parts", "%d parts with %s" % (len(conn.sizes), self.offer)))
            conn.sizes = None
        if body and self.tamper is not None and status == 200 and str(dict(headers).get("Content-Type", "")).startswith("multipart/"):
            body = self.altered(body)
        items = list(headers.items()) if isinstance(headers, dict) else list(headers)
        if body and self.r.random() < 0.2:
            items.append(("Transfer-Encoding", "chunked"))
            k = self.r.choice([1000, len(body), len(body) // 2 + 1])
            body = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + k]), body[i:i + k]) for i in range(0, len(body), k)) + b"0\r\n\r\n"
        return status, items, body

    def altered(self, body):
        r = self.r
        t = self.tamper
        b = bytearray(body)
        if t == "flip":
            i = r.randrange(len(b))
            b[i] ^= r.choice([1, 0x20, 0x80, 0xff, r.randint(1, 255)])
        elif t == "delete":
            i = r.randrange(len(b))
            del b[i:i + r.choice([1, 1, 2, 16])]
        elif t == "insert":
            i = r.randrange(len(b) + 1)
            b[i:i] = r.randbytes(r.choice([1, 1, 4, 16]))
        elif t == "truncate":
            # not at a border of parts: dropping whole parts is for the context to see
            starts = [m.start() for m in re.finditer(rb"\tOriginalContent", bytes(b))]
            i = r.randrange(len(b))
            if r.random() < 0.5:
                i = len(b) - r.randint(1, min(len(b) - 1, 60))
            if i < (starts[-1] if starts else 0):
                i = r.randint(starts[-1], len(b) - 1)
            del b[i:]
        elif t == "length":
            ms = list(re.finditer(rb"charset=UTF-8;Length=(\d+)\r\n", bytes(b)))
            m = r.choice(ms)
            n = int(m.group(1))
            new = r.choice([n + 1, n - 1, n + 256, 0 if n else 1, n * 10 + 1, n + 4])
            b[m.start(1):m.end(1)] = b"%d" % new
        elif t == "signature-length":
            ms = list(re.finditer(rb"\tContent-Type: application/octet-stream\r\n", bytes(b)))
            p = ms[0].end()
            n = struct.unpack("<i", bytes(b[p:p + 4]))[0]
            b[p:p + 4] = struct.pack("<i", r.choice([n + 1, n - 1, 0 if n else 3, -1, -n - 4, 2 ** 31 - 1, n + 16]))
        self.tampered = bytes(b) != bytes(body)
        return bytes(b)


TAMPERS = ["flip", "flip", "flip", "delete", "insert", "truncate", "length", "length", "signature-length"]


def some_text(r, n):
    k = r.random()
    if k < 0.5:
        return "a" * n
    base = r.choice(["--Encrypted Boundary\n", "Length=12;", "\xe9\u20ac\U0001f600x", "<&>\"'", "-- Encrypted Boundary--\n", "abc "])
    return (base * (n // len(base) + 1))[:n]


def some_size(r):
    return max(0, r.choice([0, 1, 50, 1000, r.randint(0, 40000), K16, K16 - 1, K16 + 1, 2 * K16, 2 * K16 - 1, 2 * K16 + 1, 3 * K16, r.randint(0, 3) * K16 + r.randint(-3, 3),
                     r.randint(40000, 200000)]))


def session(case, raw):
    from pypsrp.exceptions import WinRMTransportError, WSManFaultError
    from pypsrp.wsman import WSMan, _TransportHTTP
    w = World(case, raw)
    r = w.r
    case.note(kw=dict(w.kw), mode=w.mode, offer=w.offer, raw=raw)
    import pypsrp.negotiate as neg
    real = spnego.client
    patched = [k for k, v in vars(neg).items() if v is real]
    overhead = None
    log = []
    try:
        if w.mode == "fake":
            spnego.client = w.client
            for k in patched:
                setattr(neg, k, w.client)
        with w.wire:
            if raw:
                conn = _TransportHTTP("h.test", **w.kw)
            else:
                conn = WSMan("h.test", max_envelope_size=r.choice([153600, 512000, 2000000]), **w.kw)
            for i in range(r.choice([1, 2, 3, 5])):
                last = False
                w.tamper, w.tampered = None, None
                w.hostile = None
                if i == 0 and r.random() < 0.06:
                    w.hostile = r.choice(["no-auth", "early-200", "early-200-token"])
                elif r.random() < 0.3:
                    w.tamper = r.choice(TAMPERS)
                    last = True
                if i and not last and r.random() < 0.25:
                    if r.random() < 0.5:
                        w.reauth, w.dropped = True, True
                    else:
                        w.wire.drop_all()
                        w.dropped = True
                w.status = r.choice([500, 500, 400, 503, 404]) if not last and r.random() < 0.2 else 200
                n = some_size(r)
                m = some_size(r)
                if raw:
                    w.answer = some_text(r, m).encode("utf-8") or b"x"
                    sent = w.marker.encode() + some_text(r, n).encode("utf-8")
                    if r.random() < 0.5:
                        sent = sent[:max(len(w.marker), n)]
                else:
                    w.answer = some_text(r, m)
                    if overhead is not None and r.random() < 0.7:
                        text = w.marker + "a" * max(0, n - overhead - len(w.marker))
                    else:
                        text = w.marker + some_text(r, n)
                served = len(w.served)
                got, err = None, None
                try:
                    if raw:
                        got = conn.send(sent)
                    else:
                        e = ET.Element("{urn:t}Note")
                        e.text = text
                        got = conn.send(URI, e)
                except (Violation, Halt):
                    raise
                except Exception as e:
                    err = e
                if w.https:
                    w.wire.finish()
                what = "message %d of %d bytes, answer of %d, tamper %s, hostile %s" % (i, n, m, w.tamper, w.hostile)
                log.append((w.tamper, n // K16, m // K16))
                if w.hostile is not None:
                    case.ctx.count("hostile:" + w.hostile)
                    if err is None:
                        raise Violation("success-without-authentication", what)
                    break
                if len(w.served) - served != 1:
                    raise Violation("requests-processed", "%s: %d, %s: %s" % (what, len(w.served) - served, type(err).__name__, short(str(err))))
                plain = w.served[-1]
                if raw:
                    case.eq(plain, sent, "message-recovered", what)
                else:
                    note = wsmv.Req(plain).body[0]
                    case.eq(note.text, text, "message-recovered", what)
                    if text.isascii() and not set(text) & set("<&>\"'\n"):
                        overhead = len(plain) - len(text)
                case.ctx.count("messages:" + w.mode)
                if len(plain) % K16 in (0, 1, K16 - 1) and len(plain) >= K16 - 1:
                    case.ctx.count("messages_at_a_16384_border")
                if w.tamper is not None and w.tampered:
                    case.ctx.count("altered")
                    if err is None:
                        case.check(w.tamper != "length", "wrong-length-accepted", what)
                        same = got == w.answer if raw else text_of(got) == w.answer
                        case.check(same, "altered-reply-returned", lambda: "%s: %s" % (what, short(got if raw else text_of(got))))
                        case.ctx.count("altered_but_exact")
                    else:
                        case.events += 1
                    break
                if w.status != 200:
                    case.check(err is not None, "fault-returned-as-data", what)
                    if not raw and w.fault is not None:
                        c15.judge(case, what, ("fault", w.fault), err, None)
                    else:
                        text = w.answer.decode("utf-8", "ignore") if raw else clixml.xml_text(w.answer)
                        if raw or text:
                            c15.judge(case, what, ("http", w.status, text), err, None)
                    case.ctx.count("encrypted_faults")
                    continue
                if err is not None:
                    raise Violation("reply-not-recovered", "%s: %s: %s" % (what, type(err).__name__, short(str(err))))
                if raw:
                    case.eq(got, w.answer, "reply-recovered", what)
                else:
                    case.eq(text_of(got), w.answer, "reply-recovered", what)
                case.ctx.count("replies")
            conn.close()
    finally:
        spnego.client = real
        for k in patched:
            setattr(neg, k, real)
    case.ctx.count("encrypted_bodies", w.bodies)
    case.key(w.mode, w.offer, w.https, w.legs, tuple(log))


def text_of(res):
    a = res.find("{urn:t}Answer") if res.tag != "{urn:t}Answer" else res
    return (a.text or "") if a is not None else None


def main(ctx):
    ctx.rule("every request body is empty until the handshake is over and then one strictly framed encrypted message whose parts the accepting context decrypts to exactly the message; no marker of the message and no SOAP in any header or body")
    ctx.rule("every encrypted reply is recovered exactly whatever its parts, spacing, boundary and ciphertext; one with bytes flipped, added, removed or another length raises or is still exact")
    ctx.rule("an encrypted fault or error answer raises with exactly the decrypted details")
    ctx.rule("a server that skips or cuts short the authentication gets nothing")
    ctx.assumptions.append("dropping whole parts at the end of a reply is for the security context to detect and is left out; ciphertext holding a complete part header is left out")
    ctx.each("wsman", 260, 4000, lambda case: session(case, False))
    ctx.each("bytes", 260, 4000, lambda case: session(case, True))
    for m in ("ntlm", "negotiate", "credssp", "fake"):
        ctx.require("messages:" + m, 10)
    ctx.require("altered", 20)
    ctx.require("replies", 50)
    ctx.require("encrypted_faults", 20)
