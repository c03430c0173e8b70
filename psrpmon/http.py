"""HTTP over simulated connections: real requests/urllib3/http.client code down to the socket, which is an in-process peer.

Wire replaces urllib3's create_connection, so no packet ever leaves the process and every connection attempt is seen. Front
is one web server: it authenticates each connection (Basic, NTLM, Negotiate, ...), decodes and encodes encrypted messages with
its own framing reader and passes WSMan requests to a server.Server.
"""
import base64
import io
import os
import re
import socket
import struct
import tempfile
import time

import spnego
import urllib3.util.connection as _uc

from . import wsmv
from .core import Halt, HarnessError, Violation, short

_REAL_CREATE = _uc.create_connection


class Cut(Exception):
    """Raised by a peer instead of answering: 'timeout', 'reset', 'eof' or 'partial' (with the bytes sent before the end)."""

    def __init__(self, how, data=b""):
        super().__init__(how)
        self.how, self.data = how, data


class HttpRequest:
    def __init__(self, method, target, headers, body, conn):
        self.method, self.target, self.headers, self.body, self.conn = method, target, headers, body, conn

    def header(self, name, default=None):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return default


def read_request(buf, conn):
    """-> (HttpRequest, rest) or None if incomplete."""
    end = buf.find(b"\r\n\r\n")
    if end < 0:
        return None
    lines = bytes(buf[:end]).split(b"\r\n")
    method, target, version = lines[0].decode("latin-1").split(" ")
    headers = []
    for line in lines[1:]:
        k, v = line.decode("latin-1").split(":", 1)
        headers.append((k, v.strip()))
    lengths = [v for k, v in headers if k.lower() == "content-length"]
    if len(set(lengths)) > 1 or any(k.lower() == "transfer-encoding" for k, v in headers):
        raise Halt(Violation("http-framing", "%s" % headers))
    n = int(lengths[0]) if lengths else 0
    rest = buf[end + 4:]
    if len(rest) < n:
        return None
    return HttpRequest(method, target, headers, bytes(rest[:n]), conn), rest[n:]


def write_response(status, headers, body):
    reason = {200: "OK", 401: "Unauthorized", 500: "Internal Server Error"}.get(status, "Whatever")
    out = ["HTTP/1.1 %d %s" % (status, reason)]
    items = headers.items() if isinstance(headers, dict) else headers
    out += ["%s: %s" % (k, v) for k, v in items]
    if not any(k.lower() in ("content-length", "transfer-encoding") for k, v in items):
        out.append("Content-Length: %d" % len(body))
    return ("\r\n".join(out) + "\r\n\r\n").encode("latin-1") + body


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self._sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self._sock.recv_into(b)


class FakeSock:
    """The client's end of one connection; the peer runs when the client reads."""

    def __init__(self, wire, addr, peer, timeout):
        self.wire, self.addr, self.peer, self.timeout = wire, addr, peer, timeout
        self.a, self.b = socket.socketpair()
        self.inbuf, self.outbuf, self.error, self.eof, self.closed = b"", b"", None, False, False
        self.then_close = False

    def fileno(self):
        return self.a.fileno()

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def getsockname(self):
        return ("127.0.0.1", 50000)

    def getpeername(self):
        return self.addr

    def shutdown(self, how):
        self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.a.close()
            self.b.close()
            self.wire.open.discard(self)

    def drop(self):
        """The peer closes the connection."""
        if not self.eof:
            self.eof = True
            self.b.close()

    def sendall(self, data):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if self.eof:
            raise BrokenPipeError(32, "Broken pipe")
        self.inbuf += bytes(data)

    def send(self, data):
        self.sendall(data)
        return len(data)

    def makefile(self, mode="r", *a, **kw):
        return io.BufferedReader(_Raw(self))

    def recv(self, n):
        b = bytearray(n)
        k = self.recv_into(b)
        return bytes(b[:k])

    def recv_into(self, b, n=None):
        if not self.outbuf:
            if self.error is not None:
                e, self.error = self.error, None
                raise e
            if self.eof:
                return 0
            self._produce()
            return self.recv_into(b)
        k = min(len(b), len(self.outbuf))
        b[:k] = self.outbuf[:k]
        self.outbuf = self.outbuf[k:]
        if not self.outbuf and self.then_close and self.error is None:
            self.drop()
        return k

    def _produce(self):
        got = read_request(self.inbuf, self)
        if got is None:
            raise HarnessError("the client reads although it sent no complete request: %r" % short(self.inbuf))
        req, self.inbuf = got
        if self.inbuf:
            raise Halt(Violation("http-framing", "bytes after the request body: %r" % short(self.inbuf)))
        try:
            res = self.peer.request(req)
        except Cut as c:
            self.outbuf = c.data
            if c.how == "timeout":
                self.error = socket.timeout("timed out")
                if self.timeout:
                    time_advance(self.timeout)
            elif c.how == "reset":
                self.error = ConnectionResetError(104, "Connection reset by peer")
            if c.how in ("eof", "partial"):
                self.drop()
            return
        self.outbuf = write_response(*res[:3])
        if len(res) > 3 and res[3]:
            self.then_close = True


_CLOCKS = []


def time_advance(s):
    if _CLOCKS:
        _CLOCKS[-1].advance(s)


class Wire:
    """with Wire({host: listener}) as wire; listener(addr, sock) -> peer with request(HttpRequest) -> (status, headers, body[, close])."""

    def __init__(self, hosts, clock=True):
        self.hosts = hosts
        self.clock = wsmv.Clock()
        self.attempts = []     # (host, port, timeout) of every connection attempt
        self.socks = []
        self.open = set()
        self.refuse = None     # fn(host, port) -> None or exception

    def create(self, address, timeout=None, source_address=None, socket_options=None):
        host, port = address
        self.attempts.append((host, port, timeout))
        if self.refuse is not None:
            e = self.refuse(host, port)
            if e is not None:
                raise e
        listener = self.hosts.get((host, port)) or self.hosts.get(host)
        if listener is None:
            raise Halt(Violation("unexpected-connection", "%s:%s" % (host, port)))
        s = FakeSock(self, address, None, timeout)
        s.peer = listener(address, s)
        self.socks.append(s)
        self.open.add(s)
        return s

    def drop_all(self):
        for s in list(self.open):
            s.drop()

    def __enter__(self):
        _uc.create_connection = self.create
        _CLOCKS.append(self.clock)
        self.tm = self.clock.active()
        self.tm.__enter__()
        return self

    def __exit__(self, *a):
        _uc.create_connection = _REAL_CREATE
        _CLOCKS.pop()
        for s in list(self.open):
            s.close()
        return self.tm.__exit__(*a)


# ---------------------------------------------------------------- encrypted messages
BOUNDARY = b"--Encrypted Boundary"
PROTOCOLS = {"ntlm": "application/HTTP-SPNEGO-session-encrypted", "negotiate": "application/HTTP-SPNEGO-session-encrypted",
             "kerberos": "application/HTTP-Kerberos-session-encrypted", "credssp": "application/HTTP-CredSSP-session-encrypted"}


class Shim:
    """What Server.__call__ reads of a request."""

    def __init__(self, req, url, body):
        self.method, self.url, self.headers, self.body = req.method, url, dict(req.headers), body


def read_encrypted(body, content_type, protocol, unwrap, padding=None):
    """Strict reader of an encrypted request body -> the plain bytes; any deviation from the framing is a Violation."""
    m = re.fullmatch(r'multipart/(x-multi-encrypted|encrypted);protocol="([^"]+)";boundary="Encrypted Boundary"', content_type)
    if m is None:
        raise Violation("encrypted-content-type", content_type)
    if m.group(2) != protocol:
        raise Violation("encrypted-protocol", "%s, authenticated with %s" % (m.group(2), protocol))
    head = re.compile(rb"--Encrypted Boundary\r\n\tContent-Type: ([^\r\n]+)\r\n\tOriginalContent: type=application/soap\+xml;charset=UTF-8;Length=(\d+)\r\n"
                      rb"--Encrypted Boundary\r\n\tContent-Type: application/octet-stream\r\n")
    out, pos, parts = b"", 0, 0
    sizes = []
    while body[pos:] != BOUNDARY + b"--\r\n":
        h = head.match(body, pos)
        if h is None:
            raise Violation("encrypted-framing", "part %d at %d: %r" % (parts, pos, body[pos:pos + 200]))
        if h.group(1).decode() != protocol:
            raise Violation("encrypted-protocol", "part header %r" % h.group(1))
        p = h.end()
        if len(body) - p < 4:
            raise Violation("encrypted-framing", "no signature length")
        n = struct.unpack("<i", body[p:p + 4])[0]
        if not 0 <= n <= len(body) - p - 4:
            raise Violation("encrypted-framing", "signature length %d" % n)
        sig = body[p + 4:p + 4 + n]
        plain, used, pad = unwrap(sig, body, p + 4 + n, int(h.group(2)))
        if int(h.group(2)) != len(plain) + pad:
            raise Violation("encrypted-length", "Length=%s for %d plain bytes and %d of padding" % (h.group(2).decode(), len(plain), pad))
        out += plain
        sizes.append(len(plain))
        pos = used
        parts += 1
    if m.group(1) == "encrypted" and parts != 1:
        raise Violation("encrypted-framing", "%d parts in a multipart/encrypted body" % parts)
    return out, sizes


CONTENT_TYPES = {"usual": 'multipart/%(kind)s;protocol="%(protocol)s";boundary="%(boundary)s"',
                 "spaced": 'multipart/%(kind)s; protocol="%(protocol)s"; boundary="%(boundary)s"',
                 "boundary-first": 'multipart/%(kind)s;boundary="%(boundary)s";protocol="%(protocol)s"',
                 "more": 'multipart/%(kind)s;protocol="%(protocol)s";boundary="%(boundary)s";charset="UTF-8"'}


def write_encrypted(chunks, protocol, boundary=b"Encrypted Boundary", space=b"", tail=b"", multi=None, ctype="usual"):
    """chunks: [(length, signature, data)] -> (content type, body)"""
    out = b""
    d = b"--" + space + boundary
    for n, sig, data in chunks:
        out += (d + b"\r\n\tContent-Type: " + protocol.encode() + b"\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%d\r\n" % n
                + d + b"\r\n\tContent-Type: application/octet-stream\r\n" + struct.pack("<i", len(sig)) + sig + data)
    out += d + b"--\r\n" + tail
    kind = "x-multi-encrypted" if (len(chunks) > 1 if multi is None else multi) else "encrypted"
    return CONTENT_TYPES[ctype] % dict(kind=kind, protocol=protocol, boundary=boundary.decode()), out


_USERS = None


def users_file():
    """A credential store for pyspnego's acceptor; the process removes it at exit."""
    global _USERS
    if _USERS is None:
        import atexit
        fd, _USERS = tempfile.mkstemp(prefix="psrpmon-users-")
        os.write(fd, b"DOM:user:Passw0rd!\nOTHER:bob:h\xc3\xa4lo w\n:local:secret\n")
        os.close(fd)
        atexit.register(lambda p=_USERS: os.path.exists(p) and os.unlink(p))
    os.environ["NTLM_USER_FILE"] = _USERS
    return _USERS


class Front:
    """A web server in front of a server.Server. Use as listener: Wire({host: front})."""

    def __init__(self, server, scheme="basic", offers=None, encrypted=None, rng=None, user="user", password="pass", url=None):
        self.server, self.scheme, self.rng = server, scheme, rng
        self.offers = offers          # the WWW-Authenticate value
        self.encrypted = (scheme not in ("basic", "none")) if encrypted is None else encrypted
        self.user, self.password = user, password
        self.url = url or "http://h.test:5985/wsman"
        self.requests = []            # every HTTP request with the connection it came on
        self.events = []              # ("auth"|"401"|"plain"|...)
        self.conns = []
        self.before = None            # fn(conn, http_request) -> None or response; may raise Cut
        self.after = None             # fn(conn, http_request, response) -> response; may raise Cut
        self.style = None             # fn(n) -> write_encrypted keyword arguments, + chunk size under "chunk"
        self.close_after = None       # fn(conn) -> True to close the connection after this response
        self.acceptor = None          # fn(scheme) -> security context
        self.cbt = None
        if scheme in ("ntlm", "negotiate"):
            users_file()

    def __call__(self, addr, sock):
        c = FrontConn(self, addr, sock)
        self.conns.append(c)
        return c


class FrontConn:
    def __init__(self, front, addr, sock):
        self.front, self.addr, self.sock = front, addr, sock
        self.ctx = None
        self.ok = False
        self.who = None
        self.n = 0
        self.used_scheme = None

    def request(self, req):
        f = self.front
        self.n += 1
        f.requests.append(req)
        res = f.before(self, req) if f.before is not None else None
        if res is None:
            res = self.answer(req)
        if f.after is not None:
            res = f.after(self, req, res)
        if f.close_after is not None and f.close_after(self):
            res = tuple(res[:3]) + (True,)
        return res

    def offer(self):
        f = self.front
        o = f.offers
        if o is None:
            o = {"basic": 'Basic realm="WSMAN"', "ntlm": "NTLM", "negotiate": "Negotiate", "kerberos": "Kerberos", "credssp": "CredSSP"}.get(f.scheme, "")
        f.events.append("401")
        return 401, {"WWW-Authenticate": o, "Content-Type": "text/plain"}, b""

    def answer(self, req):
        f = self.front
        extra = {}
        if f.scheme == "none":
            pass
        elif f.scheme == "basic":
            want = "Basic " + base64.b64encode(("%s:%s" % (f.user, f.password)).encode("utf-8")).decode()
            if req.header("Authorization") != want:
                return self.offer()
        else:
            a = req.header("Authorization")
            if a is not None:
                r = self.step(a)
                if r[0] != 200:
                    return r
                extra = r[1]
            elif not self.ok:
                return self.offer()
        return self.payload(req, extra)

    def step(self, a):
        f = self.front
        m = re.fullmatch(r"(\w+) ([A-Za-z0-9+/=]*)", a)
        if m is None:
            raise Halt(Violation("authorization-header", a))
        kind = m.group(1)
        token = base64.b64decode(m.group(2), validate=True)
        if self.ctx is None or self.ok:
            self.ok = False
            self.used_scheme = kind
            make = f.acceptor or (lambda s: spnego.server(protocol="ntlm" if s.lower() == "ntlm" else "negotiate", channel_bindings=f.cbt))
            self.ctx = make(kind)
        try:
            out = self.ctx.step(token)
        except Exception as e:     # noqa: B902 - any failure of the acceptor is a rejected logon
            f.events.append("rejected %s" % type(e).__name__)
            self.ctx = None
            return self.offer()
        h = {}
        if out:
            h["WWW-Authenticate"] = "%s %s" % (kind, base64.b64encode(out).decode())
        if not self.ctx.complete:
            f.events.append("continue")
            return 401, h, b""
        self.ok = True
        self.who = getattr(self.ctx, "client_principal", None)
        f.events.append("auth")
        return 200, h, b""

    def payload(self, req, extra):
        f = self.front
        if not req.body:
            return 200, extra, b""
        ct = req.header("Content-Type", "")
        if not f.encrypted:
            if ct.startswith("multipart/"):
                raise Halt(Violation("unexpected-encryption", ct))
            status, body, headers = f.server(Shim(req, self.url(req), req.body), dict(timeout=self.sock.timeout))
            h = dict(headers)
            h.update(extra)
            return status, h, body
        if not ct.startswith("multipart/"):
            raise Halt(Violation("plaintext-body", "%s: %s" % (ct, short(req.body, 400))))
        proto = PROTOCOLS[(self.used_scheme or f.scheme).lower()]
        try:
            plain, self.sizes = read_encrypted(req.body, ct, proto, self.unwrap)
        except Violation as v:
            raise Halt(v)
        status, body, headers = f.server(Shim(req, self.url(req), plain), dict(timeout=self.sock.timeout))
        h = {k: v for k, v in headers.items() if k.lower() != "content-type"}
        style = f.style() if f.style is not None else {}
        size = style.pop("chunk", None) or (16384 if f.scheme == "credssp" else max(1, len(body)))
        chunks = []
        for i in range(0, len(body), size):
            part = body[i:i + size]
            sig, data, pad = self.ctx.wrap_winrm(part)
            chunks.append((len(part) + pad, sig, data))
        h["Content-Type"], out = write_encrypted(chunks, proto, **style)
        h.update(extra)
        return status, h, out

    def unwrap(self, sig, body, pos, length):
        """The plain bytes of the part whose data starts at pos, where the data ends, and its padding."""
        end = pos + length if (self.used_scheme or self.front.scheme).lower() != "credssp" else self.next_part(body, pos)
        try:
            plain = self.ctx.unwrap_winrm(sig, body[pos:end])
        except Exception as e:     # noqa: B902
            raise Violation("undecryptable-request", "%s: %s" % (type(e).__name__, e))
        return plain, end, getattr(self.ctx, "last_padding", 0)

    @staticmethod
    def next_part(body, pos):
        m = re.compile(rb"--Encrypted Boundary(--)?\r\n").search(body, pos)
        if m is None:
            raise Violation("encrypted-framing", "no boundary after part")
        return m.start()

    def url(self, req):
        return self.front.url
