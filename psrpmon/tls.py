"""TLS over simulated connections: the client's end is a real socket of a socketpair, the server runs in a thread.

TlsWire is a Wire whose connections may be plain HTTP, TLS, or a proxy's CONNECT tunnel to another of its hosts. Certificates are
made when first asked for, in a temporary directory the process removes at exit.
"""
import atexit
import os
import shutil
import socket
import ssl
import subprocess
import tempfile
import threading

from . import http
from .core import Halt, HarnessError, Violation, short


# ---------------------------------------------------------------- certificates
class Certs:
    """Files under a temporary directory, each made once per process."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="psrpmon-tls-")
        atexit.register(shutil.rmtree, self.dir, ignore_errors=True)
        self.made = {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def _run(self, *args, stdin=None):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir, "OPENSSL_CONF": self._conf()}
        r = subprocess.run(["openssl"] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
        if r.returncode:
            raise HarnessError("openssl %s: %s" % (" ".join(args), r.stderr.decode("utf-8", "replace")[-400:]))
        return r.stdout

    def _conf(self):
        p = self.path("openssl.cnf")
        if not os.path.exists(p):
            with open(p, "w") as fd:
                fd.write("[req]\ndistinguished_name=dn\n[dn]\n[ca]\nbasicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\n"
                         "subjectKeyIdentifier=hash\n")
        return p

    def key(self, kind, tag=""):
        """A private key file: rsa, ec, ec384, ed25519 or rsa-pss."""
        name = "%s%s.key" % (kind, tag)
        if name not in self.made:
            algo = {"rsa": ["RSA", "-pkeyopt", "rsa_keygen_bits:2048"], "ec": ["EC", "-pkeyopt", "ec_paramgen_curve:P-256"],
                    "ec384": ["EC", "-pkeyopt", "ec_paramgen_curve:P-384"], "ed25519": ["ED25519"],
                    "rsa-pss": ["RSA-PSS", "-pkeyopt", "rsa_keygen_bits:2048"]}[kind]
            self._run("genpkey", "-algorithm", *algo, "-out", self.path(name))
            self.made[name] = self.path(name)
        return self.made[name]

    def ca(self, tag="ca"):
        name = tag + ".pem"
        if name not in self.made:
            k = self.key("rsa", "-" + tag)
            self._run("req", "-x509", "-new", "-key", k, "-sha256", "-days", "3650", "-subj", "/CN=psrpmon %s" % tag, "-extensions", "ca",
                      "-config", self._conf(), "-out", self.path(name))
            self.made[name] = self.path(name)
        return self.made[name]

    def leaf(self, tag, names, ca="ca", expired=False, key="rsa", digest="sha256", client=False):
        """(certificate file, key file) of a certificate for the names (DNS:... or IP:...), signed by the CA."""
        name = tag + ".crt"
        k = self.key(key, "-" + tag) if client else self.key(key)
        if name not in self.made:
            ext = self.path(tag + ".ext")
            with open(ext, "w") as fd:
                fd.write("basicConstraints=CA:FALSE\nsubjectAltName=%s\nextendedKeyUsage=%s\nauthorityKeyIdentifier=keyid\n" % (
                    ",".join(names), "clientAuth" if client else "serverAuth"))
            csr = self.path(tag + ".csr")
            self._run("req", "-new", "-key", k, "-sha256", "-subj", "/CN=%s" % names[0].split(":", 1)[1], "-config", self._conf(), "-out", csr)
            cacrt = self.ca(ca)
            if expired:
                self._expired(tag, names, k, ca)
            else:
                self._run("x509", "-req", "-in", csr, "-CA", cacrt, "-CAkey", self.key("rsa", "-" + ca), "-CAcreateserial", "-days", "3000", "-" + digest,
                          "-extfile", ext, "-out", self.path(name))
            self.made[name] = self.path(name)
        return self.made[name], k

    def _expired(self, tag, names, k, ca):
        import datetime
        import ipaddress

        from cryptography import x509
        from cryptography.hazmat.primitives import hashes, serialization
        from cryptography.x509.oid import NameOID
        with open(k, "rb") as fd:
            key = serialization.load_pem_private_key(fd.read(), None)
        with open(self.key("rsa", "-" + ca), "rb") as fd:
            cakey = serialization.load_pem_private_key(fd.read(), None)
        with open(self.ca(ca), "rb") as fd:
            cacert = x509.load_pem_x509_certificate(fd.read())
        san = [x509.DNSName(n[4:]) if n.startswith("DNS:") else x509.IPAddress(ipaddress.ip_address(n[3:])) for n in names]
        now = datetime.datetime.now(datetime.timezone.utc)
        c = (x509.CertificateBuilder().subject_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, names[0].split(":", 1)[1])]))
             .issuer_name(cacert.subject).public_key(key.public_key()).serial_number(x509.random_serial_number())
             .not_valid_before(now - datetime.timedelta(days=30)).not_valid_after(now - datetime.timedelta(days=2))
             .add_extension(x509.SubjectAlternativeName(san), False).sign(cakey, hashes.SHA256()))
        with open(self.path(tag + ".crt"), "wb") as fd:
            fd.write(c.public_bytes(serialization.Encoding.PEM))

    def selfsigned(self, key, digest, pss=None):
        """(certificate file, key file) signed by its own key with the digest; pss: the salt and mask digest for RSA-PSS signatures."""
        tag = "self-%s-%s-%s" % (key, digest, pss)
        if tag not in self.made:
            args = ["req", "-x509", "-new", "-key", self.key(key), "-days", "3000", "-subj", "/CN=h.test", "-config", self._conf(), "-out", self.path(tag + ".crt")]
            if digest is not None:
                args += ["-" + digest]
            if pss:
                args += ["-sigopt", "rsa_padding_mode:pss", "-sigopt", "rsa_pss_saltlen:digest", "-sigopt", "rsa_mgf1_md:%s" % digest]
            self._run(*args)
            self.made[tag] = self.path(tag + ".crt")
        return self.made[tag], self.key(key)

    def encrypted(self, keyfile, password):
        name = os.path.basename(keyfile) + ".enc"
        if name not in self.made:
            self._run("pkey", "-in", keyfile, "-aes256", "-passout", "pass:" + password, "-out", self.path(name))
            self.made[name] = self.path(name)
        return self.made[name]


def der(pem):
    with open(pem) as fd:
        return ssl.PEM_cert_to_DER_cert(fd.read())


_CERTS = None


def certs():
    global _CERTS
    if _CERTS is None:
        _CERTS = Certs()
    return _CERTS


# ---------------------------------------------------------------- connections
class Stream:
    """A TCP-like end with recv and sendall."""

    def __init__(self, sock):
        self.sock, self.buf = sock, b""

    def recv(self):
        if self.buf:
            b, self.buf = self.buf, b""
            return b
        return self.sock.recv(1 << 16)

    def sendall(self, data):
        self.sock.sendall(data)

    def unread(self, data):
        self.buf = data + self.buf


class TlsStream:
    """The server's side of TLS on top of another stream."""

    def __init__(self, under, context):
        self.under = under
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.obj = context.wrap_bio(self.inb, self.outb, server_side=True)
        self.buf = b""
        self._do(self.obj.do_handshake)

    def _flush(self):
        data = self.outb.read()
        if data:
            self.under.sendall(data)

    def _do(self, fn, *a):
        while True:
            try:
                r = fn(*a)
                self._flush()
                return r
            except ssl.SSLWantReadError:
                self._flush()
                data = self.under.recv()
                if not data:
                    raise ConnectionResetError("closed inside TLS")
                self.inb.write(data)
            except ssl.SSLError:
                try:
                    self._flush()
                except OSError:
                    pass
                raise

    def recv(self):
        if self.buf:
            b, self.buf = self.buf, b""
            return b
        try:
            return self._do(self.obj.read, 1 << 16)
        except (ssl.SSLZeroReturnError, ConnectionResetError):
            return b""

    def sendall(self, data):
        self._do(self.obj.write, data)

    def unread(self, data):
        self.buf = data + self.buf


class TlsSock:
    """What a peer sees of its connection, and the thread that runs it."""

    def __init__(self, wire, addr, client, server):
        self.wire, self.addr, self.client, self.server = wire, addr, client, server
        self.tls = None          # dict(host, sni, cert, version) of the innermost TLS session
        self.via = []            # the proxies' CONNECT requests this connection went through
        self.handshakes = []
        self.peer = None
        self.closed = False
        self.thread = threading.Thread(target=self.run, daemon=True)

    @property
    def timeout(self):
        try:
            return self.client.gettimeout()
        except Exception:
            return None

    def run(self):
        s = Stream(self.server)
        try:
            self.serve(s, self.addr)
        except (Halt, Violation, HarnessError) as e:
            self.wire.problems.append(e)
        except (ssl.SSLError, OSError) as e:
            self.wire.trouble.append("%s: %s" % (type(e).__name__, e))
        except http.Cut as c:
            if c.data:
                try:
                    s.sendall(c.data)
                except OSError:
                    pass
        except BaseException as e:
            self.wire.problems.append(HarnessError("server thread: %s: %s" % (type(e).__name__, e)))
        finally:
            self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            try:
                self.server.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            self.server.close()

    drop = close

    def serve(self, s, addr):
        first = s.recv()
        if not first:
            return
        s.unread(first)
        if first[0] == 0x16:
            ctx = self.wire.context(addr)
            if ctx is None:
                raise Halt(Violation("tls-to-plain-port", "%s:%s" % addr))
            t = dict(host=addr[0], port=addr[1], sni=None, cert=None)
            self.handshakes.append(t)
            ctx.sni_callback = lambda obj, name, c: t.update(sni=name)
            t["hello"] = True
            s = TlsStream(s, ctx)
            t["cert"] = s.obj.getpeercert(True)
            t["version"] = s.obj.version()
            t["done"] = True
            self.tls = t
        elif self.wire.context(addr) is not None:
            raise Halt(Violation("plaintext-to-tls-port", "%s:%s: %r" % (addr + (short(first, 80),))))
        self.peer = self.wire.listener(addr)(addr, self)
        buf = b""
        while True:
            got = http.read_request(buf, self)
            if got is None:
                data = s.recv()
                if not data:
                    return
                buf += data
                continue
            req, buf = got
            if req.method == "CONNECT":
                self.via.append(req)
                host, port = req.target.rsplit(":", 1)
                host = host.strip("[]")
                r = self.wire.connect(self, req) if self.wire.connect is not None else None
                if r is not None:
                    s.sendall(http.write_response(*r))
                    if r[0] != 200:
                        return
                else:
                    s.sendall(b"HTTP/1.1 200 Connection established\r\n\r\n")
                if buf:
                    s.unread(buf)
                return self.serve(s, (host, int(port)))
            if buf:
                raise Halt(Violation("http-framing", "bytes after the request body: %r" % short(buf)))
            res = self.peer.request(req)
            s.sendall(http.write_response(*res[:3]))
            if len(res) > 3 and res[3]:
                return


class TlsWire(http.Wire):
    """contexts: fn((host, port)) -> SSLContext for a TLS listener, None for a plain one. `finish` reports what the threads found."""

    def __init__(self, hosts, contexts):
        super().__init__(hosts)
        self.contexts = contexts
        self.connect = None       # fn(sock, request) -> response to a CONNECT
        self.problems = []
        self.trouble = []

    def context(self, addr):
        return self.contexts(addr)

    def listener(self, addr):
        got = self.hosts.get(addr) or self.hosts.get(addr[0])
        if got is None:
            raise Halt(Violation("unexpected-connection", "%s:%s" % addr))
        return got

    def create(self, address, timeout=None, source_address=None, socket_options=None):
        host, port = address
        self.attempts.append((host, port, timeout))
        if self.refuse is not None:
            e = self.refuse(host, port)
            if e is not None:
                raise e
        self.listener(address)
        a, b = socket.socketpair()
        if isinstance(timeout, (int, float)):
            a.settimeout(timeout)
        b.settimeout(60)
        s = TlsSock(self, address, a, b)
        self.socks.append(s)
        self.open.add(s)
        s.thread.start()
        return a

    def finish(self):
        """Raises what a server thread found out (before it closed its connection)."""
        if self.problems:
            e = self.problems[0]
            raise e.violation if isinstance(e, Halt) else e

    def drop_all(self):
        for s in list(self.open):
            s.close()
            s.thread.join(10)

    def __exit__(self, *a):
        for s in list(self.open):
            s.close()
            try:
                s.client.close()
            except OSError:
                pass
        for s in list(self.open):
            s.thread.join(10)
        self.open.clear()
        r = super().__exit__(*a)
        if self.problems and not isinstance(a[1], HarnessError):
            e = self.problems[0]
            raise (e.violation if isinstance(e, Halt) else e) from a[1]
        return r


def server_context(cert, key, client_ca=None, require=False, max_version=None):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.set_ciphers("ALL:@SECLEVEL=0")
    c.load_cert_chain(cert, key)
    if client_ca is not None:
        c.load_verify_locations(client_ca)
        c.verify_mode = ssl.CERT_REQUIRED if require else ssl.CERT_OPTIONAL
    if max_version is not None:
        c.maximum_version = max_version
    return c
