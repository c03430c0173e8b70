"""What the remote copy and fetch scripts do, on a scripted server, and scratch files for them."""
import base64
import gc
import hashlib
import os
import re
import shutil
import tempfile

from . import msgs
from .clixml import P
from .core import REPO, Violation, short

SCRIPTS = os.path.join(REPO, "src", "pypsrp", "pwsh_scripts")


def plain(script):
    """A script without comments, blank lines and indentation."""
    script = re.sub(r"<#.*?#>", "", script.replace("\ufeff", ""), flags=re.S)
    return [l.strip() for l in script.splitlines() if l.strip() and not l.strip().startswith("#")]


def script_check(case, got, name):
    with open(os.path.join(SCRIPTS, name), encoding="utf-8") as f:
        want = plain(f.read())
    have = plain(got)
    case.check(have == want, "script", lambda: "the script sent for %s differs: %s" % (
        name, short([x for x in zip(have, want) if x[0] != x[1]][:3] or (len(have), len(want)))))


def call(case, s, cmd):
    """The one script command a pipeline runs: its text and positional arguments as (tag, value)."""
    d = s.model(cmd.shell, cmd.create).get("PowerShell")
    cs = d.get("Cmds").items
    case.check(len(cs) == 1 and not (d.has("ExtraCmds") and getattr(d.get("ExtraCmds"), "items", None)), "commands", lambda: "%d commands" % len(cs))
    c = cs[0]
    case.check(c.get("IsScript").val is True, "commands", "not a script")
    args = c.get("Args").items
    case.check(all(a.get("N").tag == "Nil" or not a.get("N").val for a in args), "arguments", "named")
    return c.get("Cmd").val, [(a.get("V").tag, a.get("V").val) for a in args]


class Receiver:
    """copy.ps1: every input is base64; all but the last are the file, the last is its SHA-1 in hexadecimal."""

    def __init__(self, case, server):
        self.case, self.s = case, server
        self.items, self.ended, self.placed, self.args = [], False, None, None
        self.fail_at = None     # index of the input at which the script fails, -1: when it places the file
        self.error = None
        self.path = None
        self.extra = []         # records pushed before the end
        self.cmd = None
        self.failed = False
        self.payload = lambda: 1 << 30
        server.on_pipeline, server.on_input = self.start, self.input

    def start(self, cmd):
        if self.cmd is not None:
            raise Violation("second-pipeline", "")
        self.cmd = cmd
        text, self.args = call(self.case, self.s, cmd)
        script_check(self.case, text, "copy.ps1")

    def fail(self):
        if not self.failed:
            self.failed = True
            self.s.finish(self.cmd, 5, self.error)

    def input(self, cmd, m):
        if m is not None:
            n = self.s.model(cmd.shell, m)
            if n.tag != "S":
                raise Violation("input-type", "%r" % n.tag)
            if 21 + 40 + len(m.data) > self.payload():
                raise Violation("piece-too-large", "a piece of %d characters does not fit one fragment of %d" % (len(n.val), self.payload()))
            try:
                self.items.append(base64.b64decode(n.val, validate=True))
            except Exception as e:
                raise Violation("input-encoding", "%r: %s" % (e, short(n.val)))
            if self.fail_at is not None and self.fail_at == len(self.items) - 1:
                self.fail()
            return
        self.ended = True
        if self.failed:
            return
        for rec in self.extra:
            self.s.record(cmd, rec)
        data = b"".join(self.items[:-1])
        if not self.items or hashlib.sha1(data).hexdigest() != self.items[-1].decode("utf-8", "replace").lower():
            self.failed = True
            self.s.finish(cmd, 5, self.error)
            return
        if self.fail_at == -1:
            self.fail()
            return
        self.placed = data
        self.s.output(cmd, P("S", self.path))
        self.s.finish(cmd)


class Scratch:
    """A directory, a private temporary directory and HOME below it, and environment variables; removed afterwards."""

    def __init__(self, env=None):
        self.env = dict(env or {})

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix="psrpmon")
        self.tmp = os.path.join(self.root, "tmp")
        self.home = os.path.join(self.root, "home")
        self.dir = os.path.join(self.root, "work")
        for d in (self.tmp, self.home, self.dir):
            os.mkdir(d)
        self.env.setdefault("HOME", self.home)
        self.env["TMPDIR"] = self.tmp
        self.old = {k: os.environ.get(k) for k in self.env}
        os.environ.update(self.env)
        self.old_dir, tempfile.tempdir = tempfile.tempdir, self.tmp
        return self

    def __exit__(self, *a):
        tempfile.tempdir = self.old_dir
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(self.root)

    def still_open(self):
        """Files below the directory (also removed ones) this process has open."""
        def look():
            out = []
            for fd in os.listdir("/proc/self/fd"):
                try:
                    t = os.readlink("/proc/self/fd/" + fd)
                except OSError:
                    continue
                if t.startswith(os.path.realpath(self.root) + "/"):
                    out.append(t)
            return out
        out = look()
        if out:
            gc.collect()
            out = look()
        return out

    def tree(self):
        """Every path below the directory with its content (links with their target)."""
        out = {}
        for d, subs, files in os.walk(os.fsencode(self.root)):
            for f in files:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    out[p] = ("link", os.readlink(p))
                else:
                    with open(p, "rb") as fh:
                        out[p] = ("file", fh.read())
            for s in subs:
                out[os.path.join(d, s)] = ("dir", None)
        return out


def client(**kw):
    from pypsrp.client import Client
    a = dict(ssl=False, auth="basic", encryption="never", username="user", password="pass")
    a.update(kw)
    return Client("h.test", **a)


def break_at(s, r, n, what):
    """Makes the n-th request fail: the transport is lost, or the server answers with an error."""
    import requests

    from . import wsmv
    from .server import Drop

    def before(req):
        if req.index != n:
            return None
        k = r.randrange(4)
        what.append((req.action, k))
        if k == 0:
            raise Drop(requests.exceptions.ConnectionError("connection lost"))
        if k == 1:
            raise Drop(requests.exceptions.ReadTimeout("timed out"))
        if k == 2:
            return 500, b""
        return wsmv.fault(req, r.choice([5, 995, wsmv.BAD_SELECTOR]), "refused")
    s.before = before
