"""C30: log monitor. Sessions of the other checks run with every record formatted and searched; they must do what they do without."""
import base64
import http.client
import json
import logging
import os
import re
import subprocess
import sys
import tempfile

import requests

from psrpmon import core, secure, workloads, wsmv
from psrpmon.core import Violation, short
from psrpmon.server import Net, connection
from psrpmon.session import make

LEVELS = [logging.DEBUG, logging.DEBUG, logging.DEBUG, logging.INFO, logging.WARNING, 1]


class Sink(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines, self.bad, self.names = [], [], set()

    def emit(self, record):
        try:
            self.lines.append(self.format(record))
        except Exception as e:     # noqa: B902 - what the usual handlers print to stderr
            self.bad.append("%r args %r: %r" % (record.msg, record.args, e))
        self.names.add(record.name)


class Logged:
    """The pypsrp loggers at a level, and what must not show in them."""

    def __init__(self, level):
        self.level, self.sink, self.secrets = level, Sink(), set()
        self.sink.setFormatter(logging.Formatter("%(asctime)s - %(name)s - %(levelname)s - %(message)s"))

    def header(self, value):
        if isinstance(value, bytes):
            value = value.decode("latin-1")
        token = str(value).split(" ", 1)[-1]
        if len(token) >= 12 and not token.startswith("http:"):
            self.secrets.add(token)

    def __enter__(self):
        me = self
        self.prepare, self.put = requests.Session.prepare_request, http.client.HTTPConnection.putheader

        def prepare(session, request):
            p = me.prepare(session, request)
            for k in ("Authorization", "Proxy-Authorization"):
                if k in p.headers:
                    me.header(p.headers[k])
            return p

        def put(conn, name, *values):
            if str(name).lower() in ("authorization", "proxy-authorization"):
                for v in values:
                    me.header(v)
            return me.put(conn, name, *values)
        requests.Session.prepare_request, http.client.HTTPConnection.putheader = prepare, put
        self.root = logging.getLogger("pypsrp")
        self.before = self.root.level
        logging.disable(logging.NOTSET)
        self.root.setLevel(self.level)
        self.root.addHandler(self.sink)
        self.root.propagate = False
        return self

    def __exit__(self, *a):
        self.root.removeHandler(self.sink)
        self.root.setLevel(self.before)
        self.root.propagate = True
        logging.disable(logging.CRITICAL)
        requests.Session.prepare_request, http.client.HTTPConnection.putheader = self.prepare, self.put

    def judge(self, case, what):
        case.check(not self.sink.bad, "record-not-formatted", lambda: "%s: %s" % (what, short(self.sink.bad[0], 1000)))
        if self.level >= logging.INFO:
            case.check(not any(" - DEBUG - " in x[:120] for x in self.sink.lines), "level-ignored", what)
        everything = "\n".join(self.sink.lines)
        for s in sorted(self.secrets, key=repr):
            for f in forms(s):
                i = everything.find(f)
                case.check(i < 0, "secret-in-log", lambda: "%s: %r as %r in %r" % (what, s, f, everything[max(0, i - 200):i + 100]))
        case.ctx.count("records", len(self.sink.lines))
        case.ctx.count("secrets_searched", len(self.secrets))
        case.events += len(self.sink.lines)


def forms(s):
    """How a text shows in a log."""
    if isinstance(s, bytes):
        return [s.hex(), s.hex().upper(), base64.b64encode(s).decode(), repr(s)[2:-1], str(list(s))[1:-1]]
    out = {s, s[::-1], repr(s)[1:-1]}
    for enc in ("utf-8", "utf-16-le"):
        b = s.encode(enc, "replace")
        out.add(b.hex())
        for i in range(3):
            out.add(base64.b64encode(b"\0" * i + b).decode()[4 if i else 0:-4])
    return [f for f in out if len(f) >= 8]


EXTRA = {
    "default-host": ("c14", "default_case", 2),
    "secret-host": ("c14", "secret_case", 2),
    "encrypted": ("c19", "session", 3),
    "settings": ("c20", "case_", 3),
    "handshake": ("c21", "case_", 3),
    "helpers": ("c12", "helper_case", 1),
    "copies": ("c23", "copy_case", 1),
    "fetches": ("c24", "fetch_case", 1),
    "alive": ("c26", "case_", 2),
    "retries": ("c17", "session_case", 2),
    "damaged": ("c07", "damaged_case", 1),
    "discovery": ("c27", "discovery_case", 1),
    "before": ("c05", "before", 1),
}


def sessions_case(case):
    """The workloads of the other checks, logged."""
    r = case.rng
    table = dict(workloads.ALL, **EXTRA)
    name = r.choices(sorted(table), [table[n][2] for n in sorted(table)])[0]
    fn = getattr(__import__("checks." + table[name][0], fromlist=["x"]), table[name][1])
    if name == "encrypted":
        whole = fn
        fn = lambda c: whole(c, False)
    seed, level = "%d" % r.getrandbits(48), r.choice(LEVELS)
    what = "%s with seed %s at level %d" % (name, seed, level)
    case.note(workload=name, level=level)
    sub = workloads.sub(case, name, seed)
    secure.KEYS.clear()
    with Logged(level) as log:
        v = core.outcome(sub, fn)
    if v is not None:
        for _ in range(2):
            if core.outcome(workloads.sub(case, name, seed), fn) is not None:
                case.ctx.count("fails_without_logging")
                return
        raise Violation("logging-changes-behaviour", "%s: %s: %s" % (what, v.kind, short(v.detail, 2500)))
    case.events += sub.events
    log.secrets |= set(getattr(sub, "cores", ())) | set(secure.KEYS)
    case.ctx.count("session_keys", len(secure.KEYS))
    if name in ("encrypted", "handshake", "alive", "settings"):
        log.secrets |= {"Passw0rd!", "h\xe4lo w", "key pass\xe4"}
    log.judge(case, what)
    case.ctx.count("workload:" + name)
    case.key(name, level, case.index)


def messages_case(case):
    """Everything sent and received is in the log at DEBUG, and only there; credentials of every kind are not."""
    r = case.rng
    from pypsrp.powershell import PowerShell, RunspacePool
    from psrpmon import clixml, gen
    from psrpmon.http import Cut, Front, Wire
    level = r.choice(LEVELS)
    words = {k: "%s%010xQ" % (k, r.getrandbits(40)) for k in ("pw", "px", "kp")}
    s = make(case)
    answers = []

    def on_pipeline(cmd):
        s.output(cmd, clixml.P("S", "answer-%d" % len(answers)))
        answers.append("answer-%d" % len(answers))
        s.finish(cmd)
    s.on_pipeline = on_pipeline
    proxied = r.random() < 0.4
    f = Front(s, "basic", user="us%08x" % r.getrandbits(32), password=words["pw"])
    faults = r.random() < 0.3
    kw = dict(username=f.user, password=f.password, reconnection_retries=r.choice([0, 2]))
    if proxied:
        kw["proxy"] = "http://pxuser:%s@proxy.test:3128" % words["px"]
    if r.random() < 0.3:
        kw["certificate_key_password"] = words["kp"]
    fault_text = "trouble-%06x" % r.getrandbits(24)
    said = []

    def before(req):
        if faults and req.action == "Signal" and not said:
            said.append(fault_text)
            return wsmv.fault(req, 5, fault_text)
        return None
    s.before = before
    replies = []

    def after(conn, req, res):
        if req.body and res[2]:
            replies.append(res[2])
        return res
    f.after = after
    cut = []

    def http_before(conn, req):
        if kw["reconnection_retries"] and b"/shell/Receive<" in req.body and len(cut) < 2 and r.random() < 0.3:
            cut.append(1)
            raise Cut("timeout")
    f.before = http_before
    wrong = r.random() < 0.15
    if wrong:
        kw["password"] = words["pw"] + "x"
    with Logged(level) as log:
        with Wire({"proxy.test": f} if proxied else {"h.test": f}):
            from pypsrp.exceptions import AuthenticationError, WSManFaultError
            conn = connection("h.test", **kw)
            try:
                with RunspacePool(conn) as pool:
                    for _ in range(r.choice([1, 2])):
                        ps = PowerShell(pool).add_script("script-%d" % r.getrandbits(30)).add_argument(gen.txt(r))
                        out = ps.invoke()
                        case.check(out == [answers[-1]], "session", lambda: repr(out))
            except AuthenticationError:
                case.check(wrong, "session", "authentication failed")
            except WSManFaultError:
                case.check(bool(said), "session", "fault")
            conn.close()
        if wrong:
            case.check(not s.log, "session", "served without the password")
    log.secrets |= set(words.values())
    what = "messages at level %d%s%s" % (level, " via proxy" if proxied else "", " wrong password" if wrong else "")
    log.judge(case, what)
    everything = "\n".join(log.sink.lines)
    if level <= logging.DEBUG:
        for q in s.log:
            text = q.raw.decode("utf-8")
            case.check(text in everything, "request-not-logged", lambda: "%s: %s" % (what, short(text)))
            case.ctx.count("requests_found")
        for reply in replies:
            case.ctx.count("replies_found")
            case.check(reply.decode("utf-8") in everything, "reply-not-logged", lambda: "%s: %s" % (what, short(reply)))
        for a in said:
            case.check(a in everything, "reply-not-logged", lambda: "%s: %s" % (what, a))
        case.check(all(n == "pypsrp" or n.startswith("pypsrp.") for n in log.sink.names), "logger-name", lambda: repr(log.sink.names))
    else:
        for q in s.log:
            case.check(q.message_id not in everything, "level-ignored", what)
    case.note(level=level, records=len(log.sink.lines), proxied=proxied, wrong=wrong)
    case.ctx.count("timed_out_polls", len(cut))
    case.key(level, proxied, wrong, faults, len(cut), case.index)


SCRIPT = r"""
import sys, logging
sys.path.insert(0, %r); sys.path.insert(0, %r)
import psrpmon
from psrpmon import core
core.setup_paths()
from psrpmon.server import Net, Server, connection
from psrpmon import clixml
import random
root = logging.getLogger()
assert not root.handlers, root.handlers
was = root.level
from pypsrp.client import Client
from pypsrp.powershell import PowerShell, RunspacePool
s = Server(random.Random(%d))
def run(cmd):
    s.push(cmd, "PIPELINE_HOST_CALL", __import__("psrpmon.msgs").msgs.host_call(1, 11, []))
    s.output(cmd, clixml.P("S", "marker-out"))
    s.finish(cmd)
s.on_pipeline = run
with Net(s):
    c = connection("h.test", password="hidden-pass-word")
    with RunspacePool(c) as p:
        out = PowerShell(p).add_script("marker-in").invoke()
assert out == ["marker-out"], out
assert not root.handlers or %r, root.handlers
assert root.level == was
p = logging.getLogger("pypsrp")
assert %r or (p.level == 0 and p.propagate and all(type(h) is logging.NullHandler for h in p.handlers)), (p.level, p.handlers)
assert not logging.raiseExceptions is False
"""


def process_case(case):
    """A process of its own: quiet without a configuration, logging as configured with one."""
    r = case.rng
    how = r.choice(["none", "none", "missing", "file", "file", "file"])
    level = r.choice(["DEBUG", "DEBUG", "INFO", "WARNING"])
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONDONTWRITEBYTECODE": "1", "PSRPMON_REPO": core.REPO}
    d = tempfile.mkdtemp(prefix="psrpmon-log-")
    try:
        out = os.path.join(d, "out.log")
        cfg = os.path.join(d, r.choice(["log.json", "a b.json", "l\xf6g.json"]))
        if how == "file":
            conf = {"version": 1, "disable_existing_loggers": False,
                    "formatters": {"f": {"format": "%(name)s|%(levelname)s|%(message)s"}},
                    "handlers": {"h": {"class": "logging.FileHandler", "filename": out, "encoding": "utf-8", "level": "DEBUG", "formatter": "f"}},
                    "loggers": {r.choice(["pypsrp", "pypsrp", "pypsrp.wsman"]): {"level": level, "handlers": ["h"], "propagate": False}}}
            with open(cfg, "w") as f:
                json.dump(conf, f)
        if how != "none":
            env["PYPSRP_LOG_CFG"] = cfg
        name = next(iter(conf["loggers"])) if how == "file" else None
        p = subprocess.run([sys.executable, "-c", SCRIPT % (core.ROOT, core.SRC, r.getrandbits(30), False, how == "file")],
                           env=env, cwd=d, capture_output=True, timeout=120, stdin=subprocess.DEVNULL)
        what = "configuration %s, logger %s at %s" % (how, name, level)
        case.check(p.returncode == 0, "process-failed", lambda: "%s: %s" % (what, short(p.stderr.decode("utf-8", "replace"), 2000)))
        # the loggers that a configuration of one module leaves out warn as any logger without a handler does
        case.check(not p.stdout and (name == "pypsrp.wsman" or not p.stderr), "printed", lambda: "%s: %s" % (what, short((p.stdout + p.stderr).decode("utf-8", "replace"), 1000)))
        text = open(out, encoding="utf-8").read() if os.path.exists(out) else None
        if how == "file":
            case.check(text is not None, "configuration-ignored", what)
            case.check("hidden-pass-word" not in text, "secret-in-log", what)
            got = set(re.findall(r"^([\w.]+)\|(\w+)\|", text, re.M))
            case.check(all(a == name or a.startswith(name + ".") for a, _ in got), "configuration-ignored", lambda: "%s: %s" % (what, got))
            if level == "DEBUG":
                case.check("marker-in" in text if name == "pypsrp" else "<" in text, "configuration-ignored", what)
                case.check(any(b == "DEBUG" for _, b in got), "configuration-ignored", lambda: "%s: %s" % (what, got))
            else:
                case.check(not any(b == "DEBUG" for _, b in got), "configuration-ignored", lambda: "%s: %s" % (what, got))
            if name == "pypsrp" and level != "WARNING":
                case.check(any(b == "INFO" for _, b in got), "configuration-ignored", lambda: "%s: %s" % (what, got))
        else:
            case.check(text is None, "printed", what)
    finally:
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)
    case.note(how=how, level=level, logger=name)
    case.ctx.count("process:" + how)
    case.key(how, level, name)


def main(ctx):
    ctx.rule("sessions of the other checks with the pypsrp loggers on at some level, every record formatted and searched for passwords, authorization "
             "tokens, keys and secure strings; a session that only fails when it is logged is a violation. distinct: workload, level, session.")
    ctx.assumptions.append("a session that also fails without logging is left to the check of its own property; loggers of other libraries are left out")
    ctx.each("messages", 60, 3000, messages_case)
    ctx.each("sessions", 200, 8000, sessions_case)
    ctx.each("processes", 4, 40, process_case)
    for k, n in (("records", 2000), ("secrets_searched", 100), ("requests_found", 100), ("replies_found", 100), ("process:file", 2), ("process:none", 1)):
        ctx.require(k, n)
