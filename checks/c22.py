"""C22: WinRS shells and processes against a server that records what it is told and hands out bytes in every legal way."""
import base64
import re

from psrpmon import gen, wsmv
from psrpmon.core import Violation, short
from psrpmon.server import Net, Server, connection
from psrpmon.wsmv import NS, q

EXES = ["cmd", "C:\\Program Files\\a b\\x.exe", "powershell.exe", "a&b<c>\"d'", "\u00e9\u65e5\U0001f600", "%COMSPEC%", "a\tb", " lead ", "x" * 3000, ""]
ARGS = ["", " ", "a", "/c", "\"quoted arg\"", "a&b|c>d", "<x/>", "]]>", "&amp;", "\u0085\u2028", "two\nlines", "cr\rlf\r\n", "%PATH%", "^", "_x000D_", "\u00e9\U0010ffff",
        "C:\\dir\\", "x" * 2000, "'", "--%", "$env:X"]
SIGNAL = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/signal/"
CHARS = "ab<>&\"' \n\r\t\u00e9\u20ac\U00010348]%^\\_;"


def text(r, pool):
    return r.choice(pool) if r.random() < 0.7 else "".join(r.choice(CHARS) for _ in range(r.randint(0, 20)))


def data(r):
    k = r.random()
    if k < 0.15:
        return b""
    if k < 0.5:
        return r.randbytes(r.choice([1, 2, 3, 4, 50]))
    if k < 0.6:
        return r.choice([b"\r\n", b"\x00", b"\xff\xfe", b"\xef\xbb\xbfa", b"#< CLIXML\r\n<Objs/>", b"\x1a", b"_x000A_"])
    if k < 0.95:
        return r.randbytes(r.choice([100, 999, 5000]))
    return r.randbytes(r.choice([30000, 70000]))


def stream_xml(r, name, cid, d, end):
    t = base64.b64encode(d).decode()
    if t and r.random() < 0.15:
        n = r.randrange(len(t) + 1)
        t = t[:n] + r.choice(["\n", "\r\n", " ", "\t"]) + t[n:]
    attrs = ['Name="%s"' % name, 'CommandId="%s"' % cid]
    if r.random() < 0.1:
        attrs.append('Unit="%d"' % r.randint(0, 9))
    if end:
        attrs.append('End="%s"' % r.choice(["true", "TRUE"]))
    r.shuffle(attrs)
    a = " ".join(attrs)
    return "<rsp:Stream %s/>" % a if not t and r.random() < 0.5 else "<rsp:Stream %s>%s</rsp:Stream>" % (a, t)


class Proc:
    """What the server produces for one command."""

    def __init__(self, r, s, cmd):
        self.cmd = cmd
        self.out = {"stdout": b"", "stderr": b""}
        self.state, self.rc = "Pending", None
        self.handed = 0
        n = r.choice([0, 1, 2, 4, 8])
        for i in range(n + 1):
            while r.random() < 0.15:
                cmd.queue.append(("T",))
            last = i == n
            parts = [(r.choice(["stdout", "stdout", "stderr"]), data(r)) for _ in range(gen.few(r, [0, 1, 1, 2, 3, 6], [130, 300], 0.005))]
            state = "Done" if last else r.choice(["Running", "Running", "Running", "Pending"])
            # a server that lost the process says that it is done and gives no exit code
            rc = None if r.random() < 0.1 else r.choice([0, 1, -1, 255, 256, 3221225786, -1073741510, 2147483647, r.randint(-2 ** 31, 2 ** 32 - 1)]) if last else None
            cmd.queue.append(("F", self.responder(r, parts, state, rc)))

    def responder(self, r, parts, state, rc):
        def go(req):
            cid = self.cmd.id
            final = {}      # the last piece of a stream may carry its end mark
            if state == "Done" and r.random() < 0.4:
                final = {n: i for i, (n, d) in enumerate(parts)}
            out = [stream_xml(r, n, cid, d, final.get(n) == i) for i, (n, d) in enumerate(parts)]
            if state == "Done" and r.random() < 0.5:
                for n in ("stdout", "stderr"):
                    if r.random() < 0.7 and n not in final:
                        out.append(stream_xml(r, n, cid, b"", True))
            st = '<rsp:CommandState CommandId="%s" State="%s%s">%s</rsp:CommandState>' % (
                cid, wsmv.STATE, state, "" if rc is None else "<rsp:ExitCode>%s%d%s</rsp:ExitCode>" % (("", rc, "") if r.random() < 0.9 else ("\n", rc, " ")))
            out.insert(r.choice([0, len(out), len(out), len(out)]), st)
            for n, d in parts:
                self.out[n] += d
            self.state, self.rc = state, rc
            self.handed += 1
            return wsmv.reply(req, "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % "".join(out))
        return go


def ms(text_):
    m = re.fullmatch(r"PT(\d+(?:\.\d+)?)S", text_ or "")
    return float(m.group(1)) if m else None


def opened(case, s, sh, kw, again):
    """The server's view of the shell just opened, against what the caller asked for."""
    what = "shell %s%s" % (kw, " opened again" if again else "")
    srv = s.all_shells[-1]
    req = srv.create
    body = req.content[0]
    case.check(len(req.content) == 1 and body.tag == q("rsp:Shell"), "create-body", what)
    kids = {}
    for e in body:
        case.check(e.tag not in kids, "create-body", lambda: "%s twice: %s" % (e.tag, what))
        kids[e.tag] = e
    tx = lambda n: (kids[q("rsp:" + n)].text or "") if q("rsp:" + n) in kids else None
    case.eq(tx("InputStreams"), kw.get("input_streams", "stdin"), "input-streams", what)
    case.eq(tx("OutputStreams"), kw.get("output_streams", "stdout stderr"), "output-streams", what)
    case.eq(tx("WorkingDirectory"), kw.get("working_directory"), "working-directory", what)
    case.eq(tx("Name"), kw.get("name"), "name", what)
    for k, n in (("idle_time_out", "IdleTimeOut"), ("lifetime", "Lifetime")):
        # opened again a shell may ask for the time-out the server chose before
        want = kw.get(k, 7200 if again and k == "idle_time_out" and tx(n) is not None else None)
        case.check((None if tx(n) is None else ms(tx(n))) == want and (tx(n) is None) == (want is None), k, lambda: "%r: %s" % (tx(n), what))
    case.eq(body.attrib.get("ShellId"), None if again else kw.get("id"), "shell-id", what)
    env = kids.get(q("rsp:Environment"))
    got = [(e.attrib.get("Name"), e.text or "") for e in env] if env is not None else []
    want = [(str(k), str(v)) for k, v in kw.get("environment", {}).items()]
    case.check(got == want, "environment", lambda: "got %s, want %s" % (short(got, 1500), short(want, 1500)))
    opts = []
    if kw.get("no_profile"):
        opts.append(("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"}))
    if "codepage" in kw:
        opts.append(("WINRS_CODEPAGE", str(kw["codepage"]), {}))
    case.check(sorted(map(str, req.options)) == sorted(map(str, opts)), "shell-options", lambda: "%s: %s" % (req.options, what))
    case.eq((sh.id or "").upper(), srv.id, "shell-id", "")
    case.ctx.count("shells")
    facts = dict(srv.facts)
    for attr, n in (("owner", "Owner"), ("client_ip", "ClientIP"), ("shell_run_time", "ShellRunTime"), ("shell_inactivity", "ShellInactivity"),
                    ("idle_time_out", "IdleTimeOut"), ("output_streams", "OutputStreams"), ("resource_uri", "ResourceUri")):
        if n in facts:
            case.eq(getattr(sh, attr), facts[n], "shell-facts", lambda: "%s: %s" % (attr, what))
    return srv


def receive(r, sh, p, timeout):
    """What poll_invoke does, through the shell's own call."""
    from pypsrp.exceptions import WSManFaultError
    kw = {} if timeout is None else {"timeout": timeout}
    try:
        state, rc, out = r.choice([lambda: sh.receive(command_id=p.id, **kw), lambda: sh.receive("stdout stderr", p.id, **kw),
                                   lambda: sh.receive(stream="stderr stdout", command_id=p.id, **kw)])()
    except WSManFaultError as e:
        if e.code != 2150858793:
            raise
        return
    p.state, p.rc = state, rc
    p.stdout += out["stdout"]
    p.stderr += out["stderr"]


def shells_case(case):
    from pypsrp.shell import Process, SignalCode, WinRS
    r = case.rng
    s = Server(r)
    s.own_shell_ids = r.random() < 0.4
    plain_facts = s.shell_facts

    def facts(sid, req, body):
        out = []
        for k, v in plain_facts(sid, req, body):
            if k in ("Owner", "ClientIP", "ShellRunTime", "ShellInactivity"):
                v = r.choice([v, "P%dDT%dH%dM%dS" % (r.randint(0, 9), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)), "\u00e9 & <x>"])
                if r.random() < 0.2:
                    continue
            out.append((k, v))
        r.shuffle(out)
        return out
    s.shell_facts = facts
    procs = {}
    s.on_command = lambda cmd: procs.__setitem__(cmd.id, Proc(r, s, cmd))
    trace = []
    with Net(s) as net:
        w = connection(s.host)
        live = []
        for _ in range(r.choice([1, 1, 2])):
            kw = {}
            if r.random() < 0.3:
                kw["id"] = "11111111-2222-3333-4444-%012X" % r.getrandbits(40)
            if r.random() < 0.6:
                kw["environment"] = {text(r, ["PATH", "a b", "X&Y", "\u00e9"]) or "e": r.choice([text(r, ARGS), text(r, ARGS), 5, True])
                                     for _ in range(gen.few(r, [0, 1, 3, 8], [130, 300]))}
            if r.random() < 0.5:
                kw["working_directory"] = text(r, EXES)
            if r.random() < 0.3:
                kw["codepage"] = r.choice([437, 65001, 0, 1252])
            if r.random() < 0.3:
                kw["no_profile"] = r.choice([True, False])
            if r.random() < 0.3:
                kw["idle_time_out"] = r.choice([60, 7200, 1])
            if r.random() < 0.3:
                kw["lifetime"] = r.choice([60, 7200])
            if r.random() < 0.4:
                kw["name"] = text(r, EXES)
            if r.random() < 0.2:
                kw["input_streams"] = r.choice(["stdin", "stdin pr", "a"])
            if r.random() < 0.2:
                kw["output_streams"] = r.choice(["stdout", "stdout stderr", "b"])
            sh = WinRS(w, **kw)
            sh.open()
            srv = opened(case, s, sh, kw, False)
            if r.random() < 0.25:
                sh.close()
                case.check(srv.id in s.gone, "not-closed", "")
                sh.open()
                srv = opened(case, s, sh, kw, True)
                case.ctx.count("opened_again")
            live.append((sh, srv))
        ps = []
        shells = {}
        for _ in range(r.choice([1, 1, 2, 3])):
            sh, srv = r.choice(live)
            exe = text(r, EXES)
            args = r.choice([None, [], [text(r, ARGS) for _ in range(gen.few(r, [1, 2, 5, 20], [130, 400]))]])
            kw = {}
            if r.random() < 0.3:
                kw["no_shell"] = r.choice([True, False])
            keep = list(args) if args is not None else None
            p = Process(sh, exe, args, **kw)
            p.begin_invoke()
            cmd = srv.last_command
            case.eq(cmd.command, exe, "executable", "")
            case.check(cmd.arguments == (keep or []) and args == keep, "arguments", lambda: "got %s, want %s" % (short(cmd.arguments, 1500), short(keep, 1500)))
            case.eq((cmd.skip or "").lower(), str(kw.get("no_shell", False)).lower(), "skip-shell", "")
            case.eq(p.id, cmd.id, "command-id", "")
            ps.append((p, cmd, [], []))
            shells[p] = sh
            case.ctx.count("processes")
        polls = 0
        open_ = list(ps)
        while open_:
            p, cmd, sends, sigs = r.choice(open_)
            k = r.random()
            if k < 0.15 and len(sends) < 8:
                d, end = data(r), r.choice([True, False, None])
                if end is None:
                    p.send(d)
                else:
                    p.send(d, end=end)
                sends.append(("stdin", d, "true" if end in (True, None) else "false"))
            elif k < 0.2 and len(sigs) < 4:
                code, wire = r.choice([(SignalCode.CTRL_C, SIGNAL + "ctrl_c"), (SignalCode.CTRL_BREAK, SIGNAL + "ctrl_break"),
                                       (SignalCode.PS_CTRL_C, "powershell/signal/ctrl_c")])
                p.signal(code)
                sigs.append(wire)
            elif k < 0.25:
                p.end_invoke()
                polls += 1
            else:
                t = r.choice([None, None, 3, 60])
                if r.random() < 0.1:
                    receive(r, shells[p], p, t)
                    case.ctx.count("received_directly")
                else:
                    p.poll_invoke(timeout=t) if t else p.poll_invoke()
                polls += 1
                case.eq(sorted(s.log[-1].find("rsp:Receive/rsp:DesiredStream").text.split()), ["stderr", "stdout"], "desired-streams", "")
                case.eq(ms(s.log[-1].op_timeout), float(t or 20), "operation-timeout", "poll")
            for p2, cmd2, s2, g2 in ps:
                m = procs[cmd2.id]
                what = "process %s after %d polls" % (cmd2.id, polls)
                case.check(p2.stdout == m.out["stdout"], "stdout", lambda: "%s: %s, produced %s" % (what, short(p2.stdout), short(m.out["stdout"])))
                case.check(p2.stderr == m.out["stderr"], "stderr", lambda: "%s: %s, produced %s" % (what, short(p2.stderr), short(m.out["stderr"])))
                case.eq(p2.state, wsmv.STATE + m.state, "state", what)
                case.eq(p2.rc, m.rc, "exit-code", what)
                got = [(n, d, (e or "false").lower()) for n, d, e in cmd2.sends]
                case.check(got == s2, "stdin", lambda: "%s: got %s, sent %s" % (what, short(got), short(s2)))
                case.eq([x.lower() for x in cmd2.signals], g2, "signals", what)
            if p.state.endswith("/Done"):
                open_ = [x for x in open_ if x[0] is not p]
            if polls > 20000:
                raise Violation("polls-for-ever", "")
        for p, cmd, sends, sigs in ps:
            case.check(not cmd.queue, "returned-before-the-end", lambda: "%d responses left" % len(cmd.queue))
            if r.random() < 0.5:
                p.signal(SignalCode.TERMINATE)
                case.eq([x.lower() for x in cmd.signals], sigs + [SIGNAL + "terminate"], "signals", "terminate")
            case.ctx.count("bytes", len(p.stdout) + len(p.stderr))
        case.ctx.count("polls", polls)
        case.ctx.count("stdin", sum(len(x[2]) for x in ps))
        for sh, srv in live:
            sh.close()
            case.check(srv.id in s.gone, "not-closed", "")
        trace = [(len(live), polls, [len(p.stdout) for p, _, _, _ in ps], [len(x[2]) for x in ps])]
    case.note(shells=len(live), processes=len(ps), polls=polls)
    case.key(trace)


def main(ctx):
    ctx.rule("one or two shells with random constructor arguments, one to three processes with random command lines polled in turn, random stdin and "
             "signals in between; after every step output, state, exit code of all processes against what the server has handed out and what it has "
             "received. distinct: shape of the session.")
    ctx.assumptions.append("texts hold only characters XML can carry; a process is started once; input pieces fit an envelope")
    ctx.each("shells", 600, 40000, shells_case)
    for k, n in [("shells", 300), ("processes", 300), ("polls", 1000), ("stdin", 100), ("opened_again", 30), ("received_directly", 30)]:
        ctx.require(k, n)
