"""C25: what the one-call helpers send and return, against what the server read and put out; CLIXML error text cleaning."""
from checks.c08 import KINDS, Script, check_pipeline
from checks.c22 import Proc, text as cmdtext
from psrpmon import clixml, gen, msgs
from psrpmon.clixml import P
from psrpmon.core import Halt, Violation, short
from psrpmon.files import break_at, client
from psrpmon.server import Net
from psrpmon.session import make, sprinkle

COMMANDS = ["whoami", "dir /b C:\\", "echo \"a b\" & echo %PATH%", "powershell -EncodedCommand AAA=", "type <x> | more", "a" * 5000, "\u65e5\u672c \u00e9", "x\ty", " lead"]
SINGLE = ["437", "850", "latin-1", "cp866"]
MULTI = ["utf-8", "utf-16-le", "cp932", "gb18030", "utf-8", "cp1252"]
TEXTS = ["", "plain\r\n", "two\r\nlines", "\u00e9\u00fc", "\u65e5\u672c\r\n", "#< CLIXML\r\n<Objs/>", "\u20ac", "tab\t\x1b[0m"]


def fits(t, enc):
    try:
        return t.encode(enc).decode(enc) == t
    except UnicodeError:
        return False


class Fixed(Proc):
    """A process that puts out given bytes, cut anywhere."""

    def __init__(self, r, s, cmd, out, err, rc):
        self.cmd = cmd
        self.out = {"stdout": b"", "stderr": b""}
        self.state, self.rc, self.handed = "Pending", None, 0
        left = {"stdout": out, "stderr": err}
        while True:
            if r.random() < 0.1:
                cmd.queue.append(("T",))
            parts = []
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                n = r.choice(["stdout", "stderr"])
                k = r.choice([1, 2, 3, 10, 1000, len(left[n]) or 1])
                parts.append((n, left[n][:k]))
                left[n] = left[n][k:]
            last = not any(left.values()) and r.random() < 0.5
            cmd.queue.append(("F", self.responder(r, parts, "Done" if last else "Running", rc if last else None)))
            if last:
                break


def cmd_case(case):
    r = case.rng
    s = make(case)
    state = {}
    broken = []

    def on_command(cmd):
        state["cmd"] = cmd
        state["n"] = state.get("n", 0) + 1
        state["proc"] = Fixed(r, s, cmd, *state["plan"])
    s.on_command = on_command
    with Net(s), client() as c:
        for call in range(r.choice([1, 1, 2, 3])):
            kw = {}
            enc = "437"
            k = r.random()
            if k < 0.7:
                enc = r.choice(SINGLE + MULTI)
                kw["encoding"] = enc
            if enc in SINGLE:
                out, err = r.randbytes(r.choice([0, 1, 5, 300])), r.randbytes(r.choice([0, 0, 3, 300]))
            else:
                out, err = ["".join(r.choice([t for t in TEXTS if fits(t, enc)]) for _ in range(gen.few(r, [0, 1, 3, 20], [3000, 20000]))).encode(enc) for _ in range(2)]
            rc = r.choice([0, 0, 1, 2, 255, -1, 3221225786, 2147483647, None])
            state["plan"] = (out, err, rc)
            if r.random() < 0.5:
                kw["environment"] = {n: cmdtext(r, COMMANDS) or "v" for n in r.sample(["PATH", "a b", "X&Y", "\u00e9", "TEMP"], r.choice([0, 1, 3]))}
            command = cmdtext(r, COMMANDS)
            if r.random() < 0.15:
                break_at(s, r, len(s.log) + r.choice([0, 1, 2, 3, 5]), broken)
            nb, n0 = len(broken), state.get("n", 0)
            got = exc = None
            try:
                got = c.execute_cmd(command, **kw)
            except (Violation, Halt):
                raise
            except Exception as e:
                exc = e
            lost = broken[nb:]
            what = "call %d %s broken %s" % (call, {k: short(v, 60) for k, v in kw.items()}, lost)
            s.before = None
            if state.get("n", 0) > n0:
                cmd = state["cmd"]
                case.check(state["n"] == n0 + 1, "ran-twice", what)
                case.eq(cmd.command, command, "command", what)
                case.check(cmd.arguments == [], "command", lambda: "arguments %s" % short(cmd.arguments))
                env = {e.attrib["Name"]: e.text or "" for e in cmd.shell.create.findall("rsp:Shell/rsp:Environment/rsp:Variable")}
                case.eq(env, kw.get("environment", {}), "environment", what)
            if exc is None:
                case.check(not lost or lost == [("Receive", 1)], "error-swallowed", what)
                case.check(state.get("n", 0) == n0 + 1, "did-not-run", what)
                case.check(isinstance(got, tuple) and len(got) == 3, "result", lambda: "%s: %s" % (what, short(got)))
                case.eq(got[0], out.decode(enc), "stdout", what)
                case.eq(got[1], err.decode(enc), "stderr", what)
                if rc is None:      # the server gave none: whatever is returned must not read as a success
                    case.check(got[2] != 0, "exit-code", lambda: "%s: %r without an exit code" % (what, got[2]))
                else:
                    case.eq(got[2], rc, "exit-code", what)
                case.ctx.count("commands")
            else:
                case.check(lost, "failed", lambda: "%s: %r" % (what, exc))
                case.ctx.count("command_errors")
                break
        case.note(calls=call + 1, last=what)
    case.key(what, rc, len(out))


class Lines(Script):
    def __init__(self, s, cmd, r, lines, n, end):
        self.items, self.out = [], 0
        todo = [("output", P("S", l)) for l in lines] + [None] * n
        order = list(range(len(todo)))
        order.sort(key=lambda i: (i if i < len(lines) else r.uniform(-1, len(lines) + 1)))
        for i in order:
            if todo[i]:
                self.items.append(todo[i])
                s.push(cmd, "PIPELINE_OUTPUT", todo[i][1])
            else:
                rec = msgs.record(r, r.choice(KINDS))
                self.items.append((rec.kind, rec))
                s.push(cmd, msgs.RECORD_TYPE[rec.kind], rec.node)
        self.state, self.err = end
        self.items.append(("state", self.err))
        s.push(cmd, "PIPELINE_STATE", msgs.pipeline_state(self.state, self.err.node if self.err else None))
        self.out = len(self.items)


def commands(s, cmd):
    """[[(text, is script, [(name, value node)])...] per statement]"""
    pl = s.model(cmd.shell, cmd.create).get("PowerShell")

    def one(o):
        return (o.get("Cmd").val, o.get("IsScript").val, [(a.get("N").val if a.get("N").tag == "S" else None, a.get("V")) for a in o.get("Args").items])
    if pl.has("ExtraCmds") and getattr(pl.get("ExtraCmds"), "items", None):
        return [[one(o) for o in e.get("Cmds").items] for e in pl.get("ExtraCmds").items]
    return [[one(o) for o in pl.get("Cmds").items]]


def val(args, name):
    for n, v in args:
        if n is not None and n.lower() == name.lower():
            return getattr(v, "val", v)
    return None


def ps_case(case):
    from pypsrp.powershell import PSDataStreams
    r = case.rng
    s = make(case)
    broken = []
    state = {}

    def on_pipeline(cmd):
        state["cmd"] = cmd
        state["n"] = state.get("n", 0) + 1
        state["script"] = Lines(s, cmd, r, *state["plan"])
        sprinkle(cmd, r, 0.08)
    s.on_pipeline = on_pipeline
    with Net(s), client() as c:
        for call in range(r.choice([1, 1, 2])):
            lines = [r.choice(["", "line", gen.txt(r), "two\nlines", " indented ", "a\r"]) for _ in range(gen.few(r, [0, 1, 2, 5, 30], [130, 1100]))]
            end = r.choice([(4, None), (4, None), (4, None), (5, msgs.error_record(r)), (5, None), (3, msgs.error_record(r))])
            state["plan"] = (lines, r.choice([0, 0, 2, 6]), end)
            script = r.choice(["Get-Process | Select Name", gen.txt(r) or "x", "$a = '_x000A_'\r\n\"$a\"\n", "# comment", "x" * 40000, "'" + gen.txt(r)])
            kw = {}
            if r.random() < 0.5:
                names = r.sample(["PATH", "a b", "X&Y", "\u00e9", "TEMP", "_x0041_", gen.txt(r, 0.5) or "n"], r.choice([0, 1, 2, 4]))
                kw["environment"] = {n: r.choice(["v", gen.txt(r), "%PATH%", "$env:X", ""]) for n in names}
            if r.random() < 0.3:
                kw["configuration_name"] = r.choice(["Microsoft.PowerShell", "Other.Conf"])
            if r.random() < 0.15:
                break_at(s, r, len(s.log) + r.choice([0, 1, 2, 3, 5, 8]), broken)
            nb, n0 = len(broken), state.get("n", 0)
            got = exc = None
            try:
                got = c.execute_ps(script, **kw)
            except (Violation, Halt):
                raise
            except Exception as e:
                exc = e
            lost = broken[nb:]
            s.before = None
            what = "call %d: %d lines, end %s, environment %s, broken %s" % (call, len(lines), end[0], short(kw.get("environment"), 80), lost)
            if state.get("n", 0) > n0:
                cmd = state["cmd"]
                case.check(state["n"] == n0 + 1, "ran-twice", what)
                case.check(cmd.shell.uri.endswith("/" + kw.get("configuration_name", "Microsoft.PowerShell")), "configuration", cmd.shell.uri)
                sts = commands(s, cmd)
                case.check(val(sts[-1][0][2], "Command") == script or (sts[-1][0][0] == script and sts[-1][0][1]), "script",
                           lambda: "%s: sent %s" % (what, short(sts[-1])))
                case.check(any(x[0].lower() == "out-string" and val(x[2], "Stream") in (None, True) and any((n or "").lower() == "stream" for n, _ in x[2])
                               for x in sts[-1][1:]), "output-not-text", lambda: short(sts[-1]))
                env = [(val(st[0][2], "Name"), val(st[0][2], "Value")) for st in sts[:-1]]
                case.check(env == list(kw.get("environment", {}).items()), "environment", lambda: "%s: sent %s" % (what, short(env)))
                case.check(all(st[0][0].lower() in ("new-item", "set-item") and str(val(st[0][2], "Path")).lower().startswith("env:") for st in sts[:-1]),
                           "environment", lambda: short(sts))
            if exc is None:
                case.check(not lost or lost == [("Receive", 1)], "error-swallowed", what)
                case.check(state.get("n", 0) == n0 + 1, "did-not-run", what)
                out, streams, errors = got
                case.eq(out, "\n".join(clixml.from_units(clixml.units(l)) for l in lines), "output", what)
                case.check(type(streams) is PSDataStreams, "streams", repr(type(streams)))
                case.eq(errors, end[0] == 5, "had-errors", what)
                fake = type("Pipe", (), {})()
                fake.output, fake.streams, fake.state, fake.had_errors = list(lines), streams, end[0], errors
                check_pipeline(case, fake, state["script"], what)
                case.ctx.count("scripts")
            else:
                case.check(lost, "failed", lambda: "%s: %r" % (what, exc))
                case.ctx.count("script_errors")
                break
        case.note(calls=call + 1, last=what)
    case.key(what, short(script, 40))


OTHER = ["", "stderr line", "<Objs/>", " #< CLIXML\r\n<Objs/>", "#<CLIXML\r\n", "\ufeff#< CLIXML\r\n<Objs/>", "error\r\n#< CLIXML\r\n<Objs></Objs>", "_x000A_", "#< clixml\r\n<Objs/>"]
NOISE = ['<S S="Warning">warn_x000D__x000A_</S>', '<S S="verbose">v</S>', '<S S="debug">d</S>', '<S>bare</S>', '<I32 S="Error">5</I32>',
         '<Obj S="progress" RefId="0"><TN RefId="0"><T>System.Management.Automation.PSCustomObject</T><T>System.Object</T></TN><MS><I64 N="SourceId">1</I64>'
         '<PR N="Record"><AV>Preparing modules for first use.</AV><AI>0</AI><Nil /><PI>-1</PI><PC>-1</PC><T>Completed</T><SR>-1</SR><SD> </SD></PR></MS></Obj>',
         '<Obj S="information" RefId="3"><MS><S N="x" S="Error">not an error line</S></MS></Obj>', "<Nil />"]


def clixml_case(case):
    from pypsrp.client import Client
    r = case.rng
    if r.random() < 0.15:
        t = r.choice(OTHER) if r.random() < 0.5 else gen.txt(r)
        if t.startswith("#< CLIXML"):
            return
        case.eq(Client.sanitise_clixml(t), t, "other-text-changed", "")
        case.ctx.count("other_texts")
        case.key(t)
        return
    lines, body = [], []
    for _ in range(gen.few(r, [0, 1, 1, 2, 3, 10], [130, 300])):
        while r.random() < 0.25:
            body.append(r.choice(NOISE))
        k = r.random()
        if k < 0.4:
            t = r.choice(["At line:1 char:1", "+ ~~~~", " ", "fake : The term", "", "    + FullyQualifiedErrorId : X"]) + "\r\n"
        elif k < 0.8:
            t = gen.txt(r)
        else:
            # texts that read as an escape only when put next to one another
            t = r.choice(["_", "x000A_", "_x00", "0A_", "x005F_x0041_", "_x", "5F_", "tail_"])
        lines.append(t)
        body.append('<S S="Error">%s</S>' % clixml.xml_text(clixml.escape(t, r)) if t or r.random() < 0.5 else '<S S="Error" />')
    while r.random() < 0.25:
        body.append(r.choice(NOISE))
    doc = "#< CLIXML" + r.choice(["\r\n", "\r\n", "\n", ""]) + '<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04">' + \
        r.choice(["", "", "\r\n"]).join(body) + "</Objs>" + r.choice(["", "", "\r\n"])
    got = Client.sanitise_clixml(doc)
    want = "".join(clixml.from_units(clixml.units(t)) for t in lines)
    case.eq(gen.norm_pairs(got), gen.norm_pairs(want), "error-text", short(doc, 1500))
    case.ctx.count("clixml_documents")
    case.ctx.count("clixml_lines", len(lines))
    case.note(lines=len(lines), doc=doc)
    case.key(doc)


def main(ctx):
    ctx.rule("random command lines, encodings, environments and byte output cut anywhere; random scripts, environments, output lines, records and endings; "
             "lost connections and faults at any request; CLIXML error documents with escapes at element borders, other streams and nested texts. distinct: the whole input.")
    ctx.assumptions.append("bytes the encoding cannot decode, and text that starts with the CLIXML header but holds no document, are not claimed")
    ctx.each("execute_cmd", 350, 12000, cmd_case)
    ctx.each("execute_ps", 220, 8000, ps_case)
    ctx.each("sanitise_clixml", 3000, 150000, clixml_case)
    for k, n in [("commands", 200), ("scripts", 150), ("clixml_documents", 1500), ("other_texts", 100), ("command_errors", 10), ("script_errors", 8)]:
        ctx.require(k, n)
