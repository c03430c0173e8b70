"""C10: reference-model monitor on CREATE_PIPELINE: a model of the builder against what the server decodes."""
from queue import Queue

from psrpmon import clixml, gen, values
from psrpmon.clixml import Obj, P
from psrpmon.core import short
from psrpmon.server import Net
from psrpmon.session import make, open_pool

RESULT = "System.Management.Automation.Runspaces.PipelineResultTypes"
NAMES = {0: "None", 1: "Output", 2: "Error", 3: "Warning", 8: "Null"}
TO = {"none": 0, "output": 1, "null": 8}
LATE = {"error": "2.2", "warning": "2.2", "verbose": "2.2", "debug": "2.2", "information": "2.3"}
STREAMS = ("Error", "Warning", "Verbose", "Debug", "Information")


def ver(s):
    return tuple(int(x) for x in s.split("."))


class Cmd:
    """Model of one command."""

    def __init__(self, text, script, scope):
        self.text, self.script, self.scope = text, script, scope
        self.args = []
        self.end = False
        self.my = self.to = self.prev = 0
        self.merge = dict.fromkeys(STREAMS, 0)


def enum_check(case, o, value, name, what):
    case.check(isinstance(o, Obj) and o.types and o.types[0] == RESULT, "merge-shape", lambda: "%s: %r" % (what, o))
    v = [p for p in o.base if isinstance(p, P)]
    case.check(len(v) == 1 and v[0].tag == "I32" and v[0].val == value and (name is None or o.tostr == name), "merge-setting",
               lambda: "%s is %r %r on the wire, %s was asked for" % (what, o.tostr, v, value))


def command_check(case, o, c, proto, what):
    case.check(o.get("Cmd").tag == "S" and o.get("Cmd").val == c.text, "command-text", lambda: "%s: %r, want %r" % (what, o.get("Cmd"), c.text))
    case.check(o.get("IsScript").tag == "B" and o.get("IsScript").val is c.script, "script-flag", what)
    s = o.get("UseLocalScope")
    case.check((s.tag == "Nil") if c.scope is None else (s.tag == "B" and s.val is c.scope), "scope-flag", lambda: "%s: %r, want %r" % (what, s, c.scope))
    args = o.get("Args").items
    case.check(len(args) == len(c.args), "parameter-count", lambda: "%s: %d parameters, %d given" % (what, len(args), len(c.args)))
    for i, (a, (n, m)) in enumerate(zip(args, c.args)):
        nn = a.get("N")
        case.check((nn.tag == "Nil") if n is None else (nn.tag == "S" and nn.val == n), "parameter-name", lambda: "%s[%d]: %r, want %r" % (what, i, nn, n))
        d = clixml.diff(a.get("V"), m)
        case.check(d is None, "parameter-value", lambda: "%s[%d] %r: %s" % (what, i, n, d))
    enum_check(case, o.get("MergeMyResult"), c.my, NAMES[c.my], what + " MergeMyResult")
    enum_check(case, o.get("MergeToResult"), c.to, NAMES[c.to], what + " MergeToResult")
    enum_check(case, o.get("MergePreviousResults"), c.prev, None if c.prev == 0 else "Output, Error", what + " MergePreviousResults")
    for st in STREAMS:
        supported = ver(proto) >= ver(LATE[st.lower()])
        case.check(o.has("Merge" + st) == supported, "merge-presence", lambda: "%s: Merge%s on protocol %s" % (what, st, proto))
        if supported:
            enum_check(case, o.get("Merge" + st), c.merge[st], NAMES[c.merge[st]], "%s Merge%s" % (what, st))


def host_check(case, h, host):
    raw = host.ui.raw_ui if host is not None and host.ui is not None else None
    case.eq([h.get(k).val for k in ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost")],
            [host is None, host is None or host.ui is None, raw is None, host is None], "host-flags")
    case.check((raw is not None) == (h.has("_hostDefaultData") and getattr(h.get("_hostDefaultData"), "tag", "") != "Nil"), "host-data", "presence")
    if raw is None:
        return
    data = h.get("_hostDefaultData").get("data")
    got = {k.val: v for k, v in data.pairs}
    case.eq(sorted(got), list(range(10)), "host-data", "keys")

    def coord(v, a, b):
        return (v.get("V").get(a).val, v.get("V").get(b).val)
    H = "System.Management.Automation.Host."
    case.eq([got[i].get("T").val for i in range(10)],
            ["System.ConsoleColor"] * 2 + [H + "Coordinates"] * 2 + ["System.Int32"] + [H + "Size"] * 4 + ["System.String"], "host-data", "types")
    case.eq([got[0].get("V").val, got[1].get("V").val], [raw.foreground_color.value, raw.background_color.value], "host-data", "colours")
    for i, n in ((2, "cursor_position"), (3, "window_position")):
        w = getattr(raw, n)
        case.eq(coord(got[i], "x", "y"), (w.x, w.y), "host-data", n)
    case.eq(got[4].get("V").val, raw.cursor_size, "host-data", "cursor size")
    for i, n in ((5, "buffer_size"), (6, "window_size"), (7, "max_window_size"), (8, "max_physical_window_size")):
        w = getattr(raw, n)
        case.eq(coord(got[i], "width", "height"), (w.width, w.height), "host-data", n)
    case.eq(got[9].get("V").val, raw.window_title, "host-data", "title")


def some_host(r):
    from pypsrp.complex_objects import Color, Coordinates, Size
    from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface
    k = r.random()
    if k < 0.3:
        return None
    if k < 0.45:
        return PSHost(None, None, False, "h", None, None, "1.0")
    if k < 0.6:
        return PSHost(None, None, False, "h", None, PSHostUserInterface(), "1.0")

    def size():
        return Size(width=r.randint(0, 5000), height=r.randint(0, 5000))

    def co():
        return Coordinates(x=r.randint(-5, 5000), y=r.randint(-5, 5000))
    raw = PSHostRawUserInterface(gen.txt(r), r.randint(0, 100), Color(value=r.randint(0, 15)), Color(value=r.randint(0, 15)), co(), co(), size(), size(),
                                 size(), size())
    return PSHost(None, None, False, "h", None, PSHostUserInterface(raw), "1.0")


def some_value(case, depth):
    """A value, now and then one that was used before: one object may be given several times."""
    r = case.rng
    seen = case.__dict__.setdefault("given", [])
    if seen and r.random() < 0.2:
        return r.choice(seen)
    x = values.value(r, depth)
    seen.append(x)
    return x


def statements(cmds):
    out, cur = [], []
    for c in cmds:
        cur.append(c)
        if c.end:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def edit(case, ps, model):
    """Changes what was built before through the commands and parameters themselves, as between two runs."""
    r = case.rng
    i = r.randrange(len(model))
    c, real = model[i], ps.commands[i]
    k = r.choice(["value"] * 4 + ["name", "text", "script", "scope", "end", "drop", "remove", "move"])
    if k in ("value", "name", "drop") and c.args:
        j = r.randrange(len(c.args))
        n, m = c.args[j]
        if k == "drop":
            del c.args[j], real.args[j]
        elif k == "name":
            n = real.args[j].name = r.choice([None, gen.txt(r, 0.4)])
            c.args[j] = (n, m)
        else:
            v, m = some_value(case, r.choice([0, 0, 1])) if r.random() < 0.8 else (None, P("Nil"))
            real.args[j].value = v
            c.args[j] = (n, m)
        case.ctx.count("edited_parameters")
    elif k == "text":
        c.text = real.cmd = gen.txt(r)
    elif k == "script":
        c.script = real.is_script = not c.script
    elif k == "scope":
        c.scope = real.use_local_scope = r.choice([None, True, False])
    elif k == "end":
        c.end = real.end_of_statement = not c.end
    elif k == "remove":
        del model[i], ps.commands[i]
    elif k == "move":
        model.insert(0, model.pop(i))
        ps.commands.insert(0, ps.commands.pop(i))


def build(case, ps, model, proto, steps):
    """Applies random builder calls to ps and to the model; returns how many bad requests were refused."""
    from pypsrp.complex_objects import Command, CommandParameter
    from pypsrp.exceptions import InvalidPSRPOperation
    r = case.rng
    refused = 0
    log = []
    real = ps

    class Fluent:
        """Every builder call gives the pipeline back, for the next call to be written behind it."""

        def __getattr__(self, name):
            def call(*a, **kw):
                got = getattr(real, name)(*a, **kw)
                case.check(got is real, "builder-result", lambda: "%s returned %s" % (name, short(repr(got))))
                return got
            return call
    ps = Fluent()
    for _ in range(steps):
        k = r.random()
        if not model or k < 0.3:
            t = gen.txt(r)
            scope = r.choice([None, None, True, False])
            j = r.random()
            if j < 0.45:
                (ps.add_script(t) if scope is None and r.random() < 0.5 else ps.add_script(t, scope))
                model.append(Cmd(t, True, scope))
            elif j < 0.85:
                (ps.add_cmdlet(t) if scope is None and r.random() < 0.5 else ps.add_cmdlet(t, use_local_scope=scope))
                model.append(Cmd(t, False, scope))
            else:
                script = r.random() < 0.5
                c = Cmd(t, script, scope)
                args = []
                for _ in range(r.choice([0, 1, 2])):
                    n = r.choice([None, gen.txt(r, 0.4)])
                    v, m = some_value(case, 1)
                    args.append(CommandParameter(name=n, value=v))
                    c.args.append((n, m))
                end = r.random() < 0.2
                c.end = end
                ps.add_command(Command(t, protocol_version=proto, is_script=script, use_local_scope=scope, args=args, end_of_statement=end))
                model.append(c)
            log.append("cmd")
            continue
        c = model[-1]
        if r.random() < 0.07:
            edit(case, real, model)
            log.append("edit")
            if not model:
                log.append("clear")
            continue
        if k < 0.52:
            v, m = some_value(case, r.choice([0, 0, 1, 2]))
            j = r.random()
            if j < 0.4:
                ps.add_argument(v)
                c.args.append((None, m))
            elif j < 0.8:
                n = gen.txt(r, 0.4)
                if r.random() < 0.2:
                    ps.add_parameter(n)
                    m = P("Nil")
                else:
                    ps.add_parameter(n, v)
                c.args.append((n, m))
            else:
                d, used = {}, set()
                for _ in range(gen.few(r, [0, 1, 2, 4], [40, 130])):
                    n = gen.name(r, used)
                    v, m = some_value(case, 1)
                    d[n] = v
                    c.args.append((n, m))
                ps.add_parameters(d)
            log.append("arg")
        elif k < 0.66:
            ps.add_statement()
            c.end = True
            log.append("statement")
        elif k < 0.95:
            what = r.choice(["error", "warning", "verbose", "debug", "information", "all", "previous", "reset", "error", "all"])
            log.append("merge_" + what)
            if what == "previous":
                on = r.random() < 0.6
                ps.merge_previous(on)
                c.prev = 3 if on else 0
                continue
            if what == "reset":
                ps.merge_reset()
                c.prev = c.my = c.to = 0
                c.merge = dict.fromkeys(STREAMS, 0)
                continue
            to = r.choice(["none", "output", "output", "null", "OUTPUT", "error", "", "all", "verbose"] if r.random() < 0.5 else ["none", "output"])
            ok = to in TO and not (what in ("error", "all") and to == "null") and (what not in LATE or what == "error" or ver(proto) >= ver(LATE[what]))
            try:
                getattr(ps, "merge_" + what)(*([] if to == "none" and r.random() < 0.5 else [to]))
                got = None
            except InvalidPSRPOperation as e:
                got = e
            case.check((got is None) == ok, "merge-refusal", lambda: "merge_%s(%r) on protocol %s: %r" % (what, to, proto, got))
            if not ok:
                refused += 1
                continue
            for st in STREAMS:
                if what == st.lower() or what == "all":
                    c.merge[st] = TO[to]
            if what in ("error", "all"):
                c.my, c.to = (0, 0) if to == "none" else (2, TO[to])
        elif k < 0.97:
            ps.clear_commands()
            model.clear()
            log.append("clear")
    return refused, log


def verify(case, s, cmd, want, n):
    d = s.model(cmd.shell, cmd.create)
    pl = d.get("PowerShell")
    proto = s.proto
    sts = statements(want["cmds"])
    extra = pl.get("ExtraCmds") if pl.has("ExtraCmds") else P("Nil")
    if len(sts) == 1:
        case.check(isinstance(extra, P) and extra.tag == "Nil" or getattr(extra, "items", None) == [], "statements", lambda: "%d: ExtraCmds for one statement" % n)
    else:
        case.check(getattr(extra, "items", None) is not None and len(extra.items) == len(sts), "statements",
                   lambda: "run %d: %r statements on the wire, %d built" % (n, extra, len(sts)))
        for i, (e, st) in enumerate(zip(extra.items, sts)):
            cs = e.get("Cmds").items
            case.check(len(cs) == len(st), "statements", lambda: "run %d statement %d: %d commands, %d built" % (n, i, len(cs), len(st)))
            for j, (o, c) in enumerate(zip(cs, st)):
                command_check(case, o, c, proto, "run %d statement %d command %d" % (n, i, j))
    cs = pl.get("Cmds").items
    case.check(len(cs) == len(sts[0]), "statements", lambda: "run %d: %d first commands, %d built" % (n, len(cs), len(sts[0])))
    for j, (o, c) in enumerate(zip(cs, sts[0])):
        command_check(case, o, c, proto, "run %d command %d" % (n, j))
    h = pl.get("History")
    case.check((h.tag == "Nil") if want["history"] is None else (h.tag, h.val) == ("S", want["history"]), "history", lambda: repr(h))
    for where, name, w in ((pl, "IsNested", want["nested"]), (d, "IsNested", want["nested"]), (d, "AddToHistory", want["add"]),
                           (pl, "RedirectShellErrorOutputPipe", want["redirect"]), (d, "NoInput", True)):
        v = where.get(name)
        case.check(v.tag == "B" and v.val is w, "flag-" + name, lambda: "run %d: %s is %r, want %r" % (n, name, v, w))
    for name, w, t in (("ApartmentState", want["apartment"], "System.Management.Automation.Runspaces.ApartmentState"),
                       ("RemoteStreamOptions", want["options"], "System.Management.Automation.Runspaces.RemoteStreamOptions")):
        o = d.get(name)
        v = [p.val for p in o.base if isinstance(p, P)]
        case.check(o.types[0] == t and v == [w], "option-" + name, lambda: "run %d: %s is %r %r, want %r" % (n, name, o.tostr, v, w))
    if want["options"]:
        case.eq(d.get("RemoteStreamOptions").tostr, "AddInvocationInfo" if want["options"] == 15 else ", ".join(
            "AddInvocationInfoTo%sRecord" % n for i, n in enumerate(["Error", "Warning", "Debug", "Verbose"]) if want["options"] >> i & 1),
            "option-RemoteStreamOptions", "name")
    case.eq(d.get("ApartmentState").tostr, ["STA", "MTA", "UNKNOWN"][want["apartment"]], "option-ApartmentState", "name")
    host_check(case, d.get("HostInfo"), want["host"])


def pipeline_case(case):
    r = case.rng
    from pypsrp.powershell import PowerShell
    s = make(case, proto=r.choice(["2.1", "2.2", "2.3", "2.3", "2.10", "2.3.1", "3.0"]))
    s.on_pipeline = lambda cmd: s.finish(cmd)
    host = some_host(r)
    pool_ap = r.choice([0, 1, 2])
    with Net(s) as net:
        pool = open_pool(net, apartment_state=pool_ap, host=host)
        ps = PowerShell(pool)
        model = []
        logs, refused = [], 0
        args = {}
        for n in range(r.choice([1, 1, 2, 3])):
            if n and r.random() < 0.5:
                for _ in range(r.choice([1, 3, 8])):
                    if model:
                        edit(case, ps, model)
                        logs.append("edit")
            f, lg = build(case, ps, model, s.proto, gen.few(r, [1, 2, 4, 8, 14], [150, 300], 0.02))
            refused += f
            logs.append(lg)
            if not model:
                f, lg = build(case, ps, model, s.proto, 1)
            want = {"cmds": model, "host": host, "nested": False, "history": ps.history_string, "add": False, "redirect": False, "apartment": pool_ap,
                    "options": 15}
            if r.random() < 0.5:
                want["history"] = ps.history_string = gen.txt(r)
            args = {}
            if r.random() < 0.5:
                args["add_to_history"] = want["add"] = r.random() < 0.6
            if r.random() < 0.6:
                args["apartment_state"] = r.choice([0, 1, 2, None])
                if args["apartment_state"] is not None:
                    want["apartment"] = args["apartment_state"]
            if r.random() < 0.5:
                args["redirect_shell_error_to_out"] = want["redirect"] = r.random() < 0.6
            if r.random() < 0.5:
                args["remote_stream_options"] = want["options"] = r.randint(0, 15)
            ps.begin_invoke(**args)
            cmd = s.all_shells[0].last_command
            verify(case, s, cmd, want, n)
            if r.random() < 0.25:
                inner = ps.create_nested_power_shell()
                im = []
                build(case, inner, im, s.proto, r.choice([1, 3]))
                if im:
                    inner.begin_invoke()
                    c2 = s.all_shells[0].last_command
                    w2 = {"cmds": im, "host": host, "nested": True, "history": None, "add": False, "redirect": False, "apartment": pool_ap, "options": 15}
                    verify(case, s, c2, w2, n)
                    inner.end_invoke()
                    case.ctx.count("nested")
            ps.end_invoke()
            case.ctx.count("runs")
            case.ctx.count("reruns", n > 0)
            case.ctx.count("commands", len(model))
            case.ctx.count("multi_statement", len(statements(model)) > 1)
        case.ctx.count("refused_merges", refused)
        case.note(calls=logs, proto=s.proto, commands=len(model), last_args=args)
        case.key(logs, s.proto)
        pool.close()


def main(ctx):
    ctx.rule("random sequences of builder calls (cmdlets, scripts, command objects, parameters of all value kinds, statements, valid and invalid merges, "
             "clears), history, options and hosts, on protocols 2.1-3.0, also run again after adding to the same object and nested; the decoded create "
             "message is compared with a model of the calls; distinct: the sequence of calls and protocol.")
    ctx.each("pipelines", 330, 12000, pipeline_case)
    for k in ("nested", "reruns", "multi_statement", "refused_merges"):
        ctx.require(k, 5)
