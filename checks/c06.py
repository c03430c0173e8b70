"""C06: strict reassembly monitor on everything the client fragments, and a size monitor on every envelope."""
from psrpmon import clixml, gen, msgs
from psrpmon.clixml import Map, P
from psrpmon.core import short
from psrpmon.server import Net
from psrpmon.session import make, open_pool


def text(r, n):
    return r.choice(["x", "ab", "é", "日", "&", "_x"]) * n if r.random() < 0.3 else "x" * n


def sizes(case, s, what):
    """No request body is larger than the maximum envelope size it announces."""
    for q in s.log[case.__dict__.get("sized", 0):]:
        case.check(len(q.raw) <= int(q.max_size), "envelope-too-large",
                   lambda: "%s: %s request of %d bytes, the limit in force is %s" % (what, q.action, len(q.raw), q.max_size))
    case.sized = len(s.log)


def in_force(case, s, want):
    """The announced size is the configured one, raised once the server is known to take more."""
    opened = False
    for q in s.log:
        if q.action in ("Command", "Send", "Signal", "Delete") and opened:
            case.eq(int(q.max_size), want[1], "envelope-size-in-force", q.action)
        elif q.action == "Create":
            case.eq(int(q.max_size), want[0], "envelope-size-in-force", q.action)
        if q.action in ("Command", "Delete"):
            opened = True


def issue(case, s, sh, sent, kind, value):
    sent.append((kind, value))


def session_case(case):
    r = case.rng
    from pypsrp.host import PSHost, PSHostUserInterface
    from pypsrp.powershell import PowerShell
    proto = r.choice(["2.1", "2.2", "2.3"])
    s = case.server = make(case, proto=proto)
    s.config_kb = r.choice([4, 5, 64, 150, 150, 500, 4096])
    kw = {}
    k = r.random()
    if k < 0.3:
        size = 153600
        if k < 0.1:
            kw["max_envelope_size"] = size
    else:
        size = kw["max_envelope_size"] = r.choice([4096, 5000, 8192, 20480, 65536, r.choice([153599, 153601, 512000]), r.randint(3800, 40000), r.randint(3800, 6000)])
    if r.random() < 0.3:
        kw["locale"] = r.choice(["en-US", "de-DE-x-some-long-private-subtag"])
        kw["path"] = r.choice(["wsman", "a/rather/long/path/to/the/endpoint"])
    host_text = []

    class UI(PSHostUserInterface):
        def ReadLine(self, runspace, pipeline):
            host_text.append(text(r, r.choice([0, 10, 3000, 20000])))
            return host_text[-1]
    host = PSHost(None, None, False, "h", None, UI(), "1.0") if r.random() < 0.4 else None
    conf = r.choice(["Microsoft.PowerShell", "m", "microsoft.windows.servermanagerworkflows", "c" * r.randint(1, 240),
                     r.choice("cé€") * r.randint(100, max(101, min(900, min(size, s.config_kb * 1024) // 25)))])
    big = min(size, 160000)
    order = []

    def on_pipeline(cmd):
        for i in range(getattr(case, "calls", 0)):
            s.push(cmd, "PIPELINE_HOST_CALL", msgs.host_call(i + 1, 11, []))
        if s.model(cmd.shell, cmd.create).get("NoInput").val:
            s.finish(cmd)
    s.on_pipeline = on_pipeline
    s.on_input = lambda cmd, m: s.finish(cmd) if m is None else None
    app = None
    if r.random() < 0.4:
        app = {"k%d" % i: text(r, int(big * r.choice([0, 0.1, 0.7, 1.4]))) for i in range(r.choice([1, 2]))}
    with Net(s) as net:
        from pypsrp.powershell import RunspacePool
        from psrpmon import server as srv
        con = srv.connection(s.host, **kw)
        if r.random() < 0.2:
            con.update_max_payload_size()
            size = s.config_kb * 1024
            case.eq(int(con.max_envelope_size), size, "envelope-size-in-force", "queried")
            big = min(size, 160000)
            s.log.clear()
        pkw = {"configuration_name": conf, "host": host}
        if r.random() < 0.5:
            pkw["idle_timeout"] = r.choice([60, 7200, 2147483])
        if r.random() < 0.5:
            pkw["no_profile"] = True
        pool = RunspacePool(con, **pkw)
        pool.open(app)
        after = 512000 if size == 153600 and proto != "2.1" else size
        sh = s.all_shells[0]
        sizes(case, s, "open")
        d = s.model(sh, sh.init)
        got = d.get("ApplicationArguments")
        dd = None if app is None else clixml.diff(got, Map([(P("S", a), P("S", b)) for a, b in app.items()], got.types))
        case.check(dd is None, "message-content", lambda: "application arguments: %s" % dd)
        case.check([m.name for m in sh.msgs] == ["SESSION_CAPABILITY", "INIT_RUNSPACEPOOL"], "message-order", lambda: repr(sh.msgs))
        # what one fragment takes is learned from the wire, so that message sizes can sit around its multiples
        probe = PowerShell(pool).add_script("p")
        probe.invoke(["x" * (min(after, 600000) + 100)])
        cmd = sh.last_command
        m = cmd.inputs[0]
        case.check(m.nfrag > 1 or after > 600000, "not-fragmented", "%d bytes in one fragment of an envelope of %d" % (len(m.data), after))
        sizes(case, s, "probe")
        cap = max(len(q.raw) for q in s.log if q.action == "Send")
        per = case.per = max(len(f) for f in fragments_of(s, m.oid))
        base = len(m.data) - (min(after, 600000) + 100) + 40 + 3 * (m.data[:3] == b"\xef\xbb\xbf")
        nmsg = len(sh.msgs)
        for n in range(r.choice([1, 2, 3])):
            case.calls = r.choice([0, 1, 2]) if host is not None else 0
            del host_text[:]
            ps = PowerShell(pool)
            script = text(r, r.choice([0, 10, r.randint(0, 3 * min(per, 60000)), max(0, min(per, 60000) - r.randint(1000, 4000))]))
            ps.add_script(script)
            items = []
            for _ in range(r.choice([0, 0, 1, 2, 3, 6, 12])):
                j = r.random()
                if j < 0.55 and per < 130000:
                    ln = max(0, per * r.choice([1, 1, 2, 3] if per < 30000 else [1]) - base + r.choice([0, 0, 1, -1, -21, -20, -22, -42, -43, r.randint(-70, 70)]))
                elif j < 0.8:
                    ln = r.choice([0, 1, 5, 200])
                else:
                    ln = r.randint(0, min(per, 60000) * 2)
                items.append("x" * ln)
            if items:
                k = r.random()
                arg = items if k < 0.5 else (i for i in [items[:2], items[2:]]) if k < 0.8 else (i for i in items)
            else:
                arg = None
            ps.invoke(arg)
            cmd = sh.last_command
            sizes(case, s, "pipeline")
            c = s.model(sh, cmd.create).get("PowerShell").get("Cmds").items[0].get("Cmd")
            case.check(c.val == script, "message-content", lambda: "script of %d: %s" % (len(script), short(c.val)))
            case.check(len(cmd.inputs) == len(items), "message-count", lambda: "%d of %d input messages" % (len(cmd.inputs), len(items)))
            for i, (m, t) in enumerate(zip(cmd.inputs, items)):
                case.check(s.model(sh, m).val == t, "message-content", lambda: "input %d of %d characters" % (i, len(t)))
            want = ["CREATE_PIPELINE"] + ["PIPELINE_INPUT"] * len(items) + ["END_OF_PIPELINE_INPUT"] * bool(items)
            hr = [m for m in sh.msgs[nmsg:] if m.name == "PIPELINE_HOST_RESPONSE"]
            case.check([m.name for m in sh.msgs[nmsg:] if m not in hr] == want, "message-order", lambda: repr(sh.msgs[nmsg:]))
            case.eq(len(hr), case.calls, "message-count", "host responses")
            for m, t in zip(hr, host_text):
                case.check(s.model(sh, m).get("mr").val == t, "message-content", lambda: "host response of %d" % len(t))
            nmsg = len(sh.msgs)
            case.ctx.count("messages", len(want) + len(hr))
            case.ctx.count("multi_fragment", sum(m.nfrag > 1 for m in cmd.msgs))
            case.ctx.count("shared_envelopes", shared(s, cmd))
            case.ctx.count("exact_fit", sum((len(m.data) + 40) % per in (0, per - 21) for m in cmd.inputs))
        pool.close()
        case.check(not sh.inbound.open, "message-unfinished", lambda: "objects %s never ended" % list(sh.inbound.open))
        in_force(case, s, (size, after))
        case.note(envelope=size, config=len(conf), proto=proto, per_fragment=per, app=app is not None, fullest_send=cap)
        case.key(size, len(conf), proto, nmsg, per, case.index)
        case.ctx.count("app_arguments", app is not None)


def many_case(case):
    """More messages in a session, and more fragments in a message, than fit a byte (or, thorough, two)."""
    r = case.rng
    from pypsrp.powershell import PowerShell
    what, n = case.item
    s = case.server = make(case)
    s.on_input = lambda cmd, m: s.finish(cmd) if m is None else None
    with Net(s) as net:
        pool = open_pool(net, {"max_envelope_size": r.choice([4096, 20000]) if what == "messages" else 3900})
        ps = PowerShell(pool).add_script("x")
        items = ["i%d" % i for i in range(n)] if what == "messages" else ["y" * (1200 * n)]
        ps.invoke(items if r.random() < 0.5 or n > 5000 else (items[i:i + 7] for i in range(0, n, 7)))
        sh = s.all_shells[0]
        cmd = sh.last_command
        sizes(case, s, what)
        case.check([s.model(sh, m).val for m in cmd.inputs] == items, "message-content", lambda: "%d of %d messages" % (len(cmd.inputs), n))
        if what == "fragments":
            case.check(cmd.inputs[0].nfrag > n // 2, "not-fragmented", lambda: "%d fragments" % cmd.inputs[0].nfrag)
        again = PowerShell(pool).add_script("again")
        again.invoke(["last"])
        case.check([s.model(sh, m).val for m in sh.last_command.inputs] == ["last"], "message-content", "after %d %s" % (n, what))
        pool.close()
        case.check(not sh.inbound.open, "message-unfinished", lambda: "objects %s never ended" % list(sh.inbound.open))
    case.ctx.count("many_" + what)
    case.note(what=what, n=n)
    case.key(what, n)


def fragments_of(s, oid):
    import base64
    from psrpmon.psrp import parse_fragments
    out = []
    for q in s.log:
        if q.action == "Send":
            for st in q.findall("rsp:Send/rsp:Stream"):
                out += [f[4] for f in parse_fragments(base64.b64decode(st.text or "")) if f[0] == oid]
    return out


def shared(s, cmd):
    """Requests that carry fragments of several messages."""
    import base64
    from psrpmon.psrp import parse_fragments
    n = 0
    for q in s.log:
        if q.action == "Send":
            for st in q.findall("rsp:Send/rsp:Stream"):
                if st.attrib.get("CommandId") == cmd.id:
                    n += len({f[0] for f in parse_fragments(base64.b64decode(st.text or ""))}) > 1
    return n


def main(ctx):
    ctx.rule("pools with envelope sizes from 3.8 KiB to the queried or raised maximum, short to very long configuration names, application arguments, "
             "scripts, input and host answers whose sizes sit on, just under and just over multiples of a fragment; every request is measured against the "
             "size it announces and reassembled strictly; distinct: the session's sizes.")
    ctx.each("sessions", 100, 4000, session_case)
    ctx.each("many", [("messages", 260), ("messages", 700), ("fragments", 300)],
             [("messages", 260), ("messages", 1030), ("fragments", 300), ("fragments", 700), ("messages", 66000)], many_case)
    for k in ("multi_fragment", "shared_envelopes", "exact_fit", "app_arguments"):
        ctx.require(k, 5)
