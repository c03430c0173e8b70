"""C18: polls answered with faults: state before and after an operation time-out, and what surfaces otherwise."""
import uuid

from checks.c08 import KINDS, Script, check_pipeline
from psrpmon import gen, wsmv
from psrpmon.core import Violation, short
from psrpmon.server import Net, connection
from psrpmon.session import make, open_pool

# (code in the fault, what the caller must see)
FAULTS = [2150858792, 2150858794, 995, 5, 1, 0, 2150858843, 2150859174, 2147942405, 2150859193, 2150858799, 21508587930, 215085879, -2144108503]
TIMED_OUT = ("The WS-Management service cannot complete the operation within the time specified in OperationTimeout.", "timed out", "2150858793", "")


def op_timeout(r):
    return ("F", lambda req: wsmv.fault(req, wsmv.OP_TIMEOUT, r.choice(TIMED_OUT), machine=r.choice(["server", "", "a.b.c"]),
                                        subcode=r.choice(["w:TimedOut", "w:TimedOut", "w:InternalError"])))


def other(r, net, faults):
    """An item that answers a poll with some other failure; faults records what the caller must see."""
    k = r.random()
    if k < 0.75:
        code = r.choice(FAULTS)
        text = r.choice(TIMED_OUT + ("The I/O operation has been aborted", "\u65e5\u672c"))

        def go(req):
            faults.append(code)
            return wsmv.fault(req, code, text, subcode=r.choice(["w:TimedOut", "w:InvalidSelectors", "w:InternalError"]))
    elif k < 0.85:
        def go(req):
            faults.append("w:InternalError")
            return wsmv.fault(req, 0, "x", subcode="w:InternalError", detail=False)
    else:
        status = r.choice([400, 404, 500, 503])

        def go(req):
            faults.append("http %d" % status)
            return status, r.choice([b"", b"2150858793", b"<html>2150858793</html>", b"\xff"])
    return ("F", go)


def expect(case, exc, fault, what):
    from pypsrp.exceptions import WinRMTransportError, WSManFaultError
    what = "%s: answered with %r" % (what, fault)
    case.check(exc is not None, "fault-swallowed", what)
    if isinstance(fault, str) and fault.startswith("http "):
        case.check(isinstance(exc, WinRMTransportError) and exc.code == int(fault[5:]), "wrong-error", lambda: "%s, raised %r" % (what, exc))
    else:
        case.check(isinstance(exc, WSManFaultError) and exc.code == fault, "wrong-error", lambda: "%s, raised %r" % (what, exc))
    case.ctx.count("faults")


def attempt(fn):
    from pypsrp.exceptions import WinRMError
    try:
        fn()
    except WinRMError as e:
        return e
    return None


def process_case(case):
    from pypsrp.shell import CommandState, Process, WinRS
    r = case.rng
    s = make(case)
    s.max_idle = 10 ** 6
    faults, handed, stats = [], [], []
    harsh = r.random() < 0.5
    heavy = r.choice([0.2, 0.5, 0.9])

    def handout(chunks, state, rc):
        def go(req, cmd=s):
            handed.append((chunks, state, rc))
            return wsmv.reply(req, s.process_body(go.cmd, chunks, state, rc))
        return go

    def on_command(cmd):
        items = []
        if r.random() < 0.02:     # nothing to say for long
            items += [op_timeout(r) for _ in range(r.choice([110, 260]))]
            stats.extend("T" * len(items))
        n = r.choice([0, 1, 3, 6])
        for i in range(n + 1):
            while r.random() < heavy and len(items) < 400:
                items.append(op_timeout(r))
                stats.append("T")
            if harsh and r.random() < 0.3:
                items.append(other(r, net, faults))
            last = i == n
            ch = [(r.choice(["stdout", "stderr"]), r.randbytes(r.choice([0, 1, 9, 400]))) for _ in range(gen.few(r, [0, 1, 1, 3], [130]))]
            g = handout(ch, "Done" if last else r.choice(["Running", "Running", None]), r.choice([0, 1, 255, -1, 3221225786]) if last else None)
            g.cmd = cmd
            items.append(("F", g))
        cmd.queue = items
    s.on_command = on_command
    with Net(s) as net:
        with WinRS(connection(s.host)) as sh:
            p = Process(sh, "cmd", ["a"])
            whole = r.random() < 0.4
            begun = False
            polls = 0

            def model():
                out = b"".join(d for ch, _, _ in handed for n, d in ch if n == "stdout")
                err = b"".join(d for ch, _, _ in handed for n, d in ch if n == "stderr")
                return out, err
            while not (begun and p.state == CommandState.DONE):
                n, h = len(faults), len(handed)
                before = (p.stdout, p.stderr, p.rc, p.state)
                if whole:
                    if begun:
                        exc = attempt(p.end_invoke)
                    else:
                        exc = attempt(p.invoke)
                        begun = True
                elif not begun:
                    p.begin_invoke()
                    begun = True
                    continue
                else:
                    exc = attempt(lambda: p.poll_invoke(timeout=r.choice([None, None, 2])))
                polls += 1
                if len(faults) > n:
                    expect(case, exc, faults[-1], "process")
                else:
                    case.check(exc is None, "time-out-raised", lambda: "%r" % exc)
                after = (p.stdout, p.stderr, p.rc, p.state)
                case.check(after[:2] == model(), "output", lambda: "got %s, handed out %s" % (short(after[:2]), short(model())))
                if len(handed) == h and not whole and exc is None:
                    case.check(before == after, "empty-poll-changed-state", lambda: "%s -> %s" % (short(before), short(after)))
                    case.ctx.count("process_empty")
                if polls > 400:
                    raise Violation("polls-for-ever", "%d" % polls)
            case.eq(p.rc, handed[-1][2], "exit-code", "")
            case.check(handed[-1][1] == "Done", "returned-before-the-end", lambda: "%s" % (handed[-1],))
    case.note(polls=polls, faults=len(faults), timeouts=len(stats))
    case.ctx.count("timeouts", len(stats))
    case.key((len(stats), len(faults), [len(c) for c, _, _ in handed], heavy, whole))


def snapshot(ps):
    return (ps.state, len(ps.output), [len(getattr(ps.streams, k)) for k in KINDS], ps.had_errors, [id(o) for o in ps.output])


def pipeline_case(case):
    from pypsrp.powershell import PowerShell
    r = case.rng
    s = make(case)
    faults, stats, quiet = [], [], [0]
    scripts = {}
    harsh = r.random() < 0.5
    heavy = r.choice([0.1, 0.3, 0.7])

    def timeout_item():
        k, go = op_timeout(r)

        def f(req):
            quiet[0] += 1
            return go(req)
        return k, f

    def run(cmd):
        from psrpmon import msgs
        end = r.choice([(4, None), (4, None), (5, msgs.error_record(r)), (3, None)])
        scripts[cmd.pid] = (Script(s, cmd, r, r.choice([0, 1, 3, 6, 12]), end), cmd)
        q = []
        if r.random() < 0.02:     # nothing to say for long
            q += [timeout_item() for _ in range(r.choice([110, 260]))]
            stats.extend("T" * len(q))
        for f in cmd.queue:
            if isinstance(f, bytes):
                while r.random() < heavy and len(stats) < 300:
                    q.append(timeout_item())
                    stats.append("T")
                if harsh and r.random() < 0.15:
                    q.append(other(r, net, faults))
            q.append(f)
        cmd.queue = q
    s.on_pipeline = run
    with Net(s) as net:
        pool = open_pool(net)
        pss = [PowerShell(pool) for _ in range(r.choice([1, 1, 2, 3]))]
        mode = r.choice(["poll", "poll", "end", "invoke"])
        for ps in pss:
            ps.add_script("x")
        ready = []
        if mode != "invoke":
            for ps in pss:
                ps.begin_invoke()
                ready.append(ps)
        polls = 0
        todo = list(pss)
        while todo:
            ps = r.choice(todo)
            n, qt, before = len(faults), quiet[0], snapshot(ps)
            others = [(o, snapshot(o)) for o in pss if o is not ps]
            if mode == "poll":
                exc = attempt(ps.poll_invoke)
            elif ps not in ready:
                exc = attempt(ps.invoke)
                ready.append(ps)
            else:
                exc = attempt(ps.end_invoke)
            polls += 1
            if len(faults) > n:
                expect(case, exc, faults[-1], "pipeline")
            else:
                case.check(exc is None, "time-out-raised", lambda: "%r" % exc)
            sc, cmd = scripts[uuid.UUID(ps.id)]
            sc.settle(cmd)
            check_pipeline(case, ps, sc, "after poll %d (%s)" % (polls, mode))
            if mode == "poll" and quiet[0] > qt and exc is None:
                case.check(snapshot(ps) == before, "empty-poll-changed-state", lambda: "%s -> %s" % (before, snapshot(ps)))
                case.ctx.count("pipeline_empty")
            for o, b in others:
                case.check(snapshot(o) == b, "other-pipeline-changed", lambda: "%s -> %s" % (b, snapshot(o)))
            if ps.state != 1:
                todo.remove(ps)
                case.check(sc.out == len(sc.items), "returned-before-the-end", lambda: "%d of %d handed out" % (sc.out, len(sc.items)))
            if polls > 5000:
                raise Violation("polls-for-ever", "%d" % polls)
        pool.close()
    case.note(mode=mode, polls=polls, faults=len(faults), timeouts=len(stats))
    case.ctx.count("timeouts", len(stats))
    case.key((mode, len(stats), len(faults), polls, heavy, [len(sc.items) for sc, _ in scripts.values()]))


def client_case(case):
    """The one-call helpers while the server times out between everything it sends."""
    from psrpmon import clixml, msgs
    from pypsrp.client import Client
    r = case.rng
    s = make(case)
    n = r.choice([0, 1, 3, 20])
    out = r.choice(["", "hello", "a\r\nb\n", "\u00e9"])
    lines = [r.choice(["x", "", "caf\u00e9", "1\n2"]) for _ in range(r.choice([0, 1, 3]))]

    def on_command(cmd):
        data = out.encode("utf-8")
        k = r.randint(0, len(data))
        cmd.queue = [op_timeout(r) for _ in range(n)] + [("R", [("stdout", data[:k])], "Running", None)] + [op_timeout(r) for _ in range(n)] + [
            ("R", [("stdout", data[k:]), ("stderr", b"e")], "Done", 3)]

    def run(cmd):
        for x in lines:
            s.output(cmd, clixml.P("S", x))
        s.finish(cmd, r.choice([4, 4, 5]))
        cmd.queue = [y for f in cmd.queue for y in [op_timeout(r)] * n + [f]]
        cmd.stat = cmd.final
        last.append(cmd)
    last = []
    s.on_command, s.on_pipeline = on_command, run
    with Net(s):
        c = Client(s.host, ssl=False, auth="basic", encryption="never", username="u", password="p")
        with c:
            got = c.execute_cmd("x", encoding="utf-8")
            case.check(got == (out, "e", 3), "execute-cmd", lambda: "%r, want %r" % (got, (out, "e", 3)))
            o, st, bad = c.execute_ps("x")
            case.check(o == "\n".join(lines) and bad == (last[-1].final == 5), "execute-ps", lambda: "%r %r, want %r" % (o, bad, lines))
    case.ctx.count("timeouts", 2 * n + n)
    case.ctx.count("helpers")
    case.key((n, out, lines))


def main(ctx):
    ctx.rule("processes and one to three pipelines whose server puts operation time-outs (and, in half of the sessions, other faults or HTTP errors with "
             "misleading texts and near codes) anywhere among its responses, polled singly, with end_invoke or invoke; whole state compared around every "
             "poll. distinct: number and placing of faults and amount of output.")
    ctx.assumptions.append("an operation time-out is the WSMan fault code 2150858793; pool-level receives are not polls of a process or pipeline")
    ctx.each("processes", 300, 25000, process_case)
    ctx.each("pipelines", 110, 6000, pipeline_case)
    ctx.each("helpers", 40, 1500, client_case)
    for k, n in [("timeouts", 1000), ("faults", 100), ("process_empty", 100), ("pipeline_empty", 100), ("helpers", 20)]:
        ctx.require(k, n)
