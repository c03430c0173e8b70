"""C08: trace monitor on everything delivered to pipelines, compared after every poll with what the server has handed out."""
import warnings

from psrpmon import clixml, msgs, values
from psrpmon.core import Violation, short
from psrpmon.server import Net
from psrpmon.session import make, open_pool, sprinkle

KINDS = ["error", "warning", "verbose", "debug", "progress", "information"]
STREAMS = {k: k for k in KINDS}


class Script:
    """What the server emits for one pipeline, and how much of it has been handed out."""

    def __init__(self, s, cmd, r, n, end):
        self.items = []  # (kind, model or Rec)
        self.out = 0
        for _ in range(n):
            old = [x for x in self.items if x[0] != "state"]
            if old and r.random() < 0.12:      # the same content again is another object or record
                kind, m = r.choice(old)
                self.items.append((kind, m))
                s.push(cmd, "PIPELINE_OUTPUT" if kind == "output" else msgs.RECORD_TYPE[kind], m if kind == "output" else m.node)
            elif r.random() < 0.45:
                v = values.received(r, r.choice([0, 1, 2]))
                self.items.append(("output", v))
                fr = s.push(cmd, "PIPELINE_OUTPUT", v)
            else:
                rec = msgs.record(r, r.choice(KINDS))
                self.items.append((rec.kind, rec))
                fr = s.push(cmd, msgs.RECORD_TYPE[rec.kind], rec.node)
            self.mark(cmd)
        self.state, self.err = end
        errors = [m for k, m in self.items if k == "error"]
        if self.err is not None and errors and r.random() < 0.2:
            self.err = r.choice(errors)
        self.items.append(("state", self.err))
        s.push(cmd, "PIPELINE_STATE", msgs.pipeline_state(self.state, self.err.node if self.err else None))
        self.mark(cmd)

    def mark(self, cmd):
        def handed():
            self.out += 1
        cmd.queue.append(("C", handed))

    def settle(self, cmd):
        """Counts messages whose last fragment has gone out."""
        while cmd.queue and isinstance(cmd.queue[0], tuple) and cmd.queue[0][0] == "C":
            cmd.queue.pop(0)[1]()


def unbarrier(s, r):
    """Lets a batch run over the counting marks."""
    def do_receive(req, real=s.do_receive):
        return real(req)
    return do_receive


def check_pipeline(case, ps, sc, what):
    seen = sc.items[:sc.out]
    out = [m for k, m in seen if k == "output"]
    case.check(len(ps.output) == len(out), "output-count", lambda: "%s: %d objects, the server handed out %d" % (what, len(ps.output), len(out)))
    for i, (g, w) in enumerate(zip(ps.output, out)):
        d = clixml.match(g, w)
        case.check(d is None, "output-content", lambda: "%s object %d: %s" % (what, i, d))
    ended = any(k == "state" for k, _ in seen)
    for k in KINDS:
        want = [m for kk, m in seen if kk == k]
        if k == "error" and ended and sc.err is not None:
            want = want + [sc.err]
        got = getattr(ps.streams, STREAMS[k])
        case.check(len(got) == len(want), "record-count", lambda: "%s %s stream: %d records, the server handed out %d" % (what, k, len(got), len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            d = w.differs(g)
            case.check(d is None, "record-content", lambda: "%s %s[%d]: %s" % (what, k, i, d))
    case.eq(ps.state, sc.state if ended else 1, "pipeline-state", what)
    case.eq(ps.had_errors, ended and sc.state == 5, "had-errors", what)


def pipelines_case(case):
    r = case.rng
    from pypsrp.powershell import PowerShell
    s = make(case)
    scripts = {}

    def run(cmd):
        end = r.choice([(4, None), (4, None), (4, None), (5, msgs.error_record(r)), (3, msgs.error_record(r)), (3, None), (5, None)])
        scripts[cmd.pid] = (Script(s, cmd, r, r.choice([0, 1, 2, 3, 5, 8, 15]), end), cmd)
        q = []
        for f in cmd.queue:
            if isinstance(f, bytes):
                while r.random() < 0.12:
                    q.append((r.choice("TEB"),))
            q.append(f)
        cmd.queue = q
    s.on_pipeline = run
    # the counting marks end a batch in the server; a batch policy that merges across them is wanted as well
    merge = r.random() < 0.6
    if merge:
        real = s.do_receive

        def do_receive(req):
            cid = req.find("rsp:Receive/rsp:DesiredStream").attrib.get("CommandId")
            cmd = s.shell_of(req).commands.get(cid.upper()) if cid else None
            n = r.choice([0, 1, 2, 5, 50])
            if cmd is not None and cmd.queue and n:
                run_, rest, marks = [], list(cmd.queue), []
                while rest and n > 0 and (isinstance(rest[0], bytes) or rest[0][0] in "CB"):
                    x = rest.pop(0)
                    if isinstance(x, bytes):
                        run_.append(x)
                    elif x[0] == "C":
                        marks.append(x[1])
                        n -= 1
                if run_:
                    cmd.queue = rest
                    for m in marks:
                        m()
                    from psrpmon.wsmv import reply
                    return reply(req, s.receive_body(cmd, run_, None))
            return real(req)
        s.do_receive = do_receive
    with Net(s) as net:
        pool = open_pool(net)
        n = r.choice([1, 1, 2, 2, 3, 4])
        pss = []
        for _ in range(n):
            ps = PowerShell(pool)
            ps.add_script("x")
            pss.append(ps)
        pending = list(pss)
        started = []
        polls = 0
        whole = r.random() < 0.3
        while pending or any(p.state == 1 for p in started):
            live = [p for p in started if p.state == 1]
            if pending and (not live or r.random() < 0.4):
                ps = pending.pop(r.randrange(len(pending)))
                ps.begin_invoke()
                started.append(ps)
                case.eq(ps.state, 1, "pipeline-state", "after begin_invoke")
                continue
            ps = r.choice(live)
            if whole:
                out = ps.end_invoke()
                case.check(out is ps.output or out == ps.output, "end-invoke-return", lambda: short(out))
            else:
                ps.poll_invoke(timeout=r.choice([None, None, 3]))
            polls += 1
            for p in started:
                sc, cmd = scripts[__import__("uuid").UUID(p.id)]
                sc.settle(cmd)
                check_pipeline(case, p, sc, "pipeline %d after poll %d" % (pss.index(p), polls))
            if polls > 20000:
                raise Violation("polls-for-ever", "more than 20000 polls")
        for p in pss:
            sc, cmd = scripts[__import__("uuid").UUID(p.id)]
            case.check(sc.out == len(sc.items), "returned-before-the-end", lambda: "%d of %d messages handed out" % (sc.out, len(sc.items)))
        kinds = [k for p in pss for k, _ in scripts[__import__("uuid").UUID(p.id)][0].items]
        case.note(pipelines=n, messages=len(kinds), polls=polls)
        case.ctx.count("messages", len(kinds))
        case.ctx.count("polls", polls)
        case.ctx.count("interleaved_runs", n > 1)
        case.ctx.count("failed_states", sum(1 for p in pss if p.state == 5))
        case.key(n, polls, tuple(kinds))
        # nothing more arrives once all is done
        pool.close()


def volume_case(case):
    """Many objects and records on one pipeline."""
    r = case.rng
    from pypsrp.powershell import PowerShell
    s = make(case)
    scripts = []
    s.on_pipeline = lambda cmd: scripts.append(Script(s, cmd, r, case.item, (4, None)))
    with Net(s) as net:
        pool = open_pool(net)
        ps = PowerShell(pool)
        ps.add_script("x")
        ps.begin_invoke()
        out = ps.end_invoke()
        sc = scripts[0]
        sc.out = len(sc.items)
        check_pipeline(case, ps, sc, "the pipeline")
        case.check(out is ps.output or out == ps.output, "end-invoke-return", lambda: short(out))
        pool.close()
    case.ctx.count("volume", len(sc.items))
    case.key(case.item)


def pool_case(case):
    """Pool-level user events and warnings."""
    r = case.rng
    from pypsrp.powershell import RunspacePoolWarning
    s = make(case)
    with Net(s) as net:
        pool = open_pool(net)
        sh = s.all_shells[0]
        events, warns, texts = [], [], []
        n = r.choice([1, 2, 4, 8])

        def script(shell, m):
            for _ in range(n):
                k = r.random()
                if k < 0.6:
                    e = msgs.user_event(r)
                    events.append(e)
                    s.push(shell, "USER_EVENT", e.node)
                else:
                    w = msgs.informational(r, "warning")
                    warns.append(w)
                    s.push(shell, "WARNING_RECORD", w.node)
            s.push(shell, "RUNSPACE_AVAILABILITY", msgs.availability(3, s.ci(s.model(shell, m))))
            sprinkle(shell, r, 0.1, ("E", "B"))
            return True
        s.on_pool = script
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            pool.get_available_runspaces()
        got = [w for w in got if issubclass(w.category, RunspacePoolWarning)]
        case.check(len(pool.user_events) == len(events), "event-count", lambda: "%d, sent %d" % (len(pool.user_events), len(events)))
        for i, (g, w) in enumerate(zip(pool.user_events, events)):
            d = w.differs(g)
            case.check(d is None, "event-content", lambda: "event %d: %s" % (i, d))
        case.check(len(got) == len(warns), "pool-warning-count", lambda: "%d, sent %d" % (len(got), len(warns)))
        for g, w in zip(got, warns):
            text = w.attrs["message"].val
            case.check(text in str(g.message), "pool-warning-content", lambda: "%r does not contain %r" % (str(g.message), text))
        case.note(events=len(events), warnings=len(warns))
        case.ctx.count("events", len(events))
        case.ctx.count("pool_warnings", len(warns))
        case.key(len(events), len(warns), [e.attrs["event_id"].val for e in events])


def main(ctx):
    ctx.rule("random record sequences (all six streams, output of random type and depth, every terminal state) for 1-4 pipelines polled in random "
             "turns, random fragmentation and batching, operation time-outs and empty polls in between; after every poll each collection is compared "
             "with exactly the messages whose last fragment has been handed out; distinct: different message-kind sequence.")
    ctx.each("pipelines", 160, 5000, pipelines_case)
    ctx.each("pool-events", 40, 1200, pool_case)
    ctx.each("volume", [300], [300, 3000, 20000], volume_case)
    for k in ("messages", "interleaved_runs", "failed_states", "events", "pool_warnings"):
        ctx.require(k)
