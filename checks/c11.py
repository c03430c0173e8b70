"""C11: life-cycle monitor: a reference state machine stepped beside the real pool and pipelines through random call sequences."""
import uuid

from psrpmon import msgs, wsmv
from psrpmon.core import Violation, short
from psrpmon.server import Net, connection
from psrpmon.session import make

BEFORE_OPEN, OPENED, CLOSED, BROKEN, SENT, DISCONNECTED = 0, 2, 3, 5, 6, 9
NOT_STARTED, RUNNING, STOPPING, STOPPED, COMPLETED, FAILED, P_DISCONNECTED = range(7)
POOL_NAMES = {0: "BeforeOpen", 2: "Opened", 3: "Closed", 5: "Broken", 6: "NegotiationSent", 9: "Disconnected"}
PIPE_NAMES = {0: "NotStarted", 1: "Running", 2: "Stopping", 3: "Stopped", 4: "Completed", 5: "Failed", 6: "Disconnected"}


class PS:
    def __init__(self, real):
        self.real, self.state = real, NOT_STARTED
        self.cmd = None
        self.relinked = False
        self.linked = False      # came back by connecting to it
        self.closed = True
        self.commands = 0
        self.failed_once = False
        self.pending = None


class World:
    def __init__(self, case):
        from pypsrp import exceptions as ex
        from pypsrp.powershell import RunspacePool
        self.case, self.r, self.ex = case, case.rng, ex
        self.proto = self.r.choice(["2.1", "2.2", "2.3", "2.3", "2.10", "3.0"])
        self.s = make(case, proto=self.proto)
        self.s.on_pipeline = self.on_pipeline
        self.s.on_pool = self.on_pool
        self.s.on_open = self.on_open
        self.s.before = self.before
        self.s.on_signal = self.on_signal
        self.pool = RunspacePool(connection(self.s.host), min_runspaces=1, max_runspaces=4)
        self.state = BEFORE_OPEN
        self.shell_open = False
        self.pss = []
        self.trace = []
        self.fault_on = None
        self.open_mode = "ok"
        self.pool_script = None
        self.starting = None
        self.said_open = True
        self.stopping = None

    # ---------------------------------------------------------------- server side
    def before(self, req):
        if not self.said_open:
            self.case.check(self.pool.state != OPENED, "open-before-the-server-said-so", str(req.action))
        if self.fault_on == req.action:
            self.fault_on = None
            return wsmv.fault(req, 2150858995, "refused by the test")
        return None

    def on_open(self, sh):
        self.shell_open = True
        if self.open_mode == "broken":
            self.s.push(sh, "SESSION_CAPABILITY", msgs.session_capability(self.proto, self.s.ps, self.s.ser))
            self.s.push(sh, "RUNSPACEPOOL_STATE", msgs.pool_state(5, msgs.error_record(self.r).node if self.r.random() < 0.5 else None))
            return True
        if self.open_mode == "silent":
            self.s.push(sh, "SESSION_CAPABILITY", msgs.session_capability(self.proto, self.s.ps, self.s.ser))
            sh.queue.append(("F", lambda req: wsmv.fault(req, 2150858995, "gone wrong")))
            return True

        def mark():
            self.said_open = True
        self.said_open = False
        self.s.on_open = None
        self.s.opened(sh)
        # everything but the last fragment can be handed out before the pool may claim to be open
        last = sh.queue.pop()
        sh.queue += [("C", mark), last]
        return True

    def on_pipeline(self, cmd):
        self.starting.cmd = cmd

    def on_pool(self, sh, m):
        if self.pool_script is None:
            return False
        f, self.pool_script = self.pool_script, None
        f(sh, m)
        return True

    def on_signal(self, cmd, code):
        if self.stopping is not None:
            p, self.stopping = self.stopping, None
            self.case.check(cmd is p.cmd, "signal-for-another-command", "%s instead of %s" % (cmd.id, p.cmd.id))
            self.case.eq(p.real.state, STOPPING, "state-while-stopping", "pipeline state when the signal is sent")

    # ---------------------------------------------------------------- stepping
    def call(self, what, fn, sent, raises=None, ret=None):
        """sent: the actions this call may send, as a list of names, with '*' for any number of the name before."""
        n = len(self.s.log)
        got = None
        try:
            res = fn()
        except Violation:
            raise
        except Exception as e:
            if not isinstance(e, self.ex.WinRMError):
                raise
            got, res = e, None
        acts = [q.action for q in self.s.log[n:]]
        self.trace.append(what)
        case = self.case
        case.check(type(got).__name__ == raises if raises else got is None, "wrong-outcome",
                   lambda: "%s: %s, expected %s; after %s" % (what, short(repr(got)), raises or "no error", self.trace[-12:]))
        case.check(self.fits(acts, sent), "wrong-requests", lambda: "%s sent %s, expected %s; after %s" % (what, acts, sent, self.trace[-12:]))
        self.states(what)
        case.ctx.count("illegal_calls", raises is not None and "State" in raises)
        case.ctx.count("noop_calls", raises is None and not sent)
        case.ctx.count("legal_calls", bool(sent))
        return got if raises else res

    @staticmethod
    def fits(acts, sent):
        i = 0
        for x in sent:
            if x.endswith("*"):
                while i < len(acts) and acts[i] == x[:-1]:
                    i += 1
            elif i < len(acts) and acts[i] == x:
                i += 1
            else:
                return False
        return i == len(acts)

    def states(self, what):
        case = self.case
        case.eq(self.pool.state, self.state, "pool-state", "after %s (%s)" % (what, self.trace[-12:]))
        for i, p in enumerate(self.pss):
            if p.pending is not None:
                q = p.cmd.queue
                while q and isinstance(q[0], tuple) and q[0][0] == "C":
                    q.pop(0)[1]()
            case.eq(p.real.state, p.state, "pipeline-state", "pipeline %d after %s (%s)" % (i, what, self.trace[-12:]))

    def bad_pool(self, what, fn):
        e = self.call(what, fn, [], "InvalidRunspacePoolStateError")
        self.case.eq(e.current_state, self.state, "error-state", what)
        names = [POOL_NAMES[self.state]] + {"connect": ["Disconnected"], "disconnect": ["Opened"], "metadata": ["Opened"]}.get(what, [])
        self.case.check(all(x in str(e) for x in names), "error-text", lambda: "%s does not name %s" % (e, names))

    def bad_pipe(self, what, fn, p):
        e = self.call(what, fn, [], "InvalidPipelineStateError")
        self.case.eq(e.current_state, p.state, "error-state", what)
        names = [PIPE_NAMES[p.state]] + {"ps close": ["Completed", "Stopped", "Failed"], "stop": ["Running"], "nested": ["Running"],
                                         "ps connect": ["Disconnected"]}.get(what, [])
        self.case.check(all(x in str(e) for x in names), "error-text", lambda: "%s does not name %s" % (e, names))

    # ---------------------------------------------------------------- pool calls
    def op_open(self):
        r, s = self.r, self.state
        if s == OPENED:
            self.call("open", self.pool.open, [])
        elif s != BEFORE_OPEN:
            self.bad_pool("open", self.pool.open)
        else:
            mode = r.choice(["ok"] * 8 + ["create-fault", "broken", "silent"])
            self.open_mode = mode
            self.s.on_open = self.on_open
            if mode == "create-fault":
                self.fault_on = "Create"
                self.call("open(%s)" % mode, self.pool.open, ["Create"], "WSManFaultError")
            elif mode == "broken":
                self.state = BROKEN
                self.call("open(%s)" % mode, self.pool.open, ["Create", "Receive*"], "InvalidPSRPOperation")
            elif mode == "silent":
                self.state = SENT
                self.call("open(%s)" % mode, self.pool.open, ["Create", "Receive*"], "WSManFaultError")
            else:
                self.state = OPENED
                fn = r.choice([self.pool.open, self.pool.__enter__])
                self.call("open", fn, ["Create", "Receive*"])
                self.case.check(self.said_open, "open-before-the-server-said-so")

    def op_close(self):
        if self.state in (CLOSED, BROKEN):
            self.call("close", self.pool.close, [])
        elif not self.shell_open:
            self.state = CLOSED
            self.call("close", self.pool.close, [])
        else:
            self.state = CLOSED
            self.call("close", self.r.choice([self.pool.close, lambda: self.pool.__exit__(None, None, None)]), ["Delete"])

    def op_disconnect(self):
        if self.state == DISCONNECTED:
            self.call("disconnect", self.pool.disconnect, [])
        elif self.state != OPENED:
            self.bad_pool("disconnect", self.pool.disconnect)
        elif self.r.random() < 0.15:
            self.fault_on = "Disconnect"
            self.call("disconnect(fault)", self.pool.disconnect, ["Disconnect"], "WSManFaultError")
        else:
            self.state = DISCONNECTED
            for p in self.pss:
                if p.state == RUNNING:
                    p.state = P_DISCONNECTED
            self.call("disconnect", self.pool.disconnect, ["Disconnect"])
            self.case.ctx.count("disconnects")

    def op_connect(self):
        if self.state == OPENED:
            self.call("connect", self.pool.connect, [])
        elif self.state != DISCONNECTED:
            self.bad_pool("connect", self.pool.connect)
        elif self.r.random() < 0.2:
            self.fault_on = "Reconnect"
            self.call("connect(fault)", self.pool.connect, ["Reconnect"], "WSManFaultError")
        else:
            self.state = OPENED
            self.call("connect", self.pool.connect, ["Reconnect"])

    def op_reset(self):
        if self.state == BEFORE_OPEN:
            self.call("reset", self.pool.reset_runspace_state, [])
        elif self.state != OPENED:
            self.bad_pool("reset", self.pool.reset_runspace_state)
        elif self.proto in ("2.1", "2.2"):
            self.call("reset", self.pool.reset_runspace_state, [], "InvalidPSRPOperation")
        else:
            self.call("reset", self.pool.reset_runspace_state, ["Send", "Receive*"])

    def op_metadata(self):
        if self.state != OPENED:
            self.bad_pool("metadata", lambda: self.pool.get_command_metadata("x"))

    def op_limits(self):
        which = self.r.choice(["min_runspaces", "max_runspaces"])
        v = self.r.choice([1, 2, 3, 4])
        same = getattr(self.pool, which) == v
        want = [] if self.state != OPENED or same else ["Send", "Receive*"]
        self.call("%s=%d" % (which, v), lambda: setattr(self.pool, which, v), want)
        self.case.eq(getattr(self.pool, which), v, "limit", which)

    def op_server(self):
        """A pool state change that comes with the answer to a pool call."""
        if self.state != OPENED:
            return
        r, s = self.r, self.s
        st = r.choice([BROKEN, CLOSED, OPENED, OPENED, OPENED])

        def script(sh, m):
            err = msgs.error_record(r).node if st == BROKEN and r.random() < 0.5 else None
            s.push(sh, "RUNSPACEPOOL_STATE", msgs.pool_state(st, err))
            s.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(2, s.ci(s.model(sh, m))))
        self.pool_script = script
        self.state = st
        if st == BROKEN:
            self.call("server breaks the pool", self.pool.get_available_runspaces, ["Send", "Receive*"], "InvalidPSRPOperation")
        else:
            self.call("server says %s" % POOL_NAMES[st], self.pool.get_available_runspaces, ["Send", "Receive*"])
        self.case.ctx.count("server_state_changes")

    # ---------------------------------------------------------------- pipeline calls
    def pick(self, *states):
        best = [p for p in self.pss if p.state in states]
        if best and self.r.random() < 0.6:
            return self.r.choice(best)
        return self.r.choice(self.pss) if self.pss else None

    def op_new(self):
        from pypsrp.powershell import PowerShell
        if self.state == OPENED and len(self.pss) < 4:
            p = PS(PowerShell(self.pool))
            self.pss.append(p)
            if self.r.random() < 0.9:
                p.real.add_script("x")
                p.commands = 1
            self.states("new pipeline")

    def op_begin(self):
        p = self.pick(NOT_STARTED, COMPLETED, FAILED, STOPPED)
        if p is None:
            return
        fn = p.real.begin_invoke
        if p.state in (RUNNING, STOPPING, P_DISCONNECTED):
            self.bad_pipe("begin", self.r.choice([fn, p.real.invoke]), p)
        elif not p.commands:
            self.call("begin without commands", self.r.choice([fn, p.real.invoke]), [], "InvalidPSRPOperation")
            if self.r.random() < 0.5:
                p.real.add_script("y")
                p.commands = 1
        elif self.state == OPENED and p.closed:
            self.starting = p
            if self.r.random() < 0.08:
                self.fault_on = "Command"
                self.call("begin(fault)", fn, ["Command"], "WSManFaultError")
                return
            p.state, p.closed = RUNNING, False
            p.relinked, p.linked = p.relinked or p.linked, False
            self.call("begin", fn, ["Command", "Send*"])
            self.case.ctx.count("invocations")
            if p.failed_once:
                self.case.ctx.count("reinvocations")
            p.failed_once = True

    def finish(self, p):
        if p.pending is None:
            st = self.r.choice([COMPLETED, COMPLETED, FAILED, STOPPED])
            err = msgs.error_record(self.r) if st != COMPLETED and self.r.random() < 0.7 else None

            def ended():
                p.state, p.pending = st, None
            p.pending = st
            for _ in range(self.r.choice([0, 0, 1, 3])):
                self.s.push(p.cmd, "PIPELINE_OUTPUT", msgs.S("o"))
            if self.r.random() < 0.15:
                self.s.push(p.cmd, "PIPELINE_STATE", msgs.pipeline_state(RUNNING))
            self.s.finish(p.cmd, st, err)
            p.cmd.queue.append(("C", ended))

    def op_poll(self):
        p = self.pick()
        if p is None or self.state != OPENED or p.state == P_DISCONNECTED or p.closed:
            return
        if p.state == RUNNING and self.r.random() < 0.5:
            self.finish(p)
        self.call("poll", p.real.poll_invoke, ["Receive"])

    def op_end(self):
        p = self.pick()
        if p is None or p.state == P_DISCONNECTED:
            return
        if p.state != RUNNING:
            self.call("end_invoke", p.real.end_invoke, [])
        elif self.state == OPENED:
            self.finish(p)
            # a Running report does not end the wait; a terminal one does
            self.call("end_invoke", p.real.end_invoke, ["Receive", "Receive*"])
            self.case.check(p.state in (COMPLETED, FAILED, STOPPED), "returned-while-running", self.trace[-5:])

    def op_stop(self):
        p = self.pick()
        if p is None:
            return
        if p.state in (STOPPED, STOPPING):
            self.call("stop", p.real.stop, [])
        elif p.state != RUNNING:
            self.bad_pipe("stop", p.real.stop, p)
        elif self.state == OPENED and self.r.random() < 0.12:
            self.fault_on = "Signal"
            p.state = STOPPING
            self.call("stop(fault)", p.real.stop, ["Signal"], "WSManFaultError")
            self.case.ctx.count("failed_stops")
        elif self.state == OPENED:
            self.stopping = p
            p.state = STOPPED
            p.pending = None
            self.call("stop", p.real.stop, ["Signal"])
            self.case.ctx.count("stops")

    def op_pclose(self):
        p = self.pick(COMPLETED, FAILED, STOPPED)
        if p is None:
            return
        fn = self.r.choice([p.real.close, lambda: p.real.__exit__(None, None, None)])
        if p.state == NOT_STARTED:
            self.call("ps close", fn, [])
        elif p.state in (RUNNING, STOPPING, P_DISCONNECTED):
            self.bad_pipe("ps close", fn, p)
        elif self.state == OPENED and not p.closed:
            p.closed = True
            self.call("ps close", fn, ["Signal"])
            self.case.check(p.cmd.closed, "signal-for-another-command", "the command was not terminated")

    def op_pconnect(self):
        p = self.pick(P_DISCONNECTED)
        if p is None:
            return
        fn = p.real.connect_async
        if p.state != P_DISCONNECTED:
            self.bad_pipe("ps connect", self.r.choice([fn, p.real.connect]), p)
        elif self.state == OPENED:
            if self.r.random() < 0.2:
                self.fault_on = "Connect"
                self.call("ps connect(fault)", fn, ["Connect"], "WSManFaultError")
            elif self.r.random() < 0.5:
                p.state, p.linked = RUNNING, True
                self.call("ps connect_async", fn, ["Connect"])
            else:
                p.linked = True
                p.state = RUNNING
                self.finish(p)
                self.call("ps connect", p.real.connect, ["Connect", "Receive", "Receive*"])
            self.case.ctx.count("pipeline_connects")

    def op_nested(self):
        p = self.pick()
        if p is None:
            return
        fn = p.real.create_nested_power_shell
        if p.state != RUNNING:
            self.bad_pipe("nested", fn, p)
        elif p.relinked:
            pass  # nothing says whether a new invocation of a pipeline once connected to may be nested into
        elif p.linked:
            self.call("nested", fn, [], "InvalidPSRPOperation")
        else:
            n = self.call("nested", fn, [])
            self.case.check(n.is_nested and n.state == NOT_STARTED and n.runspace_pool is self.pool, "nested-pipeline", repr(vars(n)))
            if len(self.pss) < 5:
                q = PS(n)
                n.add_script("n")
                q.commands = 1
                self.pss.append(q)
            self.case.ctx.count("nested")


POOL = ["open", "close", "disconnect", "connect", "reset", "metadata", "limits", "server"]
PIPE = ["new", "begin", "poll", "end", "stop", "pclose", "pconnect", "nested"]
WEIGHTS = {"open": 0.5, "close": 0.1, "disconnect": 0.7, "metadata": 0.4, "limits": 0.4, "reset": 0.5, "server": 0.3, "begin": 4, "new": 1.5, "poll": 2,
           "end": 1.5, "pclose": 3, "connect": 1.5, "pconnect": 2}


def walk_case(case):
    w = World(case)
    r = case.rng
    with Net(w.s):
        if r.random() < 0.8:
            w.op_open()
        names = POOL + PIPE
        weights = [WEIGHTS.get(n, 1) * r.choice([0.3, 1, 3]) for n in names]
        for _ in range(r.choice([6, 15, 40, 80])):
            n = r.choices(names, weights)[0]
            getattr(w, "op_" + n)()
            if w.state in (CLOSED, BROKEN) and r.random() < 0.15:
                break
        w.fault_on = None
        w.op_close()
    case.note(calls=w.trace[:40], proto=w.proto)
    case.key(w.trace)


def main(ctx):
    ctx.rule("random sequences of up to 50 pool and pipeline calls, with faults, refusals, server state reports and several pipelines; beside the real "
             "objects a reference state machine of the documented life cycle is stepped, and after each call every reported state, the kind and content "
             "of the error and the requests sent are compared; distinct: the call sequence.")
    ctx.assumptions.append("calls whose outcome no documentation prescribes are not made: sending pipeline calls over a pool that is not open, re-invoking a "
                           "pipeline that was not closed, polling a pipeline that is not registered")
    ctx.each("walk", 1300, 20000, walk_case)
    for k in ("illegal_calls", "noop_calls", "legal_calls", "disconnects", "server_state_changes", "invocations", "reinvocations", "stops",
              "pipeline_connects", "nested"):
        ctx.require(k, 10)
