"""C27: disconnected pools and pipelines - discovery, connection targets, negotiated settings and remaining output against the server's own view."""
import uuid

from checks.c08 import KINDS, Script, check_pipeline
from psrpmon import clixml, gen, msgs, values, wsmv
from psrpmon.clixml import Map, P
from psrpmon.core import Halt, Violation, short
from psrpmon.server import Net, connection
from psrpmon.session import make, sprinkle
from psrpmon.wsmv import q

CONFIGS = ["Microsoft.PowerShell", "Microsoft.PowerShell", "Microsoft.PowerShell32", "JEA.Role", "PowerShell.7"]


class Kept:
    """The part of a script the server has not handed out when another client takes over."""

    def __init__(self, sc):
        self.items = sc.items[sc.out:]
        self.state, self.err = sc.state, sc.err
        self.inner, self.first = sc, sc.out

    @property
    def out(self):
        return self.inner.out - self.first

    def settle(self, cmd):
        self.inner.settle(cmd)


def private(r):
    return Map([(P("S", "k%d" % i), P(r.choice(["I32", "I64"]), r.randint(-9, 9))) for i in range(gen.few(r, [0, 1, 3], [130]))],
               ["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"])


class World:
    def __init__(self, case):
        self.case, self.r = case, case.rng
        self.s = s = make(case, proto=self.r.choice(["2.1", "2.2", "2.3"]))
        s.own_shell_ids = s.own_command_ids = False
        s.keep_done = True
        self.scripts = {}
        s.on_pipeline = self.run
        self.strict = {}

        def before(req):
            # WSMan operations reach a shell only under the resource URI it was created with
            sh = s.shell_of(req)
            if sh is not None and req.uri != sh.uri and req.action != "Enumerate":
                raise Halt(Violation("wrong-resource-uri", "%s of shell %s (%s) with the resource URI %s" % (req.action, sh.id, sh.uri, req.uri)))
            if req.action not in ("Create", "Enumerate", "Get") and sh is None and req.index not in self.faults:
                raise Halt(Violation("wrong-shell", "%s with the selectors %s" % (req.action, req.selectors)))
            if self.plan and req.action == self.plan:
                self.plan = None
                self.faults.add(req.index)
                return wsmv.fault(req, self.r.choice([5, 2150859174]), "refused")
            return None
        s.before = before
        self.plan = None
        self.faults = set()

    def run(self, cmd):
        r = self.r
        end = r.choice([(4, None), (4, None), (5, msgs.error_record(r)), (3, None), (3, msgs.error_record(r))])
        sc = Script(self.s, cmd, r, r.choice([0, 1, 2, 4, 8, 15]), end)
        q_ = []
        for f in cmd.queue:
            while isinstance(f, bytes) and r.random() < 0.08:
                q_.append((r.choice("TEB"),))
            q_.append(f)
        cmd.queue = q_
        self.scripts[cmd.id] = (sc, cmd)


def drain(w, live, what):
    """Polls the pipelines in any order until all ended, checking all of them after each poll."""
    case, r = w.case, w.r
    polls = 0
    todo = [x for x in live if x[0].state == 1]
    while todo:
        ps, sc, cmd = r.choice(todo)
        if r.random() < 0.2:
            out = ps.end_invoke()
            case.check(out == ps.output, "end-invoke-return", what)
        else:
            ps.poll_invoke(timeout=r.choice([None, None, 5]))
        polls += 1
        for x in live:
            x[1].settle(x[2])
            check_pipeline_of(case, *x, what=what)
        todo = [x for x in live if x[0].state == 1]
        if polls > 3000:
            raise Violation("polls-for-ever", what)
    for ps, sc, cmd in live:
        case.check(sc.out == len(sc.items), "returned-before-the-end", lambda: "%s: %d of %d messages handed out" % (what, sc.out, len(sc.items)))
    return polls


def check_pipeline_of(case, ps, sc, cmd, what):
    if ps.state == 6 and not any(k == "state" for k, _ in sc.items[:sc.out]):
        fake = type("P", (), {"output": ps.output, "streams": ps.streams, "had_errors": ps.had_errors, "state": 1})()
        return check_pipeline(case, fake, sc, what)
    return check_pipeline(case, ps, sc, what)


def partial(w, live):
    """Polls a while, leaving each pipeline between two messages, not ended."""
    r = w.r
    for ps, sc, cmd in live:
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            if ps.state != 1:
                break
            ps.poll_invoke()
            sc.settle(cmd)


def at_message_border(cmd, sc):
    """True when no message has been handed out in part."""
    frs = [f for f in cmd.queue if isinstance(f, bytes)]
    return not frs or frs[0][16] & 1


def same_client_case(case):
    from pypsrp.exceptions import WSManFaultError
    from pypsrp.powershell import PowerShell, RunspacePool
    w = World(case)
    r, s = w.r, w.s
    polls = 0
    with Net(s):
        conn = connection(s.host)
        pools = []
        for _ in range(r.choice([1, 1, 2])):
            p = RunspacePool(conn, configuration_name=r.choice(CONFIGS), max_runspaces=5)
            p.open()
            sh = s.all_shells[-1]
            live = []
            for _ in range(r.choice([0, 1, 2, 3])):
                ps = PowerShell(p).add_script("x")
                ps.begin_invoke()
                live.append((ps,) + w.scripts[sh.last_command.id])
            pools.append((p, sh, live))
        cycles = r.choice([1, 1, 2, 3])
        for cycle in range(cycles):
            p, sh, live = r.choice(pools)
            what = "cycle %d" % cycle
            partial(w, live)
            running = [x for x in live if x[0].state == 1]
            w.plan = "Disconnect" if r.random() < 0.1 else None
            if w.plan:
                try:
                    p.disconnect()
                    raise Violation("fault-swallowed", "disconnect")
                except WSManFaultError:
                    pass
                case.eq(p.state, 2, "pool-state", "after a refused disconnect")
                case.check(all(x[0].state == 1 for x in running), "pipeline-state", "after a refused disconnect")
            n = len(s.log)
            p.disconnect()
            case.check([(q_.action, q_.shell_id) for q_ in s.log[n:]] == [("Disconnect", sh.id)], "disconnect-requests", lambda: short(s.log[n:]))
            case.eq(sh.state, "Disconnected", "server-state", what)
            case.eq(p.state, 9, "pool-state", what + " after disconnect")
            for ps, sc, cmd in live:
                was = (ps, sc, cmd) in running
                case.check((ps.state == 6) == was, "pipeline-state", lambda: "%s: state %s after disconnect, was %srunning" % (what, ps.state, "" if was else "not "))
            got = p.create_disconnected_power_shells()
            case.check(len(got) == len(running) and all(any(g is x[0] for g in got) for x in running), "disconnected-pipelines", what)
            n = len(s.log)
            p.disconnect()
            case.check(len(s.log) == n, "disconnect-requests", "a second disconnect sent something")
            if r.random() < 0.15:
                w.plan = "Reconnect"
                try:
                    p.connect()
                    raise Violation("fault-swallowed", "connect")
                except WSManFaultError:
                    pass
                case.eq(p.state, 9, "pool-state", "after a refused connect")
                case.ctx.count("refused_connects")
            n = len(s.log)
            p.connect()
            case.check([(q_.action, q_.shell_id) for q_ in s.log[n:]] == [("Reconnect", sh.id)], "connect-requests", lambda: short(s.log[n:]))
            case.eq(p.state, 2, "pool-state", what + " after connect")
            case.eq(sh.state, "Connected", "server-state", what)
            again = list(running)
            r.shuffle(again)
            for ps, sc, cmd in again:
                if r.random() < 0.1:
                    w.plan = "Connect"
                    try:
                        ps.connect_async()
                        raise Violation("fault-swallowed", "pipeline connect")
                    except WSManFaultError:
                        pass
                    case.eq(ps.state, 6, "pipeline-state", "after a refused connect")
                n = len(s.log)
                ps.connect_async()
                case.check([(q_.action, q_.shell_id, q_.find("rsp:Connect").attrib.get("CommandId", "").upper()) for q_ in s.log[n:]] ==
                           [("Connect", sh.id, cmd.id)], "connect-requests", lambda: short([(q_.action, q_.shell_id) for q_ in s.log[n:]]))
                case.eq(ps.state, 1, "pipeline-state", "after connect")
                if r.random() < 0.4:
                    partial(w, [(ps, sc, cmd)])
            if r.random() < 0.5:
                polls += drain(w, live, what)
            case.ctx.count("same_client_reconnects")
            case.ctx.count("pipelines_reconnected", len(again))
        for p, sh, live in pools:
            polls += drain(w, live, "end")
            ps = PowerShell(p).add_script("afterwards")
            ps.begin_invoke()
            x = (ps,) + w.scripts[sh.last_command.id]
            polls += drain(w, [x], "a new pipeline")
            p.close()
            case.check(sh.id in s.gone, "not-closed", "")
    case.note(pools=len(pools), cycles=cycles, polls=polls)
    case.key(len(pools), cycles, polls, [len(l) for _, _, l in pools])


def silent_case(case):
    discovery_case(case, silent=True)


def discovery_case(case, silent=False):
    from pypsrp.exceptions import WSManFaultError
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.shell import WinRS
    w = World(case)
    r, s = w.r, w.s
    s.private = private(r)
    s.lower_ids = r.random() < 0.3
    remote = {}
    with Net(s):
        first = connection(s.host)
        for _ in range(gen.few(r, [0, 1, 1, 2, 3, 5], [20, 50])):
            if r.random() < 0.15:
                WinRS(first).open()
                case.ctx.count("other_shells")
                continue
            lo = r.choice([1, 1, 2])
            p = RunspacePool(first, configuration_name=r.choice(CONFIGS), min_runspaces=lo, max_runspaces=r.choice([lo, 5, 9]))
            p.open()
            sh = s.all_shells[-1]
            cmds = {}
            for _ in range(gen.few(r, [0, 0, 1, 2, 4], [20, 50])):
                ps = PowerShell(p).add_script("x")
                ps.begin_invoke()
                sc, cmd = w.scripts[sh.last_command.id]
                for _ in range(r.choice([0, 0, 1, 3])):
                    if ps.state == 1:
                        ps.poll_invoke()
                        sc.settle(cmd)
                while not at_message_border(cmd, sc) and ps.state == 1:
                    ps.poll_invoke()
                    sc.settle(cmd)
                if ps.state != 1:
                    ps.close() if ps.state in (3, 4, 5) else None
                    continue
                cmds[cmd.id] = (Kept(sc), cmd)
            if r.random() < 0.8:
                p.disconnect()
            remote[sh.id] = (sh, cmds, list(sh.limits))
        proto = r.choice(["2.1", "2.2", "2.3"])
        second = first if r.random() < 0.2 else connection(s.host, **({"max_envelope_size": r.choice([20480, 153600, 512000])} if r.random() < 0.5 else {}))
        n = len(s.log)
        pools = RunspacePool.get_runspace_pools(second)
        case.check(all(x.action == "Enumerate" for x in s.log[n:]), "discovery-requests", lambda: short([x.action for x in s.log[n:]]))
        got = sorted(str(p.id).upper() for p in pools)
        case.check(got == sorted(remote), "discovered-pools", lambda: "found %s, the server holds %s" % (got, sorted(remote)))
        for p in pools:
            sh, cmds, limits = remote[p.id.upper()]
            case.eq(p.state, 9, "pool-state", "discovered")
            case.check(p.connection is second, "connection", "")
            have = sorted(str(k).upper() for k in p.pipelines)
            case.check(have == sorted(cmds), "discovered-pipelines", lambda: "%s: found %s, the server runs %s" % (p.id, have, sorted(cmds)))
            dis = p.create_disconnected_power_shells()
            case.check(sorted(x.id.upper() for x in dis) == sorted(cmds), "disconnected-pipelines", p.id)
            case.check(all(x.state == 6 and x.runspace_pool is p for x in dis), "pipeline-state", "discovered")
        case.ctx.count("discovered_pools", len(pools))
        s.proto = proto
        r.shuffle(pools)
        sessions = []
        for p in pools:
            sh, cmds, limits = remote[p.id.upper()]
            k = r.random()
            if k < 0.12:
                n = len(s.log)
                p.close()
                case.check([(x.action, x.shell_id) for x in s.log[n:]] == [("Delete", sh.id)], "close-requests", lambda: short([(x.action, x.selectors) for x in s.log[n:]]))
                case.eq(p.state, 3, "pool-state", "closed without connecting")
                case.ctx.count("closed_unconnected")
                continue
            if k < 0.2:
                continue
            s.private = private(r)
            if r.random() < 0.5:
                sh.limits = limits = [r.choice([1, 2, 3]), r.choice([3, 8, 100])]
            sh.queue = []
            if r.random() < 0.15:
                w.plan = "Connect"
                try:
                    p.connect()
                    raise Violation("fault-swallowed", "connect")
                except WSManFaultError:
                    pass
                case.eq(p.state, 9, "pool-state", "after a refused connect")
                case.ctx.count("refused_connects")
            mode = "none" if silent else r.choice(["same", "same", "same", "leftover"])
            tail = []
            s.max_idle = 20
            real = s.connect_reply

            def connect_reply(sh_, real=real, mode=mode):
                data = real(sh_)
                last = sh_.queue[-1][:8]
                priv, state = [f for f in sh_.queue if f[:8] != last], [f for f in sh_.queue if f[:8] == last]
                tail.append(len(state))
                if mode == "none":
                    state = []
                if mode == "leftover":
                    # what the client before did not fetch any more comes first
                    sh_.queue = state + priv
                    return data
                out = []
                for f in priv:
                    while r.random() < 0.2:
                        out.append((r.choice("EB"),))
                    out.append(f)
                sh_.queue = out + state
                return data
            s.connect_reply = connect_reply
            if mode == "same":
                s.batch = lambda n: n if n - (k := r.choice([1, 2, n])) <= tail[0] else k
            n, m = len(s.log), len(sh.msgs)
            p.connect()
            s.connect_reply, s.batch, s.max_idle = real, None, 400
            if silent:
                # the server answers with the private data alone, as Windows does; the client is connected none the less
                case.check(p.state == 2, "state-unreported", "the pool's state is %s after connect" % p.state)
            case.eq(p.state, 2, "pool-state", "after connect")
            case.eq(sh.state, "Connected", "server-state", "")
            reqs = s.log[n:]
            case.check(reqs[0].action == "Connect" and reqs[0].shell_id == sh.id and all(x.action == "Receive" and x.shell_id == sh.id for x in reqs[1:]),
                       "connect-requests", lambda: short([(x.action, x.shell_id) for x in reqs]))
            case.check([x.name for x in sh.msgs[m:]] == ["SESSION_CAPABILITY", "CONNECT_RUNSPACEPOOL"], "connect-messages", lambda: short(sh.msgs[m:]))
            case.eq(p.protocol_version, proto, "protocol-version", "")
            case.eq((p.min_runspaces, p.max_runspaces), tuple(limits), "limits", "taken over")
            if mode == "leftover" and p.application_private_data is None:
                s.batch = lambda n: n
                p.get_available_runspaces()
                s.batch = None
            d = clixml.match(p.application_private_data.data, s.private) if p.application_private_data is not None else "none"
            case.check(d is None, "private-data", lambda: str(d))
            live = []
            dis = p.create_disconnected_power_shells()
            r.shuffle(dis)
            for ps in dis:
                sc, cmd = cmds[ps.id.upper()]
                n = len(s.log)
                ps.connect_async()
                case.check([(x.action, x.shell_id, x.find("rsp:Connect").attrib.get("CommandId", "").upper()) for x in s.log[n:]] ==
                           [("Connect", sh.id, cmd.id)], "connect-requests", lambda: short([(x.action, x.shell_id) for x in s.log[n:]]))
                case.eq(ps.state, 1, "pipeline-state", "after connect")
                live.append((ps, sc, cmd))
            sessions.append((p, sh, live))
            case.ctx.count("connected_pools")
            case.ctx.count("taken_over_pipelines", len(live))
        every = [x for _, _, live in sessions for x in live]
        polls = drain(w, every, "taken over")
        for p, sh, live in sessions:
            ps = PowerShell(p).add_script("afterwards")
            ps.begin_invoke()
            polls += drain(w, [(ps,) + w.scripts[sh.last_command.id]], "a new pipeline")
            if r.random() < 0.3:
                # from now on it is this client's pool
                p.disconnect()
                case.eq(p.state, 9, "pool-state", "disconnected again")
                n = len(s.log)
                p.connect()
                case.check([(x.action, x.shell_id) for x in s.log[n:]] == [("Reconnect", sh.id)], "connect-requests", lambda: short([(x.action, x.shell_id) for x in s.log[n:]]))
                case.eq(p.state, 2, "pool-state", "connected again")
            n = len(s.log)
            p.close()
            case.check([(x.action, x.shell_id) for x in s.log[n:]] == [("Delete", sh.id)], "close-requests", lambda: short([(x.action, x.selectors) for x in s.log[n:]]))
    case.note(shells=len(remote), connected=len(sessions), pipelines=len(every), polls=polls)
    case.key(len(remote), len(sessions), len(every), polls)


def main(ctx):
    ctx.rule("random sets of pools with several configurations, limits and pipelines in any stage; the same client disconnects and connects up to three times, or "
             "a second client discovers, closes or connects them with messages batched in any way; output remaining at that point must arrive on its pipeline. "
             "distinct: shape of the world and number of polls.")
    ctx.assumptions.append("a second client takes over between messages; the server answers an enumeration in one response (Pull is not implemented by the library)")
    ctx.each("same_client", 110, 15000, same_client_case)
    ctx.each("discovery", 150, 20000, discovery_case)
    ctx.each("silent", 12, 100, silent_case)
    for k, n in [("same_client_reconnects", 60), ("discovered_pools", 60), ("connected_pools", 40), ("taken_over_pipelines", 30), ("pipelines_reconnected", 30),
                 ("refused_connects", 8)]:
        ctx.require(k, n)
