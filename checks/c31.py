"""C31: interference monitor. Sessions that hold alone run side by side in threads, with switches forced inside pypsrp's own lines."""
import os
import sys
import threading
import uuid
import warnings
import xml.etree.ElementTree as ET

import psrpmon
from psrpmon import clixml, core, values, workloads, wsmv
from psrpmon.core import CpuLimit, Halt, HarnessError, Violation, short

TOOL = 4
WATCHED = (core.SRC, ET.__file__, uuid.__file__, warnings.__file__)      # pypsrp, and what it keeps process-wide state in


class Switches:
    """Forces thread switches at chosen lines of pypsrp and records which lines really met."""

    def __init__(self, r, mode):
        self.mode, self.seed = mode, r.getrandbits(32)
        self.rare = r.choice([3, 20, 100])
        self.pairs, self.last, self.lines, self.switched = set(), (None, None), 0, 0
        self.n = 0

    def line(self, code, line):
        if not code.co_filename.startswith(WATCHED):
            return sys.monitoring.DISABLE
        here = (code.co_name, line)
        me = threading.get_ident()
        who, there = self.last
        self.last = (me, here)
        self.lines += 1
        if who is not None and who != me:
            self.switched += 1
            self.pairs.add((there, here))
        self.n = n = (self.n * 1103515245 + 12345 + self.seed) & 0x7FFFFFFF
        if self.mode == "lines":
            if hash((self.seed, code.co_name, line)) % 40 == 0 and (n >> 12) % 2:
                psrpmon.REAL_SLEEP(0.0001 if (n >> 20) % 4 == 0 else 0)
        elif (n >> 12) % self.rare == 0:
            psrpmon.REAL_SLEEP(0)
        return None

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5 if self.mode != "coarse" else 5e-4)
        if self.mode != "coarse":
            m = sys.monitoring
            m.use_tool_id(TOOL, "psrpmon")
            m.register_callback(TOOL, m.events.LINE, self.line)
            m.restart_events()
            m.set_events(TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        sys.setswitchinterval(self.interval)
        if self.mode != "coarse":
            m = sys.monitoring
            m.set_events(TOOL, 0)
            m.register_callback(TOOL, m.events.LINE, None)
            m.free_tool_id(TOOL)


class Worker:
    def __init__(self, case, name, seed):
        self.case, self.name, self.seed = case, name, seed
        self.fn = construct if name == "construct" else workloads.function(name)      # imported before the threads start
        self.sub = workloads.sub(case, name, seed)
        self.violation = self.broken = None

    def alone(self):
        return core.outcome(workloads.sub(self.case, self.name, self.seed), self.fn)

    def __call__(self, go):
        psrpmon.clock.separate(None)
        psrpmon.hosts.separate({})
        go.wait()
        try:
            self.violation = core.outcome(self.sub, self.fn)
        except BaseException as e:      # noqa: B902 - handed to the main thread
            self.broken = e


def stacks(threads):
    frames = sys._current_frames()
    out = []
    for t in threads:
        f = frames.get(t.ident)
        while f is not None:
            if f.f_code.co_filename.startswith(core.SRC):
                out.append("%s:%d %s" % (os.path.basename(f.f_code.co_filename), f.f_lineno, f.f_code.co_name))
                break
            f = f.f_back
    return out


def together_case(case):
    r = case.rng
    n = r.choice([2, 2, 3, 4, 6])
    k = r.random()
    if k < 0.3:
        names = [workloads.pick(r)] * n
    elif k < 0.4:
        names = [r.choice(["serialize", "deserialize", "graph-out", "graph-in", "described"]) for _ in range(n)]
    else:
        names = [workloads.pick(r) for _ in range(n)]
    side_by_side(case, names, r.choice(["lines", "lines", "random", "random", "coarse"]))


def side_by_side(case, names, mode):
    r, n = case.rng, len(names)
    seeds = ["%d" % r.getrandbits(48) for _ in names]
    if r.random() < 0.15:
        seeds = [seeds[0]] * n
    case.note(workloads=",".join(names), mode=mode)
    workers = [Worker(case, a, b) for a, b in zip(names, seeds)]
    go = threading.Barrier(n)
    threads = [threading.Thread(target=w, args=(go,), daemon=True) for w in workers]
    sw = Switches(r, mode)
    with wsmv.network({}):
        try:
            with sw:
                for t in threads:
                    t.start()
                for t in threads:
                    t.join()
        except CpuLimit:
            raise Violation("no-termination", "side by side %s do not end: %s" % (names, stacks(threads)))
    for w in workers:
        if w.broken is not None:
            raise w.broken if isinstance(w.broken, Exception) else HarnessError(repr(w.broken))
        case.events += w.sub.events
        if w.violation is None:
            continue
        # what a session does wrong by itself is for the check of that property to report
        for _ in range(2):
            if w.alone() is not None:
                case.ctx.count("fails_alone")
                break
        else:
            raise Violation("interference", "%s with seed %s among %s (%s): %s: %s" % (
                w.name, w.seed, names, mode, w.violation.kind, short(w.violation.detail, 2500)))
    case.ctx.count("sessions", n)
    case.ctx.count("mode:" + mode)
    case.ctx.count("lines_observed", sw.lines)
    case.ctx.count("switches_inside_pypsrp", sw.switched)
    for p in sw.pairs:
        case.ctx.distinct.add(("pair", hash(p)))
    case.key(tuple(sorted(names)), mode, case.index)


def construct(case):
    """Creates the objects a session starts with, and uses each once without a server."""
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.serializer import Serializer
    from pypsrp.shell import WinRS
    from pypsrp.wsman import WSMan
    r = case.rng
    for _ in range(12):
        size = r.choice([153600, 512000, 20000])
        name = "h%d.test" % r.randrange(10 ** 6)
        w = WSMan(name, ssl=False, auth="basic", encryption="never", username="u", password="p", max_envelope_size=size, operation_timeout=r.choice([20, 30]))
        case.check(name in w.transport.endpoint, "endpoint", w.transport.endpoint)
        case.eq(w.max_envelope_size, size, "envelope-size", name)
        want = per_size(size)
        case.eq(w.max_payload_size, want, "payload-size", size)
        pool = RunspacePool(w, max_runspaces=r.choice([1, 3]))
        ps = PowerShell(pool).add_script(name)
        case.eq([c.cmd for c in ps.commands], [name], "commands", name)
        WinRS(w)
        py, model = values.value(r, 2)
        back = clixml.Decoder().parse(ET.tostring(Serializer().serialize(py), encoding="utf-8", method="xml"))
        d = clixml.diff(back, model)
        case.check(d is None, "serialized", lambda: d)


_SIZES = {}


def per_size(size):
    """The payload of an envelope as a lone connection has it."""
    return _SIZES[size]


def constructors_case(case):
    r = case.rng
    if not _SIZES:
        from pypsrp.wsman import WSMan
        for size in (153600, 512000, 20000):
            _SIZES[size] = WSMan("h.test", ssl=False, auth="basic", encryption="never", username="u", password="p", max_envelope_size=size).max_payload_size
    side_by_side(case, ["construct"] * r.choice([2, 4, 8]), r.choice(["lines", "random", "random", "coarse"]))


def main(ctx):
    ctx.rule("sessions of the other checks, each with its own server, run side by side in two to six threads, with thread switches forced at lines of "
             "pypsrp and of the library modules it keeps process-wide state in; each is judged by its own oracle, and a session that only fails in company is interference; distinct: sets of sessions, and pairs of "
             "pypsrp lines between which a switch really happened.")
    ctx.assumptions.append("threads share no connection, pool, pipeline or value; a session that also fails alone is left to the check of its own property")
    ctx.each("threads", 60, 2500, together_case)
    ctx.each("constructors", 10, 300, constructors_case)
    for k, n in (("sessions", 60), ("switches_inside_pypsrp", 1000)):
        ctx.require(k, n)
