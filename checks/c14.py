"""C14: every host call of a scripted server against the host method invocations and the responses that come back."""
import uuid
import xml.etree.ElementTree as ET

from psrpmon import clixml, gen, msgs, values
from psrpmon.clixml import Map, Obj, P, Seq
from psrpmon.core import Violation, short
from psrpmon.server import Net
from psrpmon.session import make, open_pool, sprinkle

METHODS, DEFAULTS = set(), set()
HOST, UI, RAW = range(1, 11), range(11, 27), range(27, 52)
H = "System.Management.Automation.Host."
COLORS = ["Black", "DarkBlue", "DarkGreen", "DarkCyan", "DarkRed", "DarkMagenta", "DarkYellow", "Gray", "DarkGray", "Blue", "Green", "Cyan", "Red",
          "Magenta", "Yellow", "White"]
ENUM_T = ["System.Enum", "System.ValueType", "System.Object"]


def color(v):
    from pypsrp.complex_objects import Color
    return Color(value=v), Obj(["System.ConsoleColor"] + ENUM_T, COLORS[v], [P("I32", v)])


def pair(cls, a, b, x, y):
    import pypsrp.complex_objects as co
    return (getattr(co, cls)(**{a.lower(): x, b.lower(): y}),
            Obj([H + cls, "System.ValueType", "System.Object"], None, [], props=[(a, P("I32", x)), (b, P("I32", y))]))


def coordinates(x, y):
    return pair("Coordinates", "X", "Y", x, y)


def size(w, h):
    return pair("Size", "Width", "Height", w, h)


def culture(r):
    from pypsrp.complex_objects import CultureInfo
    f = [("lcid", "LCID", P("I32", r.choice([0, 127, 1033, 3081])))]
    for a, n in [("name", "Name"), ("display_name", "DisplayName"), ("ietf_language_tag", "IetfLanguageTag"),
                 ("three_letter_iso_name", "ThreeLetterISOLanguageName"), ("three_letter_windows_name", "ThreeLetterWindowsLanguageName"),
                 ("two_letter_iso_language_name", "TwoLetterISOLanguageName")]:
        f.append((a, n, P("S", gen.txt(r, 0.7))))
    return CultureInfo(**{a: p.val for a, _, p in f}), Obj(None, None, [], props=[(n, p) for _, n, p in f])


def key_info(r):
    from pypsrp.complex_objects import KeyInfo
    c, ch, st, kd = r.choice([None, 13, 65]), r.choice([0, 13, 65, 0x20AC, 0xFFFF]), r.randint(0, 511), r.random() < 0.5
    ms = [("character", P("C", ch)), ("controlKeyState", P("I32", st)), ("keyDown", P("B", kd))]
    if c is not None:
        ms.append(("virtualKeyCode", P("I32", c)))
    return KeyInfo(code=c, character=chr(ch), state=st, key_down=kd), Obj(None, None, [], ms=ms)


def cells(r):
    from pypsrp.complex_objects import Array, BufferCell
    dims = r.choice([[1], [3], [1, 1], [2, 3], [3, 1], [2, 1, 2]])
    flat = []

    def build(d):
        if d:
            return [build(d[1:]) for _ in range(d[0])]
        f, fm = color(r.randrange(16))
        b, bm = color(r.randrange(16))
        ch, t = r.choice([32, 65, 0x3042]), r.randrange(3)
        flat.append(Obj(None, None, [], props=[("character", P("C", ch)), ("foregroundColor", fm), ("backgroundColor", bm), ("bufferCellType", P("I32", t))]))
        return BufferCell(character=chr(ch), foreground_color=f, background_color=b, cell_type=t)
    a = build(dims)
    return Array(array=a), Obj(None, None, [], ms=[("mae", Seq("LST", flat, None)), ("mal", Seq("LST", [P("I32", n) for n in dims], None))])


def returned(r):
    """What a host method may return: (python, model)."""
    k = r.random()
    if k < 0.25:
        return r.choice([(0, P("I32", 0)), (False, P("B", False)), ("", P("S", "")), ([], Seq("LST", [], values.LIST_T)), ({}, Map([], values.DICT_T)),
                         (b"", P("BA", b"")), (0.0, P("Sg", 0.0))])
    if k < 0.55:
        return r.choice([lambda: color(r.randrange(16)), lambda: coordinates(r.randint(-5, 500), r.randint(-5, 500)),
                         lambda: size(r.randint(0, 500), r.randint(0, 500)), lambda: culture(r), lambda: key_info(r), lambda: cells(r)])()
    if k < 0.57:     # larger than one fragment
        t = gen.txt(r, 0.5) + "".join(r.choice("abc\u20ac") for _ in range(40)) * r.choice([3000, 6000, 12000])
        return t, P("S", t)
    while True:
        py, m = values.value(r, r.choice([0, 1, 2]))
        if py is not None and not (isinstance(m, P) and m.tag == "Nil"):
            return py, m


def mi_model(mi):
    return Obj(["System.Management.Automation.Remoting.RemoteHostMethodId"] + ENUM_T, msgs.HOST_METHODS[mi], [P("I32", mi)])


class Call:
    def __init__(self, r, mi, args, ret, pool_level, check=None):
        self.ci = r.choice([-100, 1, 1, 2, 3, 0, 2**31, 2**63 - 1, -1, r.randint(1, 10**6)])
        self.mi, self.args, self.ret, self.pool_level, self.check = mi, args, ret, pool_level, check

    @property
    def name(self):
        return msgs.HOST_METHODS[self.mi]

    def push(self, s, target):
        s.push(target, "RUNSPACEPOOL_HOST_CALL" if self.pool_level else "PIPELINE_HOST_CALL", msgs.host_call(self.ci, self.mi, self.args, s.rng))

    def __repr__(self):
        return "%s(%d, ci=%d, %d args)" % (self.name, self.mi, self.ci, len(self.args))


def recording_host(log, plan, level):
    """A host whose every method records its call and returns what was planned. level: 3 raw ui, 2 ui."""
    from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface

    def methods(ids):
        def method(mi):
            def f(self, runspace, pipeline, *args):
                log.append((mi, runspace, pipeline, args))
                return plan(mi, runspace, pipeline)
            return f
        return {msgs.HOST_METHODS[i]: method(i) for i in ids}
    c, w = coordinates(1, 2)[0], size(80, 25)[0]
    raw = type("Raw", (PSHostRawUserInterface,), methods(RAW))("title", 10, color(1)[0], color(2)[0], c, c, w, w, w, w)
    ui = type("UI", (PSHostUserInterface,), methods(UI))(raw if level == 3 else None)
    return type("Host", (PSHost,), methods(HOST))(None, None, False, "name", None, ui, "1.0")


def arguments(r):
    out = [values.received(r, r.choice([0, 0, 1, 2]), True) for _ in range(r.choice([0, 1, 1, 2, 3, 8]))]
    if r.random() < 0.2:   # as Coordinates and rectangles come: no type names
        out.insert(0, Obj(None, None, [], ms=[("x", P("I32", r.randint(-9, 99))), ("y", P("I32", r.randint(-9, 99)))]))
    return out


class Feeder:
    """Queues a pipeline's output and host calls; after a held call nothing more comes until its response is in."""

    def __init__(self, s, target, steps, end, r):
        self.s, self.target, self.steps, self.end, self.r = s, target, list(steps), end, r
        self.waiting = None

    def go(self):
        while self.steps:
            st = self.steps.pop(0)
            if isinstance(st, Call):
                st.push(self.s, self.target)
                if st.ret is not None and st.hold:
                    self.waiting = st
                    return
            else:
                self.s.push(self.target, "PIPELINE_OUTPUT", st)
        if self.end:
            self.s.finish(self.target)
            self.end = False


def check_log(case, log, want, target, what):
    case.check([e[0] for e in log] == [c.mi for c in want], "invocations", lambda: "%s: the host ran %s, the server called %s" % (
        what, [msgs.HOST_METHODS.get(e[0]) for e in log], want))
    for (mi, runspace, pipeline, args), c in zip(log, want):
        case.check(len(args) == len(c.args), "arguments", lambda: "%r: %d arguments" % (c, len(args)))
        for i, (g, w) in enumerate(zip(args, c.args)):
            d = clixml.match(g, w)
            case.check(d is None, "arguments", lambda: "%r argument %d: %s" % (c, i, d))


def check_responses(case, s, sh, got, want, pool_level, what):
    want = [c for c in want if c.ret is not None]
    case.check(len(got) == len(want), "response-count", lambda: "%s: %d responses, want %d for %s" % (what, len(got), len(want), want))
    for m, c in zip(got, want):
        case.eq(m.name, "RUNSPACEPOOL_HOST_RESPONSE" if pool_level else "PIPELINE_HOST_RESPONSE", "response-type", what)
        if pool_level:
            case.check(m.pid is None or m.pid.int == 0, "response-target", lambda: "%r has pipeline %s" % (c, m.pid))
        d = s.model(sh, m)
        case.check(d.has("ci") and d.has("mi") and d.has("mr"), "response-members", lambda: "%r: %r" % (c, [n for n, _ in d.ms]))
        case.check(not d.has("me") or getattr(d.get("me"), "tag", None) == "Nil", "response-error", lambda: repr(c))
        x = clixml.diff(d.get("ci"), P("I64", c.ci)) or clixml.diff(d.get("mi"), mi_model(c.mi))
        case.check(x is None, "response-identifiers", lambda: "%s %r: %s" % (what, c, x))
        x = clixml.diff(d.get("mr"), c.ret)
        case.check(x is None, "response-value", lambda: "%s %r: %s" % (what, c, x))
        case.ctx.count("responses")


def drive(r, pss, limit=30000):
    for ps in pss:
        ps.begin_invoke()
    n = 0
    while True:
        live = [p for p in pss if p.state == 1]
        if not live:
            return
        n += 1
        if n > limit:
            raise Violation("never-ends", "%d polls; a pipeline still waits for its host response" % n)
        (live[0] if r.random() < 0.3 else r.choice(live)).poll_invoke()


def wait(pool, sh, polls=10000):
    """Receives for the pool until the server has nothing more for it."""
    while any(isinstance(x, bytes) for x in sh.queue):
        pool.get_available_runspaces()
        polls -= 1
        if polls < 0:
            raise Violation("never-ends", "pool messages stay undelivered")


def recorded_case(case):
    from pypsrp.powershell import PowerShell
    r = case.rng
    s = make(case)
    log = []
    kind = r.random()
    has_host = kind < 0.85
    level = 3 if r.random() < 0.8 else 2
    plans = {}      # target key -> list of python returns

    def plan(mi, runspace, pipeline):
        key = pipeline.id if pipeline is not None else None
        q = plans.get(key)
        if not q:
            raise Violation("invocations", "%s ran for %s, which had no call left" % (msgs.HOST_METHODS[mi], key))
        ret = q.pop(0)
        if busy and r.random() < 0.25 and len(asides) < 12 and runspace.state == 2 and len(inside) < 2:
            inside.append(pipeline is None)
            aside(runspace, pipeline)
            inside.pop()
        return ret
    host = recording_host(log, plan, level) if has_host else None

    def some_call(pool_level, rets):
        mi = r.choice(list(range(1, 52)) if level == 3 else list(range(1, 27))) if r.random() < 0.93 else r.randint(52, 56)
        py, m = (None, None) if r.random() < 0.4 or mi > 51 or not has_host else returned(r)
        c = Call(r, mi, arguments(r), m, pool_level)
        c.hold = r.random() < 0.3
        if mi < 52 and has_host:
            rets.append(py)
        return c
    feeders, calls, pool_calls, outs = {}, {}, [], {}
    plans[None] = []
    busy, inside, asides, pss = r.random() < 0.4, [], set(), []

    def aside(runspace, pipeline):
        """What a host method may do on the pool while it runs."""
        if not any(inside) and r.random() < 0.3:     # the pool's own calls stay in order
            n = runspace.get_available_runspaces()
            case.check(isinstance(n, int), "inside-answer", lambda: repr(n))
            case.ctx.count("pool_asked_inside")
            return
        nested = pipeline is not None and r.random() < 0.6
        ps = pipeline.create_nested_power_shell() if nested else PowerShell(runspace)
        pss.append(ps)
        asides.add(ps.id)
        ps.add_script("inside")
        out = ps.invoke()
        case.check(out is ps.output and ps.state == 4, "inside-pipeline", lambda: "a pipeline run in a host method: %r, state %s" % (out, ps.state))
        case.ctx.count("pipelines_inside")

    if r.random() < 0.4:     # calls while the pool opens
        early = [some_call(True, plans[None]) for _ in range(r.choice([1, 2]))]

        def ordered(sh):
            for c in early:
                c.push(s, sh)
                pool_calls.append(c)
            s.on_open = None
            s.opened(sh)
            return True
        s.on_open = ordered

    def run(cmd):
        rets = []
        steps = []
        side = str(cmd.pid).upper() in asides
        for _ in range(r.choice([0, 1, 3]) if side else gen.few(r, [0, 1, 2, 4, 8], [130, 300], 0.02)):
            steps.append(some_call(False, rets) if r.random() < 0.7 else values.received(r, 1))
        plans[str(cmd.pid).upper()] = rets
        calls[cmd.pid] = [x for x in steps if isinstance(x, Call)]
        outs[cmd.pid] = [x for x in steps if not isinstance(x, Call)]
        f = Feeder(s, cmd, steps, True, r)
        feeders[cmd.pid] = f
        f.go()
        sprinkle(cmd, r, 0.1)

    def answered(sh, m):
        f = feeders.get(m.pid)
        if f is not None and f.waiting is not None:
            got = f.waiting
            f.waiting = None
            case.ctx.count("held_calls")
            f.go()
    s.on_pipeline, s.on_host_response = run, answered
    with Net(s) as net:
        pool = open_pool(net, host=host)
        sh = s.all_shells[0]
        for _ in range(r.choice([1, 1, 2, 3])):
            ps = PowerShell(pool)
            ps.add_script("x")
            pss.append(ps)
        k = r.choice([0, 1, 3])
        for _ in range(k):
            c = some_call(True, plans[None])
            pool_calls.append(c)
            c.push(s, sh)
        if r.random() < 0.5:
            wait(pool, sh)
        drive(r, [p for p in pss if p.id not in asides])
        for _ in range(r.choice([0, 1])):
            c = some_call(True, plans[None])
            pool_calls.append(c)
            c.push(s, sh)
        wait(pool, sh)
        real = [c for c in pool_calls if c.mi < 52]
        for e in log:
            case.check(e[1] is pool, "wrong-runspace", lambda: "%s got %r" % (msgs.HOST_METHODS[e[0]], e[1]))
            case.check(e[2] is None or any(e[2] is p for p in pss), "wrong-pipeline", lambda: "%s got %r" % (msgs.HOST_METHODS[e[0]], e[2]))
        check_log(case, [e for e in log if e[2] is None], real if has_host else [], None, "pool")
        check_responses(case, s, sh, sh.host_responses, real, True, "pool")
        for cmd in sh.commands.values():
            ps = [p for p in pss if p.id == str(cmd.pid).upper()]
            case.check(len(ps) == 1, "wrong-pipeline", lambda: "server has %s" % cmd.pid)
            ps = ps[0]
            real = [c for c in calls[cmd.pid] if c.mi < 52]
            check_log(case, [e for e in log if e[2] is ps], real if has_host else [], ps, "pipeline")
            check_responses(case, s, sh, cmd.host_responses, real, False, "pipeline")
            case.check(len(ps.output) == len(outs[cmd.pid]), "output-lost", lambda: "%d of %d" % (len(ps.output), len(outs[cmd.pid])))
            for g, w in zip(ps.output, outs[cmd.pid]):
                d = clixml.match(g, w)
                case.check(d is None, "output-value", lambda: "between host calls: %s" % d)
            case.eq((ps.state, ps.had_errors), (4, False), "pipeline-state", "after host calls")
        for m in sh.host_responses + [m for c in sh.commands.values() for m in c.host_responses]:
            case.eq(m.via[1], "pr", "response-stream", repr(m))
        pool.close()
    n = sum(len(c) for c in calls.values()) + len(pool_calls)
    case.ctx.count("calls", n)
    if not has_host:
        case.ctx.count("calls_without_host", n)
    case.ctx.count("pool_calls", len(pool_calls))
    for c in pool_calls + [c for q in calls.values() for c in q]:
        METHODS.add(c.mi)
    case.note(host=level if has_host else 0, pool=[repr(c) for c in pool_calls], pipelines=[[repr(c) for c in q] for q in calls.values()])
    case.key((has_host, [c.mi for c in pool_calls], [[c.mi for c in q] for q in calls.values()]))


# ---------------------------------------------------------------- the host that comes with the library
class Default:
    """Model of the documented default host."""

    def __init__(self, r):
        from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface
        self.v = v = {}
        py = {}

        def keep(n, x):
            py[n], v[n] = x
        for n in ("fg", "bg"):
            keep(n, color(r.randrange(16)))
        for n in ("cursor", "window"):
            keep(n, coordinates(r.randint(-9, 999), r.randint(-9, 999)))
        for n in ("buffer", "maxphys", "max", "win"):
            keep(n, size(r.randint(0, 9999), r.randint(0, 9999)))
            if n != "buffer" and r.random() < 0.15:    # one object for several members
                py[n], v[n] = py["buffer"], v["buffer"]
        if r.random() < 0.15:
            py["window"], v["window"] = py["cursor"], v["cursor"]
        for n in ("culture", "uiculture"):
            keep(n, culture(r) if r.random() < 0.8 else (None, None))
        name = r.choice([None, "", gen.txt(r, 0.7)])
        ver = r.choice(["1.0", "5.1.17763.1", "2.0.0"])
        title, csize = gen.txt(r, 0.7), r.randint(0, 100)
        v.update(name=None if name is None else P("S", name), version=P("Version", ver), title=P("S", title), csize=P("I32", csize), key=P("B", False))
        self.raw = PSHostRawUserInterface(title, csize, py["fg"], py["bg"], py["cursor"], py["window"], py["buffer"], py["maxphys"], py["max"], py["win"])
        self.ui = PSHostUserInterface(self.raw)
        self.host = PSHost(py["culture"], py["uiculture"], False, name, None, self.ui, ver)
        v["id"] = P("G", self.host.instance_id)
        self.rc, self.out, self.err = None, [], []

    GET = {1: "name", 2: "version", 3: "id", 4: "culture", 5: "uiculture", 27: "fg", 29: "bg", 31: "cursor", 33: "window", 35: "csize", 37: "buffer",
           39: "win", 41: "title", 43: "max", 44: "maxphys", 45: "key"}
    NOOP = {9: 0, 10: 0, 47: 0, 48: 2, 49: 2, 51: 4, 20: 0}

    def call(self, r, pool_level):
        """A call and its effect on this model, applied when the server puts it in the queue."""
        mi = r.choice([1, 2, 3, 4, 5, 6, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22] + list(range(27, 46)) + [47, 48, 49, 51])
        args, ret = [], None
        txt = lambda: gen.txt(r, 0.7)
        if mi in self.GET:
            ret = self.v[self.GET[mi]]
        elif mi == 6:
            self.rc = r.choice([0, 1, -1, 255, 2**31 - 1])
            args = [P("I32", self.rc)]
        elif 13 <= mi <= 17:
            t = txt()
            args = [P("I32", r.randrange(16)), P("I32", r.randrange(16))] if mi in (14, 17) else []
            if mi != 15:
                args.append(P("S", t))
            self.out.append(t if mi in (13, 14) else "\r\n" if mi == 15 else t + "\r\n")
        elif mi == 18:
            t = txt()
            args = [P("S", t)]
            self.err.append(t + "\r\n")
        elif mi in (19, 21, 22):
            t = txt()
            args = [P("S", t)]
            self.out.append("%s: %s\r\n" % ({19: "DEBUG", 21: "VERBOSE", 22: "WARNING"}[mi], t))
        elif mi == 20:
            args = [P("I64", r.randint(0, 9)), msgs.progress(r).node]
        elif mi in (28, 30):
            c = r.randrange(16)
            args = [P("I32", c)]
            self.v["fg" if mi == 28 else "bg"] = color(c)[1]
        elif mi in (32, 34):
            x, y = r.randint(-9, 999), r.randint(-9, 999)
            args = [Obj(None, None, [], ms=r.sample([("x", P("I32", x)), ("y", P("I32", y))], 2))]
            self.v["cursor" if mi == 32 else "window"] = coordinates(x, y)[1]
        elif mi in (38, 40):
            w, h = r.randint(0, 9999), r.randint(0, 9999)
            args = [Obj(None, None, [], ms=r.sample([("width", P("I32", w)), ("height", P("I32", h))], 2))]
            self.v["buffer" if mi == 38 else "win"] = size(w, h)[1]
        elif mi == 36:
            self.v["csize"] = P("I32", r.choice([r.randint(0, 100), r.randint(-5, 500), 0, 101, 2**31 - 1]))
            args = [self.v["csize"]]
        elif mi == 42:
            self.v["title"] = P("S", txt())
            args = [self.v["title"]]
        elif mi in self.NOOP:
            args = [Obj(None, None, [], ms=[("left", P("I32", 1)), ("top", P("I32", r.randint(-1, 9)))]) for _ in range(self.NOOP[mi])]
        c = Call(r, mi, args, ret, pool_level)
        c.hold = r.random() < 0.3
        return c

    def check(self, case, what):
        def text(v):
            return [clixml.units(x) for x in v]
        case.eq(self.host.rc, self.rc, "default-exit-code", what)
        case.eq(text(self.ui.stdout), text(self.out), "default-stdout", what)
        case.eq(text(self.ui.stderr), text(self.err), "default-stderr", what)


def default_case(case):
    from pypsrp.powershell import PowerShell
    r = case.rng
    s = make(case)
    d = Default(r)
    hosts = []
    log, real = [], d.host.run_method

    def tap(mi, args, runspace, pipeline=None):
        log.append((mi.value, runspace, pipeline, args))
        return real(mi, args, runspace, pipeline)
    d.host.run_method = tap
    if r.random() < 0.5:        # also unwatched
        del d.host.run_method
        watched = False
    else:
        watched = True
    feeders, calls = {}, {}
    pool_calls = []

    def run(cmd):
        steps = [d.call(r, False) for _ in range(gen.few(r, [1, 3, 6, 12, 25], [130, 300], 0.02))]
        calls[cmd.pid] = list(steps)
        f = feeders[cmd.pid] = Feeder(s, cmd, steps, True, r)
        f.go()
        sprinkle(cmd, r, 0.05)

    def answered(sh, m):
        f = feeders.get(m.pid)
        if f is not None and f.waiting is not None:
            f.waiting = None
            f.go()
    s.on_pipeline, s.on_host_response = run, answered
    with Net(s) as net:
        pool = open_pool(net, host=d.host)
        sh = s.all_shells[0]
        for _ in range(r.choice([1, 2])):
            for _ in range(r.choice([0, 1, 4])):
                c = d.call(r, True)
                pool_calls.append(c)
                c.push(s, sh)
            wait(pool, sh)
            d.check(case, "pool calls %s" % pool_calls[-4:])
            ps = PowerShell(pool)
            ps.add_script("x")
            drive(r, [ps])
            d.check(case, "calls %s" % list(calls.values())[-1])
            case.eq((ps.state, ps.had_errors), (4, False), "pipeline-state", "after host calls")
        for cmd in sh.commands.values():
            check_responses(case, s, sh, cmd.host_responses, calls[cmd.pid], False, "pipeline")
        check_responses(case, s, sh, sh.host_responses, pool_calls, True, "pool")
        if watched:
            # WriteProgress hands over its record as XML
            for mi, runspace, pipeline, args in log:
                if mi == 20:
                    case.check(isinstance(args[1], str), "arguments", lambda: "progress record is %r" % (args[1],))
            for pid, want in [(None, pool_calls)] + list(calls.items()):
                got = [e for e in log if (e[2] is None) == (pid is None) and (pid is None or e[2].id == str(pid).upper())]
                case.check([e[0] for e in got] == [c.mi for c in want], "invocations", lambda: "%s, want %s" % ([e[0] for e in got], want))
                for e, c in zip(got, want):
                    if c.mi == 20:
                        node = clixml.Decoder().node(ET.fromstring(e[3][1]))
                        x = clixml.diff(node, c.args[1])
                        case.check(x is None, "arguments", lambda: "progress record: %s" % x)
                        case.ctx.count("progress_records")
        pool.close()
    for q in list(calls.values()) + [pool_calls]:
        case.ctx.count("default_calls", len(q))
        for c in q:
            DEFAULTS.add(c.mi)
    case.note(calls=[[repr(c) for c in q] for q in calls.values()], pool=[repr(c) for c in pool_calls])
    case.key([[c.mi for c in q] for q in calls.values()] + [[c.mi for c in pool_calls]])


def secret_case(case):
    """A method that exchanges keys while it runs, as reading a secure string does."""
    from pypsrp.complex_objects import ObjectMeta, PSCredential
    from pypsrp.powershell import PowerShell
    r = case.rng
    s = make(case)
    secret = gen.txt(r, 0.8)
    secret = "".join(c for c in secret if not 0xD800 <= ord(c) <= 0xDFFF)
    got = []
    cred = r.random() < 0.4
    before = r.random() < 0.3
    pool_level = r.random() < 0.3

    def plan(mi, runspace, pipeline):
        if not before:
            runspace.exchange_keys()
        return PSCredential(username="u\\v", password=secret) if cred else runspace.serialize(secret, ObjectMeta("SS"))
    log = []
    host = recording_host(log, plan, 3)
    node = P("SS", secret)
    want = Obj(["System.Management.Automation.PSCredential", "System.Object"], "System.Management.Automation.PSCredential", [],
               props=[("UserName", P("S", "u\\v")), ("Password", node)]) if cred else node
    calls = [Call(r, 24 if cred else 12, [], want, pool_level) for _ in range(r.choice([1, 1, 2]))]
    outs = [P("I32", i) for i in range(r.choice([0, 1, 3]))]
    todo = list(calls)

    def run(cmd):
        if not pool_level:
            todo.pop(0).push(s, cmd)
        else:
            done(cmd)

    def done(cmd):
        for o in outs:
            s.output(cmd, o)
        s.finish(cmd)

    def answered(sh, m):
        got.append(m)
        if todo:
            todo.pop(0).push(s, sh if pool_level else next(iter(sh.commands.values())))
        elif not pool_level:
            done(next(iter(sh.commands.values())))
    s.on_pipeline, s.on_host_response = run, answered
    with Net(s) as net:
        pool = open_pool(net, host=host)
        sh = s.all_shells[0]
        if before:
            pool.exchange_keys()
        if pool_level:
            todo.pop(0).push(s, sh)
            wait(pool, sh)
        ps = PowerShell(pool)
        ps.add_script("x")
        drive(r, [ps])
        check_responses(case, s, sh, got, calls, pool_level, "secure")
        case.eq([len(log), len(ps.output), ps.state], [len(calls), len(outs), 4], "invocations", "secure")
        pool.close()
    case.ctx.count("secrets", len(calls))
    case.note(secret=secret, cred=cred, before=before, pool=pool_level)
    case.key((secret, cred, before, pool_level))


def main(ctx):
    ctx.rule("scripted server placing host calls of every method id with random arguments between output of several pipelines, on the pool and while it "
             "opens, with responses it waits for or not; a host recording every method, the default host against a model of it, hosts without raw ui, "
             "and no host; distinct: sequence of method ids and targets.")
    ctx.assumptions.append("methods documented as unimplemented, and a host without the ui a method needs, are not called; Coordinates and Size go back as the "
                    "library serializes them")
    ctx.each("recorded", 220, 12000, recorded_case)
    ctx.each("default", 110, 6000, default_case)
    ctx.each("secret", 30, 1500, secret_case)
    ctx.count("method_ids", len(METHODS))
    ctx.count("default_method_ids", len(DEFAULTS))
    for k, n in [("method_ids", 54), ("default_method_ids", 40), ("calls", 300), ("responses", 300), ("held_calls", 20), ("calls_without_host", 20), ("pool_calls", 50), ("default_calls", 300),
                 ("progress_records", 5), ("secrets", 20), ("pipelines_inside", 20), ("pool_asked_inside", 5)]:
        ctx.require(k, n)
