"""C09: exactly-once / ordering monitor on pipeline input as the server reassembles it."""
from psrpmon import clixml, gen, msgs, values
from psrpmon.clixml import P
from psrpmon.core import Violation, short
from psrpmon.server import Net
from psrpmon.session import make, open_pool


def item(r, big):
    if big and r.random() < 0.4:
        n = r.choice([r.randint(1, 3000), 49000, 65536, r.randint(20000, 140000)])
        t = r.choice(["x", "é", "日"]) * n
        return t, P("S", t)
    return values.value(r, r.choice([0, 0, 1, 2]))


FALSY = [(0, P("I32", 0)), ("", P("S", "")), (False, P("B", False)), (0.0, P("Sg", 0.0)), (b"", P("BA", b""))]


def reused(r):
    """A generator that yields one object again and again, changed in between."""
    import queue as queues
    kind = r.choice(["dict", "list", "queue", "nested", "tagged"])
    n = r.choice([1, 2, 3, 6])
    vals = [r.randint(-1000, 1000) for _ in range(n)]
    whole = [r.random() < 0.5 for _ in range(n)]
    num = lambda v: P("I32", v)

    def model(v):
        if kind == "dict":
            return clixml.Map([(P("S", "n"), num(v))])
        if kind == "list":
            return clixml.Seq("LST", [num(v)])
        if kind == "queue":
            return clixml.Seq("QUE", [num(v)])
        if kind == "nested":
            return clixml.Map([(P("S", "a"), clixml.Seq("LST", [num(v)]))])
        return P("I64", v)

    def g():
        from pypsrp.serializer import TaggedValue
        inner = []
        obj = {"dict": {}, "list": inner, "queue": queues.Queue(), "nested": {"a": inner}, "tagged": TaggedValue("I64", 0)}[kind]
        batch = []
        for v, w in zip(vals + [77], whole + [True]):
            if kind == "dict":
                obj["n"] = v
            elif kind in ("list", "nested"):
                inner[:] = [v]
            elif kind == "queue":
                while not obj.empty():
                    obj.get()
                obj.put(v)
            else:
                obj.value = v
            if len(done) == n:
                break
            done.append(v)
            batch[:] = [obj]
            yield batch if w or kind == "list" else obj
        batch[:] = ["never"]
    done = []
    return g(), [model(v) for v in vals], True, "reused"


def supply(r):
    """(input argument, model items in order, announced: True/False/None=either)"""
    k = r.random()
    big = r.random() < 0.25
    if k < 0.08:
        return None, [], False, "none"
    if k < 0.2:
        if r.random() < 0.4:
            v, m = r.choice(FALSY)
        else:
            while True:
                v, m = item(r, big)
                if not isinstance(v, list) and v is not None:
                    break
        return v, [m], True, "single"
    if k < 0.4:
        its = [item(r, big) for _ in range(r.choice([0, 1, 1, 2, 3, 8, 30]))] if r.random() < 0.97 else [item(r, False) for _ in range(r.choice([130, 300]))]
        if not its:
            return [], [], None, "empty-list"
        return [v for v, _ in its], [m for _, m in its], True, "list"
    if k < 0.5:
        return reused(r)
    chunks, models = [], []
    n = gen.few(r, [0, 1, 2, 3, 5, 12], [130], 0.03)
    big = big and n < 100
    for _ in range(n):
        j = r.random()
        if j < 0.4:
            while True:
                v, m = item(r, big)
                if not isinstance(v, list):
                    break
            chunks.append(v)
            models.append(m)
        else:
            its = [item(r, big) for _ in range(r.choice([0, 0, 1, 2, 5]))]
            chunks.append([v for v, _ in its])
            models.extend(m for _, m in its)

    def g():
        for c in chunks:
            yield c
    return g(), models, True, "generator" if chunks else "empty-generator"


def verify(case, cmd, models, announced, what):
    s = case.server
    sh = cmd.shell
    d = s.model(sh, cmd.create)
    no_input = d.get("NoInput").val
    if announced is None:
        announced = cmd.ended > 0
        case.check(cmd.ended in (0, 1), "input-not-terminated-once", "%s: %d ends" % (what, cmd.ended))
    case.check(no_input == (not announced), "input-announcement", lambda: "%s: NoInput=%s with %d objects supplied" % (what, no_input, len(models)))
    case.check(cmd.ended == (1 if announced else 0), "input-not-terminated-once", lambda: "%s: %d end-of-input messages" % (what, cmd.ended))
    case.check(len(cmd.inputs) == len(models), "input-count", lambda: "%s: %d objects arrived, %d supplied" % (what, len(cmd.inputs), len(models)))
    for i, (m, w) in enumerate(zip(cmd.inputs, models)):
        dd = clixml.diff(s.model(sh, m), w)
        case.check(dd is None, "input-content", lambda: "%s object %d: %s" % (what, i, dd))
    # order on the wire: create first, the end after the last object, all for this pipeline
    names = [m.name for m in cmd.msgs]
    want = ["CREATE_PIPELINE"] + ["PIPELINE_INPUT"] * len(models) + (["END_OF_PIPELINE_INPUT"] if announced else [])
    case.check(names == want, "input-order", lambda: "%s: %s" % (what, short(names)))
    case.check(all(m.pid == cmd.pid for m in cmd.msgs), "input-pipeline-id", what)
    for m in cmd.msgs[1:]:
        case.check(m.via[1] == "stdin" and m.via[2] == cmd.id, "input-destination", lambda: "%s: %r went via %r" % (what, m, m.via))


def input_case(case):
    r = case.rng
    from pypsrp.powershell import PowerShell
    s = case.server = make(case, proto=r.choice(["2.1", "2.2", "2.3"]))
    echo = r.random() < 0.5
    results = {}
    expect = {}

    def on_pipeline(cmd):
        cmd.script_done = False
        expect[cmd.id] = cmd
        if s.model(cmd.shell, cmd.create).get("NoInput").val:
            s.finish(cmd)

    def on_input(cmd, m):
        if m is None:
            s.push(cmd, "PIPELINE_OUTPUT", P("I32", len(cmd.inputs)))
            s.finish(cmd)
        elif echo:
            s.push(cmd, "PIPELINE_OUTPUT", s.model(cmd.shell, m))
    s.on_pipeline, s.on_input = on_pipeline, on_input
    with Net(s) as net:
        kw = {}
        if r.random() < 0.6:
            kw["max_envelope_size"] = r.choice([4096, 5000, 8192, 20480, 153600, 512000, r.randint(4000, 30000)])
        pool = open_pool(net, kw)
        kinds = []
        for n in range(r.choice([1, 1, 2, 3])):
            ps = PowerShell(pool)
            ps.add_script("p%d" % n)
            for again in range(r.choice([1, 1, 1, 2])):
                arg, models, ann, kind = supply(r)
                kinds.append((kind, len(models)))
                n_before = len(pool.pipelines)
                ps.begin_invoke(arg)
                cmd = s.all_shells[0].last_command
                verify(case, cmd, models, ann, "pipeline %d (%s)" % (n, kind))
                if cmd.ended or s.model(cmd.shell, cmd.create).get("NoInput").val:
                    ps.end_invoke()
                    case.check(ps.state == 4, "pipeline-state", "state %r" % ps.state)
                case.ctx.count("supplied_" + kind)
                case.ctx.count("objects", len(models))
                case.ctx.count("multi_fragment_inputs", sum(1 for m in cmd.inputs if m.nfrag > 1))
        case.note(kinds=kinds, envelope=kw.get("max_envelope_size", "default"))
        case.key(kinds, kw.get("max_envelope_size"))
        pool.close()


def interleaved_case(case):
    """Several pipelines fed in turn: a generator of one starts and runs another pipeline on the same pool."""
    r = case.rng
    from pypsrp.powershell import PowerShell
    s = case.server = make(case)

    def on_input(cmd, m):
        if m is None:
            s.finish(cmd)
    s.on_input = on_input
    with Net(s) as net:
        pool = open_pool(net, {"max_envelope_size": r.choice([5000, 20480, 512000])})
        outer_items = [item(r, True) for _ in range(r.choice([1, 2, 4]))]
        inner_items = [item(r, True) for _ in range(r.choice([1, 2, 3]))]
        inner = PowerShell(pool).add_script("inner")
        at = r.randrange(len(outer_items))

        def gen_outer():
            for i, (v, _) in enumerate(outer_items):
                if i == at:
                    inner.begin_invoke([v for v, _ in inner_items])
                    case.inner = s.all_shells[0].last_command
                yield [v]
        outer = PowerShell(pool).add_script("outer")
        outer.begin_invoke(gen_outer())
        sh = s.all_shells[0]
        oc = [c for c in sh.commands.values() if c is not case.inner][0]
        verify(case, oc, [m for _, m in outer_items], True, "outer")
        verify(case, case.inner, [m for _, m in inner_items], True, "inner")
        inner.end_invoke()
        outer.end_invoke()
        case.ctx.count("nested_feeds")
        case.note(outer=len(outer_items), inner=len(inner_items))
        case.key(len(outer_items), len(inner_items), at)
        pool.close()


def main(ctx):
    ctx.rule("input given as nothing, a single value (falsy ones included), a list, a generator of values and lists (empty ones included), with objects "
             "from tiny to several fragments and envelope sizes from 4 KiB; the server's reassembled create, input and end messages are compared with "
             "what was supplied; distinct: shape and size of the supply.")
    ctx.each("input", 110, 6000, input_case)
    ctx.each("interleaved", 25, 800, interleaved_case)
    for k in ("supplied_none", "supplied_single", "supplied_list", "supplied_generator", "supplied_reused", "supplied_empty-generator", "multi_fragment_inputs", "nested_feeds"):
        ctx.require(k)
