"""C29: reference-model monitor on command metadata: the request the server decodes and the objects the caller gets."""
from psrpmon import clixml, gen, msgs, values
from psrpmon.clixml import Map, Obj, P, Seq
from psrpmon.core import Violation
from psrpmon.server import Net
from psrpmon.session import make, open_pool, sprinkle

KINDS = [("Alias", 1), ("Function", 2), ("Filter", 4), ("Cmdlet", 8), ("ExternalScript", 16), ("Application", 32), ("Script", 64), ("Workflow", 128),
         ("Configuration", 256)]
V = ", mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089"
SMA = "System.Management.Automation."
OUT_T = ["System.Collections.ObjectModel.ReadOnlyCollection`1[[" + SMA + "PSTypeName, System.Management.Automation, Version=3.0.0.0, Culture=neutral]]",
         "System.Object"]
ALIAS_T = ["System.Collections.ObjectModel.Collection`1[[System.String" + V + "]]", "System.Object"]
PARAM_T = ["System.Collections.Generic.Dictionary`2[[System.String" + V + "],[" + SMA + "ParameterMetadata, System.Management.Automation, "
           "Version=3.0.0.0, Culture=neutral]]", "System.Object"]


def text(r, nil=0.0):
    return None if r.random() < nil else gen.txt(r, 0.5)


def strings(r, types):
    xs = [gen.txt(r, 0.5) for _ in range(r.choice([0, 0, 1, 2, 5]))]
    return xs, Seq("LST", [P("S", x) for x in xs], list(types))


def parameter(r, name):
    """(what the caller must see, model node)"""
    al, aln = strings(r, ALIAS_T)
    w = dict(name=name, parameter_type=text(r, 0.05), aliases=al, switch_parameter=r.random() < 0.5, dynamic=r.random() < 0.5)
    props = [("Name", P("S", name)), ("ParameterType", msgs.S(w["parameter_type"])), ("Aliases", aln), ("IsDynamic", P("B", w["dynamic"])),
             ("SwitchParameter", P("B", w["switch_parameter"]))]
    if r.random() < 0.3:
        props.insert(r.randint(0, 5), ("ParameterSets", Map([(P("S", "__AllParameterSets"), P("I32", r.randint(0, 9)))],
                                                            ["System.Collections.Hashtable", "System.Object"])))
    if r.random() < 0.3:
        r.shuffle(props)
    pre = "Deserialized." if r.random() < 0.3 else ""
    return w, Obj([pre + SMA + "ParameterMetadata", pre + "System.Object"], SMA + "ParameterMetadata" if r.random() < 0.8 else None, [], props=props)


def metadata(r):
    kind, kv = r.choice(KINDS)
    ot, otn = strings(r, OUT_T)
    used, params, pairs = set(), {}, []
    for _ in range(gen.few(r, [0, 1, 2, 3, 12], [60, 130])):
        n = gen.name(r, used)
        params[n], node = parameter(r, n)
        pairs.append((P("S", n), node))
    w = dict(name=text(r), namespace=text(r, 0.1), help_uri=text(r, 0.1), command_type=kv, output_type=ot, parameters=params)
    ms = [("Name", P("S", w["name"])), ("Namespace", msgs.S(w["namespace"])), ("HelpUri", msgs.S(w["help_uri"])),
          ("CommandType", msgs.enum(SMA + "CommandTypes", kind, kv)), ("ResolvedCommandName", msgs.S(text(r, 0.7))), ("OutputType", otn),
          ("Parameters", Map(pairs, list(PARAM_T)))]
    if r.random() < 0.1:
        w["output_type"] = None
        ms[5] = ("OutputType", P("Nil"))
    if r.random() < 0.1:
        w["parameters"] = None
        ms[6] = ("Parameters", P("Nil"))
    if r.random() < 0.3:
        r.shuffle(ms)
    return w, Obj(["Selected." + SMA + r.choice(["CmdletInfo", "FunctionInfo", "AliasInfo"]), SMA + "PSCustomObject", "System.Object"], None, [], ms=ms)


def judge(case, got, w, what):
    from pypsrp.complex_objects import CommandMetadata, ParameterMetadata
    case.check(type(got) is CommandMetadata, "metadata-type", lambda: "%s: %r" % (what, got))
    for a in ("name", "namespace", "help_uri", "output_type"):
        same(case, getattr(got, a), w[a], "%s %s" % (what, a))
    case.eq(getattr(got.command_type, "value", None), w["command_type"], "metadata-value", what + " command_type")
    if w["parameters"] is None:
        case.check(got.parameters is None, "metadata-value", lambda: "%s parameters %r" % (what, got.parameters))
        return
    case.check(type(got.parameters) is dict, "metadata-value", lambda: "%s parameters %r" % (what, got.parameters))
    same(case, list(got.parameters), list(w["parameters"]), what + " parameter names")
    for (n, g), wp in zip(got.parameters.items(), w["parameters"].values()):
        case.check(type(g) is ParameterMetadata, "metadata-type", lambda: "%s parameter %r: %r" % (what, n, g))
        for a in wp:
            same(case, getattr(g, a), wp[a], "%s parameter %r %s" % (what, n, a))
        case.ctx.count("parameters")


def same(case, got, want, what):
    if isinstance(want, str):
        case.check(isinstance(got, str) and clixml.units(got) == clixml.units(want), "metadata-value", lambda: "%s is %r, sent %r" % (what, got, want))
    elif isinstance(want, list):
        case.check(type(got) is list and len(got) == len(want), "metadata-value", lambda: "%s is %r, sent %r" % (what, got, want))
        for g, w in zip(got, want):
            same(case, g, w, what)
    else:
        case.eq(got, want, "metadata-value", what)


def strs(node):
    return [(getattr(x, "tag", None), getattr(x, "val", None)) for x in node.items]


def request_check(case, d, want):
    case.check({n for n, _ in d.ms} == {"Name", "CommandType", "Namespace", "ArgumentList"}, "request-members", lambda: repr(d))
    n = d.get("Name")
    case.check(isinstance(n, Seq) and [(t, clixml.units(v)) for t, v in strs(n)] == [("S", clixml.units(x)) for x in want["names"]], "request-names",
               lambda: "%r, asked for %r" % (n, want["names"]))
    c = d.get("CommandType")
    if isinstance(c, Obj):
        c = next((p for p in c.base if isinstance(p, P)), None)
    case.check(isinstance(c, P) and c.tag == "I32" and c.val == want["types"], "request-types", lambda: "%r, asked for %r" % (c, want["types"]))
    for member, m in (("Namespace", want["namespace"]), ("ArgumentList", want["arguments"])):
        x = clixml.diff(d.get(member), P("Nil")) if m is None else seq_diff(d.get(member), m)
        case.check(x is None, "request-" + member.lower(), lambda: "%s: %s" % (member, x))


def seq_diff(got, models):
    if not isinstance(got, Seq) or len(got.items) != len(models):
        return "%r, want %d entries" % (got, len(models))
    for g, m in zip(got.items, models):
        d = clixml.diff(g, m)
        if d:
            return d


def case_(case):
    from pypsrp.powershell import PowerShell
    r = case.rng
    s = make(case)
    plan = {}
    asked = []

    def run(cmd):
        if cmd.create.name != "GET_COMMAND_METADATA":
            s.output(cmd, P("I32", 7))
            s.finish(cmd)
            return
        asked.append(s.model(cmd.shell, cmd.create))
        nodes = plan["nodes"]
        count = Obj(["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", SMA + "PSCustomObject", "System.Object"], None, [],
                    ms=[("Count", P("I32", len(nodes)))])
        for n in [count] + nodes:
            if plan["records"] and r.random() < 0.3:
                s.record(cmd, msgs.record(r, r.choice(["verbose", "warning", "debug"])))
            s.output(cmd, n)
        s.finish(cmd)
        sprinkle(cmd, r, 0.1)
    s.on_pipeline = run
    trace = []
    with Net(s) as net:
        pool = open_pool(net)
        other = None
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.3:      # a pipeline of its own, running over the request
                other = PowerShell(pool)
                other.add_script("x")
                other.begin_invoke()
            names = [gen.txt(r, 0.4) for _ in range(gen.few(r, [1, 1, 2, 4], [130, 300]))]
            want = dict(names=names, types=511, namespace=None, arguments=None)
            a = [names[0] if len(names) == 1 and r.random() < 0.6 else list(names)]
            kw = {}
            if r.random() < 0.6:
                kw["command_types"] = want["types"] = r.choice([1, 2, 8, 511, 256, r.randint(1, 511)])
            if r.random() < 0.5:
                ns = [gen.txt(r, 0.4) for _ in range(r.choice([0, 1, 3]))]
                kw["namespace"] = list(ns)
                want["namespace"] = [P("S", x) for x in ns]
            if r.random() < 0.5:
                vals = [values.value(r, r.choice([0, 0, 1])) for _ in range(gen.few(r, [0, 1, 3], [130]))]
                kw["arguments"] = [v for v, _ in vals]
                want["arguments"] = [m for _, m in vals]
            if r.random() < 0.2:
                order = ["command_types", "namespace", "arguments"]
                while order and order[0] in kw:
                    a.append(kw.pop(order.pop(0)))
            metas = [metadata(r) for _ in range(gen.few(r, [0, 1, 2, 5], [70, 300], 0.02))]
            if metas and r.random() < 0.25:      # the server may describe a command twice
                metas.insert(r.randint(0, len(metas)), r.choice(metas))
                case.ctx.count("described_twice")
            plan.update(nodes=[n for _, n in metas], records=r.random() < 0.3)
            case.note(xml=[clixml.encode(n) for n in plan["nodes"]])
            res = pool.get_command_metadata(*a, **kw)
            case.eq(len(asked), 1, "request-count", "one call")
            request_check(case, asked.pop(), want)
            case.check(type(res) is list and len(res) == len(metas), "metadata-count", lambda: "%d objects for %d commands" % (len(res), len(metas)))
            for i, (g, (w, _)) in enumerate(zip(res, metas)):
                judge(case, g, w, "command %d" % i)
            case.ctx.count("commands", len(metas))
            trace.append((names, sorted(kw), len(metas)))
            if other is not None:
                case.eq(other.end_invoke(), [7], "other-pipeline", "output")
                case.eq(other.state, 4, "other-pipeline", "state")
                other = None
                case.ctx.count("running_over")
        case.eq(pool.state, 2, "pool-state", "after the requests")
        pool.close()
    case.note(calls=trace)
    case.key(trace)


def main(ctx):
    ctx.rule("random requests for command metadata (names, types, namespaces, arguments of all value kinds) and random answers of the server, split, batched "
             "and interleaved with another pipeline and empty polls; the decoded request and the returned objects are compared with the generator's model; "
             "distinct: the sequence of requests.")
    ctx.assumptions.append("the server completes the request; what a failed request returns is not claimed")
    ctx.each("requests", 400, 14000, case_)
    for k in ("commands", "parameters", "running_over", "described_twice"):
        ctx.require(k, 30)
