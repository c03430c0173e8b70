"""C01: reference-model monitor over everything the serializer emits."""
import xml.etree.ElementTree as ET
from queue import Queue

from psrpmon import clixml, gen, values
from psrpmon.core import short
from psrpmon.server import Net
from psrpmon.session import make, open_pool


def serialize_case(case, value=None):
    from pypsrp.serializer import Serializer
    r = case.rng
    value = value or (lambda: values.value(r, r.choice([0, 1, 2, 3, 4])))
    s = Serializer()
    for _ in range(r.choice([1, 1, 2, 3])):  # one serializer is used for many messages
        py, want = value()
        before = values.snapshot(py)
        case.note(value=short(repr(before), 300))
        el = s.serialize(py)
        data = ET.tostring(el, encoding="utf-8", method="xml")
        dec = clixml.Decoder()
        got = dec.parse(data)
        d = clixml.diff(got, want)
        case.check(d is None, "value-changed-in-transit", lambda: "%s\nvalue %s\nxml %s" % (d, short(repr(before), 3000), short(data.decode(), 5000)))
        case.check(values.snapshot(py) == before, "caller-value-modified", lambda: "before %s after %s" % (short(repr(before)), short(repr(values.snapshot(py)))))
        case.key(before)


def shape(r, depth, name=None):
    """(a description of a type as callers give one, a generator of values of that type with what must be on the wire)"""
    from pypsrp.complex_objects import DictionaryMeta, ListMeta, ObjectMeta, QueueMeta, StackMeta
    k = r.random()
    if depth <= 0 or k < 0.3:
        if k < 0.1 or depth > 0 and k < 0.18:
            return ObjectMeta(name=name) if name or r.random() < 0.5 else None, lambda: values.value(r, r.choice([0, 0, 1, 2]))
        tag = r.choice(values.TAGGED)

        def one():
            if r.random() < 0.1:
                return None, clixml.P("Nil")
            n = gen.prim(r, [tag])
            return values.to_python(r, n, True).value, n
        return ObjectMeta(tag, name=name), one
    types = r.choice([None, ["My.Collection", "System.Object"], ["System.Collections.Generic.List`1[[%s]]" % gen.txt(r, 0.3), "System.Object"]])
    kw = {"name": name} if name else {}
    if k < 0.85:
        meta, item = shape(r, depth - 1)
        if meta is not None or r.random() < 0.5:
            kw["list_value_meta"] = meta
        if types:
            kw["list_types"] = types
        kind, cls, default = r.choice([("LST", ListMeta, values.LIST_T), ("LST", ListMeta, values.LIST_T), ("IE", ListMeta, values.LIST_T),
                                       ("QUE", QueueMeta, values.QUE_T), ("STK", StackMeta, values.STK_T)])
        if kind == "IE":
            kw["obj_type"] = "IE"

        def many():
            its = [item() for _ in range(r.choice([0, 1, 2, 4]))]
            py, m = [p for p, _ in its], [m for _, m in its]
            if kind == "QUE":
                q = Queue()
                for p in py:
                    q.put(p)
                py = q
            return py, clixml.Seq(kind, m[::-1] if kind == "STK" else m, list(types or default))
        return cls(**kw), many
    tag = r.choice(["S", "I32", "I64", "G", "U16"])
    meta, item = shape(r, depth - 1, "Value")
    if meta is not None:
        kw["dict_value_meta"] = meta
    if types:
        kw["dict_types"] = types

    def mapping():
        py, prs = {}, []
        for _ in range(r.choice([0, 1, 2, 4])):
            n = gen.prim(r, [tag], 0.5)
            if n.val not in py:
                py[n.val], m = item()
                prs.append((n, m))
        return py, clixml.Map(prs, list(types or values.DICT_T))
    return DictionaryMeta(dict_key_meta=ObjectMeta(tag, name="Key"), **kw), mapping


def described_case(case):
    """Values serialized under a type the caller describes; one description serves for many values."""
    from pypsrp.powershell import RunspacePool
    from pypsrp.serializer import Serializer
    from pypsrp.wsman import WSMan
    r = case.rng
    s = Serializer() if r.random() < 0.8 else RunspacePool(WSMan("h", username="u", password="p"))
    meta, item = shape(r, r.choice([0, 0, 1, 2, 3]))
    for n in range(r.choice([1, 2, 3, 5])):
        py, want = item()
        before = values.snapshot(py)
        data = ET.tostring(s.serialize(py, meta) if r.random() < 0.5 else s.serialize(py, metadata=meta), encoding="utf-8", method="xml")
        d = clixml.diff(clixml.Decoder().parse(data), want)
        case.check(d is None, "value-changed-in-transit", lambda: "value %d of one description: %s\nvalue %s\nxml %s" % (n, d, short(repr(before), 3000), short(data.decode(), 5000)))
        case.check(values.snapshot(py) == before, "caller-value-modified", lambda: "before %s after %s" % (short(repr(before)), short(repr(values.snapshot(py)))))
        case.key(repr(want))
        case.note(description=type(meta).__name__, value=short(repr(before), 300))


def session_case(case):
    """The same through a whole session: parameters, arguments and input as the server decodes them."""
    from pypsrp.powershell import PowerShell
    r = case.rng
    s = make(case)
    s.on_pipeline = lambda cmd: None
    s.on_input = lambda cmd, m: s.finish(cmd) if m is None else None
    with Net(s) as net:
        pool = open_pool(net)
        for _ in range(r.choice([1, 2])):
            ps = PowerShell(pool).add_cmdlet("c")
            args, items = [], []
            for _ in range(r.choice([1, 2, 4])):
                v, m = values.value(r, r.choice([0, 1, 2, 3]))
                args.append(m)
                n = r.choice([None, "p"])
                ps.add_argument(v) if n is None else ps.add_parameter(n, v)
            its = [values.value(r, r.choice([0, 1, 2, 3])) for _ in range(r.choice([1, 2, 4]))]
            before = [values.snapshot(v) for v, _ in its] + [values.snapshot(a.value) for a in ps.commands[0].args]
            ps.invoke([v for v, _ in its])
            after = [values.snapshot(v) for v, _ in its] + [values.snapshot(a.value) for a in ps.commands[0].args]
            case.check(before == after, "caller-value-modified", lambda: "before %s after %s" % (short(repr(before)), short(repr(after))))
            cmd = s.all_shells[0].last_command
            got = s.model(cmd.shell, cmd.create).get("PowerShell").get("Cmds").items[0].get("Args").items
            case.check(len(got) == len(args), "value-count", "%d parameters of %d" % (len(got), len(args)))
            for i, (g, w) in enumerate(zip(got, args)):
                d = clixml.diff(g.get("V"), w)
                case.check(d is None, "value-changed-in-transit", lambda: "parameter %d: %s" % (i, d))
            case.check(len(cmd.inputs) == len(its), "value-count", "%d input objects of %d" % (len(cmd.inputs), len(its)))
            for i, (m, (_, w)) in enumerate(zip(cmd.inputs, its)):
                d = clixml.diff(s.model(cmd.shell, m), w)
                case.check(d is None, "value-changed-in-transit", lambda: "input %d: %s" % (i, d))
            case.note(args=len(args), items=len(its))
            case.key(repr(args), repr([m for _, m in its]))
        pool.close()


def main(ctx):
    ctx.rule("random values over the supported type grammar, nested up to 4 deep (some with thousands of entries, 70 levels or 140000 characters), by their Python types or under types the caller describes, serialized and decoded by an independent strict "
             "CLIXML decoder; non-trivial and distinct: structural value not seen before in this run.")
    ctx.each("serialize", 4000, 120000, serialize_case)
    ctx.each("large", 60, 1500, lambda case: serialize_case(case, lambda: values.large(case.rng)))
    ctx.each("described", 300, 12000, described_case)
    ctx.each("session", 80, 3000, session_case)
