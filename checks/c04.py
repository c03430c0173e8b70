"""C04: object graph monitors: identity, members, type names, both directions, message after message on one serializer."""
import xml.etree.ElementTree as ET

from psrpmon import clixml, gen, known, values
from psrpmon.clixml import Map, Obj, P, Seq
from psrpmon.core import short


BIG = [70, 130, 300]


def send_graph(r, n):
    """n objects whose members refer to each other (shared and cyclic, also through lists and dictionaries) -> (python root, model root)."""
    from pypsrp.complex_objects import GenericComplexObject
    py = [GenericComplexObject() for _ in range(n)]
    mo = [Obj() for _ in range(n)]
    used = [set() for _ in range(n)]
    for i in range(n):
        k = r.random()
        if k < 0.8:
            mo[i].types = values.obj_types(r) if n < 20 or r.random() < 0.3 else ["My.Type%d" % r.randint(0, n), "My.Base%d" % (i // 9), "System.Object"]
            py[i].types = list(mo[i].types)
        if r.random() < 0.4:
            py[i].to_string = mo[i].tostr = gen.txt(r)
        for _ in range(r.choice([0, 0, 1, 2])):
            nm = gen.name(r, used[i])
            v, m = values.value(r, 2, queues=False)
            if r.random() < 0.5:
                py[i].extended_properties[nm] = v
                mo[i].ms.append((nm, m))
            else:
                py[i].adapted_properties[nm] = v
                mo[i].props.append((nm, m))
        for _ in range(r.choice([0, 0, 0, 1])):
            b = gen.prim(r, values.AUTO)
            py[i].property_sets.append(b.val)
            mo[i].base.append(b)

    def target(j, depth=2):
        k = r.random()
        if depth == 0 or k < 0.7:
            return py[j], mo[j]
        xs = [target(j if r.random() < 0.7 else r.randrange(n), depth - 1) for _ in range(r.choice([1, 1, 2, 3]))]
        if k < 0.85:
            return [a for a, _ in xs], Seq("LST", [b for _, b in xs], values.LIST_T)
        return dict((str(i), a) for i, (a, _) in enumerate(xs)), Map([(P("S", str(i)), b) for i, (_, b) in enumerate(xs)], values.DICT_T)

    def link(i, j):
        nm = gen.name(r, used[i])
        p, m = target(j)
        if r.random() < 0.5:
            py[i].extended_properties[nm] = p
            mo[i].ms.append((nm, m))
        else:
            py[i].adapted_properties[nm] = p
            mo[i].props.append((nm, m))
    for j in range(1, n):
        link(r.randrange(j), j)
    for _ in range(r.randint(0, n)):
        link(r.randrange(n), r.randrange(n))
    return py[0], mo[0]


def picture(g):
    """The caller's graph, to see whether serialising changed it."""
    from pypsrp.complex_objects import GenericComplexObject
    seen, out, todo = {}, [], [g]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = len(seen)
        row = [id(o), tuple(o.types), o.to_string]
        for d in (o.extended_properties, o.adapted_properties):
            for k in d:
                v = d[k]
                row.append((k, id(v)))
                if isinstance(v, GenericComplexObject):
                    todo.append(v)
        out.append(row)
    return out


def send_case(case, big=False):
    from pypsrp.serializer import Serializer
    r = case.rng
    s = Serializer()
    for _ in range(r.choice([1, 2, 40 if big else 3])):
        py, want = send_graph(r, r.choice([1, 2, 3, 5, 8, 12]) if not big or r.random() < 0.7 else r.choice(BIG))
        before = picture(py)
        data = ET.tostring(s.serialize(py), encoding="utf-8", method="xml")
        case.note(xml=short(data.decode(), 5000))
        dec = clixml.Decoder()
        got = dec.parse(data)
        d = clixml.diff(got, want)
        case.check(d is None, "sent-graph-differs", lambda: "%s\nxml %s" % (d, short(data.decode(), 3000)))
        case.check(picture(py) == before, "caller-graph-modified", "")
        case.ctx.count("sent_refs", dec.saw_ref)
        case.ctx.count("sent_tnrefs", dec.saw_tnref)
        case.key(data)


def send_shared_case(case):
    """Objects shared through lists and dictionaries: may be repeated or referenced, but must denote the same tree."""
    from pypsrp.complex_objects import GenericComplexObject
    from pypsrp.serializer import Serializer
    r = case.rng
    pool = []
    for i in range(r.choice([2, 3, 4])):
        g, m = GenericComplexObject(), Obj()
        m.types = values.obj_types(r)
        g.types = list(m.types)
        m.ms = [("id", P("I32", i))]
        g.extended_properties["id"] = i
        if pool and r.random() < 0.6:
            pg, pm = r.choice(pool)
            g.adapted_properties["other"] = pg
            m.props.append(("other", pm))
        pool.append((g, m))

    def pick(depth):
        k = r.random()
        if depth == 0 or k < 0.5:
            return r.choice(pool)
        if k < 0.75:
            xs = [pick(depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]
            return [a for a, _ in xs], Seq("LST", [b for _, b in xs], values.LIST_T)
        xs = [pick(depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]
        return dict((str(i), a) for i, (a, _) in enumerate(xs)), Map([(P("S", str(i)), b) for i, (_, b) in enumerate(xs)], values.DICT_T)
    xs = [pick(3) for _ in range(r.choice([1, 2, 3]))]
    py, want = [a for a, _ in xs], Seq("LST", [b for _, b in xs], values.LIST_T)
    s = Serializer()
    for _ in range(2):
        data = ET.tostring(s.serialize(py), encoding="utf-8", method="xml")
        case.note(xml=short(data.decode(), 5000))
        d = clixml.diff(clixml.decode(data), want, ident=False)
        case.check(d is None, "sent-graph-differs", lambda: "%s\nxml %s" % (d, short(data.decode(), 3000)))
    case.key(data)


def recv_graph(r, n):
    """Containers and objects referring to each other, as a peer may send them."""
    nodes = []
    for i in range(n):
        k = r.random()
        if k < 0.6:
            o = Obj(values.obj_types(r) if n < 20 or r.random() < 0.3 else ["My.Type%d" % r.randint(0, n), "My.Base%d" % (i // 9), "System.Object"])
            if r.random() < 0.4:
                o.tostr = gen.txt(r)
            used = set()
            for _ in range(r.choice([0, 1, 2])):
                o.ms.append((gen.name(r, used), values.received(r, 1)))
            used = set()
            for _ in range(r.choice([0, 1, 2])):
                o.props.append((gen.name(r, used), values.received(r, 1)))
            nodes.append(o)
        elif k < 0.8:
            t = r.choice([["System.Object[]", "System.Array", "System.Object"], ["System.Collections.ArrayList", "System.Object"],
                          ["Deserialized.System.Collections.ArrayList", "Deserialized.System.Object"]])
            nodes.append(Seq("LST", [], t))
        elif k < 0.9:
            nodes.append(Map([], ["System.Collections.Hashtable", "System.Object"]))
        else:
            q = r.random() < 0.5
            nodes.append(Seq("QUE" if q else "STK", [], ["System.Collections.Queue" if q else "System.Collections.Stack", "System.Object"]))

    def link(i, j):
        a, b = nodes[i], nodes[j]
        if isinstance(a, Seq):
            a.items.append(b)
        elif isinstance(a, Map):
            a.pairs.append((P("S", "k%d" % len(a.pairs)), b))
        else:
            dest = a.ms if r.random() < 0.5 else a.props
            dest.append((gen.name(r, {x for x, _ in dest}), b))
    for j in range(1, n):
        link(r.randrange(j), j)
    for _ in range(r.randint(0, n)):
        link(r.randrange(n), r.randrange(n))
    return nodes[0]


def recv_case(case, big=False):
    from pypsrp.serializer import Serializer
    r = case.rng
    s = Serializer()
    held = []
    for _ in range(r.choice([1, 2, 40 if big else 3])):
        want = recv_graph(r, r.choice([1, 2, 3, 5, 8, 12]) if not big or r.random() < 0.7 else r.choice(BIG))
        xml = clixml.Encoder(r, first_id=r.choice([0, 0, 1, 7])).node(want)
        case.note(xml=short(xml, 5000))
        py = s.deserialize(xml)
        held.append((py, want, xml))
        case.ctx.count("received_refs", xml.count("<Ref "))
        case.ctx.count("received_tnrefs", xml.count("<TNRef "))
        case.key(xml)
    for py, want, xml in held:   # earlier results must not have been disturbed by later messages
        d = clixml.match(py, want)
        case.check(d is None, "received-graph-differs", lambda: "%s\nxml %s" % (d, short(xml, 3000)))


def mixed_case(case):
    """Sending and receiving alternate on one serializer: tables of one message must not show in the next."""
    from pypsrp.serializer import Serializer
    r = case.rng
    s = Serializer()
    for _ in range(r.choice([2, 4, 6])):
        if r.random() < 0.5:
            py, want = send_graph(r, r.choice([1, 2, 4]))
            data = ET.tostring(s.serialize(py), encoding="utf-8", method="xml")
            d = clixml.diff(clixml.decode(data), want)
            case.check(d is None, "sent-graph-differs", lambda: "%s\nxml %s" % (d, short(data.decode(), 3000)))
        else:
            want = recv_graph(r, r.choice([1, 2, 4]))
            data = clixml.Encoder(r).node(want)
            d = clixml.match(s.deserialize(data), want)
            case.check(d is None, "received-graph-differs", lambda: "%s\nxml %s" % (d, short(data, 3000)))
        case.note(xml=short(data, 300))
        case.key(data)


def share(r, items):
    """Objects referred to from several members of the known objects, also from members the library has no attribute for."""
    pool = []
    for i in range(r.choice([0, 1, 2, 3])):
        o = r.choice([lambda: Obj(["System.Globalization.GregorianCalendar", "System.Globalization.Calendar", "System.Object"], "cal%d" % i, (),
                                  [("n", P("I32", i))]),
                      lambda: Seq("LST", [P("I32", i)], ["System.Int32[]", "System.Array", "System.Object"]),
                      lambda: Obj(values.obj_types(r), None, (), (), [("n", P("I32", i))]),
                      lambda: known.received(r)])()
        if pool and isinstance(o, Obj) and not isinstance(o, clixml.Known) and r.random() < 0.4:
            o.ms.append(("other", r.choice(pool)))
        pool.append(o)
    if not pool:
        return
    some = lambda: r.choice(pool)
    for x in list(items):
        if r.random() < 0.5:
            continue
        if isinstance(x, clixml.Known):
            if x.cls == "CultureInfo":
                x.props.insert(r.randint(0, len(x.props)), ("Calendar", some()))
            for n, v in x.ms:
                if n in ("InvocationInfo_UnboundArguments",):
                    v.items.append(some())
                elif n == "InvocationInfo_BoundParameters":
                    v.pairs.append((P("S", "shared"), some()))
                elif n == "Exception":
                    v.props.append(("Data", some()))
            if x.cls == "ErrorRecordMessage" and r.random() < 0.5:
                t = some()
                x.ms[:] = [(n, v) for n, v in x.ms if n != "TargetObject"]
                x.ms.insert(r.randint(0, len(x.ms)), ("TargetObject", t))
                x.attrs_want["target_object"] = t
        elif isinstance(x, Obj):
            x.ms.append(("shared", some()))
    for _ in range(r.choice([0, 1, 2])):
        items.insert(r.randint(0, len(items)), some())


def known_received_case(case):
    """Objects of the types the library has classes for, among others, as they arrive in a message."""
    from pypsrp.serializer import Serializer
    r = case.rng
    s = Serializer()
    for _ in range(r.choice([1, 2, 3])):
        items = [r.choice([known.received, known.received, known.received_list, lambda r: values.received(r, 2, True)])(r)
                 for _ in range(r.choice([1, 1, 2, 4, 8]))]
        share(r, items)
        k = r.random()
        if k < 0.4 and len(items) == 1:
            want = items[0]
        elif k < 0.7:
            want = Seq("LST", items, r.choice([["System.Object[]", "System.Array", "System.Object"], ["System.Collections.ArrayList", "System.Object"]]))
        elif k < 0.85:
            want = Map([(P("S", str(i)), x) for i, x in enumerate(items)], ["System.Collections.Hashtable", "System.Object"])
        else:
            want = Obj(values.obj_types(r))
            for i, x in enumerate(items):
                r.choice([want.ms, want.props]).append(("m%d" % i, x))
        xml = clixml.Encoder(r, first_id=r.choice([0, 3])).node(want)
        case.note(xml=short(xml, 5000))
        d = clixml.match(s.deserialize(xml), want)
        case.check(d is None, "known-type-differs", lambda: "%s\nxml %s" % (d, short(xml, 3000)))
        case.key(xml)
        for x in items:
            if isinstance(x, clixml.Known):
                case.ctx.count("known_received_" + x.cls)


def known_sent_case(case):
    """Objects a caller builds from the library's own classes."""
    from pypsrp.complex_objects import GenericComplexObject
    from pypsrp.serializer import Serializer
    r = case.rng
    s = Serializer()
    for _ in range(r.choice([1, 2])):
        items = [known.built(r) for _ in range(r.choice([1, 1, 2, 5]))]
        k = r.random()
        if k < 0.4 and len(items) == 1:
            py, want = items[0]
        elif k < 0.7:
            py, want = [a for a, _ in items], Seq("LST", [b for _, b in items], values.LIST_T)
        else:
            py, want = GenericComplexObject(), Obj()
            for i, (a, b) in enumerate(items):
                py.extended_properties["m%d" % i] = a
                want.ms.append(("m%d" % i, b))
        data = ET.tostring(s.serialize(py), encoding="utf-8", method="xml")
        case.note(xml=short(data.decode(), 5000))
        d = clixml.diff(clixml.decode(data), want)
        case.check(d is None, "known-type-sent-differs", lambda: "%s\nxml %s" % (d, short(data.decode(), 3000)))
        case.key(data)
        for a, _ in items:
            case.ctx.count("known_sent_" + type(a).__name__)


def main(ctx):
    ctx.rule("random object graphs of 1-12 nodes with shared and cyclic members, colliding leading type names and hostile names, several "
             "messages per serializer, both directions; graphs are compared up to isomorphism; distinct: document not seen before.")
    ctx.each("send", 1500, 50000, send_case)
    ctx.each("send-shared", 700, 20000, send_shared_case)
    ctx.each("receive", 1500, 50000, recv_case)
    ctx.each("large-send", 25, 600, lambda case: send_case(case, True))
    ctx.each("large-receive", 25, 600, lambda case: recv_case(case, True))
    ctx.each("mixed", 500, 20000, mixed_case)
    ctx.each("known-received", 1000, 20000, known_received_case)
    ctx.each("known-sent", 1000, 20000, known_sent_case)
    for cls in list(known.ENUMS) + list(known.FLAGS) + ["Size", "Coordinates", "KeyInfoDotNet", "CultureInfo"]:
        if cls != "CommandType":
            ctx.require("known_received_" + cls, 5)
        ctx.require("known_sent_" + cls, 5)
    for n in ("sent_refs", "sent_tnrefs", "received_refs", "received_tnrefs"):
        ctx.require(n, 500)
