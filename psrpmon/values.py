"""Values a caller hands over: builds a Python value and the model of what a peer must read for it."""
import copy
import decimal
import xml.etree.ElementTree as ET
from queue import Queue

from . import gen, known
from .clixml import Map, Obj, P, Seq

LIST_T = ["System.Object[]", "System.Array", "System.Object"]
DICT_T = ["System.Collections.Hashtable", "System.Object"]
QUE_T = ["System.Collections.Queue", "System.Object"]
STK_T = ["System.Collections.Stack", "System.Object"]

_DONE = []


def serialised(py, n):
    """The value as an element made before by the serializer, which callers may hand over as well."""
    from pypsrp.serializer import Serializer
    return Serializer().serialize(py)


AUTO = ["S", "S", "I32", "I32", "B", "Sg", "BA", "G", "Nil"]
TAGGED = ["S", "C", "B", "DT", "TS", "By", "SB", "U16", "I16", "U32", "I32", "U64", "I64", "Sg", "Db", "D", "BA", "G", "URI", "Version", "XD", "SBK"]


def to_python(r, n, tagged):
    """The Python spelling of primitive n."""
    from pypsrp.serializer import TaggedValue
    v = n.val
    if not tagged:
        return v
    if n.tag == "C":
        v = chr(v)
    elif n.tag == "G" and r.random() < 0.4:
        v = str(v)
    elif n.tag == "D" and r.random() < 0.5 and v != "0.0000000001":
        v = decimal.Decimal(v)
    return TaggedValue(n.tag, v)


def value(r, depth=3, queues=True, objs=True):
    """(python value, model node of what must be on the wire)"""
    from pypsrp.serializer import TaggedValue
    from pypsrp.complex_objects import GenericComplexObject
    k = r.random()
    if depth <= 0 or k < 0.45:
        if r.random() < 0.04:
            if _DONE and _DONE[-1][0] is r and r.random() < 0.7:
                return _DONE[-1][1:]
            n = gen.prim(r, AUTO)
            el = serialised(to_python(r, n, False), n)
            _DONE[:] = [(r, el, n)]
            return el, n
        if r.random() < 0.6:
            n = gen.prim(r, AUTO)
            if n.tag == "I32" and r.random() < 0.15:
                n = P("I64", r.choice([2**31, -2**31 - 1, 2**63 - 1, -2**63, 2**40 + 7]))
            return to_python(r, n, False), n
        n = gen.prim(r, TAGGED)
        return to_python(r, n, True), n
    size = r.choice([0, 0, 1, 1, 2, 3, 4, 6])
    if k < 0.62:
        items = [value(r, depth - 1, queues, objs) for _ in range(size)]
        kind = r.choice(["LST", "LST", "LST", "IE"])
        py = [p for p, _ in items]
        if kind == "IE" or r.random() < 0.2:
            if r.random() < 0.3:
                py = tuple(py)
            py = TaggedValue(kind, py)
        return py, Seq(kind, [m for _, m in items], LIST_T)
    if k < 0.78 or not queues:
        out = {}
        prs = []
        used = set()
        for _ in range(size):
            kn = gen.prim(r, ["S", "S", "I32", "G", "B"], 0.5)
            if kn.val in used:
                continue
            used.add(kn.val)
            p, m = value(r, depth - 1, queues, objs)
            out[kn.val] = p
            prs.append((kn, m))
        if r.random() < 0.2:
            out = TaggedValue("DCT", out if r.random() < 0.5 else tuple(out.items()))
        return out, Map(prs, DICT_T)
    if k < 0.86:
        items = [value(r, depth - 1, queues, objs) for _ in range(size)]
        q = Queue()
        for p, _ in items:
            q.put(p)
        return (q if r.random() < 0.7 else TaggedValue("QUE", q)), Seq("QUE", [m for _, m in items], QUE_T)
    if k < 0.92:
        items = [value(r, depth - 1, queues, objs) for _ in range(size)]
        # the end of the Python list is the top of the stack, which goes on the wire first
        return TaggedValue("STK", [p for p, _ in items]), Seq("STK", [m for _, m in reversed(items)], STK_T)
    if not objs:
        n = gen.prim(r, AUTO)
        return to_python(r, n, False), n
    if r.random() < 0.2:
        return known.built(r)
    g = GenericComplexObject()
    o = Obj()
    used = set()
    for what in ("extended_properties", "adapted_properties"):
        for _ in range(r.choice([0, 1, 2, 3])):
            nm = gen.name(r, used)
            p, m = value(r, depth - 1, queues, objs)
            getattr(g, what)[nm] = p
            (o.ms if what == "extended_properties" else o.props).append((nm, m))
    if r.random() < 0.5:
        g.to_string = o.tostr = gen.txt(r)
    if r.random() < 0.6:
        o.types = ["My.Type%d" % r.randint(0, 3), "System.Object"]
        g.types = list(o.types)
    return g, o


def snapshot(v):
    """A structural picture of a Python value, to see whether it was changed."""
    from pypsrp.serializer import TaggedValue
    from pypsrp.complex_objects import GenericComplexObject
    if isinstance(v, TaggedValue):
        return ("tagged", v.tag, snapshot(v.value))
    if isinstance(v, ET.Element):
        return ("element", ET.tostring(v))
    if isinstance(v, Queue):
        return ("queue", [snapshot(i) for i in list(v.queue)])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snapshot(i) for i in v])
    if isinstance(v, dict):
        return ("dict", [(snapshot(a), snapshot(b)) for a, b in v.items()])
    if isinstance(v, GenericComplexObject):
        return ("obj", list(v.types), v.to_string, [snapshot(i) for i in v.property_sets],
                snapshot(v.extended_properties), snapshot(v.adapted_properties))
    return (type(v).__name__, repr(v))


# ---------------------------------------------------------------- what a peer sends
_V = ", mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089"
_ELEMS = {"System.Int32": ["I32"], "System.String": ["S"], "System.Byte": ["By"], "System.Int64": ["I64"], "System.Double": ["Db"],
          "System.Guid": ["G"], "System.Boolean": ["B"], "System.Char": ["C"], "System.UInt16": ["U16"], "System.Version": ["Version"],
          "System.Uri": ["URI"], "System.DateTime": ["DT"], "System.Decimal": ["D"], "System.Single": ["Sg"],
          "System.SByte": ["SB"], "System.Int16": ["I16"], "System.UInt32": ["U32"], "System.UInt64": ["U64"], "System.Xml.XmlDocument": ["XD"],
          "System.Management.Automation.ScriptBlock": ["SBK"], "System.Management.Automation.PSTypeName": ["S"], "System.TimeSpan": ["TS"]}
_LISTS = ["System.Collections.Generic.List`1[[%s]]", "System.Collections.ObjectModel.Collection`1[[%s]]",
          "System.Collections.ObjectModel.ReadOnlyCollection`1[[%s]]"]
_DICTS = [["System.Collections.Hashtable", "System.Object"],
          ["Deserialized.System.Collections.Hashtable", "Deserialized.System.Object"],
          ["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"],
          ["System.Management.Automation.PSBoundParametersDictionary",
           "System.Collections.Generic.Dictionary`2[[System.String" + _V + "],[System.Object" + _V + "]]", "System.Object"],
          ["System.Collections.Generic.Dictionary`2[[System.String" + _V + "],[System.Object" + _V + "]]", "System.Object"],
          ["System.Collections.Generic.Dictionary`2[[System.Object" + _V + "],[System.Collections.Hashtable" + _V + "]]", "System.Object"]]


def obj_types(r):
    """Type lists of objects that have no class of their own in the library; several share leading or trailing names."""
    base = r.choice([
        ["System.Management.Automation.PSCustomObject", "System.Object"],
        ["Deserialized.System.Diagnostics.Process", "Deserialized.System.ComponentModel.Component", "Deserialized.System.MarshalByRefObject",
         "Deserialized.System.Object"],
        ["Selected.System.IO.FileInfo", "System.Management.Automation.PSCustomObject", "System.Object"],
        ["My.Type", "My.Base", "System.Object"], ["My.Type", "System.Object"], ["My.Type", "My.Other", "System.Object"],
        ["System.Management.Automation.PSObject"], ["System.Object"],
        ["My.Type2", "System.Management.Automation.PSObject"],
    ])
    if r.random() < 0.15:
        base = [gen.txt(r, 0.9) + "T"] + base
        if base[0].startswith("Deserialized.System.") or base[0].endswith("[]"):
            base = base[1:]
    return list(base)


def received(r, depth=3, in_list=False, share=None):
    """A model node for a value a peer sends, within the types the library maps to Python values."""
    k = r.random()
    if depth <= 0 or k < 0.45:
        return gen.prim(r)
    size = r.choice([0, 0, 1, 1, 2, 3, 4, 6])

    def sub(lst=False):
        return received(r, depth - 1, lst, share)
    if k < 0.68:
        j = r.random()
        if j < 0.05:
            return known.received_list(r)
        if j < 0.1:
            items = [P("Nil") if r.random() < 0.1 else Map(gen.pairs(r, r.choice([0, 1, 2]), sub), list(_DICTS[0])) for _ in range(size)]
            return Seq("LST", items, r.choice([["System.Collections.Hashtable[]", "System.Array", "System.Object"],
                                               ["System.Collections.Generic.List`1[[System.Collections.Hashtable" + _V + "]]", "System.Object"]]))
        if j < 0.4:
            et = r.choice(sorted(_ELEMS))
            tags = _ELEMS[et] + (["Nil"] if r.random() < 0.2 else [])
            items = [gen.prim(r, tags) for _ in range(size)]
            if r.random() < 0.5:
                types = [et + "[]", "System.Array", "System.Object"]
            else:
                types = [r.choice(_LISTS) % (et + _V), "System.Object"]
        else:
            items = [sub(True) for _ in range(size)]
            types = r.choice([
                ["System.Object[]", "System.Array", "System.Object"], ["System.Object[]", "System.Array", "System.Object"],
                ["Deserialized.System.Object[]", "Deserialized.System.Array", "Deserialized.System.Object"],
                ["System.Collections.ArrayList", "System.Object"], ["Deserialized.System.Collections.ArrayList", "Deserialized.System.Object"],
                [r.choice(_LISTS) % ("System.Object" + _V), "System.Object"],
                [r.choice(_LISTS) % "System.Management.Automation.PSObject, System.Management.Automation, Version=3.0.0.0, Culture=neutral",
                 "System.Object"],
                ["My.Thing[]", "System.Array", "System.Object"],
                [r.choice(_LISTS) % "My.Thing, My.Assembly, Version=1.0.0.0", "System.Object"],
                ["System.Management.Automation.PSObject[]", "System.Object[]", "System.Array", "System.Object"],
            ])
        return Seq("LST", items, list(types))
    if k < 0.8:
        return Map(gen.pairs(r, size, sub), list(r.choice(_DICTS)))
    if k < 0.84:
        return Seq("QUE", [sub(True) for _ in range(size)], ["System.Collections.Queue", "System.Object"])
    if k < 0.88:
        return Seq("STK", [sub(True) for _ in range(size)], ["System.Collections.Stack", "System.Object"])
    if r.random() < 0.2:
        return known.received(r, depth - 1)
    # entries of lists always name their type: a type-less one is handed over as raw XML when it follows a primitive,
    # which the library's tests rely on (host progress records)
    o = Obj(obj_types(r) if in_list or r.random() < 0.8 else None)
    if r.random() < 0.5:
        o.tostr = gen.txt(r)
    for dest in (o.ms, o.props):
        used = set()
        for _ in range(r.choice([0, 1, 2, 3])):
            dest.append((gen.name(r, used), sub()))
    return o


# ---------------------------------------------------------------- large ones
SIZES = [130, 257, 300, 1025, 2500]


def long_text(r, n=None):
    """A long text whose awkward places are spread over all of it."""
    n = n or r.choice([1000, 4097, 9000, 33000, 66000, 140000])
    out, size = [], 0
    while size < n:
        t = r.choice([lambda: r.choice(["a", "\u20ac", "_x", "\U0001f600", "_x000A_", "\n", "\ud800", "x0", "&<"]) * r.choice([1, 2, 40, 500]),
                      lambda: gen.text(r)])()
        out.append(t)
        size += len(t)
    return gen.norm_pairs("".join(out)[:n])


def large(r):
    """Like value: long texts, long and deep containers, objects with many members."""
    from pypsrp.complex_objects import GenericComplexObject
    from pypsrp.serializer import TaggedValue
    k = r.choice(["text", "bytes", "list", "list", "dict", "queue", "stack", "object", "deep", "deep"])
    n = r.choice(SIZES)
    if k == "text":
        t = long_text(r)
        return t, P("S", t)
    if k == "bytes":
        b = r.randbytes(r.choice([1000, 3073, 50000, 200001]))
        return b, P("BA", b)
    if k == "deep":
        py, m = value(r, 0)
        for _ in range(r.choice([20, 45, 70])):
            j = r.random()
            if j < 0.4:
                o, om = value(r, 0)
                py, m = ([o, py], Seq("LST", [om, m], LIST_T)) if r.random() < 0.5 else ([py], Seq("LST", [m], LIST_T))
            elif j < 0.7:
                py, m = {"k": py}, Map([(P("S", "k"), m)], DICT_T)
            else:
                g = GenericComplexObject()
                (g.extended_properties if j < 0.85 else g.adapted_properties)["p"] = py
                o = Obj()
                (o.ms if j < 0.85 else o.props).append(("p", m))
                py, m = g, o
        return py, m
    one = r.choice([lambda i: (i, P("I32", i)), lambda i: ("t%d" % i, P("S", "t%d" % i)), lambda i: value(r, 0), lambda i: value(r, 1)])
    items = [one(i) for i in range(n)]
    if k == "list":
        return [p for p, _ in items], Seq("LST", [m for _, m in items], LIST_T)
    if k == "dict":
        return {"k%d" % i: p for i, (p, _) in enumerate(items)}, Map([(P("S", "k%d" % i), m) for i, (_, m) in enumerate(items)], DICT_T)
    if k == "queue":
        q = Queue()
        for p, _ in items:
            q.put(p)
        return q, Seq("QUE", [m for _, m in items], QUE_T)
    if k == "stack":
        return TaggedValue("STK", [p for p, _ in items]), Seq("STK", [m for _, m in reversed(items)], STK_T)
    g, o = GenericComplexObject(), Obj()
    for i, (p, m) in enumerate(items):
        if i % 3:
            g.extended_properties["m%d" % i] = p
            o.ms.append(("m%d" % i, m))
        else:
            g.adapted_properties["m%d" % i] = p
            o.props.append(("m%d" % i, m))
    return g, o


def received_large(r):
    k = r.choice(["text", "bytes", "list", "list", "dict", "queue", "stack", "object", "deep", "deep"])
    n = r.choice(SIZES)
    if k == "text":
        return P("S", long_text(r))
    if k == "bytes":
        return P("BA", r.randbytes(r.choice([1000, 3073, 50000, 200001])))
    if k == "deep":
        m = received(r, 0)
        for _ in range(r.choice([20, 45, 70])):
            j = r.random()
            if j < 0.4:
                m = Seq("LST", [m] if r.random() < 0.5 else [received(r, 0), m], LIST_T)
            elif j < 0.7:
                m = Map([(P("S", "k"), m)], DICT_T)
            else:
                o = Obj(obj_types(r))
                (o.ms if j < 0.85 else o.props).append(("p", m))
                m = o
        return m
    one = r.choice([lambda i: P("I32", i), lambda i: P("S", "t%d" % i), lambda i: received(r, 0), lambda i: received(r, 1, True)])
    items = [one(i) for i in range(n)]
    if k == "list":
        return Seq("LST", items, LIST_T)
    if k == "dict":
        return Map([(P("S", "k%d" % i), m) for i, m in enumerate(items)], DICT_T)
    if k == "queue":
        return Seq("QUE", items, QUE_T)
    if k == "stack":
        return Seq("STK", items, STK_T)
    o = Obj(obj_types(r))
    for i, m in enumerate(items):
        (o.ms if i % 3 else o.props).append(("m%d" % i, m))
    return o
