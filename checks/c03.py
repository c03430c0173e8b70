"""C03: text in every position of a CLIXML document, both directions, against an independent escape model."""
import xml.etree.ElementTree as ET

from psrpmon import clixml, gen
from psrpmon.clixml import Map, Obj, P, Seq
from psrpmon.core import short

ODDS = [chr(c) for c in list(range(0, 0x30)) + list(range(0x7F, 0xA1)) + [0x5F, 0x78, 0x58, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFE, 0xFFFF, 0x10000,
                                                                      0x10FFFF, 0x1F600, 0xFEFF, 0x4100, 0x3000]]


def graph(t):
    """A document with the texts t in every position that carries text."""
    base = [t[1] + "T", "System.Object"]
    if base[0].endswith("[]") or base[0].startswith(("Deserialized.System.", "System.")):
        base[0] = "My." + base[0] + "T"
    o = Obj(base, t[2])
    o.ms = [(t[3], P("S", t[4])), ("z" + t[5], P("SBK", t[5]))]
    if o.ms[0][0] == o.ms[1][0]:
        o.ms.pop()
    o.props = [(t[6], P("URI", t[7])), ("l", Seq("LST", [P("S", t[0]), P("XD", t[1]), P("S", t[2])], ["System.Object[]", "System.Array", "System.Object"]))]
    if o.props[0][0] == "l":
        o.props.pop()
    mp = Map([(P("S", t[0]), P("S", t[3]))], ["System.Collections.Hashtable", "System.Object"])
    o.ms.append(("mymap", mp)) if all(n != "mymap" for n, _ in o.ms) else None
    return o


def to_py(n):
    from pypsrp.complex_objects import GenericComplexObject
    from pypsrp.serializer import TaggedValue
    if isinstance(n, P):
        return n.val if n.tag == "S" else TaggedValue(n.tag, n.val)
    if isinstance(n, Seq):
        return [to_py(i) for i in n.items]
    if isinstance(n, Map):
        return {to_py(k): to_py(v) for k, v in n.pairs}
    g = GenericComplexObject()
    g.types, g.to_string = list(n.types), n.tostr
    g.extended_properties = {k: to_py(v) for k, v in n.ms}
    g.adapted_properties = {k: to_py(v) for k, v in n.props}
    return g


def send(case, s, want, what):
    el = s.serialize(to_py(want))
    data = ET.tostring(el, encoding="utf-8", method="xml")
    d = clixml.diff(clixml.decode(data), want)
    case.check(d is None, "sent-text-changed", lambda: "%s: %s\nxml %s" % (what, d, short(data.decode("utf-8"), 2000)))


def receive(case, s, want, what, rng=None):
    xml = clixml.encode(want, rng)
    py = s.deserialize(xml)
    d = clixml.match(py, want)
    case.check(d is None, "received-text-changed", lambda: "%s: %s\nxml %s" % (what, d, short(xml, 2000)))


def random_case(case):
    from pypsrp.serializer import Serializer
    r = case.rng
    t = [gen.txt(r) for _ in range(8)]
    case.note(texts=t)
    s = Serializer()
    for n in range(4):
        send(case, s, P("S", t[n]), "string")
        receive(case, s, P("S", t[n]), "string", r)
        case.key(t[n])
    send(case, s, graph(t), "graph")
    receive(case, s, graph(t), "graph", r)


def codeunit_case(case):
    """Every UTF-16 code unit, alone and as a spelled-out escape, in runs of 64."""
    from pypsrp.serializer import Serializer
    s = Serializer()
    lo = case.index * 64
    case.note(first=hex(lo))
    items = [P("S", chr(c)) for c in range(lo, lo + 64)] + [P("S", "a%sb" % chr(c)) for c in range(lo, lo + 64)]
    arr = Seq("LST", items, ["System.Object[]", "System.Array", "System.Object"])
    send(case, s, arr, "code units from %#x" % lo)
    receive(case, s, arr, "code units from %#x" % lo)
    for fmt in ("_x%04X_", "_x%04x_"):
        lit = Seq("LST", [P("S", fmt % c) for c in range(lo, lo + 64)], arr.types)   # the literal text, must not be taken for an escape
        send(case, s, lit, "literal escapes")
        receive(case, s, lit, "literal escapes")
        xml = '<Obj RefId="0"><TN RefId="0"><T>System.Object[]</T><T>System.Array</T><T>System.Object</T></TN><LST>%s</LST></Obj>' % "".join(
            "<S>%s</S>" % (fmt % c) for c in range(lo, lo + 64))   # the escape itself
        py = s.deserialize(xml)
        d = clixml.match(py, Seq("LST", items[:64]))
        case.check(d is None, "received-text-changed", lambda: "%s %s" % (d, short(xml)))
    case.key(lo)


def astral_case(case):
    from pypsrp.serializer import Serializer
    r = case.rng
    s = Serializer()
    cs = [r.randrange(0x10000, 0x110000) for _ in range(64)]
    arr = Seq("LST", [P("S", chr(c)) for c in cs] + [P("S", "".join(chr(c) for c in cs))], ["System.Object[]", "System.Array", "System.Object"])
    send(case, s, arr, "astral")
    receive(case, s, arr, "astral")
    receive(case, s, arr, "astral", r)
    case.key(tuple(cs))


def pairs_case(case):
    """All ordered pairs of the awkward characters, with what could complete an escape around them."""
    from pypsrp.serializer import Serializer
    s = Serializer()
    a = ODDS[case.index]
    items = []
    for b in ODDS:
        for f in ("%s%s", "_%s%sx", "_x00%s%s_", "x%s%s_"):
            items.append(P("S", gen.norm_pairs(f % (a, b))))
    arr = Seq("LST", items, ["System.Object[]", "System.Array", "System.Object"])
    case.note(first=repr(a))
    send(case, s, arr, "pairs")
    receive(case, s, arr, "pairs")
    case.key(a)


def main(ctx):
    ctx.rule("random hostile texts in values, names, type names, keys and string forms; every UTF-16 code unit bare, embedded, as escape and as "
             "literal escape; pairs of awkward characters; distinct: text or block of code units not seen before in this run.")
    ctx.each("random", 1500, 60000, random_case)
    ctx.each("codeunits", list(range(1024)), list(range(1024)), codeunit_case)
    ctx.each("astral", 60, 4000, astral_case)
    ctx.each("pairs", ODDS, ODDS, pairs_case)
