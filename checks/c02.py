"""C02: reference-model monitor over everything the deserializer returns."""
from psrpmon import clixml, values
from psrpmon.core import short


def deserialize_case(case, node=None):
    from pypsrp.serializer import Serializer
    r = case.rng
    node = node or (lambda: values.received(r, r.choice([0, 1, 2, 3, 4])))
    s = Serializer()
    for _ in range(r.choice([1, 1, 2, 3])):
        want = node()
        xml = clixml.encode(want, r)
        case.note(xml=short(xml, 5000))
        py = s.deserialize(xml)
        d = clixml.match(py, want)
        case.check(d is None, "value-changed-in-transit", lambda: "%s\nxml %s" % (d, short(xml, 5000)))
        case.key(xml)


def main(ctx):
    ctx.rule("random CLIXML documents within the mapped .NET types, with varying legal presentation, nested up to 4 deep (some with thousands of entries, 70 levels or 140000 characters); the returned "
             "Python value is compared with the generator's model; distinct: document not seen before in this run.")
    ctx.each("deserialize", 5000, 150000, deserialize_case)
    ctx.each("large", 60, 1500, lambda case: deserialize_case(case, lambda: values.received_large(case.rng)))
