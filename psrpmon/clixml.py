"""Independent CLIXML model: value nodes, strict decoder of what the client sends, encoder of what a peer sends.

Written from MS-PSRP 2.2.5 and the .NET serializer's observable behaviour; shares no code with pypsrp.
"""
import base64
import math
import re
import uuid
import xml.etree.ElementTree as ET
from queue import Queue

from .core import Violation, short

INT_RANGE = {
    "By": (0, 255), "SB": (-128, 127), "U16": (0, 2**16 - 1), "I16": (-2**15, 2**15 - 1),
    "U32": (0, 2**32 - 1), "I32": (-2**31, 2**31 - 1), "U64": (0, 2**64 - 1), "I64": (-2**63, 2**63 - 1),
}
TEXT = ("S", "URI", "XD", "SBK")
RAW = ("DT", "TS", "D", "Version")
PRIMS = set(INT_RANGE) | set(TEXT) | set(RAW) | {"C", "B", "Sg", "Db", "BA", "G", "SS", "Nil"}
SEQ = ("LST", "IE", "QUE", "STK")


class P:
    def __init__(self, tag, val=None):
        self.tag, self.val = tag, val

    def __repr__(self):
        return "<%s>%r" % (self.tag, self.val)


class Seq:
    def __init__(self, kind, items, types=None):
        self.kind, self.items, self.types = kind, items, types

    def __repr__(self):
        return "%s%r%s" % (self.kind, self.types[:1] if self.types else "", short(repr(self.items), 200))


class Map:
    def __init__(self, pairs, types=None):
        self.pairs, self.types = pairs, types

    def __repr__(self):
        return "DCT%r" % (self.pairs,)


class Obj:
    def __init__(self, types=None, tostr=None, base=(), props=(), ms=()):
        self.types, self.tostr = types, tostr
        self.base, self.props, self.ms = list(base), list(props), list(ms)

    def get(self, name):
        for n, v in self.ms + self.props:
            if n == name:
                return v
        raise Violation("missing-member", "no member %r in %r" % (name, self))

    def has(self, name):
        return any(n == name for n, _ in self.ms + self.props)

    def __repr__(self):
        return "Obj(%s)" % ",".join(n for n, _ in self.props + self.ms)


class Known(Obj):
    """An object of a type the library has a class for: the class, its attributes, its string form."""

    def __init__(self, cls, attrs, text, *args):
        Obj.__init__(self, *args)
        self.cls, self.attrs_want, self.text = cls, attrs, text


# ---------------------------------------------------------------- text
def units(s):
    """UTF-16 code units of a Python str (lone surrogates allowed)."""
    b = s.encode("utf-16-be", "surrogatepass")
    return [b[i] << 8 | b[i + 1] for i in range(0, len(b), 2)]


def from_units(u):
    return b"".join(bytes((x >> 8, x & 255)) for x in u).decode("utf-16-be", "surrogatepass")


_ESC = re.compile(r"_[xX]([0-9A-Fa-f]{4})_")


_NEEDS = re.compile("[\x00-\x1f\x7f-\x9f\ud800-\udfff\ufffe\uffff\U00010000-\U0010ffff]|_[xX]")


def unescape(s):
    """What a .NET peer reads from this XML text."""
    out = []
    i = 0
    for m in _ESC.finditer(s):
        out.extend(units(s[i:m.start()]))
        out.append(int(m.group(1), 16))
        i = m.end()
    out.extend(units(s[i:] if i else s))
    return out


def escape(s, rng=None):
    """How a .NET peer writes this text. rng: sometimes pick other legal spellings."""
    if len(s) > 2000 and not _NEEDS.search(s):
        return s
    u = units(s)
    out = []
    i = 0
    while i < len(u):
        c = u[i]
        nxt = u[i + 1] if i + 1 < len(u) else None
        if 0xD800 <= c <= 0xDBFF and nxt is not None and 0xDC00 <= nxt <= 0xDFFF and rng is not None and rng.random() < 0.3:
            out.append(from_units([c, nxt]))  # a raw astral character is legal XML
            i += 2
            continue
        must = c < 0x20 or 0x7F <= c <= 0x9F or 0xD800 <= c <= 0xDFFF or c in (0xFFFE, 0xFFFF) or \
            (c == 0x5F and nxt in (0x78, 0x58))
        if rng is not None and c in (0x9, 0xA, 0xD) and rng.random() < 0.2 and c != 0xD:
            must = False
        if must or (rng is not None and rng.random() < 0.02):
            out.append(("_x%04X_" if rng is None or rng.random() < 0.8 else "_x%04x_") % c)
        else:
            out.append(chr(c))
        i += 1
    return "".join(out)


def xml_text(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def xml_attr(s):
    return xml_text(s).replace('"', "&quot;").replace("\t", "&#9;").replace("\n", "&#10;").replace("\r", "&#13;")


# ---------------------------------------------------------------- strict decoder (what we sent)
class Decoder:
    """Decodes one message as a conforming peer does; any irregularity is a Violation."""

    def __init__(self, decrypt=None):
        self.refs, self.tns, self.decrypt = {}, {}, decrypt
        self.saw_ref = 0
        self.saw_tnref = 0
        self.secure = []

    def bad(self, kind, detail):
        raise Violation("sent-" + kind, detail)

    def parse(self, data):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogatepass")
        try:
            el = ET.fromstring(data)
        except (ET.ParseError, UnicodeError) as e:
            self.bad("malformed-xml", "%s in %s" % (e, short(data.decode("utf-8", "replace"))))
        self._no_raw_controls(data)
        return self.node(el)

    def _no_raw_controls(self, data):
        for ch in data.decode("utf-8"):
            o = ord(ch)
            if o < 0x20 or 0x7F <= o <= 0x9F:
                self.bad("raw-control-character", "U+%04X unescaped in %s" % (o, short(data.decode("utf-8"))))

    def text(self, el):
        if len(el):
            self.bad("children-in-primitive", ET.tostring(el).decode()[:300])
        return el.text or ""

    def node(self, el, need_name=None):
        tag = el.tag
        allowed = {"N"} | ({"RefId"} if tag in ("Obj", "Ref") else set())
        if set(el.attrib) - allowed:
            self.bad("unexpected-attribute", ET.tostring(el).decode()[:300])
        if tag == "Obj":
            return self.obj(el)
        if tag == "Ref":
            rid = el.attrib.get("RefId")
            if rid not in self.refs:
                self.bad("dangling-ref", "Ref to %r, known %r" % (rid, sorted(self.refs)))
            self.saw_ref += 1
            return self.refs[rid]
        if tag in SEQ or tag == "DCT":
            self.bad("container-outside-obj", ET.tostring(el).decode()[:300])
        if tag not in PRIMS:
            self.bad("unknown-tag", tag)
        t = self.text(el)
        return P(tag, self.prim(tag, t))

    def prim(self, tag, t):
        try:
            if tag == "Nil":
                if t:
                    raise ValueError("text in Nil")
                return None
            if tag in TEXT:
                return from_units(unescape(t))
            if tag == "C":
                if not re.fullmatch(r"[0-9]{1,5}", t) or int(t) > 0xFFFF:
                    raise ValueError(t)
                return int(t)
            if tag == "B":
                return {"true": True, "false": False}[t]
            if tag in INT_RANGE:
                if not re.fullmatch(r"-?[0-9]+", t):
                    raise ValueError(t)
                lo, hi = INT_RANGE[tag]
                if not lo <= int(t) <= hi:
                    raise ValueError("%s out of range for %s" % (t, tag))
                return int(t)
            if tag in ("Sg", "Db"):
                if t in ("INF", "-INF", "NaN"):
                    return float(t.replace("INF", "inf").replace("NaN", "nan"))
                if not re.fullmatch(r"-?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?", t):
                    raise ValueError(t)
                return float(t)
            if tag == "BA":
                return base64.b64decode(t.encode("ascii"), validate=True)
            if tag == "G":
                if not re.fullmatch(r"[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}", t):
                    raise ValueError(t)
                return uuid.UUID(t)
            if tag == "Version":
                if not re.fullmatch(r"[0-9]+(\.[0-9]+){1,3}", t):
                    raise ValueError(t)
                return t
            if tag == "D":
                if not re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", t):
                    raise ValueError(t)
                return t
            if tag in RAW:
                if not t:
                    raise ValueError("empty")
                return t
            if tag == "SS":
                raw = base64.b64decode(t.encode("ascii"), validate=True)
                self.secure.append(raw)
                if self.decrypt is None:
                    return raw
                return self.decrypt(raw)
        except (ValueError, KeyError) as e:
            self.bad("bad-primitive", "<%s>%s: %s" % (tag, short(t), e))
        raise AssertionError(tag)

    def obj(self, el):
        rid = el.attrib.get("RefId")
        if rid is None or not rid.isdigit():
            self.bad("missing-refid", ET.tostring(el).decode()[:300])
        if rid in self.refs:
            self.bad("duplicate-refid", rid)
        node = Obj()
        holder = node
        # containers take the place of the object they are the content of
        conts = [c for c in el if c.tag in SEQ or c.tag == "DCT"]
        if len(conts) > 1:
            self.bad("several-containers", ET.tostring(el).decode()[:300])
        if conts:
            holder = Map([]) if conts[0].tag == "DCT" else Seq(conts[0].tag, [])
        self.refs[rid] = holder
        seen = set()
        for c in el:
            t = c.tag
            if t in ("TN", "TNRef", "MS", "Props", "ToString"):
                k = "TN" if t == "TNRef" else t
                if k in seen:
                    self.bad("repeated-section", t)
                seen.add(k)
            if t == "TN":
                tr = c.attrib.get("RefId")
                if tr is None or tr in self.tns:
                    self.bad("bad-tn-refid", "%r known %r" % (tr, sorted(self.tns)))
                types = []
                for x in c:
                    if x.tag != "T" or len(x) or x.attrib:
                        self.bad("bad-tn", ET.tostring(c).decode()[:300])
                    types.append(from_units(unescape(x.text or "")))
                if not types:
                    self.bad("empty-tn", "")
                self.tns[tr] = types
                holder.types = list(types)
            elif t == "TNRef":
                tr = c.attrib.get("RefId")
                if tr not in self.tns:
                    self.bad("dangling-tnref", tr)
                self.saw_tnref += 1
                holder.types = list(self.tns[tr])
            elif t == "ToString":
                node.tostr = from_units(unescape(self.text(c)))
            elif t in ("MS", "Props"):
                if c.attrib:
                    self.bad("unexpected-attribute", ET.tostring(c).decode()[:300])
                dest = node.ms if t == "MS" else node.props
                for m in c:
                    if "N" not in m.attrib:
                        # one unnamed member is what MS-PSRP shows for the error in RUNSPACEPOOL_STATE only
                        self.bad("unnamed-member", ET.tostring(m).decode()[:300])
                    name = from_units(unescape(m.attrib["N"]))
                    if any(n == name for n, _ in dest):
                        self.bad("repeated-member", name)
                    dest.append((name, self.node(m)))
            elif t in SEQ:
                for m in c:
                    if "N" in m.attrib:
                        self.bad("named-list-entry", ET.tostring(m).decode()[:300])
                    holder.items.append(self.node(m))
            elif t == "DCT":
                for en in c:
                    if en.tag != "En" or en.attrib or len(en) != 2:
                        self.bad("bad-dictionary-entry", ET.tostring(en).decode()[:300])
                    if [m.attrib.get("N") for m in en] != ["Key", "Value"]:
                        self.bad("bad-dictionary-entry", ET.tostring(en).decode()[:300])
                    holder.pairs.append((self.node(en[0]), self.node(en[1])))
            else:
                if "N" in c.attrib:
                    self.bad("named-base-value", ET.tostring(c).decode()[:300])
                node.base.append(self.node(c))
        if conts and (node.ms or node.props or node.base):
            self.bad("container-with-members", ET.tostring(el).decode()[:300])
        return holder


def decode(data, decrypt=None):
    return Decoder(decrypt).parse(data)


# ---------------------------------------------------------------- comparison of models
def same_float(a, b):
    return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))


def prim_equal(tag, a, b):
    if tag in ("Sg", "Db"):
        return isinstance(a, float) and isinstance(b, float) and same_float(a, b)
    if tag in TEXT or tag == "SS":
        return isinstance(a, str) and isinstance(b, str) and units(a) == units(b)
    return type(a) == type(b) and a == b


def diff(got, want, path="$", memo=None, ident=True):
    """None if the decoded model equals the wanted model; else where they differ. Objects are matched by identity
    (a bijection between Obj nodes), so wrong, lost or invented references show."""
    if memo is None:
        memo = ({}, {})
    if type(got) is not type(want):
        return "%s: got %r, want %r" % (path, got, want)
    if isinstance(want, P):
        if got.tag != want.tag:
            return "%s: tag %s, want %s (%s / %s)" % (path, got.tag, want.tag, short(got.val, 80), short(want.val, 80))
        if not prim_equal(want.tag, got.val, want.val):
            return "%s: <%s> %s, want %s" % (path, want.tag, short(got.val), short(want.val))
        return None
    if isinstance(want, Obj) and ident:
        a, b = memo
        if id(got) in a or id(want) in b:
            if a.get(id(got)) is not want or b.get(id(want)) is not got:
                return "%s: reference points to a different object" % path
            return None
        a[id(got)] = want
        b[id(want)] = got
    if want.types is not None and (got.types or []) != list(want.types):
        return "%s: types %r, want %r" % (path, got.types, want.types)
    if isinstance(want, Seq):
        if got.kind != want.kind:
            return "%s: %s, want %s" % (path, got.kind, want.kind)
        if len(got.items) != len(want.items):
            return "%s: %d items, want %d" % (path, len(got.items), len(want.items))
        for i, (g, w) in enumerate(zip(got.items, want.items)):
            d = diff(g, w, "%s[%d]" % (path, i), memo, ident)
            if d:
                return d
        return None
    if isinstance(want, Map):
        if len(got.pairs) != len(want.pairs):
            return "%s: %d entries, want %d" % (path, len(got.pairs), len(want.pairs))
        for i, ((gk, gv), (wk, wv)) in enumerate(zip(got.pairs, want.pairs)):
            d = diff(gk, wk, "%s.key%d" % (path, i), memo, ident) or diff(gv, wv, "%s{%r}" % (path, wk), memo, ident)
            if d:
                return d
        return None
    if (got.tostr is None) != (want.tostr is None) or (want.tostr is not None and units(got.tostr) != units(want.tostr)):
        return "%s: ToString %s, want %s" % (path, short(got.tostr), short(want.tostr))
    if len(got.base) != len(want.base):
        return "%s: %d base values, want %d" % (path, len(got.base), len(want.base))
    for i, (g, w) in enumerate(zip(got.base, want.base)):
        d = diff(g, w, "%s.base%d" % (path, i), memo, ident)
        if d:
            return d
    for what in ("ms", "props"):
        g, w = getattr(got, what), getattr(want, what)
        if sorted(units(n) for n, _ in g) != sorted(units(n) for n, _ in w):
            return "%s.%s: names %r, want %r" % (path, what, [n for n, _ in g], [n for n, _ in w])
        gd = dict(g)
        for n, v in w:
            d = diff(gd[n], v, "%s.%s" % (path, n), memo, ident)
            if d:
                return d
    return None


# ---------------------------------------------------------------- encoder (what a peer sends)
class Encoder:
    """rng=None gives the plain canonical form; with an rng the presentation varies within what is legal."""

    def __init__(self, rng=None, encrypt=None, first_id=0):
        self.rng, self.encrypt = rng, encrypt
        self.next_id, self.ids = first_id, {}
        self.tns, self.next_tn = {}, 0

    def r(self, p):
        return self.rng is not None and self.rng.random() < p

    def attrs(self, name, rid=None):
        a = []
        if name is not None:
            a.append(' N="%s"' % xml_attr(escape(name)))
        if rid is not None:
            a.append(' RefId="%s"' % rid)
        if self.r(0.5):
            a.reverse()
        return "".join(a)

    def el(self, tag, attrs, text):
        if text == "":
            return "<%s%s%s" % (tag, attrs, " />" if self.r(0.5) else "></%s>" % tag)
        return "<%s%s>%s</%s>" % (tag, attrs, text, tag)

    def string(self, s):
        return xml_text(escape(s, self.rng))

    def prim(self, n):
        t, v = n.tag, n.val
        if t == "Nil":
            return ""
        if t in TEXT:
            return self.string(v)
        if t == "B":
            return "true" if v else "false"
        if t in ("Sg", "Db"):
            if math.isnan(v):
                return "NaN"
            if math.isinf(v):
                return "INF" if v > 0 else "-INF"
            s = repr(v)
            if s.endswith(".0") and self.r(0.7):
                s = s[:-2]
            return s.replace("e", "E")
        if t == "BA":
            return base64.b64encode(v).decode()
        if t == "SS":
            return base64.b64encode(self.encrypt(v)).decode()
        return str(v)

    def node(self, n, name=None):
        if isinstance(n, Raw):
            return n.text
        if isinstance(n, P):
            if n.tag == "Nil":
                return "<Nil%s%s" % (self.attrs(name), " />" if not self.r(0.3) else "></Nil>")
            return self.el(n.tag, self.attrs(name), self.prim(n))
        if id(n) in self.ids:
            return "<Ref%s />" % self.attrs(name, self.ids[id(n)])
        rid = str(self.next_id)
        self.next_id += 1
        self.ids[id(n)] = rid
        self.keep = getattr(self, "keep", [])
        self.keep.append(n)
        parts = []
        tn = self.tn(n.types)
        if isinstance(n, Seq):
            parts.append("<%s>%s</%s>" % (n.kind, "".join(self.node(i) for i in n.items), n.kind))
        elif isinstance(n, Map):
            parts.append("<DCT>%s</DCT>" % "".join(
                "<En>%s%s</En>" % (self.node(k, "Key"), self.node(v, "Value")) for k, v in n.pairs))
        else:
            if n.tostr is not None:
                parts.append(self.el("ToString", "", self.string(n.tostr)))
            parts.extend(self.node(b) for b in n.base)
            if n.props:
                parts.append("<Props>%s</Props>" % "".join(self.node(v, k) for k, v in n.props))
            if n.ms:
                parts.append("<MS>%s</MS>" % "".join(self.node(v, k) for k, v in n.ms))
        return "<Obj%s>%s%s</Obj>" % (self.attrs(name, rid), tn, "".join(parts))

    def tn(self, types):
        if not types:
            return ""
        k = tuple(types)
        if k in self.tns and not self.r(0.1):
            return '<TNRef RefId="%d" />' % self.tns[k]
        i = self.next_tn
        self.next_tn += 1
        self.tns[k] = i
        return '<TN RefId="%d">%s</TN>' % (i, "".join("<T>%s</T>" % xml_text(escape(t)) for t in types))


class Raw:
    def __init__(self, text):
        self.text = text


def encode(n, rng=None, encrypt=None):
    return Encoder(rng, encrypt).node(n)


# ---------------------------------------------------------------- Python views
def match(py, want, path="$", memo=None, mods=None):
    """None if the Python value the library returned is the one the model node denotes."""
    import pypsrp.complex_objects as co
    if memo is None:
        memo = ({}, {})
    if isinstance(want, P):
        v = want.val
        t = want.tag
        if t == "Nil":
            return None if py is None else "%s: got %s, want None" % (path, short(py))
        if t == "C":
            v = chr(v)
        if t in TEXT or t in ("C", "SS"):
            if type(py) is not str or units(py) != units(v):
                return "%s: <%s> got %s, want %s" % (path, t, short(py), short(v))
            return None
        if t in ("Sg", "Db"):
            if type(py) is not float or not same_float(py, v):
                return "%s: <%s> got %s, want %r" % (path, t, short(py), v)
            return None
        if type(py) is not type(v) or py != v:
            return "%s: <%s> got %s, want %s" % (path, t, short(py), short(v))
        return None
    a, b = memo
    if id(want) in b:
        return None if b[id(want)] is py else "%s: reference yields a different object (%s)" % (path, short(py, 120))
    b[id(want)] = py
    a[id(py)] = want
    if isinstance(want, Seq):
        if want.kind == "QUE":
            if not isinstance(py, Queue):
                return "%s: got %s, want a Queue" % (path, short(py))
            items = list(py.queue)
        else:
            if type(py) is not list:
                return "%s: got %s, want a list" % (path, short(py))
            items = py
        if len(items) != len(want.items):
            return "%s: %d items, want %d: %s" % (path, len(items), len(want.items), short(items))
        for i, (g, w) in enumerate(zip(items, want.items)):
            d = match(g, w, "%s[%d]" % (path, i), memo)
            if d:
                return d
        return None
    if isinstance(want, Map):
        if type(py) is not dict:
            return "%s: got %s, want a dict" % (path, short(py))
        if len(py) != len(want.pairs):
            return "%s: %d entries, want %d" % (path, len(py), len(want.pairs))
        for i, ((gk, gv), (wk, wv)) in enumerate(zip(py.items(), want.pairs)):
            d = match(gk, wk, "%s.key%d" % (path, i), memo) or match(gv, wv, "%s{%s}" % (path, short(repr(wk), 60)), memo)
            if d:
                return d
        return None
    if isinstance(want, Known):
        if type(py).__name__ != want.cls:
            return "%s: got %s, want a %s" % (path, short(py), want.cls)
        for n, w in want.attrs_want.items():
            if not hasattr(py, n):
                return "%s: %s has no %s" % (path, want.cls, n)
            got = getattr(py, n)
            d = match(got, w, "%s.%s" % (path, n), memo) if isinstance(w, (P, Seq, Map, Obj)) else w(got)
            if d:
                return d if d.startswith(path) else "%s.%s: %s" % (path, n, d)
        if want.text is not None and str(py) != want.text:
            return "%s: str() is %s, want %s" % (path, short(str(py)), short(want.text))
        return None
    if not isinstance(py, co.GenericComplexObject):
        return "%s: got %s, want a generic object" % (path, short(py))
    if list(py.types) != list(want.types or []):
        return "%s: types %r, want %r" % (path, py.types, want.types)
    if (py.to_string is None) != (want.tostr is None) or (want.tostr is not None and units(py.to_string) != units(want.tostr)):
        return "%s: to_string %s, want %s" % (path, short(py.to_string), short(want.tostr))
    if len(py.property_sets) != len(want.base):
        return "%s: %d base values, want %d" % (path, len(py.property_sets), len(want.base))
    for i, (g, w) in enumerate(zip(py.property_sets, want.base)):
        d = match(g, w, "%s.base%d" % (path, i), memo)
        if d:
            return d
    for what, got in (("ms", py.extended_properties), ("props", py.adapted_properties)):
        w = getattr(want, what)
        if [units(k) for k in got] != [units(n) for n, _ in w]:
            return "%s.%s: names %r, want %r" % (path, what, list(got), [n for n, _ in w])
        for n, v in w:
            d = match(got[n], v, "%s.%s" % (path, n), memo)
            if d:
                return d
    return None
