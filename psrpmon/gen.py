"""Seeded generators of values, texts, object graphs."""
import math
import uuid

from .clixml import INT_RANGE, Map, Obj, P, Seq

POOL = [
    "", "a", "_", "x", "_x", "_X", "_x005F_", "_x000A_", "_X000a_", "_x00", "_x0000_", "_xD800_", "_xZZZZ_", "__x0041_",
    "_x005F_x000A_", "_x_x0041_", "x0041_", "_x0041", "_xd83d__xde00_", "\u4100\u5f00\u7800\u3000\u3000\u3000\u4100\u5f41",
    "\x00", "\x01", "\t", "\n", "\r", "\r\n", "\x1b[0m", "\x7f", "\x85", "\x9f", "\xa0", "\xad", "&", "<", ">", "\"", "'", "]]>", "&amp;",
    "<S>x</S>", "<!--", "<![CDATA[", "é", "ß", "日本", "\u2028", "\ufeff", "\ufffd", "\ufffe", "\uffff", "\ud7ff", "\ue000", "\U0001f600", "\U00010000",
    "\U0010ffff", "\ud800", "\udfff", "\udbff", " ", "  lead", "trail  ", "$(Get-Date)", "`n", "A" * 40, "_xFFFF_", "_x-001_", "_x 041_", "_x+041_",
    "\u0660", "_x\u0660\u0660\u0661\u0661_", "_x\uff10\uff10\uff14\uff11_", "\u0130", "\u017f", "_\u2717",
]
LIGHT = ["a", "b", "foo", "Bar baz", "-1", "1.5", "true", "é", "日", "x_y", "C:\\dir\\f.txt", "", " ", "<&>\"'", "tab\there", "nl\nhere", "\U0001f600"]


def text(r, hostile=0.8, maxparts=8):
    if r.random() > hostile:
        return r.choice(LIGHT)
    k = r.random()
    if k < 0.12:
        # byte patterns that look like an escape when read unaligned in UTF-16
        return "".join(r.choice("\u4100\u5f00\u7800\u3000\u3100\u4141\u5f41\u7830\u0041\u005f\u0078\u0030") for _ in range(r.randint(1, 14)))
    if k < 0.3:
        return "".join(r.choice("_xX05FfaAdD89eE_") for _ in range(r.randint(1, 24)))
    if k < 0.4:
        return "".join(chr(r.choice([r.randrange(0x20), r.randrange(0x7F, 0xA0), r.randrange(0x20, 0x7F), r.randrange(0xD800, 0xE000),
                                     r.randrange(0x10000, 0x110000), r.randrange(0xA0, 0xD800), r.randrange(0xE000, 0x10000)]))
                       for _ in range(r.randint(1, 12)))
    return "".join(r.choice(POOL) for _ in range(r.randint(1, maxparts)))


def norm_pairs(s):
    """Joins a high and a low surrogate that ended up adjacent, as UTF-16 cannot tell them from the pair."""
    return s.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")


def few(r, usual, rare, p=0.01):
    """How many of something: nearly always a few, now and then very many."""
    return r.choice(rare) if r.random() < p else r.choice(usual)


def txt(r, hostile=0.8):
    return norm_pairs(text(r, hostile))


def name(r, used, hostile=0.3):
    while True:
        n = txt(r, hostile)
        if n and n not in used:
            used.add(n)
            return n


FLOATS = [0.0, -0.0, 1.0, -1.5, 1e20, 1e-20, 5e-324, 1.7976931348623157e308, math.inf, -math.inf, math.nan, 0.1, 123456789.125, 3.4028235e38]


def integer(r, tag):
    lo, hi = INT_RANGE[tag]
    k = r.random()
    if k < 0.4:
        return r.choice([lo, hi, 0, max(lo, -1), 1, hi - 1, lo + 1])
    return r.randint(lo, hi)


def prim(r, tags=None, hostile=0.8):
    t = r.choice(tags or ["S", "S", "S", "I32", "I32", "I64", "B", "Db", "Sg", "BA", "G", "Nil", "C", "By", "SB", "U16", "I16", "U32", "U64",
                          "D", "DT", "TS", "Version", "URI", "XD", "SBK"])
    if t in INT_RANGE:
        return P(t, integer(r, t))
    if t == "Nil":
        return P(t)
    if t == "B":
        return P(t, r.random() < 0.5)
    if t in ("Sg", "Db"):
        return P(t, r.choice(FLOATS) if r.random() < 0.5 else r.uniform(-1e6, 1e6))
    if t == "BA":
        return P(t, r.randbytes(r.choice([0, 1, 2, 3, 4, 16, 57, r.randint(0, 300)])))
    if t == "G":
        return P(t, uuid.UUID(int=r.choice([0, 2**128 - 1, r.getrandbits(128)])))
    if t == "C":
        return P(t, r.choice([0, 9, 10, 65, 0x5F, 0xE9, 0xFFFF, 0x20AC, r.randrange(0, 0xD800)]))
    if t == "D":
        return P(t, r.choice(["0", "-1.50", "79228162514264337593543950335", "0.0000000001", "12345.678"]))
    if t == "DT":
        return P(t, r.choice(["2024-02-29T23:59:59.9999999Z", "0001-01-01T00:00:00", "2018-03-18T12:00:00.123+10:00", "9999-12-31T23:59:59.9999999"]))
    if t == "TS":
        return P(t, r.choice(["PT0S", "-PT1M", "P10675199DT2H48M5.4775807S", "PT9.0269026S"]))
    if t == "Version":
        return P(t, r.choice(["1.0", "2.3", "10.0.17763.1", "5.1.2"]))
    return P(t, txt(r, hostile))


KEY_TAGS = ["S", "S", "S", "I32", "G", "I64", "C"]


def pykey(p):
    return chr(p.val) if p.tag == "C" else p.val


def pairs(r, n, value, key_tags=None):
    out, used = [], set()
    while len(out) < n:
        k = prim(r, key_tags or KEY_TAGS, 0.5)
        kk = pykey(k)
        if kk in used:
            n -= 1
            continue
        used.add(kk)
        out.append((k, value()))
    return out
