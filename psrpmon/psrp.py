"""PSRP fragments and messages, written from MS-PSRP 2.2; shares no code with pypsrp."""
import struct
import uuid

from .core import Violation, short

CLIENT, SERVER = 1, 2
T = dict(
    SESSION_CAPABILITY=0x00010002, INIT_RUNSPACEPOOL=0x00010004, PUBLIC_KEY=0x00010005, ENCRYPTED_SESSION_KEY=0x00010006,
    PUBLIC_KEY_REQUEST=0x00010007, CONNECT_RUNSPACEPOOL=0x00010008, RUNSPACEPOOL_INIT_DATA=0x0002100B, RESET_RUNSPACE_STATE=0x0002100C,
    SET_MAX_RUNSPACES=0x00021002, SET_MIN_RUNSPACES=0x00021003, RUNSPACE_AVAILABILITY=0x00021004, RUNSPACEPOOL_STATE=0x00021005,
    CREATE_PIPELINE=0x00021006, GET_AVAILABLE_RUNSPACES=0x00021007, USER_EVENT=0x00021008, APPLICATION_PRIVATE_DATA=0x00021009,
    GET_COMMAND_METADATA=0x0002100A, RUNSPACEPOOL_HOST_CALL=0x00021100, RUNSPACEPOOL_HOST_RESPONSE=0x00021101, PIPELINE_INPUT=0x00041002,
    END_OF_PIPELINE_INPUT=0x00041003, PIPELINE_OUTPUT=0x00041004, ERROR_RECORD=0x00041005, PIPELINE_STATE=0x00041006,
    DEBUG_RECORD=0x00041007, VERBOSE_RECORD=0x00041008, WARNING_RECORD=0x00041009, PROGRESS_RECORD=0x00041010,
    INFORMATION_RECORD=0x00041011, PIPELINE_HOST_CALL=0x00041100, PIPELINE_HOST_RESPONSE=0x00041101,
)
NAMES = {v: k for k, v in T.items()}
NULL = uuid.UUID(int=0)


class Msg:
    def __init__(self, dest, type_, rpid, pid, data, oid=None):
        self.dest, self.type, self.rpid, self.pid, self.data, self.oid = dest, type_, rpid, pid, data, oid
        self.name = NAMES.get(type_, hex(type_))
        self.via = None

    def __repr__(self):
        return "%s#%s(%s)" % (self.name, self.oid, short(self.data, 120))


def message(dest, type_, rpid, pid, data):
    if isinstance(type_, str):
        type_ = T[type_]
    g = [uuid.UUID(str(x)) if x is not None else NULL for x in (rpid, pid)]
    return struct.pack("<II", dest, type_) + g[0].bytes_le + g[1].bytes_le + data


def parse_message(b, oid=None):
    if len(b) < 40:
        raise Violation("message-too-short", short(b))
    d, t = struct.unpack("<II", b[:8])
    data = b[40:]
    if data[:3] == b"\xef\xbb\xbf":
        data = data[3:]
    return Msg(d, t, uuid.UUID(bytes_le=b[8:24]), uuid.UUID(bytes_le=b[24:40]), data, oid)


def fragment(oid, fid, data, start, end):
    return struct.pack(">QQBI", oid, fid, (1 if start else 0) | (2 if end else 0), len(data)) + data


def split(oid, data, size):
    """size: int, or a callable giving the next fragment's size."""
    out, i, fid = [], 0, 0
    while True:
        n = max(0, size()) if callable(size) else max(1, size)
        piece = data[i:i + n]
        i += n
        end = i >= len(data)
        out.append(fragment(oid, fid, piece, fid == 0, end))
        fid += 1
        if end:
            return out


def parse_fragments(b):
    """[(oid, fid, start, end, data)]"""
    out, i = [], 0
    while i < len(b):
        if len(b) - i < 21:
            raise Violation("fragment-truncated", "%d stray bytes" % (len(b) - i))
        oid, fid, flags, n = struct.unpack(">QQBI", b[i:i + 21])
        if flags & ~3:
            raise Violation("fragment-reserved-bits", "flags %#x" % flags)
        data = b[i + 21:i + 21 + n]
        if len(data) != n:
            raise Violation("fragment-truncated", "length %d, %d bytes present" % (n, len(data)))
        out.append((oid, fid, bool(flags & 1), bool(flags & 2), data))
        i += 21 + n
    return out


class Reassembler:
    """Strict: every object id new and larger than all before it, fragments 0..n in order, flags exact."""

    def __init__(self):
        self.open, self.last, self.fragments, self.done = {}, 0, 0, []

    def feed(self, b, via=None):
        out = []
        frags = parse_fragments(b)
        if not frags:
            raise Violation("empty-fragment-payload", "no fragment in the payload of %s" % (via,))
        for oid, fid, start, end, data in frags:
            self.fragments += 1
            if start != (fid == 0):
                raise Violation("fragment-start-flag", "object %d fragment %d start=%s" % (oid, fid, start))
            if fid == 0:
                if oid <= self.last:
                    raise Violation("object-id-reused", "object id %d after %d" % (oid, self.last))
                self.last = oid
                self.open[oid] = [0, b""]
            if oid not in self.open:
                raise Violation("fragment-of-no-message", "object %d fragment %d" % (oid, fid))
            st = self.open[oid]
            if fid != st[0]:
                raise Violation("fragment-number", "object %d: fragment %d, expected %d" % (oid, fid, st[0]))
            st[0] += 1
            st[1] += data
            if end:
                del self.open[oid]
                m = parse_message(st[1], oid)
                m.via = via
                m.nfrag = st[0]
                if m.dest != SERVER:
                    raise Violation("message-destination", "%d in %r" % (m.dest, m))
                self.done.append(m)
                out.append(m)
        return out
