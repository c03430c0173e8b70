"""C23: the local file, the data a remote copy script reads from its input, and what copy() returns or raises."""
import os
import warnings

from psrpmon import gen, msgs
from psrpmon.core import Halt, Violation, short
from psrpmon.files import Receiver, Scratch, break_at, client
from psrpmon.server import Net
from psrpmon.session import make

NAMES = ["file.txt", "a b.bin", "日本語.dat", "é", "-n", "x$y", "%TMP%.txt", "~", "\U0001f600.bin", "a\nb", "'q\"", ".hidden"]
DESTS = ["C:\\temp\\file.txt", "file.txt", "%TEMP%\\x.txt", "C:\\a b\\日本.txt", "\\\\srv\\share\\f", "", "~\\f", "$env:TEMP\\f", "C:\\_x0041_.txt", "a'b\"c", "-x",
         "C:\\\U0001f600"]


def content(r, n):
    k = r.randrange(6)
    if k == 0:
        return b"\x00" * n
    if k == 1:
        return (b"\r\n" * (n // 2 + 1))[:n]
    if k == 2:
        return (b"\x1a\xff\xfe=" * (n // 4 + 1))[:n]
    return r.randbytes(n)


def copy_case(case):
    from pypsrp.exceptions import WinRMError
    r = case.rng
    s = make(case)
    rcv = Receiver(case, s)
    kw = {}
    if r.random() < 0.75:
        kw["max_envelope_size"] = r.choice([4096, 4500, 5000, 8192, 10000, 20480, 65536, 153600, r.randint(4000, 30000)])
        s.config_kb = r.choice([150, 500, 500, 1024])
    with Scratch() as sc, Net(s), client(**kw) as c:
        rcv.payload = lambda: c.wsman.max_payload_size
        pay = c.wsman.max_payload_size
        unit = max(1, int((pay - 82) / 4 * 3))
        k = r.random()
        if k < 0.1:
            size = r.choice([0, 0, 1, 2, 3, 4])
        elif k < 0.65:
            size = max(0, unit * r.choice([1, 1, 2, 3, 5]) + r.choice([-4, -3, -2, -1, 0, 0, 0, 1, 2, 3, 4]))
        elif k < 0.9 or case.ctx.quick:
            size = r.randint(0, unit * 6)
        else:
            size = r.randint(0, 3000000)
        size = min(size, 700000) if case.ctx.quick else size
        data = content(r, size)
        name = r.choice(NAMES)
        path = os.path.join(sc.dir, name)
        with open(path, "wb") as f:
            f.write(data)
        expand = r.random() < 0.4
        src = path
        env = {}
        if expand:
            k = r.randrange(3)
            if k == 0 and name not in ("~",):
                os.environ["PSRPMON_D"] = sc.dir
                src = r.choice(["$PSRPMON_D/", "${PSRPMON_D}/"]) + name
            elif k == 1:
                os.rename(path, os.path.join(sc.home, name))
                path = os.path.join(sc.home, name)
                src = "~/" + name
        elif r.random() < 0.3:
            # not to be expanded
            name = r.choice(["$HOME", "~", "${TMPDIR}x", "%A%"])
            os.rename(path, os.path.join(sc.dir, name))
            path = src = os.path.join(sc.dir, name)
        before = sc.tree()
        dest = r.choice(DESTS) if r.random() < 0.8 else gen.txt(r)
        rcv.path = r.choice(["C:\\temp\\file.txt", dest.strip() or "C:\\x", "C:\\日本 語\\_x000A_.txt", gen.txt(r, 0.5).strip() or "p"])
        warn = [msgs.record(r, "warning") for _ in range(r.choice([0, 0, 0, 1, 3]))]
        rcv.extra = [msgs.record(r, r.choice(["verbose", "debug", "progress", "information"])) if r.random() < 0.5 else x for x in warn]
        broken = []
        k = r.random()
        mode = "clean"
        if k < 0.15:
            mode = "remote-error"
            rcv.fail_at = r.choice([-1, -1, 0, r.randint(0, 4)])
            rcv.error = msgs.error_record(r) if r.random() < 0.8 else None
        elif k < 0.35:
            mode = "transport"
            break_at(s, r, r.choice([0, 1, 2, 3, r.randint(0, 12), r.randint(0, 12)]), broken)
        args = {}
        if expand or r.random() < 0.3:
            args["expand_variables"] = expand
        if r.random() < 0.3:
            args["configuration_name"] = r.choice(["Microsoft.PowerShell", "Other.Conf"])
        got = exc = None
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                got = c.copy(src, dest, **args)
            except (Violation, Halt):
                raise
            except Exception as e:
                exc = e
        what = "%d bytes, envelope %s, %s%s" % (size, kw.get("max_envelope_size"), mode, broken)
        case.note(size=size, envelope=kw.get("max_envelope_size", "default"), mode=mode, pieces=len(rcv.items), broken=broken)
        case.check(sc.tree() == before, "local-files-changed", what)
        if exc is not None:
            exc = exc.with_traceback(None)
            exc.__context__ = exc.__cause__ = None
        held = sc.still_open()
        case.check(not held, "left-open", lambda: "%s: %s" % (what, held))
        os.environ.pop("PSRPMON_D", None)
        if rcv.cmd is not None:
            case.check(rcv.args == [("S", dest), ("B", expand)], "arguments", lambda: "%s, want %s" % (short(rcv.args), short([dest, expand])))
            uri = rcv.cmd.shell.uri
            case.check(uri.endswith("/" + args.get("configuration_name", "Microsoft.PowerShell")), "configuration", uri)
        if exc is None:
            case.check(rcv.ended and rcv.placed is not None and not rcv.failed, "success-without-file", lambda: "%s: returned %r" % (what, got))
            case.check(rcv.placed == data, "content", lambda: "%s: the remote file has %d bytes" % (what, len(rcv.placed)))
            case.eq(got, rcv.path, "returned-path", what)
            texts = [str(w.message) for w in caught if issubclass(w.category, UserWarning)]
            want = [x.attrs["message"].val for x in rcv.extra if x.kind == "warning"]
            case.check([t for t in texts if t in want] == want, "warnings", lambda: "got %s, want %s" % (short(texts), short(want)))
            case.check(mode != "remote-error" or rcv.fail_at > len(rcv.items) - 1, "error-swallowed", what)
            # a poll that timed out is polled again
            case.check(mode != "transport" or not broken or broken == [("Receive", 1)], "error-swallowed", what)
            case.ctx.count("copies")
            case.ctx.count("bytes", size)
            case.ctx.count("pieces", len(rcv.items) - 1)
            if len(rcv.items) > 2:
                case.ctx.count("multi_piece_copies")
            if size == 0:
                case.ctx.count("empty_files")
        else:
            if mode == "clean":
                raise Violation("copy-failed", "%s: %r" % (what, exc))
            if rcv.failed:
                case.check(isinstance(exc, WinRMError), "wrong-error", lambda: "%s: %r" % (what, exc))
                if rcv.error is not None:
                    case.ctx.count("remote_errors_with_record")
            case.ctx.count("errors_" + mode)
        # whatever was sent, in the order sent, is a prefix of the file, or all of it and the checksum
        sent = b"".join(rcv.items)
        if not rcv.ended:
            case.check(data.startswith(sent) or data.startswith(b"".join(rcv.items[:-1])) and len(b"".join(rcv.items[:-1])) == len(data), "content",
                       lambda: what + ": not the file")
        case.key(size, kw, mode, broken, len(rcv.items))


def main(ctx):
    ctx.rule("random files (sizes around multiples of the piece size, empty, random), envelope sizes, names, destinations, variable expansion; the server "
             "interprets the input as copy.ps1 does; remote failures at any piece, faults and lost connections at any request. distinct: size, envelope, outcome.")
    ctx.assumptions.append("copy.ps1 itself cannot run here: its effect is modelled; the local file does not change while it is copied")
    ctx.each("copies", 340, 9000, copy_case)
    for k, n in [("copies", 100), ("multi_piece_copies", 30), ("empty_files", 2), ("errors_remote-error", 10), ("errors_transport", 10)]:
        ctx.require(k, n)
