"""C24: destination file and temporary directory before and after fetch(), against what the remote script put out."""
import base64
import hashlib
import os
import resource
import shutil
import stat

from psrpmon import gen, msgs
from psrpmon.clixml import P
from psrpmon.core import Halt, Violation, short
from psrpmon.files import Scratch, break_at, call, client, script_check
from psrpmon.server import Net
from psrpmon.session import make, sprinkle

NAMES = ["file.txt", "a b.bin", "日本語.dat", "-n", "x$y", "~", "\U0001f600.bin", "a\nb", ".hidden"]
SRCS = ["C:\\temp\\file.txt", "file.txt", "%TEMP%\\x.txt", "C:\\a b\\日本.txt", "\\\\srv\\share\\f", "~\\f", "$env:TEMP\\f", "C:\\_x0041_.txt", "a'b\"c"]
MALFORMED = ["none", "hash-only", "chunk-only", "wrong-hash", "swapped", "bad-base64", "altered", "truncated", "short-hash", "other-file", "null", "number"]


def outputs(r, data, mode):
    """What the script puts out, as models."""
    chunk, digest = base64.b64encode(data).decode(), hashlib.sha1(data).hexdigest()
    if mode == "none":
        return []
    if mode == "hash-only":
        return [P("S", digest)]
    if mode == "chunk-only":
        return [P("S", chunk)]
    if mode == "wrong-hash":
        i = r.randrange(40)
        digest = digest[:i] + r.choice([c for c in "0123456789abcdef" if c != digest[i]]) + digest[i + 1:]
    elif mode == "swapped":
        chunk, digest = digest, chunk
    elif mode == "bad-base64":
        chunk = r.choice(["a", "abc", "A===A", chunk[:-1] if data else "x", "\u65e5\u672c"])
        if base64_ok(chunk, data):
            chunk = "a"
    elif mode == "altered":
        b = bytearray(data or b"x")
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        chunk = base64.b64encode(bytes(b)).decode()
    elif mode == "truncated":
        chunk = base64.b64encode(data[:-1] if data else b"y").decode()
    elif mode == "short-hash":
        digest = r.choice(["", digest[:-1], digest + "0", digest[1:], " "])
    elif mode == "other-file":
        digest = hashlib.sha1(data + b"\0").hexdigest()
    elif mode == "null":
        return r.choice([[P("Nil"), P("S", digest)], [P("S", chunk), P("Nil")]])
    elif mode == "number":
        return r.choice([[P("I32", 5), P("S", digest)], [P("S", chunk), P("I32", 5)]])
    return [P("S", chunk), P("S", digest)]


def base64_ok(chunk, data):
    try:
        return base64.b64decode(chunk) == data
    except Exception:
        return False


def fetch_case(case):
    from pypsrp.exceptions import WinRMError
    r = case.rng
    s = make(case)
    size = r.choice([0, 1, 2, 3, 100, 1023, 32768, r.randint(0, 200000), r.randint(0, 5000)])
    data = r.choice([b"\x00" * size, (b"\r\n\x1a" * size)[:size], r.randbytes(size), r.randbytes(size)])
    mode = r.choice(["clean"] * 8 + ["malformed", "malformed", "remote-error", "transport", "transport", "disk-full", "no-directory"])
    bad = r.choice(MALFORMED) if mode == "malformed" else None
    err = msgs.error_record(r) if r.random() < 0.8 else None
    broken, ran = [], []

    def on_pipeline(cmd):
        ran.append(cmd)
        text, cmd.args = call(case, s, cmd)
        script_check(case, text, "fetch.ps1")
        if mode == "remote-error":
            for o in outputs(r, data, "clean")[:r.choice([0, 0, 1, 2])]:
                s.output(cmd, o)
            if r.random() < 0.5:
                s.record(cmd, msgs.record(r, r.choice(["error", "warning", "verbose"])))
            s.finish(cmd, 5, err)
        else:
            for o in outputs(r, data, bad):
                if r.random() < 0.3:
                    s.record(cmd, msgs.record(r, r.choice(["warning", "verbose", "debug", "information", "progress"])))
                s.output(cmd, o)
            s.finish(cmd)
        sprinkle(cmd, r, 0.05)
    s.on_pipeline = on_pipeline
    kw = {"max_envelope_size": r.choice([5000, 153600, 512000])} if r.random() < 0.3 else {}
    with Scratch() as sc, Net(s), client(**kw) as c:
        name = r.choice(NAMES)
        path = os.path.join(sc.dir, name)
        expand = r.random() < 0.4
        dest = path
        if expand:
            k = r.randrange(3)
            if k == 0 and name != "~":
                os.environ["PSRPMON_D"] = sc.dir
                dest = r.choice(["$PSRPMON_D/", "${PSRPMON_D}/"]) + name
            elif k == 1:
                path = os.path.join(sc.home, name)
                dest = "~/" + name
        elif r.random() < 0.3:
            name = r.choice(["$HOME", "~", "${TMPDIR}x", "%A%"])
            path = dest = os.path.join(sc.dir, name)
        old = None
        if r.random() < 0.6:
            old = r.choice([b"", b"old", r.randbytes(r.choice([10, size + 1000])), data])
            with open(path, "wb") as f:
                f.write(old)
        if mode == "no-directory":
            dest = path = os.path.join(sc.dir, "missing", "file")
            old = None
        if mode == "transport":
            break_at(s, r, r.choice([0, 1, 2, 3, 4, r.randint(0, 10)]), broken)
        before = sc.tree()
        src = r.choice(SRCS) if r.random() < 0.8 else gen.txt(r) or "x"
        args = {}
        if expand or r.random() < 0.3:
            args["expand_variables"] = expand
        if r.random() < 0.3:
            args["configuration_name"] = r.choice(["Microsoft.PowerShell", "Other.Conf"])
        exc = got = None
        limit = None
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        if mode == "disk-full":
            # the temporary file cannot take everything: the file size limit makes write() stop short, as a full disk does
            limit = r.choice([0, 1, max(0, size - 1), size // 2, size])
        try:
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                got = c.fetch(src, dest, **args)
            finally:
                if limit is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        except (Violation, Halt):
            raise
        except Exception as e:
            exc = e
        os.environ.pop("PSRPMON_D", None)
        after = sc.tree()
        if exc is not None:
            exc = exc.with_traceback(None)
            exc.__context__ = exc.__cause__ = None
        held = sc.still_open()
        what = "%d bytes, %s %s%s limit %s, old %s" % (size, mode, bad, broken, limit, None if old is None else len(old))
        case.note(size=size, mode=mode, bad=bad, broken=broken, limit=limit)
        case.check(not held, "left-open", lambda: "%s: %s" % (what, held))
        for cmd in ran:
            case.check(cmd.args == [("S", src), ("B", expand)], "arguments", lambda: "%s, want %s" % (short(cmd.args), short([src, expand])))
            case.check(cmd.shell.uri.endswith("/" + args.get("configuration_name", "Microsoft.PowerShell")), "configuration", cmd.shell.uri)
        if exc is None:
            want = dict(before)
            want[os.fsencode(path)] = ("file", data)
            got = after.get(os.fsencode(path))
            case.check(got == ("file", data), "content", lambda: "%s: the destination holds %s" % (what, short(got)))
            case.check(after == want, "left-behind", lambda: "%s: %s" % (what, sorted(set(after) ^ set(want))))
            case.check(mode not in ("malformed", "remote-error", "no-directory"), "error-swallowed", what)
            case.check(mode != "transport" or not broken or broken == [("Receive", 1)], "error-swallowed", what)
            case.ctx.count("fetches")
            if old is not None:
                case.ctx.count("replaced")
        else:
            case.check(mode != "clean" and (mode != "transport" or broken) and not (mode == "disk-full" and limit >= size), "fetch-failed", lambda: "%s: %r" % (what, exc))
            diff = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
            if mode == "disk-full" and diff == [os.fsencode(path)]:
                # the destination itself could not take the file: it is on the same full disk
                diff = []
                case.ctx.count("destination_full")
            if mode == "transport" and broken[0][0] == "Delete" and diff == [os.fsencode(path)]:
                # the file had arrived and was verified; releasing the pool failed
                case.check(after[diff[0]] == ("file", data), "content", what)
                case.ctx.count("close_failed")
                diff = []
            case.check(not diff, "destination-touched", lambda: "%s: %r, changed %s" % (what, exc, short(diff)))
            if mode == "remote-error" or bad in ("wrong-hash", "altered", "truncated", "other-file", "short-hash"):
                case.check(isinstance(exc, WinRMError), "wrong-error", lambda: "%s: %r" % (what, exc))
            case.ctx.count("errors_" + mode)
        case.key(size, mode, bad, broken, limit, old is None)


def main(ctx):
    import signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    ctx.rule("random files, names, expansion and previous content; clean runs, malformed output of twelve kinds, remote failure, a fault or lost connection at any "
             "request, a temporary file that cannot take the data, a destination that cannot be written; the whole scratch tree is compared before and after. "
             "distinct: size, mode, fault, limit.")
    ctx.assumptions.append("fetch.ps1 itself cannot run here: its output, one base64 text and the hash, is modelled; while the destination itself is being written "
                           "a failure to write it is not claimed to restore it")
    ctx.each("fetches", 900, 30000, fetch_case)
    for k, n in [("fetches", 300), ("replaced", 100), ("errors_malformed", 50), ("errors_remote-error", 20), ("errors_transport", 20), ("errors_disk-full", 5)]:
        ctx.require(k, n)
