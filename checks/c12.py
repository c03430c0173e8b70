"""C12: conservation monitor on server-side resources: every shell the server created against the deletes and signals it received."""
import gc
import os
import shutil
import tempfile
import uuid

import requests

from checks import c26
from psrpmon import REAL_MONO, msgs, wsmv
from psrpmon.clixml import P
from psrpmon.core import Violation, short
from psrpmon.server import Drop, Net, connection
from psrpmon.session import make

PS_STOP = ("powershell/signal/ctrl_c", "powershell/signal/crtl_c")  # both spellings are in use
TERMINATE = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/signal/terminate"
CTRL_C = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/signal/ctrl_c"


class Boom(Exception):
    pass


def server(case):
    s = make(case)
    r = case.rng
    s.own_shell_ids = r.random() < 0.3
    s.own_command_ids = r.random() < 0.4
    return s


def deletes(s):
    out = {}
    for q in s.requests("Delete"):
        out.setdefault((q.shell_id or "").upper(), []).append(q)
    return out


def check_deletes(case, s, expect, what):
    """expect: {shell: number of deletes}; every delete must name exactly that shell."""
    d = deletes(s)
    known = {sh.id: sh for sh in s.all_shells}
    for sid, reqs in d.items():
        case.check(sid in known, "deleted-unknown-shell", lambda: "%s: %s" % (what, sid))
        for q in reqs:
            case.eq(q.uri, known[sid].create.uri, "delete-resource", what)
            case.check([n for n, _ in q.selectors] == ["ShellId"], "delete-selectors", lambda: "%s: %s" % (what, q.selectors))
    for sh in s.all_shells:
        n = len(d.get(sh.id, []))
        want = expect.get(sh.id, 1)
        case.check(n == want, "not-deleted" if n < want else "deleted-too-often", lambda: "%s: %d deletes, expected %d" % (what, n, want))
        case.ctx.count("shells_accounted")


# ---------------------------------------------------------------- pools
def run_pipeline(case, s, pool, log):
    from pypsrp.powershell import PowerShell
    r = case.rng
    ps = PowerShell(pool).add_script("x")
    end = r.choice(["complete", "complete", "fail", "stop", "leave"])
    s.on_pipeline = lambda cmd: s.finish(cmd, 4 if end == "complete" else 5) if end in ("complete", "fail") else None
    sh = next(x for x in s.all_shells if x.rpid == uuid.UUID(pool.id))
    if end == "leave":
        ps.begin_invoke()
        return end
    if end == "stop":
        ps.begin_invoke()
        cmd = sh.last_command
        case.check(ps.id in pool.pipelines, "not-registered", "a running pipeline is not in the pool's table")
        ps.stop()
        case.check(len(cmd.signals) == 1 and cmd.signals[0] in PS_STOP, "stop-signals", lambda: "signals of the stopped command: %s" % cmd.signals)
    else:
        ps.invoke()
        cmd = sh.last_command
        ps.close()
        case.eq([x.lower() for x in cmd.signals], [TERMINATE], "close-signals", "signals of the closed command")
    case.check(ps.id not in pool.pipelines, "still-registered", "after %s" % end)
    case.check(ps not in pool.pipelines.values(), "still-registered", "after %s" % end)
    if end == "stop" and r.random() < 0.5:
        n = len(s.log)
        ps.stop()
        case.eq(len(s.log), n, "stop-signals", "stopping twice sent")
    case.ctx.count("pipelines_" + end)
    return end


def pool_case(case):
    from pypsrp.powershell import RunspacePool
    r = case.rng
    s = server(case)
    log = []
    expect = {}
    with Net(s) as net:
        conn = connection(s.host)
        boom = Boom("body") if r.random() < 0.4 else None
        caught, how = None, "failed early"
        n_other = r.choice([0, 0, 1])
        bystanders = []
        for _ in range(n_other):
            b = RunspacePool(conn)
            b.open()
            bystanders.append(b)
        pool = RunspacePool(conn)
        first = len(s.all_shells)
        try:
            with pool as got:
                case.check(got is pool, "context-value", repr(got))
                sh = s.all_shells[first]
                expect[sh.id] = 1
                for _ in range(r.choice([0, 1, 2, 3])):
                    log.append(run_pipeline(case, s, pool, log))
                how = r.choice(["nothing"] * 4 + ["close", "close-twice", "disconnect", "reconnect", "broken", "server-closed", "dead", "body-fault", "body-drop"])
                log.append(how)
                if how.startswith("close"):
                    for _ in range(2 if how == "close-twice" else 1):
                        pool.close()
                    case.eq(pool.state, 3, "state", "after close")
                elif how in ("disconnect", "reconnect"):
                    pool.disconnect()
                    if how == "reconnect":
                        pool.connect()
                elif how in ("broken", "server-closed"):
                    expect[sh.id] = 0
                    s.on_pool = lambda shell, m: (s.push(shell, "RUNSPACEPOOL_STATE", msgs.pool_state(5 if how == "broken" else 3)),
                                                  s.push(shell, "RUNSPACE_AVAILABILITY", msgs.availability(1, s.ci(s.model(shell, m))))) and True
                    pool.get_available_runspaces()  # a broken pool raises out of the body
                elif how == "dead":
                    expect[sh.id] = 0
                    k = r.choice(["gone", "timeout"])
                    if k == "gone":
                        s.shells.pop(sh.id)
                    else:
                        s.before = lambda q: wsmv.fault(q, wsmv.OP_TIMEOUT, "timed out") if q.action == "Get" else None
                    case.check(pool.is_alive() is False, "alive", "the shell is gone")
                    s.before = None
                elif how == "body-fault":
                    s.before = lambda q: wsmv.fault(q, 5, "Access is denied.") if q.action == "Send" else None
                    try:
                        pool.get_available_runspaces()
                    finally:
                        s.before = None
                elif how == "body-drop":
                    def drop(q):
                        if q.action == "Send":
                            raise Drop(requests.exceptions.ConnectionError("reset by peer"))
                    s.before = drop
                    try:
                        pool.get_available_runspaces()
                    finally:
                        s.before = None
                if boom:
                    raise boom
        except Violation:
            raise
        except Exception as e:
            caught = e
        raised_by_body = how in ("broken", "body-fault", "body-drop")
        case.check((caught is not None) == bool(raised_by_body or boom), "exception-lost-or-made", lambda: "%s: %s" % (how, short(repr(caught))))
        if boom and not raised_by_body:
            case.check(caught is boom, "exception-replaced", lambda: repr(caught))
        elif raised_by_body:
            want = {"broken": "InvalidPSRPOperation", "body-fault": "WSManFaultError", "body-drop": "ConnectionError"}[how]
            case.eq(type(caught).__name__, want, "exception-replaced", how)
        for b in bystanders:
            bs = s.all_shells[bystanders.index(b)]
            case.check(not deletes(s).get(bs.id), "deleted-another-shell", "leaving one pool deleted another")
            b.close()
        n = len(s.log)
        for _ in range(r.choice([0, 1, 2])):
            pool.close()
            pool.__exit__(None, None, None)
        case.eq(len(s.log), n, "closed-again", "requests sent by closing a closed pool")
        check_deletes(case, s, expect, "pool %s" % log)
        case.check(pool.state in (3, 5), "state", "pool state %d after its context" % pool.state)
        conn.close()
    case.note(events=log, boom=bool(boom))
    case.ctx.count("pool_" + how)
    case.ctx.count("raised", caught is not None)
    case.key(log, bool(boom), s.own_shell_ids, s.own_command_ids, n_other)


# ---------------------------------------------------------------- process shells
def finish_process(s, rc=0):
    def on_command(cmd):
        cmd.queue.append(("R", [("stdout", b"out")], "Running", None))
        cmd.queue.append(("R", [("stderr", b"err")], "Done", rc))
    s.on_command = on_command


def shell_case(case):
    from pypsrp.shell import Process, SignalCode, WinRS
    r = case.rng
    s = server(case)
    finish_process(s)
    log = []
    with Net(s):
        conn = connection(s.host)
        given = r.choice([None, None, "11111111-2222-3333-4444-555555555555"])
        shell = WinRS(conn, id=given)
        rounds = r.choice([1, 1, 2, 3])
        for k in range(rounds):
            boom = Boom("x") if r.random() < 0.4 else None
            caught = None
            before = len(s.all_shells)
            how = r.choice(["nothing", "run", "run", "close", "fault", "open-again"])
            log.append(how)
            try:
                with shell as got:
                    case.check(got is shell, "context-value", repr(got))
                    case.eq(len(s.all_shells), before + 1, "create-count", "shells created")
                    case.eq(shell.id.upper(), s.all_shells[-1].id, "shell-id", "after opening")
                    if how == "run":
                        for _ in range(r.choice([1, 2])):
                            p = Process(shell, "x")
                            p.invoke()
                            sig = r.choice([SignalCode.CTRL_C, SignalCode.TERMINATE])
                            cmd = s.all_shells[-1].last_command
                            p.signal(sig)
                            case.eq(cmd.signals, [sig], "process-signals", "signals of the command")
                    elif how == "close":
                        shell.close()
                        shell.close()
                    elif how == "open-again":
                        shell.open()
                        case.eq(len(s.all_shells), before + 1, "create-count", "opening an open shell")
                    elif how == "fault":
                        s.before = lambda q: wsmv.fault(q, 5, "Access is denied.") if q.action == "Command" else None
                        try:
                            Process(shell, "x").invoke()
                        finally:
                            s.before = None
                    if boom:
                        raise boom
            except Violation:
                raise
            except Exception as e:
                caught = e
            if how == "fault":
                case.eq(type(caught).__name__, "WSManFaultError", "exception-replaced", how)
            else:
                case.check(caught is boom, "exception-replaced", lambda: "%s: %r" % (how, caught))
            case.check(not shell.opened, "still-open", how)
        n = len(s.log)
        shell.close()
        case.eq(len(s.log), n, "closed-again", "requests sent by closing a closed shell")
        per = {}
        for sh in s.all_shells:
            per[sh.id] = per.get(sh.id, 0) + 1
        check_deletes(case, s, per, "shell %s" % log)
    case.note(events=log)
    case.ctx.count("shell_contexts", rounds)
    case.key(log, rounds, given, s.own_shell_ids)


# ---------------------------------------------------------------- failing to open
def failed_open_case(case):
    from pypsrp.powershell import RunspacePool
    from pypsrp.shell import WinRS
    r = case.rng
    s = server(case)
    pool_kind = r.random() < 0.7
    how = r.choice(["create-fault", "create-drop", "receive-fault", "receive-drop", "broken"] if pool_kind else ["create-fault", "create-drop"])
    entered = []
    with Net(s):
        conn = connection(s.host, reconnection_retries=0)

        def before(q):
            if how.startswith(q.action.lower()):
                if how.endswith("fault"):
                    return wsmv.fault(q, r.choice([5, 2150859180]), "no")
                raise Drop(requests.exceptions.ConnectionError("reset"))
            return None
        s.before = before
        if how == "broken":
            s.on_open = lambda sh: [s.push(sh, "RUNSPACEPOOL_STATE", msgs.pool_state(5))] and True
        obj = RunspacePool(conn) if pool_kind else WinRS(conn)
        caught = None
        try:
            with obj:
                entered.append(1)
        except Violation:
            raise
        except Exception as e:
            caught = e
        case.check(not entered and caught is not None, "entered-unopened", how)
        case.eq(type(caught).__name__, {"fault": "WSManFaultError", "drop": "ConnectionError", "roken": "InvalidPSRPOperation"}[
            how.split("-")[-1] if "-" in how else "roken"], "open-error", how)
        if pool_kind:
            case.check(obj.state != 2, "claims-to-be-open", how)
            case.eq(obj.shell.opened, bool(s.all_shells), "claims-to-be-open", "the shell, %s" % how)
        else:
            case.eq(obj.opened, False, "claims-to-be-open", how)
        s.before = None
        already = len(s.requests("Delete"))
        obj.close()
        obj.close()
        created = bool(s.all_shells)
        want = 1 if created and how != "broken" else 0
        if already:
            want = 0
        case.eq(len(s.requests("Delete")) - already, want, "not-deleted" if want else "deleted-unopened", "closing after a failed open (%s)" % how)
        for sid in deletes(s):
            case.eq(sid, s.all_shells[0].id, "deleted-unknown-shell", how)
        # another attempt works
        if how.startswith("create") and not pool_kind:
            obj.open()
            obj.close()
            case.eq(len(s.requests("Create")) - len(s.requests("Delete")), 1, "retry-after-failed-open", how)
    case.note(how=how, pool=pool_kind)
    case.ctx.count("failed_opens")
    case.key(how, pool_kind, s.own_shell_ids)


# ---------------------------------------------------------------- one-call helpers
def helper_case(case):
    from pypsrp.client import Client
    r = case.rng
    s = server(case)
    finish_process(s, 3)
    which = r.choice(["cmd", "ps", "copy", "fetch"])

    def on_pipeline(cmd):
        if which == "fetch":
            s.push(cmd, "PIPELINE_OUTPUT", P("S", "YWJj"))
            s.push(cmd, "PIPELINE_OUTPUT", P("S", "a9993e364706816aba3e25717850c26c9cd0d89d"))
        elif which == "copy":
            return
        else:
            s.push(cmd, "PIPELINE_OUTPUT", P("S", "line"))
        s.finish(cmd, 5 if remote_error else 4)

    def on_input(cmd, m):
        if m is None:
            s.push(cmd, "PIPELINE_OUTPUT", P("S", "C:\\x"))
            s.finish(cmd, 5 if remote_error else 4)
    remote_error = r.random() < 0.15
    s.on_pipeline, s.on_input = on_pipeline, on_input
    at = r.choice([None, None] + list(range(12)))
    kind = r.choice(["fault", "drop"])
    hit = []

    def before(q):
        if at is not None and q.index == at:
            hit.append(q)
            if kind == "fault":
                return wsmv.fault(q, r.choice([5, 2150858843, 2150859174]), "no")
            raise Drop(requests.exceptions.ConnectionError("reset"))
        return None
    s.before = before
    d = tempfile.mkdtemp(prefix="c12-")
    old_tmp = tempfile.tempdir
    tempfile.tempdir = d
    caught = None
    try:
        src = os.path.join(d, "src")
        with open(src, "wb") as f:
            f.write(r.randbytes(r.choice([0, 10, 100000, 300000])))
        with Net(s):
            try:
                with Client(s.host, ssl=False, auth="basic", encryption="never", username="u", password="p", reconnection_retries=0) as c:
                    if which == "cmd":
                        c.execute_cmd("x")
                    elif which == "ps":
                        c.execute_ps("x", environment={"a": "b"} if r.random() < 0.3 else None)
                    elif which == "copy":
                        c.copy(src, "C:\\x")
                    else:
                        c.fetch("C:\\x", os.path.join(d, "out"))
            except Violation:
                raise
            except Exception as e:
                caught = e
    finally:
        tempfile.tempdir = old_tmp
        shutil.rmtree(d)
    case.check((caught is not None) == bool(hit or remote_error and which in ("copy", "fetch")), "exception-lost-or-made",
               lambda: "%s failing at %s: %s" % (which, at, short(repr(caught))))
    expect = {}
    for sh in s.all_shells:
        opened = which == "cmd" or not hit or any(q.action in ("Command", "Send", "Delete") for q in s.log[:hit[0].index + 1] if q.shell_id)
        if not opened:
            # the pool was still negotiating, its context was not entered
            expect[sh.id] = len(deletes(s).get(sh.id, []))
            case.check(expect[sh.id] <= 1, "deleted-too-often", which)
    if hit and hit[0].action == "Delete":
        case.ctx.count("failed_deletes")
    check_deletes(case, s, expect, "%s failing at request %s" % (which, hit[0].action if hit else None))
    for q in s.requests("Signal"):
        code = q.find("rsp:Signal/rsp:Code").text
        cid = q.find("rsp:Signal").attrib["CommandId"].upper()
        case.check(any(sh.last_command is not None and sh.last_command.id == cid for sh in s.all_shells if getattr(sh, "last_command", None)),
                   "signal-for-another-command", cid)
        if which == "cmd":
            case.eq(code, CTRL_C, "process-signals", "execute_cmd")
    case.note(helper=which, fails_at=at, request=hit[0].action if hit else None, caught=repr(caught))
    case.ctx.count("helper_" + which)
    case.ctx.count("helper_faults", bool(hit))
    case.key(which, hit[0].action if hit else None, kind, at)


def still_open(w, wait=5, but=()):
    """The server's view; its threads take a moment to see the end of a TLS connection."""
    if w.tls:
        end = REAL_MONO() + wait
        for x in set(w.wire.open).difference(but):
            x.thread.join(max(0, end - REAL_MONO()))
        return {x for x in w.wire.open if x.thread.is_alive()}
    return set(w.wire.open)


def connection_case(case):
    """Real connections: none of a client's stays open once it, or its connection, was left or closed; other clients' do."""
    from pypsrp.client import Client
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.shell import Process, WinRS
    w = c26.World(case)
    r = case.rng
    s = w.s
    w.kw["reconnection_retries"] = 0
    finish_process(s)
    boom = r.random() < 0.25
    how = r.choice(["with", "with", "close", "close-twice"])
    kind = r.choice(["client", "wsman"])
    with w.wire:
        bystander = w.wsman()
        keep = r.random() < 0.5
        if keep:
            RunspacePool(bystander).open()
        before = still_open(w, 0)
        c = Client("h.test", **w.kw) if kind == "client" else w.wsman()
        x = c.wsman if kind == "client" else c
        try:
            if how == "with":
                got = c.__enter__()
                case.check(got is c, "context-value", kind)
            try:
                for i in range(r.choice([0, 1, 1, 2])):
                    if kind == "client" and r.random() < 0.6:
                        c.execute_ps("x") if r.random() < 0.7 else c.execute_cmd("x")
                    elif r.random() < 0.5:
                        with RunspacePool(x) as p:
                            q = PowerShell(p).add_cmdlet("x")
                            q.invoke()
                    else:
                        with WinRS(x) as p:
                            Process(p, "x").invoke()
                    case.ctx.count("connection_uses")
                if boom:
                    raise Boom()
            except Boom as e:
                if how == "with":
                    case.check(not c.__exit__(Boom, e, e.__traceback__), "exception-swallowed", kind)
            else:
                if how == "with":
                    c.__exit__(None, None, None)
        finally:
            if how != "with":
                c.close()
                if how == "close-twice":
                    c.close()
        gc.collect()     # urllib3 closes the connections of a pool when the pool is collected
        left = still_open(w, 5, before) - before
        case.check(not left, "connection-left-open", lambda: "%s %s: %d of %d connections" % (kind, how, len(left), len(w.wire.socks)))
        case.check(before <= still_open(w, 0), "other-connection-closed", kind)
        case.ctx.count("connections_kept", len(before))
        bystander.close()
        gc.collect()
        case.check(not still_open(w), "connection-left-open", "bystander")
    case.key(kind, how, boom, w.scheme, w.tls, keep)


def main(ctx):
    ctx.rule("pools, process shells and one-call helpers entered and left in every way (body exceptions, faults, lost connections, early and repeated close, "
             "disconnect, broken, dead), real connections counted before and after, with servers choosing their own shell and command ids; at the end every created shell is accounted for against "
             "the deletes received and every command against its signals; distinct: what happened in the context.")
    ctx.assumptions.append("when the delete request itself fails, or the pool fails while it is still negotiating, a second delete or a delete is not demanded")
    ctx.each("pools", 400, 10000, pool_case)
    ctx.each("shells", 250, 6000, shell_case)
    ctx.each("failed-open", 150, 4000, failed_open_case)
    ctx.each("helpers", 300, 8000, helper_case)
    ctx.each("connections", 100, 2000, connection_case)
    ctx.require("connection_uses", 10)
    for k in ("pool_broken", "pool_dead", "pool_disconnect", "pool_close-twice", "pipelines_stop", "pipelines_complete", "helper_faults", "failed_opens",
              "raised"):
        ctx.require(k, 3)
