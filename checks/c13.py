"""C13: correlation monitor: each pool call against the response that carries its identifier."""
import requests

from psrpmon import clixml, msgs, wsmv
from psrpmon.clixml import P
from psrpmon.core import Violation, short
from psrpmon.server import Drop, Net, connection
from psrpmon.session import make, open_pool, sprinkle

REQ = {"min": ("SET_MIN_RUNSPACES", "MinRunspaces"), "max": ("SET_MAX_RUNSPACES", "MaxRunspaces"), "reset": ("RESET_RUNSPACE_STATE", None),
       "get": ("GET_AVAILABLE_RUNSPACES", None)}


def noise(s, sh, r, w):
    """Messages for nobody, or for somebody else."""
    k = r.choice(["event", "event", "state", "old", "old", "unknown", "private"])
    if k == "event":
        e = msgs.user_event(r)
        w.events.append(e)
        s.push(sh, "USER_EVENT", e.node)
    elif k == "state":
        s.push(sh, "RUNSPACEPOOL_STATE", msgs.pool_state(2))
    elif k == "old" and w.abandoned:
        ci = w.abandoned.pop(r.randrange(len(w.abandoned)))
        s.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(r.choice([True, False, False]) if r.random() < 0.7 else r.randint(0, 50), ci))
        w.case.ctx.count("late_responses")
    elif k == "unknown":
        s.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(r.choice([True, False]), r.choice([10**6, 10**12, 999])))
        w.case.ctx.count("foreign_responses")
    elif k == "private":
        s.push(sh, "APPLICATION_PRIVATE_DATA", msgs.private_data(clixml.Map([(P("S", "k"), P("I32", r.randint(0, 99)))], [
            "System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"])))


class World:
    pass


def case_(case):
    from pypsrp.exceptions import InvalidPSRPOperation
    from pypsrp.powershell import RunspacePool
    r = case.rng
    s = make(case)
    w = World()
    w.case, w.abandoned, w.events = case, [], []
    lo, hi = r.choice([(1, 1), (1, 5), (2, 3)])
    s.report_limits = r.choice([None, (1, 2), (2, 9)])
    pool = RunspacePool(connection(s.host), min_runspaces=lo, max_runspaces=hi)
    seen, plan, trace = [], {}, []

    def on_pool(sh, m):
        d = s.model(sh, m)
        ci = s.ci(d)
        case.check(ci not in [x[2] for x in seen], "identifier-reused", lambda: "ci %s in %s and %s" % (ci, m.name, seen))
        seen.append((m.name, d, ci))
        kind = plan["kind"]
        if plan["drop"]:
            sh.queue.append(("F", fail))
            w.abandoned.append(ci)
            return True
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            noise(s, sh, r, w)
        s.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(plan["answer"], ci))
        for _ in range(r.choice([0, 0, 1, 2])):
            noise(s, sh, r, w)
        sprinkle(sh, r, 0.1, ("E", "B"))
        return True

    def fail(req):
        if plan["drop"] == "fault":
            return wsmv.fault(req, 995, "The I/O operation has been aborted")
        raise Drop(requests.exceptions.ConnectionError("reset by peer"))
    s.on_pool = on_pool

    def state(what):
        case.eq((pool.min_runspaces, pool.max_runspaces), (lo, hi), "limits", "after %s (%s)" % (what, trace[-6:]))

    with Net(s):
        # before opening nothing is sent
        for _ in range(r.choice([0, 1, 3])):
            which, v = r.choice(["min", "max"]), r.randint(1, 9)
            setattr(pool, which + "_runspaces", v)
            lo, hi = (v, hi) if which == "min" else (lo, v)
            state("setting before open")
        case.eq(len(s.calls), 0, "sent-before-open", "requests")
        pool.open()
        d = s.model(s.all_shells[0], s.all_shells[0].init)
        case.eq((d.get("MinRunspaces").val, d.get("MaxRunspaces").val), (lo, hi), "limits-at-open", "in the init message")
        if s.report_limits:
            lo, hi = s.report_limits
        state("open")
        sh = s.all_shells[0]
        for _ in range(r.choice([3, 6, 12])):
            kind = r.choice(["min", "max", "min", "max", "get", "reset"])
            drop = r.choice(["fault", "drop"]) if r.random() < 0.12 else None
            n, nreq, nev = len(seen), len(s.log), len(w.events)
            v = None
            if kind in ("min", "max"):
                v = r.choice([1, 2, 3, 10, 2**31 - 1]) if r.random() < 0.8 else (lo if kind == "min" else hi)
                answer = r.random() < 0.6
                fn = lambda: setattr(pool, kind + "_runspaces", v)
                silent = v == (lo if kind == "min" else hi)
            elif kind == "reset":
                answer, silent, fn = r.random() < 0.6, False, pool.reset_runspace_state
            else:
                answer, silent, fn = r.choice([0, 1, 2, 7, 2**31]), False, pool.get_available_runspaces
            plan.update(kind=kind, answer=answer, drop=None if silent else drop)
            trace.append((kind, v, answer, drop))
            err = res = None
            try:
                res = fn()
            except Violation:
                raise
            except Exception as e:
                err = e
            if silent:
                case.check(err is None, "wrong-outcome", lambda: repr(err))
                case.eq(len(s.log), nreq, "sent-for-the-same-value", "requests")
                case.ctx.count("silent")
                state(trace[-1])
                continue
            case.eq(len(seen), n + 1, "request-count", "messages sent for %s" % (trace[-1],))
            name, d, ci = seen[-1]
            case.eq(name, REQ[kind][0], "request-type", kind)
            if v is not None:
                case.eq(d.get(REQ[kind][1]).val, v, "request-value", kind)
                case.eq(d.get(REQ[kind][1]).tag, "I32", "request-value", kind)
            if drop:
                case.eq(type(err).__name__, "WSManFaultError" if drop == "fault" else "ConnectionError", "wrong-outcome", "%s" % (trace[-1],))
                case.ctx.count("abandoned_calls")
            elif kind == "get":
                case.check(err is None, "wrong-outcome", lambda: repr(err))
                case.eq(res, answer, "available", "runspaces")
            elif answer:
                case.check(err is None, "wrong-outcome", lambda: "accepted %s raised %r after %s" % (trace[-1], err, trace[-6:]))
                if v is not None:
                    lo, hi = (v, hi) if kind == "min" else (lo, v)
                case.ctx.count("accepted")
            else:
                case.check(isinstance(err, InvalidPSRPOperation), "wrong-outcome", lambda: "refused %s: %r" % (trace[-1], err))
                case.ctx.count("refused")
            state(trace[-1])
            # drain what came behind the response and see that nothing was lost
            while any(isinstance(x, bytes) for x in sh.queue):
                plan.update(kind="get", answer=5, drop=None)
                case.eq(pool.get_available_runspaces(), 5, "available", "while draining")
                trace.append("drain")
            state("draining")
            case.check(len(pool.user_events) == len(w.events), "message-lost", lambda: "%d of %d user events after %s" % (
                len(pool.user_events), len(w.events), trace[-6:]))
        for g, e in zip(pool.user_events, w.events):
            case.check(e.differs(g) is None, "event-content", lambda: e.differs(g))
        pool.close()
    case.note(calls=trace, limits=s.report_limits)
    case.key(trace)


def long_case(case):
    """Many calls on one pool: every identifier is new."""
    r = case.rng
    s = make(case)
    ids = {}

    def on_pool(sh, m):
        d = s.model(sh, m)
        ci = s.ci(d)
        case.check(ci not in ids, "identifier-used-twice", lambda: "%r in call %d" % (ci, len(ids)))
        ids[ci] = m.name
        s.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(len(ids) if m.name == "GET_AVAILABLE_RUNSPACES" else True, ci))
        return True
    s.on_pool = on_pool
    with Net(s) as net:
        pool = open_pool(net)
        for i in range(case.item):
            k = r.random()
            if k < 0.8:
                case.eq(pool.get_available_runspaces(), len(ids), "available", "call %d" % i)
            elif k < 0.9:
                pool.max_runspaces = i + 2
                case.eq(pool.max_runspaces, i + 2, "limits", "call %d" % i)
            else:
                pool.reset_runspace_state()
        pool.close()
    case.ctx.count("long_sessions")
    case.key(case.item, len(ids))


def main(ctx):
    ctx.rule("random sequences of pool calls accepted, refused or interrupted by the scripted server, with late, foreign and unrelated messages before and "
             "after the response that counts; per call the result, the reported limits, the request and its identifier are checked; distinct: call "
             "sequence with answers.")
    ctx.each("calls", 280, 12000, case_)
    ctx.each("long", [300], [300, 1100, 66000], long_case)
    for k in ("accepted", "refused", "silent", "abandoned_calls", "late_responses", "foreign_responses"):
        ctx.require(k, 5)
