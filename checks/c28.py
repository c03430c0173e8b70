"""C28: what a pool's creation says on the wire, decoded, against what was asked for; and what the client takes over against what the server sent."""
import requests

from checks.c10 import host_check, some_host
from psrpmon import clixml, gen, msgs, values, wsmv
from psrpmon.clixml import Map, P
from psrpmon.core import Violation, short
from psrpmon.server import Drop, Net, connection
from psrpmon.session import make, sprinkle

PRIM_DICT = ["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"]
THREADS = "System.Management.Automation.Runspaces.PSThreadOptions"
APARTMENT = "System.Management.Automation.Runspaces.ApartmentState"
CONFIG = ["Microsoft.PowerShell", "Microsoft.PowerShell", "JEA.Role", "PowerShell.7", "x" * 200, "r\u00f4le & <co>"]


def arguments(r, big):
    k = r.random()
    if k < 0.25:
        return None, None
    n = r.choice([0, 1, 2, 5, 12]) if k < 0.9 else 60
    py, prs, used = {}, [], set()
    for _ in range(n):
        kn = gen.prim(r, ["S"], 0.5)
        if kn.val in used:
            continue
        used.add(kn.val)
        v, m = values.value(r, r.choice([0, 0, 1, 2]))
        py[kn.val] = v
        prs.append((kn, m))
    if big and r.random() < 0.5:
        size = r.choice([20000, 110000, 113000, 120000, 200000, 330000, 500000]) + r.randint(-3000, 3000)
        t = "".join(r.choice("abc\u00e9\u4e2d") for _ in range(50)) * (size // 50)
        py["big"] = t
        prs.append((P("S", "big"), P("S", t)))
    return py, Map(prs, PRIM_DICT)


def private(r):
    prs, used = [], set()
    for _ in range(r.choice([0, 1, 3, 8])):
        kn = gen.prim(r, ["S"], 0.5)
        if kn.val in used:
            continue
        used.add(kn.val)
        prs.append((kn, values.received(r, r.choice([0, 1, 2]))))
    return Map(prs, PRIM_DICT)


def enum_check(case, o, type_, value, what):
    case.check(o.types[:1] == [type_], what, lambda: "type names %s" % (o.types,))
    case.check(len(o.base) == 1 and o.base[0].tag == "I32", what, lambda: short(o))
    case.eq(o.base[0].val, value, what)


def newer(proto, than=(2, 2)):
    v = [int(x) for x in proto.split(".")]
    return v + [0] * (2 - len(v)) >= list(than)


class Asked:
    pass


def one_pool(case, s, conn, big):
    """Creates and opens one pool; everything about it is checked."""
    from pypsrp.complex_objects import ApartmentState, PSThreadOptions
    from pypsrp.exceptions import InvalidPSRPOperation, WSManFaultError
    from pypsrp.powershell import RunspacePool
    r = case.rng
    a = Asked()
    a.host = some_host(r)
    a.lo = r.choice([1, 1, 2, 5, 2**31 - 1])
    a.hi = r.choice([a.lo, a.lo, 5, 2**31 - 1])
    a.threads = r.choice([PSThreadOptions.DEFAULT, PSThreadOptions.USE_NEW_THREAD, PSThreadOptions.REUSE_THREAD, PSThreadOptions.USE_CURRENT_THREAD])
    a.apartment = r.choice([ApartmentState.UNKNOWN, ApartmentState.MTA, ApartmentState.STA])
    a.config = r.choice(CONFIG)
    a.no_profile = r.random() < 0.3
    a.idle = r.choice([None, None, 60, 7200, 90000])
    kw = {}
    if a.threads != PSThreadOptions.DEFAULT or r.random() < 0.5:
        kw["thread_options"] = a.threads
    if a.apartment != ApartmentState.UNKNOWN or r.random() < 0.5:
        kw["apartment_state"] = a.apartment
    if a.host is not None:
        kw["host"] = a.host
    if a.no_profile:
        kw["no_profile"] = True
    if a.idle is not None:
        kw["idle_timeout"] = a.idle
    late = r.random() < 0.2
    pool = RunspacePool(conn, configuration_name=a.config, **kw) if late else RunspacePool(
        conn, configuration_name=a.config, min_runspaces=a.lo, max_runspaces=a.hi, **kw)
    if late:
        pool.max_runspaces = a.hi
        pool.min_runspaces = a.lo
    args, model = arguments(r, big)
    before = values.snapshot(args) if args is not None else None

    # ------------------------------------------------ what the server is going to say
    proto = r.choice(["2.0", "2.1", "2.2", "2.3", "2.3", "2.10", "3.0"])
    ps, ser = r.choice(["2.0", "5.1.17763.1", "7.4.0"]), r.choice(["1.1.0.1", "1.1.0.2"])
    limits = r.choice([None, (a.lo, a.hi), (1, 3), (7, 2**31 - 1)])
    priv = private(r) if r.random() < 0.85 else None
    end = r.choice([2] * 8 + [5, 3])
    err = msgs.error_record(r) if end == 5 and r.random() < 0.8 else None
    events = []
    old_size = conn.max_envelope_size

    def on_open(sh):
        s.push(sh, "SESSION_CAPABILITY", msgs.session_capability(proto, ps, ser))
        rest = []
        if limits is not None:
            rest.append(("RUNSPACEPOOL_INIT_DATA", msgs.init_data(*limits)))
        if priv is not None:
            rest.append(("APPLICATION_PRIVATE_DATA", msgs.private_data(priv)))
        for _ in range(r.choice([0, 0, 0, 1])):
            e = msgs.user_event(r)
            events.append(e)
            rest.append(("USER_EVENT", e.node))
        r.shuffle(rest)
        for t, n in rest:
            s.push(sh, t, n)
        s.push(sh, "RUNSPACEPOOL_STATE", msgs.pool_state(end, err.node if err is not None else None))
        sprinkle(sh, r, 0.15, ("E", "B"))
        return True
    s.on_open = on_open

    mine = []
    plan = {"fail": r.choice([None] * 7 + ["fault", "drop"])}

    def hook(req):
        if req.action in ("Create", "Send", "Receive"):
            want = 0 if req.action == "Create" else 6
            case.check(pool.state == want, "state-while-opening", lambda: "the pool's state is %s when %s is sent" % (pool.state, req.action))
            mine.append(req)
        if req.action == "Create" and plan["fail"]:
            how, plan["fail"] = plan["fail"], None
            if how == "fault":
                return wsmv.fault(req, 5, "Access is denied.")
            raise Drop(requests.exceptions.ConnectionError("refused"))
        return None
    s.before = hook
    if plan["fail"]:
        n = len(s.all_shells)
        try:
            pool.open(application_arguments=args)
            raise Violation("failure-swallowed", "the Create request failed, open() returned")
        except (WSManFaultError, requests.exceptions.ConnectionError):
            pass
        case.eq(pool.state, 0, "state-after-refused-open", "")
        k = len(s.log)
        pool.close() if r.random() < 0.3 else None
        case.check(len(s.log) == k and len(s.all_shells) == n, "sent-for-unopened-pool", lambda: short([x.action for x in s.log[k:]]))
        case.ctx.count("refused_opens")
        if pool.state != 0:
            s.before = None
            return None
        del mine[:]
    failed = None
    try:
        if args is None and r.random() < 0.3:
            pool.__enter__()
        else:
            pool.open(application_arguments=args) if args is not None or r.random() < 0.5 else pool.open()
    except InvalidPSRPOperation as e:
        failed = e
    s.before = None

    # ------------------------------------------------ what was sent
    case.check([x.action for x in mine].count("Create") == 1 and mine[0].action == "Create", "create-requests", lambda: short([x.action for x in mine]))
    req = mine[0]
    sh = s.all_shells[-1]
    case.eq(req.uri, "http://schemas.microsoft.com/powershell/" + a.config, "resource-uri", "")
    case.eq(req.options, [("protocolversion", "2.3", {"MustComply": "true"})] + ([("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"})] if a.no_profile else []),
            "create-options", "")
    shell = req.find("rsp:Shell")
    case.eq(shell.attrib.get("ShellId"), pool.id, "shell-id", "")
    case.eq([(e.tag, e.text) for e in shell if e.tag != wsmv.q("pwsh:creationXml")],
            [(wsmv.q("rsp:InputStreams"), "stdin pr"), (wsmv.q("rsp:OutputStreams"), "stdout")] +
            ([(wsmv.q("rsp:IdleTimeOut"), "PT%dS" % a.idle)] if a.idle is not None else []), "shell-elements", "")
    case.check([m.name for m in sh.msgs] == ["SESSION_CAPABILITY", "INIT_RUNSPACEPOOL"], "create-messages", lambda: short(sh.msgs))
    case.check(all(m.rpid == sh.msgs[0].rpid and str(m.rpid).upper() == pool.id for m in sh.msgs), "pool-id", "")
    case.check(all(m.pid is None or set(str(m.pid)) <= set("0-") for m in sh.msgs), "pipeline-id", "")
    cap = s.model(sh, sh.msgs[0])
    d = clixml.diff(cap, msgs.session_capability("2.3", "2.0", "1.1.0.1"))
    case.check(d is None, "capability", lambda: str(d))
    init = s.model(sh, sh.msgs[1])
    for n, v in (("MinRunspaces", a.lo), ("MaxRunspaces", a.hi)):
        d = clixml.diff(init.get(n), P("I32", v))
        case.check(d is None, "limits-asked", lambda: "%s: %s" % (n, d))
    enum_check(case, init.get("PSThreadOptions"), THREADS, a.threads, "thread-options")
    enum_check(case, init.get("ApartmentState"), APARTMENT, a.apartment, "apartment-state")
    host_check(case, init.get("HostInfo"), a.host)
    got = init.get("ApplicationArguments") if init.has("ApplicationArguments") else P("Nil")
    d = clixml.diff(got, model if model is not None else P("Nil"))
    case.check(d is None, "application-arguments", lambda: str(d))
    if isinstance(got, Map):
        case.eq(list(got.types or []), PRIM_DICT, "application-arguments", "type names")
    if args is not None:
        case.check(values.snapshot(args) == before, "caller-arguments-modified", "")
    sends = [x for x in mine if x.action == "Send"]
    for x in mine:
        case.check(len(x.raw) <= old_size, "over-the-limit", lambda: "%s of %d bytes, the limit is %d" % (x.action, len(x.raw), old_size))
        case.check(x.action == "Create" or x.shell_id.upper() == sh.id, "wrong-shell", lambda: str(x.selectors))
    order = [x.action for x in mine[1:]]
    case.check(order == sorted(order, reverse=True), "polled-before-sent", lambda: short(order))
    if sends:
        case.ctx.count("opens_in_several_requests")

    # ------------------------------------------------ what was taken over
    case.eq(pool.state, end, "state-after-open", "")
    if end == 5:
        case.check(failed is not None, "broken-pool-swallowed", "")
        if err is not None:
            case.check(gen.norm_pairs(err.node.tostr) in gen.norm_pairs(str(failed)), "broken-pool-reason", lambda: "%r does not tell %r" % (str(failed), err.node.tostr))
        case.ctx.count("broken_pools")
    else:
        case.check(failed is None, "open-failed", lambda: repr(failed))
    case.eq((pool.protocol_version, pool.ps_version, pool.serialization_version), (proto, ps, ser), "versions", "")
    case.eq((pool.min_runspaces, pool.max_runspaces), tuple(limits) if limits is not None else (a.lo, a.hi), "limits-taken-over", "")
    if priv is None:
        case.check(pool.application_private_data is None, "private-data", "none was sent")
    else:
        case.check(pool.application_private_data is not None, "private-data", "missing")
        d = clixml.match(pool.application_private_data.data, priv)
        case.check(d is None, "private-data", lambda: str(d))
    case.check(len(pool.user_events) == len(events), "user-events", lambda: "%d of %d" % (len(pool.user_events), len(events)))
    for g, w in zip(pool.user_events, events):
        d = w.differs(g)
        case.check(d is None, "user-events", lambda: str(d))
    size = 512000 if newer(proto) and old_size == 153600 else old_size
    case.eq(conn.max_envelope_size, size, "envelope-size", "protocol %s, %d before" % (proto, old_size))
    if size != old_size:
        case.ctx.count("enlarged")
    if end != 2:
        n = len(s.log)
        if end == 5:
            pool.close()
            case.eq(len(s.log), n, "sent-for-broken-pool", "")
        return None
    n = len(s.log)
    pool.open()
    case.eq(len(s.log), n, "opened-twice", "requests for a second open()")
    case.ctx.count("opened")
    case.ctx.count("host_kinds", a.host is not None)
    if args is not None and len(args):
        case.ctx.count("with_arguments")
    return pool, sh, limits, size


def case_(case, big=False):
    r = case.rng
    s = make(case)
    s.own_shell_ids = r.random() < 0.2
    limit = r.choice([153600] * 4 + [512000, 60000, 200000])
    opened = []
    with Net(s):
        kw = {} if limit == 153600 and r.random() < 0.7 else {"max_envelope_size": limit}
        conn = connection(s.host, **kw)
        for i in range(1 if big else r.choice([1, 1, 2, 3])):
            x = one_pool(case, s, conn, big)
            if x is not None:
                opened.append(x)
        r.shuffle(opened)
        for pool, sh, limits, size in opened:
            case.check(pool.state == 2, "state-after-open", "later")
            if r.random() < 0.7:
                work(case, s, conn, pool, sh, big, size)
            n = len(s.log)
            pool.close()
            case.check([(x.action, x.shell_id.upper()) for x in s.log[n:]] == [("Delete", sh.id)], "close-requests", lambda: short([(x.action, x.selectors) for x in s.log[n:]]))
    case.note(pools=len(opened), limit=limit, requests=len(s.log))
    case.key([(len(x[1].msgs), x[2]) for x in opened], limit, len(s.log))


def work(case, s, conn, pool, sh, big, size):
    """The pool takes work, in messages of the size negotiated."""
    from pypsrp.powershell import PowerShell
    r = case.rng
    s.on_pipeline = lambda cmd: s.finish(cmd)
    text = "x" * r.choice([10, 300000, 900000] if big or r.random() < 0.15 else [10, 3000])
    n = len(s.log)
    PowerShell(pool).add_script(text).invoke()
    reqs = s.log[n:]
    case.check(all(x.shell_id.upper() == sh.id for x in reqs), "wrong-shell", lambda: short([x.selectors for x in reqs]))
    for x in reqs:
        case.eq(x.max_size, str(conn.max_envelope_size), "declared-envelope-size", x.action)
        case.check(len(x.raw) <= conn.max_envelope_size, "over-the-limit", lambda: "%s of %d bytes" % (x.action, len(x.raw)))
    if len(text) > 10000:
        big_ones = [len(x.raw) for x in reqs if x.action in ("Command", "Send")]
        # the bytes cannot all be there in fewer, and need not be in more, envelopes of this size
        if len(big_ones) > 1:
            case.check(min(big_ones[:-1]) > size - 6000, "envelope-not-used",
                       lambda: "requests of %s bytes, the limit is %d" % (big_ones, conn.max_envelope_size))
            case.ctx.count("large_messages")
    d = s.model(sh, sh.last_command.create)
    case.check(d.get("PowerShell").get("Cmds").items[0].get("Cmd").val == text, "script", "changed")


def big_case(case):
    case_(case, True)


def main(ctx):
    ctx.rule("random pool options, hosts and application arguments up to several envelopes; random protocol versions, limits, private data and end states of the "
             "negotiation, cut into fragments and responses at random with empty polls between; one to three pools on one connection. distinct: messages, limits and "
             "number of requests.")
    ctx.assumptions.append("the negotiation ends with a pool state; operation time-outs of pool polls are left out (C18)")
    ctx.each("open", 180, 20000, case_)
    ctx.each("large", 20, 1500, big_case)
    for k, n in [("opened", 100), ("broken_pools", 4), ("enlarged", 20), ("opens_in_several_requests", 1), ("refused_opens", 10), ("with_arguments", 50),
                 ("large_messages", 5)]:
        ctx.require(k, n)
