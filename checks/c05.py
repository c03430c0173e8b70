"""C05: confidentiality and exactness monitor on secure strings, with the peer's own key on the server side."""
import base64

from psrpmon import clixml, gen, msgs, values
from psrpmon.clixml import Map, Obj, P, Seq
from psrpmon.core import short
from psrpmon.server import Net
from psrpmon.session import make, open_pool

CRED_T = ["System.Management.Automation.PSCredential", "System.Object"]


def secret(case):
    """A text with a core that can be searched for."""
    r = case.rng
    core = "k%012xZ" % r.getrandbits(48)
    if r.random() < 0.08:
        return ""
    t = r.choice(["", gen.txt(r), gen.txt(r)]) + core + r.choice(["", gen.txt(r), gen.txt(r), "é" * r.choice([1, 7, 8, 9, 500])])
    t = "".join(c for c in t if not 0xD800 <= ord(c) < 0xE000)
    case.cores.append(core)
    return t


def secure_value(case, depth):
    """(python value, model) with at least one secure string in it."""
    from pypsrp.complex_objects import GenericComplexObject, PSCredential
    from pypsrp.serializer import TaggedValue
    r = case.rng
    k = r.random()
    if depth <= 0 or k < 0.45:
        t = secret(case)
        if r.random() < 0.3:
            u = gen.txt(r)
            return (PSCredential(username=u, password=t),
                    Obj(list(CRED_T), "System.Management.Automation.PSCredential", (), [("UserName", P("S", u)), ("Password", P("SS", t))], []))
        return TaggedValue("SS", t), P("SS", t)
    n = r.choice([1, 2, 3])
    parts = [secure_value(case, depth - 1) if i == 0 or r.random() < 0.4 else values.value(r, depth - 1) for i in range(n)]
    r.shuffle(parts)
    if k < 0.7:
        return [p for p, _ in parts], Seq("LST", [m for _, m in parts], values.LIST_T)
    if k < 0.85:
        return {"k%d" % i: p for i, (p, _) in enumerate(parts)}, Map([(P("S", "k%d" % i), m) for i, (_, m) in enumerate(parts)], values.DICT_T)
    g, o = GenericComplexObject(), Obj()
    for i, (p, m) in enumerate(parts):
        g.extended_properties["p%d" % i] = p
        o.ms.append(("p%d" % i, m))
    return g, o


def no_plaintext(case, s):
    for core in case.cores:
        pats = [core.encode(), core.encode("utf-16-le"), core.encode("utf-16-be"), core[::-1].encode()]
        pats += [base64.b64encode((b"\0\0\0" + core.encode())[3 - i:])[4:-4] for i in range(3)]
        for c in s.calls:
            for p in pats:
                case.check(p not in c["raw"], "plaintext-sent", lambda: "%r in request %s" % (core, c["req"]))
        for sh in s.all_shells:
            for m in sh.msgs:
                for p in pats:
                    case.check(p not in m.data, "plaintext-sent", lambda: "%r in %r" % (core, m))


def keys_sent(s, sh):
    return [m for m in sh.msgs if m.name == "PUBLIC_KEY"]


def key_server(case, ask, **kw):
    """ask: when the server requests the exchange itself."""
    r = case.rng
    s = make(case, **kw)
    case.noise = []

    def opened(sh):
        if ask == "open":
            s.opened_done = True
            s.on_open = None
            s.opened(sh)
            for _ in range(r.choice([1, 1, 2])):
                s.push(sh, "PUBLIC_KEY_REQUEST", P("S", ""))
            return True
    s.on_open = opened

    def on_pool(sh, m):
        if m.name == "PUBLIC_KEY":
            for _ in range(r.choice([0, 0, 1, 2])):
                if r.random() < 0.5:
                    sh.queue.append((r.choice("EB"),))
                else:
                    ev = msgs.user_event(r)
                    case.noise.append(ev)
                    s.push(sh, "USER_EVENT", ev.node)
            if ask == "during" or r.random() < 0.2:
                s.push(sh, "PUBLIC_KEY_REQUEST", P("S", ""))
            s.exchange(sh, m)
            return True
        if m.name == "GET_AVAILABLE_RUNSPACES" and ask == "call":
            if r.random() < 0.5:
                s.push(sh, "PUBLIC_KEY_REQUEST", P("S", ""))
                s.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(1, s.ci(s.model(sh, m))))
            else:
                s.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(1, s.ci(s.model(sh, m))))
                s.push(sh, "PUBLIC_KEY_REQUEST", P("S", ""))
                sh.queue.append(("B",))
            return True
    s.on_pool = on_pool
    return s


def exchanged(case):
    """Secure strings in both directions after the exchange."""
    r = case.rng
    from pypsrp.host import PSHost, PSHostUserInterface
    from pypsrp.complex_objects import ObjectMeta, PSCredential
    from pypsrp.powershell import PowerShell
    case.cores = []
    ask = r.choice(["no", "no", "open", "call", "during"])
    s = key_server(case, ask)
    answers = []

    class UI(PSHostUserInterface):
        def ReadLineAsSecureString(self, runspace, pipeline):
            t = secret(case)
            answers.append(P("SS", t))
            return runspace.serialize(t, ObjectMeta("SS"))

        def PromptForCredential1(self, runspace, pipeline, caption, message, user, target):
            t, u = secret(case), gen.txt(r)
            answers.append(Obj(list(CRED_T), "System.Management.Automation.PSCredential", (), [("UserName", P("S", u)), ("Password", P("SS", t))], []))
            return PSCredential(username=u, password=t)
    host = PSHost(None, None, False, "h", None, UI(), "1.0") if r.random() < 0.6 else None
    sent_back = {}
    host_answers = []

    def on_input(cmd, m):
        if m is not None:
            return
        calls = r.choice([0, 1, 2]) if host is not None else 0
        for i in range(calls):
            if r.random() < 0.5:
                s.push(cmd, "PIPELINE_HOST_CALL", msgs.host_call(i + 1, 12, []))
            else:
                s.push(cmd, "PIPELINE_HOST_CALL", msgs.host_call(i + 1, 24, [P("S", gen.txt(r)) for _ in range(4)]))
        cmd.calls = calls
        back = []
        for _ in range(r.choice([1, 2, 3])):
            t = secret(case)
            if r.random() < 0.5:
                n = P("SS", t)
            elif r.random() < 0.5:
                n = Obj(list(CRED_T), "System.Management.Automation.PSCredential", (), [("UserName", P("S", "u")), ("Password", P("SS", t))], [])
            else:
                n = Seq("LST", [P("S", "x"), P("SS", t), P("SS", secret(case))], ["System.Object[]", "System.Array", "System.Object"])
            back.append((n, t))
            s.push(cmd, "PIPELINE_OUTPUT", n)
        sent_back[cmd.id] = back
        s.finish(cmd)
    s.on_input = on_input
    with Net(s) as net:
        pool = open_pool(net, host=host)
        sh = s.all_shells[0]
        if ask == "open":
            # the request is read with the next messages of the pool, if not with the opening ones
            if not keys_sent(s, sh):
                pool.get_available_runspaces()
        elif ask == "call":
            pool.get_available_runspaces()
            if not keys_sent(s, sh):
                pool.get_available_runspaces()
        if ask in ("open", "call"):
            case.check(len(keys_sent(s, sh)) == 1, "requested-exchange", "the server's request was answered %d times" % len(keys_sent(s, sh)))
            case.ctx.count("requested_by_server")
        for _ in range(r.choice([1, 1, 2, 3])):
            pool.exchange_keys()
        case.check(len(keys_sent(s, sh)) == 1, "exchange-count", lambda: "%d public keys sent" % len(keys_sent(s, sh)))
        case.check(sh.public_key not in case.ctx.__dict__.setdefault("keys", set()), "key-pair-reused", short(sh.public_key))
        case.ctx.keys.add(sh.public_key)
        for n in range(r.choice([1, 2])):
            ps = PowerShell(pool).add_cmdlet("c")
            args, items = [], []
            for _ in range(gen.few(r, [1, 2, 3], [60], 0.03)):
                v, m = secure_value(case, r.choice([0, 0, 1, 2]))
                ps.add_parameter("p", v)
                args.append(m)
            its = [secure_value(case, r.choice([0, 1])) for _ in range(r.choice([1, 2]))]
            del answers[:]
            out = ps.invoke([v for v, _ in its])
            cmd = sh.last_command
            got = s.model(sh, cmd.create).get("PowerShell").get("Cmds").items[0].get("Args").items
            case.eq(len(got), len(args), "secure-content", "parameters")
            for i, (g, w) in enumerate(zip(got, args)):
                d = clixml.diff(g.get("V"), w)
                case.check(d is None, "secure-content", lambda: "parameter %d: %s" % (i, d))
            case.eq(len(cmd.inputs), len(its), "secure-content", "input objects")
            for i, (m, (_, w)) in enumerate(zip(cmd.inputs, its)):
                d = clixml.diff(s.model(sh, m), w)
                case.check(d is None, "secure-content", lambda: "input %d: %s" % (i, d))
            back = sent_back[cmd.id]
            case.eq(len(out), len(back), "secure-received", "objects")
            for g, (w, t) in zip(out, back):
                if isinstance(w, Obj):
                    case.eq((g.username, g.password), ("u", t), "secure-received", "credential")
                else:
                    d = clixml.match(g, w)
                    case.check(d is None, "secure-received", lambda: d)
            case.eq(len(cmd.host_responses), cmd.calls, "secure-host-answer", "responses")
            for m, w in zip(cmd.host_responses, answers):
                d = clixml.diff(s.model(sh, m).get("mr"), w)
                case.check(d is None, "secure-host-answer", lambda: d)
                case.ctx.count("host_secrets")
            case.ctx.count("secrets", len(case.cores))
        pool.exchange_keys()
        case.check(len(keys_sent(s, sh)) == 1, "exchange-count", lambda: "%d public keys sent" % len(keys_sent(s, sh)))
        pool.close()
        no_plaintext(case, s)
        case.note(ask=ask, secrets=len(case.cores), host=host is not None)
        case.key(ask, case.index)


def before(case):
    """No secure string leaves before the exchange."""
    r = case.rng
    from pypsrp.exceptions import SerializationError
    from pypsrp.powershell import PowerShell
    case.cores = []
    s = key_server(case, "no")
    s.on_pipeline = lambda cmd: s.finish(cmd)
    with Net(s) as net:
        pool = open_pool(net)
        ps = PowerShell(pool).add_cmdlet("c")
        v, _ = secure_value(case, r.choice([0, 1, 2]))
        how = r.choice(["parameter", "argument", "input", "generator", "serialize"])
        n = len(s.log)
        arg = None
        if how == "parameter":
            ps.add_parameter("a", values.value(r, 1)[0]).add_parameter("p", v)
        elif how == "argument":
            ps.add_argument(v)
        elif how == "input":
            arg = [values.value(r, 1)[0], v]
        elif how == "generator":
            arg = (x for x in [[1], [v]])
        err = None
        try:
            if how == "serialize":
                pool.serialize(v)
            else:
                ps.begin_invoke(arg)
        except SerializationError as e:
            err = e
        case.check(err is not None, "sent-before-exchange", lambda: "%s: no error, requests %s" % (how, s.log[n:]))
        if how in ("parameter", "argument", "serialize"):
            case.check(len(s.log) == n, "sent-before-exchange", lambda: "%s: %s" % (how, s.log[n:]))
        case.check(not keys_sent(s, s.all_shells[0]), "exchange-count", "an exchange started by itself")
        no_plaintext(case, s)
        if how in ("parameter", "argument") and r.random() < 0.15:
            pool.exchange_keys()  # the same call works afterwards
            ps.invoke()
            case.ctx.count("retried_after_exchange")
            no_plaintext(case, s)
        case.ctx.count("refused_before")
        case.note(how=how)
        case.key(how, case.index)
        pool.close()


def silent(case):
    """A server that never sends a session key."""
    r = case.rng
    from pypsrp.exceptions import InvalidPSRPOperation
    case.cores = []
    limit = r.choice([0, 1, 1000, 19000, 21000, 60000, 200000])
    s = make(case)
    s.on_pool = lambda sh, m: m.name == "PUBLIC_KEY"

    def idle(target, req):
        if target is s.all_shells[0] and r.random() < 0.3:
            s.push(target, "USER_EVENT", msgs.user_event(r).node)
    s.on_idle = idle
    with Net(s) as net:
        pool = open_pool(net, session_key_timeout_ms=limit)
        t0, polls = net.clock.skew, s.all_shells[0].polls
        err = None
        try:
            pool.exchange_keys()
        except InvalidPSRPOperation as e:
            err = e
        case.check(err is not None, "exchange-time-out", "no error")
        waited = net.clock.skew - t0
        case.check(waited * 1000 >= limit - 1, "exchange-time-out", lambda: "gave up after %.1f s of %d ms" % (waited, limit))
        idle_polls = sum(1 for q in s.log if q.action == "Receive") - polls
        case.check(waited <= limit / 1000 + 21, "exchange-time-out", lambda: "waited %.1f s for a limit of %d ms" % (waited, limit))
        case.ctx.count("timed_out")
        case.note(limit=limit, waited=waited, polls=idle_polls)
        case.key(limit, idle_polls)
        pool.close()


def main(ctx):
    ctx.rule("sessions whose server issues its own session key, at the client's or the server's request, with secure strings and credentials in parameters, "
             "input, host answers and output; everything sent is decrypted and compared, and searched for the plaintext; distinct: one session each.")
    ctx.each("exchanged", 70, 1800, exchanged)
    ctx.each("before", 60, 1500, before)
    ctx.each("silent", 12, 200, silent)
    for k in ("requested_by_server", "host_secrets", "refused_before", "timed_out", "retried_after_exchange"):
        ctx.require(k)
