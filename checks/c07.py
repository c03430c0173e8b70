"""C07: delivery monitor under hostile fragmentation: every message once, whole, when its last fragment arrives; damaged sequences rejected."""
import uuid

from psrpmon import clixml, gen, msgs, psrp, values
from psrpmon.clixml import P
from psrpmon.core import short
from psrpmon.server import Net
from psrpmon.session import make, open_pool


def merge(r, lists, style):
    """One sequence keeping the order within each list."""
    lists = [list(x) for x in lists if x]
    out = []
    cur = 0
    while lists:
        if style == "one-by-one":
            cur = 0
        elif style == "round-robin":
            cur = (cur + 1) % len(lists)
        else:
            cur = r.randrange(len(lists)) if style == "any" or r.random() < 0.4 else min(cur, len(lists) - 1)
        out.append(lists[cur].pop(0))
        if not lists[cur]:
            del lists[cur]
            cur = 0
    return out


def payload(r, tiny, big=False):
    k = r.random()
    if k < 0.5:
        return values.received(r, r.choice([0, 1] if tiny else [0, 1, 2]))
    if tiny:
        return P("S", r.choice(["x", "é", "日", "ab"]) * r.choice([1, 100]))
    if k > 0.8 and big:
        return P("S", r.choice(["x", "日", "ab"]) * r.choice([65400, 65536, r.randint(60000, 150000)]))
    return P("S", r.choice(["x", "é", "日", "ab"]) * r.choice([1, 100, 1000, r.randint(0, 20000)]))


class Feed:
    """The fragments of one pipeline, and which messages are complete once n of them are out."""

    def __init__(self, s, cmd, r, ctx):
        self.cmd = cmd
        frs, self.models = [], []
        jump = r.choice([0, 0, 2**8, 2**16, 2**32, 2**32, 2**48])
        for i in range(r.choice([1, 2, 3, 4, 6])):
            m = payload(r, s.tiny, s.big)
            if jump and cmd.shell.next_oid < 2**62:
                cmd.shell.next_oid += jump - 1
            if r.random() < 0.3:
                rec = msgs.record(r, r.choice(["error", "verbose", "progress"]))
                self.models.append((rec.kind, rec))
                fr = s.push(cmd, msgs.RECORD_TYPE[rec.kind], rec.node)
            else:
                self.models.append(("output", m))
                fr = s.push(cmd, "PIPELINE_OUTPUT", m)
            frs.append([(f, i, j == len(fr) - 1) for j, f in enumerate(fr)])
        style = r.choice(["one-by-one", "round-robin", "any", "runs"])
        seq = merge(r, frs, style)
        cmd.queue[:] = [f for f, _, _ in seq]
        self.seq = seq
        s.finish(cmd)
        self.total = len(cmd.queue)
        self.style = style
        ctx.count("interleaved_messages", style != "one-by-one" and sum(len(x) > 1 for x in frs))
        ctx.count("fragments", len(seq))

    def done(self):
        handed = self.total - len(self.cmd.queue)
        return [self.models[i] for f, i, last in self.seq[:handed] if last]


def hostile_frag(s, r):
    k = r.random()
    s.tiny = k < 0.1
    s.big = k > 0.93
    if s.tiny:
        s.frag = lambda: 1 if r.random() < 0.5 else 3
    elif s.big:
        n = r.choice([32768, 65535, 65536, 65600, 131072, 10**6])
        s.frag = lambda: n
    elif k < 0.5:
        n = r.choice([20, 21, 39, 40, 41, 43, 100, 999])
        s.frag = lambda: n
    else:
        s.frag = lambda: r.choice([0, 1, 2, 40, 41, 60, 300, 2000, 2000])


def setup(case):
    r = case.rng
    s = make(case)
    hostile_frag(s, r)

    def on_open(sh):
        sh.next_oid = r.choice([1, 1, 2, 255, 2**31, 2**32 - 2, 2**40 + 5, 2**63, 2**64 - 200000])
    s.on_open = on_open
    return s


def valid_case(case):
    r = case.rng
    from pypsrp.powershell import PowerShell
    s = setup(case)
    feeds = {}
    s.on_pipeline = lambda cmd: feeds.__setitem__(cmd.pid, Feed(s, cmd, r, case.ctx))
    with Net(s) as net:
        pool = open_pool(net)
        pss = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ps = PowerShell(pool).add_script("x")
            ps.begin_invoke()
            pss.append(ps)
        live = list(pss)
        polls = 0
        while live:
            ps = r.choice(live)
            ps.poll_invoke()
            polls += 1
            f = feeds[uuid_of(ps)]
            done = f.done()
            if not f.cmd.queue:
                case.eq(ps.state, 4, "delivered-late", "state once everything has been sent")
            for kind, got in (("output", ps.output), ("error", ps.streams.error), ("verbose", ps.streams.verbose), ("progress", ps.streams.progress)):
                want = [m for k, m in done if k == kind]
                case.check(len(got) == len(want), "delivery-count", lambda: "%s: %d delivered, %d complete after %d of %d fragments" % (
                    kind, len(got), len(want), f.total - len(f.cmd.queue), f.total))
                for i, (g, w) in enumerate(zip(got, want)):
                    d = clixml.match(g, w) if kind == "output" else w.differs(g)
                    case.check(d is None, "delivery-content", lambda: "%s %d: %s" % (kind, i, d))
            for other in pss:
                fo = feeds[uuid_of(other)]
                case.check(len(other.output) == sum(k == "output" for k, _ in fo.done()), "delivery-to-other", "polled another pipeline")
            if ps.state == 4:
                live.remove(ps)
        case.note(styles=[f.style for f in feeds.values()], fragments=[f.total for f in feeds.values()], polls=polls)
        case.key([f.style for f in feeds.values()], [f.total for f in feeds.values()], polls)
        pool.close()


def uuid_of(ps):
    return uuid.UUID(ps.id)


def damaged_case(case):
    """One multi-fragment message with a fragment lost, repeated or moved."""
    r = case.rng
    from pypsrp.exceptions import FragmentError
    from pypsrp.powershell import PowerShell
    s = setup(case)
    st = {}

    def on_pipeline(cmd):
        good = [P("I32", i) for i in range(r.choice([0, 1, 2]))]
        for g in good:
            s.push(cmd, "PIPELINE_OUTPUT", g)
            cmd.queue.append(("B",))
        v = "bad" * r.choice([30, 300, 2000])
        q = cmd.queue[:]
        cmd.queue = []
        fr = s.push(cmd, "PIPELINE_OUTPUT", P("S", v), size=r.choice([40, 41, 100, len(v) // 2 + 10]))
        n = len(fr)
        how = r.choice(["lost", "repeated", "swapped", "reversed", "late", "replaced", "replaced", "renumbered"])
        seq = list(fr)
        if how == "lost":
            i = r.randrange(n - 1) if n > 1 else 0
            del seq[i]
        elif how == "repeated":
            i = r.randrange(n - 1)
            seq.insert(i + 1, seq[i])
        elif how == "replaced":
            # one fragment in the place of another, the number of fragments stays the same
            i = r.choice([0, 0, n - 2, r.randrange(n)])
            j = r.choice([k for k in (i - 1, i + 1, i + 1) if 0 <= k < n])
            seq[j] = seq[i]
        elif how == "renumbered":
            # not the number it has to have, wherever in the eight bytes the difference is
            i = r.randrange(n)
            k = (int.from_bytes(seq[i][8:16], "big") + r.choice([1, 2, 2**8, 2**16, 2**24, 2**31, 2**32, 2**48, 2**63])) % 2**64
            seq[i] = seq[i][:8] + k.to_bytes(8, "big") + seq[i][16:]
        elif how == "swapped":
            i = r.randrange(n - 1)
            seq[i], seq[i + 1] = seq[i + 1], seq[i]
        elif how == "reversed":
            seq.reverse()
        else:
            i = r.randrange(n - 1)
            j = r.randrange(i + 1, n)
            seq.insert(j, seq.pop(i))
        st.update(how=how, n=n, text=v, good=good)
        cmd.queue = q + seq
        s.finish(cmd)
    s.on_pipeline = on_pipeline
    with Net(s) as net:
        pool = open_pool(net)
        ps = PowerShell(pool).add_script("x")
        ps.begin_invoke()
        errors, at = [], None
        for _ in range(3000):
            try:
                ps.poll_invoke()
            except FragmentError as e:
                errors.append(e)
            if not any(isinstance(x, bytes) for x in s.all_shells[0].last_command.queue):
                break
        case.check(errors, "damage-not-reported", lambda: "%(how)s fragment of %(n)d: no error" % st)
        got = [o for o in ps.output if isinstance(o, str)]
        # once the damage was reported a whole message may still arrive (a fragment sent twice), a damaged one never
        case.check(got in ([], [st["text"]]), "damaged-message-delivered", lambda: "%s fragment of %d: delivered %s" % (st["how"], st["n"], short(got)))
        case.check(not got or st["how"] == "repeated", "damaged-message-delivered", lambda: "%s fragment of %d: delivered" % (st["how"], st["n"]))
        case.eq([o for o in ps.output if not isinstance(o, str)], [g.val for g in st["good"]], "delivery-content", "objects before the damage")
        case.ctx.count("damaged_" + st["how"])
        case.note(how=st["how"], fragments=st["n"])
        case.key(st["how"], st["n"], len(errors))
        pool.close()


def identity_case(case):
    """The message header in both directions."""
    r = case.rng
    from pypsrp.messages import Destination, Message, PipelineInput, PipelineOutput, EndOfPipelineInput, SetMaxRunspaces
    from pypsrp.serializer import Serializer
    rp = uuid.UUID(int=r.getrandbits(128))
    pid = uuid.UUID(int=r.getrandbits(128)) if r.random() < 0.7 else None

    def spell(u):
        return None if u is None else r.choice([str(u).upper(), str(u)])
    obj, type_ = r.choice([(PipelineInput(data="x"), "PIPELINE_INPUT"), (EndOfPipelineInput(), "END_OF_PIPELINE_INPUT"),
                           (SetMaxRunspaces(max_runspaces=3, ci=1), "SET_MAX_RUNSPACES")])
    raw = Message(Destination.SERVER, spell(rp), spell(pid), obj, Serializer()).pack()
    m = psrp.parse_message(raw)
    case.eq((m.dest, m.type), (psrp.SERVER, psrp.T[type_]), "identity-sent", "destination and type")
    case.eq(m.rpid, rp, "identity-sent", "pool id")
    case.eq(m.pid or uuid.UUID(int=0), pid or uuid.UUID(int=0), "identity-sent", "pipeline id")
    kind = r.choice(["PIPELINE_OUTPUT", "WARNING_RECORD", "PIPELINE_STATE", "RUNSPACEPOOL_STATE", "USER_EVENT"])
    if kind == "PIPELINE_OUTPUT":
        node = values.received(r, 1)
    elif kind == "WARNING_RECORD":
        node = msgs.record(r, "warning").node
    elif kind == "USER_EVENT":
        node = msgs.user_event(r).node
    else:
        node = (msgs.pipeline_state if kind[0] == "P" else msgs.pool_state)(2)
    dest = psrp.CLIENT
    raw = psrp.message(dest, kind, str(rp), str(pid) if pid else None, msgs.xml(node, r))
    got = Message.unpack(raw, Serializer())
    case.eq((got.destination, got.message_type), (dest, psrp.T[kind]), "identity-read", "destination and type")
    case.eq(uuid.UUID(str(got.rpid)), rp, "identity-read", "pool id")
    case.eq(uuid.UUID(str(got.pid)) if got.pid else uuid.UUID(int=0), pid or uuid.UUID(int=0), "identity-read", "pipeline id")
    case.key(type_, kind, pid is None)


def main(ctx):
    ctx.rule("messages cut into fragments of any size (one byte up), interleaved with those of other messages, spread over streams and responses and over "
             "pipelines polled in turn, with small and huge object ids; after every poll the delivered messages are compared with those completed; the same "
             "with fragments lost, repeated or moved, which must raise and never deliver; distinct: shape of the fragment sequence.")
    ctx.each("valid", 120, 5000, valid_case)
    ctx.each("damaged", 120, 5000, damaged_case)
    ctx.each("identity", 300, 5000, identity_case)
    for k in ("interleaved_messages", "damaged_lost", "damaged_repeated", "damaged_swapped", "damaged_reversed", "damaged_late", "damaged_replaced"):
        ctx.require(k, 3)
