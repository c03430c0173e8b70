"""A scripted WSMan server: PSRP runspace pools and WinRS shells. It records every request and message it reads.

Independent of pypsrp. Test authors script it with `on_*` callbacks; it chooses batching, fragment sizes and stream
splitting with its rng.
"""
import base64
import binascii
import uuid

from . import msgs, wsmv
from .clixml import Decoder, xml_attr, xml_text
from .core import Halt, HarnessError, Violation, short
from .psrp import CLIENT, NAMES, NULL, T, Reassembler, message, split
from .wsmv import BAD_SELECTOR, NS, OP_TIMEOUT, Req, STATE, b64, fault, q, reply

MAX_IDLE = 400


class Drop(Exception):
    """Raised by a hook to make the transport fail: carries the exception the HTTP layer raises."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Target:
    """Something polled with Receive: a pool, a pipeline or a process."""

    def __init__(self):
        self.queue = []  # bytes (one fragment) | ("T",) | ("E",) | ("B",) | ("F", fn(req)) | ("C", fn)
        self.polls = 0
        self.idle = 0
        self.polled_empty = 0


class Command(Target):
    def __init__(self, shell, cid):
        super().__init__()
        self.shell, self.id = shell, cid
        self.pid = None
        self.create = None
        self.model = None
        self.inputs = []
        self.ended = 0
        self.msgs = []
        self.signals = []
        self.host_responses = []
        self.closed = False
        self.final = None
        # WinRS
        self.command = None
        self.arguments = []
        self.skip = None
        self.sends = []
        self.rc = None
        self.done = False


class Shell(Target):
    def __init__(self, sid, uri, req):
        super().__init__()
        self.id, self.uri, self.create = sid, uri, req
        self.psrp = False
        self.commands = {}
        self.inbound = Reassembler()
        self.msgs = []
        self.next_oid = 1
        self.capability = self.init = None
        self.state = "Connected"
        self.rpid = None
        self.public_key = None
        self.key = None
        self.limits = [1, 1]
        self.host_responses = []
        self.connects = []
        self.last_command = None

    def decoder(self):
        from .secure import decryptor
        return Decoder(decryptor(self.key) if self.key else None)


class Server:
    def __init__(self, rng, host="h.test", proto="2.3", ps="5.1.17763.1", ser="1.1.0.1"):
        self.rng, self.host = rng, host
        self.proto, self.ps, self.ser = proto, ps, ser
        self.log = []        # every request read
        self.calls = []      # every HTTP exchange incl. refused ones
        self.shells = {}
        self.gone = []       # ids deleted by a Delete
        self.all_shells = []
        self.private = None
        self.report_limits = None
        self.send_private = True
        self.own_command_ids = False
        self.no_command_id = False
        self.lower_ids = False   # how discovered command ids are written
        self.own_shell_ids = False
        self.frag = None     # fn() -> fragment payload size
        self.batch = None    # fn(available) -> how many fragments in this response
        self.one_stream = False
        self.before = None   # fn(req) -> None or (status, body); may raise Drop
        self.after = None    # fn(req, response) -> response
        self.on_pipeline = None    # fn(cmd)
        self.on_input = None       # fn(cmd, msg or None at the end of input)
        self.on_host_response = None
        self.on_pool = None        # fn(shell, msg): True if handled
        self.on_command = None     # fn(cmd): WinRS
        self.on_send = None
        self.on_signal = None
        self.on_open = None        # fn(shell)
        self.on_idle = None        # fn(target, req) -> None or response
        self.max_idle = MAX_IDLE
        self.clock = None
        self.idle_total = 0
        self.config_kb = 500
        self.delivered = []        # (target, [message names]) as fully handed out
        self.keep_done = True

    # ------------------------------------------------------------ transport
    def __call__(self, request, kw):
        raw = request.body or b""
        if isinstance(raw, str):
            raw = raw.encode("utf-8")
        rec = dict(raw=raw, url=request.url, headers=dict(request.headers), method=request.method, **kw)
        self.calls.append(rec)
        req = Req(raw, request.url, dict(request.headers), kw.get("timeout"), len(self.log))
        req.kw = kw
        rec["req"] = req
        self.log.append(req)
        try:
            status, body = self.handle(req)
        except Drop as d:
            raise d.exc
        return status, body, dict(wsmv.XML)

    def handle(self, req):
        res = None
        if self.before is not None:
            res = self.before(req)
        if res is None:
            fn = getattr(self, "do_" + str(req.action).lower(), None)
            if fn is None:
                raise Halt(Violation("unknown-action", req.action_uri))
            try:
                res = fn(req)
            except Violation as v:
                raise Halt(v)
            except (binascii.Error, KeyError, AttributeError, IndexError) as e:
                raise Halt(Violation("unreadable-request", "%r reading %s" % (e, short(req.raw, 1500))))
        if self.after is not None:
            res = self.after(req, res)
        return res

    def requests(self, *actions):
        return [r for r in self.log if not actions or r.action in actions]

    # ------------------------------------------------------------ sending messages
    def push(self, target, type_, node, pid=None, bom=None, raw=None, size=None):
        """Queues one message for target; returns its fragments."""
        shell = target.shell if isinstance(target, Command) else target
        if pid is None and isinstance(target, Command):
            pid = target.pid
        data = raw if raw is not None else msgs.xml(node, self.rng, self._encrypt(shell), bom)
        oid = shell.next_oid
        shell.next_oid += 1
        m = message(CLIENT, type_, shell.rpid, pid, data)
        size = size or self.frag or 32768
        if len(m) > 4000:  # keeps the number of fragments of a large message sane
            least, inner = len(m) // 150, size
            size = lambda: max(least, inner() if callable(inner) else inner)
        fr = split(oid, m, size)
        target.queue.extend(fr)
        return fr

    def _encrypt(self, shell):
        if shell.key is None:
            return None
        from .secure import encryptor
        return encryptor(shell.key)

    # ------------------------------------------------------------ shells
    def shell_of(self, req):
        return self.shells.get((req.shell_id or "").upper())

    def no_shell(self, req):
        return fault(req, BAD_SELECTOR, "The WS-Management service cannot process the request because the request contained invalid "
                     "selectors for the resource.", subcode="w:InvalidSelectors")

    def created(self, sid, uri):
        return ('<x:ResourceCreated><a:Address>http://%s:5985/wsman</a:Address><a:ReferenceParameters><w:ResourceURI>%s</w:ResourceURI>'
                '<w:SelectorSet><w:Selector Name="ShellId">%s</w:Selector></w:SelectorSet></a:ReferenceParameters></x:ResourceCreated>'
                '<rsp:Shell>%s</rsp:Shell>') % (self.host, xml_text(uri), sid, "".join(
                    "<rsp:%s>%s</rsp:%s>" % (k, xml_text(v), k) for k, v in self.facts))

    def shell_facts(self, sid, req, body):
        """What the server tells about a new shell."""
        text = lambda n, d: body.findtext(q("rsp:" + n)) or d
        idle = text("IdleTimeOut", "PT7200S")
        return [("ShellId", sid), ("ResourceUri", req.uri), ("Owner", "DOM\\user"), ("ClientIP", "10.0.0.1"), ("IdleTimeOut", idle.replace("S", ".000S")),
                ("InputStreams", text("InputStreams", "stdin")), ("OutputStreams", text("OutputStreams", "stdout")),
                ("ShellRunTime", "P0DT0H0M0S"), ("ShellInactivity", "P0DT0H0M0S")]

    def do_create(self, req):
        body = req.find("rsp:Shell")
        sid = body.attrib.get("ShellId")
        if sid is None or self.own_shell_ids:
            sid = str(uuid.UUID(int=self.rng.getrandbits(128)))
        sid = sid.upper()
        sh = Shell(sid, req.uri, req)
        cx = body.find(q("pwsh:creationXml"))
        self.shells[sid] = sh
        self.all_shells.append(sh)
        if cx is not None:
            sh.psrp = True
            self.feed(sh, None, base64.b64decode(cx.text, validate=True), ("Create", None, None))
            out = ["stdout"]
        sh.facts = self.facts = self.shell_facts(sid, req, body)
        return reply(req, self.created(sid, req.uri))

    def do_delete(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        del self.shells[sh.id]
        self.gone.append(sh.id)
        return reply(req, "")

    def do_get(self, req):
        if req.uri and req.uri.endswith("/config"):
            return reply(req, '<cfg:Config xmlns:cfg="%s"><cfg:MaxEnvelopeSizekb>%d</cfg:MaxEnvelopeSizekb><cfg:MaxTimeoutms>1800000'
                         '</cfg:MaxTimeoutms></cfg:Config>' % (NS["cfg"], self.config_kb))
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        return reply(req, self.shell_xml(sh))

    def shell_xml(self, sh):
        return ('<rsp:Shell><rsp:ShellId>%s</rsp:ShellId><rsp:Name>s</rsp:Name><rsp:ResourceUri>%s</rsp:ResourceUri><rsp:Owner>o</rsp:Owner>'
                '<rsp:ClientIP>::1</rsp:ClientIP><rsp:State>%s</rsp:State><rsp:ShellRunTime>P0DT0H0M1S</rsp:ShellRunTime></rsp:Shell>') % (
                    sh.id, xml_text(sh.uri), sh.state)

    def do_enumerate(self, req):
        sel = req.findall("n:Enumerate/w:Filter/w:SelectorSet/w:Selector")
        if req.uri.endswith("/shell"):
            items = "".join(self.shell_xml(s) for s in self.shells.values())
        else:
            sid = dict((e.attrib["Name"], e.text) for e in sel).get("ShellId", "").upper()
            sh = self.shells.get(sid)
            items = "" if sh is None else "".join(
                '<rsp:Command><rsp:ShellId>%s</rsp:ShellId><rsp:CommandId>%s</rsp:CommandId><rsp:State>Running</rsp:State>'
                '<rsp:CommandLine></rsp:CommandLine></rsp:Command>' % (sid, c.id.lower() if self.lower_ids else c.id) for c in sh.commands.values())
        return reply(req, '<n:EnumerateResponse><n:EnumerationContext></n:EnumerationContext><w:Items>%s</w:Items><w:EndOfSequence/>'
                     '</n:EnumerateResponse>' % items)

    # ------------------------------------------------------------ commands
    def do_command(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        line = req.find("rsp:CommandLine")
        want = line.attrib.get("CommandId")
        if want is None or self.own_command_ids:
            cid = str(uuid.UUID(int=self.rng.getrandbits(128))).upper()
        else:
            cid = want.upper()
        cmd = Command(sh, cid)
        cmd.wanted = want
        args = [a.text or "" for a in line.findall(q("rsp:Arguments"))]
        if cid in sh.commands and not sh.psrp:
            raise Halt(Violation("command-id-reused", cid))
        sh.commands[cid] = cmd
        sh.last_command = cmd
        if sh.psrp:
            if len(args) != 1:
                raise Halt(Violation("command-arguments", "%d Arguments elements" % len(args)))
            self.feed(sh, cmd, base64.b64decode(args[0], validate=True), ("Command", None, cid))
        else:
            c = line.find(q("rsp:Command"))
            cmd.command = (c.text or "") if c is not None else None
            cmd.arguments = args
            cmd.skip = req.option("WINRS_SKIP_CMD_SHELL")
            if self.on_command is not None:
                self.on_command(cmd)
        if self.no_command_id and sh.psrp:
            return reply(req, "<rsp:CommandResponse></rsp:CommandResponse>")
        return reply(req, "<rsp:CommandResponse><rsp:CommandId>%s</rsp:CommandId></rsp:CommandResponse>" % cid)

    def do_send(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        streams = req.findall("rsp:Send/rsp:Stream")
        if len(streams) != 1:
            raise Halt(Violation("send-streams", "%d Stream elements" % len(streams)))
        st = streams[0]
        data = base64.b64decode(st.text or "", validate=True)
        cid = st.attrib.get("CommandId")
        cmd = None
        if cid is not None:
            cmd = sh.commands.get(cid.upper())
            if cmd is None:
                return fault(req, 2150858843, "no such command", subcode="w:InvalidSelectors")
        if sh.psrp:
            if st.attrib.get("Name") not in ("stdin", "pr"):
                raise Halt(Violation("send-streams", "a PowerShell shell has no input stream %r" % st.attrib.get("Name")))
            self.feed(sh, cmd, data, ("Send", st.attrib.get("Name"), cid))
        else:
            cmd.sends.append((st.attrib.get("Name"), data, st.attrib.get("End")))
            if self.on_send is not None:
                self.on_send(cmd)
        return reply(req, "<rsp:SendResponse/>")

    def do_signal(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        sig = req.find("rsp:Signal")
        cid = sig.attrib.get("CommandId", "").upper()
        code = sig.find(q("rsp:Code")).text
        cmd = sh.commands.get(cid)
        if cmd is None:
            return fault(req, 2150858843, "no such command", subcode="w:InvalidSelectors")
        cmd.signals.append(code)
        if code.endswith("/Terminate"):
            cmd.closed = True
            sh.commands.pop(cid, None)
        if self.on_signal is not None:
            self.on_signal(cmd, code)
        return reply(req, "<rsp:SignalResponse/>")

    # ------------------------------------------------------------ polling
    def do_receive(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        ds = req.find("rsp:Receive/rsp:DesiredStream")
        cid = ds.attrib.get("CommandId")
        target = sh
        if cid is not None:
            target = sh.commands.get(cid.upper())
            if target is None:
                return fault(req, 2150858843, "no such command", subcode="w:InvalidSelectors")
        target.polls += 1
        if not target.queue and self.on_idle is not None:
            res = self.on_idle(target, req)
            if res is not None:
                return res
        qu = target.queue
        while qu and isinstance(qu[0], tuple) and qu[0][0] in "CB":
            x = qu.pop(0)
            if x[0] == "C":
                x[1]()
        if not qu:
            return self.idle(target, req)
        target.idle = 0
        if isinstance(qu[0], tuple):
            x = qu.pop(0)
            if x[0] == "T":
                target.polled_empty += 1
                if self.clock is not None:
                    self.clock.advance(20)
                return fault(req, OP_TIMEOUT, "The WS-Management service cannot complete the operation within the time specified in "
                             "OperationTimeout.")
            if x[0] == "E":
                target.polled_empty += 1
                return reply(req, self.receive_body(target, [], None))
            if x[0] == "F":
                return x[1](req)
            if x[0] == "R":
                return reply(req, self.process_body(target, *x[1:]))
            raise HarnessError("queue item %r" % (x,))
        n = 0
        while n < len(qu) and not isinstance(qu[n], tuple):
            n += 1
        k = self.batch(n) if self.batch is not None else self.rng.choice([1, 1, 2, 3, n, n])
        k = max(1, min(k, n))
        items, target.queue[:k] = qu[:k], []
        return reply(req, self.receive_body(target, items, None))

    def idle(self, target, req):
        target.idle += 1
        if target.idle > self.max_idle:
            raise Halt(Violation("polls-for-ever", "%d polls of %s with nothing left to send" % (target.idle, type(target).__name__)))
        if self.clock is not None:
            self.clock.advance(20)
        if isinstance(target, Command):
            return fault(req, OP_TIMEOUT, "timed out")
        return reply(req, self.receive_body(target, [], None))

    def receive_body(self, target, items, state):
        """items: PSRP fragments, or (stream name, bytes) of a process."""
        cid = target.id if isinstance(target, Command) else None
        ca = ' CommandId="%s"' % cid if cid else ""
        out = []
        if items and isinstance(items[0], tuple):
            parts = [(n, [d]) for n, d in items]
        else:
            groups = []
            for f in items:
                if groups and (self.one_stream or self.rng.random() < 0.5):
                    groups[-1].append(f)
                else:
                    groups.append([f])
            parts = [("stdout", g) for g in groups]
        for name, g in parts:
            out.append('<rsp:Stream Name="%s"%s>%s</rsp:Stream>' % (name, ca, b64(b"".join(g))))
        if cid:
            out.append('<rsp:CommandState%s State="%s%s"/>' % (ca, STATE, "Running"))
        return "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % "".join(out)

    def process_body(self, cmd, chunks, state="Running", rc=None):
        ca = ' CommandId="%s"' % cmd.id
        out = []
        for name, data in chunks:
            t = b64(data)
            if t and self.rng.random() < 0.05:
                t = t[:len(t) // 2] + "\r\n" + t[len(t) // 2:]
            out.append('<rsp:Stream Name="%s"%s>%s</rsp:Stream>' % (name, ca, t))
        if state is not None:
            code = "" if rc is None else "<rsp:ExitCode>%d</rsp:ExitCode>" % rc
            out.append('<rsp:CommandState%s State="%s%s">%s</rsp:CommandState>' % (ca, STATE, state, code))
        return "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % "".join(out)

    # ------------------------------------------------------------ disconnect
    def do_disconnect(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        sh.state = "Disconnected"
        return reply(req, "<rsp:DisconnectResponse/>")

    def do_reconnect(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        sh.state = "Connected"
        return reply(req, "<rsp:ReconnectResponse/>")

    def do_connect(self, req):
        sh = self.shell_of(req)
        if sh is None:
            return self.no_shell(req)
        c = req.find("rsp:Connect")
        cid = c.attrib.get("CommandId")
        sh.connects.append(cid)
        if cid is not None:
            if cid.upper() not in sh.commands:
                return fault(req, 2150858843, "no such command", subcode="w:InvalidSelectors")
            return reply(req, "<rsp:ConnectResponse></rsp:ConnectResponse>")
        x = c.find(q("pwsh:connectXml"))
        sh.state = "Connected"
        sh.inbound = Reassembler()  # a new client starts its own object ids
        pool = Target()
        pool.shell = sh
        self.feed(sh, None, base64.b64decode(x.text, validate=True), ("Connect", None, None))
        data = self.connect_reply(sh)
        return reply(req, '<rsp:ConnectResponse><pwsh:connectResponseXml xmlns:pwsh="%s">%s</pwsh:connectResponseXml></rsp:ConnectResponse>'
                     % (NS["pwsh"], b64(b"".join(data))))

    def connect_reply(self, sh):
        keep, sh.queue = sh.queue, []
        self.push(sh, "SESSION_CAPABILITY", msgs.session_capability(self.proto, self.ps, self.ser))
        self.push(sh, "RUNSPACEPOOL_INIT_DATA", msgs.init_data(*sh.limits))
        data, sh.queue = sh.queue, keep
        if self.private is not None and self.send_private:
            self.push(sh, "APPLICATION_PRIVATE_DATA", msgs.private_data(self.private))
        self.push(sh, "RUNSPACEPOOL_STATE", msgs.pool_state(2))
        return data

    # ------------------------------------------------------------ PSRP
    def feed(self, sh, cmd, data, via):
        for m in sh.inbound.feed(data, via):
            self.message(sh, cmd, m)

    def model(self, sh, m):
        return sh.decoder().parse(m.data)

    def message(self, sh, cmd, m):
        m.cmd = cmd
        sh.msgs.append(m)
        if cmd is not None:
            cmd.msgs.append(m)
        if sh.rpid is None:
            sh.rpid = m.rpid
            named = sh.create.find("rsp:Shell") if sh.create is not None and sh.create.action == "Create" else None
            if named is not None and named.attrib.get("ShellId") and m.rpid != uuid.UUID(named.attrib["ShellId"]):
                raise Violation("wrong-pool-id", "%r has pool id %s, the shell is %s" % (m, m.rpid, named.attrib["ShellId"]))
        if m.rpid != sh.rpid:
            raise Violation("wrong-pool-id", "%r has pool id %s, the pool is %s" % (m, m.rpid, sh.rpid))
        n = m.name
        if n == "SESSION_CAPABILITY":
            sh.capability = m
        elif n == "INIT_RUNSPACEPOOL":
            sh.init = m
            d = self.model(sh, m)
            sh.limits = [d.get("MinRunspaces").val, d.get("MaxRunspaces").val]
            self.opened(sh)
        elif n in ("CREATE_PIPELINE", "GET_COMMAND_METADATA"):
            if cmd is None:
                raise Violation("pipeline-without-command", repr(m))
            cmd.create, cmd.pid = m, m.pid
            if cmd.wanted is not None and m.pid != uuid.UUID(cmd.wanted):
                raise Violation("wrong-pipeline-id", "the message creates %s for command %s" % (m.pid, cmd.wanted))
            if self.on_pipeline is not None:
                self.on_pipeline(cmd)
        elif n == "PIPELINE_INPUT":
            c = self.by_pid(sh, m, cmd)
            c.inputs.append(m)
            if self.on_input is not None:
                self.on_input(c, m)
        elif n == "END_OF_PIPELINE_INPUT":
            c = self.by_pid(sh, m, cmd)
            c.ended += 1
            if self.on_input is not None:
                self.on_input(c, None)
        elif n in ("RUNSPACEPOOL_HOST_RESPONSE", "PIPELINE_HOST_RESPONSE"):
            (sh.host_responses if n[0] == "R" else self.by_pid(sh, m, None).host_responses).append(m)
            if self.on_host_response is not None:
                self.on_host_response(sh, m)
        elif self.on_pool is not None and self.on_pool(sh, m):
            pass
        elif n == "PUBLIC_KEY":
            self.exchange(sh, m)
        elif n in ("SET_MAX_RUNSPACES", "SET_MIN_RUNSPACES"):
            d = self.model(sh, m)
            sh.limits[0 if "MIN" in n else 1] = d.get("MinRunspaces" if "MIN" in n else "MaxRunspaces").val
            self.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(True, self.ci(d)))
        elif n == "RESET_RUNSPACE_STATE":
            self.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(True, self.ci(self.model(sh, m))))
        elif n == "GET_AVAILABLE_RUNSPACES":
            self.push(sh, "RUNSPACE_AVAILABILITY", msgs.availability(sh.limits[1], self.ci(self.model(sh, m))))
        elif n == "CONNECT_RUNSPACEPOOL":
            sh.connect_msg = m
        else:
            raise Violation("unexpected-message", repr(m))

    def ci(self, d):
        v = d.get("CI") if d.has("CI") else d.get("ci")
        return v.val

    def by_pid(self, sh, m, cmd):
        if cmd is not None and cmd.pid == m.pid:
            return cmd
        for c in sh.commands.values():
            if c.pid == m.pid:
                return c
        raise Violation("message-for-no-pipeline", "%r for pipeline %s, sent via %r" % (m, m.pid, m.via))

    def opened(self, sh):
        if self.on_open is not None and self.on_open(sh):
            return
        self.push(sh, "SESSION_CAPABILITY", msgs.session_capability(self.proto, self.ps, self.ser))
        if self.report_limits is not None:
            self.push(sh, "RUNSPACEPOOL_INIT_DATA", msgs.init_data(*self.report_limits))
        if self.send_private:
            from .clixml import Map
            self.push(sh, "APPLICATION_PRIVATE_DATA", msgs.private_data(
                self.private if self.private is not None else Map([], ["System.Management.Automation.PSPrimitiveDictionary",
                                                                       "System.Collections.Hashtable", "System.Object"])))
        self.push(sh, "RUNSPACEPOOL_STATE", msgs.pool_state(2))

    def exchange(self, sh, m, key=None):
        from .secure import seal_key
        d = self.model(sh, m)
        pub = d.get("PublicKey").val
        key = key or self.rng.randbytes(32)
        zero = self.rng.choice([None, None, 0, -1])
        if self.rng.random() < 0.2:
            key = self.rng.choice([b"\0" + key[1:], key[:-1] + b"\0", b"\0" * 32])
        blob = seal_key(pub, key, zero)
        sh.public_key = pub
        self.push(sh, "ENCRYPTED_SESSION_KEY", msgs.O(("EncryptedSessionKey", msgs.S(blob))))
        sh.key = key

    # ------------------------------------------------------------ scripting helpers
    def finish(self, cmd, state=4, err=None):
        self.push(cmd, "PIPELINE_STATE", msgs.pipeline_state(state, err.node if err is not None else None))
        cmd.final = state

    def output(self, cmd, node):
        self.push(cmd, "PIPELINE_OUTPUT", node)

    def record(self, cmd, rec):
        self.push(cmd, msgs.RECORD_TYPE[rec.kind], rec.node)


def connection(host="h.test", **kw):
    from pypsrp.wsman import WSMan
    a = dict(ssl=False, auth="basic", encryption="never", username="user", password="pass")
    a.update(kw)
    return WSMan(host, **a)


class Net:
    """with Net(server) as net: everything the client sends to that host goes to the server, in virtual time."""

    def __init__(self, *servers, clock=True):
        self.servers = servers
        self.clock = wsmv.Clock()

    def __enter__(self):
        self.cm = wsmv.network({s.host: s for s in self.servers})
        self.cm.__enter__()
        self.tm = self.clock.active()
        self.tm.__enter__()
        for s in self.servers:
            s.clock = self.clock
        return self

    def __exit__(self, *a):
        self.tm.__exit__(*a)
        return self.cm.__exit__(*a)
