"""Models of the messages a PowerShell server sends, and what the client should make of them."""
from . import gen, values
from .clixml import Map, Obj, P, Seq, encode, match, units
from .core import short

I32_RO = "System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Int32, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]"


def xml(node, rng=None, encrypt=None, bom=None):
    data = encode(node, rng, encrypt).encode("utf-8")
    if bom or (bom is None and rng is not None and rng.random() < 0.2):
        data = b"\xef\xbb\xbf" + data
    return data


def O(*ms, **kw):
    return Obj(kw.get("types"), kw.get("tostr"), kw.get("base", ()), list(kw.get("props", ())), list(ms))


def S(v):
    return P("Nil") if v is None else P("S", v)


def enum(types, tostr, value):
    return Obj([types, "System.Enum", "System.ValueType", "System.Object"], tostr, [P("I32", value)])


def session_capability(proto="2.3", ps="2.0", ser="1.1.0.1"):
    return O(("protocolversion", P("Version", proto)), ("PSVersion", P("Version", ps)), ("SerializationVersion", P("Version", ser)))


def init_data(lo, hi):
    return O(("MinRunspaces", P("I32", lo)), ("MaxRunspaces", P("I32", hi)))


def private_data(m):
    return O(("ApplicationPrivateData", m))


def pool_state(s, err=None):
    ms = [("RunspaceState", P("I32", s))]
    if err is not None:
        ms.append(("ExceptionAsErrorRecord", err))
    return O(*ms)


def pipeline_state(s, err=None):
    ms = [("PipelineState", P("I32", s))]
    if err is not None:
        ms.append(("ExceptionAsErrorRecord", err))
    return O(*ms)


def availability(value, ci):
    return O(("SetMinMaxRunspacesResponse", P("B", value) if isinstance(value, bool) else P("I64", value)), ("ci", P("I64", ci)))


HOST_METHODS = dict(enumerate("""GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt
ExitNestedPrompt NotifyBeginApplication NotifyEndApplication ReadLine ReadLineAsSecureString Write1 Write2 WriteLine1 WriteLine2 WriteLine3
WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine Prompt PromptForCredential1 PromptForCredential2
PromptForChoice GetForegroundColor SetForegroundColor GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition
GetWindowPosition SetWindowPosition GetCursorSize SetCursorSize GetBufferSize SetBufferSize GetWindowSize SetWindowSize GetWindowTitle
SetWindowTitle GetMaxWindowSize GetMaxPhysicalWindowSize GetKeyAvailable ReadKey FlushInputBuffer SetBufferContents1 SetBufferContents2
GetBufferContents ScrollBufferContents PushRunspace PopRunspace GetIsRunspacePushed GetRunspce PromptForChoiceMultipleSelection""".split(), 1))


def method_id(mi):
    return enum("System.Management.Automation.Remoting.RemoteHostMethodId", HOST_METHODS[mi], mi)


def host_call(ci, mi, params, rng=None):
    ms = [("ci", P("I64", ci)), ("mi", method_id(mi)), ("mp", Seq("LST", params, ["System.Collections.ArrayList", "System.Object"]))]
    if rng is not None:     # members go by their names
        rng.shuffle(ms)
    return O(*ms)


ERR_TYPES = ["System.Management.Automation.ErrorRecord", "System.Object"]
# model name -> (attribute of the Python record, tag)
ERR_FIELDS = [
    ("FullyQualifiedErrorId", "fq_error", "S", False), ("ErrorCategory_Category", "category", "I32", False),
    ("ErrorCategory_Activity", "activity", "S", True), ("ErrorCategory_Reason", "reason", "S", True),
    ("ErrorCategory_TargetName", "target_name", "S", True), ("ErrorCategory_TargetType", "target_type", "S", True),
    ("ErrorCategory_Message", "message", "S", True), ("ErrorDetails_Message", "details_message", "S", True),
    ("ErrorDetails_RecommendedAction", "action", "S", True), ("ErrorDetails_ScriptStackTrace", "script_stacktrace", "S", True),
]
INV_FIELDS = [
    ("InvocationInfo_InvocationName", "invocation_name", "S"), ("InvocationInfo_ExpectingInput", "invocation_expecting_input", "B"),
    ("InvocationInfo_Line", "invocation_line", "S"), ("InvocationInfo_OffsetInLine", "invocation_offset_in_line", "I32"),
    ("InvocationInfo_PositionMessage", "invocation_position_message", "S"), ("InvocationInfo_ScriptName", "invocation_script_name", "S"),
    ("InvocationInfo_ScriptLineNumber", "invocation_script_line_number", "I32"), ("InvocationInfo_HistoryId", "invocation_history_id", "I64"),
    ("InvocationInfo_PipelineLength", "invocation_pipeline_length", "I32"), ("InvocationInfo_PipelinePosition", "invocation_pipeline_position", "I32"),
    ("CommandInfo_Definition", "command_definition", "S"), ("CommandInfo_Name", "command_name", "S"),
]


class Rec:
    """A record the server sends: its node, and the attributes the client's record must have."""

    def __init__(self, kind, node, attrs):
        self.kind, self.node, self.attrs = kind, node, attrs

    def differs(self, py):
        for name, want in self.attrs.items():
            if not hasattr(py, name):
                return "%s has no %s" % (type(py).__name__, name)
            got = getattr(py, name)
            if isinstance(want, (P, Seq, Map, Obj)):
                d = match(got, want, "$." + name)
                if d:
                    return d
            elif callable(want):
                d = want(got)
                if d:
                    return "$.%s: %s" % (name, d)
            elif type(got) is not type(want) or got != want:
                return "$.%s: got %s, want %s" % (name, short(got), short(want))
        return None


def _enum_is(v):
    return lambda got: None if getattr(got, "value", None) == v and type(got.value) is int else "enum value %r, want %r" % (getattr(got, "value", None), v)


def _inv(r, ms, attrs, pit):
    for n, a, t in INV_FIELDS:
        if r.random() < 0.5:
            p = gen.prim(r, [t], 0.5)
            ms.append((n, p))
            attrs[a] = p
    if r.random() < 0.3:
        m = Map([(P("S", "k%d" % i), gen.prim(r, None, 0.4)) for i in range(r.randint(0, 3))],
                ["System.Management.Automation.PSBoundParametersDictionary", "System.Collections.Generic.Dictionary`2[[System.String, mscorlib],"
                 "[System.Object, mscorlib]]", "System.Object"])
        ms.append(("InvocationInfo_BoundParameters", m))
        attrs["invocation_bound_parameters"] = m
    if r.random() < 0.3:
        m = Seq("LST", [gen.prim(r, None, 0.4) for i in range(r.randint(0, 3))],
                ["System.Collections.Generic.List`1[[System.Object, mscorlib, Version=4.0.0.0]]", "System.Object"])
        ms.append(("InvocationInfo_UnboundArguments", m))
        attrs["invocation_unbound_arguments"] = m
    if r.random() < 0.4:
        v = r.choice([0, 1])
        ms.append(("InvocationInfo_CommandOrigin", enum("System.Management.Automation.CommandOrigin", ["Runspace", "Internal"][v], v)))
        attrs["invocation_command_origin"] = _enum_is(v)
    if r.random() < 0.4:
        v = r.choice([1, 2, 8, 64])
        ms.append(("CommandInfo_CommandType", enum("System.Management.Automation.CommandTypes", {1: "Alias", 2: "Function", 8: "Cmdlet", 64: "Script"}[v], v)))
        attrs["command_type"] = _enum_is(v)
    if r.random() < 0.4:
        v = r.choice([0, 1])
        ms.append(("CommandInfo_Visibility", enum("System.Management.Automation.SessionStateEntryVisibility", ["Public", "Private"][v], v)))
        attrs["command_visibility"] = _enum_is(v)
    if r.random() < 0.4:
        m = Seq("LST", [P("I32", r.randint(-5, 5)) for _ in range(r.randint(0, 3))], [I32_RO, "System.Object"])
        ms.append((pit, m))
        attrs["pipeline_iteration_info"] = m


def exception(r):
    o = Obj(["System.Management.Automation.RemoteException", "System.Management.Automation.RuntimeException", "System.SystemException",
             "System.Exception", "System.Object"], gen.txt(r, 0.5) or "boom")
    o.props = [("Message", P("S", gen.txt(r, 0.5))), ("HResult", P("I32", gen.integer(r, "I32"))), ("InnerException", P("Nil"))]
    return o


def error_record(r, kind="error"):
    attrs = {}
    ms = []
    if r.random() < 0.85:
        ex = exception(r)
        ms.append(("Exception", ex))
        attrs["exception"] = ex
    if r.random() < 0.4:
        t = gen.prim(r, None, 0.4)
        ms.append(("TargetObject", t))
        attrs["target_object"] = t
    for n, a, t, opt in ERR_FIELDS:
        if opt and r.random() < 0.35:
            continue
        p = gen.prim(r, [t], 0.5)
        ms.append((n, p))
        attrs[a] = p
    ext = r.random() < 0.5
    ms.append(("SerializeExtendedInfo", P("B", ext)))
    attrs["extended_info_present"] = P("B", ext)
    if ext:
        _inv(r, ms, attrs, "PipelineIterationInfo")
    r.shuffle(ms)
    tostr = gen.txt(r, 0.5)
    o = Obj(list(ERR_TYPES), tostr, (), [], ms)
    return Rec(kind, o, attrs)


def informational(r, kind):
    tn = {"debug": "Debug", "verbose": "Verbose", "warning": "Warning"}[kind]
    attrs = {}
    m = P("S", gen.txt(r))
    ext = r.random() < 0.4
    ms = [("InformationalRecord_Message", m), ("InformationalRecord_SerializeInvocationInfo", P("B", ext))]
    attrs["message"] = m
    attrs["invocation"] = P("B", ext)
    if ext:
        _inv(r, ms, attrs, "InformationalRecord_PipelineIterationInfo")
    r.shuffle(ms)
    o = Obj(["System.Management.Automation.%sRecord" % tn, "System.Management.Automation.InformationalRecord", "System.Object"], m.val, (), [], ms)
    return Rec(kind, o, attrs)


def progress(r):
    attrs, ms = {}, []
    for n, a, t in [("Activity", "activity", "S"), ("ActivityId", "activity_id", "I32"), ("StatusDescription", "description", "S"),
                    ("CurrentOperation", "current_operation", "S"), ("ParentActivityId", "parent_activity_id", "I32"),
                    ("PercentComplete", "percent_complete", "I32"), ("SecondsRemaining", "seconds_remaining", "I32")]:
        p = gen.prim(r, [t], 0.5)
        if t == "S" and n != "Activity" and r.random() < 0.3:
            p = P("Nil")
        ms.append((n, p))
        attrs[a] = p
    v = r.choice([0, 1])
    ms.append(("Type", enum("System.Management.Automation.ProgressRecordType", ["Processing", "Completed"][v], v)))
    attrs["progress_type"] = _enum_is(v)
    r.shuffle(ms)
    return Rec("progress", Obj(None, None, (), [], ms), attrs)


def information(r):
    attrs, ms = {}, []
    for n, a, t in [("Source", "source", "S"), ("TimeGenerated", "time_generated", "DT"), ("User", "user", "S"), ("Computer", "computer", "S"),
                    ("ProcessId", "pid", "U32"), ("NativeThreadId", "native_thread_id", "U32"), ("ManagedThreadId", "managed_thread_id", "U32")]:
        p = gen.prim(r, [t], 0.5)
        ms.append((n, p))
        attrs[a] = p
    d = values.received(r, 2)
    ms.append(("MessageData", d))
    attrs["message_data"] = d
    tags = Seq("LST", [P("S", gen.txt(r, 0.4)) for _ in range(r.randint(0, 3))],
               ["System.Collections.Generic.List`1[[System.String, mscorlib, Version=4.0.0.0]]", "System.Object"])
    ms.append(("Tags", tags))
    attrs["tags"] = tags
    if r.random() < 0.5:
        p = P("B", r.random() < 0.5)
        ms.append(("WriteInformationStream", p))
        attrs["write_information_stream"] = p
    r.shuffle(ms)
    return Rec("information", Obj(["System.Management.Automation.InformationRecord", "System.Object"], gen.txt(r, 0.4), (), [], ms), attrs)


def user_event(r):
    attrs, ms = {}, []
    for n, a, t in [("EventIdentifier", "event_id", "I32"), ("SourceIdentifier", "source_id", "S"), ("TimeGenerated", "time", "DT"),
                    ("Sender", "sender", None), ("MessageData", "data", None), ("ComputerName", "computer", "S"), ("RunspaceId", "runspace_id", "G")]:
        p = gen.prim(r, [t] if t else None, 0.5)
        ms.append(("PSEventArgs." + n, p))
        attrs[a] = p
    args = Seq("LST", [values.received(r, 1, True) for _ in range(r.randint(0, 3))], ["System.Object[]", "System.Array", "System.Object"])
    ms.append(("PSEventArgs.SourceArgs", args))
    attrs["args"] = args
    r.shuffle(ms)
    return Rec("event", Obj(None, None, (), [], ms), attrs)


RECORD_TYPE = {"error": "ERROR_RECORD", "warning": "WARNING_RECORD", "verbose": "VERBOSE_RECORD", "debug": "DEBUG_RECORD",
               "progress": "PROGRESS_RECORD", "information": "INFORMATION_RECORD", "event": "USER_EVENT"}


def record(r, kind):
    if kind == "error":
        return error_record(r)
    if kind == "progress":
        return progress(r)
    if kind == "information":
        return information(r)
    if kind == "event":
        return user_event(r)
    return informational(r, kind)
