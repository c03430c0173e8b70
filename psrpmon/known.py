"""The PowerShell types the library has classes of its own for: what they look like on the wire and to the caller.

Written from MS-PSRP 2.2.3 and the .NET types; used for values a peer sends and for objects a caller builds.
"""
from . import gen
from .clixml import Known, Obj, P, Seq

_SMA = "System.Management.Automation."
# class -> (.NET type, [(constant of the class, value, name in .NET)])
ENUMS = {
    "Color": ("System.ConsoleColor", [
        ("BLACK", 0, "Black"), ("DARK_BLUE", 1, "DarkBlue"), ("DARK_GREEN", 2, "DarkGreen"), ("DARK_CYAN", 3, "DarkCyan"), ("DARK_RED", 4, "DarkRed"),
        ("DARK_MAGENTA", 5, "DarkMagenta"), ("DARK_YELLOW", 6, "DarkYellow"), ("GRAY", 7, "Gray"), ("DARK_GRAY", 8, "DarkGray"), ("BLUE", 9, "Blue"),
        ("GREEN", 10, "Green"), ("CYAN", 11, "Cyan"), ("RED", 12, "Red"), ("MAGENTA", 13, "Magenta"), ("YELLOW", 14, "Yellow"), ("WHITE", 15, "White")]),
    "PSThreadOptions": (_SMA + "Runspaces.PSThreadOptions", [
        ("DEFAULT", 0, "Default"), ("USE_NEW_THREAD", 1, "UseNewThread"), ("REUSE_THREAD", 2, "ReuseThread"), ("USE_CURRENT_THREAD", 3, "UseCurrentThread")]),
    "ApartmentState": (_SMA + "Runspaces.ApartmentState", [("STA", 0, "STA"), ("MTA", 1, "MTA"), ("UNKNOWN", 2, "UNKNOWN")]),
    "CommandOrigin": (_SMA + "CommandOrigin", [("RUNSPACE", 0, "Runspace"), ("INTERNAL", 1, "Internal")]),
    "PipelineResultTypes": (_SMA + "Runspaces.PipelineResultTypes", [
        ("NONE", 0, "None"), ("OUTPUT", 1, "Output"), ("ERROR", 2, "Error"), ("WARNING", 3, "Warning"), ("VERBOSE", 4, "Verbose"), ("DEBUG", 5, "Debug"),
        ("INFORMATION", 6, "Information"), ("ALL", 7, "All"), ("NULL", 8, "Null")]),
    "ProgressRecordType": (_SMA + "ProgressRecordType", [("PROCESSING", 0, "Processing"), ("COMPLETED", 1, "Completed")]),
    "SessionStateEntryVisibility": (_SMA + "SessionStateEntryVisibility", [("PUBLIC", 0, "Public"), ("PRIVATE", 1, "Private")]),
    "HostMethodIdentifier": (_SMA + "Remoting.RemoteHostMethodId", [
        (None, i, n) for i, n in enumerate("""GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt
        ExitNestedPrompt NotifyBeginApplication NotifyEndApplication ReadLine ReadLineAsSecureString Write1 Write2 WriteLine1 WriteLine2 WriteLine3
        WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine Prompt PromptForCredential1 PromptForCredential2 PromptForChoice
        GetForegroundColor SetForegroundColor GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition GetWindowPosition
        SetWindowPosition GetCursorSize SetCursorSize GetBufferSize SetBufferSize GetWindowSize SetWindowSize GetWindowTitle SetWindowTitle
        GetMaxWindowSize GetMaxPhysicalWindowSize GetKeyAvailable ReadKey FlushInputBuffer SetBufferContents1 SetBufferContents2 GetBufferContents
        ScrollBufferContents PushRunspace PopRunspace GetIsRunspacePushed GetRunspce PromptForChoiceMultipleSelection""".split(), 1)]),
}
# flags: the name of a combination lists the names, smallest first; some combinations have a name of their own
FLAGS = {
    "RemoteStreamOptions": (_SMA + "Runspaces.RemoteStreamOptions", [
        ("ADD_INVOCATION_INFO_TO_ERROR_RECORD", 1, "AddInvocationInfoToErrorRecord"), ("ADD_INVOCATION_INFO_TO_WARNING_RECORD", 2, "AddInvocationInfoToWarningRecord"),
        ("ADD_INVOCATION_INFO_TO_DEBUG_RECORD", 4, "AddInvocationInfoToDebugRecord"), ("ADD_INVOCATION_INFO_TO_VERBOSE_RECORD", 8, "AddInvocationInfoToVerboseRecord"),
        ("ADD_INVOCATION_INFO", 15, "AddInvocationInfo")]),
    "CommandType": (_SMA + "CommandTypes", [
        ("ALIAS", 1, "Alias"), ("FUNCTION", 2, "Function"), ("FILTER", 4, "Filter"), ("CMDLET", 8, "Cmdlet"), ("EXTERNAL_SCRIPT", 16, "ExternalScript"),
        ("APPLICATION", 32, "Application"), ("SCRIPT", 64, "Script"), ("WORKFLOW", 128, "Workflow"), ("CONFIGURATION", 256, "Configuration"), ("ALL", 511, "All")]),
}
OTHER = {
    "ControlKeyState": dict(RightAltPressed=1, LeftAltPressed=2, RightCtrlPressed=4, LeftCtrlPressed=8, ShiftPressed=16, NumLockOn=32, ScrollLockOn=64,
                            CapsLockOn=128, EnhancedKey=256),
    "BufferCellType": dict(COMPLETE=0, LEADING=1, TRAILING=2),
}
ENUM_BASE = ["System.Enum", "System.ValueType", "System.Object"]


def enum_choice(r, flags=True):
    """(class, .NET type, value, name, [constants that or to the value])"""
    cls = r.choice(sorted(ENUMS) + (sorted(FLAGS) * 2 if flags else []))
    if cls in ENUMS:
        t, rows = ENUMS[cls]
        c, v, n = r.choice(rows)
        return cls, t, v, n, [c] if c else None
    t, rows = FLAGS[cls]
    return (cls, t) + flag_choice(r, cls)


def flag_choice(r, cls):
    t, rows = FLAGS[cls]
    whole = rows[-1]
    if r.random() < 0.25:
        return whole[1], whole[2], [whole[0]]
    some = [x for x in rows[:-1] if r.random() < r.choice([0.3, 0.6])] or [r.choice(rows[:-1])]
    v = sum(x[1] for x in some)
    return v, whole[2] if v == whole[1] else ", ".join(x[2] for x in some), [x[0] for x in some]


def node(types, tostr, base=(), props=(), ms=()):
    return Obj(types, tostr, base, props, ms)


def _i(r):
    return gen.prim(r, ["I32"], 0.5)


def _s(r):
    return gen.prim(r, ["S"], 0.6)


def received(r, depth=1):
    """A value of a type the library knows, as it arrives among the output of a pipeline."""
    k = r.random()
    if k < 0.35:
        return _enum_node(*enum_choice(r)[:4])
    if k < 0.5:
        cls, a, b = r.choice([("Coordinates", "X", "Y"), ("Size", "Width", "Height")])
        x, y = _i(r), _i(r)
        return Known(cls, {a.lower(): x, b.lower(): y}, None, [_SMA + "Host." + cls, "System.ValueType", "System.Object"],
                     "%d,%d" % (x.val, y.val), (), _order(r, [(a, x), (b, y)]))
    if k < 0.6:
        f = [("VirtualKeyCode", "code", _i(r)), ("Character", "character", gen.prim(r, ["C"])), ("ControlKeyState", "state", P("S", ", ".join(
            x for x in OTHER["ControlKeyState"] if r.random() < 0.3) or "0")), ("KeyDown", "key_down", gen.prim(r, ["B"]))]
        return Known("KeyInfoDotNet", {a: p for _, a, p in f}, None, [_SMA + "Host.KeyInfo", "System.ValueType", "System.Object"],
                     gen.txt(r, 0.3), (), _order(r, [(n, p) for n, _, p in f]))
    if k < 0.72:
        f = [("LCID", "lcid", _i(r)), ("Name", "name", _s(r)), ("DisplayName", "display_name", _s(r)), ("IetfLanguageTag", "ietf_language_tag", _s(r)),
             ("ThreeLetterISOLanguageName", "three_letter_iso_name", _s(r)), ("ThreeLetterWindowsLanguageName", "three_letter_windows_name", _s(r)),
             ("TwoLetterISOLanguageName", "two_letter_iso_language_name", _s(r))]
        more = [("Parent", None, P("S", "en")), ("KeyboardLayoutId", None, P("I32", 1033)), ("NativeName", None, _s(r)), ("UseUserOverride", None, P("B", False))]
        return Known("CultureInfo", {a: p for _, a, p in f}, None, r.choice([["System.Globalization.CultureInfo", "System.Object"],
                     ["Deserialized.System.Globalization.CultureInfo", "Deserialized.System.Object"]]), "en-US", (),
                     _order(r, [(n, p) for n, _, p in f + more]))
    if k < 0.82:
        aliases = Seq("LST", [_s(r) for _ in range(r.choice([0, 1, 3]))], ["System.Collections.ObjectModel.Collection`1[[System.String, mscorlib, Version=4.0.0.0, "
                      "Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object"])
        f = [("Name", "name", _s(r)), ("ParameterType", "parameter_type", _s(r)), ("Aliases", "aliases", aliases),
             ("SwitchParameter", "switch_parameter", gen.prim(r, ["B"])), ("IsDynamic", "dynamic", gen.prim(r, ["B"]))]
        return Known("ParameterMetadata", {a: p for _, a, p in f}, None, [_SMA + "ParameterMetadata", "System.Object"], _SMA + "ParameterMetadata", (),
                     _order(r, [(n, p) for n, _, p in f]))
    if k < 0.86:
        c = _i(r)
        return Known("CommandMetadataCount", {"count": c}, None, ["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo",
                     _SMA + "PSCustomObject", "System.Object"], None, (), (), [("Count", c)])
    from . import msgs
    kind = r.choice(["error", "warning", "verbose", "debug", "information"])
    rec = msgs.record(r, kind)
    cls = {"error": "ErrorRecordMessage", "information": "InformationRecord"}.get(kind, kind.capitalize() + "Record")
    n = rec.node
    return Known(cls, rec.attrs, None, n.types, n.tostr, n.base, n.props, n.ms)


def _enum_node(cls, t, v, n):
    args = ([t] + ENUM_BASE, n, [P("I32", v)])
    # command types have a class, but arrive as generic objects outside of the messages that hold one
    return Obj(*args) if cls == "CommandType" else Known(cls, {"value": P("I32", v)}, n, *args)


def _order(r, xs):
    xs = list(xs)
    r.shuffle(xs)
    return xs


def received_list(r):
    """An array or collection of one known type, entries may be null."""
    def entry(cls_of):
        return P("Nil") if r.random() < 0.1 else cls_of()
    k = r.random()
    if k < 0.5:
        cls = r.choice(sorted(ENUMS) + sorted(FLAGS))
        t = (ENUMS.get(cls) or FLAGS[cls])[0]

        def one():
            while True:
                row = enum_choice(r)
                if row[0] == cls:
                    return _enum_node(*row[:4])
    else:
        t = _SMA + "Host.Size"

        def one():
            x, y = _i(r), _i(r)
            return Known("Size", {"width": x, "height": y}, None, [t, "System.ValueType", "System.Object"], "size", (), [("Width", x), ("Height", y)])
    items = [entry(one) for _ in range(r.choice([0, 1, 2, 4]))]
    types = r.choice([[t + "[]", "System.Array", "System.Object"],
                      ["System.Collections.Generic.List`1[[%s, System, Version=4.0.0.0, Culture=neutral]]" % t, "System.Object"],
                      ["System.Collections.ObjectModel.Collection`1[[%s, System, Version=4.0.0.0, Culture=neutral]]" % t, "System.Object"]])
    return Seq("LST", items, types)


def _enum_py(r, cls, value, consts):
    import pypsrp.complex_objects as co
    c = getattr(co, cls)
    if consts is not None and r.random() < 0.8:
        v = 0
        for name in consts:
            v |= getattr(c, name)
    else:
        v = value
    return c(value=v)


def color(r):
    c, v, n = r.choice(ENUMS["Color"][1])
    return _enum_py(r, "Color", v, [c]), Obj(["System.ConsoleColor"] + ENUM_BASE, n, [P("I32", v)])


def cell(r):
    import pypsrp.complex_objects as co
    ch = gen.prim(r, ["C"])
    (fp, fn), (bp, bn) = color(r), color(r)
    name = r.choice(sorted(OTHER["BufferCellType"]))
    return co.BufferCell(character=chr(ch.val), foreground_color=fp, background_color=bp, cell_type=getattr(co.BufferCellType, name)), \
        Obj(None, None, (), [("character", ch), ("foregroundColor", fn), ("backgroundColor", bn), ("bufferCellType", P("I32", OTHER["BufferCellType"][name]))])


def built(r):
    """(object a caller builds from a class of the library, the node a peer must read)"""
    import pypsrp.complex_objects as co
    k = r.random()
    if k < 0.4:
        cls, t, v, n, consts = enum_choice(r)
        return _enum_py(r, cls, v, consts), Obj([t] + ENUM_BASE, n, [P("I32", v)])
    if k < 0.45:
        v = r.randint(0, 3)
        return co.PipelineResultTypes(protocol_version_2=True, value=v), \
            Obj([_SMA + "Runspaces.PipelineResultTypes"] + ENUM_BASE, ["None", "Output", "Error", "Output, Error"][v], [P("I32", v)])
    if k < 0.6:
        cls, a, b = r.choice([("Coordinates", "X", "Y"), ("Size", "Width", "Height")])
        x, y = _i(r), _i(r)
        return getattr(co, cls)(**{a.lower(): x.val, b.lower(): y.val}), \
            Obj([_SMA + "Host." + cls, "System.ValueType", "System.Object"], None, (), [(a, x), (b, y)])
    if k < 0.7:
        ch, down, code = gen.prim(r, ["C"]), gen.prim(r, ["B"]), _i(r)
        names = [x for x in sorted(OTHER["ControlKeyState"]) if r.random() < 0.4]
        if r.random() < 0.5:
            st = sum(getattr(co.ControlKeyState, x) for x in names)
            return co.KeyInfo(code=code.val, character=chr(ch.val), state=st, key_down=down.val), \
                Obj(None, None, (), (), [("virtualKeyCode", code), ("character", ch), ("keyDown", down),
                                         ("controlKeyState", P("I32", sum(OTHER["ControlKeyState"][x] for x in names)))])
        st = ", ".join(names)
        return co.KeyInfoDotNet(code=code.val, character=chr(ch.val), state=st, key_down=down.val), \
            Obj([_SMA + "Host.KeyInfo", "System.ValueType", "System.Object"], None, (),
                [("VirtualKeyCode", code), ("Character", ch), ("KeyDown", down), ("ControlKeyState", P("S", st))])
    if k < 0.8:
        return cell(r)
    if k < 0.9:
        f = [("LCID", "lcid", _i(r)), ("Name", "name", _s(r)), ("DisplayName", "display_name", _s(r)), ("IetfLanguageTag", "ietf_language_tag", _s(r)),
             ("ThreeLetterISOLanguageName", "three_letter_iso_name", _s(r)), ("ThreeLetterWindowsLanguageName", "three_letter_windows_name", _s(r)),
             ("TwoLetterISOLanguageName", "two_letter_iso_language_name", _s(r))]
        return co.CultureInfo(**{a: p.val for _, a, p in f}), Obj(None, None, (), [(n, p) for n, _, p in f])
    dims = [r.choice([1, 2, 3]) for _ in range(r.choice([1, 2, 2, 3]))]
    flat = []

    def fill(d):
        if not d:
            p = gen.prim(r, ["S", "I32", "B", "G"], 0.5) if kind == 0 else None
            v, n = (p.val, p) if kind == 0 else cell(r)
            flat.append(n)
            return v
        return [fill(d[1:]) for _ in range(d[0])]
    kind = r.choice([0, 1])
    lt = ["System.Object[]", "System.Array", "System.Object"]
    a = fill(dims)
    return co.Array(array=a), Obj(None, None, (), (), [("mae", Seq("LST", flat, lt)), ("mal", Seq("LST", [P("I32", d) for d in dims], lt))])
