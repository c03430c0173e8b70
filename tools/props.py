"""Single source of the property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": hook,
        },
    ))


SER = "src/pypsrp/serializer.py"
MSG = "src/pypsrp/messages.py"
CO = "src/pypsrp/complex_objects.py"
PS = "src/pypsrp/powershell.py"
SH = "src/pypsrp/shell.py"
WS = "src/pypsrp/wsman.py"
ENC = "src/pypsrp/encryption.py"
NEG = "src/pypsrp/negotiate.py"
PM = "src/pypsrp/_pool_manager.py"
CL = "src/pypsrp/client.py"
HO = "src/pypsrp/host.py"
EX = "src/pypsrp/exceptions.py"
UT = "src/pypsrp/_utils.py"

prop("C01", "Values sent to the peer arrive with the type and value the caller gave",
     "Every value the caller hands over for transmission (None, booleans, integers, floats, strings, bytes, GUIDs, lists, dictionaries, queues, stacks, explicitly tagged primitives, nested to any depth) is emitted as well-formed CLIXML that a conforming peer decodes to the same type tag, the same value and the same element order. "
     "Serialising a value does not change the caller's value.",
     ["inputs"], "all values over the supported type grammar, nested and mixed, through the serializer and through real pipeline parameters, arguments, inputs and application arguments",
     "The tests serialise about two dozen hand-picked values and compare them to literal XML; the claim is over all values and nestings.",
     [SER, MSG, CO],
     [("tag selection and per-tag packing", SER + ":Serializer.serialize"), ("container packing", SER + ":Serializer._serialize_lst/_serialize_dct/_serialize_que/_serialize_stk")],
     ["bytes of the PSRP messages handed to the transport", "XML element returned by serialize"])

prop("C02", "Values received from the peer decode to what the peer sent",
     "Every well-formed CLIXML value a peer may send - any primitive at any point of its range including empty and extreme ones, lists, dictionaries, queues, stacks, arrays and generic collections of the .NET collection types the library knows, nested to any depth - is delivered to the caller as the Python value it denotes, with element order and dictionary association preserved. "
     "No value of a message is lost, merged with another or replaced by a default.",
     ["inputs"], "all CLIXML documents generated from the value grammar with every legal presentation (empty elements, type-name references, BOM, attribute order)",
     "Tests decode a few recorded documents; each fixes one value and one presentation.",
     [SER, MSG, CO],
     [("per-tag unpacking", SER + ":Serializer.deserialize"), ("container unpacking", SER + ":Serializer._deserialize_lst/_deserialize_dct")],
     ["return of deserialize", "PowerShell.output after a run against the scripted peer"])

prop("C03", "Text survives CLIXML escaping exactly, in both directions",
     "Any text (control characters, surrogate pairs and unpaired surrogates, literal sequences that look like _xHHHH_ escapes, any other Unicode) sent as a string, script, parameter, property name or type name is escaped so that a conforming peer reads back exactly that text, and any escaped text a conforming peer sends is decoded to exactly the text it denotes. "
     "Characters that XML cannot carry never appear unescaped in what is sent.",
     ["inputs"], "all strings over Unicode code points, biased to escape-like sequences, both directions",
     "Tests list about fifteen strings; escaping bugs live in combinations (adjacent escapes, case, alignment, surrogates).",
     [SER],
     [("escape", SER + ":Serializer._serialize_string"), ("unescape", SER + ":Serializer._deserialize_string")],
     ["XML text handed to the transport", "strings returned to the caller"])

prop("C04", "Object graphs keep identity, members and type names",
     "An object graph with adapted and extended properties, type-name lists, string forms and members that refer repeatedly or cyclically to the same object is transmitted so that a conforming peer rebuilds the same members, values, type names and references, and an object graph received from a peer is rebuilt with repeated references yielding the same object and type-name references yielding the right type names. "
     "References never leak from one message into another. "
     "Objects of the structured types the library models (enumerations and flags, coordinates, sizes, keys, buffer cells, cultures, arrays) reach the peer as, and are received from, the PowerShell objects of those types; records and command metadata are received with their members.",
     ["inputs", "histories"], "random object graphs with sharing, cycles and colliding leading type names, over sequences of messages on one connection",
     "Tests cover single objects and one shared reference; identity and type-table bugs need several related objects or several messages.",
     [SER, CO],
     [("reference table", SER + ":Serializer.obj"), ("type-name table", SER + ":Serializer._create_tn/_get_types_from_obj"), ("per-message reset", SER + ":Serializer._clear")],
     ["XML handed to the transport", "objects returned to the caller"],
     state=[("obj/tn tables", "RefId to object and type list for the current message", SER)])

prop("C05", "Secure strings are only ever sent encrypted under the exchanged session key",
     "After the key exchange a secure string or credential password reaches the peer encrypted with the session key the peer issued, decrypts there to exactly the caller's text, and one received decrypts to exactly what the peer encrypted; its plaintext never appears in any bytes sent. "
     "Before a key exchange, sending one fails with a serialization error and nothing is transmitted for it. The exchange runs at most once per pool, also when the server requests it, uses a fresh key pair per pool, and ends in a time-out error if the server never answers.",
     ["inputs", "histories"], "all passwords (any Unicode, any length around block boundaries), session keys, exchange orders and repeated or server-requested exchanges",
     "Tests use one recorded exchange with a mocked key; secrecy is a statement about all bytes sent.",
     [PS, SER, CO, MSG],
     [("key exchange", PS + ":RunspacePool.exchange_keys/_process_encrypted_session_key"), ("encryption", SER + ":Serializer._serialize_secure_string")],
     ["all request bytes", "values returned to the caller", "peer-side decryption"])

prop("C06", "Outgoing messages are fragmented losslessly and within the envelope limit",
     "For any sequence of messages of any sizes and any negotiated or configured envelope size, the fragments put on the wire reassemble, by fragment header alone, to exactly the messages in the order they were issued: one object id per message, never reused and increasing, fragment numbers 0,1,2,..., start and end set on exactly the first and last. "
     "No HTTP request body built for PSRP data exceeds the maximum envelope size in force when it was sent.",
     ["inputs", "configurations", "histories"], "all message sizes around multiples of the fragment size, all envelope sizes, multi-message batches, and the size upgrade after negotiation",
     "Tests fragment a few fixed buffers; the size bound depends on every configuration field and on history (upgrade).",
     [PS, WS],
     [("fragmentation", PS + ":Fragmenter.fragment/fragment_multiple"), ("size budget", WS + ":WSMan._calc_envelope_size/update_max_payload_size")],
     ["request bodies on the wire", "return of fragment/fragment_multiple"],
     state=[("max_size", "payload bytes per fragment", PS + ":Fragmenter"), ("outgoing_counter", "next object id", PS + ":Fragmenter")])

prop("C07", "Incoming fragments are reassembled exactly, or rejected",
     "However the peer splits messages into fragments, spreads fragments over responses and interleaves fragments of different messages, each message is delivered exactly once with exactly its bytes, at the point its last fragment arrives and in the order messages complete. "
     "A message of several fragments in which one is missing, repeated or out of order is rejected with the fragment error and is never delivered, and message identity fields (destination, type, pool id, pipeline id) read from or written to the wire equal those on the other side.",
     ["inputs", "histories", "fault_sequences"], "all fragmentations, interleavings and batchings of message sequences, plus single-fault mutations of them",
     "Tests use two or three fixed fragment lists and one bad id.",
     [PS, MSG],
     [("defragment", PS + ":Fragmenter.defragment"), ("fragment header", PS + ":Fragment.pack/unpack"), ("message header", MSG + ":Message.pack/unpack")],
     ["messages returned by defragment", "message objects delivered to handlers"])

prop("C08", "Pipeline output and streams arrive complete, once, in order, on their pipeline",
     "Every output object and every error, warning, verbose, debug, progress and information record the server emits for a pipeline is available on that pipeline exactly once, in emission order, in the matching collection and with its content intact, however the server batches them over responses and however several pipelines on one pool are polled in turn; nothing appears on another pipeline. "
     "Waiting for a pipeline returns once the server reports a terminal state and not before, with that state, with the failure record added to the errors and the had-errors flag set when it failed; pool-level events and warnings reach the pool.",
     ["inputs", "histories", "schedules"], "all record sequences, batchings, empty polls, operation time-outs and interleavings of several pipelines",
     "Recorded tests replay one pipeline with one server batching.",
     [PS, MSG, CO],
     [("dispatch", PS + ":RunspacePool._parse_responses"), ("collection", PS + ":PowerShell.poll_invoke/end_invoke")],
     ["PowerShell.output/streams/state/had_errors", "RunspacePool.user_events and warnings"])

prop("C09", "Pipeline input reaches the server once, in order, and is terminated",
     "Every object supplied as pipeline input - as a single value, a list, or a generator yielding values or lists - is delivered to that pipeline exactly once and in order, followed by exactly one end-of-input after the last object; the create message announces input if and only if input was supplied. "
     "Input data is never sent before the pipeline exists on the server.",
     ["inputs", "histories"], "all input shapes, sizes and counts, generators of values and lists including empty ones, several pipelines",
     "Tests send a few small inputs; loss and missing terminators depend on generator shape and fragment boundaries.",
     [PS],
     [("input pump", PS + ":PowerShell.begin_invoke"), ("batching", PS + ":Fragmenter.fragment_multiple")],
     ["messages reassembled by the scripted server"])

prop("C10", "The pipeline the server runs is the pipeline the caller built",
     "Whatever sequence of cmdlets, scripts, parameters, arguments, statements and stream-merge settings the caller builds, the create message the server decodes contains exactly these commands grouped into the same statements in the same order, with parameter names, values and order, script and scope flags, history, nesting, apartment, stream options, error redirection and host information as given. "
     "Merge settings appear as set and only those the negotiated protocol version supports; an unsupported or invalid merge request raises the operation error and changes nothing.",
     ["inputs", "programs", "configurations"], "all builder call sequences, option combinations and protocol versions 2.1, 2.2 and 2.3, including re-invoking the same object",
     "Tests check a handful of builder chains against literal XML at one protocol version each.",
     [PS, CO, MSG],
     [("builder", PS + ":PowerShell.add_*/merge_*"), ("statement grouping", CO + ":Pipeline._get_statements"), ("version gating", CO + ":Command")],
     ["CREATE_PIPELINE message decoded by the scripted server"])

prop("C11", "Runspace pool and pipeline state changes follow the documented life cycle",
     "At every point of any call sequence the pool's and pipelines' reported states are those the documented life cycle prescribes for the calls made and the states the server reported. "
     "A call that is illegal in the current state raises the matching invalid-state or invalid-operation error without any request being sent and without changing state, and calls documented as no-ops in a state send nothing.",
     ["histories", "fault_sequences"], "all bounded sequences of public pool and pipeline operations against servers that report every legal state, including broken and stopped",
     "Tests try individual illegal calls from one state; the claim is over all histories.",
     [PS],
     [("guards", PS + ":RunspacePool/PowerShell state checks"), ("server-reported state", PS + ":_process_runspacepool_state/_process_pipeline_state")],
     ["public state attributes", "raised exceptions", "requests on the wire"])

prop("C12", "Server-side resources are released exactly once, also when the body fails",
     "Leaving the context of a pool, shell or client - normally or with an exception - deletes each shell that was opened exactly once, targeting that shell's own identifier, and never deletes one that was not opened, was already closed, or that the server reported broken or gone. "
     "Stopping or closing a pipeline sends one signal for that pipeline's own command and removes it from the pool; a failed open does not leave the object claiming to be open. "
     "Leaving or closing a client or a WSMan connection leaves none of its network connections open.",
     ["histories", "fault_sequences"], "all sequences of open, use, failure at any request, and close, over WinRS shells, pools and the high-level client calls",
     "Tests exercise the happy path; leaks show only when a request in the middle fails.",
     [PS, SH, CL, WS],
     [("context managers", PS + ":RunspacePool.__exit__"), ("shell deletion", SH + ":WinRS.close")],
     ["Create/Delete/Signal requests counted at the server"])

prop("C13", "Pool-level calls are answered by their own response",
     "Changing the minimum or maximum number of runspaces, asking for available runspaces and resetting state each send one request with an identifier unique in the pool, and return or raise according to the response carrying that identifier, whatever other responses and messages arrive before it. "
     "A refused change raises the operation error and leaves the reported limits as they were; an accepted one updates them; a value equal to the current one, or one set before opening, sends nothing.",
     ["histories", "schedules"], "all sequences of such calls with random acceptance, unrelated traffic and batching in between",
     "Tests issue one call at a time with the next response always matching.",
     [PS, MSG],
     [("call table", PS + ":RunspacePool.ci_table"), ("handler", PS + ":_process_runspacepool_availability")],
     ["SET/GET/RESET messages at the server", "return values and properties"],
     state=[("ci_table/_ci_counter", "outstanding calls", PS + ":RunspacePool")])

prop("C14", "Host calls run the right host method and answer the right call",
     "Every host call the server makes, for the pool or a pipeline, invokes exactly once the host method its identifier names, with the arguments sent and the pool and pipeline it belongs to, and when the method returns a value exactly one response with the same call and method identifiers and that value goes back to the server for the same pool or pipeline. "
     "The default host's methods have the documented effect; without a host no response is sent and execution continues.",
     ["inputs", "histories"], "all method identifiers, argument values and return values, interleaved with output from several pipelines",
     "Tests call host methods directly with one value each.",
     [HO, PS, MSG, CO],
     [("dispatch", HO + ":PSHost.run_method"), ("response", PS + ":RunspacePool._process_host_call")],
     ["host method invocations", "HOST_RESPONSE messages at the server"])

prop("C15", "Replies are matched to their request and failures surface as typed errors",
     "A reply is accepted only if it names the request just sent; any other reply raises an error instead of being returned as data. "
     "A SOAP fault raises the WSMan fault error with the code, machine, reason and provider details the server sent, HTTP 401 raises the authentication error, and any other HTTP failure raises the transport error with its status and body - never a success and never a parser exception.",
     ["inputs", "fault_sequences"], "all operations, fault documents with any subset of optional parts, HTTP statuses and bodies, and misdirected replies",
     "Tests parse four or five recorded faults.",
     [WS, EX],
     [("relates-to check", WS + ":WSMan.invoke"), ("fault parsing", WS + ":WSMan._parse_wsman_fault"), ("http mapping", WS + ":_TransportHTTP._send_request")],
     ["exceptions raised to the caller"])

prop("C16", "Request envelopes carry exactly the addressing the operation needs",
     "Each request is a well-formed SOAP envelope with the action of the operation called, the resource URI and selectors of its target shell, the options given, a fresh message id, the session id of the connection, the configured locales, the endpoint address, the maximum envelope size in force and the operation time-out in effect (per-call override or connection default), with the caller's body unchanged. "
     "A per-call time-out bounds the HTTP wait too, longer than the operation time-out itself.",
     ["inputs", "configurations", "histories"], "all operations, option and selector sets, locales, time-outs, envelope sizes and text content including XML metacharacters",
     "Tests match recorded requests for one configuration.",
     [WS, SH],
     [("header construction", WS + ":WSMan._create_header"), ("sets", WS + ":_WSManSet.pack")],
     ["request bodies and HTTP time-outs at the transport"])

prop("C17", "Only receive polls are retried, boundedly, and nothing runs or arrives twice",
     "When a response is lost to a read or connect time-out, only a receive poll is sent again - the identical message, after a growing delay, at most five more times - and its data is delivered exactly once; every other request is sent at most once and the time-out reaches the caller. "
     "Failures to establish a connection are retried up to the configured number of times with the configured backoff, and no other failure is retried.",
     ["fault_sequences", "histories"], "all placements of time-outs and connection failures over the requests of a session, with and without message encryption",
     "Tests inject one time-out pattern with a mocked session.",
     [WS],
     [("retry loop", WS + ":_TransportHTTP.send"), ("receive opt-in", WS + ":WSMan.receive"), ("connection retries", WS + ":_TransportHTTP._build_session")],
     ["requests observed by the server incl. duplicates", "delays requested", "results and exceptions"])

prop("C18", "An operation time-out is an empty poll; any other fault is not swallowed",
     "When the server answers a poll of a process or pipeline with the operation-timed-out fault, polling continues with all output, streams, state and return code seen so far intact and the final result unaffected, however many times it happens. "
     "Every other fault during polling is raised to the caller.",
     ["fault_sequences", "histories"], "all placements of operation time-outs and other faults among the polls of processes and pipelines",
     "Tests inject one time-out before one response.",
     [SH, PS],
     [("process poll", SH + ":Process.poll_invoke"), ("pipeline poll", PS + ":PowerShell.poll_invoke")],
     ["stdout/stderr/rc/state, output/streams/state, exceptions"])

prop("C19", "Encrypted sessions put no payload on the wire in clear and detect tampering",
     "Whenever message encryption is in force (always over HTTP unless disabled, over HTTPS when asked for) each request body carrying WSMan data is encrypted for the authenticated context and correctly framed with its length, so that the peer recovers exactly the message, for any message size and content; no SOAP content appears in clear in any body or before authentication. "
     "Any encrypted reply - one or many parts, with or without the Exchange boundary spacing, whatever bytes the ciphertext contains - is recovered exactly, and one whose length or content was altered raises an error rather than being returned.",
     ["inputs", "configurations", "fault_sequences"], "all message sizes and contents, ciphertext bytes resembling MIME syntax, NTLM and CredSSP framing, single-byte tampering",
     "Tests unwrap a few recorded replies with mocked contexts.",
     [ENC, WS],
     [("wrap/unwrap", ENC + ":WinRMEncryption"), ("when to encrypt", WS + ":_TransportHTTP.__init__/send")],
     ["raw HTTP bodies at a real loopback server holding the peer NTLM context", "exceptions"])

prop("C20", "Connection security settings are honoured or refused before anything is sent",
     "A combination of TLS, authentication and encryption that cannot protect the traffic as asked, or lacks required credentials, is refused with an error before any network traffic; a valid one yields exactly that endpoint address, scheme, credentials, certificate verification mode, client certificate, proxy choice and time-outs. "
     "An untrusted or wrong-name server certificate is rejected unless validation was disabled, and environment proxy and CA settings never override explicit ones.",
     ["configurations"], "the cross product of all connection options and relevant environment variables",
     "Tests pick about thirty combinations, mostly one option at a time.",
     [WS, PM],
     [("validation", WS + ":_TransportHTTP.__init__"), ("session", WS + ":_TransportHTTP._build_session")],
     ["constructor outcome", "prepared requests and adapter arguments", "real TLS handshakes on loopback"])

prop("C21", "Negotiate authentication completes with the right binding or fails as an error",
     "Against a server that requires Negotiate, NTLM or Kerberos authentication, the client picks an offered protocol compatible with the configured one, completes the handshake so the server accepts the configured identity, and over HTTPS binds it to that server's certificate with the RFC 5929 hash for its signature algorithm unless binding is disabled. "
     "A rejected credential, an unsupported offer or an incompatible protocol raises an error and no request is treated as successful; authentication is repeated whenever the server asks again.",
     ["inputs", "configurations", "fault_sequences"], "server offers, header formats, certificate signature algorithms, credentials, and forced re-authentication",
     "Tests use recorded certificates and mocked contexts for the handshake.",
     [NEG, WS],
     [("401 handling", NEG + ":HTTPNegotiateAuth.handle_401"), ("channel binding", NEG + ":HTTPNegotiateAuth._get_cbt_data/_get_certificate_hash")],
     ["the acceptor's view of the handshake on a real loopback server", "exceptions"])

prop("C22", "A WinRS process returns exactly the bytes and exit code the server produced",
     "The standard output and error bytes, exit code and state of a process equal exactly what the server produced for that command, in order, however it splits them over stream elements and polls; standard input bytes, their end marker and signals arrive at that command exactly as given. "
     "The executable, arguments, environment, working directory, code page, time-outs and options arrive as given, for any text, also when a closed shell is opened again, and the shell shows what the server said about it.",
     ["inputs", "histories"], "all outputs, chunkings, exit codes, arguments and environments, several processes in one shell",
     "Tests replay recorded commands.",
     [SH],
     [("receive", SH + ":WinRS.receive"), ("poll", SH + ":Process.poll_invoke"), ("command", SH + ":WinRS.command/open/send/signal")],
     ["Process attributes", "requests decoded by the server"])

prop("C23", "A copied file arrives complete and verified, or the copy fails",
     "For a file of any size and content the data delivered to the remote script, concatenated in order and followed by its checksum, is exactly the local file and its SHA-1, in pieces that each fit one message; the returned path is the one the server reports. "
     "If the remote side reports an error the copy raises an error instead of returning. The local file is left as it was and is not kept open.",
     ["inputs", "configurations", "fault_sequences"], "all file sizes around buffer multiples (including empty), contents, destinations and envelope sizes, and remote failures",
     "Tests copy two or three small files against recordings.",
     [CL, PS],
     [("chunking reader", CL + ":Client.copy"), ("remote script", "src/pypsrp/pwsh_scripts/copy.ps1")],
     ["pipeline input reassembled at the scripted server, interpreted as the script does"])

prop("C24", "A fetched file is byte-identical or the destination is untouched",
     "Fetching writes the destination only after the received data matches the remote checksum, and then with exactly the remote bytes, replacing any previous content; on checksum mismatch, remote error, malformed data or transport failure it raises and leaves the destination as it was. "
     "No temporary file remains in either case, and no file is left open.",
     ["inputs", "fault_sequences"], "all file contents and sizes, server-side chunkings of the output, corrupted data or checksum, failures at any request",
     "Tests fetch two files and one with a bad hash.",
     [CL],
     [("verify then place", CL + ":Client.fetch"), ("remote script", "src/pypsrp/pwsh_scripts/fetch.ps1")],
     ["destination file and temporary directory before and after"])

prop("C25", "The one-call helpers return what ran, undistorted",
     "Running a command line returns the decoded standard output and error and the exit code of exactly that command; running a script sends that script and environment unaltered and returns its output lines joined in order, its streams and whether it failed. "
     "Cleaning CLIXML error text returns exactly the error text it encodes, decoded, and leaves any other text unchanged.",
     ["inputs"], "all commands, scripts, environments, encodings, outputs and CLIXML error documents",
     "Tests run a few commands against recordings.",
     [CL, SER],
     [("execute", CL + ":Client.execute_cmd/execute_ps"), ("sanitise", CL + ":Client.sanitise_clixml")],
     ["return values", "requests decoded by the server"])

prop("C26", "Liveness checks tell the truth and never open a new connection",
     "Asking whether a pool is alive returns true only when the server answers over the existing connection that the shell exists and is not disconnected; a closed connection, a time-out, or an answer that the shell is gone returns false and marks the pool closed so that closing it sends nothing. "
     "It never opens a network connection, leaves later operations free to open one, and raises faults that say nothing about liveness.",
     ["fault_sequences", "histories"], "all server answers and connection states at the moment of the check, before and after other operations",
     "Tests mock the connection layer for three cases.",
     [PS, PM, SH],
     [("check", PS + ":RunspacePool.is_alive"), ("connection guard", PM + ":DisableNewConnectionsContext")],
     ["accepts counted at a real loopback server", "return value and later requests"])

prop("C27", "Disconnected pools and pipelines are found, reconnected and drained faithfully",
     "Disconnecting a pool and connecting again - from the same client or from another after discovery - targets that shell, moves pool and pipelines through the disconnected state and back, takes over the negotiated pool settings, and afterwards delivers each pipeline's remaining output to that pipeline. "
     "Discovery returns exactly one pool per remote shell, in the disconnected state, with exactly its running commands.",
     ["histories", "inputs"], "all sets of remote shells and commands and all disconnect/reconnect points in a run",
     "Tests replay one recorded disconnect.",
     [PS],
     [("disconnect/connect", PS + ":RunspacePool.disconnect/connect/_connect_new_client"), ("discovery", PS + ":RunspacePool.get_runspace_pools")],
     ["requests at the server", "returned pools and pipelines, states, output"])

prop("C28", "Opening a pool negotiates exactly the pool that was asked for",
     "Opening a pool sends one create request whose decoded content is the client's capability followed by an initialisation with the requested minimum and maximum runspaces, thread and apartment options, host description and application arguments of any size, and the pool is open only when the server says so. "
     "The negotiated versions, server limits, private data and any enlarged message size are taken over from what the server sends, in any batching; a broken pool report raises an error.",
     ["inputs", "configurations", "histories"], "all option values, hosts, application arguments small and larger than one fragment, server versions and message batchings",
     "Tests replay one open per configuration.",
     [PS, CO, MSG, WS],
     [("open", PS + ":RunspacePool.open"), ("negotiation", PS + ":_process_session_capability/_process_runspacepool_init_data")],
     ["create and send requests decoded at the server", "public pool attributes"])

prop("C29", "Command metadata is asked for as given and returned complete",
     "Asking a pool for command metadata sends one request whose decoded names, command types, namespaces and arguments are exactly those given, and returns one metadata object per command the server describes, in the order sent, with name, namespace, help address, command type, output types and every parameter's name, type, aliases and flags as sent; the leading count object is not among them. "
     "Other pipelines of the pool keep their output and state.",
     ["inputs", "histories"], "any names, types, namespaces and arguments, any metadata content, splitting and batching of the answer",
     "Tests replay one recorded answer per kind of request.",
     [PS, CO, MSG, SER],
     [("request", PS + ":RunspacePool.get_command_metadata"), ("request message", MSG + ":GetCommandMetadata"), ("metadata objects", CO + ":CommandMetadata, ParameterMetadata")],
     ["the GET_COMMAND_METADATA message at the server", "the returned list"])

prop("C30", "Logging neither changes a session nor shows its secrets",
     "With the pypsrp loggers turned on at any level, by the caller or through PYPSRP_LOG_CFG, every session sends, returns and raises exactly what it does without; every record can be formatted, and what was sent and received is in the log. "
     "No record ever holds the account's password, a key or proxy password, the authorization header, the session key or the text of a secure string. "
     "Without a logging configuration the library prints nothing and leaves the root logger alone.",
     ["inputs", "configurations", "histories"], "all sessions, log levels, credentials and secure strings",
     "Tests run with logging unconfigured, so the text of most records is never looked at.",
     [WS, PS, MSG, SER, CL],
     [("set-up", "src/pypsrp/__init__.py:_setup_logging"), ("message records", WS + ":_TransportHTTP.send/_send_request"), ("PSRP records", MSG + ":Message.pack/unpack")],
     ["formatted log records of a handler on the root and pypsrp loggers", "the same session without logging", "stdout and stderr of a subprocess"])

prop("C31", "Separate sessions do not disturb each other, also when used from several threads",
     "Connections, shells, pools, pipelines and serializers that share nothing are independent: used side by side in several threads, or alternating in one, each sends, receives, returns and raises exactly what it does alone, whatever the others do at that moment, also while they are being created.",
     ["schedules", "inputs", "histories"], "all sets of sessions and all interleavings of their steps",
     "Tests run one session at a time in one thread.",
     [WS, PS, MSG, SER, SH, CL, PM],
     [("process-wide state", WS + ":NAMESPACES, WSMan.__init__"), ("per-object state", PS + ":RunspacePool, PowerShell, Fragmenter"), ("per-serializer state", SER + ":Serializer")],
     ["each session's own oracle, run in company and alone", "thread switches inside pypsrp's lines"])
