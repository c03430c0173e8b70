"""Which checks are registered, and with what."""
MON = "runtime monitoring: "
CHECKS = {
    "C01": dict(technique=MON + "online reference-model monitor on serializer output (independent strict CLIXML decoder)",
                note="Random executions of the real serializer; every emitted document is decoded and compared with the caller's value."),
    "C02": dict(technique=MON + "online reference-model monitor on deserializer results (independent CLIXML encoder and model)",
                note="Random executions of the real deserializer within the collection types the library maps."),
    "C03": dict(technique=MON + "online reference-model monitor on text in both directions, all UTF-16 code units swept",
                note="Random and swept texts; the escape rules are modelled independently on UTF-16 code units."),
    "C04": dict(technique=MON + "online graph-isomorphism monitor on sent and received object graphs",
                note="Random graphs; sharing through lists when sending is only compared as a tree, as the library may repeat such values."),
    "C08": dict(technique=MON + "exactly-once, order and content monitor between what a scripted server produced and what the caller sees",
                note="The real client against an in-process scripted server with random fragmentation, batching, polls and faults."),
    "C09": dict(technique=MON + "exactly-once and order monitor on pipeline input as an independent server reassembles it",
                note="Random input shapes and envelope sizes; the server reassembles and decodes independently."),
    "C10": dict(technique=MON + "reference-model monitor: a model of the builder calls against the create message the server decodes",
                note="Random builder call sequences, values, merges, options, hosts and re-runs on three protocol versions."),
    "C05": dict(technique=MON + "confidentiality monitor: the peer decrypts with its own session key, and every byte sent is searched for the plaintext",
                note="The real client against a server holding its own RSA/AES side of the exchange; client- and server-initiated exchanges, time-outs."),
    "C06": dict(technique=MON + "strict fragment reassembly and envelope-size monitor on every request",
                note="Random sessions with message sizes placed around multiples of the fragment size learned from the wire."),
    "C07": dict(technique=MON + "delivery monitor: after each poll the messages handed to the caller against those whose last fragment was sent",
                note="Random and damaged fragment sequences down to one byte, interleaved over messages, streams, responses and pipelines."),
    "C11": dict(technique=MON + "reference state machine stepped online beside the real pool and pipelines",
                note="Random call sequences with faults and server state reports; states, errors and requests compared after every call."),
    "C12": dict(technique=MON + "conservation monitor: shells and commands the server holds against deletes and signals received",
                note="Every way of leaving a context incl. exceptions, faults and lost connections at each request of the helpers."),
    "C13": dict(technique=MON + "request/response correlation monitor by call identifier",
                note="Random call sequences with refusals, interrupted calls, late and foreign responses."),
    "C14": dict(technique=MON + "exactly-once monitor between host calls sent, host methods invoked and responses received",
                note="All method ids on pools, opening pools and several pipelines; a recording host, the default host against a model, no host."),
    "C15": dict(technique=MON + "outcome monitor: reply the server sent against value or typed error the caller gets",
                note="Every operation, and every reply of whole sessions replaced once; faults with any subset of parts, misdirected replies, HTTP errors with any body."),
    "C16": dict(technique=MON + "online trace monitor: every request of random operation sequences and whole sessions is parsed by an independent envelope reader and compared with the caller's action, target, options, sets, body, locales, sizes and time-outs",
                note="request envelope monitor"),
    "C17": dict(technique=MON + "online trace monitor over a simulated network with injected faults: every send, loss, connection attempt and delay is recorded and checked against the retry rules; delivered data compared with what the server handed out",
                note="retry and exactly-once monitor"),
    "C18": dict(technique=MON + "online state monitor: snapshots of process and pipeline state around every poll compared with a model of what the scripted server handed out; every other fault must surface with its code",
                note="poll fault monitor"),
    "C22": dict(technique=MON + "online state monitor: after every step the output, state and exit code of every process against what the scripted server handed out, and every command line, environment, option, stdin piece and signal the server read against what was given",
                note="WinRS process monitor"),
    "C23": dict(technique=MON + "end-to-end conservation monitor: the scripted server decodes the pipeline input as copy.ps1 does, and the file, checksum, arguments, warnings and result are compared with the local file; faults and remote failures injected at every request",
                note="Random files around multiples of the piece size, destinations and faults; copy.ps1 itself cannot run here, its effect is modelled."),
    "C24": dict(technique=MON + "end-to-end state monitor: the whole scratch tree (destination, temporary directory, home) before and after every fetch against what the scripted server put out; malformed output, faults at every request and short writes injected",
                note="fetch.ps1 itself cannot run here: its output is modelled as one base64 text and the hash."),
    "C25": dict(technique=MON + "end-to-end monitor: command, environment, script and every argument as the scripted server reads them, and output, streams, exit code and error flag against what it put out; CLIXML error documents against an independent encoder",
                note="Random commands, encodings, scripts, environments, output and CLIXML documents; faults at any request."),
    "C27": dict(technique=MON + "online monitor of pool/pipeline states, request targets and taken-over settings against a simulated server holding disconnected pools; exactly-once oracle for the output remaining after a hand-over",
                note="disconnect, reconnect, discovery, hand-over between clients; refused operations injected"),
    "C28": dict(technique=MON + "decoding monitor of every create/send request of an opening against the options asked for, state monitor at each request, and taken-over settings against what the simulated server negotiated",
                note="options, hosts, arguments up to several envelopes, protocol versions, batchings, broken pools and refused creates at random"),
    "C26": dict(technique=MON + "monitor of all connection attempts and requests during a liveness check over the real HTTP stack, against the answer and connection state injected",
                note="random sequences of answers, cuts, lost connections and re-authentication, direct or proxied, plain or encrypted, with another thread opening connections meanwhile"),
    "C21": dict(technique=MON + "runtime monitoring: online monitor at the accepting server (scheme, tokens, identity, decoded channel binding and target name of every NTLM AUTHENTICATE message) over real TLS and HTTP, against the configured settings and an independent RFC 5929 hash",
                note="real NTLM/SPNEGO acceptors, twenty certificate kinds, proxies, offers in many forms, rejections and forced re-authentication; Kerberos by a stand-in initiator"),
    "C19": dict(technique=MON + "runtime monitoring: byte-level monitor of every HTTP body and header (strict reader of the encrypted framing, decryption by the peer's real NTLM/SPNEGO/CredSSP context or an ideal cipher, plaintext markers), exact recovery both ways, and injected alterations",
                note="messages around multiples of 16384 bytes, replies of one to sixty parts with and without spacing, ciphertext full of MIME syntax, HTTP and TLS, proxies, forced re-authentication, servers skipping authentication"),
    "C20": dict(technique=MON + "runtime monitoring: monitor of every connection attempt, proxy tunnel, TLS session and HTTP request as the peers see them over real TLS, against a model of what random settings and environments must lead to",
                note="about 700 random configurations per quick run; TLS with trusted, untrusted, expired and wrong-name certificates; netrc, proxy and CA environment variables; time-outs in real time"),
    "C29": dict(technique=MON + "reference-model monitor on the decoded metadata request and on the returned objects",
                note="random requests and answers, split, batched and interleaved with another pipeline"),
    "C31": dict(technique=MON + "Runtime interference monitor: sessions of all other workloads run concurrently in threads with forced switches at pypsrp lines (sys.monitoring), each judged by its own online oracle; differential against the same session alone",
                note="Sessions on in-memory servers, two to six threads, switches forced at hashed or random lines of pypsrp, ElementTree and uuid; failures that also occur alone are left to the owning check."),
    "C30": dict(technique=MON + "Runtime log monitor: every log record of sessions from all other workloads is formatted and searched for credentials, keys and secure strings; differential oracle against the same session without logging; subprocess runs for the configuration",
                note="DEBUG, INFO and WARNING levels on the pypsrp loggers over all in-memory, wire-level and TLS workloads; loggers of other libraries are left out."),
}
NOT_APPLICABLE = {}
