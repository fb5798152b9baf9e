#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
A property is claimed when the harness has a scenario for it (listed in CLAIMED)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe, note, state=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, observe=observe, note=note, state=state or [])

def M(*pairs):
    return [dict(name=n, where=w) for n, w in pairs]

PROPS = [
P("C01", "A Send returns the reply to its own request",
  "Over one OCPP-J connection any number of requests may be sent concurrently, from either side, and the peer may answer them in any order: every Send returns exactly the response that carries the message id of its own request, decoded as the response type of that request. Replies that nobody waits for (unknown id, a second reply to the same id, a reply after the Send gave up) change nothing. No two requests on a connection share a message id.",
  ["schedules", "histories"], "all interleavings (bounded deviations) of concurrent Sends and the connection's reader; all histories up to the depth of the scenario of sends, replies in any order, duplicate, unsolicited, malformed and error replies",
  "tests send one request at a time over a loopback socket with an echoing peer; the interleaving of several pending calls and hostile reply orders is never produced",
  ["ws/conn.go", "internal/service/json.go", "internal/service/cs.go", "internal/service/cp.go"],
  M(("pending calls keyed by message id", "ws/conn.go SendRequest/deliver"), ("response type from the request", "ws/conn.go callResultToResponse")),
  ["frames at a scripted websocket peer", "results of Send"], ""),
P("C02", "Every Send over OCPP-J ends: answered, failed promptly, or timed out",
  "A Send over a websocket connection returns the response as soon as a valid one arrives within 60 seconds, returns an error promptly once the connection ends, and otherwise returns an error about 60 seconds after the request, also when the peer stays silent or stops reading. A response that arrived before the connection ended is not lost. A timed out Send does not harm the connection: a late reply is ignored and later requests work.",
  ["schedules", "histories", "fault_sequences"], "all interleavings (bounded) of reply, timeout, close and further traffic; all histories up to the scenario's depth; loss as websocket close, TCP close, reset, silence or a peer that stops reading",
  "the 60 s timeout and the losses are never exercised by the tests, nor the races between reply, timer and close",
  ["ws/conn.go", "internal/request_timeout.go"],
  M(("select on response, connection end and timer", "ws/conn.go SendRequest"), ("non-blocking delivery", "ws/conn.go deliver"), ("write deadline", "ws/conn.go sendMessage")),
  ["virtual time at which Send returns", "its result"], ""),
P("C03", "Every received call is handled once, in order, and answered exactly once",
  "For every well-formed call of a supported action that an OCPP-J connection receives, the application's handler runs exactly once, with the decoded request, in the order of arrival on that connection, and exactly one message with the call's message id is sent back: a CallResult with the handler's response, or a CallError if the handler returned an error, no response, or one that cannot be encoded. This also holds while Sends of the same connection are pending or answered.",
  ["schedules", "histories", "inputs"], "all interleavings (bounded) of pipelined calls with concurrent Sends and replies; all histories up to the scenario's depth; slow, failing, nil-returning handlers",
  "tests check single calls in lock step only; loss, duplication or reordering needs particular interleavings and handler outcomes",
  ["ws/conn.go", "cs/cs.go", "cp/json.go"],
  M(("one reader hands calls to the connection loop", "ws/conn.go ReadMessage"), ("dispatch and response", "cs/cs.go handleWebsocket, cp/json.go handleWebsocketConnection"), ("fallback to CallError", "ws/conn.go SendResponse")),
  ["handler invocations", "frames at the peer"], ""),
P("C04", "Malformed frames never crash, close or disturb an OCPP-J connection",
  "A text message that is not a valid OCPP-J message (not JSON, not an array, too few elements, elements of the wrong JSON type, unknown message type, reply without a call) is ignored: the process does not panic, no handler is called, no Send is affected, the connection stays open and valid messages before and after it are processed as usual.",
  ["inputs", "histories"], "an enumerated grammar of malformed frames (every element deviating to every JSON type, every length) injected at every point of the histories explored, on the central system and on the charge point side",
  "no test sends a malformed frame",
  ["ws/conn.go", "cs/cs.go", "cp/json.go"],
  M(("UnmarshalMessage checks", "ws/conn.go"), ("loop continues on decode errors", "cs/cs.go, cp/json.go")),
  ["process survival", "connection state", "handler invocations", "results of Send"], ""),
P("C05", "Free of data races; messages on the wire are whole",
  "With any number of goroutines sending, connections opening and closing, listeners and wait channels in use and debug logging enabled, the library performs no data race, and every websocket message it writes is a complete, correctly framed and masked message that is not interleaved with another.",
  ["schedules"], "all schedules within the deviation bound of the concurrent scenarios, executed under the Go race detector",
  "the test suite does not run with the race detector and hardly has concurrency",
  ["ws/conn.go", "cs/cs.go", "cp/cp.go", "cp/json.go"],
  M(("sendMux and pendingMux", "ws/conn.go"), ("connMux", "cs/cs.go, cp/cp.go")),
  ["race reports whose access is in the library", "frames at the peer"], "Race detection is per explored schedule (happens-before), scheduling is controlled by a patched Go runtime."),
P("C06", "Calls of the wrong role, of unknown actions or not decodable get a CallError",
  "A call whose action is unknown, whose action belongs to the other role (a central system receiving a charge-point-side action or vice versa), or whose payload does not decode as its action, is answered with a CallError carrying its message id and an error code of OCPP-J, never reaches the handler, and leaves the connection usable.",
  ["inputs", "histories"], "every action name of both roles, unknown names and undecodable payloads, at every point of the histories explored, on both sides",
  "tests only send supported actions with valid payloads",
  ["ws/conn.go", "messages/req/actions.go", "cs/cs.go", "cp/json.go"],
  M(("callToRequest", "ws/conn.go"), ("role assertion", "cs/cs.go handleWebsocket, cp/json.go handleWebsocketConnection")),
  ["frames at the peer", "handler invocations"], ""),
P("C07", "Errors travel: CallErrors reach the sender, handler errors reach the peer",
  "If the peer answers a request with a CallError, Send returns a nil response and an error that contains the error code and the description; if it answers with a CallResult that does not decode as the response of that action, Send returns an error. If a handler returns an error, the peer receives a CallError of code InternalError whose description is the text of that error.",
  ["inputs", "histories"], "every standard error code and special descriptions; at every point of the histories explored; both sides",
  "no test looks at errors",
  ["ws/conn.go", "ws/message.go"],
  M(("CallErrorMessage as error", "ws/message.go"), ("unmarshalResponse", "ws/message.go")),
  ["result of Send", "frames at the peer"], ""),
P("C08", "No goroutine outlives the connection or request that created it",
  "Whatever messages were exchanged, including malformed ones, unanswered and timed out requests, once the connections of a central system have ended (and the contexts of its charge points are done) no goroutine of the library is left behind; while a connection is open the number of goroutines does not grow with the traffic.",
  ["histories", "schedules", "fault_sequences"], "all histories up to the scenario's depth and all schedules within the bound, goroutine stacks inspected at quiescence",
  "no test counts goroutines",
  ["ws/conn.go", "cs/cs.go", "cp/json.go"],
  M(("buffered results of the asynchronous reader", "ws/conn.go ReadMessageAsync"), ("context of the connection", "ws/conn.go Close")),
  ["stacks of goroutines in the library at quiescence"], ""),
P("C09", "A charge point is reachable exactly while it has an open connection",
  "For version 1.6 the central system hands out a service for an identity if and only if that identity has at least one open websocket connection, whatever other connections of the same or other identities opened and closed before and in whatever order; requests sent through it reach that charge point and no other over a connection that is open. A Send through a service obtained earlier whose connection has ended fails with an error.",
  ["histories", "schedules"], "all histories of connects and disconnects (close frame, TCP close, reset) of two identities with several simultaneous connections each, up to the depth of the scenario; concurrent connects and disconnects under all schedules within the bound",
  "the tests cover four fixed connection sequences with sleeps",
  ["cs/cs.go"],
  M(("connection table under connMux", "cs/cs.go handleWebsocket"), ("GetServiceOf", "cs/cs.go")),
  ["result of GetServiceOf and Send", "frames at the peers"], ""),
P("C10", "One connect and one disconnect notification per connection, in order",
  "For every websocket connection that a central system accepts, the connection listener is called exactly once with the identity of the charge point, while or after it became reachable, and the disconnection listener exactly once, after the connection ended and after the connection listener of that connection returned. A listener that blocks does not keep other connections from being served.",
  ["histories", "schedules"], "all histories of connects and disconnects up to the depth; all schedules within the bound for concurrent ones; blocking listeners",
  "tests register listeners in one fixed sequence",
  ["cs/cs.go"],
  M(("listener goroutines", "cs/cs.go handleWebsocket")),
  ["listener invocations"], ""),
P("C11", "WaitConnect and WaitDisconnect of a central system are done when they should",
  "A channel obtained by WaitConnect for an identity is done at once if a connection is open and otherwise becomes done when the identity connects, not before; all waiters are released. A channel obtained by WaitDisconnect is done at once if no connection is open, is not done while every connection of the identity stays open, and is done once all of them ended.",
  ["histories", "schedules"], "channels taken after every step of all connection histories up to the depth, for both identities, and around concurrent connects and disconnects",
  "tests use each channel once in one sequence",
  ["cs/cs.go", "ws/conn.go"],
  M(("connChans", "cs/cs.go"), ("WaitClose", "ws/conn.go")),
  ["state of the channels"], ""),
P("C12", "Requests are attributed to the charge point that sent them",
  "The metadata that a central system's handler receives carry the identity of the charge point whose connection the request arrived on (for any identity without empty or dot path segments, including ones with characters that need escaping in a URL) and the HTTP request that opened the connection; the response goes to that connection only. The identity a charge point was created with is the identity under which the central system knows and reaches it.",
  ["inputs", "histories", "schedules"], "all connection histories up to the depth; an enumerated set of identities with spaces, slashes, percent signs, non-ASCII and reserved characters through the real client and server",
  "tests use plain ASCII identities",
  ["cs/cs.go", "ws/conn.go"],
  M(("cpID from the URL path", "cs/cs.go handleWebsocket"), ("escaped identity", "ws/conn.go Dial")),
  ["metadata at the handler", "GetServiceOf with the same identity"], ""),
P("C13", "A charge point reconnects by itself and keeps working",
  "When its connection ends for whatever reason, an OCPP-J charge point dials the central system again with the same identity, at once and then about every 5 seconds until it succeeds, also if the central system refuses, answers an HTTP error or accepts the connection but never answers. After the reconnection Sends and incoming calls work as on the first connection, WaitConnect's channel is done exactly while connected, and Sends made meanwhile end with an error or a response but never block for longer than the request timeout. If the first connection cannot be made, New returns an error within the request timeout.",
  ["fault_sequences", "schedules", "histories"], "all sequences up to the depth of central system behaviours (accept, refuse, HTTP error, silence, close after accept) and loss kinds; all schedules within the bound around the reconnection",
  "one test restarts a connection once",
  ["cp/json.go", "cp/cp.go", "ws/conn.go"],
  M(("reconnect loop", "cp/json.go handleWebsocketConnection"), ("handshake timeout", "ws/conn.go Dial")),
  ["dial attempts and their times at the scripted central system", "result of Send"], ""),
P("C14", "Cancelling its context stops a charge point",
  "Once the context of a charge point is done, an OCPP-J charge point closes its connection, never dials again and leaves no goroutine behind, whether it was connected, reconnecting or waiting to retry; a SOAP charge point stops listening. Sends that are pending return with an error.",
  ["schedules", "fault_sequences"], "cancellation at every phase of the connection life cycle (connected, handling a request, during the retry wait, during a dial) and all schedules within the bound around it",
  "one test cancels an idle connected charge point",
  ["cp/json.go", "cp/soap.go", "cp/cp.go"],
  M(("ctx.Done in the loops", "cp/json.go handleWebsocketConnection"), ("server.Close", "cp/soap.go handleSoap")),
  ["connections and dial attempts at the scripted central system", "goroutines left"], ""),
P("C16", "SOAP requests and responses arrive as they were sent",
  "For every OCPP 1.5 message type, a request sent by the SOAP client of one side reaches the handler of the other side exactly once with equal content and with the charge box identity of the sender, and the response of the handler is returned by that Send with equal content, also for concurrent requests of several charge points.",
  ["inputs", "schedules"], "every message type of OCPP 1.5 in both directions with an enumerated set of values per field (unset, special characters, extreme numbers, lists of 0, 1, 2 entries), end to end over HTTP; concurrent requests under all schedules within the bound",
  "tests decode two captured envelopes, nothing is sent",
  ["soap/client.go", "soap/server.go", "soap/marshal.go", "soap/models.go", "internal/service/soap.go", "cs/cs.go", "cp/soap.go"],
  M(("Call", "soap/client.go"), ("Handle", "soap/server.go"), ("body decoding", "soap/marshal.go")),
  ["handler arguments", "result of Send"], ""),
P("C17", "A SOAP handler error reaches the client as a fault with its reason",
  "If the handler of a SOAP request returns an error or no response, the reply is a SOAP 1.2 fault and no response content, its reason is the text of the error, and Send of the SOAP client returns a nil response and an error with that text.",
  ["inputs"], "every message type of both directions with an enumerated set of error texts, including ones with XML special characters",
  "no test exercises faults",
  ["soap/server.go", "soap/marshal.go", "soap/models.go", "soap/client.go"],
  M(("toSendFault", "soap/models.go"), ("receivedFault", "soap/models.go")),
  ["HTTP reply", "result of Send"], ""),
P("C18", "Bad SOAP messages are rejected without a panic on either end",
  "A SOAP endpoint answers a POST that is not a well-formed envelope with a known request of its own role by an error status or a fault, never by a success; its handler is not called and the server keeps serving. A SOAP client that receives anything but the expected response (no XML, other message, empty body, error status, connection loss, silence) returns an error within the request timeout, never panics, never returns a response.",
  ["inputs", "fault_sequences"], "an enumerated grammar of malformed, truncated and mismatched envelopes in both directions, every truncation point of a valid message, and every kind of HTTP failure",
  "no test sends a bad envelope",
  ["soap/server.go", "soap/client.go", "soap/marshal.go", "cs/cs.go", "cp/soap.go"],
  M(("Handle's checks", "soap/server.go"), ("Call's checks", "soap/client.go")),
  ["HTTP status and body", "result of Send"], ""),
P("C19", "A slow handler or listener of one charge point does not delay the others",
  "While the handler for a request of one charge point runs, or a connection listener blocks, other charge points can connect, have their requests handled and answered, and be sent requests, and a Send to a charge point whose handler call is in progress on our side still gets a reply once the handler returned.",
  ["schedules", "histories"], "all choices of blocked party and operation of the other charge point; all schedules within the bound",
  "no test has a slow handler",
  ["cs/cs.go"],
  M(("one loop per connection, no lock held during callbacks", "cs/cs.go handleWebsocket")),
  ["progress of the other charge points while one is blocked"], ""),
P("C20", "JSON messages decode to what was sent",
  "For every message type of OCPP 1.6, in both directions, encoding a message and decoding it at the other end yields an equal message, for all values of its fields (integers up to 2^53, times to the second, in any time zone, as the same instant), with unset optional fields staying unset.",
  ["inputs"], "every message type; every combination of at most the stated number of fields deviating from the required-only and the all-set message to an enumerated set of values, end to end over a websocket connection",
  "tests send three message types with a single value",
  ["messages/v1x/cpreq/json_encode.go", "messages/v1x/cpresp/json_encode.go", "messages/v1x/csreq/json_encode.go", "messages/v1x/csresp/json_encode.go", "ws/conn.go", "ws/message.go"],
  M(("MarshalJSON/UnmarshalJSON of every type", "messages/v1x/*/json_encode.go")),
  ["handler argument", "result of Send"], ""),
P("C21", "Messages sent over OCPP-J conform to the JSON schemas of OCPP 1.6",
  "Every request and response payload that the library sends for a message whose fields hold values allowed by OCPP 1.6 is valid against the OCPP 1.6 JSON schema of its action: all required properties are present, no property is named or nested otherwise than in the schema, and every value has the type and format of the schema; unset optional enumeration values, times, lists and objects are left out. The error codes the library provides for status notifications are those of OCPP 1.6.",
  ["inputs"], "every message type of both directions; every combination of at most the stated number of fields deviating to values allowed by the schema, validated by an independent validator against the schemas",
  "no test looks at what is on the wire",
  ["messages/v1x/cpreq/json_encode.go", "messages/v1x/cpresp/json_encode.go", "messages/v1x/csreq/json_encode.go", "messages/v1x/csresp/json_encode.go", "ws/json"],
  M(("MarshalJSON of every type", "messages/v1x/*/json_encode.go")),
  ["frames at a scripted peer"], ""),
P("C22", "Decoding of OCPP-J payloads is strict",
  "A call payload that lacks a required property of its action, has an additional top-level property or a property of the wrong JSON type is answered with a CallError and never handled; a result payload with such a fault makes Send return an error. Payloads that are valid against the schema are accepted. (A known property that is null counts as an empty value: it is how an empty list is sent.)",
  ["inputs"], "for every message type of both directions, every single removal of a required property, every addition of an unknown one, every replacement of a property by every other JSON type, and every removal of an optional one",
  "no test sends an invalid payload",
  ["messages/v1x/cpreq/json_encode.go", "messages/v1x/cpresp/json_encode.go", "messages/v1x/csreq/json_encode.go", "messages/v1x/csresp/json_encode.go", "ws/conn.go"],
  M(("UnmarshalJSON of every type", "messages/v1x/*/json_encode.go")),
  ["frames at the peer", "handler invocations", "result of Send"], ""),
P("C23", "Every action maps to its own request and response types",
  "For every action of OCPP 1.6 a call with that action name reaches the handler as the request type of that action, a Send of that request type carries that action name, and its result is decoded as the response type of that action; each type belongs to the role that sends it in the specification.",
  ["inputs"], "all actions of both roles (DataTransfer only as sent by the library: receiving it is a documented gap)",
  "tests use three actions",
  ["messages/req/actions.go", "messages/res/actions.go", "messages/v1x/cpreq/messages.go", "messages/v1x/csreq/messages.go"],
  M(("FromActionName", "messages/req/actions.go, messages/res/actions.go"), ("Action and GetResponse", "messages/v1x/*/messages.go")),
  ["type at the handler", "action on the wire", "type of the result"], ""),
P("C24", "XML messages decode to what was sent",
  "For every message type of OCPP 1.5, in both directions, encoding a message as SOAP and decoding it at the other end yields an equal message for all values of its fields (times as the same instant), with unset optional fields staying unset.",
  ["inputs"], "every message type of OCPP 1.5; every combination of at most the stated number of fields deviating from the required-only and the all-set message to an enumerated set of values",
  "tests decode two captured envelopes",
  ["messages/v1x/cpreq/messages.go", "messages/v1x/cpresp/messages.go", "messages/v1x/csreq/messages.go", "messages/v1x/csresp/messages.go", "soap/marshal.go"],
  M(("xml tags", "messages/v1x/*/messages.go"), ("body decoding", "soap/marshal.go")),
  ["handler argument", "result of Send"], ""),
P("C25", "Messages sent over SOAP conform to the WSDL of OCPP 1.5",
  "Every SOAP message that the library sends has the body element of its action in the namespace of the service, contains all required elements of the WSDL and no others, in its order and multiplicity, with values of the declared simple types, under an envelope with the headers Action, To, MessageID and the chargeBoxIdentity of the caller in the namespace of the called service. It is sent by an HTTP POST with the one Content-Type of SOAP 1.2.",
  ["inputs"], "every message type of OCPP 1.5 in both directions; every combination of at most the stated number of fields deviating to values allowed by the WSDL, validated by an independent validator against tables taken from the WSDL",
  "no test looks at what is sent",
  ["messages/v1x/cpreq/messages.go", "messages/v1x/cpresp/messages.go", "messages/v1x/csreq/messages.go", "messages/v1x/csresp/messages.go", "soap/client.go", "soap/marshal.go", "soap/models.go", "soap/wsdl"],
  M(("xml tags", "messages/v1x/*/messages.go"), ("envelope", "soap/models.go")),
  ["raw HTTP request at a scripted server", "raw HTTP response"], ""),
P("C26", "Websocket subprotocol negotiation follows OCPP-J and RFC 6455",
  "A charge point offers exactly the subprotocol of its version (ocpp1.6). A central system selects ocpp1.6 if and only if the charge point offered it, never selects a protocol that was not offered, and serves the connection in both cases.",
  ["inputs"], "all offers of up to three subprotocols out of a set, in any order, as one or several header lines, and no offer; both sides",
  "tests only connect the library to itself",
  ["ws/conn.go"],
  M(("Handshake", "ws/conn.go"), ("Dialer.Subprotocols", "ws/conn.go Dial")),
  ["HTTP headers of the upgrade"], ""),
P("C27", "The central system's port serves websocket, SOAP and status requests together",
  "On the one port of a central system a websocket upgrade of any path opens an OCPP-J connection, any other GET returns a page with the number of identities that have an open OCPP-J connection, and a POST is handled as SOAP; none of them disturbs the others, and a GET or SOAP request never changes the connection table.",
  ["inputs", "histories"], "the three kinds of requests after every step of all connection histories up to the depth; an enumerated set of methods, paths and upgrade headers",
  "no test uses the page or SOAP endpoint of a running central system",
  ["cs/cs.go", "ws/ws.go"],
  M(("dispatch", "cs/cs.go Run")),
  ["HTTP replies", "handler invocations", "GetServiceOf"], ""),
P("C28", "Central systems and charge points of one process are independent",
  "Any number of central systems can run in one process on ports of their own, at the same time or one after the other, also after a Run that returned an error because its port was taken. Each one serves only the connections and requests made to its own port, with its own handler and listeners, and knows and reaches only the charge points connected to it; charge points of the same identity at different central systems do not influence each other.",
  ["histories", "schedules"], "every history of starts (also on a taken port), connects and disconnects of charge points of the same identities at two and three central systems up to the depth, compared with the model after every step; starts, connects and disconnects at the same time under every schedule within the bound; real charge points via OCPP-J and SOAP",
  "the tests run one central system in a process",
  ["cs/cs.go", "cp/cp.go"],
  M(("multi", "cs.New, Run")),
  ["handler invocations", "HTTP and websocket replies", "notifications", "GetServiceOf", "wait channels"], ""),
P("C29", "Control frames are answered and disturb nothing",
  "On an OCPP-J connection, on either side, every websocket ping of the other side is answered by exactly one pong with the same payload, in order, at the latest when the message before it has been handled; an unsolicited pong is ignored; a close frame is answered by a close frame of the same code, ends the connection and with it every pending Send. Pings and pongs may come at any time - between the parts of a fragmented message, while Sends are pending, while a handler runs, after a long pause - and leave every Send, call and answer as it would be without them.",
  ["histories", "schedules"], "every history of pings, pongs, Sends, answers, calls, slow calls, fragments and pauses up to the depth, on both sides, ended by a close frame of an enumerated code or by use of the connection; pings together with Sends, answers and calls under every schedule within the bound",
  "no test sends a control frame",
  ["ws/conn.go"],
  M(("control-frames", "ws/conn.go ReadMessage")),
  ["websocket frames"], ""),
P("C30", "The application's loggers get the errors and the messages verbatim",
  "What goes wrong without being returned to a caller is given to the error logger of the application, with the text of the error as it is: the error of a SOAP handler, a bad SOAP request, a failed handshake, a call of the wrong role, an answer that could not be sent, every failed attempt to reconnect, a SOAP server of a charge point that could not be started. Every OCPP-J message and every SOAP request sent or received, and every SOAP response sent, is given to the debug logger as it is. What a logger prints never depends on special characters (as %) in errors and messages.",
  ["inputs"], "18 kinds of errors and messages on both sides and transports, once and four times, each with 14 texts most of which are special in formats",
  "no test sets a logger",
  ["internal/log/log.go", "cs/cs.go", "cp/json.go", "soap/server.go", "soap/client.go", "ws/conn.go"],
  M(("loggers", "ocpp.SetErrorLogger, SetDebugLogger")),
  ["what the loggers print"], ""),
P("C31", "What is made of wrong arguments is refused or fails, and leaves nothing",
  "A charge point is either made or refused with an error, never both or neither. It is refused for a transport that is neither JSON nor SOAP, for an OCPP-J URL at which there is no central system, and for SOAP without a port. One that was made for the URL of a central system works in both directions, under its identity; one that was made for a wrong SOAP URL returns an error from every Send. GetServiceOf returns an error for an unknown version and for OCPP 1.6 without a connection of exactly this identity; a Send of a service with a wrong URL returns an error. Nothing ever panics, and after a refusal, or once the context is done, no goroutine, connection or port is left and the central system is undisturbed.",
  ["inputs"], "all combinations of five transports, four versions, 16 URLs and four ports for charge points; of four versions, five identities and 16 URLs, with and without a connection, for services",
  "the tests only make charge points of good arguments",
  ["cp/cp.go", "cs/cs.go", "ws/conn.go", "soap/client.go"],
  M(("constructors", "cp.New, GetServiceOf")),
  ["results of New, Send and GetServiceOf", "goroutines, connections, ports"], ""),
]

CLAIMED = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else {p["id"] for p in PROPS}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for p in PROPS:
    if p["id"] not in CLAIMED:
        na.append({"property": p["id"], "reason": "no check yet"})
        continue
    note = ("Every execution within the bounds written in the evidence file is run on the real code under a controlled scheduler, "
            "with virtual time and a simulated network (patched Go runtime and net package via the build overlay, /repo itself unmodified); "
            "beyond the bounds nothing is claimed. Trusted: the harness, the oracle tables, the Go standard library and gorilla/websocket.")
    if p["note"]:
        note += " " + p["note"]
    inputs = p["over"] == ["inputs"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": ("model checking: exhaustive enumeration of a bounded input space, executed end to end on the implementation under a controlled scheduler" if inputs
                      else "stateless model checking of the implementation under a controlled scheduler: exhaustive enumeration of schedules within a deviation bound and of histories up to a depth"),
        "level": "model_checking",
        "level_note": note,
    })
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {"guard": "none: nothing in /repo is instrumented; the harness is laid over /repo and GOROOT by 'go build -overlay' at check time",
              "enable": "./build.sh (go build -overlay .build/overlay/overlay.json)", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "see DESIGN.md; known-findings.jsonl lists known and fixed findings; ./check.sh replay FILE replays a counterexample",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print("claimed", len(checks), "not yet", [x["property"] for x in na])
