"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe),
                          "hook_needed": None}})

B, D, S, A, J = ("wampproto/broker.py", "wampproto/dealer.py", "wampproto/session.py", "wampproto/acceptor.py",
                 "wampproto/joiner.py")
SER = ["wampproto/serializers/json.py", "wampproto/serializers/cbor.py", "wampproto/serializers/msgpack.py",
       "wampproto/serializers/serializer.py"]
H = ["histories", "fault_sequences"]

p("C01", "A publish reaches exactly the sessions subscribed at that moment",
  "At every point of every history, the recipients of a publication to a topic are exactly the sessions that are in the realm and "
  "subscribed to exactly that topic at that moment (the publisher included if it is subscribed), each once, and there is an event "
  "iff there is a recipient. A session that never subscribed, unsubscribed or left is never addressed, and a publish from a session "
  "that is not in the realm is refused.",
  H, "Every interleaving of joins, leaves, subscribes, unsubscribes (valid, stale, foreign) and publishes of any number of sessions over colliding topics.",
  "Tests cover one or two sessions and a handful of fixed sequences; who is subscribed depends on the whole history.",
  [B], [("subscribers of a topic", B + " receive_publish"), ("removal on leave", B + " remove_session")],
  ["Broker.receive_publish"], [("subscriptions_by_topic", "who subscribes to what", B)])
p("C02", "Events and acknowledgements carry the publication faithfully",
  "The event of a publication carries the id of the recipients' subscription, exactly the published args and kwargs, and a publication "
  "id in 1..2^53 that no other publication of that broker has. An acknowledgement is produced iff the publisher asked for one "
  "(also with no subscriber at all), goes to the publisher alone under its request id, and names the same publication id as the event.",
  H + ["inputs"], "Every history and every published value, option and request id.",
  "Tests check one event of one publication; uniqueness and agreement are statements about all publications of a history.",
  [B, "wampproto/messages/event.py", "wampproto/messages/published.py", "wampproto/idgen.py"],
  [("publication id", B + " receive_publish"), ("acknowledge option", B + " receive_publish")], ["Publication.event", "Publication.ack"])
p("C03", "A subscription lives from SUBSCRIBED until unsubscribe or leave",
  "Subscribing a session of the realm always succeeds, is idempotent and yields the same subscription id to all current subscribers of "
  "a topic, while a topic that lost its last subscriber gets a new id when subscribed again. Unsubscribing succeeds iff this session "
  "currently holds that id, and ends only this session's subscription; anything else is refused and changes nothing. A topic exists "
  "iff somebody subscribes to it, and no session's requests or departure affect another session's subscriptions.",
  H, "Every interleaving of subscribe, unsubscribe, join and leave, including duplicates, foreign and stale ids and departed sessions.",
  "Tests unsubscribe once; isolation between sessions and reuse over time need long mixed histories.",
  [B], [("per-session and per-topic tables", B + " receive_message"), ("cleanup", B + " remove_session")],
  ["Broker.receive_message", "Broker.has_subscription"], [("subscriptions_by_session", "ids a session may unsubscribe", B)])
p("C04", "A call is invoked on exactly the current holder of the procedure",
  "A call of a session of the realm to a procedure that is registered at that moment produces exactly one invocation, to the session "
  "holding the registration, carrying that registration id and the call's args, kwargs and opaque payload unchanged. A call to any "
  "procedure not registered at that moment is answered with wamp.error.no_such_procedure to the caller under its request id, and a "
  "call from a session that is not in the realm is refused.",
  H + ["inputs"], "Every interleaving of register, unregister, call, join and leave over colliding procedure names.",
  "Tests call one registered procedure once; routing after re-registration or departure depends on the history.",
  [D, "wampproto/messages/call.py", "wampproto/messages/invocation.py"],
  [("registration lookup", D + " receive_message Call"), ("invocation construction", D + " receive_message Call")],
  ["Dealer.receive_message"], [("registrations_by_procedure", "current holders", D)])
p("C05", "Every call gets exactly its own answer, exactly once",
  "A final YIELD or ERROR for an invocation produces exactly one RESULT or ERROR, addressed to the session that called, under the "
  "request id of that very call, with args, kwargs, payload, error URI and details unchanged. Once a call is answered or "
  "settled, any further answer for it is refused and reaches nobody, and answers never cross between calls, callers or sessions "
  "whatever order they arrive in.",
  ["histories", "schedules", "fault_sequences"], "Every interleaving of any number of concurrent calls and answers, duplicated, late, reordered or lost, with equal request ids at different callers.",
  "Tests run one call at a time; crossing answers need several concurrent calls and particular answer orders.",
  [D, "wampproto/messages/result.py", "wampproto/messages/yield_.py", "wampproto/messages/error.py"],
  [("pending call table", D + " receive_message Yield/Error")], ["Dealer.receive_message"],
  [("pending_calls", "invocations awaiting an answer", D), ("call_to_invocation_id", "call to its invocation", D)])
p("C06", "Only the invoked callee can answer a call",
  "A YIELD or ERROR for an invocation is accepted only from the session the invocation was sent to. The same message from any other "
  "session - the caller itself, another callee, a session that left, a stranger - is refused, produces no message, and leaves the "
  "call pending so that its real callee can still answer.",
  H, "Every forged answer, from every session, at every point of every history.",
  "Tests try one foreign YIELD; the property quantifies over all sessions and message kinds in all states.",
  [D], [("callee check", D + " receive_message Yield/Error")], ["Dealer.receive_message"])
p("C07", "Progressive calls and results stay on one invocation until the final one",
  "All chunks of a progressive call reach the same callee under one invocation id and registration id, in order, with the progress flag "
  "of each chunk, whatever happens to the registration meanwhile. A progressive YIELD produces a RESULT marked progress and keeps the "
  "call open iff the caller asked to receive progress; the first non-progressive one produces an unmarked RESULT and ends the call. "
  "Repeating a pending request id without an open progressive call is refused.",
  H + ["schedules"], "Every interleaving of chunks, progressive and final results of several calls with register, unregister, join and leave.",
  "Tests run one progressive call with a fixed registration.",
  [D, S], [("chunk routing", D + " receive_message Call"), ("receive_progress", D + " receive_message Yield")], ["Dealer.receive_message"])
p("C08", "A procedure has at most one holder and only the holder can end it",
  "Registering a free procedure always succeeds with a fresh registration id; registering a held one is answered with "
  "wamp.error.procedure_already_exists and changes nothing, whoever asks. Unregistering succeeds iff this session currently holds that "
  "registration id, and frees exactly that procedure; anything else is refused and changes nothing. A procedure is registered iff a "
  "session of the realm registered it and has neither unregistered it nor left.",
  H, "Every interleaving of register, unregister, join and leave, including duplicates, foreign and stale ids and departed sessions.",
  "Tests register and unregister once.",
  [D], [("registration tables", D + " receive_message Register/Unregister"), ("cleanup", D + " remove_session")],
  ["Dealer.receive_message", "Dealer.has_registration"], [("registrations_by_session", "ids a session may unregister", D)])
p("C09", "A departed session is settled, never addressed again and inherited by nobody",
  "When a session leaves, its registrations and subscriptions end at once, and removing it returns exactly one ERROR for each call of "
  "another session it was executing, under that call's request id, so that no caller waits forever. After that nothing is ever "
  "addressed to it, its late frames are refused without effect, and a session that joins later under the same id starts with no "
  "subscription, registration or call of its predecessor. Removing an unknown session or adding one twice is refused.",
  ["histories", "crash_points", "fault_sequences"], "A crash or departure of any session at any point of any history, followed by any continuation, including re-joins under the same id.",
  "Tests remove a session once, in one state; no test leaves with calls pending in either direction.",
  [D, B], [("cleanup", D + " remove_session"), ("cleanup", B + " remove_session")], ["Dealer.remove_session", "Broker.remove_session"])
p("C10", "A client session accepts each reply exactly once and refuses the unsolicited",
  "A session accepts a RESULT, REGISTERED, UNREGISTERED, SUBSCRIBED, UNSUBSCRIBED, PUBLISHED or ERROR iff a request of that kind "
  "with that id is outstanding, and then it no longer is, except that progressive results leave a call outstanding. EVENTs are accepted iff "
  "the subscription is held, INVOCATIONs iff the registration is held or the invocation is still open. A YIELD may be sent "
  "only for an open invocation; a final YIELD or an ERROR closes it. Everything else is refused and changes nothing.",
  H + ["schedules"], "Every order, duplication, loss and forgery of router messages interleaved with client requests of every kind with equal ids.",
  "Tests send one request and one reply of each kind.",
  [S], [("outstanding request tables", S + " send_message/receive_message")], ["WAMPSession.send_message", "WAMPSession.receive"])
p("C11", "A failed client operation leaves no trace in the session",
  "If sending fails because the message cannot be serialized or is not allowed, or receiving fails because the frame cannot be "
  "decoded, the session afterwards behaves exactly as if the operation had never been tried. In particular no reply to a request that was never "
  "sent is accepted, and an invocation whose answer failed to be sent can still be answered.",
  ["histories", "fault_sequences", "crash_points"], "A serializer failure before or after the work, an unserializable value, or a damaged frame, at any point of any history.",
  "No test makes a serializer fail.",
  [S] + SER, [("serialize before recording", S + " send_message"), ("deserialize before applying", S + " receive")], ["WAMPSession.send_message", "WAMPSession.receive"])
p("C12", "End to end, every request is answered once and peers never refuse one another",
  "With library clients and a router built from the library's broker and dealer over connections that delay, fragment and die at any point, no frame "
  "that an honest live peer sends is refused by the other side, apart from answers to calls that are already over. Every request on a connection that stays up is answered exactly once, with "
  "the values the executing callee was given and returned for that request (or an error), within bounded steps once faults stop. "
  "Requests of one connection are served in the order sent.",
  ["schedules", "histories", "crash_points", "fault_sequences", "configurations"],
  "Every schedule of any number of clients with mixed serializers and auth methods, any delay, fragmentation, connection reset, client crash and re-join, and router restart.",
  "Tests exercise each part alone with hand-written messages; no test connects clients to a router.",
  [S, D, B, J, A], [("request tables on both sides", S + ", " + D)], ["the frames on every connection"])
p("C13", "End to end, subscribers see each event once, in order, with its content intact",
  "Over such connections, every publication that the router processes while a client holds a subscription is delivered to that client "
  "exactly once, in the order the router processed the publications, under the subscription id it holds, with args and kwargs equal to those "
  "published, whatever serializers the two ends use; a connection that dies yields a prefix of that. Nothing is delivered before "
  "SUBSCRIBED was sent, after UNSUBSCRIBED, or in another realm.",
  ["schedules", "histories", "crash_points", "fault_sequences", "configurations"],
  "Every schedule of publishers and subscribers with mixed serializers, delays, fragmentation, resets, crashes, re-joins and router restarts.",
  "No test connects a publisher and a subscriber through a router.",
  [B, S] + SER, [("recipient list and event", B + " receive_publish")], ["the frames on every connection"])
p("C14", "An honest client with good credentials joins, and both sides agree",
  "For every authentication method, serializer and auth_extra, a client with the right credentials that the authenticator approves reaches "
  "JOINED, and client and router then report the same session id, realm, authid and authrole, namely those the authenticator returned (without an authenticator: anonymous), in details that are equal iff all four are. The "
  "HELLO carries exactly the client's realm, authid, method and extra data, and the authenticator is asked about exactly those. "
  "Each side announces the roles it was given, or, given none, all it is. A client "
  "whose handshake is refused gets an ABORT that its joiner reports.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "Every method, credential, salt, unusual authid, realm and extra, in any interleaving of many handshakes over shared authenticators.",
  "Tests run a fixed user per method, never the salted one through the acceptor, and never interleave handshakes.",
  [A, J, "wampproto/auth"], [("handshake state machines", A + ", " + J)], ["get_session_details on both sides"])
p("C15", "No WELCOME without the authenticator's approval and a valid proof",
  "A router with an authenticator sends WELCOME only if the authenticator approved this realm, authid and method without raising and, for challenge methods, "
  "the client proved possession of that identity's ticket, secret or key for the challenge sent in this handshake. A wrong, "
  "malformed, truncated, re-encoded-to-something-else or missing proof, or any exception from the authenticator, never leads to WELCOME or session details, and the identity granted is the "
  "one the authenticator returned.",
  ["inputs", "histories", "fault_sequences"], "Every sequence of frames an attacker can send, every forged proof and every failure of the authenticator.",
  "Tests present one good and one bad signature per method.",
  [A, "wampproto/auth"], [("verification before WELCOME", A + " receive_message Authenticate")], ["Acceptor.receive_message"])
p("C16", "Proofs are bound to a fresh challenge and cannot be replayed",
  "Every challenge the router issues for wampcra and cryptosign differs from all others it ever issued, even when handshakes start at the same instant, the clock "
  "stands still or goes back and the default random generator is re-seeded, and holds 64 or more bits from the operating system's source. A proof captured in one handshake, or a valid signature over anything "
  "but this handshake's challenge, is never accepted in another. A generated cryptosign key pair belongs together and is drawn from 128 or more such bits. "
  "The text of a wampcra challenge names the session id, authid and authrole that this handshake's WELCOME will grant.",
  ["histories", "fault_sequences", "schedules"], "Every number of concurrent handshakes, clock behaviour and re-seeding, with every captured proof replayed into every other handshake.",
  "Tests run single handshakes with constant challenges.",
  [A, "wampproto/auth/wampcra.py", "wampproto/auth/cryptosign.py"], [("challenge generation", "wampproto/auth"), ("challenge check", A)], ["Acceptor.receive_message"])
p("C17", "A handshake moves forward only, and its end is final",
  "Each side accepts a handshake message only in the state in which it may come; anything else is refused or aborts and never skips a step or "
  "yields session details. WELCOME and ABORT are final: the router reports them as the end of the handshake, is_aborted() tells which, nothing later "
  "changes the outcome or the session details, and a client never joins after an ABORT. An ABORT from the router reaches the client's caller with its reason, args and kwargs, and the error's text names the reason and the args.",
  ["histories", "schedules", "fault_sequences"], "Every order, repetition and injection of handshake and non-handshake messages on either side.",
  "Tests follow the successful order.",
  [A, J], [("state checks", A + " receive_message"), ("state checks", J + " receive_message")], ["Acceptor.receive", "Joiner.receive"])
p("C18", "Malformed or damaged frames are refused and change nothing",
  "A frame that is truncated, not decodable, not a WAMP message, or whose fields have wrong types, ranges or count is refused with an exception by client session, "
  "joiner, acceptor and every serializer, and never returned as a message. The component then continues exactly as if the frame had never come, and no such "
  "frame hangs it.",
  ["inputs", "fault_sequences", "crash_points"], "Every truncation, bit error and structural mutation of every message kind in every serializer, at any point of a connection's life.",
  "Tests feed a few hand-written invalid lists to the validators and none to a live session.",
  ["wampproto/messages/util.py"] + SER + [S, J, A], [("validation", "wampproto/messages/util.py validate_message"), ("type dispatch", "wampproto/serializers/serializer.py")],
  ["Serializer.deserialize", "WAMPSession.receive", "Joiner.receive", "Acceptor.receive"])
p("C19", "RawSocket framing recovers exactly the frames sent, over any fragmentation",
  "A receiver that decodes handshake and headers with this library recovers from the byte stream exactly the protocol and size negotiated and the frames sent, with "
  "kinds and lengths from 0 to 2^24-1, however the stream is cut into pieces. A handshake or header that is short, long, without the magic byte or with "
  "reserved bytes set is refused, and a length that does not fit the header is refused instead of announced wrongly; a limit that is no power of two is announced as no more than it is, and one below 2^9 or of 2^25 and more, which the handshake cannot name, is refused. The constants name what the specification numbers.",
  ["inputs", "schedules", "fault_sequences"], "Every sequence of frame kinds and sizes, every fragmentation, and every damage to handshake bytes.",
  "There is no test of the transport at all.",
  ["wampproto/transports/rawsocket.py"], [("header codec", "wampproto/transports/rawsocket.py"), ("handshake codec", "wampproto/transports/rawsocket.py")],
  ["Handshake.to_bytes/from_bytes", "MessageHeader.to_bytes/from_bytes"])
p("C20", "State is released: nothing accumulates over finished work",
  "The memory broker, dealer and client session hold is a function of what is currently joined, subscribed, registered and pending, not of what happened "
  "before. After any history in which every session left (or every request was answered and every subscription and registration ended), including error, progressive, refused and crash paths, "
  "they hold no more than when they were new. The same goes for what connections share: serializers, authenticators and module state.",
  H + ["crash_points"], "Every history of joins, leaves, requests, answers, errors and refusals, repeated any number of times.",
  "Tests never look at what remains.",
  [B, D, S], [("cleanup of tables", B + ", " + D + ", " + S)], ["objects reachable from the component"])
p("C21", "Independent instances never influence one another",
  "Routers, realms, handshakes and sessions built as separate objects do not influence one another: each behaves exactly as when it runs alone, however their operations "
  "interleave. Objects passed in by the caller (option, argument and auth_extra containers) are not changed by one use in a way that another use can observe.",
  ["schedules", "histories"], "Every interleaving of operations on any number of instances, compared with each run alone.",
  "Tests use one instance at a time.",
  [B, D, S, A, J, "wampproto/auth/auth.py"], [("per-instance state", "constructors")], ["every public call"])
p("C22", "Ids are in range, sequential in session scope and never in use twice",
  "Every session, subscription, registration, publication and invocation id the library generates is an integer in 1..2^53, whatever the random source draws. "
  "A session scope generator yields 1, 2, 3, ... and wraps to 1 only after 2^53. Until then no two subscriptions, no two registrations, no two publications and no two invocations of one broker or dealer get the same id. "
  "Session ids are drawn from the whole of that range, so that those of thousands of sessions differ.",
  ["histories", "inputs", "fault_sequences"], "Every history and every draw of the random source, including its extremes, and generators near the end of their range.",
  "Tests draw a few ids.",
  ["wampproto/idgen.py", A, B, D], [("generators", "wampproto/idgen.py")], ["SessionScopeIDGenerator.next", "generate_session_id"])
p("C23", "Every message crosses a connection unchanged, with any serializer",
  "Whatever message of any kind one peer serializes, the other decodes to the same kind with equal ids, URIs, options or details, args and kwargs, for "
  "JSON, CBOR and MessagePack alike, in order, however the connection fragments and coalesces frames. A message decoded and sent on by an intermediary with another serializer "
  "still carries the same values, and the connection dying mid-frame never yields a message that was not sent. A message holding a value the serializer has no encoding for is refused, "
  "not sent without it. A frame is readable by any decoder of its format, and a frame another correct encoder makes of the same message is decoded alike.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "Every message kind and field value (maps with text keys, as WAMP has them), every chain of serializers, every fragmentation and cut.",
  "Tests encode a few fixed messages with each serializer.",
  ["wampproto/messages"] + SER, [("marshal/parse", "wampproto/messages"), ("type table", "wampproto/serializers/serializer.py")], ["Serializer.serialize", "Serializer.deserialize"])
p("C24", "Opaque payloads pass the router and decode to what was encoded",
  "Args and kwargs encoded as an opaque payload by a caller or callee, in any payload serializer, travel through the router as the very same bytes and "
  "serializer id and decode at the far end to equal args and kwargs, whatever other calls are under way. An empty payload decodes to nothing. A payload cut short on the way or holding text that is not UTF-8, one that does not hold an args list and "
  "kwargs dict, or an unknown payload serializer is refused by the decoder, and the raw format accepts exactly one bytes argument.",
  ["inputs", "histories", "fault_sequences"], "Every args and kwargs, payload serializer, concurrent calls, and damage to a payload.",
  "Nothing tests payload passthrough; payload codecs have no test.",
  ["wampproto/serializers/payload.py", D], [("payload codecs", "wampproto/serializers/payload.py"), ("passthrough", D)], ["serialize_payload", "deserialize_payload", "Dealer.receive_message"])
p("C25", "Validation errors name the offending field and message",
  "When a frame is refused because one field is invalid, the exception is of the library's type for that field and its text names the field and the message kind.",
  ["inputs"], "Every invalid value of every field of every message kind.",
  "Tests check some fields.", ["wampproto/messages/util.py", "wampproto/messages/exceptions.py"],
  [("validators", "wampproto/messages/util.py")])
p("C26", "Key derivation and signatures agree with the published standards",
  "derive_cra_key is PBKDF2-HMAC-SHA256 and wampcra and cryptosign signatures are HMAC-SHA256 and Ed25519, equal to any standard implementation for all inputs.",
  ["inputs"], "Every secret, salt, iteration count, key length, challenge and key.",
  "Tests check fixed vectors.", ["wampproto/auth/wampcra.py", "wampproto/auth/cryptosign.py"],
  [("derivation and signing", "wampproto/auth")])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
