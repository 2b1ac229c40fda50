"""What each property's check ran for real, what it stubbed, and what it takes for granted. Used for evidence and MANIFEST."""

ROUTER_STUB = ["transport and clients: operations are handed to the router as decoded messages by the simulator"]
RANDOM = ["random, secrets, os.urandom, uuid4, time and datetime are the simulator's (dst/seams.py)"]
COMMON = ["single threaded use: the library takes no locks and promises nothing about threads",
          "PyNaCl, cbor2, msgpack, hashlib and json are trusted"]
ROUTER_STATE = "hash of the reference model's abstract state (sessions, entries, pending calls by kind) after each operation"


def m(technique, real, stub, states, note, assumptions=()):
    return {"technique": technique, "real": real, "stub": stub + RANDOM, "states": states, "note": note,
            "assumptions": COMMON + list(assumptions)}


def broker(note):
    return m("deterministic simulation: seeded histories of joins, leaves, crashes and requests against a reference broker model",
             ["Broker", "messages", "idgen"], ROUTER_STUB, ROUTER_STATE, note)


def dealer(note):
    return m("deterministic simulation: seeded histories of calls, answers, leaves and crashes against a reference dealer model",
             ["Dealer", "messages", "idgen"], ROUTER_STUB, ROUTER_STATE, note)


def session(note):
    return m("deterministic simulation: one client session against a losing, duplicating, reordering, forging router and a failing serializer",
             ["WAMPSession", "messages", "JSON, CBOR and MessagePack serializers"], ["the router: a generator of honest, stale and forged messages"],
             "outstanding requests, holdings and open invocations by count, with the last message kind and verdict", note)


def handshake(note):
    return m("deterministic simulation: interleaved handshakes with a network attacker, failing authenticators and a jumping clock",
             ["Joiner", "Acceptor", "client authenticators", "wampcra and cryptosign code", "serializers"],
             ["the user database (IServerAuthenticator) and the network between joiner and acceptor"],
             "acceptor state, joiner state, method, last message and outcome", note,
             ["proofs are verified in the harness with nacl and hmac directly"])


def world(note):
    return m("deterministic simulation: whole deployment (routers, realms, clients, byte streams) under a seeded event scheduler with faults",
             ["Broker", "Dealer", "Acceptor", "Joiner", "WAMPSession", "all serializers", "rawsocket framing", "authenticators", "idgen"],
             ["TCP (byte streams with delay, fragmentation, resets)", "the glue a router or client application writes round the library",
              "the user database"],
             "connection phases, outstanding requests and pending calls by count, after each event", note,
             ["the glue follows the library's README: the router hands messages of a session to Broker or Dealer in order of arrival"])


META = {
    "C01": broker("every publication of every run is compared with the recipients and content the model computes"),
    "C02": broker("acknowledgements are compared with the model for every publication"),
    "C03": broker("subscription state is compared with the model after every operation"),
    "C04": dealer("every CALL's outcome is compared with the model"),
    "C05": dealer("every answer a caller gets is compared with the model, and every open call is driven to its end"),
    "C06": dealer("answers are attempted by every kind of session, only the invoked callee's may succeed"),
    "C07": dealer("progressive calls and results, chunk by chunk, across unregistration and departure"),
    "C08": dealer("registration state is compared with the model after every operation"),
    "C09": dealer("departures at every point, with calls pending on either side, on dealer and broker"),
    "C10": session("acceptance of every router message is compared with the model of what is outstanding"),
    "C11": session("serializer failures before and after the work, unserializable values and damaged frames at any point"),
    "C12": world("ledger of every request with a unique token, replies checked against what the callee did; known finding late-chunk-second-answer is listed"),
    "C13": world("ledger of every publication; per subscriber sequence compared with the router's processing order"),
    "C14": handshake("every untouched handshake with good credentials must end joined on both sides with equal details"),
    "C15": handshake("every WELCOME is checked against an independently verified proof and the authenticator's verdict"),
    "C16": handshake("replayed, stale, truncated and foreign proofs, under a re-seeded PRNG and a frozen clock"),
    "C17": handshake("messages out of order, duplicated and after the end, on both state machines"),
    "C18": m("deterministic simulation: damaged, truncated and hostile frames against decoders and state machines",
             ["all message classes", "serializers", "Acceptor", "Joiner", "WAMPSession"], ["the network"],
             "message kind, damage and verdict", "verdicts are compared with an independent reading of the WAMP layouts",
             ["cbor2 5.7.0 corrupts its heap on a definite-length string over 65536 bytes that is cut: CBOR frames over 60000 bytes are never cut",
              "trailing bytes after a CBOR item are ignored by cbor2 and not judged"]),
    "C19": m("deterministic simulation: framed byte streams with arbitrary fragmentation and damaged handshakes",
             ["Handshake", "MessageHeader"], ["TCP: a byte stream the simulator cuts"], "frame kind and size class, negotiated protocol and size",
             "headers and handshakes are compared with bytes written down from the specification"),
    "C20": m("deterministic simulation: the same seeded history lived six times over, with reachable state measured after each",
             ["Broker", "Dealer", "WAMPSession", "serializers"], ["transport and peers"], "component, slots held above a new one, length of the history",
             "counts objects and container slots reachable from the component and from module and class level containers",
             ["growth is reported when it continues from cycle to cycle, so lazily created constants are not leaks"]),
    "C21": m("deterministic simulation: interleaved instances compared with each one run alone in its own process",
             ["Broker", "Dealer", "WAMPSession", "Joiner", "Acceptor", "authenticators", "messages", "idgen", "serializers"], ["peers of each instance"],
             "actor kind and length of its log", "logs must be identical; ids drawn at random are compared by order of appearance"),
    "C22": m("deterministic simulation: id generation under an adversarial random source and generators near the end of their range",
             ["idgen", "Broker", "Dealer", "Acceptor"], ["the random source, biased to extreme draws"], "size class of drawn ids, model state",
             "every id the library hands out is checked for range and reuse",
             ["reuse of ids still in use after the 2^53 wrap is not claimed", "generators are put near the end through their id attribute when it exists"]),
    "C23": m("deterministic simulation: messages of every kind crossing chains of peers with mixed serializers over fragmenting, dying streams",
             ["all message classes", "JSON, CBOR and MessagePack serializers", "rawsocket framing"], ["TCP"], "message kind, serializer and payload shape",
             "frames and decoded messages are compared with an independent table of WAMP layouts"),
    "C24": m("deterministic simulation: opaque payloads of concurrent calls through the dealer, with cut and mislabelled payloads",
             ["serialize_payload", "deserialize_payload", "Dealer", "messages"], ["transport and clients"], "format, direction and content shape",
             "bytes, format and decoded content are compared with what was encoded; json, cbor2 and msgpack are the reference decoders",
             ["opaque payloads are passed in process: this version never writes them to the wire", "a payload cut to zero bytes means no content"]),
}

NOT_APPLICABLE = {
    "C25": "A pure function of one frame: no schedule, time, I/O or second party can change the text of a validation error, so simulation adds nothing to "
           "plain input generation.",
    "C26": "Known-answer tests of pure cryptographic functions: no concurrency, time or fault can influence the value.",
}
