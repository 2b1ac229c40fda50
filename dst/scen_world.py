"""A whole deployment in one process: a router with several realms, honest and hostile clients, and byte streams between them
that delay, fragment, stall and die, all driven by one discrete event queue.

Real code: rawsocket handshake and framing, serializers, Joiner, Acceptor, authenticators, WAMPSession, Broker, Dealer, idgen.
The glue between them (class Router, class Link) is what an application would write. A ledger outside of it records what the
router processed, in its order, and what every application did; clients' experiences are held against the ledger.
"""

import heapq
from collections import deque

from wampproto import auth, idgen
from wampproto import messages as M
from wampproto.acceptor import Acceptor
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner
from wampproto.session import WAMPSession
from wampproto.transports import rawsocket as rs

from dst import seams, values
from dst.checked import CheckedBroker, CheckedDealer
from dst.engine import Violation, canon, same
from dst.scen_isolation import KEYS, SERIALIZERS, Users

NAME = "world"
PROTO = {"json": rs.SERIALIZER_TYPE_JSON, "msgpack": rs.SERIALIZER_TYPE_MSGPACK, "cbor": rs.SERIALIZER_TYPE_CBOR}
BY_PROTO = {v: k for k, v in PROTO.items()}
METHODS = ["anonymous", "ticket", "wampcra", "salted", "cryptosign"]
FOREVER = 10**9


def cargo(rng):
    r = rng.random()
    return (values.heavy_args(rng) if r < 0.004 else values.args(rng)), (values.heavy_kwargs(rng) if r > 0.997 else values.kwargs(rng))


def generate(rng, focus=None, large=False):
    n = rng.choice([2, 3, 3, 4, 5]) if not large else 12
    other = rng.choice(["realm2", "realm2", "Realm1", "realm1 ", "realm1.", "", "realm", "realm1\n"])
    clients = [{"method": rng.choice(METHODS), "n": i, "ser": rng.choice(list(SERIALIZERS)), "realm": rng.choice(["realm1", "realm1", "realm1", other])}
               for i in range(n)]
    names = [x for x in values.name_pool(rng, 4)]
    faulty = rng.choice([0, 0.3, 1, 1])
    rpc = rng.choice([0.3, 1, 1]) if focus != "C13" else rng.choice([0, 0.3])
    pubsub = rng.choice([0.3, 1, 1]) if focus != "C12" else rng.choice([0, 0.3])
    prog = rng.choice([0, 0.5, 1.5]) if focus != "C07" else 2
    w = {
        "sub": 3 * pubsub, "unsub": rng.choice([0, 1.5]) * pubsub, "pub": 5 * pubsub,
        "reg": 2.5 * rpc, "unreg": rng.choice([0, 0.7]) * rpc, "call": 5 * rpc, "chunk": 3 * prog * rpc, "ping": 0.2,
        "crash": 0.5 * faulty, "reset": 0.5 * faulty, "bye": 0.3, "connect": 1.0, "restart": 0.08 * faulty, "stall": 0.5 * faulty,
        "hostile": 0.8 * faulty, "badlogin": 0.3 * faulty, "burst": rng.choice([0, 0, 0.2]), "pipeline": rng.choice([0, 0, 0.8, 2]),
    }
    kinds, weights = zip(*w.items())
    nops = rng.choice([15, 30, 60, 100]) if not large else 800
    ops = [["connect", i, 0] for i in range(n)]
    ops.append(["wait", 0, 2000])
    gap = rng.choice([0, 1, 5, 40, 200])
    for k in rng.choices(kinds, weights, k=nops):
        i, sel = rng.randrange(n), rng.randrange(1000)
        dt = rng.choice([0, 0, gap, gap, 3 * gap, 10 * gap if rng.random() < 0.1 else 0])
        if dt:
            ops.append(["wait", 0, dt])
        if k == "pub":
            ops.append([k, i, sel, rng.choice([True, True, False, None]), *cargo(rng)])
        elif k == "call":
            ops.append([k, i, sel, rng.random() < 0.3 * prog, rng.random() < 0.4, *cargo(rng)])
        elif k == "chunk":
            ops.append([k, i, sel, rng.random() < 0.6, *cargo(rng)])
        elif k == "burst":
            ops.append([k, i, sel, rng.choice([10, 40, 150])])
        elif k == "hostile":
            ops.append([k, i, sel, rng.randrange(11)])
        else:
            ops.append([k, i, sel])
    cfg = {"clients": clients, "names": names, "early_final": rng.random() < 0.15, "checked": focus not in ("C12", "C13") or rng.random() < 0.2,
           "latency": rng.choice([[0, 0], [1, 1], [1, 10], [1, 200], [20, 1500]]), "frag": rng.choice(["none", "some", "bytes", "coalesce"]),
           "detect": rng.choice([0, 5, 500, 5000]), "think": rng.choice([0, 3, 100, 2000]), "salt": rng.randrange(1, 10**6) if rng.random() < 0.5 else 0, "words": values.words(rng), "sulk": rng.choice([0, 0, 0.3]),
           "reconnect": rng.random() < 0.5}
    return {"scenario": NAME, "config": cfg, "ops": ops}


def fail(props, kind, msg):
    raise Violation(props, kind, msg)


class Pipe:
    """One direction of a byte stream."""

    def __init__(self, w, conn, rng, sink):
        self.w, self.conn, self.rng, self.sink = w, conn, rng, sink
        self.last = 0
        self.fifo = deque()
        self.budget = FOREVER  # pieces that still arrive after a reset
        self.inflight = 0
        self.stalled_until = 0

    def send(self, data):
        if self.budget != FOREVER or not data:
            return
        frag = self.w.cfg["frag"]
        pieces = [data]
        if frag == "some" or (frag == "bytes" and len(data) > 60):
            cuts = sorted({self.rng.randrange(1, len(data)) for _ in range(self.rng.choice([0, 1, 1, 3]))} if len(data) > 1 else ())
            pieces = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
            if cuts:
                self.w.ctx.fault("fragmented_frames")
        elif frag == "bytes":
            pieces = [data[i:i + 1] for i in range(len(data))]
            self.w.ctx.fault("fragmented_frames")
        for p in pieces:
            self.put(p)

    def put(self, p):
        lo, hi = self.w.cfg["latency"]
        t = self.w.now + self.rng.randint(lo, hi)
        if self.w.cfg["frag"] == "coalesce":
            t = (t // 20 + 1) * 20
        self.last = max(self.last, t)
        self.inflight += 1
        self.fifo.append(p)
        self.w.at(self.last, self.arrive)

    def arrive(self):
        if self.w.now < self.stalled_until and not self.w.draining:
            # a stalled peer reads nothing; what arrives waits, in order
            self.w.at(self.stalled_until, self.arrive)
            self.last = max(self.last, self.stalled_until)
            return
        p = self.fifo.popleft()
        self.inflight -= 1
        if self.budget <= 0:
            self.w.ctx.fault("bytes_lost_in_reset", len(p) if isinstance(p, bytes) else 1)
            return
        if self.budget != FOREVER:
            self.budget -= 1
        self.sink(p)


class Parser:
    """Frames out of a byte stream, with the library's codecs."""

    def __init__(self):
        self.buf = bytearray()
        self.hs = False
        self.need = None

    def feed(self, data):
        self.buf += data
        while True:
            if not self.hs:
                if len(self.buf) < 4:
                    return
                raw = bytes(self.buf[:4])
                del self.buf[:4]
                self.hs = True
                yield "hs", rs.Handshake.from_bytes(raw)
                continue
            if self.need is None:
                if len(self.buf) < 4:
                    return
                raw = bytes(self.buf[:4])
                del self.buf[:4]
                self.need = rs.MessageHeader.from_bytes(raw)
            if len(self.buf) < self.need.length:
                return
            body = bytes(self.buf[:self.need.length])
            del self.buf[:self.need.length]
            kind, self.need = self.need.kind, None
            yield kind, body


def frame(data, kind=0):
    body = data.encode() if isinstance(data, str) else data
    return rs.MessageHeader(kind, len(body)).to_bytes() + body


def payload(data, ser):
    return data.decode() if ser == "json" else data


class Conn:
    """One connection, with the ledger's record of the session that lives on it."""

    def __init__(self, w, ix, client, hostile=False):
        self.w, self.ix, self.client, self.hostile = w, ix, client, hostile
        self.rng = seams.Random(f"{w.seed}/conn/{ix}")
        self.up = Pipe(w, self, seams.Random(f"{w.seed}/up/{ix}"), self.router_bytes)
        self.down = Pipe(w, self, seams.Random(f"{w.seed}/down/{ix}"), self.client_bytes)
        self.broken = False  # reset, crash or restart: either side may not know yet
        self.closed = False  # orderly end
        # router side
        self.r_parser, self.r_ser, self.acceptor, self.sid, self.attached, self.r_gone = Parser(), None, None, None, False, False
        self.r_details = None
        # ledger: what this session must see
        self.expected = []  # (subscription id, publication record)
        self.topics = {}  # subscription id -> topic, as the router granted
        # client side
        self.link = None

    def router_bytes(self, p):
        if not self.r_gone:
            self.w.router.bytes(self, p)

    def client_bytes(self, p):
        if self.link is not None:
            self.link.bytes(p)

    def reset(self, crash=False):
        """The connection dies: a prefix of what is in flight still arrives, then each side notices in its own time."""
        if self.broken or self.closed:
            return
        self.broken = True
        d = self.w.cfg["detect"]
        for pipe in (self.up, self.down):
            pipe.budget = self.rng.randint(0, pipe.inflight)
        if crash:
            self.down.budget = 0
        self.w.at(max(self.w.now, self.up.last) + self.rng.randint(0, d), lambda: self.w.router.lost(self))
        if not crash:
            self.w.at(max(self.w.now, self.down.last) + self.rng.randint(0, d), lambda: self.link and self.link.lost())


class Realm:
    def __init__(self, w, name):
        self.name = name
        self.checked = w.cfg["checked"]
        self.broker = CheckedBroker(w.ctx, f"b:{name}") if self.checked else Broker()
        self.dealer = CheckedDealer(w.ctx, f"d:{name}") if self.checked else Dealer()
        self.conns = {}  # session id -> Conn
        # ledger
        self.topics = {}  # topic -> (subscription id, {session id})
        self.procs = {}  # procedure -> (session id, registration id)
        self.links = {}  # invocation id -> [call, next chunk expected at the callee]

    def join(self, det):
        if self.checked:
            self.broker.join(det.session_id, self.name)
            self.dealer.join(det.session_id, self.name)
        else:
            self.broker.add_session(det)
            self.dealer.add_session(det)

    def leave(self, sid):
        if self.checked:
            self.broker.leave(sid)
            return self.dealer.leave(sid)
        self.broker.remove_session(sid)
        return [(r.recipient, r.message) for r in self.dealer.remove_session(sid) or []]

    def receive(self, sid, msg):
        """[(recipient, message)], or the ValueError with which the request was refused."""
        part = self.broker if isinstance(msg, (M.Subscribe, M.Unsubscribe, M.Publish)) else self.dealer
        if self.checked:
            out = part.receive(sid, msg)
            if not out and not isinstance(msg, M.Publish):
                return ValueError("refused")
            return out
        try:
            if isinstance(msg, M.Publish):
                p = part.receive_publish(sid, msg)
                out = [(s, p.event) for s in (p.recipients or [])]
                if p.ack is not None:
                    out.append((p.ack.recipient, p.ack.message))
                return out
            r = part.receive_message(sid, msg)
            return [(r.recipient, r.message)]
        except ValueError as e:
            return e
        except Exception as e:
            fail(("C12", "C13"), "crash", f"router on {canon(msg)[:120]} raised {type(e).__name__}({e!s:.100})")


class Call:
    """The ledger's record of one call."""

    def __init__(self, conn, req, proc):
        self.conn, self.req, self.proc = conn, req, proc
        self.chunks = []  # (args, kwargs, final) as sent
        self.routed = 0  # chunks the router processed
        self.inv = None
        self.callee = None  # Conn
        self.answers = []  # ("progress"|"result", args, kwargs) | ("error", uri, args, kwargs) the callee sent
        self.router_error = None
        self.over = False  # as far as the router is concerned
        self.tainted = False
        self.received = 0
        self.done = False  # as far as the caller is concerned
        self.receive_progress = False

    def __repr__(self):
        return f"call {self.req} of connection {self.conn.ix} to {self.proc[:40]!r}"


class Router:
    def __init__(self, w):
        self.w = w
        self.realms = {}
        self.conns = []

    # -- transport
    def bytes(self, c, p):
        if p == "EOF":
            self.lost(c)
            return
        it = c.r_parser.feed(p)
        while not c.r_gone:
            try:
                kind, body = next(it)
            except StopIteration:
                return
            except Violation:
                raise
            except Exception as e:
                if not c.hostile:
                    fail(("C12", "C13", "C19"), "framing", f"router could not read the stream of connection {c.ix}: {type(e).__name__} {e!s:.80}")
                self.w.ctx.fault("hostile_transport_refused")
                self.close(c)
                return
            self.frame(c, kind, body)

    def frame(self, c, kind, body):
        w = self.w
        if kind == "hs":
            name = BY_PROTO.get(body.protocol)
            if name is None:
                if not c.hostile:
                    fail(("C12", "C19"), "framing", f"connection {c.ix} asked for protocol {body.protocol}")
                self.close(c)
                return
            c.ser = name
            c.r_ser = SERIALIZERS[name]()
            c.acceptor = Acceptor(SERIALIZERS[name](), w.db)
            c.down.send(rs.Handshake(body.protocol, body.max_msg_size).to_bytes())
            return
        if kind == rs.MSG_TYPE_PING:
            c.down.send(frame(body, rs.MSG_TYPE_PONG))
            return
        if kind != rs.MSG_TYPE_WAMP:
            if not c.hostile:
                fail(("C12", "C19"), "framing", f"frame of kind {kind} from connection {c.ix}")
            self.close(c)
            return
        if not c.attached:
            self.handshake(c, body)
            return
        try:
            msg = c.r_ser.deserialize(payload(body, c.ser))
        except Exception as e:
            if not c.hostile:
                fail(("C12", "C13", "C23"), "honest-refused", f"the router could not decode {body[:60]!r} from connection {c.ix}: {type(e).__name__} {e!s:.80}")
            w.ctx.fault("hostile_frame_refused")
            self.close(c)
            return
        if c.hostile:
            self.hostile(c, msg)
        else:
            self.message(c, msg)

    def handshake(self, c, body):
        w = self.w
        try:
            out, final = c.acceptor.receive(payload(body, c.ser))
        except Exception as e:
            if not c.hostile:
                fail(("C12", "C14"), "honest-refused", f"acceptor raised {type(e).__name__}({e!s:.80}) on connection {c.ix}")
            w.ctx.fault("hostile_handshake_refused")
            self.close(c)
            return
        if out is not None:
            c.down.send(frame(out))
        if not final:
            return
        try:
            det = c.acceptor.get_session_details()
        except Exception:
            det = None
        if det is None or c.acceptor.is_aborted():
            if not c.hostile and not c.client.bad:
                fail(("C12", "C14"), "honest-refused", f"client {c.client.who} with good credentials was turned away")
            w.ctx.fault("login_refused")
            self.close(c)
            return
        if c.client.bad:
            fail(("C15", "C12"), "unearned-welcome", f"client {c.client.who} joined with a wrong secret")
        if (det.realm, det.authid, det.authrole) != (c.client.realm, c.client.who, "role-" + c.client.who):
            fail(("C14", "C12"), "wrong-details", f"{c.client.who} of {c.client.realm} joined as {(det.realm, det.authid, det.authrole)}")
        realm = self.realms.get(det.realm)
        if realm is None:
            realm = self.realms[det.realm] = Realm(w, det.realm)
        realm.join(det)
        c.attached, c.sid, c.realm, c.r_details = True, det.session_id, realm, det
        realm.conns[c.sid] = c
        w.ctx.log("joined", c.ix, det.realm)

    def close(self, c):
        """Orderly end by the router: what was sent still arrives, then the stream ends."""
        if c.r_gone:
            return
        self.detach(c)
        c.closed = True
        c.r_gone = True
        if c.down.budget == FOREVER:
            c.down.put("EOF")

    def lost(self, c):
        if not c.r_gone:
            c.r_gone = True
            self.w.ctx.log("router lost", c.ix)
            self.detach(c)

    def detach(self, c):
        if not c.attached:
            return
        c.attached = False
        realm, sid = c.realm, c.sid
        del realm.conns[sid]
        for topic in [t for t, (_, subs) in realm.topics.items() if sid in subs]:
            self.unsubscribed(realm, topic, sid)
        for p in [p for p, (s, _) in realm.procs.items() if s == sid]:
            del realm.procs[p]
        lost = [link[0] for link in realm.links.values() if not link[0].over and link[0].callee is c]
        for link in realm.links.values():
            if not link[0].over and (link[0].conn is c or link[0].callee is c):
                link[0].over = True
        if lost:
            self.w.ctx.fault("callee_lost_during_call", len(lost))
        try:
            outs = realm.leave(sid)
        except Violation:
            raise
        except Exception as e:
            fail(("C12", "C13", "C09"), "crash", f"removing session {sid} raised {type(e).__name__}({e!s:.80})")
        for to, m in outs:
            if isinstance(m, M.Error) and any(x.tainted and x.conn.sid == to and x.req == m.request_id for x, _ in realm.links.values()):
                # the ghost that the late chunk of a call raised: the known finding's shadow
                self.emit(realm, to, m)
                continue
            call = next((x for x in lost if x.conn.sid == to and isinstance(m, M.Error) and x.req == m.request_id), None)
            if call is None or call.router_error is not None:
                fail(("C12", "C09", "C05"), "stray-answer", f"when connection {c.ix} left, {canon(m)[:100]} was addressed to session {to}")
            call.router_error = m.uri
            self.emit(realm, to, m)

    def unsubscribed(self, realm, topic, sid):
        i, subs = realm.topics[topic]
        subs.discard(sid)
        if not subs:
            del realm.topics[topic]

    def emit(self, realm, sid, m):
        c = realm.conns.get(sid)
        if c is None:
            fail(("C09", "C12", "C13"), "addressed-departed", f"{canon(m)[:120]} addressed to session {sid}, which is not in the realm")
        try:
            data = c.r_ser.serialize(m)
        except Exception as e:
            fail(("C12", "C13", "C23"), "not-serialized", f"{canon(m)[:120]} could not be sent: {type(e).__name__} {e!s:.80}")
        c.down.send(frame(data))

    # -- messages
    def message(self, c, msg):
        w, realm, sid = self.w, c.realm, c.sid
        w.ctx.log("router", c.ix, canon(msg)[:400])
        if isinstance(msg, M.Goodbye):
            c.down.send(frame(c.r_ser.serialize(M.Goodbye(M.GoodbyeFields({}, "wamp.close.goodbye_and_out")))))
            self.close(c)
            return
        before = {"proc": realm.procs.get(getattr(msg, "procedure", None)), "topic": realm.topics.get(getattr(msg, "topic", None))}
        call = chunk = None
        if isinstance(msg, M.Call):
            call = c.link.calls.get(msg.request_id) if c.link else None
            if call is None:
                fail(("C12",), "phantom-call", f"the router received {canon(msg)[:100]} that connection {c.ix} did not send")
            chunk = call.routed
            call.routed += 1
            if chunk > 0 and call.over and not call.tainted:
                # the caller could not know yet that its call is over
                call.tainted = True
                w.ctx.fault("chunk_after_the_call_is_over")
        out = realm.receive(sid, msg)
        refused = isinstance(out, ValueError)
        if isinstance(msg, (M.Yield, M.Error)):
            self.answered(c, msg, out, refused)
        elif refused and c.link and ({M.Unsubscribe: "unsub", M.Unregister: "unreg"}.get(type(msg)), getattr(msg, "request_id", None)) in c.link.twice:
            # what was asked for twice is refused the second time, and the application says so
            c.down.send(frame(c.r_ser.serialize(M.Error(M.ErrorFields(msg.TYPE, msg.request_id, "wamp.error.no_such_" + type(msg).__name__.lower())))))
            return
        elif refused:
            if not (call is not None and call.tainted):
                fail(("C12", "C13") if isinstance(msg, (M.Publish, M.Subscribe, M.Unsubscribe)) else ("C12", "C05"), "honest-refused",
                     f"router refused {canon(msg)[:160]} of connection {c.ix}: {out}")
            return
        elif isinstance(msg, M.Publish):
            self.published(c, msg, out, before["topic"])
        elif call is not None:
            self.called(c, call, chunk, msg, out, before["proc"])
        else:
            self.simple(c, msg, out, before)
        if not refused:
            for to, m in out:
                self.emit(realm, to, m)

    def simple(self, c, msg, out, before):
        realm, sid = c.realm, c.sid
        if len(out) != 1 or out[0][0] != sid or getattr(out[0][1], "request_id", None) != msg.request_id:
            fail(("C12", "C13"), "wrong-reply", f"{canon(msg)[:100]} of session {sid} answered {[(s, canon(m)[:80]) for s, m in out]}")
        m = out[0][1]
        if isinstance(msg, M.Subscribe) and isinstance(m, M.Subscribed):
            i = m.subscription_id
            realm.topics.setdefault(msg.topic, (i, set()))[1].add(sid)
            if realm.topics[msg.topic][0] != i:
                fail(("C13", "C03"), "subscription-id", f"{msg.topic[:40]!r} has subscription {realm.topics[msg.topic][0]}, session got {i}")
            c.topics[i] = msg.topic
        elif isinstance(msg, M.Unsubscribe) and isinstance(m, M.Unsubscribed):
            topic = c.topics.get(msg.subscription_id)
            if topic in realm.topics and sid in realm.topics[topic][1]:
                self.unsubscribed(realm, topic, sid)
        elif isinstance(msg, M.Register) and isinstance(m, M.Registered):
            if before["proc"] is not None:
                fail(("C12", "C08"), "double-registration", f"{msg.procedure[:40]!r} is held by session {before['proc'][0]}, session {sid} got it too")
            realm.procs[msg.procedure] = (sid, m.registration_id)
        elif isinstance(msg, M.Register) and isinstance(m, M.Error) and m.message_type == M.Register.TYPE:
            if before["proc"] is None:
                fail(("C12", "C08", "C09"), "registration-refused", f"{msg.procedure[:40]!r} is held by nobody, session {sid} got {m.uri}")
        elif isinstance(msg, M.Unregister) and isinstance(m, M.Unregistered):
            for p in [p for p, (s, i) in realm.procs.items() if s == sid and i == msg.registration_id]:
                del realm.procs[p]
        else:
            fail(("C12", "C13"), "wrong-reply", f"{canon(msg)[:100]} answered {canon(m)[:100]}")

    def published(self, c, msg, out, topic):
        w = self.w
        rec = c.link.pubs.get(msg.request_id) if c.link else None
        if rec is None or rec["routed"]:
            fail(("C13",), "phantom-publication", f"the router received {canon(msg)[:100]} that connection {c.ix} did not send once")
        rec["routed"] = True
        if topic is not None:
            for sid in topic[1]:
                c.realm.conns[sid].expected.append((topic[0], rec))
            w.ctx.probe("event_fanout_%s" % min(len(topic[1]), 4))
        if not any(isinstance(m, M.Published) for _, m in out) and rec["ack"]:
            fail(("C13", "C12", "C02"), "no-ack", f"{canon(msg)[:100]} was not acknowledged")

    def called(self, c, call, chunk, msg, out, proc):
        realm = c.realm
        to, m = out[0]
        if isinstance(m, M.Error):
            if not call.tainted and (chunk or proc is not None):
                fail(("C12", "C04", "C07"), "call-refused", f"{call}, chunk {chunk}, held by {proc}, got {m.uri}")
            if to != c.sid or m.request_id != msg.request_id:
                fail(("C12", "C04"), "wrong-reply", f"{canon(msg)[:100]} answered {canon(m)[:100]} to {to}")
            call.over = True
            call.router_error = m.uri
            return
        if not isinstance(m, M.Invocation):
            fail(("C12", "C04"), "wrong-reply", f"{canon(msg)[:100]} answered {canon(m)[:100]}")
        if call.tainted:
            realm.links.setdefault(m.request_id, [call, 0])
            return
        if chunk == 0:
            if proc is None or to != proc[0]:
                fail(("C12", "C04", "C09"), "misrouted", f"{call}: held by {proc}, invocation sent to session {to}")
            if m.request_id in realm.links:
                fail(("C12", "C22"), "invocation-id-reused", f"{call} got invocation {m.request_id} of {realm.links[m.request_id][0]}")
            call.inv, call.callee = m.request_id, realm.conns.get(to)
            realm.links[m.request_id] = [call, 0]
        elif m.request_id != call.inv or call.callee is None or to != call.callee.sid:
            fail(("C07", "C12"), "chunk-misrouted", f"{call}: invocation {call.inv} was opened, chunk {chunk} became {canon(m)[:80]} for session {to}")

    def answered(self, c, msg, out, refused):
        link = c.realm.links.get(msg.request_id)
        if link is None:
            fail(("C12",), "phantom-answer", f"{canon(msg)[:100]} answers no invocation the router made")
        call = link[0]
        if call.tainted:
            return
        if refused:
            if not call.over:
                fail(("C12", "C05", "C07"), "answer-refused", f"{call} is open, its callee's {canon(msg)[:120]} was refused: {out}")
            self.w.ctx.fault("late_answer")
            return
        if call.over:
            fail(("C12", "C05"), "second-answer", f"{call} is over, {canon(msg)[:100]} was passed on")
        to, m = out[0]
        if to != call.conn.sid or m.request_id != call.req:
            fail(("C12", "C05"), "answer-misrouted", f"the answer to {call} was sent to session {to} as {canon(m)[:80]}")
        if isinstance(m, M.Error) or m.details.get("progress", False) is not True:
            call.over = True

    def hostile(self, c, msg):
        """The message of a hostile client that joined properly: crafted so that it must be refused or answered with an error."""
        w = self.w
        w.ctx.log("hostile", c.ix, canon(msg)[:200])
        if isinstance(msg, M.Goodbye):
            self.close(c)
            return
        if not isinstance(msg, (M.Subscribe, M.Unsubscribe, M.Publish, M.Call, M.Yield, M.Error, M.Register, M.Unregister)):
            w.ctx.fault("hostile_message_kind")
            return
        out = c.realm.receive(c.sid, msg)
        if isinstance(out, ValueError):
            w.ctx.fault("hostile_request_refused")
            return
        for to, m in out:
            if to != c.sid or not isinstance(m, M.Error):
                prop = {M.Yield: "C06", M.Error: "C06", M.Unsubscribe: "C03", M.Unregister: "C08"}.get(type(msg), "C12")
                fail((prop, "C12"), "hostile-accepted", f"{canon(msg)[:100]} of hostile session {c.sid} produced {canon(m)[:100]} for session {to}")
            w.ctx.fault("hostile_request_answered_error")


class Client:
    def __init__(self, w, i, cfg):
        self.w, self.i = w, i
        self.who = cfg["method"] + str(cfg["n"])
        self.method, self.ser, self.realm = cfg["method"], cfg["ser"], cfg["realm"]
        self.key = KEYS[cfg["n"] % 2]
        self.bad = False
        self.link = None

    def authenticator(self):
        secret = "secret-" + self.who + ("-wrong" if self.bad else "")
        if self.method == "anonymous":
            return auth.AnonymousAuthenticator(self.who, {})
        if self.method == "ticket":
            return auth.TicketAuthenticator(self.who, secret, {})
        if self.method == "cryptosign":
            return auth.CryptoSignAuthenticator(self.who, self.key, {})
        return auth.WAMPCRAAuthenticator(self.who, secret, {})


class Link:
    """The client's side of one connection, from TCP connect to its end, with the application on top."""

    def __init__(self, w, client, conn):
        self.w, self.client, self.conn = w, client, conn
        self.parser = Parser()
        self.ser = SERIALIZERS[client.ser]()
        self.peer = SERIALIZERS[client.ser]()
        self.joiner = Joiner(client.realm, SERIALIZERS[client.ser](), client.authenticator())
        self.session = None
        self.twice = set()  # requests for what another request is under way for
        self.ids = idgen.SessionScopeIDGenerator()
        self.alive = True
        self.leaving = False
        self.order = []  # requests answered in order: (kind, id, what)
        self.subs, self.regs = {}, {}  # id -> name
        self.calls = {}  # request id -> Call
        self.pubs = {}  # request id -> publication record
        self.invs = {}  # invocation id -> [call, state, answers sent, chunks seen]
        self.got = 0  # events received
        self.pings = []
        self.last_call = {}  # callee's view: caller connection -> last new request id
        self.rng = seams.Random(f"{w.seed}/app/{conn.ix}")
        conn.up.send(rs.Handshake(PROTO[client.ser], 2**24).to_bytes())

    def up(self):
        return self.alive and self.session is not None and not self.leaving

    def lost(self):
        if self.alive:
            self.alive = False
            self.w.ctx.log("client lost", self.conn.ix)
            if self.client.link is self:
                self.client.link = None
                if self.w.cfg["reconnect"] and not self.w.draining:
                    self.w.at(self.w.now + self.rng.choice([1, 50, 3000]), lambda: self.w.connect(self.client))

    def bytes(self, p):
        if not self.alive:
            return
        if p == "EOF":
            if self.session is None and not self.client.bad and not self.conn.broken:
                fail(("C12", "C14"), "honest-refused", f"the router closed on {self.client.who} during the handshake")
            self.lost()
            return
        it = self.parser.feed(p)
        while self.alive:
            try:
                kind, body = next(it)
            except StopIteration:
                return
            except Exception as e:
                fail(("C12", "C13", "C19"), "framing", f"client {self.conn.ix} could not read its stream: {type(e).__name__} {e!s:.80}")
            if kind == "hs":
                if body.protocol != PROTO[self.client.ser] or body.max_msg_size != 2**24:
                    fail(("C12", "C19"), "framing", f"router's handshake reads {body.protocol}, {body.max_msg_size}")
                self.send_raw(self.joiner.send_hello())
            elif kind == rs.MSG_TYPE_PONG:
                if not self.pings or self.pings.pop(0) != body:
                    fail(("C12", "C19"), "pong", f"connection {self.conn.ix} got a pong of {body[:20]!r}")
            elif self.session is None:
                self.joining(body)
            else:
                self.receive(body)

    def send_raw(self, data, kind=0):
        self.conn.up.send(frame(data, kind))

    def joining(self, body):
        try:
            out = self.joiner.receive(payload(body, self.client.ser))
        except ApplicationError as e:
            if not self.client.bad:
                fail(("C12", "C14"), "honest-refused", f"{self.client.who} was aborted: {e}")
            self.w.ctx.log("aborted", self.conn.ix)
            return
        except Exception as e:
            fail(("C12", "C14"), "peer-refused", f"joiner of {self.client.who} raised {type(e).__name__}({e!s:.80})")
        if out is not None:
            self.send_raw(out)
            return
        det = self.joiner.get_session_details()
        rd = self.conn.r_details
        if self.client.bad or rd is None or det != rd:
            fail(("C14", "C12"), "wrong-details", f"client {self.client.who} joined as session {det.session_id} of {det.realm}, router has "
                                                  f"{rd and (rd.session_id, rd.realm)}")
        self.session = WAMPSession(self.ser)
        self.w.ctx.probe("joined")

    # -- sending
    def send(self, msg):
        try:
            data = self.session.send_message(msg)
        except Exception as e:
            fail(("C13", "C12", "C10") if isinstance(msg, (M.Publish, M.Subscribe, M.Unsubscribe)) else ("C12", "C10"), "send-refused", f"{canon(msg)[:120]} could not be sent: {type(e).__name__} {e!s:.80}")
        self.send_raw(data)

    def request(self, kind, what, make, twice=False):
        req = self.ids.next()
        if twice:
            self.twice.add((kind, req))
            self.w.ctx.fault("asked_twice")
        self.order.append((kind, req, what))
        self.send(make(req))

    def sub(self, topic):
        self.request("sub", topic, lambda r: M.Subscribe(M.SubscribeFields(r, topic, self.w.deco.opts("sub", r))))

    def unsub(self, sel):
        busy = {w for k, _, w in self.order if k == "unsub"}
        pool = sorted(set(self.subs) - (busy if sel % 5 else set()))
        if pool:
            i = pool[sel // 5 % len(pool)]
            self.request("unsub", i, twice=i in busy, make=lambda r: M.Unsubscribe(M.UnsubscribeFields(r, i)))

    def reg(self, proc):
        self.request("reg", proc, lambda r: M.Register(M.RegisterFields(r, proc, self.w.deco.opts("reg", r))))

    def unreg(self, sel):
        busy = {w for k, _, w in self.order if k == "unreg"}
        pool = sorted(set(self.regs) - (busy if sel % 5 else set()))
        if pool:
            i = pool[sel // 5 % len(pool)]
            self.request("unreg", i, twice=i in busy, make=lambda r: M.Unregister(M.UnregisterFields(r, i)))

    def pub(self, topic, ack, args, kwargs):
        req = self.ids.next()
        o = self.w.deco.opts("pub", req, base={} if ack is None else {"acknowledge": ack}, forbid=("acknowledge",))
        self.pubs[req] = rec = {"args": args, "kwargs": kwargs, "ack": bool(ack), "routed": False, "id": None, "topic": topic}
        if ack:
            self.order.append(("pub", req, rec))
        self.send(M.Publish(M.PublishFields(req, topic, args, kwargs, o)))

    def call(self, proc, progressive, receive_progress, args, kwargs):
        req = self.ids.next()
        call = self.calls[req] = Call(self.conn, req, proc)
        call.receive_progress = receive_progress
        self.chunk(call, not progressive, args, kwargs)

    def chunk(self, call, final, args, kwargs):
        o = self.w.deco.opts("call", call.req, len(call.chunks), forbid=("progress", "receive_progress"),
                             base={**self.w.deco.off("progress", "call", call.req), **self.w.deco.off("receive_progress", "call", call.req)})
        if call.receive_progress:
            o["receive_progress"] = True
        if not final:
            o["progress"] = True
        call.chunks.append((args, kwargs, final))
        self.send(M.Call(M.CallFields(call.req, call.proc, args, kwargs, o)))

    def bye(self):
        self.leaving = True
        self.send(M.Goodbye(M.GoodbyeFields({}, "wamp.close.close_realm")))

    # -- receiving
    def receive(self, body):
        w = self.w
        try:
            shown = self.peer.deserialize(payload(body, self.client.ser))
        except Exception as e:
            fail(("C12", "C13", "C23"), "peer-refused", f"connection {self.conn.ix} cannot decode {body[:60]!r}: {type(e).__name__}")
        try:
            msg = self.session.receive(payload(body, self.client.ser))
        except Exception as e:
            call = self.calls.get(getattr(shown, "request_id", None)) if isinstance(shown, (M.Result, M.Error)) else None
            if call is not None and call.tainted:
                w.ctx.finding(("C12",), "late-chunk-second-answer", f"{call} was answered twice after a chunk that came too late: {canon(shown)[:100]}")
                return
            link = self.invs.get(shown.request_id) if isinstance(shown, M.Invocation) else None
            if link is not None and link[1] == "answered" and w.cfg["early_final"]:
                w.ctx.fault("chunk_after_the_callee_answered")
                return
            props = {M.Event: ("C13", "C12", "C10"), M.Subscribed: ("C13", "C12", "C10"), M.Unsubscribed: ("C13", "C12", "C10"),
                     M.Published: ("C13", "C12", "C10")}.get(type(shown), ("C12", "C10", "C05"))
            fail(props, "peer-refused", f"client session {self.conn.ix} refused {canon(shown)[:160]}: {type(e).__name__} {e!s:.80}")
        w.ctx.log("client", self.conn.ix, canon(msg)[:300])
        if isinstance(msg, M.Event):
            self.event(msg)
        elif isinstance(msg, M.Invocation):
            self.invoked(msg)
        elif isinstance(msg, M.Result):
            self.result(msg)
        elif isinstance(msg, M.Error) and msg.message_type == M.Call.TYPE:
            self.result(msg)
        elif isinstance(msg, M.Goodbye):
            if not self.leaving:
                fail(("C12",), "goodbye", f"connection {self.conn.ix} was sent a GOODBYE it did not ask for")
            self.complete("goodbye")
            self.lost()
        else:
            self.replied(msg)

    def event(self, m):
        if self.got >= len(self.conn.expected):
            fail(("C13", "C01"), "phantom-event", f"connection {self.conn.ix} got {canon(m)[:120]}, no publication is due to it")
        sub, rec = self.conn.expected[self.got]
        self.got += 1
        a, k = values.wire_payload(rec["args"], rec["kwargs"])
        if m.subscription_id != sub:
            fail(("C13", "C01"), "wrong-event", f"connection {self.conn.ix}: event {self.got} came under subscription {m.subscription_id}, due is one under {sub}")
        if not same(m.args, a) or not same(m.kwargs, k):
            fail(("C13", "C02", "C23"), "wrong-event", f"connection {self.conn.ix}: event {self.got} is {str(m.args)[:80]} {str(m.kwargs)[:80]}, "
                                                       f"due is {str(a)[:80]} {str(k)[:80]}")
        if rec["topic"] != self.subs.get(m.subscription_id):
            fail(("C13", "C01"), "wrong-topic", f"connection {self.conn.ix}: event of {rec['topic'][:40]!r} under the subscription of {self.subs.get(m.subscription_id)!r:.40}")
        self.publication_id(rec, m.publication_id)
        self.w.ctx.probe("event")

    def publication_id(self, rec, i):
        if rec["id"] is None:
            rec["id"] = i
        if rec["id"] != i:
            fail(("C13", "C02"), "publication-id", f"one publication has ids {rec['id']} and {i}")

    def replied(self, m):
        kind = {M.Subscribed: "sub", M.Unsubscribed: "unsub", M.Registered: "reg", M.Unregistered: "unreg", M.Published: "pub"}.get(type(m))
        if isinstance(m, M.Error):
            kind = {32: "sub", 34: "unsub", 64: "reg", 66: "unreg", 16: "pub"}.get(m.message_type)
        if not self.order or (kind, m.request_id) != self.order[0][:2]:
            fail(("C12", "C13") if kind in ("sub", "unsub", "pub") else ("C12",), "out-of-order",
                 f"connection {self.conn.ix} waits for {[x[:2] for x in self.order[:4]]} and got {canon(m)[:80]}")
        _, req, what = self.order.pop(0)
        if isinstance(m, M.Error):
            if kind != "reg" and (kind, req) not in self.twice:
                fail(("C12", "C13"), "error-reply", f"honest {kind} {req} of connection {self.conn.ix} got {m.uri}")
            self.w.ctx.probe("registration_conflict")
        elif kind == "sub":
            self.subs[m.subscription_id] = what
        elif kind == "unsub":
            self.subs.pop(what, None)
        elif kind == "reg":
            self.regs[m.registration_id] = what
        elif kind == "unreg":
            self.regs.pop(what, None)
        else:
            self.publication_id(what, m.publication_id)
        self.w.ctx.probe("reply_" + str(kind))

    def result(self, m):
        call = self.calls.get(m.request_id)
        if call is None:
            fail(("C12", "C05"), "phantom-result", f"connection {self.conn.ix} got {canon(m)[:100]}")
        if call.tainted:
            return
        if call.done:
            fail(("C12", "C05", "C10"), "second-answer", f"{call} was answered, then got {canon(m)[:100]}")
        due = call.answers[call.received] if call.received < len(call.answers) else None
        if isinstance(m, M.Error):
            got = ("error", m.uri, m.args, m.kwargs)
        else:
            got = ("progress" if m.details.get("progress", False) is True else "result", m.args, m.kwargs)
        if due is not None and same(list(due), list(got)):
            call.received += 1
        elif got[0] == "error" and call.router_error == m.uri:
            self.w.ctx.probe("call_failed_by_router")
        else:
            fail(("C12", "C05"), "wrong-answer", f"{call} got {str(got)[:150]}, its callee's next answer is {str(due)[:150]}")
        if got[0] != "progress":
            call.done = True
        self.w.ctx.probe("call_" + got[0])

    def invoked(self, m):
        w = self.w
        link = self.conn.realm.links.get(m.request_id)
        if link is None:
            fail(("C12", "C04"), "phantom-invocation", f"connection {self.conn.ix} got {canon(m)[:100]}")
        call, n = link
        if call.tainted:
            self.invs.setdefault(m.request_id, [call, "tainted"])
            return
        proc = self.regs.get(m.registration_id)
        if call.callee is not self.conn or n >= len(call.chunks):
            fail(("C12", "C04", "C07"), "phantom-invocation", f"connection {self.conn.ix} got {canon(m)[:100]}, chunk {n} of {call}")
        if n == 0 and proc != call.proc:
            fail(("C12", "C04"), "wrong-procedure", f"{call} arrived as an invocation of {proc!r:.40}")
        args, kwargs, final = call.chunks[n]
        link[1] += 1
        a, k = values.wire_payload(args, kwargs)
        if not same(m.args, a) or not same(m.kwargs, k):
            fail(("C12", "C04", "C23"), "wrong-content", f"chunk {n} of {call}: sent {str(a)[:80]} {str(k)[:80]}, arrived {str(m.args)[:80]} {str(m.kwargs)[:80]}")
        if (m.details.get("progress", False) is True) == final or (m.details.get("receive_progress", False) is True) != call.receive_progress:
            fail(("C12", "C07"), "wrong-details", f"chunk {n} of {call} (final {final}, receive_progress {call.receive_progress}) arrived with {m.details}")
        if n == 0:
            key = call.conn.ix
            if self.last_call.get(key, 0) >= call.req:
                fail(("C12",), "calls-reordered", f"call {call.req} of connection {key} arrived after its call {self.last_call[key]}")
            self.last_call[key] = call.req
            self.invs[m.request_id] = [call, "open"]
        st = self.invs.get(m.request_id)
        if st is None or st[1] == "answered":
            return
        think = w.cfg["think"]
        if call.receive_progress and self.rng.random() < 0.5:
            for _ in range(self.rng.choice([1, 1, 3])):
                w.at(w.now + self.rng.randint(0, think), lambda: self.progress(m.request_id))
        if final or (w.cfg["early_final"] and self.rng.random() < 0.4):
            st[1] = "due"
            if self.rng.random() >= w.cfg["sulk"] or w.draining:
                w.at(w.now + self.rng.randint(0, think), lambda: self.answer(m.request_id))

    def progress(self, inv):
        st = self.invs[inv]
        if not self.up() or st[1] in ("answered", "tainted"):
            return
        a = ["progress", self.conn.ix, inv, len(st[0].answers)]
        st[0].answers.append(("progress", a, None))
        self.send(M.Yield(M.YieldFields(inv, a, None, self.w.deco.opts("part", inv, base={"progress": True}))))

    def answer(self, inv):
        st = self.invs[inv]
        if not self.up() or st[1] != "due":
            return
        st[1] = "answered"
        call = st[0]
        a, k = (["r", self.conn.ix, inv] + list(call.chunks[0][0] or []), {"n": inv, **(call.chunks[-1][1] or {})}) if self.rng.random() < 0.7 else (None, None)
        if self.rng.random() < 0.2:
            uri = self.w.deco.uri("app", inv) if self.w.cfg.get("salt") else "app.error"
            call.answers.append(("error", uri, *values.wire_payload(a, k)))
            self.send(M.Error(M.ErrorFields(M.Invocation.TYPE, inv, uri, a, k, self.w.deco.opts("app", inv))))
        else:
            call.answers.append(("result", *values.wire_payload(a, k)))
            self.send(M.Yield(M.YieldFields(inv, a, k, self.w.deco.opts("final", inv, base=self.w.deco.off("progress", "final", inv), forbid=("progress",)))))

    # -- verdicts
    def complete(self, why):
        """Everything the router processed for this session has arrived."""
        if self.got != len(self.conn.expected):
            fail(("C13", "C01"), "lost-event", f"connection {self.conn.ix} ({why}) received {self.got} of {len(self.conn.expected)} events due")
        for kind, req, _ in self.order:
            fail(("C12", "C13") if kind in ("sub", "unsub", "pub") else ("C12",), "unanswered", f"{kind} {req} of connection {self.conn.ix} ({why}) was never answered")
        if why == "goodbye":
            return
        for call in self.calls.values():
            if not call.done and not call.tainted:
                fail(("C12", "C05", "C09"), "unanswered", f"{call} was never answered; chunks {len(call.chunks)}, routed {call.routed}, invocation {call.inv}")
        if self.pings:
            fail(("C12",), "unanswered", f"ping of connection {self.conn.ix}")


class World:
    def __init__(self, plan, ctx):
        self.cfg, self.ctx, self.seed = plan["config"], ctx, plan["world_seed"]
        self.now, self.seq, self.heap = 0, 0, []
        self.draining = False
        self.db = Users()
        self.deco = values.Decor(self.cfg.get("salt", 0), self.cfg.get("words", ()))
        self.router = Router(self)
        self.clients = [Client(self, i, c) for i, c in enumerate(self.cfg["clients"])]
        self.conns = []
        self.events = 0

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.heap, (max(t, self.now), self.seq, fn))

    def run(self, until, limit=None):
        n = 0
        while self.heap and self.heap[0][0] <= until:
            t, _, fn = heapq.heappop(self.heap)
            self.now = t
            seams.WORLD.now = seams.EPOCH + t / 1000
            self.ctx.drift()
            self.ctx.steps += 1
            n += 1
            fn()
            if limit is not None and n > limit:
                fail(("C12", "C13"), "no-progress", f"still busy after {limit} events without faults")
        if until < FOREVER:
            self.now = max(self.now, until)

    def connect(self, client):
        if client.link is not None:
            return
        conn = Conn(self, len(self.conns), client)
        self.conns.append(conn)
        conn.link = client.link = Link(self, client, conn)

    def links(self):
        return [c.link for c in self.clients if c.link is not None and c.link.up()]

    # -- hostile clients
    def hostile(self, i, sel, style):
        base = self.cfg["clients"][i]
        cl = Client(self, i, base)
        conn = Conn(self, len(self.conns), cl, hostile=True)
        self.conns.append(conn)
        rng = seams.Random(f"{self.seed}/hostile/{conn.ix}")
        self.ctx.fault("hostile_connection")
        if style == 0:
            conn.up.send(bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 4, 40]))))
            return
        if style == 1:
            conn.up.send(bytes([0x7F, 0xF0 | rng.choice([0, 4, 9]), 0, 0]))
            return
        if style == 2:
            conn.up.send(bytes([0x7F, 0xF1, rng.randrange(1, 256), 0]) + b"\0\0\0\1x")
            return
        if style < 5:
            conn.up.send(rs.Handshake(PROTO[cl.ser], 2**24).to_bytes())
        ser = SERIALIZERS[cl.ser]()
        if style == 3:
            conn.up.send(frame(b"\xc1\xff" * rng.choice([1, 50])))
            return
        if style == 4:
            conn.up.send(frame(ser.serialize(rng.choice([
                M.Subscribe(M.SubscribeFields(1, self.cfg["names"][0])), M.Authenticate(M.AuthenticateFields("x", {})), M.Welcome(M.WelcomeFields(1, {"broker": {}})),
                M.Call(M.CallFields(1, self.cfg["names"][0])), M.Goodbye(M.GoodbyeFields({}, "x"))]))))
            return
        # it has an account: it joins as anyone would and then misbehaves
        conn.link = HostileLink(self, cl, conn, rng, style, sel)

    def op(self, op):
        k, i, sel = op[0], op[1], op[2]
        names = self.cfg["names"]
        if k == "wait":
            return
        client = self.clients[i]
        if k == "connect":
            client.bad = False if client.link is None else client.bad
            self.connect(client)
            return
        if k == "badlogin":
            if client.link is None or client.link.up():
                if client.method in ("anonymous", "cryptosign"):
                    return
                # a second device of the same user, with a wrong secret
                c2 = Client(self, i, self.cfg["clients"][i])
                c2.bad = True
                self.connect(c2)
                self.ctx.fault("wrong_secret")
            return
        if k == "hostile":
            self.hostile(i, sel, op[3])
            return
        if k == "restart":
            self.ctx.fault("router_restart")
            self.ctx.log("restart")
            for c in self.conns:
                if not c.r_gone:
                    c.r_gone, c.attached = True, False
                    if not c.closed and not c.broken:
                        c.broken = True
                        c.up.budget = 0
                        c.down.budget = c.rng.randint(0, c.down.inflight)
                        self.at(max(self.now, c.down.last) + c.rng.randint(0, self.cfg["detect"]), lambda c=c: c.link and c.link.lost())
            for realm in self.router.realms.values():
                for link in realm.links.values():
                    link[0].over = True
            self.router = Router(self)
            return
        link = client.link
        if link is None:
            return
        if k == "crash":
            self.ctx.fault("client_crash")
            self.ctx.log("crash", link.conn.ix)
            link.alive = False
            client.link = None
            link.conn.reset(crash=True)
            if self.cfg["reconnect"]:
                self.at(self.now + link.rng.choice([1, 50, 3000]), lambda: self.connect(client))
            return
        if k == "reset":
            self.ctx.fault("connection_reset")
            link.conn.reset()
            return
        if k == "stall":
            self.ctx.fault("stalled_peer")
            pipe = link.conn.down if sel % 2 else link.conn.up
            pipe.stalled_until = self.now + 10 * sel
            return
        if not link.up():
            return
        name = names[sel % len(names)] if sel % 3 else names[0]
        if k == "sub":
            link.sub(name)
        elif k == "unsub":
            link.unsub(sel)
        elif k == "reg":
            link.reg(name)
        elif k == "unreg":
            link.unreg(sel)
        elif k == "pub":
            link.pub(name, op[3], op[4], op[5])
        elif k == "call":
            link.call(name, op[3], op[4], op[5], op[6])
        elif k == "chunk":
            open_ = [c for c in link.calls.values() if not c.chunks[-1][2] and not c.done]
            if open_:
                link.chunk(open_[sel % len(open_)], not op[3], op[4], op[5])
        elif k == "burst":
            for n in range(op[3]):
                if n % 2:
                    link.pub(name, n % 4 == 1, [n], None)
                else:
                    link.call(name, False, False, [n], None)
        elif k == "pipeline":
            # one client has many requests under way at once while the others use what it offers
            others = [x for x in self.links() if x is not link]
            kind = sel % 4
            for n, nm in enumerate(names):
                if others and sel % 3:
                    o = others[(sel + n) % len(others)]
                    o.pub(nm, n % 2 == 0, [n], None)
                    o.call(nm, False, n % 2 == 0, [n], None)
                if kind in (0, 3):
                    link.unreg(sel + n)
                    link.unsub(sel + n)
                if kind == 1 or (kind == 3 and n % 2):
                    link.sub(nm)
                    link.reg(nm)
                if kind == 2:
                    link.sub(nm)
                    link.sub(nm)
                    link.call(nm, False, False, [n], None)
        elif k == "ping":
            data = bytes([sel % 256]) * (sel % 130)
            link.pings.append(data)
            link.send_raw(data, rs.MSG_TYPE_PING)
        elif k == "bye":
            link.bye()

    def drain(self):
        """Faults stop: whatever is open is finished and everything in flight arrives, within a bounded number of events."""
        self.draining = True
        self.ctx.log("drain")
        for _ in range(4):
            for link in self.links():
                for call in list(link.calls.values()):
                    if not call.done and not call.chunks[-1][2]:
                        link.chunk(call, True, ["last"], None)
                for inv, st in list(link.invs.items()):
                    if st[1] == "due":
                        link.answer(inv)
            self.run(FOREVER, limit=200000)
        for link in self.links():
            if not link.conn.broken and not link.conn.closed:
                link.complete("at the end")


class HostileLink(Link):
    def __init__(self, w, client, conn, rng, style, sel):
        super().__init__(w, client, conn)
        self.hrng, self.style, self.sel, self.acted = rng, style, sel, False

    def lost(self):
        self.alive = False

    def joining(self, body):
        try:
            out = self.joiner.receive(payload(body, self.client.ser))
        except Exception:
            return
        if out is not None:
            self.send_raw(out)
            return
        self.session = True
        for t in (0, 20, 300):
            self.w.at(self.w.now + t, self.act)

    def bytes(self, p):
        if self.alive and p != "EOF":
            for kind, body in self.parser.feed(p):
                if kind == "hs":
                    self.send_raw(self.joiner.send_hello())
                elif self.session is None:
                    self.joining(body)

    def act(self):
        if not self.alive or self.conn.r_gone:
            return
        w, rng, ser, realm = self.w, self.hrng, self.peer, self.conn.realm
        style = self.style
        if style == 5:
            # answers to other sessions' invocations
            for inv in sorted(realm.links)[-6:] + [1, 2, 2**53]:
                link = realm.links.get(inv)
                if link is not None and link[0].tainted:
                    continue
                m = M.Yield(M.YieldFields(inv, ["hijacked"], None, {"progress": True} if rng.random() < 0.3 else {}))
                if rng.random() < 0.5:
                    m = M.Error(M.ErrorFields(68, inv, "hijacked"))
                self.send_raw(ser.serialize(m))
        elif style == 6:
            for i in sorted({i for i, _ in realm.topics.values()})[:5] + [1, 2**53]:
                self.send_raw(ser.serialize(M.Unsubscribe(M.UnsubscribeFields(rng.randrange(1, 100), i))))
        elif style == 7:
            for i in sorted({i for _, i in realm.procs.values()})[:5] + [1, 2**53]:
                self.send_raw(ser.serialize(M.Unregister(M.UnregisterFields(rng.randrange(1, 100), i))))
        elif style == 8:
            for m in (M.Call(M.CallFields(1, "hostile.nothing.here")), M.Result(M.ResultFields(1)), M.Welcome(M.WelcomeFields(1, {"broker": {}})),
                      M.Invocation(M.InvocationFields(1, 1)), M.Event(M.EventFields(1, 1)), M.Error(M.ErrorFields(48, 1, "x"))):
                self.send_raw(ser.serialize(m))
        elif style == 9:
            self.send_raw(ser.serialize(M.Publish(M.PublishFields(1, "hostile.nobody.listens"))))
            self.send_raw(ser.serialize(M.Yield(M.YieldFields(1)))[:3])
        else:
            good = ser.serialize(M.Publish(M.PublishFields(1, w.cfg["names"][0], ["evil"])))
            raw = good.encode() if isinstance(good, str) else good
            self.send_raw(raw[:-2])


def execute(plan, ctx):
    w = World(plan, ctx)
    for op in plan["ops"]:
        w.run(w.now + (op[2] if op[0] == "wait" else 0))
        w.op(op)
        live = w.links()
        ctx.state("w", len(live), min(sum(len(x.order) for x in live), 5), min(sum(not c.done for x in live for c in x.calls.values()), 5),
                  min(len(w.heap), 12), len(w.router.realms))
    w.drain()
    # afterwards everybody still gets service
    for client in w.clients:
        client.bad = False
        w.connect(client)
    w.run(FOREVER, limit=200000)
    for link in w.links():
        link.pub(w.cfg["names"][0], True, ["after"], None)
        link.sub(w.cfg["names"][0])
        link.call(w.cfg["names"][0], False, False, ["after"], None)
        link.reg(w.cfg["names"][1])
    w.drain()
    up = len(w.links())
    if up != len(w.clients):
        fail(("C12", "C14"), "not-back", f"{up} of {len(w.clients)} clients could join once faults stopped")
    for link in w.links():
        link.pub(w.cfg["names"][0], True, ["after", "all"], {"x": 1})
        link.call(w.cfg["names"][1], False, True, ["after", "all"], None)
        if link.conn.ix % 2:
            link.bye()
    w.drain()
    ctx.log("end", w.now, len(w.conns))
