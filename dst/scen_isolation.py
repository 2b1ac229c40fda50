"""Many independent routers, sessions, handshakes and generators interleaved in one process, against each one run alone.

Every actor is first run alone in a forked process (twice, with different randomness), then all of them are interleaved, with the
containers the caller passes in shared between them. Each actor must see exactly what it sees alone. Ids that differ between
the two solo runs are drawn at random: they are compared by order of appearance, everything else by value.
"""

import copy
import json
import os

import nacl.signing
from wampproto import auth, idgen, serializers
from wampproto import messages as M
from wampproto.acceptor import Acceptor
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner
from wampproto.session import WAMPSession
from wampproto.transports import rawsocket
from wampproto.types import MessageWithRecipient, Publication, SessionDetails

from dst import seams, values
from dst.engine import Violation, same

NAME = "isolation"
SERIALIZERS = {"json": serializers.JSONSerializer, "cbor": serializers.CBORSerializer, "msgpack": serializers.MsgPackSerializer}
TYPES = ["broker", "dealer", "session", "handshake", "messages", "ids"]
# positions of ids in the marshalled form
IDS = {"Subscribed": {2: "sub"}, "Event": {1: "sub", 2: "pub"}, "Published": {2: "pub"}, "Registered": {2: "reg"},
       "Invocation": {1: "inv", 2: "reg"}, "Welcome": {1: "sid"}, "Unsubscribe": {2: "sub"}, "Unregister": {2: "reg"}}
KEYS = ["11" * 32, "22" * 32]


def generate(rng, focus=None, large=False):
    n = rng.choice([2, 2, 3, 4]) if not large else 12
    if rng.random() < 0.6:
        kind = rng.choice(TYPES)
        types = [kind] * 2 + [rng.choice(TYPES) for _ in range(n - 2)]
    else:
        types = [rng.choice(TYPES) for _ in range(n)]
    actors = [{"type": t, "ser": rng.choice(list(SERIALIZERS)), "method": rng.choice(["anonymous", "ticket", "wampcra", "salted", "cryptosign"]),
               "user": rng.randrange(2), "share": rng.random() < 0.8} for t in types]
    pool = {"args": [values.args(rng) for _ in range(3)], "kwargs": [values.kwargs(rng) for _ in range(3)],
            "options": [rng.choice([{}, {"acknowledge": True}, {"progress": True}, {"receive_progress": True}, {"x": [1]}]) for _ in range(4)],
            "extra": [rng.choice([{}, {"a": 1}, {"nested": {"b": [1]}}]) for _ in range(2)],
            "roles": [{"caller": {"features": {}}}, {"subscriber": {}}],
            "router_roles": [{"broker": {"features": {}}}, {"broker": {}}, {"dealer": {"features": {"y": True}}}]}
    nops = rng.choice([10, 30, 60, 120]) if not large else 600
    ops = [[i, "start", 0, 0] for i in range(len(actors))]
    run = 1
    while len(ops) < nops:
        i = rng.randrange(len(actors))
        run = rng.choice([1, 1, 1, 2, 8])
        for _ in range(run):
            ops.append([i, None, rng.randrange(10**6), rng.randrange(1000)])
    return {"scenario": NAME, "config": {"actors": actors, "pool": pool}, "ops": ops}


class Actor:
    def __init__(self, cfg, pool, shared):
        self.cfg = cfg
        self.pool = pool if cfg["share"] else copy.deepcopy(pool)
        self.shared = shared if cfg["share"] else Shared()
        self.log = []
        self.n = 0

    def opt(self, what, sel):
        p = self.pool[what]
        return p[sel % len(p)]

    def emit(self, *parts):
        self.log.append(list(parts))

    def msg(self, m):
        """A message as a list in which ids are marked, so that random ones can be masked."""
        if m is None:
            return None
        name = type(m).__name__
        raw = list(m.marshal())
        for pos, cat in IDS.get(name, {}).items():
            raw[pos] = {"#": cat, "v": raw[pos]}
        return [name] + [printable(x) for x in raw]

    def guard(self, fn):
        try:
            return fn(), None
        except Exception as e:
            return None, f"{type(e).__name__}"

    def step(self, sel, sel2):
        self.n += 1
        op, weight = self.OPS[sel % len(self.OPS)], sel // 64
        getattr(self, op)(weight, sel2)


class Shared:
    """Objects a program would create once and hand to many instances."""

    def __init__(self):
        self.ser = {k: v() for k, v in SERIALIZERS.items()}
        self.db = Users()


class BrokerActor(Actor):
    OPS = ["join", "leave", "sub", "sub", "sub", "unsub", "pub", "pub", "pub", "foreign"]

    def __init__(self, *a):
        super().__init__(*a)
        self.r = Broker()
        self.subs = []
        for s in (1, 2):
            self.r.add_session(SessionDetails(s, "realm1", "u", "r"))

    def sid(self, x):
        return 1 + x % 3

    def join(self, a, b):
        _, e = self.guard(lambda: self.r.add_session(SessionDetails(self.sid(a), "realm1", "u", "r")))
        self.emit("join", self.sid(a), e)

    def leave(self, a, b):
        if b % 3:
            return
        _, e = self.guard(lambda: self.r.remove_session(self.sid(a)))
        self.emit("leave", self.sid(a), e)

    def req(self, m, sid):
        r, e = self.guard(lambda: self.r.receive_message(sid, m))
        self.emit(sid, type(m).__name__, self.msg(r.message) if r else None, r.recipient if r else e)
        return r

    def sub(self, a, b):
        r = self.req(M.Subscribe(M.SubscribeFields(self.n, f"t{b % 3}", self.opt("options", a))), self.sid(a))
        if r:
            self.subs.append((self.sid(a), r.message.subscription_id))

    def unsub(self, a, b):
        if self.subs:
            sid, i = self.subs.pop(a % len(self.subs))
            self.req(M.Unsubscribe(M.UnsubscribeFields(self.n, i)), sid)

    def foreign(self, a, b):
        self.req(M.Unsubscribe(M.UnsubscribeFields(self.n, b + 1)), self.sid(a))

    def pub(self, a, b):
        m = M.Publish(M.PublishFields(self.n, f"t{b % 3}", self.opt("args", a), self.opt("kwargs", b), self.opt("options", a + b)))
        r, e = self.guard(lambda: self.r.receive_publish(self.sid(a), m))
        self.emit("pub", e if e else [self.msg(r.event), sorted(r.recipients or []), self.msg(r.ack.message) if r.ack else None])
        self.emit("has", [bool(self.r.has_subscription(f"t{t}")) for t in range(3)])


class DealerActor(Actor):
    OPS = ["join", "leave", "reg", "reg", "unreg", "call", "call", "call", "answer", "answer", "error", "payload"]

    def __init__(self, *a):
        super().__init__(*a)
        self.r = Dealer()
        self.regs, self.invs = [], []
        for s in (1, 2):
            self.r.add_session(SessionDetails(s, "realm1", "u", "r"))
        self.reg(0, 0)

    sid = BrokerActor.sid
    join = BrokerActor.join

    def leave(self, a, b):
        if b % 4:
            return
        r, e = self.guard(lambda: self.r.remove_session(self.sid(a)))
        self.emit("leave", self.sid(a), e, sorted((str(x.recipient) + str(self.msg(x.message)) for x in r or [])))

    def req(self, m, sid):
        r, e = self.guard(lambda: self.r.receive_message(sid, m))
        self.emit(sid, type(m).__name__, self.msg(r.message) if r else None, r.recipient if r else e)
        if r and isinstance(r.message, M.Invocation):
            self.invs.append((r.recipient, r.message.request_id))
        return r

    def reg(self, a, b):
        sid = 1 + a % 2
        r = self.req(M.Register(M.RegisterFields(self.n, f"p{b % 3}", self.opt("options", a))), sid)
        if r and isinstance(r.message, M.Registered):
            self.regs.append((sid, r.message.registration_id))
        self.emit("has", [bool(self.r.has_registration(f"p{t}")) for t in range(3)])

    def unreg(self, a, b):
        if self.regs and b % 3 == 0:
            sid, i = self.regs.pop(a % len(self.regs))
            self.req(M.Unregister(M.UnregisterFields(self.n, i)), sid)

    def call(self, a, b):
        self.req(M.Call(M.CallFields(self.n, f"p{b % 3}", self.opt("args", a), self.opt("kwargs", b), self.opt("options", a + b))), self.sid(a))

    def payload(self, a, b):
        self.req(M.Call(M.CallFields(self.n, f"p{b % 3}", None, None, self.opt("options", a), payload=b"x%d" % (b % 5), serializer=b % 4)), self.sid(a))

    def answer(self, a, b):
        if self.invs:
            sid, inv = self.invs.pop(a % len(self.invs))
            p = {"payload": b"y", "serializer": a % 4} if b % 5 == 0 else {}
            self.req(M.Yield(M.YieldFields(inv, self.opt("args", b), self.opt("kwargs", a), self.opt("options", b), **p)), sid)

    def error(self, a, b):
        if self.invs:
            sid, inv = self.invs.pop(a % len(self.invs))
            self.req(M.Error(M.ErrorFields(68, inv, "a.b", self.opt("args", b), self.opt("kwargs", a), self.opt("options", b))), sid)


class SessionActor(Actor):
    OPS = ["send", "send", "send", "reply", "reply", "reply", "unasked", "yield_", "asked"]

    def __init__(self, *a):
        super().__init__(*a)
        self.r = WAMPSession(self.shared.ser[self.cfg["ser"]])
        self.peer = SERIALIZERS[self.cfg["ser"]]()
        self.out, self.subs, self.regs, self.invs = [], [], [], []

    def tx(self, m):
        data, e = self.guard(lambda: self.r.send_message(m))
        self.emit("tx", type(m).__name__, e, self.msg(self.peer.deserialize(data)) if e is None else None)
        return e is None

    def rx(self, m):
        r, e = self.guard(lambda: self.r.receive(self.peer.serialize(m)))
        self.emit("rx", type(m).__name__, e, self.msg(r) if e is None else None)
        return e is None

    def send(self, a, b):
        i, o, ar, kw = self.n, self.opt("options", a), self.opt("args", b), self.opt("kwargs", a)
        k = b % 6
        m = [lambda: M.Call(M.CallFields(i, "p", ar, kw, o)), lambda: M.Register(M.RegisterFields(i, "p", o)),
             lambda: M.Subscribe(M.SubscribeFields(i, "t", o)), lambda: M.Publish(M.PublishFields(i, "t", ar, kw, o)),
             lambda: M.Unregister(M.UnregisterFields(i, self.regs[a % len(self.regs)] if self.regs else 5)),
             lambda: M.Unsubscribe(M.UnsubscribeFields(i, self.subs[a % len(self.subs)] if self.subs else 5))][k]()
        if self.tx(m) and (k != 3 or o.get("acknowledge")):
            self.out.append((k, i))

    def reply(self, a, b):
        if not self.out:
            return
        k, i = self.out.pop(a % len(self.out))
        if b % 5 == 0:
            self.rx(M.Error(M.ErrorFields([48, 64, 32, 16, 66, 34][k], i, "a.b", self.opt("args", a))))
            return
        m = [lambda: M.Result(M.ResultFields(i, self.opt("args", a), self.opt("kwargs", b))), lambda: M.Registered(M.RegisteredFields(i, i)),
             lambda: M.Subscribed(M.SubscribedFields(i, i)), lambda: M.Published(M.PublishedFields(i, i)),
             lambda: M.Unregistered(M.UnregisteredFields(i)), lambda: M.Unsubscribed(M.UnsubscribedFields(i))][k]()
        if self.rx(m):
            if k == 1:
                self.regs.append(i)
            if k == 2:
                self.subs.append(i)

    def unasked(self, a, b):
        # ids that are in use by the neighbours, most likely
        i = 1 + b % 40
        if b % 2:
            self.rx([M.Event(M.EventFields(i, 1)), M.Result(M.ResultFields(i)), M.Registered(M.RegisteredFields(i, 7)),
                     M.Published(M.PublishedFields(i, 7))][a % 4])
            self.out = [(k, x) for k, x in self.out if x != i or k not in (0, 1, 3)]
        elif self.rx(M.Invocation(M.InvocationFields(self.n, i))):
            self.invs.append(self.n)

    def asked(self, a, b):
        if self.regs and b % 3:
            if self.rx(M.Invocation(M.InvocationFields(self.n, self.regs[a % len(self.regs)], self.opt("args", b)))):
                self.invs.append(self.n)
        elif self.subs:
            self.rx(M.Event(M.EventFields(self.subs[a % len(self.subs)], self.n, self.opt("args", b))))

    def yield_(self, a, b):
        inv = self.invs.pop(a % len(self.invs)) if self.invs and b % 2 else 1 + b % 40
        self.tx(M.Yield(M.YieldFields(inv, self.opt("args", a), None, self.opt("options", b))))


class Users(auth.IServerAuthenticator):
    def methods(self):
        return ["anonymous", "ticket", "wampcra", "cryptosign"]

    def authenticate(self, request):
        who = request.authid
        secret = "secret-" + who
        if request.method == "ticket" and request.ticket != secret:
            raise ApplicationError("wamp.error.not_authorized", ["invalid ticket"])
        if request.method == "wampcra":
            if who.startswith("salted"):
                import base64
                import hashlib

                key = base64.b64encode(hashlib.pbkdf2_hmac("sha256", secret.encode(), b"salt", 2, 32)).decode()
                return auth.WAMPCRASaltedResponse(who, "role-" + who, key, "salt", 2, 32)
            return auth.WAMPCRAResponse(who, "role-" + who, secret)
        return auth.Response(who, "role-" + who)


class HandshakeActor(Actor):
    """One client logging in again and again to its own realm; random parts (challenge, signature, session id) are masked."""

    OPS = ["go", "go", "go", "go", "wrong", "restart", "foreign"]

    def __init__(self, *a):
        super().__init__(*a)
        self.k = 0
        self.restart(0, 0)

    def restart(self, a, b):
        c = self.cfg
        self.k += 1
        who = c["method"] + str(c["user"])
        secret = "secret-" + who + ("-wrong" if a % 5 == 1 else "")
        ex = None if a % 4 == 2 else self.opt("extra", b)
        m = c["method"]
        if m == "anonymous":
            au = auth.AnonymousAuthenticator(who, ex)
        elif m == "ticket":
            au = auth.TicketAuthenticator(who, secret, ex)
        elif m == "cryptosign":
            au = auth.CryptoSignAuthenticator(who, KEYS[c["user"]], ex)
        else:
            au = auth.WAMPCRAAuthenticator(who, secret, ex)
        realm = "realm-" + who
        if b % 4 == 1:
            self.j = Joiner(realm, authenticator=au)
            self.a = Acceptor(authenticator=self.shared.db)
            self.ser = SERIALIZERS["json"]()
        else:
            self.j = Joiner(realm, self.shared.ser[c["ser"]], au)
            roles = self.opt("router_roles", a) if a % 3 == 1 else None
            if roles is not None:
                self.a = Acceptor(self.shared.ser[c["ser"]], self.shared.db, roles)
            else:
                self.a = Acceptor(self.shared.ser[c["ser"]], self.shared.db)
            self.ser = SERIALIZERS[c["ser"]]()
        if a % 7 == 3:
            self.a = Acceptor()
            self.j = Joiner(realm)
            self.ser = SERIALIZERS["json"]()
        self.roles = self.opt("roles", a) if b % 3 == 0 else None
        self.to_a = self.to_j = None
        self.done = False
        self.emit("open", self.k)

    def show(self, data):
        if data is None:
            return None
        m = self.ser.deserialize(data)
        if isinstance(m, M.Challenge):
            return ["Challenge", m.authmethod, sorted(m.extra)]
        if isinstance(m, M.Authenticate):
            return ["Authenticate", len(m.signature) if self.cfg["method"] != "ticket" else m.signature, printable(m.extra)]
        return self.msg(m)

    def go(self, a, b):
        if self.done:
            self.restart(a, b)
            return
        if self.to_a is None and self.to_j is None:
            self.to_a, e = self.guard(lambda: self.j.send_hello(self.roles) if self.roles is not None else self.j.send_hello())
            self.emit("hello", self.show(self.to_a), e)
        elif self.to_a is not None:
            data, self.to_a = self.to_a, None
            r, e = self.guard(lambda: self.a.receive(data))
            if e is None:
                self.to_j = r[0]
            self.done = e is not None or self.to_j is None
            self.emit("acceptor", e, self.show(self.to_j), bool(r[1]) if r else None)
        else:
            data, self.to_j = self.to_j, None
            self.to_a, e = self.guard(lambda: self.j.receive(data))
            self.done = self.to_a is None
            d, e2 = self.guard(self.j.get_session_details)
            d2, e3 = self.guard(self.a.get_session_details)
            self.emit("joiner", e, self.show(self.to_a), e2, e3, [d.realm, d.authid, d.authrole] if d else None,
                      [d2.realm, d2.authid, d2.authrole] if d2 else None, bool(d and d2 and d.session_id == d2.session_id))

    def wrong(self, a, b):
        if b % 3:
            return
        if a % 2:
            r, e = self.guard(lambda: self.a.receive(self.ser.serialize(M.Authenticate(M.AuthenticateFields("zz", {})))))
            self.emit("wrong proof", e, self.show(r[0]) if r else None)
        else:
            r, e = self.guard(lambda: self.j.receive(self.ser.serialize(M.Challenge(M.ChallengeFields("ticket", {})))))
            self.emit("wrong challenge", e)
        self.done = True

    def foreign(self, a, b):
        _, e = self.guard(self.j.get_session_details)
        _, e2 = self.guard(self.a.get_session_details)
        self.emit("details", e, e2)


class MessageActor(Actor):
    """Messages built with defaults, with shared containers and with opaque payloads: none leaves anything in another."""

    OPS = ["default", "default", "build", "payload", "payload", "codec", "own", "keep", "keep", "reread"]
    DEFAULTS = [
        lambda: M.Call(M.CallFields(1, "a")), lambda: M.Yield(M.YieldFields(1)), lambda: M.Result(M.ResultFields(1)),
        lambda: M.Invocation(M.InvocationFields(1, 2)), lambda: M.Publish(M.PublishFields(1, "a")), lambda: M.Event(M.EventFields(1, 2)),
        lambda: M.Error(M.ErrorFields(48, 1, "a")), lambda: M.Register(M.RegisterFields(1, "a")),
        lambda: M.Subscribe(M.SubscribeFields(1, "a")), lambda: M.Hello(M.HelloFields("r", {"caller": {}})),
        lambda: M.Abort(M.AbortFields({}, "a")), lambda: M.Goodbye(M.GoodbyeFields({}, "a")),
        lambda: M.Welcome(M.WelcomeFields(1, {"broker": {}})), lambda: M.Challenge(M.ChallengeFields("m", {})),
        lambda: M.Authenticate(M.AuthenticateFields("s", {})),
    ]

    def default(self, a, b):
        m, e = self.guard(self.DEFAULTS[b % len(self.DEFAULTS)])
        self.emit("default", e, self.msg(m))

    def maker(self, a, b, **p):
        o, ar, kw = self.opt("options", a), self.opt("args", b), self.opt("kwargs", a + b)
        if p:
            ar = kw = None
        return [lambda: M.Call(M.CallFields(1, "a", ar, kw, o, **p)), lambda: M.Yield(M.YieldFields(1, ar, kw, o, **p)),
                lambda: M.Result(M.ResultFields(1, ar, kw, o, **p)), lambda: M.Invocation(M.InvocationFields(1, 2, ar, kw, o, **p)),
                lambda: M.Publish(M.PublishFields(1, "a", ar, kw, o)), lambda: M.Event(M.EventFields(1, 2, ar, kw, o)),
                lambda: M.Error(M.ErrorFields(48, 1, "a", ar, kw, o))][b % (4 if p else 7)]

    def build(self, a, b, **p):
        m, e = self.guard(self.maker(a, b, **p))
        self.emit("shared", e, self.msg(m))

    def payload(self, a, b):
        self.build(a, b, payload=b"p%d" % (a % 7), serializer=b % 4)

    def codec(self, a, b):
        m, e = self.guard(self.maker(a, b))
        if m is None:
            return self.emit("codec", e)
        data, e = self.guard(lambda: self.shared.ser[self.cfg["ser"]].serialize(m))
        r, e2 = self.guard(lambda: self.shared.ser[self.cfg["ser"]].deserialize(data))
        self.emit("codec", e, e2, self.msg(r))


    def __init__(self, *a):
        super().__init__(*a)
        self.kept = []

    def own(self, a, b):
        """What the application adds to a message of its own is in no other message."""
        m, e = self.guard(self.DEFAULTS[b % len(self.DEFAULTS)])
        if m is not None and a % 2:
            ser = self.shared.ser[self.cfg["ser"]]
            m, e = self.guard(lambda: ser.deserialize(ser.serialize(m)))
        if m is not None:
            for box in m.marshal():
                if isinstance(box, dict) and "caller" not in box and "roles" not in box:
                    box[f"own{a % 5}"] = self.n
                elif isinstance(box, list):
                    box.append(self.n)
        self.emit("own", e, self.msg(m))

    THINGS = [
        lambda i, u, r: SessionDetails(i, f"realm{i % 2}", u, r), lambda i, u, r: SessionDetails(i, "realm1", u, r),
        lambda i, u, r: auth.TicketRequest("realm1", u, {}, r), lambda i, u, r: auth.AnonymousRequest("realm1", u, {}, r),
        lambda i, u, r: auth.WAMPCRARequest("realm1", u, {}, r), lambda i, u, r: auth.CryptoSignRequest("realm1", u, {}, r),
        lambda i, u, r: auth.Response(u, r), lambda i, u, r: auth.WAMPCRAResponse(u, r, f"s{i}"),
        lambda i, u, r: auth.WAMPCRASaltedResponse(u, r, f"s{i}", "salt", i, 32), lambda i, u, r: rawsocket.Handshake(i, 2**(9 + i)),
        lambda i, u, r: rawsocket.MessageHeader(i % 3, i), lambda i, u, r: M.Subscribed(M.SubscribedFields(1, i)),
        lambda i, u, r: M.Event(M.EventFields(i, 1, [u], {"r": r})), lambda i, u, r: M.Result(M.ResultFields(i, [u], {"r": r})),
        lambda i, u, r: M.Invocation(M.InvocationFields(i, 1, [u], {"r": r})), lambda i, u, r: M.Error(M.ErrorFields(48, i, u, [r])),
        lambda i, u, r: MessageWithRecipient(M.Subscribed(M.SubscribedFields(1, i)), i), lambda i, u, r: Publication(recipients=[i]),
    ]
    READ = ["session_id", "realm", "authid", "authrole", "method", "ticket", "public_key", "secret", "salt", "iterations", "protocol",
            "max_msg_size", "kind", "length", "subscription_id", "args", "kwargs", "request_id", "uri", "recipient", "recipients"]

    def reading(self, o):
        return [repr(getattr(o, k, "-")) for k in self.READ]

    def keep(self, a, b):
        t = self.THINGS[b % len(self.THINGS)]
        o, e = self.guard(lambda: t(1 + a % 3, f"u{a // 3 % 2}", f"role{a // 6 % 3}"))
        if o is not None:
            self.kept.append((o, self.reading(o)))
            self.emit("made", self.kept[-1][1])

    def reread(self, a, b):
        for o, was in self.kept:
            if self.reading(o) != was:
                self.emit("changed", type(o).__name__, was, self.reading(o))


class IdActor(Actor):
    OPS = ["next", "next", "next", "renew"]

    def __init__(self, *a):
        super().__init__(*a)
        self.g = idgen.SessionScopeIDGenerator()

    def next(self, a, b):
        self.emit("next", [self.g.next() for _ in range(1 + b % 5)])

    def renew(self, a, b):
        if b % 6 == 0:
            self.g = idgen.SessionScopeIDGenerator()


CLASSES = {"broker": BrokerActor, "dealer": DealerActor, "session": SessionActor, "handshake": HandshakeActor,
           "messages": MessageActor, "ids": IdActor}


def printable(v):
    if isinstance(v, bytes):
        return {"$b": v.hex()}
    if isinstance(v, (list, tuple)):
        return [printable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): printable(x) for k, x in v.items()}
    if isinstance(v, float):
        return repr(v)
    return v if v is None or isinstance(v, (bool, int, str)) else repr(type(v))


def masked(log):
    """Ids by order of appearance within their kind."""
    seen = {}

    def walk(v):
        if isinstance(v, list):
            return [walk(x) for x in v]
        if isinstance(v, dict):
            if set(v) == {"#", "v"}:
                d = seen.setdefault(v["#"], {})
                return f"<{v['#']} {d.setdefault(str(v['v']), len(d))}>"
            return {k: walk(x) for k, x in v.items()}
        return v

    return walk(log)


def alone(plan, i, seed):
    """The log of one actor that runs with nobody else, in a fresh process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            seams.WORLD.reset(seed)
            pool = copy.deepcopy(plan["config"]["pool"])
            actor = CLASSES[plan["config"]["actors"][i]["type"]](plan["config"]["actors"][i], pool, Shared())
            for op in plan["ops"]:
                if op[0] == i and op[1] is None:
                    actor.step(op[2], op[3])
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(actor.log).encode("utf-8", "surrogatepass"))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def execute(plan, ctx):
    cfg = plan["config"]
    seed = plan["world_seed"]
    solo = [alone(plan, i, seed) for i in range(len(cfg["actors"]))]
    solo2 = [alone(plan, i, seed + 1) for i in range(len(cfg["actors"]))]
    pool, shared = copy.deepcopy(cfg["pool"]), Shared()
    actors, born = {}, []
    for op in plan["ops"]:
        ctx.tick(0.001)
        i = op[0]
        if i not in actors:
            born.append(i)
            actors[i] = CLASSES[cfg["actors"][i]["type"]](cfg["actors"][i], pool, shared)
        if op[1] is None:
            actors[i].step(op[2], op[3])
            ctx.probe(cfg["actors"][i]["type"])
    if len({o[0] for o in plan["ops"]}) > 1:
        ctx.fault("interleaved_instances")
    for i in sorted(actors):
        kind = cfg["actors"][i]["type"]
        got = json.loads(json.dumps(actors[i].log))
        if solo[i] is None or solo2[i] is None:
            raise AssertionError("a solo run gave no log")
        exact = solo[i] == solo2[i]
        ctx.log(i, kind, exact, masked(got))
        ctx.state(kind, len(got), exact)
        want, have = (solo[i], got) if exact else (masked(solo[i]), masked(got))
        for n, (x, y) in enumerate(zip(want, have)):
            if x != y:
                raise Violation(("C21",), "influenced", f"{kind} number {i}, event {n}: alone {str(x)[:200]}, beside the others {str(y)[:200]}")
        if len(want) != len(have):
            raise Violation(("C21",), "influenced", f"{kind} number {i} saw {len(have)} events, alone {len(want)}")
        changed = next((x for x in got if x[0] == "changed"), None)
        if changed:
            raise Violation(("C21",), "changed", f"a {changed[1]} that read {str(changed[2])[:150]} when made reads {str(changed[3])[:150]}")
    if not same(pool, cfg["pool"]):
        what = next(k for k in pool if not same(pool[k], cfg["pool"][k]))
        raise Violation(("C21",), "container-changed", f"the caller's {what}: {str(cfg['pool'][what])[:150]} became {str(pool[what])[:150]}")
