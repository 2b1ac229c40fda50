"""One client session against a faulty router and a faulty serializer: replies are lost, duplicated, reordered, forged.

The model is the set of outstanding requests, held subscriptions/registrations and open invocations.
"""

from wampproto import messages as M
from wampproto import serializers
from wampproto.session import WAMPSession

from dst import values
from dst.engine import Refused, Violation, attempt, blaming, canon, same

NAME = "session"

REPLY = {"call": "result", "reg": "registered", "unreg": "unregistered", "sub": "subscribed", "unsub": "unsubscribed",
         "pub": "published"}
ERR_TYPE = {"call": 48, "reg": 64, "unreg": 66, "sub": 32, "unsub": 34, "pub": 16}


class SerializerFault(Exception):
    pass


class FaultySerializer(serializers.Serializer):
    """A real serializer whose next operation can be made to fail."""

    def __init__(self, inner):
        self.inner = inner
        self.fail = None

    def serialize(self, message):
        if self.fail == "before":
            self.fail = None
            raise SerializerFault("injected")
        data = self.inner.serialize(message)
        if self.fail == "after":
            self.fail = None
            raise SerializerFault("injected")
        return data

    def deserialize(self, data):
        if self.fail == "before":
            self.fail = None
            raise SerializerFault("injected")
        msg = self.inner.deserialize(data)
        if self.fail == "after":
            self.fail = None
            raise SerializerFault("injected")
        return msg

    def static(self):
        return self.inner.static()


def serializer(name):
    return {"json": serializers.JSONSerializer, "cbor": serializers.CBORSerializer,
            "msgpack": serializers.MsgPackSerializer}[name]()


def generate(rng, focus=None, large=False):
    nops = rng.choice([6, 15, 30, 60, 120]) if not large else 1200
    faulty = rng.random() < (0.5 if focus not in ("C11", "C18") else 1.0)
    w = {
        "call": 4, "reg": 2, "unreg": rng.choice([0, 1, 2]), "sub": 2, "unsub": rng.choice([0, 1, 2]),
        "pub": rng.choice([1, 3]),
        "reply": rng.choice([8, 12, 16]),
        "err": rng.choice([0.5, 2]),
        "progress": rng.choice([0, 1, 3]),
        "invoke": rng.choice([1, 3]),
        "yield": rng.choice([1, 3]),
        "ierr": rng.choice([0, 1]),
        "event": rng.choice([1, 2]),
        "replay": rng.choice([0, 1, 3]),
        "forge": rng.choice([0, 1, 3]),
        "badsend": rng.choice([0, 0.5, 2]),
        "bye": rng.choice([0, 0.2]),
        "sfail": rng.choice([1, 3]) if faulty and focus != "C18" else 0,
        "unserializable": rng.choice([0.5, 1]) if faulty and focus != "C18" else 0,
        "garbage": rng.choice([0.5, 1.5]) * (3 if focus == "C18" else 1) if faulty else 0,
    }
    kinds, weights = zip(*w.items())
    ops = []
    for k in rng.choices(kinds, weights, k=nops):
        s = rng.randrange(1000)
        if k == "call":
            ops.append([k, s, rng.random() < 0.3, rng.random() < 0.2, values.args(rng), values.kwargs(rng)])
        elif k in ("reg", "sub", "unreg", "unsub"):
            ops.append([k, s])
        elif k == "pub":
            ops.append([k, s, rng.choice([True, True, False, None]), values.args(rng), values.kwargs(rng)])
        elif k == "reply":
            # which outstanding request is answered: 0 = oldest (in order), otherwise reordered
            ops.append([k, 0 if rng.random() < 0.5 else s, values.args(rng), values.kwargs(rng), rng.random() < 0.8])
        elif k == "err":
            ops.append([k, s, values.args(rng), values.kwargs(rng)])
        elif k == "progress":
            ops.append([k, s, values.args(rng)])
        elif k == "invoke":
            ops.append([k, s, rng.choice(["held", "held", "held", "open", "gone", "never"]), values.args(rng), values.kwargs(rng)])
        elif k == "yield":
            ops.append([k, s, rng.random() < 0.3, rng.choice(["open"] * 6 + ["over", "never"]), values.args(rng)])
        elif k == "ierr":
            ops.append([k, s, rng.choice(["open"] * 4 + ["over"])])
        elif k == "event":
            ops.append([k, s, rng.choice(["held", "held", "held", "gone", "never"]), values.args(rng), values.kwargs(rng)])
        elif k == "replay":
            ops.append([k, s])
        elif k == "forge":
            ops.append([k, s, rng.randrange(14), rng.choice(["never", "other", "other", "over"])])
        elif k == "badsend":
            ops.append([k, s, rng.randrange(12)])
        elif k == "sfail":
            ops.append([k, rng.choice(["before", "after"]), rng.choice(["send", "receive"]), s, rng.randrange(9)])
        elif k == "unserializable":
            ops.append([k, s, rng.randrange(6)])
        elif k == "garbage":
            ops.append([k, s, rng.choice(["truncate", "flip", "empty", "scalar", "type", "short"])])
        else:
            ops.append([k, s])
    if rng.random() < (0.5 if large else 0.03):
        ops.insert(rng.randrange(len(ops) + 1),
                   ["flood", rng.randrange(1000), values.scale(rng, large)])
    cfg = {
        "serializer": rng.choice(["json", "cbor", "msgpack"]),
        "bytes": faulty or rng.random() < 0.7,
        "idstyle": rng.choice(["seq", "seq", "perkind", "edge"]),
        "sharedids": rng.random() < 0.5,
        "routerids": rng.choice(["seq", "seq", "scattered", "down", "bykind", "bykind"]),
        "salt": rng.randrange(1, 10**6) if rng.random() < 0.6 else 0, "words": values.words(rng),
    }
    return {"scenario": NAME, "config": cfg, "ops": ops}


class SessionModel:
    def __init__(self):
        self.out = {k: {} for k in REPLY}  # kind -> {request id: what}
        self.regs = set()
        self.subs = set()
        self.open_inv = set()
        self.unspecified = set()  # (kind, request id) whose fate the properties leave open

    def accepts(self, msg):
        """True / False / None (unspecified)."""
        t = type(msg)
        o = self.out
        if t is M.Result:
            return msg.request_id in o["call"]
        if t is M.Registered:
            return msg.request_id in o["reg"]
        if t is M.Subscribed:
            return msg.request_id in o["sub"]
        if t is M.Published:
            return msg.request_id in o["pub"]
        if t is M.Unregistered:
            if msg.request_id not in o["unreg"]:
                return False
            return True if o["unreg"][msg.request_id] in self.regs else None
        if t is M.Unsubscribed:
            if msg.request_id not in o["unsub"]:
                return False
            return True if o["unsub"][msg.request_id] in self.subs else None
        if t is M.Invocation:
            return msg.registration_id in self.regs or msg.request_id in self.open_inv
        if t is M.Event:
            return msg.subscription_id in self.subs
        if t is M.Error:
            kind = next((k for k, v in ERR_TYPE.items() if v == msg.message_type), None)
            return kind is not None and msg.request_id in o[kind]
        if t in (M.Goodbye, M.Abort):
            return True
        return False

    def apply(self, msg):
        t = type(msg)
        o = self.out
        if t is M.Result:
            if not msg.details.get("progress", False):
                del o["call"][msg.request_id]
        elif t is M.Registered:
            del o["reg"][msg.request_id]
            self.regs.add(msg.registration_id)
        elif t is M.Subscribed:
            del o["sub"][msg.request_id]
            self.subs.add(msg.subscription_id)
        elif t is M.Published:
            del o["pub"][msg.request_id]
        elif t is M.Unregistered:
            self.regs.discard(o["unreg"].pop(msg.request_id))
        elif t is M.Unsubscribed:
            self.subs.discard(o["unsub"].pop(msg.request_id))
        elif t is M.Invocation:
            self.open_inv.add(msg.request_id)
        elif t is M.Error:
            kind = next(k for k, v in ERR_TYPE.items() if v == msg.message_type)
            del o[kind][msg.request_id]


def execute(plan, ctx):
    blaming(run, plan, ctx, [("C18", "damaged frames"), ("C11", "failed operations")])


def run(plan, ctx, without):
    cfg = plan["config"]
    ser = FaultySerializer(serializer(cfg["serializer"]))
    peer = serializer(cfg["serializer"])
    s = WAMPSession(ser)
    m = SessionModel()
    ids = {"all": 0}
    history = []  # messages already accepted
    over_inv, gone_regs, gone_subs = [], [], []
    deco = values.Decor(cfg.get("salt", 0), cfg.get("words", ()))
    order = []  # outstanding (kind, id) in send order
    next_router = {}
    router_style = cfg.get("routerids", "seq")
    held_names = {}

    def new_id(kind, sel):
        key = "all" if cfg["idstyle"] == "seq" else kind
        ids[key] = ids.get(key, 0) + 1
        cand = ids[key]
        if cfg["idstyle"] == "edge":
            cand = values.REQUEST_IDS[sel % len(values.REQUEST_IDS)]
        pools = [m.out[kind]] if cfg["idstyle"] != "seq" else list(m.out.values())
        while any(cand in p for p in pools) or (kind, cand) in m.unspecified:
            cand = cand % 2**53 + 1
        return cand

    def send(msg, props=("C10",)):
        r = attempt(props, f"send_message({canon(msg)[:120]})", lambda: s.send_message(msg))
        if isinstance(r, Refused):
            raise Violation(props, "send-refused", f"send_message({canon(msg)[:160]}): {r.exc}")
        back = attempt(props, "decoding what send_message returned", lambda: peer.deserialize(r))
        if isinstance(back, Refused) or type(back) is not type(msg) or not same(norm(back), norm(msg)):
            raise Violation(props + ("C11", "C12"), "send-content", f"{canon(msg)[:200]} was put on the wire as "
                            f"{canon(back)[:200] if not isinstance(back, Refused) else back.exc}")
        ctx.log("send", canon(msg))

    def send_refused(msg, props):
        if without == "failed operations":
            return
        r = attempt(props, f"send_message({canon(msg)[:120]})", lambda: s.send_message(msg))
        if not isinstance(r, Refused):
            raise Violation(props, "send-accepted", f"send_message({canon(msg)[:160]}) was accepted")
        ctx.log("send refused", canon(msg))

    def deliver(msg, props=("C10",), tag=""):
        want = m.accepts(msg)
        if cfg["bytes"]:
            data = peer.serialize(msg)
            r = attempt(props, f"receive({canon(msg)[:120]})", lambda: s.receive(data))
        else:
            r = attempt(props, f"receive_message({canon(msg)[:120]})", lambda: s.receive_message(msg))
        if want is None:
            if type(msg) is M.Unregistered:
                m.unspecified.add(("unreg", msg.request_id))
                m.out["unreg"].pop(msg.request_id, None)
            else:
                m.unspecified.add(("unsub", msg.request_id))
                m.out["unsub"].pop(msg.request_id, None)
            ctx.log("deliver unspecified", canon(msg))
            return False
        if type(msg) is M.Error and any((kind, msg.request_id) in m.unspecified and v == msg.message_type for kind, v in ERR_TYPE.items()):
            return False
        if (type(msg) in (M.Unregistered, M.Unsubscribed)
                and ({M.Unregistered: "unreg", M.Unsubscribed: "unsub"}[type(msg)], msg.request_id) in m.unspecified):
            return False
        if isinstance(r, Refused):
            if want:
                raise Violation(props + ("C12",) if msg in () else props, "reply-refused",
                                f"{canon(msg)[:160]} refused ({r.exc}) though {explain(m, msg)}")
            ctx.fault("unsolicited_" + type(msg).__name__.lower())
        else:
            if not want:
                raise Violation(props, "unsolicited-accepted", f"{tag}{canon(msg)[:160]} accepted though {explain(m, msg)}")
            if type(r) is not type(msg) or not same(norm(r), norm(msg)):
                raise Violation(props, "reply-content", f"{canon(msg)[:200]} handed over as {canon(r)[:200]}")
            m.apply(msg)
            history.append(msg)
            ctx.probe("accepted_" + type(msg).__name__.lower())
        ctx.log("deliver", canon(msg), "refused" if isinstance(r, Refused) else "ok")
        ctx.state("s", sorted((k, min(len(v), 3)) for k, v in m.out.items()), min(len(m.regs), 3), min(len(m.subs), 3),
                  min(len(m.open_inv), 3))
        return not isinstance(r, Refused)

    def router_id(kind="pub"):
        """The next id the router gives out: in sequence for everything or by kind, scattered, or counting down."""
        name = kind if router_style == "bykind" else "all"
        n = next_router[name] = next_router.get(name, 0) + 1
        if router_style == "scattered":
            return n * 5851470731 * 1125899 % (2**53 - 111) + 1  # 2**53 - 111 is prime: no id comes twice
        if router_style == "down":
            return 2**53 + 1 - n
        return n + (100 if router_style == "seq" else 0)

    def reply_to(kind, rid, a=None, k=None):
        if kind == "call":
            return M.Result(M.ResultFields(rid, a, k, deco.opts("result", rid, base=deco.off("progress", "result", rid), forbid=("progress",))))
        if kind == "reg":
            return M.Registered(M.RegisteredFields(rid, router_id("reg")))
        if kind == "sub":
            # a topic the session is subscribed to already has an id already
            held = sorted(m.subs)
            again = bool(held) and rid % 3 == 0 and cfg["sharedids"]
            # and one that others stayed subscribed to has kept its id
            left = sorted(set(gone_subs) - m.subs)
            if left and rid % 5 == 0 and cfg["sharedids"]:
                return M.Subscribed(M.SubscribedFields(rid, left[rid % len(left)]))
            return M.Subscribed(M.SubscribedFields(rid, held[rid % len(held)] if again else router_id("sub")))
        if kind == "unreg":
            return M.Unregistered(M.UnregisteredFields(rid))
        if kind == "unsub":
            return M.Unsubscribed(M.UnsubscribedFields(rid))
        return M.Published(M.PublishedFields(rid, router_id()))

    def outstanding():
        order[:] = [(k, i) for k, i in order if i in m.out[k]]
        return order

    def request(kind, sel, **f):
        """(message, model update) of a new request, or None."""
        rid = new_id(kind, sel)
        what = True
        if kind == "call":
            o = deco.opts("call", sel, base={**deco.off("progress", "call", sel), **deco.off("receive_progress", "call", sel)},
                          forbid=("progress", "receive_progress"))
            if f.get("progress"):
                o["progress"] = True
            if f.get("receive_progress"):
                o["receive_progress"] = True
            msg = M.Call(M.CallFields(rid, "a.b", f.get("args"), f.get("kwargs"), o))
        elif kind == "reg":
            msg = M.Register(M.RegisterFields(rid, f"p{sel % 7}", deco.opts("reg", sel)))
        elif kind == "sub":
            msg = M.Subscribe(M.SubscribeFields(rid, f"t{sel % 7}", deco.opts("sub", sel)))
        elif kind == "unreg":
            free = sorted(m.regs - (set(m.out["unreg"].values()) if sel % 4 else set()))  # at times asked for twice
            if not free:
                return None
            what = free[sel // 4 % len(free)]
            msg = M.Unregister(M.UnregisterFields(rid, what))
        elif kind == "unsub":
            free = sorted(m.subs - (set(m.out["unsub"].values()) if sel % 4 else set()))  # at times asked for twice
            if not free:
                return None
            what = free[sel // 4 % len(free)]
            msg = M.Unsubscribe(M.UnsubscribeFields(rid, what))
        else:
            o = deco.opts("pub", sel, base={} if f.get("ack") is None else {"acknowledge": f["ack"]}, forbid=("acknowledge",))
            msg = M.Publish(M.PublishFields(rid, "t", f.get("args"), f.get("kwargs"), o))
            if not f.get("ack"):
                return msg, (lambda: None)

        def apply():
            m.out[kind][rid] = what
            order.append((kind, rid))

        return msg, apply

    def flood(salt, n):
        """n requests outstanding at once, answered in another order, some of them twice."""
        mine = []
        for j in range(n):
            kind = ("call", "pub", "sub", "reg", "call")[(j + salt) % 5] if salt % 3 else ("call", "sub", "reg")[salt % 2 + salt % 7 % 2]
            q = request(kind, j, args=[j], ack=True, receive_progress=j % 4 == 0)
            send(q[0])
            q[1]()
            mine.append((kind, q[0].request_id))
        for j in values.permuted(n, salt):
            kind, rid = mine[j]
            if kind == "call" and j % 4 == 0:
                deliver(M.Result(M.ResultFields(rid, ["part"], None, {"progress": True})))
            if j % 5 == 0:
                deliver(M.Error(M.ErrorFields(ERR_TYPE[kind], rid, deco.uri(j), [j], None, deco.opts("ferr", j))))
            else:
                deliver(reply_to(kind, rid, [j]))
            if j % 6 == 0:
                deliver(reply_to(kind, rid, [j]), tag="duplicate ")
        regs = sorted(m.regs)
        invs = [router_id("inv") for _ in range(n if regs else 0)]
        for j, inv in enumerate(invs):
            deliver(M.Invocation(M.InvocationFields(inv, regs[j % len(regs)], [j])))
        for j in values.permuted(n if regs else 0, salt + 1):
            inv = invs[j]
            if j % 3 == 0:
                send(M.Yield(M.YieldFields(inv, ["part"], None, {"progress": True})))
            send(M.Yield(M.YieldFields(inv, [j])) if j % 4 else M.Error(M.ErrorFields(68, inv, deco.uri(j), [j], None, deco.opts("fierr", j))))
            m.open_inv.discard(inv)
            over_inv.append(inv)
            if j % 5 == 0:
                send_refused(M.Yield(M.YieldFields(inv, ["again"])), ("C10", "C11"))
        for i in sorted(m.subs):
            deliver(M.Event(M.EventFields(i, router_id(), ["all"])))
        # one call, one invocation and one subscription with much to say
        q = request("call", salt, args=[0], receive_progress=True)
        send(q[0])
        q[1]()
        inv = router_id("inv")
        for j in range(n):
            deliver(M.Result(M.ResultFields(q[0].request_id, [j], None, {"progress": True})))
            if m.subs:
                deliver(M.Event(M.EventFields(min(m.subs), router_id(), [j])))
            if regs:
                deliver(M.Invocation(M.InvocationFields(inv, regs[0], [j], None, {"progress": True})))
                send(M.Yield(M.YieldFields(inv, [j], None, {"progress": True})))
        deliver(M.Result(M.ResultFields(q[0].request_id, ["end"])))
        deliver(M.Result(M.ResultFields(q[0].request_id, ["again"])), tag="duplicate ")
        for kind in ("unreg", "unsub"):
            mine = []
            for j in range(n // 3):
                q = request(kind, j * 7)
                if q is None:
                    break
                send(q[0])
                q[1]()
                mine.append((q[0].request_id, m.out[kind][q[0].request_id]))
            for j in values.permuted(len(mine), salt):
                rid, what = mine[j]
                if j % 5 == 0:
                    deliver(M.Error(M.ErrorFields(ERR_TYPE[kind], rid, deco.uri(j, "un"))))
                else:
                    (gone_regs if kind == "unreg" else gone_subs).append(what)
                    deliver(reply_to(kind, rid))

    for op in plan["ops"]:
        ctx.tick(0.001)
        k = op[0]
        if k == "flood":
            flood(op[1], op[2])
            ctx.fault("flood")
        elif k in REPLY:
            extra = {}
            if k == "call":
                extra = {"progress": op[2], "receive_progress": op[3], "args": op[4], "kwargs": op[5]}
            elif k == "pub":
                extra = {"ack": op[2], "args": op[3], "kwargs": op[4]}
            q = request(k, op[1], **extra)
            if q:
                send(q[0])
                q[1]()
        elif k in ("reply", "err"):
            o = outstanding()
            if o:
                kind, rid = o[op[1] % len(o)]
                if op[1] % len(o) and k == "reply":
                    ctx.fault("replies_reordered")
                if kind == "unreg":
                    gone_regs.append(m.out[kind][rid])
                if kind == "unsub":
                    gone_subs.append(m.out[kind][rid])
                if k == "reply":
                    if not op[4]:
                        ctx.fault("reply_lost")  # it stays outstanding; the session must not mind
                        continue
                    deliver(reply_to(kind, rid, op[2], op[3]))
                else:
                    deliver(M.Error(M.ErrorFields(ERR_TYPE[kind], rid, deco.uri(op[1], "err"), op[2], op[3], deco.opts("err", op[1]))))
        elif k == "progress":
            calls = sorted(m.out["call"])
            if calls:
                deliver(M.Result(M.ResultFields(calls[op[1] % len(calls)], op[2], None, deco.opts("progress", op[1], base={"progress": True}))))
        elif k == "invoke":
            inv = None
            if op[2] == "held":
                pool = sorted(m.regs)
            elif op[2] == "gone":
                pool = sorted(set(gone_regs) - m.regs)
            elif op[2] == "never":
                pool = [x for x in (7777, 3) if x not in m.regs and x not in gone_regs]
            else:
                pool = sorted(m.regs | set(gone_regs))
                if not m.open_inv:
                    continue
                inv = sorted(m.open_inv)[op[1] % len(m.open_inv)]
            if pool:
                if inv is None:
                    inv = router_id("inv")
                deliver(M.Invocation(M.InvocationFields(inv, pool[op[1] % len(pool)], op[3], op[4], deco.opts("invoke", op[1]))))
        elif k == "yield":
            if op[3] == "open":
                pool = sorted(m.open_inv)
            elif op[3] == "over":
                pool = sorted(set(over_inv) - m.open_inv)
            else:
                pool = [x for x in (4242, 1, 2**53) if x not in m.open_inv]
            if pool:
                inv = pool[op[1] % len(pool)]
                msg = M.Yield(M.YieldFields(inv, op[4], None, deco.opts("yield", op[1], base={"progress": True} if op[2] else deco.off("progress", "yield", op[1]), forbid=("progress",))))
                if inv in m.open_inv:
                    send(msg)
                    if not op[2]:
                        m.open_inv.discard(inv)
                        over_inv.append(inv)
                else:
                    send_refused(msg, ("C10", "C11"))
                    ctx.fault("yield_without_invocation")
        elif k == "ierr":
            pool = sorted(m.open_inv) if op[2] == "open" else []
            if pool:
                inv = pool[op[1] % len(pool)]
                send(M.Error(M.ErrorFields(68, inv, deco.uri(op[1], "ierr"), ["x"], None, deco.opts("ierr", op[1]))))
                m.open_inv.discard(inv)
                over_inv.append(inv)
        elif k == "event":
            pool = {"held": m.subs, "gone": set(gone_subs) - m.subs, "never": {8888, 3} - m.subs - set(gone_subs)}[op[2]]
            pool = sorted(pool)
            if pool:
                deliver(M.Event(M.EventFields(pool[op[1] % len(pool)], router_id(), op[3], op[4], deco.opts("event", op[1]))))
        elif k == "replay":
            if history:
                msg = history[op[1] % len(history)]
                ctx.fault("reply_duplicated")
                if type(msg) is M.Subscribed and msg.request_id in m.out["sub"]:
                    continue
                deliver(msg, tag="duplicate ")
        elif k == "forge":
            forge(m, op, deliver, history, router_id, deco)
        elif k == "badsend":
            # ids that mean something to the session, so that a refused send could do damage
            pool = sorted(m.open_inv) + sorted(m.regs) + sorted(m.subs) + [i for _, i in outstanding()] + [1]
            i = pool[op[1] % len(pool)]
            msg = [
                M.Error(M.ErrorFields(48, i, deco.uri(op[1], "bad"))),
                M.Hello(M.HelloFields("realm1", {"caller": {}})),
                M.Result(M.ResultFields(i)),
                M.Welcome(M.WelcomeFields(i, {"broker": {}})),
                M.Event(M.EventFields(i, 1)),
                M.Error(M.ErrorFields(64, i, deco.uri(op[1], "bad"))),
                M.Error(M.ErrorFields([16, 32, 34, 66, 69, 0][op[1] % 6], i, deco.uri(op[1], "bad"))),
                M.Registered(M.RegisteredFields(i, i)),
                M.Unregistered(M.UnregisteredFields(i)),
                M.Subscribed(M.SubscribedFields(i, i)),
                M.Unsubscribed(M.UnsubscribedFields(i)),
                M.Invocation(M.InvocationFields(i, i)),
            ][op[2]]
            send_refused(msg, ("C11", "C10"))
        elif k == "bye":
            if op[1] % 2:
                send(M.Goodbye(M.GoodbyeFields({}, "wamp.close.close_realm")))
            else:
                deliver(M.Goodbye(M.GoodbyeFields({}, "wamp.close.goodbye_and_out")))
        elif k == "sfail":
            ser.fail = None
            if op[2] == "send":
                kind = sorted(REPLY)[op[4] % 6] if op[4] < 6 else None
                if kind:
                    q = request(kind, op[3], ack=True)
                    msg = q[0] if q else None
                else:
                    pool = sorted(m.open_inv)
                    msg = None
                    if pool:
                        inv = pool[op[3] % len(pool)]
                        msg = (M.Yield(M.YieldFields(inv, [1])) if op[4] < 8
                               else M.Error(M.ErrorFields(68, inv, deco.uri(op[1], "sfail"))))
                if msg is None:
                    continue
                if without == "failed operations":
                    continue
                ser.fail = op[1]
                expect_fault(ctx, lambda: s.send_message(msg), f"send_message({canon(msg)[:100]})")
                ctx.fault("serialize_fails_" + op[1])
            else:
                o = outstanding()
                if not (cfg["bytes"] and o):
                    continue
                kind, rid = o[op[3] % len(o)]
                data = peer.serialize(reply_to(kind, rid))
                if without == "failed operations":
                    continue
                ser.fail = op[1]
                expect_fault(ctx, lambda: s.receive(data), f"receive of the reply to {kind} {rid}")
                ctx.fault("deserialize_fails_" + op[1])
            ser.fail = None
        elif k == "unserializable":
            kind = ["call", "pub", "yield", "ierr", "call", "pub"][op[2]]
            odd = {("a", 1): 1} if cfg["serializer"] == "json" else {object(): 1}
            bad = [[object()], [{"x": {1, 2}, "y": object()}], [odd], ["ok", {"k": [odd]}]][op[1] % 4]
            if kind in ("call", "pub"):
                rid = new_id(kind, op[1])
                msg = (M.Call(M.CallFields(rid, "a.b", bad)) if kind == "call"
                       else M.Publish(M.PublishFields(rid, "t", bad, None, {"acknowledge": True})))
            else:
                pool = sorted(m.open_inv)
                if not pool:
                    continue
                inv = pool[op[1] % len(pool)]
                msg = M.Yield(M.YieldFields(inv, bad)) if kind == "yield" else M.Error(M.ErrorFields(68, inv, "a.b", bad))
            try:
                if without == "failed operations":
                    raise ValueError
                s.send_message(msg)
            except Exception:
                ctx.fault("unserializable_payload")
                ctx.log("unserializable", kind)
            else:
                raise Violation(("C11",), "sent-unserializable", f"a {kind} that cannot be serialized was sent")
            # the request must not count as outstanding: its reply is unsolicited
            if kind in ("call", "pub") and op[1] % 3 == 0:
                deliver(reply_to(kind, msg.request_id), props=("C11", "C10"), tag="after a failed send ")
        elif k == "garbage":
            if cfg["bytes"]:
                o = outstanding()
                kind, rid = o[op[1] % len(o)] if o else ("call", 1)
                good = reply_to(kind, rid) if o else M.Event(M.EventFields(1, 1, ["x"]))
                if op[2] == "short":
                    raw = good.marshal()[:2] if len(good.marshal()) > 2 else [good.TYPE]
                elif op[2] == "type":
                    raw = [good.TYPE, "x"] + good.marshal()[2:]
                elif op[2] == "scalar":
                    raw = rid
                else:
                    raw = None
                data = encode(cfg["serializer"], raw) if raw is not None else peer.serialize(good)
                if op[2] == "truncate":
                    data = data[:-1 - op[1] % max(1, len(data) - 1)] or data[:1]
                elif op[2] == "flip":
                    data = ("}" + data[1:]) if isinstance(data, str) else b"\xc1" + data[1:]
                    if cfg["serializer"] == "cbor":
                        data = b"\xff" + data[1:]
                elif op[2] == "empty":
                    data = data[:0]
                try:
                    if without is not None:
                        raise ValueError
                    r = s.receive(data)
                except Exception:
                    ctx.fault("garbage_" + op[2])
                    ctx.log("garbage refused", op[2])
                else:
                    raise Violation(("C11", "C18", "C10"), "garbage-accepted", f"{data!r:.100} accepted as {canon(r)[:100]}")

    def abort(n):
        # the router ends the session: whoever holds it is told why
        deliver(M.Abort(M.AbortFields({}, deco.uri(n, "ended"), [None, ["why", n]][n % 2], [None, {"code": n}][n // 2 % 2])), props=("C10", "C11"))

    if len(plan["ops"]) % 7 == 3:
        return abort(len(plan["ops"]))
    # quiescence: faults stop, every outstanding request is answered once (accepted) and once more (refused)
    for kind, rid in list(outstanding()):
        if rid not in m.out[kind]:
            continue
        if kind in ("unreg", "unsub") and m.out[kind][rid] not in (m.regs if kind == "unreg" else m.subs):
            continue
        msg = reply_to(kind, rid, ["final"], None)
        deliver(msg, props=("C10", "C11"))
        deliver(msg, props=("C10", "C11"), tag="duplicate ")
        deliver(M.Error(M.ErrorFields(ERR_TYPE[kind], rid, deco.uri(rid, "second"))), props=("C10", "C11"), tag="second answer ")
    for inv in sorted(m.open_inv):
        send(M.Yield(M.YieldFields(inv, ["final"])), ("C10", "C11"))
        m.open_inv.discard(inv)
        send_refused(M.Yield(M.YieldFields(inv, ["again"])), ("C10", "C11"))
    for i in sorted(m.subs):
        deliver(M.Event(M.EventFields(i, 1, ["final"])), props=("C10", "C11"))
    for i in sorted(m.regs):
        deliver(M.Invocation(M.InvocationFields(router_id("inv"), i)), props=("C10", "C11"))
    for i in sorted(set(gone_subs) - m.subs):
        deliver(M.Event(M.EventFields(i, 1)), props=("C10", "C11"), tag="after UNSUBSCRIBED ")
    for i in sorted(set(gone_regs) - m.regs):
        deliver(M.Invocation(M.InvocationFields(router_id("inv"), i)), props=("C10", "C11"), tag="after UNREGISTERED ")
    # nothing is outstanding: every reply is unsolicited
    for kind in REPLY:
        for rid in (1, 2, 3, 2**53):
            if (kind, rid) not in m.unspecified and rid not in m.out[kind]:
                deliver(reply_to(kind, rid), props=("C10", "C11"), tag="unsolicited ")
    abort(len(plan["ops"]))


def expect_fault(ctx, fn, what):
    try:
        fn()
    except SerializerFault:
        ctx.log("fault", what)
    except Exception as e:
        raise Violation(("C11",), "fault-replaced", f"{what}: the serializer's failure came out as {type(e).__name__}({e})")
    else:
        raise Violation(("C11",), "fault-swallowed", f"{what} succeeded although the serializer failed")


def forge(m, op, deliver, history, router_id, deco):
    """A reply nobody asked for: an id that was never used, is over, or is outstanding only for another kind of request."""
    kind_ix, how = op[2], op[3]
    kinds = ["call", "reg", "unreg", "sub", "unsub", "pub"]
    if kind_ix < 12:
        kind = kinds[kind_ix % 6]
        as_error = kind_ix >= 6
        if how == "never":
            pool = [x for x in (31337, 2**53, 1) if x not in m.out[kind]]
            if op[1] % 2:
                pool = [x for x in values.near_ids(sorted(m.out[kind])[:40]) if x not in m.out[kind]]
        elif how == "over":
            pool = sorted({h.request_id for h in history if hasattr(h, "request_id")} - set(m.out[kind]))
        else:
            pool = sorted({i for k2 in kinds if k2 != kind for i in m.out[k2]} - set(m.out[kind]))
        pool = [x for x in pool if (kind, x) not in m.unspecified]
        if not pool:
            return
        rid = pool[op[1] // 2 % len(pool)]
        if as_error:
            msg = M.Error(M.ErrorFields(ERR_TYPE[kind], rid, deco.uri(op[1], "forged")))
        else:
            msg = {
                "call": lambda: M.Result(M.ResultFields(rid, ["forged"], None, {"progress": True} if op[1] // 7 % 3 == 0 else {})),
                "reg": lambda: M.Registered(M.RegisteredFields(rid, 555)),
                "sub": lambda: M.Subscribed(M.SubscribedFields(rid, 556)),
                "unreg": lambda: M.Unregistered(M.UnregisteredFields(rid)),
                "unsub": lambda: M.Unsubscribed(M.UnsubscribedFields(rid)),
                "pub": lambda: M.Published(M.PublishedFields(rid, 557)),
            }[kind]()
        deliver(msg, tag="forged ")
        # what a forged REGISTERED/SUBSCRIBED would have granted stays ungranted
        if kind == "reg" and not as_error and 555 not in m.regs:
            deliver(M.Invocation(M.InvocationFields(router_id(), 555)), tag="after a forged REGISTERED ")
        if kind == "sub" and not as_error and 556 not in m.subs:
            deliver(M.Event(M.EventFields(556, 1)), tag="after a forged SUBSCRIBED ")
    elif kind_ix == 12:
        # and what comes under the id of something like a subscription or registration that is held
        pool = [x for x in values.near_ids(sorted(m.subs)[:40]) if x not in m.subs]
        if pool:
            deliver(M.Event(M.EventFields(pool[op[1] % len(pool)], 1)), tag="near miss ")
        pool = [x for x in values.near_ids(sorted(m.regs)[:40]) if x not in m.regs]
        if pool:
            deliver(M.Invocation(M.InvocationFields(router_id(), pool[op[1] % len(pool)])), tag="near miss ")
        deliver(M.Error(M.ErrorFields(68, op[1] + 1, deco.uri(op[1], "forged"))), tag="forged ")
    else:
        deliver(M.Welcome(M.WelcomeFields(1, {"broker": {}})), tag="forged ")


def norm(msg):
    """Message content as it travels: kwargs without args travel with empty args."""
    raw = list(msg.marshal())
    return [msg.TYPE] + raw[1:]


def encode(name, raw):
    import json

    import cbor2
    import msgpack

    return {"json": json.dumps, "cbor": cbor2.dumps, "msgpack": msgpack.dumps}[name](raw)


def explain(m, msg):
    kind = next((k for k in REPLY if REPLY[k] == type(msg).__name__.lower()), None)
    if isinstance(msg, M.Error):
        kind = next((k for k, v in ERR_TYPE.items() if v == msg.message_type), None)
    if kind:
        return f"outstanding {kind} requests are {sorted(m.out[kind])[:20]}"
    if isinstance(msg, M.Invocation):
        return f"registrations held are {sorted(m.regs)[:20]}, open invocations {sorted(m.open_inv)[:20]}"
    if isinstance(msg, M.Event):
        return f"subscriptions held are {sorted(m.subs)[:20]}"
    return "the session does not handle it"
