"""Leaks: the same random history is lived again and again on one broker, dealer or session, ending each time with nothing
joined, subscribed, registered or pending. What is reachable from the component must not grow from cycle to cycle.
"""

import functools
import gc
import queue
import sys
import types
import weakref
from collections import UserDict, UserList, deque

from wampproto import auth
from wampproto import messages as M
from wampproto.acceptor import Acceptor
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.joiner import Joiner
from wampproto.serializers.payload import deserialize_payload, serialize_payload
from wampproto.session import WAMPSession
from wampproto.transports import rawsocket

from dst import scen_broker, scen_dealer, values, wampspec
from dst.checked import CheckedBroker, CheckedDealer
from dst.engine import Refused, Violation, attempt, same
from dst.scen_session import ERR_TYPE, REPLY, FaultySerializer, serializer

NAME = "residue"
CYCLES = 6
SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.CodeType, types.GetSetDescriptorType)


def measure(*roots):
    """Objects and container slots reachable from the roots: ints and the length of strings do not count."""
    seen, todo, size = set(), list(roots), 0
    while todo:
        o = todo.pop()
        if isinstance(o, SKIP) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (dict, list, set, frozenset, tuple, deque)):
            size += 1 + len(o)
        elif isinstance(o, (str, bytes, int, float, type(None))):
            continue
        else:
            size += 1
        todo.extend(gc.get_referents(o))
    return size


def shared_state():
    """What the library keeps outside any instance: in modules, in classes, and in and behind their functions."""
    roots, extra = [], 0
    for name in sorted(sys.modules):
        mod = sys.modules[name]
        if name.split(".")[0] != "wampproto" or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, type) and v.__module__ == name:
                for a, x in list(vars(v).items()):
                    if is_container(x) and not a.startswith("__"):
                        roots.append(x)
                    else:
                        extra += behind(x, roots)
            elif is_container(v):
                roots.append(v)
            else:
                extra += behind(v, roots)
    return extra + measure(*roots)


def behind(f, roots):
    """What a function keeps: default arguments, enclosed variables, attributes, a cache without a bound."""
    n = 0
    for g in (getattr(f, "__func__", None), getattr(f, "fget", None), getattr(f, "func", None)):
        if g is not None:
            n += behind(g, roots)
    if hasattr(f, "cache_info"):
        info = f.cache_info()
        n += info.currsize if info.maxsize is None else 0
        f = getattr(f, "__wrapped__", None)
    if isinstance(f, types.FunctionType):
        inside = [*(f.__defaults__ or ()), *(f.__kwdefaults__ or {}).values(), *vars(f).values()]
        for cell in f.__closure__ or ():
            try:
                inside.append(cell.cell_contents)
            except ValueError:
                continue
        for x in inside:
            if is_container(x):
                roots.append(x)
            elif isinstance(x, types.FunctionType) and x is not f and x.__module__.split(".")[0] == "wampproto":
                n += behind(x, roots)
    return n


def is_container(v):
    if isinstance(v, (dict, list, set, deque, UserDict, UserList, weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet, queue.Queue)):
        return True
    return (not isinstance(v, SKIP + (str, bytes, int, float, tuple, frozenset, functools.partial))
            and type(v).__module__.split(".")[0] == "wampproto")


def generate(rng, focus=None, large=False):
    comp = rng.choice(["broker", "dealer", "dealer", "session", "session", "links"])
    cfg = {"component": comp, "fresh_names": rng.random() < 0.85, "fresh_sids": rng.random() < 0.7,
           "end": rng.choice(["leave", "settle"])}
    if comp == "links":
        ops = [[rng.choice(["ticket", "wampcra", "cryptosign", "anonymous", "message", "message", "payload", "frame", "damaged"]), rng.randrange(1000)]
               for _ in range(rng.choice([5, 20, 60]))]
    elif comp == "session":
        ops = session_ops(rng, large)
        cfg.update(serializer=rng.choice(["json", "cbor", "msgpack"]), bytes=rng.random() < 0.5,
                   salt=rng.randrange(1, 10**6) if rng.random() < 0.6 else 0)
    else:
        inner = {"broker": scen_broker, "dealer": scen_dealer}[comp].generate(rng, None, False)
        cfg.update(inner["config"])
        ops = [o for o in inner["ops"] if o[0] not in ("burst", "crowd", "hoard", "flood")][: rng.choice([20, 40, 80, 130])]
    return {"scenario": NAME, "config": cfg, "ops": ops}


def execute(plan, ctx):
    comp = plan["config"]["component"]
    go = {"broker": router, "dealer": router, "session": session, "links": links}[comp]
    sizes = go(plan, ctx, CYCLES, range(CYCLES + 1))
    ctx.log("sizes", len(sizes))
    ctx.state(comp, sizes[2][0] - sizes[0][0], len(plan["ops"]) // 8)
    grown = growing(sizes)
    if any(grown):
        # a cache with a bound fills up and stops; go on for long enough to tell
        n = 3 * max(10, min(700, 3000 // max(1, len(plan["ops"]))))
        later = go(plan, ctx, n, (0, n // 3, n // 3 * 2, n))
        ctx.probe("long_history")
        for i, what in enumerate(("the " + comp, "module or class level state")):
            new, a, b, c = (x[i] for x in later)
            if grown[i] and b > a and c - b >= (b - a) / 4:
                raise Violation(("C20",), "grows", f"{what} held {new} objects and slots when new, {a} after {n // 3} cycles of finished work, "
                                                   f"{b} after {n // 3 * 2} and {c} after {n}")
        ctx.probe("bounded_growth")


def growing(sizes):
    return [sizes[-1][i] > sizes[CYCLES // 2 + 1][i] > sizes[2][i] for i in (0, 1)]


def router(plan, ctx, cycles, marks):
    cfg = plan["config"]
    comp = cfg["component"]
    c = (CheckedBroker if comp == "broker" else CheckedDealer)(ctx)
    names = cfg["topics" if comp == "broker" else "procs"]
    fresh = type(c.real)()
    sizes = [(measure(fresh), shared_state())]
    base = list(cfg["sids"])
    settle = cfg["end"] == "settle"
    if settle:
        for sid in base:
            c.join(sid)
    for cycle in range(1, cycles + 1):
        nn = [f"{n}.{cycle}" if cfg["fresh_names"] else n for n in names]
        sids = base if settle or not cfg["fresh_sids"] else [(s + 1_000_003 * cycle) % 2**53 + 1 for s in base]
        before = set(c.sessions)
        if comp == "broker":
            scen_broker.drive(c, list(sids), nn, plan["ops"], ctx)
        else:
            scen_dealer.drive(c, cfg, list(sids), nn, plan["ops"], ctx)
        if settle:
            if comp == "broker":
                for sid in sorted(c.sessions):
                    for i in sorted(c.sub_ids(sid)):
                        c.receive(sid, M.Unsubscribe(M.UnsubscribeFields(900, i)))
            else:
                scen_dealer.settle(c)
                for i, owner in sorted(c.procs.values()):
                    c.receive(owner, M.Unregister(M.UnregisterFields(900, i)))
            for sid in sorted(c.sessions - before):
                c.leave(sid)
            for sid in sorted(before - c.sessions):
                c.join(sid)
            ctx.probe("cycle_settled")
        else:
            for sid in sorted(c.sessions):
                c.leave(sid)
            ctx.fault("everybody_left")
        if cycle in marks:
            sizes.append((measure(c.real), shared_state()))
    if not settle and sizes[-1][0] > sizes[0][0]:
        ctx.probe("more_than_new")
    return sizes


def session_ops(rng, large):
    w = {"call": 4, "reg": 2, "sub": 2, "unreg": 1, "unsub": 1, "pub": 2, "answer": rng.choice([2, 8]), "error": rng.choice([0, 1, 3]),
         "progress": 1, "invoke": 3, "yield": 3, "ierr": rng.choice([0, 1, 2]), "event": 1, "forged": rng.choice([0, 1, 2]),
         "badsend": rng.choice([0, 1]), "sfail": rng.choice([0, 1]), "badframe": rng.choice([0, 1]), "badyield": rng.choice([0, 1]),
         "badevent": rng.choice([0, 1])}
    kinds, weights = zip(*w.items())
    n = rng.choice([5, 15, 40, 80]) if not large else 400
    return [[k, rng.randrange(1000)] for k in rng.choices(kinds, weights, k=n)]


def session(plan, ctx, cycles, marks):
    cfg = plan["config"]
    ser, peer = FaultySerializer(serializer(cfg["serializer"])), serializer(cfg["serializer"])
    s = WAMPSession(ser)
    deco = values.Decor(cfg.get("salt", 0), cfg.get("words", ()))
    out = {}  # (kind, id) -> what
    order, open_inv, regs, subs = [], [], [], []
    ids = [0, 0]
    props = ("C10",)

    def send(msg):
        r = attempt(props, f"sending {type(msg).__name__}", lambda: s.send_message(msg))
        if isinstance(r, Refused):
            raise Violation(props, "refused", f"{type(msg).__name__} was refused: {r.exc}")

    def deliver(msg, bad=False):
        fn = (lambda: s.receive(peer.serialize(msg))) if cfg["bytes"] else (lambda: s.receive_message(msg))
        r = attempt(props, f"receiving {type(msg).__name__}", fn)
        if isinstance(r, Refused) != bad:
            raise Violation(props, "refused" if not bad else "accepted",
                            f"{type(msg).__name__}{msg.marshal()[1:3]!r:.80} was {'refused' if not bad else 'accepted'}")

    def request(kind, sel):
        ids[0] += 1
        rid = ids[0]
        what = f"n{rid}"
        if kind == "call":
            return rid, what, M.Call(M.CallFields(rid, what, [rid], None, deco.opts(kind, sel, base={"receive_progress": True}, forbid=("progress",))))
        if kind == "reg":
            return rid, what, M.Register(M.RegisterFields(rid, what, deco.opts(kind, sel)))
        if kind == "sub":
            return rid, what, M.Subscribe(M.SubscribeFields(rid, what, deco.opts(kind, sel)))
        if kind == "pub":
            return rid, what, M.Publish(M.PublishFields(rid, what, [1], None, deco.opts(kind, sel, base={"acknowledge": bool(sel % 4)})))
        taken = {w for (k, _), w in out.items() if k == kind}
        pool = [x for x in (regs if kind == "unreg" else subs) if x not in taken]
        if not pool:
            return None
        x = pool[sel % len(pool)]
        if kind == "unreg":
            return rid, x, M.Unregister(M.UnregisterFields(rid, x))
        return rid, x, M.Unsubscribe(M.UnsubscribeFields(rid, x))

    def answer(key, error, order_no=0):
        kind, rid = key
        what = out.pop(key)
        order.remove(key)
        if error:
            deliver(M.Error(M.ErrorFields(ERR_TYPE[kind], rid, deco.uri(order_no), ["e"], None, deco.opts(order_no))))
            return
        ids[1] += 1
        if kind == "call":
            deliver(M.Result(M.ResultFields(rid, ["r"], None, deco.opts("result", order_no, base=deco.off("progress", "result", order_no), forbid=("progress",)))))
        elif kind == "reg":
            deliver(M.Registered(M.RegisteredFields(rid, ids[1])))
            regs.append(ids[1])
        elif kind == "sub":
            deliver(M.Subscribed(M.SubscribedFields(rid, ids[1])))
            subs.append(ids[1])
        elif kind == "pub":
            deliver(M.Published(M.PublishedFields(rid, ids[1])))
        elif kind == "unreg":
            deliver(M.Unregistered(M.UnregisteredFields(rid)))
            regs.remove(what)
        else:
            deliver(M.Unsubscribed(M.UnsubscribedFields(rid)))
            subs.remove(what)

    def step(k, sel):
        if k in REPLY:
            q = request(k, sel)
            if q:
                send(q[2])
                if k != "pub" or q[2].options.get("acknowledge"):
                    out[(k, q[0])] = q[1]
                    order.append((k, q[0]))
        elif k in ("answer", "error"):
            if order:
                answer(order[sel % len(order)], k == "error", sel)
        elif k == "progress":
            calls = [r for kk, r in order if kk == "call"]
            if calls:
                deliver(M.Result(M.ResultFields(calls[sel % len(calls)], [1], None, {"progress": True})))
        elif k == "invoke":
            if regs:
                ids[1] += 1
                deliver(M.Invocation(M.InvocationFields(ids[1], regs[sel % len(regs)], None, None, deco.opts("inv", sel))))
                open_inv.append(ids[1])
        elif k in ("yield", "ierr"):
            if open_inv:
                inv = open_inv[sel % len(open_inv)]
                prog = k == "yield" and sel // 7 % 3 == 0
                send(M.Error(M.ErrorFields(68, inv, deco.uri(sel), None, None, deco.opts("ierr", sel))) if k == "ierr" else
                     M.Yield(M.YieldFields(inv, [1], None, deco.opts("yield", sel, base={"progress": True} if prog else deco.off("progress", "yield", sel), forbid=("progress",)))))
                if not prog:
                    open_inv.remove(inv)
        elif k == "event":
            if subs:
                deliver(M.Event(M.EventFields(subs[sel % len(subs)], 5)))
        elif k == "badevent":
            ids[1] += 1
            deliver(M.Event(M.EventFields(ids[1], 5)) if sel % 2 else M.Invocation(M.InvocationFields(ids[1], ids[1])), bad=True)
            ctx.fault("unsolicited_event_or_invocation")
        elif k == "forged":
            ids[0] += 1
            rid = ids[0]
            kind = sorted(ERR_TYPE)[sel % 6]
            ids[1] += 1
            msg = {"call": lambda: M.Result(M.ResultFields(rid, None, None, {"progress": True} if sel // 18 % 5 == 0 else {})),
                   "reg": lambda: M.Registered(M.RegisteredFields(rid, ids[1])),
                   "sub": lambda: M.Subscribed(M.SubscribedFields(rid, ids[1])),
                   "unreg": lambda: M.Unregistered(M.UnregisteredFields(rid)), "unsub": lambda: M.Unsubscribed(M.UnsubscribedFields(rid)),
                   "pub": lambda: M.Published(M.PublishedFields(rid, ids[1]))}[kind]() if sel // 6 % 3 else M.Error(M.ErrorFields(ERR_TYPE[kind], rid, deco.uri(sel)))
            deliver(msg, bad=True)
            ctx.fault("forged_reply")
        elif k in ("badsend", "badyield"):
            ids[0] += 1
            ids[1] += 1
            msg = M.Yield(M.YieldFields(ids[1])) if k == "badyield" else M.Error(M.ErrorFields([48, 32, 64, 16][sel % 4], ids[0], deco.uri(sel)))
            r = attempt(props, "a send that is not allowed", lambda: s.send_message(msg))
            if not isinstance(r, Refused):
                raise Violation(props, "accepted", f"{type(msg).__name__} was sent")
            ctx.fault("refused_send")
        elif k == "sfail":
            q = request(sorted(REPLY)[sel % 6], sel)
            if q:
                ser.fail = "after" if sel // 6 % 2 else "before"
                try:
                    s.send_message(q[2])
                except Exception:
                    ctx.fault("serialize_fails")
                ser.fail = None
        elif k == "badframe":
            if cfg["bytes"]:
                raw = peer.serialize(M.Result(M.ResultFields(ids[0] + 1)))
                try:
                    s.receive(raw[:-1])
                except Exception:
                    ctx.fault("truncated_frame")

    sizes = [(measure(WAMPSession(FaultySerializer(serializer(cfg["serializer"])))), shared_state())]
    for cycle in range(1, cycles + 1):
        for k, sel in plan["ops"]:
            ctx.tick(0.001)
            step(k, sel)
        # everything that is outstanding comes to its end
        for key in list(order):
            answer(key, key[1] % 3 == 0)
        for inv in list(open_inv):
            send(M.Yield(M.YieldFields(inv)) if inv % 2 else M.Error(M.ErrorFields(68, inv, "a.b")))
            open_inv.remove(inv)
        for i in list(regs):
            step("unreg", 0)
        for i in list(subs):
            step("unsub", 0)
        for key in list(order):
            answer(key, False)
        ctx.log("cycle", len(regs), len(subs), len(open_inv))
        if any([out, order, regs, subs, open_inv]):
            raise AssertionError("the cycle did not finish")
        if cycle in marks:
            sizes.append((measure(s), shared_state()))
    return sizes


def unique(kind, n):
    """A message with nothing in it that was seen before."""
    _, spec, payload = wampspec.LAYOUT[kind]
    f = {}
    for name, code in spec:
        if code in "HW":
            f.update(roles={"caller": {"features": {f"f{n}": True}}}, authid=f"u{n}", authextra={f"x{n}": n})
            if code == "W":
                f.update(authrole=f"r{n}", authmethod=f"m{n}")
            else:
                f.update(authmethods=[f"m{n}"])
        else:
            f[name] = {"i": n, "t": 48, "s": f"s.{kind}.{n}", "d": {f"o{n}": n}}[code]
    if payload:
        f.update(args=[f"a{n}"], kwargs={f"k{n}": n})
    return wampspec.build(kind, f)


def links(plan, ctx, cycles, marks):
    """What connections share for as long as a process lives: serializers, client authenticators, a user database and the
    modules' own containers. Handshakes, frames and payloads come and go over them."""
    sers = {n: serializer(n) for n in ("json", "cbor", "msgpack")}
    key = "07" * 32
    clients = {"ticket": auth.TicketAuthenticator("u", "s"), "wampcra": auth.WAMPCRAAuthenticator("u", "s"),
               "cryptosign": auth.CryptoSignAuthenticator("u", key), "anonymous": auth.AnonymousAuthenticator("u")}

    class DB(auth.IServerAuthenticator):
        def methods(self):
            return list(clients)

        def authenticate(self, request):
            if request.realm.endswith("5"):
                raise ValueError("no such realm")
            return auth.WAMPCRAResponse("u", "r", "s") if request.method == "wampcra" else auth.Response("u", "r")

    db = DB()
    sizes = [(measure(db, *sers.values(), *clients.values()), shared_state())]
    n = 0
    for cycle in range(1, cycles + 1):
        for what, sel in plan["ops"]:
            ctx.tick(0.001)
            n += 1
            name = ("json", "cbor", "msgpack")[sel % 3]
            ser = sers[name]
            if what in clients:
                j, a = Joiner(f"realm{n}", ser, clients[what]), Acceptor(ser, db)
                data = j.send_hello()
                for _ in range(2):
                    back, over = a.receive(data)
                    try:
                        data = j.receive(back)
                    except Exception:
                        ctx.fault("handshake_refused")
                        break
                    if over or data is None:
                        break
            elif what == "message":
                ser.deserialize(ser.serialize(unique(sorted(wampspec.LAYOUT)[sel // 3 % len(wampspec.LAYOUT)], n)))
            elif what == "payload":
                sid = (1, 2, 3)[sel % 3]
                deserialize_payload(sid, serialize_payload(sid, [f"m{n}"], {f"k{n}": n}))
            elif what == "frame":
                h = rawsocket.MessageHeader.from_bytes(rawsocket.MessageHeader(rawsocket.MSG_TYPE_WAMP, n % 2**24).to_bytes())
                if h.length != n % 2**24:
                    raise Violation(("C19",), "header", f"length {n} became {h.length}")
            else:
                data = ser.serialize(M.Publish(M.PublishFields(n, f"t{n}", [f"m{n}"])))
                try:
                    ser.deserialize(data[:-2])
                except Exception:
                    ctx.fault("damaged_frame")
        if cycle in marks:
            sizes.append((measure(db, *sers.values(), *clients.values()), shared_state()))
    return sizes
