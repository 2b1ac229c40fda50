"""Id generation under an adversarial random source, near the end of the range, and across interleaved generators."""

from wampproto import idgen
from wampproto import messages as M
from wampproto.acceptor import Acceptor

from dst import seams
from dst.checked import ID_MAX, CheckedBroker, CheckedDealer, check_id
from dst.engine import Violation

NAME = "ids"


def generate(rng, focus=None, large=False):
    nops = rng.choice([10, 40, 100]) if not large else 1000
    ops = []
    names = rng.choice([4, 4, 40])
    whats = ["sub", "pub", "ack", "reg", "call", "yield", "unsub", "unreg"] + (["reg"] * 8 + ["sub"] * 4 if names > 4 else [])
    for k in rng.choices(["next", "new", "near_end", "session", "accept", "reseed", "router", "retire", "census"], [10, 1, 1, 8, 3, 1, 6, 1, 0.01], k=nops):
        if k == "next":
            ops.append([k, rng.randrange(5), rng.choice([1, 1, 3, 50, 300])])
        elif k == "near_end":
            ops.append([k, rng.randrange(5), rng.choice([0, 1, 2, 5, 30])])
        elif k == "session":
            ops.append([k, rng.choice([1, 5, 50])])
        elif k == "census":
            ops.append([k, rng.choice(["ids", "ids", "accept"]), rng.choice([1000, 4000])])
        elif k == "reseed":
            ops.append([k, rng.randrange(5)])
        elif k == "router":
            ops.append([k, rng.randrange(6), rng.choice(whats), rng.randrange(names), rng.randrange(100)])
        else:
            ops.append([k, rng.randrange(5)])
    return {"scenario": NAME, "config": {"extreme": rng.choice([0.0, 0.3, 1.0])}, "ops": ops}


def execute(plan, ctx):
    seams.WORLD.extreme_p = plan["config"]["extreme"]
    seams.WORLD.extreme_entropy = True
    gens = []  # [generator, expected next]
    b, d = CheckedBroker(ctx), CheckedDealer(ctx)
    for s in (1, 2, 3, 4):
        b.join(s)
        d.join(s)
    req = 0

    def new():
        gens.append([idgen.SessionScopeIDGenerator(), 1])

    new()
    for op in plan["ops"]:
        ctx.tick(0.001)
        k = op[0]
        if k == "new":
            new()
        elif k == "next":
            g = gens[op[1] % len(gens)]
            for _ in range(op[2]):
                v = g[0].next()
                check_id(("C22",), "session scope id", v)
                if v != g[1]:
                    raise Violation(("C22",), "not-sequential", f"a session scope generator gave {v}, expected {g[1]}")
                g[1] = 1 if v == ID_MAX else v + 1
                if v == ID_MAX:
                    ctx.probe("wrapped")
            ctx.log("next", g[1])
        elif k == "near_end":
            g = gens[op[1] % len(gens)]
            if isinstance(getattr(g[0], "id", None), int) and g[0].id == (g[1] - 1 or 0):
                try:
                    g[0].id = ID_MAX - op[2]
                except AttributeError:
                    continue  # the counter is not to be moved from outside
                g[1] = ID_MAX - op[2] + 1 if op[2] else 1
                ctx.fault("generator_near_end")
        elif k == "session":
            for _ in range(op[1]):
                v = idgen.generate_session_id()
                check_id(("C22",), "session id", v)
                ctx.state("sid", v if v < 3 or v > ID_MAX - 2 else v.bit_length() // 8)
                if v in (1, ID_MAX):
                    ctx.probe("extreme_session_id")
        elif k == "accept":
            a = Acceptor()
            w = a.receive_message(M.Hello(M.HelloFields("realm1", {"caller": {}}, "u", ["anonymous"], None)))
            check_id(("C22",), "session id of WELCOME", getattr(w, "session_id", None))
            arr = w.marshal()
            check_id(("C22",), "session id on the wire", arr[1])
        elif k == "census":
            census(ctx, op[1], op[2])
        elif k == "reseed":
            import random

            random.seed(op[1])
            ctx.fault("prng_reseeded")
        elif k == "router":
            req += 1
            s = 1 + op[1] % 4
            what, name, sel = op[2], "n%d" % op[3], op[4]
            if what == "sub":
                b.receive(s, M.Subscribe(M.SubscribeFields(req, name)))
            elif what in ("pub", "ack"):
                b.receive(s, M.Publish(M.PublishFields(req, name, options={"acknowledge": what == "ack"})))
            elif what == "unsub":
                ids = b.sub_ids(s)
                if ids:
                    b.receive(s, M.Unsubscribe(M.UnsubscribeFields(req, ids[sel % len(ids)])))
            elif what == "reg":
                d.receive(s, M.Register(M.RegisterFields(req, name)))
            elif what == "unreg":
                ids = [i for i, o in d.procs.values() if o == s]
                if ids:
                    d.receive(s, M.Unregister(M.UnregisterFields(req, ids[sel % len(ids)])))
            elif what == "call":
                d.receive(s, M.Call(M.CallFields(req, name)))
            elif what == "yield" and d.pending:
                p = list(d.pending.values())[sel % len(d.pending)]
                d.receive(p.callee, M.Yield(M.YieldFields(p.inv)))
        elif k == "retire":
            s = 1 + op[1] % 4
            b.leave(s)
            d.leave(s)
            b.join(s)
            d.join(s)
            ctx.fault("session_rejoined_same_id")
    if seams.WORLD.extreme_hits:
        ctx.fault("extreme_random_draw", seams.WORLD.extreme_hits)


def census(ctx, how, n):
    """Thousands of session ids under a healthy random source: no two alike, and every bit of the range in use."""
    was, seams.WORLD.extreme_p = seams.WORLD.extreme_p, 0.0
    seen, some, every = set(), 0, ID_MAX - 1
    for _ in range(n):
        if how == "ids":
            v = idgen.generate_session_id()
        else:
            v = getattr(Acceptor().receive_message(M.Hello(M.HelloFields("realm1", {"caller": {}}, "u", ["anonymous"], None))), "session_id", None)
        check_id(("C22",), "session id", v)
        if v in seen:
            raise Violation(("C22",), "session-id-repeated", f"session id {v} came twice in {len(seen) + 1} draws")
        seen.add(v)
        some |= v - 1
        every &= v - 1
    if some != ID_MAX - 1 or every:
        raise Violation(("C22",), "session-id-range", f"{n} session ids: bits {some ^ (ID_MAX - 1):x} (of id - 1) are never set, bits {every:x} always")
    seams.WORLD.extreme_p = was
    ctx.probe("census")
    ctx.log("census", how, n)
