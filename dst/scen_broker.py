"""Router pub/sub: many sessions joining, leaving, crashing and racing on one broker, against the reference model."""

from wampproto import messages as M

from dst import values
from dst.checked import CheckedBroker

NAME = "broker"


def generate(rng, focus=None, large=False):
    n = rng.choice([1, 2, 2, 3, 3, 4, 6]) if not large else rng.choice([60, 300])
    topics = values.name_pool(rng, rng.choice([1, 2, 2, 3, 3, 5, 9]) if not large else rng.choice([5, 60]))
    nops = rng.choice([6, 15, 30, 60, 120]) if not large else 1500
    cfg = {
        "sids": values.session_ids(rng, n),
        "topics": topics,
    }
    w = {
        "join": rng.choice([1, 2, 3]),
        "leave": rng.choice([0, 1, 1, 2, 3]),
        "sub": rng.choice([3, 4, 6]),
        "unsub": rng.choice([0, 1, 2, 4]),
        "bogus": rng.choice([0, 0.3, 1]),
        "pub": rng.choice([3, 5, 8]),
        "foreign": rng.choice([0, 0.2]),
        "rejoin_new": rng.choice([0, 0.5, 1]),
        "burst": rng.choice([0, 0, 0.15]),
    }
    kinds, weights = zip(*w.items())
    ops = [["join", i] for i in range(n) if rng.random() < 0.8]
    reqs = [0] * n
    style = rng.random()
    for k in rng.choices(kinds, weights, k=nops):
        i = rng.randrange(n)
        reqs[i] += 1
        req = reqs[i] if style < 0.8 else rng.choice(values.REQUEST_IDS)
        t = rng.randrange(len(topics)) if rng.random() < 0.6 else 0
        if k in ("join", "leave", "rejoin_new"):
            ops.append([k, i])
        elif k == "sub":
            ops.append([k, i, t, req, values.options(rng, rng.choice([{}, {}, {"match": "exact"}, {"x": 1}]))])
        elif k == "unsub":
            ops.append([k, i, rng.randrange(1000), req])
        elif k == "bogus":
            ops.append([k, i, rng.randrange(1000), req, rng.choice(["other", "old", "arbitrary", "near"])])
        elif k == "pub":
            opts = rng.choice([{}, {"acknowledge": True}, {"acknowledge": True}, {"acknowledge": False},
                               {"acknowledge": True, "x": [1]}, {"disclose": True}])
            opts = values.options(rng, opts, ("acknowledge",))
            if rng.random() < 0.1:
                opts[rng.choice(["exclude", "eligible"])] = rng.sample(cfg["sids"], rng.choice([0, 1, 1, n]))
            ops.append([k, i, t, req, opts, values.args(rng), values.kwargs(rng)])
        elif k == "burst":
            ops.append([k, i, t, rng.choice([20, 70, 260, 1100])])
        else:
            ops.append([k, i, rng.randrange(6)])
    if rng.random() < (0.5 if large else 0.03):
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["crowd", "hoard", "churn"])
            size = values.scale(rng, large)
            ops.insert(rng.randrange(len(ops) + 1), [kind, rng.randrange(n), rng.randrange(len(topics)), size, rng.randrange(1000)])
    return {"scenario": NAME, "config": cfg, "ops": ops}


def foreign(kind):
    return [
        M.Call(M.CallFields(1, "a")),
        M.Register(M.RegisterFields(1, "a")),
        M.Yield(M.YieldFields(1)),
        M.Event(M.EventFields(1, 1)),
        M.Goodbye(M.GoodbyeFields({}, "bye")),
        M.Hello(M.HelloFields("realm1", {"caller": {}})),
    ][kind]


def execute(plan, ctx):
    cfg = plan["config"]
    b = CheckedBroker(ctx)
    drive(b, list(cfg["sids"]), cfg["topics"], plan["ops"], ctx)
    finale(b, cfg["topics"])


def drive(b, sids, topics, ops, ctx):
    old = []  # subscription ids that are over
    fresh = 0
    for op in ops:
        ctx.tick(0.001)
        k, i = op[0], op[1]
        sid = sids[i]
        if k == "join":
            b.join(sid)
        elif k == "leave":
            if sid in b.sessions and any(sid in s for _, s in b.topics.values()):
                ctx.fault("session_lost_while_subscribed")
            b.leave(sid)
        elif k == "rejoin_new":
            # the client comes back on a new session while the old one may still be there
            fresh += 1
            sids[i] = (sid + 7919 * fresh) % 2**53 + 1
            if sids[i] in sids[:i] + sids[i + 1:]:
                sids[i] = sid
            else:
                b.join(sids[i])
                if sid in b.sessions:
                    b.leave(sid)
                ctx.fault("reconnect_under_new_session")
        elif k == "sub":
            b.receive(sid, M.Subscribe(M.SubscribeFields(op[3], topics[op[2]], dict(op[4]))))
        elif k == "unsub":
            own = sorted(b.sub_ids(sid))
            if own:
                s = own[op[2] % len(own)]
                old.append(s)
                b.receive(sid, M.Unsubscribe(M.UnsubscribeFields(op[3], s)))
        elif k == "bogus":
            own = set(b.sub_ids(sid))
            if op[4] == "other":
                pool = sorted(set(b.sub_ids()) - own)
            elif op[4] == "old":
                pool = sorted(set(b.used_sub_ids) - own)
            elif op[4] == "near":
                pool = [x for x in values.near_ids(sorted(own)[:40]) if x not in own]
            else:
                pool = [x for x in values.REQUEST_IDS + [op[2]] if x not in own and x > 0]
            if pool:
                b.receive(sid, M.Unsubscribe(M.UnsubscribeFields(op[3], pool[op[2] % len(pool)])))
        elif k == "pub":
            b.receive(sid, M.Publish(M.PublishFields(op[3], topics[op[2]], op[5], op[6], dict(op[4]))))
        elif k == "burst":
            for r in range(op[3]):
                b.receive(sid, M.Publish(M.PublishFields(r + 1, topics[op[2]], [r], None, {"acknowledge": r % 3 == 0})))
        elif k == "crowd":
            crowd(b, sid, topics[op[2]], op[3], op[4])
            ctx.fault("crowd")
        elif k == "hoard":
            hoard(b, sid, op[3], op[4])
            ctx.fault("hoard")
        elif k == "churn":
            churn(b, sid, topics[op[2]], op[3], op[4])
            ctx.fault("churn")
        else:
            b.receive(sid, foreign(op[2]))


def crowd(b, publisher, topic, n, salt):
    """n more sessions subscribe to one topic; some of them leave or unsubscribe again."""
    sids = [s for s in (3_000_000 + salt * 65536 + j for j in range(n)) if s not in b.sessions]
    if not sids:
        return
    for j, s in enumerate(sids):
        b.join(s)
        b.receive(s, M.Subscribe(M.SubscribeFields(j + 1, topic)))
    for r in range(2):
        b.receive(publisher, M.Publish(M.PublishFields(7, topic, ["crowd", r], {"r": r}, {"acknowledge": True})))
        b.receive(sids[-1], M.Publish(M.PublishFields(7, topic, ["crowd", r])))
        for j in values.permuted(len(sids) - 1, salt):
            if (j + salt) % 3 == r:
                if j % 2:
                    b.leave(sids[j])
                else:
                    b.receive(sids[j], M.Unsubscribe(M.UnsubscribeFields(8, b.topics[topic][0])))
    b.receive(publisher, M.Publish(M.PublishFields(7, topic, ["crowd"], None, {"acknowledge": True})))


def hoard(b, sid, n, salt):
    """One session subscribes to n topics of its own."""
    names = ["hoard.%d.%d" % (salt, j) for j in range(n)]
    for j, t in enumerate(names):
        b.receive(sid, M.Subscribe(M.SubscribeFields(j + 1, t)))
    for j, t in enumerate(names):
        b.receive(sid, M.Publish(M.PublishFields(j + 1, t, [j])))
    for j in values.permuted(n, salt):
        if (j + salt) % 2 and names[j] in b.topics:
            b.receive(sid, M.Unsubscribe(M.UnsubscribeFields(j + 1, b.topics[names[j]][0])))
    for j, t in enumerate(names):
        b.receive(sid, M.Publish(M.PublishFields(j + 1, t, [j], None, {"acknowledge": j % 7 == 0})))


def churn(b, sid, topic, n, salt):
    """A session that comes and goes, or subscribes and unsubscribes, over and over, beside whoever is there already."""
    b.join(sid)
    for j in range(n):
        b.receive(sid, M.Subscribe(M.SubscribeFields(j + 1, topic)))
        if topic not in b.topics:
            return
        if j % 5 == salt % 5:
            b.receive(sid, M.Publish(M.PublishFields(j + 1, topic, [j], None, {"acknowledge": True})))
        if (j * salt) % 3 or salt % 2:
            b.receive(sid, M.Unsubscribe(M.UnsubscribeFields(j + 1, b.topics[topic][0])))
        else:
            b.leave(sid)
            b.join(sid)
        if j % 7 == salt % 7:
            b.receive(sid, M.Publish(M.PublishFields(j + 1, topic, [j])))


def finale(b, topics):
    # once everything is quiet, what every live subscriber and every stranger gets is checked once more
    for sid in sorted(b.sessions)[:8]:
        for t in topics[:20]:
            b.receive(sid, M.Publish(M.PublishFields(9, t, ["final"], {"k": 1}, {"acknowledge": True})))
    for sid in sorted(b.sessions):
        b.leave(sid)
    b.join(1 if 1 not in b.sessions else 2)
    for t in topics:
        b.receive(1, M.Publish(M.PublishFields(10, t, None, None, {"acknowledge": True})))
