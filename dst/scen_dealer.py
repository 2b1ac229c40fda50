"""Router RPC: callers and callees joining, leaving and answering in every order on one dealer, against the model."""

from wampproto import messages as M

from dst import values
from dst.checked import CheckedDealer

NAME = "dealer"


def payload(rng):
    if rng.random() < 0.9:
        return None
    return [rng.choice(["", "00", "deadbeef", "7f" * 300]), rng.choice([0, 1, 2, 3]), rng.random() < 0.8]


def generate(rng, focus=None, large=False):
    n = rng.choice([1, 2, 2, 3, 3, 4, 6]) if not large else rng.choice([60, 300])
    procs = values.name_pool(rng, rng.choice([1, 2, 2, 3, 3, 5, 9]) if not large else rng.choice([5, 60]))
    nops = rng.choice([6, 15, 30, 60, 120]) if not large else 1500
    cfg = {"sids": values.session_ids(rng, n), "procs": procs}
    prog = rng.choice([0, 0, 0.3, 0.6]) if focus != "C07" else rng.choice([0.4, 0.8])
    w = {
        "join": rng.choice([1, 2]),
        "leave": rng.choice([0, 0.5, 1, 2]) * (2 if focus == "C09" else 1),
        "rejoin_new": rng.choice([0, 0.5]),
        "reg": rng.choice([3, 4, 6]),
        "unreg": rng.choice([0, 1, 2]) * (2 if focus in ("C06", "C08") else 1),
        "bogus": rng.choice([0, 0.3, 1]),
        "call": rng.choice([5, 8]),
        "chunk": 6 * prog,
        "dup": rng.choice([0, 0.3, 1]),
        "yield": rng.choice([2, 4, 6]),
        "err": rng.choice([0.5, 1, 2]),
        "foreign": rng.choice([0, 0.2]),
        "burst": rng.choice([0, 0, 0.1]),
        "handover": rng.choice([0, 0.2, 0.5]),
    }
    kinds, weights = zip(*w.items())
    ops = [["join", i] for i in range(n) if rng.random() < 0.85]
    for p in range(len(procs)):
        if rng.random() < 0.6:
            ops.append(["reg", rng.randrange(n), p, 0, {}])
    whos = ["callee"] * rng.choice([4, 8, 20] if focus != "C06" else [2, 4, 8]) + ["caller", "other", "gone", "holder"]
    idstyle = "seq" if rng.random() < 0.7 else rng.choice(["same", "edge"])
    cfg["idstyle"] = idstyle
    for k in rng.choices(kinds, weights, k=nops):
        i = rng.randrange(n)
        p = rng.randrange(len(procs)) if rng.random() < 0.6 else 0
        sel = rng.randrange(1000)
        if k in ("join", "leave", "rejoin_new"):
            ops.append([k, i])
        elif k == "reg":
            ops.append([k, i, p, sel, values.options(rng, rng.choice([{}, {}, {"invoke": "roundrobin"}, {"match": "prefix"}]))])
        elif k == "unreg":
            ops.append([k, i, sel])
        elif k == "bogus":
            ops.append([k, i, sel, rng.choice(["other", "old", "arbitrary", "near"])])
        elif k == "call":
            o = {}
            if rng.random() < prog:
                o["progress"] = True
            elif rng.random() < 0.1:
                o["progress"] = False
            if rng.random() < max(prog, 0.1):
                o["receive_progress"] = True
            elif rng.random() < 0.1:
                o["receive_progress"] = False
            if rng.random() < 0.1:
                o["timeout"] = 1000
            o = values.options(rng, o, ("progress", "receive_progress"))
            ops.append([k, i, p, sel, o, values.args(rng), values.kwargs(rng), payload(rng)])
        elif k == "chunk":
            ops.append([k, sel, rng.random() < 0.3, values.args(rng), values.kwargs(rng),
                        values.options(rng, {"progress": False} if rng.random() < 0.2 else {}, ("progress", "receive_progress"))])
        elif k == "dup":
            ops.append([k, sel, p])
        elif k == "yield":
            ops.append([k, sel, rng.choice(whos), rng.random() < max(0.08, prog), rng.choice(["live"] * 12 + ["over", "arbitrary", "near"]),
                        values.args(rng), values.kwargs(rng), payload(rng), values.options(rng, {"progress": False} if rng.random() < 0.2 else {}, ("progress",))])
        elif k == "err":
            ops.append([k, sel, rng.choice(whos), rng.choice([68] * 12 + [48, 64, 66, 16, 32, 34, 69, 0]),
                        rng.choice(["live"] * 8 + ["over", "arbitrary", "near"]),
                        rng.choice(values.URIS) if rng.random() < 0.9 else values.word(rng),
                        values.args(rng), values.kwargs(rng), values.options(rng, rng.choice([{}, {}, {"x": 1}]))])
        elif k == "handover":
            ops.append([k, i, sel, rng.random() < 0.3, rng.random() < 0.5])
        elif k == "burst":
            ops.append([k, i, p, rng.choice([20, 70, 260, 1100])])
        else:
            ops.append([k, i, rng.randrange(7)])
    if rng.random() < (0.5 if large else 0.03):
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["crowd", "hoard", "flood", "flood", "stream", "stream", "churn"])
            size = values.scale(rng, large)
            ops.insert(rng.randrange(len(ops) + 1), [kind, rng.randrange(n), rng.randrange(len(procs)), size, rng.randrange(1000)])
    return {"scenario": NAME, "config": cfg, "ops": ops}


def foreign(kind):
    return [
        M.Subscribe(M.SubscribeFields(1, "a")),
        M.Publish(M.PublishFields(1, "a")),
        M.Result(M.ResultFields(1)),
        M.Invocation(M.InvocationFields(1, 1)),
        M.Goodbye(M.GoodbyeFields({}, "bye")),
        M.Hello(M.HelloFields("realm1", {"caller": {}})),
        M.Registered(M.RegisteredFields(1, 1)),
    ][kind]


def execute(plan, ctx):
    cfg = plan["config"]
    d = CheckedDealer(ctx)
    next_req = drive(d, cfg, list(cfg["sids"]), cfg["procs"], plan["ops"], ctx)
    finale(d, cfg["procs"], next_req)


def drive(d, cfg, sids, procs, ops, ctx):
    counters = {}
    used = []

    def next_req(sid, sel):
        c = counters[sid] = counters.get(sid, 0) + 1
        if cfg["idstyle"] == "same":
            cand = 1 + sel % 4
        elif cfg["idstyle"] == "edge":
            cand = values.REQUEST_IDS[sel % len(values.REQUEST_IDS)]
        else:
            cand = c
        # a fresh call never reuses an id that is still pending (that is the job of "dup" and "chunk")
        while d.pending_by_call(sid, cand) is not None:
            cand = cand % 2**53 + 1
        return cand

    def pick(sel, mode):
        if mode == "live":
            pool = sorted(d.pending)
        elif mode == "over":
            pool = sorted(set(d.inv_ids) - set(d.pending))
        elif mode == "near":
            pool = [x for x in values.near_ids(sorted(d.pending)[:40]) if x not in d.pending]
        else:
            pool = [x for x in values.REQUEST_IDS if x not in d.pending]
        return pool[sel % len(pool)] if pool else None

    def actor(inv, who, sel):
        p = d.pending.get(inv)
        if p is None:
            pool = sorted(d.sessions) or [1]
            return pool[sel % len(pool)]
        if who == "callee":
            return p.callee
        if who == "caller":
            return p.caller
        if who == "holder":
            # whoever holds registrations now
            pool = sorted({o for _, o in d.procs.values()})
        elif who == "gone":
            pool = sorted(set(used) - d.sessions)
        else:
            pool = sorted(d.sessions)
        return pool[sel % len(pool)] if pool else p.callee

    def pl(x):
        return {} if x is None else {"payload": bytes.fromhex(x[0]), "serializer": x[1], "binary": x[2]}

    fresh = 0
    for op in ops:
        ctx.tick(0.001)
        k = op[0]
        if k in ("join", "leave", "rejoin_new", "reg", "unreg", "bogus", "call", "burst", "foreign", "crowd", "hoard", "flood", "stream", "churn", "handover"):
            i = op[1]
            sid = sids[i]
        if k == "join":
            d.join(sid)
            used.append(sid)
        elif k == "leave":
            if any(sid == p.callee for p in d.pending.values()):
                ctx.fault("callee_lost_during_call")
            if any(sid == p.caller for p in d.pending.values()):
                ctx.fault("caller_lost_during_call")
            d.leave(sid)
        elif k == "rejoin_new":
            fresh += 1
            new = (sid + 7919 * fresh) % 2**53 + 1
            if new not in sids:
                sids[i] = new
                d.join(new)
                used.append(new)
                if sid in d.sessions:
                    d.leave(sid)
                ctx.fault("reconnect_under_new_session")
        elif k == "reg":
            d.receive(sid, M.Register(M.RegisterFields(next_req(sid, op[3]), procs[op[2]], dict(op[4]))))
        elif k == "unreg":
            own = sorted(r for r, o in d.procs.values() if o == sid)
            if own:
                d.receive(sid, M.Unregister(M.UnregisterFields(next_req(sid, op[2]), own[op[2] % len(own)])))
        elif k == "bogus":
            own = {r for r, o in d.procs.values() if o == sid}
            live = {r for r, _ in d.procs.values()}
            pool = {"other": live - own, "old": d.reg_ids - own, "arbitrary": set(values.REQUEST_IDS) - own,
                    "near": set(values.near_ids(sorted(own)[:40])) - own}[op[3]]
            pool = sorted(pool)
            if pool:
                d.receive(sid, M.Unregister(M.UnregisterFields(next_req(sid, op[2]), pool[op[2] % len(pool)])))
        elif k == "call":
            req = next_req(sid, op[3])
            d.receive(sid, M.Call(M.CallFields(req, procs[op[2]], op[5], op[6], dict(op[4]), **pl(op[7]))))
        elif k == "burst":
            for r in range(op[3]):
                req = next_req(sid, r)
                d.receive(sid, M.Call(M.CallFields(req, procs[op[2]], [r], None, {})))
        elif k == "chunk":
            opened = sorted((p.caller, p.req) for p in d.pending.values() if p.open and p.caller in d.sessions)
            if opened:
                sid, req = opened[op[1] % len(opened)]
                p = d.pending_by_call(sid, req)
                o = dict(op[5]) if op[2] else dict(op[5], progress=True)
                if p.receive_progress:
                    o["receive_progress"] = True
                d.receive(sid, M.Call(M.CallFields(req, p.proc, op[3], op[4], o)))
        elif k == "dup":
            closed = sorted((p.caller, p.req) for p in d.pending.values() if not p.open and p.caller in d.sessions)
            if closed:
                sid, req = closed[op[1] % len(closed)]
                d.receive(sid, M.Call(M.CallFields(req, procs[op[2]], ["dup"], None, {})))
        elif k == "yield":
            inv = pick(op[1], op[4])
            if inv is not None:
                o = dict(op[8], progress=True) if op[3] else dict(op[8])
                who = actor(inv, op[2], op[1])
                d.receive(who, M.Yield(M.YieldFields(inv, op[5], op[6], o, **pl(op[7]))))
        elif k == "err":
            inv = pick(op[1], op[4])
            if inv is not None:
                who = actor(inv, op[2], op[1])
                d.receive(who, M.Error(M.ErrorFields(op[3], inv, op[5], op[6], op[7], dict(op[8]))))
        elif k == "handover":
            # a procedure changes hands while a call of the old holder is open, and the new holder answers
            live = sorted(v for v, p in d.pending.items() if p.callee != sid and d.procs.get(p.proc, (0, 0))[1] == p.callee)
            if live and sid in d.sessions:
                p = d.pending[live[op[2] % len(live)]]
                d.receive(p.callee, M.Unregister(M.UnregisterFields(next_req(p.callee, op[2]), d.procs[p.proc][0])))
                d.receive(sid, M.Register(M.RegisterFields(next_req(sid, op[2]), p.proc)))
                m = (M.Error(M.ErrorFields(68, p.inv, "a.b", ["usurped"])) if op[3]
                     else M.Yield(M.YieldFields(p.inv, ["usurped"], None, {"progress": True} if op[4] and p.receive_progress else {})))
                d.receive(sid, m)
                ctx.fault("procedure_changes_hands_during_call")
        elif k in ("crowd", "hoard", "flood", "stream", "churn"):
            {"crowd": crowd, "hoard": hoard, "flood": flood, "stream": stream, "churn": churn}[k](d, sid, procs[op[2]], op[3], op[4], next_req)
            ctx.fault(k)
        else:
            d.receive(sid, foreign(op[2]))
    return next_req


def answer_some(d, invs, salt):
    for j in values.permuted(len(invs), salt):
        p = d.pending.get(invs[j])
        if p is None or (j + salt) % 5 == 0:
            continue  # it stays open
        if j % 4 == 1:
            d.receive(p.callee, M.Error(M.ErrorFields(68, p.inv, "a.b", [j])))
        else:
            d.receive(p.callee, M.Yield(M.YieldFields(p.inv, [j], {"j": j})))


def crowd(d, sid, proc, n, salt, next_req):
    """n more sessions, each with a procedure of its own that another one calls; some leave before they answer."""
    sids = [s for s in (3_000_000 + salt * 65536 + j for j in range(n)) if s not in d.sessions]
    for j, s in enumerate(sids):
        d.join(s)
        d.receive(s, M.Register(M.RegisterFields(j + 1, "crowd.%d.%d" % (salt, j))))
    before = set(d.pending)
    for j, s in enumerate(sids):
        d.receive(s, M.Call(M.CallFields(next_req(s, j), "crowd.%d.%d" % (salt, (j + 1) % len(sids)), [j])))
    for s in sids[salt % 7::7]:
        d.leave(s)
    answer_some(d, sorted(set(d.pending) - before), salt)
    for j in range(len(sids)):
        d.receive(sid, M.Call(M.CallFields(next_req(sid, j), "crowd.%d.%d" % (salt, j), [j])))


def hoard(d, sid, proc, n, salt, next_req):
    """One session holds n procedures."""
    names = ["hoard.%d.%d" % (salt, j) for j in range(n)]
    for j, name in enumerate(names):
        d.receive(sid, M.Register(M.RegisterFields(j + 1, name)))
    caller = min(d.sessions, default=1)
    before = set(d.pending)
    for j, name in enumerate(names):
        d.receive(caller, M.Call(M.CallFields(next_req(caller, j), name, [j])))
    answer_some(d, sorted(set(d.pending) - before), salt)
    for j in values.permuted(n, salt):
        if (j + salt) % 2 and d.procs.get(names[j], (0, 0))[1] == sid:
            d.receive(sid, M.Unregister(M.UnregisterFields(j + 1, d.procs[names[j]][0])))
    for j, name in enumerate(names):
        d.receive(caller, M.Call(M.CallFields(next_req(caller, j), name, [j])))
        if j % 3 == 0:
            d.receive(sid, M.Register(M.RegisterFields(j + 1, name)))


def flood(d, sid, proc, n, salt, next_req):
    """n calls of one procedure are open at once and are answered in another order."""
    callers = sorted(d.sessions)[:5] or [sid]
    before = set(d.pending)
    for j in range(n):
        c = callers[j % len(callers)]
        d.receive(c, M.Call(M.CallFields(next_req(c, j), proc, [j], {"j": j}, {"receive_progress": True} if j % 3 == 0 else {})))
    mine = sorted(set(d.pending) - before)
    for j in mine[::4]:
        p = d.pending[j]
        d.receive(p.callee, M.Yield(M.YieldFields(j, ["part"], None, {"progress": True} if p.receive_progress else {})))
    answer_some(d, mine, salt)


def stream(d, sid, proc, n, salt, next_req):
    """A few calls of many chunks and many progressive results each, in any order, until one of each is the last."""
    calls = []
    before = set(d.pending)
    for c in (sorted(d.sessions) or [sid])[: 1 + salt % 3]:
        req = next_req(c, salt)
        o = {"progress": True, "receive_progress": True} if salt % 4 else {"progress": True}
        d.receive(c, M.Call(M.CallFields(req, proc, [0], None, o)))
        calls.append((c, req, o))
    mine = sorted(set(d.pending) - before)
    for j in range(1, n):
        c, req, o = calls[j % len(calls)]
        if salt % 5 != 1:
            d.receive(c, M.Call(M.CallFields(req, proc, [j], None, dict(o))))
        if mine and o.get("receive_progress") and salt % 5:
            p = d.pending.get(mine[(j + salt) % len(mine)])
            if p is not None:
                d.receive(p.callee, M.Yield(M.YieldFields(p.inv, [j], None, {"progress": True})))
    for c, req, o in calls:
        d.receive(c, M.Call(M.CallFields(req, proc, ["last"], None, {k: v for k, v in o.items() if k != "progress"})))
    for j in mine:
        p = d.pending.get(j)
        if p is not None:
            d.receive(p.callee, M.Yield(M.YieldFields(j, ["end"])))


def churn(d, sid, proc, n, salt, next_req):
    """A callee that comes and goes, or registers and unregisters, over and over, being called now and then."""
    d.join(sid)
    other = max(d.sessions)
    for j in range(n):
        d.receive(sid, M.Register(M.RegisterFields(next_req(sid, j), proc)))
        if d.procs.get(proc, (0, 0))[1] != sid:
            return
        before = set(d.pending)
        if j % 4 != salt % 4:
            d.receive(other, M.Call(M.CallFields(next_req(other, j), proc, [j])))
        mine = sorted(set(d.pending) - before)
        if j % 3:
            for v in mine:
                d.receive(sid, M.Yield(M.YieldFields(v, [j])))
        if (j * salt) % 3 or salt % 2:
            d.receive(sid, M.Unregister(M.UnregisterFields(next_req(sid, j), d.procs[proc][0])))
        else:
            d.leave(sid)
            d.join(sid)
        if j % 7 == salt % 7:
            d.receive(other, M.Call(M.CallFields(next_req(other, j), proc, [j])))


def settle(d):
    # faults are over: every call still pending is answered by its callee, and the answer reaches its caller
    for inv in sorted(d.pending):
        p = d.pending[inv]
        if inv % 3 == 0:
            d.receive(p.callee, M.Error(M.ErrorFields(68, inv, "a.b", ["final"], {"k": inv})))
        else:
            d.receive(p.callee, M.Yield(M.YieldFields(inv, ["final", inv], {"k": inv})))
        if inv % 2 == 0:
            d.receive(p.callee, M.Yield(M.YieldFields(inv, ["late"], None)))


def finale(d, procs, next_req):
    settle(d)
    # every procedure that is registered can be called by every session that is there
    for sid in sorted(d.sessions)[:6]:
        for proc in procs[:20]:
            d.receive(sid, M.Call(M.CallFields(next_req(sid, 5), proc, ["probe"], None, {})))
    for sid in sorted(d.sessions):
        d.leave(sid)
    d.join(1 if 1 not in d.sessions else 2)
    for proc in procs:
        d.receive(1, M.Call(M.CallFields(next_req(1, 6), proc, None, None, {})))
