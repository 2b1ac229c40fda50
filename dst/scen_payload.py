"""Opaque payloads end to end: callers encode args and kwargs, the dealer passes the bytes on, callees decode them, and back.

Many calls are under way at once, in mixed payload serializers; payloads are cut, given the wrong serializer id or the wrong shape.
Reference decoders are json, cbor2 and msgpack themselves.
"""

import datetime
import decimal
import fractions
import json
import uuid

import cbor2
import msgpack
from wampproto import messages as M
from wampproto.dealer import Dealer
from wampproto.serializers.payload import deserialize_payload, serialize_payload
from wampproto.types import SessionDetails

from dst import values
from dst.engine import Violation, same
from dst.scen_wire import arglist, mapping, plain, real

NAME = "payload"
NONE, JSON, MSGPACK, CBOR = 0, 1, 2, 3
DUMP = {JSON: lambda v: json.dumps(v).encode(), MSGPACK: msgpack.dumps, CBOR: cbor2.dumps}
LOAD = {JSON: json.loads, MSGPACK: msgpack.loads, CBOR: cbor2.loads}
P = ("C24",)


def content(rng, sid):
    """args, kwargs in plan form."""
    if sid == NONE:
        n = rng.choice([0, 1, 5, 300, 70000 if rng.random() < 0.05 else 20])
        return [plain([bytes(rng.getrandbits(8) for _ in range(n))]), rng.choice([None, None, {}])]
    binary = sid != JSON
    a = arglist(rng, binary)
    k = None if rng.random() < 0.4 else mapping(rng, binary)
    return [plain(a), plain(k)]


def generate(rng, focus=None, large=False):
    n = rng.choice([5, 15, 40]) if not large else 400
    ops = []
    for k in rng.choices(["call", "answer", "error", "cut", "shape", "unknown", "raw", "mislabel", "text", "chunk", "progress", "leave", "unfit"],
                         [8, 8, 1, 2, 2, 1, 1, 1, 1, 1, 1, 0.3, 0.7], k=n):
        sel = rng.randrange(1000)
        if k in ("call", "chunk", "answer", "progress"):
            sid = rng.choice([NONE, JSON, MSGPACK, CBOR])
            # now and then through the ordinary args, to be mixed with opaque ones
            ops.append([k, sel, sid, content(rng, sid), rng.random() < 0.15 and sid in (JSON,), rng.random() < 0.3])
        elif k == "cut":
            sid = rng.choice([JSON, MSGPACK, CBOR])
            ops.append([k, sel, sid, content(rng, sid)])
        elif k == "shape":
            ops.append([k, rng.choice([JSON, MSGPACK, CBOR]), rng.randrange(len(SHAPES))])
        elif k == "text":
            ops.append([k, rng.choice([JSON, MSGPACK, CBOR]), rng.choice(["args", "kwargs", "key"]), rng.randrange(len(NOT_UTF8))])
        elif k == "unknown":
            ops.append([k, rng.choice([4, 5, 7, 15, -1, 100, 2**31])])
        elif k == "raw":
            ops.append([k, rng.randrange(len(RAW))])
        elif k == "unfit":
            ops.append([k, rng.choice([JSON, MSGPACK, CBOR]), rng.randrange(len(UNFIT)), rng.randrange(3)])
        elif k == "mislabel":
            ops.append([k, rng.choice([JSON, MSGPACK, CBOR]), rng.choice([JSON, MSGPACK, CBOR]), sel])
        else:
            ops.append([k, sel])
    return {"scenario": NAME, "config": {"sessions": rng.choice([2, 3, 5])}, "ops": ops}


SHAPES = [5, "x", "", {}, {"a": 1}, None, True, [1], ["x"], [None], [{}], [{"a": 1}], [[], []], [[], None], [[], 1], [[], "x"], [[], {}, 1],
          [[], {}, {}], [[1], {"a": 1}, None], [1, {}], [None, {"a": 1}], [{}, []], [{}, {}], 1.5, [[1], "kwargs"]]
# content the raw format does not take
RAW = [([], None), (["x"], None), ([1], {}), ([b"a", b"b"], None), ([b"a"], {"k": 1}), ([None], None), ([[b"a"]], None), ([b"", b""], {}),
       ([{"a": b""}], None), (None, {"k": 1}), ([True], None), ([b"a", None], None)]


# values some format has no encoding for
UNFIT = [b"bytes", bytearray(b"x"), {1, 2}, frozenset(), object, len, 1j, 2**64, -(2**63) - 1, 2**400, "\ud800", "a\udfffb", datetime.datetime(2031, 1, 2, 3, 4, 5),
         datetime.date(2031, 1, 2), decimal.Decimal("1.50"), uuid.UUID(int=5), fractions.Fraction(1, 3), range(3), Exception("x"), float("nan"), float("inf")]


# what a damaged text may hold
NOT_UTF8 = [b"\xff", b"\xc3", b"\x80", b"\xc0\x80", b"\xf8\x88\x80\x80\x80", b"ok\xe9", b"\xe2\x82"]


def enc(sid, args, kwargs):
    try:
        return serialize_payload(sid, args, kwargs)
    except Exception as e:
        raise Violation(P, "not-encoded", f"format {sid}: args {args!r:.100} kwargs {kwargs!r:.100}: {type(e).__name__} {e!s:.80}")


def dec(sid, data):
    try:
        r = deserialize_payload(sid, data)
        # what the application makes of the values it got is nothing to whoever decodes the same bytes again
        for part in r if isinstance(r, tuple) else ():
            if isinstance(part, list):
                part.append("changed by the application")
            elif isinstance(part, dict):
                part["changed by the application"] = True
        r = deserialize_payload(sid, data)
    except Exception as e:
        raise Violation(P, "not-decoded", f"format {sid}, {bytes(data)[:60]!r}: {type(e).__name__} {e!s:.80}")
    if not isinstance(r, tuple) or len(r) != 2:
        raise Violation(P, "not-decoded", f"format {sid}, decoded to {r!r:.100}")
    return r


def refused(fn, kind, what):
    try:
        r = fn()
    except Exception:
        return
    raise Violation(P, kind, f"{what} was accepted as {r!r:.150}")


def execute(plan, ctx):
    n = plan["config"]["sessions"]
    d = Dealer()
    alive = set(range(1, n + 1))
    for s in sorted(alive):
        d.add_session(SessionDetails(s, "realm1", "u", "r"))
        d.receive_message(s, M.Register(M.RegisterFields(1, f"p{s}")))
    reqs = {}
    calls = {}  # (caller, request) -> [invocation id, callee, open]

    def handle(sid, msg, what):
        if isinstance(msg, (M.Call, M.Yield)) and msg.payload_serializer is not None and msg.options.get("x_payload_serializer") != msg.payload_serializer:
            raise Violation(P, "serializer-unnamed", f"a {what} with a payload in format {msg.payload_serializer} has the options {msg.options!r:.100}")
        try:
            r = d.receive_message(sid, msg)
        except Exception as e:
            raise Violation(P, "refused", f"{what} was refused by the dealer: {type(e).__name__} {e!s:.80}")
        return r.recipient, r.message

    def fields(op):
        sid, (a, k), ordinary = op[2], op[3], op[4]
        a, k = real(a), real(k)
        if ordinary:
            return {"args": a, "kwargs": k}, (None, a, k, None)
        data = enc(sid, a, k)
        if data is not None and sid != NONE:
            ref = LOAD[sid](data)
            want = ([a if a is not None else []] if a is not None or k is not None else []) + ([k] if k is not None else [])
            if not same(ref, want):
                raise Violation(P, "encoded-wrong", f"format {sid}: args {a!r:.80} kwargs {k!r:.80} encoded as {ref!r:.120}")
        binary = bool(data) and data[-1] % 2 == 1
        return {"payload": data, "serializer": sid, **({"binary": True} if binary else {})}, (sid, a, k, data)

    def arrived(m, sent, what):
        sid, a, k, data = sent
        if sid is None:
            if m.payload is not None or m.payload_serializer is not None or not same(m.args, a) or not same(m.kwargs, k):
                raise Violation(P, "mixed-up", f"{what} with ordinary args arrived with payload {m.payload!r:.60}, args {m.args!r:.60}")
            return
        if not isinstance(m.payload, (bytes, bytearray)) or bytes(m.payload) != bytes(data) or m.payload_serializer != sid or isinstance(m.payload_serializer, bool):
            raise Violation(P, "payload-changed", f"{what}: payload {data!r:.60} in format {sid} arrived as {m.payload!r:.60} in format {m.payload_serializer!r}")
        if bool(m.payload_is_binary()) != (bool(data) and data[-1] % 2 == 1):
            raise Violation(P, "binary-flag", f"{what}: payload {data!r:.60} arrived with payload_is_binary() {m.payload_is_binary()!r}")
        if m.details.get("x_payload_serializer") != sid:
            raise Violation(P, "serializer-unnamed", f"{what}: a payload in format {sid} arrived with details {m.details!r:.100}")
        if m.args is not None or m.kwargs is not None:
            raise Violation(P, "payload-leaked", f"{what}: opaque payload arrived with args {m.args!r:.60} kwargs {m.kwargs!r:.60}")
        ga, gk = dec(m.payload_serializer, m.payload)
        if sid == NONE:
            wa, wk = a, {}
            gk = gk or {}
        else:
            wa, wk = values.wire_payload(a, k)
        if not same(ga, wa) or not same(gk, wk):
            raise Violation(P, "decoded-wrong", f"{what} in format {sid}: args {wa!r:.80} kwargs {wk!r:.80} decoded to {ga!r:.80}, {gk!r:.80}")
        ctx.probe(f"roundtrip_format_{sid}")
        ctx.state(sid, type(m).__name__, None if a is None else min(len(a), 4), None if k is None else min(len(k), 3), min(len(calls), 6))

    for op in plan["ops"]:
        ctx.tick(0.001)
        k = op[0]
        if k == "call" or k == "chunk":
            if k == "call":
                if not alive:
                    continue
                who = sorted(alive)
                caller, callee = who[op[1] % len(who)], who[op[1] // 7 % len(who)]
                reqs[caller] = req = reqs.get(caller, 0) + 1
                o = {"receive_progress": True}
                if op[5]:
                    o["progress"] = True
            else:
                pool = sorted(c for c, v in calls.items() if v[2])
                if not pool:
                    continue
                caller, req = pool[op[1] % len(pool)]
                callee = calls[caller, req][1]
                o = {"receive_progress": True, **({"progress": True} if op[5] else {})}
            f, sent = fields(op)
            to, m = handle(caller, M.Call(M.CallFields(req, f"p{callee}", options=o, **f)), "CALL")
            if not isinstance(m, M.Invocation) or to != callee:
                raise Violation(("C04",), "misrouted", f"CALL to p{callee} produced {type(m).__name__} for {to}")
            if k == "chunk" and m.request_id != calls[caller, req][0]:
                raise Violation(("C07",), "chunk-misrouted", f"chunk went to invocation {m.request_id}")
            arrived(m, sent, "CALL")
            calls[caller, req] = [m.request_id, callee, bool(op[5])]
            ctx.log(k, caller, req, callee, sent[0], str(sent[3])[:40])
            if len(calls) > 1:
                ctx.fault("concurrent_calls")
        elif k in ("answer", "progress"):
            if calls:
                key = sorted(calls)[op[1] % len(calls)]
                inv, callee, _ = calls[key]
                if k == "answer":
                    del calls[key]
                f, sent = fields(op)
                to, m = handle(callee, M.Yield(M.YieldFields(inv, options={"progress": True} if k == "progress" else {"progress": False} if op[1] % 5 == 0 else {}, **f)), "YIELD")
                if not isinstance(m, M.Result) or (to, m.request_id) != key:
                    raise Violation(("C05",), "misrouted", f"YIELD for call {key} produced {type(m).__name__} for {to}")
                arrived(m, sent, "YIELD")
                ctx.log(k, key, sent[0], str(sent[3])[:40])
        elif k == "error":
            if calls:
                key = sorted(calls)[op[1] % len(calls)]
                inv, callee, _ = calls.pop(key)
                handle(callee, M.Error(M.ErrorFields(68, inv, "a.b", ["x"])), "ERROR")
                ctx.fault("call_fails")
        elif k == "leave":
            if len(alive) > 1:
                s = sorted(alive)[op[1] % len(alive)]
                alive.discard(s)
                d.remove_session(s)
                for key in [c for c, v in calls.items() if s in (c[0], v[1])]:
                    del calls[key]
                ctx.fault("session_left_during_calls")
        elif k == "cut":
            a, kw = real(op[3][0]), real(op[3][1])
            data = enc(op[2], a, kw)
            if data is None or len(data) < 2 or len(data) > 60000:
                continue
            nothing = dec(op[2], b"")
            if nothing[0] not in (None, []) or nothing[1] not in (None, {}):
                raise Violation(P, "nothing-decoded", f"an empty payload in format {op[2]} decoded to {nothing!r:.100}")
            part = bytes(data)[: 1 + op[1] % (len(data) - 1)]
            ctx.fault("payload_truncated")
            refused(lambda: deserialize_payload(op[2], part), "truncated-accepted", f"{part[:40]!r}, cut from {len(data)} bytes in format {op[2]},")
        elif k == "shape":
            ctx.fault("payload_of_wrong_shape")
            v = SHAPES[op[2]]
            refused(lambda: deserialize_payload(op[1], DUMP[op[1]](v)), "shape-accepted", f"payload {v!r} in format {op[1]}")
        elif k == "text":
            ctx.fault("payload_text_damaged")
            bad = NOT_UTF8[op[3]]
            mark = "Q" * len(bad)
            v = {"args": [[1, mark]], "kwargs": [[], {"k": mark}], "key": [[], {mark: 1}]}[op[2]]
            data = bytes(DUMP[op[1]](v)).replace(mark.encode(), bad)
            refused(lambda: deserialize_payload(op[1], data), "text-accepted", f"payload {data!r:.80} in format {op[1]}")
        elif k == "unknown":
            ctx.fault("unknown_payload_serializer")
            refused(lambda: deserialize_payload(op[1], b"[]"), "unknown-accepted", f"payload in format {op[1]}")
            refused(lambda: serialize_payload(op[1], [1], None), "unknown-accepted", f"encoding in format {op[1]}")
        elif k == "unfit":
            # refused, or there is an encoding after all and it holds that value: never another one in its place
            v = UNFIT[op[2]]
            a, kw = [([v], None), ([1, [v]], {"k": 1}), ([], {"k": {"v": v}})][op[3]]
            ctx.fault("value_without_encoding")
            try:
                data = serialize_payload(op[1], a, kw)
            except Exception:
                continue
            ga, gk = dec(op[1], data)
            if not same(ga or [], a) or not same(gk or {}, kw or {}):
                if not (isinstance(v, (bytearray, frozenset, datetime.date)) and ga == a and (gk or {}) == (kw or {})):
                    raise Violation(P, "decoded-wrong", f"format {op[1]}: args {a!r:.80} kwargs {kw!r:.80} decoded to {ga!r:.80}, {gk!r:.80}")
        elif k == "raw":
            ctx.fault("content_the_raw_format_cannot_take")
            a, kw = RAW[op[1]]
            refused(lambda: serialize_payload(NONE, a, kw), "raw-accepted", f"args {a!r} kwargs {kw!r} in the raw format")
        else:
            # a payload under the wrong serializer id: what the named format makes of it decides
            data = DUMP[op[1]]([[op[3], "x"], {"k": op[3]}])
            try:
                ref = LOAD[op[2]](data)
            except Exception:
                ref = None
            ok = isinstance(ref, list) and len(ref) <= 2 and all(isinstance(x, t) for x, t in zip(ref, (list, dict)))
            if not ok:
                ctx.fault("payload_in_another_format")
                refused(lambda: deserialize_payload(op[2], data), "mislabelled-accepted", f"format {op[1]} bytes as format {op[2]}")
    # faults are over: every call that is still open is answered, opaquely
    for key in sorted(calls):
        inv, callee, _ = calls[key]
        f, sent = fields(["answer", 0, 1 + inv % 3, [["final", inv], {"k": inv}], False, False])
        to, m = handle(callee, M.Yield(M.YieldFields(inv, **f)), "YIELD")
        if not isinstance(m, M.Result) or (to, m.request_id) != key:
            raise Violation(("C05",), "misrouted", f"YIELD for call {key} produced {type(m).__name__} for {to}")
        arrived(m, sent, "YIELD")
