"""Messages of every kind crossing simulated connections: chains of peers with different serializers, framed streams that
fragment, coalesce and die mid-frame, and frames damaged on the way. The layouts come from wampspec, not from the library.
"""

import json

import cbor2
import msgpack
from wampproto import serializers
from wampproto.transports import rawsocket as rs

from dst import alien, seams, values, wampspec
from dst.engine import Violation, canon, same

NAME = "wire"
SER = {"json": serializers.JSONSerializer, "cbor": serializers.CBORSerializer, "msgpack": serializers.MsgPackSerializer}
ID = {"json": rs.SERIALIZER_TYPE_JSON, "cbor": rs.SERIALIZER_TYPE_CBOR, "msgpack": rs.SERIALIZER_TYPE_MSGPACK}


def plain(v):
    """Plan form of a value (JSON-able)."""
    if isinstance(v, bytes):
        return {"$b": v.hex()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def real(v):
    if isinstance(v, dict):
        if set(v) == {"$b"}:
            return bytes.fromhex(v["$b"])
        return {k: real(x) for k, x in v.items()}
    if isinstance(v, list):
        return [real(x) for x in v]
    return v


def ident(rng):
    return rng.choice(values.REQUEST_IDS) if rng.random() < 0.7 else rng.randint(1, 2**53)


def string(rng):
    if rng.random() < 0.05:
        return values.word(rng)
    return rng.choice(values.NAMES) if rng.random() < 0.8 else rng.choice(values.STRS[:-1])


def mapping(rng, binary):
    if rng.random() < 0.4:
        return {}
    d = {values.key(rng): values.value(rng) for _ in range(rng.choice([1, 1, 2, 3]))}
    if rng.random() < 0.3:
        d.update(rng.sample(values.NOISE, 2))
    if binary and rng.random() < 0.3:
        d["bin"] = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 23, 24, 300])))
    return d


def arglist(rng, binary):
    a = values.args(rng)
    if a and binary and rng.random() < 0.3:
        a = a + [bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 31, 256])))]
    return a


METHODS = ["anonymous", "ticket", "wampcra", "cryptosign", "scram", "cookie", "tls"]
META = ["wamp.session.on_join", "wamp.session.on_leave", "wamp.session.count", "wamp.session.kill", "wamp.registration.get", "wamp.subscription.list", "wamp.subscription.on_create"]


def fields(rng, kind, binary=False):
    _, spec, has_payload = wampspec.LAYOUT[kind]
    out = {}
    for name, code in spec:
        if code in "HW":
            out["roles"] = {r: rng.choice([{}, {"features": {}}, {"features": {"x": True}}])
                            for r in rng.sample(wampspec.ROLES, rng.choice([1, 2, 4, 6]))}
            for k in wampspec.DETAIL_KEYS[code]:
                if rng.random() < 0.6:
                    out[k] = (mapping(rng, binary) if k == "authextra" else
                              [string(rng) for _ in range(rng.choice([0, 1, 3]))] if k == "authmethods" else string(rng))
        elif code == "i":
            out[name] = ident(rng)
        elif code == "t":
            out[name] = rng.choice([16, 32, 34, 48, 64, 66, 68, 68, 48])
        elif code == "s":
            known = {"uri": values.URIS, "reason": values.URIS, "authmethod": METHODS, "topic": META, "procedure": META}.get(name)
            out[name] = rng.choice(known) if known and rng.random() < 0.4 else string(rng)
        else:
            out[name] = mapping(rng, binary)
    if has_payload:
        out["args"] = arglist(rng, binary)
        out["kwargs"] = values.kwargs(rng)
        if rng.random() < 0.01:
            out["args"] = values.heavy_args(rng)
        if rng.random() < 0.01:
            out["kwargs"] = values.heavy_kwargs(rng)
    return out


def generate(rng, focus=None, large=False):
    chains = []
    for _ in range(rng.choice([1, 2, 3])):
        chains.append([rng.choice(list(SER)) for _ in range(rng.choice([1, 1, 2, 3]))])
    nops = rng.choice([10, 30, 60]) if not large else 500
    damage = rng.choice([0, 2, 6]) if focus != "C18" else rng.choice([4, 10])
    w = {"send": 10, "deliver": 12, "cut": rng.choice([0, 0.5, 2]), "damage": damage, "flip": damage, "ping": 1, "unfit": 0.5, "alien": 3}
    if focus == "C23":
        w["damage"] = w["flip"] = 0.5
    kinds, weights = zip(*w.items())
    names = list(wampspec.LAYOUT)
    ops = []
    for k in rng.choices(kinds, weights, k=nops):
        link = rng.randrange(len(chains))
        binary = "json" not in chains[link]
        if k == "send":
            kind = rng.choice(names)
            ops.append([k, link, kind, plain(fields(rng, kind, binary)), rng.random() < 0.2])
        elif k == "deliver":
            ops.append([k, link, rng.randrange(4), rng.choice([1, 2, 3, 4, 5, 7, 16, 64, 300, 5000, 10**6])])
        elif k == "cut":
            ops.append([k, link, rng.randrange(4), rng.randrange(1000)])
        elif k == "unfit":
            ops.append([k, rng.choice(list(SER)), rng.choice([n for n in names if wampspec.LAYOUT[n][2]]), rng.randrange(16), rng.randrange(4)])
        elif k == "alien":
            name, kind = rng.choice(list(SER)), rng.choice(names)
            ops.append([k, name, kind, plain(fields(rng, kind, name != "json")), rng.randrange(10**6)])
        elif k == "damage":
            kind = rng.choice(names)
            f = fields(rng, kind, False)
            ops.append([k, rng.choice(list(SER)), kind, plain(f), rng.choice(
                ["shorten", "lengthen", "wrongtype", "range", "badtype", "nolist", "detail", "kwargs", "wrongtype", "range"]),
                rng.randrange(1000), rng.randrange(1000)])
        elif k == "flip":
            kind = rng.choice(names)
            ops.append([k, rng.choice(list(SER)), kind, plain(small_fields(rng, kind)),
                        rng.choice(["bit", "byte", "cut", "insert", "delete", "swap", "append"]), rng.randrange(10**6), rng.randrange(10**6)])
        else:
            ops.append([k, link, rng.choice([1, 2]), rng.choice([0, 1, 5, 200])])
    return {"scenario": NAME, "config": {"chains": chains, "shared": rng.random() < 0.5}, "ops": ops}


def small_fields(rng, kind):
    f = fields(rng, kind, False)
    for k, v in list(f.items()):
        if len(repr(v)) > 2000:
            f[k] = {"x": 1} if isinstance(v, dict) else ["x"] if isinstance(v, list) else "x"
    return f


def encode(name, v):
    return {"json": lambda: json.dumps(v), "cbor": lambda: cbor2.dumps(v), "msgpack": lambda: msgpack.packb(v)}[name]()


def decode(name, data):
    return {"json": lambda: json.loads(data), "cbor": lambda: cbor2.loads(data), "msgpack": lambda: msgpack.unpackb(data)}[name]()


# tags under which a decoder without the extension reads something else: string references and shared values
EXTENSION_TAGS = {25, 256, 28, 29}


def cbor_tags(data):
    """The tags in a CBOR item that uses definite or indefinite lengths."""
    tags, pos, stop = set(), 0, len(data)
    while pos < stop:
        major, info = data[pos] >> 5, data[pos] & 31
        pos += 1
        n = info
        if 24 <= info <= 27:
            w = 1 << (info - 24)
            n = int.from_bytes(data[pos:pos + w], "big")
            pos += w
        if major in (2, 3) and info != 31:
            pos += n
        elif major == 6:
            tags.add(n)
    return tags


KEPT = {}  # the serializer objects of a run, when one serves everything


def a_serializer(name):
    """An application makes a serializer for each connection or keeps one for them all."""
    if name in KEPT:
        return KEPT[name]
    return SER[name]()


class Hop:
    """One direction of one connection: a byte stream with RawSocket frames."""

    def __init__(self, ser):
        self.name = ser
        self.tx = a_serializer(ser)
        self.rx = a_serializer(ser)
        self.sent = []  # what the frames in the stream carry: ("msg", kind, wire array) or ("ping", kind, payload)
        self.stream = b""
        self.buf = b""
        self.need = None


def default(kind, f):
    """Field values a reader sees: absent optional containers of WELCOME are an empty dict."""
    return f


class Link:
    def __init__(self, ctx, ix, chain):
        self.ctx = ctx
        self.ix = ix
        self.hops = [Hop(s) for s in chain]
        self.delivered = 0

    def put(self, h, kind, msg, arr):
        hop = self.hops[h]
        try:
            data = hop.tx.serialize(msg)
        except Exception as e:
            raise Violation(("C23",), "not-serialized", f"{kind} {arr!r:.200} in {hop.name}: {type(e).__name__} {e}")
        got = decode(hop.name, data)
        if hop.name == "cbor":
            odd = sorted(cbor_tags(data) & EXTENSION_TAGS)
            if odd:
                raise Violation(("C23",), "extension", f"cbor frame of {kind} {arr!r:.150} uses tags {odd}, which only some decoders know")
        if not same(got, arr):
            raise Violation(("C23",), "layout", f"{hop.name} frame of {kind} {arr!r:.250} is {got!r:.250}")
        raw = data.encode() if isinstance(data, str) else data
        hop.stream += rs.MessageHeader(0, len(raw)).to_bytes() + raw
        hop.sent.append(("msg", kind, arr))

    def feed(self, h, n):
        hop = self.hops[h]
        part, hop.stream = hop.stream[:n], hop.stream[n:]
        hop.buf += part
        if part and hop.stream:
            self.ctx.fault("fragmented_delivery")
        while True:
            if hop.need is None:
                if len(hop.buf) < 4:
                    return
                hop.need = rs.MessageHeader.from_bytes(hop.buf[:4])
                hop.buf = hop.buf[4:]
            if len(hop.buf) < hop.need.length:
                return
            body, hop.buf = hop.buf[:hop.need.length], hop.buf[hop.need.length:]
            kind_no = hop.need.kind
            hop.need = None
            self.frame(h, kind_no, body)

    def frame(self, h, kind_no, body):
        hop = self.hops[h]
        if not hop.sent:
            raise Violation(("C19", "C23"), "phantom-frame", f"link {self.ix} hop {h} yields a frame nobody sent")
        what, kind, arr = hop.sent.pop(0)
        if what == "ping":
            if kind_no != kind or body != arr:
                raise Violation(("C19",), "ping", f"control frame {kind} of {len(arr)} bytes arrived as {kind_no}, {len(body)} bytes")
            return
        if kind_no != 0:
            raise Violation(("C19",), "frame-kind", f"WAMP frame arrived as kind {kind_no}")
        data = body.decode() if hop.name == "json" else body
        try:
            msg = hop.rx.deserialize(data)
        except Exception as e:
            raise Violation(("C23",), "refused", f"{hop.name} frame of {kind} {arr!r:.250} refused: {type(e).__name__} {e}")
        compare(self.ctx, ("C23",), hop.name, kind, arr, msg)
        if h + 1 == len(self.hops) and len(body) < 2000:
            # the message is the receiver's, whatever becomes of it; the same bytes still say the same
            if spoil(msg):
                self.ctx.probe("decoded_message_spoilt")
            try:
                again = hop.rx.deserialize(data)
            except Exception as e:
                raise Violation(("C23", "C21"), "refused", f"{hop.name} frame of {kind} {arr!r:.250} refused the second time: {type(e).__name__} {e}")
            compare(self.ctx, ("C23", "C21"), hop.name, kind, arr, again)
        self.ctx.log("link", self.ix, h, kind, len(body))
        self.ctx.probe("crossed_" + hop.name)
        self.ctx.state("w", kind, hop.name, len(arr))
        if h + 1 < len(self.hops):
            self.put(h + 1, kind, msg, arr)
            self.ctx.probe("relayed")
        else:
            self.delivered += 1


def spoil(msg):
    n = 0
    for name in ("args", "kwargs", "options", "details", "roles", "authextra", "extra", "authmethods"):
        v = getattr(msg, name, None)
        if isinstance(v, dict):
            v["spoilt"] = True
        elif isinstance(v, list):
            v.append("spoilt")
        else:
            continue
        n += 1
    return n


def compare(ctx, props, ser, kind, arr, msg):
    cls = wampspec.CLS[kind][0]
    if type(msg) is not cls:
        raise Violation(props, "wrong-kind", f"{ser} frame of {kind} decoded as {type(msg).__name__}")
    want = wampspec.expected(kind, arr)
    got = wampspec.read(kind, msg)
    for k, v in want.items():
        if not same(got[k], v):
            if kind == "welcome" and k == "authextra" and not v and not got[k]:
                continue
            raise Violation(props, "field-changed", f"{ser} {kind}.{k}: sent {v!r:.200}, decoded {got[k]!r:.200}")


def execute(plan, ctx):
    KEPT.clear()
    if plan["config"].get("shared"):
        KEPT.update({n: SER[n]() for n in sorted(SER)})
        ctx.probe("one_serializer_for_all")
    links = [Link(ctx, i, c) for i, c in enumerate(plan["config"]["chains"])]
    for op in plan["ops"]:
        ctx.tick(0.001)
        k = op[0]
        if k in ("send", "deliver", "cut", "ping"):
            link = links[op[1] % len(links)]
        if k == "send":
            f = real(op[3] or {})
            kind = op[2]
            arr = safe_wire(kind, f)
            if arr is None or wampspec.judge(arr)[1]:
                continue
            if kind == "welcome" and "authextra" not in arr[2]:
                arr[2]["authextra"] = {}
            if op[4] and f.get("args"):
                # the same objects at several places
                box = {"box": f["args"][0]}
                f["args"] = [box, f["args"][0], box, [box]]
                f["kwargs"] = {**(f.get("kwargs") or {}), "same": box}
                arr = wampspec.wire(kind, f)
                ctx.probe("shared_objects")
            link.put(0, kind, wampspec.build(kind, f), arr)
        elif k == "deliver":
            link.feed(op[2] % len(link.hops), op[3])
        elif k == "ping":
            hop = link.hops[0]
            hop.stream += rs.MessageHeader(op[2], op[3]).to_bytes() + b"p" * op[3]
            hop.sent.append(("ping", op[2], b"p" * op[3]))
        elif k == "cut":
            h = op[2] % len(link.hops)
            hop = link.hops[h]
            keep = op[3] % (len(hop.stream) + 1)
            hop.stream = hop.stream[:keep]
            link.feed(h, keep)
            ctx.fault("connection_cut_mid_frame" if hop.buf or hop.need is not None else "connection_cut")
            # a half received frame handed to the decoder by a careless application
            if hop.need is not None and hop.need.kind == 0 and 0 < len(hop.buf) < 60000:
                refuse(ctx, hop.name, hop.buf, "half a frame")
            link.hops[h] = Hop(hop.name)
        elif k == "unfit":
            unfit(ctx, op)
        elif k == "alien":
            foreign(ctx, op)
        elif k == "damage":
            damage(ctx, op)
        elif k == "flip":
            flip(ctx, op)
    # faults stop: everything in flight arrives
    for link in links:
        for h in range(len(link.hops)):
            link.feed(h, len(link.hops[h].stream))
            if link.hops[h].sent:
                raise Violation(("C19", "C23"), "lost-frame", f"{len(link.hops[h].sent)} frames never arrived on link {link.ix}")


def foreign(ctx, op):
    """A frame of another implementation, which encodes the same array in other ways."""
    _, name, kind, f, salt = op
    arr = safe_wire(kind, real(f or {}))
    if arr is None or wampspec.judge(arr)[1]:
        return
    if kind == "welcome" and "authextra" not in arr[2]:
        arr[2]["authextra"] = {}
    try:
        data = alien.encode(name, arr, seams.Random(salt))
    except (ValueError, UnicodeEncodeError):
        return
    if not same(decode(name, data), arr):
        raise AssertionError(f"the other encoder is wrong: {name} {kind} {arr!r:.300}")
    try:
        msg = a_serializer(name).deserialize(data)
    except Exception as e:
        raise Violation(("C23",), "refused", f"{name} {kind} of another implementation, {data!r:.200}, refused: {type(e).__name__} {str(e)[:200]}")
    compare(ctx, ("C23",), name, kind, arr, msg)
    ctx.probe("foreign_encoding_" + name)


class Alien:
    """Nothing any serializer knows."""


def unfit(ctx, op):
    _, name, kind, what, where = op
    bad = [Alien(), Alien, {Alien(): 1}, {"deep": [[{"x": Alien()}]]}, [1, [Alien()]], lambda: None, {"k": {Alien(): "v"}}, {"s": Alien},
           # JSON alone cannot take these
           {"k": {("a", 1): "v"}} if name == "json" else Alien(), [b"bytes"] if name == "json" else {Alien(): None},
           # some take these and some do not
           "a\ud800", {"k\udfff": 1}, [2**64], [-(2**63) - 1], {"x": 2**70}, ["\udc80\ud800"]][what]
    f = fields(seams.Random(where), kind)
    f["args"], f["kwargs"] = ([["ok", bad], [bad], [bad, "ok"], ["ok"]][where], {"k": bad} if where == 3 else {"k": 1})
    try:
        data = a_serializer(name).serialize(wampspec.build(kind, f))
    except Exception:
        ctx.fault("value_without_an_encoding")
        # the next message is not touched by it
        g = {**fields(seams.Random(where + 10), kind), "args": ["next"], "kwargs": {"n": where}}
        arr = safe_wire(kind, g)
        if arr is None or wampspec.judge(arr)[1]:
            return
        try:
            data = a_serializer(name).serialize(wampspec.build(kind, g))
            got = decode(name, data)
        except Exception as e:
            raise Violation(("C23",), "layout", f"{name} {kind} after one that could not be encoded: {type(e).__name__} {str(e)[:150]}")
        if not same(got, arr):
            raise Violation(("C23",), "layout", f"{name} frame of {kind} {arr!r:.200} after one that could not be encoded is {got!r:.200}")
        return
    if what >= 10:
        try:
            m = a_serializer(name).deserialize(data)
        except Exception as e:
            raise Violation(("C23",), "unfit-sent", f"{name} {kind} with args {f['args']!r:.100} was serialized, then refused: {type(e).__name__} {str(e)[:100]}")
        if not same(m.args, f["args"]) or not same(m.kwargs, f["kwargs"]):
            raise Violation(("C23",), "unfit-sent", f"{name} {kind} with args {f['args']!r:.100} kwargs {f['kwargs']!r:.100} arrived as {m.args!r:.100} {m.kwargs!r:.100}")
        ctx.probe("uncommon_value_carried")
        return
    raise Violation(("C23",), "unfit-sent", f"{name} {kind} with args {f['args']!r:.100} kwargs {f['kwargs']!r:.100} was serialized to {data!r:.150}")


def safe_wire(kind, f):
    try:
        return wampspec.wire(kind, f)
    except KeyError:
        return None


def refuse(ctx, ser, data, why):
    s = a_serializer(ser)
    try:
        if ser == "json" and isinstance(data, bytes):
            data = data.decode()
    except UnicodeDecodeError:
        return
    try:
        m = s.deserialize(data)
    except Exception:
        ctx.fault("frame_refused_" + ser)
        return
    raise Violation(("C18",), "garbage-accepted", f"{ser}: {why}: {data!r:.160} decoded as {canon(m)[:120]}")


def accept_or_refuse(ctx, ser, data, note):
    """Judge a possibly damaged frame by the specification."""
    try:
        arr = decode(ser, data)
    except Exception:
        refuse(ctx, ser, data, note + ": not decodable")
        return
    try:
        kind, why = wampspec.judge(arr)
    except Exception:  # e.g. unhashable or exotic types out of a damaged frame
        return
    if why:
        refuse(ctx, ser, data, f"{note}: {why}")
        return
    try:
        msg = a_serializer(ser).deserialize(data)
    except Exception as e:
        raise Violation(("C23",), "refused", f"{ser} frame {arr!r:.250} refused: {type(e).__name__} {e}")
    try:
        compare(ctx, ("C23", "C18"), ser, kind, arr, msg)
    except RecursionError:  # cyclic CBOR out of a damaged frame
        return
    ctx.probe("damaged_but_valid")


WRONG = [None, True, False, 1.5, "x", [], {}, [1], {"a": 1}, 7, "", 0]
NO_ROLES = ["caller.x", "caller.", "Caller", "CALLER", "caller ", " caller", "", "callers", "calle", "call", "caller\n", "caller/callee", "broker,dealer", "router", "client", "None"]
RANGE = [0, -1, 2**53 + 1, 2**63 - 1, -(2**53), True, 1.0, "1", None]


def damage(ctx, op):
    _, ser, kind, f, how, a, b = op
    arr = safe_wire(kind, real(f or {}))
    if arr is None:
        return
    if how == "shorten":
        arr = arr[:a % len(arr)]
    elif how == "lengthen":
        arr = arr + ([[], {}, 1, "x", None][: 1 + a % 4] if b % 2 else [[None, {}, [], "", 0, False, 1, "x"][a % 8]] * (1 + b % 4 // 2))
    elif how == "wrongtype":
        # the optional fields at the end are the ones most easily forgotten
        n = len(arr)
        arr[1 + a % (n - 1) if a % 5 < 3 else n - 1 - a % 2] = WRONG[b % len(WRONG)]
    elif how == "range":
        spots = [i for i in range(1, len(arr)) if wampspec.is_int(arr[i])]
        if not spots:
            return
        arr[spots[a % len(spots)]] = RANGE[b % len(RANGE)]
    elif how == "badtype":
        arr[0] = [0, -1, 7, 9, 15, 999, "1", None, True, 1.0, float(arr[0]), str(arr[0]), [arr[0]], 2**60][a % 14]
    elif how == "nolist":
        whole = dict(enumerate(arr)) if ser != "json" else {str(i): v for i, v in enumerate(arr)}
        arr = [{"0": arr[0]}, arr[0], str(arr[0]), None, "[]", {}, whole, [arr], json.dumps(arr), {"message": arr}][a % 10]
    elif how == "detail":
        i = next((i for i in range(1, len(arr)) if isinstance(arr[i], dict)), None)
        if i is None:
            return
        arr[i] = dict(arr[i])
        key = ["roles", "authid", "authrole", "authmethod", "authmethods", "authextra"][a % 6]
        arr[i][key] = [None, {}, [], 7, "x", {"x": {}}, ["y"], {"caller": {}, "x": {}}, *([{r: {}} for r in NO_ROLES] if key == "roles" else [])][b % (8 + len(NO_ROLES) * (key == "roles"))]
    elif how == "kwargs":
        arr = arr[: len(wampspec.LAYOUT[kind][1]) + 1] + [[{}, []], [[], []], [[], None], [None, {}], ["x"], [[], "x"], [0], [[], 0], [[], ""], [[], False], [""], [False],
                                                               [b"" if ser != "json" else "", {}], [[], 0.0], [[1], {}, {}], [[], [[]]], [{}, {}]][a % 17]
    ctx.fault("structural_damage_" + how)
    accept_or_refuse(ctx, ser, encode(ser, arr), how)


def flip(ctx, op):
    _, ser, kind, f, how, a, b = op
    arr = safe_wire(kind, real(f or {}))
    if arr is None:
        return
    data = encode(ser, arr)
    raw = bytearray(data.encode() if isinstance(data, str) else data)
    if len(raw) > 60000 or not raw:
        return
    i = a % len(raw)
    if how == "bit":
        raw[i] ^= 1 << (b % 8)
    elif how == "byte":
        raw[i] = b % 256
    elif how == "cut":
        raw = raw[:i]
    elif how == "insert":
        raw[i:i] = bytes([b % 256])
    elif how == "delete":
        del raw[i]
    elif how == "swap":
        j = b % len(raw)
        raw[i], raw[j] = raw[j], raw[i]
    elif how == "append":
        if ser == "cbor":
            return  # cbor2 itself stops after the first item (see DESIGN.md)
        raw += bytes([b % 256])
    raw = bytes(raw)
    ctx.fault("wire_damage_" + how)
    if ser == "json":
        try:
            raw = raw.decode()
        except UnicodeDecodeError:
            return
    if how == "cut":
        refuse(ctx, ser, raw, "cut")
    else:
        accept_or_refuse(ctx, ser, raw, how)
