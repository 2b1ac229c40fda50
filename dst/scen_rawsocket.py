"""RawSocket handshake and framing over a simulated byte stream: every negotiated size, frame sizes up to the 24 bit limit,
arbitrary fragmentation, damaged handshakes and headers. Expected bytes come from the WAMP specification.
"""

from wampproto.transports import rawsocket as rs

from dst.engine import Violation

NAME = "rawsocket"
SIZES = [0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537, 2**20 - 1, 2**20, 2**23, 2**24 - 2, 2**24 - 1]


def generate(rng, focus=None, large=False):
    nops = rng.choice([5, 20, 60]) if not large else 400
    ops = []
    big = rng.choice([0, 0, 0, 1, 3])
    for k in rng.choices(["frame", "deliver", "hs", "badhs", "badheader", "toolong", "renegotiate", "oddhs", "badlimit"], [8, 10, 3, 3, 1, 1, 1, 1, 1], k=nops):
        if k == "frame":
            n = rng.choice(SIZES) if rng.random() < 0.5 else rng.randrange(0, 5000)
            if n > 70000:
                big -= 1
                if big < 0:
                    n = n % 70000
            ops.append([k, rng.choice([0, 0, 0, 1, 2]), n, rng.randrange(256)])
        elif k == "deliver":
            ops.append([k, rng.choice([1, 2, 3, 4, 5, 8, 100, 1000, 65536, 2**22, 2**25])])
        elif k in ("hs", "renegotiate"):
            ops.append([k, rng.choice([1, 2, 3, 3, rng.randrange(16)]), rng.randrange(9, 25), rng.randrange(3)])
        elif k == "badhs":
            ops.append([k, rng.randrange(1, 4), rng.randrange(9, 25), rng.choice(["magic", "third", "fourth", "both", "short", "long", "empty"]),
                        rng.randrange(1, 256)])
        elif k == "oddhs":
            exp = rng.randrange(9, 24)
            ops.append([k, rng.randrange(1, 4), 2**exp + rng.choice([0, 1, 2**exp - 1, 2**exp // 2, rng.randrange(2**exp)])])
        elif k == "badlimit":
            ops.append([k, rng.randrange(1, 4), rng.choice([-1, 0, 1, 2, 100, 255, 256, 511, 2**25, 2**25 + 1, 2**26, 2**32, 2**40])])
        elif k == "badheader":
            ops.append([k, rng.choice([0, 1, 2, 3, 5, 6, 100])])
        else:
            ops.append([k, rng.choice([2**24, 2**24 + 1, 2**24 + 5, 2**25, 2**32, -1, -(2**24)])])
    return {"scenario": NAME, "config": {}, "ops": ops}


def header(kind, n):
    return bytes([kind, n >> 16 & 255, n >> 8 & 255, n & 255])


def refused(fn, props, kind, what):
    try:
        r = fn()
    except Exception:
        return
    raise Violation(props, kind, f"{what} gave {r!r:.80}")


# what the specification calls each serializer and frame kind on the wire
NAMED = {"SERIALIZER_TYPE_JSON": 1, "SERIALIZER_TYPE_MSGPACK": 2, "SERIALIZER_TYPE_CBOR": 3, "MSG_TYPE_WAMP": 0, "MSG_TYPE_PING": 1, "MSG_TYPE_PONG": 2}


def execute(plan, ctx):
    for name, want in NAMED.items():
        if getattr(rs, name, None) != want:
            raise Violation(("C19",), "constant", f"{name} is {getattr(rs, name, None)!r}, on the wire it is {want}")
    sent, stream, buf, need = [], [], bytearray(), None
    pend = 0

    def push(data):
        stream.append(data)

    def pull(n):
        nonlocal need
        while n and stream:
            head = stream[0]
            part = head[:n]
            if len(part) == len(head):
                stream.pop(0)
            else:
                stream[0] = head[len(part):]
            n -= len(part)
            buf.extend(part)
        if stream:
            ctx.fault("fragmented_delivery")
        while True:
            if need is None:
                if len(buf) < 4:
                    return
                raw = bytes(buf[:4])
                del buf[:4]
                if sent and sent[0][0] == "hs":
                    check_hs(raw)
                    continue
                given = bytearray(raw) if raw[3] & 1 else raw  # a receive buffer is often a bytearray
                need = parse(lambda: rs.MessageHeader.from_bytes(given), f"header {raw.hex()}")
                if not isinstance(getattr(need, "length", None), int):
                    raise Violation(("C19",), "no-header", f"header {raw.hex()} was read as {need!r:.80}")
            if not sent:
                raise Violation(("C19",), "phantom-frame", f"a frame of {need.length} bytes that nobody sent")
            if len(buf) < need.length:
                return
            body = bytes(buf[:need.length])
            del buf[:need.length]
            _, kind, n, fill = sent.pop(0)
            if need.kind != kind or need.length != n or body != bytes([fill]) * n:
                raise Violation(("C19",), "wrong-frame", f"sent kind {kind} of {n} bytes, received kind {need.kind} of {need.length}")
            ctx.log("frame", kind, n)
            ctx.probe("frame_big" if n > 65535 else "frame_empty" if n == 0 else "frame")
            ctx.state("f", kind, n.bit_length())
            need = None

    def parse(fn, what):
        try:
            return fn()
        except Exception as e:
            raise Violation(("C19",), "refused", f"{what}: {type(e).__name__} {e}")

    def check_hs(raw):
        _, proto, exp, _ = sent.pop(0)
        h = parse(lambda: rs.Handshake.from_bytes(raw), f"handshake {raw.hex()}")
        if getattr(h, "protocol", None) != proto or getattr(h, "max_msg_size", None) != 1 << exp:
            raise Violation(("C19",), "wrong-handshake",
                            f"protocol {proto}, 2^{exp} bytes arrived as {getattr(h, 'protocol', h)!r:.60}, {getattr(h, 'max_msg_size', None)!r} bytes")
        ctx.log("handshake", proto, exp)
        ctx.probe("handshake")
        ctx.state("h", proto, exp)

    for op in plan["ops"]:
        ctx.tick(0.001)
        k = op[0]
        if k == "frame":
            h = rs.MessageHeader(op[1], op[2])
            raw = parse(h.to_bytes, f"header of kind {op[1]}, {op[2]} bytes")
            if not isinstance(raw, (bytes, bytearray)) or bytes(raw) != header(op[1], op[2]):
                raise Violation(("C19",), "header-bytes", f"kind {op[1]}, {op[2]} bytes encoded as {raw!r:.60}")
            push(bytes(raw) + bytes([op[3]]) * op[2])
            sent.append(("frame", op[1], op[2], op[3]))
        elif k == "deliver":
            pull(op[1])
        elif k in ("hs", "renegotiate"):
            proto, exp = op[1], op[2]
            raw = parse(rs.Handshake(proto, 1 << exp).to_bytes, f"handshake protocol {proto}, 2^{exp} bytes")
            want = bytes([0x7F, (exp - 9) << 4 | proto, 0, 0])
            if not isinstance(raw, (bytes, bytearray)) or bytes(raw) != want:
                raise Violation(("C19",), "handshake-bytes", f"protocol {proto}, 2^{exp} bytes encoded as {raw!r:.60}, not {want.hex()}")
            push(want)
            sent.append(("hs", proto, exp, 0))
        elif k == "badhs":
            good = bytes([0x7F, (op[2] - 9) << 4 | op[1], 0, 0])
            bad = bytearray(good)
            how, x = op[3], op[4]
            if how == "magic":
                bad[0] ^= x
            elif how == "third":
                bad[2] = x
            elif how == "fourth":
                bad[3] = x
            elif how == "both":
                bad[2] = bad[3] = x
            elif how == "short":
                bad = bad[:x % 4]
            elif how == "long":
                bad += bytes([x])
            else:
                bad = bytearray()
            ctx.fault("handshake_damaged_" + how)
            refused(lambda: rs.Handshake.from_bytes(bytes(bad)), ("C19",), "bad-handshake-accepted", f"handshake {bytes(bad).hex()}")
        elif k == "oddhs":
            # a limit that the handshake cannot name exactly
            raw = parse(rs.Handshake(op[1], op[2]).to_bytes, f"handshake of {op[2]} bytes")
            h = parse(lambda: rs.Handshake.from_bytes(bytes(raw)), f"handshake {bytes(raw).hex()}")
            if getattr(h, "protocol", None) != op[1] or not 0 < getattr(h, "max_msg_size", 0) <= op[2]:
                raise Violation(("C19",), "limit-exceeded", f"a peer that takes {op[2]} bytes announced {getattr(h, 'max_msg_size', h)!r:.60}")
            ctx.probe("limit_between_powers")
        elif k == "badlimit":
            ctx.fault("limit_the_handshake_cannot_name")
            refused(lambda: rs.Handshake(op[1], op[2]).to_bytes(), ("C19",), "limit-announced", f"a handshake for {op[2]} bytes")
        elif k == "badheader":
            ctx.fault("header_of_wrong_size")
            refused(lambda: rs.MessageHeader.from_bytes(b"\0" * op[1]), ("C19",), "bad-header-accepted", f"a header of {op[1]} bytes")
        else:
            ctx.fault("length_does_not_fit")
            refused(lambda: rs.MessageHeader(0, op[1]).to_bytes(), ("C19",), "length-truncated", f"header for {op[1]} bytes")
    while stream:
        pull(2**25)
    if sent or buf or need is not None:
        raise Violation(("C19",), "lost-frame", f"{len(sent)} frames never arrived")
