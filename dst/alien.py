"""Encoders for the three formats that make other, equally correct choices than the ones the library uses."""

import json
import struct


def encode(name, v, rng):
    return {"json": json_text, "cbor": cbor, "msgpack": msgpack}[name](v, rng)


def json_text(v, rng):
    sep = rng.choice([(",", ":"), (", ", ": "), (" ,\n\t", " : "), ("\r\n,", ":\n")])
    text = json.dumps(v, ensure_ascii=rng.random() < 0.4, separators=sep, indent=rng.choice([None, None, 1]))
    if rng.random() < 0.3:
        text = rng.choice(["", " ", "\n"]) + text + rng.choice(["", "\n", " \t"])
    if rng.random() < 0.3:
        text = text.replace("/", "\\/")
    try:
        raw = text.encode()
    except UnicodeEncodeError:  # lone surrogates have no bytes
        return text
    return raw if rng.random() < 0.5 else text


def head(major, n, rng):
    need = 0 if n < 24 else 1 if n < 2**8 else 2 if n < 2**16 else 4 if n < 2**32 else 8
    w = rng.choice([x for x in (0, 1, 2, 4, 8) if x >= need]) if rng.random() < 0.5 else need
    if w == 0:
        return bytes([major << 5 | n])
    return bytes([major << 5 | {1: 24, 2: 25, 4: 26, 8: 27}[w]]) + n.to_bytes(w, "big")


def cbor(v, rng):
    if v is None:
        return b"\xf6"
    if v is True or v is False:
        return b"\xf5" if v else b"\xf4"
    if isinstance(v, int):
        if not -2**64 <= v < 2**64:
            raise ValueError(v)
        return head(0, v, rng) if v >= 0 else head(1, -1 - v, rng)
    if isinstance(v, float):
        for code, fmt in ((b"\xf9", ">e"), (b"\xfa", ">f")):
            try:
                raw = struct.pack(fmt, v)
            except OverflowError:
                continue
            if struct.unpack(fmt, raw)[0] == v and rng.random() < 0.6:
                return code + raw
        return b"\xfb" + struct.pack(">d", v)
    if isinstance(v, (str, bytes)):
        major = 3 if isinstance(v, str) else 2
        if rng.random() < 0.3 and len(v) < 2000:
            cut = rng.randrange(len(v) + 1)
            parts = [x.encode() if major == 3 else x for x in (v[:cut], v[cut:])]
            return bytes([major << 5 | 31]) + b"".join(head(major, len(x), rng) + x for x in parts) + b"\xff"
        raw = v.encode() if major == 3 else v
        return head(major, len(raw), rng) + raw
    if isinstance(v, (list, tuple)):
        body = b"".join(cbor(x, rng) for x in v)
        return b"\x9f" + body + b"\xff" if rng.random() < 0.3 else head(4, len(v), rng) + body
    if isinstance(v, dict):
        body = b"".join(cbor(k, rng) + cbor(x, rng) for k, x in v.items())
        return b"\xbf" + body + b"\xff" if rng.random() < 0.3 else head(5, len(v), rng) + body
    raise ValueError(type(v))


def sized(n, forms, rng):
    """forms: (limit, prefix function) from the tightest to the widest."""
    fit = [f for limit, f in forms if n < limit]
    return rng.choice(fit)(n) if rng.random() < 0.5 else fit[0](n)


def be(code, w):
    return lambda n: bytes([code]) + n.to_bytes(w, "big")


def msgpack(v, rng):
    if v is None:
        return b"\xc0"
    if v is True or v is False:
        return b"\xc3" if v else b"\xc2"
    if isinstance(v, int):
        forms = []
        if 0 <= v < 128 or -32 <= v < 0:
            forms.append(struct.pack("b", v))
        for code, fmt in ((0xcc, ">B"), (0xcd, ">H"), (0xce, ">I"), (0xcf, ">Q"), (0xd0, ">b"), (0xd1, ">h"), (0xd2, ">i"), (0xd3, ">q")):
            try:
                forms.append(bytes([code]) + struct.pack(fmt, v))
            except struct.error:
                pass
        if not forms:
            raise ValueError(v)
        return rng.choice(forms)
    if isinstance(v, float):
        try:
            raw = struct.pack(">f", v)
            if struct.unpack(">f", raw)[0] == v and rng.random() < 0.5:
                return b"\xca" + raw
        except OverflowError:
            pass
        return b"\xcb" + struct.pack(">d", v)
    if isinstance(v, str):
        raw = v.encode()
        return sized(len(raw), [(32, lambda n: bytes([0xa0 | n])), (2**8, be(0xd9, 1)), (2**16, be(0xda, 2)), (2**32, be(0xdb, 4))], rng) + raw
    if isinstance(v, bytes):
        return sized(len(v), [(2**8, be(0xc4, 1)), (2**16, be(0xc5, 2)), (2**32, be(0xc6, 4))], rng) + v
    if isinstance(v, (list, tuple)):
        return sized(len(v), [(16, lambda n: bytes([0x90 | n])), (2**16, be(0xdc, 2)), (2**32, be(0xdd, 4))], rng) + b"".join(msgpack(x, rng) for x in v)
    if isinstance(v, dict):
        return (sized(len(v), [(16, lambda n: bytes([0x80 | n])), (2**16, be(0xde, 2)), (2**32, be(0xdf, 4))], rng)
                + b"".join(msgpack(k, rng) + msgpack(x, rng) for k, x in v.items()))
    raise ValueError(type(v))
