"""Workload values. Small pools, so that names collide, with unusual members mixed in."""

import ast
import functools
import json
import pathlib

import wampproto

from dst import seams

NAMES = [
    "io.xconn.test", "io.xconn.test2", "io.xconn", "io.xconn.", "io.xconn.Test", "io..xconn", "a", "A", "", " ", "a ",
    "a.b", "a.b.c", "a.*", "a.#", "..", "wamp.session.on_join", "wamp.error.canceled", "None", "0", "1", "true",
    "ünï.cödé", "ünï.cödé", "日本.語", "😀", "x" * 300, "x" * 299 + "y", "tab\t", "new\nline", "nul\x00", "%s", "{}",
    "__class__", "progress", "io.xconn.test/", "-1", "é", "e\u0301",
]

STRS = ["", "a", "ok", "ünï", "日本", "😀", "x" * 40, "\x00", '"', "\\", "\n", "null", "0", "\u2028", "\x00AAEC", "true", "NaN", "2020-01-01T00:00:00Z",
        "0x10", "1e5", "-0", "data:,x", "$x", "{}", "[1]", "a" * 70000]


@functools.cache
def dictionary(part="**/*"):
    """The words and numbers the code under test itself mentions: what it treats specially, it has to name."""
    words, numbers = set(), set()
    for path in sorted(pathlib.Path(wampproto.__file__).parent.glob(part + ".py")):
        try:
            tree = ast.parse(path.read_text())
        except (SyntaxError, ValueError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and 0 < len(n.value) <= 40 and not any(c.isspace() for c in n.value):
                    words.add(n.value)
                elif type(n.value) is int and abs(n.value) < 2**62:
                    numbers.add(n.value)
    return sorted(words), sorted(numbers)


def word(rng):
    """Often one that nobody would think of: uncommon ones are as likely as the rest."""
    return rng.choice(rng.choice([dictionary()[0], dictionary("*")[0], dictionary("*er")[0], dictionary("session")[0]]) or ["a"])


def words(rng):
    return [word(rng) for _ in range(3)] if rng.random() < 0.5 else []


def number(rng):
    return rng.choice(rng.choice([dictionary()[1], dictionary("*")[1]]) or [1]) + rng.choice([-1, 0, 0, 1])


def scale(rng, large=False):
    """How many of something: now and then just above a number that the code mentions."""
    near = [n + 2 for n in dictionary()[1] if 20 <= n <= 4000]
    if near and rng.random() < 0.2:
        return rng.choice(near)
    return rng.choice(SCALES + BIG_SCALES if large else SCALES)


def name_pool(rng, k):
    """k distinct names, biased to ordinary ones."""
    r = rng.random()
    if r < 0.08:
        b, w = rng.choice(["io.xconn.test", "a.b", "a", word(rng)]), word(rng)
        near = [b, b + w, w + b, b + "." + w, w, w + "." + b, w + "x", b.removesuffix(w), b.removesuffix("." + w)]
        base = list(dict.fromkeys([b, *rng.sample(near[1:], len(near) - 1)]))[:k]
        base += ["io.xconn.t%d" % i for i in range(k - len(base))]
    elif r < 0.4:
        base = ["io.xconn.t%d" % i for i in range(k)]
    elif r < 0.6 and k > 1:
        # names that a careless comparison takes for one another
        b = rng.choice(["io.xconn.test", "a.b", "a", "Straße", "x" * 130])
        near = [b, b + ".", b.upper(), "." + b, b + " ", b + ".x", b[:-1], b + "*", b + "/", " " + b, b + "\x00", b.title(), b * 2, b + "\u200b",
                b.replace("e", "é"), b.casefold()]
        base = list(dict.fromkeys([b] + rng.sample(near, min(k, len(near)))))[:k]
        base += ["io.xconn.t%d" % i for i in range(k - len(base))]
    else:
        base = rng.sample(NAMES, min(k, len(NAMES)))
        base += ["io.xconn.t%d" % i for i in range(k - len(base))]
    return base


def scalar(rng, wire="any"):
    r = rng.randrange(12)
    if rng.random() < 0.03:
        return word(rng) if rng.random() < 0.5 else number(rng)
    if r == 0:
        return None
    if r == 1:
        return rng.random() < 0.5
    if r <= 4:
        return rng.choice([0, 1, -1, 2, 23, 24, 31, 32, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, -(2**31),
                           2**32, 2**53, 2**53 + 1, 2**63 - 1, -(2**63), -32, -33, -129, rng.randrange(10**6)])
    if r <= 6:
        return rng.choice([0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 3.0, 2.5])
    return rng.choice(STRS[:-1]) if rng.random() < 0.985 else STRS[-1]


# plain objects that one or another convention reads as something else
TAGGED = [{"hex": "00"}, {"bytes": "00"}, {"b64": "AA=="}, {"base64": "AA=="}, {"binary": ""}, {"__bytes__": "AA=="}, {"__type__": "bytes", "value": "00"}, {"__class__": "x"},
          {"type": "Buffer", "data": [1]}, {"$binary": "AA=="}, {"$date": 0}, {"$ref": "#"}, {"$type": "x"}, {"__datetime__": "2020-01-01T00:00:00"}, {"date": "2020-01-01"},
          {"set": [1]}, {"__set__": [1]}, {"tuple": [1]}, {"__tuple__": [1]}, {"complex": [1, 2]}, {"real": 1, "imag": 2}, {"int": "1"}, {"float": "1.5"}, {"value": 1}, {"nan": True},
          {"tag": 0, "value": 0}, {"code": 1, "data": ""}, {"message": [1]}, {"args": [1], "kwargs": {}}, {"0": 1, "1": 2}, {"length": 1, "0": 1}, {"data": "00"}, {"": ""}]


def value(rng, depth=0):
    r = rng.random()
    if depth >= 3 or r < 0.72:
        return scalar(rng)
    if r > 0.985:
        return json.loads(json.dumps(rng.choice(TAGGED)))
    if r > 0.982 and depth == 0:
        return nested(rng, rng.choice([8, 17, 33, 65, 101]))
    n = rng.choice([0, 1, 1, 2, 3, 16])
    if r < 0.86:
        return [value(rng, depth + 1) for _ in range(n if depth else min(n, 3))]
    return {key(rng): value(rng, depth + 1) for _ in range(min(n, 4))}


def nested(rng, depth):
    kind, v = rng.randrange(3), rng.choice(["leaf", [], {}, 0])
    for i in range(depth):
        v = {"v": v} if kind == 0 or kind == 1 and i % 2 else [v]
    return v


def key(rng):
    return rng.choice(["a", "b", "", "_a", "__k", "A", "a.b", "$ref", " ", "progress", "receive_progress", "acknowledge", "args", "kwargs", "self", "ünï",
                       "0", "k%d" % rng.randrange(5)])


def args(rng):
    """None (absent), empty, or a list of values."""
    r = rng.random()
    if r < 0.2:
        return None
    if r < 0.3:
        return []
    if r < 0.36:
        return [rng.choice([None, False, 0, "", [], {}, 0.0])]
    if r < 0.97:
        return [value(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    return [scalar(rng) for _ in range(rng.choice([15, 16, 17, 40]))]


def kwargs(rng):
    r = rng.random()
    if r < 0.4:
        return None
    if r < 0.5:
        return {}
    return {key(rng) if rng.random() < 0.95 else word(rng): value(rng) for _ in range(rng.choice([1, 1, 2, 3]))}


def heavy_args(rng):
    """More of something than most limits allow."""
    kind = rng.randrange(5)
    if kind == 0:
        return [list(range(rng.choice([300, 5000, 20000])))]
    if kind == 1:
        return [i % 7 for i in range(rng.choice([300, 5000, 70000]))]
    if kind == 2:
        return [{"k%d" % i: i for i in range(rng.choice([300, 2000]))}]
    if kind == 3:
        return [nested(rng, rng.choice([20, 60, 150]))]
    return [["s" * 300] * 100, "t" * rng.choice([255, 256, 65535, 65536, 200_000])]


def heavy_kwargs(rng):
    return {"key%d" % i: [i] for i in range(rng.choice([17, 300, 3000]))}


def wire_payload(a, k):
    """What a payload looks like after one marshal/parse: kwargs without args travel with empty args."""
    if k is not None and a is None:
        a = []
    return a, k


SCALES = [20, 35, 70, 70, 130, 130, 260, 260, 520, 1030]
BIG_SCALES = [1030, 2060, 4200]


def permuted(n, salt):
    """0..n-1 in an order fixed by salt."""
    return sorted(range(n), key=lambda j: ((j + 1) * 2654435761 * (2 * salt + 1)) % 2**32)


def near_ids(ids):
    """Ids that some careless comparison takes for one of these."""
    out = set()
    for i in ids:
        out.update((i + 1, i - 1, i + 2**8, i + 2**16, i + 2**31, i + 2**32, i + 2**52, i ^ 2**15, i ^ 2**40, i * 10, i // 10))
    return sorted(x for x in out - set(ids) if 1 <= x <= 2**53)


REQUEST_IDS = [1, 2, 3, 255, 256, 65535, 65536, 2**31, 2**32, 2**53 - 1, 2**53]


def session_ids(rng, n):
    """n distinct session ids."""
    style = rng.randrange(5)
    if style == 4:
        # ids that agree in most of their bits or digits
        out = [rng.choice([5, 1234, 2**31 + 7, rng.randint(1, 2**52)])]
        while len(out) < n:
            out.append(rng.choice(near_ids(out[-8:] + out[:8]) or [max(out) + 1]))
            out = list(dict.fromkeys(out))
        return out
    if style == 0:
        return list(range(1, n + 1))
    if style == 1:
        start = 2**53 - n + 1
        return list(range(start, 2**53 + 1))
    out = set()
    while len(out) < n:
        out.add(rng.randint(1, 2**53) if style == 2 else rng.choice([rng.randint(1, 3 * n), rng.randint(1, 2**53), min(max(number(rng), 1), 2**53)]))
    out = sorted(out)
    rng.shuffle(out)
    return out


def rng_from(*parts):
    import hashlib

    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return seams.Random(int.from_bytes(h[:8], "big"))


# URIs that mean something to some part of the library, or look as if they did
URIS = ["a.error", "a.error", "wamp.error.canceled", "wamp.error.canceled", "wamp.error.canceled", "wamp.error.no_such_procedure", "wamp.error.procedure_already_exists",
        "wamp.error.runtime_error", "wamp.error.not_authorized", "wamp.error.invalid_argument", "wamp.error.no_such_registration",
        "wamp.error.no_such_subscription", "wamp.error.no_eligible_callee", "wamp.error.timeout", "wamp.close.normal",
        "wamp.close.system_shutdown", "wamp.close.goodbye_and_out", "wamp.close.goodbye_and_out", "wamp.close.close_realm", "wamp.error.authentication_failed", "wamp.error.invalid_uri",
        "wamp.error.no_such_realm", "wamp.error.protocol_violation", "wamp.error.authorization_failed", "wamp.error.payload_size_exceeded", "wamp.error.unavailable", "wamp.error.no_available_callee", "wamp.error.cancelled", "wamp.error.no_such_principal", "wamp.error.no_such_role", "wamp.error.option_not_allowed",
        "wamp.error.option_disallowed.disclose_me", "wamp.error.network_failure", "wamp.error.feature_not_supported", "wamp.error.invalid_payload", "wamp.error.authentication_required",
        "wamp.error.no_matching_auth_method", "wamp.error.procedure_exists_with_different_invocation_policy", "wamp.error.timeout", "wamp.error.", "", " ", "a.b", "a." * 150 + "error", "A.Error", "com.example.errör", "a..b", "x" * 1100]

MEANING = ("progress", "receive_progress", "acknowledge", "x_payload_serializer")

# options and details of the protocol, most of them in messages where they mean nothing
NOISE = [("progress", True), ("progress", False), ("receive_progress", True), ("acknowledge", True), ("acknowledge", False),
         ("match", "prefix"), ("match", "wildcard"), ("invoke", "roundrobin"), ("invoke", "last"), ("exclude_me", False), ("exclude_me", True), ("exclude_authid", ["user0"]), ("exclude_authrole", ["anonymous"]),
         ("eligible_authrole", ["nobody"]), ("topic_ids", []), ("callee_auto", True),
         ("exclude", [1]), ("eligible", [2]), ("eligible", []), ("disclose_me", True), ("timeout", 1), ("rkey", "x"),
         ("mode", "kill"), ("mode", "skip"), ("force_reregister", True), ("reason", "wamp.error.canceled"), ("caller", 5),
         ("publisher", 5), ("topic", "other"), ("procedure", "other"), ("x_custom", {"a": [1]}), ("retain", True),
         ("get_retained", True), ("concurrency", 1), ("", None), ("subscription", 3), ("runmode", "partial"), ("trustlevel", 0),
         ("ppt_scheme", "wamp"), ("ppt_serializer", "native"), ("message", "text"), ("payload", "x"), ("resumed", True)]


def options(rng, base=(), forbid=()):
    """base, often with options beside it that mean nothing here (forbid: those that would)."""
    out = dict(base)
    if rng.random() < 0.35:
        for k, v in rng.sample(NOISE, rng.choice([1, 1, 2, 4])):
            if k not in forbid and k not in out:
                out[k] = v
        w = word(rng)
        if rng.random() < 0.1 and w not in MEANING and w not in forbid and w not in out:
            out[w] = rng.choice([True, 1, "x", [], {}, None, word(rng)])
    return out


class Decor:
    """URIs and meaningless options that depend on a salt and on the place they are used at; salt 0: none."""

    def __init__(self, salt, words=()):
        self.salt = salt
        self.words = list(words)

    def _n(self, key):
        import zlib

        return zlib.crc32(repr((self.salt,) + key).encode())

    def uri(self, *key):
        pool = URIS + self.words
        return pool[self._n(key) % len(pool)] if self.salt else "a.error"

    def off(self, name, *key):
        """The flag left out, or said to be False: the same thing."""
        return {name: False} if self.salt and self._n(("off", name) + key) % 3 == 0 else {}

    def opts(self, *key, base=(), forbid=()):
        out = dict(base)
        if self.salt:
            h = self._n(key)
            for j in range((h % 8) // 3):
                k, v = NOISE[(h // 8 + 7 * j) % len(NOISE)]
                if k not in forbid and k not in out:
                    out[k] = v
        return out
