"""The WAMP message layouts, written down from the specification and independently of the library."""

from wampproto import messages as M

ID_MAX = 2**53
ROLES = ["callee", "caller", "publisher", "subscriber", "dealer", "broker"]

# kind -> (type, required fields, has args/kwargs). Field codes: i id, t integer, s string, d dict, H/W hello/welcome details
LAYOUT = {
    "hello": (1, [("realm", "s"), ("details", "H")], False),
    "welcome": (2, [("session_id", "i"), ("details", "W")], False),
    "abort": (3, [("details", "d"), ("reason", "s")], True),
    "challenge": (4, [("authmethod", "s"), ("extra", "d")], False),
    "authenticate": (5, [("signature", "s"), ("extra", "d")], False),
    "goodbye": (6, [("details", "d"), ("reason", "s")], False),
    "error": (8, [("message_type", "t"), ("request_id", "i"), ("details", "d"), ("uri", "s")], True),
    "publish": (16, [("request_id", "i"), ("options", "d"), ("topic", "s")], True),
    "published": (17, [("request_id", "i"), ("publication_id", "i")], False),
    "subscribe": (32, [("request_id", "i"), ("options", "d"), ("topic", "s")], False),
    "subscribed": (33, [("request_id", "i"), ("subscription_id", "i")], False),
    "unsubscribe": (34, [("request_id", "i"), ("subscription_id", "i")], False),
    "unsubscribed": (35, [("request_id", "i")], False),
    "event": (36, [("subscription_id", "i"), ("publication_id", "i"), ("details", "d")], True),
    "call": (48, [("request_id", "i"), ("options", "d"), ("procedure", "s")], True),
    "cancel": (49, [("request_id", "i"), ("options", "d")], False),
    "result": (50, [("request_id", "i"), ("details", "d")], True),
    "register": (64, [("request_id", "i"), ("options", "d"), ("procedure", "s")], False),
    "registered": (65, [("request_id", "i"), ("registration_id", "i")], False),
    "unregister": (66, [("request_id", "i"), ("registration_id", "i")], False),
    "unregistered": (67, [("request_id", "i")], False),
    "invocation": (68, [("request_id", "i"), ("registration_id", "i"), ("details", "d")], True),
    "interrupt": (69, [("request_id", "i"), ("options", "d")], False),
    "yield": (70, [("request_id", "i"), ("options", "d")], True),
}
BY_TYPE = {t: k for k, (t, _, _) in LAYOUT.items()}

CLS = {
    "hello": (M.Hello, M.HelloFields), "welcome": (M.Welcome, M.WelcomeFields), "abort": (M.Abort, M.AbortFields),
    "challenge": (M.Challenge, M.ChallengeFields), "authenticate": (M.Authenticate, M.AuthenticateFields),
    "goodbye": (M.Goodbye, M.GoodbyeFields), "error": (M.Error, M.ErrorFields), "publish": (M.Publish, M.PublishFields),
    "published": (M.Published, M.PublishedFields), "subscribe": (M.Subscribe, M.SubscribeFields),
    "subscribed": (M.Subscribed, M.SubscribedFields), "unsubscribe": (M.Unsubscribe, M.UnsubscribeFields),
    "unsubscribed": (M.Unsubscribed, M.UnsubscribedFields), "event": (M.Event, M.EventFields),
    "call": (M.Call, M.CallFields), "cancel": (M.Cancel, M.CancelFields), "result": (M.Result, M.ResultFields),
    "register": (M.Register, M.RegisterFields), "registered": (M.Registered, M.RegisteredFields),
    "unregister": (M.Unregister, M.UnregisterFields), "unregistered": (M.Unregistered, M.UnregisteredFields),
    "invocation": (M.Invocation, M.InvocationFields), "interrupt": (M.Interrupt, M.InterruptFields),
    "yield": (M.Yield, M.YieldFields),
}

DETAIL_KEYS = {"H": ["authid", "authmethods", "authextra"], "W": ["authid", "authrole", "authmethod", "authextra"]}


def wire(kind, fields):
    """The WAMP array of a message given its field values (a dict; args/kwargs None = absent)."""
    t, spec, has_payload = LAYOUT[kind]
    out = [t]
    for name, code in spec:
        if code in "HW":
            d = {"roles": fields["roles"]}
            for k in DETAIL_KEYS[code]:
                if fields.get(k) is not None:
                    d[k] = fields[k]
            out.append(d)
        else:
            out.append(fields[name])
    if has_payload:
        a, k = fields.get("args"), fields.get("kwargs")
        if a is not None or k is not None:
            out.append(a if a is not None else [])
        if k is not None:
            out.append(k)
    return out


def build(kind, fields):
    """The library's message; every other time what is empty is left to the defaults of its fields."""
    cls, fcls = CLS[kind]
    if len(repr(fields)) % 2 and kind not in ("abort", "goodbye"):
        empty = {n for n, code in LAYOUT[kind][1] if code == "d" and fields[n] == {}}
        fields = {k: v for k, v in fields.items() if v is not None and k not in empty}
    return cls(fcls(**fields))


def read(kind, msg):
    """Field values of a message through its public attributes."""
    _, spec, has_payload = LAYOUT[kind]
    out = {}
    for name, code in spec:
        if code in "HW":
            for k in ["roles"] + DETAIL_KEYS[code]:
                out[k] = getattr(msg, k)
        else:
            out[name] = getattr(msg, name)
    if has_payload:
        out["args"], out["kwargs"] = msg.args, msg.kwargs
    return out


def expected(kind, arr):
    """The field values a decoder must report for a valid WAMP array."""
    _, spec, has_payload = LAYOUT[kind]
    out = {}
    for i, (name, code) in enumerate(spec, 1):
        if code in "HW":
            for k in ["roles"] + DETAIL_KEYS[code]:
                out[k] = arr[i].get(k)
        else:
            out[name] = arr[i]
    if has_payload:
        n = len(spec) + 1
        out["args"] = arr[n] if len(arr) > n else None
        out["kwargs"] = arr[n + 1] if len(arr) > n + 1 else None
    return out


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def judge(arr):
    """(kind, None) for a valid WAMP message, (None, reason) otherwise."""
    if not isinstance(arr, list) or not arr:
        return None, "not a non-empty array"
    if not is_int(arr[0]) or arr[0] not in BY_TYPE:
        return None, f"message type {arr[0]!r:.40}"
    kind = BY_TYPE[arr[0]]
    _, spec, has_payload = LAYOUT[kind]
    n = len(spec) + 1
    if not n <= len(arr) <= n + (2 if has_payload else 0):
        return None, f"{len(arr)} elements in {kind}"
    for i, (name, code) in enumerate(spec, 1):
        v = arr[i]
        bad = {"i": lambda: not is_int(v) or not 1 <= v <= ID_MAX, "t": lambda: not is_int(v),
               "s": lambda: not isinstance(v, str), "d": lambda: not isinstance(v, dict),
               "H": lambda: not details_ok(v, "H"), "W": lambda: not details_ok(v, "W")}[code]()
        if bad:
            return None, f"{name} of {kind} is {v!r:.60}"
    if len(arr) > n and not isinstance(arr[n], list):
        return None, f"args of {kind} is {arr[n]!r:.60}"
    if len(arr) > n + 1 and not isinstance(arr[n + 1], dict):
        return None, f"kwargs of {kind} is {arr[n + 1]!r:.60}"
    return kind, None


def details_ok(d, code):
    if not isinstance(d, dict) or not isinstance(d.get("roles"), dict) or not d["roles"]:
        return False
    if any(r not in ROLES for r in d["roles"]):
        return False
    want = {"authid": str, "authrole": str, "authextra": dict}
    want["authmethods" if code == "H" else "authmethod"] = list if code == "H" else str
    return all(d.get(k) is None or isinstance(d[k], t) for k, t in want.items())
