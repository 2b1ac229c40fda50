"""Many handshakes against one router, interleaved with a network attacker, failing authenticators, a frozen or jumping
clock and a re-seeded PRNG. Proofs are verified here with nacl and hmac, never with the code under test.
"""

import base64
import functools
import hashlib
import hmac
import math
import json

import nacl.signing
from wampproto import auth, serializers
from wampproto import messages as M
from wampproto.auth import cryptosign
from wampproto.acceptor import Acceptor
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner
from wampproto.types import SessionDetails

from dst import seams, values, wampspec
from dst.checked import check_id
from dst.engine import Violation, blaming, canon, same

NAME = "handshake"
METHODS = ["anonymous", "ticket", "wampcra", "salted", "cryptosign"]
SERIALIZERS = {"json": serializers.JSONSerializer, "cbor": serializers.CBORSerializer, "msgpack": serializers.MsgPackSerializer}


# entries of a HELLO, CHALLENGE, AUTHENTICATE or WELCOME that this library has no use for
MORE = {
    "Hello": {"agent": "x", "resume": True, "transport": {"type": "tcp"}, "authrole": "admin", "authmethod": "anonymous", "x_realm": "other", "pubkey": "00" * 32,
              "ticket": "secret", "session": 5, "authprovider": "static"},
    "Challenge": {"realm": "other", "authid": "root", "authrole": "admin", "authmethod": "anonymous", "session": 5, "session_id": 5, "nonce": "0", "timestamp": "now",
                  "roles": {}, "x_signature": "", "secret": "other", "ticket": "other", "signature": "00"},
    "Authenticate": {"realm": "other", "authid": "root", "authrole": "admin", "authmethod": "anonymous", "session": 5, "challenge": "{}", "pubkey": "00" * 32,
                     "x_ticket": "secret", "nonce": "0"},
    "Welcome": {"authprovider": "static", "session": 5, "session_id": 5, "id": 5, "x_role": "admin", "resumed": True, "resume_token": "t", "agent": "x", "role": "admin"},
}
REALMS = ["realm1", "realm1", "realm2", "io.xconn", "", "rëalm", "Realm1", "REALM1", "realm1 ", " realm1", "realm1.", "realm1\n", " ",
          "re\u0308alm", "realm1/", "*", "io..xconn", "realm1\x00", "😀"]
SALTS = ["salt", "", "sältß", "x" * 64, " salt ", "SALT", "c2FsdA==", "deadbeef"]
SECRETS = ["secret", "secret", "", "pässwörd", "s" * 100, "a", "0", "Secret", " secret", "secret ", "secret\n", "\tsecret", "sec\x00ret",
           "pa\u0308sswo\u0308rd", "c2VjcmV0", "64" * 16, "s" * 63, "s" * 64, "s" * 65]
ROUTER_ROLES = [None, None, {"broker": {}}, {"dealer": {"features": {"call_canceling": True}}}, {"broker": {"features": {}}, "dealer": {}},
                {"broker": {"features": {"x": False}}}]
CLIENT_ROLES = [None, None, {"caller": {}}, {"subscriber": {"features": {"x": True}}, "callee": {}}, {"publisher": {"features": {}}}]


def near_miss(secret, kind):
    """A secret that is not this one, however careless the comparison."""
    miss = [secret + "WRONG", secret.swapcase(), secret.strip(), secret + " ", " " + secret, secret + "\x00x", secret[:-1], secret + "\n",
            secret.encode().hex(), secret * 2, secret[::-1]][kind % 11]
    return miss if miss != secret else secret + "WRONG"


def extra(rng):
    r = rng.random()
    if r < 0.4:
        return None
    if r < 0.55:
        return {}
    out = {values.key(rng): values.value(rng) for _ in range(rng.choice([1, 2]))}
    if rng.random() < 0.3:
        # what the client merely says about itself, under the names the protocol has for what the router decides
        for k in rng.sample(CLAIMS, rng.choice([1, 2, len(CLAIMS)])):
            out[k] = rng.choice(["admin", "admin", "anonymous", "router", "", 1, True, ["admin"], {"caller": {}}])
    return out


CLAIMS = ["authrole", "role", "roles", "authid", "authmethod", "authprovider", "realm", "session", "session_id", "secret", "pubkey", "trusted", "scheme"]


def iterations(rng):
    r = rng.random()
    return rng.choice([1, 2, 10, 100]) if r < 0.93 else rng.choice([1000, 4097]) if r < 0.98 else rng.choice([10001, 20011])


def generate(rng, focus=None, large=False):
    names = [n for n in values.NAMES if len(n) < 50]
    users = []
    for u in range(rng.choice([1, 2, 3, 5])):
        method = rng.choice(METHODS)
        if focus == "C16":
            method = rng.choice(["wampcra", "salted", "cryptosign", "ticket", "cryptosign"])
        users.append({
            "authid": rng.choice(names) if rng.random() < 0.4 else f"user{u}" if rng.random() < 0.95 else values.word(rng),
            "n": u,
            "method": method,
            "secret": (rng.choice(SECRETS) if rng.random() < 0.96 else values.word(rng)) + (str(u) if rng.random() < 0.5 else ""),
            "key": "%064x" % rng.getrandbits(256),
            "salt": rng.choice(SALTS),
            "iterations": iterations(rng),
            "keylen": rng.choice([16, 32, 64]),
            "role": rng.choice(["user", "admin", "", "anonymous", "rôle", " user", "User ", "trusted"]) if rng.random() < 0.96 else values.word(rng),
            "assigned": rng.choice([None, None, "assigned-%d" % u, "ünï", "", " ", "anonymous"]),
            "deny": rng.random() < 0.12,
            "realm": rng.choice(REALMS) if rng.random() < 0.96 else values.word(rng),
            "made": rng.random() < 0.3,
        })
        if method == "anonymous" and rng.random() < 0.4:
            users[-1]["authid"] = ""
        if rng.random() < 0.1:
            # longer than most limits, and the same as another user's up to its end
            for part in rng.sample(["authid", "secret", "salt", "role", "assigned", "realm"], rng.choice([1, 2, 6])):
                users[-1][part] = "x" * rng.choice([29, 62, 100, 127, 200, 254, 300, 1023]) + f"{part}{u}"
    seen = set()
    for u in users:
        if (u["authid"], u["realm"]) in seen:
            u["authid"] += "-%d" % u["n"]
        seen.add((u["authid"], u["realm"]))
    nops = rng.choice([4, 10, 25, 50]) if not large else 300
    nu = len(users)
    attack = rng.choice([0, 0.2, 0.6, 1.0])
    w = {"open": 3, "step": 10, "finish": rng.choice([0.5, 2]),
         "dup": 2 * attack, "drop": 0.5 * attack, "replay": 3 * attack * (2 if focus == "C16" else 1),
         "forge": (8 if focus in ("C15", "C16") else 3) * attack, "inject_a": 2 * attack, "usurp": attack, "inject_j": 2 * attack,
         "corrupt": 1.5 * attack * (3 if focus == "C18" else 1),
         "authfail": rng.choice([0, 0.5]) + (0.5 if focus == "C17" else 0),
         "clock": rng.choice([0, 1]), "reseed": rng.choice([0, 1]), "storm": 0.3 if focus == "C16" else 0.05,
         "serfail": 0, "rotate": rng.choice([0, 0.5, 1.5])}
    kinds, weights = zip(*w.items())
    ops = [["open", rng.randrange(nu), rng.choice(list(SERIALIZERS)), rng.random() < 0.7, extra(rng), rng.random() < 0.2,
            rng.randrange(1, 12) if rng.random() < 0.06 else 0, False, rng.randrange(60)]]
    for k in rng.choices(kinds, weights, k=nops):
        s = rng.randrange(1000)
        if k == "open":
            # user, serializer, bytes level, auth_extra, share the auth_extra dict, wrong secret, no server authenticator
            ops.append([k, rng.randrange(nu), rng.choice(list(SERIALIZERS)), rng.random() < 0.7, extra(rng),
                        rng.random() < 0.25, rng.randrange(1, 12) if rng.random() < 0.12 else 0, rng.random() < 0.06,
                        rng.randrange(60)])
        elif k in ("step", "dup", "drop"):
            ops.append([k, s, rng.choice("csx")])
        elif k in ("finish",):
            ops.append([k, s])
        elif k == "replay":
            ops.append([k, s, rng.randrange(1000), rng.choice(["auth", "auth", "any"])])
        elif k == "forge":
            ops.append([k, s, rng.choice(["zero", "empty", "truncate", "other_challenge", "own_message", "flip", "garbage",
                                          "other_key", "unicode", "swap", "part", "part", "part", "case", "stale", "challenge_only", "pad",
                                          "short", "short", "long", "rawflip", "rawflip", "password", "own_key"]), rng.randrange(1000)])
        elif k == "inject_a":
            ops.append([k, s, rng.randrange(18), rng.randrange(nu)])
        elif k == "usurp":
            ops.append([k, s, rng.randrange(18), rng.randrange(nu), rng.randrange(1000)])
        elif k == "inject_j":
            ops.append([k, s, rng.randrange(13), [rng.choice(values.URIS) if rng.random() < 0.9 else values.word(rng), values.args(rng), values.kwargs(rng)]])
        elif k == "corrupt":
            ops.append([k, s, rng.choice("cs"), rng.choice(["truncate", "first", "shape", "type", "empty"]), rng.randrange(1000)])
        elif k == "authfail":
            ops.append([k, rng.choice(["ValueError", "KeyError", "RuntimeError", "ApplicationError", "noargs", "objargs",
                                       "TypeError", "OSError"])])
        elif k == "clock":
            ops.append([k, rng.choice(["freeze", "unfreeze", "back", "forward"])])
        elif k == "reseed":
            ops.append([k, rng.randrange(4)])
        elif k == "rotate":
            ops.append([k, rng.randrange(nu), s])
        elif k == "storm":
            ops.append([k, rng.randrange(nu), rng.choice([3, 10, 40, 300])])
    cfg = {"users": users, "extreme": rng.choice([0.0, 0.0, 0.5]), "noise": rng.randrange(1, 10**6) if rng.random() < 0.4 else 0}
    return {"scenario": NAME, "config": cfg, "ops": ops}


# -- the router's own user database ---------------------------------------------------------------------------------


MALLORY = nacl.signing.SigningKey(b"\x42" * 32)


def derived(user):
    return derive(user["secret"], user["salt"], user["iterations"], user["keylen"])


@functools.lru_cache(maxsize=256)
def derive(secret, salt, iterations, keylen):
    return base64.b64encode(hashlib.pbkdf2_hmac("sha256", secret.encode(), salt.encode(), iterations, keylen)).decode()


class UserDB(auth.IServerAuthenticator):
    def __init__(self, ctx, users):
        self.ctx = ctx
        self.users = users
        self.fail = None
        self.current = None  # the pair being served
        self.calls = 0

    def methods(self):
        return ["anonymous", "ticket", "wampcra", "cryptosign"]

    def authenticate(self, request):
        self.calls += 1
        pair = self.current
        hello = pair.hello
        if request.method in pair.methods and pair.st == "none":
            pair.method = request.method  # of several methods offered, the router takes one
        cls = {"anonymous": auth.AnonymousRequest, "ticket": auth.TicketRequest, "wampcra": auth.WAMPCRARequest,
               "cryptosign": auth.CryptoSignRequest}.get(pair.method)
        got = (request.method, request.realm, request.authid, request.auth_extra)
        want = (pair.method, hello.realm, hello.authid, hello.authextra)
        if type(request) is not cls or not same(list(got), list(want)):
            raise HarnessNote(Violation(("C15", "C14") if pair.honest else ("C15", "C14", "C17"), "wrong-request",
                              f"authenticator was asked {type(request).__name__}{got!r} for HELLO {want!r}"))
        if pair.method == "ticket" and request.ticket != pair.ticket_sent:
            raise HarnessNote(Violation(("C15",), "wrong-ticket", f"asked about {request.ticket!r}, client sent {pair.ticket_sent!r}"))
        if pair.method == "cryptosign" and request.public_key != hello.authextra["pubkey"]:
            raise HarnessNote(Violation(("C15",), "wrong-key", f"asked about {request.public_key!r}"))
        if self.fail is not None:
            kind, self.fail = self.fail, None
            self.ctx.fault("authenticator_fails")
            pair.denied = True
            raise {"ValueError": ValueError("no such user"), "KeyError": KeyError("user"), "RuntimeError": RuntimeError("db down", 7),
                   "ApplicationError": ApplicationError("wamp.error.not_authorized", ["x"], {"k": 1}), "noargs": Exception(),
                   "objargs": Exception(object(), {"a": {1}}), "TypeError": TypeError("x"), "OSError": OSError(5, "io")}[kind]
        user = next((u for u in self.users if u["authid"] == request.authid and wire_method(u) == request.method
                     and u["realm"] == request.realm), None)
        if user is None or user["deny"]:
            pair.denied = True
            raise ApplicationError("wamp.error.not_authorized", ["unknown user"], {})
        if request.method == "ticket" and request.ticket != user["secret"]:
            pair.denied = True
            raise ApplicationError("wamp.error.not_authorized", ["invalid ticket"], None)
        if request.method == "cryptosign" and request.public_key != pubkey(user):
            pair.denied = True
            raise ApplicationError("wamp.error.not_authorized", None, None)
        authid = user["assigned"] if user["assigned"] is not None else user["authid"]
        pair.approved = (authid, user["role"])
        pair.db_user = user
        if request.method == "wampcra":
            if user["method"] == "salted":
                return auth.WAMPCRASaltedResponse(authid, user["role"], derived(user), user["salt"], user["iterations"],
                                                  user["keylen"])
            return auth.WAMPCRAResponse(authid, user["role"], user["secret"])
        return auth.Response(authid, user["role"])


class HarnessNote(BaseException):
    """Carries a violation through the code under test, which catches Exception."""

    def __init__(self, violation):
        super().__init__(str(violation))
        self.violation = violation


def wire_method(user):
    return "wampcra" if user["method"] == "salted" else user["method"]


def signing_key(user):
    return nacl.signing.SigningKey(bytes.fromhex(user["key"]))


def made_key(ctx):
    """A key pair of the library's own making, its halves belonging together and not to be guessed."""
    was, seams.WORLD.extreme_p = seams.WORLD.extreme_p, 0.0
    drawn = seams.WORLD.entropy_bytes
    public, private = cryptosign.generate_cryptosign_keypair()
    drawn = seams.WORLD.entropy_bytes - drawn
    seams.WORLD.extreme_p = was
    if nacl.signing.SigningKey(bytes.fromhex(private)).verify_key.encode().hex() != public.lower():
        raise Violation(("C14", "C16"), "key-pair", f"the public key {public[:80]} does not belong to the private key")
    if drawn < 16:
        raise Violation(("C16",), "guessable", f"a key pair was made from {drawn} random bytes")
    ctx.probe("key_pair_made")
    return private


def pubkey(user):
    return signing_key(user).verify_key.encode().hex()


class Pair:
    def __init__(self, ix, user, ser, bytes_level, wrong, noauth, roles=0):
        self.ix = ix
        self.user = user
        self.ser = SERIALIZERS[ser]()
        self.peer = SERIALIZERS[ser]()
        self.bytes = bytes_level
        self.wrong = wrong
        self.noauth = noauth
        self.router_roles = ROUTER_ROLES[roles % len(ROUTER_ROLES)]
        self.client_roles = CLIENT_ROLES[roles % len(CLIENT_ROLES)]
        self.c2s, self.s2c = [], []  # messages in flight
        # acceptor model
        self.st = "none"
        self.method = None
        self.methods = []
        self.hello = None
        self.challenge = None
        self.named_session = None
        self.approved = None
        self.denied = False
        self.db_user = None
        self.ticket_sent = None
        self.shaky = False  # a malformed proof was refused, later outcomes are left open
        self.welcome = None
        # joiner model
        self.jst = "none"
        self.jdetails = None
        self.honest = True  # nothing but this pair's own frames, in order, reached either side
        self.j_shaky = False


class World:
    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.cfg = {**plan["config"], "users": list(plan["config"]["users"])}
        seams.WORLD.extreme_p = self.cfg["extreme"]
        self.db = UserDB(ctx, self.cfg["users"])
        if hasattr(cryptosign, "generate_cryptosign_keypair"):
            self.cfg["users"] = self.db.users = [{**u, "key": made_key(ctx)} if u.get("made") and u["method"] == "cryptosign" else u for u in self.cfg["users"]]
        self.pairs = []
        self.captured = []  # every frame ever sent by a client: (pair index, message)
        self.challenges = {}
        self.shared_extra = {}
        self.extra_copy = None
        self.announced = {}
        self.kept = {}  # client authenticators used again

    def rotate(self, u, sel):
        """The router's administrator changes what is stored for a user; the secret stays."""
        rng = seams.Random(sel)
        user = dict(self.cfg["users"][u])
        if user["method"] in ("wampcra", "salted"):
            user["method"] = rng.choice(["wampcra", "salted"])
        user.update(salt=rng.choice(SALTS), iterations=iterations(rng), keylen=rng.choice([16, 32, 64]),
                    role=rng.choice([user["role"], "rotated"]), assigned=rng.choice([user["assigned"], None, "renamed"]))
        self.cfg["users"][u] = user
        self.ctx.fault("user_record_changed")

    # -- construction
    def client_auth(self, user, ex, wrong):
        secret = near_miss(user["secret"], wrong - 1) if wrong else user["secret"]
        if user["method"] == "anonymous":
            return auth.AnonymousAuthenticator(user["authid"], ex)
        if user["method"] == "ticket":
            return auth.TicketAuthenticator(user["authid"], secret, ex)
        if user["method"] in ("wampcra", "salted"):
            return auth.WAMPCRAAuthenticator(user["authid"], secret, ex)
        key = user["key"] if not wrong else "%064x" % (int(user["key"], 16) ^ 1)
        return auth.CryptoSignAuthenticator(user["authid"], key, ex)

    def open(self, u, ser, bytes_level, ex, share, wrong, noauth, roles=0):
        user = self.cfg["users"][u]
        p = Pair(len(self.pairs), user, ser, bytes_level, wrong, noauth, roles)
        if share:
            ex = self.shared_extra
        given = json.loads(json.dumps(ex)) if ex is not None else None
        # an application may keep its authenticator for all its connections
        key = (u, wrong)
        if ex is None and not share and p.ix % 3 != 0:
            p.client_auth = self.kept.get(key) or self.client_auth(user, ex, wrong)
            if key in self.kept:
                self.ctx.probe("authenticator_reused")
            self.kept[key] = p.client_auth
        else:
            p.client_auth = self.client_auth(user, ex, wrong)
        want = dict(given or {})
        if user["method"] == "cryptosign" and "pubkey" not in want:
            k = signing_key(user) if not wrong else nacl.signing.SigningKey(bytes.fromhex("%064x" % (int(user["key"], 16) ^ 1)))
            want["pubkey"] = k.verify_key.encode().hex()
        p.want_extra = want
        if user["method"] == "anonymous" and user["authid"] == "" and not given and p.ix % 2 == 0:
            p.j = Joiner(user["realm"], p.ser)
            self.ctx.probe("joiner_without_authenticator")
        else:
            p.j = Joiner(user["realm"], p.ser, p.client_auth)
        auth_db = None if noauth else self.db
        p.a = Acceptor(SERIALIZERS[ser](), auth_db) if p.router_roles is None else Acceptor(SERIALIZERS[ser](), auth_db, p.router_roles)
        self.pairs.append(p)
        self.ctx.log("open", p.ix, user["method"], ser)
        return p

    # -- running code under test
    def guarded(self, fn):
        """(outcome, value): 'ok' or 'refuse'; a HarnessNote is a violation found inside the authenticator."""
        try:
            return "ok", fn()
        except HarnessNote as n:
            raise n.violation
        except Violation:
            raise
        except Exception as e:
            return "refuse", e

    def hello(self, p):
        out, data = self.guarded(lambda: p.j.send_hello() if p.client_roles is None else p.j.send_hello(p.client_roles))
        if out != "ok":
            raise Violation(("C14",), "hello-failed", f"send_hello for {p.user['method']} raised {data!r}")
        msg = p.peer.deserialize(data)
        if (not isinstance(msg, M.Hello) or msg.realm != p.user["realm"] or msg.authid != p.user["authid"]
                or msg.authmethods != [wire_method(p.user)] or not same(msg.authextra or {}, p.want_extra)):
            raise Violation(("C14", "C21"), "hello-content",
                            f"user {p.user['authid']!r} ({p.user['method']}, {p.user['realm']!r}, extra {p.want_extra!r}) sent {canon(msg)}")
        self.roles(p, msg, p.client_roles, {"caller", "callee", "publisher", "subscriber"})
        p.jst = "hello"
        p.c2s.append(msg)
        self.captured.append((p.ix, msg))
        self.ctx.log("hello", p.ix)

    def roles(self, p, msg, given, default):
        """The roles announced are the ones given, or everything this side is."""
        if given is not None and not same(msg.roles, given):
            raise Violation(("C14", "C21"), "roles", f"given {given!r}, announced {msg.roles!r}")
        if given is None:
            first = self.announced.setdefault(type(msg), json.dumps(msg.roles, sort_keys=True))
            if set(msg.roles) != default or json.dumps(msg.roles, sort_keys=True) != first:
                raise Violation(("C14", "C21"), "roles", f"no roles given, announced {msg.roles!r}; before {first}")

    # -- acceptor
    def to_acceptor(self, p, msg, data=None, own=True):
        """Deliver one message to p's acceptor and hold the outcome against the model."""
        allowed = self.allowed(p, msg)
        self.db.current = p
        self.db.calls = 0
        ch_before, calls_before = p.challenge, self.db.calls
        if p.bytes:
            frame = self.with_more(p, msg) if data is None else data
            out, res = self.guarded(lambda: p.a.receive(frame))
            if out == "ok":
                if not (isinstance(res, tuple) and len(res) == 2):
                    raise Violation(("C17",), "receive-shape", f"acceptor.receive returned {res!r:.100}")
                raw, final = res
                reply = p.peer.deserialize(raw) if raw is not None else None
            else:
                reply = final = None
        else:
            was = canon(msg)
            out, res = self.guarded(lambda: p.a.receive_message(msg))
            untouched(msg, was)
            reply = res if out == "ok" else None
            final = isinstance(reply, (M.Welcome, M.Abort)) or reply is None
        kind = ("refuse" if out == "refuse" else "end" if reply is None else
                {M.Welcome: "welcome", M.Challenge: "challenge", M.Abort: "abort"}.get(type(reply), "other"))
        if self.db.fail is None and p.denied and kind == "welcome":
            raise Violation(("C15", "C17"), "welcome-denied", f"WELCOME after the authenticator refused {canon(msg)[:120]}")
        allowed = allowed() if callable(allowed) else allowed
        if kind == "challenge" and p.st == "none" and reply.authmethod in p.methods:
            p.method = reply.authmethod
        if kind not in allowed:
            why = f"acceptor in state {p.st} answered {canon(msg)[:160]} ({p.method}) with {kind} {canon(reply)[:120] if reply is not None else res!r:.160}"
            if kind == "welcome":
                props = ("C15", "C17") if isinstance(msg, M.Authenticate) else ("C15", "C17")
                if isinstance(msg, M.Authenticate) and not own:
                    props = ("C15", "C16")
                elif isinstance(msg, M.Authenticate):
                    props = ("C15", "C16") if p.st == "challenge" else ("C15", "C17")
                raise Violation(props, "unearned-welcome", why + f"; allowed {sorted(allowed)}")
            if "welcome" in allowed or "challenge" in allowed:
                raise Violation(("C14", "C15", "C17") if p.st != "welcomed" else ("C17",), "honest-refused", why)
            raise Violation(("C17", "C15"), "wrong-outcome", why + f"; allowed {sorted(allowed)}")
        aborted = self.guarded(p.a.is_aborted)
        det = self.guarded(p.a.get_session_details)
        if kind == "welcome":
            p.st = "welcomed"
            p.welcome = reply
            check_id(("C22", "C14"), "session id", reply.session_id)
            if final is not True:
                raise Violation(("C17",), "not-final", "WELCOME was not reported as the end of the handshake")
            if p.noauth:
                want_id = ("anonymous", "anonymous")
            else:
                want_id = p.approved
            want = (reply.session_id, p.hello.realm, *want_id)
            if det[0] != "ok" or details_tuple(det[1]) != want:
                raise Violation(("C14", "C15") if p.honest else ("C14", "C15", "C17"), "acceptor-details",
                                f"session details {details_tuple(det[1]) if det[0] == 'ok' else det[1]!r}, expected {want!r}")
            if (reply.authid, reply.authrole) != want_id:
                raise Violation(("C14", "C15"), "welcome-identity",
                                f"WELCOME names {(reply.authid, reply.authrole)!r}, the authenticator approved {want_id!r}")
            if aborted[1] is not False:
                raise Violation(("C17",), "aborted-flag", "is_aborted() after WELCOME")
            if reply.authmethod is not None and reply.authmethod != (p.method or "anonymous"):
                raise Violation(("C14",), "welcome-method", f"WELCOME says {reply.authmethod!r}, the handshake used {p.method!r}")
            if p.method == "wampcra" and p.named_session not in (None, reply.session_id):
                raise Violation(("C16", "C14"), "challenge-session", f"the challenge named session {p.named_session!r}, WELCOME session {reply.session_id}")
            self.roles(p, reply, p.router_roles, {"broker", "dealer"})
            self.ctx.probe("welcome_" + (p.method or "noauth"))
        elif p.st == "welcomed":
            if det[0] != "ok":
                raise Violation(("C17",), "details-lost", "session details are gone after a late frame")
        else:
            if det[0] == "ok":
                raise Violation(("C17", "C15"), "details-early", f"session details {details_tuple(det[1])} without WELCOME")
        if kind == "challenge":
            p.st = "challenge"
            if final is not False:
                raise Violation(("C17",), "final-challenge", "CHALLENGE was reported as the end of the handshake")
            if reply.authmethod != p.method:
                raise Violation(("C14", "C17"), "challenge-method", f"{canon(reply)} for a {p.method} HELLO")
            self.challenge(p, reply)
            self.ctx.probe("challenge_" + p.method)
        if kind in ("abort", "end"):
            p.st = "aborted"
            if final is not True or aborted[1] is not True:
                raise Violation(("C17",), "abort-not-final", f"{kind}: final={final!r}, is_aborted()={aborted[1]!r}")
            self.ctx.probe("abort")
        elif p.st != "aborted" and aborted[1] is not False:
            raise Violation(("C17",), "aborted-flag", f"is_aborted() is {aborted[1]!r} in state {p.st}")
        elif p.st == "aborted" and aborted[1] is not True:
            raise Violation(("C17",), "aborted-flag", f"is_aborted() is {aborted[1]!r} after an ABORT")
        if kind == "refuse":
            self.ctx.probe("refused_" + type(msg).__name__.lower())
        if kind in ("welcome", "challenge", "abort"):
            p.s2c.append(reply)
        self.ctx.log("acceptor", p.ix, canon(msg), "->", kind)
        self.ctx.state("a", p.st, p.method, p.jst, kind, type(msg).__name__)
        return kind

    def allowed(self, p, msg):
        t = type(msg)
        if p.st == "welcomed":
            return {"refuse"}
        if p.st == "aborted":
            return {"refuse", "end"}
        if t is M.Abort:
            return {"end"}
        if t is M.Hello and p.st == "none":
            p.hello = msg
            p.approved, p.denied = None, False
            if p.noauth:
                p.method = None
                return {"welcome"}
            p.method = msg.authmethods[0] if msg.authmethods else "anonymous"
            p.methods = list(msg.authmethods or [])
            if len(p.methods) > 1:
                ok = {"welcome"} if p.methods == ["anonymous"] * len(p.methods) else {"challenge", "welcome"}
                return lambda: {"refuse", "abort"} | ((ok if p.method == "anonymous" else {"challenge"})
                                                      if (p.approved and not p.denied) or "ticket" in p.methods else set())
            if p.method == "ticket":
                return {"challenge"}
            if p.method == "anonymous":
                return lambda: {"welcome"} if p.approved and not p.denied else {"abort"}
            if p.method == "wampcra":
                return lambda: {"challenge"} if p.approved and not p.denied else {"abort"}
            if p.method == "cryptosign":
                if not isinstance((msg.authextra or {}).get("pubkey"), str):
                    return {"refuse", "abort"}
                return lambda: {"challenge"} if p.approved and not p.denied else {"abort"}
            return {"refuse", "abort"}
        if t is M.Authenticate and p.st == "challenge":
            if p.shaky:
                base = {"welcome", "abort", "refuse"}
            else:
                base = {"welcome"}
            if p.method == "ticket":
                p.approved, p.denied = None, False
                p.ticket_sent = msg.signature
                return lambda: base if p.approved and not p.denied else {"abort"}
            v = verify(p, msg.signature)
            if v == "valid":
                self.ctx.probe("valid_proof_" + p.method)
                return base
            self.ctx.fault("invalid_proof_" + p.method)
            if v == "either":
                p.shaky = True
                return {"welcome", "abort", "refuse"}
            p.shaky = True
            return {"abort", "refuse"}
        return {"refuse", "abort"}

    def challenge(self, p, reply):
        if p.method == "ticket":
            return
        c = reply.extra.get("challenge")
        if not isinstance(c, str) or not c:
            raise Violation(("C14", "C16"), "no-challenge", f"{canon(reply)} carries no challenge")
        if c in self.challenges:
            raise Violation(("C16",), "challenge-repeated",
                            f"handshake {p.ix} got the challenge of handshake {self.challenges[c]}: {c[:120]!r}")
        self.challenges[c] = p.ix
        p.challenge = c
        if p.method == "wampcra" and p.approved:
            # the client signs this text: it names who is granted what
            try:
                text = json.loads(c)
                named = [text.get(k) for k in ("authid", "authrole", "authmethod")]
                named_session = text.get("session", text.get("session_id"))
            except Exception as e:
                raise Violation(("C16",), "challenge-text", f"a wampcra challenge that is no JSON object ({e}): {c[:120]!r}")
            if named != [*p.approved, "wampcra"]:
                raise Violation(("C16",), "challenge-text", f"the challenge names {named!r:.200}, the authenticator approved {p.approved!r:.100}")
            check_id(("C16",), "session id in the challenge", named_session)
            p.named_session = named_session

    # -- joiner
    def to_joiner(self, p, msg):
        before = p.jdetails
        if p.bytes:
            frame = self.with_more(p, msg)
            out, res = self.guarded(lambda: p.j.receive(frame))
            reply = p.peer.deserialize(res) if out == "ok" and res is not None else None
        else:
            was = canon(msg)
            out, res = self.guarded(lambda: p.j.receive_message(msg))
            untouched(msg, was)
            reply = res if out == "ok" else None
        det = self.guarded(p.j.get_session_details)
        t = type(msg)
        what = f"joiner in state {p.jst} on {canon(msg)[:160]}: {out} {canon(reply) if reply is not None else repr(res)[:120]}"
        joined_now = t is M.Welcome and p.jst in ("hello", "auth")
        if t is M.Abort:
            if out != "refuse" or not isinstance(res, ApplicationError):
                raise Violation(("C17",), "abort-swallowed", what)
            if (res.message != msg.reason or (msg.args and not same(list(res.args), list(msg.args)))
                    or (not msg.args and res.args) or not same(dict(res.kwargs or {}), dict(msg.kwargs or {}))):
                raise Violation(("C17",), "abort-content",
                                f"{canon(msg)} raised ApplicationError({res.message!r}, {res.args!r}, {res.kwargs!r})")
            told = str(res)
            if msg.reason not in told or any(str(a) not in told for a in msg.args or []):
                raise Violation(("C17",), "abort-text", f"{canon(msg)} reads {told!r:.200}")
            if p.jst == "joined":
                p.j_after_abort = True
            p.jst = "aborted"
            self.ctx.probe("client_saw_abort")
        elif joined_now:
            if out != "ok" or reply is not None:
                raise Violation(("C14", "C17"), "welcome-refused", what)
            want = (msg.session_id, p.user["realm"], msg.authid, msg.authrole)
            if det[0] != "ok" or details_tuple(det[1]) != want:
                raise Violation(("C14",), "joiner-details", f"{details_tuple(det[1]) if det[0] == 'ok' else det[1]!r}, WELCOME said {want!r}")
            p.jst = "joined"
            p.jdetails = want
            if p.honest and p.welcome is not None:
                mine = details_tuple(p.a.get_session_details())
                if mine != want:
                    raise Violation(("C14",), "disagreement", f"client {want!r}, router {mine!r}")
                equal_as_values(det[1], p.a.get_session_details())
                self.ctx.probe("joined_" + p.user["method"])
        elif t is M.Challenge and p.jst == "hello":
            honest_challenge = p.honest and not p.wrong
            if p.user["method"] == "anonymous" or (not isinstance(msg.extra.get("challenge"), str) and p.user["method"] != "ticket"):
                if reply is not None:
                    raise Violation(("C17",), "anonymous-proof", what)
                p.j_shaky = True
                p.jst = "lost" if out == "ok" else p.jst
            elif out == "ok" and isinstance(reply, M.Authenticate):
                bad = bad_proof(p, msg, reply.signature)
                if bad and p.honest and (p.db_user is None or p.db_user["n"] == p.user["n"]):
                    raise Violation(("C14", "C15"), "wrong-proof", f"{p.user['method']} client answered {canon(msg)[:160]} with {reply.signature[:80]!r}: {bad}")
                p.jst = "auth"
                p.c2s.append(reply)
                self.captured.append((p.ix, reply))
            elif honest_challenge:
                raise Violation(("C14",), "challenge-unanswered", what)
            else:
                p.jst = "lost"
        else:
            if out != "refuse":
                if p.jst == "lost" or p.j_shaky:
                    pass
                else:
                    raise Violation(("C17",), "unexpected-accepted", what)
            self.ctx.fault("unexpected_frame_at_client")
        det = self.guarded(p.j.get_session_details)
        if p.jst == "lost" and det[0] == "ok" and before is None:
            # it was not known what this client makes of a WELCOME; now it is
            if t is not M.Welcome:
                raise Violation(("C17", "C15"), "joined-early", what + " and session details are available")
            p.jst, p.jdetails = "joined", details_tuple(det[1])
            return out
        if p.jst not in ("joined",) and det[0] == "ok" and before is None and p.jst != "lost" and not p.j_shaky:
            raise Violation(("C17", "C15"), "joined-early", what + " and session details are available")
        if before is not None and p.jst == "joined" and (det[0] != "ok" or details_tuple(det[1]) != before):
            raise Violation(("C17", "C14"), "details-changed", what + f": details were {before!r}")
        if before is not None and det[0] == "ok" and details_tuple(det[1]) != before:
            raise Violation(("C17",), "details-changed", what + f": details were {before!r}")
        self.ctx.log("joiner", p.ix, canon(msg), "->", out, p.jst)
        return out

    def with_more(self, p, msg):
        """The frame as a peer may also send it: with entries in its dict that mean nothing to this library."""
        plain = p.peer.serialize(msg)
        pool = MORE.get(type(msg).__name__)
        if not self.cfg.get("noise") or pool is None:
            return plain
        h = values.Decor(self.cfg["noise"])._n(("more", p.ix, type(msg).__name__))
        if h % 3 == 0:
            return plain
        raw = list(msg.marshal())
        at = next((i for i, x in enumerate(raw) if isinstance(x, dict)), None)
        if at is None:
            return plain
        keys = [k for j, k in enumerate(pool) if h // 3 >> j & 1]
        raw[at] = {**{k: pool[k] for k in keys}, **raw[at]}
        name = {serializers.JSONSerializer: "json", serializers.CBORSerializer: "cbor", serializers.MsgPackSerializer: "msgpack"}[type(p.peer)]
        from dst.scen_session import encode

        try:
            more = encode(name, raw)
        except Exception:
            return plain  # only the library's own encoding has a form for what this message holds
        self.ctx.fault("unknown_handshake_entries")
        return more

    # -- honest progress
    def step(self, p, side):
        if p.jst == "none" and not p.c2s and side != "s":
            self.hello(p)
            return True
        if p.c2s and side != "s":
            self.to_acceptor(p, p.c2s.pop(0))
            return True
        if p.s2c and side != "c":
            self.to_joiner(p, p.s2c.pop(0))
            return True
        return False

    def finish(self, p):
        for _ in range(8):
            if not self.step(p, "x"):
                break

    def run_to_end_honest(self, p):
        """An honest handshake, no faults: it must end with both sides agreeing, or with the refusal the database wants."""
        fail, self.db.fail = self.db.fail, None
        self.finish(p)
        self.db.fail = fail
        user = p.user
        good = p.noauth or (not user["deny"] and not (p.wrong and user["method"] != "anonymous") and self.db_has(p))
        if good and p.jst != "joined":
            raise Violation(("C14",), "honest-not-joined",
                            f"honest {user['method']} client {user['authid']!r} ended in {p.jst}, router {p.st}")
        if not good and (p.jst == "joined" or p.st == "welcomed"):
            raise Violation(("C15",), "imposter-joined", f"{user['method']} client {user['authid']!r} joined with a wrong secret")

    def db_has(self, p):
        u = next((x for x in self.cfg["users"] if x["authid"] == p.user["authid"] and wire_method(x) == wire_method(p.user)
                  and x["realm"] == p.user["realm"]), None)
        return u is not None and u["n"] == p.user["n"]


def untouched(msg, was):
    """A message object belongs to whoever made it: the next one to use it finds it as it was."""
    if canon(msg) != was:
        raise Violation(("C21",), "message-changed", f"{was:.200} was turned into {canon(msg):.200} by being received")


def details_tuple(d):
    if not isinstance(d, SessionDetails):
        return repr(d)
    return (d.session_id, d.realm, d.authid, d.authrole)


def equal_as_values(d, other):
    """Details are equal iff everything they report is."""
    if not d == other or d != other:
        raise Violation(("C14",), "details-unequal", f"{details_tuple(d)} and {details_tuple(other)} compare unequal")
    i, realm, authid, authrole = details_tuple(d)
    for n, t in enumerate([(i + 1, realm, authid, authrole), (i, realm + "x", authid, authrole), (i, realm, authid + "x", authrole),
                           (i, realm, authid, authrole + "x")]):
        if d == SessionDetails(*t) or SessionDetails(*t) == d:
            raise Violation(("C14",), "details-equal", f"{details_tuple(d)} and {t} compare equal (they differ in value {n})")
    if d == None or d == details_tuple(d):  # noqa: E711
        raise Violation(("C14",), "details-equal", "session details compare equal to something else")


def cra_key(user):
    return (derived(user) if user["method"] == "salted" else user["secret"]).encode()


def verify(p, signature):
    """valid / invalid / either, by independent cryptography."""
    if p.method == "wampcra":
        want = hmac.new(cra_key(p.db_user), p.challenge.encode(), hashlib.sha256).digest()
        if signature == base64.b64encode(want).decode():
            return "valid"
        try:
            return "either" if base64.b64decode(signature) == want else "invalid"
        except Exception:
            return "invalid"
    if p.method == "cryptosign":
        try:
            raw = bytes.fromhex(signature)
            nacl.signing.VerifyKey(bytes.fromhex(p.hello.authextra["pubkey"])).verify(raw)
        except Exception:
            return "invalid"
        if raw[64:].hex() != p.challenge:
            return "invalid"
        return "valid" if signature == raw.hex() else "either"
    return "invalid"


def bad_proof(p, challenge, signature):
    """Why an honest client's answer to a challenge is wrong, or None."""
    user = p.user
    if user["method"] == "ticket":
        return None if signature == (near_miss(user["secret"], p.wrong - 1) if p.wrong else user["secret"]) else "not the ticket"
    c = challenge.extra["challenge"]
    if p.wrong:
        return None
    if user["method"] in ("wampcra", "salted"):
        want = base64.b64encode(hmac.new(cra_key(p.db_user or user), c.encode(), hashlib.sha256).digest()).decode()
        return None if signature == want else "not the HMAC of the challenge"
    try:
        raw = bytes.fromhex(signature)
        signing_key(user).verify_key.verify(raw)
    except Exception as e:
        return f"signature does not verify ({e})"
    return None if raw[64:].hex() == c else "signs something else"


def forged(w, p, how, sel):
    """An AUTHENTICATE the attacker makes up for p's handshake."""
    users = w.cfg["users"]
    other = users[sel % len(users)]
    c = p.challenge or "00" * 32
    good = ""
    if p.method == "wampcra" and p.db_user is not None:
        good = base64.b64encode(hmac.new(cra_key(p.db_user), c.encode(), hashlib.sha256).digest()).decode()
    elif p.method == "cryptosign" and p.db_user is not None and p.challenge:
        good = signing_key(p.db_user).sign(bytes.fromhex(c)).hex()
    elif p.method == "ticket":
        good = p.user["secret"]
    olds = [ch for ch in w.challenges if ch != p.challenge]
    if how in ("short", "long", "rawflip"):
        # the proof itself is damaged, its encoding is in order
        cra = p.method == "wampcra"
        try:
            raw = base64.b64decode(good) if cra else bytes.fromhex(good)
        except ValueError:
            raw = good.encode()
        if how == "short":
            n = len(raw)
            raw = raw[:[sel % max(1, n), n - 1, n // 2, 1, 16, 64][sel % 6]] if sel % 7 else raw[sel % 5 + 1:]
        elif how == "long":
            raw = [raw + b"\0", raw + raw, b"\0" + raw, raw + b"x" * 32][sel % 4]
        elif raw:
            i = sel % len(raw)
            raw = raw[:i] + bytes([raw[i] ^ (1 << (sel * 40503 >> 7) % 8)]) + raw[i + 1:]
        return base64.b64encode(raw).decode() if cra else raw.hex() if p.method == "cryptosign" else raw.decode("latin-1")
    if how == "part" and p.db_user is not None:
        # the right key, over something near the challenge
        if p.method == "cryptosign":
            try:
                raw = bytes.fromhex(c)
            except ValueError:
                raw = c.encode()
            near = [raw + b"x", raw + raw, b"x" + raw, raw[:16], raw[:-1], raw[1:], raw[::-1], c.encode(), c.upper().encode(), hashlib.sha256(raw).digest(), hashlib.sha512(raw).digest(),
                    base64.b64encode(raw), raw + b"\0", bytes(len(raw)), b"", raw[:8], raw[16:], raw.rstrip(raw[-1:])]
            return signing_key(p.db_user).sign(near[sel % len(near)]).hex()
        if p.method == "wampcra":
            near = [c + " ", " " + c, c + "\n", c[:-1], c[1:], c.lower(), c.upper(), c[::-1], c + c, "", c.replace(" ", ""), c[:len(c) // 2], hashlib.sha256(c.encode()).hexdigest()]
            try:
                data = json.loads(c)
                near += [json.dumps(data, sort_keys=True), json.dumps(data, separators=(",", ":")), json.dumps(data, indent=1), json.dumps(dict(reversed(data.items())))]
                near += [v if isinstance(v, str) else str(v) for v in data.values()] * 2
                near += [json.dumps({k: v for k, v in data.items() if k != drop}) for drop in data]
            except (ValueError, AttributeError):
                pass
            m = near[sel % len(near)]
            return base64.b64encode(hmac.new(cra_key(p.db_user), (m if m != c else m + "x").encode(errors="replace"), hashlib.sha256).digest()).decode()
        return c[:-1] or "part"
    if how == "password":
        # what the attacker might hold instead of the key: the raw password, the stored key, a digest of the proof
        if p.method == "wampcra" and p.db_user is not None:
            key = [p.db_user["secret"].encode(), base64.b64decode(derived(p.db_user)), p.db_user["authid"].encode(), b"secret"][sel % 4]
            if key == cra_key(p.db_user):
                key = b""
            return base64.b64encode(hmac.new(key, c.encode(), [hashlib.sha256, hashlib.sha1][sel // 4 % 8 == 7]).digest()).decode()
        if p.method == "cryptosign" and p.db_user is not None:
            return pubkey(p.db_user) * 2 + c
        return p.user["authid"] or "user"
    if how == "own_key":
        # a perfectly good proof with the attacker's own key, which AUTHENTICATE brings along
        if p.method == "cryptosign":
            try:
                return MALLORY.sign(bytes.fromhex(c)).hex()
            except ValueError:
                return ""
        if p.method == "wampcra":
            return base64.b64encode(hmac.new(b"mallory", c.encode(), hashlib.sha256).digest()).decode()
        return "mallory"
    if how == "zero":
        return base64.b64encode(b"\0" * 32).decode() if p.method == "wampcra" else "00" * 96
    if how == "empty":
        return ""
    if how == "truncate":
        return good[:-2]
    if how == "pad":
        return good + ("AAAA" if p.method == "wampcra" else "00")
    if how == "flip":
        i = sel % max(1, len(good))
        return good[:i] + ("1" if good[i:i + 1] != "1" else "2") + good[i + 1:]
    if how == "garbage":
        return "zz!" + good
    if how == "unicode":
        return "é" + good
    if how == "case":
        return good.swapcase()
    if how == "challenge_only":
        return c if p.method == "cryptosign" else base64.b64encode(c.encode()).decode()
    if how == "swap":
        return good[64:128] + good[:64] + good[128:]
    if how in ("other_challenge", "stale"):
        old = olds[sel % len(olds)] if olds else "11" * 32
        if p.method == "cryptosign":
            try:
                m = bytes.fromhex(old)
            except ValueError:
                m = b"x" * 32
            return signing_key(p.db_user or other).sign(m).hex()
        if p.method == "wampcra" and p.db_user is not None:
            return base64.b64encode(hmac.new(cra_key(p.db_user), old.encode(), hashlib.sha256).digest()).decode()
        return old
    if how == "own_message":
        if p.method == "cryptosign":
            return signing_key(p.db_user or other).sign(b"attacker").hex()
        if p.method == "wampcra":
            return base64.b64encode(hmac.new(b"", c.encode(), hashlib.sha256).digest()).decode()
        return "attacker"
    # other_key: a perfectly good proof, of somebody else
    if p.method == "cryptosign":
        k = nacl.signing.SigningKey(bytes.fromhex("%064x" % (int(other["key"], 16) ^ 5)))
        try:
            return k.sign(bytes.fromhex(c)).hex()
        except ValueError:
            return ""
    if p.method == "wampcra":
        return base64.b64encode(hmac.new(b"other" + other["secret"].encode(), c.encode(), hashlib.sha256).digest()).decode()
    return other["secret"] + "x"


def forged_extra(w, p, how, sel):
    if how != "own_key" and sel % 3:
        return {}
    return {"pubkey": MALLORY.verify_key.encode().hex(), "secret": "mallory", "key": "mallory", "ticket": "mallory", "salt": "x", "iterations": 1,
            "keylen": 32, "challenge": p.challenge or "", "authid": "admin", "authrole": "admin", "authmethod": "anonymous", "authmethods": ["anonymous"]}


def crafted_for_acceptor(w, p, kind, u):
    user = w.cfg["users"][u]
    roles = {"caller": {}}
    ex = {"pubkey": pubkey(user)}
    return [
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], [wire_method(user)], ex)),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], ["anonymous"], {})),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], None, None)),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], ["cryptosign"], {})),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], ["nosuch"], {})),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, None, [], None)),
        lambda: M.Abort(M.AbortFields({"message": "x"} if u % 2 else {}, "wamp.error.abort", [None, [], ["x", 1]][len(w.pairs) % 3], [None, {"k": 1}, {}][len(w.captured) % 3])),
        lambda: M.Welcome(M.WelcomeFields(1, {"broker": {}}, "x", "y")),
        lambda: M.Challenge(M.ChallengeFields("ticket", {})),
        lambda: M.Goodbye(M.GoodbyeFields({}, "wamp.close.close_realm")),
        lambda: M.Call(M.CallFields(1, "a.b")),
        lambda: M.Publish(M.PublishFields(1, "a.b")),
        lambda: M.Authenticate(M.AuthenticateFields(user["secret"], {})),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], ["cryptosign"], {"pubkey": "zz"})),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], ["nosuch", wire_method(user)], ex)),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], [wire_method(user), "anonymous"], ex)),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], ["anonymous", wire_method(user)], ex)),
        lambda: M.Hello(M.HelloFields(user["realm"], roles, user["authid"], ["ticket", "wampcra", "cryptosign"], ex)),
    ][kind]()


def usurping(user, kind):
    mine = MALLORY.verify_key.encode().hex()
    names = ["pubkeys", "public_key", "publickey", "publicKey", "pub_key", "Pubkey", "PUBKEY", "pubKey", "key", "keys", "pubkey_alt", "authkey", "signing_key", "trustroot", "secret", "ticket", "salt", "challenge"]
    ex = {n: mine for n in (names if kind % 3 == 0 else [names[kind]])}
    if kind % 3 != 1:
        ex = {n: [v] if n.endswith("s") or kind % 2 else v for n, v in ex.items()}
    return {"pubkey": pubkey(user), **ex} if kind % 4 else {**ex, "pubkey": pubkey(user)}


def crafted_for_joiner(w, p, kind, abort):
    return [
        lambda: M.Welcome(M.WelcomeFields(77, {"broker": {}}, "mallory", "admin")),
        lambda: M.Welcome(M.WelcomeFields(2**53, {"dealer": {}})),
        lambda: M.Challenge(M.ChallengeFields("ticket", {})),
        lambda: M.Challenge(M.ChallengeFields("wampcra", {"challenge": "{}"})),
        lambda: M.Challenge(M.ChallengeFields("cryptosign", {"challenge": "ab" * 32})),
        lambda: M.Abort(M.AbortFields({}, "wamp.error.no_such_realm")),
        lambda: M.Abort(M.AbortFields({}, *abort)),
        lambda: M.Welcome(M.WelcomeFields(78, {"broker": {}}, "mallory", "admin", ["anonymous", "ticket", None][len(w.pairs) % 3],
                                          {"realm": "other", "authid": "root", "authrole": "root", "session": 5, "session_id": 5, "id": 5, "authmethod": "x", "roles": {}, "authextra": {}})),
        lambda: M.Goodbye(M.GoodbyeFields({}, "bye")),
        lambda: M.Event(M.EventFields(1, 1)),
        lambda: M.Result(M.ResultFields(1)),
        lambda: M.Hello(M.HelloFields("r", {"caller": {}})),
        lambda: M.Authenticate(M.AuthenticateFields("x", {})),
    ][kind]()


def at_challenge(w, p, pick, sel):
    """Mostly an attack is aimed at a handshake that waits for a proof, one the attacker has begun if there is none."""
    if p.st == "challenge" or sel % 4 == 0:
        return p
    waiting = [q for q in w.pairs if q.st == "challenge"]
    if waiting:
        return waiting[pick % len(waiting)]
    u = pick % len(w.cfg["users"])
    user = w.cfg["users"][u]
    if user["method"] == "anonymous" or user["deny"] or w.db.fail or len(w.pairs) > 200:
        return p
    q = w.open(u, ["json", "cbor", "msgpack"][sel % 3], bool(sel % 2), None, False, 0, False)
    w.hello(q)
    w.to_acceptor(q, q.c2s.pop(0))
    return q


def execute(plan, ctx):
    blaming(run, plan, ctx, [("C18", "damaged frames")])


def run(plan, ctx, without):
    w = World(plan, ctx)
    w.without = without
    for op in plan["ops"]:
        ctx.tick(0.01)
        k = op[0]
        if k == "open":
            w.open(op[1] % len(w.cfg["users"]), *op[2:])
            continue
        if k == "authfail":
            w.db.fail = op[1]
            continue
        if k == "rotate":
            w.rotate(op[1] % len(w.cfg["users"]), op[2])
            continue
        if k == "clock":
            if op[1] in ("freeze", "unfreeze"):
                seams.WORLD.frozen = op[1] == "freeze"
            else:
                seams.WORLD.jump(-86400.0 if op[1] == "back" else 86400.0 * 365)
            ctx.fault("clock_" + op[1])
            continue
        if k == "reseed":
            import random

            random.seed(op[1])
            ctx.fault("prng_reseeded")
            continue
        if k == "storm":
            storm(w, ctx, op[1] % len(w.cfg["users"]), op[2])
            continue
        if not w.pairs:
            continue
        p = w.pairs[op[1] % len(w.pairs)]
        if k == "step":
            w.step(p, op[2])
        elif k == "finish":
            w.finish(p)
        elif k == "dup":
            if op[2] != "s" and p.c2s:
                p.honest = False
                ctx.fault("frame_duplicated")
                w.to_acceptor(p, p.c2s[0])
            elif p.s2c:
                p.honest = False
                ctx.fault("frame_duplicated")
                w.to_joiner(p, p.s2c[0])
        elif k == "drop":
            q = p.c2s if op[2] != "s" else p.s2c
            if q:
                q.pop(0)
                ctx.fault("frame_lost")
        elif k == "replay":
            pool = [m for ix, m in w.captured if op[3] == "any" or isinstance(m, M.Authenticate)]
            if pool:
                p = at_challenge(w, p, op[1], op[2])
                p.honest = False
                ctx.fault("frame_replayed")
                w.to_acceptor(p, pool[op[2] % len(pool)], own=False)
        elif k == "forge":
            p = at_challenge(w, p, op[1], op[3])
            p.honest = False
            w.to_acceptor(p, M.Authenticate(M.AuthenticateFields(forged(w, p, op[2], op[3]), forged_extra(w, p, op[2], op[3]))), own=False)
        elif k == "inject_a":
            p.honest = False
            ctx.fault("frame_injected")
            w.to_acceptor(p, crafted_for_acceptor(w, p, op[2], op[3] % len(w.cfg["users"])), own=False)
        elif k == "usurp":
            # HELLO names a victim, and next to the victim's key, under every name there is for one, a key of the attacker's
            p.honest = False
            ctx.fault("own_key_under_another_name")
            user = w.cfg["users"][op[3] % len(w.cfg["users"])]
            w.to_acceptor(p, M.Hello(M.HelloFields(user["realm"], {"caller": {}}, user["authid"], [wire_method(user)], usurping(user, op[2]))), own=False)
            w.to_acceptor(p, M.Authenticate(M.AuthenticateFields(forged(w, p, "own_key", op[4]), forged_extra(w, p, "own_key", op[4]))), own=False)
        elif k == "inject_j":
            p.honest = False
            ctx.fault("frame_injected")
            w.to_joiner(p, crafted_for_joiner(w, p, op[2], op[3]))
        elif k == "corrupt":
            corrupt(w, ctx, p, op)
    # faults stop; handshakes that were only delayed finish, and everybody can still join
    seams.WORLD.frozen = False
    w.db.fail = None
    for p in list(w.pairs):
        if p.honest and p.jst != "lost" and not p.denied:
            w.finish(p)
    for u in range(len(w.cfg["users"])):
        ser = ["json", "cbor", "msgpack"][(u + plan["world_seed"]) % 3]
        p = w.open(u, ser, True, {"x": u}, False, 0, False, u + plan["world_seed"] // 3 % 30)
        w.run_to_end_honest(p)
        for i in range(5):
            p = w.open(u, ser, u % 2 == 1, None, False, 0, False)
            w.run_to_end_honest(p)
            if i > 1:
                w.rotate(u, plan["world_seed"] + i)
        p = w.open(u, ser, u % 2 == 0, None, False, 1 + (u + plan["world_seed"]) % 11, False, u + plan["world_seed"] % 30)
        w.run_to_end_honest(p)
        # nothing moves a handshake that is over
        for kind in (0, 12, 6, 9):
            w.to_acceptor(p, crafted_for_acceptor(w, p, kind, u), own=False)
    if w.shared_extra != {}:
        raise Violation(("C21", "C14"), "shared-extra", f"the caller's auth_extra was changed to {w.shared_extra!r}")


def storm(w, ctx, u, n):
    """n handshakes up to the challenge with the PRNG rewound and the clock frozen before each."""
    import random

    was = seams.WORLD.frozen
    seams.WORLD.frozen = True
    ctx.fault("prng_rewound_and_clock_frozen", n)
    user = w.cfg["users"][u]
    fail, w.db.fail = w.db.fail, None
    seen, drawn = [], 0
    for _ in range(n):
        random.seed(1)
        p = w.open(u, "json", False, None, False, 0, False)
        p.st = "none"
        w.hello(p)
        was_drawn = seams.WORLD.entropy_bytes
        w.to_acceptor(p, p.c2s.pop(0))
        drawn += seams.WORLD.entropy_bytes - was_drawn
        if user["deny"] or user["method"] in ("anonymous", "ticket"):
            break
        if p.challenge:
            seen.append(p.challenge)
    w.db.fail = fail
    if len(seen) >= 16:
        # with all else standing still, what differs comes from the operating system's source
        if 0 < drawn < 8 * len(seen):
            raise Violation(("C16",), "guessable", f"{len(seen)} {user['method']} challenges were made from {drawn} random bytes, the last {seen[-1][:160]!r}")
        bits = sum(math.log2(len({c[i:i + 1] for c in seen})) for i in range(max(map(len, seen))))
        ctx.probe("challenge_entropy_measured")
        if bits < 40:
            raise Violation(("C16",), "guessable", f"{len(seen)} {user['method']} challenges vary in {bits:.0f} bits only, as in {seen[-1][:160]!r}")
    seams.WORLD.frozen = was


def corrupt(w, ctx, p, op):
    """A frame damaged on the wire. It must be refused, and the handshake must go on as if it had not come."""
    q = p.c2s if op[2] == "c" else p.s2c
    if not q or not p.bytes:
        return
    good = p.peer.serialize(q[0])
    w.db.current = p
    target = p.a.receive if op[2] == "c" else p.j.receive
    # most often one damaged frame, now and then a line full of them
    for i in range(120 if op[4] % 50 == 0 else 12 if op[4] % 5 == 0 else 1):
        data = damage(p, good, q[0], op[3], op[4] + i)
        if data is None:
            continue
        ctx.fault("frame_corrupted_" + op[3])
        if w.without == "damaged frames":
            continue
        out, res = w.guarded(lambda: target(data))
        if out != "refuse":
            raise Violation(("C18", "C17"), "garbage-accepted", f"damaged frame {data!r:.120} was accepted: {res!r:.100}")
    ctx.log("corrupt refused", p.ix, op[2], op[3])


def damage(p, good, msg, how, sel):
    from dst.scen_session import encode

    name = {serializers.JSONSerializer: "json", serializers.CBORSerializer: "cbor", serializers.MsgPackSerializer: "msgpack"}[type(p.peer)]
    if name == "cbor" and len(good) > 60000:
        return None  # cbor2 5.7.0 corrupts the heap on a string cut after its first 64 kB chunk (see DESIGN.md)
    if how == "truncate":
        return good[:len(good) - 1 - sel % max(1, len(good) - 1)] or good[:1]
    if how == "empty":
        return good[:0]
    if how == "first":
        return {"json": lambda: "}" + good[1:], "cbor": lambda: b"\xff" + good[1:], "msgpack": lambda: b"\xc1" + good[1:]}[name]()
    raw = msg.marshal()
    if how == "shape":
        bad = [raw[:-1], raw + ["x"] * 5, {"a": 1}, 7, None, "x"][sel % 6]
        # an ABORT without the arguments it carried is a message in good order
        return encode(name, bad) if wampspec.judge(bad)[1] else None
    i = 1 + sel % (len(raw) - 1)
    bad = 1.5 if not isinstance(raw[i], float) else "x"
    return encode(name, raw[:i] + [bad] + raw[i + 1:])
