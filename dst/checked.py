"""Reference models of the router's broker and dealer, each wrapped round a real instance and compared call by call.

The models are the executable specification: plain dictionaries, no knowledge of the implementation's internals.
Every oracle is tagged with the properties whose violation it witnesses.
"""

import copy
from itertools import islice

from wampproto import messages as M
from wampproto import types
from wampproto.broker import Broker
from wampproto.dealer import Dealer

from dst.engine import Refused, Violation, attempt, canon, same

ID_MAX = 2**53


def fail(props, kind, msg):
    raise Violation(props, kind, msg)


def details(sid, realm="realm1", authid="user", authrole="role"):
    return types.SessionDetails(sid, realm, authid, authrole)


def check_id(props, what, value):
    if type(value) is not int or not 1 <= value <= ID_MAX:
        fail(props, "id-range", f"{what} is {value!r}, not an integer in 1..2^53")


def plain(props, m):
    """A message that carries args and kwargs says so to an application that asks how to read it."""
    if m.payload_is_binary() or m.payload is not None:
        fail(props, "payload-claimed", f"{canon(m)[:150]} claims an opaque payload: {m.payload_is_binary()!r}, {m.payload!r:.60}")


def snapshot(value):
    """What value holds now, whatever the code under test does to the object."""
    return copy.deepcopy(value) if value else value


def answer(props, what, r):
    """r, which is to be a message with its recipient (or a refusal)."""
    if not isinstance(r, Refused) and not (isinstance(getattr(r, "message", None), M.Message) and type(getattr(r, "recipient", None)) is int):
        fail(props, "no-reply", f"{what} returned {r!r:.200}")
    return r


class CheckedBroker:
    def __init__(self, ctx, name="b", props_extra=()):
        self.ctx = ctx
        self.name = name
        self.real = Broker()
        self.sessions = set()
        self.left = set()  # sessions that left at least once
        self.topics = {}  # topic -> (id, [subscriber session ids])
        self.used_sub_ids = {}  # id -> topic
        self.used_names = {}  # every topic that was ever asked for, in order
        self.pub_ids = set()
        self.published = 0

    # -- sessions
    def join(self, sid, realm="realm1"):
        r = attempt(("C03", "C09"), f"broker.add_session({sid})", lambda: self.real.add_session(details(sid, realm)))
        if sid in self.sessions:
            if not isinstance(r, Refused):
                fail(("C03", "C09"), "double-join", f"session {sid} was added twice")
            self.ctx.fault("duplicate_join")
        else:
            if isinstance(r, Refused):
                fail(("C03", "C09"), "join-refused", f"session {sid} could not be added: {r.exc}")
            self.sessions.add(sid)
        self.ctx.log(self.name, "join", sid, type(r).__name__)
        return not isinstance(r, Refused)

    def leave(self, sid):
        r = attempt(("C03", "C01", "C09"), f"broker.remove_session({sid})", lambda: self.real.remove_session(sid))
        if sid not in self.sessions:
            if not isinstance(r, Refused):
                fail(("C03", "C09"), "ghost-leave", f"unknown session {sid} was removed")
            self.ctx.fault("duplicate_leave")
        else:
            if isinstance(r, Refused):
                fail(("C03", "C09"), "leave-refused", f"session {sid} could not be removed: {r.exc}")
            self.sessions.discard(sid)
            self.left.add(sid)
            for topic in [t for t, (_, subs) in self.topics.items() if sid in subs]:
                self._drop(topic, sid)
        self.ctx.log(self.name, "leave", sid, type(r).__name__)
        self._has(props=("C03", "C01", "C09"))

    def _gone(self, *sids):
        """Requests of sessions that are not in the realm, or have been there before, concern C09 too."""
        return ("C09",) if any(s not in self.sessions or s in self.left for s in sids) else ()

    def _drop(self, topic, sid):
        subs = self.topics[topic][1]
        subs.remove(sid)
        if not subs:
            del self.topics[topic]

    def _sample(self, names, extra):
        """The names whose existence is compared now: all of them while they are few, a rotating sample of many."""
        for e in extra:
            names.setdefault(e)
        if len(names) <= 48:
            return sorted(names)
        order = list(names)
        self._cursor = (getattr(self, "_cursor", 0) + 16) % len(order)
        return sorted(set(order[self._cursor:self._cursor + 16]) | set(extra))

    def _has(self, *extra, props=("C03", "C01")):
        for t in self._sample(self.used_names, extra):
            got = attempt(("C03",), "has_subscription", lambda: self.real.has_subscription(t))
            if bool(got) != (t in self.topics):
                self.ctx.soft(props, "has-subscription",
                     f"has_subscription({t[:40]!r}) is {got!r} with subscribers {self.topics.get(t, (0, []))[1]}")

    # -- requests
    def receive(self, sid, msg):
        """Any broker request. Returns the list of (recipient, message) to deliver; [] if refused."""
        if isinstance(msg, M.Publish):
            return self._publish(sid, msg)
        r = attempt(("C03", "C01") + self._gone(sid), f"broker {canon(msg)[:120]} from {sid}", lambda: self.real.receive_message(sid, msg))
        answer(("C03", "C01"), f"broker {canon(msg)[:120]} from {sid}", r)
        refused = isinstance(r, Refused)
        if isinstance(msg, M.Subscribe):
            if sid not in self.sessions:
                if not refused:
                    fail(("C03", "C01", "C09"), "ghost-subscribe", f"unknown session {sid} subscribed")
                self.ctx.fault("request_from_departed_session")
            else:
                self._subscribed(sid, msg, r)
            self._has(msg.topic)
        elif isinstance(msg, M.Unsubscribe):
            topic = next((t for t, (i, subs) in self.topics.items() if i == msg.subscription_id and sid in subs), None)
            if sid not in self.sessions or topic is None:
                if not refused:
                    fail(("C03", "C01") + self._gone(sid), "bogus-unsubscribe",
                         f"session {sid} unsubscribed from {msg.subscription_id}, which it does not hold")
                self.ctx.fault("request_from_departed_session" if sid not in self.sessions else "bogus_unsubscribe")
            else:
                if refused:
                    fail(("C03",), "unsubscribe-refused", f"session {sid} holds {msg.subscription_id}: {r.exc}")
                self._reply(sid, msg, r, M.Unsubscribed)
                self._drop(topic, sid)
                self.ctx.probe("unsubscribed")
            self._has()
        else:
            if not refused:
                fail(("C03",), "foreign-message", f"broker accepted {canon(msg)[:80]}")
            self.ctx.fault("unsupported_message")
        self.ctx.log(self.name, sid, canon(msg), "->", canon(None if refused else r.message))
        self.ctx.state("b", len(self.sessions), sorted((len(s)) for _, s in self.topics.values()))
        return [] if refused else [(r.recipient, r.message)]

    def _reply(self, sid, msg, r, cls):
        if isinstance(r, Refused):
            fail(("C03",), "refused", f"{canon(msg)[:120]} from session {sid} refused: {r.exc}")
        if type(r.message) is not cls or r.recipient != sid or r.message.request_id != msg.request_id:
            fail(("C03",), "wrong-reply", f"{canon(msg)[:120]} from {sid} answered {canon(r.message)} to {r.recipient}")

    def _subscribed(self, sid, msg, r):
        self._reply(sid, msg, r, M.Subscribed)
        i = r.message.subscription_id
        check_id(("C22", "C03"), "subscription id", i)
        if msg.topic in self.topics:
            want, subs = self.topics[msg.topic]
            if i != want:
                fail(("C03", "C01"), "subscription-id", f"topic {msg.topic[:40]!r} has id {want}, subscriber {sid} got {i}")
            if sid not in subs:
                subs.append(sid)
            else:
                self.ctx.probe("resubscribed_while_subscribed")
        else:
            if i in self.used_sub_ids:
                self.ctx.soft(("C03", "C22"), "subscription-id-reused",
                     f"id {i} of {self.used_sub_ids[i][:40]!r} given to a new subscription of {msg.topic[:40]!r}")
            self.topics[msg.topic] = (i, [sid])
            if msg.topic in self.used_names:
                self.ctx.probe("topic_recreated")
        self.used_sub_ids[i] = msg.topic

    def _publish(self, sid, msg):
        before = snapshot((msg.args, msg.kwargs))
        r = attempt(("C01", "C02") + self._gone(sid), f"broker {canon(msg)[:120]} from {sid}", lambda: self.real.receive_publish(sid, msg))
        if sid not in self.sessions:
            if not isinstance(r, Refused):
                fail(("C01", "C09"), "ghost-publish", f"unknown session {sid} published")
            self.ctx.fault("request_from_departed_session")
            self.ctx.log(self.name, sid, canon(msg), "refused")
            return []
        if isinstance(r, Refused):
            fail(("C01",), "publish-refused", f"{canon(msg)[:120]} from session {sid} refused: {r.exc}")
        sub_id, subs = self.topics.get(msg.topic, (None, []))
        if not hasattr(r, "recipients") or not hasattr(r, "event") or not hasattr(r, "ack"):
            fail(("C01", "C02"), "no-publication", f"{canon(msg)[:120]} from session {sid} returned {r!r:.100}")
        if r.ack is not None:
            answer(("C02", "C13"), f"acknowledgement of {canon(msg)[:120]}", r.ack)
        got = list(r.recipients or [])
        if any(type(s) is not int for s in got) or sorted(got) != sorted(subs):
            extra = [s for s in got if s not in subs]
            missing = [s for s in subs if s not in got]
            gone = [s for s in extra if s not in self.sessions]
            fail(("C01", "C03", "C13") + (("C09",) if any(s in self.left for s in extra) else ()), "recipients",
                 f"publish to {msg.topic[:40]!r} addressed {got}, subscribers are {subs}: extra {extra} "
                 f"(departed {gone}), missing {missing}")
        out = []
        pub_id = None
        if subs:
            e = r.event
            if not isinstance(e, M.Event):
                fail(("C01", "C02"), "no-event", f"publish with {len(subs)} subscribers produced {e!r}")
            if e.subscription_id != sub_id:
                fail(("C01", "C02", "C03"), "event-subscription", f"event carries {e.subscription_id}, subscription is {sub_id}")
            if not same(e.args, before[0]) or not same(e.kwargs, before[1]):
                fail(("C02", "C13"), "event-content", f"{canon(msg)[:200]} became {canon(e)[:200]}")
            plain(("C01", "C24"), e)
            if e.details:
                fail(("C02",), "event-details", f"options of {canon(msg)[:120]} reach the subscribers: {canon(e)[:150]}")
            pub_id = e.publication_id
            check_id(("C22", "C02"), "publication id", pub_id)
            out += [(s, e) for s in got]
            self.ctx.probe("event_multi" if len(subs) > 1 else "event_single")
            if sid in subs:
                self.ctx.probe("publisher_is_subscriber")
        elif r.event is not None:
            fail(("C01", "C02"), "event-for-nobody", f"publish to {msg.topic[:40]!r} without subscribers produced {canon(r.event)[:120]}")
        if msg.options.get("acknowledge", False) is True:
            if r.ack is None:
                fail(("C02", "C13"), "no-ack", f"{canon(msg)[:120]} was not acknowledged")
            a = r.ack.message
            if not isinstance(a, M.Published) or r.ack.recipient != sid or a.request_id != msg.request_id:
                fail(("C02", "C13"), "wrong-ack", f"{canon(msg)[:120]} from {sid} acknowledged {canon(a)} to {r.ack.recipient}")
            if pub_id is not None and a.publication_id != pub_id:
                fail(("C02",), "ack-id", f"event has publication id {pub_id}, acknowledgement {a.publication_id}")
            pub_id = a.publication_id
            check_id(("C22", "C02"), "publication id", pub_id)
            out.append((sid, a))
            self.ctx.probe("acknowledged" if subs else "acknowledged_without_subscribers")
        elif r.ack is not None:
            fail(("C02", "C13"), "spurious-ack", f"{canon(msg)[:120]} acknowledged without request")
        if pub_id is not None:
            if pub_id in self.pub_ids:
                self.ctx.soft(("C02", "C22"), "publication-id-reused", f"publication id {pub_id} used twice")
            self.pub_ids.add(pub_id)
        self.published += 1
        if isinstance(r.recipients, list) and self.published // 8 % 2:
            r.recipients.clear()  # the list is the router's that asked: what it does with it concerns nobody else
        self.ctx.log(self.name, sid, canon(msg), "->", sorted(got), pub_id)
        return out

    def sub_ids(self, sid=None):
        return [i for t, (i, subs) in self.topics.items() if sid is None or sid in subs]


class Pending:
    __slots__ = ("inv", "caller", "req", "callee", "reg", "open", "receive_progress", "n_results", "proc")

    def __init__(self, inv, caller, req, callee, reg, open_, receive_progress, proc):
        self.proc = proc
        self.inv, self.caller, self.req, self.callee = inv, caller, req, callee
        self.reg, self.open, self.receive_progress = reg, open_, receive_progress
        self.n_results = 0


class CheckedDealer:
    def __init__(self, ctx, name="d"):
        self.ctx = ctx
        self.name = name
        self.real = Dealer()
        self.sessions = set()
        self.left = set()
        self.orphaned = set()  # procedures whose holder left
        self.procs = {}  # procedure -> (registration id, owner)
        self.reg_ids = set()
        self.inv_ids = {}  # every invocation id ever used -> (caller, req)
        self.pending = {}  # invocation id -> Pending
        self.by_call = {}  # (caller, request id) -> Pending
        self.names = {}

    # -- sessions
    def join(self, sid, realm="realm1"):
        r = attempt(("C08", "C09"), f"dealer.add_session({sid})", lambda: self.real.add_session(details(sid, realm)))
        if sid in self.sessions:
            if not isinstance(r, Refused):
                fail(("C08", "C09"), "double-join", f"session {sid} was added twice")
            self.ctx.fault("duplicate_join")
        else:
            if isinstance(r, Refused):
                fail(("C08", "C09"), "join-refused", f"session {sid} could not be added: {r.exc}")
            self.sessions.add(sid)
        self.ctx.log(self.name, "join", sid, type(r).__name__)
        return not isinstance(r, Refused)

    def leave(self, sid):
        r = attempt(("C08", "C09"), f"dealer.remove_session({sid})", lambda: self.real.remove_session(sid))
        if sid not in self.sessions:
            if not isinstance(r, Refused):
                fail(("C08", "C09"), "ghost-leave", f"unknown session {sid} was removed")
            self.ctx.fault("duplicate_leave")
            return []
        if isinstance(r, Refused):
            fail(("C08", "C09"), "leave-refused", f"session {sid} could not be removed: {r.exc}")
        self.sessions.discard(sid)
        self.left.add(sid)
        for p in [p for p, (_, owner) in self.procs.items() if owner == sid]:
            del self.procs[p]
            self.orphaned.add(p)
        want = []
        for inv in [i for i, p in self.pending.items() if sid in (p.caller, p.callee)]:
            p = self._over(inv)
            if p.caller != sid:
                want.append((p.caller, p.req))
                self.ctx.probe("callee_left_with_pending")
            else:
                self.ctx.probe("caller_left_with_pending")
        got = []
        for mr in r or []:
            m = answer(("C09",), f"dealer.remove_session({sid})", mr).message
            if not isinstance(m, M.Error) or m.message_type != M.Call.TYPE:
                fail(("C09",), "leave-reply", f"leaving session {sid} produced {canon(m)}")
            if not isinstance(m.uri, str) or not m.uri:
                fail(("C09",), "leave-reply", f"an ERROR with the URI {m.uri!r}")
            got.append((mr.recipient, m.request_id))
        if sorted(got) != sorted(want):
            fail(("C09", "C05"), "leave-answers",
                 f"session {sid} left: calls {want} lost their callee, errors were produced for {got}")
        self.ctx.log(self.name, "leave", sid, sorted(got))
        self._has(props=("C08", "C04", "C09"))
        return [(mr.recipient, mr.message) for mr in r or []]

    def _has(self, *extra, props=("C08", "C04")):
        for p in self._sample(self.names, extra):
            got = attempt(("C08",), "has_registration", lambda: self.real.has_registration(p))
            if bool(got) != (p in self.procs):
                self.ctx.soft(props, "has-registration", f"has_registration({p[:40]!r}) is {got!r}, holder {self.procs.get(p)}")

    _gone = CheckedBroker._gone
    _sample = CheckedBroker._sample

    def _over(self, inv):
        p = self.pending.pop(inv)
        del self.by_call[(p.caller, p.req)]
        return p

    def pending_by_call(self, sid, req):
        return self.by_call.get((sid, req))

    # -- requests
    def receive(self, sid, msg):
        handler = {M.Call: self._call, M.Yield: self._yield, M.Register: self._register, M.Unregister: self._unregister,
                   M.Error: self._error}.get(type(msg), self._foreign)
        out = handler(sid, msg)
        self.ctx.log(self.name, sid, canon(msg), "->", [(s, canon(m)) for s, m in out])
        self.ctx.state("d", len(self.sessions), len(self.procs),
                       sorted((p.open, p.receive_progress, min(p.n_results, 2), p.callee == p.caller,
                               self.procs.get(p.proc) == (p.reg, p.callee))
                              for p in islice(self.pending.values(), 6)))
        for s, m in out:
            if s not in self.sessions:
                fail(("C09", "C05"), "addressed-departed", f"{canon(m)[:120]} addressed to {s}, which is not in the realm")
        return out

    def _do(self, props, sid, msg):
        props += self._gone(sid)
        r = attempt(props, f"dealer {canon(msg)[:120]} from {sid}", lambda: self.real.receive_message(sid, msg))
        return answer(props, f"{canon(msg)[:120]} from {sid}", r)

    def _call(self, sid, msg):
        props = ("C04", "C05", "C12")
        payload = (msg.payload, msg.payload_serializer, msg.payload_is_binary())
        args, kwargs = snapshot(msg.args), snapshot(msg.kwargs)
        r = self._do(props + ("C07",), sid, msg)
        refused = isinstance(r, Refused)
        if sid not in self.sessions:
            if not refused:
                fail(("C04", "C09"), "ghost-call", f"call from departed session {sid} produced {canon(r.message)}")
            self.ctx.fault("request_from_departed_session")
            return []
        p = self.pending_by_call(sid, msg.request_id)
        progress = msg.options.get("progress", False) is True
        receive_progress = msg.options.get("receive_progress", False) is True
        if p is not None:
            if not p.open:
                if not refused:
                    fail(("C05", "C07"), "request-reused", f"{canon(msg)[:120]} from {sid} while it is pending: {canon(r.message)}")
                self.ctx.fault("duplicate_request_id")
                return []
            if refused:
                fail(("C07",), "chunk-refused", f"{canon(msg)[:120]} from {sid}: {r.exc}")
            pr = ("C07",)
            if not isinstance(r.message, M.Invocation):
                fail(pr, "chunk-lost", f"chunk {canon(msg)[:120]} answered {canon(r.message)}")
            if r.recipient != p.callee or r.message.request_id != p.inv or r.message.registration_id != p.reg:
                fail(pr, "chunk-misrouted",
                     f"chunk of call {p.req} of {sid} went to {r.recipient} as invocation {r.message.request_id} "
                     f"(registration {r.message.registration_id}); the call is executed by {p.callee} as {p.inv} ({p.reg})")
            p.open = progress
            self.ctx.probe("chunk" if progress else "final_chunk")
            if self.procs.get(p.proc) != (p.reg, p.callee):
                self.ctx.probe("chunk_after_unregister")
        elif msg.procedure not in self.procs:
            m = None if refused else r.message
            if refused or not isinstance(m, M.Error):
                fail(("C04",) + (("C09",) if msg.procedure in self.orphaned else ()), "no-such-procedure", f"{canon(msg)[:120]}: {r.exc if refused else canon(m)}")
            if (r.recipient != sid or m.request_id != msg.request_id or m.message_type != M.Call.TYPE
                    or m.uri != "wamp.error.no_such_procedure"):
                fail(("C04",), "no-such-procedure", f"{canon(msg)[:120]} from {sid} answered {canon(m)} to {r.recipient}")
            self.ctx.probe("no_such_procedure")
            return [(r.recipient, m)]
        else:
            reg, owner = self.procs[msg.procedure]
            if refused:
                fail(("C04", "C05"), "call-refused", f"{canon(msg)[:120]} from {sid}: {r.exc}")
            m = r.message
            if not isinstance(m, M.Invocation) or r.recipient != owner or m.registration_id != reg:
                fail(("C04", "C08") + self._gone(r.recipient), "misrouted-call",
                     f"{canon(msg)[:120]} produced {canon(m)[:120]} to {r.recipient}; {owner} holds the procedure as {reg}")
            check_id(("C22", "C04"), "invocation id", m.request_id)
            if m.request_id in self.inv_ids:
                fail(("C05", "C04", "C22"), "invocation-id-reused",
                     f"invocation id {m.request_id} of call {self.inv_ids[m.request_id]} used for call {(sid, msg.request_id)}")
            self.inv_ids[m.request_id] = (sid, msg.request_id)
            self.pending[m.request_id] = Pending(m.request_id, sid, msg.request_id, owner, reg, progress, receive_progress,
                                                msg.procedure)
            self.by_call[(sid, msg.request_id)] = self.pending[m.request_id]
            self.ctx.probe("call" if owner != sid else "self_call")
        m = r.message
        if not same(m.args, args) or not same(m.kwargs, kwargs):
            fail(("C04", "C07", "C12"), "call-content", f"{canon(msg)[:200]} became {canon(m)[:200]}")
        if (m.payload, m.payload_serializer, m.payload_is_binary()) != payload:
            fail(("C04", "C24"), "call-payload", f"payload {payload} became {(m.payload, m.payload_serializer, m.payload_is_binary())}")
        for flag, want in (("progress", progress), ("receive_progress", receive_progress)):
            if bool(m.details.get(flag, False)) != want:
                fail(("C07",), "call-flags", f"{canon(msg)[:120]} became {canon(m)[:120]}: {flag} should be {want}")
        if set(m.details or {}) - {"progress", "receive_progress", "x_payload_serializer"}:
            fail(("C04",), "call-details", f"options of {canon(msg)[:120]} reach the callee: {canon(m)[:150]}")
        return [(r.recipient, m)]

    def _yield(self, sid, msg):
        props = ("C05", "C06")
        payload = (msg.payload, msg.payload_serializer, msg.payload_is_binary())
        args, kwargs = snapshot(msg.args), snapshot(msg.kwargs)
        r = self._do(props + ("C07",), sid, msg)
        p = self.pending.get(msg.request_id)
        if p is None:
            if not isinstance(r, Refused):
                known = self.inv_ids.get(msg.request_id)
                fail(("C05", "C09"), "answer-after-end",
                     f"YIELD {msg.request_id} from {sid} (call {known} is over) produced {canon(r.message)[:120]} to {r.recipient}")
            self.ctx.fault("answer_without_pending")
            return []
        if sid != p.callee:
            if not isinstance(r, Refused):
                fail(("C06", "C05"), "hijacked", f"YIELD of {sid} for an invocation of {p.callee} produced {canon(r.message)[:120]}")
            self.ctx.fault("forged_yield")
            return []
        if isinstance(r, Refused):
            fail(("C05", "C07"), "answer-refused", f"YIELD {msg.request_id} from its callee {sid}: {r.exc}")
        m = r.message
        if not isinstance(m, M.Result) or r.recipient != p.caller or m.request_id != p.req:
            fail(("C05",), "misrouted-answer",
                 f"YIELD for call {p.req} of {p.caller} produced {canon(m)[:120]} to {r.recipient}")
        if not same(m.args, args) or not same(m.kwargs, kwargs):
            fail(("C05", "C12"), "result-content", f"{canon(msg)[:200]} became {canon(m)[:200]}")
        if (m.payload, m.payload_serializer, m.payload_is_binary()) != payload:
            fail(("C05", "C24"), "result-payload", f"payload {payload} became {(m.payload, m.payload_serializer, m.payload_is_binary())}")
        progressive = msg.options.get("progress", False) is True and p.receive_progress
        if set(m.details or {}) - {"progress", "x_payload_serializer"}:
            fail(("C05",), "result-details", f"options of {canon(msg)[:120]} reach the caller: {canon(m)[:150]}")
        if bool(m.details.get("progress", False)) != progressive:
            fail(("C07", "C05"), "result-flag",
                 f"{canon(msg)[:120]} became {canon(m)[:120]}; receive_progress was {p.receive_progress}")
        if progressive:
            p.n_results += 1
            self.ctx.probe("progressive_result")
        else:
            self._over(msg.request_id)
            self.ctx.probe("final_result_after_progress" if p.n_results else "final_result")
        return [(r.recipient, m)]

    def _error(self, sid, msg):
        args, kwargs, details = snapshot(msg.args), snapshot(msg.kwargs), snapshot(msg.details)
        r = self._do(("C05", "C06"), sid, msg)
        if msg.message_type != M.Invocation.TYPE:
            if not isinstance(r, Refused):
                fail(("C05",), "bogus-error", f"{canon(msg)[:120]} from {sid} accepted")
            self.ctx.fault("error_of_wrong_type")
            return []
        p = self.pending.get(msg.request_id)
        if p is None:
            if not isinstance(r, Refused):
                fail(("C05", "C09"), "answer-after-end", f"{canon(msg)[:120]} from {sid} produced {canon(r.message)[:120]}")
            self.ctx.fault("answer_without_pending")
            return []
        if sid != p.callee:
            if not isinstance(r, Refused):
                fail(("C06", "C05"), "hijacked", f"ERROR of {sid} for an invocation of {p.callee} produced {canon(r.message)[:120]}")
            self.ctx.fault("forged_error")
            return []
        if isinstance(r, Refused):
            fail(("C05",), "answer-refused", f"{canon(msg)[:120]} from its callee {sid}: {r.exc}")
        m = r.message
        if (not isinstance(m, M.Error) or r.recipient != p.caller or m.request_id != p.req
                or m.message_type != M.Call.TYPE):
            fail(("C05",), "misrouted-answer", f"ERROR for call {p.req} of {p.caller} produced {canon(m)[:120]} to {r.recipient}")
        if m.uri != msg.uri or not same(m.args, args) or not same(m.kwargs, kwargs) or not same(m.details, details):
            fail(("C05", "C12"), "error-content", f"{canon(msg)[:200]} became {canon(m)[:200]}")
        plain(("C05", "C24"), m)
        self._over(msg.request_id)
        self.ctx.probe("error_answer")
        return [(r.recipient, m)]

    def _register(self, sid, msg):
        r = self._do(("C08",), sid, msg)
        if sid not in self.sessions:
            if not isinstance(r, Refused):
                fail(("C08", "C09"), "ghost-register", f"departed session {sid} registered")
            self.ctx.fault("request_from_departed_session")
            return []
        if isinstance(r, Refused):
            fail(("C08",), "register-refused", f"{canon(msg)[:120]} from {sid}: {r.exc}")
        m = r.message
        if r.recipient != sid or m.request_id != msg.request_id:
            fail(("C08",), "wrong-reply", f"{canon(msg)[:120]} from {sid} answered {canon(m)} to {r.recipient}")
        if msg.procedure in self.procs:
            if (not isinstance(m, M.Error) or m.message_type != M.Register.TYPE
                    or m.uri != "wamp.error.procedure_already_exists"):
                fail(("C08",), "second-holder", f"{msg.procedure[:40]!r} is held by {self.procs[msg.procedure]}, {sid} got {canon(m)}")
            self.ctx.probe("register_conflict")
        else:
            if not isinstance(m, M.Registered):
                fail(("C08",) + (("C09",) if msg.procedure in self.orphaned else ()), "register-refused", f"{msg.procedure[:40]!r} is free, {sid} got {canon(m)}")
            check_id(("C22", "C08"), "registration id", m.registration_id)
            if m.registration_id in self.reg_ids:
                self.ctx.soft(("C08", "C22"), "registration-id-reused", f"registration id {m.registration_id} used twice")
            self.reg_ids.add(m.registration_id)
            if msg.procedure in self.names:
                self.ctx.probe("procedure_re_registered")
            self.procs[msg.procedure] = (m.registration_id, sid)
        self._has(msg.procedure)
        return [(r.recipient, m)]

    def _unregister(self, sid, msg):
        r = self._do(("C08",), sid, msg)
        proc = next((p for p, (i, o) in self.procs.items() if i == msg.registration_id and o == sid), None)
        if sid not in self.sessions or proc is None:
            if not isinstance(r, Refused):
                fail(("C08",) + self._gone(sid), "bogus-unregister", f"{sid} unregistered {msg.registration_id}, which it does not hold: {canon(r.message)}")
            self.ctx.fault("bogus_unregister")
            self._has()
            return []
        if isinstance(r, Refused):
            fail(("C08",), "unregister-refused", f"{canon(msg)[:120]} from its holder {sid}: {r.exc}")
        if type(r.message) is not M.Unregistered or r.recipient != sid or r.message.request_id != msg.request_id:
            fail(("C08",), "wrong-reply", f"{canon(msg)[:120]} from {sid} answered {canon(r.message)} to {r.recipient}")
        del self.procs[proc]
        self.ctx.probe("unregistered")
        self._has()
        return [(r.recipient, r.message)]

    def _foreign(self, sid, msg):
        r = self._do(("C08",), sid, msg)
        if not isinstance(r, Refused):
            fail(("C08", "C05"), "foreign-message", f"dealer accepted {canon(msg)[:80]}")
        self.ctx.fault("unsupported_message")
        return []
