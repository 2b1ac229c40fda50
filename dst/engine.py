"""Run context, violations, and the fork-per-run executor."""

import hashlib
import json
import os
import re
import resource
import signal
import struct
import sys
import traceback
from collections import Counter

from dst import seams

CPU_LIMIT_S = 60  # CPU seconds for one run that normally takes milliseconds: beyond it the code under test hangs
MEM_LIMIT = 4 << 30


ADDRESS = re.compile(r" at 0x[0-9a-f]+")


class Violation(Exception):
    def __init__(self, props, kind, msg, signature=None):
        super().__init__(f"[{','.join(props)}] {kind}: {msg}")
        self.props = tuple(props)
        self.kind = kind
        self.msg = msg
        self.signature = signature  # set when the history matches the shape of a known finding


_known = None


def known_findings():
    """signature -> (property, text) of the findings recorded and not repaired."""
    global _known
    if _known is None:
        _known = {}
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")
        if os.path.exists(path):
            for line in open(path, encoding="utf-8"):
                if line.startswith("known: property="):
                    prop, sig, text = line[len("known: property="):].split(None, 2)
                    _known[sig] = (prop, text.strip())
    return _known


class Refused:
    """The code under test refused an operation with the documented ValueError."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "refused"


class Ctx:
    """One run: event log, statistics, coverage. Logging never draws randomness or reads a clock."""

    def __init__(self, plan, keep_log=False):
        self.plan = plan
        self._h = hashlib.sha256()
        self.nlog = 0
        self.lines = [] if keep_log else None
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.steps = 0
        self.findings = Counter()
        self.foreign = Counter()
        self._drift = seams.Random(plan.get("world_seed", 0) ^ 0xC10C)
        self._pace = self._drift.choice([0, 0, 8, 40, 300])  # steps between two jumps of the clock, 0: none
        self._next_jump = self._pace and 1 + int(self._drift.expovariate(1 / self._pace))
        self.focus = plan.get("origin", {}).get("property")

    def log(self, *parts):
        line = " ".join(p if isinstance(p, str) else repr(p) for p in parts)
        if " at 0x" in line:
            line = ADDRESS.sub(" at 0x", line)
        self._h.update(line.encode("utf-8", "surrogatepass") + b"\n")
        self.nlog += 1
        if self.lines is not None:
            self.lines.append(line)

    def digest(self):
        return self._h.hexdigest()

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.states.add(struct.unpack("<q", h)[0])

    def soft(self, props, kind, msg):
        """A violation after which the run can go on: one that does not concern the property under check must not hide what follows."""
        if self.focus is None or self.focus in props:
            raise Violation(props, kind, msg)
        self.foreign[f"{'/'.join(props)} {kind}"] += 1
        self.log("FOREIGN", kind, msg)

    def finding(self, props, signature, msg):
        """A violation of a shape that may be listed in KNOWN_FINDINGS.txt; unlisted, it is an ordinary violation."""
        if signature not in known_findings():
            raise Violation(props, signature, msg, signature)
        self.findings[signature] += 1
        self.log("KNOWN", signature)

    def tick(self, dt):
        self.steps += 1
        if seams.WORLD.frozen:
            return
        seams.WORLD.now += dt
        self.drift()

    def drift(self):
        """Now and then a long time passes, or the clock is set back."""
        if not self._pace:
            return
        self._next_jump -= 1
        if self._next_jump > 0:
            return
        self._next_jump = 1 + int(self._drift.expovariate(1 / self._pace))
        by = self._drift.choice([1.0, 61.0, 61.0, 3700.0, 3700.0, 90_000.0, 90_000.0, 40 * 86400.0, -1.0, -61.0, -3700.0, -90_000.0])
        if abs(seams.WORLD.skew + by) < 3e8:
            seams.WORLD.jump(by)
            self.fault("long_idle" if by > 0 else "clock_set_back")


# what using a value of the wrong kind raises; anything else is a failure of the harness or of the machine
UNUSABLE = (AttributeError, TypeError, KeyError, IndexError, ValueError, ArithmeticError)


def attempt(props, what, fn):
    """Call the code under test. ValueError is a refusal; any other exception is a crash of the library."""
    try:
        return fn()
    except ValueError as e:
        return Refused(e)
    except Violation:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}" for f in reversed(tb) if "wampproto" in f.filename), "?")
        raise Violation(props, "crash", f"{what} raised {type(e).__name__}({e}) in {where}")


def blaming(run, plan, ctx, alternatives):
    """Run a plan; a violation that does not occur when the operations named by an alternative are left out concerns its property too.

    alternatives: [(property, label)], where run(plan, ctx, label) leaves those operations out and is the same otherwise.
    """
    try:
        run(plan, ctx, None)
    except Violation as v:
        now = seams.WORLD.now
        for prop, label in alternatives:
            if prop in v.props:
                continue
            seams.WORLD.reset(plan["world_seed"])
            try:
                run(plan, Ctx(plan), label)
            except Violation:
                continue
            v.props += (prop,)
            v.msg += f" (and not without the {label})"
        seams.WORLD.now = now
        raise


def canon(msg):
    """Printable form of a wamp message, through its public marshal()."""
    if msg is None:
        return "None"
    try:
        return f"{type(msg).__name__}{msg.marshal()!r}"
    except Exception as e:
        return f"{type(msg).__name__}<{type(e).__name__}>"


def same(a, b):
    """Deep equality that also tells True from 1 and 1 from 1.0."""
    if type(a) is not type(b):
        # bytes-like and str subclasses do not occur in the workloads
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(a == b) or (a != a and b != b) or repr(a) == repr(b)


def execute(plan, keep_log=False):
    """Execute a plan in this process. Returns a JSON-able result."""
    from dst.registry import SCENARIOS

    seams.WORLD.reset(plan["world_seed"])
    ctx = Ctx(plan, keep_log)
    res = {"ok": True}
    try:
        SCENARIOS[plan["scenario"]].execute(plan, ctx)
    except Violation as v:
        ctx.log("VIOLATION", v.kind, v.msg)
        res = {
            "ok": False,
            "props": list(v.props),
            "kind": v.kind,
            "msg": v.msg,
            "signature": v.signature,
        }
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        lib = os.path.join(seams.repo_path(), "wampproto") + os.sep
        if frames and os.path.realpath(frames[-1].filename).startswith(os.path.realpath(lib)) and "property" in plan.get("origin", {}):
            # the code under test raised where the scenario expected no exception at all
            msg = f"{type(e).__name__}({str(e)[:200]}) in {os.path.basename(frames[-1].filename)}"
            ctx.log("VIOLATION", "crash", msg)
            res = {"ok": False, "props": [plan["origin"]["property"]], "kind": "crash", "msg": msg, "signature": None}
        elif isinstance(e, UNUSABLE) and frames and "property" in plan.get("origin", {}):
            # what the code under test handed over is nothing the check can work with: None for a map, no such attribute
            # (the place is part of the kind, so that minimising does not move on to an operation cut out of shape)
            kind = f"unusable {type(e).__name__} {os.path.basename(frames[-1].filename)}:{frames[-1].name}"
            ctx.log("VIOLATION", kind, str(e)[:200])
            res = {"ok": False, "props": [plan["origin"]["property"]], "kind": kind, "msg": str(e)[:200], "signature": None}
        else:
            res = {"ok": False, "harness_error": traceback.format_exc()}
    res.update(
        digest=ctx.digest(),
        nlog=ctx.nlog,
        steps=ctx.steps,
        sim_s=round(seams.WORLD.now - seams.EPOCH, 6),
        faults=dict(ctx.faults),
        probes=dict(ctx.probes),
        states=sorted(ctx.states)[:4000],
        findings=dict(ctx.findings),
        foreign=dict(ctx.foreign),
    )
    if keep_log:
        res["log"] = ctx.lines
    return res


def fork_execute(plan, keep_log=False):
    """Execute a plan in a forked child, so that nothing one run does to the process reaches another run."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT_S, CPU_LIMIT_S + 5))
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            out = json.dumps(execute(plan, keep_log)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(out)
        except BaseException:
            code = 3
            try:
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU,):
        return _dead(plan, "hang", f"one run used more than {CPU_LIMIT_S} CPU seconds")
    if not data:
        return {"ok": False, "harness_error": f"child died, status {status}", "digest": "", "nlog": 0, "steps": 0,
                "sim_s": 0, "faults": {}, "probes": {}, "states": [], "findings": {}, "foreign": {}}
    return json.loads(data)


def _dead(plan, kind, msg):
    return {"ok": False, "props": ["*"], "kind": kind, "msg": msg, "signature": None, "digest": "", "nlog": 0,
            "steps": 0, "sim_s": 0, "faults": {}, "probes": {}, "states": [], "findings": {}, "foreign": {}}
