"""Explores the Python client. Usage: pyclient_run.py JOB.json OUT.json

JOB: {"stubs": dir, "python": dir, "tier": .., "shard": i, "shards": n} or {"case": {...}}
"""
import asyncio, functools, inspect, itertools, json, struct, sys, threading, time

job = json.load(open(sys.argv[1]))
sys.dont_write_bytecode = True
sys.path[:0] = [job["stubs"], job["python"], job["lib"]]

import comfo  # noqa: E402
from comfo import exceptions, types  # noqa: E402
from twirp.client import TwirpClient, Unreachable  # noqa: E402
from twirp.errors import Errors  # noqa: E402
from twirp.exceptions import TwirpServerException  # noqa: E402

# ---- the published messages, written down by hand ----

MSG = {
    "BootInfo": [("MajorVersion", "u"), ("MinorVersion", "u"), ("BetaVersion", "u"), ("DeviceName", "s")],
    "Bypass": [("Factor", "u"), ("Level", "u"), ("Correction", "u"), ("SummerMode", "b")],
    "Temps": [(n, "f") for n in ("Comfort", "OutsideAir", "SupplyAir", "InsideAir", "ExhaustAir", "GeoHeat", "Reheating", "KitchenHood")],
    "Fans": [(n, "u") for n in ("InPercent", "OutPercent", "InSpeed", "OutSpeed")],
    "FanProfiles": [("OutAway", "u"), ("OutLow", "u"), ("OutMid", "u"), ("OutHigh", "u"), ("InFanActive", "b"), ("InAway", "u"), ("InLow", "u"), ("InMid", "u"), ("InHigh", "u"),
                    ("CurrentOut", "u"), ("CurrentIn", "u"), ("CurrentMode", "u")],
    "Errors": [("Filter", "b")],
    "Noop": [],
    "FanSpeedTarget": [("Abs", "u"), ("Rel", "b")],
    "FanProfileTarget": [("Mode", "u"), ("TargetSpeed", "u")],
    "ComfortTarget": [("ComfortTemp", "u")],
    "Modified": [("Modified", "b"), ("Original", "u"), ("Target", "u"), ("ReqTime", "s")],
}


def varint(v):
    o = bytearray()
    while v > 127:
        o.append(v & 127 | 128)
        v >>= 7
    o.append(v)
    return bytes(o)


def enc(kind, vals):
    o = b""
    for i, (n, k) in enumerate(MSG[kind], 1):
        v = vals.get(n)
        if not v:
            continue
        if k == "s":
            b = v.encode()
            o += varint(i << 3 | 2) + varint(len(b)) + b
        elif k == "f":
            o += varint(i << 3 | 5) + struct.pack("<f", v)
        else:
            o += varint(i << 3) + varint(int(v))
    return o


def dec(kind, b):
    """Decodes a request strictly; unknown fields are an error."""
    d = {n: 0 for n, _ in MSG[kind]}
    i = 0

    def vi():
        nonlocal i
        v = s = 0
        while True:
            c = b[i]
            i += 1
            v |= (c & 127) << s
            s += 7
            if c < 128:
                return v

    while i < len(b):
        t = vi()
        n, k = MSG[kind][(t >> 3) - 1]
        assert t & 7 == 0 and k in "ub"
        d[n] = vi()
    return d


# method -> (RPC, request message, answer message)
GETTERS = {"get_bootinfo": ("GetBootInfo", "BootInfo"), "get_bypass": ("GetBypass", "Bypass"), "get_temps": ("GetTemps", "Temps"), "get_fans": ("GetFans", "Fans"),
           "get_fan_profiles": ("GetFanProfiles", "FanProfiles"), "get_errors": ("GetErrors", "Errors")}


def spec(method, args):
    """What a call must do: (rpc, request message, request fields) or the exceptions it must raise."""
    if method in GETTERS:
        return GETTERS[method][0], "Noop", {}
    if method == "ping":
        return "GetBootInfo", "Noop", {}
    if method == "increase_fan_speed":
        return "SetFanSpeed", "FanSpeedTarget", {"Rel": 1}
    if method == "decrease_fan_speed":
        return "SetFanSpeed", "FanSpeedTarget", {}
    if method == "set_fan_speed":
        if args[0] not in (1, 2, 3, 4):
            return [exceptions.InvalidFanSpeed]
        return "SetFanSpeed", "FanSpeedTarget", {"Abs": args[0]}
    if method == "set_comfort_temperature":
        if args[0] is None or not 0 <= args[0] <= 255:
            return [exceptions.InvalidTemperature]
        return "SetComfortTemp", "ComfortTarget", {"ComfortTemp": args[0]}
    if method == "configure_fan_profile":
        e = []
        if args[0] not in (1, 2, 3, 4):
            e.append(exceptions.InvalidFanSpeed)
        if not 15 <= args[1] <= 100:
            e.append(exceptions.InvalidDutyPercent)
        return e or ("SetFanProfile", "FanProfileTarget", {"Mode": args[0], "TargetSpeed": args[1]})
    raise KeyError(method)


PARAMS = {"set_fan_speed": ["speed"], "set_comfort_temperature": ["temperature"], "configure_fan_profile": ["profile", "percent"]}
ALL = list(GETTERS) + ["ping", "increase_fan_speed", "decrease_fan_speed", "set_fan_speed", "set_comfort_temperature", "configure_fan_profile"]
HOST = "unit-7.example"


class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def fail(key, msg):
    raise Bad(key, msg)


# ---- the transport ----

class Request:
    def __init__(self, url, body, headers):
        self.url, self.body, self.headers = url, body, headers
        self.thread = threading.current_thread()
        self.go = threading.Event()
        self.reply = None


class Transport:
    def __init__(self):
        self.lock = threading.Condition()
        self.reqs = []
        self.gated = False
        self.loop_thread = None
        self.blocked = False
        self.open = {}  # answers to requests that come again
        self.default = None  # function Request -> reply

    def __call__(self, url, body, headers):
        r = Request(url, body, headers)
        with self.lock:
            self.reqs.append(r)
            self.lock.notify_all()
            if (url, body) in self.open:
                r.reply = self.open[url, body]
        if self.gated and r.reply is None:
            if r.thread is self.loop_thread:
                self.blocked = True
            else:
                r.go.wait(20)
        rep = r.reply or self.default(r)
        if rep[0] == "ok":
            return 200, rep[1]
        if rep[0] == "err":
            return rep[1], json.dumps({"code": rep[2], "msg": "told so"}).encode()
        if rep[0] == "garbage":
            return rep[1], b"<html>"
        e = Unreachable("no answer")
        e.timeout = rep[0] == "timeout"
        raise e

    def wait(self, n, t):
        end = time.monotonic() + t
        with self.lock:
            while len(self.reqs) < n:
                left = end - time.monotonic()
                if left <= 0:
                    return False
                self.lock.wait(left)
        return True


STATUS = {"canceled": 408, "unknown": 500, "invalid_argument": 400, "malformed": 400, "deadline_exceeded": 408, "not_found": 404, "bad_route": 404, "already_exists": 409,
          "permission_denied": 403, "unauthenticated": 401, "resource_exhausted": 429, "failed_precondition": 412, "aborted": 409, "out_of_range": 400, "unimplemented": 501,
          "internal": 500, "unavailable": 503, "data_loss": 500}


def answer_msg(method):
    if method == "ping":
        return "BootInfo"
    return GETTERS[method][1] if method in GETTERS else "Modified"


def reply_of(method, rep):
    """rep as in the case: ["ok", fields] | ["err", code] | ["unreachable"] | ["timeout"] | ["garbage", status]"""
    if rep[0] == "ok":
        return "ok", enc(answer_msg(method), rep[1])
    if rep[0] == "err":
        return "err", STATUS[rep[1]], rep[1]
    return tuple(rep)


def check_request(method, args, r):
    rpc, kind, want = spec(method, args)
    if r.url != "http://%s:3094/twirp/comfo.api.Comfo/%s" % (HOST, rpc):
        fail("request", "%s%s goes to %s, must go to %s" % (method, args, r.url, rpc))
    try:
        got = dec(kind, r.body)
    except Exception as e:
        fail("request", "%s%s sends %r, which is no %s: %r" % (method, args, r.body, kind, e))
    full = {n: 0 for n, _ in MSG[kind]}
    full.update(want)
    if got != full:
        fail("request", "%s%s sends %s, must send %s" % (method, args, got, full))


def check_result(method, args, rep, res, exc):
    """Judges the outcome of a call whose request got the reply."""
    what = "%s%s with answer %s" % (method, tuple(args), rep)
    if rep[0] == "ok":
        if exc is not None:
            fail("result", "%s raised %r" % (what, exc))
        if method == "ping":
            if res is not True:
                fail("result", "%s returned %r" % (what, res))
        elif method in GETTERS:
            for n, k in MSG[GETTERS[method][1]]:
                v = rep[1].get(n, {"u": 0, "b": False, "s": "", "f": 0.0}[k])
                g = getattr(res, n, "missing")
                if g != v or type(g) is not type(v):
                    fail("result", "%s returned %s=%r" % (what, n, g))
            try:
                if not isinstance(repr(res), str):
                    raise TypeError
            except Exception as e:
                fail("result", "%s returned an object that cannot be printed (%s)" % (what, type(e).__name__))
        elif res is not rep[1].get("Modified", False):
            fail("result", "%s returned %r" % (what, res))
        return
    if rep == ["err", "invalid_argument"] and method in ("increase_fan_speed", "decrease_fan_speed"):
        if exc is not None or res is not False:
            fail("step-limit", "%s returned %r, raised %r; the speed was not changed" % (what, res, exc))
        return
    if not isinstance(exc, TwirpServerException):
        fail("error-lost", "%s returned %r, raised %r" % (what, res, exc))
    want = {"err": rep[-1], "unreachable": "unavailable", "timeout": "deadline_exceeded", "garbage": "unknown"}[rep[0]]
    if exc.code is not Errors(want):
        fail("error-lost", "%s raised %r with code %s" % (what, exc, exc.code))


def call(c, method, args, style):
    f = getattr(c, method)
    if style:
        return functools.partial(f, **dict(zip(PARAMS.get(method.replace("async_", ""), []), args)))
    return functools.partial(f, *args)


def outcome(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def judge(t, n, method, args, rep, res, exc):
    """A call made on its own: its requests are t.reqs[n:]."""
    sp = spec(method, args)
    if isinstance(sp, list):
        if len(t.reqs) != n:
            fail("validation", "%s%s sent a request" % (method, tuple(args)))
        if type(exc) not in sp:
            fail("validation", "%s%s returned %r, raised %r; must raise %s" % (method, tuple(args), res, exc, " or ".join(e.__name__ for e in sp)))
        return
    if len(t.reqs) != n + 1:
        fail("request", "%s%s made %d requests (result %r, %r)" % (method, tuple(args), len(t.reqs) - n, res, exc))
    check_request(method, args, t.reqs[n])
    check_result(method, args, rep, res, exc)


# ---- one event loop in a thread of its own ----

class Loop:
    def __init__(self):
        self.loop = asyncio.new_event_loop()
        self.thread = threading.Thread(target=self.loop.run_forever, daemon=True)
        self.thread.start()

    def run(self, coro, t=30):
        return asyncio.run_coroutine_threadsafe(coro, self.loop).result(t)

    def start(self, coro):
        return asyncio.run_coroutine_threadsafe(coro, self.loop)

    def alive(self):
        e = threading.Event()
        self.loop.call_soon_threadsafe(e.set)
        return e.wait(10)

    def close(self):
        async def down():
            await self.loop.shutdown_default_executor()
        try:
            self.run(down())
        except Exception:
            pass
        self.loop.call_soon_threadsafe(self.loop.stop)
        self.thread.join(10)
        self.loop.close()


_shared = None


def shared():
    global _shared
    if _shared is None:
        _shared = Loop()
    return _shared


def make(how, lp):
    """A client and the loop its asynchronous calls must run on."""
    async def inside(**kw):
        return comfo.Comfo(HOST, **kw)
    if how == "given":
        return comfo.Comfo(HOST, lp.loop)
    if how == "keyword":
        return comfo.Comfo(host=HOST, loop=lp.loop)
    if how == "inside":
        return lp.run(inside())
    if how == "given inside":
        return lp.run(inside(loop=lp.loop))
    if how == "given inside another":
        o = Loop()
        try:
            return o.run(inside(loop=lp.loop))
        finally:
            o.close()
    if how == "none":
        return comfo.Comfo(HOST)
    raise KeyError(how)


async def acall(c, method, args, style):
    r = call(c, "async_" + method, args, style)()
    if not inspect.isawaitable(r):
        fail("async", "async_%s returns %r, which cannot be awaited" % (method, r))
    return await r


def run_case(case):
    """Runs a case; returns its outcome, raises Bad."""
    t = Transport()
    TwirpClient.transport = staticmethod(t)
    kind = case["kind"]
    if kind == "sync":
        c = make("none", None)
        t.default = lambda r: reply_of(case["method"], case["reply"])
        n = 0
        for _ in range(case.get("times", 1)):
            n = len(t.reqs)
            res, exc = outcome(call(c, case["method"], case["args"], case["style"]))
            judge(t, n, case["method"], case["args"], case["reply"], res, exc)
        return "%r %r %d" % (type(res).__name__ if case["reply"][0] == "ok" else res, exc, len(t.reqs)), 2 + len(t.reqs)
    if kind == "async":
        lp = Loop() if case["how"] != "shared" else shared()
        try:
            c = make(case["how"] if case["how"] != "shared" else "given", lp)
            t.gated, t.loop_thread = True, lp.thread
            t.default = lambda r: reply_of(case["method"], case["reply"])
            f = lp.start(acall(c, case["method"], case["args"], case["style"]))
            sp = spec(case["method"], case["args"])
            if not isinstance(sp, list):
                for _ in range(2000):
                    if t.wait(1, 0.01) or f.done():
                        break
                if not lp.alive() or t.blocked:
                    fail("blocking", "async_%s%s makes its request in the thread of the event loop" % (case["method"], tuple(case["args"])))
                for r in t.reqs:
                    r.go.set()
            res, exc = outcome(lambda: f.result(20))
            if isinstance(exc, Bad):
                raise exc
            judge(t, 0, case["method"], case["args"], case["reply"], res, exc)
        finally:
            for r in t.reqs:
                r.go.set()
            if case["how"] != "shared":
                lp.close()
        return "%r %r" % (type(res).__name__ if case["reply"][0] == "ok" else res, exc), 3
    if kind == "overlap":
        lp = shared()
        c = make("given", lp)
        t.gated, t.loop_thread = True, lp.thread
        t.default = lambda r: ("unreachable",)
        calls = case["calls"]
        fs = [lp.start(acall(c, m, a, 0)) for m, a, _ in calls]
        try:
            t.wait(len(calls), 3)
            if not lp.alive() or t.blocked:
                fail("blocking", "with %s under way the event loop is blocked" % [m for m, _, _ in calls])
            left = list(range(len(calls)))
            used = set()
            gone = case.get("cancel")
            if gone is not None:
                fs[gone].cancel()
                if not lp.alive():
                    fail("blocking", "cancelling a call blocks the event loop")
            outs = []
            order, tries = list(case["order"]), 0
            while order:
                i = order.pop(0)
                m, a, rep = calls[i]
                # its request, among those waiting
                mine = None
                end = time.monotonic() + (1 if order else 10)
                while mine is None and time.monotonic() < end:
                    with t.lock:
                        rs = list(t.reqs)
                    for r in rs:
                        if id(r) in used and not any(same(calls, i, j) for j in range(len(calls)) if j != i):
                            continue
                        try:
                            check_request(m, a, r)
                        except Bad:
                            continue
                        mine = r
                        break
                    else:
                        time.sleep(0.002)
                if mine is None:
                    if gone == i:
                        continue
                    if order and tries < len(calls):
                        # not asked before another call is answered: a client may do so
                        order.append(i)
                        tries += 1
                        continue
                    fail("request", "no request of %s%s among %s" % (m, tuple(a), [(r.url, r.body) for r in t.reqs]))
                with t.lock:
                    t.open[mine.url, mine.body] = reply_of(m, rep)
                    rs = list(t.reqs)
                for r in rs:
                    # the same request of another call gets the same answer at the same time
                    if (r.url, r.body) == (mine.url, mine.body):
                        used.add(id(r))
                        r.reply = reply_of(m, rep)
                        r.go.set()
                left.remove(i)
                if gone == i:
                    continue
                res, exc = outcome(lambda: fs[i].result(20))
                if isinstance(exc, Bad):
                    raise exc
                check_result(m, a, rep, res, exc)
                outs.append("%s:%r" % (m, exc))
                for j in left:
                    if j != gone and fs[j].done() and not same(calls, i, j):
                        fail("mixed-up", "%s ended before its request was answered (%s was)" % (calls[j][0], m))
            if len(t.reqs) != len(calls):
                fail("request", "%d requests for %d calls" % (len(t.reqs), len(calls)))
            # and the client still works
            n = len(t.reqs)
            t.gated, t.open = False, {}
            t.default = lambda r: reply_of("get_fans", ["ok", {"InPercent": 3}])
            res, exc = outcome(lambda: lp.run(acall(c, "get_fans", [], 0)))
            judge(t, n, "get_fans", [], ["ok", {"InPercent": 3}], res, exc)
        finally:
            for r in t.reqs:
                r.go.set()
        return ",".join(outs), 2 * len(calls) + 2
    if kind == "interleaved":
        outs, n, k = [], 0, 0
        while True:
            k += 1
            o, reached, steps = interleaved(t, case["calls"], k, case["whole"])
            outs.append(o)
            n += steps
            if not reached:
                break
        return "%d %s" % (k, ",".join(sorted(set(outs)))), n
    raise KeyError(kind)


ROOTS = (job["python"], job["stubs"])


class Stopper:
    """Stops the first thread that runs the client's code at its k-th line."""

    def __init__(self, k):
        self.k, self.n, self.who = k, 0, None
        self.stopped, self.go = threading.Event(), threading.Event()

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOTS):
            return None
        if self.who is None:
            self.who = threading.get_ident()
        return self.line if self.who == threading.get_ident() else None

    def line(self, frame, event, arg):
        if event == "line" and not self.stopped.is_set():
            self.n += 1
            if self.n == self.k:
                self.stopped.set()
                self.go.wait(20)
        return self.line


def interleaved(t, calls, k, whole):
    """The first call is stopped at its k-th line, the second runs to its end (or until its
    request is at the server) meanwhile."""
    del t.reqs[:]
    t.gated = False
    lp = Loop()
    s = Stopper(k)
    hold, held = threading.Event(), threading.Event()

    def reply(r):
        for m, a, rep in calls:
            try:
                check_request(m, a, r)
            except Bad:
                continue
            if not whole and s.who != threading.get_ident() and s.stopped.is_set():
                held.set()
                hold.wait(20)
            return reply_of(m, rep)
        return ("unreachable",)
    t.default = reply
    try:
        c = make("given", lp)
        threading.settrace(s.call)
        fs = [lp.start(acall(c, *calls[0][:2], 0))]
        while not s.stopped.is_set() and not fs[0].done():
            s.stopped.wait(0.0005)
        reached = s.stopped.is_set()
        threading.settrace(None)
        fs.append(lp.start(acall(c, *calls[1][:2], 0)))
        end = time.monotonic() + 0.05  # unless it waits for the first one
        while reached and not fs[1].done() and not held.is_set() and time.monotonic() < end:
            time.sleep(0.0002)
        s.go.set()
        r = [None, None]
        end = time.monotonic() + 0.3  # unless the first one waits for the second
        while not fs[0].done() and time.monotonic() < end:
            time.sleep(0.0002)
        hold.set()
        r[0] = outcome(lambda: fs[0].result(20))
        r[1] = outcome(lambda: fs[1].result(20))
        where = "stopped at line %d while %s%s was made" % (k, calls[1][0], tuple(calls[1][1]))
        for (m, a, rep), (res, exc) in zip(calls, r):
            if isinstance(exc, Bad):
                raise exc
            if len(t.reqs) != 2:
                fail("request", "%s%s %s: %d requests" % (calls[0][0], tuple(calls[0][1]), where, len(t.reqs)))
        left = list(t.reqs)
        for m, a, rep in calls:
            for q in left:
                try:
                    check_request(m, a, q)
                except Bad:
                    continue
                left.remove(q)
                break
            else:
                fail("request", "%s%s %s: no request of %s%s among %s" % (calls[0][0], tuple(calls[0][1]), where, m, tuple(a), [(q.url[-14:], q.body) for q in t.reqs]))
        for (m, a, rep), (res, exc) in zip(calls, r):
            try:
                check_result(m, a, rep, res, exc)
            except Bad as e:
                fail(e.key, "%s%s %s: %s" % (calls[0][0], tuple(calls[0][1]), where, e))
        return "%r" % [type(e).__name__ for _, e in r], reached, s.n + 4
    finally:
        threading.settrace(None)
        s.go.set()
        hold.set()
        lp.close()


def same(calls, i, j):
    """The two calls make the same request."""
    return spec(*calls[i][:2]) == spec(*calls[j][:2])


# ---- the cases ----

SAMPLES = {"u": [0, 1, 127, 128, 255, 65535, 2**32 - 1], "b": [False, True], "s": ["", "CA350 luxe", "é\uFFFD x"], "f": [0.0, -20.0, 20.5, 107.5]}


def answers(m):
    fs = MSG[m]
    base = {n: {"u": 11 + i, "b": i % 2 == 0, "s": "name", "f": 1.5 + i}[k] for i, (n, k) in enumerate(fs)}
    yield {}
    yield dict(base)
    for i, (n, k) in enumerate(fs):
        for v in SAMPLES[k]:
            d = dict(base)
            d[n] = v
            yield d


def arguments(method):
    wide = list(range(-3, 301)) + [2**16, 2**16 + 2, 2**31, 2**32, 2**32 + 2, 2**64 + 3, -2**32 + 2]
    if method == "set_fan_speed":
        return [[v] for v in wide]
    if method == "set_comfort_temperature":
        return [[v] for v in wide + [None]]
    if method == "configure_fan_profile":
        return [[p, q] for p in (-1, 0, 1, 2, 3, 4, 5, 15, 50, 255, 257, 2**32 + 1) for q in list(range(-2, 112)) + [255, 256, 271, 300, 2**32 + 50]]
    return [[]]


def replies(method, args):
    if isinstance(spec(method, args), list):
        yield ["ok", {"Modified": True}]
        return
    for a in answers(answer_msg(method)):
        yield ["ok", a]
    for code in STATUS:
        yield ["err", code]
    yield ["unreachable"]
    yield ["timeout"]
    yield ["garbage", 502]


def few(method):
    m = answer_msg(method)
    yield ["ok", {n: {"u": 21 + i, "b": True, "s": "x", "f": 2.5} [k] for i, (n, k) in enumerate(MSG[m])}]
    yield ["err", "internal"]
    yield ["err", "invalid_argument"]
    yield ["unreachable"]


TYPICAL = {"set_fan_speed": [[1], [4], [0], [5]], "set_comfort_temperature": [[0], [255], [21], [256], [None]], "configure_fan_profile": [[1, 15], [4, 100], [2, 14], [0, 50], [3, 101]]}


def cases(tier):
    for m in ALL:
        ar = arguments(m)
        for k, a in enumerate(ar):
            full = len(ar) == 1 or a in TYPICAL.get(m, [])
            for rep in (replies(m, a) if full else few(m)):
                for style in ([0, 1] if m in PARAMS else [0]):
                    yield dict(kind="sync", method=m, args=a, reply=rep, style=style)
        for a in TYPICAL.get(m, [[]]):
            for rep in few(m):
                yield dict(kind="sync", method=m, args=a, reply=rep, style=0, times=3)
    for m in ALL:
        for a in (arguments(m) if tier == "thorough" else TYPICAL.get(m, [[]])):
            for rep in replies(m, a):
                for style in ([0, 1] if m in PARAMS else [0]):
                    yield dict(kind="async", how="shared", method=m, args=a, reply=rep, style=style)
    for how in ("given", "keyword", "inside", "given inside", "given inside another"):
        for m in ALL:
            for rep in itertools.islice(few(m), 2):
                yield dict(kind="async", how=how, method=m, args=TYPICAL.get(m, [[]])[0], reply=rep, style=0)
    ov = [(m, a) for m in ALL for a in TYPICAL.get(m, [[]])[:2]]
    for x, y in itertools.product(ov, ov):
        for rx in itertools.islice(few(x[0]), 2):
            for ry in itertools.islice(few(y[0]), 2):
                if spec(*x) == spec(*y) and rx != ry:
                    continue  # the same request twice: nothing tells them apart
                for order in ([0, 1], [1, 0]):
                    yield dict(kind="overlap", calls=[[x[0], x[1], rx], [y[0], y[1], ry]], order=order)
        r = [next(few(x[0])), next(few(y[0]))]
        if x != y:
            for gone in (0, 1):
                yield dict(kind="overlap", calls=[[x[0], x[1], r[0]], [y[0], y[1], r[1]]], order=[0, 1], cancel=gone)
    for x, y in itertools.product(ov, ov):
        rs = [list(few(x[0])), list(few(y[0]))]
        for rx, ry in ([(0, 0), (0, 1), (1, 0)] if tier == "thorough" else [(0, 1)]):
            for whole in (True, False):
                if spec(*x) == spec(*y) and rx != ry or not isinstance(spec(*x), tuple) or not isinstance(spec(*y), tuple):
                    continue
                yield dict(kind="interleaved", calls=[[x[0], x[1], rs[0][rx]], [y[0], y[1], rs[1][ry]]], whole=whole)
    some = [("get_temps", []), ("set_fan_speed", [4]), ("decrease_fan_speed", []), ("configure_fan_profile", [2, 50]), ("set_comfort_temperature", [21])]
    if tier == "thorough":
        some += [("increase_fan_speed", []), ("get_fans", []), ("ping", [])]
    n = 4
    for cs in itertools.combinations(some, n):
        for order in itertools.permutations(range(n)):
            for bad in range(2 ** n):
                yield dict(kind="overlap", calls=[[m, a, (["err", "internal"] if bad >> i & 1 else next(few(m)))] for i, (m, a) in enumerate(cs)], order=list(order))


def constants():
    want = dict(SPEED_OFF=1, SPEED_LOW=2, SPEED_MEDIUM=3, SPEED_HIGH=4)
    for n, v in want.items():
        if getattr(types.FanProfiles, n, None) != v:
            fail("constants", "FanProfiles.%s is %r" % (n, getattr(types.FanProfiles, n, None)))


def one(case):
    try:
        o, n = run_case(case)
        return None, o, n
    except Bad as e:
        return dict(key=e.key, msg=str(e)), None, 0


def main():
    if "case" in job:
        v, o, _ = one(job["case"])
        json.dump(dict(violation=v, outcome=o), open(sys.argv[2], "w"))
        return
    out = dict(executions=0, transitions=0, outcomes={}, by={}, repeated=0, samples=[], violations=[], complete=True)
    end = time.monotonic() + job["budget"]
    try:
        constants()
    except Bad as e:
        out["violations"].append(dict(key=e.key, msg=str(e), case=None))
    for i, case in enumerate(cases(job["tier"])):
        if i % job["shards"] != job["shard"]:
            continue
        if time.monotonic() > end:
            out["complete"] = False
            break
        v, o, n = one(case)
        if v is not None:
            # believe it only if it happens every time
            if all(one(case)[0] is not None for _ in range(3)):
                out["violations"].append(dict(v, case=case))
                break
            continue
        out["executions"] += 1
        out["transitions"] += n
        out["by"][case["kind"]] = out["by"].get(case["kind"], 0) + 1
        k = "%s %s %s" % (case["kind"], case.get("method"), o)
        if k not in out["outcomes"]:
            out["outcomes"][k] = 1
            if len(out["samples"]) < 4:
                out["samples"].append("%s -> %s" % (json.dumps(case), o))
        if out["executions"] % 97 == 1:
            v2, o2, _ = one(case)
            if v2 is None and o2 == o:
                out["repeated"] += 1
    out["outcomes"] = sorted(out["outcomes"])
    json.dump(out, open(sys.argv[2], "w"))


main()
import os  # noqa: E402
sys.stdout.flush()
os._exit(0)
