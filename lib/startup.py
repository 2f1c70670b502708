"""C23: the program itself, in every configuration."""
import http.client, itertools, json, os, signal, socket, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

import driver, pyclient, simunit

ASSUME = [
    "the real program on the loopback network and pseudo terminals, in real time; waiting times are generous and a failure is believed only if it happens three times",
]
UP, DOWN = 30.0, 30.0  # seconds for coming up and for giving up
API = "/twirp/comfo.api.Comfo/"


class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


_ports = threading.Lock()
_given = set()


def free_port(addr="127.0.0.1", family=socket.AF_INET):
    """A port nobody listens on (and no other run here uses)."""
    with _ports:
        for _ in range(200):
            s = socket.socket(family, socket.SOCK_STREAM)
            s.bind((addr, 0))
            p = s.getsockname()[1]
            s.close()
            if p not in _given:
                _given.add(p)
                return p
    raise driver.CheckError("no free port")


def has_ipv6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        s.bind(("::1", 0))
        s.close()
        return True
    except OSError:
        return False


def has_name():
    try:
        return ("127.0.0.1", 1) in [a[4] for a in socket.getaddrinfo("localhost", 1, socket.AF_INET, socket.SOCK_STREAM)]
    except OSError:
        return False


def has_pty():
    try:
        a, b = os.openpty()
        os.ttyname(b)
        os.close(a)
        os.close(b)
        return True
    except OSError:
        return False


def post(host, port, method, body="{}", timeout=60):
    c = http.client.HTTPConnection(host, port, timeout=timeout)
    try:
        c.request("POST", API + method, body, {"Content-Type": "application/json"})
        r = c.getresponse()
        b = r.read()
        return r.status, b
    finally:
        c.close()


class Run:
    """One start of the program."""

    def __init__(self, binary, work, flags, env, style=0):
        self.dir = tempfile.mkdtemp(dir=work)
        args = []
        for k, v in flags:
            if v is True:
                args.append("--" + k)
            elif style == 0:
                args += ["--" + k, v]
            else:
                args.append("--%s=%s" % (k, v))
        e = {"PATH": "/usr/bin:/bin", "HOME": self.dir}
        e.update({"COMFO_" + k.upper(): v for k, v in env})
        self.cmd = "%s comfo %s" % (" ".join("COMFO_%s=%s" % (k.upper(), v) for k, v in env), " ".join(args))
        self.out = open(os.path.join(self.dir, "out"), "wb")
        self.p = subprocess.Popen([binary] + args, env=e, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.out, start_new_session=True)

    def output(self):
        self.out.flush()
        with open(os.path.join(self.dir, "out"), errors="replace") as f:
            return f.read()

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.out.close()

    def boot(self, host, port, want, t=UP):
        """Waits for the API and for the name of the unit it talks to."""
        end = time.monotonic() + t
        last = None
        while time.monotonic() < end:
            if self.p.poll() is not None:
                raise Bad("not-serving", "%s ended with %d: %s" % (self.cmd, self.p.returncode, self.output()[-600:]))
            try:
                st, b = post(host, port, "GetBootInfo", timeout=10)
                last = (st, b)
                if st == 200:
                    n = json.loads(b).get("DeviceName")
                    if want is None or n == want:
                        return n
                    if n:
                        raise Bad("wrong-unit", "%s talks to unit %r, must talk to %r" % (self.cmd, n, want))
            except (OSError, http.client.HTTPException) as e:
                last = e
            time.sleep(0.02)
        raise Bad("not-serving", "%s does not serve %s:%s (%r): %s" % (self.cmd, host, port, last, self.output()[-600:]))

    def gives_up(self, host=None, port=None):
        """Waits for the program to end with an error, and sees that it never serves."""
        end = time.monotonic() + DOWN
        while self.p.poll() is None:
            if port:
                try:
                    socket.create_connection((host, port), timeout=1).close()
                    raise Bad("serving", "%s serves although it must not: %s" % (self.cmd, self.output()[-600:]))
                except OSError:
                    pass
            if time.monotonic() > end:
                raise Bad("serving", "%s neither serves nor ends: %s" % (self.cmd, self.output()[-600:]))
            time.sleep(0.02)
        if self.p.returncode == 0:
            raise Bad("exit-status", "%s ended with status 0: %s" % (self.cmd, self.output()[-600:]))
        return self.p.returncode


def settings(how, name, good, other):
    """Where a setting comes from: (flags, env)."""
    if how == "flag":
        return [(name, good)], []
    if how == "env":
        return [], [(name, good)]
    if how == "flag over env":
        return [(name, good)], [(name, other)]
    if how == "flag, env empty":
        return [(name, good)], [(name, "")]
    raise KeyError(how)


SPECIAL = bytes([0x0D, 0x0A, 0x11])  # version bytes a terminal may mangle


def with_units(f):
    units = []

    def tcp(name, addr="127.0.0.1", family=socket.AF_INET):
        u = simunit.TCPUnit(addr, family)
        u.state["boot"] = bytearray(SPECIAL) + name.encode().ljust(10)
        units.append(u)
        return u

    def pty(name):
        u = simunit.PTYUnit()
        u.state["boot"] = bytearray(SPECIAL) + name.encode().ljust(10)
        u.state["temps"] = bytearray([0x03, 0x13, 0x7F, 0x04, 0x1A, 0x0F, 0x1C, 0x07, 0x15])
        units.append(u)
        return u

    try:
        return f(tcp, pty)
    finally:
        for u in units:
            u.close()


def run_case(binary, work, case):
    """Returns (outcome, events); raises Bad."""
    return with_units(lambda tcp, pty: KINDS[case["kind"]](binary, work, case, tcp, pty))


def serves(binary, work, case, tcp, pty):
    """Settings from the command line and the environment in every combination."""
    mode = case["mode"]
    if mode == "tcp":
        good, other = tcp("GOOD"), tcp("OTHER")
        t, o = "127.0.0.1:%d" % good.port, "127.0.0.1:%d" % other.port
    else:
        good, other = pty("GOOD"), pty("OTHER")
        t, o = good.name, other.name
    port, port2 = free_port(), free_port()
    flags, env = [], []
    for how, name, g, b in ((case["from"][0], "mode", mode, "serial" if mode == "tcp" else "tcp"), (case["from"][1], "target", t, o),
                            (case["from"][2], "listen", "127.0.0.1:%d" % port, "127.0.0.1:%d" % port2)):
        f, e = settings(how, name, g, b)
        flags += f
        env += e
    if case.get("reverse"):
        flags.reverse()
    if case.get("debug") == "flag":
        flags.insert(0, ("debug", True))
    elif case.get("debug") == "env":
        env.append(("debug", "true"))
    r = Run(binary, work, flags, env, case["style"])
    try:
        r.boot("127.0.0.1", port, "GOOD")
        if mode == "tcp" and other.accepted or other.seen:
            raise Bad("wrong-unit", "%s also connects to another unit" % r.cmd)
        if mode == "tcp" and good.accepted != 1:
            raise Bad("wrong-unit", "%s makes %d connections to the unit" % (r.cmd, good.accepted))
        try:
            socket.create_connection(("127.0.0.1", port2), timeout=1).close()
            raise Bad("address", "%s serves another address than the one it was given" % r.cmd)
        except OSError:
            pass
        st, b = post("127.0.0.1", port, "GetBootInfo")
        d = json.loads(b)
        if [d["MajorVersion"], d["MinorVersion"], d["BetaVersion"]] != list(SPECIAL):
            raise Bad("bytes", "%s: versions %s of a unit that says %s" % (r.cmd, d, list(SPECIAL)))
        if mode == "serial":
            sp = good.speed()
            if sp != [simunit_b9600(), simunit_b9600()]:
                raise Bad("line", "%s does not use the serial line at 9600 baud" % r.cmd)
        st, b = post("127.0.0.1", port, "FlushCache", '{"Cache": "All"}')
        if st != 200 or json.loads(b).get("Success") is not True:
            raise Bad("bytes", "%s: FlushCache gives %d %s" % (r.cmd, st, b))
        st, b = post("127.0.0.1", port, "GetTemps")
        w = good.state["temps"]
        want = [float(w[i] // 2 - 20) for i in (0, 1, 2, 3, 4, 6, 7, 8)]
        d = json.loads(b)
        got = [d[n] for n in ("Comfort", "OutsideAir", "SupplyAir", "InsideAir", "ExhaustAir", "GeoHeat", "Reheating", "KitchenHood")]
        if got != want:
            raise Bad("bytes", "%s: temperatures %s, the unit says %s" % (r.cmd, got, want))
        st, b = post("127.0.0.1", port, "SetComfortTemp", '{"ComfortTemp": 26}')
        if st != 200 or good.state["temps"][0] != 92:
            raise Bad("bytes", "%s: SetComfortTemp gives %d %s" % (r.cmd, st, b))
        dbg = "DEBUG" in r.output()
        if dbg != bool(case.get("debug")):
            raise Bad("debug", "%s: debug messages %s" % (r.cmd, "appear" if dbg else "are missing"))
        return "serves %s" % mode, 6
    finally:
        r.close()


def simunit_b9600():
    import termios
    return termios.B9600


def defaults(binary, work, case, tcp, pty):
    """Settings left out."""
    if case["what"] == "mode":  # serial
        u = pty("GOOD")
        port = free_port()
        r = Run(binary, work, [("target", u.name), ("listen", "127.0.0.1:%d" % port)], case["env"])
        try:
            r.boot("127.0.0.1", port, "GOOD")
        finally:
            r.close()
        return "serial by default", 2
    if case["what"] == "listen":
        for h in ("127.0.0.1",):
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind((h, 3094))
            except OSError:
                return "port 3094 is taken here", 0
            finally:
                s.close()
        u = tcp("GOOD")
        r = Run(binary, work, [("mode", "tcp"), ("target", "127.0.0.1:%d" % u.port)], case["env"])
        try:
            r.boot("127.0.0.1", 3094, "GOOD")
            r.boot("::1", 3094, "GOOD")
        finally:
            r.close()
        return "port 3094 by default", 3
    if case["what"] == "target":
        if os.path.exists("/dev/ttyUSB0"):
            return "there is a /dev/ttyUSB0 here", 0
        port = free_port()
        r = Run(binary, work, [("mode", "serial"), ("listen", "127.0.0.1:%d" % port)], case["env"])
        try:
            rc = r.gives_up("127.0.0.1", port)
        finally:
            r.close()
        return "no default device: %d" % rc, 1
    raise KeyError(case["what"])


def refused(binary, work, case, tcp, pty):
    """Targets, modes and addresses that cannot work."""
    port = free_port()
    u = tcp("GOOD")
    listen = "127.0.0.1:%d" % port
    t = case["target"].replace("UNIT", "127.0.0.1:%d" % u.port).replace("CLOSED", "127.0.0.1:%d" % free_port())
    busy = None
    if "{FILE}" in t:
        f = os.path.join(tempfile.mkdtemp(dir=work), "file")
        open(f, "w").write("x")
        t = t.replace("{FILE}", f)
    if "{PTY}" in t:
        t = pty("GOOD").name
    if case.get("listen") == "BUSY":
        busy = socket.socket()
        busy.bind(("127.0.0.1", 0))
        busy.listen(1)
        listen = "127.0.0.1:%d" % busy.getsockname()[1]
    elif case.get("listen"):
        listen = case["listen"]
    kv = [("mode", case["mode"]), ("target", t), ("listen", listen)]
    flags, env = (kv, []) if case["from"] == "flag" else ([], kv)
    r = Run(binary, work, flags + [(k, v) for k, v in case.get("extra", [])], env)
    try:
        rc = r.gives_up(None if case.get("listen") else "127.0.0.1", None if case.get("listen") else port)
    finally:
        r.close()
        if busy:
            busy.close()
    if u.accepted and case["mode"] != "tcp":
        raise Bad("wrong-unit", "%s connects to the address all the same" % r.cmd)
    return "refuses with %d" % rc, 1


def addresses(binary, work, case, tcp, pty):
    """Host names, addresses of both families, and no host at all."""
    v6 = case["unit"] == "[::1]"
    u = tcp("GOOD", "::1", socket.AF_INET6) if v6 else tcp("GOOD")
    at = "::1" if case["listen"] in ("[::1]", "[::]") else "127.0.0.1"
    port = free_port(at, socket.AF_INET6 if at == "::1" else socket.AF_INET)
    r = Run(binary, work, [("mode", "tcp"), ("target", "%s:%d" % (case["unit"], u.port)), ("listen", "%s:%d" % (case["listen"], port))], [])
    try:
        r.boot(at, port, "GOOD")
    finally:
        r.close()
    return "unit %s, API %s" % (case["unit"], case["listen"]), 2


def unit_on(case, tcp, pty):
    """A unit on the kind of line the case is about, and the settings for it."""
    if case.get("line", "tcp") == "serial":
        u = pty("GOOD")
        return u, [("mode", "serial"), ("target", u.name)]
    u = tcp("GOOD")
    return u, [("mode", "tcp"), ("target", "127.0.0.1:%d" % u.port)]


def lasting(binary, work, case, tcp, pty):
    """The connection and the API last; the unit's pauses don't matter."""
    u, conf = unit_on(case, tcp, pty)
    port = free_port()
    r = Run(binary, work, conf + [("listen", "127.0.0.1:%d" % port)], [])
    try:
        r.boot("127.0.0.1", port, "GOOD")
        u.deaf = case.get("deaf", False)
        time.sleep(case["seconds"])
        u.deaf = False
        time.sleep(1.5)
        if r.p.poll() is not None:
            raise Bad("not-serving", "%s ended with %d after a while: %s" % (r.cmd, r.p.returncode, r.output()[-600:]))
        with u.lock:
            u.state["temps"][1] = 99
        for call, body, good in (("FlushCache", '{"Cache": "All"}', "Success"), ("SetFanSpeed", '{"Abs": 3}', "Modified"), ("SetFanSpeed", '{"Abs": 1}', "Modified"),
                                 ("SetComfortTemp", '{"ComfortTemp": 25}', "Modified"), ("SetFanProfile", '{"Mode": 4, "TargetSpeed": 44}', "Modified")):
            st, b = post("127.0.0.1", port, call, body)
            if st != 200 or json.loads(b).get(good) is not True:
                raise Bad("lasting", "%s: %s %s gives %d %s after %d s" % (r.cmd, call, body, st, b, case["seconds"]))
        st, b = post("127.0.0.1", port, "GetTemps")
        if st != 200 or json.loads(b)["OutsideAir"] != 29 or json.loads(b)["Comfort"] != 25:
            raise Bad("lasting", "%s: GetTemps gives %d %s after %d s" % (r.cmd, st, b, case["seconds"]))
        return "works after %d s on %s%s" % (case["seconds"], case.get("line", "tcp"), " of silence" if case.get("deaf") else ""), 8
    finally:
        r.close()


def slow(binary, work, case, tcp, pty):
    """Answers take as long as the unit does, and reach the client."""
    u, conf = unit_on(case, tcp, pty)
    port = free_port()
    r = Run(binary, work, conf + [("listen", "127.0.0.1:%d" % port)], [])
    try:
        r.boot("127.0.0.1", port, "GOOD")
        time.sleep(0.3)
        u.latency, u.ramp = case.get("latency", 0), case.get("ramp", 0)
        u.deaf = case.get("deaf", False)
        u.refuse = set(case.get("refuse", []))
        idle = [socket.create_connection(("127.0.0.1", port), timeout=5) for _ in range(case.get("idle", 0))]
        t0 = time.monotonic()
        try:
            st, b = post("127.0.0.1", port, case["call"], case["body"], timeout=120)
        except (OSError, http.client.HTTPException) as e:
            raise Bad("answer-lost", "%s %s of a slow unit (%s) got no answer after %.1f s: %r" % (case["call"], case["body"], {k: case.get(k) for k in ("latency", "ramp", "deaf")}, time.monotonic() - t0, e))
        d = time.monotonic() - t0
        j = json.loads(b)
        if case["want"] == "ok" and (st != 200 or j.get("Modified", j.get("Success")) is not True) or case["want"] == "error" and st // 100 != 5 or case["want"] == "unsuccessful" and (st != 200 or j.get("Success") is not False):
            raise Bad("answer", "%s %s of a slow unit gives %d %s after %.1f s, must be %s" % (case["call"], case["body"], st, b, d, case["want"]))
        u.latency = u.ramp = 0
        u.deaf, u.refuse = False, set()
        time.sleep(1.2 if case.get("deaf") or case.get("refuse") else 0)
        st, b = post("127.0.0.1", port, "GetFans", timeout=60)
        if st != 200:
            raise Bad("answer", "GetFans afterwards gives %d %s" % (st, b))
        for s in idle:
            s.close()
        return "%s of a slow unit on %s: %s" % (case["call"], case.get("line", "tcp"), case["want"]), 3
    finally:
        r.close()


def silent(binary, work, case, tcp, pty):
    """A unit that does not answer (yet) keeps the API from nothing but its readings."""
    u = tcp("GOOD")
    u.deaf = True
    port = free_port()
    r = Run(binary, work, [("mode", "tcp"), ("target", "127.0.0.1:%d" % u.port), ("listen", "127.0.0.1:%d" % port)], [])
    try:
        r.boot("127.0.0.1", port, None)
        for m in ("GetTemps", "GetFans", "GetFanProfiles", "GetErrors", "GetBypass"):
            st, b = post("127.0.0.1", port, m)
            if st != 200:
                raise Bad("not-serving", "%s with a silent unit gives %d %s" % (m, st, b))
        u.deaf = False
        end = time.monotonic() + UP
        while True:  # fans are read again every 5 s
            st, b = post("127.0.0.1", port, "GetFans")
            if st == 200 and json.loads(b)["InPercent"] == u.state["fans"][0]:
                break
            if time.monotonic() > end:
                raise Bad("not-serving", "the unit's readings do not appear after it has woken up: %s" % b)
            time.sleep(0.1)
        return "serves a unit that wakes up late", 3
    finally:
        r.close()


def early(binary, work, case, tcp, pty):
    """The first answers are what the unit says, also when it takes its time."""
    u, conf = unit_on(case, tcp, pty)
    u.latency = case["latency"]
    port = free_port()
    r = Run(binary, work, conf + [("listen", "127.0.0.1:%d" % port)], [])
    try:
        end = time.monotonic() + UP
        while True:
            if r.p.poll() is not None or time.monotonic() > end:
                raise Bad("not-serving", "%s does not serve 127.0.0.1:%d: %s" % (r.cmd, port, r.output()[-600:]))
            try:
                first = post("127.0.0.1", port, case["call"], timeout=60)
                break
            except (OSError, http.client.HTTPException):
                time.sleep(0.001)
        u.latency = 0
        post("127.0.0.1", port, "FlushCache", '{"Cache": "All"}')
        then = post("127.0.0.1", port, case["call"])
        if then[0] != 200 or first != then:
            raise Bad("early", "%s: the first answer to %s is %s, later it is %s" % (r.cmd, case["call"], first, then))
        return "first answer to %s" % case["call"], 4
    finally:
        r.close()


KINDS = dict(early=early, lasting=lasting, serves=serves, defaults=defaults, refused=refused, addresses=addresses, slow=slow, silent=silent)


def cases(tier):
    pt, v6 = has_pty(), has_ipv6()
    # the longest first
    for line in ["tcp"] + (["serial"] if pt else []):
        for deaf in (False, True):
            for t in [65] + ([400] if tier == "thorough" else []):
                yield dict(kind="lasting", line=line, seconds=t, deaf=deaf)
    if pt:
        yield dict(kind="slow", line="serial", call="SetFanSpeed", body='{"Abs": 4}', ramp=3.0, latency=0.6, want="ok")
        yield dict(kind="slow", line="serial", call="FlushCache", body='{"Cache": "All"}', latency=0.8, want="ok")
        yield dict(kind="slow", line="serial", call="SetComfortTemp", body='{"ComfortTemp": 25}', latency=0.8, want="ok")
        yield dict(kind="slow", line="serial", call="SetComfortTemp", body='{"ComfortTemp": 25}', deaf=True, want="error")
    yield dict(kind="slow", call="FlushCache", body='{"Cache": "All"}', latency=0.8, want="ok")
    yield dict(kind="slow", call="SetFanSpeed", body='{"Abs": 4}', ramp=3.0, latency=0.6, want="ok")
    yield dict(kind="slow", call="SetFanSpeed", body='{"Abs": 4}', ramp=1000.0, latency=0.4, want="error")
    yield dict(kind="slow", call="SetFanSpeed", body='{"Abs": 4}', ramp=1000.0, want="error")
    yield dict(kind="slow", call="FlushCache", body='{"Cache": "All"}', deaf=True, want="unsuccessful")
    yield dict(kind="slow", call="FlushCache", body='{"Cache": "Fans"}', deaf=True, want="unsuccessful")
    yield dict(kind="slow", call="SetComfortTemp", body='{"ComfortTemp": 25}', deaf=True, want="error")
    yield dict(kind="slow", call="SetFanProfile", body='{"Mode": 2, "TargetSpeed": 44}', deaf=True, want="error")
    yield dict(kind="slow", call="SetFanSpeed", body='{"Abs": 3}', refuse=[0x0B], want="error")
    yield dict(kind="slow", call="SetComfortTemp", body='{"ComfortTemp": 25}', idle=60, want="ok")
    yield dict(kind="silent")
    for line in ["tcp"] + (["serial"] if pt else []):
        for lat in (0, 0.3):
            for call in ("GetBootInfo", "GetTemps", "GetFans", "GetFanProfiles", "GetErrors", "GetBypass"):
                yield dict(kind="early", line=line, call=call, latency=lat)
    srcs = ["flag", "env", "flag over env"] + (["flag, env empty"] if tier == "thorough" else [])
    for mode in ["tcp"] + (["serial"] if pt else []):
        for src in itertools.product(srcs, repeat=3):
            for style in (0, 1):
                yield dict(kind="serves", mode=mode, style=style, **{"from": list(src)})
        for dbg in ("flag", "env"):
            for rev in (False, True):
                yield dict(kind="serves", mode=mode, style=0, debug=dbg, reverse=rev, **{"from": ["flag"] * 3})
        yield dict(kind="serves", mode=mode, style=0, reverse=True, **{"from": ["flag"] * 3})
        yield dict(kind="serves", mode=mode, style=1, **{"from": ["flag, env empty"] * 3})
    if pt:
        yield dict(kind="defaults", what="mode", env=[])
        yield dict(kind="defaults", what="mode", env=[["mode", ""]])
    yield dict(kind="defaults", what="target", env=[])
    if v6:
        yield dict(kind="defaults", what="listen", env=[])
    for unit in ["127.0.0.1"] + ["localhost"] * has_name() + ["[::1]"] * v6:
        for listen in ["127.0.0.1", "", "0.0.0.0"] + ["localhost"] * has_name() + ["[::1]", "[::]"] * v6:
            yield dict(kind="addresses", unit=unit, listen=listen)
    for src in ("flag", "env"):
        for m in ("udp", "bogus", "tcpserial", "unix", "none"):
            yield dict(kind="refused", mode=m, target="UNIT", **{"from": src})
        for t in ("CLOSED", "127.0.0.1", "127.0.0.1:", ":0", "127.0.0.1:notaport", "127.0.0.1:99999", "/dev/null", "{FILE}", "/nowhere/at/all"):
            yield dict(kind="refused", mode="tcp", target=t, **{"from": src})
        for t in ("/nowhere/at/all", "/dev/null", "/tmp", "{FILE}", "UNIT", "/dev/comfo-no-such-device"):
            yield dict(kind="refused", mode="serial", target=t, **{"from": src})
        if pt:
            yield dict(kind="refused", mode="tcp", target="{PTY}", **{"from": src})
        for l in ("BUSY", "nonsense", "127.0.0.1", "127.0.0.1:99999", "203.0.113.7:1"):
            yield dict(kind="refused", mode="tcp", target="UNIT", listen=l, **{"from": src})
    yield dict(kind="refused", mode="tcp", target="UNIT", extra=[["no-such-flag", "x"]], **{"from": "flag"})


def judge(binary, work, case):
    try:
        return (None,) + run_case(binary, work, case)
    except Bad as e:
        first = e
    for _ in range(2):
        try:
            return (None,) + run_case(binary, work, case)
        except Bad:
            pass
    return first, None, 0


def check(prop, tier, work):
    tree = pyclient.prepare(work)
    binary = pyclient.build_program(tree, work)
    cs = list(cases(tier))
    stop = threading.Event()
    end = time.monotonic() + (400 if tier == "quick" else 700)

    def work1(c):
        if stop.is_set() or time.monotonic() > end:
            return c, None
        r = judge(binary, work, c)
        if r[0] is not None:
            stop.set()
        return c, r

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(work1, cs))
    viols, outs, by, n, tr, complete, samples = [], set(), {}, 0, 0, True, []
    for c, r in res:
        if r is None:
            complete = False
            continue
        if r[0] is not None:
            viols.append(dict(property=prop, key=r[0].key, msg=str(r[0]), case=c, scenario=c["kind"], deviations=[]))
            continue
        n += 1
        tr += r[2]
        o = "%s: %s" % (c["kind"], r[1])
        if o not in outs and len(samples) < 24:
            samples.append("%s -> %s" % (json.dumps(c), r[1]))
        outs.add(o)
        by[c["kind"]] = by.get(c["kind"], 0) + 1
    cov = dict(states=n, transitions=tr, traces_validated_against_impl=n, evaluations=n, distinct_nontrivial=len(outs), executions_by_kind=by,
               rule="every source (command line, environment, both) of every setting x mode, every refused target, mode and address of a list, slow and silent units, each with the real program. "
                    "states: configurations; transitions: program starts, connections, answers and exits observed; every one is an execution of the implementation",
               exhaustive=complete, samples=samples)
    print("C23: %d configurations (%s)" % (n, by))
    return cov, viols, ASSUME


def replay(v, work):
    tree = pyclient.prepare(work)
    binary = pyclient.build_program(tree, work)
    print(json.dumps(v["case"]))
    try:
        o, _ = run_case(binary, work, v["case"])
        print(o)
        return 0
    except Bad as e:
        print(e.key, e)
        return 1
