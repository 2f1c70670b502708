"""Plays calls of the Python client against the real server program and a simulated unit, and
compares answers and the unit's state with what the stand-ins assume. JOB.json OUT.json"""
import asyncio, http.client, json, os, socket, subprocess, sys, time

job = json.load(open(sys.argv[1]))
sys.dont_write_bytecode = True
sys.path[:0] = [job["stubs"], job["python"], job["lib"]]

import comfo  # noqa: E402
import simunit  # noqa: E402
from twirp.client import TwirpClient, Unreachable  # noqa: E402
from twirp.exceptions import TwirpServerException  # noqa: E402


def transport(url, body, headers):
    assert url.startswith("http://")
    host, path = url[7:].split("/", 1)
    h, p = host.rsplit(":", 1)
    c = http.client.HTTPConnection(h, int(p), timeout=60)
    try:
        c.request("POST", "/" + path, body, headers)
        r = c.getresponse()
        return r.status, r.read()
    except OSError as e:
        raise Unreachable(str(e))
    finally:
        c.close()


TwirpClient.transport = staticmethod(transport)
unit = simunit.TCPUnit()
viol, traces, samples = [], 0, []


def bad(key, msg):
    viol.append(dict(key=key, msg=msg, case=None))


def free_host():
    for i in range(2, 250):
        for j in (1, 77, 203):
            h = "127.%d.%d.%d" % (i, j, 1 + (os.getpid() + i) % 250)
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind((h, 3094))
                return h
            except OSError:
                continue
            finally:
                s.close()
    raise SystemExit("no free loopback address")


host = free_host()
log = open(job["log"], "wb")
srv = subprocess.Popen([job["binary"], "--mode", "tcp", "--target", "127.0.0.1:%d" % unit.port, "--listen", host + ":3094"], stdout=log, stderr=log, stdin=subprocess.DEVNULL)


def temp(b):
    return float(b // 2 - 20)


def expect():
    s = unit.state
    p = s["prof"]
    return dict(
        get_bootinfo=dict(MajorVersion=s["boot"][0], MinorVersion=s["boot"][1], BetaVersion=s["boot"][2], DeviceName=bytes(s["boot"][3:]).decode().strip()),
        get_bypass=dict(Factor=s["byp"][2], Level=s["byp"][3], Correction=s["byp"][4], SummerMode=s["byp"][6] == 1),
        get_temps={n: temp(s["temps"][i]) for n, i in zip(("Comfort", "OutsideAir", "SupplyAir", "InsideAir", "ExhaustAir", "GeoHeat", "Reheating", "KitchenHood"), (0, 1, 2, 3, 4, 6, 7, 8))},
        get_fans=dict(InPercent=s["fans"][0], OutPercent=s["fans"][1], InSpeed=1875000 // int.from_bytes(s["fans"][2:4], "big"), OutSpeed=1875000 // int.from_bytes(s["fans"][4:6], "big")),
        get_fan_profiles=dict(OutAway=p[0], OutLow=p[1], OutMid=p[2], OutHigh=p[10], InFanActive=p[9] == 1, InAway=p[3], InLow=p[4], InMid=p[5], InHigh=p[11], CurrentOut=p[6],
                              CurrentIn=p[7], CurrentMode=p[8]),
        get_errors=dict(Filter=s["errs"][8] == 1))


def reading(c, m):
    global traces
    e = expect()[m]
    got = vars(getattr(c, m)())
    traces += 1
    if got != e:
        bad("real-server", "%s returns %s, the unit says %s" % (m, got, e))


def change(c, what, f, want, raises=None):
    """want: returned value; the unit's requests since are returned."""
    global traces
    n = len(unit.seen)
    try:
        r, e = f(), None
    except Exception as x:
        r, e = None, x
    traces += 1
    if raises:
        if not isinstance(e, TwirpServerException) or e.code.value not in raises:
            bad("real-server", "%s returned %r, raised %r; must raise one of %s" % (what, r, e, raises))
    elif e is not None or r is not want:
        bad("real-server", "%s returned %r, raised %r; must return %s" % (what, r, e, want))
    samples.append("%s -> %r %r" % (what, r, e))
    return [x for x in unit.seen[n:] if x[0] in (simunit.SPEED, simunit.COMFORT, simunit.SETPROF)]


def sent(what, got, want):
    if got != want:
        bad("real-server", "%s: the unit saw %s, must see %s" % (what, got, want))


try:
    c = comfo.Comfo(host)
    end = time.monotonic() + 30
    while True:
        try:
            c.ping()
            if unit.seen and c.get_bootinfo().MajorVersion == 3:
                break
        except TwirpServerException:
            pass
        if srv.poll() is not None:
            # the program did not come up at all; not a matter of the client
            raise SystemExit("the server ended: %s" % open(job["log"], errors="replace").read()[-2000:])
        if time.monotonic() > end:
            raise SystemExit("the server does not answer")
        time.sleep(0.05)
    # let the initial readings finish
    end = time.monotonic() + 10
    while len({x[0] for x in unit.seen}) < 6 and time.monotonic() < end:
        time.sleep(0.05)
    time.sleep(0.3)
    for m in expect():
        reading(c, m)
    for base in (1, 2, 3, 4):
        c.set_fan_speed(base)
        for tgt in (1, 2, 3, 4):
            if tgt in (base, base % 4 + 1):
                g = change(c, "set_fan_speed(%d) at %d" % (tgt, base), lambda: c.set_fan_speed(tgt), tgt != base)
                sent("set_fan_speed", g, [] if tgt == base else [(simunit.SPEED, bytes([tgt]))])
                reading(c, "get_fan_profiles")
                c.set_fan_speed(base)
        g = change(c, "increase_fan_speed() at %d" % base, c.increase_fan_speed, base < 4)
        sent("increase_fan_speed", g, [(simunit.SPEED, bytes([base + 1]))] if base < 4 else [])
        c.set_fan_speed(base)
        g = change(c, "decrease_fan_speed() at %d" % base, c.decrease_fan_speed, base > 1)
        sent("decrease_fan_speed", g, [(simunit.SPEED, bytes([base - 1]))] if base > 1 else [])
        reading(c, "get_fan_profiles")
    for t, w, r in ((20, False, None), (21, True, None), (21, False, None), (107, True, None), (0, True, None), (108, None, ("internal", "invalid_argument")), (255, None, ("internal", "invalid_argument"))):
        g = change(c, "set_comfort_temperature(%d)" % t, lambda: c.set_comfort_temperature(t), w, r)
        sent("set_comfort_temperature", g, [(simunit.COMFORT, bytes([2 * t + 40]))] if w else [])
        reading(c, "get_temps")
    for p, q in ((1, 15), (2, 60), (3, 77), (4, 100), (4, 100)):
        before = bytes(unit.state["prof"])
        i, o = {1: (3, 0), 2: (4, 1), 3: (5, 2), 4: (11, 10)}[p]
        ch = (before[i], before[o]) != (q, q)
        change(c, "configure_fan_profile(%d, %d)" % (p, q), lambda: c.configure_fan_profile(p, q), ch)
        after = bytearray(before)
        after[i] = after[o] = q
        if bytes(unit.state["prof"][0:6] + unit.state["prof"][10:12]) != bytes(after[0:6] + after[10:12]):
            bad("real-server", "configure_fan_profile(%d, %d) turned % x into % x" % (p, q, before, bytes(unit.state["prof"])))
        reading(c, "get_fan_profiles")

    async def together():
        a = comfo.Comfo(host)
        return await asyncio.gather(a.async_ping(), a.async_get_temps(), a.async_get_fan_profiles(), a.async_set_comfort_temperature(33), a.async_get_errors())

    r = asyncio.run(together())
    traces += 5
    if r[0] is not True or r[3] is not True or vars(r[2]) != expect()["get_fan_profiles"] or unit.state["temps"][0] != 106:
        bad("real-server", "asynchronous calls together returned %s" % (r,))
finally:
    srv.kill()
    srv.wait()
    unit.close()
json.dump(dict(violations=viol, traces=traces, samples=samples[:6]), open(sys.argv[2], "w"))
os._exit(0)
