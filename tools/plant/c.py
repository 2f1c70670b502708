from mk import make
SIM=open('/verif/lib/simunit.py').read()
SH='''#!/bin/bash
# Runs the demonstration against the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
CGO_ENABLED=0 go build -o "$t/comfo" . || exit 3
PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$d/demo.py" "$t/comfo"
'''
PRE='''import http.client, json, os, socket, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sim

def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p

def post(p, method, body, ctype="application/json", timeout=30):
    c = http.client.HTTPConnection("127.0.0.1", p, timeout=timeout)
    c.request("POST", "/twirp/comfo.api.Comfo/" + method, body, {"Content-Type": ctype})
    r = c.getresponse()
    return r.status, r.read()

def start(args, env=()):
    e = {"PATH": os.environ["PATH"]}
    e.update(env)
    return subprocess.Popen([sys.argv[1]] + args, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

def wait(p, n=100):
    for _ in range(n):
        try:
            return post(p, "GetFans", "{}")
        except OSError:
            time.sleep(0.1)
    raise SystemExit("not serving on port %d" % p)

def fail(msg):
    print(msg)
    raise SystemExit(1)

'''
def prog(sid,prop,needs,breaks,edits,demo):
    body=PRE+demo
    make(sid,prop,needs,breaks,edits,SH,raw=True,extra={"demo.py":body,"sim.py":SIM})

prog("c21-skip-defaults","C21","a reading that is zero, asked for as JSON",
"Fields whose value is zero are left out of the JSON answer, so that clients don't find them.",
[("routes.go",'''	rpc "github.com/ti-mo/comfo/rpc/comfo"
''','''	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/twitchtv/twirp"
'''),("routes.go","rpc.NewComfoServer(server, nil)","rpc.NewComfoServer(server, twirp.WithServerJSONSkipDefaults(true))")],
'''u = sim.TCPUnit()
p = port()
r = start(["--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p)
    st, b = post(p, "GetBypass", "{}")
    if st != 200 or "SummerMode" not in json.loads(b):
        fail("GetBypass: %d %r" % (st, b))
    st, b = post(p, "SetFanSpeed", '{"Abs": 2}')
    if st != 200 or json.loads(b).get("Modified") is not False:
        fail("SetFanSpeed: %d %r" % (st, b))
finally:
    r.kill()
''')

prog("c21-timeout-handler","C21","a change of the fan speed for which the fans need more than two seconds",
"A limit on the time of a request ends the change with an error although the fans reach the speed.",
[("routes.go","	twirpHandler := rpc.NewComfoServer(server, nil)\n",'''	// Don't let a slow unit hold up clients forever
	twirpHandler := http.TimeoutHandler(rpc.NewComfoServer(server, nil), 2*time.Second, "timeout")
'''),("routes.go",'''	"net/http"
''','''	"net/http"
	"time"
''')],
'''u = sim.TCPUnit()
u.ramp = 3.0
p = port()
r = start(["--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p)
    st, b = post(p, "SetFanSpeed", '{"Abs": 3}')
    if st != 200 or json.loads(b).get("Modified") is not True:
        fail("SetFanSpeed: %d %r" % (st, b))
finally:
    r.kill()
''')

prog("c23-listen-env","C23","the listening address given by COMFO_LISTEN only",
"The listening address is taken from the flags alone, the environment is ignored.",
[("comfo.go",'''	slog.Info("API listening"''','''	// The command line wins
	if f := pflag.Lookup(configListen); f != nil {
		srv.Addr = f.Value.String()
	}

	slog.Info("API listening"'''),("comfo.go",'''	"github.com/spf13/viper"
''','''	"github.com/spf13/pflag"
	"github.com/spf13/viper"
''')],
'''u = sim.TCPUnit()
p = port()
r = start(["--mode", "tcp", "--target", "127.0.0.1:%d" % u.port], {"COMFO_LISTEN": "127.0.0.1:%d" % p})
try:
    wait(p, 50)
finally:
    r.kill()
''')

prog("c23-empty-env","C23","an environment variable that is set but empty",
"An empty variable counts as a setting, so that the default no longer applies.",
[("comfo.go",'''	viper.AutomaticEnv()
''','''	viper.AutomaticEnv()
	viper.AllowEmptyEnv(true)
'''),],
'''r = start(["--listen", "127.0.0.1:%d" % port()], {"COMFO_MODE": "", "COMFO_TARGET": ""})
r.kill()
r.wait()
# without a mode the default, serial, applies
out = subprocess.run([sys.argv[1]], env={"PATH": os.environ["PATH"], "COMFO_MODE": "", "COMFO_TARGET": "/nonexistent-device"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
if out.returncode == 0 or "unsupported" in out.stdout:
    fail("with an empty COMFO_MODE: %d %s" % (out.returncode, out.stdout))
''')

PY='''#!/bin/bash
# Runs the demonstration against the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$d/demo.py" "$PWD/python"
'''
PYPRE='''import asyncio, enum, sys, threading, time, types

# Stand-ins for what the generated code needs
def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m

class Codes(enum.Enum):
    InvalidArgument = "invalid_argument"
    Internal = "internal"
    Unavailable = "unavailable"

class TwirpError(Exception):
    def __init__(self, code):
        super().__init__(code)
        self.code = code

class Message:
    def __init__(self, **kw):
        self.__dict__.update(Abs=0, Rel=False)
        self.__dict__.update(kw)

class Client:
    """The generated client; calls take a moment to leave."""
    def __init__(self, url):
        self.sent = []
        self.answer = lambda name, m: types.SimpleNamespace(Modified=True)
        self.delay = 0.05
    def __getattr__(self, name):
        def call(ctx, request):
            time.sleep(self.delay)
            self.sent.append((name, dict(request.__dict__)))
            return self.answer(name, request)
        return call

module("twirp").__path__ = []
module("twirp.context", Context=dict)
module("twirp.errors", Errors=Codes)
module("twirp.exceptions", TwirpServerException=TwirpError)
sys.path.insert(0, sys.argv[1])
pb = {n: Message for n in ("Noop", "FanSpeedTarget", "FanProfileTarget", "ComfortTarget", "FlushCacheRequest")}
module("comfo.comfo_pb2", **pb)
module("comfo.comfo_twirp", ComfoClient=Client)
import comfo

def fail(msg):
    print(msg)
    raise SystemExit(1)

'''
def py(sid,prop,needs,breaks,edits,demo):
    make(sid,prop,needs,breaks,edits,PY,raw=True,extra={"demo.py":PYPRE+demo})

py("c22-shared-step","C22","two steps of the fan speed in opposite directions at the same time",
"Steps share one request object, so that two of them at the same time may go in the same direction.",
[("python/comfo/client.py",'''        self.loop = loop

''','''        self.loop = loop

        # Reused by all relative changes of the fan speed
        self.step = comfo_pb2.FanSpeedTarget()

    def _step(self, up):
        """Change the fan speed by one step."""
        self.step.Rel = up
        return self.twirp.SetFanSpeed(
            ctx=Context(),
            request=self.step,
        ).Modified

'''),("python/comfo/client.py",'''            return self.twirp.SetFanSpeed(
                ctx=Context(),
                request=comfo_pb2.FanSpeedTarget(Rel=True),
            ).Modified
''','''            return self._step(True)
'''),("python/comfo/client.py",'''            return self.twirp.SetFanSpeed(
                ctx=Context(),
                request=comfo_pb2.FanSpeedTarget(Rel=False),
            ).Modified
''','''            return self._step(False)
''')],'''async def main():
    c = comfo.Comfo("host")
    await asyncio.gather(c.async_increase_fan_speed(), c.async_decrease_fan_speed())
    return sorted(m["Rel"] for _, m in c.twirp.sent)

if asyncio.run(main()) != [False, True]:
    fail("an increase and a decrease went in the same direction")
''')

py("c22-any-error","C22","an increase of the fan speed that fails for another reason than the bounds",
"An increase that fails because the unit doesn't answer is reported as nothing to do.",
[("python/comfo/client.py",'''        try:
            return self.twirp.SetFanSpeed(
                ctx=Context(),
                request=comfo_pb2.FanSpeedTarget(Rel=True),
            ).Modified
        except TwirpServerException as e:
            # InvalidArgument means the fan duty went out of bounds
            # and wasn't modified.
            if e.code is TwirpErrors.InvalidArgument:
                return False
            raise
''','''        try:
            return self.twirp.SetFanSpeed(
                ctx=Context(),
                request=comfo_pb2.FanSpeedTarget(Rel=True),
            ).Modified
        except TwirpServerException as e:
            # The fan duty wasn't modified.
            if e.code in (TwirpErrors.InvalidArgument, TwirpErrors.Internal):
                return False
            raise
''')],'''c = comfo.Comfo("host")
def refuse(name, m):
    raise TwirpError(Codes.Internal)
c.twirp.answer = refuse
try:
    r = c.increase_fan_speed()
except TwirpError:
    pass
else:
    fail("an increase that failed returned %r" % r)
''')

py("c22-blocking-async","C22","a call in flight while the event loop has other work",
"The asynchronous call runs in the event loop and holds up everything else.",
[("python/comfo/client.py",'''        """Async version of configure_fan_profile()."""
        return await self.loop.run_in_executor(
            None,
            functools.partial(
                self.configure_fan_profile,
                profile=profile,
                percent=percent,
            ),
        )
''','''        """Async version of configure_fan_profile()."""
        return self.configure_fan_profile(profile, percent)
''')],'''async def main():
    c = comfo.Comfo("host")
    c.twirp.delay = 0.5
    t = asyncio.ensure_future(c.async_configure_fan_profile(2, 40))
    await asyncio.sleep(0.1)
    n = len(c.twirp.sent)
    await t
    return n

if asyncio.run(main()) != 0:
    fail("the call held up the event loop")
''')
