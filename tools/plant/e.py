from mk import make
import c
from b import IMP
from d import LIMP

c.SH = c.SH.replace("CGO_ENABLED=0 go build", "CGO_ENABLED=1 go build -race")
c.prog("c20-request-count","C20","two clients at the same time",
"Requests are numbered for the log with a counter that nobody guards.",
[("logger.go",'''		start := time.Now()

''','''		start := time.Now()
		requests++
		n := requests

'''),("logger.go",'''			slog.String("route", name),
''','''			slog.String("route", name),
			slog.Uint64("number", n),
'''),("logger.go",'''// Logger is''','''// Requests served so far
var requests uint64

// Logger is''')],
'''u = sim.TCPUnit()
p = port()
log = open(os.path.join(os.path.dirname(sys.argv[1]), "log"), "w+")
r = subprocess.Popen([sys.argv[1], "--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p], stdout=log, stderr=log)
try:
    wait(p)
    def client():
        for _ in range(200):
            post(p, "GetTemps", "{}")
    ts = [threading.Thread(target=client) for _ in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    time.sleep(0.5)
finally:
    r.kill()
    r.wait()
log.seek(0)
if "DATA RACE" in log.read():
    fail("data race")
''')
c.prog("c20-debug-caches","C20","debug messages switched on and a refresh during a request",
"With debug messages on, the temperatures known are logged straight from where the refreshing writes them.",
[("logger.go",'''			slog.Duration("duration", time.Since(start)),
''','''			slog.Duration("duration", time.Since(start)),
			slog.Any("status", comfoserver.Status{}),
'''),("logger.go",'''	"time"
''','''	"time"

	"github.com/ti-mo/comfo/comfoserver"
'''),("comfoserver/caches.go",'''// BootInfoCache ''','''// Status describes the state of the caches in debug messages.
type Status struct{}

// LogValue gives the ages of the caches.
func (Status) LogValue() slog.Value {
	return slog.GroupValue(
		slog.Time("temps", tempCache.LastUpdated),
		slog.Time("fans", fanCache.LastUpdated),
	)
}

// BootInfoCache ''')],
'''u = sim.TCPUnit()
p = port()
log = open(os.path.join(os.path.dirname(sys.argv[1]), "log"), "w+")
r = subprocess.Popen([sys.argv[1], "--debug", "--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p], stdout=log, stderr=log, env=dict(os.environ, COMFO_DEBUG="true"))
try:
    wait(p)
    def client(m, b):
        for _ in range(200):
            post(p, m, b)
    ts = [threading.Thread(target=client, args=a) for a in (("FlushCache", '{"Cache": "Temps"}'), ("GetTemps", "{}"), ("GetFans", "{}"))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    time.sleep(0.5)
finally:
    r.kill()
    r.wait()
log.seek(0)
if "DATA RACE" in log.read():
    fail("data race")
''')
