from mk import make
import c
from c import prog
from b import IMP
from d import LIMP
c.SH = c.SH.replace("CGO_ENABLED=1 go build -race", "CGO_ENABLED=0 go build")
CO, CA, SV, TI = "libcomfo/conn.go", "comfoserver/caches.go", "comfoserver/server.go", "comfoserver/timers.go"

make("c19-clients-first","C19","clients that always have a flush waiting, for longer than a refresh period",
"Flushes that wait go before the timers, so that two clients flushing again and again keep everything else from being refreshed.",
[(TI,'''	for {
		select {
		case <-fastCacheTimer.C:''','''	for {
		// Clients wait for flushes, nobody waits for the timers
		select {
		case c := <-flushCache:
			FlushCaches(c)
			continue
		default:
		}

		select {
		case <-fastCacheTimer.C:''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() {
		u.Temps[1] = 90
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			return []piece{{100 * time.Millisecond, def}}, true
		}
	})
	for i := 0; i < 4; i++ {
		go func() {
			for {
				s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.BootInfo})
			}
		}()
	}
	time.Sleep(16 * time.Second)
	if r, err := s.GetTemps(bg, &rpc.Noop{}); err != nil || r.GetOutsideAir() != 25 {
		t.Fatalf("after 16 seconds: %v, %v", r, err)
	}
}
''',pkg="comfoserver")

prog("c23-late-readings","C23","a unit that takes its time for the first answers",
"The API is served before the unit has been read for the first time, so that its first answers are empty.",
[("comfo.go",'''	comfoserver.StartCaches(c)
''','''	// Don't let a slow unit hold up the API
	go comfoserver.StartCaches(c)
''')],'''u = sim.TCPUnit()
u.latency = 0.3
p = port()
r = start(["--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p])
try:
    st, b = wait(p)
    if json.loads(b)["InPercent"] != u.state["fans"][0]:
        raise SystemExit("first answer: %s" % b)
finally:
    r.kill()
''')
