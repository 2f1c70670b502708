from mk import make
import c
from b import IMP
from d import LIMP
c.SH = c.SH.replace("CGO_ENABLED=1 go build -race", "CGO_ENABLED=0 go build")
CO, CA, SV = "libcomfo/conn.go", "comfoserver/caches.go", "comfoserver/server.go"

make("c08-lock-map","C08","three callers: one whose exchange ends, one that waits for it, and one that comes right after",
"Every connection has a lock of its own, which is forgotten at the end of an exchange although others wait for it; the next caller makes a new one.",
[(CO,'''	// Package-wide serial connection Mutex
	pm = &sync.Mutex{}
''','''	// Guards locks
	pm = &sync.Mutex{}

	// Mutexes of the connections in use
	locks = make(map[io.ReadWriter]*sync.Mutex)
'''),(CO,'''	pm.Lock()
	defer pm.Unlock()

	// Don't take''','''	pm.Lock()
	l, ok := locks[conn]
	if !ok {
		l = &sync.Mutex{}
		locks[conn] = l
	}
	pm.Unlock()

	l.Lock()
	defer func() {
		pm.Lock()
		delete(locks, conn)
		pm.Unlock()
		l.Unlock()
	}()

	// Don't take''')],LIMP.replace("bytes\n","bytes\nstrings\nsync\n")+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		return []piece{{200 * time.Millisecond, def}}, true
	}
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := libcomfo.GetFans(u); err != nil {
				t.Error(err)
			}
		}()
		time.Sleep(130 * time.Millisecond)
	}
	wg.Wait()
	if l := strings.Join(u.Log, ","); l != strings.TrimSuffix(strings.Repeat("0b ,ack,", 6), ",") {
		t.Fatal(l)
	}
}
''')

make("c08-impatient","C08","a caller behind several others whose exchanges time out",
"A caller that has waited for its turn for five seconds gives up although the connection works.",
[(CO,'''	pm.Lock()
	defer pm.Unlock()

	// Don't take''','''	for patience := 500; !pm.TryLock(); patience-- {
		if patience == 0 {
			return out, errTimeout
		}
		time.Sleep(10 * time.Millisecond)
	}
	defer pm.Unlock()

	// Don't take''')],LIMP.replace("bytes\n","bytes\nsync\nsync/atomic\n")+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		return nil, true
	}
	var wg sync.WaitGroup
	var sent, done atomic.Int32
	for i := 0; i < 9; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			libcomfo.GetFans(u)
			done.Add(1)
		}()
	}
	wg.Wait()
	u.do(func() { sent.Store(int32(len(u.Log))) })
	if sent.Load() < 9 {
		t.Fatalf("%d callers, only %d requests sent", done.Load(), sent.Load())
	}
}
''')

make("c01-shared-buffer","C01","two messages encoded at the same time",
"Payloads are escaped into a buffer that all callers share.",
[("libcomfo/proto.go",'''	out := make([]byte, 0)

	for _, v := range in {
		// Append an extra''','''	out := escaped[:0]
	defer func() { escaped = out }()

	for _, v := range in {
		// Append an extra'''),("libcomfo/proto.go",'''// escapeData escapes''','''// Reused by escapeData
var escaped []byte

// escapeData escapes''')],LIMP.replace("bytes\n","bytes\nsync\n")+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := bytes.Repeat([]byte{byte(i), 7, byte(16 * i)}, 60)
			for n := 0; n < 20000; n++ {
				b, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: 0xCF, Data: d})
				if err != nil {
					t.Error(err)
					return
				}
				p, err := libcomfo.UnmarshalPacket(b)
				if err != nil || !bytes.Equal(p.Data, d) {
					t.Errorf("decoded %v, %v", p, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''')

make("c12-unchanged","C12","a reading in which the speeds change and the percentages don't",
"A reading of the fans is only taken over if a percentage has changed (or the last one is out of date).",
[(CA,'''		fc.Fans = gf
		fc.LastUpdated = now
''','''		if fc.InPercent != gf.InPercent || fc.OutPercent != gf.OutPercent || isStale(fc.LastUpdated, now) {
			fc.Fans = gf
			fc.LastUpdated = now
		}
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	was, _ := s.GetFans(bg, &rpc.Noop{})
	u.do(func() { u.Fans[2], u.Fans[3] = 9, 9 })
	if r, err := s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Fans}); err != nil || !r.Success {
		t.Fatal(r, err)
	}
	if r, err := s.GetFans(bg, &rpc.Noop{}); err != nil || r.InSpeed == was.InSpeed {
		t.Fatalf("was %v, is %v, %v", was, r, err)
	}
}
''',pkg="comfoserver")

make("c13-lost-poll","C13","an answer lost while the fans ramp up",
"A single reading of the fans that fails during a change of their speed makes the change fail.",
[(CA,'''		fanCache.Update(true)

		// Return when target fan profile is in desired state
		if fans''','''		if err := fanCache.Update(true); err != nil {
			return errSetPollFailed
		}

		// Return when target fan profile is in desired state
		if fans''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	n := 0
	u.do(func() {
		u.Ramp = time.Second
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			if cmd == 0x0B {
				if n++; n == 1 {
					d := append([]byte(nil), def...)
					d[len(d)-3]++
					return []piece{{0, d}}, true
				}
			}
			return nil, false
		}
	})
	if r, err := s.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: 3}); err != nil || !r.Modified {
		t.Fatal(r, err)
	}
}
''',pkg="comfoserver")

make("c06-slow-errors","C06","a query for the error states that is answered late, again and again",
"Reading the error states gives up early and leaves the query behind, which waits for ever for someone to take its result.",
[("libcomfo/api.go",'''	resp, err := getQuery(getErrors, conn)
''','''	// Rarely of interest, so don't wait long
	var resp Response
	done := make(chan error)
	go func() {
		r, err := getQuery(getErrors, conn)
		resp = r
		done <- err
	}()
	select {
	case err = <-done:
	case <-time.After(900 * time.Millisecond):
		err = errTimeout
	}
'''),("libcomfo/api.go",'''	"sync"
''','''	"sync"
	"time"
''')],LIMP.replace("bytes\n","bytes\nruntime\n")+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		return nil, true
	}
	libcomfo.GetErrors(u)
	time.Sleep(2 * time.Second)
	n := runtime.NumGoroutine()
	for i := 0; i < 8; i++ {
		if _, err := libcomfo.GetErrors(u); err == nil {
			t.Fatal("success")
		}
	}
	time.Sleep(2 * time.Second)
	if m := runtime.NumGoroutine(); m > n+3 {
		t.Fatalf("%d goroutines, then %d", n, m)
	}
}
''')

make("c07-keep-buffer","C07","an answer in pieces that comes too late, and a query after it",
"The rest of an answer that came too late is only dropped if it has come as a whole.",
[(CO,'''	if receivedLate(conn) {
		discard(conn, time.NewTimer(10*time.Millisecond))
	}

	// Write''','''	if receivedLate(conn) {
		forget(conn)
	}

	// Write'''),(CO,'''// close makes Read return''','''// forget drops what was received last.
func forget(conn io.Reader) {

	cm.Lock()
	defer cm.Unlock()

	delete(calls, conn)
}

// close makes Read return'''),(CO,'''	// Take out lock - start critical section
''','''	// Lock - start of the critical section
''')],LIMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	n := 0
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		if n++; n > 1 {
			return nil, false
		}
		late := append([]byte{7, 0xF3}, demoFrame(0x0C, []byte{99, 98, 4, 4, 5, 5})...)
		return []piece{{1100 * time.Millisecond, late[:2]}, {0, late[2:6]}, {5 * time.Millisecond, late[6:]}}, true
	}
	if _, err := libcomfo.GetFans(u); err == nil {
		t.Fatal("success")
	}
	time.Sleep(400 * time.Millisecond)
	for i := 0; i < 3; i++ {
		if f, err := libcomfo.GetFans(u); err != nil || f.InPercent != u.Fans[0] {
			t.Fatal(i, f, err)
		}
	}
}
''')

c.prog("c21-busy","C21","nine clients at the same time",
"More than eight requests at a time are refused.",
[("logger.go",'''		start := time.Now()

''','''		start := time.Now()

		select {
		case slots <- struct{}{}:
			defer func() { <-slots }()
		default:
			http.Error(w, "busy", http.StatusServiceUnavailable)
			return
		}

'''),("logger.go",'''// Logger is''','''// Requests that may be under way at the same time
var slots = make(chan struct{}, 8)

// Logger is''')],
'''u = sim.TCPUnit()
p = port()
r = start(["--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p)
    u.latency = 0.2
    bad = []
    def client():
        st, b = post(p, "FlushCache", '{"Cache": "Temps"}')
        if st != 200:
            bad.append((st, b))
    ts = [threading.Thread(target=client) for _ in range(12)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if bad:
        fail(bad)
finally:
    r.kill()
    r.wait()
''')

c.prog("c21-long-body","C21","a request whose body is longer than half a kilobyte",
"Bodies are kept for the log, and only their first 512 bytes reach the API.",
[("logger.go",'''		start := time.Now()

''','''		start := time.Now()

		body, _ := io.ReadAll(io.LimitReader(r.Body, 512))
		r.Body = io.NopCloser(bytes.NewReader(body))

'''),("logger.go",'''import (
''','''import (
	"bytes"
	"io"
'''),("logger.go",'''			slog.String("route", name),
''','''			slog.String("route", name),
			slog.Int("length", len(body)),
''')],
'''u = sim.TCPUnit()
p = port()
r = start(["--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p)
    st, b = post(p, "SetComfortTemp", "{" + " " * 1000 + '"ComfortTemp": 25}')
    if st != 200 or json.loads(b)["TargetTemp"] != 25:
        fail((st, b))
finally:
    r.kill()
    r.wait()
''')

c.prog("c23-no-names","C23","a unit that is named by its host name",
"Only numeric addresses of units are accepted.",
[("comfo.go",'''		conn, err = net.Dial("tcp", unit)
		if err != nil {''','''		addr, err := netip.ParseAddrPort(unit)
		if err != nil {
			return nil, fmt.Errorf("invalid address of the unit: %w", err)
		}

		conn, err = net.DialTCP("tcp", nil, net.TCPAddrFromAddrPort(addr))
		if err != nil {'''),("comfo.go",'''	"net/http"
''','''	"net/http"
	"net/netip"
'''),("comfo.go",'''		slog.Info("Connection established!", "address", unit)
''','''		slog.Info("Connection established!", "address", unit)
		return conn, nil
''')],
'''u = sim.TCPUnit()
p = port()
r = start(["--mode", "tcp", "--target", "localhost:%d" % u.port, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p)
finally:
    r.kill()
    r.wait()
''')
