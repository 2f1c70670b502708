from mk import make
import c
from b import IMP
LIMP='''bytes
testing
time
"github.com/ti-mo/comfo/libcomfo"
---
var _ = time.Second
var _ = bytes.Equal
'''

make("c17-full-channel","C17","more failed refreshes than a buffer holds",
"Failures are collected for a list that nobody empties; once it is full, the refreshing stops for good and flushes hang.",
[("comfoserver/caches.go",'''		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
''','''		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
		failures <- err
'''),("comfoserver/caches.go",'''	flushCache   = make(chan CacheType)
''','''	// Failed refreshes
	failures = make(chan error, 6)

	flushCache   = make(chan CacheType)
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() {
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			d := append([]byte(nil), def...)
			d[len(d)-3]++
			return []piece{{0, d}}, true
		}
	})
	err := within(60*time.Second, func() {
		for i := 0; i < 8; i++ {
			s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Temps})
		}
		u.do(func() { u.Answer = nil })
		time.Sleep(1100 * time.Millisecond)
		if r, err := s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Temps}); err != nil || !r.Success {
			t.Errorf("flush after the unit recovered: %v, %v", r, err)
		}
	})
	if err != nil {
		t.Fatal(err)
	}
}
''',pkg="comfoserver")

make("c07-circuit","C07","five exchanges that fail one after the other",
"After several failures in a row the connection is taken for lost and every later exchange fails at once.",
[("libcomfo/conn.go",'''	// Write the Packet to the connection
	if _,''','''	// Don't keep everybody waiting for a unit that's gone
	if failed >= 5 {
		return out, errTimeout
	}
	failed++
	defer func() {
		if err == nil {
			failed = 0
		}
	}()

	// Write the Packet to the connection
	if _,'''),("libcomfo/conn.go",'''	// Guards calls
''','''	// Queries that have failed in a row
	failed int

	// Guards calls
''')],LIMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		return []piece{{0, []byte{7, 0xF3, 0x55, 7, 0x0F}}}, true
	}
	for i := 0; i < 6; i++ {
		if _, err := libcomfo.GetFans(u); err == nil {
			t.Fatal("success")
		}
	}
	u.do(func() { u.Answer = nil })
	time.Sleep(1100 * time.Millisecond)
	for i := 0; i < 3; i++ {
		if _, err := libcomfo.GetFans(u); err != nil {
			t.Fatal(err)
		}
	}
}
''')

make("c12-expire","C12","a number of failed refreshes in a row",
"After ten failures in a row the last known temperatures are thrown away.",
[("comfoserver/caches.go",'''		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
''','''		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
		// Long out of date
		if tc.failed++; tc.failed >= 10 {
			tc.Temps = libcomfo.Temps{}
		}
'''),("comfoserver/caches.go",'''		tc.Temps = gt
''','''		tc.Temps = gt
		tc.failed = 0
'''),("comfoserver/caches.go",'''	libcomfo.Temps
	LastUpdated time.Time  `json:"last_updated"`
''','''	libcomfo.Temps
	failed      int
	LastUpdated time.Time  `json:"last_updated"`
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	was, _ := s.GetTemps(bg, &rpc.Noop{})
	u.do(func() {
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			d := append([]byte(nil), def...)
			d[len(d)-3]++
			return []piece{{0, d}}, true
		}
	})
	for i := 0; i < 12; i++ {
		s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Temps})
	}
	if r, err := s.GetTemps(bg, &rpc.Noop{}); err != nil || r.GetOutsideAir() != was.GetOutsideAir() {
		t.Fatalf("was %v, is %v, %v", was, r, err)
	}
}
''',pkg="comfoserver")


make("c09-cached-profiles","C09","a profile changed on the unit's own panel between two profile changes",
"The stored profiles are remembered from the last change for a while, so a change made on the unit's panel meanwhile is undone.",
[("libcomfo/api.go",'''	cfp, err := GetFanProfiles(conn)
	if err != nil {
		return err
	}
''','''	// Changing several modes in a row, read the profiles only once
	cfp := lastProfiles
	if lastConn != conn || time.Since(lastChange) > 2*time.Second {
		var err error
		if cfp, err = GetFanProfiles(conn); err != nil {
			return err
		}
	}
'''),("libcomfo/api.go",'''	return setQuery(cfp, conn)
}
''','''	if err := setQuery(cfp, conn); err != nil {
		return err
	}
	lastProfiles, lastConn, lastChange = cfp, conn, time.Now()

	return nil
}
'''),("libcomfo/api.go",'''	am = &sync.RWMutex{}
''','''	am = &sync.RWMutex{}

	// Profiles last written, where to and when
	lastProfiles FanProfiles
	lastConn     io.ReadWriter
	lastChange   time.Time
'''),("libcomfo/api.go",'''	"sync"
''','''	"sync"
	"time"
''')],LIMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	if err := libcomfo.SetFanProfile(0, 20, u); err != nil {
		t.Fatal(err)
	}
	u.do(func() { u.Prof[2], u.Prof[5] = 77, 78 })
	if err := libcomfo.SetFanProfile(1, 40, u); err != nil {
		t.Fatal(err)
	}
	u.do(func() {
		if u.Prof[2] != 77 || u.Prof[5] != 78 {
			t.Errorf("the change on the panel was undone: %v", u.Prof)
		}
	})
}
''')

make("c18-recent","C18","a flush soon after another refresh of the same reading",
"A flush within a second of the last refresh of the temperatures reports success without reading them.",
[("comfoserver/caches.go",'''	if !force && !isStale(tc.LastUpdated, now) {
''','''	// or if it has just been done.
	if now.Sub(tc.LastUpdated) < time.Second || !force && !isStale(tc.LastUpdated, now) {
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Temps})
	u.do(func() { u.Temps[1] = 90 })
	r, err := s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Temps})
	g, _ := s.GetTemps(bg, &rpc.Noop{})
	if err != nil || r.Success && g.GetOutsideAir() != 25 {
		t.Fatalf("%v, %v, %v", r, err, g)
	}
}
''',pkg="comfoserver")

make("c16-early-unlock","C16","two changes of the fan speed at the same time",
"Other changes are let in while the fans are getting there, before the reading of the level in use is up to date.",
[("comfoserver/server.go",'''		// Poll the unit for the target speed
''','''		// The unit has accepted the speed, don't hold up others
		fanLock.Unlock()
		defer fanLock.Lock()

		// Poll the unit for the target speed
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Ramp = 1200 * time.Millisecond
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	// from level 2, two steps up one after the other lead to level 4
	done := make(chan *rpc.FanSpeedModified, 2)
	go func() { r, _ := s.SetFanSpeed(bg, &rpc.FanSpeedTarget{Rel: true}); done <- r }()
	time.Sleep(300 * time.Millisecond)
	go func() { r, _ := s.SetFanSpeed(bg, &rpc.FanSpeedTarget{Rel: true}); done <- r }()
	a, b := <-done, <-done
	if u.do(func() {}); u.Prof[8] != 4 || a == nil || b == nil {
		t.Fatalf("two steps up from level 2 lead to level %d: %v, %v", u.Prof[8], a, b)
	}
}
''',pkg="comfoserver")

c.prog("c21-charset","C21","a JSON request whose content type names a character set",
"Requests with parameters in their content type are refused.",
[("routes.go",'''	router.PathPrefix(rpc.ComfoPathPrefix).Handler(Logger(twirpHandler, "twirp"))
''','''	router.PathPrefix(rpc.ComfoPathPrefix).Headers("Content-Type", "application/json").Handler(Logger(twirpHandler, "twirp"))
	router.PathPrefix(rpc.ComfoPathPrefix).Headers("Content-Type", "application/protobuf").Handler(Logger(twirpHandler, "twirp"))
''')],
'''u = sim.TCPUnit()
p = port()
r = start(["--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p)
    st, b = post(p, "GetBypass", "{}", "application/json; charset=utf-8")
    if st != 200 or "SummerMode" not in json.loads(b):
        fail("GetBypass: %d %r" % (st, b))
finally:
    r.kill()
''')

c.prog("c23-deadline","C23","a program that has been running for a while",
"The time limit meant for connecting stays in force, so after half a minute the unit can no longer be reached.",
[("comfo.go",'''		slog.Info("Connection established!", "address", unit)
''','''		// Don't get stuck on units that don't respond
		conn.(net.Conn).SetDeadline(time.Now().Add(30 * time.Second))

		slog.Info("Connection established!", "address", unit)
''')],
'''u = sim.TCPUnit()
p = port()
r = start(["--mode", "tcp", "--target", "127.0.0.1:%d" % u.port, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p)
    time.sleep(34)
    st, b = post(p, "FlushCache", '{"cache": "Fans"}')
    if st != 200 or json.loads(b).get("Success") is not True:
        fail("FlushCache: %d %r" % (st, b))
finally:
    r.kill()
''')

SER='''import pty, termios, tty
m, s = pty.openpty()
tty.setraw(m)
name = os.ttyname(s)
p = port()
got = []
def unit():
    buf = b""
    while True:
        try:
            d = os.read(m, 100)
        except OSError:
            return
        buf += d
        # requests without payload only
        while True:
            i = buf.find(b"\\x07\\x0f")
            if i < 0:
                break
            f, buf = buf[:i + 2], buf[i + 2:]
            j = f.find(b"\\x07\\xf0")
            if j < 0 or len(f) < j + 8:
                continue
            answer(f[j + 3])
REPLY = {0x67: bytes([3, 22, 5]) + b"CA350 lux ", 0x0B: bytes([35, 200, 4, 4, 5, 5]), 0xD1: bytes([80, 250, 162, 64, 60, 0, 40, 40, 40]),
  0xCD: bytes([15, 35, 50, 16, 36, 51, 35, 36, 2, 1, 70, 71, 0, 0]), 0xDF: bytes([0, 0, 1, 2, 3, 0, 1]), 0xD9: bytes(17)}
delay = 0
def answer(cmd):
    d = REPLY.get(cmd)
    if d is None:
        return
    time.sleep(delay)
    o = b"\\x07\\xf3\\x07\\xf0" + bytes([0, cmd + 1, len(d)]) + d.replace(b"\\x07", b"\\x07\\x07") + bytes([(cmd + 1 + len(d) + sum(d) + 173) % 256]) + b"\\x07\\x0f"
    os.write(m, o)
'''
c.prog("c23-serial-timeout","C23","a unit on a serial line that takes more than half a second to answer",
"Reads from the serial line give up after half a second, well before the unit's time is over.",
[("comfo.go",'''serial.Config{Name: unit, Baud: 9600}''','''serial.Config{Name: unit, Baud: 9600, ReadTimeout: 500 * time.Millisecond}''')],SER+'''
delay = 0.75
threading.Thread(target=unit, daemon=True).start()
r = start(["--target", name, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p, 200)
    st, b = post(p, "FlushCache", '{"cache": "Temps"}')
    if st != 200 or json.loads(b).get("Success") is not True:
        fail("FlushCache: %d %r" % (st, b))
finally:
    r.kill()
''')
c.prog("c23-baud","C23","a unit on a serial line",
"The serial line is opened at a speed the unit does not use.",
[("comfo.go",'''serial.Config{Name: unit, Baud: 9600}''','''serial.Config{Name: unit, Baud: 19200}''')],SER+'''
threading.Thread(target=unit, daemon=True).start()
r = start(["--target", name, "--listen", "127.0.0.1:%d" % p])
try:
    wait(p)
    sp = termios.tcgetattr(s)[4:6]
    if sp != [termios.B9600, termios.B9600]:
        fail("speed of the line: %r" % sp)
finally:
    r.kill()
''')
