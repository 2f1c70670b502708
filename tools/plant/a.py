from mk import make
L='github.com/ti-mo/comfo/libcomfo'
S='github.com/ti-mo/comfo/comfoserver'
R='rpc "github.com/ti-mo/comfo/rpc/comfo"'

make("c01-escaped-length","C01","a payload of at most 255 bytes that contains so many 07 bytes that it is longer than 255 bytes once they are doubled",
"Such a message is refused as too long although the limit is on the payload, not on its escaped form.",
[("libcomfo/proto.go",'''	// Packet length specifier is one byte long, so 255 is the maximum packet size.
	if dataLen > 255 {
		return nil, errTooLong
	}

	// Escape the payload and re-calculate (wire) length
	data := escapeData(in.Data)
	dataLenWire := len(data)
''','''	// Escape the payload and re-calculate (wire) length
	data := escapeData(in.Data)
	dataLenWire := len(data)

	// Packet length specifier is one byte long, so 255 is the maximum packet size.
	if dataLenWire > 255 {
		return nil, errTooLong
	}
''')],'''
bytes
testing
%s
---
func TestDemo(t *testing.T) {
	d := make([]byte, 250)
	for i := range d {
		d[i] = byte(i)
		if i %% 20 == 3 {
			d[i] = 7
		}
	}
	b, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: 0xCF, Data: d})
	if err != nil {
		t.Fatalf("a payload of %%d bytes is refused: %%v", len(d), err)
	}
	p, err := libcomfo.UnmarshalPacket(b)
	if err != nil || !bytes.Equal(p.Data, d) {
		t.Fatalf("got %%v, %%v", p, err)
	}
}
''' % L)

make("c02-split-escape","C02","an answer that is delivered in two pieces with the cut exactly between the 07 and the second byte of a control sequence",
"The sequence is not recognised and the query fails, although the answer was complete and correct.",
[("libcomfo/conn.go",'''	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
''','''	// Bytes that were looked at before are not looked at again when more arrive.
	scanned := 0
	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
		if atEOF {
			scanned = 0
		}

'''),("libcomfo/conn.go",'''		for i := 0; i < len(data); i++ {
			if i < body {''','''		for i := scanned; i < len(data); i++ {
			if i < body {'''),
("libcomfo/conn.go",'''						seq = char
						// Advance''','''						seq = char
						scanned = 0
						// Advance'''),
("libcomfo/conn.go",'''					default:
					}
				}
			}
		}
		return
	}

	scanner.Split''','''					default:
					}
				}
			}
		}
		if scanned = body; scanned < len(data) {
			scanned = len(data)
		}
		return
	}

	scanner.Split''')],'''
testing
time
%s
---
func TestDemo(t *testing.T) {
	for cut := 1; cut < 20; cut++ {
		u := newDemoUnit()
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			if cut >= len(def) {
				return nil, false
			}
			return []piece{{0, def[:cut]}, {30 * time.Millisecond, def[cut:]}}, true
		}
		f, err := libcomfo.GetFans(u)
		if err != nil || f.InPercent != 36 {
			t.Errorf("answer cut after %%d bytes: %%v, %%v", cut, f, err)
		}
	}
}
''' % L)

make("c03-parity","C03","a byte of the answer with its top bit flipped by the line",
"The checksum is compared without its top bit, so the damaged answer is accepted and a wrong value is returned.",
[("libcomfo/proto.go",'''	return in == calculateChecksum(cmd, dataLen, data)''','''	// The top bit gets lost on serial lines with parity
	return in&0x7F == calculateChecksum(cmd, dataLen, data)&0x7F''')],'''
testing
%s
---
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		d := append([]byte(nil), def...)
		d[8] ^= 0x80
		return []piece{{0, d}}, true
	}
	v, err := libcomfo.GetTemperatures(u)
	if err == nil {
		t.Fatalf("damaged answer accepted: %%v", v)
	}
}
''' % L)

make("c04-early-ack","C04","a complete, correct frame of another type where the answer is due",
"The frame is acknowledged before it is found to be the wrong one.",
[("libcomfo/conn.go",'''	// Check for the correct response command (request command + 1)
	if in.Expect && out.Command != in.Command+1 {
		discard(conn, timer)
		return out, errInvalidResponse
	}

	// Send ACK
	_, err = WriteAck(conn)
''','''	// Send ACK
	_, err = WriteAck(conn)

	// Check for the correct response command (request command + 1)
	if in.Expect && out.Command != in.Command+1 {
		discard(conn, timer)
		return out, errInvalidResponse
	}
''')],'''
testing
%s
---
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		return []piece{{0, append([]byte{7, 0xF3}, demoFrame(0x0C, u.Fans)...)}}, true
	}
	if v, err := libcomfo.GetTemperatures(u); err == nil {
		t.Fatalf("wrong answer accepted: %%v", v)
	}
	for _, l := range u.log(false) {
		if l == "ack" {
			t.Fatalf("wrong answer acknowledged: %%v", u.log(false))
		}
	}
}
''' % L)

make("c05-write-timeout","C05","a connection whose Write fails with a timeout after part of the request, and an acknowledgement that is on the line nonetheless",
"The setter goes on as if the request had been written and reports success.",
[("libcomfo/conn.go",'''	_, err = conn.Write(wr)
	if err != nil {
		return
	}

	return true, nil''','''	_, err = conn.Write(wr)
	if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
		// The line is slow, the response shows whether the unit understood
		return true, nil
	}
	if err != nil {
		return
	}

	return true, nil''')],'''
os
testing
%s
---
type halfWriter struct{ *demoUnit }

func (h halfWriter) Write(p []byte) (int, error) {
	if len(p) > 2 {
		h.do(func() { h.out = append(h.out, 7, 0xF3); h.cond.Broadcast() })
		return 3, os.ErrDeadlineExceeded
	}
	return h.demoUnit.Write(p)
}

func TestDemo(t *testing.T) {
	if err := libcomfo.SetSpeed(3, halfWriter{newDemoUnit()}); err == nil {
		t.Fatal("success although the request was not written")
	}
}
''' % L)

make("c06-goroutine-leak","C06","queries that fail, again and again",
"Every query that fails leaves a goroutine behind that can never end.",
[("libcomfo/conn.go",'''	timer := time.NewTimer(time.Second)

''','''	timer := time.NewTimer(time.Second)

	// Report units that take their time
	answered := make(chan time.Duration)
	sent := time.Now()
	go func() {
		if d := <-answered; d > 500*time.Millisecond {
			fmt.Fprintln(os.Stderr, "the unit took", d, "to answer")
		}
	}()

'''),("libcomfo/conn.go",'''	// Send ACK
	_, err''','''	answered <- time.Since(sent)

	// Send ACK
	_, err'''),("libcomfo/conn.go",'''	"bufio"
	"io"
''','''	"bufio"
	"fmt"
	"io"
	"os"
''')],'''
runtime
sync
testing
time
%s
---
func TestDemo(t *testing.T) {
	n := runtime.NumGoroutine()
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) { return nil, true }
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		if _, err := libcomfo.GetFans(u); err == nil {
			t.Fatal("success without an answer")
		}
	}
	wg.Wait()
	time.Sleep(300 * time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+2 {
		t.Fatalf("%%d goroutines before, %%d after 5 queries", n, m)
	}
}
''' % L)

make("c07-rest","C07","a query that times out, and another one soon after it to a unit that answers again",
"Queries are refused for a while after a timeout although the unit answers correctly.",
[("libcomfo/conn.go",'''	// Package-wide serial connection Mutex
	pm = &sync.Mutex{}
''','''	// Package-wide serial connection Mutex
	pm = &sync.Mutex{}

	// When queries may be made again, leaves time to a unit that is busy
	rest time.Time
'''),("libcomfo/conn.go",'''	defer pm.Unlock()

	// Don't take''','''	defer pm.Unlock()

	if time.Now().Before(rest) {
		return out, errTimeout
	}

	// Don't take'''),
("libcomfo/conn.go",'''	out, err = ReadPacket(conn, timer, in.Expect)
	if err != nil {''','''	out, err = ReadPacket(conn, timer, in.Expect)
	if err == errTimeout {
		rest = time.Now().Add(3 * time.Second)
	}
	if err != nil {''')],'''
testing
time
%s
---
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	silent := true
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) { return nil, silent }
	if _, err := libcomfo.GetTemperatures(u); err == nil {
		t.Fatal("success without an answer")
	}
	u.do(func() { silent = false })
	time.Sleep(1500 * time.Millisecond)
	if _, err := libcomfo.GetFans(u); err != nil {
		t.Fatalf("next query: %%v", err)
	}
}
''' % L)

make("c08-timer-before-lock","C08","a caller that waits for its turn for a second, behind slow or failing exchanges of others",
"The second each exchange has begins before the caller's turn, so a failing exchange of one caller makes the others' fail.",
[("libcomfo/conn.go",'''	// Take out lock - start critical section
	pm.Lock()
	defer pm.Unlock()
''','''	// Start a query-scoped timeout
	timer := time.NewTimer(time.Second)

	// Take out lock - start critical section
	pm.Lock()
	defer pm.Unlock()
'''),("libcomfo/conn.go",'''	// Start a query-scoped timeout
	timer := time.NewTimer(time.Second)

	// Read packet''','''	// Read packet''')],'''
sync
testing
%s
---
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) { return nil, cmd == 0xD1 }
	var wg sync.WaitGroup
	errs := make([]error, 4)
	for i := range errs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i == 0 {
				libcomfo.GetTemperatures(u)
				return
			}
			if i == 1 {
				libcomfo.GetTemperatures(u)
				return
			}
			_, errs[i] = libcomfo.GetBypass(u)
			for k := 0; k < 3 && errs[i] == nil; k++ {
				_, errs[i] = libcomfo.GetBypass(u)
			}
		}()
	}
	wg.Wait()
	for i, e := range errs {
		if e != nil {
			t.Errorf("caller %%d: %%v", i, e)
		}
	}
}
''' % L)

make("c09-half-profile","C09","a profile whose incoming fan is at the wanted percentage while the outgoing fan is not",
"The profile is taken for unchanged and nothing is sent, with success reported.",
[("libcomfo/api.go",'''	switch mode {
	case 0:
		cfp.InAway''','''	// Nothing to do if the profile has this speed already
	if cur, _, err := cfp.Lookup(mode + 1); err == nil && cur == speed {
		return nil
	}

	switch mode {
	case 0:
		cfp.InAway''')],'''
testing
%s
---
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	// incoming at 36, outgoing at 35
	if err := libcomfo.SetFanProfile(1, 36, u); err != nil {
		t.Fatal(err)
	}
	if u.Prof[1] != 36 || u.Prof[4] != 36 {
		t.Fatalf("the unit stores %%d/%%d; it saw %%v", u.Prof[4], u.Prof[1], u.log(false))
	}
}
''' % L)

make("c10-one-fan-off","C10","an answer in which exactly one of the two fans has the raw speed zero",
"The division by zero is only guarded against when both are zero, the reader panics.",
[("libcomfo/response_types.go",'''	if inSpeed == 0 || outSpeed == 0 {''','''	if inSpeed == 0 && outSpeed == 0 {''')],'''
testing
%s
---
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %%v", r)
		}
	}()
	for i := 0; i < 2; i++ {
		u := newDemoUnit()
		u.Fans[2+2*i], u.Fans[3+2*i] = 0, 0
		if v, err := libcomfo.GetFans(u); err == nil {
			t.Fatalf("value for a speed that does not exist: %%v", v)
		}
	}
}
''' % L)

make("c10-shared-response","C10","two answers of the same type, the first of which is still in use",
"Decoding reuses one response per type, so a value that was returned changes when the next one is decoded.",
[("libcomfo/proto.go" if False else "libcomfo/message.go",'''	// Replace looked-up struct with a new instance
	out = out.New()

	err = out.UnmarshalBinary(in.Data)
''','''	err = out.UnmarshalBinary(in.Data)
''')],'''
testing
%s
---
func TestDemo(t *testing.T) {
	a, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: 0xE0, Data: []byte{0, 0, 1, 2, 3, 0, 1}})
	if err != nil {
		t.Fatal(err)
	}
	v := *a.(*libcomfo.Bypass)
	if _, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: 0xE0, Data: []byte{0, 0, 9, 9, 9, 0, 0}}); err != nil {
		t.Fatal(err)
	}
	if *a.(*libcomfo.Bypass) != v {
		t.Fatalf("was %%v, is now %%v", v, *a.(*libcomfo.Bypass))
	}
}
''' % L)

make("c11-late-lock","C11","two profile changes at the same time, the second read falling between the first's read and write",
"The lock is taken after the profiles have been read, so one of the two changes is undone.",
[("libcomfo/api.go",'''	// Lock API mutex for r/w transaction
	am.Lock()
	defer am.Unlock()

	cfp, err := GetFanProfiles(conn)
	if err != nil {
		return err
	}
''','''	cfp, err := GetFanProfiles(conn)
	if err != nil {
		return err
	}

	// Lock API mutex for r/w transaction
	am.Lock()
	defer am.Unlock()
''')],'''
sync
testing
time
%s
---
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		return []piece{{50 * time.Millisecond, def}}, true
	}
	var wg sync.WaitGroup
	for m := uint8(0); m < 4; m++ {
		m := m
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := libcomfo.SetFanProfile(m, 80+m, u); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
	for m, i := range []int{3, 4, 5, 11} {
		if u.Prof[i] != byte(80+m) {
			t.Errorf("profile %%d is %%d", m, u.Prof[i])
		}
	}
}
''' % L)
