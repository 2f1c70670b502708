package harness

import (
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

// Scenarios about what only shows after many repetitions of the same thing: a limit that
// is reached, a list that fills up, something given up after a number of failures.

// lasting are the deviations a connection survives, for the whole of an outage.
func lasting(setting bool) []answerFault {
	if setting {
		return ackGlitches()
	}
	return glitches()
}

// outageFault is one of the deviations of either kind of answer by number, the shorter list repeating.
func outageFault(k int, e Ev) answerFault {
	fl := lasting(isSet(e.Cmd))
	return fl[k%len(fl)]
}

// longOutage: one connection, the same failure many times over, then a healthy unit.
func longOutage(c *X) {
	u := NewUnit()
	failing := true
	k := pick("glitch", len(lasting(false)))
	n := []int{3, 5, 8, 12, 20, 70}[pick("times", 6)]
	u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
		if !failing {
			return nil
		}
		return outageFault(k, e).F(e, def)
	}
	op := pick("failing op", 3)
	do := func(op int) (string, error) {
		switch op {
		case 0:
			return callGet(getMsgs[4], u)
		case 1:
			return callGet(getMsgs[0], u)
		}
		return "", setOps()[1].Do(u)
	}
	for i := 0; i < n; i++ {
		do(op)
		if len(u.q) > 0 {
			vrt.Sleep(5 * sec)
		}
	}
	failing = false
	vrt.Sleep(5 * sec)
	u.Temps[1], u.Fans[0] = 99, 42
	for i := 0; i < 3; i++ {
		for op := 0; op < 3; op++ {
			want := ""
			switch op {
			case 0:
				want, _ = refGet(getMsgs[4], u.Temps)
			case 1:
				want, _ = refGet(getMsgs[0], u.Fans)
			}
			if got, err := do(op); err != nil || got != want {
				c.Fail("recovery", "after %d times [%s] and a pause of 5 s a healthy unit gave %q, %v", n, lasting(false)[k].Name, got, err)
			}
		}
	}
	c.Outcome("%d %s", n, lasting(false)[k].Name)
}

// longRun: one connection, one operation many times on a healthy unit; every one succeeds.
func longRun(c *X) {
	u := NewUnit()
	op := pick("op", 3)
	for i := 0; i < 1000; i++ {
		u.Temps[1], u.Fans[0] = byte(i), byte(i%101)
		var got, want string
		var err error
		n := u.Frames
		switch op {
		case 0:
			want, _ = refGet(getMsgs[4], u.Temps)
			got, err = callGet(getMsgs[4], u)
		case 1:
			want, _ = refGet(getMsgs[0], u.Fans)
			got, err = callGet(getMsgs[0], u)
		default:
			err = setOps()[1].Do(u)
		}
		if err != nil || got != want || u.Frames != n+1 {
			c.Fail("recovery", "exchange %d with a healthy unit gave %q (the unit says %q), %v, %d requests", i+1, got, want, err, u.Frames-n)
		}
		if i%97 == 0 {
			vrt.Sleep(sec)
		}
	}
	c.Outcome("%d", op)
}

// serverOutage: the unit fails for a while, in the same way all the time, while a client
// goes on making one kind of call. during is called every now and then in the meantime.
func serverOutage(c *X, u *Unit, s *sys, k, call int, length, every int64, during func()) {
	u.Answer = func(u *Unit, e Ev, def []byte) []Chunk { return outageFault(k, e).F(e, def) }
	end := vrt.NowNS() + length
	for i := 0; vrt.NowNS() < end; i++ {
		switch call {
		case 0:
		case 1:
			s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: uint32(1 + i%4)})
		case 2:
			s.a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: uint32(1 + i%4), TargetSpeed: uint32(20 + i%70)})
		case 3:
			s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: uint32(15 + i%10)})
		case 4:
			s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: flushAll})
		case 5:
			s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(i % 6)})
		case 6:
			s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: 9})
			s.a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: 9, TargetSpeed: 30})
			s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: 1000})
		}
		during()
		vrt.Sleep(every)
	}
	u.Answer = nil
}

// wedgeOutage (C17): whatever the clients did during an outage, everything works afterwards.
func wedgeOutage(c *X) {
	u := NewUnit()
	s := startServer(c, u)
	k := pick("glitch", len(lasting(false)))
	call := pick("call", 7)
	length := []int64{40 * sec, 400 * sec, 7300 * sec}[pick("length", 3)]
	if call != 0 && length > 400*sec {
		return
	}
	vrt.Sleep(sec)
	serverOutage(c, u, s, k, call, length, 3*sec, func() {})
	c.Outcome("%d %d", k, call)
	probeServer(c, s, u, false)
}

// wedgeRun (C17): nor does it matter how often a call was made on a healthy unit.
func wedgeRun(c *X) {
	u := NewUnit()
	s := startServer(c, u)
	call := 1 + pick("call", 8)
	for i := 0; i < 300; i++ {
		var err error
		ok := true
		switch call {
		case 1:
			_, err = s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: uint32(1 + i%4)})
		case 2:
			_, err = s.a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: uint32(1 + i%4), TargetSpeed: uint32(20 + i%70)})
		case 3:
			_, err = s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: uint32(15 + i%10)})
		case 4:
			var r *rpc.FlushCacheResponse
			r, err = s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: flushAll})
			ok = r.GetSuccess()
		case 5:
			var r *rpc.FlushCacheResponse
			t := i % 5
			r, err = s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
			ok = r.GetSuccess()
		case 6:
			s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: 9})
			s.a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: 9, TargetSpeed: 30})
			s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: 1000})
			s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: 77})
		case 7:
			for i := range readings {
				s.get(&readings[i])
			}
		case 8:
			leaving(s.a, 30*ms, false).FlushCache(bg, &rpc.FlushCacheRequest{Cache: flushAll})
		}
		if err != nil || !ok {
			c.Fail("stuck", "call %d of the same kind (%d) on a healthy unit: %v, %v", i+1, call, ok, err)
		}
		if i%40 == 0 {
			vrt.Sleep(7 * sec)
		}
	}
	c.Outcome("%d", call)
	probeServer(c, s, u, false)
}

// keptOutage (C12): the readings before an outage stay, however long it takes.
func keptOutage(c *X) {
	u := unitAt(3)
	s := startServer(c, u)
	k := pick("glitch", len(lasting(false)))
	call := []int{0, 4, 6}[pick("call", 3)]
	length := []int64{120 * sec, 7300 * sec}[pick("length", 2)]
	if call != 0 && length > 400*sec {
		return
	}
	var want [6]string
	for i := range readings {
		want[i] = s.get(&readings[i])
		if w := readings[i].Of(u.Payload(readings[i].Cmd)); w != want[i] {
			c.Fail("reading", "after the start %s is %s, the unit says %s", readings[i].Name, want[i], w)
		}
	}
	for _, r := range readings {
		u.SetPayload(r.Cmd, r.Make(4))
	}
	late := false
	for _, ch := range lasting(false)[k].F(Ev{}, make([]byte, 20)) {
		late = late || ch.Delay > 900*ms
	}
	t0 := vrt.NowNS()
	serverOutage(c, u, s, k, call, length, 4700*ms, func() {
		for i := range readings {
			got := s.get(&readings[i])
			if late && got == readings[i].Of(u.Payload(readings[i].Cmd)) {
				want[i] = got // an answer that came while the next request waited for the same
			}
			if got != want[i] {
				c.Fail("reading", "%.0f s into an outage [%s] %s is %s, it was %s when last read", float64(vrt.NowNS()-t0)/1e9, lasting(false)[k].Name, readings[i].Name, got, want[i])
			}
		}
	})
	c.Outcome("%d %d", k, call)
}

// freshOutage (C19): after an outage readings become fresh again within their periods.
func freshOutage(c *X) {
	u := unitAt(3)
	s := startServer(c, u)
	k := pick("glitch", len(lasting(false)))
	call := []int{0, 1, 4, 5}[pick("call", 4)]
	length := []int64{40 * sec, 700 * sec, 8000 * sec}[pick("length", 3)]
	if call != 0 && length > 700*sec {
		return
	}
	serverOutage(c, u, s, k, call, length, 4700*ms, func() {})
	for _, r := range readings {
		u.SetPayload(r.Cmd, r.Make(4))
	}
	t0 := vrt.NowNS()
	for _, p := range []int64{5 * sec, 300 * sec, 3600 * sec} {
		vrt.Sleep(t0 + 2*p + 2*sec - vrt.NowNS())
		for i := range readings {
			r := &readings[i]
			if r.Period > p {
				continue
			}
			if got, w := s.get(r), r.Of(u.Payload(r.Cmd)); got != w {
				c.Fail("stale", "%.0f s after the end of an outage of %d s [%s] %s is %s, the unit says %s", float64(vrt.NowNS()-t0)/1e9, length/sec, lasting(false)[k].Name, r.Name, got, w)
			}
		}
	}
	c.Outcome("%d %d", k, call)
}

// freshFlood (C19): clients that call again as soon as they have their answer do not keep
// the readings from being refreshed. Whoever has waited longest goes first.
func freshFlood(c *X) {
	u := unitAt(0)
	n := 1 + pick("clients", 4)
	call := pick("call", 9)
	u.Lat = []int64{80 * ms, 450 * ms}[pick("latency", 2)]
	s := startServer(c, u)
	stop := false
	var ts []*vrt.Thread
	for i := 0; i < n; i++ {
		i := i
		ts = append(ts, vrt.GoNamed("client "+string(rune('0'+i)), func() {
			for k := 0; !stop; k++ {
				switch call {
				case 0, 1, 2, 3, 4:
					s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(call)})
				case 5:
					s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: flushAll})
				case 6:
					s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: uint32(1 + (i+k)%4)})
				case 7:
					s.a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: uint32(1 + (i+k)%4), TargetSpeed: uint32(20 + k%70)})
				case 8:
					s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: uint32(15 + (i+k)%10)})
				}
				vrt.Sleep(ms)
			}
		}))
	}
	slow := 0
	for _, end := range []int64{20 * sec, 650 * sec} {
		vrt.Sleep(end - vrt.NowNS())
		for _, r := range readings {
			u.SetPayload(r.Cmd, r.Make(4+int(end/(10*sec))%20))
		}
		var want [6]string
		for i, r := range readings {
			want[i] = r.Of(u.Payload(r.Cmd))
		}
		t0 := vrt.NowNS()
		for _, p := range []int64{5 * sec, 300 * sec} {
			if p == 300*sec && end != 20*sec {
				continue
			}
			// what is in the readings but not changed by the calls
			vrt.Sleep(t0 + 2*p + 2*sec + 15*u.Lat - vrt.NowNS())
			for i := range readings {
				r := &readings[i]
				if r.Period > p || call == 6 && (r.Cmd == cFans || r.Cmd == cProf) || call == 7 && (r.Cmd == cFans || r.Cmd == cProf) || call == 8 && r.Cmd == cTemps {
					continue
				}
				slow++
				if got := s.get(r); got != want[i] {
					c.Fail("stale", "%d clients calling %d again and again: %.0f s after the unit changed %s is %s, the unit says %s", n, call, float64(vrt.NowNS()-t0)/1e9, r.Name, got, want[i])
				}
			}
		}
	}
	stop = true
	vrt.Join(ts...)
	c.Outcome("%d %d", call, slow)
}

// freshStart (C19): the server is started with the readings of the unit.
func freshStart(c *X) {
	u := unitAt(3 + pick("state", 3))
	u.Lat = []int64{0, 20 * ms, 300 * ms, 450 * ms}[pick("latency", 4)]
	s := startServer(c, u)
	first := pick("first", len(readings))
	for k := range readings {
		r := &readings[(first+k)%len(readings)]
		if got, w := s.get(r), r.Of(u.Payload(r.Cmd)); got != w {
			c.Fail("start", "after the start %s is %s, the unit says %s", r.Name, got, w)
		}
	}
	c.Outcome("%d", first)
}
