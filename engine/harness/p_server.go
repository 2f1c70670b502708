package harness

import (
	"fmt"
	"strings"

	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

func init() {
	register("C12", propC12)
	register("C13", propC13)
	register("C14", propC14)
	register("C15", propC15)
}

func bump(u *Unit, k int) {
	for _, r := range readings {
		u.SetPayload(r.Cmd, r.Make(k))
	}
}

// unitAt returns a unit in the state of step k.
func unitAt(k int) *Unit {
	u := NewUnit()
	bump(u, k)
	return u
}

// srvFaults are the answers to the server's refreshes; 0 is the normal one.
func srvFaults() []answerFault {
	var o []answerFault
	for _, f := range frameFaults() {
		switch f.Name {
		case "normal", "silence", "ack only", "bad checksum", "cut, silence", "short frame", "data too late", "too late", "late but in time", "no end, closed", "closed":
			o = append(o, f)
		}
	}
	return append(o,
		answerFault{"wrong size", func(e Ev, def []byte) []Chunk {
			return whole(ackSeq, refFrame(e.Cmd+1, []byte{1, 2, 3, 4}))
		}, false},
		answerFault{"other answer", func(e Ev, def []byte) []Chunk {
			return whole(ackSeq, refFrame(0xDE, []byte{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}))
		}, false},
		answerFault{"zero fans", func(e Ev, def []byte) []Chunk {
			if e.Cmd != cFans {
				return silence
			}
			return whole(ackSeq, refFrame(e.Cmd+1, []byte{91, 92, 0, 0, 0, 0}))
		}, false})
}

// shadow follows what the readings may be, from what the unit answered.
type shadow struct {
	allowed [6][]string
	dirty   int // exchanges that may fail because of what an earlier one left behind
	dead    bool
}

func newShadow(u *Unit) *shadow {
	sh := &shadow{}
	for i, r := range readings {
		if u != nil {
			sh.allowed[i] = []string{r.Of(u.Payload(r.Cmd))}
		} else {
			sh.allowed[i] = []string{r.Zero}
		}
	}
	return sh
}

func (sh *shadow) answered(u *Unit, e Ev, f answerFault) {
	for i, r := range readings {
		if r.Cmd != e.Cmd || sh.dead {
			continue
		}
		v := r.Of(u.Payload(r.Cmd))
		if !f.OK {
			continue
		}
		if sh.dirty > 0 {
			sh.allowed[i] = append(sh.allowed[i], v)
		} else {
			sh.allowed[i] = []string{v}
		}
	}
	if f.OK {
		if sh.dirty > 0 {
			sh.dirty--
		}
	} else {
		sh.dirty = 2
		for _, c := range f.F(e, append(clone(ackSeq), refFrame(e.Cmd+1, u.Payload(e.Cmd))...)) {
			if c.EOF || c.Err != nil {
				sh.dead = true
			}
		}
	}
}

func (sh *shadow) check(s *sys, what string) {
	for i := range readings {
		r := &readings[i]
		got := s.get(r)
		ok := false
		for _, a := range sh.allowed[i] {
			ok = ok || a == got
		}
		if !ok {
			s.c.Fail("reading", "%s: the server's %s is %s; last obtained from the unit: %v; wire %s", what, r.Name, got, sh.allowed[i], clip2(s.u.Wire()))
		}
	}
}

// clip2 keeps the end of a long string.
func clip2(s string) string {
	if len(s) > 1500 {
		return "..." + s[len(s)-1500:]
	}
	return s
}

// align waits for the moment half a second before a multiple of five seconds, when all
// that the last tick started is over.
func align() {
	now := vrt.NowNS()
	d := (9500*ms - now%(5*sec)) % (5 * sec)
	vrt.Sleep(d)
	vrt.Settle()
}

func propC12() *Prop {
	history := func(depth int, startup bool) func(c *X) {
		return func(c *X) {
			c.keepReads = true
			u := unitAt(0)
			sh := newShadow(u)
			fl := srvFaults()
			from := int64(0)
			hist := ""
			mark, clean := 0, true
			// a refresh of one kind that fails keeps none of the others from being made
			others := func(when string) {
				if !clean {
					return
				}
				for _, r := range readings {
					ok := false
					for _, e := range u.framesSince(mark) {
						ok = ok || e.Cmd == r.Cmd
					}
					if !ok {
						c.Fail("others", "%s %s: %s was not read; wire %s", hist, when, r.Name, u.sinceN(mark))
					}
				}
			}
			hook := func(u *Unit, e Ev, def []byte) []Chunk {
				if readingOf(e.Cmd) == nil {
					return nil
				}
				f := fl[0]
				if vrt.NowNS() >= from {
					k := vrt.Choose("answer", len(fl), 1)
					f = fl[k]
					if k > 0 {
						switch f.Name {
						case "silence", "ack only", "bad checksum", "cut, silence", "wrong size", "zero fans":
						default:
							clean = false
						}
						hist += fmt.Sprintf("[%02x %s]", e.Cmd, f.Name)
					}
				}
				sh.answered(u, e, f)
				return f.F(e, def)
			}
			if startup {
				sh = newShadow(nil)
				u.Answer = hook
			}
			s := startServer(c, u)
			// with faults the first round takes time; the ticks count from its end
			vrt.Sleep(sec)
			t0 := vrt.NowNS()
			_ = t0
			sh.check(s, "at start")
			others("at start")
			u.Answer = hook
			for i := 1; i <= depth; i++ {
				bump(u, i)
				mark = len(u.Events)
				st := pick("step", 9)
				switch {
				case st == 0:
					from = vrt.NowNS()
					vrt.Sleep(5 * sec)
					hist += " wait5s"
				case st == 1:
					from = vrt.NowNS() + 296*sec
					vrt.Sleep(300 * sec)
					hist += " wait5min"
				case st == 2:
					from = vrt.NowNS()
					s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(flushAll)})
					hist += " flushAll"
					others("at once")
				case st < 8:
					from = vrt.NowNS()
					s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(st - 3)})
					hist += fmt.Sprintf(" flush%d", st-3)
				default:
					from = vrt.NowNS()
					r, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: 7})
					if err == nil && r.GetSuccess() {
						c.Fail("unknown-type", "a flush of an unknown type succeeded")
					}
					hist += " flush?"
				}
				if st >= 2 {
					sh.check(s, hist)
				}
				vrt.Sleep(4500 * ms) // let what is under way end
				from = 1 << 60
				quiet(u)
				sh.check(s, hist)
			}
			c.Outcome("%s", hist)
		}
	}
	// one byte of one reading changes, and nothing else
	oneByte := func(c *X) {
		c.keepReads = true
		u := unitAt(0)
		s := startServer(c, u)
		vrt.Sleep(sec)
		r := &readings[pick("reading", 6)]
		d := clone(u.Payload(r.Cmd))
		i := pick("byte", len(d))
		for k, by := range []byte{1, 255, 16, 240} {
			n := clone(d)
			n[i] += by
			u.SetPayload(r.Cmd, n)
			ok := !(r.Cmd == cBoot && i >= 3 && n[i] >= 0x80) // names are judged in C21
			for _, m := range getMsgs {
				if ok && m.Cmd == r.Cmd {
					_, ok = refGet(m, n)
				}
			}
			if !ok {
				continue // not a reading
			}
			if t := r.Flush; k%2 == 0 || t < 0 {
				if t < 0 {
					t = flushAll
				}
				f, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
				if err != nil || !f.GetSuccess() {
					c.Fail("flush", "flushing %s with % x: %v, %v", r.Name, n, f, err)
				}
			} else {
				vrt.Sleep(r.Period + 5*sec)
				quiet(u)
			}
			if got := s.get(r); got != r.Of(n) {
				c.Fail("reading", "%s is %s after byte %d of % x became %02x and was read, it should be %s", r.Name, got, i, d, n[i], r.Of(n))
			}
			d = n
		}
		c.Outcome("%s %d", r.Name, i)
	}
	readers := func(nread int, laterun bool) func(c *X) {
		return func(c *X) {
			c.keepReads = true
			u := unitAt(0)
			s := startServer(c, u)
			// successive values of every reading, as answered by the unit
			hist := [6][]string{}
			for i, r := range readings {
				hist[i] = []string{r.Of(u.Payload(r.Cmd))}
			}
			u.Lat = []int64{0, 30 * ms}[pick("latency", 2)]
			late := 0
			if laterun {
				late = pick("late", 1<<nread)
			}
			n := 0
			u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
				for i, r := range readings {
					if r.Cmd == e.Cmd {
						n++
						u.SetPayload(r.Cmd, r.Make(n))
						hist[i] = append(hist[i], r.Of(u.Payload(r.Cmd)))
						return []Chunk{{Delay: u.Lat, B: append(clone(ackSeq), refFrame(e.Cmd+1, u.Payload(e.Cmd))...)}}
					}
				}
				return nil
			}
			ri := pick("reading", 6)
			r := &readings[ri]
			var obs [2][]string
			var floor [2][]int // the refresh that had ended when the reading was asked for
			ended := 0
			var ts []*vrt.Thread
			ts = append(ts, vrt.GoNamed("flusher", func() {
				for i := 0; i < 2; i++ {
					t := r.Flush
					if t < 0 {
						t = flushAll
					}
					f, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
					if err == nil && f.GetSuccess() {
						ended = len(hist[ri]) - 1
					}
				}
			}))
			for k := 0; k < 2; k++ {
				k := k
				ts = append(ts, vrt.GoNamed("reader", func() {
					for i := 0; i < nread; i++ {
						if late>>i&1 == 1 {
							vrt.Late()
						}
						floor[k] = append(floor[k], ended)
						obs[k] = append(obs[k], s.get(r))
						vrt.Point("between reads")
					}
				}))
			}
			vrt.Join(ts...)
			floor[0] = append(floor[0], ended)
			obs[0] = append(obs[0], s.get(r))
			for k := range obs {
				at := 0
				for i, o := range obs[k] {
					at = max(at, floor[k][i])
					for at < len(hist[ri]) && hist[ri][at] != o {
						at++
					}
					if at == len(hist[ri]) {
						c.Fail("reading", "%s was read as %v; the unit's answers were, in order, %v, and when asked for, refreshes up to number %v had ended", r.Name, obs[k], hist[ri], floor[k])
					}
				}
			}
			if l := obs[0][len(obs[0])-1]; l != hist[ri][len(hist[ri])-1] {
				c.Fail("reading", "%s is %s after the refreshes; the unit's answers were, in order, %v", r.Name, l, hist[ri])
			}
			c.Outcome("%d %v", ri, obs)
		}
	}
	ns := vrt.Options{NoSched: true, Horizon: 4000 * sec}
	return &Prop{ID: "C12",
		Quick: []Scenario{
			{Name: "startup", Bound: 2, Opt: ns, Body: history(0, true), What: "the six initial readings with up to two faulty answers of 13 kinds"},
			{Name: "history-1", Bound: 1, Opt: ns, Body: history(2, false), What: "every sequence of 2 steps (tick, 5 minutes, flush of every type), the unit's state changing at every step, with up to one faulty answer of 13 kinds at every exchange"},
			{Name: "one-byte", Opt: vrt.Options{NoSched: true, Horizon: 40000 * sec, MaxSteps: 20000000}, Body: oneByte, What: "each byte of each reading changing alone by 1, 255, 16 and 240, one after the other, read by a flush or by the background refresh"},
			{Name: "outage", Opt: vrt.Options{NoSched: true, Horizon: 100000 * sec, MaxSteps: 20000000}, Body: keptOutage, What: "outages of 2 minutes and 2 hours with every recoverable deviation, alone and with flushes or refused changes going on meanwhile: the readings stay"},
			{Name: "readers", Bound: 2, Body: readers(2, false), What: "two readers during two refreshes of every reading, up to 2 preemptions or delays"},
			{Name: "readers-steps", Bound: 1, Opt: vrt.Options{Steps: true}, Body: readers(2, true), What: "as readers, and with readers that wait for the refresh unless they interrupt it, 1 deviation, a preemption at any statement that touches memory other goroutines may use; structures are written in two halves"},
		},
		Deep: []Scenario{
			{Name: "history-2", Bound: 2, Opt: ns, Body: history(2, false), What: "as history-1 with up to two faulty answers"},
			{Name: "history-long", Bound: 1, Opt: ns, Body: history(3, false), What: "sequences of 3 steps, up to one faulty answer"},
			{Name: "readers-steps-deep", Bound: 2, Opt: vrt.Options{Steps: true}, Body: readers(1, true), What: "as readers-steps with one read each and 2 deviations"},
			{Name: "readers-deep", Bound: 3, Body: readers(2, false), What: "as readers with 3 preemptions or delays"},
		},
	}
}

// quiet waits until no request has been made for a second and more.
func quiet(u *Unit) {
	for i := 0; i < 60; i++ {
		n := len(u.Events)
		for k := 0; k < 24; k++ {
			vrt.Sleep(100 * ms)
			if len(u.Events) != n {
				break
			}
		}
		if len(u.Events) == n {
			return
		}
	}
}

// ---- C13: SetFanSpeed ----

// tgt is the speed a request asks for, given the current one; ok is false for requests
// that must be refused.
func speedTarget(cur byte, abs uint32, rel bool) (byte, bool) {
	t := int64(cur)
	switch {
	case abs != 0 && rel:
		return 0, false
	case abs != 0:
		t = int64(abs)
	case rel:
		t++
	default:
		t--
	}
	if t < 1 || t > 4 {
		return 0, false
	}
	return byte(t), true
}

func modeReading(d []byte) string { return readingOf(cProf).Of(d) }

// modeOf is the speed in a profiles reading.
func modeOf(r string) string { return r[strings.LastIndexByte(r, ' ')+1:] }

func propC13() *Prop {
	abss := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 128, 255, 256, 257, 258, 259, 260, 261, 512, 513, 65535, 65536, 65537, 1 << 24, 1<<24 + 2, 1 << 31, 1<<31 + 1, 1<<32 - 4, 1<<32 - 1}
	request := func(c *X, s *sys, base byte, abs uint32, rel bool, mustWork, mustFail, judgeAfter bool) error {
		u := s.u
		n := len(u.Events)
		t0 := vrt.NowNS()
		r, err := s.a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: abs, Rel: rel})
		took := vrt.NowNS() - t0
		what := fmt.Sprintf("SetFanSpeed(Abs=%d, Rel=%v) at speed %d", abs, rel, base)
		tgt, ok := speedTarget(base, abs, rel)
		if !ok {
			if code(err) != "invalid_argument" {
				c.Fail("validation", "%s must be refused as invalid_argument, got %v, %v", what, r, err)
			}
			if len(u.setsSince(n)) != 0 {
				c.Fail("validation", "%s is invalid, but the unit saw %s", what, u.sinceN(n))
			}
			c.Outcome("invalid")
			return err
		}
		if tgt == base {
			if err != nil || r.GetModified() || r.GetOriginalSpeed() != uint32(base) || r.GetTargetSpeed() != uint32(tgt) {
				c.Fail("no-op", "%s changes nothing, got %v, %v", what, r, err)
			}
			if len(u.setsSince(n)) != 0 {
				c.Fail("no-op", "%s changes nothing, but the unit saw %s", what, u.sinceN(n))
			}
			c.Outcome("same")
			return err
		}
		sets := u.setsSince(n)
		if _, ok := s.a.(withCtx); ok && err != nil && len(sets) == 0 {
			// the client has gone: the call may have been given up
			c.Outcome("given up")
			return err
		}
		if len(sets) != 1 || sets[0].Cmd != cSpeed || !eq(sets[0].Data, []byte{tgt}) {
			c.Fail("request", "%s must send speed %d once, the unit saw %s", what, tgt, u.sinceN(n))
		}
		if took > 40*sec {
			c.Fail("endless", "%s took %.1fs", what, float64(took)/1e9)
		}
		if err == nil {
			if !r.GetModified() || r.GetOriginalSpeed() != uint32(base) || r.GetTargetSpeed() != uint32(tgt) {
				c.Fail("response", "%s returned %v", what, r)
			}
			if mustFail {
				c.Fail("false-success", "%s returned success although the unit never acknowledged it or its fans did not reach the target; wire %s", what, u.sinceN(n))
			}
			in, out := u.pct(tgt)
			fr := s.get(readingOf(cFans))
			var a, b int
			fmt.Sscanf(fr, "fans[%d %d", &a, &b)
			if a != int(in) || b != int(out) {
				c.Fail("fans", "%s succeeded, the fans reading is %s, the target is %d/%d", what, fr, in, out)
			}
		} else {
			if code(err) == "invalid_argument" {
				c.Fail("refused", "%s was refused: %v", what, err)
			}
			if mustWork {
				c.Fail("failed", "%s failed with %v although the unit did what it was told; wire %s", what, err, u.sinceN(n))
			}
		}
		if judgeAfter {
			if got := s.get(readingOf(cProf)); modeOf(got) != modeOf(modeReading(u.Prof)) {
				c.Fail("readings-after", "%s (error %v): the profiles reading is %s, the unit's is %s; wire %s", what, err, got, modeReading(u.Prof), u.sinceN(n))
			}
		}
		c.Outcome("%d->%d %v %d", base, tgt, err, len(u.framesSince(n)))
		return err
	}
	table := func(c *X) {
		u := NewUnit()
		base := byte(pick("mode", 5))
		u.Prof[8] = base
		u.Fans[0], u.Fans[1] = u.pct(base)
		u.Lat = 20 * ms
		s := startServer(c, u)
		vrt.Sleep(sec)
		request(c, s, base, abss[pick("abs", len(abss))], pick("rel", 2) == 1, true, false, true)
	}
	// what someone changed on the unit's panel since it was read counts
	panel := func(c *X) {
		u := NewUnit()
		u.Prof[8] = byte(pick("mode when read", 4) + 1)
		u.Fans[0], u.Fans[1] = u.pct(u.Prof[8])
		u.Lat = []int64{0, 20 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep([]int64{sec, 4600 * ms}[pick("phase", 2)])
		base := byte(pick("mode", 4) + 1)
		r := pick("request", 6)
		if d := pick("duties", 3); d > 0 {
			for _, i := range []int{0, 1, 2, 3, 4, 5, 10, 11} {
				u.Prof[i] += byte(d * 3)
			}
		}
		u.Prof[8] = base
		u.Fans[0], u.Fans[1] = u.pct(base)
		ri := pick("ramp", 3)
		u.RampNS = []int64{0, 1700 * ms, 20 * sec}[ri]
		if r < 4 {
			request(c, s, base, uint32(r+1), false, ri < 2, ri == 2, true)
		} else {
			request(c, s, base, 0, r == 5, ri < 2, ri == 2, true)
		}
	}
	ramps := []int64{0, 400 * ms, 1700 * ms, 3900 * ms, 20 * sec, 1000 * sec}
	ramp := func(c *X) {
		u := NewUnit()
		base := byte(pick("mode", 4) + 1)
		u.Prof[8] = base
		u.Fans[0], u.Fans[1] = u.pct(base)
		ri := pick("ramp", len(ramps))
		u.RampNS = ramps[ri]
		if ri > 0 {
			u.Leads = pick("leads", 3)
		}
		u.Lat = []int64{0, 300 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep([]int64{sec, 4600 * ms}[pick("phase", 2)])
		tgt := byte(pick("target", 4) + 1)
		request(c, s, base, uint32(tgt), false, ri < 4, ri >= 4, true)
		if ri >= 4 && base != tgt {
			// the speed was changed nonetheless: going back must be a change
			un := u.RampNS
			u.RampNS = 0
			request(c, s, tgt, uint32(base), false, true, false, true)
			u.RampNS = un
		}
	}
	faults := func(c *X) {
		u := NewUnit()
		base := byte(2)
		u.Prof[8] = base
		u.Fans[0], u.Fans[1] = u.pct(base)
		u.RampNS = []int64{0, 1700 * ms}[pick("ramp", 2)]
		s := startServer(c, u)
		vrt.Sleep(sec)
		gets := 0
		setFault := ""
		lost := false
		fg := srvFaults()
		fa := ackFaults()
		u.Before = func(u *Unit, e Ev) bool {
			if e.Cmd == cSpeed && vrt.Choose("request lost", 2, 1) == 1 {
				lost = true
				return false
			}
			return true
		}
		clean := true
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if isSet(e.Cmd) {
				f := fa[vrt.Choose("ack", len(fa), 1)]
				if !f.OK {
					setFault = f.Name
					if f.Name != "silence" {
						clean = false
					}
				}
				return f.F(e, def)
			}
			if readingOf(e.Cmd) == nil {
				return nil
			}
			f := fg[vrt.Choose("answer", len(fg), 1)]
			if !f.OK {
				gets++
				switch f.Name {
				case "silence", "ack only", "bad checksum", "cut, silence", "wrong size", "zero fans":
				default:
					clean = false
				}
				if e.Cmd == cProf {
					clean = false
				}
			}
			return f.F(e, def)
		}
		err := request(c, s, base, 4, false, false, false, false)
		if setFault == "" && !lost && clean {
			if err != nil {
				c.Fail("failed", "SetFanSpeed(4) failed with %v although the unit did what it was told, only %d readings were lost on the way; wire %s", err, gets, u.Wire())
			}
			// whatever single answer was lost on the way, the change was completed
			if u.Prof[8] != 4 {
				c.Fail("request", "the unit did not get the speed")
			}
		}
		if clean {
			if got := s.get(readingOf(cProf)); modeOf(got) != modeOf(modeReading(u.Prof)) {
				c.Fail("readings-after", "after SetFanSpeed with fault %q (request lost: %v) the profiles reading is %s, the unit's is %s; wire %s", setFault, lost, got, modeReading(u.Prof), clip2(u.Wire()))
			}
		}
		c.Outcome("%v %v %v", setFault, lost, gets)
	}
	falseok := func(c *X) {
		// no acknowledgement, no success
		u := NewUnit()
		u.Prof[8] = 2
		u.Fans[0], u.Fans[1] = u.pct(2)
		s := startServer(c, u)
		vrt.Sleep(sec)
		fa := ackFaults()
		f := fa[pick("ack", len(fa))]
		applied := pick("applied", 2) == 1
		u.Before = func(u *Unit, e Ev) bool {
			if e.Cmd == cSpeed && !applied {
				u.Push(f.F(e, ackSeq)...)
				return false
			}
			return true
		}
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if e.Cmd == cSpeed {
				return f.F(e, def)
			}
			return nil
		}
		request(c, s, 2, 3, false, f.OK && applied, !f.OK || !applied, false)
	}
	// a unit that acknowledges the request, and does something else
	ownMind := func(c *X) {
		u := NewUnit()
		base := byte(pick("mode", 4) + 1)
		u.Prof[8] = base
		u.Fans[0], u.Fans[1] = u.pct(base)
		u.Lat = []int64{0, 20 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep(sec)
		does := byte(pick("does", 5)) // 0: nothing
		u.Apply = func(u *Unit, e Ev) bool {
			if does > 0 {
				u.Prof[8] = does
				u.retarget()
			}
			return true
		}
		tgt := byte(pick("target", 4) + 1)
		request(c, s, base, uint32(tgt), false, false, does != tgt, true)
		u.Apply = nil
		quiet(u)
		request(c, s, u.Prof[8], uint32(pick("next", 4)+1), false, true, false, true)
	}
	canceled := func(c *X) {
		u := NewUnit()
		u.Prof[8] = 2
		u.Fans[0], u.Fans[1] = u.pct(2)
		ri := pick("ramp", len(ramps))
		u.RampNS = ramps[ri]
		u.Lat = 20 * ms
		s := startServer(c, u)
		vrt.Sleep([]int64{sec, 4600 * ms}[pick("phase", 2)])
		s.a = leaving(s.a, goneAfter[pick("client gone", len(goneAfter))], pick("deadline", 2) == 1)
		request(c, s, 2, []uint32{4, 1, 9}[pick("target", 3)], false, false, ri >= 4, true)
		// the next client's step starts from the level in use
		s.a = s.a.(withCtx).a
		u.RampNS = 0
		quiet(u)
		request(c, s, u.Prof[8], 0, u.Prof[8] != 4, true, false, true)
	}
	ns := vrt.Options{NoSched: true}
	return &Prop{ID: "C13",
		Quick: []Scenario{
			{Name: "requests", Opt: ns, Body: table, What: "5 speeds x 28 values of Abs x both values of Rel"},
			{Name: "ramps", Opt: ns, Body: ramp, What: "every speed to every speed, fans reaching the target after 0 to 3.9 s, 20 s or never, 2 latencies, 2 phases of the ticks; going back afterwards"},
			{Name: "own-mind", Opt: ns, Body: ownMind, What: "every speed to every speed, the unit acknowledging and keeping its speed or choosing any other, then any further request, 2 latencies"},
			{Name: "panel", Opt: ns, Body: panel, What: "every speed and 3 sets of duties chosen on the unit's own panel since it was read, from every speed, x 6 requests x 3 ramps x 2 latencies x 2 phases"},
			{Name: "no-ack", Opt: ns, Body: falseok, What: "13 answers to the request, with and without effect"},
			{Name: "faults", Bound: 2, Opt: ns, Body: faults, What: "up to two of: request lost, faulty acknowledgement (13), faulty answer to any poll or refresh (14)"},
			{Name: "canceled", Opt: ns, Body: canceled, What: "a client that goes away (or whose deadline passes) at 7 moments before and during the change, 6 ramps, 2 phases; then a step by another client"},
			{Name: "schedules", Bound: 1, Body: ramp, What: "as ramps, together with the refreshing worker under every schedule with one preemption or delay"},
		},
		Deep: []Scenario{
			{Name: "faults-3", Bound: 3, Opt: ns, Body: faults, What: "up to three faults"},
			{Name: "schedules-2", Bound: 2, Body: ramp, What: "two preemptions or delays"},
			{Name: "panel-schedules", Bound: 1, Body: panel, What: "as panel, together with the refreshing worker under every schedule with one preemption or delay"},
		},
	}
}

// ---- C14: SetFanProfile ----

func propC14() *Prop {
	modes := []uint32{0, 1, 2, 3, 4, 5, 6, 255, 256, 257, 258, 259, 260, 261, 65537, 1<<31 + 2, 1<<32 - 1, 1 << 24}
	offsIn := []int{3, 4, 5, 11}
	offsOut := []int{0, 1, 2, 10}
	run := func(c *X, u *Unit, s *sys, mode, tgt uint32, cached []byte, fault string, judge bool) {
		before := clone(u.Prof)
		n := len(u.Events)
		r, err := s.a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: mode, TargetSpeed: tgt})
		what := fmt.Sprintf("SetFanProfile(Mode=%d, TargetSpeed=%d) with profiles % d", mode, tgt, cached)
		if mode < 1 || mode > 4 || tgt < 15 || tgt > 100 {
			if code(err) != "invalid_argument" {
				c.Fail("validation", "%s must be refused as invalid_argument, got %v, %v", what, r, err)
			}
			if len(u.framesSince(n)) != 0 {
				c.Fail("validation", "%s is invalid, but the unit saw %s", what, u.sinceN(n))
			}
			return
		}
		in, out := uint32(cached[offsIn[mode-1]]), uint32(cached[offsOut[mode-1]])
		if in == tgt && out == tgt {
			if err != nil || r.GetModified() || r.GetOriginalSpeed() != in || r.GetTargetSpeed() != tgt {
				c.Fail("no-op", "%s changes nothing, got %v, %v", what, r, err)
			}
			if len(u.setsSince(n)) != 0 {
				c.Fail("no-op", "%s changes nothing, but the unit saw %s", what, u.sinceN(n))
			}
			return
		}
		want := []byte{before[0], before[1], before[2], before[3], before[4], before[5], before[10], before[11]}
		wi := []int{3, 4, 5, 7}[mode-1]
		wo := []int{0, 1, 2, 6}[mode-1]
		want[wi], want[wo] = byte(tgt), byte(tgt)
		sets := u.setsSince(n)
		if _, ok := s.a.(withCtx); ok && err != nil && len(sets) == 0 {
			c.Outcome("given up") // the client has gone
			return
		}
		if len(sets) > 1 || len(sets) == 1 && (sets[0].Cmd != cSetProf || !eq(sets[0].Data, want)) || len(sets) == 0 && (err == nil || fault == "") {
			c.Fail("request", "%s must set % d, the unit (profiles % d) saw %s; error %v", what, want, before, u.sinceN(n), err)
		}
		if err == nil {
			if !r.GetModified() || r.GetOriginalSpeed() != in || r.GetTargetSpeed() != tgt {
				c.Fail("response", "%s returned %v", what, r)
			}
			if len(fault) > 3 && fault[:3] == "set" {
				c.Fail("false-success", "%s returned success although the unit never acknowledged (%s); wire %s", what, fault, u.sinceN(n))
			}
		} else {
			if code(err) == "invalid_argument" {
				c.Fail("refused", "%s was refused: %v", what, err)
			}
			if fault == "" {
				c.Fail("failed", "%s failed with %v; wire %s", what, err, u.sinceN(n))
			}
		}
		if judge {
			if got := s.get(readingOf(cProf)); got != modeReading(u.Prof) {
				c.Fail("readings-after", "%s (error %v, %s): the profiles reading is %s, the unit's is %s; wire %s", what, err, fault, got, modeReading(u.Prof), u.sinceN(n))
			}
		}
	}
	table := func(c *X) {
		mode := modes[pick("mode", len(modes))]
		k := pick("profiles", 5)
		tg := []uint32{}
		for v := uint32(0); v <= 130; v++ {
			tg = append(tg, v)
		}
		for _, v := range []uint32{200, 255, 256, 257, 256 + 15, 256 + 36, 256 + 100, 300, 356, 357, 512 + 40, 65536 + 36, 1<<24 + 36, 1<<31 + 50, 1<<32 - 1, 1<<32 - 200} {
			tg = append(tg, v)
		}
		t := tg[pick("target", len(tg))]
		{
			u := NewUnit()
			if mode >= 1 && mode <= 4 {
				switch k {
				case 1: // both at the target
					u.Prof[offsIn[mode-1]], u.Prof[offsOut[mode-1]] = byte(t), byte(t)
				case 2: // only the in fan
					u.Prof[offsIn[mode-1]], u.Prof[offsOut[mode-1]] = byte(t), byte(t+1)
				case 3: // only the out fan
					u.Prof[offsIn[mode-1]], u.Prof[offsOut[mode-1]] = byte(t-1), byte(t)
				}
			}
			if k == 4 {
				for i := 0; i < 8; i++ {
					u.Prof[i] = 7
				}
			}
			u.Fans[0], u.Fans[1] = u.pct(u.Prof[8])
			cached := clone(u.Prof)
			s := startServer(c, u)
			run(c, u, s, mode, t, cached, "", true)
		}
		c.Outcome("%d %d %d", mode, k, t)
	}
	drift := func(c *X) {
		// the profiles on the unit were changed by someone else since they were read
		u := NewUnit()
		if pick("fans alike", 2) == 1 {
			for m := range offsIn {
				u.Prof[offsIn[m]] = u.Prof[offsOut[m]]
			}
		}
		read := clone(u.Prof)
		s := startServer(c, u)
		i := []int{0, 1, 2, 3, 4, 5, 10, 11}[pick("field", 8)]
		u.Prof[i] = []byte{7, 99, 0, 50}[pick("value", 4)]
		m := pick("mode", 4)
		// also to what the mode was set to when it was read, and to what it is set to now
		t := []uint32{15, 77, 100, uint32(read[offsIn[m]]), uint32(read[offsOut[m]]), uint32(u.Prof[i])}[pick("target", 6)]
		run(c, u, s, uint32(m+1), t, clone(u.Prof), "", true)
		c.Outcome("%d", i)
	}
	faults := func(c *X) {
		u := NewUnit()
		s := startServer(c, u)
		vrt.Sleep(sec)
		cached := clone(u.Prof)
		fault := ""
		clean := true
		fg, fa := srvFaults(), ackFaults()
		ngets := 0
		u.Before = func(u *Unit, e Ev) bool {
			if isSet(e.Cmd) && vrt.Choose("request lost", 2, 1) == 1 {
				fault = "set request lost"
				return false
			}
			return true
		}
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if isSet(e.Cmd) {
				f := fa[vrt.Choose("ack", len(fa), 1)]
				if !f.OK {
					fault = "set " + f.Name
					clean = clean && f.Name == "silence"
				}
				return f.F(e, def)
			}
			if e.Cmd != cProf {
				return nil
			}
			ngets++
			f := fg[vrt.Choose("answer", len(fg), 1)]
			if !f.OK {
				if fault == "" {
					fault = fmt.Sprintf("get %d %s", ngets, f.Name)
				}
				clean = clean && ngets == 1 && (f.Name == "silence" || f.Name == "bad checksum")
			}
			return f.F(e, def)
		}
		run(c, u, s, uint32(pick("mode", 4)+1), 77, cached, "?", false)
		if clean {
			if got := s.get(readingOf(cProf)); got != modeReading(u.Prof) {
				c.Fail("readings-after", "after SetFanProfile with fault %q the profiles reading is %s, the unit's is %s; wire %s", fault, got, modeReading(u.Prof), u.Wire())
			}
		}
		c.Outcome("%s", fault)
	}
	// a unit that acknowledges the request, and does something else
	ownMind := func(c *X) {
		u := NewUnit()
		u.Lat = []int64{0, 20 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep(sec)
		does := pick("does", 4)
		u.Apply = func(u *Unit, e Ev) bool {
			d := e.Data
			to := []int{0, 1, 2, 3, 4, 5, 10, 11}
			for k, i := range to {
				v := d[k]
				switch {
				case does == 0: // nothing
					v = u.Prof[i]
				case does == 1: // within limits of its own
					v = min(max(v, 20), 90)
				case does == 2 && (k < 3 || k == 6): // one fan only
					v = u.Prof[i]
				case does == 3: // in steps of five
					v = v / 5 * 5
				}
				u.Prof[i] = v
			}
			u.retarget()
			return true
		}
		m := uint32(pick("mode", 4) + 1)
		run(c, u, s, m, []uint32{15, 77, 100}[pick("target", 3)], clone(u.Prof), "?", true)
		u.Apply = nil
		run(c, u, s, m, []uint32{15, 77, 100}[pick("next", 3)], clone(u.Prof), "", true)
		c.Outcome("%d", does)
	}
	noack := func(c *X) {
		u := NewUnit()
		s := startServer(c, u)
		vrt.Sleep(sec)
		cached := clone(u.Prof)
		fa := ackFaults()
		f := fa[pick("ack", len(fa))]
		fault := ""
		if !f.OK {
			fault = "set " + f.Name
		}
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if isSet(e.Cmd) {
				return f.F(e, def)
			}
			return nil
		}
		run(c, u, s, uint32(pick("mode", 4)+1), 44, cached, fault, f.Name == "silence" || f.OK)
		c.Outcome("%s", fault)
	}
	canceled := func(c *X) {
		u := NewUnit()
		u.Lat = []int64{20 * ms, 400 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep([]int64{sec, 4900 * ms}[pick("phase", 2)])
		cached := clone(u.Prof)
		s.a = leaving(s.a, goneAfter[pick("client gone", len(goneAfter))], pick("deadline", 2) == 1)
		mode := uint32(pick("mode", 4) + 1)
		run(c, u, s, mode, 77, cached, "?", true)
		s.a = s.a.(withCtx).a
		quiet(u)
		run(c, u, s, mode, 45, clone(u.Prof), "", true)
	}
	ns := vrt.Options{NoSched: true}
	return &Prop{ID: "C14",
		Quick: []Scenario{
			{Name: "own-mind", Opt: ns, Body: ownMind, What: "3 targets of every mode, the unit acknowledging and doing nothing, keeping to limits of its own, setting one fan only, or rounding; then 3 further requests, 2 latencies"},
			{Name: "requests", Opt: ns, Body: table, What: "18 modes x 147 target speeds x 5 stored profiles (both, one or neither fan at the target)"},
			{Name: "drift", Opt: ns, Body: drift, What: "profiles changed on the unit since they were read: with both fans alike or not: 8 fields x 4 values x 4 modes x 6 targets"},
			{Name: "no-ack", Opt: ns, Body: noack, What: "13 answers to the request x 4 modes"},
			{Name: "faults", Bound: 2, Opt: ns, Body: faults, What: "up to two of: request lost, faulty acknowledgement, faulty answer to a read"},
			{Name: "canceled", Opt: ns, Body: canceled, What: "a client that goes away (or whose deadline passes) at 7 moments before and during the change, 2 latencies, 2 phases, 4 modes; then a change by another client"},
			{Name: "schedules", Bound: 1, Body: drift, What: "as drift, together with the refreshing worker under every schedule with one preemption or delay"},
		},
		Deep: []Scenario{
			{Name: "faults-3", Bound: 3, Opt: ns, Body: faults, What: "up to three faults"},
			{Name: "schedules-2", Bound: 2, Body: drift, What: "two preemptions or delays"},
		},
	}
}

// ---- C15: SetComfortTemp ----

func propC15() *Prop {
	run := func(c *X, u *Unit, s *sys, v uint32, cached byte, fault string) error {
		n := len(u.Events)
		r, err := s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: v})
		cur := int(cached)/2 - 20
		what := fmt.Sprintf("SetComfortTemp(%d) at %d degrees", v, cur)
		if v > 255 {
			if code(err) != "invalid_argument" {
				c.Fail("validation", "%s must be refused as invalid_argument, got %v, %v", what, r, err)
			}
		}
		if v > 107 {
			// cannot be expressed to the unit
			if int64(v) != int64(cur) && err == nil {
				c.Fail("validation", "%s must be refused, got %v", what, r)
			}
			if len(u.setsSince(n)) != 0 {
				c.Fail("validation", "%s must not be sent, the unit saw %s", what, u.sinceN(n))
			}
			return err
		}
		if int(v) == cur {
			if err != nil || r.GetModified() || r.GetOriginalTemp() != v || r.GetTargetTemp() != v {
				c.Fail("no-op", "%s changes nothing, got %v, %v", what, r, err)
			}
			if len(u.setsSince(n)) != 0 {
				c.Fail("no-op", "%s changes nothing, but the unit saw %s", what, u.sinceN(n))
			}
			return err
		}
		sets := u.setsSince(n)
		if _, ok := s.a.(withCtx); ok && err != nil && len(sets) == 0 {
			c.Outcome("given up") // the client has gone
			return err
		}
		if len(sets) != 1 || sets[0].Cmd != cComfort || !eq(sets[0].Data, []byte{byte((v + 20) * 2)}) {
			c.Fail("request", "%s must set %02x once, the unit saw %s", what, (v+20)*2, u.sinceN(n))
		}
		if err == nil {
			if !r.GetModified() || (cur >= 0 && r.GetOriginalTemp() != uint32(cur)) || r.GetTargetTemp() != v {
				c.Fail("response", "%s returned %v", what, r)
			}
			if fault != "" {
				c.Fail("false-success", "%s returned success although the unit never acknowledged (%s); wire %s", what, fault, u.sinceN(n))
			}
		} else {
			if code(err) == "invalid_argument" {
				c.Fail("refused", "%s was refused: %v", what, err)
			}
			if _, gone := s.a.(withCtx); fault == "" && !gone {
				c.Fail("failed", "%s failed with %v; wire %s", what, err, u.sinceN(n))
			}
		}
		return err
	}
	after := func(c *X, u *Unit, s *sys, what string) {
		r := readingOf(cTemps)
		if got := s.get(r); got != r.Of(u.Temps) {
			c.Fail("readings-after", "%s: the temperatures reading is %s, the unit's is %s; wire %s", what, got, r.Of(u.Temps), u.Wire())
		}
	}
	vals := []uint32{}
	for v := uint32(0); v <= 300; v++ {
		vals = append(vals, v)
	}
	vals = append(vals, 511, 512, 512+20, 65535, 65536, 65536+21, 1<<24+21, 1<<31, 1<<31+21, 1<<32-1, 1<<32-235)
	table := func(c *X) {
		cur := byte([]int{40, 41, 80, 81, 82, 84, 107, 254, 255, 60, 128}[pick("current", 11)])
		i := pick("value", len(vals))
		{
			u := NewUnit()
			u.Temps[0] = cur
			u.Temps[1] = 77
			s := startServer(c, u)
			if err := run(c, u, s, vals[i], cur, ""); err == nil {
				after(c, u, s, fmt.Sprintf("SetComfortTemp(%d)", vals[i]))
			}
		}
		c.Outcome("%d %d", cur, vals[i])
	}
	noack := func(c *X) {
		u := NewUnit()
		s := startServer(c, u)
		vrt.Sleep(sec)
		fa := ackFaults()
		f := fa[pick("ack", len(fa))]
		fault := ""
		if !f.OK {
			fault = f.Name
		}
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if isSet(e.Cmd) {
				return f.F(e, def)
			}
			return nil
		}
		lost := false
		if f.Name == "silence" {
			u.Before = func(u *Unit, e Ev) bool {
				if isSet(e.Cmd) && pick("request lost", 2) == 1 {
					lost = true
					return false
				}
				return true
			}
		}
		err := run(c, u, s, 23, u.Temps[0], fault)
		if u.Before, u.Answer = nil, nil; fault == "" || f.Name == "silence" {
			// the unit can be read: what it did with the request is known, success or not
			after(c, u, s, fmt.Sprintf("SetComfortTemp(23) with answer %q (error %v)", f.Name, err))
			if lost == (u.Temps[0] == 86) {
				c.Fail("harness", "the unit has %d", u.Temps[0])
			}
			if err != nil {
				// the next one is judged by what the unit has now
				run(c, u, s, []uint32{20, 23, 22}[pick("next", 3)], u.Temps[0], "")
			}
		}
		c.Outcome("%s %v %v", fault, lost, err)
	}
	// a unit that acknowledges the request, and does something else
	ownMind := func(c *X) {
		u := NewUnit()
		u.Lat = []int64{0, 20 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep(sec)
		does := pick("does", 3)
		u.Apply = func(u *Unit, e Ev) bool {
			switch does {
			case 1: // within limits of its own
				u.Temps[0] = min(max(e.Data[0], 64), 96)
			case 2: // half a degree more
				u.Temps[0] = e.Data[0] + 1
			}
			return true
		}
		v := []uint32{5, 12, 23, 28, 30, 100}[pick("value", 6)]
		n := len(u.Events)
		_, err := s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: v})
		if sets := u.setsSince(n); len(sets) != 1 || sets[0].Cmd != cComfort || !eq(sets[0].Data, []byte{byte((v + 20) * 2)}) {
			c.Fail("request", "SetComfortTemp(%d) must set %02x once, the unit saw %s", v, (v+20)*2, u.sinceN(n))
		}
		after(c, u, s, fmt.Sprintf("SetComfortTemp(%d) (error %v), which the unit acknowledged but carried out otherwise", v, err))
		u.Apply = nil
		run(c, u, s, []uint32{5, 12, 23, 28, 30, 100}[pick("next", 6)], u.Temps[0], "")
		after(c, u, s, "the next one")
		c.Outcome("%d %v", does, err)
	}
	seqs := func(c *X) {
		// sequences of calls and ticks: each call is judged by the reading before it
		u := NewUnit()
		s := startServer(c, u)
		vrt.Sleep(sec)
		lost := 0
		u.Before = func(u *Unit, e Ev) bool {
			if isSet(e.Cmd) && vrt.Choose("request lost", 2, 1) == 1 {
				lost++
				return false
			}
			return true
		}
		silent, first, at := 0, false, 0
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if vrt.Choose("silence", 2, 1) == 1 {
				silent++
				first = first || len(u.framesSince(at)) <= 1
				return silence
			}
			return nil
		}
		for i := 0; i < 3; i++ {
			if pick("step", 2) == 0 {
				vrt.Sleep(5 * sec)
				quiet(u)
			}
			var last float32
			fmt.Sscanf(s.get(readingOf(cTemps)), "temps[%f", &last)
			cur := float32(int(u.Temps[0])/2 - 20)
			v := []uint32{20, 21, 7}[pick("value", 3)]
			l0, s0 := lost, silent
			n := len(u.Events)
			at, first = n, false
			r, err := s.a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: v})
			if first && last != cur {
				// the unit could not be read: what it had when it was read last may count
				if last == float32(v) && err == nil && !r.GetModified() && len(u.setsSince(n)) == 0 {
					continue
				}
				if cur == float32(v) && err != nil && len(u.setsSince(n)) == 1 {
					continue
				}
				if cur == float32(v) && err == nil && r.GetModified() && r.GetOriginalTemp() == uint32(last) && len(u.setsSince(n)) == 1 {
					continue
				}
				cur = last
			}
			if float32(v) == cur {
				if err != nil || r.GetModified() || len(u.setsSince(n)) != 0 {
					c.Fail("no-op", "SetComfortTemp(%d) at %v: %v, %v, wire %s", v, cur, r, err, u.sinceN(n))
				}
				continue
			}
			if sets := u.setsSince(n); len(sets) != 1 || !eq(sets[0].Data, []byte{byte((v + 20) * 2)}) {
				c.Fail("request", "SetComfortTemp(%d) at %v: the unit saw %s", v, cur, u.sinceN(n))
			}
			if lost == l0 && silent == s0 {
				if err != nil || !r.GetModified() {
					c.Fail("failed", "SetComfortTemp(%d) at %v: %v, %v, wire %s", v, cur, r, err, u.sinceN(n))
				}
				after(c, u, s, "sequence")
			} else if lost+silent == l0+s0+1 && err != nil {
				// only the change failed, the temperatures could be read after it
				after(c, u, s, "sequence, failed change")
			}
			c.Outcome("%d %v", v, err)
		}
		u.Answer, u.Before = nil, nil
		vrt.Sleep(10 * sec)
		quiet(u)
		after(c, u, s, "after two ticks")
	}
	// what someone set on the unit's panel since it was read counts
	panel := func(c *X) {
		u := NewUnit()
		u.Temps[0] = byte((pick("when read", 4) + 20 + 20) * 2)
		u.Lat = []int64{0, 20 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep([]int64{sec, 4300 * ms}[pick("phase", 2)])
		u.Temps[0] = byte((pick("now", 4) + 20 + 20) * 2)
		v := []uint32{20, 21, 22, 23, 24, 108, 300}[pick("value", 7)]
		if err := run(c, u, s, v, u.Temps[0], ""); err == nil {
			after(c, u, s, fmt.Sprintf("SetComfortTemp(%d)", v))
		}
		c.Outcome("%d %d", u.Temps[0], v)
	}
	canceled := func(c *X) {
		u := NewUnit()
		u.Lat = []int64{20 * ms, 400 * ms}[pick("latency", 2)]
		s := startServer(c, u)
		vrt.Sleep([]int64{sec, 4900 * ms}[pick("phase", 2)])
		s.a = leaving(s.a, goneAfter[pick("client gone", len(goneAfter))], pick("deadline", 2) == 1)
		err := run(c, u, s, 23, u.Temps[0], "")
		if err == nil {
			after(c, u, s, "SetComfortTemp(23) of a client that left")
		}
		s.a = s.a.(withCtx).a
		vrt.Sleep(6 * sec)
		quiet(u)
		after(c, u, s, "after a tick")
		run(c, u, s, 25, u.Temps[0], "")
		after(c, u, s, "SetComfortTemp(25)")
	}
	ns := vrt.Options{NoSched: true}
	return &Prop{ID: "C15",
		Quick: []Scenario{
			{Name: "requests", Opt: ns, Body: table, What: "11 current temperatures x every value 0..300 and 11 larger ones"},
			{Name: "own-mind", Opt: ns, Body: ownMind, What: "6 temperatures, the unit acknowledging and doing nothing, keeping to limits of its own, or half a degree off; then 6 further requests, 2 latencies"},
			{Name: "panel", Opt: ns, Body: panel, What: "4 temperatures set on the unit's own panel since it was read at 4 others x 7 requests x 2 latencies x 2 phases"},
			{Name: "no-ack", Opt: ns, Body: noack, What: "13 answers to the request"},
			{Name: "canceled", Opt: ns, Body: canceled, What: "a client that goes away (or whose deadline passes) at 7 moments before and during the change, 2 latencies, 2 phases; then a change by another client"},
			{Name: "sequences", Bound: 2, Opt: ns, Body: seqs, What: "every sequence of 3 calls with 3 values with and without a tick before each, up to two lost requests or answers"},
			{Name: "schedules", Bound: 2, Body: noack, What: "13 answers to the request, together with the refreshing worker under every schedule with two preemptions or delays"},
		},
		Deep: []Scenario{
			{Name: "sequences-3", Bound: 3, Opt: ns, Body: seqs, What: "up to three lost requests or answers"},
		},
	}
}
