package harness

import (
	"bytes"
	"fmt"

	"github.com/ti-mo/comfo/libcomfo"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

// Many callers at the same time: more than the small numbers whose interleavings are
// enumerated, along one schedule, so that lines form behind the locks and channels.

// codecTogether (C01): encoding and decoding in several goroutines.
func codecTogether(n int) func(c *X) {
	return func(c *X) {
		pool := [][]byte{{7}, {7, 7, 1, 7}, bytes.Repeat([]byte{0x41}, 12), {}}
		sel := make([]int, n)
		var ts []*vrt.Thread
		lt := c.late(n)
		lo := 0
		res := make([]string, n)
		for i := range sel {
			sel[i] = lo + pick("payload", len(pool)-lo)
			lo = sel[i]
		}
		for i := range sel {
			i := i
			d, cmd := clone(pool[sel[i]]), byte(20+40*i)
			ts = append(ts, c.start(i, lt, fmt.Sprintf("codec %d", i), func() {
				b, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: cmd, Data: d})
				if err != nil || !eq(b, refBody(cmd, d)) {
					res[i] = fmt.Sprintf("MarshalPacket(%02x, % x) = % x, %v", cmd, d, b, err)
					return
				}
				p, err := libcomfo.UnmarshalPacket(refBody(cmd, d))
				if err != nil || p.Command != cmd || !eq(p.Data, d) {
					res[i] = fmt.Sprintf("UnmarshalPacket(% x) = %02x % x, %v", refBody(cmd, d), p.Command, p.Data, err)
					return
				}
				w := &bytes.Buffer{}
				if ok, err := libcomfo.WritePacket(libcomfo.Packet{Command: cmd, Data: d}, w); err != nil || !ok || !eq(w.Bytes(), refFrame(cmd, d)) {
					res[i] = fmt.Sprintf("WritePacket(%02x, % x) wrote % x, %v", cmd, d, w.Bytes(), err)
				}
			}))
		}
		vrt.Join(ts...)
		for _, r := range res {
			if r != "" {
				c.Fail("together", "%s while another message was handled", r)
			}
		}
		c.Outcome("%v", sel)
	}
}

// settersQueue (C11): 16 profile changes at the same time. The last one of a mode to reach
// the unit wins, and nothing else changes.
func settersQueue(c *X) {
	const n = 16
	u := NewUnit()
	u.Lat = []int64{0, 20 * ms, 900 * ms}[pick("latency", 3)]
	modes := []int{1, 2, 4}[pick("modes", 3)]
	dead := []int{0, 1, 5}[pick("unanswered", 3)]
	gone := 0
	u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
		if gone < dead {
			gone++
			return []Chunk{}
		}
		return nil
	}
	was := clone(u.Prof)
	var ts []*vrt.Thread
	var errs [n]error
	for i := 0; i < n; i++ {
		i := i
		ts = append(ts, vrt.GoNamed(fmt.Sprint(i), func() { errs[i] = libcomfo.SetFanProfile(uint8(i%modes), byte(50+i), u) }))
	}
	vrt.Join(ts...)
	nf := 0
	could := map[int]map[byte]bool{0: {}, 1: {}, 2: {}, 3: {}}
	for i, err := range errs {
		if err != nil {
			nf++
		} else {
			could[i%modes][byte(50+i)] = true
		}
	}
	if nf != dead {
		c.Fail("failed", "%d of %d profile changes made at the same time failed although %d exchanges were not answered: %v", nf, n, dead, errs)
	}
	for m, ix := range [][2]int{{0, 3}, {1, 4}, {2, 5}, {10, 11}} {
		a, b := u.Prof[ix[0]], u.Prof[ix[1]]
		if len(could[m]) == 0 {
			if a != was[ix[0]] || b != was[ix[1]] {
				c.Fail("lost-update", "profile %d became %d/%d although nobody set it", m, a, b)
			}
		} else if a != b || !could[m][a] {
			c.Fail("lost-update", "profile %d is %d/%d after it was set to each of %v", m, a, b, could[m])
		}
	}
	c.Outcome("%d %d", modes, nf)
}

// changesQueue (C16): 7 changes at the same time.
func changesQueue(c *X) {
	up, down := opSpeed(0, true), opSpeed(0, false)
	gs := [][]srvOp{
		{up, down, up, down, up, up, down},
		{up, up, up, up, up, up, up},
		{opSpeed(4, false), opSpeed(1, false), up, down, opSpeed(3, false), opSpeed(2, false), up},
		{opProfile(2, 44), opProfile(2, 45), opProfile(2, 46), opProfile(3, 47), opProfile(3, 48), opProfile(2, 44), up},
		{opComfort(22), opComfort(23), opComfort(24), opComfort(22), opComfort(25), opComfort(20), opComfort(21)},
		{up, opProfile(3, 60), opComfort(22), down, opProfile(1, 30), opComfort(23), up},
	}
	u := NewUnit()
	u.Temps[0] = 80
	ops := gs[pick("calls", len(gs))]
	u.RampNS = []int64{0, 600 * ms}[pick("ramp", 2)]
	u.Lat = []int64{0, 20 * ms, 700 * ms}[pick("latency", 3)]
	s := startServer(c, u)
	vrt.Sleep([]int64{sec, 4900 * ms}[pick("phase", 2)])
	start := stateOf(u)
	res := make([]string, len(ops))
	var ts []*vrt.Thread
	for i := range ops {
		i := i
		ts = append(ts, vrt.GoNamed(ops[i].name, func() { res[i] = ops[i].do(s.a) }))
	}
	vrt.Join(ts...)
	end := stateOf(u)
	l := ""
	for i := range ops {
		l += ops[i].name + " " + res[i] + "; "
	}
	if !permute(len(ops), func(p []int) bool {
		st := start
		for _, i := range p {
			if ops[i].spec(&st) != res[i] {
				return false
			}
		}
		return st == end
	}) {
		c.Fail("not-atomic", "no order of the calls explains their results: %s the unit went from %v to %v", l, start, end)
	}
	c.Outcome("%s", l)
}

// crowd (C17): 28 clients at the same time while the unit is silent, slow or well.
func crowd(ops []srvOp) func(c *X) {
	return func(c *X) {
		u := NewUnit()
		s := startServer(c, u)
		vrt.Sleep([]int64{sec, 4900 * ms}[pick("phase", 2)])
		how := pick("unit", 4)
		from := vrt.NowNS()
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			switch {
			case how == 1, how == 2 && vrt.NowNS() < from+8*sec:
				return silence
			}
			return nil
		}
		if how == 3 {
			u.Lat = 900 * ms
		}
		mix := pick("calls", len(ops)+1)
		var ts []*vrt.Thread
		back := 0
		for i := 0; i < 28; i++ {
			o := ops[i%len(ops)]
			if mix > 0 {
				o = ops[mix-1]
			}
			ts = append(ts, vrt.GoNamed(o.name, func() { o.do(s.a); back++ }))
		}
		vrt.Join(ts...)
		if d := vrt.NowNS() - from; d > 900*sec {
			c.Fail("stuck", "28 calls at the same time took %.0fs", float64(d)/1e9)
		}
		c.Outcome("%d %d", how, mix)
		u.Lat = 0
		probeServer(c, s, u, false)
	}
}

// flushCrowd (C18): 20 flushes at the same time, each with a result of its own.
func flushCrowd(c *X) {
	u := unitAt(0)
	s := startServer(c, u)
	vrt.Sleep([]int64{sec, 4900 * ms}[pick("phase", 2)])
	broken := []byte{0, cTemps, cFans, cBoot, cErrs}[pick("broken", 5)]
	silent := pick("silent", 2) == 1
	u.Lat = []int64{0, 20 * ms, 600 * ms}[pick("latency", 3)]
	u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
		if e.Cmd == broken {
			if silent {
				return silence
			}
			return whole(ackSeq, refFrame(e.Cmd+1, []byte{1, 2}))
		}
		return nil
	}
	tt := []int{1, 2, flushAll, 7, 0, 3, 4}
	only := pick("types", len(tt)+1)
	var ts []*vrt.Thread
	for i := 0; i < 20; i++ {
		t := tt[i%len(tt)]
		if only > 0 && i%4 > 0 {
			t = tt[only-1]
		}
		exp := t != 7
		for _, w := range flushed(t) {
			exp = exp && w != broken
		}
		ts = append(ts, vrt.GoNamed(fmt.Sprint("flush ", t), func() {
			r, err := s.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_CacheType(t)})
			if err != nil || r.GetSuccess() != exp {
				c.Fail("mixed-up", "one of 20 flushes at the same time, of type %d, with request %02x failing, must report %v: %v, %v", t, broken, exp, r, err)
			}
		}))
	}
	vrt.Join(ts...)
	c.Outcome("%02x %v %d", broken, silent, only)
}
