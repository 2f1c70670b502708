package harness

import (
	"bytes"
	"fmt"

	"github.com/ti-mo/comfo/libcomfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

// Sequences of operations: what an operation does must not depend on what was done before
// it, except through the unit.

// codecHistory (C01): messages of any two kinds after one another; what was encoded or
// decoded earlier stays, and so do the caller's own bytes.
func codecHistory(c *X) {
	pool := [][]byte{{}, {7}, {1}, {7, 7, 7}, {1, 2, 3, 4}, {0x0F, 7, 0xF0}, bytes.Repeat([]byte{7}, 20), bytes.Repeat([]byte{0x41}, 20), bytes.Repeat([]byte{7}, 255), bytes.Repeat([]byte{0xFF}, 255)}
	type kept struct {
		what      string
		got, want []byte
	}
	var ks []kept
	all := func() {
		for _, k := range ks {
			if !bytes.Equal(k.got, k.want) {
				c.Fail("history", "%s became % x, it was % x", k.what, k.got, k.want)
			}
		}
	}
	for i := 0; i < 3; i++ {
		d := pool[pick("payload", len(pool))]
		cmd := byte(3 + 100*i)
		// spare room behind the payload belongs to the caller
		room := append(append(make([]byte, 0, len(d)+16), d...), 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA)
		ks = append(ks, kept{"the memory around a payload given to MarshalPacket", room, clone(room)})
		b, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: cmd, Data: room[:len(d)]})
		if err != nil || !eq(b, refBody(cmd, d)) {
			c.Fail("history", "MarshalPacket(%02x, % x) = % x, %v after %d others", cmd, d, b, err, i)
		}
		ks = append(ks, kept{fmt.Sprintf("the encoding of packet %02x % x", cmd, d), b, clone(b)})
		all()
		in := append(append(make([]byte, 0, len(b)+16), refBody(cmd+1, d)...), 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA, 0xAA)
		n := len(refBody(cmd+1, d))
		ks = append(ks, kept{"the memory around a frame given to UnmarshalPacket", in, clone(in)})
		p, err := libcomfo.UnmarshalPacket(in[:n])
		if err != nil || p.Command != cmd+1 || !eq(p.Data, d) {
			c.Fail("history", "UnmarshalPacket(% x) = %02x % x, %v after %d others", in[:n], p.Command, p.Data, err, i)
		}
		ks = append(ks, kept{fmt.Sprintf("the decoded payload % x", d), p.Data, clone(p.Data)})
		all()
		u := NewUnit()
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk { return whole(ackSeq, refFrame(e.Cmd+1, d)) }
		q := append(append(make([]byte, 0, len(d)+16), d...), 0xAA, 0xAA, 0xAA, 0xAA)
		ks = append(ks, kept{"the memory around a payload given to QueryPacket", q, clone(q)})
		p, err = libcomfo.QueryPacket(libcomfo.Packet{Command: cmd, Data: q[:len(d)], Expect: true}, u)
		if err != nil || p.Command != cmd+1 || !eq(p.Data, d) || u.Frames != 1 || !eq(u.Events[0].Data, d) {
			c.Fail("history", "exchange of packet %02x % x gave %02x % x, %v after %d others; wire %s", cmd, d, p.Command, p.Data, err, i, u.Wire())
		}
		ks = append(ks, kept{fmt.Sprintf("the payload % x received", d), p.Data, clone(p.Data)})
		all()
	}
	c.Outcome("ok")
}

// apiHistory (C09, C10): sequences of operations on one connection, changes made at the
// unit's own panel, pauses and failures. Each setting reaches the unit as given, each
// reading is the unit's at that time.
func apiHistory(depth int, setters bool) func(c *X) {
	return func(c *X) {
		u := NewUnit()
		fail := 0 // 1: the unit is silent, 2: damaged answer, to the next request
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			f := fail
			fail = 0
			switch f {
			case 1:
				return []Chunk{}
			case 2:
				if len(def) < 6 {
					return whole([]byte{7, 0x0F})
				}
				d := clone(def)
				d[len(d)-3]++
				return whole(d)
			}
			return nil
		}
		hist := ""
		n := 0
		// profile changes a mode; the expected requests follow from what the unit stores
		profile := func(mode int, v byte) {
			d := u.Prof
			w := []byte{d[0], d[1], d[2], d[3], d[4], d[5], d[10], d[11]}
			switch mode {
			case 0:
				w[0], w[3] = v, v
			case 1:
				w[1], w[4] = v, v
			case 2:
				w[2], w[5] = v, v
			case 3:
				w[6], w[7] = v, v
			}
			failing := fail > 0
			from := u.Frames
			err := libcomfo.SetFanProfile(uint8(mode), v, u)
			fr := u.FramesSeen()[from:]
			if failing {
				if len(fr) > 1 || err == nil {
					c.Fail("history", "%s: the profiles could not be read, but SetFanProfile gave %v; wire %s", hist, err, u.Wire())
				}
				return
			}
			if err != nil || len(fr) != 2 || fr[0].Cmd != cProf || fr[1].Cmd != cSetProf || !eq(fr[1].Data, w) {
				c.Fail("history", "%s: SetFanProfile(%d, %d) gave %v, expected the request % x; wire %s", hist, mode, v, err, w, u.Wire())
			}
		}
		single := func(what string, f func() error, cmd byte, d []byte) {
			failing := fail > 0
			from := u.Frames
			err := f()
			fr := u.FramesSeen()[from:]
			if (err != nil) != failing || len(fr) != 1 || fr[0].Cmd != cmd || !eq(fr[0].Data, d) {
				c.Fail("history", "%s: %s gave %v, expected the request %02x % x; wire %s", hist, what, err, cmd, d, u.Wire())
			}
		}
		refuse := func(what string, f func() error) {
			from := len(u.Events)
			if err := f(); err == nil || len(u.Events) != from {
				c.Fail("history", "%s: %s gave %v; wire %s", hist, what, err, u.Wire())
			}
		}
		get := func(i int) {
			m := getMsgs[i]
			failing := fail > 0
			from := u.Frames
			got, err := callGet(m, u)
			fr := u.FramesSeen()[from:]
			if want, _ := refGet(m, u.Payload(m.Cmd)); failing != (err != nil) || !failing && got != want || len(fr) != 1 || fr[0].Cmd != m.Cmd {
				c.Fail("history", "%s: %s gave %s, %v, the unit says %s; wire %s", hist, m.Name, got, err, want, u.Wire())
			}
		}
		type act struct {
			name string
			do   func()
		}
		acts := []act{
			{"panel", func() {
				for _, p := range [][]byte{u.Temps, u.Fans, u.Byp, u.Prof, u.Boot[:3], u.Firm[:3], u.Hours} {
					for i := range p {
						p[i] = byte(20 + (7*n+i)%60)
					}
				}
				u.Fans[2], u.Fans[3], u.Fans[4], u.Fans[5] = 5, byte(20+n), 6, byte(30+n)
				u.Prof[8], u.Prof[9], u.Byp[6], u.Errs[8] = byte(1+n%4), byte(n%2), byte(n%2), byte(n%2)
			}},
			{"pause", func() { vrt.Sleep(3 * sec) }},
			{"silence", func() { fail = 1 }},
			{"damage", func() { fail = 2 }},
		}
		if setters {
			acts = append(acts, []act{
				{"SetFanProfile(0,40)", func() { profile(0, 40) }},
				{"SetFanProfile(2,44)", func() { profile(2, 44) }},
				{"SetFanProfile(3,7)", func() { profile(3, 7) }},
				{"SetFanProfiles", func() {
					single("SetFanProfiles", func() error {
						return libcomfo.SetFanProfiles(&libcomfo.FanProfiles{OutAway: 21, OutLow: 22, OutMid: 23, InAway: 24, InLow: 25, InMid: 26, OutHigh: 27, InHigh: 28}, u)
					}, cSetProf, []byte{21, 22, 23, 24, 25, 26, 27, 28})
				}},
				{"SetComfort(21)", func() {
					single("SetComfort(21)", func() error { return libcomfo.SetComfort(21, u) }, cComfort, []byte{82})
				}},
				{"SetComfort(25)", func() {
					single("SetComfort(25)", func() error { return libcomfo.SetComfort(25, u) }, cComfort, []byte{90})
				}},
				{"SetSpeed(3)", func() { single("SetSpeed(3)", func() error { return libcomfo.SetSpeed(3, u) }, cSpeed, []byte{3}) }},
				{"SetSpeed(1)", func() { single("SetSpeed(1)", func() error { return libcomfo.SetSpeed(1, u) }, cSpeed, []byte{1}) }},
				{"refused", func() {
					refuse("SetFanProfile(9,50)", func() error { return libcomfo.SetFanProfile(9, 50, u) })
					refuse("SetFanProfile(1,101)", func() error { return libcomfo.SetFanProfile(1, 101, u) })
					refuse("SetComfort(200)", func() error { return libcomfo.SetComfort(200, u) })
					refuse("SetSpeed(9)", func() error { return libcomfo.SetSpeed(9, u) })
				}},
				{"GetFanProfiles", func() { get(3) }},
			}...)
		} else {
			for i := range getMsgs {
				i := i
				acts = append(acts, act{getMsgs[i].Name, func() { get(i) }})
			}
		}
		sum := ""
		for n = 1; n <= depth; n++ {
			a := acts[pick("act", len(acts))]
			hist += a.name + "; "
			a.do()
			sum = a.name
		}
		// whatever came before, both kinds of call work at the end
		fail = 0
		vrt.Sleep(2 * sec)
		hist += "at the end"
		if setters {
			profile(1, 55)
		} else {
			get(4)
			get(0)
		}
		c.Outcome("%s", sum)
	}
}
