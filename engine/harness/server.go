package harness

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/twitchtv/twirp"

	"github.com/ti-mo/comfo/comfoserver"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zzverif/vcontext"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

// reading is one of the readings the server offers.
type reading struct {
	Name   string
	Cmd    byte
	Len    int
	Flush  int // cache type of FlushCache, -1: only All
	Period int64
	Get    func(rpc.Comfo) (string, error)
	Of     func(d []byte) string // what it must be for a payload
	Make   func(k int) []byte    // a payload of its own for every k
	Zero   string                // before anything was obtained
}

var bg = context.Background()
var noop = &rpc.Noop{}

func fmtTemps(v [8]float32) string { return fmt.Sprintf("temps%v", v) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// seq is a byte that differs for every k and position.
func seq(k, i, base int) byte { return byte(base + 11*i + 3*k) }

var readings = []reading{
	{"BootInfo", cBoot, 13, 0, 3600 * sec,
		func(a rpc.Comfo) (string, error) {
			r, err := a.GetBootInfo(bg, noop)
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("boot[%d %d %d %q]", r.GetMajorVersion(), r.GetMinorVersion(), r.GetBetaVersion(), r.GetDeviceName()), nil
		},
		func(d []byte) string { return fmt.Sprintf("boot[%d %d %d %q]", d[0], d[1], d[2], trimName(d[3:])) },
		func(k int) []byte {
			d := []byte{seq(k, 0, 1), seq(k, 1, 1), seq(k, 2, 1), 'C', 'A', '0', ' ', 'l', 'u', 'x', ' ', ' ', ' '}
			d[5] = byte('0' + k%40)
			return d
		}, `boot[0 0 0 ""]`},
	{"Fans", cFans, 6, 1, 5 * sec,
		func(a rpc.Comfo) (string, error) {
			r, err := a.GetFans(bg, noop)
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("fans[%d %d %d %d]", r.GetInPercent(), r.GetOutPercent(), r.GetInSpeed(), r.GetOutSpeed()), nil
		},
		func(d []byte) string {
			i, _ := rpm(d[2], d[3])
			o, _ := rpm(d[4], d[5])
			return fmt.Sprintf("fans[%d %d %d %d]", d[0], d[1], i, o)
		},
		func(k int) []byte { return []byte{seq(k, 0, 15), seq(k, 1, 15), 3, byte(10 + 5*k), 4, byte(20 + 7*k)} }, "fans[0 0 0 0]"},
	{"Temps", cTemps, 9, 2, 5 * sec,
		func(a rpc.Comfo) (string, error) {
			r, err := a.GetTemps(bg, noop)
			if err != nil {
				return "", err
			}
			return fmtTemps([8]float32{r.GetComfort(), r.GetOutsideAir(), r.GetSupplyAir(), r.GetInsideAir(), r.GetExhaustAir(), r.GetGeoHeat(), r.GetReheating(), r.GetKitchenHood()}), nil
		},
		func(d []byte) string {
			return fmtTemps([8]float32{wireTemp(d[0]), wireTemp(d[1]), wireTemp(d[2]), wireTemp(d[3]), wireTemp(d[4]), wireTemp(d[6]), wireTemp(d[7]), wireTemp(d[8])})
		},
		func(k int) []byte {
			d := make([]byte, 9)
			for i := range d {
				d[i] = byte(42 + 14*i + 4*k)
			}
			return d
		}, fmtTemps([8]float32{})},
	{"FanProfiles", cProf, 14, 3, 300 * sec,
		func(a rpc.Comfo) (string, error) {
			r, err := a.GetFanProfiles(bg, noop)
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("profiles[out %d %d %d %d in %d %d %d %d %d cur %d %d %d]", r.GetOutAway(), r.GetOutLow(), r.GetOutMid(), r.GetOutHigh(),
				b2i(r.GetInFanActive()), r.GetInAway(), r.GetInLow(), r.GetInMid(), r.GetInHigh(), r.GetCurrentOut(), r.GetCurrentIn(), r.GetCurrentMode()), nil
		},
		func(d []byte) string {
			return fmt.Sprintf("profiles[out %d %d %d %d in %d %d %d %d %d cur %d %d %d]", d[0], d[1], d[2], d[10], b2i(d[9] == 1), d[3], d[4], d[5], d[11], d[6], d[7], d[8])
		},
		func(k int) []byte {
			d := make([]byte, 14)
			for i := range d {
				d[i] = byte(16 + 5*i + k)
			}
			d[8] = byte(1 + k%4)
			d[9] = byte(1 - k%2)
			return d
		}, "profiles[out 0 0 0 0 in 0 0 0 0 0 cur 0 0 0]"},
	{"Bypass", cByp, 7, 4, 300 * sec,
		func(a rpc.Comfo) (string, error) {
			r, err := a.GetBypass(bg, noop)
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("bypass[%d %d %d %d]", r.GetFactor(), r.GetLevel(), r.GetCorrection(), b2i(r.GetSummerMode())), nil
		},
		func(d []byte) string { return fmt.Sprintf("bypass[%d %d %d %d]", d[2], d[3], d[4], b2i(d[6] == 1)) },
		func(k int) []byte { return []byte{0, 0, seq(k, 0, 1), seq(k, 1, 1), seq(k, 2, 1), 0, byte(1 - k%2)} }, "bypass[0 0 0 0]"},
	{"Errors", cErrs, 17, -1, 3600 * sec,
		func(a rpc.Comfo) (string, error) {
			r, err := a.GetErrors(bg, noop)
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("errors[%d]", b2i(r.GetFilter())), nil
		},
		func(d []byte) string { return fmt.Sprintf("errors[%d]", b2i(d[8] == 1)) },
		func(k int) []byte { d := make([]byte, 17); d[8] = byte(1 - k%2); return d }, "errors[0]"},
}

const flushAll = 10

func readingOf(cmd byte) *reading {
	for i := range readings {
		if readings[i].Cmd == cmd {
			return &readings[i]
		}
	}
	return nil
}

// flushed are the requests a flush of the given type makes.
func flushed(t int) []byte {
	var o []byte
	for _, r := range readings {
		if r.Flush == t && t >= 0 || t == flushAll {
			o = append(o, r.Cmd)
		}
	}
	return o
}

// sys is a server with its unit.
type sys struct {
	c *X
	u *Unit
	a rpc.Comfo
}

// startServer starts the server on u and waits until its readings have been taken.
func startServer(c *X, u *Unit) *sys {
	un := vrt.NoSched()
	comfoserver.StartCaches(u)
	vrt.Settle()
	un()
	return &sys{c: c, u: u, a: keeper{&comfoserver.Server{}, c}}
}

// get returns a reading of the server.
func (s *sys) get(r *reading) string {
	v, err := r.Get(s.a)
	if err != nil {
		s.c.Fail("reading", "%s could not be read: %v", r.Name, err)
	}
	return v
}

// code is the Twirp error code of an error, "" for nil.
func code(err error) string {
	if err == nil {
		return ""
	}
	var te twirp.Error
	if errors.As(err, &te) {
		return string(te.Code())
	}
	return "untyped: " + err.Error()
}

// sinceN renders the wire traffic from event n on.
func (u *Unit) sinceN(n int) string {
	s := ""
	for _, e := range u.Events[n:] {
		s += "|" + e.String()
	}
	return s
}

// framesSince are the requests from event n on.
func (u *Unit) framesSince(n int) []Ev {
	var o []Ev
	for _, e := range u.Events[n:] {
		if e.Kind == "frame" {
			o = append(o, e)
		}
	}
	return o
}

// setsSince are the set requests from event n on.
func (u *Unit) setsSince(n int) []Ev {
	var o []Ev
	for _, e := range u.framesSince(n) {
		if isSet(e.Cmd) {
			o = append(o, e)
		}
	}
	return o
}

// withCtx makes calls under a context of its own.
type withCtx struct {
	a   rpc.Comfo
	ctx context.Context
}

func (w withCtx) GetBootInfo(_ context.Context, q *rpc.Noop) (*rpc.BootInfo, error) {
	return w.a.GetBootInfo(w.ctx, q)
}
func (w withCtx) GetBypass(_ context.Context, q *rpc.Noop) (*rpc.Bypass, error) {
	return w.a.GetBypass(w.ctx, q)
}
func (w withCtx) GetErrors(_ context.Context, q *rpc.Noop) (*rpc.Errors, error) {
	return w.a.GetErrors(w.ctx, q)
}
func (w withCtx) GetFans(_ context.Context, q *rpc.Noop) (*rpc.Fans, error) {
	return w.a.GetFans(w.ctx, q)
}
func (w withCtx) GetFanProfiles(_ context.Context, q *rpc.Noop) (*rpc.FanProfiles, error) {
	return w.a.GetFanProfiles(w.ctx, q)
}
func (w withCtx) GetTemps(_ context.Context, q *rpc.Noop) (*rpc.Temps, error) {
	return w.a.GetTemps(w.ctx, q)
}
func (w withCtx) SetComfortTemp(_ context.Context, q *rpc.ComfortTarget) (*rpc.ComfortModified, error) {
	return w.a.SetComfortTemp(w.ctx, q)
}
func (w withCtx) SetFanSpeed(_ context.Context, q *rpc.FanSpeedTarget) (*rpc.FanSpeedModified, error) {
	return w.a.SetFanSpeed(w.ctx, q)
}
func (w withCtx) SetFanProfile(_ context.Context, q *rpc.FanProfileTarget) (*rpc.FanProfileModified, error) {
	return w.a.SetFanProfile(w.ctx, q)
}
func (w withCtx) FlushCache(_ context.Context, q *rpc.FlushCacheRequest) (*rpc.FlushCacheResponse, error) {
	return w.a.FlushCache(w.ctx, q)
}

// goneAfter are the moments at which a client goes away, counted from its call.
var goneAfter = []int64{-1, 0, 5 * ms, 30 * ms, 300 * ms, 1200 * ms, 2600 * ms}

// leaving is a client whose context ends d after now, already has for d < 0, or expires
// for a deadline.
func leaving(a rpc.Comfo, d int64, deadline bool) rpc.Comfo {
	if deadline && d >= 0 {
		ctx, _ := vcontext.WithTimeout(bg, time.Duration(d))
		return withCtx{a, ctx}
	}
	ctx, cancel := vcontext.WithCancel(bg)
	if d < 0 {
		cancel()
	} else {
		vrt.GoNamed("client leaves", func() {
			vrt.Sleep(d)
			cancel()
		})
	}
	return withCtx{a, ctx}
}
