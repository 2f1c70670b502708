package harness

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing/iotest"
	"unicode/utf8"

	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/ti-mo/comfo/zzverif/vrt"
)

// Router builds the HTTP handler of the program. Set when the checker is built together
// with the main package.
var Router func() http.Handler

// RootReset re-initialises the state of package main.
var RootReset func()

func init() { register("C21", propC21) }

const apiPath = "/twirp/comfo.api.Comfo/"

// ---- the published messages, written down by hand ----

// field of a message: name, number and kind (u uint32, b bool, s string, f float, e enum).
type field struct {
	Name string
	Num  int
	Kind byte
}

func fields(kinds string, names ...string) []field {
	var o []field
	for i, n := range names {
		o = append(o, field{n, i + 1, kinds[i]})
	}
	return o
}

var (
	mFans     = fields("uuuu", "InPercent", "OutPercent", "InSpeed", "OutSpeed")
	mBoot     = fields("uuus", "MajorVersion", "MinorVersion", "BetaVersion", "DeviceName")
	mTemps    = fields("ffffffff", "Comfort", "OutsideAir", "SupplyAir", "InsideAir", "ExhaustAir", "GeoHeat", "Reheating", "KitchenHood")
	mProfiles = fields("uuuubuuuuuuu", "OutAway", "OutLow", "OutMid", "OutHigh", "InFanActive", "InAway", "InLow", "InMid", "InHigh", "CurrentOut", "CurrentIn", "CurrentMode")
	mBypass   = fields("uuub", "Factor", "Level", "Correction", "SummerMode")
	mErrors   = fields("b", "Filter")

	mSpeedReq    = fields("ub", "Abs", "Rel")
	mSpeedMod    = fields("buus", "Modified", "OriginalSpeed", "TargetSpeed", "ReqTime")
	mProfileReq  = fields("uu", "Mode", "TargetSpeed")
	mProfileMod  = fields("buus", "Modified", "OriginalSpeed", "TargetSpeed", "ReqTime")
	mComfortReq  = fields("u", "ComfortTemp")
	mComfortMod  = fields("buus", "Modified", "OriginalTemp", "TargetTemp", "ReqTime")
	mFlushReq    = fields("e", "Cache")
	mFlushResp   = fields("bs", "Success", "ReqTime")
	mNoop        = fields("")
	cacheTypes   = map[string]uint64{"BootInfo": 0, "Fans": 1, "Temps": 2, "Profiles": 3, "Bypass": 4, "All": 10}
	getterFields = map[byte][]field{cBoot: mBoot, cFans: mFans, cTemps: mTemps, cProf: mProfiles, cByp: mBypass, cErrs: mErrors}
	getterNames  = map[byte]string{cBoot: "GetBootInfo", cFans: "GetFans", cTemps: "GetTemps", cProf: "GetFanProfiles", cByp: "GetBypass", cErrs: "GetErrors"}
)

// msg is a message: field name to uint64, bool, string or float32.
type msg map[string]any

func (m msg) render(fs []field) string {
	s := ""
	for _, f := range fs {
		s += fmt.Sprintf("%s=%v ", f.Name, m[f.Name])
	}
	return s
}

func zeroOf(k byte) any {
	switch k {
	case 'b':
		return false
	case 's':
		return ""
	case 'f':
		return float32(0)
	}
	return uint64(0)
}

func varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// pbEncode writes a message in the Protobuf encoding.
func pbEncode(fs []field, m msg) []byte {
	var b []byte
	for _, f := range fs {
		v, ok := m[f.Name]
		if !ok || v == zeroOf(f.Kind) {
			continue
		}
		switch f.Kind {
		case 'u', 'e':
			b = varint(varint(b, uint64(f.Num)<<3), v.(uint64))
		case 'b':
			b = append(varint(b, uint64(f.Num)<<3), 1)
		}
	}
	return b
}

// pbDecode reads a message in the Protobuf encoding, strictly.
func pbDecode(fs []field, b []byte) (msg, error) {
	m := msg{}
	for _, f := range fs {
		m[f.Name] = zeroOf(f.Kind)
	}
	vi := func() (uint64, error) {
		var v uint64
		for i := 0; i < 10; i++ {
			if len(b) == 0 {
				return 0, errors.New("cut varint")
			}
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << (7 * i)
			if c < 0x80 {
				return v, nil
			}
		}
		return 0, errors.New("long varint")
	}
	for len(b) > 0 {
		tag, err := vi()
		if err != nil {
			return nil, err
		}
		var f *field
		for i := range fs {
			if uint64(fs[i].Num) == tag>>3 {
				f = &fs[i]
			}
		}
		if f == nil {
			return nil, fmt.Errorf("field number %d", tag>>3)
		}
		wt := map[byte]uint64{'u': 0, 'b': 0, 'e': 0, 's': 2, 'f': 5}[f.Kind]
		if tag&7 != wt {
			return nil, fmt.Errorf("field %s with wire type %d", f.Name, tag&7)
		}
		switch f.Kind {
		case 'u', 'e', 'b':
			v, err := vi()
			if err != nil {
				return nil, err
			}
			m[f.Name] = v
			if f.Kind == 'b' {
				m[f.Name] = v != 0
			}
		case 's':
			n, err := vi()
			if err != nil || n > uint64(len(b)) {
				return nil, errors.New("cut string")
			}
			m[f.Name] = string(b[:n])
			b = b[n:]
		case 'f':
			if len(b) < 4 {
				return nil, errors.New("cut float")
			}
			m[f.Name] = math.Float32frombits(uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24)
			b = b[4:]
		}
	}
	return m, nil
}

// jsonDecode reads a message in the JSON encoding: every field under its name.
func jsonDecode(fs []field, b []byte) (msg, error) {
	var raw map[string]any
	if !utf8.Valid(b) {
		return nil, errors.New("not valid UTF-8")
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		return nil, err
	}
	m := msg{}
	for _, f := range fs {
		v, ok := raw[f.Name]
		if !ok {
			return nil, fmt.Errorf("no field %s in %s", f.Name, b)
		}
		delete(raw, f.Name)
		bad := false
		switch f.Kind {
		case 'u':
			x, ok := v.(float64)
			bad = !ok || x < 0 || x != math.Trunc(x)
			m[f.Name] = uint64(x)
		case 'f':
			x, ok := v.(float64)
			bad = !ok
			m[f.Name] = float32(x)
		case 'b':
			x, ok := v.(bool)
			bad = !ok
			m[f.Name] = x
		case 's':
			x, ok := v.(string)
			bad = !ok
			m[f.Name] = x
		}
		if bad {
			return nil, fmt.Errorf("field %s is %v", f.Name, v)
		}
	}
	if len(raw) != 0 {
		return nil, fmt.Errorf("unknown fields in %s", b)
	}
	return m, nil
}

// jsonEncode writes a request in one of several equivalent ways.
func jsonEncode(fs []field, m msg, style int) []byte {
	var p []string
	for _, f := range fs {
		v, ok := m[f.Name]
		if !ok || style == 1 && v == zeroOf(f.Kind) {
			continue
		}
		s := fmt.Sprint(v)
		if f.Kind == 'u' && style == 2 {
			s = `"` + s + `"`
		}
		if f.Kind == 'e' && style != 2 {
			for n, x := range cacheTypes {
				if x == v.(uint64) {
					s = `"` + n + `"`
				}
			}
		}
		p = append(p, fmt.Sprintf("%q: %s", f.Name, s))
	}
	if style == 1 {
		p = append(p, `"Unheard": {"of": [1, 2]}`)
	}
	if style == 2 {
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	}
	return []byte("{" + strings.Join(p, ",\n\t") + "}")
}

// ---- the API over HTTP ----

type web struct {
	*sys
	h http.Handler
}

func startWeb(c *X, u *Unit) *web {
	if Router == nil {
		panic("built without the main package")
	}
	s := startServer(c, u)
	return &web{s, Router()}
}

const (
	ctJSON = "application/json"
	ctPB   = "application/protobuf"
)

// call makes a call and returns its answer, or the status and code of its error.
// enc: 0 Protobuf, 1.. JSON styles.
func (w *web) call(method string, req, resp []field, m msg, enc int) (msg, int, string) {
	ct := ctPB
	body := pbEncode(req, m)
	if enc > 0 {
		ct = ctJSON
		body = jsonEncode(req, m, enc-1)
	}
	r := w.do("POST", apiPath+method, ct, bytes.NewReader(body))
	what := fmt.Sprintf("%s %s(%s)", ct, method, m.render(req))
	if r.Code != 200 {
		return nil, r.Code, w.errCode(what, r)
	}
	if got := r.Header().Get("Content-Type"); strings.TrimSpace(strings.Split(got, ";")[0]) != ct {
		w.c.Fail("content-type", "%s answers with content type %q", what, got)
	}
	var a msg
	var err error
	if enc > 0 {
		a, err = jsonDecode(resp, r.Body.Bytes())
	} else {
		a, err = pbDecode(resp, r.Body.Bytes())
	}
	if err != nil {
		w.c.Fail("encoding", "%s: the answer %q is not as published: %v", what, r.Body.Bytes(), err)
	}
	return a, 200, ""
}

func (w *web) do(method, path, ct string, body io.Reader) *httptest.ResponseRecorder {
	req := httptest.NewRequest(method, "http://comfo"+path, body)
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	rec := httptest.NewRecorder()
	w.h.ServeHTTP(rec, req)
	return rec
}

// errCode checks the form of an error answer.
func (w *web) errCode(what string, r *httptest.ResponseRecorder) string {
	var e struct{ Code, Msg string }
	if err := json.Unmarshal(r.Body.Bytes(), &e); err != nil || e.Code == "" {
		w.c.Fail("error-form", "%s: status %d with body %q, which names no error code", what, r.Code, r.Body.Bytes())
	}
	switch {
	case e.Code == "invalid_argument" && r.Code != 400:
		w.c.Fail("error-kind", "%s: %s with status %d", what, e.Code, r.Code)
	case e.Code == "internal" && r.Code != 500:
		w.c.Fail("error-kind", "%s: %s with status %d", what, e.Code, r.Code)
	}
	return e.Code
}

// wantReading is the answer of a getter for the unit's payload.
func wantReading(cmd byte, d []byte) msg {
	u := func(b byte) uint64 { return uint64(b) }
	switch cmd {
	case cBoot:
		return msg{"MajorVersion": u(d[0]), "MinorVersion": u(d[1]), "BetaVersion": u(d[2]), "DeviceName": trimName(d[3:])}
	case cFans:
		i, _ := rpm(d[2], d[3])
		o, _ := rpm(d[4], d[5])
		return msg{"InPercent": u(d[0]), "OutPercent": u(d[1]), "InSpeed": uint64(i), "OutSpeed": uint64(o)}
	case cTemps:
		m := msg{}
		for i, k := range []int{0, 1, 2, 3, 4, 6, 7, 8} {
			m[mTemps[i].Name] = wireTemp(d[k])
		}
		return m
	case cProf:
		m := msg{"InFanActive": d[9] == 1}
		for n, k := range map[string]int{"OutAway": 0, "OutLow": 1, "OutMid": 2, "OutHigh": 10, "InAway": 3, "InLow": 4, "InMid": 5, "InHigh": 11, "CurrentOut": 6, "CurrentIn": 7, "CurrentMode": 8} {
			m[n] = u(d[k])
		}
		return m
	case cByp:
		return msg{"Factor": u(d[2]), "Level": u(d[3]), "Correction": u(d[4]), "SummerMode": d[6] == 1}
	case cErrs:
		return msg{"Filter": d[8] == 1}
	}
	panic("no reading")
}

// sameReading compares; of a name that is not valid UTF-8 the valid parts count.
func sameReading(fs []field, got, want msg) bool {
	for _, f := range fs {
		g, w := got[f.Name], want[f.Name]
		if n, ok := w.(string); ok && !utf8.ValidString(n) {
			g = strings.ReplaceAll(g.(string), "\uFFFD", "")
			w = strings.ReplaceAll(strings.ToValidUTF8(n, ""), "\uFFFD", "")
		}
		if g != w {
			return false
		}
	}
	return true
}

// expectReading gets a reading and compares it with the unit's.
func (w *web) expectReading(cmd byte, enc int, d []byte) {
	fs := getterFields[cmd]
	a, st, code := w.call(getterNames[cmd], mNoop, fs, msg{}, enc)
	if st != 200 {
		w.c.Fail("getter", "%s: status %d (%s) for a unit that says % x", getterNames[cmd], st, code, d)
	}
	if want := wantReading(cmd, d); !sameReading(fs, a, want) {
		w.c.Fail("getter", "%s (encoding %d) answers %s, must be %s", getterNames[cmd], enc, a.render(fs), want.render(fs))
	}
}

// probe makes every call once; all must work.
func (w *web) probe(enc int) {
	u := w.u
	u.Answer, u.Before = nil, nil
	a, st, code := w.call("FlushCache", mFlushReq, mFlushResp, msg{"Cache": uint64(flushAll)}, enc)
	if st != 200 || a["Success"] != true {
		w.c.Fail("wedged", "FlushCache of a healthy unit: %d %s %v", st, code, a)
	}
	for _, r := range readings {
		w.expectReading(r.Cmd, enc, u.Payload(r.Cmd))
	}
	tgt := uint64(1)
	if u.Prof[8] == 1 {
		tgt = 2
	}
	if a, st, code = w.call("SetFanSpeed", mSpeedReq, mSpeedMod, msg{"Abs": tgt}, enc); st != 200 || a["Modified"] != true || uint64(u.Prof[8]) != tgt {
		w.c.Fail("wedged", "SetFanSpeed of a healthy unit: %d %s %v", st, code, a)
	}
	if a, st, code = w.call("SetFanProfile", mProfileReq, mProfileMod, msg{"Mode": uint64(4), "TargetSpeed": uint64(99)}, enc); st != 200 || a["Modified"] != true || u.Prof[10] != 99 || u.Prof[11] != 99 {
		w.c.Fail("wedged", "SetFanProfile of a healthy unit: %d %s %v", st, code, a)
	}
	if a, st, code = w.call("SetComfortTemp", mComfortReq, mComfortMod, msg{"ComfortTemp": uint64(31)}, enc); st != 200 || a["Modified"] != true || u.Temps[0] != 102 {
		w.c.Fail("wedged", "SetComfortTemp of a healthy unit: %d %s %v", st, code, a)
	}
}

type brokenBody struct{ b *bytes.Reader }

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.b.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// badWriter is a client that goes away while the answer is written.
type badWriter struct {
	*httptest.ResponseRecorder
	left int
}

func (b *badWriter) Write(p []byte) (int, error) {
	if len(p) > b.left {
		p = p[:b.left]
		b.left = 0
		b.ResponseRecorder.Write(p)
		return len(p), io.ErrClosedPipe
	}
	b.left -= len(p)
	return b.ResponseRecorder.Write(p)
}

// viaHTTP lets the generated clients talk to the handler.
type viaHTTP struct{ h http.Handler }

func (v viaHTTP) Do(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
	}
	q := httptest.NewRequest(r.Method, r.URL.String(), bytes.NewReader(body)).WithContext(r.Context())
	q.Header = r.Header.Clone()
	rec := httptest.NewRecorder()
	v.h.ServeHTTP(rec, q)
	return rec.Result(), nil
}

func propC21() *Prop {
	// every value of every byte of every reading, in both encodings
	values := func(c *X) {
		r := &readings[pick("reading", len(readings))]
		u := NewUnit()
		d := r.Make(pick("background", 2) * 7)
		pos := pick("position", r.Len)
		c.Outcome("%s %d", r.Name, pos)
		enc := pick("encoding", 2)
		un := vrt.NoSched()
		w := startWeb(c, u)
		un()
		vrt.Sleep(sec)
		typ := uint64(flushAll)
		if r.Flush >= 0 {
			typ = uint64(r.Flush)
		}
		k := pick("quarter", 4)
		for b := k * 64; b < k*64+64; b++ {
			e := clone(d)
			e[pos] = byte(b)
			if r.Cmd == cFans && wantFansBad(e) {
				continue
			}
			u.SetPayload(r.Cmd, e)
			if a, st, code := w.call("FlushCache", mFlushReq, mFlushResp, msg{"Cache": typ}, enc); st != 200 || a["Success"] != true {
				c.Fail("flush", "FlushCache(%d): %d %s %v", typ, st, code, a)
			}
			w.expectReading(r.Cmd, enc, e)
		}
	}
	names := func(c *X) {
		// device names made of pieces of valid and invalid UTF-8 and JSON's special characters
		pc := []string{"A", " ", "\xff", "\xc3", "\xa9", "\xe2\x82", "\"", "\\", "\x00", "<"}
		u := NewUnit()
		u.Boot = append(clone(u.Boot[:3]), []byte("CA350 luxe")...)
		n := ""
		for i := 0; i < 3; i++ {
			n += pc[pick("piece", len(pc))]
		}
		enc := pick("encoding", 2)
		copy(u.Boot[3+pick("at", 2)*4:], n)
		w := startWeb(c, u)
		vrt.Sleep(sec)
		w.expectReading(cBoot, enc, u.Boot)
		c.Outcome("%q", trimName(u.Boot[3:]))
	}
	big := []uint64{256, 257, 258, 259, 260, 1 << 16, 1<<16 + 3, 1<<32 - 1}
	expectErr := func(c *X, w *web, what string, n int, st int, code string, class int) {
		if st/100 != class {
			c.Fail("error-kind", "%s must give a %dxx status, gives %d (%s)", what, class, st, code)
		}
		if class == 4 && code != "invalid_argument" {
			c.Fail("error-kind", "%s gives error code %s", what, code)
		}
		if len(w.u.setsSince(n)) != 0 && class == 4 {
			c.Fail("error-kind", "%s was refused, but the unit saw %s", what, w.u.sinceN(n))
		}
	}
	expectMod := func(c *X, w *web, what string, n int, a msg, st int, code string, mod bool, orig, tgt uint64, o string, t string) {
		if st != 200 || a["Modified"] != mod || a[o] != orig || a[t] != tgt {
			c.Fail("answer", "%s: status %d %s, answer %v; must be Modified=%v %s=%d %s=%d", what, st, code, a, mod, o, orig, t, tgt)
		}
		if a["ReqTime"] == "" {
			c.Fail("answer", "%s: no ReqTime", what)
		}
		k := 0
		if mod {
			k = 1
		}
		if s := w.u.setsSince(n); len(s) != k {
			c.Fail("answer", "%s: the unit saw %s", what, w.u.sinceN(n))
		}
	}
	calls := func(c *X) {
		u := NewUnit()
		debugLog = pick("debug", 2) == 1
		enc := pick("encoding", 4)
		op := pick("op", 4)
		var run func(w *web)
		switch op {
		case 0:
			base := byte(pick("base", 4) + 1)
			u.Prof[8] = base
			u.Fans[0], u.Fans[1] = u.pct(base)
			abs := append([]uint64{0, 1, 2, 3, 4, 5, 255}, big...)[pick("abs", 7+len(big))]
			rel := pick("rel", 2) == 1
			run = func(w *web) {
				n := len(u.Events)
				m := msg{"Abs": abs, "Rel": rel}
				what := fmt.Sprintf("SetFanSpeed(%s) at %d", m.render(mSpeedReq), base)
				a, st, code := w.call("SetFanSpeed", mSpeedReq, mSpeedMod, m, enc)
				t, ok := speedTarget(base, uint32(abs), rel)
				if !ok {
					expectErr(c, w, what, n, st, code, 4)
					return
				}
				expectMod(c, w, what, n, a, st, code, t != base, uint64(base), uint64(t), "OriginalSpeed", "TargetSpeed")
				if u.Prof[8] != t {
					c.Fail("effect", "%s: the unit is at speed %d", what, u.Prof[8])
				}
			}
		case 1:
			mode := append([]uint64{0, 1, 2, 3, 4, 5, 255}, big...)[pick("mode", 7+len(big))]
			tgt := append([]uint64{0, 14, 15, 35, 100, 101, 255, 256 + 35, 1<<32 - 1}, big[:2]...)[pick("target", 11)]
			run = func(w *web) {
				n := len(u.Events)
				for i := 0; i < 4; i++ {
					u.Prof[[]int{0, 1, 2, 10}[i]] = byte(30 + 5*i)
					u.Prof[[]int{3, 4, 5, 11}[i]] = byte(30 + 5*i)
				}
				w.a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_Profiles})
				m := msg{"Mode": mode, "TargetSpeed": tgt}
				what := fmt.Sprintf("SetFanProfile(%s)", m.render(mProfileReq))
				a, st, code := w.call("SetFanProfile", mProfileReq, mProfileMod, m, enc)
				if mode < 1 || mode > 4 || tgt < 15 || tgt > 100 {
					expectErr(c, w, what, n, st, code, 4)
					return
				}
				orig := uint64(30 + 5*(mode-1))
				expectMod(c, w, what, n, a, st, code, orig != tgt, orig, tgt, "OriginalSpeed", "TargetSpeed")
				for i := 0; i < 4; i++ {
					x := byte(30 + 5*i)
					if i == int(mode-1) {
						x = byte(tgt)
					}
					if u.Prof[[]int{0, 1, 2, 10}[i]] != x || u.Prof[[]int{3, 4, 5, 11}[i]] != x {
						c.Fail("effect", "%s: the unit's profiles are % x", what, u.Prof)
					}
				}
			}
		case 2:
			t := append([]uint64{0, 1, 12, 20, 21, 107, 108, 255, 256 + 20, 256 + 21}, big...)[pick("temp", 10+len(big))]
			run = func(w *web) {
				n := len(u.Events)
				what := fmt.Sprintf("SetComfortTemp(%d)", t)
				a, st, code := w.call("SetComfortTemp", mComfortReq, mComfortMod, msg{"ComfortTemp": t}, enc)
				switch {
				case t > 255:
					expectErr(c, w, what, n, st, code, 4)
				case t > 107:
					if st < 400 || len(u.setsSince(n)) != 0 {
						c.Fail("error-kind", "%s: status %d, the unit saw %s", what, st, u.sinceN(n))
					}
				default:
					expectMod(c, w, what, n, a, st, code, t != 20, 20, t, "OriginalTemp", "TargetTemp")
					if u.Temps[0] != byte(2*t+40) {
						c.Fail("effect", "%s: the unit's is %d", what, u.Temps[0])
					}
				}
			}
		case 3:
			t := []uint64{0, 1, 2, 3, 4, 10, 5, 9, 11, 1 << 20}[pick("cache", 10)]
			run = func(w *web) {
				bump(u, 3)
				n := len(u.Events)
				what := fmt.Sprintf("FlushCache(%d)", t)
				a, st, code := w.call("FlushCache", mFlushReq, mFlushResp, msg{"Cache": t}, enc)
				want := flushed(int(t))
				if st != 200 || a["Success"] != (len(want) > 0) || a["ReqTime"] == "" {
					c.Fail("answer", "%s: %d %s %v", what, st, code, a)
				}
				if len(want) == 0 && len(u.framesSince(n)) != 0 {
					c.Fail("effect", "%s: the unit saw %s", what, u.sinceN(n))
				}
				for _, cmd := range want {
					w.expectReading(cmd, enc, u.Payload(cmd))
				}
			}
		}
		w := startWeb(c, u)
		vrt.Sleep(sec)
		run(w)
		c.Outcome("%d %d %s", enc, op, clip2(u.Wire()))
	}
	type req struct {
		name, verb, path, ct, body string
	}
	var bad []req
	for _, v := range []string{"GET", "PUT", "DELETE", "PATCH", "OPTIONS"} {
		bad = append(bad, req{"verb", v, apiPath + "GetTemps", ctJSON, "{}"}, req{"verb", v, apiPath + "SetFanSpeed", ctJSON, `{"Abs": 3}`})
	}
	for _, ct := range []string{"", "text/plain", "application/xml", "application/x-www-form-urlencoded", "application/jsonp", "json"} {
		bad = append(bad, req{"content type", "POST", apiPath + "SetFanSpeed", ct, `{"Abs": 3}`}, req{"content type", "POST", apiPath + "GetFans", ct, ""})
	}
	for _, p := range []string{apiPath + "GetHours", apiPath + "getTemps", apiPath + "GetTemps/", apiPath + "GetTemps/x", apiPath, "/twirp/comfo.api.Comfort/GetTemps", "/twirp/comfo.Comfo/GetTemps", "/comfo.api.Comfo/GetTemps", "/", "/twirp", "/GetTemps", apiPath + "SetFanSpeed2"} {
		bad = append(bad, req{"path", "POST", p, ctJSON, "{}"}, req{"path", "POST", p, ctPB, ""})
	}
	for _, b := range []string{"", "{", "}", "[]", "42", `"x"`, `{"Abs":}`, `{"Abs":"x"}`, `{"Abs":-1}`, `{"Abs":4294967296}`, `{"Abs":1.5}`, `{"Abs":true}`, `{"Abs":[3]}`, `{"Rel":1}`, `{"Rel":"true"}`, `{"Abs":3,"Abs":4}`, `{"Abs":3`, `{'Abs':3}`, "\xff\xfe"} {
		bad = append(bad, req{"json", "POST", apiPath + "SetFanSpeed", ctJSON, b})
		bad = append(bad, req{"json", "POST", apiPath + "SetFanProfile", ctJSON, strings.ReplaceAll(strings.ReplaceAll(b, "Abs", "Mode"), "Rel", "TargetSpeed")})
	}
	for _, b := range []string{"\x08", "\x08\x80", "\x0a\x05x", "\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x00", "\x0b", "\xff", "\x0d\x00"} {
		for _, m := range []string{"SetFanSpeed", "SetComfortTemp", "SetFanProfile", "FlushCache", "GetTemps"} {
			bad = append(bad, req{"protobuf", "POST", apiPath + m, ctPB, b})
		}
	}
	malformed := func(c *X) {
		q := bad[pick("request", len(bad))]
		debugLog = pick("debug", 2) == 1
		cut := 0
		if q.name == "json" || q.name == "protobuf" {
			cut = pick("body cut off", 2)
		}
		u := NewUnit()
		w := startWeb(c, u)
		vrt.Sleep(sec)
		n := len(u.Events)
		var body io.Reader = strings.NewReader(q.body)
		if cut == 1 {
			body = brokenBody{bytes.NewReader([]byte(q.body))}
		}
		what := fmt.Sprintf("%s %s (%s) with body %q", q.verb, q.path, q.ct, q.body)
		r := w.do(q.verb, q.path, q.ct, body)
		lim := 500
		if cut == 1 {
			lim = 600
		}
		if r.Code < 400 || r.Code >= lim {
			c.Fail("malformed", "%s gets status %d %q", what, r.Code, clip(r.Body.String(), 200))
		}
		if len(u.framesSince(n)) != 0 {
			c.Fail("malformed", "%s: status %d, but the unit saw %s", what, r.Code, u.sinceN(n))
		}
		w.probe(0)
		c.Outcome("%s %d %s", q.name, r.Code, clip(r.Body.String(), 60))
	}
	// the ways HTTP lets a client say the same thing
	spelled := func(c *X) {
		k := pick("encoding", 2)
		ct := [][]string{
			{"application/protobuf", "application/protobuf; proto=comfo.api.Comfo", "Application/Protobuf", "application/protobuf ; x=y"},
			{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8", "Application/JSON", "application/json ; x=y"},
		}[k]
		t := ct[pick("content type", len(ct))]
		hs := []http.Header{
			{},
			{"Accept": {"*/*"}},
			{"Accept": {"application/json"}, "Accept-Encoding": {"gzip, deflate, br"}, "User-Agent": {"Mozilla/5.0"}},
			{"Accept": {"application/protobuf"}, "Accept-Language": {"nl"}, "X-Forwarded-For": {"203.0.113.7"}, "X-Requested-With": {"XMLHttpRequest"}},
			{"Accept": {"text/html"}, "Origin": {"http://elsewhere.example"}, "Referer": {"http://elsewhere.example/x"}, "Cookie": {"a=b"}, "Authorization": {"Basic eDp5"}},
			{"Twirp-Version": {"v8.1.0"}, "Cache-Control": {"no-cache"}, "If-None-Match": {"*"}, "Range": {"bytes=0-3"}, "Expect": {"100-continue"}},
		}
		h := hs[pick("headers", len(hs))]
		q := []string{"", "?", "?x=1", "?Abs=2"}[pick("query", 4)]
		host := []string{"comfo", "127.0.0.1:3094", "[::1]:3094", ""}[pick("host", 4)]
		shape := pick("body", 6)
		old := pick("version", 2) == 1
		debugLog = pick("debug", 2) == 1
		u := NewUnit()
		w := startWeb(c, u)
		vrt.Sleep(sec)
		for _, m := range []struct {
			name      string
			req, resp []field
			m         msg
			good      func(a msg) bool
		}{
			{"SetFanSpeed", mSpeedReq, mSpeedMod, msg{"Abs": uint64(4)}, func(a msg) bool {
				return a["Modified"] == true && a["OriginalSpeed"] == uint64(2) && a["TargetSpeed"] == uint64(4) && u.Prof[8] == 4
			}},
			{"SetComfortTemp", mComfortReq, mComfortMod, msg{"ComfortTemp": uint64(25)}, func(a msg) bool { return a["Modified"] == true && u.Temps[0] == 90 }},
			{"GetTemps", mNoop, mTemps, msg{}, func(a msg) bool { return sameReading(mTemps, a, wantReading(cTemps, u.Temps)) }},
			{"GetBootInfo", mNoop, mBoot, msg{}, func(a msg) bool { return sameReading(mBoot, a, wantReading(cBoot, u.Boot)) }},
		} {
			body := pbEncode(m.req, m.m)
			if k == 1 {
				body = jsonEncode(m.req, m.m, 0)
			}
			if shape >= 3 {
				body = padded(body, k, []int{600, 5000, 70000}[shape-3])
			}
			var rd io.Reader = bytes.NewReader(body)
			if shape%2 == 1 {
				rd = struct{ io.Reader }{rd} // no length known: sent in pieces
			}
			if shape == 2 {
				rd = iotest.OneByteReader(rd)
			}
			r := httptest.NewRequest("POST", "http://comfo"+apiPath+m.name+q, rd)
			r.Host = host
			for n, v := range h {
				r.Header[n] = v
			}
			r.Header.Set("Content-Type", t)
			if old {
				r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.0", 1, 0
			}
			rec := httptest.NewRecorder()
			w.h.ServeHTTP(rec, r)
			what := fmt.Sprintf("POST %s (%s, %v)", m.name+q, t, h)
			if rec.Code != 200 {
				c.Fail("spelled", "%s gets status %d %q", what, rec.Code, clip(rec.Body.String(), 200))
			}
			var a msg
			var err error
			switch e := rec.Header().Get("Content-Encoding"); {
			case e == "gzip" && strings.Contains(r.Header.Get("Accept-Encoding"), e):
				var z *gzip.Reader
				if z, err = gzip.NewReader(rec.Body); err == nil {
					rec.Body = new(bytes.Buffer)
					_, err = io.Copy(rec.Body, z)
				}
				if err != nil {
					c.Fail("spelled", "%s is answered with broken compression: %v", what, err)
				}
			case e != "":
				c.Fail("spelled", "%s is answered with content encoding %s", what, e)
			}
			if k == 1 {
				a, err = jsonDecode(m.resp, rec.Body.Bytes())
			} else {
				a, err = pbDecode(m.resp, rec.Body.Bytes())
			}
			if err != nil || !m.good(a) {
				c.Fail("spelled", "%s gets %q, %v; wire %s", what, rec.Body.Bytes(), err, u.Wire())
			}
		}
		c.Outcome("%s", t)
	}
	// what goes wrong with the unit becomes a server error
	faults := func(c *X) {
		u := NewUnit()
		debugLog = pick("debug", 2) == 1
		enc := pick("encoding", 2)
		w := startWeb(c, u)
		vrt.Sleep(sec)
		fa := ackFaults()
		f := fa[pick("answer", len(fa))]
		u.Answer = func(u *Unit, e Ev, def []byte) []Chunk {
			if isSet(e.Cmd) {
				return f.F(e, def)
			}
			return nil
		}
		op := pick("op", 3)
		n := len(u.Events)
		var a msg
		var st int
		var code string
		switch op {
		case 0:
			a, st, code = w.call("SetFanSpeed", mSpeedReq, mSpeedMod, msg{"Abs": uint64(4)}, enc)
		case 1:
			a, st, code = w.call("SetFanProfile", mProfileReq, mProfileMod, msg{"Mode": uint64(4), "TargetSpeed": uint64(90)}, enc)
		case 2:
			a, st, code = w.call("SetComfortTemp", mComfortReq, mComfortMod, msg{"ComfortTemp": uint64(25)}, enc)
		}
		if f.OK && (st != 200 || a["Modified"] != true) || !f.OK && st/100 != 5 {
			c.Fail("error-kind", "change %d with answer %q of the unit: status %d %s %v; wire %s", op, f.Name, st, code, a, u.sinceN(n))
		}
		c.Outcome("%d %s %d %s", op, f.Name, st, code)
	}
	// clients that go away
	gone := func(c *X) {
		u := NewUnit()
		u.RampNS = []int64{0, 1700 * ms}[pick("ramp", 2)]
		w := startWeb(c, u)
		vrt.Sleep(sec)
		type cl struct {
			m    string
			body string
		}
		cs := []cl{{"GetTemps", "{}"}, {"SetFanSpeed", `{"Abs": 4}`}, {"SetFanSpeed", `{"Abs": 9}`}, {"FlushCache", `{"Cache": "All"}`}, {"SetComfortTemp", `{"ComfortTemp": 25}`}, {"SetFanProfile", `{"Mode": 3, "TargetSpeed": 60}`}}
		for i := 0; i < 2; i++ {
			k := cs[pick("call", len(cs))]
			ctx, cancel := context.WithCancel(bg)
			q := httptest.NewRequest("POST", "http://comfo"+apiPath+k.m, strings.NewReader(k.body)).WithContext(ctx)
			q.Header.Set("Content-Type", ctJSON)
			var rw http.ResponseWriter = httptest.NewRecorder()
			switch pick("leaves", 3) {
			case 0:
				cancel()
			case 1:
				rw = &badWriter{httptest.NewRecorder(), []int{0, 5}[pick("written", 2)]}
			case 2:
				vrt.GoNamed("client", func() {
					vrt.Sleep(500 * ms)
					cancel()
				})
			}
			w.h.ServeHTTP(rw, q)
			cancel()
		}
		u.RampNS = 0
		vrt.Sleep(30 * sec)
		w.probe(1)
		c.Outcome("ok")
	}
	// several clients at the same time, through the generated clients
	conc := func(n int) func(c *X) {
		return func(c *X) {
			u := NewUnit()
			debugLog = pick("debug", 2) == 1
			w := startWeb(c, u)
			vrt.Sleep(sec)
			cl := []rpc.Comfo{rpc.NewComfoProtobufClient("http://comfo", viaHTTP{w.h}), rpc.NewComfoJSONClient("http://comfo", viaHTTP{w.h})}
			ops := []func(a rpc.Comfo) string{
				func(a rpc.Comfo) string {
					r, err := readingOf(cFans).Get(a)
					if err != nil {
						return fmt.Sprint("GetFans: ", err)
					}
					in, out := u.pct(2)
					in4, out4 := u.pct(4)
					if !strings.HasPrefix(r, fmt.Sprintf("fans[%d %d ", in, out)) && !strings.HasPrefix(r, fmt.Sprintf("fans[%d %d ", in4, out4)) {
						return "GetFans: " + r
					}
					return ""
				},
				func(a rpc.Comfo) string {
					r, err := readingOf(cBoot).Get(a)
					if w := readingOf(cBoot).Of(u.Boot); err != nil || r != w {
						return fmt.Sprint("GetBootInfo: ", r, err)
					}
					return ""
				},
				func(a rpc.Comfo) string {
					r, err := a.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: 4})
					if err != nil || r.GetTargetSpeed() != 4 || r.GetOriginalSpeed() != 2 && r.GetOriginalSpeed() != 4 || r.GetModified() != (r.GetOriginalSpeed() == 2) {
						return fmt.Sprint("SetFanSpeed: ", r, err)
					}
					return ""
				},
				func(a rpc.Comfo) string {
					r, err := a.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: 25})
					if err != nil || r.GetTargetTemp() != 25 || r.GetOriginalTemp() != 20 && r.GetOriginalTemp() != 25 || r.GetModified() != (r.GetOriginalTemp() == 20) {
						return fmt.Sprint("SetComfortTemp: ", r, err)
					}
					return ""
				},
				func(a rpc.Comfo) string {
					_, err := a.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: 7, TargetSpeed: 50})
					if code(err) != "invalid_argument" {
						return fmt.Sprint("SetFanProfile(7, 50): ", err)
					}
					return ""
				},
				func(a rpc.Comfo) string {
					r, err := a.FlushCache(bg, &rpc.FlushCacheRequest{Cache: rpc.FlushCacheRequest_All})
					if err != nil || !r.GetSuccess() {
						return fmt.Sprint("FlushCache: ", r, err)
					}
					return ""
				},
			}
			crowd, only := n > 8, 0
			if crowd {
				only = pick("most", len(ops))
				u.Lat = []int64{0, 600 * ms}[pick("latency", 2)]
			}
			res := make([]string, n)
			var ts []*vrt.Thread
			lt := c.late(n)
			for i := range res {
				i := i
				op, enc := (only+i)%len(ops), i%2
				if !crowd {
					op, enc = pick("op", len(ops)), pick("encoding", 2)
				} else if i%3 > 0 {
					op = only
				}
				ts = append(ts, c.start(i, lt, fmt.Sprintf("client %d", i), func() { res[i] = ops[op](cl[enc]) }))
			}
			vrt.Join(ts...)
			for _, r := range res {
				if r != "" {
					c.Fail("concurrent", "%s", r)
				}
			}
			c.Outcome("%s", clip2(u.Wire()))
		}
	}
	ns := vrt.Options{NoSched: true}
	return &Prop{ID: "C21",
		Quick: []Scenario{
			{Name: "values", Opt: ns, Body: values, What: "6 getters x every byte of the reading x all 256 values x 2 backgrounds x JSON and Protobuf, against encodings written by hand"},
			{Name: "names", Opt: ns, Body: names, What: "device names with every 3 of 10 pieces (invalid UTF-8, quotes, NUL, ...) at 2 offsets x both encodings"},
			{Name: "calls", Opt: ns, Body: calls, What: "the 4 changing calls x tables of 32-bit values x Protobuf and 3 styles of JSON"},
			{Name: "spelled", Opt: ns, Body: spelled, What: "4 calls in both encodings x 9 spellings of the content type x 6 sets of headers x query strings x host names x bodies of known and unknown length, in single bytes and of up to 70 kB x HTTP versions"},
			{Name: "malformed", Opt: ns, Body: malformed, What: "requests with wrong verbs, content types, paths, JSON and Protobuf bodies, whole and cut off, each followed by every call once"},
			{Name: "unit-faults", Opt: ns, Body: faults, What: "3 changing calls x 13 answers of the unit x both encodings"},
			{Name: "gone", Opt: ns, Body: gone, What: "two clients in a row that go away before, during or after 6 calls, then every call once"},
			{Name: "crowd", Opt: vrt.Options{NoSched: true, Horizon: 2000 * sec}, Body: conc(30), What: "30 clients at the same time, two thirds of them making the same one of 6 calls, in both encodings, on a unit that answers at once or after 600 ms"},
			{Name: "concurrent", Bound: 1, Body: conc(2), What: "every pair of 6 calls through the generated clients in both encodings, every schedule with 1 preemption or delay"},
		},
		Deep: []Scenario{
			{Name: "concurrent-2", Bound: 2, Body: conc(2), What: "as concurrent with 2 preemptions or delays"},
			{Name: "concurrent-3", Bound: 1, Body: conc(3), What: "every triple of calls, 1 preemption or delay"},
		},
	}
}

// padded is the same message with n bytes before it that say nothing: white space in
// JSON, a field of a later version in Protobuf.
func padded(b []byte, enc, n int) []byte {
	var p []byte
	if enc == 1 {
		p = bytes.Repeat([]byte(" \n\t "), n/4)
	} else {
		p = append(varint(varint(nil, 99<<3|2), uint64(n)), bytes.Repeat([]byte{8}, n)...)
	}
	return append(p, b...)
}

// wantFansBad: the reading cannot be represented, so the flush must fail.
func wantFansBad(d []byte) bool {
	_, a := rpm(d[2], d[3])
	_, b := rpm(d[4], d[5])
	return !a || !b
}
