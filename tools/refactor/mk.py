#!/usr/bin/env python3
"""mk.py [NAME...]: writes NAME.patch, refactorings of /repo that keep its behaviour.

run.py applies them to a scratch copy and runs the checks, which must stay quiet.
Development tool; no check uses it."""
import os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
TREES = {}


def tree(f):
    TREES[f.__name__] = f
    return f


class Tree:
    def __init__(self, d):
        self.d = d

    def read(self, f):
        return open(os.path.join(self.d, f)).read()

    def write(self, f, s):
        open(os.path.join(self.d, f), "w").write(s)

    def rep(self, f, *pairs):
        s = self.read(f)
        for a, b in pairs:
            if s.count(a) != 1:
                sys.exit("%s: %d times: %s" % (f, s.count(a), a))
            s = s.replace(a, b)
        self.write(f, s)

    def between(self, f, a, b, new):
        """Replaces the text from a up to b."""
        s = self.read(f)
        i = s.index(a)
        j = s.index(b, i) if b else len(s)
        self.write(f, s[:i] + new + s[j:])


@tree
def codec(t):
    """libcomfo's codec, requests and API written differently."""
    t.between("libcomfo/proto.go", "// escapeData escapes", "// unescapeData", '''// escapeData escapes 0x07 characters with 0x07 in a payload.
func escapeData(in []byte) []byte {
	return bytes.ReplaceAll(in, []byte{esc}, []byte{esc, esc})
}

''')
    t.between("libcomfo/proto.go", "// unescapeData unescapes", "// calculateChecksum calc", '''// unescapeData unescapes escape sequences of a wire-format payload.
func unescapeData(in []byte) []byte {

	out := make([]byte, 0, len(in))

	for len(in) > 0 {
		i := bytes.IndexByte(in, esc)
		if i < 0 {
			break
		}
		out = append(out, in[:i]...)
		in = in[i+1:]
		if len(in) > 0 && in[0] == esc {
			out = append(out, esc)
			in = in[1:]
		}
	}

	return append(out, in...)
}

''')
    t.between("libcomfo/proto.go", "	// Allocate large enough", "// verifyChecksum", '''	sum := cmd + dataLen + checksumSeed
	for i := range data {
		sum += data[i]
	}

	return sum
}

''')
    t.rep("libcomfo/proto.go", ('import "fmt"', 'import (\n\t"bytes"\n\t"fmt"\n)\n\nconst checksumSeed uint8 = 173'))
    t.between("libcomfo/proto.go", "	// Save the original, unescaped", "// UnmarshalPacket parses", '''	n := len(in.Data)
	if n > math.MaxUint8 {
		return nil, errTooLong
	}

	var w bytes.Buffer
	w.Grow(2*n + 4)
	w.Write([]byte{0x00, in.Command, byte(n)})
	w.Write(escapeData(in.Data))
	w.WriteByte(calculateChecksum(in.Command, byte(n), in.Data))

	return w.Bytes(), nil
}

''')
    t.rep("libcomfo/proto.go", ('\t"fmt"\n', '\t"fmt"\n\t"math"\n'))
    # API with generics
    f = "libcomfo/api.go"
    s = t.read(f)
    i = s.index("// GetTemperatures gets")
    head = s[:i]
    getters = [("GetTemperatures", "temps", "Temps", "getTemps", "the temperature readings from the unit"), ("GetBypass", "bypass", "Bypass", "getBypass", "the bypass"),
               ("GetFans", "fans", "Fans", "getFans", "the fans"), ("GetHours", "hours", "Hours", "getHours", "hours"), ("GetBootloader", "bi", "BootInfo", "getBootloader", "bootloader"),
               ("GetFirmware", "bi", "BootInfo", "getFirmware", "firmware"), ("GetFanProfiles", "fp", "FanProfiles", "getFanProfiles", "profiles"), ("GetErrors", "e", "Errors", "getErrors", "errors")]
    body = '''// get runs a query and returns a copy of its typed response.
func get[T any, P interface {
	*T
	Response
}](req getRequest, conn io.ReadWriter) (out T, err error) {
	resp, err := getQuery(req, conn)
	if err == nil {
		out = *(resp.(P))
	}
	return out, err
}
'''
    for fn, r, ty, rq, d in getters:
        body += '''
// %s gets %s.
func %s(conn io.ReadWriter) (%s %s, err error) { return get[%s](%s, conn) }
''' % (fn, d, fn, r, ty, ty, rq)
    a = head.index("	switch mode {")
    b = head.index("	return setQuery(cfp, conn)")
    head = head[:a] + '''	in, out := cfp.slots(mode)
	*in, *out = speed, speed

''' + head[b:]
    head = head.replace("// SetFanProfiles sets the fan percentages", '''// slots returns the in and out percentages of a mode.
func (fp *FanProfiles) slots(mode uint8) (in, out *uint8) {
	return [...]*uint8{&fp.InAway, &fp.InLow, &fp.InMid, &fp.InHigh}[mode],
		[...]*uint8{&fp.OutAway, &fp.OutLow, &fp.OutMid, &fp.OutHigh}[mode]
}

// SetFanProfiles sets the fan percentages''')
    t.write(f, head + body)
    # messages
    t.between("libcomfo/message.go", "	// Look up the response type", "// setQuery is", '''	proto, known := ResponseType[in.Command]
	if !known {
		return nil, errResponseType
	}

	resp := proto.New()
	if err = resp.UnmarshalBinary(in.Data); err != nil {
		return resp, err
	}

	return resp, nil
}

''')
    t.between("libcomfo/message.go", "	sr, err := EncodeSetRequest(in)", "// getQuery is", '''	var sr Packet
	if sr, err = EncodeSetRequest(in); err == nil {
		_, err = QueryPacket(sr, conn)
	}

	return err
}

''')
    t.between("libcomfo/request_types.go", "	out = make([]byte, 8)", None, '''	return []byte{q.OutAway, q.OutLow, q.OutMid, q.InAway, q.InLow, q.InMid, q.OutHigh, q.InHigh}, nil
}
''')


@tree
def transport(t):
    """libcomfo's connection handling: state in objects, one tokenizer, no bufio.Scanner."""
    f = "libcomfo/conn.go"
    s = t.read(f)
    i = s.index("// WaitTimeout takes")
    j = s.index("// ReadPacket scans")
    k = s.index("// bodyLen returns")
    head = '''package libcomfo

import (
	"bufio"
	"bytes"
	"context"
	"io"
	"sync"
	"sync/atomic"
	"time"
)

// link is the state kept of all connections.
var link = struct {
	// Serializes exchanges
	exchange sync.Mutex
	// Guards pending
	sync.Mutex
	pending map[io.Reader]*pendingRead
	// How many exchanges were started
	count atomic.Uint64
}{pending: map[io.Reader]*pendingRead{}}

// pendingRead is a call to Read on a connection. It can't be canceled, so when the query
// that made it times out, it's left to the next query. If it were abandoned, it would
// swallow the response to that query.
type pendingRead struct {
	ctx  context.Context
	rest bytes.Buffer
	err  error
}

func (p *pendingRead) finished() bool { return p.ctx.Err() != nil }

// pendingOn returns the pendingRead in progress on the connection, or a new one.
func pendingOn(conn io.Reader) *pendingRead {

	link.Lock()
	defer link.Unlock()

	p := link.pending[conn]
	if p == nil {
		var finish context.CancelFunc
		p = &pendingRead{}
		p.ctx, finish = context.WithCancel(context.Background())
		link.pending[conn] = p

		go func() {
			defer finish()
			buf := make([]byte, 4096)
			n, err := conn.Read(buf)
			p.rest.Write(buf[:n])
			p.err = err
		}()
	}

	return p
}

// reader reads from a connection on behalf of a single query.
type reader struct {
	conn io.Reader
	over context.Context
}

// Read waits for the connection until the query is over.
func (r *reader) Read(p []byte) (n int, err error) {

	c := pendingOn(r.conn)

	select {
	case <-r.over.Done():
		return 0, errTimeout
	case <-c.ctx.Done():
	}

	link.Lock()
	defer link.Unlock()

	// The result belongs to the next query if this one has ended meanwhile
	if r.over.Err() != nil {
		return 0, errTimeout
	}

	n, _ = c.rest.Read(p)
	if c.rest.Len() > 0 {
		return n, nil
	}

	delete(link.pending, r.conn)

	return n, c.err
}

// late returns whether anything was received after the last query ended.
func late(conn io.Reader) bool {

	link.Lock()
	defer link.Unlock()

	c := link.pending[conn]
	return c != nil && c.finished()
}

// discard drops everything received until the timer expires or the connection fails.
func discard(conn io.Reader, timer *time.Timer) {

	for expired := false; !expired; {
		c := pendingOn(conn)

		select {
		case <-timer.C:
			expired = true
		case <-c.ctx.Done():
			link.Lock()
			delete(link.pending, conn)
			link.Unlock()
			expired = c.err != nil
		}
	}
}

'''
    read = '''// frames splits what the unit sends into the parts between control sequences.
type frames struct {
	// The control character that ended the last part
	seq byte
	// Whether the next part is the body of a frame
	body bool
}

func (f *frames) split(data []byte, atEOF bool) (int, []byte, error) {

	from := 0
	if f.body {
		from = bodyLen(data)
		// No more bytes will follow, so the body is incomplete
		if atEOF && from >= len(data) {
			from = 0
		}
	}

	for i := from; i+1 < len(data); i++ {
		if data[i] != esc {
			continue
		}
		if c := data[i+1]; c == ack || c == start || c == end {
			f.seq = c
			return i + 2, data[:i], nil
		}
	}

	return 0, nil, nil
}

// ReadPacket scans a connection for 3 escape sequences - ack, start and end
// A Packet structure is extracted from the connection.
func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err error) {

	over, finish := context.WithCancel(context.Background())
	defer func() {
		// Not while a result is taken
		link.Lock()
		finish()
		link.Unlock()
	}()

	var f frames
	scanner := bufio.NewScanner(&reader{conn, over})
	scanner.Split(f.split)

	steps := []byte{ack, start, end}
	if !expect {
		steps = steps[:1]
	}

	var part []byte
	for _, step := range steps {
		f.body = step == end

		if part, err = ScanTimeout(scanner, timer); err != nil {
			return out, err
		}

		// Only the frame has bytes of its own
		if step != end && len(part) != 0 {
			return out, errScanInput
		}

		// Found another control sequence instead
		if f.seq != step {
			return out, errScanInput
		}
	}

	switch n := len(part); {
	case n == 0:
		return out, nil
	case n < 4:
		return out, errTooShort
	default:
		return UnmarshalPacket(part)
	}
}

'''
    rest = s[k:]
    rest = rest.replace('''	// Wrap start and end escape sequences
	wr := append(pktStart, pb...)
	wr = append(wr, pktEnd...)

	// Write slice to connection
	// TODO: Wrap original error and return errWrite to the caller
	_, err = conn.Write(wr)
	if err != nil {
		return
	}

	return true, nil
''', '''	// Write the frame to the connection
	// TODO: Wrap original error and return errWrite to the caller
	_, err = conn.Write(bytes.Join([][]byte{pktStart, pb, pktEnd}, nil))

	return err == nil, err
''')
    a = rest.index("	// Take out lock - start critical section")
    rest = rest[:a] + '''	link.exchange.Lock()
	defer link.exchange.Unlock()
	link.count.Add(1)

	// Don't take a late response to an earlier query for the response to this one
	if late(conn) {
		discard(conn, time.NewTimer(10*time.Millisecond))
	}

	if _, err = WritePacket(in, conn); err != nil {
		return Packet{}, err
	}

	// Start a query-scoped timeout
	timer := time.NewTimer(time.Second)
	defer timer.Stop()

	out, err = ReadPacket(conn, timer, in.Expect)

	switch {
	case err == errTimeout:
		return out, err
	case err == nil && (!in.Expect || out.Command == in.Command+1):
		_, err = WriteAck(conn)
		return out, err
	case err == nil:
		err = errInvalidResponse
	}

	// The rest of the response is not the response to the next query
	discard(conn, timer)

	return out, err
}
'''
    t.write(f, head + s[i:j] + read + rest)


@tree
def caches(t):
    """comfoserver: one generic cache type behind the others, requests with their own reply channel."""
    f = "comfoserver/caches.go"
    s = t.read(f)
    i = s.index("// BootInfoCache wraps")
    j = s.index("// isStale applies")
    kinds = [("BootInfo", "bootInfo", "GetBootloader", "BootInfoCache.Update() - Updating boot info cache"), ("Bypass", "bypass", "GetBypass", "BypassCache.Update() - Updating bypass cache"),
             ("Temps", "temp", "GetTemperatures", "TempCache.Update() - Updating temperature cache"), ("Fans", "fan", "GetFans", "FanCache.Update() - Updating fan cache"),
             ("FanProfiles", "fanProfiles", "GetFanProfiles", "FanProfilesCache.Update() - Updating fan profiles cache"), ("Errors", "errors", "GetErrors", "Errors.Update() - Updating errors cache")]
    out = '''package comfoserver

import (
	"errors"
	"io"
	"log/slog"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ti-mo/comfo/libcomfo"
)

// flushRequest asks the worker to refresh a cache.
type flushRequest struct {
	cache CacheType
	reply chan<- bool
}

var (
	comfoConn io.ReadWriteCloser

	flushRequests = make(chan flushRequest)
'''
    for k, v, g, m in kinds:
        out += "\t%sCache = newCache(\"%s\", func() (libcomfo.%s, error) { return libcomfo.%s(comfoConn) })\n" % (v, m, k, g)
    out += ''')

// cache keeps the last value read from the unit.
type cache[T any] struct {
	what  string
	fetch func() (T, error)

	// One refresh at a time
	refresh sync.Mutex
	updated time.Time

	value atomic.Pointer[T]
}

func newCache[T any](what string, fetch func() (T, error)) *cache[T] {
	c := &cache[T]{what: what, fetch: fetch}
	c.value.Store(new(T))
	return c
}

// get waits for any refresh under way and returns a copy of the value.
func (c *cache[T]) get() T {
	c.refresh.Lock()
	defer c.refresh.Unlock()

	return *c.value.Load()
}

// Update refreshes the value, if forced to or due.
// It returns an error if the data couldn't be obtained from the unit.
func (c *cache[T]) Update(force bool) error {
	c.refresh.Lock()
	defer c.refresh.Unlock()

	begin := time.Now()
	if !(force || isStale(c.updated, begin)) {
		return nil
	}

	v, err := c.fetch()
	if err != nil {
		slog.Error(c.what, "error", err)
		return err
	}

	c.value.Store(&v)
	c.updated = begin

	return nil
}

type updater interface{ Update(force bool) error }

// UpdateCaches is a macro method to update all data caches of the unit.
// This is run at startup and must populate fields that are not meant to be
// refreshed continuously (eg. BootInfo).
func UpdateCaches(force bool) error {
	return update(force, bootInfoCache, bypassCache, tempCache, fanCache, fanProfilesCache, errorsCache)
}

// update updates several caches, all of them even if some fail.
func update(force bool, caches ...updater) (err error) {
	for _, c := range caches {
		err = errors.Join(err, c.Update(force))
	}
	return err
}

// flush refreshes what a client asked for.
func flush(t CacheType) bool {
	byType := map[CacheType]updater{
		BootInfo: bootInfoCache,
		Bypass:   bypassCache,
		Fans:     fanCache,
		Temps:    tempCache,
		Profiles: fanProfilesCache,
	}
	if c := byType[t]; c != nil {
		return c.Update(true) == nil
	}
	return t == All && UpdateCaches(true) == nil
}

// reached polls the unit until its fans have the speed of a level, `count` times at most.
func reached(count int, level uint8) error {
	profiles := fanProfilesCache.get()

	inPct, outPct, err := profiles.Lookup(level)
	if err != nil {
		return err
	}

	for range count {
		fanCache.Update(true)

		fans := fanCache.get()
		if fans.InPercent == inPct && fans.OutPercent == outPct {
			return nil
		}

		// On my unit, fetching speed readings can take hundreds of ms,
		// so be gentle in trying to obtain updates.
		<-time.After(500 * time.Millisecond)
	}

	return errSetPollFailed
}

'''
    t.write(f, out + s[j:])
    # protobuf.go
    f = "comfoserver/protobuf.go"
    s = t.read(f)
    import re
    for typ, v in (("BootInfoCache", "BootInfo"), ("BypassCache", "Bypass"), ("TempCache", "Temps"), ("FanCache", "Fans"), ("FanProfilesCache", "FanProfiles"), ("ErrorsCache", "Errors")):
        s, n = re.subn(r"func \((\w+) \*%s\) Protobuf\(\) (\([^)]*\)|\*rpc\.\w+) \{\n\n\t\w+\.CacheLock\.R?Lock\(\)\n\tdefer \w+\.CacheLock\.R?Unlock\(\)\n\n" % typ,
                       lambda m: "func pb%s(%s libcomfo.%s) %s {\n\n" % (v, m.group(1), v, m.group(2)), s)
        if n != 1:
            sys.exit("%s: %d" % (typ, n))
    s = s.replace('	rpc "github.com/ti-mo/comfo/rpc/comfo"', '	"github.com/ti-mo/comfo/libcomfo"\n	rpc "github.com/ti-mo/comfo/rpc/comfo"')
    t.write(f, s)
    # server.go
    f = "comfoserver/server.go"
    s = t.read(f)
    for k, v, g, m in kinds:
        s = s.replace("return %sCache.Protobuf(), nil" % v, "return pb%s(%sCache.get()), nil" % (k, v))
    s = s.replace("fanCache.UpdatePoll(10, uint8(tgtSpeed))", "reached(10, tgtSpeed)")
    a = s.index("	// Feed the 'cache' URI")
    s = s[:a] + '''	reply := make(chan bool, 1)
	flushRequests <- flushRequest{fcr.GetCache(), reply}

	resp := new(rpc.FlushCacheResponse)
	resp.Success = <-reply
	resp.ReqTime = time.Since(start).String()

	return resp, nil
}
'''
    t.write(f, s)
    f = "comfoserver/timers.go"
    t.rep(f, ("		case c := <-flushCache:\n			FlushCaches(c)", "		case r := <-flushRequests:\n			r.reply <- flush(r.cache)"))


@tree
def setters(t):
    """comfoserver: the setters on common helpers, tables instead of switches, a worker of its own type."""
    f = "comfoserver/server.go"
    t.rep(f, ('''	targetTemp := uint8(ct.ComfortTemp)

	// Detect truncation
	if ct.ComfortTemp > math.MaxUint8 {
		return nil, twirp.InvalidArgumentError("ComfortTemp", "is too large")
	}
''', '''	targetTemp := uint8(ct.ComfortTemp)
'''), ('''	var err error
	var modified bool

	// Lock the temperature mutex before reading from the cache
	tempLock.Lock()
	defer tempLock.Unlock()
''', '''	if err := fits(map[string]uint32{"ComfortTemp": ct.GetComfortTemp()}); err != nil {
		return nil, err
	}

	var modified bool

	// Lock the temperature mutex before reading from the cache
	tempLock.Lock()
	defer tempLock.Unlock()
'''), ('''	if uint8(origTemp) != targetTemp {

		err = libcomfo.SetComfort(targetTemp, comfoConn)
		if err != nil {
			// The unit may have changed the temperature all the same
			tempCache.Update(true)
			return nil, twirp.InternalError(err.Error())
		}

		// Flush the temperature cache after a successful update.
		// New comfort temperature value is immediately reflected in a query.
		tempCache.Update(true)

		modified = true
	}
''', '''	if modified = uint8(origTemp) != targetTemp; modified {
		err := libcomfo.SetComfort(targetTemp, comfoConn)

		// The new comfort temperature is immediately reflected in a query,
		// the unit may have it even if the change failed.
		tempCache.Update(true)

		if err != nil {
			return nil, twirp.InternalErrorWith(err)
		}
	}
'''), ('''	// Get original fan speed of selected mode into origSpeed
	fanProfiles := fanProfilesCache.get()
	switch mode {
	case 0:
		origSpeed = fanProfiles.InAway
	case 1:
		origSpeed = fanProfiles.InLow
	case 2:
		origSpeed = fanProfiles.InMid
	case 3:
		origSpeed = fanProfiles.InHigh
	default:
		panic(fmt.Sprintf("unknown fan profile %d", mode))
	}

	// The unit's in and out fans can be configured separately. Lookup starts at 1.
	_, origOut, err := fanProfiles.Lookup(mode + 1)
''', '''	// The unit's in and out fans can be configured separately. Lookup starts at 1.
	fanProfiles := fanProfilesCache.get()
	origSpeed, origOut, err := fanProfiles.Lookup(mode + 1)
'''), ('''	var modified bool
	var origSpeed uint8

''', '''	var modified bool

'''), ('''	// Detect truncation
	if fpt.GetMode() > math.MaxUint8 {
		return nil, twirp.InvalidArgumentError("Mode", "is too large")
	}
	if fpt.GetTargetSpeed() > math.MaxUint8 {
		return nil, twirp.InvalidArgumentError("TargetSpeed", "is too large")
	}
''', '''	if err := fits(map[string]uint32{"Mode": fpt.GetMode(), "TargetSpeed": fpt.GetTargetSpeed()}); err != nil {
		return nil, err
	}
'''), ('''	// Only send actions to the unit if speed needs to be modified
	if uint8(tgtSpeed) != origSpeed {

		// Send target speed to the unit
		err = libcomfo.SetSpeed(uint8(tgtSpeed), comfoConn)
		if err != nil {
			// The unit may have changed its speed all the same
			fanProfilesCache.Update(true)
			return nil, twirp.InternalError(err.Error())
		}

		// Poll the unit for the target speed
		err = fanCache.UpdatePoll(10, uint8(tgtSpeed))

		// Flush the fanProfilesCache when values have converged. If they haven't,
		// the speed was changed on the unit nonetheless.
		fanProfilesCache.Update(true)

		if err != nil {
			return nil, twirp.InternalError(err.Error())
		}

		// Set modified flag
		modified = true
	}
''', '''	// Only send actions to the unit if speed needs to be modified
	if modified = tgtSpeed != origSpeed; modified {
		if err := changeSpeed(tgtSpeed); err != nil {
			return nil, twirp.InternalErrorWith(err)
		}
	}
'''), ('''// SetFanProfile sets the speed of a single mode''', '''// changeSpeed makes the unit change its speed and waits for its fans.
func changeSpeed(level uint8) (err error) {
	// The unit may have changed its speed even if this fails
	defer func() { fanProfilesCache.Update(true) }()

	if err = libcomfo.SetSpeed(level, comfoConn); err == nil {
		err = fanCache.UpdatePoll(10, level)
	}
	return err
}

// fits checks that values fit in a byte.
func fits(values map[string]uint32) error {
	for name, v := range values {
		if v > math.MaxUint8 {
			return twirp.InvalidArgumentError(name, "is too large")
		}
	}
	return nil
}

// SetFanProfile sets the speed of a single mode'''))
    s = t.read(f)
    a = s.index("func (s *Server) SetFanSpeed")
    b = s.index("// Lock the fan speed mutex", a)
    s = s[:a] + s[a:b].replace("	var err error\n	var modified bool\n", "	var modified bool\n") + s[b:]
    t.write(f, s)
    t.between("comfoserver/helpers.go", "	// Unit has 5 speed settings", None, '''	const lowest, highest = 1, 4

	switch {
	case target.Abs != 0 && target.Rel:
		return 0, twirp.InvalidArgumentError("Abs/Rel", errBothAbsRel.Error())
	case target.Abs > math.MaxUint8:
		return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", target.Abs))
	}

	next := int(baseSpeed) - 1
	if target.Abs != 0 {
		next = int(target.Abs)
	} else if target.Rel {
		next += 2
	}

	if next < lowest || next > highest {
		return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", next))
	}

	return uint8(next), nil
}
''')
    t.between("comfoserver/timers.go", "	// Initialize both cache timers", None, '''	w := worker{
		fast:    time.NewTicker(fastCacheStale),
		slow:    time.NewTicker(slowCacheStale),
		glacial: time.NewTicker(glacialCacheStale),
	}

	var ready sync.WaitGroup
	ready.Add(1)
	go func() {
		ready.Done()
		for {
			w.step()
		}
	}()
	ready.Wait()

	slog.Info("Cache worker started")
}

// worker is responsible for keeping the application
// caches up-to-date and making sure only one operation
// is being executed at a time.
type worker struct {
	fast, slow, glacial *time.Ticker
}

func (w *worker) step() {
	var due []func(bool) error

	select {
	case c := <-flushCache:
		FlushCaches(c)
	case <-w.fast.C:
		due = append(due, tempCache.Update, fanCache.Update)
	case <-w.slow.C:
		due = append(due, fanProfilesCache.Update, bypassCache.Update)
	case <-w.glacial.C:
		due = append(due, bootInfoCache.Update, errorsCache.Update)
	}

	for _, update := range due {
		update(false)
	}
}
''')
    t.rep("comfoserver/timers.go", ('''	// 'Fast' cache to be refreshed every 5 seconds.
	fastCacheTimer time.Ticker
''', '''	// 'Fast' cache to be refreshed every 5 seconds.
'''), ("	slowCacheTimer time.Ticker\n", ""), ("	glacialCacheTimer time.Ticker\n", ""), ('	"log/slog"\n', '	"log/slog"\n	"sync"\n'))


@tree
def program(t):
    """The program: its own listener, plain http.ServeMux, a table of connection modes."""
    t.rep("comfo.go", ('''	if err := srv.ListenAndServe(); err != nil {
		slog.Error("ListenAndServe", "error", err)
		os.Exit(1)
	}
''', '''	ln, err := net.Listen("tcp", srv.Addr)
	if err == nil {
		err = srv.Serve(ln)
	}
	slog.Error("ListenAndServe", "error", err)
	os.Exit(1)
'''))
    s = t.read("comfo.go")
    i = s.index("// ConnectUnit sets up")
    s = s[:i] + '''// modes are the ways to connect to the unit.
var modes = map[string]struct {
	open                   func(string) (io.ReadWriteCloser, error)
	before, after, failure string
}{
	"tcp": {
		open:    func(a string) (io.ReadWriteCloser, error) { return net.Dial("tcp", a) },
		before:  "Connecting to the unit over tcp",
		after:   "Connection established!",
		failure: "unable to dial the unit",
	},
	"serial": {
		open: func(a string) (io.ReadWriteCloser, error) {
			return serial.OpenPort(&serial.Config{Name: a, Baud: 9600})
		},
		before:  "Opening serial device",
		after:   "Opened device",
		failure: "unable to open serial device",
	},
}

// ConnectUnit sets up a connection to the unit over TCP or Serial.
func ConnectUnit(mode string, unit string) (io.ReadWriteCloser, error) {
	m, ok := modes[mode]
	if !ok {
		return nil, fmt.Errorf("unsupported unit mode %s", mode)
	}

	slog.Info(m.before, "unit", unit)

	conn, err := m.open(unit)
	if err != nil {
		return nil, fmt.Errorf("%s at %s: %w", m.failure, unit, err)
	}

	slog.Info(m.after, "unit", unit)

	return conn, nil
}
'''
    t.write("comfo.go", s)
    t.rep("config.go", ('''	pflag.Parse()
	if err := viper.BindPFlags(pflag.CommandLine); err != nil {
		panic(err)
	}
''', '''	pflag.Parse()
	pflag.VisitAll(func(f *pflag.Flag) {
		if err := viper.BindPFlag(f.Name, f); err != nil {
			panic(err)
		}
	})
'''))
    t.rep("logger.go", ('''		start := time.Now()

		inner.ServeHTTP(w, r)

		slog.Debug("Request",
			slog.String("method", r.Method),
			slog.String("URI", r.RequestURI),
			slog.String("route", name),
			slog.Duration("duration", time.Since(start)),
		)
''', '''		defer func(start time.Time) {
			slog.LogAttrs(r.Context(), slog.LevelDebug, "Request",
				slog.String("method", r.Method),
				slog.String("URI", r.RequestURI),
				slog.String("route", name),
				slog.Duration("duration", time.Since(start)))
		}(time.Now())

		inner.ServeHTTP(w, r)
'''))
    t.rep("routes.go", ('''	// Add Twirp handler
	server := &comfoserver.Server{}
	twirpHandler := rpc.NewComfoServer(server, nil)
	router.PathPrefix(rpc.ComfoPathPrefix).Handler(Logger(twirpHandler, "twirp"))
''', '''	// Add Twirp handler
	api := rpc.NewComfoServer(new(comfoserver.Server), nil)
	router.PathPrefix(api.PathPrefix()).Handler(Logger(http.HandlerFunc(api.ServeHTTP), "twirp"))
'''))


@tree
def python(t):
    """The Python client: common helpers, executors by functools.partial, dataclass-like types."""
    f = "python/comfo/client.py"
    s = t.read(f)
    for m in ("BootInfo", "Bypass", "Temps", "Fans", "FanProfiles", "Errors"):
        a = '''        return %s(
            self.twirp.Get%s(
                ctx=Context(),
                request=comfo_pb2.Noop(),
            )
        )
''' % (m, m)
        assert a in s, m
        s = s.replace(a, '''        return self._get(%s)
''' % m)
    for m in ("increase", "decrease"):
        rel = {"increase": "True", "decrease": "False"}[m]
        i = s.index("        try:\n", s.index("def %s_fan_speed" % m))
        j = s.index("    async def", i)
        s = s[:i] + "        return self._step(up=%s)\n\n" % rel + s[j:]
    s = s.replace("self.loop.run_in_executor(", "self._run(").replace("self._run(None, ", "self._run(").replace("self._run(\n            None,\n", "self._run(\n")
    i = s.index("    def ping(self)")
    s = s[:i] + '''    def _run(self, call):
        """Run a blocking call in the loop's default executor."""
        return self.loop.run_in_executor(None, call)

    def _get(self, kind):
        """Query one kind of readings."""
        rpc = getattr(self.twirp, f"Get{kind.__name__}")
        return kind(rpc(ctx=Context(), request=comfo_pb2.Noop()))

    def _step(self, up) -> bool:
        """Step the fan speed, False if there is no such level."""
        target = comfo_pb2.FanSpeedTarget()
        target.Rel = up
        try:
            answer = self.twirp.SetFanSpeed(ctx=Context(), request=target)
        except TwirpServerException as e:
            # The fan duty went out of bounds and wasn't modified.
            if e.code != TwirpErrors.InvalidArgument:
                raise
            return False
        return answer.Modified

''' + s[i:]
    t.write(f, s)
    f = "python/comfo/types.py"
    s = t.read(f)
    import re
    parts = re.split(r"(?m)^(?=class )", s)
    out = [parts[0], '''class ComfoMessage:
    """Mixin for protobuf wrappers in this package."""

    FIELDS = ()

    def __init__(self, pb):
        """Copy the protobuf's values to instance variables."""
        for name in self.FIELDS:
            setattr(self, name, getattr(pb, name))

    def __repr__(self):
        """Print the object as a dict."""
        return pformat(vars(self), sort_dicts=False)


''']
    for p in parts[2:]:
        fields = re.findall(r"self\.(\w+) = pb\.\w+", p)
        i = p.index("    def __init__")
        out.append(p[:i] + "    FIELDS = (\n%s    )\n\n\n" % "".join('        "%s",\n' % x for x in fields))
    t.write(f, "".join(out).rstrip("\n") + "\n")


def main():
    for name in sys.argv[1:] or TREES:
        d = tempfile.mkdtemp(prefix="refactor-")
        try:
            r = os.path.join(d, "r")
            subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
            TREES[name](Tree(r))
            env = ". /opt/vp/env.sh; gofmt -l libcomfo comfoserver *.go; gofmt -w libcomfo comfoserver *.go; "
            p = subprocess.run(["bash", "-c", env + "go build -o /dev/null . && go vet ./... && go test -count=1 ./... && python3 -m py_compile python/comfo/*.py"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(name, p.returncode, p.stdout if p.returncode else "")
            o = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
            open(os.path.join(HERE, name + ".patch"), "w").write(o)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
