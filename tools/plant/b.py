from mk import make
L='github.com/ti-mo/comfo/libcomfo'
S='github.com/ti-mo/comfo/comfoserver'
R='rpc "github.com/ti-mo/comfo/rpc/comfo"'
IMP='''context
testing
time
%s
%s
---
var bg = context.Background()

var _ = time.Second
''' % (S, R)

make("c12-reused-message","C12","a reading that a client still holds while the next one is taken",
"The answers share one message that is filled anew for every call, so an answer under way is mixed with the next reading.",
[("comfoserver/protobuf.go",'''	t.CacheLock.Lock()
	defer t.CacheLock.Unlock()

	return &rpc.Temps{
		Comfort:     float32(t.Comfort),
		OutsideAir:  float32(t.OutsideAir),
		SupplyAir:   float32(t.SupplyAir),
		InsideAir:   float32(t.InsideAir),
		ExhaustAir:  float32(t.ExhaustAir),
		GeoHeat:     float32(t.GeoHeat),
		Reheating:   float32(t.Reheating),
		KitchenHood: float32(t.KitchenHood),
	}
''','''	t.CacheLock.Lock()
	defer t.CacheLock.Unlock()

	// Fetched every few seconds by most clients, don't allocate every time
	pb = &tempsPB
	pb.Comfort = float32(t.Comfort)
	pb.OutsideAir = float32(t.OutsideAir)
	pb.SupplyAir = float32(t.SupplyAir)
	pb.InsideAir = float32(t.InsideAir)
	pb.ExhaustAir = float32(t.ExhaustAir)
	pb.GeoHeat = float32(t.GeoHeat)
	pb.Reheating = float32(t.Reheating)
	pb.KitchenHood = float32(t.KitchenHood)

	return pb
'''),("comfoserver/protobuf.go",'''// Protobuf takes out a lock on the TempCache and''','''var tempsPB rpc.Temps

// Protobuf takes out a lock on the TempCache and''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	a, _ := s.GetTemps(bg, &rpc.Noop{})
	was := a.GetOutsideAir()
	u.do(func() { u.Temps[1] = 90 })
	s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Temps})
	s.GetTemps(bg, &rpc.Noop{})
	if a.GetOutsideAir() != was {
		t.Fatalf("the answer said %v, now it says %v", was, a.GetOutsideAir())
	}
}
''',pkg="comfoserver")

make("c12-zero-on-error","C12","a refresh of the bypass reading that fails after one that succeeded",
"The result is stored before the error is looked at, so a failed refresh replaces the last known reading by zeroes.",
[("comfoserver/caches.go",'''	if gb, err := libcomfo.GetBypass(comfoConn); err == nil {
		bc.Bypass = gb
		bc.LastUpdated = now
	} else {
		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
		return err
	}

	return nil''','''	var err error
	if bc.Bypass, err = libcomfo.GetBypass(comfoConn); err != nil {
		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
		return err
	}
	bc.LastUpdated = now

	return nil''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() {
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) { return nil, cmd == 0xDF }
	})
	s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Bypass})
	a, err := s.GetBypass(bg, &rpc.Noop{})
	if err != nil || a.GetFactor() != 1 || a.GetLevel() != 2 || a.GetCorrection() != 3 || !a.GetSummerMode() {
		t.Fatalf("reading after a failed refresh: %v, %v", a, err)
	}
}
''',pkg="comfoserver")

make("c13-one-fan","C13","a change of speed on which one fan reaches its duty and the other never does",
"The change is reported as done although one of the fans has not followed.",
[("comfoserver/caches.go",'''		fanCache.Update(true)

		// Return when target''','''		fanCache.Update(true)

		// The outgoing fan follows the incoming one
		if fans := fanCache.get(); i > 0 && fans.InPercent == inPct {
			outPct = fans.OutPercent
		}

		// Return when target''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Ramp = time.Hour
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() { u.Fans[0] = u.Prof[5] })
	r, err := s.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: 3})
	if err == nil {
		t.Fatalf("%v, but the outgoing fan is at %d%%", r, u.Fans[1])
	}
}
''',pkg="comfoserver")

make("c14-stale-after","C14","a profile change within a few seconds of the last refresh of the profiles",
"The profiles are not read again after the change if the reading is young, so the server goes on reporting the old ones.",
[("comfoserver/server.go",'''		// Flush the fanProfilesCache when values have converged
		fanProfilesCache.Update(true)

		// Set modified result''','''		// Refresh the fanProfilesCache when values have converged
		fanProfilesCache.Update(false)

		// Set modified result''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	if _, err := s.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: 3, TargetSpeed: 77}); err != nil {
		t.Fatal(err)
	}
	p, err := s.GetFanProfiles(bg, &rpc.Noop{})
	if err != nil || p.GetInMid() != 77 || p.GetOutMid() != 77 {
		t.Fatalf("%v, %v; the unit has %d/%d", p, err, u.Prof[5], u.Prof[2])
	}
}
''',pkg="comfoserver")

make("c15-retry","C15","a unit that carries out the request but whose acknowledgement is lost once",
"The request is sent again, several times over, where exactly one was asked for.",
[("comfoserver/server.go",'''		err = libcomfo.SetComfort(targetTemp, comfoConn)
		if err != nil {
			return nil, twirp.InternalError(err.Error())
		}
''','''		// The line is not reliable, give it a few tries
		for i := 0; i < 3; i++ {
			if err = libcomfo.SetComfort(targetTemp, comfoConn); err == nil {
				break
			}
		}
		if err != nil {
			return nil, twirp.InternalError(err.Error())
		}
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	n := 0
	u.do(func() {
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			if cmd == 0xD3 {
				n++
			}
			return nil, cmd == 0xD3 && n == 1
		}
	})
	r, err := s.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: 24})
	if l := u.log(true); len(l) != 1 {
		t.Fatalf("%v, %v; the unit saw %v", r, err, l)
	}
}
''',pkg="comfoserver")

make("c17-abandoned-flush","C17","a client that goes away while its flush is under way, and the next flush or refresh",
"The worker waits forever to hand over the result that nobody takes any more; no reading is refreshed from then on.",
[("comfoserver/server.go",'''	// Feed the 'cache' URI parameter to the flush worker
	flushCache <- fcr.Cache

	// Build response
	return &rpc.FlushCacheResponse{
		Success: <-flushSuccess,
		ReqTime: fmt.Sprint(time.Since(start)),
	}, nil''','''	// Feed the 'cache' URI parameter to the flush worker
	flushCache <- fcr.Cache

	// Don't keep the connection of a client that has left
	var success bool
	select {
	case success = <-flushSuccess:
	case <-ctx.Done():
		return nil, twirp.NewError(twirp.Canceled, ctx.Err().Error())
	}

	// Build response
	return &rpc.FlushCacheResponse{
		Success: success,
		ReqTime: fmt.Sprint(time.Since(start)),
	}, nil''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
		return []piece{{100 * time.Millisecond, def}}, true
	}
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	ctx, cancel := context.WithTimeout(bg, 20*time.Millisecond)
	defer cancel()
	s.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: comfoserver.Fans})
	if err := within(15*time.Second, func() {
		r, err := s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Fans})
		if err != nil || !r.GetSuccess() {
			t.Errorf("next flush: %v, %v", r, err)
		}
	}); err != nil {
		t.Fatal("next flush: ", err)
	}
}
''',pkg="comfoserver")

make("c17-lock-order","C17","a change of the fan speed and one of the comfort temperature at the same time, each at the right point",
"The two take the fan and temperature locks in opposite orders and wait for each other forever.",
[("comfoserver/server.go",'''	// Lock the temperature mutex before reading from the cache
	tempLock.Lock()
	defer tempLock.Unlock()
''','''	// Lock the temperature mutex before reading from the cache
	tempLock.Lock()
	defer tempLock.Unlock()

	// The unit ignores temperature changes while its fans change speed
	fanLock.Lock()
	defer fanLock.Unlock()
'''),("comfoserver/server.go",'''	// Only send actions to the unit if speed needs to be modified
	if uint8(tgtSpeed) != origSpeed {
''','''	// Only send actions to the unit if speed needs to be modified
	if uint8(tgtSpeed) != origSpeed {

		// Don't change the temperature meanwhile
		tempLock.Lock()
		defer tempLock.Unlock()
''')],'''sync
'''+IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	if err := within(90*time.Second, func() {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				s.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: uint32(2 + i%2)})
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				s.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: uint32(20 + i%2)})
			}
		}()
		wg.Wait()
	}); err != nil {
		t.Fatal("calls at the same time: ", err)
	}
}
''',pkg="comfoserver")

make("c18-mixed-results","C18","two flushes at the same time of which one fails",
"The worker no longer waits for a flush to end, so that the results reach the wrong callers.",
[("comfoserver/timers.go",'''			FlushCaches(c)
''','''			// Don't hold up the timers
			go FlushCaches(c)
''')],'''sync
'''+IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() {
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			if cmd == 0xDF {
				return []piece{{20 * time.Millisecond, []byte{7, 0xF3, 7, 0xF0, 0, 0xE0, 0, 0, 7, 0x0F}}}, true
			}
			return []piece{{20 * time.Millisecond, def}}, true
		}
	})
	var wg sync.WaitGroup
	var all, fans bool
	wg.Add(2)
	go func() {
		defer wg.Done()
		r, _ := s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.All})
		all = r.GetSuccess()
	}()
	go func() {
		defer wg.Done()
		time.Sleep(10 * time.Millisecond)
		r, _ := s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Fans})
		fans = r.GetSuccess()
	}()
	wg.Wait()
	if all {
		t.Error("flushing everything, of which the bypass cannot be read, succeeded")
	}
	if !fans {
		t.Error("flushing the fans, which can be read, failed")
	}
}
''',pkg="comfoserver")

make("c19-starved-timer","C19","a client that flushes some cache every few seconds",
"Each flush puts off the refresh of temperatures and fans by five seconds, so they are never refreshed.",
[("comfoserver/timers.go",'''			FlushCaches(c)
''','''			FlushCaches(c)
			// The unit was kept busy, leave it alone for a while
			fastCacheTimer.Reset(fastCacheStale)
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() { u.Temps[1] = 90 })
	for i := 0; i < 7; i++ {
		time.Sleep(2 * time.Second)
		s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.BootInfo})
	}
	if r, err := s.GetTemps(bg, &rpc.Noop{}); err != nil || r.GetOutsideAir() != 25 {
		t.Fatalf("after 14 seconds: %v, %v", r, err)
	}
}
''',pkg="comfoserver")

make("c20-bypass-race","C20","a client reading the bypass while it is refreshed",
"The lock is released before the fields are read.",
[("comfoserver/protobuf.go",'''func (b *BypassCache) Protobuf() (pb *rpc.Bypass) {

	b.CacheLock.Lock()
	defer b.CacheLock.Unlock()

	return &rpc.Bypass{
		Correction: uint32(b.Correction),
		Factor:     uint32(b.Factor),
		Level:      uint32(b.Level),
		SummerMode: bool(b.SummerMode),
	}''','''func (b *BypassCache) Protobuf() (pb *rpc.Bypass) {

	b.CacheLock.Lock()
	by := &b.Bypass
	b.CacheLock.Unlock()

	return &rpc.Bypass{
		Correction: uint32(by.Correction),
		Factor:     uint32(by.Factor),
		Level:      uint32(by.Level),
		SummerMode: bool(by.SummerMode),
	}''')],'''sync
'''+IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Bypass})
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			s.GetBypass(bg, &rpc.Noop{})
		}
	}()
	wg.Wait()
}
''',pkg="comfoserver",race=True)
