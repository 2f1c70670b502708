from mk import make
from b import IMP
CA, SV, PB = "comfoserver/caches.go", "comfoserver/server.go", "comfoserver/protobuf.go"
SYNC = IMP.replace("testing\n", "testing\nsync\nstrings\n")

# Two changes start while the unit is busy with a third.
THREE = '''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() {
		u.Log = nil
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			return []piece{{100 * time.Millisecond, def}}, true
		}
	})
	var wg sync.WaitGroup
	start := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := f(); err != nil {
				t.Error(err)
			}
		}()
	}
	start(FIRST)
	for sent := false; !sent; time.Sleep(5 * time.Millisecond) {
		u.do(func() { sent = strings.Contains(strings.Join(u.Log, "|"), "SENT") })
	}
	for i := range 2 {
		start(THEN)
		time.Sleep(20 * time.Millisecond)
	}
	wg.Wait()
LAST}
'''

def three(first, sent, then, last):
    return SYNC + THREE.replace("FIRST", first).replace("SENT", sent).replace("THEN", then).replace("LAST", last)

make("c16-late-lock","C16","two steps of the fan speed while a third change is under way",
"The level the step starts from is read before the lock is taken, so two steps up can end one level up, both reported as changes.",
[(SV,'''	// Lock the fan speed mutex before reading from the cache
	fanLock.Lock()
	defer fanLock.Unlock()

	// The speed and profiles may have been changed on the unit's own panel
	fanProfilesCache.Update(true)

	// Initialize speed values
''','''	// The speed and profiles may have been changed on the unit's own panel
	fanProfilesCache.Update(true)

	// Initialize speed values
'''),(SV,'''	tgtSpeed, err := modifySpeed(origSpeed, fst)
	if err != nil {
		return nil, err
	}
''','''	tgtSpeed, err := modifySpeed(origSpeed, fst)
	if err != nil {
		return nil, err
	}

	// Lock the fan speed mutex, invalid requests need not wait for it
	fanLock.Lock()
	defer fanLock.Unlock()
''')],three('''func() error {
		_, err := s.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: 1})
		return err
	}''', "99 01", '''func() error {
			_, err := s.SetFanSpeed(bg, &rpc.FanSpeedTarget{Rel: true})
			_ = i
			return err
		}''', '''	u.do(func() {
		if u.Prof[8] != 3 {
			t.Errorf("two steps up from 1 lead to %d", u.Prof[8])
		}
	})
'''),pkg="comfoserver")

make("c16-early-read","C16","two changes of the comfort temperature while a third is under way",
"The temperature that a change is compared with is read before waiting for the change under way.",
[(SV,'''	// Lock the temperature mutex before reading from the cache
	tempLock.Lock()
	defer tempLock.Unlock()

	targetTemp''','''	targetTemp'''),(SV,'''	origTemp := tempCache.get().Comfort

''','''	origTemp := tempCache.get().Comfort

	// Lock the temperature mutex before changing the temperature
	tempLock.Lock()
	defer tempLock.Unlock()

''')],three('''func() error {
		_, err := s.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: 30})
		return err
	}''', "d3 64", '''func() (err error) {
			res[i], err = s.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: 25})
			return err
		}''', '''	if res[0].GetModified() == res[1].GetModified() {
		t.Errorf("%v and %v", res[0], res[1])
	}
''').replace("	var wg sync", "	var res [2]*rpc.ComfortModified\n	var wg sync"),pkg="comfoserver")

make("c18-join","C18","a flush of the fan profiles while they are being refreshed for a client's change, and the unit does not answer",
"A refresh that finds another one under way waits for that and counts as done, whether or not the other one was answered.",
[(CA,'''func (fpc *FanProfilesCache) Update(force bool) error {

	// Lock the cache object
	fpc.CacheLock.Lock()
	defer fpc.CacheLock.Unlock()
''','''func (fpc *FanProfilesCache) Update(force bool) error {

	// Lock the cache object. If it's being updated already, there's no need to do so again.
	if !fpc.CacheLock.TryLock() {
		fpc.CacheLock.Lock()
		fpc.CacheLock.Unlock()
		return nil
	}
	defer fpc.CacheLock.Unlock()
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() {
		u.Log = nil
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			return nil, cmd == 0xCD
		}
	})
	go s.SetFanProfile(bg, &rpc.FanProfileTarget{Mode: 2, TargetSpeed: 36})
	for sent := false; !sent; time.Sleep(5 * time.Millisecond) {
		u.do(func() { sent = len(u.Log) > 0 })
	}
	r, err := s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Profiles})
	if err == nil && r.GetSuccess() {
		t.Error("success, although the unit has not said anything")
	}
}
''',pkg="comfoserver")

make("c12-busy-copy","C12","readings asked for during a refresh, when nobody has asked since the refresh before",
"While a refresh is under way clients get what was last told to a client, not what was last read from the unit.",
[(PB,'''func (t *TempCache) Protobuf() (pb *rpc.Temps) {

	t.CacheLock.Lock()
	defer t.CacheLock.Unlock()
''','''var (
	lastLock  sync.Mutex
	lastTemps *rpc.Temps
)

func (t *TempCache) Protobuf() (pb *rpc.Temps) {

	lastLock.Lock()
	defer lastLock.Unlock()

	// Don't make clients wait for a refresh
	if lastTemps == nil {
		t.CacheLock.Lock()
	} else if !t.CacheLock.TryLock() {
		return proto.Clone(lastTemps).(*rpc.Temps)
	}
	defer t.CacheLock.Unlock()
	defer func() { lastTemps = proto.Clone(pb).(*rpc.Temps) }()
'''),(PB,'''import (
''','''import (
	"sync"

	"google.golang.org/protobuf/proto"

''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	if _, err := s.GetTemps(bg, &rpc.Noop{}); err != nil {
		t.Fatal(err)
	}
	u.do(func() { u.Temps[1] = 90 })
	if r, err := s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Temps}); err != nil || !r.Success {
		t.Fatal(r, err)
	}
	u.do(func() {
		u.Log = nil
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			return []piece{{300 * time.Millisecond, def}}, true
		}
	})
	go s.FlushCache(bg, &rpc.FlushCacheRequest{Cache: comfoserver.Temps})
	for sent := false; !sent; time.Sleep(5 * time.Millisecond) {
		u.do(func() { sent = len(u.Log) > 0 })
	}
	if r, err := s.GetTemps(bg, &rpc.Noop{}); err != nil || r.OutsideAir != 25 {
		t.Errorf("after a refresh that has read 25 degrees: %v, %v", r, err)
	}
}
''',pkg="comfoserver")

make("c13-early-check","C13","a speed that the fans had at the last refresh, and have left on the unit's own panel since, with fans that take long",
"The speed is taken for reached by the reading made before the change.",
[(CA,'''		fanCache.Update(true)

		// Return when target''','''		// Return when target'''),(CA,'''		time.Sleep(time.Millisecond * 500)
''','''		time.Sleep(time.Millisecond * 500)
		fanCache.Update(true)
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() {
		u.Prof[8] = 3
		u.Fans[0], u.Fans[1] = u.Prof[5], u.Prof[2]
		u.Ramp = time.Minute
	})
	if r, err := s.SetFanSpeed(bg, &rpc.FanSpeedTarget{Abs: 2}); err == nil {
		t.Errorf("%v, while the fans still have the speed they had", r)
	}
}
''',pkg="comfoserver")

make("c15-assume","C15","a unit that acknowledges a comfort temperature and keeps its own",
"After a change, the reading is what was asked for, not what the unit says.",
[(SV,'''		// New comfort temperature value is immediately reflected in a query.
		tempCache.Update(true)
''','''		// New comfort temperature value is immediately reflected in a query.
		tempCache.CacheLock.Lock()
		tempCache.Comfort -= origTemp
		for range targetTemp {
			tempCache.Comfort++
		}
		tempCache.CacheLock.Unlock()
''')],IMP+'''
func TestDemo(t *testing.T) {
	u := newDemoUnit()
	comfoserver.StartCaches(u)
	s := &comfoserver.Server{}
	u.do(func() {
		u.Answer = func(cmd byte, data, def []byte) ([]piece, bool) {
			if cmd == 0xD3 {
				u.Temps[0] = 2 * (22 + 20)
			}
			return nil, false
		}
	})
	if _, err := s.SetComfortTemp(bg, &rpc.ComfortTarget{ComfortTemp: 28}); err != nil {
		return
	}
	if r, err := s.GetTemps(bg, &rpc.Noop{}); err != nil || r.Comfort != 22 {
		t.Errorf("the unit has 22, the reading is %v, %v", r, err)
	}
}
''',pkg="comfoserver")
