// Package litmus holds small programs with known sets of outcomes. They run as they are
// (natively) and rewritten under the controlled runtime, where all schedules are explored:
// the explored outcomes must be exactly those stated, and every native outcome among them.
package litmus

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prog is one program. Its outcome is what it returns, or "deadlock" or "panic".
type Prog struct {
	Name  string
	Steps bool     // plain memory accesses are scheduling points
	Early bool     // timers may fire while goroutines can run
	Want  []string // all outcomes, sorted
	// Own: natively the program may not come to an end or takes the process down; not
	// run natively.
	Own bool
	// Bound of the exploration; 3 if 0.
	Bound int
	Run   func() string
}

const ms = time.Millisecond

var Progs = []Prog{
	{Name: "mutex", Want: []string{"2"}, Steps: true, Run: func() string {
		var m sync.Mutex
		var wg sync.WaitGroup
		n := 0
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				m.Lock()
				defer m.Unlock()
				v := n
				n = v + 1
			}()
		}
		wg.Wait()
		return fmt.Sprint(n)
	}},
	{Name: "lost-update", Own: true, Want: []string{"1", "2"}, Steps: true, Run: func() string {
		var wg sync.WaitGroup
		n := 0
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				v := n
				n = v + 1
			}()
		}
		wg.Wait()
		return fmt.Sprint(n)
	}},
	{Name: "torn-struct", Own: true, Want: []string{"{0 0}", "{0 1}", "{1 0}", "{1 1}"}, Steps: true, Run: func() string {
		type pair struct{ a, b int }
		p := &pair{}
		done := make(chan struct{})
		go func() {
			*p = pair{1, 1}
			close(done)
		}()
		q := pair{p.a, readB(&p.b)}
		<-done
		return fmt.Sprint(q)
	}},
	{Name: "store-buffer", Want: []string{"01", "10", "11"}, Run: func() string {
		var x, y atomic.Int32
		var a, b int32
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); x.Store(1); a = y.Load() }()
		go func() { defer wg.Done(); y.Store(1); b = x.Load() }()
		wg.Wait()
		return fmt.Sprintf("%d%d", a, b)
	}},
	{Name: "message-passing", Want: []string{"no", "yes 42"}, Run: func() string {
		var data int
		var flag int32
		go func() { data = 42; atomic.StoreInt32(&flag, 1) }()
		if atomic.LoadInt32(&flag) == 1 {
			return fmt.Sprint("yes ", data)
		}
		return "no"
	}},
	{Name: "cas", Want: []string{"1 winner"}, Run: func() string {
		var v atomic.Int64
		var won atomic.Int32
		var wg sync.WaitGroup
		for i := int64(1); i <= 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if v.CompareAndSwap(0, i) {
					won.Add(1)
				}
			}()
		}
		wg.Wait()
		return fmt.Sprint(won.Load(), " winner")
	}},
	{Name: "iriw", Want: strings.Fields("0000 0001 0010 0011 0100 0101 0110 0111 1000 1001 1011 1100 1101 1110 1111"), Run: func() string {
		// 1010 (the two readers disagree about the order of the writes) must not happen
		var x, y atomic.Bool
		var r [4]bool
		var wg sync.WaitGroup
		wg.Add(4)
		go func() { defer wg.Done(); x.Store(true) }()
		go func() { defer wg.Done(); y.Store(true) }()
		go func() { defer wg.Done(); r[0] = x.Load(); r[1] = y.Load() }()
		go func() { defer wg.Done(); r[2] = y.Load(); r[3] = x.Load() }()
		wg.Wait()
		s := ""
		for _, b := range r {
			if b {
				s += "1"
			} else {
				s += "0"
			}
		}
		return s
	}},
	{Name: "unbuffered-order", Want: []string{"ab", "ba"}, Run: func() string {
		c := make(chan string)
		go func() { c <- "a" }()
		go func() { c <- "b" }()
		return <-c + <-c
	}},
	{Name: "unbuffered-rendezvous", Want: []string{"received"}, Run: func() string {
		// the sender goes on only after the receiver has taken the value
		c, s := make(chan int), atomic.Bool{}
		go func() { time.Sleep(ms); s.Store(true); <-c }()
		c <- 1
		if s.Load() {
			return "received"
		}
		return "not received"
	}},
	{Name: "buffered", Want: []string{"1 2 3 len 0 cap 2"}, Run: func() string {
		c := make(chan int, 2)
		go func() {
			for i := 1; i <= 3; i++ {
				c <- i
			}
		}()
		return fmt.Sprint(<-c, " ", <-c, " ", <-c, " len ", len(c), " cap ", cap(c))
	}},
	{Name: "two-producers", Want: []string{"1 2 3 4", "1 3 2 4", "1 3 4 2", "3 1 2 4", "3 1 4 2", "3 4 1 2"}, Run: func() string {
		c := make(chan int, 1)
		var wg sync.WaitGroup
		for _, first := range []int{1, 3} {
			wg.Add(1)
			go func() { defer wg.Done(); c <- first; c <- first + 1 }()
		}
		go func() { wg.Wait(); close(c) }()
		var got []string
		for v := range c {
			got = append(got, fmt.Sprint(v))
		}
		return strings.Join(got, " ")
	}},
	{Name: "select-ready", Want: []string{"a", "b"}, Run: func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 1
		select {
		case <-a:
			return "a"
		case <-b:
			return "b"
		}
	}},
	{Name: "select-default", Want: []string{"default", "got 7"}, Run: func() string {
		a := make(chan int)
		go func() { a <- 7 }()
		select {
		case v := <-a:
			return fmt.Sprint("got ", v)
		default:
			return "default"
		}
	}},
	{Name: "select-send-recv", Want: []string{"received 1", "sent"}, Run: func() string {
		a, b := make(chan int), make(chan int)
		go func() { a <- 1 }()
		go func() { <-b }()
		select {
		case b <- 2:
			return "sent"
		case v, ok := <-a:
			if !ok {
				return "closed"
			}
			return fmt.Sprint("received ", v)
		}
	}},
	{Name: "select-nil-case", Want: []string{"b"}, Run: func() string {
		var a chan int
		b := make(chan int, 1)
		b <- 1
		select {
		case a <- 1:
			return "sent to nil"
		case <-a:
			return "received from nil"
		case <-b:
			return "b"
		}
	}},
	{Name: "select-evaluates", Want: []string{"ef9"}, Run: func() string {
		// channel and value expressions of all cases are evaluated once, in source order
		s := ""
		c := make(chan int, 1)
		e := func() chan int { s += "e"; return nil }
		f := func() int { s += "f"; return 9 }
		var dst [2]int
		select {
		case dst[idx(&s)] = <-e():
		case c <- f():
		}
		return s + fmt.Sprint(<-c)
	}},
	{Name: "select-loop", Want: []string{"1 1"}, Run: func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 1
		na, nb := 0, 0
	L:
		for {
			select {
			case <-a:
				na++
				continue L
			case _, ok := <-b:
				if ok {
					nb++
				}
			default:
				break L
			}
		}
		return fmt.Sprint(na, nb)
	}},
	{Name: "close-wakes", Want: []string{"0 false 0 false"}, Run: func() string {
		c := make(chan int)
		out := make(chan string, 2)
		for i := 0; i < 2; i++ {
			go func() { v, ok := <-c; out <- fmt.Sprint(v, ok) }()
		}
		close(c)
		a := <-out
		return a + " " + <-out
	}},
	{Name: "close-drains", Want: []string{"1 2 false"}, Run: func() string {
		c := make(chan int, 2)
		c <- 1
		c <- 2
		close(c)
		a, b := <-c, <-c
		_, ok := <-c
		return fmt.Sprint(a, b, ok)
	}},
	{Name: "send-on-closed", Want: []string{"panic"}, Run: func() string {
		c := make(chan int, 1)
		close(c)
		c <- 1
		return "sent"
	}},
	{Name: "close-wakes-sender", Own: true, Want: []string{"panic"}, Run: func() string {
		c := make(chan int)
		go func() { close(c) }()
		c <- 1
		return "sent"
	}},
	{Name: "close-twice", Want: []string{"panic"}, Run: func() string {
		c := make(chan int)
		close(c)
		close(c)
		return "closed"
	}},
	{Name: "close-nil", Want: []string{"panic"}, Run: func() string {
		var c chan int
		close(c)
		return "closed"
	}},
	{Name: "nil-channel", Own: true, Want: []string{"deadlock"}, Run: func() string {
		var c chan int
		return fmt.Sprint(<-c)
	}},
	{Name: "empty-select", Own: true, Want: []string{"deadlock"}, Run: func() string {
		select {}
	}},
	{Name: "unbuffered-self", Own: true, Want: []string{"deadlock"}, Run: func() string {
		c := make(chan int)
		c <- 1
		return fmt.Sprint(<-c)
	}},
	{Name: "lock-order", Own: true, Want: []string{"deadlock", "ok"}, Run: func() string {
		var a, b sync.Mutex
		done := make(chan struct{})
		go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); close(done) }()
		b.Lock()
		a.Lock()
		a.Unlock()
		b.Unlock()
		<-done
		return "ok"
	}},
	{Name: "try-lock", Want: []string{"false", "true"}, Run: func() string {
		var m sync.Mutex
		done := make(chan struct{})
		go func() { m.Lock(); runtime.Gosched(); m.Unlock(); close(done) }()
		b := m.TryLock()
		if b {
			m.Unlock()
		}
		<-done
		return fmt.Sprint(b)
	}},
	{Name: "lock-not-reentrant", Own: true, Want: []string{"deadlock"}, Run: func() string {
		var m sync.Mutex
		m.Lock()
		m.Lock()
		return "ok"
	}},
	{Name: "lock-barges", Want: []string{"12", "21"}, Run: func() string {
		// a mutex does not go to whoever has waited longest
		var m sync.Mutex
		var wg sync.WaitGroup
		s := ""
		m.Lock()
		for i := 1; i <= 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); m.Lock(); s += fmt.Sprint(i); m.Unlock() }()
		}
		m.Unlock()
		wg.Wait()
		return s
	}},
	{Name: "rwmutex-readers", Want: []string{"1", "2"}, Run: func() string {
		var m sync.RWMutex
		var in, top atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				m.RLock()
				n := in.Add(1)
				if n > top.Load() {
					top.Store(n)
				}
				in.Add(-1)
				m.RUnlock()
			}()
		}
		wg.Wait()
		return fmt.Sprint(top.Load())
	}},
	{Name: "rwmutex-writer", Want: []string{"1"}, Run: func() string {
		var m sync.RWMutex
		var in, top atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i == 0 {
					m.Lock()
					defer m.Unlock()
				} else {
					m.RLock()
					defer m.RUnlock()
				}
				n := in.Add(1)
				if n > top.Load() {
					top.Store(n)
				}
				in.Add(-1)
			}()
		}
		wg.Wait()
		return fmt.Sprint(top.Load())
	}},
	{Name: "rwmutex-writer-waits", Own: true, Want: []string{"deadlock", "ok"}, Run: func() string {
		// a waiting writer keeps new readers out: reading twice may block for ever
		var m sync.RWMutex
		done := make(chan struct{})
		go func() { m.Lock(); m.Unlock(); close(done) }()
		m.RLock()
		m.RLock()
		m.RUnlock()
		m.RUnlock()
		<-done
		return "ok"
	}},
	{Name: "rwmutex-try", Want: []string{"false false", "false true", "true false", "true true"}, Run: func() string {
		// a writer that waits or writes keeps readers out; TryRLock does not wait
		var m sync.RWMutex
		done := make(chan struct{})
		go func() { m.Lock(); m.Unlock(); close(done) }()
		a := m.TryRLock()
		if a {
			m.RUnlock()
		}
		b := m.TryRLock()
		if b {
			m.RUnlock()
		}
		<-done
		return fmt.Sprint(a, " ", b)
	}},
	{Name: "rlocker", Want: []string{"ok"}, Run: func() string {
		var m sync.RWMutex
		l := m.RLocker()
		l.Lock()
		ok := m.TryRLock()
		m.RUnlock()
		l.Unlock()
		if ok && m.TryLock() {
			return "ok"
		}
		return "locked"
	}},
	{Name: "unlock-unlocked", Own: true, Want: []string{"panic"}, Run: func() string {
		var m sync.Mutex
		m.Unlock()
		return "ok"
	}},
	{Name: "cond-lost", Own: true, Want: []string{"deadlock", "ok"}, Run: func() string {
		var m sync.Mutex
		c := sync.NewCond(&m)
		go func() { c.Signal() }()
		m.Lock()
		c.Wait()
		m.Unlock()
		return "ok"
	}},
	{Name: "cond-flag", Want: []string{"ok"}, Run: func() string {
		var m sync.Mutex
		c := sync.NewCond(&m)
		f := false
		go func() { m.Lock(); f = true; m.Unlock(); c.Signal() }()
		m.Lock()
		for !f {
			c.Wait()
		}
		m.Unlock()
		return "ok"
	}},
	{Name: "cond-signal-one", Own: true, Want: []string{"deadlock"}, Run: func() string {
		var m sync.Mutex
		c := sync.NewCond(&m)
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); m.Lock(); c.Wait(); m.Unlock() }()
		}
		time.Sleep(ms)
		c.Signal()
		wg.Wait()
		return "ok"
	}},
	{Name: "cond-broadcast", Want: []string{"ok"}, Run: func() string {
		var m sync.Mutex
		c := sync.NewCond(&m)
		var wg sync.WaitGroup
		n := 0
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); m.Lock(); n++; c.Wait(); m.Unlock() }()
		}
		for waiting := 0; waiting < 2; {
			runtime.Gosched()
			m.Lock()
			waiting = n
			m.Unlock()
		}
		c.Broadcast()
		wg.Wait()
		return "ok"
	}},
	{Name: "waitgroup-negative", Want: []string{"panic"}, Run: func() string {
		var wg sync.WaitGroup
		wg.Done()
		return "ok"
	}},
	{Name: "waitgroup-reuse", Want: []string{"2"}, Run: func() string {
		var wg sync.WaitGroup
		n := 0
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { n++; wg.Done() }()
			wg.Wait()
		}
		return fmt.Sprint(n)
	}},
	{Name: "waitgroup-early", Want: []string{"0", "1"}, Run: func() string {
		// Add within the goroutine comes too late
		var wg sync.WaitGroup
		var n atomic.Int32
		go func() { wg.Add(1); n.Store(1); wg.Done() }()
		wg.Wait()
		return fmt.Sprint(n.Load())
	}},
	{Name: "once", Want: []string{"1 1 1"}, Run: func() string {
		var o sync.Once
		var n atomic.Int32
		c := make(chan int32, 2)
		for i := 0; i < 2; i++ {
			go func() { o.Do(func() { runtime.Gosched(); n.Add(1) }); c <- n.Load() }()
		}
		return fmt.Sprint(<-c, <-c, n.Load())
	}},
	{Name: "once-panics", Want: []string{"done 1"}, Run: func() string {
		var o sync.Once
		n := 0
		func() {
			defer func() { recover() }()
			o.Do(func() { n++; panic("x") })
		}()
		o.Do(func() { n++ })
		return fmt.Sprint("done ", n)
	}},
	{Name: "once-value", Want: []string{"3 3 1"}, Run: func() string {
		n := 0
		f := sync.OnceValue(func() int { n++; return n + 2 })
		return fmt.Sprint(f(), f(), n)
	}},
	{Name: "pool", Want: []string{"yes"}, Run: func() string {
		// what was put may come back, to one taker only
		p := sync.Pool{New: func() any { return new(int) }}
		a := p.Get().(*int)
		p.Put(a)
		b, c := p.Get().(*int), p.Get().(*int)
		if b == c {
			return "shared"
		}
		return "yes"
	}},
	{Name: "sync-map", Want: []string{"1 1"}, Run: func() string {
		var m sync.Map
		var wins atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, loaded := m.LoadOrStore("k", i); !loaded {
					wins.Add(1)
				}
			}()
		}
		wg.Wait()
		n := 0
		m.Range(func(k, v any) bool { n++; return true })
		return fmt.Sprint(wins.Load(), " ", n)
	}},
	{Name: "map-order", Want: []string{"ab", "ba"}, Run: func() string {
		s := ""
		for k := range map[string]int{"a": 1, "b": 2} {
			s += k
		}
		return s
	}},
	{Name: "map-keys", Want: []string{"ab", "ba"}, Run: func() string {
		return strings.Join(slices.Collect(maps.Keys(map[string]int{"a": 1, "b": 2})), "")
	}},
	{Name: "map-keys-sorted", Want: []string{"ab"}, Run: func() string {
		return strings.Join(slices.Sorted(maps.Keys(map[string]int{"a": 1, "b": 2})), "")
	}},
	{Name: "map-delete-while-ranging", Want: []string{"1"}, Run: func() string {
		m := map[int]int{1: 1, 2: 2, 3: 3}
		n := 0
		for range m {
			n++
			clear(m)
		}
		return fmt.Sprint(n)
	}},
	{Name: "sleep-order", Want: []string{"ab"}, Run: func() string {
		c := make(chan string, 2)
		go func() { time.Sleep(60 * ms); c <- "b" }()
		go func() { time.Sleep(5 * ms); c <- "a" }()
		return <-c + <-c
	}},
	{Name: "same-instant", Own: true, Want: []string{"ab", "ba"}, Run: func() string {
		c := make(chan string, 2)
		go func() { time.Sleep(5 * ms); c <- "b" }()
		go func() { time.Sleep(5 * ms); c <- "a" }()
		return <-c + <-c
	}},
	{Name: "timeout-lost", Own: true, Want: []string{"timeout", "value"}, Run: func() string {
		c := make(chan int, 1)
		go func() { time.Sleep(10 * ms); c <- 1 }()
		select {
		case <-c:
			return "value"
		case <-time.After(10 * ms):
			return "timeout"
		}
	}},
	{Name: "timeout-late", Want: []string{"timeout"}, Run: func() string {
		c := make(chan int, 1)
		go func() { time.Sleep(200 * ms); c <- 1 }()
		select {
		case <-c:
			return "value"
		case <-time.After(10 * ms):
			return "timeout"
		}
	}},
	{Name: "early-timer", Own: true, Early: true, Want: []string{"timeout", "value"}, Run: func() string {
		// a goroutine that could run may be held up for longer than a timer takes
		c := make(chan int, 1)
		go func() { c <- 1 }()
		select {
		case <-c:
			return "value"
		case <-time.After(10 * ms):
			return "timeout"
		}
	}},
	{Name: "timer-stop", Want: []string{"true false nothing"}, Run: func() string {
		t := time.NewTimer(10 * ms)
		a := t.Stop()
		b := t.Stop()
		time.Sleep(30 * ms)
		select {
		case <-t.C:
			return fmt.Sprint(a, " ", b, " fired")
		default:
			return fmt.Sprint(a, " ", b, " nothing")
		}
	}},
	{Name: "timer-stop-fired", Want: []string{"true nothing"}, Run: func() string {
		// a value that nobody has received yet does not outlive Stop (Go 1.23 and later)
		t := time.NewTimer(10 * ms)
		time.Sleep(60 * ms)
		a := t.Stop()
		select {
		case <-t.C:
			return fmt.Sprint(a, " fired")
		default:
			return fmt.Sprint(a, " nothing")
		}
	}},
	{Name: "timer-reset", Want: []string{"true after"}, Run: func() string {
		t := time.NewTimer(1000 * ms)
		t0 := time.Now()
		a := t.Reset(20 * ms)
		<-t.C
		if d := time.Since(t0); d >= 20*ms && d < 500*ms {
			return fmt.Sprint(a, " after")
		}
		return "wrong time"
	}},
	{Name: "after-func", Want: []string{"false ran", "true not"}, Run: func() string {
		var ran atomic.Bool
		t := time.AfterFunc(20*ms, func() { ran.Store(true) })
		if again() {
			time.Sleep(80 * ms)
		}
		s := t.Stop()
		time.Sleep(20 * ms)
		if ran.Load() {
			return fmt.Sprint(s, " ran")
		}
		return fmt.Sprint(s, " not")
	}},
	{Name: "ticker-drops", Want: []string{"1"}, Run: func() string {
		t := time.NewTicker(time.Second / 5)
		time.Sleep(time.Second / 2)
		n := 0
		for {
			select {
			case <-t.C:
				n++
				continue
			default:
			}
			return fmt.Sprint(n)
		}
	}},
	{Name: "ticker-stopped", Want: []string{"0"}, Run: func() string {
		t := time.NewTicker(10 * ms)
		time.Sleep(55 * ms)
		t.Stop()
		return fmt.Sprint(len(t.C))
	}},
	{Name: "ticker-ticks", Want: []string{"3 in 30"}, Run: func() string {
		t := time.NewTicker(10 * ms)
		defer t.Stop()
		t0 := time.Now()
		for i := 0; i < 3; i++ {
			<-t.C
		}
		if d := time.Since(t0); d < 29*ms || d > 300*ms {
			return fmt.Sprint("3 in ", d)
		}
		return "3 in 30"
	}},
	{Name: "ticker-zero", Want: []string{"panic"}, Run: func() string {
		time.NewTicker(0)
		return "ok"
	}},
	{Name: "tick-range", Want: []string{"2"}, Run: func() string {
		n := 0
		for range time.Tick(5 * ms) {
			if n++; n == 2 {
				break
			}
		}
		return fmt.Sprint(n)
	}},
	{Name: "ctx-timeout", Want: []string{"context deadline exceeded true"}, Run: func() string {
		c, cancel := context.WithTimeout(context.Background(), 10*ms)
		defer cancel()
		<-c.Done()
		_, ok := c.Deadline()
		return fmt.Sprint(c.Err(), " ", ok)
	}},
	{Name: "ctx-children", Want: []string{"context canceled why | <nil> <nil> | <nil>"}, Run: func() string {
		type key struct{}
		p, cancel := context.WithCancelCause(context.WithValue(context.Background(), key{}, 1))
		k, stop := context.WithTimeout(context.WithValue(p, key{}, 2), time.Hour)
		defer stop()
		q, stop2 := context.WithCancel(p)
		stop2()
		w := context.WithoutCancel(k)
		s := fmt.Sprint(p.Err(), " ", context.Cause(p))
		if q.Err() == nil || k.Value(key{}) != 2 {
			return "wrong child"
		}
		cancel(errors.New("why"))
		<-k.Done()
		return fmt.Sprint(k.Err(), " ", context.Cause(k), " | ", s, " | ", w.Err())
	}},
	{Name: "ctx-nearer-deadline", Want: []string{"parent"}, Run: func() string {
		p, cancel := context.WithTimeoutCause(context.Background(), 10*ms, errors.New("parent"))
		defer cancel()
		k, stop := context.WithTimeoutCause(p, time.Hour, errors.New("child"))
		defer stop()
		<-k.Done()
		return context.Cause(k).Error()
	}},
	{Name: "ctx-race", Want: []string{"canceled", "value"}, Run: func() string {
		c, cancel := context.WithCancel(context.Background())
		v := make(chan int, 1)
		go func() { v <- 1 }()
		go cancel()
		select {
		case <-c.Done():
			return "canceled"
		case <-v:
			return "value"
		}
	}},
	{Name: "ctx-after-func", Want: []string{"ran false", "stopped true"}, Run: func() string {
		c, cancel := context.WithCancel(context.Background())
		ran := make(chan struct{})
		stop := context.AfterFunc(c, func() { close(ran) })
		go cancel()
		if stop() {
			return "stopped true"
		}
		<-ran
		return "ran false"
	}},
	{Name: "ctx-done-twice", Want: []string{"true true"}, Run: func() string {
		c, cancel := context.WithCancel(context.Background())
		d := c.Done()
		cancel()
		cancel()
		<-d
		select {
		case <-c.Done():
			return fmt.Sprint(context.Background().Done() == nil, " ", c.Err() == context.Canceled)
		default:
			return "not done"
		}
	}},
	{Name: "goroutine-panics", Own: true, Want: []string{"panic"}, Run: func() string {
		c := make(chan int)
		go func() { panic("no") }()
		return fmt.Sprint(<-c)
	}},
	{Name: "recover", Want: []string{"unlocked"}, Run: func() string {
		var m sync.Mutex
		func() {
			defer func() { recover() }()
			m.Lock()
			defer m.Unlock()
			panic("x")
		}()
		m.Lock()
		return "unlocked"
	}},
	{Name: "goexit", Want: []string{"deferred"}, Run: func() string {
		c := make(chan string, 1)
		go func() {
			defer func() { c <- "deferred" }()
			runtime.Goexit()
			c <- "went on"
		}()
		return <-c
	}},
	{Name: "go-arguments", Want: []string{"1 old"}, Run: func() string {
		// function value and arguments are evaluated by the go statement
		c := make(chan string, 1)
		i := 1
		f := func(n int) { c <- fmt.Sprint(n, " old") }
		go f(i)
		i = 2
		f = func(n int) { c <- fmt.Sprint(n, " new") }
		return <-c
	}},
	{Name: "go-method-value", Want: []string{"1"}, Run: func() string {
		c := make(chan string, 1)
		v := val{1, c}
		go v.send()
		v.n = 2
		return <-c
	}},
	{Name: "loop-variable", Want: []string{"012"}, Run: func() string {
		var got [3]bool
		var wg sync.WaitGroup
		for i := range 3 {
			wg.Add(1)
			go func() { defer wg.Done(); got[i] = true }()
		}
		wg.Wait()
		s := ""
		for i, b := range got {
			if b {
				s += fmt.Sprint(i)
			}
		}
		return s
	}},
	{Name: "named-channels", Want: []string{"5 true 6 <nil>"}, Run: func() string {
		s := make(signal, 1)
		var r readOnly = (chan int)(s)
		s <- 5
		v, ok := <-r
		var m = map[string]signal{"x": s}
		m["x"] <- 6
		var e any = s
		q := e.(signal)
		var n chan<- error
		return fmt.Sprint(v, " ", ok, " ", <-q, " ", n)
	}},
	{Name: "named-channel-select", Want: []string{"1 closed"}, Run: func() string {
		s := make(signal, 1)
		s <- 1
		close(s)
		str := ""
		for v := range s {
			str += fmt.Sprint(v)
		}
		select {
		case _, ok := <-s:
			if !ok {
				return str + " closed"
			}
		default:
		}
		return str
	}},
	{Name: "channel-of-channels", Want: []string{"4"}, Run: func() string {
		req := make(chan chan int)
		go func() {
			for r := range req {
				r <- 4
			}
		}()
		r := make(chan int)
		req <- r
		return fmt.Sprint(<-r)
	}},
	{Name: "generic-channel", Want: []string{"[1 2 3]"}, Run: func() string {
		return fmt.Sprint(collect(gen(1, 2, 3)))
	}},
	{Name: "channel-identity", Want: []string{"true false one"}, Run: func() string {
		a, b := make(chan int), make(chan int)
		c := a
		m := map[chan int]string{a: "one", b: "two"}
		return fmt.Sprint(a == c, a == b, " ", m[c])
	}},
	{Name: "channel-struct", Want: []string{"7 closed"}, Run: func() string {
		w := worker{in: make(chan int), out: make(chan int), quit: make(chan struct{})}
		go w.run()
		w.in <- 6
		v := <-w.out
		close(w.quit)
		<-w.out
		return fmt.Sprint(v, " closed")
	}},
	{Name: "range-assign", Want: []string{"2"}, Run: func() string {
		c := make(chan int, 2)
		c <- 1
		c <- 2
		close(c)
		var v int
		for v = range c {
		}
		return fmt.Sprint(v)
	}},
	{Name: "two-valued-var", Want: []string{"1 true 0 false"}, Run: func() string {
		c := make(chan int, 1)
		c <- 1
		close(c)
		var a, ok = <-c
		b, ok2 := (<-c)
		return fmt.Sprint(a, ok, " ", b, ok2)
	}},
	{Name: "defer-order", Want: []string{"received 1, closed"}, Run: func() string {
		c := make(chan int, 1)
		func() {
			defer close(c)
			c <- 1
		}()
		v, s := <-c, "open"
		if _, ok := <-c; !ok {
			s = "closed"
		}
		return fmt.Sprintf("received %d, %s", v, s)
	}},
	{Name: "semaphore", Want: []string{"1", "2"}, Run: func() string {
		sem := make(chan struct{}, 2)
		var in, top atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				n := in.Add(1)
				for {
					t := top.Load()
					if n <= t || top.CompareAndSwap(t, n) {
						break
					}
				}
				in.Add(-1)
			}()
		}
		wg.Wait()
		return fmt.Sprint(top.Load())
	}},
	{Name: "spin", Want: []string{"ok"}, Run: func() string {
		var f atomic.Bool
		go func() { f.Store(true) }()
		for !f.Load() {
			runtime.Gosched()
		}
		return "ok"
	}},
	{Name: "spin-sleep", Want: []string{"ok"}, Run: func() string {
		var m sync.Mutex
		f := false
		go func() { m.Lock(); f = true; m.Unlock() }()
		for {
			m.Lock()
			if f {
				m.Unlock()
				return "ok"
			}
			m.Unlock()
			time.Sleep(ms)
		}
	}},
	{Name: "atomic-value", Want: []string{"<nil>", "[1 2]"}, Run: func() string {
		var v atomic.Value
		var p atomic.Pointer[[]int]
		go func() { v.Store([]int{1, 2}); p.Store(&[]int{1}) }()
		if q := p.Load(); q != nil && v.Load() == nil {
			return "out of order"
		}
		return fmt.Sprint(v.Load())
	}},
	{Name: "fallthrough-goto", Want: []string{"3"}, Run: func() string {
		c := make(chan int, 3)
		n := 0
	again:
		c <- n
		n++
		if n < 3 {
			goto again
		}
		switch {
		case len(c) == 3:
			fallthrough
		case false:
			return fmt.Sprint(len(c))
		}
		return "no"
	}},
	{Name: "sorted-results", Want: []string{"[0 1 4]"}, Run: func() string {
		res := make([]int, 0, 3)
		var m sync.Mutex
		var wg sync.WaitGroup
		for i := range 3 {
			wg.Add(1)
			go func(n int) {
				defer wg.Done()
				m.Lock()
				defer m.Unlock()
				res = append(res, n*n)
			}(i)
		}
		wg.Wait()
		sort.Ints(res)
		return fmt.Sprint(res)
	}},
}

func readB(p *int) int { return *p }

func idx(s *string) int { *s += "i"; return 0 }

// again is true or false.
func again() bool {
	a, b := make(chan int, 1), make(chan int, 1)
	a <- 1
	b <- 1
	select {
	case <-a:
		return true
	case <-b:
		return false
	}
}

type val struct {
	n int
	c chan string
}

func (v val) send() { v.c <- fmt.Sprint(v.n) }

type signal chan int

type readOnly <-chan int

func gen[T any](v ...T) <-chan T {
	c := make(chan T)
	go func() {
		defer close(c)
		for _, x := range v {
			c <- x
		}
	}()
	return c
}

func collect[T any, C ~<-chan T](c C) (out []T) {
	for v := range c {
		out = append(out, v)
	}
	return
}

type worker struct {
	in, out chan int
	quit    chan struct{}
}

func (w *worker) run() {
	defer close(w.out)
	for {
		select {
		case v := <-w.in:
			w.out <- v + 1
		case <-w.quit:
			return
		}
	}
}
