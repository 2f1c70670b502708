// Command native runs the litmus programs as they are, many times, and prints the outcomes.
package main

import (
	"encoding/json"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/ti-mo/comfo/zzlitmus"
)

func one(f func() string) (s string) {
	defer func() {
		if recover() != nil {
			s = "panic"
		}
	}()
	return f()
}

func main() {
	secs, _ := strconv.Atoi(os.Args[1])
	out := map[string]map[string]int{}
	var wg sync.WaitGroup
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for _, p := range litmus.Progs {
		if p.Own {
			continue
		}
		res := map[string]int{}
		out[p.Name] = res
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 5000 && (n < 20 || time.Now().Before(end)); n++ {
				s := one(p.Run)
				res[s]++
			}
		}()
	}
	wg.Wait()
	json.NewEncoder(os.Stdout).Encode(out)
}
