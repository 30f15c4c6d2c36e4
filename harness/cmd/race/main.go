// race runs the programs of C25 in free-running threads; it is built with the
// race detector.
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	"vharness/checks"
	"vharness/impl"
)

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	ps := checks.Progs25
	want := map[string]string{}
	for _, p := range ps {
		want[p] = checks.Want25(p)
	}
	var mu sync.Mutex
	bad := ""
	run := func(wg *sync.WaitGroup, p string, capture bool) {
		defer wg.Done()
		w := impl.NewWorld(impl.Options{Capture: capture})
		var out []string
		for _, src := range strings.Split(p, "\n=\n") {
			out = append(out, strings.Join(w.Eval(src), " | "))
		}
		if got := strings.Join(out, " || "); got != want[p] {
			mu.Lock()
			bad = fmt.Sprintf("%s: expected %s, got %s", p, want[p], got)
			mu.Unlock()
		}
	}
	for i := 0; i < n; i++ {
		for _, a := range ps {
			for _, b := range ps {
				var wg sync.WaitGroup
				for k := 0; k < 2; k++ {
					wg.Add(2)
					go run(&wg, a, k == 1)
					go run(&wg, b, k == 0)
				}
				wg.Wait()
			}
		}
	}
	if bad != "" {
		fmt.Println("DIFFERENT", bad)
		os.Exit(1)
	}
}
