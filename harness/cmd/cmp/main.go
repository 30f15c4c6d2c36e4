// cmp compares programs (one per line of the input; steps separated by " @@ ")
// on the model and the implementation. CAP=1 turns the capture options on.
package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	"vharness/impl"
)

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<20)
	bad, n, fuel := 0, 0, 0
	for sc.Scan() {
		l := strings.ReplaceAll(sc.Text(), `\N`, "\n")
		if l == "" {
			continue
		}
		n++
		d, f := impl.Compare(strings.Split(l, " @@ "), impl.Options{Capture: os.Getenv("CAP") != ""}, nil)
		if f {
			fuel++
			fmt.Println("FUEL", l)
		}
		if d != "" {
			bad++
			fmt.Println("DIFF", d)
			if os.Getenv("TB") != "" {
				fmt.Println(impl.LastStack.Load())
			}
		}
	}
	fmt.Println(n, "programs", bad, "differences", fuel, "out of fuel")
}
