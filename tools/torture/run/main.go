// run executes the rewritten program in the simulator: run SEED [PREEMPT].
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"torture/app"
	"torture/verifsim/simrt"
)

func main() {
	seed, _ := strconv.ParseUint(os.Args[1], 10, 64)
	pre, _ := strconv.Atoi(os.Args[2])
	w := simrt.NewWorld(seed, simrt.Options{PreemptQ: pre, SchedRand: int(seed % 3 * 40), MaxVirtual: 4e12}, nil)
	var out []*simrt.Proc
	res := w.Run(func() {
		for i := 0; i < 2; i++ {
			h := w.NewHost(fmt.Sprint("h", i), fmt.Sprint("10.0.0.", i+1))
			out = append(out, w.Start(h, "app", []string{"app"}, map[string]string{}, main_app.Main__))
		}
		for _, p := range out {
			p.Wait(1e12)
		}
	})
	for i, p := range out {
		f, _ := os.Create(fmt.Sprintf("%s.%d", os.Args[3], i))
		fmt.Fprint(f, strings.Join(p.OutLines, "\n")+"\n")
		fmt.Fprintf(f, "exit status %d\n", p.Code)
		if p.Code != 3 {
			fmt.Fprintln(f, p.Reason, p.Stack, res.Why)
		}
		f.Close()
	}
}
