package hx

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// Mix is the share of runs each scenario gets.
type Mix struct {
	Bin   string
	Scen  string
	Share int
}

func runSeed(base uint64, i int) uint64 {
	r := simrt.NewRNG(base*0x9e3779b97f4a7c15 + uint64(i)*0xd1342543de82ef95 + 12345)
	r.U64()
	return r.U64() >> 1
}

func pickScen(mix []Mix, i int) string {
	tot := 0
	for _, m := range mix {
		tot += m.Share
	}
	// low-discrepancy walk through the shares
	k := int((uint64(i)*2654435761 + 7) % uint64(tot))
	for _, m := range mix {
		if k < m.Share {
			return m.Scen
		}
		k -= m.Share
	}
	return mix[0].Scen
}

func parseMix(s string) []Mix {
	var out []Mix
	for _, part := range strings.Split(s, ",") {
		f := strings.Split(part, "=")
		n := 1
		if len(f) > 1 {
			n, _ = strconv.Atoi(f[1])
		}
		out = append(out, Mix{Scen: f[0], Share: n})
	}
	return out
}

// Main is the entry point of the harness binaries.
func Main() {
	mode := flag.String("mode", "", "worker, replay, minimise, check, one, plan")
	mix := flag.String("mix", "", "scen=share,...")
	seed := flag.Uint64("seed", 1, "base seed")
	start := flag.Int("start", 0, "first run")
	step := flag.Int("step", 1, "run stride")
	count := flag.Int("count", 1<<30, "number of runs")
	secs := flag.Float64("secs", 30, "time budget")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	file := flag.String("file", "", "replay file")
	out := flag.String("out", "", "output file")
	scen := flag.String("scen", "", "scenario")
	rseed := flag.Uint64("rseed", 0, "exact run seed")
	class := flag.String("class", "", "violation class")
	verbose := flag.Bool("v", false, "print the trace")
	bins := flag.String("bins", "", "bin:mix;bin:mix")
	workers := flag.Int("workers", 8, "worker processes")
	verif := flag.String("verif", "/verif", "where evidence and replays go")
	flag.Parse()
	thorough := *tier == "thorough"
	switch *mode {
	case "worker":
		m := parseMix(*mix)
		end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
		bw := bufio.NewWriter(os.Stdout)
		n := 0
		for i := *start; n < *count && time.Now().Before(end); i += *step {
			p := MakePlan(pickScen(m, i), runSeed(*seed, i), thorough)
			fmt.Fprintf(bw, "B %d %s %d\n", i, p.Scenario, p.Seed)
			bw.Flush()
			o := Execute(p, nil, false)
			fmt.Fprintf(bw, "R %d %s\n", i, js(o))
			bw.Flush()
			n++
			gcTick(n)
		}
	case "one", "plan":
		sd := *rseed
		if sd == 0 {
			sd = runSeed(*seed, *start)
		}
		p := MakePlan(*scen, sd, thorough)
		if *mode == "plan" {
			fmt.Println(js(p))
			return
		}
		o := Execute(p, nil, *verbose)
		for _, l := range o.Trace {
			fmt.Println(l)
		}
		fmt.Println(js(o))
	case "has":
		if scenarios[*scen] == nil {
			os.Exit(1)
		}
	case "replay":
		os.Exit(replay(*file, *verbose))
	case "minimise":
		p := MakePlan(*scen, *rseed, thorough)
		b, st, o := Minimise(p, *class, time.Duration(*secs*float64(time.Second)), func(f string, a ...any) {
			fmt.Printf(f+"\n", a...)
		})
		if b == nil {
			fmt.Println("not reproduced")
			os.Exit(4)
		}
		fin := Execute(b, st, true)
		if !fin.HasClass(*class) || fin.Hash != o.Hash {
			// fall back to the plan as found
			b, st = p, nil
			fin = Execute(b, st, true)
			if !fin.HasClass(*class) {
				fmt.Println("not reproduced")
				os.Exit(4)
			}
		}
		r := Replay{Property: *prop, Class: *class, Plan: b, Streams: st, FirstSeed: *rseed, FirstOps: len(p.Ops), Hash: fmt.Sprintf("%016x", fin.Hash)}
		for _, v := range fin.Viol {
			if v.Class == *class {
				r.Msg, r.Props = v.Msg, v.Props
			}
		}
		r.Trace = fin.Trace
		if len(r.Trace) > 400 {
			r.Trace = append([]string{fmt.Sprintf("... %d earlier lines", len(r.Trace)-400)}, r.Trace[len(r.Trace)-400:]...)
		}
		bs, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(*out, bs, 0o644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Println("written", *out, "steps", len(b.Ops))
	case "check":
		os.Exit(check(*prop, *tier, *seed, *bins, *workers, *secs, *verif))
	default:
		fmt.Println("no mode")
		os.Exit(2)
	}
}

func replay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	o := Execute(r.Plan, r.Streams, verbose)
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	for _, v := range o.Viol {
		fmt.Printf("violation %v %s: %s\n", v.Props, v.Class, v.Msg)
	}
	same := fmt.Sprintf("%016x", o.Hash) == r.Hash
	fmt.Printf("replay: %d steps, ended %q, hash %016x (same execution: %v)\n", len(r.Plan.Ops), o.Why, o.Hash, same)
	if o.HasClass(r.Class) {
		fmt.Printf("reproduced: %s\n", r.Class)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

type known struct {
	prop string
	re   *regexp.Regexp
	text string
}

// loadKnown reads lines "finding: property=<id> class=<regexp> <what fails>".
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) < 4 || f[0] != "finding:" {
			continue
		}
		p := strings.TrimPrefix(f[1], "property=")
		c := strings.TrimPrefix(f[2], "class=")
		re, err := regexp.Compile("^(?:" + c + ")$")
		if err != nil {
			fmt.Println("bad known finding:", l, err)
			os.Exit(2)
		}
		out = append(out, known{p, re, f[3]})
	}
	return out
}

type runRec struct {
	i int
	o Outcome
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func check(prop, tier string, seed uint64, bins string, workers int, secs float64, verif string) int {
	begin := time.Now()
	fmt.Printf("%s %s seed=%d\n", prop, tier, seed)
	type group struct {
		bin, mix string
	}
	var groups []group
	for _, g := range strings.Split(bins, ";") {
		f := strings.SplitN(g, ":", 2)
		groups = append(groups, group{f[0], f[1]})
	}
	kn := loadKnown(filepath.Join(verif, "known_findings"))
	isKnown := func(v Violation) *known {
		for i := range kn {
			if kn[i].prop == prop && kn[i].re.MatchString(v.Class) {
				return &kn[i]
			}
		}
		return nil
	}
	var mu sync.Mutex
	var recs []runRec
	var binOf = map[int]string{}
	var bad []runRec
	var crashes []string
	stop := make(chan struct{})
	var stopOnce sync.Once
	var wg sync.WaitGroup
	per := workers / len(groups)
	if per < 1 {
		per = 1
	}
	for gi, g := range groups {
		n := per
		if gi == 0 {
			n = workers - per*(len(groups)-1)
		}
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func(gi int, g group, k, n int) {
				defer wg.Done()
				next := k
				for {
					left := secs - time.Since(begin).Seconds()
					if left < 0.5 {
						return
					}
					cmd := exec.Command(g.bin, "-mode", "worker", "-mix", g.mix, "-seed", fmt.Sprint(seed+uint64(gi)*1000003), "-start", fmt.Sprint(next),
						"-step", fmt.Sprint(n), "-secs", fmt.Sprintf("%.2f", left), "-tier", tier)
					cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
					var eb strings.Builder
					cmd.Stderr = &eb
					so, err := cmd.StdoutPipe()
					if err != nil {
						fmt.Println(err)
						os.Exit(2)
					}
					if err := cmd.Start(); err != nil {
						fmt.Println(err)
						os.Exit(2)
					}
					done := make(chan struct{})
					go func() {
						tm := time.NewTimer(time.Duration((left + 90) * float64(time.Second)))
						select {
						case <-done:
						case <-stop:
							cmd.Process.Kill()
						case <-tm.C:
							cmd.Process.Kill()
						}
					}()
					sc := bufio.NewScanner(so)
					sc.Buffer(make([]byte, 1<<20), 1<<28)
					cur := ""
					for sc.Scan() {
						l := sc.Text()
						if strings.HasPrefix(l, "B ") {
							cur = l
							fmt.Sscanf(l, "B %d", &next)
							continue
						}
						if !strings.HasPrefix(l, "R ") {
							continue
						}
						cur = ""
						f := strings.SplitN(l, " ", 3)
						var r runRec
						r.i, _ = strconv.Atoi(f[1])
						if err := json.Unmarshal([]byte(f[2]), &r.o); err != nil {
							continue
						}
						mu.Lock()
						recs = append(recs, r)
						for _, v := range r.o.Viol {
							if has(v.Props, prop) && isKnown(v) == nil {
								binOf[len(bad)] = g.bin
								bad = append(bad, r)
								stopOnce.Do(func() {
									// let the runs in progress finish, they may be simpler
									go func() {
										time.Sleep(2 * time.Second)
										close(stop)
									}()
								})
								break
							}
						}
						mu.Unlock()
					}
					close(done)
					err = cmd.Wait()
					select {
					case <-stop:
						return
					default:
					}
					if err == nil {
						return
					}
					mu.Lock()
					crashes = append(crashes, fmt.Sprintf("%s: %v: %s", cur, err, tail(eb.String(), 600)))
					many := len(crashes) > 6
					mu.Unlock()
					if many {
						return
					}
					next += n
				}
			}(gi, g, k, n)
		}
	}
	wg.Wait()
	// Evidence.
	wall := time.Since(begin).Seconds()
	sort.Slice(recs, func(a, b int) bool { return recs[a].i < recs[b].i })
	ev := evidence(prop, tier, seed, recs, wall, len(bad), crashes)
	// Determinism: run a sample again in fresh processes.
	mism := 0
	if len(bad) == 0 {
		ev.Coverage["determinism"], mism = recheck(groups[0].bin, groups[0].mix, seed, recs, tier)
	}
	writeEvidence(verif, prop, ev)
	seenKnown := map[string]bool{}
	for _, r := range recs {
		for _, v := range r.o.Viol {
			if has(v.Props, prop) {
				if k := isKnown(v); k != nil {
					seenKnown[k.text] = true
				}
			}
		}
	}
	for i := range kn {
		if kn[i].prop == prop {
			what := "not met in this run's histories"
			if seenKnown[kn[i].text] {
				what = "met"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, kn[i].text, what)
		}
	}
	fmt.Printf("%d runs, %d distinct schedules, %.1f simulated hours, %d oracle evaluations, %.1f s\n",
		len(recs), ev.distinct, ev.virtualH, ev.checks, wall)
	if len(bad) > 0 {
		return report(prop, tier, bad, binOf, isKnown, verif)
	}
	if len(crashes) > 0 {
		for _, c := range crashes {
			fmt.Println("harness failure:", c)
		}
		return 2
	}
	if len(recs) == 0 {
		fmt.Println("no run finished")
		return 2
	}
	if mism > 0 {
		fmt.Printf("%d of the repeated runs differed: the simulation is not deterministic\n", mism)
		return 2
	}
	inc := 0
	for _, r := range recs {
		if r.o.Why != "done" {
			inc++
		}
	}
	if inc*2 > len(recs) {
		fmt.Printf("%d of %d runs did not finish\n", inc, len(recs))
		return 2
	}
	fmt.Printf("OK property=%s\n", prop)
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func report(prop, tier string, bad []runRec, binOf map[int]string, isKnown func(Violation) *known, verif string) int {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	// simplest first
	ord := make([]int, len(bad))
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(a, b int) bool { return bad[ord[a]].o.Wall < bad[ord[b]].o.Wall })
	for n, k := range ord {
		if n >= 4 {
			break
		}
		o := bad[k].o
		for _, v := range o.Viol {
			if !has(v.Props, prop) || isKnown(v) != nil {
				continue
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, o.Seed))
			cmd := exec.Command(binOf[k], "-mode", "minimise", "-scen", o.Scenario, "-rseed", fmt.Sprint(o.Seed), "-class", v.Class,
				"-prop", prop, "-out", path, "-secs", "40", "-tier", tier)
			b, err := cmd.CombinedOutput()
			if err != nil {
				fmt.Printf("could not reproduce %s (seed %d): %v %s\n", v.Class, o.Seed, err, tail(string(b), 400))
				break
			}
			fmt.Print(string(b))
			rc := exec.Command(binOf[k], "-mode", "replay", "-file", path)
			b, err = rc.CombinedOutput()
			if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 || !strings.Contains(string(b), "same execution: true") {
				fmt.Printf("replay of %s did not reproduce: %v %s\n", path, err, tail(string(b), 400))
				break
			}
			fmt.Printf("%s: %s\n", v.Class, v.Msg)
			fmt.Printf("found with seed %d, scenario %s, %d steps; replay: ./replay.sh %s\n", o.Seed, o.Scenario, o.Ops, path)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			return 1
		}
	}
	fmt.Println("a violation was seen but could not be reproduced")
	return 2
}

func recheck(bin, mix string, seed uint64, recs []runRec, tier string) (map[string]any, int) {
	n, mism := 0, 0
	var diffs []string
	limit := time.Now().Add(6 * time.Second)
	for _, r := range recs {
		if n >= 6 || time.Now().After(limit) {
			break
		}
		if r.o.Why == "real time limit" || r.o.Wall > 3 {
			continue
		}
		if pickScen(parseMix(mix), r.i) != r.o.Scenario || runSeed(seed, r.i) != r.o.Seed {
			continue
		}
		cmd := exec.Command(bin, "-mode", "one", "-scen", r.o.Scenario, "-rseed", fmt.Sprint(r.o.Seed), "-tier", tier)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		b, err := cmd.Output()
		if err != nil {
			continue
		}
		var o Outcome
		lines := strings.Split(strings.TrimSpace(string(b)), "\n")
		if json.Unmarshal([]byte(lines[len(lines)-1]), &o) != nil {
			continue
		}
		n++
		if o.Hash != r.o.Hash || o.SchHash != r.o.SchHash {
			mism++
			diffs = append(diffs, fmt.Sprintf("%s/%d", r.o.Scenario, r.o.Seed))
		}
	}
	return map[string]any{"runs_repeated_in_fresh_process": n, "differing": diffs}, mism
}

type evid struct {
	Property string         `json:"property"`
	Tier     string         `json:"tier"`
	Seed     uint64         `json:"seed"`
	Level    string         `json:"level"`
	Coverage map[string]any `json:"coverage"`
	Assume   []string       `json:"assumptions"`
	Wall     float64        `json:"wall_s"`
	Viol     int            `json:"violations"`
	distinct int
	virtualH float64
	checks   int
}

func evidence(prop, tier string, seed uint64, recs []runRec, wall float64, nbad int, crashes []string) *evid {
	faults, probes, scen, why := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	sch := map[uint64]bool{}
	nontriv := map[uint64]bool{}
	var virt int64
	var sw, ev uint64
	checks, steps := 0, 0
	var samples []any
	other := map[string]int{}
	for _, r := range recs {
		o := r.o
		scen[o.Scenario]++
		why[o.Why]++
		sch[o.SchHash] = true
		nf := 0
		for k, v := range o.Faults {
			faults[k] += v
			nf += v
		}
		for k, v := range o.Probes {
			probes[k] += v
		}
		if o.Checks > 0 && len(o.Probes) > 0 && o.Switches > 100 {
			nontriv[o.SchHash] = true
		}
		virt += o.Virtual
		sw += o.Switches
		ev += o.Events
		checks += o.Checks
		steps += o.Ops
		if len(samples) < 3 {
			samples = append(samples, map[string]any{"scenario": o.Scenario, "seed": o.Seed, "steps": o.Ops, "simulated_s": float64(o.Virtual) / 1e9,
				"task_switches": o.Switches, "faults": o.Faults, "probes": o.Probes, "schedule_hash": fmt.Sprintf("%016x", o.SchHash), "ended": o.Why})
		}
		for _, v := range o.Viol {
			if !has(v.Props, prop) {
				other[strings.Join(v.Props, "+")+" "+v.Class]++
			}
		}
	}
	e := &evid{Property: prop, Tier: tier, Seed: seed, Level: "exploration", Wall: wall, Viol: nbad}
	e.distinct = len(sch)
	e.virtualH = float64(virt) / 3.6e12
	e.checks = checks
	e.Coverage = map[string]any{
		"evaluations":         len(recs),
		"distinct_nontrivial": len(nontriv),
		"rule": "one evaluation is one simulated run: a plan (workload, faults, configuration) and every scheduling, delay and fault decision drawn from one seed. " +
			"Distinct: different hash of the whole sequence of task switches. Non-trivial: at least one oracle evaluation, at least one reach probe hit and more than 100 task switches.",
		"samples":                samples,
		"runs_per_hour":          float64(len(recs)) / wall * 3600,
		"seeds_per_hour":         float64(len(recs)) / wall * 3600,
		"simulated_hours":        e.virtualH,
		"task_switches":          sw,
		"events":                 ev,
		"plan_steps":             steps,
		"oracle_evaluations":     checks,
		"faults_injected":        faults,
		"probes":                 probes,
		"runs_by_scenario":       scen,
		"runs_by_end":            why,
		"distinct_schedules":     len(sch),
		"harness_failures":       crashes,
		"other_property_reports": other,
		"real_components":        "all packages of /repo that the scenario starts (cmd/bcnode, cmd/bcwallet, internal/*, pkg/*), compiled from the working tree with concurrency, time, I/O and randomness redirected to the simulator",
		"stub_components":        "Go scheduler, timers, TCP, HTTP transport, file system, wall clock, random source (simulator); virtual peers and HTTP clients (harness); proof-of-work target and mining pace (easy target, paced rounds)",
	}
	e.Assume = []string{
		"TCP delivers accepted bytes in order and unaltered until it fails",
		"completed file operations survive a process kill; an operation under way may be done in part",
		"statement-level interleaving with sequentially consistent memory",
	}
	return e
}

func writeEvidence(verif, prop string, e *evid) {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}
