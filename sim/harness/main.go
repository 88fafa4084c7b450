// Command harness runs seeded simulations of sorty and judges them.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"verifrt/simrt"
)

// crash classes: the call did not complete
var always = []string{"panic", "deadlock", "hang", "depth"}

var classes = map[string][]string{
	"C01": {"unsorted"},
	"C02": {"altered", "guard"},
	"C03": {"late", "leak"},
	"C04": {"leak"},
	"C05": {"budget"},
	"C06": {"serial", "chan", "smallpart"},
	"C07": {"unsorted", "altered", "race", "late", "leak", "gorlive", "guard", "outside", "setting"},
	"C08": {"unsorted", "altered", "outside", "guard", "foreign", "late", "race", "setting"},
	"C09": {"race"},
	"C10": {"index", "unsorted", "altered", "late", "foreign", "offcaller"},
	"C11": {"unsorted"},
	"C12": {"unsorted", "query-wrong"},
	"C13": {"query-wrong", "query-effect", "query-race", "guard", "outside", "setting"},
	"C14": {"unsorted", "altered", "guard"},
	"C15": {"panic-lost", "altered", "unsorted", "guard", "unused", "setting"},
	"C16": {"alloc", "nest"},
	"C17": {"unused"},
	"C18": {"accepted", "refused", "altered", "unsorted", "outside"},
	"C19": {"boot", "unsorted", "altered"},
	"C20": {"gclost"},
}

func relevant(prop string, v simrt.Violation) bool {
	for _, c := range always {
		if v.Class == c {
			return true
		}
	}
	for _, c := range classes[prop] {
		if v.Class == c {
			return true
		}
	}
	return false
}

func firstRelevant(prop string, r *simrt.Result) *simrt.Violation {
	for i := range r.Viol {
		if relevant(prop, r.Viol[i]) {
			return &r.Viol[i]
		}
	}
	return nil
}

// Replay is a self-contained description of a failing run.
type Replay struct {
	Property string         `json:"property"`
	Class    string         `json:"class"`
	Message  string         `json:"message"`
	Step     uint64         `json:"step"`
	Variant  string         `json:"variant"`
	Seed     uint64         `json:"verif_seed"`
	Scenario *Scenario      `json:"scenario"`
	Choices  []simrt.Choice `json:"choices"`
	Crash    bool           `json:"crash,omitempty"` // the process dies: run by seed, not by choices
	Steps    uint64         `json:"steps"`
	Log      string         `json:"log"` // fingerprint of the execution
	Found    string         `json:"found"`
}

// Report of a worker.
type Report struct {
	Runs, Next            uint64
	Steps                 uint64
	Calls, Sorts, Queries int
	Nested, Panics        int
	Stalls, GorSets       int
	Misuses               int
	Boots, Refused        int
	GCCycles, GCSlots     int
	Helpers, Par, MaxPeak int
	Elems, MaxDepth       int
	Sim                   simrt.Stats
	Sigs                  []uint64 `json:",omitempty"`
	Sites                 []uint64
	NSites                int
	Wall                  float64
	Cut                   bool // stopped by the time limit
	Replay                string
	Other                 map[string]int // violations of other properties seen
	Samples               []json.RawMessage
	Pols                  map[string]int
	Digest                uint64
	MinSpan               int
}

var gcEvery int

func main() {
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	if len(os.Args) < 2 {
		fatal("usage: harness worker|replay|one ...")
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	variant := fs.String("variant", "tune", "variant")
	seed := fs.Uint64("seed", 1, "seed")
	from := fs.Uint64("from", 0, "first run")
	step := fs.Uint64("step", 1, "stride")
	count := fs.Uint64("count", 100, "runs, over all strides")
	secs := fs.Float64("secs", 1e9, "time limit")
	sites := fs.String("sites", "", "directory with sites.json")
	out := fs.String("out", "", "report file")
	rep := fs.String("replay", "", "replay file")
	status := fs.String("status", "", "status file")
	verbose := fs.Bool("v", false, "log runs")
	minSecs := fs.Float64("minsecs", 60, "minimisation time")
	fs.Parse(os.Args[2:])
	loadSites(*sites)
	switch os.Args[1] {
	case "worker":
		worker(*prop, *variant, *seed, *from, *step, *count, *secs, *out, *rep, *status, *verbose, *minSecs)
	case "replay":
		os.Exit(doReplay(*rep))
	default:
		fatal("unknown mode")
	}
}

func worker(prop, variant string, seed, from, step, count uint64, secs float64, out, rep, status string, verbose bool, minSecs float64) {
	t0 := time.Now()
	rp := &Report{Other: map[string]int{}, Pols: map[string]int{}, NSites: len(simrt.Sites), Sites: make([]uint64, len(simrt.Sites)/64+2)}
	sigs := map[uint64]bool{}
	var stf *os.File
	if status != "" {
		stf, _ = os.OpenFile(status, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	}
	var lw *bufio.Writer
	if verbose {
		lw = bufio.NewWriter(os.Stdout)
		defer lw.Flush()
	}
	var ms runtime.MemStats
	for i := from; i < count; i += step {
		if time.Since(t0).Seconds() > secs {
			rp.Cut = true
			break
		}
		if stf != nil {
			stf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		rp.Next = i + step
		sc := genScenario(prop, variant, seed, i)
		o := runScenario(sc, nil, false)
		rp.add(o)
		if o.res.St.Switches > 1 {
			sigs[o.res.Sig] = true
		}
		rp.Digest = mixSeed(rp.Digest, mixSeed(o.res.Sig, o.res.Steps))
		if lw != nil {
			fmt.Fprintf(lw, "%d %016x %d %d %d\n", i, o.res.Sig, o.res.Steps, len(o.res.Trace), len(o.res.Viol))
			for _, v := range o.res.Viol {
				fmt.Fprintf(lw, "   %s: %s\n", v.Class, v.Msg)
			}
		}
		if len(rp.Samples) < 2 && o.st.par > 0 {
			b, _ := json.Marshal(map[string]any{"run": i, "scenario": sc, "steps": o.res.Steps, "goroutines": o.res.St.MaxTasks, "context_switches": o.res.St.Switches})
			if len(b) < 4000 {
				rp.Samples = append(rp.Samples, b)
			}
		}
		if v := firstRelevant(prop, o.res); v != nil {
			r := minimise(sc, o, *v, seed, time.Duration(minSecs*float64(time.Second)))
			b, _ := json.MarshalIndent(r, "", " ")
			if err := os.WriteFile(rep, b, 0o644); err != nil {
				fatal("%v", err)
			}
			rp.Replay = rep
			break
		}
		for _, v := range o.res.Viol {
			rp.Other[v.Class]++
		}
		if gcEvery++; gcEvery%16 == 0 || o.st.elems > 20000 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 96<<20 {
				runtime.GC()
			}
		}
	}
	for s := range sigs {
		rp.Sigs = append(rp.Sigs, s)
	}
	sort.Slice(rp.Sigs, func(i, k int) bool { return rp.Sigs[i] < rp.Sigs[k] })
	rp.MinSpan = minSpanD
	rp.Wall = time.Since(t0).Seconds()
	b, _ := json.Marshal(rp)
	if out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if verbose {
		lw.Flush()
		rp.Sigs, rp.Sites, rp.Samples = nil, nil, nil
		b, _ = json.Marshal(rp)
		fmt.Println(string(b))
	}
}

func (rp *Report) add(o *outcome) {
	rp.Runs++
	rp.Steps += o.res.Steps
	rp.Calls += o.st.calls
	rp.Sorts += o.st.sorts
	rp.Queries += o.st.queries
	rp.Nested += o.st.nested
	rp.Panics += o.st.panics
	rp.Stalls += o.st.stalls
	rp.GorSets += o.st.gorSets
	rp.Misuses += o.st.misuses
	rp.Boots += o.st.boots
	rp.Refused += o.st.refused
	rp.GCCycles += o.st.gcCycles
	rp.GCSlots += o.st.gcSlots
	rp.Helpers += o.st.helpers
	rp.Par += o.st.par
	rp.Elems += o.st.elems
	if o.st.maxPeak > rp.MaxPeak {
		rp.MaxPeak = o.st.maxPeak
	}
	if o.st.maxDepth > rp.MaxDepth {
		rp.MaxDepth = o.st.maxDepth
	}
	a, b := &rp.Sim, &o.res.St
	a.Steps += b.Steps
	a.Switches += b.Switches
	a.SyncOps += b.SyncOps
	a.Spawns += b.Spawns
	a.Chans += b.Chans
	a.Sends += b.Sends
	a.Recvs += b.Recvs
	a.Atomics += b.Atomics
	a.CASFail += b.CASFail
	a.Locks += b.Locks
	a.Preempts += b.Preempts
	a.Stalls += b.Stalls
	a.SpawnDelays += b.SpawnDelays
	a.TimerJumps += b.TimerJumps
	a.BlockedChoices += b.BlockedChoices
	a.Blocks += b.Blocks
	a.Orphans += b.Orphans
	a.ClockJumps += b.ClockJumps
	if b.MaxTasks > a.MaxTasks {
		a.MaxTasks = b.MaxTasks
	}
	rp.Pols[o.pol]++
	for i, w := range o.sites {
		rp.Sites[i] |= w
	}
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	var o *outcome
	if r.Crash {
		o = runScenario(genScenario(r.Property, r.Variant, r.Seed, r.Scenario.Run), nil, false)
	} else {
		o = runScenario(r.Scenario, r.Choices, true)
	}
	fmt.Printf("steps=%d log=%s\n", o.res.Steps, logOf(o.res))
	hit := false
	for _, v := range o.res.Viol {
		fmt.Printf("step %d %s: %s\n", v.Step, v.Class, v.Msg)
		if v.Class == r.Class {
			hit = true
		}
	}
	if !hit {
		fmt.Println("not reproduced on this tree")
		return 0
	}
	if logOf(o.res) == r.Log {
		fmt.Println("identical execution: yes")
	} else {
		fmt.Println("identical execution: no (the tree differs from the one the file was made on)")
	}
	return 1
}

func logOf(r *simrt.Result) string {
	return strconv.FormatUint(r.Sig, 16) + "/" + strconv.FormatUint(r.Steps, 10)
}
