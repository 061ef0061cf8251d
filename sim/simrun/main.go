// Command simrun executes simulated runs of etxe: it explores seeds, replays a
// recorded run, and minimises a failing one.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simrun explore|run|gen|minimise|log ...")
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	switch os.Args[1] {
	case "explore":
		explore(os.Args[2:])
	case "run":
		runCmd(os.Args[2:])
	case "gen":
		genCmd(os.Args[2:])
	case "minimise":
		minimiseCmd(os.Args[2:])
	case "golden":
		goldenCmd()
	case "reading":
		readingCmd()
	case "cost":
		costCmd(os.Args[2:])
	case "hashes":
		hashesCmd(os.Args[2:])
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

// generate makes the plan of a seed.
func generate(prop string, seed uint64) *Plan {
	g := generators[prop]
	if g == nil {
		fatal("no scenario for property %q", prop)
	}
	r := simrt.NewRand(seed)
	p := &Plan{Prop: prop, Seed: seed, Cfg: map[string]int{}}
	p.Sched = sched(r)
	g(p, r)
	if p.Engine == "etx" {
		// What is parsed, and parsed again for reference.
		for _, o := range p.Ops {
			if o.K == "p" {
				p.Sched.Budget += 400 * uint64(len(p.Docs[o.A].data()))
			}
		}
	}
	return p
}

// sched draws a scheduler configuration.
func sched(r *simrt.Rand) Sched {
	s := Sched{Seed: r.Uint64(), Budget: 16_000_000, Maps: r.Intn(8) != 0}
	switch r.Intn(8) {
	case 0:
		s.Policy = simrt.PolicySerial
	case 1, 2:
		s.Policy = simrt.PolicyPCT
		s.Depth = 1 + r.Intn(6)
		s.Horizon = 1 << (5 + r.Intn(8))
	default:
		s.Policy = simrt.PolicyRandom
		s.Gap = 1 << r.Intn(10)
		s.Op = []float64{0, .1, .3, .5, .8, 1}[r.Intn(6)]
	}
	if r.Intn(6) == 0 {
		s.Holds = 1 + r.Intn(4)
	}
	s.CPUs = []int{1, 2, 3, 4, 8, 16, 64}[r.Intn(7)]
	return s
}

// Report is what an exploring worker writes when it ends.
type Report struct {
	Runs       uint64            `json:"runs"`
	First      uint64            `json:"first_index"`
	Next       uint64            `json:"next_index"`
	Nontrivial uint64            `json:"nontrivial"`
	Steps      uint64            `json:"steps"`
	Points     uint64            `json:"points"`
	Switches   uint64            `json:"switches"`
	ChanOps    uint64            `json:"chan_ops"`
	Maps       uint64            `json:"map_iterations"`
	Tasks      uint64            `json:"tasks"`
	SimTime    int64             `json:"sim_ns"`
	WallNs     int64             `json:"wall_ns"`
	Counters   map[string]uint64 `json:"counters"`
	Fail       *Plan             `json:"fail,omitempty"`
	FailIndex  uint64            `json:"fail_index,omitempty"`
	FailMsg    string            `json:"fail_msg,omitempty"`
	Race       bool              `json:"race_build"`
	Samples    []string          `json:"samples,omitempty"`
	Known      []string          `json:"known,omitempty"`
}

func (r *Report) add(o *Outcome) {
	s := &o.Stats
	r.Runs++
	r.Steps += s.Steps
	r.Points += s.Points
	r.Switches += s.Switches
	r.ChanOps += s.ChanOps
	r.Maps += s.Maps
	r.Tasks += s.Spawns
	r.SimTime += s.SimTime
}

func indexSeed(base, index uint64) uint64 { return simrt.Mix(base, index) }

func explore(args []string) {
	fs := flag.NewFlagSet("explore", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "base seed")
	start := fs.Uint64("start", 0, "first index")
	stride := fs.Uint64("stride", 1, "")
	max := fs.Uint64("n", 1<<62, "maximum number of runs")
	ms := fs.Int("ms", 1000, "real milliseconds after which no new run starts")
	out := fs.String("out", "-", "")
	progress := fs.String("progress", "", "file holding the index of the run in progress")
	knownFile := fs.String("known", "", "known findings to pass over")
	cold := fs.Bool("cold", false, "one process per run")
	fs.Parse(args)

	rep := &Report{First: *start, Race: simrt.RaceBuild, Counters: map[string]uint64{}}
	readKnown(*knownFile)
	var pf *os.File
	if *progress != "" {
		f, err := os.Create(*progress)
		if err != nil {
			fatal("%v", err)
		}
		pf = f
	}
	var hashes []uint64
	begin := time.Now()
	deadline := begin.Add(time.Duration(*ms) * time.Millisecond)
	ix := *start
	var buf [8]byte
	for n := uint64(0); n < *max && (n == 0 || time.Now().Before(deadline)); n++ {
		if pf != nil {
			binary.LittleEndian.PutUint64(buf[:], ix)
			pf.WriteAt(buf[:], 0)
		}
		seed := indexSeed(*base, ix)
		var o *Outcome
		var p *Plan
		if *cold {
			o = coldRun(*prop, seed, rep)
			if o.Class != "" {
				p = generate(*prop, seed)
			}
		} else {
			p = generate(*prop, seed)
			interesting = false
			o = execute(p, false)
			if len(rep.Samples) < 2 && interesting {
				rep.Samples = append(rep.Samples, describe(p, o))
			}
			if interesting || o.Stats.Switches > 2 {
				rep.Nontrivial++
				hashes = append(hashes, o.Hash)
			}
		}
		rep.add(o)
		if *cold {
			rep.Nontrivial++
			hashes = append(hashes, o.Hash)
		}
		if k := knownFinding(o); k != "" {
			rep.Known = append(rep.Known, k)
			ix += *stride
			continue
		}
		if o.Class != "" {
			p.Expect = o.Class
			p.Trace = o.Trace
			rep.Fail, rep.FailIndex, rep.FailMsg = p, ix, o.Msg
			ix += *stride
			break
		}
		ix += *stride
	}
	rep.Next = ix
	rep.WallNs = int64(time.Since(begin))
	for _, c := range counters {
		rep.Counters[c.name] += c.n
	}
	writeJSON(*out, rep)
	if *out != "-" {
		hb := make([]byte, 8*len(hashes))
		for i, h := range hashes {
			binary.LittleEndian.PutUint64(hb[8*i:], h)
		}
		os.WriteFile(*out+".hashes", hb, 0o644)
	}
}

// knowns are the findings that are recorded and not reported again.
var knowns []struct {
	ID    string
	Class string
	Match string
	re    *regexp.Regexp
}

func readKnown(path string) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &knowns)
	}
	if err != nil {
		fatal("%v", err)
	}
	for i := range knowns {
		knowns[i].re = regexp.MustCompile(knowns[i].Match)
	}
}

func knownFinding(o *Outcome) string {
	if o.Class == "" {
		return ""
	}
	for i := range knowns {
		if knowns[i].Class == o.Class && knowns[i].re.MatchString(o.Msg) {
			return knowns[i].ID
		}
	}
	return ""
}

func describe(p *Plan, o *Outcome) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "seed %d policy %d gap %d", p.Seed, p.Sched.Policy, p.Sched.Gap)
	for k, v := range p.Cfg {
		_ = k
		_ = v
	}
	for _, op := range p.Ops {
		fmt.Fprintf(&sb, " | t%d %s %d %d %d", op.T, op.K, op.A, op.B, op.C)
		if sb.Len() > 1500 {
			sb.WriteString(" ...")
			break
		}
	}
	fmt.Fprintf(&sb, " => %d steps, %d switches, %d decisions taken, hash %016x", o.Stats.Steps, o.Stats.Switches, len(o.Trace), o.Hash)
	return sb.String()
}

// interesting is set when a fault fired or a concurrency condition was reached.
var interesting bool

// fault counts an injected fault.
func fault(name string) {
	interesting = true
	count("fault." + name)
}

// probe counts a rare condition that was reached.
func probe(name string) { count("probe." + name) }

// coldRun executes one run in a process of its own, so that the first use of
// everything in the process is part of the simulated execution.
func coldRun(prop string, seed uint64, rep *Report) *Outcome {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	tmp, err := os.CreateTemp("", "simcold")
	if err != nil {
		fatal("%v", err)
	}
	tmp.Close()
	defer os.Remove(tmp.Name())
	cmd := exec.Command(exe, "run", "-prop", prop, "-seed", fmt.Sprint(seed), "-out", tmp.Name())
	b, err := cmd.CombinedOutput()
	r, rerr := readRun(tmp.Name())
	if rerr != nil {
		if ee, ok := err.(*exec.ExitError); ok && !ee.Success() {
			return &Outcome{Class: "fatal", Msg: tail(string(b), 3000)}
		}
		fatal("cold run: %v %v\n%s", err, rerr, b)
	}
	for k, v := range r.Counters {
		countN(k, v)
	}
	if len(rep.Samples) < 2 {
		rep.Samples = append(rep.Samples, describe(generate(prop, seed), r.Outcome))
	}
	return r.Outcome
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func genCmd(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 0, "")
	base := fs.Uint64("base", 0, "")
	index := fs.Uint64("index", 0, "")
	out := fs.String("out", "-", "")
	fs.Parse(args)
	if *seed == 0 {
		*seed = indexSeed(*base, *index)
	}
	writeJSON(*out, generate(*prop, *seed))
}

// costCmd prints what the largest runs cost.
func costCmd(args []string) {
	fs := flag.NewFlagSet("cost", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	n := fs.Uint64("n", 1000, "number of plans looked at")
	min := fs.Int("min", 80, "least size of a plan's universe")
	pct := fs.Uint64("pct", 0, "least percentage of the budget used")
	fs.Parse(args)
	for ix := uint64(0); ix < *n; ix++ {
		p := generate(*prop, indexSeed(*base, ix))
		if p.Cfg["max"] < *min {
			continue
		}
		t := time.Now()
		o := execute(p, false)
		used := 100 * o.Stats.Steps / p.Sched.Budget
		if timers := 100 * o.Stats.Timers / (100_000 + p.Sched.Budget/20); timers > used {
			used = timers
		}
		if used < *pct {
			continue
		}
		fmt.Printf("%d %v ops %d: %d%% of the budget, %d steps, %d points, %d ms, %s %.200s\n", ix, p.Cfg, len(p.Ops), used, o.Stats.Steps, o.Stats.Points, time.Since(t).Milliseconds(), o.Class, o.Msg)
	}
}

// hashesCmd prints the hash of each run, to compare executions.
func hashesCmd(args []string) {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	n := fs.Uint64("n", 10, "")
	replay := fs.Bool("replay", false, "replay each run from its trace and compare")
	fs.Parse(args)
	for i := uint64(0); i < *n; i++ {
		ix := *start + i**stride
		p := generate(*prop, indexSeed(*base, ix))
		o := execute(p, false)
		fmt.Printf("%d %016x %d %d %s\n", ix, o.Hash, o.Stats.Steps, o.Stats.SimTime, o.Class)
		if *replay {
			q := clone(p)
			q.Replay, q.Trace = true, o.Trace
			o2 := execute(q, false)
			if o2.Hash != o.Hash || o2.Class != o.Class || o2.Stats.Steps != o.Stats.Steps {
				fmt.Printf("MISMATCH %d %016x %s\n", ix, o2.Hash, o2.Class)
			}
		}
	}
}
