package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"verif.local/sim/simrt"
)

// RunResult is what 'simrun run' writes.
type RunResult struct {
	Outcome  *Outcome          `json:"outcome"`
	Counters map[string]uint64 `json:"counters"`
	Log      []string          `json:"log,omitempty"`
}

func readRun(path string) (*RunResult, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := new(RunResult)
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	return r, nil
}

func runCmd(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 0, "")
	plan := fs.String("plan", "", "replay file")
	out := fs.String("out", "-", "")
	withLog := fs.Bool("log", false, "")
	fs.Parse(args)
	var p *Plan
	if *plan != "" {
		p = readPlan(*plan)
	} else {
		p = generate(*prop, *seed)
	}
	o := executeWithPrefix(p, *withLog)
	res := &RunResult{Outcome: o, Counters: map[string]uint64{}}
	for _, c := range counters {
		res.Counters[c.name] += c.n
	}
	if *withLog {
		for _, l := range o.log {
			res.Log = append(res.Log, fmt.Sprintf("step %d t=%dns task %d: %s %d %d", l.Step, l.Time, l.Task, l.Kind, l.A, l.B))
		}
	}
	writeJSON(*out, res)
}

// executeWithPrefix runs the plan, preceded by the runs it depends on.
func executeWithPrefix(p *Plan, log bool) *Outcome {
	if p.Prefix != nil {
		for _, s := range p.Prefix.Seeds {
			if o := execute(generate(p.Prop, s), false); o.Class != "" {
				return o
			}
		}
	}
	return execute(p, log)
}

var _ = simrt.RaceBuild
