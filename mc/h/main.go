//go:build go1.22

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" (a finding that is listed) or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path string) []Known {
	var ks []Known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "" || ln[0] != '{' {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(ln), &k) == nil && k.Status == "known" {
			ks = append(ks, k)
		}
	}
	return ks
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc list | worker SCENARIO | check PROP ... | replay FILE | run SCENARIO [dev]")
		os.Exit(2)
	}
	applyBounds()
	switch os.Args[1] {
	case "list":
		for _, s := range scenarios {
			fmt.Println(s.ID, s.Props, s.Quick, s.Thorough)
		}
	case "worker":
		workerMain(os.Args[2], len(os.Args) > 3 && os.Args[3] == "fresh")
	case "run":
		dev := "-"
		if len(os.Args) > 3 {
			dev = os.Args[3]
		}
		raceDir = tmpDir()
		defer os.RemoveAll(raceDir)
		self, _ := os.Executable()
		w, err := startWorker(self, os.Args[2], os.Getenv("MC_FRESH") != "")
		if err != nil {
			fmt.Println(err)
			return
		}
		r, _, crash := w.run(dev, true)
		w.stop()
		printRun(r, crash)
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func tmpDir() string {
	d, err := os.MkdirTemp("", "mcrace")
	if err != nil {
		return os.TempDir()
	}
	return d
}

func printRun(r *Result, crash string) {
	if crash != "" {
		fmt.Println("CRASH:", crash)
		return
	}
	for _, e := range r.Events {
		fmt.Println(e)
	}
	fmt.Printf("choice points %d, steps %d, blocked at end %d, virtual time %.3fs, diverged %v\n", r.NPts, r.Steps, r.Blocked, float64(r.VTime)/1e9, r.Div)
	if r.Logs != "" {
		fmt.Println("log output:", r.Logs)
	}
	for _, v := range r.Viols {
		fmt.Println("FAILED:", v.Prop, v.Key, v.Msg)
	}
}

type replayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Schedule string   `json:"schedule"`
	Race     bool     `json:"race"`
	Fresh    bool     `json:"fresh_process"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Events   []string `json:"events"`
	HowTo    string   `json:"how_to_replay"`
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	raceDir = tmpDir()
	defer os.RemoveAll(raceDir)
	self, _ := os.Executable()
	w, err := startWorker(self, rf.Scenario, rf.Fresh)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r, _, crash := w.run(rf.Schedule, true)
	w.stop()
	printRun(r, crash)
	return 0
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	evid := fs.String("evidence", "", "")
	knownF := fs.String("known", "", "")
	replayDir := fs.String("replays", "", "")
	raceBin := fs.String("racebin", "", "")
	budget := fs.Int("budget", 120, "seconds")
	seed := fs.Int("seed", 1, "")
	less := fs.Int("less", 0, "lower the bounds of the scenarios with schedules by this number (to try mutants)")
	only := fs.String("only", "", "only this scenario")
	nw := fs.Int("workers", 8, "")
	skip := fs.String("skip", "", "scenarios to leave out, separated by commas (to try mutants)")
	fs.Parse(args)
	t0 := time.Now()
	raceDir = tmpDir()
	defer os.RemoveAll(raceDir)
	self, _ := os.Executable()
	known := loadKnown(*knownF)

	var scs []*Scenario
	for _, s := range scenarios {
		if strings.Contains(","+*skip+",", ","+s.ID+",") {
			continue
		}
		for _, p := range s.Props {
			if (p == *prop || *prop == "ALL") && (*only == "" || *only == s.ID) {
				scs = append(scs, s)
				break
			}
		}
	}
	if len(scs) == 0 {
		fmt.Println("no scenario for", *prop)
		return 2
	}
	var all []*Stats
	var found []FoundViol
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	isKnown := func(sc string, v Violation) *Known {
		for i := range known {
			if known[i].Property == v.Prop && known[i].Scenario == sc && known[i].Key == v.Key {
				return &known[i]
			}
		}
		return nil
	}
	first := 0
	if *prop == "ALL" {
		// to try mutants quickly: the default schedules first
		first = len(scs)
		scs = append(append([]*Scenario{}, scs...), scs...)
	}
	// iterative deepening over all scenarios: share the time
	for i, sc := range scs {
		left := time.Until(deadline)
		// most scenarios take much less than their share: lend generously
		share := left / time.Duration(len(scs)-i)
		if most := left - time.Duration(len(scs)-i-1)*3*time.Second; share*6 < most {
			share *= 6
		} else if share < most {
			share = most
		}
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		bound := sc.Quick
		if *tier == "thorough" {
			bound = sc.Thorough
		}
		if bound < 0 || i < first && sc.Hist && bound == 0 {
			continue
		}
		if i < first {
			bound = 0
		}
		if bound -= *less; bound < 0 {
			bound = 0
		}
		bin := self
		if *prop == "C05" && *raceBin != "" {
			bin = *raceBin
			if *tier != "thorough" && sc.Race != 0 {
				bound = sc.Race - 1
			}
			if *tier != "thorough" && bound > 2 {
				bound = 2
			}
			if bound < 0 {
				continue
			}
		}
		e := &Explorer{bin: bin, sc: sc, bound: bound, fresh: sc.Fresh, deadline: time.Now().Add(share), nworkers: *nw, seed: *seed,
			want:  func(v Violation) bool { return v.Prop == *prop || *prop == "ALL" },
			known: func(v Violation) bool { return isKnown(sc.ID, v) != nil }}
		st := e.Run(*prop)
		all = append(all, st)
		found = append(found, st.Found...)
		fmt.Printf("%-28s bound %d (complete to %d) schedules %d states %d steps %d outcomes %d levels %v wall %.1fs %s\n", sc.ID, bound, st.Completed, st.Execs, st.States, st.Steps, len(st.Outcomes), st.LevelSize, st.Wall, st.Note)
		stopNow := false
		for _, f := range st.Found {
			if isKnown(f.Sc, f.V) == nil {
				stopNow = true
			}
		}
		if stopNow {
			break
		}
	}
	code := 0
	violations := 0
	reported := map[string]bool{}
	for _, f := range found {
		if k := isKnown(f.Sc, f.V); k != nil {
			if !reported["k"+k.Scenario+k.Key] {
				reported["k"+k.Scenario+k.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", f.V.Prop, k.What, k.Key)
			}
			continue
		}
		var res *Result
		crash := ""
		{
			n, r, c := confirm(f, 5)
			res, crash = r, c
			if n < 5 {
				fmt.Printf("note: %s/%s schedule %s reproduced %d of 5 times; not reported: %s\n", f.Sc, f.V.Key, f.Dev, n, firstLine(f.V.Msg))
				for _, st := range all {
					if st.Scenario == f.Sc {
						st.Note += "an unreproducible failure was discarded; "
						st.Exhaustive = false
					}
				}
				continue
			}
		}
		violations++
		os.MkdirAll(*replayDir, 0755)
		path := filepath.Join(*replayDir, fmt.Sprintf("%s-%s-%d.json", *prop, sanitize(f.Sc), violations))
		rf := replayFile{Property: *prop, Scenario: f.Sc, Schedule: f.Dev, Race: f.Bin != self && f.Bin != "", Fresh: f.Fresh, Key: f.V.Key, Message: f.V.Msg,
			HowTo: "/verif/check.sh replay " + path}
		if res != nil {
			rf.Events = res.Events
		} else if crash != "" {
			rf.Events = strings.Split(crash, "\n")
		}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("scenario %s, schedule %s: %s\n", f.Sc, f.Dev, f.V.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		code = 1
	}
	if *evid != "" {
		writeEvidence(*evid, *prop, *tier, *seed, all, violations, time.Since(t0).Seconds())
	}
	return code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func writeEvidence(path, prop, tier string, seed int, all []*Stats, viol int, wall float64) {
	var states, trans, execs, cases int64
	exh := true
	var samples []interface{}
	var per []interface{}
	for _, s := range all {
		states += s.States
		trans += s.Steps
		execs += s.Execs
		cases += s.Cases
		if s.Completed < s.Bound && !s.Exhaustive {
			exh = false
		}
		for _, x := range s.Samples {
			samples = append(samples, s.Scenario+": "+x)
		}
		sc := findScenario(s.Scenario)
		per = append(per, map[string]interface{}{
			"scenario": s.Scenario, "what": sc.Desc, "deviation_bound": s.Bound, "bound_completed": s.Completed,
			"all_schedules": s.Exhaustive, "schedules_run": s.Execs, "schedule_tree_nodes": s.States, "scheduler_steps": s.Steps,
			"distinct_outcomes": len(s.Outcomes), "max_choice_points": s.MaxPoints, "schedules_per_level": s.LevelSize,
			"unexplored_in_last_level": s.Unexplored, "inputs_checked": s.Cases, "replay_divergences": s.Diverged, "truncated": s.Truncated, "wall_s": s.Wall, "note": s.Note,
		})
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	sort.SliceStable(per, func(i, j int) bool { return false })
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs,
			"inputs_checked": cases, "samples": samples, "exhaustive": exh, "scenarios": per,
			"explanation": "stateless model checking of the implementation itself: each explored schedule or enumerated input is an execution of the unmodified code under a controlled scheduler, virtual clock and simulated network; states = distinct nodes of the enumerated schedule trees , transitions = scheduler steps , traces_validated_against_impl = executions of the real code (there is no separate model), inputs_checked = messages or requests individually compared with the oracle inside the executions",
		},
		"assumptions": []string{
			"sequentially consistent interleavings at synchronisation operations, network I/O, select choices and blocking points (data-race freedom is checked by C05)",
			"the simulated network delivers each direction of a connection reliably and in order until it is closed, cut or stalled by the scenario",
			"bounds: number of deviations from the default schedule, scripted peers and message sets as listed per scenario",
		},
		"wall_s": wall, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, append(b, '\n'), 0644)
}
