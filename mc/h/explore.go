//go:build go1.22

package main

// The explorer: enumerates, level by level, every schedule of a scenario that
// differs from the default schedule in at most `bound` choice points, running
// the real code once for each.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuf
	dead   bool
	runs   int
}

type tailBuf struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() < 1<<16 {
		t.buf.Write(p)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.buf.String() }

var raceDir string

func startWorker(bin, scID string, fresh bool) (*worker, error) {
	cmd := exec.Command(bin, "worker", scID)
	if fresh {
		cmd.Args = append(cmd.Args, "fresh")
	}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1",
		"MC_RACELOG="+filepath.Join(raceDir, "race"), "GORACE=log_path="+filepath.Join(raceDir, "race")+" halt_on_error=0 history_size=3 exitcode=0", "TZ=UTC")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<18), stderr: &tailBuf{}}
	cmd.Stderr = w.stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *worker) stop() {
	if w == nil {
		return
	}
	w.in.Close()
	if w.cmd.Process != nil {
		w.cmd.Process.Kill()
	}
	w.cmd.Wait()
	os.Remove(filepath.Join(raceDir, "race."+strconv.Itoa(w.cmd.Process.Pid)))
}

const execTimeout = 300 * time.Second

// runDev runs one execution on the worker; crash is non-empty if the process died.
func (w *worker) run(dev string, verbose bool) (r *Result, recycle bool, crash string) {
	w.runs++
	cmdline := dev
	if verbose {
		cmdline += " v"
	}
	timedOut := int32(0)
	tm := time.AfterFunc(execTimeout, func() {
		atomic.StoreInt32(&timedOut, 1)
		w.cmd.Process.Kill()
	})
	defer tm.Stop()
	_, err := io.WriteString(w.in, cmdline+"\n")
	var line []byte
	if err == nil {
		line, err = w.out.ReadBytes('\n')
	}
	if err != nil {
		w.cmd.Wait()
		w.dead = true
		if atomic.LoadInt32(&timedOut) == 1 {
			return nil, true, "HANG: no progress in real time"
		}
		s := w.stderr.String()
		if s == "" {
			s = "worker exited: " + w.cmd.ProcessState.String()
		}
		return nil, true, s
	}
	r = &Result{}
	if err := json.Unmarshal(line, r); err != nil {
		w.dead = true
		w.cmd.Process.Kill()
		w.cmd.Wait()
		return nil, true, "bad worker output: " + string(line)
	}
	return r, r.Recycle, ""
}

// pool item
type item struct {
	dev    devs
	expect uint32 // hash of the choice points before the last deviation
	hasExp bool
}

type Stats struct {
	Scenario   string
	Bound      int // requested
	Completed  int // deviation bound enumerated completely (-1: none)
	Exhaustive bool
	Execs      int64
	States     int64 // distinct nodes of the schedule tree
	Cases      int64 // inputs checked inside the executions
	Steps      int64 // scheduler steps executed
	Outcomes   map[string]int64
	Diverged   int64
	Truncated  int64
	MaxPoints  int
	Wall       float64
	LevelSize  []int
	Found      []FoundViol
	Ignored    map[string]int64
	Samples    []string
	Unexplored int
	Note       string
}

type FoundViol struct {
	V     Violation
	Dev   string
	Sc    string
	Bin   string
	Fresh bool
}

type Explorer struct {
	bin      string
	sc       *Scenario
	bound    int
	deadline time.Time
	nworkers int
	want     func(v Violation) bool // is it a violation of the property being checked?
	known    func(v Violation) bool
	seed     int
	maxItems int
	// every execution in a process of its own: the code under test has state
	// that outlives an execution
	fresh bool
	leaky int32
}

// leaks tells whether a violation of a worker that ran other executions before
// is absent if the execution is the only one of its process.
func (e *Explorer) leaks(dev, prop string, r *Result, crash string) bool {
	var first *Violation
	if crash != "" {
		v := crashViolation(e.sc, prop, crash)
		first = &v
	} else {
		for i := range r.Viols {
			if v := &r.Viols[i]; e.want(*v) && !e.known(*v) {
				first = v
				break
			}
		}
	}
	if first == nil {
		return false
	}
	n, _, _ := confirm(FoundViol{*first, dev, e.sc.ID, e.bin, true}, 1)
	return n == 0
}

func crashViolation(sc *Scenario, prop, txt string) Violation {
	key := "crash"
	first := ""
	for _, ln := range strings.Split(txt, "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "" {
			continue
		}
		if first == "" || strings.HasPrefix(ln, "panic:") || strings.HasPrefix(ln, "fatal error:") {
			first = ln
			if strings.HasPrefix(ln, "panic:") || strings.HasPrefix(ln, "fatal error:") {
				break
			}
		}
	}
	if strings.HasPrefix(txt, "HANG") {
		key = "hang"
	} else if strings.Contains(txt, "MC-LIVELOCK") {
		key = "livelock"
		first = "livelock: unbounded activity without progress"
	}
	if len(txt) > 5000 {
		txt = txt[:5000]
	}
	return Violation{prop, key, "process crashed: " + first + "\n" + txt}
}

// Run explores the scenario.
func (e *Explorer) Run(prop string) *Stats {
	st := e.explore(prop)
	if atomic.LoadInt32(&e.leaky) == 0 || e.fresh {
		return st
	}
	e.fresh = true
	first := st.Wall
	st = e.explore(prop)
	st.Wall += first
	st.Note += "state of the process survives executions: every execution in a process of its own; "
	return st
}

func (e *Explorer) explore(prop string) *Stats {
	st := &Stats{Scenario: e.sc.ID, Bound: e.bound, Completed: -1, Outcomes: map[string]int64{}, Ignored: map[string]int64{}}
	t0 := time.Now()
	defer func() { st.Wall = time.Since(t0).Seconds() }()

	level := []item{{}}
	seenViol := map[string]bool{}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	for lv := 0; lv <= e.bound && len(level) > 0; lv++ {
		queue := level
		var next []item
		inflight, ran := 0, 0
		var stop int32
		nw := e.nworkers
		if lv == 0 && len(queue) == 1 && !e.sc.Hist {
			nw = 1
		}
		var wg sync.WaitGroup
		for i := 0; i < nw; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var w *worker
				defer func() {
					if w != nil {
						w.stop()
					}
				}()
				for {
					mu.Lock()
					for len(queue) == 0 && inflight > 0 && stop == 0 {
						cond.Wait()
					}
					if len(queue) == 0 || stop != 0 {
						cond.Broadcast()
						mu.Unlock()
						return
					}
					it := queue[len(queue)-1]
					if e.sc.Hist {
						queue = queue[:len(queue)-1]
					} else {
						it = queue[0]
						queue = queue[1:]
					}
					inflight++
					mu.Unlock()
					var r *Result
					var crash string
					for try := 0; try < 3; try++ {
						if w == nil {
							var err error
							w, err = startWorker(e.bin, e.sc.ID, e.fresh)
							if err != nil {
								fmt.Fprintln(os.Stderr, "worker:", err)
								os.Exit(3)
							}
						}
						var recycle bool
						r, recycle, crash = w.run(it.dev.String(), false)
						if crash != "" {
							killed := strings.HasPrefix(crash, "worker exited: signal: killed")
							w.stop()
							w = nil
							if killed {
								continue // killed from outside (memory): retry
							}
							break
						}
						if recycle {
							w.stop()
							w = nil
						}
						if r.Div || it.hasExp && it.expect != r.PfxHash {
							if w != nil && w.runs > 1 {
								w.stop()
								w = nil
							}
							continue // did not replay its prefix
						}
						break
					}
					if !e.fresh && (crash != "" || r != nil && len(r.Viols) > 0) {
						if e.leaks(it.dev.String(), prop, r, crash) {
							atomic.StoreInt32(&e.leaky, 1)
						}
					}
					mu.Lock()
					inflight--
					if !e.fresh && atomic.LoadInt32(&e.leaky) != 0 {
						stop = 1
						cond.Broadcast()
						mu.Unlock()
						return
					}
					same, nxt := e.account(st, seenViol, prop, lv, it, r, crash, &stop)
					queue = append(queue, same...)
					next = append(next, nxt...)
					ran++
					if time.Now().After(e.deadline) {
						stop = 1
					}
					cond.Broadcast()
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		st.LevelSize = append(st.LevelSize, ran+len(queue))
		if len(queue) == 0 && stop == 0 {
			st.Completed = lv
		} else {
			st.Unexplored = len(queue)
			break
		}
		// deterministic order of the next level, independent of worker timing
		sort.Slice(next, func(i, j int) bool {
			a, b := next[i].dev, next[j].dev
			for k := 0; k < len(a.idx) && k < len(b.idx); k++ {
				if a.idx[k] != b.idx[k] {
					return a.idx[k] < b.idx[k]
				}
				if a.val[k] != b.val[k] {
					return a.val[k] < b.val[k]
				}
			}
			return len(a.idx) < len(b.idx)
		})
		if len(next) == 0 {
			st.Exhaustive = true // no further choice points: every schedule was run
		}
		level = next
	}
	if st.Diverged > 0 {
		st.Note += fmt.Sprintf("%d executions did not replay their prefix; ", st.Diverged)
	}
	return st
}

// account books one execution and returns the executions to run next, at the
// same deviation count and with one more deviation.
func (e *Explorer) account(st *Stats, seenViol map[string]bool, prop string, lv int, it item, r *Result, crash string, stop *int32) (same, next []item) {
	if crash != "" {
		if strings.HasPrefix(crash, "worker exited: signal: killed") {
			st.Note += "a worker was killed from outside; "
			st.Unexplored++
			*stop = 1
			return
		}
		st.Execs++
		e.handle(st, seenViol, crashViolation(e.sc, prop, crash), it.dev.String(), stop)
		return
	}
	st.Execs++
	st.Steps += r.Steps
	st.Cases += r.Cases
	st.Outcomes[r.Out]++
	if r.NPts > st.MaxPoints {
		st.MaxPoints = r.NPts
	}
	last := -1
	if n := len(it.dev.idx); n > 0 {
		last = int(it.dev.idx[n-1])
	}
	st.States += int64(r.NPts - last)
	if r.Trunc {
		st.Truncated++
	}
	if r.Div || (it.hasExp && it.expect != r.PfxHash) {
		st.Diverged++
	}
	if len(st.Samples) < 4 && (st.Execs == 1 || st.Execs%97 == 5) {
		st.Samples = append(st.Samples, fmt.Sprintf("schedule %s: %d choice points, %d steps, outcome %s, %d goroutines left", r.Dev, r.NPts, r.Steps, r.Out, r.Blocked))
	}
	for _, v := range r.Viols {
		e.handle(st, seenViol, v, it.dev.String(), stop)
	}
	if *stop != 0 {
		return
	}
	fi := 0
	for i := last + 1; i < r.NPts; i++ {
		for fi < len(r.Free) && int(r.Free[fi]) < i {
			fi++
		}
		free := fi < len(r.Free) && int(r.Free[fi]) == i
		if !free && lv >= e.bound {
			continue
		}
		for a := 1; a < int(r.Ns[i]); a++ {
			nd := devs{append(append([]int32{}, it.dev.idx...), int32(i)), append(append([]int32{}, it.dev.val...), int32(a))}
			ni := item{nd, r.Hashes[i], true}
			if free {
				same = append(same, ni)
			} else {
				next = append(next, ni)
			}
		}
	}
	return
}

func (e *Explorer) handle(st *Stats, seen map[string]bool, v Violation, dev string, stop *int32) {
	if !e.want(v) {
		st.Ignored[v.Prop+"/"+v.Key]++
		return
	}
	if seen[v.Key] {
		return
	}
	seen[v.Key] = true
	st.Found = append(st.Found, FoundViol{v, dev, e.sc.ID, e.bin, true})
	if !e.known(v) {
		atomic.StoreInt32(stop, 1)
	}
}

// confirm re-runs a violation n times in fresh processes.
func confirm(f FoundViol, n int) (int, *Result, string) {
	ok := 0
	var last *Result
	var crash string
	for i := 0; i < n; i++ {
		w, err := startWorker(f.Bin, f.Sc, f.Fresh)
		if err != nil {
			return ok, nil, ""
		}
		r, _, c := w.run(f.Dev, true)
		w.stop()
		if c != "" {
			v := crashViolation(findScenario(f.Sc), f.V.Prop, c)
			if v.Key == f.V.Key {
				ok++
				crash = c
			}
			continue
		}
		for _, v := range r.Viols {
			if v.Prop == f.V.Prop && v.Key == f.V.Key {
				ok++
				last = r
				break
			}
		}
	}
	return ok, last, crash
}
