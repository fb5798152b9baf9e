//go:build go1.22

package main

// One execution of a scenario under the controlled scheduler, and the worker
// process that runs executions on request of the explorer.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/google/uuid"
	"github.com/voltbras/go-ocpp"
)

type Scenario struct {
	ID    string   // unique name
	Props []string // properties its monitors decide
	Desc  string
	Run   func(x *X)
	// NoBlock: only preemptions, selects and harness choices deviate; the
	// order in which several runnable goroutines are resumed is FIFO.
	NoBlock bool
	// Hist: the scenario enumerates operation histories with harness choices
	Hist bool
	// Logs: the debug and error loggers are set (always with the race detector)
	Logs bool
	// Quick/Thorough: deviation bounds; Race: 1 + the bound of the quick tier
	// under the race detector (0: as Quick, at most 2)
	Quick, Thorough, Race int
	// Fresh: every execution is the first one of its process
	Fresh bool
	// Fine: every statement of the code under test is a possible preemption
	// point (not just its synchronisation and I/O operations)
	Fine bool
}

var scenarios []*Scenario

func reg(s *Scenario) { scenarios = append(scenarios, s) }

func findScenario(id string) *Scenario {
	for _, s := range scenarios {
		if s.ID == id {
			return s
		}
	}
	return nil
}

type Violation struct {
	Prop string `json:"prop"`
	Key  string `json:"key"` // stable identification of what fails
	Msg  string `json:"msg"`
}

type event struct {
	t    int64
	kind string
	a, b string
	n    int64
	p    interface{}
}

const maxEvents = 4096

// X is one execution.
type X struct {
	sc    *Scenario
	viols []Violation
	ev    [maxEvents]event
	nev   int
	tag   byte
	out   []string
	logs  bytes.Buffer
	// set by scenarios
	ended bool
	cases int64
	// called by the handlers of the rigs
	onHandle func(n int)
}

// Log records an event without creating a happens-before edge between the
// goroutines of the code under test.
//
//go:norace
func (x *X) Log(kind, a, b string, n int64) {
	if x.nev < maxEvents {
		e := &x.ev[x.nev]
		e.t = runtime.McNow()
		e.kind = kind
		e.a = a
		e.b = b
		e.n = n
		e.p = nil
		x.nev++
	}
	raceReleaseMerge(unsafe.Pointer(&x.tag))
}

//go:norace
func (x *X) LogP(kind, a, b string, p interface{}) {
	if x.nev < maxEvents {
		e := &x.ev[x.nev]
		e.t = runtime.McNow()
		e.kind = kind
		e.a = a
		e.b = b
		e.n = 0
		e.p = p
		x.nev++
	}
	raceReleaseMerge(unsafe.Pointer(&x.tag))
}

// Sync lets the scenario's main goroutine read everything logged so far.
//
//go:norace
func (x *X) Sync() { raceAcquire(unsafe.Pointer(&x.tag)) }

//go:norace
func (x *X) events() []event { return x.ev[:x.nev] }

// count of events of one kind (and a, if not empty)
//
//go:norace
func (x *X) count(kind, a string) int {
	n := 0
	for i := 0; i < x.nev; i++ {
		if x.ev[i].kind == kind && (a == "" || x.ev[i].a == a) {
			n++
		}
	}
	return n
}

//go:norace
func (x *X) find(kind, a string) *event {
	for i := 0; i < x.nev; i++ {
		if x.ev[i].kind == kind && (a == "" || x.ev[i].a == a) {
			return &x.ev[i]
		}
	}
	return nil
}

// prop may name several properties, separated by commas.
func (x *X) Fail(prop, key, format string, args ...interface{}) {
	for _, p := range strings.Split(prop, ",") {
		if len(x.viols) < 40 {
			x.viols = append(x.viols, Violation{p, key, fmt.Sprintf(format, args...)})
		}
	}
}

// Setup: the scenario could not be set up, no property of it can hold.
func (x *X) Setup(format string, args ...interface{}) {
	for _, p := range x.sc.Props {
		x.Fail(p, "setup", format, args...)
	}
}

// Outcome adds to the observable outcome of the execution (for counting
// distinct outcomes).
func (x *X) Outcome(format string, args ...interface{}) {
	x.out = append(x.out, fmt.Sprintf(format, args...))
}

// Settle lets everything run until blocked.
func (x *X) Settle() { time.Sleep(time.Millisecond) }

// Advance moves virtual time.
func (x *X) Advance(d time.Duration) { time.Sleep(d) }

func (x *X) Explore(on bool) { runtime.McExplore(on) }

type logSink struct{ x *X }

func (l logSink) Write(p []byte) (int, error) {
	if l.x.logs.Len() < 1<<16 {
		l.x.logs.Write(p)
	}
	return len(p), nil
}

// detReader gives deterministic uuids.
type detReader struct{ n uint64 }

//go:norace
func (d *detReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0xab + byte(i)
		if i >= 8 {
			p[i] = 0
		}
	}
	d.n++
	v := d.n
	for i := 0; i < 8 && i < len(p); i++ {
		p[len(p)-1-i] = byte(v)
		v >>= 8
	}
	return len(p), nil
}

// leaks returns the stacks of goroutines of this execution that are inside
// the code under test.
func leaks() []string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	id := "synctest bubble " + strconv.FormatUint(runtime.McBubbleID(), 10) + "]"
	var res []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		nl := strings.IndexByte(g, '\n')
		if nl < 0 || !strings.Contains(g[:nl], id) {
			continue
		}
		var fn string
		for _, ln := range strings.Split(g[nl+1:], "\n") {
			if strings.HasPrefix(ln, "github.com/voltbras/go-ocpp") {
				fn = ln
				if i := strings.LastIndexByte(fn, '('); i > 0 {
					fn = fn[:i]
				}
				break
			}
			if strings.HasPrefix(ln, "created by github.com/voltbras/go-ocpp") {
				fn = ln
				if i := strings.Index(fn, " in goroutine"); i > 0 {
					fn = fn[:i]
				}
				break
			}
		}
		if fn != "" {
			res = append(res, fn)
		}
	}
	return res
}

type Result struct {
	Dev     string
	NPts    int
	Ns      []byte  // alternatives per choice point (saturated at 255)
	Free    []int32 // choice points of the harness (not counted as deviations)
	Hashes  []uint32
	Steps   int64
	Cases   int64
	Out     string
	Viols   []Violation
	Blocked int
	Div     bool
	Trunc   bool
	Crash   string
	PfxHash uint32
	Recycle bool
	VTime   int64
	Events  []string
	Logs    string
}

type devs struct {
	idx, val []int32
}

func parseDev(s string) (d devs) {
	if s == "" || s == "-" {
		return
	}
	for _, f := range strings.Split(s, ",") {
		p := strings.SplitN(f, ":", 2)
		i, _ := strconv.Atoi(p[0])
		v, _ := strconv.Atoi(p[1])
		d.idx = append(d.idx, int32(i))
		d.val = append(d.val, int32(v))
	}
	return
}

func (d devs) String() string {
	if len(d.idx) == 0 {
		return "-"
	}
	var sb strings.Builder
	for i := range d.idx {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(itoa(int(d.idx[i])))
		sb.WriteByte(':')
		sb.WriteString(itoa(int(d.val[i])))
	}
	return sb.String()
}

var det = &detReader{}

func runOne(sc *Scenario, d devs, verbose bool) *Result {
	x := &X{sc: sc}
	newSimNet()
	det.n = 0
	http.DefaultServeMux = http.NewServeMux()
	http.DefaultTransport = &http.Transport{}
	log.SetOutput(logSink{x})
	runtime.McSetDev(d.idx, d.val)
	runtime.McBlockChoices(!sc.NoBlock)
	runtime.McFine(sc.Fine)
	re := raceErrors()
	blocked, done := runtime.McRun(func() {
		sc.Run(x)
		x.Explore(false)
		x.ended = true
		sn.closeAll()
		x.Settle()
	})
	log.SetOutput(os.Stderr)
	r := &Result{Dev: d.String(), NPts: runtime.McPoints(), Steps: runtime.McSteps(), Blocked: blocked,
		Div: runtime.McDiverged(), Trunc: runtime.McTruncated(), VTime: runtime.McNow()}
	if !x.ended {
		for _, p := range sc.Props {
			x.Fail(p, "stuck", "the execution got stuck: the scenario cannot complete and no timer is pending")
		}
	}
	if lg := x.logs.String(); strings.Contains(lg, "http: panic serving") {
		i := strings.Index(lg, "http: panic serving")
		e := lg[i:]
		if len(e) > 1500 {
			e = e[:1500]
		}
		for _, p := range sc.Props {
			x.Fail(p, "panic", "panic in the server: %s", e)
		}
	}
	if n := raceErrors() - re; n > 0 {
		txt := readRaceLog()
		for _, rep := range splitRaces(txt) {
			x.Fail("C05", "race:"+raceKey(rep), "data race: %s", rep)
		}
	}
	r.Viols = x.viols
	r.Cases = x.cases
	h := uint32(2166136261)
	last := -1
	if len(d.idx) > 0 {
		last = int(d.idx[len(d.idx)-1])
	}
	r.Ns = make([]byte, 0, r.NPts)
	for i := 0; i < r.NPts; i++ {
		n, k, s, _ := runtime.McPoint(i)
		if i == last {
			r.PfxHash = h
		}
		r.Hashes = append(r.Hashes, h)
		h = (h ^ uint32(n)) * 16777619
		h = (h ^ uint32(k)) * 16777619
		h = (h ^ s) * 16777619
		if n > 255 {
			n = 255
		}
		if k == runtime.McKindHarness {
			r.Free = append(r.Free, int32(i))
		}
		r.Ns = append(r.Ns, byte(n))
	}
	f := fnv.New64a()
	for _, o := range x.out {
		f.Write([]byte(o))
		f.Write([]byte{0})
	}
	r.Out = strconv.FormatUint(f.Sum64(), 16)
	if done {
		_ = done
	}
	if verbose {
		for _, e := range x.events() {
			r.Events = append(r.Events, fmt.Sprintf("%9.3fs %-10s %s %s %d", float64(e.t)/1e9, e.kind, e.a, e.b, e.n))
		}
		for _, o := range x.out {
			r.Events = append(r.Events, "outcome: "+o)
		}
		r.Logs = x.logs.String()
	}
	return r
}

// race reports ---------------------------------------------------------------

var raceLogPath string
var raceLogOff int

func readRaceLog() string {
	b, err := os.ReadFile(raceLogPath + "." + strconv.Itoa(os.Getpid()))
	if err != nil {
		return ""
	}
	s := string(b[raceLogOff:])
	raceLogOff = len(b)
	return s
}

// splitRaces returns the reports in which at least one of the two conflicting
// accesses happens in the code under test, or in a library that it called.
func splitRaces(s string) []string {
	var res []string
	for _, rep := range strings.Split(s, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		// the access sections are those before "Goroutine ... created at"
		acc := rep
		if i := strings.Index(acc, "\nGoroutine "); i > 0 {
			acc = acc[:i]
		}
		hit := false
		for _, sec := range strings.Split(acc, "\n\n") {
			for _, ln := range strings.Split(sec, "\n") {
				ln = strings.TrimSpace(ln)
				if strings.HasPrefix(ln, "main.") {
					break // an access of the harness
				}
				if strings.HasPrefix(ln, "github.com/voltbras/go-ocpp/") {
					hit = true
					break
				}
			}
		}
		if hit {
			if len(rep) > 6000 {
				rep = rep[:6000]
			}
			res = append(res, rep)
		}
	}
	return res
}

func raceKey(rep string) string {
	var fns []string
	for _, ln := range strings.Split(rep, "\n") {
		ln = strings.TrimSpace(ln)
		if strings.HasPrefix(ln, "github.com/voltbras/go-ocpp/") {
			ln = strings.TrimSuffix(ln, "()")
			fns = append(fns, strings.TrimPrefix(ln, "github.com/voltbras/go-ocpp/"))
			if len(fns) == 2 {
				break
			}
		}
	}
	return strings.Join(fns, "|")
}

// worker ---------------------------------------------------------------------

// fmtLogger formats what it is given, like the loggers of applications.
type fmtLogger struct{ n int }

func (l *fmtLogger) Printf(format string, v ...interface{}) {
	if s := fmt.Sprintf(format, v...); len(s) == 0 {
		l.n = 0
	}
}

func setLoggers(sc *Scenario) {
	if raceOn || sc.Logs {
		ocpp.SetDebugLogger(&fmtLogger{})
		ocpp.SetErrorLogger(&fmtLogger{})
	}
}

func setupProcess() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	uuid.SetRand(det)
	raceLogPath = os.Getenv("MC_RACELOG")
}

func workerMain(scID string, fresh bool) {
	setupProcess()
	sc := findScenario(scID)
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no such scenario", scID)
		os.Exit(2)
	}
	setLoggers(sc)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	// warm-up: lazily initialised caches of the libraries settle; a fresh
	// worker runs a single execution, as the first one of its process
	if !fresh {
		runOne(sc, devs{}, false)
	}
	enc := json.NewEncoder(out)
	runs, leaked := 0, 0
	for in.Scan() {
		f := strings.Fields(in.Text())
		if len(f) == 0 {
			continue
		}
		r := runOne(sc, parseDev(f[0]), len(f) > 1 && f[1] == "v")
		leaked += r.Blocked
		runs++
		if runs%16 == 0 {
			runtime.GC()
		}
		// too many goroutines of earlier executions are left: ask for a new process
		r.Recycle = leaked > 400 || runs >= 4000 || fresh
		enc.Encode(r)
		out.Flush()
		if r.Recycle {
			return
		}
	}
}
