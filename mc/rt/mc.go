// Deterministic scheduler control for model checking (added to package
// runtime by a build overlay; never part of /repo).
//
// While McRun is active every goroutine of its bubble is kept in one explicit
// run queue (mcQ).  Each point at which more than one continuation exists is a
// numbered *choice point*; alternative 0 is the default, and a sparse list of
// deviations (McSetDev) selects other alternatives.  Choice points are
//   - which runnable goroutine runs next when the current one blocks,
//   - whether to preempt at a synchronisation operation of the code under test,
//     and whether the preempted goroutine (or the one that is next when the
//     current one blocks) is stalled until every other goroutine is blocked,
//   - which of several ready cases a select of the code under test takes,
//   - explicit points of the harness (McChoose).
// Time is the bubble's virtual clock: it advances only when every goroutine of
// the bubble is blocked.

package runtime

import (
	"internal/runtime/sys"
	"unsafe"
)

const (
	mcMaxPoints = 1 << 17
	mcMaxQ      = 1 << 14
	mcMaxDev    = 64

	mcMaxStalled = 64
)

// kinds of choice points
const (
	McKindBlock = iota
	McKindSync
	McKindSelect
	McKindIO
	McKindHarness
	McKindStmt
)

var (
	mcOn      bool // an execution is running
	mcEver    bool
	mcExplore bool // choice points are recorded and open
	mcFine    bool // statements of the code under test are choice points too
	mcBubble  *synctestBubble

	mcQ    [mcMaxQ]guintptr
	mcQn   int
	mcNext guintptr
	// stalled goroutines: they are runnable, but run only once every other
	// goroutine is blocked (time does not advance meanwhile)
	mcStalled  [mcMaxStalled]guintptr
	mcStalledN int

	mcDevIdx [mcMaxDev]int32
	mcDevVal [mcMaxDev]int32
	mcDevN   int
	mcDevPos int

	mcPts   int
	mcPtN   [mcMaxPoints]uint16
	mcPtK   [mcMaxPoints]uint8
	mcPtSig [mcMaxPoints]uint32
	mcPtG   [mcMaxPoints]uint32

	mcSteps    int64
	mcMaxSteps int64 = 3000000
	mcDiverged bool
	mcTrunc    bool
	mcRnd      uint64
	mcTimerSeq uint32
	mcPicking  int32

	mcBlockChoices bool = true

	mcSpin int // channel operations since the last scheduling decision
)

const mcSpinMax = 2000

var mcIdleReason = [len(waitReasonStrings)]bool{
	waitReasonChanReceive:           true,
	waitReasonChanSend:              true,
	waitReasonSelect:                true,
	waitReasonSemacquire:            true,
	waitReasonSyncMutexLock:         true,
	waitReasonSyncRWMutexRLock:      true,
	waitReasonSyncRWMutexLock:       true,
	waitReasonSyncWaitGroupWait:     true,
	waitReasonSyncCondWait:          true,
	waitReasonSelectNoCases:         true,
	waitReasonChanReceiveNilChan:    true,
	waitReasonChanSendNilChan:       true,
	waitReasonSynctestWaitGroupWait: true,
}

// McSetDev sets the deviations of the next McRun.
func McSetDev(idx, val []int32) {
	mcDevN = 0
	for i := range idx {
		mcDevIdx[i] = idx[i]
		mcDevVal[i] = val[i]
		mcDevN++
	}
}

func McExplore(on bool)      { mcExplore = on }
func McExploring() bool      { return mcExplore }
func McSetMaxSteps(n int64)  { mcMaxSteps = n }
func McSteps() int64         { return mcSteps }
func McPoints() int          { return mcPts }
func McDiverged() bool       { return mcDiverged }
func McTruncated() bool      { return mcTrunc }
func McFine(on bool)         { mcFine = on }
func McBlockChoices(on bool) { mcBlockChoices = on }

// McPoint returns the number of alternatives, the kind and the signature of
// choice point i of the last execution.
func McPoint(i int) (n int, kind int, sig uint32, g uint32) {
	return int(mcPtN[i]), int(mcPtK[i]), mcPtSig[i], mcPtG[i]
}

// McRun runs f in a bubble under the controlled scheduler until f has returned
// and everything else is blocked (or has exited), or until nothing can make
// progress any more.
func McRun(f func()) (blocked int, done bool) {
	gp := getg()
	if gp.bubble != nil || mcOn {
		throw("McRun: nested")
	}
	bubble := &synctestBubble{
		id:      bubbleGen.Add(1),
		total:   1,
		running: 1,
		root:    gp,
	}
	const synctestBaseTime = 946684800000000000 // midnight UTC 2000-01-01
	bubble.now = synctestBaseTime
	lockInit(&bubble.mu, lockRankSynctest)
	lockInit(&bubble.timers.mu, lockRankTimers)

	gp.bubble = bubble
	mcBubble = bubble
	mcQn = 0
	mcNext = 0
	mcStalledN = 0
	mcPts = 0
	mcSteps = 0
	mcSpin = 0
	mcDevPos = 0
	mcDiverged = false
	mcTrunc = false
	mcRnd = 0x9e3779b97f4a7c15
	mcTimerSeq = 0
	mcExplore = false
	mcEver = true
	mcOn = true

	pc := sys.GetCallerPC()
	systemstack(func() {
		fv := *(**funcval)(unsafe.Pointer(&f))
		bubble.main = newproc1(fv, gp, pc, false, waitReasonZero)
		pp := getg().m.p.ptr()
		runqput(pp, bubble.main, true)
	})

	lock(&bubble.mu)
	bubble.active++
	for {
		unlock(&bubble.mu)
		systemstack(func() {
			curg := gp.m.curg
			gp.m.curg = nil
			gp.bubble.timers.check(bubble.now, bubble)
			gp.m.curg = curg
		})
		gopark(synctestidle_c, nil, waitReasonSynctestRun, traceBlockSynctest, 0)
		lock(&bubble.mu)
		if bubble.active < 0 {
			throw("active < 0")
		}
		next := bubble.timers.wakeTime()
		if next == 0 {
			break
		}
		if next < bubble.now {
			throw("time went backwards")
		}
		if bubble.done {
			break
		}
		bubble.now = next
	}
	blocked = bubble.total - 1
	done = bubble.done
	unlock(&bubble.mu)
	if raceenabled {
		raceacquireg(gp, gp.bubble.raceaddr())
	}
	mcOn = false
	mcExplore = false
	gp.bubble = nil
	return blocked, done
}

// mcMine reports whether gp is scheduled by the model checker.
//
//go:nosplit
func mcMine(gp *g) bool {
	return mcOn && gp.bubble == mcBubble && gp.bubble != nil
}

//go:nosplit
//go:nowritebarrierrec
func mcEnqueue(gp *g) {
	if mcQn >= mcMaxQ {
		throw("mc: run queue overflow")
	}
	mcQ[mcQn] = guintptr(unsafe.Pointer(gp))
	mcQn++
}

//go:nosplit
func mcRemove(i int) *g {
	gp := mcQ[i].ptr()
	for j := i; j < mcQn-1; j++ {
		mcQ[j] = mcQ[j+1]
	}
	mcQn--
	mcQ[mcQn] = 0
	return gp
}

// mcChoose records one choice point with n alternatives and returns the
// alternative to take.
func mcChoose(n int, kind uint8, sig uint32) int {
	if mcPts >= mcMaxPoints || n > 60000 {
		mcTrunc = true
		return 0
	}
	i := mcPts
	mcPts++
	mcPtN[i] = uint16(n)
	mcPtK[i] = kind
	mcPtSig[i] = sig
	mcPtG[i] = 0
	if mcDevPos < mcDevN && int(mcDevIdx[mcDevPos]) == i {
		v := int(mcDevVal[mcDevPos])
		mcDevPos++
		if v >= n {
			mcDiverged = true
			return 0
		}
		return v
	}
	return 0
}

// McChoose is a choice point of the harness.
func McChoose(n int) int {
	if !mcOn || n < 2 {
		return 0
	}
	return mcChoose(n, McKindHarness, 0)
}

// mcStall takes gp out of the competition until nobody else can run.
//
//go:nosplit
//go:nowritebarrierrec
func mcStall(gp *g) {
	mcStalled[mcStalledN] = guintptr(unsafe.Pointer(gp))
	mcStalledN++
}

// mcUnstall makes the oldest stalled goroutine runnable again.
func mcUnstall() {
	gp := mcStalled[0].ptr()
	for j := 0; j < mcStalledN-1; j++ {
		mcStalled[j] = mcStalled[j+1]
	}
	mcStalledN--
	mcStalled[mcStalledN] = 0
	mcEnqueue(gp)
}

// mcPick returns the next goroutine to run, or nil.
func mcPick() *g {
	if mcQn == 0 {
		if mcStalledN == 0 {
			return nil
		}
		mcUnstall()
	}
	mcSteps++
	mcSpin = 0
	if mcSteps > mcMaxSteps {
		mcLivelock()
	}
	if mcNext != 0 {
		gp := mcNext.ptr()
		mcNext = 0
		for i := 0; i < mcQn; i++ {
			if mcQ[i].ptr() == gp {
				return mcRemove(i)
			}
		}
		throw("mc: chosen goroutine not in queue")
	}
	for mcExplore && mcBlockChoices && mcQn > 1 {
		n := mcQn
		if mcStalledN < mcMaxStalled {
			n++ // stall the first one
		}
		i := mcChoose(n, McKindBlock, 0)
		if i < mcQn {
			return mcRemove(i)
		}
		mcStall(mcRemove(0))
	}
	return mcRemove(0)
}

func mcLivelock() {
	print("MC-LIVELOCK: no progress of virtual time within the step bound\n")
	exit(77)
}

// mcFair: fairness.  A goroutine that polls (selects again and again without
// ever blocking) gives way to the oldest other runnable goroutine after a fixed
// number of operations, as the preemptive scheduler of the real runtime would.
func mcFair() {
	mcSpin++
	if mcSpin < mcSpinMax {
		return
	}
	gp := getg()
	if !mcMine(gp) || gp == mcBubble.root || gp.m.locks != 0 || gp.m.curg != gp || gp.m.mallocing != 0 {
		return
	}
	if mcQn == 0 && mcStalledN > 0 {
		mcUnstall()
	}
	if mcQn == 0 {
		if mcSpin > 5000000 {
			mcLivelock()
		}
		return
	}
	mcPicking = 0
	mcall(mcyield_m)
}

// McYield is a possible preemption point (I/O of the simulated network).
func McYield() { mcYield(McKindIO) }

// McStmt is called before every statement of the code under test.
func McStmt() {
	if mcFine && mcExplore {
		mcYield(McKindStmt)
	}
}

func mcYield(kind uint8) {
	if !mcExplore || mcQn == 0 {
		return
	}
	gp := getg()
	if !mcMine(gp) || gp == mcBubble.root || gp.m.locks != 0 || gp.m.curg != gp || gp.m.mallocing != 0 {
		return
	}
	ok, sig := mcInRepo(kind)
	if !ok {
		return
	}
	n := mcQn + 1
	if mcStalledN < mcMaxStalled {
		n++ // stall the current one
	}
	v := mcChoose(n, kind, sig)
	if v == 0 {
		return
	}
	mcPicking = int32(v - 1)
	mcall(mcyield_m)
}

func mcyield_m(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	if int(mcPicking) == mcQn {
		mcStall(gp)
	} else {
		mcNext = mcQ[mcPicking]
		mcEnqueue(gp)
	}
	schedule()
}

const (
	mcRepoPrefix    = "github.com/voltbras/go-ocpp"
	mcPointPrefix   = mcRepoPrefix + "/internal/mcpoint."
	mcHarnessPrefix = "main."
)

func mcHasPrefix(s, p string) bool {
	return len(s) >= len(p) && s[:len(p)] == p
}

// mcInRepo reports whether the operation about to happen belongs to the code
// under test: the innermost frame outside the synchronisation primitives (for
// I/O: outside any library) is a function of the module under test.
func mcInRepo(kind uint8) (bool, uint32) {
	var pcs [48]uintptr
	n := callers(2, pcs[:])
	for i := 0; i < n; i++ {
		pc := pcs[i]
		f := findfunc(pc)
		if !f.valid() {
			return false, 0
		}
		u, uf := newInlineUnwinder(f, pc-1)
		name := u.srcFunc(uf).name()
		if mcHasPrefix(name, mcRepoPrefix) {
			if mcHasPrefix(name, mcPointPrefix) {
				continue
			}
			return true, mcHash(name)
		}
		if mcHasPrefix(name, mcHarnessPrefix) {
			if kind == McKindIO && (mcHasPrefix(name, "main.(*simConn)") || mcHasPrefix(name, "main.(*simListener)") || mcHasPrefix(name, "main.simDial") || mcHasPrefix(name, "main.mcIO")) {
				continue
			}
			return false, 0
		}
		if kind == McKindIO {
			continue
		}
		if mcHasPrefix(name, "runtime.") || mcHasPrefix(name, "sync.") || mcHasPrefix(name, "internal/") || mcHasPrefix(name, "sync/atomic.") || mcHasPrefix(name, "context.") || mcHasPrefix(name, "time.") {
			continue
		}
		return false, 0
	}
	return false, 0
}

func mcHash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// mcSelectPick: rdy is the number of ready cases of a select in the code under
// test; the returned index is the one to take.
func mcSelectPick(rdy int) int {
	gp := getg()
	if !mcExplore || rdy < 2 || !mcMine(gp) || gp == mcBubble.root {
		return 0
	}
	ok, sig := mcInRepo(McKindSelect)
	if !ok {
		return 0
	}
	return mcChoose(rdy, McKindSelect, sig)
}

// mcDetRand: deterministic randomness for every ordinary goroutine.
//
//go:nosplit
func mcDetRand() uint64 {
	mcRnd += 0x9e3779b97f4a7c15
	z := mcRnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// mcTimerOrder orders the timers of one instant.
func mcTimerOrder() uint32 {
	mcTimerSeq++
	return mcTimerSeq
}

//go:nosplit
func mcDet() bool {
	gp := getg()
	return gp.m != nil && gp.m.curg == gp && (gp.goid == 1 || mcMine(gp))
}

//go:linkname internal_sync_mcYield internal/sync.runtime_mcYield
func internal_sync_mcYield() {
	if mcExplore {
		mcYield(McKindSync)
	}
}

//go:linkname sync_atomic_mcYield sync/atomic.runtime_mcYield
func sync_atomic_mcYield() {
	if mcExplore {
		mcYield(McKindSync)
	}
}

// McNow is the virtual time of the running execution in nanoseconds.
func McNow() int64 {
	if mcBubble == nil {
		return 0
	}
	return mcBubble.now - 946684800000000000
}

// McQueueLen is the number of other runnable goroutines.
func McQueueLen() int { return mcQn }

// McGid identifies the current goroutine.
func McGid() uint64 { return getg().goid }

// Parking primitives for the simulated network.  A goroutine parked here
// counts as blocked (virtual time may advance).  No happens-before edge is
// created; the callers add the edges of the modelled I/O.

func McSelf() uintptr { return uintptr(unsafe.Pointer(getg())) }

func McPark() {
	gopark(nil, nil, waitReasonSyncCondWait, traceBlockCondWait, 2)
}

func McReady(g uintptr) {
	gp := guintptr(g).ptr()
	systemstack(func() {
		ready(gp, 2, true)
	})
}

// McGoCount returns the number of goroutines of the running execution,
// excluding the driver that called McRun.
func McGoCount() int {
	if mcBubble == nil {
		return 0
	}
	return mcBubble.total - 1
}

// McBubbleID identifies the running execution in goroutine dumps.
func McBubbleID() uint64 {
	if mcBubble == nil {
		return 0
	}
	return mcBubble.id
}
