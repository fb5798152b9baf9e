#!/usr/bin/env python3
"""Generates the build overlay: patched copies of a few standard-library files
(controlled scheduler, virtual time, simulated network) plus the harness
package, which is shown to the go command as <repo>/verifmc.
usage: patch.py GOROOT OUTDIR REPO HARNESSDIR"""
import json, os, re, subprocess, sys

goroot, out, repo, hdir = map(os.path.abspath, sys.argv[1:5])
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(goroot, "src")
os.makedirs(out, exist_ok=True)
replace = {}
files = {}

def load(rel):
    if rel not in files:
        files[rel] = open(os.path.join(src, rel)).read()
    return files[rel]

def sub(rel, old, new, count=1):
    s = load(rel)
    if s.count(old) < 1 or (count == 1 and s.count(old) != 1):
        sys.exit("patch.py: %s: anchor found %d times: %r" % (rel, s.count(old), old))
    files[rel] = s.replace(old, new)

def rsub(rel, pat, new, count=None):
    s = load(rel)
    s2, n = re.subn(pat, new, s, flags=re.M)
    if n == 0 or (count and n != count):
        sys.exit("patch.py: %s: pattern matched %d times: %r" % (rel, n, pat))
    files[rel] = s2

P = "runtime/proc.go"
sub(P, "func runqput(pp *p, gp *g, next bool) {\n",
    "func runqput(pp *p, gp *g, next bool) {\n\tif mcMine(gp) {\n\t\tmcEnqueue(gp)\n\t\treturn\n\t}\n")
sub(P, "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n",
    "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif mcMine(gp) {\n\t\tmcEnqueue(gp)\n\t\treturn\n\t}\n")
sub(P, "func globrunqputhead(gp *g) {\n\tassertLockHeld(&sched.lock)\n",
    "func globrunqputhead(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif mcMine(gp) {\n\t\tmcEnqueue(gp)\n\t\treturn\n\t}\n")
sub(P, """	if pp.runSafePointFn != 0 {
		runSafePointFn()
	}

	// now and pollUntil are saved""",
"""	if pp.runSafePointFn != 0 {
		runSafePointFn()
	}
	if mcOn {
		if gp := mcPick(); gp != nil {
			return gp, false, false
		}
	}

	// now and pollUntil are saved""")
sub(P, "func preemptone(pp *p) bool {\n",
    "func preemptone(pp *p) bool {\n\tif mcOn && !sched.gcwaiting.Load() {\n\t\treturn false\n\t}\n")
sub(P, "func retake(now int64) uint32 {\n",
    "func retake(now int64) uint32 {\n\tif mcOn {\n\t\treturn 0\n\t}\n")

C = "runtime/chan.go"
sub(C, "	if b := getg().bubble; b != nil {\n\t\tc.bubble = b\n\t}\n",
    "	if b := getg().bubble; b != nil && !mcOn {\n\t\tc.bubble = b\n\t}\n")
sub(C, "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n",
    "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tif mcOn {\n\t\tmcFair()\n\t}\n\tif mcExplore {\n\t\tmcYield(McKindSync)\n\t}\n")
rsub(C, r"^func chanrecv\(c \*hchan, ep unsafe\.Pointer, block bool\) \(selected, received bool\) \{\n",
    "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tif mcOn {\n\t\tmcFair()\n\t}\n\tif mcExplore {\n\t\tmcYield(McKindSync)\n\t}\n", 1)
sub(C, "func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tif mcExplore {\n\t\tmcYield(McKindSync)\n\t}\n")

S = "runtime/select.go"
sub(S, "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tgp := getg()\n",
    "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tif mcOn {\n\t\tmcFair()\n\t}\n\tif mcExplore {\n\t\tmcYield(McKindSync)\n\t}\n\tgp := getg()\n")
sub(S, "		j := cheaprandn(uint32(norder + 1))\n",
    "		j := uint32(norder)\n\t\tif !mcOn {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n")
sub(S, "	// lock all the channels involved in the select\n\tsellock(scases, lockorder)\n",
"""	if mcExplore && norder > 1 {
		// which cases are ready is stable: one thread, no preemption here
		var rdy [64]uint16
		nr := 0
		for i := 0; i < norder; i++ {
			ci := int(pollorder[i])
			cc := scases[ci].c
			ok := false
			if ci >= nsends {
				ok = cc.sendq.first != nil || cc.qcount > 0 || cc.closed != 0
			} else {
				ok = cc.closed != 0 || cc.recvq.first != nil || cc.qcount < cc.dataqsiz
			}
			if ok && nr < len(rdy) {
				rdy[nr] = uint16(i)
				nr++
			}
		}
		if nr > 1 {
			if v := mcSelectPick(nr); v != 0 {
				i := rdy[v]
				pollorder[0], pollorder[i] = pollorder[i], pollorder[0]
			}
		}
	}

	// lock all the channels involved in the select
	sellock(scases, lockorder)
""")

R = "runtime/runtime2.go"
sub(R, "	return isIdleInSynctest[w]\n", "	return isIdleInSynctest[w] || mcEver && mcIdleReason[w]\n")

T = "runtime/time.go"
sub(T, "	if bubble := getg().bubble; bubble != nil {\n\t\tt.isFake = true\n\t}\n",
    "	if bubble := getg().bubble; bubble != nil {\n\t\tt.isFake = true\n\t\tif c != nil {\n\t\t\tc.bubble = bubble\n\t\t}\n\t}\n")

# timers of the same instant fire in the order in which they were started
sub(T, "\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = mcTimerOrder()\n")

Y = "runtime/synctest.go"
sub(Y, "func (bubble *synctestBubble) maybeWakeLocked() *g {\n",
    "func (bubble *synctestBubble) maybeWakeLocked() *g {\n\tif mcEver && (!mcOn || bubble != mcBubble) {\n\t\treturn nil\n\t}\n")
rsub(Y, r"^func synctest_isInBubble\(\) bool \{\n", "func synctest_isInBubble() bool {\n\tif mcEver {\n\t\treturn false\n\t}\n", 1)

D = "runtime/rand.go"
sub(D, "func rand() uint64 {\n", "func rand() uint64 {\n\tif mcDet() {\n\t\treturn mcDetRand()\n\t}\n")
sub(D, "	globalRand.state.Init(*seed)\n", "	for i := range seed {\n\t\tseed[i] = byte(i + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n")

M = "runtime/sema.go"
sub(M, "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif mcOn {\n\t\treturn 1\n\t}\n")

L = "internal/sync/mutex.go"
sub(L, "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\truntime_mcYield()\n")
sub(L, "func (m *Mutex) TryLock() bool {\n", "func (m *Mutex) TryLock() bool {\n\truntime_mcYield()\n")
# the lock of sync.Pool's registry: taken after each garbage collection, which
# is not part of an execution
sub(L, "func (m *Mutex) TryLock() bool {\n",
    "func (m *Mutex) McLock() {\n\tif !atomic.CompareAndSwapInt32(&m.state, 0, mutexLocked) {\n\t\tm.lockSlow()\n\t} else if race.Enabled {\n\t\trace.Acquire(unsafe.Pointer(m))\n\t}\n}\n\nfunc (m *Mutex) TryLock() bool {\n")
sub("sync/pool.go", "	allPoolsMu.Lock()\n", "	allPoolsMu.mu.McLock()\n")
sub("internal/sync/runtime.go", "//go:linkname throw\n",
    "//go:linkname runtime_mcYield\nfunc runtime_mcYield()\n\nfunc McYield() { runtime_mcYield() }\n\n//go:linkname throw\n")

W = "sync/rwmutex.go"
sub(W, "\t\"internal/race\"\n", "\t\"internal/race\"\n\tisync \"internal/sync\"\n")
sub(W, "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tisync.McYield()\n")
sub(W, "func (rw *RWMutex) TryRLock() bool {\n", "func (rw *RWMutex) TryRLock() bool {\n\tisync.McYield()\n")

# typed atomics are synchronisation operations too
A = "sync/atomic/type.go"
rsub(A, r"^(func \(x \*(?:Bool|Pointer\[T\]|Int32|Int64|Uint32|Uint64|Uintptr)\) (?:Load|Store|Swap|CompareAndSwap|Add|And|Or)\([^{]*\{)", r"\1 runtime_mcYield();")
sub(A, 'import "unsafe"\n', 'import "unsafe"\n\n//go:linkname runtime_mcYield\nfunc runtime_mcYield()\n')
V = "sync/atomic/value.go"
rsub(V, r"^(func \(v \*Value\) (?:Load|Store|Swap|CompareAndSwap)\([^{]*\{)", r"\1\n\truntime_mcYield()", 4)
G = "sync/waitgroup.go"
sub(G, "\t\"internal/race\"\n", "\t\"internal/race\"\n\tisync \"internal/sync\"\n")
sub(G, "func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\tisync.McYield()\n")

N = "net/dial.go"
rsub(N, r"^func \(d \*Dialer\) DialContext\(ctx context\.Context, network, address string\) \(Conn, error\) \{\n",
    "// McDial and McListen, when set, replace the network (model checking).\nvar McDial func(ctx context.Context, network, address string) (Conn, error)\nvar McListen func(ctx context.Context, network, address string) (Listener, error)\n\n"
    "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif McDial != nil {\n\t\treturn McDial(ctx, network, address)\n\t}\n", 1)
rsub(N, r"^func \(lc \*ListenConfig\) Listen\(ctx context\.Context, network, address string\) \(Listener, error\) \{\n",
    "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif McListen != nil {\n\t\treturn McListen(ctx, network, address)\n\t}\n", 1)

for rel, s in files.items():
    p = os.path.join(out, rel.replace("/", "__"))
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
    replace[os.path.join(src, rel)] = p
replace[os.path.join(src, "runtime/mc.go")] = os.path.join(here, "mc.go")
for f in sorted(os.listdir(hdir)):
    if f.endswith(".go"):
        replace[os.path.join(repo, "verifmc", f)] = os.path.join(hdir, f)
# the code under test with a possible preemption point before every statement
inst = os.path.join(here, "..", "inst")
try:
    mod = re.search(r"(?m)^module\s+(\S+)", open(os.path.join(repo, "go.mod")).read()).group(1)
    exe = os.path.join(out, "inst.bin")
    subprocess.run(["go", "build", "-o", exe, os.path.join(inst, "main.go")], check=True)
    got = json.loads(subprocess.run([exe, repo, out, mod], check=True, stdout=subprocess.PIPE).stdout)
except Exception as e:
    sys.exit("patch.py: %s" % e)
if not os.environ.get("MC_NOINST"):
    replace.update(got)
replace[os.path.join(repo, "internal", "mcpoint", "p.go")] = os.path.join(inst, "point.go.txt")
json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
