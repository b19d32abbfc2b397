// Deterministic-simulation support, added to package runtime by overlay.
// It is compiled only into the simulation binary (see /verif/DESIGN.md).

package runtime

import (
	"runtime/internal/math"
	"unsafe"
)

// Simulation state. Only one P exists and sysmon never runs, so plain
// variables are enough.
var (
	simRand1   uint64 = 0x9e3779b97f4a7c15 // user-visible randomness (maps, select, rand)
	simRand2   uint64 = 0xd1b54a32d192ed03 // scheduler
	simRand3   uint64 = 0x8cb92ba72f3d8dd7 // crypto/rand
	simRand4   uint64 = 0x2545f4914f6cdd1d // draws of the runtime's threads, kept apart
	simActive  bool                        // set by SimStart: random scheduling is on
	simPolicy  uint32                      // 0 uniform, 1 mostly-fifo, 2 priorities
	simTick    uint64 = 1000               // max ns added per scheduling step
	simSteps   uint64
	simHash    uint64 = 14695981039346656037
	simSwitch  uint64
	simPreempt uint32 // mean number of allocations between forced preemptions (0 = off)
	simPreCtr  uint32
	simPreN    uint64
	simDeadN   [simMaxNodes]bool
	simNoteN   [simMaxNodes]bool
	simXferN   [simMaxNodes]int32
	simStallN  [simMaxNodes]int64 // node is not scheduled before this time
	simSkew    [simMaxNodes]int64 // wall clock offset per node
	simMaxTime int64
	simLastNd  int32

	// SimCrash is called on the goroutine of a node that panicked, hit a fatal
	// error or called os.Exit, after the node was marked dead.
	SimCrash func(node int32, reason any, code int)
	// SimIdle is called (on a system stack, may not allocate) when nothing can
	// run and no timer is pending.
	simWatchdogSteps uint64
)

const simMaxNodes = 1024

func simMix(s *uint64) uint64 {
	*s += 0xa0761d6478bd642f
	hi, lo := math.Mul64(*s, *s^0xe7037ed1a0b428db)
	return hi ^ lo
}

// SimStart seeds all randomness and turns random scheduling on.
func SimStart(seed uint64, policy uint32, tick uint64, preempt uint32, maxTime int64, maxSteps uint64) {
	simRand1 = seed ^ 0x1234567
	simRand2 = seed ^ 0xabcdef012345
	simRand3 = seed ^ 0x777777
	simMix(&simRand1)
	simMix(&simRand2)
	simMix(&simRand3)
	simPolicy = policy
	simTick = tick
	simPreempt = preempt
	simPreCtr = preempt
	simMaxTime = maxTime
	simWatchdogSteps = maxSteps
	simActive = true
}

// SimNote marks the caller's node.
func SimNote()               { simNoteN[getg().simNode] = true }
func SimNoted(n int32) bool  { return simNoteN[n] }

// SimXfer counts leadership transfers of the caller's node that wait for replication.
func SimXfer(d int32)        { simXferN[getg().simNode] += d }
func SimXfers(n int32) int32 { return simXferN[n] }

// SimGoroutines notes where each live goroutine of a node was created.
func SimGoroutines(n int32, buf []uintptr) int {
	k := 0
	forEachGRace(func(gp *g) {
		if gp.simNode == n && readgstatus(gp)&^_Gscan != _Gdead && k < len(buf) {
			buf[k] = gp.gopc
			k++
		}
	})
	return k
}

func SimNow() int64         { return faketime }
func SimSteps() uint64      { return simSteps }
func SimSwitches() uint64   { return simSwitch }
func SimHash() uint64       { return simHash }
func SimPreempts() uint64   { return simPreN }
func SimNode() int32        { return getg().simNode }
func SimSetNode(n int32)    { getg().simNode = n }
func SimDead(n int32) bool  { return simDeadN[n] }
func SimKill(n int32)       { simDeadN[n] = true }
func SimSetSkew(n int32, d int64)  { simSkew[n] = d }
func SimStall(n int32, until int64) { simStallN[n] = until }
func SimGoid() uint64       { return getg().goid }

// SimMixIn folds a value into the execution fingerprint.
func SimMixIn(v uint64) { simHash = (simHash ^ v) * 1099511628211 }

// SimHeap returns bytes obtained from the OS for the heap.
func SimHeap() uint64 { return gcController.heapLive.Load() }

// SimCryptoRead fills b with seeded pseudo-random bytes.
func SimCryptoRead(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := simMix(&simRand3)
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// SimPark blocks the calling goroutine forever.
func SimPark() {
	gopark(nil, nil, waitReasonZero, traceBlockForever, 1)
}

// SimParkIfDead never returns when the caller's node is dead.
func SimParkIfDead() {
	n := getg().simNode
	if n != 0 && simDeadN[n] {
		SimPark()
	}
}

// SimDie marks the caller's node dead, reports it and never returns.
func SimDie(reason any, code int) {
	gp := getg()
	n := gp.simNode
	if n != 0 && !simDeadN[n] {
		simDeadN[n] = true
		gp.simNode = 0
		if SimCrash != nil {
			SimCrash(n, reason, code)
		}
		gp.simNode = n
	}
	SimPark()
}

//go:nosplit
func simFatal(gp *g, s string) {
	systemstack(func() {
		print("sim: node ", gp.simNode, " fatal error: ", s, "\n")
		if !simDeadN[gp.simNode] {
			simDeadN[gp.simNode] = true
			simFatalNode = gp.simNode
			simFatalLen = copy(simFatalMsg[:], s)
		}
	})
	mcall(simParkForever)
}

var (
	simFatalNode int32
	simFatalMsg  [200]byte
	simFatalLen  int
)

// SimTakeFatal reports and clears a node-fatal error.
func SimTakeFatal() (int32, string) {
	n, s := simFatalNode, string(simFatalMsg[:simFatalLen])
	simFatalNode = 0
	return n, s
}

func simParkForever(gp *g) {
	casgstatus(gp, _Grunning, _Gwaiting)
	gp.waitreason = waitReasonZero
	dropg()
	schedule()
}

// simSched picks the next goroutine, or advances the clock and returns nil.
func simSched(pp *p, pollUntil int64) *g {
	// Merge the global queue into the local one while there is room.
	for sched.runqsize != 0 && pp.runqtail-pp.runqhead < uint32(len(pp.runq)) {
		lock(&sched.lock)
		gp := sched.runq.pop()
		if gp != nil {
			sched.runqsize--
		}
		unlock(&sched.lock)
		if gp == nil {
			break
		}
		t := pp.runqtail
		pp.runq[t%uint32(len(pp.runq))].set(gp)
		pp.runqtail = t + 1
	}
	if next := pp.runnext; next != 0 {
		throw("sim: runnext set")
	}
	h, t := pp.runqhead, pp.runqtail
	n := t - h
	if n == 0 {
		if sched.runqsize != 0 {
			throw("sim: global queue not drained")
		}
		return nil
	}
	i := uint32(0)
	if simActive {
		if n > 1 {
			switch simPolicy {
			case 1:
				if simMix(&simRand2)%8 == 0 {
					i = uint32(simMix(&simRand2) % uint64(n))
				}
			case 2:
				// Random fixed priorities with rare change points.
				best := uint32(0)
				for k := uint32(0); k < n; k++ {
					gp := pp.runq[(h+k)%uint32(len(pp.runq))].ptr()
					if gp.simPrio == 0 || simMix(&simRand2)%64 == 0 {
						gp.simPrio = uint32(simMix(&simRand2)) | 1
					}
					if gp.simPrio > best {
						best = gp.simPrio
						i = k
					}
				}
			case 3:
				// Sticky node: mostly keep running goroutines of the node that
				// ran last; otherwise uniform.
				i = uint32(simMix(&simRand2) % uint64(n))
				if simMix(&simRand2)%4 != 0 {
					for k := uint32(0); k < n; k++ {
						j := (i + k) % n
						if pp.runq[(h+j)%uint32(len(pp.runq))].ptr().simNode == simLastNd {
							i = j
							break
						}
					}
				}
			default:
				i = uint32(simMix(&simRand2) % uint64(n))
			}
		}
	}
	// A stalled node's goroutines do not run before its stall ends.
	if simStalls != 0 {
		ok := false
		for k := uint32(0); k < n; k++ {
			j := (i + k) % n
			nd := pp.runq[(h+j)%uint32(len(pp.runq))].ptr().simNode
			if simStallN[nd] <= faketime {
				i = j
				ok = true
				break
			}
		}
		if !ok {
			return nil
		}
	}
	gi := (h + i) % uint32(len(pp.runq))
	gh := h % uint32(len(pp.runq))
	gp := pp.runq[gi].ptr()
	// keep FIFO order among the others: shift down
	for k := i; k > 0; k-- {
		a := (h + k) % uint32(len(pp.runq))
		b := (h + k - 1) % uint32(len(pp.runq))
		pp.runq[a] = pp.runq[b]
	}
	pp.runq[gh].set(gp)
	pp.runqhead = h + 1
	if simActive {
		simSteps++
		if n > 1 {
			simSwitch++
		}
		if simTick > 0 {
			faketime += int64(simMix(&simRand2) % simTick)
		}
		simHash = (simHash ^ gp.goid ^ uint64(faketime)<<20) * 1099511628211
		if simTraceEvery != 0 && simSteps%simTraceEvery == 0 && simSteps >= simTraceFrom && simSteps <= simTraceTo {
			print("ST ", simSteps, " ", hex(simHash), " g", gp.goid, " n", gp.simNode, " ", hex(uint64(gp.sched.pc)), " t", faketime, " r1 ", hex(simRand1), " r2 ", hex(simRand2), " r3 ", hex(simRand3), " pre ", simPreCtr, " n", n, "\n")
		}
		if faketime > simMaxTime || simSteps > simWatchdogSteps {
			simOver()
		}
		simAllocs, simAllocB = 0, 0
		if faketime-simWinT >= 1e9 {
			simWinT, simWinS, simHeavy = faketime, simSteps, 0
		} else if r := simSteps - simWinS + simHeavy; r > simRateMax {
			simRateMax = r
			if r > simRateLim {
				simSpin(gp, 95, "SIM-SPIN: the processes run on without time passing")
			}
		}
		if simSteps%256 == 0 && gcController.heapLive.Load() > simMemLim {
			simSpin(gp, 94, "SIM-MEMORY: memory without bound")
		}
	}
	simLastNd = gp.simNode
	return gp
}

var simStalls int32

// Runaway processes: more scheduling steps within one simulated second, or
// more live memory, than any regular execution comes near to.
const (
	simRateLim = 1500000
	simMemLim  = 3 << 30

	simAllocLim = 1 << 30
)

var (
	simWinT    int64
	simWinS    uint64
	simHeavy   uint64 // 2000 steps for every forced end of a long one
	simRateMax uint64
	simAllocs  uint32
	simAllocB  uintptr // since the last scheduling step
	simSpinN   int
)

// SimRate is the largest number of steps seen within one simulated second.
func SimRate() uint64 { return simRateMax }

// simSpin shows a few of the goroutines that run, then ends the process.
func simSpin(gp *g, code int32, msg string) {
	simRateMax = simRateLim // come back at the next step
	simSpinN++
	if simSpinN == 1 {
		print(msg, "\n")
	}
	print("node ", gp.simNode, " goroutine ", gp.goid, "\n")
	traceback(^uintptr(0), ^uintptr(0), 0, gp)
	if simSpinN > 4 {
		exit(code)
	}
}

// Execution trace for finding a leak of nondeterminism (HX_ST=every:from:to).
var simTraceEvery, simTraceFrom, simTraceTo uint64

func SimTrace(every, from, to uint64) { simTraceEvery, simTraceFrom, simTraceTo = every, from, to }

func SimSetStalls(n int32) { simStalls = n }

// simAdvance moves the clock to the next timer, or ends the process.
func simAdvance(pp *p, pollUntil int64) {
	next := pollUntil
	if simStalls != 0 && pp.runqhead != pp.runqtail {
		for k := pp.runqhead; k != pp.runqtail; k++ {
			nd := pp.runq[k%uint32(len(pp.runq))].ptr().simNode
			if u := simStallN[nd]; u > faketime && (next == 0 || u < next) {
				next = u
			}
		}
	}
	if next != 0 {
		if next > faketime {
			faketime = next
		}
		if simActive && faketime > simMaxTime {
			simOver()
		}
		return
	}
	print("SIM-DEADLOCK: nothing can run and no timer is pending; steps=", simSteps, " heap=", len(pp.timers.heap), " when=", pp.timers.wakeTime(), " now=", faketime, "\n")
	if simDumpOnDeadlock {
		tracebackothers(getg())
	}
	exit(97)
}

var simDumpOnDeadlock bool

// SimDebug makes a deadlock dump all goroutines.
func SimDebug(on bool) { simDumpOnDeadlock = on }

func simOver() {
	if simDumpOnDeadlock {
		tracebackothers(getg())
	}

	print("SIM-OVERRUN: simulated time or step limit exceeded, steps=", simSteps, " time=", faketime, "\n")
	exit(98)
}

// simMallocHook is called from mallocgc: seeded cooperative preemption.
//
//go:nosplit
func simMallocHook(size uintptr) {
	simAllocB += size
	if simAllocB > simAllocLim && simActive {
		gp := getg()
		systemstack(func() {
			print("SIM-MEMORY: memory without bound: ", simAllocB, " bytes allocated at a stretch by node ", gp.simNode, "\n")
			traceback(^uintptr(0), ^uintptr(0), 0, gp)
			exit(94)
		})
	}
	simAllocs++
	if simAllocs > 20000 { // a loop that never blocks, as after 10 ms on a real machine
		gp := getg()
		if gp == gp.m.curg && gp.m.locks == 0 {
			simAllocs = 0
			simHeavy += 2000
			gp.simPrio = 0
			gp.stackguard0 = stackPreempt
		}
	}
	if simPreempt == 0 {
		return
	}
	simPreCtr--
	if simPreCtr == 0 {
		gp := getg()
		if gp == gp.m.curg && gp.m.locks == 0 && gp.simNode != 0 {
			gp.stackguard0 = stackPreempt
			simPreN++
		}
		simPreCtr = 1 + uint32(simMix(&simRand2)%uint64(2*simPreempt))
	}
}

// SimYield gives up the processor at a simulation decision point.
func SimYield() { Gosched() }

// SimChance reports true with probability num/den, from the scheduler stream.
func SimChance(num, den uint64) bool { return simMix(&simRand2)%den < num }

var _ unsafe.Pointer
