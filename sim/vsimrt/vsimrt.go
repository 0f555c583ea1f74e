// Package vsimrt is the simulator's runtime: the yield points inserted into
// the code under test, the choice tapes every random decision is drawn from,
// the simulated clock and the simulated file-system faults.
//
// It is compiled without race instrumentation (see build.sh), shares no locks
// or channels with the code under test and so adds no happens-before edges.
package vsimrt

import (
	"runtime"
	"syscall"
	"unsafe"
)

//go:linkname rtOn runtime.simOn
var rtOn uint32

//go:linkname rtProc runtime.simProc
var rtProc uint32

//go:linkname rtRand runtime.simRandState
var rtRand uint64

//go:linkname rtCheap runtime.simCheapState
var rtCheap uint64

//go:linkname rtPick runtime.simPick
var rtPick uint32

//go:linkname rtSched runtime.simSchedState
var rtSched uint64

//go:linkname rtSwitches runtime.simSwitches
var rtSwitches uint64

//go:linkname rtHash runtime.simSchedHash
var rtHash uint64

//go:linkname poolCleanup sync.poolCleanup
func poolCleanup()

//go:linkname timeNow time.verifNow
var timeNow func() (sec int64, nsec int32)

// ---------------------------------------------------------------- tapes

// Tape is one recorded stream of choices. In search mode values come from a
// PRNG; in replay mode from Replay, and 0 once Replay is used up.
type Tape struct {
	Name   string
	rng    uint64
	Replay []uint32
	replay bool
	pos    int
	Rec    []uint32
	fixed  bool // never grow Rec (stream shared by goroutines)
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Hash64 hashes a string.
func Hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// NewTape makes a stream for a run with the given seed. A nil replay means search mode.
func NewTape(name string, seed uint64, replay []uint32, isReplay bool) *Tape {
	return &Tape{Name: name, rng: mix(seed*0x9E3779B97F4A7C15 ^ Hash64(name)), Replay: replay, replay: isReplay, Rec: make([]uint32, 0, 64)}
}

func (t *Tape) next() uint64 {
	t.rng += 0x9E3779B97F4A7C15
	return mix(t.rng)
}

// DumpFd, when positive, receives every recorded choice as it is drawn, so
// that the tapes of a run that ends the process can be recovered.
var DumpFd int

func (t *Tape) rec(v uint32) {
	t.pos++
	if !t.fixed || len(t.Rec) < cap(t.Rec) {
		t.Rec = append(t.Rec, v)
	}
	if DumpFd > 0 {
		b := []byte(t.Name)
		b = append(b, ' ')
		b = appendUint(b, v)
		b = append(b, '\n')
		syscall.RawSyscall(syscall.SYS_WRITE, uintptr(DumpFd), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
	}
}

func appendUint(b []byte, v uint32) []byte {
	var d [10]byte
	i := len(d)
	for {
		i--
		d[i] = byte('0' + v%10)
		v /= 10
		if v == 0 {
			break
		}
	}
	return append(b, d[i:]...)
}

// N draws a value in [0,n).
func (t *Tape) N(n int) int {
	if n <= 1 {
		n = 1
	}
	var v uint32
	if t.replay {
		if t.pos < len(t.Replay) {
			v = t.Replay[t.pos] % uint32(n)
		}
	} else {
		v = uint32(t.next() % uint64(n))
	}
	t.rec(v)
	return int(v)
}

// U32 draws a full 32-bit value.
func (t *Tape) U32() uint32 {
	var v uint32
	if t.replay {
		if t.pos < len(t.Replay) {
			v = t.Replay[t.pos]
		}
	} else {
		v = uint32(t.next() >> 11)
	}
	t.rec(v)
	return v
}

// Chance is true with probability num/den; the value 0 (what an exhausted or
// minimised tape yields) means false.
func (t *Tape) Chance(num, den int) bool { return t.N(den) >= den-num }

// ---------------------------------------------------------------- scheduler

const never = int64(1) << 62

var (
	budget   int64 = never
	interval int64
	steps    int64
	limit    int64
	mean     int
	sched    *Tape
	onHang   func()
	simNanos int64
	yields   uint64
)

var schedBuf = make([]uint32, 0, 1<<18)

// Y is called before every statement of the code under test.
//
//go:noinline
func Y() {
	budget--
	if budget < 0 {
		slow()
	}
}

func draw() {
	// Encoding: 0 = do not preempt for a long while (so that shrinking a tape
	// towards zero removes preemptions), v = run v statements first.
	var v int
	if sched.replay {
		v = int(sched.U32() % (1 << 20))
	} else if len(sched.Rec) == cap(sched.Rec) {
		v = 0
	} else {
		v = 1 + int(sched.next()%uint64(2*mean))
		sched.rec(uint32(v))
	}
	if v == 0 {
		v = 1 << 14
	}
	interval = int64(v)
	budget = interval
}

//go:noinline
func slow() {
	if rtOn == 0 {
		budget = never
		return
	}
	steps += interval
	simNanos += interval * 1000
	if limit > 0 && steps > limit {
		budget = never
		onHang()
	}
	k := sched.N(8)
	rtPick = uint32(k) + 1
	yields++
	draw()
	runtime.Gosched()
}

// Seam is a yield point at an I/O boundary: always a scheduling decision.
func Seam() {
	if rtOn == 0 {
		return
	}
	steps += interval - budget
	simNanos += 5000
	if limit > 0 && steps > limit {
		onHang()
	}
	rtPick = uint32(sched.N(8)) + 1
	yields++
	draw()
	runtime.Gosched()
}

// Params configures one simulated phase.
type Params struct {
	Sched     *Tape
	Mean      int    // mean number of statements between preemptions
	BlockSeed uint64 // choices at involuntary switches; 0 = FIFO
	MapSeed   uint64
	Limit     int64
	OnHang    func()
}

// NewSched makes the scheduling stream, with a preallocated record buffer.
func NewSched(seed uint64, replay []uint32, isReplay bool) *Tape {
	t := NewTape("sched", seed, replay, isReplay)
	t.Rec = schedBuf[:0]
	t.fixed = true
	return t
}

// Worker turns the process into a simulation worker: the runtime's monitor
// thread (preemption, hand-off of processors in system calls, forced
// collections) is silenced for good.
func Worker() { rtProc = 1 }

// On starts simulation: from here to Off every scheduling decision, map seed
// and iteration order, and clock reading comes from the tapes.
func On(p Params) {
	sched, mean, limit, onHang = p.Sched, p.Mean, p.Limit, p.OnHang
	steps = 0
	rtRand = p.MapSeed
	rtCheap = p.MapSeed ^ 0x5bd1e995
	rtSched = p.BlockSeed
	rtPick = 0
	draw()
	rtOn = 1
}

// ClearPools empties every sync.Pool: a run starts without what earlier runs
// left there.
func ClearPools() {
	poolCleanup()
	poolCleanup()
}

// SetMapSeed changes the map order from here on.
func SetMapSeed(s uint64) { rtRand = s }

// Off ends simulation.
func Off() {
	steps += interval - budget
	simNanos += (interval - budget) * 1000
	rtOn = 0
	budget = never
}

// Stats of the current process.
func Switches() uint64  { return rtSwitches }
func SchedHash() uint64 { return rtHash }
func Yields() uint64    { return yields }
func Steps() int64      { return steps }
func SimNanos() int64   { return simNanos }
func AddNanos(n int64)  { simNanos += n }

// ResetHash starts a new interleaving fingerprint.
func ResetHash() { rtHash = 0 }

// SetNow installs the simulated wall clock (nil restores the real one).
func SetNow(f func() (int64, int32)) { timeNow = f }

// On reports whether simulation is running.
func Active() bool { return rtOn != 0 }

// ResetStats zeroes the yield and simulated-time counters.
func ResetStats() { yields, simNanos = 0, 0 }
