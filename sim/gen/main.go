// Command verifgen prepares the simulation build: it copies the code under
// test (the working tree of /repo plus the two third-party modules whose code
// takes part in its behaviour) into a build directory with a scheduling yield
// point in front of every statement, and writes a -overlay file that puts the
// Go runtime's sources of nondeterminism (goroutine scheduling, map order,
// clock, file system calls) behind hooks the simulator controls.
//
// Nothing in /repo, GOROOT or the module cache is changed.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "verifgen: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) != 5 {
		die("usage: verifgen REPO VERIF_SIM_DIR MODCACHE OUT")
	}
	repo, simdir, modcache, out := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	os.MkdirAll(out, 0o755)

	repl := map[string]string{}
	mods := readRequires(filepath.Join(repo, "go.mod"))
	n := 0
	n += copyModule(repo, filepath.Join(out, "tools-golang"), true)
	for _, m := range []string{"github.com/spdx/gordf", "github.com/anchore/go-struct-converter"} {
		v, ok := mods[m]
		if !ok {
			continue // no longer a dependency
		}
		dst := filepath.Join(out, filepath.Base(m))
		n += copyModule(filepath.Join(modcache, m+"@"+v), dst, true)
		repl[m] = dst
	}
	copyModule(filepath.Join(simdir, "vsimrt"), filepath.Join(out, "vsimrt"), false)
	copyModule(filepath.Join(simdir, "harness"), filepath.Join(out, "harness"), false)

	// the harness module
	var b strings.Builder
	b.WriteString("module verifsim\n\ngo 1.23.0\n\nrequire (\n\tgithub.com/spdx/tools-golang v0.0.0\n\tvsimrt v0.0.0\n")
	names := []string{}
	for m := range mods {
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		fmt.Fprintf(&b, "\t%s %s\n", m, mods[m])
	}
	b.WriteString(")\n\n")
	fmt.Fprintf(&b, "replace github.com/spdx/tools-golang => %s\n", filepath.Join(out, "tools-golang"))
	fmt.Fprintf(&b, "replace vsimrt => %s\n", filepath.Join(out, "vsimrt"))
	rk := []string{}
	for m := range repl {
		rk = append(rk, m)
	}
	sort.Strings(rk)
	for _, m := range rk {
		fmt.Fprintf(&b, "replace %s => %s\n", m, repl[m])
	}
	must(os.WriteFile(filepath.Join(out, "harness", "go.mod"), []byte(b.String()), 0o644))
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(out, "harness", "go.sum"), sum, 0o644))

	writeOverlay(runtime.GOROOT(), out)
	fmt.Printf("verifgen: %d yield points\n", n)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func readRequires(path string) map[string]string {
	data, err := os.ReadFile(path)
	must(err)
	res := map[string]string{}
	in := false
	for _, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		switch {
		case l == "require (":
			in = true
		case l == ")":
			in = false
		default:
			if strings.HasPrefix(l, "require ") {
				l = strings.TrimPrefix(l, "require ")
			} else if !in {
				continue
			}
			f := strings.Fields(l)
			if len(f) == 2 {
				res[f[0]] = f[1]
			}
		}
	}
	return res
}

func copyModule(src, dst string, instrument bool) int {
	total := 0
	must(os.RemoveAll(dst))
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(fi.Name(), ".")) {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if instrument && strings.HasSuffix(p, ".go") {
			var k int
			data, k = instrumentFile(p, data)
			total += k
		}
		if instrument && rel == "go.mod" {
			data = append(data, []byte("\nrequire vsimrt v0.0.0\n")...)
		}
		return os.WriteFile(filepath.Join(dst, rel), data, 0o644)
	})
	must(err)
	return total
}

// instrumentFile inserts a yield call before every statement. A file that does
// not parse is copied as it is: the compiler will report it.
func instrumentFile(name string, src []byte) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil || f.Name.Name == "main" {
		return src, 0
	}
	tf := fset.File(f.Pos())
	type ins struct {
		off  int
		text string
	}
	var list []ins
	call := "vsimrt.Y();"
	add := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			list = append(list, ins{tf.Offset(s.Pos()), call})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			// functions the compiler restricts (nosplit, linkname bodies) are left alone
			if x.Doc != nil {
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						return false
					}
				}
			}
		case *ast.BlockStmt:
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(list) == 0 {
		return src, 0
	}
	k := len(list)
	list = append(list, ins{tf.Offset(f.Name.End()), "; import vsimrt \"vsimrt\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b strings.Builder
	last := 0
	for _, i := range list {
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off
	}
	b.Write(src[last:])
	return []byte(b.String()), k
}

type edit struct{ old, new string }

func writeOverlay(goroot, out string) {
	dir := filepath.Join(out, "overlay")
	must(os.MkdirAll(dir, 0o755))
	rep := map[string]string{}
	patch := func(rel string, edits ...edit) {
		p := filepath.Join(goroot, "src", rel)
		data, err := os.ReadFile(p)
		must(err)
		s := string(data)
		for _, e := range edits {
			if strings.Count(s, e.old) != 1 {
				die("%s: pattern occurs %d times, want 1:\n%s", rel, strings.Count(s, e.old), e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		dst := filepath.Join(dir, strings.ReplaceAll(rel, "/", "_"))
		must(os.WriteFile(dst, []byte(s), 0o644))
		rep[p] = dst
	}

	// hash keys constant: map layout is then a function of the map seed, which comes from rand()
	patch("internal/runtime/maps/runtime_alg.go",
		edit{"		hashkey[i] = uintptr(bootstrapRand())\n", "		hashkey[i] = uintptr(0x9e3779b97f4a7c15*uint64(i+1)) | 1\n"},
		edit{"		key[i] = bootstrapRand()\n", "		key[i] = 0xbf58476d1ce4e5b9 * uint64(2*i+1)\n"},
	)
	// rand(): map seeds, iteration start points, sync.Pool drops, math/rand's global source
	patch("runtime/rand.go",
		edit{"	mp := getg().m\n	c := &mp.chacha8\n	for {\n		// Note: c.Next is marked nosplit,",
			"	mp := getg().m\n	if simOn != 0 {\n		return simRand()\n	}\n	c := &mp.chacha8\n	for {\n		// Note: c.Next is marked nosplit,"},
		// its cheap variant (sync.Pool drops in the race build) has a stream of its own
		edit{"	mp := getg().m\n	// Implement wyrand: https://github.com/wangyi-fudan/wyhash\n	// Only the platform that supports",
			"	if simOn != 0 {\n		return uint32(simCheap() >> 32)\n	}\n	mp := getg().m\n	// Implement wyrand: https://github.com/wangyi-fudan/wyhash\n	// Only the platform that supports"},
	)
	patch("runtime/proc.go",
		// no preemption by sysmon, no P handed off in a system call, no forced GC, no scavenger wake-up
		edit{"		usleep(delay)\n\n		// sysmon should not enter deep sleep if schedtrace",
			"		usleep(delay)\n		if simProc != 0 {\n			continue\n		}\n\n		// sysmon should not enter deep sleep if schedtrace"},
		edit{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if simProc != 0 {\n		return 0\n	}\n"},
		// a goroutine that yields goes to the local queue, from which the simulator picks
		edit{"	if preempted && sched.gcwaiting.Load() {\n		// If preempted for STW, keep the G on the local P in runnext",
			"	if simOn != 0 {\n		runqput(pp, gp, false)\n	} else if preempted && sched.gcwaiting.Load() {\n		// If preempted for STW, keep the G on the local P in runnext"},
		edit{"	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if simOn == 0 && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
		edit{"const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"},
		edit{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simOn != 0 {\n		return simRunqget(pp), false\n	}\n"},
	)
	// a preemption request that was already under way when the simulation started is ignored
	patch("runtime/stack.go",
		edit{"		if !canPreemptM(thisg.m) {\n			// Let the goroutine keep running for now.", "		if simOn != 0 || !canPreemptM(thisg.m) {\n			// Let the goroutine keep running for now."})
	// no real-time dependence in mutexes, no private randomness in select
	patch("internal/sync/mutex.go",
		edit{"	starvationThresholdNs = 1e6\n", "	starvationThresholdNs = 1 << 62\n"})
	patch("runtime/select.go",
		edit{"		j := cheaprandn(uint32(norder + 1))\n", "		j := cheaprandn(uint32(norder + 1))\n		if simOn != 0 {\n			j = uint32(simRand() % uint64(norder+1))\n		}\n"})
	patch("runtime/preempt.go",
		edit{"func wantAsyncPreempt(gp *g) bool {\n", "func wantAsyncPreempt(gp *g) bool {\n	if simOn != 0 {\n		return false\n	}\n"})
	must(os.WriteFile(filepath.Join(dir, "runtime_sim.go"), []byte(runtimeSim), 0o644))
	rep[filepath.Join(goroot, "src/runtime/verif_sim.go")] = filepath.Join(dir, "runtime_sim.go")

	patch("time/time.go",
		edit{"func Now() Time {\n	sec, nsec, mono := runtimeNow()\n",
			"var verifNow func() (sec int64, nsec int32)\n\nfunc Now() Time {\n	sec, nsec, mono := runtimeNow()\n	if verifNow != nil {\n		sec, nsec = verifNow()\n		mono = 0\n	}\n"},
	)
	hook := func(op, fd, path, n string) string {
		return fmt.Sprintf("	if verifHook != nil {\n		if hn, he := verifHook(%s, %s, %s, %s); he != 0 {\n			err = he\n			return\n		} else {\n			_ = hn\n", op, fd, path, n)
	}
	end := "		}\n	}\n"
	doneRead := "	if verifRead != nil {\n		defer func() {\n			if err == nil && n >= 0 {\n				verifRead(fd, p[:n])\n			}\n		}()\n	}\n"
	patch("syscall/zsyscall_linux_amd64.go",
		edit{"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n",
			"var verifHook func(op int, fd int, path string, n int) (int, Errno)\nvar verifDone func(op int, fd int, path string)\nvar verifRead func(fd int, p []byte)\nvar verifDents func(fd int, buf []byte) (n int, err Errno, handled bool)\n\n" +
				"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n" + hook("1", "dirfd", "path", "flags") + end +
				"	if verifDone != nil {\n		defer func() {\n			if err == nil {\n				verifDone(1, fd, path)\n			}\n		}()\n	}\n"},
		edit{"func read(fd int, p []byte) (n int, err error) {\n",
			"func read(fd int, p []byte) (n int, err error) {\n" + hook("2", "fd", `""`, "len(p)") + "			p = p[:hn]\n" + end + doneRead},
		edit{"func pread(fd int, p []byte, offset int64) (n int, err error) {\n",
			"func pread(fd int, p []byte, offset int64) (n int, err error) {\n" + hook("2", "fd", `""`, "len(p)") + "			p = p[:hn]\n" + end + doneRead},
		edit{"func Getdents(fd int, buf []byte) (n int, err error) {\n",
			"func Getdents(fd int, buf []byte) (n int, err error) {\n" + hook("3", "fd", `""`, "len(buf)") + end +
				"	if verifDents != nil {\n		if hn, he, ok := verifDents(fd, buf); ok {\n			if he != 0 {\n				err = he\n			}\n			return hn, err\n		}\n	}\n"},
		edit{"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n",
			"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n" + hook("4", "fd", "path", "flags") + end},
		edit{"func Fstat(fd int, stat *Stat_t) (err error) {\n",
			"func Fstat(fd int, stat *Stat_t) (err error) {\n" + hook("5", "fd", `""`, "0") + end},
		edit{"func Close(fd int) (err error) {\n",
			"func Close(fd int) (err error) {\n	if verifDone != nil {\n		verifDone(6, fd, \"\")\n	}\n"},
		edit{"func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {\n",
			"func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {\n" + hook("7", "dirfd", "path", "len(buf)") + end},
	)
	js, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	must(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
}

const runtimeSim = `package runtime

import (
	"internal/abi"
	"internal/runtime/atomic"
	_ "unsafe"
)

// Simulation hooks (added by a build overlay; see /verif/DESIGN.md).
//
// With simOn != 0 and GOMAXPROCS=1 every scheduling decision is taken in
// simRunqget: which of the runnable goroutines runs next.

var simOn uint32
var simRandState uint64

// simProc: this process is a simulation worker; sysmon does nothing.
var simProc uint32

// simPick: 1+index of the goroutine to run at the next decision (set by an
// explicit yield), 0 when the decision comes from simSchedState.
var simPick uint32
var simSchedState uint64 // 0: first in first out
var simSwitches uint64   // decisions with more than one runnable goroutine
var simSchedHash uint64

var simCheapState uint64

//go:nosplit
func simCheap() uint64 {
	simCheapState += 0x9E3779B97F4A7C15
	z := simCheapState
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:nosplit
func simRand() uint64 {
	simRandState += 0x9E3779B97F4A7C15
	z := simRandState
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// the runtime's own goroutines are recognised by where they start
func init() {
	simSysPC[0] = abi.FuncPCABIInternal(bgsweep)
	simSysPC[1] = abi.FuncPCABIInternal(bgscavenge)
	simSysPC[2] = abi.FuncPCABIInternal(forcegchelper)
	simSysPC[3] = abi.FuncPCABIInternal(runFinalizers)
	simSysPC[4] = abi.FuncPCABIInternal(gcBgMarkWorker)
	simSysPC[5] = abi.FuncPCABIInternal(runCleanups)
}

var simSysPC [6]uintptr

//go:nosplit
func simSystem(gp *g) bool {
	pc := gp.startpc
	for _, p := range simSysPC {
		if pc == p {
			return true
		}
	}
	return false
}

func simRunqget(pp *p) *g {
	if next := pp.runnext; next != 0 {
		pp.runnext = 0
		runqput(pp, next.ptr(), false)
	}
	h := atomic.LoadAcq(&pp.runqhead)
	n := pp.runqtail - h
	if n == 0 {
		return nil
	}
	const q = uint32(len(pp.runq))
	k := uint32(0)
	for i := uint32(0); i < n; i++ {
		// the runtime's own goroutines run at once and are not part of the schedule
		if gp := pp.runq[(h+i)%q].ptr(); simSystem(gp) {
			for ; i > 0; i-- {
				pp.runq[(h+i)%q] = pp.runq[(h+i-1)%q]
			}
			atomic.StoreRel(&pp.runqhead, h+1)
			return gp
		}
	}
	if n > 1 {
		if simPick != 0 {
			k = (simPick - 1) % n
		} else if simSchedState != 0 {
			simSchedState += 0x9E3779B97F4A7C15
			z := simSchedState
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
			z = (z ^ (z >> 27)) * 0x94D049BB133111EB
			k = uint32((z ^ (z >> 31)) % uint64(n))
		}
		simSwitches++
		simSchedHash = (simSchedHash ^ uint64(k+1) ^ uint64(n)<<8) * 0x100000001b3
	}
	simPick = 0
	gp := pp.runq[(h+k)%q].ptr()
	for i := k; i > 0; i-- {
		pp.runq[(h+i)%q] = pp.runq[(h+i-1)%q]
	}
	atomic.StoreRel(&pp.runqhead, h+1)
	return gp
}
`
