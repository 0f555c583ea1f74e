package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	_ "time/tzdata"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/spdx"

	"vsimrt"
)

var fsReal = []string{"builder, utils, idsearcher (instrumented copies of /repo)", "os, path/filepath, io, bufio, crypto (uninstrumented), the kernel's tmpfs below the layer", "Go runtime scheduler under simulator control"}
var fsStub = []string{"system-call results below the scratch tree (fault layer over real tmpfs files: errno, short reads, directory order)", "wall clock"}

func init() {
	register(&Scenario{ID: "C12", Title: "builder lists the tree", Quick: 200000, Thorough: 3000000,
		Rule: "1-2 concurrent builds of a drawn tree with drawn ignore patterns under short reads, EINTR and drawn directory orders; non-trivial when the tree has a regular file",
		Real: fsReal, Stub: fsStub,
		Assume: []string{"ignore patterns begin with / or **/", "the tree has no devices, sockets or pipes and its root is a directory"},
		Run:    runC12})
	register(&Scenario{ID: "C13", Title: "builder reports failures", Quick: 160000, Thorough: 2400000,
		Rule: "a dry run counts the system calls of a build; then one drawn call fails with a drawn errno (for good, or from then on for that path); non-trivial when the fault was delivered",
		Real: fsReal, Stub: fsStub,
		Run: runC13})
	register(&Scenario{ID: "C14", Title: "files changing during a build", Quick: 200000, Thorough: 3000000,
		Rule: "other processes rewrite, truncate, extend, replace and remove files at drawn system calls of a build; non-trivial when a change happened and a document was returned",
		Real: fsReal, Stub: append([]string{"the other process (mutations applied at system-call boundaries)"}, fsStub...),
		Run: runC14})
	register(&Scenario{ID: "C15", Title: "Created is UTC", Quick: 200000, Thorough: 3000000,
		Rule: "1-3 concurrent builds or searches in a drawn local time zone with a drawn clock (position, rate, jumps); non-trivial always",
		Real: fsReal, Stub: fsStub,
		Run: runC15})
}

// dirRootOf gives one of the ways to name the tree's root.
func dirRootOf(t *vsimrt.Tape, tr *Tree) string {
	switch t.N(6) {
	case 1:
		return tr.root + "/"
	case 2:
		return tr.root + "/."
	case 3:
		r, _ := filepath.Rel(scratch, tr.root)
		return r
	case 4:
		r, _ := filepath.Rel(scratch, tr.root)
		return "./" + r + "/"
	}
	return tr.root
}

func buildTree(tr *Tree, root string, patterns []string) (*spdx.Document, error) {
	return builder.Build("pkg", root, &builder.Config{NamespacePrefix: "https://example.com/", CreatorType: "Person", Creator: "J. Doe", PathsIgnored: patterns})
}

func runC12(c *Ctx) {
	t := c.Tape("input")
	tr := newTree(t, "t", 4+t.N(30), nil)
	if t.Chance(1, 12) {
		tr.image(t)
	}
	n := 1 + t.N(2)
	io := c.Tape("io")
	q := c.newNuisance(io)
	fs := c.newFS(q.plan)
	type job struct {
		pats []string
		root string
		doc  *spdx.Document
		err  error
	}
	jobs := make([]*job, n)
	var tasks []*Task
	for i := range jobs {
		j := &job{pats: tr.patterns(t, 3), root: dirRootOf(t, tr)}
		if j.pats == nil && t.N(2) == 0 {
			j.pats = []string{}
		}
		jobs[i] = j
		tasks = append(tasks, c.Go("build", func(t *Task) { j.doc, j.err = buildTree(tr, j.root, j.pats) }))
	}
	c.Run()
	_ = fs
	c.trivial = len(tr.files) == 0
	for i, j := range jobs {
		what := fmt.Sprintf("build of %q (%s) ignoring %q", strings.TrimPrefix(j.root, scratch), tr, j.pats)
		c.Log("%s: err=%v; %s", what, j.err != nil, tr.list())
		c.sample = what
		if c.panicked(tasks[i], what) {
			continue
		}
		if j.err != nil {
			c.Fail("error", "%s failed although no operation failed: %s", what, strings.ReplaceAll(j.err.Error(), scratch, ""))
			continue
		}
		want := tr.listed(j.pats)
		if len(want) < len(tr.files) {
			c.Note("some files ignored")
		}
		if p := docProblem(j.doc, "pkg", want); p != "" {
			c.Fail("wrong", "%s: %s", what, plainPath(p))
		}
	}
}

type opRec struct {
	op   int
	path string
}

func runC13(c *Ctx) {
	t := c.Tape("input")
	tr := newTree(t, "t", 3+t.N(20), nil)
	pats := tr.patterns(t, 2)
	root := dirRootOf(t, tr)
	var ops []opRec
	c.newFS(func(op int, path string, n, gen int) (int, syscall.Errno) {
		ops = append(ops, opRec{op, path})
		return n, 0
	})
	want := tr.listed(pats)
	var doc *spdx.Document
	var err error
	r := c.alone("dry run", func(t *Task) { doc, err = buildTree(tr, root, pats) })
	if r.Panic != nil || err != nil || docProblem(doc, "pkg", want) != "" || len(ops) == 0 {
		c.trivial = true // C12's subject
		return
	}
	skip := map[string]bool{} // need not be readable
	for _, f := range tr.files {
		if ignored(f.rel, pats) {
			skip[tr.root+f.rel] = true
		}
	}
	io := c.Tape("io")
	hit := false
	for round := 0; round < 5; round++ {
		at := io.N(len(ops))
		e := errnos[io.N(len(errnos))]
		persist := io.N(3) == 0
		q := c.newNuisance(io)
		k := -1
		var f *opRec
		c.newFS(func(op int, path string, n, gen int) (int, syscall.Errno) {
			if op == vsimrt.OpClose {
				return n, 0
			}
			if f != nil {
				if persist && path == f.path {
					return n, e.e
				}
				return q.plan(op, path, n, gen)
			}
			if m, er := q.plan(op, path, n, gen); er != 0 || m != n {
				return m, er
			}
			k++
			if k >= at {
				f = &opRec{op, path}
				c.Fault("fs:" + vsimrt.OpName[op] + ":" + e.name)
				return n, e.e
			}
			return n, 0
		})
		var doc *spdx.Document
		var err error
		r := c.alone("build", func(t *Task) { doc, err = buildTree(tr, root, pats) })
		if f == nil {
			continue
		}
		hit = true
		what := fmt.Sprintf("build of a tree of %s ignoring %q: %s of %q fails with %s (persistent: %v)", tr, pats, vsimrt.OpName[f.op], rel(f.path), e.name, persist)
		c.Log("%s: err=%v", what, err != nil)
		c.sample = what
		if c.panicked(r, what) {
			return
		}
		if err != nil {
			c.Note("reported")
			if skip[f.path] && (f.op == vsimrt.OpOpen || f.op == vsimrt.OpRead) {
				c.Fail("ignored-file:"+vsimrt.OpName[f.op], "%s: the file is ignored and need not be readable, but the build failed: %s", what, strings.ReplaceAll(err.Error(), scratch, ""))
				return
			}
			continue
		}
		if p := docProblem(doc, "pkg", want); p != "" {
			c.Fail("wrong-document:"+vsimrt.OpName[f.op], "%s, and the builder returned no error and a document in which %s", what, p)
			return
		}
		// A correct document although a call failed: fine where the call was
		// not needed (an ignored file, a link, the file's status).
		c.Note("harmless: " + vsimrt.OpName[f.op])
	}
	c.trivial = !hit
}

func runC14(c *Ctx) {
	t := c.Tape("input")
	big := func() []byte {
		b := bytesOf(t)
		if t.N(2) == 0 {
			for len(b) < 40000 {
				b = append(b, b...)
				b = append(b, 'x')
			}
		}
		return b
	}
	tr := newTree(t, "t", 2+t.N(8), big)
	if len(tr.files) == 0 {
		c.trivial = true
		return
	}
	pats := tr.patterns(t, 1)
	io := c.Tape("io")
	rate := 2 + io.N(12)
	q := c.newNuisance(io)
	type seqKey struct {
		path string
		gen  int
	}
	seqs := map[seqKey][]byte{}
	gens := map[string][]int{}
	changes := 0
	var fs *vsimrt.FS
	mutate := func(path string) {
		f := tr.files[io.N(len(tr.files))]
		p := tr.root + f.rel
		if io.N(3) > 0 && strings.HasPrefix(path, tr.root) {
			p = path // the file being worked on
		}
		st, err := os.Lstat(p)
		if err != nil || !st.Mode().IsRegular() {
			return
		}
		changes++
		kind := io.N(7)
		n := 1 + io.N(50000)
		fill := byte(io.N(256))
		junk := make([]byte, n)
		for i := range junk {
			junk[i] = fill + byte(i)
		}
		switch kind {
		case 0: // rewritten in place
			os.WriteFile(p, junk, 0644)
			c.Fault("mutate:rewrite")
		case 1:
			os.Truncate(p, int64(io.N(int(st.Size())+1)))
			c.Fault("mutate:truncate")
		case 2: // appended to
			if fh, err := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0); err == nil {
				fh.Write(junk)
				fh.Close()
			}
			c.Fault("mutate:append")
		case 3: // one block overwritten
			if fh, err := os.OpenFile(p, os.O_WRONLY, 0); err == nil {
				fh.WriteAt(junk[:1+io.N(n)], int64(io.N(int(st.Size())+1)))
				fh.Close()
			}
			c.Fault("mutate:overwrite")
		case 4: // replaced by another file
			tmp := filepath.Join(scratch, "replacement")
			os.WriteFile(tmp, junk, 0644)
			os.Rename(tmp, p)
			c.Fault("mutate:replace")
		case 5:
			os.Truncate(p, 0)
			c.Fault("mutate:empty")
		case 6:
			if io.N(4) == 0 {
				os.Remove(p)
				c.Fault("mutate:remove")
			}
		}
	}
	fs = &vsimrt.FS{Root: fsRoot(), Cwd: scratch, Order: c.Tape("dents")}
	fs.Plan = func(op int, path string, n, gen int) (int, syscall.Errno) {
		if (op == vsimrt.OpRead || op == vsimrt.OpOpen || op == vsimrt.OpStat) && changes < 40 && io.Chance(1, rate) {
			fs.Quiet(func() { mutate(path) })
		}
		return q.plan(op, path, n, gen)
	}
	fs.Data = func(path string, gen int, p []byte) {
		k := seqKey{path, gen}
		if _, ok := seqs[k]; !ok {
			gens[path] = append(gens[path], gen)
			seqs[k] = nil
		}
		seqs[k] = append(seqs[k], p...)
	}
	vsimrt.InstallFS(fs)
	var doc *spdx.Document
	var err error
	r := c.Go("build", func(t *Task) { doc, err = buildTree(tr, tr.root, pats) })
	c.Run()
	what := fmt.Sprintf("build of %s while another process makes %d changes", tr, changes)
	c.Log("%s: err=%v", what, err != nil)
	c.sample = what
	if c.panicked(r, what) {
		return
	}
	if changes == 0 || err != nil || doc == nil || len(doc.Packages) != 1 {
		c.trivial = true
		return
	}
	var shas []string
	for _, f := range doc.Packages[0].Files {
		h, ok := fileHashes(f)
		shas = append(shas, h[0])
		path := tr.root + strings.TrimPrefix(f.FileName, ".")
		found := false
		for _, g := range gens[path] {
			if hashes(seqs[seqKey{path, g}]) == h {
				found = true
			}
		}
		if len(gens[path]) == 0 && h == hashes(nil) {
			found = true
		}
		if !ok || !found {
			var had []string
			for _, g := range gens[path] {
				had = append(had, fmt.Sprintf("%d bytes: %v", len(seqs[seqKey{path, g}]), hashes(seqs[seqKey{path, g}])))
			}
			c.Fail("mixed", "%s: file %q has checksums %v, which are not those of one sequence of bytes read from it (%s)", what, f.FileName, f.Checksums, strings.Join(had, "; "))
			return
		}
	}
	if code := doc.Packages[0].PackageVerificationCode; code == nil || code.Value != verificationCode(shas) {
		c.Fail("code", "%s: the verification code %v is not computed from the listed SHA1 values (%s)", what, code, verificationCode(shas))
	}
}

// ---------------------------------------------------------------- clock

var zones = []string{"UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Australia/Lord_Howe", "America/St_Johns", "Asia/Kathmandu", "Africa/Casablanca", "Pacific/Apia", "Antarctica/Troll", "+2359", "-2359", "+0000named"}

func zone(name string) *time.Location {
	switch name {
	case "+2359":
		return time.FixedZone("X", 23*3600+59*60+59)
	case "-2359":
		return time.FixedZone("Z", -(23*3600 + 59*60 + 59))
	case "+0000named":
		return time.FixedZone("UTC", 3*3600)
	}
	l, err := time.LoadLocation(name)
	must0(err)
	return l
}

// instants near which clocks are interesting
var instants = []int64{0, 1, -1, 951782400, 1078012800, 1710054000 - 2, 1711846800 - 2, 1730595600 - 3, 1483228799, 253402300700, 2147483647, 4294967295, 1325203200, 1741503600, 1767225599, -62135596700, 1582934399, 1709164799, 1709251199}

func runC15(c *Ctx) {
	t := c.Tape("input")
	var tr *Tree
	shared := newTree(t, "t", 1+t.N(5), nil)
	tr = shared
	zn := zones[t.N(len(zones))]
	old := time.Local
	time.Local = zone(zn)
	defer func() { time.Local = old }()
	now := instants[t.N(len(instants))]
	if t.N(3) == 0 {
		now = int64(t.U32()) * 59 // up to year 9999
		if now > 253402300000 {
			now = 253402300000
		}
	}
	nsec := int32(t.N(1000000000))
	io := c.Tape("io")
	rate := []int64{0, 1000, 1e6, 1e9, 3600e9}[io.N(5)]
	jump := io.N(4)
	// the clock moves with every system call and reading
	type span struct{ lo, hi time.Time }
	var open []*span
	cur := func() time.Time { return time.Unix(now, int64(nsec)) }
	see := func() {
		x := cur()
		for _, s := range open {
			if x.Before(s.lo) {
				s.lo = x
			}
			if x.After(s.hi) {
				s.hi = x
			}
		}
	}
	tick := func() {
		d := time.Duration(rate) * time.Duration(1+io.N(3))
		if jump > 0 && io.N(8) == 0 {
			switch jump {
			case 1:
				d += time.Hour
				c.Fault("clock:forward")
			case 2:
				d -= time.Hour
				c.Fault("clock:back")
			case 3:
				d += time.Duration(io.N(200)-100) * 24 * time.Hour
				c.Fault("clock:days")
			}
		}
		x := cur().Add(d)
		if x.Unix() > 253402300700 || x.Unix() < -62135596799 {
			return
		}
		now, nsec = x.Unix(), int32(x.Nanosecond())
		see()
	}
	vsimrt.SetNow(func() (int64, int32) {
		tick()
		return now, nsec
	})
	c.newFS(func(op int, path string, n, gen int) (int, syscall.Errno) { tick(); return n, 0 })
	type job struct {
		kind int
		doc  *spdx.Document
		err  error
		s    *span
	}
	n := 1 + t.N(3)
	jobs := make([]*job, n)
	var tasks []*Task
	for i := range jobs {
		j := &job{kind: t.N(2), s: &span{}}
		jobs[i] = j
		tasks = append(tasks, c.Go("build", func(t *Task) {
			j.s.lo, j.s.hi = cur(), cur()
			open = append(open, j.s)
			if j.kind == 0 {
				j.doc, j.err = buildTree(tr, tr.root, nil)
			} else {
				j.doc, j.err = search(tr, nil, nil)
			}
			for i := range open {
				if open[i] == j.s {
					open = append(open[:i:i], open[i+1:]...)
					break
				}
			}
		}))
	}
	c.Run()
	vsimrt.SetNow(nil)
	for i, j := range jobs {
		what := fmt.Sprintf("%s in zone %s with the clock between %s and %s", []string{"build", "licence search"}[j.kind], zn, j.s.lo.UTC().Format(time.RFC3339Nano), j.s.hi.UTC().Format(time.RFC3339Nano))
		c.sample = what
		c.FP(vsimrt.Hash64(what))
		if c.panicked(tasks[i], what) {
			return
		}
		if j.err != nil || j.doc == nil {
			c.trivial = true
			return
		}
		if j.doc.CreationInfo == nil {
			c.Fail("missing", "%s: no creation information", what)
			return
		}
		s := j.doc.CreationInfo.Created
		c.Log("%s: Created %s", what, s)
		const layout = "2006-01-02T15:04:05Z"
		got, err := time.ParseInLocation(layout, s, time.UTC)
		if err != nil || len(s) != len(layout) {
			c.Fail("form", "%s: Created is %q", what, s)
			return
		}
		if got.Before(j.s.lo.Truncate(time.Second)) || got.After(j.s.hi) {
			c.Fail("time", "%s: Created is %s", what, s)
			return
		}
	}
}
