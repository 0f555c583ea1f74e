package main

import (
	"fmt"
	"strings"

	"vsimrt"
)

var opsReal = []string{"json, yaml, tagvalue, rdf, spdx/v2, convert, reporter, licensediff, spdxlib, builder, utils, idsearcher, gordf, go-struct-converter (instrumented copies)", "encoding/json, encoding/xml, sigs.k8s.io/yaml, os, io, bufio, crypto (uninstrumented)", "Go runtime scheduler and map iteration under simulator control"}
var opsStub = []string{"the caller's io.Reader and io.Writer (simulated)", "system-call results below the scratch tree (fault layer over real tmpfs files)", "wall clock"}

func init() {
	register(&Scenario{ID: "C08", Title: "documents are not modified and can be shared", Quick: 4000, Thorough: 100000, Race: 50,
		Rule: "2-6 concurrent tasks write, convert, report on and query one shared generated document under a drawn schedule; non-trivial when at least two tasks ran",
		Real: opsReal, Stub: opsStub,
		Run: runC08})
	register(&Scenario{ID: "C09", Title: "independent operations", Quick: 3500, Thorough: 90000, Race: 50,
		Rule: "2-5 concurrent operations (read, write, build, search, convert, report, compare, query) on separate inputs under a drawn schedule, compared with the same operations run alone; non-trivial when a goroutine switch happened",
		Real: opsReal, Stub: opsStub,
		Run: runC09})
	register(&Scenario{ID: "C10", Title: "map order and schedule", Quick: 27000, Thorough: 405000,
		Rule: "one operation executed 4-6 times under different map orders, goroutine schedules and directory orders; non-trivial when it returned a result",
		Real: opsReal, Stub: opsStub,
		Run: runC10})
	register(&Scenario{ID: "C11", Title: "retry after failure", Quick: 60000, Thorough: 900000,
		Rule: "an operation runs fault-free, then 1-3 times with drawn stream, sink or file-system faults, then fault-free again; non-trivial when a fault was delivered and made it fail",
		Real: opsReal, Stub: opsStub,
		Run: runC11})
	register(&Scenario{ID: "C16", Title: "resources are released", Quick: 80000, Thorough: 1200000,
		Rule: "1-3 builds, searches or reads with drawn faults; afterwards open files and goroutines are counted; non-trivial when a file was opened or a goroutine could have been started",
		Real: opsReal, Stub: opsStub,
		Run: runC16})
}

// ---------------------------------------------------------------- C08

func runC08(c *Ctx) {
	t := c.Tape("input")
	ver := versions[t.N(3)]
	prof := []profile{profTV, profJSON, profTV}[t.N(3)]
	doc := newGen(c.Tape("doc"), prof).Doc(ver)
	unsorted := t.N(40) == 39
	if !unsorted {
		doc = tvCanon(doc)
	}
	before := Dump(doc, dumpOpt{strict: true})
	if unsorted {
		// one tag-value write of a document whose lists are not in the order of
		// the tag-value form
		bags := Dump(doc, dumpOpt{strict: true, bags: true})
		o := c.writeOp(wTV, doc, t.N(2) == 1, false)
		r := c.alone("write", func(t *Task) { o.do(t, nil) })
		if r.Panic != nil {
			c.trivial = true
			return
		}
		if after := Dump(doc, dumpOpt{strict: true}); after != before {
			cl := "mutated:write tagvalue"
			if Dump(doc, dumpOpt{strict: true, bags: true}) == bags && Dump(tvCanon(doc), dumpOpt{strict: true}) == after {
				cl = "tv-sorts-in-place"
			}
			c.Fail(cl, "tagvalue.Write changed the caller's %s document: %s", ver, firstDiff(before, after))
		}
		return
	}
	n := 2 + t.N(5)
	ops := make([]*Op, n)
	want := make([]string, n)
	got := make([]string, n)
	for i := range ops {
		ops[i] = c.docOp(t, doc)
	}
	if t.N(3) == 0 { // several times the same
		for i := range ops[1:] {
			ops[i+1] = ops[0]
		}
	}
	for i, o := range ops {
		r := c.alone("alone", func(t *Task) {
			v, err := o.do(t, nil)
			want[i] = o.outcome(v, err, true)
		})
		if r.Panic != nil {
			c.Note("panic alone: " + o.name)
			c.trivial = true
			return
		}
		c.Note("op:" + o.name)
		if after := Dump(doc, dumpOpt{strict: true}); after != before {
			c.Fail("mutated:"+o.name, "%s changed the %s document: %s", o.name, ver, firstDiff(before, after))
			return
		}
	}
	for i, o := range ops {
		c.Go(o.name, func(t *Task) {
			v, err := o.do(t, nil)
			got[i] = o.outcome(v, err, true)
		})
	}
	tasks := c.tasks
	c.Run()
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	what := fmt.Sprintf("%s on one %s document", strings.Join(names, ", "), ver)
	c.sample = what
	c.Log("%s", what)
	for i, o := range ops {
		if c.panicked(tasks[i], "running concurrently "+what+": "+o.name) {
			return
		}
		if got[i] != want[i] {
			c.Fail("result:"+o.name, "running concurrently %s: %s gives another result than alone: %s", what, o.name, firstDiff(want[i], got[i]))
			return
		}
	}
	if after := Dump(doc, dumpOpt{strict: true}); after != before {
		c.Fail("mutated", "running concurrently %s: the document changed: %s", what, firstDiff(before, after))
	}
}

// ---------------------------------------------------------------- C09

func runC09(c *Ctx) {
	t := c.Tape("input")
	fixClock()
	n := 2 + t.N(4)
	rdfRate := 8
	if raceBuild {
		rdfRate = 24
	}
	ops := make([]*Op, n)
	want := make([]string, n)
	got := make([]string, n)
	kind := opMix[t.N(len(opMix))]
	same := t.N(3) == 0
	for i := range ops {
		if !same {
			kind = opMix[t.N(len(opMix))]
		}
		ops[i] = c.genOp(c.Tape(fmt.Sprintf("op%d", i)), i, kind, rdfRate, true)
	}
	c.newFS(nil)
	for i, o := range ops {
		r := c.alone("alone", func(t *Task) {
			v, err := o.do(t, nil)
			want[i] = o.outcome(v, err, false)
		})
		if r.Panic != nil {
			c.Note("panic alone")
			c.trivial = true
			return
		}
		c.Note("op:" + strings.SplitN(o.name, ",", 2)[0])
	}
	q := c.newNuisance(c.Tape("io"))
	c.newFS(q.plan)
	var names []string
	for i, o := range ops {
		names = append(names, o.name)
		c.Go(o.name, func(t *Task) {
			v, err := o.do(t, nil)
			got[i] = o.outcome(v, err, false)
		})
	}
	tasks := c.tasks
	sw := vsimrt.Switches()
	c.Run()
	c.trivial = vsimrt.Switches() == sw
	what := strings.Join(names, "; ")
	c.sample = what
	c.Log("%s", what)
	for i, o := range ops {
		if c.panicked(tasks[i], "running concurrently "+what+": "+o.name) {
			return
		}
		if got[i] != want[i] {
			if o.rdf && !c.stable(o, want[i]) {
				c.Note("rdf outcome not a function of the bytes (C10)")
				continue
			}
			c.Fail("result:"+firstWord(o.name), "running concurrently %s: %s gives another result than alone: %s", what, o.name, firstDiff(want[i], got[i]))
			return
		}
	}
}

func firstWord(s string) string {
	f := strings.Fields(s)
	if len(f) > 1 && (f[0] == "read" || f[0] == "write") {
		return f[0] + " " + f[1]
	}
	return f[0]
}

// stable says whether the operation alone always gives want.
func (c *Ctx) stable(o *Op, want string) bool {
	for k := 0; k < 6; k++ {
		var out string
		c.Go("again", func(t *Task) {
			v, err := o.do(t, nil)
			out = o.outcome(v, err, false)
		})
		c.RunWith([]int{2000, 20, 6, 80, 2, 400}[k], uint64(k*7919), uint64(k+2))
		if out != want {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C10

func runC10(c *Ctx) {
	t := c.Tape("input")
	fixClock()
	o := c.genOp(c.Tape("op0"), 0, opMix[t.N(len(opMix))], 4, true)
	n := 3 + t.N(3)
	undeclared := o.rdf && t.N(20) == 19
	if undeclared {
		in := o.in
		in.data = []byte(strings.Replace(string(in.data), "<spdx:name>", "<undeclared:name>", 1))
		in.data = []byte(strings.Replace(string(in.data), "</spdx:name>", "</undeclared:name>", 1))
		in.how += ", undeclared prefix"
	}
	c.newFS(nil)
	type res struct {
		strict, loose string
		files         string
	}
	var ref res
	look := func(v any, err error) res {
		r := res{strict: o.outcome(v, err, true), loose: o.outcome(v, err, false)}
		return r
	}
	r := c.alone("reference", func(t *Task) { ref = look(o.do(t, nil)) })
	if r.Panic != nil {
		c.trivial = true
		return
	}
	c.Note("op:" + strings.SplitN(o.name, ",", 2)[0])
	c.Log("%s", o.name)
	c.sample = o.name
	c.trivial = ref.strict == "error" && !undeclared
	for i := 0; i < n; i++ {
		var got res
		tk := c.Go("again", func(t *Task) {
			v, err := o.do(t, nil)
			got = look(v, err)
			t.Log("err=%v", err)
		})
		c.Run()
		if tk.Panic != nil {
			c.Fail("panic", "%s succeeds under one schedule and panics under another: %v (%s)", o.name, tk.Panic, tk.Stack)
			return
		}
		if got.strict == ref.strict {
			continue
		}
		cl := "result:" + firstWord(o.name)
		if o.rdf {
			cl = "rdf-result:" + diffField(ref.loose, got.loose)
			if got.loose == ref.loose {
				cl = "rdf-order:" + diffField(ref.strict, got.strict)
			} else if (ref.loose == "error") != (got.loose == "error") {
				cl = "rdf-outcome"
			}
		}
		if o.in != nil {
			c.Log("input: %s", clip(string(o.in.data), 6000))
		}
		c.Fail(cl, "%s: another map order and schedule give another result: %s", o.name, firstDiff(ref.strict, got.strict))
		return
	}
}

// ---------------------------------------------------------------- C11

func runC11(c *Ctx) {
	t := c.Tape("input")
	fixClock()
	kind := []int{opRead, opWrite, opBuild, opSearch, opReport, opRead, opWrite, opFiles}[t.N(8)]
	g := c.Tape("op0")
	var o *Op
	// the same target or document object is used for all attempts
	switch kind {
	case opWrite:
		k := g.N(wTV + 1)
		prof := profJSON
		if k == wTV {
			prof = profTV
		}
		o = c.writeOp(k, tvCanon(newGen(g, prof).Doc(versions[g.N(3)])), g.N(2) == 1, false)
	case opReport:
		o = c.writeOp(wReport, reportPackage(g), false, false)
	default:
		o = c.genOp(g, 0, kind, 10, false)
	}
	// the reference comes from a second, separate instance of the operation
	fresh := o
	io := c.Tape("io")
	c.newFS(nil)
	var want string
	r := c.alone("reference", func(t *Task) {
		v, err := fresh.do(t, nil)
		want = o.outcome(v, err, false)
	})
	if r.Panic != nil || want == "error" {
		c.trivial = true
		return
	}
	c.Log("%s", o.name)
	c.sample = o.name
	c.Note("op:" + strings.SplitN(o.name, ",", 2)[0])
	n := 1 + io.N(3)
	failed := false
	var last string
	for i := 0; i < n; i++ {
		f := drawFault(io, o)
		q := c.newNuisance(io)
		if o.tree != nil {
			c.newFS(c.fsFault(o.tree, f, q))
		}
		var err error
		tk := c.Go("faulty", func(t *Task) { _, err = o.do(t, f) })
		c.Run()
		c.Log("attempt with %s: err=%v", f.desc, err != nil)
		if tk.Panic != nil {
			c.Note("panic (C07)")
			c.trivial = true
			return
		}
		if f.hit && err != nil {
			failed = true
			last = f.desc
		}
	}
	c.trivial = !failed
	c.newFS(nil)
	var got string
	tk := c.Go("retry", func(t *Task) {
		v, err := o.do(t, nil)
		got = o.outcome(v, err, false)
	})
	c.Run()
	if c.panicked(tk, o.name+" after an attempt with "+last) {
		return
	}
	if got != want {
		if o.rdf && !c.stable(o, want) {
			c.Note("rdf outcome not a function of the bytes (C10)")
			return
		}
		c.Fail("retry:"+firstWord(o.name), "%s, repeated after an attempt with %s, gives another result than the first fault-free execution: %s", o.name, last, firstDiff(want, got))
	}
}

// ---------------------------------------------------------------- C16

func runC16(c *Ctx) {
	t := c.Tape("input")
	fixClock()
	n := 1 + t.N(2)
	ops := make([]*Op, n)
	for i := range ops {
		g := c.Tape(fmt.Sprintf("op%d", i))
		switch k := t.N(5); k {
		case 0, 1:
			max := 3 + g.N(12)
			if g.N(4) == 0 {
				max = 45
			}
			tr := newTree(g, fmt.Sprintf("o%d", i), max, func() []byte { return source(g) })
			ops[i] = c.treeOp(tr, dirRootOf(g, tr), tr.patterns(g, 1), tr.patterns(g, 1), k == 1)
		case 2:
			ops[i] = c.genOp(g, i, opFiles, 3, false)
		default:
			ops[i] = c.genOp(g, i, opRead, 3, true)
		}
	}
	io := c.Tape("io")
	for i, o := range ops {
		faulty := io.N(4) > 0
		f := drawFault(io, o)
		q := c.newNuisance(io)
		fs := c.newFS(nil)
		if faulty && o.tree != nil {
			fs.Plan = c.fsFault(o.tree, f, q)
		}
		if !faulty {
			f = nil
		}
		var err error
		before := len(c.viol)
		tk := c.Go("op", func(t *Task) { _, err = o.do(t, f) })
		c.Run()
		how := "without fault"
		if f != nil {
			how = "with " + f.desc
		}
		what := fmt.Sprintf("%s %s (err=%v)", o.name, how, err != nil)
		c.Log("%d: %s", i, what)
		c.sample = what
		c.Note("op:" + strings.SplitN(o.name, ",", 2)[0])
		if len(c.viol) > before {
			for j := before; j < len(c.viol); j++ {
				c.viol[j].Class += ":" + firstWord(o.name)
				c.viol[j].Msg = what + ": " + c.viol[j].Msg
			}
			return
		}
		if tk.Panic != nil {
			c.Note("panic (C07)")
		}
		if l := fs.Leaked(); len(l) > 0 {
			c.Fail("open-file:"+firstWord(o.name), "%s: %d files are still open after it returned: %s", what, len(l), rel(strings.Join(l, ", ")))
			return
		}
		if fs.MaxOpen > 16 {
			c.Fail("many-open:"+firstWord(o.name), "%s: %d files were open at the same time", what, fs.MaxOpen)
			return
		}
	}
}
