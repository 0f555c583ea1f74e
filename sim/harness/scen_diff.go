package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"unicode"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdxlib"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C25", Title: "compare scans", Quick: 24000, Thorough: 360000,
		Rule: "1-2 concurrent histories of a drawn tree: 2-4 times the tree is searched for licences (sometimes after an attempt during which a system call failed), the document perhaps saved and loaded, and the tree changed (files edited, added, removed, moved); consecutive and first and last documents are compared with licensediff, reported with reporter and examined with spdxlib, against a model of the tree's states; non-trivial when two states differ in a file",
		Real: append([]string{"licensediff, reporter, spdxlib, json, yaml and tagvalue writers and readers, convert"}, fsReal...), Stub: append([]string{"the caller's io.Writer and io.Reader"}, fsStub...),
		Assume: []string{"file names are single lines of valid UTF-8", "C17's assumptions about source files"},
		Run:    runC25})
}

// change edits the tree: some files get other content, some are added, removed
// or moved.
func (tr *Tree) change(t *vsimrt.Tape, content func() []byte) string {
	var dirs []*node
	var walk func(n *node)
	walk = func(n *node) {
		dirs = append(dirs, n)
		for _, k := range n.kids {
			if k.kind == 'd' {
				walk(k)
			}
		}
	}
	walk(tr.top)
	var what []string
	for n := 1 + t.N(4); n > 0; n-- {
		d := dirs[t.N(len(dirs))]
		i := -1
		if len(d.kids) > 0 {
			i = t.N(len(d.kids))
		}
		switch k := t.N(6); {
		case k < 3 && i >= 0 && d.kids[i].kind == 'f':
			if old := d.kids[i].data; t.N(3) == 0 && relicensed(old) != nil {
				d.kids[i].data = relicensed(old)
				what = append(what, "edit in place "+d.kids[i].name)
				break
			}
			d.kids[i].data = content()
			what = append(what, "edit "+d.kids[i].name)
		case k == 3 && i >= 0 && d.kids[i].kind != 'd':
			what = append(what, "remove "+d.kids[i].name)
			d.kids = append(d.kids[:i:i], d.kids[i+1:]...)
		case k == 4 && i >= 0 && d.kids[i].kind == 'f':
			what = append(what, "move "+d.kids[i].name)
			m := d.kids[i]
			d.kids = append(d.kids[:i:i], d.kids[i+1:]...)
			tr.put(dirs[t.N(len(dirs))], m, t)
		default:
			m := &node{kind: 'f', data: content()}
			tr.put(d, m, t)
			what = append(what, "add "+m.name)
		}
	}
	tr.index()
	tr.write()
	return strings.Join(what, ", ")
}

// relicensed is data with a licence replaced by one with a name of the same
// length, or nil.
func relicensed(data []byte) []byte {
	for _, p := range [][2]string{{"MIT", "ISC"}, {"ISC", "MIT"}, {"Apache-2.0", "Apache-1.1"}, {"GPL-2.0", "GPL-3.0"}, {"BSD-3", "BSD-2"}, {"0BSD", "Zlib"}} {
		if bytes.Contains(data, []byte(p[0])) {
			return bytes.ReplaceAll(data, []byte(p[0]), []byte(p[1]))
		}
	}
	return nil
}

func (tr *Tree) put(d, m *node, t *vsimrt.Tape) {
	used := map[string]bool{}
	for _, k := range d.kids {
		used[k.name] = true
	}
	m.name = (&treeGen{t: t, plain: true}).name(used)
	d.kids = append(d.kids, m)
}

// licencesOf is the model: the concluded licence of each listed file.
func licencesOf(files []*tfile, sIgn []string) map[string]string {
	m := map[string]string{}
	for _, f := range files {
		ids := idsIn(f.data)
		if ignored(f.rel, sIgn) {
			ids = nil
		}
		set := map[string]bool{}
		namedIn(ids, set)
		m["."+f.rel] = "NOASSERTION"
		if len(set) > 0 {
			m["."+f.rel] = concluded(ids)
		}
	}
	return m
}

func modelDiff(a, b map[string]string) *licensediff.LicenseDiff {
	d := &licensediff.LicenseDiff{InBothChanged: map[string]licensediff.LicensePair{}, InBothSame: map[string]string{}, InFirstOnly: map[string]string{}, InSecondOnly: map[string]string{}}
	for n, l := range a {
		switch m, ok := b[n]; {
		case !ok:
			d.InFirstOnly[n] = l
		case l == m:
			d.InBothSame[n] = l
		default:
			d.InBothChanged[n] = licensediff.LicensePair{First: l, Second: m}
		}
	}
	for n, l := range b {
		if _, ok := a[n]; !ok {
			d.InSecondOnly[n] = l
		}
	}
	return d
}

// squeeze removes all white space.
func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// modelReport is the report for a package whose files have these licences, one
// entry per line, without white space.
func modelReport(lics map[string]string) []string {
	found, not := 0, 0
	count := map[string]int{}
	for _, l := range lics {
		if l == "NOASSERTION" || l == "" {
			not++
		} else {
			found++
			count[l]++
		}
	}
	names := sortedKeys(count)
	sort.SliceStable(names, func(i, j int) bool { return count[names[i]] > count[names[j]] })
	r := []string{fmt.Sprint(found, "Licensefound"), fmt.Sprint(not, "Licensenotfound"), fmt.Sprint(found+not, "TOTAL")}
	for _, n := range names {
		r = append(r, fmt.Sprint(count[n])+squeeze(n))
	}
	return append(r, fmt.Sprint(found, "TOTALFOUND"))
}

func runC25(c *Ctx) {
	t := c.Tape("input")
	fixClock()
	io := c.Tape("io")
	q := c.newNuisance(io)
	type state struct {
		lics   map[string]string
		doc    *spdx.Document
		diff   *licensediff.LicenseDiff // to the state before
		report string
		ids    []string
		how    string
	}
	type job struct {
		tr     *Tree
		states []*state
		stage  string
		err    error
		first  *licensediff.LicenseDiff // first to last
		sIgn   []string
		// the next system call to fail, below this tree
		arm, op int
		errno   syscall.Errno
		hit     bool
		hits    int
	}
	n := 1 + t.N(2)
	jobs := make([]*job, n)
	var tasks []*Task
	diffOf := func(a, b *spdx.Document) (*licensediff.LicenseDiff, error) {
		pairs, err := licensediff.MakePairs(a.Packages[0], b.Packages[0])
		if err != nil {
			return nil, err
		}
		return licensediff.MakeResults(pairs)
	}
	for i := range jobs {
		j := &job{}
		jobs[i] = j
		tape := c.Tape(fmt.Sprintf("tree%d", i))
		content := func() []byte { return source(tape) }
		j.tr = newTreeOf(tape, fmt.Sprintf("t%d", i), 3+tape.N(12), content, true)
		pats := j.tr.patterns(tape, 1)
		j.sIgn = j.tr.patterns(tape, 1)
		root := dirRootOf(tape, j.tr)
		gens := 2 + tape.N(3)
		tasks = append(tasks, c.Go("history", func(t *Task) {
			for g := 0; g < gens; g++ {
				s := &state{}
				if g > 0 && tape.N(8) > 0 {
					s.how = j.tr.change(tape, content)
				}
				files := j.tr.listed(pats)
				if len(files) == 0 {
					continue // the builder refuses an empty tree
				}
				s.lics = licencesOf(files, j.sIgn)
				if tape.N(4) == 0 {
					// an attempt that fails, or at least may
					j.op = []int{vsimrt.OpRead, vsimrt.OpOpen, vsimrt.OpDents, vsimrt.OpStat}[tape.N(4)]
					j.errno = errnos[tape.N(len(errnos))].e
					j.hit, j.arm = false, 1+tape.N(10)
					searchAt(root, pats, j.sIgn)
					j.arm = 0
					if j.hit {
						j.hits++
						s.how += ", after a failed attempt"
					}
				}
				j.stage = "search"
				var doc *spdx.Document
				if doc, j.err = searchAt(root, pats, j.sIgn); j.err != nil {
					return
				}
				if tape.N(2) == 0 {
					j.stage = "save and load"
					k := tape.N(3)
					ver := versions[tape.N(3)]
					s.how += fmt.Sprintf(", by way of a %s %s document", ver, []string{"JSON", "tag-value", "YAML"}[k])
					d := newDoc(ver)
					if j.err = convert.Document(doc, d); j.err != nil {
						return
					}
					sink := newSink(t)
					if j.err = write([]int{wJSON, wTV, wYAML}[k], d, sink, false); j.err != nil {
						return
					}
					if doc, j.err = readDoc([]int{fJSON, fTV, fYAML}[k], newStream(t, sink.got)); j.err != nil {
						return
					}
				}
				s.doc = doc
				j.stage = "report"
				sink := newSink(t)
				if j.err = reporter.Generate(doc.Packages[0], sink); j.err != nil {
					return
				}
				s.report = string(sink.got)
				j.stage = "described packages"
				ids, err := spdxlib.GetDescribedPackageIDs(doc)
				if j.err = err; err != nil {
					return
				}
				for _, id := range ids {
					s.ids = append(s.ids, string(id))
				}
				j.stage = "validation"
				if j.err = spdxlib.ValidateDocument(doc); j.err != nil {
					return
				}
				j.stage = "comparison"
				if len(j.states) > 0 {
					if s.diff, j.err = diffOf(j.states[len(j.states)-1].doc, doc); j.err != nil {
						return
					}
				}
				j.states = append(j.states, s)
			}
			if len(j.states) > 2 {
				j.first, j.err = diffOf(j.states[0].doc, j.states[len(j.states)-1].doc)
			}
		}))
	}
	c.newFS(func(op int, path string, n, gen int) (int, syscall.Errno) {
		for _, j := range jobs {
			if j.arm > 0 && op == j.op && strings.HasPrefix(path, j.tr.root) {
				if j.arm--; j.arm == 0 {
					j.hit = true
					return n, j.errno
				}
			}
		}
		return q.plan(op, path, n, gen)
	})
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		desc := fmt.Sprintf("history of %d searches of a tree, now %s", len(j.states), j.tr)
		c.sample = desc
		c.Log("%s: stage %s, err=%v; %s", desc, j.stage, j.err, j.tr.list())
		if c.panicked(tasks[i], desc+": "+j.stage) {
			return
		}
		if j.hits > 0 {
			c.Faults["fs: failed system call in a search"] += j.hits
		}
		if j.err != nil {
			c.Fail("failed:"+j.stage, "%s: %s failed: %s", desc, j.stage, strings.ReplaceAll(j.err.Error(), scratch, ""))
			return
		}
		same := func(what string, want, got *licensediff.LicenseDiff) bool {
			if len(want.InBothChanged)+len(want.InFirstOnly)+len(want.InSecondOnly) > 0 {
				c.trivial = false
			}
			if !reflect.DeepEqual(want, got) {
				c.Fail("diff", "%s: %s: %s", desc, what, firstDiff(Dump(want, dumpOpt{}), Dump(got, dumpOpt{})))
				return false
			}
			return true
		}
		for k, s := range j.states {
			c.Log("state %d (%s): %d files", k, s.how, len(s.lics))
			if k > 0 && !same(fmt.Sprintf("comparison of states %d and %d (%s)", k, k+1, s.how), modelDiff(j.states[k-1].lics, s.lics), s.diff) {
				return
			}
			var got []string
			for _, l := range bytes.Split([]byte(s.report), []byte("\n")) {
				if x := squeeze(string(l)); x != "" {
					got = append(got, x)
				}
			}
			if want := modelReport(s.lics); !eqs(want, got) {
				c.Fail("report", "%s: report for state %d (%s) is %q, want %q", desc, k+1, s.how, got, want)
				return
			}
			if id := string(s.doc.Packages[0].PackageSPDXIdentifier); len(s.ids) != 1 || s.ids[0] != id {
				c.Fail("described", "%s: state %d (%s): described packages are %q, the package is %q", desc, k+1, s.how, s.ids, id)
				return
			}
			c.FP(vsimrt.Hash64(s.report))
		}
		if j.first != nil && !same("comparison of the first and the last state", modelDiff(j.states[0].lics, j.states[len(j.states)-1].lics), j.first) {
			return
		}
	}
}
