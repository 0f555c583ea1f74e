package main

import (
	"bytes"
	"fmt"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C29", Title: "use of what was read", Quick: 24000, Thorough: 360000,
		Rule: "a damaged document of a drawn format is read by a drawn delivery; 1-3 concurrent tasks then write, convert, validate, query, compare and report on whatever document the reader returned, to sinks that may fail; non-trivial when the reader returned a document from damaged input",
		Real: append([]string{"spdxlib, reporter, licensediff, utils, writers (instrumented copies)"}, readReal...), Stub: append([]string{"the caller's io.Writer (simulated sink)"}, readStub...),
		Assume: []string{"step bound: as for C07"},
		Run:    runC29})
}

func runC29(c *Ctx) {
	t := c.Tape("input")
	in := genInput(t, []int{fTV, fJSON, fYAML, fJSON, fTV, fRDF, fYAML}[t.N(7)])
	if in.f == fRDF && t.Chance(1, 2) {
		in.data, in.how = rdfGraph(t, in.ver), "graph of elements"
	} else if in.f != fRDF && t.Chance(1, 2) {
		in.data, in.how, in.valid = thinned(t, in), "thinned", false
		if t.Chance(1, 8) {
			corrupt(t, in)
		}
	} else if !t.Chance(1, 10) {
		corrupt(t, in)
	} else {
		in.data, in.how = wild(t), "random pieces"
	}
	target := []string{"", "v2_3", "v2_2", "v2_1"}[t.N(4)]
	c.Log("input: %s", in)
	var doc any
	var err error
	r := c.alone("read", func(t *Task) {
		doc, err = doRead(in.f, newStream(t, in.data), target)
	})
	c.sample = in.String()
	if r.Panic != nil || err != nil || in.valid && in.how != "graph of elements" {
		c.trivial = true // C07's subject
		return
	}
	c.Log("bytes: %q", clip(string(in.data), 6000))
	c.Note("input:" + fmtName[in.f])
	n := 1 + t.N(3)
	what := make([]string, n)
	for i := 0; i < n; i++ {
		i := i
		c.Go("use", func(t *Task) { useDoc(t, doc, &what[i]) })
	}
	tasks := c.tasks
	c.Run()
	for i, w := range what {
		c.Note("last use: " + w)
		if tasks[i].Panic != nil {
			c.panicked(tasks[i], fmt.Sprintf("%s of the document read from %s", w, in))
			return
		}
	}
}

// useDoc does with a document what users do with documents.
func useDoc(t *Task, doc any, what *string) {
	for k := 1 + t.N(4); k > 0; k-- {
		switch t.N(8) {
		case 0, 1:
			w := []int{wJSON, wTV, wYAML, wTV}[t.N(4)]
			*what = "writing as " + writerName[w]
			s := newSink(t)
			if t.N(4) == 0 {
				s.setFault(t.N(2000), t.N(len(writeErrors)), t.N(2) == 0, t.N(2) == 0)
			}
			t.Log("%s: %v", *what, write(w, doc, s, t.N(2) == 0))
			continue
		case 2:
			to := newDoc(versions[t.N(3)])
			*what = fmt.Sprintf("conversion to %T", to)
			if err := convert.Document(doc, to); err == nil {
				doc = to
				t.Log("%s", *what)
			}
			continue
		}
		d, ok := doc.(*spdx.Document)
		if !ok {
			d = &spdx.Document{}
			*what = "conversion to the latest version"
			if convert.Document(doc, d) != nil {
				continue
			}
			doc = d
		}
		switch t.N(6) {
		case 0:
			*what = "validation"
			t.Log("valid: %v", spdxlib.ValidateDocument(d) == nil)
		case 1:
			*what = "query for described packages"
			ids, _ := spdxlib.GetDescribedPackageIDs(d)
			t.Log("%d described", len(ids))
		case 2:
			*what = "filtering of relationships"
			ids, _ := spdxlib.FilterRelationships(d, func(r *spdx.Relationship) *common.ElementID {
				if t.N(2) == 0 {
					return nil
				}
				return &r.RefA.ElementRefID
			})
			t.Log("%d kept", len(ids))
		case 3:
			*what = "licence report"
			for _, p := range d.Packages {
				if p != nil {
					t.Log("report: %v", reporter.Generate(p, newSink(t)) == nil)
				}
			}
		case 4:
			*what = "comparison of packages"
			if len(d.Packages) > 0 {
				a, b := d.Packages[t.N(len(d.Packages))], d.Packages[t.N(len(d.Packages))]
				if a != nil && b != nil {
					if ps, err := licensediff.MakePairs(a, b); err == nil {
						licensediff.MakeResults(ps)
					}
				}
			}
		case 5:
			*what = "verification code"
			for _, p := range d.Packages {
				if p != nil {
					utils.GetVerificationCode(p.Files, "")
				}
			}
		}
	}
}

// thinned is a document that lacks many of its parts, or has them empty.
func thinned(t *vsimrt.Tape, in *Input) []byte {
	drop := 2 + t.N(12)
	if in.f == fTV {
		data, _ := tvStated(t, in.ver)
		var out [][]byte
		for i, l := range bytes.SplitAfter(data, []byte("\n")) {
			if i > 0 && t.N(drop) == 0 {
				if t.N(3) == 0 {
					continue
				}
				if k := bytes.IndexByte(l, ':'); k > 0 {
					l = append(l[:k+1:k+1], '\n')
				}
			}
			out = append(out, l)
		}
		return bytes.Join(out, nil)
	}
	root, g := jsonNodes(t, in.ver, in.f == fYAML)
	var thin func(n *jn)
	thin = func(n *jn) {
		for _, v := range n.vals {
			thin(v)
		}
		switch n.k {
		case 'o':
			k := 0
			for i, v := range n.vals {
				if n.keys[i] != "spdxVersion" && t.N(drop) == 0 {
					if t.N(2) == 0 {
						continue
					}
					if v.k == 'a' && t.N(3) == 0 {
						v = &jn{k: 'a'}
					} else if v.k == 'o' && t.N(2) == 0 {
						v = &jn{k: 'o'}
					} else {
						v = &jn{k: '0'}
					}
				}
				n.keys[k], n.vals[k] = n.keys[i], v
				k++
			}
			n.keys, n.vals = n.keys[:k], n.vals[:k]
		case 'a':
			for m := t.N(3); m > 0 && t.N(drop) < 3; m-- {
				e := &jn{k: '0'}
				if len(n.vals) > 0 && n.vals[0].k == 'o' && t.N(2) == 0 {
					e = &jn{k: 'o'}
				}
				i := t.N(len(n.vals) + 1)
				n.vals = append(n.vals[:i:i], append([]*jn{e}, n.vals[i:]...)...)
			}
		}
	}
	thin(root)
	return g.render(root)
}
