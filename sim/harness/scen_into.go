package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/spdx/tools-golang/convert"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C19", Title: "ReadInto replaces the content", Quick: 9000, Thorough: 200000,
		Rule: "a history of 2-5 ReadInto calls (drawn formats, versions, deliveries, faults and damage) into one document of a drawn version, sometimes filled before, compared after every call with the same read into a fresh document; the content read before is kept through a copy of the document and must not change; non-trivial when a read into a filled document succeeded",
		Real: readReal, Stub: readStub,
		Assume: []string{"fields of unexported or json:\"-\" kind count as well: the oracle is the library's own result for a fresh document"},
		Run:    runC19})
}

// shallow copies the document itself, not what it points to: what a caller
// does who keeps the result of one read and reuses the variable.
func shallow(doc any) any {
	v := reflect.New(reflect.TypeOf(doc).Elem())
	v.Elem().Set(reflect.ValueOf(doc).Elem())
	return v.Interface()
}

func runC19(c *Ctx) {
	t := c.Tape("input")
	ver := versions[t.N(3)]
	doc := newDoc(ver)
	if t.Chance(1, 2) {
		doc = newGen(c.Tape("doc"), profile(t.N(2))).Doc(ver)
	}
	type kept struct {
		doc  any
		dump string
		how  string
	}
	var copies []kept
	c.trivial = true
	n := 2 + t.N(4)
	for i := 0; i < n; i++ {
		in := genInput(t, pickFormat(t))
		if t.Chance(1, 5) {
			corrupt(t, in)
		}
		at := -1
		kind := t.N(len(readErrors))
		if t.Chance(1, 6) {
			at = t.N(len(in.data) + 1)
		}
		full := Dump(doc, dumpOpt{}) != Dump(newDoc(ver), dumpOpt{})
		before := Dump(doc, dumpOpt{strict: true})
		fresh := newDoc(ver)
		native := newDoc(in.ver)
		var want, err, errN error
		ref := c.Go("fresh", func(*Task) { want = readInto(in.f, bytes.NewReader(in.data), fresh) })
		c.runQuiet()
		ref2 := c.Go("native", func(*Task) { errN = readInto(in.f, bytes.NewReader(in.data), native) })
		c.runQuiet()
		if ref.Panic != nil || ref2.Panic != nil {
			return // C07's subject
		}
		copies = append(copies, kept{shallow(doc), before, fmt.Sprintf("before read %d", i+1)})
		how := ""
		r := c.Go("read", func(t *Task) {
			s := newStream(t, in.data)
			if at >= 0 {
				s.setFault(at, kind, t.N(2) == 1, true)
			}
			err = readInto(in.f, s, doc)
			how = s.describe()
		})
		c.runQuiet()
		c.Log("read %d: %s into %s, %s: err=%v", i+1, in, ver, how, err)
		if c.panicked(r, fmt.Sprintf("reading %s into a used document", in)) {
			return
		}
		what := fmt.Sprintf("read %d of %d, %s into a %s document (filled before: %v)", i+1, n, in, ver, full)
		if at < 0 && (err == nil) != (want == nil) {
			c.Fail("error:"+fmtName[in.f], "%s: error %v, into a fresh document %v", what, err, want)
			return
		}
		if err != nil {
			c.Note("failed")
			if a := Dump(doc, dumpOpt{strict: true}); a != before {
				c.Fail("changed:"+fmtName[in.f], "%s failed but changed the document: %s", what, firstDiff(before, a))
				return
			}
			continue
		}
		if want != nil {
			return // a failing stream that did not fail: C02's subject
		}
		c.Note("read:" + fmtName[in.f] + ":" + in.ver + " into " + ver)
		got, exp := Dump(doc, dumpOpt{}), Dump(fresh, dumpOpt{})
		if full {
			c.trivial = false
		}
		c.sample = what
		c.FP(vsimrt.Hash64(got))
		if got != exp {
			c.Fail("content:"+fmtName[in.f], "%s differs from the same read into a fresh document: %s", what, firstDiff(exp, got))
			return
		}
		if errN == nil && in.valid && in.ver != ver {
			conv := newDoc(ver)
			if convert.Document(native, conv) == nil {
				if exp := Dump(conv, dumpOpt{}); got != exp {
					c.Fail("converted:"+fmtName[in.f], "%s differs from reading it as a %s document and converting that: %s", what, in.ver, firstDiff(exp, got))
					return
				}
			}
		}
		for _, k := range copies {
			if now := Dump(k.doc, dumpOpt{strict: true}); now != k.dump {
				c.Fail("earlier:"+fmtName[in.f], "%s changed the content the document had %s (kept through a copy of it): %s", what, k.how, firstDiff(k.dump, now))
				return
			}
		}
	}
}
