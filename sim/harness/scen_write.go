package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"

	"vsimrt"
)

const (
	wJSON = iota
	wJSONIndent
	wJSONNoEsc
	wYAML
	wTV
	wReport
	nWriters
)

var writerName = [...]string{"json", "json-indent", "json-noescape", "yaml", "tagvalue", "report"}

// write calls one of the library's writers. byValue passes the document
// itself, not a pointer to it.
func write(k int, doc any, w io.Writer, byValue bool) error {
	if byValue && k != wReport {
		doc = reflect.ValueOf(doc).Elem().Interface()
	}
	switch k {
	case wJSON:
		return json.Write(doc, w)
	case wJSONIndent:
		return json.Write(doc, w, json.Indent("\t"))
	case wJSONNoEsc:
		return json.Write(doc, w, json.EscapeHTML(false), json.Indent(" "))
	case wYAML:
		return yaml.Write(doc, w)
	case wTV:
		return tagvalue.Write(doc, w)
	}
	return reporter.Generate(doc.(*spdx.Package), w)
}

// reportPackage makes a package with analysed files for the reporter.
func reportPackage(t *vsimrt.Tape) *spdx.Package {
	p := &spdx.Package{PackageName: "p", FilesAnalyzed: true}
	lics := []string{"MIT", "Apache-2.0", "GPL-2.0-only", "BSD-3-Clause", "", "NOASSERTION", "MPL-2.0", "(MIT OR Apache-2.0)", "ISC", "é"}
	n := t.N(14)
	for i := 0; i < n; i++ {
		p.Files = append(p.Files, &spdx.File{FileName: fmt.Sprintf("./f%d", i), LicenseConcluded: lics[t.N(len(lics))]})
	}
	return p
}

var writeReal = []string{"json, yaml, tagvalue writers, reporter, spdx/v2 marshallers and tag-value renderers, convert (instrumented copies)", "encoding/json, sigs.k8s.io/yaml, text/tabwriter (uninstrumented)", "Go runtime scheduler under simulator control"}
var writeStub = []string{"the caller's io.Writer (simulated sink)"}

func init() {
	register(&Scenario{ID: "C04", Title: "failing sink", Quick: 80000, Thorough: 1200000,
		Rule: "a generated document (or package) is written once without fault and then to sinks that fail at drawn offsets (with or without part of the write accepted, once or for good); non-trivial when a fault was delivered",
		Real: writeReal, Stub: writeStub,
		Assume: []string{"a short write comes with an error, as io.Writer demands (tag-value and reports are also given sinks that accept less without one)"},
		Run:    runC04})
	register(&Scenario{ID: "C05", Title: "JSON/YAML round trip", Quick: 10000, Thorough: 200000, Race: 15,
		Rule: "1-3 concurrent tasks write a generated document as JSON or YAML and read the bytes back through a drawn delivery under a drawn schedule; non-trivial when a document was read back",
		Real: writeReal, Stub: append([]string{"the caller's io.Reader (simulated stream)"}, writeStub...),
		Assume: []string{"documents are generated by the harness's grammar of valid documents; fields the JSON form does not carry (json:\"-\") are left empty"},
		Run:    func(c *Ctx) { runRoundTrip(c, false) }})
	register(&Scenario{ID: "C18", Title: "tag-value round trip", Quick: 14000, Thorough: 210000, Race: 15,
		Rule: "1-3 concurrent tasks write a generated document as tag-value and read the bytes back through a drawn delivery under a drawn schedule; non-trivial when a document was read back",
		Real: writeReal, Stub: append([]string{"the caller's io.Reader (simulated stream)"}, writeStub...),
		Assume: []string{"documents are generated by the harness's grammar of documents the tag-value syntax can express"},
		Run:    func(c *Ctx) { runRoundTrip(c, true) }})
}

func runC04(c *Ctx) {
	t := c.Tape("input")
	k := t.N(nWriters)
	var doc any
	ver := ""
	if k == wReport {
		doc = reportPackage(t)
	} else {
		ver = versions[t.N(3)]
		p := profJSON
		if k == wTV {
			p = profTV
		}
		doc = newGen(t, p).Doc(ver)
	}
	byValue := t.N(2) == 1
	var ref []byte
	var refErr error
	r := c.alone("reference", func(t *Task) {
		s := newSink(t)
		refErr = write(k, deepCopy(doc), s, byValue)
		ref = s.got
	})
	if r.Panic != nil || refErr != nil || len(ref) == 0 {
		c.trivial = true
		c.Note("reference failed")
		return
	}
	c.Note("writer:" + writerName[k])
	if t.N(8) == 7 {
		unwritable(c, t, k, ver, doc, byValue)
		if len(c.viol) > 0 {
			return
		}
	}
	n := 6
	hit := false
	for i := 0; i < n; i++ {
		at := t.N(len(ref))
		switch t.N(5) {
		case 3:
			at = len(ref) - 1 - t.N(20)
			if at < 0 {
				at = 0
			}
		case 4:
			at = 0
		}
		if i == n-1 && t.N(3) == 0 {
			at = -1 // no fault
		}
		kind, partial, transient := t.N(len(writeErrors)), t.N(2) == 1, t.N(2) == 1
		// a sink that breaks the contract of io.Writer: fewer bytes, no error
		quiet := (k == wTV || k == wReport) && t.N(6) == 5
		var err error
		var s *Sink
		d := deepCopy(doc)
		r := c.alone("write", func(t *Task) {
			s = newSink(t)
			if at >= 0 {
				s.setFault(at, kind, partial, transient)
				if quiet {
					s.err, s.errName, s.partial = nil, "short-write-without-error", true
				}
			}
			err = write(k, d, s, byValue)
			t.Log("%s %s: %s: err=%v, %d of %d bytes accepted", writerName[k], ver, s.describe(), err, len(s.got), len(ref))
		})
		what := fmt.Sprintf("writing a %s document as %s, sink with %s", ver, writerName[k], s.describe())
		if r.Panic != nil {
			c.panicked(r, what)
			return
		}
		if s.failed > 0 {
			hit = true
			if err == nil {
				c.Fail("unreported:"+writerName[k], "%s: the call returned nil although the sink refused data; %d of %d bytes accepted", what, len(s.got), len(ref))
				return
			}
		} else if err != nil {
			c.Fail("spurious:"+writerName[k], "%s: the call returned %v although the sink accepted everything", what, err)
			return
		}
		if err == nil && !bytes.Equal(s.got, ref) {
			c.Fail("incomplete:"+writerName[k], "%s: nil returned but the sink has %d bytes that are not the %d bytes of the fault-free write", what, len(s.got), len(ref))
			return
		}
		if !bytes.HasPrefix(ref, s.got) {
			j := 0
			for j < len(ref) && j < len(s.got) && ref[j] == s.got[j] {
				j++
			}
			c.Fail("not-a-prefix:"+writerName[k], "%s: %d bytes accepted; at byte %d the fault-free output has %q, the sink %q", what, len(s.got), j, clip(string(ref[j:]), 60), clip(string(s.got[j:]), 60))
			return
		}
	}
	c.trivial = !hit
	c.sample = fmt.Sprintf("%s %s, %d bytes", writerName[k], ver, len(ref))
}

// unwritable asks for the writing of something the format cannot express.
func unwritable(c *Ctx, t *vsimrt.Tape, k int, ver string, doc any, byValue bool) {
	d := deepCopy(doc)
	v := reflect.ValueOf(d)
	what := ""
	switch k {
	case wReport:
		d.(*spdx.Package).FilesAnalyzed = false
		what = "a report on a package whose files were not analysed"
	case wTV:
		f := v.Elem().FieldByName("CreationInfo")
		f.Set(reflect.Zero(f.Type()))
		what = "a document without creation information"
		if t.N(4) == 3 {
			d, what = &struct{ SPDXVersion string }{"SPDX-2.3"}, "something that is not a document"
		}
	default:
		ps := v.Elem().FieldByName("Packages")
		if ps.Len() == 0 {
			return
		}
		p := ps.Index(t.N(ps.Len())).Elem()
		if t.N(2) == 0 {
			p.FieldByName("PackageSupplier").Set(reflect.ValueOf(&common.Supplier{Supplier: "somebody"}))
			what = "a package supplier without a type"
		} else {
			p.FieldByName("PackageOriginator").Set(reflect.ValueOf(&common.Originator{OriginatorType: "Person"}))
			what = "a package originator without a name"
		}
	}
	var err error
	var s *Sink
	r := c.alone("write", func(t *Task) {
		s = newSink(t)
		err = write(k, d, s, byValue)
		t.Log("%s %s: %s: err=%v, %d bytes accepted", writerName[k], ver, what, err, len(s.got))
	})
	c.Note("cannot be written")
	switch {
	case r.Panic != nil:
		c.panicked(r, "writing "+what+" as "+writerName[k])
	case err == nil:
		c.Fail("unwritable:"+writerName[k], "%s as %s: the call returned nil; %d bytes written: %s", what, writerName[k], len(s.got), clip(string(s.got), 80))
	case len(s.got) > 0:
		c.Fail("unwritable-part:"+writerName[k], "%s as %s: the call returned %v, but %d bytes were written: %s", what, writerName[k], err, len(s.got), clip(string(s.got), 80))
	}
}

// ---------------------------------------------------------------- round trips

var rtSkipJSON = map[string]bool{"Package.IsFilesAnalyzedTagPresent": true}
var rtSkipTV = map[string]bool{"Package.IsFilesAnalyzedTagPresent": true}

// tvCanon puts a document's lists in the order the tag-value form defines.
func tvCanon(doc any) any {
	d := deepCopy(doc)
	v := reflect.ValueOf(d)
	sortBy := func(f reflect.Value, key string) {
		if !f.IsValid() {
			return
		}
		sort.SliceStable(f.Interface(), func(i, j int) bool {
			return fmt.Sprint(fld(f.Index(i), key)) < fmt.Sprint(fld(f.Index(j), key))
		})
	}
	sortBy(fld(v, "ExternalDocumentReferences"), "DocumentRefID")
	sortBy(fld(v, "Files"), "FileSPDXIdentifier")
	sortBy(fld(v, "Packages"), "PackageSPDXIdentifier")
	ps := fld(v, "Packages")
	for i := 0; i < ps.Len(); i++ {
		sortBy(fld(ps.Index(i), "Files"), "FileSPDXIdentifier")
	}
	return d
}

func runRoundTrip(c *Ctx, tv bool) {
	t := c.Tape("input")
	n := 1 + t.N(3)
	type job struct {
		k    int
		ver  string
		doc  any
		want string
		got  any
		werr error
		rerr error
		out  []byte
		how  string
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{ver: versions[t.N(3)]}
		g := c.Tape(fmt.Sprintf("doc%d", i))
		if tv {
			j.k = wTV
			j.doc = newGen(g, profTV).Doc(j.ver)
			j.want = Dump(tvCanon(j.doc), dumpOpt{skip: rtSkipTV})
		} else {
			j.k = t.N(4)
			gen := newGen(g, profJSON)
			if j.k == wYAML {
				gen.nel = t.N(60) == 59
			}
			j.doc = gen.Doc(j.ver)
			j.want = Dump(jsonCanon(j.doc), dumpOpt{skip: rtSkipJSON})
		}
		jobs[i] = j
		byValue := t.N(2) == 1
		latest := j.ver == "v2_3" && t.N(3) == 0
		c.Go("round trip", func(t *Task) {
			s := newSink(t)
			j.werr = write(j.k, j.doc, s, byValue)
			j.out = s.got
			if j.werr != nil {
				return
			}
			f := map[int]int{wJSON: fJSON, wJSONIndent: fJSON, wJSONNoEsc: fJSON, wYAML: fYAML, wTV: fTV}[j.k]
			st := newStream(t, s.got)
			j.how = st.describe()
			if latest {
				j.got, j.rerr = readDoc(f, st)
				return
			}
			j.got = newDoc(j.ver)
			j.rerr = readInto(f, st, j.got)
		})
	}
	tasks := c.tasks
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		name := writerName[j.k]
		c.Note("format:" + name + " " + j.ver)
		c.Log("task %d: %s %s, %d bytes, %s, write err=%v, read err=%v", i, j.ver, name, len(j.out), j.how, j.werr, j.rerr)
		if c.panicked(tasks[i], "round trip of a "+j.ver+" document as "+name) {
			continue
		}
		if j.werr != nil {
			c.Note("write refused")
			continue
		}
		c.trivial = false
		fmtn := name
		if j.k < wYAML {
			fmtn = "json"
		}
		if j.rerr != nil {
			c.Log("written: %s", clip(string(j.out), 3000))
			c.Fail("unreadable:"+fmtn, "a %s document was written as %s without error but cannot be read back: %v", j.ver, name, clip(j.rerr.Error(), 300))
			continue
		}
		got := Dump(j.got, dumpOpt{skip: map[bool]map[string]bool{true: rtSkipTV, false: rtSkipJSON}[tv]})
		if got != j.want {
			c.Log("written: %s", clip(string(j.out), 3000))
			cl := "changed:" + fmtn + ":" + diffField(j.want, got)
			if j.k == wYAML && onlyNEL(j.want, got) {
				cl = "yaml-nel"
			}
			c.Fail(cl, "a %s document written as %s reads back different: %s", j.ver, name, firstDiff(j.want, got))
		}
		c.sample = fmt.Sprintf("%s %s, %d bytes, %d task(s)", j.ver, name, len(j.out), n)
	}
}

// jsonCanon is what reading back a JSON document yields.
func jsonCanon(doc any) any { return doc }

// onlyNEL says whether all differences are due to texts with U+0085, which the
// YAML library reads back as a line break or a blank.
func onlyNEL(want, got string) bool {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.Contains(a[i], `\u0085`) {
			return false
		}
	}
	return true
}
