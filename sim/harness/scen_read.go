package main

import (
	"bytes"
	"fmt"

	"vsimrt"
)

// outcome of one read: the complete document, or the fact that it failed
func readOutcome(f int, err error, doc any) string {
	if err != nil {
		return "error"
	}
	return Dump(doc, dumpOpt{})
}

// doRead reads data through s into a fresh document of version ver, or through
// Read when ver is empty.
func doRead(f int, s *Stream, ver string) (any, error) {
	if ver == "" {
		d, err := readDoc(f, s)
		return d, err
	}
	d := newDoc(ver)
	err := readInto(f, s, d)
	return d, err
}

func pickTarget(t *vsimrt.Tape) string { return []string{"v2_3", "", "v2_2", "v2_1"}[t.N(4)] }

// quiet parameters: no preemption, first-in-first-out
func (c *Ctx) runQuiet() { c.RunWith(1<<18, 0, 1) }

func (c *Ctx) alone(name string, fn func(t *Task)) *Task {
	t := c.Go(name, fn)
	c.runQuiet()
	return t
}

// panics reports a panicking task and says whether there was one.
func (c *Ctx) panicked(t *Task, what string) bool {
	if t.Panic == nil {
		return false
	}
	c.Fail("panic:"+topFrame(t.Stack), "%s panicked: %v (%s)", what, t.Panic, t.Stack)
	return true
}

func topFrame(s string) string {
	for i := 0; i+3 < len(s); i++ {
		if s[i:i+3] == " < " {
			return shortFunc(s[:i])
		}
	}
	return shortFunc(s)
}

var readReal = []string{"json, yaml, tagvalue and rdf readers, spdx/v2 parsers, convert, spdx/gordf and go-struct-converter (instrumented copies of the pinned sources)", "sigs.k8s.io/yaml, encoding/json, encoding/xml (uninstrumented)", "Go runtime scheduler under simulator control"}
var readStub = []string{"the caller's io.Reader (simulated stream)"}

func init() {
	register(&Scenario{ID: "C01", Title: "delivery independence", Quick: 18000, Thorough: 270000,
		Rule: "a document of a drawn format and version (generated, re-laid, sample or corrupted) is read once from memory and then through 2-4 simulated streams with drawn delivery styles; non-trivial when at least two different deliveries were compared",
		Real: readReal, Stub: readStub,
		Assume: []string{"an RDF document is compared as bags of elements (order is C10's subject)"},
		Run:    runC01})
	register(&Scenario{ID: "C02", Title: "stream failure", Quick: 80000, Thorough: 1200000,
		Rule: "a valid document is read from a stream that delivers a drawn error at a drawn offset (often at or after the end of the document); non-trivial when the error was delivered",
		Real: readReal, Stub: readStub,
		Run: runC02})
	register(&Scenario{ID: "C03", Title: "failed ReadInto", Quick: 48000, Thorough: 720000,
		Rule: "ReadInto into a filled document of a drawn version, with a failing stream or damaged input; non-trivial when ReadInto returned an error",
		Real: readReal, Stub: readStub,
		Run: runC03})
	register(&Scenario{ID: "C06", Title: "truncation", Quick: 20000, Thorough: 300000,
		Rule: "a valid JSON or RDF document cut at drawn offsets before its closing brace or root element, read by drawn deliveries and schedules; non-trivial when at least one prefix was read",
		Real: readReal, Stub: readStub,
		Run: runC06})
	register(&Scenario{ID: "C07", Title: "no crash, no hang", Quick: 36000, Thorough: 540000, Race: 0,
		Rule: "a damaged document (truncation, bit flips, lost, duplicated, swapped and spliced parts, wrong shapes) of a drawn format is read by a drawn delivery under a drawn schedule; non-trivial when the input differs from a valid document",
		Real: readReal, Stub: readStub,
		Assume: []string{"step bound: 60 million instrumented statements or 60 s of real time for inputs below 300 kB"},
		Run:    runC07})
}

var heads = []string{"\ufeff", "\ufeff\ufeff", "\n", " ", "\r\n\r\n", "\t\n ", "\xff\xfe", "\xfe\xff", "\x00", "# comment\n", "#!\n", "---\n", "%YAML 1.1\n---\n", "<!-- comment -->", "<?xml version=\"1.0\"?>\n", "<?xml", "//\n", ")]}'\n", "\x1f\x8b", "\xef\xbb", "{}", "null\n", "SPDX", "\x1a", "\f"}

func runC01(c *Ctx) {
	t := c.Tape("input")
	in := genInput(t, pickFormat(t))
	if t.Chance(1, 4) {
		corrupt(t, in)
	}
	if t.Chance(1, 8) {
		// what other programs put in front of a document
		h := heads[t.N(len(heads))]
		in.data = append([]byte(h), in.data...)
		in.how += fmt.Sprintf(", behind %q", h)
		in.valid = false
	}
	target := pickTarget(t)
	c.Log("input: %s", in)
	c.Note("input:" + fmtName[in.f])
	var want string
	ref := c.alone("reference", func(t *Task) {
		if target == "" {
			d, err := readDoc(in.f, bytes.NewReader(in.data))
			want = readOutcome(in.f, err, d)
			return
		}
		d := newDoc(target)
		err := readInto(in.f, bytes.NewReader(in.data), d)
		want = readOutcome(in.f, err, d)
	})
	if ref.Panic != nil {
		c.trivial = true // C07's subject
		return
	}
	if want == "error" {
		c.Note("outcome:error")
	} else {
		c.Note("outcome:document")
	}
	n := 2 + t.N(3)
	if len(in.data) > 60000 {
		n = 2
	}
	for i := 0; i < n; i++ {
		var got, how string
		r := c.alone("delivery", func(t *Task) {
			s := newStream(t, in.data)
			how = s.describe()
			d, err := doRead(in.f, s, target)
			got = readOutcome(in.f, err, d)
			t.Log("%s, %d reads: %s", how, s.reads, clip(got, 60))
			t.Fault("delivery:" + styleName[s.style])
			if s.eofWith {
				t.Fault("data-with-EOF")
			}
			if s.zeros0 > s.zeros {
				t.Fault("empty-read")
			}
		})
		if r.Panic != nil {
			c.Fail("delivery-panic", "%s read from memory gives a result, but panics when delivered as %s: %v", in, how, r.Panic)
			return
		}
		if got != want {
			if in.f == fRDF && !c.rdfStable(in, target, want, got) {
				c.Note("rdf outcome not a function of the bytes (C10)")
				continue
			}
			cl := "outcome"
			if want != "error" && got != "error" {
				cl = "content"
			}
			c.Fail("delivery-"+cl+":"+fmtName[in.f], "%s: delivered as %s: %s", in, how, firstDiff(want, got))
		}
	}
	c.sample = in.String()
}

// rdfStable says whether reading in from memory under several schedules and
// map orders always gives want: only then a different outcome is due to the
// delivery.
func (c *Ctx) rdfStable(in *Input, target, want, got string) bool {
	for k := 0; k < 6; k++ {
		var out string
		c.Go("again", func(t *Task) {
			ver := target
			if ver == "" {
				ver = "v2_3"
			}
			d := newDoc(ver)
			err := readInto(in.f, bytes.NewReader(in.data), d)
			out = readOutcome(in.f, err, d)
		})
		c.RunWith([]int{2000, 20, 6, 80, 2, 400}[k], uint64(k*7919), uint64(k+2))
		if out != want {
			return false
		}
	}
	return true
}

func runC02(c *Ctx) {
	t := c.Tape("input")
	in := genInput(t, pickFormat(t))
	target := pickTarget(t)
	at := 0
	switch t.N(8) {
	case 0, 1:
		at = len(in.data)
	case 2:
		at = t.N(len(in.data) + 1)
	case 3:
		// after the closing brace or root element, before trailing space
		at = len(bytes.TrimRight(in.data, " \t\r\n"))
	case 4:
		// at an end of line
		at = lineEnd(t, in.data)
	case 5:
		at = 0
	case 6:
		at = len(in.data) - t.N(40)
	case 7:
		// extra white space follows the document
		k := 1 + t.N(600)
		in.data = append(in.data[:len(in.data):len(in.data)], bytes.Repeat([]byte("\n"), k)...)
		at = len(in.data) - t.N(k+1)
	}
	if at < 0 {
		at = 0
	}
	if at > len(in.data) {
		at = len(in.data)
	}
	kind := t.N(len(readErrors))
	withData := t.N(2) == 1
	sticky := t.N(3) > 0
	c.Log("input: %s", in)
	var err error
	var s *Stream
	r := c.alone("read", func(t *Task) {
		s = newStream(t, in.data)
		s.setFault(at, kind, withData, sticky)
		_, err = doRead(in.f, s, target)
		t.Log("%s: err=%v", s.describe(), err)
	})
	if r.Panic != nil || s.failed == 0 {
		c.trivial = true
		return
	}
	c.sample = in.String() + "; " + s.describe()
	c.Note("input:" + fmtName[in.f])
	if err == nil {
		c.Fail("accepted:"+fmtName[in.f], "%s: %s: the reader returned a document and no error", in, s.describe())
	}
}

func lineEnd(t *vsimrt.Tape, d []byte) int {
	n := bytes.Count(d, []byte("\n"))
	if n == 0 {
		return len(d)
	}
	k := t.N(n)
	if t.N(2) == 0 {
		k = n - 1 - t.N(4)
	}
	for i, b := range d {
		if b == '\n' {
			if k <= 0 {
				return i + t.N(2)
			}
			k--
		}
	}
	return len(d)
}

func runC03(c *Ctx) {
	t := c.Tape("input")
	ver := versions[t.N(3)]
	doc := newGen(c.Tape("doc"), profile(t.N(2))).Doc(ver)
	if t.Chance(1, 8) {
		doc = newDoc(ver)
	}
	in := genInput(t, pickFormat(t))
	fault := t.N(3) == 0
	at, kind := 0, t.N(len(readErrors))
	if fault {
		at = t.N(len(in.data) + 1)
	} else {
		corrupt(t, in)
	}
	before := Dump(doc, dumpOpt{strict: true})
	keep := deepCopy(doc)
	var err error
	r := c.alone("read", func(t *Task) {
		s := newStream(t, in.data)
		if fault {
			s.setFault(at, kind, t.N(2) == 1, true)
		}
		err = readInto(in.f, s, doc)
		t.Log("%s; %s; into %s: err=%v", in, s.describe(), ver, err)
	})
	if r.Panic != nil || err == nil {
		c.trivial = true
		return
	}
	_ = keep
	c.Note("failed read:" + fmtName[in.f])
	c.sample = fmt.Sprintf("%s into a %s document: %v", in, ver, err)
	if after := Dump(doc, dumpOpt{strict: true}); after != before {
		c.Fail("changed:"+fmtName[in.f], "%s: ReadInto returned %q but changed the document: %s", in, err, firstDiff(before, after))
	}
}

func runC06(c *Ctx) {
	t := c.Tape("input")
	f := fJSON
	if t.N(3) == 2 {
		f = fRDF
	}
	in := genInput(t, f)
	end := bytes.LastIndexByte(in.data, '}')
	if f == fRDF {
		end = bytes.LastIndex(in.data, []byte("</rdf:RDF>"))
		if end >= 0 {
			end += len("</rdf:RDF>") - 1
		}
	}
	if end < 0 {
		c.trivial = true
		return
	}
	n := 24
	if f == fRDF {
		n = 4
	}
	if len(in.data) > 30000 {
		n = n/4 + 1
	}
	target := pickTarget(t)
	c.Log("input: %s", in)
	c.Note("input:" + fmtName[f])
	for i := 0; i < n; i++ {
		cut := t.N(end + 1)
		switch t.N(4) {
		case 1:
			cut = end - t.N(30)
		case 2:
			// after a complete inner element
			cut = elementEnd(t, in.data[:end], f)
		}
		if cut < 0 {
			cut = 0
		}
		var err error
		var how string
		r := c.Go("read", func(t *Task) {
			s := newStream(t, in.data[:cut])
			how = s.describe()
			_, err = doRead(f, s, target)
			t.Log("cut at %d of %d: err=%v", cut, len(in.data), err)
			t.Fault("truncation")
		})
		c.Run()
		if r.Panic != nil {
			continue // C07's subject
		}
		if err == nil {
			c.Fail("accepted:"+fmtName[f], "%s cut at byte %d (%s): the reader returned a document and no error", in, cut, how)
			return
		}
	}
	c.sample = in.String()
}

func elementEnd(t *vsimrt.Tape, d []byte, f int) int {
	ch := byte('}')
	if f == fRDF {
		ch = '>'
	} else if t.N(2) == 0 {
		ch = ']'
	}
	n := bytes.Count(d, []byte{ch})
	if n == 0 {
		return len(d)
	}
	k := t.N(n)
	for i, b := range d {
		if b == ch {
			if k == 0 {
				return i + 1
			}
			k--
		}
	}
	return len(d)
}

func runC07(c *Ctx) {
	t := c.Tape("input")
	if t.Chance(1, 30) {
		runGrowth(c, t)
		return
	}
	in := genInput(t, []int{fTV, fJSON, fRDF, fYAML}[t.N(4)])
	if in.f == fRDF && t.Chance(1, 2) {
		in.data, in.how = rdfGraph(t, in.ver), "graph of elements"
		if t.Chance(1, 4) {
			corrupt(t, in)
		}
	} else if !t.Chance(1, 12) {
		corrupt(t, in)
	} else {
		in.data = wild(t)
		in.how = "random bytes"
	}
	target := pickTarget(t)
	c.Log("input: %s", in)
	c.Log("bytes: %q", clip(string(in.data), 6000))
	c.Note("input:" + fmtName[in.f])
	r := c.Go("read", func(t *Task) {
		s := newStream(t, in.data)
		if t.tape.Chance(1, 10) {
			s.setFault(t.N(len(in.data)+1), t.N(len(readErrors)), t.N(2) == 1, t.N(2) == 1)
		}
		_, err := doRead(in.f, s, target)
		t.Log("%s: err=%v", s.describe(), err)
	})
	c.Run()
	c.FP(vsimrt.Hash64(in.how))
	c.sample = in.String()
	c.panicked(r, fmt.Sprintf("reading %s", in))
}

// wild makes short arbitrary inputs.
func wild(t *vsimrt.Tape) []byte {
	toks := []string{"", "{", "}", "null", "[]", `{"spdxVersion":"SPDX-2.3"`, `{"spdxVersion":"SPDX-2.2"}`, `{"spdxVersion":null}`, `,"packages":[null]}`, `,"relationships":[{}]}`, `,"files":[null]`, "SPDXVersion: SPDX-2.3\n", "SPDXVersion: SPDX-2.2\n", "SPDXVersion: SPDX-2.1\n", "spdxVersion: SPDX-2.3\n", "PackageName: x\n", "\n", " ", ":", "<text>", "</text>", "<a>", "</a>", "<rdf:RDF>", "</rdf:RDF>", "\xff", "\x00", "- ", "a: ", "&x ", "*x", "!!binary ", "{{", "packages:\n", "- null\n", "annotations: null\n"}
	var b []byte
	for i := t.N(12); i >= 0; i-- {
		b = append(b, toks[t.N(len(toks))]...)
	}
	return b
}
