package main

import (
	"fmt"
	"reflect"

	"github.com/spdx/tools-golang/spdx/v2/common"
)

func init() {
	register(&Scenario{ID: "C22", Title: "JSON/YAML content", Quick: 10000, Thorough: 200000,
		Rule: "1-3 concurrent tasks each read a JSON or YAML document written by the harness from a drawn statement (members in any order, every way to write a string, block and flow style, legacy documentDescribes and hasFiles, nulls and left-out members) by a drawn delivery, some after a failed attempt, by Read or by ReadInto into a drawn version; non-trivial when a document with a package or a file was compared",
		Real: readReal, Stub: readStub,
		Assume: []string{"the member names and value forms of the SPDX 2.2/2.3 JSON schema; a document of a version is converted to another by copying the fields both have", "texts in YAML have no U+0085 (known finding)"},
		Run:    func(c *Ctx) { runStated(c, false) }})
	register(&Scenario{ID: "C23", Title: "tag-value content", Quick: 14000, Thorough: 210000,
		Rule: "1-3 concurrent tasks each read a tag-value document written by the harness from a drawn statement (tags of a section in any order, relationships and annotations in any section, plain or <text> values, comments, blank lines, CRLF) by a drawn delivery, some after a failed attempt, by Read or by ReadInto into a drawn version; non-trivial when a document with a package or a file was compared",
		Real: readReal, Stub: readStub,
		Assume: []string{"the tags of the SPDX 2.1-2.3 tag-value format; sections in the order of the specification; a document of a version is converted to another by copying the fields both have"},
		Run:    func(c *Ctx) { runStated(c, true) }})
}

type stated struct {
	want any
	note []string
}

// copyCommon copies to dst what src and dst both have.
func copyCommon(dst, src reflect.Value) {
	switch {
	case src.Kind() == reflect.Pointer:
		if src.IsNil() {
			return
		}
		copyCommon(dst, src.Elem())
	case dst.Kind() == reflect.Pointer:
		dst.Set(reflect.New(dst.Type().Elem()))
		copyCommon(dst.Elem(), src)
	case src.Type() == dst.Type():
		dst.Set(deepCopyValue(src))
	case src.Kind() == reflect.Struct && dst.Kind() == reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			n := src.Type().Field(i).Name
			if f := dst.FieldByName(n); f.IsValid() && f.CanSet() {
				copyCommon(f, src.Field(i))
			}
		}
	case src.Kind() == reflect.Slice && dst.Kind() == reflect.Slice:
		if src.IsNil() {
			return
		}
		l := reflect.MakeSlice(dst.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			copyCommon(l.Index(i), src.Index(i))
		}
		dst.Set(l)
	case src.Kind() == reflect.Map && dst.Kind() == reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMap(dst.Type())
		for _, k := range src.MapKeys() {
			e := reflect.New(dst.Type().Elem()).Elem()
			copyCommon(e, src.MapIndex(k))
			m.SetMapIndex(k, e)
		}
		dst.Set(m)
	default:
		panic(fmt.Sprintf("cannot copy %s to %s", src.Type(), dst.Type()))
	}
}

// expected is the document of version from as a document of version to.
func expected(doc any, from, to string) any {
	if from == to {
		return doc
	}
	chain := map[string]int{"v2_1": 0, "v2_2": 1, "v2_3": 2}
	for cur := chain[from]; cur != chain[to]; {
		if cur < chain[to] {
			cur++
		} else {
			cur--
		}
		next := newDoc([]string{"v2_1", "v2_2", "v2_3"}[cur])
		copyCommon(reflect.ValueOf(next).Elem(), reflect.ValueOf(doc).Elem())
		doc = next
	}
	set(reflect.ValueOf(doc), "SPDXVersion", specVersion(to))
	return doc
}

// statedDump writes a document down for comparison with a statement.
func statedDump(doc any, tv bool) string {
	d := reflect.ValueOf(deepCopy(doc))
	ps := fld(d, "Packages")
	for i := 0; i < ps.Len(); i++ {
		if f := fld(ps.Index(i), "PackageVerificationCode"); f.Kind() == reflect.Pointer && f.IsNil() {
			f.Set(reflect.ValueOf(&common.PackageVerificationCode{}))
		}
	}
	if tv {
		return Dump(d.Interface(), dumpOpt{})
	}
	return Dump(d.Interface(), dumpOpt{skip: rtSkipJSON})
}

func runStated(c *Ctx, tv bool) {
	t := c.Tape("input")
	n := 1 + t.N(3)
	type job struct {
		f          int
		ver, to    string
		data       []byte
		g          stated
		want       string
		got        any
		err        error
		desc, fail string
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{ver: versions[t.N(3)], f: fJSON}
		if tv {
			j.f = fTV
		} else if t.N(2) == 1 {
			j.f = fYAML
		}
		if t.N(3) > 0 {
			j.to = []string{j.ver, "", "v2_3", "v2_2", "v2_1"}[t.N(5)]
		} else {
			j.to = j.ver
		}
		failFirst := t.N(5) == 0
		if tape := c.Tape(fmt.Sprintf("doc%d", i)); tv {
			data, g := tvStated(tape, j.ver)
			j.data, j.g = data, stated{g.want, g.note}
		} else {
			data, g := jsonStated(tape, j.ver, j.f == fYAML)
			j.data, j.g = data, stated{g.want, g.note}
		}
		to := j.to
		if to == "" {
			to = "v2_3"
		}
		j.want = statedDump(expected(j.g.want, j.ver, to), tv)
		jobs[i] = j
		c.Go("read", func(t *Task) {
			if failFirst {
				s := newStream(t, j.data)
				s.setFault(t.N(len(j.data)), t.N(3), t.N(2) == 0, true)
				_, err := doRead(j.f, s, j.to)
				t.Fault("stream error before")
				if err == nil {
					j.fail = "a read from a failing stream gave no error"
					return
				}
			}
			s := newStream(t, j.data)
			j.got, j.err = doRead(j.f, s, j.to)
			t.Fault("delivery:" + styleName[s.style])
			j.desc = s.describe()
		})
	}
	tasks := c.tasks
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		desc := fmt.Sprintf("%s %s document of %d bytes read into %q, delivered as %s", fmtName[j.f], j.ver, len(j.data), j.to, j.desc)
		c.Log("task %d: %s: err=%v", i, desc, j.err)
		if c.panicked(tasks[i], desc) || j.fail != "" {
			continue // C02's subject
		}
		c.sample = desc
		for _, s := range j.g.note {
			c.Note(fmtName[j.f] + ": " + s)
		}
		d := reflect.ValueOf(j.g.want)
		if fld(d, "Packages").Len()+fld(d, "Files").Len() > 0 {
			c.trivial = false
		}
		if j.err != nil {
			c.Log("document:\n%s", clip(string(j.data), 20000))
			c.Fail("error:"+fmtName[j.f], "%s: %s", desc, clip(j.err.Error(), 300))
			continue
		}
		if got := statedDump(j.got, tv); got != j.want {
			c.Log("document:\n%s", clip(string(j.data), 20000))
			c.Fail("content:"+fmtName[j.f]+":"+diffField(j.want, got), "%s: what the document states and what was read differ: %s", desc, firstDiff(j.want, got))
		}
	}
}
