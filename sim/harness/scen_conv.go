package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/convert"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C24", Title: "conversion", Quick: 6000, Thorough: 200000, Race: 20,
		Rule: "1-4 concurrent tasks convert shared and own documents along drawn chains of versions, into fresh and used targets, while others write the same documents and callers edit their results; every result is compared with the field-by-field reference; non-trivial when two versions were involved and the document has a package or a file",
		Real: []string{"convert, spdx/v2 models and version hooks, go-struct-converter (instrumented copies)", "Go runtime scheduler under simulator control"}, Stub: []string{"writers' sinks (simulated)"},
		Assume: []string{"fields correspond by name across versions; a missing verification code, creation info, supplier or originator is the same as an empty one"},
		Run:    runC24})
}

func runC24(c *Ctx) {
	t := c.Tape("input")
	nDocs := 1 + t.N(2)
	type shared struct {
		ver    string
		doc    any
		before string
	}
	docs := make([]*shared, nDocs)
	for i := range docs {
		s := &shared{ver: versions[t.N(3)]}
		s.doc = newGen(c.Tape(fmt.Sprintf("doc%d", i)), profile(t.N(2))).Doc(s.ver)
		if t.N(3) == 0 {
			perturb(t, reflect.ValueOf(s.doc)) // conversion gives no meaning to what it copies
		}
		s.before = Dump(s.doc, dumpOpt{strict: true})
		docs[i] = s
	}
	type job struct {
		src   *shared
		chain []string
		want  []string
		got   []string
		err   error
		used  bool
	}
	var jobs []*job
	n := 1 + t.N(4)
	for i := 0; i < n; i++ {
		s := docs[t.N(nDocs)]
		if i > 0 && t.N(6) == 5 {
			k := t.N(4)
			c.Go("write", func(t *Task) {
				t.Log("written as %s: %v", writerName[k], write(k, s.doc, newSink(t), t.N(2) == 0))
			})
			jobs = append(jobs, nil)
			continue
		}
		j := &job{src: s, used: t.N(4) == 0}
		cur, d := s.ver, deepCopy(s.doc)
		for k := 1 + t.N(4); k > 0; k-- {
			to := versions[t.N(3)]
			d = deepCopy(expected(d, cur, to))
			cur = to
			j.chain = append(j.chain, to)
			j.want = append(j.want, convDump(d))
		}
		var filled any
		if j.used {
			filled = newGen(c.Tape(fmt.Sprintf("used%d", i)), profJSON).Doc(j.chain[0])
		}
		byValue := t.N(2) == 0
		edit := t.N(3) == 0
		jobs = append(jobs, j)
		c.Go("convert", func(t *Task) {
			from, fresh := j.src.doc, false
			for k, to := range j.chain {
				out := newDoc(to)
				if k == 0 && filled != nil {
					out = filled
				}
				src := from
				if byValue {
					src = reflect.ValueOf(from).Elem().Interface()
				}
				if j.err = convert.Document(src, out); j.err != nil {
					return
				}
				j.got = append(j.got, convDump(out))
				fresh = fresh || to != j.src.ver
				from = out
			}
			// the caller edits the result, which is the caller's own now
			if fresh && edit {
				scribble(reflect.ValueOf(from))
				t.Log("result edited")
			}
		})
	}
	tasks := c.tasks
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		if j == nil {
			c.panicked(tasks[i], "writing a document while it is being converted")
			continue
		}
		desc := fmt.Sprintf("converting a %s document to %s (first target used before: %v)", j.src.ver, strings.Join(j.chain, ", then "), j.used)
		c.sample = desc
		if c.panicked(tasks[i], desc) {
			continue
		}
		if j.err != nil {
			c.Fail("error", "%s: %v", desc, j.err)
			continue
		}
		for k, to := range j.chain {
			c.Note("to:" + to)
			if to != j.src.ver && fld(reflect.ValueOf(j.src.doc), "Packages").Len()+fld(reflect.ValueOf(j.src.doc), "Files").Len() > 0 {
				c.trivial = false
			}
			if j.got[k] != j.want[k] {
				c.Fail("content:"+diffField(j.want[k], j.got[k]), "%s: step %d: %s", desc, k+1, firstDiff(j.want[k], j.got[k]))
				break
			}
		}
	}
	for _, s := range docs {
		if now := Dump(s.doc, dumpOpt{strict: true}); now != s.before {
			c.Fail("source", "conversion changed its %s source: %s", s.ver, firstDiff(s.before, now))
		}
	}
}

// convDump writes a document down; an object without content that is not a
// list's element is the same as none.
func convDump(doc any) string {
	d := reflect.ValueOf(deepCopy(doc))
	var drop func(v reflect.Value)
	drop = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				drop(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				drop(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				drop(v.MapIndex(k))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				drop(f)
				if f.Kind() == reflect.Pointer && !f.IsNil() && f.Elem().IsZero() {
					f.Set(reflect.Zero(f.Type()))
				}
			}
		}
	}
	drop(d)
	return statedDump(d.Interface(), true)
}

// perturb changes some of the values that can be reached from v.
func perturb(t *vsimrt.Tape, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			perturb(t, v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			perturb(t, v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i); e.Kind() == reflect.Pointer && t.N(30) == 0 {
				e.Set(reflect.New(e.Type().Elem())) // without content
			}
			perturb(t, v.Index(i))
		}
		if v.CanSet() && v.Len() > 0 && t.N(20) == 0 {
			if t.N(2) == 0 {
				v.Set(v.Slice(0, v.Len()-1))
			} else if v.Index(0).Kind() != reflect.Pointer {
				v.Set(reflect.Append(v, v.Index(0)))
			}
		}
	case reflect.String:
		if v.CanSet() && t.N(12) == 0 {
			v.SetString([]string{"", "x", "NOASSERTION", "NONE", " a ", "SPDXRef-a", "PACKAGE_MANAGER", "SPDX-9.9", "a\nb", "DocumentRef-x"}[t.N(10)])
		}
	case reflect.Int:
		if v.CanSet() && t.N(6) == 0 {
			v.SetInt(int64(t.N(5)) - 1)
		}
	case reflect.Bool:
		if v.CanSet() && t.N(3) == 0 {
			v.SetBool(!v.Bool())
		}
	}
}

// scribble overwrites everything that can be reached from v.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(4242)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}
