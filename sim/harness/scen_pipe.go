package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/utils"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C21", Title: "build, save, load, check", Quick: 60000, Thorough: 900000,
		Rule: "1-2 concurrent pipelines: build or search a drawn tree (short reads, EINTR, directory orders), convert to a drawn version, save as JSON, YAML or tag-value to a sink that sometimes fails first and is then replaced, load by a drawn delivery (sometimes after a failed attempt), load and save again; non-trivial when a document with a file came back",
		Real: append([]string{"json, yaml and tagvalue writers and readers, convert"}, fsReal...), Stub: append([]string{"the caller's io.Writer and io.Reader"}, fsStub...),
		Assume: []string{"file names are single lines of valid UTF-8"},
		Run:    runC21})
}

// loadedFile is what a loaded document says about a file.
type loadedFile struct {
	sums string
	lic  string
}

// filesOf collects the files of a document of any version, by name. A file
// that is listed twice with different content is listed under both.
func filesOf(doc any) (map[string]loadedFile, []string) {
	m := map[string]loadedFile{}
	var dup []string
	add := func(fs reflect.Value) {
		for i := 0; fs.IsValid() && i < fs.Len(); i++ {
			f := fs.Index(i)
			if f.Kind() == reflect.Pointer && f.IsNil() {
				continue
			}
			f = reflect.Indirect(f)
			sums := fld(f, "Checksums")
			var s []string
			for k := 0; k < sums.Len(); k++ {
				s = append(s, fmt.Sprint(fld(sums.Index(k), "Algorithm"), "=", fld(sums.Index(k), "Value")))
			}
			sort.Strings(s)
			n := fmt.Sprint(fld(f, "FileName"))
			x := loadedFile{strings.Join(s, " "), fmt.Sprint(fld(f, "LicenseConcluded"), fld(f, "LicenseInfoInFiles"))}
			if _, ok := m[n]; ok {
				dup = append(dup, n)
			}
			m[n] = x
		}
	}
	v := reflect.ValueOf(doc)
	add(fld(v, "Files"))
	ps := fld(v, "Packages")
	for i := 0; i < ps.Len(); i++ {
		add(fld(ps.Index(i), "Files"))
	}
	return m, dup
}

func filesDiff(want, got map[string]loadedFile) string {
	for _, n := range sortedKeys(want) {
		if g, ok := got[n]; !ok {
			return fmt.Sprintf("file %q is missing (%d built, %d loaded)", n, len(want), len(got))
		} else if g != want[n] {
			return fmt.Sprintf("file %q was built as %v and loaded as %v", n, want[n], g)
		}
	}
	for _, n := range sortedKeys(got) {
		if _, ok := want[n]; !ok {
			return fmt.Sprintf("file %q was not built", n)
		}
	}
	return ""
}

// excl are names to leave out of a verification code: some that are there, and
// some that are only like those.
func excl(fs []*spdx.File) []string {
	r := []string{"./no such file"}
	for i, f := range fs {
		n := f.FileName
		k := strings.LastIndex(n, "/")
		if i >= 2 || k < 0 || k == len(n)-1 {
			continue
		}
		r = append(r, n, n[k+1:], n[k:], n[:k+1]+"x"+n[k+1:], n+"x", n[:len(n)-1])
	}
	return r
}

func sha1Of(f *spdx.File) string {
	for _, c := range f.Checksums {
		if c.Algorithm == common.SHA1 {
			return c.Value
		}
	}
	return ""
}

func runC21(c *Ctx) {
	t := c.Tape("input")
	fixClock()
	io := c.Tape("io")
	q := c.newNuisance(io)
	c.newFS(q.plan)
	type job struct {
		tr     *Tree
		what   string
		ver    string
		w, f   int
		built  *spdx.Document
		got    any
		stage  string
		err    error
		first  []byte
		again  []byte
		code   string
		codeOK bool
		excl   string
		failed int
	}
	n := 1 + t.N(2)
	jobs := make([]*job, n)
	var tasks []*Task
	for i := range jobs {
		j := &job{}
		jobs[i] = j
		look := t.N(3) == 0
		var content func() []byte
		if look {
			content = func() []byte { return source(t) }
		}
		j.tr = newTreeOf(t, fmt.Sprintf("t%d", i), 3+t.N(14), content, true)
		pats := j.tr.patterns(t, 1)
		root := dirRootOf(t, j.tr)
		j.ver = []string{"v2_3", "v2_3", "v2_2", "v2_1"}[t.N(4)]
		k := t.N(5)
		j.w = []int{wJSON, wTV, wJSONIndent, wYAML, wJSONNoEsc}[k]
		j.f = []int{fJSON, fTV, fJSON, fYAML, fJSON}[k]
		sinkFault, loadFault := t.N(3) == 0, t.N(3) == 0
		latest := t.N(2) == 0
		j.what = fmt.Sprintf("%s of a tree of %s ignoring %q, saved as %s %s", map[bool]string{false: "build", true: "search"}[look], j.tr, pats, j.ver, writerName[j.w])
		tasks = append(tasks, c.Go("pipeline", func(t *Task) {
			if look {
				j.built, j.err = searchAt(root, pats, nil)
			} else {
				j.built, j.err = buildTree(j.tr, root, pats)
			}
			if j.stage = "build"; j.err != nil {
				return
			}
			j.stage = "convert"
			doc := newDoc(j.ver)
			if j.err = convert.Document(j.built, doc); j.err != nil {
				return
			}
			j.stage = "save"
			save := func(d any) ([]byte, error) {
				s := newSink(t)
				err := write(j.w, d, s, false)
				return s.got, err
			}
			if sinkFault {
				s := newSink(t)
				s.setFault(t.N(3000), t.N(len(writeErrors)), t.N(2) == 1, false)
				write(j.w, doc, s, false)
				j.failed += s.failed
			}
			if j.first, j.err = save(doc); j.err != nil {
				return
			}
			j.stage = "load"
			into := newDoc(j.ver)
			if latest {
				into = newDoc("v2_3")
			}
			if loadFault {
				s := newStream(t, j.first)
				s.setFault(t.N(len(j.first)+1), t.N(len(readErrors)), t.N(2) == 1, true)
				readInto(j.f, s, into)
				j.failed += s.failed
			}
			if j.err = readInto(j.f, newStream(t, j.first), into); j.err != nil {
				return
			}
			j.got = into
			j.stage = "check"
			var l spdx.Document
			if j.err = convert.Document(into, &l); j.err != nil {
				return
			}
			all := append([]*spdx.File(nil), l.Files...)
			for _, p := range l.Packages {
				all = append(all, p.Files...)
			}
			code, err := utils.GetVerificationCode(all, "")
			if j.err = err; err != nil {
				return
			}
			j.code = code.Value
			for _, ex := range excl(all) {
				code, err := utils.GetVerificationCode(all, ex)
				if j.err = err; err != nil {
					return
				}
				var shas []string
				for _, f := range all {
					if f.FileName != ex {
						shas = append(shas, sha1Of(f))
					}
				}
				if want := verificationCode(shas); code.Value != want || len(code.ExcludedFiles) != 1 || code.ExcludedFiles[0] != ex {
					j.excl = fmt.Sprintf("without %q the verification code is %v, want %s", ex, code, want)
				}
			}
			j.codeOK = len(l.Packages) == 1 && l.Packages[0].PackageVerificationCode != nil && l.Packages[0].PackageVerificationCode.Value == code.Value
			if !latest || j.ver == "v2_3" {
				j.stage = "save again"
				j.again, j.err = save(into)
			}
		}))
	}
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		c.Log("%s: stage %s, err=%v; %s", j.what, j.stage, j.err, j.tr.list())
		c.Note("format:" + writerName[j.w] + " " + j.ver)
		c.sample = j.what
		if c.panicked(tasks[i], j.what+": "+j.stage) {
			return
		}
		if j.err != nil {
			c.Log("%s", clip(string(j.first), 2000))
			c.Fail("failed:"+j.stage+":"+fmtName[j.f], "%s: %s failed: %s", j.what, j.stage, strings.ReplaceAll(j.err.Error(), scratch, ""))
			return
		}
		want, _ := filesOf(j.built)
		got, dup := filesOf(j.got)
		if len(want) > 0 {
			c.trivial = false
		}
		c.FP(vsimrt.Hash64(string(j.first)))
		if len(dup) > 0 {
			c.Fail("twice:"+fmtName[j.f], "%s: the loaded document lists %q twice", j.what, dup)
			return
		}
		if d := filesDiff(want, got); d != "" {
			c.Log("%s", clip(string(j.first), 2000))
			c.Fail("files:"+fmtName[j.f], "%s: %s", j.what, d)
			return
		}
		if len(j.built.Packages) == 1 && j.built.Packages[0].PackageVerificationCode != nil && j.code != j.built.Packages[0].PackageVerificationCode.Value {
			c.Fail("code:"+fmtName[j.f], "%s: the verification code of the loaded files is %s, that of the built package %s", j.what, j.code, j.built.Packages[0].PackageVerificationCode.Value)
			return
		}
		if j.excl != "" {
			c.Fail("exclude", "%s: %s", j.what, j.excl)
			return
		}
		if !j.codeOK {
			c.Fail("recheck:"+fmtName[j.f], "%s: the loaded package's verification code is not the one of its files (%s)", j.what, j.code)
			return
		}
		if j.again != nil && !bytes.Equal(j.first, j.again) {
			k := 0
			for k < len(j.first) && k < len(j.again) && j.first[k] == j.again[k] {
				k++
			}
			c.Fail("again:"+fmtName[j.f], "%s: saving the loaded document gives other bytes: at byte %d %q, first %q", j.what, k, clip(string(j.again[k:]), 60), clip(string(j.first[k:]), 60))
			return
		}
	}
}
