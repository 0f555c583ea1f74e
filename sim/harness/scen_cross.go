package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C30", Title: "change of format", Quick: 10000, Thorough: 240000, Race: 10,
		Rule: "1-2 concurrent chains: a document stated in JSON, YAML, tag-value or RDF is read by a drawn delivery and then 1-3 times written in a drawn format (sometimes after a failed attempt, by pointer or by value) and read back (sometimes after a failed attempt); its content is compared after each step with that after the first read; non-trivial when a document came back in another format",
		Real: append([]string{"rdf readers with gordf"}, writeReal...), Stub: append([]string{"the caller's io.Reader (simulated stream)"}, writeStub...),
		Assume: []string{"the content is what both formats can express (texts of the RDF documents that go through tag-value are single lines)", "deprecated fields that the library's model excludes from JSON and YAML (reviews, artifactOf, file dependencies of 2.1 and 2.2) and attribution texts of snippets are not compared after a step through these"},
		Run:    runC30})
}

// Content of a document, whatever way its format arranges it.
type content struct {
	main   string
	snips  map[string]string // "listed"/"in file" and identifier
	anns   []string          // about: what
	listed map[string]bool   // snippets listed by the document itself
	own    map[string]int    // annotations listed by the elements they are about
	about  map[string]string // annotations about what is not a package or file of the document, and the same without
}

var crossSkip = map[string]bool{"Package.IsFilesAnalyzedTagPresent": true, "Package.IsUnpackaged": true, "SnippetRangePointer.FileSPDXIdentifier": true, "Annotation.AnnotationSPDXIdentifier": true}

// contentOf takes a document apart. json: it went through JSON or YAML.
func contentOf(doc any, json bool) *content {
	skip := map[string]bool{}
	for k := range crossSkip {
		skip[k] = true
	}
	if json {
		for _, k := range []string{"Document.Reviews", "File.ArtifactOfProjects", "File.FileDependencies", "Snippet.SnippetAttributionTexts"} {
			skip[k] = true
		}
	}
	o := dumpOpt{skip: skip}
	c := &content{snips: map[string]string{}, listed: map[string]bool{}, own: map[string]int{}, about: map[string]string{}}
	d := tvCanon(doc)
	v := reflect.ValueOf(d)
	docID := fld(v, "SPDXIdentifier").String()
	snip := func(s reflect.Value, listed bool) {
		id := fld(s, "SnippetSPDXIdentifier").String()
		if c.snips[id] == "" {
			c.listed[id] = listed
		}
		c.snips[id] = Dump(s.Interface(), o)
	}
	ann := func(about string, a reflect.Value) string {
		return about + ":\n" + Dump(a.Interface(), o)
	}
	elems := map[common.DocElementID]bool{}
	elem := func(e reflect.Value, id string) {
		elems[common.DocElementID{ElementRefID: fld(e, id).Interface().(common.ElementID)}] = true
		as := fld(e, "Annotations")
		for i := 0; i < as.Len(); i++ {
			s := ann("SPDXRef-"+fld(e, id).String(), as.Index(i))
			c.anns = append(c.anns, s)
			c.own[s]++
		}
		as.Set(reflect.Zero(as.Type()))
	}
	files := func(fs reflect.Value) {
		for i := 0; i < fs.Len(); i++ {
			f := fs.Index(i)
			m := fld(f, "Snippets")
			for _, k := range m.MapKeys() {
				snip(m.MapIndex(k), false)
			}
			m.Set(reflect.Zero(m.Type()))
			elem(f, "FileSPDXIdentifier")
		}
	}
	ss := fld(v, "Snippets")
	for i := 0; i < ss.Len(); i++ {
		snip(ss.Index(i), true)
	}
	ss.Set(reflect.Zero(ss.Type()))
	files(fld(v, "Files"))
	ps := fld(v, "Packages")
	for i := 0; i < ps.Len(); i++ {
		p := ps.Index(i)
		elem(p, "PackageSPDXIdentifier")
		files(fld(p, "Files"))
		if !fld(p, "FilesAnalyzed").Bool() {
			// there is nothing such fields could be about
			for _, n := range []string{"PackageVerificationCode", "PackageLicenseInfoFromFiles"} {
				fld(p, n).Set(reflect.Zero(fld(p, n).Type()))
			}
		}
		if code := fld(p, "PackageVerificationCode"); code.Kind() == reflect.Pointer && !code.IsNil() && code.Elem().Field(0).Len() == 0 {
			code.Set(reflect.Zero(code.Type()))
		}
	}
	as := fld(v, "Annotations")
	for i := 0; i < as.Len(); i++ {
		a := as.Index(i)
		id := fld(a, "AnnotationSPDXIdentifier").Interface().(common.DocElementID)
		about := refText(id)
		if id == (common.DocElementID{}) || about == "SPDXRef-"+docID {
			about = "the document"
		}
		s := ann(about, a)
		if about != "the document" && !elems[id] {
			c.about[s] = ann("the document", a)
		}
		c.anns = append(c.anns, s)
	}
	as.Set(reflect.Zero(as.Type()))
	sort.Strings(c.anns)
	c.main = Dump(d, o)
	return c
}

func snipText(m map[string]string) string {
	var l []string
	for id, s := range m {
		l = append(l, "snippet "+id+":\n"+s)
	}
	sort.Strings(l)
	return strings.Join(l, "")
}

// spread arranges a document as JSON has it: snippets in a list of their own
// and annotations with what they are about - or leaves both out.
func spread(t *vsimrt.Tape, doc any) {
	d := reflect.ValueOf(doc)
	keepS, keepA := t.N(6) == 5, t.N(6) == 5
	list := fld(d, "Snippets")
	elems := map[common.ElementID]reflect.Value{}
	files := func(fs reflect.Value) {
		for i := 0; i < fs.Len(); i++ {
			f := fs.Index(i)
			elems[fld(f, "FileSPDXIdentifier").Interface().(common.ElementID)] = f
			m := fld(f, "Snippets")
			keys := m.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
			for _, k := range keys {
				if !keepS {
					continue
				}
				s := reflect.Indirect(m.MapIndex(k))
				rs := fld(s, "Ranges")
				for i := 0; i < rs.Len(); i++ {
					for _, p := range []string{"StartPointer", "EndPointer"} {
						set(rs.Index(i).FieldByName(p), "FileSPDXIdentifier", fld(s, "SnippetFromFileSPDXIdentifier").Interface())
					}
				}
				list.Set(reflect.Append(list, s))
			}
			m.Set(reflect.Zero(m.Type()))
		}
	}
	files(fld(d, "Files"))
	ps := fld(d, "Packages")
	for i := 0; i < ps.Len(); i++ {
		elems[fld(ps.Index(i), "PackageSPDXIdentifier").Interface().(common.ElementID)] = ps.Index(i)
		files(fld(ps.Index(i), "Files"))
	}
	as := fld(d, "Annotations")
	left := reflect.Zero(as.Type())
	for i := 0; i < as.Len(); i++ {
		a := as.Index(i)
		id := fld(a, "AnnotationSPDXIdentifier").Interface().(common.DocElementID)
		e, ok := elems[id.ElementRefID]
		switch {
		case !ok || id.DocumentRefID != "":
			left = reflect.Append(left, a)
		case keepA:
			own := fld(e, "Annotations")
			own.Set(reflect.Append(own, reflect.Indirect(a)))
		}
	}
	as.Set(left)
}

func runC30(c *Ctx) {
	t := c.Tape("input")
	n := 1 + t.N(2)
	type step struct {
		w, f       int
		out        []byte
		werr, rerr error
		got        any
		before     *content
	}
	type job struct {
		in     *Input
		ver    string
		rerr   error
		read   any
		steps  []*step
		failed int
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{}
		jobs[i] = j
		g := c.Tape(fmt.Sprintf("doc%d", i))
		ver := versions[g.N(3)]
		for k := 1 + t.N(3); k > 0; k-- {
			w := t.N(5)
			j.steps = append(j.steps, &step{w: w, f: []int{fJSON, fJSON, fJSON, fYAML, fTV}[w]})
		}
		tv := false
		for _, s := range j.steps {
			tv = tv || s.f == fTV
		}
		in := &Input{ver: ver, valid: true, f: []int{fRDF, fTV, fJSON, fYAML}[g.N(4)]}
		if in.f == fRDF && ver == "v2_1" {
			in.ver = "v2_2"
		}
		switch in.f {
		case fRDF:
			in.data = crossRDF(g, in.ver, tv)
		case fTV:
			gen := newGen(g, profTV)
			gen.nel = false
			doc := gen.Doc(ver)
			if g.N(4) > 0 {
				spread(g, doc) // without those that JSON loses
				drop(doc)
			}
			in.data, _ = tvStatedOf(g, doc, ver)
		default:
			gen := newGen(g, profJSON)
			if tv {
				gen = newGen(g, profTV)
			}
			gen.nel = false
			doc := gen.Doc(ver)
			if tv {
				spread(g, doc)
			}
			root, jg := jsonNodesOf(g, doc, ver, in.f == fYAML)
			in.data = jg.render(root)
		}
		j.in = in
		j.ver = in.ver
		if g.N(3) == 0 {
			j.ver = "v2_3"
		}
		c.Log("chain %d: %s", i, in)
		c.Go("chain", func(t *Task) {
			j.read = newDoc(j.ver)
			if j.rerr = readInto(in.f, newStream(t, in.data), j.read); j.rerr != nil {
				return
			}
			doc := j.read
			json := in.f == fJSON || in.f == fYAML
			for _, s := range j.steps {
				json = json || s.f != fTV
				s.before = contentOf(doc, json)
				byValue := t.N(2) == 0
				if t.N(4) == 0 {
					sink := newSink(t)
					sink.setFault(t.N(3000), t.N(len(writeErrors)), t.N(2) == 1, t.N(2) == 1)
					write(s.w, doc, sink, byValue)
					j.failed += sink.failed
				}
				sink := newSink(t)
				s.werr = write(s.w, doc, sink, byValue)
				s.out = sink.got
				if s.werr != nil {
					return
				}
				into := newDoc(j.ver)
				if t.N(4) == 0 {
					st := newStream(t, s.out)
					st.setFault(t.N(len(s.out)+1), t.N(len(readErrors)), t.N(2) == 1, true)
					readInto(s.f, st, into)
					j.failed += st.failed
				}
				if s.rerr = readInto(s.f, newStream(t, s.out), into); s.rerr != nil {
					return
				}
				s.got, doc = into, into
			}
		})
	}
	tasks := c.tasks
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		if c.panicked(tasks[i], "change of format of "+j.in.String()) {
			continue
		}
		if j.rerr != nil {
			c.Fail("unreadable:"+fmtName[j.in.f], "%s: a valid document was refused: %v", j.in, j.rerr)
			continue
		}
		from := fmtName[j.in.f]
		json := j.in.f == fJSON || j.in.f == fYAML
		for k, s := range j.steps {
			to := fmtName[s.f]
			json = json || s.f != fTV
			how := fmt.Sprintf("%s, step %d: %s to %s (%s)", j.in, k+1, from, writerName[s.w], j.ver)
			c.Log("%s: %d bytes, write err=%v, read err=%v", how, len(s.out), s.werr, s.rerr)
			if s.werr != nil && s.f == fYAML && strings.Contains(s.werr.Error(), "control characters") {
				c.Note("control characters refused by YAML")
				break
			}
			if s.werr != nil {
				c.Fail("unwritable:"+from+"-"+to, "%s: cannot be written: %v", how, s.werr)
				break
			}
			if s.rerr != nil {
				c.Log("written: %s", clip(string(s.out), 3000))
				c.Fail("lost:"+from+"-"+to, "%s: cannot be read back: %v", how, s.rerr)
				break
			}
			c.Note(from + " to " + to + " " + j.ver)
			if from != to {
				c.trivial = false
			}
			if !sameContent(c, s.before, contentOf(s.got, json), from, to, how) {
				c.Log("written: %s", clip(string(s.out), 3000))
				break
			}
			from = to
		}
		c.sample = fmt.Sprintf("%s, %d steps", j.in, len(j.steps))
	}
}

// sameContent compares what was written with what came back.
func sameContent(c *Ctx, want, got *content, from, to, how string) bool {
	if want.main != got.main {
		c.Fail("changed:"+to+":"+diffField(want.main, got.main), "%s: %s", how, firstDiff(want.main, got.main))
		return false
	}
	tv := to == "tagvalue"
	if a, b := snipText(want.snips), snipText(got.snips); a != b {
		kept := map[string]string{}
		for id, s := range want.snips {
			if !want.listed[id] {
				kept[id] = s
			}
		}
		if !tv || b != snipText(kept) {
			c.Fail("changed:"+to+":snippets", "%s: %s", how, firstDiff(a, b))
			return false
		}
		c.Fail("tv-leaves-out-listed-snippets", "%s: the %d snippets the document lists are not written", how, len(want.snips)-len(kept))
	}
	anns := append([]string(nil), want.anns...)
	if !tv {
		// JSON and YAML have no place for annotations about anything else
		for i, s := range anns {
			if x := want.about[s]; x != "" {
				anns[i] = x
			}
		}
		sort.Strings(anns)
	}
	a, b := strings.Join(anns, ""), strings.Join(got.anns, "")
	if a == b {
		return true
	}
	var kept []string
	for _, s := range anns {
		if want.own[s] > 0 {
			want.own[s]--
			continue
		}
		kept = append(kept, s)
	}
	if !tv || strings.Join(kept, "") != b {
		c.Fail("changed:"+to+":annotations", "%s: %s", how, firstDiff(a, b))
		return false
	}
	c.Fail("tv-leaves-out-annotations-of-elements", "%s: annotations of packages and files are not written", how)
	return true
}

// drop removes the snippets and the annotations of elements.
func drop(doc any) {
	d := reflect.ValueOf(doc)
	zero := func(e reflect.Value, n string) { fld(e, n).Set(reflect.Zero(fld(e, n).Type())) }
	zero(d, "Snippets")
	as := fld(d, "Annotations")
	for i := 0; i < as.Len(); i++ {
		set(as.Index(i), "AnnotationSPDXIdentifier", common.DocElementID{ElementRefID: fld(d, "SPDXIdentifier").Interface().(common.ElementID)})
	}
	files := func(fs reflect.Value) {
		for i := 0; i < fs.Len(); i++ {
			zero(fs.Index(i), "Annotations")
		}
	}
	files(fld(d, "Files"))
	ps := fld(d, "Packages")
	for i := 0; i < ps.Len(); i++ {
		zero(ps.Index(i), "Annotations")
		files(fld(ps.Index(i), "Files"))
	}
}

func crossRDF(t *vsimrt.Tape, ver string, tv bool) []byte {
	for {
		b, g := rdfStated(t, ver)
		if g.tame || !tv {
			return b
		}
	}
}
