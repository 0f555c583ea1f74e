package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C27", Title: "analyses", Quick: 60000, Thorough: 900000, Race: 20,
		Rule: "2-6 concurrent tasks each ask questions about one or two shared documents - described packages, validity, filtered relationships, licence differences, licence report (to a sink that may fail), verification code - while others write them, under drawn schedules and map orders; every answer is compared with a model of the document; non-trivial when an answer about a package was compared",
		Real: []string{"licensediff, reporter, spdxlib, utils.GetVerificationCode, writers (instrumented copies)", "Go runtime scheduler under simulator control"}, Stub: []string{"the caller's io.Writer (simulated)"},
		Assume: []string{"file names are unique in a package; files that are compared have a concluded licence; the document's identifier is SPDXRef-DOCUMENT"},
		Run:    runC27})
}

var askLics = []string{"MIT", "Apache-2.0", "NOASSERTION", "NONE", "MIT OR Apache-2.0", "LicenseRef-1", "GPL-2.0-only WITH x", "mit", "NOASSERTION AND MIT", "Zlib", "(MIT)", "(MIT OR Apache-2.0)", "Apache-2.0 OR MIT", "MIT ", "Apache-2.0+", "Apache-2", "MIT AND MIT", "GPL-2.0", "DocumentRef-x:LicenseRef-1"}

// askDoc is a document whose parts are related, and related wrongly.
func askDoc(t *vsimrt.Tape, names []string) *spdx.Document {
	g := newGen(t, profJSON)
	g.tame = true
	doc := g.Doc("v2_3").(*spdx.Document)
	doc.SPDXIdentifier = "DOCUMENT"
	for len(doc.Packages) < 4 && t.N(2) == 0 {
		p := &spdx.Package{PackageName: "p", PackageSPDXIdentifier: common.ElementID(fmt.Sprintf("extra%d", len(doc.Packages))), FilesAnalyzed: t.N(4) > 0}
		doc.Packages = append(doc.Packages, p)
	}
	files := func(old []*spdx.File) []*spdx.File {
		fs := old
		for n := t.N(6); n > 0; n-- {
			f := &spdx.File{FileSPDXIdentifier: common.ElementID(fmt.Sprintf("af%d-%d", t.N(1000), n))}
			for _, a := range []common.ChecksumAlgorithm{common.SHA256, common.SHA1, common.MD5} {
				if t.N(4) > 0 {
					f.Checksums = append(f.Checksums, common.Checksum{Algorithm: a, Value: fmt.Sprintf("%x", t.U32()%4096)})
				}
			}
			if t.N(6) == 0 {
				f.Snippets = map[common.ElementID]*spdx.Snippet{common.ElementID(fmt.Sprintf("as%d", n)): {SnippetSPDXIdentifier: common.ElementID(fmt.Sprintf("as%d", n))}}
			}
			fs = append(fs, f)
		}
		for _, f := range old {
			f.Snippets = nil
		}
		used := map[string]bool{}
		keep := fs[:0:0]
		for _, f := range fs {
			f.FileName = names[t.N(len(names))]
			f.LicenseConcluded = askLics[t.N(len(askLics))]
			if t.N(8) == 0 {
				f.LicenseConcluded = ""
			}
			if !used[f.FileName] {
				used[f.FileName] = true
				keep = append(keep, f)
			}
		}
		return keep
	}
	for _, p := range doc.Packages {
		p.Files = files(p.Files)
	}
	doc.Files = files(doc.Files)
	var ids []common.ElementID
	for _, p := range doc.Packages {
		ids = append(ids, p.PackageSPDXIdentifier, p.PackageSPDXIdentifier)
		for _, f := range p.Files {
			ids = append(ids, f.FileSPDXIdentifier)
			for k := range f.Snippets { // one at most
				ids = append(ids, k)
			}
		}
	}
	for _, f := range doc.Files {
		ids = append(ids, f.FileSPDXIdentifier)
	}
	for _, s := range doc.Snippets {
		ids = append(ids, s.SnippetSPDXIdentifier)
	}
	ref := func() common.DocElementID {
		switch k := t.N(16); {
		case k == 0 || len(ids) == 0:
			return common.DocElementID{ElementRefID: "DOCUMENT"}
		case k == 1 && t.N(4) == 0:
			// almost one of them
			id := string(append(ids, "DOCUMENT")[t.N(len(ids)+1)])
			id = []string{"nowhere", "NONE", "NOASSERTION", "", id + "x", "SPDXRef-" + id, strings.ToLower(id), strings.ToUpper(id), " " + id, id[1:], id + id, "other:" + id}[t.N(12)]
			return common.DocElementID{ElementRefID: common.ElementID(id)}
		case k == 2:
			return common.DocElementID{DocumentRefID: "other", ElementRefID: append(ids, "DOCUMENT", "nowhere")[t.N(len(ids)+2)]}
		}
		return common.DocElementID{ElementRefID: ids[t.N(len(ids))]}
	}
	doc.Relationships = nil
	for n := t.N(8); n > 0; n-- {
		r := &spdx.Relationship{RefA: ref(), RefB: ref(), Relationship: []string{"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "describes"}[t.N(4)]}
		switch k := t.N(8); {
		case k < 2 && r.Relationship == "DESCRIBES":
			r.RefA = common.DocElementID{ElementRefID: "DOCUMENT"}
		case k < 2 && r.Relationship == "DESCRIBED_BY":
			r.RefB = common.DocElementID{ElementRefID: "DOCUMENT"}
		case k == 7:
			r.RefB = common.DocElementID{SpecialID: []string{"NONE", "NOASSERTION"}[t.N(2)]}
		}
		doc.Relationships = append(doc.Relationships, r)
		if t.N(5) == 0 {
			x := *r
			doc.Relationships = append(doc.Relationships, &x)
		}
	}
	return doc
}

// modelDescribed: nil means an error.
func modelDescribed(doc *spdx.Document) []common.ElementID {
	if len(doc.Packages) == 1 {
		return []common.ElementID{doc.Packages[0].PackageSPDXIdentifier}
	}
	me := common.DocElementID{ElementRefID: "DOCUMENT"}
	var ids []common.ElementID
	for _, p := range doc.Packages {
		x := common.DocElementID{ElementRefID: p.PackageSPDXIdentifier}
		for _, r := range doc.Relationships {
			if r.Relationship == "DESCRIBES" && r.RefA == me && r.RefB == x || r.Relationship == "DESCRIBED_BY" && r.RefB == me && r.RefA == x {
				ids = append(ids, x.ElementRefID)
				break
			}
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func modelValid(doc *spdx.Document) bool {
	has := map[common.ElementID]bool{"DOCUMENT": true}
	fs := append([]*spdx.File(nil), doc.Files...)
	for _, p := range doc.Packages {
		has[p.PackageSPDXIdentifier] = true
		fs = append(fs, p.Files...)
	}
	for _, f := range fs {
		has[f.FileSPDXIdentifier] = true
		for k := range f.Snippets {
			has[k] = true
		}
	}
	for _, s := range doc.Snippets {
		has[s.SnippetSPDXIdentifier] = true
	}
	for _, r := range doc.Relationships {
		for _, x := range []common.DocElementID{r.RefA, r.RefB} {
			if x.DocumentRefID == "" && x.SpecialID == "" && !has[x.ElementRefID] {
				return false
			}
		}
	}
	return true
}

func concludedOf(p *spdx.Package) map[string]string {
	m := map[string]string{}
	for _, f := range p.Files {
		m[f.FileName] = f.LicenseConcluded
	}
	return m
}

func runC27(c *Ctx) {
	t := c.Tape("input")
	names := []string{"./a", "./b", "./c.go", "./d/a", "./d/b", "a", "./é", "./x y", "./A", "./d/c.go", "./e", "./f"}[:4+t.N(9)]
	docs := make([]*spdx.Document, 1+t.N(2))
	before := make([]string, len(docs))
	for i := range docs {
		docs[i] = askDoc(c.Tape(fmt.Sprintf("doc%d", i)), names)
		before[i] = Dump(docs[i], dumpOpt{strict: true})
	}
	type job struct {
		what, want, got string
		about           bool // an answer about a package
	}
	var jobs []*job
	aDoc := func() *spdx.Document { return docs[t.N(len(docs))] }
	aPkg := func() *spdx.Package {
		d := aDoc()
		if len(d.Packages) == 0 {
			return &spdx.Package{}
		}
		return d.Packages[t.N(len(d.Packages))]
	}
	n := 2 + t.N(5)
	for i := 0; i < n; i++ {
		j := &job{}
		jobs = append(jobs, j)
		var ask func(t *Task) string
		switch k := t.N(8); k {
		case 0:
			d := aDoc()
			j.what = fmt.Sprintf("described packages of a document of %d packages and %d relationships", len(d.Packages), len(d.Relationships))
			j.want = "error"
			if ids := modelDescribed(d); len(ids) > 0 {
				j.want, j.about = fmt.Sprintf("%q", ids), true
			}
			ask = func(t *Task) string {
				ids, err := spdxlib.GetDescribedPackageIDs(d)
				if err != nil {
					return "error"
				}
				return fmt.Sprintf("%q", ids)
			}
		case 1:
			d := aDoc()
			j.what = fmt.Sprintf("validity of a document with %d relationships", len(d.Relationships))
			j.want, j.about = fmt.Sprint(modelValid(d)), true
			ask = func(t *Task) string { return fmt.Sprint(spdxlib.ValidateDocument(d) == nil) }
		case 2:
			d, typ := aDoc(), []string{"DESCRIBES", "CONTAINS"}[t.N(2)]
			j.what = "relationships of type " + typ
			var ids []common.ElementID
			for _, r := range d.Relationships {
				if r.Relationship == typ {
					ids = append(ids, r.RefA.ElementRefID)
				}
			}
			j.want = fmt.Sprintf("%q", ids)
			ask = func(t *Task) string {
				ids, err := spdxlib.FilterRelationships(d, func(r *spdx.Relationship) *common.ElementID {
					vsimrt.Seam()
					if r.Relationship == typ {
						return &r.RefA.ElementRefID
					}
					return nil
				})
				if err != nil {
					return err.Error()
				}
				return fmt.Sprintf("%q", ids)
			}
		case 3, 4:
			p, q := deepCopy(aPkg()).(*spdx.Package), deepCopy(aPkg()).(*spdx.Package)
			if t.N(2) == 0 {
				p, q = aPkg(), aPkg()
			}
			for _, x := range []*spdx.Package{p, q} {
				for _, f := range x.Files {
					if f.LicenseConcluded == "" {
						p, q = &spdx.Package{}, &spdx.Package{}
					}
				}
			}
			a, b := concludedOf(p), concludedOf(q)
			j.what = fmt.Sprintf("licence differences of packages of %d and %d files", len(a), len(b))
			j.want, j.about = Dump(modelDiff(a, b), dumpOpt{}), len(a)+len(b) > 0
			ask = func(t *Task) string {
				pairs, err := licensediff.MakePairs(p, q)
				if err != nil {
					return err.Error()
				}
				for n := range a {
					if pairs[n] != (licensediff.LicensePair{First: a[n], Second: b[n]}) {
						return fmt.Sprintf("pair of %q is %v", n, pairs[n])
					}
				}
				d, err := licensediff.MakeResults(pairs)
				if err != nil {
					return err.Error()
				}
				return Dump(d, dumpOpt{})
			}
		case 5:
			p := aPkg()
			j.what = fmt.Sprintf("licence report on a package of %d files", len(p.Files))
			j.want = "error"
			m := concludedOf(p)
			if p.FilesAnalyzed {
				j.want, j.about = fmt.Sprintf("%q", modelReport(m)), len(m) > 0
			}
			fault := t.N(3) == 0
			ask = func(t *Task) string {
				s := newSink(t)
				if fault {
					s.setFault(t.N(400), t.N(len(writeErrors)), t.N(2) == 1, t.N(2) == 1)
				}
				err := reporter.Generate(p, s)
				if s.failed > 0 {
					// C04's subject; asked again
					t.Fault("sink error")
					s = newSink(t)
					err = reporter.Generate(p, s)
				}
				if err != nil {
					return "error"
				}
				var got []string
				for _, l := range bytes.Split(s.got, []byte("\n")) {
					if x := squeeze(string(l)); x != "" {
						got = append(got, x)
					}
				}
				return fmt.Sprintf("%q", got)
			}
		case 6:
			p := aPkg()
			ex := append(names, "", "./nowhere", "b")[t.N(len(names)+3)]
			j.what = fmt.Sprintf("verification code of %d files without %q", len(p.Files), ex)
			var shas []string
			for _, f := range p.Files {
				if f.FileName == ex && ex != "" {
					continue
				}
				for _, s := range f.Checksums {
					if s.Algorithm == common.SHA1 {
						shas = append(shas, s.Value)
					}
				}
			}
			list := []string{ex}
			if ex == "" {
				list = nil
			}
			j.want, j.about = fmt.Sprintf("%s %q", verificationCode(shas), list), len(shas) > 0
			ask = func(t *Task) string {
				code, err := utils.GetVerificationCode(p.Files, ex)
				if err != nil {
					return err.Error()
				}
				return fmt.Sprintf("%s %q", code.Value, code.ExcludedFiles)
			}
		default:
			d, w := aDoc(), t.N(4)
			j.what = "writing as " + writerName[w]
			ask = func(t *Task) string { write(w, d, newSink(t), false); return "" }
			if w == wTV {
				// the tag-value writer sorts in place: known finding of C08
				ask = func(t *Task) string { vsimrt.Seam(); return "" }
			}
		}
		c.Go("ask", func(t *Task) { vsimrt.Seam(); j.got = ask(t) })
	}
	tasks := c.tasks
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		c.sample = j.what
		if c.panicked(tasks[i], j.what) {
			continue
		}
		c.Log("task %d: %s: %s", i, j.what, clip(j.got, 300))
		if j.about {
			c.trivial = false
			c.Note(strings.Join(strings.Fields(j.what)[:2], " "))
		}
		if j.got != j.want {
			c.Fail("wrong:"+strings.Fields(j.what)[0], "%s: %s", j.what, clip(firstDiff(j.want, j.got), 500))
		}
	}
	for i, d := range docs {
		if now := Dump(d, dumpOpt{strict: true}); now != before[i] {
			c.Fail("changed", "a document that was only asked about changed: %s", firstDiff(before[i], now))
		}
	}
}
