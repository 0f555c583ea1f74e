package main

import (
	"fmt"
	"sort"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

func init() {
	register(&Scenario{ID: "C20", Title: "RDF content", Quick: 24000, Thorough: 360000,
		Rule: "a valid RDF/XML document is written from a drawn statement (nested or flat elements, properties in any order, repeated mentions, entities, character references and CDATA) and read, by a drawn delivery and schedule, by Read or by ReadInto into a drawn version; the document read is compared with the statement; non-trivial when the document has a package or a file",
		Real: readReal, Stub: readStub,
		Assume: []string{"the vocabulary the readers implement", "the order of elements is compared where the document gives one; elements written at the top level only are compared as bags", "NOASSERTION as a related element may be given as special or as element identifier"},
		Run:    runC20})
}

// the fields version 2.3 has and 2.2 has not
var only23 = map[string]bool{".PrimaryPackagePurpose": true, ".ReleaseDate": true, ".BuiltDate": true, ".ValidUntilDate": true}

func rdfDump(doc any, target string, loose bool) string {
	o := dumpOpt{bags: loose, skip: map[string]bool{".SPDXVersion": true}}
	if target == "v2_2" {
		for k := range only23 {
			o.skip[k] = true
		}
	}
	special := func(d *common.DocElementID) {
		if d.ElementRefID == "NOASSERTION" || d.ElementRefID == "NONE" {
			*d = common.DocElementID{SpecialID: string(d.ElementRefID)}
		}
	}
	switch d := doc.(type) {
	case *v2_3.Document:
		for _, p := range d.Packages {
			if p.PackageVerificationCode == nil {
				p.PackageVerificationCode = &common.PackageVerificationCode{}
			}
		}
		for _, r := range d.Relationships {
			special(&r.RefB)
		}
		sort.SliceStable(d.Files, func(i, j int) bool { return d.Files[i].FileSPDXIdentifier < d.Files[j].FileSPDXIdentifier })
	case *v2_2.Document:
		for _, r := range d.Relationships {
			special(&r.RefB)
		}
		sort.SliceStable(d.Files, func(i, j int) bool { return d.Files[i].FileSPDXIdentifier < d.Files[j].FileSPDXIdentifier })
	}
	return Dump(doc, o)
}

func runC20(c *Ctx) {
	t := c.Tape("input")
	ver := []string{"v2_3", "v2_2"}[t.N(2)]
	data, g := rdfStated(t, ver)
	target := []string{"", "v2_3", "v2_2"}[t.N(3)]
	var doc any
	var err error
	how := ""
	r := c.Go("read", func(t *Task) {
		s := newStream(t, data)
		how = s.describe()
		doc, err = doRead(fRDF, s, target)
		t.Fault("delivery:" + styleName[s.style])
		t.Log("%s: err=%v", how, err)
	})
	c.Run()
	desc := fmt.Sprintf("RDF %s document (%d packages, %d files) read into %q, delivered as %s", ver, len(g.doc.Packages), len(g.files), target, how)
	if c.panicked(r, desc) {
		return
	}
	c.sample = desc
	if len(g.ids) == 0 {
		c.trivial = true
	}
	for k, on := range map[string]bool{"flat": g.flat, "mixed order": g.mix, "mentioned again": g.again, "entities": g.cdata, "loose": g.loose} {
		if on {
			c.Note("document: " + k)
		}
	}
	if err != nil {
		c.Log("document:\n%s", data)
		c.Fail("error", "%s: %v", desc, err)
		return
	}
	want, got := rdfDump(&g.doc, target, g.loose), rdfDump(doc, target, g.loose)
	if want != got {
		c.Log("document:\n%s", data)
		c.Fail("content", "%s: what the document states and what was read differ: %s", desc, firstDiff(want, got))
	}
}
