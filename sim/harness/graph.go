package main

import (
	"bytes"
	"fmt"
	"strings"

	"vsimrt"
)

// rdfGraph makes an RDF document whose elements refer to each other freely:
// sets of licences, packages, files and relationships that contain each other,
// themselves or one element many times, under names of every shape. Few of
// these documents make sense; all of them are well-formed.
func rdfGraph(t *vsimrt.Tape, ver string) []byte {
	g := &rdfGen{t: t, ver: ver, nl: "\n", tame: true}
	names := make([]string, 2+t.N(5))
	for i := range names {
		names[i] = []string{docNS + "#SPDXRef-%d", docNS + "#LicenseRef-%d", "http://example.com/e%d", "#n%d", "https://example.com/x#y/e%d", docNS + "#SPDXRef-DOCUMENT-%d", spdxNS + "e%d"}[t.N(7)]
		if names[i][0] == '#' && t.N(4) > 0 {
			names[i] = "http://example.com/d/e/f%d"
		}
		names[i] = fmt.Sprintf(names[i], i)
	}
	left := 10 + t.N(25)
	// mostly, every name belongs to elements of one kind
	mixed := t.N(6) == 0
	ofKind := map[string][]string{}
	open := func(kind string) string {
		elem := kind == "spdx:Package" || kind == "spdx:File" || kind == "spdx:Snippet" || kind == "spdx:SpdxElement" || kind == "spdx:SpdxDocument"
		k := t.N(6)
		if elem && !mixed && t.N(60) > 0 {
			k = 5
		}
		switch k {
		case 0:
			return kind // a blank node
		case 1:
			if mixed {
				return fmt.Sprintf(`%s rdf:nodeID="b%d"`, kind, t.N(4))
			}
			return fmt.Sprintf(`%s rdf:nodeID="%s%d"`, kind, strings.ReplaceAll(kind, ":", ""), t.N(3))
		}
		if mixed {
			return fmt.Sprintf(`%s rdf:about="%s"`, kind, names[t.N(len(names))])
		}
		own := ofKind[kind]
		if len(own) == 0 || len(own) < 3 && t.N(2) == 0 {
			n := fmt.Sprintf("%s%s%d", names[t.N(len(names))], strings.Split(kind, ":")[1], len(own))
			if elem && t.N(60) > 0 {
				n = fmt.Sprintf("%s#SPDXRef-%s%d", docNS, strings.Split(kind, ":")[1], len(own))
			}
			ofKind[kind] = append(own, n)
			return fmt.Sprintf(`%s rdf:about="%s"`, kind, n)
		}
		return fmt.Sprintf(`%s rdf:about="%s"`, kind, own[t.N(len(own))])
	}
	var node func(kind string, depth int)
	sub := func(tag, kind string, depth int) {
		switch t.N(6) {
		case 0:
			if own := ofKind[kind]; len(own) > 0 && !mixed {
				g.res(tag, own[t.N(len(own))])
				return
			} else if mixed {
				g.res(tag, names[t.N(len(names))])
				return
			}
		case 1:
			if mixed {
				g.line(fmt.Sprintf(`<%s rdf:nodeID="b%d"/>`, tag, t.N(4)))
				return
			}
		}
		g.open(tag)
		node(kind, depth+1)
		g.close(tag)
	}
	element := func() string {
		return []string{"spdx:Package", "spdx:File", "spdx:Snippet", "spdx:SpdxElement", "spdx:SpdxDocument"}[[]int{0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3}[t.N(17)]]
	}
	licence := func() string {
		return []string{"spdx:ConjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet", "spdx:ExtractedLicensingInfo", "spdx:License", "spdx:WithExceptionOperator", "spdx:OrLaterOperator", "spdx:SimpleLicensingInfo", "spdx:ListedLicense"}[[]int{0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7}[t.N(11)]]
	}
	node = func(kind string, depth int) {
		left--
		tag := open(kind)
		if left <= 0 || depth > 12 || t.N(5) == 0 {
			g.line("<" + tag + "/>")
			return
		}
		g.open(tag)
		switch kind {
		case "spdx:ConjunctiveLicenseSet", "spdx:DisjunctiveLicenseSet":
			for i := t.N(3); i >= 0; i-- {
				if t.N(5) == 0 {
					g.res("spdx:member", "http://spdx.org/licenses/MIT")
				} else {
					sub("spdx:member", licence(), depth)
				}
			}
		case "spdx:WithExceptionOperator", "spdx:OrLaterOperator":
			sub("spdx:member", licence(), depth)
			if kind == "spdx:WithExceptionOperator" {
				sub("spdx:licenseException", "spdx:LicenseException", depth)
			}
		case "spdx:ExtractedLicensingInfo", "spdx:License", "spdx:ListedLicense", "spdx:SimpleLicensingInfo", "spdx:LicenseException":
			g.val("spdx:licenseId", "LicenseRef-1")
			if kind == "spdx:ExtractedLicensingInfo" {
				g.val("spdx:extractedText", "t")
			}
		case "spdx:Package":
			g.val("spdx:name", g.text())
			g.val("spdx:filesAnalyzed", "true")
			for i := t.N(4); i > 0; i-- {
				switch t.N(6) {
				case 0:
					sub("spdx:licenseConcluded", licence(), depth)
				case 1:
					sub("spdx:licenseDeclared", licence(), depth)
				case 2:
					sub("spdx:hasFile", "spdx:File", depth)
				case 3, 4:
					sub("spdx:relationship", "spdx:Relationship", depth)
				case 5:
					sub("spdx:annotation", "spdx:Annotation", depth)
				}
			}
		case "spdx:File":
			g.val("spdx:fileName", "./"+g.text())
			for i := t.N(4); i > 0; i-- {
				switch t.N(5) {
				case 0:
					sub("spdx:licenseConcluded", licence(), depth)
				case 1:
					sub("spdx:licenseInfoInFile", licence(), depth)
				case 2:
					sub("spdx:relationship", "spdx:Relationship", depth)
				case 3:
					sub("spdx:fileDependency", "spdx:File", depth)
				case 4:
					sub("spdx:annotation", "spdx:Annotation", depth)
				}
			}
		case "spdx:Relationship":
			g.res("spdx:relationshipType", spdxNS+"relationshipType_contains")
			for i := t.N(5) / 4; i >= 0; i-- {
				sub("spdx:relatedSpdxElement", element(), depth)
			}
		case "spdx:Annotation":
			g.annotationBody()
		case "spdx:Snippet":
			sub("spdx:snippetFromFile", "spdx:File", depth)
			if t.N(2) == 0 {
				sub("spdx:licenseConcluded", licence(), depth)
			}
			sub("spdx:range", "ptr:StartEndPointer", depth)
		case "ptr:StartEndPointer":
			for _, p := range []string{"ptr:startPointer", "ptr:endPointer"} {
				sub(p, []string{"ptr:ByteOffsetPointer", "ptr:LineCharPointer"}[t.N(2)], depth)
			}
		case "ptr:ByteOffsetPointer":
			g.val("ptr:offset", "3")
			sub("ptr:reference", "spdx:File", depth)
		case "ptr:LineCharPointer":
			g.val("ptr:lineNumber", "3")
			sub("ptr:reference", "spdx:File", depth)
		}
		g.close(strings.Split(tag, " ")[0])
	}
	g.rdfOpen()
	g.open(`spdx:SpdxDocument rdf:about="` + docNS + `#SPDXRef-DOCUMENT"`)
	g.val("spdx:specVersion", "SPDX-"+strings.ReplaceAll(ver[1:], "_", "."))
	for i := t.N(3); i > 0; i-- {
		g.n++
		sub("spdx:hasExtractedLicensingInfo", "spdx:ExtractedLicensingInfo", 0)
	}
	for i := t.N(3); i >= 0; i-- {
		sub("spdx:describesPackage", "spdx:Package", 0)
	}
	for i := t.N(3); i > 0; i-- {
		sub("spdx:relationship", "spdx:Relationship", 0)
	}
	g.close("spdx:SpdxDocument")
	for i := t.N(5); i > 0; i-- {
		k := element()
		if t.N(3) == 0 {
			k = licence()
		}
		node(k, 0)
	}
	g.close("rdf:RDF")
	return []byte(g.b.String())
}

// growth families: documents of size n that differ only in how often or how
// deep one construct occurs.
type growth struct {
	name string
	f    int
	n    int // smallest size
	make func(n int, ver string) []byte
}

func rdfBody(ver, in, after string) []byte {
	return []byte(`<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="` + spdxNS + `" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#" xmlns:ptr="http://www.w3.org/2009/pointers#">
<spdx:SpdxDocument rdf:about="` + docNS + `#SPDXRef-DOCUMENT"><spdx:specVersion>SPDX-` + strings.ReplaceAll(ver[1:], "_", ".") + `</spdx:specVersion>` + in + `</spdx:SpdxDocument>
` + after + `</rdf:RDF>`)
}

func about(kind, id, body string) string {
	return fmt.Sprintf(`<%s rdf:about="%s#%s">%s</%s>`, kind, docNS, id, body, kind)
}
func wrap(tag, body string) string { return "<" + tag + ">" + body + "</" + tag + ">\n" }

// layered makes n layers of two elements each, where both elements of a layer
// contain both of the next one.
func layered(n int, elem func(id string, kids []string) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		for _, x := range "ab" {
			var kids []string
			if i+1 < n {
				kids = []string{fmt.Sprintf("SPDXRef-a%d", i+1), fmt.Sprintf("SPDXRef-b%d", i+1)}
			}
			b.WriteString(elem(fmt.Sprintf("SPDXRef-%c%d", x, i), kids))
		}
	}
	return b.String()
}

var growths = []growth{
	{"rdf-licence-sets", fRDF, 6, func(n int, ver string) []byte {
		s := layered(n, func(id string, kids []string) string {
			body := `<spdx:member rdf:resource="http://spdx.org/licenses/MIT"/>`
			if kids != nil {
				body = wrap("spdx:member", about("spdx:ConjunctiveLicenseSet", kids[0], "")) + wrap("spdx:member", about("spdx:ConjunctiveLicenseSet", kids[1], ""))
			}
			return about("spdx:ConjunctiveLicenseSet", id, body)
		})
		return rdfBody(ver, wrap("spdx:describesPackage", about("spdx:Package", "SPDXRef-p", wrap("spdx:licenseConcluded", about("spdx:ConjunctiveLicenseSet", "SPDXRef-a0", "")))), s)
	}},
	{"rdf-related-elements", fRDF, 7, func(n int, ver string) []byte {
		s := layered(n, func(id string, kids []string) string {
			var body string
			for _, k := range kids {
				body += wrap("spdx:relationship", wrap("spdx:Relationship", `<spdx:relationshipType rdf:resource="`+spdxNS+`relationshipType_contains"/>`+wrap("spdx:relatedSpdxElement", about("spdx:Package", k, ""))))
			}
			return about("spdx:Package", id, body)
		})
		return rdfBody(ver, wrap("spdx:describesPackage", about("spdx:Package", "SPDXRef-a0", "")), s)
	}},
	{"rdf-related-files", fRDF, 7, func(n int, ver string) []byte {
		s := layered(n, func(id string, kids []string) string {
			body := wrap("spdx:fileName", "f")
			for _, k := range kids {
				body += wrap("spdx:relationship", wrap("spdx:Relationship", `<spdx:relationshipType rdf:resource="`+spdxNS+`relationshipType_contains"/>`+wrap("spdx:relatedSpdxElement", about("spdx:File", k, ""))))
			}
			return about("spdx:File", id, body)
		})
		return rdfBody(ver, wrap("spdx:describesPackage", about("spdx:Package", "SPDXRef-p", wrap("spdx:hasFile", about("spdx:File", "SPDXRef-a0", "")))), s)
	}},
	{"rdf-set-chain", fRDF, 7, func(n int, ver string) []byte {
		s, e := "", ""
		for i := 0; i < n; i++ {
			s += fmt.Sprintf(`<spdx:member><spdx:ConjunctiveLicenseSet rdf:about="%s#LicenseRef-%d">`, docNS, i)
			e = "</spdx:ConjunctiveLicenseSet></spdx:member>" + e
		}
		return rdfBody(ver, wrap("spdx:describesPackage", about("spdx:Package", "SPDXRef-p", wrap("spdx:licenseConcluded", wrap("spdx:DisjunctiveLicenseSet", s+`<spdx:member rdf:resource="http://spdx.org/licenses/MIT"/>`+e)))), "")
	}},
	{"rdf-files", fRDF, 7, func(n int, ver string) []byte {
		s := ""
		for i := 0; i < n; i++ {
			s += wrap("spdx:hasFile", about("spdx:File", fmt.Sprintf("SPDXRef-%d", i), wrap("spdx:fileName", "f")))
		}
		return rdfBody(ver, wrap("spdx:describesPackage", about("spdx:Package", "SPDXRef-p", s)), "")
	}},
	{"rdf-packages", fRDF, 7, func(n int, ver string) []byte {
		s := ""
		for i := 0; i < n; i++ {
			s += wrap("spdx:describesPackage", about("spdx:Package", fmt.Sprintf("SPDXRef-%d", i), wrap("spdx:name", "f")))
		}
		return rdfBody(ver, s, "")
	}},
	{"rdf-one-package-again", fRDF, 7, func(n int, ver string) []byte {
		s := ""
		for i := 0; i < n; i++ {
			s += wrap("spdx:relationship", wrap("spdx:Relationship", `<spdx:relationshipType rdf:resource="`+spdxNS+`relationshipType_contains"/>`+wrap("spdx:relatedSpdxElement", about("spdx:Package", "SPDXRef-p", wrap("spdx:hasFile", about("spdx:File", fmt.Sprintf("SPDXRef-%d", i), "")+"")))))
		}
		return rdfBody(ver, s, "")
	}},
	{"json-hasfiles", fJSON, 40, func(n int, ver string) []byte {
		var f, h []string
		for i := 0; i < n; i++ {
			f = append(f, fmt.Sprintf(`{"SPDXID":"SPDXRef-f%d","fileName":"f"}`, i))
			h = append(h, fmt.Sprintf(`"SPDXRef-f%d"`, i))
		}
		var p []string
		for i := 0; i < n/2; i++ {
			p = append(p, fmt.Sprintf(`{"SPDXID":"SPDXRef-p%d","name":"p","hasFiles":[%s]}`, i, strings.Join(h, ",")))
		}
		return []byte(fmt.Sprintf(`{"spdxVersion":"SPDX-%s","documentDescribes":[%s],"files":[%s],"packages":[%s]}`, strings.ReplaceAll(ver[1:], "_", "."), strings.Join(h, ","), strings.Join(f, ","), strings.Join(p, ",")))
	}},
	{"json-depth", fJSON, 200, func(n int, ver string) []byte {
		return []byte(`{"spdxVersion":"SPDX-2.3","x":` + strings.Repeat(`[{"a":`, n) + "1" + strings.Repeat("}]", n) + "}")
	}},
	{"tagvalue-files", fTV, 60, func(n int, ver string) []byte {
		var b bytes.Buffer
		fmt.Fprintf(&b, "SPDXVersion: SPDX-%s\nSPDXID: SPDXRef-DOCUMENT\n", strings.ReplaceAll(ver[1:], "_", "."))
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "PackageName: p\nSPDXID: SPDXRef-p%d\nFileName: f\nSPDXID: SPDXRef-f%d\nFileChecksum: SHA1: 00\nRelationship: SPDXRef-p%d CONTAINS SPDXRef-f%d\n", i, i, i, i)
		}
		return b.Bytes()
	}},
	{"tagvalue-text", fTV, 200, func(n int, ver string) []byte {
		return []byte("SPDXVersion: SPDX-" + strings.ReplaceAll(ver[1:], "_", ".") + "\nSPDXID: SPDXRef-DOCUMENT\nDocumentComment: <text>" + strings.Repeat("line of text: <text\n", n) + "</text>\n" + strings.Repeat("\n", n))
	}},
	{"yaml-aliases", fYAML, 9, func(n int, ver string) []byte {
		s := "spdxVersion: SPDX-2.3\na0: &a0 [x, y]\n"
		for i := 1; i <= n; i++ {
			s += fmt.Sprintf("a%d: &a%d [*a%d, *a%d]\n", i, i, i-1, i-1)
		}
		return []byte(s)
	}},
}

// runGrowth reads a document of a family at two sizes and compares the work.
func runGrowth(c *Ctx, t *vsimrt.Tape) {
	g := growths[t.N(len(growths))]
	ver := []string{"v2_3", "v2_2"}[t.N(2)]
	target := pickTarget(t)
	n := g.n + t.N(g.n/3+1)
	var steps [2]int64
	for k := range steps {
		data := g.make(n*(k+1), ver)
		before := c.steps
		r := c.Go("read", func(t *Task) {
			_, err := doRead(g.f, newStream(t, data), target)
			t.Log("%s of size %d, %d bytes: err=%v", g.name, n*(k+1), len(data), err)
		})
		c.RunWith(2000, 0, uint64(t.N(1<<16)))
		if c.panicked(r, fmt.Sprintf("reading %s of size %d", g.name, n*(k+1))) {
			return
		}
		steps[k] = c.steps - before
	}
	c.Note("growth:" + g.name)
	c.FP(vsimrt.Hash64(fmt.Sprint(g.name, ver, n, target)))
	c.sample = fmt.Sprintf("%s: %d steps for size %d, %d for size %d", g.name, steps[0], n, steps[1], 2*n)
	c.Log("%s", c.sample)
	if steps[0] > 0 && steps[1] > 24*steps[0] {
		c.Fail("growth:"+g.name, "the work of reading grows out of proportion: %s", c.sample)
	}
}
