package main

import (
	"fmt"
	"regexp"
	"strings"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C26", Title: "malformed statements", Quick: 7000, Thorough: 105000,
		Rule: "1-3 concurrent tasks each read, up to four times in a drawn order and by a drawn delivery, a well-formed document (JSON, YAML, tag-value or RDF) and the same document with one statement made malformed at a drawn place; the first must be read, the second refused; non-trivial when a malformed document was read",
		Real: readReal, Stub: readStub,
		Assume: []string{"what counts as malformed is the list in sim/harness/scen_bad.go: identifiers without their prefix or name, agents without a type or with one that does not exist, values of another JSON type, unknown tags and RDF properties, checksums, ranges, relationships and references with parts missing, sections without identifier, unclosed texts"},
		Run:    runC26})
}

// damage is one way to make a document malformed.
type damage struct {
	what  string
	apply func()
}

// ---------------------------------------------------------------- JSON, YAML

var jsonFree = map[string]bool{"x-note": true, "vendor:data": true, "zz": true, "_": true}

// harmJSON makes one statement of the document malformed.
func harmJSON(t *vsimrt.Tape, root *jn, ver string, yaml bool) string {
	var ds []damage
	add := func(what string, f func()) { ds = append(ds, damage{what, f}) }
	obj := func() *jn { return &jn{k: 'o', keys: []string{"a"}, vals: []*jn{jstr("b")}} }
	arr := func() *jn { return &jn{k: 'a', vals: []*jn{jstr("b")}} }
	other := func(what string, n *jn) {
		var l []*jn
		switch n.k {
		case 's':
			l = []*jn{obj(), arr()}
			if !yaml {
				l = append(l, &jn{k: 'n', s: "5"}, &jn{k: 'b', s: "true"})
			}
		case 'a':
			l = []*jn{jstr("x"), obj()}
		case 'o':
			l = []*jn{jstr("x"), arr()}
		case 'n':
			l = []*jn{obj(), arr(), jstr("x")}
		case 'b':
			l = []*jn{obj(), arr(), jstr("maybe")}
		default:
			return
		}
		x := l[t.N(len(l))]
		add("value of another type: "+what, func() { *n = *x })
	}
	str := func(what string, n *jn, bad ...string) {
		if n.k == 's' {
			s := bad[t.N(len(bad))]
			add(what, func() { n.s = s })
		}
	}
	var walk func(n *jn)
	walk = func(n *jn) {
		switch n.k {
		case 'a':
			for _, v := range n.vals {
				walk(v)
			}
		case 'o':
			for i, k := range n.keys {
				v := n.vals[i]
				if jsonFree[k] || ver != "v2_3" && (k == "fileDependencies" || k == "artifactOfs") {
					continue // not part of the model's JSON form
				}
				each := []*jn{v}
				if v.k == 'a' {
					each = v.vals
				}
				other(k, v)
				switch k {
				case "spdxVersion":
					str(k, v, "SPDX-9.9", "2.3", "SPDX-2.30", "", "spdx-2.3")
				case "SPDXID", "snippetFromFile", "reference":
					str(k, v, "NoPrefix", "SPDXRef-", "spdxref-x", "xSPDXRef-a")
				case "spdxElementId", "relatedSpdxElement":
					str(k, v, "NoPrefix", "SPDXRef-", "DocumentRef-:SPDXRef-a", "DocumentRef-x:", "DocumentRef-x:a", "none")
				case "documentDescribes", "hasFiles":
					for _, e := range each {
						str(k, e, "NoPrefix", "SPDXRef-", "DocumentRef-x:")
						other(k+" element", e)
					}
				case "externalDocumentId":
					str(k, v, "x", "DocumentRef-", "documentref-x")
				case "supplier", "originator", "annotator":
					str(k, v, "Acme", "Person Jane")
				case "creators":
					for _, e := range each {
						str(k, e, "Acme", "Tool x")
						other(k+" element", e)
					}
				case "packages", "files", "snippets", "annotations", "checksums", "relationships", "ranges", "externalRefs", "seeAlsos", "fileTypes", "attributionTexts", "licenseInfoFromFiles":
					for _, e := range each {
						other(k+" element", e)
					}
				}
				walk(v)
			}
		}
	}
	walk(root)
	add("no version", func() {
		for i, k := range root.keys {
			if k == "spdxVersion" {
				root.keys = append(root.keys[:i:i], root.keys[i+1:]...)
				root.vals = append(root.vals[:i:i], root.vals[i+1:]...)
				return
			}
		}
	})
	if !yaml {
		tail := []string{"\x00", "x", "{}", "}", "]", "null", "\x00\x00\x00\x00"}[t.N(7)]
		add("bytes after the document", func() { root.s = tail })
	}
	add("a list of documents", func() { c := *root; *root = jn{k: 'a', vals: []*jn{&c}} })
	add("a string", func() { *root = *jstr("SPDX-2.3") })
	return pick(t, ds)
}

// pick applies one of them; the kinds are as likely as each other.
func pick(t *vsimrt.Tape, ds []damage) string {
	kinds := map[string][]damage{}
	for _, d := range ds {
		k, _, _ := strings.Cut(d.what, ":")
		kinds[k] = append(kinds[k], d)
	}
	names := sortedKeys(kinds)
	l := kinds[names[t.N(len(names))]]
	d := l[t.N(len(l))]
	d.apply()
	return d.what
}

// ---------------------------------------------------------------- tag-value

var tvBad = map[string][]string{
	"SPDXID":                {"NoPrefix", "SPDXRef-", "SPDXRef-a:b", "spdxref-a"},
	"PackageChecksum":       {"SHA1 0123", "NOSUCH: 0123", "0123"},
	"FileChecksum":          {"SHA1 0123", "NOSUCH: 0123", "0123"},
	"PackageSupplier":       {"Acme", "Robot: Acme", "Person Jane"},
	"PackageOriginator":     {"Acme", "Robot: Acme", "Person Jane"},
	"Creator":               {"Acme", "Robot: Acme", "person: Jane"},
	"Annotator":             {"Acme", "Robot: Acme"},
	"Reviewer":              {"Acme", "Robot: Acme"},
	"Relationship":          {"SPDXRef-a CONTAINS", "a CONTAINS SPDXRef-b", "SPDXRef-a CONTAINS b", "SPDXRef-a", "SPDXRef-a CONTAINS SPDXRef-", "DocumentRef-x CONTAINS SPDXRef-b", "SPDXRef-a CONTAINS SPDXRef-b SPDXRef-c", "SPDXRef-a CONTAINS DocumentRef-:SPDXRef-b", "NONE CONTAINS SPDXRef-b", "SPDXRef-a CONTAINS DocumentRef-x:SPDXRef-b:c"},
	"ExternalRef":           {"SECURITY cpe23Type", "SECURITY"},
	"ExternalDocumentRef":   {"DocumentRef-a http://x", "x http://x SHA1: 00", "DocumentRef- http://x SHA1: 00", "DocumentRef-a"},
	"SPDXREF":               {"NoPrefix", "SPDXRef-", "DocumentRef-x", "DocumentRef-:SPDXRef-a"},
	"SnippetSPDXIdentifier": {"NoPrefix", "SPDXRef-"},
	"SnippetFromFileSPDXID": {"NoPrefix", "SPDXRef-", "DocumentRef-x"},
	"SnippetByteRange":      {"5", "1:x", "x:2", "1-2", "1:"},
	"SnippetLineRange":      {"5", "1:x", "x:2", "1-2", "1:"},
}

// words that may stand behind a statement, but not for the format
var remarks = []string{"# remark", "#", "// remark", "(remark)", "SPDXRef-c", "-", "remark", ";", "NONE", "DESCRIBES", "\"\""}

// tvNearly is value with a small mistake; or else otherwise.
func tvNearly(t *vsimrt.Tape, tag, value, otherwise string) string {
	prefix := func(s string) string {
		i := strings.Index(s, "SPDXRef-")
		r := []string{"", "Ref-", "SPDXRef", "SPDXRef_", "spdxref-", "SPDXREF-", "SPDXRef:", "SPDX-", "#SPDXRef-", "-SPDXRef-"}[t.N(10)] + s[i+len("SPDXRef-"):]
		if strings.HasPrefix(r, "SPDXRef-") { // the identifier itself begins with -
			return s[:i] + "x" + r
		}
		return s[:i] + r
	}
	agent := func() string {
		_, name, ok := strings.Cut(value, ":")
		if !ok {
			return value + []string{" x", "S", "-x", " (unknown)"}[t.N(4)]
		}
		if strings.Contains(name, ":") {
			name = " x"
		}
		return []string{"", "person:", "Persons:", "ORGANIZATION:", "Organisation:", "Team:", "tool:", "Person,", "Tool", "Org:", ":"}[t.N(11)] + name
	}
	switch tag {
	case "SPDXID", "SnippetSPDXIdentifier", "SnippetFromFileSPDXID", "SPDXREF":
		if strings.HasPrefix(value, "SPDXRef-") {
			return prefix(value)
		}
	case "PackageChecksum", "FileChecksum":
		a, v, ok := strings.Cut(value, ":")
		if ok {
			return []string{a + v, a + "=" + v, strings.ToLower(a) + ":" + v, strings.Replace(a, "SHA", "SHA-", 1) + "_:" + v, a + "0:" + v, "x" + a + ":" + v, ":" + v}[t.N(7)]
		}
	case "PackageSupplier", "PackageOriginator", "Creator", "Annotator", "Reviewer":
		return agent()
	case "Relationship":
		f := strings.Fields(value)
		if len(f) != 3 {
			break
		}
		switch t.N(5) {
		case 0, 1:
			return value + " " + remarks[t.N(len(remarks))]
		case 2:
			i := t.N(3)
			f = append(f[:i:i], f[i+1:]...)
			if len(f) == 2 && i == 1 && t.N(2) == 0 {
				return f[0] + "," + f[1]
			}
		case 3:
			i := 2 * t.N(2)
			if strings.Contains(f[i], "SPDXRef-") && !strings.Contains(f[i], "DocumentRef") {
				f[i] = prefix(f[i])
			} else {
				f[i] = "x"
			}
		case 4:
			return remarks[t.N(len(remarks))] + " " + value
		}
		return strings.Join(f, " ")
	case "SnippetByteRange", "SnippetLineRange":
		a, b, ok := strings.Cut(value, ":")
		if ok {
			return []string{a + "-" + b, a + " " + b, a + ":" + b + ":" + b, a + ":" + b + "x", "L" + a + ":" + b, a + ":", ":" + b, a + ":0x" + b, a + "," + b, a + ".5:" + b}[t.N(10)]
		}
	}
	return otherwise
}

func harmTV(t *vsimrt.Tape, data []byte) ([]byte, string) {
	lines := strings.Split(string(data), "\n")
	var ds []damage
	add := func(what string, f func()) { ds = append(ds, damage{what, f}) }
	ends := func(i int) string { // the line's end, without its line feed
		if strings.HasSuffix(lines[i], "\r") {
			return "\r"
		}
		return ""
	}
	put := func(i int, s string) {
		lines = append(lines[:i:i], append([]string{s}, lines[i:]...)...)
	}
	open, ids := false, 0
	for i, l := range lines {
		if open {
			open = !strings.Contains(l, "</text>")
			continue
		}
		s := strings.TrimSpace(l)
		tag, value, ok := strings.Cut(s, ":")
		if s != "" && s[0] != '#' && ok {
			tag = strings.TrimSpace(tag)
			if bad := tvBad[tag]; bad != nil {
				b := bad[t.N(len(bad))]
				if v := strings.TrimSpace(value); t.N(2) == 0 && !strings.HasPrefix(v, "<text>") {
					b = tvNearly(t, tag, v, b)
				}
				add(tag, func() { lines[i] = tag + ": " + b + ends(i) })
			}
			if tag == "SPDXID" {
				if ids++; ids > 1 {
					add("no identifier", func() { lines = append(lines[:i:i], lines[i+1:]...) })
				}
			}
			if v := strings.TrimSpace(value); strings.HasPrefix(v, "<text>") && !strings.Contains(v, "</text>") {
				open = true
			}
		}
		what := []string{"NoSuchTag: value", "packagename: x", "X:"}[t.N(3)]
		word := []string{"just words", "PackageComment", "-----"}[t.N(3)]
		add("unknown tag", func() { put(i, what+ends(i)) })
		add("no tag", func() { put(i, word+ends(i)) })
	}
	add("unclosed text", func() {
		lines = append(lines, "LicenseComment: <text>never closed")
	})
	what := pick(t, ds)
	return []byte(strings.Join(lines, "\n")), what
}

// ---------------------------------------------------------------- RDF

type rdfDamage struct {
	what string
	re   *regexp.Regexp
	with []string
}

var rdfBad = func() []rdfDamage {
	d := func(what, re string, with ...string) rdfDamage { return rdfDamage{what, regexp.MustCompile(re), with} }
	var l []rdfDamage
	for _, k := range []string{"spdx:File", "spdx:Package", "spdx:SpdxDocument", "spdx:CreationInfo", "spdx:Annotation", "spdx:Relationship", "spdx:Checksum", "spdx:ExternalRef",
		"spdx:PackageVerificationCode", "spdx:Snippet", "spdx:License", "spdx:LicenseException", "spdx:WithExceptionOperator", "spdx:ConjunctiveLicenseSet", "spdx:ExternalDocumentRef",
		"spdx:Review", "ptr:ByteOffsetPointer", "ptr:LineCharPointer"} {
		l = append(l, d("unknown property of "+k, `</(?:`+k+`)>`, "<spdx:noSuchProperty>x</spdx:noSuchProperty>$0", `<rdfs:noSuchProperty rdf:resource="http://example.com/x"/>$0`))
	}
	return append(l,
		d("filesAnalyzed", `(<spdx:filesAnalyzed[^>]*>)[^<]*(<)`, "${1}maybe$2"),
		d("isOsiApproved", `(<spdx:isOsiApproved[^>]*>)[^<]*(<)`, "${1}maybe$2"),
		d("supplier", `(<spdx:supplier[^>]*>).*?(</spdx:supplier>)`, "${1}Acme$2", "${1}Robot: x$2"),
		d("originator", `(<spdx:originator[^>]*>).*?(</spdx:originator>)`, "${1}Acme$2", "${1}Robot: x$2"),
		d("annotator", `(<spdx:annotator[^>]*>).*?(</spdx:annotator>)`, "${1}Acme$2", "${1}Robot: x$2"),
		d("creator", `(<spdx:creator[^>]*>).*?(</spdx:creator>)`, "${1}Acme$2", "${1}Robot: x$2"),
		d("reviewer", `(<spdx:reviewer[^>]*>).*?(</spdx:reviewer>)`, "${1}Acme$2"),
		d("algorithm", `#checksumAlgorithm_[a-z0-9]*`, "#checksumAlgorithm_nosuch", "#nosuch_sha1", "#xchecksumAlgorithm_sha1", "#checksumAlgorithm_sha1x"),
		d("relationshipType", `#relationshipType_[A-Za-z]*`, "#relationshipType_nosuch", "#nosuch_describes", "#xrelationshipType_describes", "#relationshipType_describesx", "#relationshipType_"),
		d("annotationType", `#annotationType_[a-z]*`, "#annotationType_nosuch", "#xannotationType_other"),
		d("fileType", `#fileType_[a-z]*`, "#nosuch_source", "#xfileType_source"),
		d("undeclared prefix", `</spdx:(?:File|Package|SpdxDocument|Annotation|Relationship|Checksum|CreationInfo)>`, "<nosuch:name>x</nosuch:name>$0", `<spdx:relationship><nosuch:Relationship/></spdx:relationship>$0`),
		d("listed licence", `(<spdx:license(?:Concluded|Declared)[^>]*)"http://spdx.org/licenses/[^"]*"`, `${1}"http://spdx.org/licenses/NoSuch-1.0"`, `${1}"http://spdx.org/licenses/"`),
		d("offset", `(<ptr:offset[^>]*>).*?(</ptr:offset>)`, "${1}x$2", "${1}$2"),
		d("lineNumber", `(<ptr:lineNumber[^>]*>).*?(</ptr:lineNumber>)`, "${1}x$2", "${1}1.5$2"),
		d("specVersion", `(<spdx:specVersion[^>]*>).*?(</spdx:specVersion>)`, "${1}SPDX-9.9$2", "${1}x$2", ""),
		d("no document", `spdx:SpdxDocument`, "spdx:NoSuchThing"),
		d("identifier", `(rdf:about=["'][^"']*#)SPDXRef-(?:File|Package|Snippet)`, "${1}NoPrefix"),
		d("not closed", `</rdf:RDF>`, "", "</rdf:RD>"),
	)
}()

func harmRDF(t *vsimrt.Tape, data []byte) ([]byte, string) {
	s := string(data)
	pre := "spdx"
	if !strings.Contains(s, "<spdx:") {
		pre = "s"
		s = strings.NewReplacer("<s:", "<spdx:", "</s:", "</spdx:", "xmlns:s=", "xmlns:spdx=").Replace(s)
	}
	var ds []damage
	for _, b := range rdfBad {
		all := b.re.FindAllStringSubmatchIndex(s, -1)
		if len(all) == 0 {
			continue
		}
		m, w := all[t.N(len(all))], b.with[t.N(len(b.with))]
		w = strings.ReplaceAll(w, "$0", "${0}")
		if b.what == "no document" { // both tags
			ds = append(ds, damage{b.what, func() { s = b.re.ReplaceAllString(s, w) }})
			continue
		}
		ds = append(ds, damage{b.what, func() { s = s[:m[0]] + string(b.re.ExpandString(nil, w, s, m)) + s[m[1]:] }})
	}
	what := pick(t, ds)
	if pre == "s" {
		s = strings.NewReplacer("<spdx:", "<s:", "</spdx:", "</s:", "xmlns:spdx=", "xmlns:s=").Replace(s)
	}
	return []byte(s), what
}

func runC26(c *Ctx) {
	t := c.Tape("input")
	type read struct {
		bad bool
		doc any
		err error
		how string
	}
	type job struct {
		f         int
		ver, to   string
		good, bad []byte
		what      string
		want      string
		dump      func(any) string
		reads     []*read
	}
	n := 1 + t.N(3)
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{ver: versions[t.N(3)], f: []int{fJSON, fYAML, fTV, fTV, fRDF, fRDF}[t.N(6)]}
		jobs[i] = j
		tape, ht := c.Tape(fmt.Sprintf("doc%d", i)), c.Tape(fmt.Sprintf("harm%d", i))
		var want any
		if j.f == fRDF && j.ver == "v2_1" {
			j.ver = "v2_2"
		}
		j.to = []string{j.ver, j.ver, "", "v2_3", "v2_2", "v2_1"}[t.N(6)]
		if j.f == fRDF && j.to == "v2_1" {
			j.to = "v2_2"
		}
		to := j.to
		if to == "" {
			to = "v2_3"
		}
		switch j.f {
		case fTV:
			data, g := tvStated(tape, j.ver)
			j.good, want = data, g.want
			j.bad, j.what = harmTV(ht, data)
			j.dump = func(d any) string { return statedDump(d, true) }
		case fRDF:
			data, g := rdfStated(tape, j.ver)
			j.good = data
			j.bad, j.what = harmRDF(ht, data)
			j.dump = func(d any) string { return rdfDump(d, j.to, g.loose) }
			j.want = j.dump(&g.doc)
		default:
			root, g := jsonNodes(tape, j.ver, j.f == fYAML)
			harmed := root.clone()
			j.good, want = g.render(root), g.want
			g.t = ht
			j.what = harmJSON(ht, harmed, j.ver, j.f == fYAML)
			if j.bad = g.render(harmed); harmed.k == 'o' {
				j.bad = append(j.bad, harmed.s...)
			}
			j.dump = func(d any) string { return statedDump(d, false) }
		}
		if want != nil {
			j.want = j.dump(expected(want, j.ver, to))
		}
		for k := 1 + t.N(4); k > 0; k-- {
			j.reads = append(j.reads, &read{bad: t.N(3) > 0})
		}
		used := t.N(3) == 0
		c.Go("read", func(t *Task) {
			into := newDoc(to)
			for _, r := range j.reads {
				data := j.good
				if r.bad {
					data = j.bad
				}
				s := newStream(t, data)
				if used {
					// one document for all the reads
					r.err = readInto(j.f, s, into)
					if r.err == nil {
						r.doc = deepCopy(into)
					}
				} else {
					r.doc, r.err = doRead(j.f, s, j.to)
				}
				r.how = s.describe()
				t.Fault("delivery:" + styleName[s.style])
			}
		})
	}
	tasks := c.tasks
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		desc := fmt.Sprintf("%s %s document of %d bytes read into %q", fmtName[j.f], j.ver, len(j.good), j.to)
		if c.panicked(tasks[i], desc) {
			continue
		}
		c.sample = desc + ", malformed: " + j.what
		for k, r := range j.reads {
			c.Log("task %d, read %d: %s: malformed %v (%s), delivered as %s: err=%v", i, k, desc, r.bad, j.what, r.how, r.err)
			switch {
			case r.bad && r.err == nil:
				c.Log("document:\n%s", clip(string(j.bad), 20000))
				c.Fail("accepted:"+fmtName[j.f]+":"+j.what, "%s: malformed (%s), delivered as %s, but accepted", desc, j.what, r.how)
			case r.bad:
				c.trivial = false
				c.Note("refused: " + fmtName[j.f] + ": " + j.what)
			case r.err != nil:
				c.Fail("error:"+fmtName[j.f], "%s: read %d, delivered as %s: %s", desc, k+1, r.how, clip(r.err.Error(), 300))
			default:
				if got := j.dump(r.doc); got != j.want {
					c.Fail("content:"+fmtName[j.f], "%s: read %d: %s", desc, k+1, firstDiff(j.want, got))
				}
			}
		}
	}
}
