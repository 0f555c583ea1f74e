package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf16"

	"github.com/spdx/tools-golang/spdx/v2/common"

	"vsimrt"
)

// The names the SPDX JSON schema gives the fields of the document model. Fields
// not listed are not part of the JSON form.
var jsonNames = map[string][][2]string{
	"Document": {{"SPDXVersion", "spdxVersion"}, {"DataLicense", "dataLicense"}, {"SPDXIdentifier", "SPDXID"}, {"DocumentName", "name"},
		{"DocumentNamespace", "documentNamespace"}, {"ExternalDocumentReferences", "externalDocumentRefs"}, {"DocumentComment", "comment"},
		{"CreationInfo", "creationInfo"}, {"Packages", "packages"}, {"Files", "files"}, {"OtherLicenses", "hasExtractedLicensingInfos"},
		{"Relationships", "relationships"}, {"Annotations", "annotations"}, {"Snippets", "snippets"}},
	"ExternalDocumentRef": {{"DocumentRefID", "externalDocumentId"}, {"URI", "spdxDocument"}, {"Checksum", "checksum"}},
	"Checksum":            {{"Algorithm", "algorithm"}, {"Value", "checksumValue"}},
	"CreationInfo":        {{"LicenseListVersion", "licenseListVersion"}, {"Creators", "creators"}, {"Created", "created"}, {"CreatorComment", "comment"}},
	"Package": {{"PackageName", "name"}, {"PackageSPDXIdentifier", "SPDXID"}, {"PackageVersion", "versionInfo"}, {"PackageFileName", "packageFileName"},
		{"PackageSupplier", "supplier"}, {"PackageOriginator", "originator"}, {"PackageDownloadLocation", "downloadLocation"}, {"FilesAnalyzed", "filesAnalyzed"},
		{"PackageVerificationCode", "packageVerificationCode"}, {"PackageChecksums", "checksums"}, {"PackageHomePage", "homepage"}, {"PackageSourceInfo", "sourceInfo"},
		{"PackageLicenseConcluded", "licenseConcluded"}, {"PackageLicenseInfoFromFiles", "licenseInfoFromFiles"}, {"PackageLicenseDeclared", "licenseDeclared"},
		{"PackageLicenseComments", "licenseComments"}, {"PackageCopyrightText", "copyrightText"}, {"PackageSummary", "summary"}, {"PackageDescription", "description"},
		{"PackageComment", "comment"}, {"PackageExternalReferences", "externalRefs"}, {"PackageAttributionTexts", "attributionTexts"},
		{"PrimaryPackagePurpose", "primaryPackagePurpose"}, {"ReleaseDate", "releaseDate"}, {"BuiltDate", "builtDate"}, {"ValidUntilDate", "validUntilDate"},
		{"Files", "files"}, {"Annotations", "annotations"}},
	"PackageVerificationCode": {{"Value", "packageVerificationCodeValue"}, {"ExcludedFiles", "packageVerificationCodeExcludedFiles"}},
	"PackageExternalReference": {{"Category", "referenceCategory"}, {"RefType", "referenceType"}, {"Locator", "referenceLocator"},
		{"ExternalRefComment", "comment"}},
	"File": {{"FileName", "fileName"}, {"FileSPDXIdentifier", "SPDXID"}, {"FileTypes", "fileTypes"}, {"Checksums", "checksums"}, {"LicenseConcluded", "licenseConcluded"},
		{"LicenseInfoInFiles", "licenseInfoInFiles"}, {"LicenseComments", "licenseComments"}, {"FileCopyrightText", "copyrightText"}, {"ArtifactOfProjects", "artifactOfs"},
		{"FileComment", "comment"}, {"FileNotice", "noticeText"}, {"FileContributors", "fileContributors"}, {"FileAttributionTexts", "attributionTexts"},
		{"FileDependencies", "fileDependencies"}, {"Annotations", "annotations"}},
	"ArtifactOfProject": {{"Name", "name"}, {"HomePage", "homePage"}, {"URI", "URI"}},
	"OtherLicense": {{"LicenseIdentifier", "licenseId"}, {"ExtractedText", "extractedText"}, {"LicenseName", "name"}, {"LicenseCrossReferences", "seeAlsos"},
		{"LicenseComment", "comment"}},
	"Relationship": {{"RefA", "spdxElementId"}, {"RefB", "relatedSpdxElement"}, {"Relationship", "relationshipType"}, {"RelationshipComment", "comment"}},
	"Annotation":   {{"Annotator", "annotator"}, {"AnnotationDate", "annotationDate"}, {"AnnotationType", "annotationType"}, {"AnnotationComment", "comment"}},
	"Snippet": {{"SnippetSPDXIdentifier", "SPDXID"}, {"SnippetFromFileSPDXIdentifier", "snippetFromFile"}, {"Ranges", "ranges"}, {"SnippetLicenseConcluded", "licenseConcluded"},
		{"LicenseInfoInSnippet", "licenseInfoInSnippets"}, {"SnippetLicenseComments", "licenseComments"}, {"SnippetCopyrightText", "copyrightText"},
		{"SnippetComment", "comment"}, {"SnippetName", "name"}},
	"SnippetRange":        {{"StartPointer", "startPointer"}, {"EndPointer", "endPointer"}},
	"SnippetRangePointer": {{"Offset", "offset"}, {"LineNumber", "lineNumber"}, {"FileSPDXIdentifier", "reference"}},
}

// jn is a node of a JSON or YAML document.
type jn struct {
	k    byte // o a s n b 0
	s    string
	keys []string
	vals []*jn
}

func jstr(s string) *jn { return &jn{k: 's', s: s} }

func (n *jn) put(key string, v *jn) {
	n.keys = append(n.keys, key)
	n.vals = append(n.vals, v)
}

// jsonGen writes a document down as JSON or YAML, in one of the many ways there
// are to state the same thing.
type jsonGen struct {
	t    *vsimrt.Tape
	ver  string
	want any // the document that is stated
	// style
	order  int // 0 as listed, 1 rotated, 2 shuffled
	nulls  bool
	extra  bool
	legacy bool
	esc    int
	exact  bool // in the form the schema shows
	ws     int
	nl     string
	yaml   bool
	note   []string
	anchor map[string]int
	kept   bool // the last block scalar keeps the line breaks that follow
	b      strings.Builder
}

// jsonStated makes a document and its text.
func jsonStated(t *vsimrt.Tape, ver string, yaml bool) ([]byte, *jsonGen) {
	root, g := jsonNodes(t, ver, yaml)
	if t.N(8) == 7 {
		g.nullElements(root, reflect.TypeOf(g.want).Elem())
	}
	return g.render(root), g
}

// nullElements adds elements that mean nothing to the lists of elements.
func (g *jsonGen) nullElements(o *jn, t reflect.Type) {
	for _, p := range jsonNames[t.Name()] {
		f, ok := t.FieldByName(p[0])
		if !ok {
			continue
		}
		ft := f.Type
		if ft.Kind() == reflect.Pointer {
			ft = ft.Elem()
		}
		list := ft.Kind() == reflect.Slice
		ptrs := false
		if list {
			ft = ft.Elem()
			if ptrs = ft.Kind() == reflect.Pointer; ptrs {
				ft = ft.Elem()
			}
		}
		if ft.Kind() != reflect.Struct {
			continue
		}
		for i, k := range o.keys {
			n := o.vals[i]
			switch {
			case k != p[1]:
			case n.k == 'o':
				g.nullElements(n, ft)
			case list && n.k == 'a':
				for _, e := range n.vals {
					if e.k == 'o' {
						g.nullElements(e, ft)
					}
				}
				for ptrs && g.t.N(3) == 0 {
					g.saw("null element of a list")
					at := g.t.N(len(n.vals) + 1)
					n.vals = append(n.vals[:at:at], append([]*jn{{k: '0'}}, n.vals[at:]...)...)
				}
			}
		}
	}
}

func jsonNodes(t *vsimrt.Tape, ver string, yaml bool) (*jn, *jsonGen) {
	gen := newGen(t, profJSON)
	if yaml {
		gen.nel = false
	}
	return jsonNodesOf(t, gen.Doc(ver), ver, yaml)
}

// jsonNodesOf states what JSON has a form for of the document.
func jsonNodesOf(t *vsimrt.Tape, doc any, ver string, yaml bool) (*jn, *jsonGen) {
	g := &jsonGen{t: t, ver: ver, want: doc, yaml: yaml, nl: "\n", anchor: map[string]int{}}
	g.order = t.N(3)
	g.nulls = t.N(3) == 0
	g.extra = t.N(4) == 0
	g.esc = t.N(4)
	g.ws = t.N(6)
	root := g.node(reflect.ValueOf(doc).Elem())
	if ver != "v2_1" && t.N(2) == 0 {
		g.legacy = true
		g.legacyForms(root)
	}
	return root, g
}

func (n *jn) clone() *jn {
	c := &jn{k: n.k, s: n.s, keys: append([]string(nil), n.keys...)}
	for _, v := range n.vals {
		c.vals = append(c.vals, v.clone())
	}
	return c
}

// render writes the document down.
func (g *jsonGen) render(root *jn) []byte {
	g.b.Reset()
	g.anchor, g.kept = map[string]int{}, false
	if g.yaml {
		return g.yamlText(root)
	}
	g.json(root, 0)
	if g.t.N(2) == 0 {
		g.b.WriteString("\n")
	}
	return []byte(g.b.String())
}

// node is the statement of v; nil if there is nothing to state.
func (g *jsonGen) node(v reflect.Value) *jn {
	switch x := v.Interface().(type) {
	case common.ElementID:
		return jstr("SPDXRef-" + string(x))
	case common.DocumentID:
		return jstr("DocumentRef-" + string(x))
	case common.DocElementID:
		return jstr(refText(x))
	case common.Supplier:
		return jstr(g.agent(x.SupplierType, x.Supplier))
	case common.Originator:
		return jstr(g.agent(x.OriginatorType, x.Originator))
	case common.Creator:
		return jstr(g.agent(x.CreatorType, x.Creator))
	case common.Annotator:
		return jstr(g.agent(x.AnnotatorType, x.Annotator))
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return g.node(v.Elem())
	case reflect.String:
		if v.Len() == 0 {
			return nil
		}
		return jstr(v.String())
	case reflect.Int:
		if v.Int() == 0 {
			return nil
		}
		return &jn{k: 'n', s: fmt.Sprint(v.Int())}
	case reflect.Bool:
		return &jn{k: 'b', s: fmt.Sprint(v.Bool())}
	case reflect.Slice:
		if v.Len() == 0 {
			return nil
		}
		a := &jn{k: 'a'}
		for i := 0; i < v.Len(); i++ {
			e := g.node(v.Index(i))
			if e == nil {
				e = jstr("")
			}
			a.vals = append(a.vals, e)
		}
		return a
	case reflect.Struct:
		tn := v.Type().Name()
		names := jsonNames[tn]
		if names == nil {
			panic("no JSON names for " + tn)
		}
		o := &jn{k: 'o'}
		for _, p := range names {
			f := v.FieldByName(p[0])
			if !f.IsValid() {
				continue
			}
			if p[0] == "PackageVerificationCode" && reflect.Indirect(f).IsValid() && reflect.Indirect(f).Field(0).Len() == 0 {
				continue // a zero value
			}
			if p[0] == "FilesAnalyzed" && f.Bool() && g.ver != "v2_1" && g.t.N(2) == 0 {
				g.saw("filesAnalyzed left out")
				if g.nulls && g.t.N(3) == 0 {
					o.put(p[1], &jn{k: '0'})
				}
				continue
			}
			n := g.node(f)
			if n == nil {
				if !g.nulls || g.t.N(4) > 0 || f.Kind() == reflect.Int {
					continue
				}
				// stated, but empty
				g.saw("null or empty value")
				n = &jn{k: '0'}
				switch {
				case f.Kind() == reflect.Slice && g.t.N(2) == 0:
					n = &jn{k: 'a'}
				case f.Kind() == reflect.String && g.t.N(2) == 0:
					n = jstr("")
				}
			}
			if p[0] == "Category" && g.ver != "v2_1" && g.t.N(2) == 0 {
				n.s = strings.ReplaceAll(n.s, "-", "_")
			}
			o.put(p[1], n)
		}
		g.arrange(o)
		return o
	}
	panic("no JSON form for " + v.Type().String())
}

func (g *jsonGen) saw(s string) {
	for _, x := range g.note {
		if x == s {
			return
		}
	}
	g.note = append(g.note, s)
}

// arrange puts the members of an object in some order and adds members that
// mean nothing.
func (g *jsonGen) arrange(o *jn) {
	if g.extra && g.t.N(4) == 0 {
		g.saw("unknown member")
		x := []*jn{jstr("x"), {k: '0'}, {k: 'n', s: "12.5e3"}, {k: 'a', vals: []*jn{{k: 'b', s: "true"}, {k: 'a'}}}, {k: 'o', keys: []string{"SPDXID", "name"}, vals: []*jn{jstr("no-prefix"), {k: 'n', s: "1"}}}}[g.t.N(5)]
		o.put([]string{"x-note", "vendor:data", "zz", "_"}[g.t.N(4)], x)
	}
	n := len(o.keys)
	swap := func(i, j int) {
		o.keys[i], o.keys[j] = o.keys[j], o.keys[i]
		o.vals[i], o.vals[j] = o.vals[j], o.vals[i]
	}
	switch {
	case n < 2 || g.order == 0:
	case g.order == 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	default:
		for i := n - 1; i > 0; i-- {
			swap(i, g.t.N(i+1))
		}
	}
}

func refText(d common.DocElementID) string {
	if d.SpecialID != "" {
		return d.SpecialID
	}
	s := "SPDXRef-" + string(d.ElementRefID)
	if d.DocumentRefID != "" {
		s = "DocumentRef-" + string(d.DocumentRefID) + ":" + s
	}
	return s
}

func (g *jsonGen) agent(kind, name string) string {
	if kind == "" {
		return name
	}
	sep := ": "
	if !g.exact && g.t.N(6) == 0 {
		sep = []string{":", ":  "}[g.t.N(2)]
	}
	return kind + sep + name
}

// legacyForms states relationships by documentDescribes and hasFiles, some of
// them a second time.
func (g *jsonGen) legacyForms(root *jn) {
	d := reflect.ValueOf(g.want)
	rels := fld(d, "Relationships")
	type key struct {
		a, b common.DocElementID
		rel  string
	}
	norm := func(a, b common.DocElementID, rel string) key {
		switch rel {
		case "CONTAINED_BY":
			return key{b, a, "CONTAINS"}
		case "DESCRIBED_BY":
			return key{b, a, "DESCRIBES"}
		}
		return key{a, b, rel}
	}
	have := map[key]bool{}
	var known []key
	for i := 0; i < rels.Len(); i++ {
		r := rels.Index(i)
		k := norm(fld(r, "RefA").Interface().(common.DocElementID), fld(r, "RefB").Interface().(common.DocElementID), fld(r, "Relationship").String())
		have[k] = true
		known = append(known, k)
	}
	state := func(a common.DocElementID, rel string, n int) *jn {
		l := &jn{k: 'a'}
		for i := 0; i < n; i++ {
			b := common.DocElementID{ElementRefID: common.ElementID(g.some(d))}
			if g.t.N(6) == 0 {
				b.DocumentRefID = "ext.1-doc"
			}
			if len(known) > 0 && g.t.N(3) == 0 {
				for _, k := range known {
					if k.a == a && k.rel == rel && k.b.SpecialID == "" {
						b = k.b
						g.saw("relationship stated in both forms")
						break
					}
				}
			}
			l.vals = append(l.vals, jstr(refText(b)))
			k := key{a, b, rel}
			if have[k] {
				continue
			}
			have[k] = true
			known = append(known, k)
			g.appendRel(rels, a, b, rel)
		}
		if n == 0 && g.t.N(2) == 0 {
			return &jn{k: '0'}
		}
		return l
	}
	doc := common.DocElementID{ElementRefID: fld(d, "SPDXIdentifier").Interface().(common.ElementID)}
	if g.t.N(3) > 0 {
		g.saw("documentDescribes")
		root.put("documentDescribes", state(doc, "DESCRIBES", g.t.N(4)))
		g.arrange(root)
	}
	pkgs := fld(d, "Packages")
	for i, k := range root.keys {
		switch {
		case k == "packages" && pkgs.Len() > 0:
			for j, p := range root.vals[i].vals {
				if g.t.N(2) == 0 {
					g.saw("hasFiles")
					id := fld(pkgs.Index(j), "PackageSPDXIdentifier").Interface().(common.ElementID)
					p.put("hasFiles", state(common.DocElementID{ElementRefID: id}, "CONTAINS", g.t.N(4)))
					g.arrange(p)
				}
			}
		case k == "relationships" && root.vals[i].k == 'a' && g.t.N(4) == 0:
			// null elements mean nothing
			g.saw("null relationship")
			l := root.vals[i]
			at := g.t.N(len(l.vals) + 1)
			l.vals = append(l.vals[:at:at], append([]*jn{{k: '0'}}, l.vals[at:]...)...)
		}
	}
}

func (g *jsonGen) appendRel(rels reflect.Value, a, b common.DocElementID, rel string) {
	r := reflect.New(rels.Type().Elem().Elem())
	set(r, "RefA", a)
	set(r, "RefB", b)
	set(r, "Relationship", rel)
	rels.Set(reflect.Append(rels, r))
}

// some element's identifier
func (g *jsonGen) some(d reflect.Value) string {
	fs := fld(d, "Files")
	ps := fld(d, "Packages")
	switch {
	case fs.Len() > 0 && g.t.N(2) == 0:
		return fld(fs.Index(g.t.N(fs.Len())), "FileSPDXIdentifier").String()
	case ps.Len() > 0:
		return fld(ps.Index(g.t.N(ps.Len())), "PackageSPDXIdentifier").String()
	}
	return fmt.Sprintf("elsewhere-%d", g.t.N(3))
}

// ---------------------------------------------------------------- JSON text

func (g *jsonGen) space(depth int) {
	switch g.ws {
	case 0:
	case 1:
		g.b.WriteString("\n" + strings.Repeat("  ", depth))
	case 2:
		g.b.WriteString("\r\n" + strings.Repeat("\t", depth))
	case 3:
		g.b.WriteString(" ")
	default:
		if g.t.N(3) == 0 {
			g.b.WriteString([]string{" ", "\n", "\t", "\r\n", "   ", "\n\n"}[g.t.N(6)])
		}
	}
}

func (g *jsonGen) json(n *jn, depth int) {
	switch n.k {
	case 's':
		g.b.WriteString(g.jsonStr(n.s))
	case '0':
		g.b.WriteString("null")
	case 'a':
		g.b.WriteString("[")
		for i, v := range n.vals {
			if i > 0 {
				g.b.WriteString(",")
			}
			g.space(depth + 1)
			g.json(v, depth+1)
		}
		g.space(depth)
		g.b.WriteString("]")
	case 'o':
		g.b.WriteString("{")
		for i, v := range n.vals {
			if i > 0 {
				g.b.WriteString(",")
			}
			g.space(depth + 1)
			g.b.WriteString(g.jsonStr(n.keys[i]) + ":")
			if g.ws != 0 {
				g.b.WriteString(" ")
			}
			g.json(v, depth+1)
		}
		g.space(depth)
		g.b.WriteString("}")
	default:
		g.b.WriteString(n.s)
	}
}

func (g *jsonGen) jsonStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	long := len(s) > 2000
	for _, r := range s {
		esc := func() {
			if r > 0xffff {
				hi, lo := utf16.EncodeRune(r)
				fmt.Fprintf(&b, `\u%04x\u%04X`, hi, lo)
				return
			}
			f := `\u%04x`
			if !long && g.t.N(2) == 0 {
				f = `\u%04X`
			}
			fmt.Fprintf(&b, f, r)
		}
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\b': `\b`, '\f': `\f`, '/': `\/`}[r]
		switch {
		case g.esc == 3 && !long && g.t.N(3) == 0:
			esc()
		case r == '/' && (g.esc < 2 || long):
			b.WriteRune(r)
		case short != "" && (g.esc < 2 || long || g.t.N(2) == 0):
			b.WriteString(short)
		case short != "" || r < 0x20:
			esc()
		case r >= 0x7f && (g.esc == 1 || g.esc == 2):
			esc()
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// ---------------------------------------------------------------- YAML text

var (
	yamlPlain    = regexp.MustCompile(`^[A-Za-z/][A-Za-z0-9 ,.()_/+:-]*[A-Za-z0-9.)_+]$`)
	yamlDate     = regexp.MustCompile(`^20\d\d-\d\d-\d\dT\d\d:\d\d:\d\dZ$`)
	yamlReserved = map[string]bool{"true": true, "false": true, "null": true, "yes": true, "no": true, "on": true, "off": true, "y": true, "n": true, "nan": true, "inf": true}
)

func (g *jsonGen) yamlText(root *jn) []byte {
	if g.t.N(3) == 0 {
		if g.t.N(2) == 0 {
			g.b.WriteString("%YAML 1.1\n")
		}
		g.b.WriteString("---\n")
	}
	switch g.t.N(8) {
	case 0:
		g.saw("flow style throughout")
		g.flow(root, 0)
		g.b.WriteString("\n")
	default:
		g.block(root, 0)
	}
	if g.t.N(5) == 0 {
		g.b.WriteString("...\n")
	}
	s := g.b.String()
	if g.t.N(5) == 0 {
		g.saw("CRLF")
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	switch g.t.N(24) {
	case 0:
		g.saw("byte order mark")
		s = "\ufeff" + s
	case 1, 2:
		if len(s) < 60000 {
			g.saw("UTF-16")
			return toUTF16("\ufeff"+s, g.t.N(2) == 0)
		}
	}
	return []byte(s)
}

func toUTF16(s string, big bool) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		if big {
			b = append(b, byte(u>>8), byte(u))
		} else {
			b = append(b, byte(u), byte(u>>8))
		}
	}
	return b
}

func (g *jsonGen) indent(n int) { g.b.WriteString(strings.Repeat(" ", n)) }

func (g *jsonGen) remark(ind int) {
	if g.ws >= 3 && g.t.N(12) == 0 {
		g.saw("comment")
		switch k := g.t.N(3); {
		case k == 0 && !g.kept:
			g.b.WriteString("\n")
		default:
			g.indent(ind)
			g.b.WriteString([]string{"# comment\n", "# key: value\n", "#\n"}[g.t.N(3)])
		}
	}
}

func (g *jsonGen) endLine() {
	if g.ws == 5 && g.t.N(10) == 0 {
		g.b.WriteString(" # end")
	}
	g.b.WriteString("\n")
}

func (g *jsonGen) key(k string) string {
	if strings.Contains(k, ":") || k == "y" || k == "_" || g.t.N(10) == 0 {
		if g.t.N(2) == 0 {
			return "'" + k + "'"
		}
		return `"` + k + `"`
	}
	return k
}

// block writes the members of an object, or the elements of a list, in block
// style; the current line is empty.
func (g *jsonGen) block(n *jn, ind int) {
	if n.k == 'o' {
		for i, v := range n.vals {
			g.remark(ind)
			g.indent(ind)
			g.member(n.keys[i], v, ind)
		}
		return
	}
	for _, v := range n.vals {
		g.remark(ind)
		g.indent(ind)
		g.b.WriteString("-")
		switch {
		case v.k == 'o' && len(v.vals) > 0 && g.t.N(8) > 0:
			// - key: value
			//   key: value
			g.b.WriteString(" ")
			pad := 2
			if g.t.N(4) == 0 {
				g.b.WriteString("  ")
				pad = 4
			}
			for i, w := range v.vals {
				if i > 0 {
					g.remark(ind + pad)
					g.indent(ind + pad)
				}
				g.member(v.keys[i], w, ind+pad)
			}
		case v.k == 'o' && len(v.vals) > 0 && g.t.N(2) == 0:
			g.b.WriteString("\n")
			g.block(v, ind+1+g.t.N(4))
		default:
			g.b.WriteString(" ")
			g.value(v, ind)
		}
	}
}

func (g *jsonGen) member(key string, v *jn, ind int) {
	g.b.WriteString(g.key(key) + ":")
	switch {
	case v.k == 'o' && len(v.vals) > 0 && g.t.N(8) > 0:
		g.endLine()
		g.block(v, ind+1+g.t.N(4))
	case v.k == 'a' && len(v.vals) > 0 && g.t.N(6) > 0:
		g.endLine()
		g.block(v, ind+2*g.t.N(3))
	default:
		g.b.WriteString(" ")
		g.value(v, ind)
	}
}

// value writes a value on the current line and ends the line.
func (g *jsonGen) value(v *jn, ind int) {
	switch v.k {
	case 'o', 'a':
		g.flow(v, ind+1)
		g.endLine()
	case 's':
		g.scalar(v.s, ind, false)
	default:
		g.b.WriteString(g.leaf(v))
		g.endLine()
	}
}

func (g *jsonGen) leaf(v *jn) string {
	switch v.k {
	case '0':
		return []string{"null", "~", "Null", "NULL"}[g.t.N(4)]
	case 'b':
		if g.t.N(3) == 0 {
			return strings.ToUpper(v.s[:1]) + v.s[1:]
		}
	}
	return v.s
}

func (g *jsonGen) flow(n *jn, ind int) {
	br := func() {
		if g.ws >= 2 && g.t.N(4) == 0 {
			g.b.WriteString("\n")
			g.indent(ind + 1)
		} else if g.t.N(2) == 0 {
			g.b.WriteString(" ")
		}
	}
	switch n.k {
	case 'o', 'a':
		g.saw("flow style")
		open, end := "{", "}"
		if n.k == 'a' {
			open, end = "[", "]"
		}
		g.b.WriteString(open)
		for i, v := range n.vals {
			br()
			if n.k == 'o' {
				g.b.WriteString(g.key(n.keys[i]) + ": ")
			}
			g.flow(v, ind)
			if i < len(n.vals)-1 || g.t.N(6) == 0 {
				g.b.WriteString(",")
			}
		}
		br()
		g.b.WriteString(end)
	case 's':
		g.scalar(n.s, ind, true)
	default:
		g.b.WriteString(g.leaf(n))
	}
}

// raw says whether r may stand for itself in a quoted scalar or a block.
func yamlRaw(r rune) bool {
	return r >= 0x20 && r < 0x7f || r >= 0xa1 && r < 0x2000 || r >= 0x2030 && r <= 0xd7ff || r >= 0xe000 && r < 0xfdd0 || r > 0xffff && r < 0x10ffff
}

func (g *jsonGen) scalar(s string, ind int, inFlow bool) {
	end := func() {
		if !inFlow {
			g.endLine()
		}
	}
	if len(s) > 3 && len(s) < 300 && g.ws > 0 {
		if k, ok := g.anchor[s]; ok && g.t.N(3) > 0 {
			g.saw("alias")
			fmt.Fprintf(&g.b, "*a%d ", k)
			end()
			return
		}
		if g.t.N(12) == 0 {
			k := len(g.anchor)
			if _, ok := g.anchor[s]; !ok {
				g.anchor[s] = k
				fmt.Fprintf(&g.b, "&a%d ", k)
			}
		}
	}
	plain := yamlPlain.MatchString(s) && !yamlReserved[strings.ToLower(s)] && !strings.Contains(s, ": ") && !strings.Contains(s, " #") && !strings.HasSuffix(s, ":")
	if inFlow && strings.ContainsAny(s, ",:?") {
		plain = false
	}
	if !inFlow && yamlDate.MatchString(s) {
		plain = true
	}
	one, lines := true, !inFlow && s != "" // raw on one line; raw on several
	for _, r := range s {
		if r == '\n' {
			one = false
		} else if !yamlRaw(r) {
			one = false
			if r != '\t' {
				lines = false
			}
		}
	}
	pick := g.t.N(10)
	switch {
	case plain && pick < 6:
		g.saw("plain scalar")
		g.b.WriteString(s)
		end()
	case one && pick < 8:
		g.saw("single-quoted scalar")
		g.b.WriteString("'" + strings.ReplaceAll(s, "'", "''") + "'")
		end()
	case lines && (pick == 8 || !one && pick > 3) && g.literal(s, ind):
	default:
		g.double(s, ind)
		end()
	}
}

// literal writes a block scalar.
func (g *jsonGen) literal(s string, ind int) bool {
	body := strings.TrimRight(s, "\n")
	if body == "" || strings.TrimSpace(strings.SplitN(body, "\n", 2)[0]) == "" {
		return false
	}
	for _, l := range strings.Split(body, "\n") {
		if l != "" && strings.TrimSpace(l) == "" {
			return false
		}
	}
	head := "|"
	words := false
	if !strings.ContainsAny(s, "\n\t") && strings.Contains(s, " ") && !strings.Contains(s, "  ") && s == strings.TrimSpace(s) && g.t.N(2) == 0 {
		head = ">"
		words = true
	}
	step := 1 + g.t.N(4)
	if body[0] == ' ' || body[0] == '\t' {
		head += fmt.Sprint(step)
	}
	switch len(s) - len(body) {
	case 0:
		head += "-"
	case 1:
	default:
		head += "+"
	}
	g.kept = strings.HasSuffix(head, "+")
	g.saw("block scalar")
	g.b.WriteString(head + "\n")
	if words {
		g.indent(ind + step)
		for i, w := range strings.Split(body, " ") {
			if i > 0 {
				if g.t.N(3) == 0 {
					g.b.WriteString("\n")
					g.indent(ind + step)
				} else {
					g.b.WriteString(" ")
				}
			}
			g.b.WriteString(w)
		}
		g.b.WriteString("\n")
		return true
	}
	for _, l := range strings.Split(body, "\n") {
		if l != "" {
			g.indent(ind + step)
		}
		g.b.WriteString(l + "\n")
	}
	for i := 1; i < len(s)-len(body); i++ {
		g.b.WriteString("\n")
	}
	return true
}

func (g *jsonGen) double(s string, ind int) {
	b := &g.b
	b.WriteByte('"')
	long := len(s) > 2000
	for i, r := range s {
		if i > 0 && !long && g.ws == 4 && g.t.N(25) == 0 && r != ' ' && r != '\t' && yamlRaw(r) {
			g.saw("folded double-quoted scalar")
			b.WriteString("\\\n")
			g.indent(ind + 1 + g.t.N(3))
		}
		esc := func() {
			switch {
			case r < 0x100 && g.esc < 2:
				fmt.Fprintf(b, `\x%02x`, r)
			case r < 0x10000:
				fmt.Fprintf(b, `\u%04X`, r)
			default:
				fmt.Fprintf(b, `\U%08x`, r)
			}
		}
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\n': `\n`, '\r': `\r`, '\t': `\t`, 0x85: `\N`, 0xa0: `\_`, 0x2028: `\L`, 0x2029: `\P`, 0x1b: `\e`, 0: `\0`, 7: `\a`}[r]
		switch {
		case short != "" && (long || g.t.N(3) > 0):
			b.WriteString(short)
		case short != "" || !yamlRaw(r):
			esc()
		case g.esc == 3 && !long && g.t.N(4) == 0:
			esc()
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}
