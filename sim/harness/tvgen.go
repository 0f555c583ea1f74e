package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"

	"vsimrt"
)

// tvGen writes a document down as tag-value text, in one of the many ways there
// are to state the same thing.
type tvGen struct {
	t     *vsimrt.Tape
	ver   string
	want  any
	order int // 0 as in the specification, 1 reversed, 2 shuffled
	ws    int
	texts int // how free texts are delimited
	empty bool
	note  []string
	b     strings.Builder
	// relationships and annotations still to be written, and those written
	rels, anns       []reflect.Value
	doneRel, doneAnn []reflect.Value
}

// item is one or more tags that belong together in this order.
type item []string

// tvStated makes a document and its text.
func tvStated(t *vsimrt.Tape, ver string) ([]byte, *tvGen) {
	gen := newGen(t, profTV)
	gen.odd = t.N(4) == 0
	return tvStatedOf(t, gen.Doc(ver), ver)
}

// tvStatedOf states a document; want is then in the order of the statement.
func tvStatedOf(t *vsimrt.Tape, doc any, ver string) ([]byte, *tvGen) {
	g := &tvGen{t: t, ver: ver, want: doc}
	g.order = t.N(3)
	g.ws = t.N(5)
	g.texts = t.N(3)
	g.empty = t.N(4) == 0
	d := reflect.ValueOf(doc)
	g.rels = elemsOf(fld(d, "Relationships"))
	g.anns = elemsOf(fld(d, "Annotations"))
	g.document(d)
	putElems(fld(d, "Relationships"), g.doneRel)
	putElems(fld(d, "Annotations"), g.doneAnn)
	s := g.b.String()
	if t.N(4) == 0 {
		g.saw("CRLF")
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if t.N(4) == 0 {
		g.saw("no line break at the end")
		s = strings.TrimRight(s, "\r\n")
	}
	return []byte(s), g
}

func elemsOf(f reflect.Value) []reflect.Value {
	var l []reflect.Value
	for i := 0; i < f.Len(); i++ {
		l = append(l, f.Index(i))
	}
	return l
}

func putElems(f reflect.Value, l []reflect.Value) {
	n := reflect.MakeSlice(f.Type(), 0, len(l))
	for _, e := range l {
		n = reflect.Append(n, e)
	}
	f.Set(n)
}

func (g *tvGen) saw(s string) {
	for _, x := range g.note {
		if x == s {
			return
		}
	}
	g.note = append(g.note, s)
}

// ---------------------------------------------------------------- lines

func (g *tvGen) remark() {
	if g.ws == 0 {
		return
	}
	if g.t.N(10) == 0 {
		g.saw("comment or blank line")
		g.b.WriteString([]string{"\n", "# comment\n", "#PackageName: not a tag\n", "   \n", "  # <text>\n", "##### Section\n\n", "#\n"}[g.t.N(7)])
	}
}

// tag is a line with a one-line value.
func (g *tvGen) tag(name, value string) string {
	sep := " "
	lead, trail := "", ""
	if g.ws > 1 && g.t.N(6) == 0 {
		g.saw("odd white space")
		sep = []string{"", "  ", "\t", " \t "}[g.t.N(4)]
		lead = []string{"", " ", "\t", "    "}[g.t.N(4)]
		trail = []string{"", " ", "\t", "  "}[g.t.N(4)]
	}
	return lead + name + ":" + sep + value + trail + "\n"
}

// text is a line, or several, with a free text.
func (g *tvGen) text(name, value string) string {
	plain := value != "" && value == strings.TrimSpace(value) && !strings.Contains(value, "\n") && !strings.Contains(value, "<text>")
	switch {
	case plain && (g.texts == 0 || g.texts == 1 && g.t.N(2) == 0):
		return g.tag(name, value)
	case value == "" && g.t.N(2) == 0:
		return g.tag(name, "")
	}
	g.saw("<text>")
	tail := ""
	if g.ws > 1 && g.t.N(8) == 0 {
		tail = []string{" ", "\t", "  "}[g.t.N(3)]
	}
	return name + ":" + []string{" ", "", "  "}[g.t.N(3)] + "<text>" + value + "</text>" + tail + "\n"
}

// opt are the items for the string field name of v.
func (g *tvGen) opt(v reflect.Value, field, tag string, free bool) []item {
	f := fld(v, field)
	if !f.IsValid() {
		return nil
	}
	s := f.String()
	if s == "" {
		if g.empty && g.t.N(6) == 0 {
			g.saw("empty value")
			return []item{{g.text(tag, "")}}
		}
		return nil
	}
	return []item{{g.val(tag, s, free)}}
}

func (g *tvGen) val(tag, s string, free bool) string {
	if free || s != strings.TrimSpace(s) || strings.Contains(s, "\n") {
		return g.text(tag, s)
	}
	return g.tag(tag, s)
}

// list makes a group of items that must keep their order; they may be parted.
func (g *tvGen) list(v reflect.Value, field, tag string, free bool) [][]item {
	f := fld(v, field)
	if !f.IsValid() || f.Len() == 0 {
		return nil
	}
	var l []item
	for i := 0; i < f.Len(); i++ {
		l = append(l, item{g.val(tag, f.Index(i).String(), free)})
	}
	return [][]item{l}
}

func (g *tvGen) sums(v reflect.Value, field, tag string) [][]item {
	var l []item
	for _, c := range fld(v, field).Interface().([]common.Checksum) {
		l = append(l, item{g.tag(tag, string(c.Algorithm)+g.colon()+c.Value)})
	}
	if l == nil {
		return nil
	}
	return [][]item{l}
}

func (g *tvGen) colon() string {
	if g.ws > 1 && g.t.N(6) == 0 {
		return []string{":", ":  "}[g.t.N(2)]
	}
	return ": "
}

func (g *tvGen) blank() string {
	if g.ws > 1 && g.t.N(6) == 0 {
		return "  "
	}
	return " "
}

// emit writes groups of items: the items of one group in their order, the
// groups in any order, parted or not; relationships and annotations in between.
func (g *tvGen) emit(groups [][]item, between bool) {
	var gs [][]item
	for _, x := range groups {
		if len(x) > 0 {
			gs = append(gs, x)
		}
	}
	switch g.order {
	case 1:
		for i, j := 0, len(gs)-1; i < j; i, j = i+1, j-1 {
			gs[i], gs[j] = gs[j], gs[i]
		}
	case 2:
		for i := len(gs) - 1; i > 0; i-- {
			j := g.t.N(i + 1)
			gs[i], gs[j] = gs[j], gs[i]
		}
	}
	for len(gs) > 0 {
		k := 0
		if g.order == 2 && g.t.N(3) == 0 {
			k = g.t.N(len(gs))
		}
		for _, s := range gs[k][0] {
			g.remark()
			g.b.WriteString(s)
		}
		gs[k] = gs[k][1:]
		if len(gs[k]) == 0 {
			gs = append(gs[:k:k], gs[k+1:]...)
		}
		if between && g.t.N(8) == 0 {
			g.attached()
		}
	}
	if between {
		for g.t.N(3) == 0 && g.attached() {
		}
	}
}

// attached writes one of the relationships or annotations that are left.
func (g *tvGen) attached() bool {
	nr, na := len(g.rels), len(g.anns)
	if nr+na == 0 {
		return false
	}
	if k := g.t.N(nr + na); k < nr {
		r := g.rels[0]
		g.rels = g.rels[1:]
		g.doneRel = append(g.doneRel, r)
		g.remark()
		a, b := fld(r, "RefA").Interface().(common.DocElementID), fld(r, "RefB").Interface().(common.DocElementID)
		g.b.WriteString(g.tag("Relationship", refText(a)+g.blank()+fld(r, "Relationship").String()+g.blank()+refText(b)))
		if c := fld(r, "RelationshipComment").String(); c != "" {
			g.remark()
			g.b.WriteString(g.text("RelationshipComment", c))
		}
		return true
	}
	a := g.anns[0]
	g.anns = g.anns[1:]
	g.doneAnn = append(g.doneAnn, a)
	who := fld(a, "Annotator").Interface().(common.Annotator)
	g.remark()
	g.b.WriteString(g.tag("Annotator", who.AnnotatorType+g.colon()+who.Annotator))
	g.emit([][]item{
		{{g.tag("AnnotationDate", fld(a, "AnnotationDate").String())}},
		{{g.tag("AnnotationType", fld(a, "AnnotationType").String())}},
		{{g.tag("SPDXREF", refText(fld(a, "AnnotationSPDXIdentifier").Interface().(common.DocElementID)))}},
		{{g.text("AnnotationComment", fld(a, "AnnotationComment").String())}},
	}, false)
	return true
}

// ---------------------------------------------------------------- sections

func (g *tvGen) document(d reflect.Value) {
	var ext []item
	for _, e := range elemsOf(fld(d, "ExternalDocumentReferences")) {
		c := fld(e, "Checksum").Interface().(common.Checksum)
		ext = append(ext, item{g.tag("ExternalDocumentRef", "DocumentRef-"+fld(e, "DocumentRefID").String()+g.blank()+fld(e, "URI").String()+g.blank()+string(c.Algorithm)+":"+[]string{" ", ""}[g.t.N(2)]+c.Value)})
	}
	groups := [][]item{
		{{g.tag("SPDXVersion", fld(d, "SPDXVersion").String())}},
		{{g.tag("DataLicense", fld(d, "DataLicense").String())}},
		{{g.tag("SPDXID", "SPDXRef-"+fld(d, "SPDXIdentifier").String())}},
		{{g.val("DocumentName", fld(d, "DocumentName").String(), false)}},
		{{g.tag("DocumentNamespace", fld(d, "DocumentNamespace").String())}},
		ext,
		g.opt(d, "DocumentComment", "DocumentComment", true),
	}
	g.emit(groups, false)
	ci := fld(d, "CreationInfo")
	var cs []item
	for _, c := range fld(ci, "Creators").Interface().([]common.Creator) {
		cs = append(cs, item{g.tag("Creator", c.CreatorType+g.colon()+c.Creator)})
	}
	g.emit([][]item{
		g.opt(ci, "LicenseListVersion", "LicenseListVersion", false),
		cs,
		{{g.tag("Created", fld(ci, "Created").String())}},
		g.opt(ci, "CreatorComment", "CreatorComment", true),
	}, true)
	for _, f := range elemsOf(fld(d, "Files")) {
		g.file(f)
	}
	for _, p := range elemsOf(fld(d, "Packages")) {
		g.pkg(p)
		for _, f := range elemsOf(fld(p, "Files")) {
			g.file(f)
		}
	}
	for _, o := range elemsOf(fld(d, "OtherLicenses")) {
		g.b.WriteString(g.tag("LicenseID", fld(o, "LicenseIdentifier").String()))
		gs := [][]item{
			{{g.text("ExtractedText", fld(o, "ExtractedText").String())}},
			g.opt(o, "LicenseName", "LicenseName", false),
			g.opt(o, "LicenseComment", "LicenseComment", true),
		}
		g.emit(append(gs, g.list(o, "LicenseCrossReferences", "LicenseCrossReference", false)...), true)
	}
	for g.t.N(2) == 0 && g.attached() {
	}
	for _, r := range elemsOf(fld(d, "Reviews")) {
		g.remark()
		g.b.WriteString(g.tag("Reviewer", fld(r, "ReviewerType").String()+g.colon()+fld(r, "Reviewer").String()))
		g.emit([][]item{g.opt(r, "ReviewDate", "ReviewDate", false), g.opt(r, "ReviewComment", "ReviewComment", true)}, true)
	}
	for g.attached() {
	}
}

func (g *tvGen) pkg(p reflect.Value) {
	g.remark()
	g.b.WriteString(g.val("PackageName", fld(p, "PackageName").String(), false))
	gs := [][]item{
		{{g.tag("SPDXID", "SPDXRef-"+fld(p, "PackageSPDXIdentifier").String())}},
		g.opt(p, "PackageVersion", "PackageVersion", false),
		g.opt(p, "PackageFileName", "PackageFileName", false),
		{{g.val("PackageDownloadLocation", fld(p, "PackageDownloadLocation").String(), false)}},
		g.opt(p, "PackageHomePage", "PackageHomePage", false),
		g.opt(p, "PackageSourceInfo", "PackageSourceInfo", true),
		g.opt(p, "PackageLicenseConcluded", "PackageLicenseConcluded", false),
		g.opt(p, "PackageLicenseDeclared", "PackageLicenseDeclared", false),
		g.opt(p, "PackageLicenseComments", "PackageLicenseComments", true),
		g.opt(p, "PackageCopyrightText", "PackageCopyrightText", true),
		g.opt(p, "PackageSummary", "PackageSummary", true),
		g.opt(p, "PackageDescription", "PackageDescription", true),
		g.opt(p, "PackageComment", "PackageComment", true),
		g.opt(p, "PrimaryPackagePurpose", "PrimaryPackagePurpose", false),
		g.opt(p, "ReleaseDate", "ReleaseDate", false),
		g.opt(p, "BuiltDate", "BuiltDate", false),
		g.opt(p, "ValidUntilDate", "ValidUntilDate", false),
	}
	gs = append(gs, g.sums(p, "PackageChecksums", "PackageChecksum")...)
	gs = append(gs, g.list(p, "PackageLicenseInfoFromFiles", "PackageLicenseInfoFromFiles", false)...)
	gs = append(gs, g.list(p, "PackageAttributionTexts", "PackageAttributionText", true)...)
	if s, ok := fld(p, "PackageSupplier").Interface().(*common.Supplier); ok && s != nil {
		gs = append(gs, []item{{g.tag("PackageSupplier", g.agent(s.SupplierType, s.Supplier))}})
	}
	if s, ok := fld(p, "PackageOriginator").Interface().(*common.Originator); ok && s != nil {
		gs = append(gs, []item{{g.tag("PackageOriginator", g.agent(s.OriginatorType, s.Originator))}})
	}
	fa := fld(p, "FilesAnalyzed").Bool()
	stated := !fa || g.t.N(2) == 0
	set(p, "IsFilesAnalyzedTagPresent", stated)
	if stated {
		gs = append(gs, []item{{g.tag("FilesAnalyzed", fmt.Sprint(fa))}})
	}
	if c := reflect.Indirect(fld(p, "PackageVerificationCode")); c.IsValid() && c.Field(0).Len() > 0 {
		v := c.Interface().(common.PackageVerificationCode)
		s := v.Value
		if len(v.ExcludedFiles) > 0 {
			s += g.blank() + "(excludes:" + []string{" ", " ", ""}[g.t.N(3)] + strings.Join(v.ExcludedFiles, ", ") + ")"
		}
		gs = append(gs, []item{{g.tag("PackageVerificationCode", s)}})
	}
	var refs []item
	for _, e := range elemsOf(fld(p, "PackageExternalReferences")) {
		it := item{g.tag("ExternalRef", fld(e, "Category").String()+g.blank()+fld(e, "RefType").String()+g.blank()+fld(e, "Locator").String())}
		if c := fld(e, "ExternalRefComment").String(); c != "" {
			it = append(it, g.text("ExternalRefComment", c))
		}
		refs = append(refs, it)
	}
	g.emit(append(gs, refs), true)
}

func (g *tvGen) agent(kind, name string) string {
	if kind == "" {
		return name
	}
	return kind + g.colon() + name
}

func (g *tvGen) file(f reflect.Value) {
	g.remark()
	g.b.WriteString(g.val("FileName", fld(f, "FileName").String(), false))
	gs := [][]item{
		{{g.tag("SPDXID", "SPDXRef-"+fld(f, "FileSPDXIdentifier").String())}},
		g.opt(f, "LicenseConcluded", "LicenseConcluded", false),
		g.opt(f, "LicenseComments", "LicenseComments", true),
		g.opt(f, "FileCopyrightText", "FileCopyrightText", true),
		g.opt(f, "FileComment", "FileComment", true),
		g.opt(f, "FileNotice", "FileNotice", true),
	}
	gs = append(gs, g.sums(f, "Checksums", "FileChecksum")...)
	gs = append(gs, g.list(f, "FileTypes", "FileType", false)...)
	gs = append(gs, g.list(f, "LicenseInfoInFiles", "LicenseInfoInFile", false)...)
	gs = append(gs, g.list(f, "FileContributors", "FileContributor", false)...)
	gs = append(gs, g.list(f, "FileDependencies", "FileDependency", false)...)
	gs = append(gs, g.list(f, "FileAttributionTexts", "FileAttributionText", true)...)
	var aop []item
	for _, a := range elemsOf(fld(f, "ArtifactOfProjects")) {
		it := item{g.val("ArtifactOfProjectName", fld(a, "Name").String(), false)}
		home := fld(a, "HomePage").String()
		if home != "" {
			it = append(it, g.val("ArtifactOfProjectHomePage", home, false))
		}
		if u := fld(a, "URI").String(); u != "" {
			s := g.val("ArtifactOfProjectURI", u, false)
			if home != "" && g.t.N(3) == 0 {
				it = item{it[0], s, it[1]}
			} else {
				it = append(it, s)
			}
		}
		aop = append(aop, it)
	}
	g.emit(append(gs, aop), true)
	m := fld(f, "Snippets")
	var ids []string
	for _, k := range m.MapKeys() {
		ids = append(ids, k.String())
	}
	sort.Strings(ids)
	if g.order > 0 {
		for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	for _, id := range ids {
		g.snippet(m.MapIndex(reflect.ValueOf(common.ElementID(id))))
	}
}

func (g *tvGen) snippet(s reflect.Value) {
	g.remark()
	g.b.WriteString(g.tag("SnippetSPDXID", "SPDXRef-"+fld(s, "SnippetSPDXIdentifier").String()))
	var rs []item
	for _, r := range fld(s, "Ranges").Interface().([]common.SnippetRange) {
		if r.StartPointer.LineNumber > 0 {
			rs = append(rs, item{g.tag("SnippetLineRange", fmt.Sprintf("%d:%d", r.StartPointer.LineNumber, r.EndPointer.LineNumber))})
		} else {
			rs = append(rs, item{g.tag("SnippetByteRange", fmt.Sprintf("%d:%d", r.StartPointer.Offset, r.EndPointer.Offset))})
		}
	}
	gs := [][]item{
		{{g.tag("SnippetFromFileSPDXID", "SPDXRef-"+fld(s, "SnippetFromFileSPDXIdentifier").String())}},
		rs,
		g.opt(s, "SnippetLicenseConcluded", "SnippetLicenseConcluded", false),
		g.opt(s, "SnippetLicenseComments", "SnippetLicenseComments", true),
		g.opt(s, "SnippetCopyrightText", "SnippetCopyrightText", true),
		g.opt(s, "SnippetComment", "SnippetComment", true),
		g.opt(s, "SnippetName", "SnippetName", false),
	}
	gs = append(gs, g.list(s, "LicenseInfoInSnippet", "LicenseInfoInSnippet", false)...)
	gs = append(gs, g.list(s, "SnippetAttributionTexts", "SnippetAttributionText", true)...)
	g.emit(gs, true)
}
