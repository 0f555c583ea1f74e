package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"

	"vsimrt"
)

// profile selects what a generated document may contain.
type profile int

const (
	profJSON profile = iota // anything JSON / YAML can carry
	profTV                  // what the tag-value syntax can express
)

// Gen makes valid documents from a choice stream.
type Gen struct {
	t    *vsimrt.Tape
	prof profile
	ver  string // "v2_1" ...
	big  bool   // a few more and longer elements
	tame bool   // plain text only
	nel  bool   // texts may contain U+0085 (lost by the YAML library: known finding)
	n    int    // identifiers handed out
	ids  []string
	docs []string
	same bool     // values tend to repeat
	many bool     // some lists are long
	huge int      // one list is still to be this long
	thin bool     // because of a very long list, all others are short
	odd  bool     // tag-value text that need not be writable again
	past []string // values made so far
	sums []common.Checksum
	day  string // a date that several fields have
}

func newGen(t *vsimrt.Tape, prof profile) *Gen {
	g := &Gen{t: t, prof: prof}
	g.big = t.Chance(1, 6)
	g.tame = t.Chance(1, 4)
	g.nel = true
	g.same = t.Chance(1, 3)
	g.many = t.Chance(1, 10)
	if t.Chance(1, 300) {
		g.huge = hugeSizes[t.N(len(hugeSizes))]
		g.big, g.many = false, false
	}
	return g
}

// free: the document need not survive a tag-value writer.
func (g *Gen) free() bool { return g.prof == profJSON || g.odd }

var versions = []string{"v2_3", "v2_2", "v2_1"}

func newDoc(ver string) any {
	switch ver {
	case "v2_1":
		return &v2_1.Document{}
	case "v2_2":
		return &v2_2.Document{}
	}
	return &v2_3.Document{}
}

func specVersion(ver string) string {
	switch ver {
	case "v2_1":
		return v2_1.Version
	case "v2_2":
		return v2_2.Version
	}
	return v2_3.Version
}

// short, nasty pieces of text
var pieces = []string{
	"plain text", "a", "Hello World", `say "hi"`, `C:\dir\new`, `"`, `\`, `\"`, `ends with \`, `ends with "`, `"quoted"`,
	"tab\there", "é", "日本語", "😀", "\u2028", "<b>&amp;</b>", "%s %d %!", "a: b", "- item", "#comment", "null", "true", "~", "1e3", "0x1F",
	"2020-01-01", "NOASSERTION", "NONE", "'", "{", "[a]", "* x", "&a", "!t", "|", ">", "@", "`", "\u0085", "\u00a0", "a\u0001b", "\x7f",
	"SPDXRef-x", "DocumentRef-x:SPDXRef-y", "LicenseRef-1", "key: value: more", "x (excludes: y)", "//", "/* c */", "\ufeff", "\\u0041", "\\n",
	"0", "-", ":", "::", "a:b", "Person: x", "yes", "off", "1_000", ".5", "=", "? q", "%YAML", "---", "...", "<", "</", "text>", "<text>", "a,b", ", ", "\ufffd", "\U0010ffff",
	"SPDX-License-Identifier: MIT", "+", "1:2", "(a OR b)",
}

var lineTails = []string{"", "\n", "\n\n", "\nsecond line", "\n  indented", "\r\nwindows", "\ttab", " "}

// lines of a text that look like parts of a document
var lookalikes = []string{"", "", "# comment", "##### Section", "#", "PackageName: other", "SPDXID: SPDXRef-DOCUMENT", "SPDXVersion: SPDX-2.1", "Relationship: SPDXRef-a DESCRIBES SPDXRef-b",
	"FileName: ./x", "LicenseID: LicenseRef-1", "---", "...", "- item", "  indented", "\ttabbed", "{", "}", "]", "key: value", "? a", "trailing ", "<text", "</tex", "%TAG !", "\"", "\\", "name: |", "- - x", "\"SPDXID\": \"x\",", "<!-- -->", "]]>", " "}

// paragraph is a text of several such lines.
func (g *Gen) paragraph() string {
	var l []string
	for n := 2 + g.t.N(7); n > 0; n-- {
		s := lookalikes[g.t.N(len(lookalikes))]
		if g.t.N(3) == 0 {
			s += g.fresh()
		}
		l = append(l, s)
	}
	return strings.Join(l, "\n")
}

func (g *Gen) raw() string {
	if g.same && len(g.past) > 0 && g.t.Chance(1, 3) {
		return g.past[g.t.N(len(g.past))]
	}
	s := g.fresh()
	g.keep(s)
	return s
}

// keep remembers a value for other fields to have too.
func (g *Gen) keep(s string) {
	if !g.same {
		return
	}
	if len(g.past) < 8 {
		g.past = append(g.past, s)
	} else if g.t.N(3) == 0 {
		g.past[g.t.N(len(g.past))] = s
	}
}

// sizes of long texts; some are just above those of usual buffers
var longSizes = []int{70000, 5000, 33000, 140000, 1100000}

func (g *Gen) fresh() string {
	if g.tame {
		return fmt.Sprintf("text %d", g.t.N(50))
	}
	n := 1 + g.t.N(3)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pieces[g.t.N(len(pieces))])
		if g.t.Chance(1, 4) {
			b.WriteByte(' ')
		}
	}
	if !g.nel {
		return strings.ReplaceAll(b.String(), "\u0085", "\u0086")
	}
	return b.String()
}

// text is a free, possibly multi-line text; never empty.
func (g *Gen) text() string {
	s := g.raw()
	if !g.tame {
		if g.t.Chance(1, 10) {
			s = g.paragraph()
		}
		if g.t.Chance(1, 3) {
			s = s + lineTails[g.t.N(len(lineTails))] + g.raw()
		}
		if g.t.Chance(1, 8) {
			s = lineTails[g.t.N(len(lineTails))] + s
		}
		if g.t.Chance(1, 8) {
			s = s + lineTails[g.t.N(len(lineTails))]
		}
		if g.t.Chance(1, 250) {
			s = strings.ReplaceAll(s, "\n", " ")
			n := longSizes[g.t.N(len(longSizes))]
			if n > 200000 && g.t.N(6) > 0 {
				n = 5000
			}
			s = s + strings.Repeat(s+" ", 1+n/len(s+" "))
		}
	}
	if g.prof == profTV {
		s = strings.ReplaceAll(s, "\r\n", "\n")
		s = strings.ReplaceAll(s, "\r", "")
		for strings.Contains(s, "</text>") {
			s = strings.ReplaceAll(s, "</text>", "")
		}
	}
	if s == "" {
		s = "x"
	}
	return s
}

// noTextTag removes the text delimiters of the tag-value syntax.
func noTextTag(s string) string {
	for strings.Contains(s, "text>") {
		s = strings.ReplaceAll(s, "text>", "")
	}
	return s
}

// line is a one-line value without surrounding white space; never empty.
func (g *Gen) line() string {
	s := g.raw()
	if g.prof == profTV {
		s = strings.Map(func(r rune) rune {
			if r == '\n' || r == '\r' {
				return ' '
			}
			return r
		}, s)
		s = strings.TrimFunc(noTextTag(s), unicode.IsSpace)
	} else if g.t.Chance(1, 10) && !g.tame {
		s += "\nmore"
	}
	if g.t.Chance(1, 100) && !g.tame {
		s += strings.Repeat("y", 66000)
	}
	if strings.TrimSpace(s) == "" {
		s = "x"
	}
	return s
}

// name is a line that survives trimming (names of people and tools).
func (g *Gen) name() string {
	s := strings.TrimFunc(g.line(), unicode.IsSpace)
	if s == "" || s == "NOASSERTION" {
		s = "x"
	}
	return s
}

// word has no white space.
func (g *Gen) word() string {
	s := strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) || r == '\ufeff' {
			return -1
		}
		return r
	}, g.line())
	if s == "" {
		s = "w"
	}
	return s
}

var idChars = []string{"a", "Z", "0", "-", ".", "File", "Package", "SPDXRef", "DOCUMENT", "x-1", "x-SPDXRef-", "DocumentRef-"}

func (g *Gen) id() string {
	g.n++
	s := fmt.Sprintf("%s%d", idChars[g.t.N(len(idChars))], g.n)
	if strings.HasPrefix(s, "SPDXRef-") {
		s = "i" + s
	}
	g.ids = append(g.ids, s)
	g.keep(s)
	return s
}

func (g *Gen) someID() string {
	if len(g.ids) == 0 || g.t.Chance(1, 8) {
		return "DOCUMENT"
	}
	return g.ids[g.t.N(len(g.ids))]
}

func (g *Gen) opt() bool { return g.t.N(5) >= 2 }

// lengths at which buffers, tables and limits of programs tend to end
var hugeSizes = []int{64, 65, 100, 101, 128, 129, 255, 256, 257, 300, 513}

func (g *Gen) count(max int) int {
	if g.thin {
		if g.t.Chance(1, 40) {
			return 1
		}
		return 0
	}
	if g.huge > 0 && g.t.Chance(1, 7) {
		n := g.huge
		g.huge, g.thin = 0, true
		return n
	}
	if g.big {
		max *= 2
	}
	if g.many && g.t.Chance(1, 14) {
		return 10 + g.t.N(20)
	}
	return g.t.N(max + 1)
}

func (g *Gen) lines(max int) []string {
	n := g.count(max)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, g.line())
	}
	return r
}

func (g *Gen) texts(max int) []string {
	n := g.count(max)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, g.text())
	}
	return r
}

var licences = []string{"MIT", "Apache-2.0", "GPL-2.0-only", "LicenseRef-1", "NOASSERTION", "NONE", "(MIT OR Apache-2.0)", "GPL-2.0-or-later WITH Classpath-exception-2.0", "MIT AND BSD-3-Clause", "Apache-2.0+", "DocumentRef-x:LicenseRef-2"}

func (g *Gen) licence() string {
	if g.same && g.t.N(3) > 0 {
		return licences[g.t.N(2)]
	}
	return licences[g.t.N(len(licences))]
}

func (g *Gen) licences(max int) []string {
	var r []string
	for i := g.count(max); i > 0; i-- {
		r = append(r, g.licence())
	}
	return r
}

var algos = []common.ChecksumAlgorithm{common.SHA1, common.SHA256, common.MD5, common.SHA224, common.SHA384, common.SHA512, common.MD2, common.MD4, common.MD6,
	common.SHA3_256, common.SHA3_384, common.SHA3_512, common.BLAKE2b_256, common.BLAKE2b_384, common.BLAKE2b_512, common.BLAKE3, common.ADLER32}

func (g *Gen) hex(n int) string {
	const d = "0123456789abcdef"
	b := make([]byte, n)
	x := uint64(g.t.U32()) | 1
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = d[x>>60]
	}
	return string(b)
}

func (g *Gen) checksum() common.Checksum {
	if g.same && len(g.sums) > 0 && g.t.Chance(1, 4) {
		return g.sums[g.t.N(len(g.sums))]
	}
	k := len(algos)
	switch g.ver {
	case "v2_1":
		k = 3
	case "v2_2":
		k = 9
	}
	c := common.Checksum{Algorithm: algos[g.t.N(k)], Value: g.hex(8 + g.t.N(60))}
	if g.t.N(6) == 0 {
		c.Value = strings.ToUpper(c.Value)
	}
	if g.same && len(g.sums) < 5 {
		g.sums = append(g.sums, c)
		g.keep(c.Value)
	}
	return c
}

func (g *Gen) checksums(max int) []common.Checksum {
	var r []common.Checksum
	for i := g.count(max); i > 0; i-- {
		c := g.checksum()
		if g.same && len(r) > 0 && g.t.Chance(1, 3) {
			if g.t.N(2) == 0 {
				c.Value = r[len(r)-1].Value
			}
			c.Algorithm = r[len(r)-1].Algorithm
		}
		r = append(r, c)
	}
	return r
}

func (g *Gen) date() string {
	if g.same && g.day != "" && g.t.N(2) == 0 {
		return g.day
	}
	g.day = g.someDate()
	return g.day
}

func (g *Gen) someDate() string {
	return fmt.Sprintf("20%02d-%02d-%02dT%02d:%02d:%02dZ", g.t.N(100), 1+g.t.N(12), 1+g.t.N(28), g.t.N(24), g.t.N(60), g.t.N(60))
}

var personTypes = []string{"Person", "Organization", "Tool"}

func (g *Gen) docElementID() common.DocElementID {
	d := common.DocElementID{ElementRefID: common.ElementID(g.someID())}
	if g.t.Chance(1, 4) {
		d.DocumentRefID = common.DocumentID(g.docRef())
	}
	return d
}

func (g *Gen) docRef() string {
	if len(g.docs) > 0 {
		return g.docs[g.t.N(len(g.docs))]
	}
	return "ext-doc"
}

var relTypes = []string{"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "CONTAINED_BY", "DEPENDS_ON", "GENERATED_FROM", "OTHER", "STATIC_LINK", "VARIANT_OF", "DEPENDENCY_OF", "COPY_OF"}
var fileTypes = []string{"SOURCE", "BINARY", "ARCHIVE", "APPLICATION", "TEXT", "OTHER", "DOCUMENTATION", "SPDX"}

// ---- reflection helpers: the three document versions differ only in details

func fld(v reflect.Value, name string) reflect.Value {
	return reflect.Indirect(v).FieldByName(name)
}

func set(v reflect.Value, name string, val any) {
	f := fld(v, name)
	if !f.IsValid() {
		return
	}
	x := reflect.ValueOf(val)
	switch {
	case x.Type() == f.Type():
		f.Set(x)
	case f.Kind() == reflect.Pointer && x.Type() == f.Type().Elem():
		p := reflect.New(x.Type())
		p.Elem().Set(x)
		f.Set(p)
	case x.Kind() == reflect.Pointer && x.Type().Elem() == f.Type():
		f.Set(x.Elem())
	default:
		f.Set(x.Convert(f.Type()))
	}
}

// lists whose elements have no identifier of their own
var repeatable = map[string]bool{"Relationships": true, "Annotations": true, "Reviews": true, "PackageExternalReferences": true, "ArtifactOfProjects": true}

// elems appends n elements made by mk to a slice field (of structs or pointers).
func (g *Gen) elems(v reflect.Value, name string, n int, mk func(e reflect.Value)) {
	f := fld(v, name)
	if !f.IsValid() {
		return
	}
	et := f.Type().Elem()
	for i := 0; i < n; i++ {
		var p reflect.Value
		if et.Kind() == reflect.Pointer {
			p = reflect.New(et.Elem())
		} else {
			p = reflect.New(et)
		}
		mk(p)
		if g.same && i > 0 && f.Len() > 0 && repeatable[name] && g.t.Chance(1, 4) {
			// the previous one again, perhaps with one difference
			q := reflect.Indirect(f.Index(f.Len() - 1))
			c := deepCopyValue(q)
			if k := g.t.N(2 * c.NumField()); k < c.NumField() && c.Field(k).CanSet() {
				c.Field(k).Set(p.Elem().Field(k))
			}
			p = reflect.New(c.Type())
			p.Elem().Set(c)
		}
		if et.Kind() == reflect.Pointer {
			f.Set(reflect.Append(f, p))
		} else {
			f.Set(reflect.Append(f, p.Elem()))
		}
	}
}

// Doc makes a document of version ver.
func (g *Gen) Doc(ver string) any {
	g.ver = ver
	doc := newDoc(ver)
	d := reflect.ValueOf(doc)
	set(d, "SPDXVersion", specVersion(ver))
	set(d, "DataLicense", "CC0-1.0")
	set(d, "SPDXIdentifier", common.ElementID("DOCUMENT"))
	set(d, "DocumentName", g.line())
	set(d, "DocumentNamespace", "https://example.com/doc-"+g.hex(6))
	g.elems(d, "ExternalDocumentReferences", g.count(2), func(e reflect.Value) {
		g.n++
		id := fmt.Sprintf("ext.%d-doc", g.n)
		g.docs = append(g.docs, id)
		set(e, "DocumentRefID", common.DocumentID(id))
		set(e, "URI", "https://example.org/"+g.hex(5))
		set(e, "Checksum", g.checksum())
	})
	if g.opt() {
		set(d, "DocumentComment", g.text())
	}
	g.creation(d)
	g.elems(d, "Packages", g.count(3), g.pkg)
	g.elems(d, "Files", g.count(3), g.file)
	g.elems(d, "OtherLicenses", g.count(2), g.other)
	g.elems(d, "Relationships", g.count(4), g.relationship)
	g.elems(d, "Annotations", g.count(2), g.annotation)
	if g.prof == profJSON {
		g.elems(d, "Snippets", g.count(2), g.snippet)
	} else {
		g.elems(d, "Reviews", g.count(2), func(e reflect.Value) {
			set(e, "Reviewer", g.name())
			set(e, "ReviewerType", personTypes[g.t.N(3)])
			if g.opt() {
				set(e, "ReviewDate", g.date())
			}
			if g.opt() {
				set(e, "ReviewComment", g.text())
			}
		})
	}
	return doc
}

func (g *Gen) creation(d reflect.Value) {
	f := fld(d, "CreationInfo")
	ci := reflect.New(f.Type().Elem())
	f.Set(ci)
	if g.opt() {
		set(ci, "LicenseListVersion", fmt.Sprintf("%d.%d", 1+g.t.N(3), g.t.N(30)))
	}
	n := 1 + g.t.N(3)
	var cs []common.Creator
	for i := 0; i < n; i++ {
		cs = append(cs, common.Creator{CreatorType: personTypes[g.t.N(3)], Creator: g.name()})
	}
	set(ci, "Creators", cs)
	set(ci, "Created", g.date())
	if g.opt() {
		set(ci, "CreatorComment", g.text())
	}
}

func (g *Gen) pkg(p reflect.Value) {
	set(p, "PackageName", g.line())
	set(p, "PackageSPDXIdentifier", common.ElementID(g.id()))
	str := func(name string, f func() string) {
		if g.opt() {
			set(p, name, f())
		}
	}
	str("PackageVersion", g.line)
	str("PackageFileName", g.line)
	if g.opt() {
		s := &common.Supplier{Supplier: "NOASSERTION"}
		if g.t.Chance(3, 4) {
			s = &common.Supplier{SupplierType: personTypes[g.t.N(2)], Supplier: g.name()}
		}
		set(p, "PackageSupplier", s)
	}
	if g.opt() {
		s := &common.Originator{Originator: "NOASSERTION"}
		if g.t.Chance(3, 4) {
			s = &common.Originator{OriginatorType: personTypes[g.t.N(2)], Originator: g.name()}
		}
		set(p, "PackageOriginator", s)
	}
	set(p, "PackageDownloadLocation", g.line())
	fa := g.t.N(3) != 1
	set(p, "FilesAnalyzed", fa)
	set(p, "IsFilesAnalyzedTagPresent", !fa || g.t.N(2) == 0)
	// what belongs to analysed files, now and then also without any
	an := fa || g.free() && g.t.N(3) == 0
	if an && g.opt() {
		c := common.PackageVerificationCode{Value: g.hex(40)}
		n := g.t.N(4)
		for i := 0; i < n; i++ {
			if g.prof == profTV {
				c.ExcludedFiles = append(c.ExcludedFiles, fmt.Sprintf("./dir%d/f %d.x", g.t.N(3), g.t.N(9)))
			} else {
				c.ExcludedFiles = append(c.ExcludedFiles, g.line())
			}
		}
		set(p, "PackageVerificationCode", c)
	}
	set(p, "PackageChecksums", g.checksums(2))
	str("PackageHomePage", g.line)
	str("PackageSourceInfo", g.text)
	str("PackageLicenseConcluded", g.licence)
	if an {
		set(p, "PackageLicenseInfoFromFiles", g.licences(2))
	}
	str("PackageLicenseDeclared", g.licence)
	str("PackageLicenseComments", g.text)
	str("PackageCopyrightText", g.text)
	str("PackageSummary", g.text)
	str("PackageDescription", g.text)
	str("PackageComment", g.text)
	g.elems(p, "PackageExternalReferences", g.count(2), func(e reflect.Value) {
		cats := []string{"SECURITY", "PACKAGE-MANAGER", "PERSISTENT-ID", "OTHER"}
		set(e, "Category", cats[g.t.N(len(cats))])
		if g.t.N(2) == 0 {
			set(e, "RefType", []string{"cpe23Type", "purl", "x"}[g.t.N(3)])
		} else {
			set(e, "RefType", g.word())
		}
		set(e, "Locator", g.word())
		if g.opt() {
			set(e, "ExternalRefComment", g.text())
		}
	})
	if g.ver != "v2_1" {
		set(p, "PackageAttributionTexts", g.texts(2))
	}
	if g.ver == "v2_3" {
		str("PrimaryPackagePurpose", func() string {
			return []string{"APPLICATION", "LIBRARY", "OPERATING-SYSTEM", "OTHER"}[g.t.N(4)]
		})
		str("ReleaseDate", g.date)
		str("BuiltDate", g.date)
		str("ValidUntilDate", g.date)
	}
	g.elems(p, "Files", g.count(2), g.file)
	if g.prof == profJSON {
		g.elems(p, "Annotations", g.count(1), g.annotation)
	}
}

func (g *Gen) file(f reflect.Value) {
	set(f, "FileName", "./"+g.line())
	if g.prof == profTV {
		set(f, "FileName", strings.TrimSpace("./"+g.line()))
	}
	set(f, "FileSPDXIdentifier", common.ElementID(g.id()))
	var ft []string
	for i := g.count(2); i > 0; i-- {
		ft = append(ft, fileTypes[g.t.N(len(fileTypes))])
	}
	set(f, "FileTypes", ft)
	set(f, "Checksums", g.checksums(2))
	str := func(name string, fn func() string) {
		if g.opt() {
			set(f, name, fn())
		}
	}
	str("LicenseConcluded", g.licence)
	set(f, "LicenseInfoInFiles", g.licences(2))
	str("LicenseComments", g.text)
	str("FileCopyrightText", g.text)
	if g.prof == profTV || g.ver == "v2_3" {
		g.elems(f, "ArtifactOfProjects", g.count(2), func(e reflect.Value) {
			set(e, "Name", g.line())
			if g.opt() {
				set(e, "HomePage", g.line())
			}
			if g.opt() {
				set(e, "URI", g.line())
			}
		})
		set(f, "FileDependencies", g.lines(2))
	}
	str("FileComment", g.text)
	str("FileNotice", g.text)
	set(f, "FileContributors", g.lines(2))
	if g.ver != "v2_1" {
		set(f, "FileAttributionTexts", g.texts(2))
	}
	if g.prof == profJSON {
		g.elems(f, "Annotations", g.count(1), g.annotation)
		return
	}
	// snippets live in their files
	m := fld(f, "Snippets")
	for i := g.count(2); i > 0; i-- {
		if m.IsNil() {
			m.Set(reflect.MakeMap(m.Type()))
		}
		s := reflect.New(m.Type().Elem().Elem())
		g.snippet(s)
		set(s, "SnippetFromFileSPDXIdentifier", fld(f, "FileSPDXIdentifier").Interface())
		m.SetMapIndex(fld(s, "SnippetSPDXIdentifier"), s)
	}
}

func (g *Gen) snippet(s reflect.Value) {
	set(s, "SnippetSPDXIdentifier", common.ElementID(g.id()))
	set(s, "SnippetFromFileSPDXIdentifier", common.ElementID(g.someID()))
	var rs []common.SnippetRange
	for i := g.count(2); i > 0; i-- {
		a := 1 + g.t.N(1000)
		b := a + g.t.N(1000)
		if g.same && len(rs) > 0 && g.t.Chance(1, 2) {
			a, b = 7, 7+g.t.N(3)
		}
		if g.t.Chance(1, 30) {
			b += 5000000000
		}
		var r common.SnippetRange
		if g.t.N(2) == 0 {
			r.StartPointer.Offset, r.EndPointer.Offset = a, b
		} else {
			r.StartPointer.LineNumber, r.EndPointer.LineNumber = a, b
		}
		if g.prof == profJSON {
			id := common.ElementID(g.someID())
			r.StartPointer.FileSPDXIdentifier, r.EndPointer.FileSPDXIdentifier = id, id
		}
		rs = append(rs, r)
	}
	set(s, "Ranges", rs)
	str := func(name string, fn func() string) {
		if g.opt() {
			set(s, name, fn())
		}
	}
	str("SnippetLicenseConcluded", g.licence)
	set(s, "LicenseInfoInSnippet", g.licences(2))
	str("SnippetLicenseComments", g.text)
	str("SnippetCopyrightText", g.text)
	str("SnippetComment", g.text)
	str("SnippetName", g.line)
	if g.prof == profTV && g.ver != "v2_1" {
		set(s, "SnippetAttributionTexts", g.texts(2))
	}
}

func (g *Gen) other(o reflect.Value) {
	g.n++
	set(o, "LicenseIdentifier", fmt.Sprintf("LicenseRef-%d", g.n))
	set(o, "ExtractedText", g.text())
	if g.opt() {
		set(o, "LicenseName", g.line())
	}
	set(o, "LicenseCrossReferences", g.lines(2))
	if g.opt() {
		set(o, "LicenseComment", g.text())
	}
}

func (g *Gen) relationship(r reflect.Value) {
	set(r, "RefA", g.docElementID())
	b := g.docElementID()
	if g.ver != "v2_1" && g.t.Chance(1, 5) {
		b = common.DocElementID{SpecialID: []string{"NONE", "NOASSERTION"}[g.t.N(2)]}
	}
	set(r, "RefB", b)
	set(r, "Relationship", relTypes[g.t.N(len(relTypes))])
	if g.opt() {
		set(r, "RelationshipComment", g.text())
	}
}

func (g *Gen) annotation(a reflect.Value) {
	set(a, "Annotator", common.Annotator{AnnotatorType: personTypes[g.t.N(3)], Annotator: g.name()})
	set(a, "AnnotationDate", g.date())
	set(a, "AnnotationType", []string{"REVIEW", "OTHER"}[g.t.N(2)])
	if g.prof == profTV {
		set(a, "AnnotationSPDXIdentifier", g.docElementID())
	}
	set(a, "AnnotationComment", g.text())
}
