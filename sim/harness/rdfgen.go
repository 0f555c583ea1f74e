package main

import (
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"

	"vsimrt"
)

// rdfGen writes RDF/XML documents the readers understand and, alongside, the
// document they state.
type rdfGen struct {
	t     *vsimrt.Tape
	ver   string
	b     strings.Builder
	n     int
	ind   int
	ids   []string // identifiers of packages and files so far
	nl    string
	tame  bool
	flat  bool     // elements may be referenced and written at the top level
	mix   bool     // the properties of an element come in any order
	again bool     // elements may be mentioned again
	cdata bool     // some texts are CDATA sections
	roots []string // elements to be written at the top level

	doc     v2_3.Document
	files   map[string]*v2_3.File
	inPkg   map[string]bool
	known   []string // identifiers of licences defined so far
	depth   int
	loose   bool // the order of elements is not the order of the document
	setting map[string]string
	used    []string // licences named before in the list being written
}

const (
	spdxNS = "http://spdx.org/rdf/terms#"
	docNS  = "https://example.com/doc"
)

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

var rdfTexts = []string{"plain text", "a", "é日本", "x & y", "<tag>", "two\nlines", `quote " here`, "NOASSERTION", "padded  ", "Person: A", "😀", "a: b", "1", "100%", "&lt;", "it's", "a -> b", "tab\there"}

func (g *rdfGen) text() string {
	if g.tame {
		return fmt.Sprintf("text %d", g.t.N(20))
	}
	return rdfTexts[g.t.N(len(rdfTexts))] + fmt.Sprintf(" %d", g.t.N(30))
}

func (g *rdfGen) line(s string) {
	g.b.WriteString(strings.Repeat(" ", g.ind))
	g.b.WriteString(s)
	g.b.WriteString(g.nl)
}

func (g *rdfGen) open(s string)  { g.line("<" + s + ">"); g.ind++ }
func (g *rdfGen) close(s string) { g.ind--; g.line("</" + s + ">") }

// val writes a property with a literal value and returns the value.
func (g *rdfGen) val(tag, v string) string {
	w := xmlEsc(v)
	if g.cdata && g.t.N(4) == 0 && !strings.Contains(v, "]]>") {
		w = "<![CDATA[" + v + "]]>"
	} else if g.cdata && g.t.N(4) == 0 {
		w = ""
		for _, r := range v {
			if g.t.N(3) == 0 {
				w += fmt.Sprintf([]string{"&#%d;", "&#x%x;"}[g.t.N(2)], r)
			} else {
				w += xmlEsc(string(r))
			}
		}
	}
	attr := ""
	if g.cdata && g.t.N(8) == 0 {
		attr = ` rdf:datatype="http://www.w3.org/2001/XMLSchema#string"`
	}
	g.line("<" + tag + attr + ">" + w + "</" + tag + ">")
	return v
}
func (g *rdfGen) res(tag, uri string) {
	g.line("<" + tag + ` rdf:resource="` + uri + `"/>`)
}
func (g *rdfGen) opt() bool { return g.t.N(3) > 0 }
func (g *rdfGen) optVal(tag string) string {
	if g.opt() {
		return g.val(tag, g.text())
	}
	return ""
}

func (g *rdfGen) id(kind string) string {
	g.n++
	s := fmt.Sprintf("SPDXRef-%s%d", kind, g.n)
	return s
}

func elementID(s string) common.ElementID {
	return common.ElementID(strings.TrimPrefix(s, "SPDXRef-"))
}

// add appends a stated value: a triple is stated once, however often it is
// written.
func add(list []string, v string) []string {
	for _, x := range list {
		if x == v {
			return list
		}
	}
	return append(list, v)
}

// props runs the writers of an element's properties, in any order if so set.
func (g *rdfGen) props(fs []func()) {
	if g.mix {
		for i := len(fs) - 1; i > 0; i-- {
			k := g.t.N(i + 1)
			fs[i], fs[k] = fs[k], fs[i]
		}
	}
	for _, f := range fs {
		f()
	}
}

// some repeats a property 0 to n-1 times.
func (g *rdfGen) some(fs []func(), n int, f func()) []func() {
	for i := g.t.N(n); i > 0; i-- {
		fs = append(fs, f)
	}
	return fs
}

// licence writes a property whose value is a licence; key tells values apart
// that are different nodes.
func (g *rdfGen) licence(tag string, depth int) (expr, key string) {
	k := g.t.N(9)
	if depth > 2 {
		k = g.t.N(4)
	}
	switch k {
	case 0:
		g.res(tag, spdxNS+"noassertion")
		return "NOASSERTION", "NOASSERTION"
	case 1:
		l := g.listed("MIT", "Apache-2.0", "GPL-2.0-only")
		g.res(tag, "http://spdx.org/licenses/"+l)
		return l, l
	case 2:
		g.res(tag, spdxNS+"none")
		return "NONE", "NONE"
	case 3:
		l := g.ref()
		if l == "" {
			g.res(tag, "http://spdx.org/licenses/Zlib")
			return "Zlib", "Zlib"
		}
		g.res(tag, docNS+"#"+l)
		return l, l
	case 4, 5:
		g.n++
		node := fmt.Sprint("node", g.n)
		set, op, inner := "spdx:DisjunctiveLicenseSet", " OR ", " AND "
		if k == 5 {
			set, op, inner = "spdx:ConjunctiveLicenseSet", " AND ", " OR "
		}
		about := ""
		away := g.flat && g.t.N(3) == 0
		var keep string
		if away {
			about = fmt.Sprintf(` rdf:about="%s#set%d"`, docNS, g.n)
			g.res(tag, fmt.Sprintf("%s#set%d", docNS, g.n))
			keep = g.aside()
		} else {
			g.open(tag)
		}
		g.open(set + about)
		var members, keys []string
		for i := 0; i < 2+g.t.N(2); i++ {
			g.used = keys
			m, k := g.licence("spdx:member", depth+1)
			if g.setting[k] == inner {
				m = "(" + m + ")"
			}
			if n := len(keys); len(add(keys, k)) > n {
				keys = append(keys, k)
				members = append(members, m)
			}
		}
		g.close(set)
		if away {
			g.root(keep)
		} else {
			g.close(tag)
		}
		if len(members) > 1 {
			g.setting[node] = op
		}
		return strings.Join(members, op), node
	case 6:
		g.open(tag)
		l := g.extracted()
		g.close(tag)
		return l, l
	case 7:
		// a licence with its text, or with an exception
		g.n++
		node := fmt.Sprint("node", g.n)
		g.open(tag)
		switch g.t.N(3) {
		case 0:
			kind := []string{"spdx:License", "spdx:ListedLicense"}[g.t.N(2)]
			g.open(kind)
			g.props([]func(){
				func() { g.val("spdx:licenseId", "Intel") },
				func() { g.optVal("spdx:licenseText") },
				func() { g.val("spdx:isOsiApproved", "true") },
				func() { g.optVal("spdx:name") },
			})
			g.close(kind)
			g.close(tag)
			return "Intel", node
		case 1:
			var m string
			g.open("spdx:OrLaterOperator")
			m = g.member()
			g.close("spdx:OrLaterOperator")
			g.close(tag)
			return m + "+", node
		}
		var m, x string
		g.open("spdx:WithExceptionOperator")
		g.props([]func(){
			func() { m = g.member() },
			func() {
				if x = "Classpath-exception-2.0"; g.t.N(3) == 0 {
					g.res("spdx:licenseException", "http://spdx.org/licenses/"+x)
					return
				}
				x = "Autoconf-exception-2.0"
				end := g.node("spdx:licenseException", "spdx:LicenseException")
				g.props([]func(){
					func() { g.val("spdx:licenseExceptionId", x) },
					func() { g.optVal("spdx:licenseExceptionText") },
					func() { g.optVal("spdx:name") },
				})
				end()
			},
		})
		g.close("spdx:WithExceptionOperator")
		g.close(tag)
		return m + " WITH " + x, node
	}
	l := []string{"BSD-3-Clause", "MPL-2.0"}[k%2]
	g.res(tag, "http://spdx.org/licenses/"+l)
	return l, l
}

// listed is one of a few licences of the list, seldom any.
func (g *rdfGen) listed(few ...string) string {
	if g.t.N(3) == 2 {
		return listed[g.t.N(len(listed))]
	}
	return few[g.t.N(len(few))]
}

// copyright writes a copyright text, or that there is none.
func (g *rdfGen) copyright() string {
	switch g.t.N(7) {
	case 3:
		return ""
	case 4:
		g.res("spdx:copyrightText", spdxNS+"noassertion")
		return "NOASSERTION"
	case 5:
		g.res("spdx:copyrightText", spdxNS+"none")
		return "NONE"
	}
	return g.val("spdx:copyrightText", g.text())
}

// member writes the licence an operator is applied to.
func (g *rdfGen) member() string {
	if g.t.N(3) == 0 {
		l := g.listed("GPL-2.0", "LGPL-2.1-only", "MPL-1.1")
		g.res("spdx:member", "http://spdx.org/licenses/"+l)
		return l
	}
	l := []string{"GPL-2.0-or-later", "AGPL-1.0", "LGPL-2.0-only"}[g.t.N(3)]
	end := g.node("spdx:member", "spdx:SimpleLicensingInfo")
	g.props([]func(){
		func() { g.val("spdx:licenseId", l) },
		func() { g.optVal("spdx:name") },
	})
	end()
	return l
}

func (g *rdfGen) licenceAlone(tag string, depth int) (string, string) {
	g.used = nil
	return g.licence(tag, depth)
}

// ref picks a licence defined before that the list being written does not have
// yet.
func (g *rdfGen) ref() string {
	if len(g.known) == 0 {
		return ""
	}
	l := g.known[g.t.N(len(g.known))]
	for _, x := range g.used {
		if x == l {
			return ""
		}
	}
	return l
}

// text1 is a text for a list of texts: one that is written in another way is
// another text.
func (g *rdfGen) text1() string {
	s := g.text()
	if g.cdata {
		g.n++
		s += fmt.Sprint(" ", g.n)
	}
	return s
}

func (g *rdfGen) seeAlso() string {
	s := fmt.Sprint("http://example.com/l", g.t.N(3))
	if g.cdata {
		g.n++
		s += fmt.Sprint("-", g.n)
	}
	return s
}

// simple writes a property whose value is a licence without structure.
func (g *rdfGen) simple(tag string) string {
	switch g.t.N(4) {
	case 0:
		g.res(tag, spdxNS+"noassertion")
		return "NOASSERTION"
	case 1:
		if l := g.ref(); l != "" {
			g.res(tag, docNS+"#"+l)
			return l
		}
	case 2:
		g.open(tag)
		l := g.extracted()
		g.close(tag)
		return l
	}
	l := g.listed("BSD-3-Clause", "MPL-2.0", "MIT")
	g.res(tag, "http://spdx.org/licenses/"+l)
	return l
}

// extracted writes a licence with its text inside another element.
func (g *rdfGen) extracted() string {
	g.n++
	l := fmt.Sprintf("LicenseRef-x%d", g.n)
	g.open(fmt.Sprintf(`spdx:ExtractedLicensingInfo rdf:about="%s#%s"`, docNS, l))
	g.val("spdx:licenseId", l)
	g.val("spdx:extractedText", g.text())
	g.close("spdx:ExtractedLicensingInfo")
	g.known = append(g.known, l)
	return l
}

// aside starts an element that is written at the top level; root ends it.
func (g *rdfGen) aside() string {
	s := g.b.String()
	g.b.Reset()
	return s
}

func (g *rdfGen) root(keep string) {
	g.roots = append(g.roots, g.b.String())
	g.b.Reset()
	g.b.WriteString(keep)
}

func (g *rdfGen) checksum() common.Checksum {
	var c common.Checksum
	end := g.node("spdx:checksum", "spdx:Checksum")
	g.props([]func(){
		func() {
			a := []string{"sha1", "sha256", "md5", "sha512", "md2", "sha224", "sha384", "md4", "md6"}[g.t.N(9)]
			g.res("spdx:algorithm", spdxNS+"checksumAlgorithm_"+a)
			c.Algorithm = common.ChecksumAlgorithm(strings.ToUpper(a))
		},
		func() { c.Value = g.val("spdx:checksumValue", fmt.Sprintf("%040x", g.t.N(1<<30))) },
	})
	end()
	return c
}

func (g *rdfGen) annotation(of common.ElementID) {
	end := g.node("spdx:annotation", "spdx:Annotation")
	a := g.annotationBody()
	a.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: of}
	g.doc.Annotations = append(g.doc.Annotations, a)
	end()
}

func (g *rdfGen) annotationBody() *v2_3.Annotation {
	a := &v2_3.Annotation{}
	g.props([]func(){
		func() {
			a.AnnotationDate = g.val("spdx:annotationDate", fmt.Sprintf("20%02d-01-02T03:04:05Z", g.t.N(100)))
		},
		func() {
			a.Annotator.AnnotatorType = []string{"Person", "Organization", "Tool"}[g.t.N(3)]
			a.Annotator.Annotator = []string{"Jane", "J D", "É", "x:y"}[g.t.N(4)]
			g.val("spdx:annotator", a.Annotator.AnnotatorType+": "+a.Annotator.Annotator)
		},
		func() {
			k := g.t.N(2)
			a.AnnotationType = []string{"OTHER", "REVIEW"}[k]
			g.res("spdx:annotationType", spdxNS+"annotationType_"+[]string{"other", "review"}[k])
		},
		func() { a.AnnotationComment = g.optVal("rdfs:comment") },
	})
	return a
}

// node starts a property whose value is a node without a name, written inside
// or at the top level.
func (g *rdfGen) node(tag, kind string) (end func()) {
	if g.flat && g.t.N(5) == 0 {
		g.n++
		keep, id := g.aside(), fmt.Sprintf(` rdf:nodeID="A%d"`, g.n)
		g.open(kind + id)
		return func() {
			g.close(kind)
			g.root(keep)
			g.line("<" + tag + id + "/>")
		}
	}
	g.open(tag)
	g.open(kind)
	return func() {
		g.close(kind)
		g.close(tag)
	}
}

// element writes a property whose value is an element: inside the property, or
// at the top level with a reference here.
func (g *rdfGen) element(tag string, f func() string) string {
	if g.flat && g.t.N(3) == 0 {
		// what f writes goes to the top level, the reference comes here
		keep := g.aside()
		id := f()
		g.root(keep)
		g.res(tag, docNS+"#"+id)
		return id
	}
	g.open(tag)
	id := f()
	g.close(tag)
	return id
}

func (g *rdfGen) file() string {
	id := g.id("File")
	g.open(fmt.Sprintf(`spdx:File rdf:about="%s#%s"`, docNS, id))
	f := &v2_3.File{FileSPDXIdentifier: elementID(id)}
	g.files[id] = f
	var fs []func()
	fs = append(fs, func() { f.FileName = g.val("spdx:fileName", "./"+g.text()) })
	fs = g.some(fs, 3, func() {
		k := []string{"source", "binary", "text", "archive", "application", "audio", "image", "video", "documentation", "spdx", "other"}[g.t.N(11)]
		g.res("spdx:fileType", spdxNS+"fileType_"+k)
		f.FileTypes = add(f.FileTypes, k)
	})
	fs = g.some(fs, 3, func() { f.Checksums = append(f.Checksums, g.checksum()) })
	if g.opt() {
		fs = append(fs, func() { f.LicenseConcluded, _ = g.licenceAlone("spdx:licenseConcluded", 0) })
	}
	var keys []string
	fs = g.some(fs, 3, func() {
		g.used = keys
		l, k := g.licence("spdx:licenseInfoInFile", 1)
		if n := len(keys); len(add(keys, k)) > n {
			keys = append(keys, k)
			f.LicenseInfoInFiles = append(f.LicenseInfoInFiles, l)
		}
	})
	fs = append(fs,
		func() { f.LicenseComments = g.optVal("spdx:licenseComments") },
		func() { f.FileCopyrightText = g.copyright() },
		func() { f.FileComment = g.optVal("rdfs:comment") },
		func() { f.FileNotice = g.optVal("spdx:noticeText") })
	fs = g.some(fs, 3, func() { f.FileContributors = add(f.FileContributors, g.val("spdx:fileContributor", g.text1())) })
	if g.t.N(3) == 2 {
		fs = append(fs, func() {
			a := &v2_3.ArtifactOfProject{}
			about := ""
			if g.t.N(2) == 0 {
				a.URI = fmt.Sprintf("http://example.com/project%d", g.n)
				g.n++
				about = ` rdf:about="` + a.URI + `"`
			}
			g.open("spdx:artifactOf")
			g.open("doap:Project" + about)
			g.props([]func(){
				func() { a.Name = g.val("doap:name", g.text()) },
				func() {
					if g.opt() {
						a.HomePage = g.val("doap:homepage", "http://example.com/home")
					}
				},
			})
			g.close("doap:Project")
			g.close("spdx:artifactOf")
			f.ArtifactOfProjects = append(f.ArtifactOfProjects, a)
		})
	}
	if g.t.N(4) == 3 {
		fs = append(fs, func() { g.annotation(f.FileSPDXIdentifier) })
	}
	if g.t.N(5) == 4 {
		fs = append(fs, func() { f.FileAttributionTexts = add(f.FileAttributionTexts, g.val("spdx:attributionText", g.text1())) })
	}
	if g.depth++; g.depth < 4 && g.t.N(5) == 4 {
		fs = append(fs, func() {
			d := g.element("spdx:fileDependency", g.file)
			f.FileDependencies = append(f.FileDependencies, strings.TrimPrefix(d, "SPDXRef-"))
		})
	}
	if g.depth < 4 && g.t.N(5) == 4 {
		fs = append(fs, func() { g.relationship(id) })
	}
	g.ids = append(g.ids, id)
	g.props(fs)
	g.depth--
	g.close("spdx:File")
	return id
}

func (g *rdfGen) agent(kinds []string) (kind, name string) {
	k := g.t.N(len(kinds) + 1)
	if k == len(kinds) {
		return "", "NOASSERTION"
	}
	return kinds[k], []string{"Acme (a@b.c)", "Jane", "É: x"}[g.t.N(3)]
}

func (g *rdfGen) pkg() string {
	id := g.id("Package")
	g.open(fmt.Sprintf(`spdx:Package rdf:about="%s#%s"`, docNS, id))
	p := &v2_3.Package{PackageSPDXIdentifier: elementID(id), IsFilesAnalyzedTagPresent: true}
	var fs []func()
	fs = append(fs,
		func() { p.PackageName = g.val("spdx:name", g.text()) },
		func() { p.PackageVersion = g.optVal("spdx:versionInfo") },
		func() { p.PackageFileName = g.optVal("spdx:packageFileName") })
	if g.opt() {
		fs = append(fs, func() {
			k, n := g.agent([]string{"Organization", "Person"})
			p.PackageSupplier = &common.Supplier{SupplierType: k, Supplier: n}
			g.val("spdx:supplier", strings.TrimPrefix(k+": "+n, ": "))
		})
	}
	if g.opt() {
		fs = append(fs, func() {
			k, n := g.agent([]string{"Organization", "Person"})
			p.PackageOriginator = &common.Originator{OriginatorType: k, Originator: n}
			g.val("spdx:originator", strings.TrimPrefix(k+": "+n, ": "))
		})
	}
	fa := g.opt()
	fs = append(fs, func() {
		switch g.t.N(4) {
		case 0:
			g.res("spdx:downloadLocation", spdxNS+"noassertion")
			p.PackageDownloadLocation = "NOASSERTION"
		case 1:
			g.res("spdx:downloadLocation", spdxNS+"none")
			p.PackageDownloadLocation = "NONE"
		case 2:
			p.PackageDownloadLocation = g.val("spdx:downloadLocation", "http://example.com/x?a=1&b=2")
		default:
			p.PackageDownloadLocation = g.val("spdx:downloadLocation", "git+https://example.com/x.git@v1#sub")
		}
	}, func() {
		g.val("spdx:filesAnalyzed", fmt.Sprint(fa))
		p.FilesAnalyzed = fa
	})
	if fa && g.opt() {
		fs = append(fs, func() {
			c := &common.PackageVerificationCode{}
			p.PackageVerificationCode = c
			end := g.node("spdx:packageVerificationCode", "spdx:PackageVerificationCode")
			vs := []func(){func() { c.Value = g.val("spdx:packageVerificationCodeValue", fmt.Sprintf("%040x", g.t.N(1<<30))) }}
			vs = g.some(vs, 3, func() {
				c.ExcludedFiles = add(c.ExcludedFiles, g.val("spdx:packageVerificationCodeExcludedFile", g.text1()))
			})
			g.props(vs)
			end()
		})
	}
	fs = g.some(fs, 3, func() { p.PackageChecksums = append(p.PackageChecksums, g.checksum()) })
	if g.opt() {
		fs = append(fs, func() {
			p.PackageHomePage = "http://example.com/" + fmt.Sprint(g.t.N(9))
			g.res("doap:homepage", p.PackageHomePage)
		})
	}
	fs = append(fs,
		func() { p.PackageSourceInfo = g.optVal("spdx:sourceInfo") },
		func() { p.PackageLicenseConcluded, _ = g.licenceAlone("spdx:licenseConcluded", 0) },
		func() { p.PackageLicenseDeclared, _ = g.licenceAlone("spdx:licenseDeclared", 0) },
		func() { p.PackageLicenseComments = g.optVal("spdx:licenseComments") },
		func() { p.PackageCopyrightText = g.copyright() },
		func() { p.PackageSummary = g.optVal("spdx:summary") },
		func() { p.PackageDescription = g.optVal("spdx:description") },
		func() { p.PackageComment = g.optVal("rdfs:comment") })
	fs = g.some(fs, 3, func() {
		g.used = p.PackageLicenseInfoFromFiles
		p.PackageLicenseInfoFromFiles = add(p.PackageLicenseInfoFromFiles, g.simple("spdx:licenseInfoFromFiles"))
	})
	fs = g.some(fs, 3, func() {
		r := &v2_3.PackageExternalReference{}
		end := g.node("spdx:externalRef", "spdx:ExternalRef")
		g.props([]func(){
			func() {
				k := g.t.N(3)
				g.res("spdx:referenceCategory", spdxNS+"referenceCategory_"+[]string{"security", "packageManager", "other"}[k])
				r.Category = []string{"SECURITY", "PACKAGE-MANAGER", "OTHER"}[k]
			},
			func() {
				r.RefType = []string{"http://spdx.org/rdf/references/cpe23Type", "http://spdx.org/rdf/references/purl"}[g.t.N(2)]
				g.res("spdx:referenceType", r.RefType)
			},
			func() { r.Locator = g.val("spdx:referenceLocator", "cpe:2.3:a:"+fmt.Sprint(g.t.N(99))) },
			func() { r.ExternalRefComment = g.optVal("rdfs:comment") },
		})
		end()
		p.PackageExternalReferences = append(p.PackageExternalReferences, r)
	})
	if g.ver == "v2_3" {
		if g.t.N(3) == 2 {
			fs = append(fs, func() { p.ReleaseDate = g.val("spdx:releaseDate", "2020-01-02T03:04:05Z") })
		}
		if g.t.N(3) == 2 {
			fs = append(fs, func() { p.BuiltDate = g.val("spdx:builtDate", "2021-01-02T03:04:05Z") })
		}
		if g.t.N(3) == 2 {
			fs = append(fs, func() { p.ValidUntilDate = g.val("spdx:validUntilDate", "2022-01-02T03:04:05Z") })
		}
		if g.t.N(3) == 2 {
			fs = append(fs, func() {
				k := []string{"application", "operating_system", "source", "other", "framework", "library", "container", "device", "firmware", "archive", "file", "install"}[g.t.N(12)]
				p.PrimaryPackagePurpose = strings.ToUpper(strings.ReplaceAll(k, "_", "-"))
				g.res("spdx:primaryPackagePurpose", spdxNS+"purpose_"+k)
			})
		}
	}
	g.depth++
	fs = g.some(fs, 3, func() {
		f := g.element("spdx:hasFile", g.file)
		p.Files = append(p.Files, g.files[f])
		g.inPkg[f] = true
		if g.again && g.t.N(4) == 0 {
			g.mention(f)
		}
	})
	if g.t.N(3) == 2 && g.depth < 4 {
		fs = append(fs, func() { g.relationship(id) })
	}
	if g.t.N(4) == 3 {
		fs = append(fs, func() { g.annotation(p.PackageSPDXIdentifier) })
	}
	if g.t.N(4) == 3 {
		fs = append(fs, func() {
			p.PackageAttributionTexts = add(p.PackageAttributionTexts, g.val("spdx:attributionText", g.text1()))
		})
	}
	g.ids = append(g.ids, id)
	g.props(fs)
	g.depth--
	g.close("spdx:Package")
	g.doc.Packages = append(g.doc.Packages, p)
	return id
}

// mention writes an element known before again, as an empty top-level element.
func (g *rdfGen) mention(id string) {
	kind := "spdx:File"
	if strings.HasPrefix(id, "SPDXRef-Package") {
		kind = "spdx:Package"
	}
	keep := g.aside()
	g.line(fmt.Sprintf(`<%s rdf:about="%s#%s"/>`, kind, docNS, id))
	g.root(keep)
}

func (g *rdfGen) someID() string {
	if len(g.ids) == 0 {
		return "SPDXRef-DOCUMENT"
	}
	return g.ids[g.t.N(len(g.ids))]
}

// relationship writes a relationship of element from; the related element is
// named, mentioned again or written inside.
func (g *rdfGen) relationship(from string) {
	r := &v2_3.Relationship{RefA: common.DocElementID{ElementRefID: elementID(from)}}
	end := g.node("spdx:relationship", "spdx:Relationship")
	g.props([]func(){
		func() {
			r.Relationship = rdfRels[g.t.N(len(rdfRels))]
			g.res("spdx:relationshipType", spdxNS+"relationshipType_"+r.Relationship)
		},
		func() {
			const tag = "spdx:relatedSpdxElement"
			to := ""
			switch k := g.t.N(6); {
			case k == 5:
				g.res(tag, spdxNS+"noassertion")
				r.RefB = common.DocElementID{SpecialID: "NOASSERTION"}
				return
			case k == 4:
				g.n++
				r.RefB = common.DocElementID{DocumentRefID: common.DocumentID(fmt.Sprint("x", g.n)), ElementRefID: "E1"}
				g.res(tag, fmt.Sprintf("%s#DocumentRef-x%d:SPDXRef-E1", docNS, g.n))
				return
			case k == 3 && g.depth < 4:
				g.open(tag)
				if g.t.N(2) == 0 {
					to = g.file()
				} else {
					to = g.pkg()
				}
				g.close(tag)
			case k == 2 && g.again && len(g.ids) > 0:
				to = g.someID()
				kind := "spdx:File"
				if strings.HasPrefix(to, "SPDXRef-Package") {
					kind = "spdx:Package"
				}
				g.open(tag)
				g.line(fmt.Sprintf(`<%s rdf:about="%s#%s"/>`, kind, docNS, to))
				g.close(tag)
			case k == 1 && g.flat && g.depth < 4:
				// the element is at the top level and only named here
				keep := g.aside()
				if g.t.N(2) == 0 {
					to = g.file()
				} else {
					to = g.pkg()
				}
				g.root(keep)
				g.res(tag, docNS+"#"+to)
				g.loose = true
			default:
				to = g.someID()
				g.res(tag, docNS+"#"+to)
			}
			r.RefB = common.DocElementID{ElementRefID: elementID(to)}
		},
		func() { r.RelationshipComment = g.optVal("rdfs:comment") },
	})
	end()
	g.doc.Relationships = append(g.doc.Relationships, r)
}

func (g *rdfGen) snippet() {
	var file string
	for _, x := range g.ids {
		if strings.HasPrefix(x, "SPDXRef-File") && (file == "" || g.t.N(2) == 0) {
			file = x
		}
	}
	inside := g.depth < 4 && g.t.N(6) == 5
	if file == "" && !inside {
		return
	}
	id := g.id("Snippet")
	s := &v2_3.Snippet{SnippetSPDXIdentifier: elementID(id)}
	g.open(fmt.Sprintf(`spdx:Snippet rdf:about="%s#%s"`, docNS, id))
	fs := []func(){func() {
		if inside {
			g.loose = true
			file = g.element("spdx:snippetFromFile", g.file)
		} else {
			g.res("spdx:snippetFromFile", docNS+"#"+file)
		}
		s.SnippetFromFileSPDXIdentifier = elementID(file)
	}}
	for i := 1 + g.t.N(3); i > 0; i-- {
		fs = append(fs, func() {
			end := g.node("spdx:range", "ptr:StartEndPointer")
			kind, tag := "ptr:ByteOffsetPointer", "ptr:offset"
			lines := g.t.N(2) == 1
			if lines {
				kind, tag = "ptr:LineCharPointer", "ptr:lineNumber"
			}
			a := 1 + g.t.N(500)
			b := a + g.t.N(100)
			ptr := func(p string, n int) func() {
				return func() {
					g.open(p)
					g.open(kind)
					g.props([]func(){
						func() {
							if file != "" {
								g.res("ptr:reference", docNS+"#"+file)
							}
						},
						func() { g.val(tag, fmt.Sprint(n)) },
					})
					g.close(kind)
					g.close(p)
				}
			}
			g.props([]func(){ptr("ptr:startPointer", a), ptr("ptr:endPointer", b)})
			end()
			r := common.SnippetRange{StartPointer: common.SnippetRangePointer{Offset: a}, EndPointer: common.SnippetRangePointer{Offset: b}}
			if lines {
				r.StartPointer.LineNumber, r.EndPointer.LineNumber, r.StartPointer.Offset, r.EndPointer.Offset = a, b, 0, 0
			}
			s.Ranges = append(s.Ranges, r)
		})
	}
	fs = append(fs,
		func() { s.SnippetName = g.optVal("spdx:name") },
		func() { s.SnippetCopyrightText = g.copyright() },
		func() { s.SnippetComment = g.optVal("rdfs:comment") },
		func() { s.SnippetLicenseComments = g.optVal("spdx:licenseComments") },
		func() { s.SnippetLicenseConcluded, _ = g.licenceAlone("spdx:licenseConcluded", 0) })
	var keys []string
	fs = g.some(fs, 3, func() {
		g.used = keys
		l, k := g.licence("spdx:licenseInfoInSnippet", 1)
		if n := len(keys); len(add(keys, k)) > n {
			keys = append(keys, k)
			s.LicenseInfoInSnippet = append(s.LicenseInfoInSnippet, l)
		}
	})
	g.props(fs)
	g.close("spdx:Snippet")
	for i := range s.Ranges {
		s.Ranges[i].StartPointer.FileSPDXIdentifier = elementID(file)
		s.Ranges[i].EndPointer.FileSPDXIdentifier = elementID(file)
	}
	f := g.files[file]
	if f.Snippets == nil {
		f.Snippets = map[common.ElementID]*v2_3.Snippet{}
	}
	f.Snippets[s.SnippetSPDXIdentifier] = s
}

func (g *rdfGen) rdfOpen() {
	g.open(`rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="` + spdxNS + `" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#" xmlns:doap="http://usefulinc.com/ns/doap#" xmlns:ptr="http://www.w3.org/2009/pointers#"`)
}

// rdfDoc makes a valid RDF/XML document of version v2_2 or v2_3.
func rdfDoc(t *vsimrt.Tape, ver string) []byte {
	b, _ := rdfStated(t, ver)
	return b
}

// rdfStated also gives the document it states, in the latest version's model,
// and whether the order of elements is given by it.
func rdfStated(t *vsimrt.Tape, ver string) ([]byte, *rdfGen) {
	g := &rdfGen{t: t, ver: ver, nl: "\n", files: map[string]*v2_3.File{}, inPkg: map[string]bool{}, setting: map[string]string{}}
	g.tame = t.N(3) == 0
	g.flat, g.mix, g.again, g.cdata = t.N(3) == 2, t.N(2) == 1, t.N(3) == 2, t.N(4) == 3
	if t.N(5) == 4 {
		g.nl = ""
	}
	if t.N(2) == 0 {
		g.line(`<?xml version="1.0" encoding="UTF-8"?>`)
	}
	g.rdfOpen()
	g.open(`spdx:SpdxDocument rdf:about="` + docNS + `#SPDXRef-DOCUMENT"`)
	d := &g.doc
	d.SPDXIdentifier, d.DocumentNamespace, d.SPDXVersion = "DOCUMENT", docNS, "SPDX-2.3"
	d.CreationInfo = &v2_3.CreationInfo{}
	var fs []func()
	fs = append(fs, func() {
		v := "SPDX-2.3"
		if ver == "v2_2" {
			v = "SPDX-2.2"
		}
		g.val("spdx:specVersion", v)
	}, func() {
		g.res("spdx:dataLicense", "http://spdx.org/licenses/CC0-1.0")
		d.DataLicense = "CC0-1.0"
	}, func() { d.DocumentName = g.val("spdx:name", g.text()) })
	fs = g.some(fs, 3, func() {
		g.n++
		r := v2_3.ExternalDocumentRef{}
		n := g.n
		end := g.node("spdx:externalDocumentRef", "spdx:ExternalDocumentRef")
		g.props([]func(){
			func() {
				g.val("spdx:externalDocumentId", fmt.Sprintf("DocumentRef-x%d", n))
				r.DocumentRefID = common.DocumentID(fmt.Sprintf("x%d", n))
			},
			func() {
				r.URI = fmt.Sprintf("http://example.org/doc%d", n)
				g.res("spdx:spdxDocument", r.URI)
			},
			func() { r.Checksum = g.checksum() },
		})
		end()
		d.ExternalDocumentReferences = append(d.ExternalDocumentReferences, r)
	})
	fs = append(fs, func() {
		ci := d.CreationInfo
		end := g.node("spdx:creationInfo", "spdx:CreationInfo")
		cs := []func(){func() { ci.CreatorComment = g.optVal("rdfs:comment") }}
		var seen []string
		for i := 1 + t.N(3); i > 0; i-- {
			cs = append(cs, func() {
				k, n := []string{"Person", "Tool", "Organization"}[t.N(3)], []string{"Jane", "x-1", "Acme: y"}[t.N(3)]
				if g.cdata {
					n += fmt.Sprint(len(seen))
				}
				g.val("spdx:creator", k+": "+n)
				if m := len(seen); len(add(seen, k+n)) > m {
					seen = append(seen, k+n)
					ci.Creators = append(ci.Creators, common.Creator{CreatorType: k, Creator: n})
				}
			})
		}
		cs = append(cs, func() { ci.Created = g.val("spdx:created", "2010-01-29T18:30:22Z") })
		if g.opt() {
			cs = append(cs, func() { ci.LicenseListVersion = g.val("spdx:licenseListVersion", "3.9") })
		}
		g.props(cs)
		end()
	}, func() { d.DocumentComment = g.optVal("rdfs:comment") })
	fs = g.some(fs, 3, func() {
		r := &v2_3.Review{}
		end := g.node("spdx:reviewed", "spdx:Review")
		g.props([]func(){
			func() {
				r.ReviewerType, r.Reviewer = []string{"Person", "Organization"}[t.N(2)], "Joe"
				g.val("spdx:reviewer", r.ReviewerType+": "+r.Reviewer)
			},
			func() { r.ReviewDate = g.val("spdx:reviewDate", "2010-02-10T00:00:00Z") },
			func() { r.ReviewComment = g.optVal("rdfs:comment") },
		})
		end()
		d.Reviews = append(d.Reviews, r)
	})
	fs = g.some(fs, 3, func() {
		g.n++
		l := &v2_3.OtherLicense{LicenseIdentifier: fmt.Sprintf("LicenseRef-%d", g.n)}
		g.open("spdx:hasExtractedLicensingInfo")
		g.open(fmt.Sprintf(`spdx:ExtractedLicensingInfo rdf:about="%s#%s"`, docNS, l.LicenseIdentifier))
		ls := []func(){
			func() { g.val("spdx:licenseId", l.LicenseIdentifier) },
			func() { l.ExtractedText = g.val("spdx:extractedText", g.text()) },
			func() { l.LicenseName = g.optVal("spdx:name") },
			func() { l.LicenseComment = g.optVal("rdfs:comment") },
		}
		ls = g.some(ls, 3, func() {
			l.LicenseCrossReferences = add(l.LicenseCrossReferences, g.val("rdfs:seeAlso", g.seeAlso()))
		})
		g.props(ls)
		g.close("spdx:ExtractedLicensingInfo")
		g.close("spdx:hasExtractedLicensingInfo")
		g.known = append(g.known, l.LicenseIdentifier)
		d.OtherLicenses = append(d.OtherLicenses, l)
	})
	fs = g.some(fs, 3, func() { g.element("spdx:describesPackage", g.pkg) })
	fs = g.some(fs, 4, func() { g.relationship("SPDXRef-DOCUMENT") })
	fs = g.some(fs, 3, func() { g.annotation("DOCUMENT") })
	g.props(fs)
	g.close("spdx:SpdxDocument")
	fs = g.some(nil, 4, func() {
		if t.N(3) == 2 {
			g.loose = true
			g.file()
		} else {
			g.snippet()
		}
	})
	g.props(fs)
	for len(g.roots) > 0 {
		k := t.N(len(g.roots))
		g.b.WriteString(g.roots[k])
		g.roots = append(g.roots[:k], g.roots[k+1:]...)
	}
	g.close("rdf:RDF")
	for _, id := range sortedKeys(g.files) {
		if !g.inPkg[id] {
			d.Files = append(d.Files, g.files[id])
		}
	}
	s := g.b.String()
	if t.N(4) == 3 {
		s = strings.NewReplacer("<spdx:", "<s:", "</spdx:", "</s:", "xmlns:spdx=", "xmlns:s=").Replace(s)
	}
	if !g.cdata && t.N(6) == 5 {
		s = strings.ReplaceAll(s, `"`, "'")
	}
	return []byte(s), g
}
