package main

import (
	"bytes"
	"embed"
	stdjson "encoding/json"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"

	"vsimrt"
)

//go:embed corpus
var corpusFS embed.FS

func corpus(name string) []byte {
	b, err := corpusFS.ReadFile("corpus/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

// formats of the library's readers
const (
	fJSON = iota
	fYAML
	fTV
	fRDF
	nFormats
)

var fmtName = [...]string{"json", "yaml", "tagvalue", "rdf"}

// readInto calls the library's reader of a format.
func readInto(f int, r io.Reader, doc any) error {
	switch f {
	case fJSON:
		return json.ReadInto(r, doc)
	case fYAML:
		return yaml.ReadInto(r, doc)
	case fTV:
		return tagvalue.ReadInto(r, doc)
	}
	return rdf.ReadInto(r, doc)
}

func readDoc(f int, r io.Reader) (*spdx.Document, error) {
	switch f {
	case fJSON:
		return json.Read(r)
	case fYAML:
		return yaml.Read(r)
	case fTV:
		return tagvalue.Read(r)
	}
	return rdf.Read(r)
}

// Input is a byte string for a reader.
type Input struct {
	f     int
	ver   string
	data  []byte
	valid bool // an uncorrupted document
	how   string
}

func (in *Input) String() string {
	return fmt.Sprintf("%s %s %s, %d bytes", fmtName[in.f], in.ver, in.how, len(in.data))
}

// pickFormat draws a format; RDF reading costs most and is drawn less often.
func pickFormat(t *vsimrt.Tape) int {
	return []int{fJSON, fTV, fYAML, fRDF, fJSON, fTV, fYAML, fTV, fJSON}[t.N(9)]
}

// genInput makes an input of format f. A document the writers fail on (they
// should not) is replaced by a sample.
func genInput(t *vsimrt.Tape, f int) *Input {
	in := genInput0(t, f)
	if t.Chance(1, 8) {
		fill(t, in)
	}
	return in
}

// fill makes the length of a document a multiple of that of usual buffers, or
// one off.
func fill(t *vsimrt.Tape, in *Input) {
	block := []int{512, 4096, 1024, 32768, 65536}[t.N(5)]
	if block > 4096 && len(in.data)*2 < block {
		block = 4096
	}
	n := (block - len(in.data)%block) % block
	switch t.N(6) {
	case 4:
		n++
	case 5:
		n += block - 1
	}
	if n == 0 {
		return
	}
	if l := in.data[max(0, len(in.data)-200):]; in.f == fYAML && (bytes.ContainsAny(l, "#|>") || bytes.HasSuffix(in.data, []byte("...\n"))) {
		return // the padding might belong to the last text
	}
	in.how += fmt.Sprintf(", filled to %d", len(in.data)+n)
	pad := bytes.Repeat([]byte(" "), n)
	switch in.f {
	case fTV, fYAML:
		pad = bytes.Repeat([]byte("\n"), n)
	case fJSON:
		if t.N(2) == 0 {
			in.data = append(pad, in.data...)
			return
		}
	case fRDF:
		pad = bytes.Repeat([]byte("\n"), n)
	}
	in.data = append(in.data[:len(in.data):len(in.data)], pad...)
}

func genInput0(t *vsimrt.Tape, f int) *Input {
	in := &Input{f: f, valid: true}
	in.ver = versions[t.N(3)]
	if f == fRDF && in.ver == "v2_1" {
		in.ver = "v2_3"
	}
	if t.Chance(1, 12) {
		if b := sample(t, f, in); b != nil {
			in.data = b
			return in
		}
	}
	in.how = "generated"
	if f != fRDF && t.Chance(1, 3) {
		// written by hand rather than by the library
		in.how = "hand-written"
		if f == fTV {
			in.data, _ = tvStated(t, in.ver)
		} else {
			in.data, _ = jsonStated(t, in.ver, f == fYAML)
		}
		return in
	}
	switch f {
	case fJSON:
		in.data = jsonBytes(t, thin(t, newGen(t, profJSON).Doc(in.ver), in), in)
	case fYAML:
		doc := thin(t, newGen(t, profJSON).Doc(in.ver), in)
		if t.Chance(1, 5) {
			in.data = jsonBytes(t, doc, in) // JSON is YAML
			break
		}
		var b bytes.Buffer
		if safely(func() error { return yaml.Write(doc, &b) }) != nil {
			return fallback(in)
		}
		in.data = b.Bytes()
		if t.Chance(1, 6) {
			in.data = append([]byte("---\n"), in.data...)
		}
		if t.Chance(1, 8) {
			in.data = append(in.data, "...\n"...)
		}
		if t.Chance(1, 8) {
			in.data = append(in.data, "# end comment"...)
		}
	case fTV:
		doc := newGen(t, profTV).Doc(in.ver)
		var b bytes.Buffer
		if safely(func() error { return tagvalue.Write(doc, &b) }) != nil {
			return fallback(in)
		}
		in.data = tvStyle(t, b.Bytes(), in)
		if t.Chance(1, 5) {
			in.how += ", CRLF"
			in.data = bytes.ReplaceAll(in.data, []byte("\n"), []byte("\r\n"))
		}
	case fRDF:
		in.data = rdfDoc(t, in.ver)
	}
	if len(in.data) == 0 {
		return fallback(in)
	}
	return in
}

// thin leaves out whole parts of some documents.
func thin(t *vsimrt.Tape, doc any, in *Input) any {
	if !t.Chance(1, 5) {
		return doc
	}
	in.how += ", with parts left out"
	v := reflect.ValueOf(doc).Elem()
	for i := 0; i < v.NumField(); i++ {
		if n := v.Type().Field(i).Name; n != "SPDXVersion" && (n != "SPDXIdentifier" || t.N(4) == 0) && t.N(2) == 0 {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
	}
	return doc
}

// safely keeps a panic of the code under test from ending a generator.
func safely(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

func fallback(in *Input) *Input {
	in.how = "fallback sample"
	in.ver = "v2_3"
	switch in.f {
	case fJSON:
		in.data = corpus("SPDXJSONExample-v2.3.spdx.json")
	case fYAML:
		in.data = corpus("SPDXYAMLExample-2.3.spdx.yaml")
	case fTV:
		in.data = corpus("SPDXTagExample-v2.3.spdx")
	default:
		in.data = rdfDoc(vsimrt.NewTape("x", 1, nil, true), "v2_3")
	}
	return in
}

func sample(t *vsimrt.Tape, f int, in *Input) []byte {
	in.how = "sample document"
	in.ver = versions[t.N(2)]
	switch f {
	case fJSON:
		if in.ver == "v2_2" {
			return corpus("SPDXJSONExample-v2.2.spdx.json")
		}
		return corpus("SPDXJSONExample-v2.3.spdx.json")
	case fYAML:
		if in.ver == "v2_2" {
			return corpus("SPDXYAMLExample-2.2.spdx.yaml")
		}
		return corpus("SPDXYAMLExample-2.3.spdx.yaml")
	case fTV:
		switch t.N(4) {
		case 2:
			in.ver = "v2_2"
			return corpus("hello.spdx")
		case 3:
			in.ver = "v2_2"
			return corpus("hello-modified.spdx")
		}
		if in.ver == "v2_2" {
			return corpus("SPDXTagExample-v2.2.spdx")
		}
		return corpus("SPDXTagExample-v2.3.spdx")
	}
	return nil
}

// jsonBytes serialises doc in one of several layouts.
func jsonBytes(t *vsimrt.Tape, doc any, in *Input) []byte {
	var b bytes.Buffer
	var opts []json.WriteOption
	switch t.N(4) {
	case 1:
		opts = append(opts, json.Indent("  "))
	case 2:
		opts = append(opts, json.EscapeHTML(false))
	}
	if safely(func() error { return json.Write(doc, &b, opts...) }) != nil {
		fallback(in)
		return in.data
	}
	out := b.Bytes()
	if t.Chance(1, 2) {
		// the same content in another layout
		var v any
		d := stdjson.NewDecoder(bytes.NewReader(out))
		d.UseNumber()
		if d.Decode(&v) == nil {
			e := jsonStyle{t: t, ws: t.N(3), esc: t.N(3), shuffle: t.N(2) == 1}
			e.val(v)
			out = []byte(e.b.String())
			in.how += ", re-laid"
		}
	}
	switch t.N(6) {
	case 4:
		out = append(bytes.TrimRight(out, "\n"), " \t\r\n\n"...)
	case 5:
		out = bytes.TrimRight(out, "\n")
	}
	return out
}

// jsonStyle emits generic JSON with varying white space, escapes and key order.
type jsonStyle struct {
	t       *vsimrt.Tape
	b       strings.Builder
	ws, esc int
	shuffle bool
}

func (e *jsonStyle) sp() {
	switch e.ws {
	case 1:
		e.b.WriteByte(' ')
	case 2:
		e.b.WriteString([]string{"", "\r\n", "\n\t", "  "}[e.t.N(4)])
	}
}

func (e *jsonStyle) str(s string) {
	e.b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			e.b.WriteByte('\\')
			e.b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&e.b, "\\u%04x", r)
		case e.esc == 1 && r > 0x7e || e.esc == 2 && e.t.N(9) == 8:
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&e.b, "\\u%04X\\u%04x", 0xd800+r>>10, 0xdc00+r&0x3ff)
			} else {
				fmt.Fprintf(&e.b, "\\u%04x", r)
			}
		default:
			e.b.WriteRune(r)
		}
	}
	e.b.WriteByte('"')
}

func (e *jsonStyle) val(v any) {
	switch x := v.(type) {
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if e.shuffle {
			for i := len(keys) - 1; i > 0; i-- {
				j := e.t.N(i + 1)
				keys[i], keys[i-j] = keys[i-j], keys[i]
			}
		}
		e.b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				e.b.WriteByte(',')
			}
			e.sp()
			e.str(k)
			e.b.WriteByte(':')
			e.sp()
			e.val(x[k])
		}
		e.sp()
		e.b.WriteByte('}')
	case []any:
		e.b.WriteByte('[')
		for i, y := range x {
			if i > 0 {
				e.b.WriteByte(',')
			}
			e.sp()
			e.val(y)
		}
		e.sp()
		e.b.WriteByte(']')
	case string:
		e.str(x)
	case stdjson.Number:
		e.b.WriteString(x.String())
	case bool:
		fmt.Fprint(&e.b, x)
	case nil:
		e.b.WriteString("null")
	default:
		fmt.Fprint(&e.b, x)
	}
}

// tvStyle changes the layout of a tag-value document between elements.
func tvStyle(t *vsimrt.Tape, data []byte, in *Input) []byte {
	if t.N(2) == 0 {
		return data
	}
	in.how += ", re-laid"
	var out []string
	inText := false
	for _, l := range strings.Split(strings.TrimSuffix(string(data), "\n"), "\n") {
		if !inText && t.N(12) == 11 {
			out = append(out, []string{"# comment: here", "", "   ", "#", "\t# <text>"}[t.N(5)])
		}
		was := inText
		if !inText {
			if i := strings.Index(l, "<text>"); i >= 0 {
				inText = true
			}
		}
		if inText && strings.Contains(l, "</text>") {
			inText = false
		} else if !inText && !was && t.N(10) == 9 {
			if i := strings.Index(l, ": "); i > 0 {
				l = "  " + l[:i] + ":" + []string{"", "   ", "\t"}[t.N(3)] + l[i+2:] + "  "
			}
		}
		out = append(out, l)
	}
	s := strings.Join(out, "\n")
	if t.N(3) > 0 {
		s += "\n"
	}
	return []byte(s)
}

// ---------------------------------------------------------------- corruption

// corrupt damages an input; the result may be valid by accident.
func corrupt(t *vsimrt.Tape, in *Input) {
	in.valid = false
	n := 1
	if t.Chance(1, 4) {
		n = 1 + t.N(4)
	}
	for ; n > 0; n-- {
		if in.f == fJSON && t.N(3) > 0 || in.f == fYAML && t.N(4) == 3 {
			if jsonMutate(t, in) {
				continue
			}
		}
		if in.f == fTV && t.N(3) > 0 {
			tvMutate(t, in)
			continue
		}
		if in.f == fRDF && t.N(3) > 0 {
			rdfMutate(t, in)
			continue
		}
		byteMutate(t, in)
	}
}

func byteMutate(t *vsimrt.Tape, in *Input) {
	d := append([]byte(nil), in.data...)
	if len(d) == 0 {
		d = []byte("x")
	}
	at := t.N(len(d))
	switch t.N(9) {
	case 0:
		d = d[:at]
		in.how += ", truncated"
	case 1:
		d[at] ^= 1 << t.N(8)
		in.how += ", bit flip"
	case 2:
		end := at + 1 + t.N(200)
		if end > len(d) {
			end = len(d)
		}
		d = append(d[:at:at], d[end:]...)
		in.how += ", part lost"
	case 3:
		end := at + 1 + t.N(200)
		if end > len(d) {
			end = len(d)
		}
		d = append(d[:end:end], d[at:]...)
		in.how += ", part duplicated"
	case 4:
		// two blocks swapped
		bs := 1 + t.N(512)
		if a, b := t.N(1+len(d)/bs), t.N(1+len(d)/bs); a != b && (a+1)*bs <= len(d) && (b+1)*bs <= len(d) {
			x := append([]byte(nil), d[a*bs:(a+1)*bs]...)
			copy(d[a*bs:], d[b*bs:(b+1)*bs])
			copy(d[b*bs:], x)
		}
		in.how += ", blocks swapped"
	case 5:
		for i := at; i < len(d) && i < at+64; i++ {
			d[i] = 0
		}
		in.how += ", zeroed block"
	case 6:
		ins := []string{"{", "}", "[", "]", `"`, ":", ",", "\n", "<", ">", "&", "null", "\x00", "\xff\xfe", "<text>", "</text>", "- ", "  ", "\t", "!!", "*a", "&a ", "|", "#", "%", "true", "-1", "1e999", "\\u", "SPDXRef-", "LicenseRef-", "rdf:resource", "/>", "<!--", "]]>"}[t.N(34)]
		d = append(d[:at:at], append([]byte(ins), d[at:]...)...)
		in.how += ", insertion"
	case 7:
		// the beginning of one document, the end of another
		if o := genOther(t, in.f); len(o) > 0 {
			k := t.N(len(o))
			d = append(d[:at:at], o[k:]...)
		}
		in.how += ", spliced"
	case 8:
		d[at] = byte(t.N(256))
		in.how += ", byte changed"
	}
	in.data = d
}

func genOther(t *vsimrt.Tape, f int) []byte {
	in := fallback(&Input{f: f})
	return in.data
}

// jsonMutate replaces, removes or duplicates a node of the JSON tree: the
// result is well-formed JSON of the wrong shape.
func jsonMutate(t *vsimrt.Tape, in *Input) bool {
	var v any
	d := stdjson.NewDecoder(bytes.NewReader(in.data))
	d.UseNumber()
	if in.f == fYAML && !bytes.HasPrefix(bytes.TrimSpace(in.data), []byte("{")) {
		return false
	}
	if d.Decode(&v) != nil {
		return false
	}
	type slot struct {
		set func(any)
		del func()
		v   any
		k   string
	}
	var slots []slot
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			for _, k := range sortedKeys(x) {
				k := k
				slots = append(slots, slot{set: func(n any) { x[k] = n }, del: func() { delete(x, k) }, v: x[k], k: k})
				walk(x[k])
			}
		case []any:
			for i := range x {
				i := i
				slots = append(slots, slot{set: func(n any) { x[i] = n }, del: func() { x[i] = nil }, v: x[i]})
				walk(x[i])
			}
		}
	}
	walk(v)
	if len(slots) == 0 {
		return false
	}
	s := slots[t.N(len(slots))]
	if t.N(3) == 0 {
		// prefer the top levels
		s = slots[t.N(1+len(slots)/8)]
	}
	switch t.N(10) {
	case 0:
		s.set(nil)
	case 1:
		s.set(stdjson.Number("7"))
	case 2:
		s.set([]any{})
	case 3:
		s.set(map[string]any{})
	case 4:
		s.set([]any{nil, s.v, nil})
	case 5:
		s.set("")
	case 6:
		s.set([]string{"x", "Person:", "Person", "SPDXRef-", ":", "DocumentRef-", "DocumentRef-a:", "DocumentRef-a:b", "a:b:c", "Tool: ", "-1", "NONE", "SPDX-9.9", "SPDX-2.1", "\u0000"}[t.N(15)])
	case 7:
		s.del()
	case 8:
		s.set(true)
	case 9:
		s.set(map[string]any{"": s.v, "x": []any{s.v}})
	}
	e := jsonStyle{t: t}
	e.val(v)
	in.data = []byte(e.b.String())
	in.how += ", node " + s.k + " mutated"
	return true
}

var tvTags = []string{"SPDXVersion", "SPDXID", "DocumentName", "Creator", "Created", "PackageName", "PackageSupplier", "PackageChecksum", "PackageVerificationCode", "ExternalRef", "ExternalRefComment", "FilesAnalyzed",
	"FileName", "FileType", "FileChecksum", "ArtifactOfProjectName", "ArtifactOfProjectHomePage", "ArtifactOfProjectURI", "FileDependency", "SnippetSPDXID", "SnippetSPDXIdentifier", "SnippetFromFileSPDXID", "SnippetByteRange", "SnippetLineRange",
	"LicenseID", "ExtractedText", "LicenseName", "LicenseCrossReference", "LicenseComment", "Relationship", "RelationshipComment", "Annotator", "AnnotationDate", "AnnotationType", "SPDXREF", "AnnotationComment", "Reviewer", "ReviewDate", "ReviewComment", "ExternalDocumentRef", "SnippetName", "Unknown", "PackageAttributionText", "FileAttributionText", "SnippetAttributionText", "PrimaryPackagePurpose", "LicenseListVersion", "PackageCopyrightText", "FileCopyrightText", "PackageLicenseInfoFromFiles", "LicenseInfoInFile", "LicenseInfoInSnippet"}
var tvVals = []string{"", ":", "x", "x y", "SPDXRef-a", "SPDXRef-", "SHA1: 1", "SHA1:", "SHA1", "Person: a", "Person:", "a: b: c", "1:2", "1:", ":2", "a:b", "99999999999999999999:1", "true", "maybe", "<text>", "<text>a</text>", "</text>", "SPDXRef-a DESCRIBES SPDXRef-b", "SPDXRef-a DESCRIBES", "DocumentRef-x:SPDXRef-a CONTAINS NONE", "SECURITY cpe23Type x", "SECURITY", "DocumentRef-x http://a SHA1: b", "DocumentRef-x", "abc (excludes: ./x)", "abc (", "abc (excludes", "LicenseRef-1", "NONE", "SPDX-2.3", "SPDX-2.1", "SPDX-9"}

func tvMutate(t *vsimrt.Tape, in *Input) {
	ls := strings.Split(string(in.data), "\n")
	i := t.N(len(ls))
	switch t.N(8) {
	case 0:
		ls = append(ls[:i:i], ls[i+1:]...)
		in.how += ", line lost"
	case 1:
		ls = append(ls[:i+1:i+1], ls[i:]...)
		in.how += ", line duplicated"
	case 2:
		j := t.N(len(ls))
		ls[i], ls[j] = ls[j], ls[i]
		in.how += ", lines swapped"
	case 3:
		if k := strings.Index(ls[i], ":"); k >= 0 {
			ls[i] = ls[i][:k+1] + " " + tvVals[t.N(len(tvVals))]
		}
		in.how += ", value changed"
	case 4, 5:
		l := tvTags[t.N(len(tvTags))] + ": " + tvVals[t.N(len(tvVals))]
		ls = append(ls[:i:i], append([]string{l}, ls[i:]...)...)
		in.how += ", line inserted"
	case 6:
		k := t.N(len(ls[i]) + 1)
		ls[i] = ls[i][:k]
		in.how += ", line cut"
	case 7:
		ls[i] = strings.Replace(strings.Replace(ls[i], "</text>", "", 1), ": ", ":", t.N(2))
		in.how += ", closing tag lost"
	}
	in.data = []byte(strings.Join(ls, "\n"))
}

func rdfMutate(t *vsimrt.Tape, in *Input) {
	s := string(in.data)
	var tags [][2]int
	for i := 0; i < len(s); i++ {
		if s[i] == '<' {
			if j := strings.IndexByte(s[i:], '>'); j > 0 {
				tags = append(tags, [2]int{i, i + j + 1})
				i += j
			}
		}
	}
	if len(tags) == 0 {
		byteMutate(t, in)
		return
	}
	k := t.N(len(tags))
	a, b := tags[k][0], tags[k][1]
	names := []string{"spdx:Package", "spdx:File", "spdx:Snippet", "spdx:SpdxDocument", "spdx:name", "spdx:relationship", "spdx:Relationship", "spdx:checksum", "spdx:Checksum", "spdx:range", "ptr:StartEndPointer", "ptr:startPointer", "spdx:member", "spdx:hasFile", "spdx:licenseConcluded", "spdx:annotation", "spdx:Annotation", "spdx:fileType", "spdx:creationInfo", "spdx:CreationInfo", "spdx:specVersion", "spdx:ConjunctiveLicenseSet", "spdx:WithExceptionOperator", "spdx:OrLaterOperator", "spdx:ListedLicense", "rdf:Description", "spdx:referenceCategory", "spdx:crossRef", "rdf:Seq"}
	switch t.N(9) {
	case 0:
		s = s[:a] + s[b:]
		in.how += ", tag lost"
	case 1:
		// element name replaced consistently
		old := strings.Fields(strings.Trim(s[a:b], "</>"))
		if len(old) > 0 {
			nw := names[t.N(len(names))]
			if t.N(2) == 0 {
				s = strings.ReplaceAll(s, "<"+old[0]+">", "<"+nw+">")
				s = strings.ReplaceAll(s, "<"+old[0]+" ", "<"+nw+" ")
				s = strings.ReplaceAll(s, "<"+old[0]+"/>", "<"+nw+"/>")
				s = strings.ReplaceAll(s, "</"+old[0]+">", "</"+nw+">")
			} else if cl := "</" + old[0] + ">"; strings.HasSuffix(s[a:b], "/>") {
				s = s[:a] + "<" + nw + s[a+1+len(old[0]):]
			} else if e := strings.Index(s[b:], cl); e >= 0 && !strings.HasPrefix(s[a:b], "</") {
				s = s[:a] + "<" + nw + s[a+1+len(old[0]):b+e] + "</" + nw + ">" + s[b+e+len(cl):]
			}
		}
		in.how += ", element renamed"
	case 2:
		// whole element removed
		old := strings.Fields(strings.Trim(s[a:b], "</>"))
		if len(old) > 0 && !strings.HasPrefix(s[a:b], "</") {
			if strings.HasSuffix(s[a:b], "/>") {
				s = s[:a] + s[b:]
			} else if e := strings.Index(s[b:], "</"+old[0]+">"); e >= 0 {
				s = s[:a] + s[b+e+len(old[0])+3:]
			}
		}
		in.how += ", element removed"
	case 3:
		// element made empty
		old := strings.Fields(strings.Trim(s[a:b], "</>"))
		if len(old) > 0 && !strings.HasPrefix(s[a:b], "</") && !strings.HasSuffix(s[a:b], "/>") {
			if e := strings.Index(s[b:], "</"+old[0]+">"); e >= 0 {
				s = s[:b] + s[b+e:]
			}
		}
		in.how += ", element emptied"
	case 4:
		// whole element duplicated
		old := strings.Fields(strings.Trim(s[a:b], "</>"))
		if len(old) > 0 && !strings.HasPrefix(s[a:b], "</") {
			end := b
			if !strings.HasSuffix(s[a:b], "/>") {
				e := strings.Index(s[b:], "</"+old[0]+">")
				if e < 0 {
					break
				}
				end = b + e + len(old[0]) + 3
			}
			if end-a < 4000 {
				s = s[:end] + s[a:end] + s[end:]
			}
		}
		in.how += ", element duplicated"
	case 5:
		uris := []string{spdxNS + "noassertion", docNS + "#SPDXRef-Package1", docNS + "#SPDXRef-DOCUMENT", "#SPDXRef-DOCUMENT", "", "SPDXRef-x", spdxNS + "relationshipType_contains", "http://spdx.org/licenses/", "x#", "#", docNS + "#SPDXRef-File1"}
		tag := s[a:b]
		for _, at := range []string{`rdf:resource="`, `rdf:about="`} {
			if i := strings.Index(tag, at); i >= 0 {
				if j := strings.IndexByte(tag[i+len(at):], '"'); j >= 0 {
					tag = tag[:i+len(at)] + uris[t.N(len(uris))] + tag[i+len(at)+j:]
					break
				}
			}
		}
		s = s[:a] + tag + s[b:]
		in.how += ", URI changed"
	case 6:
		tag := s[a:b]
		i := strings.Index(tag, " ")
		if i > 0 {
			if strings.HasSuffix(tag, "/>") {
				tag = tag[:i] + "/>"
			} else {
				tag = tag[:i] + ">"
			}
		}
		s = s[:a] + tag + s[b:]
		in.how += ", attributes lost"
	case 7:
		// text replaced
		if e := strings.IndexByte(s[b:], '<'); e > 0 && strings.TrimSpace(s[b:b+e]) != "" {
			s = s[:b] + []string{"", "x", "Person", ":", "-1", "99999999999999999999", "NONE", "http://x#y"}[t.N(8)] + s[b+e:]
		}
		in.how += ", text changed"
	case 8:
		j := t.N(len(tags))
		x, y := tags[j][0], tags[j][1]
		if x >= b {
			s = s[:a] + s[x:y] + s[b:x] + s[a:b] + s[y:]
		}
		in.how += ", tags swapped"
	}
	in.data = []byte(s)
}

// convertDoc converts to the given version.
func convertDoc(doc any, ver string) (any, error) {
	out := newDoc(ver)
	err := convert.Document(doc, out)
	return out, err
}
