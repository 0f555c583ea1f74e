package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	sigsyaml "sigs.k8s.io/yaml"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C28", Title: "written form", Quick: 16000, Thorough: 240000, Race: 10,
		Rule: "1-3 concurrent tasks write a generated document as JSON, YAML or tag-value (some after a failed write, some several times), and what the sink accepted is parsed by the harness's own parser of the format and compared with what the format prescribes for the document; non-trivial when a document with a package or a file was compared",
		Real: writeReal, Stub: writeStub,
		Assume: []string{"the member names, tags and value forms of the SPDX 2.1-2.3 JSON schema and tag-value format; members with empty values count as absent, filesAnalyzed is true by default (false in the JSON form of 2.1, which no specification defines)", "texts in YAML have no U+0085 (known finding)"},
		Run:    runC28})
}

func zeroTape() *vsimrt.Tape { return vsimrt.NewTape("zero", 1, nil, true) }

// ---------------------------------------------------------------- JSON form

// jsonParse parses JSON keeping the members' order; it reports members that
// occur twice.
func jsonParse(data []byte) (*jn, error) {
	d := stdjson.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var val func() (*jn, error)
	val = func() (*jn, error) {
		tok, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case stdjson.Delim:
			n := &jn{k: 'a'}
			if x == '{' {
				n.k = 'o'
			}
			for d.More() {
				if n.k == 'o' {
					k, err := d.Token()
					if err != nil {
						return nil, err
					}
					for _, o := range n.keys {
						if o == k.(string) {
							return nil, fmt.Errorf("member %q occurs twice", o)
						}
					}
					n.keys = append(n.keys, k.(string))
				}
				v, err := val()
				if err != nil {
					return nil, err
				}
				n.vals = append(n.vals, v)
			}
			_, err := d.Token()
			return n, err
		case string:
			return jstr(x), nil
		case stdjson.Number:
			return &jn{k: 'n', s: x.String()}, nil
		case bool:
			return &jn{k: 'b', s: fmt.Sprint(x)}, nil
		}
		return &jn{k: '0'}, nil
	}
	n, err := val()
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err == nil {
		return nil, fmt.Errorf("something follows the document")
	}
	return n, nil
}

// lines writes a node down, one line for each leaf, members sorted; what means
// nothing is left out.
func (n *jn) lines(path string, ver string, out *[]string) {
	switch n.k {
	case 'o':
		ix := make([]int, len(n.keys))
		for i := range ix {
			ix[i] = i
		}
		sort.Slice(ix, func(a, b int) bool { return n.keys[ix[a]] < n.keys[ix[b]] })
		for _, i := range ix {
			k, v := n.keys[i], n.vals[i]
			if v.void() || k == "filesAnalyzed" && v.s == fmt.Sprint(ver != "v2_1") {
				continue
			}
			if k == "referenceCategory" && v.k == 's' {
				v = jstr(strings.ReplaceAll(v.s, "_", "-"))
			}
			v.lines(path+"."+k, ver, out)
		}
	case 'a':
		for i, v := range n.vals {
			p := fmt.Sprintf("%s[%d]", path, i)
			if v.k == 'o' {
				*out = append(*out, p+" {}")
			}
			v.lines(p, ver, out)
		}
	default:
		*out = append(*out, fmt.Sprintf("%s = %c %q", path, n.k, n.s))
	}
}

func (n *jn) void() bool {
	switch n.k {
	case '0':
		return true
	case 's':
		return n.s == ""
	case 'a':
		return len(n.vals) == 0
	case 'n':
		return n.s == "0"
	case 'o':
		for _, v := range n.vals {
			if !v.void() {
				return false
			}
		}
		return true
	}
	return false
}

// jsonForm is what the JSON form of doc says.
func jsonForm(doc any, ver string) string {
	g := &jsonGen{t: zeroTape(), ver: ver, want: doc, nl: "\n", exact: true}
	var out []string
	g.node(reflect.ValueOf(doc).Elem()).lines("", ver, &out)
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------- tag-value form

type tvTag struct{ name, value string }

// tvParse splits a tag-value document into its tags.
func tvParse(s string) ([]tvTag, error) {
	var out []tvTag
	for len(s) > 0 {
		line := s
		i := strings.IndexByte(s, '\n')
		if i >= 0 {
			line = s[:i]
		}
		trim := strings.TrimSpace(line)
		if trim == "" || trim[0] == '#' {
			if i < 0 {
				break
			}
			s = s[i+1:]
			continue
		}
		c := strings.IndexByte(line, ':')
		if c < 0 {
			return nil, fmt.Errorf("a line without a tag: %q", clip(line, 80))
		}
		name, value := strings.TrimSpace(line[:c]), strings.TrimSpace(line[c+1:])
		if strings.ContainsAny(name, " \t<>") {
			return nil, fmt.Errorf("a line without a tag: %q", clip(line, 80))
		}
		if strings.HasPrefix(value, "<text>") {
			from := c + 1 + strings.Index(s[c+1:], "<text>") + len("<text>")
			to := strings.Index(s[from:], "</text>")
			if to < 0 {
				return nil, fmt.Errorf("a <text> without end: %q", clip(line, 80))
			}
			value = s[from : from+to]
			rest := s[from+to+len("</text>"):]
			i = strings.IndexByte(rest, '\n')
			if i < 0 {
				i = len(rest)
			}
			if strings.TrimSpace(rest[:i]) != "" {
				return nil, fmt.Errorf("something follows a text: %q", clip(rest[:i], 80))
			}
			s = strings.TrimPrefix(rest[i:], "\n")
		} else if i < 0 {
			s = ""
		} else {
			s = s[i+1:]
		}
		out = append(out, tvTag{name, value})
	}
	return out, nil
}

var tvPart = map[string]string{"RelationshipComment": "Relationship", "ExternalRefComment": "ExternalRef", "ArtifactOfProjectHomePage": "ArtifactOfProjectName", "ArtifactOfProjectURI": "ArtifactOfProjectName",
	"AnnotationDate": "Annotator", "AnnotationType": "Annotator", "SPDXREF": "Annotator", "AnnotationComment": "Annotator"}

// tvForm writes tags down: section by section, the tags of a section sorted but
// those of one name in their order, with those that belong to another after it;
// relationships and annotations, which belong to no section, at the end.
func tvForm(tags []tvTag) (string, error) {
	type entry struct {
		name  string
		lines []string
	}
	type section struct{ es []*entry }
	sec := &section{}
	secs := []*section{sec}
	apart := &section{}
	last := map[string]*entry{}
	if len(tags) == 0 || tags[0].name != "SPDXVersion" {
		return "", fmt.Errorf("the document does not begin with SPDXVersion")
	}
	for _, t := range tags {
		if t.value == "" {
			return "", fmt.Errorf("%s without a value", t.name)
		}
		if head := tvPart[t.name]; head != "" {
			e := last[head]
			if e == nil {
				return "", fmt.Errorf("%s without a %s", t.name, head)
			}
			e.lines = append(e.lines, fmt.Sprintf("  %s: %q", t.name, t.value))
			sort.Strings(e.lines[1:])
			continue
		}
		if t.name == "FilesAnalyzed" && t.value == "true" {
			continue
		}
		if t.name == "ExternalDocumentRef" {
			// both are in use: SHA1: d6a7 and SHA1:d6a7
			if i := strings.LastIndexByte(t.value, ':'); i > 0 {
				t.value = t.value[:i+1] + strings.TrimSpace(t.value[i+1:])
			}
		}
		e := &entry{t.name, []string{fmt.Sprintf("%s: %q", t.name, t.value)}}
		switch t.name {
		case "Relationship", "Annotator":
			apart.es = append(apart.es, e)
			last[t.name] = e
			continue
		case "PackageName", "FileName", "SnippetSPDXID", "SnippetSPDXIdentifier", "LicenseID", "Reviewer":
			sec = &section{}
			secs = append(secs, sec)
			last = map[string]*entry{"Relationship": last["Relationship"], "Annotator": last["Annotator"]}
		}
		last[t.name] = e
		sec.es = append(sec.es, e)
	}
	var b strings.Builder
	for i, s := range append(secs, apart) {
		fmt.Fprintf(&b, "section %d\n", i)
		sort.SliceStable(s.es, func(i, j int) bool { return s.es[i].name < s.es[j].name })
		for _, e := range s.es {
			b.WriteString(strings.Join(e.lines, "\n") + "\n")
		}
	}
	return b.String(), nil
}

// tvFormOf is what the tag-value form of doc says.
func tvFormOf(doc any, ver string) string {
	d := tvCanon(doc)
	g := &tvGen{t: zeroTape(), ver: ver, want: d}
	v := reflect.ValueOf(d)
	g.rels = elemsOf(fld(v, "Relationships"))
	g.anns = elemsOf(fld(v, "Annotations"))
	g.document(v)
	tags, err := tvParse(g.b.String())
	must0(err)
	s, err := tvForm(tags)
	must0(err)
	return s
}

// ----------------------------------------------------------------

// formOf parses what was written.
func formOf(k int, ver string, data []byte) (string, error) {
	switch k {
	case wTV:
		tags, err := tvParse(string(data))
		if err != nil {
			return "", err
		}
		return tvForm(tags)
	case wYAML:
		js, err := sigsyaml.YAMLToJSONStrict(data)
		if err != nil {
			return "", err
		}
		data = js
	}
	n, err := jsonParse(data)
	if err != nil {
		return "", err
	}
	var out []string
	n.lines("", ver, &out)
	return strings.Join(out, "\n"), nil
}

func runC28(c *Ctx) {
	t := c.Tape("input")
	n := 1 + t.N(3)
	type job struct {
		k    int
		ver  string
		doc  any
		want string
		outs [][]byte
		err  error
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{ver: versions[t.N(3)], k: []int{wTV, wJSON, wTV, wJSONIndent, wJSONNoEsc, wYAML}[t.N(6)]}
		g := c.Tape(fmt.Sprintf("doc%d", i))
		if j.k == wTV {
			j.doc = newGen(g, profTV).Doc(j.ver)
			j.want = tvFormOf(j.doc, j.ver)
		} else {
			gen := newGen(g, profJSON)
			gen.nel = gen.nel && j.k != wYAML
			j.doc = gen.Doc(j.ver)
			j.want = jsonForm(j.doc, j.ver)
		}
		jobs[i] = j
		byValue := t.N(2) == 1
		failFirst := t.N(4) == 0
		at := t.N(3000)
		times := 1 + t.N(2)
		c.Go("write", func(t *Task) {
			if failFirst {
				s := newSink(t)
				s.setFault(at, t.N(len(writeErrors)), t.N(2) == 0, false)
				write(j.k, j.doc, s, byValue)
			}
			for ; times > 0; times-- {
				s := newSink(t)
				if err := write(j.k, j.doc, s, byValue); err != nil {
					j.err = err
				}
				j.outs = append(j.outs, s.got)
			}
		})
	}
	tasks := c.tasks
	c.Run()
	c.trivial = true
	for i, j := range jobs {
		name := writerName[j.k]
		what := fmt.Sprintf("a %s document written as %s", j.ver, name)
		c.Note("format:" + name + " " + j.ver)
		c.Log("task %d: %s: %d times, err=%v", i, what, len(j.outs), j.err)
		if c.panicked(tasks[i], what) {
			continue
		}
		if j.err != nil && j.k == wYAML && strings.Contains(j.err.Error(), "control characters") {
			c.Note("refused by the YAML library") // it has no way to write U+007F
			continue
		}
		if j.err != nil {
			c.Fail("refused:"+name, "%s: a document the format can express is refused: %v", what, clip(j.err.Error(), 300))
			continue
		}
		c.sample = fmt.Sprintf("%s, %d bytes, %d task(s)", what, len(j.outs[0]), n)
		d := reflect.ValueOf(j.doc)
		if fld(d, "Packages").Len()+fld(d, "Files").Len() > 0 {
			c.trivial = false
		}
		for _, out := range j.outs {
			got, err := formOf(j.k, j.ver, out)
			if err != nil {
				c.Log("written: %s", clip(string(out), 6000))
				c.Fail("malformed:"+name, "%s is malformed: %v", what, err)
				break
			}
			if got != j.want {
				c.Log("written: %s", clip(string(out), 6000))
				c.Fail("form:"+name+":"+formField(j.want, got), "%s: what the format prescribes and what was written differ: %s", what, firstDiff(j.want, got))
				break
			}
			if p := layoutProblem(j.k, out); p != "" {
				c.Fail("layout:"+name, "%s: %s", what, p)
				break
			}
		}
	}
}

// formField names the tag or member of the first difference.
func formField(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "", ""
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			if x == "" || x > y && y != "" {
				x = y
			}
			x = strings.TrimSpace(x)
			if j := strings.IndexAny(x, ": ="); j > 0 {
				x = x[:j]
			}
			var f strings.Builder
			for _, r := range x {
				if r != '[' && r != ']' && (r < '0' || r > '9') {
					f.WriteRune(r)
				}
			}
			return f.String()
		}
	}
	return ""
}

// layoutProblem checks what the JSON writer's options promise.
func layoutProblem(k int, out []byte) string {
	if k > wJSONNoEsc {
		return ""
	}
	if len(out) == 0 || out[len(out)-1] != '\n' {
		return "the output does not end with a line break"
	}
	if k != wJSONNoEsc {
		if i := bytes.IndexAny(out, "<>&"); i >= 0 {
			return fmt.Sprintf("%q is not escaped", out[i])
		}
	} else if i := bytes.Index(out, []byte(`\u003c`)); i >= 0 && (i == 0 || out[i-1] != '\\') {
		return "'<' is escaped although EscapeHTML(false) was asked for"
	}
	var b bytes.Buffer
	if k == wJSON {
		if stdjson.Compact(&b, out) != nil || b.String() != strings.TrimSuffix(string(out), "\n") {
			return "the output is not in one line"
		}
		return ""
	}
	ind := map[int]string{wJSONIndent: "\t", wJSONNoEsc: " "}[k]
	if stdjson.Indent(&b, out, "", ind) != nil || b.String() != string(out) {
		return "the output is not indented as asked for"
	}
	return ""
}
