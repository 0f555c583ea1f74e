package main

import (
	"fmt"
	"sort"
	"strings"
	"syscall"

	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/spdx"

	"vsimrt"
)

func init() {
	register(&Scenario{ID: "C17", Title: "licence search", Quick: 60000, Thorough: 900000,
		Rule: "1-2 concurrent licence searches of a drawn tree of source files under short reads, EINTR and drawn directory orders, then searches in which one drawn system call on one file fails; non-trivial when a file carries an identifier",
		Real: fsReal, Stub: fsStub,
		Assume: []string{"lines are shorter than 64 KiB", "identifiers are in the comment forms the generator knows (no closing mark after the expression but */)", "ignore patterns begin with / or **/"},
		Run:    runC17})
}

func search(tr *Tree, bIgn, sIgn []string) (*spdx.Document, error) {
	return searchAt(tr.root, bIgn, sIgn)
}

func searchAt(root string, bIgn, sIgn []string) (*spdx.Document, error) {
	return idsearcher.BuildIDsDocument("pkg", root, &idsearcher.Config{NamespacePrefix: "https://example.com/", BuilderPathsIgnored: bIgn, SearcherPathsIgnored: sIgn})
}

// ------------------------------------------------------------- source files

const tag = "SPDX-License-Identifier:"

var licNames = []string{"MIT", "Apache-2.0", "GPL-2.0-only", "GPL-2.0-or-later", "GPL-2.0+", "BSD-3-Clause", "LicenseRef-foo", "LicenseRef-x.1-y", "0BSD", "ISC", "MPL-2.0", "DocumentRef-ext:LicenseRef-z", "CC0-1.0", "NONE", "mit", "WITHOUT-1", "ANDROID", "ORacle"}

func licExpr(t *vsimrt.Tape, depth int) string {
	if depth > 2 || t.N(3) > 0 {
		l := licNames[t.N(len(licNames))]
		if t.N(8) == 0 {
			l += " WITH Classpath-exception-2.0"
		}
		return l
	}
	op := []string{" AND ", " OR ", " and ", " or ", " AND ", " OR "}[t.N(6)]
	e := licExpr(t, depth+1) + op + licExpr(t, depth+1)
	if t.N(3) == 0 || depth > 0 {
		return "(" + e + ")"
	}
	return e
}

var comments = []string{"// ", "# ", "/* ", " * ", "", "-- ", ";; ", "% ", "\t// ", "    # ", "<!-- ", "//", "REM ", "'", "\" ", "dnl ", "!", ".. ", "//! "}

// source makes a file's content: the interesting lines and much else.
func source(t *vsimrt.Tape) []byte {
	var b strings.Builder
	switch t.N(9) {
	case 0:
		return bytesOf(t) // no text at all
	case 1:
		return nil
	}
	eol := []string{"\n", "\n", "\n", "\r\n"}[t.N(4)]
	junk := func(n int) {
		x := uint64(t.U32()) | 1
		for i := 0; i < n; i++ {
			x = x*6364136223846793005 + 1442695040888963407
			const cs = "abcdefghij klmnopq:rst*/()-+.,SPDX\t\"\\<>é"
			b.WriteByte(cs[x>>32%uint64(len(cs))])
		}
	}
	n := t.N(9)
	if t.N(6) == 0 {
		n += 20
	}
	for i := 0; i < n; i++ {
		switch t.N(14) {
		default: // an identifier
			b.WriteString(comments[t.N(len(comments))])
			b.WriteString(tag)
			b.WriteString([]string{" ", "", "  ", "\t"}[t.N(4)])
			b.WriteString(licExpr(t, 0))
			b.WriteString([]string{"", "", " */", "*/", "  ", " */ more text", " */ MIT", "; Zlib", " - MIT", ", see COPYING", " # x", ": MIT", " -->", " [MIT]"}[t.N(14)])
		case 0:
			junk(t.N(80))
		case 1: // to and across the read buffer's boundary
			if want := []int{4096, 8192, 16384}[t.N(3)] - b.Len() - t.N(40); want > 0 {
				junk(want)
			}
		case 2: // a long line
			junk(5000 + t.N(55000))
		case 3: // code about identifiers
			b.WriteString([]string{"if strings.Contains(s, \"", "    regex = \"", "the tag ", "    fmt.Println(\"", "x = foo('"}[t.N(5)])
			b.WriteString(tag + " " + licExpr(t, 0))
		case 4:
			b.WriteString([]string{"// SPDX-License-Identifier MIT", "// spdx-license-identifier: MIT", "// SPDX-License-Identifie", "// SPDX-LicenseIdentifier: MIT", "// SPDX-License-Identifier : MIT", "// SPDX-License-ID: MIT", "License-Identifier: MIT", "# SPDX-FileCopyrightText: 2020 x"}[t.N(8)])
		case 5: // nothing after the tag
			b.WriteString("// " + tag + []string{"", " ", " */", " \"\""}[t.N(4)])
		case 6: // split over two lines: no identifier
			b.WriteString("// SPDX-License-" + eol + "Identifier: MIT")
		case 7: // twice in a line
			b.WriteString("/* " + tag + " " + licNames[t.N(len(licNames))] + " */ /* " + tag + " " + licNames[t.N(len(licNames))] + " */")
		case 8: // an empty line
		case 9: // many lines
			if t.N(20) == 0 {
				b.WriteString(strings.Repeat([]string{"x", "", "// code", "}"}[t.N(4)]+eol, []int{200, 1100, 500, 2100, 5000}[t.N(5)]))
			}
		}
		if i < n-1 || t.N(3) > 0 {
			b.WriteString(eol)
		}
	}
	return []byte(b.String())
}

// ------------------------------------------------------------- model

// kept tells the characters an identifier consists of.
func kept(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("_ \t\n\f\r.-+()", c) >= 0
}

// idsIn gives the identifiers (licence expressions) on the lines of a file.
func idsIn(data []byte) []string {
	seen := map[string]bool{}
	ids := []string{}
	for _, line := range strings.Split(string(data), "\n") {
		pre, rest, ok := strings.Cut(line, tag)
		if !ok {
			continue
		}
		n := 0
		for i := 0; i < len(pre); i++ {
			if kept(pre[i]) {
				n++
			}
		}
		if n > 5 {
			continue // text about identifiers
		}
		rest, _, _ = strings.Cut(rest, "*/")
		var id strings.Builder
		for _, c := range []byte(strings.TrimSpace(rest)) {
			if kept(c) || c == ':' {
				id.WriteByte(c)
			}
		}
		if s := id.String(); s != "" && !seen[s] {
			seen[s] = true
			ids = append(ids, s)
		}
	}
	sort.Strings(ids)
	return ids
}

// namedIn gives the licences and exceptions named in expressions.
func namedIn(ids []string, into map[string]bool) {
	for _, id := range ids {
		for _, e := range strings.FieldsFunc(id, func(r rune) bool { return r == ' ' || r == '\t' || r == '(' || r == ')' || r == '+' }) {
			switch strings.ToUpper(e) {
			case "AND", "OR", "WITH":
			default:
				into[e] = true
			}
		}
	}
}

func concluded(ids []string) string {
	if len(ids) == 1 {
		return ids[0]
	}
	var p []string
	for _, id := range ids {
		if strings.Contains(id, " AND ") || strings.Contains(id, " OR ") {
			id = "(" + id + ")"
		}
		p = append(p, id)
	}
	return strings.Join(p, " AND ")
}

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// searchProblem compares a document with what the files carry. The file named
// bad may lack identifiers (it became unreadable).
func searchProblem(doc *spdx.Document, want []*tfile, sIgn []string, bad string) string {
	if p := docProblem(doc, "pkg", want); p != "" {
		return p
	}
	union := map[string]bool{}
	for i, f := range doc.Packages[0].Files {
		w := want[i]
		ids := idsIn(w.data)
		if ignored(w.rel, sIgn) {
			ids = nil
		}
		set := map[string]bool{}
		namedIn(ids, set)
		lics := sortedKeys(set)
		conc := "NOASSERTION"
		if len(lics) == 0 {
			lics = []string{"NOASSERTION"}
		} else {
			conc = concluded(ids)
		}
		if w.rel == bad {
			for j, l := range f.LicenseInfoInFiles {
				if l == "NOASSERTION" && len(f.LicenseInfoInFiles) == 1 {
					continue
				}
				if !set[l] || j > 0 && f.LicenseInfoInFiles[j-1] >= l {
					return fmt.Sprintf("the unreadable file %q has licences %q; it carries %q", w.rel, f.LicenseInfoInFiles, lics)
				}
			}
			if len(f.LicenseInfoInFiles) == 0 {
				return fmt.Sprintf("the unreadable file %q has no licence information, not even NOASSERTION", w.rel)
			}
		} else {
			if !eqs(f.LicenseInfoInFiles, lics) {
				return fmt.Sprintf("file %q has licences %q; it carries %q", w.rel, f.LicenseInfoInFiles, lics)
			}
			if f.LicenseConcluded != conc {
				return fmt.Sprintf("file %q has concluded licence %q; it carries %q", w.rel, f.LicenseConcluded, ids)
			}
		}
		if len(f.LicenseInfoInFiles) == 1 && f.LicenseInfoInFiles[0] == "NOASSERTION" && !set["NOASSERTION"] {
			continue
		}
		for _, l := range f.LicenseInfoInFiles {
			union[l] = true
		}
	}
	all := sortedKeys(union)
	if len(all) == 0 {
		all = []string{"NOASSERTION"}
	}
	if got := doc.Packages[0].PackageLicenseInfoFromFiles; !eqs(got, all) {
		return fmt.Sprintf("the package's licences are %q; those of its files are %q", got, all)
	}
	return ""
}

func runC17(c *Ctx) {
	t := c.Tape("input")
	tr := newTree(t, "t", 2+t.N(12), func() []byte { return source(t) })
	n := 1 + t.N(2)
	io := c.Tape("io")
	q := c.newNuisance(io)
	type job struct {
		b, s []string
		root string
		doc  *spdx.Document
		err  error
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{b: tr.patterns(t, 1), s: tr.patterns(t, 2), root: dirRootOf(t, tr)}
		jobs[i] = j
		c.Go("search", func(t *Task) { j.doc, j.err = searchAt(j.root, j.b, j.s) })
	}
	c.newFS(q.plan)
	tasks := c.tasks
	c.Run()
	c.trivial = true
	for _, f := range tr.files {
		if len(idsIn(f.data)) > 0 {
			c.trivial = false
		}
	}
	for i, j := range jobs {
		what := fmt.Sprintf("search of %s, ignoring %q, not searching %q", tr, j.b, j.s)
		c.sample = what
		c.Log("%s: err=%v; %s", what, j.err != nil, tr.list())
		if c.panicked(tasks[i], what) {
			return
		}
		want := tr.listed(j.b)
		if j.err != nil {
			if len(want) == 0 {
				continue
			}
			c.Fail("error", "%s failed although no operation failed: %s", what, strings.ReplaceAll(j.err.Error(), scratch, ""))
			return
		}
		if p := searchProblem(j.doc, want, j.s, ""); p != "" {
			c.Fail("wrong", "%s: %s", what, p)
			return
		}
	}
	// now with one file that becomes unreadable
	j := jobs[0]
	want := tr.listed(j.b)
	if c.trivial || len(want) == 0 {
		return
	}
	for round := 0; round < 3; round++ {
		victim := want[io.N(len(want))]
		e := errnos[io.N(len(errnos))]
		skip := io.N(4) // reads that succeed first
		op := vsimrt.OpRead
		if io.N(4) == 0 {
			op = []int{vsimrt.OpOpen, vsimrt.OpFstat, vsimrt.OpStat}[io.N(3)]
			skip = 0
		}
		first := io.N(8) == 0 // already while hashing
		opens := 0
		hit := false
		q := c.newNuisance(io)
		c.newFS(func(o int, path string, n, gen int) (int, syscall.Errno) {
			if path == tr.root+victim.rel {
				if o == vsimrt.OpOpen {
					opens++
				}
				if o == op && (opens > 1 || first) {
					if skip == 0 || hit {
						if !hit {
							c.Fault("fs:" + vsimrt.OpName[o] + ":" + e.name)
						}
						hit = true
						return n, e.e
					}
					skip--
					if o == vsimrt.OpRead && n > 1 {
						return 1 + io.N(n), 0
					}
				}
			}
			return q.plan(o, path, n, gen)
		})
		var doc *spdx.Document
		var err error
		r := c.alone("search", func(t *Task) { doc, err = searchAt(tr.root, j.b, j.s) })
		what := fmt.Sprintf("search of %s, ignoring %q, not searching %q, %s of %q fails with %s (injected: %v)", tr, j.b, j.s, vsimrt.OpName[op], victim.rel, e.name, hit)
		c.Log("%s: err=%v", what, err != nil)
		if c.panicked(r, what) {
			return
		}
		if err != nil {
			if !hit {
				c.Fail("error", "%s failed although no operation failed: %s", what, strings.ReplaceAll(err.Error(), scratch, ""))
				return
			}
			continue
		}
		bad := ""
		if hit {
			bad = victim.rel
		}
		if p := searchProblem(doc, want, j.s, bad); p != "" {
			c.Fail("wrong-after-fault", "%s: %s", what, p)
			return
		}
	}
	// and again when all is well, perhaps after an edit
	what := "repeated"
	if io.N(2) == 0 {
		for _, f := range want {
			if d := relicensed(f.data); d != nil {
				tr.setData(f.rel, d)
				what = "repeated after an edit"
				break
			}
		}
		tr.index()
		c.newFS(nil)
		tr.write()
		want = tr.listed(j.b)
	}
	what = fmt.Sprintf("search of %s, ignoring %q, not searching %q, %s", tr, j.b, j.s, what)
	c.newFS(c.newNuisance(io).plan)
	var doc *spdx.Document
	var err error
	r := c.alone("search", func(t *Task) { doc, err = searchAt(tr.root, j.b, j.s) })
	if c.panicked(r, what) {
		return
	}
	if err != nil {
		c.Fail("error", "%s failed although no operation failed: %s", what, strings.ReplaceAll(err.Error(), scratch, ""))
	} else if p := searchProblem(doc, want, j.s, ""); p != "" {
		c.Fail("wrong-repeated", "%s: %s", what, p)
	}
}
