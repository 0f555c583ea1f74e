package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/spdx/tools-golang/spdx"

	"vsimrt"
)

// node of a simulated source tree
type node struct {
	name string
	kind byte // 'd' directory, 'f' file, 'l' symbolic link
	data []byte
	to   string
	kids []*node
}

// Tree is a source tree in the worker's scratch directory.
type Tree struct {
	root  string // absolute
	top   *node
	files []*tfile // regular files, in lexical walk order
	dated bool     // files have the times they are written at, not one and the same as those from an archive
}

type tfile struct {
	rel  string // "/a/b"
	data []byte
}

// fsRoot is where all trees of a run live.
func fsRoot() string { return filepath.Join(scratch, "fs") }

var nameParts = []string{"a", "b", "src", "lib", "a.b", "a-b", "a b", "main.c", "README", "x.txt", "foo", "foobar", "oo", ".git", ".x", "é", "日本", "File0", "**", "*", "a\nb", "A", "Z", "~", "0", "\"q\"", "'", "back\\slash", "\xff\xfe", "LICENSE", "spdx", "%s", "(x)", "a+b", "..x", "...", "SPDXRef-x", "a:b", "#c", "-"}

func (g *treeGen) name(used map[string]bool) string {
	for {
		n := nameParts[g.t.N(len(nameParts))]
		if g.plain && (strings.ContainsAny(n, "\n") || !utf8.ValidString(n)) {
			n = "plain"
		}
		if used[n] {
			n += fmt.Sprint(g.t.N(1000))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

type treeGen struct {
	t       *vsimrt.Tape
	left    int // nodes still to make
	content func() []byte
	paths   []string
	plain   bool // names are single lines of text
}

func (g *treeGen) dir(n *node, rel string, depth int) {
	used := map[string]bool{}
	k := g.t.N(6)
	if depth == 0 {
		k = 1 + g.t.N(9)
		if g.left > 30 {
			k += g.t.N(40)
		}
	}
	for i := 0; i < k && g.left > 0; i++ {
		g.left--
		c := &node{name: g.name(used)}
		p := rel + "/" + c.name
		switch x := g.t.N(10); {
		case x < 6 || depth >= 4 && x < 9:
			c.kind = 'f'
			c.data = g.content()
		case x < 9:
			c.kind = 'd'
			g.dir(c, p, depth+1)
		default:
			c.kind = 'l'
			switch g.t.N(5) {
			case 0:
				c.to = "."
			case 1:
				c.to = "nowhere"
			case 2:
				c.to = c.name // loop
			default:
				if len(g.paths) > 0 {
					c.to = "../" + filepath.Base(g.paths[g.t.N(len(g.paths))])
				} else {
					c.to = ".."
				}
			}
		}
		g.paths = append(g.paths, p)
		n.kids = append(n.kids, c)
	}
}

var sizes = []int{0, 1, 10, 100, 511, 512, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 70000, 98305}

// bytesOf makes content of one of the interesting sizes.
func bytesOf(t *vsimrt.Tape) []byte {
	n := sizes[t.N(len(sizes))]
	if t.N(4) > 0 {
		n = t.N(300)
	}
	if t.Chance(1, 3000) {
		// larger than any usual buffer
		n = []int{1 << 20, 1<<20 + 1, 1 << 18, 1<<22 + 5}[t.N(4)]
		if t.Chance(1, 16) {
			n = 1<<25 + 3
		}
	}
	b := make([]byte, n)
	x := uint64(t.U32()) | 1
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}
	return b
}

// newTree makes a tree with up to max nodes and writes it below fsRoot()/name.
func newTree(t *vsimrt.Tape, name string, max int, content func() []byte) *Tree {
	return newTreeOf(t, name, max, content, false)
}

func newTreeOf(t *vsimrt.Tape, name string, max int, content func() []byte, plain bool) *Tree {
	if content == nil {
		content = func() []byte { return bytesOf(t) }
	}
	g := &treeGen{t: t, left: max, content: content, plain: plain}
	tr := &Tree{root: filepath.Join(fsRoot(), name), top: &node{kind: 'd'}}
	if !t.Chance(1, 25) {
		g.dir(tr.top, "", 0)
	}
	if t.Chance(1, 400) {
		g.extreme(tr.top)
	}
	if t.Chance(1, 10) {
		// the tree has its own path inside it, as the image of a file system has
		rel, _ := filepath.Rel(scratch, tr.root)
		g.inner(tr.top, strings.Split(rel, "/"))
	}
	tr.dated = t.N(4) == 3
	tr.index()
	tr.write()
	return tr
}

// extreme adds to the tree, in which nothing has a name like these, a directory
// with many entries, one deep inside others, or one with long names.
func (g *treeGen) extreme(top *node) {
	small := func() []byte { return []byte(fmt.Sprint("content ", g.t.N(1000))) }
	d := &node{name: "extreme", kind: 'd'}
	top.kids = append(top.kids, d)
	switch g.t.N(4) {
	case 0, 1:
		n := []int{100, 101, 129, 257, 300}[g.t.N(5)]
		for i := 0; i < n; i++ {
			d.kids = append(d.kids, &node{name: fmt.Sprint("n", i), kind: 'f', data: small()})
		}
	case 2:
		n := []int{20, 33, 65, 120}[g.t.N(4)]
		for i := 0; i < n; i++ {
			if i%7 == 3 {
				d.kids = append(d.kids, &node{name: "file", kind: 'f', data: small()})
			}
			k := &node{name: string(rune('a' + i%26)), kind: 'd'}
			d.kids = append(d.kids, k)
			d = k
		}
		d.kids = append(d.kids, &node{name: "last", kind: 'f', data: small()})
	default:
		for i := 0; i < 4; i++ {
			d.kids = append(d.kids, &node{name: "long", kind: 'f', data: small()})
			k := &node{name: strings.Repeat("l", 255), kind: 'd'}
			d.kids = append(d.kids, k)
			d = k
		}
		d.kids = append(d.kids, &node{name: strings.Repeat("é", 127), kind: 'f', data: small()})
	}
}

// inner adds the directories of path with a file in the last to a directory of
// the tree.
func (g *treeGen) inner(n *node, path []string) {
	for _, k := range n.kids {
		if k.kind == 'd' && g.t.N(3) == 0 {
			n = k
			break
		}
	}
	for _, p := range path {
		var d *node
		for _, k := range n.kids {
			if k.name == p {
				d = k
			}
		}
		if d == nil {
			d = &node{name: p, kind: 'd'}
			n.kids = append(n.kids, d)
		}
		if d.kind != 'd' {
			return
		}
		n = d
	}
	for _, k := range n.kids {
		if k.name == "f" {
			return
		}
	}
	n.kids = append(n.kids, &node{name: "f", kind: 'f', data: g.content()})
}

// image puts a file into a directory of the tree under the absolute path of the
// tree itself, as the unpacked image of a file system has it.
func (tr *Tree) image(t *vsimrt.Tape) {
	if strings.Count(scratch, "/") != 4 {
		return // elsewhere the number of system calls would differ
	}
	g := &treeGen{t: t, content: func() []byte { return bytesOf(t) }}
	for _, k := range tr.top.kids {
		if k.name == "image" {
			return
		}
	}
	d := &node{name: "image", kind: 'd'}
	tr.top.kids = append(tr.top.kids, d)
	g.inner(d, strings.Split(tr.root[1:], "/"))
	tr.index()
	tr.write()
}

// plainPath takes the worker's directory, which differs from run to run, out of
// a text.
func plainPath(s string) string { return strings.ReplaceAll(s, scratch, "/SCRATCH") }

func (tr *Tree) index() {
	tr.files = nil
	var walk func(n *node, rel string)
	walk = func(n *node, rel string) {
		sort.SliceStable(n.kids, func(i, j int) bool { return n.kids[i].name < n.kids[j].name })
		for _, k := range n.kids {
			p := rel + "/" + k.name
			switch k.kind {
			case 'f':
				tr.files = append(tr.files, &tfile{p, k.data})
			case 'd':
				walk(k, p)
			}
		}
	}
	walk(tr.top, "")
}

func must0(err error) {
	if err != nil {
		panic(err)
	}
}

func (tr *Tree) setData(rel string, data []byte) {
	n := tr.top
	for _, name := range strings.Split(rel[1:], "/") {
		for _, k := range n.kids {
			if k.name == name {
				n = k
				break
			}
		}
	}
	n.data = data
}

var packed = time.Unix(1577836800, 0)

func (tr *Tree) write() {
	must0(os.RemoveAll(tr.root))
	must0(os.MkdirAll(tr.root, 0755))
	var w func(n *node, p string)
	w = func(n *node, p string) {
		for _, k := range n.kids {
			q := p + "/" + k.name
			switch k.kind {
			case 'f':
				must0(os.WriteFile(q, k.data, 0644))
				if !tr.dated {
					must0(os.Chtimes(q, packed, packed))
				}
			case 'd':
				must0(os.Mkdir(q, 0755))
				w(k, q)
			case 'l':
				must0(os.Symlink(k.to, q))
			}
		}
	}
	w(tr.top, tr.root)
}

func (tr *Tree) String() string {
	n, links := 0, 0
	var walk func(x *node)
	walk = func(x *node) {
		for _, k := range x.kids {
			if k.kind == 'd' {
				n++
			}
			if k.kind == 'l' {
				links++
			}
			walk(k)
		}
	}
	walk(tr.top)
	return fmt.Sprintf("%d files, %d directories, %d links", len(tr.files), n, links)
}

// list describes the tree for a trace.
func (tr *Tree) list() string {
	var b strings.Builder
	for _, f := range tr.files {
		fmt.Fprintf(&b, "%q(%d) ", plainPath(f.rel), len(f.data))
		if b.Len() > 1500 {
			b.WriteString("…")
			break
		}
	}
	return b.String()
}

// patterns makes ignore patterns, most of them related to the tree.
func (tr *Tree) patterns(t *vsimrt.Tape, max int) []string {
	var ps []string
	n := t.N(max + 1)
	for i := 0; i < n; i++ {
		rel := "/a/b"
		if len(tr.files) > 0 {
			rel = tr.files[t.N(len(tr.files))].rel
		}
		if strings.Contains(rel, scratch) {
			continue
		}
		dir, file := rel[:strings.LastIndex(rel, "/")+1], rel[strings.LastIndex(rel, "/")+1:]
		elems := strings.Split(strings.Trim(dir, "/"), "/")
		if strings.HasPrefix(file, "**") || strings.HasPrefix(dir, "/**") {
			continue
		}
		sub := elems[t.N(len(elems))]
		var p string
		switch t.N(12) {
		case 0:
			p = rel
		case 1:
			p = dir
		case 2:
			p = "**/" + file
		case 3:
			p = "**/" + sub + "/" + file
		case 4:
			p = "**/" + sub + "/"
		case 5:
			p = strings.TrimSuffix(dir, "/") // names the directory without a slash: nothing is ignored
		case 6:
			p = rel + "x"
		case 7:
			p = "/" + file
		case 8:
			p = "**/" + strings.TrimLeft(file, "abcdefgh")
		case 9:
			p = "**/" + strings.Join(elems, "/") + "/"
		case 10:
			if len(dir) > 2 {
				p = dir[:len(dir)-2] + "/"
			}
		case 11:
			p = strings.ToUpper(rel)
		}
		if !strings.HasPrefix(p, "/") && !strings.HasPrefix(p, "**/") || p == "/" || strings.Contains(p, "//") || p == "**/" && t.N(6) > 0 {
			continue
		}
		ps = append(ps, p)
	}
	return ps
}

// ignored is the documented meaning of an ignore pattern: a path to a specific
// file, or (ending in a slash) all files in a directory; with "**" in front,
// wherever in the tree it is.
func ignored(rel string, patterns []string) bool {
	dir, file := rel[:strings.LastIndex(rel, "/")+1], rel[strings.LastIndex(rel, "/")+1:]
	for _, p := range patterns {
		if q, ok := strings.CutPrefix(p, "**"); ok {
			if strings.HasSuffix(q, "/") {
				if strings.Contains(dir, q) {
					return true
				}
				continue
			}
			i := strings.LastIndex(q, "/")
			if q[i+1:] == file && strings.Contains(dir, q[:i+1]) {
				return true
			}
			continue
		}
		if strings.HasSuffix(p, "/") {
			if strings.HasPrefix(dir, p) {
				return true
			}
		} else if p == rel {
			return true
		}
	}
	return false
}

// listed returns the files the document must list.
func (tr *Tree) listed(patterns []string) []*tfile {
	var r []*tfile
	for _, f := range tr.files {
		if !ignored(f.rel, patterns) {
			r = append(r, f)
		}
	}
	return r
}

func hashes(b []byte) [3]string {
	return [3]string{fmt.Sprintf("%x", sha1.Sum(b)), fmt.Sprintf("%x", sha256.Sum256(b)), fmt.Sprintf("%x", md5.Sum(b))}
}

// fileHashes takes the three checksums out of a File; ok is false unless there
// is exactly one of each.
func fileHashes(f *spdx.File) (h [3]string, ok bool) {
	for _, c := range f.Checksums {
		i := map[string]int{"SHA1": 0, "SHA256": 1, "MD5": 2}[string(c.Algorithm)]
		if i == 0 && c.Algorithm != "SHA1" || h[i] != "" {
			return h, false
		}
		h[i] = c.Value
	}
	return h, len(f.Checksums) == 3
}

func verificationCode(shas []string) string {
	s := append([]string(nil), shas...)
	sort.Strings(s)
	return fmt.Sprintf("%x", sha1.Sum([]byte(strings.Join(s, ""))))
}

// docProblem says how a built document differs from what the tree demands
// ("" when it does not). want maps each listed path to its content.
func docProblem(doc *spdx.Document, name string, want []*tfile) string {
	if doc == nil {
		return "no document"
	}
	if len(doc.Packages) != 1 || doc.Packages[0] == nil {
		return fmt.Sprintf("%d packages instead of 1", len(doc.Packages))
	}
	p := doc.Packages[0]
	if p.PackageName != name || doc.DocumentName != name {
		return fmt.Sprintf("package %q, document %q, want %q", p.PackageName, doc.DocumentName, name)
	}
	for i := 0; i < len(p.Files) || i < len(want); i++ {
		if i >= len(want) {
			return fmt.Sprintf("file %d: %q must not be listed here (%d files expected)", i, p.Files[i].FileName, len(want))
		}
		if i >= len(p.Files) {
			return fmt.Sprintf("file %q is missing (%d listed, %d expected)", want[i].rel, len(p.Files), len(want))
		}
		if p.Files[i] == nil {
			return fmt.Sprintf("file %d is nil", i)
		}
		if p.Files[i].FileName != "."+want[i].rel {
			return fmt.Sprintf("file %d: %q instead of %q", i, p.Files[i].FileName, "."+want[i].rel)
		}
	}
	var shas []string
	ids := map[string]bool{string(p.PackageSPDXIdentifier): true, string(doc.SPDXIdentifier): true}
	for i, f := range p.Files {
		h, ok := fileHashes(f)
		if !ok {
			return fmt.Sprintf("file %q: checksums %v are not one each of SHA1, SHA256, MD5", f.FileName, f.Checksums)
		}
		if w := hashes(want[i].data); h != w {
			return fmt.Sprintf("file %q (%d bytes): checksums %v, want %v", f.FileName, len(want[i].data), h, w)
		}
		shas = append(shas, h[0])
		if id := string(f.FileSPDXIdentifier); id == "" || ids[id] {
			return fmt.Sprintf("file %q: identifier %q is empty or used twice", f.FileName, id)
		} else {
			ids[id] = true
		}
	}
	if p.PackageVerificationCode == nil || p.PackageVerificationCode.Value != verificationCode(shas) {
		return fmt.Sprintf("package verification code %v, want %s (over %d files)", p.PackageVerificationCode, verificationCode(shas), len(shas))
	}
	return ""
}

// ---------------------------------------------------------------- faults

var errnos = []struct {
	name string
	e    syscall.Errno
}{{"EIO", syscall.EIO}, {"EACCES", syscall.EACCES}, {"ENOENT", syscall.ENOENT}, {"EMFILE", syscall.EMFILE}, {"ENOMEM", syscall.ENOMEM}, {"ESTALE", syscall.ESTALE},
	{"EPERM", syscall.EPERM}, {"ENFILE", syscall.ENFILE}, {"ELOOP", syscall.ELOOP}, {"EBUSY", syscall.EBUSY}, {"ETIMEDOUT", syscall.ETIMEDOUT}, {"EISDIR", syscall.EISDIR}, {"EINVAL", syscall.EINVAL}, {"ENODEV", syscall.ENODEV}, {"EAGAIN", syscall.EAGAIN}, {"ENOTDIR", syscall.ENOTDIR}, {"ENXIO", syscall.ENXIO}, {"EBADF", syscall.EBADF}, {"ENOLINK", syscall.ENOLINK}, {"EREMOTEIO", syscall.EREMOTEIO}, {"EUCLEAN", syscall.EUCLEAN}, {"EBADMSG", syscall.EBADMSG},
	{"ENOSYS", syscall.ENOSYS}, {"EOPNOTSUPP", syscall.EOPNOTSUPP}, {"ENAMETOOLONG", syscall.ENAMETOOLONG}, {"EOVERFLOW", syscall.EOVERFLOW}, {"ENOTCONN", syscall.ENOTCONN}}

// nuisance is a fault plan that must make no difference: short reads and
// interrupted system calls. It is called from whatever goroutine makes the
// system call; the race detector must not see its own variables.
type nuisance struct {
	t     *vsimrt.Tape
	mode  int // 0: nothing, 1: seldom, 2: often
	eintr int // in a row
	n     [16]int
	c     *Ctx
}

const nShort = 15

func (c *Ctx) newNuisance(t *vsimrt.Tape) *nuisance {
	q := &nuisance{t: t, mode: t.N(3), c: c}
	c.nuisances = append(c.nuisances, q)
	return q
}

func (q *nuisance) flush() {
	for i, n := range q.n {
		if n > 0 {
			k := "short-read"
			if i != nShort {
				k = "EINTR:" + vsimrt.OpName[i]
			}
			q.c.Faults[k] += n
		}
		q.n[i] = 0
	}
}

//go:norace
func (q *nuisance) plan(op int, path string, n, gen int) (int, syscall.Errno) {
	if q.mode == 0 || op == vsimrt.OpClose {
		return n, 0
	}
	den := 30
	if q.mode == 2 {
		den = 4
	}
	if q.eintr < 6 && q.t.Chance(1, den) {
		q.eintr++
		q.n[op]++
		return n, syscall.EINTR
	}
	q.eintr = 0
	if op == vsimrt.OpRead && n > 1 && q.t.Chance(1, den/2) {
		q.n[nShort]++
		switch q.t.N(3) {
		case 0:
			return 1, 0
		case 1:
			return 1 + q.t.N(n), 0
		}
		return 1 + q.t.N(min(n, 64)), 0
	}
	return n, 0
}

// newFS installs the fault-injecting file-system layer for this run.
func (c *Ctx) newFS(plan func(op int, path string, n, gen int) (int, syscall.Errno)) *vsimrt.FS {
	f := &vsimrt.FS{Root: fsRoot(), Cwd: scratch, Plan: plan, Order: c.Tape("dents")}
	vsimrt.InstallFS(f)
	return f
}

// rel shortens paths for traces.
func rel(p string) string { return strings.TrimPrefix(p, fsRoot()) }
