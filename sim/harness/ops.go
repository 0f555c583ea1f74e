package main

import (
	"fmt"
	"strings"
	"syscall"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"

	"vsimrt"
)

// Op is one operation of the library on given inputs. It can be repeated.
type Op struct {
	name string
	rdf  bool   // reads RDF
	in   *Input // what it reads
	size int    // bytes of input or (known after the first run) of output
	seam byte   // where faults enter: 'r' stream, 'w' sink, 'f' file system, 0 nowhere
	tree *Tree
	do   func(t *Task, f *opFault) (any, error)
}

// opFault is a fault for one execution of an operation.
type opFault struct {
	at, kind int
	a, b     bool
	hit      bool
	desc     string
}

// outcome is an operation's result as text; of a failure only that it failed.
func (o *Op) outcome(v any, err error, strict bool) string {
	if err != nil {
		return "error"
	}
	if s, ok := v.(string); ok {
		return s
	}
	return Dump(v, dumpOpt{strict: strict})
}

const (
	opRead = iota
	opWrite
	opReport
	opConvert
	opBuild
	opSearch
	opDiff
	opLib
	opFiles
	nOps
)

// opMix is how often each kind is drawn.
var opMix = []int{opRead, opWrite, opBuild, opSearch, opReport, opConvert, opRead, opWrite, opBuild, opSearch, opRead, opDiff, opLib, opFiles}

// rdfRate: one of how many reads is of RDF.
func (c *Ctx) genOp(t *vsimrt.Tape, i int, kind int, rdfRate int, corrupted bool) *Op {
	switch kind {
	case opRead:
		f := []int{fJSON, fTV, fYAML}[t.N(3)]
		if t.N(rdfRate) == rdfRate-1 {
			f = fRDF
		}
		in := genInput(t, f)
		bad := t.N(4) == 3
		if bad && corrupted && f != fRDF {
			corrupt(t, in)
		}
		return c.readOp(in, pickTarget(t))
	case opWrite:
		k := t.N(wTV + 1)
		prof := profJSON
		if k == wTV {
			prof = profTV
		}
		ver := versions[t.N(3)]
		return c.writeOp(k, newGen(t, prof).Doc(ver), t.N(2) == 1, true)
	case opReport:
		return c.writeOp(wReport, reportPackage(t), false, true)
	case opConvert:
		return c.convertOp(newGen(t, profile(t.N(2))).Doc(versions[t.N(3)]), versions[t.N(3)], true)
	case opBuild:
		tr := newTree(t, fmt.Sprintf("o%d", i), 2+t.N(12), nil)
		return c.treeOp(tr, dirRootOf(t, tr), tr.patterns(t, 2), nil, false)
	case opSearch:
		tr := newTree(t, fmt.Sprintf("o%d", i), 2+t.N(8), func() []byte { return source(t) })
		return c.treeOp(tr, dirRootOf(t, tr), tr.patterns(t, 1), tr.patterns(t, 1), true)
	case opDiff:
		return c.diffOp(reportPackage(t), reportPackage(t))
	case opLib:
		return c.libOp(newGen(t, profile(t.N(2))).Doc("v2_3").(*spdx.Document))
	case opFiles:
		tr := newTree(t, fmt.Sprintf("o%d", i), 2+t.N(8), nil)
		return c.filesOp(tr, tr.patterns(t, 2))
	}
	panic("kind")
}

func (c *Ctx) readOp(in *Input, target string) *Op {
	o := &Op{name: "read " + in.String() + " as " + target, rdf: in.f == fRDF, size: len(in.data), seam: 'r', in: in}
	o.do = func(t *Task, f *opFault) (any, error) {
		s := newStream(t, in.data)
		if f != nil {
			s.setFault(f.at%(len(in.data)+1), f.kind%len(readErrors), f.a, f.b)
			defer func() { f.hit = s.failed > 0; f.desc = s.describe() }()
		}
		return doRead(in.f, s, target)
	}
	return o
}

func (c *Ctx) writeOp(k int, doc any, byValue, fresh bool) *Op {
	o := &Op{name: "write " + writerName[k], seam: 'w'}
	o.do = func(t *Task, f *opFault) (any, error) {
		s := newSink(t)
		if f != nil {
			s.setFault(f.at%(o.size+1), f.kind%len(writeErrors), f.a, f.b)
			defer func() { f.hit = s.failed > 0; f.desc = s.describe() }()
		}
		d := doc
		if fresh {
			d = deepCopy(doc)
		}
		err := write(k, d, s, byValue)
		if f == nil {
			o.size = len(s.got)
		}
		return string(s.got), err
	}
	return o
}

func (c *Ctx) convertOp(doc any, ver string, fresh bool) *Op {
	return &Op{name: "convert to " + ver, do: func(t *Task, f *opFault) (any, error) {
		vsimrt.Seam()
		d := doc
		if fresh {
			d = deepCopy(doc)
		}
		out := newDoc(ver)
		err := convert.Document(d, out)
		return out, err
	}}
}

func (c *Ctx) treeOp(tr *Tree, root string, bIgn, sIgn []string, srch bool) *Op {
	o := &Op{name: "build " + tr.String(), seam: 'f', tree: tr}
	if srch {
		o.name = "search " + tr.String()
	}
	o.do = func(t *Task, f *opFault) (any, error) {
		vsimrt.Seam()
		if srch {
			return searchAt(root, bIgn, sIgn)
		}
		return buildTree(tr, root, bIgn)
	}
	return o
}

func (c *Ctx) filesOp(tr *Tree, ign []string) *Op {
	return &Op{name: "list and hash files of " + tr.String(), seam: 'f', tree: tr, do: func(t *Task, f *opFault) (any, error) {
		vsimrt.Seam()
		ps, err := utils.GetAllFilePaths(tr.root, ign)
		if err != nil {
			return nil, err
		}
		var b strings.Builder
		for _, p := range ps {
			a, s, m, err := utils.GetHashesForFilePath(tr.root + p)
			if err != nil {
				return nil, err
			}
			fmt.Fprintf(&b, "%q %s %s %s\n", p, a, s, m)
		}
		return b.String(), nil
	}}
}

func (c *Ctx) diffOp(p, q *spdx.Package) *Op {
	return &Op{name: "licence diff", do: func(t *Task, f *opFault) (any, error) {
		vsimrt.Seam()
		m, err := licensediff.MakePairs(p, q)
		if err != nil {
			return nil, err
		}
		d, err := licensediff.MakeResults(m)
		return struct {
			P any
			D any
		}{m, d}, err
	}}
}

func (c *Ctx) libOp(doc *spdx.Document) *Op {
	return &Op{name: "spdxlib", do: func(t *Task, f *opFault) (any, error) {
		vsimrt.Seam()
		ids, err := spdxlib.GetDescribedPackageIDs(doc)
		all, err2 := spdxlib.FilterRelationships(doc, func(r *spdx.Relationship) *common.ElementID { return &r.RefA.ElementRefID })
		err3 := spdxlib.ValidateDocument(doc)
		var codes []string
		for _, p := range doc.Packages {
			vc, err := utils.GetVerificationCode(p.Files, "./f1")
			codes = append(codes, fmt.Sprint(vc, err != nil))
		}
		return fmt.Sprintf("described %q %v, filter %q %v, valid %v, codes %q", ids, err != nil, all, err2 != nil, err3 == nil, codes), nil
	}}
}

// docOps draws an operation that reads a given document without the right to
// change it.
func (c *Ctx) docOp(t *vsimrt.Tape, doc any) *Op {
	d3, _ := doc.(*spdx.Document)
	for {
		switch t.N(8) {
		case 0, 1:
			return c.writeOp(t.N(wYAML+1), doc, t.N(2) == 1, false)
		case 2, 3:
			return c.writeOp(wTV, doc, t.N(2) == 1, false)
		case 4:
			return c.convertOp(doc, versions[t.N(3)], false)
		case 5:
			if d3 != nil {
				return c.libOp(d3)
			}
		case 6:
			if d3 != nil && len(d3.Packages) > 0 {
				p := d3.Packages[t.N(len(d3.Packages))]
				o := &Op{name: "report", do: func(t *Task, f *opFault) (any, error) {
					s := newSink(t)
					err := reporter.Generate(p, s)
					return string(s.got), err
				}}
				return o
			}
		case 7:
			if d3 != nil && len(d3.Packages) > 0 {
				return c.diffOp(d3.Packages[t.N(len(d3.Packages))], d3.Packages[t.N(len(d3.Packages))])
			}
		}
	}
}

// bytesOfDoc is a document's own marshalling (not through a writer).
func fixClock() { vsimrt.SetNow(func() (int64, int32) { return 1700000000, 5 }) }

// fsFault makes one system call below a tree fail: the at'th (modulo what
// there is), with a drawn errno, and perhaps all later ones of that file.
func (c *Ctx) fsFault(tr *Tree, f *opFault, q *nuisance) func(op int, path string, n, gen int) (int, syscall.Errno) {
	k := 0
	e := errnos[f.kind%len(errnos)]
	hitPath := ""
	return func(op int, path string, n, gen int) (int, syscall.Errno) {
		if op == vsimrt.OpClose || !strings.HasPrefix(path, tr.root) {
			return n, 0
		}
		if f.hit {
			if f.a && path == hitPath {
				return n, e.e
			}
			return q.plan(op, path, n, gen)
		}
		if k == f.at {
			f.hit = true
			hitPath = path
			f.desc = fmt.Sprintf("%s of %q fails with %s (for good: %v)", vsimrt.OpName[op], rel(path), e.name, f.a)
			c.Fault("fs:" + vsimrt.OpName[op] + ":" + e.name)
			return n, e.e
		}
		k++
		return q.plan(op, path, n, gen)
	}
}

func drawFault(io *vsimrt.Tape, o *Op) *opFault {
	at := 0
	switch o.seam {
	case 'f':
		at = io.N(40)
		if o.tree != nil && len(o.tree.files) > 6 {
			at = io.N(150)
		}
	default:
		at = io.N(o.size + 1)
		if io.N(4) == 0 && o.size > 0 {
			at = o.size - io.N(min(o.size, 30))
		}
	}
	return &opFault{at: at, kind: io.N(60), a: io.N(2) == 1, b: io.N(2) == 1}
}
