package vsimrt

import (
	"strings"
	"syscall"
	"unsafe"
)

//go:linkname sysHook syscall.verifHook
var sysHook func(op int, fd int, path string, n int) (int, syscall.Errno)

//go:linkname sysDone syscall.verifDone
var sysDone func(op int, fd int, path string)

//go:linkname sysRead syscall.verifRead
var sysRead func(fd int, p []byte)

//go:linkname sysDents syscall.verifDents
var sysDents func(fd int, buf []byte) (n int, err syscall.Errno, handled bool)

// Operations of the simulated file system.
const (
	OpOpen = 1 + iota
	OpRead
	OpDents
	OpStat
	OpFstat
	OpClose
	OpReadlink
)

var OpName = [...]string{"", "open", "read", "getdents", "stat", "fstat", "close", "readlink"}

type fdinfo struct {
	used  bool
	path  string
	dents [][]byte
	dpos  int
	ready bool
	gen   int
}

// FS is the fault-injecting layer over the files below Root.
type FS struct {
	Root string
	Cwd  string // the working directory of the process, for relative paths
	// Plan decides the outcome of an operation on path: the number of bytes
	// the operation may transfer and an error to fail it with.
	Plan func(op int, path string, n int, gen int) (int, syscall.Errno)
	// Order permutes directory entries (nil: as the kernel returns them) and
	// says how many entries one getdents call returns.
	Order *Tape
	// Data is told every successful read: which open of which file returned
	// which bytes (none: end of file).
	Data func(path string, gen int, p []byte)

	fds     [4096]fdinfo
	Open    int // currently open
	MaxOpen int
	Opens   int
	Ops     int
	ReadOps int
	busy    bool
	gen     int
}

var fs *FS

// InstallFS makes f the file-system layer (nil removes it).
func InstallFS(f *FS) {
	fs = f
	if f == nil {
		sysHook, sysDone, sysDents, sysRead = nil, nil, nil, nil
		return
	}
	sysHook, sysDone, sysDents = hook, done, dents
	if f.Data != nil {
		sysRead = didRead
	} else {
		sysRead = nil
	}
}

const atFdCwd = -100

// clean removes empty and "." elements of an absolute path.
func clean(p string) string {
	if !strings.Contains(p, "//") && !strings.Contains(p, "/./") && !strings.HasSuffix(p, "/.") && !strings.HasSuffix(p, "/") {
		return p
	}
	var b strings.Builder
	for _, e := range strings.Split(p, "/") {
		if e != "" && e != "." {
			b.WriteByte('/')
			b.WriteString(e)
		}
	}
	return b.String()
}

func under(p string) bool {
	return strings.HasPrefix(p, fs.Root) && (len(p) == len(fs.Root) || p[len(fs.Root)] == '/')
}

func hook(op int, fd int, path string, n int) (int, syscall.Errno) {
	if fs == nil || fs.busy {
		return n, 0
	}
	gen := 0
	switch op {
	case OpOpen, OpStat, OpReadlink:
		if !strings.HasPrefix(path, "/") {
			// relative to a tracked directory (openat family)
			if fd == atFdCwd && fs.Cwd != "" {
				path = clean(fs.Cwd + "/" + path)
				if !under(path) {
					return n, 0
				}
			} else if fd >= 0 && fd < len(fs.fds) && fs.fds[fd].used {
				if path == "" {
					path = fs.fds[fd].path
				} else {
					path = fs.fds[fd].path + "/" + path
				}
			} else {
				return n, 0
			}
		} else if path = clean(path); !under(path) {
			return n, 0
		}
	default:
		if fd < 0 || fd >= len(fs.fds) || !fs.fds[fd].used {
			return n, 0
		}
		path = fs.fds[fd].path
		gen = fs.fds[fd].gen
	}
	Seam()
	fs.Ops++
	if fs.Plan == nil {
		return n, 0
	}
	return fs.Plan(op, path, n, gen)
}

func didRead(fd int, p []byte) {
	if fs == nil || fs.busy || fd < 0 || fd >= len(fs.fds) || !fs.fds[fd].used {
		return
	}
	fs.Data(fs.fds[fd].path, fs.fds[fd].gen, p)
}

func done(op int, fd int, path string) {
	if fs == nil || fs.busy || fd < 0 || fd >= len(fs.fds) {
		return
	}
	switch op {
	case OpOpen:
		if !strings.HasPrefix(path, "/") && fs.Cwd != "" {
			path = fs.Cwd + "/" + path
		}
		path = clean(path)
		if !under(path) {
			return
		}
		fs.gen++
		fs.fds[fd] = fdinfo{used: true, path: path, gen: fs.gen}
		fs.Open++
		fs.Opens++
		if fs.Open > fs.MaxOpen {
			fs.MaxOpen = fs.Open
		}
	case OpClose:
		if fs.fds[fd].used {
			fs.fds[fd] = fdinfo{}
			fs.Open--
		}
	}
}

// Leaked lists paths still open.
func (f *FS) Leaked() (res []string) {
	for i := range f.fds {
		if f.fds[i].used {
			res = append(res, f.fds[i].path)
		}
	}
	return
}

func dents(fd int, buf []byte) (int, syscall.Errno, bool) {
	if fs == nil || fs.busy || fd < 0 || fd >= len(fs.fds) || !fs.fds[fd].used || fs.Order == nil {
		return 0, 0, false
	}
	d := &fs.fds[fd]
	if !d.ready {
		d.ready = true
		tmp := make([]byte, 1<<16)
		for {
			r, _, e := syscall.RawSyscall(syscall.SYS_GETDENTS64, uintptr(fd), uintptr(unsafe.Pointer(&tmp[0])), uintptr(len(tmp)))
			if e != 0 {
				return 0, e, true
			}
			if r == 0 {
				break
			}
			b := tmp[:r]
			for len(b) > 0 {
				l := int(*(*uint16)(unsafe.Pointer(&b[16])))
				d.dents = append(d.dents, append([]byte(nil), b[:l]...))
				b = b[l:]
			}
		}
		// canonical order first: the kernel's order is not under our control
		sortDents(d.dents)
		for i := len(d.dents) - 1; i > 0; i-- {
			j := fs.Order.N(i + 1)
			d.dents[i], d.dents[i-j] = d.dents[i-j], d.dents[i]
		}
	}
	max := 1 + fs.Order.N(8)
	if fs.Order.N(3) == 0 {
		max = 1 << 30
	}
	n := 0
	for d.dpos < len(d.dents) && max > 0 {
		e := d.dents[d.dpos]
		if n+len(e) > len(buf) {
			break
		}
		copy(buf[n:], e)
		n += len(e)
		d.dpos++
		max--
	}
	return n, 0, true
}

func dname(e []byte) string {
	i := 19
	for i < len(e) && e[i] != 0 {
		i++
	}
	return string(e[19:i])
}

func sortDents(d [][]byte) {
	for i := 1; i < len(d); i++ {
		for j := i; j > 0 && dname(d[j]) < dname(d[j-1]); j-- {
			d[j], d[j-1] = d[j-1], d[j]
		}
	}
}

// Quiet runs f with the layer switched off (the harness's own file accesses).
func (f *FS) Quiet(fn func()) {
	f.busy = true
	fn()
	f.busy = false
}
