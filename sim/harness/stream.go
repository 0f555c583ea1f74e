package main

import (
	"bufio"
	"compress/gzip"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"vsimrt"
)

// ---------------------------------------------------------------- reading

// errTimeout stands for a network time-out.
type errTimeout struct{}

func (errTimeout) Error() string   { return "i/o timeout" }
func (errTimeout) Timeout() bool   { return true }
func (errTimeout) Temporary() bool { return true }

// errEOFLike is an error that says "EOF" but is not io.EOF.
type errEOFLike struct{}

func (errEOFLike) Error() string { return "EOF" }

// errIsEOF claims to be io.EOF under errors.Is but is not io.EOF.
type errIsEOF struct{}

func (errIsEOF) Error() string        { return "connection reset while reading" }
func (errIsEOF) Is(target error) bool { return target == io.EOF }

var readErrors = []struct {
	name string
	err  error
}{
	{"EIO", syscall.EIO},
	{"unexpected-EOF", io.ErrUnexpectedEOF},
	{"wrapped-EOF", fmt.Errorf("transport: %w", io.EOF)},
	{"timeout", errTimeout{}},
	{"closed-pipe", io.ErrClosedPipe},
	{"custom", errors.New("stream broke")},
	{"EOF-text", errEOFLike{}},
	{"is-EOF", errIsEOF{}},
	{"short-buffer", io.ErrShortBuffer},
	{"no-progress", io.ErrNoProgress},
	{"ECONNRESET", syscall.ECONNRESET},
	{"EAGAIN", syscall.EAGAIN},
	{"EINTR", syscall.EINTR},
	{"closed-file", os.ErrClosed},
	{"closed-file-path", &os.PathError{Op: "read", Path: "/x", Err: os.ErrClosed}},
	{"deadline", os.ErrDeadlineExceeded},
	{"closed-connection", net.ErrClosed},
	{"canceled", context.Canceled},
	{"deadline-of-context", context.DeadlineExceeded},
	{"EPIPE", syscall.EPIPE},
	{"ESTALE", &os.PathError{Op: "read", Path: "/x", Err: syscall.ESTALE}},
	{"EBADF", syscall.EBADF},
	{"too-long", bufio.ErrTooLong},
	{"checksum", gzip.ErrChecksum},
	{"corrupt", base64.CorruptInputError(7)},
	{"no-text", errors.New("")},
	{"nil-pointer", (*errNil)(nil)},
	{"short-write", io.ErrShortWrite},
	{"not-exist", os.ErrNotExist},
	{"joined-EOF", errors.Join(io.EOF, syscall.EIO)},
	{"EOF-of-path", &os.PathError{Op: "read", Path: "/x", Err: io.EOF}},
	{"negative-count", bufio.ErrNegativeCount},
}

// errNil is an error as a nil pointer.
type errNil struct{}

func (*errNil) Error() string { return "nil" }

// delivery styles of a simulated input stream
const (
	styWhole  = iota // everything the caller has room for
	styOne           // one byte at a time
	stySmall         // 1..8 bytes
	styRandom        // 1..600 bytes
	styBound         // cuts next to structural characters
	styHalf          // one cut somewhere
	styMixed         // sizes from 1 to 8192, changing
	nStyles
)

var styleName = [...]string{"whole", "bytewise", "small", "random", "boundary", "halves", "mixed"}

// Stream is a simulated io.Reader over data. All choices come from the task.
type Stream struct {
	data    []byte
	pos     int
	t       *Task
	style   int
	zeros   int // how many empty reads may still be delivered
	zeros0  int
	eofWith bool
	cut     int

	// fault
	failAt   int // offset at which the error is delivered (-1: never)
	err      error
	errName  string
	withData bool // error comes together with the last data
	sticky   bool
	failed   int // times the error was delivered
	sawEOF   bool
	reads    int
}

func newStream(t *Task, data []byte) *Stream {
	s := &Stream{data: data, t: t, failAt: -1}
	s.style = t.N(nStyles)
	if s.style == styOne && len(data) > 40000 {
		s.style = stySmall
	}
	if t.tape.Chance(1, 3) {
		s.zeros = 1 + t.N(6)
		s.zeros0 = s.zeros
	}
	s.eofWith = t.tape.Chance(1, 3)
	if len(data) > 0 {
		s.cut = t.N(len(data) + 1)
	}
	return s
}

func (s *Stream) describe() string {
	r := fmt.Sprintf("%d bytes, delivery %s", len(s.data), styleName[s.style])
	if s.failAt >= 0 {
		r += fmt.Sprintf(", error %s at offset %d (with data: %v, sticky: %v)", s.errName, s.failAt, s.withData, s.sticky)
	}
	return r
}

func (s *Stream) setFault(at int, kind int, withData, sticky bool) {
	s.failAt = at
	s.err = readErrors[kind].err
	s.errName = readErrors[kind].name
	s.withData = withData
	s.sticky = sticky
}

func (s *Stream) size(max int) int {
	n := max
	switch s.style {
	case styOne:
		n = 1
	case stySmall:
		n = 1 + s.t.N(8)
	case styRandom:
		n = 1 + s.t.N(600)
	case styBound:
		n = 1
		skip := s.t.N(6)
		for i := s.pos; i < len(s.data); i++ {
			c := s.data[i]
			if c == '\n' || c == '\r' || c == '"' || c == '<' || c == '>' || c == ':' || c == '\\' || c >= 0x80 || c == ',' || c == '&' {
				if skip == 0 {
					n = i - s.pos + s.t.N(2)
					if n == 0 {
						n = 1
					}
					break
				}
				skip--
			}
			n = i - s.pos + 1
		}
	case styHalf:
		if s.pos < s.cut {
			n = s.cut - s.pos
		}
	case styMixed:
		switch s.t.N(4) {
		case 0:
			n = 1
		case 1:
			n = 1 + s.t.N(16)
		case 2:
			n = 1 + s.t.N(512)
		default:
			n = 1 + s.t.N(8192)
		}
	}
	if n > max {
		n = max
	}
	return n
}

func (s *Stream) Read(p []byte) (int, error) {
	vsimrt.Seam()
	s.reads++
	if s.reads > 3_000_000 {
		hangExit("endless reading of the input stream")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.failAt >= 0 && s.pos >= s.failAt && (s.failed == 0 || s.sticky) {
		return 0, s.deliver()
	}
	if s.zeros > 0 && s.t.N(4) == 3 {
		s.zeros--
		return 0, nil
	}
	rest := len(s.data) - s.pos
	limit := rest
	if s.failAt >= 0 && s.failed == 0 && s.failAt-s.pos < limit {
		limit = s.failAt - s.pos
	}
	if rest == 0 {
		s.sawEOF = true
		return 0, io.EOF
	}
	max := limit
	if max > len(p) {
		max = len(p)
	}
	n := s.size(max)
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.failAt >= 0 && s.failed == 0 && s.pos == s.failAt && s.withData {
		return n, s.deliver()
	}
	if s.pos == len(s.data) && s.eofWith && s.failAt < 0 {
		s.sawEOF = true
		return n, io.EOF
	}
	return n, nil
}

func (s *Stream) deliver() error {
	s.failed++
	s.t.Fault("read-error:" + s.errName)
	return s.err
}

// ---------------------------------------------------------------- writing

var writeErrors = []struct {
	name string
	err  error
}{
	{"ENOSPC", syscall.ENOSPC},
	{"EIO", syscall.EIO},
	{"EPIPE", syscall.EPIPE},
	{"short-write", io.ErrShortWrite},
	{"timeout", errTimeout{}},
	{"EAGAIN", syscall.EAGAIN},
	{"custom", errors.New("sink broke")},
	{"EOF", io.EOF},
	{"closed-pipe", io.ErrClosedPipe},
	{"closed-file", &os.PathError{Op: "write", Path: "/x", Err: os.ErrClosed}},
	{"EINTR", syscall.EINTR},
	{"EDQUOT", syscall.EDQUOT},
	{"EFBIG", syscall.EFBIG},
	{"ECONNRESET", syscall.ECONNRESET},
	{"closed-connection", net.ErrClosed},
	{"canceled", context.Canceled},
	{"deadline", os.ErrDeadlineExceeded},
	{"no-text", errors.New("")},
	{"nil-pointer", (*errNil)(nil)},
	{"unexpected-EOF", io.ErrUnexpectedEOF},
	{"wrapped-EOF", fmt.Errorf("sink: %w", io.EOF)},
	{"buffer-full", bufio.ErrBufferFull},
}

// Sink is a simulated io.Writer.
type Sink struct {
	t        *Task
	got      []byte
	failAt   int // the write that crosses this offset fails (-1: never)
	partial  bool
	transmit bool // later writes succeed again
	err      error
	errName  string
	failed   int
	writes   int
	after    int // writes after a failure
}

func newSink(t *Task) *Sink { return &Sink{t: t, failAt: -1} }

func (s *Sink) setFault(at, kind int, partial, transient bool) {
	s.failAt, s.partial, s.transmit = at, partial, transient
	s.err, s.errName = writeErrors[kind].err, writeErrors[kind].name
}

func (s *Sink) describe() string {
	if s.failAt < 0 {
		return "no fault"
	}
	return fmt.Sprintf("error %s when byte %d is written (partial: %v, transient: %v)", s.errName, s.failAt, s.partial, s.transmit)
}

func (s *Sink) Write(p []byte) (int, error) {
	vsimrt.Seam()
	s.writes++
	if s.failed > 0 {
		s.after++
		if !s.transmit {
			return 0, s.err
		}
		s.got = append(s.got, p...)
		return len(p), nil
	}
	if s.failAt >= 0 && len(s.got)+len(p) > s.failAt {
		s.failed++
		n := 0
		if s.partial {
			n = s.failAt - len(s.got)
			s.got = append(s.got, p[:n]...)
		}
		s.t.Fault("write-error:" + s.errName)
		return n, s.err
	}
	s.got = append(s.got, p...)
	return len(p), nil
}
