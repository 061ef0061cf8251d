package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/etxx"
	"verif.local/sim/simrt"
)

// A stream is a simulated input stream: it delivers the bytes of a document in
// pieces, with pauses, and may fail. It records how it is used.
type stream struct {
	data []byte
	skip int // bytes in front of the document, already consumed
	off  int

	rng   simrt.Rand
	style int
	fault string
	past  bool // the fault has struck and will not strike again
	at    int  // offset in the document at which the fault strikes
	err   error

	empties  int
	reads    int
	inside   bool // a read is in progress
	done     bool // the parse call has returned
	finished bool // end or failure has been reported
	seen     bool // the end of the document was reported
	closed   bool
	trouble  string
	owner    int
	peeked   bool
}

// readerError is an error only its reader knows.
type readerError struct{ n int }

func (e *readerError) Error() string { return fmt.Sprintf("stream failure %d", e.n) }

type timeoutError struct{}

func (*timeoutError) Error() string   { return "i/o timeout" }
func (*timeoutError) Timeout() bool   { return true }
func (*timeoutError) Temporary() bool { return true }

type eofText struct{}

func (*eofText) Error() string { return "EOF" }

// isEOF claims to be the end of the stream when asked, but is not io.EOF.
type isEOF struct{ n int }

func (*isEOF) Error() string        { return "stream reset" }
func (*isEOF) Is(target error) bool { return target == io.EOF }

// errorList cannot be compared.
type errorList []string

func (e errorList) Error() string { return strings.Join(e, " ") }

// absentError is a failure even when it is an absent pointer.
type absentError struct{ n int }

func (*absentError) Error() string { return "absent" }

// blankError has no text.
type blankError struct{}

func (blankError) Error() string { return "" }

// errno is a failure even when its number is zero.
type errno int

func (errno) Error() string { return "failure 0" }

type readerPanic struct{ n int }

const errKinds = 25

func makeError(n int) error {
	switch n % errKinds {
	case 0:
		return &readerError{n}
	case 1:
		return fmt.Errorf("reading block %d: %w", n, io.EOF)
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return syscall.EINTR
	case 4:
		return &timeoutError{}
	case 5:
		return io.ErrClosedPipe
	case 6:
		return io.ErrNoProgress
	case 7:
		return &eofText{}
	case 8:
		return &isEOF{n}
	case 9:
		return errors.Join(io.EOF, &readerError{n})
	case 10:
		return io.ErrShortBuffer
	case 11:
		return syscall.EAGAIN
	case 12:
		return os.ErrDeadlineExceeded
	case 13:
		return os.ErrClosed
	case 14:
		return context.Canceled
	case 15:
		return context.DeadlineExceeded
	case 16:
		return &os.PathError{Op: "read", Path: "doc.etx", Err: syscall.EIO}
	case 17:
		return &os.PathError{Op: "read", Path: "doc.etx", Err: io.EOF}
	case 18:
		return syscall.ECONNRESET
	case 19:
		return bufio.ErrTooLong
	case 20:
		return errorList{"stream failure", fmt.Sprint(n)}
	case 21:
		return (*absentError)(nil)
	case 22:
		return blankError{}
	case 23:
		return errno(0)
	default:
		return fmt.Errorf("outer: %w", &readerError{n})
	}
}

func (s *stream) note(format string, a ...any) {
	if s.trouble == "" {
		s.trouble = fmt.Sprintf(format, a...)
	}
}

func (s *stream) enter(what string) {
	simrt.Op()
	if s.done {
		s.note("%s after the call has returned", what)
	}
	if s.inside {
		s.note("%s while another read is in progress", what)
	}
	if s.finished {
		s.note("%s after the stream has reported its end or a failure", what)
	}
	s.inside = true
	s.reads++
	s.pause()
}

func (s *stream) leave() {
	if s.done {
		s.note("a read was still in progress when the call returned")
	}
	s.inside = false
}

// pause lets time pass and other threads run.
func (s *stream) pause() {
	switch {
	case s.style&64 != 0 && s.rng.Intn(3) == 0:
		fault("read_stall")
		simrt.Sleep(int64(stall(&s.rng, 13)))
	case s.style&128 != 0:
		simrt.Gosched()
	}
}

// limit returns how many bytes may be delivered before the fault strikes.
func (s *stream) limit() int {
	n := len(s.data) - s.off
	if s.fault != "" {
		if m := s.skip + s.at - s.off; m < n {
			n = m
		}
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (s *stream) pick(max int) int {
	if max <= 0 {
		return 0
	}
	n := max
	switch s.style & 7 {
	case 0:
	case 1:
		n = 1
	case 2:
		n = 1 + s.rng.Intn(4)
	case 3:
		n = 1 << uint(s.rng.Intn(13))
	case 4:
		n = 512 - (s.off-s.skip)%512
	case 5:
		n = 1 + s.rng.Intn(max)
	case 6:
		n = 7
	default:
		n = 1 + s.rng.Intn(64)
		// Small documents still arrive in pieces; large ones need not take
		// forever.
		if max > 8192 {
			n *= 61
		}
	}
	if max > 16384 && n < 16 {
		n *= 97
	}
	if n > max {
		n = max
	}
	return n
}

// strike is called when the fault's offset has been reached.
func (s *stream) strike() error {
	s.finished = true
	switch s.fault {
	case "panic":
		fault("reader_panic")
		s.inside = false
		panic(readerPanic{s.at})
	case "once":
		fault("read_error_once")
		s.fault, s.past = "", true
		return s.err
	default:
		fault("read_error")
		return s.err
	}
}

// Read implements io.Reader.
func (s *stream) Read(p []byte) (int, error) {
	s.enter("a read")
	defer s.leave()
	if len(p) == 0 {
		return 0, nil
	}
	if s.style&8 != 0 && s.empties < 3 && s.rng.Intn(3) == 0 {
		s.empties++
		fault("empty_read")
		return 0, nil
	}
	s.empties = 0
	n := s.limit()
	if n > len(p) {
		n = len(p)
	}
	n = s.pick(n)
	etxx.Copy(p[:n], s.data[s.off:s.off+n])
	s.off += n
	if n < len(s.data)-s.off {
		fault("short_read")
	}
	if s.style&32 != 0 && n < len(p) {
		// A reader may use all of the buffer as scratch space.
		fault("scratch_write")
		m := len(p) - n
		if m > 256 {
			m = 256
		}
		etxx.Fill(p[n:n+m], s.reads)
	}
	if s.limit() > 0 {
		return n, nil
	}
	if s.fault != "" {
		if n > 0 && s.style&16 == 0 {
			return n, nil
		}
		if n > 0 && s.fault != "panic" {
			fault("error_with_data")
		}
		return n, s.strike()
	}
	if n > 0 && s.style&16 == 0 {
		return n, nil
	}
	if n > 0 {
		fault("eof_with_data")
	}
	s.finished, s.seen = true, true
	return n, io.EOF
}

func (s *stream) writeTo(w io.Writer) (int64, error) {
	var total int64
	buf := make([]byte, 4096)
	for {
		s.enter("WriteTo")
		s.leave()
		n := s.pick(s.limit())
		if n > len(buf) {
			n = len(buf)
		}
		if n > 0 {
			etxx.Copy(buf[:n], s.data[s.off:s.off+n])
			s.off += n
			m, err := w.Write(buf[:n])
			total += int64(m)
			if err != nil {
				return total, err
			}
			etxx.Fill(buf[:n], n)
		}
		if s.limit() > 0 {
			continue
		}
		if s.fault != "" {
			return total, s.strike()
		}
		s.finished, s.seen = true, true
		return total, nil
	}
}

func (s *stream) readByte() (byte, error) {
	s.enter("ReadByte")
	defer s.leave()
	if s.limit() == 0 {
		if s.fault != "" {
			return 0, s.strike()
		}
		s.finished, s.seen = true, true
		return 0, io.EOF
	}
	var b [1]byte
	etxx.Copy(b[:], s.data[s.off:])
	s.off++
	return b[0], nil
}

func (s *stream) readRune() (rune, int, error) {
	b, err := s.readByte()
	if err != nil {
		return 0, 0, err
	}
	if b < 0x80 {
		return rune(b), 1, nil
	}
	buf := []byte{b}
	for len(buf) < 4 {
		if r := []rune(string(buf)); len(r) == 1 && r[0] != 0xfffd {
			return r[0], len(buf), nil
		}
		if s.limit() == 0 {
			break
		}
		buf = append(buf, s.data[s.off])
		s.off++
	}
	r := []rune(string(buf))
	return r[0], len(buf), nil
}

// Streams with extra capabilities.

type named struct {
	*stream
	name string
}

func (n named) Name() string { return n.name }

type writerTo struct{ *stream }

func (s writerTo) WriteTo(w io.Writer) (int64, error) { return s.writeTo(w) }

type runes struct{ *stream }

func (s runes) ReadByte() (byte, error)         { return s.readByte() }
func (s runes) ReadRune() (rune, int, error)    { return s.readRune() }
func (s runes) UnreadByte() error               { s.off--; return nil }
func (s runes) UnreadRune() error               { return errors.New("not supported") }
func (s runes) ReadString(byte) (string, error) { return "", errors.New("not supported") }

type sized struct{ *stream }

func (s sized) Len() int      { return len(s.data) - s.off }
func (s sized) Size() int64   { return int64(len(s.data)) }
func (s sized) Cap() int      { return cap(s.data) }
func (s sized) Buffered() int { return 0 }

// vague reports a length that is not that of the rest of the stream, as a
// buffered or growing source may.
type vague struct {
	*stream
	n int
}

func (s vague) Len() int    { return s.n }
func (s vague) Size() int64 { return int64(s.n) }

type seeker struct{ *stream }

func (s seeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(s.off)
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("seek before the start")
	}
	s.off = int(off)
	if s.off > len(s.data) {
		s.off = len(s.data)
	}
	return off, nil
}

func (s seeker) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := etxx.Copy(p, s.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (s seeker) Size() int64 { return int64(len(s.data)) }
func (s seeker) Len() int    { return len(s.data) - s.off }

// statted tells about itself what a file does: its size may be that of the
// rest, of all of it, nothing (a pipe) or out of date.
type statted struct {
	*stream
	name string
	size int64
}

func (s statted) Name() string               { return s.name }
func (s statted) Stat() (fs.FileInfo, error) { return fileInfo{s.name, s.size}, nil }
func (s statted) Close() error               { s.closed = true; return nil }

type fileInfo struct {
	name string
	size int64
}

func (f fileInfo) Name() string     { return f.name }
func (f fileInfo) Size() int64      { return f.size }
func (fileInfo) Mode() fs.FileMode  { return 0o644 }
func (fileInfo) ModTime() time.Time { return time.Time{} }
func (fileInfo) IsDir() bool        { return false }
func (fileInfo) Sys() any           { return nil }

// realFile makes a file without a place in the file system.
func realFile(name string, data []byte, skip int) *os.File {
	f, err := os.CreateTemp("", "simrun")
	if err != nil {
		return nil
	}
	os.Remove(f.Name())
	defer f.Close()
	if _, err := f.Write(data); err != nil {
		return nil
	}
	if _, err := f.Seek(int64(skip), io.SeekStart); err != nil {
		return nil
	}
	fd, err := syscall.Dup(int(f.Fd()))
	if err != nil {
		return nil
	}
	return os.NewFile(uintptr(fd), name)
}

// realPipe makes a pipe that holds the data.
func realPipe(data []byte) *os.File {
	if len(data) > 4096 {
		return nil
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil
	}
	defer w.Close()
	if _, err := w.Write(data); err != nil {
		return nil
	}
	return r
}

type closer struct{ *stream }

func (s closer) Close() error { s.closed = true; return nil }

type everything struct {
	seeker
	name string
}

func (s everything) Name() string                       { return s.name }
func (s everything) Close() error                       { s.closed = true; return nil }
func (s everything) ReadByte() (byte, error)            { return s.readByte() }
func (s everything) ReadRune() (rune, int, error)       { return s.readRune() }
func (s everything) WriteTo(w io.Writer) (int64, error) { return s.writeTo(w) }
func (s everything) Stat() (any, error)                 { return nil, errors.New("no") }
func (s everything) WriteString(string) (int, error)    { return 0, errors.New("no") }
func (s everything) Write([]byte) (int, error)          { return 0, errors.New("no") }
func (s everything) String() string                     { return "everything" }
func (s everything) Bytes() []byte                      { return []byte("everything") }
func (s everything) Reset()                             {}

// readerKinds names the kinds of streams; the first ones are simulated streams,
// the rest readers of the standard library.
var readerKinds = []string{"plain", "named", "writerto", "runes", "sized", "vague", "seeker", "closer", "all", "stat", "stat", "limited", "bufio", "tee", "multi", "section",
	"buffer", "bytes", "strings", "iotest", "file", "pipe"}

// open makes the reader of an operation. The stream is nil for readers of the
// standard library that hold the data themselves.
func open(kind string, data []byte, seed int, faultKind string, at int) (io.Reader, *stream, string) {
	s := &stream{data: data, rng: *simrt.NewRand(uint64(seed)), fault: faultKind, at: at}
	s.style = s.rng.Intn(256)
	if s.rng.Intn(3) > 0 {
		s.style &^= 64 // few streams stall
	}
	if s.at > len(data) {
		s.at = len(data)
	}
	if faultKind == "err" || faultKind == "once" {
		s.err = makeError(seed)
	}
	if s.rng.Intn(3) == 0 {
		junk := "zz = [ \"junk"
		s.data = append([]byte(junk), data...)
		s.skip, s.off = len(junk), len(junk)
	}
	name := ""
	switch kind {
	case "named":
		name = fileNames[s.rng.Intn(len(fileNames))]
		return named{s, name}, s, name
	case "writerto":
		return writerTo{s}, s, ""
	case "runes":
		return runes{s}, s, ""
	case "sized":
		return sized{s}, s, ""
	case "vague":
		return vague{s, s.rng.Intn(2*len(data) + 2)}, s, ""
	case "seeker":
		return seeker{s}, s, ""
	case "closer":
		return closer{s}, s, ""
	case "all":
		name = fileNames[s.rng.Intn(len(fileNames))]
		return everything{seeker{s}, name}, s, name
	case "stat":
		name = fileNames[s.rng.Intn(len(fileNames))]
		size := int64(len(s.data))
		switch s.rng.Intn(4) {
		case 0:
			size -= int64(s.off)
		case 1:
			size = 0
		case 2:
			size = int64(s.rng.Intn(2*len(s.data) + 2))
		}
		return statted{s, name, size}, s, name
	case "file":
		name = fileNames[s.rng.Intn(len(fileNames))]
		if s.fault == "" {
			if f := realFile(name, s.data, s.skip); f != nil {
				return f, nil, name
			}
		}
		return named{s, name}, s, name
	case "pipe":
		if s.fault == "" {
			if f := realPipe(data); f != nil {
				return f, nil, f.Name()
			}
		}
		return s, s, ""
	case "limited":
		n := int64(len(s.data) - s.off)
		if s.fault == "" {
			s.data = append(append([]byte{}, s.data...), " tail ${"...)
			s.style &^= 16
		}
		s.peeked = true // ends before the stream does
		if s.fault != "" {
			n += 10
		}
		return io.LimitReader(s, n), s, ""
	case "bufio":
		// It asks again after data that came with the end.
		s.style &^= 16
		return bufio.NewReaderSize(s, 16+s.rng.Intn(64)), s, ""
	case "tee":
		return io.TeeReader(s, io.Discard), s, ""
	case "multi":
		return io.MultiReader(strings.NewReader(""), s), s, ""
	case "section":
		// Reads through ReadAt, not recorded.
		if s.fault == "" {
			return io.NewSectionReader(bytes.NewReader(s.data), int64(s.skip), int64(len(data))), nil, ""
		}
		return s, s, ""
	case "buffer":
		if s.fault == "" {
			b := bytes.NewBuffer(append([]byte{}, s.data...))
			b.Next(s.skip)
			return b, nil, ""
		}
		return s, s, ""
	case "bytes":
		if s.fault == "" {
			b := bytes.NewReader(s.data)
			b.Seek(int64(s.skip), io.SeekStart)
			return b, nil, ""
		}
		return s, s, ""
	case "strings":
		if s.fault == "" {
			b := strings.NewReader(string(s.data))
			b.Seek(int64(s.skip), io.SeekStart)
			return b, nil, ""
		}
		return s, s, ""
	case "iotest":
		return struct{ io.Reader }{s}, s, ""
	}
	return s, s, ""
}

var fileNames = []string{"main.etx", "dir/ünï.etx", "a b:c.etx", "-", "/x", "m1q.etx", "C:\\x.etx",
	"100%done.etx", "%s%d%!", "/dev/stdin", "./a/../b.etx", "dir/", " x ", "a\nb.etx", "\xff\xfe", "",
	strings.Repeat("long/", 60) + "x.etx"}
