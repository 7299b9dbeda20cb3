// Package world holds the models of the environment shared by the harnesses:
// files that can fail, crash in the middle of a write, and record what is done
// to them. It is ordinary Go: the same code runs symbolically and natively.
package world

import (
	"errors"
	"io"

	"recengine/internal/zzverif/v"
)

// Crash is the panic value that stands for the death of the process.
type Crash struct{}

var (
	ErrFault  = errors.New("model: input/output error")
	ErrClosed = errors.New("model: file already closed")
	ErrSeek   = errors.New("model: negative position")
)

// File is a regular file open for reading and writing.
type File struct {
	Data   []byte
	Pos    int
	Closed bool
	Closes int // number of Close calls
	Late   int // operations after Close
	Writes int // operations that changed the file

	CrashArmed bool // the process may die at any write or truncation
	FaultArmed bool // any operation may fail (from then on all of them if Sticky)
	Sticky     bool
	Faulted    bool
	Skip       int // operations before the first that may fail
	Window     int // operations that may fail (0: no limit)
	Chunk      int // bytes returned by one Read at most (0: no limit)

	Hook func() // called after every successful change of the contents
}

// NewFile returns a file with the given contents.
func NewFile(data []byte) *File { return &File{Data: append([]byte{}, data...)} }

// Reopen returns a handle on the same bytes, as a new process would get.
func (f *File) Reopen() *File { return NewFile(f.Data) }

// fault decides whether this operation fails.
func (f *File) fault() bool {
	if f.Faulted && f.Sticky {
		return true
	}
	if !f.FaultArmed || f.Faulted {
		return false
	}
	if f.Skip > 0 {
		f.Skip--
		return false
	}
	if f.Window > 0 {
		f.Window--
		if f.Window == 0 {
			f.FaultArmed = false
		}
	}
	if v.Bool("fault") {
		f.Faulted = true
		return true
	}
	return false
}

// torn returns how much of a write of n bytes is done before the process dies.
func torn(name string, n int) int {
	if n <= 64 {
		return v.Concrete(v.Int(name, 0, n-1))
	}
	k := v.Choose(name, 68)
	switch {
	case k < 64:
		return k
	case k == 64:
		return n / 2
	case k == 65:
		return n / 3
	case k == 66:
		return n - 10
	}
	return n - 1
}

func (f *File) put(b []byte) {
	for len(f.Data) < f.Pos {
		f.Data = append(f.Data, 0)
	}
	n := copy(f.Data[f.Pos:], b)
	f.Data = append(f.Data, b[n:]...)
	f.Pos += len(b)
}

func (f *File) Read(b []byte) (int, error) {
	if f.Closed {
		f.Late++
		return 0, ErrClosed
	}
	if f.fault() {
		return 0, ErrFault
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.Pos >= len(f.Data) {
		return 0, io.EOF
	}
	if f.Chunk > 0 && len(b) > f.Chunk {
		b = b[:f.Chunk]
	}
	n := copy(b, f.Data[f.Pos:])
	f.Pos += n
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.Closed {
		f.Late++
		return 0, ErrClosed
	}
	if f.fault() {
		n := 0
		if len(b) > 0 {
			n = []int{0, len(b) / 2, len(b) - 1}[v.Choose("partial", 3)]
		}
		if n > 0 {
			f.Writes++
		}
		f.put(b[:n])
		return n, ErrFault
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.CrashArmed && v.Bool("crash") {
		f.put(b[:torn("torn", len(b))])
		panic(Crash{})
	}
	f.Writes++
	f.put(b)
	if f.Hook != nil {
		f.Hook()
	}
	return len(b), nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if f.Closed {
		f.Late++
		return 0, ErrClosed
	}
	if f.fault() {
		return 0, ErrFault
	}
	p := offset
	switch whence {
	case io.SeekCurrent:
		p += int64(f.Pos)
	case io.SeekEnd:
		p += int64(len(f.Data))
	}
	if p < 0 {
		return 0, ErrSeek
	}
	f.Pos = int(p)
	return p, nil
}

func (f *File) Truncate(size int64) error {
	if f.Closed {
		f.Late++
		return ErrClosed
	}
	if f.fault() {
		return ErrFault
	}
	if size < 0 {
		return ErrSeek
	}
	if f.CrashArmed && v.Bool("crash") {
		panic(Crash{})
	}
	f.Writes++
	if int(size) <= len(f.Data) {
		f.Data = append([]byte{}, f.Data[:size]...)
	}
	for len(f.Data) < int(size) {
		f.Data = append(f.Data, 0)
	}
	if f.Hook != nil {
		f.Hook()
	}
	return nil
}

func (f *File) Close() error {
	f.Closes++
	if f.Closed {
		f.Late++
		return ErrClosed
	}
	f.Closed = true
	if f.fault() {
		return ErrFault
	}
	return nil
}

// Crashing runs f until it ends or the process dies in it.
func Crashing(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Crash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	f()
	return false
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// ---- big-endian encoding, independent of the code under test ----

func U64(x uint64) []byte {
	b := make([]byte, 8)
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> (56 - 8*i))
	}
	return b
}

func U32(x uint32) []byte { return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

func GetU64(b []byte) uint64 {
	var x uint64
	for i := 0; i < 8; i++ {
		x = x<<8 | uint64(b[i])
	}
	return x
}

func GetU32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// Cat concatenates.
func Cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}
