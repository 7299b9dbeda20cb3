// Package filebuf: the in-memory file (C25), zero filling and skipping (C26).
package filebuf

import (
	"errors"
	"io"

	"recengine/internal/helpers"
	"recengine/internal/zzverif/v"
)

// model of a regular file whose position never leaves the content
type model struct {
	data   []byte
	pos    int
	closed bool
}

func C25_Ops() {
	n0 := v.Choose("initial", v.Bound("initial bytes", 3, 4)+1)
	init := v.Bytes("init", n0)
	var arg []byte
	if n0 > 0 || v.Bool("nonnil") {
		arg = append([]byte{}, init...)
	}
	fb := helpers.NewFileBuffer(arg)
	m := &model{data: append([]byte{}, init...)}
	steps := v.Bound("steps", 3, 4)
	for i := 0; i < steps; i++ {
		step(fb, m)
	}
	v.Assert(fb.Len() == len(m.data), "length")
	v.Assert(v.EqBytes(fb.Bytes(), m.data), "contents")
	v.Obs("bytes", fb.Bytes())
	v.Reach("done")
}

func step(fb *helpers.FileBuffer, m *model) {
	maxio := v.Bound("bytes per call", 3, 4)
	switch v.Choose("op", 5) {
	case 0: // read
		b := make([]byte, v.Choose("len", maxio+1))
		n, err := fb.Read(b)
		if m.closed {
			v.Assert(n == 0 && err != nil, "read after close fails")
			return
		}
		avail := len(m.data) - m.pos
		if len(b) == 0 {
			v.Assert(n == 0, "reading nothing")
			return
		}
		if avail == 0 {
			v.Assert(n == 0 && err == io.EOF, "read at the end is EOF")
			v.Reach("eof")
			return
		}
		want := len(b)
		if want > avail {
			want = avail
		}
		v.Assert(n == want && err == nil, "read count")
		if n != want {
			return
		}
		v.Assert(v.EqBytes(b[:n], m.data[m.pos:m.pos+n]), "read bytes")
		for _, x := range b[n:] {
			v.Assert(x == 0, "read leaves the rest of the buffer alone")
		}
		m.pos += n
	case 1: // write
		b := v.Bytes("w", v.Choose("len", maxio+1))
		keep := append([]byte{}, b...)
		n, err := fb.Write(b)
		if m.closed {
			v.Assert(n == 0 && err != nil, "write after close fails")
			return
		}
		v.Assert(n == len(b) && err == nil, "write count")
		v.Assert(v.EqBytes(b, keep), "write does not change its argument")
		for _, x := range keep {
			if m.pos < len(m.data) {
				m.data[m.pos] = x
			} else {
				m.data = append(m.data, x)
			}
			m.pos++
		}
		for i := range b {
			b[i] = 0xEE // the file must not alias the caller's buffer
		}
	case 2: // seek
		wh := v.Choose("whence", 4)
		off := int64(v.U64("off"))
		p, err := fb.Seek(off, wh)
		if m.closed {
			v.Assert(err != nil, "seek after close fails")
			return
		}
		base := int64(0)
		switch wh {
		case io.SeekCurrent:
			base = int64(m.pos)
		case io.SeekEnd:
			base = int64(len(m.data))
		case 3:
			v.Assert(err != nil, "unknown whence fails")
			return
		}
		ok := v.And(base+off >= 0, base+off <= int64(len(m.data)))
		if err == nil {
			v.Assert(ok, "seeking outside the content is refused")
			v.Assert(p == base+off, "seek result")
			m.pos = v.Concrete(int(p))
			v.Reach("seek")
		} else {
			v.Assert(!ok, "seeking inside the content works")
		}
	case 3: // truncate
		size := v.Int("size", -1, len(m.data)+2)
		size = v.Concrete(size)
		err := fb.Truncate(int64(size))
		if m.closed {
			v.Assert(err != nil, "truncate after close fails")
			return
		}
		if size < 0 {
			v.Assert(err != nil, "negative size is refused")
			return
		}
		v.Assert(err == nil, "truncate works")
		for len(m.data) < size {
			m.data = append(m.data, 0)
		}
		m.data = m.data[:size]
		if m.pos > size {
			m.pos = size
		}
		v.Assert(fb.Len() == size, "length after truncate")
		v.Reach("truncate")
	case 4:
		fb.Close()
		m.closed = true
	}
}

// C25_Large: the same steps on more bytes than the buffer reserves at first.
func C25_Large() {
	n0 := []int{99, 101, 300, 70000}[v.Choose("initial", v.Bound("initial sizes", 4, 4))]
	var fb *helpers.FileBuffer
	first := pattern(n0, 1)
	m := &model{data: append([]byte{}, first...)}
	if v.Choose("written", 2) == 1 {
		fb = helpers.NewFileBuffer(nil)
		n, err := fb.Write(first)
		v.Assert(n == n0 && err == nil, "first write")
		m.pos = n0
	} else {
		fb = helpers.NewFileBuffer(first)
	}
	steps := v.Bound("steps", 3, 4)
	if n0 > 1000 {
		steps -= 2
	}
	for i := 0; i < steps; i++ {
		big(fb, m, i)
	}
	v.Assert(fb.Len() == len(m.data), "length")
	v.Assert(v.EqBytes(fb.Bytes(), m.data), "contents")
	v.Reach("done")
}

func pattern(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*k + i>>8 + k)
	}
	if n > 0 {
		b[n-1] = v.U8("last byte")
	}
	return b
}

func big(fb *helpers.FileBuffer, m *model, i int) {
	size := []int{1, 150}[v.Choose("size", 2)]
	switch v.Choose("op", 4) {
	case 0:
		b := make([]byte, size)
		n, err := fb.Read(b)
		want := len(m.data) - m.pos
		if want > size {
			want = size
		}
		v.Assert(n == want && (err == nil) == (n > 0), "read count")
		v.Assert(v.EqBytes(b[:n], m.data[m.pos:m.pos+n]), "read bytes")
		m.pos += n
	case 1:
		b := pattern(size, 3+i)
		n, err := fb.Write(b)
		v.Assert(n == size && err == nil, "write count")
		d := append(append([]byte{}, m.data[:m.pos]...), b...)
		if len(d) < len(m.data) {
			d = append(d, m.data[len(d):]...)
		}
		m.data = d
		m.pos += size
	case 2:
		to := len(m.data) * size / 150
		p, err := fb.Seek(int64(to-m.pos), io.SeekCurrent)
		v.Assert(err == nil && p == int64(to), "seek")
		m.pos = to
	case 3:
		to := len(m.data) - size
		if size == 1 {
			to = len(m.data) + 130
		}
		if to < 0 {
			to = 0
		}
		v.Assert(fb.Truncate(int64(to)) == nil, "truncate")
		if to < len(m.data) {
			m.data = append([]byte{}, m.data[:to]...)
		} else {
			m.data = append(append([]byte{}, m.data...), make([]byte, to-len(m.data))...)
		}
		if m.pos > to {
			m.pos = to
		}
	}
}

var errFault = errors.New("fault")

// stream accepts an arbitrary number of bytes per call, and may fail.
type stream struct {
	moved int
	calls int
	nonz  bool
	fail  bool
	small bool
}

func (s *stream) take(n int) (int, error) {
	s.calls++
	if s.small {
		// any count, then possibly a failure
		k := v.Concrete(v.Int("take", 0, n))
		if v.Bool("fail") {
			s.fail = true
			return k, errFault
		}
		v.Assume(k > 0) // a stream that never moves is not a stream
		return k, nil
	}
	// large transfers: characteristic counts, and after a few calls everything
	if s.calls <= v.Bound("short calls", 3, 4) {
		k := v.U8("take")
		if k == 1 && n > 1 {
			return 1, nil
		}
		if k == 2 && n > 1 {
			return n - 1, nil
		}
		if k == 3 {
			s.fail = true
			return 0, errFault
		}
		if k == 4 {
			s.fail = true
			return n / 2, errFault
		}
	}
	return n, nil
}

func (s *stream) Write(b []byte) (int, error) {
	n, err := s.take(len(b))
	for _, x := range b[:n] {
		if x != 0 {
			s.nonz = true
		}
	}
	s.moved += n
	return n, err
}

func (s *stream) Read(b []byte) (int, error) {
	n, err := s.take(len(b))
	for i := range b[:n] {
		b[i] = 0xAA
	}
	s.moved += n
	return n, err
}

func large() int {
	size := v.Int("size", 0, 330)
	if v.Thorough() {
		return v.Concrete(size)
	}
	v.Assume(v.Or(size <= 1, v.And(size >= 99, size <= 101), v.And(size >= 199, size <= 201), size == 256))
	return v.Concrete(size)
}

func writeZeros(s *stream, size int) {
	n, err := helpers.WriteZeros(size, s)
	v.Obs("n", n, err)
	v.Assert(!s.nonz, "only zeros are written")
	v.Assert(n == s.moved, "the count is the number of bytes written")
	if s.fail {
		v.Assert(err != nil, "a failure is reported")
		v.Reach("failed")
	} else {
		v.Assert(err == nil, "no failure: no error")
		v.Assert(n == size, "exactly size zeros are written")
		v.Reach("ok")
	}
}

func C26_WriteZerosLarge() { writeZeros(&stream{}, large()) }
func C26_WriteZerosSmall() {
	writeZeros(&stream{small: true}, v.Concrete(v.Int("size", 0, v.Bound("small size", 6, 9))))
}

// C26_Huge: sizes beyond 16 bits.
func C26_Huge() {
	v.MaxSteps(100_000_000)
	size := []int{1000, 4096, 65535, 65536, 65537, 100000, 200001}[v.Choose("size", 7)]
	if v.Choose("what", 2) == 0 {
		writeZeros(&stream{}, size)
	} else {
		skipReading(&stream{}, size)
	}
}

// WriteZeros is not disturbed by what readers put into skipped data.
func C26_SkipThenZeros() {
	rd := &stream{}
	helpers.SkipReading(large(), rd)
	w := &stream{}
	_, err := helpers.WriteZeros(v.Concrete(v.Int("zeros", 99, 102)), w)
	v.Assert(!w.nonz, "only zeros are written")
	v.Assert(w.fail == (err != nil), "failures are reported")
	v.Reach("done")
}

func skipReading(s *stream, size int) {
	n, err := helpers.SkipReading(size, s)
	v.Obs("n", n, err)
	v.Assert(n == s.moved, "the count is the number of bytes skipped")
	if s.fail {
		v.Assert(err != nil || n == size, "a failure is reported")
		v.Reach("failed")
	} else {
		v.Assert(err == nil, "no failure: no error")
		v.Assert(n == size, "exactly size bytes are skipped")
		v.Reach("ok")
	}
}

func C26_SkipLarge() { skipReading(&stream{}, large()) }
func C26_SkipSmall() {
	skipReading(&stream{small: true}, v.Concrete(v.Int("size", 0, v.Bound("small size", 6, 9))))
}

// A symbolic number of bytes skipped from a reader of symbolic length.
func C26_SkipEnd() {
	max := v.Bound("stream length", 6, 10)
	have := v.Concrete(v.Int("have", 0, max))
	size := v.Concrete(v.Int("size", 0, max+2))
	fb := helpers.NewFileBuffer(make([]byte, have))
	n, err := helpers.SkipReading(size, fb)
	pos, _ := fb.Seek(0, io.SeekCurrent)
	v.Obs("n", n, err)
	v.Assert(int(pos) == n, "the count is the number of bytes skipped")
	if size <= have {
		v.Assert(n == size && err == nil, "skipping inside the stream")
		v.Reach("inside")
	} else {
		v.Assert(n == have && err != nil, "the end of the stream is reported")
		v.Reach("end")
	}
}

// A reader may report the end together with the last bytes.
type eofReader struct{ left, moved int }

func (r *eofReader) Read(b []byte) (int, error) {
	n := len(b)
	if n > r.left {
		n = r.left
	}
	r.left -= n
	r.moved += n
	if r.left == 0 {
		return n, io.EOF
	}
	return n, nil
}

func C26_SkipEOFWithData() {
	max := v.Bound("stream length", 6, 10)
	have := v.Concrete(v.Int("have", 0, max)) + v.Choose("longer", 2)*97
	size := v.Concrete(v.Int("size", 0, max+2)) + v.Choose("more", 2)*97
	r := &eofReader{left: have}
	n, err := helpers.SkipReading(size, r)
	v.Obs("n", n, err)
	v.Assert(n == r.moved, "the count is the number of bytes skipped")
	if size <= have {
		v.Assert(n == size && err == nil, "skipping inside the stream")
	} else {
		v.Assert(n == have && err != nil, "the end of the stream is reported")
	}
	v.Reach("done")
}

// keeper fills the buffer it is given and passes what it filled on (as a tee
// of a checksum does).
type keeper struct {
	fill  byte
	moved int
	lost  bool
}

func (k *keeper) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = k.fill
	}
	v.Yield()
	for _, x := range b {
		if x != k.fill {
			k.lost = true
		}
	}
	k.moved += len(b)
	return len(b), nil
}

func (k *keeper) Write(b []byte) (int, error) {
	v.Yield()
	for _, x := range b {
		if x != 0 {
			k.lost = true
		}
	}
	k.moved += len(b)
	return len(b), nil
}

// C26_Together: calls on different streams at the same time.
func C26_Together() {
	v.Preemptions(v.Bound("preemptions", 2, 3))
	v.RaceDetect()
	sizes := []int{1, 2, 101, 201}
	a, b := &keeper{fill: 1}, &keeper{fill: 2}
	na := sizes[v.Choose("size", len(sizes))]
	nb := sizes[v.Choose("other size", v.Bound("other sizes", 3, 4))]
	write := v.Choose("other", 2) == 1
	done := make(chan bool, 2)
	go func() {
		n, err := helpers.SkipReading(na, a)
		v.Assert(n == na && err == nil && a.moved == na, "exactly size bytes are skipped")
		done <- true
	}()
	go func() {
		if write {
			n, err := helpers.WriteZeros(nb, b)
			v.Assert(n == nb && err == nil && b.moved == nb, "exactly size zeros are written")
		} else {
			n, err := helpers.SkipReading(nb, b)
			v.Assert(n == nb && err == nil && b.moved == nb, "exactly size bytes are skipped")
		}
		done <- true
	}()
	<-done
	<-done
	v.Assert(!a.lost && !b.lost, "no call disturbs what another reads or writes")
	v.Reach("done")
}
