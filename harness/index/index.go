// Package index: the index storage (C10-C13) and its file format (C20, C21).
package index

import (
	"io"

	"recengine/internal/domain"
	"recengine/internal/infra/index"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

const (
	head = 12 // magic number and header
	rec  = 16 // one entry
)

var magic = []byte("RECIDX")

type pair struct{ id, idx uint64 }

func header(locked byte, n uint32) []byte {
	return world.Cat(magic, []byte{1, locked}, world.U32(n))
}

func image(ps []pair) []byte {
	b := header(0, uint32(len(ps)))
	for _, p := range ps {
		b = world.Cat(b, world.U64(p.id), world.U64(p.idx))
	}
	return b
}

// step of a history: put, or remove.
type step struct {
	id, idx uint64
	remove  bool
}

// lookup is the answer a history implies (no path splitting).
func lookup(h []step, id uint64) (bool, uint64) {
	present, r := false, uint64(0)
	for _, s := range h {
		hit := s.id == id
		if s.remove {
			present = v.And(present, !hit)
		} else {
			present = v.Or(present, hit)
			r = v.IteU64(hit, s.idx, r)
		}
	}
	return present, r
}

func same(st domain.IndexStorage, h []step, what string) {
	id := v.U64("query")
	want, widx := lookup(h, id)
	idx, ok := st.Get(id)
	v.Assert(ok == want, what+": presence of an id")
	v.Assert(v.Implies(want, idx == widx), what+": index of an id")
}

// size is the number of ids a history leaves.
func size(h []step) int {
	n := 0
	for i, s := range h {
		if s.remove {
			continue
		}
		gone := false // superseded later, or repeated
		for _, t := range h[i+1:] {
			gone = v.Or(gone, t.id == s.id)
		}
		n = v.IteInt(gone, n, n+1)
	}
	return n
}

func puts(ps []pair) []step {
	var h []step
	for _, p := range ps {
		h = append(h, step{p.id, p.idx, false})
	}
	return h
}

// start is the file a history begins with (entries with distinct ids), or nothing.
func start(max int) ([]byte, []step) {
	n := v.Choose("initial entries", max+2) - 1
	if n < 0 {
		return nil, nil
	}
	var ps []pair
	for i := 0; i < n; i++ {
		p := pair{v.U64("id"), v.U64("index")}
		for _, q := range ps {
			v.Assume(p.id != q.id)
		}
		ps = append(ps, p)
	}
	return image(ps), puts(ps)
}

func change(st domain.IndexStorage, h []step) []step {
	s := step{v.U64("id"), 0, v.Choose("remove", 2) == 1}
	if s.remove {
		v.Assert(st.Remove(s.id) == nil, "remove succeeds")
	} else {
		s.idx = v.U64("index")
		v.Assert(st.Put(s.id, s.idx) == nil, "put succeeds")
	}
	return append(h, s)
}

// ---- C10 ----

func C10_Ops() {
	data, h := start(v.Bound("initial entries", 1, 2))
	f := world.NewFile(data)
	fac := index.NewStorageFactory()
	st, err := fac.Open(f, f)
	v.Assert(err == nil, "opens")
	steps := v.Bound("steps", 4, 4)
	for i := 0; i < steps; i++ {
		switch v.Choose("step", 3) {
		case 0:
			h = change(st, h)
		case 1:
			f, st = cycle(f, st, h)
		case 2:
			i = steps
		}
	}
	same(st, h, "at the end")
	_, st = cycle(f, st, h)
	same(st, h, "after reopening")
	v.Reach("done")
}

// cycle closes and reopens.
func cycle(f *world.File, st domain.IndexStorage, h []step) (*world.File, domain.IndexStorage) {
	v.Assert(st.Close() == nil, "closes")
	v.Assert(f.Closed, "the file is released")
	n := size(h)
	v.Assert(len(f.Data) >= head, "the header is there")
	v.Assert(v.EqBytes(f.Data[:8], header(0, 0)[:8]), "closed header")
	v.Assert(world.GetU32(f.Data[8:]) == uint32(n), "announced number of ids")
	v.Assert(len(f.Data) >= head+rec*n, "room for the entries")
	g := f.Reopen()
	st, err := index.NewStorageFactory().Open(g, g)
	v.Assert(err == nil, "reopens")
	return g, st
}

// Many entries: everything the storage buffers is exceeded.
func C10_Many() {
	n := v.Bound("entries", 260, 520)
	f := world.NewFile(nil)
	f.Chunk = v.Choose("chunk", 2) * 1000
	fac := index.NewStorageFactory()
	st, err := fac.Open(f, f)
	v.Assert(err == nil, "opens")
	odd := pair{v.U64("id"), v.U64("index")}
	v.Assume(odd.id >= 10000)
	v.Assert(st.Put(odd.id, odd.idx) == nil, "put")
	for i := 0; i < n; i++ {
		v.Assert(st.Put(uint64(i), uint64(7*i)) == nil, "put")
	}
	for i := 0; i < n; i += 5 {
		v.Assert(st.Remove(uint64(i)) == nil, "remove")
	}
	v.Assert(st.Close() == nil, "closes")
	g := f.Reopen()
	g.Chunk = f.Chunk
	st, err = fac.Open(g, g)
	v.Assert(err == nil, "reopens")
	idx, ok := st.Get(odd.id)
	v.Assert(v.And(ok, idx == odd.idx), "arbitrary entry")
	for i := 0; i < n; i++ {
		idx, ok := st.Get(uint64(i))
		v.Assert(ok == (i%5 != 0), "presence")
		v.Assert(!ok || idx == uint64(7*i), "index")
	}
	v.Reach("done")
}

// More entries than 16 bits count.
func C10_Huge() {
	n := v.Bound("entries", 65538, 131074)
	v.MaxSteps(400_000_000)
	f := world.NewFile(nil)
	fac := index.NewStorageFactory()
	st, err := fac.Open(f, f)
	v.Assert(err == nil, "opens")
	odd := pair{1 << 40, v.U64("index")}
	at := v.Choose("at", 2) * 65536
	for i := 0; i < n; i++ {
		p := pair{uint64(i), uint64(i * 70000)}
		if i == at {
			p = odd
		}
		v.Assert(st.Put(p.id, p.idx) == nil, "put")
	}
	v.Assert(st.Close() == nil, "closes")
	v.Assert(len(f.Data) >= head+rec*n, "room for the entries")
	v.Assert(world.GetU32(f.Data[8:]) == uint32(n), "announced number of ids")
	f = f.Reopen()
	st, err = fac.Open(f, f)
	v.Assert(err == nil, "reopens")
	for _, i := range []int{1, 2, 255, 256, 65535, n - 1} {
		idx, ok := st.Get(uint64(i))
		v.Assert(ok && idx == uint64(i*70000), "entry")
	}
	idx, ok := st.Get(odd.id)
	v.Assert(v.And(ok, idx == odd.idx), "arbitrary entry")
	_, ok = st.Get(uint64(n))
	v.Assert(!ok, "an id never put")
	v.Reach("done")
}

// ---- C11 ----

func C11_Crash() {
	data, h := start(v.Bound("initial entries", 2, 2))
	before := h
	f := world.NewFile(data)
	fac := index.NewStorageFactory()
	steps := v.Bound("changes", 2, 3)
	f.CrashArmed = true
	fresh := len(data) == 0
	closing, closed := false, false
	crashed := world.Crashing(func() {
		st, err := fac.Open(f, f)
		v.Assert(err == nil, "opens")
		n := v.Choose("changes", steps+1)
		for i := 0; i < n; i++ {
			h = change(st, h)
		}
		if v.Choose("close", 2) == 0 {
			return // dies without closing
		}
		closing = true
		v.Assert(st.Close() == nil, "closes")
		closed = true
	})
	if crashed {
		v.Reach("crashed")
	}
	f.CrashArmed = false
	g := f.Reopen()
	st, err := fac.Open(g, g)
	if closed {
		v.Assert(err == nil, "a closed index opens")
	}
	if err != nil {
		v.Reach("refused")
		return
	}
	id := v.U64("query")
	idx, ok := st.Get(id)
	p1, i1 := lookup(before, id)
	p2, i2 := lookup(h, id)
	old := v.And(ok == p1, v.Implies(ok, idx == i1))
	cur := v.And(ok == p2, v.Implies(ok, idx == i2))
	if closed {
		v.Assert(cur, "exactly the contents of the completed close")
	} else if closing {
		v.Assert(v.Or(old, cur), "the contents before or after the close")
		// which one it is does not depend on the id
		id2 := v.U64("query 2")
		idx2, ok2 := st.Get(id2)
		q1, j1 := lookup(before, id2)
		q2, j2 := lookup(h, id2)
		old2 := v.And(ok2 == q1, v.Implies(ok2, idx2 == j1))
		cur2 := v.And(ok2 == q2, v.Implies(ok2, idx2 == j2))
		v.Assert(v.Or(v.And(old, old2), v.And(cur, cur2)), "all of the contents from the same close")
	} else {
		v.Assert(old, "exactly the contents of the last completed close")
	}
	if !fresh && !closed && !closing {
		v.Reach("opened early")
	}
	v.Reach("opened")
}

// A close that spans several writes.
func C11_BigClose() {
	n := v.Bound("entries", 258, 515)
	f := world.NewFile(image([]pair{{1, 2}, {3, 4}}))
	fac := index.NewStorageFactory()
	st, err := fac.Open(f, f)
	v.Assert(err == nil, "opens")
	for i := 0; i < n; i++ {
		st.Put(uint64(i+10), 7)
	}
	f.CrashArmed = true
	crashed := world.Crashing(func() { st.Close() })
	g := f.Reopen()
	st, err = fac.Open(g, g)
	if err != nil {
		v.Assert(crashed, "a closed index opens")
		v.Reach("refused")
		return
	}
	has := 0
	for i := 0; i < n; i++ {
		if idx, ok := st.Get(uint64(i + 10)); ok {
			v.Assert(idx == 7, "index")
			has++
		}
	}
	v.Assert(has == 0 || has == n, "all of the contents from the same close")
	v.Assert(crashed || has == n, "exactly the contents of the completed close")
	idx, ok := st.Get(3)
	v.Assert(ok && idx == 4, "older entries")
	v.Reach("opened")
}

// C11_Failed: closing fails, or the process dies while it does.
func C11_Failed() {
	data, h := start(v.Bound("initial entries", 2, 2))
	before := h
	f := world.NewFile(data)
	fac := index.NewStorageFactory()
	st, err := fac.Open(f, f)
	v.Assert(err == nil, "opens")
	for i := v.Choose("changes", v.Bound("changes", 2, 3)+1); i > 0; i-- {
		h = change(st, h)
	}
	f.FaultArmed, f.Sticky = true, v.Choose("sticky", 2) == 1
	f.CrashArmed = !f.Sticky
	crashed := world.Crashing(func() {
		err = st.Close()
	})
	v.Assume(f.Faulted)
	if !crashed {
		v.Assert(err != nil, "a failure is reported")
		v.Reach("failed")
	}
	g := f.Reopen()
	st, err = fac.Open(g, g)
	if err != nil {
		v.Reach("refused")
		return
	}
	v.Reach("opened")
	id := v.U64("query")
	idx, ok := st.Get(id)
	p1, i1 := lookup(before, id)
	p2, i2 := lookup(h, id)
	old := v.And(ok == p1, v.Implies(ok, idx == i1))
	cur := v.And(ok == p2, v.Implies(ok, idx == i2))
	v.Assert(v.Or(old, cur), "the contents before or after the close")
}

// A crash during a later session, after a smaller or larger close.
func C11_Sessions() {
	var h []step
	f := world.NewFile(nil)
	fac := index.NewStorageFactory()
	sessions := v.Bound("sessions", 2, 3)
	for i := 0; i < sessions; i++ {
		before := h
		f.CrashArmed = i == sessions-1
		closed := false
		world.Crashing(func() {
			st, err := fac.Open(f, f)
			v.Assert(err == nil, "opens")
			n := v.Choose("changes", 3)
			for j := 0; j < n; j++ {
				h = change(st, h)
			}
			v.Assert(st.Close() == nil, "closes")
			closed = true
		})
		f = f.Reopen()
		if closed {
			continue
		}
		st, err := fac.Open(f, f)
		if err != nil {
			v.Reach("refused")
			return
		}
		id := v.U64("query")
		idx, ok := st.Get(id)
		p1, i1 := lookup(before, id)
		p2, i2 := lookup(h, id)
		v.Assert(v.Or(v.And(ok == p1, v.Implies(ok, idx == i1)), v.And(ok == p2, v.Implies(ok, idx == i2))), "the contents before or after the close")
		return
	}
	st, err := fac.Open(f, f)
	v.Assert(err == nil, "opens")
	same(st, h, "after the sessions")
	v.Reach("done")
}

// ---- C12 ----

func C12_Open() {
	n := v.Choose("size", v.Bound("file size", head+3*rec, head+5*rec)+1)
	in := v.Bytes("file", n)
	f := world.NewFile(in)
	f.Pos = v.Choose("position", 2) * (n / 2)
	f.Chunk = v.Choose("slow", 2)
	v.MaxAlloc(1 << 20)
	st, err := index.NewStorageFactory().Open(f, f)
	v.MaxAlloc(0)
	if n == 0 {
		v.Assert(err == nil, "an empty file opens")
		v.Assert(v.EqBytes(f.Data, header(1, 0)), "an empty file becomes an empty index in use")
		same(st, nil, "empty")
		return
	}
	good := n >= head
	if good {
		good = v.And(v.EqBytes(in[:6], magic), in[7] == 0, world.GetU32(in[8:]) <= uint32((n-head)/rec))
	}
	v.Assert((err == nil) == good, "opens exactly the well-formed files")
	if err != nil {
		v.Assert(st == nil, "no index with an error")
		v.Reach("refused")
		return
	}
	v.Assert(f.Data[7] != 0, "marked in use")
	v.Assert(v.And(v.EqBytes(f.Data[:7], in[:7]), v.EqBytes(f.Data[8:], in[8:])), "nothing else changed")
	k := v.Concrete(int(world.GetU32(in[8:])))
	var h []step
	for i := 0; i < k; i++ {
		h = append(h, step{world.GetU64(in[head+i*rec:]), world.GetU64(in[head+i*rec+8:]), false})
	}
	same(st, h, "as encoded")
	v.Reach("opened")
}

// ---- C13 ----

func C13_Open() {
	data, _ := start(1)
	switch v.Choose("kind", 3) {
	case 1:
		data = header(1, 0)
	case 2:
		data = header(0, 1)
	}
	f := world.NewFile(data)
	f.FaultArmed = true
	f.Sticky = v.Choose("sticky", 2) == 1
	st, err := index.NewStorageFactory().Open(f, f)
	v.Assert(v.Implies(f.Faulted, err != nil), "a failed operation is reported")
	if err != nil {
		v.Assert(f.Closes > 0, "the file is released")
		v.Assert(st == nil, "no index with an error")
		v.Reach("failed")
	} else {
		v.Assert(f.Closes == 0, "the file stays open")
	}
}

func C13_Close() {
	data, h := start(1)
	f := world.NewFile(data)
	st, err := index.NewStorageFactory().Open(f, f)
	v.Assert(err == nil, "opens")
	n := v.Choose("changes", v.Bound("changes", 3, 4))
	for i := 0; i < n; i++ {
		h = change(st, h)
	}
	f.FaultArmed = true
	f.Sticky = v.Choose("sticky", 2) == 1
	err = st.Close()
	v.Assert(v.Implies(f.Faulted, err != nil), "a failed operation is reported")
	v.Assert(f.Closes > 0, "the file is released")
	if err == nil {
		g := f.Reopen()
		st, err = index.NewStorageFactory().Open(g, g)
		v.Assert(err == nil, "reopens")
		same(st, h, "after reopening")
		v.Reach("closed")
	} else {
		v.Reach("failed")
	}
}

// More entries than the buffers hold.
func C13_Big() {
	n := v.Bound("entries", 600, 1200)
	v.MaxSteps(100_000_000)
	fac := index.NewStorageFactory()
	odd := pair{1 << 40, v.U64("index")}
	put := func(st domain.IndexStorage) {
		for i := 0; i < n-1; i++ {
			st.Put(uint64(i), uint64(i)*3)
		}
		st.Put(odd.id, odd.idx)
	}
	var f *world.File
	var st domain.IndexStorage
	var err error
	f = world.NewFile(nil)
	opening := v.Choose("opening", 2) == 1
	if opening {
		st, err = fac.Open(f, f)
		v.Assert(err == nil, "opens")
		put(st)
		v.Assert(st.Close() == nil, "closes")
		f = f.Reopen()
		f.FaultArmed = true
		f.Sticky = v.Choose("sticky", 2) == 1
		st, err = fac.Open(f, f)
		v.Assert(v.Implies(f.Faulted, err != nil), "a failed operation is reported")
		if err != nil {
			v.Assert(f.Closes > 0, "the file is released")
			v.Reach("not opened")
			return
		}
		f.FaultArmed = false
	} else {
		st, err = fac.Open(f, f)
		v.Assert(err == nil, "opens")
		put(st)
		f.FaultArmed = true
		f.Sticky = v.Choose("sticky", 2) == 1
	}
	err = st.Close()
	v.Assert(v.Implies(f.Faulted, err != nil), "a failed operation is reported")
	v.Assert(f.Closes > 0, "the file is released")
	if err != nil {
		v.Reach("not closed")
		return
	}
	g := f.Reopen()
	st, err = fac.Open(g, g)
	v.Assert(err == nil, "reopens")
	for i := 0; i < n-1; i++ {
		x, ok := st.Get(uint64(i))
		v.Assert(ok && x == uint64(i)*3, "entry")
	}
	x, ok := st.Get(odd.id)
	v.Assert(v.And(ok, x == odd.idx), "arbitrary entry")
	v.Reach("closed")
}

// The same when the index is told not to close the file.
func C13_NoCloser() {
	data, _ := start(1)
	f := world.NewFile(data)
	f.FaultArmed = true
	st, err := index.NewStorageFactory().Open(f, nil)
	v.Assert(v.Implies(f.Faulted, err != nil), "a failed operation is reported")
	if err == nil {
		before := f.Faulted
		err = st.Close()
		v.Assert(v.Implies(f.Faulted && !before, err != nil), "a failed operation is reported")
	}
	v.Assert(f.Closes == 0, "the file is left open")
	v.Reach("done")
}

// ---- C20, C21 ----

func C20_Index() {
	p := index.NewProtocol()
	h := index.Header{Version: v.U8("version"), Locked: v.U8("locked"), NumEntries: v.U32("count")}
	e := index.Entry{ID: v.U64("id"), Index: v.U64("index")}
	f := world.NewFile(v.Bytes("before", 2))
	f.Pos = 2
	n, err := p.WritePrefix(f)
	v.Assert(err == nil && n == 6, "writes the magic number")
	n, err = p.WriteHeader(&h, f)
	v.Assert(err == nil && n == 6, "writes the header")
	n, err = p.WriteEntry(&e, f)
	v.Assert(err == nil && n == rec, "writes an entry")
	v.Assert(v.EqBytes(f.Data[2:], world.Cat(magic, []byte{h.Version, h.Locked}, world.U32(h.NumEntries), world.U64(e.ID), world.U64(e.Index))), "layout")
	f.Data = append(f.Data, v.Bytes("after", 2)...)
	f.Pos = 2
	f.Chunk = v.Choose("chunk", 2)
	var r index.Header
	var q index.Entry
	n, err = p.ReadPrefix(f)
	v.Assert(err == nil && n == 6 && f.Pos == 8, "reads the magic number")
	n, err = p.ReadHeader(&r, f)
	v.Assert(err == nil && n == 6 && f.Pos == 14, "reads the header")
	n, err = p.ReadEntry(&q, f)
	v.Assert(err == nil && n == rec && f.Pos == 14+rec, "reads the entry")
	v.Assert(v.And(r.Version == h.Version, r.Locked == h.Locked, r.NumEntries == h.NumEntries), "header round trip")
	v.Assert(v.And(q.ID == e.ID, q.Index == e.Index), "entry round trip")
	v.Obs("bytes", f.Data)
	v.Reach("done")
}

func C20_IndexMagic() {
	p := index.NewProtocol()
	n := v.Choose("size", 9)
	f := world.NewFile(v.Bytes("file", n))
	f.Chunk = v.Choose("chunk", 2)
	_, err := p.ReadPrefix(f)
	good := n >= 6 && v.EqBytes(f.Data[:6], magic)
	v.Assert((err == nil) == good, "exactly the magic number is accepted")
	if good {
		v.Assert(f.Pos == 6, "consumed")
		v.Reach("good")
	}
	v.Obs("err", err)
}

func C21_Index() {
	p := index.NewProtocol()
	n := head + v.Choose("more", v.Bound("more bytes", 3, 20))
	f := world.NewFile(v.Bytes("file", n))
	in := append([]byte{}, f.Data...)
	pos := v.Choose("position", n+1)
	f.Pos = pos
	locked, err := p.IsLocked(f)
	v.Assert(err == nil, "reads the mark")
	v.Assert(locked == (in[7] != 0), "the mark as it is")
	v.Assert(f.Pos == pos, "position kept")
	v.Assert(v.EqBytes(f.Data, in), "nothing changed")
	set := v.Bool("set")
	v.Assert(p.WriteLocked(set, f) == nil, "writes the mark")
	v.Assert(f.Pos == pos, "position kept")
	locked, err = p.IsLocked(f)
	v.Assert(err == nil && locked == set, "what was set is read")
	v.Assert((f.Data[7] != 0) == set, "the mark in the file")
	v.Assert(len(f.Data) == n, "size kept")
	v.Assert(v.And(v.EqBytes(f.Data[:7], in[:7]), v.EqBytes(f.Data[8:], in[8:])), "other bytes kept")
	v.Assert(f.Pos == pos, "position kept")
	v.Obs("bytes", f.Data)
	v.Reach("done")
}

var _ io.ReadWriteSeeker = (*world.File)(nil)

// C10_Two: indices of one factory that are open at the same time stay apart.
func C10_Two() {
	fac := index.NewStorageFactory()
	var fs [2]*world.File
	var sts [2]domain.IndexStorage
	var h [2][]step
	open := func(i int) {
		var err error
		sts[i], err = fac.Open(fs[i], fs[i])
		v.Assert(err == nil, "opens")
	}
	for i := range fs {
		fs[i] = world.NewFile(nil)
		open(i)
	}
	steps := v.Bound("steps", 3, 4)
	for s := 0; s < steps; s++ {
		i := v.Choose("index", 2)
		if v.Choose("step", 2) == 0 {
			h[i] = change(sts[i], h[i])
		} else {
			v.Assert(sts[i].Close() == nil, "closes")
			fs[i] = fs[i].Reopen()
			open(i)
		}
	}
	for i := range sts {
		same(sts[i], h[i], "each of two indices")
	}
	for i := range sts {
		v.Assert(sts[i].Close() == nil, "closes")
		fs[i] = fs[i].Reopen()
	}
	for i := range sts {
		open(i)
		same(sts[i], h[i], "each of two indices opened again")
	}
	v.Reach("done")
}
