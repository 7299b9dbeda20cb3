// Package together: storages of different files that work at the same time (C43).
package together

import (
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

// slow is a file at each access of which the other goroutine may run, also in
// the middle of it.
type slow struct {
	*world.File
	disturbed bool
}

func (s *slow) Read(b []byte) (int, error) {
	n, err := s.File.Read(b)
	want := append([]byte{}, b[:n]...)
	v.Yield()
	if !v.EqBytes(b[:n], want) {
		s.disturbed = true
	}
	return n, err
}

func (s *slow) Write(b []byte) (int, error) {
	want := append([]byte{}, b...)
	v.Yield()
	if !v.EqBytes(b, want) {
		s.disturbed = true
	}
	return s.File.Write(b)
}

// both runs f(0) and f(1) at the same time.
func both(f func(i int)) {
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			f(i)
			done <- true
		}()
	}
	<-done
	<-done
}

func calm(fs [2]*slow) {
	v.Assert(!fs[0].disturbed && !fs[1].disturbed, "no storage disturbs what another reads or writes")
}

type change struct {
	op         domain.DeltaOp
	user, item uint64
}

var ops = [2]domain.DeltaOp{domain.DeltaOpAdd, domain.DeltaOpRemove}

func symChange() change {
	return change{ops[v.Choose("op", 2)], v.U64("user"), v.U64("item")}
}

// C43_Delta: two delta storages of one factory at the same time: opened (one of them
// maybe recovered), changed, flushed and closed.
func C43_Delta() {
	v.Preemptions(v.Bound("preemptions", 1, 2))
	fac := delta.NewStorageFactory()
	var fs [2]*slow
	var first, second [2]change
	var has [2]bool
	for i := range fs {
		f := world.NewFile(nil)
		kinds := 3
		if i == 1 {
			kinds = v.Bound("kinds of the other file", 2, 3)
		}
		kind := v.Choose("file", kinds)
		if kind > 0 {
			st, err := fac.OpenMaybeRecover(f)
			v.Assert(err == nil, "opens")
			first[i], has[i] = change{domain.DeltaOpAdd, v.U64("user"), v.U64("item")}, true
			st.Add(first[i].op, first[i].user, first[i].item)
			if kind == 1 {
				v.Assert(st.Flush() == nil, "flushes") // to be recovered
			} else {
				v.Assert(st.Close() == nil, "closes")
			}
			f = f.Reopen()
		}
		fs[i] = &slow{File: f}
		second[i] = symChange()
	}
	v.RaceDetect()
	both(func(i int) {
		st, err := fac.OpenMaybeRecover(fs[i])
		v.Assert(err == nil, "opens")
		if has[i] {
			op, ok := st.Get(first[i].user, first[i].item)
			v.Assert(ok && op == first[i].op, "what was in the file is there")
		}
		st.Add(second[i].op, second[i].user, second[i].item)
		v.Assert(st.Flush() == nil, "flushes")
		op, ok := st.Get(second[i].user, second[i].item)
		v.Assert(ok && op == second[i].op, "what was added is there")
		v.Assert(st.Close() == nil, "closes")
	})
	calm(fs)
	for i := range fs {
		st, err := fac.Open(fs[i].Reopen())
		v.Assert(err == nil, "opens again")
		n := 1
		op, ok := st.Get(second[i].user, second[i].item)
		v.Assert(ok && op == second[i].op, "what was added is there after all")
		if has[i] {
			n = 2
			same := v.And(first[i].user == second[i].user, first[i].item == second[i].item)
			op, ok := st.Get(first[i].user, first[i].item)
			v.Assert(ok, "what was in the file is there after all")
			v.Assert(v.Or(same, op == first[i].op), "as it was")
		}
		v.Assert(st.GetTotalItemCount() == n, "nothing else is there")
	}
	v.Reach("done")
}

// C43_Index: the same with index storages.
func C43_Index() {
	v.Preemptions(v.Bound("preemptions", 1, 2))
	fac := index.NewStorageFactory()
	var fs [2]*slow
	var ids, vals [2][2]uint64
	var has [2]bool
	for i := range fs {
		for k := range ids[i] {
			ids[i][k], vals[i][k] = v.U64("id"), v.U64("index")
		}
		f := world.NewFile(nil)
		if v.Choose("file", 2) == 1 {
			has[i] = true
			st, err := fac.Open(f, f)
			v.Assert(err == nil, "opens")
			v.Assert(st.Put(ids[i][0], vals[i][0]) == nil, "puts")
			v.Assert(st.Close() == nil, "closes")
			f = f.Reopen()
		}
		fs[i] = &slow{File: f}
	}
	remove := v.Choose("remove", 2) == 1
	v.RaceDetect()
	both(func(i int) {
		st, err := fac.Open(fs[i], fs[i])
		v.Assert(err == nil, "opens")
		if has[i] {
			x, ok := st.Get(ids[i][0])
			v.Assert(ok && x == vals[i][0], "what was in the file is there")
		}
		v.Assert(st.Put(ids[i][1], vals[i][1]) == nil, "puts")
		if remove {
			v.Assert(st.Remove(ids[i][0]) == nil, "removes")
		}
		v.Assert(st.Close() == nil, "closes")
	})
	calm(fs)
	for i := range fs {
		f := fs[i].Reopen()
		st, err := fac.Open(f, f)
		v.Assert(err == nil, "opens again")
		same := ids[i][0] == ids[i][1]
		x, ok := st.Get(ids[i][1])
		if remove {
			v.Assert(v.Or(v.And(ok, x == vals[i][1]), same), "what was put is there after all")
			_, ok = st.Get(ids[i][0])
			v.Assert(!ok, "what was removed is not")
		} else {
			v.Assert(v.And(ok, x == vals[i][1]), "what was put is there after all")
			if has[i] {
				x, ok = st.Get(ids[i][0])
				v.Assert(ok, "what was in the file is there after all")
				v.Assert(v.Or(x == vals[i][0], same), "as it was")
			}
		}
	}
	v.Reach("done")
}

func list(name string, n int) []uint64 {
	l := make([]uint64, n)
	for i := range l {
		l[i] = v.U64(name)
	}
	return l
}

func equal(e *recdb.Entry, p *domain.Profile, mark byte) bool {
	q, ok := e.Data.(*domain.Profile)
	v.Assert(ok, "a like profile")
	return v.And(v.And(q.UserID == p.UserID, e.Deleted == mark), v.And(v.EqU64s(q.Likes, p.Likes), v.EqU64s(q.Dislikes, p.Dislikes)))
}

// C43_RecDB: two databases, written, iterated and rewritten with one protocol.
func C43_RecDB() {
	v.Preemptions(v.Bound("preemptions", 1, 2))
	pr := recdb.NewProtocol(recdb.NewLikeProtocol())
	const n = 2
	var fs [2]*slow
	var ps, qs [2][n]*domain.Profile
	for i := range fs {
		fs[i] = &slow{File: world.NewFile(nil)}
		for k := 0; k < n; k++ {
			a, b := v.Choose("likes", 2), v.Choose("dislikes", v.Bound("dislikes", 1, 2))
			ps[i][k] = &domain.Profile{UserID: v.U64("user"), Likes: list("like", a), Dislikes: list("dislike", b)}
			qs[i][k] = &domain.Profile{UserID: v.U64("user"), Likes: list("like", b), Dislikes: list("dislike", a)}
		}
	}
	slack := uint32(v.Choose("slack", 2) * 101)
	v.RaceDetect()
	both(func(i int) {
		f := fs[i]
		_, err := pr.WritePrefix(f)
		v.Assert(err == nil, "writes the prefix")
		_, err = pr.WriteHeader(&recdb.Header{Version: 1, EntryType: [8]byte{'L', 'I', 'K', 'E', ' ', ' ', ' ', ' '}, NumEntries: n}, f)
		v.Assert(err == nil, "writes the header")
		for k, p := range ps[i] {
			capacity := 21 + 8*uint32(len(p.Likes)+len(p.Dislikes)) + slack
			_, err := pr.WriteEntry(&recdb.Entry{Capacity: capacity, Deleted: byte(k), Data: p}, f)
			v.Assert(err == nil, "writes an entry")
		}
		it, err := recdb.NewIterator(f, pr)
		v.Assert(err == nil, "opens")
		for k := 0; k < n; k++ {
			e, err := it.Next()
			v.Assert(err == nil, "next entry")
			v.Assert(equal(e, ps[i][k], byte(k)), "the entry as it was written")
			err = it.SetPrevious(&recdb.Entry{Capacity: e.Capacity, Deleted: 1 - byte(k), Data: qs[i][k]})
			v.Assert(err == nil, "rewrites the entry")
		}
		v.Assert(it.Rewind() == nil, "rewinds")
		for k := 0; k < n; k++ {
			e, err := it.Next()
			v.Assert(err == nil, "next entry again")
			v.Assert(equal(e, qs[i][k], 1-byte(k)), "the entry as it was rewritten")
		}
		v.Assert(!it.HasNext(), "no more entries")
	})
	calm(fs)
	v.Reach("done")
}
