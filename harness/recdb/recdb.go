// Package recdb: the profile database format (C14-C17, C20, C21) and its
// iterator (C18, C19).
package recdb

import (
	"errors"
	"io"

	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

const (
	head = 19 // magic number and header
	ehd  = 5  // capacity and deletion mark of an entry
	fix  = 21 // entry without items
)

var magic = []byte("RECDB")

func proto() recdb.Protocol { return recdb.NewProtocol(recdb.NewLikeProtocol()) }

func list(name string, n int) []uint64 {
	l := make([]uint64, n)
	for i := range l {
		l[i] = v.U64(name)
	}
	return l
}

func profile(likes, dislikes int) *domain.Profile {
	return &domain.Profile{UserID: v.U64("user"), Likes: list("like", likes), Dislikes: list("dislike", dislikes)}
}

// encode is the documented layout, followed by the unused tail.
func encode(capacity uint32, deleted byte, p *domain.Profile) []byte {
	b := world.Cat(world.U32(capacity), []byte{deleted}, world.U64(p.UserID), world.U32(uint32(len(p.Likes))))
	for _, x := range p.Likes {
		b = append(b, world.U64(x)...)
	}
	b = append(b, world.U32(uint32(len(p.Dislikes)))...)
	for _, x := range p.Dislikes {
		b = append(b, world.U64(x)...)
	}
	for len(b) < int(capacity) {
		b = append(b, 0)
	}
	return b
}

func need(p *domain.Profile) int { return fix + 8*len(p.Likes) + 8*len(p.Dislikes) }

func equal(e *recdb.Entry, capacity uint32, deleted byte, p *domain.Profile, what string) {
	q, ok := e.Data.(*domain.Profile)
	v.Assert(ok, what+": a like profile")
	v.Assert(v.And(e.Capacity == capacity, e.Deleted == deleted), what+": capacity and mark")
	v.Assert(v.And(q.UserID == p.UserID, v.EqU64s(q.Likes, p.Likes), v.EqU64s(q.Dislikes, p.Dislikes)), what+": profile")
}

func header(locked byte, n uint32) []byte {
	return world.Cat(magic, []byte{1}, []byte("LIKE    "), []byte{locked}, world.U32(n))
}

// ---- C14, C15 ----

func slack() int {
	// around what the zero filling does in one piece
	return []int{0, 1, 2, 7, 99, 100, 101, 200, 201}[v.Choose("slack", v.Bound("slacks", 8, 9))]
}

func C14_RoundTrip() {
	max := v.Bound("items per list", 3, 6)
	p := profile(v.Choose("likes", max+1), v.Choose("dislikes", max+1))
	capacity := uint32(need(p) + slack())
	e := recdb.Entry{Capacity: capacity, Deleted: v.U8("deleted"), Data: p}
	f := world.NewFile(v.Bytes("before", 3))
	f.Pos = 3
	pr := proto()
	n, err := pr.WriteEntry(&e, f)
	v.Assert(err == nil, "writes")
	v.Assert(n == int(capacity), "occupies the capacity")
	v.Assert(v.EqBytes(f.Data[3:], encode(capacity, e.Deleted, p)), "layout")
	f.Data = append(f.Data, v.Bytes("after", 2)...)
	f.Pos = 3
	f.Chunk = v.Choose("chunk", 2)
	var r recdb.Entry
	n, err = pr.ReadEntry(&r, f)
	v.Assert(err == nil, "reads")
	v.Assert(n == int(capacity) && f.Pos == 3+n, "consumes the capacity")
	equal(&r, capacity, e.Deleted, p, "round trip")
	v.Obs("bytes", f.Data)
	v.Reach("done")
}

// Lists longer than any internal buffer.
func C14_Long() {
	likes := []int{0, 31, 127, 128, 520}[v.Choose("likes", 5)]
	dislikes := []int{0, 1, 513}[v.Choose("dislikes", 3)]
	p := profile(likes, dislikes)
	capacity := uint32(need(p) + v.Choose("slack", 2)*300)
	e := recdb.Entry{Capacity: capacity, Data: p}
	f := world.NewFile(nil)
	pr := proto()
	n, err := pr.WriteEntry(&e, f)
	v.Assert(err == nil && n == int(capacity), "writes")
	v.Assert(len(f.Data) == int(capacity), "occupies the capacity")
	f.Pos = 0
	var r recdb.Entry
	n, err = pr.ReadEntry(&r, f)
	v.Assert(err == nil && n == int(capacity) && f.Pos == n, "reads")
	equal(&r, capacity, 0, p, "round trip")
	v.Reach("done")
}

// Lists and unused tails longer than 16 bits count; only the last items are arbitrary.
func C14_Huge() {
	v.MaxSteps(200_000_000)
	p := profile(0, 1)
	extra := 0
	many := make([]uint64, v.Bound("items", 65537, 131073))
	for i := range many {
		many[i] = uint64(i) << 20
	}
	many[len(many)-1] = v.U64("last")
	switch v.Choose("what", 3) {
	case 0:
		p.Likes = many
	case 1:
		p.Dislikes = many
	case 2:
		extra = len(many) + 9000
	}
	capacity := uint32(need(p) + extra)
	e := recdb.Entry{Capacity: capacity, Deleted: 1, Data: p}
	f := world.NewFile(nil)
	pr := proto()
	n, err := pr.WriteEntry(&e, f)
	v.Assert(err == nil && n == int(capacity), "writes")
	v.Assert(len(f.Data) == int(capacity), "occupies the capacity")
	f.Data = append(f.Data, 1, 2, 3)
	f.Pos = 0
	var r recdb.Entry
	n, err = pr.ReadEntry(&r, f)
	v.Assert(err == nil && n == int(capacity) && f.Pos == n, "reads")
	equal(&r, capacity, 1, p, "round trip")
	v.Reach("done")
}

// An entry read into a used struct.
func C14_Reused() {
	p := profile(v.Choose("likes", 3), v.Choose("dislikes", 3))
	capacity := uint32(need(p) + v.Choose("slack", 3))
	f := world.NewFile(encode(capacity, v.U8("deleted"), p))
	r := recdb.Entry{Capacity: v.U32("old capacity"), Deleted: v.U8("old mark"), Data: profile(1, 1)}
	n, err := proto().ReadEntry(&r, f)
	v.Assert(err == nil && n == int(capacity), "reads")
	equal(&r, capacity, f.Data[4], p, "contents")
	v.Reach("done")
}

// C14_Two: entries of one protocol object, read one after the other, stay apart; writing
// takes nothing but the entry into account.
func C14_Two() {
	max := v.Bound("items per list", 2, 3)
	var f world.File
	pr := proto()
	var ps [2]*domain.Profile
	var caps [2]uint32
	for i := range ps {
		ps[i] = profile(v.Choose("likes", max+1), v.Choose("dislikes", max+1))
		caps[i] = uint32(need(ps[i]) + v.Choose("slack", 2)*3)
		_, err := pr.WriteEntry(&recdb.Entry{Capacity: caps[i], Deleted: byte(i), Data: ps[i]}, &f)
		v.Assert(err == nil, "writes")
	}
	v.Assert(v.EqBytes(f.Data, world.Cat(encode(caps[0], 0, ps[0]), encode(caps[1], 1, ps[1]))), "layout")
	f.Pos = 0
	var es [2]recdb.Entry
	for i := range es {
		n, err := pr.ReadEntry(&es[i], &f)
		v.Assert(err == nil && n == int(caps[i]), "reads")
	}
	for i := range es {
		equal(&es[i], caps[i], byte(i), ps[i], "both entries")
	}
	v.Reach("done")
}

func C15_Write() {
	max := v.Bound("items per list", 2, 4)
	p := profile(v.Choose("likes", max+1), v.Choose("dislikes", max+1))
	capacity := v.Concrete(v.Int("capacity", 0, need(p)+v.Bound("slack", 12, 110)))
	e := recdb.Entry{Capacity: uint32(capacity), Deleted: v.U8("deleted"), Data: p}
	f := world.NewFile(nil)
	n, err := proto().WriteEntry(&e, f)
	v.Assert((err == nil) == (capacity >= need(p)), "written exactly if it fits")
	v.Assert(len(f.Data) == n, "the reported number is the number written")
	if err != nil {
		v.Assert(f.Writes == 0, "rejected before anything is written")
		v.Reach("rejected")
	} else {
		v.Assert(n == capacity, "exactly the capacity is written")
		v.Reach("written")
	}
	v.Obs("n", n, err)
}

// Long unused tails, and data just too long for long capacities.
func C15_Large() {
	v.MaxSteps(200_000_000)
	items := []int{0, 127, 128, 8190, 8192}[v.Choose("items", v.Bound("sizes of lists", 4, 5))]
	p := &domain.Profile{UserID: v.U64("user"), Likes: make([]uint64, items), Dislikes: list("dislike", 1)}
	slack := []int{-1, 0, 255, 256, 1000, 65535, 65536, 70001}[v.Choose("slack", 8)]
	e := recdb.Entry{Capacity: uint32(need(p) + slack), Deleted: v.U8("deleted"), Data: p}
	f := world.NewFile(nil)
	n, err := proto().WriteEntry(&e, f)
	v.Assert((err == nil) == (slack >= 0), "written exactly if it fits")
	v.Assert(len(f.Data) == n, "the reported number is the number written")
	if err != nil {
		v.Assert(n == 0, "rejected before anything is written")
		v.Reach("rejected")
	} else {
		v.Assert(n == int(e.Capacity), "exactly the capacity is written")
		v.Assert(v.EqBytes(f.Data[:5], world.Cat(world.U32(e.Capacity), []byte{e.Deleted})), "capacity and mark")
		v.Reach("written")
	}
}

// Capacities of any size that do not fit.
func C15_TooBig() {
	p := profile(v.Choose("likes", 3), v.Choose("dislikes", 3))
	c := v.U32("capacity")
	v.Assume(c < uint32(need(p)))
	f := world.NewFile(nil)
	_, err := proto().WriteEntry(&recdb.Entry{Capacity: c, Data: p}, f)
	v.Assert(err != nil, "rejected")
	v.Assert(f.Writes == 0, "before anything is written")
	v.Reach("done")
}

// Data that is no profile.
func C15_Data() {
	var data any
	switch v.Choose("data", 3) {
	case 1:
		data = "text"
	case 2:
		data = domain.Profile{}
	}
	f := world.NewFile(nil)
	e := &recdb.Entry{Capacity: 300, Data: data}
	_, err := proto().WriteEntry(e, f)
	v.Assert(err != nil, "rejected")
	v.Assert(f.Writes == 0, "before anything is written")
	_, err = recdb.NewLikeProtocol().WriteEntryData(e, f)
	v.Assert(err != nil, "rejected by the like protocol")
	v.Assert(f.Writes == 0, "before anything is written")
	v.Reach("done")
}

// A writer that fails.
func C15_Fault() {
	p := profile(v.Choose("likes", 2), v.Choose("dislikes", 2))
	f := world.NewFile(nil)
	f.FaultArmed = true
	e := &recdb.Entry{Capacity: uint32(need(p) + v.Choose("slack", 2)*150), Data: p}
	n, err := proto().WriteEntry(e, f)
	v.Assert((err != nil) == f.Faulted, "a failure is reported, and only that")
	if err == nil {
		v.Assert(n == int(e.Capacity) && len(f.Data) == n, "exactly the capacity")
		v.Reach("written")
	}
}

// ---- C16 ----

func C16_Read() {
	n := v.Choose("size", v.Bound("input size", fix+4*8, fix+7*8)+1)
	in := v.Bytes("entry", n)
	f := world.NewFile(in)
	if n >= 4 {
		// the capacity decides how much may be reserved
		c := world.GetU32(in)
		v.Assume(c <= uint32(v.Bound("capacity", 72, 110)))
	}
	v.MaxAlloc(4*v.Bound("capacity", 72, 110) + 512)
	var e recdb.Entry
	k, err := proto().ReadEntry(&e, f)
	v.MaxAlloc(0)
	// the reference
	good := n >= fix
	var capacity, nl, nd int
	if good {
		capacity = int(world.GetU32(in))
		nl = int(world.GetU32(in[13:]))
		good = v.And(capacity <= n, fix+8*nl <= capacity)
		if good {
			nl = v.Concrete(nl)
			nd = int(world.GetU32(in[17+8*nl:]))
			good = fix+8*nl+8*nd <= capacity
		}
	}
	v.Assert((err == nil) == good, "reads exactly the entries that fit")
	if err != nil {
		v.Reach("refused")
		return
	}
	nd = v.Concrete(nd)
	v.Assert(k == capacity && f.Pos == k, "consumes exactly the capacity")
	p := &domain.Profile{UserID: world.GetU64(in[5:])}
	for i := 0; i < nl; i++ {
		p.Likes = append(p.Likes, world.GetU64(in[17+8*i:]))
	}
	for i := 0; i < nd; i++ {
		p.Dislikes = append(p.Dislikes, world.GetU64(in[21+8*nl+8*i:]))
	}
	equal(&e, uint32(capacity), in[4], p, "as encoded")
	v.Reach("read")
}

// Lists that do not fit are refused before memory is reserved for them.
func C16_Memory() {
	c := []int{0, 1, 4, 5, 20, 21, 22, 29, 100, 255, 4096, 1 << 20, 1 << 31}[v.Choose("capacity", 13)]
	in := v.Bytes("entry", v.Bound("input size", fix+2*8, fix+4*8))
	copy(in, world.U32(uint32(c)))
	at := 13
	if v.Choose("list", 2) == 1 {
		copy(in[13:], world.U32(1)) // one like
		at = 25
	}
	num := world.GetU32(in[at:])
	v.Assume(fix+8*uint64(num)+8*uint64(at/25) > uint64(c))
	v.MaxAlloc(4096)
	var e recdb.Entry
	_, err := proto().ReadEntry(&e, world.NewFile(in))
	v.MaxAlloc(0)
	v.Assert(err != nil, "refused")
	v.Reach("refused")
}

// Long lists and long unused tails in sufficiently long inputs.
func C16_Long() {
	v.MaxSteps(200_000_000)
	items := []int{0, 1, 127, 128, 255, 256, 511, 512, 8192}[v.Choose("items", 9)]
	slack := []int{0, 1, 255, 256, 257, 65535, 65536, 70001}[v.Choose("slack", 8)]
	p := &domain.Profile{UserID: v.U64("user"), Likes: make([]uint64, items), Dislikes: list("dislike", 1)}
	if v.Choose("swap", 2) == 1 {
		p.Likes, p.Dislikes = p.Dislikes, p.Likes
	}
	in := encode(uint32(need(p)+slack), v.U8("deleted"), p)
	cut := v.Choose("cut", 2)
	f := world.NewFile(in[:len(in)-cut])
	var r recdb.Entry
	n, err := proto().ReadEntry(&r, f)
	if cut == 1 {
		v.Assert(err != nil, "a short input is refused")
		v.Reach("refused")
		return
	}
	v.Assert(err == nil && n == len(in) && f.Pos == n, "consumes exactly the capacity")
	equal(&r, uint32(len(in)), in[4], p, "as encoded")
	v.Reach("read")
}

// Any capacity at all, in a short input.
func C16_AnyCapacity() {
	n := v.Choose("size", v.Bound("input size", fix+9, fix+17))
	in := v.Bytes("entry", n)
	if n >= 17 {
		// lists that fit the capacity but not this input are left to C16_Read
		c, nl := uint64(world.GetU32(in)), uint64(world.GetU32(in[13:]))
		v.Assume(v.Or(nl <= 2, fix+8*nl > c))
		for k := 0; k <= 2; k++ {
			if n >= fix+8*k {
				nd := uint64(world.GetU32(in[17+8*k:]))
				v.Assume(v.Or(nl != uint64(k), nd <= 2, fix+8*nl+8*nd > c))
			}
		}
	}
	f := world.NewFile(in)
	var e recdb.Entry
	k, err := proto().ReadEntry(&e, f)
	if err == nil {
		v.Assert(n >= fix && k == int(world.GetU32(in)) && f.Pos == k && k <= n && k >= fix, "consumes exactly the capacity")
		v.Reach("read")
	} else {
		v.Reach("refused")
	}
}

// ---- C17 ----

func C17_Predict() {
	max := v.Bound("items per list", 40, 160)
	nl, nd := v.Concrete(v.Int("likes", 0, max)), v.Concrete(v.Int("dislikes", 0, 3))
	if v.Choose("swap", 2) == 1 {
		nl, nd = nd, nl
	}
	predict(nl, nd)
}

func predict(nl, nd int) {
	p := &domain.Profile{UserID: v.U64("user"), Likes: make([]uint64, nl), Dislikes: make([]uint64, nd)}
	pr := proto()
	e := &recdb.Entry{Capacity: v.U32("capacity"), Deleted: v.U8("deleted"), Data: p}
	size, err := pr.PredictEntrySize(e)
	v.Assert(err == nil, "predicts the size")
	v.Assert(size == need(p), "exact size")
	c, err := pr.PredictEntryCapacity(e)
	v.Assert(err == nil, "predicts the capacity")
	v.Assert(c >= size, "sufficient")
	v.Assert(c >= 5+8*30, "minimum")
	if c > 5+8*30 {
		v.Assert(c-size <= size/2, "slack")
	}
	v.Assert(c <= 5+8*30 || c >= size, "slack")
	// adding an item
	q := &domain.Profile{Likes: make([]uint64, nl+1), Dislikes: p.Dislikes}
	c2, err := pr.PredictEntryCapacity(&recdb.Entry{Data: q})
	v.Assert(err == nil && c2 >= c, "does not decrease when items are added")
	q = &domain.Profile{Likes: p.Likes, Dislikes: make([]uint64, nd+1)}
	c2, err = pr.PredictEntryCapacity(&recdb.Entry{Data: q})
	v.Assert(err == nil && c2 >= c, "does not decrease when items are added")
	v.Obs("c", size, c, c2)
	v.Reach("done")
}

// The prediction and the bytes written agree.
func C17_Written() {
	max := v.Bound("items per list", 34, 80)
	nl := v.Concrete(v.Int("likes", 0, max))
	nd := v.Choose("dislikes", 3)
	p := &domain.Profile{UserID: 1, Likes: make([]uint64, nl), Dislikes: make([]uint64, nd)}
	e := &recdb.Entry{Data: p}
	pr := proto()
	size, err := pr.PredictEntrySize(e)
	v.Assert(err == nil, "predicts")
	f := world.NewFile(nil)
	_, err = recdb.NewLikeProtocol().WriteEntryData(e, f)
	v.Assert(err == nil, "writes")
	v.Assert(size == len(f.Data)+ehd, "exactly the bytes needed")
	c, err := pr.PredictEntryCapacity(e)
	v.Assert(err == nil, "predicts")
	e.Capacity = uint32(c)
	g := world.NewFile(nil)
	n, err := pr.WriteEntry(e, g)
	v.Assert(err == nil && n == c && len(g.Data) == c, "an entry fits its predicted capacity")
	v.Reach("done")
}

// Sizes beyond what a list in memory can have here: the lengths are free.
type sized struct{ n int }

var errData = errors.New("no")

func (s sized) ReadEntryData(*recdb.Entry, io.Reader) (int, error)  { return 0, errData }
func (s sized) WriteEntryData(*recdb.Entry, io.Writer) (int, error) { return 0, errData }
func (s sized) GetEntryType() [8]byte                               { return [8]byte{} }
func (s sized) PredictDataSize(any) (int, error)                    { return s.n, nil }

func C17_AnySize() {
	n := v.Int("data size", 0, 1<<40)
	pr := recdb.NewProtocol(sized{n})
	size, err := pr.PredictEntrySize(&recdb.Entry{})
	v.Assert(err == nil && size == n+ehd, "exact size")
	c, err := pr.PredictEntryCapacity(&recdb.Entry{})
	v.Assert(err == nil && c >= size && c >= 5+8*30, "sufficient")
	v.Assert(c-size <= v.IteInt(size < 5+8*30, 5+8*30, size/2), "slack")
	m := v.Int("larger", 0, 1<<40)
	v.Assume(m >= n)
	c2, err := recdb.NewProtocol(sized{m}).PredictEntryCapacity(&recdb.Entry{})
	v.Assert(err == nil && c2 >= c, "does not decrease")
	v.Obs("c", c, c2)
	v.Reach("done")
}

// ---- C18, C19 ----

type db struct {
	f        *world.File
	offsets  []int
	caps     []int
	profiles []*domain.Profile
	deleted  []byte
}

// build makes a database of n entries of various capacities.
func build(n int, big bool) *db {
	d := &db{f: world.NewFile(header(0, uint32(n)))}
	for i := 0; i < n; i++ {
		var p *domain.Profile
		c := 0
		if big {
			p = &domain.Profile{UserID: v.U64("user"), Likes: make([]uint64, 20), Dislikes: list("dislike", 1)}
			c = 245
			if i%7 == 3 {
				c = 700
			}
		} else {
			shape := v.Choose("shape", 3)
			p = profile([]int{1, 0, 2}[shape], []int{0, 1, 0}[shape])
			c = need(p) + []int{0, 3, 101}[shape]
		}
		d.offsets = append(d.offsets, len(d.f.Data))
		d.caps = append(d.caps, c)
		d.profiles = append(d.profiles, p)
		d.deleted = append(d.deleted, v.U8("deleted"))
		d.f.Data = append(d.f.Data, encode(uint32(c), d.deleted[i], p)...)
	}
	return d
}

func (d *db) check(e *recdb.Entry, i int) {
	equal(e, uint32(d.caps[i]), d.deleted[i], d.profiles[i], "entry in file order")
}

func C18_Iterate() {
	n := v.Choose("entries", v.Bound("entries", 3, 4)+1)
	d := build(n, false)
	if v.Choose("tail", 2) == 1 {
		d.f.Data = append(d.f.Data, v.Bytes("tail", 30)...) // beyond what the header announces
	}
	d.f.Pos = v.Choose("position", 2) * 7
	iterate(d, n)
}

func iterate(d *db, n int) {
	before := append([]byte{}, d.f.Data...)
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	rewinds := 2
	for i := 0; ; i++ {
		if rewinds > 0 && v.Choose("rewind", 2) == 1 {
			rewinds--
			v.Assert(it.Rewind() == nil, "rewinds")
			i = 0
		}
		if i == n {
			break
		}
		v.Assert(it.HasNext(), "there is a next entry")
		e, err := it.Next()
		v.Assert(err == nil, "next entry")
		d.check(e, i)
	}
	v.Assert(!it.HasNext(), "there is no next entry")
	_, err = it.Next()
	v.Assert(err != nil, "refuses to go on")
	v.Assert(!it.HasNext(), "there is still no next entry")
	v.Assert(it.Rewind() == nil, "rewinds")
	v.Assert(it.HasNext() == (n > 0), "starts over")
	if n > 0 {
		e, err := it.Next()
		v.Assert(err == nil, "first entry again")
		d.check(e, 0)
	}
	v.Assert(d.f.Writes == 0 && v.EqBytes(d.f.Data, before), "the file is not modified")
	v.Reach("done")
}

// Two databases iterated at the same time with one protocol object; an entry of one of
// them may be rewritten (C19) in between.
func C18_Two() { two(false) }

func two(rewrite bool) {
	pr := proto()
	var ds [2]*db
	var its [2]recdb.Iterator
	var at [2]int
	for i := range ds {
		ds[i] = build(v.Choose("entries", 3), false)
		var err error
		its[i], err = recdb.NewIterator(ds[i].f, pr)
		v.Assert(err == nil, "opens")
	}
	steps := v.Bound("steps", 3, 4)
	for s := 0; s < steps; s++ {
		k := v.Choose("database", 2)
		d, it := ds[k], its[k]
		v.Assert(it.HasNext() == (at[k] < len(d.caps)), "there is a next entry")
		e, err := it.Next()
		if at[k] == len(d.caps) {
			v.Assert(err != nil, "refuses to go on")
			continue
		}
		v.Assert(err == nil, "next entry")
		d.check(e, at[k])
		if rewrite && v.Choose("rewrite", 2) == 1 {
			q := profile(len(d.profiles[at[k]].Likes), len(d.profiles[at[k]].Dislikes))
			w := recdb.Entry{Capacity: uint32(d.caps[at[k]]), Deleted: v.U8("mark"), Data: q}
			v.Assert(it.SetPrevious(&w) == nil, "rewrites")
			d.profiles[at[k]], d.deleted[at[k]] = q, w.Deleted
		}
		at[k]++
	}
	for _, d := range ds {
		want := header(0, uint32(len(d.caps)))
		for i := range d.caps {
			want = append(want, encode(uint32(d.caps[i]), d.deleted[i], d.profiles[i])...)
		}
		v.Assert(len(d.f.Data) >= len(want) && v.EqBytes(d.f.Data[:len(want)], want), "contents of the files")
	}
	v.Reach("done")
}

// Databases larger than the read buffer.
func C18_Big() {
	n := v.Bound("entries", 22, 60)
	d := build(n, true)
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	stop := v.Choose("rewind after", n+1)
	for i := 0; i < stop; i++ {
		e, err := it.Next()
		v.Assert(err == nil, "next entry")
		d.check(e, i)
	}
	v.Assert(it.Rewind() == nil, "rewinds")
	for i := 0; i < n; i++ {
		v.Assert(it.HasNext(), "there is a next entry")
		e, err := it.Next()
		v.Assert(err == nil, "next entry")
		d.check(e, i)
	}
	v.Assert(!it.HasNext(), "there is no next entry")
	v.Assert(d.f.Writes == 0, "the file is not modified")
	v.Reach("done")
}

// More entries than 8 (16) bits count.
func C18_Many() {
	v.MaxSteps(400_000_000)
	n := []int{255, 256, 257, 600, 65538}[v.Choose("entries", 5)]
	d := many(n)
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	if v.Choose("rewind", 2) == 1 {
		for i := 0; i < n; i += 1 + n/3 {
			_, err := it.Next()
			v.Assert(err == nil, "next entry")
		}
		v.Assert(it.Rewind() == nil, "rewinds")
	}
	for i := 0; i < n; i++ {
		v.Assert(it.HasNext(), "there is a next entry")
		e, err := it.Next()
		v.Assert(err == nil, "next entry")
		d.check(e, i)
	}
	v.Assert(!it.HasNext(), "there is no next entry")
	_, err = it.Next()
	v.Assert(err != nil, "refuses to go on")
	v.Reach("done")
}

// many makes a database of n small entries, all but a few of them concrete,
// after a first one that is larger than 16 bits count.
func many(n int) *db {
	d := &db{f: world.NewFile(header(0, uint32(n)))}
	var buf []byte
	for i := 0; i < n; i++ {
		p := &domain.Profile{UserID: uint64(i), Likes: []uint64{uint64(i) * 77}}
		if i%250 == 5 {
			p.Likes[0] = v.U64("like")
		}
		c, del := need(p)+i%3, byte(i)
		if i == 0 {
			c += 65536
		}
		d.offsets = append(d.offsets, head+len(buf))
		d.caps = append(d.caps, c)
		d.profiles = append(d.profiles, p)
		d.deleted = append(d.deleted, del)
		buf = append(buf, encode(uint32(c), del, p)...)
	}
	d.f.Data = append(d.f.Data, buf...)
	return d
}

func C18_Open() {
	n := v.Choose("size", head+3)
	f := world.NewFile(v.Bytes("file", n))
	before := append([]byte{}, f.Data...)
	f.Pos = v.Choose("position", 2) * (n / 2)
	it, err := recdb.NewIterator(f, proto())
	good := n >= head && v.And(v.EqBytes(f.Data[:5], magic), f.Data[14] == 0)
	v.Assert((err == nil) == good, "opens exactly unlocked databases")
	v.Assert(v.EqBytes(f.Data, before), "the file is not modified")
	if err == nil {
		v.Assert(it.HasNext() == (world.GetU32(f.Data[15:]) != 0), "entries announced")
		v.Reach("opened")
	} else {
		v.Reach("refused")
	}
}

// Entries announced but not there.
func C18_Short() {
	n := 1 + v.Choose("entries", 2)
	d := build(n, false)
	cut := 1 + v.Choose("cut", v.Bound("cut bytes", 40, 60))
	if cut > d.caps[n-1] {
		cut = d.caps[n-1]
	}
	d.f.Data = d.f.Data[:len(d.f.Data)-cut]
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	for i := 0; i < n-1; i++ {
		e, err := it.Next()
		v.Assert(err == nil, "next entry")
		d.check(e, i)
	}
	_, err = it.Next()
	v.Assert(err != nil, "a missing entry is an error")
	v.Reach("done")
}

// Reads that fail: rewinding starts over whatever has been read before.
func C18_Retry() {
	n := 1 + v.Choose("entries", 2)
	d := build(n, false)
	d.f.Chunk = []int{0, 1, 7, 30}[v.Choose("chunk", 4)]
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	d.f.FaultArmed = true
	d.f.Skip = v.Choose("skip", 2) * 3
	d.f.Window = v.Bound("operations that may fail", 12, 30)
	for i := 0; i < n; i++ {
		e, err := it.Next()
		v.Assert(v.Implies(!d.f.Faulted, err == nil), "next entry")
		if err != nil {
			v.Reach("failed")
			break
		}
		d.check(e, i)
	}
	if !d.f.Faulted && v.Choose("rewind fails", 2) == 1 {
		err = it.Rewind()
		v.Assert(d.f.Faulted == (err != nil), "rewinds unless the file fails")
	}
	d.f.FaultArmed = false
	v.Assert(it.Rewind() == nil, "rewinds")
	for i := 0; i < n; i++ {
		v.Assert(it.HasNext(), "there is a next entry")
		e, err := it.Next()
		v.Assert(err == nil, "entry after rewinding")
		d.check(e, i)
	}
	v.Assert(!it.HasNext(), "there is no next entry")
	v.Assert(d.f.Writes == 0, "the file is not modified")
	v.Reach("done")
}

// What was read is changed in place and written back.
func C19_InPlace() {
	n := 1 + v.Choose("entries", v.Bound("entries", 2, 3))
	d := build(n, false)
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	want := append([]byte{}, d.f.Data...)
	for i := 0; i < n; i++ {
		e, err := it.Next()
		v.Assert(err == nil, "next entry")
		d.check(e, i)
		how := v.Choose("change", 5)
		if how == 0 {
			continue
		}
		p := e.Data.(*domain.Profile)
		x := *e
		switch how {
		case 1: // nothing
		case 2:
			p.UserID = v.U64("new user")
		case 3:
			if len(p.Likes) > 0 {
				p.Likes[len(p.Likes)-1] = v.U64("new like")
			} else if len(p.Dislikes) > 0 {
				p.Dislikes = p.Dislikes[:0]
			}
		case 4:
			x.Deleted = v.U8("new mark")
		}
		d.profiles[i] = &domain.Profile{UserID: p.UserID,
			Likes:    append([]uint64{}, p.Likes...),
			Dislikes: append([]uint64{}, p.Dislikes...)}
		d.deleted[i] = x.Deleted
		v.Assert(it.SetPrevious(&x) == nil, "rewrites")
		want = world.Cat(want[:d.offsets[i]], encode(uint32(d.caps[i]), x.Deleted, d.profiles[i]), want[d.offsets[i]+d.caps[i]:])
		v.Assert(v.EqBytes(d.f.Data, want), "exactly the bytes of that entry")
	}
	v.Assert(it.Rewind() == nil, "rewinds")
	for i := 0; i < n; i++ {
		e, err := it.Next()
		v.Assert(err == nil, "second pass")
		d.check(e, i)
	}
	v.Reach("done")
}

func C19_Rewrite() {
	n := 1 + v.Choose("entries", v.Bound("entries", 3, 4))
	d := build(n, false)
	rewrite(d, n, v.Choose("steps", n+1))
}

func C19_Big() {
	n := v.Bound("entries", 20, 40)
	d := build(n, true)
	rewrite(d, n, v.Choose("steps", n+1))
}

// Far into a large database.
func C19_Far() {
	v.MaxSteps(400_000_000)
	n := v.Bound("entries", 300, 1200)
	d := many(n)
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	k := []int{1, 2, 256, n}[v.Choose("steps", 4)]
	for i := 0; i < k; i++ {
		_, err := it.Next()
		v.Assert(err == nil, "next entry")
	}
	d.set(it, k-1, append([]byte{}, d.f.Data...))
	for i := k; i < n; i++ {
		e, err := it.Next()
		v.Assert(err == nil, "entry that follows")
		d.check(e, i)
	}
	v.Assert(!it.HasNext(), "ends")
	v.Reach("done")
}

// rewrite reads k entries and rewrites the last of them, perhaps repeatedly.
func rewrite(d *db, n, k int) {
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	if v.Choose("rewound", 2) == 1 {
		if n > 1 {
			it.Next()
			it.Next()
		}
		v.Assert(it.Rewind() == nil, "rewinds")
	}
	want := append([]byte{}, d.f.Data...)
	again := false
	for i := 0; i < k; i++ {
		e, err := it.Next()
		v.Assert(err == nil, "next entry")
		d.check(e, i)
		if i < k-1 && i < 2 && v.Choose("rewrite this", 2) == 1 {
			want = d.set(it, i, want)
			again = true
		}
	}
	if again {
		v.Reach("several")
	}
	if k == 0 {
		p := profile(0, 0)
		v.Assert(it.SetPrevious(&recdb.Entry{Capacity: uint32(d.caps[0]), Data: p}) != nil, "no entry was read")
		v.Assert(v.EqBytes(d.f.Data, want), "the file is unchanged")
	} else {
		switch v.Choose("how", 4) {
		case 0:
			want = d.set(it, k-1, want)
		case 1: // twice
			want = d.set(it, k-1, want)
			want = d.set(it, k-1, want)
		case 2: // another capacity
			c := v.U32("other capacity")
			v.Assume(c != uint32(d.caps[k-1]))
			v.Assert(it.SetPrevious(&recdb.Entry{Capacity: c, Data: profile(0, 0)}) != nil, "capacity mismatch")
			v.Assert(v.EqBytes(d.f.Data, want), "the file is unchanged")
			v.Reach("mismatch")
		case 3: // data that does not fit
			p := &domain.Profile{Likes: make([]uint64, d.caps[k-1]/8)}
			v.Assert(it.SetPrevious(&recdb.Entry{Capacity: uint32(d.caps[k-1]), Data: p}) != nil, "data too large")
			v.Assert(v.EqBytes(d.f.Data, want), "the file is unchanged")
			v.Reach("too large")
		}
	}
	for i := k; i < n; i++ {
		v.Assert(it.HasNext(), "goes on")
		e, err := it.Next()
		v.Assert(err == nil, "entry that follows")
		d.check(e, i)
	}
	v.Assert(!it.HasNext(), "ends")
	v.Assert(v.EqBytes(d.f.Data, want), "the file afterwards")
	// another pass sees the new contents
	v.Assert(it.Rewind() == nil, "rewinds")
	for i := 0; i < n; i++ {
		e, err := it.Next()
		v.Assert(err == nil, "second pass")
		d.check(e, i)
	}
	v.Reach("done")
}

func (d *db) set(it recdb.Iterator, i int, want []byte) []byte {
	p := profile(0, v.Choose("new dislikes", 2))
	if need(p) > d.caps[i] {
		p.Dislikes = []uint64{}
	}
	del := v.U8("new mark")
	v.Assert(it.SetPrevious(&recdb.Entry{Capacity: uint32(d.caps[i]), Deleted: del, Data: p}) == nil, "rewrites")
	d.profiles[i], d.deleted[i] = p, del
	want = world.Cat(want[:d.offsets[i]], encode(uint32(d.caps[i]), del, p), want[d.offsets[i]+d.caps[i]:])
	v.Assert(v.EqBytes(d.f.Data, want), "exactly the bytes of that entry")
	return want
}

// A failed read does not make another entry the previous one.
func C19_AfterFailure() {
	d := build(2, false)
	d.f.Data = d.f.Data[:len(d.f.Data)-1-v.Choose("cut", 20)]
	it, err := recdb.NewIterator(d.f, proto())
	v.Assert(err == nil, "opens")
	_, err = it.Next()
	v.Assert(err == nil, "first entry")
	_, err = it.Next()
	v.Assert(err != nil, "second entry is cut")
	before := append([]byte{}, d.f.Data...)
	p := profile(0, 0)
	err = it.SetPrevious(&recdb.Entry{Capacity: uint32(d.caps[0]), Data: p})
	if err == nil {
		v.Assert(v.EqBytes(d.f.Data[d.offsets[1]:], before[d.offsets[1]:]), "other entries are unchanged")
		v.Assert(v.EqBytes(d.f.Data[:head], before[:head]), "the header is unchanged")
	} else {
		v.Assert(v.EqBytes(d.f.Data, before), "the file is unchanged")
	}
	v.Reach("done")
}

// ---- C20, C21 ----

func C20_RecDB() {
	p := proto()
	h := recdb.Header{Version: v.U8("version"), Locked: v.U8("locked"), NumEntries: v.U32("count")}
	typ := v.Bytes("type", 8)
	copy(h.EntryType[:], typ)
	f := world.NewFile(v.Bytes("before", 2))
	f.Pos = 2
	n, err := p.WritePrefix(f)
	v.Assert(err == nil && n == 5, "writes the magic number")
	n, err = p.WriteHeader(&h, f)
	v.Assert(err == nil && n == 14, "writes the header")
	v.Assert(v.EqBytes(f.Data[2:], world.Cat(magic, []byte{h.Version}, typ, []byte{h.Locked}, world.U32(h.NumEntries))), "layout")
	f.Data = append(f.Data, v.Bytes("after", 2)...)
	f.Pos = 2
	f.Chunk = v.Choose("chunk", 2)
	var r recdb.Header
	n, err = p.ReadPrefix(f)
	v.Assert(err == nil && n == 5 && f.Pos == 7, "reads the magic number")
	n, err = p.ReadHeader(&r, f)
	v.Assert(err == nil && n == 14 && f.Pos == 21, "reads the header")
	v.Assert(v.And(r.Version == h.Version, r.Locked == h.Locked, r.NumEntries == h.NumEntries, v.EqBytes(r.EntryType[:], typ)), "round trip")
	v.Obs("bytes", f.Data)
	v.Reach("done")
}

func C20_RecDBMagic() {
	p := proto()
	n := v.Choose("size", 8)
	f := world.NewFile(v.Bytes("file", n))
	f.Chunk = v.Choose("chunk", 2)
	_, err := p.ReadPrefix(f)
	good := n >= 5 && v.EqBytes(f.Data[:5], magic)
	v.Assert((err == nil) == good, "exactly the magic number is accepted")
	if good {
		v.Assert(f.Pos == 5, "consumed")
		v.Reach("good")
	}
	v.Obs("err", err)
}

func C20_RecDBShortHeader() {
	var h recdb.Header
	n := v.Choose("size", 14)
	_, err := proto().ReadHeader(&h, world.NewFile(v.Bytes("file", n)))
	v.Assert(err != nil, "a header cut short is rejected")
	v.Reach("done")
}

func C20_Create() {
	f := world.NewFile(nil)
	f.FaultArmed = v.Choose("faults", 2) == 1
	err := proto().Create(f)
	v.Assert((err != nil) == f.Faulted, "failures are reported, and only them")
	if err != nil {
		return
	}
	f.FaultArmed = false
	v.Assert(v.EqBytes(f.Data, header(0, 0)), "an empty unlocked database")
	locked, err := proto().IsLocked(f)
	v.Assert(err == nil && !locked, "unlocked")
	it, err := recdb.NewIterator(f, proto())
	v.Assert(err == nil, "iterates")
	v.Assert(!it.HasNext(), "empty")
	v.Reach("created")
}

func C21_RecDB() {
	p := proto()
	n := head + v.Choose("more", v.Bound("more bytes", 3, 20))
	f := world.NewFile(v.Bytes("file", n))
	in := append([]byte{}, f.Data...)
	pos := v.Choose("position", n+1)
	f.Pos = pos
	locked, err := p.IsLocked(f)
	v.Assert(err == nil, "reads the mark")
	v.Assert(locked == (in[14] != 0), "the mark as it is")
	v.Assert(f.Pos == pos, "position kept")
	v.Assert(v.EqBytes(f.Data, in), "nothing changed")
	set := v.Bool("set")
	v.Assert(p.WriteLocked(set, f) == nil, "writes the mark")
	v.Assert(f.Pos == pos, "position kept")
	locked, err = p.IsLocked(f)
	v.Assert(err == nil && locked == set, "what was set is read")
	v.Assert((f.Data[14] != 0) == set, "the mark in the file")
	v.Assert(len(f.Data) == n, "size kept")
	v.Assert(v.And(v.EqBytes(f.Data[:14], in[:14]), v.EqBytes(f.Data[15:], in[15:])), "other bytes kept")
	v.Assert(f.Pos == pos, "position kept")
	v.Obs("bytes", f.Data)
	v.Reach("done")
}

func C19_Two() { two(true) }
