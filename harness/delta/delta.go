// Package delta: the delta storage (C01-C06, C08, C09) and its file format
// (C07, C20, C21).
package delta

import (
	"io"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

const (
	head = 14 // magic number and header
	rec  = 18 // one record
)

var magic = []byte("RECDELTA")

type op struct {
	op         byte
	user, item uint64
}

// sym is an arbitrary operation.
func sym() op {
	return op{v.IteU8(v.Bool("remove"), '-', '+'), v.U64("user"), v.U64("item")}
}

func sum(b []byte) byte {
	var s byte
	for _, x := range b {
		s += x
	}
	return s
}

func (o op) bytes() []byte {
	b := world.Cat([]byte{o.op}, world.U64(o.user), world.U64(o.item))
	return append(b, sum(b))
}

func header(locked byte, n uint32) []byte {
	return world.Cat(magic, []byte{1, locked}, world.U32(n))
}

// image is a well-formed file.
func image(ops []op) []byte {
	b := header(0, uint32(len(ops)))
	for _, o := range ops {
		b = append(b, o.bytes()...)
	}
	return b
}

// last is the last operation of a pair: present, operation (no path splitting).
func last(ops []op, user, item uint64) (bool, byte) {
	present, r := false, byte(0)
	for _, o := range ops {
		hit := v.And(o.user == user, o.item == item)
		present = v.Or(present, hit)
		r = v.IteU8(hit, o.op, r)
	}
	return present, r
}

// same asserts that the storage answers for an arbitrary pair as the history says.
func same(st domain.DeltaStorage, ops []op, what string) {
	user, item := v.U64("query user"), v.U64("query item")
	want, wop := last(ops, user, item)
	got, ok := st.Get(user, item)
	v.Assert(ok == want, what+": presence of a pair")
	v.Assert(v.Implies(want, byte(got) == wop), what+": last operation of a pair")
}

// records is what an intact scan of the bytes after the header yields.
func records(b []byte) []op {
	var ops []op
	for len(b) >= rec {
		r := b[:rec]
		b = b[rec:]
		if v.And(sum(r[:rec-1]) == r[rec-1], v.Or(r[0] == '+', r[0] == '-')) {
			ops = append(ops, op{r[0], world.GetU64(r[1:]), world.GetU64(r[9:])})
		}
	}
	return ops
}

// decode reads n records without judging them.
func decode(b []byte, n int) []op {
	var ops []op
	for i := 0; i < n; i++ {
		r := b[i*rec:]
		ops = append(ops, op{r[0], world.GetU64(r[1:]), world.GetU64(r[9:])})
	}
	return ops
}

// start is the file a history begins with, and its operations.
func start(max int) ([]byte, []op) {
	n := v.Choose("initial records", max+2) - 1
	if n < 0 {
		return nil, nil
	}
	var ops []op
	for i := 0; i < n; i++ {
		ops = append(ops, sym())
	}
	return image(ops), ops
}

// ---- C01, C02, C06: histories ----

type history struct {
	f       *world.File
	st      domain.DeltaStorage
	flushed []op
	pending []op
	all     []op
	locked  bool
}

func open(data []byte, ops []op) *history {
	h := &history{f: world.NewFile(data), flushed: ops, all: ops}
	h.open()
	return h
}

func (h *history) open() {
	fac := delta.NewStorageFactory()
	var err error
	if v.Choose("recovering open", 2) == 1 {
		h.st, err = fac.OpenMaybeRecover(h.f)
	} else {
		h.st, err = fac.Open(h.f)
	}
	v.Assert(err == nil, "a clean file opens")
	h.locked = true
}

func (h *history) add(o op) {
	h.st.Add(domain.DeltaOp(o.op), o.user, o.item)
	h.all = append(h.all, o)
	for i, p := range h.pending {
		if v.And(p.user == o.user, p.item == o.item) {
			h.pending[i].op = o.op
			return
		}
	}
	h.pending = append(h.pending, o)
}

func (h *history) flush() {
	v.Assert(h.st.Flush() == nil, "flush succeeds")
	h.flushed = append(h.flushed, h.pending...)
	h.pending = nil
}

func (h *history) close() {
	h.locked = false
	v.Assert(h.st.Close() == nil, "close succeeds")
	v.Assert(h.f.Closed, "close closes the file")
	h.flushed = append(h.flushed, h.pending...)
	h.pending = nil
}

func (h *history) reopen() {
	h.close()
	hook := h.f.Hook
	h.f = h.f.Reopen()
	h.f.Hook = hook
	h.open()
}

// run performs arbitrary steps, calling check after each of them.
func (h *history) run(steps int, check func()) {
	check()
	for i := 0; i < steps; i++ {
		switch v.Choose("step", 4) {
		case 0:
			h.add(sym())
		case 1:
			h.flush()
		case 2:
			h.reopen()
		case 3:
			return
		}
		check()
	}
}

func C01_Ops() {
	h := open(start(v.Bound("initial records", 1, 2)))
	h.run(v.Bound("steps", 4, 5), func() {})
	same(h.st, h.all, "at the end")
	v.Reach("done")
}

// Many records: everything the storage buffers is exceeded.
func C01_Many() {
	n := v.Bound("records", 240, 480)
	h := open(nil, nil)
	odd := sym()
	at := []int{0, 1, 113, 226, 227, 228, n - 1}[v.Choose("at", 7)]
	for i := 0; i < n; i++ {
		o := op{'+', uint64(i / 2), uint64(i)}
		if i == at {
			v.Assume(v.And(odd.user >= 1000, odd.item >= 1000))
			o = odd
		}
		h.st.Add(domain.DeltaOp(o.op), o.user, o.item)
		h.all = append(h.all, o)
	}
	v.Assert(h.st.GetTotalItemCount() == n, "count")
	h.pending = nil
	h.close()
	v.Assert(len(h.f.Data) == head+rec*n, "file size")
	h.f = h.f.Reopen()
	h.open()
	v.Assert(h.st.GetTotalItemCount() == n, "count after reopening")
	for _, i := range []int{0, 1, 2, 112, 113, 114, 225, 226, 227, 228, 229, n - 2, n - 1} {
		o := h.all[i]
		got, ok := h.st.Get(o.user, o.item)
		v.Assert(v.And(ok, byte(got) == o.op), "record read back")
	}
	v.Reach("done")
}

// huge makes a history of more records than 16 bits count.
func huge(check func(st domain.DeltaStorage, n int, odd op)) {
	n := v.Bound("records", 65538, 131074)
	v.MaxSteps(400_000_000)
	f := world.NewFile(nil)
	fac := delta.NewStorageFactory()
	st, err := fac.Open(f)
	v.Assert(err == nil, "opens")
	odd := op{'-', 7, v.U64("item")}
	v.Assume(odd.item >= 1<<20)
	at := v.Choose("at", 2) * 65536
	for i := 0; i < n; i++ {
		o := op{'+', uint64(7 + i%16384), uint64(i)}
		if i == at {
			o = odd
		}
		st.Add(domain.DeltaOp(o.op), o.user, o.item)
	}
	check(st, n, odd)
	v.Assert(st.Close() == nil, "closes")
	v.Assert(len(f.Data) == head+rec*n, "file size")
	v.Assert(world.GetU32(f.Data[10:]) == uint32(n), "count in the header")
	f = f.Reopen()
	if at == 0 {
		st, err = fac.Open(f)
	} else {
		st, err = fac.OpenMaybeRecover(f)
	}
	v.Assert(err == nil, "reopens")
	check(st, n, odd)
	v.Reach("done")
}

func C01_Huge() {
	huge(func(st domain.DeltaStorage, n int, odd op) {
		got, ok := st.Get(odd.user, odd.item)
		v.Assert(v.And(ok, byte(got) == odd.op), "arbitrary record")
		for _, k := range []int{1, 2, 255, 256, 16384, 65535, n - 1} {
			got, ok := st.Get(uint64(7+k%16384), uint64(k))
			v.Assert(ok && got == '+', "record")
		}
	})
}

func C02_Huge() {
	huge(func(st domain.DeltaStorage, n int, odd op) {
		v.Assert(st.GetTotalItemCount() == n, "number of records")
		v.Assert(st.GetUserCount() == 16384, "number of users")
		v.Assert(st.GetFileSize() == uint64(head+rec*n), "predicted size")
	})
}

// C01_OneUser: many records of a single user, and of a single item.
func C01_OneUser() {
	n := v.Bound("records", 300, 700)
	every := []int{50, 7, n / 3, n - 20, 50} // records per flush
	shape := v.Choose("shape", len(every))
	v.MaxSteps(30000000)
	h := open(nil, nil)
	byItem := shape == 4
	if byItem {
		n = v.Bound("users", 140, 180)
	}
	odd := sym()
	v.Assume(v.And(odd.user >= 1000, odd.item >= 1000))
	at := v.Choose("at", 3) * (n - 1) / 2
	for i := 0; i < n; i++ {
		o := op{'+' + byte(i%2)*('-'-'+'), 5, uint64(n - i)}
		if byItem {
			o.user, o.item = o.item, o.user
		}
		if i == at {
			o = odd
		}
		h.st.Add(domain.DeltaOp(o.op), o.user, o.item)
		h.all = append(h.all, o)
		if i%every[shape] == every[shape]-1 {
			v.Assert(h.st.Flush() == nil, "flush")
		}
	}
	for i := 0; i < 3; i++ {
		for _, o := range h.all {
			got, ok := h.st.Get(o.user, o.item)
			v.Assert(v.And(ok, byte(got) == o.op), "record read back")
		}
		_, ok := h.st.Get(5, 1000)
		v.Assert(!ok, "never added")
		if i == 0 {
			v.Assert(h.st.Flush() == nil, "flush again")
			v.Assert(h.st.GetTotalItemCount() == n, "number of records")
		}
		if i == 1 {
			h.pending = nil
			h.close()
			h.f = h.f.Reopen()
			h.open()
		}
	}
	v.Reach("done")
}

// C02_OneUser: pairs added again among many pending ones of one user.
func C02_OneUser() {
	n := v.Bound("records", 70, 200)
	h := open(nil, nil)
	odd := op{'-', 5, v.U64("item")} // perhaps one of the others
	v.Assume(odd.item < uint64(2*n))
	add := func(o op) { h.st.Add(domain.DeltaOp(o.op), o.user, o.item) }
	early := v.Choose("flush in between", 2) == 1
	half := n
	if early {
		half = n / 2
	}
	for i := 0; i < half; i++ {
		add(op{'+', 5, uint64(i)})
	}
	if early {
		v.Assert(h.st.Flush() == nil, "flush")
	}
	for i := half; i < n; i++ {
		add(op{'+', 5, uint64(i)})
	}
	add(op{'+', 6, 0})
	add(odd)
	replaced := odd.item < uint64(n)
	if early {
		replaced = v.And(replaced, odd.item >= uint64(half))
	}
	want := v.IteInt(replaced, n+1, n+2)
	v.Assert(h.st.GetTotalItemCount() == want, "number of records")
	v.Assert(h.st.GetUserCount() == 2, "number of users")
	got, ok := h.st.Get(5, odd.item)
	v.Assert(v.And(ok, byte(got) == '-'), "operation")
	v.Assert(h.st.Close() == nil, "closes")
	v.Assert(len(h.f.Data) == head+rec*want, "file size")
	v.Assert(h.st.GetFileSize() == uint64(len(h.f.Data)), "predicted size")
	v.Assert(world.GetU32(h.f.Data[10:]) == uint32(want), "count in the header")
	v.Reach("done")
}

func users(ops []op) int {
	n := 0
	for i, o := range ops {
		seen := false
		for _, p := range ops[:i] {
			seen = v.Or(seen, p.user == o.user)
		}
		n = v.IteInt(seen, n, n+1)
	}
	return n
}

func C02_Counts() {
	h := open(start(v.Bound("initial records", 1, 1)))
	h.run(v.Bound("steps", 4, 5), func() {
		n := len(h.flushed) + len(h.pending)
		v.Assert(h.st.GetTotalItemCount() == n, "number of records")
		v.Assert(h.st.GetUserCount() == users(h.all), "number of users")
		v.Assert(h.st.GetFileSize() == uint64(head+rec*n), "predicted size")
		if len(h.pending) == 0 {
			v.Assert(len(h.f.Data) == head+rec*n, "real size")
			v.Assert(v.EqBytes(h.f.Data[10:14], world.U32(uint32(n))), "count in the header")
			v.Reach("settled")
		}
	})
	h.close()
	n := len(h.flushed)
	v.Assert(h.st.GetFileSize() == uint64(head+rec*n), "predicted size after close")
	v.Assert(len(h.f.Data) == head+rec*n, "real size after close")
	v.Assert(v.EqBytes(h.f.Data[:head], header(0, uint32(n))), "header after close")
	v.Reach("done")
}

func C06_Locked() {
	data, ops := start(v.Bound("initial records", 1, 2))
	h := &history{f: world.NewFile(data), flushed: ops, all: ops}
	hook := func() {
		if h.locked {
			v.Assert(len(h.f.Data) > 9 && h.f.Data[9] != 0, "in use while open")
		}
	}
	h.f.Hook = hook
	h.open()
	h.run(v.Bound("steps", 4, 5), hook)
	h.close()
	v.Assert(h.f.Data[9] == 0, "not in use after close")
	v.Assert(h.f.Data[8] == 1, "version")
	v.Reach("done")
}

// A file marked in use is refused and left alone.
func C06_Refused() {
	n := head + v.Choose("more bytes", v.Bound("more bytes", 20, 60))
	f := world.NewFile(v.Bytes("file", n))
	copy(f.Data, magic)
	before := append([]byte{}, f.Data...)
	v.Assume(f.Data[9] != 0)
	st, err := delta.NewStorageFactory().Open(f)
	v.Assert(err != nil, "refused")
	v.Assert(st == nil, "no storage")
	v.Assert(v.EqBytes(f.Data, before), "left as it was")
	v.Reach("done")
}

// Every successful open marks the file.
func C06_Marks() {
	n := head + rec*v.Choose("records", v.Bound("records", 2, 4))
	f := world.NewFile(v.Bytes("file", n))
	fac := delta.NewStorageFactory()
	var err error
	if v.Choose("recovering open", 2) == 1 {
		_, err = fac.OpenMaybeRecover(f)
	} else {
		_, err = fac.Open(f)
	}
	if err == nil {
		v.Assert(f.Data[9] != 0, "in use")
		v.Reach("opened")
	}
}

// ---- C03: crashes ----

// within asserts that what a storage answers is no older than the last flushed operation.
func within(st domain.DeltaStorage, all []op, nFlushed int) {
	user, item := v.U64("query user"), v.U64("query item")
	got, ok := st.Get(user, item)
	durable := false // an operation of the pair was flushed
	match := false   // the answer is a recent enough operation
	for i, o := range all {
		hit := v.And(o.user == user, o.item == item)
		if i < nFlushed {
			// a flushed operation makes the older ones stale
			match = v.Or(v.And(hit, byte(got) == o.op), v.And(match, !hit))
			durable = v.Or(durable, hit)
		} else {
			match = v.Or(match, v.And(hit, byte(got) == o.op))
		}
	}
	v.Assert(v.Implies(durable, ok), "no flushed operation is lost")
	v.Assert(v.Implies(ok, match), "no operation is stale or invented")
}

func C03_Crash() {
	data, ops := start(v.Bound("initial records", 1, 2))
	f := world.NewFile(data)
	fac := delta.NewStorageFactory()
	all := ops
	nFlushed := len(ops)
	steps := v.Bound("steps", 3, 4)
	f.CrashArmed = true
	crashed := world.Crashing(func() {
		st, err := fac.OpenMaybeRecover(f)
		v.Assert(err == nil, "opens")
		for i := 0; i < steps; i++ {
			switch v.Choose("step", 3) {
			case 0:
				o := sym()
				all = append(all, o)
				st.Add(domain.DeltaOp(o.op), o.user, o.item)
			case 1:
				v.Assert(st.Flush() == nil, "flush")
				nFlushed = len(all)
			case 2:
				v.Assert(st.Close() == nil, "close")
				nFlushed = len(all)
				f = f.Reopen()
				f.CrashArmed = true
				st, err = fac.OpenMaybeRecover(f)
				v.Assert(err == nil, "reopens")
			}
		}
	})
	if crashed {
		v.Reach("crashed")
	}
	f = f.Reopen()
	st, err := fac.OpenMaybeRecover(f)
	v.Assert(err == nil, "recovers after a crash")
	within(st, all, nFlushed)
	v.Assert(f.Data[9] != 0, "in use")
	// and the recovered storage works
	o := sym()
	st.Add(domain.DeltaOp(o.op), o.user, o.item)
	v.Assert(st.Close() == nil, "closes")
	st, err = fac.Open(f.Reopen())
	v.Assert(err == nil, "opens cleanly afterwards")
	got, ok := st.Get(o.user, o.item)
	v.Assert(v.And(ok, byte(got) == o.op), "goes on working")
}

// C03_Faults: an operation on the file fails, and the process dies some time later.
func C03_Faults() {
	data, ops := start(v.Bound("initial records", 1, 2))
	f := world.NewFile(data)
	fac := delta.NewStorageFactory()
	all := ops
	nFlushed := len(ops)
	st, err := fac.OpenMaybeRecover(f)
	v.Assert(err == nil, "opens")
	f.FaultArmed, f.Sticky = true, v.Choose("sticky", 2) == 1
	f.CrashArmed = !f.Sticky
	add := func() {
		o := sym()
		all = append(all, o)
		st.Add(domain.DeltaOp(o.op), o.user, o.item)
	}
	add()
	crashed := world.Crashing(func() {
		steps := v.Bound("steps after the first", 2, 3)
		for i := 0; i < steps; i++ {
			switch v.Choose("step", 3) {
			case 0:
				add()
			case 1:
				if st.Flush() == nil {
					nFlushed = len(all)
				}
			case 2:
				if st.Close() == nil {
					nFlushed = len(all)
				}
				i = steps
			}
		}
	})
	v.Assume(f.Faulted)
	if crashed {
		v.Reach("crashed")
	}
	f = f.Reopen()
	st, err = fac.OpenMaybeRecover(f)
	v.Assert(err == nil, "recovers")
	within(st, all, nFlushed)
	v.Assert(f.Data[9] != 0, "in use")
	v.Reach("done")
}

// A flush that spans several writes.
func C03_BigFlush() {
	n := v.Bound("records", 236, 470)
	f := world.NewFile(nil)
	fac := delta.NewStorageFactory()
	odd := sym()
	v.Assume(v.And(odd.user >= 1000, odd.item >= 1000))
	var all []op
	nFlushed := 0
	crashed := world.Crashing(func() {
		st, err := fac.OpenMaybeRecover(f)
		v.Assert(err == nil, "opens")
		st.Add(domain.DeltaOp(odd.op), odd.user, odd.item)
		all = append(all, odd)
		v.Assert(st.Flush() == nil, "flush")
		nFlushed = 1
		f.CrashArmed = true
		for i := 0; i < n; i++ {
			o := op{'-', 7, uint64(i)}
			st.Add(domain.DeltaOp(o.op), o.user, o.item)
			all = append(all, o)
		}
		v.Assert(st.Flush() == nil, "flush")
		nFlushed = len(all)
	})
	if crashed {
		v.Reach("crashed")
	}
	st, err := fac.OpenMaybeRecover(f.Reopen())
	v.Assert(err == nil, "recovers after a crash")
	got, ok := st.Get(odd.user, odd.item)
	v.Assert(v.And(ok, byte(got) == odd.op), "no flushed operation is lost")
	for i := 0; i < n; i++ {
		got, ok := st.Get(7, uint64(i))
		v.Assert(!ok || got == '-', "no operation is invented")
		v.Assert(ok || nFlushed == 1, "no flushed operation is lost")
	}
	_, ok = st.Get(7, uint64(n))
	v.Assert(!ok, "no operation is invented")
}

// ---- C04, C05: recovery ----

func C04_Recover() {
	n := v.Choose("size", v.Bound("file size", head+3*rec, head+4*rec)+1)
	in := v.Bytes("file", n)
	f := world.NewFile(in)
	f.Pos = v.Choose("position", 2) * (n / 2)
	if v.Choose("slow", 2) == 1 {
		f.Chunk = 1
	}
	fac := delta.NewStorageFactory()
	v.Assert(fac.Recover(f) == nil, "recovery succeeds")
	var ops []op
	if n >= head && v.EqBytes(in[:8], magic) {
		ops = records(in[head:])
		v.Reach("intact header")
	}
	v.Assert(v.EqBytes(f.Data, image(ops)), "exactly the intact records")
	once := append([]byte{}, f.Data...)
	v.Assert(fac.Recover(f) == nil, "recovery succeeds again")
	v.Assert(v.EqBytes(f.Data, once), "recovering again changes nothing")
	st, err := fac.Open(world.NewFile(once))
	v.Assert(err == nil, "the result opens")
	v.Assert(st.GetTotalItemCount() == len(ops), "the result holds its records")
	v.Obs("size", len(once))
	v.Obs("bytes", once)
	v.Reach("done")
}

// The recovery function itself, between streams.
func C04_RecoverTo() {
	n := v.Choose("size", v.Bound("file size", head+3*rec, head+4*rec)+1)
	in := v.Bytes("file", n)
	f, out := world.NewFile(in), world.NewFile(nil)
	v.Assert(delta.NewProtocol().RecoverTo(f, out) == nil, "recovery succeeds")
	var ops []op
	if n >= head && v.EqBytes(in[:8], magic) {
		ops = records(in[head:])
	}
	v.Assert(v.EqBytes(out.Data, image(ops)), "exactly the intact records")
	v.Assert(v.EqBytes(f.Data, in), "the input is only read")
	v.Reach("done")
}

func agree(f *world.File, ops []op, what string) {
	got := records(f.Data[head:])
	user, item := v.U64("query user"), v.U64("query item")
	p1, o1 := last(ops, user, item)
	p2, o2 := last(got, user, item)
	v.Assert(p1 == p2, what+": presence")
	v.Assert(v.Implies(p1, o1 == o2), what+": last operation")
}

func recoverTwice(in []byte, ops []op) {
	f := world.NewFile(in)
	f.CrashArmed = true
	fac := delta.NewStorageFactory()
	// a file that isn't marked in use is only recovered on demand
	marked := in[9] != 0
	rec1 := !marked || v.Choose("opening", 2) == 0
	crashed := world.Crashing(func() {
		if rec1 {
			v.Assert(fac.Recover(f) == nil, "recovers")
		} else {
			_, err := fac.OpenMaybeRecover(f)
			v.Assert(err == nil, "opens")
		}
	})
	if crashed {
		v.Reach("crashed")
	}
	// opening it as it is: refused, or the same contents (those of a file that was not
	// marked in use are what they were before)
	clean := f.Reopen()
	unchanged := !marked && v.EqBytes(clean.Data, in)
	if st, err := fac.Open(clean); err == nil && !unchanged {
		same(st, ops, "opened without recovery")
		v.Reach("clean")
	}
	again := f.Reopen()
	if !marked || v.Choose("recover again", 2) == 0 {
		v.Assert(fac.Recover(again) == nil, "recovers again")
	} else {
		_, err := fac.OpenMaybeRecover(again)
		v.Assert(err == nil, "opens again")
	}
	agree(again, ops, "recovered again")
}

func C05_Interrupted() {
	n := v.Bound("records", 2, 3)
	in := world.Cat(magic, []byte{1, 1}, v.Bytes("count", 4), v.Bytes("file", n*rec+v.Choose("rest", 2)*5))
	recoverTwice(in, records(in[head:]))
}

// Records that must be moved over others.
func C05_Shift() {
	n := v.Bound("records", 3, 4)
	in := world.Cat(magic, []byte{1, byte(v.Choose("marked", 2))}, v.Bytes("count", 4))
	for i := 0; i < n; i++ {
		o := sym()
		b := o.bytes()
		if v.Choose("damaged", 2) == 1 {
			b[rec-1]++
		}
		in = append(in, b...)
	}
	recoverTwice(in, records(in[head:]))
}

// Damaged or short headers.
func C05_Head() {
	n := v.Choose("size", head+rec+1)
	in := v.Bytes("file", n)
	if n >= 10 {
		v.Assume(in[9] != 0) // marked in use
	}
	var ops []op
	if n >= head && v.EqBytes(in[:8], magic) {
		ops = records(in[head:])
	}
	f := world.NewFile(in)
	f.CrashArmed = true
	fac := delta.NewStorageFactory()
	crashed := world.Crashing(func() {
		v.Assert(fac.Recover(f) == nil, "recovers")
	})
	if crashed {
		v.Reach("crashed")
	}
	clean := f.Reopen()
	if st, err := fac.Open(clean); err == nil {
		same(st, ops, "opened without recovery")
	}
	again := f.Reopen()
	v.Assert(fac.Recover(again) == nil, "recovers again")
	agree(again, ops, "recovered again")
}

// ---- C07: records and headers ----

func C07_Entry() {
	p := delta.NewProtocol()
	e := delta.Entry{Op: domain.DeltaOp(v.U8("op")), UserID: v.U64("user"), ItemID: v.U64("item"), Checksum: v.U8("sum")}
	f := world.NewFile(v.Bytes("before", 3))
	f.Pos = 3
	v.Assert(p.WriteEntry(&e, f) == nil, "writes")
	want := op{byte(e.Op), e.UserID, e.ItemID}.bytes()
	v.Assert(v.EqBytes(f.Data[3:], want), "layout")
	f.Data = append(f.Data, v.Bytes("after", 2)...)
	f.Pos = 3
	f.Chunk = v.Choose("chunk", 2)
	var r delta.Entry
	v.Assert(p.ReadEntry(&r, f) == nil, "reads")
	v.Assert(f.Pos == 3+rec, "consumes what was written")
	v.Assert(v.And(r.Op == e.Op, r.UserID == e.UserID, r.ItemID == e.ItemID), "round trip")
	v.Assert(r.Checksum == want[rec-1], "checksum stored")
	v.Assert(p.ValidateEntryChecksum(&r), "an unaltered record validates")
	v.Assert(p.CalcEntryChecksum(&r) == r.Checksum, "checksum")
	v.Obs("bytes", f.Data)
	// alter one byte
	j := v.Choose("altered", rec)
	x := v.U8("value")
	v.Assume(x != want[j])
	g := world.NewFile(want)
	g.Data[j] = x
	v.Assert(p.ReadEntry(&r, g) == nil, "reads the altered record")
	v.Assert(!p.ValidateEntryChecksum(&r), "an altered byte is detected")
	v.Reach("done")
}

// A record cut short is an error.
func C07_Short() {
	p := delta.NewProtocol()
	n := v.Choose("size", rec)
	var r delta.Entry
	v.Assert(p.ReadEntry(&r, world.NewFile(v.Bytes("file", n))) != nil, "a record cut short is an error")
	if n < 6 {
		var h delta.Header
		v.Assert(p.ReadHeader(&h, world.NewFile(v.Bytes("file", n))) != nil, "a header cut short is an error")
	}
	v.Reach("done")
}

func C07_Header() { headers() }

func headers() {
	p := delta.NewProtocol()
	h := delta.Header{Version: v.U8("version"), Locked: v.U8("locked"), NumEntries: v.U32("count")}
	f := world.NewFile(v.Bytes("before", 2))
	f.Pos = 2
	v.Assert(p.WritePrefix(f) == nil, "writes the magic number")
	v.Assert(p.WriteHeader(&h, f) == nil, "writes the header")
	v.Assert(v.EqBytes(f.Data[2:], world.Cat(magic, []byte{h.Version, h.Locked}, world.U32(h.NumEntries))), "layout")
	f.Data = append(f.Data, v.Bytes("after", 2)...)
	f.Pos = 2
	f.Chunk = v.Choose("chunk", 2)
	var r delta.Header
	v.Assert(p.ReadPrefix(f) == nil, "reads the magic number")
	v.Assert(f.Pos == 10, "consumes the magic number")
	v.Assert(p.ReadHeader(&r, f) == nil, "reads the header")
	v.Assert(f.Pos == 16, "consumes the header")
	v.Assert(v.And(r.Version == h.Version, r.Locked == h.Locked, r.NumEntries == h.NumEntries), "round trip")
	v.Obs("bytes", f.Data)
	v.Reach("done")
}

func C20_Delta() { headers() }

func C20_DeltaMagic() {
	p := delta.NewProtocol()
	n := v.Choose("size", 11)
	f := world.NewFile(v.Bytes("file", n))
	f.Chunk = v.Choose("chunk", 2)
	err := p.ReadPrefix(f)
	good := n >= 8 && v.EqBytes(f.Data[:8], magic)
	v.Assert((err == nil) == good, "exactly the magic number is accepted")
	if good {
		v.Assert(f.Pos == 8, "consumed")
		v.Reach("good")
	} else {
		v.Reach("bad")
	}
	v.Obs("err", err)
}

func C21_Delta() {
	p := delta.NewProtocol()
	n := head + v.Choose("more", v.Bound("more bytes", 3, 20))
	f := world.NewFile(v.Bytes("file", n))
	in := append([]byte{}, f.Data...)
	pos := v.Choose("position", n+1)
	f.Pos = pos
	locked, err := p.IsLocked(f)
	v.Assert(err == nil, "reads the mark")
	v.Assert(locked == (in[9] != 0), "the mark as it is")
	v.Assert(f.Pos == pos, "position kept")
	v.Assert(v.EqBytes(f.Data, in), "nothing changed")
	set := v.Bool("set")
	v.Assert(p.WriteLocked(set, f) == nil, "writes the mark")
	v.Assert(f.Pos == pos, "position kept")
	locked, err = p.IsLocked(f)
	v.Assert(err == nil && locked == set, "what was set is read")
	v.Assert((f.Data[9] != 0) == set, "the mark in the file")
	v.Assert(len(f.Data) == n, "size kept")
	v.Assert(v.And(v.EqBytes(f.Data[:9], in[:9]), v.EqBytes(f.Data[10:], in[10:])), "other bytes kept")
	v.Assert(f.Pos == pos, "position kept")
	v.Obs("bytes", f.Data)
	v.Reach("done")
}

// ---- C08: arbitrary bytes ----

func C08_Open() {
	n := v.Choose("size", v.Bound("file size", head+3*rec, head+5*rec)+1)
	in := v.Bytes("file", n)
	f := world.NewFile(in)
	f.Pos = v.Choose("position", 2) * (n / 2)
	if v.Choose("slow", 2) == 1 {
		f.Chunk = 1
	}
	v.MaxAlloc(1 << 20)
	st, err := delta.NewStorageFactory().Open(f)
	v.MaxAlloc(0)
	if n == 0 {
		v.Assert(err == nil, "an empty file opens")
		v.Assert(v.EqBytes(f.Data, header(1, 0)), "an empty file becomes an empty storage")
		v.Assert(st.GetTotalItemCount() == 0 && st.GetUserCount() == 0, "empty")
		same(st, nil, "empty")
		return
	}
	good := n >= head
	if good {
		good = v.And(v.EqBytes(in[:8], magic), in[9] == 0, world.GetU32(in[10:]) <= uint32((n-head)/rec))
	}
	v.Assert((err == nil) == good, "opens exactly the well-formed files")
	if err != nil {
		v.Assert(st == nil, "no storage with an error")
		v.Reach("refused")
		return
	}
	k := v.Concrete(int(world.GetU32(in[10:])))
	ops := decode(in[head:], k)
	v.Assert(st.GetTotalItemCount() == k, "number of records")
	v.Assert(st.GetUserCount() == users(ops), "number of users")
	same(st, ops, "as encoded")
	v.Reach("opened")
}

// ---- C09: faults ----

func faulty(data []byte) *world.File {
	f := world.NewFile(data)
	f.FaultArmed = true
	f.Sticky = v.Choose("sticky", 2) == 1
	return f
}

func anyFile() []byte {
	switch v.Choose("kind", 4) {
	case 0:
		return nil
	case 1:
		return image([]op{sym()})
	case 2:
		b := image([]op{sym(), sym()})
		b[9] = 1
		if v.Choose("damaged", 2) == 1 {
			b[head+rec-1]++
		}
		return b
	}
	return header(0, 0)[:v.Choose("short", head)]
}

func C09_Open() {
	f := faulty(anyFile())
	fac := delta.NewStorageFactory()
	var err error
	switch v.Choose("call", 3) {
	case 0:
		_, err = fac.Open(f)
	case 1:
		_, err = fac.OpenMaybeRecover(f)
	case 2:
		err = fac.Recover(f)
	}
	v.Assert(v.Implies(f.Faulted, err != nil), "a failed operation is reported")
	if f.Faulted {
		v.Reach("faulted")
	}
}

func C09_RecoverTo() {
	f, out := world.NewFile(anyFile()), world.NewFile(nil)
	if v.Choose("which", 2) == 0 {
		f.FaultArmed = true
	} else {
		out.FaultArmed = true
	}
	err := delta.NewProtocol().RecoverTo(f, out)
	v.Assert(v.Implies(v.Or(f.Faulted, out.Faulted), err != nil), "a failed operation is reported")
	v.Reach("done")
}

// Flushes that fail and are retried, then close.
func C09_Flush() {
	var all []op
	f := world.NewFile(nil)
	fac := delta.NewStorageFactory()
	if v.Choose("earlier", 2) == 1 {
		all = append(all, sym())
		f = world.NewFile(image(all))
	}
	st, err := fac.Open(f)
	v.Assert(err == nil, "opens")
	f.FaultArmed = true
	f.Sticky = v.Choose("sticky", 2) == 1
	add := func(n int) {
		for i := 0; i < n; i++ {
			o := sym()
			all = append(all, o)
			st.Add(domain.DeltaOp(o.op), o.user, o.item)
		}
	}
	add(1 + v.Choose("first", v.Bound("operations before a flush", 2, 3)))
	rounds := 1 + v.Choose("rounds", v.Bound("flushes", 2, 3))
	for i := 0; i < rounds; i++ {
		before := f.Faulted
		closing := i == rounds-1 && v.Choose("close", 2) == 1
		if closing {
			err = st.Close()
		} else {
			err = st.Flush()
		}
		v.Assert(v.Implies(v.And(f.Faulted, !before), err != nil), "a failed operation is reported")
		v.Assert(v.Implies(v.And(f.Faulted, f.Sticky), err != nil), "a broken file is reported")
		if err == nil {
			// everything added so far is in the file
			g := f.Reopen()
			st2, err := fac.OpenMaybeRecover(g)
			v.Assert(err == nil, "opens again")
			same(st2, all, "flushed")
			if closing {
				g = f.Reopen()
				_, err = fac.Open(g)
				v.Assert(err == nil, "closed properly")
				v.Assert(len(f.Data) == int(st.GetFileSize()), "file size")
			}
			if before {
				v.Reach("retried")
			}
		}
		if closing {
			return
		}
		f.Sticky = false
		if v.Choose("more", 2) == 1 {
			add(1)
		}
	}
}

// More records than the buffers hold.
func C09_Big() {
	n := v.Bound("records", 250, 500)
	v.MaxSteps(100_000_000)
	fac := delta.NewStorageFactory()
	odd := op{'-', 1 << 40, v.U64("item")}
	f := world.NewFile(nil)
	st, err := fac.Open(f)
	v.Assert(err == nil, "opens")
	fill := func() {
		for i := 0; i < n-1; i++ {
			st.Add('+', uint64(i/3), uint64(i))
		}
		st.Add(domain.DeltaOp(odd.op), odd.user, odd.item)
	}
	fill()
	check := func(f *world.File, exact bool) {
		st, err := fac.OpenMaybeRecover(f)
		v.Assert(err == nil, "opens again")
		v.Assert(v.Implies(exact, st.GetTotalItemCount() == n), "count")
		for i := 0; i < n-1; i += 1 + i%13 {
			x, ok := st.Get(uint64(i/3), uint64(i))
			v.Assert(ok && x == '+', "record")
		}
		x, ok := st.Get(odd.user, odd.item)
		v.Assert(v.And(ok, x == '-'), "arbitrary record")
	}
	call := v.Choose("call", 3)
	if call == 2 { // recovery
		v.Assert(st.Flush() == nil, "flush")
		f = f.Reopen()
		k := v.Choose("damaged", 2) * (n - 2) // needs every later record moved
		f.Data = world.Cat(f.Data[:head+k*rec], make([]byte, rec), f.Data[head+k*rec:])
	}
	f.FaultArmed = true
	f.Sticky = v.Choose("sticky", 2) == 1
	switch call {
	case 0:
		err = st.Flush()
	case 1:
		err = st.Close()
	case 2:
		f.Skip = []int{0, 5, 1000, 4*n - 10, 4 * n, 6 * n, 8*n - 9}[v.Choose("skip", 7)]
		f.Window = v.Bound("operations that may fail", 6, 12)
		err = fac.Recover(f)
	}
	v.Assert(v.Implies(f.Faulted, err != nil), "a failed operation is reported")
	if err == nil {
		check(f.Reopen(), true)
		v.Reach("written")
		return
	}
	v.Reach("failed")
	f.FaultArmed, f.Sticky = false, false
	switch call {
	case 0, 1:
		if f.Closed {
			return
		}
		v.Assert(st.Flush() == nil, "flush again")
		check(f.Reopen(), true)
		v.Reach("retried")
	case 2:
		check(f.Reopen(), false) // moved records may be there twice
	}
}

// Writers and readers that fail under the format functions.
func C09_Protocol() {
	f := faulty(v.Bytes("file", 40))
	p := delta.NewProtocol()
	var err error
	switch v.Choose("call", 8) {
	case 0:
		err = p.WritePrefix(f)
	case 1:
		err = p.ReadPrefix(f)
		if !f.Faulted {
			return
		}
	case 2:
		err = p.WriteHeader(&delta.Header{}, f)
	case 3:
		err = p.ReadHeader(&delta.Header{}, f)
	case 4:
		err = p.WriteEntry(&delta.Entry{}, f)
	case 5:
		err = p.ReadEntry(&delta.Entry{}, f)
	case 6:
		err = p.WriteLocked(v.Bool("set"), f)
	case 7:
		_, err = p.IsLocked(f)
	}
	v.Assert((err != nil) == f.Faulted, "a failed operation is reported, and only that")
	v.Reach("done")
}

var _ io.ReadWriteSeeker = (*world.File)(nil)

// C01_Two: storages of one factory that are open at the same time stay apart.
func C01_Two() {
	fac := delta.NewStorageFactory()
	var fs [2]*world.File
	var sts [2]domain.DeltaStorage
	var all [2][]op
	open := func(i int) {
		var err error
		sts[i], err = fac.OpenMaybeRecover(fs[i])
		v.Assert(err == nil, "opens")
	}
	for i := range fs {
		fs[i] = world.NewFile(nil)
		open(i)
	}
	steps := v.Bound("steps", 3, 4)
	for s := 0; s < steps; s++ {
		i := v.Choose("storage", 2)
		switch v.Choose("step", 3) {
		case 0:
			o := sym()
			sts[i].Add(domain.DeltaOp(o.op), o.user, o.item)
			all[i] = append(all[i], o)
		case 1:
			v.Assert(sts[i].Flush() == nil, "flushes")
		case 2:
			v.Assert(sts[i].Close() == nil, "closes")
			fs[i] = fs[i].Reopen()
			open(i)
		}
	}
	for i := range sts {
		same(sts[i], all[i], "each of two storages")
	}
	for i := range sts {
		v.Assert(sts[i].Close() == nil, "closes")
		fs[i] = fs[i].Reopen()
	}
	for i := range sts {
		open(i)
		same(sts[i], all[i], "each of two storages opened again")
	}
	v.Reach("done")
}
