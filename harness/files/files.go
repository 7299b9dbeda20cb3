// Package files: index files and profile databases opened by their path (C40).
package files

import (
	"io"
	"os"

	"recengine/internal/domain"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

func indexHeader(locked byte, n uint32) []byte {
	return world.Cat([]byte("RECIDX"), []byte{1, locked}, world.U32(n))
}

func entry(id, idx uint64) []byte { return world.Cat(world.U64(id), world.U64(idx)) }

// read is what the file holds.
func read(path string) []byte {
	b, err := os.ReadFile(path)
	v.Assert(err == nil, "the file is there")
	return b
}

// others: no file is made but this one.
func others(path string) {
	for _, p := range world.Files() {
		v.Assert(p == path, "no other file is made")
	}
}

// get checks an answer of the index.
func get(st domain.IndexStorage, id uint64, there bool, want uint64) {
	idx, ok := st.Get(id)
	v.Assert(ok == there, "presence of an id")
	v.Assert(v.Implies(there, idx == want), "index of an id")
}

// C40_Index: a session on an index file opened by path, whatever is there.
func C40_Index() {
	dir := v.TempDir()
	path := dir + "/x.idx"
	id, idx := v.U64("id"), v.U64("index")
	good, stored := true, false
	switch v.Choose("there", 8) {
	case 0: // nothing
	case 1:
		v.Assert(os.WriteFile(path, nil, 0644) == nil, "prepared")
	case 2:
		v.Assert(os.WriteFile(path, world.Cat(indexHeader(0, 1), entry(id, idx)), 0644) == nil, "prepared")
		stored = true
	case 3:
		v.Assert(os.WriteFile(path, world.Cat(indexHeader(1, 1), entry(id, idx)), 0644) == nil, "prepared")
		good = false
	case 4:
		n := 1 + v.Choose("length", v.Bound("bytes of a broken file", 11, 11))
		v.Assert(os.WriteFile(path, v.Bytes("broken", n), 0644) == nil, "prepared")
		good = false
	case 5:
		b := world.Cat(indexHeader(0, 2), entry(id, idx), v.Bytes("part", v.Choose("length", 16)))
		v.Assert(os.WriteFile(path, b, 0644) == nil, "prepared")
		good = false
	case 6:
		v.Assert(os.Mkdir(path, 0755) == nil, "prepared")
		good = false
	default:
		path = dir + "/none/x.idx"
		good = false
	}
	st, err := index.NewStorageFactory().OpenFile(path)
	v.Obs("opened", err == nil)
	v.Assert((err == nil) == good, "opens exactly a good file or none")
	if err != nil {
		v.Assert(world.OpenFiles() == 0, "no file stays open after a failure")
		v.Reach("refused")
		return
	}
	others(path)
	v.Assert(read(path)[7] != 0, "marked as in use")
	get(st, id, stored, idx)
	more, at := v.U64("id"), v.U64("index")
	v.Assert(st.Put(more, at) == nil, "stored")
	v.Assert(st.Close() == nil, "closed")
	v.Assert(world.OpenFiles() == 0, "no file stays open after closing")
	v.Assert(read(path)[7] == 0, "marked as not in use")
	st, err = index.NewStorageFactory().OpenFile(path)
	v.Assert(err == nil, "opens again")
	get(st, more, true, at)
	get(st, id, v.Or(stored, more == id), v.IteU64(more == id, at, idx))
	v.Assert(st.Close() == nil, "closed")
	v.Assert(world.OpenFiles() == 0, "no file stays open after closing")
	others(path)
	v.Reach("done")
}

// C40_IndexFull: the disk is full at any point.
func C40_IndexFull() {
	path := v.TempDir() + "/x.idx"
	id, idx := v.U64("id"), v.U64("index")
	stored := v.Choose("there", 2) == 1
	if stored {
		v.Assert(os.WriteFile(path, world.Cat(indexHeader(0, 1), entry(id, idx)), 0644) == nil, "prepared")
	}
	world.LimitFiles(v.Choose("room", 45))
	st, err := index.NewStorageFactory().OpenFile(path)
	v.Obs("opened", err == nil)
	if err == nil {
		v.Assert(st.Put(id+1, idx) == nil, "stored")
		err = st.Close()
	}
	v.Assert(world.OpenFiles() == 0, "no file stays open")
	world.LimitFiles(-1)
	closed := err == nil
	v.Obs("closed", closed)
	st, err = index.NewStorageFactory().OpenFile(path)
	if closed {
		v.Reach("closed")
		v.Assert(err == nil, "opens again")
		get(st, id+1, true, idx)
		get(st, id, stored, idx)
	} else if err == nil {
		v.Reach("opens after a failure")
		// as before the failed session
		q := v.U64("query")
		get(st, q, v.And(stored, q == id), idx)
	} else {
		v.Reach("refused after a failure")
		v.Assert(world.OpenFiles() == 0, "no file stays open")
	}
}

func proto() interface {
	recdb.Protocol
	OpenOrCreateFile(path string) (*os.File, error)
} {
	return recdb.NewProtocol(recdb.NewLikeProtocol()).(interface {
		recdb.Protocol
		OpenOrCreateFile(path string) (*os.File, error)
	})
}

func dbHeader(locked byte, n uint32) []byte {
	return world.Cat([]byte("RECDB"), []byte{1}, []byte("LIKE    "), []byte{locked}, world.U32(n))
}

// empty checks that the file iterates as an empty database.
func empty(f *os.File) {
	it, err := recdb.NewIterator(f, proto())
	v.Assert(err == nil, "a database")
	v.Assert(!it.HasNext(), "an empty one")
}

// C40_Database: a profile database opened by path, whatever is there.
func C40_Database() {
	dir := v.TempDir()
	path := dir + "/x.recdb"
	var was []byte
	there, good := true, true
	switch v.Choose("there", 4) {
	case 0:
		there = false
	case 1:
		was = v.Bytes("contents", v.Choose("length", v.Bound("bytes of a file", 24, 60)))
	case 2:
		p := &domain.Profile{UserID: v.U64("user"), Likes: []uint64{v.U64("item")}, Dislikes: []uint64{}}
		was = world.Cat(dbHeader(0, 1), world.U32(40), []byte{0}, world.U64(p.UserID), world.U32(1), world.U64(p.Likes[0]), world.U32(0), make([]byte, 11))
	default:
		path = dir + "/none/x.recdb"
		there, good = false, false
	}
	if there {
		v.Assert(os.WriteFile(path, was, 0644) == nil, "prepared")
	}
	f, err := proto().OpenOrCreateFile(path)
	v.Obs("opened", err == nil)
	v.Assert((err == nil) == good, "opens what can be opened")
	if err != nil {
		v.Assert(world.OpenFiles() == 0, "no file stays open after a failure")
		v.Assert(len(world.Files()) == 0, "no file is made")
		v.Reach("refused")
		return
	}
	others(path)
	if !there {
		was = dbHeader(0, 0)
		v.Reach("created")
	}
	b, err := io.ReadAll(f)
	v.Assert(err == nil, "readable")
	v.Assert(v.And(len(b) == len(was), v.EqBytes(b, was)), "the file from its beginning")
	if !there {
		empty(f)
	}
	v.Assert(f.Close() == nil, "closed")
	v.Assert(world.OpenFiles() == 0, "nothing else is open")
	b = read(path)
	v.Assert(v.And(len(b) == len(was), v.EqBytes(b, was)), "the file is as it was")
	// once more
	f, err = proto().OpenOrCreateFile(path)
	v.Assert(err == nil, "opens again")
	b, err = io.ReadAll(f)
	v.Assert(err == nil, "readable")
	v.Assert(v.And(len(b) == len(was), v.EqBytes(b, was)), "the same file")
	v.Assert(f.Close() == nil, "closed")
	v.Reach("done")
}

// C40_DatabaseFull: the disk is full while the database is created.
func C40_DatabaseFull() {
	path := v.TempDir() + "/x.recdb"
	room := v.Choose("room", len(dbHeader(0, 0))+2)
	world.LimitFiles(room)
	f, err := proto().OpenOrCreateFile(path)
	v.Obs("opened", err == nil)
	v.Assert((err == nil) == (room >= len(dbHeader(0, 0))), "a failure is reported, and only that")
	if err != nil {
		v.Assert(world.OpenFiles() == 0, "no file stays open after a failure")
		v.Reach("failed")
	} else {
		empty(f)
		v.Assert(f.Close() == nil, "closed")
	}
	world.LimitFiles(-1)
	f, err = proto().OpenOrCreateFile(path)
	if err != nil {
		v.Assert(world.OpenFiles() == 0, "no file stays open after a failure")
		return
	}
	it, err := recdb.NewIterator(f, proto())
	v.Assert(err != nil || !it.HasNext(), "no entries out of nowhere")
	f.Close()
	v.Assert(world.OpenFiles() == 0, "nothing else is open")
}

// C40_Crash: the process dies at any change of a file.
func C40_Crash() {
	id, idx := v.U64("id"), v.U64("index")
	was := v.Choose("sessions before", 2)
	world.Dying(func(dir string) {
		for i := 0; i < was; i++ {
			st, err := index.NewStorageFactory().OpenFile(dir + "/x.idx")
			v.Assert(err == nil && st.Put(id, idx) == nil && st.Close() == nil, "a session")
		}
	}, func(dir string) {
		st, err := index.NewStorageFactory().OpenFile(dir + "/x.idx")
		if err == nil {
			st.Put(id+1, idx)
			st.Close()
		}
		if f, err := proto().OpenOrCreateFile(dir + "/x.recdb"); err == nil {
			f.Close()
		}
	}, func(dir string, died bool) {
		st, err := index.NewStorageFactory().OpenFile(dir + "/x.idx")
		v.Assert(died || err == nil, "opens")
		if err == nil {
			_, second := st.Get(id + 1)
			v.Assert(died || second, "stored")
			get(st, id, was == 1, idx)
			q := v.U64("query")
			v.Assume(v.And(q != id, q != id+1))
			get(st, q, false, 0)
			v.Assert(st.Close() == nil, "closed")
			v.Reach("opens")
		} else {
			v.Reach("refused")
		}
		f, err := proto().OpenOrCreateFile(dir + "/x.recdb")
		v.Assert(err == nil, "opens")
		it, err := recdb.NewIterator(f, proto())
		v.Assert(died || err == nil, "a database")
		v.Assert(err != nil || !it.HasNext(), "no entries out of nowhere")
		f.Close()
		v.Assert(world.OpenFiles() == 0, "nothing stays open")
	})
}
